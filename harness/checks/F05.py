"""F05: rewriting and resetting fields (spec/Rewrite.tla)."""
import os
import random
import fields_h as fh
import history_h
import realtree
from lib import exc_name
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import Bits, Parser, MissingField, FieldSet
from hachoir.stream import StringInputStream


def make(prog):
    class Root(Parser):
        endian = BIG_ENDIAN

        def createFields(self):
            for it in prog:
                yield Bits(self, it["nm"] + ("[]" if it["ix"] else ""), it["w"])
    return Root



def new_fields(fs, ns):
    return [Bits(fs, x["nm"] + ("[]" if x["ix"] else ""), x["w"]) for x in ns]


def snap(fs):
    res = []
    for i in range(fs.current_length):
        f = fs.getField(i, const=True)
        d = {"nm": f.name, "a": f.address, "sz": f.size, "v": []}
        if type(f) is Bits:
            v = f.value
            d["v"] = [v >> (f.size - 1 - k) & 1 for k in range(f.size)]
        res.append(d)
    return res


def record(job):
    prog, src = job["prog"], bytes(job["src"])
    fs = make(prog)(StringInputStream(src))
    raised = []
    fs.connectEvent("field-replaced",
                    lambda o, n: raised.append(["replaced", o.name, n.name, 0]))
    fs.connectEvent("field-inserted",
                    lambda i, n: raised.append(["inserted", n.name, "", i]))
    ev = []
    r = random.Random("f5%s" % job["name"])
    ops = job.get("ops")
    count = len(ops) if ops else job["count"]
    for k in range(count):
        e = dict(ops[k]) if ops else choose(r, fs)
        if e is None:
            continue
        del raised[:]
        op = e["op"]
        try:
            e["res"] = "ok"
            if op == "feed":
                fs.readMoreFields(e["n"])
            elif op == "all":
                e["n"] = len(fs)
            elif op == "reset":
                fs.reset()
            elif op == "replace":
                fs.replaceField(e["nm"], new_fields(fs, e["ns"]))
            elif op == "write":
                if e["i"] > fs.current_length:
                    continue
                old = fs.getField(e["i"] - 1, const=True)
                fs.writeFieldsIn(old, old.address + e["off"],
                                 new_fields(fs, e["ns"]))
            elif op == "array":
                e["m"] = [{"a": f.address, "sz": f.size}
                          for f in fs.array(e["nm"])]
                if len(fs.array(e["nm"])) != len(e["m"]):
                    e["res"] = "length"
            elif op == "byaddr":
                f = fs.getFieldByAddress(e["a"])
                e["nm"] = "" if f is None else f.name
            elif op == "lookup":
                e["a"] = fs[e["nm"]].address
        except MissingField:
            e["res"] = "missing"
            e.setdefault("a", 0)
        except Exception as err:
            e["res"] = "refused" if op in ("replace", "write") \
                else exc_name(err)
        e["raised"] = [list(x) for x in raised]
        try:
            e["f"] = snap(fs)
            e["size"] = fs.size
        except Exception as err:
            e.update(f=[], size=-1, res=exc_name(err))
        ev.append(e)
    return {"name": job["name"], "prog": prog, "src": list(src), "ev": ev}


NAMES = ["a", "b", "c", "x", "x[0]", "x[1]", "padding", "padding[0]"]


def some_fields(r, total, exact):
    if not exact:
        total = max(1, total + r.choice((-2, -1, 1, 3)))
    ns = []
    while total > 0:
        w = r.randint(1, total)
        if len(ns) >= 3:
            w = total
        nm = r.choice(NAMES + [chr(r.randint(100, 119))] * 8)
        ns.append({"nm": nm, "ix": r.random() < .35, "w": w, "k": "leaf"})
        total -= w
    return ns


def choose(r, fs):
    n = fs.current_length
    c = r.random()
    if c < .2 or n == 0:
        return {"op": "feed", "n": r.choice((1, 1, 2, 4))}
    if c < .25:
        return {"op": "all"}
    if c < .55:
        f = fs.getField(r.randrange(n), const=True)
        nm = f.name
        if r.random() < .08:
            nm = r.choice(NAMES)
        ns = some_fields(r, f.size, r.random() < .85)
        if r.random() < .3 and ns:
            r.choice(ns).update(nm=nm.removesuffix("[]"),
                                ix=nm.endswith("[]"))
        return {"op": "replace", "nm": nm, "ns": ns}
    if c < .77:
        i = r.randint(1, n)
        f = fs.getField(i - 1, const=True)
        off = r.choice((0, 0, 1, r.randint(0, f.size)))
        left = f.size - off
        ns = some_fields(r, r.randint(1, max(1, left)), r.random() < .85)
        return {"op": "write", "i": i, "off": off, "ns": ns}
    if c < .84:
        return {"op": "array", "nm": r.choice(("x", "padding", "a"))}
    if c < .9:
        return {"op": "byaddr", "a": r.randint(0, fs.size + 3)}
    if c < .96:
        return {"op": "lookup", "nm": r.choice(NAMES)}
    return {"op": "reset"}


def tree_job(seed):
    """Reset and parse again, nested sets included."""
    r = random.Random(seed)
    prog = fh.rand_prog(r)
    w = dict(fh.WEIGHTS, reset=3)
    return {"name": "reset-%s" % seed, "prog": prog, "seed": seed,
            "src": r.randbytes(r.choice((3, 5, 8, 12))),
            "count": r.randint(10, 40), "mode": "explore", "weights": w}


def run(ctx):
    ctx.model_check("RewriteMC", ctx.n("RewriteMC", "RewriteMCBig"))
    jobs = []
    for i, h in enumerate(ctx.export("RewriteMC", "RewriteGen")):
        jobs.append({"name": "gen-%d" % i, "prog": h["prog"],
                     "src": [73, 172], "ops": h["ops"] + [{"op": "all"}]})
    if not ctx.thorough:
        ctx.rng.shuffle(jobs)
        jobs = jobs[:700]
    for i in range(ctx.n(700, 12000)):
        r = random.Random("%s-%d" % (ctx.seed, i))
        prog, left = [], 8 * r.randint(2, 9)
        src = r.randbytes(left // 8)
        while left > 0 and len(prog) < 7 and r.random() < .93:
            w = r.randint(1, min(left, 24))
            prog.append({"nm": r.choice(NAMES[:5]), "ix": r.random() < .4,
                         "w": w, "k": "leaf"})
            left -= w
        jobs.append({"name": "random-%s-%d" % (ctx.seed, i), "prog": prog,
                     "src": list(src), "count": r.randint(3, 25)})
    ctx.validate("RewriteTrace", ctx.pmap(record, jobs))
    jobs = [tree_job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(300, 5000))]
    ctx.validate("FieldTreeTrace", ctx.pmap(fh.record, jobs))
    # real documents, read in another order and again after resets
    jobs = [{"name": "%s-%s-%s%d" % (ctx.seed, os.path.basename(p), m, i),
             "file": p, "mode": m, "count": ctx.n(60, 120)}
            for p in realtree.samples(ctx.n(200000, 2000000))
            for m in "ntmb" for i in range(ctx.n(1, 8))]
    ctx.validate("HistoryTrace", [t for t in ctx.pmap(
        history_h.record, jobs, seconds=60) if t], chunk=10000,
        classify=lambda t, k: "%s.%s" % (t["parser"], t["ev"][k]["op"]))
