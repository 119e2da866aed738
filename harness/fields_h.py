"""Parser programs (spec/FieldTree.tla) run as real hachoir field sets, and
the recorder of accesses to them (spec/FieldTreeTrace.tla)."""
import hashlib
import random
from itertools import islice

from lib import exc_name
from hachoir.core import config
from hachoir.core.endian import BIG_ENDIAN
from hachoir import field as hf
from hachoir.field import (Parser, FieldSet, Bits, ParserError, StaticFieldSet,
                           GenericVector)
from hachoir.field.seekable_field_set import (RootSeekableFieldSet,
                                              SeekableFieldSet)
from hachoir.parser import createParser
from hachoir.stream import StringInputStream, InputStreamError

ITEM = {"k": "leaf", "nm": "", "ix": False, "w": 0, "ref": "", "mul": 0,
        "up": 0, "own": "", "rep": "", "loop": False, "skb": False, "peek": 0,
        "prog": []}
ERRORS = [ParserError, ValueError, InputStreamError, KeyError, hf.MatchError,
          AssertionError, ZeroDivisionError]


def item(**kw):
    d = dict(ITEM)
    d.update(kw)
    return d


def width(fs, it):
    if not it["ref"]:
        return it["w"]
    return it["w"] + it["mul"] * fs["../" * it["up"] + it["ref"]].value


def one(fs, it, style):
    k = it["k"]
    if k == "err":
        cls = ERRORS[it["w"] % len(ERRORS)]
        raise cls("planned error")
    name = it["nm"] + ("[]" if it["ix"] else "")
    if k == "leaf":
        return Bits(fs, name, width(fs, it))
    if k == "pad":
        return fs.seekBit(it["w"])
    if k == "seek":
        rel = it["mul"] == 0
        if it["w"] % 8 == 0:
            return fs.seekByte(it["w"] // 8, relative=rel)
        return fs.seekBit(it["w"], relative=rel)
    w = width(fs, it)
    impl = it.get("impl", "")
    if impl == "vector":
        x = it["prog"][0]

        class Item(Bits):
            static_size = x["w"]

            def __init__(self, parent, name):
                Bits.__init__(self, parent, name, x["w"])
        return GenericVector(fs, name, len(it["prog"]), Item, x["nm"])
    if impl == "static":
        class Stat(StaticFieldSet):
            format = tuple((Bits, p["nm"] + ("[]" if p["ix"] else ""), p["w"])
                           for p in it["prog"])
        return Stat(fs, name)
    if it["own"]:
        return own_set(it, style)(fs, name)
    f = make_set(it["prog"], style, it["skb"])(fs, name, size=w or None)
    if it["peek"]:
        f.readFirstFields(it["peek"])
    return f


def run_prog(fs, prog, style):
    for it in prog:
        if it["loop"]:
            while not fs.eof:
                f = one(fs, it, style)
                if f is not None:
                    yield f
        elif it["rep"]:
            for _ in range(fs[it["rep"]].value):
                f = one(fs, it, style)
                if f is not None:
                    yield f
        else:
            f = one(fs, it, style)
            if f is not None:
                yield f


def make_set(prog, style=0, skb=False):
    class Set(SeekableFieldSet if skb else FieldSet):
        def createFields(self):
            yield from run_prog(self, prog, style)
    return Set


def own_set(it, style=0):
    """The set reads its size from its own first fields."""
    class OwnSet(FieldSet):
        def __init__(self, parent, name):
            FieldSet.__init__(self, parent, name)
            self._size = it["w"] + it["mul"] * self[it["own"]].value

        def createFields(self):
            yield from run_prog(self, it["prog"], style)
    return OwnSet


def make_parser(prog, fix=True, style=0, skb=False):
    if skb:
        class SeekRoot(RootSeekableFieldSet, Parser):
            endian = BIG_ENDIAN
            autofix = fix

            def __init__(self, stream, **args):
                RootSeekableFieldSet.__init__(
                    self, None, "root", stream, None, stream.askSize(self))
                Parser.__init__(self, stream, **args)

            def createFields(self):
                yield from run_prog(self, prog, style)
        return SeekRoot

    class Root(Parser):
        endian = BIG_ENDIAN
        autofix = fix

        def createFields(self):
            yield from run_prog(self, prog, style)
    return Root


def rand_prog(r, depth=0, clean=False, outer=(), fits=True, peek=0):
    """Random parser program.  outer: names and widths of fields which the
    enclosing sets have by then; fits: sets are not smaller than what tells
    their size."""
    prog = []
    n = r.randint(1 if depth else 2, 5 - depth)
    simple = []        # leaves whose value may be referred to
    for _ in range(n):
        c = r.random()
        nm = r.choice("abcx")
        ix = nm == "x" or r.random() < .15
        if c < .45 or depth >= 3 and c < .8:
            w = r.choice((1, 2, 3, 4, 8, 8, 8, r.randint(1, 24)))
            it = item(nm=nm, ix=ix, w=w)
            if any(outer) and r.random() < .2:
                up = r.choice([i for i, o in enumerate(outer) if o])
                ref, rw = r.choice(outer[up])
                it.update(ref=ref, up=up + 1, w=r.randint(1, 3),
                          mul=r.choice((1, 2)) if rw > 3 else r.randint(1, 6))
            elif simple and r.random() < .25:
                ref, rw = r.choice(simple)
                it.update(ref=ref, w=r.randint(1, 3),
                          mul=r.choice((1, 2)) if rw > 3 else r.randint(1, 6))
            elif not ix and w <= 6 and nm not in [s[0] for s in simple] \
                    and nm not in [p["nm"] for p in prog]:
                simple.append((nm, w))
            prog.append(it)
        elif c < .85 and depth < 3:
            nm = r.choice("stu")
            sub = rand_prog(r, depth + 1, clean, (simple,) + outer, fits,
                            peek)
            it = item(k="set", nm=nm, ix=r.random() < .5,
                      w=r.choice((0, 0, 8, 16, r.randint(1, 40))), prog=sub)
            z = r.random()
            if z < .12:
                m = r.randint(1, 4)
                x = item(nm="x", ix=True, w=r.randint(1, 9))
                it.update(prog=[x] * m, w=m * x["w"], impl="vector")
            elif z < .22:
                ps = [item(nm=q, ix=q == "x", w=r.randint(1, 9))
                      for q in r.sample("abx", r.randint(1, 3))]
                it.update(prog=ps, w=sum(p["w"] for p in ps), impl="static")
            elif simple and z < .36:
                it.update(ref=r.choice(simple)[0], w=r.randint(1, 8),
                          mul=r.randint(1, 3))
                if peek and r.random() < .4:
                    it["peek"] = r.randint(1, 4)
            elif peek and z < .55:
                it.update(w=r.randint(4, 60), peek=r.randint(1, 4))
            elif z < .7 if peek else z < .55:
                k = r.randint(0, min(2, len(sub)))
                head = [p for p in sub[:k] if p["k"] == "leaf"
                        and not p["ref"] and not p["loop"] and not p["rep"]]
                own = item(nm=r.choice("lz"), w=r.randint(1, 5))
                m = sum(p["w"] for p in head) + own["w"]
                it.update(prog=head + [own] + sub[k:], own=own["nm"],
                          w=r.randint(m if fits else 0, m + 24),
                          mul=r.choice((1, 1, 2, 8)))
            prog.append(it)
        elif c < .93:
            prog.append(item(k="pad", w=r.choice((8, 16, 24, r.randint(1, 40)))))
        elif not clean:
            prog.append(item(k="err", w=r.randrange(len(ERRORS))))
    cand = [i for i, p in enumerate(prog) if p["k"] in ("leaf", "set")
            and not p.get("impl")
            and p["nm"] not in [q[0] for q in simple]]
    if r.random() < .3:
        c2 = [i for i in cand if prog[i]["k"] == "leaf" or prog[i]["w"]
              or prog[i]["prog"]]
        if c2:
            prog[r.choice(c2)]["loop"] = True
    if r.random() < .3:
        c2 = [i for i in cand if not prog[i]["loop"] and
              [q for q in simple if q[1] <= 3 and defined(prog, q[0], i)]]
        if c2:
            i = r.choice(c2)
            prog[i]["rep"] = r.choice([q[0] for q in simple if q[1] <= 3
                                       and defined(prog, q[0], i)])
    return prog


def seekify(r, prog, skb, size):
    """Make sets seekable and add seeks."""
    prog = [dict(it) for it in prog]
    for it in prog:
        if it["k"] == "set" and not it.get("impl"):
            it["skb"] = not it["own"] and r.random() < .5
            it["prog"] = seekify(r, it["prog"], it["skb"], size)
        elif it["k"] == "pad" and skb:
            it["k"] = "seek"
    if skb:
        for _ in range(r.choice((0, 1, 1, 2, 3, 4))):
            w = r.choice((0, 8, r.randint(0, size), r.randint(0, 24),
                          r.randint(0, size // 8) * 8, size,
                          r.randint(-2, size + 20)))
            prog.insert(r.randint(0, len(prog)),
                        item(k="seek", w=w, mul=int(r.random() < .4)))
    return prog


def defined(prog, nm, i):
    return any(p["nm"] == nm and p["k"] == "leaf" for p in prog[:i])


def describe(f):
    d = {"t": "ok", "top": f["/"].path,
         "up": "" if f.parent is None else f.parent.path, "path": f.path, "name": f.name, "a": f.address,
         "abs": f.absolute_address, "sz": f.size,
         "set": bool(f.is_field_set), "idx": -1}
    if f.parent is not None:
        i = f.index
        d["idx"] = -1 if i is None else i
    return d


def part(c):
    if c.strip(".") == "":
        return {"nm": "", "up": max(0, len(c) - 1)}
    return {"nm": c, "up": -1}


class Client:
    """Executes operations against a real tree and records what it sees."""
    real = False

    def __init__(self, root):
        self.held = {"/": root}
        self.its = []
        self.it_at = []
        self.ev = []

    def cl(self):
        return {p: f.current_length for p, f in self.held.items()
                if f.is_field_set and (not self.real or p in self.opened)}

    def keep(self, f):
        d = describe(f)
        self.held.setdefault(d["path"], f)
        return d

    def run(self, op):
        e = dict(op)
        try:
            e["res"] = self.do(e)
        except ParserError as err:
            e["res"] = {"t": "parser-error"}
        except KeyError:
            e["res"] = {"t": "missing"}
        except StopIteration:
            e["res"] = {"t": "stop"}
        except Exception as err:
            e["res"] = {"t": exc_name(err)}
        e.pop("key", None)
        e.pop("akey", None)
        try:
            e["cl"] = self.cl()
        except Exception as err:
            e["cl"] = {"/": -1}
            e["res"] = {"t": exc_name(err)}
        self.ev.append(e)
        return e

    def do(self, e):
        op = e["op"]
        f = self.held[e["at"]] if e["at"] else None
        if op == "idx":
            if e["const"]:
                return self.keep(f.getField(e["i"], const=True))
            return self.keep(f[e["i"]])
        if op == "path":
            key = e["key"]
            if e["test"]:
                return {"t": "ok", "b": key in f}
            if e["const"]:
                return self.keep(f.getField(key, const=True))
            return self.keep(f[key])
        if op == "len":
            return {"t": "ok", "v": len(f)}
        if op == "size":
            return {"t": "ok", "v": f.size}
        if op == "value":
            v = f.value
            if self.real:
                return {"t": "ok", "v": real_value(f)}
            if f.is_field_set:
                return {"t": "ok", "bits": []}
            if v is None:
                return {"t": "none"}
            if isinstance(v, bytes):
                n = 8 * len(v)
                v = int.from_bytes(v, "big")
            else:
                n = f.size
            return {"t": "ok", "bits": [v >> (n - 1 - i) & 1 for i in range(n)]}
        if op == "more":
            return {"t": "ok", "v": f.readMoreFields(e["n"])}
        if op == "first":
            return {"t": "ok", "v": f.readFirstFields(e["n"])}
        if op == "iter":
            self.its.append(iter(f))
            self.it_at.append(e["on"])
            return {"t": "ok"}
        if op == "next":
            return self.keep(next(self.its[e["it"] - 1]))
        if op == "byaddr":
            g = f.getFieldByAddress(e["a"], e["feed"])
            return {"t": "none"} if g is None else self.keep(g)
        if op == "agetlen":
            return {"t": "ok", "v": len(f.array(e["akey"]))}
        if op == "aget":
            if e["test"]:
                return {"t": "ok", "b": e["i"] in f.array(e["akey"])}
            return self.keep(f.array(e["akey"])[e["i"]])
        if op == "abool":
            return {"t": "ok", "b": bool(f.array(e["akey"]))}
        if op == "aiter":
            return {"t": "ok", "v": [self.keep(g)["path"]
                                     for g in f.array(e["akey"])]}
        if op == "show":
            return describe(f)
        if op == "reset":
            f.reset()
            pre = e["at"].rstrip("/") + "/"
            for p in list(self.held):
                if p != e["at"] and p.startswith(pre):
                    del self.held[p]
            return {"t": "ok"}
        raise ValueError(op)


def real_value(f):
    if f.is_field_set:
        return "set"
    v = f.value
    return "%s:%s" % (type(v).__name__,
                      hashlib.md5(repr(v).encode("utf8", "replace"))
                      .hexdigest()[:12])


def table(root, nodes, width):
    """Table of a complete in-order parse, sets wider than width (or beyond
    the number of nodes) left closed.  Returns rows and open paths."""
    rows = []
    opened = []
    todo = [(root, "", 0)]
    while todo:
        f, up, idx = todo.pop(0)
        row = {"path": f.path, "name": f.name, "a": f.address,
               "abs": f.absolute_address, "sz": f.size,
               "set": bool(f.is_field_set), "up": up, "idx": idx, "k": "real",
               "pre": 0, "und": False, "bad": False, "trim": False, "skb": False,
               "val": "set" if f.is_field_set else "", "ch": []}
        rows.append(row)
        if f.is_field_set:
            if len(rows) + len(todo) < nodes and \
                    f.stream is root.stream and \
                    not isinstance(f, RootSeekableFieldSet):
                kids = list(islice(f, width + 1))
                if len(kids) <= width:
                    opened.append(f.path)
                    row["ch"] = [k.path for k in kids]
                    todo += [(k, f.path, i) for i, k in enumerate(kids)]
                    continue
            row["k"] = "closed"
        else:
            row["val"] = real_value(f)
    return rows, opened


def flatten_impl(prog):
    """Programs as the specification reads them."""
    res = []
    for it in prog:
        it = dict(it)
        it.pop("impl", None)
        it["prog"] = flatten_impl(it["prog"])
        res.append(it)
    return res


WEIGHTS = {"idx": 5, "path": 6, "len": 1, "size": 1, "value": 2, "more": 2,
           "first": 1, "iter": 1.5, "next": 6, "byaddr": 1, "agetlen": .7,
           "aget": 1.5, "abool": .5, "aiter": .5, "show": 2, "reset": .2}


def explore(r, c, count, weights):
    """Random accesses, guided by what has been seen so far."""
    names = list(weights)
    w = [weights[k] for k in names]
    seen_names = ["a", "b", "x[0]", "s", "s[0]", "raw[]", "padding[0]"]
    while len(c.ev) < count:
        op = r.choices(names, w)[0]
        sets = [p for p, f in c.held.items() if f.is_field_set]
        anyp = r.choice(list(c.held))
        at = r.choice(sets)
        e = {"op": op, "at": at}
        if op == "idx":
            e["i"] = r.choice((0, 0, 1, 1, 2, 3, 4, 6, 30, -1))
            e["const"] = r.random() < .15
        elif op == "path":
            e["at"] = anyp
            parts = []
            e["abs"] = r.random() < .25
            for _ in range(r.randint(0 if e["abs"] else 1, 3)):
                z = r.random()
                if z < .15:
                    parts.append(r.choice(("..", "..", ".", "...", "")))
                else:
                    parts.append(r.choice(seen_names))
            if r.random() < .4:
                # a path towards something seen
                tgt = r.choice(list(c.held))
                tp = [x for x in tgt.split("/") if x]
                if e["abs"]:
                    parts = tp
                else:
                    sp = [x for x in anyp.split("/") if x]
                    k = 0
                    while k < len(sp) and k < len(tp) and sp[k] == tp[k]:
                        k += 1
                    parts = [".."] * (len(sp) - k) + tp[k:] or ["."]
            key = ("/" if e["abs"] else "") + "/".join(parts)
            if key == "" or (not e["abs"] and key[0] == "/"):
                continue
            if key == "/":
                parts = []
            e.update(key=key, parts=[part(p) for p in parts],
                     const=False, test=r.random() < .2)
            if not e["test"] and r.random() < .15:
                e["const"] = True
        elif op in ("more", "first"):
            e["n"] = r.choice((1, 1, 2, 3, 9))
        elif op == "iter":
            if len(c.its) >= 5:
                continue
            e["on"] = at
        elif op == "next":
            if not c.its:
                continue
            e["it"] = r.randint(1, len(c.its))
            if c.its[e["it"] - 1] is None:
                continue
            e["at"] = ""
        elif op == "byaddr":
            e["a"] = r.choice((0, 7, 8, 15, 16, r.randint(0, 100)))
            e["feed"] = r.random() < .6
        elif op in ("agetlen", "aget", "abool", "aiter"):
            e.update(nm=r.choice("xxsstabu"), sub=[])
            e["akey"] = e["nm"]
            if r.random() < .3:
                sub = [r.choice(seen_names + ["..", ".", "s[0]"])
                       for _ in range(r.randint(1, 2))]
                e["sub"] = [part(x) for x in sub]
                e["akey"] = "/".join(sub) + "/" + e["nm"]
            if r.random() < .5:
                array_burst(r, c, e)
                continue
            if op == "aget":
                e["i"] = r.choice((0, 0, 1, 2, 3, 5, 9, -1))
                e["test"] = r.random() < .3
        elif op in ("show", "value", "size"):
            e["at"] = anyp
        elif op == "reset":
            if len(c.ev) > count * .8:
                continue
        e = c.run(e)
        if op == "reset":
            # iterators under the set are gone with what they iterated on
            pre = at.rstrip("/") + "/"
            for i, p in enumerate(c.it_at):
                if p == at or p.startswith(pre):
                    c.its[i] = None
        if e["res"].get("name"):
            seen_names.append(e["res"]["name"])
            if len(seen_names) > 16:
                seen_names.pop(0)


def array_burst(r, c, e):
    """Several questions to one array view, elements in any order."""
    top = r.choice((1, 2, 3, 4, 6))
    ops = []
    for _ in range(r.randint(3, 9)):
        op = r.choice(("aget", "aget", "aget", "agetlen", "aiter", "abool"))
        d = {"op": op, "at": e["at"], "nm": e["nm"], "sub": e["sub"],
             "akey": e["akey"]}
        if op == "aget":
            d.update(i=r.choice((r.randint(0, top), r.randint(0, top), -1)),
                     test=r.random() < .4)
        ops.append(d)
    for d in ops + [dict(e, op="agetlen")]:
        c.run(d)


def walk(c, seen=None):
    """A complete in-order walk by iteration."""
    todo = ["/"]
    while todo:
        p = todo.pop()
        c.run({"op": "len", "at": p})
        e = c.run({"op": "iter", "at": p, "on": p})
        k = len(c.its)
        kids = []
        while True:
            e = c.run({"op": "next", "at": "", "it": k})
            if e["res"]["t"] != "ok" or len(c.ev) > 400:
                break
            kids.append((e["res"]["path"], e["res"]["set"]))
        for q, is_set in reversed(kids):
            if is_set:
                todo.append(q)
            else:
                c.run({"op": "value", "at": q})


def record(job):
    """job: name, prog, src, seed, count, weights, mode"""
    r = random.Random("r" + str(job["seed"]))
    fix = job.get("fix", True)
    skb = job.get("skb", False)
    t = {"name": job["name"], "prog": flatten_impl(job["prog"]),
         "src": list(job["src"]), "fix": fix, "skb": skb}
    try:
        root = make_parser(job["prog"], fix, skb=skb)(StringInputStream(job["src"]))
    except Exception as err:
        t["ev"] = [{"op": "len", "at": "/", "res": {"t": exc_name(err)},
                    "cl": {"/": 0}}]
        return t
    c = Client(root)
    mode = job["mode"]
    if mode == "explore":
        explore(r, c, job["count"], job.get("weights", WEIGHTS))
    elif mode == "ops":
        for op in job["ops"]:
            if op["at"] not in c.held:
                # reach the set first
                key = op["at"]
                c.run({"op": "path", "at": "/", "abs": True, "key": key,
                       "parts": [part(p) for p in key.split("/") if p],
                       "const": False, "test": False})
                if op["at"] not in c.held:
                    break
            c.run(dict(op))
    if mode in ("walk", "explore", "ops") and fix:
        walk(c)
    if mode == "strict":
        strict_walk(c)
    t["ev"] = c.ev
    return t


def strict_walk(c):
    """Repair off: by index until the error, then what was parsed before."""
    todo = ["/"]
    while todo:
        p = todo.pop()
        i = 0
        kids = []
        while True:
            e = c.run({"op": "idx", "at": p, "i": i, "const": False})
            if e["res"]["t"] != "ok" or i > 60:
                break
            kids.append((e["res"]["path"], e["res"]["set"]))
            i += 1
        for k in range(i):
            c.run({"op": "idx", "at": p, "i": k, "const": True})
        for q, is_set in reversed(kids):
            if is_set:
                todo.append(q)
            else:
                c.run({"op": "value", "at": q})


def explore_real(r, c, count, rows, opened, weights=WEIGHTS):
    """Random accesses to a shipped parser's tree; only sets whose children
    are all in the table are asked."""
    tab = {x["path"]: x for x in rows}
    opened = set(opened)
    bases = ["x"]
    for x in rows:
        if x["name"].endswith("]"):
            bases.append(x["name"].split("[")[0])
    while len(c.ev) < count:
        held = list(c.held)
        sets = [p for p in held if p in opened]
        at = r.choice(sets)
        op = r.choices(list(weights), list(weights.values()))[0]
        e = {"op": op, "at": at}
        if op == "idx":
            e.update(i=r.randint(0, len(tab[at]["ch"])), const=False)
        elif op == "path":
            tgt = r.choice(rows)["path"]
            up = tab[tgt]["up"]
            if up and up not in opened:
                continue
            e["at"] = r.choice(held)
            e["abs"] = r.random() < .5
            parts = [x for x in tgt.split("/") if x]
            if not e["abs"]:
                sp = [x for x in e["at"].split("/") if x]
                k = 0
                while k < len(sp) and k < len(parts) and sp[k] == parts[k]:
                    k += 1
                parts = [".."] * (len(sp) - k) + parts[k:] or ["."]
            if r.random() < .1 and tgt != "/" and parts[-1] != ".":
                parts[-1] = "nope"
            key = ("/" if e["abs"] else "") + "/".join(parts)
            e.update(key=key, parts=[part(p) for p in parts], const=False,
                     test=r.random() < .2)
        elif op in ("more", "first"):
            e["n"] = r.randint(1, 5)
        elif op == "iter":
            if len(c.its) >= 5:
                continue
            e["on"] = at
        elif op == "next":
            if not c.its:
                continue
            e.update(it=r.randint(1, len(c.its)), at="")
        elif op == "byaddr":
            e.update(a=r.randint(0, tab[at]["sz"]), feed=r.random() < .6)
            if any(tab[q]["sz"] == 0 for q in tab[at]["ch"]):
                continue
        elif op in ("agetlen", "aget", "abool", "aiter"):
            e.update(nm=r.choice(bases), sub=[])
            e["akey"] = e["nm"]
            if r.random() < .4:
                array_burst(r, c, e)
                continue
            if op == "aget":
                e.update(i=r.choice((0, 0, 1, 2, 3, 5, 9)), test=r.random() < .3)
        elif op in ("show", "value", "size"):
            e["at"] = r.choice(held)
        else:
            continue
        c.run(e)
    for p in sorted(opened):
        if r.random() < .4:
            c.run({"op": "path", "at": "/", "abs": True, "key": p,
                   "parts": [part(x) for x in p.split("/") if x],
                   "const": False, "test": False})
            c.run({"op": "len", "at": p})


def record_real(job):
    """job: file, seed, count"""
    r = random.Random("R%s" % job["seed"])
    ref = createParser(job["file"])
    if ref is None:
        return None
    cls = type(ref)
    ref.close()
    data = open(job["file"], "rb").read()
    name = "%s %s" % (job["file"].rsplit("/", 1)[1], job["seed"])
    if r.random() < job.get("cut", 0):
        data = data[:r.randint(len(data) // 3, len(data))]
        name += " cut %d" % len(data)
    try:
        rows, opened = table(cls(StringInputStream(data)), 150, 40)
    except Exception:
        return None         # F01/F03 report those
    if "/" not in opened:
        return None
    c = Client(cls(StringInputStream(data)))
    c.real = True
    c.opened = set(opened)
    explore_real(r, c, job["count"], rows, opened,
                 job.get("weights", WEIGHTS))
    return {"name": name, "tab": rows, "src": [], "ev": c.ev}
