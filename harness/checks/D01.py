"""D01: the ordered dictionary behind every field set (spec/OrderedDict.tla)."""
import random
from lib import exc_name
from hachoir.core.dict import Dict


def observe(d):
    items = [list(x) for x in d.items()]
    return {"items": items, "values": list(d.values),
            "keys": list(d.iterkeys()), "len": len(d),
            }


def record(script):
    name, init, ops = script
    d = Dict([tuple(x) for x in init]) if init else Dict()
    ev = []
    for op in ops:
        e = dict(op)
        try:
            o = op["op"]
            if o == "append":
                v = d.append(op["k"], op["v"])
            elif o == "insert":
                v = d.insert(op["i"], op["k"], op["v"])
            elif o == "set":
                d[op["k"]] = op["v"]
                v = None
            elif o == "replace":
                v = d.replace(op["k"], op["k2"], op["v"])
            elif o == "delete":
                del d[op["i"]]
                v = None
            elif o == "get":
                v = d[op["k"]]
            elif o == "index":
                v = d.index(op["k"])
            e["res"] = {"t": "ok", "v": -1 if v is None else v}
        except Exception as err:
            e["res"] = {"t": exc_name(err), "v": -1}
        ob = observe(d)
        # secondary observations must agree with the items
        try:
            agree = (list(d) == ob["values"] == list(d.itervalues())
                     and all(k in d and d[k] == v and d.index(k) == i
                             for i, (k, v) in enumerate(ob["items"]))
                     and all(k not in d for k in range(1, 12)
                             if k not in ob["keys"]))
        except Exception as err:
            agree = False
        if not agree:
            ob["len"] = -2
        e["obs"] = ob
        ev.append(e)
    return {"name": name, "init": init, "ev": ev}


def rand_script(seed):
    r = random.Random(seed)
    n = r.randint(0, 4)
    nk = r.choice((4, 8))
    keys = r.sample(range(1, nk + 1), n)
    init = [[k, r.randrange(5)] for k in keys]
    ops = []
    for _ in range(r.randint(5, 40)):
        o = r.choice(["append", "insert", "insert", "set", "replace",
                      "delete", "get", "index"])
        op = {"op": o}
        if o in ("insert", "delete"):
            op["i"] = r.randint(-7, 7)
        if o != "delete":
            op["k"] = r.randint(1, nk)
        if o == "replace":
            op["k2"] = r.randint(1, nk)
        if o in ("append", "insert", "set", "replace"):
            op["v"] = r.randrange(9)
        ops.append(op)
    return ("random-%s" % seed, init, ops)


def run(ctx):
    ctx.model_check("OrderedDictMC")
    scripts = ctx.export("OrderedDictMC", "OrderedDictGen")
    jobs = [("gen-%d" % i, [], h) for i, h in enumerate(scripts)]
    jobs += [rand_script("%s-%d" % (ctx.seed, i))
             for i in range(ctx.n(1500, 20000))]
    traces = ctx.pmap(record, jobs)
    ctx.validate("OrderedDictTrace", traces)
