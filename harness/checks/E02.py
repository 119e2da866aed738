"""E02: structure of edited documents (spec/Editor.tla)."""
import json
import random
import editor_h as eh


def run(ctx):
    ctx.model_check("EditorMC", ctx.n("EditorMC", "EditorMCBig"))
    items = [dict(eh.LEAF, nm="a", k="int", w=8),
             dict(eh.LEAF, nm="s", k="set", ch=[
                 dict(eh.LEAF, nm="p", k="bits", w=3),
                 dict(eh.LEAF, nm="q", k="bits", w=5)]),
             dict(eh.LEAF, nm="t", k="str", fmt="Pascal8", w=16)]
    seen = {json.dumps(h["ops"]) for h in ctx.export("EditorMC", "EditorGen")}
    scripts = sorted(seen)
    ctx.rng.shuffle(scripts)
    jobs = []
    r = random.Random("e02%s" % ctx.seed)
    for i, h in enumerate(scripts[:ctx.n(900, 20000)]):
        ops = []
        for e in json.loads(h) + json.loads(r.choice(scripts))[:i % 3]:
            ops += [e] + ([{"op": "list", "p": e["p"]}]
                          if e["op"] == "ins" else [])
        jobs.append({"name": "gen-%d" % i, "items": items, "en": "BE",
                     "src": [201, 90, 1, 65], "ops": ops})
    ctx.validate("EditorTrace", ctx.pmap(eh.record, jobs))
    jobs = []
    for i in range(ctx.n(700, 10000)):
        j = eh.rand_job("%s-s%d" % (ctx.seed, i))
        j["count"] = r.randint(8, 40)
        if i % 3 == 0:
            j["first"] = [r.choice(("list", "size", "write", "reset"))]
        jobs.append(j)
    ctx.validate("EditorTrace", ctx.pmap(eh.record, jobs))
