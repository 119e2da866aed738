"""R02: searching many patterns at the same time (spec/Patterns.tla)."""
import random
import warnings
import regex_h as rh
from lib import exc_name
from hachoir.regex import PatternMatching


def record(job):
    warnings.simplefilter("ignore")
    r = random.Random(job["name"])
    alpha = r.choice(rh.ALPHAS)
    g = rh.Gen(r, alpha, nots=r.random() < .2)
    p = PatternMatching()
    ev, asts = [], []
    for i in range(job["n"]):
        x = r.random()
        if x < .3 or not asts:
            if asts and r.random() < .3:
                base = rh.walk(r, r.choice(asts), alpha, 6)
                s = (base + r.choice(alpha))[:r.randint(1, len(base) + 1)]
            else:
                s = "".join(r.choice(alpha) for k in range(r.randint(1, 4)))
            if r.random() < .02:
                s = ""
            ast = rh.node("str", s=rh.codes(s)) if s else rh.node("empty")
            if rh.known(rh.node("or", a=asts + [ast])):
                continue
            e = {"op": "string", "s": rh.codes(s), "id": i, "res": "ok"}
            try:
                p.addString(s, i)
                asts.append(ast)
            except Exception as err:
                e["res"] = exc_name(err)
        elif x < .55:
            ast = g.expr(r.choice((1, 1, 2, 2, 3)))
            if rh.size(ast) > 14 or rh.known(rh.node("or", a=asts + [ast])):
                continue
            e = {"op": "regex", "e": ast, "id": i, "res": "ok"}
            try:
                p.addRegex(rh.text(ast), i)
                asts.append(ast)
            except ValueError:
                e["res"] = "ValueError"
            except Exception as err:
                e["res"] = exc_name(err)
        elif x < .85:
            s = ""
            for k in range(r.randint(0, 4)):
                w = rh.walk(r, r.choice(asts), alpha, 8)
                if r.random() < .3:
                    w = w[r.randint(0, len(w)):]
                s += w + r.choice(("", r.choice(alpha)))
            s = s[:28]
            e = {"op": "search", "d": rh.codes(s), "found": [], "res": "ok"}
            try:
                e["found"] = [[a, b, item.user] for a, b, item in p.search(s)]
            except Exception as err:
                e["res"] = exc_name(err)
        elif x < .95:
            s = rh.walk(r, r.choice(asts), alpha, 8)
            s += r.choice(("", "", r.choice(alpha)))
            e = {"op": "which", "d": rh.codes(s), "id": -1, "res": "ok"}
            try:
                e["id"] = p.getPattern(s).user
            except KeyError:
                e["res"] = "KeyError"
            except Exception as err:
                e["res"] = exc_name(err)
        else:
            e = {"op": "longest"}
            try:
                e["n"] = p.max_length
            except Exception as err:
                e["n"] = -1
        ev.append(e)
    return {"name": job["name"], "ev": ev}


def run(ctx):
    ctx.model_check("PatternsMC", "PatternsMC", min_states=10000)
    if ctx.thorough:
        ctx.model_check("PatternsMC", "PatternsMCBig", min_states=50000)
    jobs = [{"name": "p%s-%d" % (ctx.seed, i), "n": 6 + i % 20}
            for i in range(ctx.n(4000, 40000))]
    ctx.validate("PatternsTrace", ctx.pmap(record, jobs))
