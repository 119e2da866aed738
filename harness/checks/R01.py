"""R01: regular expressions (spec/Regex.tla)."""
import regex_h as rh
from regex_h import node


def classify(t, k):
    e = t["ev"][k]
    return "%s:%s" % (e["op"], e.get("sig", ""))


def lit(s):
    return node("str", s=rh.codes(s))


def fixed():
    """The simplifications known to be wrong, which tests ask for."""
    out = lambda c: node("range", r=[[ord(c), ord(c)]], x=True)
    more = node("rep", a=[lit("a")], lo=2, hi=-1)
    return [{"name": "exclude", "alpha": "ab",
             "exprs": [node("or", a=[out("a"), out("b")])]},
            {"name": "repeat-or", "alpha": "ab", "words": ["aaa", "aab", "b"],
             "exprs": [node("rep", a=[node("or", a=[more, lit("b")])],
                            lo=0, hi=-1)]}]


def run(ctx):
    ctx.model_check("RegexMC", "RegexMC", min_states=5000)
    if ctx.thorough:
        ctx.model_check("RegexMC", "RegexMCBig", min_states=20000)
    small = ctx.export("RegexMC", "RegexGen")
    ctx.rng.shuffle(small)
    words = sorted({"".join(map(chr, w)) for x in small[:200]
                    for w in x["w"]} | {"", "a", "b", "\n", "ab\n", "\n\n"})
    if not ctx.thorough:
        small = small[:3000]
    jobs = [{"name": "s%d" % i, "exprs": [x["e"] for x in small[i:i + 20]],
             "words": words} for i in range(0, len(small), 20)]
    jobs += fixed()
    jobs += [{"name": "r%s-%d" % (ctx.seed, i), "anchors": i % 4 == 1,
              "nots": i % 8 == 2, "count": 6 + i % 5}
             for i in range(ctx.n(1500, 20000))]
    jobs += [{"name": "c%s-%d" % (ctx.seed, i), "classes": 12}
             for i in range(ctx.n(60, 1500))]
    ctx.validate("RegexTrace", ctx.pmap(rh.record, jobs), classify=classify)
