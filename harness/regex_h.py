"""Driver of hachoir.regex: expressions built from each other at random, and
observed by what their texts match."""
import itertools
import random
import re
import warnings
from hachoir.regex import (
    RegexEmpty, RegexString, createString, RegexRangeItem, createRange,
    RegexRange, RegexAnd, RegexOr, RegexRepeat, RegexDot, RegexStart,
    RegexEnd, RegexWord, parse)

E0 = {"k": "", "s": [], "r": [], "x": False, "a": [], "lo": 0, "hi": 0}
CLS = {"empty": RegexEmpty, "start": RegexStart, "end": RegexEnd,
       "word": RegexWord, "dot": RegexDot}
SPECIAL = "^.+*?{}[]|()\\$"


def codes(s):
    return [ord(c) for c in s]


def node(k, **kw):
    return dict(E0, k=k, **kw)


def text(e):
    """The text of an expression as the specification writes it."""
    k = e["k"]
    if k == "str":
        return "".join("\\" + chr(c) if chr(c) in SPECIAL else chr(c)
                       for c in e["s"])
    if k == "range":
        out = ""
        for lo, hi in e["r"]:
            if lo == hi:
                out += "\\" + chr(lo) if chr(lo) in "\\]^-[" else chr(lo)
            else:
                out += chr(lo) + "-" + chr(hi)
        return "[%s%s]" % ("^" if e["x"] else "", out)
    if k == "and":
        return "".join(text(x) for x in e["a"])
    if k == "or":
        return "(%s)" % "|".join(text(x) for x in e["a"])
    if k == "rep":
        x, lo, hi = e["a"][0], e["lo"], e["hi"]
        t = text(x)
        if x["k"] not in ("dot", "range", "or") \
                and not (x["k"] == "str" and len(x["s"]) == 1):
            t = "(%s)" % t
        if (lo, hi) in ((0, -1), (1, -1), (0, 1)):
            return t + {(0, -1): "*", (1, -1): "+", (0, 1): "?"}[lo, hi]
        if lo == hi:
            return "%s{%d}" % (t, lo)
        return "%s{%d,%s}" % (t, lo, "" if hi == -1 else hi)
    return {"empty": "", "start": "^", "end": "$", "word": "\\b",
            "dot": "."}[k]


# --- random expressions ------------------------------------------------------
class Gen:
    def __init__(self, r, alpha, anchors=False, nots=False, simple=False):
        self.r, self.alpha = r, alpha
        self.anchors, self.nots, self.simple = anchors, nots, simple

    def chars(self, n):
        return [ord(self.r.choice(self.alpha)) for i in range(n)]

    def range(self):
        r = self.r
        rs = []
        for i in range(r.choice((1, 1, 2, 3))):
            c = ord(r.choice(self.alpha))
            if r.random() < .4:
                c = r.choice((c, 97, 48))
                d = c + r.choice((1, 1, 2, 3))
                if not {c, d} & {92, 93, 94, 45, 91}:
                    rs.append([c, d])
                    continue
            rs.append([c, c])
        return node("range", r=rs, x=self.nots and r.random() < .3)

    def atom(self):
        r = self.r
        p = r.random()
        if p < .55:
            return node("str", s=self.chars(r.choice((1, 1, 1, 2, 2, 3))))
        if p < .75:
            return self.range()
        if p < .85:
            return node("dot")
        if p < .92 or not self.anchors:
            return node("empty")
        return node(r.choice(("start", "end", "word")))

    def reps(self):
        r = self.r
        lo = r.choice((0, 0, 1, 1, 2, 3))
        hi = r.choice((-1, -1, lo, lo + 1, lo + 2, 1))
        if hi == 0 or (lo, hi) == (1, 1) or (hi != -1 and hi < lo):
            lo, hi = 0, 1
        return lo, hi

    def expr(self, d, inrep=False):
        r = self.r
        p = r.random()
        if d == 0 or p < .15:
            e = self.atom()
            while inrep and e["k"] in ("start", "end", "word"):
                e = self.atom()
            return e
        if p < .5:
            q = [self.expr(d - 1, inrep) for i in range(r.choice((2, 2, 3)))]
            flat = []
            for x in q:
                flat += x["a"] if x["k"] == "and" else [x]
            return node("and", a=flat)
        if p < .8:
            q = []
            for i in range(r.choice((2, 2, 3, 4))):
                q.append(self.expr(d - 1, inrep))
                if r.random() < .3 and q[-1]["k"] == "and":
                    # a common beginning
                    q.append(node("and", a=q[-1]["a"][:1] + [self.atom()]))
                    if inrep and q[-1]["a"][1]["k"] in CLS:
                        q.pop()
            if len(q) == 1:
                q.append(node("str", s=self.chars(2)))
            return node("or", a=q)
        lo, hi = self.reps()
        return node("rep", a=[self.expr(d - 1, True)], lo=lo, hi=hi)


def strings(r, alpha, exprs, n):
    """Texts which might match: all short ones, and random walks."""
    base = alpha[:2]
    out = ["".join(q) for k in range(5)
           for q in itertools.product(base, repeat=k)]
    out = r.sample(out, min(len(out), n // 3))
    for i in range(n - len(out)):
        out.append(walk(r, r.choice(exprs), alpha, 14))
    return sorted(set(s for s in out if len(s) <= 24))


def walk(r, e, alpha, left):
    k = e["k"]
    if r.random() < .03:
        return r.choice(alpha)
    if k == "str":
        return "".join(map(chr, e["s"]))
    if k == "range":
        if e["x"]:
            return r.choice(alpha)
        lo, hi = r.choice(e["r"])
        return chr(r.randint(lo, hi))
    if k == "dot":
        return r.choice(alpha)
    if k == "and":
        return "".join(walk(r, x, alpha, left // 2) for x in e["a"])
    if k == "or":
        return walk(r, r.choice(e["a"]), alpha, left)
    if k == "rep":
        hi = e["hi"] if e["hi"] != -1 else e["lo"] + 3
        n = r.choice((e["lo"], hi, r.randint(min(e["lo"], hi), max(hi, e["lo"]))))
        return "".join(walk(r, e["a"][0], alpha, left // 2) for i in range(n))
    return ""


# --- what is known to be wrong -------------------------------------------------
def parts(e):
    yield e
    for x in e["a"]:
        yield from parts(x)


def known(e):
    """Kind of simplification known to be wrong in the expression."""
    nodes = list(parts(e))
    ors = [x for x in nodes if x["k"] == "or"]
    if ors and sum(1 for x in nodes if x["k"] == "range" and x["x"]) > 1:
        return "exclude"
    for x in nodes:
        if x["k"] == "rep" and x["hi"] == -1:
            for o in parts(x["a"][0]):
                if o["k"] == "or" and any(
                        y["k"] == "rep" and y["hi"] == -1 and any(
                            z["k"] == "rep" and z["lo"] >= 2
                            for z in parts(y)) for y in parts(o)):
                    return "repeat-or"
    return ""


# --- recording -----------------------------------------------------------------
class Run:
    def __init__(self, r, alpha):
        self.r, self.alpha = r, alpha
        self.pool, self.ast, self.ev = [], [], []

    def put(self, obj, ast):
        self.pool.append(obj)
        self.ast.append(ast)

    def make(self, e):
        """Expression made by the functions of the module."""
        k = e["k"]
        if k in CLS:
            return CLS[k]()
        if k == "str":
            return createString("".join(map(chr, e["s"])))
        if all(lo == hi for lo, hi in e["r"]) and self.r.random() < .5:
            return createRange(*[chr(lo) for lo, hi in e["r"]],
                               exclude=e["x"])
        return RegexRange([RegexRangeItem(lo, hi) for lo, hi in e["r"]],
                          e["x"])

    def new(self, e):
        self.put(self.make(e), e)
        self.ev.append({"op": "new", "e": e})

    def parse(self, e):
        ev = {"op": "parse", "e": e, "text": codes(text(e)), "res": "ok"}
        try:
            obj = parse(text(e))
        except Exception as err:
            obj = RegexEmpty()
            ev["res"] = type(err).__name__
        self.put(obj, e)
        self.ev.append(ev)

    def op(self, op, i, j):
        a, b = self.pool[i], self.pool[j]
        try:
            obj = a & b if op == "and" else a + b if op == "add" else a | b
        except Exception as err:
            self.ev.append({"op": "!" + type(err).__name__})
            obj = RegexEmpty()
        self.put(obj, node("or" if op == "or" else "and",
                           a=[self.ast[i], self.ast[j]]))
        self.ev.append({"op": op, "i": i + 1, "j": j + 1})

    def join(self, q, alt):
        cls = RegexOr if alt else RegexAnd
        self.put(cls.join([self.pool[i] for i in q]),
                 node("or" if alt else "and", a=[self.ast[i] for i in q]))
        self.ev.append({"op": "orjoin" if alt else "join",
                        "is": [i + 1 for i in q]})

    def rep(self, i, lo, hi):
        e = {"op": "rep", "i": i + 1, "lo": lo, "hi": hi, "res": "ok"}
        try:
            obj = RegexRepeat(self.pool[i], lo, None if hi == -1 else hi)
            ast = node("rep", a=[self.ast[i]], lo=lo, hi=hi)
        except Exception as err:
            obj, ast = RegexEmpty(), node("empty")
            e["res"] = type(err).__name__
        self.put(obj, ast)
        self.ev.append(e)

    def check(self, i, n=24, words=None):
        r = self.r
        ss = words or strings(r, self.alpha, [self.ast[i]], n)
        e = {"op": "check", "i": i + 1, "strings": [codes(s) for s in ss],
             "match": [], "res": "ok", "min": 0, "max": -1,
             "sig": known(self.ast[i])}
        try:
            obj = self.pool[i]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c = obj.compile(python=True) if r.random() < .6 \
                    else obj.compile() if r.random() < .5 \
                    else re.compile(str(obj))
            e["match"] = [c.fullmatch(s) is not None for s in ss]
            e["min"] = obj.minLength()
            m = obj.maxLength()
            e["max"] = -1 if m is None else m
        except Exception as err:
            e["res"] = "%s: %s" % (type(err).__name__, err)
        self.ev.append(e)

    def eq(self, i, j):
        a, b = self.pool[i], self.pool[j]
        ss = strings(self.r, self.alpha, [self.ast[i], self.ast[j]], 12)
        self.ev.append({"op": "eq", "i": i + 1, "j": j + 1, "eq": a == b,
                        "may": bool(a.match(b)),
                        "strings": [codes(s) for s in ss],
                        "sig": known(node("or", a=[self.ast[i],
                                                   self.ast[j]]))})


ALPHAS = ["ab", "abc", "ab\n", "ab-]", "ab^\\", "a^-[", "\\]^_", ",-.a",
          "ab0 ", "(|)a", "é\x00a"]


def size(e):
    return sum(1 for x in parts(e))


def record(job):
    r = random.Random(job["name"])
    alpha = job.get("alpha") or r.choice(ALPHAS)
    run = Run(r, alpha)
    g = Gen(r, alpha, anchors=job.get("anchors", False),
            nots=job.get("nots", False))
    if "classes" in job:
        # sets of characters, and all characters around them
        first = r.choice((48, 88, 97))
        words = [chr(c) for c in range(first - 1, first + 10)]
        for _ in range(job["classes"]):
            q = []
            for _ in range(r.randint(2, 5)):
                rs = []
                for _ in range(r.choice((1, 1, 2, 3))):
                    lo = first + r.randrange(9)
                    hi = min(lo + r.choice((0, 0, 1, 2, 4)), first + 8)
                    if {lo, hi} & {91, 92, 93, 94}:
                        hi = lo
                    rs.append([lo, hi])
                q.append(node("str", s=rs[0][:1]) if r.random() < .2
                         else node("range", r=rs))
            if r.random() < .4:
                run.parse(node("or", a=q))
            else:
                if r.random() < .3:
                    q[0] = node("range", r=[y for x in q for y in x["r"]]
                                or [[first, first]])
                run.new(q[0])
                for x in q[1:]:
                    run.new(x)
                    n = len(run.pool)
                    run.op("or", n - 2, n - 1)
            run.check(len(run.pool) - 1, words=words)
    elif "exprs" in job:
        for e in job["exprs"]:
            run.parse(e)
            run.check(len(run.pool) - 1, 40, job.get("words"))
    else:
        for i in range(job.get("count", 8)):
            p = r.random()
            n = len(run.pool)
            small = [k for k in range(n) if size(run.ast[k]) < 14]
            if n < 2 or p < .25 or not small:
                if r.random() < .5:
                    run.parse(g.expr(r.choice((1, 2, 2, 3))))
                else:
                    run.new(g.atom())
            elif p < .45:
                run.op(r.choice(("and", "add")), r.choice(small),
                       r.choice(small))
            elif p < .75:
                run.op("or", r.choice(small), r.choice(small))
            elif p < .85:
                i = r.choice(small)
                if not any(x["k"] in ("start", "end", "word")
                           for x in parts(run.ast[i])):
                    lo, hi = g.reps()
                    if r.random() < .05:
                        lo, hi = r.choice(((0, 0), (1, 1)))
                    run.rep(i, lo, hi)
            elif p < .9:
                q = [r.choice(small) for i in range(r.choice((1, 2, 3)))]
                run.join(q, r.random() < .5)
            else:
                run.eq(r.randrange(n), r.randrange(n))
            if r.random() < .6:
                run.check(r.randrange(len(run.pool)))
        for k in range(len(run.pool)):
            if r.random() < .7:
                run.check(k)
    return {"name": job["name"], "ev": run.ev}
