"""G01: which parser is chosen for a stream (spec/Guess.tla)."""
import gc
import os
import random
import shutil
import tempfile
import realtree
from lib import exc_name
from hachoir.core import config
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import UInt8
from hachoir.parser import (QueryParser, guessParser, createParser,
                            HachoirParserList, Parser)
from hachoir.parser.parser_list import ParserList
from hachoir.stream import StringInputStream

ENDIAN = "<"
KEYS = ("id", "category", "mime", "file_ext")


def toy(index, tags):
    """A parser whose verdict is written in the data."""
    class Toy(Parser):
        PARSER_TAGS = dict(tags, min_size=8 * 16, description="Toy")
        endian = BIG_ENDIAN

        def __init__(self, stream, **kw):
            if stream.sizeGe(8 * 16):
                c = stream.readBytes(8 * index, 1)
                if c in b"by" and c:
                    raise ValueError("cannot be built")
            Parser.__init__(self, stream, **kw)

        def validate(self):
            c = self.stream.readBytes(8 * index, 1)
            if c == b"x":
                return 1 // 0
            return {b"a": True, b"r": False, b"s": "refused",
                    b"b": True, b"y": False}.get(c, False)

        def createFields(self):
            yield UInt8(self, "first")
    Toy.__name__ = "Toy%d" % index
    return Toy


TOYS = [
    {"id": "toy_a", "category": "misc", "file_ext": ("ta", "tx"),
     "mime": ("toy/a", "toy/x")},
    {"id": "toy_b", "category": "misc", "file_ext": ("tx",),
     "mime": ("toy/x",)},
    {"id": "toy_c", "category": "game", "file_ext": ("tc", ""), "mime": ()},
    {"id": "toy_d", "category": "game", "file_ext": ("tx", "td"),
     "mime": ("toy/d",)},
    {"id": "toy_e", "category": "image", "file_ext": (), "mime": ("toy/x",)},
    {"id": "toy_f", "category": "misc", "file_ext": ("ta",)},
]
_reg = None


def registry():
    global _reg
    if _reg is None:
        config.quiet = True
        db = HachoirParserList.getInstance()
        for i, tags in enumerate(TOYS):
            db.add(toy(2 + i, tags))
        _reg = list(db)
    return _reg


def describe(p):
    t = p.getParserTags()
    seq = lambda v: list(v) if isinstance(v, (tuple, list)) else [v]
    return {"id": t["id"], "cat": t.get("category", ""),
            "exts": [[ord(c) for c in x] for x in seq(t.get("file_ext", ()))],
            "mimes": seq(t.get("mime", ()))}


def view(data, ps, source="<string>"):
    """What each parser makes of the data, asked alone."""
    valid, built = [], []
    for p in ps:
        try:
            p(StringInputStream(data, source=source), validate=True)
            v = "a"
        except Exception as err:
            v = "r" if type(err).__name__ == "ValidateError" else "x"
        try:
            p(StringInputStream(data, source=source), validate=False)
            b = True
        except Exception:
            b = False
        valid.append(v)
        built.append(b)
    return {"valid": valid, "built": built}


def rand_tag(r, reg, near):
    """(tag of the library, tag of the specification)"""
    k = r.choice(("none", "call", "class", "args", "id", "id", "category",
                  "mime", "mime", "file_ext", "filename", "filename"))
    spec = {"k": k, "v": "", "any": False, "set": []}
    pick = lambda: r.choice(near)
    if k == "none":
        return None, spec
    if k == "args":
        return ("args", {"toy_attribute": 7}), spec
    if k == "class":
        i = pick()
        spec["set"] = [i + 1]
        return ("class", reg[i]), spec
    if k == "call":
        q = sorted({pick() for j in range(r.randint(0, 4))})
        some = [reg[i] for i in q]
        spec["set"] = [i + 1 for i in q]
        return (lambda p: p in some), spec
    if k == "filename":
        i = pick()
        exts = describe(reg[i])["exts"] or [[]]
        ext = "".join(map(chr, r.choice(exts)))
        if r.random() < .3:
            ext = ext.upper()
        name = r.choice(("x.%s", "/tmp/a.b/x.%s", "x", "a.tx/b", "x.tar.%s",
                         ".%s", "x.%s."))
        name = name % ext if "%" in name else name
        spec["v"] = [ord(c) for c in name]
        return ("filename", name), spec
    if r.random() < .06:
        spec["any"] = True
        return (k, None), spec
    d = describe(reg[pick()])
    if k == "id":
        v = d["id"] if r.random() < .85 else "unknown_id"
    elif k == "category":
        v = d["cat"]
    elif k == "mime":
        v = r.choice(d["mimes"] or ["no/mime"])
    else:
        v = "".join(map(chr, r.choice(d["exts"] or [[122, 122, 122]])))
        spec["v"] = [ord(c) for c in v]
        return (k, v), spec
    spec["v"] = v
    return (k, v), spec


def rand_tags(r, reg, near, n=3):
    q = [rand_tag(r, reg, near) for i in range(r.randint(0, n))]
    return [x[0] for x in q], [x[1] for x in q]


def snapshot(db):
    return (list(db), {k: {v: list(q) for v, q in d.items()}
                       for k, d in db.bytag.items()})


def index(reg, obj):
    return 0 if obj is None else reg.index(type(obj)) + 1


def toy_job(job):
    reg = registry()
    r = random.Random(job["name"])
    db = HachoirParserList.getInstance()
    first = snapshot(db)
    toys = list(range(len(reg) - len(TOYS), len(reg)))
    near = toys * 6 + r.sample(range(len(reg)), 4)
    datas = [b"HQ" + bytes(r.choice(job.get("letters", b"aarrsxby"))
                           for i in TOYS) + b"\xa5" * r.choice((8, 24, 2, 7))
             for i in range(3)]
    streams, extra = [], []
    for d in datas:
        tags, spec = rand_tags(r, reg, near, 2)
        streams.append(StringInputStream(d, tags=tags))
        extra.append(spec)
    keep = [None] * len(datas)
    ev = []
    for i in range(job["n"]):
        st = r.randrange(len(streams))
        s = streams[st]
        x = r.random()
        if x < .15:
            keep[st] = None
            gc.collect()
            ev.append({"op": "close", "st": st + 1})
            continue
        e = {"op": "ask", "st": st + 1, "use": False, "same": False,
             "attr": False}
        try:
            if x < .3:
                e["tags"] = extra[st]
                p = guessParser(s)
            else:
                tags, e["tags"] = rand_tags(r, reg, near)
                q = QueryParser(iter(tags) if r.random() < .2 else tags)
                q.use_fallback = r.random() < .4
                fb = r.random() < .8
                e["use"] = q.use_fallback and fb
                p = q.parse(s, fb) if not fb else q.parse(s)
            e["res"] = index(reg, p)
            e["attr"] = getattr(p, "toy_attribute", 0) == 7
            e["same"] = p is not None and p is keep[st]
            if p is not None:
                keep[st] = p
            del p
        except Exception as err:
            e["res"] = -1
            e["err"] = exc_name(err)
            err = None
            gc.collect()
        ev.append(e)
    ev.append({"op": "registry", "same": first == snapshot(db)})
    return {"name": job["name"], "reg": [describe(p) for p in reg],
            "views": [view(d, reg) for d in datas], "ev": ev}


def file_job(job):
    """Sample files under several names."""
    reg = registry()
    r = random.Random(job["name"])
    db = HachoirParserList.getInstance()
    first = snapshot(db)
    tmp = tempfile.mkdtemp(prefix="g01")
    views, ev = [], []
    try:
        for f in job["files"]:
            data = open(f, "rb").read()
            if r.random() < .3:
                data = realtree.damage(data, r, r.choice("tm"))
            # (the name of a file may be part of what a parser looks at)
            views.append(view(data, reg, "file:" + os.path.join(
                tmp, os.path.basename(f))))
            exts = [x for p in reg for x in describe(p)["exts"]
                    if views[-1]["valid"][reg.index(p)] == "a"]
            for k in range(3):
                name = os.path.basename(f)
                if k:
                    x = r.random()
                    ext = "".join(map(chr, r.choice(exts))) if exts and x < .5 \
                        else "".join(map(chr, r.choice(
                            describe(r.choice(reg))["exts"] or [[]])))
                    name = "f." + ext if r.random() < .8 else "f"
                path = os.path.join(tmp, name)
                if k:
                    views.append(view(data, reg, "file:" + path))
                with open(path, "wb") as out:
                    out.write(data)
                tags, spec = rand_tags(r, reg, range(len(reg)), 2) \
                    if r.random() < .4 else ([], [])
                before = list(tags)
                e = {"op": "file", "st": len(views), "tags": spec,
                     "name": [ord(c) for c in path]}
                try:
                    if r.random() < .3:
                        p = createParser(path, tags=tags)
                    else:
                        with open(path, "rb") as io:
                            p = createParser(io, tags=tags)
                            e["res"] = index(reg, p)
                    e["res"] = index(reg, p)
                    if p is not None:
                        p.close()
                except Exception as err:
                    e["res"] = -1
                    e["err"] = exc_name(err)
                e["kept"] = tags == before
                ev.append(e)
                os.unlink(path)
    finally:
        shutil.rmtree(tmp)
    ev.append({"op": "registry", "same": first == snapshot(db)})
    return {"name": job["name"], "reg": [describe(p) for p in reg],
            "views": views, "ev": ev}


def add_job(job):
    config.quiet = True
    r = random.Random(job["name"])
    pl = ParserList()
    ev = []
    for i in range(job["n"]):
        p = {"hasid": r.random() < .95, "goodid": r.random() < .9,
             "desc": r.random() < .95, "shape": r.random() < .9,
             "size": r.choice((8, 8, 8, 1, 0, -8)),
             "id": "toy%d" % r.randrange(8),
             "cat": r.choice(("misc", "game", "image", "audio", "toys", "")
                             if r.random() < .4 else ("video",))}
        tags = {"id": p["id"], "category": p["cat"], "min_size": p["size"],
                "file_ext": r.choice((("a",), ("a", "b"), ["a"], ())),
                "mime": ("toy/x",), "description": "toy"}
        if r.random() < .3:
            del tags["file_ext"]
        if not p["goodid"]:
            p["id"] = tags["id"] = r.choice(("ab", "Toy1", "toy-1", "_toy",
                                             "", "toy 1"))
        if not p["hasid"]:
            del tags["id"]
            p["id"] = ""
        if not p["desc"]:
            if r.random() < .5:
                del tags["description"]
            else:
                tags["description"] = r.choice(("", 3))
        if not p["shape"]:
            if r.random() < .5:
                tags["file_ext"] = "abc"
            else:
                tags["mime"] = r.choice((["toy/x"], "toy/x", (b"toy/x",)))

        class Toy(Parser):
            PARSER_TAGS = tags
            endian = BIG_ENDIAN
        e = {"op": "add", "p": p}
        try:
            pl.add(Toy)
            e["ids"] = [x.getParserTags()["id"] for x in pl]
        except Exception as err:
            e["ids"] = [exc_name(err)]
        ev.append(e)
    return {"name": job["name"], "reg": [], "views": [], "ev": ev}


def run(ctx):
    ctx.model_check("GuessMC", "GuessMC", min_states=50000)
    if ctx.thorough:
        ctx.model_check("GuessMC", "GuessMCBig", min_states=500000)
    jobs = [{"name": "q%s-%d" % (ctx.seed, i), "n": 40,
             "letters": ctx.rng.choice((b"aarrsxby", b"rrrrrrab", b"rsxx"))}
            for i in range(ctx.n(500, 5000))]
    traces = ctx.pmap(toy_job, jobs)
    ctx.validate("GuessTrace", traces)
    if not any(e.get("res", 0) for t in traces for e in t["ev"]):
        ctx.violation("none", "no parser is ever chosen", {})
    files = realtree.samples(ctx.n(300000, 4000000))
    ctx.rng.shuffle(files)
    jobs = []
    for k in range(ctx.n(3, 12)):
        jobs += [{"name": "f%s-%d-%d" % (ctx.seed, k, i),
                  "files": files[i:i + 6]} for i in range(0, len(files), 6)]
    ctx.validate("GuessTrace", ctx.pmap(file_job, jobs, seconds=120))
    jobs = [{"name": "a%s-%d" % (ctx.seed, i), "n": 16}
            for i in range(ctx.n(500, 5000))]
    ctx.validate("GuessTrace", ctx.pmap(add_job, jobs))
