"""Driver of the facts learned from documents (spec/Facts.tla)."""
import os
import random
import signal
from datetime import timedelta

import realtree as rt
from lib import exc_name
from hachoir.metadata import extractMetadata
from hachoir.parser import guessParser
from hachoir.stream import StringInputStream

GROUPS = ["%s[%u]" % (n, i) for n in ("file", "image", "audio", "video",
                                       "stream", "subtitle") for i in range(40)]
GROUPS += ["audio", "video"]
QUALITIES = (0, 2, 4, 6, 8)
LIMIT = 30


class Late(BaseException):
    pass


def late(*args):
    raise Late()


def parse(data, cls=None, tags=()):
    stream = StringInputStream(data, tags=list(tags), source="<facts>")
    return cls(stream) if cls else guessParser(stream)


def walk(root, r):
    """Some lookups."""
    todo = [root]
    for _ in range(r.choice((5, 60, 400))):
        if not todo:
            return
        f = todo.pop(r.randrange(len(todo)) if r.random() < .3 else 0)
        try:
            what = r.randrange(5)
            if what == 0:
                f.display
            elif what == 1:
                f.description
            elif what == 2:
                f.size
            elif what == 3 and f.is_field_set:
                for name in r.sample(("header", "image_data", "data", "end",
                                      "file[0]", "file[1]", "comment"), 3):
                    if name in f:
                        f[name]
            if f.is_field_set:
                stop = r.choice((1, 3, 30))
                for i, c in enumerate(f):
                    if i > stop:
                        break
                    todo.append(c)
        except Exception:
            pass


def text(v):
    if isinstance(v, timedelta):
        ms = v / timedelta(milliseconds=1)
        return str(int(ms) if ms == int(ms) else ms)
    return str(v)


def values(meta):
    """[{g, k, v}]"""
    res = []
    if meta is None:
        return res
    groups = [("", meta)]
    if hasattr(meta, "iterGroups"):
        known = [(n, meta[n]) for n in GROUPS if n in meta]
        groups += known
        groups += [("?", g) for g in meta.iterGroups()
                   if not any(g is k for n, k in known)]
    for n, g in groups:
        for data in g:
            for item in data.values:
                res.append({"g": n, "k": data.key, "v": text(item.value)})
    return res


def digest(meta):
    if meta is None:
        return "nothing"
    import hashlib
    said = repr((meta.exportPlaintext(), meta.exportPlaintext(human=False),
                 meta.exportDictionary()))
    return hashlib.sha1(said.encode("utf8", "replace")).hexdigest()[:16]


def look(data, q, r, cls=None, tags=(), hists=("fresh", "twice", "walk", "otherq")):
    """One event: what is learned from the data, whatever is asked before."""
    e = {"acc": "", "raised": "no", "vals": [], "digs": [], "q": q}
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        for hist in hists:
            try:
                p = parse(data, cls, tags)
            except Exception:
                if cls is None or e["acc"]:
                    raise
                p = None        # the parser asked for does not accept it
            if p is None:
                return e
            e["acc"] = p.__class__.__name__
            if hist == "walk":
                walk(p, r)
            elif hist == "otherq":
                extractMetadata(p, r.choice(QUALITIES) / 8)
            elif hist == "twice":
                extractMetadata(p, q / 8)
            m = extractMetadata(p, q / 8)
            if hist == "fresh":
                e["vals"] = values(m)
            e["digs"].append(digest(m))
    except Late:
        e["raised"] = "late"
    except Exception as err:
        e["raised"] = exc_name(err)
    finally:
        signal.alarm(0)
    return e


def record(job):
    doc = job["doc"]
    r = random.Random(job["name"])
    data = bytes(doc["bytes"])
    ends = []
    n = 0
    fragile = []
    for s in doc["slots"]:
        if s["fragile"]:
            fragile.append((n, n + s["len"]))
        n += s["len"]
        ends.append(n)
    cls = None
    ev = []

    def add(kind, d, data, q, hists=("fresh", "twice", "walk", "otherq"), cls=None):
        e = look(data, q, r, cls=cls, hists=hists)
        e.update(op="read", kind=kind, d=d, forced=cls is not None,
                 fragile=kind == "cut" and any(a < d < b for a, b in fragile))
        ev.append(e)
        return e

    if not job["count"]:
        # nothing but the document
        for q in (4, r.choice(QUALITIES)):
            add("whole", len(data), data, q, ("fresh",))
    else:
        for q in QUALITIES:
            add("whole", len(data), data, q)
    p = parse(data)
    cls = p.__class__ if p is not None else None
    spots = [e for e in ends[:-1]] if job["count"] else []
    if job["count"]:
        spots += [e - 1 for e in ends if e > 1] + [e + 1 for e in ends[:-1]]
    if len(spots) > job["count"]:
        spots = r.sample(spots, job["count"])
    spots += [r.randrange(1, len(data)) for _ in range(job["count"] // 4)]
    for d in spots:
        if cls is None:
            break
        d = min(d, len(data) - 1)
        q = r.choice(QUALITIES)
        # the parser is the one the user chose, or is guessed
        hists = ("fresh", r.choice(("twice", "walk", "otherq")))
        add("cut", d, data[:d], q, hists, r.choice((None, cls, cls)))
        bad = bytearray(data)
        how = r.randrange(3)
        if how == 0:
            for i in range(d, len(bad)):
                bad[i] = r.randrange(256)
        else:
            for _ in range(1 if how == 1 else 6):
                i = min(r.randrange(d, len(bad)), r.randrange(d, len(bad)))
                bad[i] = r.choice((0, 255, bad[i] ^ (1 << r.randrange(8))))
        bad = bytes(bad)
        add("flip", d, bad, r.choice(QUALITIES), hists, r.choice((None, cls, cls)))
    return {"hdr": {"fmt": doc["fmt"], "facts": doc["facts"],
                    "first": ends[0],
                    "cls": cls.__name__ if cls else ""}, "ev": ev}


def record_real(job):
    r = random.Random(job["name"])
    with open(job["file"], "rb") as f:
        whole = f.read()
    tags = [("filename", job["file"])]
    ev = []
    for mode in job["modes"]:
        data = rt.damage(whole, r, mode)
        e = look(data, r.choice(QUALITIES), r, tags=tags)
        e.update(op="real", kind=mode, d=0, forced=False, fragile=False)
        ev.append(e)
    return {"hdr": {"fmt": os.path.basename(job["file"]), "facts": [], "first": 0, "cls": ""},
            "ev": ev}
