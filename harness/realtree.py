"""Trees of the shipped parsers on sample files, whole or damaged."""
import glob
import os
import random
from itertools import islice

from lib import exc_name, REPO
from hachoir.field.seekable_field_set import RootSeekableFieldSet
from hachoir.parser import createParser
from hachoir.stream import StringInputStream


def samples(limit=400000):
    return [f for f in sorted(glob.glob(REPO + "/tests/files/*"))
            if os.path.getsize(f) <= limit]


def damage(data, r, mode):
    """t: cut; m: some bytes changed; b: both; else untouched"""
    if mode in "tb":
        data = data[:r.randint(1, len(data))]
    if mode in "mb":
        b = bytearray(data)
        span = min(len(b), r.choice((64, 1000, len(b))))
        for _ in range(r.choice((1, 3, 10, 40))):
            b[r.randrange(span)] = r.choice((0, 255, 127, r.randrange(256)))
        data = bytes(b)
    return data


def kid(f):
    return {"nm": f.name, "a": f.address, "abs": f.absolute_address,
            "sz": f.size, "set": bool(f.is_field_set),
            "fill": f.name.startswith("unparsed[")}


def visit(root, limit, wide=100000):
    ev = []
    todo = [root]
    n = 0
    while todo and n < limit:
        fs = todo.pop(0)
        kids = list(islice(fs, wide))
        whole = len(kids) < wide
        if whole:
            # a set may be found smaller than what was read to learn its size
            kids2 = list(fs)
            same = len(fs) == len(kids2)
            if len(kids) != len(kids2):
                kids = kids2
            same = same and all(a is b for a, b in zip(kids, kids2))
        else:
            same = all(fs[i] is kids[i] for i in range(len(kids)))
        n += len(kids)
        ev.append({"path": fs.path, "abs": fs.absolute_address, "sz": fs.size,
                   "seek": isinstance(fs, RootSeekableFieldSet),
                   "whole": whole, "same": same,
                   "len": len(fs) if whole else 0,
                   "ch": [kid(f) for f in kids]})
        todo += [k for k in kids if k.is_field_set]
    return ev


def tree(job):
    """job: file, mode, seed, limit"""
    data = open(job["file"], "rb").read()
    r = random.Random("t%s" % job["seed"])
    parser = createParser(job["file"])
    if parser is None:
        return None
    cls = type(parser)
    parser.close()
    data = damage(data, r, job["mode"])
    t = {"name": "%s %s%s %d bytes" % (os.path.basename(job["file"]),
                                       job["mode"], job["seed"], len(data)),
         "size": 8 * len(data)}
    try:
        t["ev"] = visit(cls(StringInputStream(data)), job["limit"],
                        job.get("wide", 100000))
    except Exception as err:
        t["ev"] = [{"path": "error", "abs": 0, "sz": 0, "ch": [],
                    "err": exc_name(err)}]
    return t


# Parsers whose decisions look ahead (sample offsets are collected before
# the fields they belong to; a fragment has a field "next" only when there is
# a next one): what they show before a cut may depend on what follows.
LOOK_AHEAD = ("ptm", "png", "ogg", "ogg_stream")


def listing(root, limit, wide):
    res = {}
    todo = [root]
    n = 0
    while todo and n < limit:
        fs = todo.pop(0)
        if isinstance(fs, RootSeekableFieldSet):
            continue
        kids = list(islice(fs, wide))
        n += len(kids)
        res[fs.path] = [{"nm": k.name, "a": k.address, "sz": k.size,
                         "set": bool(k.is_field_set),
                         "abs": k.absolute_address} for k in kids]
        todo += [k for k in kids if k.is_field_set and k.stream is root.stream]
    return res


def cut(job):
    """job: file, seed, limit: one cut of a sample, both trees side by side"""
    data = open(job["file"], "rb").read()
    r = random.Random("c%s" % job["seed"])
    parser = createParser(job["file"])
    if parser is None or parser.getParserTags()["id"] in LOOK_AHEAD:
        return None
    cls = type(parser)
    parser.close()
    m = r.randint(1, min(len(data), r.choice((300, 3000, len(data)))))
    t = {"name": "%s cut to %d" % (os.path.basename(job["file"]), m),
         "end": 8 * m, "ev": []}
    full = listing(cls(StringInputStream(data)), job["limit"], 200)
    try:
        part = listing(cls(StringInputStream(data[:m])), job["limit"], 200)
    except Exception as err:
        t["ev"] = [{"path": exc_name(err), "full": [], "cut": []}]
        return t
    todo = ["/"]
    while todo:
        p = todo.pop(0)
        if p not in full or p not in part:
            continue
        t["ev"].append({"path": p, "full": full[p], "cut": part[p]})
        for k in full[p]:
            if k["set"] and k["abs"] < 8 * m:
                q = p.rstrip("/") + "/" + k["nm"]
                # only sets which the comparison reaches
                i = full[p].index(k)
                if i < len(part[p]) and part[p][i]["set"] and \
                        part[p][i]["nm"] == k["nm"]:
                    todo.append(q)
                if not k["abs"] + k["sz"] < 8 * m:
                    break
            elif not k["abs"] + k["sz"] < 8 * m:
                break
    return t
