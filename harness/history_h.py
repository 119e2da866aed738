"""Driver of real documents read, forgotten and read again (HistoryTrace)."""
import random
import zlib

import realtree
from lib import exc_name
from hachoir.core import config
from hachoir.field import Fragment, CustomFragment
from hachoir.parser import guessParser
from hachoir.stream import StringInputStream


def row(f):
    fill = f.name.startswith("unparsed[") or f.name == "raw[]"
    v = 0 if f.is_field_set else zlib.crc32(repr(f.value).encode()) >> 2
    return {"n": f.name, "a": f.address, "z": f.size,
            "s": bool(f.is_field_set), "v": v, "f": fill}


def digest(f):
    s = f.getSubIStream()
    size = s.size
    if size is None:
        return "unknown"
    size = min(size // 8, 1 << 20)
    return "%d/%08x" % (size, zlib.crc32(s.readBytes(0, size)))


def sum_of(f):
    try:
        return digest(f)
    except Exception as err:
        return exc_name(err)


def find(p, path):
    return p if path == "/" else p[path]


def record(job):
    config.quiet = True
    r = random.Random(job["name"])
    with open(job["file"], "rb") as f:
        data = realtree.damage(f.read(), r, job["mode"])
    p = guessParser(StringInputStream(data))
    if p is None:
        return None
    cls = type(p)
    sets, paths, sums, where = [], [], [], []
    count = 0
    todo = [p]
    while todo:
        fs = todo.pop(0)
        rows = [row(f) for f in fs]
        count += len(rows)
        if count > 5000 or len(rows) > 1500:
            return None
        sets.append({"rows": rows})
        paths.append(fs.path)
        todo += [f for f in fs if f.is_field_set]
        if isinstance(fs, (Fragment, CustomFragment)) and len(where) < 12:
            where.append(fs.path)
    if len(set(paths)) < len(paths):
        return None
    for path in where:
        sums.append({"sum": sum_of(find(p, path))})
    ev = []
    # a second reading in another order, then the same document again and again
    q = guessParser(StringInputStream(data))
    if type(q) is not cls:
        return None
    for n in range(job["count"]):
        i = r.randrange(len(paths)) if r.random() < .8 else 0
        c = r.random()
        e = {"i": i + 1, "raised": ""}
        if ev and ev[-1]["op"] == "reset" and r.random() < .6:
            i = ev[-1]["i"] - 1
            e["i"], c = i + 1, 0
        try:
            if n and r.random() < .05 and where:
                # the whole is read before a stream is opened
                e["op"] = "list"
                e["i"] = 1
                for path in paths:
                    list(find(q, path))
                e["rows"] = [row(f) for f in q]
                ev.append(e)
                k = r.randrange(len(where))
                ev.append({"op": "stream", "k": k + 1,
                           "sum": sum_of(find(q, where[k]))})
                continue
            if c < .35 or not sets[i]["rows"]:
                e.update(op="list", rows=[])
                e["rows"] = [row(f) for f in find(q, paths[i])]
            elif c < .65:
                k = r.randrange(len(sets[i]["rows"]))
                if sets[i]["rows"][k]["f"]:
                    continue
                e.update(op="get", k=k + 1, row=0)
                e["row"] = row(find(q, paths[i])[sets[i]["rows"][k]["n"]])
            else:
                e["op"] = "reset"
                find(q, paths[i]).reset()
        except Exception as err:
            e["raised"] = exc_name(err)
            e["path"] = paths[i]
        ev.append(e)
    return {"name": job["name"], "parser": cls.__name__, "sets": sets,
            "sums": sums, "ev": ev}
