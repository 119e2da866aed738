"""Driver of the search of embedded files (spec/Subfile.tla)."""
import contextlib
import gc
import io
import itertools
import json
import os
import random
import re
import shutil
import sys
import tempfile
import traceback

from lib import exc_name
import hachoir.subfile.main
import hachoir.subfile.search
from hachoir.core import config
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import RawBytes
from hachoir.parser import HachoirParserList, Parser
from hachoir.stream import FileInputStream, InputSubStream, StringInputStream
from hachoir.subfile.search import SearchSubfile

SERIAL = itertools.count()
FILES = "/tests/files"
# A growing memory must not hide files; see DESIGN.md
hachoir.subfile.search.MEMORY_LIMIT = 8 << 30


def toy(k):
    """Register a parser for the files of kind k, returns its identifier."""
    ident = "%s_%d" % (k["name"], next(SERIAL))
    tags = {"id": ident, "category": "game", "min_size": 8 * k["need"],
            "description": k["desc"], "mime": ("x-game/toy",)}
    if k["ext"]:
        tags["file_ext"] = (k["ext"][1:],)
    if k["skip"]:
        tags["subfile"] = "skip"
    strings, regex = [], []
    for m in k["magics"]:
        if m["re"] or -1 in m["b"]:
            t = b""
            for b, run in itertools.groupby(m["b"]):
                n = len(list(run))
                c = b"." if b == -1 else bytes([b])
                t += c + b"{%d}" % n if n > 2 else c * n
            regex.append((t, 8 * m["off"]))
        else:
            strings.append((bytes(m["b"]), 8 * m["off"]))
    if strings:
        tags["magic"] = tuple(strings)
    if regex:
        tags["magic_regex"] = tuple(regex)

    class Toy(Parser):
        PARSER_TAGS = tags
        endian = BIG_ENDIAN

        def validate(self):
            if self.stream.readBits(8 * k["voff"], 8, BIG_ENDIAN) % 2:
                return "odd"
            return True

        def createFields(self):
            yield RawBytes(self, "data", k["need"])

        def createContentSize(self):
            if k["zoff"] == -1:
                return None
            return 8 * k["zmul"] * self.stream.readBits(8 * k["zoff"], 8, BIG_ENDIAN)
    Toy.__name__ = k["cls"]
    HachoirParserList.getInstance().add(Toy)
    return ident


LINE = re.compile(r"\[\+\] File at (\d+)(?: size=(\d+) \([^()]*\))?: (.*?)"
                  r"( \(don't copy whole file\)| \(don't copy file, too big\)| => (.*))?$")


def runs(data, z):
    return [{"at": m.start(), "b": list(m.group())}
            for m in re.finditer(b"[^" + re.escape(bytes([z])) + b"]+", data)]


@contextlib.contextmanager
def stderr_to(tmp):
    """Send the standard error (the file descriptor) to a file."""
    sys.stderr.flush()
    old = os.dup(2)
    fd = os.open(os.path.join(tmp, "stderr"), os.O_CREAT | os.O_WRONLY)
    os.dup2(fd, 2)
    os.close(fd)
    try:
        yield
    finally:
        sys.stderr.flush()
        os.dup2(old, 2)
        os.close(old)


def search(data, job, z, real=False):
    """Run the search, returns the events."""
    gc.freeze()
    tmp = tempfile.mkdtemp(prefix="sub")
    out = io.StringIO()
    ev = [{"op": "start", "lo": job["lo"], "size": job["size"],
           "dir": job["dir"], "odd": job["odd"]}]
    ids = job["ids"]
    res = "ok"
    where = os.path.join(tmp, "out")
    if job["dir"] and job["exists"]:
        os.mkdir(where)
    old = sys.argv, config.quiet
    try:
        with contextlib.redirect_stdout(out), stderr_to(tmp):
            if job["cli"]:
                path = os.path.join(tmp, "data")
                with open(path, "wb") as fp:
                    fp.write(data)
                argv = ["hachoir-subfile"]
                if job["lo"]:
                    argv += ["--offset", str(job["lo"])]
                if job["size"] >= 0:
                    argv.append("--size=%d" % job["size"])
                if job["select"] == "ids":
                    argv.append("--parser=" + ",".join(ids))
                elif job["select"] == "category":
                    argv.append("--category=game")
                elif job["select"] == "both":
                    argv += ["--category", "video,game", "--parser", ids[0]]
                if job["quiet"]:
                    argv.append("--quiet")
                if job["stats"]:
                    argv.append("--debug")
                argv.append(path)
                if job["dir"]:
                    argv.append(where)
                sys.argv = argv
                try:
                    hachoir.subfile.main.main()
                    res = "returned"
                except SystemExit as e:
                    res = "ok" if not e.code else "exit %s" % e.code
            else:
                config.quiet = True
                if job["file"]:
                    path = os.path.join(tmp, "data")
                    with open(path, "wb") as fp:
                        fp.write(data)
                    stream = FileInputStream(path)
                else:
                    stream = StringInputStream(data)
                if job["size"] >= 0:
                    s = SearchSubfile(stream, job["lo"], job["size"])
                else:
                    s = SearchSubfile(stream, offset=job["lo"])
                s.verbose = not job["quiet"]
                s.debug = job["stats"]
                if job["select"] == "ids":
                    s.loadParsers(parser_ids=ids)
                elif job["select"] == "category":
                    s.loadParsers(categories=["game"])
                elif job["select"] == "both":
                    s.loadParsers(categories=["video", "game"], parser_ids=ids[:1])
                if job["slice"]:
                    s.slice_size = 8 * job["slice"]
                if job["dir"]:
                    s.setOutput(where)
                if job["odd"]:
                    s.filter = lambda p: (p.content_size // 8) % 2 == 1
                if not s.main():
                    res = "failed"
                if job["stats"]:
                    hachoir.subfile.main.displaySearchStat(s)
    except Exception as e:
        res = exc_name(e)
    finally:
        sys.argv, config.quiet = old
    valid = []
    for line in out.getvalue().splitlines():
        m = re.match(r" - (\S+): (\d+) hit/(\d+) valid$", line)
        if m:
            valid.append({"id": m.group(1), "hit": int(m.group(2)), "n": int(m.group(3))})
        if not line.startswith("[+] File"):
            continue
        m = LINE.match(line)
        if not m:
            res = "line " + line
            continue
        e = {"op": "found", "at": int(m.group(1)),
             "size": -1 if m.group(2) is None else int(m.group(2)),
             "what": m.group(3), "copy": "", "len": -1, "runs": [], "same": True}
        if m.group(4):
            e["copy"] = "whole" if "whole" in m.group(4) else "big"
            if m.group(5):
                e["copy"] = os.path.basename(m.group(5))
                if os.path.dirname(m.group(5)) != where:
                    res = "saved in " + m.group(5)
                try:
                    with open(m.group(5), "rb") as fp:
                        content = fp.read()
                    e["len"] = len(content)
                    if real:
                        e["same"] = data[e["at"]:e["at"] + len(content)] == content
                    else:
                        e["runs"] = runs(content, z)
                except OSError:
                    pass
        ev.append(e)
    with open(os.path.join(tmp, "stderr")) as fp:
        err = fp.read()
    m = re.search(r"^\[\+\] Start search on (-?\d+) bytes", err, re.M)
    n = re.search(r"^\[\+\] End of search -- offset=(\d+)", err, re.M)
    if res == "ok" and not (m and n):
        res = "stderr " + err
    elif res == "ok" and int(n.group(1)) != job["lo"] + int(m.group(1)):
        res = "end at " + n.group(1)
    names = sorted(os.listdir(where)) if os.path.isdir(where) else []
    ev.append({"op": "end", "res": res, "files": names, "stats": job["stats"],
               "valid": valid, "bytes": int(m.group(1)) if m else -1})
    shutil.rmtree(tmp)
    return ev


JOB = {"lo": 0, "size": -1, "dir": False, "odd": False, "exists": False,
       "cli": False, "file": False, "select": "ids", "slice": 0,
       "quiet": True, "stats": False, "ids": []}


def kind(name, magics, voff, need, zoff, zmul, skip, ext):
    return {"id": name, "name": name, "cls": name.capitalize(),
            "desc": "File of kind " + name, "magics": magics, "voff": voff,
            "need": need, "zoff": zoff, "zmul": zmul, "skip": skip, "ext": ext}


def sig(b, off, re=False):
    return {"b": list(b), "off": off, "re": re}


SMALL = (kind("kind_a", [sig((1, 2), 0)], 2, 3, 3, 2, True, ".aa"),
         kind("kind_b", [sig((2, -1, 2), 1)], 0, 1, -1, 1, False, ""),
         kind("kind_c", [sig((1, 1), 0), sig((2, 1), 0)], 2, 1, 0, 1, False, ".c"))


def trace(name, data, z, kinds, job, frags=None):
    kinds = [dict(k) for k in kinds]
    for k in kinds:
        k["id"] = toy(k)
    job = dict(JOB, **job)
    job["ids"] = [k["id"] for k in kinds]
    return {"name": name, "D": {"len": len(data), "z": z, "frags": runs(data, z)},
            "kinds": kinds, "occ": [], "planted": [],
            "names": [{"id": k["id"], "desc": k["desc"], "cls": k["cls"],
                       "ext": k["ext"]} for k in kinds],
            "ev": search(data, job, z)}


def small(script):
    n, s = script
    r = random.Random(n)
    d = bytes(s["d"])
    return trace("small-%d" % n, d, 0, SMALL,
                 {"lo": s["lo"], "size": s["hi"] - s["lo"] if s["hi"] < len(d) else
                  r.choice((-1, s["hi"] - s["lo"], 1000)),
                  "slice": s["slice"], "dir": n % 7 == 0, "stats": n % 5 == 0,
                  "file": n % 7 == 0})


def planned(job):
    """In a child process, which forgets the parsers it has registered."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(rfd)
            with os.fdopen(wfd, "w") as fp:
                json.dump(plan(job), fp)
            code = 0
        except Exception:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd) as fp:
        text = fp.read()
    status = os.waitpid(pid, 0)[1]
    if status:
        raise RuntimeError("child process failed (%s)" % status)
    return json.loads(text)


def plan(job):
    r = random.Random(job["name"])
    z = r.choice((0, 0, 0, 255, 32))
    sl = 65536
    letters = [65, 66, 67, 68, 10, 13, 1]
    kinds, used = [], set()
    for i in range(r.randint(1, 4)):
        off = r.choice((0, 0, 0, 1, 4, 20, 257))
        ms = []
        for _ in range(r.choice((1, 1, 2))):
            while 1:
                b = [r.choice(letters) for _ in range(r.choice((1, 2, 3, 4, 8, 20)))]
                if len(b) == 1 and b[0] in (10, 13):
                    continue
                for j in range(1, len(b) - 1):
                    if r.random() < .25:
                        b[j] = -1
                if tuple(b) not in used:
                    break
            used.add(tuple(b))
            ms.append(sig(b, off, r.random() < .2))
        end = off + max(len(m["b"]) for m in ms)
        before = off >= 4 and r.random() < .5
        voff = r.randint(0, 1) if before else end + r.randint(0, 3)
        zoff = -1 if r.random() < .25 else 2 + r.randint(0, 1) if before else voff + 1
        kinds.append(kind("kind_%c" % (97 + i), ms, voff,
                          max(1, end + r.choice((-1, 0, 2, 8))), zoff,
                          r.choice((1, 1, 1, 7, 300, 1000, 1 << 20)),
                          r.random() < .4, r.choice(("", ".a", ".bin", ".tar.x"))))
    size = r.choice((r.randint(1, 300), r.randint(300, 5000), sl, sl + r.randint(-5, 30),
                     r.randint(sl, 4 * sl), 2 * sl, 3 * sl - 1))
    data = bytearray([z]) * size
    at = 0
    for _ in range(r.randint(0, 12)):
        k = r.choice(kinds)
        m = r.choice(k["magics"])["b"]
        body = bytearray([z]) * (max(k["need"], k["magics"][0]["off"] + len(m), k["voff"] + 1, k["zoff"] + 1))
        for j, b in enumerate(m):
            body[k["magics"][0]["off"] + j] = b if b >= 0 else r.choice(letters + [z])
        body[k["voff"]] = r.choice((0, 2, 4, 6, 66, 65, 33))
        if k["zoff"] >= 0:
            body[k["zoff"]] = r.choice((0, 1, len(body) % 256, 100, 101, 255, r.randint(0, 255)))
        how = r.random()
        if how < .4:
            # the signature near the end of a slice
            p = sl * r.randint(1, max(1, size // sl)) - k["magics"][0]["off"] - r.randint(-2, len(m) + 1)
        elif how < .7:
            p = at      # just after the previous one
        else:
            p = r.randint(0, size)
        p = max(0, p)
        at = p + len(body)
        body = body[:max(0, size - p)]
        data[p:p + len(body)] = body
    for _ in range(r.choice((0, 0, 3))):
        p = r.randint(0, size - 1)
        data[p] = r.choice(letters)
    assert len(data) == size
    lo = r.choice((0, 0, 0, r.randint(0, size), r.randint(0, min(size, 40))))
    return trace(job["name"], bytes(data), z, kinds, {
        "lo": lo, "size": r.choice((-1, -1, r.randint(0, size - lo), r.randint(0, size - lo), size)),
        "dir": r.random() < .5, "odd": r.random() < .2 and not job["cli"],
        "exists": r.random() < .3, "cli": job["cli"], "file": r.random() < .5,
        "select": r.choice(("ids", "ids", "category", "both")),
        "slice": 0 if r.random() < .6 else r.choice((64, 100, 333, 4096)),
        "quiet": r.random() < .5, "stats": r.random() < .5})


# --- real files ------------------------------------------------------------------
PLANTS = {}


def occurrences(data, stream, lo, hi):
    """Every place which bears a signature, found one by one."""
    res = []
    for cls in HachoirParserList.getInstance():
        tags = cls.getParserTags()
        sigs = [(re.escape(m), off) for m, off in tags.get("magic", ())]
        sigs += list(tags.get("magic_regex", ()))
        for rx, off in sigs:
            for m in re.finditer(b"(?=(" + rx + b"))", data, re.DOTALL):
                s, e = m.span(1)
                if s < lo or e > hi:
                    continue
                c = {"s": s, "e": e, "at": (8 * s - off) // 8, "id": tags["id"],
                     "skip": tags.get("subfile") == "skip", "ok": False,
                     "size": -1, "desc": "", "ext": ""}
                if 8 * s >= off:
                    try:
                        p = cls(InputSubStream(stream, 8 * s - off), validate=True)
                        c["ok"] = True
                    except Exception:
                        pass
                    if c["ok"]:
                        if p.content_size is not None:
                            c["size"] = p.content_size // 8
                        if c["size"] < 100 << 20:
                            c["desc"] = p.description
                        c["ext"] = p.filename_suffix or ""
                res.append(c)
    return res


def real(job):
    r = random.Random(job["name"])
    data = bytearray()
    planted = []
    z = r.choice((0, 32, 170))
    config.quiet = True
    for path, ident in job["files"]:
        with open(path, "rb") as fp:
            d = fp.read()
        how = r.random()
        if how < .4:
            gap = -len(data) % 65536 - r.randint(0, 24)
        elif how < .7:
            gap = 0
        else:
            gap = r.randint(0, 3000)
        data += bytes([z]) * max(0, gap)
        planted.append({"at": len(data), "id": ident, "end": len(data) + len(d)})
        data += d
    data += bytes([z]) * r.choice((0, 0, 1, 500))
    data = bytes(data)
    lo, size = 0, -1
    if r.random() < .2:
        lo = r.randint(0, len(data))
        size = r.randint(0, len(data) - lo)
    hi = len(data) if size < 0 else lo + size
    stream = StringInputStream(data)
    with contextlib.redirect_stderr(io.StringIO()):
        occ = occurrences(data, stream, lo, hi)
    cfg = dict(JOB, lo=lo, size=size, dir=r.random() < .5, select="all",
               cli=r.random() < .5, file=r.random() < .5, stats=r.random() < .3)
    return {"name": job["name"], "D": {"len": len(data), "z": 0, "frags": []},
            "kinds": [], "occ": occ,
            "planted": [p for p in planted if lo <= p["at"] and p["end"] <= hi],
            "names": [{"id": i, "cls": c} for i, c in
                      {(p.PARSER_TAGS["id"], p.__name__) for p in HachoirParserList.getInstance()}],
            "ev": search(data, cfg, z, True)}
