"""Driver of the string listing (spec/Listing.tla)."""
import errno
import io
import os
import random
import re
import shutil
import sys
import tempfile

import realtree
from lib import exc_name
import hachoir.grep
from hachoir.core import config
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import (
    Bit, Bits, CString, Enum, FieldSet, isString, PaddingBytes, Parser as _P,
    PascalString8, PascalString16, PascalString32, RawBytes, SeekableFieldSet,
    String, UInt8, UInt16, UnixLine)
from hachoir.grep import ConsoleGrep, Grep
from hachoir.parser import createParser, guessParser, Parser, HachoirParserList
from hachoir.stream import StringInputStream

MAGIC = b"PlAnNeD\0"
PLANS = {}


def codes(s):
    return [ord(c) for c in s]


def node(k, n, a, v="", no=False, ch=()):
    return {"k": k, "n": codes(n), "a": a, "v": codes(v), "no": no,
            "ch": list(ch)}


# --- planned documents ---------------------------------------------------------
class Broken(String):
    """A string whose value can't be known."""

    def createValue(self, human=True):
        raise ValueError("no value")


class Set(FieldSet):
    def __init__(self, parent, name, plan):
        FieldSet.__init__(self, parent, name, size=plan["size"])
        self.plan = plan

    def createFields(self):
        yield from fields(self, self.plan["ch"])


class SeekSet(SeekableFieldSet):
    def __init__(self, parent, name, plan):
        SeekableFieldSet.__init__(self, parent, name, size=plan["size"])
        self.plan = plan

    def createFields(self):
        yield from fields(self, self.plan["ch"])


def fields(fs, plan):
    for p in plan:
        if p["peek"]:
            # look at what was read before
            f = fs[p["peek"]]
            assert f.absolute_address >= 0
        k, n = p["k"], p["name"]
        if k == "set":
            yield (SeekSet if p["seek"] else Set)(fs, n, p)
        elif k == "bits":
            yield Bits(fs, n, p["bits"])
        elif k == "num":
            yield UInt8(fs, n)
        elif k == "raw":
            yield RawBytes(fs, n, p["bits"] // 8)
        elif k == "C":
            yield CString(fs, n, charset=p["charset"], strip=p["strip"])
        elif k == "line":
            yield UnixLine(fs, n, charset=p["charset"], strip=p["strip"])
        elif k == "P8":
            yield PascalString8(fs, n, charset=p["charset"], strip=p["strip"])
        elif k == "P16":
            yield PascalString16(fs, n, charset=p["charset"], strip=p["strip"])
        elif k == "P32":
            yield PascalString32(fs, n, charset=p["charset"], strip=p["strip"])
        elif k == "enum":
            yield Enum(String(fs, n, p["bits"] // 8, charset="ASCII"), {"a": "zz"})
        elif k == "none":
            yield Broken(fs, n, p["bits"] // 8)
        else:
            yield String(fs, n, p["bits"] // 8, charset=p["charset"],
                         strip=p["strip"])


class Planned(Parser):
    PARSER_TAGS = {
        "id": "planned", "category": "misc", "file_ext": ("planned",),
        "min_size": 8 * len(MAGIC), "magic": ((MAGIC, 0),),
        "description": "Planned document"}
    endian = BIG_ENDIAN

    def validate(self):
        return self.stream.readBytes(0, len(MAGIC)) == MAGIC

    def createFields(self):
        yield RawBytes(self, "magic", len(MAGIC))
        yield UInt16(self, "plan")
        yield from fields(self, PLANS[self["plan"].value]["ch"])


class Writer:
    def __init__(self):
        self.bits = []

    def put(self, data):
        for b in data:
            self.bits += [b >> i & 1 for i in range(7, -1, -1)]


TEXTS = ("hello", "Hello", "abc", "ABC", "a", "", "x:y", "tab\there", "\x01\x02",
         "caf\xe9", "\xc9t\xe9", "l\n2", "aHELLOa", "\x7f\x1b[0m", "\\x017", "b a ")


def plan(r, w, depth, many):
    """(plan, node) of a set whose bits are added to w."""
    out, kids, names = [], [], {}
    start = len(w.bits)
    for i in range(r.randint(0, many)):
        k = r.choice(("C", "line", "P8", "P16", "P32", "fixed", "fixed", "num",
                      "bits", "raw", "enum", "none", "set", "set"))
        if k == "none" and r.random() < .6:
            k = "C"
        if k == "set" and depth == 0:
            k = "C"
        if len(w.bits) % 8 and r.random() < .6:
            k = "bits"      # to the next byte
        if k in ("C", "line") and len(w.bits) % 8:
            k = "fixed"     # the end can't be searched there
        base = r.choice(("s", "t", "name", "u"))
        p = {"k": k, "peek": None, "strip": None, "charset": "ISO-8859-1",
             "seek": False, "size": None}
        if r.random() < .5:
            p["name"] = base + "[]"
            name = "%s[%d]" % (base, names.get(base, 0))
            names[base] = names.get(base, 0) + 1
        else:
            name = p["name"] = "%s_%d" % (base, i)
        if kids and r.random() < .3:
            prev = r.choice(kids)
            p["peek"] = "".join(map(chr, prev["n"]))
            if prev["ch"] and r.random() < .6:
                p["peek"] += "/" + "".join(map(chr, r.choice(prev["ch"])["n"]))
        at = len(w.bits)
        text, val, no = "", "", False
        if k == "set":
            sub, n = plan(r, w, depth - 1, many)
            p["ch"] = sub
            p["seek"] = r.random() < .15
            n["n"], n["a"] = codes(name), at - start
            if r.random() < .5 or p["seek"]:
                extra = r.choice((0, 0, 8, 24, 3))
                if extra and not p["seek"]:
                    w.bits += [1] * extra
                p["size"] = len(w.bits) - at
            if len(w.bits) == at:
                w.bits.append(1)
                p["size"] = None
                p["ch"].append({"k": "bits", "bits": 1, "name": "one",
                                "peek": None})
                n["ch"].append(node("other", "one", 0))
            kids.append(n)
            out.append(p)
            continue
        if k == "bits":
            p["bits"] = -len(w.bits) % 8 or r.randint(1, 9)
            w.bits += [r.randint(0, 1) for _ in range(p["bits"])]
        elif k == "num":
            w.put(bytes([r.randrange(256)]))
        elif k == "raw":
            p["bits"] = 8 * r.randint(1, 4)
            w.put(b"abcd"[:p["bits"] // 8])
        else:
            text = r.choice(TEXTS)
            if k in ("enum", "none", "fixed"):
                text = text or "a"
            if k == "enum":
                text = "".join(c for c in text if ord(c) < 128) or "q"
            if k == "line":
                text = text.replace("\n", "")
            data = text.encode("latin-1")
            if text.isascii() and r.random() < .3:
                p["charset"] = "ASCII"
            if k == "fixed" and r.random() < .3 and len(data):
                data = text.encode("utf-8")
                p["charset"] = "UTF-8"
            val = text
            if k not in ("enum", "none") and r.random() < .3:
                p["strip"] = r.choice((True, "a", " "))
                val = text.strip() if p["strip"] is True \
                    else text.strip(p["strip"])
            p["bits"] = 8 * len(data)
            if k == "C":
                data += b"\0"
            elif k == "line":
                data += b"\n"
            elif k[0] == "P":
                width = int(k[1:]) // 8
                data = len(data).to_bytes(width, "big") + data
            w.put(data)
            # nothing can be read there
            no = k == "none" or at % 8 != 0
            if no:
                val = ""
        kids.append(node("str" if k not in ("bits", "num", "raw") else "other",
                         name, at - start, val, no))
        out.append(p)
    return out, node("set", "", 0, ch=kids)


def document(r, number, depth, many):
    w = Writer()
    w.put(MAGIC + number.to_bytes(2, "big"))
    first = len(w.bits)
    ch, top = plan(r, w, depth, many)
    for n in top["ch"]:
        n["a"] += first
    top["ch"] = [node("other", "magic", 0), node("other", "plan", first - 16)] \
        + top["ch"]
    bits = w.bits + [0] * (-len(w.bits) % 8)
    data = bytes(int("".join(map(str, bits[i:i + 8])), 2)
                 for i in range(0, len(bits), 8))
    data += bytes(r.choice((0, 0, 3)))
    PLANS[number] = {"ch": ch}
    top["size"] = 8 * len(data)
    return data, top


# --- the tree of a file as it is ------------------------------------------------
def real_tree(data):
    """Tree of the document in data, without what holds no string."""
    p = guessParser(StringInputStream(data))
    if p is None:
        return None
    count = [0]

    def walk(fs):
        out = []
        for f in list(fs):
            count[0] += 1
            if f.is_field_set:
                ch = walk(f)
                if ch:
                    out.append(node("set", f.name, f.address, ch=ch))
            elif isString(f):
                v = f.value
                out.append(node("str", f.name, f.address, v or "", v is None))
        return out
    top = node("set", "", 0, ch=walk(p))
    top["size"] = p.size
    return top, count[0]


def longest(n):
    return max([len(n["v"])] + [longest(c) for c in n["ch"]])


def has_wide(n):
    return any(c > 255 for c in n["v"]) or any(map(has_wide, n["ch"]))


# --- recording ---------------------------------------------------------------------
class Pipe(io.StringIO):
    """Standard output which fails at a line."""

    def __init__(self, fail, code):
        io.StringIO.__init__(self)
        self.left, self.code = fail, code

    def write(self, s):
        if self.left == 0:
            raise OSError(self.code, "injected")
        if "\n" in s:
            self.left -= 1
        return io.StringIO.write(self, s)


class Keep(Grep):
    def __init__(self):
        Grep.__init__(self)
        self.out = []

    def onMatch(self, field):
        self.out.append({"p": codes(field.path), "a": field.absolute_address,
                         "v": codes(field.value)})


def sets(n, at=()):
    out = [list(at)]
    for i, c in enumerate(n["ch"]):
        if c["k"] == "set":
            out += sets(c, at + (i + 1,))
    return out


def path_of(n, at):
    names = []
    for i in at:
        n = n["ch"][i - 1]
        names.append("".join(map(chr, n["n"])))
    return names


def walks(r, data, tree, count, wide):
    """Walks of one parser, with other uses between them."""
    ev = []
    p = guessParser(StringInputStream(data))
    places = sets(tree)
    for i in range(count):
        at = r.choice(places) if r.random() < .6 else []
        g = Keep()
        pat = "" if wide else pattern(r)
        g.case_sensitive = r.random() < .5
        g.pattern = pat if g.case_sensitive else pat.lower()
        e = {"op": "walk", "at": at, "pat": codes(pat),
             "case": g.case_sensitive, "raised": ""}
        try:
            fs = p
            for name in path_of(tree, at):
                fs = fs[name]
            g.grep(fs)
        except Exception as err:
            e["raised"] = exc_name(err)
        e["out"] = g.out
        ev.append(e)
        if r.random() < .3:
            for name in path_of(tree, r.choice(places)):
                pass
            try:
                f = p[r.randrange(len(p))]
                if f.is_field_set:
                    list(f)
            except Exception:
                pass
    return ev


def pattern(r):
    return r.choice(("", "", "a", "A", "hello", "HELLO", "é", "É", "x:", "\t",
                     "ell", "zz", "b a", "MS", "the", "."))


def run_main(r, paths, e, opts):
    """hachoir-grep as a command, or as the class."""
    saved = sys.argv, sys.stdout, sys.stderr
    out = sys.stdout = Pipe(e["fail"], getattr(errno, e["errno"]))
    err = sys.stderr = io.StringIO()
    e["raised"] = ""
    try:
        if opts["cmd"]:
            args = list(opts["flags"])
            if e["pat"]:
                args.append("".join(map(chr, e["pat"])))
            else:
                args.append("--all")
            sys.argv = ["hachoir-grep"] + args + paths
            # the charset is guessed once for the process
            from hachoir.core.i18n import getTerminalCharset
            getTerminalCharset()
            getTerminalCharset.value = e["o"]["charset"]
            hachoir.grep.main()
        else:
            g = ConsoleGrep()
            g.term_charset = e["o"]["charset"]
            o = e["o"]
            g.display_filename, g.display_address = o["file"], o["addr"]
            g.display_path, g.display_value = o["path"], o["value"]
            g.display_percent = opts["percent"]
            pat = "".join(map(chr, e["pat"])) or None
            for p in paths:
                g.searchFile(p, pat, o["case"])
    except SystemExit as error:
        e["raised"] = "SystemExit" if error.code else "exit"
    except OSError as error:
        e["raised"] = "OSError" if error.errno == getattr(errno, e["errno"]) \
            else exc_name(error)
    except Exception as error:
        e["raised"] = exc_name(error)
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
        config.quiet = config.verbose = True
        config.verbose = False
    text = out.getvalue()
    e["lines"] = [codes(x) for x in text.split("\n")[:-1]]
    e["pct"] = [int(x.replace(".", "")) for x in
                re.findall(r"\[(-?\d+\.\d)%\] ", err.getvalue())]


def runs(r, trees, names, count, wide):
    ev = []
    for i in range(count):
        files = [r.randint(1, len(trees)) for _ in range(r.choice((1, 1, 2, 3)))]
        cmd = r.random() < .5
        o = {"file": r.random() < .5, "addr": r.random() < .7,
             "path": r.random() < .5, "value": r.random() < .8,
             "case": r.random() < .5,
             "charset": r.choice(("ASCII", "UTF-8", "ISO-8859-1"))}
        opts = {"cmd": cmd, "percent": r.random() < .3, "flags": []}
        if cmd:
            o["file"] = len(files) > 1
            opts["flags"] = [f for f, on in (
                ("--no-addr", not o["addr"]), ("--no-value", not o["value"]),
                ("--path", o["path"]), ("--case", o["case"]),
                ("--percent", opts["percent"])) if on]
        fail = r.choice((-1, -1, -1, 0, 1, 3, 10))
        e = {"op": "run", "files": files, "o": o, "fail": fail,
             "errno": r.choice(("EPIPE", "ENOSPC")),
             "pat": codes("" if wide else pattern(r))}
        run_main(r, [names[f - 1] for f in files], e, opts)
        if opts["percent"] and e["fail"] < 0 \
                and (o["file"] or o["addr"] or o["path"] or o["value"]):
            pass
        else:
            e["pct"] = []
        if opts["percent"] and e["pct"] == [] and e["lines"] \
                and e["fail"] < 0:
            e["pct"] = [-1]
        ev.append(e)
    return ev


_registered = False


def register():
    global _registered
    if not _registered:
        _registered = True
        HachoirParserList.getInstance().add(Planned)


def planned(job):
    register()
    config.quiet = True
    r = random.Random(job["name"])
    tmp = tempfile.mkdtemp(prefix="p01")
    try:
        docs = []
        for i in range(3):
            for again in range(20):
                doc = document(r, i, r.choice((1, 2, 3)), r.choice((3, 5)))
                # some data may be taken for something else
                if isinstance(guessParser(StringInputStream(doc[0])), Planned):
                    break
            docs.append(doc)
        trees, names = [], []
        for i, (data, top) in enumerate(docs):
            trees.append([top])
            names.append(os.path.join(tmp, r.choice(("f%d", "é%d", "a b%d")) % i))
            with open(names[-1], "wb") as f:
                f.write(data)
        if r.random() < .4:
            trees.append([])
            names.append(os.path.join(tmp, "none"))
            if r.random() < .5:
                with open(names[-1], "wb") as f:
                    f.write(b"nothing")
        ev = walks(r, docs[0][0], docs[0][1], 5, False)
        ev += runs(r, trees, names, 6, False)
        return {"name": job["name"], "trees": trees,
                "names": [codes(n) for n in names], "ev": ev}
    finally:
        shutil.rmtree(tmp)


def real(job):
    config.quiet = True
    r = random.Random(job["name"])
    with open(job["file"], "rb") as f:
        data = realtree.damage(f.read(), r, job["mode"])
    got = real_tree(data)
    if got is None or got[1] > 6000:
        return None
    tree = got[0]
    wide = has_wide(tree)
    if longest(tree) > 4000:
        return None
    tmp = tempfile.mkdtemp(prefix="p01")
    try:
        name = os.path.join(tmp, os.path.basename(job["file"]))
        with open(name, "wb") as f:
            f.write(data)
        p = createParser(name)
        other = guessParser(StringInputStream(data))
        same = p is not None and type(p) is type(other)
        if p is not None:
            p.close()
        ev = walks(r, data, tree, 3, wide)
        if same and len(data) < 200000:
            ev += runs(r, [[tree]], [name], 2, wide)
        return {"name": job["name"], "trees": [[tree]],
                "names": [codes(name)], "ev": ev}
    finally:
        shutil.rmtree(tmp)
