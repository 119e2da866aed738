"""Driver of metadata registers (hachoir.metadata): values of every kind added
to every key, looked up and exported at random; every answer is recorded."""
import random
import re
import os
from datetime import date, datetime, timedelta
from hachoir.core.language import Language
from hachoir.metadata import config
from hachoir.metadata.metadata import Metadata, MultipleMetadata, RootMetadata
from hachoir.metadata.timezone import createTimezone

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     "spec", "MetaTable.tla")
ROWS = [(m.group(1), m.group(2)) for m in re.finditer(
    r'key \|-> "(\w+)".*?type \|-> "(\w+)"', open(TABLE).read())]
KEYS = [k for k, t in ROWS]
TYPE = dict(ROWS)


def exc_name(err):
    return type(err).__name__


def codes(s):
    return [ord(c) for c in s]


def enc(v):
    """Value as the specification writes it."""
    d = {"k": "other", "s": [], "n": 0, "f": 0, "u": []}
    if v is None:
        return dict(d, k="none")
    if isinstance(v, str):
        return dict(d, k="str", s=codes(v), u=codes(v))
    if isinstance(v, bytes):
        return dict(d, k="bytes", s=list(v), u=codes(str(v, "latin-1")))
    d["u"] = codes(str(v))
    if isinstance(v, Language):
        return dict(d, k="lang", s=codes(v.code))
    if isinstance(v, int):
        return dict(d, k="int", n=v)
    if isinstance(v, float):
        if v != v or abs(v) > 1 << 30:
            return dict(d, s=d["u"])
        return dict(d, k="num", n=int(v // 1), f=int((v - v // 1) * 8))
    if isinstance(v, timedelta):
        return dict(d, k="delta", n=v.days * 86400 + v.seconds,
                    f=v.microseconds)
    if isinstance(v, datetime):
        z = 99 if v.tzinfo is None else int(v.utcoffset().total_seconds()
                                            // 3600)
        return dict(d, k="dt", s=list(v.timetuple()[:6]), n=z,
                    f=v.microsecond)
    if isinstance(v, date):
        return dict(d, k="date", s=[v.year, v.month, v.day])
    return dict(d, s=d["u"])


# --- values ----------------------------------------------------------------
WORDS = ["a", "ab", "abc", "abcd", "b", "ba", "ab\ncd", "ab\r\ncd", "ab\rcd",
         "ab\n\r\n\ncd", " ab", "ab ", "\0ab\0", "\t", "", "  ", "ab\x01",
         "ab\x019", "a\x02b\x7f", "é", "éa", "\\x01", "ab\x0b", "a\tb\x07\x08",
         "abcdefgh", "abcdefghij", "abcdefg", "(...)", "abcdef(...)"]
ISO_DAY = ["Mon", "tue", "Wed", "THU", "Fri", "Sat", "Sun", "Thx"]
MON = ["Jan", "feb", "MAR", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct",
       "Nov", "Dec", "Foo"]
MONTH = ["January", "february", "March", "April", "MAY", "June", "July",
         "August", "September", "October", "November", "December", "Sept"]


def date_text(r):
    y = r.choice((2000, 1999, 2004, 2030, 1850, 1849, 2031, 0, 1900, 2007, 850))
    mo, d = r.choice((1, 2, 12, 11, 7, 13, 0)), r.choice((1, 28, 29, 30, 31, 9, 32, 0))
    if r.random() < .6:
        mo, d = r.randint(1, 12), r.randint(1, 28)
    h, mi, s = r.choice((0, 23, 9, 24)), r.choice((0, 59, 5, 60)), r.choice((0, 59, 7, 60, 61))
    if r.random() < .7:
        h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
    a, b, c = (r.choice("-/.: ") for i in range(3))
    kind = r.randrange(8)
    if kind == 0:
        t = "%04d" % y
    elif kind == 1:
        t = "%04d%s%02d%s%02d" % (y, a, mo, b, d)
    elif kind == 2:
        t = "%04d%s%02d%s%02d%s%02d:%02d:%02d" % (y, a, mo, a, d, c, h, mi, s)
        if r.random() < .3:
            t = "%04d-%02d-%02d %d:%02d:%d" % (y, mo, d, h, mi, s)
    elif kind == 3:
        t = "%d%s%02d%s%04d%s%d:%02d:%02d" % (mo, a, d, a, y, c, h, mi, s)
    elif kind in (4, 5):
        t = "%s, %d %s %04d %02d:%02d:%02d" % (
            r.choice(ISO_DAY), d, r.choice(MON), y, h, mi, s)
    elif kind == 6:
        t = "%s %s %d %d:%02d:%02d %04d" % (
            r.choice(ISO_DAY), r.choice(MON), d, h, mi, s, y)
    else:
        t = "%s %04d" % (r.choice(MONTH), y)
    if r.random() < .4:
        t += r.choice((" ", "  ", "/", "", " ")) + r.choice(
            ("+0200", "-0500", "+0000", "-0000", "+2300", "+2400", "-9900",
             "+0230", "0200", "+1400", "-1000"))
    if r.random() < .1:
        i = r.randrange(len(t) + 1)
        t = t[:i] + r.choice("1 x-~\n") + t[i + r.randint(0, 1):]
    if r.random() < .1:
        t = r.choice((" ", "\n", "\t ")) + t + r.choice((" ", "\n", ""))
    return t


def number(r):
    n = r.choice((0, 1, 2, 3, 8, 9, -1, 64, 65, 150, 151, 256, 257, 999, 1000,
                  1001, 10000, 10001, 20000, 20001, 44100, 192000, 192001,
                  16777216, 16777217, 524288000, 524288001, r.randint(0, 9999)))
    return n if r.random() < .65 else n + r.choice((0.0, 0.5, 0.125, 0.875))


def dates(r):
    y = r.choice((1849, 1850, 2030, 2031, 1, 9999))
    if r.random() < .7:
        y = r.randint(1990, 2004)
    mo, d = r.choice(((1, 1), (12, 31), (2, 28), (3, 1), (7, 19), (12, 30)))
    k = r.randrange(3)
    if k == 0:
        return date(y, mo, d)
    q = r.choice(((0, 0, 0), (23, 59, 59), (9, 3, 57), (12, 0, 0), (0, 0, 1)))
    us = r.choice((0, 0, 370000, 1))
    if k == 1 or y in (1, 9999):
        return datetime(y, mo, d, *q, us)
    return datetime(y, mo, d, *q, us, tzinfo=createTimezone(
        r.choice((0, 1, 2, -5, 12, -23, 23))))


def value(r, ty, key):
    p = r.random()
    if p < .04:
        return None
    if p < .18:
        ty = r.choice(("str", "num", "date", "delta", "bytes", "other", "lang"))
    if key.startswith("track") and r.random() < .7:
        return r.choice(("3/12", "12", " 7 ", "3/12/4", "x/12", "3/x", "0/5",
                         "1000/20", "+5", "-5", "/", "12/", "5/1000", "",
                         b"12", b"3/4", "999", 999, 1000, 0, 3.5, -2.5, [1]))
    if ty == "any":
        ty = r.choice(("str", "num", "other", "bytes"))
    if ty == "str":
        w = r.choice(WORDS)
        if r.random() < .2:
            w += r.choice(WORDS)
        return w
    if ty in ("int", "num", "float"):
        n = number(r)
        return float(n) if ty == "float" and r.random() < .7 else n
    if ty == "date":
        return date_text(r) if r.random() < .6 else dates(r)
    if ty == "delta":
        return timedelta(r.choice((0, 0, 1, 364, 365, 366, -1)),
                         r.choice((0, 1, 59, 3600)),
                         r.choice((0, 999, 1000, 500000)))
    if ty == "lang":
        return r.choice(("fre", "ger", "eng", "spa", "xx", "FRE", "", "fr"))
    if ty == "bytes":
        return r.choice(WORDS).encode("latin-1")
    return r.choice(([1, 2], {"a": 1}, [], (("x", 1),)[0:0] or [None]))


# --- recording ---------------------------------------------------------------
def item(i):
    return {"v": enc(i.value), "t": codes(i.text)}


def dump(m):
    out = []
    for d in m:
        if len(d):
            out.append({"key": d.key, "vals": [item(i) for i in d]})
    return out


class Run:
    def __init__(self, job):
        self.r = random.Random(job["name"])
        self.multi = job.get("multi", True)
        self.regs = [MultipleMetadata() if self.multi else RootMetadata()]
        self.groups = []
        self.ev = []

    def ident(self, m):
        for i, x in enumerate(self.regs):
            if x is m:
                return i + 1
        return 0

    def add(self, reg, key, v, t=None, bad=False):
        m = self.regs[reg - 1]
        e = {"op": "set", "r": reg, "key": key, "v": enc(v), "bad": bad,
             "t": [] if t is None else [codes(t)]}
        try:
            setattr(m, key, (v, "x", 1) if bad else (v, t)
                    if t is not None else v)
            e["res"] = "ok"
        except Exception as err:
            e["res"] = exc_name(err)
        e["data"] = dump(m)
        self.ev.append(e)

    def has(self, reg, key):
        try:
            res = str(self.regs[reg - 1].has(key))
        except Exception as err:
            res = exc_name(err)
        self.ev.append({"op": "has", "r": reg, "key": key, "res": res})

    def values(self, reg, key):
        m = self.regs[reg - 1]
        e = {"op": "values", "r": reg, "key": key, "vals": [], "texts": [],
             "len": 0, "res": "ok"}
        try:
            e["vals"] = [enc(v) for v in m.getValues(key)]
            e["len"] = len(m.getItems(key))
            e["texts"] = [codes(i.text) for i in m.getItems(key)]
        except Exception as err:
            e["res"] = exc_name(err)
        self.ev.append(e)

    def get(self, reg, key, i, dflt):
        m = self.regs[reg - 1]
        e = {"op": "get", "r": reg, "key": key, "i": i, "dflt": dflt,
             "res": "ok", "val": [], "text": [], "item": []}
        try:
            mark = object()
            v = m.get(key, mark if dflt else None, index=i)
            if v is mark:
                e["res"] = "default"
            else:
                e["val"] = [enc(v)]
        except Exception as err:
            e["res"] = exc_name(err)
        try:
            t = m.getText(key, None, i)
            e["text"] = [] if t is None else [codes(t)]
            x = m.getItem(key, i)
            e["item"] = [] if x is None else [item(x)]
        except Exception as err:
            e["res"] = "lookup " + exc_name(err)
        self.ev.append(e)

    def iter(self, reg):
        m = self.regs[reg - 1]
        self.ev.append({"op": "iter", "r": reg, "keys": [d.key for d in m],
                        "bool": bool(m)})

    def new(self):
        self.regs.append(Metadata(self.regs[0]))
        self.ev.append({"op": "new"})

    def header(self, reg, h):
        self.regs[reg - 1].setHeader(h)
        self.ev.append({"op": "header", "r": reg, "h": codes(h)})

    def group(self, reg, key, many, h):
        e = {"op": "group", "r": reg, "key": key, "kc": codes(key),
             "many": many, "h": [] if h is None else [codes(h)]}
        before = len(list(self.regs[0].iterGroups()))
        try:
            e["res"] = str(self.regs[0].addGroup(
                key + ("[]" if many else ""), self.regs[reg - 1], h))
            self.groups.append(key)
        except Exception as err:
            e["res"] = exc_name(err)
        self.ev.append(e)
        if e["res"] == "UniqKeyError":
            # (what the group's heading and number are then is not specified)
            return len(list(self.regs[0].iterGroups())) != before
        return True

    def list_groups(self):
        m = self.regs[0]
        e = {"op": "groups", "regs": [self.ident(g) for g in m.iterGroups()],
             "got": [], "asked": [], "other": "nokey" in m}
        seen = {}
        for k in self.groups:
            for n in ("", "[1]", "[2]", "[3]", "[4]", "[5]", "[6]"):
                if k + n in m:
                    seen[k + n] = self.ident(m[k + n])
        # in the order of the groups themselves
        left = dict(seen)
        for g in e["regs"]:
            # the same register may be there twice: keys in order of use
            for k in sorted(left, key=self.rank):
                if left[k] == g:
                    e["asked"].append(codes(k))
                    e["got"].append(g)
                    del left[k]
                    break
        self.ev.append(e)

    def rank(self, k):
        for i, x in enumerate(self.used):
            if x == k:
                return i
        return 99

    def export(self, what, reg, p, human, prefix, title):
        m = self.regs[reg - 1]
        e = {"op": what, "r": reg, "p": -1 if p is None else p, "human": human,
             "prefix": codes(prefix), "title": [] if title is None else
             [codes(title)]}
        kw = {} if title is None else {"title": title}
        try:
            if what == "plain":
                x = m.exportPlaintext(p, human, prefix, **kw)
                e["none"] = x is None
                e["lines"] = [codes(i) for i in x or ()]
            elif what == "str":
                e["text"] = codes(str(m))
            else:
                x = m.exportDictionary(p, human, **kw)
                e["dict"] = [{"h": codes(h), "f": [
                    {"k": codes(k), "t": codes(v)} for k, v in f.items()]}
                    for h, f in x.items() if f]
        except Exception as err:
            e.update(none=True, lines=[codes("!" + exc_name(err))],
                     text=codes("!" + exc_name(err)),
                     dict=[{"h": codes("!" + exc_name(err)), "f": []}])
        self.ev.append(e)


def record(job):
    old = config.RAW_OUTPUT, config.MAX_STR_LENGTH
    try:
        return _record(job)
    finally:
        config.RAW_OUTPUT, config.MAX_STR_LENGTH = old


def _record(job):
    r = random.Random("v" + job["name"])
    cfg = {"raw": r.random() < .15, "max": r.choice((300, 300, 8, 6, 0))}
    config.RAW_OUTPUT, config.MAX_STR_LENGTH = cfg["raw"], cfg["max"]
    run = Run(job)
    run.used = []
    pool = [r.choice(KEYS) for i in range(r.randint(1, 6))]
    if job.get("key"):
        pool = [job["key"]]
    if "track_number" in pool:
        pool.append("track_total")
    focus = job.get("focus", "add")
    counters = {}
    for i in range(job.get("count", 14)):
        reg = r.randint(1, len(run.regs))
        key = r.choice(pool)
        p = r.random()
        if focus == "export":
            p = r.choice((p, .72, .9, .95, .98))
        if p < .6:
            t = None
            if r.random() < .15:
                t = r.choice(("text", "other text", "é\n"))
            run.add(reg, key if r.random() < .97 else "nokey",
                    value(r, TYPE[key], key), t, r.random() < .02)
        elif p < .63:
            run.has(reg, r.choice((key, r.choice(KEYS), "nokey")))
        elif p < .66:
            run.values(reg, r.choice((key, r.choice(KEYS), "nokey")))
        elif p < .7:
            run.get(reg, r.choice((key, key, r.choice(KEYS), "nokey")),
                    r.randint(-3, 4), r.random() < .5)
        elif p < .78 and run.multi:
            if len(run.regs) < 5:
                run.new()
                n = len(run.regs)
                if r.random() < .9:
                    for j in range(r.randint(1, 2)):
                        run.add(n, r.choice(pool), value(r, "str", "x"))
            else:
                n = r.randint(2, len(run.regs))
            if r.random() < .8:
                k, many = r.choice(("a", "file", "audio")), r.random() < .6
                h = r.choice((None, "Head", "Common", "Audio", "File 1"))
                if not run.group(n, k, many, h):
                    break
                if run.ev[-1]["res"] == "True":
                    if many:
                        counters[k] = counters.get(k, 0) + 1
                        k += "[%d]" % counters[k]
                    run.used.append(k)
        elif p < .8:
            run.header(reg, r.choice(("Head", "Doc", "Audio")))
        elif p < .83:
            run.iter(reg)
        elif p < .86 and run.multi:
            run.list_groups()
        else:
            run.export(r.choice(("plain", "plain", "dict", "str")), reg,
                       r.choice((None, None, 50, 100, 101, 205, 301, 604, 902,
                                 999, 2000, r.randint(100, 960))),
                       r.random() < .6, r.choice(("- ", "", "* ")),
                       r.choice((None, None, None, "Title")))
    return {"name": job["name"], "multi": run.multi, "cfg": cfg,
            "ev": run.ev}


def record_real(job):
    """Exports of the metadata of a file."""
    from hachoir.metadata import extractMetadata
    from hachoir.parser import createParser
    r = random.Random("v" + job["name"])
    run = Run(dict(job, multi=True))
    parser = createParser(job["file"])
    if parser is None:
        return None
    with parser:
        m = extractMetadata(parser, quality=job["quality"])
        if m is None:
            return None
        regs, groups = [m], []
        if isinstance(m, MultipleMetadata):
            for k in m.exportDictionary(human=False):
                if k in m:
                    groups.append({"kc": codes(k), "r": len(regs) + 1})
                    regs.append(m[k])
            if len(groups) != len(list(m.iterGroups())):
                return None
        run.regs = regs
        run.ev.append({"op": "load", "groups": groups, "regs": [
            {"hdr": codes(g.header), "data": dump(g)} for g in regs]})
        if len(regs) > 60 or sum(len(d["vals"]) for g in run.ev[0]["regs"]
                                 for d in g["data"]) > 600:
            return None
        for i in range(job["count"]):
            reg = 1 if r.random() < .7 else r.randint(1, len(regs))
            run.export(r.choice(("plain", "dict", "str")), reg,
                       r.choice((None, 100, 205, 301, 604, 902, 999,
                                 r.randint(90, 1000))),
                       r.random() < .6, r.choice(("- ", "")), None)
            run.iter(reg)
            for k in r.sample(KEYS, 2):
                run.values(reg, k)
    return {"name": job["name"], "multi": True,
            "cfg": {"raw": False, "max": 300}, "ev": run.ev}
