"""Sessions of the command line tools, for spec/CliTrace.tla."""
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import realtree as rt
import strip_h
from lib import REPO, exc_name, quiet_hachoir

PY = {"metadata": "from hachoir.metadata.main import main; main()",
      "list": "from hachoir.listtool import main; main()",
      "strip": "from hachoir.strip import main; main()"}
MAXLEN = 300


class Skip(Exception):
    pass


def esc(text):
    """Non ASCII characters as numbers; texts of several lines are left out"""
    if text is None:
        return "None"
    if not isinstance(text, str):
        raise Skip()
    if any(c in text for c in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") or any(
            0xd800 <= ord(c) < 0xe000 for c in text):
        raise Skip()
    return "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "{%x}" % ord(c)
                   for c in text)


def meta_facts(path, name, o, quality, maxlen, force):
    from hachoir.core.tools import makePrintable, makeUnicode
    from hachoir.metadata import config, extractMetadata
    from hachoir.parser import createParser
    from hachoir.stream import InputStreamError

    def pr(text):
        return esc(makePrintable(text, "UTF-8"))
    out = {"name": esc(name), "st": "bad", "mime": "", "desc": "", "secs": []}
    old = config.MAX_STR_LENGTH, config.RAW_OUTPUT
    try:
        config.MAX_STR_LENGTH = maxlen
        config.RAW_OUTPUT = o["raw"]
        tags = [("id", force), None] if force else None
        try:
            parser = createParser(path, tags=tags)
        except InputStreamError:
            return out
        if not parser:
            return out
        with parser:
            out["st"] = "none"
            if o["mode"] != "text":
                out["mime"], out["desc"] = esc(parser.mime_type), esc(parser.description)
                return out
            meta = extractMetadata(parser, quality)
            if not meta:
                return out
            out["st"] = "ok"

            def group(m, key):
                items = [{"prio": d.priority, "d": pr(d.description), "k": pr(d.key),
                          "text": pr(v.text), "val": pr(makeUnicode(v.value))}
                         for d in m for v in d.values]
                out["secs"].append({"title": pr(m.header), "key": pr(key), "items": items})
                if hasattr(m, "iterGroups"):
                    groups = list(m.iterGroups())
                    keys = group_keys(m) if o["raw"] else [""] * len(groups)
                    for k, g in zip(keys, groups):
                        group(g, k)
            group(meta, "")
    finally:
        config.MAX_STR_LENGTH, config.RAW_OUTPUT = old
    return out


def group_keys(m):
    """Keys of the groups; there is no public way to list them."""
    d = getattr(m, "_MultipleMetadata__groups", None)
    try:
        return [k for k, g in d.items()]
    except Exception:
        raise Skip()


def list_facts(path, name, data, o, offset, size, force, limit=700):
    from hachoir.parser import guessParser
    from hachoir.stream import FileInputStream, InputStreamError, StringInputStream
    out = {"name": esc(name), "st": "missing", "nodes": []}
    if data is None:
        return out
    tags = [("id", force), None] if force else []
    try:
        if offset or size:
            part = data[offset:]
            stream = StringInputStream(part[:size] if size else part, tags=tags)
        else:
            stream = FileInputStream(path, tags=tags)
    except InputStreamError:
        return out
    out["st"] = "unknown"
    parser = guessParser(stream)
    if not parser:
        return out
    out["st"] = "ok"

    def walk(fs, depth):
        for f in fs:
            if len(out["nodes"]) >= limit:
                raise Skip()
            hv = f.value is not None
            out["nodes"].append({
                "d": depth, "n": esc(f.name), "c": f.__class__.__name__,
                "t": esc(f.display) if hv and o["value"] else "", "hv": hv,
                "z": f.size if o["size"] else 0,
                "ds": esc(f.description) if o["desc"] else ""})
            if f.is_field_set:
                walk(f, depth + 1)
    with parser:
        walk(parser, 0)
    return out


def strip_facts(path, name, data, level):
    """(facts, content of the new file or None)"""
    from hachoir import strip as hs
    from hachoir.editor import createEditor
    from hachoir.parser import createParser
    from hachoir.stream import InputStreamError, OutputStream
    out = {"name": esc(name), "st": "bad", "desc": "", "len": len(data or b""), "left": 0}
    try:
        parser = createParser(path)
    except InputStreamError:
        return out, None
    if not parser:
        return out, None
    with parser:
        try:
            editor = createEditor(parser)
            cls = hs.strippers.get(parser.__class__)
            if cls is None:
                out["st"], out["desc"] = "other", esc(editor.description)
                return out, None
            if not cls(editor, level, False)():
                out["st"], out["left"] = "clean", out["len"]
                return out, None
            data = io.BytesIO()
            stream = OutputStream(data)
            editor.writeInto(stream)
        except Exception:
            raise Skip()        # (the contents are T01's)
        new = data.getvalue()
        out["st"], out["left"] = "saved", len(new)
        return out, new


NAMES = ("a", "b.bin", "x y.png", "\xe9t\xe9.wav", "c.jpg", "movie.avi", "-", "no.txt",
         "archive.tar.gz", "p.pdf", "it's", "5")


def content(r, pool, docs):
    """bytes, None (no such file) or a directory"""
    c = r.random()
    if c < .08:
        return None, ".x"
    if c < .14:
        return "dir", ""
    if c < .18:
        return b"", ".empty"
    if c < .28:
        return bytes(r.choice(b"abcdefgh \n") for _ in range(r.randint(1, 400))), ".txt"
    if c < .6:
        return bytes(r.choice(docs)["bytes"]), r.choice(("", ".bin", ".png", ".doc"))
    path = r.choice(pool)
    with open(path, "rb") as f:
        data = f.read()
    return rt.damage(data, r, r.choice("nnntmb")), os.path.splitext(path)[1]


def session(job):
    r = random.Random(job["name"])
    quiet_hachoir()
    tool = r.choice(("metadata", "metadata", "list", "list", "strip"))
    base = tempfile.mkdtemp(prefix="cli-", dir=job["scratch"])
    try:
        return run_session(r, job, tool, base)
    except Skip:
        return None
    except (OSError, subprocess.SubprocessError):
        raise
    except Exception:
        # (the library fails: an affair of the other properties)
        if job.get("strict"):
            raise
        return None
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_session(r, job, tool, base):
    n = r.choice((1, 1, 1, 2, 2, 3, 4))
    files = []
    for k in range(n):
        if files and r.random() < .15:
            files.append(r.choice(files))
            continue
        data, ext = content(r, job["pool"], job["docs"])
        if tool == "strip" and r.random() < .7:
            doc = strip_h.MAKE[r.choice(sorted(strip_h.MAKE))](r)
            data, ext = strip_h.render(doc), strip_h.suffix(doc)
        name = r.choice(NAMES) + str(k) + ext
        if name.startswith("-"):
            name = "./" + name
        path = os.path.join(base, name)
        if data == "dir":
            os.mkdir(path)
            data = None
        elif data is not None:
            with open(path, "wb") as f:
                f.write(data)
        files.append((name, path, data))
    argv = []
    force = None
    if tool != "strip" and r.random() < .12:
        force = r.choice(job["ids"])
        argv += ["--force-parser" if tool == "metadata" else "--parser", force]
    cwd = os.getcwd()
    os.chdir(base)
    try:
        if tool == "metadata":
            mode = r.choice(("text",) * 4 + ("mime", "type"))
            level = r.choice((9, 9, 1, 2, 3, 4, 5, 6, 7, 8))
            raw = r.random() < .3
            quality = r.choice((.5, .5, 0.0, 1.0, 2.0))
            maxlen = r.choice((MAXLEN, MAXLEN, 0, 1, 5, 12))
            if mode != "text":
                argv.append("--" + mode)
            if level != 9 or r.random() < .3:
                argv += ["--level", str(level)]
            if raw:
                argv.append("--raw")
            if quality != .5 or r.random() < .3:
                argv.append("--quality=%s" % quality)
            if maxlen != MAXLEN or r.random() < .3:
                argv += ["--maxlen", str(maxlen)]
            o = {"mode": mode, "level": level, "raw": raw}
            facts = [meta_facts(name, name, o, quality, maxlen, force)
                     for name, path, data in files]
        elif tool == "strip":
            kinds = r.sample(sorted(strip_h.BIT), r.choice((0, 1, 2, 3)))
            if r.random() < .2:
                kinds.insert(r.randrange(len(kinds) + 1), "everything")
            level = sum(strip_h.BIT[k] for k in kinds if k in strip_h.BIT)
            if len(kinds) == 3 and "everything" not in kinds and r.random() < .5:
                pass                    # the default
            else:
                argv.append("--strip=" + r.choice((",", ", ", " , ")).join(kinds))
            argv.append("--quiet")
            o = {"some": level != 0}
            facts, news = [], []
            for name, path, data in files:
                f, new = strip_facts(name, name, data, level or 1)
                facts.append(f)
                news.append(new)
        else:
            o = {"desc": r.random() < .4, "size": r.random() < .7,
                 "value": r.random() < .8, "width": r.choice((2, 2, 0, 1, 4))}
            if o["desc"]:
                argv.append("--description")
            if not o["size"]:
                argv.append("--hide-size")
            if not o["value"]:
                argv.append("--hide-value")
            if o["width"] != 2 or r.random() < .3:
                argv += ["--indent-width", str(o["width"])]
            offset = size = 0
            if r.random() < .3:
                # a part of every file, which holds the first one
                size = r.choice((0, 40, 200, 1000, r.randint(1, 3000)))
                offset = r.choice((0, 0, 1, 13, 64, r.randint(1, 3000)))
                done = {}
                for i, (name, path, data) in enumerate(files):
                    if data is None:
                        continue
                    if name not in done:
                        pad = bytes(r.choice(b"ab\0\xff") for _ in range(
                            offset if r.random() < .9 else r.randint(0, offset)))
                        done[name] = pad + data
                        with open(path, "wb") as f:
                            f.write(done[name])
                    files[i] = (name, path, done[name])
                if offset:
                    argv.append("--offset=%d" % offset)
                if size:
                    argv.append("--size=%d" % size)
            argv.append("--quiet")
            facts = [list_facts(name, name, data, o, offset, size, force)
                     for name, path, data in files]
        if r.random() < .5:
            argv = argv + [name for name, path, data in files]
        else:
            argv = [name for name, path, data in files] + argv
        env = dict(os.environ, PYTHONPATH=REPO, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", PY[tool]] + argv, cwd=base, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=100)
        after = []
        for k, (name, path, data) in enumerate(files if tool == "strip" else ()):
            made = os.path.exists(path + ".new")
            e = {"op": "file", "k": k + 1, "made": made, "same": True, "kept": True}
            if made:
                with open(path + ".new", "rb") as f:
                    e["same"] = f.read() == news[k]
            if data is not None:
                with open(path, "rb") as f:
                    e["kept"] = f.read() == data
            after.append(e)
    finally:
        os.chdir(cwd)
    lines = p.stdout.decode("utf-8").split("\n")
    tail = lines.pop()
    ev = []
    for text in lines + ([tail] if tail else []):
        if tool == "list" and text.startswith("Unable to open file"):
            text = "Unable to open file"    # the reason is the system's
        ev.append({"op": "line", "text": "".join(
            c if 32 <= ord(c) < 127 and c not in '"\\' else "{%x}" % ord(c) for c in text)})
    ev.append({"op": "exit", "code": p.returncode})
    ev += after
    return {"name": job["name"], "argv": argv,
            "hdr": {"tool": tool, "o": o, "files": facts},
            "err": p.stderr.decode("utf-8", "replace")[-500:], "ev": ev}
