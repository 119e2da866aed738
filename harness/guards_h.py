"""Driver of calls under limits, messages and events (spec/Guards.tla)."""
import gc
import io
import json
import locale
import math
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import warnings

from lib import exc_name
import hachoir.core.timeout as timeout
from hachoir.core import config
from hachoir.core.endian import BIG_ENDIAN
from hachoir.core.event_handler import EventHandler
from hachoir.core.log import Log, Logger
from hachoir.core.memory import limitedMemory
from hachoir.core.timeout import limitedTime, Timeout
from hachoir.field import Parser, FieldSet, UInt8
from hachoir.stream import StringInputStream


class Boom(Exception):
    pass


def isolated(func, *args):
    """Result of func in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            out = func(*args)
        except BaseException as err:
            out = {"error": exc_name(err)}
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text)


# --- limited time --------------------------------------------------------------
BASE = 20000    # the timer of the caller, if it has one


def timer():
    return int(math.ceil(signal.getitimer(signal.ITIMER_REAL)[0]))


def expire():
    """The timer which is running is over."""
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.raise_signal(signal.SIGALRM)


class Time:
    def __init__(self, r):
        self.r = r
        self.ev = []

    def guard(self, node):
        lim, inject = node["lim"], node["inject"]
        ev = self.ev
        ev.append({"op": "enter", "lim": lim, "timer": timer()})
        before = signal.getsignal(signal.SIGALRM)
        state = {"n": 0, "on": True, "late": False}

        def body(a, b=0):
            old = sys.getprofile()
            sys.setprofile(None)
            try:
                res = self.body(node)
            except BaseException as err:
                ev.append({"op": "body", "out": type(err).__name__})
                raise
            finally:
                if state["on"]:
                    sys.setprofile(old)
            ev.append({"op": "body", "out": "ok"})
            return (res, a, b)

        def over():
            state["on"] = False
            ev.append({"op": "expire", "timer": timer(), "inbody": False,
                       "raised": ""})
            signal.setitimer(signal.ITIMER_REAL, 0)

        def points(frame, event, arg):
            # the points at which the interpreter handles a signal: a python
            # function starts, a function of C is over; signal() handles it
            # when it starts
            if frame.f_code.co_filename != timeout.__file__:
                return
            if state["late"] and event in ("c_return", "c_exception"):
                sys.setprofile(None)
                signal.raise_signal(signal.SIGALRM)
            if event not in ("call", "c_call") or not state["on"] \
                    or frame.f_code.co_name == "signalHandler":
                return
            state["n"] += 1
            if state["n"] != inject or not timer():
                return
            over()
            if event == "call" or arg is signal.signal \
                    or getattr(arg, "__name__", "") == "signal":
                sys.setprofile(None)
                signal.raise_signal(signal.SIGALRM)
            else:
                state["late"] = True
        try:
            if inject:
                sys.setprofile(points)
            try:
                res = limitedTime(lim if self.r.random() < .7 else lim - .5,
                                  body, 7, b=node["id"])
            finally:
                state["on"] = False
                sys.setprofile(None)
            out = "ok" if res == (node["id"], 7, node["id"]) else "other"
        except Exception as err:
            out = type(err).__name__
        ev.append({"op": "leave", "out": out, "timer": timer(),
                   "handler": signal.getsignal(signal.SIGALRM) is before})
        return out

    def body(self, node):
        self.ev.append({"op": "look", "timer": timer()})
        for x in node["body"]:
            if x == "raise":
                raise Boom()
            elif x == "expire":
                e = {"op": "expire", "timer": timer(), "inbody": True,
                     "raised": ""}
                self.ev.append(e)
                try:
                    expire()
                except BaseException as err:
                    e["raised"] = type(err).__name__
                    raise
            else:
                out = self.guard(x)
                if out == "Timeout" and x["up"]:
                    raise Timeout("again")
                if out == "Boom" and x["up"]:
                    raise Boom()
                self.ev.append({"op": "look", "timer": timer()})
        return node["id"]


def tree(r, depth, up, turn):
    body = []
    for i in range(r.choice((0, 1, 1, 2))):
        if depth < 4 and r.random() < .7:
            body.append(tree(r, depth + 1, True, turn))
        else:
            body.append(r.choice(("raise", "expire", "expire")))
    # no two of the limits are close to each other
    return {"lim": 2000 * (5 - depth if turn else depth) + 1000,
            "inject": r.choice((0, 0, r.randint(1, 12))),
            "id": r.randrange(1000), "body": body, "up": up and r.random() < .5}


def time_job(job):
    def run():
        r = random.Random(job["name"])
        t = Time(r)
        heard = []
        signal.signal(signal.SIGALRM, r.choice((
            lambda *a: heard.append(1), signal.SIG_IGN)))
        for i in range(job["n"]):
            t.ev.append({"op": "start"})
            signal.setitimer(signal.ITIMER_REAL, r.choice((0, BASE)))
            t.guard(job.get("node") or tree(r, 1, False, r.random() < .5))
            signal.setitimer(signal.ITIMER_REAL, 0)
        return t.ev
    ev = isolated(run)
    if isinstance(ev, dict):
        ev = [{"op": "!" + str(ev)}]
    return {"name": job["name"], "ev": ev}


def real_job(job):
    """The clock is what it is: a call which does not end is given up."""
    def run():
        def forever():
            while True:
                time.sleep(.01)
        start = time.monotonic()
        try:
            if job["want"] == "Timeout":
                limitedTime(job["lim"], forever)
                out = "ok"
            else:
                out = limitedTime(job["lim"], lambda: "ok")
        except Exception as err:
            out = type(err).__name__
        return [{"op": "real", "out": out, "want": job["want"],
                 "fast": time.monotonic() - start < 60}]
    return {"name": job["name"], "ev": isolated(run)}


# --- limited memory ---------------------------------------------------------------
MB = 1 << 20


def limits():
    return [-1 if x == resource.RLIM_INFINITY else x // MB
            for x in resource.getrlimit(resource.RLIMIT_AS)]


def vmsize():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def memory_job(job):
    def run():
        r = random.Random(job["name"])
        ev = []
        size = vmsize() // MB
        top = limits()[1]
        hard = r.choice((top, size + 6000))
        if -1 < top < hard:
            hard = top
        soft = r.choice((hard, size + 4000, size + 2000))
        if -1 < hard < soft:
            soft = hard
        resource.setrlimit(resource.RLIMIT_AS, [
            x if x == -1 else x * MB for x in (soft, hard)])

        def call(depth):
            lim = r.choice((64, 100, 300, 1000))
            gc.collect()
            e = {"op": "memory", "lim": lim, "before": limits(), "inside": -1,
                 "raises": r.random() < .2, "alloc": 0,
                 "size": vmsize() // MB + 1}
            if not e["raises"]:
                e["alloc"] = lim * r.choice((3, 4)) if r.random() < .5 \
                    else lim // r.choice((4, 8, 16))
            kids = r.random() < .4 and depth < 3

            def body(a, b):
                e["inside"] = limits()[0]
                if kids:
                    call(depth + 1)
                if e["raises"]:
                    raise Boom()
                data = bytearray(e["alloc"] * MB)
                return len(data) // MB
            try:
                res = limitedMemory(lim * MB, body, 1, b=2)
                e["out"] = "ok" if res == e["alloc"] else "other"
            except Exception as err:
                e["out"] = type(err).__name__
            e["after"] = limits()
            ev.append(e)
        for i in range(3):
            call(0)
        return ev
    ev = isolated(run)
    if isinstance(ev, dict):
        ev = [{"op": "!" + str(ev)}]
    return {"name": job["name"], "ev": ev}


# --- messages ------------------------------------------------------------------------
class Talker(Logger):
    pass


def log_job(job):
    r = random.Random(job["name"])
    warnings.simplefilter("ignore")
    tmp = tempfile.mkdtemp(prefix="l01")
    saved = (config.quiet, config.verbose, config.debug, sys.stderr)
    log = Log()
    import hachoir.core.log as module
    ev, calls = [], []
    paths = [os.path.join(tmp, "log%d" % i) for i in (1, 2)]
    err = sys.stderr = io.StringIO()

    def clean(text):
        return text.replace("\udcff", "<U>").replace("\\udcff", "<U>")

    def lines(text, stamp):
        out = []
        for x in text.splitlines():
            if stamp:
                x = x[22:]
            if "[Log] setFilename(" in x:
                x = x[:x.index("(")] + "() fails"
            out.append(clean(x))
        return out

    def note(ident):
        def func(level, prefix, text, ctxt):
            if text.startswith("[Log] setFilename("):
                text = "[Log] setFilename() fails"
            c = "" if ctxt is None else "<%s>" % type(ctxt).__name__
            calls.append([ident, level, clean(text), c])
        return func

    def see(e):
        e["err"] = lines(err.getvalue(), False)
        e["files"] = []
        for p in paths:
            try:
                with open(p, encoding="utf-8") as f:
                    e["files"].append(lines(f.read(), True))
            except FileNotFoundError:
                e["files"].append([])
        e["calls"] = [list(c) for c in calls]
        ev.append(e)
    try:
        config.quiet = config.verbose = config.debug = False
        log_of = module.log
        for i in range(job["n"]):
            x = r.random()
            if x < .5:
                level = r.choice((0, 1, 2))
                text = r.choice(("hello", "a b", "é\u20ac", "x\udcff", ""))
                e = {"op": "msg", "level": level, "text": clean(text),
                     "ctxt": ""}
                try:
                    if r.random() < .4:
                        talker = Talker()
                        e["ctxt"] = "<Talker>"
                        log.newMessage(level, text, talker)
                    else:
                        [log.info, log.warning, log.error][level](text)
                except Exception as error:
                    e["text"] = "!" + exc_name(error)
                see(e)
            elif x < .62:
                config.quiet = r.random() < .4
                config.verbose = r.random() < .5
                config.debug = r.random() < .3
                ev.append({"op": "config", "quiet": config.quiet,
                           "verbose": config.verbose})
            elif x < .7:
                log.use_print = r.random() < .5
                log.use_buffer = r.random() < .5
                ev.append({"op": "print", "on": log.use_print})
            elif x < .78:
                k = r.randrange(3)
                log.on_new_message = note(k) if k else None
                ev.append({"op": "call", "id": k})
            elif x < .96:
                k = r.choice((1, 2))
                bad = r.random() < .25
                path = r.choice((os.path.join(tmp, "no", "where"), tmp)) \
                    if bad else paths[k - 1]
                e = {"op": "file", "id": k, "append": r.random() < .7,
                     "ok": not bad}
                debug, config.debug = config.debug, False
                try:
                    if e["append"] and r.random() < .5:
                        log.setFilename(path)
                    else:
                        log.setFilename(path, e["append"])
                except Exception as error:
                    e["ok"] = True
                    e["id"] = k
                    e["error"] = exc_name(error)
                config.debug = debug
                see(e)
            else:
                log.shutdown()
                see({"op": "shutdown"})
        assert module.log is log_of
    finally:
        config.quiet, config.verbose, config.debug, sys.stderr = saved
        shutil.rmtree(tmp)
    return {"name": job["name"], "ev": ev}


# --- events --------------------------------------------------------------------------
NAMES = ("field-value-changed", "field-resized", "field-inserted",
         "field-replaced", "set-field-value")


class Sub(FieldSet):
    def createFields(self):
        yield UInt8(self, "x")
        if len(self.path) < 4:
            yield Sub(self, "sub")


class Root(Parser):
    endian = BIG_ENDIAN

    def createFields(self):
        yield Sub(self, "a")
        yield Sub(self, "b")


def event_job(job):
    r = random.Random(job["name"])
    ev, called = [], []
    plain = r.random() < .3
    if plain:
        sets = [EventHandler(), EventHandler()]
        names = ("x", "y", "")
    else:
        root = Root(StringInputStream(bytes(10)))
        sets = [root, root["a"], root["b"], root["a/sub"]]
        names = NAMES[:3]
    for i in range(job["n"]):
        name = r.choice(names)
        if r.random() < .5:
            k = r.randint(1 if plain else 0, len(sets))
            bad = r.random() < .08
            e = {"op": "connect", "set": k, "name": name, "id": i, "bad": bad}

            def handler(*args, ident=i, bad=bad):
                called.append((ident, args))
                if bad:
                    raise Boom()
            if plain:
                sets[k - 1].connect(name, handler)
            elif k:
                sets[k - 1].connectEvent(name, handler)
            else:
                r.choice(sets).connectEvent(name, handler, False)
            ev.append(e)
        else:
            k = r.randint(1, len(sets))
            args = tuple(range(r.randint(0, 3)))
            e = {"op": "event", "set": k, "name": name, "raised": False}
            del called[:]
            try:
                sets[k - 1].raiseEvent(name, *args)
            except Boom:
                e["raised"] = True
            e["called"] = [c[0] for c in called]
            e["args"] = all(c[1] == args for c in called)
            ev.append(e)
    return {"name": job["name"], "ev": ev}


# --- what using the library leaves behind -----------------------------------------------
def process_state():
    return (locale.setlocale(locale.LC_ALL), signal.getsignal(signal.SIGALRM),
            timer() > 0, resource.getrlimit(resource.RLIMIT_AS), os.getcwd(),
            sys.getrecursionlimit(), os.environ.copy(), list(sys.path),
            sys.stdin, sys.stdout, sys.stderr,
            {k: v for k, v in vars(config).items() if k[0] != "_"},
            os.listdir("/proc/self/fd").__len__())


def use_job(job):
    import realtree
    from hachoir.metadata import extractMetadata
    from hachoir.parser import createParser
    from hachoir.editor import createEditor
    from hachoir.stream import StringOutputStream, FileInputStream
    from hachoir.subfile.search import SearchSubfile

    def one(path, r):
        p = createParser(path)
        if p is None:
            return
        with p:
            realtree.visit(p, 300)
            m = extractMetadata(p, r.choice((.1, .5, 1.)))
            if m is not None:
                m.exportPlaintext()
            if r.random() < .5:
                e = createEditor(p)
                list(e)

    def search(path):
        out, sys.stdout = sys.stdout, io.StringIO()
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            import hachoir.subfile.search as module
            module.stderr = io.StringIO()
            s = SearchSubfile(FileInputStream(path))
            s.verbose = False
            s.loadParsers(categories=["image"])
            s.main()
        finally:
            sys.stdout, sys.stderr = out, err

    def run():
        r = random.Random(job["name"])
        config.quiet = True
        names = locale.setlocale(locale.LC_ALL)
        for name in ("C.UTF-8", "C", "POSIX"):
            try:
                locale.setlocale(locale.LC_ALL, name)
                break
            except locale.Error:
                pass
        # once before: caches and modules
        one(job["files"][0], r)
        ev = []
        for f in job["files"]:
            out, sys.stdout = sys.stdout, io.StringIO()
            before = process_state()
            try:
                if r.random() < .15 and os.path.getsize(f) < 60000:
                    search(f)
                else:
                    limitedTime(600, one, f, r)
                res = "ok"
            except Exception as err:
                res = exc_name(err)
            gc.collect()
            after = process_state()
            said = sys.stdout.getvalue()
            sys.stdout = out
            ev.append({"op": "use", "same": before == after and not said,
                       "file": os.path.basename(f), "res": res,
                       "diff": [i for i in range(len(before))
                                if before[i] != after[i]]})
        return ev
    ev = isolated(run)
    if isinstance(ev, dict):
        ev = [{"op": "!" + str(ev)}]
    return {"name": job["name"], "ev": ev}
