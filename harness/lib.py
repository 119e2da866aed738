"""Common machinery of the checks: running TLC, validating recorded traces
against a TLA+ trace specification, collecting verdicts, writing evidence.

A check is a module harness/checks/<ID>.py with a function run(ctx).
"""
import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
TLAJARS = ("/opt/veriftools/tla/tla2tools.jar:"
           "/opt/veriftools/tla/CommunityModules-deps.jar")


class CheckError(Exception):
    """The machinery itself failed (neither 'held' nor 'violated')."""


class CallTimeout(BaseException):
    """A call into the code under test did not return in time."""


def _on_alarm(signum, frame):
    raise CallTimeout()


def alarm_call(seconds, func, *args):
    """Run func(*args); raise CallTimeout if it needs more than seconds."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return func(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def exc_name(err):
    return "exc:" + type(err).__name__


def _worker_init():
    # keep a runaway loop of the code under test from eating the sandbox
    lim = 3 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    quiet_hachoir()


def quiet_hachoir():
    from hachoir.core.log import log
    log.use_print = False
    log.use_buffer = False
    from hachoir.core import config
    config.quiet = True


def _pcall(arg):
    func, item, seconds = arg
    try:
        return ("ok", alarm_call(seconds, func, item))
    except CallTimeout:
        return ("timeout", repr(item)[:400])
    except MemoryError:
        return ("memory", repr(item)[:400])
    except BaseException:
        return ("crash", traceback.format_exc())


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.violations = []      # dicts: what, replay
        self.known_hit = {}       # signature -> text
        self.known = load_known(prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = 0
        self.notes = []
        self.assumptions = []
        self.action_counts = {}
        self.runs = []

    # --- budget helpers -------------------------------------------------
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def note(self, text):
        self.notes.append(text)
        print("[%6.1fs] %s" % (self.elapsed(), text), flush=True)

    # --- running code under test -----------------------------------------
    def pmap(self, func, items, seconds=20.0, procs=8, chunk=None):
        """Run func over items in forked workers with a time and memory limit
        per item.  An item whose driver dies is a violation (the code under
        test hung or broke the driver), never a silent skip."""
        items = list(items)
        self.samples += len(items)
        out = []
        if not items:
            return out
        chunk = chunk or max(1, min(50, len(items) // (procs * 4) or 1))
        mp = multiprocessing.get_context("fork")
        with mp.Pool(procs, initializer=_worker_init) as pool:
            res = pool.map(_pcall, [(func, it, seconds) for it in items],
                           chunksize=chunk)
        for item, (kind, val) in zip(items, res):
            if kind == "ok":
                out.append(val)
            elif kind == "crash":
                # never happens while the code behaves: the drivers turn the
                # exceptions the specification knows into recorded results
                self.violation("driver:crash",
                               "unexpected exception on %s:\n%s"
                               % (repr(item)[:300], val[-1500:]),
                               {"item": repr(item), "traceback": val})
                out.append(None)
            else:
                self.violation("driver:%s" % kind,
                               "the code under test did not finish (%s) on %s"
                               % (kind, repr(item)[:300]), {"item": repr(item)})
                out.append(None)
        return [x for x in out if x is not None]

    # --- verdicts -------------------------------------------------------
    def violation(self, sig, what, detail):
        for k in self.known:
            if re.fullmatch(k["sig"], sig):
                self.known_hit[k["sig"]] = k["what"]
                return
        if len(self.violations) < 20:
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, "replay-%s-%d.json"
                                % (self.prop, len(self.violations)))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "signature": sig,
                           "what": what, "detail": detail}, f, indent=1,
                          default=repr)
            self.violations.append({"signature": sig, "what": what,
                                    "replay": path})
        else:
            self.violations.append({"signature": sig, "what": what,
                                    "replay": self.violations[0]["replay"]})

    # --- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800,
            args=(), heap="6g", stack="64m"):
        """Run TLC; return (stdout, generated, distinct, exitcode)."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack,
               "-Dtlc2.TLC.stopAfter=%d" % timeout,
               "-cp", TLAJARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", (cfg or module) + ".cfg"]
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               timeout=timeout + 30)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        gen = dist = 0
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct", p.stdout):
            gen, dist = int(m.group(1)), int(m.group(2))
        self.runs.append({"module": module, "cfg": cfg or module,
                          "states": dist, "generated": gen,
                          "wall_s": round(time.time() - t, 1)})
        return p.stdout, gen, dist, p.returncode

    def model_check(self, module, cfg=None, min_states=2, **kw):
        """Exhaustively check a design config.  A failure here is a defect
        of the specification, i.e. of the machinery."""
        out, gen, dist, rc = self.tlc(module, cfg, **kw)
        if rc != 0 or dist < min_states:
            raise CheckError("TLC on %s/%s: rc=%d distinct=%d\n%s"
                             % (module, cfg, rc, dist, out[-4000:]))
        self.states += dist
        self.transitions += gen
        self.note("model %s: %d distinct states, %d transitions"
                  % (cfg or module, dist, gen))
        return out

    def export(self, module, cfg=None, key="SCRIPT", **kw):
        """Run TLC on a generator config and return the JSON values it
        printed (behaviours of the specification to replay)."""
        kw.setdefault("workers", 1)
        out, gen, dist, rc = self.tlc(module, cfg, **kw)
        if rc != 0:
            raise CheckError("TLC export %s/%s rc=%d\n%s"
                             % (module, cfg, rc, out[-4000:]))
        self.states += dist
        self.transitions += gen
        res = []
        for line in out.splitlines():
            if line.startswith('"%s ' % key):
                txt = json.loads(line)      # TLC prints a quoted string
                res.append(json.loads(txt[len(key) + 1:]))
        self.note("generator %s: %d distinct states, %d behaviours exported"
                  % (cfg or module, dist, len(res)))
        return res

    def validate(self, module, traces, cfg=None, classify=None, chunk=40000,
                 what="trace", **kw):
        """Check recorded traces (dicts with a list 'ev') against the trace
        specification.  TLC must consume every event of every trace; each
        rejected event is reported as a violation."""
        traces = list(traces)
        pos = 0
        total_rej = 0
        self.unreadable = 0
        while pos < len(traces):
            nev = 0
            start = pos
            while pos < len(traces) and (nev == 0 or nev < chunk):
                nev += len(traces[pos]["ev"])
                pos += 1
            total_rej += self._validate(module, traces[start:pos], cfg,
                                        classify, what, kw)
        self.note("%s: %d %ss, %d events validated, %d rejected"
                  % (cfg or module, len(traces), what,
                     sum(len(t["ev"]) for t in traces), total_rej))
        return total_rej

    def _validate(self, module, traces, cfg, classify, what, kw):
        path = os.path.join(self.scratch, "traces.ndjson")
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        out, gen, dist, rc = self.tlc(module, cfg, env={"TRACES": path}, **kw)
        rejects = {}
        for line in out.splitlines():
            if line.startswith('"REJECT '):
                try:
                    r = json.loads(json.loads(line)[7:])
                except ValueError:
                    raise CheckError("unreadable verdict: " + line[:300])
                rejects[(r["tid"], r["l"])] = r
        bad_tids = {}
        for (tid, l), r in sorted(rejects.items()):
            bad_tids.setdefault(tid, r)
        expect = 0
        for i, t in enumerate(traces, 1):
            if i in bad_tids:
                expect += bad_tids[i]["l"] + 1   # l states before, then one stop state
            else:
                expect += len(t["ev"]) + 1
        if rc != 0 or dist != expect:
            m = re.search(r"Error:.*", out, re.S)
            # A trace on which the specification cannot even be evaluated
            # (values of a shape the specification never allows) is rejected:
            # report it and validate the others without it.
            tids = re.findall(r"^/\\ tid = (\d+)", out, re.M)
            if m and tids and self.unreadable < 3 and 0 < int(tids[-1]) <= len(traces):
                self.unreadable += 1
                bad = int(tids[-1])
                t = traces[bad - 1]
                ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
                k = max(0, min(len(t["ev"]) - 1, int(ls[-1]) - 1 if ls else 0))
                self.violation(
                    classify(t, k) if classify else str(t["ev"][k].get("op", "?")),
                    "%s %s cannot be a behaviour of the specification at "
                    "event %d: %s" % (what, t.get("name", bad), k + 1,
                                      json.dumps(t["ev"][k])[:600]),
                    {"trace": t, "step": k, "tlc": m.group(0)[:1500]})
                rest = traces[:bad - 1] + traces[bad:]
                os.unlink(path)
                return 1 + (self._validate(module, rest, cfg, classify, what, kw)
                            if rest and self.unreadable < 3 else 0)
            raise CheckError("TLC on %s: rc=%d distinct=%d expected=%d\n%s"
                             % (module, rc, dist, expect,
                                (m.group(0) if m and gen else out)[:6000]))
        self.transitions += gen
        self.states += dist
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        for tid, r in sorted(bad_tids.items()):
            t = traces[tid - 1]
            ev = t["ev"][r["l"] - 1]
            sig = classify(t, r["l"] - 1) if classify else str(ev.get("op", "?"))
            self.violation(
                sig, "%s %s rejected at event %d: %s; specification allows %s"
                % (what, t.get("name", tid), r["l"],
                   json.dumps(ev)[:400], json.dumps(r.get("allow"))[:400]),
                {"trace": t, "step": r["l"], "allow": r.get("allow")})
        os.unlink(path)
        return len(bad_tids)

    # --- end ------------------------------------------------------------
    def finish(self, level="model_checking", extra=None):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events,
               "samples": self.samples, "runs": self.runs,
               "notes": self.notes}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": cov,
              "violations": [v["what"][:600] for v in self.violations[:20]],
              "assumptions": self.assumptions,
              "wall_s": round(self.elapsed(), 1)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for sig, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if self.violations:
            count = {}
            for v in self.violations:
                count[v["signature"]] = count.get(v["signature"], 0) + 1
            for sig in list(count)[:8]:
                v = [v for v in self.violations if v["signature"] == sig][0]
                print("  [%s x%d] %s" % (sig, count[sig], v["what"][:900]))
            print("VIOLATION property=%s replay=%s"
                  % (self.prop, self.violations[0]["replay"]))
            return 1
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs"
              % (self.prop, self.states, self.traces, self.events,
                 self.elapsed()))
        return 0


def load_known(prop):
    """known_findings.txt: lines 'finding: property=ID sig=REGEX what...' ;
    'fixed:' lines are history only and suppress nothing."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return res
    for line in open(path):
        m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            res.append({"sig": m.group(2), "what": m.group(3).strip()})
    return res


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    import importlib
    import lib      # the same module under its import name
    ctx = lib.Ctx(prop, tier, seed)
    try:
        try:
            import hachoir
            assert os.path.dirname(os.path.dirname(
                os.path.abspath(hachoir.__file__))) == os.path.abspath(REPO)
            lib.quiet_hachoir()
            mod = importlib.import_module("checks." + prop)
        except (SyntaxError, ImportError) as err:
            # a tree which cannot even be imported has no property to hold
            raise lib.CheckError("cannot import the tree: %s" % err)
        mod.run(ctx)
        return ctx.finish()
    except lib.CheckError as err:
        print("CHECK ERROR: %s" % err)
        return 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
