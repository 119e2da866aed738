"""S02: size discovery is truthful, monotone, announced once (spec/Streams.tla)."""
import os
import random
import threading
import streams_h as sh
from lib import exc_name


def job(seed):
    r = random.Random(seed)
    hdr, src = sh.rand_world(r, kinds=["pipe", "pipe", "pipe", "sized", "file",
                                       "string"], maxn=24)
    w = {"sizeGe": 6, "ask": 3, "read": 4, "readBytes": 2, "search": 1,
         "fopen": .5, "fseek": .5, "fread": .5}
    hs = [h for h in range(1, len(hdr["st"]) + 1)
          if hdr["st"][h - 1]["k"] == "base"]
    ops = sh.rand_ops(r, hdr, len(src), r.randint(4, 30), w, viewable=hs)
    hdr["name"] = "random-%s" % seed
    return {"hdr": hdr, "src": src, "ops": ops}


def gen_job(i, hist, n):
    """Behaviours of the size protocol, replayed on a pipe and a sub-stream."""
    st = [dict(sh.BASE)]
    if n > 3:
        st.append(sh.sub(1, 16))
    hdr = {"kind": "pipe", "B": 2 if sh.SCALABLE else sh.REAL_B,
           "W": 2 if sh.SCALABLE else sh.REAL_W, "st": st, "big": False,
           "real": False, "name": "gen-%d" % i}
    ops = []
    for e in hist:
        h = min(e["h"], len(st))
        e = dict(e, h=h)
        if "a" in e:
            e["a"] *= 8
        if e["op"] == "sizeGe":
            e["n"] *= 8
        elif "n" in e:
            e["n"] *= 8
        ops.append(e)
    return {"hdr": hdr, "src": bytes(range(1, n + 1)), "ops": ops}


def real_job(r, i):
    B = sh.REAL_B
    n = r.choice((1, 5, B - 1, B, B + 1, 2 * B, 2 * B + 7, 100000))
    src = r.randbytes(n)
    st = [dict(sh.BASE)]
    if n > 9:
        st.append(sh.sub(1, 8 * r.randrange(min(n, B) - 4),
                         r.choice((-1, -1, 16))))
    hdr = {"kind": r.choice(("pipe", "pipe", "sized")), "B": B, "W": sh.REAL_W,
           "st": st, "big": True, "occ": [], "needles": [], "real": False,
           "name": "real-%d" % i}
    ops = []
    for _ in range(r.randint(3, 10)):
        h = r.randint(1, len(st))
        T = sh.bits_of(hdr, n, h)
        o = r.choice(("sizeGe", "sizeGe", "ask", "read", "readBytes"))
        a = r.choice((0, T - 8, T - 16, 8 * (B - 1), 8 * B, T,
                      8 * r.randrange(n)))
        a = max(0, a)
        e = {"op": o, "h": h}
        if o == "sizeGe":
            e.update(n=max(1, r.choice((a, a + 8, T, T + 1, T + 8, T - 8))),
                     const=r.random() < .3)
        elif o == "read":
            e.update(a=a, n=r.choice((1, 8, 16, 8 * B, 100)))
        elif o == "readBytes":
            e.update(a=a, n=r.choice((1, 2, 16, B)))
        ops.append(e)
    return {"hdr": hdr, "src": src, "ops": ops}


def os_pipe(n):
    """A real operating-system pipe: the same trace format, the source being
    observed through the stream only."""
    from hachoir.stream import InputIOStream, InputStreamError
    data = bytes(i % 251 for i in range(n))
    rfd, wfd = os.pipe()

    def feed():
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    t = threading.Thread(target=feed)
    t.start()
    hdr = {"kind": "pipe", "B": sh.REAL_B, "W": sh.REAL_W,
           "st": [dict(sh.BASE)], "big": True, "occ": [], "real": False,
           "name": "os-pipe-%d" % n, "n": n}
    ev = []
    eof = False
    raw = 0
    f = os.fdopen(rfd, "rb")
    if sh._pipe is not None and sh.SCALABLE:
        sh._pipe.buffer_size = sh.REAL_B.bit_length() - 1
        sh._pipe.buffer_nb_min = sh.REAL_W
    try:
        s = InputIOStream(f)
        for a, k in ((0, 1), (n // 2, 4), (n - 1, 1), (n - 1, 9), (0, n)):
            e = {"op": "read", "h": 1, "a": 8 * a, "n": 8 * k}
            end = a + k
            try:
                sh_, d, miss = s.read(8 * a, 8 * k)
                res = {"t": "ok", "shift": sh_, "miss": bool(miss),
                       "data": [a, a + len(d)] if d and d == data[a:a + len(d)]
                       else [] if not d else [-1, len(d)]}
            except InputStreamError:
                res = {"t": "err"}
            except Exception as err:
                res = {"t": exc_name(err)}
            raw = max(raw, min(n, (end // sh.REAL_B + 1) * sh.REAL_B))
            eof = eof or end // sh.REAL_B >= n // sh.REAL_B
            e["res"] = res
            z = s.size
            e["obs"] = {"sizes": [-1 if z is None else z],
                        "final": [bool(z is not None and s.checked)],
                        "raw": raw, "eof": eof, "notif": []}
            ev.append(e)
        s.close()
    except Exception as err:
        ev.append({"op": "read", "h": 1, "a": 0, "n": 8,
                   "res": {"t": exc_name(err)},
                   "obs": {"sizes": [-1], "final": [False], "raw": 0,
                           "eof": False, "notif": []}})
    finally:
        try:
            f.close()
        except Exception:
            pass
        t.join()
    hdr["ev"] = ev
    return hdr


def run(ctx):
    ctx.model_check("SizeMC")
    jobs = []
    for i, h in enumerate(ctx.export("SizeMC", "SizeGen")):
        jobs.append(gen_job(i, h, 5))
        jobs.append(gen_job(i, h, 4))
    jobs += [job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(2500, 25000))]
    jobs += [real_job(ctx.rng, i) for i in range(ctx.n(200, 2000))]
    traces = ctx.pmap(sh.record, jobs)
    traces += ctx.pmap(os_pipe, [1, 10, 4096, 65535, 65536, 65537, 200000],
                       procs=2)
    ctx.validate("StreamsTrace", traces)
