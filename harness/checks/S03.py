"""S03: search finds the first occurrence (spec/Streams.tla, SearchMC.tla)."""
import random
import streams_h as sh


def job(seed):
    r = random.Random(seed)
    hdr, src = sh.rand_world(r)
    src = bytes(b & 1 for b in src)
    w = {"search": 6, "searchLen": 3, "read": 1, "readBytes": 1, "sizeGe": .5,
         "fopen": .1}
    ops = sh.rand_ops(r, hdr, len(src), r.randint(4, 30), w)
    hdr["name"] = "random-%s" % seed
    return {"hdr": hdr, "src": src, "ops": ops}


def gen_jobs(tests):
    """All small texts, needles and ranges of the model: grouped by text."""
    by = {}
    for t in tests:
        by.setdefault(tuple(t["text"]), []).append(t)
    jobs = []
    for i, (text, ts) in enumerate(sorted(by.items())):
        for kind in ("string", "pipe"):
            hdr = {"kind": kind, "B": 2 if sh.SCALABLE else sh.REAL_B,
                   "W": 8 if sh.SCALABLE else sh.REAL_W,
                   "st": [dict(sh.BASE)], "big": False, "real": False,
                   "name": "gen-%s-%d" % (kind, i)}
            ops = []
            for k, t in enumerate(ts):
                e = {"op": "searchLen" if k % 3 == 0 else "search", "h": 1,
                     "nd": t["needle"], "len": len(t["needle"]),
                     "a": 8 * t["from"],
                     "e": -1 if t["to"] < 0 else 8 * t["to"] + (k * 3 % 8)}
                if e["op"] == "searchLen":
                    e["incl"] = bool(k & 1)
                ops.append(e)
                if k % 7 == 3:
                    ops.append({"op": "read", "h": 1, "a": 0, "n": 8})
            jobs.append({"hdr": hdr, "src": bytes(text), "ops": ops})
    return jobs


def occurrences(src, nd):
    res, i = [], src.find(nd)
    while i >= 0:
        res.append(i)
        i = src.find(nd, i + 1)
    return res


def big_job(seed):
    """Needles at, before and across the boundaries of the read buffer (4096
    bytes or three needles) and of the pipe blocks, in texts of megabytes."""
    r = random.Random(seed)
    kind = r.choice(("string", "file", "pipe", "sized"))
    L = r.choice((1, 2, 3, 4, 7, 8, 16, 100, 1365, 1366, 1367, 4095, 4096,
                  4097, 9000))
    size = max(3 * L, 4096)
    n = r.choice((size - 1, size, size + 1, 2 * size, 3 * size + 17, 20000,
                  sh.REAL_B + 5, 3 * sh.REAL_B + 1))
    n = max(n, L + 1)
    src = bytearray(r.choice(b"ab") for _ in range(n))
    sub = 0
    st = [dict(sh.BASE)]
    if r.random() < .5:
        sub = r.randrange(0, max(1, n // 3))
        st.append(sh.sub(1, 8 * sub, r.choice((-1, 8 * r.randint(max(1, (n - sub) // 2), n - sub)))))
    # needles: one planted, self-overlapping or not; one never occurring
    if r.random() < .4:
        nd = bytes([97]) * (L - 1) + b"c"
    elif r.random() < .5:
        nd = (b"abac" * L)[:L - 1] + b"d"
    else:
        nd = b"c" + bytes(r.choice(b"ab") for _ in range(L - 1))
    starts = [0, sub, r.randrange(n)]
    for _ in range(r.randint(1, 4)):
        k = r.randint(0, 3)
        pos = (r.choice(starts) + k * size
               - r.choice((0, 1, L - 1, L, L + 1, L // 2, r.randint(0, L))))
        if 0 <= pos and pos + L <= n:
            src[pos:pos + L] = nd
    if r.random() < .3 and n >= L:
        src[n - L:n] = nd           # at the very end
    src = bytes(src)
    needles = [nd, nd[:1], nd[-2:], nd[1:] or b"z", b"zz"]
    occ = [occurrences(src, x) for x in needles]
    # the trace keeps only positions: drop needles with too many of them
    keep = [i for i in range(len(needles)) if len(occ[i]) < 3000]
    hdr = {"kind": kind, "B": sh.REAL_B, "W": sh.REAL_W, "st": st,
           "big": True, "occ": [occ[i] for i in keep],
           "needles": [list(needles[i]) for i in keep],
           "real": kind == "file" and r.random() < .3,
           "name": "big-%s" % seed}
    ops = []
    occs = [o for i in keep for o in occ[i][:20]] or [0]
    for _ in range(r.randint(4, 12)):
        h = r.randint(1, len(st))
        T = sh.bits_of(hdr, n, h)
        org = 0 if h == 1 else sub
        k = r.randrange(len(keep))
        ln = len(needles[keep[k]])
        if r.random() < .1:
            ops.append({"op": "readBytes", "h": h,
                        "a": 8 * r.randrange(T // 8), "n": r.randint(1, 40)})
            continue
        a = r.choice((0, 0, r.randrange(T // 8),
                      max(0, r.choice(occs) - org + r.choice((-1, 0, 1))),
                      max(0, r.choice(occs) - org - size + r.randint(0, ln))))
        e = r.choice((-1, -1, T, 8 * r.randint(0, n),
                      max(0, 8 * (r.choice(occs) - org + ln
                                  + r.choice((-1, 0, 1))) + r.choice((0, 0, 3)))))
        op = {"op": r.choice(("search", "search", "searchLen")), "h": h,
              "nd": k + 1, "len": ln, "a": 8 * a, "e": e}
        if op["op"] == "searchLen":
            op["incl"] = r.random() < .5
        ops.append(op)
    return {"hdr": hdr, "src": src, "ops": ops}


def run(ctx):
    ctx.model_check("SearchMC")
    jobs = gen_jobs(ctx.export("SearchMC", "SearchGen"))
    jobs += [job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(1500, 15000))]
    jobs += [big_job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(500, 6000))]
    traces = ctx.pmap(sh.record, jobs)
    ctx.validate("StreamsTrace", traces)
