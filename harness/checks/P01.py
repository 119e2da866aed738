"""P01: the strings of a file (spec/Listing.tla)."""
import os
import grep_h as gh
import realtree


def run(ctx):
    ctx.model_check("ListingMC", ctx.n("ListingMC", "ListingMCBig"),
                    min_states=10000)
    jobs = [{"name": "p%s-%d" % (ctx.seed, i)} for i in range(ctx.n(600, 8000))]
    ctx.validate("ListingTrace", ctx.pmap(gh.planned, jobs))
    jobs = [{"name": "%s-%s-%s%d" % (ctx.seed, os.path.basename(p), m, i),
             "file": p, "mode": m}
            for p in realtree.samples(ctx.n(150000, 2000000))
            for m in "ntmb" for i in range(ctx.n(1, 8) if m != "n" else 1)]
    ctx.validate("ListingTrace", [t for t in ctx.pmap(
        gh.real, jobs, seconds=60) if t], chunk=400)
