"""L01: limits, messages and events (spec/Guards.tla)."""
import guards_h as gh
import realtree


def run(ctx):
    ctx.model_check("GuardsMC", "GuardsMC", min_states=5000)
    if ctx.thorough:
        ctx.model_check("GuardsMC", "GuardsMCBig", min_states=20000)
    # every point of one call, from every outer state
    jobs = []
    for k in range(0, 13):
        for body in ([], ["raise"], ["expire"]):
            jobs.append({"name": "point%d-%s" % (k, body), "n": 6,
                         "node": {"lim": 9000, "inject": k, "id": 5,
                                  "body": body, "up": False}})
            jobs.append({"name": "in%d-%s" % (k, body), "n": 4,
                         "node": {"lim": 9000, "inject": 0, "id": 5,
                                  "up": False, "body": [
                                      {"lim": 2000, "inject": k, "id": 6,
                                       "body": body, "up": k % 2 == 1}]}})
    jobs += [{"name": "t%s-%d" % (ctx.seed, i), "n": 10}
             for i in range(ctx.n(300, 5000))]
    ctx.validate("GuardsTrace", ctx.pmap(gh.time_job, jobs))
    jobs = [{"name": "r%d" % i, "lim": (1, .3, 1, 2)[i % 4],
             "want": ("Timeout", "Timeout", "ok", "ok")[i % 4]}
            for i in range(ctx.n(4, 12))]
    ctx.validate("GuardsTrace", ctx.pmap(gh.real_job, jobs, seconds=90))
    jobs = [{"name": "m%s-%d" % (ctx.seed, i)}
            for i in range(ctx.n(60, 600))]
    ctx.validate("GuardsTrace", ctx.pmap(gh.memory_job, jobs, seconds=60))
    jobs = [{"name": "l%s-%d" % (ctx.seed, i), "n": 30}
            for i in range(ctx.n(200, 3000))]
    ctx.validate("GuardsTrace", ctx.pmap(gh.log_job, jobs))
    jobs = [{"name": "e%s-%d" % (ctx.seed, i), "n": 40}
            for i in range(ctx.n(200, 3000))]
    ctx.validate("GuardsTrace", ctx.pmap(gh.event_job, jobs))
    files = realtree.samples(ctx.n(200000, 4000000))
    ctx.rng.shuffle(files)
    jobs = [{"name": "u%s-%d" % (ctx.seed, i), "files": files[i:i + 5]}
            for i in range(0, len(files), 5)]
    ctx.validate("GuardsTrace", ctx.pmap(gh.use_job, jobs, seconds=200))
