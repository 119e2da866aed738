"""M01: metadata registers (spec/Metadata.tla)."""
import meta_h as mh


def classify(t, k):
    e = t["ev"][k]
    return "%s:%s" % (e["op"], e.get("key", ""))


def run(ctx):
    ctx.model_check("MetadataMC", ctx.n("MetadataMC", "MetadataMCBig"))
    jobs = [{"name": "m%s-%d" % (ctx.seed, i), "multi": i % 4 == 0,
             "count": 8 if i % 3 else 20} for i in range(ctx.n(3000, 30000))]
    jobs += [{"name": "k%s-%s-%d" % (ctx.seed, k, i), "multi": False, "key": k,
              "count": 16} for k in mh.KEYS
             for i in range(ctx.n(15 if mh.TYPE[k] in ("str", "any") else 40,
                                  150))]
    ctx.validate("MetadataTrace", ctx.pmap(mh.record, jobs),
                 classify=classify)
