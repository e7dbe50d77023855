"""L01: the log verifier, spec/Log.tla."""


def l01(ctx):
    exe = ctx.build()
    t = ctx.thorough

    def one(name, logs, n, pool, maxpath, heads=None, weak=()):
        q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
        defs = "ContentC == [l \\in %s |-> CASE %s]\nHeadsC == %s" % (
            q(logs), " [] ".join('l = "%s" -> << %s >>' % (l, ", ".join('"%s"' % x for x in c[:n])) for l, c in logs.items()),
            "{" + ", ".join('<< "%s", %d >>' % (l, k) for l in logs for k in range(n + 1) if heads is None or k in heads) + "}")
        cs = dict(Logs=q(logs), Content="<- ContentC", N=str(n), Pool="TRUE" if pool else "FALSE", MaxPath=str(maxpath), Heads="<- HeadsC", Weak='"no"')
        r = ctx.model("MC_" + name, "Log", cs, defs, invs=("Complete",), props=("AppendOnly", "Member"), view="View", emit="EmitEdge", timeout=800)
        for k in weak:
            ctx.model("MC_w" + name, "Log", dict(cs), defs, invs=("Complete",), props=("AppendOnly", "Member"), view="View", only_weak=True, weak=[dict(Weak='"%s"' % k)])
        ctx.drive(exe, ["log", "-edges", r["files"]["E"]], name=name)

    a = ["x1", "x2", "x1", "x4", "x5", "x2", "x7", "x8", "x9", "x5", "x11", "x12"]
    b = a[:3] + ["y4", "x1"] + a[5:8] + ["y9"] + a[9:]
    one("proofs", dict(a=a, b=b), 9 if t else 6, False, 0, weak=["shrink", "same-size", "old-root"])
    one("pool", dict(a=a, b=b[:2] + b[3:]), 4 if t else 3, True, 3 if t else 2)


CHECKS = {"L01": ("model_checking", l01)}
