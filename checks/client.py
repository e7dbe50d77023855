"""M02: what clients accept, spec/Client.tla."""
import json, random

q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"


def m02(ctx):
    exe = ctx.build()
    rng = random.Random(ctx.seed * 31 + 5)
    ids = ["i1", "i2", "i3", "i4"]

    def one(name, trees, sources, depth, weak=()):
        names = sorted({n for t in trees.values() for n in t} | {"n9"})

        def fn(k):
            return "[t \\in %s |-> CASE %s]" % (q(trees), " [] ".join(
                't = "%s" -> [n \\in %s |-> CASE %s]' % (t, q(names), " [] ".join('n = "%s" -> %s' % (n, q(trees[t].get(n, ([], []))[k])) for n in names)) for t in trees))
        defs = "CertsC == %s\nPolsC == %s" % (fn(0), fn(1))
        cs = dict(Trees=q(trees), Names=q(names), Certs="<- CertsC", Pols="<- PolsC", Sources=str(sources), Depth=str(depth), Weak='"no"')
        r = ctx.model("MC_" + name, "Client", cs, defs, invs=("Sound", "Complete", "EmitState"), view="View", workers=1, timeout=800)
        if weak:
            ctx.model("MC_w" + name, "Client", cs, defs, invs=("Sound", "Complete"), view="View", only_weak=True, weak=weak)
        ctx.drive(exe, ["client", "-answers", r["files"]["S"], "-trees", ctx.write(name + ".json", json.dumps(trees)), "-names", json.dumps(names)], name=name)

    small = dict(t1=dict(n1=(["i1"], []), n2=(["i2"], ["i3"])), t2=dict(n1=(["i1", "i2"], []), n3=([], ["i1"])))
    if ctx.thorough:
        small["t3"] = {}
    one("pairs", small, 1, 9, weak=[dict(Weak='"name-unchecked"'), dict(Weak='"lists-unchecked"'), dict(Weak='"absence-believed"')])
    big = dict(t0={}, t1=dict(n1=(["i1"], []), n2=(["i2"], ["i3"])), t2=dict(n1=(["i1", "i3"], ["i2"]), n2=(["i2"], ["i3"]), n3=([], ["i1"])), t3=dict(n2=(["i1"], []), n4=(["i1", "i2"], ["i3", "i4"])))
    one("any", big, 0, 2)
    if ctx.thorough:
        for k in range(4):
            ts = {}
            for t in ("t1", "t2", "t3"):
                ts[t] = {n: (rng.sample(ids, rng.randint(0, 2)), rng.sample(ids, rng.randint(1, 2))) for n in rng.sample(["n1", "n2", "n3", "n4"], rng.randint(0, 4))}
                ts[t] = {n: (c, [x for x in p if x not in c] or (["i9"] if not c else [])) for n, (c, p) in ts[t].items()}
            one("random%d" % k, ts, 0, 3 if k == 0 else 2)
    ctx.assumptions += ["SHA-256 is collision-free"]


CHECKS = {"M02": ("model_checking", m02)}
