"""C03: the policy CA, spec/Pca.tla. C06: the domain owner, spec/Owner.tla."""
import json

q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"


def c03(ctx):
    t = ctx.thorough
    for name, logs, issued, reqs, keys in [("logs2", ["l1", "l2"], 2, 3 if t else 2, ["k1", "k2"])] + ([("logs3", ["l1", "l2", "l3"], 2, 2, ["k2"]), ("logs0", [], 3, 2, ["k1", "k2", "k3"])] if t else [("logs0", [], 2, 1, ["k2"])]):
        cs = dict(Logs=q(logs), Keys=q(keys), Ticks="{1, 2, 3, 4}", RootFrom="2", RootTo="3", MaxIssued=str(issued), MaxRequests=str(reqs), Weak='"no"')
        r = ctx.model("MC_" + name, "Pca", cs, invs=("Complete", "Authorised"), props=("NoStore", "Fresh"), emit="EmitEdge", view="View", timeout=800)
        if name == "logs2":
            ctx.model("MC_deep" + name, "Pca", cs, invs=("Complete", "Authorised"), props=("NoStore", "Fresh"), only_weak=True,
                      weak=[dict(Weak='"proof-ignored"'), dict(Weak='"any-time"'), dict(Weak='"log-missing"'), dict(Weak='"store-early"')])
        ctx.drive(ctx.build(), ["pca", "-edges", r["files"]["E"], "-logs", json.dumps(logs), "-from", "2", "-to", "3", "-budget", "%ds" % (150 if t else 12)], name=name)
    ctx.assumptions += ["log servers answer with a timestamp or an error", "requests are processed one at a time"]


def c06(ctx):
    r = ctx.model("MC_owner", "Owner", dict(Domains=q(["d1", "d2", "d3"] if ctx.thorough else ["d1", "d2"]), Certs=q(["c1", "c2", "n"]), CanOwn=q(["c1", "c2"]), Depth="8", Weak='"no"'),
                  props=("Chained", "Kept"), view="View", emit="EmitEdge", weak=[dict(Weak='"any-domain"')])
    ctx.drive(ctx.build(), ["owner", "-edges", r["files"]["E"]], name="owner")


CHECKS = {"C03": ("model_checking", c03), "C06": ("model_checking", c06)}
