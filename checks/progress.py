"""U05: progress over logs, spec/Progress.tla."""
import checks.dbworld as w


def u05(ctx):
    c = dict(N="2", Max="3", Fails="2", Cycles="3", Eager="FALSE", Blind="FALSE", Shared="FALSE")
    inv, props = ("Behind", "Heads"), ("Resumes",)
    ctx.model("MC_Progress", "Progress", c if ctx.thorough else dict(c, Fails="1"), invs=inv, view="View", weak=[dict(Eager="TRUE"), dict(Blind="TRUE"), dict(Shared="TRUE")], timeout=800)
    ctx.model("MC_ProgressOrder", "Progress", dict(c, Max="2", Fails="1", Cycles="2"), invs=inv, props=props, timeout=800)
    r = ctx.model("MC_ProgressWalks", "Progress", dict(c, Fails="1", Cycles="2" if not ctx.thorough else "3"), invs=inv, view="View", emit="EmitEdge", timeout=800)
    exe = ctx.build()
    port = w.mysqld(ctx)
    ctx.drive(exe, ["progress", "-graph", r["files"]["E"], "-port", str(port), "-budget", "%ds" % (400 if ctx.thorough else 60)])


CHECKS = {"U05": ("model_checking", u05)}
