"""F02: bundle files, spec/Local.tla."""


def f02(ctx):
    c = dict(Mode='"sets"', MaxEnd="5", MaxFiles="3", Limits="{1, 2, 4, 7}", Fixed="{}", Start="{}", Fetches="0", Sloppy='"no"')
    ctx.model("MC_LocalSets", "Local", c, invs=("Agrees",), view="View", weak=[dict(Sloppy='"gap"')], timeout=800)
    if ctx.thorough:
        ctx.model("MC_LocalSetsBig", "Local", dict(c, MaxEnd="7", MaxFiles="4", Limits="{1, 2, 3, 5, 8}"), invs=("Agrees",), view="View", timeout=800)
    e = ctx.model("MC_LocalEmit", "Local", dict(c, MaxEnd="5" if ctx.thorough else "4"), invs=("Emit",), view="View", workers=1, timeout=800)
    defs = "FixedC == {<<2, 4>>, <<5, 5>>, <<4, 6>>}\nStartC == {<<0, 1>>}"
    g = dict(c, Mode='"runs"', MaxEnd="6", Limits="{2, 5, 9}", Fixed="<- FixedC", Start="<- StartC", Fetches="3")
    r = ctx.model("MC_LocalRuns", "Local", g, defs, invs=("Whole",), view="View", emit="EmitEdge", weak=[dict(Sloppy='"resume"')], timeout=800)
    exe = ctx.build()
    race = ctx.build(out="vdrvrace", race=True)
    ctx.drive(exe, ["local", "-sets", e["files"]["S"], "-graph", r["files"]["E"], "-large", "-budget", "%ds" % (240 if ctx.thorough else 25)])
    ctx.drive(race, ["local", "-graph", r["files"]["E"], "-budget", "%ds" % (60 if ctx.thorough else 8)], name="localrace", env=dict(GORACE="halt_on_error=1 exitcode=2"))


CHECKS = {"F02": ("model_checking", f02)}
