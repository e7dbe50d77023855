"""F01: fetching the entries of a log, spec/Fetch.tla, FetchRuns.tla."""
import json


def f01(ctx):
    defs = """R1 == {<<0, 9>>, <<1, 4>>, <<3, 3>>, <<2, 1>>}
R2 == {<<0, 13>>}
R3 == {<<0, 12>>, <<0, 7>>, <<1, 4>>, <<3, 3>>, <<2, 1>>, <<3, 10>>}
R4 == {<<0, 13>>, <<1, 4>>, <<3, 3>>, <<2, 1>>}
R6 == {<<1, 5>>, <<2, 3>>}
R7 == {<<1, 9>>, <<2, 3>>, <<5, 4>>}"""
    c = dict(Ranges="<- R1", S="2", P="4", Buffer="2", Runs="2", Bads="1", Stops="1", Mixed="FALSE", Lax="FALSE", Deaf="FALSE")
    ctx.model("MC_Fetch", "Fetch", c, defs, invs=("InOrder", "Whole"), props=("Ends",), weak=[dict(Mixed="TRUE"), dict(Lax="TRUE"), dict(Deaf="TRUE", Ranges="<- R2", Runs="1")], timeout=800)
    if ctx.thorough:
        ctx.model("MC_FetchBig", "Fetch", dict(c, Ranges="<- R3", Bads="2", Stops="2"), defs,
                  invs=("InOrder", "Whole"), view="View", timeout=800)
    graphs = []
    for n, x in enumerate((dict(Ranges="<- R4", Runs="1"), dict(Ranges="<- R6" if not ctx.thorough else "<- R7", Runs="2"))):
        r = ctx.model("MC_FetchWalks%d" % n, "Fetch", dict(c, **x), defs, invs=("InOrder", "Whole"), view="View", emit="EmitEdge", timeout=800)
        graphs.append(r["files"]["E"])
    graphs = ",".join(graphs)
    exe = ctx.build()
    f = ctx.path("runs.ndjson")
    ctx.drive(exe, ["fetch", "-graph", graphs, "-runs", f, "-budget", "%ds" % (300 if ctx.thorough else 30)])
    recs = [json.loads(l) for l in open(f)]
    if not ctx.violations:
        check_runs(ctx, recs)
    race = ctx.build(out="vdrvrace", race=True)
    f = ctx.path("runs2.ndjson")
    ctx.drive(race, ["fetch", "-small", "-graph", graphs, "-runs", f, "-budget", "%ds" % (60 if ctx.thorough else 8)], name="fetchrace", env=dict(GORACE="halt_on_error=1 exitcode=2"))
    if not ctx.violations:
        check_runs(ctx, [json.loads(l) for l in open(f)], "race")


def check_runs(ctx, recs, tag=""):
    total = len(recs)
    recs = list({json.dumps(r["ev"]): r for r in recs}.values())
    for i, r in enumerate(recs):
        r["id"] = i + 1
    ok = set()
    for s in range(0, len(recs), 400):
        ev = lambda e: '<<"%s", %d, %d, %s>>' % (e["K"], e["A"], e["B"], "TRUE" if e["S"] else "FALSE")
        defs = "RunsC == {\n" + ",\n".join("[id |-> %d, ev |-> <<%s>>]" % (r["id"], ", ".join(map(ev, r["ev"]))) for r in recs[s:s + 400]) + "}"
        r = ctx.model("MC_FetchRuns%s%d" % (tag, s), "FetchRuns", dict(Runs="<- RunsC"), defs, invs=("Accepted",))
        if "R" in r["files"]:
            ok |= {json.loads(l)["id"] for l in open(r["files"]["R"])}
    for x in recs:
        if x["id"] not in ok:
            ctx.violation("history", "a fetch (%s) that the specification does not allow" % x["what"], x)
    ctx.coverage["traces_validated_against_impl"] += total


CHECKS = {"F01": ("model_checking", f01)}
