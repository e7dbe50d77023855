"""M03: answers while the tree is replaced, spec/Responder.tla, ResponderRuns.tla."""
import json


def check_runs(ctx, recs):
    """Each recorded history against the specification, by TLC; in slices, as TLC parses them."""
    for i, r in enumerate(recs):
        r["id"] = i + 1
    ok = set()
    step = 400
    for s in range(0, len(recs), step):
        ev = lambda e: '<<"%s", %d, %d, %s>>' % (e["K"], e["C"], e["V"], "TRUE" if e["S"] else "FALSE")
        defs = "RunsC == {\n" + ",\n".join("[id |-> %d, ev |-> <<%s>>]" % (r["id"], ", ".join(map(ev, r["ev"]))) for r in recs[s:s + step]) + "}"
        r = ctx.model("MC_ResponderRuns%d" % s, "ResponderRuns", dict(Runs="<- RunsC"), defs, invs=("Accepted",))
        if "R" in r["files"]:
            ok |= {json.loads(l)["id"] for l in open(r["files"]["R"])}
    for x in recs:
        if x["id"] not in ok:
            ctx.violation("history", "answers, publications and reloads (%s) that the specification does not allow" % x["what"], x)
    ctx.coverage["traces_validated_against_impl"] += len(recs)


def m03(ctx):
    c = dict(Queriers='{"q1", "q2"}', Reloaders='{"r1", "r2"}', Versions="3", Parts="2", Asks="1", Loads="1", Snapshot="TRUE", Together="TRUE", Exclusive="TRUE")
    if ctx.thorough:
        c.update(Asks="2")
    ctx.model("MC_Responder", "Responder", c, invs=("Consistent", "InUse"), view="View", weak=[dict(Snapshot="FALSE"), dict(Together="FALSE"), dict(Exclusive="FALSE")])
    g = dict(c, Queriers='{"q1"}', Asks="2", Loads="1" if not ctx.thorough else "2")
    r = ctx.model("MC_ResponderWalks", "Responder", g, invs=("Consistent", "InUse"), view="View", emit="EmitEdge")
    exe = ctx.build()
    race = ctx.build(out="vdrvrace", race=True)
    f, h = ctx.path("runs.ndjson"), ctx.path("runs2.ndjson")
    b = "%ds" % (60 if ctx.thorough else 5)
    ctx.drive(exe, ["responder", "-graph", r["files"]["E"], "-runs", f, "-budget", b])
    ctx.drive(race, ["responder", "-runs", h, "-budget", b], name="responderrace", env=dict(GORACE="halt_on_error=1 exitcode=2"))
    recs = [json.loads(l) for p in (f, h) for l in open(p)]
    if not ctx.violations:
        check_runs(ctx, recs)
    ctx.assumptions += ["the lists of identifiers in an answer are read from the database, not from the tree: whether they are those of the root in it is only claimed where nothing changes (M01), and checked by the client (M02)"]


CHECKS = {"M03": ("model_checking", m03)}
