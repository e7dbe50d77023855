"""M04: requests for updates, spec/Server.tla, ServerRuns.tla."""
import json
import checks.dbworld as w


def m04(ctx):
    c = dict(Waiting='{"w1", "w2"}', Maybe='{"p1"}', Asks="1", Phases="3", Stops="TRUE", Cancels="FALSE", Fails="2", Early="FALSE", Closes="FALSE")
    ctx.model("MC_Server", "Server", c, invs=("Alive", "Right", "One"), props=("EachToldOnce",), weak=[dict(Early="TRUE"), dict(Closes="TRUE")], timeout=800)
    if ctx.thorough:
        ctx.model("MC_ServerBig", "Server", dict(c, Asks="2", Cancels="TRUE"), invs=("Alive", "Right", "One"), view="View", timeout=800)
    ps = 7
    r = ctx.model("MC_ServerWalks", "Server", dict(c, Asks="1", Phases=str(ps), Cancels="TRUE", Fails="1"),
                  invs=("Alive", "Right", "One"), view="View", emit="EmitEdge", timeout=800)
    exe = ctx.build()
    port = w.mysqld(ctx)
    f = ctx.path("runs.ndjson")
    ctx.drive(exe, ["server", "-graph", r["files"]["E"], "-port", str(port), "-maybe", "p1", "-runs", f, "-budget", "%ds" % (300 if ctx.thorough else 15)])
    recs = [json.loads(l) for l in open(f)]
    if not ctx.violations:
        check_runs(ctx, recs)


def check_runs(ctx, recs):
    for i, r in enumerate(recs):
        r["id"] = i + 1
    ok = set()
    for s in range(0, len(recs), 400):
        ev = lambda e: '<<"%s", %d, "%s", %s>>' % (e["K"], e["C"], e["P"], "TRUE" if e["S"] else "FALSE")
        defs = "RunsC == {\n" + ",\n".join("[id |-> %d, ev |-> <<%s>>]" % (r["id"], ", ".join(map(ev, r["ev"]))) for r in recs[s:s + 400]) + "}"
        r = ctx.model("MC_ServerRuns%d" % s, "ServerRuns", dict(Runs="<- RunsC"), defs, invs=("Accepted",))
        if "R" in r["files"]:
            ok |= {json.loads(l)["id"] for l in open(r["files"]["R"])}
    for x in recs:
        if x["id"] not in ok:
            ctx.violation("history", "requests, operations and answers (%s) that the specification does not allow" % x["what"], x)
    ctx.coverage["traces_validated_against_impl"] += len(recs)


CHECKS = {"M04": ("model_checking", m04)}
