"""P03: stalling stages, spec/Stall.tla."""
import json


def p03(ctx):
    sets = [("{\"a\", \"b\"}", "{\"a\"}", "{\"b\"}"), ("{\"a\", \"b\"}", "{\"a\", \"b\"}", "{\"a\", \"b\"}"),
            ("{\"a\", \"b\", \"c\"}", "{\"a\"}", "{\"a\", \"b\", \"c\"}"), ("{\"a\", \"b\", \"c\"}", "{\"b\", \"c\"}", "{\"a\", \"b\"}")]
    invs = ("Idle", "OneAction", "Owed")
    for i, (st, ev, sl) in enumerate(sets):
        c = dict(Stages=st, Evals=ev, Stalled=sl, Rounds="3" if ctx.thorough else "2", GroupLock="TRUE", Barrier="TRUE", Hold="TRUE")
        ctx.model("MC_Stall%d" % i, "Stall", c, invs=invs, deadlock=True,
                  weak=[dict(GroupLock="FALSE"), dict(Barrier="FALSE"), dict(Hold="FALSE")] if i == 1 else ())
    exe = ctx.build()
    f = ctx.path("runs.ndjson")
    ctx.drive(exe, ["stall", "-runs", f, "-budget", "%ds" % (300 if ctx.thorough else 25)], timeout=600)
    recs = [json.loads(l) for l in open(f)]
    if recs and not ctx.violations:
        defs = "RunsC == {\n" + ",\n".join("[id |-> %d, ev |-> <<%s>>]" % (
            r["id"], ", ".join('<<"%s", "%s">>' % tuple(e) for e in r["ev"])) for r in recs) + "}"
        r = ctx.model("MC_StallRuns", "StallRuns", dict(Runs="<- RunsC"), defs, invs=("Accepted",))
        ok = {json.loads(l)["id"] for l in open(r["files"]["R"])} if "R" in r["files"] else set()
        for x in recs:
            if x["id"] not in ok:
                ctx.violation("stall-run", "the events of a run are none the specification allows", x)
        ctx.coverage["traces_validated_against_impl"] += len(recs)
    ctx.assumptions += ["goroutine schedules are sampled in the real code (with added delays) and enumerated in the specification"]


CHECKS = {"P03": ("model_checking", p03)}
