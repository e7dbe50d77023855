"""P04: caches, spec/Presence.tla, CacheRuns.tla, Lru.tla."""
import json


def p04(ctx):
    c = dict(Readers='{"r1", "r2"}', Writers='{"w1", "w2"}', Ids='{1, 2}' if ctx.thorough else "{1}", Reads="2" if ctx.thorough else "1", Adds="2" if not ctx.thorough else "1", Recheck="TRUE", Drain="TRUE", Lock="TRUE", Both="TRUE")
    ctx.model("MC_Presence", "Presence", c, invs=("NoRace", "Right"), props=("WritersEnd", "ReadersEnd"), deadlock=True, timeout=800,
              weak=[dict(Recheck="FALSE"), dict(Drain="FALSE"), dict(Lock="FALSE"), dict(Both="FALSE")])
    exe = ctx.build()
    race = ctx.build(out="vdrvrace", race=True)
    f, g = ctx.path("runs.ndjson"), ctx.path("runs2.ndjson")
    b = "%ds" % (200 if ctx.thorough else 12)
    ctx.drive(exe, ["cache", "-runs", f, "-budget", b], timeout=400)
    ctx.drive(race, ["cache", "-runs", g, "-budget", b], timeout=400, name="cacherace", env=dict(GORACE="halt_on_error=1 exitcode=2"))
    recs = [json.loads(l) for l in open(f)] + [json.loads(l) for l in open(g)]
    if recs and not ctx.violations:
        for i, r in enumerate(recs):
            r["id"] = i + 1
        ev = lambda e: '<<"%s", %d, <<%s>>, %s>>' % (e["K"], e["C"], ", ".join(map(str, e["I"])), "TRUE" if e["A"] else "FALSE")
        defs = "RunsC == {\n" + ",\n".join("[id |-> %d, ev |-> <<%s>>]" % (r["id"], ", ".join(map(ev, r["ev"]))) for r in recs) + "}"
        r = ctx.model("MC_CacheRuns", "CacheRuns", dict(Runs="<- RunsC"), defs, invs=("Accepted",))
        ok = {json.loads(l)["id"] for l in open(r["files"]["R"])} if "R" in r["files"] else set()
        for x in recs:
            if x["id"] not in ok:
                ctx.violation("cache-run", "a history of calls of a cache (%s) is none the specification allows" % x["what"], x)
        ctx.coverage["traces_validated_against_impl"] += len(recs)
    for cap in (1, 2, 3):
        r = ctx.model("MC_Lru%d" % cap, "Lru", dict(Ids="{1, 2, 3, 4}", Cap=str(cap), MaxAdd="3" if ctx.thorough else "2"), invs=("Bounded", "OnlyAdded"), view="View", emit="EmitEdge")
        ctx.drive(exe, ["lru", "-edges", r["files"]["E"], "-cap", str(cap)], name="lru%d" % cap)
    ctx.assumptions += ["goroutine schedules are sampled in the real code (also under the race detector) and enumerated in the specification"]


CHECKS = {"P04": ("model_checking", p04)}
