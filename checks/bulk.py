"""U06: bulk ingestion against spec/Bulk.tla and spec/BulkRuns.tla."""
import random
from checks import dbworld as w

DEFS = """NamesOfC == "a" :> {"n", "m"} @@ "b" :> {"n"} @@ "c" :> {"m"}
ShardC == "a" :> 1 @@ "b" :> 2 @@ "c" :> 1
ShardNC == "n" :> 1 @@ "m" :> 2"""


def model(ctx):
    cs = dict(Certs='{"a","b","c"}' if ctx.thorough else '{"a","b"}', Names='{"n","m"}', NamesOf="<- NamesOfC", Shard="<- ShardC", ShardN="<- ShardNC",
              W="2", B="2", MaxFeed="2", Runs="2", Faults="TRUE", RememberNames="FALSE", KeepSeen="FALSE", DropRest="FALSE", SwallowError="FALSE")
    ctx.model("MC_Bulk", "Bulk", cs, DEFS, invs=("Complete", "Nothing"), props=("Refines", "Only", "AllReported", "Ends"), timeout=800,
              weak=[dict(RememberNames="TRUE"), dict(DropRest="TRUE"), dict(SwallowError="TRUE")])
    # the code as it is (known finding shared-name)
    ctx.model("MC_BulkNow", "Bulk", dict(cs, RememberNames="TRUE"), DEFS, invs=("CompleteButShared", "Nothing"),
              props=("Refines", "Only", "AllReportedButShared", "Ends"), timeout=800, weak=[dict(KeepSeen="TRUE")])


def graph(ctx, n, streams):
    cs = dict(Streams="{%s}" % ", ".join(w.sset(s) for s in streams), Faults="TRUE")
    r = ctx.model("MC_Runs%d" % n, "BulkRuns", cs, invs=("Disjoint",), props=("NeverLost",), view="View", emit="EmitEdge")
    return r["files"]["E"]


def u06(ctx):
    model(ctx)
    rng = random.Random(ctx.seed * 31 + 6)
    exe = ctx.build()
    port = w.mysqld(ctx)
    for k in range(6 if ctx.thorough else 2):
        fams = list("abcdef")
        streams = [rng.sample(fams, rng.randint(1, 4)) for _ in range(4)] + [[], [rng.choice(fams)]]
        e = graph(ctx, k, streams)
        ctx.drive(exe, ["bulk", "-port", str(port), "-edges", e, "-budget", "%ds" % (120 if ctx.thorough else 25)], name="bulk%d" % k, timeout=600)
        if ctx.violations:
            break
    ctx.assumptions += ["MySQL executes single statements as specified"]


CHECKS = {"U06": ("model_checking", u06)}
