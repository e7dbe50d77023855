"""U02, U03, U04, M01: the database against spec/MapStore.tla."""
import json, random
from vlib import MachineryError
from checks import dbworld as w


def run(ctx, unis, how="mixed", answers=False, crash=False, tz="+05:30", zone="-7h", lists=0, budget=60, length=40, rand=0):
    exe = ctx.build()
    port = w.mysqld(ctx, tz)
    for name, u in unis:
        u = w.resolve(u)
        if answers:
            w.queries(u)
        e = w.store_graph(ctx, name, u)
        uf = ctx.write("universe-%s.json" % name, json.dumps(u))
        ctx.drive(exe, ["db", "-port", str(port), "-universe", uf, "-edges", e, "-how", how, "-len", str(length),
                        "-budget", "%ds" % budget, "-zone", zone, "-lists", str(lists), "-random", str(rand)]
                  + (["-answers"] if answers else []) + (["-crash"] if crash else []), name="db-" + name, timeout=budget + 300)
        lists = 0
        if len(ctx.violations) >= 6:
            break
    ctx.assumptions += ["MySQL executes single statements and stored procedures as specified"]


def without(u, **k):
    u.update(k)
    return u


def u02(ctx):
    rng = random.Random(ctx.seed * 31 + 2)
    unis = [("basic", without(w.universe_basic(), cuts=[]))]
    for k in range(8 if ctx.thorough else 2):
        unis.append(("r%d" % k, without(w.universe_random(rng), cuts=[])))
    run(ctx, unis, lists=6 if ctx.thorough else 2, budget=200 if ctx.thorough else 12, length=14)


def work(ctx):
    """The work list in partitions, chunks and bundles."""
    t = ctx.thorough
    cs = dict(P="3", Most="3", Chunks="{1, 2, 3}", Bundles="{1, 2, 3, 4, 5, 7, 10}", Weak='"no"')
    ctx.model("MC_Work", "Work", cs, invs=("AllCoalesced", "ReadAll", "Once", "Bounded"), props=("Ends",), constraint="Constraint", timeout=800,
              weak=[dict(Weak='"%s"' % k) for k in ("one-chunk", "half", "full", "rewind")])
    cs.update(Chunks="{1, 3}", Bundles="{1, 2, 3, 4, 5, 7, 31, 32, 33, 64, 100}" if t else "{1, 3, 4, 7, 33}")
    r = ctx.model("MC_Works", "Work", cs, "Frozen == Init /\\ [][UNCHANGED vars]_vars", invs=("Emit",), spec="Frozen", workers=1)
    exe = ctx.build()
    ctx.drive(exe, ["work", "-port", str(w.mysqld(ctx)), "-cases", r["files"]["S"], "-rounds", "6" if t else "1"], name="work", timeout=800)


def u03(ctx):
    rng = random.Random(ctx.seed * 31 + 3)
    unis = [("basic", w.universe_basic())]
    for k in range(8 if ctx.thorough else 2):
        unis.append(("r%d" % k, w.universe_random(rng, nnames=5)))
    unis.append(("emptied", dict(names=dict(n1="alpha.com", n2="beta.org"), pols={}, cuts=[4, 10],
                                 certs=dict(r=dict(parent=None, exp=3, names=[]), a=dict(parent="r", exp=9, names=["n1"]),
                                            b=dict(parent=None, exp=6, names=["n1", "n2"])),
                                 batches=dict(B1=dict(c=dict(a="+", r=""), p=[]), B2=dict(c=dict(b="n2"), p=[]), B3=dict(c=dict(b="+"), p=[])))))
    run(ctx, unis, budget=200 if ctx.thorough else 12, length=30)
    if not ctx.violations:
        work(ctx)


def u04(ctx):
    rng = random.Random(ctx.seed * 31 + 4)
    unis = [("basic", without(w.universe_basic(), cuts=[2, 3, 5, 8, 10]))]
    for k in range(8 if ctx.thorough else 2):
        u = w.universe_random(rng, nbatches=4)
        unis.append(("r%d" % k, without(u, cuts=sorted(rng.sample(range(1, 10), 2)) + [10])))
    run(ctx, unis, budget=200 if ctx.thorough else 15, length=24, tz=rng.choice(["+05:30", "-08:00", "+13:00"]),
        zone=rng.choice(["-7h", "9h", "5h30m"]))


def m01(ctx):
    rng = random.Random(ctx.seed * 31 + 11)
    unis = [("basic", without(w.universe_basic(), cuts=[5]))]
    for k in range(8 if ctx.thorough else 2):
        unis.append(("r%d" % k, w.universe_random(rng, nnames=5)))
    run(ctx, unis, answers=True, lists=4 if ctx.thorough else 1, budget=200 if ctx.thorough else 15, length=20)


def cycle(ctx):
    """The cycle one storage operation at a time: TLC proves it, and finds each of three weaknesses when it is put in."""
    cu = dict(names=dict(n1="alpha.com", n2="beta.org"),
              certs=dict(r=dict(parent=None, exp=9, names=[]), i=dict(parent="r", exp=3, names=["n1"]),
                         a=dict(parent="i", exp=9, names=["n1", "n2"])),
              pols=dict(p="n2"), cuts=[5],
              batches=dict(B1=dict(c=dict(a="+", i="", r=""), p=[]), B2=dict(c=dict(i="+", r=""), p=["p"])))
    if ctx.thorough:
        cu["pols"]["q"] = "n1"
        cu["certs"]["b"] = dict(parent="r", exp=2, names=["n2"])
        cu["batches"]["B3"] = dict(c=dict(b="+", r=""), p=["q"])
        cu["cuts"] = [3, 5]
    w.resolve(cu)
    for k, weak in enumerate([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]):
        c = "MaskAssociations = %s\n DeleteBeforePublish = %s\n PublishBeforeWrite = %s" % tuple("TRUE" if x else "FALSE" for x in weak)
        r = ctx.tlc("MC_C%d" % k, w.mc("MC_C%d" % k, cu, "MapCycle"),
                    w.cfg(cu, "CSpec", "CView", invs=("RootComplete", "AtRest"), props=("NothingLeft",), emit=False, consts=c),
                    accept_fail=k > 0, timeout=500)
        if k == 0:
            ctx.count_tlc(r)
        elif "is violated" not in r["log"] and "violated" not in r["log"]:
            raise MachineryError("MapCycle does not show weakness %d" % k)


def u01(ctx):
    cycle(ctx)
    rng = random.Random(ctx.seed * 31 + 1)
    unis = [("basic", without(w.universe_basic(), cuts=[5]))]
    for k in range(8 if ctx.thorough else 1):
        unis.append(("r%d" % k, w.universe_random(rng, nbatches=4)))
    run(ctx, unis, crash=True, budget=300 if ctx.thorough else 25, length=12, rand=2000)
    ctx.assumptions += ["a server that is killed keeps what it has acknowledged (InnoDB durability); interruptions are those of the client and of single server threads"]


CHECKS = {"U01": ("model_checking", u01), "U02": ("model_checking", u02), "U03": ("model_checking", u03), "U04": ("model_checking", u04),
          "M01": ("model_checking", m01)}
