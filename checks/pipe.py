"""P01, P02, P03: pipelines against spec/Pipeline.tla."""
import json
import os
import random
from vlib import MachineryError


def seq(xs):
    return "<<" + ", ".join(xs) + ">>"


def shape(name, n, outs, shared=(), routes=None):
    """outs[s] = list of next stages per output (a list for a shared channel).  Returns a scenario without mode and failures."""
    k = len(outs)
    snd, rcv, out, inn = [], [], [[] for _ in range(k)], [[] for _ in range(k)]
    group = {}
    for s, os in enumerate(outs):
        for t in os:
            key = (tuple(t),) if isinstance(t, (list, tuple)) else (s, len(out[s]))
            ts = list(t) if isinstance(t, (list, tuple)) else [t]
            if key in group:
                c = group[key]
                snd[c].append(s)
            else:
                c = len(snd)
                group[key] = c
                snd.append([s])
                rcv.append(ts)
                for u in ts:
                    inn[u].append(c)
            out[s].append(c)
    return dict(name=name, n=n, out=out, inn=inn, snd=snd, rcv=rcv, routes=routes)


def route_of(sh, s, x, kind):
    """Output indices (from 0) item x takes at stage s."""
    k = len(sh["out"][s])
    if k == 0:
        return []
    s = min([u for c in sh["inn"][s] for u in sh["rcv"][c]] + [s])      # stages sharing an input treat items alike
    if kind == "one":
        return [(x + s) % k]
    if kind == "all":
        return list(range(k))
    if kind == "twice":
        return [i for i in range(k) for _ in range(2)]
    if kind == "filter":
        return [] if (x + s) % 2 else [x % k]
    if kind == "burst":
        return [1] if s == 0 else [0, 0, 0] if s == 2 else [0]
    if kind == "mixed":
        return [[], [0], list(range(k)), [k - 1, 0]][(x + s) % 4]


def scenario(ident, sh, kind, fail=(), mode="conc", last=(), ends=(), auto=None, late=()):
    """Stages and channels count from 0 here, from 1 in the specification."""
    k = len(sh["out"])
    n = sh["n"]
    aff = set()
    if auto is not None:
        todo = [auto]
        while todo:
            s = todo.pop()
            for c in sh["out"][s]:
                for t in sh["rcv"][c]:
                    if t not in aff:
                        aff.add(t)
                        todo.append(t)
    late = [f for f in late if route_of(sh, f[0], f[1], kind) and f not in fail]
    return dict(id=ident, n=n, late=[list(f) for f in late], out=sh["out"], inn=sh["inn"], snd=sh["snd"], rcv=sh["rcv"], name=sh["name"], kind=kind,
                route=[[route_of(sh, s, x, kind) for x in range(1, n + k + 1)] for s in range(k)],
                fail=[list(f) for f in fail], mode=mode, last=list(last), ends=[list(e) for e in ends],
                auto=-1 if auto is None else auto, aff=sorted(aff))


def tla(c):
    s1 = lambda xs: seq(str(x + 1) for x in xs)
    sset = lambda xs: "{" + ", ".join(str(x + 1) for x in xs) + "}"
    pairs = lambda ps: "{" + ", ".join("<<%d, %d>>" % (s + 1, x) for s, x in ps) + "}"
    return ("[id |-> %d, n |-> %d, out |-> %s, in |-> %s, snd |-> %s, rcv |-> %s, route |-> %s, fail |-> %s, late |-> %s, mode |-> %s, "
            "last |-> %s, ends |-> %s, auto |-> %d, aff |-> %s]" % (
                c["id"], c["n"], seq(s1(o) for o in c["out"]), seq(s1(i) for i in c["inn"]), seq(sset(x) for x in c["snd"]),
                seq(sset(x) for x in c["rcv"]), seq(seq(s1(r) for r in q) for q in c["route"]), pairs(c["fail"]), pairs(c["late"]),
                seq('"%s"' % c["mode"] for _ in c["out"]), sset(c["last"]), pairs(c["ends"]), c["auto"] + 1, sset(c["aff"])))


SHAPES = [
    ("chain", lambda n: shape("chain", n, [[1], [2], []])),
    ("fan", lambda n: shape("fan", n, [[1, 2], [], []])),
    ("fan3", lambda n: shape("fan3", n, [[1, 2, 3], [], [], []])),
    ("diamond", lambda n: shape("diamond", n, [[1, 2], [3], [3], []])),
    ("cross", lambda n: shape("cross", n, [[1, 2], [3, 4], [3, 4], [], []])),
    ("share", lambda n: shape("share", n, [[[1, 2]], [[3]], [[3]], []])),
    ("sharex", lambda n: shape("sharex", n, [[[1, 2]], [[3, 4]], [[3, 4]], [], []])),
    ("tail", lambda n: shape("tail", n, [[1], [2, 3], [], []])),
    ("crossjoin", lambda n: shape("crossjoin", n, [[1, 2], [3, 4], [3, 4], [5], [5], []])),
    ("joined", lambda n: shape("joined", n, [[1, 2], [3], [3], [4], []])),
    ("skip", lambda n: shape("skip", n, [[1, 2], [2], []])),
]


def scenarios(ctx, rng):
    out = []
    add = lambda *a, **k: out.append(scenario(len(out) + 1, *a, **k))
    for name, f in SHAPES:
        big = name in ("cross", "fan3", "diamond", "sharex", "crossjoin", "joined")
        if name == "crossjoin":
            for mode in ("conc", "seq", "cyc"):
                for kind in ("one", "burst"):
                    sh = f(2 if kind == "one" and ctx.thorough else 1)
                    for fl in [[]] + [[(s, 1)] for s in range(6)]:
                        add(sh, kind, fl, mode)
            continue
        for mode in ("conc", "seq", "cyc"):
            for kind in ("one", "all", "twice", "filter"):
                sh = f(2 if not big or kind in ("one", "filter") else 1)
                k = len(sh["out"])
                if name == "sharex" and kind in ("all", "twice"):
                    continue
                fails = [[]] + [[(s, x)] for s in range(k) for x in range(1, sh["n"] + 1)]
                if not big:
                    fails += [[(1, 1), (k - 1, 1)], [(k - 1, 1), (k - 2, 2)]]
                for fl in fails:
                    add(sh, kind, fl, mode)
                for s in range(k if not big else 1):
                    if route_of(sh, s, 1, kind):
                        add(sh, kind, [], mode, late=[(s, 1)])
        if name == "joined":
            # items made when several inputs have all ended
            for mode in ("conc", "seq", "cyc"):
                for kind in ("one", "twice"):
                    for ls in ([3], [1, 3]):
                        add(f(1), kind, [], mode, last=ls)
                        add(f(1), kind, [(3, 2 + 3)], mode, last=ls)
                        add(f(1), kind, [(4, 2 + 3)], mode, last=ls)
            continue
        # items made when the input has ended
        for mode in ("conc", "seq"):
            sh = f(1)
            k = len(sh["out"])
            for ls in ([1], [1, k - 2]):
                ls = sorted({s for s in ls if s > 0 and sh["out"][s]})
                if ls:
                    add(sh, "one", [], mode, last=ls)
                    add(sh, "one", [(ls[0], sh["n"] + 1 + ls[0])], mode, last=ls)
                    add(sh, "one", [(k - 1, sh["n"] + 1 + ls[0])], mode, last=ls)
    # stages that ask to end and are started again
    for name, auto in (("chain", 0), ("chain", 1), ("chain", 2), ("fan", 0), ("diamond", 0), ("diamond", 3), ("tail", 1)):
        f = dict(SHAPES)[name]
        for mode in ("conc", "seq", "cyc"):
            for es in ([1], [2], [1, 2], [1, 2, 3]):
                sh = f(3)
                k = len(sh["out"])
                add(sh, "one", [], mode, ends=[(auto, x) for x in es], auto=auto)
                add(sh, "one", [(rng.randrange(k), rng.randint(1, 3))], mode, ends=[(auto, x) for x in es], auto=auto)
    return out


def large(ctx, rng, first, n):
    """Random layered shapes with many items."""
    out = []
    while len(out) < n:
        layers = [1] + [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
        start = [sum(layers[:i]) for i in range(len(layers))]
        k = sum(layers)
        outs = [[] for _ in range(k)]
        w = ""
        for li in range(len(layers) - 1):
            last = w
            here = range(start[li], start[li] + layers[li])
            nxt = list(range(start[li + 1], start[li + 1] + layers[li + 1]))
            w = rng.choice(["share", "cross"] + (["pair"] if last != "share" else []))
            for s in here:
                if w == "share":
                    outs[s] = [nxt]
                elif w == "cross" or layers[li] != layers[li + 1]:
                    outs[s] = list(nxt)
                else:
                    outs[s] = [nxt[s - start[li]]]
        sh = shape("large", rng.choice([3, 10, 40]), outs)
        kind = rng.choice(["one", "one", "filter", "all", "mixed"])
        if kind == "all" and k > 8:
            continue
        fl = [] if rng.random() < 0.5 else [(rng.randrange(k), rng.randint(1, sh["n"])) for _ in range(rng.randint(1, 3))]
        ls = [s for s in range(1, k) if sh["out"][s] and rng.random() < 0.2]
        # items of their own that pass through shared stages would need equal treatment by construction, which route_of gives
        out.append(scenario(first + len(out), sh, kind, fl, rng.choice(["conc", "seq", "cyc"]), last=ls,
                            late=[(rng.randrange(k), rng.randint(1, sh["n"]))] if rng.random() < 0.2 else []))
    return out


CONSTS = dict(GiveUpTogether="TRUE", ReportFirst="TRUE", ReadAll="TRUE", TellEnd="TRUE", Discard="TRUE")


INVS = ("AtMostOnce", "SuccessMeansAll", "FailureIsTold", "AllDone", "InOrder")


def model(ctx, scen):
    rng = random.Random(ctx.seed)
    # the weaknesses show up in these
    small = [c for c in scen if (c["fail"] or c["auto"] >= 0) and c["name"] in ("chain", "fan", "diamond", "share") and c["kind"] in ("one", "twice")]
    small = random.Random(1).sample(small, 60) + [c for c in scen if c["name"] == "cross" and c["kind"] == "twice" and c["fail"] == [[3, 1]] and c["mode"] == "conc"] + [c for c in scen if c["name"] == "crossjoin" and c["kind"] == "burst" and c["fail"] == [[3, 1]] and c["mode"] == "conc"]
    if not ctx.thorough:
        heavy = lambda c: c["name"] == "crossjoin" or (c["name"] in ("cross", "fan3", "diamond", "sharex", "joined") and c["kind"] in ("all", "twice"))
        hs = [c for c in scen if heavy(c) and not (c["name"] in ("cross", "crossjoin") and c["kind"] in ("burst", "twice"))]
        scen = rng.sample([c for c in scen if not heavy(c)], 120) + rng.sample(hs, 5)
    text = lambda cs: "{\n" + ",\n".join(tla(c) for c in cs) + "}"
    ctx.model("MC_Pipe", "Pipeline", dict(CONSTS, Scenarios="<- ScenC"), "ScenC == " + text(scen), invs=INVS, props=("NothingMore",), deadlock=True,
              timeout=800)
    ctx.model("MC_PipeW", "Pipeline", dict(CONSTS, Scenarios="<- ScenC"), "ScenC == " + text(small), invs=INVS, props=("NothingMore",), deadlock=True,
              timeout=800, only_weak=not ctx.thorough, weak=[dict(Discard="FALSE"), dict(TellEnd="FALSE"), dict(GiveUpTogether="FALSE"), dict(ReadAll="FALSE")])


def recorded(ctx, scen, recs, name="Runs"):
    """Which of the recorded runs are runs of the specification?  recs: dicts id, sc, got (per stage), ret (stages, from 0)."""
    used = {r["sc"] for r in recs}
    byid = {c["id"]: c for c in scen}
    one = lambda r: "[id |-> %d, sc |-> %d, got |-> %s, ret |-> {%s}]" % (
        r["id"], r["sc"], seq(seq(str(x) for x in g or []) for g in r["got"]), ", ".join(str(s + 1) for s in r["ret"] or []))
    defs = ("ScenC == {\n" + ",\n".join(tla(byid[i]) for i in sorted(used)) + "}\nRecsC == {\n" + ",\n".join(one(r) for r in recs) + "}")
    r = ctx.model(name, "PipelineRuns", dict(CONSTS, Scenarios="<- ScenC", Recs="<- RecsC"), defs, invs=("Matches",), spec="RSpec", constraint="Follows",
                  timeout=800)
    found = set()
    if "R" in r["files"]:
        found = {json.loads(l)["id"] for l in open(r["files"]["R"])}
    return [x for x in recs if x["id"] not in found]


def run(ctx, failing):
    rng = random.Random(ctx.seed * 7919 + 1)
    scen = scenarios(ctx, rng)
    model(ctx, scen)
    big = large(ctx, rng, len(scen) + 1, 400 if ctx.thorough else 60)
    r = ctx.tlc("Due", "---- MODULE Due ----\nEXTENDS PipelineDue\nScenC == {\n" + ",\n".join(tla(c) for c in big) + "}\n====\n",
                "CONSTANT Scen <- ScenC\nSPECIFICATION DSpec\nCHECK_DEADLOCK FALSE\n")
    tab = {}
    for l in open(r["files"]["D"]):
        d = json.loads(l)
        tab[d["id"]] = d["due"]
    for c in big:
        c["due"] = tab[c["id"]]
    pick = [c for c in scen if bool(c["fail"] or c["late"]) == failing]
    rest = [c for c in scen if bool(c["fail"] or c["late"]) != failing]
    f = ctx.write("scen.json", json.dumps(dict(small=pick, other=rest, large=big)))
    exe = ctx.build()
    recf = ctx.path("runs.ndjson")
    ctx.drive(exe, ["pipe", "-scen", f, "-runs", recf, "-failing=%s" % str(failing).lower(), "-budget", "%ds" % (400 if ctx.thorough else 25)], timeout=800)
    recs = [json.loads(l) for l in open(recf)] if os.path.exists(recf) else []
    byid = {c["id"]: c for c in scen}
    if recs and not ctx.violations:
        bad = recorded(ctx, scen, recs)
        for x in bad:
            c = byid[x["sc"]]
            ctx.violation("run-%s" % c["name"], "a run of a %s pipeline (%s outputs, items %s) is none the specification allows: processed %s, told %s" % (
                c["name"], c["mode"], c["kind"], x["got"], x["ret"]), dict(scenario=c, run=x))
        ctx.coverage["traces_validated_against_impl"] += len(recs)
        ctx.coverage["recorded_outcomes"] = len(recs)
    ctx.assumptions += ["goroutine schedules are sampled in the real code (with added delays) and enumerated in the specification"]


CHECKS = {"P01": ("model_checking", lambda ctx: run(ctx, False)), "P02": ("model_checking", lambda ctx: run(ctx, True))}
