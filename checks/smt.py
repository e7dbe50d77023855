"""T01, T02: the sparse Merkle tree against spec/SMT.tla."""
import json, random

MC = """---- MODULE MC_%(name)s ----
EXTENDS SMT
KeysC == {%(keys)s}
AbsentC == {%(absent)s}
BitsC == [%(bits)s]
Emit == TLCGet("distinct") > 0 /\\ EmitContents
====
"""
CFG = """SPECIFICATION Spec
CONSTANTS
 Keys <- KeysC
 Absent <- AbsentC
 Bits <- BitsC
 Vals = {%(vals)s}
 Height = 256
 MaxBatch = %(maxbatch)d
VIEW View
INVARIANT TypeOK
PROPERTY Faithful
ACTION_CONSTRAINT EmitEdge
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
"""
DEPTHS = {
    "top": [0, 1, 2, 3, 4, 5],                 # around the first batch boundary
    "batch": [3, 4, 5, 7, 8, 9, 11, 12],       # batch boundaries
    "cache": [22, 23, 24, 27, 28, 29, 31, 32], # around the cache limits
    "deep": [251, 252, 253, 254, 255],         # the lowest batch
    "mixed": [0, 3, 4, 8, 30, 60, 128, 200, 252, 255],
}


def layout(rng, names, kind):
    """Distinct bit sequences whose pairwise branching points lie at the depths of the kind."""
    ds = DEPTHS[kind]
    n = max(ds) + 1
    while True:
        keys = [[rng.randint(0, 1) for _ in range(n)]]
        while len(keys) < len(names):
            k = list(rng.choice(keys))
            d = rng.choice(ds)
            k[d] ^= 1
            for i in range(d + 1, n):
                if rng.random() < 0.5:
                    k[i] = rng.randint(0, 1)
            keys.append(k)
        if len({tuple(k) for k in keys}) == len(names):
            rng.shuffle(keys)
            return dict(zip(names, keys))


def smt(ctx):
    rng = random.Random(ctx.seed * 7919 + 1)
    exe = ctx.build()
    plan = [("top", 3, 2, 3), ("batch", 4, 1, 4), ("deep", 4, 1, 4), ("mixed", 4, 1, 4), ("cache", 4, 1, 4)]
    if ctx.thorough:
        plan += [(k, 4, 1, 4) for k in DEPTHS for _ in range(4)] + [(k, 3, 2, 3) for k in DEPTHS for _ in range(3)]
        plan += [("batch", 5, 1, 5), ("top", 5, 1, 5)]
    for i, (kind, nk, nv, mb) in enumerate(plan):
        keys = list("abcdefg")[:nk]
        absent = ["x", "y"]
        lay = layout(rng, keys + absent, kind)
        name = "%s%d" % (kind, i)
        p = dict(name=name, keys=",".join('"%s"' % k for k in keys), absent=",".join('"%s"' % k for k in absent),
                 bits=", ".join("%s |-> <<%s>>" % (k, ",".join(map(str, v))) for k, v in lay.items()),
                 vals=",".join('"v%d"' % (j + 1) for j in range(nv)), maxbatch=mb)
        r = ctx.tlc("MC_" + name, MC % p, CFG % p, workers=1, timeout=300)
        ctx.count_tlc(r)
        lf = ctx.write("layout-%s.json" % name, json.dumps(lay) + "\n")
        ctx.drive(exe, ["smt", "-prop", ctx.prop, "-edges", r["files"]["E"], "-obs", r["files"]["O"], "-layout", lf,
                        "-name", name, "-random", "400" if ctx.thorough else "60",
                        "-large", ("12" if ctx.thorough else "4") if i == 0 else "0"], name="smt-" + name)
        if len(ctx.violations) >= 6:
            break
    ctx.assumptions += ["SHA-256 is collision-free on the hashed strings", "the storage of tree nodes is an in-memory map here; the MySQL-backed storage is exercised by U01 and U03"]


MCP = """---- MODULE MC_P ----
EXTENDS SMTProof
KeysC == {%(keys)s}
AbsentC == {%(absent)s}
BitsC == [%(bits)s]
====
"""
CFGP = """SPECIFICATION PSpec
CONSTANTS
 Keys <- KeysC
 Absent <- AbsentC
 Bits <- BitsC
 Vals = {"v1"}
 Height = 256
 MaxDepth = %(depth)d
 FactBytes = {0,255,254,253}
INVARIANTS %(inv)s
%(emit)s
CHECK_DEADLOCK FALSE
"""


def smtproof(ctx):
    rng = random.Random(ctx.seed * 7919 + 3)
    exe = ctx.build()
    layouts = [dict(a=[0, 0, 0, 0], b=[0, 1, 0, 1], c=[0, 1, 1, 1], x=[1, 0, 1, 0], y=[0, 0, 1, 0]),   # right half empty
               dict(a=[1, 0, 0, 0], b=[1, 1, 0, 1], c=[1, 1, 1, 1], x=[0, 0, 1, 0], y=[1, 1, 0, 0]),   # left half empty
               layout(rng, ["a", "b", "c", "x", "y"], "top")]
    if ctx.thorough:
        layouts += [layout(rng, ["a", "b", "c", "x", "y"], "top") for _ in range(12)]
    for i, lay in enumerate(layouts):
        p = dict(keys='"a","b","c"', absent='"x","y"', depth=6, emit="ACTION_CONSTRAINT EmitClaim", inv="Sound Complete",
                 bits=", ".join("%s |-> <<%s>>" % (k, ",".join(map(str, (v + [0] * 8)[:8]))) for k, v in lay.items()))
        r = ctx.tlc("MC_P", MCP % p, CFGP % p, workers=1, timeout=300)
        ctx.count_tlc(r)
        if i == 0:
            # the weaknesses are real in the model: TLC finds forgeries when the checks are left out
            for inv in ("SoundWithoutLengths", "SoundWithShift"):
                q = ctx.tlc("MC_P", MCP % p, CFGP % dict(p, inv=inv, emit=""), timeout=300, accept_fail=True)
                if "Invariant %s is violated" % inv not in q["log"]:
                    from vlib import MachineryError
                    raise MachineryError("the model does not show the forgery for " + inv)
        lf = ctx.write("layout-p%d.json" % i, json.dumps(lay) + "\n")
        args = ["smtproof", "-claims", r["files"]["C"], "-layout", lf, "-rounds", "12" if ctx.thorough else "3"]
        if i in (0, 2) or ctx.thorough:
            q = dict(p, name="pobs", vals='"v1","v2"', maxbatch=1)
            o = ctx.tlc("MC_pobs", MC % q, CFG % q, workers=1, timeout=300)
            ctx.count_tlc(o)
            args += ["-obs", o["files"]["O"]]
        ctx.drive(exe, args, name="smtproof-%d" % i)
    ctx.assumptions += ["SHA-256 is collision-free; the adversary may fix single bytes of hashes by trial"]


CHECKS = {"T01": ("model_checking", smt), "T02": ("model_checking", smt), "T03": ("model_checking", smtproof)}
