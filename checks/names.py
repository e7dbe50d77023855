"""N01: names, spec/Names.tla."""
import json, random

TEXT = dict(a="a", b="b-9", com="com", uk="uk", co="co", www="www", star="*", gh="github", io="io", ck="ck", up="COM", upa="A", hy="-a", yh="a-", us="a_b",
            empty="", uni="\u00e9", sp="a b", st="a*", s63="q" * 63, s64="q" * 64, num="7", dash="-", ph="xn--p1ai", jp="jp", kobe="kobe", city="city", local="localhost")
BAD = ["hy", "yh", "us", "empty", "uni", "sp", "st", "s64", "dash"]
PUBLIC = [["com"], ["uk"], ["co", "uk"], ["io"], ["*", "ck"], ["jp"], ["*", "kobe", "jp"], ["ph"], ["co"], ["city"], ["com", "co"], ["co", "io"], ["com", "io"], ["co", "jp"]]
PRIVATE = [["gh", "io"], ["co", "com"], ["uk", "com"]]
EXCEPT = [["www", "ck"], ["city", "kobe", "jp"]]


def seqs(ls):
    return "{" + ", ".join("<<%s>>" % ", ".join('"%s"' % lab(x) for x in l) for l in ls) + "}"


def lab(x):
    return "*" if x in ("star", "*") else x


def one(ctx, name, labels, maxl, pool=()):
    used = sorted(set(labels) | {x for p in pool for x in p} | {x for r in PUBLIC + PRIVATE + EXCEPT for x in r if x != "*"} | {"www", "star"})
    low = dict(up="com", upa="a")
    rec = lambda f: "[l \\in AllC |-> CASE " + " [] ".join('l = "%s" -> %s' % (lab(x), f(x)) for x in used) + "]"
    defs = "\n".join([
        "AllC == {%s}" % ", ".join('"%s"' % lab(x) for x in used),
        "LabelsC == {%s}" % ", ".join('"%s"' % lab(x) for x in labels),
        "SizeC == " + rec(lambda x: str(len(TEXT[x]))),
        "BadC == {%s}" % ", ".join('"%s"' % x for x in BAD if x in used),
        "LowerC == " + rec(lambda x: '"%s"' % lab(low.get(x, x))),
        "PublicC == " + seqs(PUBLIC), "PrivateC == " + seqs(PRIVATE), "ExceptC == " + seqs(EXCEPT), "PoolC == " + seqs(pool)])
    for x, l in low.items():
        if x in used and l not in used:
            raise AssertionError(l)
    r = ctx.model("MC_" + name, "Names", dict(Labels="<- LabelsC", Size="<- SizeC", Bad="<- BadC", Lower="<- LowerC", Public="<- PublicC", Private="<- PrivateC",
                                              Except="<- ExceptC", MaxLabels=str(maxl), Pool="<- PoolC"), defs, invs=("ChainRight", "AffectedRight"), emit="Emit")
    ctx.drive(ctx.build(), ["names", "-text", ctx.write("text.json", json.dumps({lab(k): v for k, v in TEXT.items()}))]
              + (["-names", r["files"]["N"]] if labels else []) + (["-sets", r["files"]["S"]] if pool else []), name=name)


def n01(ctx):
    rng = random.Random(ctx.seed * 41 + 1)
    small = ["a", "com", "co", "uk", "www", "star", "gh", "io", "ck", "up", "upa", "jp", "kobe", "city"]
    one(ctx, "suffixes", small, 4 if ctx.thorough else 3)
    one(ctx, "labels", ["a", "b", "com", "www", "star", "s63", "num", "ph", "local"] + BAD, 4 if ctx.thorough else 3)
    one(ctx, "long", ["s63", "a", "com", "star", "www"], 6 if ctx.thorough else 5)
    for k in range(12 if ctx.thorough else 2):
        pool = [["a", "com"], ["www", "a", "com"], ["b", "a", "com"], ["num", "b", "a", "com"], ["star", "b", "a", "com"], ["star", "com"], ["www", "com"],
                ["a", "co", "uk"], ["num", "a", "co", "uk"], ["star", "a", "co", "uk"], ["a", "gh", "io"], ["b", "a", "gh", "io"], ["com"], ["hy", "com"], ["local"],
                ["a", "local"], ["b", "num", "com"], ["a", "ck"], ["b", "a", "ck"], ["www", "ck"], ["a", "www", "ck"], ["star", "www", "com"], ["s63", "a", "com"]]
        rng.shuffle(pool)
        one(ctx, "sets%d" % k, [], 0, pool[:9])
    ctx.assumptions += ["the rules of the public suffix list for the suffixes used are those of the specification"]


CHECKS = {"N01": ("model_checking", n01)}
