"""C02: constraints of issuers, spec/Constraints.tla. C04: attributes of policies, spec/Attributes.tla."""
import json, random


def tset(xs):
    return "{" + ", ".join(xs) + "}"


def tseq(l):
    return "<<%s>>" % ", ".join('"%s"' % x for x in l)


def c02(ctx):
    rng = random.Random(ctx.seed * 53 + 7)
    labels = {"a": "a", "xa": "xa", "c": "com", "xc": "xcom", "b": "b", "w": "*", "e": ""}
    pool = [[], ["c"], ["a", "c"], ["xa", "c"], ["b", "a", "c"], ["b", "xa", "c"], ["a", "xc"], ["a"], ["xc"], ["c", "a"], ["b", "a", "c", "c"], ["w", "a", "c"], ["a", "b"],
            ["b", "c"], ["a", "a", "c"], ["c", "c"], ["b"]]
    bad = [["a", "e", "c"], ["e", "a", "c"], ["e", "e"]]
    runs = [("ticks", [[], ["c"], ["a", "c"], ["xa", "c"]], [["e", "a", "c"]], 4, 3), ("names", pool, bad, 2, 3)]
    if ctx.thorough:
        runs = [("ticks", pool[:6], bad[:1], 5, 3), ("names", pool, bad, 2, 4)]
        for k in range(4):
            p = [[]] + [[rng.choice(["a", "xa", "c", "xc", "b", "w"]) for _ in range(rng.randint(1, 4))] for _ in range(18)]
            runs.append(("random%d" % k, [list(x) for x in sorted(set(map(tuple, p)))], bad, 2, 4))
    for name, good, ill, ticks, depth in runs:
        doms = good + ill
        text = ['d = %s -> <<%s>>' % (tseq(d), ", ".join('"%s"' % ch for ch in ".".join(labels[x] for x in d))) for d in doms]
        defs = "\n".join(["DomainsC == " + tset(map(tseq, doms)), "IllC == " + tset(map(tseq, ill)), "TextC == [d \\in DomainsC |-> CASE %s]" % " [] ".join(text)])
        r = ctx.model("MC_" + name, "Constraints", dict(Domains="<- DomainsC", Text="<- TextC", IllFormed="<- IllC", Ticks=tset(str(k + 1) for k in range(ticks)), MaxChain=str(depth), Rule='"labels"'),
                      defs, invs=("Nested", "Contained"), props=("SelfLike", "Free"), view="View", emit="Emit",
                      weak=[dict(Rule='"text"'), dict(Rule='"inverted"')] if name == "names" else [dict(Rule='"overlap"')])
        ctx.drive(ctx.build(), ["constraints", "-decisions", r["files"]["D"], "-text", ctx.write("text.json", json.dumps(labels))], name=name)
    ctx.assumptions += ["domains are written without a trailing dot", "no certificate ends before it starts"]


def c04(ctx):
    labels = {"a": "a", "b": "b", "*": "*", "d": "x.y", "s": "sub", "e": "example", "xe": "xexample", "c": "com"}
    doms = [["e", "c"], ["c"], ["a", "e", "c"]]
    names = [["e", "c"], ["c"], ["a", "e", "c"], ["b", "e", "c"], ["s", "e", "c"], ["a", "b", "e", "c"], ["b", "a", "e", "c"], ["s", "a", "e", "c"], ["xe", "c"], ["a", "xe", "c"],
             ["s", "s", "a", "e", "c"], ["*", "e", "c"], ["a", "c"], ["a"], ["e"], ["c", "e"], ["*", "b", "e", "c"]]
    n = 4 if ctx.thorough else 3
    defs = "\n".join(['LabelsC == {"a", "b", "*", "d"%s}' % (', "e"' if ctx.thorough else ""), "DomainsC == " + tset(map(tseq, doms)), "NamesC == " + tset(map(tseq, names))])
    r = ctx.model("MC_attributes", "Attributes", dict(Labels="<- LabelsC", Dotted='{"d"}', CAs='{"ca1", "ca2"}', Domains="<- DomainsC", Names="<- NamesC", MaxEntries=str(n), Weak='"no"'),
                  defs, invs=("WholeBranch", "Outside", "Forbidden"), props=("OwnEntry", "Grow"), emit="Emit", weak=[dict(Weak='"first-label"'), dict(Weak='"wildcard-first"')])
    ctx.drive(ctx.build(), ["attributes", "-sets", r["files"]["A"], "-text", ctx.write("text.json", json.dumps(labels))], name="attributes")
    ctx.assumptions += ["verdicts are asked of attribute sets that are accepted only"]


CHECKS = {"C02": ("model_checking", c02), "C04": ("model_checking", c04)}
