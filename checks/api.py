"""M05: the interfaces of the map server, spec/Api.tla."""
import random
import checks.dbworld as w

NAMES = {"one": ["one"], "sub": ["one", "sub"], "deep": ["one", "sub", "deep"], "two": ["two"], "no": ["no"], "ill1": [], "ill2": []}
STORED = [("A", 0, "c1", "cert", "one"), ("A", 0, "c2", "cert", "sub"), ("A", 0, "p1", "policy", "one"), ("A", 1, "c3", "cert", "two"), ("A", 1, "p2", "policy", "sub"),
          ("B", 0, "c4", "cert", "two"), ("B", 0, "p3", "policy", "two"), ("B", 1, "c1", "cert", "one")]


def lists(rng, n):
    items = ["c1", "c2", "c3", "c4", "p1", "p2", "p3", "x"]
    ls = [[], ["c1"], ["c2", "c1"], ["p1", "c1", "x"], ["short"], ["c1", "nothex"], ["long", "c2"]]
    while len(ls) < n:
        l = [rng.choice(items) for _ in range(rng.randint(2, 6))]
        if rng.random() < 0.15:
            l[rng.randrange(len(l))] = rng.choice(["short", "nothex", "long"])
        ls.append(l)
    return ls


def m05(ctx):
    rng = random.Random(ctx.seed * 41 + 5)
    exe = ctx.build()
    port = w.mysqld(ctx)
    sq = lambda l: "<< %s >>" % ", ".join('"%s"' % x for x in l)
    for k in range(4 if ctx.thorough else 1):
        defs = "\n".join([
            'BaseC == [s \\in {"w1", "w2", "g1"} |-> IF s = "w2" THEN "B" ELSE "A"]',
            "StoredC == {%s}" % ", ".join('[b |-> "%s", v |-> %d, item |-> "%s", kind |-> "%s", name |-> "%s"]' % x for x in STORED),
            "ChainC == [n \\in {%s} |-> CASE %s]" % (", ".join('"%s"' % n for n in NAMES), " [] ".join('n = "%s" -> %s' % (n, sq(c)) for n, c in NAMES.items())),
            "ListsC == {%s}" % ", ".join(sq(l) for l in lists(rng, 12))])
        c = dict(Web='{"w1", "w2"}', Grpc='{"g1"}', Base="<- BaseC", Ports="{1, 2}", Versions="1", Stored="<- StoredC", Names="{%s}" % ", ".join('"%s"' % n for n in NAMES),
                 Chain="<- ChainC", Ill='{"ill1", "ill2"}', Lists="<- ListsC", Broken='{"short", "nothex", "long"}', Shared="FALSE", Lingers="FALSE", Leaks="FALSE", Deaf="FALSE")
        inv = ("OwnAnswers", "OnePerPort", "Exact")
        r = ctx.model("MC_Api%d" % k, "Api", c, defs, invs=inv + ("EmitState",), props=("Answered", "StopEnds"), view="View", emit="EmitEdge")
        if k == 0:
            ctx.model("MC_ApiWeak", "Api", c, defs, invs=inv, props=("Answered", "StopEnds"), view="View", constraint="Bound", only_weak=True,
                      weak=[dict(Shared="TRUE"), dict(Lingers="TRUE"), dict(Leaks="TRUE"), dict(Deaf="TRUE")])
        ctx.drive(exe, ["api", "-edges", r["files"]["E"], "-states", r["files"]["S"], "-port", str(port), "-budget", "%ds" % (150 if ctx.thorough else 40)], name="api%d" % k)
        if ctx.violations:
            return
    ctx.assumptions += ["MySQL and the HTTP and gRPC libraries work as documented"]


CHECKS = {"M05": ("model_checking", m05)}
