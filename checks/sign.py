"""C01: signatures, spec/Signatures.tla."""
import json


def c01(ctx):
    exe = ctx.build()
    ctx.drive(exe, ["sign", "-list", ctx.path("fields.json")], name="fields")
    fields = json.load(open(ctx.path("fields.json")))
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    key = dict(a="ka", a2="ka", b="kb", n="kn", g="kg")

    def one(name, signers, contents, unw, depth, weak=()):
        defs = "KeyC == [s \\in %s |-> CASE %s]" % (q(signers), " [] ".join('s = "%s" -> "%s"' % (s, key[s]) for s in signers))
        cs = dict(Signers=q(signers), Key="<- KeyC", CanOwn=q([s for s in signers if s != "n"]), Garbled=q([s for s in signers if s == "g"]), Contents=q(contents), Unwritable=q(unw),
                  Depth=str(depth), Weak='"no"')
        r = ctx.model("MC_" + name, "Signatures", cs, defs, invs=("One",), props=("Verifies",), view="View", emit="EmitEdge", timeout=800)
        ctx.model("MC_deep" + name, "Signatures", dict(cs, Depth=str(min(depth, 5) if len(contents) < 9 else 3)), defs, invs=("Genuine", "One"), view="ViewDeep", weak=weak, timeout=800)
        ctx.drive(exe, ["sign", "-edges", r["files"]["E"]], name=name)

    t = ctx.thorough
    one("signers", ["a", "a2", "b", "n", "g"] if t else ["a", "a2", "b"], ["x", "y", "bad"] if t else ["x", "y"], ["bad"] if t else [], 5 if t else 4,
        weak=[dict(Weak='"owner-hash-uncovered"'), dict(Weak='"timestamps-uncovered"'), dict(Weak='"hash-unchecked"')])
    one("refused", ["a", "n", "g"], ["x", "bad"], ["bad"], 5 if t else 4)
    one("fields", ["a"], ["x"] + fields, [], 4 if t else 3)
    ctx.assumptions += ["RSA signatures and SHA-256 are as strong as they should be", "text is valid UTF-8"]


CHECKS = {"C01": ("model_checking", c01)}
