"""C05: serialisation of policy objects, spec/Codec.tla over the fields the code's types have."""
import json


def c05(ctx):
    exe = ctx.build()
    ctx.drive(exe, ["codec", "-list", ctx.path("fields.json")], name="fields")
    f = json.load(open(ctx.path("fields.json")))
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in sorted(xs)) + "}"
    defs = "FieldsC == [k \\in %s |-> CASE %s]" % (q(f["fields"]), " [] ".join('k = "%s" -> %s' % (k, q(v)) for k, v in f["fields"].items()))
    if set(f["keeps"]) - set(f["fields"]):
        raise AssertionError("kinds")
    t = ctx.thorough
    r = ctx.model("MC_codec", "Codec", dict(Kinds=q(f["fields"]), Fields="<- FieldsC", Keeps=q(f["keeps"]), MaxDepth="4" if t else "3", MaxLen="2", MaxSize="7" if t else "4", Weak='"no"'),
                  defs, invs=("RoundTrip", "KeepsText", "Rejects", "Distinct", "Emitting"), constraint="Bound", workers=1, timeout=800,
                  weak=[dict(Weak='"drops-bad-items"'), dict(Weak='"no-raw"')])
    ctx.drive(exe, ["codec", "-values", r["files"]["V"]] + (["-more", "40"] if t else []), name="codec")
    ctx.assumptions += ["strings are valid UTF-8 and times have whole-minute offsets and years up to 9999", "pointers to pointers are not serialised",
                        "the text kept is that of the object itself, without white space around it"]


CHECKS = {"C05": ("model_checking", c05)}
