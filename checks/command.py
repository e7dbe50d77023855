"""I05: the ingest command as a whole: runs that live and die, on a journal and a database."""
import json
import os
import random

from checks import dbworld as w
from vlib import REPO


def rec(x):
    units = lambda l: "{%s}" % ", ".join("<<%d, %d>>" % tuple(u) for u in l)
    st = lambda s: "[st |-> %s, dy |-> %s, cl |-> %s, pay |-> %s, tr |-> %s, done |-> {%s}, fl |-> <<%s, %s>>, size |-> %d]" % (
        units(s["St"]), units(s["Dy"]), units(s["Cl"]), units(s["Pay"]), units(s["Tr"]), ", ".join(map(str, s["Done"])),
        str(s["Fl"][0]).upper(), str(s["Fl"][1]).upper(), s["Size"])
    return '[id |-> %d, pre |-> %s, post |-> %s, strat |-> "%s", b |-> %d, kind |-> "%s", exit |-> "%s"]' % (
        x["id"], st(x["Pre"]), st(x["Post"]), x["Strat"], x["B"], x["Kind"], x["Exit"])


def build(ctx):
    """The command, with the place of the database's socket (which is fixed in the source) replaced by one in the current directory."""
    lit, repl, found = '"/var/run/mysqld/mysqld.sock"', '"mysqld.sock"', {}
    for top in ("cmd/ingest", "pkg/db"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.endswith(".go") and not f.endswith("_test.go"):
                    p = os.path.join(d, f)
                    text = open(p).read()
                    if lit in text:
                        found[p] = ctx.write("sock-%d-%s" % (len(found), f), text.replace(lit, repl))
    return ctx.build_main("cmd/ingest", "ingest.exe", found) if found else None


def i05(ctx):
    rng = random.Random(ctx.seed * 97)
    fc = lambda fs: "FilesC == << %s >>" % ", ".join("<< %d, %d >>" % f for f in fs)
    c = dict(Files="<- FilesC", Units="1", CommitLast="TRUE", CleanLast="TRUE", MarkAgain="TRUE")
    ctx.model("MC_Command", "Command", c, fc([(0, 1), (2, 2), (5, 6)][:3 if ctx.thorough else 2]), view="View",
              invs=("DoneStored", "NotLost", "DoneMapped", "FlagTrue", "SizeTrue"), props=("Keeps", "Finished"),
              weak=[dict(CommitLast="FALSE"), dict(CleanLast="FALSE"), dict(MarkAgain="FALSE")])
    exe = build(ctx)
    if exe is None:
        ctx.assumptions.append("the command's place of the database's socket was not found in its source: the command itself was not run")
        return
    drv = ctx.build()
    port = w.mysqld(ctx)
    sets = [[(0, 1), (2, 2), (5, 6)], [(1, 3), (4, 4), (5, 9), (12, 12)]]
    for k, fs in enumerate(sets):
        f = ctx.path("runs%d.ndjson" % k)
        ctx.drive(drv, ["command", "-exe", exe, "-port", str(port), "-runs", f, "-files", json.dumps(fs), "-units", "2",
                        "-budget", "%ds" % ((300, 100)[k] if ctx.thorough else (60, 15)[k])], name="command%d" % k)
        recs = [json.loads(l) for l in open(f)]
        for i, r in enumerate(recs):
            r["id"] = i + 1
        ok = set()
        for s in range(0, len(recs), 200):
            defs = fc(fs) + "\nRunsC == {\n" + ",\n".join(rec(r) for r in recs[s:s + 200]) + "}"
            r = ctx.model("MC_CommandRuns%d_%d" % (k, s), "CommandRuns", dict(c, Units="2", Runs="<- RunsC"), defs, spec="TSpec", invs=("Accepted",))
            if "R" in r["files"]:
                ok |= {json.loads(l)["id"] for l in open(r["files"]["R"])}
        for x in recs:
            if x["id"] not in ok:
                ctx.violation("run", "a run of the command (strategy %r, batches of %d, %s %s, ended %s) leaves what the specification does not allow" % (
                    x["Strat"], x["B"], x["Kind"], x["At"], x["Exit"]), x)
        ctx.coverage["traces_validated_against_impl"] += len(recs)
        if ctx.violations:
            break
    ctx.assumptions += ["MySQL executes single statements as specified, and a statement under way when its client dies either happens or not"]


CHECKS = {"I05": ("model_checking", i05)}
