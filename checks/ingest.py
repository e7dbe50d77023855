"""I01, I02, I03, I04: ingestion."""
import json
import os
import random
from checks import dbworld as w


def fileset(rng, thorough):
    fixed = [("A", 0, 1, "", True), ("A", 2, 3, "", True), ("A", 4, 5, "zz", True), ("A", 1, 2, "aa", True), ("A", 3, 3, "", False), ("A", 0, 5, "aa", True), ("B", 0, 3, "", True)]
    fs = set(fixed)
    if rng is not None:
        fs = {("B", rng.randint(0, 3), 4, "", True)}
        while len(fs) < (7 if thorough else 6):
            lo = rng.randint(0, 7)
            if len(fs) == 2:  # one of the same range elsewhere
                f = next(f for f in fs if f[0] == "A")
                fs.add(f[:3] + ({"": "aa", "aa": "zz", "zz": "aa/b", "aa/b": ""}[f[3]], True))
                continue
            fs.add(("A", lo, min(8, lo + rng.choice([0, 0, 1, 1, 2, 5])), rng.choice(["", "", "aa", "zz", "aa/b"]), rng.random() < 0.75))
    return sorted(fs)


def rec(f):
    return '[d |-> "%s", lo |-> %d, hi |-> %d, sub |-> "%s", gz |-> %s]' % (f[0], f[1], f[2], f[3], "TRUE" if f[4] else "FALSE")


def journal(ctx, which):
    rng = random.Random(ctx.seed * 101 + (1 if which == "I01" else 2))
    exe = ctx.build()
    for k in range(8 if ctx.thorough else 3):
        fs = fileset(None if k == 0 else rng, ctx.thorough)
        vol = fs[:1] if which == "I01" else rng.sample(fs, 2)
        defs = "FilesC == {%s}\nVolC == {%s}" % (", ".join(map(rec, fs)), ", ".join(map(rec, vol)))
        c = dict(Dirs='{"A", "B"}', Files="<- FilesC", Volatile="<- VolC", MaxCommit="2" if which == "I01" else "1",
                 AbsorbLeft="TRUE", AbsorbAll="TRUE", Touch="TRUE")
        weak = [dict(AbsorbLeft="FALSE"), dict(AbsorbAll="FALSE"), dict(Touch="FALSE")] if k == 0 else []
        r = ctx.model("MC_Journal%d" % k, "Journal", c, defs, invs=("Canonical", "Exact", "PendingRight"), props=("Grows",), view="View", emit="EmitEdge",
                      weak=weak)
        ctx.drive(exe, ["journal", "-edges", r["files"]["E"], "-budget", "%ds" % (60 if ctx.thorough else 12)], name="journal%d" % k)
        if ctx.violations:
            return
    if which == "I01":
        ctx.drive(exe, ["journalcrash", "-runs", str(400 if ctx.thorough else 60)])
    ctx.assumptions += ["the file system renames files atomically"]


def i03(ctx):
    rng = random.Random(ctx.seed * 7)
    exe = ctx.build_inpkg("cmd/ingest", "ingest_verif_test.go", "ingest.test")
    sets = [[(0, 1), (3, 4), (4, 6)], [(1, 2), (3, 3), (6, 7)]]
    if ctx.thorough:
        sets = [[(0, 1), (3, 4), (4, 6), (7, 8)], [(1, 2), (3, 3), (6, 7)], [(0, 5), (1, 2), (6, 6)], [(0, 0), (2, 2), (3, 3)]]
    for k in range(6 if ctx.thorough else 1):
        lo = sorted(rng.sample(range(0 if k % 2 == 0 else 1, 8), 3))
        sets.append([(x, min(9, x + rng.choice([0, 1, 1, 2, 3]))) for x in lo])
    for k, fs in enumerate(sets):
        defs = "FilesC == << %s >>\nFirstC == {%s}" % (", ".join("<< %d, %d >>" % f for f in fs), "1, 2")
        c = dict(Files="<- FilesC", First="<- FirstC", Strategies='{"", "onlyingest", "skipingest", "onlysmtupdate", "recordctsize"}', Batches="{0, 1, 2}",
                 CommitLast="TRUE", PrefixSize="TRUE", StopOnFail="TRUE")
        r = ctx.model("MC_Ingest%d" % k, "Ingest", c, defs, invs=("Truthful",), props=("Keeps", "Complete"), view="View", emit="EmitEdge",
                      weak=[dict(CommitLast="FALSE"), dict(PrefixSize="FALSE"), dict(StopOnFail="FALSE")] if k == 0 else [])
        ctx.drive_inpkg(exe, "TestVerifIngest", dict(Edges=r["files"]["E"], Files=json.dumps(fs), Budget="%ds" % (40 if ctx.thorough else 10)), name="ingest%d" % k)
        if ctx.violations:
            return


def i04(ctx):
    from checks import bulk
    row = lambda i, l, ch, e=False, b=False: '[id |-> %d, leaf |-> "%s", chain |-> << %s >>, expired |-> %s, bad |-> %s]' % (
        i, l, ", ".join('"%s"' % c for c in ch), str(e).upper(), str(b).upper())
    rows = [row(1, "A", ["I", "R"]), row(2, "I", ["R"]), row(3, "B", ["I", "S"]), row(4, "C", ["J", "S"]), row(5, "D", ["K"], e=True)]
    for k, rs in enumerate([rows, rows[:3] + [row(6, "E", ["R"], b=True)]]):
        ctx.model("MC_Rows%d" % k, "Rows", dict(Rows="<- RowsC", Workers="{1, 2}", LeafFromCache="FALSE", StopAtCached="FALSE"), "RowsC == {%s}" % ", ".join(rs),
                  invs=("Complete", "Only"), props=("Ends", "Told"), weak=[dict(LeafFromCache="TRUE"), dict(StopAtCached="TRUE")] if k == 0 else [])
    rng = random.Random(ctx.seed * 31 + 6)
    exe = ctx.build_inpkg("cmd/ingest", "ingestrows_verif_test.go", "rows.test")
    port = w.mysqld(ctx)
    for k in range(4 if ctx.thorough else 1):
        streams = [rng.sample(list("abcdef"), rng.randint(1, 4)) for _ in range(4)] + [[rng.choice("abcdef")]]
        e = bulk.graph(ctx, k, streams)
        ctx.drive_inpkg(exe, "TestVerifRows", dict(Edges=e, Port=port, Budget="%ds" % (120 if ctx.thorough else 30), Hang="60s"), name="rows%d" % k)
        if ctx.violations:
            break
    ctx.assumptions += ["MySQL executes single statements as specified"]


CHECKS = {"I04": ("model_checking", i04), "I03": ("model_checking", i03), "I01": ("model_checking", lambda ctx: journal(ctx, "I01")), "I02": ("model_checking", lambda ctx: journal(ctx, "I02"))}
