"""L02: the client of the log, spec/Submit.tla."""


def l02(ctx):
    exe = ctx.build()
    race = ctx.build(race=True)
    t = ctx.thorough
    q = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    fates = ["ok", "late", "never", "none", "fail", "bad"]
    base = dict(K="2", Workers="{1, 2}", Fates=q(["ok", "late", "never"]), Adds=q(["ok", "fail"]), Before="1", Others="1", MaxTries="1", Weak='"no"')
    ctx.model("MC_submit", "Submit", base, invs=("Exact", "Waits"), props=("Ends",), spec="Spec", deadlock=True, timeout=800,
              weak=[dict(Weak='"%s"' % k) for k in ("early", "deaf", "forever", "equal", "stale", "twice")])
    for k in (0, 1, 2, 3) + ((4,) if t else ()):
        cs = dict(base, K=str(k), Workers="{1, 2, 3}", Fates=q(fates if k < 4 else fates[:4]), Others="0", Before="0")
        defs = "Frozen == Init /\\ [][UNCHANGED vars]_vars"
        r = ctx.model("MC_cases%d" % k, "Submit", cs, defs, invs=("Emit",), spec="Frozen", workers=1, timeout=800)
        ctx.drive(exe, ["submit", "-cases", r["files"]["S"], "-seed", str(ctx.seed), "-every", "1" if t or k < 3 else "8"], name="submit%d" % k, timeout=800)
        if k == 3:
            ctx.drive(race, ["submit", "-cases", r["files"]["S"], "-seed", str(ctx.seed + 1), "-every", "40"], name="race", timeout=800,
                      env={"GORACE": "halt_on_error=1 exitcode=2"})


CHECKS = {"L02": ("model_checking", l02)}
