"""Machinery shared by all checks: scratch space, TLC, the Go drivers, verdicts and evidence.

A check's verdict comes only from what the code under /repo did, compared with what the TLA+ specification
allows.  If TLC rejects the specification itself, or something of the machinery fails, the check ends with
exit code 2 (an error, not a violation).
"""
import json, os, re, shutil, signal, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only while developing


class MachineryError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GONOSUMDB="*", GOSUMDB="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("MYSQL_USER", "MYSQL_PASSWORD", "MYSQL_HOST", "MYSQL_PORT", "EXPENSIVE_TEST"):
        e.pop(k, None)
    return e


class Ctx:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        self.coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.tlc_runs = []
        self.assumptions = []
        self.violations = []
        self.procs = []
        self.cleanups = []

    thorough = property(lambda self: self.tier == "thorough")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    # ------------------------------------------------------------------ TLC
    def tlc(self, name, mc, cfg, workers=8, timeout=600, extra=(), heap="6g", simulate=None, accept_fail=False):
        """Run TLC on module text `mc` named `name` that EXTENDS modules of /verif/spec.
        Lines printed as "@X {json}" are collected into files <name>.X.ndjson in the scratch directory.
        Returns a dict with generated/distinct/depth and the emitted files."""
        d = self.path("tlc-" + name)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write(mc)
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", name + ".cfg"]
        if simulate:
            cmd += ["-simulate"] + ([simulate] if isinstance(simulate, str) else []) + ["-seed", str(self.seed)]
        cmd += list(extra) + [name + ".tla"]
        t = time.time()
        files, counts = {}, {}
        rest = []
        try:
            p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                 start_new_session=True)
        except OSError as e:
            raise MachineryError("cannot start TLC: %s" % e)
        import threading
        timer = threading.Timer(timeout, lambda: os.killpg(p.pid, signal.SIGKILL))
        timer.start()
        for line in p.stdout:
            if line.startswith('"@'):
                s = json.loads(line)
                tag, body = s[1:].split(" ", 1)
                if tag not in files:
                    files[tag] = open(self.path("%s.%s.ndjson" % (name, tag)), "w")
                    counts[tag] = 0
                files[tag].write(body + "\n")
                counts[tag] += 1
            else:
                rest.append(line)
        p.wait()
        timer.cancel()
        for f in files.values():
            f.close()
        text = "".join(rest)
        with open(self.path(name + ".tlc.log"), "w") as f:
            f.write(text)
        r = dict(name=name, ok=p.returncode == 0, rc=p.returncode, wall_s=round(time.time() - t, 1),
                 files={k: self.path("%s.%s.ndjson" % (name, k)) for k in files}, counts=counts, log=text)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if m:
            r["generated"], r["distinct"] = [int(x.replace(",", "")) for x in m[-1]]
        else:
            m = re.findall(r"([\d,]+) states generated", text)
            r["generated"] = int(m[-1].replace(",", "")) if m else 0
            r["distinct"] = 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", text)
        r["depth"] = int(m[-1]) if m else None
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if not r["ok"] and not accept_fail:
            tail = "".join(rest[-60:])
            raise MachineryError("TLC on %s failed (rc %s):\n%s" % (name, p.returncode, tail))
        self.log("TLC %-16s %d states generated, %d distinct, depth %s, %.1fs %s" %
                 (name, r["generated"], r["distinct"], r["depth"], r["wall_s"], counts or ""))
        return r

    def model(self, name, module, consts, defs="", invs=(), props=(), spec="Spec", view="", weak=(), timeout=600, emit="",
              workers=None, constraint="", deadlock=False, only_weak=False):
        """Check a module, and that each of its weaknesses (constants with other values) violates what is checked.
        consts: cfg lines "X = v" / "X <- v" by name."""
        def one(nm, cs, bad):
            mc = "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (nm, module, defs)
            cfg = "SPECIFICATION %s\n" % spec
            if cs:
                cfg += "CONSTANTS\n" + "".join(" %s %s\n" % (k, v if v.startswith("<-") else "= " + v) for k, v in cs.items())
            cfg += ("VIEW %s\n" % view if view else "") + ("INVARIANTS %s\n" % " ".join(invs) if invs else "")
            cfg += ("PROPERTIES %s\n" % " ".join(props) if props else "") + ("CONSTRAINT %s\n" % constraint if constraint else "")
            if emit and not bad:
                cfg += "ACTION_CONSTRAINT %s\n" % emit
            cfg += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
            w = workers or (1 if emit and not bad else (2 if bad else 8))
            r = self.tlc(nm, mc, cfg, workers=w, timeout=timeout, accept_fail=bad)
            if bad and not re.search("is violated|was violated|were violated|properties were violated|Deadlock reached", r["log"]):
                raise MachineryError("%s does not show the weakness %s:\n%s" % (module, nm, r["log"][-2000:]))
            return r
        r = None
        if not only_weak:
            r = one(name, consts, False)
            self.count_tlc(r)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            jobs = [ex.submit(one, "%s_w%d" % (name, i + 1), dict(consts, **w), True) for i, w in enumerate(weak)]
            for j in jobs:
                j.result()
        return r

    def count_tlc(self, r):
        self.coverage["states"] += r["distinct"]
        self.coverage["transitions"] += r["generated"]
        self.tlc_runs.append({k: r[k] for k in ("name", "generated", "distinct", "depth", "wall_s")})

    # ------------------------------------------------------------------ Go drivers
    def build(self, pkg="./cmd/vdrv", out="vdrv", race=False, test=False, tags=None):
        """Build a driver against /repo's current working tree (go.mod/go.sum of the harness are copies, so that the
        committed ones never change)."""
        t = time.time()
        mod = self.path("go.mod")
        with open(os.path.join(HARNESS, "go.mod")) as f, open(mod, "w") as g:
            g.write(f.read().replace("fpki => /repo", "fpki => " + REPO))
        shutil.copy(os.path.join(HARNESS, "go.sum"), self.path("go.sum"))
        cmd = ["go", "test", "-c"] if test else ["go", "build"]
        cmd += ["-modfile", mod]
        if race:
            cmd += ["-race"]
        if tags:
            cmd += ["-tags", tags]
        cmd += ["-o", self.path(out), pkg]
        p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=800)
        if p.returncode != 0:
            raise MachineryError("building %s against /repo failed:\n%s" % (pkg, p.stdout[-4000:]))
        self.log("built %s in %.1fs" % (out, time.time() - t))
        return self.path(out)

    def build_inpkg(self, pkg, src, out, race=False):
        """Build a test binary of a package of /repo, with the file /verif/harness/inpkg/<src> overlaid into it."""
        t = time.time()
        d = self.path("mod-" + out)
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
        with open(os.path.join(REPO, "go.mod")) as f:
            mod = f.read()
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write(mod + "\nrequire fpkiverif v0.0.0\nreplace fpkiverif => %s\n" % os.path.join(d, "fpkiverif"))
        # only the shared library, which needs nothing but the standard library
        shutil.copytree(os.path.join(HARNESS, "lib"), os.path.join(d, "fpkiverif", "lib"), dirs_exist_ok=True)
        with open(os.path.join(d, "fpkiverif", "go.mod"), "w") as f:
            f.write("module fpkiverif\n\ngo 1.25.0\n")
        with open(os.path.join(d, "overlay.json"), "w") as f:
            json.dump({"Replace": {os.path.join(REPO, pkg, "zz_verif_test.go"): os.path.join(HARNESS, "inpkg", src)}}, f)
        cmd = ["go", "test", "-c", "-modfile", os.path.join(d, "go.mod"), "-overlay", os.path.join(d, "overlay.json")]
        cmd += (["-race"] if race else []) + ["-o", self.path(out), "./" + pkg]
        p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise MachineryError("building %s in %s failed:\n%s" % (src, pkg, p.stdout[-4000:]))
        self.log("built %s in %.1fs" % (out, time.time() - t))
        return self.path(out)

    def build_main(self, pkg, out, overlay):
        """Build a command of /repo, with some of its files replaced."""
        f = self.write("overlay-%s.json" % out, json.dumps({"Replace": overlay}))
        d = self.path("mod-" + out)
        os.makedirs(d, exist_ok=True)
        for n in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, n), os.path.join(d, n))
        p = subprocess.run(["go", "build", "-modfile", os.path.join(d, "go.mod"), "-overlay", f, "-o", self.path(out), "./" + pkg], cwd=REPO, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise MachineryError("building %s failed:\n%s" % (pkg, p.stdout[-4000:]))
        return self.path(out)

    def drive_inpkg(self, exe, test, args, **kw):
        """Run a test function of a binary of build_inpkg as a driver."""
        return self.drive(exe, ["-test.run", "^%s$" % test, "-test.timeout", "900s"], inpkg=args, **kw)

    def drive(self, exe, args, timeout=700, env=None, name=None, crash_is_violation=True, cwd=None, inpkg=None):
        """Run a driver; it writes its result as JSON to the file given with -out."""
        name = name or args[0]
        out = self.path("result-%s.json" % name)
        logf = self.path("driver-%s.log" % name)
        e = goenv()
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TIER"] = self.tier
        e["VERIF_SCRATCH"] = self.scratch
        e["GOTRACEBACK"] = "all"
        e.update(env or {})
        tail = ["-out", out]
        if inpkg is not None:
            e["VERIF_ARGS"] = json.dumps(inpkg)
            e["VERIF_OUT"] = out
            tail = []
        t = time.time()
        if os.path.exists(out):
            os.remove(out)
        with open(logf, "w") as lf:
            p = subprocess.Popen([exe] + list(args) + tail, stdout=lf, stderr=subprocess.STDOUT, env=e,
                                 cwd=cwd or self.scratch, start_new_session=True)
            try:
                p.wait(timeout=timeout)
                timed_out = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGQUIT)
                time.sleep(2)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                timed_out = True
        with open(logf, errors="replace") as f:
            log = f.read()
        if timed_out:
            raise MachineryError("driver %s did not finish within %ds; log tail:\n%s" % (name, timeout, log[-3000:]))
        if p.returncode != 0 or not os.path.exists(out):
            crash = repo_crash(log)
            if crash and crash_is_violation:
                self.log("driver %s: the code under test crashed" % name)
                # progress file: what the driver was doing
                doing = ""
                pf = self.path("doing.json")
                if os.path.exists(pf):
                    doing = open(pf, errors="replace").read()[-20000:]
                self.violation("crash", ("the code under test crashed the process: " if crash["msg"] != "data race" else "the code under test has a ") + crash["msg"],
                               dict(driver=[os.path.basename(exe)] + list(args), crash=crash, doing=doing))
                return dict(evaluations=0, traces=0, samples=[], violations=[], notes={})
            raise MachineryError("driver %s failed (rc %s):\n%s" % (name, p.returncode, log[-4000:]))
        r = json.load(open(out))
        self.log("driver %-14s %d traces, %d evaluations, %d violations, %.1fs" %
                 (name, r.get("traces", 0), r.get("evaluations", 0), len(r.get("violations") or []), time.time() - t))
        self.absorb(r, name)
        return r

    def absorb(self, r, name):
        c = self.coverage
        c["traces_validated_against_impl"] += r.get("traces", 0)
        for s in (r.get("samples") or [])[:4]:
            if len(c["samples"]) < 12:
                c["samples"].append(s)
        if "evaluations" in r:
            c["evaluations"] = c.get("evaluations", 0) + r["evaluations"]
        if r.get("notes"):
            c.setdefault("notes", {})[name] = r["notes"]
        for v in r.get("violations") or []:
            self.violation(v.get("key", "?"), v.get("what", "?"), v.get("replay", {}))

    # ------------------------------------------------------------------ verdict
    def violation(self, key, what, replay):
        self.violations.append(dict(key=key, what=what, replay=replay))

    def finish(self):
        known = load_known(self.prop)
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        new = []
        seen_known = {}
        for v in self.violations:
            k = next((x for x in known if re.fullmatch(x["key"], v["key"])), None)
            if k:
                seen_known.setdefault(k["key"], v)
            else:
                new.append(v)
        for k in known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, k["desc"],
                  "" if k["key"] in seen_known else " (not reached in this run)"))
        rc = 0
        shown = {}
        for v in new:
            if shown.get(v["key"], 0) >= 2 or len(shown) >= 8:
                continue
            shown[v["key"]] = shown.get(v["key"], 0) + 1
            rc = 1
            f = os.path.join(evd, "replay-%s-%d.json" % (self.prop, sum(shown.values())))
            with open(f, "w") as fh:
                json.dump(dict(property=self.prop, key=v["key"], what=v["what"], seed=self.seed, tier=self.tier,
                               replay=v["replay"]), fh, indent=1)
            print("  %s: %s" % (v["key"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
        c = self.coverage
        c["tlc_runs"] = self.tlc_runs
        if not c["samples"]:
            c["samples"] = ["(none)"]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=c,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done: %d violations, %d known" % (len(new), len(seen_known)))
        return rc

    def close(self):
        for f in reversed(self.cleanups):
            try:
                f()
            except Exception as e:
                print("cleanup:", e, file=sys.stderr)
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)


def repo_crash(log):
    """If the log shows a Go panic or fatal error raised in code of /repo, return what and where."""
    m = re.search(r"^(panic: .*|fatal error: .*|SIGSEGV.*)$", log, re.M)
    r = re.search(r"^WARNING: DATA RACE\n(.*?)^==================", log, re.M | re.S)
    if r and (not m or r.start() < m.start()):
        # the two accesses, of which the code nearest is that of /repo for at least one
        for block in re.split(r"\n\n", r.group(1))[:2]:
            names = [n for n in re.findall(r"^  (\S+)\(", block, re.M)
                     if n.startswith(("github.com/netsec-ethz/fpki/", "main.", "fpkiverif/"))]
            if names and names[0].startswith("github.com/netsec-ethz/fpki/"):
                return dict(msg="data race", frames=r.group(1).splitlines()[:60])
        return None
    if not m:
        return None
    tail = log[m.start():]
    # frames of the goroutine that crashed: up to the first blank line after the "goroutine ... [running]" header
    g = re.search(r"goroutine \d+ .*?:\n(.*?)(\n\n|\Z)", tail, re.S)
    frames = re.findall(r"^(\S+)\(.*\)$|^(\S+)\(\.\.\.\)$", g.group(1), re.M) if g else []
    names = [a or b for a, b in frames]
    for n in names:
        if n.startswith(("runtime.", "runtime/", "panic", "testing.", "sync.", "internal/")):
            continue
        if n.startswith("github.com/netsec-ethz/fpki/"):
            return dict(msg=m.group(1)[:500], frames=names[:15])
        if n.startswith(("main.", "fpkiverif/")):
            return None
    # a crash in a library called from /repo
    for n in names:
        if n.startswith("github.com/netsec-ethz/fpki/"):
            return dict(msg=m.group(1)[:500], frames=names[:15])
    if m.group(1).startswith("fatal error: all goroutines are asleep") and "netsec-ethz/fpki" in tail:
        return dict(msg=m.group(1)[:500], frames=names[:15])
    return None


def load_known(prop):
    """known-findings.txt: lines 'finding: property=<id> key=<regex> <what fails>' suppress exactly the violations with
    that key; lines 'fixed: ...' are a record only."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), desc=m.group(3)))
    return out


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: run.py <%s>" % "|".join(sorted(registry)))
        sys.exit(2)
    prop = sys.argv[1]
    level, fn = registry[prop]
    ctx = Ctx(prop, level)

    def onterm(*_):
        raise MachineryError("terminated")
    signal.signal(signal.SIGTERM, onterm)
    rc = 2
    try:
        fn(ctx)
        rc = ctx.finish()
    except MachineryError as e:
        # a violation that was already established stands
        if ctx.violations:
            print("note: the check did not complete: %s" % str(e)[-1500:])
            rc = ctx.finish()
            if rc == 0:
                rc = 2
        else:
            print("ERROR: %s" % e)
            rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.exit(rc)
