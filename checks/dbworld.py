"""Shared by the checks that run on the database: a private mysqld, universes of certificates and names, TLC models."""
import json, os, random, shutil, signal, socket, subprocess, time
from vlib import MachineryError

MYCNF = """[mysqld]
user = root
bind-address = 127.0.0.1
port = %(port)d
socket = %(dir)s/sock
pid-file = %(dir)s/pid
mysqlx = OFF
max_allowed_packet = 1G
secure_file_priv = /mnt/data/tmp/
open_files_limit = 10000
max_connections = 600
innodb_page_size = 64KB
innodb_buffer_pool_size = 512M
innodb_redo_log_capacity = 128M
innodb_log_buffer_size = 64M
innodb_flush_method = nosync
innodb_doublewrite = OFF
innodb_flush_log_at_trx_commit = 0
innodb_stats_on_metadata = 0
innodb_table_locks = 0
skip-log-bin
sync_binlog = 0
general-log = 0
performance_schema = OFF
default_time_zone = '%(tz)s'
"""


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def mysqld(ctx, tz="+05:30"):
    """Start a private MySQL server; it is stopped and its files removed when the check ends."""
    t = time.time()
    dev = os.environ.get("VERIF_MYSQL_PORT")
    if dev:
        return int(dev)
    if getattr(ctx, "mysql_port", None):
        return ctx.mysql_port
    os.makedirs("/mnt/data/tmp", exist_ok=True)
    base = "/dev/shm/verif-mysql-%d" % os.getpid()
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + "/tmp")
    ctx.cleanups.append(lambda: shutil.rmtree(base, ignore_errors=True))
    for attempt in range(3):
        port = free_port()
        with open(base + "/my.cnf", "w") as f:
            f.write(MYCNF % dict(dir=base, port=port, tz=tz))
        common = [shutil.which("mysqld") or "/usr/sbin/mysqld", "--defaults-file=%s/my.cnf" % base, "--datadir=%s/data" % base, "--tmpdir=%s/tmp" % base]
        if not os.path.exists(base + "/data/mysql"):
            shutil.rmtree(base + "/data", ignore_errors=True)
            subprocess.run(common + ["--log-error=%s/init.log" % base, "--initialize-insecure"], check=False,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        p = subprocess.Popen(common + ["--log-error=%s/err.log" % base], stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, start_new_session=True)

        def stop(p=p):
            p.kill()
            p.wait()
        ctx.cleanups.append(stop)
        end = time.time() + 90
        while time.time() < end and p.poll() is None:
            r = subprocess.run(["mysqladmin", "-u", "root", "--socket=%s/sock" % base, "ping"],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode == 0:
                ctx.mysql_port = port
                ctx.log("mysqld on port %d after %.1fs" % (port, time.time() - t))
                return port
            time.sleep(0.1)
        stop()
    log = ""
    for n in ("init.log", "err.log"):
        if os.path.exists(base + "/" + n):
            log += open(base + "/" + n, errors="replace").read()[-1500:]
    raise MachineryError("mysqld did not start:\n" + log)


# --------------------------------------------------------------------------------------------- universes
def q(x):
    return '"%s"' % x


def sset(xs):
    return "{" + ", ".join(q(x) for x in sorted(xs)) + "}"


def fcn(pairs):
    """TLA+ function from strings, also when empty."""
    pairs = list(pairs)
    if not pairs:
        return "[x \\in {} |-> {}]"
    return " @@ ".join("(%s :> %s)" % (q(k), v) for k, v in pairs)


def universe_basic():
    names = dict(n1="alpha.com", n2="www.alpha.com", n3="beta.org", n4="a.b.beta.org")
    certs = dict(r=dict(parent=None, exp=9, names=[]),
                 i=dict(parent="r", exp=5, names=["n3"]),
                 j=dict(parent="i", exp=9, names=[]),
                 a=dict(parent="i", exp=7, names=["n1"]),
                 b=dict(parent="j", exp=9, names=["n1", "n2"]),
                 c=dict(parent="r", exp=2, names=["n2", "n4"]),
                 d=dict(parent=None, exp=4, names=["n4"]))
    pols = dict(p="n1", o="n1", s="n3")
    batches = dict(B1=dict(c=dict(a="+", b="+", i="", j="", r=""), p=["p"]),
                   B2=dict(c=dict(c="+", d="", r=""), p=[]),
                   B3=dict(c=dict(i="+", r="", a="+"), p=["s", "o"]),
                   B4=dict(c=dict(b="+", c="+", j="", i="", r=""), p=["p", "o"]),
                   B5=dict(c=dict(d="+"), p=["s"]),
                   B6=dict(c=dict(b="n1", j="", i="", r=""), p=[]))
    return dict(names=names, certs=certs, pols=pols, batches=batches, cuts=[3, 5, 8])


def universe_random(rng, ncerts=7, nnames=4, nbatches=5, npols=3):
    roots = ["alpha.com", "beta.co.uk", "gamma.org"]
    names, pool = {}, []
    for k in range(nnames):
        base = rng.choice(roots + pool)
        n = base if base not in names.values() else rng.choice("abcxyz") + str(k) + "." + base
        names["n%d" % (k + 1)] = n
        pool.append(n)
    certs, ids = {}, [chr(ord("a") + i) for i in range(ncerts)]
    for k, c in enumerate(ids):
        parent = rng.choice(ids[:k]) if k and rng.random() < 0.8 else None
        nn = [] if rng.random() < 0.3 else rng.sample(sorted(names), rng.randint(1, min(3, nnames)))
        certs[c] = dict(parent=parent, exp=rng.randint(1, 9), names=sorted(nn))
    pols = {"p%d" % k: rng.choice(sorted(names)) for k in range(npols)}
    batches = {}
    for k in range(nbatches):
        items = {}
        for c in rng.sample(ids, rng.randint(0, min(3, ncerts))):
            r = rng.random()  # with all its names, one of them, or none
            items[c] = "+" if r < 0.7 or not certs[c]["names"] else "" if r < 0.85 else rng.choice(certs[c]["names"])
            p = certs[c]["parent"]
            while p:
                items.setdefault(p, "")
                p = certs[p]["parent"]
        batches["B%d" % (k + 1)] = dict(c=items, p=rng.sample(sorted(pols), rng.randint(0, min(2, npols))))
    cuts = sorted(rng.sample(range(1, 11), 2))
    return dict(names=names, certs=certs, pols=pols, batches=batches, cuts=cuts)


def resolve(u):
    """Batches give each certificate with all its names ("+"), one name, or none; adds the domain chains."""
    for b in u["batches"].values():
        for c, how in b["c"].items():
            b["c"][c] = u["certs"][c]["names"] if how == "+" else ([how] if how in u["names"] else [])
    return u


def queries(u, bases=("alpha.com", "beta.org", "beta.co.uk", "gamma.org", "unknown.net")):
    """Adds the names that are asked for: every stored one, names above, below and beside them.  The chain of a query
    names stored names by their identifier and other names by themselves."""
    ids = {v: k for k, v in u["names"].items()}
    qs = set(u["names"].values()) | set(bases)
    for n in list(u["names"].values()):
        qs |= {"q." + n, "*." + n, "www." + n, n.split(".", 1)[1]}
    u["queries"] = {}
    for n in sorted(qs):
        s = n[2:] if n.startswith("*.") else n
        s = s[4:] if s.startswith("www.") else s
        b = [x for x in bases if s == x or s.endswith("." + x)]
        if not b:
            continue
        b = max(b, key=len)
        labels = s[:-len(b)].rstrip(".").split(".") if s != b else []
        chain, cur = [b], b
        for lab in reversed(labels):
            cur = lab + "." + cur
            chain.append(cur)
        u["queries"][n] = [ids.get(x, x) for x in chain]
    return u


def mc(name, u, extends="MapStore", extra=""):
    bs = []
    for i, b in sorted(u["batches"].items()):
        bs.append("[id |-> %s, c |-> %s, p |-> %s]" % (q(i), fcn((c, sset(ns)) for c, ns in sorted(b["c"].items())), sset(b["p"])))
    return """---- MODULE %s ----
EXTENDS %s
ParentC == %s
ExpC == %s
PolNameC == %s
BatchesC == { %s }
QueriesC == %s
ChainC == %s
%s
====
""" % (name, extends,
       fcn((c, q(v["parent"] or "none")) for c, v in sorted(u["certs"].items())),
       fcn((c, str(v["exp"])) for c, v in sorted(u["certs"].items())),
       fcn((p, q(n)) for p, n in sorted(u["pols"].items())), ",\n  ".join(bs), sset(u.get("queries", {})),
       fcn((k, "<<" + ", ".join(q(x) for x in v) + ">>") for k, v in sorted(u.get("queries", {}).items())), extra)


def cfg(u, spec="Spec", view="View", props=(), invs=(), emit=True, consts=""):
    return """SPECIFICATION %s
CONSTANTS
 None = "none"
 Names = %s
 Certs = %s
 Pols = %s
 Parent <- ParentC
 Exp <- ExpC
 PolName <- PolNameC
 Batches <- BatchesC
 Cuts = {%s}
 Queries <- QueriesC
 ChainOf <- ChainC
 %s
VIEW %s
%s
%s
%s
CHECK_DEADLOCK FALSE
""" % (spec, sset(u["names"]), sset(u["certs"]), sset(u["pols"]), ", ".join(map(str, u["cuts"])), consts, view,
       "INVARIANTS " + " ".join(invs) if invs else "", "PROPERTIES " + " ".join(props) if props else "",
       "ACTION_CONSTRAINT EmitEdge" if emit else "")


STORE_INV = ("TypeOK", "AncestorsStored", "Closed", "AnswersExact")
STORE_PROP = ("PruneIsForgetting", "PruneExact", "StoreMonotone")


def store_graph(ctx, name, u, timeout=300):
    r = ctx.tlc("MC_" + name, mc("MC_" + name, u), cfg(u, props=STORE_PROP, invs=STORE_INV), workers=1, timeout=timeout)
    ctx.count_tlc(r)
    return r["files"]["E"]
