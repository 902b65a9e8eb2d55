"""Shared by the property checks: worlds, fault placement and comparisons."""
import random
import docs, cli, sim, gen
from docs import FS, resolve_out
from world import rule, T0, D, F, L, Tree, Node, ERRNAME
SEC = sim.SEC

OUTS = [[], [], [], ["-t"], ["-o", "out"], ["-o", "out"], ["-o", "out", "-t"], ["-o", "./out"], ["-o", "/w/out"], ["-o", "../o2"], ["-o", "."],
        ["-o", "out/"], ["-o", "sub/../out"], ["-o", "o/p/q"]]
OUT_KINDS = {"open", "write", "close", "mkdir", "rename", "chmod", "ftrunc", "fsync", "unlink", "link", "symlink", "utime"}
WERR = {"open": ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "EDQUOT", "ENOENT"], "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
        "close": ["EIO"], "mkdir": ["ENOSPC", "EACCES", "EROFS", "EDQUOT"], "rename": ["EIO", "ENOSPC", "EACCES", "EBUSY", "EROFS", "EXDEV", "EPERM"],
        "chmod": ["EPERM", "EIO"], "ftrunc": ["EIO"], "fsync": ["EIO"], "unlink": ["EIO", "EBUSY"], "link": ["EIO"], "symlink": ["EIO"], "utime": ["EPERM"],
        "read": ["EIO", "EISDIR", "ESTALE"], "stat": ["EACCES", "EIO", "ELOOP"], "lstat": ["EACCES", "EIO"], "fstat": ["EIO"], "opendir": ["EACCES", "EIO", "EMFILE"],
        "readdir": ["EIO"], "realpath": ["EACCES", "EIO"], "readlink": ["EIO"], "lseek": ["EIO"], "getcwd": ["ENOENT"], "closedir": ["EIO"], "access": ["EACCES"]}
READ_FAULTS = {"open", "read", "stat", "fstat", "lseek"}


def errno_for(rng, kind):
    return rng.choice(WERR.get(kind, ["EIO"]))


def stdio(o):
    """operation on stdin/stdout/stderr"""
    return o.kind in ("read", "write", "close") and o.path is None or o.path in ("<stdin>", "<stdout>", "<stderr>")


def out_ops(ops, proc=0):
    """operations that create or change files"""
    made = {o.path for o in ops if o.created}
    r = []
    for o in ops:
        if o.proc != proc: continue
        if o.kind in OUT_KINDS and not stdio(o):
            if o.kind in ("open", "close") and o.path not in made: continue
            r.append(o)
    return r


def place(ops, o, action, **kw):
    """a rule hitting the operation o of a recorded run: by kind, path and how often that came before"""
    skip = 0
    for x in ops:
        if x is o: break
        if x.proc == o.proc and x.kind == o.kind and (x.path == o.path or (x.path2 and x.path2 == o.path)): skip += 1
    return rule(action, kinds=[o.kind], path=o.path or "", skip=skip, proc=o.proc, **kw)


def crash_rule(rng, ops, o):
    a = rng.choice(["crash_before", "crash_after", "torn"]) if o.kind == "write" else rng.choice(["crash_before", "crash_after"])
    return place(ops, o, a, **({"n": rng.choice([0, 1, max(0, o.arg // 2), max(0, o.arg - 1)])} if a == "torn" else {}))


def more_faults(rng, ops, st, crash=0.6):
    """a fault among what the run does after its first fault (ops: the run under the rules so far)"""
    first = next((k for k, o in enumerate(ops) if (o.fault or o.crash) and o.ret != -4), None)
    if first is None or ops[first].crash: return False
    oo = [o for o in out_ops(ops) if ops.index(o) > first]
    if not oo: return False
    near = oo[:8] if rng.random() < 0.7 else oo
    o = pick_op(rng, near)
    st["rules"] = st["rules"] + [crash_rule(rng, ops, o) if rng.random() < crash else place(ops, o, "err", err=errno_for(rng, o.kind))]
    return True


class Change:
    """what a run did to the tree"""

    def __init__(self, pre, post):
        self.created = {p for p, n in post.items() if p not in pre and n.t != D}
        self.dirs = {p for p, n in post.items() if p not in pre and n.t == D}
        self.removed = {p for p in pre if p not in post}
        self.content = {p for p, n in post.items() if p in pre and (n.t, n.data) != (pre[p].t, pre[p].data)}
        self.touched = {p for p, n in post.items() if p in pre and n.t != D and n.mtime != pre[p].mtime}
        self.mode = {p for p, n in post.items() if p in pre and n.mode != pre[p].mode}

    def files(self):
        return self.created | self.content | self.touched | {p for p in self.removed}


def bits(b, n=70):
    s = repr(b[:n]) if isinstance(b, bytes) else repr(b)
    return s + ("..(%d bytes)" % len(b) if isinstance(b, bytes) and len(b) > n else "")


def differ(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    return f"at byte {i}: expected {bits(a[max(0, i - 30):i + 40])} of {len(a)}, found {bits(b[max(0, i - 30):i + 40])} of {len(b)}"


def trace(c, x):
    """records a run step for the replay file"""
    if x.st["op"] == "api":
        for k, l in enumerate(x.st["threads"]):
            for j, o in enumerate(l):
                c.trace.append(f"thread {k}: {' '.join(o)!r}"[:300])
                if j < len(x.api[k]): c.trace.append(f"      -> {x.api[k][j]}"[:300])
        c.trace.append(f"ended: {x.procs[0].ended()} {x.procs[0].err[-500:].decode(errors='replace')}")
        for o in x.res.ops[-100:]: c.trace.append("   " + repr(o)[:200])
        return
    if x.st["op"] != "run":
        c.trace.append(f"step {x.i}: {x.st['op']} {x.st.get('path', x.st.get('ns', ''))}")
        return
    for k, p in enumerate(x.procs):
        c.trace.append(f"step {x.i}: process {k} {' '.join(procs_argv(x.st, k))!r} ended: {p.ended()}")
        for l in (p.out.decode(errors="replace").split("\n") + ["--- stderr"] + p.err.decode(errors="replace").split("\n"))[:40]:
            if l: c.trace.append("      | " + l[:200])
    for o in x.res.ops[-250:]: c.trace.append("   " + repr(o)[:200])


def procs_argv(st, k):
    return (st["procs"][k]["argv"] if st.get("procs") else st["argv"])


FLAGS = [["-s"], ["--silent"], ["--ignore-warnings"], ["-s", "--ignore-warnings"], ["--ignore-warnings", "--silent"]]


def flags(rng, p=0.12):
    """options that must not change what a run does, only what it says"""
    return list(rng.choice(FLAGS)) if rng.random() < p else []


def much(rng, tier, n, top=99):
    """thorough runs also go through longer histories and larger batches"""
    return min(top, n * rng.choice([2, 3, 4])) if tier == "thorough" and rng.random() < 0.3 else n


def silent(argv):
    return "-s" in argv or "--silent" in argv


def run(c, scn, fill=True):
    """executes all steps, feeding the digest and the trace; what a silent run need not say is filled in"""
    steps, model = sim.execute(c.env, scn)
    for x in steps:
        if x.st["op"] in ("run", "api"): c.ran(x.res)
        trace(c, x)
        if not fill or x.st["op"] != "run" or x.st.get("procs") or not silent(x.st["argv"]) or "-i" in x.st["argv"]: continue
        p, rep = x.procs[0], x.reports[0]
        if p.ended() == "exit 0" or p.ended() == "exit 1" and (rep.summary or not any(o.fault for o in x.res.ops)):
            for e in pred(model, x, bad=set(scn.get("bad", []))).entries:
                if e.src not in rep.status and e.status in ("ok", "nooutput", "lib", "unchanged"): rep.status[e.src] = e.status
    return steps, model


CLUTTER = ["draft.tmp", "a.html.tmp", "x.html.new", ".papyri-1-0.tmp", ".papyri-1000-7.tmp", ".a.html.swp", "b.html~", "old.bak", "index.html.bak", "zombie.html", "zombie.txt", "gone.papyri.html",
           "index.htm", "style.css", ".htaccess", "core", "a.html.1", "lost+found.html", "page.HTML", "c", "papyri.tmp", "tmp", ".cache", "Thumbs.db", "page.papyri.tmp", "empty.html"]


def clutter(rng, scn, argv, p=0.12):
    """files no run has anything to do with, where sources and outputs are"""
    if rng.random() >= p: return
    dirs = [q for q in scn.get("dirs", []) if not q.endswith(".papyri")] + [scn["cwd"]]
    o = cli.parse_args([a for a in argv])["out"]
    if o is not None and (o.startswith("/w/") or not o.startswith("/")) and o != "lnk":
        b = FS({}, scn["cwd"]).lex(o)
        if b != "/": dirs += [b, b, b] + [b + "/" + q[len(scn["cwd"]) + 1:] for q in dirs if q.startswith(scn["cwd"] + "/")]
    for _ in range(rng.randint(1, 4)):
        q = rng.choice(dirs).rstrip("/") + "/" + rng.choice(CLUTTER)
        if q not in scn["files"] and q not in scn.get("links", {}):
            scn.setdefault("old", {}).setdefault(q, {"data": rng.choice(["", "someone's", "someone's work\n" * 50]), "age": rng.choice([-5, 0, 500, 100000, 40000000])})


def pred(model, x, k=0, bad=(), argv=None, tree=None):
    return cli.predict(model, tree if tree is not None else x.pre, x.st.get("cwd") or x.cwd, argv if argv is not None else procs_argv(x.st, k), x.clock, bad)


def outputs_exact(c, cls, pr, tree, only=None, what="output"):
    """every predicted output of the sources in `only` (all when None) is in the tree with its exact content"""
    for e in pr.entries:
        if only is not None and e.src not in only: continue
        for d, a, b in e.outs:
            t = FS(tree, "/").target(a)
            n = tree.get(t)
            if n is None: c.bad(cls, f"{what} {a} of {e.src} is missing")
            elif n.t != F: c.bad(cls, f"{what} {a} of {e.src} is not a file")
            elif b is not None and n.data != b: c.bad(cls, f"{what} {a} of {e.src} is wrong {differ(b, n.data)}")


def ended_normally(p):
    return p.ended().startswith("exit ")


def panicked(p):
    return p.rc == 101 or b"panicked at" in p.err or p.sig


def rand_env(rng, heavy=False):
    e = {"readdir_seed": rng.randrange(1 << 30), "hash_seed": rng.randrange(1 << 30)}
    if rng.random() < 0.3: e["dtype_unknown"] = True
    if rng.random() < (0.5 if heavy else 0.2): e["max_read"] = rng.choice([1, 2, 3, 7, 31, 100, 4096])
    if rng.random() < (0.5 if heavy else 0.2): e["max_write"] = rng.choice([1, 2, 3, 7, 31, 100, 4096])
    if rng.random() < (0.5 if heavy else 0.2): e["eintr_every"] = rng.choice([2, 3, 5, 11])
    return e


def add_old(rng, scn, res, p=0.5):
    """some of the files a dry run created exist beforehand with other content"""
    old = scn.setdefault("old", {})
    for path in sorted(q for q, n in res.tree.items() if n.t == F and q not in scn["files"] and not q.lower().endswith(".papyri")):
        if rng.random() < p:
            old[path] = {"data": rng.choice(["", "old output", "<p>" + "older " * rng.choice([10, 1000, 5000]) + "</p>"]), "age": rng.choice([500, 2000, 100000])}
            if rng.random() < 0.2: old[path]["mode"] = rng.choice([0o100600, 0o100664])


def dry(env, scn):
    """last run step of a scenario executed without its rules"""
    s = dict(scn, steps=[dict(st, rules=[]) for st in scn["steps"]])
    steps, model = sim.execute(env, s)
    return steps, model


def transfer(rng, ops, e, reads=True, writes=True, eintr=0.5):
    """small reads and writes, bounded so that a run stays short"""
    tw = sum(o.ret for o in ops if o.kind == "write" and o.ret > 0)
    tr = sum(o.ret for o in ops if o.kind == "read" and o.ret > 0)
    sizes = [1, 2, 3, 5, 7, 31, 32, 33, 64, 100, 1000, 4095, 4096, 8191]
    if writes: e["max_write"] = rng.choice([s for s in sizes if s * 2000 >= tw])
    if reads: e["max_read"] = rng.choice([s for s in sizes if s * 2000 >= tr])
    if rng.random() < eintr: e["eintr_every"] = rng.choice([2, 3, 4, 5, 7, 11])


def pick_op(rng, oo):
    """an operation, choosing its kind first so that rare kinds are not drowned"""
    k = rng.choice(sorted({o.kind for o in oo}))
    return rng.choice([o for o in oo if o.kind == k])
