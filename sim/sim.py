"""Scenarios: worlds plus a sequence of steps, executed in the simulator and judged against the model."""
import os, random
import docs, cli, web
from world import *

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), ".build")
SO, EXE, DRV = (os.path.join(BUILD, x) for x in ("simos.so", "papyri", "apidriver"))
SEC = 1_000_000_000


class Reference:
    """meaning of opaque snippets, from runs of each snippet alone in the plain environment"""

    def __init__(self, server=None):
        self.server, self.cache = server, {}

    def snippet(self, i):
        if i not in self.cache:
            t = Tree()
            t.put("/ref/s.papyri", docs.source({"doc": [{"k": "opq", "i": i}]}))
            r = []
            for a, f in (([], "/ref/s.html"), (["-t"], "/ref/s.txt")):
                res = self.server.run(t, T0, {}, [{"argv": ["papyri", "s.papyri"] + a, "cwd": "/ref"}])
                n = res.tree.get(f)
                if res.procs[0].ended() != "exit 0":
                    raise SimError("reference snippet %d: %s %s" % (i, res.procs[0].ended(), res.procs[0].err.decode(errors="replace")[:400]))
                r.append(n.data.decode() if n else "")
            self.cache[i] = tuple(r)
        return self.cache[i]


class Env:
    """everything a worker needs to execute scenarios"""

    def __init__(self):
        self.cli = Server(SO, EXE)
        self.drv = Server(SO, DRV) if os.path.exists(DRV) else None
        self.ref = Reference(self.cli)
        self.sim_ns = 0
        self.nruns = 0
        self.nops = 0
        self.faults = {}
        self.states = set()
        self.interleavings = set()
        self.probes = {}

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def account(self, res, rules, clock0):
        self.nruns += len(res.procs)
        self.nops += len(res.ops)
        self.sim_ns += max(0, res.clock - clock0)
        f = self.faults
        for o in res.ops:
            if o.fault or o.crash:
                name = o.kind + ":" + ("crash" if o.crash else ERRNAME.get(-o.ret, "error") if o.ret < 0 else "partial")
                f[name] = f.get(name, 0) + 1
        for r, k in zip(rules, res.fired):
            if k and r["action"] == "clock": f["clock jump"] = f.get("clock jump", 0) + k

    def quirks(self, e):
        for k in ("readdir_seed", "dtype_unknown", "max_read", "max_write", "eintr_every", "sched"):
            if e.get(k): self.probe("env " + k)
        if e.get("capacity", -1) >= 0: self.probe("env full disk")

    def close(self):
        for s in (self.cli, self.drv):
            if s: s.stop()


def build_tree(scn):
    """initial tree and registry content -> spec"""
    t = Tree()
    specs = {}
    for d in scn.get("dirs", []): t.mkdirs(d)
    t.mkdirs(scn["cwd"])
    for p, s in scn["files"].items():
        b = docs.source(s)
        specs[b] = s
        t.put(p, b, T0 - s.get("age", 1000) * SEC)
        if s.get("mode") is not None: t[p].mode = s["mode"]
    for p, target in scn.get("links", {}).items(): t.symlink(p, target, T0 - 1000 * SEC)
    for p, real in scn.get("via", {}).items():  # the source at p is a link to a file kept elsewhere
        if p in t and t[p].t == F:
            n = t.pop(p)
            t.mkdirs(real.rsplit("/", 1)[0])
            t[real] = n
            t.symlink(p, real, T0 - 1000 * SEC)
    for p, o in scn.get("old", {}).items():
        t.put(p, o["data"], T0 - o.get("age", 1000) * SEC)
        if o.get("mode"): t[p].mode = o["mode"]
    for p in scn.get("mounts", []):  # other devices mounted below the tree
        if p in t and t[p].t == D: t[p].mode |= 0o1000
    return t, specs


def tiny(e, x):
    """the run was cut off, but only because everything was asked to go in very small pieces"""
    k = min([e[n] for n in ("max_read", "max_write") if e.get(n)] + [1 << 30])
    return any(p.opcap for p in x.res.procs) and sum(len(n.data) for n in x.pre.values() if n.t == F) * 8 / k > 20000


class Step:
    pass


def hexed(s):
    return s.encode("utf-8", "surrogateescape").hex()


def run_api(env, scn, x, tree, clock):
    """calls to the library, one list of operations per thread, in one simulated process"""
    st = x.st
    prog = []
    for k, ops in enumerate(st["threads"]):
        for o in ops:
            o = list(o)
            if o[0] in ("str", "cstr"): o[-1] = hexed(o[-1])
            prog.append(" ".join([str(k)] + [a.replace(" ", "\x01") for a in o]))
    e = dict(scn.get("env", {}))
    e.update(st.get("env", {}))
    rules = st.get("rules", [])
    x.res = env.drv.run(tree, clock, e, [{"argv": ["apidriver"], "cwd": st.get("cwd", scn["cwd"]), "pid": 1000, "stdin": "\n".join(prog).encode() + b"\n"}], rules)
    env.account(x.res, rules, clock)
    env.quirks(e)
    if x.res.truncated and not any(p.opcap for p in x.res.procs): raise TooLong()
    x.procs = x.res.procs
    x.api = [[] for _ in st["threads"]]
    for l in x.procs[0].out.decode().split("\n")[:-1]:
        k, l = l.split(" ", 1)
        x.api[int(k)].append(l)


class Rendered:
    """one rendering to a scripted writer"""

    def __init__(self, s):
        f = s.split(" | ")
        self.path = unhexed(f[0])
        self.ref, self.full, self.res, self.got = f[1], bytes.fromhex(f[2]), f[3], bytes.fromhex(f[4])
        self.calls, self.after, self.failed = map(int, f[5].split())
        if self.res.startswith("err "):
            a = self.res.split(" ")
            self.err = (a[1], unhexed(a[2]) if len(a) > 2 else "")
        else: self.err = None


def unhexed(s):
    return bytes.fromhex(s).decode()


def renderings(line):
    return [Rendered(s) for s in line[len("rendered "):].split(" ; ")]


def execute(env, scn):
    """runs every step; returns the list of steps with the tree before and after"""
    tree, specs = build_tree(scn)
    for st in scn["steps"]:
        if st["op"] == "edit": specs[docs.source(st["spec"])] = st["spec"]
    model = docs.Model(specs, env.ref)
    clock = T0
    out = []
    for i, st in enumerate(scn["steps"]):
        x = Step()
        x.i, x.st, x.pre, x.clock, x.cwd = i, st, tree, clock, scn["cwd"]
        if st["op"] == "run":
            e = dict(scn.get("env", {}))
            e.update(st.get("env", {}))
            procs = st.get("procs") or [{"argv": st["argv"], "cwd": st.get("cwd", scn["cwd"]), "pid": st.get("pid", 1000 + i),
                                         "stdin": bytes.fromhex(st.get("stdin", ""))}]
            procs = [dict(p, argv=["papyri"] + p["argv"]) for p in procs]
            for p in procs:
                if isinstance(p.get("stdin"), str): p["stdin"] = bytes.fromhex(p["stdin"])
            rules = st.get("rules", [])
            x.res = env.cli.run(tree, clock, e, procs, rules, web.scripts(st["web"]) if "web" in st else ())
            env.account(x.res, rules, clock)
            if x.res.truncated and not any(p.opcap for p in x.res.procs) or tiny(e, x): raise TooLong()
            env.quirks(e)
            x.procs = x.res.procs
            x.reports = [cli.Report(p.out, p.err) for p in x.procs]
            tree, clock = x.res.tree, x.res.clock
            x.post = tree
        elif st["op"] == "api":
            run_api(env, scn, x, tree, clock)
            tree, clock = x.res.tree, x.res.clock
            x.post = tree
        else:
            tree = tree.copy()
            g = scn.get("env", {}).get("gran", 1)
            follow = lambda p: docs.FS(tree, "/").target(p) or p
            if st["op"] == "edit": tree.put(follow(st["path"]), docs.source(st["spec"]), clock // g * g)
            elif st["op"] == "old": tree.put(follow(st["path"]), st["data"], clock // g * g)
            elif st["op"] == "rm": tree.remove(st["path"])
            elif st["op"] == "reset": tree, clock = build_tree(scn)[0], T0
            elif st["op"] == "touch":
                a, b = [p and docs.FS(tree, "/").resolve(p) for p in (st["path"], st.get("as"))]
                if a and "at" in st: tree[a].mtime = st["at"]
                elif a: tree[a].mtime = tree[b].mtime + st.get("ns", 0) if b else clock
            elif st["op"] == "adv": clock += st["ns"]
            elif st["op"] == "sweep":  # a user cleaning up temporary files left by a crash
                pass
            x.post = tree
        x.clock_after = clock
        out.append(x)
    return out, model
