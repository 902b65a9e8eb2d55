"""C01: reported success means every output is complete on disk."""
import sim, cli, lib
import gen as G
from lib import *

CASES = {"quick": 9000, "thorough": 150000}
RULE = ("each case is a generated tree of documents, modules and data plus an option set and possibly older outputs, built once in the simulator "
        "without faults to learn its operations and then run under a fault plan: error, short or interrupted call or death at operations that "
        "produce outputs (placed inside the sequence of one source's outputs), a disk that fills up, or one-byte writes with signals; "
        "non-trivial: at least one fault actually fired and at least one source has an output; distinct by (options, operation kinds with faults, ending)")
ASSUME = ["documents have the shapes the generator builds; opaque snippets take their meaning from a solo run"]


def gen_world(rng, big=0.35):
    w = G.standard(rng, ndocs=(1, 3), errors=0.12, write=0.3, big=big, warn=0.1, opq=0.15)
    G.decorate(w, 0.2, False)
    G.enlarge(w, 0.02)
    return w


def fault_plan(rng, ops, st):
    """adds rules / environment quirks to the step; ops come from the faultless run"""
    oo = out_ops(ops)
    st["rules"], st["env"] = [], {}
    mode = rng.choice(["none", "one", "one", "one", "one", "crash", "crash", "full", "slow", "slow1", "two", "any"])
    if mode in ("slow", "slow1"):
        transfer(rng, ops, st["env"], reads=rng.random() < 0.4, eintr=0.6)
    if oo and mode in ("one", "two", "slow1"):
        for _ in range(2 if mode == "two" else 1):
            o = rng.choice([x for x in oo if x.kind == "write"] or oo) if rng.random() < 0.35 else pick_op(rng, oo)
            x = rng.random()
            if o.kind == "write" and x < 0.4: st["rules"].append(place(ops, o, "short", n=rng.choice([0, 1, max(1, o.arg // 2), max(1, o.arg - 1)]) if rng.random() < 0.9 else 0))
            elif x < 0.55: st["rules"].append(place(ops, o, "err", err="EINTR"))
            else: st["rules"].append(place(ops, o, "err", err=errno_for(rng, o.kind), count=rng.choice([1, 1, 1, -1])))
    elif oo and mode == "crash":
        st["rules"].append(crash_rule(rng, ops, pick_op(rng, oo)))
    elif mode == "full":
        st["env"]["capacity_rel"] = rng.choice([0, 1, 10, 100, 1000, 5000, 10000, 20000])
    elif mode == "any" and ops:
        o = rng.choice(ops)
        if not stdio(o) or o.kind == "write":
            if rng.random() < 0.4: st["rules"].append(crash_rule(rng, ops, o) if not stdio(o) else rule("crash_before", op=o.idx))
            elif stdio(o): st["rules"].append(rule("err", op=o.idx, err=rng.choice(["EIO", "ENOSPC", "EINTR", "EPIPE"])))
            else: st["rules"].append(place(ops, o, "err", err=errno_for(rng, o.kind)))
    return mode


def capacity(scn, steps):
    for st, x in zip(scn["steps"], steps):
        e = st.get("env", {})
        if "capacity_rel" in e:
            e["capacity"] = sum(len(n.data) for n in x.pre.values() if n.t == F) + e.pop("capacity_rel")


def gen_options(rng):
    argv = list(rng.choice(OUTS))
    if rng.random() < 0.3: argv.append(rng.choice([".", "sub", "/w", "*.papyri", "**/*.papyri"]) if rng.random() < 0.7 else ".")
    if rng.random() < 0.2: argv.append("-u")
    if rng.random() < 0.15: argv.append(rng.choice(["-s", "--silent"]))
    if rng.random() < 0.1: argv.append("--ignore-warnings")
    return argv


def make(rng, env):
    w = gen_world(rng)
    argv = gen_options(rng)
    scn = G.world(w, steps=[{"op": "run", "argv": argv, "pid": rng.choice([1, 77, 1000, 4194303])}], env={"readdir_seed": rng.randrange(1000), "hash_seed": rng.randrange(1000)})
    if rng.random() < 0.5:
        steps, _ = dry(env, scn)
        add_old(rng, scn, steps[0].res)
    return scn


def gen(rng, env, i, tier):
    scn = make(rng, env)
    steps, _ = dry(env, scn)
    fault_plan(rng, steps[0].res.ops, scn["steps"][0])
    capacity(scn, steps)
    return scn


gen_std = gen


def check(c, scn):
    steps, model = run(c, scn, fill=False)
    for x in steps:
        if x.st["op"] != "run": continue
        judge(c, model, x)


def judge(c, model, x):
    p, rep = x.procs[0], x.reports[0]
    pr = pred(model, x)
    end = p.ended()
    faulted = [o for o in x.res.ops if o.fault or o.crash]
    hit = any(not stdio(o) or o.kind == "write" for o in faulted)
    c.sig = (tuple(procs_argv(x.st, 0)), tuple((o.kind, o.ret < 0, o.crash) for o in faulted[:6]), end, len(pr.entries))
    c.nontrivial = bool(faulted or x.st.get("env")) and any(e.outs for e in pr.entries)
    if end in ("deadlock", "opcap"):
        c.bad("stuck", f"the run does not end ({end})")
        return
    # announced files are complete, whatever happened later
    want = {}
    entries = list(pr.entries)
    # a source is compiled, not skipped, when its age cannot be determined
    if pr.opts["u"] and any(o.kind in ("stat", "lstat", "fstat") for o in faulted):
        entries = pred(model, x, argv=[a for a in procs_argv(x.st, 0) if a not in ("-u", "--skip-unchanged")]).entries + entries
    for e in entries:
        for d, a, b in e.outs: want[d] = (e, a, b)
    for d in rep.wrote:
        if end == "crash" and d == rep.wrote[-1] and d not in want: continue  # announcement cut short
        if d not in want:
            c.bad("announce", f"announces {d}, which is no output of this run")
            continue
        e, a, b = want[d]
        n = x.post.get(FS(x.post, "/").target(a))
        if n is None: c.bad("announced-missing", f"announced {d} but the file does not exist (run ended: {end})")
        elif b is not None and n.data != b: c.bad("announced-incomplete", f"announced {d} but it is not complete (run ended: {end}), {differ(b, n.data)}")
    if end == "exit 0":
        c.env.probe("success under faults" if hit else "success")
        okay = [s for s, k in rep.status.items() if k in ("ok", "warn")]
        quiet = silent(procs_argv(x.st, 0))
        outputs_exact(c, "ok-incomplete", pr, x.post, only=okay, what="exit status 0 and reported OK, but output")
        disc = any(o.fault and o.kind in ("opendir", "readdir", "stat", "lstat", "realpath", "readlink", "getcwd", "fstat", "closedir") for o in x.res.ops)
        for e in pr.entries:
            if e.status != "ok" or disc: continue
            k = rep.status.get(e.src)
            if not quiet and k not in ("ok", "warn"): c.bad("ok-dropped", f"exit status 0, but source {e.src}, which has outputs, is reported as {k}")
            if quiet: outputs_exact(c, "ok-incomplete", pr, x.post, only=[e.src], what="exit status 0, but output")
    elif end.startswith("exit"):
        c.env.probe("failure reported")
        if not p.err: c.bad("silent-failure", f"{end} without any explanation on stderr")
    elif end == "crash": c.env.probe("crashed")
