"""C06: outputs do not depend on environment nondeterminism."""
import sim, cli, lib
import gen as G
import docs, rich
from lib import *

CASES = {"quick": 3000, "thorough": 50000}
RULE = ("each case is one tree and option set run in a plain environment and then, on the same tree, in three to five varied environments (directory "
        "order, unknown entry types, hash seed, pid, clock value, clock jumps in both directions during the run, one-byte and interrupted reads, short "
        "writes, permuted and repeated path arguments), and once more over its own outputs; outputs, verdicts and exit status are compared; "
        "non-trivial: at least one source compiled; distinct by (options, varied knobs, verdicts)")


VARS = {"TZ": ["UTC", "Asia/Tokyo", "America/New_York"], "LANG": ["", "C", "de_DE.UTF-8", "tr_TR.UTF-8"], "LC_ALL": ["C", "ja_JP.UTF-8", "POSIX"], "HOME": ["/w", "/root", ""], "USER": ["root", "x"], "PWD": ["/", "/w/sub"],
        "TERM": ["dumb", "xterm"], "NO_COLOR": ["1"], "COLUMNS": ["20"], "SOURCE_DATE_EPOCH": ["0", "1600000000"], "TMPDIR": ["/tmp", "/nonexistent", "/w"], "OUT_DIR": ["/w/x"], "RUST_LOG": ["debug"], "RUST_BACKTRACE": ["1"],
        "PAPYRI_PATH": ["/w/lib"], "DEBUG": ["1"], "CI": ["true"], "HOSTNAME": ["h1"], "CLICOLOR_FORCE": ["1"]}


def gen(rng, env, i, tier):
    w = G.standard(rng, ndocs=(1, 4), nmods=(0, 3), errors=0.15, write=0.2, opq=0.4, lists=0.25, uid=0.3, warn=0.1, big=0.1)
    if rng.random() < 0.4: w.add_rich_mod()
    for d in w.docs:
        if rng.random() < 0.5:
            items = w.files[d]["doc"]
            for _ in range(rng.choice([1, 2, 4])):
                t = w.use_rich(d) if hasattr(w, "rich") and rng.random() < 0.3 else rich.frag(rng)
                items.insert(rng.randint(0, next((j for j, x in enumerate(items) if x["k"] == "err" and x["e"] in docs.SWALLOW), len(items))), {"k": "rawsrc", "t": t})
    G.decorate(w, 0.25, False)
    G.enlarge(w, 0.03)
    if rng.random() < 0.3:
        # directories that make enumeration order matter
        for k in range(rng.randint(1, 5)): w.files["/w/%s/z%d.papyri" % (rng.choice(["sub", "d1", "d2"]), k)] = {"doc": [{"k": "p", "t": "z%d" % k}]}
    opts = list(rng.choice(OUTS)) + flags(rng, 0.06)
    paths = rng.choice([[], ["."], [".", "sub"], ["*.papyri"], ["**/*.papyri", "."], None])
    if paths is None: paths = sorted(rng.sample([d[3:] for d in w.docs], rng.randint(1, len(w.docs))))
    if "sub" in paths: w.dirs.append("/w/sub")
    argv = opts + paths
    steps = [{"op": "run", "argv": argv, "env": {}}]
    base_ops = sim.execute(env, G.world(w, steps=steps))[0][0].res.ops
    nops = len(base_ops)
    for _ in range(rng.randint(3, 5)):
        e = {"readdir_seed": rng.randrange(1 << 30), "hash_seed": rng.randrange(1 << 60)}
        if rng.random() < 0.4: e["dtype_unknown"] = True
        if rng.random() < 0.5: e["heap_seed"] = rng.randrange(1, 1 << 50)
        if rng.random() < 0.4: e["vars"] = {k: rng.choice(VARS[k]) for k in rng.sample(sorted(VARS), rng.randint(1, 4))}
        if rng.random() < 0.4: e["env_any"] = True
        if rng.random() < 0.5: transfer(rng, base_ops, e, writes=rng.random() < 0.5)
        if rng.random() < 0.3: e["tick"] = rng.choice([0, 1, 10 ** 9, 10 ** 12])
        if rng.random() < 0.2: e["gran"] = rng.choice([10 ** 9, 2 * 10 ** 9])
        rules = []
        if rng.random() < 0.4:
            for _ in range(rng.randint(1, 3)): rules.append(rule("clock", op=rng.randrange(nops), ns=rng.choice([-1, 1]) * rng.choice([1, 10 ** 9, 86400 * 10 ** 9, 86400 * 400 * 10 ** 9])))
        a = list(paths)
        rng.shuffle(a)
        if a and rng.random() < 0.4: a.insert(rng.randrange(len(a) + 1), rng.choice(a))
        st = {"op": "run", "argv": opts + a, "env": e, "rules": rules, "pid": rng.choice([1, 2, 1000, 4194303, rng.randrange(1, 1 << 22)])}
        steps += [{"op": "reset"}]
        if rng.random() < 0.3: steps.append({"op": "adv", "ns": rng.choice([-1, 1]) * rng.choice([5, 86400 * 365 * 9]) * SEC})
        steps.append(st)
    steps += [{"op": "adv", "ns": 10 * SEC}, {"op": "run", "argv": argv, "env": {"readdir_seed": rng.randrange(99)}, "again": True}]
    scn = G.world(w, steps=steps)
    clutter(rng, scn, opts)
    return scn


def check(c, scn):
    steps, model = run(c, scn)
    runs = [x for x in steps if x.st["op"] == "run"]
    if not runs: return
    files = lambda t: {p: n.data for p, n in t.items() if n.t == F}
    base = runs[0]
    p0, r0, f0 = base.procs[0], base.reports[0], files(base.post)
    c.sig = (tuple(base.st["argv"]), tuple(tuple(sorted((k, v) for k, v in x.st.get("env", {}).items() if "seed" not in k)) for x in runs), tuple(sorted(r0.status.items())))
    c.nontrivial = any(k in ("ok", "warn", "failed") for k in r0.status.values())
    for x in runs[1:]:
        p, r, f = x.procs[0], x.reports[0], files(x.post)
        what = f"environment {x.st.get('env')} rules {x.st.get('rules')} argv {x.st['argv']}" + (" (second run over its own outputs)" if x.st.get("again") else "")
        if p.ended() != p0.ended(): c.bad("exit", f"{what}: ended {p.ended()}, plain environment {p0.ended()}; {p.err[-300:].decode(errors='replace')}")
        if r.status != r0.status:
            d = {k for k in set(r.status) | set(r0.status) if r.status.get(k) != r0.status.get(k)}
            k = sorted(d)[0]
            c.bad("verdict", f"{what}: {k} is {r.status.get(k)}, in the plain environment {r0.status.get(k)}")
        if f != f0:
            k = sorted(q for q in set(f) | set(f0) if f.get(q) != f0.get(q))[0]
            c.bad("output", f"{what}: {k} " + ("is extra" if k not in f0 else "is missing" if k not in f else "differs " + differ(f0[k], f[k])))
        if r.order != r0.order: c.bad("order", f"{what}: sources handled in order {r.order}, in the plain environment {r0.order}")
        c.env.probe("variant run" if not x.st.get("again") else "repeated run")
