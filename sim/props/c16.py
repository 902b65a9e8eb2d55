"""C16: papyri processes working on the same tree at once do not corrupt outputs."""
import itertools
import sim, cli, lib
import gen as G
from docs import esc
from lib import *

CASES = {"quick": 5000, "thorough": 80000}
RULE = ("each case runs two to four processes at once over one tree (same or overlapping sources, same or separate output directories, different options, older outputs, equal or "
        "different process ids), interleaved at every operation by a seeded scheduler; some cases add documents that read the outputs of the "
        "others while they are being replaced, listings of the tree, chunked transfers, or the death or a failing write of one process; "
        "non-trivial: at least two processes write and the schedule switches between them; distinct by (arguments, number of switches, endings, states reached)")
ASSUME = ["processes interleave at operating-system calls; a call itself is atomic"]


def gen(rng, env, i, tier):
    w = G.W(rng)
    for _ in range(rng.randint(0, 1)): w.add_data()
    for _ in range(rng.randint(0, 2)): w.add_mod(imports=rng.choice([0, 1]))
    for _ in range(rng.randint(1, 3)):
        p = w.add_doc(write=0.3, opq=0.05, big=0.35, lists=0.15, n=rng.randint(1, 3))
        if rng.random() < 0.1: w.add_error(p)
    G.enlarge(w, 0.02, ["docs", "writes", "long", "name"])
    outs = rng.choice([[[]], [["-o", "out"]], [["-o", "out"], ["-o", "out2"]], [["-o", "o/a"], ["-o", "o/b"], ["-o", "o"]], [[], ["-t"]], [["-o", "out"], ["-o", "out", "-t"]], [[], ["-o", "out"]], [["-o", "./out"], ["-o", "/w/out"]]])
    procs = []
    same = rng.random() < 0.3
    for k in range(much(rng, tier, rng.choice([2, 2, 2, 3, 4]), 7)):
        a = list(rng.choice(outs))
        if rng.random() < 0.2: a.append("-u")
        if rng.random() < 0.1: a.append("--ignore-warnings")
        if rng.random() < 0.4: a += rng.sample([d[3:] for d in w.docs], rng.randint(1, len(w.docs)))
        procs.append({"argv": a, "cwd": "/w", "pid": 1 if same else 100 + k})
    scn = G.world(w, env={"readdir_seed": rng.randrange(999), "hash_seed": rng.randrange(99), "sched": True, "sched_seed": rng.randrange(1 << 40), "sched_prob": rng.choice([1000, 700, 300, 100, 30])},
                  steps=[{"op": "run", "procs": procs, "rules": []}])
    st = scn["steps"][0]
    # reference: where do the outputs go
    alone = [sim.execute(env, dict(scn, steps=[{"op": "run", "procs": [p]}]))[0][0] for p in procs]
    made = sorted({q for x in alone for q in Change(x.pre, x.post).created})
    old = scn["old"] = {}
    clutter(rng, scn, procs[0]["argv"])
    for q in made:
        if rng.random() < 0.5: old[q] = {"data": rng.choice(["old", "older " * 2000, ""]), "age": rng.choice([500, 5000])}
    if made and rng.random() < 0.5:
        # observers: documents reading the outputs of the others
        for k in range(rng.choice([1, 1, 2])):
            q = rng.choice([m for m in made])
            p = w.name(["obs", "watch"], ".papyri")
            d = p.rsplit("/", 1)[0]
            w.files[p] = {"doc": [{"k": "obs", "path": G.rel_spelling(rng, d, q, w.dirlist, True)} for _ in range(rng.randint(1, 3))]}
            if rng.random() < 0.6: procs.append({"argv": [p[3:]], "cwd": "/w", "pid": 300 + k})
            if len(procs) > 5: break
    if rng.random() < 0.25: transfer(rng, [o for x in alone for o in x.res.ops], scn["env"], eintr=0.3)
    if "max_read" in scn["env"]: scn["env"]["max_read"] = max(scn["env"]["max_read"], 33)  # the documents observing also read
    if rng.random() < 0.25:
        k = rng.randrange(len(alone))
        oo = out_ops(alone[k].res.ops)
        if oo:
            o = pick_op(rng, oo)
            if rng.random() < 0.6: st["rules"] = [rule(rng.choice(["crash_before", "crash_after", "torn"] if o.kind == "write" else ["crash_before", "crash_after"]), kinds=[o.kind], path="", skip=rng.randrange(6), proc=k, **({"n": 3} if o.kind == "write" else {}))]
            else: st["rules"] = [rule("err", kinds=[o.kind], path=o.path or "", proc=k, err=errno_for(rng, o.kind))]
            if st["rules"][0]["action"] == "torn" and o.kind != "write": st["rules"] = []
    if rng.random() < 0.2: st["env"] = {}
    if rng.random() < 0.5: scn["steps"].append({"op": "run", "argv": procs[0]["argv"], "pid": rng.choice([1, 100, 777])})
    return scn


def shrink(scn):
    """a plainer schedule, or an explicit one with few switches"""
    for p in (0, 10, 50):
        def m(s, p=p):
            if s["env"].get("sched_prob", 0) <= p: return False
            s["env"]["sched_prob"] = p
        yield m


def check(c, scn):
    steps, model = run(c, scn)
    x = steps[0]
    prs = [pred(model, x, k) for k in range(len(x.procs))]
    ended = [p.ended() for p in x.procs]
    fired = [o for o in x.res.ops if o.crash or (o.fault and o.ret != -4)]
    sw = sum(1 for a, b in zip(x.res.ops, x.res.ops[1:]) if a.proc != b.proc)
    c.sig = (tuple(tuple(p["argv"]) for p in x.st["procs"]), sw, tuple(ended), x.res.gstep)
    c.nontrivial = sum(any(e.outs for e in pr.entries) for pr in prs) >= 2 and sw >= 2
    c.env.probe("switches between processes", sw)
    hit = {o.proc for o in fired}
    if any(FS(x.pre, "/").target(e.abs) not in x.pre for pr in prs for e in pr.entries): return  # sources taken away by minimising
    left = {o.path for o in x.res.ops if o.created and o.proc in hit}
    writes = {}   # canonical output path -> possible complete contents
    for pr in prs:
        for q, b in pr.written.items(): writes.setdefault(q, set()).add(b)
    mains = {}
    unknown = {q for q, bs in writes.items() if None in bs}
    obs_docs = {p for p, s in scn["files"].items() if any(it["k"] == "obs" for it in s.get("doc", []))}
    allok = True
    for k, (pr, p) in enumerate(zip(prs, x.procs)):
        rep = x.reports[k]
        if ended[k] not in ("exit 0", "exit 1"):
            if k in hit and ended[k] == "crash": continue
            c.bad("died", f"process {k} ({' '.join(procs_argv(x.st, k))}) ends with {ended[k]}: {p.err[-300:].decode(errors='replace')}")
            continue
        if k in hit: continue
        failing = False
        for e in pr.entries:
            s = rep.status.get(e.src)
            if e.abs in obs_docs:
                observer(c, scn, x, k, e, rep, writes)
                failing |= s == "failed"
                continue
            failing |= e.status == "failed"
            if s == "failed" and e.status != "failed": c.bad("disturbed", f"process {k}: {e.src} failed although nothing is wrong with it: {rep.diag.get(e.src, '')[:400]}")
            elif s is None: c.bad("disturbed", f"process {k}: {e.src} was not handled ({ended[k]}): {p.err[-400:].decode(errors='replace')}")
            elif e.status == "failed" and s != "failed": c.bad("status", f"process {k}: {e.src} is reported as {s}, expected failed")
            elif s == "unchanged" and "-u" not in procs_argv(x.st, k): c.bad("status", f"process {k}: {e.src} skipped as unchanged")
        if not failing and ended[k] != "exit 0": c.bad("disturbed", f"process {k} ends with {ended[k]} although nothing is wrong with its sources: {p.err[-400:].decode(errors='replace')}")
        if b"error" in p.err.lower() and not failing: c.bad("disturbed", f"process {k} reports an error although nothing is wrong: {p.err[-400:].decode(errors='replace')}")
        # what it reports as written is complete (whoever wrote last)
        for e in pr.entries:
            if rep.status.get(e.src) in ("ok", "warn") and e.abs not in obs_docs:
                for d, a, b in e.outs: whole(c, x, a, writes, pre=False, who=f"process {k} succeeded, but ")
    # nothing but old or complete new content anywhere
    for q, n in x.post.items():
        if n.t != F: continue
        if q in x.pre and x.pre[q].data == n.data: continue
        if q in writes: whole(c, x, q, writes, pre=True)
        elif q in left: c.env.probe("left-over temporary file of a process that died")
        else: c.bad("foreign", f"{q} was created or changed, but is no output of any process")
    for q in x.pre:
        if q not in x.post: c.bad("lost", f"{q} is gone")
    # a later run alone is not confused by what is left
    for y in steps[1:]:
        if y.st["op"] != "run": continue
        pr = pred(model, y)
        if y.st.get("rules") or any(e.abs in obs_docs for e in pr.entries): continue
        if pr.ok and y.procs[0].ended() != "exit 0": c.bad("later-run", f"a later run ends with {y.procs[0].ended()}: {y.procs[0].err[-300:].decode(errors='replace')}")
        outputs_exact(c, "later-run", pr, y.post, what="after a later run, output")


def whole(c, x, q, writes, pre, who=""):
    q = FS(x.post, "/").target(q)
    n = x.post.get(q)
    if n is None:
        c.bad("missing", f"{who}output {q} does not exist")
        return
    bs = writes.get(q, set())
    if None in bs or n.data in bs: return
    if pre and q in x.pre and x.pre[q].data == n.data: return
    b = max(bs, key=len) if bs else b""
    c.bad("torn", f"{who}output {q} is not complete: {differ(b, n.data)}")


def observer(c, scn, x, k, e, rep, writes):
    """a document that read outputs of other processes saw old or complete new content each time"""
    s = rep.status.get(e.src)
    spec = scn["files"][e.abs]
    d = e.abs.rsplit("/", 1)[0]
    opts = []
    for it in spec["doc"]:
        q = FS(x.pre, "/").target(it["path"] if it["path"].startswith("/") else d + "/" + it["path"])
        o = set(writes.get(q, ()))
        if q in x.pre: o.add(x.pre[q].data)
        else: o.add("missing")
        opts.append(o)
    if any(None in o for o in opts): return
    if s == "failed":
        if not any("missing" in o for o in opts): c.bad("observed", f"process {k}: {e.src} could not read an output that always exists: {rep.diag.get(e.src, '')[:300]}")
        return
    if s == "unchanged": return
    txt = cli.parse_args(procs_argv(x.st, k))["t"]
    can = []
    for o in opts:
        v = []
        for b in o:
            if b == "missing": continue
            t = b.decode()
            v.append("r %s e\n\n" % t if txt else "<p>r <u>%s</u> e</p>" % esc(t))
        can.append(v)
    c.env.probe("observer document")
    n = x.post.get(FS(x.post, "/").target(e.main))
    if n is None or x.post[FS(x.post, "/").target(e.main)].data == (x.pre.get(e.main).data if e.main in x.pre else None): return
    got = n.data.decode(errors="replace")
    good = {"".join(t) for t in itertools.product(*can)}
    if got not in good and norm(got) not in {norm(g) for g in good}:
        c.bad("observed", f"process {k}: {e.src}, reading {[it['path'] for it in spec['doc']]} while others replace it, saw neither old nor complete new content: {bits(got, 300)}")
    elif len({t for o in opts for t in o}) > 1: c.env.probe("observer saw old or new content")


def norm(s):
    """white space inside a paragraph is reflowed"""
    return " ".join(s.split())
