"""C07: skip-unchanged skips a source only when its output is up to date."""
import sim, cli, lib
import gen as G
from lib import *
from props.c02 import edit_spec, pause, spaced

CASES = {"quick": 3500, "thorough": 60000}
RULE = ("each case is a history of four to nine steps over one tree: source edits, new sources, deleted, replaced and touched outputs, source timestamps set "
        "equal to or around their output's, runs with and without skip-unchanged that complete, fail, hit I/O errors or die while writing, under a "
        "timestamp granularity from 1 ns to 1 s; every run's skip decisions are compared with the timestamps before it; non-trivial: a run with "
        "skip-unchanged met an existing output; distinct by (step kinds, verdicts of all runs)")


def gen(rng, env, i, tier):
    w = G.standard(rng, ndocs=(1, 3), nmods=(0, 2), errors=0.15, write=0.3, opq=0.1, big=0.1)
    argv = list(rng.choice(OUTS)) + flags(rng, 0.06)
    G.decorate(w, 0.2)
    G.enlarge(w, 0.02, ["docs", "long", "name", "warnings"])
    if rng.random() < 0.3: argv += [rng.choice(["", "./"]) + d[3:] for d in w.docs]
    scn = G.world(w, steps=[], env={"gran": rng.choice([1, 1, 1000, SEC // 100, SEC]), "hash_seed": rng.randrange(99)})
    clutter(rng, scn, argv)
    steps = scn["steps"]
    pure = rng.random() < 0.5   # only histories the final guarantee covers

    for k, d in enumerate(sorted(w.docs)):
        if rng.random() < 0.2:
            scn.setdefault("via", {})[d] = rng.choice(["/w/store/v%d.txt", "/store/v%d.papyri", "/w/store/v%d.papyri"]) % k

    def adv(): steps.append({"op": "adv", "ns": pause(rng, scn)})

    def main_of(d): return FS({}, "/w").lex(cli.set_ext((argv[argv.index("-o") + 1] + "/" if "-o" in argv else "") + d[3:], "txt" if "-t" in argv else "html"))

    def a_run(u, fault, stat=False):
        a = argv if rng.random() < 0.93 else [o for o in argv if o != "-t"] if "-t" in argv else argv + ["-t"]
        st = {"op": "run", "argv": a + (["-u"] if u else []), "pid": rng.choice([1000, rng.randrange(2, 9999)])}
        steps.append(st)
        if stat:
            # examining a source or an output fails: it may be compiled or fail, but not be taken as up to date
            k = rng.random()
            q = rng.choice(w.docs) if k < 0.5 else main_of(rng.choice(w.docs)) if k < 0.8 else ""
            st["rules"] = [rule("err", kinds=["stat"], path=q, skip=rng.choice([0, 0, 1, 2]), err=rng.choice(["EACCES", "EIO", "ELOOP", "ESTALE"]), count=rng.choice([1, 1, -1]))]
        elif fault:
            xs, _ = sim.execute(env, scn)
            oo = out_ops(xs[-1].res.ops)
            if oo:
                o = pick_op(rng, oo)
                st["rules"] = [crash_rule(rng, xs[-1].res.ops, o) if rng.random() < 0.6 else place(xs[-1].res.ops, o, "err", err=errno_for(rng, o.kind))]
    for k, d in enumerate(sorted(w.docs)):
        # an output kept elsewhere
        if rng.random() < 0.06: scn.setdefault("links", {})[main_of(d)] = rng.choice(["/keep/o%d.html", "/w/keep_o%d"]) % k; scn["dirs"] = scn["dirs"] + ["/keep"]
    if rng.random() < 0.8:
        a_run(rng.random() < 0.5, rng.random() < 0.2)
        adv()
    for _ in range(much(rng, tier, rng.randint(2, 5))):
        d = rng.choice(sorted(w.docs))
        x = rng.random()
        if x < 0.45:
            s = edit_spec(w, d)
            if rng.random() < 0.15: s["doc"] = [i for i in s["doc"] if i["k"] != "err"] + [{"k": "err", "e": "raise"}]
            w.files[d] = s
            steps.append({"op": "edit", "path": d, "spec": s})
            adv()
        elif x < 0.55:
            n = w.add_doc(write=0.2)
            s = w.files.pop(n)
            steps.append({"op": "edit", "path": n, "spec": s})
            w.docs.remove(n)
            adv()
        elif x < 0.68:
            steps.append({"op": "rm", "path": main_of(d)})
        elif x < 0.8 and not pure:
            steps.append({"op": "old", "path": main_of(d), "data": rng.choice(["replaced by hand", "replaced by hand", "", "\n", "x" * 70000])})
            if rng.random() < 0.5: steps.append({"op": "touch", "path": main_of(d), "as": d, "ns": rng.choice([0, 0, -1, 1, -SEC, SEC])})
        elif x < 0.84 and not pure:
            # both on odd dates: around 1970, as unpacked from an archive, or far in the future
            t = rng.choice([0, 0, 1, -1, -SEC, 500 * SEC, 315532800 * SEC, -86400 * SEC, 4102444800 * SEC, (1 << 31) * SEC, ((1 << 32) + 5) * SEC])
            for q, k in ((d, 0), (main_of(d), rng.choice([0, 0, 1, -1, SEC, -SEC, SEC // 2]))): steps.append({"op": "touch", "path": q, "at": t + k})
        elif x < 0.92 and not pure:
            steps.append({"op": "touch", "path": d, "as": main_of(d), "ns": rng.choice([0, 0, -1, 1, -SEC, SEC, -5 * SEC])})
        else:
            steps.append({"op": "touch", "path": d})
            adv()
        if rng.random() < 0.75:
            a_run(rng.random() < 0.85, rng.random() < 0.3, rng.random() < 0.12)
            if rng.random() < 0.3: a_run(True, False)
            adv()
    a_run(True, False)
    # files added later do not exist from the start
    return scn


def check(c, scn):
    steps, model = run(c, scn)
    touched = any(s["op"] in ("old",) or (s["op"] == "touch" and (s.get("as") or "at" in s)) for s in scn["steps"])
    sig = []
    c.nontrivial = False
    for x in steps:
        if x.st["op"] != "run": continue
        p, rep = x.procs[0], x.reports[0]
        pr = pred(model, x)
        u = "-u" in procs_argv(x.st, 0)
        end = p.ended()
        if end in ("opcap", "deadlock") or p.sig:
            if end != "crash": c.bad("stuck", f"step {x.i}: {end}")
            continue
        statf = any(o.fault and o.kind == "stat" for o in x.res.ops)
        if statf: c.env.probe("stat failed")
        faulted = any(o.fault or o.crash for o in x.res.ops)
        sig.append((u, end, tuple(sorted(rep.status.items()))))
        for e in pr.entries:
            k = rep.status.get(e.src)
            if u and e.main in x.pre: c.nontrivial = True
            if k is None:
                if not faulted and pr.abort is None: c.bad("unhandled", f"step {x.i}: {e.src} is not handled")
                continue
            m = lambda: f"source modified {x.pre[FS(x.pre, '/').resolve(e.abs)].mtime}, main output {x.pre[e.main].mtime if e.main in x.pre else 'absent'}"
            if k == "unchanged" and e.status != "unchanged": c.bad("wrong-skip", f"step {x.i}: {e.src} is skipped as unchanged, but must be compiled ({m()}, {'with' if u else 'without'} -u)")
            if k != "unchanged" and e.status == "unchanged" and not statf: c.bad("no-skip", f"step {x.i}: {e.src} is reported as {k}, but must be skipped as unchanged ({m()})")
            if k == "unchanged": c.env.probe("skipped")
        may = set(pr.written)
        if statf: may |= set(pred(model, x, argv=[a for a in procs_argv(x.st, 0) if a != "-u"]).written)
        for q, n in sorted(x.pre.items()):
            if n.t != F or q in may: continue
            if q not in x.post or x.post[q].mtime != n.mtime or x.post[q].data != n.data:
                c.bad("touched", f"step {x.i}: {q} is no output of a source that had to be compiled, but it was {'removed' if q not in x.post else 'modified'}")
        if not faulted and end == "exit 0" and u and not touched and spaced(scn):
            full = pred(model, x, argv=[a for a in procs_argv(x.st, 0) if a != "-u"])
            t = FS(x.post, "/")
            for e in full.entries:
                if not e.outs or e.outs[-1][1] != e.main: continue
                b, n = e.outs[-1][2], x.post.get(t.target(e.main))
                if n is None: c.bad("stale", f"step {x.i}: after a successful run with skip-unchanged, main output {e.main} is missing")
                elif b is not None and n.data != b: c.bad("stale", f"step {x.i}: after a successful run with skip-unchanged, main output {e.main} is not what a full build gives, {differ(b, n.data)}")
                else: c.env.probe("main output equals full build")
    c.sig = (tuple(s["op"] for s in scn["steps"]), tuple(sig))
