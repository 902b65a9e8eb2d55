"""C02: an interrupted run leaves old or complete new outputs, and a rerun converges."""
import sim, cli, lib, copy
import gen as G
from lib import *

CASES = {"quick": 4500, "thorough": 70000}
RULE = ("each case is a history: optional complete build, edits and new sources with the clock advancing, one to three runs each dying or failing at a "
        "chosen operation among those that produce outputs (before, after or inside it), edits in between, and a final undisturbed run with or without "
        "skip-unchanged; non-trivial: a fault fired in a run that has outputs; distinct by (history shape, faulted operations, endings)")
ASSUME = ["death of the process only: file-system contents survive it (no power-loss model)", "time stamps order edits after the builds before them"]


def edit_spec(w, p):
    r = w.rng
    s = copy.deepcopy(w.files[p])
    if "doc" not in s: return s
    x = r.random()
    if x < 0.05: return {"doc": [], "end": r.choice(["", "\n", "# only a comment\n"])}
    if x < 0.7: s["doc"].insert(r.randint(0, len([i for i in s["doc"] if i["k"] != "err"])) if not any(i["k"] == "err" for i in s["doc"]) else 0, {"k": "p", "t": "edited %d" % r.randint(0, 99999)})
    elif x < 0.85: s["doc"] = [{"k": "p", "t": "rewritten %d" % r.randint(0, 99999)}, {"k": "p", "t": " ".join("v%d" % k for k in range(r.choice([3, 1700, 2600])))}]
    else: s["doc"] = [i for i in s["doc"] if i["k"] != "err"] + [w.simple_item()]
    return s


def gen(rng, env, i, tier):
    w = G.standard(rng, ndocs=(1, 3), errors=0.08, write=0.35, big=0.3, opq=0.1)
    G.decorate(w, 0.2, False)
    G.enlarge(w, 0.01, ["writes", "long", "docs", "name"])
    argv = list(rng.choice(OUTS)) + flags(rng, 0.08)
    paths = [rng.choice([".", "/w", "**/*.papyri"])] if rng.random() < 0.2 and argv != ["-o", "out/"] else []
    scn = G.world(w, steps=[], env={"gran": rng.choice([1, 1, SEC // 1000, SEC]), "hash_seed": rng.randrange(1000)})
    clutter(rng, scn, argv)
    steps = scn["steps"]
    pid = rng.choice([1000, 1000, 1])
    mk = lambda u: {"op": "run", "argv": argv + paths + (["-u"] if u else []), "pid": pid if rng.random() < 0.6 else rng.randrange(2, 9999)}
    adv = lambda: steps.append({"op": "adv", "ns": pause(rng, scn)})
    built = rng.random() < 0.65
    if built:
        steps.append(mk(rng.random() < 0.3))
        adv()

    def edits(force):
        for p in sorted(w.docs):
            if rng.random() < (0.7 if force else 0.4):
                s = edit_spec(w, p)
                w_files[p] = s
                steps.append({"op": "edit", "path": p, "spec": s})
        adv()
    w_files = dict(w.files)
    if built: edits(True)
    for k in range(much(rng, tier, rng.choice([1, 1, 2, 3]))):
        st = mk(rng.random() < 0.5)
        steps.append(st)
        xs, _ = dry_prefix(env, scn)
        oo = out_ops(xs[-1].res.ops)
        if oo:
            o = pick_op(rng, oo)
            if rng.random() < 0.7: st["rules"] = [crash_rule(rng, xs[-1].res.ops, o)]
            else:
                st["rules"] = [place(xs[-1].res.ops, o, "err", err=errno_for(rng, o.kind), count=rng.choice([1, -1]))]
                if o.kind == "write" and rng.random() < 0.5: st["rules"].insert(0, place(xs[-1].res.ops, o, "short", n=max(1, o.arg // 2)))
                if rng.random() < 0.3: st["rules"].append(rule("err", kinds=["unlink"], err="EIO", count=-1))
                elif rng.random() < 0.5: more_faults(rng, dry_prefix(env, scn)[0][-1].res.ops, st)
        elif xs[-1].res.ops and rng.random() < 0.5:
            st["rules"] = [crash_rule(rng, xs[-1].res.ops, rng.choice([o for o in xs[-1].res.ops if not stdio(o)]))]
        if rng.random() < 0.25:
            adv()
            edits(False)
        elif rng.random() < 0.5: adv()
    if steps[-1]["op"] != "adv": adv()
    steps.append(mk(rng.random() < 0.6))
    return scn


def dry_prefix(env, scn):
    return sim.execute(env, scn)


def check(c, scn):
    steps, model = run(c, scn)
    runs = [x for x in steps if x.st["op"] == "run"]
    sig = []
    c.nontrivial = False
    for x in runs:
        pr = pred(model, x)
        p = x.procs[0]
        faulted = [o for o in x.res.ops if o.fault or o.crash]
        sig.append((p.ended(), tuple((o.kind, o.crash) for o in faulted[:3])))
        if faulted and any(e.outs for e in pr.entries): c.nontrivial = True
        if p.ended() in ("deadlock", "opcap"):
            c.bad("stuck", f"step {x.i}: the run does not end ({p.ended()})")
            continue
        old_or_new(c, x, pr, p)
    c.sig = (tuple(s["op"] for s in scn["steps"]), tuple(sig))
    # the last run, undisturbed, converges
    if runs and not runs[-1].st.get("rules"):
        x = runs[-1]
        if not spaced(scn): return
        full = pred(model, x, argv=[a for a in procs_argv(x.st, 0) if a != "-u"])
        end = x.procs[0].ended()
        if full.ok and end != "exit 0":
            c.bad("rerun-fails", f"an undisturbed rerun ends with {end}: {x.procs[0].err[-300:].decode(errors='replace')}")
        ch = len(c.viol)
        outputs_exact(c, "no-convergence", full, x.post, what=f"after the undisturbed rerun ({' '.join(procs_argv(x.st, 0)) or 'no options'}), output")
        if len(c.viol) == ch: c.env.probe("converged with -u" if "-u" in procs_argv(x.st, 0) else "converged")


def pause(rng, scn):
    g = scn["env"]["gran"]
    if rng.random() < 0.4: return max(g, rng.choice([g, g + 1, 2 * g, 1000, SEC // 1000, SEC // 20, SEC // 2, SEC]))
    return rng.choice([2, 3, 60, 86400]) * SEC + rng.randrange(SEC)


def spaced(scn):
    """time stamps order every edit after the runs before it"""
    g = scn["env"].get("gran", 1)
    last, gap = None, 0
    for s in scn["steps"]:
        if s["op"] == "adv": gap += s["ns"]
        elif s["op"] in ("run", "edit", "touch"):
            if last == "run" and s["op"] != "run" and gap < g: return False
            last, gap = s["op"] if s["op"] == "run" else last, 0 if s["op"] == "run" else gap
    return True


def old_or_new(c, x, pr, p):
    for q, n in x.pre.items():
        if n.t != F: continue
        m = x.post.get(q)
        if m is None: c.bad("lost", f"step {x.i} ({p.ended()}): {q} existed before the run and is gone")
        elif m.t != F or m.data != n.data:
            if q not in pr.written: c.bad("foreign", f"step {x.i} ({p.ended()}): {q} is no output of the run but was changed")
            elif pr.written[q] is not None and m.data != pr.written[q]:
                c.bad("torn", f"step {x.i} ({p.ended()}): output {q} is neither old nor complete; against the new rendering: {differ(pr.written[q], m.data)}")
            else: c.env.probe("new content in place after " + p.ended().split()[0])
        elif q in pr.written and p.ended() == "crash": c.env.probe("old content kept after crash")
    for q, n in x.post.items():
        if q in x.pre or n.t != F or q not in pr.written: continue
        if pr.written[q] is not None and n.data != pr.written[q]:
            c.bad("torn", f"step {x.i} ({p.ended()}): new output {q} is incomplete: {differ(pr.written[q], n.data)}")
