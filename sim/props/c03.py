"""C03: a source with errors produces no output; the rest of the batch does."""
import sim, cli, lib
import gen as G
from lib import *

CASES = {"quick": 7000, "thorough": 120000}
RULE = ("each case is a batch of one to five documents, each failing with probability one half (own errors of 20 kinds at any position, modules that are "
        "missing, erroneous, cyclic, not UTF-8, directories, or whose reading fails persistently with EIO/EACCES), older outputs in place for some; "
        "non-trivial: at least one source fails; distinct by the (verdict, error places, requested files) of all sources")


def gen(rng, env, i, tier):
    w = G.W(rng)
    for _ in range(rng.randint(0, 2)): w.add_data()
    for _ in range(rng.randint(0, 3)): w.add_mod(imports=rng.choice([0, 0, 1, 2]))
    shared = G.add_bad_mod(w, rng.choice(G.BAD_MODS)) if rng.random() < 0.4 else None
    for _ in range(much(rng, tier, rng.randint(1, 5))):
        p = w.add_doc(write=0.3, warn=0.15, opq=0.1, big=0.1)
        if rng.random() < 0.5: G.break_doc(w, p, shared if shared and rng.random() < 0.6 else None)
    argv = list(rng.choice(OUTS)) + flags(rng, 0.25)
    G.decorate(w, 0.25)
    if G.enlarge(w, 0.06) == "warnings" and rng.random() < 0.5: argv.append("--ignore-warnings")
    scn = G.world(w, steps=[{"op": "run", "argv": argv}], env=rand_env(rng) if rng.random() < 0.3 else {})
    scn["env"].pop("max_write", None)
    if rng.random() < 0.35 and (w.mods or w.datas):
        q = rng.choice(w.mods + w.datas)
        scn["bad"] = [q]
        scn["steps"][0]["rules"] = [rule("err", kinds=[rng.choice(["open", "read"])], path=q, count=-1, err=rng.choice(["EIO", "EACCES", "EISDIR"]))]
        if any(d == q for d in w.docs): del scn["bad"], scn["steps"][0]["rules"]
    if rng.random() < 0.7:
        # older outputs of everything, also of what fails
        old = scn.setdefault("old", {})
        t, specs = sim.build_tree(scn)
        o = cli.parse_args(argv)
        fs = FS(t, "/w")
        for d in sorted(w.docs):
            rel = d[len("/w/"):]
            main = cli.set_ext((o["out"] + "/" if o["out"] else "") + rel, "txt" if o["t"] else "html")
            reqs = [it["path"] for it in w.files[d]["doc"] if it["k"] == "write"]
            for r in [main] + [cli.push(o["out"], docs.resolve_out(o["out"], q)) for q in reqs if o["out"] and docs.resolve_out(o["out"], q)]:
                if rng.random() < 0.6: old[fs.lex(r)] = {"data": "old " * rng.choice([1, 900]), "age": rng.choice([5000, 10])}
    clutter(rng, scn, argv)
    return scn


def check(c, scn):
    bad = set(scn.get("bad", []))
    steps, model = run(c, scn)
    for x in steps:
        if x.st["op"] != "run": continue
        if any(r["kinds"][0] not in ("open", "read") for r in x.st.get("rules", [])): return
        if bool(x.st.get("rules")) != bool(bad): return
        judge(c, model, x, bad)


def judge(c, model, x, bad):
    pr = pred(model, x, bad=bad)
    p, rep = x.procs[0], x.reports[0]
    c.sig = tuple((e.src, e.status, tuple(e.out.errors) if e.out else None) for e in pr.entries)
    c.nontrivial = any(e.status == "failed" for e in pr.entries)
    if pr.abort: return
    end = p.ended()
    if end not in ("exit 0", "exit 1"):
        c.bad("died", f"the run died ({end}): {p.err[-300:].decode(errors='replace')}")
        return
    ch = Change(x.pre, x.post)
    for e in pr.entries:
        k = rep.status.get(e.src)
        if e.status == "failed":
            c.env.probe("failing source")
            if k != "failed": c.bad("not-failed", f"{e.src} has errors but is reported as {k}")
            elif rep.counts[e.src][0] < 1: c.bad("not-failed", f"{e.src} counted with {rep.counts[e.src]}")
        elif e.status in ("ok", "nooutput"):
            if k == "failed": c.bad("wrongly-failed", f"{e.src} has no errors but failed: {rep.diag.get(e.src)}")
            elif k is None: c.bad("dropped", f"{e.src} is not handled although only other sources fail")
            elif e.status == "ok" and e.out.warnings: c.env.probe("warnings with output")
    outputs_exact(c, "output-missing", pr, x.post)
    for q in sorted(ch.files()):
        if q not in pr.written: c.bad("output-of-failed", f"{q} was {'created' if q in ch.created else 'changed'} although no successful source produces it")
    want = 1 if any(e.status == "failed" for e in pr.entries) else 0
    if end != f"exit {want}": c.bad("exit", f"{end}, expected exit {want}")
    if rep.summary and rep.summary[2] != sum(e.status == "failed" for e in pr.entries):
        c.bad("count", f"summary counts {rep.summary[2]} failed sources, expected {sum(e.status == 'failed' for e in pr.entries)}")
