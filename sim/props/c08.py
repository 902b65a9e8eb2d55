"""C08: modules are loaded once, give every importer the same exports, and cycles are rejected."""
import sim, cli, lib
import gen as G
from lib import *

CASES = {"quick": 7000, "thorough": 120000}
RULE = ("each case is a random import graph of one to seven modules (chains, diamonds, self-imports, cycles of length one to six, broken modules, modules "
        "asking to write files) used by one to four documents through varied spellings, file and directory symlinks and repeated imports, with module "
        "reads failing persistently, short or interrupted; results are compared with the model, and every open of a module file is counted per "
        "document; non-trivial: at least one module is imported; distinct by (edges as spelled, verdicts, opens)")


def gen(rng, env, i, tier):
    w = G.W(rng)
    if rng.random() < 0.3: w.add_data()
    n = much(rng, tier, rng.randint(1, 7))
    mods = [w.add_mod(uid=0.4, imports=0) for _ in range(n)]
    cyc = rng.random() < 0.35
    for a in range(n):
        m = w.files[mods[a]]["mod"]
        cand = mods if cyc else mods[:a]
        k = min(len(cand), rng.choice([0, 1, 1, 2, 3]))
        if k:
            d = mods[a].rsplit("/", 1)[0]
            m["imports"] = []
            for q in rng.sample(cand, k):
                im = {"m": w.mod_ref(d, q)}
                ns = w.names_of(q)
                if not cyc and rng.random() < 0.5: im["name"] = rng.choice([z for z in ns if z != "g"] or ["v"])
                m["imports"].append(im)
            if rng.random() < 0.2: m["imports"].append({"m": w.mod_ref(d, rng.choice(cand))})
        if rng.random() < 0.06: m.setdefault("items", []).append({"k": "write", "path": "frommod.txt", "t": "x"})
    broken = G.add_bad_mod(w, rng.choice(G.BAD_MODS)) if rng.random() < 0.25 else None
    al = {}
    if rng.random() < 0.35:
        for q in rng.sample(mods, rng.randint(1, min(2, n))):
            d = q.rsplit("/", 1)[0]
            l = d + "/alias%d%s" % (len(al), rng.choice([".lib.papyri", ".papyri"]))
            w.links[l] = rng.choice([q, q.rsplit("/", 1)[1]])
            al.setdefault(q, []).append(l)
    if rng.random() < 0.2 and "/w/mods" in w.dirlist:
        w.links["/w/mlink"] = rng.choice(["mods", "/w/mods"])
        for q in mods:
            if q.startswith("/w/mods/") and not w.files[q]["mod"].get("imports") and not w.files[q]["mod"].get("data"): al.setdefault(q, []).append("/w/mlink" + q[7:])
    for _ in range(much(rng, tier, rng.randint(1, 4))):
        p = w.add_doc(mods=0, uid=0.2, opq=0.05, n=rng.randint(0, 2), write=0.25)
        d = p.rsplit("/", 1)[0]
        items = w.files[p]["doc"]
        inc = False
        for _ in range(rng.randint(1, 4)):
            q = rng.choice(mods)
            kind = "imp"
            if not inc and rng.random() < 0.3: kind, inc = "inc", True
            it = w.use_item(d, kind, q)
            if q in al and rng.random() < 0.5:
                it["m"] = w.mod_ref(d, rng.choice(al[q]))
            items.insert(rng.randint(0, len(items)), it)
        if broken and rng.random() < 0.5: G.break_doc(w, p, broken)
        if rng.random() < 0.05: items.append({"k": "imp", "m": w.mod_ref(d, p), "use": []})
    G.enlarge(w, 0.03, ["chain", "fan", "docs", "far", "ids"])
    argv = list(rng.choice([[], ["-t"], ["-o", "out"], ["-o", "out"]])) + flags(rng, 0.08)
    scn = G.world(w, steps=[{"op": "run", "argv": argv}], env={"readdir_seed": rng.randrange(99), "hash_seed": rng.randrange(1 << 30)})
    if rng.random() < 0.25:
        scn["env"]["max_read"] = rng.choice([7, 31, 32, 33, 100])
        scn["env"]["eintr_every"] = rng.choice([2, 3, 5])
    if rng.random() < 0.3:
        q = rng.choice(mods)
        scn["bad"] = [q]
        scn["steps"][0]["rules"] = [rule("err", kinds=[rng.choice(["open", "read"])], path=q, count=-1, err=rng.choice(["EIO", "EACCES", "ENOENT", "ESTALE"]))]
        if not cli.is_library(q): del scn["bad"], scn["steps"][0]["rules"]
    return scn


def check(c, scn):
    bad = set(scn.get("bad", []))
    steps, model = run(c, scn)
    for x in steps:
        if x.st["op"] != "run": continue
        if bool(x.st.get("rules")) != bool(bad): return
        judge(c, scn, model, x, bad)


def judge(c, scn, model, x, bad):
    p, rep = x.procs[0], x.reports[0]
    pr = pred(model, x, bad=bad)
    end = p.ended()
    imports = tuple(sorted(it["m"] for s in scn["files"].values() if "doc" in s for it in s["doc"] if it["k"] in ("imp", "inc"))) + \
        tuple(sorted(im["m"] for s in scn["files"].values() if "mod" in s for im in s["mod"].get("imports", [])))
    opens = {}
    c.nontrivial = any(it["k"] in ("imp", "inc") for s in scn["files"].values() if "doc" in s for it in s["doc"])
    if end not in ("exit 0", "exit 1"):
        c.bad("no-end", f"compiling the import graph does not end with an error but with: {end} {p.err[-200:].decode(errors='replace')}")
        return
    if pr.abort: return
    # opens of module files between one source and the next
    fs = FS(x.pre, "/w")
    srcs = [fs.resolve(e.abs) for e in pr.entries if e.status in ("ok", "failed", "nooutput")]
    srcs, cur, seen = set(srcs), None, {}
    for o in x.res.ops:
        if o.kind != "open" or o.path is None or o.ret < 0 and not o.fault: continue
        if o.fault and o.ret == -4: continue  # interrupted: retried
        if o.path in srcs:  # possibly the next source
            cur, seen = o.path, {}
        elif cli.is_papyri(o.path) and cur:
            seen[o.path] = seen.get(o.path, 0) + 1
            opens[(cur, o.path)] = seen[o.path]
            if seen[o.path] == 2: c.bad("loaded-twice", f"module {o.path} is opened more than once while compiling one document (after {cur})")
    c.sig = (imports, tuple(e.status for e in pr.entries), tuple(sorted(opens.items())))
    for e in pr.entries:
        k = rep.status.get(e.src)
        if e.status == "failed":
            c.env.probe("importer of failing module" if e.out.chains and any(e.out.chains) else "failing document")
            if k != "failed": c.bad("not-failed", f"{e.src} imports a module that is cyclic, unreadable or erroneous (or has another error: {e.out.errors[:3]}) but is reported as {k}")
        elif e.status in ("ok", "nooutput"):
            if k == "failed": c.bad("wrongly-failed", f"{e.src} and all its modules are fine, but it failed: {rep.diag.get(e.src, '')[:400]}")
            elif k is None: c.bad("unhandled", f"{e.src} is not handled")
        # a cycle is reported only where there is one
        if e.out is not None and k == "failed" and "circular import detected" in rep.diag.get(e.src, "") and e.out.known and not e.out.cycle:
            c.bad("no-cycle", f"{e.src} reaches no import cycle, but one is reported: {rep.diag.get(e.src, '')[:400]}")
    outputs_exact(c, "content", pr, x.post)
    ch = Change(x.pre, x.post)
    for q in sorted(ch.files()):
        if q not in pr.written: c.bad("leak", f"{q} is written but no document asks for it")
