"""C04: writes stay inside the output location and land where requested."""
import sim, cli, lib
import gen as G
from lib import *

CASES = {"quick": 8000, "thorough": 140000}
RULE = ("each case is a batch whose documents ask to write files at hostile and ordinary paths (`..`, absolute, empty and dot components, doubled "
        "slashes, names of sources, of other outputs' directories and of precious files outside), an output directory in one of many spellings (also "
        "through a symlink), a working directory, and in a third of the cases a failing operation; the complete tree (content, times, modes, "
        "directories) is compared with the predicted one; non-trivial: a document asks to write or an output directory is given; distinct by "
        "(options, requested paths, verdicts, faulted operation)")

PIECES = ["..", "..", "..", ".", "", "a", "b", "gen", "out", "w", "sub", "x.html", "precious.txt", "a.papyri", "...", "..a", "a..", " ", "\u00fc", "o2", "real", ".hidden", "%2e%2e", "..\\", "a\\..\\b", "~", "OUT", "C:", ".. ", " ..", "a.b.c", "$HOME", "f.txt?x#y", "..\u200b", "\u2025", "%20", "a%20b.txt", "a%2Fb", "%2f..", "a+b", "e\u0301", "\u00e9", "\uff0f", "nul", "a&amp;b", "\u00df"]


def hostile(rng, out):
    x = rng.random()
    base = out if out is not None else "out"
    if x < 0.35: p = "/".join(rng.choice(PIECES) for _ in range(rng.randint(1, 5)))
    elif x < 0.5: p = "../" * rng.randint(1, 4) + rng.choice([base.strip("./") or "w", "w/" + base.strip("./"), "precious.txt", "w/precious.txt", "outx", "out2/f"]) + rng.choice(["", "/f.txt"])
    elif x < 0.6: p = rng.choice(["/w/", "/", "//", "/w/out/", "/w/./out/", "/w/out/../", "/w/out/../out/"]) + rng.choice(["f.txt", "precious.txt", "etc/f"])
    elif x < 0.7: p = "gen/" + "../" * rng.randint(0, 3) + rng.choice(["f.txt", "out/f.txt", "precious.txt"])
    elif x < 0.72: p = "".join("d%d/" % k for k in range(rng.choice([9, 20, 40, 70]))) + rng.choice(["f.txt", "", "../" * 9 + "f.txt"])
    elif x < 0.75: p = rng.choice([".", "..", "", "/", "./", "gen/..", "gen/../..", "a/../../out", "...", "../out"])
    else: p = "".join(rng.choice(["f", "g/", "./", "h//", "k/../"]) for _ in range(rng.randint(0, 3))) + "f%d.txt" % rng.randint(0, 3)
    return p


def gen(rng, env, i, tier):
    w = G.W(rng)
    for _ in range(rng.randint(0, 1)): w.add_data()
    for _ in range(rng.randint(0, 2)): w.add_mod()
    out = rng.choice([None, "out", "out", "out", "./out", "out/", "../o2", "../w/out", "/w/out", "/o2", ".", "./", "..", "sub/../out", "a/b/c", "lnk", "/", "./.", "out/../out", "out/."])
    for _ in range(rng.randint(1, 3)):
        p = w.add_doc(opq=0.05, n=rng.randint(0, 3))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            w.files[p]["doc"].insert(rng.randint(0, len(w.files[p]["doc"])), {"k": "write", "path": hostile(rng, out), "t": w.text()})
        if rng.random() < 0.1:
            q = [it["path"] for it in w.files[p]["doc"] if it["k"] == "write"]
            if q: w.files[p]["doc"].append({"k": "write", "path": rng.choice([q[-1].swapcase(), q[0].upper(), q[-1][:-1] + q[-1][-1:].swapcase()]), "t": w.text()})
        if rng.random() < 0.12: G.break_doc(w, p)
    argv = ([] if out is None else ["-o", out]) + (["-t"] if rng.random() < 0.2 else []) + flags(rng)
    argv += rng.choice([[], [], ["."], ["/w"], ["*.papyri"], ["./sub", "."], ["sub/.."], ["**/*.papyri"], ["./"]])
    if argv[-1:] and argv[-1].startswith("sub") or "./sub" in argv: w.dirs.append("/w/sub")
    if rng.random() < 0.1: argv = argv[:]+[rng.choice(w.docs)]
    scn = G.world(w, steps=[{"op": "run", "argv": argv}], env={"readdir_seed": rng.randrange(99), "hash_seed": rng.randrange(99)})
    scn["old"] = {"/w/precious.txt": {"data": "precious"}, "/precious.txt": {"data": "precious"}, "/w/out/precious.txt": {"data": "p"}, "/o2/keep": {"data": "k"}}
    if rng.random() < 0.3: scn["old"]["/outx"] = {"data": "outx"}
    if out == "lnk" or rng.random() < 0.1: scn.setdefault("links", {})["/w/lnk"] = rng.choice(["real", "/real", "../o2", "out"])
    if out == "lnk": scn["dirs"] += ["/w/real", "/real"]
    if rng.random() < 0.15 and out is not None: scn.setdefault("links", {})["/w/out/gen"] = rng.choice(["/elsewhere", "../gen2"]); scn["dirs"] += ["/elsewhere", "/w/gen2"]
    clutter(rng, scn, argv, 0.2)
    steps, _ = dry(env, scn)
    if rng.random() < 0.35:
        ops = steps[0].res.ops
        oo = [o for o in out_ops(ops) if o.kind != "unlink"]
        if oo:
            o = pick_op(rng, oo)
            scn["steps"][0]["rules"] = [place(ops, o, "err", err=errno_for(rng, o.kind))]
            if o.kind == "write" and rng.random() < 0.5: scn["steps"][0]["rules"].insert(0, place(ops, o, "short", n=max(1, o.arg // 2)))
        elif rng.random() < 0.5: scn["steps"][0]["env"] = {"capacity": 100}
    elif rng.random() < 0.3: add_old(rng, scn, steps[0].res)
    return scn


def conflict(pr, tree, x):
    """outputs that cannot all exist (a file where a directory is needed, two sources wanting one file)"""
    fs = FS(tree, "/")
    outs = [o[1] for e in pr.entries for o in e.outs]
    t = [fs.target(a) for a in outs]
    if len(set(t)) != len(t): return True
    src = {fs.target(e.abs) for e in pr.entries}
    for p in t:
        if p is None or p == "/": return True
        if p in tree and tree[p].t == D: return True
        if p in src: return True
        q = p
        while q.rfind("/") > 0:
            q = q[:q.rfind("/")]
            if q in t or (q in tree and tree[q].t == F): return True
    return False


def check(c, scn):
    steps, model = run(c, scn)
    for x in steps:
        if x.st["op"] == "run": judge(c, scn, model, x)


def judge(c, scn, model, x):
    argv = procs_argv(x.st, 0)
    pr = pred(model, x)
    p, rep = x.procs[0], x.reports[0]
    end = p.ended()
    faulted = [o for o in x.res.ops if o.fault or o.crash]
    reqs = tuple(it["path"] for s in scn["files"].values() if "doc" in s for it in s["doc"] if it["k"] == "write")
    c.sig = (tuple(argv), reqs, tuple(e.status for e in pr.entries), tuple(o.kind for o in faulted))
    c.nontrivial = bool(reqs) or "-o" in argv
    ch = Change(x.pre, x.post)
    disturbed = bool(faulted) or x.st.get("env", {}).get("capacity") is not None
    fs = FS(x.pre, "/")
    tidy = not any(o.fault and o.kind == "unlink" for o in x.res.ops) and end != "crash"
    confl = conflict(pr, x.pre, x)
    c.env.probe("conflicting outputs" if confl else "disturbed" if disturbed else "undisturbed")
    srcs = {fs.resolve(s) for s in scn["files"]}
    for q in sorted(ch.files() | ch.mode):
        if q in pr.written and not (confl and q in srcs and q in x.pre): continue
        if confl and q in srcs: continue  # a document naming a source as its output: covered by the rule for requested paths
        if q not in x.pre and not tidy: continue
        how = "removed" if q in ch.removed else "created" if q in ch.created else "modified"
        c.bad("stray", f"{q} was {how} (options {' '.join(argv)}), but it is no output path; outputs are {sorted(pr.written)[:6]}")
    need = set()
    for e in pr.entries:
        for d, a, b in e.outs:
            q = FS(pr.tree, "/").target(a) or a
            while q.rfind("/") > 0:
                q = q[:q.rfind("/")]
                need.add(q)
            cs = d.split("/")  # creating sub/../out goes through sub
            for i in range(1, len(cs)): need.add(FS(pr.tree, x.cwd).lex("/".join(cs[:i]) or "/"))
    for q in sorted(ch.dirs - need): c.bad("stray-dir", f"directory {q} was created although no output lies below it (options {' '.join(argv)})")
    if confl or disturbed: return
    for e in pr.entries:
        k = rep.status.get(e.src)
        if e.status == "failed":
            if k != "failed": c.bad("not-refused", f"{e.src} asks to write outside the output directory (or has another error) but is reported as {k}; requests {reqs}")
            else: c.env.probe("refused")
        elif e.status in ("ok", "nooutput") and k == "failed" and not pr.abort:
            c.bad("wrongly-refused", f"{e.src} only asks for paths below the output directory but failed: {rep.diag.get(e.src)}")
    if not pr.abort: outputs_exact(c, "not-where-requested", pr, x.post)
