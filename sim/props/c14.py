"""C14: files a document reads are taken whole and exact, or the document fails."""
import sim, cli, lib
import gen as G
from lib import *

CASES = {"quick": 7000, "thorough": 120000}
RULE = ("each case is a batch whose documents read data files, modules and directory listings with sizes around buffer boundaries (0 to 70 kB, multi-byte "
        "characters across every boundary, invalid UTF-8 at any position), under chunked (down to one byte) and interrupted reads, and in half of the cases an open, stat, "
        "read or listing call on one of the files failing once or persistently, at the first or a later read; non-trivial: a document reads something "
        "besides itself or a read is disturbed; distinct by (files read with sizes, environment, faulted operation, verdicts)")
SIZES = [0, 1, 31, 32, 33, 63, 64, 65, 100, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000, 65535, 65537, 70001]


def body(rng):
    n = rng.choice(SIZES[:12] if rng.random() < 0.6 else SIZES)
    unit = rng.choice(["x", "ab ", "\u00e9", "\u6f22", "\U0001f600", "a\u6f22", "abc\u00e9", "<&\"'>"])
    s = (unit * (n // len(unit.encode()) + 1)).encode()[:n]
    while True:
        try:
            s.decode()
            break
        except UnicodeDecodeError: s = s[:-1]
    if not s: return rng.choice(["", "", "."])  # content of white space only is dropped by the markup
    return rng.choice([""] * 12 + ["\ufeff", "\ufeff", "\n\n", "\r\n", "\t ", "#", "\\", "@", "\x00", "\u200b"]) + s.decode() + rng.choice(["", "", "\n", "\r\n", "\u00e9", "\ufeff" if n > 1000 else "."])


def gen(rng, env, i, tier):
    w = G.W(rng)
    bad_data = None
    for _ in range(rng.randint(1, 3)):
        p = w.add_data()
        w.files[p] = {"raw": body(rng)}
    if rng.random() < 0.2:
        bad_data = w.add_data()
        b = body(rng).encode()
        k = rng.choice([0, len(b), rng.randint(0, len(b))])
        b = b[:k] + rng.choice([b"\xff", b"\xc3", b"\xe6\xbc", b"\xf0\x9f\x98", b"\xc0\x80", b"\xed\xa0\x80"]) + b[k:]
        try: b.decode()
        except UnicodeDecodeError: w.files[bad_data] = {"raw": b.hex(), "hex": 1}
    if rng.random() < 0.3: w.add_twins()
    for _ in range(rng.randint(0, 2)):
        m = w.add_mod(imports=rng.choice([0, 0, 1]), data=0.4)
        if rng.random() < 0.3: w.files[m]["mod"].setdefault("items", []).append({"k": "p", "t": "pad " + "\u6f22" * rng.choice([10, 2728, 2731, 6000])})
    for _ in range(rng.randint(1, 3)):
        w.add_doc(reads=0.6, mods=0.4, opq=0, lists=0.25, uid=0.05, big=0.2, n=rng.randint(1, 4))
    if rng.random() < 0.2:
        d = rng.choice(w.docs)
        w.files[d]["doc"].append({"k": "read", "path": rng.choice(["no/such", "missing.txt", ".", "sub"])})
    if rng.random() < 0.15:  # files whose size is not known beforehand, as in /proc
        for p in rng.sample(sorted(w.files), rng.randint(1, len(w.files))): w.files[p]["mode"] = 0o101644
    G.enlarge(w, 0.03, ["chain", "fan", "long", "far", "reads", "docs"])
    argv = list(rng.choice([[], ["-t"], ["-o", "out"]])) + flags(rng, 0.08)
    scn = G.world(w, steps=[{"op": "run", "argv": argv}], env={"readdir_seed": rng.randrange(999), "hash_seed": rng.randrange(99), "dtype_unknown": rng.random() < 0.2})
    chained = rng.random() < 0.15
    if chained:
        # documents also read what this run writes: before it is replaced, and after
        for _ in range(rng.randint(1, 2)):
            q = cli.set_ext(("/w/out" if "-o" in argv else "/w") + rng.choice(w.docs)[2:], "txt" if "-t" in argv else "html")
            if rng.random() < 0.8: scn.setdefault("old", {})[q] = {"data": rng.choice(["as it was before ", "<b>old</b> ", ""]) * rng.choice([1, 1, 999]), "age": 5000}
            for d in w.docs:
                if rng.random() < 0.75 and not any(it["k"] == "err" for it in w.files[d]["doc"]): w.files[d]["doc"].append({"k": "read", "path": G.rel_spelling(rng, d.rsplit("/", 1)[0], q, w.dirlist, True)})
    st = scn["steps"][0]
    ops = sim.execute(env, scn)[0][0].res.ops
    if rng.random() < 0.6:
        transfer(rng, ops, scn["env"], writes=False)
        if rng.random() < 0.5: ops = sim.execute(env, scn)[0][0].res.ops
    if not chained and rng.random() < 0.55:
        made = {o.path for o in ops if o.created} | {o.path2 for o in ops if o.kind == "rename"}
        made |= {o.path for o in ops if o.kind == "mkdir"} | {q.rsplit("/", 1)[0] for q in made if q}  # creating output folders examines them
        ks = [o for o in ops if o.kind in ("open", "read", "stat", "fstat", "lseek", "opendir", "readdir", "realpath", "lstat") and o.path and not stdio(o) and o.path not in made]
        first = next((k for k, o in enumerate(ops) if o.kind == "open" and o.path and cli.is_papyri(o.path)), 0)
        ks = [o for o in ks if ops.index(o) >= first] or ks
        if ks:
            o = pick_op(rng, ks)
            r = place(ops, o, "err", err=rng.choice(["EIO", "EACCES", "ESTALE", "ENOMEM"] if o.kind != "open" else ["EIO", "EACCES", "ENOENT", "EMFILE"]), count=rng.choice([1, -1]))
            if rng.random() < 0.3: r.pop("skip", None); r["count"] = -1
            st["rules"] = [r]
    return scn


def check(c, scn):
    steps, model = run(c, scn)
    x = steps[0]
    p, rep = x.procs[0], x.reports[0]
    pr = pred(model, x)
    end = p.ended()
    fired = [o for o in x.res.ops if o.fault and o.ret != -4]
    files = {q.path for q in fired}
    c.sig = (tuple(sorted((e.src, tuple(sorted((r, len(x.pre[r].data) if r in x.pre else -1) for r in e.out.reads))) for e in pr.entries if e.out)),
             tuple(sorted((k, v) for k, v in scn["env"].items() if "seed" not in k)), tuple((o.kind, o.path) for o in fired[:2]), tuple(sorted(rep.status.items())))
    c.nontrivial = bool(fired) or bool(set(scn["env"]) & {"max_read", "eintr_every"}) or any(e.out and len(e.out.reads) > 1 for e in pr.entries)
    if end not in ("exit 0", "exit 1"):
        c.bad("died", f"the run ends with {end}: {p.err[-300:].decode(errors='replace')}")
        return
    err = p.err.decode(errors="replace")
    outset = {}
    for e in pr.entries:
        for d, a, b in e.outs: outset[a] = b
    fs = FS(x.post, "/")
    disc = before_first_source(x, fired)
    # nothing is ever built from a partial or altered read
    ch = Change(x.pre, x.post)
    for q in sorted(ch.files()):
        if q not in pr.written: c.bad("altered", f"{q} is written, but no source with intact reads produces it (faults: {fired[:2]})")
        elif pr.written[q] is not None and x.post.get(q) is not None and x.post[q].data != pr.written[q]:
            c.bad("altered", f"output {q} is not what the files it was built from give, {differ(pr.written[q], x.post[q].data)} (faults: {fired[:2]}, environment {scn['env']})")
    stopped = end == "exit 1" and rep.summary is None
    if stopped and pr.abort is None:
        srcs = {FS(x.pre, "/w").resolve(e.src) for e in pr.entries}
        if not (files & srcs) and not disc: c.bad("stopped", f"the run stops although every source can be read: {err[-300:]} (faults: {fired[:2]})")
        elif files & srcs and not any(f.rsplit("/", 1)[-1] in err for f in files): c.bad("unnamed", f"the run stops without naming {files}: {err[-300:]}")
        c.env.probe("source unreadable")
        return
    if disc or pr.abort: return
    for e in pr.entries:
        if e.out is None: continue
        k = rep.status.get(e.src)
        hit = e.out.reads & files or (fired and any(it["k"] == "list" for it in scn["files"].get(e.abs, {}).get("doc", [])))
        miss = any(o.kind in ("open", "realpath", "stat", "lstat", "opendir", "readdir") for o in fired)
        if e.status == "failed":
            if k != "failed": c.bad("not-failed", f"{e.src} reads something missing or invalid but is reported as {k}")
            elif not any((x2[0], x2[1], x2[2]) in {(FS(x.pre, '/w').lex(f), l, cc) for f, l, cc in rep.locs.get(e.src, [])} or e.out.chains[i] for i, x2 in enumerate(e.out.errors)):
                c.bad("unnamed", f"{e.src}: no error at {e.out.errors[:2]}: {rep.diag.get(e.src, '')[:300]}")
            continue
        if k == "failed":
            if not fired: c.bad("wrongly-failed", f"every read of {e.src} succeeds in the end, but it failed: {rep.diag.get(e.src, '')[:400]} (environment {scn['env']})")
            else:
                d = rep.diag.get(e.src, "")
                c.env.probe("failed because of a failing read")
                names = [f.rsplit("/", 1)[-1] for f in files]
                par = [f.rsplit("/", 2)[-2] for f in files if f.count("/") > 1]
                if not hit and not any(n in d for n in names + par): c.bad("wrongly-failed", f"{e.src} does not read {files} but failed: {d[:400]}")
                elif not any(n in d or n[:-7] in d for n in names + par if n) and "previous error" not in d and not listing_of(scn, e): c.bad("unnamed", f"{e.src} fails because of {fired[0]!r}, but its errors name none of {names}: {d[:400]}")
        elif k in ("ok", "warn", "nooutput"):
            hard = [o for o in fired if o.kind in ("open", "read") and o.path in e.out.reads]
            if hard and persistent(x.st) and o_first_hit(x, hard): c.bad("not-failed", f"{e.src} is reported as {k} although {hard[0]!r} failed persistently")
            outputs_exact(c, "altered", pr, x.post, only=[e.src], what=f"(faults {fired[:2]}) output")
        elif k is None: c.bad("unhandled", f"{e.src} is not handled ({end}); {err[-300:]}")


def listing_of(scn, e):
    return any(it["k"] == "list" for it in scn["files"].get(e.abs, {}).get("doc", []))


def persistent(st):
    return all(r.get("count", 1) < 0 and not r.get("skip") for r in st.get("rules", []))


def o_first_hit(x, hard):
    return True


def before_first_source(x, fired):
    """a fault hit discovery, before any source was opened"""
    for o in x.res.ops:
        if o.fault and o.ret != -4 and o.kind != "open": return True
        if o.kind == "open" and o.path and cli.is_papyri(o.path): return False
    return False
