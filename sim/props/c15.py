"""C15: failures are accounted for and attributed to the right place; no run dies."""
import re
import sim, cli, lib, soup
import gen as G
from lib import *

CASES = {"quick": 8000, "thorough": 140000}
RULE = ("each case is a batch of up to six documents under random options: documents with known errors (20 kinds, own or inside modules, anywhere between other constructs and "
        "any Unicode text), warnings and libraries, mixed in half of the cases with hostile documents (token soup, random "
        "expressions over every library function, mutated and truncated texts, odd characters, bounded nesting), also as modules; exit status, summary, per-source lines, "
        "diagnostic counts and positions are compared with the known outcome and with the files on disk; non-trivial: some source fails; distinct by (documents, options, verdicts)")
ASSUME = ["documents with runaway recursion are left out (listed finding)"]

PRE = ["", "", "", "\u00e9", "\u6f22\u5b57 ", "\U0001f600\U0001f600 ", "# \u00fc comment\n", "\n\n\n", "e\u0301 ", "\u3000", "\t"]
DIAG = re.compile(r"^(Module|Name|Runtime|Syntax|Type) error: ", re.M)
WARN = re.compile(r"^Warning: ", re.M)


def gen(rng, env, i, tier):
    w = G.W(rng)
    for _ in range(rng.randint(0, 1)): w.add_data()
    for _ in range(rng.randint(0, 3)): w.add_mod(imports=rng.choice([0, 0, 1, 2]))
    shared = G.add_bad_mod(w, rng.choice(G.BAD_MODS)) if rng.random() < 0.4 else None
    hostile = rng.random() < 0.5
    for _ in range(rng.randint(1, 4)):
        p = w.add_doc(write=0.2, warn=0.2, opq=0.1, n=rng.randint(0, 4))
        if rng.random() < 0.6: G.break_doc(w, p, shared if shared and rng.random() < 0.5 else None)
        for it in w.files[p]["doc"]:
            if it["k"] == "p" and rng.random() < 0.4: it["t"] = rng.choice(["\u00e9", "\u6f22", "\U0001f600", "x\u0301"]) + " " + it["t"]
        w.files[p]["gap"] = rng.choice([2, 2, 2, 3, 5])
    hs = []
    if hostile:
        for _ in range(rng.randint(1, 3)):
            p = w.name(["a0", "hostile", "b5", "zz"], rng.choice([".papyri", ".papyri", ".papyri", ".PAPYRI"]))
            w.files[p] = {"raw": soup.hostile(rng)}
            hs.append(p)
        if rng.random() < 0.3:
            m = w.name(["hm"], ".lib.papyri")
            w.files[m] = {"raw": soup.hostile(rng)}
            p = w.name(["uses_hm"], ".papyri")
            w.files[p] = {"raw": rng.choice(["@import `%s`", "@include `%s`", "x @let(m=@import `%s`){$m}"]) % G.rel_spelling(rng, p.rsplit("/", 1)[0], m, w.dirlist, True)}
            hs += [p]
    argv = list(rng.choice(OUTS))
    if rng.random() < 0.15: argv.append(rng.choice(["-s", "--silent"]))
    if rng.random() < 0.15: argv.append("--ignore-warnings")
    if rng.random() < 0.1: argv.append("-u")
    G.decorate(w, 0.3)
    many = G.enlarge(w, 0.06) in ("docs", "bad") and rng.random() < 0.6
    if many and "-u" not in argv and rng.random() < 0.6: argv.append("-u")
    scn = G.world(w, hostile=hs, steps=[{"op": "run", "argv": argv}], env=rand_env(rng) if rng.random() < 0.2 else {})
    if many or rng.random() < 0.15: scn["steps"].append({"op": "run", "argv": argv})
    return scn


def shrink(scn):
    """smaller hostile texts"""
    for p in scn.get("hostile", []):
        t = scn["files"].get(p, {}).get("raw", "")
        n = len(t)
        for size in (n // 2, n // 4, n // 8, 3, 1):
            if size < 1: continue
            for a in range(0, n, size):
                def m(s, p=p, a=a, size=size, t=t):
                    if s["files"][p]["raw"] != t: return False
                    s["files"][p]["raw"] = t[:a] + t[a + size:]
                yield m


def check(c, scn):
    steps, model = run(c, scn, fill=False)
    sigs = []
    for x in steps:
        if x.st["op"] != "run": continue
        judge(c, scn, model, x, sigs)
        if c.viol: break
    c.sig = tuple(sigs)


def recursion(scn, err):
    return b"has overflowed its stack" in err and any("@fn" in (s.get("raw") or "") for s in scn["files"].values())


def judge(c, scn, model, x, sigs):
    hs = set(scn.get("hostile", []))
    pr = pred(model, x)
    p, rep = x.procs[0], x.reports[0]
    o = pr.opts
    end = p.ended()
    sigs.append((tuple(x.st["argv"]), end, tuple(sorted(rep.status.items())), tuple((e.src, e.status) for e in pr.entries)))
    if recursion(scn, p.err) and not p.rc == 101:
        c.env.probe("known finding: runaway recursion")
        return
    if end not in ("exit 0", "exit 1"):
        c.bad("died", f"the run ends with {end}: {p.err[-400:].decode(errors='replace')}")
        return
    if pr.abort: return
    err = p.err.decode(errors="replace")
    if rep.summary is None and not (o["s"] and end == "exit 0"):
        c.bad("stopped", f"the run stops before the end although every source can be read and written ({end}): {err[-300:]}")
        return
    fs = FS(x.pre, "/w")
    known_mods = set()
    nwritten = nok = nfail = nskip = 0
    quiet = o["s"]
    ch = Change(x.pre, x.post)
    for e in pr.entries:
        k = rep.status.get(e.src)
        hot = e.abs in hs
        if hot:
            c.env.probe("hostile document " + (k or "quiet"))
            if k == "failed":
                locs = rep.locs.get(e.src, [])
                text = x.pre[e.abs].data.decode()
                lines = text.split("\n")
                mods = [q for q in x.pre if cli.is_library(q)]
                if not any((fs.lex(f) == e.abs or fs.lex(f) in mods) and (fs.lex(f) != e.abs or 1 <= l <= len(lines) and 1 <= cc <= len(lines[l - 1]) + 1) for f, l, cc in locs):
                    c.bad("no-position", f"{e.src} failed, but no error names a place in it: {rep.diag.get(e.src, '')[:500]}")
                for f, l, cc in locs:
                    n = x.pre.get(fs.resolve(f) or "")
                    if n is None: continue
                    ls = n.data.decode(errors="replace").split("\n")
                    if not (1 <= l <= len(ls) and 1 <= cc <= len(ls[l - 1]) + 1): c.bad("no-position", f"{e.src}: an error names line {l}, column {cc} of {f}, which has no such place")
                    # on the first character of a construct, never inside a character sequence cut apart
            elif k is None and not (quiet): c.bad("unreported", f"{e.src} is handled without a status line")
            st = k or "quiet"
        else:
            st = e.status
            if st == "failed":
                if k != "failed": c.bad("not-failed", f"{e.src} has errors {e.out.errors[:2]} but is reported as {k}")
                else: positions(c, e, rep, fs, known_mods)
            elif st == "ok" or st == "nooutput":
                w = e.out.warnings
                if not e.out.known: w = None
                if w: want = "warn"
                else: want = "ok" if st == "ok" else "nooutput"
                mw = e.out.mod_warnings
                if quiet and want != "warn": want = None
                if mw and k == "warn": want = "warn"
                if w is not None and k != want: c.bad("status", f"{e.src} is reported as {k}, expected {want}: {rep.diag.get(e.src, '')[:300]}")
                elif k == "warn" and w is not None and not (0, w) <= rep.counts[e.src] <= (0, w + mw): c.bad("count", f"{e.src} is reported with {rep.counts[e.src]} errors and warnings, expected {(0, w)}")
            elif k != (None if quiet else st): c.bad("status", f"{e.src} is reported as {k}, expected {st}")
        if k == "failed" or k == "warn":
            d = rep.diag.get(e.src, "")
            n = (len(DIAG.findall(d)), len(WARN.findall(d)))
            if o["w"]: n = (n[0], rep.counts[e.src][1])  # counted, not printed
            if not hot and n != rep.counts[e.src]: c.bad("count", f"{e.src} is reported with {rep.counts[e.src]} errors and warnings, but {n} are printed")
        if e.out: known_mods |= e.out.mods
        if k == "failed": nfail += 1
    # the numbers against what happened
    files = {q for q in ch.created | ch.content | ch.touched}
    announced = [fs.lex(q) for q in rep.wrote]
    fs2 = FS(x.post, "/w")
    odd = any("\n" in q for q in files)  # a hostile document asked for a name of several lines; the announcement cannot be told apart
    if not quiet and not odd:
        for q in rep.wrote:
            if not fs2.isfile(q): c.bad("announced", f"{q} is announced as written but is not there")
        real = {fs2.resolve(q) for q in rep.wrote}
        for q in sorted(files):
            if q not in real: c.bad("unannounced", f"{q} was written without being announced")
    if rep.summary and not c.viol:
        w, ok, f, s = rep.summary
        ks = list(rep.status.values())
        if f != nfail: c.bad("summary", f"the summary counts {f} failed sources, {nfail} are reported as failed")
        if not quiet:
            if w != len(rep.wrote): c.bad("summary", f"the summary counts {w} files written, {len(rep.wrote)} are announced")
            skipped = sum(k in ("lib", "unchanged", "nooutput") for k in ks)
            wrote_src = {e.src: e for e in pr.entries if e.status == "nooutput" and rep.status.get(e.src) == "warn"}
            empty_hot = sum(1 for e in pr.entries if e.abs in hs and rep.status.get(e.src) == "warn")
            okn = sum(k in ("ok", "warn") for k in ks)
            if ok + f + s != len(pr.entries): c.bad("summary", f"the summary {rep.summary} accounts for {ok + f + s} of {len(pr.entries)} sources")
            if not empty_hot and (ok != okn - len(wrote_src) or s != skipped + len(wrote_src)): c.bad("summary", f"the summary {rep.summary} disagrees with the lines above it: {rep.status}")
        else:
            if ok + f + s != len(pr.entries): c.bad("summary", f"the summary {rep.summary} accounts for {ok + f + s} of {len(pr.entries)} sources")
    want = "exit 1" if nfail else "exit 0"
    if end != want: c.bad("exit", f"{end}, but {nfail} sources failed")
    if bool(nfail) != (rep.sum_on == "err") and rep.summary: c.bad("exit", f"the summary of a run with {nfail} failures goes to std{rep.sum_on}")
    outputs_exact(c, "outputs", pr, x.post, only={e.src for e in pr.entries if e.abs not in hs})
    for q in sorted(files):
        if q not in pr.written and not hs: c.bad("outputs", f"{q} was written, but no successful source produces it")
    if nfail: c.nontrivial = True


def positions(c, e, rep, fs, known_mods):
    got = {(fs.lex(f), l, cc) for f, l, cc in rep.locs.get(e.src, [])}
    diag = rep.diag.get(e.src, "")[:500]
    for i, q in enumerate(e.out.errors):
        if tuple(q) in got: return
        # reached through a module that already failed in this batch: the error is reported where it is imported
        for mod, pos in e.out.chains[i]:
            if mod in known_mods and tuple(pos) in got:
                c.env.probe("error attributed to the import of a module that failed before")
                return
    c.bad("position", f"{e.src}: no error at {e.out.errors[:3]}; reported: {sorted(got)[:6]}: {diag}")


def findings(env, text):
    if "recursion" not in text: return None
    t = "@fn f $x -> @f $x\n\n@f 1\n"
    scn = {"cwd": "/w", "files": {"/w/a.papyri": {"raw": t}, "/w/b.papyri": {"doc": [{"k": "p", "t": "after"}]}}, "steps": [{"op": "run", "argv": []}], "env": {}}
    steps, model = sim.execute(env, scn)
    p = steps[0].procs[0]
    if p.ended() in ("exit 0", "exit 1"): return None
    return f"{text} (now: {p.ended()})"
