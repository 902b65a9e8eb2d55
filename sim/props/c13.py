"""C13: source discovery is complete, duplicate-free and ordered."""
import re
import sim, cli, lib
import gen as G
from lib import *

CASES = {"quick": 10000, "thorough": 160000}
RULE = ("each case is a directory tree of up to some thirty entries (extensions in any case, libraries, look-alikes, hidden names, directories with Papyri "
        "names, links to files, directories and nowhere) and a mixture of up to four file, directory and glob arguments with repetitions; enumeration "
        "order and entry types vary, and in a third of the cases listing or examining one entry fails; the handled sources, their order and the files "
        "written are compared with an independent walk; non-trivial: at least two sources; distinct by (arguments, sources, fault)")

NAMES = ["a.papyri", "b.papyri", "c.PAPYRI", "D.Papyri", "e.lib.papyri", "f.LIB.papyri", "g.Lib.PAPYRI", "papyri", ".papyri", "x.papyri.txt", "x.papyri~", "y.papyr", "z.html",
         ".h.papyri", "i j.papyri", "\u00fc.papyri", "k.l.papyri", "lib.papyri", "m.papyriX", "n.papyri.papyri", "a-b.papyri", "A.papyri", "a0.papyri", "[q].papyri", "README.md", "..p.papyri", "B.papyri", "E.lib.papyri", "u\u0308.papyri", "a .papyri", "r.lib.papyri.papyri", "s.papyri.lib.papyri", ".lib.papyri", "t.lib", "v.lib.papyri.txt"]
DN = ["sub", "sub/deep", "a", "a.d", "a.d/b", "pages.papyri", "pages.papyri/in", ".hid", "\u00fcber", "z z", "a-b", "Sub", "A"]


def gen(rng, env, i, tier):
    dirs = [""] + [d for d in DN if rng.random() < 0.4]
    files, links = {}, {}
    for d in dirs:
        for n in rng.sample(NAMES, rng.randint(0, 6)):
            if rng.random() < 0.12: n = n[:1] + re.sub("(?i)(lib[.])?papyri", lambda m: "".join(rng.choice([c.lower(), c.upper()]) for c in m.group()), n[1:])
            p = "/w/" + (d + "/" if d else "") + n
            low = cli.set_ext(p, "") if cli.is_papyri(p) else p
            if any(cli.is_papyri(q) and cli.set_ext(q, "") == low for q in files): continue
            files[p] = {"raw": "r%d\n" % len(files), "html": "<p>r%d</p>" % len(files), "text": "r%d\n\n" % len(files)}
    if rng.random() < 0.06:  # a long chain of directories
        d, n = rng.choice(dirs), rng.choice([6, 9, 12, 20, 33, 40])
        for k in range(n):
            d = (d + "/" if d else "") + rng.choice(["d", "dd", "n.d"])
            if rng.random() < 0.2 or k == n - 1: files["/w/" + d + "/deep%d.papyri" % k] = {"raw": "deep%d\n" % k, "html": "<p>deep%d</p>" % k, "text": "deep%d\n\n" % k}
            dirs.append(d)
    if rng.random() < 0.06:  # many entries
        d = rng.choice(dirs)
        for k in range(rng.choice([40, 70, 130, 260])):
            if rng.random() < 0.15: files["/w/" + (d + "/" if d else "") + "many%d.papyri" % k] = {"raw": "many%d\n" % k, "html": "<p>many%d</p>" % k, "text": "many%d\n\n" % k}
            else: files["/w/" + (d + "/" if d else "") + rng.choice(["o%d.txt", "o%d", ".o%d", "o%d.html.bak", "o%d.papyri~"]) % k] = {"raw": "o%d\n" % k, "html": "<p>o%d</p>" % k, "text": "o%d\n\n" % k}
    D_ = ["/w/" + d for d in dirs if d]
    if rng.random() < 0.35:
        for k in range(rng.randint(1, 3)):
            base = rng.choice(dirs)
            n = "/w/" + (base + "/" if base else "") + rng.choice(["lnk%d", "lnk%d.papyri", "lnk%d.lib.papyri", "lnk%d.PAPYRI"]) % k
            links[n] = rng.choice((sorted(files) or ["/w"]) + ["/w/sub", "nowhere", "/w", "..", "/out/far.papyri", "/out"])
            if links[n].startswith("/out"): files.setdefault("/out/far.papyri", {"raw": "far\n", "html": "<p>far</p>", "text": "far\n\n"})
    args = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        x = rng.random()
        if x < 0.35: args.append(rng.choice([".", "./", "/w", "/w/", "../w", "sub", "sub/", "./sub", "sub/deep", "sub/..", "pages.papyri", ".//sub", "a.d", "/w/sub/../a"]))
        elif x < 0.6 and files:
            p = rng.choice(sorted(files) + sorted(links))
            args.append(rng.choice([p, p[3:] if p.startswith("/w/") else p, "./" + p[3:] if p.startswith("/w/") else p]))
        elif x < 0.95: args.append(rng.choice(["*", "*.papyri", "**/*.papyri", "**/*", "*/*.papyri", "?.papyri", "[ab].papyri", "[!a].papyri", "sub/*", "./*.papyri", "/w/*.papyri", "*.PAPYRI", "*/", "**/", "**", "*.lib.papyri", "a*", "**/*.Papyri", "*/*/*", "../w/*.papyri", "../w/**/*.papyri", "../*/*.papyri", "sub/../*.papyri", "./../w/*"]))
        else: args.append(rng.choice(["nothere", "z.html", "x.papyri.txt"]))
    args = [a for a in args if not (any(ch in a for ch in "*?[]") and a.endswith("/"))]
    args = [a.replace("[q]", "[[]q]") if "[q]" in a and rng.random() < 0.5 else a for a in args if "[q]" not in a or rng.random() < 0.9]
    if rng.random() < 0.3 and args: args.append(rng.choice(args))
    if any("**" in a for a in args): links = {k: v for k, v in links.items() if v in files or v == "nowhere"}
    argv = rng.choice([[], [], ["-o", "out"], ["-t"], ["--ignore-warnings"]]) + args
    scn = {"cwd": "/w", "files": files, "links": links, "dirs": D_ + ["/w"], "mounts": [rng.choice(D_)] if D_ and rng.random() < 0.12 else [], "steps": [{"op": "run", "argv": argv}],
           "env": {"readdir_seed": rng.randrange(1 << 30), "hash_seed": rng.randrange(1 << 30), "dtype_unknown": rng.random() < 0.3}}
    clutter(rng, scn, argv, 0.1)
    if rng.random() < 0.35:
        ops = sim.execute(env, scn)[0][0].res.ops
        cut = next((k for k, o in enumerate(ops) if o.kind == "open" and o.path and cli.is_papyri(o.path)), len(ops))
        ks = [o for o in ops[:cut] if o.kind in ("opendir", "readdir", "lstat", "realpath", "stat") and o.path and not stdio(o) and not (o.kind == "stat" and cli.is_papyri(o.path))]
        if ks:
            o = pick_op(rng, ks)
            r = rule("err", kinds=[o.kind], path=o.path, err=rng.choice(["EACCES", "EIO", "EMFILE"] if o.kind == "opendir" else ["EIO"] if o.kind == "readdir" else ["EACCES", "EIO"]))
            if o.kind == "readdir": r["skip"] = sum(1 for z in ops[:ops.index(o)] if z.kind == o.kind and z.path == o.path)
            elif rng.random() < 0.5: r["count"] = -1
            scn["steps"][0]["rules"] = [r]
    if "rules" not in scn["steps"][0] and rng.random() < 0.1 and not any(ch in a for a in args for ch in "*?[]"):
        for k in range(rng.choice([1, 1, 2])):  # names that are not UTF-8
            d = rng.choice(dirs)
            files["/w/" + (d + "/" if d else "") + rng.choice(["n%d\udcff", "\udcc3n%d", "n%d\udce6\udcbc", "n%d.\udcff"]) % k + rng.choice([".papyri", ".PAPYRI", ".lib.papyri", ".txt"])] = {"raw": "nu%d\n" % k, "html": "<p>nu%d</p>" % k, "text": "nu%d\n\n" % k}
    return scn


def shown(s):
    return s.encode("utf-8", "surrogateescape").decode("utf-8", "replace")


def ok_glob(scn, argv):
    """the glob model covers these"""
    return True


def check(c, scn):
    steps, model = run(c, scn)
    x = steps[0]
    pr = pred(model, x)
    pr.sources = [shown(s) for s in pr.sources]
    for e in pr.entries: e.src = shown(e.src)
    p, rep = x.procs[0], x.reports[0]
    end = p.ended()
    argv = x.st["argv"]
    o = cli.parse_args(argv)
    rules = x.st.get("rules", [])
    fired = [q for q in x.res.ops if q.fault]
    c.sig = (tuple(argv), tuple(pr.sources), tuple((q.kind, q.path) for q in fired[:1]))
    c.nontrivial = len(pr.sources) >= 2
    if end not in ("exit 0", "exit 1"):
        c.bad("died", f"the run ends with {end}: {p.err[-300:].decode(errors='replace')}")
        return
    got = rep.status
    keys = {cli.lexkey(s): s for s in pr.sources}
    has_glob = any(ch in a for a in o["paths"] for ch in "*?[]")
    err = p.err.decode(errors="replace")
    ctx = f"arguments {argv}, " + (f"fault {fired[0]!r}, " if fired else "")
    for s in got:
        # what cannot be examined may be taken for the source its name says it is, when it is named or matched by a pattern
        if fired and cli.is_papyri(s) and any(q.kind in ("stat", "lstat") and FS(x.pre, "/w").resolve(s) == q.path for q in fired) and (has_glob or any(cli.lexkey(a) == cli.lexkey(s) for a in o["paths"])): continue
        if cli.lexkey(s) not in keys: c.bad("not-a-source", f"{ctx}{s} is handled, but it is no source the arguments lead to (expected {pr.sources[:8]})")
    for s in rep.dups: c.bad("twice", f"{ctx}{s} is handled twice")
    if not fired:
        lim = None
        if pr.abort:
            lim = [e.src for e in pr.entries if e.status not in ("loaderr", "badout")]
            if end != "exit 1": c.bad("exit", f"{ctx}{pr.abort.src} cannot be handled ({pr.abort.status}), but the run ends with {end}")
        for s in (pr.sources if lim is None else lim):
            if s not in got: c.bad("missed", f"{ctx}{s} is not handled; handled: {rep.order[:8]}; {err[-200:]}")
        for e in pr.entries:
            if e.status == "lib" and got.get(e.src) not in (None, "lib"): c.bad("library", f"{ctx}library {e.src} is reported as {got.get(e.src)}")
            if e.status != "lib" and got.get(e.src) == "lib": c.bad("library", f"{ctx}{e.src} is no library but is skipped as one")
        order = [s for s in rep.order if cli.lexkey(s) in keys]
        if not rep.dups and order != [s for s in pr.sources if s in got]: c.bad("order", f"{ctx}handled in order {order}, expected {pr.sources}")
        for a in pr.notes:
            if '"%s"' % a not in err and a not in err: c.bad("note", f"{ctx}argument {a} is not a source, but nothing is said about it")
        if lim is None:
            outputs_exact(c, "outputs", pr, x.post)
        ch = Change(x.pre, x.post)
        for q in sorted(ch.files()):
            if q not in pr.written and lim is None: c.bad("outputs", f"{ctx}{q} is written, but no source has it as output")
        c.env.probe("arguments with globs" if has_glob else "plain arguments")
    else:
        q = fired[0]
        miss = [s for s in pr.sources if s not in got]
        if pr.abort: return
        under = lambda s: below(x, s, q.path, links=scn.get("links", {}))
        fatal = end == "exit 1" and not rep.summary
        if miss and not fatal:
            c.env.probe("listing fault tolerated")
            # for a pattern, an entry that cannot be examined counts as one that is not there
            if has_glob and q.kind in ("stat", "lstat"): return
            for s in miss:
                if not under(s): c.bad("missed", f"{ctx}{s} is not handled although it does not lie below {q.path}; {err[-200:]}")
            nm = q.path.rsplit("/", 1)[-1]
            # an error in the middle of a listing carries the name of the argument only
            bases = [FS(x.pre, "/w").resolve(a) for a in (o["paths"] or ["."])]
            if q.kind == "readdir" and any(b and '"%s"' % b in err and (b == "/" or (q.path + "/").startswith(b + "/")) for b in bases): return
            # naming the argument that could not be examined, or taking it for a source, is fine too
            if any(FS(x.pre, "/w").resolve(a) == q.path and (a in err or any(cli.lexkey(a) == cli.lexkey(g) for g in got)) for a in o["paths"]): return
            if nm not in err and not (q.kind == "readdir" and err and any(z and z in err for z in q.path.split("/"))) and (q.path != "/w" or not err): c.bad("unreported", f"{ctx}{miss[:3]} not handled, but stderr does not name {q.path}: {err[-300:]}")
        elif fatal:
            c.env.probe("listing fault stops the run")
            if not err.strip(): c.bad("unreported", f"{ctx}the run stops without explanation")
            src_fault = any(FS(x.pre, "/w").resolve(s) == q.path for s in pr.sources)
            if not has_glob and not src_fault and q.path != "/w" and not explicit(x, o["paths"], q.path) and rules_in_discovery(x, q, pr.sources):
                c.bad("stopped", f"{ctx}failing to examine {q.path} stops the run although the rest could be handled: {err[-300:]}")


def rules_in_discovery(x, q, srcs):
    """the fault hit before the first source was opened"""
    opened = {FS(x.pre, "/w").resolve(s) for s in srcs}
    for o in x.res.ops:
        if o is q: return True
        if o.kind == "open" and o.path and (cli.is_papyri(o.path) or o.path in opened) and o.ret >= 0: return False
    return True


def explicit(x, paths, q):
    fs = FS(x.pre, "/w")
    return any(fs.resolve(a) == q or fs.lex(a) == q for a in (paths or ["."]))


def below(x, s, q, links):
    """source s (as displayed) is q or lies below it, by any route"""
    fs = FS(x.pre, "/w")
    r = fs.resolve(s)
    if r is not None and (r == q or r.startswith(q.rstrip("/") + "/")): return True
    l = fs.lex(s)
    if l == q or l.startswith(q.rstrip("/") + "/"): return True
    # reached only through a link that could not be examined
    return any(fs.resolve(k) == r or k == q for k in links) if links else False
