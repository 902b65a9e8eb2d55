"""C05: a source's result does not depend on what else was compiled before it."""
import sim, cli, lib
import gen as G
import soup, rich
from lib import *

CASES = {"quick": 3500, "thorough": 60000}
RULE = ("each case is a set of two to six documents that define the same names, draw the same unique ids, import the same modules (some broken, some drawing "
        "ids or defining functions), ask to write files and fail at any point; one simulated process compiles them all, then one process each compiles a "
        "single one on the same initial tree, and outputs and verdicts are compared per source, also for a random subset; a third of the cases reads "
        "through short and interrupted reads; a quarter of the cases instead makes the calls of a program which resets and reuses one compiler context, against a fresh "
        "context for each; hostile texts are mixed in; non-trivial: at least two sources compiled in one process; distinct by (verdicts, features, subset)")

SHARED = ["@fn helper $c: inline -> <i>%s $c</i>\n\n@helper{q}", "@let(a=`%s`){$a}", "@export(z=`%s`).", "@fn code $c: inline -> {%s $c}\n\n@code{x}",
          "@let(list=`%s`){shadow $list}", "@code(language=`rust`) `let %s = 1;`", "@match `k=%s` {\"k=$v\" -> $v, _ -> none}",
          "A@footnote{%s} note", "@code_block(language=`python`) ```\ndef %s(): pass\n```"]


API = 0.25


def shared_piece(rng, w):
    """a fragment; in some worlds all use one feature, with the same few arguments combined in several ways"""
    if w.focus is not None and rng.random() < 0.7: return "\n\n".join(rich.frag(rng, w.focus) for _ in range(rng.choice([1, 2, 4])))
    return rng.choice(SHARED) % rng.choice(["one", "two", "three"]) if rng.random() < 0.4 else rich.frag(rng)


def gen_api(rng, w, tier):
    """one context reset and reused, against a fresh context for each job"""
    jobs = []
    for _ in range(much(rng, tier, rng.randint(2, 6))):
        x = rng.random()
        if x < 0.6: j = ["load", rng.choice(w.docs)[3:]]
        elif x < 0.7 and hasattr(w, "rich") and rng.random() < 0.5: j = ["cached", w.rich[0][0][3:]]
        elif x < 0.7 and w.mods: j = ["cached", rng.choice(w.mods)[3:]]
        elif x < 0.85: j = ["str", "s%d" % len(jobs), shared_piece(rng, w) + "\n\n" + soup.hostile(rng)]
        else: j = ["str", "s%d" % len(jobs), "\n\n".join(shared_piece(rng, w) for _ in range(3))]
        jobs.append(j)
    new = ["new", rng.choice(["warning", "error", "all"]), rng.choice(["out", "out", "-"])]
    m = rng.choice(["html", "html", "text"])

    def prog(js):
        p = [new]
        for j in js: p += [j, ["render", m, "plain"]]
        return p
    steps = [{"op": "api", "threads": [prog(jobs)]}]
    for j in jobs: steps.append({"op": "api", "threads": [prog([j])]})
    return steps


def has_modwarn(scn):
    """a module has warnings: they are given once per compilation of the module, not to every importer"""
    return any(it["k"] == "warn" for f in scn["files"].values() if "mod" in f for it in f["mod"].get("items", []))


def check_api(c, scn, steps):
    apis = [x for x in steps if x.st["op"] == "api"]
    for x in apis:
        if x.procs[0].ended() != "exit 0":
            c.bad("died", f"calls {x.st['threads'][0]} end with {x.procs[0].ended()}: {x.procs[0].err[-300:].decode(errors='replace')}")
            return
    if not apis: return
    solo = {}
    for x in apis[1:]:
        ops = x.st["threads"][0]
        if len(ops) == 3: solo.setdefault(repr(ops[1]), x.api[0][1:])
    batch = apis[0]
    ops, res = batch.st["threads"][0], batch.api[0]
    n = 0
    for k in range(1, len(ops) - 1, 2):
        one = solo.get(repr(ops[k]))
        if one is None: continue
        n += 1
        a, b = one[0].split(" "), res[k].split(" ")
        fa, fb = [not t[0] in ("loaded", "compiled", "cached") or t[1] != "0" for t in (a, b)]
        what = f"call {ops[k]!r}, as number {(k + 1) // 2} of {[o[:2] for o in ops[1::2]]} in a reused context,"[:600]
        if fa != fb: c.bad("api-verdict", f"{what} gives {res[k][:300]} but in a fresh context {one[0][:300]}")
        elif fa: continue
        elif a != b and not has_modwarn(scn): c.bad("api-verdict", f"{what} gives {res[k][:300]} but in a fresh context {one[0][:300]}")
        elif one[1] != res[k + 1]: c.bad("api-content", f"{what} renders as {res[k + 1][:300]} but in a fresh context {one[1][:300]}")
    c.env.probe("context reused for", n)
    c.nontrivial = n >= 2
    c.sig = ("api",) + tuple(l.split(" ")[0] + l.split(" ")[1] for l in res[1::2]) + tuple(o[0] for o in ops)


def same_ids(w):
    """every document and module draws ids from one base, and some documents fail after that"""
    r = w.rng
    b = r.choice(["foo", "id", "note"])
    for q in w.mods: w.files[q]["mod"]["uid"] = b
    for d in w.docs:
        items = w.files[d]["doc"]
        for q in r.sample(w.mods, r.randint(1, len(w.mods))): items.insert(0, {"k": "imp", "m": w.mod_ref(d.rsplit("/", 1)[0], q), "use": ["k"]})
        items.insert(r.randint(0, 1), {"k": "uid", "b": b})
        if r.random() < 0.4: items.append({"k": "err", "e": r.choice(["raise", "var"])})


def gen(rng, env, i, tier):
    w = G.W(rng)
    w.focus = rng.choice([rng.randrange(rich.KINDS), 4, 4, 10, 12]) if rng.random() < 0.35 else None
    for _ in range(rng.randint(0, 1)): w.add_data()
    if rng.random() < 0.2: w.add_twins()
    for _ in range(rng.randint(1, 3)): w.add_mod(imports=rng.choice([0, 1, 2]), uid=0.5)
    for _ in range(rng.choice([0, 0, 1, 2])): w.add_rich_mod()
    shared = G.add_bad_mod(w, rng.choice(G.BAD_MODS)) if rng.random() < 0.3 else None
    for _ in range(much(rng, tier, rng.randint(2, 6))):
        p = w.add_doc(uid=0.35, mods=0.5, write=0.25, opq=0.3, warn=0.1)
        items = w.files[p]["doc"]
        for _ in range(rng.choice([0, 1, 1, 2])):
            items.insert(rng.randint(0, len(items)), {"k": "rawsrc", "t": shared_piece(rng, w) if not hasattr(w, "rich") or rng.random() < 0.4 else w.use_rich(p)})
        if rng.random() < 0.4: G.break_doc(w, p, shared if shared and rng.random() < 0.6 else None)
    if rng.random() < 0.1: same_ids(w)
    for _ in range(rng.choice([0, 0, 1, 2])):
        p = w.name(["z", "aa", "hostile", "k"], ".papyri")
        w.files[p] = {"raw": soup.hostile(rng)}
        w.docs.append(p)
    G.enlarge(w, 0.02, ["chain", "fan", "ids", "errors", "warnings", "reads", "writes"])
    if rng.random() < API: return G.world(w, steps=gen_api(rng, w, tier), env={})
    opts = list(rng.choice([[], ["-t"], ["-o", "out"], ["-o", "out"], ["-o", "out", "-t"]])) + flags(rng)
    env_ = rand_env(rng) if rng.random() < 0.3 else {}
    env_.pop("max_write", None)
    names = sorted(d[3:] for d in w.docs)
    sub = sorted(rng.sample(names, rng.randint(1, len(names))))
    rng.shuffle(names)
    steps = [{"op": "run", "argv": opts + names}]
    if len(sub) > 1: steps += [{"op": "reset"}, {"op": "run", "argv": opts + sub}]
    for n in sorted(names): steps += [{"op": "reset"}, {"op": "run", "argv": opts + [n]}]
    scn = G.world(w, steps=steps, env=env_)
    clutter(rng, scn, opts)
    return scn


def check(c, scn):
    steps, model = run(c, scn, fill=False)
    if any(x.st["op"] == "api" for x in steps): return check_api(c, scn, steps)
    solo, batches = {}, []
    quiet = any(x.st["op"] == "run" and silent(x.st["argv"]) for x in steps)
    modwarn = has_modwarn(scn)
    if len({silent(x.st["argv"]) for x in steps if x.st["op"] == "run"}) > 1: return  # what is said cannot be compared
    for x in steps:
        if x.st["op"] != "run": continue
        paths = cli.parse_args(x.st["argv"])["paths"]
        rep, p = x.reports[0], x.procs[0]
        if not ended_normally(p) or p.rc not in (0, 1):
            c.bad("died", f"step {x.i} {x.st['argv']} ended: {p.ended()}: {p.err[-300:].decode(errors='replace')}")
            continue
        ch = Change(x.pre, x.post)
        files = {q: (x.post[q].data if q in x.post else None) for q in ch.files()}
        r = (paths, rep, files, p)
        if len(paths) == 1 and paths[0] not in solo: solo[paths[0]] = r
        elif len(paths) > 1: batches.append(r)
        c.env.probe("batch" if len(paths) > 1 else "solo")
    c.nontrivial = bool(batches) and bool(solo)
    c.sig = tuple((s, v[1].status.get(s)) for s, v in sorted(solo.items())) + (tuple(tuple(b[0]) for b in batches), tuple(sorted(it["k"] + it.get("e", "") for f in scn["files"].values() if "doc" in f for it in f["doc"])),)
    for paths, rep, files, p in batches:
        if any(s not in solo for s in paths): continue
        if any(solo[s][3].rc == 1 and not solo[s][1].summary for s in paths): continue  # one cannot be read, and stops the run
        others = lambda s: f"in one run with {[q for q in paths if q != s]}"
        want, twice = {}, set()
        for s in set(paths):
            _, r1, f1, p1 = solo[s]
            a, b = rep.status.get(s), r1.status.get(s)
            ca, cb = rep.counts.get(s, (0, 0)), r1.counts.get(s, (0, 0))
            if modwarn: a, b, ca, cb = [("fine" if v in ("ok", "warn", "nooutput") or v is None and quiet else v) for v in (a, b)] + [None, None]
            if a != b or (b != "failed" and ca != cb):
                c.bad("verdict", f"{s} is reported {b} {cb} when compiled alone but {a} {ca} {others(s)}; {rep.diag.get(s, '')[:300]}")
            for q in f1:
                if q in want: twice.add(q)
                want[q] = (s, f1[q])
        for q in sorted(set(want) | set(files)):
            if q in twice: continue
            if q not in want: c.bad("files", f"{q} is written by none of {paths} when compiled alone, but when they are compiled in one run")
            elif q not in files: c.bad("files", f"{q}, written by {want[q][0]} alone, is not written {others(want[q][0])}")
            elif files[q] != want[q][1]: c.bad("content", f"output {q} of {want[q][0]} differs between the compilation alone and {others(want[q][0])}: {differ(want[q][1] or b'', files[q] or b'')}")
        if len({solo[s][3].ended() for s in paths}) and p.rc != max(solo[s][3].rc for s in paths):
            c.bad("exit", f"the batch {paths} ends with {p.ended()}, its sources alone with {[solo[s][3].ended() for s in paths]}")
