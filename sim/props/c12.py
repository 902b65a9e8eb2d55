"""C12: compilations in concurrent threads do not affect each other."""
import sim, cli, docs
import gen as G
import soup, rich
from lib import *

CASES = {"quick": 2400, "thorough": 30000}
RULE = ("each case runs two to five threads in one process, each with its own list of library calls (contexts that are created, reused and reset, "
        "files and texts compiled - valid, failing or hostile, the string convenience function, renderings to faulty writers), under a seeded scheduler that may switch "
        "threads at every allocation, system call, lock wait, entry of a basic block of the compiler and access of it to static variables; every result is compared with the same calls made alone in a process; some cases inject "
        "read errors into the files of one thread; non-trivial: at least two threads and ten switches; distinct by (calls, number of switches, verdicts)")
ASSUME = ["threads are switched at basic blocks, accesses to static variables, allocations, waits and system calls, one runs at a time: effects of weak memory order are not simulated"]
REAL = "the papyri-lang library built from /repo with its dependencies and Rust std, called by driver/src/main.rs"
STUB = "the choice of which thread runs; the operating system below the process (sim/simos.c via LD_PRELOAD)"

SHARED = ["@code_block(language=`python`) ```\ndef f(x): return 'é'\n```", "@code(language=`rust`) `let x = 1; // see https://example.com/a`", "@code_block(language=`papyri`) ```\n@fn f $x -> <b>$x</b>\n```",
          "<h1 id=@str::unique_id `sec`>One</h1>", "\"quotes\" -- dashes... (c) 1/2 ->", "@match (@str::split(`a,b`) ...)", "@regex::find(`[a-z]+`, `12ab`)", "caf&eacute; &nosuch; &#65;",
          "@html::parse(`<p>x<b>y</p>`)", "A@footnote{note} and @footnote{more}", "$nosuch", "<p", "@raise `boom`", "@let(é=1){$é}", "@code_block(language=`nosuch`) ```x```",
          "@code_block(language=`html`) ```\n<p class=\"x\">http://a.b/c?d</p>\n```", "@code_block(language=`json`) ```\n{\"a\": [1, 2.5e3]}\n```", "@dict::new(_=1)", "@int::parse `12`"]


def pieces(rng, focus=None):
    if focus is not None: return "\n\n".join(rich.frag(rng, focus) for _ in range(rng.choice([4, 8])))
    return "\n\n".join(rng.choice(SHARED) if rng.random() < 0.3 else rich.frag(rng) for _ in range(rng.choice([1, 1, 2, 3, 4])))


def thread(rng, w, k, focus):
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        if rng.random() < 0.75:
            ops.append(["new", rng.choice(["warning", "warning", "error", "all"]), rng.choice(["-", "out", "out"])])
            for _ in range(rng.randint(1, 3)):
                x = rng.random()
                if x < 0.45 and w.docs: ops.append(["load", rng.choice(w.docs)[3:]])
                elif x < 0.55 and w.mods: ops.append(["cached", rng.choice(w.mods)[3:]])
                elif x < 0.85: ops.append(["str", "t%d" % k, pieces(rng, focus)])
                else: ops.append(["str", "t%d" % k, soup.hostile(rng)])
                ops.append(["render", rng.choice(["html", "text"]), "plain"] + rng.choice([[], [], ["a7", "c"], ["f20"]]))
        else:
            for _ in range(rng.randint(1, 3)): ops.append(["cstr", pieces(rng, focus) if rng.random() < 0.8 else soup.hostile(rng)])
    return ops


def gen(rng, env, i, tier):
    w = G.W(rng)
    for _ in range(rng.randint(0, 1)): w.add_data()
    for _ in range(rng.randint(0, 2)): w.add_mod(imports=rng.choice([0, 1]), uid=0.5)
    for _ in range(rng.choice([0, 0, 1])): w.add_rich_mod()
    for _ in range(rng.randint(1, 2)):
        p = w.add_doc(uid=0.3, opq=0.5, write=0.2, warn=0.1)
        if rng.random() < 0.2: w.add_error(p)
        if hasattr(w, "rich"): w.files[p]["doc"].insert(0, {"k": "rawsrc", "t": w.use_rich(p)})
    focus = rng.randrange(rich.KINDS) if rng.random() < 0.5 else None  # all threads use the same feature again and again
    if focus is not None and rng.random() < 0.45: focus = rng.choice([3, 4, 4, 10, 10, 11, 12, 22])
    ts = [thread(rng, w, k, focus) for k in range(much(rng, tier, rng.choice([2, 2, 2, 3, 3, 5]), 9))]
    if rng.random() < 0.3: ts = [ts[0]] * len(ts)
    e = {"hash_seed": rng.randrange(99), "sched_seed": rng.randrange(1 << 40), "sched_prob": rng.choice([1, 3, 10, 30, 100]), "malloc_yield": rng.random() < 0.5}
    x = rng.random()
    if x < 0.35: e["cov_gap"] = rng.choice([10, 100, 300, 1000, 3000, 10000, 100000])
    elif x < 0.8: e.update(cov_hot=rng.choice([20, 100, 400, 1000]), cov_hotseed=rng.randrange(1 << 30), cov_gap=rng.choice([3000, 100000, 10000000]))  # switches at few places of the code
    elif not e["malloc_yield"]: e["sched_prob"] = rng.choice([300, 1000])
    if rng.random() < 0.4:  # switches where the code uses variables that all threads share
        e["cov_stat"] = rng.choice([1, 2, 4, 20])
        if rng.random() < 0.6: e.update(cov_gap=10000000, cov_hot=0, malloc_yield=False, sched_prob=1000)
        else: e.setdefault("cov_gap", 10000000)
    st = {"op": "api", "threads": ts, "env": {}}
    if rng.random() < 0.2 and w.mods: st["rules"] = [rule("err", kinds=[rng.choice(["read", "open"])], path=rng.choice(w.mods + w.docs), count=9999, err=rng.choice(["EIO", "EACCES"]))]
    return G.world(w, env=e, steps=[st])


def shrink(scn):
    ts = scn["steps"][0]["threads"]
    for k in range(len(ts) - 1, -1, -1):
        if len(ts) > 2:
            def m(s, k=k):
                del s["steps"][0]["threads"][k]
            yield m
        for j in range(len(ts[k]) - 1, -1, -1):
            def m(s, k=k, j=j):
                t = s["steps"][0]["threads"][k]
                if len(t) < 2 or (t[j][0] == "new" and j + 1 < len(t) and t[j + 1][0] not in ("new", "cstr")): return False
                del t[j]
            yield m
    for g in (100000, 10000, 1000, 100):
        def m(s, g=g):
            if not 0 < s["env"].get("cov_gap", 0) < g: return False
            s["env"]["cov_gap"] = g
        yield m
    for p in (0, 1, 3, 10):
        def m(s, p=p):
            if s["env"].get("sched_prob", 0) <= p: return False
            s["env"]["sched_prob"] = p
        yield m


def check(c, scn):
    st = scn["steps"][0]
    e = dict(scn["env"], sched=True)
    one = dict(scn, env=e)
    if len(st["threads"]) < 2: return
    steps, model = run(c, one)
    x = steps[0]
    p = x.procs[0]
    n = len(x.res.switches)
    c.env.probe("thread switches (up to 20000 counted per run)", len(x.res.switches))
    c.nontrivial = n >= 10
    if p.ended() != "exit 0":
        c.bad("died", f"{len(st['threads'])} threads: the process ended with {p.ended()}: {p.err[-400:].decode(errors='replace')}")
        return
    alone = {}
    sig = []
    for k, t in enumerate(st["threads"]):
        key = repr(t)
        if key not in alone:
            ys, _ = sim.execute(c.env, dict(scn, env={"hash_seed": 5}, steps=[dict(st, threads=[t])]))
            y = ys[0]
            alone[key] = y.api[0] if y.procs[0].ended() == "exit 0" else None
        want = alone[key]
        if want is None: continue
        got = x.api[k]
        sig += [l.split(" ")[:2] for l in want]
        if len(got) == 1 and got[0].startswith("panic ") and len(want) != 1 or any(l.startswith("panic") for l in got):
            c.bad("panic", f"thread {k} panicked: {sim.unhexed(got[-1].split(' ')[1])}")
            continue
        for o, a, b in zip(t, want, got):
            if a != b:
                c.bad("differs", f"thread {k}: {' '.join(o)[:300]!r} gives {readable(b)} but alone {readable(a)}")
                break
        else:
            if len(want) != len(got): c.bad("differs", f"thread {k} made {len(got)} of {len(want)} calls")
    if x.procs[0].err: c.env.probe("something on stderr")
    c.sig = (repr(sig), n)


def readable(l):
    out = []
    for t in l.replace("[", "[ ").replace(",", " , ").replace("]", " ]").split(" "):
        try:
            out.append(repr(bytes.fromhex(t).decode()) if len(t) >= 6 else t)
        except (ValueError, UnicodeDecodeError): out.append(t)
    return " ".join(out)[:700]
