"""C10: rendering to any writer delivers a prefix and reports every failure."""
import sim, cli, docs
import gen as G
import soup, rich
from lib import *

CASES = {"quick": 6000, "thorough": 120000}
RULE = ("each case compiles one document (generated, with known rendering and requested files, or a hostile text) through the library and renders the "
        "result several times, each time to a writer that plays a seeded script of short writes, interruptions, zero-length writes and errors placed "
        "anywhere up to the length of the rendering, directly, through dynamic dispatch or through buffering writers of any capacity; non-trivial: a script "
        "in which a short write, interruption or failure happened before the end; distinct by (kind of document, script shape, outcome)")
ASSUME = ["writers follow the contract of std::io::Write"]
REAL = "the papyri-lang library built from /repo and Rust std's buffering writers, called by driver/src/main.rs"
STUB = "the writers; the operating system below the process (sim/simos.c via LD_PRELOAD)"

KINDS = ["other", "pipe", "would", "time", "zero", "eof", "perm", "inval", "mem", "reset", "unsup", "os28", "os5", "os32", "os11", "os12", "os9"]


def script(rng, n, calls):
    """a writer's behaviour for a rendering of n bytes in so many calls"""
    k = rng.random()
    if rng.random() < 0.2: return ["k%d" % rng.randint(max(1, calls - 5), calls) if rng.random() < 0.3 else "k%d" % rng.randint(1, calls + 1)]
    if k < 0.25: return ["f%d" % rng.choice([0, 1, max(0, n - 1), n, n // 2, rng.randint(0, n + 1), rng.randint(0, n + 1), n + 5])]
    if k < 0.4: return rng.choice([["a1", "c"], ["i", "a1", "c"], ["i", "i", "a2", "c"], ["a3", "i", "c"], ["a7", "c"], ["i", "a1000", "c"], ["a1", "a2", "a3", "a5", "c"]])
    s = []
    for _ in range(rng.randint(1, 12)):
        x = rng.random()
        if x < 0.6: s.append("a%d" % rng.choice([1, 1, 2, 3, 4, 8, 100, 8191, 8192, 8193]))
        elif x < 0.9: s.append("i")
    if rng.random() < 0.7: s.append("f%d" % rng.randint(0, n + 1) if rng.random() < 0.5 else rng.choice(["e" + rng.choice(KINDS), "z"]))
    elif rng.random() < 0.5: s.append("c")
    if s and s[-1] == "c" and not any(t[0] == "a" for t in s): s.pop()
    return s


def gen(rng, env, i, tier):
    scn = {"cwd": "/w", "files": {}, "dirs": [], "env": {}}
    if rng.random() < 0.65:
        w = G.W(rng)
        for _ in range(rng.randint(0, 1)): w.add_data()
        for _ in range(rng.randint(0, 2)): w.add_mod()
        p = w.add_doc(n=rng.randint(1, 7), opq=0.25, write=0.25, big=0.15)
        if rng.random() < 0.4: w.files[p]["doc"].insert(rng.randint(0, len(w.files[p]["doc"])), {"k": "rawsrc", "t": rich.text(rng)})
        scn = G.world(w, env={})
        first = ["load", p[3:]]
    else: first = ["str", "doc", ("<!DOCTYPE html>\n\n" if rng.random() < 0.2 else "") + (soup.hostile(rng) if rng.random() < 0.6 else rich.text(rng))]
    ops = [["new", "warning", "out"], first]
    x = sim.execute(env, dict(scn, steps=[{"op": "api", "threads": [ops + [["render", m, "plain"] for m in ("html", "text")]]}]))[0][0]
    lens = {}
    for m, l in zip(("html", "text"), x.api[0][2:4]): lens[m] = [(len(r.full), r.calls) for r in sim.renderings(l)] if l.startswith("rendered") else [(0, 0)]
    for _ in range(rng.randint(2, 6)):
        m = rng.choice(["html", "html", "text"])
        n, calls = rng.choice(lens.get(m) or [(0, 0)])
        wrap = rng.choice(["plain", "plain", "plain", "dyn", "buf0", "buf1", "buf3", "buf%d" % rng.choice([2, 5, 16, 64]), "buf8192", "line"])
        ops.append(["render", m, wrap] + script(rng, n, max(1, calls)))
    scn["steps"] = [{"op": "api", "threads": [ops]}]
    return scn


def shrink(scn):
    st = scn["steps"][0]
    ops = st["threads"][0]
    for k in range(len(ops) - 1, 1, -1):
        def m(s, k=k):
            del s["steps"][0]["threads"][0][k]
        yield m
    for k in range(2, len(ops)):
        for j in range(len(ops[k]) - 1, 2, -1):
            def m(s, k=k, j=j):
                del s["steps"][0]["threads"][0][k][j]
            yield m
    if ops[1][0] == "str":
        t = ops[1][-1]
        size = max(1, len(t) // 2)
        while size:
            for a in range(0, len(t), size):
                def m(s, t=t, a=a, size=size):
                    u = s["steps"][0]["threads"][0][1][-1]
                    s["steps"][0]["threads"][0][1][-1] = u[:a] + u[a + size:]
                yield m
            size //= 2


def check(c, scn):
    steps, model = run(c, scn)
    x = steps[0]
    p = x.procs[0]
    ops = x.st["threads"][0]
    if p.ended() != "exit 0" or len(x.api[0]) != len(ops):
        c.bad("died", f"the program ended with {p.ended()}: {p.err[-400:].decode(errors='replace')}")
        return
    want = None
    if ops[1][0] == "load" and x.api[0][1].startswith("loaded 0 "):
        m = model.compile(FS(x.pre, "/w"), ops[1][1], "out")
        if not m.errors and not m.load_error and m.known: want = m
    sig = []
    for o, l in zip(ops[2:], x.api[0][2:]):
        html, wrap, script = o[1] == "html", o[2], o[3:]
        rs = sim.renderings(l)
        if want:
            exp = {"": (want.html if html else want.text).encode()}
            for q, h, t in want.writes: exp[docs.resolve_out("out", q)] = (h if html else t).encode()
            for r in rs:
                k = r.path[4:] if r.path.startswith("out/") else r.path
                if k in exp and r.full != exp[k]: c.bad("content", f"rendering of {k or 'the document'} to memory is wrong {differ(exp[k], r.full)}")
        for r in rs:
            who = f"{o[1]} rendering of {len(r.full)} bytes to a {wrap} writer with script {script}"
            if r.ref != "ok": c.bad("memory", f"rendering to memory fails: {r.ref}")
            if r.full[:len(r.got)] != r.got: c.bad("prefix", f"{who} delivers something else: {differ(r.full, r.got)}")
            elif r.failed and r.err is None: c.bad("swallowed", f"{who} returns success although the writer failed after {len(r.got)} bytes")
            elif r.err is None and r.got != r.full: c.bad("short", f"{who} returns success but delivers {len(r.got)} bytes")
            elif r.err is not None and not r.failed: c.bad("invented", f"{who} returns {r.err} although the writer did not fail")
            elif r.err is not None:
                t = next(t for t in reversed(script) if t[0] in "fezk")
                k, msg = r.err
                if t == "z":
                    if k != "WriteZero": c.bad("error", f"{who} returns {r.err}, the writer accepted nothing")
                elif t[:3] == "eos":
                    if f"os error {t[3:]}" not in msg: c.bad("error", f"{who} returns {r.err} for os error {t[3:]}")
                elif f"scripted failure {'other' if t[0] in 'fk' else t[1:]}" != msg: c.bad("error", f"{who} returns {r.err}, not the writer's error")
            if r.after: c.bad("after", f"{who} writes {r.after} more times after the writer failed")
            if script and r.calls and (r.failed or len(script) > 1) and r.full: c.nontrivial = True
            sig.append((html, wrap, "".join(t[0] for t in script), r.failed, r.err and r.err[0], min(len(r.got), 40)))
            c.env.faults["writer: failure"] = c.env.faults.get("writer: failure", 0) + r.failed
            c.env.probe("rendered to a writer that " + ("failed at the very end" if r.failed and len(r.got) == len(r.full) else "failed" if r.failed else "took everything"))
            for t in script[:min(len(script), r.calls)]:
                n = {"a": "writer: short write", "i": "writer: interrupted", "z": "writer: accepts nothing"}.get(t[0])
                if n: c.env.faults[n] = c.env.faults.get(n, 0) + 1
    c.sig = (ops[1][0], want is not None, tuple(sig))
