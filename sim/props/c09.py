"""C09: stdin mode delivers the exact document or reports failure."""
import re
import sim, cli, lib
import gen as G
from lib import *

CASES = {"quick": 12000, "thorough": 200000}
RULE = ("each case is a document on stdin (up to some 40 kB, sometimes with modules and data beside it, an error, a warning or invalid UTF-8) and a fault plan on the standard "
        "streams: chunked and interrupted reads, a read error at any byte, short and interrupted writes, EIO/EPIPE/ENOSPC at any write including the "
        "last flush, death; non-trivial: a fault or chunking happened or the document has an error; distinct by (document items, plan, ending, bytes delivered)")
ASSUME = ["a stdout that is closed (EBADF) counts as accepting everything, as Rust's standard library treats it"]


def gen(rng, env, i, tier):
    w = G.W(rng)
    for _ in range(rng.randint(0, 1)): w.add_data()
    for _ in range(rng.randint(0, 2)): w.add_mod(imports=rng.choice([0, 1]))
    p = w.add_doc(path="/w/stdin_doc.papyri", big=0.5, opq=0.2, warn=0.05, write=0.05, n=rng.choice([0, 1, 2, 5]))
    if rng.random() < 0.25: G.break_doc(w, p)
    G.enlarge(w, 0.04, ["chain", "fan", "long", "errors", "far", "ids", "reads", "warnings"], p)
    spec = w.files.pop(p)
    w.docs.remove(p)
    argv = ["-i"] + (["-t"] if rng.random() < 0.3 else []) + rng.choice([[], [], [], ["-s"], ["--ignore-warnings"], ["-u"]])
    if rng.random() < 0.04:
        argv += rng.choice([["-o", "out"], ["--out", "."], ["-o", "a/b"], [rng.choice(["/w/m.lib.papyri", ".", "*.papyri", "nope.papyri"])], ["-o", "out", "."]])
        rng.shuffle(argv) if "-o" not in argv and "--out" not in argv else None
    data = docs.source(spec)
    scn = G.world(w, stdin_spec=spec, env={"hash_seed": rng.randrange(99)})
    st = {"op": "run", "argv": argv, "stdin": data.hex()}
    scn["steps"] = [st]
    if rng.random() < 0.08:
        k = rng.randrange(len(data) + 1)
        bad = rng.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80"])
        pre = rng.choice([b"", b"", b"\xef\xbb\xbf", b"\xfe\xff", b"\xff\xfe", b"#!", b"\n"])
        if rng.random() < 0.2: bad = b""
        st["stdin"] = (pre + data[:k] + bad + data[k:]).hex()
        try:
            bytes.fromhex(st["stdin"]).decode()
            st["stdin"] = data.hex()
        except UnicodeDecodeError: pass
    ops = sim.execute(env, scn)[0][0].res.ops
    e = st["env"] = {}
    st["rules"] = []
    if rng.random() < 0.45: transfer(rng, ops, e, reads=rng.random() < 0.6, writes=rng.random() < 0.6)
    x = rng.random()
    if e: ops = sim.execute(env, scn)[0][0].res.ops
    wr = [o for o in ops if o.kind == "write" and o.path == "<stdout>"]
    rd = [o for o in ops if o.kind == "read" and o.path == "<stdin>"]
    if x < 0.35 and wr:
        o = rng.choice([wr[-1], rng.choice(wr)])
        if rng.random() < 0.3: st["rules"].append(place(ops, o, "short", n=rng.choice([0, 1, o.arg // 2, max(0, o.arg - 1)])))
        else: st["rules"].append(place(ops, o, "err", err=rng.choice(["EIO", "EPIPE", "ENOSPC", "EINTR", "EAGAIN", "EFBIG"]), count=rng.choice([1, 1, -1])))
        if rng.random() < 0.3: st["rules"].insert(0, place(ops, rng.choice(wr), "short", n=rng.choice([1, 2, 100])))
    elif x < 0.5 and rd:
        o = rng.choice([rd[-1], rng.choice(rd)])
        st["rules"].append(place(ops, o, "err", err=rng.choice(["EIO", "EINTR", "EISDIR", "EAGAIN"]), count=rng.choice([1, -1])))
    elif x < 0.55 and wr: st["rules"].append(crash_rule(rng, ops, rng.choice(wr)))
    for r in st["rules"]:
        if r.get("err") == "EINTR": r["count"] = rng.choice([1, 2, 5])
    return scn


def check(c, scn):
    spec = scn["stdin_spec"]
    steps, model = run(c, scn)
    x = steps[0]
    p = x.procs[0]
    o = cli.parse_args(x.st["argv"])
    if not o["i"] or "stdin" not in x.st: return
    data = bytes.fromhex(x.st["stdin"])
    model.specs[docs.source(spec)] = spec
    plain = data == docs.source(spec)
    r = model.compile(FS(x.pre, "/w"), "<stdin>", None, data=data) if plain or not utf8(data) else None
    if r is None: return
    end = p.ended()
    faulted = [q for q in x.res.ops if q.fault or q.crash]
    hard = [q for q in faulted if q.ret < 0 and q.ret != -4 or q.crash]
    zero = [q for q in faulted if q.kind == "write" and q.ret == 0 and q.arg > 0 and q.path == "<stdout>"]
    rfail = [q for q in hard if q.kind == "read" and q.path == "<stdin>"]
    wfail = [q for q in hard if q.kind == "write" and q.path == "<stdout>"]
    c.sig = (tuple(i["k"] for i in spec["doc"]), tuple(x.st["argv"]), tuple((q.kind, q.path, q.ret) for q in faulted[:5]), end, len(p.out))
    c.nontrivial = bool(faulted or x.st.get("env") or r.errors or r.load_error)
    if not r.known: return
    full = (r.text if o["t"] else r.html).encode()
    invalid = not utf8(data)
    files = Change(x.pre, x.post)
    if files.files() or files.dirs: c.bad("file", f"stdin mode created or changed {sorted(files.files() | files.dirs)}")
    if end in ("deadlock", "opcap") or p.sig:
        c.bad("stuck", f"the run does not end normally: {end} {p.err[-200:].decode(errors='replace')}")
        return
    refused = bool(o["out"] or o["paths"])
    failed = bool(r.errors) or invalid or bool(r.load_error) or refused
    if end == "exit 0":
        if failed: c.bad("false-success", f"exit status 0 although the document {'came with file inputs or an output location' if refused else 'is not UTF-8' if invalid else 'has errors ' + str(r.errors[:2])}")
        elif rfail: c.bad("false-success", f"exit status 0 although reading stdin failed: {rfail[0]!r}")
        elif p.out != full: c.bad("not-exact", f"exit status 0 but stdout is not the document, {differ(full, p.out)}")
        elif wfail and not p.out == full: c.bad("false-success", f"exit status 0 although writing to stdout failed: {wfail[0]!r}")
        else: c.env.probe("exact delivery" + (" under faults" if faulted else ""))
    else:
        if end != "crash":
            if not p.err: c.bad("silent", f"{end} without explanation on stderr")
            elif r.errors and not refused and not invalid and not hard and not zero:
                locs = {(int(l), int(k)) for l, k in re.findall(rb'File "[^"]*", line (\d+), col (\d+)', p.err)}
                if not locs & {e[1:3] for e in r.errors}:
                    c.bad("no-position", f"no error on stderr names the place of one of {r.errors[:3]}: {bits(p.err)}")
            if not failed and not hard and not zero:
                c.bad("false-failure", f"{end} although the document is fine and every stream operation succeeded in the end: {p.err[-300:].decode(errors='replace')}")
            c.env.probe("reported failure")
        if failed and p.out: c.bad("output-of-failed", f"the document has errors but {len(p.out)} bytes went to stdout: {bits(p.out)}")
        if rfail and p.out: c.bad("output-of-failed", f"reading stdin failed but {len(p.out)} bytes went to stdout")
        if not full.startswith(p.out): c.bad("not-prefix", f"after {end}, stdout is no prefix of the document, {differ(full, p.out)}")


def utf8(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False
