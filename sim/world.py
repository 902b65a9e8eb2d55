"""Simulated world: file tree, processes, faults; talks to a fork server running under simos.so."""
import os, struct, subprocess, select, signal

KINDS = ("open read write close lseek stat lstat fstat opendir readdir closedir realpath readlink mkdir rename unlink "
         "rmdir ftrunc fsync chmod utime chdir getcwd access link symlink statfs socket connect send recv getaddrinfo "
         "spawn malloc shutdown lock pthread").split()
KID = {k: i for i, k in enumerate(KINDS)}
ACTIONS = {"err": 1, "short": 2, "crash_before": 3, "crash_after": 4, "torn": 5, "clock": 6}
ERR = {"EPERM": 1, "ENOENT": 2, "EINTR": 4, "EIO": 5, "ENXIO": 6, "EAGAIN": 11, "ENOMEM": 12, "EACCES": 13, "EBUSY": 16,
       "EEXIST": 17, "EXDEV": 18, "ENOTDIR": 20, "EISDIR": 21, "EINVAL": 22, "ENFILE": 23, "EMFILE": 24, "EFBIG": 27, "ENOSPC": 28,
       "EROFS": 30, "EPIPE": 32, "ENAMETOOLONG": 36, "ELOOP": 40, "EDQUOT": 122, "ESTALE": 116, "ETIMEDOUT": 110,
       "ECONNREFUSED": 111, "ECONNRESET": 104, "EHOSTUNREACH": 113, "ENETUNREACH": 101}
ERRNAME = {v: k for k, v in ERR.items()}
SKIND = {"answer": 0, "connect": 1, "dns": 2}
EAI = {"NONAME": 2, "AGAIN": 3, "FAIL": 4}
D, F, L = 1, 2, 3
T0 = 1_700_000_000_000_000_000  # start of simulated time (ns)


def enc(s):
    return s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s


def dec(b):
    return b.decode("utf-8", "surrogateescape")


class Node:
    __slots__ = ("t", "mtime", "data", "mode")

    def __init__(self, t, mtime=T0, data=b"", mode=None):
        self.t, self.mtime, self.data = t, mtime, data
        self.mode = mode if mode is not None else {D: 0o40755, F: 0o100644, L: 0o120777}[t]

    def copy(self):
        return Node(self.t, self.mtime, self.data, self.mode)

    def key(self):
        return (self.t, self.data)

    def __repr__(self):
        return f"Node({self.t},{self.mtime},{self.data[:40]!r})"


class Tree(dict):
    """absolute path -> Node; '/' is implicit root and always present"""

    def __init__(self, *a):
        super().__init__(*a)
        if "/" not in self:
            self["/"] = Node(D)

    def mkdirs(self, path, mtime=T0):
        path = path.rstrip("/")
        if not path or path in self:
            return
        self.mkdirs(path.rsplit("/", 1)[0], mtime)
        self[path] = Node(D, mtime)

    def put(self, path, data, mtime=T0):
        self.mkdirs(path.rsplit("/", 1)[0], mtime)
        self[path] = Node(F, mtime, enc(data))

    def symlink(self, path, target, mtime=T0):
        self.mkdirs(path.rsplit("/", 1)[0], mtime)
        self[path] = Node(L, mtime, enc(target))

    def mkdir(self, path, mtime=T0):
        self.mkdirs(path, mtime)

    def remove(self, path):
        for p in [p for p in self if p == path or p.startswith(path + "/")]:
            del self[p]

    def copy(self):
        t = Tree()
        for k, v in self.items():
            t[k] = v.copy()
        return t

    def files(self):
        return {p: n.data for p, n in self.items() if n.t == F}


class Rule(dict):
    pass


def rule(action, op=-1, kinds=None, path="", prefix=False, proc=-1, skip=0, count=1, err=None, n=0, ns=0):
    """one fault rule as plain data (JSON-able)"""
    r = {"action": action}
    if op >= 0: r["op"] = op
    if kinds: r["kinds"] = list(kinds)
    if path: r["path"] = path
    if prefix: r["prefix"] = True
    if proc >= 0: r["proc"] = proc
    if skip: r["skip"] = skip
    if count != 1: r["count"] = count
    if err: r["err"] = err
    if n: r["n"] = n
    if ns: r["ns"] = ns
    return r


def _enc_rule(r):
    mask = 0
    for k in r.get("kinds", KINDS):
        mask |= 1 << KID[k]
    arg = ERR[r["err"]] if "err" in r else r.get("n", 0)
    p = enc(r.get("path", ""))
    return struct.pack("<iiiiiiiqQI", r.get("proc", -1), r.get("op", -1), r.get("skip", 0), r.get("count", 1),
                       ACTIONS[r["action"]], arg, 1 if r.get("prefix") else 0, r.get("ns", 0), mask, len(p)) + p


ENV_DEFAULT = dict(tick=1_000_000, gran=1, readdir_seed=0, hash_seed=1, sched_seed=1, sched_prob=300, dtype_unknown=False,
                   sched=False, malloc_yield=False, max_read=0, max_write=0, eintr_every=0, op_cap=200_000, capacity=-1,
                   malloc_fail_at=-1, allow_net=0, cov_gap=0, cov_hot=0, cov_hotseed=0, cov_stat=0, switches=None, heap_seed=0, vars={}, env_any=False)


def blob(b):
    return struct.pack("<I", len(b)) + b


def encode_request(tree, clock, env, procs, rules, scripts=()):
    e = dict(ENV_DEFAULT)
    e.update(env)
    flags = (1 if e["dtype_unknown"] else 0) | (2 if e["sched"] else 0) | (4 if e["switches"] is not None else 0) | (8 if e["malloc_yield"] else 0) | (16 if e["env_any"] else 0)
    out = [struct.pack("<qqqQQQqqQ", clock, e["tick"], e["gran"], e["readdir_seed"], e["hash_seed"], e["sched_seed"],
                       e["capacity"], e["malloc_fail_at"], e["heap_seed"]),
           struct.pack("<11I", flags, e["max_read"], e["max_write"], e["eintr_every"], e["op_cap"], e["sched_prob"], e["allow_net"], e["cov_gap"], e["cov_hot"], e["cov_hotseed"], e["cov_stat"])]
    paths = ["/"] + sorted((p for p in tree if p != "/"), key=lambda p: (p.count("/"), p))
    idx = {p: i for i, p in enumerate(paths)}
    out.append(struct.pack("<I", len(paths)))
    for p in paths:
        n = tree[p]
        if p == "/":
            parent, name = 0, b""
        else:
            d, name = p.rsplit("/", 1)
            parent, name = idx[d or "/"], enc(name)
        out.append(struct.pack("<iIIq", parent, n.t, n.mode, n.mtime) + blob(name) + blob(n.data))
    out.append(struct.pack("<I", len(procs)))
    for i, pr in enumerate(procs):
        args = [enc(a) for a in pr["argv"]]
        out.append(struct.pack("<II", pr.get("pid", 1000 + 100 * i), len(args)))
        out += [blob(a) for a in args]
        out.append(blob(enc(pr["cwd"])))
        out.append(blob(pr.get("stdin", b"")))
    out.append(struct.pack("<I", len(e["vars"])))
    out += [blob(enc(k + "=" + v)) for k, v in e["vars"].items()]
    out.append(struct.pack("<I", len(rules)))
    out += [_enc_rule(r) for r in rules]
    sw = e["switches"] or []
    out.append(struct.pack("<I", len(sw)))
    out += [struct.pack("<Ii", a, b) for a, b in sw]
    out.append(struct.pack("<I", len(scripts)))
    for s in scripts:
        segs = s.get("segs", [])
        out.append(struct.pack("<i", SKIND[s["kind"]]) + blob(enc(s["key"])) +
                   struct.pack("<iqiiqII", EAI[s["err"]] if s["kind"] == "dns" and s.get("err") else ERR[s["err"]] if s.get("err") else 0, s.get("delay", 0),
                               s.get("times", -1), s.get("window", 0), s.get("refill", 0), 1 if s.get("mute") else 0, len(segs)))
        for g in segs:
            out.append(struct.pack("<iq", {"data": 0, "eof": 1, "reset": 2, "stall": 3}[g["kind"]], g.get("delay", 0)) + blob(g.get("data", "").encode("latin-1")))
    b = b"".join(out)
    return struct.pack("<I", len(b)) + b


class Op:
    __slots__ = ("proc", "kind", "fault", "crash", "short", "created", "idx", "ret", "ino", "arg", "path", "path2", "task", "gstep")

    def __repr__(self):
        r = ERRNAME.get(-self.ret, self.ret) if self.ret < 0 else self.ret
        return (f"[{self.proc}:{self.idx}] {self.kind} {self.path or ''}{' -> ' + self.path2 if self.path2 else ''} ({self.arg}) = {r}"
                + (" FAULT" if self.fault else "") + (" CRASH" if self.crash else ""))


class ProcResult:
    __slots__ = ("status", "crashed", "opcap", "deadlock", "nops", "nmalloc", "out", "err", "inpos", "rc", "sig")

    def ended(self):
        """'exit N', 'crash' (injected), 'signal N', 'opcap', 'deadlock'"""
        if self.deadlock: return "deadlock"
        if self.opcap: return "opcap"
        if self.crashed: return "crash"
        if self.sig: return f"signal {self.sig}"
        return f"exit {self.rc}"


class Result:
    __slots__ = ("clock", "tree", "procs", "ops", "fired", "switches", "log", "conns", "opens", "gstep", "unlinked", "_raw", "truncated")

    def trace(self):
        return "\n".join(map(repr, self.ops))


_REC = struct.Struct("<BBHIiiqIIiI")
_REC_ALIGNED = 40


class TooLong(Exception):
    """a run with more operations than are recorded; not judged"""


class SimError(Exception):
    pass


def decode_result(b):
    o = 0
    clock, recov, over, gstep, nproc = struct.unpack_from("<qIIII", b, o)
    o += 24
    if over:
        raise SimError(f"simulator capacity exceeded (records {recov}, arena {over})")
    R = Result()
    R.clock, R.gstep = clock, gstep
    R.truncated = bool(recov)
    R.procs = []

    def getblob():
        nonlocal o
        n, = struct.unpack_from("<I", b, o)
        o += 4
        v = b[o:o + n]
        o += n
        return v
    for _ in range(nproc):
        p = ProcResult()
        p.status, p.crashed, p.opcap, p.deadlock, p.nops, p.nmalloc = struct.unpack_from("<6I", b, o)
        o += 24
        p.out, p.err = getblob(), getblob()
        p.inpos, = struct.unpack_from("<Q", b, o)
        o += 8
        p.rc = os.waitstatus_to_exitcode(p.status)
        p.sig = -p.rc if p.rc < 0 else 0
        R.procs.append(p)
    ni, = struct.unpack_from("<I", b, o)
    o += 4
    nodes = []
    R.opens = {}
    for i in range(ni):
        tl, parent, mode, mtime, opens = struct.unpack_from("<IiIqI", b, o)
        o += 24
        name, data = getblob(), getblob()
        nodes.append((tl & 255, tl >> 8, parent, mode, mtime, name, data, opens))
    names = {0: ""}
    tree = Tree()
    tree["/"] = Node(D, nodes[0][4], b"", nodes[0][3])

    def pathof(i):
        if i in names:
            return names[i]
        n = nodes[i]
        p = pathof(n[2]) + "/" + dec(n[5])
        names[i] = p
        return p
    R.unlinked = []
    for i in range(1, ni):
        n = nodes[i]
        p = pathof(i)
        if n[1]:
            tree[p] = Node(n[0], n[4], n[6], n[3])
        else:
            R.unlinked.append(p)
        if n[7]:
            R.opens[p] = R.opens.get(p, 0) + n[7]
    R.tree = tree
    nr, = struct.unpack_from("<I", b, o)
    o += 4
    recs = b[o:o + nr * _REC.size]
    o += nr * _REC.size
    strs = getblob()
    cache = {0: None}

    def gs(off):
        if off in cache:
            return cache[off]
        e = strs.index(b"\0", off)
        v = dec(strs[off:e])
        cache[off] = v
        return v
    ops = []
    for t in _REC.iter_unpack(recs):
        x = Op()
        x.proc, kind, fl, x.idx, x.ret, x.ino, x.arg, s1, s2, x.task, x.gstep = t
        x.kind = KINDS[kind]
        x.fault, x.crash, x.short, x.created = bool(fl & 1), bool(fl & 2), bool(fl & 4), bool(fl & 8)
        x.path, x.path2 = gs(s1), gs(s2)
        ops.append(x)
    R.ops = ops
    nf, = struct.unpack_from("<I", b, o)
    o += 4
    R.fired = list(struct.unpack_from(f"<{nf}I", b, o))
    o += 4 * nf
    ns, = struct.unpack_from("<I", b, o)
    o += 4
    R.switches = [struct.unpack_from("<Ii", b, o + 8 * i) for i in range(ns)]
    o += 8 * ns
    R.log = dec(getblob())
    nc, = struct.unpack_from("<I", b, o)
    o += 4
    R.conns = []
    for _ in range(nc):
        st, rx, nreq = struct.unpack_from("<IQI", b, o)
        o += 16
        R.conns.append((st, rx, nreq, getblob()))
    R._raw = b
    return R


class Server:
    """one fork server of the program under test"""

    def __init__(self, so, exe, timeout=120):
        self.so, self.exe, self.timeout = so, exe, timeout
        self.p = None
        self.runs = 0

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = {"LD_PRELOAD": self.so, "SIMOS": "1", "LD_BIND_NOW": "1", "RUST_BACKTRACE": "0", "PATH": "/usr/bin", "HOME": "/nonexistent",
               "LANG": "C.UTF-8", "MALLOC_ARENA_MAX": "1"}

        def pre():
            try:
                import ctypes
                ctypes.CDLL(None).personality(0x0040000)  # no address randomisation, if permitted
            except Exception:
                pass
            os.dup2(r1, 298); os.dup2(w2, 299)
            os.dup2(298, 198); os.dup2(299, 199)
            os.closerange(3, 198)
            os.closerange(200, 1024)
        self.p = subprocess.Popen([self.exe], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, preexec_fn=pre, close_fds=False, cwd="/")
        os.close(r1)
        os.close(w2)
        self.win, self.rout = w1, r2

    def stop(self):
        if self.p:
            try:
                os.close(self.win); os.close(self.rout)
            except OSError:
                pass
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p = None

    def _read(self, n):
        out = bytearray()
        while len(out) < n:
            r, _, _ = select.select([self.rout], [], [], self.timeout)
            if not r:
                raise SimError("simulation timed out (wall clock)")
            c = os.read(self.rout, min(1 << 20, n - len(out)))
            if not c:
                raise SimError(f"fork server died: {self.p.poll()}")
            out += c
        return bytes(out)

    def run(self, tree, clock, env, procs, rules=(), scripts=()):
        if self.p is None or self.p.poll() is not None:
            self.start()
        req = encode_request(tree, clock, env, procs, rules, scripts)
        try:
            mv = memoryview(req)
            while mv:
                k = os.write(self.win, mv[:1 << 20])
                mv = mv[k:]
            n, = struct.unpack("<I", self._read(4))
            b = self._read(n)
        except Exception:
            self.stop()
            raise
        self.runs += 1
        return decode_result(b)
