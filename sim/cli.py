"""Model of the papyri command: which sources a run handles, in which order, with which result."""
import re, fnmatch
import docs
from docs import FS, is_papyri, is_library, path_key, find_sources, resolve_out, norm_keep
from world import Tree, Node, F, D


def parse_args(argv):
    o = dict(u=False, s=False, t=False, i=False, w=False, http=False, out=None, paths=[])
    it = iter(argv)
    for a in it:
        if a in ("-u", "--skip-unchanged"): o["u"] = True
        elif a in ("-s", "--silent"): o["s"] = True
        elif a in ("-t", "--text"): o["t"] = True
        elif a in ("-i", "--stdin"): o["i"] = True
        elif a == "--ignore-warnings": o["w"] = True
        elif a == "--allow-http": o["http"] = True
        elif a in ("-o", "--out"): o["out"] = next(it)
        else: o["paths"].append(a)
    return o


def lexkey(p):
    return tuple(map(tuple, path_key(p)))


def push(base, p):
    """PathBuf::join, as displayed"""
    if p.startswith("/") or base == "": return p
    return base + p if base.endswith("/") else base + "/" + p


def glob_match(fs, pattern):
    """paths matched, in the spelling the command uses, by patterns of * ? [..] and ** components"""
    absolute = pattern.startswith("/")
    comps = [c for c in pattern.split("/") if c not in ("", ".")]
    res = set()

    def children(d):
        base = fs.resolve(d if d else ("/" if absolute else "."))
        if base is None or (base != "/" and fs.tree[base].t != D): return []
        pre = "/" if base == "/" else base + "/"
        return sorted(p[len(pre):] for p in fs.tree if p.startswith(pre) and p != "/" and "/" not in p[len(pre):])

    def j(d, n):
        return d + n if d.endswith("/") or d == "" else d + "/" + n

    def rec(d, i):
        if i == len(comps):
            res.add(d)
            return
        c = comps[i]
        if c == "**":
            rec2(d, i)
            return
        if not any(x in c for x in "*?["):
            n = j(d, c)
            if fs.resolve(n) is not None or n in (".", "..") : rec(n, i + 1)
            return
        for n in children(d):
            if fnmatch.fnmatchcase(n, c): rec(j(d, n), i + 1)

    def rec2(d, i):
        if i + 1 < len(comps): rec(d, i + 1)
        for n in children(d):
            p = j(d, n)
            if fs.isdir(p):
                if i + 1 == len(comps): res.add(p)
                rec2(p, i)
    rec("/" if absolute else "", 0)
    return res


def discover(fs, paths):
    """(ordered list of display paths, list of display arguments reported as not sources)"""
    seen, notes = {}, []

    def add(p):
        k = lexkey(p)
        if k not in seen: seen[k] = p
    for a in paths or ["."]:
        if any(c in a for c in "*?[]"):
            for p in sorted(glob_match(fs, a)):
                if is_papyri(p) and not fs.isdir(p): add(p)
        elif fs.isdir(a):
            for r in find_sources(fs, fs.resolve(a)): add(push(a, r))
        elif is_papyri(a): add(a)
        else: notes.append(a)
    return [seen[k] for k in sorted(seen)], notes


class Entry:
    __slots__ = ("src", "abs", "status", "outs", "out", "main")
    # status: lib unchanged nooutput ok failed loaderr badout
    # outs: list of (display path, abs path, bytes or None when unknown) in writing order

    def __repr__(self):
        return f"<{self.src} {self.status} {[o[1] for o in self.outs]}>"


class Prediction:
    pass


def set_ext(p, ext):
    i = p.rindex(".")
    return p[:i] + "." + ext


def predict(model, tree, cwd, argv, now, bad=()):
    """what a run without faults does; tree is not changed, pr.tree is the state afterwards"""
    o = parse_args(argv)
    pr = Prediction()
    pr.opts = o
    t = tree.copy()
    fs = FS(t, cwd, bad)
    pr.sources, pr.notes = discover(fs, o["paths"])
    pr.entries, pr.abort = [], None
    ext = "txt" if o["t"] else "html"
    pr.written = {}
    for src in pr.sources:
        e = Entry()
        e.src, e.abs, e.outs, e.out, e.main = src, fs.lex(src), [], None, None
        pr.entries.append(e)
        if is_library(src):
            e.status = "lib"
            continue
        if o["out"] is not None:
            rel = norm_keep(cwd + "/" + src if not src.startswith("/") else src)
            c = cwd if cwd != "/" else ""
            if not rel.startswith(c + "/"):
                e.status = "badout"
                pr.abort = e
                break
            disp = set_ext(push(o["out"], rel[len(c) + 1:]), ext)
        else:
            disp = set_ext(src, ext)
        e.main = fs.lex(disp)
        if o["u"]:
            s, d = fs.resolve(src), fs.resolve(disp)
            if s and d and t[s].mtime <= t[d].mtime:
                e.status = "unchanged"
                continue
        r = model.compile(fs, src, o["out"], o["http"])
        e.out = r
        if r.load_error:
            e.status = "loaderr"
            pr.abort = e
            break
        if r.errors:
            e.status = "failed"
            continue
        for p, h, x in r.writes:
            d = push(o["out"], resolve_out(o["out"], p))
            e.outs.append((d, fs.lex(d), (x if o["t"] else h).encode()))
        body = x = (r.text if o["t"] else r.html)
        if not r.known or body:
            e.outs.append((disp, e.main, body.encode() if r.known else None))
        e.status = "ok" if e.outs else "nooutput"
        for d, a, b in e.outs:
            cs = d.split("/")
            for i in range(1, len(cs)):  # creating sub/../out goes through sub
                q = "/".join(cs[:i])
                if q and fs.resolve(q) is None: t.mkdirs(fs.target(q), now)
            tgt = fs.target(d)
            t.mkdirs(tgt.rsplit("/", 1)[0], now)
            t[tgt] = Node(F, now, b if b is not None else b"?")
            pr.written[tgt] = b
    pr.tree = t
    pr.ok = pr.abort is None and not any(e.status == "failed" for e in pr.entries)
    return pr


# ---------------------------------------------------------------- reading a run's reports
_st = re.compile(r"^(.*) \((OK|library, skipping|unchanged, skipping|no output, skipping|OK, (\d+) warnings?|failed, (\d+) errors?, (\d+) warnings?)\)$")
_sum = re.compile(r"^(\d+) files? written; (\d+) OK, (\d+) failed, (\d+) skipped$")
_loc = re.compile(r'^    File "(.*)", line (\d+), col (\d+)(?:, in (.*))?$')


class Report:
    def __init__(self, out, err):
        self.status = {}      # src -> status word
        self.order = []
        self.wrote = []       # announced paths
        self.locs = {}        # src -> list of (file, line, col)
        self.diag = {}        # src -> diagnostic text
        self.summary = None
        self.counts = {}
        self.other = []       # stderr lines that are no diagnostics
        self.dups = []
        self.panic = b"panicked at" in err or b"has overflowed its stack" in err
        cur_locs, cur_text = [], []
        self.sum_on = None
        for stream, data in (("out", out), ("err", err)):
            for line in data.decode("utf-8", "replace").split("\n"):
                m = _st.match(line)
                if m:
                    src, w = m.group(1), m.group(2)
                    if src in self.status: self.dups.append(src)
                    kind = {"OK": "ok", "library, skipping": "lib", "unchanged, skipping": "unchanged",
                            "no output, skipping": "nooutput"}.get(w) or ("failed" if w.startswith("failed") else "warn")
                    self.status[src] = kind
                    self.order.append(src)
                    if kind == "failed": self.counts[src] = (int(m.group(4)), int(m.group(5)))
                    if kind == "warn": self.counts[src] = (0, int(m.group(3)))
                    if stream == "err":
                        self.locs[src], self.diag[src] = cur_locs, "\n".join(cur_text)
                        cur_locs, cur_text = [], []
                    continue
                m = _sum.match(line)
                if m:
                    self.summary = tuple(map(int, m.groups()))
                    self.sum_on = stream
                    continue
                if stream == "out":
                    if line.startswith("    => "): self.wrote.append(line[7:])
                    elif line: self.other.append(line)
                else:
                    m = _loc.match(line)
                    if m: cur_locs.append((m.group(1), int(m.group(2)), int(m.group(3))))
                    cur_text.append(line)
        self.tail = "\n".join(cur_text)  # stderr text after the last per-source line
        self.tail_locs = cur_locs
