"""Random worlds: files with documents, modules and data, described as plain data."""
import posixpath, unicodedata
import docs
from docs import TEXTS, SNIPPETS, ERRS, SWALLOW

ODD = ["\x00", "\x1a", "\x04", "\ufffe", "\u200b", "\ufeff", "\x7f", "\x1b", "\x0b", "\u0085", "\ufffd", "\U0010ffff"]
DIRS = ["", "sub", "sub/deep", "mods", "\u00fcber"]


def rel_spelling(rng, from_dir, target, dirs, plain=False):
    """some relative (or absolute) spelling of an absolute path as seen from absolute from_dir"""
    r = posixpath.relpath(target, from_dir)
    if plain: return r
    k = rng.random()
    if k < 0.5: return r
    if k < 0.65: return "./" + r
    if k < 0.8:
        ds = [d for d in dirs if d != from_dir and d.startswith(from_dir.rstrip("/") + "/")]
        if ds:
            d = posixpath.relpath(rng.choice(ds), from_dir)
            return d + "/" + "../" * (d.count("/") + 1) + r
        return ".//" + r
    if k < 0.9: return target
    return r.replace("/", "//") if "/" in r else "././" + r


class W:
    """a world under construction; spec() is plain data"""

    def __init__(self, rng, cwd="/w"):
        self.rng, self.cwd = rng, cwd
        self.files = {}     # abs -> spec
        self.links = {}
        self.dirs = []
        self.mods, self.datas, self.docs = [], [], []
        n = rng.randint(1, len(DIRS))
        self.dirlist = [cwd + ("/" + d if d else "") for d in [""] + rng.sample(DIRS[1:], n - 1)]
        if rng.random() < 0.05: self.dirlist.append(cwd + "/" + rng.choice(["n" * 60, "long/way/down/to/where/it/is/kept/in/the/end", "\u00e9" * 40, "x.y/" * 5 + "z", "a b/c,d"]))
        if cwd + "/sub/deep" in self.dirlist and cwd + "/sub" not in self.dirlist: self.dirlist.append(cwd + "/sub")

    def text(self):
        return self.rng.choice(TEXTS) + (" %d" % self.rng.randint(0, 999) if self.rng.random() < 0.6 else "")

    def name(self, pool, ext):
        for i in range(200):
            b = self.rng.choice(pool) + (str(i) if i > 3 else "")
            p = self.rng.choice(self.dirlist) + "/" + b + ext
            if self.files and self.rng.random() < 0.05:  # a name that differs only a little from one there is
                q = self.rng.choice(sorted(self.files))
                n = q.rsplit("/", 1)[1].split(".")[0]
                r_html = self.rng.choice([".html", ".txt", ".html.html", ".v1"])
                if n and len(n.encode()) < 100: p = q.rsplit("/", 1)[0] + "/" + self.rng.choice([n.swapcase(), n.title(), unicodedata.normalize("NFD", n), n + "s", n[:-1] or n, n + " ", n.upper() + n[-1], n + r_html]) + ext
            if p not in self.files and p[:p.rindex(".")] not in {q[:q.rindex(".")] for q in self.files if "." in q}: return p
        raise RuntimeError

    def add_data(self):
        r = self.rng
        p = self.name(["d", "data", "note"], ".txt")
        body = r.choice(["plain data", "a <b> & \"c\" 'd'", "l1\nl2\n", "caf\u00e9 \u6f22\u5b57\U0001f600", "", "x" * r.choice([31, 32, 33, 4096, 8191, 8192, 8193, 20000]), "\u6f22" * r.choice([11, 3000])])
        if r.random() < 0.5: body += " %d" % r.randint(0, 99999)
        self.files[p] = {"raw": body}
        self.datas.append(p)
        return p

    def add_twins(self):
        """data and modules of the same relative name in several directories; later sources there use them"""
        r = self.rng
        ds = r.sample(self.dirlist, min(len(self.dirlist), r.choice([2, 2, 3])))
        if len(ds) < 2: ds.append(self.cwd + "/tw")
        if ds[-1] not in self.dirlist: self.dirlist.append(ds[-1])
        self.twins = set(ds)
        for k, d in enumerate(ds):
            self.files[d + "/twin.txt"] = {"raw": "twin %d %s" % (k, self.text())}
            self.files[d + "/tm.lib.papyri"] = {"mod": {"v": "tm %d" % k, "h": self.text(), "data": "twin.txt"}}
            self.mods.append(d + "/tm.lib.papyri")
            if r.random() < 0.5: self.datas.append(d + "/twin.txt")
        return ds

    def add_mod(self, imports=0, uid=0.3, data=0.3, items=True, lib=0.8):
        r = self.rng
        p = self.name(["m", "lib", "util", "common"], ".lib.papyri" if r.random() < lib else ".papyri")
        if self.mods and r.random() < 0.1:  # a module whose name differs from another one's in the extension only
            q = r.choice(self.mods)
            q = q[:q.rindex(".")] + r.choice([".inc", ".inc.papyri.inc", ".lib.inc", ".Papyri.inc", ".papyri~"])
            if "." in q and q not in self.files: p = q
        d = p.rsplit("/", 1)[0]
        m = {"v": self.text()}
        if r.random() < 0.3: m["c"] = "module"
        if r.random() < 0.6: m["h"] = self.text()
        if r.random() < 0.6: m["g"] = self.text()
        if imports and self.mods:
            m["imports"] = [{"m": self.mod_ref(d, q)} for q in r.sample(self.mods, min(len(self.mods), imports))]
        if r.random() < uid: m["uid"] = r.choice(["foo", "bar", "sec"])
        if self.datas and r.random() < data: m["data"] = rel_spelling(r, d, r.choice(self.datas), self.dirlist)
        if d in getattr(self, "twins", ()) and r.random() < 0.6: m["data"] = "twin.txt"
        if items and r.random() < 0.7: m["items"] = [self.simple_item() for _ in range(r.randint(1, 2))]
        if items and r.random() < 0.07: m.setdefault("items", []).append({"k": "warn"})
        self.files[p] = {"mod": m}
        self.mods.append(p)
        return p

    def add_rich_mod(self):
        """a module whose exports are functions and values of every kind; use_rich() gives fragments that use it"""
        import rich
        r = self.rng
        p = self.name(["rm", "rlib"], ".lib.papyri")
        d = p.rsplit("/", 1)[0]
        t, uses = rich.module(r, data=rel_spelling(r, d, r.choice(self.datas), self.dirlist) if self.datas else None)
        self.files[p] = {"raw": t}
        self.__dict__.setdefault("rich", []).append((p, uses))
        return p

    def use_rich(self, doc):
        import rich
        p, uses = self.rng.choice(self.rich)
        return rich.user(self.rng, self.mod_ref(doc.rsplit("/", 1)[0], p), uses)

    def mod_ref(self, d, q):
        s = rel_spelling(self.rng, d, q, self.dirlist)
        if self.rng.random() < 0.6: s = s[:-7]
        return s

    def names_of(self, p):
        m = self.files[p].get("mod")
        if m is None: return []
        return ["v"] + [k for k in ("h", "g") if m.get(k) is not None] + ["x%d" % i for i in range(len(m.get("imports", [])))] + \
            (["k"] if m.get("uid") else []) + (["d"] if m.get("data") else [])

    def simple_item(self):
        r = self.rng
        k = r.choice(["p", "p", "h", "tag", "div", "esc", "let"])
        it = {"k": k, "t": self.text()}
        if k == "h": it["n"] = r.randint(1, 6)
        if k == "tag": it["tag"] = r.choice(["b", "i", "em", "u", "strong"])
        if k == "div": it["tag"] = r.choice(["div", "section", "article"])
        return it

    def use_item(self, d, kind="imp", q=None):
        q = q or self.rng.choice(self.mods)
        ns = self.names_of(q)
        return {"k": kind, "m": self.mod_ref(d, q), "use": self.rng.sample(ns, self.rng.randint(min(1, len(ns)), len(ns)))}

    def add_doc(self, n=None, mods=0.4, reads=0.2, uid=0.2, opq=0.2, warn=0.0, write=0.0, big=0.0, path=None, lists=0.0, ext=".papyri"):
        r = self.rng
        p = path or self.name(["a", "b", "c", "index", "page", "\u00e9t\u00e9"], ext)
        d = p.rsplit("/", 1)[0]
        items, inc, opqs = [], False, set()
        for i in range(n if n is not None else r.randint(1, 5)):
            x = r.random()
            if self.mods and x < mods:
                if not inc and r.random() < 0.3:
                    items.append(self.use_item(d, "inc"))
                    inc = True
                else: items.append(self.use_item(d))
                continue
            x = r.random()
            if self.datas and x < reads:
                items.append({"k": "read", "path": rel_spelling(r, d, r.choice(self.datas), self.dirlist)})
                continue
            if r.random() < uid:
                items.append({"k": "uid", "b": r.choice(["foo", "bar", "sec"])})
                continue
            if r.random() < opq:
                i = r.randrange(len(SNIPPETS))
                if i not in opqs and not (opqs and SNIPPETS[i].startswith("@fn dup")) and not SNIPPETS[i].startswith("<!DOCTYPE") and "@page" not in SNIPPETS[i]:
                    opqs.add(i)
                    items.append({"k": "opq", "i": i})
                    continue
            if r.random() < lists:
                items.append({"k": "list", "path": rel_spelling(r, d, r.choice(self.dirlist), self.dirlist)})
                continue
            if r.random() < warn:
                items.append({"k": "warn"})
                continue
            if r.random() < write:
                items.append({"k": "write", "path": "out_%s_%d.%s" % (p.rsplit("/", 1)[1].split(".")[0], i, r.choice(["html", "txt", "css", "html", "txt", "tmp", "bak", "html~", "papyri.html"])), "t": self.text()})
                if r.random() < 0.5: items[-1]["path"] = r.choice(["gen/", "gen/x/", "./gen/", "gen/../gen2/"]) + p.strip("/").replace("/", "_") + items[-1]["path"]
                else: items[-1]["path"] = p.strip("/").replace("/", "_") + items[-1]["path"]
                if r.random() < 0.15:  # another one whose name differs only in case
                    h, _, b = items[-1]["path"].rpartition("/")
                    b2 = r.choice([b.upper(), b.swapcase(), b[:1].upper() + b[1:]])
                    if b2 != b: items.append({"k": "write", "path": (h + "/" if h else "") + b2, "t": self.text()})
                continue
            if r.random() < 0.06:
                items.append({"k": "lit", "i": r.randrange(len(docs.LITS))})
                continue
            if r.random() < 0.1:
                items.append({"k": "fn", "n": "f%d" % i, "t": self.text()})
                continue
            items.append(self.simple_item())
        if r.random() < big:
            items.append({"k": "p", "t": " ".join("w%d" % k for k in range(r.choice([200, 1500, 2600, 6000])))})
        if d in getattr(self, "twins", ()):
            for _ in range(r.choice([0, 1, 1, 2])):
                items.insert(r.randint(0, len(items)), r.choice([{"k": "read", "path": "twin.txt"}, {"k": "imp", "m": r.choice(["tm.lib", "tm.lib.papyri", "./tm.lib.papyri"]), "use": ["d", "v"]},
                                                                 {"k": "imp", "m": self.mod_ref(d, r.choice(sorted(self.twins)) + "/tm.lib.papyri"), "use": ["d"]}]))
        spec = {"doc": items}
        if r.random() < 0.1: spec["end"] = ""
        if r.random() < 0.1: spec["pre"] = "\n\n"
        if r.random() < 0.06 and not any(i["k"] == "opq" for i in items): spec["crlf"] = 1
        if r.random() < 0.05:  # the very first and last characters
            if r.random() < 0.5:
                items.insert(0, {"k": "p", "t": r.choice(ODD) + "start"})
                spec.pop("pre", None)
            else:
                items.append({"k": "p", "t": "tail " + r.choice(ODD) * r.choice([1, 1, 2])})
                spec["end"] = ""
        self.files[p] = spec
        self.docs.append(p)
        return p

    def add_error(self, p, kinds=None):
        """make document p fail"""
        k = self.rng.choice(kinds or [e for e in ERRS if e != "net"] + ["net"])
        items = self.files[p]["doc"]
        it = {"k": "err", "e": k}
        if self.rng.random() < 0.04: it["pad"] = self.rng.choice([60, 122, 250, 1020, 5000, 66000])  # far to the right
        if k in SWALLOW: items.append(it)
        else: items.insert(self.rng.randint(0, len(items)), it)
        return k


def decorate(w, p=0.3, dirlinks=True):
    """things a tree also holds: unrelated and hidden files and directories, links to directories (also up the tree) and to
    sources, sources kept elsewhere; the model knows what they mean"""
    r = w.rng
    if r.random() >= p: return
    for _ in range(r.randint(1, 3)):
        d = r.choice(w.dirlist)
        k = r.randrange(6 if dirlinks else 3)
        if k == 0: w.files.setdefault(d + "/" + r.choice(["README.md", "style.css", ".papyri-1000-0.tmp", "a.html.bak", "notes.papyri.txt", "x.pap"]), {"raw": "unrelated %d\n" % r.randint(0, 99)})
        elif k == 1:
            n = r.choice(["hid1", "hid2", ".hid3"])
            q = d + "/" + r.choice([".git", ".draft/x"]) + "/" + n
            if r.random() < 0.7: w.files[q + ".papyri"] = {"raw": n + "\n", "html": "<p>%s</p>" % n, "text": n + "\n\n"}
            else: w.files[q] = {"raw": "unrelated\n"}
        elif k == 2 and w.docs:
            # a link to a source, within the tree or to one kept elsewhere
            q = d + "/" + r.choice(["alias1", "alias2"]) + ".papyri"
            if q not in w.files:
                if r.random() < 0.5: w.links[q] = r.choice(w.docs)
                else:
                    t = r.choice(["/store/al1.papyri", "/store/al2.txt"])
                    w.files[t] = {"raw": "kept elsewhere\n", "html": "<p>kept elsewhere</p>", "text": "kept elsewhere\n\n"}
                    w.links[q] = t
        elif k == 3: w.links[d + "/" + r.choice(["up", "loop", "latest", "self.papyri"])] = r.choice([".", "..", "/w", w.cwd, "./.", "sub", "../w"])
        elif k == 4: w.links[d + "/" + r.choice(["dlink", "dlink2"])] = r.choice(w.dirlist)
        elif k == 5: w.links[d + "/" + r.choice(["gone", "gone.txt"])] = "nowhere/at/all"


BAD_MODS = ["syntax", "raise", "utf8", "missing", "dir", "self", "cycle2", "cycle3", "data", "nested", "late"]


def add_bad_mod(w, kind):
    """a module that cannot be imported; returns the path to import"""
    r = w.rng
    p = w.name(["broken", "bad", "x"], ".lib.papyri" if r.random() < 0.8 else ".papyri")
    d = p.rsplit("/", 1)[0]
    if kind == "missing": return p
    if kind == "dir":
        w.dirs.append(p)
        return p
    if kind == "utf8":
        w.files[p] = {"raw": (b"text @export(v=`a`). " + r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f\x98"])).hex(), "hex": 1}
        return p
    m = {"v": w.text(), "items": []}
    if r.random() < 0.4: m["uid"] = r.choice(["foo", "bar", "sec"])
    w.files[p] = {"mod": m}
    if kind == "syntax": m["items"] = [{"k": "err", "e": r.choice(sorted(docs.SYNTAX))}]
    elif kind == "raise": m["items"] = [{"k": "err", "e": r.choice(["raise", "var", "func", "intov", "read", "nomatch", "raise_ml", "raise_fn"])}]
    elif kind == "late": m["items"] = [w.simple_item(), {"k": "uid", "b": "foo"}, {"k": "err", "e": "raise"}]
    elif kind == "data": m["data"] = "no/such/data.txt"
    elif kind == "self": m["imports"] = [{"m": rel_spelling(r, d, p, w.dirlist)}]
    elif kind == "nested":
        q = add_bad_mod(w, r.choice([k for k in BAD_MODS if k != "nested"]))
        m["imports"] = [{"m": rel_spelling(r, d, q, w.dirlist)}]
    else:
        n = 2 if kind == "cycle2" else r.randint(3, 5)
        ps = [p]
        for _ in range(n - 1):
            q = w.name(["cyc", "ring", "loop"], ".lib.papyri")
            w.files[q] = {"mod": {"v": w.text(), "items": []}}
            ps.append(q)
        for a, b in zip(ps, ps[1:] + ps[:1]):
            w.files[a]["mod"]["imports"] = [{"m": rel_spelling(r, a.rsplit("/", 1)[0], b, w.dirlist)}]
    return p


def break_doc(w, p, bad=None):
    """document p gets an error: an own one or through a module"""
    r = w.rng
    if r.random() < 0.5 and bad is None: return w.add_error(p)
    q = bad or add_bad_mod(w, r.choice(BAD_MODS))
    d = p.rsplit("/", 1)[0]
    items = w.files[p]["doc"]
    kind = "inc" if r.random() < 0.3 and not any(i["k"] == "inc" for i in items) else "imp"
    k = next((j for j, i in enumerate(items) if i["k"] == "err" and i["e"] in SWALLOW), len(items))
    j = r.randint(0, k)
    if r.random() < 0.15 and not w.files[p].get("pre"): items.insert(0, {"k": "warn"}); j = max(1, min(j, 2))
    items.insert(j, {"k": kind, "m": w.mod_ref(d, q) if q.endswith(".papyri") else rel_spelling(r, d, q, w.dirlist), "use": []})
    return "module"


def world(w, **kw):
    """scenario skeleton of a finished world"""
    s = {"cwd": w.cwd, "files": w.files, "dirs": w.dirlist + w.dirs}
    if w.links: s["links"] = w.links
    if w.rng.random() < 0.06: s["mounts"] = w.rng.sample(sorted(set(w.dirlist) | {"/w/out", "/w"}), w.rng.choice([1, 1, 2]))
    s.update(kw)
    return s


def standard(rng, cwd="/w", ndocs=(1, 4), nmods=(0, 3), errors=0.2, **kw):
    w = W(rng, cwd)
    for _ in range(rng.randint(0, 2)): w.add_data()
    for _ in range(rng.randint(*nmods)): w.add_mod(imports=rng.choice([0, 0, 1, 2]))
    for _ in range(rng.randint(*ndocs)):
        p = w.add_doc(**kw)
        if rng.random() < errors: w.add_error(p)
    return w


SIZES = ["docs", "bad", "chain", "fan", "writes", "long", "errors", "far", "ids", "name", "reads", "warnings"]


def enlarge(w, p=0.03, kinds=SIZES, doc=None):
    """now and then something comes in large numbers or is very long"""
    r = w.rng
    if r.random() >= p or not (w.docs or doc): return None
    k = r.choice(kinds)
    d = doc or r.choice(w.docs)
    spec = w.files[d]
    if "doc" not in spec: return None
    items = spec["doc"]
    here = d.rsplit("/", 1)[0]
    end = next((j for j, i in enumerate(items) if i["k"] == "err" and i["e"] in SWALLOW), len(items))
    few = lambda *s: r.choice(s)
    if k == "docs":
        for n in range(few(17, 40, 70, 140, 260)):
            q = r.choice(w.dirlist) + "/bulk%d.papyri" % n
            w.files[q] = {"doc": [{"k": "p", "t": "bulk %d" % n}]}
            w.docs.append(q)
    elif k == "bad":
        n0 = r.choice(["0bad", "00/bad", "bad", "zzbad"])
        for n in range(few(3, 6, 11, 11, 21, 34, 101)):
            q = w.dirlist[0] + "/%s%d.papyri" % (n0, n)
            w.files[q] = {"doc": [{"k": "p", "t": "bad %d" % n}, {"k": "err", "e": few("raise", "var", "read")}]}
            w.docs.append(q)
    elif k in ("chain", "fan"):
        ps = []
        ladder = r.random() < 0.5  # each also uses one further down, reached before on another way
        for n in range(few(9, 17, 33, 40, 65)):
            q = w.dirlist[0] + "/many%d.lib.papyri" % n
            m = {"v": "many %d" % n}
            if k == "fan" and n < 3 and r.random() < 0.5: m["uid"] = "foo"
            if k == "chain" and ps: m["imports"] = [{"m": "many%d.lib" % (n - 1)}]
            if k == "chain" and ladder and len(ps) > 1: m["imports"].append({"m": "many%d.lib" % r.choice([n - 2, 0, r.randrange(n - 1)])})
            w.files[q] = {"mod": m}
            ps.append(q)
        for q in ([ps[-1]] if k == "chain" else ps[:r.randint(0, 3)] + ps):  # put in front, so the first are used again at last
            items.insert(end, {"k": "imp", "m": rel_spelling(r, here, q, w.dirlist, True), "use": ["v", "x0"] if k == "chain" else ["v", "k"] if "uid" in w.files[q]["mod"] else ["v"]})
    elif k == "writes":
        for n in range(few(9, 17, 40, 130)): items.insert(r.randint(0, end), {"k": "write", "path": "%s_lots/f%d.html" % (d.strip("/").replace("/", "_"), n), "t": "f %d" % n})
    elif k == "long": items.insert(r.randint(0, end), {"k": "p", "t": " ".join("w%d" % n for n in range(few(9000, 12000, 20000, 150000)))})
    elif k == "errors":
        for n in range(few(9, 17, 65, 127, 128, 255, 256, 257)): items.insert(end, {"k": "err", "e": few("raise", "var", "raise")})
        if r.random() < 0.7: items[:] = [i for i in items if i["k"] == "err"][:len(items)]
    elif k == "warnings":
        for n in range(few(9, 17, 65, 127, 128, 255, 256, 257)): items.insert(end, {"k": "warn"})
        if r.random() < 0.4: w.add_error(d)
    elif k == "far": spec["pre"] = few("\n" * 255, "\n" * 256, "\n" * 65535, "\n" * 70000, " " * 255, " " * 256, " " * 70000, "# " + "\u6f22" * 22000 + "\n", "# c\n" * 20000)
    elif k == "ids":
        for n in range(few(9, 17, 99, 257)): items.insert(end, {"k": "uid", "b": "foo"})
    elif k == "name":
        q = here + "/" + few("n" * 240, "\u00e9" * 120, "x." * 110 + "y") + ".papyri"
        if not spec.get("crlf") and q not in w.files and doc is None:
            w.files[q] = w.files.pop(d)
            w.docs[w.docs.index(d)] = q
    elif k == "reads" and w.datas:
        for n in range(few(9, 17, 65, 257)): items.insert(end, {"k": "read", "path": rel_spelling(r, here, r.choice(w.datas), w.dirlist, True)})
    return k
