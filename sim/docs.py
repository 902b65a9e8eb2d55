"""Documents, modules and an independent model of what they mean.

A world's files are described by plain-data specs; `source()` turns a spec into Papyri text and
`Model` computes, without using any papyri code, what compiling that text must give: HTML and text
renderings, requested files, error positions, warnings and files read."""
import posixpath

PAP = ".papyri"

# ---------------------------------------------------------------- opaque snippets
# Feature-rich pieces whose rendering the model does not know; their meaning is taken from a
# reference run of the snippet alone in the plain environment (see Reference).
SNIPPETS = [
    "@list::join(`, `) @list::sorted [`pear`, `fig`, `apple`]",
    "@list::map(@fn $x: int -> @int::add($x, 10).) [3, 1, 2]",
    "@match [1, 2, 3] {[$a, *_] -> {first $a}, _ -> other}",
    "@match {<a/><b>Foo</b><b>Bar</b><i/>} {{<a/>*$x<i/>} -> $x, _ -> none}",
    "@let(d=@dict::new(one=1, two=2, three=3).){keys @list::join(`/`) @dict::keys $d}",
    "@code_block(language=`rust`) ```\nfn main() {\n    let x: u32 = 1; // one\n}\n```",
    "@code(language=`papyri`) ``@let(x=1){$x}``",
    "@code_block(language=`python`, first_line_no=7) ```\ndef f(x):\n    return {'k': x}\n```",
    "A note@footnote{the *note*} here",
    "<table><tr><td>1</td><td>2</td></tr></table>",
    "@numbered [`x`, `y`]",
    "@href(`http://e.org/?a=1&b=2`){a link} and @image(alt=`pic`) `p.png`",
    "@fn dup $c: inline -> <i>first $c</i>\n\n@dup{one}",
    "@fn dup $c: inline -> <b>second $c</b>\n\n@dup{two}",
    "@fn rep($_n: int) $c: html -> @match $_n {0 -> ., _ -> {$c @rep(@int::add($_n, -1).) $c}}\n\n@rep(4){z}",
    "@fn useq($q: @implicit str) $c: inline -> {$q and $c}\n\n@implicit(q=`imp`){@useq{body}}",
    "@class(`c1 c2`) <p>styled</p>",
    "@style(`color: red`) <p>styled</p>",
    "@attributes(id=`k`, title=`t \"q\"`) <p>x</p>",
    "\"Quoted\" 'text' -- dashes... and 1/2 -> arrow",
    "caf\u00e9 \u6f22\u5b57 \U0001f600 &amp; &eacute; \\x41\\u00e9",
    "<ul><li>one</li><li>two</li></ul>",
    "@str::upper `shout` @str::lower `HUSH` @str::trim `  t  ` @str::len `four`",
    "@list::join(`-`) @str::split(`,`) `a,b,c`",
    "@list::enumerate(from=5) [`a`, `b`]",
    "@html::parse `<!DOCTYPE html><div><p>parsed &amp; done</p></div>`",
    "@str::escape_html `<b>x</b>`",
    "@let(r=@regex::compile `([a-z]+)=([0-9]+)`){@match `key=42` {$r -> hit, _ -> miss}}",
    "# comment line\nshown text # trailing\nmore",
    "<!DOCTYPE html>\n\n<html><head><title>T</title></head><body>b</body></html>",
    "@typeof 5 @typeof `s` @typeof [1] @typeof <b>x</b>",
    "@blockquote(cite=`c`){<p>quoted</p>}",
    "<pre>raw\n  kept</pre>",
    "@list::filter(@fn $x: int -> @match $x {2 -> False, _ -> True}) [1, 2, 3]",
    "@fn dflt($_a: str = `da`, $b: str = `db`) $c: inline -> {$_a $b $c}\n\n@dflt{1} @dflt(`x`){2} @dflt(b=`y`){3}",
    "@page(title=`P`){<h2>in page</h2>}",
    "@list::reversed [1, 2, 3] @list::len [1, 2]",
    "@match `hello world` {\"hello $x\" -> $x}",
    "@let(x=1){@let(x=2){inner $x} outer $x}",
    "&lt;not a tag&gt; `code <b>` ``two ` ticks``",
    "@match @dict::new(x=1, y=2, z=3). {(x=$x, **_) -> $x}",
    "@cite{c} @kbd `Ctrl` @samp `s` @sub{1} @sup{2} @quote{q} @underline{u} @strikethrough{s}",
]

TEXTS = ["alpha", "beta two", "gamma, delta", "caf\u00e9", "\u00df stra\u00dfe", "\u6f22 \u5b57", "smile \U0001f600", "long " + "word " * 30 + "end",
         "x", "\u03bb x, y", "n0 n1", "tail"]


# string literals, taken verbatim
LITS = ["a\r\nb", "x\ty", "\u00a0nbsp\u00a0", "trailing  \n  spaces", "\ufeffbom", "e\u0301 \u212b", "l1\n\n\nl4", "&amp; <b> \\x41 $x @f{} {}", "'q' \"d\" -- ...", "bell\x07 del\x7f", "a\rb", "\n", " ",
        "\u2028\u2029\u0085", "\U0001f468\u200d\U0001f469", "form\x0cfeed", "\x0bvt", "nul\x00x", "\x1a\x04", "\t\tindented\n\t\tmore\n", "# no comment", "last\r"]


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


ERRS = {  # kind -> chunk with \x01 before the construct whose position is reported
    "raise": "pre \x01@raise `boom` post",
    "var": "pre \x01$nosuchvar post",
    "func": "pre \x01@nosuchfn post",
    "attr": "pre \x01@nosuchmod::fn post",
    "unclosed": "\x01<b>unclosed",
    "badclose": "pre \x01</i> post",
    "entity": "pre \x01&nosuchentity; post",
    "escape": "pre \x01\\xZZ post",
    "intov": "pre \x01@int::add(9223372036854775807, 1). post",
    "parseint": "pre \x01@int::parse `zz` post",
    "nomatch": "pre \x01@match 3 {1 -> one}",
    "brace": "pre \x01{unclosed",
    "import": "pre \x01@import `no/such/mod`",
    "include": "\x01@include `no/such/mod`",
    "read": "pre \x01@file::read `no/such/file` post",
    "net": "pre \x01@net::fetch_raw `http://127.0.0.1:9/x` post",
    "backtick": "pre \x01`unclosed",
    "raise_ml": "pre line one\nline two \u00e9\u6f22 \U0001f600 \x01@raise `boom`\nline three",
    "raise_fn": "@fn thrower $c: inline -> {$c \x01@raise `inside`}\n\npre \u00df @thrower{x}",
    "listmiss": "pre \x01@file::list `no/such/dir` post",
}
SYNTAX = {"unclosed", "badclose", "entity", "escape", "brace", "backtick"}
SWALLOW = {"unclosed", "brace", "backtick"}  # only as the last item


def chunk(it):
    """source text of one item (\x01 marks the construct that may fail, \x02.. further ones)"""
    k = it["k"]
    if k == "p": return it["t"]
    if k == "h": return "@h%d{%s}" % (it["n"], it["t"])
    if k == "tag": return "pre <%s>%s</%s> post" % (it["tag"], it["t"], it["tag"])
    if k == "div": return "<%s>%s</%s>" % (it["tag"], it["t"], it["tag"])
    if k == "esc": return "a &amp; b &lt; c, " + it["t"]
    if k == "let": return "@let(x=`%s`){val $x done}" % it["t"]
    if k == "lit": return "@let(x=```%s```){lit ($x)}" % LITS[it["i"]]
    if k == "fn": return "@fn %s($_a: str) $c: inline -> {<span class=$_a>$c</span>}\n@%s(`k`){%s}" % (it["n"], it["n"], it["t"])
    if k == "uid": return "id \x01@str::unique_id `%s` end" % it["b"]
    if k == "imp":
        parts = ["$m::" + n if n != "g" else "@m::g{xx}" for n in it["use"]]
        return "@let(m=\x01@import `%s`){i %s}" % (it["m"], " and ".join(parts + ["z"]))
    if k == "inc":
        parts = ["$" + n if n != "g" else "@g{xx}" for n in it["use"]]
        return "\x01@include `%s`\n\nc %s" % (it["m"], " and ".join(parts + ["z"]))
    if k == "write": return "\x01@file::write(`%s`){%s}" % (it["path"], it["t"])
    if k in ("read", "obs"): return "r <u>\x01@file::read `%s`</u> e" % it["path"]
    if k == "list": return "l <u>@list::join(`;`) \x01@file::list `%s`</u> e" % it["path"]
    if k == "opq": return SNIPPETS[it["i"]]
    if k == "warn": return "\x01@code(language=`nosuchlang`) `w`"
    if k == "err":
        if it.get("pad"): return ERRS[it["e"]].replace("pre ", "pre " + ("w\u00e9\u6f22 " * it["pad"])[:it["pad"]].strip() + " ", 1)
        return ERRS[it["e"]]
    if k == "net": return "n <u>\x01@net::fetch_raw `%s`</u> e" % it["url"]
    if k == "neth": return "\x01@net::fetch_html `%s`" % it["url"]
    if k == "rawsrc": return it["t"]
    raise ValueError(k)


def mod_chunks(m):
    out = []
    if m.get("c"): out.append("# %s" % m["c"])
    out.append("@export(v=`%s`)." % m["v"])
    if m.get("h") is not None: out.append("@export(h=<b>%s</b>)." % m["h"])
    if m.get("g") is not None: out.append("@export @fn g $c: inline -> <i>$c %s</i>" % m["g"])
    for i, im in enumerate(m.get("imports", [])):
        out.append("@export @let(n%d=\x01@import `%s`, x%d=<u>$n%d::%s</u>)." % (i, im["m"], i, i, im.get("name", "v")))
    if m.get("uid"): out.append("@export(k=\x01@str::unique_id `%s`)." % m["uid"])
    if m.get("data"): out.append("@export(d=\x01@file::read `%s`)." % m["data"])
    return out


def source_marked(spec):
    chunks = mod_chunks(spec["mod"]) if "mod" in spec else []
    items = spec["mod"].get("items", []) if "mod" in spec else spec["doc"]
    chunks += [chunk(i) for i in items]
    return chunks


def source(spec):
    """bytes of the file a spec describes"""
    if "raw" in spec: return bytes.fromhex(spec["raw"]) if spec.get("hex") else spec["raw"].encode()
    sep = "\n" * spec.get("gap", 2)
    s = spec.get("pre", "") + sep.join(source_marked(spec)).replace("\x01", "") + spec.get("end", "\n")
    if spec.get("crlf"): s = s.replace("\n", "\r\n")
    return s.encode()


def positions(spec):
    """(line, col) of every marked construct, per chunk: list of lists"""
    out = []
    sep = "\n" * spec.get("gap", 2)
    line, col = 1, 1

    def feed(s):
        nonlocal line, col
        marks = []
        for ch in s:
            if ch == "\x01":
                marks.append((line, col))
            elif ch == "\n":
                line, col = line + 1, 1
            else:
                col += 1
        return marks
    feed(spec.get("pre", ""))
    for i, c in enumerate(source_marked(spec)):
        if i: feed(sep)
        out.append(feed(c))
    return out


class Fail(Exception):
    pass


class Out:
    """result of compiling one source according to the model"""

    def __init__(self):
        self.html, self.text = "", ""
        self.writes = []      # (requested path, html, text)
        self.errors = []      # (abs file, line, col) of every construct that fails
        self.chains = []      # for each error: [(module, import position), ...] through which it was reached
        self.warnings = 0
        self.mod_warnings = 0  # in modules: said when one is compiled, not when it is used again
        self.nwarn_known = True
        self.load_error = None  # source itself unreadable
        self.reads = set()      # absolute paths whose content is taken in
        self.names = set()
        self.mods = set()
        self.known = True       # html is known
        self.cycle = False      # an import cycle was met


def join_rel(base_file, rel):
    """the path papyri uses for a request in base_file (not normalised)"""
    if rel.startswith("/"):
        return rel
    d = base_file.rsplit("/", 1)[0] if "/" in base_file else ""
    return d + "/" + rel if d else rel


class FS:
    """read-only view of a simulated tree with POSIX path resolution"""

    def __init__(self, tree, cwd, bad=()):
        self.tree, self.cwd, self.bad = tree, cwd, bad  # bad: canonical paths whose content cannot be read

    def resolve(self, path, depth=0):
        """canonical absolute path of an existing file, or None"""
        if depth > 40: return None
        if path == "": return None
        cur = "" if path.startswith("/") else (self.cwd if self.cwd != "/" else "")
        parts = [p for p in path.split("/")]
        for i, p in enumerate(parts):
            if p in ("", "."):
                if p == "" and i == len(parts) - 1 and i > 0 and cur and self.tree[cur].t != 1: return None
                if p == "." and cur and self.tree[cur].t != 1: return None
                continue
            if cur and self.tree[cur].t != 1: return None
            if p == "..":
                cur = cur.rsplit("/", 1)[0] if cur else ""
                continue
            nxt = cur + "/" + p
            n = self.tree.get(nxt)
            if n is None: return None
            if n.t == 3:
                t = n.data.decode()
                r = FS(self.tree, cur or "/").resolve(t, depth + 1)
                if r is None: return None
                cur = "" if r == "/" else r
            else:
                cur = nxt
        return cur or "/"

    def isdir(self, path):
        r = self.resolve(path)
        return r is not None and (r == "/" or self.tree[r].t == 1)

    def isfile(self, path):
        r = self.resolve(path)
        return r is not None and r != "/" and self.tree[r].t == 2

    def read(self, path):
        r = self.resolve(path)
        if r is None or r == "/" or self.tree[r].t != 2 or r in self.bad: return None
        return self.tree[r].data

    def target(self, path, depth=0):
        """canonical path a file created or replaced at path ends up at (None if impossible)"""
        if depth > 40: return None
        p = posixpath.join(self.cwd, path).rstrip("/")
        d, n = p.rsplit("/", 1)
        c = self.resolve(d or "/")
        if c is None:
            if n == "..": return posixpath.normpath(p)
            c = self.target(d, depth)
            if c is None: return None
        q = (c if c != "/" else "") + "/" + n
        e = self.tree.get(q)
        if e is not None and e.t == 3:
            t = e.data.decode()
            return self.target(t if t.startswith("/") else (c if c != "/" else "") + "/" + t, depth + 1)
        return q

    def lex(self, path):
        return posixpath.normpath(posixpath.join(self.cwd, path)) if path else self.cwd


def is_papyri(path):
    b = path.rstrip("/").rsplit("/", 1)[-1]
    if b in ("", ".", ".."): return False
    i = b.rfind(".")
    return i > 0 and b[i + 1:].lower() == "papyri"


def is_library(path):
    return path.lower().endswith(".lib.papyri")


def path_key(p):
    """Rust's ordering of Path: by components"""
    comps = []
    if p.startswith("/"): comps.append((0, b""))
    parts = p.split("/")
    for i, c in enumerate(parts):
        if c == "": continue
        if c == ".":
            if i == 0: comps.append((1, b""))
            continue
        if c == "..": comps.append((2, b"")); continue
        comps.append((3, c.encode("utf-8", "surrogateescape")))
    return comps


class Model:
    """compiles sources according to the specs registered for file contents"""

    def __init__(self, specs_by_content, ref):
        self.specs = specs_by_content  # bytes -> spec
        self.ref = ref                 # Reference for opaque snippets

    def compile(self, fs, path, out_dir, net=False, data=None):
        o = Out()
        stdin = data is not None
        if not stdin: data = fs.read(path)
        if data is None:
            o.load_error = "unreadable"
            return o
        st = _State(self, fs, o, out_dir, net)
        try:
            data.decode()
        except UnicodeDecodeError:
            o.load_error = "utf8"
            return o
        if not stdin: o.reads.add(fs.resolve(path))
        st.unit(path, data, top=True)
        return o


class _State:
    def __init__(self, model, fs, out, out_dir, net):
        self.m, self.fs, self.o, self.out_dir, self.net = model, fs, out, out_dir, net
        self.uids = {}
        self.stack = []
        self.mods = {}  # canonical -> ("busy",) | ("err",) | ("ok", html, text, exports)

    def uid(self, base):
        n = self.uids.get(base, 0) + 1
        self.uids[base] = n
        return base if n == 1 else f"{base}_{n}"

    def err(self, path, pos):
        self.o.errors.append((self.fs.lex(path),) + pos)
        self.o.chains.append(list(self.stack))

    def load(self, importer, rel, pos):
        """returns (html, text, exports) or None after recording an error"""
        if not rel.endswith(PAP): rel += PAP
        p = join_rel(importer, rel)
        c = self.fs.resolve(p)
        if c is None:
            self.err(importer, pos)
            return None
        s = self.mods.get(c)
        if s is not None:
            if s[0] == "ok": return s[1:]
            if s[0] == "busy": self.o.cycle = True
            self.err(importer, pos)
            return None
        data = self.fs.read(p)
        if data is None:
            self.mods[c] = ("err",)
            self.err(importer, pos)
            return None
        try:
            data.decode()
        except UnicodeDecodeError:
            self.mods[c] = ("err",)
            self.err(importer, pos)
            return None
        self.mods[c] = ("busy",)
        self.o.mods.add(c)
        self.o.reads.add(c)
        n = len(self.o.errors)
        saved = self.out_dir
        self.out_dir = None
        self.stack.append((c, (self.fs.lex(importer),) + pos))
        r = self.unit(p, data, top=False)
        self.stack.pop()
        self.out_dir = saved
        if len(self.o.errors) > n:
            self.mods[c] = ("err",)
            return r
        self.mods[c] = ("ok",) + r
        return r

    def unit(self, path, data, top):
        spec = self.m.specs.get(data)
        if spec is None or "raw" in spec:
            if spec is not None and spec.get("html") is not None:
                r = (spec["html"], spec["text"], {})
                if top: self.o.html, self.o.text = r[0], r[1]
                return r
            self.o.known = False
            return "", "", {}
        pos = positions(spec)
        html, text, exports = [], [], {}
        crlf, self.crlf = getattr(self, "crlf", False), bool(spec.get("crlf"))
        ci = 0
        if "mod" in spec:
            m = spec["mod"]
            if m.get("c"): ci += 1
            exports["v"] = (esc(m["v"]), m["v"])
            ci += 1
            if m.get("h") is not None:
                exports["h"] = ("<b>%s</b>" % esc(m["h"]), m["h"]); ci += 1
            if m.get("g") is not None:
                exports["g"] = ("<i>xx %s</i>" % esc(m["g"]), "xx " + m["g"]); ci += 1
            for i, im in enumerate(m.get("imports", [])):
                r = self.load(path, im["m"], pos[ci][0])
                if r is not None:
                    v = r[2].get(im.get("name", "v"))
                    if v is None:
                        if not self.o.errors: self.err(path, pos[ci][0])
                    else:
                        exports["x%d" % i] = ("<u>%s</u>" % v[0], v[1])
                ci += 1
            if m.get("uid"):
                u = self.uid(m["uid"])
                exports["k"] = (u, u); ci += 1
            if m.get("data"):
                d = self.data(path, m["data"], pos[ci][0])
                if d is not None: exports["d"] = (esc(d), d)
                ci += 1
            items = m.get("items", [])
        else:
            items = spec["doc"]
        for it in items:
            h, t = self.item(path, it, pos[ci])
            html.append(h); text.append(t)
            ci += 1
        self.crlf = crlf
        h, t = "".join(html), "".join(text)
        if top: self.o.html, self.o.text = h, t
        return h, t, exports

    def data(self, path, rel, pos):
        p = join_rel(path, rel)
        d = self.fs.read(p)
        if d is None:
            self.err(path, pos)
            return None
        try:
            s = d.decode()
        except UnicodeDecodeError:
            self.err(path, pos)
            return None
        self.o.reads.add(self.fs.resolve(p))
        return s

    def item(self, path, it, pos):
        k = it["k"]
        P = lambda h, t: ("<p>%s</p>" % h, t + "\n\n")
        if k == "p": return P(esc(it["t"]), it["t"])
        if k == "h": return "<h%d>%s</h%d>" % (it["n"], esc(it["t"]), it["n"]), it["t"] + "\n"
        if k == "tag": return P("pre <%s>%s</%s> post" % (it["tag"], esc(it["t"]), it["tag"]), "pre %s post" % it["t"])
        if k == "div" and it["tag"] == "div": return "<div>%s</div>" % esc(it["t"]), it["t"] + "\n"
        if k == "div": return "<%s><p>%s</p></%s>" % (it["tag"], esc(it["t"]), it["tag"]), it["t"] + "\n\n\n"
        if k == "esc": return P("a &amp; b &lt; c, " + esc(it["t"]), "a & b < c, " + it["t"])
        if k == "let": return P("val %s done" % esc(it["t"]), "val %s done" % it["t"])
        if k == "lit":
            s = LITS[it["i"]]
            if self.crlf: s = s.replace("\n", "\r\n")
            return P("lit (%s)" % esc(s), "lit (%s)" % s)
        if k == "fn": return P('<span class="k">%s</span>' % esc(it["t"]), it["t"])
        if k == "uid":
            u = self.uid(it["b"])
            return P("id %s end" % u, "id %s end" % u)
        if k == "imp":
            r = self.load(path, it["m"], pos[0])
            if r is None: return "", ""
            return self.uses(path, "i ", r, it["use"], pos[0])
        if k == "inc":
            r = self.load(path, it["m"], pos[0])
            if r is None: return "", ""
            h, t = self.uses(path, "c ", r, it["use"], pos[0])
            return r[0] + h, r[1] + t
        if k == "write":
            if self.out_dir is None or resolve_out(self.out_dir, it["path"]) is None:
                self.err(path, pos[0])
                return "", ""
            self.o.writes.append((it["path"], esc(it["t"]), it["t"]))
            return "", ""
        if k == "read":
            d = self.data(path, it["path"], pos[0])
            if d is None: return "", ""
            return P("r <u>%s</u> e" % esc(d), "r %s e" % d)
        if k == "obs":  # reads what another process may be writing
            self.o.known = False
            return "", ""
        if k == "list":
            l = self.listing(path, it["path"])
            if l is None:
                self.err(path, pos[0])
                return "", ""
            s = ";".join(l)
            return P("l <u>%s</u> e" % esc(s), "l %s e" % s)
        if k == "opq": return self.m.ref.snippet(it["i"])
        if k == "rawsrc":
            self.o.known = False
            return "", ""
        if k == "warn":
            if self.stack: self.o.mod_warnings += 1
            else: self.o.warnings += 1
            return P("<code>w</code>", "w")
        if k == "err":
            if it["e"] == "net" and self.net:
                self.o.known = False
                return "", ""
            self.err(path, pos[0])
            return "", ""
        if k == "net":
            if not self.net:
                self.err(path, pos[0])
                return "", ""
            body = self.m.net(it["url"])
            if body is None:
                self.err(path, pos[0])
                return "", ""
            return P("n <u>%s</u> e" % esc(body), "n %s e" % body)
        if k == "neth":
            body = self.m.net(it["url"]) if self.net else None
            if body is None:
                self.err(path, pos[0])
                return "", ""
            i, j = body.index("<title>"), body.index("<p>")  # pages as made by c11.html_page
            return body[len("<!DOCTYPE html>"):], body[i + 7:body.index("</title>")] + "\n\n" + body[j + 3:body.index("</p>")] + "\n\n\n\n"
        raise ValueError(k)

    def uses(self, path, lead, r, names, pos):
        hs, ts = [], []
        for n in names:
            v = r[2].get(n)
            if v is None:
                if not self.o.errors: self.err(path, pos)
                return "", ""
            hs.append(v[0]); ts.append(v[1])
        hs.append("z"); ts.append("z")
        return "<p>%s</p>" % (lead + " and ".join(hs)), lead + " and ".join(ts) + "\n\n"

    def listing(self, path, rel):
        base = self.fs.resolve(join_rel(path, rel))
        if base is None: return None
        found = find_sources(self.fs, base)
        b = rel.rstrip("/")
        return ["%s/%s" % (b, f[:f.rindex(".")]) for f in found]


def find_sources(fs, base):
    """relative paths, sorted, of regular Papyri files at any depth below canonical directory base"""
    pre = "/" if base == "/" else base + "/"
    if base != "/" and fs.tree[base].t != 1:
        return []
    out = set()
    for p, n in fs.tree.items():
        if not p.startswith(pre) or p == base: continue
        if n.t == 2 and is_papyri(p): out.add(p[len(pre):])
        elif n.t == 3:
            r = fs.resolve(p)
            if r and r.startswith(pre) and is_papyri(r) and fs.tree[r].t == 2: out.add(r[len(pre):])
    return sorted(out, key=path_key)


def norm_keep(path):
    """lexical normalisation keeping leading '..'; '' for the empty relative path"""
    absolute = path.startswith("/")
    out = []
    for c in path.split("/"):
        if c in ("", "."): continue
        if c == "..":
            if out and out[-1] != "..": out.pop()
            elif not absolute: out.append("..")
        else: out.append(c)
    return ("/" if absolute else "") + "/".join(out)


def resolve_out(out_dir, path):
    """normalised path relative to the output directory, or None if not below it"""
    p = norm_keep(path if path.startswith("/") else out_dir + "/" + path)
    b = norm_keep(out_dir)
    if b == "":
        rest = p
    elif b == "/":
        rest = p[1:] if p.startswith("/") else None
    elif p.startswith(b + "/"):
        rest = p[len(b) + 1:]
    else:
        return None
    if not rest or rest.startswith("/") or rest.split("/")[0] == "..": return None
    return rest
