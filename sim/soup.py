"""Hostile documents: syntactically and semantically odd Papyri text, nested to a bounded depth and free of
recursive functions (runaway recursion is a listed finding).  Nothing is known about their meaning except
what must hold for every document."""
import re
import docs

NAMES = ["x", "y", "v", "c", "foo", "list", "str", "int", "_", "_n", "caf\u00e9", "a1", "True", "k", "html"]
TAGS = ["b", "i", "p", "div", "a", "/b", "br", "table", "td", "ul", "li", "pre", "script", "!DOCTYPE html", "h1", "nosuch", "$x", "section", "style", "_", "body", "html", "head", "tr", "img", "title", "hr", "hr/", "br/", "em", "strong", "ol", "code", "footer", "dl", "dt", "dd", "q", "sup", "svg", "input"]
TYPES = ["int", "str", "any", "bool", "none", "html", "inline", "block", "function", "regex", "int list", "str dict", "int?", "any list?", "nosuch", "(int, str)", "int str", "@implicit str"]
NATIVES = ["int::add", "int::negate", "int::or", "int::parse", "int::mod", "str::ends_with", "str::escape_html", "str::from", "str::is_empty", "str::is_whitespace", "str::len", "str::lower", "str::split",
           "str::starts_with", "str::trim", "str::unique_id", "str::upper", "regex::compile", "regex::count", "regex::find", "regex::find_all", "regex::split", "regex::test", "function::bind", "function::name",
           "html::escape_html", "html::is_empty", "html::is_whitespace", "html::parse", "html::tag_name", "list::all", "list::any", "list::contains", "list::enumerate", "list::filter", "list::find", "list::flat",
           "list::get", "list::html_nodes", "list::is_empty", "list::join", "list::len", "list::map", "list::slice", "list::sorted", "list::reversed", "dict::get", "dict::is_empty", "dict::items", "dict::keys",
           "dict::len", "dict::new", "dict::values", "file::list", "file::read", "file::write", "net::fetch_raw", "net::fetch_html", "code", "import", "include", "raise", "page", "typeof", "attributes", "class",
           "style", "b", "blockquote", "cite", "href", "image", "kbd", "quote", "h1", "code_block", "numbered", "footnote", "implicit", "function::call", "inline::from", "block::from", "nosuch", "list::nosuch"]
INTS = ["0", "1", "-1", "2", "7", "100", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "4294967296", "00", "-0", "1.5", "1e9"]
STRS = ["", "a", " ", "a b", "caf\u00e9", "\u6f22\u5b57", "\U0001f600", "\u0130", "\u00df", "<b>x</b>", "&amp;", "a,b,c", "[a-z]+", "(?P<k>.)(.)", "(", "\\d", "x*", "\u3000", "e\u0301", "\ufeff", "../..", "/", "%", "no/such", "-1",
        "<!DOCTYPE html><p>q", "<p", "&nosuch;", "x" * 300, "python", "papyri", "rust", "html", "json", "nosuchlang"]
UNI = ["\u00e9", "\u6f22", "\U0001f600", "\u3000", "\u00a0", "\u2028", "\u200b", "\ufeff", "\u0301", "\u202e", "\t", "\r", "\r\n", "\x0b", "\x0c", "\x00", "\x7f", "\u0085", "\u0130", "\U0010ffff", "\u00ad", "\u1680"]
TOKENS = ["@let(", "@match ", "@fn ", "@export", "@implicit", "@", "$", "$x", "$y", "(", ")", "[", "]", "{", "}", "<", ">", "</", "</>", "<b>", "</b>", "<br/>", "<>", "=", "?=", "->", "::", "?::", ":", ",", ".", "...", "|", "*", "**",
          "_", "`", "``", "```", "```\n", "\"", "'", "\\", "\\x41", "\\u00e9", "\\U0001f600", "\\xZ", "\\u12", "\\", "&amp;", "&#65;", "&#x41;", "&#xD800;", "&#99999999999;", "&nosuch;", "&", "#", "# c\n", "\n", "\n\n", " ", "  ", "!", "?",
          "<!DOCTYPE html>", "<!--", "-->", "--", "---", "1/2", "True", "False", "is", "...)", "**$a", "*$a", "$x::y", "@x::y", "None"] + INTS[:6] + NAMES[:6]


def string(r):
    s = r.choice(STRS)
    k = r.random()
    if k < 0.6:
        if not s: return '""'
        n = 1
        while "`" * n in s: n += 1
        return "`" * n + s.replace("\n", " ") + "`" * n
    if k < 0.9: return '"%s"' % s.replace('"', "").replace("\n", " ") if r.random() < 0.7 else "'%s'" % s.replace("'", "")
    return "```\n%s\n```" % s


class G:
    def __init__(self, r, ext=""):
        self.r, self.nf = r, 0

    def fname(self):
        self.nf += 1
        return "fn%d%s" % (self.nf, self.r.choice(["", "_z"]))

    def args(self, d):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.6: out.append(self.expr(d))
            elif x < 0.8: out.append("%s=%s" % (r.choice(["x", "from", "max_length", "key", "reversed", "language", "first_line_no", "code_block", "title", "_p", "nosuch"]), self.expr(d)))
            elif x < 0.9: out.append("*" + self.expr(d))
            else: out.append("**" + self.expr(d))
        return ", ".join(out)

    def call(self, d):
        r = self.r
        f = r.choice(NATIVES)
        a = "(%s)" % self.args(d - 1) if r.random() < 0.6 else ""
        x = r.random()
        if f == "file::read" or f == "file::list": return "@%s `%s`" % (f, r.choice(["no/such", "", ".", "sub", "\u00e9", "\x01"[:0]]))
        if f == "file::write": return "@file::write(%s)%s" % (string(r) if r.random() < 0.3 else "`soup/%s`" % r.choice(["a", "b/c", "../x", "a//b", ".", ""]), self.content(d - 1))
        if f.startswith("net::"): return "@%s `http://127.0.0.1:1/`" % f
        if x < 0.3: return "@%s%s." % (f, a)
        return "@%s%s%s" % (f, a, self.content(d - 1))

    def content(self, d):
        r = self.r
        x = r.random()
        if x < 0.3: return "{%s}" % self.inline(d)
        return " " + self.expr(d)

    def expr(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.25: return r.choice([r.choice(INTS), string(r), string(r), "True", "False", ".", "$x", "$" + r.choice(NAMES)])
        if x < 0.4: return "[%s]" % ", ".join(("*" if r.random() < 0.1 else "") + self.expr(d - 1) for _ in range(r.randint(0, 4)))
        if x < 0.5: return "{%s}" % self.inline(d - 1)
        if x < 0.57: return "@dict::new(%s)." % ", ".join("%s=%s" % (r.choice(NAMES), self.expr(d - 1)) for _ in range(r.randint(0, 3)))
        if x < 0.64: return self.lam(d - 1)
        if x < 0.7: return self.match(d - 1)
        if x < 0.75: return "$%s%s%s" % (r.choice(NAMES), r.choice(["::", "?::"]), r.choice(["len", "map", "x", "k", "name", "is_empty", "tag_name", "from", "\u00e9"]))
        if x < 0.8: return self.tag(d - 1)
        if x < 0.85: return "@let(%s=%s){%s}" % (r.choice(["x", "y", "_"]), self.expr(d - 1), self.inline(d - 1))
        return self.call(d)

    def lam(self, d):
        r = self.r
        return "@fn %s$%s%s -> %s" % (r.choice(["", self.fname() + " ", self.fname() + "($a: %s = %s) " % (r.choice(TYPES), self.expr(0)), "(*$r) ", "(**$k) ", "($q?: int) "]), r.choice(["x", "y", "v", "_"]),
                                      ": " + r.choice(TYPES) if r.random() < 0.5 else "", self.expr(d))

    def pat(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.3: return r.choice(["_", "$x", "$y", "1", "`a`", ".", "True", "$x: " + r.choice(TYPES), "_: $t"])
        if x < 0.5: return "[%s]" % ", ".join(r.choice(["*_", "*$r", self.pat(d - 1), self.pat(d - 1), self.pat(d - 1)]) for _ in range(r.randint(0, 3)))
        if x < 0.6: return "{%s}" % "".join(self.pat(d - 1) for _ in range(r.randint(0, 3)))
        if x < 0.7: return "<$t%s>%s</>" % (r.choice(["", " **$a", " class=$c", " **_", " ..."]), self.pat(d - 1))
        if x < 0.75: return "<b>%s</b>" % self.pat(d - 1)
        if x < 0.8: return "(%s)" % ", ".join(r.choice(["k=$k", "**_", "**$d", "x=1"]) for _ in range(r.randint(0, 2)))
        if x < 0.87: return '"%s"' % r.choice(["$a $b", "pre$x", "$x", "a", "$a,$b,$c", "$_"])
        if x < 0.93: return "%s | %s" % (self.pat(d - 1), self.pat(d - 1))
        return "$z is %s" % self.pat(d - 1)

    def match(self, d):
        r = self.r
        return "@match %s {%s}" % (self.expr(d), ", ".join("%s -> %s" % (self.pat(2), self.expr(d)) for _ in range(r.randint(1, 3))))

    def tag(self, d):
        r = self.r
        t = r.choice(TAGS)
        at = "".join(" %s%s" % (r.choice(["id", "class", "href", "style", "x", "data-k"]), r.choice(["", "=`v`", "=" + self.expr(0), "?=" + self.expr(0)])) for _ in range(r.choice([0, 0, 1, 2])))
        if r.random() < 0.1: at += " **" + self.expr(0)
        x = r.random()
        if x < 0.15: return "<%s%s/>" % (t, at)
        return "<%s%s>%s%s" % (t, at, self.inline(d), r.choice(["</>", "</%s>" % t, "</%s>" % t, "</b>", ""]) if x < 0.4 else "</>")

    def inline(self, d):
        r = self.r
        out = []
        for _ in range(r.randint(0, 3)):
            x = r.random()
            if d <= 0 or x < 0.35: out.append(r.choice(docs.TEXTS[:8] + ["text", "a.b", "1/2", '"q"', "'s'", "&amp;", "\\n", "#"]))
            elif x < 0.55: out.append(self.tag(d - 1))
            elif x < 0.6: out.append(self.lam(d - 1))
            else: out.append(self.expr(d - 1) if r.random() < 0.5 else self.call(d - 1))
        return r.choice([" ", " ", "\n", "\n\n", ""]).join(out)


def grammar(r):
    g = G(r)
    return "\n\n".join(g.inline(r.randint(1, 5)) if r.random() < 0.6 else g.call(r.randint(1, 4)) for _ in range(r.randint(1, 5)))


SIG = [("bool::and", ["b", "b"], None), ("bool::from", [], "v"), ("bool::or", ["b", "b"], None), ("bool::negate", [], "b"), ("int::add", ["i", "i", "i"], None), ("int::negate", [], "i"), ("int::parse", [], "s"),
       ("str::ends_with", ["s", "s"], None), ("str::escape_html", [], "s"), ("str::from", [], "s"), ("str::is_empty", [], "s"), ("str::is_whitespace", [], "s"), ("str::len", [], "s"), ("str::lower", [], "s"),
       ("str::split", ["s"], "s"), ("str::starts_with", ["s", "s"], None), ("str::trim", [], "s"), ("str::unique_id", ["max_length=i"], "s"), ("str::unique_id", [], "s"), ("str::upper", [], "s"), ("regex::compile", [], "s"),
       ("regex::count", ["x"], "s"), ("regex::find", ["x"], "s"), ("regex::find_all", ["x"], "s"), ("regex::split", ["x"], "s"), ("regex::test", ["x"], "s"), ("function::bind", ["f", "v"], "v"), ("function::name", [], "f"),
       ("html::escape_html", [], "h"), ("html::is_empty", [], "h"), ("html::is_whitespace", [], "h"), ("html::parse", [], "s"), ("list::all", ["p"], "l"), ("list::any", ["p"], "l"), ("list::contains", ["v"], "l"),
       ("list::enumerate", ["from=i"], "l"), ("list::filter", ["p"], "l"), ("list::filter", [], "l"), ("list::find", ["p"], "l"), ("list::flat", [], "ll"), ("list::get", ["i"], "l"), ("list::html_nodes", [], "h"),
       ("list::is_empty", [], "l"), ("list::join", ["h"], "l"), ("list::join", [], "l"), ("list::len", [], "l"), ("list::map", ["f"], "l"), ("list::slice", ["i"], "l"), ("list::slice", ["i", "i"], "l"),
       ("list::sorted", [], "hl"), ("list::sorted", ["key=f", "reversed=b"], "hl"), ("list::reversed", [], "l"), ("dict::get", ["s"], "d"), ("dict::is_empty", [], "d"), ("dict::items", [], "d"), ("dict::keys", [], "d"),
       ("dict::len", [], "d"), ("dict::values", [], "d"), ("code", ["code_block=b", "first_line_no=i"], "c"), ("code", ["`python`"], "c"), ("code", [], "c"), ("code_block", ["`rust`"], "c"), ("raise", [], "s")]


def typed(r):
    """a well-typed call of a library function, with odd values"""
    g = G(r)
    ints = ["0", "1", "2", "3", "-1", "-2", "-9", "5", "100", "9223372036854775807", "-9223372036854775808", "4294967297"]
    def lst(kind, n=None):
        n = r.choice([0, 1, 2, 3, 3, 6]) if n is None else n
        return "[%s]" % ", ".join(val(kind) for _ in range(n))
    def val(k):
        if k == "b": return r.choice(["True", "False"])
        if k == "i": return r.choice(ints)
        if k == "s": return string(r)
        if k == "x": return "@regex::compile %s" % r.choice(["`[a-z]+`", "`(?P<k>.)(?P<w>.)?`", '""', "`x*`", "`(a)|(b)`", "`\\b`", "`$`", "`(?i)\u00e9`", "`(.)(.)?`"])
        if k == "f": return "@fn $x -> " + r.choice(["$x", "1", "``", "{$x}", "[$x]", ".", "<b>$x</b>"])
        if k == "p": return "@fn $x -> " + r.choice(["True", "False", "@bool::from $x", "$x"])
        if k == "h": return r.choice(["{}", "{x}", "<br/>", "<b>$q</b>", "<div>x</>", ".", "{a <b>c</b> d}", "<td>1</>", "{\n\n}", "<!DOCTYPE html>"]).replace("$q", "q")
        if k == "l": return lst(r.choice("bishv"))
        if k == "hl": return lst(r.choice("isisv"))
        if k == "ll": return lst("l")
        if k == "d": return "@dict::new(%s)." % ", ".join("%s=%s" % (n, val(r.choice("is"))) for n in r.sample(NAMES[:5] + ["k", "caf\u00e9", "len", "items"], r.choice([0, 1, 3])))
        if k == "c": return r.choice([string(r), "```\n%s\n```" % "\n".join(r.choice(["def f(x):", "    return 1 # c", "\tif x:", "", "  ", "fn main() { let x = \"s\"; }", "/* open", "'unclosed", "0x1F 1e5", "<a href='x'>", "@let(x=1)", "{\"k\": [1]}", "\u3000x", "--- \u6f22"]) for _ in range(r.randint(0, 5))),
                                              "```%s\nx = 1\n```" % r.choice(["python", "rust", "papyri", "html", "json", "java", "nosuch", "", "JavaScript", "none"])])
        return val(r.choice("bishsild"))
    f, a, c = r.choice(SIG)
    if r.random() < 0.5 and f == "str::unique_id": a = ["max_length=i"]
    def arg(x):
        n, _, k = x.rpartition("=")
        return (n + "=" if n else "") + (val(k) if not k.startswith("`") else k)
    args = [arg(x) for x in a]
    call = "@" + f + ("(%s)" % ", ".join(args) if args else "")
    return call + ("." if c is None else r.choice([" ", " ", " "]) + val(c))


def typedtext(r):
    out = []
    for _ in range(r.randint(1, 6)):
        t = typed(r)
        out += [t] * r.choice([1, 1, 1, 2, 4])
        if r.random() < 0.15: out += [re.sub(r"max_length=-?[0-9]+", "max_length=%d" % r.randint(0, 12), t)] * r.randint(1, 12)
    x = r.random()
    if x < 0.15: r.shuffle(out)
    if x < 0.3: return "@let(v=[%s]){$v}" % ", ".join(t for t in out if not t.startswith("@raise"))
    return "\n\n".join(r.choice(["%s", "%s", "p {%s} q", "<div>%s</>", "<b x=%s>k</>", "@typeof %s"]) % t for t in out)


def tokens(r):
    return "".join(r.choice(TOKENS) + (" " if r.random() < 0.2 else "") for _ in range(r.randint(1, 60))).replace("@fn ", "@fn f%d " % r.randrange(9))


NOREC = [s for s in docs.SNIPPETS if "@rep(" not in s and "@dup" not in s and "@fn dflt" not in s and "@useq" not in s]


def seedtext(r):
    k = r.random()
    if k < 0.4: return grammar(r)
    if k < 0.8: return "\n\n".join(r.choice(NOREC) for _ in range(r.randint(1, 3)))
    e = {k: v for k, v in docs.ERRS.items() if k != "raise_fn"}
    return e[r.choice(sorted(e))].replace("\x01", "") + "\n\n" + r.choice(NOREC)


def mutate(r, s):
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        if not s: return s
        i = r.randrange(len(s) + 1)
        j = min(len(s), i + r.choice([1, 1, 2, 5, 20, 100]))
        x = r.random()
        if x < 0.25: s = s[:i] + s[j:]
        elif x < 0.45: s = s[:i] + r.choice(TOKENS).replace("@fn ", "@fn q%d " % r.randrange(99)) + s[i:]
        elif x < 0.6: s = s[:i] + r.choice(UNI) + s[i:]
        elif x < 0.7: s = s[:j] + s[i:j] + s[j:]
        elif x < 0.8: s = s[:i]
        elif x < 0.9:
            t = seedtext(r)
            k = r.randrange(len(t) + 1)
            s = s[:i] + t[k:k + 60] + s[i:]
        else: s = s[:i] + s[i:j][::-1] + s[j:]
    return s


def hostile(r):
    x = r.random()
    if x < 0.2: s = typedtext(r)
    elif x < 0.38: s = grammar(r)
    elif x < 0.45: s = tokens(r)
    elif x < 0.9: s = mutate(r, seedtext(r))
    elif x < 0.95:
        n = r.randint(1, 25)
        a, b = r.choice([("<div>", "</div>"), ("{", "}"), ("[", "]"), ("<b>", "</b>"), ("@h1{", "}"), ("@let(x=1){", "}"), ("@list::map(@fn $x -> ", ") [1]"), ("@match 1 {_ -> ", "}"), ("<ul><li>", "</li></ul>"), ("@str::len ", "")])
        s = a * n + r.choice(["x", "", "1", "`s`"]) + b * r.choice([n, n, n - 1, 0])
    else: s = "".join(r.choice(UNI + ["a", "@", "$x", "<", "`"]) for _ in range(r.randint(1, 30)))
    s = s.encode("utf-8", "replace").decode()
    return s if s.strip() else s + "blank?"
