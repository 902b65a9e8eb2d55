"""Feature-rich, mostly valid document fragments with names, texts and numbers drawn from small pools, so that several
documents use the same names in different orders, kinds and places.  Used where runs are compared with each other."""
import docs

NAMES = ["kappa", "omega", "Zeta", "alpha", "beta", "nu", "q1", "rho_x", "sigma", "Mu"]
WORDS = ["one", "two", "three", "caf\u00e9", "\u6f22\u5b57", "pear", "Fig", "apple", "x<y", "a&b", "\U0001f600", "10", "9"]
LANGS = ["rust", "python", "javascript", "html", "css", "json", "java", "bash", "c", "papyri", "sql", "nosuch", "none"]


def url(r):
    return "%s://%s.example/%s" % (r.choice(["http", "https"]), r.choice(NAMES).lower(), "".join(r.choice("abc?=&") for _ in range(r.choice([0, 1, 5, 20]))))


def words(r, n=None):
    return " ".join(url(r) if r.random() < 0.15 else r.choice(WORDS + NAMES) for _ in range(n or r.randint(1, 6)))


SNIPPETS = ["let x = \"1\";", "# https://q1.example/a\ndef f(x): return 'é'", "<p class=\"x\">{a: 1}</p>", "@let(x=`1`){$x} // y"]  # the same code in several languages and forms


def code(r):
    l = r.choice(LANGS)
    out = []
    if r.random() < 0.25:
        b = r.choice(SNIPPETS)
        if r.random() < 0.6: return "@code(language=`%s`) ```%s%s%s```" % (l, r.choice(["", "", " "]), b.split("\n")[-1], r.choice(["", "", " "]))
        return "@code_block(language=`%s`%s) ```\n%s\n```" % (l, r.choice(["", ", first_line_no=%d" % r.randint(2, 5)]), b)
    for _ in range(r.randint(1, 4)):
        c = words(r, r.choice([1, 3, 8])).replace("`", "")
        n = r.choice(NAMES)
        out.append(r.choice(["// %s" % c, "# %s" % c, "/* %s */" % c, "let %s = \"%s\";" % (n, c), "%s(%s[%d], {'%s': %d});" % (n, r.choice(NAMES), r.randint(0, 99), c, r.randint(0, 9)),
                             "def %s(x): return '%s'" % (n, c), "<p class=\"%s\">%s</p>" % (n, c), "@let(%s=`x`){$%s}" % (n, n), "if (%s > 1) { return %s; }" % (n, r.choice(NAMES)), "}])"]))
    b = "\n".join(out)
    q = "`" * 3
    while q in b: q += "`"
    if r.random() < 0.4: return "@code(language=`%s`) %s%s%s" % (l, q, out[0], q)
    return "@code_block(language=`%s`%s) %s\n%s\n%s" % (l, r.choice(["", "", ", first_line_no=%d" % r.randint(2, 50)]), q, b, q)


def strs(r, n=None):
    return "[%s]" % ", ".join("`%s`" % r.choice(WORDS + NAMES) for _ in range(n or r.randint(1, 5)))


def some(r, a=1, b=4):
    return r.sample(NAMES, r.randint(a, b))


KINDS = 28


def frag(r, k=None):
    n, m = r.sample(NAMES, 2)
    w = words(r)
    if k is None: k = r.randrange(KINDS)
    if k == 0: return "<p %s>%s</p>" % (" ".join("%s=\"%s\"" % (x, r.choice(WORDS[:6])) for x in some(r)), esc(w))
    if k == 1: return "@let(d=@dict::new(%s).){@list::join(`/`) @dict::keys $d : @list::join(`,`) @dict::values $d}" % ", ".join("%s=`%s`" % (x, r.choice(WORDS)) for x in some(r))
    if k == 2: return "@match @dict::new(%s=1, %s=2). {(%s=$a, **$z) -> {got $a @dict::len $z}, _ -> none}" % (n, m, r.choice([n, m]))
    if k == 3 and r.random() < 0.7:
        g, h = r.choice([("key", "val"), ("key", "val"), (n, m), ("omega", "kappa")])
        p = r.choice(["(?P<%s>[a-z]+)=(?P<%s>[0-9]+)", "(?P<%s>[a-z])(?P<%s>.*)"]) % (g, h)
        return r.choice(["@let(r=@regex::compile `%s`){@let(m=@regex::find($r) `ab=42`){$m::%s of $m::%s, @list::join(`,`) @dict::keys $m}}" % (p, h, g),
                         "@list::map(@fn $d -> {$d::%s.}) @regex::find_all(@regex::compile `%s`) `ab=1 cd=22`" % (r.choice([g, h]), p)])
    if k == 3: return "@let(r=@regex::compile `(?P<%s>[a-z]+)=(?P<%s>[0-9]+)`){@match `%s=42` {$r -> hit, _ -> miss} @regex::count($r) `a=1 b=2`}" % (n, m, r.choice(["key", "K"]))
    if k == 4: return code(r)
    if k == 5: return code(r)
    if k == 6: return "@fn %s($_%s: str, $%s: int = %d) $c: inline -> {<i>$_%s</i> $%s $c}\n\n@%s(`%s`%s){%s}" % (n, m, n, r.randint(0, 9), m, n, n, r.choice(WORDS), r.choice(["", ", %s=3" % n]), esc(w))
    if k == 7: return "@list::join(`, `) @list::sorted%s %s" % (r.choice(["", "(reversed=True)", "(key=@fn $x -> @str::len $x)"]), strs(r))
    if k == 8: return "@list::join(`;`) @list::map(@fn $x -> {<b>$x</b>}) %s" % strs(r)
    if k == 9: return "@let(%s=`%s`, %s=`%s`){$%s and $%s}" % (n, r.choice(WORDS), m, r.choice(WORDS), n, m)
    if k == 10: return "<%s id=@str::unique_id(max_length=%d) `%s`>%s</>" % (r.choice(["h1", "h2", "section", "div"]), r.choice([3, 5, 10, 30]), r.choice(["sec", "sec_2", n, "a b", "\u00e9t\u00e9"]), esc(w))
    if k == 11: return "A%s@footnote{%s} and B@footnote{%s}" % (r.choice(WORDS[:3]), n, esc(w))
    if k == 12:
        t = r.choice(["p", "p", "section"])
        return "@html::parse `<!DOCTYPE html><div %s=\"1\" %s='2'><%s>%s</%s><hr></div>`" % (n.lower(), m.lower(), t, w.replace("`", "").replace("<", "").replace("&", ""), t)
    if k == 13: return "\"%s\" '%s' -- %s... 1/2 -> (c) %d/%d" % (n, m, esc(w), r.randint(1, 9), r.randint(1, 9))
    if k == 14: return "<ul>%s</ul>" % "".join("<li>%s</li>" % esc(words(r)) for _ in range(r.randint(1, 4)))
    if k == 15: return "@attributes(%s) <p>%s</p>" % (", ".join("%s=`%s`" % (x.lower(), r.choice(WORDS[:3])) for x in some(r)), esc(w))
    if k == 16: return "@export(%s=`%s`).\n\ntext" % (n, r.choice(WORDS))
    if k == 17: return "@match <%s %s=\"1\">%s</> {<$t **$z>$_</> -> {tag @list::join(`.`) @dict::keys $z}, _ -> none}" % (r.choice(["b", "i", "span"]), n, esc(w))
    if k == 18: return "@implicit(%s=`%s`){@let(f=@fn($%s: @implicit str) $c: inline -> {$%s $c}){@f{%s}}}" % (n, r.choice(WORDS), n, n, esc(w))
    if k == 19: return "@str::%s `%s` and @str::escape_html `%s`" % (r.choice(["upper", "lower", "trim", "len"]), w.replace("`", ""), w.replace("`", ""))
    if k == 20: return "@match \"%s-%s\" {\"$%s-$%s\" -> {$%s / $%s}, _ -> none}" % (n, m, n, m, m, n)
    if k == 21: return "@class(`%s %s`) <p>%s</p>" % (n, m, esc(w))
    if k == 22: return "@list::join(`|`) @regex::split(@regex::compile `%s`) `%s`" % (r.choice(["[, ]+", "a", "[0-9]"]), w.replace("`", ""))
    if k == 23: return "@fn %s($_n: int) $c: html -> @match $_n {0 -> ., _ -> {$c @%s(@int::add($_n, -1).) $c}}\n\n@%s(%d){z}" % (n, n, n, r.randint(0, 5))
    if k == 24: return "@numbered %s" % strs(r)
    if k == 25: return "%s<hr/>%s<br/>%s" % (r.choice(["", "x", "<p>y</p>\n\n"]), esc(w), r.choice(["", "<hr %s=\"1\"/>" % n.lower(), "<img src=\"%s\" alt=\"%s\"/>" % (n, m)]))
    if k == 26: return "<%s>%s</>" % (r.choice(["ol", "ul", "dl", "table"]), "".join("<%s>%s</>" % (r.choice(["li", "li", "dt", "tr"]), r.choice([esc(w), "<p>%s</p>" % m, "<td>%s</td><th>%s</th>" % (n, m), "<ul><li>%s</li></ul>" % n])) for _ in range(r.randint(1, 4))))
    return "%s &amp; %s &eacute; \\x41 # %s" % (esc(w), n, m)


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;")


def text(r, n=None):
    return "\n\n".join(frag(r) for _ in range(n or r.choice([1, 1, 2, 3, 5, 8])))


# ---------------------------------------------------------------- modules with functions and values of every kind
def line(r):
    """a fragment of one paragraph, for the body of a function"""
    for _ in range(50):
        s = frag(r)
        if "\n" not in s and "@fn" not in s and "#" not in s: return s
    return "plain"


def module(r, n=None, data=None):
    """(text of a module, fragments that use it as $m); its exports keep references to its own text"""
    out, uses = [], []
    for k in range(n or r.randint(1, 5)):
        x = r.randrange(12)
        f = "%s%d" % (r.choice(NAMES), k)
        if x == 0: b, u = "@export @fn %s $c: inline -> {@code(language=`%s`) `let x = \"%s\"; // %d` $c}" % (f, r.choice(LANGS), r.choice(WORDS[:3]), r.randint(0, 99)), "@m::%s{x}" % f
        elif x == 1 and data: b, u = "@export @fn %s $c: inline -> {@file::read `%s` $c}" % (f, data), "@m::%s{x}" % f
        elif x == 2: b, u = "@export @fn %s $c: html -> {\n    @code_block(language=`%s`) ```\n    def f(x):\n        return %d\n    ```\n    $c\n}" % (f, r.choice(LANGS), r.randint(0, 99)), "@m::%s{<p>x</p>}" % f
        elif x == 3: b, u = "@export(%s=[1, `two`, {%s}])." % (f, "<b>%s</b>" % r.choice(WORDS[:3])), "@list::len $m::%s @list::join(`+`) $m::%s" % (f, f)
        elif x == 4: b, u = "@export(%s=@dict::new(%s=%d, %s=`x`).)." % ((f,) + tuple(r.sample(NAMES, 1)) + (r.randint(0, 9), "zz")), "@list::join(`-`) @dict::keys $m::%s" % f
        elif x == 5: b, u = "@export(%s=@regex::compile `(?P<%s>[a-z]+)`)." % (f, r.choice(["key", "val", "kappa"])), "@list::join(`.`) @dict::keys @regex::find($m::%s) `12ab`" % f
        elif x == 6: b, u = "@export @fn %s $c -> @match $c { _: $t -> $t }" % f, "@m::%s{x} @m::%s 3" % (f, f)
        elif x == 7: b, u = "@export @fn %s($_a: int = %d) $c: inline -> {@int::add($_a, 1). $c}" % (f, r.randint(0, 9)), r.choice(["@m::%s{x}", "@m::%s(4){y}"]) % f
        elif x == 8: b, u = "@export @fn %s $c: inline -> {``lit`` \"q$c\" %s}" % (f, line(r)), "@m::%s{%s}" % (f, r.choice(WORDS[:5]))
        elif x == 9: b, u = "@export @fn %s $c: inline -> {$c @str::unique_id `%s`}" % (f, r.choice(["sec", "kappa"])), "@m::%s{id}" % f
        elif x == 10: b, u = "@export @fn %s $c: inline -> {\u00e9 $c \u6f22 @raise `inside`}" % f, r.choice(["@m::%s{x}" % f, "$m::%s" % f, "fine", "fine"])
        else: b, u = "@export @let(h%d=`%s`, %s=<u>$h%d $h%d</u>)." % (k, r.choice(WORDS[:3]), f, k, k), "$m::%s" % f
        out.append(b)
        uses.append(u)
    return "\n\n".join(out) + "\n", uses


def user(r, ref, uses, n=None):
    """a fragment that imports a module and uses some of its exports"""
    us = [r.choice(uses) for _ in range(n or r.randint(1, 3))]
    return "@let(m=@import `%s`){%s}" % (ref, " ".join(us)) if r.random() < 0.6 else "\n\n".join("@let(m=@import `%s`){%s}" % (ref, u) for u in us)
