"""C11: no network unless allowed; a fetch is the whole body or an error."""
import itertools
import sim, cli, lib, web, docs
import gen as G
from lib import *

CASES = {"quick": 12000, "thorough": 300000}
MS, S = web.MS, web.S
RULE = ("each case is a batch (or stdin) whose documents and modules fetch pages over a simulated network: names that resolve slowly, to several addresses or not at all; "
        "connections accepted, refused, unreachable or never answered; answers framed by length, chunks or the end of the connection, split at any byte, delayed, "
        "truncated at any byte, reset, stalled, redirected or malformed; socket calls failing; partial sends; thread schedules of the client varied; with and without the "
        "option; non-trivial: a document with a fetch is compiled; distinct by (option, outcome and shape of every fetched page, rules)")
REAL = "the papyri binary built from /repo with reqwest, hyper, tokio, mio and the platform's TLS library, unmodified"
STUB = "operating system: files, clock, randomness, threads' schedule, sockets, epoll, eventfd, name resolution (sim/simos.c, sim/simnet.h); the far side of every connection is a script"
VARS = {"PAPYRI_ALLOW_HTTP": ["1", "true"], "ALLOW_HTTP": ["1"], "HTTP_PROXY": ["http://127.0.0.1:8080"], "http_proxy": ["http://10.0.0.1:1"], "CI": ["1", "true"], "PAPYRI_OPTS": ["--allow-http"], "ALL_PROXY": ["socks5://127.0.0.1:1"], "DEBUG": ["1"]}
LATIN = "\u00e9\u00fc\u00a3"


def text_body(rng):
    u = rng.choice(["body", "x", "l1\nl2", "a <b> & \"c\" 'd'", "caf\u00e9 \u6f22\u5b57\U0001f600", "\u6f22", "", "0\r\n\r\n", "{\"k\": [1, 2]}", "HTTP/1.1 200 OK\r\n\r\n"])
    n = rng.choice([1, 1, 1, 2, 30, 400, 2000])
    s = u * n if len(u) * n < 30000 else u * 100
    if rng.random() < 0.02 and u: s = u * (rng.choice([66000, 140000, 300000]) // len(u.encode()) + 1)
    return s + ("%d" % rng.randint(0, 999) if s else "")


def html_page(rng):
    w = lambda: " ".join(rng.choice(["alpha", "beta", "gamma", "\u00e9t\u00e9"]) for _ in range(rng.choice([1, 3, 500])))
    return "<!DOCTYPE html><html><head><title>%s</title></head><body><p>%s</p></body></html>" % (w(), w())


def page(rng, path, html=False, kind=None, to=None, base=None):
    """an answer; kind: good cut slow malformed redirect"""
    kind = kind or rng.choice(["good"] * 6 + ["cut"] * 5 + ["slow"] * 2 + ["malformed"])
    body = html_page(rng) if html else text_body(rng)
    if to: body = "moved"
    cs = "utf-8"
    hd = []
    if not html and not to and rng.random() < 0.1 and all(ord(c) < 0x100 for c in body):
        cs = "latin-1"
        body += LATIN
        hd.append("Content-Type: text/plain; charset=iso-8859-1")
    elif rng.random() < 0.5: hd.append("Content-Type: text/%s%s" % ("html" if html else "plain", rng.choice(["", "; charset=utf-8", ";charset=UTF-8", "; x=y"])))
    b = body.encode(cs)
    frame = rng.choice(["cl", "cl", "chunked", "eof"])
    if to: frame = "cl"
    ver = "1.1"
    if frame == "eof" and rng.random() < 0.5: ver = "1.0"
    if frame == "cl":
        hd.append(rng.choice(["Content-Length: %d", "content-length: %d", "Content-Length:%d"]) % len(b))
        pay = b
    elif frame == "chunked":
        hd.append(rng.choice(["Transfer-Encoding: chunked", "transfer-encoding: chunked"]))
        pay, at = b"", 0
        while at < len(b):
            k = rng.choice([1, 2, 3, 16, 100, 5000, 1 << 20])
            if len(b) - at > 3000: k = max(k, 1000)
            if len(b) - at > 40000: k = max(k, 17000)
            k = min(k, len(b) - at)
            pay += (b"%x" % k if rng.random() < 0.7 else b"%X" % k) + rng.choice([b"", b"", b";e=1"]) + b"\r\n" + b[at:at + k] + b"\r\n"
            at += k
        pay += b"0\r\n\r\n"
    else:
        pay = b
        if rng.random() < 0.5: hd.append("Connection: close")
    status = rng.choice(["200 OK"] * 8 + ["201 Created", "203 X", "404 Not Found", "500 Internal Server Error", "418 I'm a teapot"])
    if to:
        status = rng.choice(["301 Moved", "302 Found", "303 See Other", "307 Temporary Redirect", "308 Permanent Redirect"])
        loc = to
        if rng.random() < 0.4 and to.startswith(base + "/"): loc = "/" + to.split("/", 3)[3]
        hd.append("Location: " + loc)
    close = frame != "eof" and rng.random() < 0.3
    if close: hd.append("Connection: close")
    rng.shuffle(hd)
    for _ in range(rng.choice([0, 0, 1, 3])): hd.insert(rng.randint(0, len(hd)), "X-H%d: %s" % (rng.randint(0, 9), "v" * rng.choice([1, 50, 900])))
    head = ("HTTP/%s %s\r\n" % (ver, status)).encode() + "\r\n".join(hd).encode() + (b"\r\n" if hd else b"") + b"\r\n"
    if rng.random() < 0.08 and ver == "1.1": head = b"HTTP/1.1 100 Continue\r\n\r\n" + head
    raw = head + pay
    p = {"frame": frame, "body": None if to else body, "head": len(head), "full": len(raw), "kind": kind, "html": html}
    if to: p["to"] = to
    if frame == "eof": p["end"] = "eof"
    elif close: p["end"] = rng.choice(["eof", "eof", "reset"])
    else: p["end"] = rng.choice(["keep"] * 4 + ["eof"])
    if kind == "malformed":
        m = rng.choice(["garbage", "badlen", "badchunk", "nohead", "status", "hdr", "bigchunk"])
        if m == "garbage": raw = b"\x00\x01\x02 not http at all\r\n\r\n" + raw
        elif m == "badlen":
            frame = "cl"
            raw = b"HTTP/1.1 200 OK\r\nContent-Length: 12x\r\n\r\n" + b
        elif m == "badchunk": raw = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + b + b"\r\n0\r\n\r\n"
        elif m == "bigchunk": raw = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + b"%x" % (len(b) + 5) + b"\r\n" + b + b"\r\n0\r\n\r\n"
        elif m == "nohead": raw = b""
        elif m == "status": raw = b"HTTP/1.1 9999 OK\r\n\r\n" + b
        elif m == "hdr": raw = b"HTTP/1.1 200 OK\r\nNo colon here\r\n\r\n" + b
        p.update(bad=m, end=rng.choice(["eof", "reset", "stall"]), head=1 << 40, full=1 << 40)
        if m == "nohead" and p["end"] == "keep": p["end"] = "eof"
    if kind == "cut":
        x = rng.random()
        n = len(raw)
        p["cut"] = rng.choice([0, 1, 12, len(head) - 1, len(head), len(head) + 1, n - 1, n - 2, n - 4, n - 5, rng.randint(0, n - 1)])
        p["cut"] = max(0, min(n - 1, p["cut"]))
        p["end"] = rng.choice(["eof", "eof", "reset", "stall"])
        if frame == "eof":
            if p["end"] == "eof" and p["cut"] >= len(head): p["end"] = rng.choice(["reset", "stall"])
            p["full"] = len(raw)
    n = len(raw) if p.get("cut") is None else p["cut"]
    how = rng.random()
    if how < 0.3: splits = []
    elif how < 0.5: splits = list(range(1, n)) if n < 600 else list(range(1, n, n // 300))
    else: splits = sorted({rng.choice([len(head) - 2, len(head), len(head) + 1, n - 1, n - 3, rng.randint(0, n)]) for _ in range(rng.randint(1, 12))})
    splits = [x for x in splits if 0 < x < n]
    unit = rng.choice([0, 0, MS, 10 * MS, 50 * MS])
    delays = [rng.choice([0, unit, unit, 2 * unit]) for _ in range(len(splits) + 1)]
    if kind == "slow":
        # one long wait, before the head or inside the body
        k = rng.randrange(len(delays))
        delays[k] += rng.choice([5, 20, 24, 36, 60, 300]) * S
    p.update(raw=raw.decode("latin-1"), splits=splits, delays=delays)
    if p["end"] != "keep" and rng.random() < 0.5: p["end_delay"] = rng.choice([0, MS, 500 * MS, 2 * S])
    return p


def make_web(rng, simple=False):
    """hosts, connections and pages; returns (web, urls by kind)"""
    w = {"dns": {}, "conn": {}, "pages": {}}
    bases = []
    for h in range(rng.randint(1, 3)):
        name = rng.choice(["host%d.test", "www.h%d.example", "localhost%d"]) % h
        port = rng.choice([80, 80, 8080, 1])
        x = rng.random()
        if x < 0.25:
            name = "10.0.%d.1" % h
            addrs = [name]
        else:
            addrs = ["10.0.%d.%d" % (h, k + 1) for k in range(rng.choice([1, 1, 2, 3]))]
            w["dns"][name] = {"addrs": addrs}
            if rng.random() < 0.4: w["dns"][name]["delay"] = rng.choice([MS, 300 * MS, 3 * S])
            if rng.random() < 0.08: w["dns"][name] = {"err": rng.choice(["NONAME", "AGAIN", "FAIL"]), "delay": rng.choice([0, 2 * S])}
        for k, a in enumerate(addrs):
            y = rng.random()
            c = {}
            if y < 0.15 and not simple: c["err"] = rng.choice(["ECONNREFUSED", "EHOSTUNREACH", "ENETUNREACH", "ETIMEDOUT", "ECONNRESET"])
            elif y < 0.19 and not simple: c["stall"] = True
            elif y < 0.22 and not simple: c["mute"] = True
            elif y < 0.25 and not simple: c["segs"] = [{"kind": rng.choice(["eof", "reset"]), "delay": rng.choice([0, MS])}]
            elif y < 0.35: c.update(window=rng.choice([1, 7, 40, 100]), refill=rng.choice([0, MS, 20 * MS]))
            if rng.random() < 0.5: c["delay"] = rng.choice([MS, 50 * MS, S])
            w["conn"]["%s:%d" % (a, port)] = c
        bases.append("http://%s%s" % (name, ":%d" % port if port != 80 or rng.random() < 0.2 else ""))
    return w, bases


def add_page(rng, w, bases, html, k, kind=None):
    tails = ["", ".txt", "/sub/x", "?q=1&r=2"] + ["/", "//", "/?", "?", "?q=a+b", "?a&a=", "/%41%2Fb", "/caf%C3%A9/", ";v=1", "/.", "?q=/x/"] * (rng.random() < 0.5)
    tail = rng.choice([t for t in tails if t != "/."])
    path = "/" if rng.random() < 0.06 and "/" not in w["pages"] else "/p%d%s" % (k, tail)
    url = rng.choice(bases) + path
    if path == "/" and rng.random() < 0.6: url = url[:-1]
    w["pages"][path] = page(rng, path, html, kind)
    x = path.rstrip("/?") or "/"
    if x != path and x not in w["pages"] and rng.random() < 0.5: w["pages"][x] = page(rng, x, html, "good")  # something else nearby
    if rng.random() < 0.08: url += rng.choice(["#frag", "#"])
    if rng.random() < 0.08: url = "http://" + url[7:].split("/")[0].upper() + url[7 + len(url[7:].split("/")[0]):]
    if rng.random() < 0.15:
        for h in range(rng.choice([1, 1, 2, 9, 12])):
            p2 = "/r%d_%d" % (k, h)
            base = rng.choice(bases) if rng.random() < 0.5 else "/".join(url.split("/")[:3])
            w["pages"][p2] = page(rng, p2, kind="good", to=url, base=base)
            url = base + p2
        if rng.random() < 0.1: w["pages"][path] = page(rng, path, kind="good", to=url, base="/".join(url.split("/")[:3]))  # round and round
    return url


BADURLS = ["https://%s/x", "relative/path", "http://", "://x", "http://nosuch.invalid/x", "http://[::1", "http://%s:99999/x", "mailto:a@b", "http://10.9.9.9:1/x"]


def gen(rng, env, i, tier):
    g = G.W(rng)
    wb, bases = make_web(rng)
    kinds = []
    urls = []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        html = rng.random() < 0.2
        urls.append((add_page(rng, wb, bases, html, k), html))
    if rng.random() < 0.15:
        u = rng.choice(BADURLS)
        urls.append((u % bases[0].split("/")[2].split(":")[0] if "%s" in u else u, False))
    item = lambda: (lambda u: {"k": "neth" if u[1] else "net", "url": u[0]})(rng.choice(urls))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        m = g.add_mod(imports=rng.choice([0, 1]), data=0)
        if rng.random() < 0.6: g.files[m]["mod"].setdefault("items", []).append(item())
    for _ in range(rng.randint(1, 4)):
        d = g.add_doc(n=rng.randint(0, 3), reads=0, opq=0)
        if rng.random() < 0.02:
            for _ in range(rng.choice([9, 17, 40])): g.files[d]["doc"].append(item())
        for _ in range(rng.choice([0, 1, 1, 2])): g.files[d]["doc"].insert(rng.randint(0, len(g.files[d]["doc"])), item())
        if rng.random() < 0.08: g.add_error(d, ["raise", "var", "syntax"] if False else ["raise", "var"])
    env_ = {"sched": True, "allow_net": 1, "tick": rng.choice([0, 1000, 10000]), "hash_seed": rng.randrange(1 << 30), "sched_seed": rng.randrange(1 << 30), "sched_prob": rng.choice([0, 50, 300, 800])}
    if rng.random() < 0.2: env_["eintr_every"] = rng.choice([2, 3, 7])
    if rng.random() < 0.15: env_["readdir_seed"] = rng.randrange(99)
    opts = list(rng.choice([[], [], ["-t"], ["-o", "out"]])) + flags(rng, 0.15)
    steps = []
    x = rng.random()
    if x < 0.2: modes = [False]
    elif x < 0.3: modes = [False, True]
    elif x < 0.4: modes = [True, True]
    else: modes = [True]
    for j, on in enumerate(modes):
        st = {"op": "run", "argv": opts + (["--allow-http"] if on else []), "web": wb}
        if j and on and rng.random() < 0.7:  # the far side recovered
            w2 = {"dns": dict(wb["dns"]), "conn": {a: {} for a in wb["conn"]}, "pages": {}}
            for p, d in wb["pages"].items(): w2["pages"][p] = d if d.get("to") or d["kind"] == "good" else page(rng, p, d["html"], "good")
            st["web"] = w2
            if rng.random() < 0.3: st["argv"].append("-u")
        steps.append(st)
    if not any(modes):  # whatever else is asked for, there is no network
        for o in (["-s"], ["-u"], ["-t"], ["--ignore-warnings"], ["-o", "allow-http"]):
            if rng.random() < 0.25 and o[0] not in steps[0]["argv"] and not (o == ["-s"] and silent(steps[0]["argv"])): steps[0]["argv"] += o
        if rng.random() < 0.3: env_["vars"] = {k: rng.choice(VARS[k]) for k in rng.sample(sorted(VARS), rng.randint(1, 3))}
    if rng.random() < 0.1:
        st = steps[-1]
        data = docs.source(g.files[g.docs[0]])
        if not any(it["k"] in ("imp", "inc") for it in g.files[g.docs[0]]["doc"]):
            g.files["/w/zz_stdin.txt"] = {"raw": data.decode()}
            st["argv"] = [a for a in st["argv"] if a not in ("-o", "out", "allow-http", "-u")] + ["-i"]
            st["stdin"] = data.hex()
            st["stdin_doc"] = g.docs[0]
            del g.files["/w/zz_stdin.txt"]
    if rng.random() < 0.2 and modes[-1]:
        k = rng.choice(["socket", "connect", "send", "recv", "getaddrinfo"])
        errs = {"socket": ["EMFILE", "ENFILE", "ENOMEM", "EACCES"], "connect": ["ENETUNREACH", "ECONNREFUSED", "ETIMEDOUT", "EACCES"], "send": ["EPIPE", "ECONNRESET"],
                "recv": ["ECONNRESET", "ETIMEDOUT", "EHOSTUNREACH"], "getaddrinfo": ["EIO", "ENOMEM"]}
        steps[-1]["rules"] = [rule("err", kinds=[k], skip=rng.choice([0, 0, 1, 2, 3, 5, 8]), count=rng.choice([1, 1, -1]), err=rng.choice(errs[k]))]
    return G.world(g, steps=steps, env=env_)


NETOPS = ("socket", "connect", "send", "recv", "getaddrinfo")
NAMES = ("timed out", "refused", "reset", "closed", "connect", "dns", "lookup", "redirect", "url", "URL", "host", "http", "HTTP", "body", "pipe", "request", "address", "port", "scheme", "builder")


def net_urls(scn):
    out = []
    for p, s in scn["files"].items():
        for it in (s["doc"] if "doc" in s else s.get("mod", {}).get("items", [])):
            if it["k"] in ("net", "neth") and it["url"] not in out: out.append(it["url"])
    return sorted(out)


def check(c, scn):
    steps, model = run(c, scn, fill=False)
    sig, seen = [], False
    for x in steps:
        if x.st["op"] != "run": continue
        judge(c, scn, model, x, sig)
    c.sig = tuple(sig)


def judge(c, scn, model, x, sig):
    p, rep, end = x.procs[0], x.reports[0], x.procs[0].ended()
    argv, wb = x.st["argv"], x.st["web"]
    on = "--allow-http" in argv
    used = [o for o in x.res.ops if o.kind in NETOPS]
    urls = net_urls(scn)
    c.nontrivial |= bool(urls)
    if not on:
        if used: c.bad("network-used", f"without --allow-http the process does {used[0]!r}: {' '.join(argv)}")
        sig.append(("off", len(urls)))
    if end not in ("exit 0", "exit 1"):
        c.bad("no-end", f"ends with {end} after {(x.res.clock - x.clock) / 1e9:.1f} simulated seconds; {p.err[-300:].decode(errors='replace')}")
        return
    rules = [r for r, k in zip(x.st.get("rules", []), x.res.fired) if k]
    racy = any(d["end"] == "eof" and d["frame"] != "eof" and "onnection: close" not in d["raw"][:d["head"] if d["head"] < 1 << 30 else 0] for d in wb["pages"].values())
    res = {}
    for u in urls: res[u] = web.fetch(wb, u, racy) if on else (web.BAD, None)
    if rules:  # an attempt that fails at once may also spare a fetch an address that never answers
        w2 = dict(wb, conn={a: {} for a in wb["conn"]})
        res = {u: (web.EITHER, b) if r != web.BAD else web.fetch(w2, u, True) for u, (r, b) in res.items()}
    for o in used:
        c.env.probe("net op " + o.kind)
    if on:
        for u, (r, b) in sorted(res.items()): c.env.probe("fetch expected " + r)
        shape = []
        for q, d in sorted(wb["pages"].items()):
            shape.append((d["frame"], d["kind"], d["end"], d.get("cut") is not None and (d["cut"] < d["head"], d["cut"] == d["head"]), len(d["splits"]) if len(d["splits"]) < 4 else 4, max(d["delays"]) // S, d.get("bad"), bool(d.get("to"))))
            if x.res.conns:
                n = d["kind"] if d["kind"] != "cut" else "cut then " + d["end"]
                c.env.faults["page " + n] = c.env.faults.get("page " + n, 0) + 1
                if d["splits"]: c.env.faults["page split"] = c.env.faults.get("page split", 0) + 1
        sig.append(("on", tuple(r for _, (r, b) in sorted(res.items())), tuple(shape), tuple((r["kinds"][0], r["err"]) for r in rules)))
    nf = len(x.res.conns) + sum(v[2] for v in x.res.conns) + 4 * len(scn["files"])
    spent = (x.res.clock - x.clock) / 1e9
    total = sum(sum(d["delays"]) for d in wb["pages"].values()) / 1e9
    items = [sum(it["k"] in ("net", "neth") for it in (f["doc"] if "doc" in f else f.get("mod", {}).get("items", []))) for f in scn["files"].values()]
    if spent > 65 * ((len(urls) + sum(items)) * len(scn["files"]) * 2 + 2): c.bad("unbounded", f"the run took {spent:.0f} simulated seconds for {len(urls)} pages")
    # every way the undetermined fetches can have gone; a fetch is undetermined per use, so alternatives are tried per source
    either = [u for u in urls if res[u][0] == web.EITHER]
    worlds = []
    for bits_ in itertools.product((True, False), repeat=min(len(either), 4)):
        pick = dict(zip(either, bits_))
        model.net = lambda u, pick=pick: (res[u][1] if res[u][0] == web.GOOD or pick.get(u) else None) if u in res else None
        if "stdin" in x.st: worlds.append(model.compile(FS(x.pre, "/w"), "<stdin>", None, net=on, data=bytes.fromhex(x.st["stdin"])))
        else: worlds.append(pred(model, x))
    files = {q: n.data for q, n in x.post.items() if n.t == F}
    if "stdin" in x.st:
        fails = []
        for r in worlds:
            if r.errors: ok = end == "exit 1" and p.out == b""
            else: ok = end == "exit 0" and p.out in ((r.text if "-t" in argv else r.html).encode(), (r.text if "-t" in argv else r.html).encode() + b"\n")
            if ok: return
            fails.append((bool(r.errors), (r.text if "-t" in argv else r.html)[:300]))
        c.bad("stdin", f"{end}, stdout {bits(p.out, 200)}; expected one of {fails[:2]}; stderr {p.err[-300:].decode(errors='replace')}")
        return
    if silent(argv) and (end == "exit 0" or rep.summary):  # nothing is said about what went well
        for pr in worlds:
            for e in pr.entries:
                if e.src not in rep.status and e.status in ("ok", "nooutput", "lib", "unchanged"): rep.status[e.src] = e.status
    # sources are judged one by one: each must match one of the ways
    ch = Change(x.pre, x.post)
    allowed = set()
    for k, e in enumerate(worlds[0].entries):
        msgs = []
        for pr in worlds:
            e = pr.entries[k]
            m = one(c, e, rep, x, res, files)
            for d, a, b in e.outs: allowed.add(FS(x.post, "/").target(a))
            if m is None:
                msgs = None
                break
            msgs.append(m)
        if msgs: c.bad(*msgs[0])
    for q in sorted(ch.files() - allowed): c.bad("stray", f"{q} is created or changed and no source asked for that")
    anyfail = any(v == "failed" for v in rep.status.values())
    if (end == "exit 1") != anyfail: c.bad("exit", f"{end} with verdicts {rep.status}")


def one(c, e, rep, x, res, files):
    """None, or what is wrong with one source"""
    k = rep.status.get(e.src)
    if e.status == "failed":
        if k != "failed": return ("not-failed", f"{e.src} is reported as {k} although a fetch in it must fail ({res}) or it has another error")
        for d in x.reports[0].wrote: pass
        if e.main in files and (e.main not in x.pre or x.pre[e.main].data != files[e.main]): return ("output-of-failed", f"{e.main} is written although {e.src} failed: {bits(files[e.main], 200)}")
        diag = rep.diag.get(e.src, "")
        want = set(e.out.errors) | {q for ch in e.out.chains for _, q in ch}
        got = {(FS(x.pre, x.cwd).lex(f), l, col) for f, l, col in rep.locs.get(e.src, [])}
        if not want & got: return ("position", f"{e.src}: no failing construct is named: expected one of {sorted(want)}, reported {sorted(got)}; {diag[:400]}")
        if "--allow-http" in x.st["argv"] and "network" in diag:
            lines = [l for l in diag.split("\n") if "network" in l]
            if not any(n in l for l in lines for n in NAMES): return ("unnamed", f"{e.src}: the error does not name the failure: {lines[:2]}")
        return None
    if e.status in ("ok", "nooutput"):
        if k == "failed": return ("wrongly-failed", f"{e.src}: every fetch in it is answered completely in time ({ {u: r[0] for u, r in res.items()} }) but it failed: {rep.diag.get(e.src, '')[:500]}")
        if k is None: return ("unhandled", f"{e.src} is not handled")
        for d, a, b in e.outs:
            q = FS(x.post, "/").target(a)
            if q not in files: return ("missing", f"{q} of {e.src} is missing")
            if b is not None and files[q] != b: return ("content", f"{q} of {e.src} is wrong {differ(b, files[q])}")
        return None
    want = {"lib": "lib", "unchanged": "unchanged"}.get(e.status)
    if want and k != want: return ("verdict", f"{e.src} is {k}, expected {e.status}")
    return None


def shrink(scn):
    """smaller webs"""
    out = []
    for k, st in enumerate(scn["steps"]):
        wb = st.get("web")
        if not wb: continue
        for f in ("pages", "conn", "dns"):
            for q in sorted(wb[f]): out.append(lambda s, k=k, f=f, q=q: s["steps"][k]["web"][f].__delitem__(q))
        for q in sorted(wb["pages"]):
            def plain(s, k=k, q=q): s["steps"][k]["web"]["pages"][q].update(splits=[], delays=[])
            out.append(plain)
    return out
