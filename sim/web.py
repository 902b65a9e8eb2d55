"""The far side of the simulated network: pages, how they are delivered, and what a fetch of them must give.

A web is plain data: {"dns": {host: {...}}, "conn": {"ip:port": {...}}, "pages": {path: page}}.  A page lists the exact bytes
of the answer ("raw", latin-1), where its head and its body end in them, when the pieces arrive and how it ends."""
MS = 1_000_000
S = 1000 * MS


def segs_of(page):
    """pieces of an answer with their arrival times"""
    raw = page["raw"] if page.get("cut") is None else page["raw"][:page["cut"]]
    out, at = [], 0
    cuts = [x for x in page.get("splits", []) if 0 < x < len(raw)]
    dl = page.get("delays", [])
    for i, x in enumerate(cuts + [len(raw)]):
        if x > at or i == 0: out.append({"kind": "data", "data": raw[at:x], "delay": dl[i] if i < len(dl) else 0})
        at = x
    if page["end"] != "keep": out.append({"kind": page["end"], "delay": page.get("end_delay", 0)})
    return out


def scripts(web):
    out = []
    for h, d in sorted(web.get("dns", {}).items()):
        out.append({"kind": "dns", "key": h, "err": d.get("err"), "delay": d.get("delay", 0), "segs": [{"kind": "data", "data": a} for a in d.get("addrs", [])]})
    for a, d in sorted(web.get("conn", {}).items()):
        s = dict(d, kind="connect", key=a)
        if s.pop("stall", None): s["delay"] = -1
        out.append(s)
    for p, d in sorted(web.get("pages", {}).items()):
        out.append({"kind": "answer", "key": p, "segs": segs_of(d)})
    return out


def split_url(u):
    """(host, port, path) of a plain http URL or None"""
    if not u.startswith("http://"): return None
    r = u[7:].split("#", 1)[0]
    i = r.find("/")
    hp, path = (r, "/") if i < 0 else (r[:i], r[i:])
    h, _, p = hp.partition(":")
    if not h or (p and not p.isdigit()): return None
    return h.lower(), int(p or 80), path


GOOD, BAD, EITHER = "good", "bad", "either"


def connect(web, host, port):
    """(outcome, ns)"""
    t, early = 0, False
    if host.replace(".", "").isdigit(): addrs = [host]
    else:
        d = web.get("dns", {}).get(host)
        if d is None or d.get("err"): return BAD, d.get("delay", 0) if d else 0
        t += d.get("delay", 0)
        addrs = d.get("addrs", [])
    for a in addrs:
        c = web.get("conn", {}).get("%s:%d" % (a, port))
        if c is None: t += MS; continue
        if c.get("stall"): return BAD, 30 * S
        t += max(0, c.get("delay", 0))
        if c.get("err"): continue
        if c.get("mute"): return BAD, 30 * S
        if c.get("segs"):  # closed before it is asked; a reset may look like a refusal
            if any(g["kind"] == "reset" for g in c["segs"]):
                early = True
                continue
            return BAD, t
        if c.get("window"): t += c.get("refill", 0) * (200 // c["window"] + 2)
        return (EITHER if early else GOOD), t
    return BAD, t


def fetch(web, url, tainted=False):
    """(outcome, body): what a fetch of url must evaluate to"""
    lo, hi, hops = 0, 0, 0  # bounds of the time until the head is there; connections may be reused
    while True:
        u = split_url(url)
        if u is None: return BAD, None
        r, t = connect(web, u[0], u[1])
        hi += t
        if r == BAD: return BAD, None
        if r == EITHER: tainted = True
        p = web["pages"].get(u[2])
        if p is None: return BAD, None
        if p.get("bad"): return BAD, None
        raw = p["raw"]
        have = len(raw) if p.get("cut") is None else min(len(raw), p["cut"])
        # arrival times
        at, t, head, body = 0, 0, None, None
        cuts = [x for x in p.get("splits", []) if 0 < x < have] + [have]
        dl = p.get("delays", [])
        for i, x in enumerate(cuts):
            t += dl[i] if i < len(dl) else 0
            if head is None and x >= p["head"]: head = t
            if body is None and x >= p["full"]: body = t
        end = t + p.get("end_delay", 0)
        if head is None: return BAD, None
        lo += head
        hi += head
        if lo > 33 * S: return BAD, None
        if hi > 27 * S: tainted = True
        if p.get("to") is not None:
            hops += 1
            if hops > 10: return BAD, None
            url = p["to"]
            continue
        if p["frame"] == "eof":
            if p["end"] != "eof" or body is None: return BAD, None
            body = end
        if body is None: return BAD, None
        if body - head > 33 * S: return BAD, None
        if body - head > 27 * S: tainted = True
        if tainted or p["end"] == "reset": return EITHER, p["body"]
        return GOOD, p["body"]
