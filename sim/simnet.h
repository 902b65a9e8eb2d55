// Simulated network: name resolution, TCP sockets, epoll, eventfd.  Included by simos.c.
// A world describes the far side with scripts: kind 0 answers a request for a path, kind 1 says what happens to a
// connection to an address ("ip:port"), kind 2 resolves a name.  Everything arrives at a virtual time.
#include <sys/eventfd.h>

static int sc_match(struct script *s, int kind, const char *key, size_t n) {
    if (s->kind != kind || (s->times >= 0 && s->used >= s->times)) return 0;
    return (s->keylen == n && !memcmp(A->str + s->keyoff, key, n)) || (s->keylen == 1 && A->str[s->keyoff] == '*');
}
static int sc_find(int kind, const char *key, size_t n) {
    for (int i = 0; i < A->nscripts; i++)
        if (sc_match(&A->scripts[i], kind, key, n)) { A->scripts[i].used++; return i; }
    return -1;
}
static struct seg *sc_seg(int s, uint32_t i) { return (struct seg *)(A->data + A->scripts[s].segoff) + i; }

static void conn_start(struct conn *c, int s, int64_t now) {
    c->script = s; c->segi = 0;
    c->due = A->scripts[s].nseg ? now + sc_seg(s, 0)->delay : -1;
    if (c->due < 0) c->script = -1;
}
// the far side looks at what it received
static void conn_requests(struct conn *c) {
    if (c->script >= 0 || c->mute || c->rx_eof || c->rx_rst) return;
    char *b = A->data + c->tx.off;
    for (uint64_t i = c->reqpos; i + 4 <= c->tx.len; i++) {
        if (memcmp(b + i, "\r\n\r\n", 4)) continue;
        char *s = b + c->reqpos, *e = b + i;
        c->reqpos = i + 4;
        c->nreq++;
        char *sp = memchr(s, ' ', e - s), *sp2 = sp ? memchr(sp + 1, ' ', e - sp - 1) : NULL;
        int k = sp2 ? sc_find(0, sp + 1, sp2 - sp - 1) : -1;
        if (k < 0) { vlog("no script for request %.*s", (int)(sp2 ? sp2 - s : 40), s); c->rx_rst = 1; c->err = ECONNRESET; c->rgen++; c->wgen++; return; }
        conn_start(c, k, A->clock + A->scripts[k].delay);
        return;
    }
}
static int conn_event(struct conn *c) {
    // applies one due event
    if (c->state == 2 && c->t_connect >= 0 && c->t_connect <= A->clock) {
        c->t_connect = -1;
        if (c->cerr) { c->state = 4; c->err = c->cerr; c->rgen++; c->wgen++; }
        else { c->state = 3; c->wgen++; if (c->cscript >= 0 && A->scripts[c->cscript].nseg) conn_start(c, c->cscript, A->clock); }
        return 1;
    }
    if (c->refill_at >= 0 && c->refill_at <= A->clock) {
        c->refill_at = -1; c->room = A->scripts[c->cscript].window; c->wgen++;
        return 1;
    }
    if (c->script >= 0 && c->due >= 0 && c->due <= A->clock && c->state == 3) {
        struct seg *s = sc_seg(c->script, c->segi);
        int64_t at = c->due;
        switch (s->kind) {
            case 0: if (s->len) { buf_add(&c->rx, A->data + s->off, s->len); c->rgen++; } break;
            case 1: c->rx_eof = 1; c->rgen++; break;
            case 2: c->rx_rst = 1; c->err = ECONNRESET; c->rgen++; c->wgen++; break;
            case 3: c->due = -1; c->mute = 1; return 1; // nothing more ever
        }
        c->segi++;
        if (c->rx_eof || c->rx_rst) { c->due = -1; c->script = -1; c->mute = 1; }
        else if (c->segi < (uint32_t)A->scripts[c->script].nseg) c->due = at + sc_seg(c->script, c->segi)->delay;
        else { c->due = -1; c->script = -1; conn_requests(c); }
        return 1;
    }
    return 0;
}
static void net_poll_all(void) {
    int any = 0;
    for (int i = 0; i < A->nconn; i++)
        if (A->conns[i].used) while (conn_event(&A->conns[i])) any = 1;
    if (any)
        for (uint32_t i = 0; i < A->ntasks; i++)
            if (A->tasks[i].state == TS_BLOCK && A->tasks[i].waitkind == 3) A->tasks[i].state = TS_RUN;
}
static int64_t net_next_event(void) {
    int64_t best = -1;
    for (int i = 0; i < A->nconn; i++) {
        struct conn *c = &A->conns[i];
        if (!c->used) continue;
        int64_t t[3] = {c->state == 2 ? c->t_connect : -1, c->refill_at, c->state == 3 && c->script >= 0 ? c->due : -1};
        for (int k = 0; k < 3; k++) if (t[k] >= 0 && (best < 0 || t[k] < best)) best = t[k];
    }
    return best;
}

// ---------------------------------------------------------------- epoll and eventfd, private to the process
struct evobj { int used, refs; uint64_t count; uint32_t gen; };
static struct evobj evs[16];
struct epreg { int used, fd, kind, ref; uint32_t events; uint64_t data; uint32_t seen_r, seen_w; };
struct epobj { int used, refs; struct epreg r[96]; };
static struct epobj eps[16];

static void ep_forget(int fd) {
    for (int e = 0; e < 16; e++) if (eps[e].used)
        for (int i = 0; i < 96; i++) if (eps[e].r[i].used && eps[e].r[i].fd == fd) eps[e].r[i].used = 0;
}
static void wake_io(void) {
    for (uint32_t i = 0; i < A->ntasks; i++)
        if (A->tasks[i].state == TS_BLOCK && A->tasks[i].waitkind == 3 && A->tasks[i].proc == PI) A->tasks[i].state = TS_RUN;
}
static int sock_close(struct vfd *f) {
    if (f->kind > 5) return 0;
    ep_forget(FDBASE + (int)(f - P->fds));
    if (f->kind == 4) { if (--evs[f->ref].refs == 0) evs[f->ref].used = 0; }
    else if (f->kind == 5) { if (--eps[f->ref].refs == 0) eps[f->ref].used = 0; }
    else if (f->kind == 3) { struct conn *c = &A->conns[f->ref]; if (--c->refs == 0) { c->state = 5; c->used = 0; } }
    return 0;
}
static void sock_dup(struct vfd *f) {
    if (f->kind == 4) evs[f->ref].refs++;
    else if (f->kind == 5) eps[f->ref].refs++;
    else if (f->kind == 3) A->conns[f->ref].refs++;
}
int eventfd(unsigned init, int flags) {
    if (!ON) { REAL(int, eventfd, (unsigned, int)); return real_eventfd(init, flags); }
    for (int i = 0; i < 16; i++) if (!evs[i].used) {
        int fd = new_fd(4, -1, O_RDWR | O_NONBLOCK);
        if (fd < 0) break;
        evs[i] = (struct evobj){1, 1, init, 1};
        getfd(fd)->ref = i;
        return fd;
    }
    errno = EMFILE;
    return -1;
}
static ssize_t ev_read(struct vfd *f, void *buf, size_t n) {
    struct evobj *e = &evs[f->ref];
    if (n < 8) { errno = EINVAL; return -1; }
    if (!e->count) { errno = EAGAIN; return -1; }
    memcpy(buf, &e->count, 8);
    e->count = 0;
    return 8;
}
static ssize_t ev_write(struct vfd *f, const void *buf, size_t n) {
    struct evobj *e = &evs[f->ref];
    uint64_t v;
    if (n < 8) { errno = EINVAL; return -1; }
    memcpy(&v, buf, 8);
    sched_yield_point();
    e->count += v;
    e->gen++;
    wake_io();
    sched_yield_point();
    return 8;
}
int epoll_create1(int flags) {
    if (!ON) { REAL(int, epoll_create1, (int)); return real_epoll_create1(flags); }
    for (int i = 0; i < 16; i++) if (!eps[i].used) {
        int fd = new_fd(5, -1, O_RDWR);
        if (fd < 0) break;
        memset(&eps[i], 0, sizeof eps[i]);
        eps[i].used = eps[i].refs = 1;
        getfd(fd)->ref = i;
        return fd;
    }
    errno = EMFILE;
    return -1;
}
int epoll_create(int n) {
    if (!ON) { REAL(int, epoll_create, (int)); return real_epoll_create(n); }
    return epoll_create1(0);
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    if (!ON) { REAL(int, epoll_ctl, (int, int, int, struct epoll_event *)); return real_epoll_ctl(ep, op, fd, ev); }
    struct vfd *e = getfd(ep), *f = getfd(fd);
    if (!e || !f || e->kind != 5) { errno = EBADF; return -1; }
    if (f->kind != 3 && f->kind != 4) { errno = EPERM; return -1; }
    struct epobj *x = &eps[e->ref];
    int at = -1, fr = -1;
    for (int i = 0; i < 96; i++) { if (x->r[i].used && x->r[i].fd == fd) at = i; if (!x->r[i].used && fr < 0) fr = i; }
    if (op == EPOLL_CTL_DEL) { if (at < 0) { errno = ENOENT; return -1; } x->r[at].used = 0; return 0; }
    if (op == EPOLL_CTL_ADD) {
        if (at >= 0) { errno = EEXIST; return -1; }
        if (fr < 0) { errno = ENOSPC; return -1; }
        at = fr;
    } else if (at < 0) { errno = ENOENT; return -1; }
    x->r[at] = (struct epreg){1, fd, f->kind, f->ref, ev->events, ev->data.u64, 0, 0};
    wake_io();
    return 0;
}
static uint32_t ready_mask(struct epreg *r, uint32_t *rg, uint32_t *wg) {
    if (r->kind == 4) { *rg = evs[r->ref].gen; *wg = 1; return EPOLLOUT | (evs[r->ref].count ? EPOLLIN : 0); }
    struct conn *c = &A->conns[r->ref];
    *rg = c->rgen; *wg = c->wgen;
    uint32_t m = 0;
    if (c->state == 1) return EPOLLOUT | EPOLLHUP;
    if (c->state == 2) return 0;
    if (c->rxpos < c->rx.len) m |= EPOLLIN;
    if (c->rx_eof) m |= EPOLLIN | EPOLLRDHUP;
    if (c->err) m |= EPOLLERR;
    if (c->rx_rst || c->state == 4) m |= EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP;
    if (c->state == 3 && (c->room != 0 || c->wrshut)) m |= EPOLLOUT;
    if (c->rx_eof && c->wrshut) m |= EPOLLHUP;
    return m;
}
static int ep_collect(struct epobj *x, struct epoll_event *out, int max) {
    int n = 0;
    uint32_t start = rnd(&A->sched_rng) % 96;
    for (int k = 0; k < 96 && n < max; k++) {
        struct epreg *r = &x->r[(start + k) % 96];
        if (!r->used) continue;
        uint32_t rg, wg, m = ready_mask(r, &rg, &wg) & (r->events | EPOLLERR | EPOLLHUP);
        if (!m) continue;
        if (r->events & EPOLLET) {
            if (rg == r->seen_r && wg == r->seen_w) continue;
            r->seen_r = rg; r->seen_w = wg;
        }
        out[n].events = m; out[n].data.u64 = r->data; n++;
    }
    return n;
}
int epoll_wait(int ep, struct epoll_event *out, int max, int to) {
    if (!ON) { REAL(int, epoll_wait, (int, struct epoll_event *, int, int)); return real_epoll_wait(ep, out, max, to); }
    struct vfd *e = getfd(ep);
    if (!e || e->kind != 5) { errno = EBADF; return -1; }
    struct epobj *x = &eps[e->ref];
    sched_yield_point();
    if (A->eintr_every && ++A->rwcount % (4 * A->eintr_every) == 0) { errno = EINTR; return -1; }
    int64_t dl = to < 0 ? -1 : A->clock + (int64_t)to * 1000000;
    A->clock += 1000;
    for (;;) {
        net_poll_all();
        int n = ep_collect(x, out, max);
        if (n || to == 0) return n;
        if (dl >= 0 && A->clock >= dl) return 0;
        if (sched_on && my_task >= 0) sched_block(3, 0, dl);
        else {
            int64_t ne = net_next_event();
            if (ne < 0 || (dl >= 0 && dl < ne)) ne = dl;
            if (ne < 0) { vlog("epoll_wait with nothing to wait for"); P->deadlock = 1; die_now(); }
            if (ne > A->clock) A->clock = ne;
        }
    }
}
int poll(struct pollfd *p, nfds_t n, int to) {
    if (!ON) { REAL(int, poll, (struct pollfd *, nfds_t, int)); return real_poll(p, n, to); }
    for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
    if (to > 0) A->clock += (int64_t)to * 1000000;
    return 0;
}

// ---------------------------------------------------------------- names
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
    if (!ON) { REAL(int, getaddrinfo, (const char *, const char *, const struct addrinfo *, struct addrinfo **)); return real_getaddrinfo(node, svc, h, res); }
    struct op o;
    op_begin(&o, K_GETADDRINFO, node, NULL, -1, 0);
    if (!A->allow_net) { op_end(&o, -1, EACCES); return EAI_AGAIN; }
    if (o.err) { op_end(&o, -1, o.err); return EAI_SYSTEM; }
    int s = sc_find(2, node ? node : "", node ? strlen(node) : 0);
    if (s < 0) { op_end(&o, -1, ENOENT); return EAI_NONAME; }
    struct script *x = &A->scripts[s];
    if (x->delay) vsleep(x->delay);
    if (x->err) { op_end(&o, -1, ENOENT); return -x->err; }
    struct addrinfo *first = NULL, **at = &first;
    for (int i = 0; i < x->nseg; i++) {
        struct seg *g = sc_seg(s, i);
        char t[64] = {0};
        memcpy(t, A->data + g->off, g->len < 63 ? g->len : 63);
        struct { struct addrinfo a; struct sockaddr_in s; } *b = calloc(1, sizeof *b);
        b->a.ai_family = AF_INET; b->a.ai_socktype = SOCK_STREAM; b->a.ai_protocol = 6;
        b->a.ai_addrlen = sizeof b->s; b->a.ai_addr = (struct sockaddr *)&b->s;
        b->s.sin_family = AF_INET;
        unsigned p[4] = {0};
        sscanf(t, "%u.%u.%u.%u", p, p + 1, p + 2, p + 3);
        b->s.sin_addr.s_addr = p[0] | p[1] << 8 | p[2] << 16 | p[3] << 24;
        *at = &b->a; at = &b->a.ai_next;
    }
    *res = first;
    op_end(&o, 0, 0);
    return first ? 0 : EAI_NONAME;
}
void freeaddrinfo(struct addrinfo *a) {
    if (!ON) { REAL(void, freeaddrinfo, (struct addrinfo *)); real_freeaddrinfo(a); return; }
    while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; }
}
int __res_init(void) { return 0; }

// ---------------------------------------------------------------- sockets
int socket(int d, int t, int p) {
    if (!ON) { REAL(int, socket, (int, int, int)); return real_socket(d, t, p); }
    struct op o;
    op_begin(&o, K_SOCKET, NULL, NULL, -1, d);
    if (!A->allow_net) { vlog("socket"); return op_end(&o, -1, EACCES); }
    FAULT(o);
    if (d != AF_INET || (t & 15) != SOCK_STREAM) return op_end(&o, -1, EAFNOSUPPORT);
    if (A->nconn >= MAXCONN) { P->opcap = 1; die_now(); }
    int fd = new_fd(3, -1, O_RDWR | (t & SOCK_NONBLOCK ? O_NONBLOCK : 0));
    if (fd < 0) return op_end(&o, -1, EMFILE);
    struct conn *c = &A->conns[A->nconn];
    memset(c, 0, sizeof *c);
    c->used = 1; c->state = 1; c->refs = 1; c->proc = PI; c->script = c->cscript = -1; c->due = c->t_connect = c->refill_at = -1; c->room = -1;
    c->rgen = c->wgen = 1;
    getfd(fd)->ref = A->nconn++;
    return op_end(&o, fd, 0);
}
#define NEEDSOCK(f) struct vfd *f = getfd(fd); if (!f) { errno = EBADF; return -1; } if (f->kind != 3) { errno = ENOTSOCK; return -1; } struct conn *c = &A->conns[f->ref]; (void)c
int connect(int fd, const struct sockaddr *sa, socklen_t l) {
    if (!ON) { REAL(int, connect, (int, const struct sockaddr *, socklen_t)); return real_connect(fd, sa, l); }
    NEEDSOCK(f);
    const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
    uint32_t ip = in->sin_addr.s_addr;
    char key[64];
    snprintf(key, sizeof key, "%u.%u.%u.%u:%u", ip & 255, ip >> 8 & 255, ip >> 16 & 255, ip >> 24, ntohs(in->sin_port));
    struct op o;
    op_begin(&o, K_CONNECT, key, NULL, -1, ntohs(in->sin_port));
    FAULT(o);
    c->ip = ip; c->port = in->sin_port;
    int s = sc_find(1, key, strlen(key));
    c->cscript = s;
    if (s < 0) { c->state = 2; c->cerr = ECONNREFUSED; c->t_connect = A->clock + 1000000; return op_end(&o, -1, EINPROGRESS); }
    struct script *x = &A->scripts[s];
    c->state = 2; c->cerr = x->err; c->t_connect = x->delay < 0 ? -1 : A->clock + x->delay; c->mute = x->mute;
    c->room = x->window > 0 ? x->window : -1;
    if (x->err && x->delay == 0) { c->state = 4; c->t_connect = -1; return op_end(&o, -1, x->err); }
    return op_end(&o, -1, EINPROGRESS);
}
static ssize_t sock_recv(struct vfd *f, void *buf, size_t n, int flags) {
    struct conn *c = &A->conns[f->ref];
    struct op o;
    op_begin(&o, K_RECV, NULL, NULL, f->ref, n);
    FAULT(o);
    net_poll_all();
    uint64_t have = c->rx.len - c->rxpos;
    if (have) {
        uint64_t k = have < n ? have : n;
        memcpy(buf, A->data + c->rx.off + c->rxpos, k);
        if (!(flags & MSG_PEEK)) c->rxpos += k;
        return op_end(&o, k, 0);
    }
    if (c->rx_rst || c->state == 4) { int e = c->err; c->err = 0; return op_end(&o, e ? -1 : 0, e); }
    if (c->rx_eof) return op_end(&o, 0, 0);
    if (c->state != 3) return op_end(&o, -1, ENOTCONN);
    return op_end(&o, -1, EAGAIN);
}
static ssize_t sock_send(struct vfd *f, const void *buf, size_t n) {
    struct conn *c = &A->conns[f->ref];
    struct op o;
    op_begin(&o, K_SEND, NULL, NULL, f->ref, n);
    FAULT(o);
    net_poll_all();
    if (c->rx_rst || c->state == 4) { int e = c->err ? c->err : EPIPE; c->err = 0; return op_end(&o, -1, e); }
    if (c->wrshut) return op_end(&o, -1, EPIPE);
    if (c->state != 3) return op_end(&o, -1, c->state == 2 ? EAGAIN : ENOTCONN);
    uint64_t k = n;
    if (c->room >= 0 && k > (uint64_t)c->room) k = c->room;
    if (k == 0 && n) return op_end(&o, -1, EAGAIN);
    buf_add(&c->tx, buf, k);
    if (c->room >= 0) { c->room -= k; if (c->room == 0 && c->refill_at < 0) c->refill_at = A->clock + A->scripts[c->cscript].refill; }
    if (c->rx_eof) { c->rx_rst = 1; c->err = ECONNRESET; c->rgen++; c->wgen++; } // the far side is gone
    else conn_requests(c);
    return op_end(&o, k, 0);
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
    if (!ON) { REAL(ssize_t, recv, (int, void *, size_t, int)); return real_recv(fd, b, n, fl); }
    NEEDSOCK(f);
    return sock_recv(f, b, n, fl);
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    if (!ON) { REAL(ssize_t, send, (int, const void *, size_t, int)); return real_send(fd, b, n, fl); }
    NEEDSOCK(f);
    return sock_send(f, b, n);
}
int shutdown(int fd, int how) {
    if (!ON) { REAL(int, shutdown, (int, int)); return real_shutdown(fd, how); }
    NEEDSOCK(f);
    if (c->state != 3) { errno = ENOTCONN; return -1; }
    if (how != SHUT_RD) { c->wrshut = 1; c->wgen++; }
    return 0;
}
int bind(int fd, const struct sockaddr *sa, socklen_t l) {
    if (!ON) { REAL(int, bind, (int, const struct sockaddr *, socklen_t)); return real_bind(fd, sa, l); }
    NEEDSOCK(f);
    return 0;
}
int setsockopt(int fd, int lv, int opt, const void *v, socklen_t l) {
    if (!ON) { REAL(int, setsockopt, (int, int, int, const void *, socklen_t)); return real_setsockopt(fd, lv, opt, v, l); }
    NEEDSOCK(f);
    return 0;
}
int getsockopt(int fd, int lv, int opt, void *v, socklen_t *l) {
    if (!ON) { REAL(int, getsockopt, (int, int, int, void *, socklen_t *)); return real_getsockopt(fd, lv, opt, v, l); }
    NEEDSOCK(f);
    int x = 0;
    if (lv == SOL_SOCKET && opt == SO_ERROR) { net_poll_all(); x = c->err; c->err = 0; }
    else if (lv == SOL_SOCKET && opt == SO_TYPE) x = SOCK_STREAM;
    if (*l >= sizeof x) { memcpy(v, &x, sizeof x); *l = sizeof x; }
    return 0;
}
static int sock_name(struct conn *c, int peer, struct sockaddr *sa, socklen_t *l) {
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = peer ? c->port : htons(40000 + (c - A->conns));
    in.sin_addr.s_addr = peer ? c->ip : htonl(0x0a000001);
    memcpy(sa, &in, *l < sizeof in ? *l : sizeof in);
    *l = sizeof in;
    return 0;
}
int getpeername(int fd, struct sockaddr *sa, socklen_t *l) {
    if (!ON) { REAL(int, getpeername, (int, struct sockaddr *, socklen_t *)); return real_getpeername(fd, sa, l); }
    NEEDSOCK(f);
    if (c->state != 3) { errno = ENOTCONN; return -1; }
    return sock_name(c, 1, sa, l);
}
int getsockname(int fd, struct sockaddr *sa, socklen_t *l) {
    if (!ON) { REAL(int, getsockname, (int, struct sockaddr *, socklen_t *)); return real_getsockname(fd, sa, l); }
    NEEDSOCK(f);
    return sock_name(c, 0, sa, l);
}
