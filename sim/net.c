/* Simulated kernel network: sockets, epoll, remote peers. Everything the
 * program does with a descriptor handed out here is decided by the simulator;
 * other descriptors go to the real kernel. */
#define _GNU_SOURCE
#include "vsim.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

#define VBASE 1000
#define VMAX 512

enum { K_SOCK = 1, K_LISTEN, K_STREAM, K_EPOLL };

struct seg {
	struct seg *next;
	uint64_t at;
	int len, off;
	char kind; /* d data, f fin, r rst */
	unsigned char data[];
};

struct ep {
	int kind, fd, port;
	bool nonblock, closed, finsent, rstseen, eofseen;
	int soerr;
	int conn, side;
	struct ep *peer;
	struct seg *head, *tail;
	long rxbytes;      /* queued towards this endpoint */
	long txoff, rxoff; /* stream offsets: accepted from, given to this endpoint */
	int win;
	/* listener */
	struct { struct ep *ep; uint64_t at; } backlog[64];
	int nback;
	/* epoll registration */
	bool reg;
	uint32_t events;
	uint64_t data;
	int idleIn, idleOut; /* times reported ready in a row, with nothing done about it */
};

static struct ep *fds[VMAX];
static int curId = -1;
static long p_short, p_eagain, p_eintr, p_rst, p_acc, p_dial, p_sock, p_gai, p_bind, p_skip, p_wintr, p_spin;
static long dmax, winmax, nai, rstleft;

static unsigned char
pat(int conn, int dir, long off) {
	uint64_t x = (uint64_t)conn * 0x9E3779B97F4A7C15ULL + (uint64_t)dir * 0xD1B54A32D192ED03ULL + (uint64_t)(off >> 3) * 0xBF58476D1CE4E5B9ULL;
	x ^= x >> 29;
	x *= 0x94D049BB133111EBULL;
	x ^= x >> 32;
	return (unsigned char)(x >> ((off & 7) * 8));
}

static struct ep *
vep(int fd) {
	if (fd < VBASE || fd >= VBASE + VMAX)
		return NULL;
	return fds[fd - VBASE];
}
static bool
vrange(int fd) {
	return simActive && fd >= VBASE && fd < VBASE + VMAX;
}
static int
newFd(struct ep *e) {
	for (int i = 0; i < VMAX; i++)
		if (!fds[i]) {
			fds[i] = e;
			e->fd = VBASE + i;
			return e->fd;
		}
	errno = EMFILE;
	return -1;
}
static struct ep *
newEp(int kind) {
	struct ep *e = calloc(1, sizeof *e);
	e->kind = kind;
	e->fd = -1;
	e->conn = -1;
	return e;
}

static int badfd(const char *op, int fd) {
	simLog("!net %s on descriptor %d that is not open", op, fd);
	errno = EBADF;
	return -1;
}

/* ---------- wire ---------- */
static uint64_t
delay(void) {
	if (dmax <= 0)
		return 0;
	return (uint64_t)simDecide(S_NET, (int)dmax, 700, NULL);
}

static void
put(struct ep *to, char kind, const unsigned char *data, int len) {
	struct seg *s = malloc(sizeof *s + len);
	s->next = NULL;
	s->kind = kind;
	s->len = len;
	s->off = 0;
	s->at = simClock + 5 + delay();
	if (to->tail && to->tail->at > s->at)
		s->at = to->tail->at; /* a stream keeps its order */
	if (len)
		memcpy(s->data, data, len);
	if (to->tail)
		to->tail->next = s;
	else
		to->head = s;
	to->tail = s;
	if (kind == 'd')
		to->rxbytes += len;
}

static void
dropRx(struct ep *e) {
	while (e->head) {
		struct seg *n = e->head->next;
		free(e->head);
		e->head = n;
	}
	e->tail = NULL;
	e->rxbytes = 0;
}

/* move control segments that have arrived into the state */
static void
settle(struct ep *e) {
	while (e->head && e->head->at <= simClock && e->head->kind != 'd') {
		struct seg *s = e->head;
		if (s->kind == 'f')
			e->eofseen = true;
		else if (!e->rstseen) {
			e->rstseen = true;
			e->soerr = ECONNRESET;
		}
		e->head = s->next;
		if (!e->head)
			e->tail = NULL;
		free(s);
	}
}

static int
space(struct ep *e) {
	if (!e->peer || e->peer->closed)
		return 1 << 20;
	long n = e->win - e->peer->rxbytes;
	return n > 0 ? (int)n : 0;
}

/* connection torn down in the middle: both sides see a reset */
static void
wireReset(struct ep *e) {
	simLog("k rst %d", e->conn);
	simStat("fault.reset", 1);
	if (e->peer && !e->peer->closed)
		put(e->peer, 'r', NULL, 0);
	put(e, 'r', NULL, 0);
}

/* >=0 accepted, -1 errno set */
static int
epSend(struct ep *e, const unsigned char *p, int len, bool faults) {
	settle(e);
	if (faults && e->kind == K_STREAM && !e->rstseen && rstleft > 0 && p_rst && simDecide(S_NET, 2, (int)p_rst, NULL)) {
		rstleft--;
		wireReset(e);
		settle(e);
	}
	if (e->rstseen || e->finsent) {
		if (e->soerr) {
			errno = e->soerr;
			e->soerr = 0;
		} else
			errno = EPIPE;
		return -1;
	}
	int sp = space(e);
	if (sp <= 0 || (faults && simDecide(S_NET, 2, (int)p_eagain, "fault.eagain"))) {
		errno = EAGAIN;
		return -1;
	}
	if (len > sp)
		len = sp;
	if (faults && len > 1) {
		int d = simDecide(S_NET, 4, (int)p_short, "fault.short_write");
		if (d == 1)
			len = 1;
		else if (d == 2)
			len = (len + 1) / 2;
		else if (d == 3)
			len = len - 1;
	}
	for (int i = 0; i < len; i++)
		if (p[i] != pat(e->conn, e->side, e->txoff + i)) {
			simLog("!net connection %d side %d: byte %ld handed to send is not the next one of the stream", e->conn, e->side, e->txoff + i);
			break;
		}
	e->txoff += len;
	if (e->peer->closed) {
		put(e, 'r', NULL, 0);
		return len;
	}
	simProgress();
	int done = 0;
	while (done < len) {
		int n = len - done;
		if (n > 1 && simDecide(S_NET, 2, 250, NULL))
			n = 1 + (int)(simDraw(S_NETEV) % (unsigned)n);
		put(e->peer, 'd', p + done, n);
		done += n;
	}
	return len;
}

/* bytes >0, 0 eof, -1 */
static int
epRecv(struct ep *e, unsigned char *p, int len, bool faults) {
	settle(e);
	if (faults && simDecide(S_NET, 2, (int)p_eagain, "fault.eagain")) {
		errno = EAGAIN;
		return -1;
	}
	int lim = len;
	if (faults && len > 1) {
		int d = simDecide(S_NET, 3, (int)p_short, "fault.short_read");
		if (d == 1)
			lim = 1;
		else if (d == 2)
			lim = (len + 1) / 2;
	}
	int got = 0;
	while (got < lim && e->head && e->head->at <= simClock && e->head->kind == 'd') {
		struct seg *s = e->head;
		int n = s->len - s->off;
		if (n > lim - got)
			n = lim - got;
		memcpy(p + got, s->data + s->off, n);
		s->off += n;
		got += n;
		e->rxbytes -= n;
		e->rxoff += n;
		if (s->off == s->len) {
			e->head = s->next;
			if (!e->head)
				e->tail = NULL;
			free(s);
		}
	}
	if (got) {
		simProgress();
		return got;
	}
	settle(e);
	if (e->soerr) {
		errno = e->soerr;
		e->soerr = 0;
		return -1;
	}
	if (e->rstseen || e->eofseen)
		return 0;
	errno = EAGAIN;
	return -1;
}

static void
epClose(struct ep *e, bool rst) {
	if (e->closed)
		return;
	e->closed = true;
	e->reg = false;
	bool unread = e->rxbytes > 0;
	if (e->peer && !e->peer->closed && !e->rstseen) {
		if (rst || unread)
			put(e->peer, 'r', NULL, 0);
		else if (!e->finsent)
			put(e->peer, 'f', NULL, 0);
	}
	dropRx(e);
}

/* ---------- remote peers ---------- */
struct item { char op; long n; };
struct strand { struct item *it; int n, pos; long done; uint64_t at; bool over; };
struct actor {
	int conn, side;
	struct ep *ep;
	uint64_t start;
	bool dialer, begun, closed;
	struct strand st[2];
	int nst;
	const char *script;
};
static struct actor actors[256];
static int nactors;

static struct ep *
findListener(int port) {
	for (int i = 0; i < VMAX; i++)
		if (fds[i] && fds[i]->kind == K_LISTEN && fds[i]->port == port)
			return fds[i];
	return NULL;
}

static void
link2(struct ep *a, struct ep *b, int conn) {
	a->kind = b->kind = K_STREAM;
	a->peer = b;
	b->peer = a;
	a->conn = b->conn = conn;
	a->side = 0;
	b->side = 1;
	a->win = b->win = 1 + (winmax > 1 ? simChoose(S_NETEV, (int)winmax, NULL) : 0);
}

static const char *
parseStrand(const char *p, struct strand *s) {
	/* "(s 10) (r 5) ..." up to ')' that closes the strand */
	s->it = NULL;
	s->n = 0;
	int cap = 0;
	while (*p && *p != ')') {
		if (*p == '(') {
			p++;
			char op = *p++;
			long n = 0;
			while (*p == ' ')
				p++;
			if (*p >= '0' && *p <= '9')
				n = strtol(p, (char **)&p, 10);
			while (*p && *p != ')')
				p++;
			if (*p)
				p++;
			if (s->n >= cap)
				s->it = realloc(s->it, sizeof *s->it * (cap = cap ? cap * 2 : 16));
			s->it[s->n++] = (struct item){op, n};
		} else
			p++;
	}
	return *p ? p + 1 : p;
}

static void
addActor(int conn, int side, const char *script, uint64_t start) {
	if (nactors >= 256)
		return;
	struct actor *a = &actors[nactors++];
	memset(a, 0, sizeof *a);
	a->conn = conn;
	a->side = side;
	a->dialer = side == 0;
	a->start = start;
	/* script: ((s 1) (r 2)) ((..)) */
	const char *p = script;
	while (*p && a->nst < 2) {
		while (*p == ' ')
			p++;
		if (*p != '(')
			break;
		p = parseStrand(p + 1, &a->st[a->nst]);
		a->nst++;
	}
}

static void
actorFinish(struct actor *a, bool rst) {
	if (a->closed)
		return;
	a->closed = true;
	simLog("p close %d %d%s", a->conn, a->side, rst ? " rst" : "");
	epClose(a->ep, rst);
}

/* returns true when something happened */
static bool
actorStep(struct actor *a) {
	if (a->closed)
		return false;
	if (!a->begun) {
		if (!a->dialer || simClock < a->start)
			return false;
		struct ep *l = findListener((int)(8000 + cfgInt("nl", 1) * 0 + a->conn % (int)cfgInt("nl", 1)));
		if (!l || l->nback >= 64) {
			a->start = simClock + 700;
			return false;
		}
		struct ep *c = newEp(K_STREAM), *s = newEp(K_STREAM);
		link2(c, s, a->conn);
		a->ep = c;
		a->begun = true;
		l->backlog[l->nback].ep = s;
		l->backlog[l->nback++].at = simClock + 5 + delay();
		simLog("p dial %d", a->conn);
		return true;
	}
	bool moved = false, all = true;
	for (int k = 0; k < a->nst && !a->closed; k++) {
		struct strand *s = &a->st[k];
		while (!s->over && !a->closed) {
			if (s->pos >= s->n) {
				s->over = true;
				moved = true;
				break;
			}
			if (s->at > simClock)
				break;
			struct item *it = &s->it[s->pos];
			bool next = false;
			if (it->op == 'w') {
				if (!s->done) {
					s->done = 1;
					s->at = simClock + (uint64_t)it->n;
					moved = true;
					continue;
				}
				next = true;
			} else if (it->op == 's') {
				unsigned char buf[4096];
				long n = it->n - s->done;
				if (n > (long)sizeof buf)
					n = sizeof buf;
				for (long i = 0; i < n; i++)
					buf[i] = pat(a->conn, a->side, a->ep->txoff + i);
				int r = n ? epSend(a->ep, buf, (int)n, false) : 0;
				if (r < 0) {
					if (errno == EAGAIN)
						break;
					simLog("p err %d %d send %d", a->conn, a->side, errno);
					s->over = true;
					moved = true;
					break;
				}
				moved = true;
				s->done += r;
				s->at = simClock + delay() / 4;
				next = s->done >= it->n;
			} else if (it->op == 'r' || it->op == 'e') {
				unsigned char buf[4096];
				long want = it->op == 'e' ? 1 : it->n;
				long n = want - s->done;
				if (n > (long)sizeof buf)
					n = sizeof buf;
				int r = n ? epRecv(a->ep, buf, (int)n, false) : 0;
				if (r < 0 && errno == EAGAIN)
					break;
				moved = true;
				if (r < 0 || (r == 0 && n)) {
					simLog("p %s %d %d recv %d", r < 0 ? "err" : "eof", a->conn, a->side, r < 0 ? errno : 0);
					s->over = true;
					break;
				}
				for (int i = 0; i < r; i++)
					if (buf[i] != pat(a->conn, 1 - a->side, a->ep->rxoff - r + i)) {
						simLog("!net connection %d: the peer on side %d received a wrong byte at %ld", a->conn, a->side, a->ep->rxoff - r + i);
						break;
					}
				s->done += r;
				s->at = simClock + delay() / 4;
				next = s->done >= want;
			} else if (it->op == 'h') { /* half close */
				settle(a->ep);
				if (!a->ep->finsent && !a->ep->rstseen) {
					a->ep->finsent = true;
					if (!a->ep->peer->closed)
						put(a->ep->peer, 'f', NULL, 0);
				}
				next = true;
			} else if (it->op == 'x') {
				actorFinish(a, true);
				return true;
			} else if (it->op == 'c') {
				actorFinish(a, false);
				return true;
			} else
				next = true;
			if (next) {
				s->pos++;
				s->done = 0;
				moved = true;
			}
		}
		if (!s->over)
			all = false;
	}
	if (all && !a->closed) {
		actorFinish(a, false);
		moved = true;
	}
	return moved;
}

static void
pump(void) {
	bool again = true;
	int guard = 0;
	while (again && guard++ < 10000) {
		again = false;
		for (int i = 0; i < nactors; i++)
			if (actorStep(&actors[i]))
				again = true;
	}
}

/* earliest future event */
static uint64_t
nextEvent(void) {
	uint64_t best = UINT64_MAX;
#define CAND(t) do { uint64_t _t = (t); if (_t > simClock && _t < best) best = _t; } while (0)
	for (int i = 0; i < VMAX; i++) {
		struct ep *e = fds[i];
		if (!e)
			continue;
		if (e->head)
			CAND(e->head->at);
		for (int b = 0; b < e->nback; b++)
			CAND(e->backlog[b].at);
	}
	for (int i = 0; i < nactors; i++) {
		struct actor *a = &actors[i];
		if (a->closed)
			continue;
		if (!a->begun) {
			if (a->dialer)
				CAND(a->start);
			continue;
		}
		if (a->ep->head)
			CAND(a->ep->head->at);
		for (int k = 0; k < a->nst; k++)
			if (!a->st[k].over)
				CAND(a->st[k].at);
	}
	return best;
}

static void
sysEnter(const char *what) {
	simTick();
	simClock += 5 + simDraw(S_CLOCK) % 40;
	pump();
}

/* waits inside a blocking call; false when nothing will ever happen */
static bool
blockStep(uint64_t until) {
	uint64_t n = nextEvent();
	if (n == UINT64_MAX && until == UINT64_MAX)
		return false;
	if (n > until)
		n = until;
	if (n > simClock)
		simClock = n;
	pump();
	return true;
}

static uint32_t
readiness(struct ep *e) {
	uint32_t m = 0;
	if (e->kind == K_LISTEN) {
		for (int b = 0; b < e->nback; b++)
			if (e->backlog[b].at <= simClock)
				m |= EPOLLIN;
		return m;
	}
	if (e->kind != K_STREAM)
		return EPOLLOUT | EPOLLHUP;
	settle(e);
	if (e->head && e->head->at <= simClock)
		m |= EPOLLIN;
	if (e->eofseen || e->rstseen)
		m |= EPOLLIN | EPOLLRDHUP;
	if (e->rstseen)
		m |= EPOLLHUP | EPOLLOUT;
	if (e->soerr)
		m |= EPOLLERR;
	if (e->eofseen && e->finsent)
		m |= EPOLLHUP;
	if (space(e) * 3 >= e->win || e->finsent)
		m |= EPOLLOUT;
	return m;
}

/* ---------- system calls ---------- */
#define REAL(ret, name, args) static ret(*real_##name) args; if (!real_##name) real_##name = realSym(#name)

int
socket(int domain, int type, int proto) {
	if (!simActive) {
		REAL(int, socket, (int, int, int));
		return real_socket(domain, type, proto);
	}
	sysEnter("socket");
	if (simDecide(S_NET, 2, (int)p_sock, "fault.socket_emfile")) {
		errno = EMFILE;
		return -1;
	}
	struct ep *e = newEp(K_SOCK);
	e->nonblock = (type & SOCK_NONBLOCK) != 0;
	return newFd(e);
}

int
bind(int fd, const struct sockaddr *a, socklen_t n) {
	if (!simActive) {
		REAL(int, bind, (int, const struct sockaddr *, socklen_t));
		return real_bind(fd, a, n);
	}
	sysEnter("bind");
	struct ep *e = vep(fd);
	if (!e)
		return fd == -1 ? (errno = EBADF, -1) : badfd("bind", fd);
	int port = ntohs(((struct sockaddr_in *)a)->sin_port);
	if (simDecide(S_NET, 2, (int)p_bind, "fault.bind") || findListener(port)) {
		errno = EADDRINUSE;
		return -1;
	}
	e->port = port;
	return 0;
}

int
listen(int fd, int n) {
	if (!simActive) {
		REAL(int, listen, (int, int));
		return real_listen(fd, n);
	}
	sysEnter("listen");
	struct ep *e = vep(fd);
	if (!e)
		return badfd("listen", fd);
	e->kind = K_LISTEN;
	return 0;
}

static int
doAccept(int fd, struct sockaddr *a, socklen_t *n, int flags) {
	sysEnter("accept");
	struct ep *e = vep(fd);
	if (!e || e->kind != K_LISTEN)
		return badfd("accept", fd);
	e->idleIn = 0;
	int d = simDecide(S_NET, 6, (int)p_acc, "fault.accept");
	if (d) {
		static const int errs[] = {0, EMFILE, ECONNABORTED, EINTR, EAGAIN, ENFILE};
		errno = errs[d];
		simLog("k accepterr %d", errno);
		return -1;
	}
	for (;;) {
		for (int b = 0; b < e->nback; b++)
			if (e->backlog[b].at <= simClock) {
				struct ep *c = e->backlog[b].ep;
				memmove(&e->backlog[b], &e->backlog[b + 1], sizeof e->backlog[0] * (e->nback - b - 1));
				e->nback--;
				c->nonblock = (flags & SOCK_NONBLOCK) != 0;
				int nfd = newFd(c);
				if (nfd >= 0)
					simLog("k accept %d", c->conn);
				if (a && n && *n >= sizeof(struct sockaddr_in)) {
					struct sockaddr_in *si = (void *)a;
					memset(si, 0, sizeof *si);
					si->sin_family = AF_INET;
					*n = sizeof *si;
				}
				return nfd;
			}
		if (e->nonblock) {
			errno = EAGAIN;
			return -1;
		}
		if (!blockStep(UINT64_MAX))
			simEnd("deadlock");
	}
}
int
accept(int fd, struct sockaddr *restrict a, socklen_t *restrict n) {
	if (!simActive) {
		REAL(int, accept, (int, struct sockaddr *, socklen_t *));
		return real_accept(fd, a, n);
	}
	return doAccept(fd, a, n, 0);
}
int
accept4(int fd, struct sockaddr *restrict a, socklen_t *restrict n, int flags) {
	if (!simActive) {
		REAL(int, accept4, (int, struct sockaddr *, socklen_t *, int));
		return real_accept4(fd, a, n, flags);
	}
	return doAccept(fd, a, n, flags);
}

int
connect(int fd, const struct sockaddr *a, socklen_t n) {
	if (!simActive) {
		REAL(int, connect, (int, const struct sockaddr *, socklen_t));
		return real_connect(fd, a, n);
	}
	sysEnter("connect");
	struct ep *e = vep(fd);
	if (!e)
		return badfd("connect", fd);
	int port = ntohs(((struct sockaddr_in *)a)->sin_port);
	simClock += delay();
	pump();
	int d = simDecide(S_NET, 4, (int)p_dial, "fault.connect");
	if (d) {
		static const int errs[] = {0, ECONNREFUSED, ETIMEDOUT, ENETUNREACH};
		errno = errs[d];
		simLog("k dialerr %d", curId);
		return -1;
	}
	struct ep *l = findListener(port);
	if (l) {
		if (l->nback >= 64) {
			errno = ECONNREFUSED;
			simLog("k dialerr %d", curId);
			return -1;
		}
		struct ep *s = newEp(K_STREAM);
		link2(e, s, curId);
		l->backlog[l->nback].ep = s;
		l->backlog[l->nback++].at = simClock + 5 + delay();
		simLog("k dial %d", curId);
		return 0;
	}
	for (int i = 0; i < nactors; i++)
		if (!actors[i].dialer && !actors[i].begun && port == 9000 + actors[i].conn) {
			struct ep *s = newEp(K_STREAM);
			link2(e, s, actors[i].conn);
			actors[i].ep = s;
			actors[i].begun = true;
			simLog("k dial %d", actors[i].conn);
			return 0;
		}
	errno = ECONNREFUSED;
	simLog("k dialerr %d", curId);
	return -1;
}

int
getaddrinfo(const char *restrict host, const char *restrict serv, const struct addrinfo *restrict hint, struct addrinfo **restrict res) {
	if (!simActive) {
		REAL(int, getaddrinfo, (const char *, const char *, const struct addrinfo *, struct addrinfo **));
		return real_getaddrinfo(host, serv, hint, res);
	}
	sysEnter("getaddrinfo");
	if (simDecide(S_NET, 2, (int)p_gai, "fault.resolve")) {
		simLog("k dialerr %d", curId);
		return EAI_AGAIN;
	}
	int n = 1 + simDecide(S_NET, 3, 200, NULL);
	struct addrinfo *first = NULL;
	for (int i = 0; i < n; i++) {
		struct addrinfo *ai = calloc(1, sizeof *ai + sizeof(struct sockaddr_in));
		struct sockaddr_in *si = (void *)(ai + 1);
		si->sin_family = AF_INET;
		si->sin_port = htons((unsigned short)atoi(serv));
		si->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		ai->ai_family = AF_INET;
		ai->ai_socktype = SOCK_STREAM;
		ai->ai_addr = (void *)si;
		ai->ai_addrlen = sizeof *si;
		ai->ai_next = first;
		first = ai;
	}
	nai++;
	*res = first;
	return 0;
}
void
freeaddrinfo(struct addrinfo *ai) {
	if (!simActive) {
		REAL(void, freeaddrinfo, (struct addrinfo *));
		real_freeaddrinfo(ai);
		return;
	}
	nai--;
	while (ai) {
		struct addrinfo *n = ai->ai_next;
		free(ai);
		ai = n;
	}
}

static ssize_t
doSend(int fd, const void *p, size_t len, int flags) {
	sysEnter("send");
	struct ep *e = vep(fd);
	if (!e || e->kind != K_STREAM)
		return badfd("send", fd);
	e->idleOut = 0;
	if (simDecide(S_NET, 2, (int)p_eintr, "fault.eintr")) {
		errno = EINTR;
		return -1;
	}
	if (len == 0)
		return 0;
	if (len > (1 << 24))
		len = 1 << 24;
	for (;;) {
		int r = epSend(e, p, (int)len, true);
		if (r >= 0)
			return r;
		if (errno != EAGAIN) {
			simLog("k err %d %d send %d", e->conn, e->side, errno);
			if (errno == EPIPE && !(flags & MSG_NOSIGNAL)) {
				raise(SIGPIPE);
				errno = EPIPE;
			}
			return -1;
		}
		if (e->nonblock)
			return -1;
		simLog("!net blocking send on connection %d", e->conn);
		if (!blockStep(UINT64_MAX))
			simEnd("deadlock");
	}
}
static ssize_t
doRecv(int fd, void *p, size_t len, int flags) {
	sysEnter("recv");
	struct ep *e = vep(fd);
	if (!e || e->kind != K_STREAM)
		return badfd("recv", fd);
	e->idleIn = 0;
	if (simDecide(S_NET, 2, (int)p_eintr, "fault.eintr")) {
		errno = EINTR;
		return -1;
	}
	if (len == 0)
		return 0;
	if (len > (1 << 24))
		len = 1 << 24;
	for (;;) {
		int r = epRecv(e, p, (int)len, true);
		if (r > 0)
			return r;
		if (r == 0) {
			simLog("k eof %d %d", e->conn, e->side);
			return 0;
		}
		if (errno != EAGAIN) {
			simLog("k err %d %d recv %d", e->conn, e->side, errno);
			return -1;
		}
		if (e->nonblock)
			return -1;
		simLog("!net blocking recv on connection %d", e->conn);
		if (!blockStep(UINT64_MAX))
			simEnd("deadlock");
	}
}
ssize_t
send(int fd, const void *p, size_t len, int flags) {
	if (!simActive) {
		REAL(ssize_t, send, (int, const void *, size_t, int));
		return real_send(fd, p, len, flags);
	}
	return doSend(fd, p, len, flags);
}
ssize_t
sendto(int fd, const void *p, size_t len, int flags, const struct sockaddr *a, socklen_t n) {
	if (!vrange(fd)) {
		REAL(ssize_t, sendto, (int, const void *, size_t, int, const struct sockaddr *, socklen_t));
		return real_sendto(fd, p, len, flags, a, n);
	}
	return doSend(fd, p, len, flags);
}
ssize_t
recv(int fd, void *p, size_t len, int flags) {
	if (!simActive) {
		REAL(ssize_t, recv, (int, void *, size_t, int));
		return real_recv(fd, p, len, flags);
	}
	return doRecv(fd, p, len, flags);
}
ssize_t
recvfrom(int fd, void *restrict p, size_t len, int flags, struct sockaddr *restrict a, socklen_t *restrict n) {
	if (!vrange(fd)) {
		REAL(ssize_t, recvfrom, (int, void *, size_t, int, struct sockaddr *, socklen_t *));
		return real_recvfrom(fd, p, len, flags, a, n);
	}
	return doRecv(fd, p, len, flags);
}
ssize_t
read(int fd, void *p, size_t len) {
	if (!vrange(fd)) {
		REAL(ssize_t, read, (int, void *, size_t));
		return real_read(fd, p, len);
	}
	return doRecv(fd, p, len, 0);
}
ssize_t
write(int fd, const void *p, size_t len) {
	if (!vrange(fd)) {
		REAL(ssize_t, write, (int, const void *, size_t));
		return real_write(fd, p, len);
	}
	return doSend(fd, p, len, 0);
}

int
shutdown(int fd, int how) {
	if (!vrange(fd)) {
		REAL(int, shutdown, (int, int));
		return real_shutdown(fd, how);
	}
	sysEnter("shutdown");
	struct ep *e = vep(fd);
	if (!e)
		return badfd("shutdown", fd);
	if (how != SHUT_RD && !e->finsent && e->peer) {
		e->finsent = true;
		if (!e->peer->closed)
			put(e->peer, 'f', NULL, 0);
	}
	return 0;
}

int
close(int fd) {
	if (!vrange(fd)) {
		REAL(int, close, (int));
		return real_close(fd);
	}
	sysEnter("close");
	struct ep *e = vep(fd);
	if (!e)
		return badfd("close", fd);
	fds[fd - VBASE] = NULL;
	if (e->kind == K_STREAM) {
		simLog("k close %d %d %ld %ld", e->conn, e->side, e->txoff, e->rxoff);
		epClose(e, false);
	} else if (e->kind == K_LISTEN) {
		for (int b = 0; b < e->nback; b++)
			epClose(e->backlog[b].ep, true);
		e->nback = 0;
	}
	e->reg = false;
	e->fd = -1;
	return 0;
}

static int
doFcntl(int fd, int cmd, long arg) {
	struct ep *e = vep(fd);
	if (!e)
		return fd == -1 ? (errno = EBADF, -1) : badfd("fcntl", fd);
	if (cmd == F_GETFL)
		return O_RDWR | (e->nonblock ? O_NONBLOCK : 0);
	if (cmd == F_SETFL)
		e->nonblock = (arg & O_NONBLOCK) != 0;
	return 0;
}
int
fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (vrange(fd))
		return doFcntl(fd, cmd, (long)arg);
	REAL(int, fcntl, (int, int, ...));
	return real_fcntl(fd, cmd, arg);
}
int
fcntl64(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (vrange(fd))
		return doFcntl(fd, cmd, (long)arg);
	REAL(int, fcntl64, (int, int, ...));
	return real_fcntl64(fd, cmd, arg);
}
int
ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (vrange(fd)) {
		struct ep *e = vep(fd);
		if (!e)
			return badfd("ioctl", fd);
		if (req == FIONBIO)
			e->nonblock = *(int *)arg != 0;
		return 0;
	}
	REAL(int, ioctl, (int, unsigned long, ...));
	return real_ioctl(fd, req, arg);
}
int
setsockopt(int fd, int level, int name, const void *v, socklen_t n) {
	if (vrange(fd))
		return vep(fd) ? 0 : badfd("setsockopt", fd);
	REAL(int, setsockopt, (int, int, int, const void *, socklen_t));
	return real_setsockopt(fd, level, name, v, n);
}
int
getsockopt(int fd, int level, int name, void *restrict v, socklen_t *restrict n) {
	if (vrange(fd)) {
		struct ep *e = vep(fd);
		if (!e)
			return badfd("getsockopt", fd);
		if (level == SOL_SOCKET && name == SO_ERROR) {
			*(int *)v = e->soerr;
			e->soerr = 0;
		}
		return 0;
	}
	REAL(int, getsockopt, (int, int, int, void *, socklen_t *));
	return real_getsockopt(fd, level, name, v, n);
}

int
epoll_create1(int flags) {
	if (!simActive) {
		REAL(int, epoll_create1, (int));
		return real_epoll_create1(flags);
	}
	sysEnter("epoll_create");
	return newFd(newEp(K_EPOLL));
}
int
epoll_create(int n) {
	if (!simActive) {
		REAL(int, epoll_create, (int));
		return real_epoll_create(n);
	}
	return epoll_create1(0);
}
int
epoll_ctl(int efd, int op, int fd, struct epoll_event *ev) {
	if (!simActive) {
		REAL(int, epoll_ctl, (int, int, int, struct epoll_event *));
		return real_epoll_ctl(efd, op, fd, ev);
	}
	sysEnter("epoll_ctl");
	struct ep *p = vep(efd), *e = vep(fd);
	if (!p || p->kind != K_EPOLL)
		return badfd("epoll_ctl", efd);
	if (!e)
		return badfd("epoll_ctl", fd);
	if (op == EPOLL_CTL_ADD) {
		if (e->reg) {
			errno = EEXIST;
			return -1;
		}
		e->reg = true;
	} else if (!e->reg) {
		errno = ENOENT;
		return -1;
	}
	e->idleIn = e->idleOut = 0;
	if (op == EPOLL_CTL_DEL)
		e->reg = false;
	else {
		e->events = ev->events;
		e->data = ev->data.u64;
	}
	return 0;
}

static void
spins(struct ep *e, const char *what) {
	simLog("!net spins: descriptor %d is reported %s %ld times in a row and nothing is done about it", e->fd, what, p_spin);
	simEnd("spin");
}

static int
doWait(int efd, struct epoll_event *evs, int max, int timeout) {
	sysEnter("epoll_wait");
	struct ep *p = vep(efd);
	if (!p || p->kind != K_EPOLL)
		return badfd("epoll_wait", efd);
	if (simDecide(S_NETEV, 2, (int)p_wintr, "fault.epoll_eintr")) {
		errno = EINTR;
		return -1;
	}
	uint64_t until = timeout < 0 ? UINT64_MAX : simClock + (uint64_t)timeout * 1000;
	for (;;) {
		int n = 0;
		struct { struct ep *e; uint32_t m; } rd[VMAX];
		for (int i = 0; i < VMAX; i++) {
			struct ep *e = fds[i];
			if (!e || !e->reg)
				continue;
			uint32_t m = readiness(e) & (e->events | EPOLLERR | EPOLLHUP);
			if (!m)
				continue;
			/* the event may just have missed this call */
			if (timeout == 0 && simDecide(S_NETEV, 2, (int)p_skip, "event_missed"))
				continue;
			rd[n].e = e;
			rd[n++].m = m;
		}
		if (n) {
			/* any of the ready descriptors, in any order: none is favoured */
			int got = n > max ? max : n;
			for (int i = 0; i < got; i++) {
				int j = i + simChoose(S_NETEV, n - i, NULL);
				__typeof__(rd[0]) t = rd[i];
				rd[i] = rd[j];
				rd[j] = t;
				evs[i].events = rd[i].m;
				evs[i].data.u64 = rd[i].e->data;
				/* To be told again and again of what nothing is done about is
				   to spin instead of sleeping. */
				if (timeout && (rd[i].m & EPOLLOUT) && ++rd[i].e->idleOut == p_spin)
					spins(rd[i].e, "writable");
				if (timeout && (rd[i].m & ~EPOLLOUT) && ++rd[i].e->idleIn == p_spin)
					spins(rd[i].e, "readable or closed");
				if (rd[i].e->events & EPOLLONESHOT)
					rd[i].e->events = 0;
			}
			return got;
		}
		if (timeout == 0)
			return 0;
		if (!blockStep(until)) {
			simLog("!net waits for ever: no event can arrive");
			simEnd("deadlock");
		}
		if (simClock >= until)
			timeout = 0;
	}
}
int
epoll_wait(int efd, struct epoll_event *evs, int max, int timeout) {
	if (!simActive) {
		REAL(int, epoll_wait, (int, struct epoll_event *, int, int));
		return real_epoll_wait(efd, evs, max, timeout);
	}
	return doWait(efd, evs, max, timeout);
}
int
epoll_pwait(int efd, struct epoll_event *evs, int max, int timeout, const sigset_t *ss) {
	if (!simActive) {
		REAL(int, epoll_pwait, (int, struct epoll_event *, int, int, const sigset_t *));
		return real_epoll_pwait(efd, evs, max, timeout, ss);
	}
	return doWait(efd, evs, max, timeout);
}

/* ---------- natives ---------- */
static void
nNext(Cora *co, int label, Obj *R) { /* identity of the next connect */
	curId = (int)fixnum(R[1]);
	coraReturn(co, Nil);
}
static void
nId(Cora *co, int label, Obj *R) { /* connection behind a descriptor, -1 when it is none */
	struct ep *e = isfixnum(R[1]) ? vep((int)fixnum(R[1])) : NULL;
	coraReturn(co, makeNumber(e && e->kind == K_STREAM ? e->conn : -1));
}
static void
nData(Cora *co, int label, Obj *R) { /* (sim-net-data conn dir off n) */
	int conn = (int)fixnum(R[1]), dir = (int)fixnum(R[2]), n = (int)fixnum(R[4]);
	long off = fixnum(R[3]);
	char *b = malloc(n + 1);
	for (int i = 0; i < n; i++)
		b[i] = (char)pat(conn, dir, off + i);
	Obj r = makeString(co->gc, b, n);
	free(b);
	coraReturn(co, r);
}
static void
nVerify(Cora *co, int label, Obj *R) { /* (sim-net-verify conn dir off buf): number of right bytes at the start */
	int conn = (int)fixnum(R[1]), dir = (int)fixnum(R[2]);
	long off = fixnum(R[3]);
	unsigned char *b = (unsigned char *)bytesData(R[4]);
	int n = bytesLen(R[4]), i = 0;
	while (i < n && b[i] == pat(conn, dir, off + i))
		i++;
	coraReturn(co, makeNumber(i));
}
static struct registerModule netMod = {NULL,
	{{"sim-net-next", nNext, 1}, {"sim-net-id", nId, 1}, {"sim-net-data", nData, 4}, {"sim-net-verify", nVerify, 4}, {NULL, NULL, 0}}};

void
netRegister(Cora *co) {
	simReg(co, netMod.entries);
}

void
netRunStart(void) {
	p_short = cfgInt("p_short", 0);
	p_eagain = cfgInt("p_eagain", 0);
	p_eintr = cfgInt("p_eintr", 0);
	p_rst = cfgInt("p_rst", 0);
	p_acc = cfgInt("p_acc", 0);
	p_dial = cfgInt("p_dial", 0);
	p_sock = cfgInt("p_sock", 0);
	p_gai = cfgInt("p_gai", 0);
	p_bind = cfgInt("p_bind", 0);
	p_skip = cfgInt("p_skip", 0);
	p_wintr = cfgInt("p_wintr", 0);
	p_spin = cfgInt("p_spin", 0);
	rstleft = cfgInt("rstleft", 3);
	dmax = cfgInt("dmax", 0);
	winmax = cfgInt("winmax", 65536);
	/* op: conn id ka kb start (A strands) (B strands) */
	for (int i = 0; i < planOps(); i++) {
		const char *o = planOp(i);
		if (strncmp(o, "conn ", 5))
			continue;
		int id;
		char ka, kb;
		long start;
		int used = 0;
		if (sscanf(o, "conn %d %c %c %ld %n", &id, &ka, &kb, &start, &used) < 4)
			continue;
		const char *p = o + used;
		for (int side = 0; side < 2; side++) {
			while (*p == ' ')
				p++;
			const char *q = p;
			int depth = 0;
			do {
				if (*q == '(')
					depth++;
				else if (*q == ')')
					depth--;
				q++;
			} while (depth && *q);
			if ((side ? kb : ka) == 'p')
				addActor(id, side, strndup(p + 1, q - p - 2), (uint64_t)start);
			p = q;
		}
	}
}

void
netRunEnd(void) {
	for (int i = 0; i < VMAX; i++) {
		struct ep *e = fds[i];
		if (!e || e->kind == K_EPOLL)
			continue;
		simLog("k open %s %d %d", e->kind == K_STREAM ? "stream" : e->kind == K_LISTEN ? "listen" : "socket", e->conn, e->side);
	}
	if (nai)
		simLog("k addrinfo %ld", nai);
	/* what the program left in flight still reaches the peers */
	pump();
	for (int g = 0; g < 100000 && blockStep(UINT64_MAX); g++)
		;
	for (int i = 0; i < nactors; i++)
		if (actors[i].begun)
			simLog("k peer %d %d tx %ld rx %ld %s", actors[i].conn, actors[i].side, actors[i].ep->txoff, actors[i].ep->rxoff, actors[i].closed ? "closed" : "open");
}
