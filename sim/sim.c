/* Simulator kernel. One parent process boots the real runtime and forks one
 * child per simulated run; the child is driven by a plan read from stdin. */
#define _GNU_SOURCE
#include "vsim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

const char *streamNames[S_MAX] = {"gc", "rand", "prog", "net", "netev", "fs", "fscrash", "sys", "peer", "clock"};

uint64_t simSeed;
bool simActive, simExplicit;
Cora *simCo;
char simScratch[512];
bool simProc; /* this is a simulated process of a run with more than one */
char simPrefix[16];

/* ---------- shared result area ---------- */
#define LOGCAP (96u << 20)
struct rec { int stream; uint64_t idx; int64_t val; };
enum { MAXREC = 400000, MAXSTAT = 128 };
/* all of what decides a run: shared by the processes of a run */
struct shared {
	volatile uint64_t len;
	volatile int done;
	char status[64];
	uint64_t ctr[S_MAX];
	int ovpos[S_MAX];
	uint64_t clock;
	long ticks;
	struct { char name[40]; long n; } stats[MAXSTAT];
	int nstats;
	/* recorded non-benign decisions */
	size_t nrecs;
	struct rec recs[MAXREC];
	char log[];
};
static struct shared *sh;
uint64_t *simClockP;

void *
realSym(const char *n) {
	void *p = dlsym(RTLD_NEXT, n);
	if (!p) {
		fprintf(stderr, "simcora: no %s\n", n);
		_exit(3);
	}
	return p;
}

void
simLogRaw(const char *p, size_t n) {
	if (!simActive)
		return;
	if (sh->len + n + 32 > LOGCAP) {
		snprintf(sh->status, sizeof sh->status, "logfull");
		_exit(0);
	}
	if (simProc && (sh->len == 0 || sh->log[sh->len - 1] == '\n')) {
		size_t k = strlen(simPrefix);
		memcpy(sh->log + sh->len, simPrefix, k);
		sh->len += k;
	}
	memcpy(sh->log + sh->len, p, n);
	sh->len += n;
}

void
simLog(const char *fmt, ...) {
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof buf - 2)
		n = sizeof buf - 2;
	buf[n++] = '\n';
	simLogRaw(buf, n);
}

/* ---------- statistics ---------- */
void
simStat(const char *name, long d) {
	if (!simActive)
		return;
	for (int i = 0; i < sh->nstats; i++)
		if (!strcmp(sh->stats[i].name, name)) {
			sh->stats[i].n += d;
			return;
		}
	if (sh->nstats < MAXSTAT) {
		snprintf(sh->stats[sh->nstats].name, 40, "%s", name);
		sh->stats[sh->nstats++].n = d;
	}
}

/* ---------- decisions ---------- */
struct ov { uint64_t idx; int64_t val; };
static struct ov *ovs[S_MAX];
static int novs[S_MAX], ovcap[S_MAX];

static uint64_t
mix(uint64_t x) {
	x ^= x >> 30;
	x *= 0xBF58476D1CE4E5B9ULL;
	x ^= x >> 27;
	x *= 0x94D049BB133111EBULL;
	x ^= x >> 31;
	return x;
}

static uint64_t
rawAt(int stream, uint64_t idx) {
	return mix(mix(simSeed * 0x9E3779B97F4A7C15ULL + stream * 0xD1B54A32D192ED03ULL) + idx * 0x9E3779B97F4A7C15ULL);
}

uint64_t
simDraw(int stream) {
	return rawAt(stream, sh->ctr[stream]++);
}

static bool
lookupOv(int s, uint64_t idx, int64_t *val) {
	while (sh->ovpos[s] < novs[s] && ovs[s][sh->ovpos[s]].idx < idx)
		sh->ovpos[s]++;
	if (sh->ovpos[s] < novs[s] && ovs[s][sh->ovpos[s]].idx == idx) {
		*val = ovs[s][sh->ovpos[s]].val;
		return true;
	}
	return false;
}

static void
record(int s, uint64_t idx, int64_t val) {
	if (sh->nrecs < MAXREC)
		sh->recs[sh->nrecs] = (struct rec){s, idx, val};
	sh->nrecs++;
}

int
simDecide(int s, int n, int p1000, const char *kind) {
	uint64_t idx = sh->ctr[s]++;
	int64_t v = 0;
	if (!simActive || p1000 <= 0)
		return 0;
	if (simExplicit) {
		if (!lookupOv(s, idx, &v))
			v = 0;
	} else {
		uint64_t r = rawAt(s, idx);
		if ((int)(r % 1000) < p1000 && n > 1)
			v = 1 + (int)((r >> 20) % (uint64_t)(n - 1));
	}
	if (v < 0 || v >= n)
		v = v < 0 ? 0 : n - 1;
	if (v != 0) {
		record(s, idx, v);
		if (kind)
			simStat(kind, 1);
	}
	return (int)v;
}

int
simChoose(int s, int n, const char *kind) {
	uint64_t idx = sh->ctr[s]++;
	int64_t v = 0;
	if (!simActive || n <= 1)
		return 0;
	if (simExplicit) {
		if (!lookupOv(s, idx, &v))
			v = 0;
	} else {
		v = (int)(rawAt(s, idx) >> 11) & 0x7fffffff;
		v %= n;
	}
	if (v < 0 || v >= n)
		v = n - 1;
	if (v != 0)
		record(s, idx, v);
	if (kind)
		simStat(kind, 1);
	return (int)v;
}

/* ---------- plan ---------- */
static char *planBuf;
static struct { char *k, *v; } cfg[128];
static int ncfg;
static char **ops;
static int nops, opPos;

const char *
cfgStr(const char *k, const char *d) {
	for (int i = 0; i < ncfg; i++)
		if (!strcmp(cfg[i].k, k))
			return cfg[i].v;
	return d;
}
long
cfgInt(const char *k, long d) {
	const char *s = cfgStr(k, NULL);
	return s ? strtol(s, NULL, 10) : d;
}
int planOps(void) { return nops; }
const char *planOp(int i) { return ops[i]; }

static void
parsePlan(char *p) {
	int cap = 0;
	for (char *line = strsep(&p, "\n"); line; line = strsep(&p, "\n")) {
		if (!strncmp(line, "cfg ", 4)) {
			char *k = line + 4, *v = strchr(k, '=');
			if (!v || ncfg >= 128)
				continue;
			*v++ = 0;
			cfg[ncfg].k = k;
			cfg[ncfg++].v = v;
		} else if (!strncmp(line, "op ", 3)) {
			if (nops >= cap)
				ops = realloc(ops, sizeof *ops * (cap = cap ? cap * 2 : 64));
			ops[nops++] = line + 3;
		} else if (!strncmp(line, "ov ", 3)) {
			int s;
			long long idx, val;
			if (sscanf(line + 3, "%d %lld %lld", &s, &idx, &val) == 3 && s >= 0 && s < S_MAX) {
				if (novs[s] >= ovcap[s])
					ovs[s] = realloc(ovs[s], sizeof(struct ov) * (ovcap[s] = ovcap[s] ? ovcap[s] * 2 : 64));
				ovs[s][novs[s]++] = (struct ov){(uint64_t)idx, val};
			}
		}
	}
	simSeed = strtoull(cfgStr("seed", "1"), NULL, 10);
	simExplicit = cfgInt("explicit", 0);
}

/* ---------- run end ---------- */
static bool ended;
static void
emitTail(void) {
	for (int i = 0; i < sh->nstats; i++)
		simLog("@stat %s %ld", sh->stats[i].name, sh->stats[i].n);
	simLog("@simclock %llu", (unsigned long long)simClock);
	if (cfgInt("trace", 0)) {
		for (size_t i = 0; i < sh->nrecs && i < MAXREC; i++)
			simLog("@d %d %llu %lld", sh->recs[i].stream, (unsigned long long)sh->recs[i].idx, (long long)sh->recs[i].val);
	}
	simLog("@nd %zu", sh->nrecs);
}

_Noreturn void
simEnd(const char *status) {
	if (simProc) {
		if (strcmp(status, "ok"))
			simLog("!proc %s", status);
		_exit(strcmp(status, "ok") ? 98 : 0);
	}
	if (!ended) {
		if (!strcmp(status, "ok"))
			heapRunEnd();
		ended = true;
		netRunEnd();
		fsRunEnd();
		emitTail();
		snprintf(sh->status, sizeof sh->status, "%s", status);
	}
	_exit(0);
}

static long tickCap = 200000;
void
simTick(void) {
	if (!simActive)
		return;
	if (++sh->ticks > tickCap) {
		simLog("!event cap reached");
		simEnd("livelock");
	}
}

void
simProgress(void) {
	sh->ticks = 0;
}

/* ---------- natives ---------- */
static Obj
parseTok(Cora *co, const char **pp) {
	const char *p = *pp;
	while (*p == ' ')
		p++;
	Obj r;
	if (*p == '"') { /* hex string */
		const char *q = ++p;
		while (*q && *q != '"')
			q++;
		int n = (int)(q - p) / 2;
		char *tmp = malloc(n + 1);
		for (int i = 0; i < n; i++) {
			unsigned v;
			sscanf(p + 2 * i, "%2x", &v);
			tmp[i] = (char)v;
		}
		r = makeString(co->gc, tmp, n);
		free(tmp);
		p = *q ? q + 1 : q;
	} else if (*p == '(') {
		p++;
		Obj items[4096];
		int n = 0;
		for (;;) {
			while (*p == ' ')
				p++;
			if (*p == ')' || !*p)
				break;
			Obj o = parseTok(co, &p);
			if (n < 4096)
				items[n++] = o;
		}
		if (*p == ')')
			p++;
		r = Nil;
		while (n > 0)
			r = makeCons(co->gc, items[--n], r);
	} else if ((*p == '-' && p[1] >= '0' && p[1] <= '9') || (*p >= '0' && *p <= '9')) {
		char *e;
		long v = strtol(p, &e, 10);
		r = makeNumber(v);
		p = e;
	} else {
		char name[256];
		int n = 0;
		while (*p && *p != ' ' && *p != ')' && n < 255)
			name[n++] = *p++;
		name[n] = 0;
		if (!strcmp(name, "#t"))
			r = True;
		else if (!strcmp(name, "#f"))
			r = False;
		else
			r = intern(name);
	}
	*pp = p;
	return r;
}

Obj
opToList(Cora *co, const char *s) {
	Obj items[4096];
	int n = 0;
	for (;;) {
		while (*s == ' ')
			s++;
		if (!*s)
			break;
		Obj o = parseTok(co, &s);
		if (n < 4096)
			items[n++] = o;
	}
	Obj r = Nil;
	while (n > 0)
		r = makeCons(co->gc, items[--n], r);
	return r;
}

static void
nOp(Cora *co, int label, Obj *R) {
	if (opPos >= nops) {
		coraReturn(co, Nil);
		return;
	}
	Obj l = opToList(co, ops[opPos++]);
	coraReturn(co, l);
}

static void
nOpAt(Cora *co, int label, Obj *R) {
	int i = (int)fixnum(R[1]);
	coraReturn(co, i >= 0 && i < nops ? opToList(co, ops[i]) : Nil);
}

static void
nNops(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber(nops));
}

static void
nLog(Cora *co, int label, Obj *R) {
	char tag[64] = "v";
	if (issymbol(R[1]))
		symbolStr(R[1], tag, 60);
	simDumpLog(tag, R[2]);
	coraReturn(co, R[2]);
}

static void
nChoose(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber(simChoose(S_PROG, (int)fixnum(R[1]), NULL)));
}

static void
nCfg(Cora *co, int label, Obj *R) {
	char k[64];
	symbolStr(R[1], k, 64);
	coraReturn(co, makeNumber(cfgInt(k, 0)));
}

static void
nFill(Cora *co, int label, Obj *R) {
	struct scmBytes *b = ptr(R[1]);
	uint64_t x = mix(fixnum(R[2]) + 77);
	unsigned char *d = (unsigned char *)b->data;
	for (int i = 0; i < b->len; i++) {
		if ((i & 4095) == 0)
			x = mix(x + i + 1);
		d[i] = (unsigned char)(x >> ((i & 7) * 8)) ^ (unsigned char)(i >> 3);
	}
	d[b->len] = 0;
	coraReturn(co, R[1]);
}

static void
nCheck(Cora *co, int label, Obj *R) {
	struct scmBytes *b = ptr(R[1]);
	uint64_t x = mix(fixnum(R[2]) + 77);
	unsigned char *d = (unsigned char *)b->data;
	int bad = -1;
	int want = (int)fixnum(R[3]);
	if (!isBytes(R[1]) || b->head.type != scmHeadBytes || b->len != want)
		bad = -2;
	else
		for (int i = 0; i < b->len; i++) {
			if ((i & 4095) == 0)
				x = mix(x + i + 1);
			if (d[i] != (unsigned char)((unsigned char)(x >> ((i & 7) * 8)) ^ (unsigned char)(i >> 3))) {
				bad = i;
				break;
			}
		}
	if (bad != -1)
		simLog("!bytes %ld want len %d bad at %d", (long)fixnum(R[2]), want, bad);
	coraReturn(co, bad == -1 ? True : False);
}

static void
nVappend(Cora *co, int label, Obj *R) {
	coraReturn(co, vectorAppend(co->gc, R[1], R[2]));
}
static void
nVcap(Cora *co, int label, Obj *R) {
	coraReturn(co, makeVector(co->gc, (int)fixnum(R[1]), (int)fixnum(R[2])));
}

/* observable stack use: frames, segments */
static void
nStack(Cora *co, int label, Obj *R) {
	Obj r = makeCons(co->gc, makeNumber(vecLen(&co->stk.data)), Nil);
	r = makeCons(co->gc, makeNumber(vecLen(&co->callstack)), r);
	r = makeCons(co->gc, makeNumber(vecLen(&co->trystack)), r);
	coraReturn(co, r);
}

static void
nFail(Cora *co, int label, Obj *R) {
	char *buf;
	size_t n;
	simDump(R[1], &buf, &n);
	simLog("!fail %.*s", (int)n, buf);
	free(buf);
	coraReturn(co, Nil);
}

static void
nStat(Cora *co, int label, Obj *R) {
	char k[64];
	symbolStr(R[1], k, 60);
	simStat(k, (long)fixnum(R[2]));
	coraReturn(co, Nil);
}

static void
nByteSub(Cora *co, int label, Obj *R) { /* (sim-bytes-sub b from to) */
	Obj b = R[1];
	int from = (int)fixnum(R[2]), to = (int)fixnum(R[3]);
	if (from < 0)
		from = 0;
	if (to > bytesLen(b))
		to = bytesLen(b);
	if (from > to)
		from = to;
	char *tmp = malloc(to - from + 1);
	memcpy(tmp, bytesData(b) + from, to - from);
	Obj r = makeString(co->gc, tmp, to - from);
	free(tmp);
	coraReturn(co, r);
}

static void
nZero(Cora *co, int label, Obj *R) { /* clear a buffer */
	memset(bytesData(R[1]), (int)fixnum(R[2]), bytesLen(R[1]));
	coraReturn(co, R[1]);
}

static struct registerModule simModule = {NULL,
	{{"sim-op", nOp, 0}, {"sim-op-at", nOpAt, 1}, {"sim-nops", nNops, 0},
		{"sim-log", nLog, 2}, {"sim-choose", nChoose, 1}, {"sim-cfg", nCfg, 1},
		{"sim-fill", nFill, 2}, {"sim-check", nCheck, 3},
		{"sim-vappend", nVappend, 2}, {"sim-vcap", nVcap, 2},
		{"sim-stack", nStack, 0}, {"sim-fail", nFail, 1}, {"sim-stat", nStat, 2},
		{"sim-bytes-sub", nByteSub, 3}, {"sim-zero", nZero, 2},
		{NULL, NULL, 0}}};

void
simReg(Cora *co, struct registerEntry *e) {
	for (; e->func; e++)
		coraRegisterAPI(co, "work/sim", e->name, e->func, e->args);
}

/* ---------- interposed small things ---------- */
int
rand(void) {
	if (simActive)
		return simChoose(S_RAND, 1 << 20, "rand");
	static int x = 1;
	x = (int)((x * 1103515245u + 12345u) & 0x7fffffff);
	return x;
}

int
clock_gettime(clockid_t id, struct timespec *ts) {
	if (simActive) {
		simClock += 1 + (simDraw(S_CLOCK) % 50);
		ts->tv_sec = (time_t)(simClock / 1000000) + 1000000;
		ts->tv_nsec = (long)(simClock % 1000000) * 1000;
		return 0;
	}
	static int (*real)(clockid_t, struct timespec *);
	if (!real)
		real = realSym("clock_gettime");
	return real(id, ts);
}

/* ---------- child ---------- */
static char altstack[1 << 16];
static void
onSignal(int sig) {
	/* async context: only append a fixed line */
	if (ended)
		_exit(0);
	ended = true;
	const char *s = sig == SIGPROF || sig == SIGALRM ? "hang" : sig == SIGSEGV || sig == SIGBUS ? "segv"
		: sig == SIGILL || sig == SIGTRAP ? "trap" : sig == SIGABRT ? "abort" : sig == SIGPIPE ? "sigpipe" : "signal";
	if (simProc) {
		simLog("!proc %s", s);
		_exit(98);
	}
	emitTail();
	snprintf(sh->status, sizeof sh->status, "%s", s);
	_exit(0);
}

void
simTimers(void) {
	long cpu = cfgInt("cpu", 20);
	struct itimerval it = {.it_value = {cpu, 0}};
	setitimer(ITIMER_PROF, &it, NULL);
	alarm((unsigned)cpu * 4 + 20);
}

static bool bare; /* "@bare": nothing is booted before the fork */
static void runBare(void);

static void
runChild(void) {
	parsePlan(planBuf);
	heapRunStart();
	stack_t ss = {.ss_sp = altstack, .ss_size = sizeof altstack};
	sigaltstack(&ss, NULL);
	struct sigaction sa = {.sa_handler = onSignal, .sa_flags = SA_ONSTACK};
	int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGABRT, SIGFPE, SIGPROF, SIGALRM, SIGPIPE};
	for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++)
		sigaction(sigs[i], &sa, NULL);
	simTimers();
	tickCap = cfgInt("tickcap", 200000);
	if (bare)
		runBare();
	simActive = true;
	shadowRunStart();
	netRunStart();
	fsRunStart();
	if (cfgInt("procs", 0)) {
		fsCoordinate();
		simEnd("ok");
	}
	simRunMain();
	simDumpLog("result", simCo->res);
	simEnd("ok");
}

void
simRunMain(void) {
	char entry[256];
	snprintf(entry, sizeof entry, "%s", cfgStr("main", ""));
	Obj fn = symbolGet(simCo, intern(entry));
	if (fn == Undef) {
		simLog("no main %s", entry);
		simEnd("nomain");
	}
	Obj args[1] = {Nil};
	(void)args;
	coraCall(simCo, fn, 0, args);
	coraRun(simCo);
}

/* ---------- the program's own main() ---------- */
#ifdef SIM_BARE
int coraMain(int argc, char **argv);
#else
static int coraMain(int argc, char **argv) { return 99; }
#endif
static bool atReader;
static char *inText;
static size_t inLen, inPos;

static ssize_t
inRead(void *cookie, char *buf, size_t n) {
	simTick();
	size_t left = inLen - inPos;
	if (n > left)
		n = left;
	if (n > 1 && cfgInt("p_split", 0) && simDecide(S_PROG, 2, (int)cfgInt("p_split", 0), "split"))
		n = 1 + simDraw(S_PROG) % (n < 40 ? n : 40);
	memcpy(buf, inText + inPos, n);
	inPos += n;
	return n;
}

void
simBareExit(int rc) {
	if (ended || !bare)
		return;
	fsStdout();
	simLog("exit %d", rc & 255);
	if (simCo)
		simLog("end %ld %ld", (long)vecLen(&simCo->callstack), (long)vecLen(&simCo->trystack));
	simEnd("ok");
}

static char *
unhex(const char *s, size_t *n) { /* "hex" */
	char *r = malloc(strlen(s) / 2 + 2);
	*n = 0;
	for (s++; *s && *s != '"'; s += 2) {
		unsigned x;
		sscanf(s, "%2x", &x);
		r[(*n)++] = (char)x;
	}
	r[*n] = 0;
	return r;
}

Cora *
simCoraInit(void) {
	Cora *co = coraInit();
	simCo = co;
	simReg(co, simModule.entries);
	shadowRegister(co);
	netRegister(co);
	fsRegister(co);
	Binding b = bindSymbol(co, intern("cora/init#*imported*"));
	globalSet(co, b, makeCons(co->gc, makeCString(co->gc, "work/sim"), globalRef(co, b)));
	return co;
}

Obj
simSexpRead(GC *gc, FILE *in, int *err) {
	if (!atReader) { /* the program is up: from here on it is disturbed */
		atReader = true;
		shadowRunStart();
		simLog("up");
	}
	simLog("depth %ld %ld %ld", (long)vecLen(&simCo->callstack), (long)vecLen(&simCo->trystack), (long)vecLen(&simCo->stk.data));
	return sexpRead(gc, in, err);
}

static void
runBare(void) {
	char *argv[40] = {"cora"};
	int argc = 1;
	fsRunStart();
	for (int i = 0; i < nops; i++) {
		size_t n;
		char *t = strchr(ops[i], '"');
		if (!t)
			continue;
		t = unhex(t, &n);
		if (ops[i][0] == 'a' && argc < 39)
			argv[argc++] = t;
		else {
			inText = realloc(inText, inLen + n + 1);
			memcpy(inText + inLen, t, n);
			inLen += n;
		}
	}
	argv[argc] = NULL;
	if (argc > 1 && cfgInt("script", 1))
		fsPutFile("s.cora", inText ? inText : "", inLen);
	else if (argc == 1) {
		cookie_io_functions_t io = {inRead, NULL, NULL, NULL};
		stdin = fopencookie(NULL, "r", io);
		long b = cfgInt("bufsize", 0);
		if (b > 0)
			setvbuf(stdin, malloc(b), _IOFBF, b);
	}
	simActive = true;
	exit(coraMain(argc, argv));
}

static void
bootImport(Cora *co, const char *name) {
	Obj fn = symbolGet(co, intern("import"));
	Obj a[1] = {makeCString(co->gc, (char *)name)};
	coraCall(co, fn, 1, a);
	coraRun(co);
	if (simCo->res == makeNumber(-1)) {
		fprintf(stderr, "simcora: import %s failed\n", name);
		exit(3);
	}
}

int
main(int argc, char **argv) {
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
		personality(ADDR_NO_RANDOMIZE);
		setenv("SIM_NOREEXEC", "1", 1);
		execv("/proc/self/exe", argv);
	}
	if (argc < 2)
		return 2;
	snprintf(simScratch, sizeof simScratch, "%s", argv[1]);
	int out = dup(1);
	fcntl(out, F_SETFD, FD_CLOEXEC);
	int nul = open("/dev/null", O_WRONLY);
	if (!getenv("SIM_STDOUT"))
		dup2(nul, 1);
	else
		dup2(2, 1);
	sh = mmap(NULL, sizeof *sh + LOGCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED)
		return 3;
	simClockP = &sh->clock;
	shadowInit();
	bare = argc > 2 && !strcmp(argv[2], "@bare");
	if (!bare) {
		Cora *co = simCoraInit();
		bootImport(co, "cora/init");
		bootImport(co, "cora/lib/toc");
		bootImport(co, "cora/lib/eval");
		for (int i = 2; i < argc; i++)
			bootImport(co, argv[i]);
	}
	dprintf(out, "READY\n");

	FILE *in = stdin;
	char line[64];
	while (fgets(line, sizeof line, in)) {
		long n = strtol(line, NULL, 10);
		if (n <= 0)
			break;
		planBuf = malloc(n + 1);
		if (fread(planBuf, 1, n, in) != (size_t)n)
			break;
		planBuf[n] = 0;
		sh->len = 0;
		memset(sh->ctr, 0, sizeof sh->ctr);
		memset(sh->ovpos, 0, sizeof sh->ovpos);
		memset(sh->stats, 0, sizeof sh->stats);
		sh->nstats = 0;
		sh->nrecs = 0;
		sh->clock = 0;
		sh->ticks = 0;
		strcpy(sh->status, "lost");
		pid_t pid = fork();
		if (pid == 0) {
			setpgid(0, 0);
			runChild();
			_exit(0);
		}
		int st;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		free(planBuf);
		if (!strcmp(sh->status, "lost"))
			snprintf(sh->status, sizeof sh->status, "lost-%s-%d", WIFSIGNALED(st) ? "sig" : "exit",
				WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		dprintf(out, "%s %llu\n", sh->status, (unsigned long long)sh->len);
		size_t off = 0;
		while (off < sh->len) {
			ssize_t w = write(out, sh->log + off, sh->len - off);
			if (w <= 0)
				return 3;
			off += w;
		}
		/* release memory of long logs */
		if (sh->len > (1 << 20))
			madvise((char *)(((uintptr_t)sh->log + 4095) & ~4095ul), LOGCAP - 4096, MADV_REMOVE);
	}
	return 0;
}
