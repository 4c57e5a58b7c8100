/* Simulated file system, C compiler and processes.
 *
 * Files are real files in a scratch folder; everything the code under test does
 * with them goes through the functions below, which decide what other process runs
 * next, where a process dies, and which calls fail. The C compiler is a stand-in that
 * produces what the real one makes of the same text, in steps. */
#define _GNU_SOURCE
#include "vsim.h"

void *__libc_malloc(size_t);
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <pwd.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

/* a copy which counts as the simulator's */
static char *
dupStr(const char *s) {
	return strcpy(malloc(strlen(s) + 1), s);
}

static bool on; /* this run simulates files */
static char root[600];
static int rootLen;
static char home[700];
static int homeLen;
enum { MAXPROC = 48, MAXPATH = 1400 };

static struct fsShared {
	int calm;    /* no faults, no crashes */
	int others;  /* other processes that can run, plus the editor */
	int nproc;   /* processes started so far */
	int crashes;
	int faults;
	int canCrash;
	int steps;
} *fss;

/* coordinator <-> process */
static int toCoord = -1, fromCoord = -1;
static const char *procOp;

static ssize_t rawRead(int fd, void *p, size_t n) { return syscall(SYS_read, fd, p, n); }
static ssize_t rawWrite(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }
static int rawOpen(const char *p, int fl, int mode) { return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
static void rawClose(int fd) { syscall(SYS_close, fd); }
static int rawUnlink(const char *p) { return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
static int rawRename(const char *a, const char *b) { return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
static int rawMkdir(const char *p) { return (int)syscall(SYS_mkdirat, AT_FDCWD, p, 0755); }

static const char *
rel(const char *p) { /* for the log */
	static char bufs[4][MAXPATH];
	static int k;
	char *b = bufs[k++ & 3];
	if (!strncmp(p, root, rootLen))
		p += rootLen + 1;
	snprintf(b, MAXPATH, "%s", p);
	/* the names of temporary files may differ between versions of the code: no part of the log */
	return b;
}

static const char *
mapPath(const char *in, char *out) {
	if (!strncmp(in, "/tmp/", 5))
		snprintf(out, MAXPATH, "%s/tmp/%s", root, in + 5);
	else if (in[0] != '/')
		snprintf(out, MAXPATH, "%s/work/%s", root, in);
	else if (homeLen && !strncmp(in, home, homeLen))
		snprintf(out, MAXPATH, "%s/cp/%s", root, in + homeLen);
	else
		snprintf(out, MAXPATH, "%s", in);
	for (char *p = out; *p; p++) /* CORAPATH may be spelled in other ways */
		while (p[0] == '/' && p[1] == '.' && p[2] == '/')
			memmove(p, p + 2, strlen(p + 2) + 1);
	return out;
}

struct passwd *
getpwuid(uid_t u) {
	static struct passwd pw;
	static char dir[MAXPATH];
	snprintf(dir, sizeof dir, "%s/home", root);
	pw.pw_name = "user";
	pw.pw_dir = dir;
	pw.pw_shell = "/bin/sh";
	return &pw;
}

static bool
inside(const char *p) {
	return !strncmp(p, root, rootLen) && p[rootLen] == '/' && !strstr(p, "/../") && !strstr(p, "/pkg/cora/");
}

static bool
refuse(const char *what, const char *p) {
	if (inside(p))
		return false;
	simLog("!escape %s %s", what, p);
	errno = EACCES;
	return true;
}

static void
setTime(const char *path) {
	struct timespec ts[2];
	ts[0].tv_sec = ts[1].tv_sec = (time_t)(simClock / 1000000) + 1000000;
	ts[0].tv_nsec = ts[1].tv_nsec = (long)(simClock % 1000000) * 1000;
	syscall(SYS_utimensat, AT_FDCWD, path, ts, 0);
}

/* ---------- scheduling, crashes, faults ---------- */
static bool
crashNow(void) {
	if (!simProc || fss->calm || !fss->canCrash || fss->crashes >= cfgInt("maxcrash", 0))
		return false;
	return simDecide(S_FSCRASH, 2, (int)cfgInt("p_crash", 0), "crash") != 0;
}

static _Noreturn void
die(const char *where) {
	fss->crashes++;
	simLog("crash %s", where);
	syscall(SYS_exit_group, 77);
	__builtin_unreachable();
}

static void
fsYield(const char *what) {
	simTick();
	simClock += 1 + simDraw(S_CLOCK) % 40;
	fss->steps++;
	if (!simProc)
		return;
	if (fss->others > 0 && simDecide(S_SYS, 2, (int)cfgInt("p_switch", 0), "switch")) {
		char c = 'y';
		if (rawWrite(toCoord, &c, 1) != 1 || rawRead(fromCoord, &c, 1) != 1)
			syscall(SYS_exit_group, 76);
	}
	if (crashNow())
		die(what);
}

/* a fault of this kind? returns 0 or 1..n-1 */
static int
fault(const char *kind, int n, const char *path) {
	char key[32];
	snprintf(key, sizeof key, "f_%s", kind);
	int p = fss->calm ? 0 : (int)cfgInt(key, 0);
	if (fss->faults >= cfgInt("maxfault", 1000))
		p = 0;
	char stat[48];
	snprintf(stat, sizeof stat, "fault-%s", kind);
	int v = simDecide(S_FS, n, p, stat);
	if (v) {
		fss->faults++;
		simLog("fault %s %d", kind, v);
	}
	return v;
}

/* ---------- stdio ---------- */
struct ck {
	int fd;
	bool write, failed;
	char path[MAXPATH];
};
static int openFiles;

static ssize_t
ckRead(void *cookie, char *buf, size_t n) {
	struct ck *c = cookie;
	fsYield("read");
	if (fault("read", 2, c->path)) {
		errno = EIO;
		return -1;
	}
	int sp = (int)cfgInt("p_short", 0);
	if (n > 1 && simDecide(S_FS, 2, sp, "short-read"))
		n = 1 + simChoose(S_FS, n > 200 ? 200 : (int)n, NULL);
	ssize_t r = rawRead(c->fd, buf, n);
	return r;
}

static ssize_t
ckWrite(void *cookie, const char *buf, size_t n) {
	struct ck *c = cookie;
	size_t done = 0;
	fsYield("write");
	if (simProc && n > 1 && crashNow()) { /* torn */
		rawWrite(c->fd, buf, simChoose(S_FSCRASH, (int)(n > 100000 ? 100000 : n), NULL));
		die("torn write");
	}
	int f = fault("write", 3, c->path);
	if (f) {
		if (f == 2 && n > 1)
			done = rawWrite(c->fd, buf, 1 + simChoose(S_FS, (int)(n > 100000 ? 100000 : n) - 1, NULL));
		c->failed = true;
		errno = f == 1 ? EIO : ENOSPC;
		return done; /* fewer than asked for: the stream takes this for an error */
	}
	while (done < n) {
		ssize_t r = rawWrite(c->fd, buf + done, n - done);
		if (r <= 0)
			break;
		done += r;
	}
	setTime(c->path);
	return done;
}

static int
ckSeek(void *cookie, off64_t *off, int whence) {
	struct ck *c = cookie;
	off64_t r = lseek64(c->fd, *off, whence);
	if (r < 0)
		return -1;
	*off = r;
	return 0;
}

static int
ckClose(void *cookie) {
	struct ck *c = cookie;
	fsYield("close");
	int r = 0;
	rawClose(c->fd);
	openFiles--;
	if (fault("close", 2, c->path)) {
		errno = EIO;
		r = -1;
	}
	free(c);
	return r;
}

FILE *
fopen(const char *restrict path, const char *restrict mode) {
	if (!on || !simActive) {
		static FILE *(*real)(const char *, const char *);
		if (!real)
			real = realSym("fopen");
		return real(path, mode);
	}
	char p[MAXPATH];
	mapPath(path, p);
	bool w = mode[0] != 'r' || strchr(mode, '+');
	fsYield(w ? "open-w" : "open");
	if (w && refuse("fopen", p))
		return NULL;
	int f = fault(w ? "openw" : "open", 4, p);
	if (f) {
		errno = f == 1 ? EMFILE : f == 2 ? EIO : w ? ENOSPC : EACCES;
		return NULL;
	}
	int fl = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT;
	if (strchr(mode, '+'))
		fl = (fl & ~O_ACCMODE) | O_RDWR;
	if (mode[0] == 'w')
		fl |= O_TRUNC;
	if (mode[0] == 'a')
		fl |= O_APPEND;
	if (strchr(mode, 'x'))
		fl |= O_EXCL;
	int fd = rawOpen(p, fl | O_CLOEXEC, 0644);
	if (fd < 0)
		return NULL;
	if (w)
		setTime(p);
	struct ck *c = calloc(1, sizeof *c);
	c->fd = fd;
	c->write = w;
	snprintf(c->path, MAXPATH, "%s", p);
	cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
	FILE *r = fopencookie(c, mode, io);
	if (!r) {
		rawClose(fd);
		free(c);
		return NULL;
	}
	openFiles++;
	int bs = (int)cfgInt("bufsize", 4096);
	setvbuf(r, __libc_malloc(bs), _IOFBF, bs); /* the buffer is lost with the run */
	return r;
}
FILE *
fopen64(const char *restrict path, const char *restrict mode) {
	return fopen(path, mode);
}

/* ---------- calls on names ---------- */
#define REAL(name, type, ...)                                                                                          \
	static type(*real)(__VA_ARGS__);                                                                                   \
	if (!real)                                                                                                         \
		real = realSym(#name);

int
open(const char *path, int fl, ...) {
	va_list ap;
	va_start(ap, fl);
	int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
	va_end(ap);
	if (!on || !simActive)
		return rawOpen(path, fl, mode);
	char p[MAXPATH];
	mapPath(path, p);
	fsYield("open");
	if ((fl & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC)) && refuse("open", p))
		return -1;
	if (fault((fl & (O_CREAT | O_WRONLY | O_RDWR)) ? "openw" : "open", 2, p)) {
		errno = EMFILE;
		return -1;
	}
	return rawOpen(p, fl, mode);
}

int
access(const char *path, int m) {
	if (!on || !simActive) {
		REAL(access, int, const char *, int)
		return real(path, m);
	}
	char p[MAXPATH];
	mapPath(path, p);
	fsYield("access");
	return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
}

static int
doStat(const char *path, struct stat *st, int flags) {
	char p[MAXPATH];
	mapPath(path, p);
	fsYield("stat");
	if (fault("stat", 2, p)) {
		errno = EIO;
		return -1;
	}
	return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, flags);
}

int
stat(const char *restrict path, struct stat *restrict st) {
	if (!on || !simActive)
		return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
	return doStat(path, st, 0);
}
int
stat64(const char *restrict path, struct stat64 *restrict st) {
	return stat(path, (struct stat *)st);
}
int
lstat(const char *restrict path, struct stat *restrict st) {
	if (!on || !simActive)
		return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW);
	return doStat(path, st, AT_SYMLINK_NOFOLLOW);
}

int
rename(const char *a, const char *b) {
	if (!on || !simActive)
		return rawRename(a, b);
	char p[MAXPATH], q[MAXPATH];
	mapPath(a, p);
	mapPath(b, q);
	fsYield("rename");
	if (refuse("rename", p) || refuse("rename", q))
		return -1;
	if (fault("rename", 2, q)) {
		errno = ENOSPC;
		return -1;
	}
	return rawRename(p, q);
}

int
unlink(const char *a) {
	if (!on || !simActive)
		return rawUnlink(a);
	char p[MAXPATH];
	mapPath(a, p);
	fsYield("unlink");
	if (refuse("unlink", p))
		return -1;
	return rawUnlink(p);
}

int
remove(const char *a) {
	if (!on || !simActive) {
		REAL(remove, int, const char *)
		return real(a);
	}
	return unlink(a);
}

int
mkdir(const char *a, mode_t m) {
	if (!on || !simActive)
		return (int)syscall(SYS_mkdirat, AT_FDCWD, a, m);
	char p[MAXPATH];
	mapPath(a, p);
	fsYield("mkdir");
	struct stat st;
	if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0) {
		errno = EEXIST;
		return -1;
	}
	if (refuse("mkdir", p))
		return -1;
	if (fault("mkdir", 2, p)) {
		errno = ENOSPC;
		return -1;
	}
	return rawMkdir(p);
}

int
utimensat(int dfd, const char *a, const struct timespec ts[2], int flags) {
	if (!on || !simActive || !a)
		return (int)syscall(SYS_utimensat, dfd, a, ts, flags);
	char p[MAXPATH];
	mapPath(a, p);
	fsYield("utimens");
	if (refuse("utimensat", p))
		return -1;
	if (fault("utime", 2, p)) {
		errno = EPERM;
		return -1;
	}
	return (int)syscall(SYS_utimensat, AT_FDCWD, p, ts, flags);
}

static int
mkTemp(char *tmpl, int suffix, int flags) {
	char p[MAXPATH];
	fsYield("mkstemp");
	mapPath(tmpl, p);
	if (refuse("mkstemp", p))
		return -1;
	size_t l = strlen(tmpl), k = l - suffix - 6;
	for (int i = 0; i < 1000; i++) {
		char six[16];
		snprintf(six, sizeof six, "s%05d", (int)(simDraw(S_CLOCK) % 100000));
		memcpy(tmpl + k, six, 6);
		mapPath(tmpl, p);
		int fd = rawOpen(p, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
		if (fd >= 0 || errno != EEXIST)
			return fd;
	}
	return -1;
}
int
mkstemp(char *t) {
	if (!on || !simActive) {
		REAL(mkstemp, int, char *)
		return real(t);
	}
	return mkTemp(t, 0, 0);
}
int
mkstemps(char *t, int s) {
	if (!on || !simActive) {
		REAL(mkstemps, int, char *, int)
		return real(t, s);
	}
	return mkTemp(t, s, 0);
}

pid_t
getpid(void) {
	if (!on || !simActive)
		return (pid_t)syscall(SYS_getpid);
	return simProc ? 1000 + atoi(simPrefix + 1) : 1000;
}

static char dlMessage[64];
void *
dlopen(const char *path, int fl) {
	static void *(*real)(const char *, int);
	if (!real)
		real = dlsym(RTLD_NEXT, "dlopen");
	if (!on || !simActive || !path)
		return real(path, fl);
	char p[MAXPATH];
	mapPath(path, p);
	fsYield("dlopen");
	dlMessage[0] = 0;
	if (fault("dlopen", 2, p)) {
		snprintf(dlMessage, sizeof dlMessage, "simulated: cannot allocate memory");
		return NULL;
	}
	return real(p, fl);
}
char *
dlerror(void) {
	static char *(*real)(void);
	if (!real)
		real = dlsym(RTLD_NEXT, "dlerror");
	char *r = real();
	if (on && simActive && dlMessage[0]) {
		static char m[64];
		strcpy(m, dlMessage);
		dlMessage[0] = 0;
		return m;
	}
	return r;
}

void
exit(int code) {
	static void (*real)(int) __attribute__((noreturn));
	if (!real)
		real = (void (*)(int))realSym("exit");
	if (simActive && !simProc) {
		simBareExit(code);
		simLog("exit %d", code);
		simEnd("exit");
	}
	if (simProc)
		simLog("exit %d", code);
	real(code);
	__builtin_unreachable();
}

/* what the code under test wants done when the process ends */
static struct { void (*f)(void *); void *arg; } ending[64];
static int nEnding;

int
__cxa_atexit(void (*f)(void *), void *arg, void *dso) {
	static int (*real)(void (*)(void *), void *, void *);
	if (simActive && !simProc) {
		if (nEnding == 64)
			return -1;
		ending[nEnding].f = f;
		ending[nEnding++].arg = arg;
		return 0;
	}
	if (!real)
		real = (int (*)(void (*)(void *), void *, void *))realSym("__cxa_atexit");
	return real(f, arg, dso);
}

/* (sim-atexit): the end of the process, as far as those handlers can tell */
static void
nAtexit(Cora *co, int label, Obj *R) {
	int n = nEnding;
	while (nEnding > 0) {
		nEnding--;
		ending[nEnding].f(ending[nEnding].arg);
	}
	coraReturn(co, makeNumber(n));
}

/* ---------- the C compiler ---------- */
static char *
slurp(const char *p, size_t *n) {
	int fd = rawOpen(p, O_RDONLY | O_CLOEXEC, 0);
	if (fd < 0)
		return NULL;
	size_t cap = 1 << 16, l = 0;
	char *b = malloc(cap);
	for (;;) {
		if (l + 4096 > cap)
			b = realloc(b, cap *= 2);
		ssize_t r = rawRead(fd, b + l, cap - l - 1);
		if (r <= 0)
			break;
		l += r;
	}
	rawClose(fd);
	b[l] = 0;
	*n = l;
	return b;
}

static bool
spew(const char *p, const char *b, size_t n, int mode) {
	int fd = rawOpen(p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, mode);
	if (fd < 0)
		return false;
	size_t d = 0;
	while (d < n) {
		ssize_t r = rawWrite(fd, b + d, n - d);
		if (r <= 0)
			break;
		d += r;
	}
	rawClose(fd);
	return d == n;
}

/* names of gensyms are addresses: number them, so that the same program has the same text */
static char *
canonical(const char *s, size_t n, size_t *outLen) {
	char *o = malloc(n * 2 + 64);
	size_t k = 0;
	char (*names)[24] = NULL;
	int nn = 0, cap = 0;
	for (size_t i = 0; i < n;) {
		bool start = i == 0 || !((s[i - 1] >= '0' && s[i - 1] <= '9') || (s[i - 1] >= 'a' && s[i - 1] <= 'z') ||
			(s[i - 1] >= 'A' && s[i - 1] <= 'Z'));
		size_t j = i + 1;
		if (start && s[i] == 'x') {
			while (j < n && s[j] >= '0' && s[j] <= '9')
				j++;
		}
		if (start && s[i] == 'x' && j - i >= 14 && j - i < 24) {
			char nm[24];
			memcpy(nm, s + i, j - i);
			nm[j - i] = 0;
			int q = 0;
			while (q < nn && strcmp(names[q], nm))
				q++;
			if (q == nn) {
				if (nn == cap)
					names = realloc(names, 24 * (cap = cap ? cap * 2 : 64));
				strcpy(names[nn++], nm);
			}
			k += sprintf(o + k, "xg%012d", q);
			i = j;
			continue;
		}
		o[k++] = s[i++];
	}
	free(names);
	o[k] = 0;
	*outLen = k;
	return o;
}

static uint64_t
fnv(const char *p, size_t n, uint64_t h) {
	for (size_t i = 0; i < n; i++)
		h = (h ^ (unsigned char)p[i]) * 0x100000001b3ULL;
	return h;
}

static int
realCompile(const char *cfile, const char *so) {
	char cmd[4096];
	char src[700];
	snprintf(src, sizeof src, "%s/cora", simScratch);
	snprintf(cmd, sizeof cmd, "gcc -w -shared -I%s/src -fPIC %s -o %s -ldl -lm -L%s/src -lcora >%s.log 2>&1", src, cfile, so, src, so);
	pid_t pid = (pid_t)syscall(SYS_fork);
	if (pid == 0) {
		sigset_t none;
		sigemptyset(&none);
		sigprocmask(SIG_SETMASK, &none, NULL);
		char *av[] = {"sh", "-c", cmd, NULL};
		execv("/bin/sh", av);
		_exit(127);
	}
	int st = -1;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	return st;
}

/* the compiled form of a C text, from the cache */
static char *
compiled(const char *text, size_t n, size_t *len) {
	size_t cn;
	char *c = canonical(text, n, &cn);
	char dir[700], base[760], f[800], t[800];
	snprintf(dir, sizeof dir, "%s/socache", simScratch);
	rawMkdir(dir);
	snprintf(base, sizeof base, "%s/%016llx%016llx", dir, (unsigned long long)fnv(c, cn, 0xcbf29ce484222325ULL),
		(unsigned long long)fnv(c, cn, 0x1234567ULL));
	snprintf(f, sizeof f, "%s.fail", base);
	if (syscall(SYS_faccessat, AT_FDCWD, f, F_OK) == 0) {
		free(c);
		return NULL;
	}
	snprintf(f, sizeof f, "%s.so", base);
	char *r = slurp(f, len);
	if (!r) {
		int pid = (int)syscall(SYS_getpid);
		snprintf(t, sizeof t, "%s-%d.c", base, pid);
		char o[840];
		snprintf(o, sizeof o, "%s-%d.o", base, pid);
		spew(t, c, cn, 0644);
		int st = realCompile(t, o);
		rawUnlink(t);
		if (st == 0 && syscall(SYS_faccessat, AT_FDCWD, o, F_OK) == 0) {
			rawRename(o, f);
			r = slurp(f, len);
			if (cfgInt("nocache", 0))
				rawUnlink(f);
		} else {
			snprintf(f, sizeof f, "%s.fail", base);
			spew(f, "", 0, 0644);
			if (getenv("SIM_KEEPFAIL"))
				spew("/tmp/simfail.c", c, cn, 0644);
		}
		char lg[860];
		snprintf(lg, sizeof lg, "%s.log", o);
		rawUnlink(lg);
	}
	free(c);
	return r;
}

static int
compilerRun(const char *cfile, const char *out) {
	char in[MAXPATH], o[MAXPATH];
	mapPath(cfile, in);
	mapPath(out, o);
	if (refuse("cc -o", o))
		return 256;
	int f = fault("cc", 5, o);
	if (f == 1) {
		errno = EAGAIN;
		return -1;
	}
	if (f == 2)
		return 256;
	size_t n = 0, len = 0;
	char *text = slurp(in, &n);
	if (!text)
		return 256;
	simLog("cc");
	fsYield("cc-read");
	char *so = compiled(text, n, &len);
	free(text);
	simStat(so ? "cc" : "cc-error", 1);
	if (!so) {
		simLog("cc-error");
		return 256;
	}
	/* like the linker: a new file, written in steps */
	rawUnlink(o);
	int fd = rawOpen(o, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0755);
	if (fd < 0) {
		free(so);
		return 256;
	}
	size_t d = 0;
	int steps = 3;
	for (int i = 0; i <= steps; i++) {
		setTime(o);
		fsYield("cc-write");
		if (i == steps)
			break;
		if (f == 3 || f == 4) { /* it dies half way */
			if (i == 1 + (f == 4)) {
				rawClose(fd);
				free(so);
				return f == 3 ? 9 : 256;
			}
		}
		size_t to = i == steps - 1 ? len : len * (i + 1) / steps;
		while (d < to) {
			ssize_t r = rawWrite(fd, so + d, to - d);
			if (r <= 0)
				break;
			d += r;
		}
	}
	rawClose(fd);
	setTime(o);
	free(so);
	return 0;
}

int
system(const char *cmd) {
	if (!on || !simActive) {
		REAL(system, int, const char *)
		return real(cmd);
	}
	fsYield("system");
	char *copy = dupStr(cmd), *save = NULL, *cfile = NULL, *out = NULL, *first = NULL;
	for (char *t = strtok_r(copy, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
		size_t l = strlen(t);
		if (l > 2 && (t[0] == '\'' || t[0] == '"') && t[l - 1] == t[0]) {
			t[l - 1] = 0;
			t++;
			l -= 2;
		}
		if (!first)
			first = t;
		if (!strcmp(t, "-o"))
			out = strtok_r(NULL, " ", &save);
		else if (l > 2 && !strcmp(t + l - 2, ".c"))
			cfile = t;
	}
	if (out) {
		size_t l = strlen(out);
		if (l > 2 && (out[0] == '\'' || out[0] == '"')) {
			out[l - 1] = 0;
			out++;
		}
	}
	int r;
	if (cfile && out)
		r = compilerRun(cfile, out);
	else { /* no other program is run */
		int f = fault("exec", 4, "");
		r = f == 0 ? 0 : f == 1 ? -1 : f == 2 ? 256 : 9;
		simLog("exec %s -> %d", cmd, r);
	}
	free(copy);
	fsYield("system-end");
	return r;
}

/* bytes both the program and the judge can name: a place in one fixed table */
enum { genSize = 1 << 20 };
static char *
genData(long seed) {
	static char *t;
	if (!t) {
		t = malloc(genSize);
		uint32_t x = 12345;
		for (int i = 0; i < genSize; i++) {
			x = x * 1103515245u + 12345u;
			t[i] = (char)(x >> 16);
		}
	}
	return t + ((seed * 97) & (genSize / 2 - 1));
}

/* a pipe from or to a program that echoes its command line, or keeps what it reads */
struct pp {
	char *text;
	size_t len, pos;
	bool write;
	int status;
	FILE *f;
};
static struct pp *pipes[64];
static ssize_t
ppRead(void *cookie, char *buf, size_t n) {
	struct pp *c = cookie;
	fsYield("pipe-read");
	if (fault("read", 2, "pipe")) {
		errno = EIO;
		return -1;
	}
	if (n > 1 && simDecide(S_FS, 2, (int)cfgInt("p_short", 0), "short-read"))
		n = 1 + simChoose(S_FS, n > 200 ? 200 : (int)n, NULL);
	if (n > c->len - c->pos)
		n = c->len - c->pos;
	memcpy(buf, c->text + c->pos, n);
	c->pos += n;
	return n;
}
static ssize_t
ppWrite(void *cookie, const char *buf, size_t n) {
	struct pp *c = cookie;
	fsYield("pipe-write");
	if (fault("write", 2, "pipe")) {
		errno = EPIPE;
		return 0;
	}
	c->text = realloc(c->text, c->len + n + 1);
	memcpy(c->text + c->len, buf, n);
	c->len += n;
	return n;
}
FILE *
popen(const char *cmd, const char *type) {
	if (!on || !simActive) {
		REAL(popen, FILE *, const char *, const char *)
		return real(cmd, type);
	}
	fsYield("popen");
	int f = fault("popen", 3, "");
	if (f == 1) {
		errno = EAGAIN;
		return NULL;
	}
	struct pp *c = calloc(1, sizeof *c);
	c->write = type[0] == 'w';
	c->status = f == 2 ? 3 * 256 : 0;
	long gn, gs;
	if (!c->write && sscanf(cmd, "gen %ld %ld", &gn, &gs) == 2 && gn >= 0 && gn < genSize / 2) {
		c->text = malloc(gn + 1);
		memcpy(c->text, genData(gs), gn);
		c->len = gn;
	} else {
		c->text = dupStr(c->write ? "" : cmd);
		c->len = strlen(c->text);
	}
	cookie_io_functions_t io = {c->write ? NULL : ppRead, c->write ? ppWrite : NULL, NULL, NULL};
	c->f = fopencookie(c, type, io);
	int bs = (int)cfgInt("bufsize", 4096);
	setvbuf(c->f, __libc_malloc(bs), _IOFBF, bs);
	for (int i = 0; i < 64; i++)
		if (!pipes[i]) {
			pipes[i] = c;
			simLog("popen %d %s", c->write, cmd);
			return c->f;
		}
	simEnd("pipes");
}
int
pclose(FILE *fp) {
	if (!on || !simActive) {
		REAL(pclose, int, FILE *)
		return real(fp);
	}
	fsYield("pclose");
	for (int i = 0; i < 64; i++)
		if (pipes[i] && pipes[i]->f == fp) {
			struct pp *c = pipes[i];
			pipes[i] = NULL;
			int fl = fclose(fp);
			simLog("pclose %d %d %08x:%zu", c->write, c->status, (unsigned)fnv(c->text, c->len, 0x811c9dc5), c->len);
			return c->status ? c->status : fl;
		}
	simLog("!pclose of what is not a pipe");
	return -1;
}

/* ---------- coordinator ---------- */
struct proc {
	pid_t pid;
	int to, from;
	int idx;
	bool alive;
};
static struct proc procs[MAXPROC];
static int nprocs;

struct edit {
	char *path, *kind, *tag, *text;
	size_t len;
	int step;
};

static void
mkParents(const char *p) {
	char b[MAXPATH];
	snprintf(b, sizeof b, "%s", p);
	for (char *q = b + rootLen + 1; *q; q++)
		if (*q == '/') {
			*q = 0;
			rawMkdir(b);
			*q = '/';
		}
}

static bool
parseEdit(const char *op, struct edit *e) { /* edit <path> <kind> <tag> <hex> */
	char *c = dupStr(op), *s = NULL;
	strtok_r(c, " ", &s);
	e->path = strtok_r(NULL, " ", &s);
	e->kind = strtok_r(NULL, " ", &s);
	e->tag = strtok_r(NULL, " ", &s);
	char *hex = strtok_r(NULL, " ", &s);
	e->step = 0;
	e->len = hex ? strlen(hex) / 2 : 0;
	e->text = malloc(e->len + 1);
	for (size_t i = 0; i < e->len; i++) {
		unsigned v;
		sscanf(hex + 2 * i, "%2x", &v);
		e->text[i] = (char)v;
	}
	return e->path && e->kind && e->tag && !strstr(e->path, "..");
}

/* one step of an edit; true when it is complete */
static bool
editStep(struct edit *e) {
	char p[MAXPATH], t[MAXPATH];
	simClock += 2 + simDraw(S_CLOCK) % 50;
	snprintf(p, sizeof p, "%s/%s", root, e->path);
	snprintf(t, sizeof t, "%s.edit", p);
	mkParents(p);
	if (!strcmp(e->kind, "rm")) {
		rawUnlink(p);
		simLog("edit %s rm %s", e->path, e->tag);
		return true;
	}
	if (!strcmp(e->kind, "inplace")) {
		size_t half = e->len / 2;
		if (e->step == 0)
			simLog("edit-begin %s %s", e->path, e->tag);
		int fd = rawOpen(p, O_WRONLY | O_CREAT | O_CLOEXEC | (e->step == 0 ? O_TRUNC : O_APPEND), 0644);
		if (e->step == 1)
			rawWrite(fd, e->text, half);
		if (e->step == 2)
			rawWrite(fd, e->text + half, e->len - half);
		rawClose(fd);
		setTime(p);
		if (e->step++ < 2)
			return false;
	} else {
		spew(t, e->text, e->len, 0644);
		setTime(t);
		rawRename(t, p);
	}
	simStat("edits", 1);
	simLog("edit %s %s %s", e->path, e->kind, e->tag);
	return true;
}

static void
procMain(struct proc *pr) {
	simProc = true;
	snprintf(simPrefix, sizeof simPrefix, "p%d ", pr->idx);
	simTimers();
	char c;
	if (rawRead(fromCoord, &c, 1) != 1)
		syscall(SYS_exit_group, 76);
	if (crashNow())
		die("start");
	simRunMain();
	simLog("done");
	exit(0);
}

static void
startProc(const char *op) {
	if (nprocs >= MAXPROC)
		return;
	int a[2], b[2];
	if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
		simEnd("pipes");
	struct proc *pr = &procs[nprocs++];
	pr->idx = ++fss->nproc;
	procOp = op;
	pid_t pid = (pid_t)syscall(SYS_fork);
	if (pid == 0) {
		toCoord = a[1];
		fromCoord = b[0];
		rawClose(a[0]);
		rawClose(b[1]);
		for (int i = 0; i < nprocs - 1; i++)
			if (procs[i].alive) {
				rawClose(procs[i].to);
				rawClose(procs[i].from);
			}
		procMain(pr);
	}
	rawClose(a[1]);
	rawClose(b[0]);
	pr->pid = pid;
	pr->from = a[0];
	pr->to = b[1];
	pr->alive = true;
	simStat("processes", 1);
	simLog("start p%d", pr->idx);
}

static void
reap(struct proc *pr) {
	int st = 0;
	while (waitpid(pr->pid, &st, 0) < 0 && errno == EINTR)
		;
	pr->alive = false;
	rawClose(pr->to);
	rawClose(pr->from);
	if (WIFSIGNALED(st))
		simLog("end p%d signal %d", pr->idx, WTERMSIG(st));
	else
		simLog("end p%d %d", pr->idx, WEXITSTATUS(st));
}

static void
runPhase(char **lines, int n) {
	struct edit edits[64];
	int ne = 0, cur = 0;
	nprocs = 0;
	fss->calm = 0;
	for (int i = 0; i < n; i++) {
		if (!strncmp(lines[i], "edit ", 5) && ne < 64 && parseEdit(lines[i], &edits[ne]))
			ne++;
		else if (!strcmp(lines[i], "calm"))
			fss->calm = 1;
	}
	simLog("phase%s", fss->calm ? " calm" : "");
	for (int i = 0; i < n; i++)
		if (!strncmp(lines[i], "proc ", 5))
			startProc(lines[i] + 5);
	int ed = 0, last = -1;
	for (;;) {
		int cand[MAXPROC + 1], nc = 0;
		/* the one that ran last comes last: it asked for the switch */
		for (int i = 0; i < nprocs; i++)
			if (procs[i].alive && i != last)
				cand[nc++] = i;
		if (ed < ne)
			cand[nc++] = -1;
		if (last >= 0 && procs[last].alive)
			cand[nc++] = last;
		if (nc == 0)
			break;
		int k = nc == 1 ? 0 : simChoose(S_SYS, nc, NULL);
		if (cand[k] == -1) {
			if (editStep(&edits[ed]))
				ed++;
			if (nprocs == 0)
				simClock += simDraw(S_CLOCK) % 3000000;
			continue;
		}
		struct proc *pr = &procs[cand[k]];
		last = cand[k];
		fss->others = -1 + (ed < ne);
		for (int i = 0; i < nprocs; i++)
			fss->others += procs[i].alive;
		fss->canCrash = 1;
		char c = 'g';
		if (rawWrite(pr->to, &c, 1) != 1 || rawRead(pr->from, &c, 1) != 1)
			reap(pr);
		simTick();
	}
	(void)cur;
	simClock += 1000 + simDraw(S_CLOCK) % 2000000;
}

/* every file below root/dir, for the checks on what is left */
static void
listFiles(const char *dir) {
	char d[MAXPATH];
	snprintf(d, sizeof d, "%s/%s", root, dir);
	struct dirent **nl;
	int n = scandir(d, &nl, NULL, alphasort);
	for (int i = 0; i < n; i++) {
		char *nm = nl[i]->d_name;
		if (strcmp(nm, ".") && strcmp(nm, "..")) {
			char sub[MAXPATH], full[MAXPATH];
			snprintf(sub, sizeof sub, "%s/%s", dir, nm);
			snprintf(full, sizeof full, "%s/%s", root, sub);
			struct stat st;
			if (syscall(SYS_newfstatat, AT_FDCWD, full, &st, AT_SYMLINK_NOFOLLOW) == 0) {
				if (S_ISDIR(st.st_mode))
					listFiles(sub);
				else if (S_ISREG(st.st_mode))
					simLog("file %s", sub);
			}
		}
		free(nl[i]);
	}
	if (n >= 0)
		free(nl);
}

void
fsCoordinate(void) {
	char *lines[256];
	int n = 0, total = planOps();
	for (int i = 0; i <= total; i++) {
		const char *op = i < total ? planOp(i) : "phase";
		if (!strcmp(op, "phase")) {
			if (n)
				runPhase(lines, n);
			n = 0;
			if (i < total && 0)
				break;
		} else if (n < 256)
			lines[n++] = (char *)op;
	}
	listFiles("tmp");
	listFiles("cp/pkg/m");
	listFiles("work");
}

/* ---------- natives ---------- */
static void
nItems(Cora *co, int label, Obj *R) { /* what this process has to do */
	coraReturn(co, procOp ? opToList(co, procOp) : Nil);
}

static void
nHex(Cora *co, int label, Obj *R) { /* (fs-file name): log what is in the file */
	char p[MAXPATH];
	mapPath(stringStr(R[1]).str, p);
	size_t n = 0;
	char *b = slurp(p, &n);
	if (!b)
		simLog("content %s none", stringStr(R[1]).str);
	else if (n <= 64) {
		char h[140];
		for (size_t i = 0; i < n; i++)
			sprintf(h + 2 * i, "%02x", (unsigned char)b[i]);
		h[2 * n] = 0;
		simLog("content %s %zu %08x %s", stringStr(R[1]).str, n, (unsigned)fnv(b, n, 0x811c9dc5), h);
	} else
		simLog("content %s %zu %08x", stringStr(R[1]).str, n, (unsigned)fnv(b, n, 0x811c9dc5));
	free(b);
	coraReturn(co, Nil);
}

static void
nPut(Cora *co, int label, Obj *R) { /* (fs-put name bytes): make a file, past the simulation */
	char p[MAXPATH];
	mapPath(stringStr(R[1]).str, p);
	if (inside(p)) {
		mkParents(p);
		spew(p, bytesData(R[2]), bytesLen(R[2]), 0644);
		setTime(p);
	}
	coraReturn(co, Nil);
}

static void
nHash(Cora *co, int label, Obj *R) { /* (fs-hash bytes) logs length and hash */
	if (!isBytes(R[1]))
		simDumpLog("value", R[1]);
	else
		simLog("value %d %08x", bytesLen(R[1]), (unsigned)fnv(bytesData(R[1]), bytesLen(R[1]), 0x811c9dc5));
	coraReturn(co, Nil);
}

static void
nGen(Cora *co, int label, Obj *R) { /* (fs-gen n seed) */
	coraReturn(co, makeString(co->gc, genData((long)fixnum(R[2])), (int)fixnum(R[1])));
}

static void
nValue(Cora *co, int label, Obj *R) { /* length and hash of bytes; other values as they are */
	if (!isBytes(R[1])) {
		coraReturn(co, R[1]);
		return;
	}
	Obj h = makeNumber((unsigned)fnv(bytesData(R[1]), bytesLen(R[1]), 0x811c9dc5));
	coraReturn(co, makeCons(co->gc, makeNumber(bytesLen(R[1])), makeCons(co->gc, h, Nil)));
}

/* what the program and the runtime write on standard output */
static char *outText;
static size_t outLen;
static ssize_t
outWrite(void *cookie, const char *buf, size_t n) {
	outText = realloc(outText, outLen + n + 1);
	memcpy(outText + outLen, buf, n);
	outLen += n;
	return n;
}

void
fsPutFile(const char *name, const char *text, size_t n) {
	char p[MAXPATH];
	snprintf(p, sizeof p, "%s/work/%s", root, name);
	int fd = rawOpen(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	while (n > 0) {
		ssize_t w = syscall(SYS_write, fd, text, n);
		if (w <= 0)
			break;
		text += w;
		n -= w;
	}
	syscall(SYS_close, fd);
}

void
fsStdout(void) { /* log what standard output got */
	fflush(stdout);
	char h[2001];
	for (size_t i = 0; i < outLen; i++) {
		sprintf(h + 2 * (i % 1000), "%02x", (unsigned char)outText[i]);
		if (i % 1000 == 999 || i + 1 == outLen)
			simLog("stdout %s", h);
	}
}

static void
nStdout(Cora *co, int label, Obj *R) {
	fsStdout();
	coraReturn(co, Nil);
}

static void
nDump(Cora *co, int label, Obj *R) { /* log a value in full */
	char *b;
	size_t n;
	simDump(R[1], &b, &n);
	if (n > 0 && b[n - 1] == ' ')
		n--;
	size_t k = 0;
	while (n - k > 3000) { /* cut at a space, not inside a character */
		size_t m = 3000;
		while (m > 1 && b[k + m - 1] != ' ')
			m--;
		simLog("part %.*s", (int)m, b + k);
		k += m;
	}
	simLog("read %.*s", (int)(n - k), b + k);
	free(b);
	coraReturn(co, Nil);
}

/* (fs-trace name): what a trace file says. Logs "trace none" | "trace bad what" |
 * "trace calls hash first..." with the calls of functions with a # in their name, in order. */
static void
nTrace(Cora *co, int label, Obj *R) {
	char p[MAXPATH];
	size_t n;
	mapPath(stringStr(R[1]).str, p);
	char *d = inside(p) ? slurp(p, &n) : NULL;
	coraReturn(co, Nil);
	if (!d) {
		simLog("trace none");
		return;
	}
	char head[1200] = "", *bad = NULL;
	size_t pos = 0, hl = 0;
	int calls = 0, depth = 0, cap = 0;
	uint32_t h = 0x811c9dc5;
	uint64_t last = 0;
	struct { char *s; int n; } *st = NULL;
	while (!bad && pos < n) {
		unsigned char *e = (unsigned char *)d + pos;
		uint64_t ts;
		if (n - pos < 16 || n - pos - 16 < e[1]) {
			bad = "cut off";
			break;
		}
		memcpy(&ts, e + 8, 8);
		if (ts < last)
			bad = "time goes back";
		if (memcmp(e + 2, d + 2, 2))
			bad = "another thread";
		if (e[4] | e[5] | e[6] | e[7])
			bad = "a begin or an end with an id";
		last = ts;
		char *name = (char *)e + 16;
		if (e[0] == 'B') {
			if (depth == cap)
				st = realloc(st, (cap = cap * 2 + 64) * sizeof *st);
			st[depth].s = name;
			st[depth++].n = e[1];
			if (memchr(name, '#', e[1])) {
				calls++;
				h = fnv(name, e[1], h);
				h = fnv("\n", 1, h);
				if (hl + e[1] + 2 < sizeof head && calls <= 40)
					hl += sprintf(head + hl, " %.*s", e[1], name);
			}
		} else if (e[0] == 'E') {
			if (!depth || st[depth - 1].n != e[1] || memcmp(st[depth - 1].s, name, e[1]))
				bad = "an end without its beginning";
			else
				depth--;
		} else
			bad = "unknown event";
		pos += 16 + e[1];
	}
	if (!bad && depth)
		bad = "a beginning without its end";
	if (bad)
		simLog("trace bad %s", bad);
	else
		simLog("trace %d %08x%s", calls, h, head);
	free(st);
	free(d);
}

static void
nBound(Cora *co, int label, Obj *R) {
	coraReturn(co, symbolGet(co, R[1]) != Undef ? True : False);
}

static void
nPath(Cora *co, int label, Obj *R) { /* the full path of a file of this run */
	char p[MAXPATH];
	snprintf(p, sizeof p, "%s/%s", root, stringStr(R[1]).str);
	coraReturn(co, makeCString(co->gc, p));
}

static void
nOpenFiles(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber(openFiles));
}

static struct registerEntry entries[] = {{"fs-items", nItems, 0}, {"fs-content", nHex, 1}, {"fs-put", nPut, 2},
	{"fs-hash", nHash, 1}, {"fs-open-files", nOpenFiles, 0}, {"fs-bound", nBound, 1}, {"fs-trace", nTrace, 1}, {"sim-atexit", nAtexit, 0},
	{"fs-path", nPath, 1}, {"fs-gen", nGen, 2}, {"fs-value", nValue, 1}, {"fs-stdout", nStdout, 0}, {"fs-dump", nDump, 1}, {NULL, NULL, 0}};

void
fsRegister(Cora *co) {
	simReg(co, entries);
}

static void
removeTree(const char *p) {
	if (!strncmp(p, simScratch, strlen(simScratch)) && strstr(p, "/f-")) {
		struct stat st;
		if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW))
			return;
		if (!S_ISDIR(st.st_mode)) {
			rawUnlink(p);
			return;
		}
		DIR *d = opendir(p);
		if (d) {
			struct dirent *e;
			while ((e = readdir(d)))
				if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
					char s[MAXPATH];
					snprintf(s, sizeof s, "%s/%s", p, e->d_name);
					removeTree(s);
				}
			closedir(d);
		}
		syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
	}
}

void
fsRunStart(void) {
	on = cfgInt("fs", 0);
	if (!on)
		return;
	fss = mmap(NULL, sizeof *fss, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	rootLen = snprintf(root, sizeof root, "%s/f-%07d", simScratch, (int)syscall(SYS_getpid));
	char b[MAXPATH], t[MAXPATH];
	const char *dirs[] = {"", "/tmp", "/work", "/cp", "/cp/pkg", "/cp/pkg/m"};
	for (unsigned i = 0; i < sizeof dirs / sizeof *dirs; i++) {
		snprintf(b, sizeof b, "%s%s", root, dirs[i]);
		rawMkdir(b);
	}
	snprintf(b, sizeof b, "%s/cp/pkg/cora", root);
	snprintf(t, sizeof t, "%s/cora", simScratch);
	syscall(SYS_symlinkat, t, AT_FDCWD, b);
	int form = (int)cfgInt("cpform", 0);
	if (form == 3) { /* the default below the home directory */
		homeLen = snprintf(home, sizeof home, "%s/home/.local/share/cora/", root);
		unsetenv("CORAPATH");
	} else {
		size_t k = snprintf(b, sizeof b, "%s/", root);
		for (int i = 0; form == 2 && i < 220; i++)
			k += snprintf(b + k, sizeof b - k, "./");
		snprintf(b + k, sizeof b - k, form == 1 ? "cp" : "cp/");
		setenv("CORAPATH", b, 1);
	}
	signal(SIGPIPE, SIG_IGN);
	if (cfgInt("stdout", 0)) {
		cookie_io_functions_t io = {NULL, outWrite, NULL, NULL};
		fflush(stdout);
		stdout = fopencookie(NULL, "w", io);
		setvbuf(stdout, __libc_malloc(8192), _IOFBF, 8192);
	}
}

void
fsRunEnd(void) {
	if (!on || simProc)
		return;
	for (int i = 0; i < nprocs; i++)
		if (procs[i].alive)
			kill(procs[i].pid, SIGKILL);
	on = false;
	removeTree(root);
}
