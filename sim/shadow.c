/* Shadow heap: tracks every GC allocation, drives the GC schedule, checks the
 * heap invariants at every flip, and dumps object graphs canonically. */
#define _GNU_SOURCE
#include "vsim.h"

void *__libc_realloc(void *, size_t);
#include "gc.h"
#include "sim.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define REGION_BASE 0x100000000000ULL
#define REGION_SIZE (64ULL << 30)
static uint8_t *bitmap; /* 1 bit per 8 bytes: allocated */
static uint8_t *vismap; /* 1 bit per 8 bytes: visited */
static uint64_t regionTop = REGION_BASE;
static int arenas, arenasAtStart, arenaMax = 60;

static inline bool inRegion(uint64_t a) { return a >= REGION_BASE && a < REGION_BASE + REGION_SIZE; }

void *
mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
	static void *(*real)(void *, size_t, int, int, int, off_t);
	if (!real)
		real = realSym("mmap");
	if (bitmap && addr == NULL && (flags & MAP_ANONYMOUS) && len >= (1 << 20) && regionTop + len < REGION_BASE + REGION_SIZE) {
		arenas++;
		simStat("arena", 1);
		if (simActive && arenas - arenasAtStart > arenaMax) {
			simLog("!memory: %d arenas mapped in one run", arenas - arenasAtStart);
			simEnd("memory");
		}
		void *p = real((void *)regionTop, len, prot, flags | MAP_NORESERVE | MAP_FIXED_NOREPLACE, fd, off);
		if (p != MAP_FAILED)
			regionTop += (len + 0xffff) & ~0xffffULL;
		return p;
	}
	return real(addr, len, prot, flags, fd, off);
}

/* bitmap operations on a range of 8-byte granules */
static bool
rangeAnyBit(uint64_t a, uint64_t n) {
	uint64_t g = (a - REGION_BASE) >> 3, e = (a + n - REGION_BASE + 7) >> 3;
	while (g < e && (g & 7)) {
		if (bitmap[g >> 3] & (1 << (g & 7)))
			return true;
		g++;
	}
	while (g + 8 <= e) {
		if (bitmap[g >> 3])
			return true;
		g += 8;
	}
	while (g < e) {
		if (bitmap[g >> 3] & (1 << (g & 7)))
			return true;
		g++;
	}
	return false;
}
static void
rangeSet(uint64_t a, uint64_t n, bool v) {
	uint64_t g = (a - REGION_BASE) >> 3, e = (a + n - REGION_BASE + 7) >> 3;
	while (g < e && (g & 7)) {
		if (v)
			bitmap[g >> 3] |= (1 << (g & 7));
		else
			bitmap[g >> 3] &= ~(1 << (g & 7));
		g++;
	}
	if (g + 8 <= e) {
		uint64_t k = (e - g) / 8;
		memset(bitmap + (g >> 3), v ? 0xff : 0, k);
		g += k * 8;
	}
	while (g < e) {
		if (v)
			bitmap[g >> 3] |= (1 << (g & 7));
		else
			bitmap[g >> 3] &= ~(1 << (g & 7));
		g++;
	}
}

/* registry */
struct ent { uint64_t addr; uint32_t size; uint32_t serial; };
struct reg { struct ent *e; size_t n, cap; };
static struct reg young, old;
#define PAGES (1u << 22)
static uint8_t pagemap[PAGES / 8]; /* 4 KB pages of the heap handed out in this run */
static long pagesTouched;
static uint32_t serial, serialAtStart;
static uint64_t liveBytes, totBytes, totObjs;
static long flips, safePoints;
static bool poison;
static int reachEvery, gcMode, gcP, gcStepsCfg, burst;
static long stepCap = 60000000;

static void
regAdd(struct reg *r, struct ent e) {
	if (r->n == r->cap)
		r->e = __libc_realloc(r->e, sizeof *r->e * (r->cap = r->cap ? r->cap * 2 : 4096));
	r->e[r->n++] = e;
}

static Obj asObj(uint64_t a) { return (Obj)(OBJ_MASK | ((uint64_t)TAG_PTR << 48) | a); }

void *
gcAlloc(GC *gc, int size) {
	static void *(*real)(GC *, int);
	if (!real)
		real = realSym("gcAlloc");
	void *p = real(gc, size);
	uint64_t a = (uint64_t)p;
	if (simActive) {
		if (p == NULL || (a & 7)) {
			simLog("!alloc of %d bytes returned %p", size, p);
			simEnd("alloc");
		}
		if (!inRegion(a) || a + size > regionTop) {
			simLog("!alloc of %d bytes lies outside the arenas", size);
			simEnd("alloc");
		}
		if (rangeAnyBit(a, size)) {
			uint32_t osz = 0;
			for (int k = 0; k < 2; k++) {
				struct reg *r = k ? &old : &young;
				for (size_t i = 0; i < r->n; i++)
					if (r->e[i].addr < a + size && a < r->e[i].addr + r->e[i].size)
						osz = r->e[i].size;
			}
			simLog("!alloc of %d bytes overlaps a live object of %u bytes", size, osz);
			simEnd("overlap");
		}
	}
	if (inRegion(a)) {
		rangeSet(a, size, true);
		if (simActive) {
			uint64_t g = (a - REGION_BASE) >> 12, e = (a + size - 1 - REGION_BASE) >> 12;
			for (; g <= e && g < PAGES; g++)
				if (!(pagemap[g >> 3] & (1 << (g & 7)))) {
					pagemap[g >> 3] |= 1 << (g & 7);
					pagesTouched++;
				}
		}
		regAdd(&young, (struct ent){a, (uint32_t)size, serial++});
		liveBytes += size;
		totBytes += size;
		totObjs++;
	}
	return p;
}

static void
sweepReg(GC *gc, struct reg *r) {
	size_t j = 0;
	for (size_t i = 0; i < r->n; i++) {
		struct ent e = r->e[i];
		if (coraSimGCLive(gc, asObj(e.addr))) {
			r->e[j++] = e;
			continue;
		}
		rangeSet(e.addr, e.size, false);
		liveBytes -= e.size;
		scmHead *h = (scmHead *)e.addr;
		if (poison && simActive && h->type != scmHeadUnused) {
			uint64_t b = e.addr + sizeof(scmHead), end = e.addr + e.size;
			if (end - b > (1 << 16))
				end = b + (1 << 16);
			memset((void *)b, 0x5A, end - b);
		}
	}
	r->n = j;
}

/* --- reachability --- */
static uint64_t *stk;
static size_t stkN, stkCap;
static uint64_t *visList;
static size_t visN, visCap;
static uint64_t reachBytes;
static GC *curGC;

static bool
visit(uint64_t a) {
	uint64_t g = (a - REGION_BASE) >> 3;
	if (vismap[g >> 3] & (1 << (g & 7)))
		return false;
	vismap[g >> 3] |= 1 << (g & 7);
	if (visN == visCap)
		visList = __libc_realloc(visList, 8 * (visCap = visCap ? visCap * 2 : 4096));
	visList[visN++] = a;
	if (stkN == stkCap)
		stk = __libc_realloc(stk, 8 * (stkCap = stkCap ? stkCap * 2 : 4096));
	stk[stkN++] = a;
	return true;
}

static const char *tname[] = {"unused", "bool", "symbol", "cons", "bytes", "vector", "cont", "native"};

static void
edge(Obj o, const char *from) {
	if (!isScmHead(o))
		return;
	uint64_t a = (uint64_t)ptr(o);
	if (!inRegion(a) || !coraSimGCLive(curGC, o)) {
		simLog("!gc: object reachable from a %s was reclaimed while reachable (flip %ld)", from, flips);
		simEnd("gc-lost");
	}
	visit(a);
}

static void
drain(void) {
	while (stkN) {
		scmHead *h = (scmHead *)stk[--stkN];
		reachBytes += h->size;
		switch (h->type) {
		case scmHeadCons: {
			struct scmCons *c = (void *)h;
			edge(c->car, "cons");
			edge(c->cdr, "cons");
			break;
		}
		case scmHeadVector: {
			struct scmVector *v = (void *)h;
			for (int i = 0; i < v->size; i++)
				edge(v->data[i], "vector");
			break;
		}
		case scmHeadSymbol:
			edge(((struct scmSymbol *)h)->value, "gensym");
			break;
		case scmHeadNative: {
			struct scmNative *n = (void *)h;
			for (int i = 0; i < n->captured; i++)
				edge(n->data[i], "closure");
			break;
		}
		case scmHeadUnused:
			simLog("!gc: reachable object has type unused");
			simEnd("gc-lost");
		default:
			break;
		}
	}
}

static void
softRoots(Obj *p, Obj *e) {
	for (; p < e; p++) {
		Obj o = *p;
		if (!isScmHead(o))
			continue;
		uint64_t a = (uint64_t)ptr(o);
		if (!inRegion(a) || a >= regionTop || !coraSimGCLive(curGC, o))
			continue;
		/* only exact object starts (a stale slot may point inside a reused block) */
		uint64_t g = (a - REGION_BASE) >> 3;
		if (!(bitmap[g >> 3] & (1 << (g & 7))))
			continue;
		scmHead *h = (scmHead *)a;
		if (h->type <= scmHeadUnused || h->type >= scmHeadMax || h->type == scmHeadBoolean)
			continue;
		int t = tag(o);
		if ((t == TAG_CONS) != (h->type == scmHeadCons) || (t == TAG_BYTES) != (h->type == scmHeadBytes) ||
			(t == TAG_NATIVE) != (h->type == scmHeadNative))
			continue; /* stale */
		visit(a);
	}
	drain();
}

static void
reachCheck(GC *gc, bool stacks) {
	Cora *co = simCo;
	curGC = gc;
	stkN = visN = 0;
	reachBytes = 0;
	for (int i = 0; i < vecLen(&co->globals); i++)
		edge(vecGet(&co->globals, i), "global");
	drain();
	if (stacks) {
		softRoots(&co->res, &co->res + 1);
		softRoots(co->ctx.bp, co->ctx.sp);
		for (int i = 0; i < vecLen(&co->callstack); i++) {
			Frame *f = vecRef(&co->callstack, i);
			softRoots(f->bp, f->sp);
		}
	}
	for (size_t i = 0; i < visN; i++) {
		uint64_t g = (visList[i] - REGION_BASE) >> 3;
		vismap[g >> 3] &= ~(1 << (g & 7));
	}
	simStat("reachcheck", 1);
}

static void
onFlip(GC *gc) {
	flips++;
	simStat("gc-cycle", 1);
	sweepReg(gc, &young);
	if (old.n)
		sweepReg(gc, &old);
	if (simActive && reachEvery > 0 && flips % reachEvery == 0)
		reachCheck(gc, cfgInt("reachstacks", 1));
}

static bool
onTrigger(bool due) {
	if (!simActive)
		return due;
	safePoints++;
	if (--stepCap < 0)
		simEnd("livelock");
	if (due)
		simStat("gc-natural", 1);
	int p = gcP;
	if (gcMode == 0)
		return due;
	if (gcMode == 2) {
		/* bursts: dense in some windows, rare in others */
		uint64_t w = (uint64_t)(safePoints / burst);
		p = ((w * 2654435761u + simSeed) >> 7 & 3) == 0 ? gcP : 1;
	}
	return simDecide(S_GC, 2, p, "gc-forced") || due;
}

static int
onSteps(int d) {
	if (!simActive)
		return d;
	if (--stepCap < 0)
		simEnd("livelock");
	return gcStepsCfg > 0 ? gcStepsCfg : d;
}

void
shadowInit(void) {
	static void *(*real)(void *, size_t, int, int, int, off_t);
	real = realSym("mmap");
	uint8_t *m = real(NULL, REGION_SIZE / 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	vismap = real(NULL, REGION_SIZE / 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED || vismap == MAP_FAILED) {
		fprintf(stderr, "simcora: shadow mmap failed\n");
		exit(3);
	}
	bitmap = m;
	coraSim.gcTrigger = onTrigger;
	coraSim.gcSteps = onSteps;
	coraSim.gcFlip = onFlip;
}

void
shadowRunStart(void) {
	poison = cfgInt("poison", 1);
	reachEvery = (int)cfgInt("reach", 16);
	gcMode = (int)cfgInt("gcmode", 1);
	gcP = (int)cfgInt("gcp", 20);
	gcStepsCfg = (int)cfgInt("gcsteps", 0);
	burst = (int)cfgInt("gcburst", 200);
	if (burst < 1)
		burst = 1;
	stepCap = cfgInt("stepcap", 60000000);
	arenaMax = (int)cfgInt("arenamax", 60);
	arenasAtStart = arenas;
	/* objects of the boot go to the old registry */
	for (size_t i = 0; i < young.n; i++)
		regAdd(&old, young.e[i]);
	young.n = 0;
	serialAtStart = serial;
	simStat("boot-objects", (long)old.n);
	flips = 0;
	totBytes = totObjs = 0;
}

/* (sim-gc-stat) => (flips live-young-bytes total-bytes arenas reachable-young?) */
static void
nGcStat(Cora *co, int label, Obj *R) {
	uint64_t ly = 0;
	for (size_t i = 0; i < young.n; i++)
		ly += young.e[i].size;
	Obj r = Nil;
	r = makeCons(co->gc, makeNumber(arenas - arenasAtStart), r);
	r = makeCons(co->gc, makeNumber((int64_t)totBytes), r);
	r = makeCons(co->gc, makeNumber((int64_t)ly), r);
	r = makeCons(co->gc, makeNumber(flips), r);
	coraReturn(co, r);
}
static void
nFlips(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber(flips));
}
static void
nSerial(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber(serial));
}
/* (sim-live-since lo hi): bytes still live of the objects allocated in [lo, hi) */
static void
nLiveSince(Cora *co, int label, Obj *R) {
	uint32_t lo = (uint32_t)fixnum(R[1]), hi = (uint32_t)fixnum(R[2]);
	uint64_t n = 0;
	for (size_t i = 0; i < young.n; i++)
		if (young.e[i].serial >= lo && young.e[i].serial < hi)
			n += young.e[i].size;
	coraReturn(co, makeNumber((int64_t)n));
}
static void
nTotBytes(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber((int64_t)totBytes));
}
static void
nArenas(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber(arenas - arenasAtStart));
}

static void
nPages(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber(pagesTouched));
}

/* bytes of the C heap in blocks of at most 64 KB that the code under test holds */
static void
nCheap(Cora *co, int label, Obj *R) {
	coraReturn(co, makeNumber((int64_t)heapSmall()));
}

static struct registerModule m = {NULL,
	{{"sim-gc-stat", nGcStat, 0}, {"sim-flips", nFlips, 0}, {"sim-serial", nSerial, 0},
		{"sim-live-since", nLiveSince, 2}, {"sim-tot-bytes", nTotBytes, 0}, {"sim-arenas", nArenas, 0}, {"sim-pages", nPages, 0}, {"sim-cheap", nCheap, 0},
		{NULL, NULL, 0}}};
void
shadowRegister(Cora *co) {
	simReg(co, m.entries);
}

/* ---------- canonical dump ---------- */
struct idmap { uint64_t *k; int *v; size_t cap, n; };
static int
idOf(struct idmap *m, uint64_t a, bool *isnew) {
	if (m->n * 2 >= m->cap) {
		size_t nc = m->cap ? m->cap * 2 : 256;
		uint64_t *k = calloc(nc, 8);
		int *v = calloc(nc, sizeof(int));
		for (size_t i = 0; i < m->cap; i++)
			if (m->k[i]) {
				size_t h = (m->k[i] * 0x9E3779B97F4A7C15ULL >> 20) & (nc - 1);
				while (k[h])
					h = (h + 1) & (nc - 1);
				k[h] = m->k[i];
				v[h] = m->v[i];
			}
		free(m->k);
		free(m->v);
		m->k = k;
		m->v = v;
		m->cap = nc;
	}
	size_t h = (a * 0x9E3779B97F4A7C15ULL >> 20) & (m->cap - 1);
	while (m->k[h]) {
		if (m->k[h] == a) {
			*isnew = false;
			return m->v[h];
		}
		h = (h + 1) & (m->cap - 1);
	}
	m->k[h] = a;
	m->v[h] = (int)m->n++;
	*isnew = true;
	return m->v[h];
}

void
simDump(Obj root, char **out, size_t *len) {
	FILE *f = open_memstream(out, len);
	struct idmap ids = {0};
	Obj *st = malloc(sizeof(Obj) * 64);
	size_t n = 0, cap = 64;
	long nodes = 0;
#define PUSH(o) do { if (n == cap) st = realloc(st, sizeof(Obj) * (cap *= 2)); st[n++] = (o); } while (0)
	PUSH(root);
	while (n) {
		Obj o = st[--n];
		if (++nodes > 3000000) {
			fprintf(f, "...");
			break;
		}
		if (isNumber(o)) {
			double d;
			memcpy(&d, &o, 8);
			if (d == (double)(long long)d)
				fprintf(f, "%lld ", (long long)d);
			else
				fprintf(f, "%.17g ", d);
			continue;
		}
		if (o == True || o == False || o == Nil || o == Undef) {
			fputs(o == True ? "T " : o == False ? "F " : o == Nil ? "N " : "U ", f);
			continue;
		}
		if (tag(o) == TAG_SYMBOL) {
			char b[256];
			symbolStr(o, b, 256);
			fputs("y:", f);
			for (char *q = b; *q; q++) {
				if ((unsigned char)*q <= ' ' || *q == '%' || *q == 127) fprintf(f, "%%%02x", (unsigned char)*q);
				else fputc(*q, f);
			}
			fputc(' ', f);
			continue;
		}
		if (tag(o) == TAG_COBJ) {
			fputs("cobj ", f);
			continue;
		}
		if (!isScmHead(o)) {
			fprintf(f, "?imm%llx ", (unsigned long long)o);
			continue;
		}
		uint64_t a = (uint64_t)ptr(o);
		if (simActive && (!inRegion(a) || a >= regionTop)) {
			fputs("?wild ", f);
			continue;
		}
		scmHead *h = ptr(o);
		if (h->type == scmHeadBytes) {
			struct scmBytes *b = (void *)h;
			if (b->len < 0 || (uint64_t)b->len + sizeof(*b) > h->size + 8u) {
				fprintf(f, "?badlen ");
				continue;
			}
			fputs("\"", f);
			for (int i = 0; i < b->len; i++)
				fprintf(f, "%02x", (unsigned char)b->data[i]);
			fputs("\" ", f);
			continue;
		}
		bool isnew;
		int id = idOf(&ids, a, &isnew);
		if (!isnew) {
			fprintf(f, "#%d ", id);
			continue;
		}
		switch (h->type) {
		case scmHeadCons:
			fputs("c ", f);
			PUSH(((struct scmCons *)h)->cdr);
			PUSH(((struct scmCons *)h)->car);
			break;
		case scmHeadVector: {
			struct scmVector *v = (void *)h;
			if (v->size < 0 || (uint64_t)v->size * 8 > h->size) {
				fprintf(f, "?badvec ");
				break;
			}
			fprintf(f, "v%d ", v->size);
			for (int i = v->size - 1; i >= 0; i--)
				PUSH(v->data[i]);
			break;
		}
		case scmHeadSymbol:
			fputs("g ", f);
			PUSH(((struct scmSymbol *)h)->value);
			break;
		case scmHeadNative: {
			struct scmNative *nv = (void *)h;
			fprintf(f, "f%d ", nv->required);
			break;
		}
		case scmHeadContinuation:
			fputs("k ", f);
			break;
		default:
			fprintf(f, "?type%d ", h->type);
		}
	}
	fclose(f);
	free(st);
	free(ids.k);
	free(ids.v);
}

static uint32_t crctab[256];
static uint32_t
crc32z(const char *p, size_t n) {
	if (!crctab[1])
		for (uint32_t i = 0; i < 256; i++) {
			uint32_t c = i;
			for (int k = 0; k < 8; k++)
				c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1;
			crctab[i] = c;
		}
	uint32_t c = 0xffffffffu;
	for (size_t i = 0; i < n; i++)
		c = crctab[(c ^ (unsigned char)p[i]) & 255] ^ (c >> 8);
	return c ^ 0xffffffffu;
}

void
simDumpLog(const char *tagName, Obj o) {
	char *b;
	size_t n;
	simDump(o, &b, &n);
	if (n > 0 && b[n - 1] == ' ')
		n--;
	if (n <= 600)
		simLog("%s %.*s", tagName, (int)n, b);
	else
		simLog("%s h%08x:%zu", tagName, crc32z(b, n), n);
	free(b);
}
