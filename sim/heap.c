/* The C heap of the code under test: fresh memory holds rubbish, every block has a red zone, freed memory is poisoned and
 * kept for a while. A write outside a block is reported when the block is freed, moved, or at the end of the run. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vsim.h"

void *__libc_malloc(size_t);
void __libc_free(void *);

#define MAGIC 0x5ab1e0c0ffee0badULL
#define RED 16
#define KEEP 128
#define KEEPMAX 4096

struct head {
	struct head *prev, *next;
	void *raw;
	size_t n;
	uint64_t serial, magic;
	uint64_t counted, pad;
}; /* 64 bytes: keeps 16-byte alignment */

static struct head *first;
static uint64_t serial, startSerial;
static size_t smallBytes; /* in live blocks of at most 64 KB which the simulator did not ask for */
extern char __executable_start, _end;
#define OWN() ((char *)__builtin_return_address(0) >= &__executable_start && (char *)__builtin_return_address(0) < &_end)
static struct head *kept[KEEP];
static unsigned keptAt;

static void
broken(const char *what, struct head *h) {
	if (simActive) {
		simLog("!heap: %s (a block of %zu bytes)", what, h->n);
		simEnd("heap");
	}
	static const char m[] = "simcora: damaged C heap\n";
	(void)!write(2, m, sizeof m - 1);
	abort();
}

static void
checkRed(struct head *h, const char *when) {
	if (h->magic != (MAGIC ^ (uintptr_t)h))
		broken("the memory before it was overwritten", h);
	unsigned char *e = (unsigned char *)(h + 1) + h->n;
	for (int i = 0; i < RED; i++)
		if (e[i] != 0xa5)
			broken("the memory after it was overwritten", h);
}

static void *
take(size_t n, size_t align, int own) {
	if (n > ((size_t)1 << 46)) {
		errno = ENOMEM;
		return NULL;
	}
	if (align < 16)
		align = 16;
	char *raw = __libc_malloc(n + sizeof(struct head) + RED + align);
	if (!raw)
		return NULL;
	uintptr_t p = ((uintptr_t)raw + sizeof(struct head) + align - 1) & ~(uintptr_t)(align - 1);
	struct head *h = (struct head *)p - 1;
	h->raw = raw;
	h->n = n;
	h->serial = ++serial;
	h->magic = MAGIC ^ (uintptr_t)h;
	h->prev = NULL;
	h->next = first;
	if (first)
		first->prev = h;
	first = h;
	h->counted = n <= 65536 && !own ? n : 0;
	smallBytes += h->counted;
	memset((char *)p + n, 0xa5, RED);
	return (void *)p;
}

static void
evict(struct head *h) {
	unsigned char *d = (unsigned char *)(h + 1);
	for (size_t i = 0; i < h->n; i++)
		if (d[i] != 0xdd)
			broken("it was written to after it was freed", h);
	__libc_free(h->raw);
}

static void
drop(void *p) {
	struct head *h = (struct head *)p - 1;
	if (h->magic == (~MAGIC ^ (uintptr_t)h))
		broken("it was freed twice", h);
	checkRed(h, "free");
	if (h->prev)
		h->prev->next = h->next;
	else
		first = h->next;
	if (h->next)
		h->next->prev = h->prev;
	h->magic = ~MAGIC ^ (uintptr_t)h;
	smallBytes -= h->counted;
	if (h->n > KEEPMAX) {
		__libc_free(h->raw);
		return;
	}
	memset(p, 0xdd, h->n);
	struct head *o = kept[keptAt % KEEP];
	kept[keptAt++ % KEEP] = h;
	if (o)
		evict(o);
}

size_t
heapSmall(void) {
	return smallBytes;
}

void
heapRunStart(void) {
	startSerial = serial;
}

/* blocks of this run are whole */
void
heapRunEnd(void) {
	for (struct head *h = first; h && h->serial > startSerial; h = h->next)
		checkRed(h, "end");
	for (unsigned i = 0; i < KEEP; i++)
		if (kept[i]) {
			unsigned char *d = (unsigned char *)(kept[i] + 1);
			for (size_t k = 0; k < kept[i]->n; k++)
				if (d[k] != 0xdd)
					broken("it was written to after it was freed", kept[i]);
		}
}

static void *
malloc1(size_t n, int own) {
	void *p = take(n, 16, own);
	if (p)
		memset(p, 0xbe, n < 65536 ? n : 65536);
	return p;
}

void *
malloc(size_t n) {
	return malloc1(n, OWN());
}

void *
calloc(size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		errno = ENOMEM;
		return NULL;
	}
	void *p = take(n, 16, OWN());
	if (p)
		memset(p, 0, n);
	return p;
}

void
free(void *p) {
	if (!p)
		return;
	int e = errno;
	drop(p);
	errno = e;
}

static void *
realloc1(void *p, size_t n, int own) {
	if (!p)
		return malloc1(n, own);
	if (n == 0) {
		free(p);
		return NULL;
	}
	struct head *h = (struct head *)p - 1;
	checkRed(h, "realloc");
	void *q = malloc1(n, own);
	if (!q)
		return NULL;
	memcpy(q, p, h->n < n ? h->n : n);
	drop(p);
	return q;
}

void *
realloc(void *p, size_t n) {
	return realloc1(p, n, OWN());
}

void *
reallocarray(void *p, size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) {
		errno = ENOMEM;
		return NULL;
	}
	return realloc1(p, n, OWN());
}

void *
memalign(size_t al, size_t n) {
	return take(n, al, OWN());
}
void *
aligned_alloc(size_t al, size_t n) {
	return take(n, al, OWN());
}
int
posix_memalign(void **out, size_t al, size_t n) {
	void *p = take(n, al, OWN());
	if (!p)
		return ENOMEM;
	*out = p;
	return 0;
}
void *
valloc(size_t n) {
	return take(n, 4096, OWN());
}
void *
pvalloc(size_t n) {
	return take((n + 4095) & ~(size_t)4095, 4096, OWN());
}
size_t
malloc_usable_size(void *p) {
	return p ? ((struct head *)p - 1)->n : 0;
}
