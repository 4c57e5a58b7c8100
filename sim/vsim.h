/* Simulator kernel: decisions, log, run control. */
#ifndef VSIM_H
#define VSIM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include "runtime.h"

/* decision streams */
enum { S_GC = 0, S_RAND, S_PROG, S_NET, S_NETEV, S_FS, S_FSCRASH, S_SYS, S_PEER, S_CLOCK, S_MAX };
extern const char *streamNames[S_MAX];

extern uint64_t simSeed;
extern bool simActive;   /* inside a run */
extern bool simExplicit; /* replay: only listed decisions are non-benign */

/* raw draw */
uint64_t simDraw(int stream);
/* a decision in [0,n); 0 is the benign one; returns non-zero with probability
 * p1000/1000 (uniformly among 1..n-1) */
int simDecide(int stream, int n, int p1000, const char *kind);
/* a free choice in [0,n), recorded */
int simChoose(int stream, int n, const char *kind);

void simLog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void simLogRaw(const char *p, size_t n);
_Noreturn void simEnd(const char *status);
void simTick(void); /* one simulated I/O event; too many of them without progress end the run as a livelock */
void simProgress(void);
void simStat(const char *name, long delta);

const char *cfgStr(const char *k, const char *d);
long cfgInt(const char *k, long d);

extern Cora *simCo;
extern uint64_t *simClockP; /* microseconds of simulated time */
#define simClock (*simClockP)
extern bool simProc;
extern char simPrefix[16];
void simTimers(void);
void simRunMain(void);
Obj opToList(Cora *co, const char *s);

/* plan ops */
int planOps(void);
const char *planOp(int i);

void simReg(Cora *co, struct registerEntry *e);
void shadowInit(void);
void shadowRunStart(void);
void shadowRegister(Cora *co);
void simDump(Obj o, char **out, size_t *len);
void simDumpLog(const char *tag, Obj o);

void heapRunStart(void);
size_t heapSmall(void);
void heapRunEnd(void);
void netRunStart(void);
void netRegister(Cora *co);
void netRunEnd(void);
void fsRunStart(void);
void fsRegister(Cora *co);
void fsRunEnd(void);
void fsCoordinate(void);
void fsStdout(void);
void simBareExit(int code);
void fsPutFile(const char *name, const char *text, size_t n);
extern char simScratch[];
void *realSym(const char *n);
#endif
