From 4c43f93924199f3097003a68d8c86f9b9f969d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 01/63] sim: guarded GC scheduling hooks for deterministic
 simulation (CORA_SIM)

---
 src/gc.c  | 35 +++++++++++++++++++++++++++++++++++
 src/sim.h | 26 ++++++++++++++++++++++++++
 2 files changed, 61 insertions(+)
 create mode 100644 src/sim.h

diff --git a/src/gc.c b/src/gc.c
index 0a4c03e..b3250f3 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -1,4 +1,7 @@
 #include "gc.h"
+#ifdef CORA_SIM
+#include "sim.h"
+#endif
 #include "trace.h"
 #include <assert.h>
 #include <inttypes.h>
@@ -377,6 +380,13 @@ getBlock(GC *gc, int slot) {
 // Helper function to check if GC should be triggered
 bool
 gcTriggerCheck(GC *gc) {
+#ifdef CORA_SIM
+	if (gc->state == gcStateNone && coraSim.gcTrigger != NULL &&
+		coraSim.gcTrigger(gc->stats.allocated > gc->stats.nextSize)) {
+		gc->state = gcStateMark;
+		return true;
+	}
+#endif
 	if (gc->stats.allocated > gc->stats.nextSize && gc->state == gcStateNone) {
 		gc->state = gcStateMark;
 		return true;
@@ -944,13 +954,38 @@ gcFlip(GC *gc) {
 		gc->stats.nextSize = MEM_BLOCK_SIZE;
 	}
 	gc->stats.prevTrigger = gc->stats.nextSize;
+#ifdef CORA_SIM
+	if (coraSim.gcFlip != NULL) {
+		coraSim.gcFlip(gc);
+	}
+#endif
 }
 
+#ifdef CORA_SIM
+struct coraSimHooks coraSim;
+
+bool
+coraSimGCLive(GC *gc, uintptr_t p) {
+	struct Block *b;
+	return checkPointer(gc, p, &b) != NULL;
+}
+
+int
+coraSimGCState(GC *gc) {
+	return gc->state;
+}
+#endif
+
 static void
 gcRunIncremental(GC *gc) {
 	TRACE_SCOPE("gcRunIncremental");
 	const int STEPS_PER_INCREMENT = 200;
 	int steps = STEPS_PER_INCREMENT;
+#ifdef CORA_SIM
+	if (coraSim.gcSteps != NULL) {
+		steps = coraSim.gcSteps(steps);
+	}
+#endif
 
 	while (steps > 0) {
 		scmHead *curr = gcDequeue(gc);
diff --git a/src/sim.h b/src/sim.h
new file mode 100644
index 0000000..0492895
--- /dev/null
+++ b/src/sim.h
@@ -0,0 +1,26 @@
+/* Hooks for deterministic simulation, compiled in only under CORA_SIM. */
+#ifndef _SIM_H_
+#define _SIM_H_
+
+#include <stdbool.h>
+#include <stdint.h>
+#include "gc.h"
+
+// All hooks are NULL by default, which keeps the ordinary behaviour.
+struct coraSimHooks {
+	// Asked at every GC safe point outside a cycle; due tells whether the GC
+	// would start a cycle by itself. Return true to start one now.
+	bool (*gcTrigger)(bool due);
+	// How many gray objects one incremental mark step handles.
+	int (*gcSteps)(int dflt);
+	// Called when a GC cycle has finished.
+	void (*gcFlip)(GC *gc);
+};
+
+extern struct coraSimHooks coraSim;
+
+// Whether p points to a heap object which is not reclaimed.
+bool coraSimGCLive(GC *gc, uintptr_t p);
+int coraSimGCState(GC *gc);
+
+#endif
-- 
2.43.0


From 7b88b45340bccddaf60c7310394091b0f4f78dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 02/63] fix: load keeps a copy of the file path across the
 nested compile

The path string is not reachable from any GC root while compile-to-c runs,
so it could be reclaimed and the .so was written to the wrong place.
---
 src/runtime.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 44579b5..e76f0ac 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -413,7 +413,9 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	// (load "file-path.cora")
 	Obj filePath = R[1];
 	Obj arg1 = filePath;
-	str filePathStr = stringStr(filePath);
+	// Copy the path: filePath is not a GC root while the compiler runs below.
+	strBuf filePathBuf = strDup(stringStr(filePath));
+	str filePathStr = toStr(filePathBuf);
 	const int BUFSIZE = 512;
 	char buf[BUFSIZE];
 	int cfileidx = unique;
@@ -439,6 +441,7 @@ builtinLoad(Cora *co, int label, Obj *R) {
 		tmp = strNew(30);
 		snprintf(toCStr(tmp), 30, "/tmp/cora-xxx-%d.so", cfileidx);
 	}
+	strFree(filePathBuf);
 
 	snprintf(buf, BUFSIZE,
 		"gcc -shared -I%s -g -fPIC /tmp/cora-xxx-%d.c -o "
-- 
2.43.0


From dcb697d837769d0b3bafb7e062075b7e96ca60ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 03/63] fix: over application keeps the extra args on the VM
 stack

coraDispatch ran the first call in a nested coraRun with the extra arguments
held only in a C array, where a GC cycle started by the trampoline could not
see them: they were reclaimed and the second call got freed objects. Push the
extra arguments on the VM stack and continue from there instead.
---
 src/runtime.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index e76f0ac..54fe3d7 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -146,6 +146,16 @@ makeCurry(Cora *co, Obj fn, int nargs, Obj *args) {
 	return makeNaNPtr(&clo->head, TAG_NATIVE);
 }
 
+// Call the returned function with the extra args of an over application.
+static void
+coraDispatchRest(Cora *co, int nargs, Obj *R) {
+	assert(nargs > 0 && nargs < INIT_STACK_SIZE);
+	Obj args[INIT_STACK_SIZE];
+	memcpy(args, R, nargs * sizeof(Obj));
+	co->ctx.sp = R;
+	coraCall(co, co->res, nargs, args);
+}
+
 static void
 coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 	struct scmNative *f = mustNative(fn);
@@ -155,17 +165,16 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 		Obj ret = makeCurry(co, fn, nargs, args);
 		coraReturn(co, ret);
 	} else {
-		// eval the first call and get the result;
-		Obj *R = stackAlloc(co, f->nframe);
-		R[0] = fn;
-		for (int i = 0; i < required; i++) {
-			R[i + 1] = args[i];
+		// Keep the extra args on the VM stack, where GC can find them, until the
+		// first call returns.
+		int extra = nargs - required;
+		Obj *rest = stackAlloc(co, extra);
+		for (int i = 0; i < extra; i++) {
+			rest[i] = args[required + i];
 		}
-		co->ctx.fn = f->fn;
-		co->ctx.label = 0;
-		coraRun(co);
-		// make the next call.
-		coraCall(co, co->res, nargs - required, args + required);
+		saveCont(co, coraDispatchRest, extra, rest);
+		// eval the first call, coraDispatchRest make the next call with its result.
+		coraCall(co, fn, required, args);
 	}
 	return;
 }
-- 
2.43.0


From 36d44a29d53bed86b1622a79ac53670fbd15c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 04/63] fix: try and throw leave the stack segments consistent

When the frame of try itself opens a new stack segment, try opens a second one
for its chunk. Returning from try released only one of them and trapped, and
throw went on with the bounds of a segment that does not hold the stack
pointer. Release every segment above the frame that is returned to.
---
 src/runtime.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 54fe3d7..1385599 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -41,15 +41,18 @@ stackAllocSlowPath(Cora *co, int n) {
 
 void
 coraReturnSlowPath(Cora *co) {
-	assert(vecGet(&co->stk.data, vecLen(&co->stk.data) - 1) == co->stk.begin);
-	free(co->stk.begin);
-	vecSet(&co->stk.data, vecLen(&co->stk.data) - 1, NULL);
-	co->stk.data.v.len--;
+	// There can be more than one segment to release: try always opens a segment
+	// for its chunk, even when its own frame just opened one.
+	do {
+		int last = vecLen(&co->stk.data) - 1;
+		assert(last > 0 && vecGet(&co->stk.data, last) == co->stk.begin);
+		free(co->stk.begin);
+		vecSet(&co->stk.data, last, NULL);
+		co->stk.data.v.len--;
 
-	co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
-	co->stk.end = co->stk.begin + INIT_STACK_SIZE;
-
-	assert(co->ctx.sp >= co->stk.begin && co->ctx.sp < co->stk.end);
+		co->stk.begin = vecGet(&co->stk.data, last - 1);
+		co->stk.end = co->stk.begin + INIT_STACK_SIZE;
+	} while (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end);
 }
 
 static Cora *
@@ -838,6 +841,10 @@ builtinThrow(Cora *co, int label, Obj *R) {
 	Frame beforeTry = vecGet(&co->callstack, vecLen(&co->callstack) - 1);
 	co->ctx.bp = beforeTry.bp;
 	co->ctx.sp = beforeTry.sp;
+	if (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end) {
+		// The segment holds nothing but the dead frame of try.
+		coraReturnSlowPath(co);
+	}
 	coraCall2(co, handler, v, clo);
 }
 
-- 
2.43.0


From 9c470808e0bb1df18755c6c7b07ca2db91271b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 05/63] fix: string-append accepts two empty strings

---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 1385599..2e3772c 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -651,7 +651,7 @@ builtinStringAppend(Cora *co, int label, Obj *R) {
 	Obj str2 = R[2];
 	str x = stringStr(str1);
 	str y = stringStr(str2);
-	strBuf tmp = strNew(x.len + y.len);
+	strBuf tmp = strNew(x.len + y.len + 1);
 	tmp = strCpy(tmp, x);
 	tmp = strCat(tmp, y);
 	str s = toStr(tmp);
-- 
2.43.0


From 24548f13451235fb80e119b51863710b36e8dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 06/63] fix: resuming a continuation keeps the objects of its
 frames alive

The frames of a resumed continuation move to the VM stack, which GC scans only
when a cycle starts. When it happened in the middle of a cycle, and the
continuation was not marked yet, what the frames held was lost. Also, GC went
on scanning the stack segments of a resumed continuation after they were
reused or released.
---
 src/runtime.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 2e3772c..6fae093 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -739,10 +739,12 @@ struct scmContinuation {
 	/* vector(Obj*)segstack; */
 	int count;
 	int len;
+	// The stack segments are back in use by the VM, or released already.
+	bool resumed;
 	// | scmContinuation struct |
 	// | callstack[len]          |
 	// | segstack.data[count]    |
-	char data[];
+	_Alignas(Frame) char data[];
 };
 
 Obj
@@ -755,6 +757,7 @@ makeContinuation(Cora *co, Frame *callstack, int len, Obj **stk,
 			sizeof(struct scmContinuation) + callstackBytes + segstackBytes);
 	cont->len = len;
 	cont->count = count;
+	cont->resumed = false;
 	Frame *p = (Frame *)cont->data;
 	for (int i = 0; i < len; i++) {
 		p[i] = callstack[i];
@@ -770,6 +773,9 @@ makeContinuation(Cora *co, Frame *callstack, int len, Obj **stk,
 static void
 continuationGCFunc(struct GC *gc, void *f) {
 	struct scmContinuation *from = f;
+	if (from->resumed) {
+		return;
+	}
 	version_t minv = from->head.version;
 	Frame *stack = (Frame *)from->data;
 	for (int i = 0; i < from->len; i++) {
@@ -796,8 +802,16 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 	struct scmContinuation *cont = (struct scmContinuation *)ptr(contObj);
 	Frame *p = (Frame *)cont->data;
 	for (int i = 0; i < cont->len; i++) {
+		// The frames leave the continuation for the stack, which GC does not scan
+		// again in this cycle. Mark what they hold, like any deleted reference.
+		if (!cont->resumed) {
+			for (Obj *q = p[i].bp; q < p[i].sp; q++) {
+				writeBarrierForIncremental(co->gc, q, *q);
+			}
+		}
 		vecAppend(&co->callstack, p[i]);
 	}
+	cont->resumed = true;
 	Obj **stk = (Obj **)(cont->data + (sizeof(Frame) * cont->len));
 	for (int i = 0; i < cont->count; i++) {
 		vecAppend(&co->stk.data, stk[i]);
-- 
2.43.0


From 822175785a41e7e4bfd71750726e61c0d69ab4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 07/63] fix: vectorAppend records old-to-young references

An appended element younger than the vector was not added to the remembered
set, nor marked during an incremental cycle, and got reclaimed.
---
 src/types.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/types.c b/src/types.c
index 0ffd7b3..22992a2 100644
--- a/src/types.c
+++ b/src/types.c
@@ -321,12 +321,10 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 		memcpy(tmpV->data, v->data, v->size * sizeof(Obj));
 		// writeBarrier!
 		writeBarrierForIncremental(gc, &vec, tmp);
-		// this seems not required, because tmp->version should always >=
-		// val->version?
-		/* writeBarrierForGeneration(&v->head, val); */
 		v = ptr(tmp);
 	}
 	v->data[v->size] = val;
+	writeBarrierForGeneration(gc, &v->head, val);
 	v->size++;
 	return makeNaNPtr(&v->head, TAG_PTR);
 }
-- 
2.43.0


From 3282a9a526e70afc9295423d6b78c5aef2007d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 08/63] fix: an object that fills the last block of an arena
 can be allocated

heapArenaAllocLarge refused to use the last block of an arena, so that a large
object needing every block of an arena fitted in none, and gcAllocLargeObject
mapped new arenas for ever.
---
 src/gc.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index b3250f3..06177f7 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -428,9 +428,6 @@ heapArenaAllocLarge(struct heapArena *ha, GC *gc, int slots) {
 		// printf("allocate from %p, curr=%d, slots=%d\n", ha, ha->curr, slots);
 		// The simple case.
 		if (ha->curr == ha->idx) {
-			if (ha->curr + slots >= BLOCKS_PER_HEAP) {
-				return NULL;
-			}
 			// printf("allocate from uninitialized ==%d\n", ha->curr);
 			struct scmFreeNode *n =
 				(struct scmFreeNode *)(ha->ptr + (ha->curr * MEM_BLOCK_SIZE));
-- 
2.43.0


From 761341206763c0a117354ee8112954b5e2344934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 09/63] fix: the collector does not write to the standard
 output of the program

---
 src/gc.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 06177f7..b62319a 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -524,7 +524,6 @@ gcAllocLargeObject(GC *gc, int size) {
 		gc->large = ha->next;
 		if (gc->state == gcStateSweep && gc->progress.ha == ha) {
 			gc->progress.ha = gc->large;
-			printf("update gc progress in alloc large object\n");
 		}
 		// Link to heap list
 		struct heapArena *heapHead = gcGetHeapArena(gc);
@@ -586,7 +585,6 @@ gcAlloc(GC *gc, int size) {
 		// Update GC progress
 		if (gc->state == gcStateSweep && gc->progress.b == b) {
 			gc->progress.b = gc->sizeClass[slot];
-			printf("update gc progress in alloc object\n");
 		}
 	}
 
-- 
2.43.0


From f1d1338f73fa496763499a4e17d469c095d7792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 10/63] fix: apply gives back its stack frame before the call

apply in tail position left its frame behind, so that a loop through apply used
more and more stack.
---
 src/runtime.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index 6fae093..3192814 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -387,6 +387,8 @@ builtinApply(Cora *co, int label, Obj *R) {
 		assert(false);
 	}
 
+	// A tail call, give back the frame of apply.
+	co->ctx.sp = R;
 	Obj *frame = stackAlloc(co, f->nframe);
 	frame[0] = fn;
 	int p = 1;
-- 
2.43.0


From 2a9a6db968dbb3c6acd3eef9b551efa4c76238b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 11/63] fix: a blocked choice resumes its continuation only
 once

Every branch of a blocked choice made its own state, so two branches could
both commit and call the one-shot continuation twice. perform now makes one
state and hands it to all the branches.
---
 lib/async.cora    |  6 +++---
 lib/chan.cora     | 18 ++++++------------
 lib/cml.cora      | 22 +++++++++++++---------
 lib/parallel.cora |  2 +-
 4 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index af7df28..f1ac927 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -146,7 +146,7 @@
 
   (defun recv-op (conn buf pos)
     (let try (lambda () false)
-	 block (lambda (k wrap)
+	 block (lambda (state k wrap)
 		 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k))))
 	 [try block default-wrap]))
 
@@ -184,7 +184,7 @@
 				   (conn-set-extra! conn pos)
 				   false)
 		      res res))
-	 block (lambda (k wrap)
+	 block (lambda (state k wrap)
 		 (begin
 		  ;; (display "send-op\n")
 		  (let pos1 (conn-extra conn)
@@ -203,7 +203,7 @@
 
   (defun accept-op (ln)
     (let try (lambda () false)
-	 block (lambda (k wrap)
+	 block (lambda (state k wrap)
 		 (begin
 		  ;; (display "accept-op\n")
 		  (event-loop-add ln 'read (lambda (conn)
diff --git a/lib/chan.cora b/lib/chan.cora
index ce37843..97a00ad 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -21,18 +21,15 @@
 				     (set state 'Done)
 				     val)))))
 
-  (defun recv-block (recvq k wrap)
-    (let state (gensym)
-      (begin
-	(set state 'Wait)
-	(enqueue recvq [state k wrap]))))
+  (defun recv-block (recvq state k wrap)
+    (enqueue recvq [state k wrap]))
 
   (defun default-wrap (x) x)
 
   ;; recv on channel is an operation
   (defun chan-recv (ch)
     (let try (lambda () (recv-try ch))
-      block (lambda (k wrap) (recv-block (cadr ch) k wrap))
+      block (lambda (state k wrap) (recv-block (cadr ch) state k wrap))
       [try block default-wrap]))
 
   (func send-try
@@ -50,16 +47,13 @@
 					      (set state 'Done)
 					      ())))))
 
-  (defun send-block (sendq k val wrap)
-    (let state (gensym)
-      (begin
-	(set state 'Wait)
-	(enqueue sendq [state k val wrap]))))
+  (defun send-block (sendq state k val wrap)
+    (enqueue sendq [state k val wrap]))
 
   ;; send on channel is an operation
   (defun chan-send (ch val)
     (let try (lambda () (send-try ch val))
-      block (lambda (k wrap) (send-block (car ch) k val wrap))
+      block (lambda (state k wrap) (send-block (car ch) state k val wrap))
       [try block default-wrap]))
 
   )
diff --git a/lib/cml.cora b/lib/cml.cora
index 99508f4..da31745 100644
--- a/lib/cml.cora
+++ b/lib/cml.cora
@@ -111,12 +111,12 @@
 
   (defun choice-op (ops)
     (let try (lambda () (choice-ops-try ops))
-      block (lambda (k wrap)
+      block (lambda (state k wrap)
 	      (for-each (lambda (op)
 			  (match op
 			    [try1 block1 wrap1]
-			    (block1 k (lambda (v)
-					(wrap (wrap1 v))))))
+			    (block1 state k (lambda (v)
+					      (wrap (wrap1 v))))))
 			ops))
       [try block default-wrap]))
 
@@ -153,6 +153,8 @@
   ;; ;; 		   (lambda (v) ...))
   ;; ;; 	  (wrap (send ch2)
   ;; ;; 		   (lambda (v) ...))))
+  ;; The state of a blocked perform is 'Wait or 'Done. It is shared by all the branches
+  ;; of a choice: whoever resumes k must find it 'Wait, and set it to 'Done.
   (defun perform (op)
     (let try (car op)
 	 block (cadr op)
@@ -160,11 +162,13 @@
 	 (let v (try)
 	      (if (= v false)
 		  (throw (lambda (k)
-			   (begin
-			    (block k wrap)
-			    ;; (display "perform called block, now schedule\n")
-			    (schedule)
-			    ;; (display "perform called block, schedule exit\n")
-			    )))
+			   (let state (gensym)
+				(begin
+				 (set state 'Wait)
+				 (block state k wrap)
+				 ;; (display "perform called block, now schedule\n")
+				 (schedule)
+				 ;; (display "perform called block, schedule exit\n")
+				 ))))
 		  (wrap v)))))
   )
diff --git a/lib/parallel.cora b/lib/parallel.cora
index ab67a0d..03844ca 100644
--- a/lib/parallel.cora
+++ b/lib/parallel.cora
@@ -45,7 +45,7 @@
 	 ;; (perform (mailbox-recv mb))
 	 (defun mailbox-recv (mb)
 	   (let try (lambda () (mailbox-recv-try mb))
-		block (lambda (k wrap)
+		block (lambda (state k wrap)
 			(begin
 			 (mailbox-lock mb)
 			 ;; it may happen that there is no msg when try
-- 
2.43.0


From df9affaa01c93bcb24c608df205bb08d1fff9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 12/63] fix: an operation that yields false is not taken for a
 blocked one

try returned the value itself or false, so receiving or wrapping to false made
perform block after the peer had been committed. try now returns [v] or false.
---
 lib/async.cora    | 2 +-
 lib/chan.cora     | 4 ++--
 lib/cml.cora      | 5 +++--
 lib/parallel.cora | 4 +++-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index f1ac927..ef6d4a5 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -183,7 +183,7 @@
 		      [block pos] (begin
 				   (conn-set-extra! conn pos)
 				   false)
-		      res res))
+		      res [res]))
 	 block (lambda (state k wrap)
 		 (begin
 		  ;; (display "send-op\n")
diff --git a/lib/chan.cora b/lib/chan.cora
index 97a00ad..a6e5dda 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -19,7 +19,7 @@
 				   (begin
 				     (enqueue-task (lambda () (resume (wrap ()))))
 				     (set state 'Done)
-				     val)))))
+				     [val])))))
 
   (defun recv-block (recvq state k wrap)
     (enqueue recvq [state k wrap]))
@@ -45,7 +45,7 @@
 								;; (io.display "resume recv op\n")
 								(resume (wrap val)))))
 					      (set state 'Done)
-					      ())))))
+					      [()])))))
 
   (defun send-block (sendq state k val wrap)
     (enqueue sendq [state k val wrap]))
diff --git a/lib/cml.cora b/lib/cml.cora
index da31745..0abd36e 100644
--- a/lib/cml.cora
+++ b/lib/cml.cora
@@ -107,7 +107,7 @@
 	[] => false
 	[[try1 block1 wrap1] . remain] => (match (try1)
 					    false (choice-ops-try remain)
-					    v (wrap1 v)))
+					    [v] [(wrap1 v)]))
 
   (defun choice-op (ops)
     (let try (lambda () (choice-ops-try ops))
@@ -147,6 +147,7 @@
 
   ;; ;; perform performs an operation.
   ;; ;; an operation consistent of [try block wrap]
+  ;; ;; try returns [v] when the operation is done with value v, or false when it must block
   ;; ;; Usage example:
   ;; ;; (perform (choice
   ;; ;; 	  (wrap (recv ch1)
@@ -170,5 +171,5 @@
 				 (schedule)
 				 ;; (display "perform called block, schedule exit\n")
 				 ))))
-		  (wrap v)))))
+		  (wrap (car v))))))
   )
diff --git a/lib/parallel.cora b/lib/parallel.cora
index 03844ca..3d07630 100644
--- a/lib/parallel.cora
+++ b/lib/parallel.cora
@@ -44,7 +44,9 @@
 	 ;; mailbox is an operation, it may block if the mailbox is empty
 	 ;; (perform (mailbox-recv mb))
 	 (defun mailbox-recv (mb)
-	   (let try (lambda () (mailbox-recv-try mb))
+	   (let try (lambda () (match (mailbox-recv-try mb)
+				     false false
+				     v [v]))
 		block (lambda (state k wrap)
 			(begin
 			 (mailbox-lock mb)
-- 
2.43.0


From a4adea368d593540ad03c9387fedf4dfa355e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 13/63] fix: send-try skips stale receivers with the value it
 has to send

---
 lib/chan.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/chan.cora b/lib/chan.cora
index a6e5dda..2ff7a5c 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -38,7 +38,7 @@
 				 (match (dequeue recvq)
 					[state resume wrap]
 					(if (= 'Done (value state))
-					    (send-try [sendq recvq]) ;; ignore stale
+					    (send-try [sendq recvq] val) ;; ignore stale
 					    (begin
 					      (enqueue-task (lambda ()
 							      (begin
-- 
2.43.0


From ab017fd5ddead18f8cd4588ec515cc9aa0e8f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 14/63] fix: yield does not nest another scheduler loop

Every yield ran a schedule-loop on top of the current one, so the stack grew
with the number of switches.
---
 lib/cml.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cml.cora b/lib/cml.cora
index 0abd36e..c87e7b2 100644
--- a/lib/cml.cora
+++ b/lib/cml.cora
@@ -93,7 +93,7 @@
     (throw (lambda (k)
 	     (begin
 	       (enqueue (task-queue) (lambda () (k ())))
-	       (schedule-loop)))))
+	       (schedule)))))
 
 
   (defun default-wrap (x) x)
-- 
2.43.0


From 33f6b7b9b81e2d7ede3878829189db6acb758b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 15/63] fix: net-recv reports the end of the stream

recv returns 0 for ever once the peer has closed, so the loop never ended.
---
 lib/net.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/net.c b/lib/net.c
index c27ad3d..b2b7964 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -172,7 +172,7 @@ netPoll(struct Cora *ctx, int label, Obj *R) {
 }
 
 // input: (net-recv fd buf pos)
-// output: [block pos] or [ok] or [err errno]
+// output: [block pos] or [ok] or [eof pos] or [err errno]
 static void
 netRecv(struct Cora *ctx, int label, Obj *R) {
 	Obj arg1 = R[1];
@@ -201,6 +201,11 @@ netRecv(struct Cora *ctx, int label, Obj *R) {
 			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(errno), Nil)));
 			return;
 		}
+		if (ret == 0) {
+			// end of the stream: [eof pos]
+			coraReturn(ctx, makeCons(ctx->gc, intern("eof"), makeCons(ctx->gc, makeNumber(pos), Nil)));
+			return;
+		}
 		pos = pos + ret;
 	}
 	// [ok]
-- 
2.43.0


From 09b6596f73950224e715bea569b2b0a150abc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 16/63] fix: net-send and net-recv go on after an interrupted
 system call

---
 lib/net.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/net.c b/lib/net.c
index b2b7964..46a5c40 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -143,6 +143,9 @@ netSend(struct Cora *ctx, int label, Obj *R) {
 	while (pos < len) {
 		int ret = send(fd, buf + pos, len - pos, 0);
 		if (ret < 0) {
+			if (errno == EINTR) {
+				continue;
+			}
 			if (errno == EAGAIN || errno == EWOULDBLOCK) {
 				/* printf("EAGAIN here...%d\n", pos); */
 				// ['Send fd buf pos k]
@@ -188,6 +191,9 @@ netRecv(struct Cora *ctx, int label, Obj *R) {
 	while (pos < len) {
 		int ret = recv(fd, buf + pos, len - pos, 0);
 		if (ret < 0) {
+			if (errno == EINTR) {
+				continue;
+			}
 			if (errno == EAGAIN || errno == EWOULDBLOCK) {
 				// [block pos]
 				/* printf("EAGAIN here...%d\n", pos); */
-- 
2.43.0


From af1e53f38414d55ccfabd46e92b24f2abff45b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 17/63] fix: sending to a connection the peer has closed gives
 an error

SIGPIPE ended the whole process.
---
 lib/net.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/net.c b/lib/net.c
index 46a5c40..1f662c9 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -10,6 +10,10 @@
 #include <sys/types.h>
 #include <unistd.h>
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 __thread int pollfd = -1;
 
 #ifdef __APPLE__
@@ -141,7 +145,7 @@ netSend(struct Cora *ctx, int label, Obj *R) {
 	/* printf("call net send fd ===%d\n", fd); */
 
 	while (pos < len) {
-		int ret = send(fd, buf + pos, len - pos, 0);
+		int ret = send(fd, buf + pos, len - pos, MSG_NOSIGNAL);
 		if (ret < 0) {
 			if (errno == EINTR) {
 				continue;
-- 
2.43.0


From e03fdc01d373b4908757dc7b1e909fde7ca9c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 18/63] fix: an error of send or recv is not taken for [block
 pos]

The unquoted block in the pattern is a variable, so [err errno] matched too and
the operation waited, with errno as its position.
---
 lib/async.cora | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index ef6d4a5..0843be8 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -129,7 +129,7 @@
 	[conn buf pos] k => (begin
 			     ;; (display "run in recv-handler\n")
 			     (match (net-recv (conn-fd conn) buf pos)
-				    [block pos] (begin
+				    ['block pos] (begin
 						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k)))
 						 ;; (display "recv-handler block and go to scheduler\n")
 						 (schedule)
@@ -157,7 +157,7 @@
 
   (func send-handler
 	[conn buf pos] k => (match (net-send (conn-fd conn) buf pos)
-				   [block pos] (begin
+				   ['block pos] (begin
 						(event-loop-add conn 'write (lambda (conn)
 									      (send-handler [conn buf pos] k)))
 						;; (display "send-handler block and go to schedule\n")
@@ -180,7 +180,7 @@
   (defun send-op (conn buf pos)
     (let try (lambda ()
 	       (match (net-send (conn-fd conn) buf pos)
-		      [block pos] (begin
+		      ['block pos] (begin
 				   (conn-set-extra! conn pos)
 				   false)
 		      res [res]))
-- 
2.43.0


From d8334bb6262af50586e3279ce99060895f56f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 19/63] fix: a connection whose send has blocked once can block
 again

The mode list still said write after the event was removed from the poll set,
so the next blocked send was never registered.
---
 lib/async.cora | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/async.cora b/lib/async.cora
index 0843be8..1d59e3e 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -173,7 +173,9 @@
 					     new-mode (filter
 						       (lambda (m) (not (= 'write m)))
 						       old-mode)
-					     (net-poll-mod fd new-mode conn))
+					     (begin
+					      (net-poll-mod fd new-mode conn)
+					      (conn-set-mode! conn new-mode)))
 					(spawn (lambda () (k res)))))
 	_ k => (display "wrong argument for send-handler\n"))
 
-- 
2.43.0


From ca96d637835323409c219005a9822eb11c664da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:18 +0000
Subject: [PATCH 20/63] fix: event handlers do not run the scheduler

A handler that had to go on waiting called (schedule) in the middle of the event
list, so other fibers ran, and events were polled and handled again, before the
rest of the list was; every such handler and every resumption through spawn also
left a frame behind. The handlers now just return to the event loop.
---
 lib/async.cora | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index 1d59e3e..509bdd1 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -129,16 +129,11 @@
 	[conn buf pos] k => (begin
 			     ;; (display "run in recv-handler\n")
 			     (match (net-recv (conn-fd conn) buf pos)
-				    ['block pos] (begin
-						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k)))
-						 ;; (display "recv-handler block and go to scheduler\n")
-						 (schedule)
-						 ;; (display "finish schedule in recv-handler")
-						 )
+				    ['block pos] (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k)))
 				    res (begin
 					 (conn-set-read-callback! conn ())
 					 ;; (display "before recv handler direct return\n")
-					 (spawn (lambda () (k res)))
+					 (enqueue-task (lambda () (k res)))
 					 ;; (display "after recv handler direct return\n")
 					 ))))
 
@@ -157,13 +152,8 @@
 
   (func send-handler
 	[conn buf pos] k => (match (net-send (conn-fd conn) buf pos)
-				   ['block pos] (begin
-						(event-loop-add conn 'write (lambda (conn)
+				   ['block pos] (event-loop-add conn 'write (lambda (conn)
 									      (send-handler [conn buf pos] k)))
-						;; (display "send-handler block and go to schedule\n")
-						(schedule)
-						;; (display "finish send-handler\n")
-						)
 				   res (begin
 					(conn-set-write-callback! conn ())
 					;; remove writable event registry from event loop,
@@ -176,7 +166,7 @@
 					     (begin
 					      (net-poll-mod fd new-mode conn)
 					      (conn-set-mode! conn new-mode)))
-					(spawn (lambda () (k res)))))
+					(enqueue-task (lambda () (k res)))))
 	_ k => (display "wrong argument for send-handler\n"))
 
   (defun send-op (conn buf pos)
@@ -218,10 +208,10 @@
 						   (begin
 						    ;; (display new-fd)
 						    ;; (display "before accept spawn\n")
-						    (spawn (lambda ()
-							     (begin
-							      ;; (display "accept spawn called\n")
-							      (k new-conn)))))))))))
+						    (enqueue-task (lambda ()
+								    (begin
+								     ;; (display "accept spawn called\n")
+								     (k new-conn)))))))))))
 	 [try block default-wrap]))
 
   (defun accept (ln)
-- 
2.43.0


From 5e7be7130def449c01dd8f7336c45dd099ac8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 21/63] fix: a variable bound by let inside a lambda hides a
 captured one of the same name

closure-convert replaced every occurrence of a captured variable inside a
lambda, also below a let that binds the same name again, so the inner
variable was never read. In async.cora the position of a partial send was
lost this way. init.c and lib/toc.c are regenerated.
---
 init.c       | 2914 +++++++++++-----------
 lib/toc.c    | 6553 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |    4 +-
 3 files changed, 4752 insertions(+), 4719 deletions(-)

diff --git a/init.c b/init.c
index acc8e96..e45583b 100644
--- a/init.c
+++ b/init.c
@@ -274,315 +274,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512466_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512469_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512472_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512475_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512478_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512482_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512487_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512491_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512499_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512501_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512506_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3512485_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj _3512488_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj _3512491_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj _3512494_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj _3512497_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj _3512501_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj _3512506_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj _3512510_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3512518_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3512520_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3512525_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj _3512986_37= co->res;
-Obj _3512992_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513004_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513005_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513006_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513005_37);
-Obj _3513007_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513006_37);
-Obj _3513008_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513009_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513008_37);
-Obj _3513010_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513009_37);
-Obj _3513011_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513012_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513011_37);
-Obj _3513013_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513012_37);
-Obj _3513014_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513015_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513014_37);
-Obj _3513016_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513015_37);
-Obj _3513017_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513018_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513017_37);
-Obj _3513019_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513018_37);
-Obj _3513020_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513021_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513020_37);
-Obj _3513022_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513021_37);
-Obj _3513023_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513024_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513023_37);
-Obj _3513025_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513024_37);
-Obj _3513026_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513027_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513026_37);
-Obj _3513028_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513027_37);
-Obj _3513029_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513030_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513029_37);
-Obj _3513031_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513030_37);
-Obj _3513032_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513033_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513032_37);
-Obj _3513034_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513033_37);
-Obj _3513035_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513036_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513035_37);
-Obj _3513037_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513036_37);
-Obj _3513038_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513039_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513038_37);
-Obj _3513040_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513039_37);
-Obj _3513041_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513042_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513041_37);
-Obj _3513043_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513042_37);
-Obj _3513044_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513045_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513044_37);
-Obj _3513046_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513045_37);
-Obj _3513047_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513048_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513047_37);
-Obj _3513049_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513048_37);
-Obj _3513050_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513051_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513050_37);
-Obj _3513052_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513051_37);
-Obj _3513053_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513054_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513053_37);
-Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513054_37);
-Obj _3513056_37 = makeCons(co->gc, _3513055_37, Nil);
-Obj _3513057_37 = makeCons(co->gc, _3513052_37, _3513056_37);
-Obj _3513058_37 = makeCons(co->gc, _3513049_37, _3513057_37);
-Obj _3513059_37 = makeCons(co->gc, _3513046_37, _3513058_37);
-Obj _3513060_37 = makeCons(co->gc, _3513043_37, _3513059_37);
-Obj _3513061_37 = makeCons(co->gc, _3513040_37, _3513060_37);
-Obj _3513062_37 = makeCons(co->gc, _3513037_37, _3513061_37);
-Obj _3513063_37 = makeCons(co->gc, _3513034_37, _3513062_37);
-Obj _3513064_37 = makeCons(co->gc, _3513031_37, _3513063_37);
-Obj _3513065_37 = makeCons(co->gc, _3513028_37, _3513064_37);
-Obj _3513066_37 = makeCons(co->gc, _3513025_37, _3513065_37);
-Obj _3513067_37 = makeCons(co->gc, _3513022_37, _3513066_37);
-Obj _3513068_37 = makeCons(co->gc, _3513019_37, _3513067_37);
-Obj _3513069_37 = makeCons(co->gc, _3513016_37, _3513068_37);
-Obj _3513070_37 = makeCons(co->gc, _3513013_37, _3513069_37);
-Obj _3513071_37 = makeCons(co->gc, _3513010_37, _3513070_37);
-Obj _3513072_37 = makeCons(co->gc, _3513007_37, _3513071_37);
-Obj _3513073_37 = primSet(co, getBinding(co, packageID, 69).name, _3513072_37);
-Obj _3513088_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513092_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513270_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513271_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513272_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513271_37);
-Obj _3513273_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513272_37);
-Obj _3513274_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513273_37);
-Obj _3513275_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513274_37);
-Obj _3513276_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513275_37);
-Obj _3513277_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513276_37);
-Obj _3513278_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513277_37);
-Obj _3513279_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513278_37);
-Obj _3513280_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513279_37);
-Obj _3513281_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513280_37);
-Obj _3513282_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513281_37);
-Obj _3513283_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513282_37);
-Obj _3513284_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513283_37);
-Obj _3513285_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513284_37);
-Obj _3513286_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513285_37);
-Obj _3513287_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513286_37);
-Obj _3513288_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513287_37);
-Obj _3513289_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513288_37);
-Obj _3513290_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513289_37);
-Obj _3513291_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513290_37);
-Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513291_37);
-Obj _3513293_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513292_37);
-Obj _3513294_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513293_37);
-Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513294_37);
-Obj _3513296_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513295_37);
-Obj _3513297_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513296_37);
-Obj _3513298_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513297_37);
-Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513298_37);
-Obj _3513300_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513299_37);
-Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513300_37);
-Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513301_37);
-Obj _3513303_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513302_37);
-Obj _3513304_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513303_37);
-Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513304_37);
-Obj _3513306_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513305_37);
-Obj _3513307_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513306_37);
-Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513307_37);
-Obj _3513309_37 = primSet(co, getBinding(co, packageID, 53).name, _3513308_37);
-Obj _3513310_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513311_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513312_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513313_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513314_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513315_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513316_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513317_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513318_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513319_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513320_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513321_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513322_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513323_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513324_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513325_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513326_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513327_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513328_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513329_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513330_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513331_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513332_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513333_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3513334_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513335_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513336_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513337_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513338_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3513339_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3513340_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3513341_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3513342_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513343_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3513344_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513345_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513346_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3513347_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3513348_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3513348_37);
+Obj _3513005_37= co->res;
+Obj _3513011_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3513023_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj _3513024_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3513025_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513024_37);
+Obj _3513026_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513025_37);
+Obj _3513027_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3513028_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513027_37);
+Obj _3513029_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513028_37);
+Obj _3513030_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3513031_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513030_37);
+Obj _3513032_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513031_37);
+Obj _3513033_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3513034_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513033_37);
+Obj _3513035_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513034_37);
+Obj _3513036_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3513037_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513036_37);
+Obj _3513038_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513037_37);
+Obj _3513039_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3513040_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513039_37);
+Obj _3513041_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513040_37);
+Obj _3513042_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3513043_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513042_37);
+Obj _3513044_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513043_37);
+Obj _3513045_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3513046_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513045_37);
+Obj _3513047_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513046_37);
+Obj _3513048_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3513049_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513048_37);
+Obj _3513050_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513049_37);
+Obj _3513051_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3513052_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513051_37);
+Obj _3513053_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513052_37);
+Obj _3513054_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3513055_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513054_37);
+Obj _3513056_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513055_37);
+Obj _3513057_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3513058_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513057_37);
+Obj _3513059_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513058_37);
+Obj _3513060_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3513061_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513060_37);
+Obj _3513062_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513061_37);
+Obj _3513063_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3513064_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513063_37);
+Obj _3513065_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513064_37);
+Obj _3513066_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3513067_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513066_37);
+Obj _3513068_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513067_37);
+Obj _3513069_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3513070_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513069_37);
+Obj _3513071_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513070_37);
+Obj _3513072_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3513073_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513072_37);
+Obj _3513074_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513073_37);
+Obj _3513075_37 = makeCons(co->gc, _3513074_37, Nil);
+Obj _3513076_37 = makeCons(co->gc, _3513071_37, _3513075_37);
+Obj _3513077_37 = makeCons(co->gc, _3513068_37, _3513076_37);
+Obj _3513078_37 = makeCons(co->gc, _3513065_37, _3513077_37);
+Obj _3513079_37 = makeCons(co->gc, _3513062_37, _3513078_37);
+Obj _3513080_37 = makeCons(co->gc, _3513059_37, _3513079_37);
+Obj _3513081_37 = makeCons(co->gc, _3513056_37, _3513080_37);
+Obj _3513082_37 = makeCons(co->gc, _3513053_37, _3513081_37);
+Obj _3513083_37 = makeCons(co->gc, _3513050_37, _3513082_37);
+Obj _3513084_37 = makeCons(co->gc, _3513047_37, _3513083_37);
+Obj _3513085_37 = makeCons(co->gc, _3513044_37, _3513084_37);
+Obj _3513086_37 = makeCons(co->gc, _3513041_37, _3513085_37);
+Obj _3513087_37 = makeCons(co->gc, _3513038_37, _3513086_37);
+Obj _3513088_37 = makeCons(co->gc, _3513035_37, _3513087_37);
+Obj _3513089_37 = makeCons(co->gc, _3513032_37, _3513088_37);
+Obj _3513090_37 = makeCons(co->gc, _3513029_37, _3513089_37);
+Obj _3513091_37 = makeCons(co->gc, _3513026_37, _3513090_37);
+Obj _3513092_37 = primSet(co, getBinding(co, packageID, 69).name, _3513091_37);
+Obj _3513107_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj _3513111_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj _3513289_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj _3513290_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj _3513291_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513290_37);
+Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513291_37);
+Obj _3513293_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513292_37);
+Obj _3513294_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513293_37);
+Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513294_37);
+Obj _3513296_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513295_37);
+Obj _3513297_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513296_37);
+Obj _3513298_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513297_37);
+Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513298_37);
+Obj _3513300_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513299_37);
+Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513300_37);
+Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513301_37);
+Obj _3513303_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513302_37);
+Obj _3513304_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513303_37);
+Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513304_37);
+Obj _3513306_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513305_37);
+Obj _3513307_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513306_37);
+Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513307_37);
+Obj _3513309_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513308_37);
+Obj _3513310_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513309_37);
+Obj _3513311_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513310_37);
+Obj _3513312_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513311_37);
+Obj _3513313_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513312_37);
+Obj _3513314_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513313_37);
+Obj _3513315_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513314_37);
+Obj _3513316_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513315_37);
+Obj _3513317_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513316_37);
+Obj _3513318_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513317_37);
+Obj _3513319_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513318_37);
+Obj _3513320_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513319_37);
+Obj _3513321_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513320_37);
+Obj _3513322_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513321_37);
+Obj _3513323_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513322_37);
+Obj _3513324_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513323_37);
+Obj _3513325_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513324_37);
+Obj _3513326_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513325_37);
+Obj _3513327_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513326_37);
+Obj _3513328_37 = primSet(co, getBinding(co, packageID, 53).name, _3513327_37);
+Obj _3513329_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj _3513330_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj _3513331_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj _3513332_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj _3513333_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj _3513334_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj _3513335_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj _3513336_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj _3513337_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj _3513338_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj _3513339_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj _3513340_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj _3513341_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj _3513342_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj _3513343_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj _3513344_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj _3513345_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj _3513346_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj _3513347_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj _3513348_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj _3513349_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj _3513350_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj _3513351_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj _3513352_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj _3513353_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj _3513354_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj _3513355_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj _3513356_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj _3513357_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj _3513358_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj _3513359_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj _3513360_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj _3513361_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj _3513362_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj _3513363_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj _3513364_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj _3513365_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj _3513366_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj _3513367_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, _3513367_37);
 return;
 }
 case 2:
 {
-Obj _3512936_37= co->res;
-Obj _3512965_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3512966_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3512955_37= co->res;
+Obj _3512984_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj _3512985_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512919_37= co->res;
-Obj _3512933_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3512938_37= co->res;
+Obj _3512952_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512897_37= co->res;
-Obj _3512917_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj _3512916_37= co->res;
+Obj _3512936_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512866_37= co->res;
-Obj _3512867_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512868_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512871_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512895_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj _3512885_37= co->res;
+Obj _3512886_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj _3512887_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj _3512890_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj _3512914_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512758_37= co->res;
-Obj _3512810_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512811_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512816_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512820_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512821_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512829_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512830_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512836_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512847_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512853_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj _3512777_37= co->res;
+Obj _3512829_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj _3512830_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj _3512835_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj _3512839_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj _3512840_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj _3512848_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj _3512849_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3512855_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3512866_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj _3512872_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512653_37= co->res;
-Obj _3512675_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512708_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512721_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512743_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512757_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj _3512672_37= co->res;
+Obj _3512694_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj _3512727_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj _3512740_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj _3512762_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj _3512776_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512638_37= co->res;
-Obj _3512641_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512651_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj _3512657_37= co->res;
+Obj _3512660_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj _3512670_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512624_37= co->res;
-Obj _3512636_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj _3512643_37= co->res;
+Obj _3512655_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512610_37= co->res;
-Obj _3512622_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj _3512629_37= co->res;
+Obj _3512641_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512596_37= co->res;
+Obj _3512615_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512574_37= co->res;
-Obj _3512579_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512582_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512594_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj _3512593_37= co->res;
+Obj _3512598_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj _3512601_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj _3512613_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512564_37= co->res;
+Obj _3512583_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512562_37= co->res;
+Obj _3512581_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512507_37= co->res;
-Obj _3512508_37 = primSet(co, getBinding(co, packageID, 149).name, _3512507_37);
-Obj _3512514_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512515_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512516_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3512517_37 = primGenSym(co);
-Obj _3512518_37 = primSet(co, getBinding(co, packageID, 145).name, _3512517_37);
-Obj _3512522_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512531_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512532_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512549_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512550_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3512561_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj _3512526_37= co->res;
+Obj _3512527_37 = primSet(co, getBinding(co, packageID, 149).name, _3512526_37);
+Obj _3512533_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj _3512534_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj _3512535_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj _3512536_37 = primGenSym(co);
+Obj _3512537_37 = primSet(co, getBinding(co, packageID, 145).name, _3512536_37);
+Obj _3512541_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj _3512550_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj _3512551_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj _3512568_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj _3512569_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj _3512580_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -594,67 +594,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512437_37 = R[1];
-Obj _3512438_37 = R[2];
-Obj _3512439_37 = R[3];
-Obj _3512440_37 = R[4];
-Obj _3512461_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512437_37, _3512438_37, _3512439_37, _3512440_37);
-R[1] = _3512440_37;
-R[2] = _3512461_37;
+Obj _3512456_37 = R[1];
+Obj _3512457_37 = R[2];
+Obj _3512458_37 = R[3];
+Obj _3512459_37 = R[4];
+Obj _3512480_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512456_37, _3512457_37, _3512458_37, _3512459_37);
+R[1] = _3512459_37;
+R[2] = _3512480_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512459_37);
 return;
 }
 case 1:
 {
-Obj _3513269_37= co->res;
-Obj _3512461_37 = R[1];
-if (True == _3513269_37) {
+Obj _3513288_37= co->res;
+Obj _3512480_37 = R[1];
+if (True == _3513288_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512480_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, False);
+coraCall1(co, _3512480_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513268_37= co->res;
-Obj _3512440_37 = R[1];
-Obj _3512461_37 = R[2];
-if (True == _3513268_37) {
+Obj _3513287_37= co->res;
+Obj _3512459_37 = R[1];
+Obj _3512480_37 = R[2];
+if (True == _3513287_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512480_37, True);
 return;
 } else {
-R[1] = _3512461_37;
+R[1] = _3512480_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512459_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513266_37= co->res;
-Obj _3512440_37 = R[1];
-Obj _3512461_37 = R[2];
-if (True == _3513266_37) {
+Obj _3513285_37= co->res;
+Obj _3512459_37 = R[1];
+Obj _3512480_37 = R[2];
+if (True == _3513285_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512480_37, True);
 return;
 } else {
-Obj _3513267_37 = primIsString(_3512440_37);
-if (True == _3513267_37) {
+Obj _3513286_37 = primIsString(_3512459_37);
+if (True == _3513286_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512480_37, True);
 return;
 } else {
-R[1] = _3512440_37;
-R[2] = _3512461_37;
+R[1] = _3512459_37;
+R[2] = _3512480_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512459_37);
 return;
 }
 }
@@ -666,49 +666,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512462_37 = R[1];
-if (True == _3512462_37) {
+Obj _3512481_37 = R[1];
+if (True == _3512481_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512442_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513254_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513254_37) {
-Obj _3513255_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513256_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513255_37);
-if (True == _3513256_37) {
-Obj _3513257_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513258_37 = PRIM_ISCONS(_3513257_37);
-if (True == _3513258_37) {
-Obj _3513259_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513260_37 = PRIM_CAR(_3513259_37);
-Obj x = _3513260_37;
-Obj _3513261_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513262_37 = PRIM_CDR(_3513261_37);
-Obj _3513263_37 = PRIM_EQ(Nil, _3513262_37);
-if (True == _3513263_37) {
-Obj _3513264_37 = makeCons(co->gc, x, Nil);
-Obj _3513265_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513264_37);
-coraReturn(co, _3513265_37);
+Obj _3512461_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3513273_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3513273_37) {
+Obj _3513274_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3513275_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513274_37);
+if (True == _3513275_37) {
+Obj _3513276_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513277_37 = PRIM_ISCONS(_3513276_37);
+if (True == _3513277_37) {
+Obj _3513278_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513279_37 = PRIM_CAR(_3513278_37);
+Obj x = _3513279_37;
+Obj _3513280_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513281_37 = PRIM_CDR(_3513280_37);
+Obj _3513282_37 = PRIM_EQ(Nil, _3513281_37);
+if (True == _3513282_37) {
+Obj _3513283_37 = makeCons(co->gc, x, Nil);
+Obj _3513284_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513283_37);
+coraReturn(co, _3513284_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512461_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512461_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512461_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512461_37);
 return;
 }
 }
@@ -720,37 +720,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513093_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513093_37) {
+Obj _3513112_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3513112_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3512444_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513232_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513232_37) {
-Obj _3513233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513234_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513233_37);
-if (True == _3513234_37) {
-Obj _3513235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513236_37 = PRIM_ISCONS(_3513235_37);
-if (True == _3513236_37) {
-Obj _3513237_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513238_37 = PRIM_CAR(_3513237_37);
-Obj args = _3513238_37;
-Obj _3513239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513240_37 = PRIM_CDR(_3513239_37);
-Obj _3513241_37 = PRIM_ISCONS(_3513240_37);
-if (True == _3513241_37) {
-Obj _3513242_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513243_37 = PRIM_CDR(_3513242_37);
-Obj _3513244_37 = PRIM_CAR(_3513243_37);
-Obj body = _3513244_37;
-Obj _3513245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513246_37 = PRIM_CDR(_3513245_37);
-Obj _3513247_37 = PRIM_CDR(_3513246_37);
-Obj _3513248_37 = PRIM_EQ(Nil, _3513247_37);
-if (True == _3513248_37) {
+Obj _3512463_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513251_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513251_37) {
+Obj _3513252_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513253_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513252_37);
+if (True == _3513253_37) {
+Obj _3513254_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513255_37 = PRIM_ISCONS(_3513254_37);
+if (True == _3513255_37) {
+Obj _3513256_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513257_37 = PRIM_CAR(_3513256_37);
+Obj args = _3513257_37;
+Obj _3513258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513259_37 = PRIM_CDR(_3513258_37);
+Obj _3513260_37 = PRIM_ISCONS(_3513259_37);
+if (True == _3513260_37) {
+Obj _3513261_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513262_37 = PRIM_CDR(_3513261_37);
+Obj _3513263_37 = PRIM_CAR(_3513262_37);
+Obj body = _3513263_37;
+Obj _3513264_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513265_37 = PRIM_CDR(_3513264_37);
+Obj _3513266_37 = PRIM_CDR(_3513265_37);
+Obj _3513267_37 = PRIM_EQ(Nil, _3513266_37);
+if (True == _3513267_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun92, 4, R);
@@ -758,35 +758,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), args, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512463_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513095_37= co->res;
-if (True == _3513095_37) {
+Obj _3513114_37= co->res;
+if (True == _3513114_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -797,8 +797,8 @@ return;
 }
 case 2:
 {
-Obj _3513094_37= co->res;
-if (True == _3513094_37) {
+Obj _3513113_37= co->res;
+if (True == _3513113_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -809,22 +809,22 @@ return;
 }
 case 3:
 {
-Obj _3513250_37= co->res;
+Obj _3513269_37= co->res;
 Obj args = R[1];
-Obj _3513251_37 = makeCons(co->gc, _3513250_37, Nil);
-Obj _3513252_37 = makeCons(co->gc, args, _3513251_37);
-Obj _3513253_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513252_37);
-coraReturn(co, _3513253_37);
+Obj _3513270_37 = makeCons(co->gc, _3513269_37, Nil);
+Obj _3513271_37 = makeCons(co->gc, args, _3513270_37);
+Obj _3513272_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513271_37);
+coraReturn(co, _3513272_37);
 return;
 }
 case 4:
 {
-Obj _3513249_37= co->res;
+Obj _3513268_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513249_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513268_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
 return;
 }
 }
@@ -834,132 +834,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512445_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513188_37) {
-Obj _3513189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513190_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513189_37);
-if (True == _3513190_37) {
-Obj _3513191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513192_37 = PRIM_ISCONS(_3513191_37);
-if (True == _3513192_37) {
-Obj _3513193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513194_37 = PRIM_CAR(_3513193_37);
-Obj _3513195_37 = PRIM_ISCONS(_3513194_37);
-if (True == _3513195_37) {
-Obj _3513196_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513197_37 = PRIM_CAR(_3513196_37);
-Obj _3513198_37 = PRIM_CAR(_3513197_37);
-Obj _3513199_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513198_37);
-if (True == _3513199_37) {
-Obj _3513200_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513201_37 = PRIM_CAR(_3513200_37);
-Obj _3513202_37 = PRIM_CDR(_3513201_37);
-Obj _3513203_37 = PRIM_ISCONS(_3513202_37);
-if (True == _3513203_37) {
-Obj _3513204_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513205_37 = PRIM_CAR(_3513204_37);
-Obj _3513206_37 = PRIM_CDR(_3513205_37);
-Obj _3513207_37 = PRIM_CAR(_3513206_37);
-Obj pkg = _3513207_37;
-Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513209_37 = PRIM_CAR(_3513208_37);
-Obj _3513210_37 = PRIM_CDR(_3513209_37);
-Obj _3513211_37 = PRIM_CDR(_3513210_37);
-Obj _3513212_37 = PRIM_EQ(Nil, _3513211_37);
-if (True == _3513212_37) {
-Obj _3513213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513214_37 = PRIM_CDR(_3513213_37);
-Obj _3513215_37 = PRIM_ISCONS(_3513214_37);
-if (True == _3513215_37) {
-Obj _3513216_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513217_37 = PRIM_CDR(_3513216_37);
-Obj _3513218_37 = PRIM_CAR(_3513217_37);
-Obj y = _3513218_37;
+Obj _3512464_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513207_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513207_37) {
+Obj _3513208_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513209_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513208_37);
+if (True == _3513209_37) {
+Obj _3513210_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513211_37 = PRIM_ISCONS(_3513210_37);
+if (True == _3513211_37) {
+Obj _3513212_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513213_37 = PRIM_CAR(_3513212_37);
+Obj _3513214_37 = PRIM_ISCONS(_3513213_37);
+if (True == _3513214_37) {
+Obj _3513215_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513216_37 = PRIM_CAR(_3513215_37);
+Obj _3513217_37 = PRIM_CAR(_3513216_37);
+Obj _3513218_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513217_37);
+if (True == _3513218_37) {
 Obj _3513219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513220_37 = PRIM_CDR(_3513219_37);
+Obj _3513220_37 = PRIM_CAR(_3513219_37);
 Obj _3513221_37 = PRIM_CDR(_3513220_37);
-Obj _3513222_37 = PRIM_EQ(Nil, _3513221_37);
+Obj _3513222_37 = PRIM_ISCONS(_3513221_37);
 if (True == _3513222_37) {
-Obj _3513223_37 = primIsString(pkg);
-if (True == _3513223_37) {
-Obj _3513224_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513225_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513224_37);
+Obj _3513223_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513224_37 = PRIM_CAR(_3513223_37);
+Obj _3513225_37 = PRIM_CDR(_3513224_37);
+Obj _3513226_37 = PRIM_CAR(_3513225_37);
+Obj pkg = _3513226_37;
+Obj _3513227_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513228_37 = PRIM_CAR(_3513227_37);
+Obj _3513229_37 = PRIM_CDR(_3513228_37);
+Obj _3513230_37 = PRIM_CDR(_3513229_37);
+Obj _3513231_37 = PRIM_EQ(Nil, _3513230_37);
+if (True == _3513231_37) {
+Obj _3513232_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513233_37 = PRIM_CDR(_3513232_37);
+Obj _3513234_37 = PRIM_ISCONS(_3513233_37);
+if (True == _3513234_37) {
+Obj _3513235_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513236_37 = PRIM_CDR(_3513235_37);
+Obj _3513237_37 = PRIM_CAR(_3513236_37);
+Obj y = _3513237_37;
+Obj _3513238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513239_37 = PRIM_CDR(_3513238_37);
+Obj _3513240_37 = PRIM_CDR(_3513239_37);
+Obj _3513241_37 = PRIM_EQ(Nil, _3513240_37);
+if (True == _3513241_37) {
+Obj _3513242_37 = primIsString(pkg);
+if (True == _3513242_37) {
+Obj _3513243_37 = makeCons(co->gc, pkg, Nil);
+Obj _3513244_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513243_37);
 R[1] = pkg;
 R[2] = y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513225_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513244_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512464_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513228_37= co->res;
-Obj _3513226_37 = R[1];
-Obj _3513229_37 = makeCons(co->gc, _3513228_37, Nil);
-Obj _3513230_37 = makeCons(co->gc, _3513226_37, _3513229_37);
-Obj _3513231_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513230_37);
-coraReturn(co, _3513231_37);
+Obj _3513247_37= co->res;
+Obj _3513245_37 = R[1];
+Obj _3513248_37 = makeCons(co->gc, _3513247_37, Nil);
+Obj _3513249_37 = makeCons(co->gc, _3513245_37, _3513248_37);
+Obj _3513250_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513249_37);
+coraReturn(co, _3513250_37);
 return;
 }
 case 2:
 {
-Obj _3513226_37= co->res;
+Obj _3513245_37= co->res;
 Obj pkg = R[1];
 Obj y = R[2];
-Obj _3513227_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513226_37;
+Obj _3513246_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
+R[1] = _3513245_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513227_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513246_37, y);
 return;
 }
 }
@@ -969,34 +969,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512446_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513180_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513180_37) {
-Obj _3513181_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513181_37;
-Obj _3513182_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513182_37;
-Obj _3512463_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512446_37);
-Obj _3513186_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
-if (True == _3513186_37) {
+Obj _3512465_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513199_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513199_37) {
+Obj _3513200_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3513200_37;
+Obj _3513201_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3513201_37;
+Obj _3512482_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512465_37);
+Obj _3513205_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
+if (True == _3513205_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, _3512482_37, True);
 return;
 } else {
-Obj _3513187_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
-if (True == _3513187_37) {
+Obj _3513206_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
+if (True == _3513206_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, _3512482_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, False);
+coraCall1(co, _3512482_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512446_37);
+coraCall0(co, _3512465_37);
 return;
 }
 }
@@ -1007,8 +1007,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512464_37 = R[1];
-if (True == _3512464_37) {
+Obj _3512483_37 = R[1];
+if (True == _3512483_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1020,16 +1020,16 @@ return;
 }
 case 1:
 {
-Obj _3513184_37= co->res;
-Obj _3513185_37 = makeCons(co->gc, closureRef(R[0], 0), _3513184_37);
-coraReturn(co, _3513185_37);
+Obj _3513203_37= co->res;
+Obj _3513204_37 = makeCons(co->gc, closureRef(R[0], 0), _3513203_37);
+coraReturn(co, _3513204_37);
 return;
 }
 case 2:
 {
-Obj _3513183_37= co->res;
+Obj _3513202_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513183_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513202_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1039,42 +1039,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512447_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513147_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513147_37) {
-Obj _3513148_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513149_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513148_37);
-if (True == _3513149_37) {
-Obj _3513150_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513151_37 = PRIM_ISCONS(_3513150_37);
-if (True == _3513151_37) {
-Obj _3513152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513153_37 = PRIM_CAR(_3513152_37);
-Obj a = _3513153_37;
-Obj _3513154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513155_37 = PRIM_CDR(_3513154_37);
-Obj _3513156_37 = PRIM_ISCONS(_3513155_37);
-if (True == _3513156_37) {
-Obj _3513157_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513158_37 = PRIM_CDR(_3513157_37);
-Obj _3513159_37 = PRIM_CAR(_3513158_37);
-Obj b = _3513159_37;
-Obj _3513160_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513161_37 = PRIM_CDR(_3513160_37);
-Obj _3513162_37 = PRIM_CDR(_3513161_37);
-Obj _3513163_37 = PRIM_ISCONS(_3513162_37);
-if (True == _3513163_37) {
-Obj _3513164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513165_37 = PRIM_CDR(_3513164_37);
-Obj _3513166_37 = PRIM_CDR(_3513165_37);
-Obj _3513167_37 = PRIM_CAR(_3513166_37);
-Obj c = _3513167_37;
-Obj _3513168_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513169_37 = PRIM_CDR(_3513168_37);
-Obj _3513170_37 = PRIM_CDR(_3513169_37);
-Obj _3513171_37 = PRIM_CDR(_3513170_37);
-Obj _3513172_37 = PRIM_EQ(Nil, _3513171_37);
-if (True == _3513172_37) {
+Obj _3512466_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513166_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513166_37) {
+Obj _3513167_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513168_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513167_37);
+if (True == _3513168_37) {
+Obj _3513169_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513170_37 = PRIM_ISCONS(_3513169_37);
+if (True == _3513170_37) {
+Obj _3513171_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513172_37 = PRIM_CAR(_3513171_37);
+Obj a = _3513172_37;
+Obj _3513173_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513174_37 = PRIM_CDR(_3513173_37);
+Obj _3513175_37 = PRIM_ISCONS(_3513174_37);
+if (True == _3513175_37) {
+Obj _3513176_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513177_37 = PRIM_CDR(_3513176_37);
+Obj _3513178_37 = PRIM_CAR(_3513177_37);
+Obj b = _3513178_37;
+Obj _3513179_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513180_37 = PRIM_CDR(_3513179_37);
+Obj _3513181_37 = PRIM_CDR(_3513180_37);
+Obj _3513182_37 = PRIM_ISCONS(_3513181_37);
+if (True == _3513182_37) {
+Obj _3513183_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513184_37 = PRIM_CDR(_3513183_37);
+Obj _3513185_37 = PRIM_CDR(_3513184_37);
+Obj _3513186_37 = PRIM_CAR(_3513185_37);
+Obj c = _3513186_37;
+Obj _3513187_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513188_37 = PRIM_CDR(_3513187_37);
+Obj _3513189_37 = PRIM_CDR(_3513188_37);
+Obj _3513190_37 = PRIM_CDR(_3513189_37);
+Obj _3513191_37 = PRIM_EQ(Nil, _3513190_37);
+if (True == _3513191_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun88, 2, R);
@@ -1082,57 +1082,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512466_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512466_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512466_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512466_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512466_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512466_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513175_37= co->res;
-Obj _3513173_37 = R[1];
+Obj _3513194_37= co->res;
+Obj _3513192_37 = R[1];
 Obj a = R[2];
-Obj _3513176_37 = makeCons(co->gc, _3513175_37, Nil);
-Obj _3513177_37 = makeCons(co->gc, _3513173_37, _3513176_37);
-Obj _3513178_37 = makeCons(co->gc, a, _3513177_37);
-Obj _3513179_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513178_37);
-coraReturn(co, _3513179_37);
+Obj _3513195_37 = makeCons(co->gc, _3513194_37, Nil);
+Obj _3513196_37 = makeCons(co->gc, _3513192_37, _3513195_37);
+Obj _3513197_37 = makeCons(co->gc, a, _3513196_37);
+Obj _3513198_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513197_37);
+coraReturn(co, _3513198_37);
 return;
 }
 case 2:
 {
-Obj _3513173_37= co->res;
+Obj _3513192_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3513174_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513173_37;
+Obj _3513193_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3513192_37;
 R[2] = a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513174_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513193_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
 return;
 }
 }
@@ -1142,73 +1142,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512448_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513121_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513121_37) {
-Obj _3513122_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513123_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513122_37);
-if (True == _3513123_37) {
-Obj _3513124_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513125_37 = PRIM_ISCONS(_3513124_37);
-if (True == _3513125_37) {
-Obj _3513126_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513127_37 = PRIM_CAR(_3513126_37);
-Obj path = _3513127_37;
-Obj _3513128_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513129_37 = PRIM_CDR(_3513128_37);
-Obj _3513130_37 = PRIM_ISCONS(_3513129_37);
-if (True == _3513130_37) {
-Obj _3513131_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513132_37 = PRIM_CDR(_3513131_37);
-Obj _3513133_37 = PRIM_CAR(_3513132_37);
-Obj import = _3513133_37;
-Obj _3513134_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513135_37 = PRIM_CDR(_3513134_37);
-Obj _3513136_37 = PRIM_CDR(_3513135_37);
-Obj _3513137_37 = PRIM_ISCONS(_3513136_37);
-if (True == _3513137_37) {
-Obj _3513138_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513139_37 = PRIM_CDR(_3513138_37);
-Obj _3513140_37 = PRIM_CDR(_3513139_37);
-Obj _3513141_37 = PRIM_CAR(_3513140_37);
-Obj body = _3513141_37;
-Obj _3513142_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513143_37 = PRIM_CDR(_3513142_37);
-Obj _3513144_37 = PRIM_CDR(_3513143_37);
-Obj _3513145_37 = PRIM_CDR(_3513144_37);
-Obj _3513146_37 = PRIM_EQ(Nil, _3513145_37);
-if (True == _3513146_37) {
+Obj _3512467_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513140_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3513140_37) {
+Obj _3513141_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3513142_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513141_37);
+if (True == _3513142_37) {
+Obj _3513143_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513144_37 = PRIM_ISCONS(_3513143_37);
+if (True == _3513144_37) {
+Obj _3513145_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513146_37 = PRIM_CAR(_3513145_37);
+Obj path = _3513146_37;
+Obj _3513147_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513148_37 = PRIM_CDR(_3513147_37);
+Obj _3513149_37 = PRIM_ISCONS(_3513148_37);
+if (True == _3513149_37) {
+Obj _3513150_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513151_37 = PRIM_CDR(_3513150_37);
+Obj _3513152_37 = PRIM_CAR(_3513151_37);
+Obj import = _3513152_37;
+Obj _3513153_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513154_37 = PRIM_CDR(_3513153_37);
+Obj _3513155_37 = PRIM_CDR(_3513154_37);
+Obj _3513156_37 = PRIM_ISCONS(_3513155_37);
+if (True == _3513156_37) {
+Obj _3513157_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513158_37 = PRIM_CDR(_3513157_37);
+Obj _3513159_37 = PRIM_CDR(_3513158_37);
+Obj _3513160_37 = PRIM_CAR(_3513159_37);
+Obj body = _3513160_37;
+Obj _3513161_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513162_37 = PRIM_CDR(_3513161_37);
+Obj _3513163_37 = PRIM_CDR(_3513162_37);
+Obj _3513164_37 = PRIM_CDR(_3513163_37);
+Obj _3513165_37 = PRIM_EQ(Nil, _3513164_37);
+if (True == _3513165_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), path, import, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512467_37);
 return;
 }
 }
@@ -1219,79 +1219,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512449_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513097_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513097_37) {
-Obj _3513098_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513099_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513098_37);
-if (True == _3513099_37) {
-Obj _3513100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513101_37 = PRIM_ISCONS(_3513100_37);
-if (True == _3513101_37) {
-Obj _3513102_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513103_37 = PRIM_CAR(_3513102_37);
-Obj var = _3513103_37;
-Obj _3513104_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513105_37 = PRIM_CDR(_3513104_37);
-Obj _3513106_37 = PRIM_ISCONS(_3513105_37);
-if (True == _3513106_37) {
-Obj _3513107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513108_37 = PRIM_CDR(_3513107_37);
-Obj _3513109_37 = PRIM_CAR(_3513108_37);
-Obj val = _3513109_37;
-Obj _3513110_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513111_37 = PRIM_CDR(_3513110_37);
-Obj _3513112_37 = PRIM_CDR(_3513111_37);
-Obj _3513113_37 = PRIM_EQ(Nil, _3513112_37);
-if (True == _3513113_37) {
+Obj _3512468_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj _3513116_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513116_37) {
+Obj _3513117_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513118_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513117_37);
+if (True == _3513118_37) {
+Obj _3513119_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513120_37 = PRIM_ISCONS(_3513119_37);
+if (True == _3513120_37) {
+Obj _3513121_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513122_37 = PRIM_CAR(_3513121_37);
+Obj var = _3513122_37;
+Obj _3513123_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513124_37 = PRIM_CDR(_3513123_37);
+Obj _3513125_37 = PRIM_ISCONS(_3513124_37);
+if (True == _3513125_37) {
+Obj _3513126_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513127_37 = PRIM_CDR(_3513126_37);
+Obj _3513128_37 = PRIM_CAR(_3513127_37);
+Obj val = _3513128_37;
+Obj _3513129_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513130_37 = PRIM_CDR(_3513129_37);
+Obj _3513131_37 = PRIM_CDR(_3513130_37);
+Obj _3513132_37 = PRIM_EQ(Nil, _3513131_37);
+if (True == _3513132_37) {
 R[1] = val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512468_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513117_37= co->res;
-Obj _3513116_37 = R[1];
-Obj _3513118_37 = makeCons(co->gc, _3513117_37, Nil);
-Obj _3513119_37 = makeCons(co->gc, _3513116_37, _3513118_37);
-Obj _3513120_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513119_37);
-coraReturn(co, _3513120_37);
+Obj _3513136_37= co->res;
+Obj _3513135_37 = R[1];
+Obj _3513137_37 = makeCons(co->gc, _3513136_37, Nil);
+Obj _3513138_37 = makeCons(co->gc, _3513135_37, _3513137_37);
+Obj _3513139_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513138_37);
+coraReturn(co, _3513139_37);
 return;
 }
 case 2:
 {
-Obj _3513114_37= co->res;
+Obj _3513133_37= co->res;
 Obj val = R[1];
-Obj var1 = _3513114_37;
-Obj _3513115_37 = makeCons(co->gc, var1, Nil);
-Obj _3513116_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513115_37);
-R[1] = _3513116_37;
+Obj var1 = _3513133_37;
+Obj _3513134_37 = makeCons(co->gc, var1, Nil);
+Obj _3513135_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513134_37);
+R[1] = _3513135_37;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
 return;
@@ -1309,9 +1309,9 @@ return;
 }
 case 1:
 {
-Obj _3513096_37= co->res;
+Obj _3513115_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513096_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513115_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1328,16 +1328,16 @@ return;
 }
 case 1:
 {
-Obj _3513090_37= co->res;
-Obj _3513091_37 = primNot(_3513090_37);
-coraReturn(co, _3513091_37);
+Obj _3513109_37= co->res;
+Obj _3513110_37 = primNot(_3513109_37);
+coraReturn(co, _3513110_37);
 return;
 }
 case 2:
 {
-Obj _3513089_37= co->res;
+Obj _3513108_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513089_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513108_37);
 return;
 }
 }
@@ -1347,44 +1347,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512432_37 = R[1];
-Obj _3512433_37 = R[2];
-Obj _3513074_37 = PRIM_EQ(Nil, _3512433_37);
-if (True == _3513074_37) {
+Obj _3512451_37 = R[1];
+Obj _3512452_37 = R[2];
+Obj _3513093_37 = PRIM_EQ(Nil, _3512452_37);
+if (True == _3513093_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512435_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512433_37, _3512432_37);
-Obj _3513078_37 = PRIM_ISCONS(_3512433_37);
-if (True == _3513078_37) {
-Obj _3513079_37 = PRIM_CAR(_3512433_37);
-Obj _3513080_37 = PRIM_ISCONS(_3513079_37);
-if (True == _3513080_37) {
-Obj _3513081_37 = PRIM_CAR(_3512433_37);
-Obj _3513082_37 = PRIM_CAR(_3513081_37);
-Obj x = _3513082_37;
-Obj _3513083_37 = PRIM_CAR(_3512433_37);
-Obj _3513084_37 = PRIM_CDR(_3513083_37);
-Obj y = _3513084_37;
-Obj _3513085_37 = PRIM_CDR(_3512433_37);
-Obj _3513086_37 = PRIM_EQ(_3512432_37, x);
-if (True == _3513086_37) {
-Obj _3513087_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513087_37);
+Obj _3512454_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512452_37, _3512451_37);
+Obj _3513097_37 = PRIM_ISCONS(_3512452_37);
+if (True == _3513097_37) {
+Obj _3513098_37 = PRIM_CAR(_3512452_37);
+Obj _3513099_37 = PRIM_ISCONS(_3513098_37);
+if (True == _3513099_37) {
+Obj _3513100_37 = PRIM_CAR(_3512452_37);
+Obj _3513101_37 = PRIM_CAR(_3513100_37);
+Obj x = _3513101_37;
+Obj _3513102_37 = PRIM_CAR(_3512452_37);
+Obj _3513103_37 = PRIM_CDR(_3513102_37);
+Obj y = _3513103_37;
+Obj _3513104_37 = PRIM_CDR(_3512452_37);
+Obj _3513105_37 = PRIM_EQ(_3512451_37, x);
+if (True == _3513105_37) {
+Obj _3513106_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3513106_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512454_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512454_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512454_37);
 return;
 }
 }
@@ -1396,11 +1396,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513075_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513075_37) {
-Obj _3513076_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513077_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513077_37;
+Obj _3513094_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513094_37) {
+Obj _3513095_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513096_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3513096_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), y);
 return;
@@ -1417,24 +1417,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512427_37 = R[1];
-Obj _3512428_37 = R[2];
-Obj _3512429_37 = R[3];
-Obj _3512993_37 = PRIM_EQ(Nil, _3512429_37);
-if (True == _3512993_37) {
+Obj _3512446_37 = R[1];
+Obj _3512447_37 = R[2];
+Obj _3512448_37 = R[3];
+Obj _3513012_37 = PRIM_EQ(Nil, _3512448_37);
+if (True == _3513012_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512427_37, _3512428_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512446_37, _3512447_37);
 return;
 } else {
-Obj _3512994_37 = PRIM_ISCONS(_3512429_37);
-if (True == _3512994_37) {
-Obj _3512995_37 = PRIM_CAR(_3512429_37);
-Obj import = _3512995_37;
-Obj _3512996_37 = PRIM_CDR(_3512429_37);
-Obj more = _3512996_37;
+Obj _3513013_37 = PRIM_ISCONS(_3512448_37);
+if (True == _3513013_37) {
+Obj _3513014_37 = PRIM_CAR(_3512448_37);
+Obj import = _3513014_37;
+Obj _3513015_37 = PRIM_CDR(_3512448_37);
+Obj more = _3513015_37;
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512446_37;
+R[3] = _3512447_37;
 R[4] = more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, makeCString(co->gc, "#*ns-export*"));
@@ -1448,90 +1448,90 @@ return;
 }
 case 1:
 {
-Obj _3513003_37= co->res;
+Obj _3513022_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513003_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513022_37);
 return;
 }
 case 2:
 {
-Obj _3513002_37= co->res;
+Obj _3513021_37= co->res;
 Obj import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513002_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513021_37);
 return;
 }
 case 3:
 {
-Obj _3513001_37= co->res;
+Obj _3513020_37= co->res;
 Obj import = R[1];
 R[1] = import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513001_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513020_37);
 return;
 }
 case 4:
 {
-Obj _3513000_37= co->res;
+Obj _3513019_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512446_37 = R[2];
+Obj _3512447_37 = R[3];
 Obj more = R[4];
-if (True == _3513000_37) {
+if (True == _3513019_37) {
 R[1] = import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512427_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512446_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512427_37, _3512428_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512446_37, _3512447_37, more);
 return;
 }
 }
 case 5:
 {
-Obj _3512999_37= co->res;
+Obj _3513018_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512446_37 = R[2];
+Obj _3512447_37 = R[3];
 Obj more = R[4];
-Obj export = _3512999_37;
+Obj export = _3513018_37;
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512446_37;
+R[3] = _3512447_37;
 R[4] = more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512427_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512446_37, export);
 return;
 }
 case 6:
 {
-Obj _3512998_37= co->res;
+Obj _3513017_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512446_37 = R[2];
+Obj _3512447_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512446_37;
+R[3] = _3512447_37;
 R[4] = more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3512998_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513017_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3512997_37= co->res;
+Obj _3513016_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512446_37 = R[2];
+Obj _3512447_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512446_37;
+R[3] = _3512447_37;
 R[4] = more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512997_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513016_37);
 return;
 }
 }
@@ -1543,8 +1543,8 @@ case 0:
 {
 Obj var = R[1];
 Obj ns = R[2];
-Obj _3512987_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3512987_37) {
+Obj _3513006_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
+if (True == _3513006_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1557,34 +1557,34 @@ return;
 }
 case 1:
 {
-Obj _3512991_37= co->res;
+Obj _3513010_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512991_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513010_37);
 return;
 }
 case 2:
 {
-Obj _3512990_37= co->res;
+Obj _3513009_37= co->res;
 Obj ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3512990_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513009_37);
 return;
 }
 case 3:
 {
-Obj _3512989_37= co->res;
+Obj _3513008_37= co->res;
 Obj ns = R[1];
 R[1] = ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3512989_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513008_37);
 return;
 }
 case 4:
 {
-Obj _3512988_37= co->res;
+Obj _3513007_37= co->res;
 Obj var = R[1];
 Obj ns = R[2];
-if (True == _3512988_37) {
+if (True == _3513007_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1609,26 +1609,26 @@ return;
 }
 case 1:
 {
-Obj _3512969_37= co->res;
+Obj _3512988_37= co->res;
 Obj path = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3512969_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, _3512988_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
 return;
 }
 case 2:
 {
-Obj _3512968_37= co->res;
+Obj _3512987_37= co->res;
 Obj path = R[1];
 R[1] = path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3512968_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3512987_37);
 return;
 }
 case 3:
 {
-Obj _3512967_37= co->res;
+Obj _3512986_37= co->res;
 Obj sexp = R[1];
-Obj path = _3512967_37;
+Obj path = _3512986_37;
 R[1] = path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
@@ -1644,41 +1644,41 @@ case 0:
 Obj import = R[1];
 Obj export = R[2];
 Obj body = R[3];
-Obj _3512970_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
+Obj _3512989_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
 R[1] = export;
 R[2] = body;
-R[3] = _3512970_37;
+R[3] = _3512989_37;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
 return;
 }
 case 1:
 {
-Obj _3512980_37= co->res;
-Obj _3512970_37 = R[1];
-Obj _3512981_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3512980_37);
-Obj _3512982_37 = makeCons(co->gc, _3512981_37, Nil);
-Obj _3512983_37 = makeCons(co->gc, _3512970_37, _3512982_37);
-Obj _3512984_37 = makeCons(co->gc, closureRef(R[0], 0), _3512983_37);
-Obj _3512985_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3512984_37);
-coraReturn(co, _3512985_37);
+Obj _3512999_37= co->res;
+Obj _3512989_37 = R[1];
+Obj _3513000_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3512999_37);
+Obj _3513001_37 = makeCons(co->gc, _3513000_37, Nil);
+Obj _3513002_37 = makeCons(co->gc, _3512989_37, _3513001_37);
+Obj _3513003_37 = makeCons(co->gc, closureRef(R[0], 0), _3513002_37);
+Obj _3513004_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513003_37);
+coraReturn(co, _3513004_37);
 return;
 }
 case 2:
 {
-Obj _3512973_37= co->res;
+Obj _3512992_37= co->res;
 Obj export = R[1];
 Obj body = R[2];
-Obj _3512970_37 = R[3];
-Obj _3512974_37 = makeCons(co->gc, export, Nil);
-Obj _3512975_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3512974_37);
-Obj _3512976_37 = makeCons(co->gc, _3512975_37, Nil);
-Obj _3512977_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3512976_37);
-Obj _3512978_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512977_37);
-Obj _3512979_37 = makeCons(co->gc, _3512978_37, body);
-R[1] = _3512970_37;
+Obj _3512989_37 = R[3];
+Obj _3512993_37 = makeCons(co->gc, export, Nil);
+Obj _3512994_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3512993_37);
+Obj _3512995_37 = makeCons(co->gc, _3512994_37, Nil);
+Obj _3512996_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3512995_37);
+Obj _3512997_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512996_37);
+Obj _3512998_37 = makeCons(co->gc, _3512997_37, body);
+R[1] = _3512989_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512973_37, _3512979_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512992_37, _3512998_37);
 return;
 }
 }
@@ -1689,9 +1689,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj imp = R[1];
-Obj _3512971_37 = makeCons(co->gc, imp, Nil);
-Obj _3512972_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3512971_37);
-coraReturn(co, _3512972_37);
+Obj _3512990_37 = makeCons(co->gc, imp, Nil);
+Obj _3512991_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3512990_37);
+coraReturn(co, _3512991_37);
 return;
 }
 }
@@ -1714,62 +1714,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512420_37 = R[1];
-Obj _3512421_37 = R[2];
-Obj _3512422_37 = R[3];
-Obj _3512423_37 = R[4];
-Obj _3512424_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512422_37, _3512420_37, _3512421_37, _3512423_37);
-Obj _3512947_37 = PRIM_ISCONS(_3512420_37);
-if (True == _3512947_37) {
-Obj _3512948_37 = PRIM_CAR(_3512420_37);
-Obj _3512949_37 = PRIM_ISCONS(_3512948_37);
-if (True == _3512949_37) {
-Obj _3512950_37 = PRIM_CAR(_3512420_37);
-Obj _3512951_37 = PRIM_CAR(_3512950_37);
-Obj _3512952_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3512951_37);
-if (True == _3512952_37) {
-Obj _3512953_37 = PRIM_CAR(_3512420_37);
-Obj _3512954_37 = PRIM_CDR(_3512953_37);
-Obj _3512955_37 = PRIM_ISCONS(_3512954_37);
-if (True == _3512955_37) {
-Obj _3512956_37 = PRIM_CAR(_3512420_37);
-Obj _3512957_37 = PRIM_CDR(_3512956_37);
-Obj _3512958_37 = PRIM_CAR(_3512957_37);
-Obj lib = _3512958_37;
-Obj _3512959_37 = PRIM_CAR(_3512420_37);
-Obj _3512960_37 = PRIM_CDR(_3512959_37);
-Obj _3512961_37 = PRIM_CDR(_3512960_37);
-Obj _3512962_37 = PRIM_EQ(Nil, _3512961_37);
-if (True == _3512962_37) {
-Obj _3512963_37 = PRIM_CDR(_3512420_37);
-Obj rest = _3512963_37;
-Obj _3512964_37 = makeCons(co->gc, lib, _3512421_37);
+Obj _3512439_37 = R[1];
+Obj _3512440_37 = R[2];
+Obj _3512441_37 = R[3];
+Obj _3512442_37 = R[4];
+Obj _3512443_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512441_37, _3512439_37, _3512440_37, _3512442_37);
+Obj _3512966_37 = PRIM_ISCONS(_3512439_37);
+if (True == _3512966_37) {
+Obj _3512967_37 = PRIM_CAR(_3512439_37);
+Obj _3512968_37 = PRIM_ISCONS(_3512967_37);
+if (True == _3512968_37) {
+Obj _3512969_37 = PRIM_CAR(_3512439_37);
+Obj _3512970_37 = PRIM_CAR(_3512969_37);
+Obj _3512971_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3512970_37);
+if (True == _3512971_37) {
+Obj _3512972_37 = PRIM_CAR(_3512439_37);
+Obj _3512973_37 = PRIM_CDR(_3512972_37);
+Obj _3512974_37 = PRIM_ISCONS(_3512973_37);
+if (True == _3512974_37) {
+Obj _3512975_37 = PRIM_CAR(_3512439_37);
+Obj _3512976_37 = PRIM_CDR(_3512975_37);
+Obj _3512977_37 = PRIM_CAR(_3512976_37);
+Obj lib = _3512977_37;
+Obj _3512978_37 = PRIM_CAR(_3512439_37);
+Obj _3512979_37 = PRIM_CDR(_3512978_37);
+Obj _3512980_37 = PRIM_CDR(_3512979_37);
+Obj _3512981_37 = PRIM_EQ(Nil, _3512980_37);
+if (True == _3512981_37) {
+Obj _3512982_37 = PRIM_CDR(_3512439_37);
+Obj rest = _3512982_37;
+Obj _3512983_37 = makeCons(co->gc, lib, _3512440_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3512964_37, _3512422_37, _3512423_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3512983_37, _3512441_37, _3512442_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512443_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512443_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512443_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512443_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512443_37);
 return;
 }
 }
@@ -1780,37 +1780,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512425_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3512938_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512938_37) {
-Obj _3512939_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512940_37 = PRIM_ISCONS(_3512939_37);
-if (True == _3512940_37) {
-Obj _3512941_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512942_37 = PRIM_CAR(_3512941_37);
-Obj _3512943_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3512942_37);
-if (True == _3512943_37) {
-Obj _3512944_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512945_37 = PRIM_CDR(_3512944_37);
-Obj more = _3512945_37;
-Obj _3512946_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3512946_37;
+Obj _3512444_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3512957_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3512957_37) {
+Obj _3512958_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512959_37 = PRIM_ISCONS(_3512958_37);
+if (True == _3512959_37) {
+Obj _3512960_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512961_37 = PRIM_CAR(_3512960_37);
+Obj _3512962_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3512961_37);
+if (True == _3512962_37) {
+Obj _3512963_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512964_37 = PRIM_CDR(_3512963_37);
+Obj more = _3512964_37;
+Obj _3512965_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj rest = _3512965_37;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512444_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512444_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512444_37);
 return;
 }
 }
@@ -1827,9 +1827,9 @@ return;
 }
 case 1:
 {
-Obj _3512937_37= co->res;
+Obj _3512956_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3512937_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), _3512956_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1847,17 +1847,17 @@ return;
 }
 case 1:
 {
-Obj _3512935_37= co->res;
-Obj _3512934_37 = R[1];
+Obj _3512954_37= co->res;
+Obj _3512953_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3512934_37, _3512935_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3512953_37, _3512954_37);
 return;
 }
 case 2:
 {
-Obj _3512934_37= co->res;
+Obj _3512953_37= co->res;
 Obj exp = R[1];
-R[1] = _3512934_37;
+R[1] = _3512953_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
@@ -1879,57 +1879,57 @@ return;
 }
 case 1:
 {
-Obj _3512923_37= co->res;
-Obj _3512922_37 = R[1];
+Obj _3512942_37= co->res;
+Obj _3512941_37 = R[1];
 Obj fn = R[2];
-Obj _3512924_37 = makeCons(co->gc, _3512923_37, Nil);
-Obj _3512925_37 = makeCons(co->gc, _3512922_37, _3512924_37);
-Obj _3512926_37 = makeCons(co->gc, fn, _3512925_37);
-coraReturn(co, _3512926_37);
+Obj _3512943_37 = makeCons(co->gc, _3512942_37, Nil);
+Obj _3512944_37 = makeCons(co->gc, _3512941_37, _3512943_37);
+Obj _3512945_37 = makeCons(co->gc, fn, _3512944_37);
+coraReturn(co, _3512945_37);
 return;
 }
 case 2:
 {
-Obj _3512929_37= co->res;
-Obj _3512927_37 = R[1];
+Obj _3512948_37= co->res;
+Obj _3512946_37 = R[1];
 Obj fn = R[2];
-Obj _3512930_37 = makeCons(co->gc, _3512929_37, Nil);
-Obj _3512931_37 = makeCons(co->gc, _3512927_37, _3512930_37);
-Obj _3512932_37 = makeCons(co->gc, fn, _3512931_37);
-coraReturn(co, _3512932_37);
+Obj _3512949_37 = makeCons(co->gc, _3512948_37, Nil);
+Obj _3512950_37 = makeCons(co->gc, _3512946_37, _3512949_37);
+Obj _3512951_37 = makeCons(co->gc, fn, _3512950_37);
+coraReturn(co, _3512951_37);
 return;
 }
 case 3:
 {
-Obj _3512921_37= co->res;
+Obj _3512940_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
-if (True == _3512921_37) {
-Obj _3512922_37 = PRIM_CAR(arglist);
-R[1] = _3512922_37;
+if (True == _3512940_37) {
+Obj _3512941_37 = PRIM_CAR(arglist);
+R[1] = _3512941_37;
 R[2] = fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
 return;
 } else {
-Obj _3512927_37 = PRIM_CAR(arglist);
-Obj _3512928_37 = PRIM_CDR(arglist);
-R[1] = _3512927_37;
+Obj _3512946_37 = PRIM_CAR(arglist);
+Obj _3512947_37 = PRIM_CDR(arglist);
+R[1] = _3512946_37;
 R[2] = fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3512928_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3512947_37);
 return;
 }
 }
 case 4:
 {
-Obj _3512920_37= co->res;
+Obj _3512939_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
 R[1] = arglist;
 R[2] = fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512920_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512939_37);
 return;
 }
 }
@@ -1946,9 +1946,9 @@ return;
 }
 case 1:
 {
-Obj _3512918_37= co->res;
+Obj _3512937_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512918_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512937_37);
 return;
 }
 }
@@ -1958,50 +1958,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512415_37 = R[1];
-Obj _3512898_37 = primIsSymbol(_3512415_37);
-if (True == _3512898_37) {
-Obj _3512899_37 = makeCons(co->gc, _3512415_37, Nil);
-Obj _3512900_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512899_37);
-coraReturn(co, _3512900_37);
-return;
-} else {
-Obj _3512417_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512415_37);
-Obj _3512907_37 = PRIM_ISCONS(_3512415_37);
-if (True == _3512907_37) {
-Obj _3512908_37 = PRIM_CAR(_3512415_37);
-Obj _3512909_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512908_37);
-if (True == _3512909_37) {
-Obj _3512910_37 = PRIM_CDR(_3512415_37);
-Obj _3512911_37 = PRIM_ISCONS(_3512910_37);
-if (True == _3512911_37) {
-Obj _3512912_37 = PRIM_CDR(_3512415_37);
-Obj _3512913_37 = PRIM_CAR(_3512912_37);
-Obj x = _3512913_37;
-Obj _3512914_37 = PRIM_CDR(_3512415_37);
-Obj _3512915_37 = PRIM_CDR(_3512914_37);
-Obj _3512916_37 = PRIM_EQ(Nil, _3512915_37);
-if (True == _3512916_37) {
+Obj _3512434_37 = R[1];
+Obj _3512917_37 = primIsSymbol(_3512434_37);
+if (True == _3512917_37) {
+Obj _3512918_37 = makeCons(co->gc, _3512434_37, Nil);
+Obj _3512919_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512918_37);
+coraReturn(co, _3512919_37);
+return;
+} else {
+Obj _3512436_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512434_37);
+Obj _3512926_37 = PRIM_ISCONS(_3512434_37);
+if (True == _3512926_37) {
+Obj _3512927_37 = PRIM_CAR(_3512434_37);
+Obj _3512928_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512927_37);
+if (True == _3512928_37) {
+Obj _3512929_37 = PRIM_CDR(_3512434_37);
+Obj _3512930_37 = PRIM_ISCONS(_3512929_37);
+if (True == _3512930_37) {
+Obj _3512931_37 = PRIM_CDR(_3512434_37);
+Obj _3512932_37 = PRIM_CAR(_3512931_37);
+Obj x = _3512932_37;
+Obj _3512933_37 = PRIM_CDR(_3512434_37);
+Obj _3512934_37 = PRIM_CDR(_3512933_37);
+Obj _3512935_37 = PRIM_EQ(Nil, _3512934_37);
+if (True == _3512935_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512436_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512436_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512436_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512436_37);
 return;
 }
 }
@@ -2013,15 +2013,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512901_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512901_37) {
-Obj _3512902_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512902_37;
-Obj _3512903_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512903_37;
-Obj _3512904_37 = makeCons(co->gc, x, more);
+Obj _3512920_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512920_37) {
+Obj _3512921_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512921_37;
+Obj _3512922_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3512922_37;
+Obj _3512923_37 = makeCons(co->gc, x, more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512904_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512923_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2030,9 +2030,9 @@ return;
 }
 case 1:
 {
-Obj _3512905_37= co->res;
-Obj _3512906_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512905_37);
-coraReturn(co, _3512906_37);
+Obj _3512924_37= co->res;
+Obj _3512925_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512924_37);
+coraReturn(co, _3512925_37);
 return;
 }
 }
@@ -2043,9 +2043,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512896_37 = PRIM_CDR(exp);
+Obj _3512915_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512896_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512915_37);
 return;
 }
 }
@@ -2055,25 +2055,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512411_37 = R[1];
-Obj _3512412_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512411_37);
-Obj _3512891_37 = PRIM_ISCONS(_3512411_37);
-if (True == _3512891_37) {
-Obj _3512892_37 = PRIM_CAR(_3512411_37);
-Obj x = _3512892_37;
-Obj _3512893_37 = PRIM_CDR(_3512411_37);
-Obj _3512894_37 = PRIM_EQ(Nil, _3512893_37);
-if (True == _3512894_37) {
+Obj _3512430_37 = R[1];
+Obj _3512431_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512430_37);
+Obj _3512910_37 = PRIM_ISCONS(_3512430_37);
+if (True == _3512910_37) {
+Obj _3512911_37 = PRIM_CAR(_3512430_37);
+Obj x = _3512911_37;
+Obj _3512912_37 = PRIM_CDR(_3512430_37);
+Obj _3512913_37 = PRIM_EQ(Nil, _3512912_37);
+if (True == _3512913_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512412_37);
+coraCall0(co, _3512431_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512412_37);
+coraCall0(co, _3512431_37);
 return;
 }
 }
@@ -2084,39 +2084,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512413_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512879_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512879_37) {
-Obj _3512880_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512880_37;
-Obj _3512881_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512882_37 = PRIM_ISCONS(_3512881_37);
-if (True == _3512882_37) {
-Obj _3512883_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512884_37 = PRIM_CAR(_3512883_37);
-Obj y = _3512884_37;
-Obj _3512885_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512886_37 = PRIM_CDR(_3512885_37);
-Obj _3512887_37 = PRIM_EQ(Nil, _3512886_37);
-if (True == _3512887_37) {
-Obj _3512888_37 = makeCons(co->gc, y, Nil);
-Obj _3512889_37 = makeCons(co->gc, x, _3512888_37);
-Obj _3512890_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512889_37);
-coraReturn(co, _3512890_37);
+Obj _3512432_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj _3512898_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512898_37) {
+Obj _3512899_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512899_37;
+Obj _3512900_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512901_37 = PRIM_ISCONS(_3512900_37);
+if (True == _3512901_37) {
+Obj _3512902_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512903_37 = PRIM_CAR(_3512902_37);
+Obj y = _3512903_37;
+Obj _3512904_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512905_37 = PRIM_CDR(_3512904_37);
+Obj _3512906_37 = PRIM_EQ(Nil, _3512905_37);
+if (True == _3512906_37) {
+Obj _3512907_37 = makeCons(co->gc, y, Nil);
+Obj _3512908_37 = makeCons(co->gc, x, _3512907_37);
+Obj _3512909_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512908_37);
+coraReturn(co, _3512909_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512432_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512432_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512432_37);
 return;
 }
 }
@@ -2127,12 +2127,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512872_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512872_37) {
-Obj _3512873_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512873_37;
-Obj _3512874_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512874_37;
+Obj _3512891_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512891_37) {
+Obj _3512892_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512892_37;
+Obj _3512893_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512893_37;
 R[1] = x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), y);
@@ -2145,12 +2145,12 @@ return;
 }
 case 1:
 {
-Obj _3512875_37= co->res;
+Obj _3512894_37= co->res;
 Obj x = R[1];
-Obj _3512876_37 = makeCons(co->gc, _3512875_37, Nil);
-Obj _3512877_37 = makeCons(co->gc, x, _3512876_37);
-Obj _3512878_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512877_37);
-coraReturn(co, _3512878_37);
+Obj _3512895_37 = makeCons(co->gc, _3512894_37, Nil);
+Obj _3512896_37 = makeCons(co->gc, x, _3512895_37);
+Obj _3512897_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512896_37);
+coraReturn(co, _3512897_37);
 return;
 }
 }
@@ -2167,16 +2167,16 @@ return;
 }
 case 1:
 {
-Obj _3512870_37= co->res;
+Obj _3512889_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512870_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512889_37);
 return;
 }
 case 2:
 {
-Obj _3512869_37= co->res;
+Obj _3512888_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512869_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512888_37);
 return;
 }
 }
@@ -2217,25 +2217,25 @@ return;
 }
 case 1:
 {
-Obj _3512858_37= co->res;
+Obj _3512877_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3512859_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
-Obj _3512860_37 = makeCons(co->gc, _3512859_37, body);
-Obj _3512861_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512860_37);
-Obj _3512862_37 = makeCons(co->gc, _3512861_37, Nil);
-Obj _3512863_37 = makeCons(co->gc, args, _3512862_37);
-Obj _3512864_37 = makeCons(co->gc, _3512858_37, _3512863_37);
-Obj _3512865_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512864_37);
-coraReturn(co, _3512865_37);
+Obj _3512878_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
+Obj _3512879_37 = makeCons(co->gc, _3512878_37, body);
+Obj _3512880_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512879_37);
+Obj _3512881_37 = makeCons(co->gc, _3512880_37, Nil);
+Obj _3512882_37 = makeCons(co->gc, args, _3512881_37);
+Obj _3512883_37 = makeCons(co->gc, _3512877_37, _3512882_37);
+Obj _3512884_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512883_37);
+coraReturn(co, _3512884_37);
 return;
 }
 case 2:
 {
-Obj _3512857_37= co->res;
+Obj _3512876_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj args = _3512857_37;
+Obj args = _3512876_37;
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun60, 1, R);
@@ -2244,10 +2244,10 @@ return;
 }
 case 3:
 {
-Obj _3512856_37= co->res;
+Obj _3512875_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj nargs = _3512856_37;
+Obj nargs = _3512875_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 2, R);
@@ -2256,9 +2256,9 @@ return;
 }
 case 4:
 {
-Obj _3512855_37= co->res;
+Obj _3512874_37= co->res;
 Obj exp = R[1];
-Obj body = _3512855_37;
+Obj body = _3512874_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 3, R);
@@ -2267,11 +2267,11 @@ return;
 }
 case 5:
 {
-Obj _3512854_37= co->res;
+Obj _3512873_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512854_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512873_37);
 return;
 }
 }
@@ -2282,25 +2282,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj n = R[1];
-Obj _3512848_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512848_37) {
+Obj _3512867_37 = PRIM_EQ(n, MAKE_NUMBER(0));
+if (True == _3512867_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512849_37 = primGenSym(co);
-Obj _3512850_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512849_37;
+Obj _3512868_37 = primGenSym(co);
+Obj _3512869_37 = PRIM_SUB(n, MAKE_NUMBER(1));
+R[1] = _3512868_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512850_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512869_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512851_37= co->res;
-Obj _3512849_37 = R[1];
-Obj _3512852_37 = makeCons(co->gc, _3512849_37, _3512851_37);
-coraReturn(co, _3512852_37);
+Obj _3512870_37= co->res;
+Obj _3512868_37 = R[1];
+Obj _3512871_37 = makeCons(co->gc, _3512868_37, _3512870_37);
+coraReturn(co, _3512871_37);
 return;
 }
 }
@@ -2317,10 +2317,10 @@ return;
 }
 case 1:
 {
-Obj _3512845_37= co->res;
+Obj _3512864_37= co->res;
 Obj n = R[1];
-Obj _3512846_37 = primNot(_3512845_37);
-if (True == _3512846_37) {
+Obj _3512865_37 = primNot(_3512864_37);
+if (True == _3512865_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2331,29 +2331,29 @@ return;
 }
 case 2:
 {
-Obj _3512844_37= co->res;
+Obj _3512863_37= co->res;
 Obj n = R[1];
 R[1] = n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512844_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512863_37);
 return;
 }
 case 3:
 {
-Obj _3512839_37= co->res;
-Obj counts = _3512839_37;
-Obj _3512840_37 = PRIM_CAR(counts);
-Obj n = _3512840_37;
-Obj _3512843_37 = PRIM_CDR(counts);
+Obj _3512858_37= co->res;
+Obj counts = _3512858_37;
+Obj _3512859_37 = PRIM_CAR(counts);
+Obj n = _3512859_37;
+Obj _3512862_37 = PRIM_CDR(counts);
 R[1] = n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512843_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512862_37);
 return;
 }
 case 4:
 {
-Obj _3512837_37= co->res;
-Obj pats = _3512837_37;
+Obj _3512856_37= co->res;
+Obj pats = _3512856_37;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
 return;
@@ -2366,9 +2366,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512841_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512842_37 = primNot(_3512841_37);
-coraReturn(co, _3512842_37);
+Obj _3512860_37 = PRIM_EQ(closureRef(R[0], 0), x);
+Obj _3512861_37 = primNot(_3512860_37);
+coraReturn(co, _3512861_37);
 return;
 }
 }
@@ -2379,9 +2379,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512838_37 = PRIM_CDR(x);
+Obj _3512857_37 = PRIM_CDR(x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512838_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512857_37);
 return;
 }
 }
@@ -2393,25 +2393,25 @@ case 0:
 {
 Obj l1 = R[1];
 Obj l2 = R[2];
-Obj _3512831_37 = PRIM_EQ(l1, Nil);
-if (True == _3512831_37) {
+Obj _3512850_37 = PRIM_EQ(l1, Nil);
+if (True == _3512850_37) {
 coraReturn(co, l2);
 return;
 } else {
-Obj _3512832_37 = PRIM_CAR(l1);
-Obj _3512833_37 = PRIM_CDR(l1);
-R[1] = _3512832_37;
+Obj _3512851_37 = PRIM_CAR(l1);
+Obj _3512852_37 = PRIM_CDR(l1);
+R[1] = _3512851_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512833_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512852_37, l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512834_37= co->res;
-Obj _3512832_37 = R[1];
-Obj _3512835_37 = makeCons(co->gc, _3512832_37, _3512834_37);
-coraReturn(co, _3512835_37);
+Obj _3512853_37= co->res;
+Obj _3512851_37 = R[1];
+Obj _3512854_37 = makeCons(co->gc, _3512851_37, _3512853_37);
+coraReturn(co, _3512854_37);
 return;
 }
 }
@@ -2437,14 +2437,14 @@ case 0:
 Obj res = R[1];
 Obj fn = R[2];
 Obj l = R[3];
-Obj _3512822_37 = PRIM_ISCONS(l);
-if (True == _3512822_37) {
-Obj _3512823_37 = PRIM_CAR(l);
+Obj _3512841_37 = PRIM_ISCONS(l);
+if (True == _3512841_37) {
+Obj _3512842_37 = PRIM_CAR(l);
 R[1] = l;
 R[2] = res;
 R[3] = fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512823_37);
+coraCall1(co, fn, _3512842_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2454,21 +2454,21 @@ return;
 }
 case 1:
 {
-Obj _3512824_37= co->res;
+Obj _3512843_37= co->res;
 Obj l = R[1];
 Obj res = R[2];
 Obj fn = R[3];
-if (True == _3512824_37) {
-Obj _3512825_37 = PRIM_CAR(l);
-Obj _3512826_37 = makeCons(co->gc, _3512825_37, res);
-Obj _3512827_37 = PRIM_CDR(l);
+if (True == _3512843_37) {
+Obj _3512844_37 = PRIM_CAR(l);
+Obj _3512845_37 = makeCons(co->gc, _3512844_37, res);
+Obj _3512846_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512826_37, fn, _3512827_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512845_37, fn, _3512846_37);
 return;
 } else {
-Obj _3512828_37 = PRIM_CDR(l);
+Obj _3512847_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512828_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512847_37);
 return;
 }
 }
@@ -2493,15 +2493,15 @@ case 0:
 {
 Obj i = R[1];
 Obj l = R[2];
-Obj _3512817_37 = PRIM_EQ(l, Nil);
-if (True == _3512817_37) {
+Obj _3512836_37 = PRIM_EQ(l, Nil);
+if (True == _3512836_37) {
 coraReturn(co, i);
 return;
 } else {
-Obj _3512818_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512819_37 = PRIM_CDR(l);
+Obj _3512837_37 = PRIM_ADD(i, MAKE_NUMBER(1));
+Obj _3512838_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512818_37, _3512819_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512837_37, _3512838_37);
 return;
 }
 }
@@ -2522,25 +2522,25 @@ return;
 }
 case 1:
 {
-Obj _3512815_37= co->res;
-Obj _3512814_37 = R[1];
+Obj _3512834_37= co->res;
+Obj _3512833_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512814_37, _3512815_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512833_37, _3512834_37);
 return;
 }
 case 2:
 {
-Obj _3512812_37= co->res;
+Obj _3512831_37= co->res;
 Obj res = R[1];
 Obj rules = R[2];
-if (True == _3512812_37) {
+if (True == _3512831_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
 return;
 } else {
-Obj _3512813_37 = PRIM_CAR(rules);
-Obj _3512814_37 = makeCons(co->gc, _3512813_37, res);
-R[1] = _3512814_37;
+Obj _3512832_37 = PRIM_CAR(rules);
+Obj _3512833_37 = makeCons(co->gc, _3512832_37, res);
+R[1] = _3512833_37;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
 return;
@@ -2568,48 +2568,48 @@ case 0:
 Obj input = R[1];
 Obj current = R[2];
 Obj result = R[3];
-Obj _3512759_37 = PRIM_EQ(Nil, input);
-if (True == _3512759_37) {
+Obj _3512778_37 = PRIM_EQ(Nil, input);
+if (True == _3512778_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
 return;
 } else {
-Obj _3512408_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512777_37 = PRIM_ISCONS(input);
-if (True == _3512777_37) {
-Obj _3512778_37 = PRIM_CAR(input);
-Obj _3512779_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512778_37);
-if (True == _3512779_37) {
-Obj _3512780_37 = PRIM_CDR(input);
-Obj _3512781_37 = PRIM_ISCONS(_3512780_37);
-if (True == _3512781_37) {
-Obj _3512782_37 = PRIM_CDR(input);
-Obj _3512783_37 = PRIM_CAR(_3512782_37);
-Obj act = _3512783_37;
-Obj _3512784_37 = PRIM_CDR(input);
-Obj _3512785_37 = PRIM_CDR(_3512784_37);
-Obj _3512786_37 = PRIM_ISCONS(_3512785_37);
-if (True == _3512786_37) {
-Obj _3512787_37 = PRIM_CDR(input);
-Obj _3512788_37 = PRIM_CDR(_3512787_37);
-Obj _3512789_37 = PRIM_CAR(_3512788_37);
-Obj _3512790_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512789_37);
-if (True == _3512790_37) {
-Obj _3512791_37 = PRIM_CDR(input);
-Obj _3512792_37 = PRIM_CDR(_3512791_37);
-Obj _3512793_37 = PRIM_CDR(_3512792_37);
-Obj _3512794_37 = PRIM_ISCONS(_3512793_37);
-if (True == _3512794_37) {
-Obj _3512795_37 = PRIM_CDR(input);
-Obj _3512796_37 = PRIM_CDR(_3512795_37);
-Obj _3512797_37 = PRIM_CDR(_3512796_37);
-Obj _3512798_37 = PRIM_CAR(_3512797_37);
-Obj pred = _3512798_37;
+Obj _3512427_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
+Obj _3512796_37 = PRIM_ISCONS(input);
+if (True == _3512796_37) {
+Obj _3512797_37 = PRIM_CAR(input);
+Obj _3512798_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512797_37);
+if (True == _3512798_37) {
 Obj _3512799_37 = PRIM_CDR(input);
-Obj _3512800_37 = PRIM_CDR(_3512799_37);
-Obj _3512801_37 = PRIM_CDR(_3512800_37);
-Obj _3512802_37 = PRIM_CDR(_3512801_37);
-Obj remain = _3512802_37;
+Obj _3512800_37 = PRIM_ISCONS(_3512799_37);
+if (True == _3512800_37) {
+Obj _3512801_37 = PRIM_CDR(input);
+Obj _3512802_37 = PRIM_CAR(_3512801_37);
+Obj act = _3512802_37;
+Obj _3512803_37 = PRIM_CDR(input);
+Obj _3512804_37 = PRIM_CDR(_3512803_37);
+Obj _3512805_37 = PRIM_ISCONS(_3512804_37);
+if (True == _3512805_37) {
+Obj _3512806_37 = PRIM_CDR(input);
+Obj _3512807_37 = PRIM_CDR(_3512806_37);
+Obj _3512808_37 = PRIM_CAR(_3512807_37);
+Obj _3512809_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512808_37);
+if (True == _3512809_37) {
+Obj _3512810_37 = PRIM_CDR(input);
+Obj _3512811_37 = PRIM_CDR(_3512810_37);
+Obj _3512812_37 = PRIM_CDR(_3512811_37);
+Obj _3512813_37 = PRIM_ISCONS(_3512812_37);
+if (True == _3512813_37) {
+Obj _3512814_37 = PRIM_CDR(input);
+Obj _3512815_37 = PRIM_CDR(_3512814_37);
+Obj _3512816_37 = PRIM_CDR(_3512815_37);
+Obj _3512817_37 = PRIM_CAR(_3512816_37);
+Obj pred = _3512817_37;
+Obj _3512818_37 = PRIM_CDR(input);
+Obj _3512819_37 = PRIM_CDR(_3512818_37);
+Obj _3512820_37 = PRIM_CDR(_3512819_37);
+Obj _3512821_37 = PRIM_CDR(_3512820_37);
+Obj remain = _3512821_37;
 R[1] = act;
 R[2] = pred;
 R[3] = result;
@@ -2619,52 +2619,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512427_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512427_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512427_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512427_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512427_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512427_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512803_37= co->res;
+Obj _3512822_37= co->res;
 Obj act = R[1];
 Obj pred = R[2];
 Obj result = R[3];
 Obj remain = R[4];
-Obj _3512804_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512803_37);
-Obj pat = _3512804_37;
-Obj _3512805_37 = makeCons(co->gc, act, Nil);
-Obj _3512806_37 = makeCons(co->gc, pred, _3512805_37);
-Obj _3512807_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512806_37);
-Obj _3512808_37 = makeCons(co->gc, pat, result);
-Obj _3512809_37 = makeCons(co->gc, _3512807_37, _3512808_37);
+Obj _3512823_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512822_37);
+Obj pat = _3512823_37;
+Obj _3512824_37 = makeCons(co->gc, act, Nil);
+Obj _3512825_37 = makeCons(co->gc, pred, _3512824_37);
+Obj _3512826_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512825_37);
+Obj _3512827_37 = makeCons(co->gc, pat, result);
+Obj _3512828_37 = makeCons(co->gc, _3512826_37, _3512827_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512809_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512828_37);
 return;
 }
 }
@@ -2674,21 +2674,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512409_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512764_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512764_37) {
-Obj _3512765_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512766_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512765_37);
-if (True == _3512766_37) {
-Obj _3512767_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512768_37 = PRIM_ISCONS(_3512767_37);
-if (True == _3512768_37) {
-Obj _3512769_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512770_37 = PRIM_CAR(_3512769_37);
-Obj act = _3512770_37;
-Obj _3512771_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512772_37 = PRIM_CDR(_3512771_37);
-Obj remain = _3512772_37;
+Obj _3512428_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3512783_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512783_37) {
+Obj _3512784_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3512785_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512784_37);
+if (True == _3512785_37) {
+Obj _3512786_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512787_37 = PRIM_ISCONS(_3512786_37);
+if (True == _3512787_37) {
+Obj _3512788_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512789_37 = PRIM_CAR(_3512788_37);
+Obj act = _3512789_37;
+Obj _3512790_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512791_37 = PRIM_CDR(_3512790_37);
+Obj remain = _3512791_37;
 R[1] = act;
 R[2] = remain;
 saveCont(co, clofun47, 1, R);
@@ -2696,31 +2696,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512428_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512428_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512428_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512773_37= co->res;
+Obj _3512792_37= co->res;
 Obj act = R[1];
 Obj remain = R[2];
-Obj _3512774_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512773_37);
-Obj pat = _3512774_37;
-Obj _3512775_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512776_37 = makeCons(co->gc, act, _3512775_37);
+Obj _3512793_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512792_37);
+Obj pat = _3512793_37;
+Obj _3512794_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
+Obj _3512795_37 = makeCons(co->gc, act, _3512794_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512776_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512795_37);
 return;
 }
 }
@@ -2730,15 +2730,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512760_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512760_37) {
-Obj _3512761_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512761_37;
-Obj _3512762_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512762_37;
-Obj _3512763_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj _3512779_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512779_37) {
+Obj _3512780_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512780_37;
+Obj _3512781_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512781_37;
+Obj _3512782_37 = makeCons(co->gc, x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512763_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512782_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2773,35 +2773,35 @@ return;
 }
 case 1:
 {
-Obj _3512746_37= co->res;
+Obj _3512765_37= co->res;
 Obj value = R[1];
-Obj rules = _3512746_37;
-Obj _3512459_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512753_37 = PRIM_ISCONS(value);
-if (True == _3512753_37) {
-Obj _3512754_37 = PRIM_CAR(value);
-Obj _3512755_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512754_37);
-Obj _3512756_37 = primNot(_3512755_37);
-if (True == _3512756_37) {
+Obj rules = _3512765_37;
+Obj _3512478_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
+Obj _3512772_37 = PRIM_ISCONS(value);
+if (True == _3512772_37) {
+Obj _3512773_37 = PRIM_CAR(value);
+Obj _3512774_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512773_37);
+Obj _3512775_37 = primNot(_3512774_37);
+if (True == _3512775_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, True);
+coraCall1(co, _3512478_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, False);
+coraCall1(co, _3512478_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, False);
+coraCall1(co, _3512478_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512745_37= co->res;
+Obj _3512764_37= co->res;
 Obj exp = R[1];
-Obj value = _3512745_37;
+Obj value = _3512764_37;
 R[1] = value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
@@ -2809,11 +2809,11 @@ return;
 }
 case 3:
 {
-Obj _3512744_37= co->res;
+Obj _3512763_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512744_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512763_37);
 return;
 }
 }
@@ -2823,10 +2823,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512460_37 = R[1];
-if (True == _3512460_37) {
-Obj _3512747_37 = primGenSym(co);
-Obj val = _3512747_37;
+Obj _3512479_37 = R[1];
+if (True == _3512479_37) {
+Obj _3512766_37 = primGenSym(co);
+Obj val = _3512766_37;
 R[1] = val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), val, closureRef(R[0], 1));
@@ -2839,13 +2839,13 @@ return;
 }
 case 1:
 {
-Obj _3512748_37= co->res;
+Obj _3512767_37= co->res;
 Obj val = R[1];
-Obj _3512749_37 = makeCons(co->gc, _3512748_37, Nil);
-Obj _3512750_37 = makeCons(co->gc, closureRef(R[0], 0), _3512749_37);
-Obj _3512751_37 = makeCons(co->gc, val, _3512750_37);
-Obj _3512752_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512751_37);
-coraReturn(co, _3512752_37);
+Obj _3512768_37 = makeCons(co->gc, _3512767_37, Nil);
+Obj _3512769_37 = makeCons(co->gc, closureRef(R[0], 0), _3512768_37);
+Obj _3512770_37 = makeCons(co->gc, val, _3512769_37);
+Obj _3512771_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512770_37);
+coraReturn(co, _3512771_37);
 return;
 }
 }
@@ -2865,49 +2865,49 @@ return;
 }
 case 1:
 {
-Obj _3512742_37= co->res;
-Obj _3512457_37 = R[1];
-if (True == _3512742_37) {
+Obj _3512761_37= co->res;
+Obj _3512476_37 = R[1];
+if (True == _3512761_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, True);
+coraCall1(co, _3512476_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, False);
+coraCall1(co, _3512476_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512740_37= co->res;
+Obj _3512759_37= co->res;
 Obj rules = R[1];
-Obj _3512457_37 = R[2];
-if (True == _3512740_37) {
-Obj _3512741_37 = PRIM_CDR(rules);
-R[1] = _3512457_37;
+Obj _3512476_37 = R[2];
+if (True == _3512759_37) {
+Obj _3512760_37 = PRIM_CDR(rules);
+R[1] = _3512476_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512741_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512760_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, False);
+coraCall1(co, _3512476_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512722_37= co->res;
+Obj _3512741_37= co->res;
 Obj value = R[1];
 Obj rules = R[2];
-if (True == _3512722_37) {
-Obj _3512723_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512724_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512723_37);
-coraReturn(co, _3512724_37);
+if (True == _3512741_37) {
+Obj _3512742_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj _3512743_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512742_37);
+coraReturn(co, _3512743_37);
 return;
 } else {
-Obj _3512457_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
+Obj _3512476_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
 R[1] = rules;
-R[2] = _3512457_37;
+R[2] = _3512476_37;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
 return;
@@ -2920,12 +2920,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512458_37 = R[1];
-if (True == _3512458_37) {
-Obj _3512725_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512725_37;
-Obj _3512726_37 = primGenSym(co);
-Obj cc = _3512726_37;
+Obj _3512477_37 = R[1];
+if (True == _3512477_37) {
+Obj _3512744_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj pat = _3512744_37;
+Obj _3512745_37 = primGenSym(co);
+Obj cc = _3512745_37;
 R[1] = pat;
 R[2] = cc;
 saveCont(co, clofun41, 4, R);
@@ -2939,49 +2939,49 @@ return;
 }
 case 1:
 {
-Obj _3512732_37= co->res;
+Obj _3512751_37= co->res;
 Obj curr = R[1];
 Obj cc = R[2];
-Obj rest = _3512732_37;
-Obj _3512733_37 = makeCons(co->gc, rest, Nil);
-Obj _3512734_37 = makeCons(co->gc, Nil, _3512733_37);
-Obj _3512735_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512734_37);
-Obj _3512736_37 = makeCons(co->gc, curr, Nil);
-Obj _3512737_37 = makeCons(co->gc, _3512735_37, _3512736_37);
-Obj _3512738_37 = makeCons(co->gc, cc, _3512737_37);
-Obj _3512739_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512738_37);
-coraReturn(co, _3512739_37);
+Obj rest = _3512751_37;
+Obj _3512752_37 = makeCons(co->gc, rest, Nil);
+Obj _3512753_37 = makeCons(co->gc, Nil, _3512752_37);
+Obj _3512754_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512753_37);
+Obj _3512755_37 = makeCons(co->gc, curr, Nil);
+Obj _3512756_37 = makeCons(co->gc, _3512754_37, _3512755_37);
+Obj _3512757_37 = makeCons(co->gc, cc, _3512756_37);
+Obj _3512758_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512757_37);
+coraReturn(co, _3512758_37);
 return;
 }
 case 2:
 {
-Obj _3512729_37= co->res;
+Obj _3512748_37= co->res;
 Obj cc = R[1];
-Obj curr = _3512729_37;
-Obj _3512730_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512731_37 = PRIM_CDR(_3512730_37);
+Obj curr = _3512748_37;
+Obj _3512749_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3512750_37 = PRIM_CDR(_3512749_37);
 R[1] = curr;
 R[2] = cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512731_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512750_37);
 return;
 }
 case 3:
 {
-Obj _3512728_37= co->res;
+Obj _3512747_37= co->res;
 Obj action = R[1];
 Obj cc = R[2];
 R[1] = cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512728_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512747_37, closureRef(R[0], 0), action, cc);
 return;
 }
 case 4:
 {
-Obj _3512727_37= co->res;
+Obj _3512746_37= co->res;
 Obj pat = R[1];
 Obj cc = R[2];
-Obj action = _3512727_37;
+Obj action = _3512746_37;
 R[1] = action;
 R[2] = cc;
 saveCont(co, clofun41, 3, R);
@@ -2997,36 +2997,36 @@ case 0:
 {
 Obj rules = R[1];
 Obj cc = R[2];
-Obj _3512709_37 = PRIM_CDR(rules);
-Obj _3512710_37 = PRIM_CAR(_3512709_37);
-Obj action = _3512710_37;
-Obj _3512455_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
+Obj _3512728_37 = PRIM_CDR(rules);
+Obj _3512729_37 = PRIM_CAR(_3512728_37);
+Obj action = _3512729_37;
+Obj _3512474_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
 R[1] = action;
-R[2] = _3512455_37;
+R[2] = _3512474_37;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), action);
 return;
 }
 case 1:
 {
-Obj _3512718_37= co->res;
+Obj _3512737_37= co->res;
 Obj action = R[1];
-Obj _3512455_37 = R[2];
-if (True == _3512718_37) {
-Obj _3512719_37 = PRIM_CAR(action);
-Obj _3512720_37 = PRIM_EQ(_3512719_37, getBinding(co, packageID, 110).name);
-if (True == _3512720_37) {
+Obj _3512474_37 = R[2];
+if (True == _3512737_37) {
+Obj _3512738_37 = PRIM_CAR(action);
+Obj _3512739_37 = PRIM_EQ(_3512738_37, getBinding(co, packageID, 110).name);
+if (True == _3512739_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, True);
+coraCall1(co, _3512474_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, False);
+coraCall1(co, _3512474_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, False);
+coraCall1(co, _3512474_37, False);
 return;
 }
 }
@@ -3037,8 +3037,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512456_37 = R[1];
-if (True == _3512456_37) {
+Obj _3512475_37 = R[1];
+if (True == _3512475_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3049,20 +3049,20 @@ return;
 }
 case 1:
 {
-Obj _3512712_37= co->res;
-Obj _3512711_37 = R[1];
-Obj _3512713_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512714_37 = makeCons(co->gc, _3512713_37, Nil);
-Obj _3512715_37 = makeCons(co->gc, _3512712_37, _3512714_37);
-Obj _3512716_37 = makeCons(co->gc, _3512711_37, _3512715_37);
-Obj _3512717_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512716_37);
-coraReturn(co, _3512717_37);
+Obj _3512731_37= co->res;
+Obj _3512730_37 = R[1];
+Obj _3512732_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3512733_37 = makeCons(co->gc, _3512732_37, Nil);
+Obj _3512734_37 = makeCons(co->gc, _3512731_37, _3512733_37);
+Obj _3512735_37 = makeCons(co->gc, _3512730_37, _3512734_37);
+Obj _3512736_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512735_37);
+coraReturn(co, _3512736_37);
 return;
 }
 case 2:
 {
-Obj _3512711_37= co->res;
-R[1] = _3512711_37;
+Obj _3512730_37= co->res;
+R[1] = _3512730_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3088,36 +3088,36 @@ return;
 }
 case 1:
 {
-Obj _3512707_37= co->res;
+Obj _3512726_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512707_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512726_37);
 return;
 }
 case 2:
 {
-Obj _3512694_37= co->res;
+Obj _3512713_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512694_37) {
-Obj _3512695_37 = PRIM_CAR(pat);
-Obj _3512696_37 = PRIM_EQ(_3512695_37, getBinding(co, packageID, 139).name);
-if (True == _3512696_37) {
-Obj _3512697_37 = makeCons(co->gc, expr, Nil);
-Obj _3512698_37 = makeCons(co->gc, pat, _3512697_37);
-Obj _3512699_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512698_37);
-Obj _3512700_37 = makeCons(co->gc, cc, Nil);
-Obj _3512701_37 = makeCons(co->gc, _3512700_37, Nil);
-Obj _3512702_37 = makeCons(co->gc, body, _3512701_37);
-Obj _3512703_37 = makeCons(co->gc, _3512699_37, _3512702_37);
-Obj _3512704_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512703_37);
-coraReturn(co, _3512704_37);
-return;
-} else {
-Obj _3512705_37 = PRIM_CAR(pat);
-Obj _3512706_37 = PRIM_EQ(_3512705_37, getBinding(co, packageID, 152).name);
-if (True == _3512706_37) {
+if (True == _3512713_37) {
+Obj _3512714_37 = PRIM_CAR(pat);
+Obj _3512715_37 = PRIM_EQ(_3512714_37, getBinding(co, packageID, 139).name);
+if (True == _3512715_37) {
+Obj _3512716_37 = makeCons(co->gc, expr, Nil);
+Obj _3512717_37 = makeCons(co->gc, pat, _3512716_37);
+Obj _3512718_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512717_37);
+Obj _3512719_37 = makeCons(co->gc, cc, Nil);
+Obj _3512720_37 = makeCons(co->gc, _3512719_37, Nil);
+Obj _3512721_37 = makeCons(co->gc, body, _3512720_37);
+Obj _3512722_37 = makeCons(co->gc, _3512718_37, _3512721_37);
+Obj _3512723_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512722_37);
+coraReturn(co, _3512723_37);
+return;
+} else {
+Obj _3512724_37 = PRIM_CAR(pat);
+Obj _3512725_37 = PRIM_EQ(_3512724_37, getBinding(co, packageID, 152).name);
+if (True == _3512725_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
 return;
@@ -3135,36 +3135,36 @@ return;
 }
 case 3:
 {
-Obj _3512679_37= co->res;
+Obj _3512698_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512679_37) {
-Obj _3512680_37 = PRIM_EQ(pat, expr);
-if (True == _3512680_37) {
+if (True == _3512698_37) {
+Obj _3512699_37 = PRIM_EQ(pat, expr);
+if (True == _3512699_37) {
 coraReturn(co, body);
 return;
 } else {
-Obj _3512681_37 = makeCons(co->gc, expr, Nil);
-Obj _3512682_37 = makeCons(co->gc, pat, _3512681_37);
-Obj _3512683_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512682_37);
-Obj _3512684_37 = makeCons(co->gc, cc, Nil);
-Obj _3512685_37 = makeCons(co->gc, _3512684_37, Nil);
-Obj _3512686_37 = makeCons(co->gc, body, _3512685_37);
-Obj _3512687_37 = makeCons(co->gc, _3512683_37, _3512686_37);
-Obj _3512688_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512687_37);
-coraReturn(co, _3512688_37);
+Obj _3512700_37 = makeCons(co->gc, expr, Nil);
+Obj _3512701_37 = makeCons(co->gc, pat, _3512700_37);
+Obj _3512702_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512701_37);
+Obj _3512703_37 = makeCons(co->gc, cc, Nil);
+Obj _3512704_37 = makeCons(co->gc, _3512703_37, Nil);
+Obj _3512705_37 = makeCons(co->gc, body, _3512704_37);
+Obj _3512706_37 = makeCons(co->gc, _3512702_37, _3512705_37);
+Obj _3512707_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512706_37);
+coraReturn(co, _3512707_37);
 return;
 }
 } else {
-Obj _3512689_37 = primIsSymbol(pat);
-if (True == _3512689_37) {
-Obj _3512690_37 = makeCons(co->gc, body, Nil);
-Obj _3512691_37 = makeCons(co->gc, expr, _3512690_37);
-Obj _3512692_37 = makeCons(co->gc, pat, _3512691_37);
-Obj _3512693_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512692_37);
-coraReturn(co, _3512693_37);
+Obj _3512708_37 = primIsSymbol(pat);
+if (True == _3512708_37) {
+Obj _3512709_37 = makeCons(co->gc, body, Nil);
+Obj _3512710_37 = makeCons(co->gc, expr, _3512709_37);
+Obj _3512711_37 = makeCons(co->gc, pat, _3512710_37);
+Obj _3512712_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512711_37);
+coraReturn(co, _3512712_37);
 return;
 } else {
 R[1] = expr;
@@ -3192,12 +3192,12 @@ return;
 }
 case 1:
 {
-Obj _3512676_37= co->res;
+Obj _3512695_37= co->res;
 Obj x = R[1];
-if (True == _3512676_37) {
-Obj _3512677_37 = primIsSymbol(x);
-Obj _3512678_37 = primNot(_3512677_37);
-if (True == _3512678_37) {
+if (True == _3512695_37) {
+Obj _3512696_37 = primIsSymbol(x);
+Obj _3512697_37 = primNot(_3512696_37);
+if (True == _3512697_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3230,40 +3230,40 @@ return;
 }
 case 1:
 {
-Obj _3512655_37= co->res;
+Obj _3512674_37= co->res;
 Obj x = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj y = _3512655_37;
-Obj _3512453_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512672_37 = PRIM_ISCONS(expr);
-if (True == _3512672_37) {
-Obj _3512673_37 = PRIM_CAR(expr);
-Obj _3512674_37 = PRIM_EQ(_3512673_37, getBinding(co, packageID, 152).name);
-if (True == _3512674_37) {
+Obj y = _3512674_37;
+Obj _3512472_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
+Obj _3512691_37 = PRIM_ISCONS(expr);
+if (True == _3512691_37) {
+Obj _3512692_37 = PRIM_CAR(expr);
+Obj _3512693_37 = PRIM_EQ(_3512692_37, getBinding(co, packageID, 152).name);
+if (True == _3512693_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, True);
+coraCall1(co, _3512472_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, False);
+coraCall1(co, _3512472_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, False);
+coraCall1(co, _3512472_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512654_37= co->res;
+Obj _3512673_37= co->res;
 Obj pat = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj x = _3512654_37;
+Obj x = _3512673_37;
 R[1] = x;
 R[2] = body;
 R[3] = cc;
@@ -3279,38 +3279,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512454_37 = R[1];
-if (True == _3512454_37) {
+Obj _3512473_37 = R[1];
+if (True == _3512473_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512659_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512660_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512659_37);
-Obj _3512661_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512662_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512661_37);
-Obj _3512663_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512664_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512663_37);
-R[1] = _3512662_37;
-R[2] = _3512660_37;
+Obj _3512678_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512679_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512678_37);
+Obj _3512680_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512681_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512680_37);
+Obj _3512682_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512683_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512682_37);
+R[1] = _3512681_37;
+R[2] = _3512679_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512664_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512683_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512658_37= co->res;
+Obj _3512677_37= co->res;
 Obj e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512658_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512677_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512657_37= co->res;
+Obj _3512676_37= co->res;
 Obj e1 = R[1];
-Obj e2 = _3512657_37;
+Obj e2 = _3512676_37;
 R[1] = e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3318,8 +3318,8 @@ return;
 }
 case 3:
 {
-Obj _3512656_37= co->res;
-Obj e1 = _3512656_37;
+Obj _3512675_37= co->res;
+Obj e1 = _3512675_37;
 R[1] = e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3327,24 +3327,24 @@ return;
 }
 case 4:
 {
-Obj _3512666_37= co->res;
-Obj _3512660_37 = R[1];
-Obj _3512667_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512668_37 = makeCons(co->gc, _3512667_37, Nil);
-Obj _3512669_37 = makeCons(co->gc, _3512666_37, _3512668_37);
-Obj _3512670_37 = makeCons(co->gc, _3512660_37, _3512669_37);
-Obj _3512671_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512670_37);
-coraReturn(co, _3512671_37);
+Obj _3512685_37= co->res;
+Obj _3512679_37 = R[1];
+Obj _3512686_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj _3512687_37 = makeCons(co->gc, _3512686_37, Nil);
+Obj _3512688_37 = makeCons(co->gc, _3512685_37, _3512687_37);
+Obj _3512689_37 = makeCons(co->gc, _3512679_37, _3512688_37);
+Obj _3512690_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512689_37);
+coraReturn(co, _3512690_37);
 return;
 }
 case 5:
 {
-Obj _3512665_37= co->res;
-Obj _3512662_37 = R[1];
-Obj _3512660_37 = R[2];
-R[1] = _3512660_37;
+Obj _3512684_37= co->res;
+Obj _3512681_37 = R[1];
+Obj _3512679_37 = R[2];
+R[1] = _3512679_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512662_37, _3512665_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512681_37, _3512684_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3355,9 +3355,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512652_37 = PRIM_CDR(exp);
+Obj _3512671_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512652_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512671_37);
 return;
 }
 }
@@ -3368,36 +3368,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj pat = R[1];
-Obj _3512642_37 = PRIM_CDR(pat);
+Obj _3512661_37 = PRIM_CDR(pat);
 R[1] = pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512661_37);
 return;
 }
 case 1:
 {
-Obj _3512647_37= co->res;
-Obj _3512645_37 = R[1];
-Obj _3512648_37 = makeCons(co->gc, _3512647_37, Nil);
-Obj _3512649_37 = makeCons(co->gc, _3512645_37, _3512648_37);
-Obj _3512650_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512649_37);
-coraReturn(co, _3512650_37);
+Obj _3512666_37= co->res;
+Obj _3512664_37 = R[1];
+Obj _3512667_37 = makeCons(co->gc, _3512666_37, Nil);
+Obj _3512668_37 = makeCons(co->gc, _3512664_37, _3512667_37);
+Obj _3512669_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512668_37);
+coraReturn(co, _3512669_37);
 return;
 }
 case 2:
 {
-Obj _3512643_37= co->res;
+Obj _3512662_37= co->res;
 Obj pat = R[1];
-if (True == _3512643_37) {
-Obj _3512644_37 = PRIM_CAR(pat);
-coraReturn(co, _3512644_37);
+if (True == _3512662_37) {
+Obj _3512663_37 = PRIM_CAR(pat);
+coraReturn(co, _3512663_37);
 return;
 } else {
-Obj _3512645_37 = PRIM_CAR(pat);
-Obj _3512646_37 = PRIM_CDR(pat);
-R[1] = _3512645_37;
+Obj _3512664_37 = PRIM_CAR(pat);
+Obj _3512665_37 = PRIM_CDR(pat);
+R[1] = _3512664_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512646_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512665_37);
 return;
 }
 }
@@ -3409,13 +3409,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512639_37 = PRIM_EQ(x, True);
-if (True == _3512639_37) {
+Obj _3512658_37 = PRIM_EQ(x, True);
+if (True == _3512658_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512640_37 = PRIM_EQ(x, False);
-if (True == _3512640_37) {
+Obj _3512659_37 = PRIM_EQ(x, False);
+if (True == _3512659_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3432,9 +3432,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512637_37 = PRIM_CDR(exp);
+Obj _3512656_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512637_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512656_37);
 return;
 }
 }
@@ -3445,41 +3445,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512625_37 = PRIM_EQ(Nil, l);
-if (True == _3512625_37) {
+Obj _3512644_37 = PRIM_EQ(Nil, l);
+if (True == _3512644_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512626_37 = PRIM_CAR(l);
-Obj _3512627_37 = PRIM_EQ(_3512626_37, False);
-if (True == _3512627_37) {
+Obj _3512645_37 = PRIM_CAR(l);
+Obj _3512646_37 = PRIM_EQ(_3512645_37, False);
+if (True == _3512646_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512628_37 = PRIM_CDR(l);
+Obj _3512647_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512628_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512647_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512629_37= co->res;
+Obj _3512648_37= co->res;
 Obj l = R[1];
-Obj more = _3512629_37;
-Obj _3512630_37 = PRIM_EQ(more, False);
-if (True == _3512630_37) {
+Obj more = _3512648_37;
+Obj _3512649_37 = PRIM_EQ(more, False);
+if (True == _3512649_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512631_37 = PRIM_CAR(l);
-Obj _3512632_37 = makeCons(co->gc, False, Nil);
-Obj _3512633_37 = makeCons(co->gc, more, _3512632_37);
-Obj _3512634_37 = makeCons(co->gc, _3512631_37, _3512633_37);
-Obj _3512635_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512634_37);
-coraReturn(co, _3512635_37);
+Obj _3512650_37 = PRIM_CAR(l);
+Obj _3512651_37 = makeCons(co->gc, False, Nil);
+Obj _3512652_37 = makeCons(co->gc, more, _3512651_37);
+Obj _3512653_37 = makeCons(co->gc, _3512650_37, _3512652_37);
+Obj _3512654_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512653_37);
+coraReturn(co, _3512654_37);
 return;
 }
 }
@@ -3491,9 +3491,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512623_37 = PRIM_CDR(exp);
+Obj _3512642_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512623_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512642_37);
 return;
 }
 }
@@ -3504,41 +3504,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512611_37 = PRIM_EQ(l, Nil);
-if (True == _3512611_37) {
+Obj _3512630_37 = PRIM_EQ(l, Nil);
+if (True == _3512630_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512612_37 = PRIM_CAR(l);
-Obj _3512613_37 = PRIM_EQ(_3512612_37, True);
-if (True == _3512613_37) {
+Obj _3512631_37 = PRIM_CAR(l);
+Obj _3512632_37 = PRIM_EQ(_3512631_37, True);
+if (True == _3512632_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512614_37 = PRIM_CDR(l);
+Obj _3512633_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512614_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512633_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512615_37= co->res;
+Obj _3512634_37= co->res;
 Obj l = R[1];
-Obj more = _3512615_37;
-Obj _3512616_37 = PRIM_EQ(more, True);
-if (True == _3512616_37) {
+Obj more = _3512634_37;
+Obj _3512635_37 = PRIM_EQ(more, True);
+if (True == _3512635_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512617_37 = PRIM_CAR(l);
-Obj _3512618_37 = makeCons(co->gc, more, Nil);
-Obj _3512619_37 = makeCons(co->gc, True, _3512618_37);
-Obj _3512620_37 = makeCons(co->gc, _3512617_37, _3512619_37);
-Obj _3512621_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512620_37);
-coraReturn(co, _3512621_37);
+Obj _3512636_37 = PRIM_CAR(l);
+Obj _3512637_37 = makeCons(co->gc, more, Nil);
+Obj _3512638_37 = makeCons(co->gc, True, _3512637_37);
+Obj _3512639_37 = makeCons(co->gc, _3512636_37, _3512638_37);
+Obj _3512640_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512639_37);
+coraReturn(co, _3512640_37);
 return;
 }
 }
@@ -3550,12 +3550,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512597_37 = PRIM_CDR(exp);
-Obj _3512598_37 = PRIM_EQ(Nil, _3512597_37);
-if (True == _3512598_37) {
-Obj _3512599_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512600_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512599_37);
-coraReturn(co, _3512600_37);
+Obj _3512616_37 = PRIM_CDR(exp);
+Obj _3512617_37 = PRIM_EQ(Nil, _3512616_37);
+if (True == _3512617_37) {
+Obj _3512618_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj _3512619_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512618_37);
+coraReturn(co, _3512619_37);
 return;
 } else {
 R[1] = exp;
@@ -3566,36 +3566,36 @@ return;
 }
 case 1:
 {
-Obj _3512604_37= co->res;
-Obj _3512603_37 = R[1];
-Obj _3512602_37 = R[2];
-Obj _3512605_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512604_37);
-Obj _3512606_37 = makeCons(co->gc, _3512605_37, Nil);
-Obj _3512607_37 = makeCons(co->gc, _3512603_37, _3512606_37);
-Obj _3512608_37 = makeCons(co->gc, _3512602_37, _3512607_37);
-Obj _3512609_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512608_37);
-coraReturn(co, _3512609_37);
+Obj _3512623_37= co->res;
+Obj _3512622_37 = R[1];
+Obj _3512621_37 = R[2];
+Obj _3512624_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512623_37);
+Obj _3512625_37 = makeCons(co->gc, _3512624_37, Nil);
+Obj _3512626_37 = makeCons(co->gc, _3512622_37, _3512625_37);
+Obj _3512627_37 = makeCons(co->gc, _3512621_37, _3512626_37);
+Obj _3512628_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512627_37);
+coraReturn(co, _3512628_37);
 return;
 }
 case 2:
 {
-Obj _3512603_37= co->res;
+Obj _3512622_37= co->res;
 Obj exp = R[1];
-Obj _3512602_37 = R[2];
-R[1] = _3512603_37;
-R[2] = _3512602_37;
+Obj _3512621_37 = R[2];
+R[1] = _3512622_37;
+R[2] = _3512621_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 3:
 {
-Obj _3512601_37= co->res;
+Obj _3512620_37= co->res;
 Obj exp = R[1];
-Obj curr = _3512601_37;
-Obj _3512602_37 = PRIM_CAR(curr);
+Obj curr = _3512620_37;
+Obj _3512621_37 = PRIM_CAR(curr);
 R[1] = exp;
-R[2] = _3512602_37;
+R[2] = _3512621_37;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), curr);
 return;
@@ -3608,9 +3608,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512595_37 = PRIM_CDR(exp);
+Obj _3512614_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512595_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512614_37);
 return;
 }
 }
@@ -3621,58 +3621,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512583_37 = PRIM_CDR(exp);
+Obj _3512602_37 = PRIM_CDR(exp);
 R[1] = exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512583_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512602_37);
 return;
 }
 case 1:
 {
-Obj _3512589_37= co->res;
-Obj _3512587_37 = R[1];
-Obj _3512586_37 = R[2];
-Obj _3512590_37 = makeCons(co->gc, _3512589_37, Nil);
-Obj _3512591_37 = makeCons(co->gc, _3512587_37, _3512590_37);
-Obj _3512592_37 = makeCons(co->gc, _3512586_37, _3512591_37);
-Obj _3512593_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512592_37);
-coraReturn(co, _3512593_37);
+Obj _3512608_37= co->res;
+Obj _3512606_37 = R[1];
+Obj _3512605_37 = R[2];
+Obj _3512609_37 = makeCons(co->gc, _3512608_37, Nil);
+Obj _3512610_37 = makeCons(co->gc, _3512606_37, _3512609_37);
+Obj _3512611_37 = makeCons(co->gc, _3512605_37, _3512610_37);
+Obj _3512612_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512611_37);
+coraReturn(co, _3512612_37);
 return;
 }
 case 2:
 {
-Obj _3512588_37= co->res;
-Obj _3512587_37 = R[1];
-Obj _3512586_37 = R[2];
-R[1] = _3512587_37;
-R[2] = _3512586_37;
+Obj _3512607_37= co->res;
+Obj _3512606_37 = R[1];
+Obj _3512605_37 = R[2];
+R[1] = _3512606_37;
+R[2] = _3512605_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512588_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512607_37);
 return;
 }
 case 3:
 {
-Obj _3512587_37= co->res;
+Obj _3512606_37= co->res;
 Obj exp = R[1];
-Obj _3512586_37 = R[2];
-R[1] = _3512587_37;
-R[2] = _3512586_37;
+Obj _3512605_37 = R[2];
+R[1] = _3512606_37;
+R[2] = _3512605_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 4:
 {
-Obj _3512584_37= co->res;
+Obj _3512603_37= co->res;
 Obj exp = R[1];
-if (True == _3512584_37) {
-Obj _3512585_37 = PRIM_CAR(exp);
-coraReturn(co, _3512585_37);
+if (True == _3512603_37) {
+Obj _3512604_37 = PRIM_CAR(exp);
+coraReturn(co, _3512604_37);
 return;
 } else {
-Obj _3512586_37 = PRIM_CAR(exp);
+Obj _3512605_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3512586_37;
+R[2] = _3512605_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
@@ -3686,9 +3686,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512580_37 = PRIM_ISCONS(x);
-Obj _3512581_37 = primNot(_3512580_37);
-coraReturn(co, _3512581_37);
+Obj _3512599_37 = PRIM_ISCONS(x);
+Obj _3512600_37 = primNot(_3512599_37);
+coraReturn(co, _3512600_37);
 return;
 }
 }
@@ -3700,17 +3700,17 @@ case 0:
 {
 Obj x = R[1];
 Obj l = R[2];
-Obj _3512575_37 = PRIM_ISCONS(l);
-if (True == _3512575_37) {
-Obj _3512576_37 = PRIM_CAR(l);
-Obj _3512577_37 = PRIM_EQ(_3512576_37, x);
-if (True == _3512577_37) {
+Obj _3512594_37 = PRIM_ISCONS(l);
+if (True == _3512594_37) {
+Obj _3512595_37 = PRIM_CAR(l);
+Obj _3512596_37 = PRIM_EQ(_3512595_37, x);
+if (True == _3512596_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512578_37 = PRIM_CDR(l);
+Obj _3512597_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512578_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512597_37);
 return;
 }
 } else {
@@ -3733,35 +3733,35 @@ return;
 }
 case 1:
 {
-Obj _3512567_37= co->res;
-Obj _3512566_37 = R[1];
-Obj _3512565_37 = R[2];
-Obj _3512568_37 = makeCons(co->gc, _3512567_37, Nil);
-Obj _3512569_37 = makeCons(co->gc, _3512566_37, _3512568_37);
-Obj _3512570_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512569_37);
-Obj _3512571_37 = makeCons(co->gc, _3512570_37, Nil);
-Obj _3512572_37 = makeCons(co->gc, _3512565_37, _3512571_37);
-Obj _3512573_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512572_37);
-coraReturn(co, _3512573_37);
+Obj _3512586_37= co->res;
+Obj _3512585_37 = R[1];
+Obj _3512584_37 = R[2];
+Obj _3512587_37 = makeCons(co->gc, _3512586_37, Nil);
+Obj _3512588_37 = makeCons(co->gc, _3512585_37, _3512587_37);
+Obj _3512589_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512588_37);
+Obj _3512590_37 = makeCons(co->gc, _3512589_37, Nil);
+Obj _3512591_37 = makeCons(co->gc, _3512584_37, _3512590_37);
+Obj _3512592_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512591_37);
+coraReturn(co, _3512592_37);
 return;
 }
 case 2:
 {
-Obj _3512566_37= co->res;
+Obj _3512585_37= co->res;
 Obj exp = R[1];
-Obj _3512565_37 = R[2];
-R[1] = _3512566_37;
-R[2] = _3512565_37;
+Obj _3512584_37 = R[2];
+R[1] = _3512585_37;
+R[2] = _3512584_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
 return;
 }
 case 3:
 {
-Obj _3512565_37= co->res;
+Obj _3512584_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-R[2] = _3512565_37;
+R[2] = _3512584_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3774,9 +3774,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512563_37 = PRIM_CDR(exp);
+Obj _3512582_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512563_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512582_37);
 return;
 }
 }
@@ -3794,36 +3794,36 @@ return;
 }
 case 1:
 {
-Obj _3512555_37= co->res;
-Obj _3512554_37 = R[1];
-Obj _3512553_37 = R[2];
-Obj _3512556_37 = makeCons(co->gc, _3512554_37, _3512555_37);
-Obj _3512557_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512556_37);
-Obj _3512558_37 = makeCons(co->gc, _3512557_37, Nil);
-Obj _3512559_37 = makeCons(co->gc, _3512553_37, _3512558_37);
-Obj _3512560_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512559_37);
-coraReturn(co, _3512560_37);
+Obj _3512574_37= co->res;
+Obj _3512573_37 = R[1];
+Obj _3512572_37 = R[2];
+Obj _3512575_37 = makeCons(co->gc, _3512573_37, _3512574_37);
+Obj _3512576_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512575_37);
+Obj _3512577_37 = makeCons(co->gc, _3512576_37, Nil);
+Obj _3512578_37 = makeCons(co->gc, _3512572_37, _3512577_37);
+Obj _3512579_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512578_37);
+coraReturn(co, _3512579_37);
 return;
 }
 case 2:
 {
-Obj _3512554_37= co->res;
+Obj _3512573_37= co->res;
 Obj exp = R[1];
-Obj _3512553_37 = R[2];
-R[1] = _3512554_37;
-R[2] = _3512553_37;
+Obj _3512572_37 = R[2];
+R[1] = _3512573_37;
+R[2] = _3512572_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
 return;
 }
 case 3:
 {
-Obj _3512551_37= co->res;
+Obj _3512570_37= co->res;
 Obj exp = R[1];
-Obj _3512552_37 = makeCons(co->gc, _3512551_37, Nil);
-Obj _3512553_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512552_37);
+Obj _3512571_37 = makeCons(co->gc, _3512570_37, Nil);
+Obj _3512572_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512571_37);
 R[1] = exp;
-R[2] = _3512553_37;
+R[2] = _3512572_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3836,26 +3836,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512533_37 = PRIM_ISCONS(exp);
-if (True == _3512533_37) {
-Obj _3512534_37 = PRIM_CAR(exp);
-Obj _3512535_37 = PRIM_EQ(_3512534_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3512535_37) {
-Obj _3512536_37 = PRIM_CDR(exp);
-coraReturn(co, _3512536_37);
-return;
-} else {
-Obj _3512537_37 = PRIM_CAR(exp);
-Obj _3512538_37 = PRIM_EQ(_3512537_37, getBinding(co, packageID, 140).name);
-if (True == _3512538_37) {
+Obj _3512552_37 = PRIM_ISCONS(exp);
+if (True == _3512552_37) {
+Obj _3512553_37 = PRIM_CAR(exp);
+Obj _3512554_37 = PRIM_EQ(_3512553_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == _3512554_37) {
+Obj _3512555_37 = PRIM_CDR(exp);
+coraReturn(co, _3512555_37);
+return;
+} else {
+Obj _3512556_37 = PRIM_CAR(exp);
+Obj _3512557_37 = PRIM_EQ(_3512556_37, getBinding(co, packageID, 140).name);
+if (True == _3512557_37) {
 R[1] = exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
 } else {
-Obj _3512545_37 = PRIM_CAR(exp);
-Obj _3512546_37 = PRIM_EQ(_3512545_37, getBinding(co, packageID, 139).name);
-if (True == _3512546_37) {
+Obj _3512564_37 = PRIM_CAR(exp);
+Obj _3512565_37 = PRIM_EQ(_3512564_37, getBinding(co, packageID, 139).name);
+if (True == _3512565_37) {
 coraReturn(co, exp);
 return;
 } else {
@@ -3873,38 +3873,38 @@ return;
 }
 case 1:
 {
-Obj _3512541_37= co->res;
-Obj _3512539_37 = R[1];
-Obj _3512542_37 = makeCons(co->gc, _3512541_37, Nil);
-Obj _3512543_37 = makeCons(co->gc, _3512539_37, _3512542_37);
-Obj _3512544_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512543_37);
-coraReturn(co, _3512544_37);
+Obj _3512560_37= co->res;
+Obj _3512558_37 = R[1];
+Obj _3512561_37 = makeCons(co->gc, _3512560_37, Nil);
+Obj _3512562_37 = makeCons(co->gc, _3512558_37, _3512561_37);
+Obj _3512563_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512562_37);
+coraReturn(co, _3512563_37);
 return;
 }
 case 2:
 {
-Obj _3512540_37= co->res;
-Obj _3512539_37 = R[1];
-R[1] = _3512539_37;
+Obj _3512559_37= co->res;
+Obj _3512558_37 = R[1];
+R[1] = _3512558_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512540_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512559_37);
 return;
 }
 case 3:
 {
-Obj _3512539_37= co->res;
+Obj _3512558_37= co->res;
 Obj exp = R[1];
-R[1] = _3512539_37;
+R[1] = _3512558_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
 }
 case 4:
 {
-Obj _3512548_37= co->res;
+Obj _3512567_37= co->res;
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512548_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512567_37);
 return;
 }
 }
@@ -3915,8 +3915,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp1 = R[1];
-Obj _3512547_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512547_37) {
+Obj _3512566_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
+if (True == _3512566_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
 return;
@@ -3947,14 +3947,14 @@ case 0:
 {
 Obj exp = R[1];
 Obj macros = R[2];
-Obj _3512523_37 = PRIM_EQ(Nil, macros);
-if (True == _3512523_37) {
+Obj _3512542_37 = PRIM_EQ(Nil, macros);
+if (True == _3512542_37) {
 coraReturn(co, exp);
 return;
 } else {
-Obj _3512530_37 = PRIM_CAR(macros);
+Obj _3512549_37 = PRIM_CAR(macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512530_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512549_37);
 return;
 }
 }
@@ -3966,24 +3966,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj item = R[1];
-Obj _3512451_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512526_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512526_37) {
-Obj _3512527_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512528_37 = PRIM_CAR(item);
-Obj _3512529_37 = PRIM_EQ(_3512527_37, _3512528_37);
-if (True == _3512529_37) {
+Obj _3512470_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3512545_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3512545_37) {
+Obj _3512546_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512547_37 = PRIM_CAR(item);
+Obj _3512548_37 = PRIM_EQ(_3512546_37, _3512547_37);
+if (True == _3512548_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, True);
+coraCall1(co, _3512470_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, False);
+coraCall1(co, _3512470_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, False);
+coraCall1(co, _3512470_37, False);
 return;
 }
 }
@@ -3994,16 +3994,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512452_37 = R[1];
-if (True == _3512452_37) {
-Obj _3512524_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512471_37 = R[1];
+if (True == _3512471_37) {
+Obj _3512543_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512524_37, closureRef(R[0], 1));
+coraCall1(co, _3512543_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512525_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3512544_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512525_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512544_37);
 return;
 }
 }
@@ -4016,10 +4016,10 @@ case 0:
 {
 Obj n = R[1];
 Obj v = R[2];
-Obj _3512519_37 = makeCons(co->gc, n, v);
-Obj _3512520_37 = makeCons(co->gc, _3512519_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3512521_37 = primSet(co, getBinding(co, packageID, 146).name, _3512520_37);
-coraReturn(co, _3512521_37);
+Obj _3512538_37 = makeCons(co->gc, n, v);
+Obj _3512539_37 = makeCons(co->gc, _3512538_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj _3512540_37 = primSet(co, getBinding(co, packageID, 146).name, _3512539_37);
+coraReturn(co, _3512540_37);
 return;
 }
 }
@@ -4045,14 +4045,14 @@ case 0:
 Obj res = R[1];
 Obj f = R[2];
 Obj l = R[3];
-Obj _3512509_37 = PRIM_ISCONS(l);
-if (True == _3512509_37) {
-Obj _3512510_37 = PRIM_CAR(l);
+Obj _3512528_37 = PRIM_ISCONS(l);
+if (True == _3512528_37) {
+Obj _3512529_37 = PRIM_CAR(l);
 R[1] = res;
 R[2] = l;
 R[3] = f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512510_37);
+coraCall1(co, f, _3512529_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4062,14 +4062,14 @@ return;
 }
 case 1:
 {
-Obj _3512511_37= co->res;
+Obj _3512530_37= co->res;
 Obj res = R[1];
 Obj l = R[2];
 Obj f = R[3];
-Obj _3512512_37 = makeCons(co->gc, _3512511_37, res);
-Obj _3512513_37 = PRIM_CDR(l);
+Obj _3512531_37 = makeCons(co->gc, _3512530_37, res);
+Obj _3512532_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512512_37, f, _3512513_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512531_37, f, _3512532_37);
 return;
 }
 }
@@ -4081,13 +4081,13 @@ case 0:
 {
 Obj res = R[1];
 Obj l = R[2];
-Obj _3512502_37 = PRIM_ISCONS(l);
-if (True == _3512502_37) {
-Obj _3512503_37 = PRIM_CAR(l);
-Obj _3512504_37 = makeCons(co->gc, _3512503_37, res);
-Obj _3512505_37 = PRIM_CDR(l);
+Obj _3512521_37 = PRIM_ISCONS(l);
+if (True == _3512521_37) {
+Obj _3512522_37 = PRIM_CAR(l);
+Obj _3512523_37 = makeCons(co->gc, _3512522_37, res);
+Obj _3512524_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512504_37, _3512505_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512523_37, _3512524_37);
 return;
 } else {
 coraReturn(co, res);
@@ -4102,8 +4102,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512500_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512500_37);
+Obj _3512519_37 = PRIM_ISCONS(x);
+coraReturn(co, _3512519_37);
 return;
 }
 }
@@ -4114,13 +4114,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512492_37 = PRIM_ISCONS(exp);
-if (True == _3512492_37) {
-Obj _3512493_37 = PRIM_CAR(exp);
-Obj _3512494_37 = PRIM_CDR(exp);
-R[1] = _3512493_37;
+Obj _3512511_37 = PRIM_ISCONS(exp);
+if (True == _3512511_37) {
+Obj _3512512_37 = PRIM_CAR(exp);
+Obj _3512513_37 = PRIM_CDR(exp);
+R[1] = _3512512_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512494_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512513_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4129,12 @@ return;
 }
 case 1:
 {
-Obj _3512495_37= co->res;
-Obj _3512493_37 = R[1];
-Obj _3512496_37 = makeCons(co->gc, _3512495_37, Nil);
-Obj _3512497_37 = makeCons(co->gc, _3512493_37, _3512496_37);
-Obj _3512498_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512497_37);
-coraReturn(co, _3512498_37);
+Obj _3512514_37= co->res;
+Obj _3512512_37 = R[1];
+Obj _3512515_37 = makeCons(co->gc, _3512514_37, Nil);
+Obj _3512516_37 = makeCons(co->gc, _3512512_37, _3512515_37);
+Obj _3512517_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512516_37);
+coraReturn(co, _3512517_37);
 return;
 }
 }
@@ -4145,10 +4145,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512488_37 = PRIM_CDR(x);
-Obj _3512489_37 = PRIM_CDR(_3512488_37);
-Obj _3512490_37 = PRIM_CDR(_3512489_37);
-coraReturn(co, _3512490_37);
+Obj _3512507_37 = PRIM_CDR(x);
+Obj _3512508_37 = PRIM_CDR(_3512507_37);
+Obj _3512509_37 = PRIM_CDR(_3512508_37);
+coraReturn(co, _3512509_37);
 return;
 }
 }
@@ -4159,11 +4159,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512483_37 = PRIM_CDR(x);
-Obj _3512484_37 = PRIM_CDR(_3512483_37);
-Obj _3512485_37 = PRIM_CDR(_3512484_37);
-Obj _3512486_37 = PRIM_CAR(_3512485_37);
-coraReturn(co, _3512486_37);
+Obj _3512502_37 = PRIM_CDR(x);
+Obj _3512503_37 = PRIM_CDR(_3512502_37);
+Obj _3512504_37 = PRIM_CDR(_3512503_37);
+Obj _3512505_37 = PRIM_CAR(_3512504_37);
+coraReturn(co, _3512505_37);
 return;
 }
 }
@@ -4174,10 +4174,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512479_37 = PRIM_CDR(x);
-Obj _3512480_37 = PRIM_CDR(_3512479_37);
-Obj _3512481_37 = PRIM_CAR(_3512480_37);
-coraReturn(co, _3512481_37);
+Obj _3512498_37 = PRIM_CDR(x);
+Obj _3512499_37 = PRIM_CDR(_3512498_37);
+Obj _3512500_37 = PRIM_CAR(_3512499_37);
+coraReturn(co, _3512500_37);
 return;
 }
 }
@@ -4188,9 +4188,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512476_37 = PRIM_CDR(x);
-Obj _3512477_37 = PRIM_CDR(_3512476_37);
-coraReturn(co, _3512477_37);
+Obj _3512495_37 = PRIM_CDR(x);
+Obj _3512496_37 = PRIM_CDR(_3512495_37);
+coraReturn(co, _3512496_37);
 return;
 }
 }
@@ -4201,9 +4201,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512473_37 = PRIM_CAR(x);
-Obj _3512474_37 = PRIM_CDR(_3512473_37);
-coraReturn(co, _3512474_37);
+Obj _3512492_37 = PRIM_CAR(x);
+Obj _3512493_37 = PRIM_CDR(_3512492_37);
+coraReturn(co, _3512493_37);
 return;
 }
 }
@@ -4214,9 +4214,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512470_37 = PRIM_CAR(x);
-Obj _3512471_37 = PRIM_CAR(_3512470_37);
-coraReturn(co, _3512471_37);
+Obj _3512489_37 = PRIM_CAR(x);
+Obj _3512490_37 = PRIM_CAR(_3512489_37);
+coraReturn(co, _3512490_37);
 return;
 }
 }
@@ -4227,9 +4227,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512467_37 = PRIM_CDR(x);
-Obj _3512468_37 = PRIM_CAR(_3512467_37);
-coraReturn(co, _3512468_37);
+Obj _3512486_37 = PRIM_CDR(x);
+Obj _3512487_37 = PRIM_CAR(_3512486_37);
+coraReturn(co, _3512487_37);
 return;
 }
 }
@@ -4240,8 +4240,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512465_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512465_37);
+Obj _3512484_37 = PRIM_EQ(x, Nil);
+coraReturn(co, _3512484_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index ac5b776..270589b 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,7 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
 static void clofun143(struct Cora* co, int label, Obj *R);
 static void clofun142(struct Cora* co, int label, Obj *R);
@@ -284,192 +285,192 @@ __symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
 __symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
-co->ctx.fn = clofun144;
+co->ctx.fn = clofun145;
 co->ctx.label = 0;
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun144, 4, R);
+saveCont(co, clofun145, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj _3518160_37= co->res;
-Obj _3518166_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj _3518172_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518194_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
-Obj _3518213_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun115, 3, 0));
-Obj _3518223_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun118, 3, 0));
-Obj _3518264_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
-Obj _3518303_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj _3518355_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
-Obj _3518356_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518370_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
-Obj _3518371_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3518384_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
-Obj _3518394_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
-coraReturn(co, _3518394_37);
+Obj _3518181_37= co->res;
+Obj _3518187_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj _3518193_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj _3518215_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun114, 3, 0));
+Obj _3518234_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun116, 3, 0));
+Obj _3518244_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun119, 3, 0));
+Obj _3518285_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
+Obj _3518324_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
+Obj _3518376_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj _3518377_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj _3518391_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
+Obj _3518392_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj _3518405_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
+Obj _3518415_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
+coraReturn(co, _3518415_37);
 return;
 }
 case 2:
 {
-Obj _3516778_37= co->res;
-Obj _3516779_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3516794_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516800_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516810_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516811_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516818_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516819_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516820_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516819_37);
-Obj _3516821_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516820_37);
-Obj _3516822_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3516823_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516822_37);
-Obj _3516824_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516823_37);
-Obj _3516825_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516826_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516825_37);
-Obj _3516827_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516826_37);
-Obj _3516828_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516829_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516828_37);
-Obj _3516830_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516829_37);
-Obj _3516831_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516832_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516831_37);
-Obj _3516833_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516832_37);
-Obj _3516834_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3516835_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516834_37);
-Obj _3516836_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516835_37);
-Obj _3516837_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3516838_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516837_37);
-Obj _3516839_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516838_37);
-Obj _3516840_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3516841_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516840_37);
-Obj _3516842_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516841_37);
-Obj _3516843_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3516844_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516843_37);
-Obj _3516845_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516844_37);
-Obj _3516846_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3516847_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516846_37);
-Obj _3516848_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516847_37);
-Obj _3516849_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3516850_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516849_37);
-Obj _3516851_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516850_37);
-Obj _3516852_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516853_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516852_37);
-Obj _3516854_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516853_37);
-Obj _3516855_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516856_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516855_37);
-Obj _3516857_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516856_37);
-Obj _3516858_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3516859_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516858_37);
-Obj _3516860_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516859_37);
-Obj _3516861_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3516862_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516861_37);
-Obj _3516863_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516862_37);
-Obj _3516864_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3516865_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516864_37);
-Obj _3516866_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516865_37);
-Obj _3516867_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516868_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516867_37);
-Obj _3516869_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516868_37);
-Obj _3516870_37 = makeCons(co->gc, _3516869_37, Nil);
-Obj _3516871_37 = makeCons(co->gc, _3516866_37, _3516870_37);
-Obj _3516872_37 = makeCons(co->gc, _3516863_37, _3516871_37);
-Obj _3516873_37 = makeCons(co->gc, _3516860_37, _3516872_37);
-Obj _3516874_37 = makeCons(co->gc, _3516857_37, _3516873_37);
-Obj _3516875_37 = makeCons(co->gc, _3516854_37, _3516874_37);
-Obj _3516876_37 = makeCons(co->gc, _3516851_37, _3516875_37);
-Obj _3516877_37 = makeCons(co->gc, _3516848_37, _3516876_37);
-Obj _3516878_37 = makeCons(co->gc, _3516845_37, _3516877_37);
-Obj _3516879_37 = makeCons(co->gc, _3516842_37, _3516878_37);
-Obj _3516880_37 = makeCons(co->gc, _3516839_37, _3516879_37);
-Obj _3516881_37 = makeCons(co->gc, _3516836_37, _3516880_37);
-Obj _3516882_37 = makeCons(co->gc, _3516833_37, _3516881_37);
-Obj _3516883_37 = makeCons(co->gc, _3516830_37, _3516882_37);
-Obj _3516884_37 = makeCons(co->gc, _3516827_37, _3516883_37);
-Obj _3516885_37 = makeCons(co->gc, _3516824_37, _3516884_37);
-Obj _3516886_37 = makeCons(co->gc, _3516821_37, _3516885_37);
-Obj _3516887_37 = primSet(co, getBinding(co, packageID, 122).name, _3516886_37);
-Obj _3516891_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516894_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516897_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516902_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517096_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517107_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517118_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517179_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517354_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517427_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
-Obj _3517430_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj _3517567_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3517590_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
-Obj _3517667_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
-Obj _3517698_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj _3517704_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
-Obj _3517709_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
-Obj _3517718_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
-Obj _3517769_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
-Obj _3517777_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
-Obj _3517784_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
-Obj _3517789_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj _3517795_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
-Obj _3517796_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj _3517803_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
-Obj _3517810_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj _3518097_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
-Obj _3518111_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj _3518133_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
-Obj _3518135_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
-Obj _3518139_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518140_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518141_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
-Obj _3518142_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518143_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518150_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
-Obj _3518157_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
-saveCont(co, clofun144, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj _3516797_37= co->res;
+Obj _3516798_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj _3516813_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj _3516819_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj _3516829_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj _3516830_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj _3516837_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj _3516838_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3516839_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516838_37);
+Obj _3516840_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516839_37);
+Obj _3516841_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3516842_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516841_37);
+Obj _3516843_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516842_37);
+Obj _3516844_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3516845_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516844_37);
+Obj _3516846_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516845_37);
+Obj _3516847_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3516848_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516847_37);
+Obj _3516849_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516848_37);
+Obj _3516850_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3516851_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516850_37);
+Obj _3516852_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516851_37);
+Obj _3516853_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3516854_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516853_37);
+Obj _3516855_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516854_37);
+Obj _3516856_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3516857_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516856_37);
+Obj _3516858_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516857_37);
+Obj _3516859_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3516860_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516859_37);
+Obj _3516861_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516860_37);
+Obj _3516862_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3516863_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516862_37);
+Obj _3516864_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516863_37);
+Obj _3516865_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3516866_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516865_37);
+Obj _3516867_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516866_37);
+Obj _3516868_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3516869_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516868_37);
+Obj _3516870_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516869_37);
+Obj _3516871_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3516872_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516871_37);
+Obj _3516873_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516872_37);
+Obj _3516874_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3516875_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516874_37);
+Obj _3516876_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516875_37);
+Obj _3516877_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3516878_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516877_37);
+Obj _3516879_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516878_37);
+Obj _3516880_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3516881_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516880_37);
+Obj _3516882_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516881_37);
+Obj _3516883_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3516884_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516883_37);
+Obj _3516885_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516884_37);
+Obj _3516886_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3516887_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516886_37);
+Obj _3516888_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516887_37);
+Obj _3516889_37 = makeCons(co->gc, _3516888_37, Nil);
+Obj _3516890_37 = makeCons(co->gc, _3516885_37, _3516889_37);
+Obj _3516891_37 = makeCons(co->gc, _3516882_37, _3516890_37);
+Obj _3516892_37 = makeCons(co->gc, _3516879_37, _3516891_37);
+Obj _3516893_37 = makeCons(co->gc, _3516876_37, _3516892_37);
+Obj _3516894_37 = makeCons(co->gc, _3516873_37, _3516893_37);
+Obj _3516895_37 = makeCons(co->gc, _3516870_37, _3516894_37);
+Obj _3516896_37 = makeCons(co->gc, _3516867_37, _3516895_37);
+Obj _3516897_37 = makeCons(co->gc, _3516864_37, _3516896_37);
+Obj _3516898_37 = makeCons(co->gc, _3516861_37, _3516897_37);
+Obj _3516899_37 = makeCons(co->gc, _3516858_37, _3516898_37);
+Obj _3516900_37 = makeCons(co->gc, _3516855_37, _3516899_37);
+Obj _3516901_37 = makeCons(co->gc, _3516852_37, _3516900_37);
+Obj _3516902_37 = makeCons(co->gc, _3516849_37, _3516901_37);
+Obj _3516903_37 = makeCons(co->gc, _3516846_37, _3516902_37);
+Obj _3516904_37 = makeCons(co->gc, _3516843_37, _3516903_37);
+Obj _3516905_37 = makeCons(co->gc, _3516840_37, _3516904_37);
+Obj _3516906_37 = primSet(co, getBinding(co, packageID, 122).name, _3516905_37);
+Obj _3516910_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3516913_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3516916_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3516921_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3517115_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
+Obj _3517126_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
+Obj _3517137_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj _3517198_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj _3517373_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
+Obj _3517448_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun45, 2, 0));
+Obj _3517451_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun46, 1, 0));
+Obj _3517588_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3517611_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj _3517688_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj _3517719_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun66, 3, 0));
+Obj _3517725_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun69, 4, 0));
+Obj _3517730_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3517739_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun73, 1, 0));
+Obj _3517790_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun75, 2, 0));
+Obj _3517798_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun76, 2, 0));
+Obj _3517805_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun77, 2, 0));
+Obj _3517810_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun78, 2, 0));
+Obj _3517816_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun79, 3, 0));
+Obj _3517817_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3517824_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun82, 5, 0));
+Obj _3517831_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun84, 5, 0));
+Obj _3518118_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun97, 5, 0));
+Obj _3518132_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun99, 5, 0));
+Obj _3518154_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun101, 5, 0));
+Obj _3518156_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj _3518160_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj _3518161_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj _3518162_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj _3518163_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj _3518164_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj _3518171_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun108, 1, 0));
+Obj _3518178_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun109, 2, 0));
+saveCont(co, clofun145, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun110, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516777_37= co->res;
-saveCont(co, clofun144, 2, R);
+Obj _3516796_37= co->res;
+saveCont(co, clofun145, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516776_37= co->res;
-saveCont(co, clofun144, 3, R);
+Obj _3516795_37= co->res;
+saveCont(co, clofun145, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj from = R[1];
 Obj to = R[2];
-Obj _3518385_37 = primGenSym(co);
-Obj globals = _3518385_37;
-Obj _3518386_37 = primSet(co, globals, Nil);
+Obj _3518406_37 = primGenSym(co);
+Obj globals = _3518406_37;
+Obj _3518407_37 = primSet(co, globals, Nil);
 R[1] = from;
 R[2] = to;
 R[3] = globals;
-saveCont(co, clofun143, 7, R);
+saveCont(co, clofun144, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), globals);
 return;
 }
 case 1:
 {
-Obj _3518393_37= co->res;
+Obj _3518414_37= co->res;
 Obj stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), stream);
@@ -477,91 +478,91 @@ return;
 }
 case 2:
 {
-Obj _3518392_37= co->res;
+Obj _3518413_37= co->res;
 Obj bc = R[1];
 Obj stream = R[2];
 R[1] = stream;
-saveCont(co, clofun143, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518392_37);
+saveCont(co, clofun144, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518413_37);
 return;
 }
 case 3:
 {
-Obj _3518391_37= co->res;
+Obj _3518412_37= co->res;
 Obj globals = R[1];
 Obj bc = R[2];
-Obj stream = _3518391_37;
+Obj stream = _3518412_37;
 R[1] = bc;
 R[2] = stream;
-saveCont(co, clofun143, 2, R);
+saveCont(co, clofun144, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
 return;
 }
 case 4:
 {
-Obj _3518390_37= co->res;
+Obj _3518411_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
-Obj bc = _3518390_37;
+Obj bc = _3518411_37;
 R[1] = globals;
 R[2] = bc;
-saveCont(co, clofun143, 3, R);
+saveCont(co, clofun144, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), to);
 return;
 }
 case 5:
 {
-Obj _3518389_37= co->res;
-Obj _3518387_37 = R[1];
+Obj _3518410_37= co->res;
+Obj _3518408_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
-saveCont(co, clofun143, 4, R);
-coraCall1(co, _3518387_37, _3518389_37);
+saveCont(co, clofun144, 4, R);
+coraCall1(co, _3518408_37, _3518410_37);
 return;
 }
 case 6:
 {
-Obj _3518388_37= co->res;
-Obj _3518387_37 = R[1];
+Obj _3518409_37= co->res;
+Obj _3518408_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518387_37;
+R[1] = _3518408_37;
 R[2] = to;
 R[3] = globals;
-saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518388_37);
+saveCont(co, clofun144, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518409_37);
 return;
 }
 case 7:
 {
-Obj _3518387_37= co->res;
+Obj _3518408_37= co->res;
 Obj from = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518387_37;
+R[1] = _3518408_37;
 R[2] = to;
 R[3] = globals;
-saveCont(co, clofun143, 6, R);
+saveCont(co, clofun144, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), from);
 return;
 }
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj file_45path = R[1];
-saveCont(co, clofun142, 8, R);
+saveCont(co, clofun143, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), file_45path);
 return;
 }
 case 1:
 {
-Obj _3518379_37= co->res;
+Obj _3518400_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -569,16 +570,16 @@ return;
 }
 case 2:
 {
-Obj _3518378_37= co->res;
+Obj _3518399_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
-saveCont(co, clofun142, 1, R);
+saveCont(co, clofun143, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
 return;
 }
 case 3:
 {
-Obj _3518381_37= co->res;
+Obj _3518402_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -586,16 +587,16 @@ return;
 }
 case 4:
 {
-Obj _3518380_37= co->res;
+Obj _3518401_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
-saveCont(co, clofun142, 3, R);
+saveCont(co, clofun143, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
 return;
 }
 case 5:
 {
-Obj _3518383_37= co->res;
+Obj _3518404_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -603,115 +604,115 @@ return;
 }
 case 6:
 {
-Obj _3518382_37= co->res;
+Obj _3518403_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
-saveCont(co, clofun142, 5, R);
+saveCont(co, clofun143, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
 return;
 }
 case 7:
 {
-Obj _3518375_37= co->res;
-Obj _3516774_37 = R[1];
+Obj _3518396_37= co->res;
+Obj _3516793_37 = R[1];
 Obj sexp = R[2];
-if (True == _3518375_37) {
-Obj _3518376_37 = PRIM_CAR(sexp);
-Obj _3518377_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518376_37);
-if (True == _3518377_37) {
+if (True == _3518396_37) {
+Obj _3518397_37 = PRIM_CAR(sexp);
+Obj _3518398_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518397_37);
+if (True == _3518398_37) {
 R[1] = sexp;
-saveCont(co, clofun142, 2, R);
-coraCall1(co, _3516774_37, True);
+saveCont(co, clofun143, 2, R);
+coraCall1(co, _3516793_37, True);
 return;
 } else {
 R[1] = sexp;
-saveCont(co, clofun142, 4, R);
-coraCall1(co, _3516774_37, False);
+saveCont(co, clofun143, 4, R);
+coraCall1(co, _3516793_37, False);
 return;
 }
 } else {
 R[1] = sexp;
-saveCont(co, clofun142, 6, R);
-coraCall1(co, _3516774_37, False);
+saveCont(co, clofun143, 6, R);
+coraCall1(co, _3516793_37, False);
 return;
 }
 }
 case 8:
 {
-Obj _3518372_37= co->res;
-Obj sexp = _3518372_37;
-Obj _3516774_37 = makeNative(co->gc, 2, clofun141, 1, 1, sexp);
-R[1] = _3516774_37;
+Obj _3518393_37= co->res;
+Obj sexp = _3518393_37;
+Obj _3516793_37 = makeNative(co->gc, 2, clofun142, 1, 1, sexp);
+R[1] = _3516793_37;
 R[2] = sexp;
-saveCont(co, clofun142, 7, R);
+saveCont(co, clofun143, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), sexp);
 return;
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516775_37 = R[1];
-if (True == _3516775_37) {
-Obj _3518373_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3518373_37);
+Obj _3516794_37 = R[1];
+if (True == _3516794_37) {
+Obj _3518394_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, _3518394_37);
 return;
 } else {
-Obj _3518374_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3518374_37);
+Obj _3518395_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, _3518395_37);
 return;
 }
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516762_37 = R[1];
-Obj _3516763_37 = makeNative(co->gc, 1, clofun137, 0, 1, _3516762_37);
-Obj _3518365_37 = PRIM_ISCONS(_3516762_37);
-if (True == _3518365_37) {
-Obj _3518366_37 = PRIM_CAR(_3516762_37);
-Obj _3518367_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518366_37);
-if (True == _3518367_37) {
-Obj _3518368_37 = PRIM_CDR(_3516762_37);
-Obj more = _3518368_37;
-Obj _3518369_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
+Obj _3516781_37 = R[1];
+Obj _3516782_37 = makeNative(co->gc, 1, clofun138, 0, 1, _3516781_37);
+Obj _3518386_37 = PRIM_ISCONS(_3516781_37);
+if (True == _3518386_37) {
+Obj _3518387_37 = PRIM_CAR(_3516781_37);
+Obj _3518388_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518387_37);
+if (True == _3518388_37) {
+Obj _3518389_37 = PRIM_CDR(_3516781_37);
+Obj more = _3518389_37;
+Obj _3518390_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518369_37, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518390_37, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516782_37);
 return;
 }
 }
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
 return;
 }
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -724,49 +725,49 @@ return;
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516764_37 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
-Obj _3518360_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518360_37) {
-Obj _3518361_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518362_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518361_37);
-if (True == _3518362_37) {
-Obj _3518363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518363_37;
-Obj _3518364_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj _3516783_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
+Obj _3518381_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518381_37) {
+Obj _3518382_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518383_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518382_37);
+if (True == _3518383_37) {
+Obj _3518384_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518384_37;
+Obj _3518385_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518364_37, makeNative(co->gc, 2, clofun136, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518385_37, makeNative(co->gc, 2, clofun137, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516783_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516783_37);
 return;
 }
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
 return;
 }
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -779,39 +780,39 @@ return;
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518357_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3518378_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518357_37, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518378_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
 return;
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj type = R[1];
 Obj code = R[2];
-saveCont(co, clofun133, 1, R);
+saveCont(co, clofun134, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
 return;
 }
 case 1:
 {
-Obj _3518358_37= co->res;
-Obj _3518359_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518358_37);
-coraReturn(co, _3518359_37);
+Obj _3518379_37= co->res;
+Obj _3518380_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518379_37);
+coraReturn(co, _3518380_37);
 return;
 }
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -829,219 +830,219 @@ return;
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516755_37 = R[1];
-Obj _3516756_37 = R[2];
-Obj _3516757_37 = makeNative(co->gc, 2, clofun130, 0, 2, _3516755_37, _3516756_37);
-Obj _3518343_37 = PRIM_ISCONS(_3516755_37);
-if (True == _3518343_37) {
-Obj _3518344_37 = PRIM_CAR(_3516755_37);
-Obj _3518345_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518344_37);
-if (True == _3518345_37) {
-Obj _3518346_37 = PRIM_CDR(_3516755_37);
-Obj _3518347_37 = PRIM_ISCONS(_3518346_37);
-if (True == _3518347_37) {
-Obj _3518348_37 = PRIM_CDR(_3516755_37);
-Obj _3518349_37 = PRIM_CAR(_3518348_37);
-Obj name = _3518349_37;
-Obj _3518350_37 = PRIM_CDR(_3516755_37);
-Obj _3518351_37 = PRIM_CDR(_3518350_37);
-Obj more = _3518351_37;
+Obj _3516774_37 = R[1];
+Obj _3516775_37 = R[2];
+Obj _3516776_37 = makeNative(co->gc, 2, clofun131, 0, 2, _3516774_37, _3516775_37);
+Obj _3518364_37 = PRIM_ISCONS(_3516774_37);
+if (True == _3518364_37) {
+Obj _3518365_37 = PRIM_CAR(_3516774_37);
+Obj _3518366_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518365_37);
+if (True == _3518366_37) {
+Obj _3518367_37 = PRIM_CDR(_3516774_37);
+Obj _3518368_37 = PRIM_ISCONS(_3518367_37);
+if (True == _3518368_37) {
+Obj _3518369_37 = PRIM_CDR(_3516774_37);
+Obj _3518370_37 = PRIM_CAR(_3518369_37);
+Obj name = _3518370_37;
+Obj _3518371_37 = PRIM_CDR(_3516774_37);
+Obj _3518372_37 = PRIM_CDR(_3518371_37);
+Obj more = _3518372_37;
 R[1] = name;
-saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516756_37);
+saveCont(co, clofun132, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516775_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516776_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516776_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516776_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518352_37= co->res;
+Obj _3518373_37= co->res;
 Obj name = R[1];
-Obj _3518353_37 = makeCons(co->gc, name, _3518352_37);
-Obj _3518354_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518353_37);
-coraReturn(co, _3518354_37);
+Obj _3518374_37 = makeCons(co->gc, name, _3518373_37);
+Obj _3518375_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518374_37);
+coraReturn(co, _3518375_37);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516758_37 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518322_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518322_37) {
-Obj _3518323_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518324_37 = PRIM_ISCONS(_3518323_37);
-if (True == _3518324_37) {
-Obj _3518325_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518326_37 = PRIM_CAR(_3518325_37);
-Obj _3518327_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518326_37);
-if (True == _3518327_37) {
-Obj _3518328_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518329_37 = PRIM_CDR(_3518328_37);
-Obj _3518330_37 = PRIM_ISCONS(_3518329_37);
-if (True == _3518330_37) {
-Obj _3518331_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518332_37 = PRIM_CDR(_3518331_37);
-Obj _3518333_37 = PRIM_CAR(_3518332_37);
-Obj pkg = _3518333_37;
-Obj _3518334_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518335_37 = PRIM_CDR(_3518334_37);
-Obj _3518336_37 = PRIM_CDR(_3518335_37);
-Obj _3518337_37 = PRIM_EQ(Nil, _3518336_37);
-if (True == _3518337_37) {
-Obj _3518338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518338_37;
-Obj _3518339_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518340_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518339_37);
-R[1] = _3518340_37;
-saveCont(co, clofun130, 1, R);
+Obj _3516777_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518343_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518343_37) {
+Obj _3518344_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518345_37 = PRIM_ISCONS(_3518344_37);
+if (True == _3518345_37) {
+Obj _3518346_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518347_37 = PRIM_CAR(_3518346_37);
+Obj _3518348_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518347_37);
+if (True == _3518348_37) {
+Obj _3518349_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518350_37 = PRIM_CDR(_3518349_37);
+Obj _3518351_37 = PRIM_ISCONS(_3518350_37);
+if (True == _3518351_37) {
+Obj _3518352_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518353_37 = PRIM_CDR(_3518352_37);
+Obj _3518354_37 = PRIM_CAR(_3518353_37);
+Obj pkg = _3518354_37;
+Obj _3518355_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518356_37 = PRIM_CDR(_3518355_37);
+Obj _3518357_37 = PRIM_CDR(_3518356_37);
+Obj _3518358_37 = PRIM_EQ(Nil, _3518357_37);
+if (True == _3518358_37) {
+Obj _3518359_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518359_37;
+Obj _3518360_37 = makeCons(co->gc, pkg, Nil);
+Obj _3518361_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518360_37);
+R[1] = _3518361_37;
+saveCont(co, clofun131, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516777_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518341_37= co->res;
-Obj _3518340_37 = R[1];
-Obj _3518342_37 = makeCons(co->gc, _3518340_37, _3518341_37);
-coraReturn(co, _3518342_37);
+Obj _3518362_37= co->res;
+Obj _3518361_37 = R[1];
+Obj _3518363_37 = makeCons(co->gc, _3518361_37, _3518362_37);
+coraReturn(co, _3518363_37);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516759_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518310_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518310_37) {
-Obj _3518311_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518312_37 = PRIM_ISCONS(_3518311_37);
-if (True == _3518312_37) {
-Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518314_37 = PRIM_CAR(_3518313_37);
-Obj _3518315_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518314_37);
-if (True == _3518315_37) {
-Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518317_37 = PRIM_CDR(_3518316_37);
-Obj symbols = _3518317_37;
-Obj _3518318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518318_37;
-Obj _3518319_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
-R[1] = _3518319_37;
-saveCont(co, clofun129, 1, R);
+Obj _3516778_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518331_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518331_37) {
+Obj _3518332_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518333_37 = PRIM_ISCONS(_3518332_37);
+if (True == _3518333_37) {
+Obj _3518334_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518335_37 = PRIM_CAR(_3518334_37);
+Obj _3518336_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518335_37);
+if (True == _3518336_37) {
+Obj _3518337_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518338_37 = PRIM_CDR(_3518337_37);
+Obj symbols = _3518338_37;
+Obj _3518339_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518339_37;
+Obj _3518340_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
+R[1] = _3518340_37;
+saveCont(co, clofun130, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516778_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516778_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516778_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518320_37= co->res;
-Obj _3518319_37 = R[1];
-Obj _3518321_37 = makeCons(co->gc, _3518319_37, _3518320_37);
-coraReturn(co, _3518321_37);
+Obj _3518341_37= co->res;
+Obj _3518340_37 = R[1];
+Obj _3518342_37 = makeCons(co->gc, _3518340_37, _3518341_37);
+coraReturn(co, _3518342_37);
 return;
 }
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516760_37 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518304_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518304_37) {
-Obj _3518305_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518306_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518305_37);
-if (True == _3518306_37) {
-Obj _3518307_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518307_37;
-saveCont(co, clofun128, 1, R);
+Obj _3516779_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3518325_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518325_37) {
+Obj _3518326_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518327_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518326_37);
+if (True == _3518327_37) {
+Obj _3518328_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518328_37;
+saveCont(co, clofun129, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516760_37);
+coraCall0(co, _3516779_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516760_37);
+coraCall0(co, _3516779_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518308_37= co->res;
-Obj _3518309_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518308_37);
-coraReturn(co, _3518309_37);
+Obj _3518329_37= co->res;
+Obj _3518330_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518329_37);
+coraReturn(co, _3518330_37);
 return;
 }
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1052,147 +1053,147 @@ return;
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516747_37 = R[1];
-Obj _3516748_37 = R[2];
-Obj _3516749_37 = R[3];
-Obj _3516750_37 = R[4];
-Obj _3518265_37 = PRIM_EQ(Nil, _3516747_37);
-if (True == _3518265_37) {
-R[1] = _3516749_37;
-R[2] = _3516750_37;
-saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516748_37);
+Obj _3516766_37 = R[1];
+Obj _3516767_37 = R[2];
+Obj _3516768_37 = R[3];
+Obj _3516769_37 = R[4];
+Obj _3518286_37 = PRIM_EQ(Nil, _3516766_37);
+if (True == _3518286_37) {
+R[1] = _3516768_37;
+R[2] = _3516769_37;
+saveCont(co, clofun127, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516767_37);
 return;
 } else {
-Obj _3516752_37 = makeNative(co->gc, 1, clofun125, 0, 4, _3516747_37, _3516748_37, _3516749_37, _3516750_37);
-Obj _3518292_37 = PRIM_ISCONS(_3516747_37);
-if (True == _3518292_37) {
-Obj _3518293_37 = PRIM_CAR(_3516747_37);
-Obj _3518294_37 = PRIM_ISCONS(_3518293_37);
-if (True == _3518294_37) {
-Obj _3518295_37 = PRIM_CAR(_3516747_37);
-Obj _3518296_37 = PRIM_CAR(_3518295_37);
-Obj _3518297_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518296_37);
-if (True == _3518297_37) {
-Obj _3518298_37 = PRIM_CAR(_3516747_37);
-Obj _3518299_37 = PRIM_CDR(_3518298_37);
-Obj exp = _3518299_37;
-Obj _3518300_37 = PRIM_CDR(_3516747_37);
-Obj more = _3518300_37;
-Obj _3518301_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
-Obj _3518302_37 = makeCons(co->gc, _3518301_37, _3516748_37);
+Obj _3516771_37 = makeNative(co->gc, 1, clofun126, 0, 4, _3516766_37, _3516767_37, _3516768_37, _3516769_37);
+Obj _3518313_37 = PRIM_ISCONS(_3516766_37);
+if (True == _3518313_37) {
+Obj _3518314_37 = PRIM_CAR(_3516766_37);
+Obj _3518315_37 = PRIM_ISCONS(_3518314_37);
+if (True == _3518315_37) {
+Obj _3518316_37 = PRIM_CAR(_3516766_37);
+Obj _3518317_37 = PRIM_CAR(_3518316_37);
+Obj _3518318_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518317_37);
+if (True == _3518318_37) {
+Obj _3518319_37 = PRIM_CAR(_3516766_37);
+Obj _3518320_37 = PRIM_CDR(_3518319_37);
+Obj exp = _3518320_37;
+Obj _3518321_37 = PRIM_CDR(_3516766_37);
+Obj more = _3518321_37;
+Obj _3518322_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
+Obj _3518323_37 = makeCons(co->gc, _3518322_37, _3516767_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518302_37, _3516749_37, _3516750_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518323_37, _3516768_37, _3516769_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516771_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518267_37= co->res;
-Obj _3516750_37 = R[1];
-Obj _3518266_37 = R[2];
+Obj _3518288_37= co->res;
+Obj _3516769_37 = R[1];
+Obj _3518287_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516750_37, _3518266_37, _3518267_37);
+coraCall2(co, _3516769_37, _3518287_37, _3518288_37);
 return;
 }
 case 2:
 {
-Obj _3518266_37= co->res;
-Obj _3516749_37 = R[1];
-Obj _3516750_37 = R[2];
-R[1] = _3516750_37;
-R[2] = _3518266_37;
-saveCont(co, clofun126, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516749_37);
+Obj _3518287_37= co->res;
+Obj _3516768_37 = R[1];
+Obj _3516769_37 = R[2];
+R[1] = _3516769_37;
+R[2] = _3518287_37;
+saveCont(co, clofun127, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516768_37);
 return;
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516753_37 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518281_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518281_37) {
-Obj _3518282_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518283_37 = PRIM_ISCONS(_3518282_37);
-if (True == _3518283_37) {
-Obj _3518284_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518285_37 = PRIM_CAR(_3518284_37);
-Obj _3518286_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518285_37);
-if (True == _3518286_37) {
-Obj _3518287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518288_37 = PRIM_CDR(_3518287_37);
-Obj exp = _3518288_37;
-Obj _3518289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518289_37;
-Obj _3518290_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
-Obj _3518291_37 = makeCons(co->gc, _3518290_37, closureRef(R[0], 1));
+Obj _3516772_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3518302_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518302_37) {
+Obj _3518303_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518304_37 = PRIM_ISCONS(_3518303_37);
+if (True == _3518304_37) {
+Obj _3518305_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518306_37 = PRIM_CAR(_3518305_37);
+Obj _3518307_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518306_37);
+if (True == _3518307_37) {
+Obj _3518308_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518309_37 = PRIM_CDR(_3518308_37);
+Obj exp = _3518309_37;
+Obj _3518310_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518310_37;
+Obj _3518311_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
+Obj _3518312_37 = makeCons(co->gc, _3518311_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518291_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518312_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516772_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516772_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516772_37);
 return;
 }
 }
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518268_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518268_37) {
-Obj _3518269_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518269_37;
-Obj _3518270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518270_37;
-Obj _3518271_37 = makeCons(co->gc, exp, Nil);
-Obj _3518272_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518271_37);
-Obj _3518273_37 = makeCons(co->gc, _3518272_37, Nil);
-Obj _3518274_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518273_37);
-Obj _3518275_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3518276_37 = makeCons(co->gc, _3518275_37, Nil);
-Obj _3518277_37 = makeCons(co->gc, _3518274_37, _3518276_37);
-Obj _3518278_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518277_37);
-Obj _3518279_37 = makeCons(co->gc, _3518278_37, closureRef(R[0], 1));
-Obj _3518280_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj _3518289_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518289_37) {
+Obj _3518290_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj exp = _3518290_37;
+Obj _3518291_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518291_37;
+Obj _3518292_37 = makeCons(co->gc, exp, Nil);
+Obj _3518293_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518292_37);
+Obj _3518294_37 = makeCons(co->gc, _3518293_37, Nil);
+Obj _3518295_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518294_37);
+Obj _3518296_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj _3518297_37 = makeCons(co->gc, _3518296_37, Nil);
+Obj _3518298_37 = makeCons(co->gc, _3518295_37, _3518297_37);
+Obj _3518299_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518298_37);
+Obj _3518300_37 = makeCons(co->gc, _3518299_37, closureRef(R[0], 1));
+Obj _3518301_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518279_37, _3518280_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518300_37, _3518301_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1203,178 +1204,178 @@ return;
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516741_37 = R[1];
-Obj _3516742_37 = makeNative(co->gc, 1, clofun122, 0, 1, _3516741_37);
-Obj _3518255_37 = PRIM_ISCONS(_3516741_37);
-if (True == _3518255_37) {
-Obj _3518256_37 = PRIM_CAR(_3516741_37);
-Obj _3518257_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518256_37);
-if (True == _3518257_37) {
-Obj _3518258_37 = PRIM_CDR(_3516741_37);
-Obj _3518259_37 = PRIM_ISCONS(_3518258_37);
-if (True == _3518259_37) {
-Obj _3518260_37 = PRIM_CDR(_3516741_37);
-Obj _3518261_37 = PRIM_CAR(_3518260_37);
-Obj _3518262_37 = PRIM_CDR(_3516741_37);
-Obj _3518263_37 = PRIM_CDR(_3518262_37);
-Obj remain = _3518263_37;
+Obj _3516760_37 = R[1];
+Obj _3516761_37 = makeNative(co->gc, 1, clofun123, 0, 1, _3516760_37);
+Obj _3518276_37 = PRIM_ISCONS(_3516760_37);
+if (True == _3518276_37) {
+Obj _3518277_37 = PRIM_CAR(_3516760_37);
+Obj _3518278_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518277_37);
+if (True == _3518278_37) {
+Obj _3518279_37 = PRIM_CDR(_3516760_37);
+Obj _3518280_37 = PRIM_ISCONS(_3518279_37);
+if (True == _3518280_37) {
+Obj _3518281_37 = PRIM_CDR(_3516760_37);
+Obj _3518282_37 = PRIM_CAR(_3518281_37);
+Obj _3518283_37 = PRIM_CDR(_3516760_37);
+Obj _3518284_37 = PRIM_CDR(_3518283_37);
+Obj remain = _3518284_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516761_37);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516743_37 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518251_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518251_37) {
-Obj _3518252_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518253_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518252_37);
-if (True == _3518253_37) {
-Obj _3518254_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518254_37;
+Obj _3516762_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
+Obj _3518272_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518272_37) {
+Obj _3518273_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518274_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518273_37);
+if (True == _3518274_37) {
+Obj _3518275_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518275_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3516762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3516762_37);
 return;
 }
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516744_37 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
-Obj _3518242_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518242_37) {
-Obj _3518243_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518244_37 = PRIM_ISCONS(_3518243_37);
-if (True == _3518244_37) {
-Obj _3518245_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518246_37 = PRIM_CAR(_3518245_37);
-Obj _3518247_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518246_37);
-if (True == _3518247_37) {
-Obj _3518248_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518249_37 = PRIM_CDR(_3518248_37);
-Obj _3518250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518250_37;
+Obj _3516763_37 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
+Obj _3518263_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518263_37) {
+Obj _3518264_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518265_37 = PRIM_ISCONS(_3518264_37);
+if (True == _3518265_37) {
+Obj _3518266_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518267_37 = PRIM_CAR(_3518266_37);
+Obj _3518268_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518267_37);
+if (True == _3518268_37) {
+Obj _3518269_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518270_37 = PRIM_CDR(_3518269_37);
+Obj _3518271_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518271_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516763_37);
 return;
 }
 }
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516745_37 = makeNative(co->gc, 1, clofun119, 0, 0);
-Obj _3518224_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518224_37) {
-Obj _3518225_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518226_37 = PRIM_ISCONS(_3518225_37);
-if (True == _3518226_37) {
-Obj _3518227_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518228_37 = PRIM_CAR(_3518227_37);
-Obj _3518229_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518228_37);
-if (True == _3518229_37) {
-Obj _3518230_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518231_37 = PRIM_CDR(_3518230_37);
-Obj _3518232_37 = PRIM_ISCONS(_3518231_37);
-if (True == _3518232_37) {
-Obj _3518233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518234_37 = PRIM_CDR(_3518233_37);
-Obj _3518235_37 = PRIM_CAR(_3518234_37);
-Obj pkg = _3518235_37;
-Obj _3518236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518237_37 = PRIM_CDR(_3518236_37);
-Obj _3518238_37 = PRIM_CDR(_3518237_37);
-Obj _3518239_37 = PRIM_EQ(Nil, _3518238_37);
-if (True == _3518239_37) {
-Obj _3518240_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518240_37;
+Obj _3516764_37 = makeNative(co->gc, 1, clofun120, 0, 0);
+Obj _3518245_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518245_37) {
+Obj _3518246_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518247_37 = PRIM_ISCONS(_3518246_37);
+if (True == _3518247_37) {
+Obj _3518248_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518249_37 = PRIM_CAR(_3518248_37);
+Obj _3518250_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518249_37);
+if (True == _3518250_37) {
+Obj _3518251_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518252_37 = PRIM_CDR(_3518251_37);
+Obj _3518253_37 = PRIM_ISCONS(_3518252_37);
+if (True == _3518253_37) {
+Obj _3518254_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518255_37 = PRIM_CDR(_3518254_37);
+Obj _3518256_37 = PRIM_CAR(_3518255_37);
+Obj pkg = _3518256_37;
+Obj _3518257_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518258_37 = PRIM_CDR(_3518257_37);
+Obj _3518259_37 = PRIM_CDR(_3518258_37);
+Obj _3518260_37 = PRIM_EQ(Nil, _3518259_37);
+if (True == _3518260_37) {
+Obj _3518261_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518261_37;
 R[1] = remain;
-saveCont(co, clofun120, 1, R);
+saveCont(co, clofun121, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516764_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518241_37= co->res;
+Obj _3518262_37= co->res;
 Obj remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
@@ -1383,7 +1384,7 @@ return;
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1393,7 +1394,7 @@ return;
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1403,102 +1404,102 @@ Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 7, R);
+saveCont(co, clofun119, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3518222_37= co->res;
+Obj _3518243_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 2, to, globals), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 2, to, globals), bc);
 return;
 }
 case 2:
 {
-Obj _3518221_37= co->res;
+Obj _3518242_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518221_37);
+saveCont(co, clofun119, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518242_37);
 return;
 }
 case 3:
 {
-Obj _3518220_37= co->res;
+Obj _3518241_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 2, R);
+saveCont(co, clofun119, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
 return;
 }
 case 4:
 {
-Obj _3518219_37= co->res;
+Obj _3518240_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 3, R);
+saveCont(co, clofun119, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 5:
 {
-Obj _3518216_37= co->res;
+Obj _3518237_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun116, 1, 1, to), bc);
+saveCont(co, clofun119, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 1, to), bc);
 return;
 }
 case 6:
 {
-Obj _3518215_37= co->res;
+Obj _3518236_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 5, R);
+saveCont(co, clofun119, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 7:
 {
-Obj _3518214_37= co->res;
+Obj _3518235_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 6, R);
+saveCont(co, clofun119, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1510,19 +1511,19 @@ return;
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj group = R[1];
-Obj _3518217_37 = PRIM_CAR(group);
-saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518217_37);
+Obj _3518238_37 = PRIM_CAR(group);
+saveCont(co, clofun117, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518238_37);
 return;
 }
 case 1:
 {
-Obj _3518218_37= co->res;
+Obj _3518239_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1530,7 +1531,7 @@ return;
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1540,13 +1541,13 @@ Obj label = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 11, R);
+saveCont(co, clofun116, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3518212_37= co->res;
+Obj _3518233_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1554,126 +1555,126 @@ return;
 }
 case 2:
 {
-Obj _3518211_37= co->res;
+Obj _3518232_37= co->res;
 Obj to = R[1];
 R[1] = to;
-saveCont(co, clofun115, 1, R);
+saveCont(co, clofun116, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3518210_37= co->res;
+Obj _3518231_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = to;
-saveCont(co, clofun115, 2, R);
+saveCont(co, clofun116, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
 return;
 }
 case 4:
 {
-Obj _3518209_37= co->res;
+Obj _3518230_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 3, R);
+saveCont(co, clofun116, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj _3518208_37= co->res;
+Obj _3518229_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 4, R);
+saveCont(co, clofun116, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 6:
 {
-Obj _3518200_37= co->res;
+Obj _3518221_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 1, to), MAKE_NUMBER(0), globals);
+saveCont(co, clofun116, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun115, 2, 1, to), MAKE_NUMBER(0), globals);
 return;
 }
 case 7:
 {
-Obj _3518199_37= co->res;
+Obj _3518220_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 6, R);
+saveCont(co, clofun116, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
 return;
 }
 case 8:
 {
-Obj _3518198_37= co->res;
+Obj _3518219_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518198_37);
+saveCont(co, clofun116, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518219_37);
 return;
 }
 case 9:
 {
-Obj _3518197_37= co->res;
+Obj _3518218_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 8, R);
+saveCont(co, clofun116, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
 return;
 }
 case 10:
 {
-Obj _3518196_37= co->res;
+Obj _3518217_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 9, R);
+saveCont(co, clofun116, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 11:
 {
-Obj _3518195_37= co->res;
+Obj _3518216_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 10, R);
+saveCont(co, clofun116, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1681,90 +1682,90 @@ Obj acc = R[1];
 Obj sym = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 6, R);
+saveCont(co, clofun115, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj _3518206_37= co->res;
+Obj _3518227_37= co->res;
 Obj acc = R[1];
-Obj _3518207_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518207_37);
+Obj _3518228_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518228_37);
 return;
 }
 case 2:
 {
-Obj _3518205_37= co->res;
+Obj _3518226_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun114, 1, R);
+saveCont(co, clofun115, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj _3518204_37= co->res;
+Obj _3518225_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun114, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518204_37);
+saveCont(co, clofun115, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518225_37);
 return;
 }
 case 4:
 {
-Obj _3518203_37= co->res;
+Obj _3518224_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun114, 3, R);
+saveCont(co, clofun115, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sym);
 return;
 }
 case 5:
 {
-Obj _3518202_37= co->res;
+Obj _3518223_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 4, R);
+saveCont(co, clofun115, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 6:
 {
-Obj _3518201_37= co->res;
+Obj _3518222_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 5, R);
+saveCont(co, clofun115, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), acc);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj to = R[1];
 Obj group = R[2];
 Obj globals = R[3];
-Obj _3518173_37 = PRIM_CAR(group);
-Obj label = _3518173_37;
+Obj _3518194_37 = PRIM_CAR(group);
+Obj label = _3518194_37;
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun113, 13, R);
+saveCont(co, clofun114, 13, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), group);
 return;
 }
 case 1:
 {
-Obj _3518193_37= co->res;
+Obj _3518214_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
@@ -1772,28 +1773,28 @@ return;
 }
 case 2:
 {
-Obj _3518192_37= co->res;
+Obj _3518213_37= co->res;
 Obj to = R[1];
 R[1] = to;
-saveCont(co, clofun113, 1, R);
+saveCont(co, clofun114, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518191_37= co->res;
+Obj _3518212_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
 R[1] = to;
-saveCont(co, clofun113, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518191_37);
+saveCont(co, clofun114, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun113, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518212_37);
 return;
 }
 case 4:
 {
-Obj _3518183_37= co->res;
+Obj _3518204_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1802,13 +1803,13 @@ R[1] = globals;
 R[2] = label;
 R[3] = lam;
 R[4] = to;
-saveCont(co, clofun113, 3, R);
+saveCont(co, clofun114, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
 return;
 }
 case 5:
 {
-Obj _3518182_37= co->res;
+Obj _3518203_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1817,13 +1818,13 @@ R[1] = globals;
 R[2] = label;
 R[3] = lam;
 R[4] = to;
-saveCont(co, clofun113, 4, R);
+saveCont(co, clofun114, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj _3518181_37= co->res;
+Obj _3518202_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1834,14 +1835,14 @@ R[1] = globals;
 R[2] = label;
 R[3] = lam;
 R[4] = to;
-saveCont(co, clofun113, 5, R);
+saveCont(co, clofun114, 5, R);
 Obj __args[5] = {globals, label, params, to, first_45stmt};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518180_37= co->res;
+Obj _3518201_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1854,14 +1855,14 @@ R[3] = globals;
 R[4] = label;
 R[5] = lam;
 R[6] = to;
-saveCont(co, clofun113, 6, R);
+saveCont(co, clofun114, 6, R);
 Obj __args[5] = {globals, label, Nil, to, params};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj _3518179_37= co->res;
+Obj _3518200_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1874,13 +1875,13 @@ R[3] = globals;
 R[4] = label;
 R[5] = lam;
 R[6] = to;
-saveCont(co, clofun113, 7, R);
+saveCont(co, clofun114, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj _3518178_37= co->res;
+Obj _3518199_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1893,13 +1894,13 @@ R[3] = globals;
 R[4] = label;
 R[5] = lam;
 R[6] = to;
-saveCont(co, clofun113, 8, R);
+saveCont(co, clofun114, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj _3518177_37= co->res;
+Obj _3518198_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1912,65 +1913,65 @@ R[3] = globals;
 R[4] = label;
 R[5] = lam;
 R[6] = to;
-saveCont(co, clofun113, 9, R);
+saveCont(co, clofun114, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj _3518176_37= co->res;
+Obj _3518197_37= co->res;
 Obj params = R[1];
 Obj globals = R[2];
 Obj label = R[3];
 Obj lam = R[4];
 Obj to = R[5];
-Obj first_45stmt = _3518176_37;
+Obj first_45stmt = _3518197_37;
 R[1] = params;
 R[2] = first_45stmt;
 R[3] = globals;
 R[4] = label;
 R[5] = lam;
 R[6] = to;
-saveCont(co, clofun113, 10, R);
+saveCont(co, clofun114, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, label);
 return;
 }
 case 12:
 {
-Obj _3518175_37= co->res;
+Obj _3518196_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
-Obj params = _3518175_37;
+Obj params = _3518196_37;
 R[1] = params;
 R[2] = globals;
 R[3] = label;
 R[4] = lam;
 R[5] = to;
-saveCont(co, clofun113, 11, R);
+saveCont(co, clofun114, 11, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
 return;
 }
 case 13:
 {
-Obj _3518174_37= co->res;
+Obj _3518195_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
-Obj lam = _3518174_37;
+Obj lam = _3518195_37;
 R[1] = globals;
 R[2] = label;
 R[3] = lam;
 R[4] = to;
-saveCont(co, clofun113, 12, R);
+saveCont(co, clofun114, 12, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1978,95 +1979,95 @@ Obj acc = R[1];
 Obj cont = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 6, R);
+saveCont(co, clofun113, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj _3518189_37= co->res;
+Obj _3518210_37= co->res;
 Obj acc = R[1];
-Obj _3518190_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518190_37);
+Obj _3518211_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518211_37);
 return;
 }
 case 2:
 {
-Obj _3518188_37= co->res;
+Obj _3518209_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun112, 1, R);
+saveCont(co, clofun113, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518187_37= co->res;
+Obj _3518208_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun112, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518187_37, closureRef(R[0], 3), cont};
+saveCont(co, clofun113, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518208_37, closureRef(R[0], 3), cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518186_37= co->res;
+Obj _3518207_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 3, R);
+saveCont(co, clofun113, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj _3518185_37= co->res;
+Obj _3518206_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 4, R);
+saveCont(co, clofun113, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj _3518184_37= co->res;
+Obj _3518205_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 5, R);
+saveCont(co, clofun113, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = R[1];
-Obj _3516738_37 = R[2];
-Obj _3518167_37 = PRIM_EQ(Nil, _3516738_37);
-if (True == _3518167_37) {
+Obj _3516756_37 = R[1];
+Obj _3516757_37 = R[2];
+Obj _3518188_37 = PRIM_EQ(Nil, _3516757_37);
+if (True == _3518188_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518168_37 = PRIM_ISCONS(_3516738_37);
-if (True == _3518168_37) {
-Obj _3518169_37 = PRIM_CAR(_3516738_37);
-Obj x = _3518169_37;
-Obj _3518170_37 = PRIM_CDR(_3516738_37);
-Obj y = _3518170_37;
-R[1] = _3516737_37;
+Obj _3518189_37 = PRIM_ISCONS(_3516757_37);
+if (True == _3518189_37) {
+Obj _3518190_37 = PRIM_CAR(_3516757_37);
+Obj x = _3518190_37;
+Obj _3518191_37 = PRIM_CDR(_3516757_37);
+Obj y = _3518191_37;
+R[1] = _3516756_37;
 R[2] = y;
-saveCont(co, clofun111, 1, R);
-coraCall1(co, _3516737_37, x);
+saveCont(co, clofun112, 1, R);
+coraCall1(co, _3516756_37, x);
 return;
 } else {
 co->ctx.sp = R;
@@ -2077,119 +2078,119 @@ return;
 }
 case 1:
 {
-Obj _3518171_37= co->res;
-Obj _3516737_37 = R[1];
+Obj _3518192_37= co->res;
+Obj _3516756_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516737_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516756_37, y);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj globals = R[1];
 Obj exp = R[2];
 R[1] = exp;
-saveCont(co, clofun110, 5, R);
+saveCont(co, clofun111, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), globals);
 return;
 }
 case 1:
 {
-Obj _3518165_37= co->res;
+Obj _3518186_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518165_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518186_37);
 return;
 }
 case 2:
 {
-Obj _3518164_37= co->res;
-saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518164_37);
+Obj _3518185_37= co->res;
+saveCont(co, clofun111, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518185_37);
 return;
 }
 case 3:
 {
-Obj _3518163_37= co->res;
-saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518163_37);
+Obj _3518184_37= co->res;
+saveCont(co, clofun111, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518184_37);
 return;
 }
 case 4:
 {
-Obj _3518162_37= co->res;
-saveCont(co, clofun110, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518162_37);
+Obj _3518183_37= co->res;
+saveCont(co, clofun111, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518183_37);
 return;
 }
 case 5:
 {
-Obj _3518161_37= co->res;
+Obj _3518182_37= co->res;
 Obj exp = R[1];
-saveCont(co, clofun110, 4, R);
-coraCall1(co, _3518161_37, exp);
+saveCont(co, clofun111, 4, R);
+coraCall1(co, _3518182_37, exp);
 return;
 }
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun109, 2, R);
+saveCont(co, clofun110, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), exp);
 return;
 }
 case 1:
 {
-Obj _3518159_37= co->res;
+Obj _3518180_37= co->res;
 Obj obj = R[1];
-Obj fns = _3518159_37;
+Obj fns = _3518180_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), obj, fns);
 return;
 }
 case 2:
 {
-Obj _3518158_37= co->res;
+Obj _3518179_37= co->res;
 Obj exp = R[1];
-Obj obj = _3518158_37;
+Obj obj = _3518179_37;
 R[1] = obj;
-saveCont(co, clofun109, 1, R);
+saveCont(co, clofun110, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
 return;
 }
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516733_37 = R[1];
-Obj _3516734_37 = R[2];
-Obj _3518151_37 = PRIM_EQ(Nil, _3516734_37);
-if (True == _3518151_37) {
-coraReturn(co, _3516733_37);
+Obj _3516752_37 = R[1];
+Obj _3516753_37 = R[2];
+Obj _3518172_37 = PRIM_EQ(Nil, _3516753_37);
+if (True == _3518172_37) {
+coraReturn(co, _3516752_37);
 return;
 } else {
-Obj _3518152_37 = PRIM_ISCONS(_3516734_37);
-if (True == _3518152_37) {
-Obj _3518153_37 = PRIM_CAR(_3516734_37);
-Obj hd = _3518153_37;
-Obj _3518154_37 = PRIM_CDR(_3516734_37);
-Obj more = _3518154_37;
-Obj _3518155_37 = makeCons(co->gc, _3516733_37, Nil);
-Obj _3518156_37 = makeCons(co->gc, hd, _3518155_37);
+Obj _3518173_37 = PRIM_ISCONS(_3516753_37);
+if (True == _3518173_37) {
+Obj _3518174_37 = PRIM_CAR(_3516753_37);
+Obj hd = _3518174_37;
+Obj _3518175_37 = PRIM_CDR(_3516753_37);
+Obj more = _3518175_37;
+Obj _3518176_37 = makeCons(co->gc, _3516752_37, Nil);
+Obj _3518177_37 = makeCons(co->gc, hd, _3518176_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518156_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518177_37, more);
 return;
 } else {
 co->ctx.sp = R;
@@ -2201,19 +2202,19 @@ return;
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun107, 6, R);
+saveCont(co, clofun108, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj _3518149_37= co->res;
+Obj _3518170_37= co->res;
 Obj v = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
@@ -2221,60 +2222,60 @@ return;
 }
 case 2:
 {
-Obj _3518148_37= co->res;
+Obj _3518169_37= co->res;
 Obj v = R[1];
-Obj e2 = _3518148_37;
+Obj e2 = _3518169_37;
 R[1] = v;
-saveCont(co, clofun107, 1, R);
+saveCont(co, clofun108, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v, e2);
 return;
 }
 case 3:
 {
-Obj _3518147_37= co->res;
+Obj _3518168_37= co->res;
 Obj v = R[1];
-Obj e1 = _3518147_37;
+Obj e1 = _3518168_37;
 R[1] = v;
-saveCont(co, clofun107, 2, R);
+saveCont(co, clofun108, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, e1);
 return;
 }
 case 4:
 {
-Obj _3518146_37= co->res;
+Obj _3518167_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = v;
-saveCont(co, clofun107, 3, R);
+saveCont(co, clofun108, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v, exp);
 return;
 }
 case 5:
 {
-Obj _3518145_37= co->res;
+Obj _3518166_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = exp;
 R[2] = v;
-saveCont(co, clofun107, 4, R);
+saveCont(co, clofun108, 4, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj _3518144_37= co->res;
+Obj _3518165_37= co->res;
 Obj exp = R[1];
-Obj v = _3518144_37;
+Obj v = _3518165_37;
 R[1] = exp;
 R[2] = v;
-saveCont(co, clofun107, 5, R);
+saveCont(co, clofun108, 5, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2286,7 +2287,7 @@ return;
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2298,7 +2299,7 @@ return;
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2310,7 +2311,7 @@ return;
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2323,7 +2324,7 @@ return;
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2331,13 +2332,13 @@ Obj w = R[1];
 Obj label = R[2];
 R[1] = label;
 R[2] = w;
-saveCont(co, clofun102, 3, R);
+saveCont(co, clofun103, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj _3518138_37= co->res;
+Obj _3518159_37= co->res;
 Obj w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
@@ -2345,27 +2346,27 @@ return;
 }
 case 2:
 {
-Obj _3518137_37= co->res;
+Obj _3518158_37= co->res;
 Obj w = R[1];
 R[1] = w;
-saveCont(co, clofun102, 1, R);
+saveCont(co, clofun103, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj _3518136_37= co->res;
+Obj _3518157_37= co->res;
 Obj label = R[1];
 Obj w = R[2];
 R[1] = w;
-saveCont(co, clofun102, 2, R);
+saveCont(co, clofun103, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), w, label);
 return;
 }
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2373,13 +2374,13 @@ Obj w = R[1];
 Obj label = R[2];
 R[1] = w;
 R[2] = label;
-saveCont(co, clofun101, 1, R);
+saveCont(co, clofun102, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj _3518134_37= co->res;
+Obj _3518155_37= co->res;
 Obj w = R[1];
 Obj label = R[2];
 co->ctx.sp = R;
@@ -2389,146 +2390,146 @@ return;
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = R[3];
-Obj _3516730_37 = R[4];
-Obj _3516731_37 = R[5];
-Obj _3516732_37 = makeNative(co->gc, 1, clofun99, 0, 0);
-Obj _3518112_37 = PRIM_ISCONS(_3516731_37);
-if (True == _3518112_37) {
-Obj _3518113_37 = PRIM_CAR(_3516731_37);
-Obj _3518114_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518113_37);
-if (True == _3518114_37) {
-Obj _3518115_37 = PRIM_CDR(_3516731_37);
-Obj _3518116_37 = PRIM_ISCONS(_3518115_37);
-if (True == _3518116_37) {
-Obj _3518117_37 = PRIM_CDR(_3516731_37);
-Obj _3518118_37 = PRIM_CAR(_3518117_37);
-Obj var = _3518118_37;
-Obj _3518119_37 = PRIM_CDR(_3516731_37);
-Obj _3518120_37 = PRIM_CDR(_3518119_37);
-Obj _3518121_37 = PRIM_ISCONS(_3518120_37);
-if (True == _3518121_37) {
-Obj _3518122_37 = PRIM_CDR(_3516731_37);
-Obj _3518123_37 = PRIM_CDR(_3518122_37);
-Obj _3518124_37 = PRIM_CAR(_3518123_37);
-Obj body = _3518124_37;
-Obj _3518125_37 = PRIM_CDR(_3516731_37);
-Obj _3518126_37 = PRIM_CDR(_3518125_37);
-Obj _3518127_37 = PRIM_CDR(_3518126_37);
-Obj fvs = _3518127_37;
+Obj _3516746_37 = R[1];
+Obj _3516747_37 = R[2];
+Obj _3516748_37 = R[3];
+Obj _3516749_37 = R[4];
+Obj _3516750_37 = R[5];
+Obj _3516751_37 = makeNative(co->gc, 1, clofun100, 0, 0);
+Obj _3518133_37 = PRIM_ISCONS(_3516750_37);
+if (True == _3518133_37) {
+Obj _3518134_37 = PRIM_CAR(_3516750_37);
+Obj _3518135_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518134_37);
+if (True == _3518135_37) {
+Obj _3518136_37 = PRIM_CDR(_3516750_37);
+Obj _3518137_37 = PRIM_ISCONS(_3518136_37);
+if (True == _3518137_37) {
+Obj _3518138_37 = PRIM_CDR(_3516750_37);
+Obj _3518139_37 = PRIM_CAR(_3518138_37);
+Obj var = _3518139_37;
+Obj _3518140_37 = PRIM_CDR(_3516750_37);
+Obj _3518141_37 = PRIM_CDR(_3518140_37);
+Obj _3518142_37 = PRIM_ISCONS(_3518141_37);
+if (True == _3518142_37) {
+Obj _3518143_37 = PRIM_CDR(_3516750_37);
+Obj _3518144_37 = PRIM_CDR(_3518143_37);
+Obj _3518145_37 = PRIM_CAR(_3518144_37);
+Obj body = _3518145_37;
+Obj _3518146_37 = PRIM_CDR(_3516750_37);
+Obj _3518147_37 = PRIM_CDR(_3518146_37);
+Obj _3518148_37 = PRIM_CDR(_3518147_37);
+Obj fvs = _3518148_37;
 R[1] = var;
 R[2] = fvs;
-R[3] = _3516727_37;
-R[4] = _3516728_37;
-R[5] = _3516729_37;
-R[6] = _3516730_37;
+R[3] = _3516746_37;
+R[4] = _3516747_37;
+R[5] = _3516748_37;
+R[6] = _3516749_37;
 R[7] = body;
-saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516730_37, makeCString(co->gc, "Obj "));
+saveCont(co, clofun101, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516749_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516751_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518132_37= co->res;
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = R[3];
-Obj _3516730_37 = R[4];
+Obj _3518153_37= co->res;
+Obj _3516746_37 = R[1];
+Obj _3516747_37 = R[2];
+Obj _3516748_37 = R[3];
+Obj _3516749_37 = R[4];
 Obj body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516727_37, _3516728_37, _3516729_37, _3516730_37, body};
+Obj __args[5] = {_3516746_37, _3516747_37, _3516748_37, _3516749_37, body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518131_37= co->res;
+Obj _3518152_37= co->res;
 Obj fvs = R[1];
-Obj _3516727_37 = R[2];
-Obj _3516728_37 = R[3];
-Obj _3516729_37 = R[4];
-Obj _3516730_37 = R[5];
+Obj _3516746_37 = R[2];
+Obj _3516747_37 = R[3];
+Obj _3516748_37 = R[4];
+Obj _3516749_37 = R[5];
 Obj body = R[6];
-R[1] = _3516727_37;
-R[2] = _3516728_37;
-R[3] = _3516729_37;
-R[4] = _3516730_37;
+R[1] = _3516746_37;
+R[2] = _3516747_37;
+R[3] = _3516748_37;
+R[4] = _3516749_37;
 R[5] = body;
-saveCont(co, clofun100, 1, R);
-Obj __args[5] = {_3516727_37, _3516728_37, _3516729_37, _3516730_37, fvs};
+saveCont(co, clofun101, 1, R);
+Obj __args[5] = {_3516746_37, _3516747_37, _3516748_37, _3516749_37, fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518130_37= co->res;
+Obj _3518151_37= co->res;
 Obj fvs = R[1];
-Obj _3516727_37 = R[2];
-Obj _3516728_37 = R[3];
-Obj _3516729_37 = R[4];
-Obj _3516730_37 = R[5];
+Obj _3516746_37 = R[2];
+Obj _3516747_37 = R[3];
+Obj _3516748_37 = R[4];
+Obj _3516749_37 = R[5];
 Obj body = R[6];
 R[1] = fvs;
-R[2] = _3516727_37;
-R[3] = _3516728_37;
-R[4] = _3516729_37;
-R[5] = _3516730_37;
+R[2] = _3516746_37;
+R[3] = _3516747_37;
+R[4] = _3516748_37;
+R[5] = _3516749_37;
 R[6] = body;
-saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516730_37, makeCString(co->gc, "= co->res;\n"));
+saveCont(co, clofun101, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516749_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518128_37= co->res;
+Obj _3518149_37= co->res;
 Obj var = R[1];
 Obj fvs = R[2];
-Obj _3516727_37 = R[3];
-Obj _3516728_37 = R[4];
-Obj _3516729_37 = R[5];
-Obj _3516730_37 = R[6];
+Obj _3516746_37 = R[3];
+Obj _3516747_37 = R[4];
+Obj _3516748_37 = R[5];
+Obj _3516749_37 = R[6];
 Obj body = R[7];
-Obj _3518129_37 = PRIM_CAR(var);
+Obj _3518150_37 = PRIM_CAR(var);
 R[1] = fvs;
-R[2] = _3516727_37;
-R[3] = _3516728_37;
-R[4] = _3516729_37;
-R[5] = _3516730_37;
+R[2] = _3516746_37;
+R[3] = _3516747_37;
+R[4] = _3516748_37;
+R[5] = _3516749_37;
 R[6] = body;
-saveCont(co, clofun100, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516730_37, _3518129_37);
+saveCont(co, clofun101, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516749_37, _3518150_37);
 return;
 }
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2539,7 +2540,7 @@ return;
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2548,43 +2549,43 @@ Obj self = R[2];
 Obj env = R[3];
 Obj w = R[4];
 Obj l = R[5];
-Obj _3518098_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518098_37;
-Obj _3518109_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun97, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
+Obj _3518119_37 = primGenSym(co);
+Obj generate_45inst_45list_45h = _3518119_37;
+Obj _3518130_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun98, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
 R[1] = l;
-saveCont(co, clofun98, 1, R);
+saveCont(co, clofun99, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45list_45h);
 return;
 }
 case 1:
 {
-Obj _3518110_37= co->res;
+Obj _3518131_37= co->res;
 Obj l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518110_37, l);
+coraCall1(co, _3518131_37, l);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
-Obj _3518099_37 = PRIM_EQ(Nil, x);
-if (True == _3518099_37) {
+Obj _3518120_37 = PRIM_EQ(Nil, x);
+if (True == _3518120_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518100_37 = PRIM_ISCONS(x);
-if (True == _3518100_37) {
-Obj _3518101_37 = PRIM_CAR(x);
-Obj a = _3518101_37;
-Obj _3518102_37 = PRIM_CDR(x);
-Obj b = _3518102_37;
+Obj _3518121_37 = PRIM_ISCONS(x);
+if (True == _3518121_37) {
+Obj _3518122_37 = PRIM_CAR(x);
+Obj a = _3518122_37;
+Obj _3518123_37 = PRIM_CDR(x);
+Obj b = _3518123_37;
 R[1] = b;
-saveCont(co, clofun97, 5, R);
+saveCont(co, clofun98, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
@@ -2597,60 +2598,60 @@ return;
 }
 case 1:
 {
-Obj _3518107_37= co->res;
+Obj _3518128_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518107_37, b);
+coraCall1(co, _3518128_37, b);
 return;
 }
 case 2:
 {
-Obj _3518106_37= co->res;
+Obj _3518127_37= co->res;
 Obj b = R[1];
 R[1] = b;
-saveCont(co, clofun97, 1, R);
+saveCont(co, clofun98, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518108_37= co->res;
+Obj _3518129_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518108_37, b);
+coraCall1(co, _3518129_37, b);
 return;
 }
 case 4:
 {
-Obj _3518104_37= co->res;
+Obj _3518125_37= co->res;
 Obj b = R[1];
-Obj _3518105_37 = primNot(_3518104_37);
-if (True == _3518105_37) {
+Obj _3518126_37 = primNot(_3518125_37);
+if (True == _3518126_37) {
 R[1] = b;
-saveCont(co, clofun97, 2, R);
+saveCont(co, clofun98, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 R[1] = b;
-saveCont(co, clofun97, 3, R);
+saveCont(co, clofun98, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj _3518103_37= co->res;
+Obj _3518124_37= co->res;
 Obj b = R[1];
 R[1] = b;
-saveCont(co, clofun97, 4, R);
+saveCont(co, clofun98, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), b);
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2659,312 +2660,312 @@ Obj self = R[2];
 Obj env1 = R[3];
 Obj w = R[4];
 Obj x1 = R[5];
-Obj _3517811_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517811_37;
-Obj _3518095_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun95, 2, 4, self, generate_45inst_45h, globals, w));
+Obj _3517832_37 = primGenSym(co);
+Obj generate_45inst_45h = _3517832_37;
+Obj _3518116_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun96, 2, 4, self, generate_45inst_45h, globals, w));
 R[1] = x1;
 R[2] = env1;
-saveCont(co, clofun96, 1, R);
+saveCont(co, clofun97, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45h);
 return;
 }
 case 1:
 {
-Obj _3518096_37= co->res;
+Obj _3518117_37= co->res;
 Obj x1 = R[1];
 Obj env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518096_37, x1, env1);
+coraCall2(co, _3518117_37, x1, env1);
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x2 = R[1];
 Obj env = R[2];
-Obj _3517812_37 = primIsSymbol(x2);
-if (True == _3517812_37) {
+Obj _3517833_37 = primIsSymbol(x2);
+if (True == _3517833_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
 return;
 } else {
-Obj _3516713_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518082_37 = PRIM_ISCONS(x2);
-if (True == _3518082_37) {
-Obj _3518083_37 = PRIM_CAR(x2);
-Obj _3518084_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518083_37);
-if (True == _3518084_37) {
-Obj _3518085_37 = PRIM_CDR(x2);
-Obj _3518086_37 = PRIM_ISCONS(_3518085_37);
-if (True == _3518086_37) {
-Obj _3518087_37 = PRIM_CDR(x2);
-Obj _3518088_37 = PRIM_CAR(_3518087_37);
-Obj x = _3518088_37;
-Obj _3518089_37 = PRIM_CDR(x2);
-Obj _3518090_37 = PRIM_CDR(_3518089_37);
-Obj _3518091_37 = PRIM_EQ(Nil, _3518090_37);
-if (True == _3518091_37) {
+Obj _3516732_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
+Obj _3518103_37 = PRIM_ISCONS(x2);
+if (True == _3518103_37) {
+Obj _3518104_37 = PRIM_CAR(x2);
+Obj _3518105_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518104_37);
+if (True == _3518105_37) {
+Obj _3518106_37 = PRIM_CDR(x2);
+Obj _3518107_37 = PRIM_ISCONS(_3518106_37);
+if (True == _3518107_37) {
+Obj _3518108_37 = PRIM_CDR(x2);
+Obj _3518109_37 = PRIM_CAR(_3518108_37);
+Obj x = _3518109_37;
+Obj _3518110_37 = PRIM_CDR(x2);
+Obj _3518111_37 = PRIM_CDR(_3518110_37);
+Obj _3518112_37 = PRIM_EQ(Nil, _3518111_37);
+if (True == _3518112_37) {
 R[1] = x;
-saveCont(co, clofun95, 3, R);
+saveCont(co, clofun96, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516732_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518094_37= co->res;
+Obj _3518115_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518093_37= co->res;
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518093_37);
+Obj _3518114_37= co->res;
+saveCont(co, clofun96, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518114_37);
 return;
 }
 case 3:
 {
-Obj _3518092_37= co->res;
+Obj _3518113_37= co->res;
 Obj x = R[1];
-saveCont(co, clofun95, 2, R);
+saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516714_37 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518070_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518070_37) {
-Obj _3518071_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518072_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518071_37);
-if (True == _3518072_37) {
-Obj _3518073_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518074_37 = PRIM_ISCONS(_3518073_37);
-if (True == _3518074_37) {
-Obj _3518075_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518076_37 = PRIM_CAR(_3518075_37);
-Obj idx = _3518076_37;
-Obj _3518077_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518078_37 = PRIM_CDR(_3518077_37);
-Obj _3518079_37 = PRIM_EQ(Nil, _3518078_37);
-if (True == _3518079_37) {
+Obj _3516733_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj _3518091_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == _3518091_37) {
+Obj _3518092_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj _3518093_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518092_37);
+if (True == _3518093_37) {
+Obj _3518094_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518095_37 = PRIM_ISCONS(_3518094_37);
+if (True == _3518095_37) {
+Obj _3518096_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518097_37 = PRIM_CAR(_3518096_37);
+Obj idx = _3518097_37;
+Obj _3518098_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518099_37 = PRIM_CDR(_3518098_37);
+Obj _3518100_37 = PRIM_EQ(Nil, _3518099_37);
+if (True == _3518100_37) {
 R[1] = idx;
-saveCont(co, clofun94, 2, R);
+saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516733_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518081_37= co->res;
+Obj _3518102_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518080_37= co->res;
+Obj _3518101_37= co->res;
 Obj idx = R[1];
-saveCont(co, clofun94, 1, R);
+saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), idx);
 return;
 }
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516715_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518046_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518046_37) {
-Obj _3518047_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518048_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518047_37);
-if (True == _3518048_37) {
-Obj _3518049_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518050_37 = PRIM_ISCONS(_3518049_37);
-if (True == _3518050_37) {
-Obj _3518051_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518052_37 = PRIM_CAR(_3518051_37);
-Obj x = _3518052_37;
-Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518054_37 = PRIM_CDR(_3518053_37);
-Obj _3518055_37 = PRIM_EQ(Nil, _3518054_37);
-if (True == _3518055_37) {
-Obj _3518056_37 = primIsSymbol(x);
-if (True == _3518056_37) {
+Obj _3516734_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518067_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3518067_37) {
+Obj _3518068_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3518069_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518068_37);
+if (True == _3518069_37) {
+Obj _3518070_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518071_37 = PRIM_ISCONS(_3518070_37);
+if (True == _3518071_37) {
+Obj _3518072_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518073_37 = PRIM_CAR(_3518072_37);
+Obj x = _3518073_37;
+Obj _3518074_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518075_37 = PRIM_CDR(_3518074_37);
+Obj _3518076_37 = PRIM_EQ(Nil, _3518075_37);
+if (True == _3518076_37) {
+Obj _3518077_37 = primIsSymbol(x);
+if (True == _3518077_37) {
 R[1] = x;
-saveCont(co, clofun93, 3, R);
+saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
 R[1] = x;
-saveCont(co, clofun93, 9, R);
+saveCont(co, clofun94, 9, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), x);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516734_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518059_37= co->res;
+Obj _3518080_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518058_37= co->res;
-saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518058_37);
+Obj _3518079_37= co->res;
+saveCont(co, clofun94, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518079_37);
 return;
 }
 case 3:
 {
-Obj _3518057_37= co->res;
+Obj _3518078_37= co->res;
 Obj x = R[1];
-saveCont(co, clofun93, 2, R);
+saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3518062_37= co->res;
+Obj _3518083_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518061_37= co->res;
+Obj _3518082_37= co->res;
 Obj x = R[1];
-saveCont(co, clofun93, 4, R);
+saveCont(co, clofun94, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), x);
 return;
 }
 case 6:
 {
-Obj _3518066_37= co->res;
+Obj _3518087_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518065_37= co->res;
-saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518065_37);
+Obj _3518086_37= co->res;
+saveCont(co, clofun94, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518086_37);
 return;
 }
 case 8:
 {
-Obj _3518064_37= co->res;
+Obj _3518085_37= co->res;
 Obj x = R[1];
-saveCont(co, clofun93, 7, R);
+saveCont(co, clofun94, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), x);
 return;
 }
 case 9:
 {
-Obj _3518060_37= co->res;
+Obj _3518081_37= co->res;
 Obj x = R[1];
-if (True == _3518060_37) {
+if (True == _3518081_37) {
 R[1] = x;
-saveCont(co, clofun93, 5, R);
+saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518063_37 = primIsString(x);
-if (True == _3518063_37) {
+Obj _3518084_37 = primIsString(x);
+if (True == _3518084_37) {
 R[1] = x;
-saveCont(co, clofun93, 8, R);
+saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518067_37 = PRIM_EQ(x, Nil);
-if (True == _3518067_37) {
+Obj _3518088_37 = PRIM_EQ(x, Nil);
+if (True == _3518088_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518068_37 = PRIM_EQ(x, True);
-if (True == _3518068_37) {
+Obj _3518089_37 = PRIM_EQ(x, True);
+if (True == _3518089_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518069_37 = PRIM_EQ(x, False);
-if (True == _3518069_37) {
+Obj _3518090_37 = PRIM_EQ(x, False);
+if (True == _3518090_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -2981,334 +2982,334 @@ return;
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516716_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518011_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518011_37) {
-Obj _3518012_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518013_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518012_37);
-if (True == _3518013_37) {
-Obj _3518014_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518015_37 = PRIM_ISCONS(_3518014_37);
-if (True == _3518015_37) {
-Obj _3518016_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518017_37 = PRIM_CAR(_3518016_37);
-Obj a = _3518017_37;
-Obj _3518018_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518019_37 = PRIM_CDR(_3518018_37);
-Obj _3518020_37 = PRIM_ISCONS(_3518019_37);
-if (True == _3518020_37) {
-Obj _3518021_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518022_37 = PRIM_CDR(_3518021_37);
-Obj _3518023_37 = PRIM_CAR(_3518022_37);
-Obj b = _3518023_37;
-Obj _3518024_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518025_37 = PRIM_CDR(_3518024_37);
-Obj _3518026_37 = PRIM_CDR(_3518025_37);
-Obj _3518027_37 = PRIM_ISCONS(_3518026_37);
-if (True == _3518027_37) {
-Obj _3518028_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518029_37 = PRIM_CDR(_3518028_37);
-Obj _3518030_37 = PRIM_CDR(_3518029_37);
-Obj _3518031_37 = PRIM_CAR(_3518030_37);
-Obj c = _3518031_37;
-Obj _3518032_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518033_37 = PRIM_CDR(_3518032_37);
-Obj _3518034_37 = PRIM_CDR(_3518033_37);
-Obj _3518035_37 = PRIM_CDR(_3518034_37);
-Obj _3518036_37 = PRIM_EQ(Nil, _3518035_37);
+Obj _3516735_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3518032_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518032_37) {
+Obj _3518033_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518034_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518033_37);
+if (True == _3518034_37) {
+Obj _3518035_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518036_37 = PRIM_ISCONS(_3518035_37);
 if (True == _3518036_37) {
+Obj _3518037_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518038_37 = PRIM_CAR(_3518037_37);
+Obj a = _3518038_37;
+Obj _3518039_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518040_37 = PRIM_CDR(_3518039_37);
+Obj _3518041_37 = PRIM_ISCONS(_3518040_37);
+if (True == _3518041_37) {
+Obj _3518042_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518043_37 = PRIM_CDR(_3518042_37);
+Obj _3518044_37 = PRIM_CAR(_3518043_37);
+Obj b = _3518044_37;
+Obj _3518045_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518046_37 = PRIM_CDR(_3518045_37);
+Obj _3518047_37 = PRIM_CDR(_3518046_37);
+Obj _3518048_37 = PRIM_ISCONS(_3518047_37);
+if (True == _3518048_37) {
+Obj _3518049_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518050_37 = PRIM_CDR(_3518049_37);
+Obj _3518051_37 = PRIM_CDR(_3518050_37);
+Obj _3518052_37 = PRIM_CAR(_3518051_37);
+Obj c = _3518052_37;
+Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518054_37 = PRIM_CDR(_3518053_37);
+Obj _3518055_37 = PRIM_CDR(_3518054_37);
+Obj _3518056_37 = PRIM_CDR(_3518055_37);
+Obj _3518057_37 = PRIM_EQ(Nil, _3518056_37);
+if (True == _3518057_37) {
 R[1] = b;
 R[2] = a;
 R[3] = c;
-saveCont(co, clofun92, 8, R);
+saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), a, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516735_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518044_37= co->res;
+Obj _3518065_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
-Obj _3518045_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj _3518066_37 = makeCons(co->gc, a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518044_37, c, _3518045_37);
+coraCall2(co, _3518065_37, c, _3518066_37);
 return;
 }
 case 2:
 {
-Obj _3518043_37= co->res;
+Obj _3518064_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
 R[2] = c;
-saveCont(co, clofun92, 1, R);
+saveCont(co, clofun93, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518042_37= co->res;
+Obj _3518063_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
 R[2] = c;
-saveCont(co, clofun92, 2, R);
+saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3518041_37= co->res;
+Obj _3518062_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = a;
 R[2] = c;
-saveCont(co, clofun92, 3, R);
-coraCall2(co, _3518041_37, b, closureRef(R[0], 5));
+saveCont(co, clofun93, 3, R);
+coraCall2(co, _3518062_37, b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518040_37= co->res;
+Obj _3518061_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = a;
 R[3] = c;
-saveCont(co, clofun92, 4, R);
+saveCont(co, clofun93, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518039_37= co->res;
+Obj _3518060_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = a;
 R[3] = c;
-saveCont(co, clofun92, 5, R);
+saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj _3518038_37= co->res;
+Obj _3518059_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = a;
 R[3] = c;
-saveCont(co, clofun92, 6, R);
+saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), a);
 return;
 }
 case 8:
 {
-Obj _3518037_37= co->res;
+Obj _3518058_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = a;
 R[3] = c;
-saveCont(co, clofun92, 7, R);
+saveCont(co, clofun93, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516717_37 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517981_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517981_37) {
-Obj _3517982_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517983_37 = PRIM_ISCONS(_3517982_37);
-if (True == _3517983_37) {
-Obj _3517984_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517985_37 = PRIM_CAR(_3517984_37);
-Obj _3517986_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517985_37);
-if (True == _3517986_37) {
-Obj _3517987_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517988_37 = PRIM_CDR(_3517987_37);
-Obj _3517989_37 = PRIM_ISCONS(_3517988_37);
-if (True == _3517989_37) {
-Obj _3517990_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517991_37 = PRIM_CDR(_3517990_37);
-Obj _3517992_37 = PRIM_CAR(_3517991_37);
-Obj f = _3517992_37;
-Obj _3517993_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517994_37 = PRIM_CDR(_3517993_37);
-Obj _3517995_37 = PRIM_CDR(_3517994_37);
-Obj _3517996_37 = PRIM_EQ(Nil, _3517995_37);
-if (True == _3517996_37) {
-Obj _3517997_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3517997_37;
+Obj _3516736_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518002_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518002_37) {
+Obj _3518003_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518004_37 = PRIM_ISCONS(_3518003_37);
+if (True == _3518004_37) {
+Obj _3518005_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518006_37 = PRIM_CAR(_3518005_37);
+Obj _3518007_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518006_37);
+if (True == _3518007_37) {
+Obj _3518008_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518009_37 = PRIM_CDR(_3518008_37);
+Obj _3518010_37 = PRIM_ISCONS(_3518009_37);
+if (True == _3518010_37) {
+Obj _3518011_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518012_37 = PRIM_CDR(_3518011_37);
+Obj _3518013_37 = PRIM_CAR(_3518012_37);
+Obj f = _3518013_37;
+Obj _3518014_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518015_37 = PRIM_CDR(_3518014_37);
+Obj _3518016_37 = PRIM_CDR(_3518015_37);
+Obj _3518017_37 = PRIM_EQ(Nil, _3518016_37);
+if (True == _3518017_37) {
+Obj _3518018_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj args = _3518018_37;
 R[1] = f;
 R[2] = args;
-saveCont(co, clofun91, 10, R);
+saveCont(co, clofun92, 10, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516736_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518002_37= co->res;
+Obj _3518023_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518001_37= co->res;
+Obj _3518022_37= co->res;
 Obj args = R[1];
-saveCont(co, clofun91, 1, R);
+saveCont(co, clofun92, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518005_37= co->res;
+Obj _3518026_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518004_37= co->res;
+Obj _3518025_37= co->res;
 Obj args = R[1];
-saveCont(co, clofun91, 3, R);
+saveCont(co, clofun92, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj _3518008_37= co->res;
+Obj _3518029_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518007_37= co->res;
+Obj _3518028_37= co->res;
 Obj args = R[1];
-saveCont(co, clofun91, 5, R);
+saveCont(co, clofun92, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518010_37= co->res;
+Obj _3518031_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518009_37= co->res;
+Obj _3518030_37= co->res;
 Obj args = R[1];
-saveCont(co, clofun91, 7, R);
+saveCont(co, clofun92, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3517999_37= co->res;
+Obj _3518020_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3518000_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
-if (True == _3518000_37) {
+Obj _3518021_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
+if (True == _3518021_37) {
 R[1] = args;
-saveCont(co, clofun91, 2, R);
+saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518003_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
-if (True == _3518003_37) {
+Obj _3518024_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
+if (True == _3518024_37) {
 R[1] = args;
-saveCont(co, clofun91, 4, R);
+saveCont(co, clofun92, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518006_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
-if (True == _3518006_37) {
+Obj _3518027_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
+if (True == _3518027_37) {
 R[1] = args;
-saveCont(co, clofun91, 6, R);
+saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
 R[1] = args;
-saveCont(co, clofun91, 8, R);
+saveCont(co, clofun92, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3317,284 +3318,284 @@ return;
 }
 case 10:
 {
-Obj _3517998_37= co->res;
+Obj _3518019_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
 R[1] = f;
 R[2] = args;
-saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3517998_37);
+saveCont(co, clofun92, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518019_37);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516718_37 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517946_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517946_37) {
-Obj _3517947_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517948_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517947_37);
-if (True == _3517948_37) {
-Obj _3517949_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517950_37 = PRIM_ISCONS(_3517949_37);
-if (True == _3517950_37) {
-Obj _3517951_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517952_37 = PRIM_CAR(_3517951_37);
-Obj a = _3517952_37;
-Obj _3517953_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517954_37 = PRIM_CDR(_3517953_37);
-Obj _3517955_37 = PRIM_ISCONS(_3517954_37);
-if (True == _3517955_37) {
-Obj _3517956_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517957_37 = PRIM_CDR(_3517956_37);
-Obj _3517958_37 = PRIM_CAR(_3517957_37);
-Obj b = _3517958_37;
-Obj _3517959_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517960_37 = PRIM_CDR(_3517959_37);
-Obj _3517961_37 = PRIM_CDR(_3517960_37);
-Obj _3517962_37 = PRIM_ISCONS(_3517961_37);
-if (True == _3517962_37) {
-Obj _3517963_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517964_37 = PRIM_CDR(_3517963_37);
-Obj _3517965_37 = PRIM_CDR(_3517964_37);
-Obj _3517966_37 = PRIM_CAR(_3517965_37);
-Obj c = _3517966_37;
-Obj _3517967_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517968_37 = PRIM_CDR(_3517967_37);
-Obj _3517969_37 = PRIM_CDR(_3517968_37);
-Obj _3517970_37 = PRIM_CDR(_3517969_37);
-Obj _3517971_37 = PRIM_EQ(Nil, _3517970_37);
+Obj _3516737_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517967_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517967_37) {
+Obj _3517968_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517969_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517968_37);
+if (True == _3517969_37) {
+Obj _3517970_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517971_37 = PRIM_ISCONS(_3517970_37);
 if (True == _3517971_37) {
+Obj _3517972_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517973_37 = PRIM_CAR(_3517972_37);
+Obj a = _3517973_37;
+Obj _3517974_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517975_37 = PRIM_CDR(_3517974_37);
+Obj _3517976_37 = PRIM_ISCONS(_3517975_37);
+if (True == _3517976_37) {
+Obj _3517977_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517978_37 = PRIM_CDR(_3517977_37);
+Obj _3517979_37 = PRIM_CAR(_3517978_37);
+Obj b = _3517979_37;
+Obj _3517980_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517981_37 = PRIM_CDR(_3517980_37);
+Obj _3517982_37 = PRIM_CDR(_3517981_37);
+Obj _3517983_37 = PRIM_ISCONS(_3517982_37);
+if (True == _3517983_37) {
+Obj _3517984_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517985_37 = PRIM_CDR(_3517984_37);
+Obj _3517986_37 = PRIM_CDR(_3517985_37);
+Obj _3517987_37 = PRIM_CAR(_3517986_37);
+Obj c = _3517987_37;
+Obj _3517988_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517989_37 = PRIM_CDR(_3517988_37);
+Obj _3517990_37 = PRIM_CDR(_3517989_37);
+Obj _3517991_37 = PRIM_CDR(_3517990_37);
+Obj _3517992_37 = PRIM_EQ(Nil, _3517991_37);
+if (True == _3517992_37) {
 R[1] = a;
 R[2] = b;
 R[3] = c;
-saveCont(co, clofun90, 9, R);
+saveCont(co, clofun91, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516737_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517980_37= co->res;
+Obj _3518001_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3517979_37= co->res;
+Obj _3518000_37= co->res;
 Obj c = R[1];
-saveCont(co, clofun90, 1, R);
-coraCall2(co, _3517979_37, c, closureRef(R[0], 4));
+saveCont(co, clofun91, 1, R);
+coraCall2(co, _3518000_37, c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517978_37= co->res;
+Obj _3517999_37= co->res;
 Obj c = R[1];
 R[1] = c;
-saveCont(co, clofun90, 2, R);
+saveCont(co, clofun91, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3517977_37= co->res;
+Obj _3517998_37= co->res;
 Obj c = R[1];
 R[1] = c;
-saveCont(co, clofun90, 3, R);
+saveCont(co, clofun91, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj _3517976_37= co->res;
+Obj _3517997_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = c;
-saveCont(co, clofun90, 4, R);
-coraCall2(co, _3517976_37, b, closureRef(R[0], 4));
+saveCont(co, clofun91, 4, R);
+coraCall2(co, _3517997_37, b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3517975_37= co->res;
+Obj _3517996_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
 R[2] = c;
-saveCont(co, clofun90, 5, R);
+saveCont(co, clofun91, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj _3517974_37= co->res;
+Obj _3517995_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
 R[2] = c;
-saveCont(co, clofun90, 6, R);
+saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj _3517973_37= co->res;
+Obj _3517994_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = c;
-saveCont(co, clofun90, 7, R);
-coraCall2(co, _3517973_37, a, closureRef(R[0], 4));
+saveCont(co, clofun91, 7, R);
+coraCall2(co, _3517994_37, a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3517972_37= co->res;
+Obj _3517993_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
 R[1] = a;
 R[2] = b;
 R[3] = c;
-saveCont(co, clofun90, 8, R);
+saveCont(co, clofun91, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516719_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517908_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517908_37) {
-Obj _3517909_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517910_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517909_37);
-if (True == _3517910_37) {
-Obj _3517911_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517912_37 = PRIM_ISCONS(_3517911_37);
-if (True == _3517912_37) {
-Obj _3517913_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517914_37 = PRIM_CAR(_3517913_37);
-Obj label = _3517914_37;
-Obj _3517915_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517916_37 = PRIM_CDR(_3517915_37);
-Obj _3517917_37 = PRIM_ISCONS(_3517916_37);
-if (True == _3517917_37) {
-Obj _3517918_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517919_37 = PRIM_CDR(_3517918_37);
-Obj _3517920_37 = PRIM_CAR(_3517919_37);
-Obj nargs = _3517920_37;
-Obj _3517921_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517922_37 = PRIM_CDR(_3517921_37);
-Obj _3517923_37 = PRIM_CDR(_3517922_37);
-Obj _3517924_37 = PRIM_ISCONS(_3517923_37);
-if (True == _3517924_37) {
-Obj _3517925_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517926_37 = PRIM_CDR(_3517925_37);
-Obj _3517927_37 = PRIM_CDR(_3517926_37);
-Obj _3517928_37 = PRIM_CAR(_3517927_37);
-Obj nframe = _3517928_37;
-Obj _3517929_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517930_37 = PRIM_CDR(_3517929_37);
-Obj _3517931_37 = PRIM_CDR(_3517930_37);
-Obj _3517932_37 = PRIM_CDR(_3517931_37);
-Obj frees = _3517932_37;
+Obj _3516738_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj _3517929_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517929_37) {
+Obj _3517930_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517931_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517930_37);
+if (True == _3517931_37) {
+Obj _3517932_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517933_37 = PRIM_ISCONS(_3517932_37);
+if (True == _3517933_37) {
+Obj _3517934_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517935_37 = PRIM_CAR(_3517934_37);
+Obj label = _3517935_37;
+Obj _3517936_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517937_37 = PRIM_CDR(_3517936_37);
+Obj _3517938_37 = PRIM_ISCONS(_3517937_37);
+if (True == _3517938_37) {
+Obj _3517939_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517940_37 = PRIM_CDR(_3517939_37);
+Obj _3517941_37 = PRIM_CAR(_3517940_37);
+Obj nargs = _3517941_37;
+Obj _3517942_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517943_37 = PRIM_CDR(_3517942_37);
+Obj _3517944_37 = PRIM_CDR(_3517943_37);
+Obj _3517945_37 = PRIM_ISCONS(_3517944_37);
+if (True == _3517945_37) {
+Obj _3517946_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517947_37 = PRIM_CDR(_3517946_37);
+Obj _3517948_37 = PRIM_CDR(_3517947_37);
+Obj _3517949_37 = PRIM_CAR(_3517948_37);
+Obj nframe = _3517949_37;
+Obj _3517950_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517951_37 = PRIM_CDR(_3517950_37);
+Obj _3517952_37 = PRIM_CDR(_3517951_37);
+Obj _3517953_37 = PRIM_CDR(_3517952_37);
+Obj frees = _3517953_37;
 R[1] = nframe;
 R[2] = label;
 R[3] = nargs;
 R[4] = frees;
-saveCont(co, clofun89, 12, R);
+saveCont(co, clofun90, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516738_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517945_37= co->res;
+Obj _3517966_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3517944_37= co->res;
+Obj _3517965_37= co->res;
 Obj frees = R[1];
-saveCont(co, clofun89, 1, R);
+saveCont(co, clofun90, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3517942_37= co->res;
+Obj _3517963_37= co->res;
 Obj frees = R[1];
-Obj _3517943_37 = primNot(_3517942_37);
-if (True == _3517943_37) {
+Obj _3517964_37 = primNot(_3517963_37);
+if (True == _3517964_37) {
 R[1] = frees;
-saveCont(co, clofun89, 2, R);
+saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3606,89 +3607,89 @@ return;
 }
 case 4:
 {
-Obj _3517941_37= co->res;
+Obj _3517962_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
-saveCont(co, clofun89, 3, R);
+saveCont(co, clofun90, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), frees);
 return;
 }
 case 5:
 {
-Obj _3517940_37= co->res;
+Obj _3517961_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
-saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517940_37);
+saveCont(co, clofun90, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517961_37);
 return;
 }
 case 6:
 {
-Obj _3517939_37= co->res;
+Obj _3517960_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
-saveCont(co, clofun89, 5, R);
+saveCont(co, clofun90, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), frees);
 return;
 }
 case 7:
 {
-Obj _3517938_37= co->res;
+Obj _3517959_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
-saveCont(co, clofun89, 6, R);
+saveCont(co, clofun90, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj _3517937_37= co->res;
+Obj _3517958_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = frees;
-saveCont(co, clofun89, 7, R);
+saveCont(co, clofun90, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
 return;
 }
 case 9:
 {
-Obj _3517936_37= co->res;
+Obj _3517957_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = nargs;
 R[2] = frees;
-saveCont(co, clofun89, 8, R);
+saveCont(co, clofun90, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj _3517935_37= co->res;
+Obj _3517956_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
 R[1] = nargs;
 R[2] = frees;
-saveCont(co, clofun89, 9, R);
+saveCont(co, clofun90, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), label);
 return;
 }
 case 11:
 {
-Obj _3517934_37= co->res;
+Obj _3517955_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
 R[1] = label;
 R[2] = nargs;
 R[3] = frees;
-saveCont(co, clofun89, 10, R);
+saveCont(co, clofun90, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj _3517933_37= co->res;
+Obj _3517954_37= co->res;
 Obj nframe = R[1];
 Obj label = R[2];
 Obj nargs = R[3];
@@ -3696,410 +3697,410 @@ Obj frees = R[4];
 R[1] = label;
 R[2] = nargs;
 R[3] = frees;
-saveCont(co, clofun89, 11, R);
+saveCont(co, clofun90, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nframe);
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516720_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517887_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517887_37) {
-Obj _3517888_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517889_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517888_37);
-if (True == _3517889_37) {
-Obj _3517890_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517891_37 = PRIM_ISCONS(_3517890_37);
-if (True == _3517891_37) {
-Obj _3517892_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517893_37 = PRIM_CAR(_3517892_37);
-Obj a = _3517893_37;
-Obj _3517894_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517895_37 = PRIM_CDR(_3517894_37);
-Obj _3517896_37 = PRIM_ISCONS(_3517895_37);
-if (True == _3517896_37) {
-Obj _3517897_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517898_37 = PRIM_CDR(_3517897_37);
-Obj _3517899_37 = PRIM_CAR(_3517898_37);
-Obj b = _3517899_37;
-Obj _3517900_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517901_37 = PRIM_CDR(_3517900_37);
-Obj _3517902_37 = PRIM_CDR(_3517901_37);
-Obj _3517903_37 = PRIM_EQ(Nil, _3517902_37);
-if (True == _3517903_37) {
+Obj _3516739_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3517908_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517908_37) {
+Obj _3517909_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517910_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517909_37);
+if (True == _3517910_37) {
+Obj _3517911_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517912_37 = PRIM_ISCONS(_3517911_37);
+if (True == _3517912_37) {
+Obj _3517913_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517914_37 = PRIM_CAR(_3517913_37);
+Obj a = _3517914_37;
+Obj _3517915_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517916_37 = PRIM_CDR(_3517915_37);
+Obj _3517917_37 = PRIM_ISCONS(_3517916_37);
+if (True == _3517917_37) {
+Obj _3517918_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517919_37 = PRIM_CDR(_3517918_37);
+Obj _3517920_37 = PRIM_CAR(_3517919_37);
+Obj b = _3517920_37;
+Obj _3517921_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517922_37 = PRIM_CDR(_3517921_37);
+Obj _3517923_37 = PRIM_CDR(_3517922_37);
+Obj _3517924_37 = PRIM_EQ(Nil, _3517923_37);
+if (True == _3517924_37) {
 R[1] = a;
 R[2] = b;
-saveCont(co, clofun88, 4, R);
+saveCont(co, clofun89, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516739_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517907_37= co->res;
+Obj _3517928_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517907_37, b, closureRef(R[0], 5));
+coraCall2(co, _3517928_37, b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517906_37= co->res;
+Obj _3517927_37= co->res;
 Obj b = R[1];
 R[1] = b;
-saveCont(co, clofun88, 1, R);
+saveCont(co, clofun89, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517905_37= co->res;
+Obj _3517926_37= co->res;
 Obj b = R[1];
 R[1] = b;
-saveCont(co, clofun88, 2, R);
+saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3517904_37= co->res;
+Obj _3517925_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 R[1] = b;
-saveCont(co, clofun88, 3, R);
-coraCall2(co, _3517904_37, a, closureRef(R[0], 5));
+saveCont(co, clofun89, 3, R);
+coraCall2(co, _3517925_37, a, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516721_37 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517873_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517873_37) {
-Obj _3517874_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517875_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517874_37);
-if (True == _3517875_37) {
-Obj _3517876_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517877_37 = PRIM_ISCONS(_3517876_37);
-if (True == _3517877_37) {
-Obj _3517878_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517879_37 = PRIM_CAR(_3517878_37);
-Obj x = _3517879_37;
-Obj _3517880_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517881_37 = PRIM_CDR(_3517880_37);
-Obj _3517882_37 = PRIM_EQ(Nil, _3517881_37);
-if (True == _3517882_37) {
+Obj _3516740_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517894_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517894_37) {
+Obj _3517895_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517896_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517895_37);
+if (True == _3517896_37) {
+Obj _3517897_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517898_37 = PRIM_ISCONS(_3517897_37);
+if (True == _3517898_37) {
+Obj _3517899_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517900_37 = PRIM_CAR(_3517899_37);
+Obj x = _3517900_37;
+Obj _3517901_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517902_37 = PRIM_CDR(_3517901_37);
+Obj _3517903_37 = PRIM_EQ(Nil, _3517902_37);
+if (True == _3517903_37) {
 R[1] = x;
-saveCont(co, clofun87, 4, R);
+saveCont(co, clofun88, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516740_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517886_37= co->res;
+Obj _3517907_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517885_37= co->res;
-saveCont(co, clofun87, 1, R);
+Obj _3517906_37= co->res;
+saveCont(co, clofun88, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517884_37= co->res;
+Obj _3517905_37= co->res;
 Obj x = R[1];
-saveCont(co, clofun87, 2, R);
-coraCall2(co, _3517884_37, x, closureRef(R[0], 4));
+saveCont(co, clofun88, 2, R);
+coraCall2(co, _3517905_37, x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517883_37= co->res;
+Obj _3517904_37= co->res;
 Obj x = R[1];
 R[1] = x;
-saveCont(co, clofun87, 3, R);
+saveCont(co, clofun88, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516722_37 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517860_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517860_37) {
-Obj _3517861_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517862_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517861_37);
-if (True == _3517862_37) {
-Obj _3517863_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517864_37 = PRIM_ISCONS(_3517863_37);
-if (True == _3517864_37) {
-Obj _3517865_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517866_37 = PRIM_CAR(_3517865_37);
-Obj exp = _3517866_37;
-Obj _3517867_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517868_37 = PRIM_CDR(_3517867_37);
-Obj _3517869_37 = PRIM_EQ(Nil, _3517868_37);
-if (True == _3517869_37) {
+Obj _3516741_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517881_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517881_37) {
+Obj _3517882_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517883_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517882_37);
+if (True == _3517883_37) {
+Obj _3517884_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517885_37 = PRIM_ISCONS(_3517884_37);
+if (True == _3517885_37) {
+Obj _3517886_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517887_37 = PRIM_CAR(_3517886_37);
+Obj exp = _3517887_37;
+Obj _3517888_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517889_37 = PRIM_CDR(_3517888_37);
+Obj _3517890_37 = PRIM_EQ(Nil, _3517889_37);
+if (True == _3517890_37) {
 R[1] = exp;
-saveCont(co, clofun86, 3, R);
+saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516741_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517872_37= co->res;
+Obj _3517893_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517871_37= co->res;
+Obj _3517892_37= co->res;
 Obj exp = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517871_37, exp, closureRef(R[0], 4));
+saveCont(co, clofun87, 1, R);
+coraCall2(co, _3517892_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517870_37= co->res;
+Obj _3517891_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun86, 2, R);
+saveCont(co, clofun87, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516723_37 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517836_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517836_37) {
-Obj _3517837_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517838_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517837_37);
-if (True == _3517838_37) {
-Obj _3517839_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517840_37 = PRIM_ISCONS(_3517839_37);
-if (True == _3517840_37) {
-Obj _3517841_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517842_37 = PRIM_CAR(_3517841_37);
-Obj exp = _3517842_37;
-Obj _3517843_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517844_37 = PRIM_CDR(_3517843_37);
-Obj _3517845_37 = PRIM_ISCONS(_3517844_37);
-if (True == _3517845_37) {
-Obj _3517846_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517847_37 = PRIM_CDR(_3517846_37);
-Obj _3517848_37 = PRIM_CAR(_3517847_37);
-Obj label = _3517848_37;
-Obj _3517849_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517850_37 = PRIM_CDR(_3517849_37);
-Obj _3517851_37 = PRIM_CDR(_3517850_37);
-Obj fvs = _3517851_37;
+Obj _3516742_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517857_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517857_37) {
+Obj _3517858_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517859_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517858_37);
+if (True == _3517859_37) {
+Obj _3517860_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517861_37 = PRIM_ISCONS(_3517860_37);
+if (True == _3517861_37) {
+Obj _3517862_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517863_37 = PRIM_CAR(_3517862_37);
+Obj exp = _3517863_37;
+Obj _3517864_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517865_37 = PRIM_CDR(_3517864_37);
+Obj _3517866_37 = PRIM_ISCONS(_3517865_37);
+if (True == _3517866_37) {
+Obj _3517867_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517868_37 = PRIM_CDR(_3517867_37);
+Obj _3517869_37 = PRIM_CAR(_3517868_37);
+Obj label = _3517869_37;
+Obj _3517870_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517871_37 = PRIM_CDR(_3517870_37);
+Obj _3517872_37 = PRIM_CDR(_3517871_37);
+Obj fvs = _3517872_37;
 R[1] = label;
 R[2] = exp;
-saveCont(co, clofun85, 8, R);
+saveCont(co, clofun86, 8, R);
 Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516742_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517859_37= co->res;
+Obj _3517880_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517858_37= co->res;
+Obj _3517879_37= co->res;
 Obj exp = R[1];
-saveCont(co, clofun85, 1, R);
-coraCall2(co, _3517858_37, exp, closureRef(R[0], 4));
+saveCont(co, clofun86, 1, R);
+coraCall2(co, _3517879_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517857_37= co->res;
+Obj _3517878_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun85, 2, R);
+saveCont(co, clofun86, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3517856_37= co->res;
+Obj _3517877_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun85, 3, R);
+saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj _3517855_37= co->res;
+Obj _3517876_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = exp;
-saveCont(co, clofun85, 4, R);
+saveCont(co, clofun86, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), label);
 return;
 }
 case 6:
 {
-Obj _3517854_37= co->res;
+Obj _3517875_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
 R[2] = exp;
-saveCont(co, clofun85, 5, R);
+saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj _3517853_37= co->res;
+Obj _3517874_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
 R[2] = exp;
-saveCont(co, clofun85, 6, R);
+saveCont(co, clofun86, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj _3517852_37= co->res;
+Obj _3517873_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
 R[2] = exp;
-saveCont(co, clofun85, 7, R);
+saveCont(co, clofun86, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517813_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517813_37) {
-Obj _3517814_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517814_37;
-Obj _3517815_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517815_37;
+Obj _3517834_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517834_37) {
+Obj _3517835_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517835_37;
+Obj _3517836_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517836_37;
 R[1] = f;
 R[2] = args;
-saveCont(co, clofun84, 18, R);
+saveCont(co, clofun85, 18, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
 return;
 } else {
@@ -4110,135 +4111,135 @@ return;
 }
 case 1:
 {
-Obj _3517827_37= co->res;
+Obj _3517848_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517826_37= co->res;
+Obj _3517847_37= co->res;
 Obj nargs = R[1];
-saveCont(co, clofun84, 1, R);
+saveCont(co, clofun85, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
 return;
 }
 case 3:
 {
-Obj _3517825_37= co->res;
+Obj _3517846_37= co->res;
 Obj nargs = R[1];
 R[1] = nargs;
-saveCont(co, clofun84, 2, R);
+saveCont(co, clofun85, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3517824_37= co->res;
+Obj _3517845_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = nargs;
-saveCont(co, clofun84, 3, R);
-coraCall2(co, _3517824_37, f, closureRef(R[0], 4));
+saveCont(co, clofun85, 3, R);
+coraCall2(co, _3517845_37, f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517823_37= co->res;
+Obj _3517844_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
 R[2] = nargs;
-saveCont(co, clofun84, 4, R);
+saveCont(co, clofun85, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj _3517822_37= co->res;
+Obj _3517843_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
 R[2] = nargs;
-saveCont(co, clofun84, 5, R);
+saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj _3517821_37= co->res;
+Obj _3517842_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
 R[2] = nargs;
-saveCont(co, clofun84, 6, R);
+saveCont(co, clofun85, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj _3517820_37= co->res;
+Obj _3517841_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
 R[1] = f;
 R[2] = nargs;
-saveCont(co, clofun84, 7, R);
+saveCont(co, clofun85, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3517819_37= co->res;
+Obj _3517840_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
 R[1] = args;
 R[2] = f;
 R[3] = nargs;
-saveCont(co, clofun84, 8, R);
+saveCont(co, clofun85, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj _3517818_37= co->res;
+Obj _3517839_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
 R[1] = args;
 R[2] = f;
 R[3] = nargs;
-saveCont(co, clofun84, 9, R);
+saveCont(co, clofun85, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
 return;
 }
 case 11:
 {
-Obj _3517835_37= co->res;
+Obj _3517856_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517834_37= co->res;
+Obj _3517855_37= co->res;
 Obj args = R[1];
-saveCont(co, clofun84, 11, R);
+saveCont(co, clofun85, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj _3517832_37= co->res;
+Obj _3517853_37= co->res;
 Obj nargs = R[1];
 Obj args = R[2];
-Obj _3517833_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517833_37) {
+Obj _3517854_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
+if (True == _3517854_37) {
 R[1] = args;
-saveCont(co, clofun84, 12, R);
+saveCont(co, clofun85, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4250,74 +4251,74 @@ return;
 }
 case 14:
 {
-Obj _3517831_37= co->res;
+Obj _3517852_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
 R[1] = nargs;
 R[2] = args;
-saveCont(co, clofun84, 13, R);
-coraCall2(co, _3517831_37, f, closureRef(R[0], 4));
+saveCont(co, clofun85, 13, R);
+coraCall2(co, _3517852_37, f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517830_37= co->res;
+Obj _3517851_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
 R[1] = f;
 R[2] = nargs;
 R[3] = args;
-saveCont(co, clofun84, 14, R);
+saveCont(co, clofun85, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj _3517829_37= co->res;
+Obj _3517850_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
 R[1] = f;
 R[2] = nargs;
 R[3] = args;
-saveCont(co, clofun84, 15, R);
+saveCont(co, clofun85, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj _3517828_37= co->res;
+Obj _3517849_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
 R[1] = f;
 R[2] = nargs;
 R[3] = args;
-saveCont(co, clofun84, 16, R);
+saveCont(co, clofun85, 16, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
 return;
 }
 case 18:
 {
-Obj _3517816_37= co->res;
+Obj _3517837_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj nargs = _3517816_37;
-Obj _3517817_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517817_37) {
+Obj nargs = _3517837_37;
+Obj _3517838_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
+if (True == _3517838_37) {
 R[1] = args;
 R[2] = f;
 R[3] = nargs;
-saveCont(co, clofun84, 10, R);
+saveCont(co, clofun85, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
 R[1] = f;
 R[2] = nargs;
 R[3] = args;
-saveCont(co, clofun84, 17, R);
+saveCont(co, clofun85, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4325,7 +4326,7 @@ return;
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4335,13 +4336,13 @@ Obj env = R[3];
 Obj w = R[4];
 Obj ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun83, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
 return;
 }
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4349,52 +4350,52 @@ Obj acc = R[1];
 Obj v = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun82, 5, R);
+saveCont(co, clofun83, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj _3517808_37= co->res;
+Obj _3517829_37= co->res;
 Obj acc = R[1];
-Obj _3517809_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517809_37);
+Obj _3517830_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517830_37);
 return;
 }
 case 2:
 {
-Obj _3517807_37= co->res;
+Obj _3517828_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 1, R);
+saveCont(co, clofun83, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj _3517806_37= co->res;
+Obj _3517827_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 2, R);
+saveCont(co, clofun83, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 case 4:
 {
-Obj _3517805_37= co->res;
+Obj _3517826_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 3, R);
+saveCont(co, clofun83, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj _3517804_37= co->res;
+Obj _3517825_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun82, 4, R);
+saveCont(co, clofun83, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
@@ -4402,7 +4403,7 @@ return;
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4412,13 +4413,13 @@ Obj env = R[3];
 Obj w = R[4];
 Obj ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun80, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun81, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4426,64 +4427,64 @@ Obj acc = R[1];
 Obj v = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 5, R);
+saveCont(co, clofun81, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj _3517801_37= co->res;
+Obj _3517822_37= co->res;
 Obj acc = R[1];
-Obj _3517802_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517802_37);
+Obj _3517823_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517823_37);
 return;
 }
 case 2:
 {
-Obj _3517800_37= co->res;
+Obj _3517821_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun80, 1, R);
+saveCont(co, clofun81, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3517799_37= co->res;
+Obj _3517820_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun80, 2, R);
+saveCont(co, clofun81, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3517798_37= co->res;
+Obj _3517819_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 3, R);
+saveCont(co, clofun81, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj _3517797_37= co->res;
+Obj _3517818_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 4, R);
+saveCont(co, clofun81, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4496,7 +4497,7 @@ return;
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4506,30 +4507,30 @@ Obj globals = R[3];
 R[1] = idx;
 R[2] = globals;
 R[3] = sym;
-saveCont(co, clofun78, 1, R);
+saveCont(co, clofun79, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), globals);
 return;
 }
 case 1:
 {
-Obj _3517790_37= co->res;
+Obj _3517811_37= co->res;
 Obj idx = R[1];
 Obj globals = R[2];
 Obj sym = R[3];
-if (True == _3517790_37) {
+if (True == _3517811_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517791_37 = PRIM_CAR(globals);
-Obj _3517792_37 = PRIM_EQ(sym, _3517791_37);
-if (True == _3517792_37) {
+Obj _3517812_37 = PRIM_CAR(globals);
+Obj _3517813_37 = PRIM_EQ(sym, _3517812_37);
+if (True == _3517813_37) {
 coraReturn(co, idx);
 return;
 } else {
-Obj _3517793_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517794_37 = PRIM_CDR(globals);
+Obj _3517814_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3517815_37 = PRIM_CDR(globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517793_37, sym, _3517794_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517814_37, sym, _3517815_37);
 return;
 }
 }
@@ -4537,7 +4538,7 @@ return;
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4545,72 +4546,72 @@ Obj sym = R[1];
 Obj globals = R[2];
 R[1] = sym;
 R[2] = globals;
-saveCont(co, clofun77, 2, R);
+saveCont(co, clofun78, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
 return;
 }
 case 1:
 {
-Obj _3517786_37= co->res;
+Obj _3517807_37= co->res;
 Obj sym = R[1];
 Obj val = R[2];
 Obj globals = R[3];
-if (True == _3517786_37) {
+if (True == _3517807_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517787_37 = makeCons(co->gc, sym, val);
-Obj _3517788_37 = primSet(co, globals, _3517787_37);
-coraReturn(co, _3517788_37);
+Obj _3517808_37 = makeCons(co->gc, sym, val);
+Obj _3517809_37 = primSet(co, globals, _3517808_37);
+coraReturn(co, _3517809_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517785_37= co->res;
+Obj _3517806_37= co->res;
 Obj sym = R[1];
 Obj globals = R[2];
-Obj val = _3517785_37;
+Obj val = _3517806_37;
 R[1] = sym;
 R[2] = val;
 R[3] = globals;
-saveCont(co, clofun77, 1, R);
+saveCont(co, clofun78, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), sym, val);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
 Obj k = R[2];
-Obj _3517778_37 = primGenSym(co);
-Obj tmp = _3517778_37;
+Obj _3517799_37 = primGenSym(co);
+Obj tmp = _3517799_37;
 R[1] = x;
 R[2] = tmp;
-saveCont(co, clofun76, 1, R);
+saveCont(co, clofun77, 1, R);
 coraCall1(co, k, tmp);
 return;
 }
 case 1:
 {
-Obj _3517779_37= co->res;
+Obj _3517800_37= co->res;
 Obj x = R[1];
 Obj tmp = R[2];
-Obj _3517780_37 = makeCons(co->gc, _3517779_37, Nil);
-Obj _3517781_37 = makeCons(co->gc, x, _3517780_37);
-Obj _3517782_37 = makeCons(co->gc, tmp, _3517781_37);
-Obj _3517783_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517782_37);
-coraReturn(co, _3517783_37);
+Obj _3517801_37 = makeCons(co->gc, _3517800_37, Nil);
+Obj _3517802_37 = makeCons(co->gc, x, _3517801_37);
+Obj _3517803_37 = makeCons(co->gc, tmp, _3517802_37);
+Obj _3517804_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517803_37);
+coraReturn(co, _3517804_37);
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4618,13 +4619,13 @@ Obj v = R[1];
 Obj val = R[2];
 R[1] = val;
 R[2] = v;
-saveCont(co, clofun75, 3, R);
+saveCont(co, clofun76, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj _3517776_37= co->res;
+Obj _3517797_37= co->res;
 Obj v = R[1];
 Obj cur1 = R[2];
 co->ctx.sp = R;
@@ -4633,157 +4634,157 @@ return;
 }
 case 2:
 {
-Obj _3517771_37= co->res;
+Obj _3517792_37= co->res;
 Obj val = R[1];
 Obj idx = R[2];
 Obj v = R[3];
-Obj cur = _3517771_37;
-Obj _3517772_37 = makeCons(co->gc, val, Nil);
-Obj _3517773_37 = makeCons(co->gc, idx, _3517772_37);
-Obj _3517774_37 = makeCons(co->gc, _3517773_37, cur);
-Obj cur1 = _3517774_37;
-Obj _3517775_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj cur = _3517792_37;
+Obj _3517793_37 = makeCons(co->gc, val, Nil);
+Obj _3517794_37 = makeCons(co->gc, idx, _3517793_37);
+Obj _3517795_37 = makeCons(co->gc, _3517794_37, cur);
+Obj cur1 = _3517795_37;
+Obj _3517796_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
 R[1] = v;
 R[2] = cur1;
-saveCont(co, clofun75, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517775_37);
+saveCont(co, clofun76, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517796_37);
 return;
 }
 case 3:
 {
-Obj _3517770_37= co->res;
+Obj _3517791_37= co->res;
 Obj val = R[1];
 Obj v = R[2];
-Obj idx = _3517770_37;
+Obj idx = _3517791_37;
 R[1] = val;
 R[2] = idx;
 R[3] = v;
-saveCont(co, clofun75, 2, R);
+saveCont(co, clofun76, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516708_37 = R[1];
-Obj _3516709_37 = R[2];
-Obj _3516710_37 = makeNative(co->gc, 1, clofun73, 0, 2, _3516708_37, _3516709_37);
-Obj _3517721_37 = PRIM_ISCONS(_3516709_37);
-if (True == _3517721_37) {
-Obj _3517722_37 = PRIM_CAR(_3516709_37);
-Obj _3517723_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517722_37);
-if (True == _3517723_37) {
-Obj _3517724_37 = PRIM_CDR(_3516709_37);
-Obj _3517725_37 = PRIM_ISCONS(_3517724_37);
-if (True == _3517725_37) {
-Obj _3517726_37 = PRIM_CDR(_3516709_37);
-Obj _3517727_37 = PRIM_CAR(_3517726_37);
-Obj _3517728_37 = PRIM_ISCONS(_3517727_37);
-if (True == _3517728_37) {
-Obj _3517729_37 = PRIM_CDR(_3516709_37);
-Obj _3517730_37 = PRIM_CAR(_3517729_37);
-Obj _3517731_37 = PRIM_CAR(_3517730_37);
-Obj _3517732_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517731_37);
-if (True == _3517732_37) {
-Obj _3517733_37 = PRIM_CDR(_3516709_37);
-Obj _3517734_37 = PRIM_CAR(_3517733_37);
-Obj _3517735_37 = PRIM_CDR(_3517734_37);
-Obj _3517736_37 = PRIM_ISCONS(_3517735_37);
-if (True == _3517736_37) {
-Obj _3517737_37 = PRIM_CDR(_3516709_37);
-Obj _3517738_37 = PRIM_CAR(_3517737_37);
-Obj _3517739_37 = PRIM_CDR(_3517738_37);
-Obj _3517740_37 = PRIM_CAR(_3517739_37);
-Obj params = _3517740_37;
-Obj _3517741_37 = PRIM_CDR(_3516709_37);
-Obj _3517742_37 = PRIM_CAR(_3517741_37);
-Obj _3517743_37 = PRIM_CDR(_3517742_37);
-Obj _3517744_37 = PRIM_CDR(_3517743_37);
-Obj _3517745_37 = PRIM_ISCONS(_3517744_37);
-if (True == _3517745_37) {
-Obj _3517746_37 = PRIM_CDR(_3516709_37);
-Obj _3517747_37 = PRIM_CAR(_3517746_37);
-Obj _3517748_37 = PRIM_CDR(_3517747_37);
-Obj _3517749_37 = PRIM_CDR(_3517748_37);
-Obj _3517750_37 = PRIM_CAR(_3517749_37);
-Obj body = _3517750_37;
-Obj _3517751_37 = PRIM_CDR(_3516709_37);
+Obj _3516727_37 = R[1];
+Obj _3516728_37 = R[2];
+Obj _3516729_37 = makeNative(co->gc, 1, clofun74, 0, 2, _3516727_37, _3516728_37);
+Obj _3517742_37 = PRIM_ISCONS(_3516728_37);
+if (True == _3517742_37) {
+Obj _3517743_37 = PRIM_CAR(_3516728_37);
+Obj _3517744_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517743_37);
+if (True == _3517744_37) {
+Obj _3517745_37 = PRIM_CDR(_3516728_37);
+Obj _3517746_37 = PRIM_ISCONS(_3517745_37);
+if (True == _3517746_37) {
+Obj _3517747_37 = PRIM_CDR(_3516728_37);
+Obj _3517748_37 = PRIM_CAR(_3517747_37);
+Obj _3517749_37 = PRIM_ISCONS(_3517748_37);
+if (True == _3517749_37) {
+Obj _3517750_37 = PRIM_CDR(_3516728_37);
+Obj _3517751_37 = PRIM_CAR(_3517750_37);
 Obj _3517752_37 = PRIM_CAR(_3517751_37);
-Obj _3517753_37 = PRIM_CDR(_3517752_37);
-Obj _3517754_37 = PRIM_CDR(_3517753_37);
-Obj _3517755_37 = PRIM_CDR(_3517754_37);
-Obj _3517756_37 = PRIM_EQ(Nil, _3517755_37);
-if (True == _3517756_37) {
-Obj _3517757_37 = PRIM_CDR(_3516709_37);
-Obj _3517758_37 = PRIM_CDR(_3517757_37);
-Obj fvs = _3517758_37;
-R[1] = _3516708_37;
+Obj _3517753_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517752_37);
+if (True == _3517753_37) {
+Obj _3517754_37 = PRIM_CDR(_3516728_37);
+Obj _3517755_37 = PRIM_CAR(_3517754_37);
+Obj _3517756_37 = PRIM_CDR(_3517755_37);
+Obj _3517757_37 = PRIM_ISCONS(_3517756_37);
+if (True == _3517757_37) {
+Obj _3517758_37 = PRIM_CDR(_3516728_37);
+Obj _3517759_37 = PRIM_CAR(_3517758_37);
+Obj _3517760_37 = PRIM_CDR(_3517759_37);
+Obj _3517761_37 = PRIM_CAR(_3517760_37);
+Obj params = _3517761_37;
+Obj _3517762_37 = PRIM_CDR(_3516728_37);
+Obj _3517763_37 = PRIM_CAR(_3517762_37);
+Obj _3517764_37 = PRIM_CDR(_3517763_37);
+Obj _3517765_37 = PRIM_CDR(_3517764_37);
+Obj _3517766_37 = PRIM_ISCONS(_3517765_37);
+if (True == _3517766_37) {
+Obj _3517767_37 = PRIM_CDR(_3516728_37);
+Obj _3517768_37 = PRIM_CAR(_3517767_37);
+Obj _3517769_37 = PRIM_CDR(_3517768_37);
+Obj _3517770_37 = PRIM_CDR(_3517769_37);
+Obj _3517771_37 = PRIM_CAR(_3517770_37);
+Obj body = _3517771_37;
+Obj _3517772_37 = PRIM_CDR(_3516728_37);
+Obj _3517773_37 = PRIM_CAR(_3517772_37);
+Obj _3517774_37 = PRIM_CDR(_3517773_37);
+Obj _3517775_37 = PRIM_CDR(_3517774_37);
+Obj _3517776_37 = PRIM_CDR(_3517775_37);
+Obj _3517777_37 = PRIM_EQ(Nil, _3517776_37);
+if (True == _3517777_37) {
+Obj _3517778_37 = PRIM_CDR(_3516728_37);
+Obj _3517779_37 = PRIM_CDR(_3517778_37);
+Obj fvs = _3517779_37;
+R[1] = _3516727_37;
 R[2] = params;
 R[3] = fvs;
-saveCont(co, clofun74, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516708_37, body);
+saveCont(co, clofun75, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516727_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516729_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517764_37= co->res;
+Obj _3517785_37= co->res;
 Obj nframe = R[1];
 Obj fvs = R[2];
 Obj cur = R[3];
-Obj _3517765_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517766_37 = makeCons(co->gc, _3517764_37, _3517765_37);
-Obj _3517767_37 = makeCons(co->gc, cur, _3517766_37);
-Obj _3517768_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517767_37);
-coraReturn(co, _3517768_37);
+Obj _3517786_37 = makeCons(co->gc, nframe, fvs);
+Obj _3517787_37 = makeCons(co->gc, _3517785_37, _3517786_37);
+Obj _3517788_37 = makeCons(co->gc, cur, _3517787_37);
+Obj _3517789_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517788_37);
+coraReturn(co, _3517789_37);
 return;
 }
 case 2:
 {
-Obj _3517763_37= co->res;
+Obj _3517784_37= co->res;
 Obj params = R[1];
 Obj nframe = R[2];
 Obj fvs = R[3];
@@ -4791,85 +4792,85 @@ Obj cur = R[4];
 R[1] = nframe;
 R[2] = fvs;
 R[3] = cur;
-saveCont(co, clofun74, 1, R);
+saveCont(co, clofun75, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), params);
 return;
 }
 case 3:
 {
-Obj _3517762_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517783_37= co->res;
+Obj _3516727_37 = R[1];
 Obj body2 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
 Obj cur = R[5];
-Obj nframe = _3517762_37;
+Obj nframe = _3517783_37;
 R[1] = params;
 R[2] = nframe;
 R[3] = fvs;
 R[4] = cur;
-saveCont(co, clofun74, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516708_37, body2);
+saveCont(co, clofun75, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516727_37, body2);
 return;
 }
 case 4:
 {
-Obj _3517761_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517782_37= co->res;
+Obj _3516727_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
 Obj cur = R[4];
-Obj body2 = _3517761_37;
-R[1] = _3516708_37;
+Obj body2 = _3517782_37;
+R[1] = _3516727_37;
 R[2] = body2;
 R[3] = params;
 R[4] = fvs;
 R[5] = cur;
-saveCont(co, clofun74, 3, R);
+saveCont(co, clofun75, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), body2);
 return;
 }
 case 5:
 {
-Obj _3517760_37= co->res;
+Obj _3517781_37= co->res;
 Obj body1 = R[1];
-Obj _3516708_37 = R[2];
+Obj _3516727_37 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
-Obj cur = _3517760_37;
-R[1] = _3516708_37;
+Obj cur = _3517781_37;
+R[1] = _3516727_37;
 R[2] = params;
 R[3] = fvs;
 R[4] = cur;
-saveCont(co, clofun74, 4, R);
+saveCont(co, clofun75, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), params, body1);
 return;
 }
 case 6:
 {
-Obj _3517759_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517780_37= co->res;
+Obj _3516727_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
-Obj body1 = _3517759_37;
+Obj body1 = _3517780_37;
 R[1] = body1;
-R[2] = _3516708_37;
+R[2] = _3516727_37;
 R[3] = params;
 R[4] = fvs;
-saveCont(co, clofun74, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516708_37, MAKE_NUMBER(0));
+saveCont(co, clofun75, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516727_37, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517719_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517719_37) {
-saveCont(co, clofun73, 1, R);
+Obj _3517740_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517740_37) {
+saveCont(co, clofun74, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
 } else {
@@ -4879,74 +4880,74 @@ return;
 }
 case 1:
 {
-Obj _3517720_37= co->res;
+Obj _3517741_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517720_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517741_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj lam = R[1];
 R[1] = lam;
-saveCont(co, clofun72, 3, R);
+saveCont(co, clofun73, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
 return;
 }
 case 1:
 {
-Obj _3517717_37= co->res;
-Obj _3517716_37 = R[1];
+Obj _3517738_37= co->res;
+Obj _3517737_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), _3517716_37, _3517717_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun72, 2, 0), _3517737_37, _3517738_37);
 return;
 }
 case 2:
 {
-Obj _3517711_37= co->res;
+Obj _3517732_37= co->res;
 Obj lam = R[1];
-Obj nargs = _3517711_37;
-Obj _3517716_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517716_37;
-saveCont(co, clofun72, 1, R);
+Obj nargs = _3517732_37;
+Obj _3517737_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
+R[1] = _3517737_37;
+saveCont(co, clofun73, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
 return;
 }
 case 3:
 {
-Obj _3517710_37= co->res;
+Obj _3517731_37= co->res;
 Obj lam = R[1];
 R[1] = lam;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517710_37);
+saveCont(co, clofun73, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517731_37);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj acc = R[1];
 Obj x = R[2];
 R[1] = acc;
-saveCont(co, clofun71, 2, R);
+saveCont(co, clofun72, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), x);
 return;
 }
 case 1:
 {
-Obj _3517713_37= co->res;
+Obj _3517734_37= co->res;
 Obj acc = R[1];
-Obj _3517714_37 = PRIM_ADD(_3517713_37, MAKE_NUMBER(1));
-Obj len = _3517714_37;
-Obj _3517715_37 = PRIM_GT(len, acc);
-if (True == _3517715_37) {
+Obj _3517735_37 = PRIM_ADD(_3517734_37, MAKE_NUMBER(1));
+Obj len = _3517735_37;
+Obj _3517736_37 = PRIM_GT(len, acc);
+if (True == _3517736_37) {
 coraReturn(co, len);
 return;
 } else {
@@ -4956,75 +4957,75 @@ return;
 }
 case 2:
 {
-Obj _3517712_37= co->res;
+Obj _3517733_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517712_37);
+saveCont(co, clofun72, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517733_37);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj params = R[1];
 Obj body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun69, 2, 1, params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, params));
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body1 = R[1];
 Obj conts = R[2];
 R[1] = body1;
-saveCont(co, clofun69, 1, R);
+saveCont(co, clofun70, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), conts);
 return;
 }
 case 1:
 {
-Obj _3517705_37= co->res;
+Obj _3517726_37= co->res;
 Obj body1 = R[1];
-Obj _3517706_37 = makeCons(co->gc, body1, _3517705_37);
-Obj _3517707_37 = makeCons(co->gc, closureRef(R[0], 0), _3517706_37);
-Obj _3517708_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517707_37);
-coraReturn(co, _3517708_37);
+Obj _3517727_37 = makeCons(co->gc, body1, _3517726_37);
+Obj _3517728_37 = makeCons(co->gc, closureRef(R[0], 0), _3517727_37);
+Obj _3517729_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517728_37);
+coraReturn(co, _3517729_37);
 return;
 }
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516702_37 = R[1];
-Obj _3516703_37 = R[2];
-Obj _3516704_37 = R[3];
-Obj _3516705_37 = R[4];
-Obj _3517699_37 = PRIM_EQ(Nil, _3516702_37);
-if (True == _3517699_37) {
+Obj _3516721_37 = R[1];
+Obj _3516722_37 = R[2];
+Obj _3516723_37 = R[3];
+Obj _3516724_37 = R[4];
+Obj _3517720_37 = PRIM_EQ(Nil, _3516721_37);
+if (True == _3517720_37) {
 co->ctx.sp = R;
-coraCall2(co, _3516705_37, _3516704_37, _3516703_37);
+coraCall2(co, _3516724_37, _3516723_37, _3516722_37);
 return;
 } else {
-Obj _3517700_37 = PRIM_ISCONS(_3516702_37);
-if (True == _3517700_37) {
-Obj _3517701_37 = PRIM_CAR(_3516702_37);
-Obj f = _3517701_37;
-Obj _3517702_37 = PRIM_CDR(_3516702_37);
-Obj args = _3517702_37;
+Obj _3517721_37 = PRIM_ISCONS(_3516721_37);
+if (True == _3517721_37) {
+Obj _3517722_37 = PRIM_CAR(_3516721_37);
+Obj f = _3517722_37;
+Obj _3517723_37 = PRIM_CDR(_3516721_37);
+Obj args = _3517723_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516703_37, makeNative(co->gc, 3, clofun67, 2, 3, args, _3516704_37, _3516705_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516722_37, makeNative(co->gc, 3, clofun68, 2, 3, args, _3516723_37, _3516724_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5036,131 +5037,131 @@ return;
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj f1 = R[1];
 Obj conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun66, 2, 2, closureRef(R[0], 2), f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), f1));
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj args1 = R[1];
 Obj conts2 = R[2];
-Obj _3517703_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj _3517724_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517703_37, conts2);
+coraCall2(co, closureRef(R[0], 0), _3517724_37, conts2);
 return;
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516696_37 = R[1];
-Obj _3516697_37 = R[2];
-Obj _3516698_37 = R[3];
-Obj _3516772_37 = makeNative(co->gc, 2, clofun64, 1, 3, _3516696_37, _3516697_37, _3516698_37);
-Obj _3517696_37 = primIsSymbol(_3516696_37);
-if (True == _3517696_37) {
+Obj _3516715_37 = R[1];
+Obj _3516716_37 = R[2];
+Obj _3516717_37 = R[3];
+Obj _3516791_37 = makeNative(co->gc, 2, clofun65, 1, 3, _3516715_37, _3516716_37, _3516717_37);
+Obj _3517717_37 = primIsSymbol(_3516715_37);
+if (True == _3517717_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, True);
+coraCall1(co, _3516791_37, True);
 return;
 } else {
-R[1] = _3516772_37;
-saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516696_37);
+R[1] = _3516791_37;
+saveCont(co, clofun66, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516715_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517697_37= co->res;
-Obj _3516772_37 = R[1];
-if (True == _3517697_37) {
+Obj _3517718_37= co->res;
+Obj _3516791_37 = R[1];
+if (True == _3517718_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, True);
+coraCall1(co, _3516791_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, False);
+coraCall1(co, _3516791_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516773_37 = R[1];
-if (True == _3516773_37) {
+Obj _3516792_37 = R[1];
+if (True == _3516792_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516700_37 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517672_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517672_37) {
-Obj _3517673_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517674_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517673_37);
-if (True == _3517674_37) {
-Obj _3517675_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517676_37 = PRIM_ISCONS(_3517675_37);
-if (True == _3517676_37) {
-Obj _3517677_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517678_37 = PRIM_CAR(_3517677_37);
-Obj exp = _3517678_37;
-Obj _3517679_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517680_37 = PRIM_CDR(_3517679_37);
-Obj _3517681_37 = PRIM_ISCONS(_3517680_37);
-if (True == _3517681_37) {
-Obj _3517682_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517683_37 = PRIM_CDR(_3517682_37);
-Obj _3517684_37 = PRIM_CAR(_3517683_37);
-Obj cont = _3517684_37;
-Obj _3517685_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517686_37 = PRIM_CDR(_3517685_37);
-Obj _3517687_37 = PRIM_CDR(_3517686_37);
-Obj _3517688_37 = PRIM_EQ(Nil, _3517687_37);
-if (True == _3517688_37) {
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), exp));
+Obj _3516719_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517693_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517693_37) {
+Obj _3517694_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517695_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517694_37);
+if (True == _3517695_37) {
+Obj _3517696_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517697_37 = PRIM_ISCONS(_3517696_37);
+if (True == _3517697_37) {
+Obj _3517698_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517699_37 = PRIM_CAR(_3517698_37);
+Obj exp = _3517699_37;
+Obj _3517700_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517701_37 = PRIM_CDR(_3517700_37);
+Obj _3517702_37 = PRIM_ISCONS(_3517701_37);
+if (True == _3517702_37) {
+Obj _3517703_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517704_37 = PRIM_CDR(_3517703_37);
+Obj _3517705_37 = PRIM_CAR(_3517704_37);
+Obj cont = _3517705_37;
+Obj _3517706_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517707_37 = PRIM_CDR(_3517706_37);
+Obj _3517708_37 = PRIM_CDR(_3517707_37);
+Obj _3517709_37 = PRIM_EQ(Nil, _3517708_37);
+if (True == _3517709_37) {
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516719_37);
 return;
 }
 }
@@ -5168,7 +5169,7 @@ return;
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -5176,54 +5177,54 @@ Obj cont1 = R[1];
 Obj conts1 = R[2];
 R[1] = cont1;
 R[2] = conts1;
-saveCont(co, clofun63, 2, R);
+saveCont(co, clofun64, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), cont1);
 return;
 }
 case 1:
 {
-Obj _3517690_37= co->res;
+Obj _3517711_37= co->res;
 Obj fvs = R[1];
 Obj cont1 = R[2];
 Obj conts1 = R[3];
-Obj _3517691_37 = PRIM_ADD(_3517690_37, MAKE_NUMBER(1));
-Obj _3517692_37 = makeCons(co->gc, _3517691_37, fvs);
-Obj _3517693_37 = makeCons(co->gc, closureRef(R[0], 1), _3517692_37);
-Obj _3517694_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517693_37);
-Obj _3517695_37 = makeCons(co->gc, cont1, conts1);
+Obj _3517712_37 = PRIM_ADD(_3517711_37, MAKE_NUMBER(1));
+Obj _3517713_37 = makeCons(co->gc, _3517712_37, fvs);
+Obj _3517714_37 = makeCons(co->gc, closureRef(R[0], 1), _3517713_37);
+Obj _3517715_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517714_37);
+Obj _3517716_37 = makeCons(co->gc, cont1, conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517694_37, _3517695_37);
+coraCall2(co, closureRef(R[0], 0), _3517715_37, _3517716_37);
 return;
 }
 case 2:
 {
-Obj _3517689_37= co->res;
+Obj _3517710_37= co->res;
 Obj cont1 = R[1];
 Obj conts1 = R[2];
-Obj fvs = _3517689_37;
+Obj fvs = _3517710_37;
 R[1] = fvs;
 R[2] = cont1;
 R[3] = conts1;
-saveCont(co, clofun63, 1, R);
+saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), conts1);
 return;
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517668_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517668_37) {
-Obj _3517669_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517669_37;
-Obj _3517670_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517670_37;
-Obj _3517671_37 = makeCons(co->gc, f, args);
+Obj _3517689_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517689_37) {
+Obj _3517690_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517690_37;
+Obj _3517691_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517691_37;
+Obj _3517692_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517671_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517692_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5234,94 +5235,94 @@ return;
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516688_37 = R[1];
-Obj _3516689_37 = R[2];
-R[1] = _3516689_37;
-R[2] = _3516688_37;
-saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516689_37);
+Obj _3516707_37 = R[1];
+Obj _3516708_37 = R[2];
+R[1] = _3516708_37;
+R[2] = _3516707_37;
+saveCont(co, clofun62, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516708_37);
 return;
 }
 case 1:
 {
-Obj _3517663_37= co->res;
+Obj _3517684_37= co->res;
 Obj args = R[1];
-Obj _3517664_37 = makeCons(co->gc, _3517663_37, Nil);
-Obj _3517665_37 = makeCons(co->gc, args, _3517664_37);
-Obj _3517666_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517665_37);
-coraReturn(co, _3517666_37);
+Obj _3517685_37 = makeCons(co->gc, _3517684_37, Nil);
+Obj _3517686_37 = makeCons(co->gc, args, _3517685_37);
+Obj _3517687_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517686_37);
+coraReturn(co, _3517687_37);
 return;
 }
 case 2:
 {
-Obj _3517591_37= co->res;
-Obj _3516689_37 = R[1];
-Obj _3516688_37 = R[2];
-if (True == _3517591_37) {
-coraReturn(co, _3516689_37);
-return;
-} else {
-Obj _3517592_37 = primIsSymbol(_3516689_37);
-if (True == _3517592_37) {
-coraReturn(co, _3516689_37);
-return;
-} else {
-Obj _3516692_37 = makeNative(co->gc, 4, clofun60, 0, 2, _3516689_37, _3516688_37);
-Obj _3517646_37 = PRIM_ISCONS(_3516689_37);
-if (True == _3517646_37) {
-Obj _3517647_37 = PRIM_CAR(_3516689_37);
-Obj _3517648_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517647_37);
-if (True == _3517648_37) {
-Obj _3517649_37 = PRIM_CDR(_3516689_37);
-Obj _3517650_37 = PRIM_ISCONS(_3517649_37);
-if (True == _3517650_37) {
-Obj _3517651_37 = PRIM_CDR(_3516689_37);
-Obj _3517652_37 = PRIM_CAR(_3517651_37);
-Obj args = _3517652_37;
-Obj _3517653_37 = PRIM_CDR(_3516689_37);
-Obj _3517654_37 = PRIM_CDR(_3517653_37);
-Obj _3517655_37 = PRIM_ISCONS(_3517654_37);
-if (True == _3517655_37) {
-Obj _3517656_37 = PRIM_CDR(_3516689_37);
-Obj _3517657_37 = PRIM_CDR(_3517656_37);
-Obj _3517658_37 = PRIM_CAR(_3517657_37);
-Obj body = _3517658_37;
-Obj _3517659_37 = PRIM_CDR(_3516689_37);
-Obj _3517660_37 = PRIM_CDR(_3517659_37);
-Obj _3517661_37 = PRIM_CDR(_3517660_37);
-Obj _3517662_37 = PRIM_EQ(Nil, _3517661_37);
-if (True == _3517662_37) {
+Obj _3517612_37= co->res;
+Obj _3516708_37 = R[1];
+Obj _3516707_37 = R[2];
+if (True == _3517612_37) {
+coraReturn(co, _3516708_37);
+return;
+} else {
+Obj _3517613_37 = primIsSymbol(_3516708_37);
+if (True == _3517613_37) {
+coraReturn(co, _3516708_37);
+return;
+} else {
+Obj _3516711_37 = makeNative(co->gc, 4, clofun61, 0, 2, _3516708_37, _3516707_37);
+Obj _3517667_37 = PRIM_ISCONS(_3516708_37);
+if (True == _3517667_37) {
+Obj _3517668_37 = PRIM_CAR(_3516708_37);
+Obj _3517669_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517668_37);
+if (True == _3517669_37) {
+Obj _3517670_37 = PRIM_CDR(_3516708_37);
+Obj _3517671_37 = PRIM_ISCONS(_3517670_37);
+if (True == _3517671_37) {
+Obj _3517672_37 = PRIM_CDR(_3516708_37);
+Obj _3517673_37 = PRIM_CAR(_3517672_37);
+Obj args = _3517673_37;
+Obj _3517674_37 = PRIM_CDR(_3516708_37);
+Obj _3517675_37 = PRIM_CDR(_3517674_37);
+Obj _3517676_37 = PRIM_ISCONS(_3517675_37);
+if (True == _3517676_37) {
+Obj _3517677_37 = PRIM_CDR(_3516708_37);
+Obj _3517678_37 = PRIM_CDR(_3517677_37);
+Obj _3517679_37 = PRIM_CAR(_3517678_37);
+Obj body = _3517679_37;
+Obj _3517680_37 = PRIM_CDR(_3516708_37);
+Obj _3517681_37 = PRIM_CDR(_3517680_37);
+Obj _3517682_37 = PRIM_CDR(_3517681_37);
+Obj _3517683_37 = PRIM_EQ(Nil, _3517682_37);
+if (True == _3517683_37) {
 R[1] = args;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516688_37, body);
+saveCont(co, clofun62, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516707_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516711_37);
 return;
 }
 }
@@ -5330,235 +5331,235 @@ return;
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516693_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517621_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517621_37) {
-Obj _3517622_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517623_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517622_37);
-if (True == _3517623_37) {
-Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517625_37 = PRIM_ISCONS(_3517624_37);
-if (True == _3517625_37) {
-Obj _3517626_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517627_37 = PRIM_CAR(_3517626_37);
-Obj val = _3517627_37;
-Obj _3517628_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517629_37 = PRIM_CDR(_3517628_37);
-Obj _3517630_37 = PRIM_ISCONS(_3517629_37);
-if (True == _3517630_37) {
-Obj _3517631_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517632_37 = PRIM_CDR(_3517631_37);
-Obj _3517633_37 = PRIM_CAR(_3517632_37);
-Obj body = _3517633_37;
-Obj _3517634_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517635_37 = PRIM_CDR(_3517634_37);
-Obj _3517636_37 = PRIM_CDR(_3517635_37);
-Obj _3517637_37 = PRIM_EQ(Nil, _3517636_37);
-if (True == _3517637_37) {
+Obj _3516712_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517642_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517642_37) {
+Obj _3517643_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517644_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517643_37);
+if (True == _3517644_37) {
+Obj _3517645_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517646_37 = PRIM_ISCONS(_3517645_37);
+if (True == _3517646_37) {
+Obj _3517647_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517648_37 = PRIM_CAR(_3517647_37);
+Obj val = _3517648_37;
+Obj _3517649_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517650_37 = PRIM_CDR(_3517649_37);
+Obj _3517651_37 = PRIM_ISCONS(_3517650_37);
+if (True == _3517651_37) {
+Obj _3517652_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517653_37 = PRIM_CDR(_3517652_37);
+Obj _3517654_37 = PRIM_CAR(_3517653_37);
+Obj body = _3517654_37;
+Obj _3517655_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517656_37 = PRIM_CDR(_3517655_37);
+Obj _3517657_37 = PRIM_CDR(_3517656_37);
+Obj _3517658_37 = PRIM_EQ(Nil, _3517657_37);
+if (True == _3517658_37) {
 R[1] = body;
 R[2] = val;
-saveCont(co, clofun60, 5, R);
+saveCont(co, clofun61, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516712_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516712_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516712_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516712_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516712_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517642_37= co->res;
+Obj _3517663_37= co->res;
 Obj fvs2 = R[1];
 Obj val = R[2];
-Obj _3517643_37 = makeCons(co->gc, _3517642_37, fvs2);
-Obj _3517644_37 = makeCons(co->gc, val, _3517643_37);
-Obj _3517645_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517644_37);
-coraReturn(co, _3517645_37);
+Obj _3517664_37 = makeCons(co->gc, _3517663_37, fvs2);
+Obj _3517665_37 = makeCons(co->gc, val, _3517664_37);
+Obj _3517666_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517665_37);
+coraReturn(co, _3517666_37);
 return;
 }
 case 2:
 {
-Obj _3517641_37= co->res;
+Obj _3517662_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
-Obj fvs2 = _3517641_37;
+Obj fvs2 = _3517662_37;
 R[1] = fvs2;
 R[2] = val;
-saveCont(co, clofun60, 1, R);
+saveCont(co, clofun61, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), fvs1, body);
 return;
 }
 case 3:
 {
-Obj _3517640_37= co->res;
+Obj _3517661_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
 R[1] = fvs1;
 R[2] = body;
 R[3] = val;
-saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517640_37, fvs1);
+saveCont(co, clofun61, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517661_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517639_37= co->res;
+Obj _3517660_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
-Obj fvs1 = _3517639_37;
+Obj fvs1 = _3517660_37;
 R[1] = fvs1;
 R[2] = body;
 R[3] = val;
-saveCont(co, clofun60, 3, R);
+saveCont(co, clofun61, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj _3517638_37= co->res;
+Obj _3517659_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
 R[1] = body;
 R[2] = val;
-saveCont(co, clofun60, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517638_37, val);
+saveCont(co, clofun61, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517659_37, val);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516694_37 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517598_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517598_37) {
-Obj _3517599_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517600_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517599_37);
-if (True == _3517600_37) {
-Obj _3517601_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517602_37 = PRIM_ISCONS(_3517601_37);
-if (True == _3517602_37) {
-Obj _3517603_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517604_37 = PRIM_CAR(_3517603_37);
-Obj exp = _3517604_37;
-Obj _3517605_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517606_37 = PRIM_CDR(_3517605_37);
-Obj _3517607_37 = PRIM_ISCONS(_3517606_37);
-if (True == _3517607_37) {
-Obj _3517608_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517609_37 = PRIM_CDR(_3517608_37);
-Obj _3517610_37 = PRIM_CAR(_3517609_37);
-Obj cont = _3517610_37;
-Obj _3517611_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517612_37 = PRIM_CDR(_3517611_37);
-Obj _3517613_37 = PRIM_CDR(_3517612_37);
-Obj _3517614_37 = PRIM_EQ(Nil, _3517613_37);
-if (True == _3517614_37) {
+Obj _3516713_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517619_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517619_37) {
+Obj _3517620_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517621_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517620_37);
+if (True == _3517621_37) {
+Obj _3517622_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517623_37 = PRIM_ISCONS(_3517622_37);
+if (True == _3517623_37) {
+Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517625_37 = PRIM_CAR(_3517624_37);
+Obj exp = _3517625_37;
+Obj _3517626_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517627_37 = PRIM_CDR(_3517626_37);
+Obj _3517628_37 = PRIM_ISCONS(_3517627_37);
+if (True == _3517628_37) {
+Obj _3517629_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517630_37 = PRIM_CDR(_3517629_37);
+Obj _3517631_37 = PRIM_CAR(_3517630_37);
+Obj cont = _3517631_37;
+Obj _3517632_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517633_37 = PRIM_CDR(_3517632_37);
+Obj _3517634_37 = PRIM_CDR(_3517633_37);
+Obj _3517635_37 = PRIM_EQ(Nil, _3517634_37);
+if (True == _3517635_37) {
 R[1] = exp;
 R[2] = cont;
-saveCont(co, clofun59, 3, R);
+saveCont(co, clofun60, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516713_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517617_37= co->res;
-Obj _3517616_37 = R[1];
-Obj _3517618_37 = makeCons(co->gc, _3517617_37, Nil);
-Obj _3517619_37 = makeCons(co->gc, _3517616_37, _3517618_37);
-Obj _3517620_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517619_37);
-coraReturn(co, _3517620_37);
+Obj _3517638_37= co->res;
+Obj _3517637_37 = R[1];
+Obj _3517639_37 = makeCons(co->gc, _3517638_37, Nil);
+Obj _3517640_37 = makeCons(co->gc, _3517637_37, _3517639_37);
+Obj _3517641_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517640_37);
+coraReturn(co, _3517641_37);
 return;
 }
 case 2:
 {
-Obj _3517616_37= co->res;
+Obj _3517637_37= co->res;
 Obj cont = R[1];
-R[1] = _3517616_37;
-saveCont(co, clofun59, 1, R);
+R[1] = _3517637_37;
+saveCont(co, clofun60, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), cont);
 return;
 }
 case 3:
 {
-Obj _3517615_37= co->res;
+Obj _3517636_37= co->res;
 Obj exp = R[1];
 Obj cont = R[2];
 R[1] = cont;
-saveCont(co, clofun59, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517615_37, exp);
+saveCont(co, clofun60, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517636_37, exp);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517593_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517593_37) {
-Obj _3517594_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517594_37;
-Obj _3517595_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517595_37;
+Obj _3517614_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517614_37) {
+Obj _3517615_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517615_37;
+Obj _3517616_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517616_37;
 R[1] = f;
 R[2] = args;
-saveCont(co, clofun58, 1, R);
+saveCont(co, clofun59, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
@@ -5569,39 +5570,39 @@ return;
 }
 case 1:
 {
-Obj _3517596_37= co->res;
+Obj _3517617_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517597_37 = makeCons(co->gc, f, args);
+Obj _3517618_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517596_37, _3517597_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517617_37, _3517618_37);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516683_37 = R[1];
-Obj _3516684_37 = R[2];
-Obj _3516685_37 = R[3];
-Obj _3517568_37 = PRIM_EQ(Nil, _3516683_37);
-if (True == _3517568_37) {
-R[1] = _3516685_37;
-saveCont(co, clofun57, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516684_37);
+Obj _3516702_37 = R[1];
+Obj _3516703_37 = R[2];
+Obj _3516704_37 = R[3];
+Obj _3517589_37 = PRIM_EQ(Nil, _3516702_37);
+if (True == _3517589_37) {
+R[1] = _3516704_37;
+saveCont(co, clofun58, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516703_37);
 return;
 } else {
-Obj _3517586_37 = PRIM_ISCONS(_3516683_37);
-if (True == _3517586_37) {
-Obj _3517587_37 = PRIM_CAR(_3516683_37);
-Obj hd = _3517587_37;
-Obj _3517588_37 = PRIM_CDR(_3516683_37);
-Obj tl = _3517588_37;
+Obj _3517607_37 = PRIM_ISCONS(_3516702_37);
+if (True == _3517607_37) {
+Obj _3517608_37 = PRIM_CAR(_3516702_37);
+Obj hd = _3517608_37;
+Obj _3517609_37 = PRIM_CDR(_3516702_37);
+Obj tl = _3517609_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun56, 1, 3, tl, _3516684_37, _3516685_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun57, 1, 3, tl, _3516703_37, _3516704_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5612,86 +5613,86 @@ return;
 }
 case 1:
 {
-Obj _3517584_37= co->res;
-Obj _3516770_37 = R[1];
-Obj _3517585_37 = PRIM_EQ(_3517584_37, getBinding(co, packageID, 90).name);
-if (True == _3517585_37) {
+Obj _3517605_37= co->res;
+Obj _3516789_37 = R[1];
+Obj _3517606_37 = PRIM_EQ(_3517605_37, getBinding(co, packageID, 90).name);
+if (True == _3517606_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, True);
+coraCall1(co, _3516789_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, False);
+coraCall1(co, _3516789_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517583_37= co->res;
+Obj _3517604_37= co->res;
 Obj exp = R[1];
-Obj _3516770_37 = R[2];
-if (True == _3517583_37) {
-R[1] = _3516770_37;
-saveCont(co, clofun57, 1, R);
+Obj _3516789_37 = R[2];
+if (True == _3517604_37) {
+R[1] = _3516789_37;
+saveCont(co, clofun58, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, False);
+coraCall1(co, _3516789_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517569_37= co->res;
-Obj _3516685_37 = R[1];
-Obj exp = _3517569_37;
-Obj _3516770_37 = makeNative(co->gc, 2, clofun55, 1, 2, exp, _3516685_37);
-Obj _3517582_37 = PRIM_CAR(exp);
+Obj _3517590_37= co->res;
+Obj _3516704_37 = R[1];
+Obj exp = _3517590_37;
+Obj _3516789_37 = makeNative(co->gc, 2, clofun56, 1, 2, exp, _3516704_37);
+Obj _3517603_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3516770_37;
-saveCont(co, clofun57, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517582_37);
+R[2] = _3516789_37;
+saveCont(co, clofun58, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517603_37);
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj hd1 = R[1];
-Obj _3517589_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj _3517610_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517589_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517610_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516771_37 = R[1];
-if (True == _3516771_37) {
+Obj _3516790_37 = R[1];
+if (True == _3516790_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517570_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3517570_37) {
-Obj _3517571_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517572_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517571_37);
-coraReturn(co, _3517572_37);
+Obj _3517591_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == _3517591_37) {
+Obj _3517592_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3517593_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517592_37);
+coraReturn(co, _3517593_37);
 return;
 } else {
-Obj _3517573_37 = primGenSym(co);
-Obj val = _3517573_37;
-Obj _3517574_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517574_37;
-saveCont(co, clofun55, 1, R);
+Obj _3517594_37 = primGenSym(co);
+Obj val = _3517594_37;
+Obj _3517595_37 = makeCons(co->gc, val, Nil);
+R[1] = _3517595_37;
+saveCont(co, clofun56, 1, R);
 coraCall1(co, closureRef(R[0], 1), val);
 return;
 }
@@ -5699,145 +5700,145 @@ return;
 }
 case 1:
 {
-Obj _3517575_37= co->res;
-Obj _3517574_37 = R[1];
-Obj _3517576_37 = makeCons(co->gc, _3517575_37, Nil);
-Obj _3517577_37 = makeCons(co->gc, _3517574_37, _3517576_37);
-Obj _3517578_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517577_37);
-Obj _3517579_37 = makeCons(co->gc, _3517578_37, Nil);
-Obj _3517580_37 = makeCons(co->gc, closureRef(R[0], 0), _3517579_37);
-Obj _3517581_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517580_37);
-coraReturn(co, _3517581_37);
+Obj _3517596_37= co->res;
+Obj _3517595_37 = R[1];
+Obj _3517597_37 = makeCons(co->gc, _3517596_37, Nil);
+Obj _3517598_37 = makeCons(co->gc, _3517595_37, _3517597_37);
+Obj _3517599_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517598_37);
+Obj _3517600_37 = makeCons(co->gc, _3517599_37, Nil);
+Obj _3517601_37 = makeCons(co->gc, closureRef(R[0], 0), _3517600_37);
+Obj _3517602_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517601_37);
+coraReturn(co, _3517602_37);
 return;
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516674_37 = R[1];
-Obj _3516675_37 = R[2];
-Obj _3516768_37 = makeNative(co->gc, 2, clofun53, 1, 2, _3516674_37, _3516675_37);
-Obj _3517565_37 = primIsSymbol(_3516674_37);
-if (True == _3517565_37) {
+Obj _3516693_37 = R[1];
+Obj _3516694_37 = R[2];
+Obj _3516787_37 = makeNative(co->gc, 2, clofun54, 1, 2, _3516693_37, _3516694_37);
+Obj _3517586_37 = primIsSymbol(_3516693_37);
+if (True == _3517586_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, True);
+coraCall1(co, _3516787_37, True);
 return;
 } else {
-R[1] = _3516768_37;
-saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516674_37);
+R[1] = _3516787_37;
+saveCont(co, clofun55, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516693_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517566_37= co->res;
-Obj _3516768_37 = R[1];
-if (True == _3517566_37) {
+Obj _3517587_37= co->res;
+Obj _3516787_37 = R[1];
+if (True == _3517587_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, True);
+coraCall1(co, _3516787_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, False);
+coraCall1(co, _3516787_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516769_37 = R[1];
-if (True == _3516769_37) {
+Obj _3516788_37 = R[1];
+if (True == _3516788_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun53, 1, R);
+saveCont(co, clofun54, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj _3517431_37= co->res;
-if (True == _3517431_37) {
+Obj _3517452_37= co->res;
+if (True == _3517452_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516678_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517533_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517533_37) {
-Obj _3517534_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517535_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517534_37);
-if (True == _3517535_37) {
-Obj _3517536_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517537_37 = PRIM_ISCONS(_3517536_37);
-if (True == _3517537_37) {
-Obj _3517538_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517539_37 = PRIM_CAR(_3517538_37);
-Obj a = _3517539_37;
-Obj _3517540_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517541_37 = PRIM_CDR(_3517540_37);
-Obj _3517542_37 = PRIM_ISCONS(_3517541_37);
-if (True == _3517542_37) {
-Obj _3517543_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517544_37 = PRIM_CDR(_3517543_37);
-Obj _3517545_37 = PRIM_CAR(_3517544_37);
-Obj b = _3517545_37;
-Obj _3517546_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517547_37 = PRIM_CDR(_3517546_37);
-Obj _3517548_37 = PRIM_CDR(_3517547_37);
-Obj _3517549_37 = PRIM_ISCONS(_3517548_37);
-if (True == _3517549_37) {
-Obj _3517550_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517551_37 = PRIM_CDR(_3517550_37);
-Obj _3517552_37 = PRIM_CDR(_3517551_37);
-Obj _3517553_37 = PRIM_CAR(_3517552_37);
-Obj c = _3517553_37;
-Obj _3517554_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517555_37 = PRIM_CDR(_3517554_37);
-Obj _3517556_37 = PRIM_CDR(_3517555_37);
-Obj _3517557_37 = PRIM_CDR(_3517556_37);
-Obj _3517558_37 = PRIM_EQ(Nil, _3517557_37);
+Obj _3516697_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517554_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517554_37) {
+Obj _3517555_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517556_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517555_37);
+if (True == _3517556_37) {
+Obj _3517557_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517558_37 = PRIM_ISCONS(_3517557_37);
 if (True == _3517558_37) {
+Obj _3517559_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517560_37 = PRIM_CAR(_3517559_37);
+Obj a = _3517560_37;
+Obj _3517561_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517562_37 = PRIM_CDR(_3517561_37);
+Obj _3517563_37 = PRIM_ISCONS(_3517562_37);
+if (True == _3517563_37) {
+Obj _3517564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517565_37 = PRIM_CDR(_3517564_37);
+Obj _3517566_37 = PRIM_CAR(_3517565_37);
+Obj b = _3517566_37;
+Obj _3517567_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517568_37 = PRIM_CDR(_3517567_37);
+Obj _3517569_37 = PRIM_CDR(_3517568_37);
+Obj _3517570_37 = PRIM_ISCONS(_3517569_37);
+if (True == _3517570_37) {
+Obj _3517571_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517572_37 = PRIM_CDR(_3517571_37);
+Obj _3517573_37 = PRIM_CDR(_3517572_37);
+Obj _3517574_37 = PRIM_CAR(_3517573_37);
+Obj c = _3517574_37;
+Obj _3517575_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517576_37 = PRIM_CDR(_3517575_37);
+Obj _3517577_37 = PRIM_CDR(_3517576_37);
+Obj _3517578_37 = PRIM_CDR(_3517577_37);
+Obj _3517579_37 = PRIM_EQ(Nil, _3517578_37);
+if (True == _3517579_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun52, 1, 3, b, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun53, 1, 3, b, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516697_37);
 return;
 }
 }
@@ -5845,363 +5846,363 @@ return;
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj ra = R[1];
 R[1] = ra;
-saveCont(co, clofun52, 2, R);
+saveCont(co, clofun53, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517560_37= co->res;
-Obj _3517559_37 = R[1];
+Obj _3517581_37= co->res;
+Obj _3517580_37 = R[1];
 Obj ra = R[2];
-Obj _3517561_37 = makeCons(co->gc, _3517560_37, Nil);
-Obj _3517562_37 = makeCons(co->gc, _3517559_37, _3517561_37);
-Obj _3517563_37 = makeCons(co->gc, ra, _3517562_37);
-Obj _3517564_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517563_37);
-coraReturn(co, _3517564_37);
+Obj _3517582_37 = makeCons(co->gc, _3517581_37, Nil);
+Obj _3517583_37 = makeCons(co->gc, _3517580_37, _3517582_37);
+Obj _3517584_37 = makeCons(co->gc, ra, _3517583_37);
+Obj _3517585_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517584_37);
+coraReturn(co, _3517585_37);
 return;
 }
 case 2:
 {
-Obj _3517559_37= co->res;
+Obj _3517580_37= co->res;
 Obj ra = R[1];
-R[1] = _3517559_37;
+R[1] = _3517580_37;
 R[2] = ra;
-saveCont(co, clofun52, 1, R);
+saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516679_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517511_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517511_37) {
-Obj _3517512_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517513_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517512_37);
-if (True == _3517513_37) {
-Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517515_37 = PRIM_ISCONS(_3517514_37);
-if (True == _3517515_37) {
-Obj _3517516_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517517_37 = PRIM_CAR(_3517516_37);
-Obj a = _3517517_37;
-Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517519_37 = PRIM_CDR(_3517518_37);
-Obj _3517520_37 = PRIM_ISCONS(_3517519_37);
-if (True == _3517520_37) {
-Obj _3517521_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517522_37 = PRIM_CDR(_3517521_37);
-Obj _3517523_37 = PRIM_CAR(_3517522_37);
-Obj b = _3517523_37;
-Obj _3517524_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517525_37 = PRIM_CDR(_3517524_37);
-Obj _3517526_37 = PRIM_CDR(_3517525_37);
-Obj _3517527_37 = PRIM_EQ(Nil, _3517526_37);
-if (True == _3517527_37) {
+Obj _3516698_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517532_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517532_37) {
+Obj _3517533_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517534_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517533_37);
+if (True == _3517534_37) {
+Obj _3517535_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517536_37 = PRIM_ISCONS(_3517535_37);
+if (True == _3517536_37) {
+Obj _3517537_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517538_37 = PRIM_CAR(_3517537_37);
+Obj a = _3517538_37;
+Obj _3517539_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517540_37 = PRIM_CDR(_3517539_37);
+Obj _3517541_37 = PRIM_ISCONS(_3517540_37);
+if (True == _3517541_37) {
+Obj _3517542_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517543_37 = PRIM_CDR(_3517542_37);
+Obj _3517544_37 = PRIM_CAR(_3517543_37);
+Obj b = _3517544_37;
+Obj _3517545_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517546_37 = PRIM_CDR(_3517545_37);
+Obj _3517547_37 = PRIM_CDR(_3517546_37);
+Obj _3517548_37 = PRIM_EQ(Nil, _3517547_37);
+if (True == _3517548_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun50, 1, 2, b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun51, 1, 2, b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516698_37);
 return;
 }
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj ra = R[1];
-Obj _3517528_37 = primIsSymbol(ra);
-if (True == _3517528_37) {
+Obj _3517549_37 = primIsSymbol(ra);
+if (True == _3517549_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = ra;
-saveCont(co, clofun50, 1, R);
+saveCont(co, clofun51, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj _3517529_37= co->res;
+Obj _3517550_37= co->res;
 Obj ra = R[1];
-Obj _3517530_37 = makeCons(co->gc, _3517529_37, Nil);
-Obj _3517531_37 = makeCons(co->gc, ra, _3517530_37);
-Obj _3517532_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517531_37);
-coraReturn(co, _3517532_37);
+Obj _3517551_37 = makeCons(co->gc, _3517550_37, Nil);
+Obj _3517552_37 = makeCons(co->gc, ra, _3517551_37);
+Obj _3517553_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517552_37);
+coraReturn(co, _3517553_37);
 return;
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516680_37 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517480_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517480_37) {
-Obj _3517481_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517482_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517481_37);
-if (True == _3517482_37) {
-Obj _3517483_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517484_37 = PRIM_ISCONS(_3517483_37);
-if (True == _3517484_37) {
-Obj _3517485_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517486_37 = PRIM_CAR(_3517485_37);
-Obj a = _3517486_37;
-Obj _3517487_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517488_37 = PRIM_CDR(_3517487_37);
-Obj _3517489_37 = PRIM_ISCONS(_3517488_37);
-if (True == _3517489_37) {
-Obj _3517490_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517491_37 = PRIM_CDR(_3517490_37);
-Obj _3517492_37 = PRIM_CAR(_3517491_37);
-Obj b = _3517492_37;
-Obj _3517493_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517494_37 = PRIM_CDR(_3517493_37);
-Obj _3517495_37 = PRIM_CDR(_3517494_37);
-Obj _3517496_37 = PRIM_ISCONS(_3517495_37);
-if (True == _3517496_37) {
-Obj _3517497_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517498_37 = PRIM_CDR(_3517497_37);
-Obj _3517499_37 = PRIM_CDR(_3517498_37);
-Obj _3517500_37 = PRIM_CAR(_3517499_37);
-Obj c = _3517500_37;
-Obj _3517501_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517502_37 = PRIM_CDR(_3517501_37);
-Obj _3517503_37 = PRIM_CDR(_3517502_37);
-Obj _3517504_37 = PRIM_CDR(_3517503_37);
-Obj _3517505_37 = PRIM_EQ(Nil, _3517504_37);
+Obj _3516699_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517501_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517501_37) {
+Obj _3517502_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517503_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517502_37);
+if (True == _3517503_37) {
+Obj _3517504_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517505_37 = PRIM_ISCONS(_3517504_37);
 if (True == _3517505_37) {
+Obj _3517506_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517507_37 = PRIM_CAR(_3517506_37);
+Obj a = _3517507_37;
+Obj _3517508_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517509_37 = PRIM_CDR(_3517508_37);
+Obj _3517510_37 = PRIM_ISCONS(_3517509_37);
+if (True == _3517510_37) {
+Obj _3517511_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517512_37 = PRIM_CDR(_3517511_37);
+Obj _3517513_37 = PRIM_CAR(_3517512_37);
+Obj b = _3517513_37;
+Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517515_37 = PRIM_CDR(_3517514_37);
+Obj _3517516_37 = PRIM_CDR(_3517515_37);
+Obj _3517517_37 = PRIM_ISCONS(_3517516_37);
+if (True == _3517517_37) {
+Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517519_37 = PRIM_CDR(_3517518_37);
+Obj _3517520_37 = PRIM_CDR(_3517519_37);
+Obj _3517521_37 = PRIM_CAR(_3517520_37);
+Obj c = _3517521_37;
+Obj _3517522_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517523_37 = PRIM_CDR(_3517522_37);
+Obj _3517524_37 = PRIM_CDR(_3517523_37);
+Obj _3517525_37 = PRIM_CDR(_3517524_37);
+Obj _3517526_37 = PRIM_EQ(Nil, _3517525_37);
+if (True == _3517526_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun48, 1, 3, a, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun49, 1, 3, a, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516699_37);
 return;
 }
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj rb = R[1];
 R[1] = rb;
-saveCont(co, clofun48, 1, R);
+saveCont(co, clofun49, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517506_37= co->res;
+Obj _3517527_37= co->res;
 Obj rb = R[1];
-Obj _3517507_37 = makeCons(co->gc, _3517506_37, Nil);
-Obj _3517508_37 = makeCons(co->gc, rb, _3517507_37);
-Obj _3517509_37 = makeCons(co->gc, closureRef(R[0], 0), _3517508_37);
-Obj _3517510_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517509_37);
-coraReturn(co, _3517510_37);
+Obj _3517528_37 = makeCons(co->gc, _3517527_37, Nil);
+Obj _3517529_37 = makeCons(co->gc, rb, _3517528_37);
+Obj _3517530_37 = makeCons(co->gc, closureRef(R[0], 0), _3517529_37);
+Obj _3517531_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517530_37);
+coraReturn(co, _3517531_37);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516681_37 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517436_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517436_37) {
-Obj _3517437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517438_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517437_37);
-if (True == _3517438_37) {
-Obj _3517439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517440_37 = PRIM_ISCONS(_3517439_37);
-if (True == _3517440_37) {
-Obj _3517441_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517442_37 = PRIM_CAR(_3517441_37);
-Obj _3517443_37 = PRIM_ISCONS(_3517442_37);
-if (True == _3517443_37) {
-Obj _3517444_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517445_37 = PRIM_CAR(_3517444_37);
-Obj _3517446_37 = PRIM_CAR(_3517445_37);
-Obj _3517447_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517446_37);
-if (True == _3517447_37) {
-Obj _3517448_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517449_37 = PRIM_CAR(_3517448_37);
-Obj _3517450_37 = PRIM_CDR(_3517449_37);
-Obj _3517451_37 = PRIM_ISCONS(_3517450_37);
-if (True == _3517451_37) {
-Obj _3517452_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517453_37 = PRIM_CAR(_3517452_37);
-Obj _3517454_37 = PRIM_CDR(_3517453_37);
-Obj _3517455_37 = PRIM_CAR(_3517454_37);
-Obj args = _3517455_37;
-Obj _3517456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517457_37 = PRIM_CAR(_3517456_37);
-Obj _3517458_37 = PRIM_CDR(_3517457_37);
-Obj _3517459_37 = PRIM_CDR(_3517458_37);
-Obj _3517460_37 = PRIM_ISCONS(_3517459_37);
-if (True == _3517460_37) {
-Obj _3517461_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517462_37 = PRIM_CAR(_3517461_37);
-Obj _3517463_37 = PRIM_CDR(_3517462_37);
-Obj _3517464_37 = PRIM_CDR(_3517463_37);
-Obj _3517465_37 = PRIM_CAR(_3517464_37);
-Obj body = _3517465_37;
-Obj _3517466_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516700_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517457_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517457_37) {
+Obj _3517458_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517459_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517458_37);
+if (True == _3517459_37) {
+Obj _3517460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517461_37 = PRIM_ISCONS(_3517460_37);
+if (True == _3517461_37) {
+Obj _3517462_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517463_37 = PRIM_CAR(_3517462_37);
+Obj _3517464_37 = PRIM_ISCONS(_3517463_37);
+if (True == _3517464_37) {
+Obj _3517465_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517466_37 = PRIM_CAR(_3517465_37);
 Obj _3517467_37 = PRIM_CAR(_3517466_37);
-Obj _3517468_37 = PRIM_CDR(_3517467_37);
-Obj _3517469_37 = PRIM_CDR(_3517468_37);
-Obj _3517470_37 = PRIM_CDR(_3517469_37);
-Obj _3517471_37 = PRIM_EQ(Nil, _3517470_37);
-if (True == _3517471_37) {
-Obj _3517472_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517473_37 = PRIM_CDR(_3517472_37);
-Obj frees = _3517473_37;
+Obj _3517468_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517467_37);
+if (True == _3517468_37) {
+Obj _3517469_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517470_37 = PRIM_CAR(_3517469_37);
+Obj _3517471_37 = PRIM_CDR(_3517470_37);
+Obj _3517472_37 = PRIM_ISCONS(_3517471_37);
+if (True == _3517472_37) {
+Obj _3517473_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517474_37 = PRIM_CAR(_3517473_37);
+Obj _3517475_37 = PRIM_CDR(_3517474_37);
+Obj _3517476_37 = PRIM_CAR(_3517475_37);
+Obj args = _3517476_37;
+Obj _3517477_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517478_37 = PRIM_CAR(_3517477_37);
+Obj _3517479_37 = PRIM_CDR(_3517478_37);
+Obj _3517480_37 = PRIM_CDR(_3517479_37);
+Obj _3517481_37 = PRIM_ISCONS(_3517480_37);
+if (True == _3517481_37) {
+Obj _3517482_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517483_37 = PRIM_CAR(_3517482_37);
+Obj _3517484_37 = PRIM_CDR(_3517483_37);
+Obj _3517485_37 = PRIM_CDR(_3517484_37);
+Obj _3517486_37 = PRIM_CAR(_3517485_37);
+Obj body = _3517486_37;
+Obj _3517487_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517488_37 = PRIM_CAR(_3517487_37);
+Obj _3517489_37 = PRIM_CDR(_3517488_37);
+Obj _3517490_37 = PRIM_CDR(_3517489_37);
+Obj _3517491_37 = PRIM_CDR(_3517490_37);
+Obj _3517492_37 = PRIM_EQ(Nil, _3517491_37);
+if (True == _3517492_37) {
+Obj _3517493_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517494_37 = PRIM_CDR(_3517493_37);
+Obj frees = _3517494_37;
 R[1] = args;
 R[2] = frees;
-saveCont(co, clofun47, 1, R);
+saveCont(co, clofun48, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), body, globalRef(co, getBinding(co, packageID, 70)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516700_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517474_37= co->res;
+Obj _3517495_37= co->res;
 Obj args = R[1];
 Obj frees = R[2];
-Obj _3517475_37 = makeCons(co->gc, _3517474_37, Nil);
-Obj _3517476_37 = makeCons(co->gc, args, _3517475_37);
-Obj _3517477_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517476_37);
-Obj _3517478_37 = makeCons(co->gc, _3517477_37, frees);
-Obj _3517479_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517478_37);
+Obj _3517496_37 = makeCons(co->gc, _3517495_37, Nil);
+Obj _3517497_37 = makeCons(co->gc, args, _3517496_37);
+Obj _3517498_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517497_37);
+Obj _3517499_37 = makeCons(co->gc, _3517498_37, frees);
+Obj _3517500_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517499_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517479_37);
+coraCall1(co, closureRef(R[0], 1), _3517500_37);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517432_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517432_37) {
-Obj _3517433_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517433_37;
-Obj _3517434_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517434_37;
-Obj _3517435_37 = makeCons(co->gc, f, args);
+Obj _3517453_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517453_37) {
+Obj _3517454_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517454_37;
+Obj _3517455_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517455_37;
+Obj _3517456_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517435_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517456_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6212,168 +6213,168 @@ return;
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517428_37 = makeCons(co->gc, x, Nil);
-Obj _3517429_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517428_37);
-coraReturn(co, _3517429_37);
+Obj _3517449_37 = makeCons(co->gc, x, Nil);
+Obj _3517450_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517449_37);
+coraReturn(co, _3517450_37);
 return;
 }
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516667_37 = R[1];
-Obj _3516668_37 = R[2];
-R[1] = _3516668_37;
-R[2] = _3516667_37;
-saveCont(co, clofun44, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516668_37);
+Obj _3516686_37 = R[1];
+Obj _3516687_37 = R[2];
+R[1] = _3516687_37;
+R[2] = _3516686_37;
+saveCont(co, clofun45, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516687_37);
 return;
 }
 case 1:
 {
-Obj _3517357_37= co->res;
-Obj _3516668_37 = R[1];
-Obj pos = _3517357_37;
-Obj _3517358_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517358_37) {
-coraReturn(co, _3516668_37);
+Obj _3517376_37= co->res;
+Obj _3516687_37 = R[1];
+Obj pos = _3517376_37;
+Obj _3517377_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
+if (True == _3517377_37) {
+coraReturn(co, _3516687_37);
 return;
 } else {
-Obj _3517359_37 = makeCons(co->gc, pos, Nil);
-Obj _3517360_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517359_37);
-coraReturn(co, _3517360_37);
+Obj _3517378_37 = makeCons(co->gc, pos, Nil);
+Obj _3517379_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517378_37);
+coraReturn(co, _3517379_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517424_37= co->res;
-Obj _3517422_37 = R[1];
-Obj _3517425_37 = makeCons(co->gc, _3517422_37, _3517424_37);
-Obj _3517426_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517425_37);
-coraReturn(co, _3517426_37);
+Obj _3517445_37= co->res;
+Obj _3517443_37 = R[1];
+Obj _3517446_37 = makeCons(co->gc, _3517443_37, _3517445_37);
+Obj _3517447_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517446_37);
+coraReturn(co, _3517447_37);
 return;
 }
 case 3:
 {
-Obj _3517423_37= co->res;
+Obj _3517444_37= co->res;
 Obj fvs1 = R[1];
-Obj _3517422_37 = R[2];
-R[1] = _3517422_37;
-saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517423_37, fvs1);
+Obj _3517443_37 = R[2];
+R[1] = _3517443_37;
+saveCont(co, clofun45, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517444_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517419_37= co->res;
+Obj _3517440_37= co->res;
 Obj args = R[1];
-Obj _3516667_37 = R[2];
+Obj _3516686_37 = R[2];
 Obj fvs1 = R[3];
-Obj _3517420_37 = makeCons(co->gc, _3517419_37, Nil);
-Obj _3517421_37 = makeCons(co->gc, args, _3517420_37);
-Obj _3517422_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517421_37);
+Obj _3517441_37 = makeCons(co->gc, _3517440_37, Nil);
+Obj _3517442_37 = makeCons(co->gc, args, _3517441_37);
+Obj _3517443_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517442_37);
 R[1] = fvs1;
-R[2] = _3517422_37;
-saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516667_37);
+R[2] = _3517443_37;
+saveCont(co, clofun45, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516686_37);
 return;
 }
 case 5:
 {
-Obj _3517418_37= co->res;
+Obj _3517439_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3516667_37 = R[3];
-Obj fvs1 = _3517418_37;
+Obj _3516686_37 = R[3];
+Obj fvs1 = _3517439_37;
 R[1] = args;
-R[2] = _3516667_37;
+R[2] = _3516686_37;
 R[3] = fvs1;
-saveCont(co, clofun44, 4, R);
+saveCont(co, clofun45, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), fvs1, body);
 return;
 }
 case 6:
 {
-Obj _3517355_37= co->res;
-Obj _3516668_37 = R[1];
-Obj _3516667_37 = R[2];
-if (True == _3517355_37) {
-coraReturn(co, _3516668_37);
+Obj _3517374_37= co->res;
+Obj _3516687_37 = R[1];
+Obj _3516686_37 = R[2];
+if (True == _3517374_37) {
+coraReturn(co, _3516687_37);
 return;
-} else {
-Obj _3517356_37 = primIsSymbol(_3516668_37);
-if (True == _3517356_37) {
-R[1] = _3516668_37;
-saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516668_37, _3516667_37);
-return;
-} else {
-Obj _3516671_37 = makeNative(co->gc, 3, clofun43, 0, 2, _3516668_37, _3516667_37);
-Obj _3517398_37 = PRIM_ISCONS(_3516668_37);
-if (True == _3517398_37) {
-Obj _3517399_37 = PRIM_CAR(_3516668_37);
-Obj _3517400_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517399_37);
-if (True == _3517400_37) {
-Obj _3517401_37 = PRIM_CDR(_3516668_37);
-Obj _3517402_37 = PRIM_ISCONS(_3517401_37);
-if (True == _3517402_37) {
-Obj _3517403_37 = PRIM_CDR(_3516668_37);
-Obj _3517404_37 = PRIM_CAR(_3517403_37);
-Obj args = _3517404_37;
-Obj _3517405_37 = PRIM_CDR(_3516668_37);
-Obj _3517406_37 = PRIM_CDR(_3517405_37);
-Obj _3517407_37 = PRIM_ISCONS(_3517406_37);
-if (True == _3517407_37) {
-Obj _3517408_37 = PRIM_CDR(_3516668_37);
-Obj _3517409_37 = PRIM_CDR(_3517408_37);
-Obj _3517410_37 = PRIM_CAR(_3517409_37);
-Obj body = _3517410_37;
-Obj _3517411_37 = PRIM_CDR(_3516668_37);
-Obj _3517412_37 = PRIM_CDR(_3517411_37);
-Obj _3517413_37 = PRIM_CDR(_3517412_37);
-Obj _3517414_37 = PRIM_EQ(Nil, _3517413_37);
-if (True == _3517414_37) {
-Obj _3517415_37 = makeCons(co->gc, body, Nil);
-Obj _3517416_37 = makeCons(co->gc, args, _3517415_37);
-Obj _3517417_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517416_37);
+} else {
+Obj _3517375_37 = primIsSymbol(_3516687_37);
+if (True == _3517375_37) {
+R[1] = _3516687_37;
+saveCont(co, clofun45, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516687_37, _3516686_37);
+return;
+} else {
+Obj _3516690_37 = makeNative(co->gc, 4, clofun44, 0, 2, _3516687_37, _3516686_37);
+Obj _3517419_37 = PRIM_ISCONS(_3516687_37);
+if (True == _3517419_37) {
+Obj _3517420_37 = PRIM_CAR(_3516687_37);
+Obj _3517421_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517420_37);
+if (True == _3517421_37) {
+Obj _3517422_37 = PRIM_CDR(_3516687_37);
+Obj _3517423_37 = PRIM_ISCONS(_3517422_37);
+if (True == _3517423_37) {
+Obj _3517424_37 = PRIM_CDR(_3516687_37);
+Obj _3517425_37 = PRIM_CAR(_3517424_37);
+Obj args = _3517425_37;
+Obj _3517426_37 = PRIM_CDR(_3516687_37);
+Obj _3517427_37 = PRIM_CDR(_3517426_37);
+Obj _3517428_37 = PRIM_ISCONS(_3517427_37);
+if (True == _3517428_37) {
+Obj _3517429_37 = PRIM_CDR(_3516687_37);
+Obj _3517430_37 = PRIM_CDR(_3517429_37);
+Obj _3517431_37 = PRIM_CAR(_3517430_37);
+Obj body = _3517431_37;
+Obj _3517432_37 = PRIM_CDR(_3516687_37);
+Obj _3517433_37 = PRIM_CDR(_3517432_37);
+Obj _3517434_37 = PRIM_CDR(_3517433_37);
+Obj _3517435_37 = PRIM_EQ(Nil, _3517434_37);
+if (True == _3517435_37) {
+Obj _3517436_37 = makeCons(co->gc, body, Nil);
+Obj _3517437_37 = makeCons(co->gc, args, _3517436_37);
+Obj _3517438_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517437_37);
 R[1] = body;
 R[2] = args;
-R[3] = _3516667_37;
-saveCont(co, clofun44, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517417_37);
+R[3] = _3516686_37;
+saveCont(co, clofun45, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517438_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516690_37);
 return;
 }
 }
@@ -6382,118 +6383,148 @@ return;
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516672_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517366_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517366_37) {
-Obj _3517367_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517368_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517367_37);
-if (True == _3517368_37) {
-Obj _3517369_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517370_37 = PRIM_ISCONS(_3517369_37);
-if (True == _3517370_37) {
-Obj _3517371_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517372_37 = PRIM_CAR(_3517371_37);
-Obj a = _3517372_37;
-Obj _3517373_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517374_37 = PRIM_CDR(_3517373_37);
-Obj _3517375_37 = PRIM_ISCONS(_3517374_37);
-if (True == _3517375_37) {
-Obj _3517376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517377_37 = PRIM_CDR(_3517376_37);
-Obj _3517378_37 = PRIM_CAR(_3517377_37);
-Obj b = _3517378_37;
-Obj _3517379_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517380_37 = PRIM_CDR(_3517379_37);
-Obj _3517381_37 = PRIM_CDR(_3517380_37);
-Obj _3517382_37 = PRIM_ISCONS(_3517381_37);
-if (True == _3517382_37) {
-Obj _3517383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517384_37 = PRIM_CDR(_3517383_37);
-Obj _3517385_37 = PRIM_CDR(_3517384_37);
-Obj _3517386_37 = PRIM_CAR(_3517385_37);
-Obj c = _3517386_37;
-Obj _3517387_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517388_37 = PRIM_CDR(_3517387_37);
-Obj _3517389_37 = PRIM_CDR(_3517388_37);
-Obj _3517390_37 = PRIM_CDR(_3517389_37);
-Obj _3517391_37 = PRIM_EQ(Nil, _3517390_37);
-if (True == _3517391_37) {
+Obj _3516691_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517385_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517385_37) {
+Obj _3517386_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517387_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517386_37);
+if (True == _3517387_37) {
+Obj _3517388_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517389_37 = PRIM_ISCONS(_3517388_37);
+if (True == _3517389_37) {
+Obj _3517390_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517391_37 = PRIM_CAR(_3517390_37);
+Obj a = _3517391_37;
+Obj _3517392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517393_37 = PRIM_CDR(_3517392_37);
+Obj _3517394_37 = PRIM_ISCONS(_3517393_37);
+if (True == _3517394_37) {
+Obj _3517395_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517396_37 = PRIM_CDR(_3517395_37);
+Obj _3517397_37 = PRIM_CAR(_3517396_37);
+Obj b = _3517397_37;
+Obj _3517398_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517399_37 = PRIM_CDR(_3517398_37);
+Obj _3517400_37 = PRIM_CDR(_3517399_37);
+Obj _3517401_37 = PRIM_ISCONS(_3517400_37);
+if (True == _3517401_37) {
+Obj _3517402_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517403_37 = PRIM_CDR(_3517402_37);
+Obj _3517404_37 = PRIM_CDR(_3517403_37);
+Obj _3517405_37 = PRIM_CAR(_3517404_37);
+Obj c = _3517405_37;
+Obj _3517406_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517407_37 = PRIM_CDR(_3517406_37);
+Obj _3517408_37 = PRIM_CDR(_3517407_37);
+Obj _3517409_37 = PRIM_CDR(_3517408_37);
+Obj _3517410_37 = PRIM_EQ(Nil, _3517409_37);
+if (True == _3517410_37) {
 R[1] = c;
 R[2] = a;
-saveCont(co, clofun43, 2, R);
+saveCont(co, clofun44, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516691_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517393_37= co->res;
-Obj _3517392_37 = R[1];
+Obj _3517414_37= co->res;
+Obj _3517411_37 = R[1];
 Obj a = R[2];
-Obj _3517394_37 = makeCons(co->gc, _3517393_37, Nil);
-Obj _3517395_37 = makeCons(co->gc, _3517392_37, _3517394_37);
-Obj _3517396_37 = makeCons(co->gc, a, _3517395_37);
-Obj _3517397_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517396_37);
-coraReturn(co, _3517397_37);
+Obj _3517415_37 = makeCons(co->gc, _3517414_37, Nil);
+Obj _3517416_37 = makeCons(co->gc, _3517411_37, _3517415_37);
+Obj _3517417_37 = makeCons(co->gc, a, _3517416_37);
+Obj _3517418_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517417_37);
+coraReturn(co, _3517418_37);
 return;
 }
 case 2:
 {
-Obj _3517392_37= co->res;
+Obj _3517413_37= co->res;
 Obj c = R[1];
-Obj a = R[2];
-R[1] = _3517392_37;
+Obj _3517411_37 = R[2];
+Obj a = R[3];
+R[1] = _3517411_37;
 R[2] = a;
-saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), c);
+saveCont(co, clofun44, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), _3517413_37, c);
+return;
+}
+case 3:
+{
+Obj _3517411_37= co->res;
+Obj c = R[1];
+Obj a = R[2];
+R[1] = c;
+R[2] = _3517411_37;
+R[3] = a;
+saveCont(co, clofun44, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), makeNative(co->gc, 2, clofun43, 1, 1, a), closureRef(R[0], 1));
+return;
+}
+}
+}
+
+static void clofun43(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj x = R[1];
+Obj _3517412_37 = PRIM_EQ(x, closureRef(R[0], 0));
+if (True == _3517412_37) {
+coraReturn(co, Nil);
+return;
+} else {
+coraReturn(co, x);
 return;
 }
 }
 }
+}
 
 static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517361_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517361_37) {
-Obj _3517362_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517362_37;
-Obj _3517363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517363_37;
+Obj _3517380_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517380_37) {
+Obj _3517381_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517381_37;
+Obj _3517382_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517382_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun42, 1, R);
@@ -6507,12 +6538,12 @@ return;
 }
 case 1:
 {
-Obj _3517364_37= co->res;
+Obj _3517383_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517365_37 = makeCons(co->gc, f, args);
+Obj _3517384_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517364_37, _3517365_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517383_37, _3517384_37);
 return;
 }
 }
@@ -6522,86 +6553,86 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516654_37 = R[1];
-R[1] = _3516654_37;
+Obj _3516673_37 = R[1];
+R[1] = _3516673_37;
 saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516654_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516673_37);
 return;
 }
 case 1:
 {
-Obj _3517353_37= co->res;
+Obj _3517372_37= co->res;
 Obj args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517353_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517372_37, args);
 return;
 }
 case 2:
 {
-Obj _3517180_37= co->res;
-Obj _3516654_37 = R[1];
-if (True == _3517180_37) {
+Obj _3517199_37= co->res;
+Obj _3516673_37 = R[1];
+if (True == _3517199_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517181_37 = primIsSymbol(_3516654_37);
-if (True == _3517181_37) {
-Obj _3517182_37 = makeCons(co->gc, _3516654_37, Nil);
-coraReturn(co, _3517182_37);
-return;
-} else {
-Obj _3516657_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516654_37);
-Obj _3517336_37 = PRIM_ISCONS(_3516654_37);
-if (True == _3517336_37) {
-Obj _3517337_37 = PRIM_CAR(_3516654_37);
-Obj _3517338_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517337_37);
-if (True == _3517338_37) {
-Obj _3517339_37 = PRIM_CDR(_3516654_37);
-Obj _3517340_37 = PRIM_ISCONS(_3517339_37);
-if (True == _3517340_37) {
-Obj _3517341_37 = PRIM_CDR(_3516654_37);
-Obj _3517342_37 = PRIM_CAR(_3517341_37);
-Obj args = _3517342_37;
-Obj _3517343_37 = PRIM_CDR(_3516654_37);
-Obj _3517344_37 = PRIM_CDR(_3517343_37);
-Obj _3517345_37 = PRIM_ISCONS(_3517344_37);
-if (True == _3517345_37) {
-Obj _3517346_37 = PRIM_CDR(_3516654_37);
-Obj _3517347_37 = PRIM_CDR(_3517346_37);
-Obj _3517348_37 = PRIM_CAR(_3517347_37);
-Obj body = _3517348_37;
-Obj _3517349_37 = PRIM_CDR(_3516654_37);
-Obj _3517350_37 = PRIM_CDR(_3517349_37);
-Obj _3517351_37 = PRIM_CDR(_3517350_37);
-Obj _3517352_37 = PRIM_EQ(Nil, _3517351_37);
-if (True == _3517352_37) {
+Obj _3517200_37 = primIsSymbol(_3516673_37);
+if (True == _3517200_37) {
+Obj _3517201_37 = makeCons(co->gc, _3516673_37, Nil);
+coraReturn(co, _3517201_37);
+return;
+} else {
+Obj _3516676_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516673_37);
+Obj _3517355_37 = PRIM_ISCONS(_3516673_37);
+if (True == _3517355_37) {
+Obj _3517356_37 = PRIM_CAR(_3516673_37);
+Obj _3517357_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517356_37);
+if (True == _3517357_37) {
+Obj _3517358_37 = PRIM_CDR(_3516673_37);
+Obj _3517359_37 = PRIM_ISCONS(_3517358_37);
+if (True == _3517359_37) {
+Obj _3517360_37 = PRIM_CDR(_3516673_37);
+Obj _3517361_37 = PRIM_CAR(_3517360_37);
+Obj args = _3517361_37;
+Obj _3517362_37 = PRIM_CDR(_3516673_37);
+Obj _3517363_37 = PRIM_CDR(_3517362_37);
+Obj _3517364_37 = PRIM_ISCONS(_3517363_37);
+if (True == _3517364_37) {
+Obj _3517365_37 = PRIM_CDR(_3516673_37);
+Obj _3517366_37 = PRIM_CDR(_3517365_37);
+Obj _3517367_37 = PRIM_CAR(_3517366_37);
+Obj body = _3517367_37;
+Obj _3517368_37 = PRIM_CDR(_3516673_37);
+Obj _3517369_37 = PRIM_CDR(_3517368_37);
+Obj _3517370_37 = PRIM_CDR(_3517369_37);
+Obj _3517371_37 = PRIM_EQ(Nil, _3517370_37);
+if (True == _3517371_37) {
 R[1] = args;
 saveCont(co, clofun41, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516676_37);
 return;
 }
 }
@@ -6614,84 +6645,84 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516658_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517306_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517306_37) {
-Obj _3517307_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517308_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517307_37);
-if (True == _3517308_37) {
-Obj _3517309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517310_37 = PRIM_ISCONS(_3517309_37);
-if (True == _3517310_37) {
-Obj _3517311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517312_37 = PRIM_CAR(_3517311_37);
-Obj x = _3517312_37;
-Obj _3517313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517314_37 = PRIM_CDR(_3517313_37);
-Obj _3517315_37 = PRIM_ISCONS(_3517314_37);
-if (True == _3517315_37) {
-Obj _3517316_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517317_37 = PRIM_CDR(_3517316_37);
-Obj _3517318_37 = PRIM_CAR(_3517317_37);
-Obj y = _3517318_37;
-Obj _3517319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517320_37 = PRIM_CDR(_3517319_37);
-Obj _3517321_37 = PRIM_CDR(_3517320_37);
-Obj _3517322_37 = PRIM_ISCONS(_3517321_37);
-if (True == _3517322_37) {
-Obj _3517323_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517324_37 = PRIM_CDR(_3517323_37);
-Obj _3517325_37 = PRIM_CDR(_3517324_37);
-Obj _3517326_37 = PRIM_CAR(_3517325_37);
-Obj z = _3517326_37;
-Obj _3517327_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517328_37 = PRIM_CDR(_3517327_37);
-Obj _3517329_37 = PRIM_CDR(_3517328_37);
-Obj _3517330_37 = PRIM_CDR(_3517329_37);
-Obj _3517331_37 = PRIM_EQ(Nil, _3517330_37);
-if (True == _3517331_37) {
-Obj _3517332_37 = makeCons(co->gc, z, Nil);
-Obj _3517333_37 = makeCons(co->gc, y, _3517332_37);
-Obj _3517334_37 = makeCons(co->gc, x, _3517333_37);
+Obj _3516677_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj _3517325_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517325_37) {
+Obj _3517326_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517327_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517326_37);
+if (True == _3517327_37) {
+Obj _3517328_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517329_37 = PRIM_ISCONS(_3517328_37);
+if (True == _3517329_37) {
+Obj _3517330_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517331_37 = PRIM_CAR(_3517330_37);
+Obj x = _3517331_37;
+Obj _3517332_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517333_37 = PRIM_CDR(_3517332_37);
+Obj _3517334_37 = PRIM_ISCONS(_3517333_37);
+if (True == _3517334_37) {
+Obj _3517335_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517336_37 = PRIM_CDR(_3517335_37);
+Obj _3517337_37 = PRIM_CAR(_3517336_37);
+Obj y = _3517337_37;
+Obj _3517338_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517339_37 = PRIM_CDR(_3517338_37);
+Obj _3517340_37 = PRIM_CDR(_3517339_37);
+Obj _3517341_37 = PRIM_ISCONS(_3517340_37);
+if (True == _3517341_37) {
+Obj _3517342_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517343_37 = PRIM_CDR(_3517342_37);
+Obj _3517344_37 = PRIM_CDR(_3517343_37);
+Obj _3517345_37 = PRIM_CAR(_3517344_37);
+Obj z = _3517345_37;
+Obj _3517346_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517347_37 = PRIM_CDR(_3517346_37);
+Obj _3517348_37 = PRIM_CDR(_3517347_37);
+Obj _3517349_37 = PRIM_CDR(_3517348_37);
+Obj _3517350_37 = PRIM_EQ(Nil, _3517349_37);
+if (True == _3517350_37) {
+Obj _3517351_37 = makeCons(co->gc, z, Nil);
+Obj _3517352_37 = makeCons(co->gc, y, _3517351_37);
+Obj _3517353_37 = makeCons(co->gc, x, _3517352_37);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517334_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517353_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516677_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517335_37= co->res;
+Obj _3517354_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517335_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517354_37);
 return;
 }
 }
@@ -6701,67 +6732,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516659_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517286_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517286_37) {
-Obj _3517287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517288_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517287_37);
-if (True == _3517288_37) {
-Obj _3517289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517290_37 = PRIM_ISCONS(_3517289_37);
-if (True == _3517290_37) {
-Obj _3517291_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517292_37 = PRIM_CAR(_3517291_37);
-Obj x = _3517292_37;
-Obj _3517293_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517294_37 = PRIM_CDR(_3517293_37);
-Obj _3517295_37 = PRIM_ISCONS(_3517294_37);
-if (True == _3517295_37) {
-Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517297_37 = PRIM_CDR(_3517296_37);
-Obj _3517298_37 = PRIM_CAR(_3517297_37);
-Obj y = _3517298_37;
-Obj _3517299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517300_37 = PRIM_CDR(_3517299_37);
-Obj _3517301_37 = PRIM_CDR(_3517300_37);
-Obj _3517302_37 = PRIM_EQ(Nil, _3517301_37);
-if (True == _3517302_37) {
-Obj _3517303_37 = makeCons(co->gc, y, Nil);
-Obj _3517304_37 = makeCons(co->gc, x, _3517303_37);
+Obj _3516678_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
+Obj _3517305_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517305_37) {
+Obj _3517306_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517307_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517306_37);
+if (True == _3517307_37) {
+Obj _3517308_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517309_37 = PRIM_ISCONS(_3517308_37);
+if (True == _3517309_37) {
+Obj _3517310_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517311_37 = PRIM_CAR(_3517310_37);
+Obj x = _3517311_37;
+Obj _3517312_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517313_37 = PRIM_CDR(_3517312_37);
+Obj _3517314_37 = PRIM_ISCONS(_3517313_37);
+if (True == _3517314_37) {
+Obj _3517315_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517316_37 = PRIM_CDR(_3517315_37);
+Obj _3517317_37 = PRIM_CAR(_3517316_37);
+Obj y = _3517317_37;
+Obj _3517318_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517319_37 = PRIM_CDR(_3517318_37);
+Obj _3517320_37 = PRIM_CDR(_3517319_37);
+Obj _3517321_37 = PRIM_EQ(Nil, _3517320_37);
+if (True == _3517321_37) {
+Obj _3517322_37 = makeCons(co->gc, y, Nil);
+Obj _3517323_37 = makeCons(co->gc, x, _3517322_37);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517304_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517323_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516678_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517305_37= co->res;
+Obj _3517324_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517305_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517324_37);
 return;
 }
 }
@@ -6771,42 +6802,42 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516660_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517256_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517256_37) {
-Obj _3517257_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517258_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517257_37);
-if (True == _3517258_37) {
-Obj _3517259_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517260_37 = PRIM_ISCONS(_3517259_37);
-if (True == _3517260_37) {
-Obj _3517261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517262_37 = PRIM_CAR(_3517261_37);
-Obj a = _3517262_37;
-Obj _3517263_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517264_37 = PRIM_CDR(_3517263_37);
-Obj _3517265_37 = PRIM_ISCONS(_3517264_37);
-if (True == _3517265_37) {
-Obj _3517266_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517267_37 = PRIM_CDR(_3517266_37);
-Obj _3517268_37 = PRIM_CAR(_3517267_37);
-Obj b = _3517268_37;
-Obj _3517269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517270_37 = PRIM_CDR(_3517269_37);
-Obj _3517271_37 = PRIM_CDR(_3517270_37);
-Obj _3517272_37 = PRIM_ISCONS(_3517271_37);
-if (True == _3517272_37) {
-Obj _3517273_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517274_37 = PRIM_CDR(_3517273_37);
-Obj _3517275_37 = PRIM_CDR(_3517274_37);
-Obj _3517276_37 = PRIM_CAR(_3517275_37);
-Obj c = _3517276_37;
-Obj _3517277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517278_37 = PRIM_CDR(_3517277_37);
-Obj _3517279_37 = PRIM_CDR(_3517278_37);
-Obj _3517280_37 = PRIM_CDR(_3517279_37);
-Obj _3517281_37 = PRIM_EQ(Nil, _3517280_37);
-if (True == _3517281_37) {
+Obj _3516679_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj _3517275_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517275_37) {
+Obj _3517276_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517277_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517276_37);
+if (True == _3517277_37) {
+Obj _3517278_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517279_37 = PRIM_ISCONS(_3517278_37);
+if (True == _3517279_37) {
+Obj _3517280_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517281_37 = PRIM_CAR(_3517280_37);
+Obj a = _3517281_37;
+Obj _3517282_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517283_37 = PRIM_CDR(_3517282_37);
+Obj _3517284_37 = PRIM_ISCONS(_3517283_37);
+if (True == _3517284_37) {
+Obj _3517285_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517286_37 = PRIM_CDR(_3517285_37);
+Obj _3517287_37 = PRIM_CAR(_3517286_37);
+Obj b = _3517287_37;
+Obj _3517288_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517289_37 = PRIM_CDR(_3517288_37);
+Obj _3517290_37 = PRIM_CDR(_3517289_37);
+Obj _3517291_37 = PRIM_ISCONS(_3517290_37);
+if (True == _3517291_37) {
+Obj _3517292_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517293_37 = PRIM_CDR(_3517292_37);
+Obj _3517294_37 = PRIM_CDR(_3517293_37);
+Obj _3517295_37 = PRIM_CAR(_3517294_37);
+Obj c = _3517295_37;
+Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517297_37 = PRIM_CDR(_3517296_37);
+Obj _3517298_37 = PRIM_CDR(_3517297_37);
+Obj _3517299_37 = PRIM_CDR(_3517298_37);
+Obj _3517300_37 = PRIM_EQ(Nil, _3517299_37);
+if (True == _3517300_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun38, 3, R);
@@ -6814,61 +6845,61 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516679_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516679_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516679_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516679_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516679_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516679_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517285_37= co->res;
-Obj _3517282_37 = R[1];
+Obj _3517304_37= co->res;
+Obj _3517301_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517282_37, _3517285_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517301_37, _3517304_37);
 return;
 }
 case 2:
 {
-Obj _3517283_37= co->res;
+Obj _3517302_37= co->res;
 Obj a = R[1];
-Obj _3517282_37 = R[2];
-Obj _3517284_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517282_37;
+Obj _3517301_37 = R[2];
+Obj _3517303_37 = makeCons(co->gc, a, Nil);
+R[1] = _3517301_37;
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517283_37, _3517284_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517302_37, _3517303_37);
 return;
 }
 case 3:
 {
-Obj _3517282_37= co->res;
+Obj _3517301_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
 R[1] = a;
-R[2] = _3517282_37;
+R[2] = _3517301_37;
 saveCont(co, clofun38, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), c);
 return;
@@ -6880,38 +6911,38 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516661_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517246_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517246_37) {
-Obj _3517247_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517248_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517247_37);
-if (True == _3517248_37) {
-Obj _3517249_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517250_37 = PRIM_ISCONS(_3517249_37);
-if (True == _3517250_37) {
-Obj _3517251_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517252_37 = PRIM_CAR(_3517251_37);
-Obj lam = _3517252_37;
-Obj _3517253_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517254_37 = PRIM_CDR(_3517253_37);
-Obj more = _3517254_37;
-Obj _3517255_37 = makeCons(co->gc, lam, more);
+Obj _3516680_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj _3517265_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517265_37) {
+Obj _3517266_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517267_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517266_37);
+if (True == _3517267_37) {
+Obj _3517268_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517269_37 = PRIM_ISCONS(_3517268_37);
+if (True == _3517269_37) {
+Obj _3517270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517271_37 = PRIM_CAR(_3517270_37);
+Obj lam = _3517271_37;
+Obj _3517272_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517273_37 = PRIM_CDR(_3517272_37);
+Obj more = _3517273_37;
+Obj _3517274_37 = makeCons(co->gc, lam, more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517255_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517274_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516680_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516680_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516680_37);
 return;
 }
 }
@@ -6922,43 +6953,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516662_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517236_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517236_37) {
-Obj _3517237_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517238_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517237_37);
-if (True == _3517238_37) {
-Obj _3517239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517240_37 = PRIM_ISCONS(_3517239_37);
-if (True == _3517240_37) {
-Obj _3517241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517242_37 = PRIM_CAR(_3517241_37);
-Obj x = _3517242_37;
-Obj _3517243_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517244_37 = PRIM_CDR(_3517243_37);
-Obj _3517245_37 = PRIM_EQ(Nil, _3517244_37);
-if (True == _3517245_37) {
+Obj _3516681_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj _3517255_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517255_37) {
+Obj _3517256_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517257_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517256_37);
+if (True == _3517257_37) {
+Obj _3517258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517259_37 = PRIM_ISCONS(_3517258_37);
+if (True == _3517259_37) {
+Obj _3517260_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517261_37 = PRIM_CAR(_3517260_37);
+Obj x = _3517261_37;
+Obj _3517262_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517263_37 = PRIM_CDR(_3517262_37);
+Obj _3517264_37 = PRIM_EQ(Nil, _3517263_37);
+if (True == _3517264_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516681_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516681_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516681_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516681_37);
 return;
 }
 }
@@ -6969,67 +7000,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516663_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517216_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517216_37) {
-Obj _3517217_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517218_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517217_37);
-if (True == _3517218_37) {
-Obj _3517219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517220_37 = PRIM_ISCONS(_3517219_37);
-if (True == _3517220_37) {
-Obj _3517221_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517222_37 = PRIM_CAR(_3517221_37);
-Obj exp = _3517222_37;
-Obj _3517223_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517224_37 = PRIM_CDR(_3517223_37);
-Obj _3517225_37 = PRIM_ISCONS(_3517224_37);
-if (True == _3517225_37) {
-Obj _3517226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517227_37 = PRIM_CDR(_3517226_37);
-Obj _3517228_37 = PRIM_CAR(_3517227_37);
-Obj cont = _3517228_37;
-Obj _3517229_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517230_37 = PRIM_CDR(_3517229_37);
-Obj _3517231_37 = PRIM_CDR(_3517230_37);
-Obj _3517232_37 = PRIM_EQ(Nil, _3517231_37);
-if (True == _3517232_37) {
-Obj _3517233_37 = makeCons(co->gc, cont, Nil);
-Obj _3517234_37 = makeCons(co->gc, exp, _3517233_37);
+Obj _3516682_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj _3517235_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517235_37) {
+Obj _3517236_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517237_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517236_37);
+if (True == _3517237_37) {
+Obj _3517238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517239_37 = PRIM_ISCONS(_3517238_37);
+if (True == _3517239_37) {
+Obj _3517240_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517241_37 = PRIM_CAR(_3517240_37);
+Obj exp = _3517241_37;
+Obj _3517242_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517243_37 = PRIM_CDR(_3517242_37);
+Obj _3517244_37 = PRIM_ISCONS(_3517243_37);
+if (True == _3517244_37) {
+Obj _3517245_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517246_37 = PRIM_CDR(_3517245_37);
+Obj _3517247_37 = PRIM_CAR(_3517246_37);
+Obj cont = _3517247_37;
+Obj _3517248_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517249_37 = PRIM_CDR(_3517248_37);
+Obj _3517250_37 = PRIM_CDR(_3517249_37);
+Obj _3517251_37 = PRIM_EQ(Nil, _3517250_37);
+if (True == _3517251_37) {
+Obj _3517252_37 = makeCons(co->gc, cont, Nil);
+Obj _3517253_37 = makeCons(co->gc, exp, _3517252_37);
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517234_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517253_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516682_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516682_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516682_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516682_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516682_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517235_37= co->res;
+Obj _3517254_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517235_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517254_37);
 return;
 }
 }
@@ -7039,43 +7070,43 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516664_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517206_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517206_37) {
-Obj _3517207_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517208_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517207_37);
-if (True == _3517208_37) {
-Obj _3517209_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517210_37 = PRIM_ISCONS(_3517209_37);
-if (True == _3517210_37) {
-Obj _3517211_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517212_37 = PRIM_CAR(_3517211_37);
-Obj exp = _3517212_37;
-Obj _3517213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517214_37 = PRIM_CDR(_3517213_37);
-Obj _3517215_37 = PRIM_EQ(Nil, _3517214_37);
-if (True == _3517215_37) {
+Obj _3516683_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
+Obj _3517225_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517225_37) {
+Obj _3517226_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517227_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517226_37);
+if (True == _3517227_37) {
+Obj _3517228_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517229_37 = PRIM_ISCONS(_3517228_37);
+if (True == _3517229_37) {
+Obj _3517230_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517231_37 = PRIM_CAR(_3517230_37);
+Obj exp = _3517231_37;
+Obj _3517232_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517233_37 = PRIM_CDR(_3517232_37);
+Obj _3517234_37 = PRIM_EQ(Nil, _3517233_37);
+if (True == _3517234_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516683_37);
 return;
 }
 }
@@ -7086,67 +7117,67 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516665_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517188_37) {
-Obj _3517189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517190_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517189_37);
-if (True == _3517190_37) {
-Obj _3517191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517192_37 = PRIM_ISCONS(_3517191_37);
-if (True == _3517192_37) {
-Obj _3517193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517194_37 = PRIM_CAR(_3517193_37);
-Obj arg = _3517194_37;
-Obj _3517195_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517196_37 = PRIM_CDR(_3517195_37);
-Obj _3517197_37 = PRIM_ISCONS(_3517196_37);
-if (True == _3517197_37) {
-Obj _3517198_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517199_37 = PRIM_CDR(_3517198_37);
-Obj _3517200_37 = PRIM_CAR(_3517199_37);
-Obj body = _3517200_37;
-Obj _3517201_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517202_37 = PRIM_CDR(_3517201_37);
-Obj _3517203_37 = PRIM_CDR(_3517202_37);
-Obj _3517204_37 = PRIM_EQ(Nil, _3517203_37);
-if (True == _3517204_37) {
+Obj _3516684_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj _3517207_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517207_37) {
+Obj _3517208_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517209_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517208_37);
+if (True == _3517209_37) {
+Obj _3517210_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517211_37 = PRIM_ISCONS(_3517210_37);
+if (True == _3517211_37) {
+Obj _3517212_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517213_37 = PRIM_CAR(_3517212_37);
+Obj arg = _3517213_37;
+Obj _3517214_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517215_37 = PRIM_CDR(_3517214_37);
+Obj _3517216_37 = PRIM_ISCONS(_3517215_37);
+if (True == _3517216_37) {
+Obj _3517217_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517218_37 = PRIM_CDR(_3517217_37);
+Obj _3517219_37 = PRIM_CAR(_3517218_37);
+Obj body = _3517219_37;
+Obj _3517220_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517221_37 = PRIM_CDR(_3517220_37);
+Obj _3517222_37 = PRIM_CDR(_3517221_37);
+Obj _3517223_37 = PRIM_EQ(Nil, _3517222_37);
+if (True == _3517223_37) {
 R[1] = arg;
 saveCont(co, clofun33, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516684_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517205_37= co->res;
+Obj _3517224_37= co->res;
 Obj arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517205_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517224_37, arg);
 return;
 }
 }
@@ -7156,15 +7187,15 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517183_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517183_37) {
-Obj _3517184_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517184_37;
-Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517185_37;
-Obj _3517186_37 = makeCons(co->gc, f, args);
+Obj _3517202_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517202_37) {
+Obj _3517203_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517203_37;
+Obj _3517204_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517204_37;
+Obj _3517205_37 = makeCons(co->gc, f, args);
 saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517186_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517205_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7174,9 +7205,9 @@ return;
 }
 case 1:
 {
-Obj _3517187_37= co->res;
+Obj _3517206_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517187_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517206_37);
 return;
 }
 }
@@ -7186,42 +7217,42 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516646_37 = R[1];
-Obj _3516647_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516646_37);
-Obj _3517169_37 = PRIM_ISCONS(_3516646_37);
-if (True == _3517169_37) {
-Obj _3517170_37 = PRIM_CAR(_3516646_37);
-Obj _3517171_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517170_37);
-if (True == _3517171_37) {
-Obj _3517172_37 = PRIM_CDR(_3516646_37);
-Obj _3517173_37 = PRIM_ISCONS(_3517172_37);
-if (True == _3517173_37) {
-Obj _3517174_37 = PRIM_CDR(_3516646_37);
-Obj _3517175_37 = PRIM_CAR(_3517174_37);
-Obj _3517176_37 = PRIM_CDR(_3516646_37);
-Obj _3517177_37 = PRIM_CDR(_3517176_37);
-Obj _3517178_37 = PRIM_EQ(Nil, _3517177_37);
-if (True == _3517178_37) {
+Obj _3516665_37 = R[1];
+Obj _3516666_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516665_37);
+Obj _3517188_37 = PRIM_ISCONS(_3516665_37);
+if (True == _3517188_37) {
+Obj _3517189_37 = PRIM_CAR(_3516665_37);
+Obj _3517190_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517189_37);
+if (True == _3517190_37) {
+Obj _3517191_37 = PRIM_CDR(_3516665_37);
+Obj _3517192_37 = PRIM_ISCONS(_3517191_37);
+if (True == _3517192_37) {
+Obj _3517193_37 = PRIM_CDR(_3516665_37);
+Obj _3517194_37 = PRIM_CAR(_3517193_37);
+Obj _3517195_37 = PRIM_CDR(_3516665_37);
+Obj _3517196_37 = PRIM_CDR(_3517195_37);
+Obj _3517197_37 = PRIM_EQ(Nil, _3517196_37);
+if (True == _3517197_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516666_37);
 return;
 }
 }
@@ -7232,41 +7263,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516648_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517159_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517159_37) {
-Obj _3517160_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517161_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517160_37);
-if (True == _3517161_37) {
-Obj _3517162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517163_37 = PRIM_ISCONS(_3517162_37);
-if (True == _3517163_37) {
-Obj _3517164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517165_37 = PRIM_CAR(_3517164_37);
-Obj _3517166_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517167_37 = PRIM_CDR(_3517166_37);
-Obj _3517168_37 = PRIM_EQ(Nil, _3517167_37);
-if (True == _3517168_37) {
+Obj _3516667_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj _3517178_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517178_37) {
+Obj _3517179_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517180_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517179_37);
+if (True == _3517180_37) {
+Obj _3517181_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517182_37 = PRIM_ISCONS(_3517181_37);
+if (True == _3517182_37) {
+Obj _3517183_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517184_37 = PRIM_CAR(_3517183_37);
+Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517186_37 = PRIM_CDR(_3517185_37);
+Obj _3517187_37 = PRIM_EQ(Nil, _3517186_37);
+if (True == _3517187_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516667_37);
 return;
 }
 }
@@ -7277,41 +7308,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516649_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517149_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517149_37) {
-Obj _3517150_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517151_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517150_37);
-if (True == _3517151_37) {
-Obj _3517152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517153_37 = PRIM_ISCONS(_3517152_37);
-if (True == _3517153_37) {
-Obj _3517154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517155_37 = PRIM_CAR(_3517154_37);
-Obj _3517156_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517157_37 = PRIM_CDR(_3517156_37);
-Obj _3517158_37 = PRIM_EQ(Nil, _3517157_37);
-if (True == _3517158_37) {
+Obj _3516668_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj _3517168_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517168_37) {
+Obj _3517169_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517170_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517169_37);
+if (True == _3517170_37) {
+Obj _3517171_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517172_37 = PRIM_ISCONS(_3517171_37);
+if (True == _3517172_37) {
+Obj _3517173_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517174_37 = PRIM_CAR(_3517173_37);
+Obj _3517175_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517176_37 = PRIM_CDR(_3517175_37);
+Obj _3517177_37 = PRIM_EQ(Nil, _3517176_37);
+if (True == _3517177_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516668_37);
 return;
 }
 }
@@ -7322,41 +7353,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516650_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517139_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517139_37) {
-Obj _3517140_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517141_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517140_37);
-if (True == _3517141_37) {
-Obj _3517142_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517143_37 = PRIM_ISCONS(_3517142_37);
-if (True == _3517143_37) {
-Obj _3517144_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517145_37 = PRIM_CAR(_3517144_37);
-Obj _3517146_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517147_37 = PRIM_CDR(_3517146_37);
-Obj _3517148_37 = PRIM_EQ(Nil, _3517147_37);
-if (True == _3517148_37) {
+Obj _3516669_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
+Obj _3517158_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517158_37) {
+Obj _3517159_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517160_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517159_37);
+if (True == _3517160_37) {
+Obj _3517161_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517162_37 = PRIM_ISCONS(_3517161_37);
+if (True == _3517162_37) {
+Obj _3517163_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517164_37 = PRIM_CAR(_3517163_37);
+Obj _3517165_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517166_37 = PRIM_CDR(_3517165_37);
+Obj _3517167_37 = PRIM_EQ(Nil, _3517166_37);
+if (True == _3517167_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516669_37);
 return;
 }
 }
@@ -7367,41 +7398,41 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516651_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517129_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517129_37) {
-Obj _3517130_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517131_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517130_37);
-if (True == _3517131_37) {
-Obj _3517132_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517133_37 = PRIM_ISCONS(_3517132_37);
-if (True == _3517133_37) {
-Obj _3517134_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517135_37 = PRIM_CAR(_3517134_37);
-Obj _3517136_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517137_37 = PRIM_CDR(_3517136_37);
-Obj _3517138_37 = PRIM_EQ(Nil, _3517137_37);
-if (True == _3517138_37) {
+Obj _3516670_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
+Obj _3517148_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517148_37) {
+Obj _3517149_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517150_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517149_37);
+if (True == _3517150_37) {
+Obj _3517151_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517152_37 = PRIM_ISCONS(_3517151_37);
+if (True == _3517152_37) {
+Obj _3517153_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517154_37 = PRIM_CAR(_3517153_37);
+Obj _3517155_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517156_37 = PRIM_CDR(_3517155_37);
+Obj _3517157_37 = PRIM_EQ(Nil, _3517156_37);
+if (True == _3517157_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516670_37);
 return;
 }
 }
@@ -7412,50 +7443,50 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516652_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517119_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517119_37) {
-Obj _3517120_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517121_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517120_37);
-if (True == _3517121_37) {
-Obj _3517122_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517123_37 = PRIM_ISCONS(_3517122_37);
-if (True == _3517123_37) {
-Obj _3517124_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517125_37 = PRIM_CAR(_3517124_37);
-Obj label = _3517125_37;
-Obj _3517126_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517127_37 = PRIM_CDR(_3517126_37);
-R[1] = _3516652_37;
+Obj _3516671_37 = makeNative(co->gc, 1, clofun25, 0, 0);
+Obj _3517138_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517138_37) {
+Obj _3517139_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517140_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517139_37);
+if (True == _3517140_37) {
+Obj _3517141_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517142_37 = PRIM_ISCONS(_3517141_37);
+if (True == _3517142_37) {
+Obj _3517143_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517144_37 = PRIM_CAR(_3517143_37);
+Obj label = _3517144_37;
+Obj _3517145_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517146_37 = PRIM_CDR(_3517145_37);
+R[1] = _3516671_37;
 saveCont(co, clofun26, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516671_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517128_37= co->res;
-Obj _3516652_37 = R[1];
-if (True == _3517128_37) {
+Obj _3517147_37= co->res;
+Obj _3516671_37 = R[1];
+if (True == _3517147_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516671_37);
 return;
 }
 }
@@ -7476,46 +7507,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516641_37 = R[1];
-Obj _3516642_37 = R[2];
-Obj _3517108_37 = PRIM_EQ(Nil, _3516641_37);
-if (True == _3517108_37) {
+Obj _3516660_37 = R[1];
+Obj _3516661_37 = R[2];
+Obj _3517127_37 = PRIM_EQ(Nil, _3516660_37);
+if (True == _3517127_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516644_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516641_37, _3516642_37);
-Obj _3517114_37 = PRIM_ISCONS(_3516641_37);
-if (True == _3517114_37) {
-Obj _3517115_37 = PRIM_CAR(_3516641_37);
-Obj x = _3517115_37;
-Obj _3517116_37 = PRIM_CDR(_3516641_37);
-Obj y = _3517116_37;
+Obj _3516663_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516660_37, _3516661_37);
+Obj _3517133_37 = PRIM_ISCONS(_3516660_37);
+if (True == _3517133_37) {
+Obj _3517134_37 = PRIM_CAR(_3516660_37);
+Obj x = _3517134_37;
+Obj _3517135_37 = PRIM_CDR(_3516660_37);
+Obj y = _3517135_37;
 R[1] = y;
-R[2] = _3516642_37;
-R[3] = _3516644_37;
+R[2] = _3516661_37;
+R[3] = _3516663_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516642_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516661_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516644_37);
+coraCall0(co, _3516663_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517117_37= co->res;
+Obj _3517136_37= co->res;
 Obj y = R[1];
-Obj _3516642_37 = R[2];
-Obj _3516644_37 = R[3];
-if (True == _3517117_37) {
+Obj _3516661_37 = R[2];
+Obj _3516663_37 = R[3];
+if (True == _3517136_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516642_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516661_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516644_37);
+coraCall0(co, _3516663_37);
 return;
 }
 }
@@ -7526,12 +7557,12 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517109_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517109_37) {
-Obj _3517110_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517110_37;
-Obj _3517111_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517111_37;
+Obj _3517128_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517128_37) {
+Obj _3517129_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517129_37;
+Obj _3517130_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517130_37;
 R[1] = x;
 saveCont(co, clofun23, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, closureRef(R[0], 1));
@@ -7544,10 +7575,10 @@ return;
 }
 case 1:
 {
-Obj _3517112_37= co->res;
+Obj _3517131_37= co->res;
 Obj x = R[1];
-Obj _3517113_37 = makeCons(co->gc, x, _3517112_37);
-coraReturn(co, _3517113_37);
+Obj _3517132_37 = makeCons(co->gc, x, _3517131_37);
+coraReturn(co, _3517132_37);
 return;
 }
 }
@@ -7557,46 +7588,46 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516636_37 = R[1];
-Obj _3516637_37 = R[2];
-Obj _3517097_37 = PRIM_EQ(Nil, _3516636_37);
-if (True == _3517097_37) {
-coraReturn(co, _3516637_37);
+Obj _3516655_37 = R[1];
+Obj _3516656_37 = R[2];
+Obj _3517116_37 = PRIM_EQ(Nil, _3516655_37);
+if (True == _3517116_37) {
+coraReturn(co, _3516656_37);
 return;
 } else {
-Obj _3516639_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516636_37, _3516637_37);
-Obj _3517103_37 = PRIM_ISCONS(_3516636_37);
-if (True == _3517103_37) {
-Obj _3517104_37 = PRIM_CAR(_3516636_37);
-Obj x = _3517104_37;
-Obj _3517105_37 = PRIM_CDR(_3516636_37);
-Obj y = _3517105_37;
+Obj _3516658_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516655_37, _3516656_37);
+Obj _3517122_37 = PRIM_ISCONS(_3516655_37);
+if (True == _3517122_37) {
+Obj _3517123_37 = PRIM_CAR(_3516655_37);
+Obj x = _3517123_37;
+Obj _3517124_37 = PRIM_CDR(_3516655_37);
+Obj y = _3517124_37;
 R[1] = y;
-R[2] = _3516637_37;
-R[3] = _3516639_37;
+R[2] = _3516656_37;
+R[3] = _3516658_37;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516637_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516656_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516639_37);
+coraCall0(co, _3516658_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517106_37= co->res;
+Obj _3517125_37= co->res;
 Obj y = R[1];
-Obj _3516637_37 = R[2];
-Obj _3516639_37 = R[3];
-if (True == _3517106_37) {
+Obj _3516656_37 = R[2];
+Obj _3516658_37 = R[3];
+if (True == _3517125_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516637_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516656_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516639_37);
+coraCall0(co, _3516658_37);
 return;
 }
 }
@@ -7607,12 +7638,12 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517098_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517098_37) {
-Obj _3517099_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517099_37;
-Obj _3517100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517100_37;
+Obj _3517117_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517117_37) {
+Obj _3517118_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517118_37;
+Obj _3517119_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517119_37;
 R[1] = x;
 saveCont(co, clofun21, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, closureRef(R[0], 1));
@@ -7625,10 +7656,10 @@ return;
 }
 case 1:
 {
-Obj _3517101_37= co->res;
+Obj _3517120_37= co->res;
 Obj x = R[1];
-Obj _3517102_37 = makeCons(co->gc, x, _3517101_37);
-coraReturn(co, _3517102_37);
+Obj _3517121_37 = makeCons(co->gc, x, _3517120_37);
+coraReturn(co, _3517121_37);
 return;
 }
 }
@@ -7638,66 +7669,66 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516622_37 = R[1];
-Obj _3516623_37 = R[2];
-Obj _3516624_37 = R[3];
-Obj _3516766_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516622_37, _3516624_37, _3516623_37);
-R[1] = _3516624_37;
-R[2] = _3516766_37;
+Obj _3516641_37 = R[1];
+Obj _3516642_37 = R[2];
+Obj _3516643_37 = R[3];
+Obj _3516785_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516641_37, _3516643_37, _3516642_37);
+R[1] = _3516643_37;
+R[2] = _3516785_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516643_37);
 return;
 }
 case 1:
 {
-Obj _3517095_37= co->res;
-Obj _3516766_37 = R[1];
-if (True == _3517095_37) {
+Obj _3517114_37= co->res;
+Obj _3516785_37 = R[1];
+if (True == _3517114_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516785_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, False);
+coraCall1(co, _3516785_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517094_37= co->res;
-Obj _3516624_37 = R[1];
-Obj _3516766_37 = R[2];
-if (True == _3517094_37) {
+Obj _3517113_37= co->res;
+Obj _3516643_37 = R[1];
+Obj _3516785_37 = R[2];
+if (True == _3517113_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516785_37, True);
 return;
 } else {
-R[1] = _3516766_37;
+R[1] = _3516785_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516643_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517092_37= co->res;
-Obj _3516624_37 = R[1];
-Obj _3516766_37 = R[2];
-if (True == _3517092_37) {
+Obj _3517111_37= co->res;
+Obj _3516643_37 = R[1];
+Obj _3516785_37 = R[2];
+if (True == _3517111_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516785_37, True);
 return;
 } else {
-Obj _3517093_37 = primIsString(_3516624_37);
-if (True == _3517093_37) {
+Obj _3517112_37 = primIsString(_3516643_37);
+if (True == _3517112_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516785_37, True);
 return;
 } else {
-R[1] = _3516624_37;
-R[2] = _3516766_37;
+R[1] = _3516643_37;
+R[2] = _3516785_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516643_37);
 return;
 }
 }
@@ -7709,62 +7740,62 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516767_37 = R[1];
-if (True == _3516767_37) {
-Obj _3516903_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516904_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516903_37);
-coraReturn(co, _3516904_37);
+Obj _3516786_37 = R[1];
+if (True == _3516786_37) {
+Obj _3516922_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj _3516923_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516922_37);
+coraReturn(co, _3516923_37);
 return;
 } else {
-Obj _3516626_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517079_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517079_37) {
-Obj _3517080_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517081_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517080_37);
-if (True == _3517081_37) {
-Obj _3517082_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517083_37 = PRIM_ISCONS(_3517082_37);
-if (True == _3517083_37) {
-Obj _3517084_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517085_37 = PRIM_CAR(_3517084_37);
-Obj x = _3517085_37;
-Obj _3517086_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517087_37 = PRIM_CDR(_3517086_37);
-Obj _3517088_37 = PRIM_EQ(Nil, _3517087_37);
-if (True == _3517088_37) {
+Obj _3516645_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj _3517098_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517098_37) {
+Obj _3517099_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517100_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517099_37);
+if (True == _3517100_37) {
+Obj _3517101_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517102_37 = PRIM_ISCONS(_3517101_37);
+if (True == _3517102_37) {
+Obj _3517103_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517104_37 = PRIM_CAR(_3517103_37);
+Obj x = _3517104_37;
+Obj _3517105_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517106_37 = PRIM_CDR(_3517105_37);
+Obj _3517107_37 = PRIM_EQ(Nil, _3517106_37);
+if (True == _3517107_37) {
 R[1] = x;
 saveCont(co, clofun19, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), x, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516645_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517089_37= co->res;
+Obj _3517108_37= co->res;
 Obj x = R[1];
-Obj _3517090_37 = makeCons(co->gc, x, Nil);
-Obj _3517091_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517090_37);
-coraReturn(co, _3517091_37);
+Obj _3517109_37 = makeCons(co->gc, x, Nil);
+Obj _3517110_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517109_37);
+coraReturn(co, _3517110_37);
 return;
 }
 }
@@ -7774,37 +7805,37 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516905_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516905_37) {
+Obj _3516924_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3516924_37) {
 saveCont(co, clofun18, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516628_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517057_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517057_37) {
-Obj _3517058_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517059_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517058_37);
-if (True == _3517059_37) {
-Obj _3517060_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517061_37 = PRIM_ISCONS(_3517060_37);
-if (True == _3517061_37) {
-Obj _3517062_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517063_37 = PRIM_CAR(_3517062_37);
-Obj args = _3517063_37;
-Obj _3517064_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517065_37 = PRIM_CDR(_3517064_37);
-Obj _3517066_37 = PRIM_ISCONS(_3517065_37);
-if (True == _3517066_37) {
-Obj _3517067_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517068_37 = PRIM_CDR(_3517067_37);
-Obj _3517069_37 = PRIM_CAR(_3517068_37);
-Obj body = _3517069_37;
-Obj _3517070_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517071_37 = PRIM_CDR(_3517070_37);
-Obj _3517072_37 = PRIM_CDR(_3517071_37);
-Obj _3517073_37 = PRIM_EQ(Nil, _3517072_37);
-if (True == _3517073_37) {
+Obj _3516647_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517076_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517076_37) {
+Obj _3517077_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517078_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517077_37);
+if (True == _3517078_37) {
+Obj _3517079_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517080_37 = PRIM_ISCONS(_3517079_37);
+if (True == _3517080_37) {
+Obj _3517081_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517082_37 = PRIM_CAR(_3517081_37);
+Obj args = _3517082_37;
+Obj _3517083_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517084_37 = PRIM_CDR(_3517083_37);
+Obj _3517085_37 = PRIM_ISCONS(_3517084_37);
+if (True == _3517085_37) {
+Obj _3517086_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517087_37 = PRIM_CDR(_3517086_37);
+Obj _3517088_37 = PRIM_CAR(_3517087_37);
+Obj body = _3517088_37;
+Obj _3517089_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517090_37 = PRIM_CDR(_3517089_37);
+Obj _3517091_37 = PRIM_CDR(_3517090_37);
+Obj _3517092_37 = PRIM_EQ(Nil, _3517091_37);
+if (True == _3517092_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun18, 4, R);
@@ -7812,43 +7843,43 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), args, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516647_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516907_37= co->res;
-Obj _3516908_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516909_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516908_37);
-coraReturn(co, _3516909_37);
+Obj _3516926_37= co->res;
+Obj _3516927_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3516928_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516927_37);
+coraReturn(co, _3516928_37);
 return;
 }
 case 2:
 {
-Obj _3516906_37= co->res;
-if (True == _3516906_37) {
+Obj _3516925_37= co->res;
+if (True == _3516925_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -7859,22 +7890,22 @@ return;
 }
 case 3:
 {
-Obj _3517075_37= co->res;
+Obj _3517094_37= co->res;
 Obj args = R[1];
-Obj _3517076_37 = makeCons(co->gc, _3517075_37, Nil);
-Obj _3517077_37 = makeCons(co->gc, args, _3517076_37);
-Obj _3517078_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517077_37);
-coraReturn(co, _3517078_37);
+Obj _3517095_37 = makeCons(co->gc, _3517094_37, Nil);
+Obj _3517096_37 = makeCons(co->gc, args, _3517095_37);
+Obj _3517097_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517096_37);
+coraReturn(co, _3517097_37);
 return;
 }
 case 4:
 {
-Obj _3517074_37= co->res;
+Obj _3517093_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517074_37, closureRef(R[0], 2), body);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517093_37, closureRef(R[0], 2), body);
 return;
 }
 }
@@ -7884,74 +7915,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516629_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517025_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517025_37) {
-Obj _3517026_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517027_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517026_37);
-if (True == _3517027_37) {
-Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517029_37 = PRIM_ISCONS(_3517028_37);
-if (True == _3517029_37) {
-Obj _3517030_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517031_37 = PRIM_CAR(_3517030_37);
-Obj _3517032_37 = PRIM_ISCONS(_3517031_37);
-if (True == _3517032_37) {
-Obj _3517033_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517034_37 = PRIM_CAR(_3517033_37);
-Obj _3517035_37 = PRIM_CAR(_3517034_37);
-Obj _3517036_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517035_37);
-if (True == _3517036_37) {
-Obj _3517037_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517038_37 = PRIM_CAR(_3517037_37);
-Obj _3517039_37 = PRIM_CDR(_3517038_37);
-Obj exp1 = _3517039_37;
-Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517041_37 = PRIM_CDR(_3517040_37);
-Obj exp2 = _3517041_37;
-Obj _3517042_37 = primGenSym(co);
-Obj f = _3517042_37;
-Obj _3517043_37 = primGenSym(co);
-Obj v = _3517043_37;
-Obj _3517044_37 = makeCons(co->gc, v, Nil);
-Obj _3517045_37 = makeCons(co->gc, v, exp2);
-Obj _3517046_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517045_37);
-Obj _3517047_37 = makeCons(co->gc, _3517046_37, Nil);
-Obj _3517048_37 = makeCons(co->gc, _3517044_37, _3517047_37);
-Obj _3517049_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517048_37);
-Obj _3517050_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
-Obj _3517051_37 = makeCons(co->gc, _3517050_37, Nil);
-Obj _3517052_37 = makeCons(co->gc, f, _3517051_37);
-Obj _3517053_37 = makeCons(co->gc, _3517052_37, Nil);
-Obj _3517054_37 = makeCons(co->gc, _3517049_37, _3517053_37);
-Obj _3517055_37 = makeCons(co->gc, f, _3517054_37);
-Obj _3517056_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517055_37);
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517056_37);
+Obj _3516648_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517044_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517044_37) {
+Obj _3517045_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517046_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517045_37);
+if (True == _3517046_37) {
+Obj _3517047_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517048_37 = PRIM_ISCONS(_3517047_37);
+if (True == _3517048_37) {
+Obj _3517049_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517050_37 = PRIM_CAR(_3517049_37);
+Obj _3517051_37 = PRIM_ISCONS(_3517050_37);
+if (True == _3517051_37) {
+Obj _3517052_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517053_37 = PRIM_CAR(_3517052_37);
+Obj _3517054_37 = PRIM_CAR(_3517053_37);
+Obj _3517055_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517054_37);
+if (True == _3517055_37) {
+Obj _3517056_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517057_37 = PRIM_CAR(_3517056_37);
+Obj _3517058_37 = PRIM_CDR(_3517057_37);
+Obj exp1 = _3517058_37;
+Obj _3517059_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517060_37 = PRIM_CDR(_3517059_37);
+Obj exp2 = _3517060_37;
+Obj _3517061_37 = primGenSym(co);
+Obj f = _3517061_37;
+Obj _3517062_37 = primGenSym(co);
+Obj v = _3517062_37;
+Obj _3517063_37 = makeCons(co->gc, v, Nil);
+Obj _3517064_37 = makeCons(co->gc, v, exp2);
+Obj _3517065_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517064_37);
+Obj _3517066_37 = makeCons(co->gc, _3517065_37, Nil);
+Obj _3517067_37 = makeCons(co->gc, _3517063_37, _3517066_37);
+Obj _3517068_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517067_37);
+Obj _3517069_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
+Obj _3517070_37 = makeCons(co->gc, _3517069_37, Nil);
+Obj _3517071_37 = makeCons(co->gc, f, _3517070_37);
+Obj _3517072_37 = makeCons(co->gc, _3517071_37, Nil);
+Obj _3517073_37 = makeCons(co->gc, _3517068_37, _3517072_37);
+Obj _3517074_37 = makeCons(co->gc, f, _3517073_37);
+Obj _3517075_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517074_37);
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517075_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516648_37);
 return;
 }
 }
@@ -7962,42 +7993,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516630_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517018_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517018_37) {
-Obj _3517019_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517020_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517019_37);
-if (True == _3517020_37) {
-Obj _3517021_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517021_37;
+Obj _3516649_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517037_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517037_37) {
+Obj _3517038_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517039_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517038_37);
+if (True == _3517039_37) {
+Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517040_37;
 R[1] = args;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3516649_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3516649_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517023_37= co->res;
-Obj _3517024_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517023_37);
-coraReturn(co, _3517024_37);
+Obj _3517042_37= co->res;
+Obj _3517043_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517042_37);
+coraReturn(co, _3517043_37);
 return;
 }
 case 2:
 {
-Obj _3517022_37= co->res;
+Obj _3517041_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517022_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517041_37, args);
 return;
 }
 }
@@ -8007,76 +8038,76 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516631_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516996_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516996_37) {
-Obj _3516997_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516998_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3516997_37);
-if (True == _3516998_37) {
-Obj _3516999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517000_37 = PRIM_ISCONS(_3516999_37);
-if (True == _3517000_37) {
-Obj _3517001_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517002_37 = PRIM_CAR(_3517001_37);
-Obj x = _3517002_37;
-Obj _3517003_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517004_37 = PRIM_CDR(_3517003_37);
-Obj _3517005_37 = PRIM_ISCONS(_3517004_37);
-if (True == _3517005_37) {
-Obj _3517006_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517007_37 = PRIM_CDR(_3517006_37);
-Obj _3517008_37 = PRIM_CAR(_3517007_37);
-Obj y = _3517008_37;
-Obj _3517009_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517010_37 = PRIM_CDR(_3517009_37);
-Obj _3517011_37 = PRIM_CDR(_3517010_37);
-Obj _3517012_37 = PRIM_EQ(Nil, _3517011_37);
-if (True == _3517012_37) {
+Obj _3516650_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517015_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517015_37) {
+Obj _3517016_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517017_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517016_37);
+if (True == _3517017_37) {
+Obj _3517018_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517019_37 = PRIM_ISCONS(_3517018_37);
+if (True == _3517019_37) {
+Obj _3517020_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517021_37 = PRIM_CAR(_3517020_37);
+Obj x = _3517021_37;
+Obj _3517022_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517023_37 = PRIM_CDR(_3517022_37);
+Obj _3517024_37 = PRIM_ISCONS(_3517023_37);
+if (True == _3517024_37) {
+Obj _3517025_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517026_37 = PRIM_CDR(_3517025_37);
+Obj _3517027_37 = PRIM_CAR(_3517026_37);
+Obj y = _3517027_37;
+Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517029_37 = PRIM_CDR(_3517028_37);
+Obj _3517030_37 = PRIM_CDR(_3517029_37);
+Obj _3517031_37 = PRIM_EQ(Nil, _3517030_37);
+if (True == _3517031_37) {
 R[1] = y;
 saveCont(co, clofun15, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516650_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517014_37= co->res;
-Obj _3517013_37 = R[1];
-Obj _3517015_37 = makeCons(co->gc, _3517014_37, Nil);
-Obj _3517016_37 = makeCons(co->gc, _3517013_37, _3517015_37);
-Obj _3517017_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517016_37);
-coraReturn(co, _3517017_37);
+Obj _3517033_37= co->res;
+Obj _3517032_37 = R[1];
+Obj _3517034_37 = makeCons(co->gc, _3517033_37, Nil);
+Obj _3517035_37 = makeCons(co->gc, _3517032_37, _3517034_37);
+Obj _3517036_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517035_37);
+coraReturn(co, _3517036_37);
 return;
 }
 case 2:
 {
-Obj _3517013_37= co->res;
+Obj _3517032_37= co->res;
 Obj y = R[1];
-R[1] = _3517013_37;
+R[1] = _3517032_37;
 saveCont(co, clofun15, 1, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), y);
 return;
@@ -8088,42 +8119,42 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516632_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516963_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516963_37) {
-Obj _3516964_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516965_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3516964_37);
-if (True == _3516965_37) {
-Obj _3516966_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516967_37 = PRIM_ISCONS(_3516966_37);
-if (True == _3516967_37) {
-Obj _3516968_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516969_37 = PRIM_CAR(_3516968_37);
-Obj a = _3516969_37;
-Obj _3516970_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516971_37 = PRIM_CDR(_3516970_37);
-Obj _3516972_37 = PRIM_ISCONS(_3516971_37);
-if (True == _3516972_37) {
-Obj _3516973_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516974_37 = PRIM_CDR(_3516973_37);
-Obj _3516975_37 = PRIM_CAR(_3516974_37);
-Obj b = _3516975_37;
-Obj _3516976_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516977_37 = PRIM_CDR(_3516976_37);
-Obj _3516978_37 = PRIM_CDR(_3516977_37);
-Obj _3516979_37 = PRIM_ISCONS(_3516978_37);
-if (True == _3516979_37) {
-Obj _3516980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516981_37 = PRIM_CDR(_3516980_37);
-Obj _3516982_37 = PRIM_CDR(_3516981_37);
-Obj _3516983_37 = PRIM_CAR(_3516982_37);
-Obj c = _3516983_37;
-Obj _3516984_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516985_37 = PRIM_CDR(_3516984_37);
-Obj _3516986_37 = PRIM_CDR(_3516985_37);
-Obj _3516987_37 = PRIM_CDR(_3516986_37);
-Obj _3516988_37 = PRIM_EQ(Nil, _3516987_37);
-if (True == _3516988_37) {
+Obj _3516651_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3516982_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516982_37) {
+Obj _3516983_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516984_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3516983_37);
+if (True == _3516984_37) {
+Obj _3516985_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516986_37 = PRIM_ISCONS(_3516985_37);
+if (True == _3516986_37) {
+Obj _3516987_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516988_37 = PRIM_CAR(_3516987_37);
+Obj a = _3516988_37;
+Obj _3516989_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516990_37 = PRIM_CDR(_3516989_37);
+Obj _3516991_37 = PRIM_ISCONS(_3516990_37);
+if (True == _3516991_37) {
+Obj _3516992_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516993_37 = PRIM_CDR(_3516992_37);
+Obj _3516994_37 = PRIM_CAR(_3516993_37);
+Obj b = _3516994_37;
+Obj _3516995_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516996_37 = PRIM_CDR(_3516995_37);
+Obj _3516997_37 = PRIM_CDR(_3516996_37);
+Obj _3516998_37 = PRIM_ISCONS(_3516997_37);
+if (True == _3516998_37) {
+Obj _3516999_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517000_37 = PRIM_CDR(_3516999_37);
+Obj _3517001_37 = PRIM_CDR(_3517000_37);
+Obj _3517002_37 = PRIM_CAR(_3517001_37);
+Obj c = _3517002_37;
+Obj _3517003_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517004_37 = PRIM_CDR(_3517003_37);
+Obj _3517005_37 = PRIM_CDR(_3517004_37);
+Obj _3517006_37 = PRIM_CDR(_3517005_37);
+Obj _3517007_37 = PRIM_EQ(Nil, _3517006_37);
+if (True == _3517007_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun14, 2, R);
@@ -8131,57 +8162,57 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516651_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516991_37= co->res;
-Obj _3516989_37 = R[1];
+Obj _3517010_37= co->res;
+Obj _3517008_37 = R[1];
 Obj a = R[2];
-Obj _3516992_37 = makeCons(co->gc, _3516991_37, Nil);
-Obj _3516993_37 = makeCons(co->gc, _3516989_37, _3516992_37);
-Obj _3516994_37 = makeCons(co->gc, a, _3516993_37);
-Obj _3516995_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516994_37);
-coraReturn(co, _3516995_37);
+Obj _3517011_37 = makeCons(co->gc, _3517010_37, Nil);
+Obj _3517012_37 = makeCons(co->gc, _3517008_37, _3517011_37);
+Obj _3517013_37 = makeCons(co->gc, a, _3517012_37);
+Obj _3517014_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517013_37);
+coraReturn(co, _3517014_37);
 return;
 }
 case 2:
 {
-Obj _3516989_37= co->res;
+Obj _3517008_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3516990_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3516989_37;
+Obj _3517009_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3517008_37;
 R[2] = a;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3516990_37, closureRef(R[0], 2), c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517009_37, closureRef(R[0], 2), c);
 return;
 }
 }
@@ -8191,85 +8222,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516633_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516931_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516931_37) {
-Obj _3516932_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516933_37 = PRIM_ISCONS(_3516932_37);
-if (True == _3516933_37) {
-Obj _3516934_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516935_37 = PRIM_CAR(_3516934_37);
-Obj _3516936_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3516935_37);
-if (True == _3516936_37) {
-Obj _3516937_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516938_37 = PRIM_CDR(_3516937_37);
-Obj exp1 = _3516938_37;
-Obj _3516939_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516940_37 = PRIM_ISCONS(_3516939_37);
-if (True == _3516940_37) {
-Obj _3516941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516942_37 = PRIM_CAR(_3516941_37);
-Obj _3516943_37 = PRIM_ISCONS(_3516942_37);
-if (True == _3516943_37) {
-Obj _3516944_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516945_37 = PRIM_CAR(_3516944_37);
-Obj _3516946_37 = PRIM_CAR(_3516945_37);
-Obj _3516947_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3516946_37);
-if (True == _3516947_37) {
-Obj _3516948_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516949_37 = PRIM_CAR(_3516948_37);
-Obj _3516950_37 = PRIM_CDR(_3516949_37);
-Obj exp2 = _3516950_37;
-Obj _3516951_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516952_37 = PRIM_CDR(_3516951_37);
-Obj _3516953_37 = PRIM_EQ(Nil, _3516952_37);
-if (True == _3516953_37) {
-Obj _3516954_37 = primGenSym(co);
-Obj f = _3516954_37;
-Obj _3516955_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3516956_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
-Obj _3516957_37 = makeCons(co->gc, _3516956_37, Nil);
-Obj _3516958_37 = makeCons(co->gc, f, _3516957_37);
-Obj _3516959_37 = makeCons(co->gc, _3516958_37, Nil);
-Obj _3516960_37 = makeCons(co->gc, _3516955_37, _3516959_37);
-Obj _3516961_37 = makeCons(co->gc, f, _3516960_37);
-Obj _3516962_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516961_37);
+Obj _3516652_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3516950_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516950_37) {
+Obj _3516951_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516952_37 = PRIM_ISCONS(_3516951_37);
+if (True == _3516952_37) {
+Obj _3516953_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516954_37 = PRIM_CAR(_3516953_37);
+Obj _3516955_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3516954_37);
+if (True == _3516955_37) {
+Obj _3516956_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516957_37 = PRIM_CDR(_3516956_37);
+Obj exp1 = _3516957_37;
+Obj _3516958_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516959_37 = PRIM_ISCONS(_3516958_37);
+if (True == _3516959_37) {
+Obj _3516960_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516961_37 = PRIM_CAR(_3516960_37);
+Obj _3516962_37 = PRIM_ISCONS(_3516961_37);
+if (True == _3516962_37) {
+Obj _3516963_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516964_37 = PRIM_CAR(_3516963_37);
+Obj _3516965_37 = PRIM_CAR(_3516964_37);
+Obj _3516966_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3516965_37);
+if (True == _3516966_37) {
+Obj _3516967_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516968_37 = PRIM_CAR(_3516967_37);
+Obj _3516969_37 = PRIM_CDR(_3516968_37);
+Obj exp2 = _3516969_37;
+Obj _3516970_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516971_37 = PRIM_CDR(_3516970_37);
+Obj _3516972_37 = PRIM_EQ(Nil, _3516971_37);
+if (True == _3516972_37) {
+Obj _3516973_37 = primGenSym(co);
+Obj f = _3516973_37;
+Obj _3516974_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
+Obj _3516975_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
+Obj _3516976_37 = makeCons(co->gc, _3516975_37, Nil);
+Obj _3516977_37 = makeCons(co->gc, f, _3516976_37);
+Obj _3516978_37 = makeCons(co->gc, _3516977_37, Nil);
+Obj _3516979_37 = makeCons(co->gc, _3516974_37, _3516978_37);
+Obj _3516980_37 = makeCons(co->gc, f, _3516979_37);
+Obj _3516981_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516980_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516962_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516981_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516652_37);
 return;
 }
 }
@@ -8280,90 +8311,90 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516634_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516911_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516911_37) {
-Obj _3516912_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516912_37;
-Obj _3516913_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516913_37;
+Obj _3516653_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj _3516930_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516930_37) {
+Obj _3516931_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3516931_37;
+Obj _3516932_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3516932_37;
 R[1] = op;
 R[2] = args;
-R[3] = _3516634_37;
+R[3] = _3516653_37;
 saveCont(co, clofun12, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516634_37);
+coraCall0(co, _3516653_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516921_37= co->res;
-Obj _3516919_37 = R[1];
-Obj _3516922_37 = makeCons(co->gc, _3516919_37, _3516921_37);
-coraReturn(co, _3516922_37);
+Obj _3516940_37= co->res;
+Obj _3516938_37 = R[1];
+Obj _3516941_37 = makeCons(co->gc, _3516938_37, _3516940_37);
+coraReturn(co, _3516941_37);
 return;
 }
 case 2:
 {
-Obj _3516920_37= co->res;
+Obj _3516939_37= co->res;
 Obj args = R[1];
-Obj _3516919_37 = R[2];
-R[1] = _3516919_37;
+Obj _3516938_37 = R[2];
+R[1] = _3516938_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516920_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516939_37, args);
 return;
 }
 case 3:
 {
-Obj _3516927_37= co->res;
+Obj _3516946_37= co->res;
 Obj tmp = R[1];
-Obj _3516928_37 = makeCons(co->gc, _3516927_37, Nil);
-Obj _3516929_37 = makeCons(co->gc, tmp, _3516928_37);
-Obj _3516930_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516929_37);
+Obj _3516947_37 = makeCons(co->gc, _3516946_37, Nil);
+Obj _3516948_37 = makeCons(co->gc, tmp, _3516947_37);
+Obj _3516949_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516948_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516930_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516949_37);
 return;
 }
 case 4:
 {
-Obj _3516925_37= co->res;
+Obj _3516944_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj tmp = _3516925_37;
-Obj _3516926_37 = makeCons(co->gc, op, args);
+Obj tmp = _3516944_37;
+Obj _3516945_37 = makeCons(co->gc, op, args);
 R[1] = tmp;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516926_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516945_37, tmp);
 return;
 }
 case 5:
 {
-Obj _3516916_37= co->res;
+Obj _3516935_37= co->res;
 Obj required = R[1];
 Obj op = R[2];
 Obj args = R[3];
-Obj provided = _3516916_37;
-Obj _3516917_37 = PRIM_EQ(required, provided);
-if (True == _3516917_37) {
-Obj _3516918_37 = makeCons(co->gc, op, Nil);
-Obj _3516919_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516918_37);
+Obj provided = _3516935_37;
+Obj _3516936_37 = PRIM_EQ(required, provided);
+if (True == _3516936_37) {
+Obj _3516937_37 = makeCons(co->gc, op, Nil);
+Obj _3516938_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516937_37);
 R[1] = args;
-R[2] = _3516919_37;
+R[2] = _3516938_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3516923_37 = PRIM_GT(required, provided);
-if (True == _3516923_37) {
-Obj _3516924_37 = PRIM_SUB(required, provided);
+Obj _3516942_37 = PRIM_GT(required, provided);
+if (True == _3516942_37) {
+Obj _3516943_37 = PRIM_SUB(required, provided);
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516924_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516943_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8374,10 +8405,10 @@ return;
 }
 case 6:
 {
-Obj _3516915_37= co->res;
+Obj _3516934_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj required = _3516915_37;
+Obj required = _3516934_37;
 R[1] = required;
 R[2] = op;
 R[3] = args;
@@ -8387,11 +8418,11 @@ return;
 }
 case 7:
 {
-Obj _3516914_37= co->res;
+Obj _3516933_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj _3516634_37 = R[3];
-if (True == _3516914_37) {
+Obj _3516653_37 = R[3];
+if (True == _3516933_37) {
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 6, R);
@@ -8399,7 +8430,7 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516634_37);
+coraCall0(co, _3516653_37);
 return;
 }
 }
@@ -8416,9 +8447,9 @@ return;
 }
 case 1:
 {
-Obj _3516910_37= co->res;
+Obj _3516929_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516910_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516929_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8428,18 +8459,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516618_37 = R[1];
-Obj _3516619_37 = R[2];
-Obj _3516898_37 = PRIM_EQ(MAKE_NUMBER(0), _3516618_37);
-if (True == _3516898_37) {
-coraReturn(co, _3516619_37);
+Obj _3516637_37 = R[1];
+Obj _3516638_37 = R[2];
+Obj _3516917_37 = PRIM_EQ(MAKE_NUMBER(0), _3516637_37);
+if (True == _3516917_37) {
+coraReturn(co, _3516638_37);
 return;
 } else {
-Obj _3516899_37 = PRIM_SUB(_3516618_37, MAKE_NUMBER(1));
-Obj _3516900_37 = primGenSym(co);
-Obj _3516901_37 = makeCons(co->gc, _3516900_37, _3516619_37);
+Obj _3516918_37 = PRIM_SUB(_3516637_37, MAKE_NUMBER(1));
+Obj _3516919_37 = primGenSym(co);
+Obj _3516920_37 = makeCons(co->gc, _3516919_37, _3516638_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516899_37, _3516901_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516918_37, _3516920_37);
 return;
 }
 }
@@ -8457,9 +8488,9 @@ return;
 }
 case 1:
 {
-Obj _3516896_37= co->res;
+Obj _3516915_37= co->res;
 Obj find = R[1];
-if (True == _3516896_37) {
+if (True == _3516915_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8470,8 +8501,8 @@ return;
 }
 case 2:
 {
-Obj _3516895_37= co->res;
-Obj find = _3516895_37;
+Obj _3516914_37= co->res;
+Obj find = _3516914_37;
 R[1] = find;
 saveCont(co, clofun9, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
@@ -8491,9 +8522,9 @@ return;
 }
 case 1:
 {
-Obj _3516893_37= co->res;
+Obj _3516912_37= co->res;
 Obj find = R[1];
-if (True == _3516893_37) {
+if (True == _3516912_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8504,8 +8535,8 @@ return;
 }
 case 2:
 {
-Obj _3516892_37= co->res;
-Obj find = _3516892_37;
+Obj _3516911_37= co->res;
+Obj find = _3516911_37;
 R[1] = find;
 saveCont(co, clofun8, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
@@ -8525,16 +8556,16 @@ return;
 }
 case 1:
 {
-Obj _3516889_37= co->res;
-Obj _3516890_37 = primNot(_3516889_37);
-coraReturn(co, _3516890_37);
+Obj _3516908_37= co->res;
+Obj _3516909_37 = primNot(_3516908_37);
+coraReturn(co, _3516909_37);
 return;
 }
 case 2:
 {
-Obj _3516888_37= co->res;
+Obj _3516907_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516888_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516907_37);
 return;
 }
 }
@@ -8544,23 +8575,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516614_37 = R[1];
-Obj _3516615_37 = R[2];
-Obj _3516812_37 = PRIM_EQ(Nil, _3516615_37);
-if (True == _3516812_37) {
+Obj _3516633_37 = R[1];
+Obj _3516634_37 = R[2];
+Obj _3516831_37 = PRIM_EQ(Nil, _3516634_37);
+if (True == _3516831_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516813_37 = PRIM_ISCONS(_3516615_37);
-if (True == _3516813_37) {
-Obj _3516814_37 = PRIM_CAR(_3516615_37);
-Obj hd = _3516814_37;
-Obj _3516815_37 = PRIM_CDR(_3516615_37);
-Obj tl = _3516815_37;
-R[1] = _3516614_37;
+Obj _3516832_37 = PRIM_ISCONS(_3516634_37);
+if (True == _3516832_37) {
+Obj _3516833_37 = PRIM_CAR(_3516634_37);
+Obj hd = _3516833_37;
+Obj _3516834_37 = PRIM_CDR(_3516634_37);
+Obj tl = _3516834_37;
+R[1] = _3516633_37;
 R[2] = tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516614_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516633_37, hd);
 return;
 } else {
 co->ctx.sp = R;
@@ -8571,13 +8602,13 @@ return;
 }
 case 1:
 {
-Obj _3516816_37= co->res;
-Obj _3516614_37 = R[1];
+Obj _3516835_37= co->res;
+Obj _3516633_37 = R[1];
 Obj tl = R[2];
-Obj _3516817_37 = PRIM_LT(_3516816_37, MAKE_NUMBER(0));
-if (True == _3516817_37) {
+Obj _3516836_37 = PRIM_LT(_3516835_37, MAKE_NUMBER(0));
+if (True == _3516836_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516614_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516633_37, tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8604,32 +8635,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516608_37 = R[1];
-Obj _3516609_37 = R[2];
-Obj _3516610_37 = R[3];
-Obj _3516801_37 = PRIM_EQ(Nil, _3516610_37);
-if (True == _3516801_37) {
+Obj _3516627_37 = R[1];
+Obj _3516628_37 = R[2];
+Obj _3516629_37 = R[3];
+Obj _3516820_37 = PRIM_EQ(Nil, _3516629_37);
+if (True == _3516820_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516612_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516610_37, _3516608_37, _3516609_37);
-Obj _3516806_37 = PRIM_ISCONS(_3516610_37);
-if (True == _3516806_37) {
-Obj _3516807_37 = PRIM_CAR(_3516610_37);
-Obj a = _3516807_37;
-Obj _3516808_37 = PRIM_CDR(_3516610_37);
-Obj _3516809_37 = PRIM_EQ(_3516609_37, a);
-if (True == _3516809_37) {
-coraReturn(co, _3516608_37);
+Obj _3516631_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516629_37, _3516627_37, _3516628_37);
+Obj _3516825_37 = PRIM_ISCONS(_3516629_37);
+if (True == _3516825_37) {
+Obj _3516826_37 = PRIM_CAR(_3516629_37);
+Obj a = _3516826_37;
+Obj _3516827_37 = PRIM_CDR(_3516629_37);
+Obj _3516828_37 = PRIM_EQ(_3516628_37, a);
+if (True == _3516828_37) {
+coraReturn(co, _3516627_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516612_37);
+coraCall0(co, _3516631_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516612_37);
+coraCall0(co, _3516631_37);
 return;
 }
 }
@@ -8641,14 +8672,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516802_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516802_37) {
-Obj _3516803_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516804_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516804_37;
-Obj _3516805_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj _3516821_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516821_37) {
+Obj _3516822_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516823_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj b = _3516823_37;
+Obj _3516824_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516805_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516824_37, closureRef(R[0], 2), b);
 return;
 } else {
 co->ctx.sp = R;
@@ -8663,24 +8694,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516603_37 = R[1];
-Obj _3516604_37 = R[2];
-Obj _3516605_37 = R[3];
-Obj _3516795_37 = PRIM_EQ(Nil, _3516605_37);
-if (True == _3516795_37) {
-coraReturn(co, _3516604_37);
-return;
-} else {
-Obj _3516796_37 = PRIM_ISCONS(_3516605_37);
-if (True == _3516796_37) {
-Obj _3516797_37 = PRIM_CAR(_3516605_37);
-Obj x = _3516797_37;
-Obj _3516798_37 = PRIM_CDR(_3516605_37);
-Obj y = _3516798_37;
-R[1] = _3516603_37;
+Obj _3516622_37 = R[1];
+Obj _3516623_37 = R[2];
+Obj _3516624_37 = R[3];
+Obj _3516814_37 = PRIM_EQ(Nil, _3516624_37);
+if (True == _3516814_37) {
+coraReturn(co, _3516623_37);
+return;
+} else {
+Obj _3516815_37 = PRIM_ISCONS(_3516624_37);
+if (True == _3516815_37) {
+Obj _3516816_37 = PRIM_CAR(_3516624_37);
+Obj x = _3516816_37;
+Obj _3516817_37 = PRIM_CDR(_3516624_37);
+Obj y = _3516817_37;
+R[1] = _3516622_37;
 R[2] = y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516603_37, _3516604_37, x);
+coraCall2(co, _3516622_37, _3516623_37, x);
 return;
 } else {
 co->ctx.sp = R;
@@ -8691,11 +8722,11 @@ return;
 }
 case 1:
 {
-Obj _3516799_37= co->res;
-Obj _3516603_37 = R[1];
+Obj _3516818_37= co->res;
+Obj _3516622_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516603_37, _3516799_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516622_37, _3516818_37, y);
 return;
 }
 }
@@ -8705,44 +8736,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516598_37 = R[1];
-Obj _3516599_37 = R[2];
-Obj _3516780_37 = PRIM_EQ(Nil, _3516599_37);
-if (True == _3516780_37) {
+Obj _3516617_37 = R[1];
+Obj _3516618_37 = R[2];
+Obj _3516799_37 = PRIM_EQ(Nil, _3516618_37);
+if (True == _3516799_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516601_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516599_37, _3516598_37);
-Obj _3516784_37 = PRIM_ISCONS(_3516599_37);
-if (True == _3516784_37) {
-Obj _3516785_37 = PRIM_CAR(_3516599_37);
-Obj _3516786_37 = PRIM_ISCONS(_3516785_37);
-if (True == _3516786_37) {
-Obj _3516787_37 = PRIM_CAR(_3516599_37);
-Obj _3516788_37 = PRIM_CAR(_3516787_37);
-Obj x = _3516788_37;
-Obj _3516789_37 = PRIM_CAR(_3516599_37);
-Obj _3516790_37 = PRIM_CDR(_3516789_37);
-Obj y = _3516790_37;
-Obj _3516791_37 = PRIM_CDR(_3516599_37);
-Obj _3516792_37 = PRIM_EQ(_3516598_37, x);
-if (True == _3516792_37) {
-Obj _3516793_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516793_37);
+Obj _3516620_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516618_37, _3516617_37);
+Obj _3516803_37 = PRIM_ISCONS(_3516618_37);
+if (True == _3516803_37) {
+Obj _3516804_37 = PRIM_CAR(_3516618_37);
+Obj _3516805_37 = PRIM_ISCONS(_3516804_37);
+if (True == _3516805_37) {
+Obj _3516806_37 = PRIM_CAR(_3516618_37);
+Obj _3516807_37 = PRIM_CAR(_3516806_37);
+Obj x = _3516807_37;
+Obj _3516808_37 = PRIM_CAR(_3516618_37);
+Obj _3516809_37 = PRIM_CDR(_3516808_37);
+Obj y = _3516809_37;
+Obj _3516810_37 = PRIM_CDR(_3516618_37);
+Obj _3516811_37 = PRIM_EQ(_3516617_37, x);
+if (True == _3516811_37) {
+Obj _3516812_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3516812_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516620_37);
 return;
 }
 }
@@ -8754,11 +8785,11 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516781_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516781_37) {
-Obj _3516782_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516783_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516783_37;
+Obj _3516800_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516800_37) {
+Obj _3516801_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516802_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3516802_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), y);
 return;
diff --git a/lib/toc.cora b/lib/toc.cora
index cd061e6..573f782 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -132,7 +132,9 @@
 			 (let fvs1 (free-vars ['lambda args body])
 			   ['%closure ['lambda args (closure-convert fvs1 body)] .
 				      (map (closure-convert fvs) fvs1)])
-			 fvs ['let a b c] => ['let a (closure-convert fvs b) (closure-convert fvs c)]
+			 ;; inside c the name a is the variable of this let, not the captured one
+			 fvs ['let a b c] => ['let a (closure-convert fvs b)
+						   (closure-convert (map (lambda (x) (if (= x a) () x)) fvs) c)]
 			 fvs [f . args] => (map (closure-convert fvs) [f . args]))
 
   (defun id (x) ['return x])
-- 
2.43.0


From adcd3354dc85310e0589a3cbcc5b1ba533486d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 22/63] fix: accept keeps waiting when there is no connection
 to accept

The listener may be readable and accept still fail (EAGAIN, EINTR,
ECONNABORTED): the waiting fiber was resumed with a connection without a
file descriptor, and its next operation was performed on it.
---
 lib/async.cora | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index 509bdd1..5b02f5a 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -199,19 +199,13 @@
 		 (begin
 		  ;; (display "accept-op\n")
 		  (event-loop-add ln 'read (lambda (conn)
-					     (begin
-					      ;; (display "here in accept callback!\n")
-					      (conn-set-read-callback! conn ())
-					      (let fd (conn-fd conn)
-						   new-fd (net-accept fd)
-						   new-conn (conn-make new-fd)
-						   (begin
-						    ;; (display new-fd)
-						    ;; (display "before accept spawn\n")
-						    (enqueue-task (lambda ()
-								    (begin
-								     ;; (display "accept spawn called\n")
-								     (k new-conn)))))))))))
+					     (let new-fd (net-accept (conn-fd conn))
+						  (if (null? new-fd)
+						      () ;; no connection this time, keep waiting
+						      (begin
+						       (conn-set-read-callback! conn ())
+						       (let new-conn (conn-make new-fd)
+							    (enqueue-task (lambda () (k new-conn)))))))))))
 	 [try block default-wrap]))
 
   (defun accept (ln)
-- 
2.43.0


From cee22d5a05b41b75480f02e92eca3c5cc30491d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 23/63] fix: listen and dial that fail return () and release
 what they opened

---
 lib/async.cora | 11 ++++++-----
 lib/net.c      |  9 ++++++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index 5b02f5a..c45d6e5 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -107,10 +107,9 @@
 
   (defun listen (addr)
     (let fd (net-listen addr)
-	 (begin
-	  ;; (display fd)
-	  ;; (display "here in listen?\n")
-	  (conn-make fd))))
+	 (if (null? fd)
+	     ()
+	     (conn-make fd))))
 
   (defun conn-close (conn)
     (if (conn-not-in-event-loop? conn)
@@ -123,7 +122,9 @@
 
   (defun dial (addr)
     (let fd (net-dial addr)
-	 (conn-make fd)))
+	 (if (null? fd)
+	     ()
+	     (conn-make fd))))
 
   (func recv-handler
 	[conn buf pos] k => (begin
diff --git a/lib/net.c b/lib/net.c
index 1f662c9..e34e25c 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -63,6 +63,11 @@ netListen(struct Cora *ctx, int label, Obj *R) {
 
 	int fd = socket(AF_INET, SOCK_STREAM, 0);
 	/* printf("listen fd = %d\n", fd); */
+	if (fd < 0) {
+		fprintf(stderr, "socket error\n");
+		coraReturn(ctx, Nil);
+		return;
+	}
 
 	struct sockaddr_in addr;
 	memset(&addr, 0, sizeof(struct sockaddr_in));
@@ -71,12 +76,14 @@ netListen(struct Cora *ctx, int label, Obj *R) {
 	addr.sin_port = htons(port);
 	if (bind(fd, (struct sockaddr *)&addr, sizeof(struct sockaddr_in)) < 0) {
 		fprintf(stderr, "bind error\n");
+		close(fd);
 		coraReturn(ctx, Nil);
 		return;
 	}
 
 	if (listen(fd, 200) < 0) {
 		fprintf(stderr, "listen error\n");
+		close(fd);
 		coraReturn(ctx, Nil);
 		return;
 	}
@@ -119,12 +126,12 @@ netDial(struct Cora *ctx, int label, Obj *R) {
 			break;
 		close(fd);
 	}
+	freeaddrinfo(result); /* No longer needed */
 	if (rp == NULL) {
 		fprintf(stderr, "Could not connect\n");
 		coraReturn(ctx, Nil);
 		return;
 	}
-	freeaddrinfo(result); /* No longer needed */
 	setNonBlock(fd);
 
 	coraReturn(ctx, makeNumber(fd));
-- 
2.43.0


From 5cbd1df60690a13400db95dad6e98e8378b84403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 24/63] fix: / divides the numbers, not their representation

primDiv, primAdd and primSub still worked on tagged integers: (/ 4 2) was 1.
---
 src/runtime.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 3192814..5d6feea 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -890,7 +890,8 @@ primLT(Obj x, Obj y) {
 Obj
 primDiv(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return makeNumber(x / y);
+		assert(fixnum(y) != 0);
+		return makeNumber(fixnum(x) / fixnum(y));
 	} else {
 		// TODO
 		assert(false);
@@ -900,7 +901,7 @@ primDiv(Obj x, Obj y) {
 Obj
 primAdd(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return x + y;
+		return makeNumber(fixnum(x) + fixnum(y));
 	} else {
 		// TODO
 		assert(false);
@@ -946,7 +947,7 @@ primIsCons(Obj x) {
 Obj
 primSub(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return x - y;
+		return makeNumber(fixnum(x) - fixnum(y));
 	} else {
 		// TODO
 		assert(false);
-- 
2.43.0


From 651efb80fbc4e3a1521cf5e2abacf2e5de26162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 25/63] fix: the toplevel code of a file has a stack frame of
 its own

entry() ran it in the frame of whoever loaded the file, so a third local
variable kept across a call was overwritten by the frame of the callee.
init.c and lib/toc.c are regenerated.
---
 init.c       | 2925 +++++++++++++------------
 lib/toc.c    | 5962 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |   12 +-
 3 files changed, 4481 insertions(+), 4418 deletions(-)

diff --git a/init.c b/init.c
index e45583b..f3fc1fc 100644
--- a/init.c
+++ b/init.c
@@ -266,323 +266,322 @@ __symbolTable[159] = bindSymbol(co, intern("caar"));
 __symbolTable[160] = bindSymbol(co, intern("cadr"));
 __symbolTable[161] = bindSymbol(co, intern("null?"));
 addPackage(co, packageID, __symbolTable);
-co->ctx.fn = clofun95;
-co->ctx.label = 0;
+coraCall0(co, makeNative(co->gc, 1, clofun95, 0, 0));
 }
 
 static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512485_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512488_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512491_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512494_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512497_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512501_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512506_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512510_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512518_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512520_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512525_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3512543_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj _3512546_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj _3512549_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj _3512552_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj _3512555_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj _3512559_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj _3512564_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj _3512568_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3512576_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3512578_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3512583_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj _3513005_37= co->res;
-Obj _3513011_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513023_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513024_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513025_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513024_37);
-Obj _3513026_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513025_37);
-Obj _3513027_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513028_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513027_37);
-Obj _3513029_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513028_37);
-Obj _3513030_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513031_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513030_37);
-Obj _3513032_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513031_37);
-Obj _3513033_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513034_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513033_37);
-Obj _3513035_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513034_37);
-Obj _3513036_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513037_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513036_37);
-Obj _3513038_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513037_37);
-Obj _3513039_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513040_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513039_37);
-Obj _3513041_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513040_37);
-Obj _3513042_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513043_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513042_37);
-Obj _3513044_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513043_37);
-Obj _3513045_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513046_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513045_37);
-Obj _3513047_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513046_37);
-Obj _3513048_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513049_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513048_37);
-Obj _3513050_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513049_37);
-Obj _3513051_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513052_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513051_37);
-Obj _3513053_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513052_37);
-Obj _3513054_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513055_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513054_37);
-Obj _3513056_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513055_37);
-Obj _3513057_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513058_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513057_37);
-Obj _3513059_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513058_37);
-Obj _3513060_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513061_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513060_37);
-Obj _3513062_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513061_37);
-Obj _3513063_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513064_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513063_37);
-Obj _3513065_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513064_37);
-Obj _3513066_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513067_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513066_37);
-Obj _3513068_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513067_37);
-Obj _3513069_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513070_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513069_37);
-Obj _3513071_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513070_37);
-Obj _3513072_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513073_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513072_37);
-Obj _3513074_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513073_37);
-Obj _3513075_37 = makeCons(co->gc, _3513074_37, Nil);
-Obj _3513076_37 = makeCons(co->gc, _3513071_37, _3513075_37);
-Obj _3513077_37 = makeCons(co->gc, _3513068_37, _3513076_37);
-Obj _3513078_37 = makeCons(co->gc, _3513065_37, _3513077_37);
-Obj _3513079_37 = makeCons(co->gc, _3513062_37, _3513078_37);
-Obj _3513080_37 = makeCons(co->gc, _3513059_37, _3513079_37);
-Obj _3513081_37 = makeCons(co->gc, _3513056_37, _3513080_37);
-Obj _3513082_37 = makeCons(co->gc, _3513053_37, _3513081_37);
-Obj _3513083_37 = makeCons(co->gc, _3513050_37, _3513082_37);
-Obj _3513084_37 = makeCons(co->gc, _3513047_37, _3513083_37);
-Obj _3513085_37 = makeCons(co->gc, _3513044_37, _3513084_37);
-Obj _3513086_37 = makeCons(co->gc, _3513041_37, _3513085_37);
-Obj _3513087_37 = makeCons(co->gc, _3513038_37, _3513086_37);
-Obj _3513088_37 = makeCons(co->gc, _3513035_37, _3513087_37);
-Obj _3513089_37 = makeCons(co->gc, _3513032_37, _3513088_37);
-Obj _3513090_37 = makeCons(co->gc, _3513029_37, _3513089_37);
-Obj _3513091_37 = makeCons(co->gc, _3513026_37, _3513090_37);
-Obj _3513092_37 = primSet(co, getBinding(co, packageID, 69).name, _3513091_37);
-Obj _3513107_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513111_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513289_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513290_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513291_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513290_37);
-Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513291_37);
-Obj _3513293_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513292_37);
-Obj _3513294_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513293_37);
-Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513294_37);
-Obj _3513296_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513295_37);
-Obj _3513297_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513296_37);
-Obj _3513298_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513297_37);
-Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513298_37);
-Obj _3513300_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513299_37);
-Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513300_37);
-Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513301_37);
-Obj _3513303_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513302_37);
-Obj _3513304_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513303_37);
-Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513304_37);
-Obj _3513306_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513305_37);
-Obj _3513307_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513306_37);
-Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513307_37);
-Obj _3513309_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513308_37);
-Obj _3513310_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513309_37);
-Obj _3513311_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513310_37);
-Obj _3513312_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513311_37);
-Obj _3513313_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513312_37);
-Obj _3513314_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513313_37);
-Obj _3513315_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513314_37);
-Obj _3513316_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513315_37);
-Obj _3513317_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513316_37);
-Obj _3513318_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513317_37);
-Obj _3513319_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513318_37);
-Obj _3513320_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513319_37);
-Obj _3513321_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513320_37);
-Obj _3513322_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513321_37);
-Obj _3513323_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513322_37);
-Obj _3513324_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513323_37);
-Obj _3513325_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513324_37);
-Obj _3513326_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513325_37);
-Obj _3513327_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513326_37);
-Obj _3513328_37 = primSet(co, getBinding(co, packageID, 53).name, _3513327_37);
-Obj _3513329_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513330_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513331_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513332_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513333_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513334_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513335_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513336_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513337_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513338_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513339_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513340_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513341_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513342_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513343_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513344_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513345_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513346_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513347_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513348_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513349_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513350_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513351_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513352_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3513353_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513354_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513355_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513356_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513357_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3513358_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3513359_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3513360_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3513361_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513362_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3513363_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513364_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513365_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3513366_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3513367_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3513367_37);
+Obj _3513063_37= co->res;
+Obj _3513069_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3513081_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj _3513082_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3513083_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513082_37);
+Obj _3513084_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513083_37);
+Obj _3513085_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3513086_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513085_37);
+Obj _3513087_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513086_37);
+Obj _3513088_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3513089_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513088_37);
+Obj _3513090_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513089_37);
+Obj _3513091_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3513092_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513091_37);
+Obj _3513093_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513092_37);
+Obj _3513094_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3513095_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513094_37);
+Obj _3513096_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513095_37);
+Obj _3513097_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3513098_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513097_37);
+Obj _3513099_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513098_37);
+Obj _3513100_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3513101_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513100_37);
+Obj _3513102_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513101_37);
+Obj _3513103_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3513104_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513103_37);
+Obj _3513105_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513104_37);
+Obj _3513106_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3513107_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513106_37);
+Obj _3513108_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513107_37);
+Obj _3513109_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3513110_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513109_37);
+Obj _3513111_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513110_37);
+Obj _3513112_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3513113_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513112_37);
+Obj _3513114_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513113_37);
+Obj _3513115_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3513116_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513115_37);
+Obj _3513117_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513116_37);
+Obj _3513118_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3513119_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513118_37);
+Obj _3513120_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513119_37);
+Obj _3513121_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3513122_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513121_37);
+Obj _3513123_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513122_37);
+Obj _3513124_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3513125_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513124_37);
+Obj _3513126_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513125_37);
+Obj _3513127_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3513128_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513127_37);
+Obj _3513129_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513128_37);
+Obj _3513130_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3513131_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513130_37);
+Obj _3513132_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513131_37);
+Obj _3513133_37 = makeCons(co->gc, _3513132_37, Nil);
+Obj _3513134_37 = makeCons(co->gc, _3513129_37, _3513133_37);
+Obj _3513135_37 = makeCons(co->gc, _3513126_37, _3513134_37);
+Obj _3513136_37 = makeCons(co->gc, _3513123_37, _3513135_37);
+Obj _3513137_37 = makeCons(co->gc, _3513120_37, _3513136_37);
+Obj _3513138_37 = makeCons(co->gc, _3513117_37, _3513137_37);
+Obj _3513139_37 = makeCons(co->gc, _3513114_37, _3513138_37);
+Obj _3513140_37 = makeCons(co->gc, _3513111_37, _3513139_37);
+Obj _3513141_37 = makeCons(co->gc, _3513108_37, _3513140_37);
+Obj _3513142_37 = makeCons(co->gc, _3513105_37, _3513141_37);
+Obj _3513143_37 = makeCons(co->gc, _3513102_37, _3513142_37);
+Obj _3513144_37 = makeCons(co->gc, _3513099_37, _3513143_37);
+Obj _3513145_37 = makeCons(co->gc, _3513096_37, _3513144_37);
+Obj _3513146_37 = makeCons(co->gc, _3513093_37, _3513145_37);
+Obj _3513147_37 = makeCons(co->gc, _3513090_37, _3513146_37);
+Obj _3513148_37 = makeCons(co->gc, _3513087_37, _3513147_37);
+Obj _3513149_37 = makeCons(co->gc, _3513084_37, _3513148_37);
+Obj _3513150_37 = primSet(co, getBinding(co, packageID, 69).name, _3513149_37);
+Obj _3513165_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj _3513169_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj _3513347_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj _3513348_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj _3513349_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513348_37);
+Obj _3513350_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513349_37);
+Obj _3513351_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513350_37);
+Obj _3513352_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513351_37);
+Obj _3513353_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513352_37);
+Obj _3513354_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513353_37);
+Obj _3513355_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513354_37);
+Obj _3513356_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513355_37);
+Obj _3513357_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513356_37);
+Obj _3513358_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513357_37);
+Obj _3513359_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513358_37);
+Obj _3513360_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513359_37);
+Obj _3513361_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513360_37);
+Obj _3513362_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513361_37);
+Obj _3513363_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513362_37);
+Obj _3513364_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513363_37);
+Obj _3513365_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513364_37);
+Obj _3513366_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513365_37);
+Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513366_37);
+Obj _3513368_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513367_37);
+Obj _3513369_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513368_37);
+Obj _3513370_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513369_37);
+Obj _3513371_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513370_37);
+Obj _3513372_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513371_37);
+Obj _3513373_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513372_37);
+Obj _3513374_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513373_37);
+Obj _3513375_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513374_37);
+Obj _3513376_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513375_37);
+Obj _3513377_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513376_37);
+Obj _3513378_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513377_37);
+Obj _3513379_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513378_37);
+Obj _3513380_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513379_37);
+Obj _3513381_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513380_37);
+Obj _3513382_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513381_37);
+Obj _3513383_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513382_37);
+Obj _3513384_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513383_37);
+Obj _3513385_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513384_37);
+Obj _3513386_37 = primSet(co, getBinding(co, packageID, 53).name, _3513385_37);
+Obj _3513387_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj _3513388_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj _3513389_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj _3513390_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj _3513391_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj _3513392_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj _3513393_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj _3513394_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj _3513395_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj _3513396_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj _3513397_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj _3513398_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj _3513399_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj _3513400_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj _3513401_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj _3513402_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj _3513403_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj _3513404_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj _3513405_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj _3513406_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj _3513407_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj _3513408_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj _3513409_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj _3513410_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj _3513411_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj _3513412_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj _3513413_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj _3513414_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj _3513415_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj _3513416_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj _3513417_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj _3513418_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj _3513419_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj _3513420_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj _3513421_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj _3513422_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj _3513423_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj _3513424_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj _3513425_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, _3513425_37);
 return;
 }
 case 2:
 {
-Obj _3512955_37= co->res;
-Obj _3512984_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3512985_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3513013_37= co->res;
+Obj _3513042_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj _3513043_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512938_37= co->res;
-Obj _3512952_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3512996_37= co->res;
+Obj _3513010_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512916_37= co->res;
-Obj _3512936_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj _3512974_37= co->res;
+Obj _3512994_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512885_37= co->res;
-Obj _3512886_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512887_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512890_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512914_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj _3512943_37= co->res;
+Obj _3512944_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj _3512945_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj _3512948_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj _3512972_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512777_37= co->res;
-Obj _3512829_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512830_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512835_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512839_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512840_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512848_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512849_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512855_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512866_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512872_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj _3512835_37= co->res;
+Obj _3512887_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj _3512888_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj _3512893_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj _3512897_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj _3512898_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj _3512906_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj _3512907_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3512913_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3512924_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj _3512930_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512672_37= co->res;
-Obj _3512694_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512727_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512740_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512762_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512776_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj _3512730_37= co->res;
+Obj _3512752_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj _3512785_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj _3512798_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj _3512820_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj _3512834_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512657_37= co->res;
-Obj _3512660_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512670_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj _3512715_37= co->res;
+Obj _3512718_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj _3512728_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512643_37= co->res;
-Obj _3512655_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj _3512701_37= co->res;
+Obj _3512713_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512629_37= co->res;
-Obj _3512641_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj _3512687_37= co->res;
+Obj _3512699_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512615_37= co->res;
+Obj _3512673_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512593_37= co->res;
-Obj _3512598_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512601_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512613_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj _3512651_37= co->res;
+Obj _3512656_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj _3512659_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj _3512671_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512583_37= co->res;
+Obj _3512641_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512581_37= co->res;
+Obj _3512639_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512526_37= co->res;
-Obj _3512527_37 = primSet(co, getBinding(co, packageID, 149).name, _3512526_37);
-Obj _3512533_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512534_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512535_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3512536_37 = primGenSym(co);
-Obj _3512537_37 = primSet(co, getBinding(co, packageID, 145).name, _3512536_37);
-Obj _3512541_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512550_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512551_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512568_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512569_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3512580_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj _3512584_37= co->res;
+Obj _3512585_37 = primSet(co, getBinding(co, packageID, 149).name, _3512584_37);
+Obj _3512591_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj _3512592_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj _3512593_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj _3512594_37 = primGenSym(co);
+Obj _3512595_37 = primSet(co, getBinding(co, packageID, 145).name, _3512594_37);
+Obj _3512599_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj _3512608_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj _3512609_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj _3512626_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj _3512627_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj _3512638_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -594,67 +593,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512456_37 = R[1];
-Obj _3512457_37 = R[2];
-Obj _3512458_37 = R[3];
-Obj _3512459_37 = R[4];
-Obj _3512480_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512456_37, _3512457_37, _3512458_37, _3512459_37);
-R[1] = _3512459_37;
-R[2] = _3512480_37;
+Obj _3512514_37 = R[1];
+Obj _3512515_37 = R[2];
+Obj _3512516_37 = R[3];
+Obj _3512517_37 = R[4];
+Obj _3512538_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512514_37, _3512515_37, _3512516_37, _3512517_37);
+R[1] = _3512517_37;
+R[2] = _3512538_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512459_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512517_37);
 return;
 }
 case 1:
 {
-Obj _3513288_37= co->res;
-Obj _3512480_37 = R[1];
-if (True == _3513288_37) {
+Obj _3513346_37= co->res;
+Obj _3512538_37 = R[1];
+if (True == _3513346_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512480_37, True);
+coraCall1(co, _3512538_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512480_37, False);
+coraCall1(co, _3512538_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513287_37= co->res;
-Obj _3512459_37 = R[1];
-Obj _3512480_37 = R[2];
-if (True == _3513287_37) {
+Obj _3513345_37= co->res;
+Obj _3512517_37 = R[1];
+Obj _3512538_37 = R[2];
+if (True == _3513345_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512480_37, True);
+coraCall1(co, _3512538_37, True);
 return;
 } else {
-R[1] = _3512480_37;
+R[1] = _3512538_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512459_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512517_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513285_37= co->res;
-Obj _3512459_37 = R[1];
-Obj _3512480_37 = R[2];
-if (True == _3513285_37) {
+Obj _3513343_37= co->res;
+Obj _3512517_37 = R[1];
+Obj _3512538_37 = R[2];
+if (True == _3513343_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512480_37, True);
+coraCall1(co, _3512538_37, True);
 return;
 } else {
-Obj _3513286_37 = primIsString(_3512459_37);
-if (True == _3513286_37) {
+Obj _3513344_37 = primIsString(_3512517_37);
+if (True == _3513344_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512480_37, True);
+coraCall1(co, _3512538_37, True);
 return;
 } else {
-R[1] = _3512459_37;
-R[2] = _3512480_37;
+R[1] = _3512517_37;
+R[2] = _3512538_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512459_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512517_37);
 return;
 }
 }
@@ -666,49 +665,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512481_37 = R[1];
-if (True == _3512481_37) {
+Obj _3512539_37 = R[1];
+if (True == _3512539_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512461_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513273_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513273_37) {
-Obj _3513274_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513275_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513274_37);
-if (True == _3513275_37) {
-Obj _3513276_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513277_37 = PRIM_ISCONS(_3513276_37);
-if (True == _3513277_37) {
-Obj _3513278_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513279_37 = PRIM_CAR(_3513278_37);
-Obj x = _3513279_37;
-Obj _3513280_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513281_37 = PRIM_CDR(_3513280_37);
-Obj _3513282_37 = PRIM_EQ(Nil, _3513281_37);
-if (True == _3513282_37) {
-Obj _3513283_37 = makeCons(co->gc, x, Nil);
-Obj _3513284_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513283_37);
-coraReturn(co, _3513284_37);
+Obj _3512519_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3513331_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3513331_37) {
+Obj _3513332_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3513333_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513332_37);
+if (True == _3513333_37) {
+Obj _3513334_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513335_37 = PRIM_ISCONS(_3513334_37);
+if (True == _3513335_37) {
+Obj _3513336_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513337_37 = PRIM_CAR(_3513336_37);
+Obj x = _3513337_37;
+Obj _3513338_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513339_37 = PRIM_CDR(_3513338_37);
+Obj _3513340_37 = PRIM_EQ(Nil, _3513339_37);
+if (True == _3513340_37) {
+Obj _3513341_37 = makeCons(co->gc, x, Nil);
+Obj _3513342_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513341_37);
+coraReturn(co, _3513342_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512461_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512461_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512461_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512461_37);
+coraCall0(co, _3512519_37);
 return;
 }
 }
@@ -720,37 +719,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513112_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513112_37) {
+Obj _3513170_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3513170_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3512463_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513251_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513251_37) {
-Obj _3513252_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513253_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513252_37);
-if (True == _3513253_37) {
-Obj _3513254_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513255_37 = PRIM_ISCONS(_3513254_37);
-if (True == _3513255_37) {
-Obj _3513256_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513257_37 = PRIM_CAR(_3513256_37);
-Obj args = _3513257_37;
-Obj _3513258_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513259_37 = PRIM_CDR(_3513258_37);
-Obj _3513260_37 = PRIM_ISCONS(_3513259_37);
-if (True == _3513260_37) {
-Obj _3513261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513262_37 = PRIM_CDR(_3513261_37);
-Obj _3513263_37 = PRIM_CAR(_3513262_37);
-Obj body = _3513263_37;
-Obj _3513264_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513265_37 = PRIM_CDR(_3513264_37);
-Obj _3513266_37 = PRIM_CDR(_3513265_37);
-Obj _3513267_37 = PRIM_EQ(Nil, _3513266_37);
-if (True == _3513267_37) {
+Obj _3512521_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513309_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513309_37) {
+Obj _3513310_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513311_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513310_37);
+if (True == _3513311_37) {
+Obj _3513312_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513313_37 = PRIM_ISCONS(_3513312_37);
+if (True == _3513313_37) {
+Obj _3513314_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513315_37 = PRIM_CAR(_3513314_37);
+Obj args = _3513315_37;
+Obj _3513316_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513317_37 = PRIM_CDR(_3513316_37);
+Obj _3513318_37 = PRIM_ISCONS(_3513317_37);
+if (True == _3513318_37) {
+Obj _3513319_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513320_37 = PRIM_CDR(_3513319_37);
+Obj _3513321_37 = PRIM_CAR(_3513320_37);
+Obj body = _3513321_37;
+Obj _3513322_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513323_37 = PRIM_CDR(_3513322_37);
+Obj _3513324_37 = PRIM_CDR(_3513323_37);
+Obj _3513325_37 = PRIM_EQ(Nil, _3513324_37);
+if (True == _3513325_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun92, 4, R);
@@ -758,35 +757,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), args, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512463_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512463_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512463_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512463_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512463_37);
+coraCall0(co, _3512521_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513114_37= co->res;
-if (True == _3513114_37) {
+Obj _3513172_37= co->res;
+if (True == _3513172_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -797,8 +796,8 @@ return;
 }
 case 2:
 {
-Obj _3513113_37= co->res;
-if (True == _3513113_37) {
+Obj _3513171_37= co->res;
+if (True == _3513171_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -809,22 +808,22 @@ return;
 }
 case 3:
 {
-Obj _3513269_37= co->res;
+Obj _3513327_37= co->res;
 Obj args = R[1];
-Obj _3513270_37 = makeCons(co->gc, _3513269_37, Nil);
-Obj _3513271_37 = makeCons(co->gc, args, _3513270_37);
-Obj _3513272_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513271_37);
-coraReturn(co, _3513272_37);
+Obj _3513328_37 = makeCons(co->gc, _3513327_37, Nil);
+Obj _3513329_37 = makeCons(co->gc, args, _3513328_37);
+Obj _3513330_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513329_37);
+coraReturn(co, _3513330_37);
 return;
 }
 case 4:
 {
-Obj _3513268_37= co->res;
+Obj _3513326_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513268_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513326_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
 return;
 }
 }
@@ -834,132 +833,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512464_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513207_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513207_37) {
-Obj _3513208_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513209_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513208_37);
-if (True == _3513209_37) {
-Obj _3513210_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513211_37 = PRIM_ISCONS(_3513210_37);
-if (True == _3513211_37) {
-Obj _3513212_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513213_37 = PRIM_CAR(_3513212_37);
-Obj _3513214_37 = PRIM_ISCONS(_3513213_37);
-if (True == _3513214_37) {
-Obj _3513215_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513216_37 = PRIM_CAR(_3513215_37);
-Obj _3513217_37 = PRIM_CAR(_3513216_37);
-Obj _3513218_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513217_37);
-if (True == _3513218_37) {
-Obj _3513219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513220_37 = PRIM_CAR(_3513219_37);
-Obj _3513221_37 = PRIM_CDR(_3513220_37);
-Obj _3513222_37 = PRIM_ISCONS(_3513221_37);
-if (True == _3513222_37) {
-Obj _3513223_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513224_37 = PRIM_CAR(_3513223_37);
-Obj _3513225_37 = PRIM_CDR(_3513224_37);
-Obj _3513226_37 = PRIM_CAR(_3513225_37);
-Obj pkg = _3513226_37;
-Obj _3513227_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513228_37 = PRIM_CAR(_3513227_37);
-Obj _3513229_37 = PRIM_CDR(_3513228_37);
-Obj _3513230_37 = PRIM_CDR(_3513229_37);
-Obj _3513231_37 = PRIM_EQ(Nil, _3513230_37);
-if (True == _3513231_37) {
-Obj _3513232_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513233_37 = PRIM_CDR(_3513232_37);
-Obj _3513234_37 = PRIM_ISCONS(_3513233_37);
-if (True == _3513234_37) {
-Obj _3513235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513236_37 = PRIM_CDR(_3513235_37);
-Obj _3513237_37 = PRIM_CAR(_3513236_37);
-Obj y = _3513237_37;
-Obj _3513238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513239_37 = PRIM_CDR(_3513238_37);
-Obj _3513240_37 = PRIM_CDR(_3513239_37);
-Obj _3513241_37 = PRIM_EQ(Nil, _3513240_37);
-if (True == _3513241_37) {
-Obj _3513242_37 = primIsString(pkg);
-if (True == _3513242_37) {
-Obj _3513243_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513244_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513243_37);
+Obj _3512522_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513265_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513265_37) {
+Obj _3513266_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513267_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513266_37);
+if (True == _3513267_37) {
+Obj _3513268_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513269_37 = PRIM_ISCONS(_3513268_37);
+if (True == _3513269_37) {
+Obj _3513270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513271_37 = PRIM_CAR(_3513270_37);
+Obj _3513272_37 = PRIM_ISCONS(_3513271_37);
+if (True == _3513272_37) {
+Obj _3513273_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513274_37 = PRIM_CAR(_3513273_37);
+Obj _3513275_37 = PRIM_CAR(_3513274_37);
+Obj _3513276_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513275_37);
+if (True == _3513276_37) {
+Obj _3513277_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513278_37 = PRIM_CAR(_3513277_37);
+Obj _3513279_37 = PRIM_CDR(_3513278_37);
+Obj _3513280_37 = PRIM_ISCONS(_3513279_37);
+if (True == _3513280_37) {
+Obj _3513281_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513282_37 = PRIM_CAR(_3513281_37);
+Obj _3513283_37 = PRIM_CDR(_3513282_37);
+Obj _3513284_37 = PRIM_CAR(_3513283_37);
+Obj pkg = _3513284_37;
+Obj _3513285_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513286_37 = PRIM_CAR(_3513285_37);
+Obj _3513287_37 = PRIM_CDR(_3513286_37);
+Obj _3513288_37 = PRIM_CDR(_3513287_37);
+Obj _3513289_37 = PRIM_EQ(Nil, _3513288_37);
+if (True == _3513289_37) {
+Obj _3513290_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513291_37 = PRIM_CDR(_3513290_37);
+Obj _3513292_37 = PRIM_ISCONS(_3513291_37);
+if (True == _3513292_37) {
+Obj _3513293_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513294_37 = PRIM_CDR(_3513293_37);
+Obj _3513295_37 = PRIM_CAR(_3513294_37);
+Obj y = _3513295_37;
+Obj _3513296_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513297_37 = PRIM_CDR(_3513296_37);
+Obj _3513298_37 = PRIM_CDR(_3513297_37);
+Obj _3513299_37 = PRIM_EQ(Nil, _3513298_37);
+if (True == _3513299_37) {
+Obj _3513300_37 = primIsString(pkg);
+if (True == _3513300_37) {
+Obj _3513301_37 = makeCons(co->gc, pkg, Nil);
+Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513301_37);
 R[1] = pkg;
 R[2] = y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513244_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513302_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512464_37);
+coraCall0(co, _3512522_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513247_37= co->res;
-Obj _3513245_37 = R[1];
-Obj _3513248_37 = makeCons(co->gc, _3513247_37, Nil);
-Obj _3513249_37 = makeCons(co->gc, _3513245_37, _3513248_37);
-Obj _3513250_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513249_37);
-coraReturn(co, _3513250_37);
+Obj _3513305_37= co->res;
+Obj _3513303_37 = R[1];
+Obj _3513306_37 = makeCons(co->gc, _3513305_37, Nil);
+Obj _3513307_37 = makeCons(co->gc, _3513303_37, _3513306_37);
+Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513307_37);
+coraReturn(co, _3513308_37);
 return;
 }
 case 2:
 {
-Obj _3513245_37= co->res;
+Obj _3513303_37= co->res;
 Obj pkg = R[1];
 Obj y = R[2];
-Obj _3513246_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513245_37;
+Obj _3513304_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
+R[1] = _3513303_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513246_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513304_37, y);
 return;
 }
 }
@@ -969,34 +968,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512465_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513199_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513199_37) {
-Obj _3513200_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513200_37;
-Obj _3513201_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513201_37;
-Obj _3512482_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512465_37);
-Obj _3513205_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
-if (True == _3513205_37) {
+Obj _3512523_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513257_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513257_37) {
+Obj _3513258_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3513258_37;
+Obj _3513259_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3513259_37;
+Obj _3512540_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512523_37);
+Obj _3513263_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
+if (True == _3513263_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512482_37, True);
+coraCall1(co, _3512540_37, True);
 return;
 } else {
-Obj _3513206_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
-if (True == _3513206_37) {
+Obj _3513264_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
+if (True == _3513264_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512482_37, True);
+coraCall1(co, _3512540_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512482_37, False);
+coraCall1(co, _3512540_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512465_37);
+coraCall0(co, _3512523_37);
 return;
 }
 }
@@ -1007,8 +1006,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512483_37 = R[1];
-if (True == _3512483_37) {
+Obj _3512541_37 = R[1];
+if (True == _3512541_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1020,16 +1019,16 @@ return;
 }
 case 1:
 {
-Obj _3513203_37= co->res;
-Obj _3513204_37 = makeCons(co->gc, closureRef(R[0], 0), _3513203_37);
-coraReturn(co, _3513204_37);
+Obj _3513261_37= co->res;
+Obj _3513262_37 = makeCons(co->gc, closureRef(R[0], 0), _3513261_37);
+coraReturn(co, _3513262_37);
 return;
 }
 case 2:
 {
-Obj _3513202_37= co->res;
+Obj _3513260_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513202_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513260_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1039,42 +1038,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512466_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513166_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513166_37) {
-Obj _3513167_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513168_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513167_37);
-if (True == _3513168_37) {
-Obj _3513169_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513170_37 = PRIM_ISCONS(_3513169_37);
-if (True == _3513170_37) {
-Obj _3513171_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513172_37 = PRIM_CAR(_3513171_37);
-Obj a = _3513172_37;
-Obj _3513173_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513174_37 = PRIM_CDR(_3513173_37);
-Obj _3513175_37 = PRIM_ISCONS(_3513174_37);
-if (True == _3513175_37) {
-Obj _3513176_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513177_37 = PRIM_CDR(_3513176_37);
-Obj _3513178_37 = PRIM_CAR(_3513177_37);
-Obj b = _3513178_37;
-Obj _3513179_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513180_37 = PRIM_CDR(_3513179_37);
-Obj _3513181_37 = PRIM_CDR(_3513180_37);
-Obj _3513182_37 = PRIM_ISCONS(_3513181_37);
-if (True == _3513182_37) {
-Obj _3513183_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513184_37 = PRIM_CDR(_3513183_37);
-Obj _3513185_37 = PRIM_CDR(_3513184_37);
-Obj _3513186_37 = PRIM_CAR(_3513185_37);
-Obj c = _3513186_37;
-Obj _3513187_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513188_37 = PRIM_CDR(_3513187_37);
-Obj _3513189_37 = PRIM_CDR(_3513188_37);
-Obj _3513190_37 = PRIM_CDR(_3513189_37);
-Obj _3513191_37 = PRIM_EQ(Nil, _3513190_37);
-if (True == _3513191_37) {
+Obj _3512524_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513224_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513224_37) {
+Obj _3513225_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513226_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513225_37);
+if (True == _3513226_37) {
+Obj _3513227_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513228_37 = PRIM_ISCONS(_3513227_37);
+if (True == _3513228_37) {
+Obj _3513229_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513230_37 = PRIM_CAR(_3513229_37);
+Obj a = _3513230_37;
+Obj _3513231_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513232_37 = PRIM_CDR(_3513231_37);
+Obj _3513233_37 = PRIM_ISCONS(_3513232_37);
+if (True == _3513233_37) {
+Obj _3513234_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513235_37 = PRIM_CDR(_3513234_37);
+Obj _3513236_37 = PRIM_CAR(_3513235_37);
+Obj b = _3513236_37;
+Obj _3513237_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513238_37 = PRIM_CDR(_3513237_37);
+Obj _3513239_37 = PRIM_CDR(_3513238_37);
+Obj _3513240_37 = PRIM_ISCONS(_3513239_37);
+if (True == _3513240_37) {
+Obj _3513241_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513242_37 = PRIM_CDR(_3513241_37);
+Obj _3513243_37 = PRIM_CDR(_3513242_37);
+Obj _3513244_37 = PRIM_CAR(_3513243_37);
+Obj c = _3513244_37;
+Obj _3513245_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513246_37 = PRIM_CDR(_3513245_37);
+Obj _3513247_37 = PRIM_CDR(_3513246_37);
+Obj _3513248_37 = PRIM_CDR(_3513247_37);
+Obj _3513249_37 = PRIM_EQ(Nil, _3513248_37);
+if (True == _3513249_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun88, 2, R);
@@ -1082,57 +1081,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512466_37);
+coraCall0(co, _3512524_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512466_37);
+coraCall0(co, _3512524_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512466_37);
+coraCall0(co, _3512524_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512466_37);
+coraCall0(co, _3512524_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512466_37);
+coraCall0(co, _3512524_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512466_37);
+coraCall0(co, _3512524_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513194_37= co->res;
-Obj _3513192_37 = R[1];
+Obj _3513252_37= co->res;
+Obj _3513250_37 = R[1];
 Obj a = R[2];
-Obj _3513195_37 = makeCons(co->gc, _3513194_37, Nil);
-Obj _3513196_37 = makeCons(co->gc, _3513192_37, _3513195_37);
-Obj _3513197_37 = makeCons(co->gc, a, _3513196_37);
-Obj _3513198_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513197_37);
-coraReturn(co, _3513198_37);
+Obj _3513253_37 = makeCons(co->gc, _3513252_37, Nil);
+Obj _3513254_37 = makeCons(co->gc, _3513250_37, _3513253_37);
+Obj _3513255_37 = makeCons(co->gc, a, _3513254_37);
+Obj _3513256_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513255_37);
+coraReturn(co, _3513256_37);
 return;
 }
 case 2:
 {
-Obj _3513192_37= co->res;
+Obj _3513250_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3513193_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513192_37;
+Obj _3513251_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3513250_37;
 R[2] = a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513193_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513251_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
 return;
 }
 }
@@ -1142,73 +1141,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512467_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513140_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513140_37) {
-Obj _3513141_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513142_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513141_37);
-if (True == _3513142_37) {
-Obj _3513143_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513144_37 = PRIM_ISCONS(_3513143_37);
-if (True == _3513144_37) {
-Obj _3513145_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513146_37 = PRIM_CAR(_3513145_37);
-Obj path = _3513146_37;
-Obj _3513147_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513148_37 = PRIM_CDR(_3513147_37);
-Obj _3513149_37 = PRIM_ISCONS(_3513148_37);
-if (True == _3513149_37) {
-Obj _3513150_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513151_37 = PRIM_CDR(_3513150_37);
-Obj _3513152_37 = PRIM_CAR(_3513151_37);
-Obj import = _3513152_37;
-Obj _3513153_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513154_37 = PRIM_CDR(_3513153_37);
-Obj _3513155_37 = PRIM_CDR(_3513154_37);
-Obj _3513156_37 = PRIM_ISCONS(_3513155_37);
-if (True == _3513156_37) {
-Obj _3513157_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513158_37 = PRIM_CDR(_3513157_37);
-Obj _3513159_37 = PRIM_CDR(_3513158_37);
-Obj _3513160_37 = PRIM_CAR(_3513159_37);
-Obj body = _3513160_37;
-Obj _3513161_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513162_37 = PRIM_CDR(_3513161_37);
-Obj _3513163_37 = PRIM_CDR(_3513162_37);
-Obj _3513164_37 = PRIM_CDR(_3513163_37);
-Obj _3513165_37 = PRIM_EQ(Nil, _3513164_37);
-if (True == _3513165_37) {
+Obj _3512525_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513198_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3513198_37) {
+Obj _3513199_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3513200_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513199_37);
+if (True == _3513200_37) {
+Obj _3513201_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513202_37 = PRIM_ISCONS(_3513201_37);
+if (True == _3513202_37) {
+Obj _3513203_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513204_37 = PRIM_CAR(_3513203_37);
+Obj path = _3513204_37;
+Obj _3513205_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513206_37 = PRIM_CDR(_3513205_37);
+Obj _3513207_37 = PRIM_ISCONS(_3513206_37);
+if (True == _3513207_37) {
+Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513209_37 = PRIM_CDR(_3513208_37);
+Obj _3513210_37 = PRIM_CAR(_3513209_37);
+Obj import = _3513210_37;
+Obj _3513211_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513212_37 = PRIM_CDR(_3513211_37);
+Obj _3513213_37 = PRIM_CDR(_3513212_37);
+Obj _3513214_37 = PRIM_ISCONS(_3513213_37);
+if (True == _3513214_37) {
+Obj _3513215_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513216_37 = PRIM_CDR(_3513215_37);
+Obj _3513217_37 = PRIM_CDR(_3513216_37);
+Obj _3513218_37 = PRIM_CAR(_3513217_37);
+Obj body = _3513218_37;
+Obj _3513219_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513220_37 = PRIM_CDR(_3513219_37);
+Obj _3513221_37 = PRIM_CDR(_3513220_37);
+Obj _3513222_37 = PRIM_CDR(_3513221_37);
+Obj _3513223_37 = PRIM_EQ(Nil, _3513222_37);
+if (True == _3513223_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), path, import, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512467_37);
+coraCall0(co, _3512525_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512467_37);
+coraCall0(co, _3512525_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512467_37);
+coraCall0(co, _3512525_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512467_37);
+coraCall0(co, _3512525_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512467_37);
+coraCall0(co, _3512525_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512467_37);
+coraCall0(co, _3512525_37);
 return;
 }
 }
@@ -1219,79 +1218,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512468_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513116_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513116_37) {
-Obj _3513117_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513118_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513117_37);
-if (True == _3513118_37) {
-Obj _3513119_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513120_37 = PRIM_ISCONS(_3513119_37);
-if (True == _3513120_37) {
-Obj _3513121_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513122_37 = PRIM_CAR(_3513121_37);
-Obj var = _3513122_37;
-Obj _3513123_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513124_37 = PRIM_CDR(_3513123_37);
-Obj _3513125_37 = PRIM_ISCONS(_3513124_37);
-if (True == _3513125_37) {
-Obj _3513126_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513127_37 = PRIM_CDR(_3513126_37);
-Obj _3513128_37 = PRIM_CAR(_3513127_37);
-Obj val = _3513128_37;
-Obj _3513129_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513130_37 = PRIM_CDR(_3513129_37);
-Obj _3513131_37 = PRIM_CDR(_3513130_37);
-Obj _3513132_37 = PRIM_EQ(Nil, _3513131_37);
-if (True == _3513132_37) {
+Obj _3512526_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj _3513174_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513174_37) {
+Obj _3513175_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513176_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513175_37);
+if (True == _3513176_37) {
+Obj _3513177_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513178_37 = PRIM_ISCONS(_3513177_37);
+if (True == _3513178_37) {
+Obj _3513179_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513180_37 = PRIM_CAR(_3513179_37);
+Obj var = _3513180_37;
+Obj _3513181_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513182_37 = PRIM_CDR(_3513181_37);
+Obj _3513183_37 = PRIM_ISCONS(_3513182_37);
+if (True == _3513183_37) {
+Obj _3513184_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513185_37 = PRIM_CDR(_3513184_37);
+Obj _3513186_37 = PRIM_CAR(_3513185_37);
+Obj val = _3513186_37;
+Obj _3513187_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513188_37 = PRIM_CDR(_3513187_37);
+Obj _3513189_37 = PRIM_CDR(_3513188_37);
+Obj _3513190_37 = PRIM_EQ(Nil, _3513189_37);
+if (True == _3513190_37) {
 R[1] = val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512468_37);
+coraCall0(co, _3512526_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512468_37);
+coraCall0(co, _3512526_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512468_37);
+coraCall0(co, _3512526_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512468_37);
+coraCall0(co, _3512526_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512468_37);
+coraCall0(co, _3512526_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513136_37= co->res;
-Obj _3513135_37 = R[1];
-Obj _3513137_37 = makeCons(co->gc, _3513136_37, Nil);
-Obj _3513138_37 = makeCons(co->gc, _3513135_37, _3513137_37);
-Obj _3513139_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513138_37);
-coraReturn(co, _3513139_37);
+Obj _3513194_37= co->res;
+Obj _3513193_37 = R[1];
+Obj _3513195_37 = makeCons(co->gc, _3513194_37, Nil);
+Obj _3513196_37 = makeCons(co->gc, _3513193_37, _3513195_37);
+Obj _3513197_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513196_37);
+coraReturn(co, _3513197_37);
 return;
 }
 case 2:
 {
-Obj _3513133_37= co->res;
+Obj _3513191_37= co->res;
 Obj val = R[1];
-Obj var1 = _3513133_37;
-Obj _3513134_37 = makeCons(co->gc, var1, Nil);
-Obj _3513135_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513134_37);
-R[1] = _3513135_37;
+Obj var1 = _3513191_37;
+Obj _3513192_37 = makeCons(co->gc, var1, Nil);
+Obj _3513193_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513192_37);
+R[1] = _3513193_37;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
 return;
@@ -1309,9 +1308,9 @@ return;
 }
 case 1:
 {
-Obj _3513115_37= co->res;
+Obj _3513173_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513115_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513173_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1328,16 +1327,16 @@ return;
 }
 case 1:
 {
-Obj _3513109_37= co->res;
-Obj _3513110_37 = primNot(_3513109_37);
-coraReturn(co, _3513110_37);
+Obj _3513167_37= co->res;
+Obj _3513168_37 = primNot(_3513167_37);
+coraReturn(co, _3513168_37);
 return;
 }
 case 2:
 {
-Obj _3513108_37= co->res;
+Obj _3513166_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513108_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513166_37);
 return;
 }
 }
@@ -1347,44 +1346,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512451_37 = R[1];
-Obj _3512452_37 = R[2];
-Obj _3513093_37 = PRIM_EQ(Nil, _3512452_37);
-if (True == _3513093_37) {
+Obj _3512509_37 = R[1];
+Obj _3512510_37 = R[2];
+Obj _3513151_37 = PRIM_EQ(Nil, _3512510_37);
+if (True == _3513151_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512454_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512452_37, _3512451_37);
-Obj _3513097_37 = PRIM_ISCONS(_3512452_37);
-if (True == _3513097_37) {
-Obj _3513098_37 = PRIM_CAR(_3512452_37);
-Obj _3513099_37 = PRIM_ISCONS(_3513098_37);
-if (True == _3513099_37) {
-Obj _3513100_37 = PRIM_CAR(_3512452_37);
-Obj _3513101_37 = PRIM_CAR(_3513100_37);
-Obj x = _3513101_37;
-Obj _3513102_37 = PRIM_CAR(_3512452_37);
-Obj _3513103_37 = PRIM_CDR(_3513102_37);
-Obj y = _3513103_37;
-Obj _3513104_37 = PRIM_CDR(_3512452_37);
-Obj _3513105_37 = PRIM_EQ(_3512451_37, x);
-if (True == _3513105_37) {
-Obj _3513106_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513106_37);
+Obj _3512512_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512510_37, _3512509_37);
+Obj _3513155_37 = PRIM_ISCONS(_3512510_37);
+if (True == _3513155_37) {
+Obj _3513156_37 = PRIM_CAR(_3512510_37);
+Obj _3513157_37 = PRIM_ISCONS(_3513156_37);
+if (True == _3513157_37) {
+Obj _3513158_37 = PRIM_CAR(_3512510_37);
+Obj _3513159_37 = PRIM_CAR(_3513158_37);
+Obj x = _3513159_37;
+Obj _3513160_37 = PRIM_CAR(_3512510_37);
+Obj _3513161_37 = PRIM_CDR(_3513160_37);
+Obj y = _3513161_37;
+Obj _3513162_37 = PRIM_CDR(_3512510_37);
+Obj _3513163_37 = PRIM_EQ(_3512509_37, x);
+if (True == _3513163_37) {
+Obj _3513164_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3513164_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512454_37);
+coraCall0(co, _3512512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512454_37);
+coraCall0(co, _3512512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512454_37);
+coraCall0(co, _3512512_37);
 return;
 }
 }
@@ -1396,11 +1395,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513094_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513094_37) {
-Obj _3513095_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513096_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513096_37;
+Obj _3513152_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513152_37) {
+Obj _3513153_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513154_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3513154_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), y);
 return;
@@ -1417,24 +1416,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512446_37 = R[1];
-Obj _3512447_37 = R[2];
-Obj _3512448_37 = R[3];
-Obj _3513012_37 = PRIM_EQ(Nil, _3512448_37);
-if (True == _3513012_37) {
+Obj _3512504_37 = R[1];
+Obj _3512505_37 = R[2];
+Obj _3512506_37 = R[3];
+Obj _3513070_37 = PRIM_EQ(Nil, _3512506_37);
+if (True == _3513070_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512446_37, _3512447_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512504_37, _3512505_37);
 return;
 } else {
-Obj _3513013_37 = PRIM_ISCONS(_3512448_37);
-if (True == _3513013_37) {
-Obj _3513014_37 = PRIM_CAR(_3512448_37);
-Obj import = _3513014_37;
-Obj _3513015_37 = PRIM_CDR(_3512448_37);
-Obj more = _3513015_37;
+Obj _3513071_37 = PRIM_ISCONS(_3512506_37);
+if (True == _3513071_37) {
+Obj _3513072_37 = PRIM_CAR(_3512506_37);
+Obj import = _3513072_37;
+Obj _3513073_37 = PRIM_CDR(_3512506_37);
+Obj more = _3513073_37;
 R[1] = import;
-R[2] = _3512446_37;
-R[3] = _3512447_37;
+R[2] = _3512504_37;
+R[3] = _3512505_37;
 R[4] = more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, makeCString(co->gc, "#*ns-export*"));
@@ -1448,90 +1447,90 @@ return;
 }
 case 1:
 {
-Obj _3513022_37= co->res;
+Obj _3513080_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513022_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513080_37);
 return;
 }
 case 2:
 {
-Obj _3513021_37= co->res;
+Obj _3513079_37= co->res;
 Obj import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513021_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513079_37);
 return;
 }
 case 3:
 {
-Obj _3513020_37= co->res;
+Obj _3513078_37= co->res;
 Obj import = R[1];
 R[1] = import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513020_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513078_37);
 return;
 }
 case 4:
 {
-Obj _3513019_37= co->res;
+Obj _3513077_37= co->res;
 Obj import = R[1];
-Obj _3512446_37 = R[2];
-Obj _3512447_37 = R[3];
+Obj _3512504_37 = R[2];
+Obj _3512505_37 = R[3];
 Obj more = R[4];
-if (True == _3513019_37) {
+if (True == _3513077_37) {
 R[1] = import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512446_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512504_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512446_37, _3512447_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512504_37, _3512505_37, more);
 return;
 }
 }
 case 5:
 {
-Obj _3513018_37= co->res;
+Obj _3513076_37= co->res;
 Obj import = R[1];
-Obj _3512446_37 = R[2];
-Obj _3512447_37 = R[3];
+Obj _3512504_37 = R[2];
+Obj _3512505_37 = R[3];
 Obj more = R[4];
-Obj export = _3513018_37;
+Obj export = _3513076_37;
 R[1] = import;
-R[2] = _3512446_37;
-R[3] = _3512447_37;
+R[2] = _3512504_37;
+R[3] = _3512505_37;
 R[4] = more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512446_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512504_37, export);
 return;
 }
 case 6:
 {
-Obj _3513017_37= co->res;
+Obj _3513075_37= co->res;
 Obj import = R[1];
-Obj _3512446_37 = R[2];
-Obj _3512447_37 = R[3];
+Obj _3512504_37 = R[2];
+Obj _3512505_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512446_37;
-R[3] = _3512447_37;
+R[2] = _3512504_37;
+R[3] = _3512505_37;
 R[4] = more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513017_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513075_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3513016_37= co->res;
+Obj _3513074_37= co->res;
 Obj import = R[1];
-Obj _3512446_37 = R[2];
-Obj _3512447_37 = R[3];
+Obj _3512504_37 = R[2];
+Obj _3512505_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512446_37;
-R[3] = _3512447_37;
+R[2] = _3512504_37;
+R[3] = _3512505_37;
 R[4] = more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513016_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513074_37);
 return;
 }
 }
@@ -1543,8 +1542,8 @@ case 0:
 {
 Obj var = R[1];
 Obj ns = R[2];
-Obj _3513006_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3513006_37) {
+Obj _3513064_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
+if (True == _3513064_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1557,34 +1556,34 @@ return;
 }
 case 1:
 {
-Obj _3513010_37= co->res;
+Obj _3513068_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513010_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513068_37);
 return;
 }
 case 2:
 {
-Obj _3513009_37= co->res;
+Obj _3513067_37= co->res;
 Obj ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513009_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513067_37);
 return;
 }
 case 3:
 {
-Obj _3513008_37= co->res;
+Obj _3513066_37= co->res;
 Obj ns = R[1];
 R[1] = ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513008_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513066_37);
 return;
 }
 case 4:
 {
-Obj _3513007_37= co->res;
+Obj _3513065_37= co->res;
 Obj var = R[1];
 Obj ns = R[2];
-if (True == _3513007_37) {
+if (True == _3513065_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1609,26 +1608,26 @@ return;
 }
 case 1:
 {
-Obj _3512988_37= co->res;
+Obj _3513046_37= co->res;
 Obj path = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3512988_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, _3513046_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
 return;
 }
 case 2:
 {
-Obj _3512987_37= co->res;
+Obj _3513045_37= co->res;
 Obj path = R[1];
 R[1] = path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3512987_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3513045_37);
 return;
 }
 case 3:
 {
-Obj _3512986_37= co->res;
+Obj _3513044_37= co->res;
 Obj sexp = R[1];
-Obj path = _3512986_37;
+Obj path = _3513044_37;
 R[1] = path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
@@ -1644,41 +1643,41 @@ case 0:
 Obj import = R[1];
 Obj export = R[2];
 Obj body = R[3];
-Obj _3512989_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
+Obj _3513047_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
 R[1] = export;
 R[2] = body;
-R[3] = _3512989_37;
+R[3] = _3513047_37;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
 return;
 }
 case 1:
 {
-Obj _3512999_37= co->res;
-Obj _3512989_37 = R[1];
-Obj _3513000_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3512999_37);
-Obj _3513001_37 = makeCons(co->gc, _3513000_37, Nil);
-Obj _3513002_37 = makeCons(co->gc, _3512989_37, _3513001_37);
-Obj _3513003_37 = makeCons(co->gc, closureRef(R[0], 0), _3513002_37);
-Obj _3513004_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513003_37);
-coraReturn(co, _3513004_37);
+Obj _3513057_37= co->res;
+Obj _3513047_37 = R[1];
+Obj _3513058_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3513057_37);
+Obj _3513059_37 = makeCons(co->gc, _3513058_37, Nil);
+Obj _3513060_37 = makeCons(co->gc, _3513047_37, _3513059_37);
+Obj _3513061_37 = makeCons(co->gc, closureRef(R[0], 0), _3513060_37);
+Obj _3513062_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513061_37);
+coraReturn(co, _3513062_37);
 return;
 }
 case 2:
 {
-Obj _3512992_37= co->res;
+Obj _3513050_37= co->res;
 Obj export = R[1];
 Obj body = R[2];
-Obj _3512989_37 = R[3];
-Obj _3512993_37 = makeCons(co->gc, export, Nil);
-Obj _3512994_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3512993_37);
-Obj _3512995_37 = makeCons(co->gc, _3512994_37, Nil);
-Obj _3512996_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3512995_37);
-Obj _3512997_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512996_37);
-Obj _3512998_37 = makeCons(co->gc, _3512997_37, body);
-R[1] = _3512989_37;
+Obj _3513047_37 = R[3];
+Obj _3513051_37 = makeCons(co->gc, export, Nil);
+Obj _3513052_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3513051_37);
+Obj _3513053_37 = makeCons(co->gc, _3513052_37, Nil);
+Obj _3513054_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513053_37);
+Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513054_37);
+Obj _3513056_37 = makeCons(co->gc, _3513055_37, body);
+R[1] = _3513047_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512992_37, _3512998_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513050_37, _3513056_37);
 return;
 }
 }
@@ -1689,9 +1688,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj imp = R[1];
-Obj _3512990_37 = makeCons(co->gc, imp, Nil);
-Obj _3512991_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3512990_37);
-coraReturn(co, _3512991_37);
+Obj _3513048_37 = makeCons(co->gc, imp, Nil);
+Obj _3513049_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513048_37);
+coraReturn(co, _3513049_37);
 return;
 }
 }
@@ -1714,62 +1713,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512439_37 = R[1];
-Obj _3512440_37 = R[2];
-Obj _3512441_37 = R[3];
-Obj _3512442_37 = R[4];
-Obj _3512443_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512441_37, _3512439_37, _3512440_37, _3512442_37);
-Obj _3512966_37 = PRIM_ISCONS(_3512439_37);
-if (True == _3512966_37) {
-Obj _3512967_37 = PRIM_CAR(_3512439_37);
-Obj _3512968_37 = PRIM_ISCONS(_3512967_37);
-if (True == _3512968_37) {
-Obj _3512969_37 = PRIM_CAR(_3512439_37);
-Obj _3512970_37 = PRIM_CAR(_3512969_37);
-Obj _3512971_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3512970_37);
-if (True == _3512971_37) {
-Obj _3512972_37 = PRIM_CAR(_3512439_37);
-Obj _3512973_37 = PRIM_CDR(_3512972_37);
-Obj _3512974_37 = PRIM_ISCONS(_3512973_37);
-if (True == _3512974_37) {
-Obj _3512975_37 = PRIM_CAR(_3512439_37);
-Obj _3512976_37 = PRIM_CDR(_3512975_37);
-Obj _3512977_37 = PRIM_CAR(_3512976_37);
-Obj lib = _3512977_37;
-Obj _3512978_37 = PRIM_CAR(_3512439_37);
-Obj _3512979_37 = PRIM_CDR(_3512978_37);
-Obj _3512980_37 = PRIM_CDR(_3512979_37);
-Obj _3512981_37 = PRIM_EQ(Nil, _3512980_37);
-if (True == _3512981_37) {
-Obj _3512982_37 = PRIM_CDR(_3512439_37);
-Obj rest = _3512982_37;
-Obj _3512983_37 = makeCons(co->gc, lib, _3512440_37);
+Obj _3512497_37 = R[1];
+Obj _3512498_37 = R[2];
+Obj _3512499_37 = R[3];
+Obj _3512500_37 = R[4];
+Obj _3512501_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512499_37, _3512497_37, _3512498_37, _3512500_37);
+Obj _3513024_37 = PRIM_ISCONS(_3512497_37);
+if (True == _3513024_37) {
+Obj _3513025_37 = PRIM_CAR(_3512497_37);
+Obj _3513026_37 = PRIM_ISCONS(_3513025_37);
+if (True == _3513026_37) {
+Obj _3513027_37 = PRIM_CAR(_3512497_37);
+Obj _3513028_37 = PRIM_CAR(_3513027_37);
+Obj _3513029_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513028_37);
+if (True == _3513029_37) {
+Obj _3513030_37 = PRIM_CAR(_3512497_37);
+Obj _3513031_37 = PRIM_CDR(_3513030_37);
+Obj _3513032_37 = PRIM_ISCONS(_3513031_37);
+if (True == _3513032_37) {
+Obj _3513033_37 = PRIM_CAR(_3512497_37);
+Obj _3513034_37 = PRIM_CDR(_3513033_37);
+Obj _3513035_37 = PRIM_CAR(_3513034_37);
+Obj lib = _3513035_37;
+Obj _3513036_37 = PRIM_CAR(_3512497_37);
+Obj _3513037_37 = PRIM_CDR(_3513036_37);
+Obj _3513038_37 = PRIM_CDR(_3513037_37);
+Obj _3513039_37 = PRIM_EQ(Nil, _3513038_37);
+if (True == _3513039_37) {
+Obj _3513040_37 = PRIM_CDR(_3512497_37);
+Obj rest = _3513040_37;
+Obj _3513041_37 = makeCons(co->gc, lib, _3512498_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3512983_37, _3512441_37, _3512442_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3513041_37, _3512499_37, _3512500_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512443_37);
+coraCall0(co, _3512501_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512443_37);
+coraCall0(co, _3512501_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512443_37);
+coraCall0(co, _3512501_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512443_37);
+coraCall0(co, _3512501_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512443_37);
+coraCall0(co, _3512501_37);
 return;
 }
 }
@@ -1780,37 +1779,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512444_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3512957_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512957_37) {
-Obj _3512958_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512959_37 = PRIM_ISCONS(_3512958_37);
-if (True == _3512959_37) {
-Obj _3512960_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512961_37 = PRIM_CAR(_3512960_37);
-Obj _3512962_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3512961_37);
-if (True == _3512962_37) {
-Obj _3512963_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512964_37 = PRIM_CDR(_3512963_37);
-Obj more = _3512964_37;
-Obj _3512965_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3512965_37;
+Obj _3512502_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513015_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3513015_37) {
+Obj _3513016_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513017_37 = PRIM_ISCONS(_3513016_37);
+if (True == _3513017_37) {
+Obj _3513018_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513019_37 = PRIM_CAR(_3513018_37);
+Obj _3513020_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3513019_37);
+if (True == _3513020_37) {
+Obj _3513021_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513022_37 = PRIM_CDR(_3513021_37);
+Obj more = _3513022_37;
+Obj _3513023_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj rest = _3513023_37;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512502_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512502_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512502_37);
 return;
 }
 }
@@ -1827,9 +1826,9 @@ return;
 }
 case 1:
 {
-Obj _3512956_37= co->res;
+Obj _3513014_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3512956_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), _3513014_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1847,17 +1846,17 @@ return;
 }
 case 1:
 {
-Obj _3512954_37= co->res;
-Obj _3512953_37 = R[1];
+Obj _3513012_37= co->res;
+Obj _3513011_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3512953_37, _3512954_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3513011_37, _3513012_37);
 return;
 }
 case 2:
 {
-Obj _3512953_37= co->res;
+Obj _3513011_37= co->res;
 Obj exp = R[1];
-R[1] = _3512953_37;
+R[1] = _3513011_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
@@ -1879,57 +1878,57 @@ return;
 }
 case 1:
 {
-Obj _3512942_37= co->res;
-Obj _3512941_37 = R[1];
+Obj _3513000_37= co->res;
+Obj _3512999_37 = R[1];
 Obj fn = R[2];
-Obj _3512943_37 = makeCons(co->gc, _3512942_37, Nil);
-Obj _3512944_37 = makeCons(co->gc, _3512941_37, _3512943_37);
-Obj _3512945_37 = makeCons(co->gc, fn, _3512944_37);
-coraReturn(co, _3512945_37);
+Obj _3513001_37 = makeCons(co->gc, _3513000_37, Nil);
+Obj _3513002_37 = makeCons(co->gc, _3512999_37, _3513001_37);
+Obj _3513003_37 = makeCons(co->gc, fn, _3513002_37);
+coraReturn(co, _3513003_37);
 return;
 }
 case 2:
 {
-Obj _3512948_37= co->res;
-Obj _3512946_37 = R[1];
+Obj _3513006_37= co->res;
+Obj _3513004_37 = R[1];
 Obj fn = R[2];
-Obj _3512949_37 = makeCons(co->gc, _3512948_37, Nil);
-Obj _3512950_37 = makeCons(co->gc, _3512946_37, _3512949_37);
-Obj _3512951_37 = makeCons(co->gc, fn, _3512950_37);
-coraReturn(co, _3512951_37);
+Obj _3513007_37 = makeCons(co->gc, _3513006_37, Nil);
+Obj _3513008_37 = makeCons(co->gc, _3513004_37, _3513007_37);
+Obj _3513009_37 = makeCons(co->gc, fn, _3513008_37);
+coraReturn(co, _3513009_37);
 return;
 }
 case 3:
 {
-Obj _3512940_37= co->res;
+Obj _3512998_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
-if (True == _3512940_37) {
-Obj _3512941_37 = PRIM_CAR(arglist);
-R[1] = _3512941_37;
+if (True == _3512998_37) {
+Obj _3512999_37 = PRIM_CAR(arglist);
+R[1] = _3512999_37;
 R[2] = fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
 return;
 } else {
-Obj _3512946_37 = PRIM_CAR(arglist);
-Obj _3512947_37 = PRIM_CDR(arglist);
-R[1] = _3512946_37;
+Obj _3513004_37 = PRIM_CAR(arglist);
+Obj _3513005_37 = PRIM_CDR(arglist);
+R[1] = _3513004_37;
 R[2] = fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3512947_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3513005_37);
 return;
 }
 }
 case 4:
 {
-Obj _3512939_37= co->res;
+Obj _3512997_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
 R[1] = arglist;
 R[2] = fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512939_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512997_37);
 return;
 }
 }
@@ -1946,9 +1945,9 @@ return;
 }
 case 1:
 {
-Obj _3512937_37= co->res;
+Obj _3512995_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512937_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512995_37);
 return;
 }
 }
@@ -1958,50 +1957,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512434_37 = R[1];
-Obj _3512917_37 = primIsSymbol(_3512434_37);
-if (True == _3512917_37) {
-Obj _3512918_37 = makeCons(co->gc, _3512434_37, Nil);
-Obj _3512919_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512918_37);
-coraReturn(co, _3512919_37);
-return;
-} else {
-Obj _3512436_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512434_37);
-Obj _3512926_37 = PRIM_ISCONS(_3512434_37);
-if (True == _3512926_37) {
-Obj _3512927_37 = PRIM_CAR(_3512434_37);
-Obj _3512928_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512927_37);
-if (True == _3512928_37) {
-Obj _3512929_37 = PRIM_CDR(_3512434_37);
-Obj _3512930_37 = PRIM_ISCONS(_3512929_37);
-if (True == _3512930_37) {
-Obj _3512931_37 = PRIM_CDR(_3512434_37);
-Obj _3512932_37 = PRIM_CAR(_3512931_37);
-Obj x = _3512932_37;
-Obj _3512933_37 = PRIM_CDR(_3512434_37);
-Obj _3512934_37 = PRIM_CDR(_3512933_37);
-Obj _3512935_37 = PRIM_EQ(Nil, _3512934_37);
-if (True == _3512935_37) {
+Obj _3512492_37 = R[1];
+Obj _3512975_37 = primIsSymbol(_3512492_37);
+if (True == _3512975_37) {
+Obj _3512976_37 = makeCons(co->gc, _3512492_37, Nil);
+Obj _3512977_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512976_37);
+coraReturn(co, _3512977_37);
+return;
+} else {
+Obj _3512494_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512492_37);
+Obj _3512984_37 = PRIM_ISCONS(_3512492_37);
+if (True == _3512984_37) {
+Obj _3512985_37 = PRIM_CAR(_3512492_37);
+Obj _3512986_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512985_37);
+if (True == _3512986_37) {
+Obj _3512987_37 = PRIM_CDR(_3512492_37);
+Obj _3512988_37 = PRIM_ISCONS(_3512987_37);
+if (True == _3512988_37) {
+Obj _3512989_37 = PRIM_CDR(_3512492_37);
+Obj _3512990_37 = PRIM_CAR(_3512989_37);
+Obj x = _3512990_37;
+Obj _3512991_37 = PRIM_CDR(_3512492_37);
+Obj _3512992_37 = PRIM_CDR(_3512991_37);
+Obj _3512993_37 = PRIM_EQ(Nil, _3512992_37);
+if (True == _3512993_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512436_37);
+coraCall0(co, _3512494_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512436_37);
+coraCall0(co, _3512494_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512436_37);
+coraCall0(co, _3512494_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512436_37);
+coraCall0(co, _3512494_37);
 return;
 }
 }
@@ -2013,15 +2012,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512920_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512920_37) {
-Obj _3512921_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512921_37;
-Obj _3512922_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512922_37;
-Obj _3512923_37 = makeCons(co->gc, x, more);
+Obj _3512978_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512978_37) {
+Obj _3512979_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512979_37;
+Obj _3512980_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3512980_37;
+Obj _3512981_37 = makeCons(co->gc, x, more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512923_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512981_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2030,9 +2029,9 @@ return;
 }
 case 1:
 {
-Obj _3512924_37= co->res;
-Obj _3512925_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512924_37);
-coraReturn(co, _3512925_37);
+Obj _3512982_37= co->res;
+Obj _3512983_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512982_37);
+coraReturn(co, _3512983_37);
 return;
 }
 }
@@ -2043,9 +2042,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512915_37 = PRIM_CDR(exp);
+Obj _3512973_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512915_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512973_37);
 return;
 }
 }
@@ -2055,25 +2054,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512430_37 = R[1];
-Obj _3512431_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512430_37);
-Obj _3512910_37 = PRIM_ISCONS(_3512430_37);
-if (True == _3512910_37) {
-Obj _3512911_37 = PRIM_CAR(_3512430_37);
-Obj x = _3512911_37;
-Obj _3512912_37 = PRIM_CDR(_3512430_37);
-Obj _3512913_37 = PRIM_EQ(Nil, _3512912_37);
-if (True == _3512913_37) {
+Obj _3512488_37 = R[1];
+Obj _3512489_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512488_37);
+Obj _3512968_37 = PRIM_ISCONS(_3512488_37);
+if (True == _3512968_37) {
+Obj _3512969_37 = PRIM_CAR(_3512488_37);
+Obj x = _3512969_37;
+Obj _3512970_37 = PRIM_CDR(_3512488_37);
+Obj _3512971_37 = PRIM_EQ(Nil, _3512970_37);
+if (True == _3512971_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512431_37);
+coraCall0(co, _3512489_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512431_37);
+coraCall0(co, _3512489_37);
 return;
 }
 }
@@ -2084,39 +2083,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512432_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512898_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512898_37) {
-Obj _3512899_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512899_37;
-Obj _3512900_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512901_37 = PRIM_ISCONS(_3512900_37);
-if (True == _3512901_37) {
-Obj _3512902_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512903_37 = PRIM_CAR(_3512902_37);
-Obj y = _3512903_37;
-Obj _3512904_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512905_37 = PRIM_CDR(_3512904_37);
-Obj _3512906_37 = PRIM_EQ(Nil, _3512905_37);
-if (True == _3512906_37) {
-Obj _3512907_37 = makeCons(co->gc, y, Nil);
-Obj _3512908_37 = makeCons(co->gc, x, _3512907_37);
-Obj _3512909_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512908_37);
-coraReturn(co, _3512909_37);
+Obj _3512490_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj _3512956_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512956_37) {
+Obj _3512957_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512957_37;
+Obj _3512958_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512959_37 = PRIM_ISCONS(_3512958_37);
+if (True == _3512959_37) {
+Obj _3512960_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512961_37 = PRIM_CAR(_3512960_37);
+Obj y = _3512961_37;
+Obj _3512962_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512963_37 = PRIM_CDR(_3512962_37);
+Obj _3512964_37 = PRIM_EQ(Nil, _3512963_37);
+if (True == _3512964_37) {
+Obj _3512965_37 = makeCons(co->gc, y, Nil);
+Obj _3512966_37 = makeCons(co->gc, x, _3512965_37);
+Obj _3512967_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512966_37);
+coraReturn(co, _3512967_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512432_37);
+coraCall0(co, _3512490_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512432_37);
+coraCall0(co, _3512490_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512432_37);
+coraCall0(co, _3512490_37);
 return;
 }
 }
@@ -2127,12 +2126,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512891_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512891_37) {
-Obj _3512892_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512892_37;
-Obj _3512893_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512893_37;
+Obj _3512949_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512949_37) {
+Obj _3512950_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512950_37;
+Obj _3512951_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512951_37;
 R[1] = x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), y);
@@ -2145,12 +2144,12 @@ return;
 }
 case 1:
 {
-Obj _3512894_37= co->res;
+Obj _3512952_37= co->res;
 Obj x = R[1];
-Obj _3512895_37 = makeCons(co->gc, _3512894_37, Nil);
-Obj _3512896_37 = makeCons(co->gc, x, _3512895_37);
-Obj _3512897_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512896_37);
-coraReturn(co, _3512897_37);
+Obj _3512953_37 = makeCons(co->gc, _3512952_37, Nil);
+Obj _3512954_37 = makeCons(co->gc, x, _3512953_37);
+Obj _3512955_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512954_37);
+coraReturn(co, _3512955_37);
 return;
 }
 }
@@ -2167,16 +2166,16 @@ return;
 }
 case 1:
 {
-Obj _3512889_37= co->res;
+Obj _3512947_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512889_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512947_37);
 return;
 }
 case 2:
 {
-Obj _3512888_37= co->res;
+Obj _3512946_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512888_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512946_37);
 return;
 }
 }
@@ -2217,25 +2216,25 @@ return;
 }
 case 1:
 {
-Obj _3512877_37= co->res;
+Obj _3512935_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3512878_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
-Obj _3512879_37 = makeCons(co->gc, _3512878_37, body);
-Obj _3512880_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512879_37);
-Obj _3512881_37 = makeCons(co->gc, _3512880_37, Nil);
-Obj _3512882_37 = makeCons(co->gc, args, _3512881_37);
-Obj _3512883_37 = makeCons(co->gc, _3512877_37, _3512882_37);
-Obj _3512884_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512883_37);
-coraReturn(co, _3512884_37);
+Obj _3512936_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
+Obj _3512937_37 = makeCons(co->gc, _3512936_37, body);
+Obj _3512938_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512937_37);
+Obj _3512939_37 = makeCons(co->gc, _3512938_37, Nil);
+Obj _3512940_37 = makeCons(co->gc, args, _3512939_37);
+Obj _3512941_37 = makeCons(co->gc, _3512935_37, _3512940_37);
+Obj _3512942_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512941_37);
+coraReturn(co, _3512942_37);
 return;
 }
 case 2:
 {
-Obj _3512876_37= co->res;
+Obj _3512934_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj args = _3512876_37;
+Obj args = _3512934_37;
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun60, 1, R);
@@ -2244,10 +2243,10 @@ return;
 }
 case 3:
 {
-Obj _3512875_37= co->res;
+Obj _3512933_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj nargs = _3512875_37;
+Obj nargs = _3512933_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 2, R);
@@ -2256,9 +2255,9 @@ return;
 }
 case 4:
 {
-Obj _3512874_37= co->res;
+Obj _3512932_37= co->res;
 Obj exp = R[1];
-Obj body = _3512874_37;
+Obj body = _3512932_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 3, R);
@@ -2267,11 +2266,11 @@ return;
 }
 case 5:
 {
-Obj _3512873_37= co->res;
+Obj _3512931_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512873_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512931_37);
 return;
 }
 }
@@ -2282,25 +2281,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj n = R[1];
-Obj _3512867_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512867_37) {
+Obj _3512925_37 = PRIM_EQ(n, MAKE_NUMBER(0));
+if (True == _3512925_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512868_37 = primGenSym(co);
-Obj _3512869_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512868_37;
+Obj _3512926_37 = primGenSym(co);
+Obj _3512927_37 = PRIM_SUB(n, MAKE_NUMBER(1));
+R[1] = _3512926_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512869_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512927_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512870_37= co->res;
-Obj _3512868_37 = R[1];
-Obj _3512871_37 = makeCons(co->gc, _3512868_37, _3512870_37);
-coraReturn(co, _3512871_37);
+Obj _3512928_37= co->res;
+Obj _3512926_37 = R[1];
+Obj _3512929_37 = makeCons(co->gc, _3512926_37, _3512928_37);
+coraReturn(co, _3512929_37);
 return;
 }
 }
@@ -2317,10 +2316,10 @@ return;
 }
 case 1:
 {
-Obj _3512864_37= co->res;
+Obj _3512922_37= co->res;
 Obj n = R[1];
-Obj _3512865_37 = primNot(_3512864_37);
-if (True == _3512865_37) {
+Obj _3512923_37 = primNot(_3512922_37);
+if (True == _3512923_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2331,29 +2330,29 @@ return;
 }
 case 2:
 {
-Obj _3512863_37= co->res;
+Obj _3512921_37= co->res;
 Obj n = R[1];
 R[1] = n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512863_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512921_37);
 return;
 }
 case 3:
 {
-Obj _3512858_37= co->res;
-Obj counts = _3512858_37;
-Obj _3512859_37 = PRIM_CAR(counts);
-Obj n = _3512859_37;
-Obj _3512862_37 = PRIM_CDR(counts);
+Obj _3512916_37= co->res;
+Obj counts = _3512916_37;
+Obj _3512917_37 = PRIM_CAR(counts);
+Obj n = _3512917_37;
+Obj _3512920_37 = PRIM_CDR(counts);
 R[1] = n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512862_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512920_37);
 return;
 }
 case 4:
 {
-Obj _3512856_37= co->res;
-Obj pats = _3512856_37;
+Obj _3512914_37= co->res;
+Obj pats = _3512914_37;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
 return;
@@ -2366,9 +2365,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512860_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512861_37 = primNot(_3512860_37);
-coraReturn(co, _3512861_37);
+Obj _3512918_37 = PRIM_EQ(closureRef(R[0], 0), x);
+Obj _3512919_37 = primNot(_3512918_37);
+coraReturn(co, _3512919_37);
 return;
 }
 }
@@ -2379,9 +2378,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512857_37 = PRIM_CDR(x);
+Obj _3512915_37 = PRIM_CDR(x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512857_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512915_37);
 return;
 }
 }
@@ -2393,25 +2392,25 @@ case 0:
 {
 Obj l1 = R[1];
 Obj l2 = R[2];
-Obj _3512850_37 = PRIM_EQ(l1, Nil);
-if (True == _3512850_37) {
+Obj _3512908_37 = PRIM_EQ(l1, Nil);
+if (True == _3512908_37) {
 coraReturn(co, l2);
 return;
 } else {
-Obj _3512851_37 = PRIM_CAR(l1);
-Obj _3512852_37 = PRIM_CDR(l1);
-R[1] = _3512851_37;
+Obj _3512909_37 = PRIM_CAR(l1);
+Obj _3512910_37 = PRIM_CDR(l1);
+R[1] = _3512909_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512852_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512910_37, l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512853_37= co->res;
-Obj _3512851_37 = R[1];
-Obj _3512854_37 = makeCons(co->gc, _3512851_37, _3512853_37);
-coraReturn(co, _3512854_37);
+Obj _3512911_37= co->res;
+Obj _3512909_37 = R[1];
+Obj _3512912_37 = makeCons(co->gc, _3512909_37, _3512911_37);
+coraReturn(co, _3512912_37);
 return;
 }
 }
@@ -2437,14 +2436,14 @@ case 0:
 Obj res = R[1];
 Obj fn = R[2];
 Obj l = R[3];
-Obj _3512841_37 = PRIM_ISCONS(l);
-if (True == _3512841_37) {
-Obj _3512842_37 = PRIM_CAR(l);
+Obj _3512899_37 = PRIM_ISCONS(l);
+if (True == _3512899_37) {
+Obj _3512900_37 = PRIM_CAR(l);
 R[1] = l;
 R[2] = res;
 R[3] = fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512842_37);
+coraCall1(co, fn, _3512900_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2454,21 +2453,21 @@ return;
 }
 case 1:
 {
-Obj _3512843_37= co->res;
+Obj _3512901_37= co->res;
 Obj l = R[1];
 Obj res = R[2];
 Obj fn = R[3];
-if (True == _3512843_37) {
-Obj _3512844_37 = PRIM_CAR(l);
-Obj _3512845_37 = makeCons(co->gc, _3512844_37, res);
-Obj _3512846_37 = PRIM_CDR(l);
+if (True == _3512901_37) {
+Obj _3512902_37 = PRIM_CAR(l);
+Obj _3512903_37 = makeCons(co->gc, _3512902_37, res);
+Obj _3512904_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512845_37, fn, _3512846_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512903_37, fn, _3512904_37);
 return;
 } else {
-Obj _3512847_37 = PRIM_CDR(l);
+Obj _3512905_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512847_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512905_37);
 return;
 }
 }
@@ -2493,15 +2492,15 @@ case 0:
 {
 Obj i = R[1];
 Obj l = R[2];
-Obj _3512836_37 = PRIM_EQ(l, Nil);
-if (True == _3512836_37) {
+Obj _3512894_37 = PRIM_EQ(l, Nil);
+if (True == _3512894_37) {
 coraReturn(co, i);
 return;
 } else {
-Obj _3512837_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512838_37 = PRIM_CDR(l);
+Obj _3512895_37 = PRIM_ADD(i, MAKE_NUMBER(1));
+Obj _3512896_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512837_37, _3512838_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512895_37, _3512896_37);
 return;
 }
 }
@@ -2522,25 +2521,25 @@ return;
 }
 case 1:
 {
-Obj _3512834_37= co->res;
-Obj _3512833_37 = R[1];
+Obj _3512892_37= co->res;
+Obj _3512891_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512833_37, _3512834_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512891_37, _3512892_37);
 return;
 }
 case 2:
 {
-Obj _3512831_37= co->res;
+Obj _3512889_37= co->res;
 Obj res = R[1];
 Obj rules = R[2];
-if (True == _3512831_37) {
+if (True == _3512889_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
 return;
 } else {
-Obj _3512832_37 = PRIM_CAR(rules);
-Obj _3512833_37 = makeCons(co->gc, _3512832_37, res);
-R[1] = _3512833_37;
+Obj _3512890_37 = PRIM_CAR(rules);
+Obj _3512891_37 = makeCons(co->gc, _3512890_37, res);
+R[1] = _3512891_37;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
 return;
@@ -2568,48 +2567,48 @@ case 0:
 Obj input = R[1];
 Obj current = R[2];
 Obj result = R[3];
-Obj _3512778_37 = PRIM_EQ(Nil, input);
-if (True == _3512778_37) {
+Obj _3512836_37 = PRIM_EQ(Nil, input);
+if (True == _3512836_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
 return;
 } else {
-Obj _3512427_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512796_37 = PRIM_ISCONS(input);
-if (True == _3512796_37) {
-Obj _3512797_37 = PRIM_CAR(input);
-Obj _3512798_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512797_37);
-if (True == _3512798_37) {
-Obj _3512799_37 = PRIM_CDR(input);
-Obj _3512800_37 = PRIM_ISCONS(_3512799_37);
-if (True == _3512800_37) {
-Obj _3512801_37 = PRIM_CDR(input);
-Obj _3512802_37 = PRIM_CAR(_3512801_37);
-Obj act = _3512802_37;
-Obj _3512803_37 = PRIM_CDR(input);
-Obj _3512804_37 = PRIM_CDR(_3512803_37);
-Obj _3512805_37 = PRIM_ISCONS(_3512804_37);
-if (True == _3512805_37) {
-Obj _3512806_37 = PRIM_CDR(input);
-Obj _3512807_37 = PRIM_CDR(_3512806_37);
-Obj _3512808_37 = PRIM_CAR(_3512807_37);
-Obj _3512809_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512808_37);
-if (True == _3512809_37) {
-Obj _3512810_37 = PRIM_CDR(input);
-Obj _3512811_37 = PRIM_CDR(_3512810_37);
-Obj _3512812_37 = PRIM_CDR(_3512811_37);
-Obj _3512813_37 = PRIM_ISCONS(_3512812_37);
-if (True == _3512813_37) {
-Obj _3512814_37 = PRIM_CDR(input);
-Obj _3512815_37 = PRIM_CDR(_3512814_37);
-Obj _3512816_37 = PRIM_CDR(_3512815_37);
-Obj _3512817_37 = PRIM_CAR(_3512816_37);
-Obj pred = _3512817_37;
-Obj _3512818_37 = PRIM_CDR(input);
-Obj _3512819_37 = PRIM_CDR(_3512818_37);
-Obj _3512820_37 = PRIM_CDR(_3512819_37);
-Obj _3512821_37 = PRIM_CDR(_3512820_37);
-Obj remain = _3512821_37;
+Obj _3512485_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
+Obj _3512854_37 = PRIM_ISCONS(input);
+if (True == _3512854_37) {
+Obj _3512855_37 = PRIM_CAR(input);
+Obj _3512856_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512855_37);
+if (True == _3512856_37) {
+Obj _3512857_37 = PRIM_CDR(input);
+Obj _3512858_37 = PRIM_ISCONS(_3512857_37);
+if (True == _3512858_37) {
+Obj _3512859_37 = PRIM_CDR(input);
+Obj _3512860_37 = PRIM_CAR(_3512859_37);
+Obj act = _3512860_37;
+Obj _3512861_37 = PRIM_CDR(input);
+Obj _3512862_37 = PRIM_CDR(_3512861_37);
+Obj _3512863_37 = PRIM_ISCONS(_3512862_37);
+if (True == _3512863_37) {
+Obj _3512864_37 = PRIM_CDR(input);
+Obj _3512865_37 = PRIM_CDR(_3512864_37);
+Obj _3512866_37 = PRIM_CAR(_3512865_37);
+Obj _3512867_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512866_37);
+if (True == _3512867_37) {
+Obj _3512868_37 = PRIM_CDR(input);
+Obj _3512869_37 = PRIM_CDR(_3512868_37);
+Obj _3512870_37 = PRIM_CDR(_3512869_37);
+Obj _3512871_37 = PRIM_ISCONS(_3512870_37);
+if (True == _3512871_37) {
+Obj _3512872_37 = PRIM_CDR(input);
+Obj _3512873_37 = PRIM_CDR(_3512872_37);
+Obj _3512874_37 = PRIM_CDR(_3512873_37);
+Obj _3512875_37 = PRIM_CAR(_3512874_37);
+Obj pred = _3512875_37;
+Obj _3512876_37 = PRIM_CDR(input);
+Obj _3512877_37 = PRIM_CDR(_3512876_37);
+Obj _3512878_37 = PRIM_CDR(_3512877_37);
+Obj _3512879_37 = PRIM_CDR(_3512878_37);
+Obj remain = _3512879_37;
 R[1] = act;
 R[2] = pred;
 R[3] = result;
@@ -2619,52 +2618,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3512485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3512485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3512485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3512485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3512485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3512485_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512822_37= co->res;
+Obj _3512880_37= co->res;
 Obj act = R[1];
 Obj pred = R[2];
 Obj result = R[3];
 Obj remain = R[4];
-Obj _3512823_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512822_37);
-Obj pat = _3512823_37;
-Obj _3512824_37 = makeCons(co->gc, act, Nil);
-Obj _3512825_37 = makeCons(co->gc, pred, _3512824_37);
-Obj _3512826_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512825_37);
-Obj _3512827_37 = makeCons(co->gc, pat, result);
-Obj _3512828_37 = makeCons(co->gc, _3512826_37, _3512827_37);
+Obj _3512881_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512880_37);
+Obj pat = _3512881_37;
+Obj _3512882_37 = makeCons(co->gc, act, Nil);
+Obj _3512883_37 = makeCons(co->gc, pred, _3512882_37);
+Obj _3512884_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512883_37);
+Obj _3512885_37 = makeCons(co->gc, pat, result);
+Obj _3512886_37 = makeCons(co->gc, _3512884_37, _3512885_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512828_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512886_37);
 return;
 }
 }
@@ -2674,21 +2673,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512428_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512783_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512783_37) {
-Obj _3512784_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512785_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512784_37);
-if (True == _3512785_37) {
-Obj _3512786_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512787_37 = PRIM_ISCONS(_3512786_37);
-if (True == _3512787_37) {
-Obj _3512788_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512789_37 = PRIM_CAR(_3512788_37);
-Obj act = _3512789_37;
-Obj _3512790_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512791_37 = PRIM_CDR(_3512790_37);
-Obj remain = _3512791_37;
+Obj _3512486_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3512841_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512841_37) {
+Obj _3512842_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3512843_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512842_37);
+if (True == _3512843_37) {
+Obj _3512844_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512845_37 = PRIM_ISCONS(_3512844_37);
+if (True == _3512845_37) {
+Obj _3512846_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512847_37 = PRIM_CAR(_3512846_37);
+Obj act = _3512847_37;
+Obj _3512848_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512849_37 = PRIM_CDR(_3512848_37);
+Obj remain = _3512849_37;
 R[1] = act;
 R[2] = remain;
 saveCont(co, clofun47, 1, R);
@@ -2696,31 +2695,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512428_37);
+coraCall0(co, _3512486_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512428_37);
+coraCall0(co, _3512486_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512428_37);
+coraCall0(co, _3512486_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512792_37= co->res;
+Obj _3512850_37= co->res;
 Obj act = R[1];
 Obj remain = R[2];
-Obj _3512793_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512792_37);
-Obj pat = _3512793_37;
-Obj _3512794_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512795_37 = makeCons(co->gc, act, _3512794_37);
+Obj _3512851_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512850_37);
+Obj pat = _3512851_37;
+Obj _3512852_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
+Obj _3512853_37 = makeCons(co->gc, act, _3512852_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512795_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512853_37);
 return;
 }
 }
@@ -2730,15 +2729,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512779_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512779_37) {
-Obj _3512780_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512780_37;
-Obj _3512781_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512781_37;
-Obj _3512782_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj _3512837_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512837_37) {
+Obj _3512838_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512838_37;
+Obj _3512839_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512839_37;
+Obj _3512840_37 = makeCons(co->gc, x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512782_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512840_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2773,35 +2772,35 @@ return;
 }
 case 1:
 {
-Obj _3512765_37= co->res;
+Obj _3512823_37= co->res;
 Obj value = R[1];
-Obj rules = _3512765_37;
-Obj _3512478_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512772_37 = PRIM_ISCONS(value);
-if (True == _3512772_37) {
-Obj _3512773_37 = PRIM_CAR(value);
-Obj _3512774_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512773_37);
-Obj _3512775_37 = primNot(_3512774_37);
-if (True == _3512775_37) {
+Obj rules = _3512823_37;
+Obj _3512536_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
+Obj _3512830_37 = PRIM_ISCONS(value);
+if (True == _3512830_37) {
+Obj _3512831_37 = PRIM_CAR(value);
+Obj _3512832_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512831_37);
+Obj _3512833_37 = primNot(_3512832_37);
+if (True == _3512833_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512478_37, True);
+coraCall1(co, _3512536_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512478_37, False);
+coraCall1(co, _3512536_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512478_37, False);
+coraCall1(co, _3512536_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512764_37= co->res;
+Obj _3512822_37= co->res;
 Obj exp = R[1];
-Obj value = _3512764_37;
+Obj value = _3512822_37;
 R[1] = value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
@@ -2809,11 +2808,11 @@ return;
 }
 case 3:
 {
-Obj _3512763_37= co->res;
+Obj _3512821_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512763_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512821_37);
 return;
 }
 }
@@ -2823,10 +2822,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512479_37 = R[1];
-if (True == _3512479_37) {
-Obj _3512766_37 = primGenSym(co);
-Obj val = _3512766_37;
+Obj _3512537_37 = R[1];
+if (True == _3512537_37) {
+Obj _3512824_37 = primGenSym(co);
+Obj val = _3512824_37;
 R[1] = val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), val, closureRef(R[0], 1));
@@ -2839,13 +2838,13 @@ return;
 }
 case 1:
 {
-Obj _3512767_37= co->res;
+Obj _3512825_37= co->res;
 Obj val = R[1];
-Obj _3512768_37 = makeCons(co->gc, _3512767_37, Nil);
-Obj _3512769_37 = makeCons(co->gc, closureRef(R[0], 0), _3512768_37);
-Obj _3512770_37 = makeCons(co->gc, val, _3512769_37);
-Obj _3512771_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512770_37);
-coraReturn(co, _3512771_37);
+Obj _3512826_37 = makeCons(co->gc, _3512825_37, Nil);
+Obj _3512827_37 = makeCons(co->gc, closureRef(R[0], 0), _3512826_37);
+Obj _3512828_37 = makeCons(co->gc, val, _3512827_37);
+Obj _3512829_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512828_37);
+coraReturn(co, _3512829_37);
 return;
 }
 }
@@ -2865,49 +2864,49 @@ return;
 }
 case 1:
 {
-Obj _3512761_37= co->res;
-Obj _3512476_37 = R[1];
-if (True == _3512761_37) {
+Obj _3512819_37= co->res;
+Obj _3512534_37 = R[1];
+if (True == _3512819_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512476_37, True);
+coraCall1(co, _3512534_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512476_37, False);
+coraCall1(co, _3512534_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512759_37= co->res;
+Obj _3512817_37= co->res;
 Obj rules = R[1];
-Obj _3512476_37 = R[2];
-if (True == _3512759_37) {
-Obj _3512760_37 = PRIM_CDR(rules);
-R[1] = _3512476_37;
+Obj _3512534_37 = R[2];
+if (True == _3512817_37) {
+Obj _3512818_37 = PRIM_CDR(rules);
+R[1] = _3512534_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512760_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512818_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512476_37, False);
+coraCall1(co, _3512534_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512741_37= co->res;
+Obj _3512799_37= co->res;
 Obj value = R[1];
 Obj rules = R[2];
-if (True == _3512741_37) {
-Obj _3512742_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512743_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512742_37);
-coraReturn(co, _3512743_37);
+if (True == _3512799_37) {
+Obj _3512800_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj _3512801_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512800_37);
+coraReturn(co, _3512801_37);
 return;
 } else {
-Obj _3512476_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
+Obj _3512534_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
 R[1] = rules;
-R[2] = _3512476_37;
+R[2] = _3512534_37;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
 return;
@@ -2920,12 +2919,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512477_37 = R[1];
-if (True == _3512477_37) {
-Obj _3512744_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512744_37;
-Obj _3512745_37 = primGenSym(co);
-Obj cc = _3512745_37;
+Obj _3512535_37 = R[1];
+if (True == _3512535_37) {
+Obj _3512802_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj pat = _3512802_37;
+Obj _3512803_37 = primGenSym(co);
+Obj cc = _3512803_37;
 R[1] = pat;
 R[2] = cc;
 saveCont(co, clofun41, 4, R);
@@ -2939,49 +2938,49 @@ return;
 }
 case 1:
 {
-Obj _3512751_37= co->res;
+Obj _3512809_37= co->res;
 Obj curr = R[1];
 Obj cc = R[2];
-Obj rest = _3512751_37;
-Obj _3512752_37 = makeCons(co->gc, rest, Nil);
-Obj _3512753_37 = makeCons(co->gc, Nil, _3512752_37);
-Obj _3512754_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512753_37);
-Obj _3512755_37 = makeCons(co->gc, curr, Nil);
-Obj _3512756_37 = makeCons(co->gc, _3512754_37, _3512755_37);
-Obj _3512757_37 = makeCons(co->gc, cc, _3512756_37);
-Obj _3512758_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512757_37);
-coraReturn(co, _3512758_37);
+Obj rest = _3512809_37;
+Obj _3512810_37 = makeCons(co->gc, rest, Nil);
+Obj _3512811_37 = makeCons(co->gc, Nil, _3512810_37);
+Obj _3512812_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512811_37);
+Obj _3512813_37 = makeCons(co->gc, curr, Nil);
+Obj _3512814_37 = makeCons(co->gc, _3512812_37, _3512813_37);
+Obj _3512815_37 = makeCons(co->gc, cc, _3512814_37);
+Obj _3512816_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512815_37);
+coraReturn(co, _3512816_37);
 return;
 }
 case 2:
 {
-Obj _3512748_37= co->res;
+Obj _3512806_37= co->res;
 Obj cc = R[1];
-Obj curr = _3512748_37;
-Obj _3512749_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512750_37 = PRIM_CDR(_3512749_37);
+Obj curr = _3512806_37;
+Obj _3512807_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3512808_37 = PRIM_CDR(_3512807_37);
 R[1] = curr;
 R[2] = cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512750_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512808_37);
 return;
 }
 case 3:
 {
-Obj _3512747_37= co->res;
+Obj _3512805_37= co->res;
 Obj action = R[1];
 Obj cc = R[2];
 R[1] = cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512747_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512805_37, closureRef(R[0], 0), action, cc);
 return;
 }
 case 4:
 {
-Obj _3512746_37= co->res;
+Obj _3512804_37= co->res;
 Obj pat = R[1];
 Obj cc = R[2];
-Obj action = _3512746_37;
+Obj action = _3512804_37;
 R[1] = action;
 R[2] = cc;
 saveCont(co, clofun41, 3, R);
@@ -2997,36 +2996,36 @@ case 0:
 {
 Obj rules = R[1];
 Obj cc = R[2];
-Obj _3512728_37 = PRIM_CDR(rules);
-Obj _3512729_37 = PRIM_CAR(_3512728_37);
-Obj action = _3512729_37;
-Obj _3512474_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
+Obj _3512786_37 = PRIM_CDR(rules);
+Obj _3512787_37 = PRIM_CAR(_3512786_37);
+Obj action = _3512787_37;
+Obj _3512532_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
 R[1] = action;
-R[2] = _3512474_37;
+R[2] = _3512532_37;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), action);
 return;
 }
 case 1:
 {
-Obj _3512737_37= co->res;
+Obj _3512795_37= co->res;
 Obj action = R[1];
-Obj _3512474_37 = R[2];
-if (True == _3512737_37) {
-Obj _3512738_37 = PRIM_CAR(action);
-Obj _3512739_37 = PRIM_EQ(_3512738_37, getBinding(co, packageID, 110).name);
-if (True == _3512739_37) {
+Obj _3512532_37 = R[2];
+if (True == _3512795_37) {
+Obj _3512796_37 = PRIM_CAR(action);
+Obj _3512797_37 = PRIM_EQ(_3512796_37, getBinding(co, packageID, 110).name);
+if (True == _3512797_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512474_37, True);
+coraCall1(co, _3512532_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512474_37, False);
+coraCall1(co, _3512532_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512474_37, False);
+coraCall1(co, _3512532_37, False);
 return;
 }
 }
@@ -3037,8 +3036,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512475_37 = R[1];
-if (True == _3512475_37) {
+Obj _3512533_37 = R[1];
+if (True == _3512533_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3049,20 +3048,20 @@ return;
 }
 case 1:
 {
-Obj _3512731_37= co->res;
-Obj _3512730_37 = R[1];
-Obj _3512732_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512733_37 = makeCons(co->gc, _3512732_37, Nil);
-Obj _3512734_37 = makeCons(co->gc, _3512731_37, _3512733_37);
-Obj _3512735_37 = makeCons(co->gc, _3512730_37, _3512734_37);
-Obj _3512736_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512735_37);
-coraReturn(co, _3512736_37);
+Obj _3512789_37= co->res;
+Obj _3512788_37 = R[1];
+Obj _3512790_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3512791_37 = makeCons(co->gc, _3512790_37, Nil);
+Obj _3512792_37 = makeCons(co->gc, _3512789_37, _3512791_37);
+Obj _3512793_37 = makeCons(co->gc, _3512788_37, _3512792_37);
+Obj _3512794_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512793_37);
+coraReturn(co, _3512794_37);
 return;
 }
 case 2:
 {
-Obj _3512730_37= co->res;
-R[1] = _3512730_37;
+Obj _3512788_37= co->res;
+R[1] = _3512788_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3088,36 +3087,36 @@ return;
 }
 case 1:
 {
-Obj _3512726_37= co->res;
+Obj _3512784_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512726_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512784_37);
 return;
 }
 case 2:
 {
-Obj _3512713_37= co->res;
+Obj _3512771_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512713_37) {
-Obj _3512714_37 = PRIM_CAR(pat);
-Obj _3512715_37 = PRIM_EQ(_3512714_37, getBinding(co, packageID, 139).name);
-if (True == _3512715_37) {
-Obj _3512716_37 = makeCons(co->gc, expr, Nil);
-Obj _3512717_37 = makeCons(co->gc, pat, _3512716_37);
-Obj _3512718_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512717_37);
-Obj _3512719_37 = makeCons(co->gc, cc, Nil);
-Obj _3512720_37 = makeCons(co->gc, _3512719_37, Nil);
-Obj _3512721_37 = makeCons(co->gc, body, _3512720_37);
-Obj _3512722_37 = makeCons(co->gc, _3512718_37, _3512721_37);
-Obj _3512723_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512722_37);
-coraReturn(co, _3512723_37);
-return;
-} else {
-Obj _3512724_37 = PRIM_CAR(pat);
-Obj _3512725_37 = PRIM_EQ(_3512724_37, getBinding(co, packageID, 152).name);
-if (True == _3512725_37) {
+if (True == _3512771_37) {
+Obj _3512772_37 = PRIM_CAR(pat);
+Obj _3512773_37 = PRIM_EQ(_3512772_37, getBinding(co, packageID, 139).name);
+if (True == _3512773_37) {
+Obj _3512774_37 = makeCons(co->gc, expr, Nil);
+Obj _3512775_37 = makeCons(co->gc, pat, _3512774_37);
+Obj _3512776_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512775_37);
+Obj _3512777_37 = makeCons(co->gc, cc, Nil);
+Obj _3512778_37 = makeCons(co->gc, _3512777_37, Nil);
+Obj _3512779_37 = makeCons(co->gc, body, _3512778_37);
+Obj _3512780_37 = makeCons(co->gc, _3512776_37, _3512779_37);
+Obj _3512781_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512780_37);
+coraReturn(co, _3512781_37);
+return;
+} else {
+Obj _3512782_37 = PRIM_CAR(pat);
+Obj _3512783_37 = PRIM_EQ(_3512782_37, getBinding(co, packageID, 152).name);
+if (True == _3512783_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
 return;
@@ -3135,36 +3134,36 @@ return;
 }
 case 3:
 {
-Obj _3512698_37= co->res;
+Obj _3512756_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512698_37) {
-Obj _3512699_37 = PRIM_EQ(pat, expr);
-if (True == _3512699_37) {
+if (True == _3512756_37) {
+Obj _3512757_37 = PRIM_EQ(pat, expr);
+if (True == _3512757_37) {
 coraReturn(co, body);
 return;
 } else {
-Obj _3512700_37 = makeCons(co->gc, expr, Nil);
-Obj _3512701_37 = makeCons(co->gc, pat, _3512700_37);
-Obj _3512702_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512701_37);
-Obj _3512703_37 = makeCons(co->gc, cc, Nil);
-Obj _3512704_37 = makeCons(co->gc, _3512703_37, Nil);
-Obj _3512705_37 = makeCons(co->gc, body, _3512704_37);
-Obj _3512706_37 = makeCons(co->gc, _3512702_37, _3512705_37);
-Obj _3512707_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512706_37);
-coraReturn(co, _3512707_37);
+Obj _3512758_37 = makeCons(co->gc, expr, Nil);
+Obj _3512759_37 = makeCons(co->gc, pat, _3512758_37);
+Obj _3512760_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512759_37);
+Obj _3512761_37 = makeCons(co->gc, cc, Nil);
+Obj _3512762_37 = makeCons(co->gc, _3512761_37, Nil);
+Obj _3512763_37 = makeCons(co->gc, body, _3512762_37);
+Obj _3512764_37 = makeCons(co->gc, _3512760_37, _3512763_37);
+Obj _3512765_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512764_37);
+coraReturn(co, _3512765_37);
 return;
 }
 } else {
-Obj _3512708_37 = primIsSymbol(pat);
-if (True == _3512708_37) {
-Obj _3512709_37 = makeCons(co->gc, body, Nil);
-Obj _3512710_37 = makeCons(co->gc, expr, _3512709_37);
-Obj _3512711_37 = makeCons(co->gc, pat, _3512710_37);
-Obj _3512712_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512711_37);
-coraReturn(co, _3512712_37);
+Obj _3512766_37 = primIsSymbol(pat);
+if (True == _3512766_37) {
+Obj _3512767_37 = makeCons(co->gc, body, Nil);
+Obj _3512768_37 = makeCons(co->gc, expr, _3512767_37);
+Obj _3512769_37 = makeCons(co->gc, pat, _3512768_37);
+Obj _3512770_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512769_37);
+coraReturn(co, _3512770_37);
 return;
 } else {
 R[1] = expr;
@@ -3192,12 +3191,12 @@ return;
 }
 case 1:
 {
-Obj _3512695_37= co->res;
+Obj _3512753_37= co->res;
 Obj x = R[1];
-if (True == _3512695_37) {
-Obj _3512696_37 = primIsSymbol(x);
-Obj _3512697_37 = primNot(_3512696_37);
-if (True == _3512697_37) {
+if (True == _3512753_37) {
+Obj _3512754_37 = primIsSymbol(x);
+Obj _3512755_37 = primNot(_3512754_37);
+if (True == _3512755_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3230,40 +3229,40 @@ return;
 }
 case 1:
 {
-Obj _3512674_37= co->res;
+Obj _3512732_37= co->res;
 Obj x = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj y = _3512674_37;
-Obj _3512472_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512691_37 = PRIM_ISCONS(expr);
-if (True == _3512691_37) {
-Obj _3512692_37 = PRIM_CAR(expr);
-Obj _3512693_37 = PRIM_EQ(_3512692_37, getBinding(co, packageID, 152).name);
-if (True == _3512693_37) {
+Obj y = _3512732_37;
+Obj _3512530_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
+Obj _3512749_37 = PRIM_ISCONS(expr);
+if (True == _3512749_37) {
+Obj _3512750_37 = PRIM_CAR(expr);
+Obj _3512751_37 = PRIM_EQ(_3512750_37, getBinding(co, packageID, 152).name);
+if (True == _3512751_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512472_37, True);
+coraCall1(co, _3512530_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512472_37, False);
+coraCall1(co, _3512530_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512472_37, False);
+coraCall1(co, _3512530_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512673_37= co->res;
+Obj _3512731_37= co->res;
 Obj pat = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj x = _3512673_37;
+Obj x = _3512731_37;
 R[1] = x;
 R[2] = body;
 R[3] = cc;
@@ -3279,38 +3278,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512473_37 = R[1];
-if (True == _3512473_37) {
+Obj _3512531_37 = R[1];
+if (True == _3512531_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512678_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512679_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512678_37);
-Obj _3512680_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512681_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512680_37);
-Obj _3512682_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512683_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512682_37);
-R[1] = _3512681_37;
-R[2] = _3512679_37;
+Obj _3512736_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512737_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512736_37);
+Obj _3512738_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512739_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512738_37);
+Obj _3512740_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512741_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512740_37);
+R[1] = _3512739_37;
+R[2] = _3512737_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512683_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512741_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512677_37= co->res;
+Obj _3512735_37= co->res;
 Obj e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512677_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512735_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512676_37= co->res;
+Obj _3512734_37= co->res;
 Obj e1 = R[1];
-Obj e2 = _3512676_37;
+Obj e2 = _3512734_37;
 R[1] = e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3318,8 +3317,8 @@ return;
 }
 case 3:
 {
-Obj _3512675_37= co->res;
-Obj e1 = _3512675_37;
+Obj _3512733_37= co->res;
+Obj e1 = _3512733_37;
 R[1] = e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3327,24 +3326,24 @@ return;
 }
 case 4:
 {
-Obj _3512685_37= co->res;
-Obj _3512679_37 = R[1];
-Obj _3512686_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512687_37 = makeCons(co->gc, _3512686_37, Nil);
-Obj _3512688_37 = makeCons(co->gc, _3512685_37, _3512687_37);
-Obj _3512689_37 = makeCons(co->gc, _3512679_37, _3512688_37);
-Obj _3512690_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512689_37);
-coraReturn(co, _3512690_37);
+Obj _3512743_37= co->res;
+Obj _3512737_37 = R[1];
+Obj _3512744_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj _3512745_37 = makeCons(co->gc, _3512744_37, Nil);
+Obj _3512746_37 = makeCons(co->gc, _3512743_37, _3512745_37);
+Obj _3512747_37 = makeCons(co->gc, _3512737_37, _3512746_37);
+Obj _3512748_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512747_37);
+coraReturn(co, _3512748_37);
 return;
 }
 case 5:
 {
-Obj _3512684_37= co->res;
-Obj _3512681_37 = R[1];
-Obj _3512679_37 = R[2];
-R[1] = _3512679_37;
+Obj _3512742_37= co->res;
+Obj _3512739_37 = R[1];
+Obj _3512737_37 = R[2];
+R[1] = _3512737_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512681_37, _3512684_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512739_37, _3512742_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3355,9 +3354,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512671_37 = PRIM_CDR(exp);
+Obj _3512729_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512671_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512729_37);
 return;
 }
 }
@@ -3368,36 +3367,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj pat = R[1];
-Obj _3512661_37 = PRIM_CDR(pat);
+Obj _3512719_37 = PRIM_CDR(pat);
 R[1] = pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512661_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512719_37);
 return;
 }
 case 1:
 {
-Obj _3512666_37= co->res;
-Obj _3512664_37 = R[1];
-Obj _3512667_37 = makeCons(co->gc, _3512666_37, Nil);
-Obj _3512668_37 = makeCons(co->gc, _3512664_37, _3512667_37);
-Obj _3512669_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512668_37);
-coraReturn(co, _3512669_37);
+Obj _3512724_37= co->res;
+Obj _3512722_37 = R[1];
+Obj _3512725_37 = makeCons(co->gc, _3512724_37, Nil);
+Obj _3512726_37 = makeCons(co->gc, _3512722_37, _3512725_37);
+Obj _3512727_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512726_37);
+coraReturn(co, _3512727_37);
 return;
 }
 case 2:
 {
-Obj _3512662_37= co->res;
+Obj _3512720_37= co->res;
 Obj pat = R[1];
-if (True == _3512662_37) {
-Obj _3512663_37 = PRIM_CAR(pat);
-coraReturn(co, _3512663_37);
+if (True == _3512720_37) {
+Obj _3512721_37 = PRIM_CAR(pat);
+coraReturn(co, _3512721_37);
 return;
 } else {
-Obj _3512664_37 = PRIM_CAR(pat);
-Obj _3512665_37 = PRIM_CDR(pat);
-R[1] = _3512664_37;
+Obj _3512722_37 = PRIM_CAR(pat);
+Obj _3512723_37 = PRIM_CDR(pat);
+R[1] = _3512722_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512665_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512723_37);
 return;
 }
 }
@@ -3409,13 +3408,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512658_37 = PRIM_EQ(x, True);
-if (True == _3512658_37) {
+Obj _3512716_37 = PRIM_EQ(x, True);
+if (True == _3512716_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512659_37 = PRIM_EQ(x, False);
-if (True == _3512659_37) {
+Obj _3512717_37 = PRIM_EQ(x, False);
+if (True == _3512717_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3432,9 +3431,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512656_37 = PRIM_CDR(exp);
+Obj _3512714_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512656_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512714_37);
 return;
 }
 }
@@ -3445,41 +3444,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512644_37 = PRIM_EQ(Nil, l);
-if (True == _3512644_37) {
+Obj _3512702_37 = PRIM_EQ(Nil, l);
+if (True == _3512702_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512645_37 = PRIM_CAR(l);
-Obj _3512646_37 = PRIM_EQ(_3512645_37, False);
-if (True == _3512646_37) {
+Obj _3512703_37 = PRIM_CAR(l);
+Obj _3512704_37 = PRIM_EQ(_3512703_37, False);
+if (True == _3512704_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512647_37 = PRIM_CDR(l);
+Obj _3512705_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512647_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512705_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512648_37= co->res;
+Obj _3512706_37= co->res;
 Obj l = R[1];
-Obj more = _3512648_37;
-Obj _3512649_37 = PRIM_EQ(more, False);
-if (True == _3512649_37) {
+Obj more = _3512706_37;
+Obj _3512707_37 = PRIM_EQ(more, False);
+if (True == _3512707_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512650_37 = PRIM_CAR(l);
-Obj _3512651_37 = makeCons(co->gc, False, Nil);
-Obj _3512652_37 = makeCons(co->gc, more, _3512651_37);
-Obj _3512653_37 = makeCons(co->gc, _3512650_37, _3512652_37);
-Obj _3512654_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512653_37);
-coraReturn(co, _3512654_37);
+Obj _3512708_37 = PRIM_CAR(l);
+Obj _3512709_37 = makeCons(co->gc, False, Nil);
+Obj _3512710_37 = makeCons(co->gc, more, _3512709_37);
+Obj _3512711_37 = makeCons(co->gc, _3512708_37, _3512710_37);
+Obj _3512712_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512711_37);
+coraReturn(co, _3512712_37);
 return;
 }
 }
@@ -3491,9 +3490,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512642_37 = PRIM_CDR(exp);
+Obj _3512700_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512700_37);
 return;
 }
 }
@@ -3504,41 +3503,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512630_37 = PRIM_EQ(l, Nil);
-if (True == _3512630_37) {
+Obj _3512688_37 = PRIM_EQ(l, Nil);
+if (True == _3512688_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512631_37 = PRIM_CAR(l);
-Obj _3512632_37 = PRIM_EQ(_3512631_37, True);
-if (True == _3512632_37) {
+Obj _3512689_37 = PRIM_CAR(l);
+Obj _3512690_37 = PRIM_EQ(_3512689_37, True);
+if (True == _3512690_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512633_37 = PRIM_CDR(l);
+Obj _3512691_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512633_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512691_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512634_37= co->res;
+Obj _3512692_37= co->res;
 Obj l = R[1];
-Obj more = _3512634_37;
-Obj _3512635_37 = PRIM_EQ(more, True);
-if (True == _3512635_37) {
+Obj more = _3512692_37;
+Obj _3512693_37 = PRIM_EQ(more, True);
+if (True == _3512693_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512636_37 = PRIM_CAR(l);
-Obj _3512637_37 = makeCons(co->gc, more, Nil);
-Obj _3512638_37 = makeCons(co->gc, True, _3512637_37);
-Obj _3512639_37 = makeCons(co->gc, _3512636_37, _3512638_37);
-Obj _3512640_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512639_37);
-coraReturn(co, _3512640_37);
+Obj _3512694_37 = PRIM_CAR(l);
+Obj _3512695_37 = makeCons(co->gc, more, Nil);
+Obj _3512696_37 = makeCons(co->gc, True, _3512695_37);
+Obj _3512697_37 = makeCons(co->gc, _3512694_37, _3512696_37);
+Obj _3512698_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512697_37);
+coraReturn(co, _3512698_37);
 return;
 }
 }
@@ -3550,12 +3549,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512616_37 = PRIM_CDR(exp);
-Obj _3512617_37 = PRIM_EQ(Nil, _3512616_37);
-if (True == _3512617_37) {
-Obj _3512618_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512619_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512618_37);
-coraReturn(co, _3512619_37);
+Obj _3512674_37 = PRIM_CDR(exp);
+Obj _3512675_37 = PRIM_EQ(Nil, _3512674_37);
+if (True == _3512675_37) {
+Obj _3512676_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj _3512677_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512676_37);
+coraReturn(co, _3512677_37);
 return;
 } else {
 R[1] = exp;
@@ -3566,36 +3565,36 @@ return;
 }
 case 1:
 {
-Obj _3512623_37= co->res;
-Obj _3512622_37 = R[1];
-Obj _3512621_37 = R[2];
-Obj _3512624_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512623_37);
-Obj _3512625_37 = makeCons(co->gc, _3512624_37, Nil);
-Obj _3512626_37 = makeCons(co->gc, _3512622_37, _3512625_37);
-Obj _3512627_37 = makeCons(co->gc, _3512621_37, _3512626_37);
-Obj _3512628_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512627_37);
-coraReturn(co, _3512628_37);
+Obj _3512681_37= co->res;
+Obj _3512680_37 = R[1];
+Obj _3512679_37 = R[2];
+Obj _3512682_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512681_37);
+Obj _3512683_37 = makeCons(co->gc, _3512682_37, Nil);
+Obj _3512684_37 = makeCons(co->gc, _3512680_37, _3512683_37);
+Obj _3512685_37 = makeCons(co->gc, _3512679_37, _3512684_37);
+Obj _3512686_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512685_37);
+coraReturn(co, _3512686_37);
 return;
 }
 case 2:
 {
-Obj _3512622_37= co->res;
+Obj _3512680_37= co->res;
 Obj exp = R[1];
-Obj _3512621_37 = R[2];
-R[1] = _3512622_37;
-R[2] = _3512621_37;
+Obj _3512679_37 = R[2];
+R[1] = _3512680_37;
+R[2] = _3512679_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 3:
 {
-Obj _3512620_37= co->res;
+Obj _3512678_37= co->res;
 Obj exp = R[1];
-Obj curr = _3512620_37;
-Obj _3512621_37 = PRIM_CAR(curr);
+Obj curr = _3512678_37;
+Obj _3512679_37 = PRIM_CAR(curr);
 R[1] = exp;
-R[2] = _3512621_37;
+R[2] = _3512679_37;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), curr);
 return;
@@ -3608,9 +3607,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512614_37 = PRIM_CDR(exp);
+Obj _3512672_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512614_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512672_37);
 return;
 }
 }
@@ -3621,58 +3620,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512602_37 = PRIM_CDR(exp);
+Obj _3512660_37 = PRIM_CDR(exp);
 R[1] = exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512602_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512660_37);
 return;
 }
 case 1:
 {
-Obj _3512608_37= co->res;
-Obj _3512606_37 = R[1];
-Obj _3512605_37 = R[2];
-Obj _3512609_37 = makeCons(co->gc, _3512608_37, Nil);
-Obj _3512610_37 = makeCons(co->gc, _3512606_37, _3512609_37);
-Obj _3512611_37 = makeCons(co->gc, _3512605_37, _3512610_37);
-Obj _3512612_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512611_37);
-coraReturn(co, _3512612_37);
+Obj _3512666_37= co->res;
+Obj _3512664_37 = R[1];
+Obj _3512663_37 = R[2];
+Obj _3512667_37 = makeCons(co->gc, _3512666_37, Nil);
+Obj _3512668_37 = makeCons(co->gc, _3512664_37, _3512667_37);
+Obj _3512669_37 = makeCons(co->gc, _3512663_37, _3512668_37);
+Obj _3512670_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512669_37);
+coraReturn(co, _3512670_37);
 return;
 }
 case 2:
 {
-Obj _3512607_37= co->res;
-Obj _3512606_37 = R[1];
-Obj _3512605_37 = R[2];
-R[1] = _3512606_37;
-R[2] = _3512605_37;
+Obj _3512665_37= co->res;
+Obj _3512664_37 = R[1];
+Obj _3512663_37 = R[2];
+R[1] = _3512664_37;
+R[2] = _3512663_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512607_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512665_37);
 return;
 }
 case 3:
 {
-Obj _3512606_37= co->res;
+Obj _3512664_37= co->res;
 Obj exp = R[1];
-Obj _3512605_37 = R[2];
-R[1] = _3512606_37;
-R[2] = _3512605_37;
+Obj _3512663_37 = R[2];
+R[1] = _3512664_37;
+R[2] = _3512663_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 4:
 {
-Obj _3512603_37= co->res;
+Obj _3512661_37= co->res;
 Obj exp = R[1];
-if (True == _3512603_37) {
-Obj _3512604_37 = PRIM_CAR(exp);
-coraReturn(co, _3512604_37);
+if (True == _3512661_37) {
+Obj _3512662_37 = PRIM_CAR(exp);
+coraReturn(co, _3512662_37);
 return;
 } else {
-Obj _3512605_37 = PRIM_CAR(exp);
+Obj _3512663_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3512605_37;
+R[2] = _3512663_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
@@ -3686,9 +3685,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512599_37 = PRIM_ISCONS(x);
-Obj _3512600_37 = primNot(_3512599_37);
-coraReturn(co, _3512600_37);
+Obj _3512657_37 = PRIM_ISCONS(x);
+Obj _3512658_37 = primNot(_3512657_37);
+coraReturn(co, _3512658_37);
 return;
 }
 }
@@ -3700,17 +3699,17 @@ case 0:
 {
 Obj x = R[1];
 Obj l = R[2];
-Obj _3512594_37 = PRIM_ISCONS(l);
-if (True == _3512594_37) {
-Obj _3512595_37 = PRIM_CAR(l);
-Obj _3512596_37 = PRIM_EQ(_3512595_37, x);
-if (True == _3512596_37) {
+Obj _3512652_37 = PRIM_ISCONS(l);
+if (True == _3512652_37) {
+Obj _3512653_37 = PRIM_CAR(l);
+Obj _3512654_37 = PRIM_EQ(_3512653_37, x);
+if (True == _3512654_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512597_37 = PRIM_CDR(l);
+Obj _3512655_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512597_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512655_37);
 return;
 }
 } else {
@@ -3733,35 +3732,35 @@ return;
 }
 case 1:
 {
-Obj _3512586_37= co->res;
-Obj _3512585_37 = R[1];
-Obj _3512584_37 = R[2];
-Obj _3512587_37 = makeCons(co->gc, _3512586_37, Nil);
-Obj _3512588_37 = makeCons(co->gc, _3512585_37, _3512587_37);
-Obj _3512589_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512588_37);
-Obj _3512590_37 = makeCons(co->gc, _3512589_37, Nil);
-Obj _3512591_37 = makeCons(co->gc, _3512584_37, _3512590_37);
-Obj _3512592_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512591_37);
-coraReturn(co, _3512592_37);
+Obj _3512644_37= co->res;
+Obj _3512643_37 = R[1];
+Obj _3512642_37 = R[2];
+Obj _3512645_37 = makeCons(co->gc, _3512644_37, Nil);
+Obj _3512646_37 = makeCons(co->gc, _3512643_37, _3512645_37);
+Obj _3512647_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512646_37);
+Obj _3512648_37 = makeCons(co->gc, _3512647_37, Nil);
+Obj _3512649_37 = makeCons(co->gc, _3512642_37, _3512648_37);
+Obj _3512650_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512649_37);
+coraReturn(co, _3512650_37);
 return;
 }
 case 2:
 {
-Obj _3512585_37= co->res;
+Obj _3512643_37= co->res;
 Obj exp = R[1];
-Obj _3512584_37 = R[2];
-R[1] = _3512585_37;
-R[2] = _3512584_37;
+Obj _3512642_37 = R[2];
+R[1] = _3512643_37;
+R[2] = _3512642_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
 return;
 }
 case 3:
 {
-Obj _3512584_37= co->res;
+Obj _3512642_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-R[2] = _3512584_37;
+R[2] = _3512642_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3774,9 +3773,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512582_37 = PRIM_CDR(exp);
+Obj _3512640_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512582_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512640_37);
 return;
 }
 }
@@ -3794,36 +3793,36 @@ return;
 }
 case 1:
 {
-Obj _3512574_37= co->res;
-Obj _3512573_37 = R[1];
-Obj _3512572_37 = R[2];
-Obj _3512575_37 = makeCons(co->gc, _3512573_37, _3512574_37);
-Obj _3512576_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512575_37);
-Obj _3512577_37 = makeCons(co->gc, _3512576_37, Nil);
-Obj _3512578_37 = makeCons(co->gc, _3512572_37, _3512577_37);
-Obj _3512579_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512578_37);
-coraReturn(co, _3512579_37);
+Obj _3512632_37= co->res;
+Obj _3512631_37 = R[1];
+Obj _3512630_37 = R[2];
+Obj _3512633_37 = makeCons(co->gc, _3512631_37, _3512632_37);
+Obj _3512634_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512633_37);
+Obj _3512635_37 = makeCons(co->gc, _3512634_37, Nil);
+Obj _3512636_37 = makeCons(co->gc, _3512630_37, _3512635_37);
+Obj _3512637_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512636_37);
+coraReturn(co, _3512637_37);
 return;
 }
 case 2:
 {
-Obj _3512573_37= co->res;
+Obj _3512631_37= co->res;
 Obj exp = R[1];
-Obj _3512572_37 = R[2];
-R[1] = _3512573_37;
-R[2] = _3512572_37;
+Obj _3512630_37 = R[2];
+R[1] = _3512631_37;
+R[2] = _3512630_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
 return;
 }
 case 3:
 {
-Obj _3512570_37= co->res;
+Obj _3512628_37= co->res;
 Obj exp = R[1];
-Obj _3512571_37 = makeCons(co->gc, _3512570_37, Nil);
-Obj _3512572_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512571_37);
+Obj _3512629_37 = makeCons(co->gc, _3512628_37, Nil);
+Obj _3512630_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512629_37);
 R[1] = exp;
-R[2] = _3512572_37;
+R[2] = _3512630_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3836,26 +3835,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512552_37 = PRIM_ISCONS(exp);
-if (True == _3512552_37) {
-Obj _3512553_37 = PRIM_CAR(exp);
-Obj _3512554_37 = PRIM_EQ(_3512553_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3512554_37) {
-Obj _3512555_37 = PRIM_CDR(exp);
-coraReturn(co, _3512555_37);
-return;
-} else {
-Obj _3512556_37 = PRIM_CAR(exp);
-Obj _3512557_37 = PRIM_EQ(_3512556_37, getBinding(co, packageID, 140).name);
-if (True == _3512557_37) {
+Obj _3512610_37 = PRIM_ISCONS(exp);
+if (True == _3512610_37) {
+Obj _3512611_37 = PRIM_CAR(exp);
+Obj _3512612_37 = PRIM_EQ(_3512611_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == _3512612_37) {
+Obj _3512613_37 = PRIM_CDR(exp);
+coraReturn(co, _3512613_37);
+return;
+} else {
+Obj _3512614_37 = PRIM_CAR(exp);
+Obj _3512615_37 = PRIM_EQ(_3512614_37, getBinding(co, packageID, 140).name);
+if (True == _3512615_37) {
 R[1] = exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
 } else {
-Obj _3512564_37 = PRIM_CAR(exp);
-Obj _3512565_37 = PRIM_EQ(_3512564_37, getBinding(co, packageID, 139).name);
-if (True == _3512565_37) {
+Obj _3512622_37 = PRIM_CAR(exp);
+Obj _3512623_37 = PRIM_EQ(_3512622_37, getBinding(co, packageID, 139).name);
+if (True == _3512623_37) {
 coraReturn(co, exp);
 return;
 } else {
@@ -3873,38 +3872,38 @@ return;
 }
 case 1:
 {
-Obj _3512560_37= co->res;
-Obj _3512558_37 = R[1];
-Obj _3512561_37 = makeCons(co->gc, _3512560_37, Nil);
-Obj _3512562_37 = makeCons(co->gc, _3512558_37, _3512561_37);
-Obj _3512563_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512562_37);
-coraReturn(co, _3512563_37);
+Obj _3512618_37= co->res;
+Obj _3512616_37 = R[1];
+Obj _3512619_37 = makeCons(co->gc, _3512618_37, Nil);
+Obj _3512620_37 = makeCons(co->gc, _3512616_37, _3512619_37);
+Obj _3512621_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512620_37);
+coraReturn(co, _3512621_37);
 return;
 }
 case 2:
 {
-Obj _3512559_37= co->res;
-Obj _3512558_37 = R[1];
-R[1] = _3512558_37;
+Obj _3512617_37= co->res;
+Obj _3512616_37 = R[1];
+R[1] = _3512616_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512559_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512617_37);
 return;
 }
 case 3:
 {
-Obj _3512558_37= co->res;
+Obj _3512616_37= co->res;
 Obj exp = R[1];
-R[1] = _3512558_37;
+R[1] = _3512616_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
 }
 case 4:
 {
-Obj _3512567_37= co->res;
+Obj _3512625_37= co->res;
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512567_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512625_37);
 return;
 }
 }
@@ -3915,8 +3914,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp1 = R[1];
-Obj _3512566_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512566_37) {
+Obj _3512624_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
+if (True == _3512624_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
 return;
@@ -3947,14 +3946,14 @@ case 0:
 {
 Obj exp = R[1];
 Obj macros = R[2];
-Obj _3512542_37 = PRIM_EQ(Nil, macros);
-if (True == _3512542_37) {
+Obj _3512600_37 = PRIM_EQ(Nil, macros);
+if (True == _3512600_37) {
 coraReturn(co, exp);
 return;
 } else {
-Obj _3512549_37 = PRIM_CAR(macros);
+Obj _3512607_37 = PRIM_CAR(macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512549_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512607_37);
 return;
 }
 }
@@ -3966,24 +3965,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj item = R[1];
-Obj _3512470_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512545_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512545_37) {
-Obj _3512546_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512547_37 = PRIM_CAR(item);
-Obj _3512548_37 = PRIM_EQ(_3512546_37, _3512547_37);
-if (True == _3512548_37) {
+Obj _3512528_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3512603_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3512603_37) {
+Obj _3512604_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512605_37 = PRIM_CAR(item);
+Obj _3512606_37 = PRIM_EQ(_3512604_37, _3512605_37);
+if (True == _3512606_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512470_37, True);
+coraCall1(co, _3512528_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512470_37, False);
+coraCall1(co, _3512528_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512470_37, False);
+coraCall1(co, _3512528_37, False);
 return;
 }
 }
@@ -3994,16 +3993,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512471_37 = R[1];
-if (True == _3512471_37) {
-Obj _3512543_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512529_37 = R[1];
+if (True == _3512529_37) {
+Obj _3512601_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512543_37, closureRef(R[0], 1));
+coraCall1(co, _3512601_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512544_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3512602_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512544_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512602_37);
 return;
 }
 }
@@ -4016,10 +4015,10 @@ case 0:
 {
 Obj n = R[1];
 Obj v = R[2];
-Obj _3512538_37 = makeCons(co->gc, n, v);
-Obj _3512539_37 = makeCons(co->gc, _3512538_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3512540_37 = primSet(co, getBinding(co, packageID, 146).name, _3512539_37);
-coraReturn(co, _3512540_37);
+Obj _3512596_37 = makeCons(co->gc, n, v);
+Obj _3512597_37 = makeCons(co->gc, _3512596_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj _3512598_37 = primSet(co, getBinding(co, packageID, 146).name, _3512597_37);
+coraReturn(co, _3512598_37);
 return;
 }
 }
@@ -4045,14 +4044,14 @@ case 0:
 Obj res = R[1];
 Obj f = R[2];
 Obj l = R[3];
-Obj _3512528_37 = PRIM_ISCONS(l);
-if (True == _3512528_37) {
-Obj _3512529_37 = PRIM_CAR(l);
+Obj _3512586_37 = PRIM_ISCONS(l);
+if (True == _3512586_37) {
+Obj _3512587_37 = PRIM_CAR(l);
 R[1] = res;
 R[2] = l;
 R[3] = f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512529_37);
+coraCall1(co, f, _3512587_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4062,14 +4061,14 @@ return;
 }
 case 1:
 {
-Obj _3512530_37= co->res;
+Obj _3512588_37= co->res;
 Obj res = R[1];
 Obj l = R[2];
 Obj f = R[3];
-Obj _3512531_37 = makeCons(co->gc, _3512530_37, res);
-Obj _3512532_37 = PRIM_CDR(l);
+Obj _3512589_37 = makeCons(co->gc, _3512588_37, res);
+Obj _3512590_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512531_37, f, _3512532_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512589_37, f, _3512590_37);
 return;
 }
 }
@@ -4081,13 +4080,13 @@ case 0:
 {
 Obj res = R[1];
 Obj l = R[2];
-Obj _3512521_37 = PRIM_ISCONS(l);
-if (True == _3512521_37) {
-Obj _3512522_37 = PRIM_CAR(l);
-Obj _3512523_37 = makeCons(co->gc, _3512522_37, res);
-Obj _3512524_37 = PRIM_CDR(l);
+Obj _3512579_37 = PRIM_ISCONS(l);
+if (True == _3512579_37) {
+Obj _3512580_37 = PRIM_CAR(l);
+Obj _3512581_37 = makeCons(co->gc, _3512580_37, res);
+Obj _3512582_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512523_37, _3512524_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512581_37, _3512582_37);
 return;
 } else {
 coraReturn(co, res);
@@ -4102,8 +4101,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512519_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512519_37);
+Obj _3512577_37 = PRIM_ISCONS(x);
+coraReturn(co, _3512577_37);
 return;
 }
 }
@@ -4114,13 +4113,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512511_37 = PRIM_ISCONS(exp);
-if (True == _3512511_37) {
-Obj _3512512_37 = PRIM_CAR(exp);
-Obj _3512513_37 = PRIM_CDR(exp);
-R[1] = _3512512_37;
+Obj _3512569_37 = PRIM_ISCONS(exp);
+if (True == _3512569_37) {
+Obj _3512570_37 = PRIM_CAR(exp);
+Obj _3512571_37 = PRIM_CDR(exp);
+R[1] = _3512570_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512513_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512571_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4128,12 @@ return;
 }
 case 1:
 {
-Obj _3512514_37= co->res;
-Obj _3512512_37 = R[1];
-Obj _3512515_37 = makeCons(co->gc, _3512514_37, Nil);
-Obj _3512516_37 = makeCons(co->gc, _3512512_37, _3512515_37);
-Obj _3512517_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512516_37);
-coraReturn(co, _3512517_37);
+Obj _3512572_37= co->res;
+Obj _3512570_37 = R[1];
+Obj _3512573_37 = makeCons(co->gc, _3512572_37, Nil);
+Obj _3512574_37 = makeCons(co->gc, _3512570_37, _3512573_37);
+Obj _3512575_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512574_37);
+coraReturn(co, _3512575_37);
 return;
 }
 }
@@ -4145,10 +4144,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512507_37 = PRIM_CDR(x);
-Obj _3512508_37 = PRIM_CDR(_3512507_37);
-Obj _3512509_37 = PRIM_CDR(_3512508_37);
-coraReturn(co, _3512509_37);
+Obj _3512565_37 = PRIM_CDR(x);
+Obj _3512566_37 = PRIM_CDR(_3512565_37);
+Obj _3512567_37 = PRIM_CDR(_3512566_37);
+coraReturn(co, _3512567_37);
 return;
 }
 }
@@ -4159,11 +4158,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512502_37 = PRIM_CDR(x);
-Obj _3512503_37 = PRIM_CDR(_3512502_37);
-Obj _3512504_37 = PRIM_CDR(_3512503_37);
-Obj _3512505_37 = PRIM_CAR(_3512504_37);
-coraReturn(co, _3512505_37);
+Obj _3512560_37 = PRIM_CDR(x);
+Obj _3512561_37 = PRIM_CDR(_3512560_37);
+Obj _3512562_37 = PRIM_CDR(_3512561_37);
+Obj _3512563_37 = PRIM_CAR(_3512562_37);
+coraReturn(co, _3512563_37);
 return;
 }
 }
@@ -4174,10 +4173,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512498_37 = PRIM_CDR(x);
-Obj _3512499_37 = PRIM_CDR(_3512498_37);
-Obj _3512500_37 = PRIM_CAR(_3512499_37);
-coraReturn(co, _3512500_37);
+Obj _3512556_37 = PRIM_CDR(x);
+Obj _3512557_37 = PRIM_CDR(_3512556_37);
+Obj _3512558_37 = PRIM_CAR(_3512557_37);
+coraReturn(co, _3512558_37);
 return;
 }
 }
@@ -4188,9 +4187,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512495_37 = PRIM_CDR(x);
-Obj _3512496_37 = PRIM_CDR(_3512495_37);
-coraReturn(co, _3512496_37);
+Obj _3512553_37 = PRIM_CDR(x);
+Obj _3512554_37 = PRIM_CDR(_3512553_37);
+coraReturn(co, _3512554_37);
 return;
 }
 }
@@ -4201,9 +4200,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512492_37 = PRIM_CAR(x);
-Obj _3512493_37 = PRIM_CDR(_3512492_37);
-coraReturn(co, _3512493_37);
+Obj _3512550_37 = PRIM_CAR(x);
+Obj _3512551_37 = PRIM_CDR(_3512550_37);
+coraReturn(co, _3512551_37);
 return;
 }
 }
@@ -4214,9 +4213,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512489_37 = PRIM_CAR(x);
-Obj _3512490_37 = PRIM_CAR(_3512489_37);
-coraReturn(co, _3512490_37);
+Obj _3512547_37 = PRIM_CAR(x);
+Obj _3512548_37 = PRIM_CAR(_3512547_37);
+coraReturn(co, _3512548_37);
 return;
 }
 }
@@ -4227,9 +4226,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512486_37 = PRIM_CDR(x);
-Obj _3512487_37 = PRIM_CAR(_3512486_37);
-coraReturn(co, _3512487_37);
+Obj _3512544_37 = PRIM_CDR(x);
+Obj _3512545_37 = PRIM_CAR(_3512544_37);
+coraReturn(co, _3512545_37);
 return;
 }
 }
@@ -4240,8 +4239,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512484_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512484_37);
+Obj _3512542_37 = PRIM_EQ(x, Nil);
+coraReturn(co, _3512542_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 270589b..dfb0dc8 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -285,8 +285,7 @@ __symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
 __symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
-co->ctx.fn = clofun145;
-co->ctx.label = 0;
+coraCall0(co, makeNative(co->gc, 1, clofun145, 0, 0));
 }
 
 static void clofun145(struct Cora* co, int label, Obj *R) {
@@ -299,152 +298,152 @@ return;
 }
 case 1:
 {
-Obj _3518181_37= co->res;
-Obj _3518187_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518193_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj _3518215_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun114, 3, 0));
-Obj _3518234_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun116, 3, 0));
-Obj _3518244_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun119, 3, 0));
-Obj _3518285_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
-Obj _3518324_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
-Obj _3518376_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518377_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj _3518391_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
-Obj _3518392_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3518405_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
-Obj _3518415_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
-coraReturn(co, _3518415_37);
+Obj _3518239_37= co->res;
+Obj _3518245_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj _3518251_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj _3518273_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun114, 3, 0));
+Obj _3518293_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun116, 4, 0));
+Obj _3518306_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun119, 3, 0));
+Obj _3518347_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
+Obj _3518386_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
+Obj _3518438_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj _3518439_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj _3518453_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
+Obj _3518454_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj _3518467_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
+Obj _3518477_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
+coraReturn(co, _3518477_37);
 return;
 }
 case 2:
 {
-Obj _3516797_37= co->res;
-Obj _3516798_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3516813_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516819_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516829_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516830_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516837_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516838_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516839_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516838_37);
-Obj _3516840_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516839_37);
-Obj _3516841_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3516842_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516841_37);
-Obj _3516843_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516842_37);
-Obj _3516844_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516845_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516844_37);
-Obj _3516846_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516845_37);
-Obj _3516847_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516848_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516847_37);
-Obj _3516849_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516848_37);
-Obj _3516850_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516851_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516850_37);
-Obj _3516852_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516851_37);
-Obj _3516853_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3516854_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516853_37);
-Obj _3516855_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516854_37);
-Obj _3516856_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3516857_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516856_37);
-Obj _3516858_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516857_37);
-Obj _3516859_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3516860_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516859_37);
-Obj _3516861_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516860_37);
-Obj _3516862_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3516863_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516862_37);
-Obj _3516864_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516863_37);
-Obj _3516865_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3516866_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516865_37);
-Obj _3516867_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516866_37);
-Obj _3516868_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3516869_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516868_37);
-Obj _3516870_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516869_37);
-Obj _3516871_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516872_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516871_37);
-Obj _3516873_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516872_37);
-Obj _3516874_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516875_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516874_37);
-Obj _3516876_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516875_37);
-Obj _3516877_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3516878_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516877_37);
-Obj _3516879_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516878_37);
-Obj _3516880_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3516881_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516880_37);
-Obj _3516882_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516881_37);
-Obj _3516883_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3516884_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516883_37);
-Obj _3516885_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516884_37);
-Obj _3516886_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516887_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516886_37);
-Obj _3516888_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516887_37);
-Obj _3516889_37 = makeCons(co->gc, _3516888_37, Nil);
-Obj _3516890_37 = makeCons(co->gc, _3516885_37, _3516889_37);
-Obj _3516891_37 = makeCons(co->gc, _3516882_37, _3516890_37);
-Obj _3516892_37 = makeCons(co->gc, _3516879_37, _3516891_37);
-Obj _3516893_37 = makeCons(co->gc, _3516876_37, _3516892_37);
-Obj _3516894_37 = makeCons(co->gc, _3516873_37, _3516893_37);
-Obj _3516895_37 = makeCons(co->gc, _3516870_37, _3516894_37);
-Obj _3516896_37 = makeCons(co->gc, _3516867_37, _3516895_37);
-Obj _3516897_37 = makeCons(co->gc, _3516864_37, _3516896_37);
-Obj _3516898_37 = makeCons(co->gc, _3516861_37, _3516897_37);
-Obj _3516899_37 = makeCons(co->gc, _3516858_37, _3516898_37);
-Obj _3516900_37 = makeCons(co->gc, _3516855_37, _3516899_37);
-Obj _3516901_37 = makeCons(co->gc, _3516852_37, _3516900_37);
-Obj _3516902_37 = makeCons(co->gc, _3516849_37, _3516901_37);
-Obj _3516903_37 = makeCons(co->gc, _3516846_37, _3516902_37);
-Obj _3516904_37 = makeCons(co->gc, _3516843_37, _3516903_37);
-Obj _3516905_37 = makeCons(co->gc, _3516840_37, _3516904_37);
-Obj _3516906_37 = primSet(co, getBinding(co, packageID, 122).name, _3516905_37);
-Obj _3516910_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516913_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516916_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516921_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517115_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517126_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517137_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517198_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517373_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517448_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun45, 2, 0));
-Obj _3517451_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun46, 1, 0));
-Obj _3517588_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3517611_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj _3517688_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun62, 2, 0));
-Obj _3517719_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun66, 3, 0));
-Obj _3517725_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun69, 4, 0));
-Obj _3517730_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun71, 2, 0));
-Obj _3517739_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun73, 1, 0));
-Obj _3517790_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun75, 2, 0));
-Obj _3517798_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun76, 2, 0));
-Obj _3517805_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun77, 2, 0));
-Obj _3517810_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun78, 2, 0));
-Obj _3517816_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun79, 3, 0));
-Obj _3517817_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3517824_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun82, 5, 0));
-Obj _3517831_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun84, 5, 0));
-Obj _3518118_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun97, 5, 0));
-Obj _3518132_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun99, 5, 0));
-Obj _3518154_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun101, 5, 0));
-Obj _3518156_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518160_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518161_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj _3518162_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518163_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518164_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj _3518171_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun108, 1, 0));
-Obj _3518178_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun109, 2, 0));
+Obj _3516855_37= co->res;
+Obj _3516856_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj _3516871_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj _3516877_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj _3516887_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj _3516888_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj _3516895_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj _3516896_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3516897_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516896_37);
+Obj _3516898_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516897_37);
+Obj _3516899_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3516900_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516899_37);
+Obj _3516901_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516900_37);
+Obj _3516902_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3516903_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516902_37);
+Obj _3516904_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516903_37);
+Obj _3516905_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3516906_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516905_37);
+Obj _3516907_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516906_37);
+Obj _3516908_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3516909_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516908_37);
+Obj _3516910_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516909_37);
+Obj _3516911_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3516912_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516911_37);
+Obj _3516913_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516912_37);
+Obj _3516914_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3516915_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516914_37);
+Obj _3516916_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516915_37);
+Obj _3516917_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3516918_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516917_37);
+Obj _3516919_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516918_37);
+Obj _3516920_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3516921_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516920_37);
+Obj _3516922_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516921_37);
+Obj _3516923_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3516924_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516923_37);
+Obj _3516925_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516924_37);
+Obj _3516926_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3516927_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516926_37);
+Obj _3516928_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516927_37);
+Obj _3516929_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3516930_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516929_37);
+Obj _3516931_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516930_37);
+Obj _3516932_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3516933_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516932_37);
+Obj _3516934_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516933_37);
+Obj _3516935_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3516936_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516935_37);
+Obj _3516937_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516936_37);
+Obj _3516938_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3516939_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516938_37);
+Obj _3516940_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516939_37);
+Obj _3516941_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3516942_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516941_37);
+Obj _3516943_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516942_37);
+Obj _3516944_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3516945_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516944_37);
+Obj _3516946_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516945_37);
+Obj _3516947_37 = makeCons(co->gc, _3516946_37, Nil);
+Obj _3516948_37 = makeCons(co->gc, _3516943_37, _3516947_37);
+Obj _3516949_37 = makeCons(co->gc, _3516940_37, _3516948_37);
+Obj _3516950_37 = makeCons(co->gc, _3516937_37, _3516949_37);
+Obj _3516951_37 = makeCons(co->gc, _3516934_37, _3516950_37);
+Obj _3516952_37 = makeCons(co->gc, _3516931_37, _3516951_37);
+Obj _3516953_37 = makeCons(co->gc, _3516928_37, _3516952_37);
+Obj _3516954_37 = makeCons(co->gc, _3516925_37, _3516953_37);
+Obj _3516955_37 = makeCons(co->gc, _3516922_37, _3516954_37);
+Obj _3516956_37 = makeCons(co->gc, _3516919_37, _3516955_37);
+Obj _3516957_37 = makeCons(co->gc, _3516916_37, _3516956_37);
+Obj _3516958_37 = makeCons(co->gc, _3516913_37, _3516957_37);
+Obj _3516959_37 = makeCons(co->gc, _3516910_37, _3516958_37);
+Obj _3516960_37 = makeCons(co->gc, _3516907_37, _3516959_37);
+Obj _3516961_37 = makeCons(co->gc, _3516904_37, _3516960_37);
+Obj _3516962_37 = makeCons(co->gc, _3516901_37, _3516961_37);
+Obj _3516963_37 = makeCons(co->gc, _3516898_37, _3516962_37);
+Obj _3516964_37 = primSet(co, getBinding(co, packageID, 122).name, _3516963_37);
+Obj _3516968_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3516971_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3516974_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3516979_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3517173_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
+Obj _3517184_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
+Obj _3517195_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj _3517256_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj _3517431_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
+Obj _3517506_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun45, 2, 0));
+Obj _3517509_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun46, 1, 0));
+Obj _3517646_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3517669_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj _3517746_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj _3517777_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun66, 3, 0));
+Obj _3517783_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun69, 4, 0));
+Obj _3517788_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3517797_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun73, 1, 0));
+Obj _3517848_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun75, 2, 0));
+Obj _3517856_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun76, 2, 0));
+Obj _3517863_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun77, 2, 0));
+Obj _3517868_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun78, 2, 0));
+Obj _3517874_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun79, 3, 0));
+Obj _3517875_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3517882_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun82, 5, 0));
+Obj _3517889_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun84, 5, 0));
+Obj _3518176_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun97, 5, 0));
+Obj _3518190_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun99, 5, 0));
+Obj _3518212_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun101, 5, 0));
+Obj _3518214_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj _3518218_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj _3518219_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj _3518220_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj _3518221_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj _3518222_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj _3518229_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun108, 1, 0));
+Obj _3518236_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun109, 2, 0));
 saveCont(co, clofun145, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun110, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516796_37= co->res;
+Obj _3516854_37= co->res;
 saveCont(co, clofun145, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516795_37= co->res;
+Obj _3516853_37= co->res;
 saveCont(co, clofun145, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -458,9 +457,9 @@ case 0:
 {
 Obj from = R[1];
 Obj to = R[2];
-Obj _3518406_37 = primGenSym(co);
-Obj globals = _3518406_37;
-Obj _3518407_37 = primSet(co, globals, Nil);
+Obj _3518468_37 = primGenSym(co);
+Obj globals = _3518468_37;
+Obj _3518469_37 = primSet(co, globals, Nil);
 R[1] = from;
 R[2] = to;
 R[3] = globals;
@@ -470,7 +469,7 @@ return;
 }
 case 1:
 {
-Obj _3518414_37= co->res;
+Obj _3518476_37= co->res;
 Obj stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), stream);
@@ -478,20 +477,20 @@ return;
 }
 case 2:
 {
-Obj _3518413_37= co->res;
+Obj _3518475_37= co->res;
 Obj bc = R[1];
 Obj stream = R[2];
 R[1] = stream;
 saveCont(co, clofun144, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518413_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518475_37);
 return;
 }
 case 3:
 {
-Obj _3518412_37= co->res;
+Obj _3518474_37= co->res;
 Obj globals = R[1];
 Obj bc = R[2];
-Obj stream = _3518412_37;
+Obj stream = _3518474_37;
 R[1] = bc;
 R[2] = stream;
 saveCont(co, clofun144, 2, R);
@@ -500,10 +499,10 @@ return;
 }
 case 4:
 {
-Obj _3518411_37= co->res;
+Obj _3518473_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
-Obj bc = _3518411_37;
+Obj bc = _3518473_37;
 R[1] = globals;
 R[2] = bc;
 saveCont(co, clofun144, 3, R);
@@ -512,36 +511,36 @@ return;
 }
 case 5:
 {
-Obj _3518410_37= co->res;
-Obj _3518408_37 = R[1];
+Obj _3518472_37= co->res;
+Obj _3518470_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
 saveCont(co, clofun144, 4, R);
-coraCall1(co, _3518408_37, _3518410_37);
+coraCall1(co, _3518470_37, _3518472_37);
 return;
 }
 case 6:
 {
-Obj _3518409_37= co->res;
-Obj _3518408_37 = R[1];
+Obj _3518471_37= co->res;
+Obj _3518470_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518408_37;
+R[1] = _3518470_37;
 R[2] = to;
 R[3] = globals;
 saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518409_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518471_37);
 return;
 }
 case 7:
 {
-Obj _3518408_37= co->res;
+Obj _3518470_37= co->res;
 Obj from = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518408_37;
+R[1] = _3518470_37;
 R[2] = to;
 R[3] = globals;
 saveCont(co, clofun144, 6, R);
@@ -562,7 +561,7 @@ return;
 }
 case 1:
 {
-Obj _3518400_37= co->res;
+Obj _3518462_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -570,7 +569,7 @@ return;
 }
 case 2:
 {
-Obj _3518399_37= co->res;
+Obj _3518461_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun143, 1, R);
@@ -579,7 +578,7 @@ return;
 }
 case 3:
 {
-Obj _3518402_37= co->res;
+Obj _3518464_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -587,7 +586,7 @@ return;
 }
 case 4:
 {
-Obj _3518401_37= co->res;
+Obj _3518463_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun143, 3, R);
@@ -596,7 +595,7 @@ return;
 }
 case 5:
 {
-Obj _3518404_37= co->res;
+Obj _3518466_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -604,7 +603,7 @@ return;
 }
 case 6:
 {
-Obj _3518403_37= co->res;
+Obj _3518465_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun143, 5, R);
@@ -613,36 +612,36 @@ return;
 }
 case 7:
 {
-Obj _3518396_37= co->res;
-Obj _3516793_37 = R[1];
+Obj _3518458_37= co->res;
+Obj _3516851_37 = R[1];
 Obj sexp = R[2];
-if (True == _3518396_37) {
-Obj _3518397_37 = PRIM_CAR(sexp);
-Obj _3518398_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518397_37);
-if (True == _3518398_37) {
+if (True == _3518458_37) {
+Obj _3518459_37 = PRIM_CAR(sexp);
+Obj _3518460_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518459_37);
+if (True == _3518460_37) {
 R[1] = sexp;
 saveCont(co, clofun143, 2, R);
-coraCall1(co, _3516793_37, True);
+coraCall1(co, _3516851_37, True);
 return;
 } else {
 R[1] = sexp;
 saveCont(co, clofun143, 4, R);
-coraCall1(co, _3516793_37, False);
+coraCall1(co, _3516851_37, False);
 return;
 }
 } else {
 R[1] = sexp;
 saveCont(co, clofun143, 6, R);
-coraCall1(co, _3516793_37, False);
+coraCall1(co, _3516851_37, False);
 return;
 }
 }
 case 8:
 {
-Obj _3518393_37= co->res;
-Obj sexp = _3518393_37;
-Obj _3516793_37 = makeNative(co->gc, 2, clofun142, 1, 1, sexp);
-R[1] = _3516793_37;
+Obj _3518455_37= co->res;
+Obj sexp = _3518455_37;
+Obj _3516851_37 = makeNative(co->gc, 2, clofun142, 1, 1, sexp);
+R[1] = _3516851_37;
 R[2] = sexp;
 saveCont(co, clofun143, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), sexp);
@@ -655,14 +654,14 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516794_37 = R[1];
-if (True == _3516794_37) {
-Obj _3518394_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3518394_37);
+Obj _3516852_37 = R[1];
+if (True == _3516852_37) {
+Obj _3518456_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, _3518456_37);
 return;
 } else {
-Obj _3518395_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3518395_37);
+Obj _3518457_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, _3518457_37);
 return;
 }
 }
@@ -673,27 +672,27 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516781_37 = R[1];
-Obj _3516782_37 = makeNative(co->gc, 1, clofun138, 0, 1, _3516781_37);
-Obj _3518386_37 = PRIM_ISCONS(_3516781_37);
-if (True == _3518386_37) {
-Obj _3518387_37 = PRIM_CAR(_3516781_37);
-Obj _3518388_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518387_37);
-if (True == _3518388_37) {
-Obj _3518389_37 = PRIM_CDR(_3516781_37);
-Obj more = _3518389_37;
-Obj _3518390_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
+Obj _3516839_37 = R[1];
+Obj _3516840_37 = makeNative(co->gc, 1, clofun138, 0, 1, _3516839_37);
+Obj _3518448_37 = PRIM_ISCONS(_3516839_37);
+if (True == _3518448_37) {
+Obj _3518449_37 = PRIM_CAR(_3516839_37);
+Obj _3518450_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518449_37);
+if (True == _3518450_37) {
+Obj _3518451_37 = PRIM_CDR(_3516839_37);
+Obj more = _3518451_37;
+Obj _3518452_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518390_37, makeNative(co->gc, 2, clofun140, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518452_37, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516782_37);
+coraCall0(co, _3516840_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516782_37);
+coraCall0(co, _3516840_37);
 return;
 }
 }
@@ -729,26 +728,26 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516783_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
-Obj _3518381_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518381_37) {
-Obj _3518382_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518383_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518382_37);
-if (True == _3518383_37) {
-Obj _3518384_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518384_37;
-Obj _3518385_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj _3516841_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
+Obj _3518443_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518443_37) {
+Obj _3518444_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518445_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518444_37);
+if (True == _3518445_37) {
+Obj _3518446_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518446_37;
+Obj _3518447_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518385_37, makeNative(co->gc, 2, clofun137, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518447_37, makeNative(co->gc, 2, clofun137, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516783_37);
+coraCall0(co, _3516841_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516783_37);
+coraCall0(co, _3516841_37);
 return;
 }
 }
@@ -784,9 +783,9 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518378_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3518440_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518378_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518440_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
 return;
 }
 }
@@ -804,9 +803,9 @@ return;
 }
 case 1:
 {
-Obj _3518379_37= co->res;
-Obj _3518380_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518379_37);
-coraReturn(co, _3518380_37);
+Obj _3518441_37= co->res;
+Obj _3518442_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518441_37);
+coraReturn(co, _3518442_37);
 return;
 }
 }
@@ -834,50 +833,50 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516774_37 = R[1];
-Obj _3516775_37 = R[2];
-Obj _3516776_37 = makeNative(co->gc, 2, clofun131, 0, 2, _3516774_37, _3516775_37);
-Obj _3518364_37 = PRIM_ISCONS(_3516774_37);
-if (True == _3518364_37) {
-Obj _3518365_37 = PRIM_CAR(_3516774_37);
-Obj _3518366_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518365_37);
-if (True == _3518366_37) {
-Obj _3518367_37 = PRIM_CDR(_3516774_37);
-Obj _3518368_37 = PRIM_ISCONS(_3518367_37);
-if (True == _3518368_37) {
-Obj _3518369_37 = PRIM_CDR(_3516774_37);
-Obj _3518370_37 = PRIM_CAR(_3518369_37);
-Obj name = _3518370_37;
-Obj _3518371_37 = PRIM_CDR(_3516774_37);
-Obj _3518372_37 = PRIM_CDR(_3518371_37);
-Obj more = _3518372_37;
+Obj _3516832_37 = R[1];
+Obj _3516833_37 = R[2];
+Obj _3516834_37 = makeNative(co->gc, 2, clofun131, 0, 2, _3516832_37, _3516833_37);
+Obj _3518426_37 = PRIM_ISCONS(_3516832_37);
+if (True == _3518426_37) {
+Obj _3518427_37 = PRIM_CAR(_3516832_37);
+Obj _3518428_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518427_37);
+if (True == _3518428_37) {
+Obj _3518429_37 = PRIM_CDR(_3516832_37);
+Obj _3518430_37 = PRIM_ISCONS(_3518429_37);
+if (True == _3518430_37) {
+Obj _3518431_37 = PRIM_CDR(_3516832_37);
+Obj _3518432_37 = PRIM_CAR(_3518431_37);
+Obj name = _3518432_37;
+Obj _3518433_37 = PRIM_CDR(_3516832_37);
+Obj _3518434_37 = PRIM_CDR(_3518433_37);
+Obj more = _3518434_37;
 R[1] = name;
 saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516775_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516833_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516776_37);
+coraCall0(co, _3516834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516776_37);
+coraCall0(co, _3516834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516776_37);
+coraCall0(co, _3516834_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518373_37= co->res;
+Obj _3518435_37= co->res;
 Obj name = R[1];
-Obj _3518374_37 = makeCons(co->gc, name, _3518373_37);
-Obj _3518375_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518374_37);
-coraReturn(co, _3518375_37);
+Obj _3518436_37 = makeCons(co->gc, name, _3518435_37);
+Obj _3518437_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518436_37);
+coraReturn(co, _3518437_37);
 return;
 }
 }
@@ -887,69 +886,69 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516777_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518343_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518343_37) {
-Obj _3518344_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518345_37 = PRIM_ISCONS(_3518344_37);
-if (True == _3518345_37) {
-Obj _3518346_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518347_37 = PRIM_CAR(_3518346_37);
-Obj _3518348_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518347_37);
-if (True == _3518348_37) {
-Obj _3518349_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518350_37 = PRIM_CDR(_3518349_37);
-Obj _3518351_37 = PRIM_ISCONS(_3518350_37);
-if (True == _3518351_37) {
-Obj _3518352_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518353_37 = PRIM_CDR(_3518352_37);
-Obj _3518354_37 = PRIM_CAR(_3518353_37);
-Obj pkg = _3518354_37;
-Obj _3518355_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518356_37 = PRIM_CDR(_3518355_37);
-Obj _3518357_37 = PRIM_CDR(_3518356_37);
-Obj _3518358_37 = PRIM_EQ(Nil, _3518357_37);
-if (True == _3518358_37) {
-Obj _3518359_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518359_37;
-Obj _3518360_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518361_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518360_37);
-R[1] = _3518361_37;
+Obj _3516835_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518405_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518405_37) {
+Obj _3518406_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518407_37 = PRIM_ISCONS(_3518406_37);
+if (True == _3518407_37) {
+Obj _3518408_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518409_37 = PRIM_CAR(_3518408_37);
+Obj _3518410_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518409_37);
+if (True == _3518410_37) {
+Obj _3518411_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518412_37 = PRIM_CDR(_3518411_37);
+Obj _3518413_37 = PRIM_ISCONS(_3518412_37);
+if (True == _3518413_37) {
+Obj _3518414_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518415_37 = PRIM_CDR(_3518414_37);
+Obj _3518416_37 = PRIM_CAR(_3518415_37);
+Obj pkg = _3518416_37;
+Obj _3518417_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518418_37 = PRIM_CDR(_3518417_37);
+Obj _3518419_37 = PRIM_CDR(_3518418_37);
+Obj _3518420_37 = PRIM_EQ(Nil, _3518419_37);
+if (True == _3518420_37) {
+Obj _3518421_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518421_37;
+Obj _3518422_37 = makeCons(co->gc, pkg, Nil);
+Obj _3518423_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518422_37);
+R[1] = _3518423_37;
 saveCont(co, clofun131, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516835_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516835_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516835_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516835_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516835_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518362_37= co->res;
-Obj _3518361_37 = R[1];
-Obj _3518363_37 = makeCons(co->gc, _3518361_37, _3518362_37);
-coraReturn(co, _3518363_37);
+Obj _3518424_37= co->res;
+Obj _3518423_37 = R[1];
+Obj _3518425_37 = makeCons(co->gc, _3518423_37, _3518424_37);
+coraReturn(co, _3518425_37);
 return;
 }
 }
@@ -959,48 +958,48 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516778_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518331_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518331_37) {
-Obj _3518332_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518333_37 = PRIM_ISCONS(_3518332_37);
-if (True == _3518333_37) {
-Obj _3518334_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518335_37 = PRIM_CAR(_3518334_37);
-Obj _3518336_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518335_37);
-if (True == _3518336_37) {
-Obj _3518337_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518338_37 = PRIM_CDR(_3518337_37);
-Obj symbols = _3518338_37;
-Obj _3518339_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518339_37;
-Obj _3518340_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
-R[1] = _3518340_37;
+Obj _3516836_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518393_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518393_37) {
+Obj _3518394_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518395_37 = PRIM_ISCONS(_3518394_37);
+if (True == _3518395_37) {
+Obj _3518396_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518397_37 = PRIM_CAR(_3518396_37);
+Obj _3518398_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518397_37);
+if (True == _3518398_37) {
+Obj _3518399_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518400_37 = PRIM_CDR(_3518399_37);
+Obj symbols = _3518400_37;
+Obj _3518401_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518401_37;
+Obj _3518402_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
+R[1] = _3518402_37;
 saveCont(co, clofun130, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516778_37);
+coraCall0(co, _3516836_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516778_37);
+coraCall0(co, _3516836_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516778_37);
+coraCall0(co, _3516836_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518341_37= co->res;
-Obj _3518340_37 = R[1];
-Obj _3518342_37 = makeCons(co->gc, _3518340_37, _3518341_37);
-coraReturn(co, _3518342_37);
+Obj _3518403_37= co->res;
+Obj _3518402_37 = R[1];
+Obj _3518404_37 = makeCons(co->gc, _3518402_37, _3518403_37);
+coraReturn(co, _3518404_37);
 return;
 }
 }
@@ -1010,33 +1009,33 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516779_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518325_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518325_37) {
-Obj _3518326_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518327_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518326_37);
-if (True == _3518327_37) {
-Obj _3518328_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518328_37;
+Obj _3516837_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3518387_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518387_37) {
+Obj _3518388_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518389_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518388_37);
+if (True == _3518389_37) {
+Obj _3518390_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518390_37;
 saveCont(co, clofun129, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516779_37);
+coraCall0(co, _3516837_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516779_37);
+coraCall0(co, _3516837_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518329_37= co->res;
-Obj _3518330_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518329_37);
-coraReturn(co, _3518330_37);
+Obj _3518391_37= co->res;
+Obj _3518392_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518391_37);
+coraReturn(co, _3518392_37);
 return;
 }
 }
@@ -1057,73 +1056,73 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516766_37 = R[1];
-Obj _3516767_37 = R[2];
-Obj _3516768_37 = R[3];
-Obj _3516769_37 = R[4];
-Obj _3518286_37 = PRIM_EQ(Nil, _3516766_37);
-if (True == _3518286_37) {
-R[1] = _3516768_37;
-R[2] = _3516769_37;
+Obj _3516824_37 = R[1];
+Obj _3516825_37 = R[2];
+Obj _3516826_37 = R[3];
+Obj _3516827_37 = R[4];
+Obj _3518348_37 = PRIM_EQ(Nil, _3516824_37);
+if (True == _3518348_37) {
+R[1] = _3516826_37;
+R[2] = _3516827_37;
 saveCont(co, clofun127, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516767_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516825_37);
 return;
 } else {
-Obj _3516771_37 = makeNative(co->gc, 1, clofun126, 0, 4, _3516766_37, _3516767_37, _3516768_37, _3516769_37);
-Obj _3518313_37 = PRIM_ISCONS(_3516766_37);
-if (True == _3518313_37) {
-Obj _3518314_37 = PRIM_CAR(_3516766_37);
-Obj _3518315_37 = PRIM_ISCONS(_3518314_37);
-if (True == _3518315_37) {
-Obj _3518316_37 = PRIM_CAR(_3516766_37);
-Obj _3518317_37 = PRIM_CAR(_3518316_37);
-Obj _3518318_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518317_37);
-if (True == _3518318_37) {
-Obj _3518319_37 = PRIM_CAR(_3516766_37);
-Obj _3518320_37 = PRIM_CDR(_3518319_37);
-Obj exp = _3518320_37;
-Obj _3518321_37 = PRIM_CDR(_3516766_37);
-Obj more = _3518321_37;
-Obj _3518322_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
-Obj _3518323_37 = makeCons(co->gc, _3518322_37, _3516767_37);
+Obj _3516829_37 = makeNative(co->gc, 1, clofun126, 0, 4, _3516824_37, _3516825_37, _3516826_37, _3516827_37);
+Obj _3518375_37 = PRIM_ISCONS(_3516824_37);
+if (True == _3518375_37) {
+Obj _3518376_37 = PRIM_CAR(_3516824_37);
+Obj _3518377_37 = PRIM_ISCONS(_3518376_37);
+if (True == _3518377_37) {
+Obj _3518378_37 = PRIM_CAR(_3516824_37);
+Obj _3518379_37 = PRIM_CAR(_3518378_37);
+Obj _3518380_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518379_37);
+if (True == _3518380_37) {
+Obj _3518381_37 = PRIM_CAR(_3516824_37);
+Obj _3518382_37 = PRIM_CDR(_3518381_37);
+Obj exp = _3518382_37;
+Obj _3518383_37 = PRIM_CDR(_3516824_37);
+Obj more = _3518383_37;
+Obj _3518384_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
+Obj _3518385_37 = makeCons(co->gc, _3518384_37, _3516825_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518323_37, _3516768_37, _3516769_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518385_37, _3516826_37, _3516827_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3516829_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3516829_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3516829_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518288_37= co->res;
-Obj _3516769_37 = R[1];
-Obj _3518287_37 = R[2];
+Obj _3518350_37= co->res;
+Obj _3516827_37 = R[1];
+Obj _3518349_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516769_37, _3518287_37, _3518288_37);
+coraCall2(co, _3516827_37, _3518349_37, _3518350_37);
 return;
 }
 case 2:
 {
-Obj _3518287_37= co->res;
-Obj _3516768_37 = R[1];
-Obj _3516769_37 = R[2];
-R[1] = _3516769_37;
-R[2] = _3518287_37;
+Obj _3518349_37= co->res;
+Obj _3516826_37 = R[1];
+Obj _3516827_37 = R[2];
+R[1] = _3516827_37;
+R[2] = _3518349_37;
 saveCont(co, clofun127, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516768_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516826_37);
 return;
 }
 }
@@ -1133,39 +1132,39 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516772_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518302_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518302_37) {
-Obj _3518303_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518304_37 = PRIM_ISCONS(_3518303_37);
-if (True == _3518304_37) {
-Obj _3518305_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518306_37 = PRIM_CAR(_3518305_37);
-Obj _3518307_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518306_37);
-if (True == _3518307_37) {
-Obj _3518308_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518309_37 = PRIM_CDR(_3518308_37);
-Obj exp = _3518309_37;
-Obj _3518310_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518310_37;
-Obj _3518311_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
-Obj _3518312_37 = makeCons(co->gc, _3518311_37, closureRef(R[0], 1));
+Obj _3516830_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3518364_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518364_37) {
+Obj _3518365_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518366_37 = PRIM_ISCONS(_3518365_37);
+if (True == _3518366_37) {
+Obj _3518367_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518368_37 = PRIM_CAR(_3518367_37);
+Obj _3518369_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518368_37);
+if (True == _3518369_37) {
+Obj _3518370_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518371_37 = PRIM_CDR(_3518370_37);
+Obj exp = _3518371_37;
+Obj _3518372_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518372_37;
+Obj _3518373_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
+Obj _3518374_37 = makeCons(co->gc, _3518373_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518312_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518374_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516772_37);
+coraCall0(co, _3516830_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516772_37);
+coraCall0(co, _3516830_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516772_37);
+coraCall0(co, _3516830_37);
 return;
 }
 }
@@ -1176,24 +1175,24 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518289_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518289_37) {
-Obj _3518290_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518290_37;
-Obj _3518291_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518291_37;
-Obj _3518292_37 = makeCons(co->gc, exp, Nil);
-Obj _3518293_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518292_37);
-Obj _3518294_37 = makeCons(co->gc, _3518293_37, Nil);
-Obj _3518295_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518294_37);
-Obj _3518296_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3518297_37 = makeCons(co->gc, _3518296_37, Nil);
-Obj _3518298_37 = makeCons(co->gc, _3518295_37, _3518297_37);
-Obj _3518299_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518298_37);
-Obj _3518300_37 = makeCons(co->gc, _3518299_37, closureRef(R[0], 1));
-Obj _3518301_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj _3518351_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518351_37) {
+Obj _3518352_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj exp = _3518352_37;
+Obj _3518353_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518353_37;
+Obj _3518354_37 = makeCons(co->gc, exp, Nil);
+Obj _3518355_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518354_37);
+Obj _3518356_37 = makeCons(co->gc, _3518355_37, Nil);
+Obj _3518357_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518356_37);
+Obj _3518358_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj _3518359_37 = makeCons(co->gc, _3518358_37, Nil);
+Obj _3518360_37 = makeCons(co->gc, _3518357_37, _3518359_37);
+Obj _3518361_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518360_37);
+Obj _3518362_37 = makeCons(co->gc, _3518361_37, closureRef(R[0], 1));
+Obj _3518363_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518300_37, _3518301_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518362_37, _3518363_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1208,37 +1207,37 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516760_37 = R[1];
-Obj _3516761_37 = makeNative(co->gc, 1, clofun123, 0, 1, _3516760_37);
-Obj _3518276_37 = PRIM_ISCONS(_3516760_37);
-if (True == _3518276_37) {
-Obj _3518277_37 = PRIM_CAR(_3516760_37);
-Obj _3518278_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518277_37);
-if (True == _3518278_37) {
-Obj _3518279_37 = PRIM_CDR(_3516760_37);
-Obj _3518280_37 = PRIM_ISCONS(_3518279_37);
-if (True == _3518280_37) {
-Obj _3518281_37 = PRIM_CDR(_3516760_37);
-Obj _3518282_37 = PRIM_CAR(_3518281_37);
-Obj _3518283_37 = PRIM_CDR(_3516760_37);
-Obj _3518284_37 = PRIM_CDR(_3518283_37);
-Obj remain = _3518284_37;
+Obj _3516818_37 = R[1];
+Obj _3516819_37 = makeNative(co->gc, 1, clofun123, 0, 1, _3516818_37);
+Obj _3518338_37 = PRIM_ISCONS(_3516818_37);
+if (True == _3518338_37) {
+Obj _3518339_37 = PRIM_CAR(_3516818_37);
+Obj _3518340_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518339_37);
+if (True == _3518340_37) {
+Obj _3518341_37 = PRIM_CDR(_3516818_37);
+Obj _3518342_37 = PRIM_ISCONS(_3518341_37);
+if (True == _3518342_37) {
+Obj _3518343_37 = PRIM_CDR(_3516818_37);
+Obj _3518344_37 = PRIM_CAR(_3518343_37);
+Obj _3518345_37 = PRIM_CDR(_3516818_37);
+Obj _3518346_37 = PRIM_CDR(_3518345_37);
+Obj remain = _3518346_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516761_37);
+coraCall0(co, _3516819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516761_37);
+coraCall0(co, _3516819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516761_37);
+coraCall0(co, _3516819_37);
 return;
 }
 }
@@ -1249,25 +1248,25 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516762_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
-Obj _3518272_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518272_37) {
-Obj _3518273_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518274_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518273_37);
-if (True == _3518274_37) {
-Obj _3518275_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518275_37;
+Obj _3516820_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
+Obj _3518334_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518334_37) {
+Obj _3518335_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518336_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518335_37);
+if (True == _3518336_37) {
+Obj _3518337_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518337_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516762_37);
+coraCall0(co, _3516820_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516762_37);
+coraCall0(co, _3516820_37);
 return;
 }
 }
@@ -1278,36 +1277,36 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516763_37 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518263_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518263_37) {
-Obj _3518264_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518265_37 = PRIM_ISCONS(_3518264_37);
-if (True == _3518265_37) {
-Obj _3518266_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518267_37 = PRIM_CAR(_3518266_37);
-Obj _3518268_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518267_37);
-if (True == _3518268_37) {
-Obj _3518269_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518270_37 = PRIM_CDR(_3518269_37);
-Obj _3518271_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518271_37;
+Obj _3516821_37 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
+Obj _3518325_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518325_37) {
+Obj _3518326_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518327_37 = PRIM_ISCONS(_3518326_37);
+if (True == _3518327_37) {
+Obj _3518328_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518329_37 = PRIM_CAR(_3518328_37);
+Obj _3518330_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518329_37);
+if (True == _3518330_37) {
+Obj _3518331_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518332_37 = PRIM_CDR(_3518331_37);
+Obj _3518333_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518333_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516821_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516821_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516821_37);
 return;
 }
 }
@@ -1318,64 +1317,64 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516764_37 = makeNative(co->gc, 1, clofun120, 0, 0);
-Obj _3518245_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518245_37) {
-Obj _3518246_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518247_37 = PRIM_ISCONS(_3518246_37);
-if (True == _3518247_37) {
-Obj _3518248_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518249_37 = PRIM_CAR(_3518248_37);
-Obj _3518250_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518249_37);
-if (True == _3518250_37) {
-Obj _3518251_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518252_37 = PRIM_CDR(_3518251_37);
-Obj _3518253_37 = PRIM_ISCONS(_3518252_37);
-if (True == _3518253_37) {
-Obj _3518254_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518255_37 = PRIM_CDR(_3518254_37);
-Obj _3518256_37 = PRIM_CAR(_3518255_37);
-Obj pkg = _3518256_37;
-Obj _3518257_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518258_37 = PRIM_CDR(_3518257_37);
-Obj _3518259_37 = PRIM_CDR(_3518258_37);
-Obj _3518260_37 = PRIM_EQ(Nil, _3518259_37);
-if (True == _3518260_37) {
-Obj _3518261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518261_37;
+Obj _3516822_37 = makeNative(co->gc, 1, clofun120, 0, 0);
+Obj _3518307_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518307_37) {
+Obj _3518308_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518309_37 = PRIM_ISCONS(_3518308_37);
+if (True == _3518309_37) {
+Obj _3518310_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518311_37 = PRIM_CAR(_3518310_37);
+Obj _3518312_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518311_37);
+if (True == _3518312_37) {
+Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518314_37 = PRIM_CDR(_3518313_37);
+Obj _3518315_37 = PRIM_ISCONS(_3518314_37);
+if (True == _3518315_37) {
+Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518317_37 = PRIM_CDR(_3518316_37);
+Obj _3518318_37 = PRIM_CAR(_3518317_37);
+Obj pkg = _3518318_37;
+Obj _3518319_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518320_37 = PRIM_CDR(_3518319_37);
+Obj _3518321_37 = PRIM_CDR(_3518320_37);
+Obj _3518322_37 = PRIM_EQ(Nil, _3518321_37);
+if (True == _3518322_37) {
+Obj _3518323_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518323_37;
 R[1] = remain;
 saveCont(co, clofun121, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516822_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518262_37= co->res;
+Obj _3518324_37= co->res;
 Obj remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
@@ -1404,13 +1403,13 @@ Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun119, 7, R);
+saveCont(co, clofun119, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3518243_37= co->res;
+Obj _3518305_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1420,79 +1419,110 @@ return;
 }
 case 2:
 {
-Obj _3518242_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
+Obj _3518304_37= co->res;
+Obj _3518301_37 = R[1];
+Obj to = R[2];
+Obj globals = R[3];
+Obj bc = R[4];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun119, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518242_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518301_37, _3518304_37);
 return;
 }
 case 3:
 {
-Obj _3518241_37= co->res;
+Obj _3518303_37= co->res;
+Obj _3518301_37 = R[1];
+Obj to = R[2];
+Obj globals = R[3];
+Obj bc = R[4];
+R[1] = _3518301_37;
+R[2] = to;
+R[3] = globals;
+R[4] = bc;
+saveCont(co, clofun119, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), _3518303_37);
+return;
+}
+case 4:
+{
+Obj _3518301_37= co->res;
+Obj to = R[1];
+Obj globals = R[2];
+Obj bc = R[3];
+Obj _3518302_37 = PRIM_CAR(bc);
+R[1] = _3518301_37;
+R[2] = to;
+R[3] = globals;
+R[4] = bc;
+saveCont(co, clofun119, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3518302_37);
+return;
+}
+case 5:
+{
+Obj _3518300_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun119, 2, R);
+saveCont(co, clofun119, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
 return;
 }
-case 4:
+case 6:
 {
-Obj _3518240_37= co->res;
+Obj _3518299_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun119, 3, R);
+saveCont(co, clofun119, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
 return;
 }
-case 5:
+case 7:
 {
-Obj _3518237_37= co->res;
+Obj _3518296_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun119, 4, R);
+saveCont(co, clofun119, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 1, to), bc);
 return;
 }
-case 6:
+case 8:
 {
-Obj _3518236_37= co->res;
+Obj _3518295_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun119, 5, R);
+saveCont(co, clofun119, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
-case 7:
+case 9:
 {
-Obj _3518235_37= co->res;
+Obj _3518294_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun119, 6, R);
+saveCont(co, clofun119, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
@@ -1516,14 +1546,14 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj group = R[1];
-Obj _3518238_37 = PRIM_CAR(group);
+Obj _3518297_37 = PRIM_CAR(group);
 saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518238_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518297_37);
 return;
 }
 case 1:
 {
-Obj _3518239_37= co->res;
+Obj _3518298_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1538,136 +1568,168 @@ case 0:
 Obj to = R[1];
 Obj globals = R[2];
 Obj label = R[3];
+Obj nframe = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = to;
-saveCont(co, clofun116, 11, R);
+R[2] = nframe;
+R[3] = label;
+R[4] = to;
+saveCont(co, clofun116, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3518233_37= co->res;
+Obj _3518292_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ", 0, 0));\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3518232_37= co->res;
-Obj to = R[1];
+Obj _3518291_37= co->res;
+Obj label = R[1];
+Obj to = R[2];
 R[1] = to;
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
 return;
 }
 case 3:
 {
-Obj _3518231_37= co->res;
+Obj _3518290_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
-R[1] = to;
+R[1] = label;
+R[2] = to;
 saveCont(co, clofun116, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3518230_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
+Obj _3518289_37= co->res;
+Obj nframe = R[1];
+Obj label = R[2];
+Obj to = R[3];
 R[1] = label;
 R[2] = to;
 saveCont(co, clofun116, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.fn = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, nframe);
 return;
 }
 case 5:
 {
-Obj _3518229_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
+Obj _3518288_37= co->res;
+Obj nframe = R[1];
+Obj label = R[2];
+Obj to = R[3];
+R[1] = nframe;
+R[2] = label;
+R[3] = to;
 saveCont(co, clofun116, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
 return;
 }
 case 6:
 {
-Obj _3518221_37= co->res;
-Obj globals = R[1];
+Obj _3518287_37= co->res;
+Obj nframe = R[1];
 Obj label = R[2];
 Obj to = R[3];
-R[1] = label;
-R[2] = to;
+R[1] = nframe;
+R[2] = label;
+R[3] = to;
 saveCont(co, clofun116, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun115, 2, 1, to), MAKE_NUMBER(0), globals);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 7:
 {
-Obj _3518220_37= co->res;
+Obj _3518279_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
+Obj nframe = R[2];
+Obj label = R[3];
+Obj to = R[4];
+R[1] = nframe;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun116, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun115, 2, 1, to), MAKE_NUMBER(0), globals);
 return;
 }
 case 8:
 {
-Obj _3518219_37= co->res;
+Obj _3518278_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
+Obj nframe = R[2];
+Obj label = R[3];
+Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = to;
+R[2] = nframe;
+R[3] = label;
+R[4] = to;
 saveCont(co, clofun116, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518219_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
 return;
 }
 case 9:
 {
-Obj _3518218_37= co->res;
+Obj _3518277_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
+Obj nframe = R[2];
+Obj label = R[3];
+Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = to;
+R[2] = nframe;
+R[3] = label;
+R[4] = to;
 saveCont(co, clofun116, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518277_37);
 return;
 }
 case 10:
 {
-Obj _3518217_37= co->res;
+Obj _3518276_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
+Obj nframe = R[2];
+Obj label = R[3];
+Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = to;
+R[2] = nframe;
+R[3] = label;
+R[4] = to;
 saveCont(co, clofun116, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
 return;
 }
 case 11:
 {
-Obj _3518216_37= co->res;
+Obj _3518275_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
+Obj nframe = R[2];
+Obj label = R[3];
+Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = to;
+R[2] = nframe;
+R[3] = label;
+R[4] = to;
 saveCont(co, clofun116, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+return;
+}
+case 12:
+{
+Obj _3518274_37= co->res;
+Obj globals = R[1];
+Obj nframe = R[2];
+Obj label = R[3];
+Obj to = R[4];
+R[1] = globals;
+R[2] = nframe;
+R[3] = label;
+R[4] = to;
+saveCont(co, clofun116, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
@@ -1688,15 +1750,15 @@ return;
 }
 case 1:
 {
-Obj _3518227_37= co->res;
+Obj _3518285_37= co->res;
 Obj acc = R[1];
-Obj _3518228_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518228_37);
+Obj _3518286_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518286_37);
 return;
 }
 case 2:
 {
-Obj _3518226_37= co->res;
+Obj _3518284_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun115, 1, R);
@@ -1705,16 +1767,16 @@ return;
 }
 case 3:
 {
-Obj _3518225_37= co->res;
+Obj _3518283_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun115, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518225_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518283_37);
 return;
 }
 case 4:
 {
-Obj _3518224_37= co->res;
+Obj _3518282_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -1724,7 +1786,7 @@ return;
 }
 case 5:
 {
-Obj _3518223_37= co->res;
+Obj _3518281_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
@@ -1735,7 +1797,7 @@ return;
 }
 case 6:
 {
-Obj _3518222_37= co->res;
+Obj _3518280_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
@@ -1754,8 +1816,8 @@ case 0:
 Obj to = R[1];
 Obj group = R[2];
 Obj globals = R[3];
-Obj _3518194_37 = PRIM_CAR(group);
-Obj label = _3518194_37;
+Obj _3518252_37 = PRIM_CAR(group);
+Obj label = _3518252_37;
 R[1] = globals;
 R[2] = label;
 R[3] = to;
@@ -1765,7 +1827,7 @@ return;
 }
 case 1:
 {
-Obj _3518214_37= co->res;
+Obj _3518272_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
@@ -1773,7 +1835,7 @@ return;
 }
 case 2:
 {
-Obj _3518213_37= co->res;
+Obj _3518271_37= co->res;
 Obj to = R[1];
 R[1] = to;
 saveCont(co, clofun114, 1, R);
@@ -1782,19 +1844,19 @@ return;
 }
 case 3:
 {
-Obj _3518212_37= co->res;
+Obj _3518270_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
 R[1] = to;
 saveCont(co, clofun114, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun113, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518212_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun113, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518270_37);
 return;
 }
 case 4:
 {
-Obj _3518204_37= co->res;
+Obj _3518262_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1809,7 +1871,7 @@ return;
 }
 case 5:
 {
-Obj _3518203_37= co->res;
+Obj _3518261_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1824,7 +1886,7 @@ return;
 }
 case 6:
 {
-Obj _3518202_37= co->res;
+Obj _3518260_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1842,7 +1904,7 @@ return;
 }
 case 7:
 {
-Obj _3518201_37= co->res;
+Obj _3518259_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1862,7 +1924,7 @@ return;
 }
 case 8:
 {
-Obj _3518200_37= co->res;
+Obj _3518258_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1881,7 +1943,7 @@ return;
 }
 case 9:
 {
-Obj _3518199_37= co->res;
+Obj _3518257_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1900,7 +1962,7 @@ return;
 }
 case 10:
 {
-Obj _3518198_37= co->res;
+Obj _3518256_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1919,13 +1981,13 @@ return;
 }
 case 11:
 {
-Obj _3518197_37= co->res;
+Obj _3518255_37= co->res;
 Obj params = R[1];
 Obj globals = R[2];
 Obj label = R[3];
 Obj lam = R[4];
 Obj to = R[5];
-Obj first_45stmt = _3518197_37;
+Obj first_45stmt = _3518255_37;
 R[1] = params;
 R[2] = first_45stmt;
 R[3] = globals;
@@ -1938,12 +2000,12 @@ return;
 }
 case 12:
 {
-Obj _3518196_37= co->res;
+Obj _3518254_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
-Obj params = _3518196_37;
+Obj params = _3518254_37;
 R[1] = params;
 R[2] = globals;
 R[3] = label;
@@ -1955,11 +2017,11 @@ return;
 }
 case 13:
 {
-Obj _3518195_37= co->res;
+Obj _3518253_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
-Obj lam = _3518195_37;
+Obj lam = _3518253_37;
 R[1] = globals;
 R[2] = label;
 R[3] = lam;
@@ -1985,15 +2047,15 @@ return;
 }
 case 1:
 {
-Obj _3518210_37= co->res;
+Obj _3518268_37= co->res;
 Obj acc = R[1];
-Obj _3518211_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518211_37);
+Obj _3518269_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518269_37);
 return;
 }
 case 2:
 {
-Obj _3518209_37= co->res;
+Obj _3518267_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun113, 1, R);
@@ -2002,18 +2064,18 @@ return;
 }
 case 3:
 {
-Obj _3518208_37= co->res;
+Obj _3518266_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = acc;
 saveCont(co, clofun113, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518208_37, closureRef(R[0], 3), cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518266_37, closureRef(R[0], 3), cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518207_37= co->res;
+Obj _3518265_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2024,7 +2086,7 @@ return;
 }
 case 5:
 {
-Obj _3518206_37= co->res;
+Obj _3518264_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2035,7 +2097,7 @@ return;
 }
 case 6:
 {
-Obj _3518205_37= co->res;
+Obj _3518263_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2051,23 +2113,23 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516756_37 = R[1];
-Obj _3516757_37 = R[2];
-Obj _3518188_37 = PRIM_EQ(Nil, _3516757_37);
-if (True == _3518188_37) {
+Obj _3516814_37 = R[1];
+Obj _3516815_37 = R[2];
+Obj _3518246_37 = PRIM_EQ(Nil, _3516815_37);
+if (True == _3518246_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518189_37 = PRIM_ISCONS(_3516757_37);
-if (True == _3518189_37) {
-Obj _3518190_37 = PRIM_CAR(_3516757_37);
-Obj x = _3518190_37;
-Obj _3518191_37 = PRIM_CDR(_3516757_37);
-Obj y = _3518191_37;
-R[1] = _3516756_37;
+Obj _3518247_37 = PRIM_ISCONS(_3516815_37);
+if (True == _3518247_37) {
+Obj _3518248_37 = PRIM_CAR(_3516815_37);
+Obj x = _3518248_37;
+Obj _3518249_37 = PRIM_CDR(_3516815_37);
+Obj y = _3518249_37;
+R[1] = _3516814_37;
 R[2] = y;
 saveCont(co, clofun112, 1, R);
-coraCall1(co, _3516756_37, x);
+coraCall1(co, _3516814_37, x);
 return;
 } else {
 co->ctx.sp = R;
@@ -2078,11 +2140,11 @@ return;
 }
 case 1:
 {
-Obj _3518192_37= co->res;
-Obj _3516756_37 = R[1];
+Obj _3518250_37= co->res;
+Obj _3516814_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516756_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516814_37, y);
 return;
 }
 }
@@ -2101,38 +2163,38 @@ return;
 }
 case 1:
 {
-Obj _3518186_37= co->res;
+Obj _3518244_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518186_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518244_37);
 return;
 }
 case 2:
 {
-Obj _3518185_37= co->res;
+Obj _3518243_37= co->res;
 saveCont(co, clofun111, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518185_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518243_37);
 return;
 }
 case 3:
 {
-Obj _3518184_37= co->res;
+Obj _3518242_37= co->res;
 saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518184_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518242_37);
 return;
 }
 case 4:
 {
-Obj _3518183_37= co->res;
+Obj _3518241_37= co->res;
 saveCont(co, clofun111, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518183_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518241_37);
 return;
 }
 case 5:
 {
-Obj _3518182_37= co->res;
+Obj _3518240_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun111, 4, R);
-coraCall1(co, _3518182_37, exp);
+coraCall1(co, _3518240_37, exp);
 return;
 }
 }
@@ -2150,18 +2212,18 @@ return;
 }
 case 1:
 {
-Obj _3518180_37= co->res;
+Obj _3518238_37= co->res;
 Obj obj = R[1];
-Obj fns = _3518180_37;
+Obj fns = _3518238_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), obj, fns);
 return;
 }
 case 2:
 {
-Obj _3518179_37= co->res;
+Obj _3518237_37= co->res;
 Obj exp = R[1];
-Obj obj = _3518179_37;
+Obj obj = _3518237_37;
 R[1] = obj;
 saveCont(co, clofun110, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
@@ -2174,23 +2236,23 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516752_37 = R[1];
-Obj _3516753_37 = R[2];
-Obj _3518172_37 = PRIM_EQ(Nil, _3516753_37);
-if (True == _3518172_37) {
-coraReturn(co, _3516752_37);
+Obj _3516810_37 = R[1];
+Obj _3516811_37 = R[2];
+Obj _3518230_37 = PRIM_EQ(Nil, _3516811_37);
+if (True == _3518230_37) {
+coraReturn(co, _3516810_37);
 return;
 } else {
-Obj _3518173_37 = PRIM_ISCONS(_3516753_37);
-if (True == _3518173_37) {
-Obj _3518174_37 = PRIM_CAR(_3516753_37);
-Obj hd = _3518174_37;
-Obj _3518175_37 = PRIM_CDR(_3516753_37);
-Obj more = _3518175_37;
-Obj _3518176_37 = makeCons(co->gc, _3516752_37, Nil);
-Obj _3518177_37 = makeCons(co->gc, hd, _3518176_37);
+Obj _3518231_37 = PRIM_ISCONS(_3516811_37);
+if (True == _3518231_37) {
+Obj _3518232_37 = PRIM_CAR(_3516811_37);
+Obj hd = _3518232_37;
+Obj _3518233_37 = PRIM_CDR(_3516811_37);
+Obj more = _3518233_37;
+Obj _3518234_37 = makeCons(co->gc, _3516810_37, Nil);
+Obj _3518235_37 = makeCons(co->gc, hd, _3518234_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518177_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518235_37, more);
 return;
 } else {
 co->ctx.sp = R;
@@ -2214,7 +2276,7 @@ return;
 }
 case 1:
 {
-Obj _3518170_37= co->res;
+Obj _3518228_37= co->res;
 Obj v = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
@@ -2222,9 +2284,9 @@ return;
 }
 case 2:
 {
-Obj _3518169_37= co->res;
+Obj _3518227_37= co->res;
 Obj v = R[1];
-Obj e2 = _3518169_37;
+Obj e2 = _3518227_37;
 R[1] = v;
 saveCont(co, clofun108, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v, e2);
@@ -2232,9 +2294,9 @@ return;
 }
 case 3:
 {
-Obj _3518168_37= co->res;
+Obj _3518226_37= co->res;
 Obj v = R[1];
-Obj e1 = _3518168_37;
+Obj e1 = _3518226_37;
 R[1] = v;
 saveCont(co, clofun108, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, e1);
@@ -2242,7 +2304,7 @@ return;
 }
 case 4:
 {
-Obj _3518167_37= co->res;
+Obj _3518225_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = v;
@@ -2252,7 +2314,7 @@ return;
 }
 case 5:
 {
-Obj _3518166_37= co->res;
+Obj _3518224_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = exp;
@@ -2263,9 +2325,9 @@ return;
 }
 case 6:
 {
-Obj _3518165_37= co->res;
+Obj _3518223_37= co->res;
 Obj exp = R[1];
-Obj v = _3518165_37;
+Obj v = _3518223_37;
 R[1] = exp;
 R[2] = v;
 saveCont(co, clofun108, 5, R);
@@ -2338,7 +2400,7 @@ return;
 }
 case 1:
 {
-Obj _3518159_37= co->res;
+Obj _3518217_37= co->res;
 Obj w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
@@ -2346,7 +2408,7 @@ return;
 }
 case 2:
 {
-Obj _3518158_37= co->res;
+Obj _3518216_37= co->res;
 Obj w = R[1];
 R[1] = w;
 saveCont(co, clofun103, 1, R);
@@ -2355,7 +2417,7 @@ return;
 }
 case 3:
 {
-Obj _3518157_37= co->res;
+Obj _3518215_37= co->res;
 Obj label = R[1];
 Obj w = R[2];
 R[1] = w;
@@ -2380,7 +2442,7 @@ return;
 }
 case 1:
 {
-Obj _3518155_37= co->res;
+Obj _3518213_37= co->res;
 Obj w = R[1];
 Obj label = R[2];
 co->ctx.sp = R;
@@ -2394,136 +2456,136 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516746_37 = R[1];
-Obj _3516747_37 = R[2];
-Obj _3516748_37 = R[3];
-Obj _3516749_37 = R[4];
-Obj _3516750_37 = R[5];
-Obj _3516751_37 = makeNative(co->gc, 1, clofun100, 0, 0);
-Obj _3518133_37 = PRIM_ISCONS(_3516750_37);
-if (True == _3518133_37) {
-Obj _3518134_37 = PRIM_CAR(_3516750_37);
-Obj _3518135_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518134_37);
-if (True == _3518135_37) {
-Obj _3518136_37 = PRIM_CDR(_3516750_37);
-Obj _3518137_37 = PRIM_ISCONS(_3518136_37);
-if (True == _3518137_37) {
-Obj _3518138_37 = PRIM_CDR(_3516750_37);
-Obj _3518139_37 = PRIM_CAR(_3518138_37);
-Obj var = _3518139_37;
-Obj _3518140_37 = PRIM_CDR(_3516750_37);
-Obj _3518141_37 = PRIM_CDR(_3518140_37);
-Obj _3518142_37 = PRIM_ISCONS(_3518141_37);
-if (True == _3518142_37) {
-Obj _3518143_37 = PRIM_CDR(_3516750_37);
-Obj _3518144_37 = PRIM_CDR(_3518143_37);
-Obj _3518145_37 = PRIM_CAR(_3518144_37);
-Obj body = _3518145_37;
-Obj _3518146_37 = PRIM_CDR(_3516750_37);
-Obj _3518147_37 = PRIM_CDR(_3518146_37);
-Obj _3518148_37 = PRIM_CDR(_3518147_37);
-Obj fvs = _3518148_37;
+Obj _3516804_37 = R[1];
+Obj _3516805_37 = R[2];
+Obj _3516806_37 = R[3];
+Obj _3516807_37 = R[4];
+Obj _3516808_37 = R[5];
+Obj _3516809_37 = makeNative(co->gc, 1, clofun100, 0, 0);
+Obj _3518191_37 = PRIM_ISCONS(_3516808_37);
+if (True == _3518191_37) {
+Obj _3518192_37 = PRIM_CAR(_3516808_37);
+Obj _3518193_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518192_37);
+if (True == _3518193_37) {
+Obj _3518194_37 = PRIM_CDR(_3516808_37);
+Obj _3518195_37 = PRIM_ISCONS(_3518194_37);
+if (True == _3518195_37) {
+Obj _3518196_37 = PRIM_CDR(_3516808_37);
+Obj _3518197_37 = PRIM_CAR(_3518196_37);
+Obj var = _3518197_37;
+Obj _3518198_37 = PRIM_CDR(_3516808_37);
+Obj _3518199_37 = PRIM_CDR(_3518198_37);
+Obj _3518200_37 = PRIM_ISCONS(_3518199_37);
+if (True == _3518200_37) {
+Obj _3518201_37 = PRIM_CDR(_3516808_37);
+Obj _3518202_37 = PRIM_CDR(_3518201_37);
+Obj _3518203_37 = PRIM_CAR(_3518202_37);
+Obj body = _3518203_37;
+Obj _3518204_37 = PRIM_CDR(_3516808_37);
+Obj _3518205_37 = PRIM_CDR(_3518204_37);
+Obj _3518206_37 = PRIM_CDR(_3518205_37);
+Obj fvs = _3518206_37;
 R[1] = var;
 R[2] = fvs;
-R[3] = _3516746_37;
-R[4] = _3516747_37;
-R[5] = _3516748_37;
-R[6] = _3516749_37;
+R[3] = _3516804_37;
+R[4] = _3516805_37;
+R[5] = _3516806_37;
+R[6] = _3516807_37;
 R[7] = body;
 saveCont(co, clofun101, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516749_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516807_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3516809_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3516809_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3516809_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3516809_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518153_37= co->res;
-Obj _3516746_37 = R[1];
-Obj _3516747_37 = R[2];
-Obj _3516748_37 = R[3];
-Obj _3516749_37 = R[4];
+Obj _3518211_37= co->res;
+Obj _3516804_37 = R[1];
+Obj _3516805_37 = R[2];
+Obj _3516806_37 = R[3];
+Obj _3516807_37 = R[4];
 Obj body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516746_37, _3516747_37, _3516748_37, _3516749_37, body};
+Obj __args[5] = {_3516804_37, _3516805_37, _3516806_37, _3516807_37, body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518152_37= co->res;
+Obj _3518210_37= co->res;
 Obj fvs = R[1];
-Obj _3516746_37 = R[2];
-Obj _3516747_37 = R[3];
-Obj _3516748_37 = R[4];
-Obj _3516749_37 = R[5];
+Obj _3516804_37 = R[2];
+Obj _3516805_37 = R[3];
+Obj _3516806_37 = R[4];
+Obj _3516807_37 = R[5];
 Obj body = R[6];
-R[1] = _3516746_37;
-R[2] = _3516747_37;
-R[3] = _3516748_37;
-R[4] = _3516749_37;
+R[1] = _3516804_37;
+R[2] = _3516805_37;
+R[3] = _3516806_37;
+R[4] = _3516807_37;
 R[5] = body;
 saveCont(co, clofun101, 1, R);
-Obj __args[5] = {_3516746_37, _3516747_37, _3516748_37, _3516749_37, fvs};
+Obj __args[5] = {_3516804_37, _3516805_37, _3516806_37, _3516807_37, fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518151_37= co->res;
+Obj _3518209_37= co->res;
 Obj fvs = R[1];
-Obj _3516746_37 = R[2];
-Obj _3516747_37 = R[3];
-Obj _3516748_37 = R[4];
-Obj _3516749_37 = R[5];
+Obj _3516804_37 = R[2];
+Obj _3516805_37 = R[3];
+Obj _3516806_37 = R[4];
+Obj _3516807_37 = R[5];
 Obj body = R[6];
 R[1] = fvs;
-R[2] = _3516746_37;
-R[3] = _3516747_37;
-R[4] = _3516748_37;
-R[5] = _3516749_37;
+R[2] = _3516804_37;
+R[3] = _3516805_37;
+R[4] = _3516806_37;
+R[5] = _3516807_37;
 R[6] = body;
 saveCont(co, clofun101, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516749_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516807_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518149_37= co->res;
+Obj _3518207_37= co->res;
 Obj var = R[1];
 Obj fvs = R[2];
-Obj _3516746_37 = R[3];
-Obj _3516747_37 = R[4];
-Obj _3516748_37 = R[5];
-Obj _3516749_37 = R[6];
+Obj _3516804_37 = R[3];
+Obj _3516805_37 = R[4];
+Obj _3516806_37 = R[5];
+Obj _3516807_37 = R[6];
 Obj body = R[7];
-Obj _3518150_37 = PRIM_CAR(var);
+Obj _3518208_37 = PRIM_CAR(var);
 R[1] = fvs;
-R[2] = _3516746_37;
-R[3] = _3516747_37;
-R[4] = _3516748_37;
-R[5] = _3516749_37;
+R[2] = _3516804_37;
+R[3] = _3516805_37;
+R[4] = _3516806_37;
+R[5] = _3516807_37;
 R[6] = body;
 saveCont(co, clofun101, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516749_37, _3518150_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516807_37, _3518208_37);
 return;
 }
 }
@@ -2549,9 +2611,9 @@ Obj self = R[2];
 Obj env = R[3];
 Obj w = R[4];
 Obj l = R[5];
-Obj _3518119_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518119_37;
-Obj _3518130_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun98, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
+Obj _3518177_37 = primGenSym(co);
+Obj generate_45inst_45list_45h = _3518177_37;
+Obj _3518188_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun98, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
 R[1] = l;
 saveCont(co, clofun99, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45list_45h);
@@ -2559,10 +2621,10 @@ return;
 }
 case 1:
 {
-Obj _3518131_37= co->res;
+Obj _3518189_37= co->res;
 Obj l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518131_37, l);
+coraCall1(co, _3518189_37, l);
 return;
 }
 }
@@ -2573,17 +2635,17 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3518120_37 = PRIM_EQ(Nil, x);
-if (True == _3518120_37) {
+Obj _3518178_37 = PRIM_EQ(Nil, x);
+if (True == _3518178_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518121_37 = PRIM_ISCONS(x);
-if (True == _3518121_37) {
-Obj _3518122_37 = PRIM_CAR(x);
-Obj a = _3518122_37;
-Obj _3518123_37 = PRIM_CDR(x);
-Obj b = _3518123_37;
+Obj _3518179_37 = PRIM_ISCONS(x);
+if (True == _3518179_37) {
+Obj _3518180_37 = PRIM_CAR(x);
+Obj a = _3518180_37;
+Obj _3518181_37 = PRIM_CDR(x);
+Obj b = _3518181_37;
 R[1] = b;
 saveCont(co, clofun98, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
@@ -2598,15 +2660,15 @@ return;
 }
 case 1:
 {
-Obj _3518128_37= co->res;
+Obj _3518186_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518128_37, b);
+coraCall1(co, _3518186_37, b);
 return;
 }
 case 2:
 {
-Obj _3518127_37= co->res;
+Obj _3518185_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun98, 1, R);
@@ -2615,18 +2677,18 @@ return;
 }
 case 3:
 {
-Obj _3518129_37= co->res;
+Obj _3518187_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518129_37, b);
+coraCall1(co, _3518187_37, b);
 return;
 }
 case 4:
 {
-Obj _3518125_37= co->res;
+Obj _3518183_37= co->res;
 Obj b = R[1];
-Obj _3518126_37 = primNot(_3518125_37);
-if (True == _3518126_37) {
+Obj _3518184_37 = primNot(_3518183_37);
+if (True == _3518184_37) {
 R[1] = b;
 saveCont(co, clofun98, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
@@ -2641,7 +2703,7 @@ return;
 }
 case 5:
 {
-Obj _3518124_37= co->res;
+Obj _3518182_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun98, 4, R);
@@ -2660,9 +2722,9 @@ Obj self = R[2];
 Obj env1 = R[3];
 Obj w = R[4];
 Obj x1 = R[5];
-Obj _3517832_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517832_37;
-Obj _3518116_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun96, 2, 4, self, generate_45inst_45h, globals, w));
+Obj _3517890_37 = primGenSym(co);
+Obj generate_45inst_45h = _3517890_37;
+Obj _3518174_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun96, 2, 4, self, generate_45inst_45h, globals, w));
 R[1] = x1;
 R[2] = env1;
 saveCont(co, clofun97, 1, R);
@@ -2671,11 +2733,11 @@ return;
 }
 case 1:
 {
-Obj _3518117_37= co->res;
+Obj _3518175_37= co->res;
 Obj x1 = R[1];
 Obj env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518117_37, x1, env1);
+coraCall2(co, _3518175_37, x1, env1);
 return;
 }
 }
@@ -2687,71 +2749,71 @@ case 0:
 {
 Obj x2 = R[1];
 Obj env = R[2];
-Obj _3517833_37 = primIsSymbol(x2);
-if (True == _3517833_37) {
+Obj _3517891_37 = primIsSymbol(x2);
+if (True == _3517891_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
 return;
 } else {
-Obj _3516732_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518103_37 = PRIM_ISCONS(x2);
-if (True == _3518103_37) {
-Obj _3518104_37 = PRIM_CAR(x2);
-Obj _3518105_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518104_37);
-if (True == _3518105_37) {
-Obj _3518106_37 = PRIM_CDR(x2);
-Obj _3518107_37 = PRIM_ISCONS(_3518106_37);
-if (True == _3518107_37) {
-Obj _3518108_37 = PRIM_CDR(x2);
-Obj _3518109_37 = PRIM_CAR(_3518108_37);
-Obj x = _3518109_37;
-Obj _3518110_37 = PRIM_CDR(x2);
-Obj _3518111_37 = PRIM_CDR(_3518110_37);
-Obj _3518112_37 = PRIM_EQ(Nil, _3518111_37);
-if (True == _3518112_37) {
+Obj _3516790_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
+Obj _3518161_37 = PRIM_ISCONS(x2);
+if (True == _3518161_37) {
+Obj _3518162_37 = PRIM_CAR(x2);
+Obj _3518163_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518162_37);
+if (True == _3518163_37) {
+Obj _3518164_37 = PRIM_CDR(x2);
+Obj _3518165_37 = PRIM_ISCONS(_3518164_37);
+if (True == _3518165_37) {
+Obj _3518166_37 = PRIM_CDR(x2);
+Obj _3518167_37 = PRIM_CAR(_3518166_37);
+Obj x = _3518167_37;
+Obj _3518168_37 = PRIM_CDR(x2);
+Obj _3518169_37 = PRIM_CDR(_3518168_37);
+Obj _3518170_37 = PRIM_EQ(Nil, _3518169_37);
+if (True == _3518170_37) {
 R[1] = x;
 saveCont(co, clofun96, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516790_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518115_37= co->res;
+Obj _3518173_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518114_37= co->res;
+Obj _3518172_37= co->res;
 saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518114_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518172_37);
 return;
 }
 case 3:
 {
-Obj _3518113_37= co->res;
+Obj _3518171_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 2));
@@ -2764,57 +2826,57 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516733_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518091_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518091_37) {
-Obj _3518092_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518093_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518092_37);
-if (True == _3518093_37) {
-Obj _3518094_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518095_37 = PRIM_ISCONS(_3518094_37);
-if (True == _3518095_37) {
-Obj _3518096_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518097_37 = PRIM_CAR(_3518096_37);
-Obj idx = _3518097_37;
-Obj _3518098_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518099_37 = PRIM_CDR(_3518098_37);
-Obj _3518100_37 = PRIM_EQ(Nil, _3518099_37);
-if (True == _3518100_37) {
+Obj _3516791_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj _3518149_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == _3518149_37) {
+Obj _3518150_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj _3518151_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518150_37);
+if (True == _3518151_37) {
+Obj _3518152_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518153_37 = PRIM_ISCONS(_3518152_37);
+if (True == _3518153_37) {
+Obj _3518154_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518155_37 = PRIM_CAR(_3518154_37);
+Obj idx = _3518155_37;
+Obj _3518156_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518157_37 = PRIM_CDR(_3518156_37);
+Obj _3518158_37 = PRIM_EQ(Nil, _3518157_37);
+if (True == _3518158_37) {
 R[1] = idx;
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3516791_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518102_37= co->res;
+Obj _3518160_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518101_37= co->res;
+Obj _3518159_37= co->res;
 Obj idx = R[1];
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), idx);
@@ -2827,24 +2889,24 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516734_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518067_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518067_37) {
-Obj _3518068_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518069_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518068_37);
-if (True == _3518069_37) {
-Obj _3518070_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518071_37 = PRIM_ISCONS(_3518070_37);
-if (True == _3518071_37) {
-Obj _3518072_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518073_37 = PRIM_CAR(_3518072_37);
-Obj x = _3518073_37;
-Obj _3518074_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518075_37 = PRIM_CDR(_3518074_37);
-Obj _3518076_37 = PRIM_EQ(Nil, _3518075_37);
-if (True == _3518076_37) {
-Obj _3518077_37 = primIsSymbol(x);
-if (True == _3518077_37) {
+Obj _3516792_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518125_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3518125_37) {
+Obj _3518126_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3518127_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518126_37);
+if (True == _3518127_37) {
+Obj _3518128_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518129_37 = PRIM_ISCONS(_3518128_37);
+if (True == _3518129_37) {
+Obj _3518130_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518131_37 = PRIM_CAR(_3518130_37);
+Obj x = _3518131_37;
+Obj _3518132_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518133_37 = PRIM_CDR(_3518132_37);
+Obj _3518134_37 = PRIM_EQ(Nil, _3518133_37);
+if (True == _3518134_37) {
+Obj _3518135_37 = primIsSymbol(x);
+if (True == _3518135_37) {
 R[1] = x;
 saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
@@ -2857,42 +2919,42 @@ return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516792_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518080_37= co->res;
+Obj _3518138_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518079_37= co->res;
+Obj _3518137_37= co->res;
 saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518079_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518137_37);
 return;
 }
 case 3:
 {
-Obj _3518078_37= co->res;
+Obj _3518136_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 4));
@@ -2900,14 +2962,14 @@ return;
 }
 case 4:
 {
-Obj _3518083_37= co->res;
+Obj _3518141_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518082_37= co->res;
+Obj _3518140_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun94, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), x);
@@ -2915,21 +2977,21 @@ return;
 }
 case 6:
 {
-Obj _3518087_37= co->res;
+Obj _3518145_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518086_37= co->res;
+Obj _3518144_37= co->res;
 saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518086_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518144_37);
 return;
 }
 case 8:
 {
-Obj _3518085_37= co->res;
+Obj _3518143_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun94, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), x);
@@ -2937,35 +2999,35 @@ return;
 }
 case 9:
 {
-Obj _3518081_37= co->res;
+Obj _3518139_37= co->res;
 Obj x = R[1];
-if (True == _3518081_37) {
+if (True == _3518139_37) {
 R[1] = x;
 saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518084_37 = primIsString(x);
-if (True == _3518084_37) {
+Obj _3518142_37 = primIsString(x);
+if (True == _3518142_37) {
 R[1] = x;
 saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518088_37 = PRIM_EQ(x, Nil);
-if (True == _3518088_37) {
+Obj _3518146_37 = PRIM_EQ(x, Nil);
+if (True == _3518146_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518089_37 = PRIM_EQ(x, True);
-if (True == _3518089_37) {
+Obj _3518147_37 = PRIM_EQ(x, True);
+if (True == _3518147_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518090_37 = PRIM_EQ(x, False);
-if (True == _3518090_37) {
+Obj _3518148_37 = PRIM_EQ(x, False);
+if (True == _3518148_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -2986,42 +3048,42 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516735_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518032_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518032_37) {
-Obj _3518033_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518034_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518033_37);
-if (True == _3518034_37) {
-Obj _3518035_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518036_37 = PRIM_ISCONS(_3518035_37);
-if (True == _3518036_37) {
-Obj _3518037_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518038_37 = PRIM_CAR(_3518037_37);
-Obj a = _3518038_37;
-Obj _3518039_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518040_37 = PRIM_CDR(_3518039_37);
-Obj _3518041_37 = PRIM_ISCONS(_3518040_37);
-if (True == _3518041_37) {
-Obj _3518042_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518043_37 = PRIM_CDR(_3518042_37);
-Obj _3518044_37 = PRIM_CAR(_3518043_37);
-Obj b = _3518044_37;
-Obj _3518045_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518046_37 = PRIM_CDR(_3518045_37);
-Obj _3518047_37 = PRIM_CDR(_3518046_37);
-Obj _3518048_37 = PRIM_ISCONS(_3518047_37);
-if (True == _3518048_37) {
-Obj _3518049_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518050_37 = PRIM_CDR(_3518049_37);
-Obj _3518051_37 = PRIM_CDR(_3518050_37);
-Obj _3518052_37 = PRIM_CAR(_3518051_37);
-Obj c = _3518052_37;
-Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518054_37 = PRIM_CDR(_3518053_37);
-Obj _3518055_37 = PRIM_CDR(_3518054_37);
-Obj _3518056_37 = PRIM_CDR(_3518055_37);
-Obj _3518057_37 = PRIM_EQ(Nil, _3518056_37);
-if (True == _3518057_37) {
+Obj _3516793_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3518090_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518090_37) {
+Obj _3518091_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518092_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518091_37);
+if (True == _3518092_37) {
+Obj _3518093_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518094_37 = PRIM_ISCONS(_3518093_37);
+if (True == _3518094_37) {
+Obj _3518095_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518096_37 = PRIM_CAR(_3518095_37);
+Obj a = _3518096_37;
+Obj _3518097_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518098_37 = PRIM_CDR(_3518097_37);
+Obj _3518099_37 = PRIM_ISCONS(_3518098_37);
+if (True == _3518099_37) {
+Obj _3518100_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518101_37 = PRIM_CDR(_3518100_37);
+Obj _3518102_37 = PRIM_CAR(_3518101_37);
+Obj b = _3518102_37;
+Obj _3518103_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518104_37 = PRIM_CDR(_3518103_37);
+Obj _3518105_37 = PRIM_CDR(_3518104_37);
+Obj _3518106_37 = PRIM_ISCONS(_3518105_37);
+if (True == _3518106_37) {
+Obj _3518107_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518108_37 = PRIM_CDR(_3518107_37);
+Obj _3518109_37 = PRIM_CDR(_3518108_37);
+Obj _3518110_37 = PRIM_CAR(_3518109_37);
+Obj c = _3518110_37;
+Obj _3518111_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518112_37 = PRIM_CDR(_3518111_37);
+Obj _3518113_37 = PRIM_CDR(_3518112_37);
+Obj _3518114_37 = PRIM_CDR(_3518113_37);
+Obj _3518115_37 = PRIM_EQ(Nil, _3518114_37);
+if (True == _3518115_37) {
 R[1] = b;
 R[2] = a;
 R[3] = c;
@@ -3030,48 +3092,48 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), a, closureRef(R[0],
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516793_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518065_37= co->res;
+Obj _3518123_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
-Obj _3518066_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj _3518124_37 = makeCons(co->gc, a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518065_37, c, _3518066_37);
+coraCall2(co, _3518123_37, c, _3518124_37);
 return;
 }
 case 2:
 {
-Obj _3518064_37= co->res;
+Obj _3518122_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
@@ -3082,7 +3144,7 @@ return;
 }
 case 3:
 {
-Obj _3518063_37= co->res;
+Obj _3518121_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
@@ -3093,19 +3155,19 @@ return;
 }
 case 4:
 {
-Obj _3518062_37= co->res;
+Obj _3518120_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = a;
 R[2] = c;
 saveCont(co, clofun93, 3, R);
-coraCall2(co, _3518062_37, b, closureRef(R[0], 5));
+coraCall2(co, _3518120_37, b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518061_37= co->res;
+Obj _3518119_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3118,7 +3180,7 @@ return;
 }
 case 6:
 {
-Obj _3518060_37= co->res;
+Obj _3518118_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3131,7 +3193,7 @@ return;
 }
 case 7:
 {
-Obj _3518059_37= co->res;
+Obj _3518117_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3144,7 +3206,7 @@ return;
 }
 case 8:
 {
-Obj _3518058_37= co->res;
+Obj _3518116_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3162,31 +3224,31 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516736_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518002_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518002_37) {
-Obj _3518003_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518004_37 = PRIM_ISCONS(_3518003_37);
-if (True == _3518004_37) {
-Obj _3518005_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518006_37 = PRIM_CAR(_3518005_37);
-Obj _3518007_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518006_37);
-if (True == _3518007_37) {
-Obj _3518008_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518009_37 = PRIM_CDR(_3518008_37);
-Obj _3518010_37 = PRIM_ISCONS(_3518009_37);
-if (True == _3518010_37) {
-Obj _3518011_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518012_37 = PRIM_CDR(_3518011_37);
-Obj _3518013_37 = PRIM_CAR(_3518012_37);
-Obj f = _3518013_37;
-Obj _3518014_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518015_37 = PRIM_CDR(_3518014_37);
-Obj _3518016_37 = PRIM_CDR(_3518015_37);
-Obj _3518017_37 = PRIM_EQ(Nil, _3518016_37);
-if (True == _3518017_37) {
-Obj _3518018_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3518018_37;
+Obj _3516794_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518060_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518060_37) {
+Obj _3518061_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518062_37 = PRIM_ISCONS(_3518061_37);
+if (True == _3518062_37) {
+Obj _3518063_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518064_37 = PRIM_CAR(_3518063_37);
+Obj _3518065_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518064_37);
+if (True == _3518065_37) {
+Obj _3518066_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518067_37 = PRIM_CDR(_3518066_37);
+Obj _3518068_37 = PRIM_ISCONS(_3518067_37);
+if (True == _3518068_37) {
+Obj _3518069_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518070_37 = PRIM_CDR(_3518069_37);
+Obj _3518071_37 = PRIM_CAR(_3518070_37);
+Obj f = _3518071_37;
+Obj _3518072_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518073_37 = PRIM_CDR(_3518072_37);
+Obj _3518074_37 = PRIM_CDR(_3518073_37);
+Obj _3518075_37 = PRIM_EQ(Nil, _3518074_37);
+if (True == _3518075_37) {
+Obj _3518076_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj args = _3518076_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun92, 10, R);
@@ -3194,40 +3256,40 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516794_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518023_37= co->res;
+Obj _3518081_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518022_37= co->res;
+Obj _3518080_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun92, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3236,14 +3298,14 @@ return;
 }
 case 3:
 {
-Obj _3518026_37= co->res;
+Obj _3518084_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518025_37= co->res;
+Obj _3518083_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun92, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3252,14 +3314,14 @@ return;
 }
 case 5:
 {
-Obj _3518029_37= co->res;
+Obj _3518087_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518028_37= co->res;
+Obj _3518086_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun92, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3268,14 +3330,14 @@ return;
 }
 case 7:
 {
-Obj _3518031_37= co->res;
+Obj _3518089_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518030_37= co->res;
+Obj _3518088_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun92, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3284,25 +3346,25 @@ return;
 }
 case 9:
 {
-Obj _3518020_37= co->res;
+Obj _3518078_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3518021_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
-if (True == _3518021_37) {
+Obj _3518079_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
+if (True == _3518079_37) {
 R[1] = args;
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518024_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
-if (True == _3518024_37) {
+Obj _3518082_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
+if (True == _3518082_37) {
 R[1] = args;
 saveCont(co, clofun92, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518027_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
-if (True == _3518027_37) {
+Obj _3518085_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
+if (True == _3518085_37) {
 R[1] = args;
 saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
@@ -3318,13 +3380,13 @@ return;
 }
 case 10:
 {
-Obj _3518019_37= co->res;
+Obj _3518077_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun92, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518019_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518077_37);
 return;
 }
 }
@@ -3334,42 +3396,42 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517967_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517967_37) {
-Obj _3517968_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517969_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517968_37);
-if (True == _3517969_37) {
-Obj _3517970_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517971_37 = PRIM_ISCONS(_3517970_37);
-if (True == _3517971_37) {
-Obj _3517972_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517973_37 = PRIM_CAR(_3517972_37);
-Obj a = _3517973_37;
-Obj _3517974_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517975_37 = PRIM_CDR(_3517974_37);
-Obj _3517976_37 = PRIM_ISCONS(_3517975_37);
-if (True == _3517976_37) {
-Obj _3517977_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517978_37 = PRIM_CDR(_3517977_37);
-Obj _3517979_37 = PRIM_CAR(_3517978_37);
-Obj b = _3517979_37;
-Obj _3517980_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517981_37 = PRIM_CDR(_3517980_37);
-Obj _3517982_37 = PRIM_CDR(_3517981_37);
-Obj _3517983_37 = PRIM_ISCONS(_3517982_37);
-if (True == _3517983_37) {
-Obj _3517984_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517985_37 = PRIM_CDR(_3517984_37);
-Obj _3517986_37 = PRIM_CDR(_3517985_37);
-Obj _3517987_37 = PRIM_CAR(_3517986_37);
-Obj c = _3517987_37;
-Obj _3517988_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517989_37 = PRIM_CDR(_3517988_37);
-Obj _3517990_37 = PRIM_CDR(_3517989_37);
-Obj _3517991_37 = PRIM_CDR(_3517990_37);
-Obj _3517992_37 = PRIM_EQ(Nil, _3517991_37);
-if (True == _3517992_37) {
+Obj _3516795_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518025_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518025_37) {
+Obj _3518026_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518027_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518026_37);
+if (True == _3518027_37) {
+Obj _3518028_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518029_37 = PRIM_ISCONS(_3518028_37);
+if (True == _3518029_37) {
+Obj _3518030_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518031_37 = PRIM_CAR(_3518030_37);
+Obj a = _3518031_37;
+Obj _3518032_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518033_37 = PRIM_CDR(_3518032_37);
+Obj _3518034_37 = PRIM_ISCONS(_3518033_37);
+if (True == _3518034_37) {
+Obj _3518035_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518036_37 = PRIM_CDR(_3518035_37);
+Obj _3518037_37 = PRIM_CAR(_3518036_37);
+Obj b = _3518037_37;
+Obj _3518038_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518039_37 = PRIM_CDR(_3518038_37);
+Obj _3518040_37 = PRIM_CDR(_3518039_37);
+Obj _3518041_37 = PRIM_ISCONS(_3518040_37);
+if (True == _3518041_37) {
+Obj _3518042_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518043_37 = PRIM_CDR(_3518042_37);
+Obj _3518044_37 = PRIM_CDR(_3518043_37);
+Obj _3518045_37 = PRIM_CAR(_3518044_37);
+Obj c = _3518045_37;
+Obj _3518046_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518047_37 = PRIM_CDR(_3518046_37);
+Obj _3518048_37 = PRIM_CDR(_3518047_37);
+Obj _3518049_37 = PRIM_CDR(_3518048_37);
+Obj _3518050_37 = PRIM_EQ(Nil, _3518049_37);
+if (True == _3518050_37) {
 R[1] = a;
 R[2] = b;
 R[3] = c;
@@ -3378,53 +3440,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516795_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518001_37= co->res;
+Obj _3518059_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3518000_37= co->res;
+Obj _3518058_37= co->res;
 Obj c = R[1];
 saveCont(co, clofun91, 1, R);
-coraCall2(co, _3518000_37, c, closureRef(R[0], 4));
+coraCall2(co, _3518058_37, c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517999_37= co->res;
+Obj _3518057_37= co->res;
 Obj c = R[1];
 R[1] = c;
 saveCont(co, clofun91, 2, R);
@@ -3433,7 +3495,7 @@ return;
 }
 case 4:
 {
-Obj _3517998_37= co->res;
+Obj _3518056_37= co->res;
 Obj c = R[1];
 R[1] = c;
 saveCont(co, clofun91, 3, R);
@@ -3442,17 +3504,17 @@ return;
 }
 case 5:
 {
-Obj _3517997_37= co->res;
+Obj _3518055_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = c;
 saveCont(co, clofun91, 4, R);
-coraCall2(co, _3517997_37, b, closureRef(R[0], 4));
+coraCall2(co, _3518055_37, b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3517996_37= co->res;
+Obj _3518054_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
@@ -3463,7 +3525,7 @@ return;
 }
 case 7:
 {
-Obj _3517995_37= co->res;
+Obj _3518053_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
@@ -3474,19 +3536,19 @@ return;
 }
 case 8:
 {
-Obj _3517994_37= co->res;
+Obj _3518052_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = c;
 saveCont(co, clofun91, 7, R);
-coraCall2(co, _3517994_37, a, closureRef(R[0], 4));
+coraCall2(co, _3518052_37, a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3517993_37= co->res;
+Obj _3518051_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
@@ -3504,41 +3566,41 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516738_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517929_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517929_37) {
-Obj _3517930_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517931_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517930_37);
-if (True == _3517931_37) {
-Obj _3517932_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517933_37 = PRIM_ISCONS(_3517932_37);
-if (True == _3517933_37) {
-Obj _3517934_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517935_37 = PRIM_CAR(_3517934_37);
-Obj label = _3517935_37;
-Obj _3517936_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517937_37 = PRIM_CDR(_3517936_37);
-Obj _3517938_37 = PRIM_ISCONS(_3517937_37);
-if (True == _3517938_37) {
-Obj _3517939_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517940_37 = PRIM_CDR(_3517939_37);
-Obj _3517941_37 = PRIM_CAR(_3517940_37);
-Obj nargs = _3517941_37;
-Obj _3517942_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517943_37 = PRIM_CDR(_3517942_37);
-Obj _3517944_37 = PRIM_CDR(_3517943_37);
-Obj _3517945_37 = PRIM_ISCONS(_3517944_37);
-if (True == _3517945_37) {
-Obj _3517946_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517947_37 = PRIM_CDR(_3517946_37);
-Obj _3517948_37 = PRIM_CDR(_3517947_37);
-Obj _3517949_37 = PRIM_CAR(_3517948_37);
-Obj nframe = _3517949_37;
-Obj _3517950_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517951_37 = PRIM_CDR(_3517950_37);
-Obj _3517952_37 = PRIM_CDR(_3517951_37);
-Obj _3517953_37 = PRIM_CDR(_3517952_37);
-Obj frees = _3517953_37;
+Obj _3516796_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj _3517987_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517987_37) {
+Obj _3517988_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517989_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517988_37);
+if (True == _3517989_37) {
+Obj _3517990_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517991_37 = PRIM_ISCONS(_3517990_37);
+if (True == _3517991_37) {
+Obj _3517992_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517993_37 = PRIM_CAR(_3517992_37);
+Obj label = _3517993_37;
+Obj _3517994_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517995_37 = PRIM_CDR(_3517994_37);
+Obj _3517996_37 = PRIM_ISCONS(_3517995_37);
+if (True == _3517996_37) {
+Obj _3517997_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517998_37 = PRIM_CDR(_3517997_37);
+Obj _3517999_37 = PRIM_CAR(_3517998_37);
+Obj nargs = _3517999_37;
+Obj _3518000_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518001_37 = PRIM_CDR(_3518000_37);
+Obj _3518002_37 = PRIM_CDR(_3518001_37);
+Obj _3518003_37 = PRIM_ISCONS(_3518002_37);
+if (True == _3518003_37) {
+Obj _3518004_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518005_37 = PRIM_CDR(_3518004_37);
+Obj _3518006_37 = PRIM_CDR(_3518005_37);
+Obj _3518007_37 = PRIM_CAR(_3518006_37);
+Obj nframe = _3518007_37;
+Obj _3518008_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518009_37 = PRIM_CDR(_3518008_37);
+Obj _3518010_37 = PRIM_CDR(_3518009_37);
+Obj _3518011_37 = PRIM_CDR(_3518010_37);
+Obj frees = _3518011_37;
 R[1] = nframe;
 R[2] = label;
 R[3] = nargs;
@@ -3548,40 +3610,40 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, _3516796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, _3516796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, _3516796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, _3516796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, _3516796_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517966_37= co->res;
+Obj _3518024_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3517965_37= co->res;
+Obj _3518023_37= co->res;
 Obj frees = R[1];
 saveCont(co, clofun90, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
@@ -3590,10 +3652,10 @@ return;
 }
 case 3:
 {
-Obj _3517963_37= co->res;
+Obj _3518021_37= co->res;
 Obj frees = R[1];
-Obj _3517964_37 = primNot(_3517963_37);
-if (True == _3517964_37) {
+Obj _3518022_37 = primNot(_3518021_37);
+if (True == _3518022_37) {
 R[1] = frees;
 saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -3607,7 +3669,7 @@ return;
 }
 case 4:
 {
-Obj _3517962_37= co->res;
+Obj _3518020_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun90, 3, R);
@@ -3616,16 +3678,16 @@ return;
 }
 case 5:
 {
-Obj _3517961_37= co->res;
+Obj _3518019_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517961_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518019_37);
 return;
 }
 case 6:
 {
-Obj _3517960_37= co->res;
+Obj _3518018_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun90, 5, R);
@@ -3634,7 +3696,7 @@ return;
 }
 case 7:
 {
-Obj _3517959_37= co->res;
+Obj _3518017_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun90, 6, R);
@@ -3643,7 +3705,7 @@ return;
 }
 case 8:
 {
-Obj _3517958_37= co->res;
+Obj _3518016_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = frees;
@@ -3653,7 +3715,7 @@ return;
 }
 case 9:
 {
-Obj _3517957_37= co->res;
+Obj _3518015_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = nargs;
@@ -3664,7 +3726,7 @@ return;
 }
 case 10:
 {
-Obj _3517956_37= co->res;
+Obj _3518014_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
@@ -3676,7 +3738,7 @@ return;
 }
 case 11:
 {
-Obj _3517955_37= co->res;
+Obj _3518013_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
@@ -3689,7 +3751,7 @@ return;
 }
 case 12:
 {
-Obj _3517954_37= co->res;
+Obj _3518012_37= co->res;
 Obj nframe = R[1];
 Obj label = R[2];
 Obj nargs = R[3];
@@ -3708,31 +3770,31 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516739_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517908_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517908_37) {
-Obj _3517909_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517910_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517909_37);
-if (True == _3517910_37) {
-Obj _3517911_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517912_37 = PRIM_ISCONS(_3517911_37);
-if (True == _3517912_37) {
-Obj _3517913_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517914_37 = PRIM_CAR(_3517913_37);
-Obj a = _3517914_37;
-Obj _3517915_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517916_37 = PRIM_CDR(_3517915_37);
-Obj _3517917_37 = PRIM_ISCONS(_3517916_37);
-if (True == _3517917_37) {
-Obj _3517918_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517919_37 = PRIM_CDR(_3517918_37);
-Obj _3517920_37 = PRIM_CAR(_3517919_37);
-Obj b = _3517920_37;
-Obj _3517921_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517922_37 = PRIM_CDR(_3517921_37);
-Obj _3517923_37 = PRIM_CDR(_3517922_37);
-Obj _3517924_37 = PRIM_EQ(Nil, _3517923_37);
-if (True == _3517924_37) {
+Obj _3516797_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3517966_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517966_37) {
+Obj _3517967_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517968_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517967_37);
+if (True == _3517968_37) {
+Obj _3517969_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517970_37 = PRIM_ISCONS(_3517969_37);
+if (True == _3517970_37) {
+Obj _3517971_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517972_37 = PRIM_CAR(_3517971_37);
+Obj a = _3517972_37;
+Obj _3517973_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517974_37 = PRIM_CDR(_3517973_37);
+Obj _3517975_37 = PRIM_ISCONS(_3517974_37);
+if (True == _3517975_37) {
+Obj _3517976_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517977_37 = PRIM_CDR(_3517976_37);
+Obj _3517978_37 = PRIM_CAR(_3517977_37);
+Obj b = _3517978_37;
+Obj _3517979_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517980_37 = PRIM_CDR(_3517979_37);
+Obj _3517981_37 = PRIM_CDR(_3517980_37);
+Obj _3517982_37 = PRIM_EQ(Nil, _3517981_37);
+if (True == _3517982_37) {
 R[1] = a;
 R[2] = b;
 saveCont(co, clofun89, 4, R);
@@ -3740,41 +3802,41 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516797_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517928_37= co->res;
+Obj _3517986_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517928_37, b, closureRef(R[0], 5));
+coraCall2(co, _3517986_37, b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517927_37= co->res;
+Obj _3517985_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun89, 1, R);
@@ -3783,7 +3845,7 @@ return;
 }
 case 3:
 {
-Obj _3517926_37= co->res;
+Obj _3517984_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun89, 2, R);
@@ -3792,12 +3854,12 @@ return;
 }
 case 4:
 {
-Obj _3517925_37= co->res;
+Obj _3517983_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 R[1] = b;
 saveCont(co, clofun89, 3, R);
-coraCall2(co, _3517925_37, a, closureRef(R[0], 5));
+coraCall2(co, _3517983_37, a, closureRef(R[0], 5));
 return;
 }
 }
@@ -3807,72 +3869,72 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516740_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517894_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517894_37) {
-Obj _3517895_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517896_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517895_37);
-if (True == _3517896_37) {
-Obj _3517897_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517898_37 = PRIM_ISCONS(_3517897_37);
-if (True == _3517898_37) {
-Obj _3517899_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517900_37 = PRIM_CAR(_3517899_37);
-Obj x = _3517900_37;
-Obj _3517901_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517902_37 = PRIM_CDR(_3517901_37);
-Obj _3517903_37 = PRIM_EQ(Nil, _3517902_37);
-if (True == _3517903_37) {
+Obj _3516798_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517952_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517952_37) {
+Obj _3517953_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517954_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517953_37);
+if (True == _3517954_37) {
+Obj _3517955_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517956_37 = PRIM_ISCONS(_3517955_37);
+if (True == _3517956_37) {
+Obj _3517957_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517958_37 = PRIM_CAR(_3517957_37);
+Obj x = _3517958_37;
+Obj _3517959_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517960_37 = PRIM_CDR(_3517959_37);
+Obj _3517961_37 = PRIM_EQ(Nil, _3517960_37);
+if (True == _3517961_37) {
 R[1] = x;
 saveCont(co, clofun88, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516798_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516798_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516798_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516798_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517907_37= co->res;
+Obj _3517965_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517906_37= co->res;
+Obj _3517964_37= co->res;
 saveCont(co, clofun88, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517905_37= co->res;
+Obj _3517963_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun88, 2, R);
-coraCall2(co, _3517905_37, x, closureRef(R[0], 4));
+coraCall2(co, _3517963_37, x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517904_37= co->res;
+Obj _3517962_37= co->res;
 Obj x = R[1];
 R[1] = x;
 saveCont(co, clofun88, 3, R);
@@ -3886,65 +3948,65 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516741_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517881_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517881_37) {
-Obj _3517882_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517883_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517882_37);
-if (True == _3517883_37) {
-Obj _3517884_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517885_37 = PRIM_ISCONS(_3517884_37);
-if (True == _3517885_37) {
-Obj _3517886_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517887_37 = PRIM_CAR(_3517886_37);
-Obj exp = _3517887_37;
-Obj _3517888_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517889_37 = PRIM_CDR(_3517888_37);
-Obj _3517890_37 = PRIM_EQ(Nil, _3517889_37);
-if (True == _3517890_37) {
+Obj _3516799_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517939_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517939_37) {
+Obj _3517940_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517941_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517940_37);
+if (True == _3517941_37) {
+Obj _3517942_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517943_37 = PRIM_ISCONS(_3517942_37);
+if (True == _3517943_37) {
+Obj _3517944_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517945_37 = PRIM_CAR(_3517944_37);
+Obj exp = _3517945_37;
+Obj _3517946_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517947_37 = PRIM_CDR(_3517946_37);
+Obj _3517948_37 = PRIM_EQ(Nil, _3517947_37);
+if (True == _3517948_37) {
 R[1] = exp;
 saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3516799_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3516799_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3516799_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3516799_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517893_37= co->res;
+Obj _3517951_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517892_37= co->res;
+Obj _3517950_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun87, 1, R);
-coraCall2(co, _3517892_37, exp, closureRef(R[0], 4));
+coraCall2(co, _3517950_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517891_37= co->res;
+Obj _3517949_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun87, 2, R);
@@ -3958,30 +4020,30 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516742_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517857_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517857_37) {
-Obj _3517858_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517859_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517858_37);
-if (True == _3517859_37) {
-Obj _3517860_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517861_37 = PRIM_ISCONS(_3517860_37);
-if (True == _3517861_37) {
-Obj _3517862_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517863_37 = PRIM_CAR(_3517862_37);
-Obj exp = _3517863_37;
-Obj _3517864_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517865_37 = PRIM_CDR(_3517864_37);
-Obj _3517866_37 = PRIM_ISCONS(_3517865_37);
-if (True == _3517866_37) {
-Obj _3517867_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517868_37 = PRIM_CDR(_3517867_37);
-Obj _3517869_37 = PRIM_CAR(_3517868_37);
-Obj label = _3517869_37;
-Obj _3517870_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517871_37 = PRIM_CDR(_3517870_37);
-Obj _3517872_37 = PRIM_CDR(_3517871_37);
-Obj fvs = _3517872_37;
+Obj _3516800_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517915_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517915_37) {
+Obj _3517916_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517917_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517916_37);
+if (True == _3517917_37) {
+Obj _3517918_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517919_37 = PRIM_ISCONS(_3517918_37);
+if (True == _3517919_37) {
+Obj _3517920_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517921_37 = PRIM_CAR(_3517920_37);
+Obj exp = _3517921_37;
+Obj _3517922_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517923_37 = PRIM_CDR(_3517922_37);
+Obj _3517924_37 = PRIM_ISCONS(_3517923_37);
+if (True == _3517924_37) {
+Obj _3517925_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517926_37 = PRIM_CDR(_3517925_37);
+Obj _3517927_37 = PRIM_CAR(_3517926_37);
+Obj label = _3517927_37;
+Obj _3517928_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517929_37 = PRIM_CDR(_3517928_37);
+Obj _3517930_37 = PRIM_CDR(_3517929_37);
+Obj fvs = _3517930_37;
 R[1] = label;
 R[2] = exp;
 saveCont(co, clofun86, 8, R);
@@ -3990,43 +4052,43 @@ coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516800_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516800_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516800_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516800_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517880_37= co->res;
+Obj _3517938_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517879_37= co->res;
+Obj _3517937_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517879_37, exp, closureRef(R[0], 4));
+coraCall2(co, _3517937_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517878_37= co->res;
+Obj _3517936_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun86, 2, R);
@@ -4035,7 +4097,7 @@ return;
 }
 case 4:
 {
-Obj _3517877_37= co->res;
+Obj _3517935_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun86, 3, R);
@@ -4044,7 +4106,7 @@ return;
 }
 case 5:
 {
-Obj _3517876_37= co->res;
+Obj _3517934_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = exp;
@@ -4054,7 +4116,7 @@ return;
 }
 case 6:
 {
-Obj _3517875_37= co->res;
+Obj _3517933_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4065,7 +4127,7 @@ return;
 }
 case 7:
 {
-Obj _3517874_37= co->res;
+Obj _3517932_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4076,7 +4138,7 @@ return;
 }
 case 8:
 {
-Obj _3517873_37= co->res;
+Obj _3517931_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4092,12 +4154,12 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517834_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517834_37) {
-Obj _3517835_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517835_37;
-Obj _3517836_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517836_37;
+Obj _3517892_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517892_37) {
+Obj _3517893_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517893_37;
+Obj _3517894_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517894_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun85, 18, R);
@@ -4111,14 +4173,14 @@ return;
 }
 case 1:
 {
-Obj _3517848_37= co->res;
+Obj _3517906_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517847_37= co->res;
+Obj _3517905_37= co->res;
 Obj nargs = R[1];
 saveCont(co, clofun85, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
@@ -4126,7 +4188,7 @@ return;
 }
 case 3:
 {
-Obj _3517846_37= co->res;
+Obj _3517904_37= co->res;
 Obj nargs = R[1];
 R[1] = nargs;
 saveCont(co, clofun85, 2, R);
@@ -4135,17 +4197,17 @@ return;
 }
 case 4:
 {
-Obj _3517845_37= co->res;
+Obj _3517903_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = nargs;
 saveCont(co, clofun85, 3, R);
-coraCall2(co, _3517845_37, f, closureRef(R[0], 4));
+coraCall2(co, _3517903_37, f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517844_37= co->res;
+Obj _3517902_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4156,7 +4218,7 @@ return;
 }
 case 6:
 {
-Obj _3517843_37= co->res;
+Obj _3517901_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4167,7 +4229,7 @@ return;
 }
 case 7:
 {
-Obj _3517842_37= co->res;
+Obj _3517900_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4178,7 +4240,7 @@ return;
 }
 case 8:
 {
-Obj _3517841_37= co->res;
+Obj _3517899_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4191,7 +4253,7 @@ return;
 }
 case 9:
 {
-Obj _3517840_37= co->res;
+Obj _3517898_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4204,7 +4266,7 @@ return;
 }
 case 10:
 {
-Obj _3517839_37= co->res;
+Obj _3517897_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4217,14 +4279,14 @@ return;
 }
 case 11:
 {
-Obj _3517856_37= co->res;
+Obj _3517914_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517855_37= co->res;
+Obj _3517913_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun85, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -4233,11 +4295,11 @@ return;
 }
 case 13:
 {
-Obj _3517853_37= co->res;
+Obj _3517911_37= co->res;
 Obj nargs = R[1];
 Obj args = R[2];
-Obj _3517854_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517854_37) {
+Obj _3517912_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
+if (True == _3517912_37) {
 R[1] = args;
 saveCont(co, clofun85, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -4251,19 +4313,19 @@ return;
 }
 case 14:
 {
-Obj _3517852_37= co->res;
+Obj _3517910_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
 R[1] = nargs;
 R[2] = args;
 saveCont(co, clofun85, 13, R);
-coraCall2(co, _3517852_37, f, closureRef(R[0], 4));
+coraCall2(co, _3517910_37, f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517851_37= co->res;
+Obj _3517909_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4276,7 +4338,7 @@ return;
 }
 case 16:
 {
-Obj _3517850_37= co->res;
+Obj _3517908_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4289,7 +4351,7 @@ return;
 }
 case 17:
 {
-Obj _3517849_37= co->res;
+Obj _3517907_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4302,12 +4364,12 @@ return;
 }
 case 18:
 {
-Obj _3517837_37= co->res;
+Obj _3517895_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj nargs = _3517837_37;
-Obj _3517838_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517838_37) {
+Obj nargs = _3517895_37;
+Obj _3517896_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
+if (True == _3517896_37) {
 R[1] = args;
 R[2] = f;
 R[3] = nargs;
@@ -4356,15 +4418,15 @@ return;
 }
 case 1:
 {
-Obj _3517829_37= co->res;
+Obj _3517887_37= co->res;
 Obj acc = R[1];
-Obj _3517830_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517830_37);
+Obj _3517888_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517888_37);
 return;
 }
 case 2:
 {
-Obj _3517828_37= co->res;
+Obj _3517886_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun83, 1, R);
@@ -4373,7 +4435,7 @@ return;
 }
 case 3:
 {
-Obj _3517827_37= co->res;
+Obj _3517885_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun83, 2, R);
@@ -4382,7 +4444,7 @@ return;
 }
 case 4:
 {
-Obj _3517826_37= co->res;
+Obj _3517884_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun83, 3, R);
@@ -4391,7 +4453,7 @@ return;
 }
 case 5:
 {
-Obj _3517825_37= co->res;
+Obj _3517883_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -4433,15 +4495,15 @@ return;
 }
 case 1:
 {
-Obj _3517822_37= co->res;
+Obj _3517880_37= co->res;
 Obj acc = R[1];
-Obj _3517823_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517823_37);
+Obj _3517881_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517881_37);
 return;
 }
 case 2:
 {
-Obj _3517821_37= co->res;
+Obj _3517879_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun81, 1, R);
@@ -4450,7 +4512,7 @@ return;
 }
 case 3:
 {
-Obj _3517820_37= co->res;
+Obj _3517878_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -4461,7 +4523,7 @@ return;
 }
 case 4:
 {
-Obj _3517819_37= co->res;
+Obj _3517877_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
@@ -4472,7 +4534,7 @@ return;
 }
 case 5:
 {
-Obj _3517818_37= co->res;
+Obj _3517876_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
@@ -4513,24 +4575,24 @@ return;
 }
 case 1:
 {
-Obj _3517811_37= co->res;
+Obj _3517869_37= co->res;
 Obj idx = R[1];
 Obj globals = R[2];
 Obj sym = R[3];
-if (True == _3517811_37) {
+if (True == _3517869_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517812_37 = PRIM_CAR(globals);
-Obj _3517813_37 = PRIM_EQ(sym, _3517812_37);
-if (True == _3517813_37) {
+Obj _3517870_37 = PRIM_CAR(globals);
+Obj _3517871_37 = PRIM_EQ(sym, _3517870_37);
+if (True == _3517871_37) {
 coraReturn(co, idx);
 return;
 } else {
-Obj _3517814_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517815_37 = PRIM_CDR(globals);
+Obj _3517872_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3517873_37 = PRIM_CDR(globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517814_37, sym, _3517815_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517872_37, sym, _3517873_37);
 return;
 }
 }
@@ -4552,26 +4614,26 @@ return;
 }
 case 1:
 {
-Obj _3517807_37= co->res;
+Obj _3517865_37= co->res;
 Obj sym = R[1];
 Obj val = R[2];
 Obj globals = R[3];
-if (True == _3517807_37) {
+if (True == _3517865_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517808_37 = makeCons(co->gc, sym, val);
-Obj _3517809_37 = primSet(co, globals, _3517808_37);
-coraReturn(co, _3517809_37);
+Obj _3517866_37 = makeCons(co->gc, sym, val);
+Obj _3517867_37 = primSet(co, globals, _3517866_37);
+coraReturn(co, _3517867_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517806_37= co->res;
+Obj _3517864_37= co->res;
 Obj sym = R[1];
 Obj globals = R[2];
-Obj val = _3517806_37;
+Obj val = _3517864_37;
 R[1] = sym;
 R[2] = val;
 R[3] = globals;
@@ -4588,8 +4650,8 @@ case 0:
 {
 Obj x = R[1];
 Obj k = R[2];
-Obj _3517799_37 = primGenSym(co);
-Obj tmp = _3517799_37;
+Obj _3517857_37 = primGenSym(co);
+Obj tmp = _3517857_37;
 R[1] = x;
 R[2] = tmp;
 saveCont(co, clofun77, 1, R);
@@ -4598,14 +4660,14 @@ return;
 }
 case 1:
 {
-Obj _3517800_37= co->res;
+Obj _3517858_37= co->res;
 Obj x = R[1];
 Obj tmp = R[2];
-Obj _3517801_37 = makeCons(co->gc, _3517800_37, Nil);
-Obj _3517802_37 = makeCons(co->gc, x, _3517801_37);
-Obj _3517803_37 = makeCons(co->gc, tmp, _3517802_37);
-Obj _3517804_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517803_37);
-coraReturn(co, _3517804_37);
+Obj _3517859_37 = makeCons(co->gc, _3517858_37, Nil);
+Obj _3517860_37 = makeCons(co->gc, x, _3517859_37);
+Obj _3517861_37 = makeCons(co->gc, tmp, _3517860_37);
+Obj _3517862_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517861_37);
+coraReturn(co, _3517862_37);
 return;
 }
 }
@@ -4625,7 +4687,7 @@ return;
 }
 case 1:
 {
-Obj _3517797_37= co->res;
+Obj _3517855_37= co->res;
 Obj v = R[1];
 Obj cur1 = R[2];
 co->ctx.sp = R;
@@ -4634,28 +4696,28 @@ return;
 }
 case 2:
 {
-Obj _3517792_37= co->res;
+Obj _3517850_37= co->res;
 Obj val = R[1];
 Obj idx = R[2];
 Obj v = R[3];
-Obj cur = _3517792_37;
-Obj _3517793_37 = makeCons(co->gc, val, Nil);
-Obj _3517794_37 = makeCons(co->gc, idx, _3517793_37);
-Obj _3517795_37 = makeCons(co->gc, _3517794_37, cur);
-Obj cur1 = _3517795_37;
-Obj _3517796_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj cur = _3517850_37;
+Obj _3517851_37 = makeCons(co->gc, val, Nil);
+Obj _3517852_37 = makeCons(co->gc, idx, _3517851_37);
+Obj _3517853_37 = makeCons(co->gc, _3517852_37, cur);
+Obj cur1 = _3517853_37;
+Obj _3517854_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
 R[1] = v;
 R[2] = cur1;
 saveCont(co, clofun76, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517796_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517854_37);
 return;
 }
 case 3:
 {
-Obj _3517791_37= co->res;
+Obj _3517849_37= co->res;
 Obj val = R[1];
 Obj v = R[2];
-Obj idx = _3517791_37;
+Obj idx = _3517849_37;
 R[1] = val;
 R[2] = idx;
 R[3] = v;
@@ -4670,121 +4732,121 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = makeNative(co->gc, 1, clofun74, 0, 2, _3516727_37, _3516728_37);
-Obj _3517742_37 = PRIM_ISCONS(_3516728_37);
-if (True == _3517742_37) {
-Obj _3517743_37 = PRIM_CAR(_3516728_37);
-Obj _3517744_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517743_37);
-if (True == _3517744_37) {
-Obj _3517745_37 = PRIM_CDR(_3516728_37);
-Obj _3517746_37 = PRIM_ISCONS(_3517745_37);
-if (True == _3517746_37) {
-Obj _3517747_37 = PRIM_CDR(_3516728_37);
-Obj _3517748_37 = PRIM_CAR(_3517747_37);
-Obj _3517749_37 = PRIM_ISCONS(_3517748_37);
-if (True == _3517749_37) {
-Obj _3517750_37 = PRIM_CDR(_3516728_37);
-Obj _3517751_37 = PRIM_CAR(_3517750_37);
-Obj _3517752_37 = PRIM_CAR(_3517751_37);
-Obj _3517753_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517752_37);
-if (True == _3517753_37) {
-Obj _3517754_37 = PRIM_CDR(_3516728_37);
-Obj _3517755_37 = PRIM_CAR(_3517754_37);
-Obj _3517756_37 = PRIM_CDR(_3517755_37);
-Obj _3517757_37 = PRIM_ISCONS(_3517756_37);
-if (True == _3517757_37) {
-Obj _3517758_37 = PRIM_CDR(_3516728_37);
-Obj _3517759_37 = PRIM_CAR(_3517758_37);
-Obj _3517760_37 = PRIM_CDR(_3517759_37);
-Obj _3517761_37 = PRIM_CAR(_3517760_37);
-Obj params = _3517761_37;
-Obj _3517762_37 = PRIM_CDR(_3516728_37);
-Obj _3517763_37 = PRIM_CAR(_3517762_37);
-Obj _3517764_37 = PRIM_CDR(_3517763_37);
-Obj _3517765_37 = PRIM_CDR(_3517764_37);
-Obj _3517766_37 = PRIM_ISCONS(_3517765_37);
-if (True == _3517766_37) {
-Obj _3517767_37 = PRIM_CDR(_3516728_37);
-Obj _3517768_37 = PRIM_CAR(_3517767_37);
-Obj _3517769_37 = PRIM_CDR(_3517768_37);
-Obj _3517770_37 = PRIM_CDR(_3517769_37);
-Obj _3517771_37 = PRIM_CAR(_3517770_37);
-Obj body = _3517771_37;
-Obj _3517772_37 = PRIM_CDR(_3516728_37);
-Obj _3517773_37 = PRIM_CAR(_3517772_37);
-Obj _3517774_37 = PRIM_CDR(_3517773_37);
-Obj _3517775_37 = PRIM_CDR(_3517774_37);
-Obj _3517776_37 = PRIM_CDR(_3517775_37);
-Obj _3517777_37 = PRIM_EQ(Nil, _3517776_37);
-if (True == _3517777_37) {
-Obj _3517778_37 = PRIM_CDR(_3516728_37);
-Obj _3517779_37 = PRIM_CDR(_3517778_37);
-Obj fvs = _3517779_37;
-R[1] = _3516727_37;
+Obj _3516785_37 = R[1];
+Obj _3516786_37 = R[2];
+Obj _3516787_37 = makeNative(co->gc, 1, clofun74, 0, 2, _3516785_37, _3516786_37);
+Obj _3517800_37 = PRIM_ISCONS(_3516786_37);
+if (True == _3517800_37) {
+Obj _3517801_37 = PRIM_CAR(_3516786_37);
+Obj _3517802_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517801_37);
+if (True == _3517802_37) {
+Obj _3517803_37 = PRIM_CDR(_3516786_37);
+Obj _3517804_37 = PRIM_ISCONS(_3517803_37);
+if (True == _3517804_37) {
+Obj _3517805_37 = PRIM_CDR(_3516786_37);
+Obj _3517806_37 = PRIM_CAR(_3517805_37);
+Obj _3517807_37 = PRIM_ISCONS(_3517806_37);
+if (True == _3517807_37) {
+Obj _3517808_37 = PRIM_CDR(_3516786_37);
+Obj _3517809_37 = PRIM_CAR(_3517808_37);
+Obj _3517810_37 = PRIM_CAR(_3517809_37);
+Obj _3517811_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517810_37);
+if (True == _3517811_37) {
+Obj _3517812_37 = PRIM_CDR(_3516786_37);
+Obj _3517813_37 = PRIM_CAR(_3517812_37);
+Obj _3517814_37 = PRIM_CDR(_3517813_37);
+Obj _3517815_37 = PRIM_ISCONS(_3517814_37);
+if (True == _3517815_37) {
+Obj _3517816_37 = PRIM_CDR(_3516786_37);
+Obj _3517817_37 = PRIM_CAR(_3517816_37);
+Obj _3517818_37 = PRIM_CDR(_3517817_37);
+Obj _3517819_37 = PRIM_CAR(_3517818_37);
+Obj params = _3517819_37;
+Obj _3517820_37 = PRIM_CDR(_3516786_37);
+Obj _3517821_37 = PRIM_CAR(_3517820_37);
+Obj _3517822_37 = PRIM_CDR(_3517821_37);
+Obj _3517823_37 = PRIM_CDR(_3517822_37);
+Obj _3517824_37 = PRIM_ISCONS(_3517823_37);
+if (True == _3517824_37) {
+Obj _3517825_37 = PRIM_CDR(_3516786_37);
+Obj _3517826_37 = PRIM_CAR(_3517825_37);
+Obj _3517827_37 = PRIM_CDR(_3517826_37);
+Obj _3517828_37 = PRIM_CDR(_3517827_37);
+Obj _3517829_37 = PRIM_CAR(_3517828_37);
+Obj body = _3517829_37;
+Obj _3517830_37 = PRIM_CDR(_3516786_37);
+Obj _3517831_37 = PRIM_CAR(_3517830_37);
+Obj _3517832_37 = PRIM_CDR(_3517831_37);
+Obj _3517833_37 = PRIM_CDR(_3517832_37);
+Obj _3517834_37 = PRIM_CDR(_3517833_37);
+Obj _3517835_37 = PRIM_EQ(Nil, _3517834_37);
+if (True == _3517835_37) {
+Obj _3517836_37 = PRIM_CDR(_3516786_37);
+Obj _3517837_37 = PRIM_CDR(_3517836_37);
+Obj fvs = _3517837_37;
+R[1] = _3516785_37;
 R[2] = params;
 R[3] = fvs;
 saveCont(co, clofun75, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516727_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516785_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516787_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517785_37= co->res;
+Obj _3517843_37= co->res;
 Obj nframe = R[1];
 Obj fvs = R[2];
 Obj cur = R[3];
-Obj _3517786_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517787_37 = makeCons(co->gc, _3517785_37, _3517786_37);
-Obj _3517788_37 = makeCons(co->gc, cur, _3517787_37);
-Obj _3517789_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517788_37);
-coraReturn(co, _3517789_37);
+Obj _3517844_37 = makeCons(co->gc, nframe, fvs);
+Obj _3517845_37 = makeCons(co->gc, _3517843_37, _3517844_37);
+Obj _3517846_37 = makeCons(co->gc, cur, _3517845_37);
+Obj _3517847_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517846_37);
+coraReturn(co, _3517847_37);
 return;
 }
 case 2:
 {
-Obj _3517784_37= co->res;
+Obj _3517842_37= co->res;
 Obj params = R[1];
 Obj nframe = R[2];
 Obj fvs = R[3];
@@ -4798,30 +4860,30 @@ return;
 }
 case 3:
 {
-Obj _3517783_37= co->res;
-Obj _3516727_37 = R[1];
+Obj _3517841_37= co->res;
+Obj _3516785_37 = R[1];
 Obj body2 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
 Obj cur = R[5];
-Obj nframe = _3517783_37;
+Obj nframe = _3517841_37;
 R[1] = params;
 R[2] = nframe;
 R[3] = fvs;
 R[4] = cur;
 saveCont(co, clofun75, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516727_37, body2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516785_37, body2);
 return;
 }
 case 4:
 {
-Obj _3517782_37= co->res;
-Obj _3516727_37 = R[1];
+Obj _3517840_37= co->res;
+Obj _3516785_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
 Obj cur = R[4];
-Obj body2 = _3517782_37;
-R[1] = _3516727_37;
+Obj body2 = _3517840_37;
+R[1] = _3516785_37;
 R[2] = body2;
 R[3] = params;
 R[4] = fvs;
@@ -4832,13 +4894,13 @@ return;
 }
 case 5:
 {
-Obj _3517781_37= co->res;
+Obj _3517839_37= co->res;
 Obj body1 = R[1];
-Obj _3516727_37 = R[2];
+Obj _3516785_37 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
-Obj cur = _3517781_37;
-R[1] = _3516727_37;
+Obj cur = _3517839_37;
+R[1] = _3516785_37;
 R[2] = params;
 R[3] = fvs;
 R[4] = cur;
@@ -4848,17 +4910,17 @@ return;
 }
 case 6:
 {
-Obj _3517780_37= co->res;
-Obj _3516727_37 = R[1];
+Obj _3517838_37= co->res;
+Obj _3516785_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
-Obj body1 = _3517780_37;
+Obj body1 = _3517838_37;
 R[1] = body1;
-R[2] = _3516727_37;
+R[2] = _3516785_37;
 R[3] = params;
 R[4] = fvs;
 saveCont(co, clofun75, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516727_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516785_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4868,8 +4930,8 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517740_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517740_37) {
+Obj _3517798_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517798_37) {
 saveCont(co, clofun74, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4880,9 +4942,9 @@ return;
 }
 case 1:
 {
-Obj _3517741_37= co->res;
+Obj _3517799_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517741_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517799_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4900,30 +4962,30 @@ return;
 }
 case 1:
 {
-Obj _3517738_37= co->res;
-Obj _3517737_37 = R[1];
+Obj _3517796_37= co->res;
+Obj _3517795_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun72, 2, 0), _3517737_37, _3517738_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun72, 2, 0), _3517795_37, _3517796_37);
 return;
 }
 case 2:
 {
-Obj _3517732_37= co->res;
+Obj _3517790_37= co->res;
 Obj lam = R[1];
-Obj nargs = _3517732_37;
-Obj _3517737_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517737_37;
+Obj nargs = _3517790_37;
+Obj _3517795_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
+R[1] = _3517795_37;
 saveCont(co, clofun73, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
 return;
 }
 case 3:
 {
-Obj _3517731_37= co->res;
+Obj _3517789_37= co->res;
 Obj lam = R[1];
 R[1] = lam;
 saveCont(co, clofun73, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517731_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517789_37);
 return;
 }
 }
@@ -4942,12 +5004,12 @@ return;
 }
 case 1:
 {
-Obj _3517734_37= co->res;
+Obj _3517792_37= co->res;
 Obj acc = R[1];
-Obj _3517735_37 = PRIM_ADD(_3517734_37, MAKE_NUMBER(1));
-Obj len = _3517735_37;
-Obj _3517736_37 = PRIM_GT(len, acc);
-if (True == _3517736_37) {
+Obj _3517793_37 = PRIM_ADD(_3517792_37, MAKE_NUMBER(1));
+Obj len = _3517793_37;
+Obj _3517794_37 = PRIM_GT(len, acc);
+if (True == _3517794_37) {
 coraReturn(co, len);
 return;
 } else {
@@ -4957,11 +5019,11 @@ return;
 }
 case 2:
 {
-Obj _3517733_37= co->res;
+Obj _3517791_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517733_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517791_37);
 return;
 }
 }
@@ -4993,12 +5055,12 @@ return;
 }
 case 1:
 {
-Obj _3517726_37= co->res;
+Obj _3517784_37= co->res;
 Obj body1 = R[1];
-Obj _3517727_37 = makeCons(co->gc, body1, _3517726_37);
-Obj _3517728_37 = makeCons(co->gc, closureRef(R[0], 0), _3517727_37);
-Obj _3517729_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517728_37);
-coraReturn(co, _3517729_37);
+Obj _3517785_37 = makeCons(co->gc, body1, _3517784_37);
+Obj _3517786_37 = makeCons(co->gc, closureRef(R[0], 0), _3517785_37);
+Obj _3517787_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517786_37);
+coraReturn(co, _3517787_37);
 return;
 }
 }
@@ -5008,24 +5070,24 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516721_37 = R[1];
-Obj _3516722_37 = R[2];
-Obj _3516723_37 = R[3];
-Obj _3516724_37 = R[4];
-Obj _3517720_37 = PRIM_EQ(Nil, _3516721_37);
-if (True == _3517720_37) {
+Obj _3516779_37 = R[1];
+Obj _3516780_37 = R[2];
+Obj _3516781_37 = R[3];
+Obj _3516782_37 = R[4];
+Obj _3517778_37 = PRIM_EQ(Nil, _3516779_37);
+if (True == _3517778_37) {
 co->ctx.sp = R;
-coraCall2(co, _3516724_37, _3516723_37, _3516722_37);
+coraCall2(co, _3516782_37, _3516781_37, _3516780_37);
 return;
 } else {
-Obj _3517721_37 = PRIM_ISCONS(_3516721_37);
-if (True == _3517721_37) {
-Obj _3517722_37 = PRIM_CAR(_3516721_37);
-Obj f = _3517722_37;
-Obj _3517723_37 = PRIM_CDR(_3516721_37);
-Obj args = _3517723_37;
+Obj _3517779_37 = PRIM_ISCONS(_3516779_37);
+if (True == _3517779_37) {
+Obj _3517780_37 = PRIM_CAR(_3516779_37);
+Obj f = _3517780_37;
+Obj _3517781_37 = PRIM_CDR(_3516779_37);
+Obj args = _3517781_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516722_37, makeNative(co->gc, 3, clofun68, 2, 3, args, _3516723_37, _3516724_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516780_37, makeNative(co->gc, 3, clofun68, 2, 3, args, _3516781_37, _3516782_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5056,9 +5118,9 @@ case 0:
 {
 Obj args1 = R[1];
 Obj conts2 = R[2];
-Obj _3517724_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj _3517782_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517724_37, conts2);
+coraCall2(co, closureRef(R[0], 0), _3517782_37, conts2);
 return;
 }
 }
@@ -5068,33 +5130,33 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516715_37 = R[1];
-Obj _3516716_37 = R[2];
-Obj _3516717_37 = R[3];
-Obj _3516791_37 = makeNative(co->gc, 2, clofun65, 1, 3, _3516715_37, _3516716_37, _3516717_37);
-Obj _3517717_37 = primIsSymbol(_3516715_37);
-if (True == _3517717_37) {
+Obj _3516773_37 = R[1];
+Obj _3516774_37 = R[2];
+Obj _3516775_37 = R[3];
+Obj _3516849_37 = makeNative(co->gc, 2, clofun65, 1, 3, _3516773_37, _3516774_37, _3516775_37);
+Obj _3517775_37 = primIsSymbol(_3516773_37);
+if (True == _3517775_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516791_37, True);
+coraCall1(co, _3516849_37, True);
 return;
 } else {
-R[1] = _3516791_37;
+R[1] = _3516849_37;
 saveCont(co, clofun66, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516715_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516773_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517718_37= co->res;
-Obj _3516791_37 = R[1];
-if (True == _3517718_37) {
+Obj _3517776_37= co->res;
+Obj _3516849_37 = R[1];
+if (True == _3517776_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516791_37, True);
+coraCall1(co, _3516849_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516791_37, False);
+coraCall1(co, _3516849_37, False);
 return;
 }
 }
@@ -5105,63 +5167,63 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516792_37 = R[1];
-if (True == _3516792_37) {
+Obj _3516850_37 = R[1];
+if (True == _3516850_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516719_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517693_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517693_37) {
-Obj _3517694_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517695_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517694_37);
-if (True == _3517695_37) {
-Obj _3517696_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517697_37 = PRIM_ISCONS(_3517696_37);
-if (True == _3517697_37) {
-Obj _3517698_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517699_37 = PRIM_CAR(_3517698_37);
-Obj exp = _3517699_37;
-Obj _3517700_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517701_37 = PRIM_CDR(_3517700_37);
-Obj _3517702_37 = PRIM_ISCONS(_3517701_37);
-if (True == _3517702_37) {
-Obj _3517703_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517704_37 = PRIM_CDR(_3517703_37);
-Obj _3517705_37 = PRIM_CAR(_3517704_37);
-Obj cont = _3517705_37;
-Obj _3517706_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517707_37 = PRIM_CDR(_3517706_37);
-Obj _3517708_37 = PRIM_CDR(_3517707_37);
-Obj _3517709_37 = PRIM_EQ(Nil, _3517708_37);
-if (True == _3517709_37) {
+Obj _3516777_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517751_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517751_37) {
+Obj _3517752_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517753_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517752_37);
+if (True == _3517753_37) {
+Obj _3517754_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517755_37 = PRIM_ISCONS(_3517754_37);
+if (True == _3517755_37) {
+Obj _3517756_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517757_37 = PRIM_CAR(_3517756_37);
+Obj exp = _3517757_37;
+Obj _3517758_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517759_37 = PRIM_CDR(_3517758_37);
+Obj _3517760_37 = PRIM_ISCONS(_3517759_37);
+if (True == _3517760_37) {
+Obj _3517761_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517762_37 = PRIM_CDR(_3517761_37);
+Obj _3517763_37 = PRIM_CAR(_3517762_37);
+Obj cont = _3517763_37;
+Obj _3517764_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517765_37 = PRIM_CDR(_3517764_37);
+Obj _3517766_37 = PRIM_CDR(_3517765_37);
+Obj _3517767_37 = PRIM_EQ(Nil, _3517766_37);
+if (True == _3517767_37) {
 co->ctx.sp = R;
 coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516777_37);
 return;
 }
 }
@@ -5183,25 +5245,25 @@ return;
 }
 case 1:
 {
-Obj _3517711_37= co->res;
+Obj _3517769_37= co->res;
 Obj fvs = R[1];
 Obj cont1 = R[2];
 Obj conts1 = R[3];
-Obj _3517712_37 = PRIM_ADD(_3517711_37, MAKE_NUMBER(1));
-Obj _3517713_37 = makeCons(co->gc, _3517712_37, fvs);
-Obj _3517714_37 = makeCons(co->gc, closureRef(R[0], 1), _3517713_37);
-Obj _3517715_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517714_37);
-Obj _3517716_37 = makeCons(co->gc, cont1, conts1);
+Obj _3517770_37 = PRIM_ADD(_3517769_37, MAKE_NUMBER(1));
+Obj _3517771_37 = makeCons(co->gc, _3517770_37, fvs);
+Obj _3517772_37 = makeCons(co->gc, closureRef(R[0], 1), _3517771_37);
+Obj _3517773_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517772_37);
+Obj _3517774_37 = makeCons(co->gc, cont1, conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517715_37, _3517716_37);
+coraCall2(co, closureRef(R[0], 0), _3517773_37, _3517774_37);
 return;
 }
 case 2:
 {
-Obj _3517710_37= co->res;
+Obj _3517768_37= co->res;
 Obj cont1 = R[1];
 Obj conts1 = R[2];
-Obj fvs = _3517710_37;
+Obj fvs = _3517768_37;
 R[1] = fvs;
 R[2] = cont1;
 R[3] = conts1;
@@ -5216,15 +5278,15 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517689_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517689_37) {
-Obj _3517690_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517690_37;
-Obj _3517691_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517691_37;
-Obj _3517692_37 = makeCons(co->gc, f, args);
+Obj _3517747_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517747_37) {
+Obj _3517748_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517748_37;
+Obj _3517749_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517749_37;
+Obj _3517750_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517692_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517750_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5239,90 +5301,90 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516707_37 = R[1];
-Obj _3516708_37 = R[2];
-R[1] = _3516708_37;
-R[2] = _3516707_37;
+Obj _3516765_37 = R[1];
+Obj _3516766_37 = R[2];
+R[1] = _3516766_37;
+R[2] = _3516765_37;
 saveCont(co, clofun62, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516708_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516766_37);
 return;
 }
 case 1:
 {
-Obj _3517684_37= co->res;
+Obj _3517742_37= co->res;
 Obj args = R[1];
-Obj _3517685_37 = makeCons(co->gc, _3517684_37, Nil);
-Obj _3517686_37 = makeCons(co->gc, args, _3517685_37);
-Obj _3517687_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517686_37);
-coraReturn(co, _3517687_37);
+Obj _3517743_37 = makeCons(co->gc, _3517742_37, Nil);
+Obj _3517744_37 = makeCons(co->gc, args, _3517743_37);
+Obj _3517745_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517744_37);
+coraReturn(co, _3517745_37);
 return;
 }
 case 2:
 {
-Obj _3517612_37= co->res;
-Obj _3516708_37 = R[1];
-Obj _3516707_37 = R[2];
-if (True == _3517612_37) {
-coraReturn(co, _3516708_37);
-return;
-} else {
-Obj _3517613_37 = primIsSymbol(_3516708_37);
-if (True == _3517613_37) {
-coraReturn(co, _3516708_37);
+Obj _3517670_37= co->res;
+Obj _3516766_37 = R[1];
+Obj _3516765_37 = R[2];
+if (True == _3517670_37) {
+coraReturn(co, _3516766_37);
 return;
 } else {
-Obj _3516711_37 = makeNative(co->gc, 4, clofun61, 0, 2, _3516708_37, _3516707_37);
-Obj _3517667_37 = PRIM_ISCONS(_3516708_37);
-if (True == _3517667_37) {
-Obj _3517668_37 = PRIM_CAR(_3516708_37);
-Obj _3517669_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517668_37);
-if (True == _3517669_37) {
-Obj _3517670_37 = PRIM_CDR(_3516708_37);
-Obj _3517671_37 = PRIM_ISCONS(_3517670_37);
+Obj _3517671_37 = primIsSymbol(_3516766_37);
 if (True == _3517671_37) {
-Obj _3517672_37 = PRIM_CDR(_3516708_37);
-Obj _3517673_37 = PRIM_CAR(_3517672_37);
-Obj args = _3517673_37;
-Obj _3517674_37 = PRIM_CDR(_3516708_37);
-Obj _3517675_37 = PRIM_CDR(_3517674_37);
-Obj _3517676_37 = PRIM_ISCONS(_3517675_37);
-if (True == _3517676_37) {
-Obj _3517677_37 = PRIM_CDR(_3516708_37);
-Obj _3517678_37 = PRIM_CDR(_3517677_37);
-Obj _3517679_37 = PRIM_CAR(_3517678_37);
-Obj body = _3517679_37;
-Obj _3517680_37 = PRIM_CDR(_3516708_37);
-Obj _3517681_37 = PRIM_CDR(_3517680_37);
-Obj _3517682_37 = PRIM_CDR(_3517681_37);
-Obj _3517683_37 = PRIM_EQ(Nil, _3517682_37);
-if (True == _3517683_37) {
+coraReturn(co, _3516766_37);
+return;
+} else {
+Obj _3516769_37 = makeNative(co->gc, 4, clofun61, 0, 2, _3516766_37, _3516765_37);
+Obj _3517725_37 = PRIM_ISCONS(_3516766_37);
+if (True == _3517725_37) {
+Obj _3517726_37 = PRIM_CAR(_3516766_37);
+Obj _3517727_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517726_37);
+if (True == _3517727_37) {
+Obj _3517728_37 = PRIM_CDR(_3516766_37);
+Obj _3517729_37 = PRIM_ISCONS(_3517728_37);
+if (True == _3517729_37) {
+Obj _3517730_37 = PRIM_CDR(_3516766_37);
+Obj _3517731_37 = PRIM_CAR(_3517730_37);
+Obj args = _3517731_37;
+Obj _3517732_37 = PRIM_CDR(_3516766_37);
+Obj _3517733_37 = PRIM_CDR(_3517732_37);
+Obj _3517734_37 = PRIM_ISCONS(_3517733_37);
+if (True == _3517734_37) {
+Obj _3517735_37 = PRIM_CDR(_3516766_37);
+Obj _3517736_37 = PRIM_CDR(_3517735_37);
+Obj _3517737_37 = PRIM_CAR(_3517736_37);
+Obj body = _3517737_37;
+Obj _3517738_37 = PRIM_CDR(_3516766_37);
+Obj _3517739_37 = PRIM_CDR(_3517738_37);
+Obj _3517740_37 = PRIM_CDR(_3517739_37);
+Obj _3517741_37 = PRIM_EQ(Nil, _3517740_37);
+if (True == _3517741_37) {
 R[1] = args;
 saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516707_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516765_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516711_37);
+coraCall0(co, _3516769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516711_37);
+coraCall0(co, _3516769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516711_37);
+coraCall0(co, _3516769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516711_37);
+coraCall0(co, _3516769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516711_37);
+coraCall0(co, _3516769_37);
 return;
 }
 }
@@ -5335,31 +5397,31 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516712_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517642_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517642_37) {
-Obj _3517643_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517644_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517643_37);
-if (True == _3517644_37) {
-Obj _3517645_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517646_37 = PRIM_ISCONS(_3517645_37);
-if (True == _3517646_37) {
-Obj _3517647_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517648_37 = PRIM_CAR(_3517647_37);
-Obj val = _3517648_37;
-Obj _3517649_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517650_37 = PRIM_CDR(_3517649_37);
-Obj _3517651_37 = PRIM_ISCONS(_3517650_37);
-if (True == _3517651_37) {
-Obj _3517652_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517653_37 = PRIM_CDR(_3517652_37);
-Obj _3517654_37 = PRIM_CAR(_3517653_37);
-Obj body = _3517654_37;
-Obj _3517655_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517656_37 = PRIM_CDR(_3517655_37);
-Obj _3517657_37 = PRIM_CDR(_3517656_37);
-Obj _3517658_37 = PRIM_EQ(Nil, _3517657_37);
-if (True == _3517658_37) {
+Obj _3516770_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517700_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517700_37) {
+Obj _3517701_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517702_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517701_37);
+if (True == _3517702_37) {
+Obj _3517703_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517704_37 = PRIM_ISCONS(_3517703_37);
+if (True == _3517704_37) {
+Obj _3517705_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517706_37 = PRIM_CAR(_3517705_37);
+Obj val = _3517706_37;
+Obj _3517707_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517708_37 = PRIM_CDR(_3517707_37);
+Obj _3517709_37 = PRIM_ISCONS(_3517708_37);
+if (True == _3517709_37) {
+Obj _3517710_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517711_37 = PRIM_CDR(_3517710_37);
+Obj _3517712_37 = PRIM_CAR(_3517711_37);
+Obj body = _3517712_37;
+Obj _3517713_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517714_37 = PRIM_CDR(_3517713_37);
+Obj _3517715_37 = PRIM_CDR(_3517714_37);
+Obj _3517716_37 = PRIM_EQ(Nil, _3517715_37);
+if (True == _3517716_37) {
 R[1] = body;
 R[2] = val;
 saveCont(co, clofun61, 5, R);
@@ -5367,48 +5429,48 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516712_37);
+coraCall0(co, _3516770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516712_37);
+coraCall0(co, _3516770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516712_37);
+coraCall0(co, _3516770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516712_37);
+coraCall0(co, _3516770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516712_37);
+coraCall0(co, _3516770_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517663_37= co->res;
+Obj _3517721_37= co->res;
 Obj fvs2 = R[1];
 Obj val = R[2];
-Obj _3517664_37 = makeCons(co->gc, _3517663_37, fvs2);
-Obj _3517665_37 = makeCons(co->gc, val, _3517664_37);
-Obj _3517666_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517665_37);
-coraReturn(co, _3517666_37);
+Obj _3517722_37 = makeCons(co->gc, _3517721_37, fvs2);
+Obj _3517723_37 = makeCons(co->gc, val, _3517722_37);
+Obj _3517724_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517723_37);
+coraReturn(co, _3517724_37);
 return;
 }
 case 2:
 {
-Obj _3517662_37= co->res;
+Obj _3517720_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
-Obj fvs2 = _3517662_37;
+Obj fvs2 = _3517720_37;
 R[1] = fvs2;
 R[2] = val;
 saveCont(co, clofun61, 1, R);
@@ -5417,7 +5479,7 @@ return;
 }
 case 3:
 {
-Obj _3517661_37= co->res;
+Obj _3517719_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
@@ -5425,15 +5487,15 @@ R[1] = fvs1;
 R[2] = body;
 R[3] = val;
 saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517661_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517719_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517660_37= co->res;
+Obj _3517718_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
-Obj fvs1 = _3517660_37;
+Obj fvs1 = _3517718_37;
 R[1] = fvs1;
 R[2] = body;
 R[3] = val;
@@ -5443,13 +5505,13 @@ return;
 }
 case 5:
 {
-Obj _3517659_37= co->res;
+Obj _3517717_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
 R[1] = body;
 R[2] = val;
 saveCont(co, clofun61, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517659_37, val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517717_37, val);
 return;
 }
 }
@@ -5459,31 +5521,31 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516713_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517619_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517619_37) {
-Obj _3517620_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517621_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517620_37);
-if (True == _3517621_37) {
-Obj _3517622_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517623_37 = PRIM_ISCONS(_3517622_37);
-if (True == _3517623_37) {
-Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517625_37 = PRIM_CAR(_3517624_37);
-Obj exp = _3517625_37;
-Obj _3517626_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517627_37 = PRIM_CDR(_3517626_37);
-Obj _3517628_37 = PRIM_ISCONS(_3517627_37);
-if (True == _3517628_37) {
-Obj _3517629_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517630_37 = PRIM_CDR(_3517629_37);
-Obj _3517631_37 = PRIM_CAR(_3517630_37);
-Obj cont = _3517631_37;
-Obj _3517632_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517633_37 = PRIM_CDR(_3517632_37);
-Obj _3517634_37 = PRIM_CDR(_3517633_37);
-Obj _3517635_37 = PRIM_EQ(Nil, _3517634_37);
-if (True == _3517635_37) {
+Obj _3516771_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517677_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517677_37) {
+Obj _3517678_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517679_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517678_37);
+if (True == _3517679_37) {
+Obj _3517680_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517681_37 = PRIM_ISCONS(_3517680_37);
+if (True == _3517681_37) {
+Obj _3517682_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517683_37 = PRIM_CAR(_3517682_37);
+Obj exp = _3517683_37;
+Obj _3517684_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517685_37 = PRIM_CDR(_3517684_37);
+Obj _3517686_37 = PRIM_ISCONS(_3517685_37);
+if (True == _3517686_37) {
+Obj _3517687_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517688_37 = PRIM_CDR(_3517687_37);
+Obj _3517689_37 = PRIM_CAR(_3517688_37);
+Obj cont = _3517689_37;
+Obj _3517690_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517691_37 = PRIM_CDR(_3517690_37);
+Obj _3517692_37 = PRIM_CDR(_3517691_37);
+Obj _3517693_37 = PRIM_EQ(Nil, _3517692_37);
+if (True == _3517693_37) {
 R[1] = exp;
 R[2] = cont;
 saveCont(co, clofun60, 3, R);
@@ -5491,57 +5553,57 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516771_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517638_37= co->res;
-Obj _3517637_37 = R[1];
-Obj _3517639_37 = makeCons(co->gc, _3517638_37, Nil);
-Obj _3517640_37 = makeCons(co->gc, _3517637_37, _3517639_37);
-Obj _3517641_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517640_37);
-coraReturn(co, _3517641_37);
+Obj _3517696_37= co->res;
+Obj _3517695_37 = R[1];
+Obj _3517697_37 = makeCons(co->gc, _3517696_37, Nil);
+Obj _3517698_37 = makeCons(co->gc, _3517695_37, _3517697_37);
+Obj _3517699_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517698_37);
+coraReturn(co, _3517699_37);
 return;
 }
 case 2:
 {
-Obj _3517637_37= co->res;
+Obj _3517695_37= co->res;
 Obj cont = R[1];
-R[1] = _3517637_37;
+R[1] = _3517695_37;
 saveCont(co, clofun60, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), cont);
 return;
 }
 case 3:
 {
-Obj _3517636_37= co->res;
+Obj _3517694_37= co->res;
 Obj exp = R[1];
 Obj cont = R[2];
 R[1] = cont;
 saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517636_37, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517694_37, exp);
 return;
 }
 }
@@ -5551,12 +5613,12 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517614_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517614_37) {
-Obj _3517615_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517615_37;
-Obj _3517616_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517616_37;
+Obj _3517672_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517672_37) {
+Obj _3517673_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517673_37;
+Obj _3517674_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517674_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun59, 1, R);
@@ -5570,12 +5632,12 @@ return;
 }
 case 1:
 {
-Obj _3517617_37= co->res;
+Obj _3517675_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517618_37 = makeCons(co->gc, f, args);
+Obj _3517676_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517617_37, _3517618_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517675_37, _3517676_37);
 return;
 }
 }
@@ -5585,24 +5647,24 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516702_37 = R[1];
-Obj _3516703_37 = R[2];
-Obj _3516704_37 = R[3];
-Obj _3517589_37 = PRIM_EQ(Nil, _3516702_37);
-if (True == _3517589_37) {
-R[1] = _3516704_37;
+Obj _3516760_37 = R[1];
+Obj _3516761_37 = R[2];
+Obj _3516762_37 = R[3];
+Obj _3517647_37 = PRIM_EQ(Nil, _3516760_37);
+if (True == _3517647_37) {
+R[1] = _3516762_37;
 saveCont(co, clofun58, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516703_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516761_37);
 return;
 } else {
-Obj _3517607_37 = PRIM_ISCONS(_3516702_37);
-if (True == _3517607_37) {
-Obj _3517608_37 = PRIM_CAR(_3516702_37);
-Obj hd = _3517608_37;
-Obj _3517609_37 = PRIM_CDR(_3516702_37);
-Obj tl = _3517609_37;
+Obj _3517665_37 = PRIM_ISCONS(_3516760_37);
+if (True == _3517665_37) {
+Obj _3517666_37 = PRIM_CAR(_3516760_37);
+Obj hd = _3517666_37;
+Obj _3517667_37 = PRIM_CDR(_3516760_37);
+Obj tl = _3517667_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun57, 1, 3, tl, _3516703_37, _3516704_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun57, 1, 3, tl, _3516761_37, _3516762_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5613,46 +5675,46 @@ return;
 }
 case 1:
 {
-Obj _3517605_37= co->res;
-Obj _3516789_37 = R[1];
-Obj _3517606_37 = PRIM_EQ(_3517605_37, getBinding(co, packageID, 90).name);
-if (True == _3517606_37) {
+Obj _3517663_37= co->res;
+Obj _3516847_37 = R[1];
+Obj _3517664_37 = PRIM_EQ(_3517663_37, getBinding(co, packageID, 90).name);
+if (True == _3517664_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516789_37, True);
+coraCall1(co, _3516847_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516789_37, False);
+coraCall1(co, _3516847_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517604_37= co->res;
+Obj _3517662_37= co->res;
 Obj exp = R[1];
-Obj _3516789_37 = R[2];
-if (True == _3517604_37) {
-R[1] = _3516789_37;
+Obj _3516847_37 = R[2];
+if (True == _3517662_37) {
+R[1] = _3516847_37;
 saveCont(co, clofun58, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516789_37, False);
+coraCall1(co, _3516847_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517590_37= co->res;
-Obj _3516704_37 = R[1];
-Obj exp = _3517590_37;
-Obj _3516789_37 = makeNative(co->gc, 2, clofun56, 1, 2, exp, _3516704_37);
-Obj _3517603_37 = PRIM_CAR(exp);
+Obj _3517648_37= co->res;
+Obj _3516762_37 = R[1];
+Obj exp = _3517648_37;
+Obj _3516847_37 = makeNative(co->gc, 2, clofun56, 1, 2, exp, _3516762_37);
+Obj _3517661_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3516789_37;
+R[2] = _3516847_37;
 saveCont(co, clofun58, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517603_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517661_37);
 return;
 }
 }
@@ -5663,9 +5725,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj hd1 = R[1];
-Obj _3517610_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj _3517668_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517610_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517668_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5675,23 +5737,23 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516790_37 = R[1];
-if (True == _3516790_37) {
+Obj _3516848_37 = R[1];
+if (True == _3516848_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517591_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3517591_37) {
-Obj _3517592_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517593_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517592_37);
-coraReturn(co, _3517593_37);
+Obj _3517649_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == _3517649_37) {
+Obj _3517650_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3517651_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517650_37);
+coraReturn(co, _3517651_37);
 return;
 } else {
-Obj _3517594_37 = primGenSym(co);
-Obj val = _3517594_37;
-Obj _3517595_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517595_37;
+Obj _3517652_37 = primGenSym(co);
+Obj val = _3517652_37;
+Obj _3517653_37 = makeCons(co->gc, val, Nil);
+R[1] = _3517653_37;
 saveCont(co, clofun56, 1, R);
 coraCall1(co, closureRef(R[0], 1), val);
 return;
@@ -5700,15 +5762,15 @@ return;
 }
 case 1:
 {
-Obj _3517596_37= co->res;
-Obj _3517595_37 = R[1];
-Obj _3517597_37 = makeCons(co->gc, _3517596_37, Nil);
-Obj _3517598_37 = makeCons(co->gc, _3517595_37, _3517597_37);
-Obj _3517599_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517598_37);
-Obj _3517600_37 = makeCons(co->gc, _3517599_37, Nil);
-Obj _3517601_37 = makeCons(co->gc, closureRef(R[0], 0), _3517600_37);
-Obj _3517602_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517601_37);
-coraReturn(co, _3517602_37);
+Obj _3517654_37= co->res;
+Obj _3517653_37 = R[1];
+Obj _3517655_37 = makeCons(co->gc, _3517654_37, Nil);
+Obj _3517656_37 = makeCons(co->gc, _3517653_37, _3517655_37);
+Obj _3517657_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517656_37);
+Obj _3517658_37 = makeCons(co->gc, _3517657_37, Nil);
+Obj _3517659_37 = makeCons(co->gc, closureRef(R[0], 0), _3517658_37);
+Obj _3517660_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517659_37);
+coraReturn(co, _3517660_37);
 return;
 }
 }
@@ -5718,32 +5780,32 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516693_37 = R[1];
-Obj _3516694_37 = R[2];
-Obj _3516787_37 = makeNative(co->gc, 2, clofun54, 1, 2, _3516693_37, _3516694_37);
-Obj _3517586_37 = primIsSymbol(_3516693_37);
-if (True == _3517586_37) {
+Obj _3516751_37 = R[1];
+Obj _3516752_37 = R[2];
+Obj _3516845_37 = makeNative(co->gc, 2, clofun54, 1, 2, _3516751_37, _3516752_37);
+Obj _3517644_37 = primIsSymbol(_3516751_37);
+if (True == _3517644_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516787_37, True);
+coraCall1(co, _3516845_37, True);
 return;
 } else {
-R[1] = _3516787_37;
+R[1] = _3516845_37;
 saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516693_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516751_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517587_37= co->res;
-Obj _3516787_37 = R[1];
-if (True == _3517587_37) {
+Obj _3517645_37= co->res;
+Obj _3516845_37 = R[1];
+if (True == _3517645_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516787_37, True);
+coraCall1(co, _3516845_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516787_37, False);
+coraCall1(co, _3516845_37, False);
 return;
 }
 }
@@ -5754,8 +5816,8 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516788_37 = R[1];
-if (True == _3516788_37) {
+Obj _3516846_37 = R[1];
+if (True == _3516846_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5767,78 +5829,78 @@ return;
 }
 case 1:
 {
-Obj _3517452_37= co->res;
-if (True == _3517452_37) {
+Obj _3517510_37= co->res;
+if (True == _3517510_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516697_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517554_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517554_37) {
-Obj _3517555_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517556_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517555_37);
-if (True == _3517556_37) {
-Obj _3517557_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517558_37 = PRIM_ISCONS(_3517557_37);
-if (True == _3517558_37) {
-Obj _3517559_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517560_37 = PRIM_CAR(_3517559_37);
-Obj a = _3517560_37;
-Obj _3517561_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517562_37 = PRIM_CDR(_3517561_37);
-Obj _3517563_37 = PRIM_ISCONS(_3517562_37);
-if (True == _3517563_37) {
-Obj _3517564_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517565_37 = PRIM_CDR(_3517564_37);
-Obj _3517566_37 = PRIM_CAR(_3517565_37);
-Obj b = _3517566_37;
-Obj _3517567_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517568_37 = PRIM_CDR(_3517567_37);
-Obj _3517569_37 = PRIM_CDR(_3517568_37);
-Obj _3517570_37 = PRIM_ISCONS(_3517569_37);
-if (True == _3517570_37) {
-Obj _3517571_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517572_37 = PRIM_CDR(_3517571_37);
-Obj _3517573_37 = PRIM_CDR(_3517572_37);
-Obj _3517574_37 = PRIM_CAR(_3517573_37);
-Obj c = _3517574_37;
-Obj _3517575_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517576_37 = PRIM_CDR(_3517575_37);
-Obj _3517577_37 = PRIM_CDR(_3517576_37);
-Obj _3517578_37 = PRIM_CDR(_3517577_37);
-Obj _3517579_37 = PRIM_EQ(Nil, _3517578_37);
-if (True == _3517579_37) {
+Obj _3516755_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517612_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517612_37) {
+Obj _3517613_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517614_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517613_37);
+if (True == _3517614_37) {
+Obj _3517615_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517616_37 = PRIM_ISCONS(_3517615_37);
+if (True == _3517616_37) {
+Obj _3517617_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517618_37 = PRIM_CAR(_3517617_37);
+Obj a = _3517618_37;
+Obj _3517619_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517620_37 = PRIM_CDR(_3517619_37);
+Obj _3517621_37 = PRIM_ISCONS(_3517620_37);
+if (True == _3517621_37) {
+Obj _3517622_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517623_37 = PRIM_CDR(_3517622_37);
+Obj _3517624_37 = PRIM_CAR(_3517623_37);
+Obj b = _3517624_37;
+Obj _3517625_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517626_37 = PRIM_CDR(_3517625_37);
+Obj _3517627_37 = PRIM_CDR(_3517626_37);
+Obj _3517628_37 = PRIM_ISCONS(_3517627_37);
+if (True == _3517628_37) {
+Obj _3517629_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517630_37 = PRIM_CDR(_3517629_37);
+Obj _3517631_37 = PRIM_CDR(_3517630_37);
+Obj _3517632_37 = PRIM_CAR(_3517631_37);
+Obj c = _3517632_37;
+Obj _3517633_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517634_37 = PRIM_CDR(_3517633_37);
+Obj _3517635_37 = PRIM_CDR(_3517634_37);
+Obj _3517636_37 = PRIM_CDR(_3517635_37);
+Obj _3517637_37 = PRIM_EQ(Nil, _3517636_37);
+if (True == _3517637_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun53, 1, 3, b, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516697_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516697_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516697_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516697_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516697_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516697_37);
+coraCall0(co, _3516755_37);
 return;
 }
 }
@@ -5858,21 +5920,21 @@ return;
 }
 case 1:
 {
-Obj _3517581_37= co->res;
-Obj _3517580_37 = R[1];
+Obj _3517639_37= co->res;
+Obj _3517638_37 = R[1];
 Obj ra = R[2];
-Obj _3517582_37 = makeCons(co->gc, _3517581_37, Nil);
-Obj _3517583_37 = makeCons(co->gc, _3517580_37, _3517582_37);
-Obj _3517584_37 = makeCons(co->gc, ra, _3517583_37);
-Obj _3517585_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517584_37);
-coraReturn(co, _3517585_37);
+Obj _3517640_37 = makeCons(co->gc, _3517639_37, Nil);
+Obj _3517641_37 = makeCons(co->gc, _3517638_37, _3517640_37);
+Obj _3517642_37 = makeCons(co->gc, ra, _3517641_37);
+Obj _3517643_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517642_37);
+coraReturn(co, _3517643_37);
 return;
 }
 case 2:
 {
-Obj _3517580_37= co->res;
+Obj _3517638_37= co->res;
 Obj ra = R[1];
-R[1] = _3517580_37;
+R[1] = _3517638_37;
 R[2] = ra;
 saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
@@ -5885,57 +5947,57 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516698_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517532_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517532_37) {
-Obj _3517533_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517534_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517533_37);
-if (True == _3517534_37) {
-Obj _3517535_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517536_37 = PRIM_ISCONS(_3517535_37);
-if (True == _3517536_37) {
-Obj _3517537_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517538_37 = PRIM_CAR(_3517537_37);
-Obj a = _3517538_37;
-Obj _3517539_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517540_37 = PRIM_CDR(_3517539_37);
-Obj _3517541_37 = PRIM_ISCONS(_3517540_37);
-if (True == _3517541_37) {
-Obj _3517542_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517543_37 = PRIM_CDR(_3517542_37);
-Obj _3517544_37 = PRIM_CAR(_3517543_37);
-Obj b = _3517544_37;
-Obj _3517545_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517546_37 = PRIM_CDR(_3517545_37);
-Obj _3517547_37 = PRIM_CDR(_3517546_37);
-Obj _3517548_37 = PRIM_EQ(Nil, _3517547_37);
-if (True == _3517548_37) {
+Obj _3516756_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517590_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517590_37) {
+Obj _3517591_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517592_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517591_37);
+if (True == _3517592_37) {
+Obj _3517593_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517594_37 = PRIM_ISCONS(_3517593_37);
+if (True == _3517594_37) {
+Obj _3517595_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517596_37 = PRIM_CAR(_3517595_37);
+Obj a = _3517596_37;
+Obj _3517597_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517598_37 = PRIM_CDR(_3517597_37);
+Obj _3517599_37 = PRIM_ISCONS(_3517598_37);
+if (True == _3517599_37) {
+Obj _3517600_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517601_37 = PRIM_CDR(_3517600_37);
+Obj _3517602_37 = PRIM_CAR(_3517601_37);
+Obj b = _3517602_37;
+Obj _3517603_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517604_37 = PRIM_CDR(_3517603_37);
+Obj _3517605_37 = PRIM_CDR(_3517604_37);
+Obj _3517606_37 = PRIM_EQ(Nil, _3517605_37);
+if (True == _3517606_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun51, 1, 2, b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3516756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3516756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3516756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3516756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3516756_37);
 return;
 }
 }
@@ -5947,8 +6009,8 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj ra = R[1];
-Obj _3517549_37 = primIsSymbol(ra);
-if (True == _3517549_37) {
+Obj _3517607_37 = primIsSymbol(ra);
+if (True == _3517607_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -5961,12 +6023,12 @@ return;
 }
 case 1:
 {
-Obj _3517550_37= co->res;
+Obj _3517608_37= co->res;
 Obj ra = R[1];
-Obj _3517551_37 = makeCons(co->gc, _3517550_37, Nil);
-Obj _3517552_37 = makeCons(co->gc, ra, _3517551_37);
-Obj _3517553_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517552_37);
-coraReturn(co, _3517553_37);
+Obj _3517609_37 = makeCons(co->gc, _3517608_37, Nil);
+Obj _3517610_37 = makeCons(co->gc, ra, _3517609_37);
+Obj _3517611_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517610_37);
+coraReturn(co, _3517611_37);
 return;
 }
 }
@@ -5976,73 +6038,73 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516699_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517501_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517501_37) {
-Obj _3517502_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517503_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517502_37);
-if (True == _3517503_37) {
-Obj _3517504_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517505_37 = PRIM_ISCONS(_3517504_37);
-if (True == _3517505_37) {
-Obj _3517506_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517507_37 = PRIM_CAR(_3517506_37);
-Obj a = _3517507_37;
-Obj _3517508_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517509_37 = PRIM_CDR(_3517508_37);
-Obj _3517510_37 = PRIM_ISCONS(_3517509_37);
-if (True == _3517510_37) {
-Obj _3517511_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517512_37 = PRIM_CDR(_3517511_37);
-Obj _3517513_37 = PRIM_CAR(_3517512_37);
-Obj b = _3517513_37;
-Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517515_37 = PRIM_CDR(_3517514_37);
-Obj _3517516_37 = PRIM_CDR(_3517515_37);
-Obj _3517517_37 = PRIM_ISCONS(_3517516_37);
-if (True == _3517517_37) {
-Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517519_37 = PRIM_CDR(_3517518_37);
-Obj _3517520_37 = PRIM_CDR(_3517519_37);
-Obj _3517521_37 = PRIM_CAR(_3517520_37);
-Obj c = _3517521_37;
-Obj _3517522_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517523_37 = PRIM_CDR(_3517522_37);
-Obj _3517524_37 = PRIM_CDR(_3517523_37);
-Obj _3517525_37 = PRIM_CDR(_3517524_37);
-Obj _3517526_37 = PRIM_EQ(Nil, _3517525_37);
-if (True == _3517526_37) {
+Obj _3516757_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517559_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517559_37) {
+Obj _3517560_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517561_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517560_37);
+if (True == _3517561_37) {
+Obj _3517562_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517563_37 = PRIM_ISCONS(_3517562_37);
+if (True == _3517563_37) {
+Obj _3517564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517565_37 = PRIM_CAR(_3517564_37);
+Obj a = _3517565_37;
+Obj _3517566_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517567_37 = PRIM_CDR(_3517566_37);
+Obj _3517568_37 = PRIM_ISCONS(_3517567_37);
+if (True == _3517568_37) {
+Obj _3517569_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517570_37 = PRIM_CDR(_3517569_37);
+Obj _3517571_37 = PRIM_CAR(_3517570_37);
+Obj b = _3517571_37;
+Obj _3517572_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517573_37 = PRIM_CDR(_3517572_37);
+Obj _3517574_37 = PRIM_CDR(_3517573_37);
+Obj _3517575_37 = PRIM_ISCONS(_3517574_37);
+if (True == _3517575_37) {
+Obj _3517576_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517577_37 = PRIM_CDR(_3517576_37);
+Obj _3517578_37 = PRIM_CDR(_3517577_37);
+Obj _3517579_37 = PRIM_CAR(_3517578_37);
+Obj c = _3517579_37;
+Obj _3517580_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517581_37 = PRIM_CDR(_3517580_37);
+Obj _3517582_37 = PRIM_CDR(_3517581_37);
+Obj _3517583_37 = PRIM_CDR(_3517582_37);
+Obj _3517584_37 = PRIM_EQ(Nil, _3517583_37);
+if (True == _3517584_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun49, 1, 3, a, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3516757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3516757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3516757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3516757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3516757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3516757_37);
 return;
 }
 }
@@ -6061,13 +6123,13 @@ return;
 }
 case 1:
 {
-Obj _3517527_37= co->res;
+Obj _3517585_37= co->res;
 Obj rb = R[1];
-Obj _3517528_37 = makeCons(co->gc, _3517527_37, Nil);
-Obj _3517529_37 = makeCons(co->gc, rb, _3517528_37);
-Obj _3517530_37 = makeCons(co->gc, closureRef(R[0], 0), _3517529_37);
-Obj _3517531_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517530_37);
-coraReturn(co, _3517531_37);
+Obj _3517586_37 = makeCons(co->gc, _3517585_37, Nil);
+Obj _3517587_37 = makeCons(co->gc, rb, _3517586_37);
+Obj _3517588_37 = makeCons(co->gc, closureRef(R[0], 0), _3517587_37);
+Obj _3517589_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517588_37);
+coraReturn(co, _3517589_37);
 return;
 }
 }
@@ -6077,56 +6139,56 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516700_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517457_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517457_37) {
-Obj _3517458_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517459_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517458_37);
-if (True == _3517459_37) {
-Obj _3517460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517461_37 = PRIM_ISCONS(_3517460_37);
-if (True == _3517461_37) {
-Obj _3517462_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517463_37 = PRIM_CAR(_3517462_37);
-Obj _3517464_37 = PRIM_ISCONS(_3517463_37);
-if (True == _3517464_37) {
-Obj _3517465_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517466_37 = PRIM_CAR(_3517465_37);
-Obj _3517467_37 = PRIM_CAR(_3517466_37);
-Obj _3517468_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517467_37);
-if (True == _3517468_37) {
-Obj _3517469_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517470_37 = PRIM_CAR(_3517469_37);
-Obj _3517471_37 = PRIM_CDR(_3517470_37);
-Obj _3517472_37 = PRIM_ISCONS(_3517471_37);
-if (True == _3517472_37) {
-Obj _3517473_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517474_37 = PRIM_CAR(_3517473_37);
-Obj _3517475_37 = PRIM_CDR(_3517474_37);
-Obj _3517476_37 = PRIM_CAR(_3517475_37);
-Obj args = _3517476_37;
-Obj _3517477_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517478_37 = PRIM_CAR(_3517477_37);
-Obj _3517479_37 = PRIM_CDR(_3517478_37);
-Obj _3517480_37 = PRIM_CDR(_3517479_37);
-Obj _3517481_37 = PRIM_ISCONS(_3517480_37);
-if (True == _3517481_37) {
-Obj _3517482_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517483_37 = PRIM_CAR(_3517482_37);
-Obj _3517484_37 = PRIM_CDR(_3517483_37);
-Obj _3517485_37 = PRIM_CDR(_3517484_37);
-Obj _3517486_37 = PRIM_CAR(_3517485_37);
-Obj body = _3517486_37;
-Obj _3517487_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517488_37 = PRIM_CAR(_3517487_37);
-Obj _3517489_37 = PRIM_CDR(_3517488_37);
-Obj _3517490_37 = PRIM_CDR(_3517489_37);
-Obj _3517491_37 = PRIM_CDR(_3517490_37);
-Obj _3517492_37 = PRIM_EQ(Nil, _3517491_37);
-if (True == _3517492_37) {
-Obj _3517493_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517494_37 = PRIM_CDR(_3517493_37);
-Obj frees = _3517494_37;
+Obj _3516758_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517515_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517515_37) {
+Obj _3517516_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517517_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517516_37);
+if (True == _3517517_37) {
+Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517519_37 = PRIM_ISCONS(_3517518_37);
+if (True == _3517519_37) {
+Obj _3517520_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517521_37 = PRIM_CAR(_3517520_37);
+Obj _3517522_37 = PRIM_ISCONS(_3517521_37);
+if (True == _3517522_37) {
+Obj _3517523_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517524_37 = PRIM_CAR(_3517523_37);
+Obj _3517525_37 = PRIM_CAR(_3517524_37);
+Obj _3517526_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517525_37);
+if (True == _3517526_37) {
+Obj _3517527_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517528_37 = PRIM_CAR(_3517527_37);
+Obj _3517529_37 = PRIM_CDR(_3517528_37);
+Obj _3517530_37 = PRIM_ISCONS(_3517529_37);
+if (True == _3517530_37) {
+Obj _3517531_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517532_37 = PRIM_CAR(_3517531_37);
+Obj _3517533_37 = PRIM_CDR(_3517532_37);
+Obj _3517534_37 = PRIM_CAR(_3517533_37);
+Obj args = _3517534_37;
+Obj _3517535_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517536_37 = PRIM_CAR(_3517535_37);
+Obj _3517537_37 = PRIM_CDR(_3517536_37);
+Obj _3517538_37 = PRIM_CDR(_3517537_37);
+Obj _3517539_37 = PRIM_ISCONS(_3517538_37);
+if (True == _3517539_37) {
+Obj _3517540_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517541_37 = PRIM_CAR(_3517540_37);
+Obj _3517542_37 = PRIM_CDR(_3517541_37);
+Obj _3517543_37 = PRIM_CDR(_3517542_37);
+Obj _3517544_37 = PRIM_CAR(_3517543_37);
+Obj body = _3517544_37;
+Obj _3517545_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517546_37 = PRIM_CAR(_3517545_37);
+Obj _3517547_37 = PRIM_CDR(_3517546_37);
+Obj _3517548_37 = PRIM_CDR(_3517547_37);
+Obj _3517549_37 = PRIM_CDR(_3517548_37);
+Obj _3517550_37 = PRIM_EQ(Nil, _3517549_37);
+if (True == _3517550_37) {
+Obj _3517551_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517552_37 = PRIM_CDR(_3517551_37);
+Obj frees = _3517552_37;
 R[1] = args;
 R[2] = frees;
 saveCont(co, clofun48, 1, R);
@@ -6134,57 +6196,57 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), body, globalRef(co,
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516758_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517495_37= co->res;
+Obj _3517553_37= co->res;
 Obj args = R[1];
 Obj frees = R[2];
-Obj _3517496_37 = makeCons(co->gc, _3517495_37, Nil);
-Obj _3517497_37 = makeCons(co->gc, args, _3517496_37);
-Obj _3517498_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517497_37);
-Obj _3517499_37 = makeCons(co->gc, _3517498_37, frees);
-Obj _3517500_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517499_37);
+Obj _3517554_37 = makeCons(co->gc, _3517553_37, Nil);
+Obj _3517555_37 = makeCons(co->gc, args, _3517554_37);
+Obj _3517556_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517555_37);
+Obj _3517557_37 = makeCons(co->gc, _3517556_37, frees);
+Obj _3517558_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517557_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517500_37);
+coraCall1(co, closureRef(R[0], 1), _3517558_37);
 return;
 }
 }
@@ -6194,15 +6256,15 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517453_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517453_37) {
-Obj _3517454_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517454_37;
-Obj _3517455_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517455_37;
-Obj _3517456_37 = makeCons(co->gc, f, args);
+Obj _3517511_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517511_37) {
+Obj _3517512_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517512_37;
+Obj _3517513_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517513_37;
+Obj _3517514_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517456_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517514_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6218,9 +6280,9 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517449_37 = makeCons(co->gc, x, Nil);
-Obj _3517450_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517449_37);
-coraReturn(co, _3517450_37);
+Obj _3517507_37 = makeCons(co->gc, x, Nil);
+Obj _3517508_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517507_37);
+coraReturn(co, _3517508_37);
 return;
 }
 }
@@ -6230,73 +6292,73 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516686_37 = R[1];
-Obj _3516687_37 = R[2];
-R[1] = _3516687_37;
-R[2] = _3516686_37;
+Obj _3516744_37 = R[1];
+Obj _3516745_37 = R[2];
+R[1] = _3516745_37;
+R[2] = _3516744_37;
 saveCont(co, clofun45, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516687_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516745_37);
 return;
 }
 case 1:
 {
-Obj _3517376_37= co->res;
-Obj _3516687_37 = R[1];
-Obj pos = _3517376_37;
-Obj _3517377_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517377_37) {
-coraReturn(co, _3516687_37);
+Obj _3517434_37= co->res;
+Obj _3516745_37 = R[1];
+Obj pos = _3517434_37;
+Obj _3517435_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
+if (True == _3517435_37) {
+coraReturn(co, _3516745_37);
 return;
 } else {
-Obj _3517378_37 = makeCons(co->gc, pos, Nil);
-Obj _3517379_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517378_37);
-coraReturn(co, _3517379_37);
+Obj _3517436_37 = makeCons(co->gc, pos, Nil);
+Obj _3517437_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517436_37);
+coraReturn(co, _3517437_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517445_37= co->res;
-Obj _3517443_37 = R[1];
-Obj _3517446_37 = makeCons(co->gc, _3517443_37, _3517445_37);
-Obj _3517447_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517446_37);
-coraReturn(co, _3517447_37);
+Obj _3517503_37= co->res;
+Obj _3517501_37 = R[1];
+Obj _3517504_37 = makeCons(co->gc, _3517501_37, _3517503_37);
+Obj _3517505_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517504_37);
+coraReturn(co, _3517505_37);
 return;
 }
 case 3:
 {
-Obj _3517444_37= co->res;
+Obj _3517502_37= co->res;
 Obj fvs1 = R[1];
-Obj _3517443_37 = R[2];
-R[1] = _3517443_37;
+Obj _3517501_37 = R[2];
+R[1] = _3517501_37;
 saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517444_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517502_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517440_37= co->res;
+Obj _3517498_37= co->res;
 Obj args = R[1];
-Obj _3516686_37 = R[2];
+Obj _3516744_37 = R[2];
 Obj fvs1 = R[3];
-Obj _3517441_37 = makeCons(co->gc, _3517440_37, Nil);
-Obj _3517442_37 = makeCons(co->gc, args, _3517441_37);
-Obj _3517443_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517442_37);
+Obj _3517499_37 = makeCons(co->gc, _3517498_37, Nil);
+Obj _3517500_37 = makeCons(co->gc, args, _3517499_37);
+Obj _3517501_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517500_37);
 R[1] = fvs1;
-R[2] = _3517443_37;
+R[2] = _3517501_37;
 saveCont(co, clofun45, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516686_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516744_37);
 return;
 }
 case 5:
 {
-Obj _3517439_37= co->res;
+Obj _3517497_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3516686_37 = R[3];
-Obj fvs1 = _3517439_37;
+Obj _3516744_37 = R[3];
+Obj fvs1 = _3517497_37;
 R[1] = args;
-R[2] = _3516686_37;
+R[2] = _3516744_37;
 R[3] = fvs1;
 saveCont(co, clofun45, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), fvs1, body);
@@ -6304,77 +6366,77 @@ return;
 }
 case 6:
 {
-Obj _3517374_37= co->res;
-Obj _3516687_37 = R[1];
-Obj _3516686_37 = R[2];
-if (True == _3517374_37) {
-coraReturn(co, _3516687_37);
+Obj _3517432_37= co->res;
+Obj _3516745_37 = R[1];
+Obj _3516744_37 = R[2];
+if (True == _3517432_37) {
+coraReturn(co, _3516745_37);
 return;
 } else {
-Obj _3517375_37 = primIsSymbol(_3516687_37);
-if (True == _3517375_37) {
-R[1] = _3516687_37;
+Obj _3517433_37 = primIsSymbol(_3516745_37);
+if (True == _3517433_37) {
+R[1] = _3516745_37;
 saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516687_37, _3516686_37);
-return;
-} else {
-Obj _3516690_37 = makeNative(co->gc, 4, clofun44, 0, 2, _3516687_37, _3516686_37);
-Obj _3517419_37 = PRIM_ISCONS(_3516687_37);
-if (True == _3517419_37) {
-Obj _3517420_37 = PRIM_CAR(_3516687_37);
-Obj _3517421_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517420_37);
-if (True == _3517421_37) {
-Obj _3517422_37 = PRIM_CDR(_3516687_37);
-Obj _3517423_37 = PRIM_ISCONS(_3517422_37);
-if (True == _3517423_37) {
-Obj _3517424_37 = PRIM_CDR(_3516687_37);
-Obj _3517425_37 = PRIM_CAR(_3517424_37);
-Obj args = _3517425_37;
-Obj _3517426_37 = PRIM_CDR(_3516687_37);
-Obj _3517427_37 = PRIM_CDR(_3517426_37);
-Obj _3517428_37 = PRIM_ISCONS(_3517427_37);
-if (True == _3517428_37) {
-Obj _3517429_37 = PRIM_CDR(_3516687_37);
-Obj _3517430_37 = PRIM_CDR(_3517429_37);
-Obj _3517431_37 = PRIM_CAR(_3517430_37);
-Obj body = _3517431_37;
-Obj _3517432_37 = PRIM_CDR(_3516687_37);
-Obj _3517433_37 = PRIM_CDR(_3517432_37);
-Obj _3517434_37 = PRIM_CDR(_3517433_37);
-Obj _3517435_37 = PRIM_EQ(Nil, _3517434_37);
-if (True == _3517435_37) {
-Obj _3517436_37 = makeCons(co->gc, body, Nil);
-Obj _3517437_37 = makeCons(co->gc, args, _3517436_37);
-Obj _3517438_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517437_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516745_37, _3516744_37);
+return;
+} else {
+Obj _3516748_37 = makeNative(co->gc, 4, clofun44, 0, 2, _3516745_37, _3516744_37);
+Obj _3517477_37 = PRIM_ISCONS(_3516745_37);
+if (True == _3517477_37) {
+Obj _3517478_37 = PRIM_CAR(_3516745_37);
+Obj _3517479_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517478_37);
+if (True == _3517479_37) {
+Obj _3517480_37 = PRIM_CDR(_3516745_37);
+Obj _3517481_37 = PRIM_ISCONS(_3517480_37);
+if (True == _3517481_37) {
+Obj _3517482_37 = PRIM_CDR(_3516745_37);
+Obj _3517483_37 = PRIM_CAR(_3517482_37);
+Obj args = _3517483_37;
+Obj _3517484_37 = PRIM_CDR(_3516745_37);
+Obj _3517485_37 = PRIM_CDR(_3517484_37);
+Obj _3517486_37 = PRIM_ISCONS(_3517485_37);
+if (True == _3517486_37) {
+Obj _3517487_37 = PRIM_CDR(_3516745_37);
+Obj _3517488_37 = PRIM_CDR(_3517487_37);
+Obj _3517489_37 = PRIM_CAR(_3517488_37);
+Obj body = _3517489_37;
+Obj _3517490_37 = PRIM_CDR(_3516745_37);
+Obj _3517491_37 = PRIM_CDR(_3517490_37);
+Obj _3517492_37 = PRIM_CDR(_3517491_37);
+Obj _3517493_37 = PRIM_EQ(Nil, _3517492_37);
+if (True == _3517493_37) {
+Obj _3517494_37 = makeCons(co->gc, body, Nil);
+Obj _3517495_37 = makeCons(co->gc, args, _3517494_37);
+Obj _3517496_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517495_37);
 R[1] = body;
 R[2] = args;
-R[3] = _3516686_37;
+R[3] = _3516744_37;
 saveCont(co, clofun45, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517438_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517496_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516690_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516690_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516690_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516690_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516690_37);
+coraCall0(co, _3516748_37);
 return;
 }
 }
@@ -6387,42 +6449,42 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516691_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517385_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517385_37) {
-Obj _3517386_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517387_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517386_37);
-if (True == _3517387_37) {
-Obj _3517388_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517389_37 = PRIM_ISCONS(_3517388_37);
-if (True == _3517389_37) {
-Obj _3517390_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517391_37 = PRIM_CAR(_3517390_37);
-Obj a = _3517391_37;
-Obj _3517392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517393_37 = PRIM_CDR(_3517392_37);
-Obj _3517394_37 = PRIM_ISCONS(_3517393_37);
-if (True == _3517394_37) {
-Obj _3517395_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517396_37 = PRIM_CDR(_3517395_37);
-Obj _3517397_37 = PRIM_CAR(_3517396_37);
-Obj b = _3517397_37;
-Obj _3517398_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517399_37 = PRIM_CDR(_3517398_37);
-Obj _3517400_37 = PRIM_CDR(_3517399_37);
-Obj _3517401_37 = PRIM_ISCONS(_3517400_37);
-if (True == _3517401_37) {
-Obj _3517402_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517403_37 = PRIM_CDR(_3517402_37);
-Obj _3517404_37 = PRIM_CDR(_3517403_37);
-Obj _3517405_37 = PRIM_CAR(_3517404_37);
-Obj c = _3517405_37;
-Obj _3517406_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517407_37 = PRIM_CDR(_3517406_37);
-Obj _3517408_37 = PRIM_CDR(_3517407_37);
-Obj _3517409_37 = PRIM_CDR(_3517408_37);
-Obj _3517410_37 = PRIM_EQ(Nil, _3517409_37);
-if (True == _3517410_37) {
+Obj _3516749_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517443_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517443_37) {
+Obj _3517444_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517445_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517444_37);
+if (True == _3517445_37) {
+Obj _3517446_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517447_37 = PRIM_ISCONS(_3517446_37);
+if (True == _3517447_37) {
+Obj _3517448_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517449_37 = PRIM_CAR(_3517448_37);
+Obj a = _3517449_37;
+Obj _3517450_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517451_37 = PRIM_CDR(_3517450_37);
+Obj _3517452_37 = PRIM_ISCONS(_3517451_37);
+if (True == _3517452_37) {
+Obj _3517453_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517454_37 = PRIM_CDR(_3517453_37);
+Obj _3517455_37 = PRIM_CAR(_3517454_37);
+Obj b = _3517455_37;
+Obj _3517456_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517457_37 = PRIM_CDR(_3517456_37);
+Obj _3517458_37 = PRIM_CDR(_3517457_37);
+Obj _3517459_37 = PRIM_ISCONS(_3517458_37);
+if (True == _3517459_37) {
+Obj _3517460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517461_37 = PRIM_CDR(_3517460_37);
+Obj _3517462_37 = PRIM_CDR(_3517461_37);
+Obj _3517463_37 = PRIM_CAR(_3517462_37);
+Obj c = _3517463_37;
+Obj _3517464_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517465_37 = PRIM_CDR(_3517464_37);
+Obj _3517466_37 = PRIM_CDR(_3517465_37);
+Obj _3517467_37 = PRIM_CDR(_3517466_37);
+Obj _3517468_37 = PRIM_EQ(Nil, _3517467_37);
+if (True == _3517468_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun44, 3, R);
@@ -6430,66 +6492,66 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3516749_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517414_37= co->res;
-Obj _3517411_37 = R[1];
+Obj _3517472_37= co->res;
+Obj _3517469_37 = R[1];
 Obj a = R[2];
-Obj _3517415_37 = makeCons(co->gc, _3517414_37, Nil);
-Obj _3517416_37 = makeCons(co->gc, _3517411_37, _3517415_37);
-Obj _3517417_37 = makeCons(co->gc, a, _3517416_37);
-Obj _3517418_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517417_37);
-coraReturn(co, _3517418_37);
+Obj _3517473_37 = makeCons(co->gc, _3517472_37, Nil);
+Obj _3517474_37 = makeCons(co->gc, _3517469_37, _3517473_37);
+Obj _3517475_37 = makeCons(co->gc, a, _3517474_37);
+Obj _3517476_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517475_37);
+coraReturn(co, _3517476_37);
 return;
 }
 case 2:
 {
-Obj _3517413_37= co->res;
+Obj _3517471_37= co->res;
 Obj c = R[1];
-Obj _3517411_37 = R[2];
+Obj _3517469_37 = R[2];
 Obj a = R[3];
-R[1] = _3517411_37;
+R[1] = _3517469_37;
 R[2] = a;
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), _3517413_37, c);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), _3517471_37, c);
 return;
 }
 case 3:
 {
-Obj _3517411_37= co->res;
+Obj _3517469_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
 R[1] = c;
-R[2] = _3517411_37;
+R[2] = _3517469_37;
 R[3] = a;
 saveCont(co, clofun44, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), makeNative(co->gc, 2, clofun43, 1, 1, a), closureRef(R[0], 1));
@@ -6503,8 +6565,8 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517412_37 = PRIM_EQ(x, closureRef(R[0], 0));
-if (True == _3517412_37) {
+Obj _3517470_37 = PRIM_EQ(x, closureRef(R[0], 0));
+if (True == _3517470_37) {
 coraReturn(co, Nil);
 return;
 } else {
@@ -6519,12 +6581,12 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517380_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517380_37) {
-Obj _3517381_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517381_37;
-Obj _3517382_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517382_37;
+Obj _3517438_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517438_37) {
+Obj _3517439_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517439_37;
+Obj _3517440_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517440_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun42, 1, R);
@@ -6538,12 +6600,12 @@ return;
 }
 case 1:
 {
-Obj _3517383_37= co->res;
+Obj _3517441_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517384_37 = makeCons(co->gc, f, args);
+Obj _3517442_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517383_37, _3517384_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517441_37, _3517442_37);
 return;
 }
 }
@@ -6553,86 +6615,86 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516673_37 = R[1];
-R[1] = _3516673_37;
+Obj _3516731_37 = R[1];
+R[1] = _3516731_37;
 saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516673_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516731_37);
 return;
 }
 case 1:
 {
-Obj _3517372_37= co->res;
+Obj _3517430_37= co->res;
 Obj args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517372_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517430_37, args);
 return;
 }
 case 2:
 {
-Obj _3517199_37= co->res;
-Obj _3516673_37 = R[1];
-if (True == _3517199_37) {
+Obj _3517257_37= co->res;
+Obj _3516731_37 = R[1];
+if (True == _3517257_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517200_37 = primIsSymbol(_3516673_37);
-if (True == _3517200_37) {
-Obj _3517201_37 = makeCons(co->gc, _3516673_37, Nil);
-coraReturn(co, _3517201_37);
-return;
-} else {
-Obj _3516676_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516673_37);
-Obj _3517355_37 = PRIM_ISCONS(_3516673_37);
-if (True == _3517355_37) {
-Obj _3517356_37 = PRIM_CAR(_3516673_37);
-Obj _3517357_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517356_37);
-if (True == _3517357_37) {
-Obj _3517358_37 = PRIM_CDR(_3516673_37);
-Obj _3517359_37 = PRIM_ISCONS(_3517358_37);
-if (True == _3517359_37) {
-Obj _3517360_37 = PRIM_CDR(_3516673_37);
-Obj _3517361_37 = PRIM_CAR(_3517360_37);
-Obj args = _3517361_37;
-Obj _3517362_37 = PRIM_CDR(_3516673_37);
-Obj _3517363_37 = PRIM_CDR(_3517362_37);
-Obj _3517364_37 = PRIM_ISCONS(_3517363_37);
-if (True == _3517364_37) {
-Obj _3517365_37 = PRIM_CDR(_3516673_37);
-Obj _3517366_37 = PRIM_CDR(_3517365_37);
-Obj _3517367_37 = PRIM_CAR(_3517366_37);
-Obj body = _3517367_37;
-Obj _3517368_37 = PRIM_CDR(_3516673_37);
-Obj _3517369_37 = PRIM_CDR(_3517368_37);
-Obj _3517370_37 = PRIM_CDR(_3517369_37);
-Obj _3517371_37 = PRIM_EQ(Nil, _3517370_37);
-if (True == _3517371_37) {
+Obj _3517258_37 = primIsSymbol(_3516731_37);
+if (True == _3517258_37) {
+Obj _3517259_37 = makeCons(co->gc, _3516731_37, Nil);
+coraReturn(co, _3517259_37);
+return;
+} else {
+Obj _3516734_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516731_37);
+Obj _3517413_37 = PRIM_ISCONS(_3516731_37);
+if (True == _3517413_37) {
+Obj _3517414_37 = PRIM_CAR(_3516731_37);
+Obj _3517415_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517414_37);
+if (True == _3517415_37) {
+Obj _3517416_37 = PRIM_CDR(_3516731_37);
+Obj _3517417_37 = PRIM_ISCONS(_3517416_37);
+if (True == _3517417_37) {
+Obj _3517418_37 = PRIM_CDR(_3516731_37);
+Obj _3517419_37 = PRIM_CAR(_3517418_37);
+Obj args = _3517419_37;
+Obj _3517420_37 = PRIM_CDR(_3516731_37);
+Obj _3517421_37 = PRIM_CDR(_3517420_37);
+Obj _3517422_37 = PRIM_ISCONS(_3517421_37);
+if (True == _3517422_37) {
+Obj _3517423_37 = PRIM_CDR(_3516731_37);
+Obj _3517424_37 = PRIM_CDR(_3517423_37);
+Obj _3517425_37 = PRIM_CAR(_3517424_37);
+Obj body = _3517425_37;
+Obj _3517426_37 = PRIM_CDR(_3516731_37);
+Obj _3517427_37 = PRIM_CDR(_3517426_37);
+Obj _3517428_37 = PRIM_CDR(_3517427_37);
+Obj _3517429_37 = PRIM_EQ(Nil, _3517428_37);
+if (True == _3517429_37) {
 R[1] = args;
 saveCont(co, clofun41, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3516734_37);
 return;
 }
 }
@@ -6645,84 +6707,84 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516677_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517325_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517325_37) {
-Obj _3517326_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517327_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517326_37);
-if (True == _3517327_37) {
-Obj _3517328_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517329_37 = PRIM_ISCONS(_3517328_37);
-if (True == _3517329_37) {
-Obj _3517330_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517331_37 = PRIM_CAR(_3517330_37);
-Obj x = _3517331_37;
-Obj _3517332_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517333_37 = PRIM_CDR(_3517332_37);
-Obj _3517334_37 = PRIM_ISCONS(_3517333_37);
-if (True == _3517334_37) {
-Obj _3517335_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517336_37 = PRIM_CDR(_3517335_37);
-Obj _3517337_37 = PRIM_CAR(_3517336_37);
-Obj y = _3517337_37;
-Obj _3517338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517339_37 = PRIM_CDR(_3517338_37);
-Obj _3517340_37 = PRIM_CDR(_3517339_37);
-Obj _3517341_37 = PRIM_ISCONS(_3517340_37);
-if (True == _3517341_37) {
-Obj _3517342_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517343_37 = PRIM_CDR(_3517342_37);
-Obj _3517344_37 = PRIM_CDR(_3517343_37);
-Obj _3517345_37 = PRIM_CAR(_3517344_37);
-Obj z = _3517345_37;
-Obj _3517346_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517347_37 = PRIM_CDR(_3517346_37);
-Obj _3517348_37 = PRIM_CDR(_3517347_37);
-Obj _3517349_37 = PRIM_CDR(_3517348_37);
-Obj _3517350_37 = PRIM_EQ(Nil, _3517349_37);
-if (True == _3517350_37) {
-Obj _3517351_37 = makeCons(co->gc, z, Nil);
-Obj _3517352_37 = makeCons(co->gc, y, _3517351_37);
-Obj _3517353_37 = makeCons(co->gc, x, _3517352_37);
+Obj _3516735_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj _3517383_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517383_37) {
+Obj _3517384_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517385_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517384_37);
+if (True == _3517385_37) {
+Obj _3517386_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517387_37 = PRIM_ISCONS(_3517386_37);
+if (True == _3517387_37) {
+Obj _3517388_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517389_37 = PRIM_CAR(_3517388_37);
+Obj x = _3517389_37;
+Obj _3517390_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517391_37 = PRIM_CDR(_3517390_37);
+Obj _3517392_37 = PRIM_ISCONS(_3517391_37);
+if (True == _3517392_37) {
+Obj _3517393_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517394_37 = PRIM_CDR(_3517393_37);
+Obj _3517395_37 = PRIM_CAR(_3517394_37);
+Obj y = _3517395_37;
+Obj _3517396_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517397_37 = PRIM_CDR(_3517396_37);
+Obj _3517398_37 = PRIM_CDR(_3517397_37);
+Obj _3517399_37 = PRIM_ISCONS(_3517398_37);
+if (True == _3517399_37) {
+Obj _3517400_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517401_37 = PRIM_CDR(_3517400_37);
+Obj _3517402_37 = PRIM_CDR(_3517401_37);
+Obj _3517403_37 = PRIM_CAR(_3517402_37);
+Obj z = _3517403_37;
+Obj _3517404_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517405_37 = PRIM_CDR(_3517404_37);
+Obj _3517406_37 = PRIM_CDR(_3517405_37);
+Obj _3517407_37 = PRIM_CDR(_3517406_37);
+Obj _3517408_37 = PRIM_EQ(Nil, _3517407_37);
+if (True == _3517408_37) {
+Obj _3517409_37 = makeCons(co->gc, z, Nil);
+Obj _3517410_37 = makeCons(co->gc, y, _3517409_37);
+Obj _3517411_37 = makeCons(co->gc, x, _3517410_37);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517353_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517411_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3516735_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517354_37= co->res;
+Obj _3517412_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517354_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517412_37);
 return;
 }
 }
@@ -6732,67 +6794,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516678_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517305_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517305_37) {
-Obj _3517306_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517307_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517306_37);
-if (True == _3517307_37) {
-Obj _3517308_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517309_37 = PRIM_ISCONS(_3517308_37);
-if (True == _3517309_37) {
-Obj _3517310_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517311_37 = PRIM_CAR(_3517310_37);
-Obj x = _3517311_37;
-Obj _3517312_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517313_37 = PRIM_CDR(_3517312_37);
-Obj _3517314_37 = PRIM_ISCONS(_3517313_37);
-if (True == _3517314_37) {
-Obj _3517315_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517316_37 = PRIM_CDR(_3517315_37);
-Obj _3517317_37 = PRIM_CAR(_3517316_37);
-Obj y = _3517317_37;
-Obj _3517318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517319_37 = PRIM_CDR(_3517318_37);
-Obj _3517320_37 = PRIM_CDR(_3517319_37);
-Obj _3517321_37 = PRIM_EQ(Nil, _3517320_37);
-if (True == _3517321_37) {
-Obj _3517322_37 = makeCons(co->gc, y, Nil);
-Obj _3517323_37 = makeCons(co->gc, x, _3517322_37);
+Obj _3516736_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
+Obj _3517363_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517363_37) {
+Obj _3517364_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517365_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517364_37);
+if (True == _3517365_37) {
+Obj _3517366_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517367_37 = PRIM_ISCONS(_3517366_37);
+if (True == _3517367_37) {
+Obj _3517368_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517369_37 = PRIM_CAR(_3517368_37);
+Obj x = _3517369_37;
+Obj _3517370_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517371_37 = PRIM_CDR(_3517370_37);
+Obj _3517372_37 = PRIM_ISCONS(_3517371_37);
+if (True == _3517372_37) {
+Obj _3517373_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517374_37 = PRIM_CDR(_3517373_37);
+Obj _3517375_37 = PRIM_CAR(_3517374_37);
+Obj y = _3517375_37;
+Obj _3517376_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517377_37 = PRIM_CDR(_3517376_37);
+Obj _3517378_37 = PRIM_CDR(_3517377_37);
+Obj _3517379_37 = PRIM_EQ(Nil, _3517378_37);
+if (True == _3517379_37) {
+Obj _3517380_37 = makeCons(co->gc, y, Nil);
+Obj _3517381_37 = makeCons(co->gc, x, _3517380_37);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517323_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517381_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516736_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517324_37= co->res;
+Obj _3517382_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517324_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517382_37);
 return;
 }
 }
@@ -6802,42 +6864,42 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516679_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517275_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517275_37) {
-Obj _3517276_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517277_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517276_37);
-if (True == _3517277_37) {
-Obj _3517278_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517279_37 = PRIM_ISCONS(_3517278_37);
-if (True == _3517279_37) {
-Obj _3517280_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517281_37 = PRIM_CAR(_3517280_37);
-Obj a = _3517281_37;
-Obj _3517282_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517283_37 = PRIM_CDR(_3517282_37);
-Obj _3517284_37 = PRIM_ISCONS(_3517283_37);
-if (True == _3517284_37) {
-Obj _3517285_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517286_37 = PRIM_CDR(_3517285_37);
-Obj _3517287_37 = PRIM_CAR(_3517286_37);
-Obj b = _3517287_37;
-Obj _3517288_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517289_37 = PRIM_CDR(_3517288_37);
-Obj _3517290_37 = PRIM_CDR(_3517289_37);
-Obj _3517291_37 = PRIM_ISCONS(_3517290_37);
-if (True == _3517291_37) {
-Obj _3517292_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517293_37 = PRIM_CDR(_3517292_37);
-Obj _3517294_37 = PRIM_CDR(_3517293_37);
-Obj _3517295_37 = PRIM_CAR(_3517294_37);
-Obj c = _3517295_37;
-Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517297_37 = PRIM_CDR(_3517296_37);
-Obj _3517298_37 = PRIM_CDR(_3517297_37);
-Obj _3517299_37 = PRIM_CDR(_3517298_37);
-Obj _3517300_37 = PRIM_EQ(Nil, _3517299_37);
-if (True == _3517300_37) {
+Obj _3516737_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj _3517333_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517333_37) {
+Obj _3517334_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517335_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517334_37);
+if (True == _3517335_37) {
+Obj _3517336_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517337_37 = PRIM_ISCONS(_3517336_37);
+if (True == _3517337_37) {
+Obj _3517338_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517339_37 = PRIM_CAR(_3517338_37);
+Obj a = _3517339_37;
+Obj _3517340_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517341_37 = PRIM_CDR(_3517340_37);
+Obj _3517342_37 = PRIM_ISCONS(_3517341_37);
+if (True == _3517342_37) {
+Obj _3517343_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517344_37 = PRIM_CDR(_3517343_37);
+Obj _3517345_37 = PRIM_CAR(_3517344_37);
+Obj b = _3517345_37;
+Obj _3517346_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517347_37 = PRIM_CDR(_3517346_37);
+Obj _3517348_37 = PRIM_CDR(_3517347_37);
+Obj _3517349_37 = PRIM_ISCONS(_3517348_37);
+if (True == _3517349_37) {
+Obj _3517350_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517351_37 = PRIM_CDR(_3517350_37);
+Obj _3517352_37 = PRIM_CDR(_3517351_37);
+Obj _3517353_37 = PRIM_CAR(_3517352_37);
+Obj c = _3517353_37;
+Obj _3517354_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517355_37 = PRIM_CDR(_3517354_37);
+Obj _3517356_37 = PRIM_CDR(_3517355_37);
+Obj _3517357_37 = PRIM_CDR(_3517356_37);
+Obj _3517358_37 = PRIM_EQ(Nil, _3517357_37);
+if (True == _3517358_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun38, 3, R);
@@ -6845,61 +6907,61 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516737_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517304_37= co->res;
-Obj _3517301_37 = R[1];
+Obj _3517362_37= co->res;
+Obj _3517359_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517301_37, _3517304_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517359_37, _3517362_37);
 return;
 }
 case 2:
 {
-Obj _3517302_37= co->res;
+Obj _3517360_37= co->res;
 Obj a = R[1];
-Obj _3517301_37 = R[2];
-Obj _3517303_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517301_37;
+Obj _3517359_37 = R[2];
+Obj _3517361_37 = makeCons(co->gc, a, Nil);
+R[1] = _3517359_37;
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517302_37, _3517303_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517360_37, _3517361_37);
 return;
 }
 case 3:
 {
-Obj _3517301_37= co->res;
+Obj _3517359_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
 R[1] = a;
-R[2] = _3517301_37;
+R[2] = _3517359_37;
 saveCont(co, clofun38, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), c);
 return;
@@ -6911,38 +6973,38 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516680_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517265_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517265_37) {
-Obj _3517266_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517267_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517266_37);
-if (True == _3517267_37) {
-Obj _3517268_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517269_37 = PRIM_ISCONS(_3517268_37);
-if (True == _3517269_37) {
-Obj _3517270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517271_37 = PRIM_CAR(_3517270_37);
-Obj lam = _3517271_37;
-Obj _3517272_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517273_37 = PRIM_CDR(_3517272_37);
-Obj more = _3517273_37;
-Obj _3517274_37 = makeCons(co->gc, lam, more);
+Obj _3516738_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj _3517323_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517323_37) {
+Obj _3517324_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517325_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517324_37);
+if (True == _3517325_37) {
+Obj _3517326_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517327_37 = PRIM_ISCONS(_3517326_37);
+if (True == _3517327_37) {
+Obj _3517328_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517329_37 = PRIM_CAR(_3517328_37);
+Obj lam = _3517329_37;
+Obj _3517330_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517331_37 = PRIM_CDR(_3517330_37);
+Obj more = _3517331_37;
+Obj _3517332_37 = makeCons(co->gc, lam, more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517274_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517332_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516738_37);
 return;
 }
 }
@@ -6953,43 +7015,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516681_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517255_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517255_37) {
-Obj _3517256_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517257_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517256_37);
-if (True == _3517257_37) {
-Obj _3517258_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517259_37 = PRIM_ISCONS(_3517258_37);
-if (True == _3517259_37) {
-Obj _3517260_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517261_37 = PRIM_CAR(_3517260_37);
-Obj x = _3517261_37;
-Obj _3517262_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517263_37 = PRIM_CDR(_3517262_37);
-Obj _3517264_37 = PRIM_EQ(Nil, _3517263_37);
-if (True == _3517264_37) {
+Obj _3516739_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj _3517313_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517313_37) {
+Obj _3517314_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517315_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517314_37);
+if (True == _3517315_37) {
+Obj _3517316_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517317_37 = PRIM_ISCONS(_3517316_37);
+if (True == _3517317_37) {
+Obj _3517318_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517319_37 = PRIM_CAR(_3517318_37);
+Obj x = _3517319_37;
+Obj _3517320_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517321_37 = PRIM_CDR(_3517320_37);
+Obj _3517322_37 = PRIM_EQ(Nil, _3517321_37);
+if (True == _3517322_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516739_37);
 return;
 }
 }
@@ -7000,67 +7062,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516682_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517235_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517235_37) {
-Obj _3517236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517237_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517236_37);
-if (True == _3517237_37) {
-Obj _3517238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517239_37 = PRIM_ISCONS(_3517238_37);
-if (True == _3517239_37) {
-Obj _3517240_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517241_37 = PRIM_CAR(_3517240_37);
-Obj exp = _3517241_37;
-Obj _3517242_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517243_37 = PRIM_CDR(_3517242_37);
-Obj _3517244_37 = PRIM_ISCONS(_3517243_37);
-if (True == _3517244_37) {
-Obj _3517245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517246_37 = PRIM_CDR(_3517245_37);
-Obj _3517247_37 = PRIM_CAR(_3517246_37);
-Obj cont = _3517247_37;
-Obj _3517248_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517249_37 = PRIM_CDR(_3517248_37);
-Obj _3517250_37 = PRIM_CDR(_3517249_37);
-Obj _3517251_37 = PRIM_EQ(Nil, _3517250_37);
-if (True == _3517251_37) {
-Obj _3517252_37 = makeCons(co->gc, cont, Nil);
-Obj _3517253_37 = makeCons(co->gc, exp, _3517252_37);
+Obj _3516740_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj _3517293_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517293_37) {
+Obj _3517294_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517295_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517294_37);
+if (True == _3517295_37) {
+Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517297_37 = PRIM_ISCONS(_3517296_37);
+if (True == _3517297_37) {
+Obj _3517298_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517299_37 = PRIM_CAR(_3517298_37);
+Obj exp = _3517299_37;
+Obj _3517300_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517301_37 = PRIM_CDR(_3517300_37);
+Obj _3517302_37 = PRIM_ISCONS(_3517301_37);
+if (True == _3517302_37) {
+Obj _3517303_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517304_37 = PRIM_CDR(_3517303_37);
+Obj _3517305_37 = PRIM_CAR(_3517304_37);
+Obj cont = _3517305_37;
+Obj _3517306_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517307_37 = PRIM_CDR(_3517306_37);
+Obj _3517308_37 = PRIM_CDR(_3517307_37);
+Obj _3517309_37 = PRIM_EQ(Nil, _3517308_37);
+if (True == _3517309_37) {
+Obj _3517310_37 = makeCons(co->gc, cont, Nil);
+Obj _3517311_37 = makeCons(co->gc, exp, _3517310_37);
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517253_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517311_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516682_37);
+coraCall0(co, _3516740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516682_37);
+coraCall0(co, _3516740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516682_37);
+coraCall0(co, _3516740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516682_37);
+coraCall0(co, _3516740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516682_37);
+coraCall0(co, _3516740_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517254_37= co->res;
+Obj _3517312_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517254_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517312_37);
 return;
 }
 }
@@ -7070,43 +7132,43 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516683_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517225_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517225_37) {
-Obj _3517226_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517227_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517226_37);
-if (True == _3517227_37) {
-Obj _3517228_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517229_37 = PRIM_ISCONS(_3517228_37);
-if (True == _3517229_37) {
-Obj _3517230_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517231_37 = PRIM_CAR(_3517230_37);
-Obj exp = _3517231_37;
-Obj _3517232_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517233_37 = PRIM_CDR(_3517232_37);
-Obj _3517234_37 = PRIM_EQ(Nil, _3517233_37);
-if (True == _3517234_37) {
+Obj _3516741_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
+Obj _3517283_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517283_37) {
+Obj _3517284_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517285_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517284_37);
+if (True == _3517285_37) {
+Obj _3517286_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517287_37 = PRIM_ISCONS(_3517286_37);
+if (True == _3517287_37) {
+Obj _3517288_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517289_37 = PRIM_CAR(_3517288_37);
+Obj exp = _3517289_37;
+Obj _3517290_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517291_37 = PRIM_CDR(_3517290_37);
+Obj _3517292_37 = PRIM_EQ(Nil, _3517291_37);
+if (True == _3517292_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516683_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516683_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516683_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516683_37);
+coraCall0(co, _3516741_37);
 return;
 }
 }
@@ -7117,67 +7179,67 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516684_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517207_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517207_37) {
-Obj _3517208_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517209_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517208_37);
-if (True == _3517209_37) {
-Obj _3517210_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517211_37 = PRIM_ISCONS(_3517210_37);
-if (True == _3517211_37) {
-Obj _3517212_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517213_37 = PRIM_CAR(_3517212_37);
-Obj arg = _3517213_37;
-Obj _3517214_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517215_37 = PRIM_CDR(_3517214_37);
-Obj _3517216_37 = PRIM_ISCONS(_3517215_37);
-if (True == _3517216_37) {
-Obj _3517217_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517218_37 = PRIM_CDR(_3517217_37);
-Obj _3517219_37 = PRIM_CAR(_3517218_37);
-Obj body = _3517219_37;
-Obj _3517220_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517221_37 = PRIM_CDR(_3517220_37);
-Obj _3517222_37 = PRIM_CDR(_3517221_37);
-Obj _3517223_37 = PRIM_EQ(Nil, _3517222_37);
-if (True == _3517223_37) {
+Obj _3516742_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj _3517265_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517265_37) {
+Obj _3517266_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517267_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517266_37);
+if (True == _3517267_37) {
+Obj _3517268_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517269_37 = PRIM_ISCONS(_3517268_37);
+if (True == _3517269_37) {
+Obj _3517270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517271_37 = PRIM_CAR(_3517270_37);
+Obj arg = _3517271_37;
+Obj _3517272_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517273_37 = PRIM_CDR(_3517272_37);
+Obj _3517274_37 = PRIM_ISCONS(_3517273_37);
+if (True == _3517274_37) {
+Obj _3517275_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517276_37 = PRIM_CDR(_3517275_37);
+Obj _3517277_37 = PRIM_CAR(_3517276_37);
+Obj body = _3517277_37;
+Obj _3517278_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517279_37 = PRIM_CDR(_3517278_37);
+Obj _3517280_37 = PRIM_CDR(_3517279_37);
+Obj _3517281_37 = PRIM_EQ(Nil, _3517280_37);
+if (True == _3517281_37) {
 R[1] = arg;
 saveCont(co, clofun33, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516684_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516684_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516684_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516684_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516684_37);
+coraCall0(co, _3516742_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517224_37= co->res;
+Obj _3517282_37= co->res;
 Obj arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517224_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517282_37, arg);
 return;
 }
 }
@@ -7187,15 +7249,15 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517202_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517202_37) {
-Obj _3517203_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517203_37;
-Obj _3517204_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517204_37;
-Obj _3517205_37 = makeCons(co->gc, f, args);
+Obj _3517260_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517260_37) {
+Obj _3517261_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517261_37;
+Obj _3517262_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517262_37;
+Obj _3517263_37 = makeCons(co->gc, f, args);
 saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517205_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517263_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7205,9 +7267,9 @@ return;
 }
 case 1:
 {
-Obj _3517206_37= co->res;
+Obj _3517264_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517206_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517264_37);
 return;
 }
 }
@@ -7217,42 +7279,42 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516665_37 = R[1];
-Obj _3516666_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516665_37);
-Obj _3517188_37 = PRIM_ISCONS(_3516665_37);
-if (True == _3517188_37) {
-Obj _3517189_37 = PRIM_CAR(_3516665_37);
-Obj _3517190_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517189_37);
-if (True == _3517190_37) {
-Obj _3517191_37 = PRIM_CDR(_3516665_37);
-Obj _3517192_37 = PRIM_ISCONS(_3517191_37);
-if (True == _3517192_37) {
-Obj _3517193_37 = PRIM_CDR(_3516665_37);
-Obj _3517194_37 = PRIM_CAR(_3517193_37);
-Obj _3517195_37 = PRIM_CDR(_3516665_37);
-Obj _3517196_37 = PRIM_CDR(_3517195_37);
-Obj _3517197_37 = PRIM_EQ(Nil, _3517196_37);
-if (True == _3517197_37) {
+Obj _3516723_37 = R[1];
+Obj _3516724_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516723_37);
+Obj _3517246_37 = PRIM_ISCONS(_3516723_37);
+if (True == _3517246_37) {
+Obj _3517247_37 = PRIM_CAR(_3516723_37);
+Obj _3517248_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517247_37);
+if (True == _3517248_37) {
+Obj _3517249_37 = PRIM_CDR(_3516723_37);
+Obj _3517250_37 = PRIM_ISCONS(_3517249_37);
+if (True == _3517250_37) {
+Obj _3517251_37 = PRIM_CDR(_3516723_37);
+Obj _3517252_37 = PRIM_CAR(_3517251_37);
+Obj _3517253_37 = PRIM_CDR(_3516723_37);
+Obj _3517254_37 = PRIM_CDR(_3517253_37);
+Obj _3517255_37 = PRIM_EQ(Nil, _3517254_37);
+if (True == _3517255_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516666_37);
+coraCall0(co, _3516724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516666_37);
+coraCall0(co, _3516724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516666_37);
+coraCall0(co, _3516724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516666_37);
+coraCall0(co, _3516724_37);
 return;
 }
 }
@@ -7263,41 +7325,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516667_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517178_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517178_37) {
-Obj _3517179_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517180_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517179_37);
-if (True == _3517180_37) {
-Obj _3517181_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517182_37 = PRIM_ISCONS(_3517181_37);
-if (True == _3517182_37) {
-Obj _3517183_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517184_37 = PRIM_CAR(_3517183_37);
-Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517186_37 = PRIM_CDR(_3517185_37);
-Obj _3517187_37 = PRIM_EQ(Nil, _3517186_37);
-if (True == _3517187_37) {
+Obj _3516725_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj _3517236_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517236_37) {
+Obj _3517237_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517238_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517237_37);
+if (True == _3517238_37) {
+Obj _3517239_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517240_37 = PRIM_ISCONS(_3517239_37);
+if (True == _3517240_37) {
+Obj _3517241_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517242_37 = PRIM_CAR(_3517241_37);
+Obj _3517243_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517244_37 = PRIM_CDR(_3517243_37);
+Obj _3517245_37 = PRIM_EQ(Nil, _3517244_37);
+if (True == _3517245_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516667_37);
+coraCall0(co, _3516725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516667_37);
+coraCall0(co, _3516725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516667_37);
+coraCall0(co, _3516725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516667_37);
+coraCall0(co, _3516725_37);
 return;
 }
 }
@@ -7308,41 +7370,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516668_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517168_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517168_37) {
-Obj _3517169_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517170_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517169_37);
-if (True == _3517170_37) {
-Obj _3517171_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517172_37 = PRIM_ISCONS(_3517171_37);
-if (True == _3517172_37) {
-Obj _3517173_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517174_37 = PRIM_CAR(_3517173_37);
-Obj _3517175_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517176_37 = PRIM_CDR(_3517175_37);
-Obj _3517177_37 = PRIM_EQ(Nil, _3517176_37);
-if (True == _3517177_37) {
+Obj _3516726_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj _3517226_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517226_37) {
+Obj _3517227_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517228_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517227_37);
+if (True == _3517228_37) {
+Obj _3517229_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517230_37 = PRIM_ISCONS(_3517229_37);
+if (True == _3517230_37) {
+Obj _3517231_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517232_37 = PRIM_CAR(_3517231_37);
+Obj _3517233_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517234_37 = PRIM_CDR(_3517233_37);
+Obj _3517235_37 = PRIM_EQ(Nil, _3517234_37);
+if (True == _3517235_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516668_37);
+coraCall0(co, _3516726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516668_37);
+coraCall0(co, _3516726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516668_37);
+coraCall0(co, _3516726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516668_37);
+coraCall0(co, _3516726_37);
 return;
 }
 }
@@ -7353,41 +7415,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516669_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517158_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517158_37) {
-Obj _3517159_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517160_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517159_37);
-if (True == _3517160_37) {
-Obj _3517161_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517162_37 = PRIM_ISCONS(_3517161_37);
-if (True == _3517162_37) {
-Obj _3517163_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517164_37 = PRIM_CAR(_3517163_37);
-Obj _3517165_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517166_37 = PRIM_CDR(_3517165_37);
-Obj _3517167_37 = PRIM_EQ(Nil, _3517166_37);
-if (True == _3517167_37) {
+Obj _3516727_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
+Obj _3517216_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517216_37) {
+Obj _3517217_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517218_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517217_37);
+if (True == _3517218_37) {
+Obj _3517219_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517220_37 = PRIM_ISCONS(_3517219_37);
+if (True == _3517220_37) {
+Obj _3517221_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517222_37 = PRIM_CAR(_3517221_37);
+Obj _3517223_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517224_37 = PRIM_CDR(_3517223_37);
+Obj _3517225_37 = PRIM_EQ(Nil, _3517224_37);
+if (True == _3517225_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516669_37);
+coraCall0(co, _3516727_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516669_37);
+coraCall0(co, _3516727_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516669_37);
+coraCall0(co, _3516727_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516669_37);
+coraCall0(co, _3516727_37);
 return;
 }
 }
@@ -7398,41 +7460,41 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516670_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517148_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517148_37) {
-Obj _3517149_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517150_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517149_37);
-if (True == _3517150_37) {
-Obj _3517151_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517152_37 = PRIM_ISCONS(_3517151_37);
-if (True == _3517152_37) {
-Obj _3517153_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517154_37 = PRIM_CAR(_3517153_37);
-Obj _3517155_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517156_37 = PRIM_CDR(_3517155_37);
-Obj _3517157_37 = PRIM_EQ(Nil, _3517156_37);
-if (True == _3517157_37) {
+Obj _3516728_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
+Obj _3517206_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517206_37) {
+Obj _3517207_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517208_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517207_37);
+if (True == _3517208_37) {
+Obj _3517209_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517210_37 = PRIM_ISCONS(_3517209_37);
+if (True == _3517210_37) {
+Obj _3517211_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517212_37 = PRIM_CAR(_3517211_37);
+Obj _3517213_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517214_37 = PRIM_CDR(_3517213_37);
+Obj _3517215_37 = PRIM_EQ(Nil, _3517214_37);
+if (True == _3517215_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516670_37);
+coraCall0(co, _3516728_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516670_37);
+coraCall0(co, _3516728_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516670_37);
+coraCall0(co, _3516728_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516670_37);
+coraCall0(co, _3516728_37);
 return;
 }
 }
@@ -7443,50 +7505,50 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516671_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517138_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517138_37) {
-Obj _3517139_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517140_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517139_37);
-if (True == _3517140_37) {
-Obj _3517141_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517142_37 = PRIM_ISCONS(_3517141_37);
-if (True == _3517142_37) {
-Obj _3517143_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517144_37 = PRIM_CAR(_3517143_37);
-Obj label = _3517144_37;
-Obj _3517145_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517146_37 = PRIM_CDR(_3517145_37);
-R[1] = _3516671_37;
+Obj _3516729_37 = makeNative(co->gc, 1, clofun25, 0, 0);
+Obj _3517196_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517196_37) {
+Obj _3517197_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517198_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517197_37);
+if (True == _3517198_37) {
+Obj _3517199_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517200_37 = PRIM_ISCONS(_3517199_37);
+if (True == _3517200_37) {
+Obj _3517201_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517202_37 = PRIM_CAR(_3517201_37);
+Obj label = _3517202_37;
+Obj _3517203_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517204_37 = PRIM_CDR(_3517203_37);
+R[1] = _3516729_37;
 saveCont(co, clofun26, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516729_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517147_37= co->res;
-Obj _3516671_37 = R[1];
-if (True == _3517147_37) {
+Obj _3517205_37= co->res;
+Obj _3516729_37 = R[1];
+if (True == _3517205_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516729_37);
 return;
 }
 }
@@ -7507,46 +7569,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516660_37 = R[1];
-Obj _3516661_37 = R[2];
-Obj _3517127_37 = PRIM_EQ(Nil, _3516660_37);
-if (True == _3517127_37) {
+Obj _3516718_37 = R[1];
+Obj _3516719_37 = R[2];
+Obj _3517185_37 = PRIM_EQ(Nil, _3516718_37);
+if (True == _3517185_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516663_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516660_37, _3516661_37);
-Obj _3517133_37 = PRIM_ISCONS(_3516660_37);
-if (True == _3517133_37) {
-Obj _3517134_37 = PRIM_CAR(_3516660_37);
-Obj x = _3517134_37;
-Obj _3517135_37 = PRIM_CDR(_3516660_37);
-Obj y = _3517135_37;
+Obj _3516721_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516718_37, _3516719_37);
+Obj _3517191_37 = PRIM_ISCONS(_3516718_37);
+if (True == _3517191_37) {
+Obj _3517192_37 = PRIM_CAR(_3516718_37);
+Obj x = _3517192_37;
+Obj _3517193_37 = PRIM_CDR(_3516718_37);
+Obj y = _3517193_37;
 R[1] = y;
-R[2] = _3516661_37;
-R[3] = _3516663_37;
+R[2] = _3516719_37;
+R[3] = _3516721_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516661_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516719_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516721_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517136_37= co->res;
+Obj _3517194_37= co->res;
 Obj y = R[1];
-Obj _3516661_37 = R[2];
-Obj _3516663_37 = R[3];
-if (True == _3517136_37) {
+Obj _3516719_37 = R[2];
+Obj _3516721_37 = R[3];
+if (True == _3517194_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516661_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516719_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516721_37);
 return;
 }
 }
@@ -7557,12 +7619,12 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517128_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517128_37) {
-Obj _3517129_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517129_37;
-Obj _3517130_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517130_37;
+Obj _3517186_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517186_37) {
+Obj _3517187_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517187_37;
+Obj _3517188_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517188_37;
 R[1] = x;
 saveCont(co, clofun23, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, closureRef(R[0], 1));
@@ -7575,10 +7637,10 @@ return;
 }
 case 1:
 {
-Obj _3517131_37= co->res;
+Obj _3517189_37= co->res;
 Obj x = R[1];
-Obj _3517132_37 = makeCons(co->gc, x, _3517131_37);
-coraReturn(co, _3517132_37);
+Obj _3517190_37 = makeCons(co->gc, x, _3517189_37);
+coraReturn(co, _3517190_37);
 return;
 }
 }
@@ -7588,46 +7650,46 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516655_37 = R[1];
-Obj _3516656_37 = R[2];
-Obj _3517116_37 = PRIM_EQ(Nil, _3516655_37);
-if (True == _3517116_37) {
-coraReturn(co, _3516656_37);
+Obj _3516713_37 = R[1];
+Obj _3516714_37 = R[2];
+Obj _3517174_37 = PRIM_EQ(Nil, _3516713_37);
+if (True == _3517174_37) {
+coraReturn(co, _3516714_37);
 return;
 } else {
-Obj _3516658_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516655_37, _3516656_37);
-Obj _3517122_37 = PRIM_ISCONS(_3516655_37);
-if (True == _3517122_37) {
-Obj _3517123_37 = PRIM_CAR(_3516655_37);
-Obj x = _3517123_37;
-Obj _3517124_37 = PRIM_CDR(_3516655_37);
-Obj y = _3517124_37;
+Obj _3516716_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516713_37, _3516714_37);
+Obj _3517180_37 = PRIM_ISCONS(_3516713_37);
+if (True == _3517180_37) {
+Obj _3517181_37 = PRIM_CAR(_3516713_37);
+Obj x = _3517181_37;
+Obj _3517182_37 = PRIM_CDR(_3516713_37);
+Obj y = _3517182_37;
 R[1] = y;
-R[2] = _3516656_37;
-R[3] = _3516658_37;
+R[2] = _3516714_37;
+R[3] = _3516716_37;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516656_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516714_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516716_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517125_37= co->res;
+Obj _3517183_37= co->res;
 Obj y = R[1];
-Obj _3516656_37 = R[2];
-Obj _3516658_37 = R[3];
-if (True == _3517125_37) {
+Obj _3516714_37 = R[2];
+Obj _3516716_37 = R[3];
+if (True == _3517183_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516656_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516714_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516716_37);
 return;
 }
 }
@@ -7638,12 +7700,12 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517117_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517117_37) {
-Obj _3517118_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517118_37;
-Obj _3517119_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517119_37;
+Obj _3517175_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517175_37) {
+Obj _3517176_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517176_37;
+Obj _3517177_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517177_37;
 R[1] = x;
 saveCont(co, clofun21, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, closureRef(R[0], 1));
@@ -7656,10 +7718,10 @@ return;
 }
 case 1:
 {
-Obj _3517120_37= co->res;
+Obj _3517178_37= co->res;
 Obj x = R[1];
-Obj _3517121_37 = makeCons(co->gc, x, _3517120_37);
-coraReturn(co, _3517121_37);
+Obj _3517179_37 = makeCons(co->gc, x, _3517178_37);
+coraReturn(co, _3517179_37);
 return;
 }
 }
@@ -7669,66 +7731,66 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516641_37 = R[1];
-Obj _3516642_37 = R[2];
-Obj _3516643_37 = R[3];
-Obj _3516785_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516641_37, _3516643_37, _3516642_37);
-R[1] = _3516643_37;
-R[2] = _3516785_37;
+Obj _3516699_37 = R[1];
+Obj _3516700_37 = R[2];
+Obj _3516701_37 = R[3];
+Obj _3516843_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516699_37, _3516701_37, _3516700_37);
+R[1] = _3516701_37;
+R[2] = _3516843_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516643_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516701_37);
 return;
 }
 case 1:
 {
-Obj _3517114_37= co->res;
-Obj _3516785_37 = R[1];
-if (True == _3517114_37) {
+Obj _3517172_37= co->res;
+Obj _3516843_37 = R[1];
+if (True == _3517172_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516785_37, True);
+coraCall1(co, _3516843_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516785_37, False);
+coraCall1(co, _3516843_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517113_37= co->res;
-Obj _3516643_37 = R[1];
-Obj _3516785_37 = R[2];
-if (True == _3517113_37) {
+Obj _3517171_37= co->res;
+Obj _3516701_37 = R[1];
+Obj _3516843_37 = R[2];
+if (True == _3517171_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516785_37, True);
+coraCall1(co, _3516843_37, True);
 return;
 } else {
-R[1] = _3516785_37;
+R[1] = _3516843_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516643_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516701_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517111_37= co->res;
-Obj _3516643_37 = R[1];
-Obj _3516785_37 = R[2];
-if (True == _3517111_37) {
+Obj _3517169_37= co->res;
+Obj _3516701_37 = R[1];
+Obj _3516843_37 = R[2];
+if (True == _3517169_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516785_37, True);
+coraCall1(co, _3516843_37, True);
 return;
 } else {
-Obj _3517112_37 = primIsString(_3516643_37);
-if (True == _3517112_37) {
+Obj _3517170_37 = primIsString(_3516701_37);
+if (True == _3517170_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516785_37, True);
+coraCall1(co, _3516843_37, True);
 return;
 } else {
-R[1] = _3516643_37;
-R[2] = _3516785_37;
+R[1] = _3516701_37;
+R[2] = _3516843_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516643_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516701_37);
 return;
 }
 }
@@ -7740,62 +7802,62 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516786_37 = R[1];
-if (True == _3516786_37) {
-Obj _3516922_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516923_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516922_37);
-coraReturn(co, _3516923_37);
+Obj _3516844_37 = R[1];
+if (True == _3516844_37) {
+Obj _3516980_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj _3516981_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516980_37);
+coraReturn(co, _3516981_37);
 return;
 } else {
-Obj _3516645_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517098_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517098_37) {
-Obj _3517099_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517100_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517099_37);
-if (True == _3517100_37) {
-Obj _3517101_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517102_37 = PRIM_ISCONS(_3517101_37);
-if (True == _3517102_37) {
-Obj _3517103_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517104_37 = PRIM_CAR(_3517103_37);
-Obj x = _3517104_37;
-Obj _3517105_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517106_37 = PRIM_CDR(_3517105_37);
-Obj _3517107_37 = PRIM_EQ(Nil, _3517106_37);
-if (True == _3517107_37) {
+Obj _3516703_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj _3517156_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517156_37) {
+Obj _3517157_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517158_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517157_37);
+if (True == _3517158_37) {
+Obj _3517159_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517160_37 = PRIM_ISCONS(_3517159_37);
+if (True == _3517160_37) {
+Obj _3517161_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517162_37 = PRIM_CAR(_3517161_37);
+Obj x = _3517162_37;
+Obj _3517163_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517164_37 = PRIM_CDR(_3517163_37);
+Obj _3517165_37 = PRIM_EQ(Nil, _3517164_37);
+if (True == _3517165_37) {
 R[1] = x;
 saveCont(co, clofun19, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), x, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516645_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516645_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516645_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516645_37);
+coraCall0(co, _3516703_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517108_37= co->res;
+Obj _3517166_37= co->res;
 Obj x = R[1];
-Obj _3517109_37 = makeCons(co->gc, x, Nil);
-Obj _3517110_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517109_37);
-coraReturn(co, _3517110_37);
+Obj _3517167_37 = makeCons(co->gc, x, Nil);
+Obj _3517168_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517167_37);
+coraReturn(co, _3517168_37);
 return;
 }
 }
@@ -7805,37 +7867,37 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516924_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516924_37) {
+Obj _3516982_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3516982_37) {
 saveCont(co, clofun18, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516647_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517076_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517076_37) {
-Obj _3517077_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517078_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517077_37);
-if (True == _3517078_37) {
-Obj _3517079_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517080_37 = PRIM_ISCONS(_3517079_37);
-if (True == _3517080_37) {
-Obj _3517081_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517082_37 = PRIM_CAR(_3517081_37);
-Obj args = _3517082_37;
-Obj _3517083_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517084_37 = PRIM_CDR(_3517083_37);
-Obj _3517085_37 = PRIM_ISCONS(_3517084_37);
-if (True == _3517085_37) {
-Obj _3517086_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517087_37 = PRIM_CDR(_3517086_37);
-Obj _3517088_37 = PRIM_CAR(_3517087_37);
-Obj body = _3517088_37;
-Obj _3517089_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517090_37 = PRIM_CDR(_3517089_37);
-Obj _3517091_37 = PRIM_CDR(_3517090_37);
-Obj _3517092_37 = PRIM_EQ(Nil, _3517091_37);
-if (True == _3517092_37) {
+Obj _3516705_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517134_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517134_37) {
+Obj _3517135_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517136_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517135_37);
+if (True == _3517136_37) {
+Obj _3517137_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517138_37 = PRIM_ISCONS(_3517137_37);
+if (True == _3517138_37) {
+Obj _3517139_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517140_37 = PRIM_CAR(_3517139_37);
+Obj args = _3517140_37;
+Obj _3517141_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517142_37 = PRIM_CDR(_3517141_37);
+Obj _3517143_37 = PRIM_ISCONS(_3517142_37);
+if (True == _3517143_37) {
+Obj _3517144_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517145_37 = PRIM_CDR(_3517144_37);
+Obj _3517146_37 = PRIM_CAR(_3517145_37);
+Obj body = _3517146_37;
+Obj _3517147_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517148_37 = PRIM_CDR(_3517147_37);
+Obj _3517149_37 = PRIM_CDR(_3517148_37);
+Obj _3517150_37 = PRIM_EQ(Nil, _3517149_37);
+if (True == _3517150_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun18, 4, R);
@@ -7843,43 +7905,43 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), args, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516705_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516926_37= co->res;
-Obj _3516927_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516928_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516927_37);
-coraReturn(co, _3516928_37);
+Obj _3516984_37= co->res;
+Obj _3516985_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3516986_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516985_37);
+coraReturn(co, _3516986_37);
 return;
 }
 case 2:
 {
-Obj _3516925_37= co->res;
-if (True == _3516925_37) {
+Obj _3516983_37= co->res;
+if (True == _3516983_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -7890,22 +7952,22 @@ return;
 }
 case 3:
 {
-Obj _3517094_37= co->res;
+Obj _3517152_37= co->res;
 Obj args = R[1];
-Obj _3517095_37 = makeCons(co->gc, _3517094_37, Nil);
-Obj _3517096_37 = makeCons(co->gc, args, _3517095_37);
-Obj _3517097_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517096_37);
-coraReturn(co, _3517097_37);
+Obj _3517153_37 = makeCons(co->gc, _3517152_37, Nil);
+Obj _3517154_37 = makeCons(co->gc, args, _3517153_37);
+Obj _3517155_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517154_37);
+coraReturn(co, _3517155_37);
 return;
 }
 case 4:
 {
-Obj _3517093_37= co->res;
+Obj _3517151_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517093_37, closureRef(R[0], 2), body);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517151_37, closureRef(R[0], 2), body);
 return;
 }
 }
@@ -7915,74 +7977,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516648_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517044_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517044_37) {
-Obj _3517045_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517046_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517045_37);
-if (True == _3517046_37) {
-Obj _3517047_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517048_37 = PRIM_ISCONS(_3517047_37);
-if (True == _3517048_37) {
-Obj _3517049_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517050_37 = PRIM_CAR(_3517049_37);
-Obj _3517051_37 = PRIM_ISCONS(_3517050_37);
-if (True == _3517051_37) {
-Obj _3517052_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517053_37 = PRIM_CAR(_3517052_37);
-Obj _3517054_37 = PRIM_CAR(_3517053_37);
-Obj _3517055_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517054_37);
-if (True == _3517055_37) {
-Obj _3517056_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517057_37 = PRIM_CAR(_3517056_37);
-Obj _3517058_37 = PRIM_CDR(_3517057_37);
-Obj exp1 = _3517058_37;
-Obj _3517059_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517060_37 = PRIM_CDR(_3517059_37);
-Obj exp2 = _3517060_37;
-Obj _3517061_37 = primGenSym(co);
-Obj f = _3517061_37;
-Obj _3517062_37 = primGenSym(co);
-Obj v = _3517062_37;
-Obj _3517063_37 = makeCons(co->gc, v, Nil);
-Obj _3517064_37 = makeCons(co->gc, v, exp2);
-Obj _3517065_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517064_37);
-Obj _3517066_37 = makeCons(co->gc, _3517065_37, Nil);
-Obj _3517067_37 = makeCons(co->gc, _3517063_37, _3517066_37);
-Obj _3517068_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517067_37);
-Obj _3517069_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
-Obj _3517070_37 = makeCons(co->gc, _3517069_37, Nil);
-Obj _3517071_37 = makeCons(co->gc, f, _3517070_37);
-Obj _3517072_37 = makeCons(co->gc, _3517071_37, Nil);
-Obj _3517073_37 = makeCons(co->gc, _3517068_37, _3517072_37);
-Obj _3517074_37 = makeCons(co->gc, f, _3517073_37);
-Obj _3517075_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517074_37);
+Obj _3516706_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517102_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517102_37) {
+Obj _3517103_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517104_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517103_37);
+if (True == _3517104_37) {
+Obj _3517105_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517106_37 = PRIM_ISCONS(_3517105_37);
+if (True == _3517106_37) {
+Obj _3517107_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517108_37 = PRIM_CAR(_3517107_37);
+Obj _3517109_37 = PRIM_ISCONS(_3517108_37);
+if (True == _3517109_37) {
+Obj _3517110_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517111_37 = PRIM_CAR(_3517110_37);
+Obj _3517112_37 = PRIM_CAR(_3517111_37);
+Obj _3517113_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517112_37);
+if (True == _3517113_37) {
+Obj _3517114_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517115_37 = PRIM_CAR(_3517114_37);
+Obj _3517116_37 = PRIM_CDR(_3517115_37);
+Obj exp1 = _3517116_37;
+Obj _3517117_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517118_37 = PRIM_CDR(_3517117_37);
+Obj exp2 = _3517118_37;
+Obj _3517119_37 = primGenSym(co);
+Obj f = _3517119_37;
+Obj _3517120_37 = primGenSym(co);
+Obj v = _3517120_37;
+Obj _3517121_37 = makeCons(co->gc, v, Nil);
+Obj _3517122_37 = makeCons(co->gc, v, exp2);
+Obj _3517123_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517122_37);
+Obj _3517124_37 = makeCons(co->gc, _3517123_37, Nil);
+Obj _3517125_37 = makeCons(co->gc, _3517121_37, _3517124_37);
+Obj _3517126_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517125_37);
+Obj _3517127_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
+Obj _3517128_37 = makeCons(co->gc, _3517127_37, Nil);
+Obj _3517129_37 = makeCons(co->gc, f, _3517128_37);
+Obj _3517130_37 = makeCons(co->gc, _3517129_37, Nil);
+Obj _3517131_37 = makeCons(co->gc, _3517126_37, _3517130_37);
+Obj _3517132_37 = makeCons(co->gc, f, _3517131_37);
+Obj _3517133_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517132_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517075_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517133_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516706_37);
 return;
 }
 }
@@ -7993,42 +8055,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516649_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517037_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517037_37) {
-Obj _3517038_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517039_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517038_37);
-if (True == _3517039_37) {
-Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517040_37;
+Obj _3516707_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517095_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517095_37) {
+Obj _3517096_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517097_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517096_37);
+if (True == _3517097_37) {
+Obj _3517098_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517098_37;
 R[1] = args;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516707_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517042_37= co->res;
-Obj _3517043_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517042_37);
-coraReturn(co, _3517043_37);
+Obj _3517100_37= co->res;
+Obj _3517101_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517100_37);
+coraReturn(co, _3517101_37);
 return;
 }
 case 2:
 {
-Obj _3517041_37= co->res;
+Obj _3517099_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517041_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517099_37, args);
 return;
 }
 }
@@ -8038,76 +8100,76 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516650_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517015_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517015_37) {
-Obj _3517016_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517017_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517016_37);
-if (True == _3517017_37) {
-Obj _3517018_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517019_37 = PRIM_ISCONS(_3517018_37);
-if (True == _3517019_37) {
-Obj _3517020_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517021_37 = PRIM_CAR(_3517020_37);
-Obj x = _3517021_37;
-Obj _3517022_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517023_37 = PRIM_CDR(_3517022_37);
-Obj _3517024_37 = PRIM_ISCONS(_3517023_37);
-if (True == _3517024_37) {
-Obj _3517025_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517026_37 = PRIM_CDR(_3517025_37);
-Obj _3517027_37 = PRIM_CAR(_3517026_37);
-Obj y = _3517027_37;
-Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517029_37 = PRIM_CDR(_3517028_37);
-Obj _3517030_37 = PRIM_CDR(_3517029_37);
-Obj _3517031_37 = PRIM_EQ(Nil, _3517030_37);
-if (True == _3517031_37) {
+Obj _3516708_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517073_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517073_37) {
+Obj _3517074_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517075_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517074_37);
+if (True == _3517075_37) {
+Obj _3517076_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517077_37 = PRIM_ISCONS(_3517076_37);
+if (True == _3517077_37) {
+Obj _3517078_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517079_37 = PRIM_CAR(_3517078_37);
+Obj x = _3517079_37;
+Obj _3517080_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517081_37 = PRIM_CDR(_3517080_37);
+Obj _3517082_37 = PRIM_ISCONS(_3517081_37);
+if (True == _3517082_37) {
+Obj _3517083_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517084_37 = PRIM_CDR(_3517083_37);
+Obj _3517085_37 = PRIM_CAR(_3517084_37);
+Obj y = _3517085_37;
+Obj _3517086_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517087_37 = PRIM_CDR(_3517086_37);
+Obj _3517088_37 = PRIM_CDR(_3517087_37);
+Obj _3517089_37 = PRIM_EQ(Nil, _3517088_37);
+if (True == _3517089_37) {
 R[1] = y;
 saveCont(co, clofun15, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516708_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517033_37= co->res;
-Obj _3517032_37 = R[1];
-Obj _3517034_37 = makeCons(co->gc, _3517033_37, Nil);
-Obj _3517035_37 = makeCons(co->gc, _3517032_37, _3517034_37);
-Obj _3517036_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517035_37);
-coraReturn(co, _3517036_37);
+Obj _3517091_37= co->res;
+Obj _3517090_37 = R[1];
+Obj _3517092_37 = makeCons(co->gc, _3517091_37, Nil);
+Obj _3517093_37 = makeCons(co->gc, _3517090_37, _3517092_37);
+Obj _3517094_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517093_37);
+coraReturn(co, _3517094_37);
 return;
 }
 case 2:
 {
-Obj _3517032_37= co->res;
+Obj _3517090_37= co->res;
 Obj y = R[1];
-R[1] = _3517032_37;
+R[1] = _3517090_37;
 saveCont(co, clofun15, 1, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), y);
 return;
@@ -8119,42 +8181,42 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516651_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516982_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516982_37) {
-Obj _3516983_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516984_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3516983_37);
-if (True == _3516984_37) {
-Obj _3516985_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516986_37 = PRIM_ISCONS(_3516985_37);
-if (True == _3516986_37) {
-Obj _3516987_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516988_37 = PRIM_CAR(_3516987_37);
-Obj a = _3516988_37;
-Obj _3516989_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516990_37 = PRIM_CDR(_3516989_37);
-Obj _3516991_37 = PRIM_ISCONS(_3516990_37);
-if (True == _3516991_37) {
-Obj _3516992_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516993_37 = PRIM_CDR(_3516992_37);
-Obj _3516994_37 = PRIM_CAR(_3516993_37);
-Obj b = _3516994_37;
-Obj _3516995_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516996_37 = PRIM_CDR(_3516995_37);
-Obj _3516997_37 = PRIM_CDR(_3516996_37);
-Obj _3516998_37 = PRIM_ISCONS(_3516997_37);
-if (True == _3516998_37) {
-Obj _3516999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517000_37 = PRIM_CDR(_3516999_37);
-Obj _3517001_37 = PRIM_CDR(_3517000_37);
-Obj _3517002_37 = PRIM_CAR(_3517001_37);
-Obj c = _3517002_37;
-Obj _3517003_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517004_37 = PRIM_CDR(_3517003_37);
-Obj _3517005_37 = PRIM_CDR(_3517004_37);
-Obj _3517006_37 = PRIM_CDR(_3517005_37);
-Obj _3517007_37 = PRIM_EQ(Nil, _3517006_37);
-if (True == _3517007_37) {
+Obj _3516709_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517040_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517040_37) {
+Obj _3517041_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517042_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517041_37);
+if (True == _3517042_37) {
+Obj _3517043_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517044_37 = PRIM_ISCONS(_3517043_37);
+if (True == _3517044_37) {
+Obj _3517045_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517046_37 = PRIM_CAR(_3517045_37);
+Obj a = _3517046_37;
+Obj _3517047_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517048_37 = PRIM_CDR(_3517047_37);
+Obj _3517049_37 = PRIM_ISCONS(_3517048_37);
+if (True == _3517049_37) {
+Obj _3517050_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517051_37 = PRIM_CDR(_3517050_37);
+Obj _3517052_37 = PRIM_CAR(_3517051_37);
+Obj b = _3517052_37;
+Obj _3517053_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517054_37 = PRIM_CDR(_3517053_37);
+Obj _3517055_37 = PRIM_CDR(_3517054_37);
+Obj _3517056_37 = PRIM_ISCONS(_3517055_37);
+if (True == _3517056_37) {
+Obj _3517057_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517058_37 = PRIM_CDR(_3517057_37);
+Obj _3517059_37 = PRIM_CDR(_3517058_37);
+Obj _3517060_37 = PRIM_CAR(_3517059_37);
+Obj c = _3517060_37;
+Obj _3517061_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517062_37 = PRIM_CDR(_3517061_37);
+Obj _3517063_37 = PRIM_CDR(_3517062_37);
+Obj _3517064_37 = PRIM_CDR(_3517063_37);
+Obj _3517065_37 = PRIM_EQ(Nil, _3517064_37);
+if (True == _3517065_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun14, 2, R);
@@ -8162,57 +8224,57 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516709_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517010_37= co->res;
-Obj _3517008_37 = R[1];
+Obj _3517068_37= co->res;
+Obj _3517066_37 = R[1];
 Obj a = R[2];
-Obj _3517011_37 = makeCons(co->gc, _3517010_37, Nil);
-Obj _3517012_37 = makeCons(co->gc, _3517008_37, _3517011_37);
-Obj _3517013_37 = makeCons(co->gc, a, _3517012_37);
-Obj _3517014_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517013_37);
-coraReturn(co, _3517014_37);
+Obj _3517069_37 = makeCons(co->gc, _3517068_37, Nil);
+Obj _3517070_37 = makeCons(co->gc, _3517066_37, _3517069_37);
+Obj _3517071_37 = makeCons(co->gc, a, _3517070_37);
+Obj _3517072_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517071_37);
+coraReturn(co, _3517072_37);
 return;
 }
 case 2:
 {
-Obj _3517008_37= co->res;
+Obj _3517066_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3517009_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3517008_37;
+Obj _3517067_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3517066_37;
 R[2] = a;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517009_37, closureRef(R[0], 2), c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517067_37, closureRef(R[0], 2), c);
 return;
 }
 }
@@ -8222,85 +8284,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516652_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516950_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516950_37) {
-Obj _3516951_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516952_37 = PRIM_ISCONS(_3516951_37);
-if (True == _3516952_37) {
-Obj _3516953_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516954_37 = PRIM_CAR(_3516953_37);
-Obj _3516955_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3516954_37);
-if (True == _3516955_37) {
-Obj _3516956_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516957_37 = PRIM_CDR(_3516956_37);
-Obj exp1 = _3516957_37;
-Obj _3516958_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516959_37 = PRIM_ISCONS(_3516958_37);
-if (True == _3516959_37) {
-Obj _3516960_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516961_37 = PRIM_CAR(_3516960_37);
-Obj _3516962_37 = PRIM_ISCONS(_3516961_37);
-if (True == _3516962_37) {
-Obj _3516963_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516964_37 = PRIM_CAR(_3516963_37);
-Obj _3516965_37 = PRIM_CAR(_3516964_37);
-Obj _3516966_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3516965_37);
-if (True == _3516966_37) {
-Obj _3516967_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516968_37 = PRIM_CAR(_3516967_37);
-Obj _3516969_37 = PRIM_CDR(_3516968_37);
-Obj exp2 = _3516969_37;
-Obj _3516970_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516971_37 = PRIM_CDR(_3516970_37);
-Obj _3516972_37 = PRIM_EQ(Nil, _3516971_37);
-if (True == _3516972_37) {
-Obj _3516973_37 = primGenSym(co);
-Obj f = _3516973_37;
-Obj _3516974_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3516975_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
-Obj _3516976_37 = makeCons(co->gc, _3516975_37, Nil);
-Obj _3516977_37 = makeCons(co->gc, f, _3516976_37);
-Obj _3516978_37 = makeCons(co->gc, _3516977_37, Nil);
-Obj _3516979_37 = makeCons(co->gc, _3516974_37, _3516978_37);
-Obj _3516980_37 = makeCons(co->gc, f, _3516979_37);
-Obj _3516981_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516980_37);
+Obj _3516710_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517008_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517008_37) {
+Obj _3517009_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517010_37 = PRIM_ISCONS(_3517009_37);
+if (True == _3517010_37) {
+Obj _3517011_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517012_37 = PRIM_CAR(_3517011_37);
+Obj _3517013_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517012_37);
+if (True == _3517013_37) {
+Obj _3517014_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517015_37 = PRIM_CDR(_3517014_37);
+Obj exp1 = _3517015_37;
+Obj _3517016_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517017_37 = PRIM_ISCONS(_3517016_37);
+if (True == _3517017_37) {
+Obj _3517018_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517019_37 = PRIM_CAR(_3517018_37);
+Obj _3517020_37 = PRIM_ISCONS(_3517019_37);
+if (True == _3517020_37) {
+Obj _3517021_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517022_37 = PRIM_CAR(_3517021_37);
+Obj _3517023_37 = PRIM_CAR(_3517022_37);
+Obj _3517024_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517023_37);
+if (True == _3517024_37) {
+Obj _3517025_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517026_37 = PRIM_CAR(_3517025_37);
+Obj _3517027_37 = PRIM_CDR(_3517026_37);
+Obj exp2 = _3517027_37;
+Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517029_37 = PRIM_CDR(_3517028_37);
+Obj _3517030_37 = PRIM_EQ(Nil, _3517029_37);
+if (True == _3517030_37) {
+Obj _3517031_37 = primGenSym(co);
+Obj f = _3517031_37;
+Obj _3517032_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
+Obj _3517033_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
+Obj _3517034_37 = makeCons(co->gc, _3517033_37, Nil);
+Obj _3517035_37 = makeCons(co->gc, f, _3517034_37);
+Obj _3517036_37 = makeCons(co->gc, _3517035_37, Nil);
+Obj _3517037_37 = makeCons(co->gc, _3517032_37, _3517036_37);
+Obj _3517038_37 = makeCons(co->gc, f, _3517037_37);
+Obj _3517039_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517038_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516981_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517039_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516710_37);
 return;
 }
 }
@@ -8311,90 +8373,90 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516653_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516930_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516930_37) {
-Obj _3516931_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516931_37;
-Obj _3516932_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516932_37;
+Obj _3516711_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj _3516988_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516988_37) {
+Obj _3516989_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3516989_37;
+Obj _3516990_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3516990_37;
 R[1] = op;
 R[2] = args;
-R[3] = _3516653_37;
+R[3] = _3516711_37;
 saveCont(co, clofun12, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516653_37);
+coraCall0(co, _3516711_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516940_37= co->res;
-Obj _3516938_37 = R[1];
-Obj _3516941_37 = makeCons(co->gc, _3516938_37, _3516940_37);
-coraReturn(co, _3516941_37);
+Obj _3516998_37= co->res;
+Obj _3516996_37 = R[1];
+Obj _3516999_37 = makeCons(co->gc, _3516996_37, _3516998_37);
+coraReturn(co, _3516999_37);
 return;
 }
 case 2:
 {
-Obj _3516939_37= co->res;
+Obj _3516997_37= co->res;
 Obj args = R[1];
-Obj _3516938_37 = R[2];
-R[1] = _3516938_37;
+Obj _3516996_37 = R[2];
+R[1] = _3516996_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516939_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516997_37, args);
 return;
 }
 case 3:
 {
-Obj _3516946_37= co->res;
+Obj _3517004_37= co->res;
 Obj tmp = R[1];
-Obj _3516947_37 = makeCons(co->gc, _3516946_37, Nil);
-Obj _3516948_37 = makeCons(co->gc, tmp, _3516947_37);
-Obj _3516949_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516948_37);
+Obj _3517005_37 = makeCons(co->gc, _3517004_37, Nil);
+Obj _3517006_37 = makeCons(co->gc, tmp, _3517005_37);
+Obj _3517007_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517006_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516949_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517007_37);
 return;
 }
 case 4:
 {
-Obj _3516944_37= co->res;
+Obj _3517002_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj tmp = _3516944_37;
-Obj _3516945_37 = makeCons(co->gc, op, args);
+Obj tmp = _3517002_37;
+Obj _3517003_37 = makeCons(co->gc, op, args);
 R[1] = tmp;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516945_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3517003_37, tmp);
 return;
 }
 case 5:
 {
-Obj _3516935_37= co->res;
+Obj _3516993_37= co->res;
 Obj required = R[1];
 Obj op = R[2];
 Obj args = R[3];
-Obj provided = _3516935_37;
-Obj _3516936_37 = PRIM_EQ(required, provided);
-if (True == _3516936_37) {
-Obj _3516937_37 = makeCons(co->gc, op, Nil);
-Obj _3516938_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516937_37);
+Obj provided = _3516993_37;
+Obj _3516994_37 = PRIM_EQ(required, provided);
+if (True == _3516994_37) {
+Obj _3516995_37 = makeCons(co->gc, op, Nil);
+Obj _3516996_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516995_37);
 R[1] = args;
-R[2] = _3516938_37;
+R[2] = _3516996_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3516942_37 = PRIM_GT(required, provided);
-if (True == _3516942_37) {
-Obj _3516943_37 = PRIM_SUB(required, provided);
+Obj _3517000_37 = PRIM_GT(required, provided);
+if (True == _3517000_37) {
+Obj _3517001_37 = PRIM_SUB(required, provided);
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516943_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3517001_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8405,10 +8467,10 @@ return;
 }
 case 6:
 {
-Obj _3516934_37= co->res;
+Obj _3516992_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj required = _3516934_37;
+Obj required = _3516992_37;
 R[1] = required;
 R[2] = op;
 R[3] = args;
@@ -8418,11 +8480,11 @@ return;
 }
 case 7:
 {
-Obj _3516933_37= co->res;
+Obj _3516991_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj _3516653_37 = R[3];
-if (True == _3516933_37) {
+Obj _3516711_37 = R[3];
+if (True == _3516991_37) {
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 6, R);
@@ -8430,7 +8492,7 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516653_37);
+coraCall0(co, _3516711_37);
 return;
 }
 }
@@ -8447,9 +8509,9 @@ return;
 }
 case 1:
 {
-Obj _3516929_37= co->res;
+Obj _3516987_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516929_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516987_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8459,18 +8521,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516637_37 = R[1];
-Obj _3516638_37 = R[2];
-Obj _3516917_37 = PRIM_EQ(MAKE_NUMBER(0), _3516637_37);
-if (True == _3516917_37) {
-coraReturn(co, _3516638_37);
+Obj _3516695_37 = R[1];
+Obj _3516696_37 = R[2];
+Obj _3516975_37 = PRIM_EQ(MAKE_NUMBER(0), _3516695_37);
+if (True == _3516975_37) {
+coraReturn(co, _3516696_37);
 return;
 } else {
-Obj _3516918_37 = PRIM_SUB(_3516637_37, MAKE_NUMBER(1));
-Obj _3516919_37 = primGenSym(co);
-Obj _3516920_37 = makeCons(co->gc, _3516919_37, _3516638_37);
+Obj _3516976_37 = PRIM_SUB(_3516695_37, MAKE_NUMBER(1));
+Obj _3516977_37 = primGenSym(co);
+Obj _3516978_37 = makeCons(co->gc, _3516977_37, _3516696_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516918_37, _3516920_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516976_37, _3516978_37);
 return;
 }
 }
@@ -8488,9 +8550,9 @@ return;
 }
 case 1:
 {
-Obj _3516915_37= co->res;
+Obj _3516973_37= co->res;
 Obj find = R[1];
-if (True == _3516915_37) {
+if (True == _3516973_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8501,8 +8563,8 @@ return;
 }
 case 2:
 {
-Obj _3516914_37= co->res;
-Obj find = _3516914_37;
+Obj _3516972_37= co->res;
+Obj find = _3516972_37;
 R[1] = find;
 saveCont(co, clofun9, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
@@ -8522,9 +8584,9 @@ return;
 }
 case 1:
 {
-Obj _3516912_37= co->res;
+Obj _3516970_37= co->res;
 Obj find = R[1];
-if (True == _3516912_37) {
+if (True == _3516970_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8535,8 +8597,8 @@ return;
 }
 case 2:
 {
-Obj _3516911_37= co->res;
-Obj find = _3516911_37;
+Obj _3516969_37= co->res;
+Obj find = _3516969_37;
 R[1] = find;
 saveCont(co, clofun8, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
@@ -8556,16 +8618,16 @@ return;
 }
 case 1:
 {
-Obj _3516908_37= co->res;
-Obj _3516909_37 = primNot(_3516908_37);
-coraReturn(co, _3516909_37);
+Obj _3516966_37= co->res;
+Obj _3516967_37 = primNot(_3516966_37);
+coraReturn(co, _3516967_37);
 return;
 }
 case 2:
 {
-Obj _3516907_37= co->res;
+Obj _3516965_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516907_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516965_37);
 return;
 }
 }
@@ -8575,23 +8637,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516633_37 = R[1];
-Obj _3516634_37 = R[2];
-Obj _3516831_37 = PRIM_EQ(Nil, _3516634_37);
-if (True == _3516831_37) {
+Obj _3516691_37 = R[1];
+Obj _3516692_37 = R[2];
+Obj _3516889_37 = PRIM_EQ(Nil, _3516692_37);
+if (True == _3516889_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516832_37 = PRIM_ISCONS(_3516634_37);
-if (True == _3516832_37) {
-Obj _3516833_37 = PRIM_CAR(_3516634_37);
-Obj hd = _3516833_37;
-Obj _3516834_37 = PRIM_CDR(_3516634_37);
-Obj tl = _3516834_37;
-R[1] = _3516633_37;
+Obj _3516890_37 = PRIM_ISCONS(_3516692_37);
+if (True == _3516890_37) {
+Obj _3516891_37 = PRIM_CAR(_3516692_37);
+Obj hd = _3516891_37;
+Obj _3516892_37 = PRIM_CDR(_3516692_37);
+Obj tl = _3516892_37;
+R[1] = _3516691_37;
 R[2] = tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516633_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516691_37, hd);
 return;
 } else {
 co->ctx.sp = R;
@@ -8602,13 +8664,13 @@ return;
 }
 case 1:
 {
-Obj _3516835_37= co->res;
-Obj _3516633_37 = R[1];
+Obj _3516893_37= co->res;
+Obj _3516691_37 = R[1];
 Obj tl = R[2];
-Obj _3516836_37 = PRIM_LT(_3516835_37, MAKE_NUMBER(0));
-if (True == _3516836_37) {
+Obj _3516894_37 = PRIM_LT(_3516893_37, MAKE_NUMBER(0));
+if (True == _3516894_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516633_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516691_37, tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8635,32 +8697,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516627_37 = R[1];
-Obj _3516628_37 = R[2];
-Obj _3516629_37 = R[3];
-Obj _3516820_37 = PRIM_EQ(Nil, _3516629_37);
-if (True == _3516820_37) {
+Obj _3516685_37 = R[1];
+Obj _3516686_37 = R[2];
+Obj _3516687_37 = R[3];
+Obj _3516878_37 = PRIM_EQ(Nil, _3516687_37);
+if (True == _3516878_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516631_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516629_37, _3516627_37, _3516628_37);
-Obj _3516825_37 = PRIM_ISCONS(_3516629_37);
-if (True == _3516825_37) {
-Obj _3516826_37 = PRIM_CAR(_3516629_37);
-Obj a = _3516826_37;
-Obj _3516827_37 = PRIM_CDR(_3516629_37);
-Obj _3516828_37 = PRIM_EQ(_3516628_37, a);
-if (True == _3516828_37) {
-coraReturn(co, _3516627_37);
+Obj _3516689_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516687_37, _3516685_37, _3516686_37);
+Obj _3516883_37 = PRIM_ISCONS(_3516687_37);
+if (True == _3516883_37) {
+Obj _3516884_37 = PRIM_CAR(_3516687_37);
+Obj a = _3516884_37;
+Obj _3516885_37 = PRIM_CDR(_3516687_37);
+Obj _3516886_37 = PRIM_EQ(_3516686_37, a);
+if (True == _3516886_37) {
+coraReturn(co, _3516685_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516689_37);
 return;
 }
 }
@@ -8672,14 +8734,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516821_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516821_37) {
-Obj _3516822_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516823_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516823_37;
-Obj _3516824_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj _3516879_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516879_37) {
+Obj _3516880_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516881_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj b = _3516881_37;
+Obj _3516882_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516824_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516882_37, closureRef(R[0], 2), b);
 return;
 } else {
 co->ctx.sp = R;
@@ -8694,24 +8756,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516622_37 = R[1];
-Obj _3516623_37 = R[2];
-Obj _3516624_37 = R[3];
-Obj _3516814_37 = PRIM_EQ(Nil, _3516624_37);
-if (True == _3516814_37) {
-coraReturn(co, _3516623_37);
+Obj _3516680_37 = R[1];
+Obj _3516681_37 = R[2];
+Obj _3516682_37 = R[3];
+Obj _3516872_37 = PRIM_EQ(Nil, _3516682_37);
+if (True == _3516872_37) {
+coraReturn(co, _3516681_37);
 return;
 } else {
-Obj _3516815_37 = PRIM_ISCONS(_3516624_37);
-if (True == _3516815_37) {
-Obj _3516816_37 = PRIM_CAR(_3516624_37);
-Obj x = _3516816_37;
-Obj _3516817_37 = PRIM_CDR(_3516624_37);
-Obj y = _3516817_37;
-R[1] = _3516622_37;
+Obj _3516873_37 = PRIM_ISCONS(_3516682_37);
+if (True == _3516873_37) {
+Obj _3516874_37 = PRIM_CAR(_3516682_37);
+Obj x = _3516874_37;
+Obj _3516875_37 = PRIM_CDR(_3516682_37);
+Obj y = _3516875_37;
+R[1] = _3516680_37;
 R[2] = y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516622_37, _3516623_37, x);
+coraCall2(co, _3516680_37, _3516681_37, x);
 return;
 } else {
 co->ctx.sp = R;
@@ -8722,11 +8784,11 @@ return;
 }
 case 1:
 {
-Obj _3516818_37= co->res;
-Obj _3516622_37 = R[1];
+Obj _3516876_37= co->res;
+Obj _3516680_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516622_37, _3516818_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516680_37, _3516876_37, y);
 return;
 }
 }
@@ -8736,44 +8798,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516617_37 = R[1];
-Obj _3516618_37 = R[2];
-Obj _3516799_37 = PRIM_EQ(Nil, _3516618_37);
-if (True == _3516799_37) {
+Obj _3516675_37 = R[1];
+Obj _3516676_37 = R[2];
+Obj _3516857_37 = PRIM_EQ(Nil, _3516676_37);
+if (True == _3516857_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516620_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516618_37, _3516617_37);
-Obj _3516803_37 = PRIM_ISCONS(_3516618_37);
-if (True == _3516803_37) {
-Obj _3516804_37 = PRIM_CAR(_3516618_37);
-Obj _3516805_37 = PRIM_ISCONS(_3516804_37);
-if (True == _3516805_37) {
-Obj _3516806_37 = PRIM_CAR(_3516618_37);
-Obj _3516807_37 = PRIM_CAR(_3516806_37);
-Obj x = _3516807_37;
-Obj _3516808_37 = PRIM_CAR(_3516618_37);
-Obj _3516809_37 = PRIM_CDR(_3516808_37);
-Obj y = _3516809_37;
-Obj _3516810_37 = PRIM_CDR(_3516618_37);
-Obj _3516811_37 = PRIM_EQ(_3516617_37, x);
-if (True == _3516811_37) {
-Obj _3516812_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516812_37);
+Obj _3516678_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516676_37, _3516675_37);
+Obj _3516861_37 = PRIM_ISCONS(_3516676_37);
+if (True == _3516861_37) {
+Obj _3516862_37 = PRIM_CAR(_3516676_37);
+Obj _3516863_37 = PRIM_ISCONS(_3516862_37);
+if (True == _3516863_37) {
+Obj _3516864_37 = PRIM_CAR(_3516676_37);
+Obj _3516865_37 = PRIM_CAR(_3516864_37);
+Obj x = _3516865_37;
+Obj _3516866_37 = PRIM_CAR(_3516676_37);
+Obj _3516867_37 = PRIM_CDR(_3516866_37);
+Obj y = _3516867_37;
+Obj _3516868_37 = PRIM_CDR(_3516676_37);
+Obj _3516869_37 = PRIM_EQ(_3516675_37, x);
+if (True == _3516869_37) {
+Obj _3516870_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3516870_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516620_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516620_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516620_37);
+coraCall0(co, _3516678_37);
 return;
 }
 }
@@ -8785,11 +8847,11 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516800_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516800_37) {
-Obj _3516801_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516802_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516802_37;
+Obj _3516858_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516858_37) {
+Obj _3516859_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516860_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3516860_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), y);
 return;
diff --git a/lib/toc.cora b/lib/toc.cora
index 573f782..26c3ed1 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -567,7 +567,7 @@
 	  (generate-str to "}\n\n")
 	  )))
 
-  (defun generate-entry (to globals label)
+  (defun generate-entry (to globals label nframe)
     (begin
      (generate-str to "void entry(struct Cora *co, int label, Obj *R) {\n")
      (generate-str to "if (packageID == -1) { packageID = packageIDAlloc(); }\n")
@@ -585,10 +585,12 @@
 	    0 globals)
      (generate-str to "addPackage(co, packageID, __symbolTable);\n")
 
-     (generate-str to "co->ctx.fn = ")
+     ;; the toplevel code needs a frame of its own, like any other function
+     (generate-str to "coraCall0(co, makeNative(co->gc, ")
+     (generate-num to nframe)
+     (generate-str to ", ")
      (generate-group-name to label)
-     (generate-str to ";\n")
-     (generate-str to "co->ctx.label = 0;\n}\n\n")))
+     (generate-str to ", 0, 0));\n}\n\n")))
 
   (defun generate-c (to bc globals)
     (begin
@@ -601,7 +603,7 @@
 		  (generate-str to ";\n")))
 	       bc)
      (generate-str to "\n\n")
-     (generate-entry to globals (caar bc))
+     (generate-entry to globals (caar bc) (lambda-frame-size (cadr (car bc))))
      (for-each (lambda (group)
 		 (generate-toplevel-lambda to group globals))
 	       bc)))
-- 
2.43.0


From 34ea320f69f16ecf7b7f53476587c7ca039f54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 26/63] fix: a throw leaves the module that is being loaded

load, load-so and import ran the compiler and the toplevel code of the module
in a coraRun of their own. A throw from there to a handler outside dropped
the frame that ends that coraRun, which then took the end of the outer
program for its own and popped an empty call stack: the process crashed.
---
 src/runtime.c | 62 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 5d6feea..b19b63f 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -357,10 +357,10 @@ builtinLoadSo(Cora *co, int label, Obj *R) {
 		coraReturn(co, makeString(co->gc, error, strlen(error)));
 		return;
 	}
-	entry(co, 0, R);
-	coraRun(co);
-	coraReturn(co, co->res);
-	return;
+	// A tail call. The entry must not run in a coraRun of its own: a throw out of the
+	// module would leave it, but not the C stack.
+	co->ctx.fn = entry;
+	co->ctx.label = 0;
 }
 
 static int
@@ -421,26 +421,14 @@ getCoraPath() {
 
 static int unique = 1;
 
+// What remains of load when the compiler has returned.
 static void
-builtinLoad(Cora *co, int label, Obj *R) {
-	TRACE_SCOPE("builtinLoad");
-	// (load "file-path.cora")
-	Obj filePath = R[1];
-	Obj arg1 = filePath;
-	// Copy the path: filePath is not a GC root while the compiler runs below.
-	strBuf filePathBuf = strDup(stringStr(filePath));
-	str filePathStr = toStr(filePathBuf);
+loadCompiled(Cora *co, int label, Obj *R) {
+	TRACE_SCOPE("loadCompiled");
+	str filePathStr = stringStr(R[1]);
+	int cfileidx = fixnum(R[2]);
 	const int BUFSIZE = 512;
 	char buf[BUFSIZE];
-	int cfileidx = unique;
-	unique++;
-	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", cfileidx);
-	str tmpCFile = cstr(buf);
-	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
-	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
-	Obj fn = globalRef(co, bind);
-	coraCall2(co, fn, arg1, arg2);
-	coraRun(co);
 	// TODO: check res?
 	// Obj res = co->args[1];
 
@@ -455,7 +443,6 @@ builtinLoad(Cora *co, int label, Obj *R) {
 		tmp = strNew(30);
 		snprintf(toCStr(tmp), 30, "/tmp/cora-xxx-%d.so", cfileidx);
 	}
-	strFree(filePathBuf);
 
 	snprintf(buf, BUFSIZE,
 		"gcc -shared -I%s -g -fPIC /tmp/cora-xxx-%d.c -o "
@@ -468,15 +455,40 @@ builtinLoad(Cora *co, int label, Obj *R) {
 		return;
 	}
 
-	arg1 = makeCString(co->gc, toCStr(tmp));
+	Obj arg1 = makeCString(co->gc, toCStr(tmp));
 	strFree(tmp);
-	arg2 = makeCString(co->gc, "");
-	fn = globalRef(co, bindSymbol(co, intern("load-so")));
+	Obj arg2 = makeCString(co->gc, "");
+	Obj fn = globalRef(co, bindSymbol(co, intern("load-so")));
 	co->ctx.sp = R;
 	coraCall2(co, fn, arg1, arg2);
 	return;
 }
 
+static void
+builtinLoad(Cora *co, int label, Obj *R) {
+	TRACE_SCOPE("builtinLoad");
+	// (load "file-path.cora")
+	Obj filePath = R[1];
+	const int BUFSIZE = 512;
+	char buf[BUFSIZE];
+	int cfileidx = unique;
+	unique++;
+	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", cfileidx);
+	str tmpCFile = cstr(buf);
+	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
+
+	// The frame keeps what loadCompiled needs.
+	co->ctx.sp = R;
+	R = stackAlloc(co, 3);
+	R[0] = Nil;
+	R[1] = filePath;
+	R[2] = makeNumber(cfileidx);
+	saveCont(co, loadCompiled, 0, R);
+	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
+	Obj fn = globalRef(co, bind);
+	coraCall2(co, fn, filePath, arg2);
+}
+
 static bool
 safeToUseSo(strBuf soFilePath) {
 	if (0 != access(toCStr(soFilePath), R_OK)) {
-- 
2.43.0


From 5f4bbec8d3a7b3a390a841fed37e3a07b1d53b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 27/63] fix: a file that can't be compiled is not taken for an
 empty one

A package that could not be opened, read or compiled was imported as (), left
a .so behind that took its place from then on, and stayed marked as imported,
so that the import was not tried again. The same went for a package that was
compiled while one it imports was missing.
---
 init.c        | 2806 ++++++++++-----------
 lib/io.c      |    8 +-
 lib/toc.c     | 6529 +++++++++++++++++++++++++------------------------
 lib/toc.cora  |   36 +-
 src/runtime.c |   67 +-
 5 files changed, 4755 insertions(+), 4691 deletions(-)

diff --git a/init.c b/init.c
index f3fc1fc..964ee06 100644
--- a/init.c
+++ b/init.c
@@ -273,315 +273,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512543_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512546_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512549_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512552_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512555_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512559_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512564_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512568_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512576_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512578_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512583_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3512540_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj _3512543_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj _3512546_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj _3512549_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj _3512552_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj _3512556_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj _3512561_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj _3512565_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3512573_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3512575_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3512580_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj _3513063_37= co->res;
-Obj _3513069_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513081_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513082_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513083_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513082_37);
-Obj _3513084_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513083_37);
-Obj _3513085_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3513060_37= co->res;
+Obj _3513066_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3513078_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj _3513079_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3513080_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513079_37);
+Obj _3513081_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513080_37);
+Obj _3513082_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3513083_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513082_37);
+Obj _3513084_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513083_37);
+Obj _3513085_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
 Obj _3513086_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513085_37);
-Obj _3513087_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513086_37);
-Obj _3513088_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513089_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513088_37);
-Obj _3513090_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513089_37);
-Obj _3513091_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513092_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513091_37);
-Obj _3513093_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513092_37);
-Obj _3513094_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513095_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513094_37);
-Obj _3513096_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513095_37);
-Obj _3513097_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3513087_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513086_37);
+Obj _3513088_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3513089_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513088_37);
+Obj _3513090_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513089_37);
+Obj _3513091_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3513092_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513091_37);
+Obj _3513093_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513092_37);
+Obj _3513094_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3513095_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513094_37);
+Obj _3513096_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513095_37);
+Obj _3513097_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
 Obj _3513098_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513097_37);
-Obj _3513099_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513098_37);
-Obj _3513100_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3513099_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513098_37);
+Obj _3513100_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
 Obj _3513101_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513100_37);
-Obj _3513102_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513101_37);
-Obj _3513103_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3513102_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513101_37);
+Obj _3513103_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
 Obj _3513104_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513103_37);
-Obj _3513105_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513104_37);
-Obj _3513106_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3513105_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513104_37);
+Obj _3513106_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
 Obj _3513107_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513106_37);
-Obj _3513108_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513107_37);
-Obj _3513109_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3513108_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513107_37);
+Obj _3513109_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
 Obj _3513110_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513109_37);
-Obj _3513111_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513110_37);
-Obj _3513112_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3513111_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513110_37);
+Obj _3513112_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
 Obj _3513113_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513112_37);
-Obj _3513114_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513113_37);
-Obj _3513115_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513116_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513115_37);
-Obj _3513117_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513116_37);
-Obj _3513118_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513119_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513118_37);
-Obj _3513120_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513119_37);
-Obj _3513121_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3513114_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513113_37);
+Obj _3513115_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3513116_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513115_37);
+Obj _3513117_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513116_37);
+Obj _3513118_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3513119_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513118_37);
+Obj _3513120_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513119_37);
+Obj _3513121_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
 Obj _3513122_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513121_37);
-Obj _3513123_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513122_37);
-Obj _3513124_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3513123_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513122_37);
+Obj _3513124_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
 Obj _3513125_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513124_37);
-Obj _3513126_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513125_37);
-Obj _3513127_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3513126_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513125_37);
+Obj _3513127_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
 Obj _3513128_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513127_37);
-Obj _3513129_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513128_37);
-Obj _3513130_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513131_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513130_37);
-Obj _3513132_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513131_37);
-Obj _3513133_37 = makeCons(co->gc, _3513132_37, Nil);
-Obj _3513134_37 = makeCons(co->gc, _3513129_37, _3513133_37);
-Obj _3513135_37 = makeCons(co->gc, _3513126_37, _3513134_37);
-Obj _3513136_37 = makeCons(co->gc, _3513123_37, _3513135_37);
-Obj _3513137_37 = makeCons(co->gc, _3513120_37, _3513136_37);
-Obj _3513138_37 = makeCons(co->gc, _3513117_37, _3513137_37);
-Obj _3513139_37 = makeCons(co->gc, _3513114_37, _3513138_37);
-Obj _3513140_37 = makeCons(co->gc, _3513111_37, _3513139_37);
-Obj _3513141_37 = makeCons(co->gc, _3513108_37, _3513140_37);
-Obj _3513142_37 = makeCons(co->gc, _3513105_37, _3513141_37);
-Obj _3513143_37 = makeCons(co->gc, _3513102_37, _3513142_37);
-Obj _3513144_37 = makeCons(co->gc, _3513099_37, _3513143_37);
-Obj _3513145_37 = makeCons(co->gc, _3513096_37, _3513144_37);
-Obj _3513146_37 = makeCons(co->gc, _3513093_37, _3513145_37);
-Obj _3513147_37 = makeCons(co->gc, _3513090_37, _3513146_37);
-Obj _3513148_37 = makeCons(co->gc, _3513087_37, _3513147_37);
-Obj _3513149_37 = makeCons(co->gc, _3513084_37, _3513148_37);
-Obj _3513150_37 = primSet(co, getBinding(co, packageID, 69).name, _3513149_37);
-Obj _3513165_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513169_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513347_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513348_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513349_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513348_37);
-Obj _3513350_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513349_37);
-Obj _3513351_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513350_37);
-Obj _3513352_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513351_37);
-Obj _3513353_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513352_37);
-Obj _3513354_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513353_37);
-Obj _3513355_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513354_37);
-Obj _3513356_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513355_37);
-Obj _3513357_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513356_37);
-Obj _3513358_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513357_37);
-Obj _3513359_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513358_37);
-Obj _3513360_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513359_37);
-Obj _3513361_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513360_37);
-Obj _3513362_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513361_37);
-Obj _3513363_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513362_37);
-Obj _3513364_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513363_37);
-Obj _3513365_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513364_37);
-Obj _3513366_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513365_37);
-Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513366_37);
-Obj _3513368_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513367_37);
-Obj _3513369_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513368_37);
-Obj _3513370_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513369_37);
-Obj _3513371_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513370_37);
-Obj _3513372_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513371_37);
-Obj _3513373_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513372_37);
-Obj _3513374_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513373_37);
-Obj _3513375_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513374_37);
-Obj _3513376_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513375_37);
-Obj _3513377_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513376_37);
-Obj _3513378_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513377_37);
-Obj _3513379_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513378_37);
-Obj _3513380_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513379_37);
-Obj _3513381_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513380_37);
-Obj _3513382_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513381_37);
-Obj _3513383_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513382_37);
-Obj _3513384_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513383_37);
-Obj _3513385_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513384_37);
-Obj _3513386_37 = primSet(co, getBinding(co, packageID, 53).name, _3513385_37);
-Obj _3513387_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513388_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513389_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513390_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513391_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513392_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513393_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513394_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513395_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513396_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513397_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513398_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513399_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513400_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513401_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513402_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513403_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513404_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513405_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513406_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513407_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513408_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513409_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513410_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3513411_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513412_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513413_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513414_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513415_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3513416_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3513417_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3513418_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3513419_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513420_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3513421_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513422_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513423_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3513424_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3513425_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3513425_37);
+Obj _3513129_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513128_37);
+Obj _3513130_37 = makeCons(co->gc, _3513129_37, Nil);
+Obj _3513131_37 = makeCons(co->gc, _3513126_37, _3513130_37);
+Obj _3513132_37 = makeCons(co->gc, _3513123_37, _3513131_37);
+Obj _3513133_37 = makeCons(co->gc, _3513120_37, _3513132_37);
+Obj _3513134_37 = makeCons(co->gc, _3513117_37, _3513133_37);
+Obj _3513135_37 = makeCons(co->gc, _3513114_37, _3513134_37);
+Obj _3513136_37 = makeCons(co->gc, _3513111_37, _3513135_37);
+Obj _3513137_37 = makeCons(co->gc, _3513108_37, _3513136_37);
+Obj _3513138_37 = makeCons(co->gc, _3513105_37, _3513137_37);
+Obj _3513139_37 = makeCons(co->gc, _3513102_37, _3513138_37);
+Obj _3513140_37 = makeCons(co->gc, _3513099_37, _3513139_37);
+Obj _3513141_37 = makeCons(co->gc, _3513096_37, _3513140_37);
+Obj _3513142_37 = makeCons(co->gc, _3513093_37, _3513141_37);
+Obj _3513143_37 = makeCons(co->gc, _3513090_37, _3513142_37);
+Obj _3513144_37 = makeCons(co->gc, _3513087_37, _3513143_37);
+Obj _3513145_37 = makeCons(co->gc, _3513084_37, _3513144_37);
+Obj _3513146_37 = makeCons(co->gc, _3513081_37, _3513145_37);
+Obj _3513147_37 = primSet(co, getBinding(co, packageID, 69).name, _3513146_37);
+Obj _3513162_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj _3513166_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj _3513344_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj _3513345_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj _3513346_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513345_37);
+Obj _3513347_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513346_37);
+Obj _3513348_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513347_37);
+Obj _3513349_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513348_37);
+Obj _3513350_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513349_37);
+Obj _3513351_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513350_37);
+Obj _3513352_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513351_37);
+Obj _3513353_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513352_37);
+Obj _3513354_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513353_37);
+Obj _3513355_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513354_37);
+Obj _3513356_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513355_37);
+Obj _3513357_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513356_37);
+Obj _3513358_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513357_37);
+Obj _3513359_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513358_37);
+Obj _3513360_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513359_37);
+Obj _3513361_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513360_37);
+Obj _3513362_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513361_37);
+Obj _3513363_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513362_37);
+Obj _3513364_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513363_37);
+Obj _3513365_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513364_37);
+Obj _3513366_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513365_37);
+Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513366_37);
+Obj _3513368_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513367_37);
+Obj _3513369_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513368_37);
+Obj _3513370_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513369_37);
+Obj _3513371_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513370_37);
+Obj _3513372_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513371_37);
+Obj _3513373_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513372_37);
+Obj _3513374_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513373_37);
+Obj _3513375_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513374_37);
+Obj _3513376_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513375_37);
+Obj _3513377_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513376_37);
+Obj _3513378_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513377_37);
+Obj _3513379_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513378_37);
+Obj _3513380_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513379_37);
+Obj _3513381_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513380_37);
+Obj _3513382_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513381_37);
+Obj _3513383_37 = primSet(co, getBinding(co, packageID, 53).name, _3513382_37);
+Obj _3513384_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj _3513385_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj _3513386_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj _3513387_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj _3513388_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj _3513389_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj _3513390_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj _3513391_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj _3513392_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj _3513393_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj _3513394_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj _3513395_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj _3513396_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj _3513397_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj _3513398_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj _3513399_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj _3513400_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj _3513401_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj _3513402_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj _3513403_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj _3513404_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj _3513405_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj _3513406_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj _3513407_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj _3513408_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj _3513409_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj _3513410_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj _3513411_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj _3513412_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj _3513413_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj _3513414_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj _3513415_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj _3513416_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj _3513417_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj _3513418_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj _3513419_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj _3513420_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj _3513421_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj _3513422_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, _3513422_37);
 return;
 }
 case 2:
 {
-Obj _3513013_37= co->res;
-Obj _3513042_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3513043_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3513010_37= co->res;
+Obj _3513039_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj _3513040_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512996_37= co->res;
-Obj _3513010_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3512993_37= co->res;
+Obj _3513007_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512974_37= co->res;
-Obj _3512994_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj _3512971_37= co->res;
+Obj _3512991_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512943_37= co->res;
-Obj _3512944_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512945_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512948_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512972_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj _3512940_37= co->res;
+Obj _3512941_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj _3512942_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj _3512945_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj _3512969_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512835_37= co->res;
-Obj _3512887_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512888_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512893_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512897_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512898_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512906_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512907_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512913_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512924_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512930_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj _3512832_37= co->res;
+Obj _3512884_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj _3512885_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj _3512890_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj _3512894_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj _3512895_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj _3512903_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj _3512904_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3512910_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3512921_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj _3512927_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512730_37= co->res;
-Obj _3512752_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512785_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512798_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512820_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512834_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj _3512727_37= co->res;
+Obj _3512749_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj _3512782_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj _3512795_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj _3512817_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj _3512831_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512715_37= co->res;
-Obj _3512718_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512728_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj _3512712_37= co->res;
+Obj _3512715_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj _3512725_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512701_37= co->res;
-Obj _3512713_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj _3512698_37= co->res;
+Obj _3512710_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512687_37= co->res;
-Obj _3512699_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj _3512684_37= co->res;
+Obj _3512696_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512673_37= co->res;
+Obj _3512670_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512651_37= co->res;
-Obj _3512656_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512659_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512671_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj _3512648_37= co->res;
+Obj _3512653_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj _3512656_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj _3512668_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512641_37= co->res;
+Obj _3512638_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512639_37= co->res;
+Obj _3512636_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512584_37= co->res;
-Obj _3512585_37 = primSet(co, getBinding(co, packageID, 149).name, _3512584_37);
-Obj _3512591_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512592_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512593_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3512594_37 = primGenSym(co);
-Obj _3512595_37 = primSet(co, getBinding(co, packageID, 145).name, _3512594_37);
-Obj _3512599_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512608_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512609_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512626_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512627_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3512638_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj _3512581_37= co->res;
+Obj _3512582_37 = primSet(co, getBinding(co, packageID, 149).name, _3512581_37);
+Obj _3512588_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj _3512589_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj _3512590_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj _3512591_37 = primGenSym(co);
+Obj _3512592_37 = primSet(co, getBinding(co, packageID, 145).name, _3512591_37);
+Obj _3512596_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj _3512605_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj _3512606_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj _3512623_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj _3512624_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj _3512635_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -593,67 +593,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512514_37 = R[1];
-Obj _3512515_37 = R[2];
-Obj _3512516_37 = R[3];
-Obj _3512517_37 = R[4];
-Obj _3512538_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512514_37, _3512515_37, _3512516_37, _3512517_37);
-R[1] = _3512517_37;
-R[2] = _3512538_37;
+Obj _3512511_37 = R[1];
+Obj _3512512_37 = R[2];
+Obj _3512513_37 = R[3];
+Obj _3512514_37 = R[4];
+Obj _3512535_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512511_37, _3512512_37, _3512513_37, _3512514_37);
+R[1] = _3512514_37;
+R[2] = _3512535_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512517_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512514_37);
 return;
 }
 case 1:
 {
-Obj _3513346_37= co->res;
-Obj _3512538_37 = R[1];
-if (True == _3513346_37) {
+Obj _3513343_37= co->res;
+Obj _3512535_37 = R[1];
+if (True == _3513343_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512538_37, True);
+coraCall1(co, _3512535_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512538_37, False);
+coraCall1(co, _3512535_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513345_37= co->res;
-Obj _3512517_37 = R[1];
-Obj _3512538_37 = R[2];
-if (True == _3513345_37) {
+Obj _3513342_37= co->res;
+Obj _3512514_37 = R[1];
+Obj _3512535_37 = R[2];
+if (True == _3513342_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512538_37, True);
+coraCall1(co, _3512535_37, True);
 return;
 } else {
-R[1] = _3512538_37;
+R[1] = _3512535_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512517_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512514_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513343_37= co->res;
-Obj _3512517_37 = R[1];
-Obj _3512538_37 = R[2];
-if (True == _3513343_37) {
+Obj _3513340_37= co->res;
+Obj _3512514_37 = R[1];
+Obj _3512535_37 = R[2];
+if (True == _3513340_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512538_37, True);
+coraCall1(co, _3512535_37, True);
 return;
 } else {
-Obj _3513344_37 = primIsString(_3512517_37);
-if (True == _3513344_37) {
+Obj _3513341_37 = primIsString(_3512514_37);
+if (True == _3513341_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512538_37, True);
+coraCall1(co, _3512535_37, True);
 return;
 } else {
-R[1] = _3512517_37;
-R[2] = _3512538_37;
+R[1] = _3512514_37;
+R[2] = _3512535_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512517_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512514_37);
 return;
 }
 }
@@ -665,49 +665,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512539_37 = R[1];
-if (True == _3512539_37) {
+Obj _3512536_37 = R[1];
+if (True == _3512536_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512519_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513331_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513331_37) {
-Obj _3513332_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513333_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513332_37);
-if (True == _3513333_37) {
-Obj _3513334_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513335_37 = PRIM_ISCONS(_3513334_37);
-if (True == _3513335_37) {
-Obj _3513336_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513337_37 = PRIM_CAR(_3513336_37);
-Obj x = _3513337_37;
-Obj _3513338_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513339_37 = PRIM_CDR(_3513338_37);
-Obj _3513340_37 = PRIM_EQ(Nil, _3513339_37);
-if (True == _3513340_37) {
-Obj _3513341_37 = makeCons(co->gc, x, Nil);
-Obj _3513342_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513341_37);
-coraReturn(co, _3513342_37);
+Obj _3512516_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3513328_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3513328_37) {
+Obj _3513329_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3513330_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513329_37);
+if (True == _3513330_37) {
+Obj _3513331_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513332_37 = PRIM_ISCONS(_3513331_37);
+if (True == _3513332_37) {
+Obj _3513333_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513334_37 = PRIM_CAR(_3513333_37);
+Obj x = _3513334_37;
+Obj _3513335_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513336_37 = PRIM_CDR(_3513335_37);
+Obj _3513337_37 = PRIM_EQ(Nil, _3513336_37);
+if (True == _3513337_37) {
+Obj _3513338_37 = makeCons(co->gc, x, Nil);
+Obj _3513339_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513338_37);
+coraReturn(co, _3513339_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3512516_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3512516_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3512516_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3512516_37);
 return;
 }
 }
@@ -719,37 +719,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513170_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513170_37) {
+Obj _3513167_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3513167_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3512521_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513309_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513309_37) {
-Obj _3513310_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513311_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513310_37);
-if (True == _3513311_37) {
-Obj _3513312_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513313_37 = PRIM_ISCONS(_3513312_37);
-if (True == _3513313_37) {
-Obj _3513314_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513315_37 = PRIM_CAR(_3513314_37);
-Obj args = _3513315_37;
+Obj _3512518_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513306_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513306_37) {
+Obj _3513307_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513308_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513307_37);
+if (True == _3513308_37) {
+Obj _3513309_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513310_37 = PRIM_ISCONS(_3513309_37);
+if (True == _3513310_37) {
+Obj _3513311_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513312_37 = PRIM_CAR(_3513311_37);
+Obj args = _3513312_37;
+Obj _3513313_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513314_37 = PRIM_CDR(_3513313_37);
+Obj _3513315_37 = PRIM_ISCONS(_3513314_37);
+if (True == _3513315_37) {
 Obj _3513316_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513317_37 = PRIM_CDR(_3513316_37);
-Obj _3513318_37 = PRIM_ISCONS(_3513317_37);
-if (True == _3513318_37) {
+Obj _3513318_37 = PRIM_CAR(_3513317_37);
+Obj body = _3513318_37;
 Obj _3513319_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513320_37 = PRIM_CDR(_3513319_37);
-Obj _3513321_37 = PRIM_CAR(_3513320_37);
-Obj body = _3513321_37;
-Obj _3513322_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513323_37 = PRIM_CDR(_3513322_37);
-Obj _3513324_37 = PRIM_CDR(_3513323_37);
-Obj _3513325_37 = PRIM_EQ(Nil, _3513324_37);
-if (True == _3513325_37) {
+Obj _3513321_37 = PRIM_CDR(_3513320_37);
+Obj _3513322_37 = PRIM_EQ(Nil, _3513321_37);
+if (True == _3513322_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun92, 4, R);
@@ -757,35 +757,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), args, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, _3512518_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513172_37= co->res;
-if (True == _3513172_37) {
+Obj _3513169_37= co->res;
+if (True == _3513169_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -796,8 +796,8 @@ return;
 }
 case 2:
 {
-Obj _3513171_37= co->res;
-if (True == _3513171_37) {
+Obj _3513168_37= co->res;
+if (True == _3513168_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -808,22 +808,22 @@ return;
 }
 case 3:
 {
-Obj _3513327_37= co->res;
+Obj _3513324_37= co->res;
 Obj args = R[1];
-Obj _3513328_37 = makeCons(co->gc, _3513327_37, Nil);
-Obj _3513329_37 = makeCons(co->gc, args, _3513328_37);
-Obj _3513330_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513329_37);
-coraReturn(co, _3513330_37);
+Obj _3513325_37 = makeCons(co->gc, _3513324_37, Nil);
+Obj _3513326_37 = makeCons(co->gc, args, _3513325_37);
+Obj _3513327_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513326_37);
+coraReturn(co, _3513327_37);
 return;
 }
 case 4:
 {
-Obj _3513326_37= co->res;
+Obj _3513323_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513326_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513323_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
 return;
 }
 }
@@ -833,132 +833,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512522_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513265_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513265_37) {
-Obj _3513266_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513267_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513266_37);
-if (True == _3513267_37) {
-Obj _3513268_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512519_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513262_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513262_37) {
+Obj _3513263_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513264_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513263_37);
+if (True == _3513264_37) {
+Obj _3513265_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513266_37 = PRIM_ISCONS(_3513265_37);
+if (True == _3513266_37) {
+Obj _3513267_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513268_37 = PRIM_CAR(_3513267_37);
 Obj _3513269_37 = PRIM_ISCONS(_3513268_37);
 if (True == _3513269_37) {
 Obj _3513270_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513271_37 = PRIM_CAR(_3513270_37);
-Obj _3513272_37 = PRIM_ISCONS(_3513271_37);
-if (True == _3513272_37) {
-Obj _3513273_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513274_37 = PRIM_CAR(_3513273_37);
+Obj _3513272_37 = PRIM_CAR(_3513271_37);
+Obj _3513273_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513272_37);
+if (True == _3513273_37) {
+Obj _3513274_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513275_37 = PRIM_CAR(_3513274_37);
-Obj _3513276_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513275_37);
-if (True == _3513276_37) {
-Obj _3513277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513278_37 = PRIM_CAR(_3513277_37);
-Obj _3513279_37 = PRIM_CDR(_3513278_37);
-Obj _3513280_37 = PRIM_ISCONS(_3513279_37);
-if (True == _3513280_37) {
-Obj _3513281_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513282_37 = PRIM_CAR(_3513281_37);
-Obj _3513283_37 = PRIM_CDR(_3513282_37);
-Obj _3513284_37 = PRIM_CAR(_3513283_37);
-Obj pkg = _3513284_37;
-Obj _3513285_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513286_37 = PRIM_CAR(_3513285_37);
-Obj _3513287_37 = PRIM_CDR(_3513286_37);
+Obj _3513276_37 = PRIM_CDR(_3513275_37);
+Obj _3513277_37 = PRIM_ISCONS(_3513276_37);
+if (True == _3513277_37) {
+Obj _3513278_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513279_37 = PRIM_CAR(_3513278_37);
+Obj _3513280_37 = PRIM_CDR(_3513279_37);
+Obj _3513281_37 = PRIM_CAR(_3513280_37);
+Obj pkg = _3513281_37;
+Obj _3513282_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513283_37 = PRIM_CAR(_3513282_37);
+Obj _3513284_37 = PRIM_CDR(_3513283_37);
+Obj _3513285_37 = PRIM_CDR(_3513284_37);
+Obj _3513286_37 = PRIM_EQ(Nil, _3513285_37);
+if (True == _3513286_37) {
+Obj _3513287_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513288_37 = PRIM_CDR(_3513287_37);
-Obj _3513289_37 = PRIM_EQ(Nil, _3513288_37);
+Obj _3513289_37 = PRIM_ISCONS(_3513288_37);
 if (True == _3513289_37) {
 Obj _3513290_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513291_37 = PRIM_CDR(_3513290_37);
-Obj _3513292_37 = PRIM_ISCONS(_3513291_37);
-if (True == _3513292_37) {
+Obj _3513292_37 = PRIM_CAR(_3513291_37);
+Obj y = _3513292_37;
 Obj _3513293_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513294_37 = PRIM_CDR(_3513293_37);
-Obj _3513295_37 = PRIM_CAR(_3513294_37);
-Obj y = _3513295_37;
-Obj _3513296_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513297_37 = PRIM_CDR(_3513296_37);
-Obj _3513298_37 = PRIM_CDR(_3513297_37);
-Obj _3513299_37 = PRIM_EQ(Nil, _3513298_37);
-if (True == _3513299_37) {
-Obj _3513300_37 = primIsString(pkg);
-if (True == _3513300_37) {
-Obj _3513301_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513301_37);
+Obj _3513295_37 = PRIM_CDR(_3513294_37);
+Obj _3513296_37 = PRIM_EQ(Nil, _3513295_37);
+if (True == _3513296_37) {
+Obj _3513297_37 = primIsString(pkg);
+if (True == _3513297_37) {
+Obj _3513298_37 = makeCons(co->gc, pkg, Nil);
+Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513298_37);
 R[1] = pkg;
 R[2] = y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513302_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513299_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, _3512519_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513305_37= co->res;
-Obj _3513303_37 = R[1];
-Obj _3513306_37 = makeCons(co->gc, _3513305_37, Nil);
-Obj _3513307_37 = makeCons(co->gc, _3513303_37, _3513306_37);
-Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513307_37);
-coraReturn(co, _3513308_37);
+Obj _3513302_37= co->res;
+Obj _3513300_37 = R[1];
+Obj _3513303_37 = makeCons(co->gc, _3513302_37, Nil);
+Obj _3513304_37 = makeCons(co->gc, _3513300_37, _3513303_37);
+Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513304_37);
+coraReturn(co, _3513305_37);
 return;
 }
 case 2:
 {
-Obj _3513303_37= co->res;
+Obj _3513300_37= co->res;
 Obj pkg = R[1];
 Obj y = R[2];
-Obj _3513304_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513303_37;
+Obj _3513301_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
+R[1] = _3513300_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513304_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513301_37, y);
 return;
 }
 }
@@ -968,34 +968,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512523_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513257_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513257_37) {
-Obj _3513258_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513258_37;
-Obj _3513259_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513259_37;
-Obj _3512540_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512523_37);
-Obj _3513263_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
-if (True == _3513263_37) {
+Obj _3512520_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513254_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513254_37) {
+Obj _3513255_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3513255_37;
+Obj _3513256_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3513256_37;
+Obj _3512537_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512520_37);
+Obj _3513260_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
+if (True == _3513260_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512540_37, True);
+coraCall1(co, _3512537_37, True);
 return;
 } else {
-Obj _3513264_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
-if (True == _3513264_37) {
+Obj _3513261_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
+if (True == _3513261_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512540_37, True);
+coraCall1(co, _3512537_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512540_37, False);
+coraCall1(co, _3512537_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512523_37);
+coraCall0(co, _3512520_37);
 return;
 }
 }
@@ -1006,8 +1006,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512541_37 = R[1];
-if (True == _3512541_37) {
+Obj _3512538_37 = R[1];
+if (True == _3512538_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1019,16 +1019,16 @@ return;
 }
 case 1:
 {
-Obj _3513261_37= co->res;
-Obj _3513262_37 = makeCons(co->gc, closureRef(R[0], 0), _3513261_37);
-coraReturn(co, _3513262_37);
+Obj _3513258_37= co->res;
+Obj _3513259_37 = makeCons(co->gc, closureRef(R[0], 0), _3513258_37);
+coraReturn(co, _3513259_37);
 return;
 }
 case 2:
 {
-Obj _3513260_37= co->res;
+Obj _3513257_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513260_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513257_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1038,42 +1038,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512524_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513224_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513224_37) {
-Obj _3513225_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513226_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513225_37);
-if (True == _3513226_37) {
-Obj _3513227_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513228_37 = PRIM_ISCONS(_3513227_37);
-if (True == _3513228_37) {
-Obj _3513229_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513230_37 = PRIM_CAR(_3513229_37);
-Obj a = _3513230_37;
+Obj _3512521_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513221_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513221_37) {
+Obj _3513222_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513223_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513222_37);
+if (True == _3513223_37) {
+Obj _3513224_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513225_37 = PRIM_ISCONS(_3513224_37);
+if (True == _3513225_37) {
+Obj _3513226_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513227_37 = PRIM_CAR(_3513226_37);
+Obj a = _3513227_37;
+Obj _3513228_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513229_37 = PRIM_CDR(_3513228_37);
+Obj _3513230_37 = PRIM_ISCONS(_3513229_37);
+if (True == _3513230_37) {
 Obj _3513231_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513232_37 = PRIM_CDR(_3513231_37);
-Obj _3513233_37 = PRIM_ISCONS(_3513232_37);
-if (True == _3513233_37) {
+Obj _3513233_37 = PRIM_CAR(_3513232_37);
+Obj b = _3513233_37;
 Obj _3513234_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513235_37 = PRIM_CDR(_3513234_37);
-Obj _3513236_37 = PRIM_CAR(_3513235_37);
-Obj b = _3513236_37;
-Obj _3513237_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513238_37 = PRIM_CDR(_3513237_37);
+Obj _3513236_37 = PRIM_CDR(_3513235_37);
+Obj _3513237_37 = PRIM_ISCONS(_3513236_37);
+if (True == _3513237_37) {
+Obj _3513238_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513239_37 = PRIM_CDR(_3513238_37);
-Obj _3513240_37 = PRIM_ISCONS(_3513239_37);
-if (True == _3513240_37) {
-Obj _3513241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513242_37 = PRIM_CDR(_3513241_37);
+Obj _3513240_37 = PRIM_CDR(_3513239_37);
+Obj _3513241_37 = PRIM_CAR(_3513240_37);
+Obj c = _3513241_37;
+Obj _3513242_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513243_37 = PRIM_CDR(_3513242_37);
-Obj _3513244_37 = PRIM_CAR(_3513243_37);
-Obj c = _3513244_37;
-Obj _3513245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513246_37 = PRIM_CDR(_3513245_37);
-Obj _3513247_37 = PRIM_CDR(_3513246_37);
-Obj _3513248_37 = PRIM_CDR(_3513247_37);
-Obj _3513249_37 = PRIM_EQ(Nil, _3513248_37);
-if (True == _3513249_37) {
+Obj _3513244_37 = PRIM_CDR(_3513243_37);
+Obj _3513245_37 = PRIM_CDR(_3513244_37);
+Obj _3513246_37 = PRIM_EQ(Nil, _3513245_37);
+if (True == _3513246_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun88, 2, R);
@@ -1081,57 +1081,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512524_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512524_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512524_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512524_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512524_37);
+coraCall0(co, _3512521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512524_37);
+coraCall0(co, _3512521_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513252_37= co->res;
-Obj _3513250_37 = R[1];
+Obj _3513249_37= co->res;
+Obj _3513247_37 = R[1];
 Obj a = R[2];
-Obj _3513253_37 = makeCons(co->gc, _3513252_37, Nil);
-Obj _3513254_37 = makeCons(co->gc, _3513250_37, _3513253_37);
-Obj _3513255_37 = makeCons(co->gc, a, _3513254_37);
-Obj _3513256_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513255_37);
-coraReturn(co, _3513256_37);
+Obj _3513250_37 = makeCons(co->gc, _3513249_37, Nil);
+Obj _3513251_37 = makeCons(co->gc, _3513247_37, _3513250_37);
+Obj _3513252_37 = makeCons(co->gc, a, _3513251_37);
+Obj _3513253_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513252_37);
+coraReturn(co, _3513253_37);
 return;
 }
 case 2:
 {
-Obj _3513250_37= co->res;
+Obj _3513247_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3513251_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513250_37;
+Obj _3513248_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3513247_37;
 R[2] = a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513251_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513248_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
 return;
 }
 }
@@ -1141,73 +1141,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512525_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513198_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513198_37) {
-Obj _3513199_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513200_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513199_37);
-if (True == _3513200_37) {
-Obj _3513201_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513202_37 = PRIM_ISCONS(_3513201_37);
-if (True == _3513202_37) {
-Obj _3513203_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513204_37 = PRIM_CAR(_3513203_37);
-Obj path = _3513204_37;
+Obj _3512522_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513195_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3513195_37) {
+Obj _3513196_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3513197_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513196_37);
+if (True == _3513197_37) {
+Obj _3513198_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513199_37 = PRIM_ISCONS(_3513198_37);
+if (True == _3513199_37) {
+Obj _3513200_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513201_37 = PRIM_CAR(_3513200_37);
+Obj path = _3513201_37;
+Obj _3513202_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513203_37 = PRIM_CDR(_3513202_37);
+Obj _3513204_37 = PRIM_ISCONS(_3513203_37);
+if (True == _3513204_37) {
 Obj _3513205_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3513206_37 = PRIM_CDR(_3513205_37);
-Obj _3513207_37 = PRIM_ISCONS(_3513206_37);
-if (True == _3513207_37) {
+Obj _3513207_37 = PRIM_CAR(_3513206_37);
+Obj import = _3513207_37;
 Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3513209_37 = PRIM_CDR(_3513208_37);
-Obj _3513210_37 = PRIM_CAR(_3513209_37);
-Obj import = _3513210_37;
-Obj _3513211_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513212_37 = PRIM_CDR(_3513211_37);
+Obj _3513210_37 = PRIM_CDR(_3513209_37);
+Obj _3513211_37 = PRIM_ISCONS(_3513210_37);
+if (True == _3513211_37) {
+Obj _3513212_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3513213_37 = PRIM_CDR(_3513212_37);
-Obj _3513214_37 = PRIM_ISCONS(_3513213_37);
-if (True == _3513214_37) {
-Obj _3513215_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513216_37 = PRIM_CDR(_3513215_37);
+Obj _3513214_37 = PRIM_CDR(_3513213_37);
+Obj _3513215_37 = PRIM_CAR(_3513214_37);
+Obj body = _3513215_37;
+Obj _3513216_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3513217_37 = PRIM_CDR(_3513216_37);
-Obj _3513218_37 = PRIM_CAR(_3513217_37);
-Obj body = _3513218_37;
-Obj _3513219_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513220_37 = PRIM_CDR(_3513219_37);
-Obj _3513221_37 = PRIM_CDR(_3513220_37);
-Obj _3513222_37 = PRIM_CDR(_3513221_37);
-Obj _3513223_37 = PRIM_EQ(Nil, _3513222_37);
-if (True == _3513223_37) {
+Obj _3513218_37 = PRIM_CDR(_3513217_37);
+Obj _3513219_37 = PRIM_CDR(_3513218_37);
+Obj _3513220_37 = PRIM_EQ(Nil, _3513219_37);
+if (True == _3513220_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), path, import, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512525_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512525_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512525_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512525_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512525_37);
+coraCall0(co, _3512522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512525_37);
+coraCall0(co, _3512522_37);
 return;
 }
 }
@@ -1218,79 +1218,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512526_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513174_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513174_37) {
-Obj _3513175_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513176_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513175_37);
-if (True == _3513176_37) {
-Obj _3513177_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513178_37 = PRIM_ISCONS(_3513177_37);
-if (True == _3513178_37) {
-Obj _3513179_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513180_37 = PRIM_CAR(_3513179_37);
-Obj var = _3513180_37;
+Obj _3512523_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj _3513171_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513171_37) {
+Obj _3513172_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513173_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513172_37);
+if (True == _3513173_37) {
+Obj _3513174_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513175_37 = PRIM_ISCONS(_3513174_37);
+if (True == _3513175_37) {
+Obj _3513176_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513177_37 = PRIM_CAR(_3513176_37);
+Obj var = _3513177_37;
+Obj _3513178_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513179_37 = PRIM_CDR(_3513178_37);
+Obj _3513180_37 = PRIM_ISCONS(_3513179_37);
+if (True == _3513180_37) {
 Obj _3513181_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513182_37 = PRIM_CDR(_3513181_37);
-Obj _3513183_37 = PRIM_ISCONS(_3513182_37);
-if (True == _3513183_37) {
+Obj _3513183_37 = PRIM_CAR(_3513182_37);
+Obj val = _3513183_37;
 Obj _3513184_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513185_37 = PRIM_CDR(_3513184_37);
-Obj _3513186_37 = PRIM_CAR(_3513185_37);
-Obj val = _3513186_37;
-Obj _3513187_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513188_37 = PRIM_CDR(_3513187_37);
-Obj _3513189_37 = PRIM_CDR(_3513188_37);
-Obj _3513190_37 = PRIM_EQ(Nil, _3513189_37);
-if (True == _3513190_37) {
+Obj _3513186_37 = PRIM_CDR(_3513185_37);
+Obj _3513187_37 = PRIM_EQ(Nil, _3513186_37);
+if (True == _3513187_37) {
 R[1] = val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512526_37);
+coraCall0(co, _3512523_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512526_37);
+coraCall0(co, _3512523_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512526_37);
+coraCall0(co, _3512523_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512526_37);
+coraCall0(co, _3512523_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512526_37);
+coraCall0(co, _3512523_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513194_37= co->res;
-Obj _3513193_37 = R[1];
-Obj _3513195_37 = makeCons(co->gc, _3513194_37, Nil);
-Obj _3513196_37 = makeCons(co->gc, _3513193_37, _3513195_37);
-Obj _3513197_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513196_37);
-coraReturn(co, _3513197_37);
+Obj _3513191_37= co->res;
+Obj _3513190_37 = R[1];
+Obj _3513192_37 = makeCons(co->gc, _3513191_37, Nil);
+Obj _3513193_37 = makeCons(co->gc, _3513190_37, _3513192_37);
+Obj _3513194_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513193_37);
+coraReturn(co, _3513194_37);
 return;
 }
 case 2:
 {
-Obj _3513191_37= co->res;
+Obj _3513188_37= co->res;
 Obj val = R[1];
-Obj var1 = _3513191_37;
-Obj _3513192_37 = makeCons(co->gc, var1, Nil);
-Obj _3513193_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513192_37);
-R[1] = _3513193_37;
+Obj var1 = _3513188_37;
+Obj _3513189_37 = makeCons(co->gc, var1, Nil);
+Obj _3513190_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513189_37);
+R[1] = _3513190_37;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
 return;
@@ -1308,9 +1308,9 @@ return;
 }
 case 1:
 {
-Obj _3513173_37= co->res;
+Obj _3513170_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513173_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513170_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1327,16 +1327,16 @@ return;
 }
 case 1:
 {
-Obj _3513167_37= co->res;
-Obj _3513168_37 = primNot(_3513167_37);
-coraReturn(co, _3513168_37);
+Obj _3513164_37= co->res;
+Obj _3513165_37 = primNot(_3513164_37);
+coraReturn(co, _3513165_37);
 return;
 }
 case 2:
 {
-Obj _3513166_37= co->res;
+Obj _3513163_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513166_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513163_37);
 return;
 }
 }
@@ -1346,44 +1346,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512509_37 = R[1];
-Obj _3512510_37 = R[2];
-Obj _3513151_37 = PRIM_EQ(Nil, _3512510_37);
-if (True == _3513151_37) {
+Obj _3512506_37 = R[1];
+Obj _3512507_37 = R[2];
+Obj _3513148_37 = PRIM_EQ(Nil, _3512507_37);
+if (True == _3513148_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512512_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512510_37, _3512509_37);
-Obj _3513155_37 = PRIM_ISCONS(_3512510_37);
-if (True == _3513155_37) {
-Obj _3513156_37 = PRIM_CAR(_3512510_37);
-Obj _3513157_37 = PRIM_ISCONS(_3513156_37);
-if (True == _3513157_37) {
-Obj _3513158_37 = PRIM_CAR(_3512510_37);
-Obj _3513159_37 = PRIM_CAR(_3513158_37);
-Obj x = _3513159_37;
-Obj _3513160_37 = PRIM_CAR(_3512510_37);
-Obj _3513161_37 = PRIM_CDR(_3513160_37);
-Obj y = _3513161_37;
-Obj _3513162_37 = PRIM_CDR(_3512510_37);
-Obj _3513163_37 = PRIM_EQ(_3512509_37, x);
-if (True == _3513163_37) {
-Obj _3513164_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513164_37);
+Obj _3512509_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512507_37, _3512506_37);
+Obj _3513152_37 = PRIM_ISCONS(_3512507_37);
+if (True == _3513152_37) {
+Obj _3513153_37 = PRIM_CAR(_3512507_37);
+Obj _3513154_37 = PRIM_ISCONS(_3513153_37);
+if (True == _3513154_37) {
+Obj _3513155_37 = PRIM_CAR(_3512507_37);
+Obj _3513156_37 = PRIM_CAR(_3513155_37);
+Obj x = _3513156_37;
+Obj _3513157_37 = PRIM_CAR(_3512507_37);
+Obj _3513158_37 = PRIM_CDR(_3513157_37);
+Obj y = _3513158_37;
+Obj _3513159_37 = PRIM_CDR(_3512507_37);
+Obj _3513160_37 = PRIM_EQ(_3512506_37, x);
+if (True == _3513160_37) {
+Obj _3513161_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3513161_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512512_37);
+coraCall0(co, _3512509_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512512_37);
+coraCall0(co, _3512509_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512512_37);
+coraCall0(co, _3512509_37);
 return;
 }
 }
@@ -1395,11 +1395,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513152_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513152_37) {
-Obj _3513153_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513154_37;
+Obj _3513149_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513149_37) {
+Obj _3513150_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513151_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3513151_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), y);
 return;
@@ -1416,24 +1416,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512504_37 = R[1];
-Obj _3512505_37 = R[2];
-Obj _3512506_37 = R[3];
-Obj _3513070_37 = PRIM_EQ(Nil, _3512506_37);
-if (True == _3513070_37) {
+Obj _3512501_37 = R[1];
+Obj _3512502_37 = R[2];
+Obj _3512503_37 = R[3];
+Obj _3513067_37 = PRIM_EQ(Nil, _3512503_37);
+if (True == _3513067_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512504_37, _3512505_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512501_37, _3512502_37);
 return;
 } else {
-Obj _3513071_37 = PRIM_ISCONS(_3512506_37);
-if (True == _3513071_37) {
-Obj _3513072_37 = PRIM_CAR(_3512506_37);
-Obj import = _3513072_37;
-Obj _3513073_37 = PRIM_CDR(_3512506_37);
-Obj more = _3513073_37;
+Obj _3513068_37 = PRIM_ISCONS(_3512503_37);
+if (True == _3513068_37) {
+Obj _3513069_37 = PRIM_CAR(_3512503_37);
+Obj import = _3513069_37;
+Obj _3513070_37 = PRIM_CDR(_3512503_37);
+Obj more = _3513070_37;
 R[1] = import;
-R[2] = _3512504_37;
-R[3] = _3512505_37;
+R[2] = _3512501_37;
+R[3] = _3512502_37;
 R[4] = more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, makeCString(co->gc, "#*ns-export*"));
@@ -1447,90 +1447,90 @@ return;
 }
 case 1:
 {
-Obj _3513080_37= co->res;
+Obj _3513077_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513080_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513077_37);
 return;
 }
 case 2:
 {
-Obj _3513079_37= co->res;
+Obj _3513076_37= co->res;
 Obj import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513079_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513076_37);
 return;
 }
 case 3:
 {
-Obj _3513078_37= co->res;
+Obj _3513075_37= co->res;
 Obj import = R[1];
 R[1] = import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513078_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513075_37);
 return;
 }
 case 4:
 {
-Obj _3513077_37= co->res;
+Obj _3513074_37= co->res;
 Obj import = R[1];
-Obj _3512504_37 = R[2];
-Obj _3512505_37 = R[3];
+Obj _3512501_37 = R[2];
+Obj _3512502_37 = R[3];
 Obj more = R[4];
-if (True == _3513077_37) {
+if (True == _3513074_37) {
 R[1] = import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512504_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512501_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512504_37, _3512505_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512501_37, _3512502_37, more);
 return;
 }
 }
 case 5:
 {
-Obj _3513076_37= co->res;
+Obj _3513073_37= co->res;
 Obj import = R[1];
-Obj _3512504_37 = R[2];
-Obj _3512505_37 = R[3];
+Obj _3512501_37 = R[2];
+Obj _3512502_37 = R[3];
 Obj more = R[4];
-Obj export = _3513076_37;
+Obj export = _3513073_37;
 R[1] = import;
-R[2] = _3512504_37;
-R[3] = _3512505_37;
+R[2] = _3512501_37;
+R[3] = _3512502_37;
 R[4] = more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512504_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512501_37, export);
 return;
 }
 case 6:
 {
-Obj _3513075_37= co->res;
+Obj _3513072_37= co->res;
 Obj import = R[1];
-Obj _3512504_37 = R[2];
-Obj _3512505_37 = R[3];
+Obj _3512501_37 = R[2];
+Obj _3512502_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512504_37;
-R[3] = _3512505_37;
+R[2] = _3512501_37;
+R[3] = _3512502_37;
 R[4] = more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513075_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513072_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3513074_37= co->res;
+Obj _3513071_37= co->res;
 Obj import = R[1];
-Obj _3512504_37 = R[2];
-Obj _3512505_37 = R[3];
+Obj _3512501_37 = R[2];
+Obj _3512502_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512504_37;
-R[3] = _3512505_37;
+R[2] = _3512501_37;
+R[3] = _3512502_37;
 R[4] = more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513074_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513071_37);
 return;
 }
 }
@@ -1542,8 +1542,8 @@ case 0:
 {
 Obj var = R[1];
 Obj ns = R[2];
-Obj _3513064_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3513064_37) {
+Obj _3513061_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
+if (True == _3513061_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1556,34 +1556,34 @@ return;
 }
 case 1:
 {
-Obj _3513068_37= co->res;
+Obj _3513065_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513068_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513065_37);
 return;
 }
 case 2:
 {
-Obj _3513067_37= co->res;
+Obj _3513064_37= co->res;
 Obj ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513067_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513064_37);
 return;
 }
 case 3:
 {
-Obj _3513066_37= co->res;
+Obj _3513063_37= co->res;
 Obj ns = R[1];
 R[1] = ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513066_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513063_37);
 return;
 }
 case 4:
 {
-Obj _3513065_37= co->res;
+Obj _3513062_37= co->res;
 Obj var = R[1];
 Obj ns = R[2];
-if (True == _3513065_37) {
+if (True == _3513062_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1608,26 +1608,26 @@ return;
 }
 case 1:
 {
-Obj _3513046_37= co->res;
+Obj _3513043_37= co->res;
 Obj path = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3513046_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, _3513043_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
 return;
 }
 case 2:
 {
-Obj _3513045_37= co->res;
+Obj _3513042_37= co->res;
 Obj path = R[1];
 R[1] = path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3513045_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3513042_37);
 return;
 }
 case 3:
 {
-Obj _3513044_37= co->res;
+Obj _3513041_37= co->res;
 Obj sexp = R[1];
-Obj path = _3513044_37;
+Obj path = _3513041_37;
 R[1] = path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
@@ -1643,41 +1643,41 @@ case 0:
 Obj import = R[1];
 Obj export = R[2];
 Obj body = R[3];
-Obj _3513047_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
+Obj _3513044_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
 R[1] = export;
 R[2] = body;
-R[3] = _3513047_37;
+R[3] = _3513044_37;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
 return;
 }
 case 1:
 {
-Obj _3513057_37= co->res;
-Obj _3513047_37 = R[1];
-Obj _3513058_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3513057_37);
-Obj _3513059_37 = makeCons(co->gc, _3513058_37, Nil);
-Obj _3513060_37 = makeCons(co->gc, _3513047_37, _3513059_37);
-Obj _3513061_37 = makeCons(co->gc, closureRef(R[0], 0), _3513060_37);
-Obj _3513062_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513061_37);
-coraReturn(co, _3513062_37);
+Obj _3513054_37= co->res;
+Obj _3513044_37 = R[1];
+Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3513054_37);
+Obj _3513056_37 = makeCons(co->gc, _3513055_37, Nil);
+Obj _3513057_37 = makeCons(co->gc, _3513044_37, _3513056_37);
+Obj _3513058_37 = makeCons(co->gc, closureRef(R[0], 0), _3513057_37);
+Obj _3513059_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513058_37);
+coraReturn(co, _3513059_37);
 return;
 }
 case 2:
 {
-Obj _3513050_37= co->res;
+Obj _3513047_37= co->res;
 Obj export = R[1];
 Obj body = R[2];
-Obj _3513047_37 = R[3];
-Obj _3513051_37 = makeCons(co->gc, export, Nil);
-Obj _3513052_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3513051_37);
-Obj _3513053_37 = makeCons(co->gc, _3513052_37, Nil);
-Obj _3513054_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513053_37);
-Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513054_37);
-Obj _3513056_37 = makeCons(co->gc, _3513055_37, body);
-R[1] = _3513047_37;
+Obj _3513044_37 = R[3];
+Obj _3513048_37 = makeCons(co->gc, export, Nil);
+Obj _3513049_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3513048_37);
+Obj _3513050_37 = makeCons(co->gc, _3513049_37, Nil);
+Obj _3513051_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513050_37);
+Obj _3513052_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513051_37);
+Obj _3513053_37 = makeCons(co->gc, _3513052_37, body);
+R[1] = _3513044_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513050_37, _3513056_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513047_37, _3513053_37);
 return;
 }
 }
@@ -1688,9 +1688,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj imp = R[1];
-Obj _3513048_37 = makeCons(co->gc, imp, Nil);
-Obj _3513049_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513048_37);
-coraReturn(co, _3513049_37);
+Obj _3513045_37 = makeCons(co->gc, imp, Nil);
+Obj _3513046_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513045_37);
+coraReturn(co, _3513046_37);
 return;
 }
 }
@@ -1713,62 +1713,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512497_37 = R[1];
-Obj _3512498_37 = R[2];
-Obj _3512499_37 = R[3];
-Obj _3512500_37 = R[4];
-Obj _3512501_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512499_37, _3512497_37, _3512498_37, _3512500_37);
-Obj _3513024_37 = PRIM_ISCONS(_3512497_37);
-if (True == _3513024_37) {
-Obj _3513025_37 = PRIM_CAR(_3512497_37);
-Obj _3513026_37 = PRIM_ISCONS(_3513025_37);
+Obj _3512494_37 = R[1];
+Obj _3512495_37 = R[2];
+Obj _3512496_37 = R[3];
+Obj _3512497_37 = R[4];
+Obj _3512498_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512496_37, _3512494_37, _3512495_37, _3512497_37);
+Obj _3513021_37 = PRIM_ISCONS(_3512494_37);
+if (True == _3513021_37) {
+Obj _3513022_37 = PRIM_CAR(_3512494_37);
+Obj _3513023_37 = PRIM_ISCONS(_3513022_37);
+if (True == _3513023_37) {
+Obj _3513024_37 = PRIM_CAR(_3512494_37);
+Obj _3513025_37 = PRIM_CAR(_3513024_37);
+Obj _3513026_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513025_37);
 if (True == _3513026_37) {
-Obj _3513027_37 = PRIM_CAR(_3512497_37);
-Obj _3513028_37 = PRIM_CAR(_3513027_37);
-Obj _3513029_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513028_37);
+Obj _3513027_37 = PRIM_CAR(_3512494_37);
+Obj _3513028_37 = PRIM_CDR(_3513027_37);
+Obj _3513029_37 = PRIM_ISCONS(_3513028_37);
 if (True == _3513029_37) {
-Obj _3513030_37 = PRIM_CAR(_3512497_37);
+Obj _3513030_37 = PRIM_CAR(_3512494_37);
 Obj _3513031_37 = PRIM_CDR(_3513030_37);
-Obj _3513032_37 = PRIM_ISCONS(_3513031_37);
-if (True == _3513032_37) {
-Obj _3513033_37 = PRIM_CAR(_3512497_37);
+Obj _3513032_37 = PRIM_CAR(_3513031_37);
+Obj lib = _3513032_37;
+Obj _3513033_37 = PRIM_CAR(_3512494_37);
 Obj _3513034_37 = PRIM_CDR(_3513033_37);
-Obj _3513035_37 = PRIM_CAR(_3513034_37);
-Obj lib = _3513035_37;
-Obj _3513036_37 = PRIM_CAR(_3512497_37);
-Obj _3513037_37 = PRIM_CDR(_3513036_37);
-Obj _3513038_37 = PRIM_CDR(_3513037_37);
-Obj _3513039_37 = PRIM_EQ(Nil, _3513038_37);
-if (True == _3513039_37) {
-Obj _3513040_37 = PRIM_CDR(_3512497_37);
-Obj rest = _3513040_37;
-Obj _3513041_37 = makeCons(co->gc, lib, _3512498_37);
+Obj _3513035_37 = PRIM_CDR(_3513034_37);
+Obj _3513036_37 = PRIM_EQ(Nil, _3513035_37);
+if (True == _3513036_37) {
+Obj _3513037_37 = PRIM_CDR(_3512494_37);
+Obj rest = _3513037_37;
+Obj _3513038_37 = makeCons(co->gc, lib, _3512495_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3513041_37, _3512499_37, _3512500_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3513038_37, _3512496_37, _3512497_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512501_37);
+coraCall0(co, _3512498_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512501_37);
+coraCall0(co, _3512498_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512501_37);
+coraCall0(co, _3512498_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512501_37);
+coraCall0(co, _3512498_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512501_37);
+coraCall0(co, _3512498_37);
 return;
 }
 }
@@ -1779,37 +1779,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512502_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513015_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3513015_37) {
-Obj _3513016_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513017_37 = PRIM_ISCONS(_3513016_37);
+Obj _3512499_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513012_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3513012_37) {
+Obj _3513013_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513014_37 = PRIM_ISCONS(_3513013_37);
+if (True == _3513014_37) {
+Obj _3513015_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513016_37 = PRIM_CAR(_3513015_37);
+Obj _3513017_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3513016_37);
 if (True == _3513017_37) {
 Obj _3513018_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513019_37 = PRIM_CAR(_3513018_37);
-Obj _3513020_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3513019_37);
-if (True == _3513020_37) {
-Obj _3513021_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513022_37 = PRIM_CDR(_3513021_37);
-Obj more = _3513022_37;
-Obj _3513023_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3513023_37;
+Obj _3513019_37 = PRIM_CDR(_3513018_37);
+Obj more = _3513019_37;
+Obj _3513020_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj rest = _3513020_37;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512502_37);
+coraCall0(co, _3512499_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512502_37);
+coraCall0(co, _3512499_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512502_37);
+coraCall0(co, _3512499_37);
 return;
 }
 }
@@ -1826,9 +1826,9 @@ return;
 }
 case 1:
 {
-Obj _3513014_37= co->res;
+Obj _3513011_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3513014_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), _3513011_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1846,17 +1846,17 @@ return;
 }
 case 1:
 {
-Obj _3513012_37= co->res;
-Obj _3513011_37 = R[1];
+Obj _3513009_37= co->res;
+Obj _3513008_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3513011_37, _3513012_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3513008_37, _3513009_37);
 return;
 }
 case 2:
 {
-Obj _3513011_37= co->res;
+Obj _3513008_37= co->res;
 Obj exp = R[1];
-R[1] = _3513011_37;
+R[1] = _3513008_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
@@ -1878,57 +1878,57 @@ return;
 }
 case 1:
 {
-Obj _3513000_37= co->res;
-Obj _3512999_37 = R[1];
+Obj _3512997_37= co->res;
+Obj _3512996_37 = R[1];
 Obj fn = R[2];
-Obj _3513001_37 = makeCons(co->gc, _3513000_37, Nil);
-Obj _3513002_37 = makeCons(co->gc, _3512999_37, _3513001_37);
-Obj _3513003_37 = makeCons(co->gc, fn, _3513002_37);
-coraReturn(co, _3513003_37);
+Obj _3512998_37 = makeCons(co->gc, _3512997_37, Nil);
+Obj _3512999_37 = makeCons(co->gc, _3512996_37, _3512998_37);
+Obj _3513000_37 = makeCons(co->gc, fn, _3512999_37);
+coraReturn(co, _3513000_37);
 return;
 }
 case 2:
 {
-Obj _3513006_37= co->res;
-Obj _3513004_37 = R[1];
+Obj _3513003_37= co->res;
+Obj _3513001_37 = R[1];
 Obj fn = R[2];
-Obj _3513007_37 = makeCons(co->gc, _3513006_37, Nil);
-Obj _3513008_37 = makeCons(co->gc, _3513004_37, _3513007_37);
-Obj _3513009_37 = makeCons(co->gc, fn, _3513008_37);
-coraReturn(co, _3513009_37);
+Obj _3513004_37 = makeCons(co->gc, _3513003_37, Nil);
+Obj _3513005_37 = makeCons(co->gc, _3513001_37, _3513004_37);
+Obj _3513006_37 = makeCons(co->gc, fn, _3513005_37);
+coraReturn(co, _3513006_37);
 return;
 }
 case 3:
 {
-Obj _3512998_37= co->res;
+Obj _3512995_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
-if (True == _3512998_37) {
-Obj _3512999_37 = PRIM_CAR(arglist);
-R[1] = _3512999_37;
+if (True == _3512995_37) {
+Obj _3512996_37 = PRIM_CAR(arglist);
+R[1] = _3512996_37;
 R[2] = fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
 return;
 } else {
-Obj _3513004_37 = PRIM_CAR(arglist);
-Obj _3513005_37 = PRIM_CDR(arglist);
-R[1] = _3513004_37;
+Obj _3513001_37 = PRIM_CAR(arglist);
+Obj _3513002_37 = PRIM_CDR(arglist);
+R[1] = _3513001_37;
 R[2] = fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3513005_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3513002_37);
 return;
 }
 }
 case 4:
 {
-Obj _3512997_37= co->res;
+Obj _3512994_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
 R[1] = arglist;
 R[2] = fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512997_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512994_37);
 return;
 }
 }
@@ -1945,9 +1945,9 @@ return;
 }
 case 1:
 {
-Obj _3512995_37= co->res;
+Obj _3512992_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512995_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512992_37);
 return;
 }
 }
@@ -1957,50 +1957,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512492_37 = R[1];
-Obj _3512975_37 = primIsSymbol(_3512492_37);
-if (True == _3512975_37) {
-Obj _3512976_37 = makeCons(co->gc, _3512492_37, Nil);
-Obj _3512977_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512976_37);
-coraReturn(co, _3512977_37);
-return;
-} else {
-Obj _3512494_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512492_37);
-Obj _3512984_37 = PRIM_ISCONS(_3512492_37);
-if (True == _3512984_37) {
-Obj _3512985_37 = PRIM_CAR(_3512492_37);
-Obj _3512986_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512985_37);
-if (True == _3512986_37) {
-Obj _3512987_37 = PRIM_CDR(_3512492_37);
-Obj _3512988_37 = PRIM_ISCONS(_3512987_37);
-if (True == _3512988_37) {
-Obj _3512989_37 = PRIM_CDR(_3512492_37);
-Obj _3512990_37 = PRIM_CAR(_3512989_37);
-Obj x = _3512990_37;
-Obj _3512991_37 = PRIM_CDR(_3512492_37);
-Obj _3512992_37 = PRIM_CDR(_3512991_37);
-Obj _3512993_37 = PRIM_EQ(Nil, _3512992_37);
-if (True == _3512993_37) {
+Obj _3512489_37 = R[1];
+Obj _3512972_37 = primIsSymbol(_3512489_37);
+if (True == _3512972_37) {
+Obj _3512973_37 = makeCons(co->gc, _3512489_37, Nil);
+Obj _3512974_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512973_37);
+coraReturn(co, _3512974_37);
+return;
+} else {
+Obj _3512491_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512489_37);
+Obj _3512981_37 = PRIM_ISCONS(_3512489_37);
+if (True == _3512981_37) {
+Obj _3512982_37 = PRIM_CAR(_3512489_37);
+Obj _3512983_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512982_37);
+if (True == _3512983_37) {
+Obj _3512984_37 = PRIM_CDR(_3512489_37);
+Obj _3512985_37 = PRIM_ISCONS(_3512984_37);
+if (True == _3512985_37) {
+Obj _3512986_37 = PRIM_CDR(_3512489_37);
+Obj _3512987_37 = PRIM_CAR(_3512986_37);
+Obj x = _3512987_37;
+Obj _3512988_37 = PRIM_CDR(_3512489_37);
+Obj _3512989_37 = PRIM_CDR(_3512988_37);
+Obj _3512990_37 = PRIM_EQ(Nil, _3512989_37);
+if (True == _3512990_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3512491_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3512491_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3512491_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3512491_37);
 return;
 }
 }
@@ -2012,15 +2012,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512978_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512978_37) {
-Obj _3512979_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512979_37;
-Obj _3512980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512980_37;
-Obj _3512981_37 = makeCons(co->gc, x, more);
+Obj _3512975_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512975_37) {
+Obj _3512976_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512976_37;
+Obj _3512977_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3512977_37;
+Obj _3512978_37 = makeCons(co->gc, x, more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512981_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512978_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2029,9 +2029,9 @@ return;
 }
 case 1:
 {
-Obj _3512982_37= co->res;
-Obj _3512983_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512982_37);
-coraReturn(co, _3512983_37);
+Obj _3512979_37= co->res;
+Obj _3512980_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512979_37);
+coraReturn(co, _3512980_37);
 return;
 }
 }
@@ -2042,9 +2042,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512973_37 = PRIM_CDR(exp);
+Obj _3512970_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512973_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512970_37);
 return;
 }
 }
@@ -2054,25 +2054,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512488_37 = R[1];
-Obj _3512489_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512488_37);
-Obj _3512968_37 = PRIM_ISCONS(_3512488_37);
+Obj _3512485_37 = R[1];
+Obj _3512486_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512485_37);
+Obj _3512965_37 = PRIM_ISCONS(_3512485_37);
+if (True == _3512965_37) {
+Obj _3512966_37 = PRIM_CAR(_3512485_37);
+Obj x = _3512966_37;
+Obj _3512967_37 = PRIM_CDR(_3512485_37);
+Obj _3512968_37 = PRIM_EQ(Nil, _3512967_37);
 if (True == _3512968_37) {
-Obj _3512969_37 = PRIM_CAR(_3512488_37);
-Obj x = _3512969_37;
-Obj _3512970_37 = PRIM_CDR(_3512488_37);
-Obj _3512971_37 = PRIM_EQ(Nil, _3512970_37);
-if (True == _3512971_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512489_37);
+coraCall0(co, _3512486_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512489_37);
+coraCall0(co, _3512486_37);
 return;
 }
 }
@@ -2083,39 +2083,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512490_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512956_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj _3512487_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj _3512953_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512953_37) {
+Obj _3512954_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512954_37;
+Obj _3512955_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512956_37 = PRIM_ISCONS(_3512955_37);
 if (True == _3512956_37) {
-Obj _3512957_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512957_37;
-Obj _3512958_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512959_37 = PRIM_ISCONS(_3512958_37);
-if (True == _3512959_37) {
-Obj _3512960_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512961_37 = PRIM_CAR(_3512960_37);
-Obj y = _3512961_37;
-Obj _3512962_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512963_37 = PRIM_CDR(_3512962_37);
-Obj _3512964_37 = PRIM_EQ(Nil, _3512963_37);
-if (True == _3512964_37) {
-Obj _3512965_37 = makeCons(co->gc, y, Nil);
-Obj _3512966_37 = makeCons(co->gc, x, _3512965_37);
-Obj _3512967_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512966_37);
-coraReturn(co, _3512967_37);
+Obj _3512957_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512958_37 = PRIM_CAR(_3512957_37);
+Obj y = _3512958_37;
+Obj _3512959_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512960_37 = PRIM_CDR(_3512959_37);
+Obj _3512961_37 = PRIM_EQ(Nil, _3512960_37);
+if (True == _3512961_37) {
+Obj _3512962_37 = makeCons(co->gc, y, Nil);
+Obj _3512963_37 = makeCons(co->gc, x, _3512962_37);
+Obj _3512964_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512963_37);
+coraReturn(co, _3512964_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512490_37);
+coraCall0(co, _3512487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512490_37);
+coraCall0(co, _3512487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512490_37);
+coraCall0(co, _3512487_37);
 return;
 }
 }
@@ -2126,12 +2126,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512949_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512949_37) {
-Obj _3512950_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512950_37;
-Obj _3512951_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512951_37;
+Obj _3512946_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512946_37) {
+Obj _3512947_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512947_37;
+Obj _3512948_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512948_37;
 R[1] = x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), y);
@@ -2144,12 +2144,12 @@ return;
 }
 case 1:
 {
-Obj _3512952_37= co->res;
+Obj _3512949_37= co->res;
 Obj x = R[1];
-Obj _3512953_37 = makeCons(co->gc, _3512952_37, Nil);
-Obj _3512954_37 = makeCons(co->gc, x, _3512953_37);
-Obj _3512955_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512954_37);
-coraReturn(co, _3512955_37);
+Obj _3512950_37 = makeCons(co->gc, _3512949_37, Nil);
+Obj _3512951_37 = makeCons(co->gc, x, _3512950_37);
+Obj _3512952_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512951_37);
+coraReturn(co, _3512952_37);
 return;
 }
 }
@@ -2166,16 +2166,16 @@ return;
 }
 case 1:
 {
-Obj _3512947_37= co->res;
+Obj _3512944_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512947_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512944_37);
 return;
 }
 case 2:
 {
-Obj _3512946_37= co->res;
+Obj _3512943_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512946_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512943_37);
 return;
 }
 }
@@ -2216,25 +2216,25 @@ return;
 }
 case 1:
 {
-Obj _3512935_37= co->res;
+Obj _3512932_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3512936_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
-Obj _3512937_37 = makeCons(co->gc, _3512936_37, body);
-Obj _3512938_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512937_37);
-Obj _3512939_37 = makeCons(co->gc, _3512938_37, Nil);
-Obj _3512940_37 = makeCons(co->gc, args, _3512939_37);
-Obj _3512941_37 = makeCons(co->gc, _3512935_37, _3512940_37);
-Obj _3512942_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512941_37);
-coraReturn(co, _3512942_37);
+Obj _3512933_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
+Obj _3512934_37 = makeCons(co->gc, _3512933_37, body);
+Obj _3512935_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512934_37);
+Obj _3512936_37 = makeCons(co->gc, _3512935_37, Nil);
+Obj _3512937_37 = makeCons(co->gc, args, _3512936_37);
+Obj _3512938_37 = makeCons(co->gc, _3512932_37, _3512937_37);
+Obj _3512939_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512938_37);
+coraReturn(co, _3512939_37);
 return;
 }
 case 2:
 {
-Obj _3512934_37= co->res;
+Obj _3512931_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj args = _3512934_37;
+Obj args = _3512931_37;
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun60, 1, R);
@@ -2243,10 +2243,10 @@ return;
 }
 case 3:
 {
-Obj _3512933_37= co->res;
+Obj _3512930_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj nargs = _3512933_37;
+Obj nargs = _3512930_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 2, R);
@@ -2255,9 +2255,9 @@ return;
 }
 case 4:
 {
-Obj _3512932_37= co->res;
+Obj _3512929_37= co->res;
 Obj exp = R[1];
-Obj body = _3512932_37;
+Obj body = _3512929_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 3, R);
@@ -2266,11 +2266,11 @@ return;
 }
 case 5:
 {
-Obj _3512931_37= co->res;
+Obj _3512928_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512931_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512928_37);
 return;
 }
 }
@@ -2281,25 +2281,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj n = R[1];
-Obj _3512925_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512925_37) {
+Obj _3512922_37 = PRIM_EQ(n, MAKE_NUMBER(0));
+if (True == _3512922_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512926_37 = primGenSym(co);
-Obj _3512927_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512926_37;
+Obj _3512923_37 = primGenSym(co);
+Obj _3512924_37 = PRIM_SUB(n, MAKE_NUMBER(1));
+R[1] = _3512923_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512927_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512924_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512928_37= co->res;
-Obj _3512926_37 = R[1];
-Obj _3512929_37 = makeCons(co->gc, _3512926_37, _3512928_37);
-coraReturn(co, _3512929_37);
+Obj _3512925_37= co->res;
+Obj _3512923_37 = R[1];
+Obj _3512926_37 = makeCons(co->gc, _3512923_37, _3512925_37);
+coraReturn(co, _3512926_37);
 return;
 }
 }
@@ -2316,10 +2316,10 @@ return;
 }
 case 1:
 {
-Obj _3512922_37= co->res;
+Obj _3512919_37= co->res;
 Obj n = R[1];
-Obj _3512923_37 = primNot(_3512922_37);
-if (True == _3512923_37) {
+Obj _3512920_37 = primNot(_3512919_37);
+if (True == _3512920_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2330,29 +2330,29 @@ return;
 }
 case 2:
 {
-Obj _3512921_37= co->res;
+Obj _3512918_37= co->res;
 Obj n = R[1];
 R[1] = n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512921_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512918_37);
 return;
 }
 case 3:
 {
-Obj _3512916_37= co->res;
-Obj counts = _3512916_37;
-Obj _3512917_37 = PRIM_CAR(counts);
-Obj n = _3512917_37;
-Obj _3512920_37 = PRIM_CDR(counts);
+Obj _3512913_37= co->res;
+Obj counts = _3512913_37;
+Obj _3512914_37 = PRIM_CAR(counts);
+Obj n = _3512914_37;
+Obj _3512917_37 = PRIM_CDR(counts);
 R[1] = n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512920_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512917_37);
 return;
 }
 case 4:
 {
-Obj _3512914_37= co->res;
-Obj pats = _3512914_37;
+Obj _3512911_37= co->res;
+Obj pats = _3512911_37;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
 return;
@@ -2365,9 +2365,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512918_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512919_37 = primNot(_3512918_37);
-coraReturn(co, _3512919_37);
+Obj _3512915_37 = PRIM_EQ(closureRef(R[0], 0), x);
+Obj _3512916_37 = primNot(_3512915_37);
+coraReturn(co, _3512916_37);
 return;
 }
 }
@@ -2378,9 +2378,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512915_37 = PRIM_CDR(x);
+Obj _3512912_37 = PRIM_CDR(x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512915_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512912_37);
 return;
 }
 }
@@ -2392,25 +2392,25 @@ case 0:
 {
 Obj l1 = R[1];
 Obj l2 = R[2];
-Obj _3512908_37 = PRIM_EQ(l1, Nil);
-if (True == _3512908_37) {
+Obj _3512905_37 = PRIM_EQ(l1, Nil);
+if (True == _3512905_37) {
 coraReturn(co, l2);
 return;
 } else {
-Obj _3512909_37 = PRIM_CAR(l1);
-Obj _3512910_37 = PRIM_CDR(l1);
-R[1] = _3512909_37;
+Obj _3512906_37 = PRIM_CAR(l1);
+Obj _3512907_37 = PRIM_CDR(l1);
+R[1] = _3512906_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512910_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512907_37, l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512911_37= co->res;
-Obj _3512909_37 = R[1];
-Obj _3512912_37 = makeCons(co->gc, _3512909_37, _3512911_37);
-coraReturn(co, _3512912_37);
+Obj _3512908_37= co->res;
+Obj _3512906_37 = R[1];
+Obj _3512909_37 = makeCons(co->gc, _3512906_37, _3512908_37);
+coraReturn(co, _3512909_37);
 return;
 }
 }
@@ -2436,14 +2436,14 @@ case 0:
 Obj res = R[1];
 Obj fn = R[2];
 Obj l = R[3];
-Obj _3512899_37 = PRIM_ISCONS(l);
-if (True == _3512899_37) {
-Obj _3512900_37 = PRIM_CAR(l);
+Obj _3512896_37 = PRIM_ISCONS(l);
+if (True == _3512896_37) {
+Obj _3512897_37 = PRIM_CAR(l);
 R[1] = l;
 R[2] = res;
 R[3] = fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512900_37);
+coraCall1(co, fn, _3512897_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2453,21 +2453,21 @@ return;
 }
 case 1:
 {
-Obj _3512901_37= co->res;
+Obj _3512898_37= co->res;
 Obj l = R[1];
 Obj res = R[2];
 Obj fn = R[3];
-if (True == _3512901_37) {
-Obj _3512902_37 = PRIM_CAR(l);
-Obj _3512903_37 = makeCons(co->gc, _3512902_37, res);
-Obj _3512904_37 = PRIM_CDR(l);
+if (True == _3512898_37) {
+Obj _3512899_37 = PRIM_CAR(l);
+Obj _3512900_37 = makeCons(co->gc, _3512899_37, res);
+Obj _3512901_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512903_37, fn, _3512904_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512900_37, fn, _3512901_37);
 return;
 } else {
-Obj _3512905_37 = PRIM_CDR(l);
+Obj _3512902_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512905_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512902_37);
 return;
 }
 }
@@ -2492,15 +2492,15 @@ case 0:
 {
 Obj i = R[1];
 Obj l = R[2];
-Obj _3512894_37 = PRIM_EQ(l, Nil);
-if (True == _3512894_37) {
+Obj _3512891_37 = PRIM_EQ(l, Nil);
+if (True == _3512891_37) {
 coraReturn(co, i);
 return;
 } else {
-Obj _3512895_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512896_37 = PRIM_CDR(l);
+Obj _3512892_37 = PRIM_ADD(i, MAKE_NUMBER(1));
+Obj _3512893_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512895_37, _3512896_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512892_37, _3512893_37);
 return;
 }
 }
@@ -2521,25 +2521,25 @@ return;
 }
 case 1:
 {
-Obj _3512892_37= co->res;
-Obj _3512891_37 = R[1];
+Obj _3512889_37= co->res;
+Obj _3512888_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512891_37, _3512892_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512888_37, _3512889_37);
 return;
 }
 case 2:
 {
-Obj _3512889_37= co->res;
+Obj _3512886_37= co->res;
 Obj res = R[1];
 Obj rules = R[2];
-if (True == _3512889_37) {
+if (True == _3512886_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
 return;
 } else {
-Obj _3512890_37 = PRIM_CAR(rules);
-Obj _3512891_37 = makeCons(co->gc, _3512890_37, res);
-R[1] = _3512891_37;
+Obj _3512887_37 = PRIM_CAR(rules);
+Obj _3512888_37 = makeCons(co->gc, _3512887_37, res);
+R[1] = _3512888_37;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
 return;
@@ -2567,48 +2567,48 @@ case 0:
 Obj input = R[1];
 Obj current = R[2];
 Obj result = R[3];
-Obj _3512836_37 = PRIM_EQ(Nil, input);
-if (True == _3512836_37) {
+Obj _3512833_37 = PRIM_EQ(Nil, input);
+if (True == _3512833_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
 return;
 } else {
-Obj _3512485_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512854_37 = PRIM_ISCONS(input);
-if (True == _3512854_37) {
-Obj _3512855_37 = PRIM_CAR(input);
-Obj _3512856_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512855_37);
-if (True == _3512856_37) {
-Obj _3512857_37 = PRIM_CDR(input);
-Obj _3512858_37 = PRIM_ISCONS(_3512857_37);
-if (True == _3512858_37) {
-Obj _3512859_37 = PRIM_CDR(input);
-Obj _3512860_37 = PRIM_CAR(_3512859_37);
-Obj act = _3512860_37;
+Obj _3512482_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
+Obj _3512851_37 = PRIM_ISCONS(input);
+if (True == _3512851_37) {
+Obj _3512852_37 = PRIM_CAR(input);
+Obj _3512853_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512852_37);
+if (True == _3512853_37) {
+Obj _3512854_37 = PRIM_CDR(input);
+Obj _3512855_37 = PRIM_ISCONS(_3512854_37);
+if (True == _3512855_37) {
+Obj _3512856_37 = PRIM_CDR(input);
+Obj _3512857_37 = PRIM_CAR(_3512856_37);
+Obj act = _3512857_37;
+Obj _3512858_37 = PRIM_CDR(input);
+Obj _3512859_37 = PRIM_CDR(_3512858_37);
+Obj _3512860_37 = PRIM_ISCONS(_3512859_37);
+if (True == _3512860_37) {
 Obj _3512861_37 = PRIM_CDR(input);
 Obj _3512862_37 = PRIM_CDR(_3512861_37);
-Obj _3512863_37 = PRIM_ISCONS(_3512862_37);
-if (True == _3512863_37) {
-Obj _3512864_37 = PRIM_CDR(input);
-Obj _3512865_37 = PRIM_CDR(_3512864_37);
-Obj _3512866_37 = PRIM_CAR(_3512865_37);
-Obj _3512867_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512866_37);
-if (True == _3512867_37) {
-Obj _3512868_37 = PRIM_CDR(input);
-Obj _3512869_37 = PRIM_CDR(_3512868_37);
+Obj _3512863_37 = PRIM_CAR(_3512862_37);
+Obj _3512864_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512863_37);
+if (True == _3512864_37) {
+Obj _3512865_37 = PRIM_CDR(input);
+Obj _3512866_37 = PRIM_CDR(_3512865_37);
+Obj _3512867_37 = PRIM_CDR(_3512866_37);
+Obj _3512868_37 = PRIM_ISCONS(_3512867_37);
+if (True == _3512868_37) {
+Obj _3512869_37 = PRIM_CDR(input);
 Obj _3512870_37 = PRIM_CDR(_3512869_37);
-Obj _3512871_37 = PRIM_ISCONS(_3512870_37);
-if (True == _3512871_37) {
-Obj _3512872_37 = PRIM_CDR(input);
-Obj _3512873_37 = PRIM_CDR(_3512872_37);
+Obj _3512871_37 = PRIM_CDR(_3512870_37);
+Obj _3512872_37 = PRIM_CAR(_3512871_37);
+Obj pred = _3512872_37;
+Obj _3512873_37 = PRIM_CDR(input);
 Obj _3512874_37 = PRIM_CDR(_3512873_37);
-Obj _3512875_37 = PRIM_CAR(_3512874_37);
-Obj pred = _3512875_37;
-Obj _3512876_37 = PRIM_CDR(input);
-Obj _3512877_37 = PRIM_CDR(_3512876_37);
-Obj _3512878_37 = PRIM_CDR(_3512877_37);
-Obj _3512879_37 = PRIM_CDR(_3512878_37);
-Obj remain = _3512879_37;
+Obj _3512875_37 = PRIM_CDR(_3512874_37);
+Obj _3512876_37 = PRIM_CDR(_3512875_37);
+Obj remain = _3512876_37;
 R[1] = act;
 R[2] = pred;
 R[3] = result;
@@ -2618,52 +2618,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512485_37);
+coraCall0(co, _3512482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512485_37);
+coraCall0(co, _3512482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512485_37);
+coraCall0(co, _3512482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512485_37);
+coraCall0(co, _3512482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512485_37);
+coraCall0(co, _3512482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512485_37);
+coraCall0(co, _3512482_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512880_37= co->res;
+Obj _3512877_37= co->res;
 Obj act = R[1];
 Obj pred = R[2];
 Obj result = R[3];
 Obj remain = R[4];
-Obj _3512881_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512880_37);
-Obj pat = _3512881_37;
-Obj _3512882_37 = makeCons(co->gc, act, Nil);
-Obj _3512883_37 = makeCons(co->gc, pred, _3512882_37);
-Obj _3512884_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512883_37);
-Obj _3512885_37 = makeCons(co->gc, pat, result);
-Obj _3512886_37 = makeCons(co->gc, _3512884_37, _3512885_37);
+Obj _3512878_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512877_37);
+Obj pat = _3512878_37;
+Obj _3512879_37 = makeCons(co->gc, act, Nil);
+Obj _3512880_37 = makeCons(co->gc, pred, _3512879_37);
+Obj _3512881_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512880_37);
+Obj _3512882_37 = makeCons(co->gc, pat, result);
+Obj _3512883_37 = makeCons(co->gc, _3512881_37, _3512882_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512886_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512883_37);
 return;
 }
 }
@@ -2673,21 +2673,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512486_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512841_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512841_37) {
-Obj _3512842_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512843_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512842_37);
-if (True == _3512843_37) {
-Obj _3512844_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512845_37 = PRIM_ISCONS(_3512844_37);
-if (True == _3512845_37) {
-Obj _3512846_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512847_37 = PRIM_CAR(_3512846_37);
-Obj act = _3512847_37;
-Obj _3512848_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512849_37 = PRIM_CDR(_3512848_37);
-Obj remain = _3512849_37;
+Obj _3512483_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3512838_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512838_37) {
+Obj _3512839_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3512840_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512839_37);
+if (True == _3512840_37) {
+Obj _3512841_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512842_37 = PRIM_ISCONS(_3512841_37);
+if (True == _3512842_37) {
+Obj _3512843_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512844_37 = PRIM_CAR(_3512843_37);
+Obj act = _3512844_37;
+Obj _3512845_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512846_37 = PRIM_CDR(_3512845_37);
+Obj remain = _3512846_37;
 R[1] = act;
 R[2] = remain;
 saveCont(co, clofun47, 1, R);
@@ -2695,31 +2695,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512486_37);
+coraCall0(co, _3512483_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512486_37);
+coraCall0(co, _3512483_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512486_37);
+coraCall0(co, _3512483_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512850_37= co->res;
+Obj _3512847_37= co->res;
 Obj act = R[1];
 Obj remain = R[2];
-Obj _3512851_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512850_37);
-Obj pat = _3512851_37;
-Obj _3512852_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512853_37 = makeCons(co->gc, act, _3512852_37);
+Obj _3512848_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512847_37);
+Obj pat = _3512848_37;
+Obj _3512849_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
+Obj _3512850_37 = makeCons(co->gc, act, _3512849_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512853_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512850_37);
 return;
 }
 }
@@ -2729,15 +2729,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512837_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512837_37) {
-Obj _3512838_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512838_37;
-Obj _3512839_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512839_37;
-Obj _3512840_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj _3512834_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512834_37) {
+Obj _3512835_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512835_37;
+Obj _3512836_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512836_37;
+Obj _3512837_37 = makeCons(co->gc, x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512840_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512837_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2772,35 +2772,35 @@ return;
 }
 case 1:
 {
-Obj _3512823_37= co->res;
+Obj _3512820_37= co->res;
 Obj value = R[1];
-Obj rules = _3512823_37;
-Obj _3512536_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512830_37 = PRIM_ISCONS(value);
+Obj rules = _3512820_37;
+Obj _3512533_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
+Obj _3512827_37 = PRIM_ISCONS(value);
+if (True == _3512827_37) {
+Obj _3512828_37 = PRIM_CAR(value);
+Obj _3512829_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512828_37);
+Obj _3512830_37 = primNot(_3512829_37);
 if (True == _3512830_37) {
-Obj _3512831_37 = PRIM_CAR(value);
-Obj _3512832_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512831_37);
-Obj _3512833_37 = primNot(_3512832_37);
-if (True == _3512833_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512536_37, True);
+coraCall1(co, _3512533_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512536_37, False);
+coraCall1(co, _3512533_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512536_37, False);
+coraCall1(co, _3512533_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512822_37= co->res;
+Obj _3512819_37= co->res;
 Obj exp = R[1];
-Obj value = _3512822_37;
+Obj value = _3512819_37;
 R[1] = value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
@@ -2808,11 +2808,11 @@ return;
 }
 case 3:
 {
-Obj _3512821_37= co->res;
+Obj _3512818_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512821_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512818_37);
 return;
 }
 }
@@ -2822,10 +2822,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512537_37 = R[1];
-if (True == _3512537_37) {
-Obj _3512824_37 = primGenSym(co);
-Obj val = _3512824_37;
+Obj _3512534_37 = R[1];
+if (True == _3512534_37) {
+Obj _3512821_37 = primGenSym(co);
+Obj val = _3512821_37;
 R[1] = val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), val, closureRef(R[0], 1));
@@ -2838,13 +2838,13 @@ return;
 }
 case 1:
 {
-Obj _3512825_37= co->res;
+Obj _3512822_37= co->res;
 Obj val = R[1];
-Obj _3512826_37 = makeCons(co->gc, _3512825_37, Nil);
-Obj _3512827_37 = makeCons(co->gc, closureRef(R[0], 0), _3512826_37);
-Obj _3512828_37 = makeCons(co->gc, val, _3512827_37);
-Obj _3512829_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512828_37);
-coraReturn(co, _3512829_37);
+Obj _3512823_37 = makeCons(co->gc, _3512822_37, Nil);
+Obj _3512824_37 = makeCons(co->gc, closureRef(R[0], 0), _3512823_37);
+Obj _3512825_37 = makeCons(co->gc, val, _3512824_37);
+Obj _3512826_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512825_37);
+coraReturn(co, _3512826_37);
 return;
 }
 }
@@ -2864,49 +2864,49 @@ return;
 }
 case 1:
 {
-Obj _3512819_37= co->res;
-Obj _3512534_37 = R[1];
-if (True == _3512819_37) {
+Obj _3512816_37= co->res;
+Obj _3512531_37 = R[1];
+if (True == _3512816_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512534_37, True);
+coraCall1(co, _3512531_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512534_37, False);
+coraCall1(co, _3512531_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512817_37= co->res;
+Obj _3512814_37= co->res;
 Obj rules = R[1];
-Obj _3512534_37 = R[2];
-if (True == _3512817_37) {
-Obj _3512818_37 = PRIM_CDR(rules);
-R[1] = _3512534_37;
+Obj _3512531_37 = R[2];
+if (True == _3512814_37) {
+Obj _3512815_37 = PRIM_CDR(rules);
+R[1] = _3512531_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512818_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512815_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512534_37, False);
+coraCall1(co, _3512531_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512799_37= co->res;
+Obj _3512796_37= co->res;
 Obj value = R[1];
 Obj rules = R[2];
-if (True == _3512799_37) {
-Obj _3512800_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512801_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512800_37);
-coraReturn(co, _3512801_37);
+if (True == _3512796_37) {
+Obj _3512797_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj _3512798_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512797_37);
+coraReturn(co, _3512798_37);
 return;
 } else {
-Obj _3512534_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
+Obj _3512531_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
 R[1] = rules;
-R[2] = _3512534_37;
+R[2] = _3512531_37;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
 return;
@@ -2919,12 +2919,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512535_37 = R[1];
-if (True == _3512535_37) {
-Obj _3512802_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512802_37;
-Obj _3512803_37 = primGenSym(co);
-Obj cc = _3512803_37;
+Obj _3512532_37 = R[1];
+if (True == _3512532_37) {
+Obj _3512799_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj pat = _3512799_37;
+Obj _3512800_37 = primGenSym(co);
+Obj cc = _3512800_37;
 R[1] = pat;
 R[2] = cc;
 saveCont(co, clofun41, 4, R);
@@ -2938,49 +2938,49 @@ return;
 }
 case 1:
 {
-Obj _3512809_37= co->res;
+Obj _3512806_37= co->res;
 Obj curr = R[1];
 Obj cc = R[2];
-Obj rest = _3512809_37;
-Obj _3512810_37 = makeCons(co->gc, rest, Nil);
-Obj _3512811_37 = makeCons(co->gc, Nil, _3512810_37);
-Obj _3512812_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512811_37);
-Obj _3512813_37 = makeCons(co->gc, curr, Nil);
-Obj _3512814_37 = makeCons(co->gc, _3512812_37, _3512813_37);
-Obj _3512815_37 = makeCons(co->gc, cc, _3512814_37);
-Obj _3512816_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512815_37);
-coraReturn(co, _3512816_37);
+Obj rest = _3512806_37;
+Obj _3512807_37 = makeCons(co->gc, rest, Nil);
+Obj _3512808_37 = makeCons(co->gc, Nil, _3512807_37);
+Obj _3512809_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512808_37);
+Obj _3512810_37 = makeCons(co->gc, curr, Nil);
+Obj _3512811_37 = makeCons(co->gc, _3512809_37, _3512810_37);
+Obj _3512812_37 = makeCons(co->gc, cc, _3512811_37);
+Obj _3512813_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512812_37);
+coraReturn(co, _3512813_37);
 return;
 }
 case 2:
 {
-Obj _3512806_37= co->res;
+Obj _3512803_37= co->res;
 Obj cc = R[1];
-Obj curr = _3512806_37;
-Obj _3512807_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512808_37 = PRIM_CDR(_3512807_37);
+Obj curr = _3512803_37;
+Obj _3512804_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3512805_37 = PRIM_CDR(_3512804_37);
 R[1] = curr;
 R[2] = cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512808_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512805_37);
 return;
 }
 case 3:
 {
-Obj _3512805_37= co->res;
+Obj _3512802_37= co->res;
 Obj action = R[1];
 Obj cc = R[2];
 R[1] = cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512805_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512802_37, closureRef(R[0], 0), action, cc);
 return;
 }
 case 4:
 {
-Obj _3512804_37= co->res;
+Obj _3512801_37= co->res;
 Obj pat = R[1];
 Obj cc = R[2];
-Obj action = _3512804_37;
+Obj action = _3512801_37;
 R[1] = action;
 R[2] = cc;
 saveCont(co, clofun41, 3, R);
@@ -2996,36 +2996,36 @@ case 0:
 {
 Obj rules = R[1];
 Obj cc = R[2];
-Obj _3512786_37 = PRIM_CDR(rules);
-Obj _3512787_37 = PRIM_CAR(_3512786_37);
-Obj action = _3512787_37;
-Obj _3512532_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
+Obj _3512783_37 = PRIM_CDR(rules);
+Obj _3512784_37 = PRIM_CAR(_3512783_37);
+Obj action = _3512784_37;
+Obj _3512529_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
 R[1] = action;
-R[2] = _3512532_37;
+R[2] = _3512529_37;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), action);
 return;
 }
 case 1:
 {
-Obj _3512795_37= co->res;
+Obj _3512792_37= co->res;
 Obj action = R[1];
-Obj _3512532_37 = R[2];
-if (True == _3512795_37) {
-Obj _3512796_37 = PRIM_CAR(action);
-Obj _3512797_37 = PRIM_EQ(_3512796_37, getBinding(co, packageID, 110).name);
-if (True == _3512797_37) {
+Obj _3512529_37 = R[2];
+if (True == _3512792_37) {
+Obj _3512793_37 = PRIM_CAR(action);
+Obj _3512794_37 = PRIM_EQ(_3512793_37, getBinding(co, packageID, 110).name);
+if (True == _3512794_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512532_37, True);
+coraCall1(co, _3512529_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512532_37, False);
+coraCall1(co, _3512529_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512532_37, False);
+coraCall1(co, _3512529_37, False);
 return;
 }
 }
@@ -3036,8 +3036,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512533_37 = R[1];
-if (True == _3512533_37) {
+Obj _3512530_37 = R[1];
+if (True == _3512530_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3048,20 +3048,20 @@ return;
 }
 case 1:
 {
-Obj _3512789_37= co->res;
-Obj _3512788_37 = R[1];
-Obj _3512790_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512791_37 = makeCons(co->gc, _3512790_37, Nil);
-Obj _3512792_37 = makeCons(co->gc, _3512789_37, _3512791_37);
-Obj _3512793_37 = makeCons(co->gc, _3512788_37, _3512792_37);
-Obj _3512794_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512793_37);
-coraReturn(co, _3512794_37);
+Obj _3512786_37= co->res;
+Obj _3512785_37 = R[1];
+Obj _3512787_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3512788_37 = makeCons(co->gc, _3512787_37, Nil);
+Obj _3512789_37 = makeCons(co->gc, _3512786_37, _3512788_37);
+Obj _3512790_37 = makeCons(co->gc, _3512785_37, _3512789_37);
+Obj _3512791_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512790_37);
+coraReturn(co, _3512791_37);
 return;
 }
 case 2:
 {
-Obj _3512788_37= co->res;
-R[1] = _3512788_37;
+Obj _3512785_37= co->res;
+R[1] = _3512785_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3087,36 +3087,36 @@ return;
 }
 case 1:
 {
-Obj _3512784_37= co->res;
+Obj _3512781_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512784_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512781_37);
 return;
 }
 case 2:
 {
-Obj _3512771_37= co->res;
+Obj _3512768_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512771_37) {
-Obj _3512772_37 = PRIM_CAR(pat);
-Obj _3512773_37 = PRIM_EQ(_3512772_37, getBinding(co, packageID, 139).name);
-if (True == _3512773_37) {
-Obj _3512774_37 = makeCons(co->gc, expr, Nil);
-Obj _3512775_37 = makeCons(co->gc, pat, _3512774_37);
-Obj _3512776_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512775_37);
-Obj _3512777_37 = makeCons(co->gc, cc, Nil);
-Obj _3512778_37 = makeCons(co->gc, _3512777_37, Nil);
-Obj _3512779_37 = makeCons(co->gc, body, _3512778_37);
-Obj _3512780_37 = makeCons(co->gc, _3512776_37, _3512779_37);
-Obj _3512781_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512780_37);
-coraReturn(co, _3512781_37);
-return;
-} else {
-Obj _3512782_37 = PRIM_CAR(pat);
-Obj _3512783_37 = PRIM_EQ(_3512782_37, getBinding(co, packageID, 152).name);
-if (True == _3512783_37) {
+if (True == _3512768_37) {
+Obj _3512769_37 = PRIM_CAR(pat);
+Obj _3512770_37 = PRIM_EQ(_3512769_37, getBinding(co, packageID, 139).name);
+if (True == _3512770_37) {
+Obj _3512771_37 = makeCons(co->gc, expr, Nil);
+Obj _3512772_37 = makeCons(co->gc, pat, _3512771_37);
+Obj _3512773_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512772_37);
+Obj _3512774_37 = makeCons(co->gc, cc, Nil);
+Obj _3512775_37 = makeCons(co->gc, _3512774_37, Nil);
+Obj _3512776_37 = makeCons(co->gc, body, _3512775_37);
+Obj _3512777_37 = makeCons(co->gc, _3512773_37, _3512776_37);
+Obj _3512778_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512777_37);
+coraReturn(co, _3512778_37);
+return;
+} else {
+Obj _3512779_37 = PRIM_CAR(pat);
+Obj _3512780_37 = PRIM_EQ(_3512779_37, getBinding(co, packageID, 152).name);
+if (True == _3512780_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
 return;
@@ -3134,36 +3134,36 @@ return;
 }
 case 3:
 {
-Obj _3512756_37= co->res;
+Obj _3512753_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512756_37) {
-Obj _3512757_37 = PRIM_EQ(pat, expr);
-if (True == _3512757_37) {
+if (True == _3512753_37) {
+Obj _3512754_37 = PRIM_EQ(pat, expr);
+if (True == _3512754_37) {
 coraReturn(co, body);
 return;
 } else {
-Obj _3512758_37 = makeCons(co->gc, expr, Nil);
-Obj _3512759_37 = makeCons(co->gc, pat, _3512758_37);
-Obj _3512760_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512759_37);
-Obj _3512761_37 = makeCons(co->gc, cc, Nil);
-Obj _3512762_37 = makeCons(co->gc, _3512761_37, Nil);
-Obj _3512763_37 = makeCons(co->gc, body, _3512762_37);
-Obj _3512764_37 = makeCons(co->gc, _3512760_37, _3512763_37);
-Obj _3512765_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512764_37);
-coraReturn(co, _3512765_37);
+Obj _3512755_37 = makeCons(co->gc, expr, Nil);
+Obj _3512756_37 = makeCons(co->gc, pat, _3512755_37);
+Obj _3512757_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512756_37);
+Obj _3512758_37 = makeCons(co->gc, cc, Nil);
+Obj _3512759_37 = makeCons(co->gc, _3512758_37, Nil);
+Obj _3512760_37 = makeCons(co->gc, body, _3512759_37);
+Obj _3512761_37 = makeCons(co->gc, _3512757_37, _3512760_37);
+Obj _3512762_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512761_37);
+coraReturn(co, _3512762_37);
 return;
 }
 } else {
-Obj _3512766_37 = primIsSymbol(pat);
-if (True == _3512766_37) {
-Obj _3512767_37 = makeCons(co->gc, body, Nil);
-Obj _3512768_37 = makeCons(co->gc, expr, _3512767_37);
-Obj _3512769_37 = makeCons(co->gc, pat, _3512768_37);
-Obj _3512770_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512769_37);
-coraReturn(co, _3512770_37);
+Obj _3512763_37 = primIsSymbol(pat);
+if (True == _3512763_37) {
+Obj _3512764_37 = makeCons(co->gc, body, Nil);
+Obj _3512765_37 = makeCons(co->gc, expr, _3512764_37);
+Obj _3512766_37 = makeCons(co->gc, pat, _3512765_37);
+Obj _3512767_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512766_37);
+coraReturn(co, _3512767_37);
 return;
 } else {
 R[1] = expr;
@@ -3191,12 +3191,12 @@ return;
 }
 case 1:
 {
-Obj _3512753_37= co->res;
+Obj _3512750_37= co->res;
 Obj x = R[1];
-if (True == _3512753_37) {
-Obj _3512754_37 = primIsSymbol(x);
-Obj _3512755_37 = primNot(_3512754_37);
-if (True == _3512755_37) {
+if (True == _3512750_37) {
+Obj _3512751_37 = primIsSymbol(x);
+Obj _3512752_37 = primNot(_3512751_37);
+if (True == _3512752_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3229,40 +3229,40 @@ return;
 }
 case 1:
 {
-Obj _3512732_37= co->res;
+Obj _3512729_37= co->res;
 Obj x = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj y = _3512732_37;
-Obj _3512530_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512749_37 = PRIM_ISCONS(expr);
-if (True == _3512749_37) {
-Obj _3512750_37 = PRIM_CAR(expr);
-Obj _3512751_37 = PRIM_EQ(_3512750_37, getBinding(co, packageID, 152).name);
-if (True == _3512751_37) {
+Obj y = _3512729_37;
+Obj _3512527_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
+Obj _3512746_37 = PRIM_ISCONS(expr);
+if (True == _3512746_37) {
+Obj _3512747_37 = PRIM_CAR(expr);
+Obj _3512748_37 = PRIM_EQ(_3512747_37, getBinding(co, packageID, 152).name);
+if (True == _3512748_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512530_37, True);
+coraCall1(co, _3512527_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512530_37, False);
+coraCall1(co, _3512527_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512530_37, False);
+coraCall1(co, _3512527_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512731_37= co->res;
+Obj _3512728_37= co->res;
 Obj pat = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj x = _3512731_37;
+Obj x = _3512728_37;
 R[1] = x;
 R[2] = body;
 R[3] = cc;
@@ -3278,38 +3278,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512531_37 = R[1];
-if (True == _3512531_37) {
+Obj _3512528_37 = R[1];
+if (True == _3512528_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512736_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512737_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512736_37);
-Obj _3512738_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512739_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512738_37);
-Obj _3512740_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512741_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512740_37);
-R[1] = _3512739_37;
-R[2] = _3512737_37;
+Obj _3512733_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512734_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512733_37);
+Obj _3512735_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512736_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512735_37);
+Obj _3512737_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512738_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512737_37);
+R[1] = _3512736_37;
+R[2] = _3512734_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512741_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512738_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512735_37= co->res;
+Obj _3512732_37= co->res;
 Obj e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512735_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512732_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512734_37= co->res;
+Obj _3512731_37= co->res;
 Obj e1 = R[1];
-Obj e2 = _3512734_37;
+Obj e2 = _3512731_37;
 R[1] = e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3317,8 +3317,8 @@ return;
 }
 case 3:
 {
-Obj _3512733_37= co->res;
-Obj e1 = _3512733_37;
+Obj _3512730_37= co->res;
+Obj e1 = _3512730_37;
 R[1] = e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3326,24 +3326,24 @@ return;
 }
 case 4:
 {
-Obj _3512743_37= co->res;
-Obj _3512737_37 = R[1];
-Obj _3512744_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512745_37 = makeCons(co->gc, _3512744_37, Nil);
-Obj _3512746_37 = makeCons(co->gc, _3512743_37, _3512745_37);
-Obj _3512747_37 = makeCons(co->gc, _3512737_37, _3512746_37);
-Obj _3512748_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512747_37);
-coraReturn(co, _3512748_37);
+Obj _3512740_37= co->res;
+Obj _3512734_37 = R[1];
+Obj _3512741_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj _3512742_37 = makeCons(co->gc, _3512741_37, Nil);
+Obj _3512743_37 = makeCons(co->gc, _3512740_37, _3512742_37);
+Obj _3512744_37 = makeCons(co->gc, _3512734_37, _3512743_37);
+Obj _3512745_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512744_37);
+coraReturn(co, _3512745_37);
 return;
 }
 case 5:
 {
-Obj _3512742_37= co->res;
-Obj _3512739_37 = R[1];
-Obj _3512737_37 = R[2];
-R[1] = _3512737_37;
+Obj _3512739_37= co->res;
+Obj _3512736_37 = R[1];
+Obj _3512734_37 = R[2];
+R[1] = _3512734_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512739_37, _3512742_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512736_37, _3512739_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3354,9 +3354,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512729_37 = PRIM_CDR(exp);
+Obj _3512726_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512729_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512726_37);
 return;
 }
 }
@@ -3367,36 +3367,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj pat = R[1];
-Obj _3512719_37 = PRIM_CDR(pat);
+Obj _3512716_37 = PRIM_CDR(pat);
 R[1] = pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512719_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512716_37);
 return;
 }
 case 1:
 {
-Obj _3512724_37= co->res;
-Obj _3512722_37 = R[1];
-Obj _3512725_37 = makeCons(co->gc, _3512724_37, Nil);
-Obj _3512726_37 = makeCons(co->gc, _3512722_37, _3512725_37);
-Obj _3512727_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512726_37);
-coraReturn(co, _3512727_37);
+Obj _3512721_37= co->res;
+Obj _3512719_37 = R[1];
+Obj _3512722_37 = makeCons(co->gc, _3512721_37, Nil);
+Obj _3512723_37 = makeCons(co->gc, _3512719_37, _3512722_37);
+Obj _3512724_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512723_37);
+coraReturn(co, _3512724_37);
 return;
 }
 case 2:
 {
-Obj _3512720_37= co->res;
+Obj _3512717_37= co->res;
 Obj pat = R[1];
-if (True == _3512720_37) {
-Obj _3512721_37 = PRIM_CAR(pat);
-coraReturn(co, _3512721_37);
+if (True == _3512717_37) {
+Obj _3512718_37 = PRIM_CAR(pat);
+coraReturn(co, _3512718_37);
 return;
 } else {
-Obj _3512722_37 = PRIM_CAR(pat);
-Obj _3512723_37 = PRIM_CDR(pat);
-R[1] = _3512722_37;
+Obj _3512719_37 = PRIM_CAR(pat);
+Obj _3512720_37 = PRIM_CDR(pat);
+R[1] = _3512719_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512723_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512720_37);
 return;
 }
 }
@@ -3408,13 +3408,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512716_37 = PRIM_EQ(x, True);
-if (True == _3512716_37) {
+Obj _3512713_37 = PRIM_EQ(x, True);
+if (True == _3512713_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512717_37 = PRIM_EQ(x, False);
-if (True == _3512717_37) {
+Obj _3512714_37 = PRIM_EQ(x, False);
+if (True == _3512714_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3431,9 +3431,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512714_37 = PRIM_CDR(exp);
+Obj _3512711_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512714_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512711_37);
 return;
 }
 }
@@ -3444,41 +3444,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512702_37 = PRIM_EQ(Nil, l);
-if (True == _3512702_37) {
+Obj _3512699_37 = PRIM_EQ(Nil, l);
+if (True == _3512699_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512703_37 = PRIM_CAR(l);
-Obj _3512704_37 = PRIM_EQ(_3512703_37, False);
-if (True == _3512704_37) {
+Obj _3512700_37 = PRIM_CAR(l);
+Obj _3512701_37 = PRIM_EQ(_3512700_37, False);
+if (True == _3512701_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512705_37 = PRIM_CDR(l);
+Obj _3512702_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512705_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512702_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512706_37= co->res;
+Obj _3512703_37= co->res;
 Obj l = R[1];
-Obj more = _3512706_37;
-Obj _3512707_37 = PRIM_EQ(more, False);
-if (True == _3512707_37) {
+Obj more = _3512703_37;
+Obj _3512704_37 = PRIM_EQ(more, False);
+if (True == _3512704_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512708_37 = PRIM_CAR(l);
-Obj _3512709_37 = makeCons(co->gc, False, Nil);
-Obj _3512710_37 = makeCons(co->gc, more, _3512709_37);
-Obj _3512711_37 = makeCons(co->gc, _3512708_37, _3512710_37);
-Obj _3512712_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512711_37);
-coraReturn(co, _3512712_37);
+Obj _3512705_37 = PRIM_CAR(l);
+Obj _3512706_37 = makeCons(co->gc, False, Nil);
+Obj _3512707_37 = makeCons(co->gc, more, _3512706_37);
+Obj _3512708_37 = makeCons(co->gc, _3512705_37, _3512707_37);
+Obj _3512709_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512708_37);
+coraReturn(co, _3512709_37);
 return;
 }
 }
@@ -3490,9 +3490,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512700_37 = PRIM_CDR(exp);
+Obj _3512697_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512700_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512697_37);
 return;
 }
 }
@@ -3503,41 +3503,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512688_37 = PRIM_EQ(l, Nil);
-if (True == _3512688_37) {
+Obj _3512685_37 = PRIM_EQ(l, Nil);
+if (True == _3512685_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512689_37 = PRIM_CAR(l);
-Obj _3512690_37 = PRIM_EQ(_3512689_37, True);
-if (True == _3512690_37) {
+Obj _3512686_37 = PRIM_CAR(l);
+Obj _3512687_37 = PRIM_EQ(_3512686_37, True);
+if (True == _3512687_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512691_37 = PRIM_CDR(l);
+Obj _3512688_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512691_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512688_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512692_37= co->res;
+Obj _3512689_37= co->res;
 Obj l = R[1];
-Obj more = _3512692_37;
-Obj _3512693_37 = PRIM_EQ(more, True);
-if (True == _3512693_37) {
+Obj more = _3512689_37;
+Obj _3512690_37 = PRIM_EQ(more, True);
+if (True == _3512690_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512694_37 = PRIM_CAR(l);
-Obj _3512695_37 = makeCons(co->gc, more, Nil);
-Obj _3512696_37 = makeCons(co->gc, True, _3512695_37);
-Obj _3512697_37 = makeCons(co->gc, _3512694_37, _3512696_37);
-Obj _3512698_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512697_37);
-coraReturn(co, _3512698_37);
+Obj _3512691_37 = PRIM_CAR(l);
+Obj _3512692_37 = makeCons(co->gc, more, Nil);
+Obj _3512693_37 = makeCons(co->gc, True, _3512692_37);
+Obj _3512694_37 = makeCons(co->gc, _3512691_37, _3512693_37);
+Obj _3512695_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512694_37);
+coraReturn(co, _3512695_37);
 return;
 }
 }
@@ -3549,12 +3549,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512674_37 = PRIM_CDR(exp);
-Obj _3512675_37 = PRIM_EQ(Nil, _3512674_37);
-if (True == _3512675_37) {
-Obj _3512676_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512677_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512676_37);
-coraReturn(co, _3512677_37);
+Obj _3512671_37 = PRIM_CDR(exp);
+Obj _3512672_37 = PRIM_EQ(Nil, _3512671_37);
+if (True == _3512672_37) {
+Obj _3512673_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj _3512674_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512673_37);
+coraReturn(co, _3512674_37);
 return;
 } else {
 R[1] = exp;
@@ -3565,36 +3565,36 @@ return;
 }
 case 1:
 {
-Obj _3512681_37= co->res;
-Obj _3512680_37 = R[1];
-Obj _3512679_37 = R[2];
-Obj _3512682_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512681_37);
-Obj _3512683_37 = makeCons(co->gc, _3512682_37, Nil);
-Obj _3512684_37 = makeCons(co->gc, _3512680_37, _3512683_37);
-Obj _3512685_37 = makeCons(co->gc, _3512679_37, _3512684_37);
-Obj _3512686_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512685_37);
-coraReturn(co, _3512686_37);
+Obj _3512678_37= co->res;
+Obj _3512677_37 = R[1];
+Obj _3512676_37 = R[2];
+Obj _3512679_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512678_37);
+Obj _3512680_37 = makeCons(co->gc, _3512679_37, Nil);
+Obj _3512681_37 = makeCons(co->gc, _3512677_37, _3512680_37);
+Obj _3512682_37 = makeCons(co->gc, _3512676_37, _3512681_37);
+Obj _3512683_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512682_37);
+coraReturn(co, _3512683_37);
 return;
 }
 case 2:
 {
-Obj _3512680_37= co->res;
+Obj _3512677_37= co->res;
 Obj exp = R[1];
-Obj _3512679_37 = R[2];
-R[1] = _3512680_37;
-R[2] = _3512679_37;
+Obj _3512676_37 = R[2];
+R[1] = _3512677_37;
+R[2] = _3512676_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 3:
 {
-Obj _3512678_37= co->res;
+Obj _3512675_37= co->res;
 Obj exp = R[1];
-Obj curr = _3512678_37;
-Obj _3512679_37 = PRIM_CAR(curr);
+Obj curr = _3512675_37;
+Obj _3512676_37 = PRIM_CAR(curr);
 R[1] = exp;
-R[2] = _3512679_37;
+R[2] = _3512676_37;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), curr);
 return;
@@ -3607,9 +3607,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512672_37 = PRIM_CDR(exp);
+Obj _3512669_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512672_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512669_37);
 return;
 }
 }
@@ -3620,58 +3620,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512660_37 = PRIM_CDR(exp);
+Obj _3512657_37 = PRIM_CDR(exp);
 R[1] = exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512660_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512657_37);
 return;
 }
 case 1:
 {
-Obj _3512666_37= co->res;
-Obj _3512664_37 = R[1];
-Obj _3512663_37 = R[2];
-Obj _3512667_37 = makeCons(co->gc, _3512666_37, Nil);
-Obj _3512668_37 = makeCons(co->gc, _3512664_37, _3512667_37);
-Obj _3512669_37 = makeCons(co->gc, _3512663_37, _3512668_37);
-Obj _3512670_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512669_37);
-coraReturn(co, _3512670_37);
+Obj _3512663_37= co->res;
+Obj _3512661_37 = R[1];
+Obj _3512660_37 = R[2];
+Obj _3512664_37 = makeCons(co->gc, _3512663_37, Nil);
+Obj _3512665_37 = makeCons(co->gc, _3512661_37, _3512664_37);
+Obj _3512666_37 = makeCons(co->gc, _3512660_37, _3512665_37);
+Obj _3512667_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512666_37);
+coraReturn(co, _3512667_37);
 return;
 }
 case 2:
 {
-Obj _3512665_37= co->res;
-Obj _3512664_37 = R[1];
-Obj _3512663_37 = R[2];
-R[1] = _3512664_37;
-R[2] = _3512663_37;
+Obj _3512662_37= co->res;
+Obj _3512661_37 = R[1];
+Obj _3512660_37 = R[2];
+R[1] = _3512661_37;
+R[2] = _3512660_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512665_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512662_37);
 return;
 }
 case 3:
 {
-Obj _3512664_37= co->res;
+Obj _3512661_37= co->res;
 Obj exp = R[1];
-Obj _3512663_37 = R[2];
-R[1] = _3512664_37;
-R[2] = _3512663_37;
+Obj _3512660_37 = R[2];
+R[1] = _3512661_37;
+R[2] = _3512660_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 4:
 {
-Obj _3512661_37= co->res;
+Obj _3512658_37= co->res;
 Obj exp = R[1];
-if (True == _3512661_37) {
-Obj _3512662_37 = PRIM_CAR(exp);
-coraReturn(co, _3512662_37);
+if (True == _3512658_37) {
+Obj _3512659_37 = PRIM_CAR(exp);
+coraReturn(co, _3512659_37);
 return;
 } else {
-Obj _3512663_37 = PRIM_CAR(exp);
+Obj _3512660_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3512663_37;
+R[2] = _3512660_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
@@ -3685,9 +3685,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512657_37 = PRIM_ISCONS(x);
-Obj _3512658_37 = primNot(_3512657_37);
-coraReturn(co, _3512658_37);
+Obj _3512654_37 = PRIM_ISCONS(x);
+Obj _3512655_37 = primNot(_3512654_37);
+coraReturn(co, _3512655_37);
 return;
 }
 }
@@ -3699,17 +3699,17 @@ case 0:
 {
 Obj x = R[1];
 Obj l = R[2];
-Obj _3512652_37 = PRIM_ISCONS(l);
-if (True == _3512652_37) {
-Obj _3512653_37 = PRIM_CAR(l);
-Obj _3512654_37 = PRIM_EQ(_3512653_37, x);
-if (True == _3512654_37) {
+Obj _3512649_37 = PRIM_ISCONS(l);
+if (True == _3512649_37) {
+Obj _3512650_37 = PRIM_CAR(l);
+Obj _3512651_37 = PRIM_EQ(_3512650_37, x);
+if (True == _3512651_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512655_37 = PRIM_CDR(l);
+Obj _3512652_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512655_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512652_37);
 return;
 }
 } else {
@@ -3732,35 +3732,35 @@ return;
 }
 case 1:
 {
-Obj _3512644_37= co->res;
-Obj _3512643_37 = R[1];
-Obj _3512642_37 = R[2];
+Obj _3512641_37= co->res;
+Obj _3512640_37 = R[1];
+Obj _3512639_37 = R[2];
+Obj _3512642_37 = makeCons(co->gc, _3512641_37, Nil);
+Obj _3512643_37 = makeCons(co->gc, _3512640_37, _3512642_37);
+Obj _3512644_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512643_37);
 Obj _3512645_37 = makeCons(co->gc, _3512644_37, Nil);
-Obj _3512646_37 = makeCons(co->gc, _3512643_37, _3512645_37);
-Obj _3512647_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512646_37);
-Obj _3512648_37 = makeCons(co->gc, _3512647_37, Nil);
-Obj _3512649_37 = makeCons(co->gc, _3512642_37, _3512648_37);
-Obj _3512650_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512649_37);
-coraReturn(co, _3512650_37);
+Obj _3512646_37 = makeCons(co->gc, _3512639_37, _3512645_37);
+Obj _3512647_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512646_37);
+coraReturn(co, _3512647_37);
 return;
 }
 case 2:
 {
-Obj _3512643_37= co->res;
+Obj _3512640_37= co->res;
 Obj exp = R[1];
-Obj _3512642_37 = R[2];
-R[1] = _3512643_37;
-R[2] = _3512642_37;
+Obj _3512639_37 = R[2];
+R[1] = _3512640_37;
+R[2] = _3512639_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
 return;
 }
 case 3:
 {
-Obj _3512642_37= co->res;
+Obj _3512639_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-R[2] = _3512642_37;
+R[2] = _3512639_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3773,9 +3773,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512640_37 = PRIM_CDR(exp);
+Obj _3512637_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512640_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512637_37);
 return;
 }
 }
@@ -3793,36 +3793,36 @@ return;
 }
 case 1:
 {
-Obj _3512632_37= co->res;
-Obj _3512631_37 = R[1];
-Obj _3512630_37 = R[2];
-Obj _3512633_37 = makeCons(co->gc, _3512631_37, _3512632_37);
-Obj _3512634_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512633_37);
-Obj _3512635_37 = makeCons(co->gc, _3512634_37, Nil);
-Obj _3512636_37 = makeCons(co->gc, _3512630_37, _3512635_37);
-Obj _3512637_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512636_37);
-coraReturn(co, _3512637_37);
+Obj _3512629_37= co->res;
+Obj _3512628_37 = R[1];
+Obj _3512627_37 = R[2];
+Obj _3512630_37 = makeCons(co->gc, _3512628_37, _3512629_37);
+Obj _3512631_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512630_37);
+Obj _3512632_37 = makeCons(co->gc, _3512631_37, Nil);
+Obj _3512633_37 = makeCons(co->gc, _3512627_37, _3512632_37);
+Obj _3512634_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512633_37);
+coraReturn(co, _3512634_37);
 return;
 }
 case 2:
 {
-Obj _3512631_37= co->res;
+Obj _3512628_37= co->res;
 Obj exp = R[1];
-Obj _3512630_37 = R[2];
-R[1] = _3512631_37;
-R[2] = _3512630_37;
+Obj _3512627_37 = R[2];
+R[1] = _3512628_37;
+R[2] = _3512627_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
 return;
 }
 case 3:
 {
-Obj _3512628_37= co->res;
+Obj _3512625_37= co->res;
 Obj exp = R[1];
-Obj _3512629_37 = makeCons(co->gc, _3512628_37, Nil);
-Obj _3512630_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512629_37);
+Obj _3512626_37 = makeCons(co->gc, _3512625_37, Nil);
+Obj _3512627_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512626_37);
 R[1] = exp;
-R[2] = _3512630_37;
+R[2] = _3512627_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3835,26 +3835,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512610_37 = PRIM_ISCONS(exp);
-if (True == _3512610_37) {
-Obj _3512611_37 = PRIM_CAR(exp);
-Obj _3512612_37 = PRIM_EQ(_3512611_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3512612_37) {
-Obj _3512613_37 = PRIM_CDR(exp);
-coraReturn(co, _3512613_37);
+Obj _3512607_37 = PRIM_ISCONS(exp);
+if (True == _3512607_37) {
+Obj _3512608_37 = PRIM_CAR(exp);
+Obj _3512609_37 = PRIM_EQ(_3512608_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == _3512609_37) {
+Obj _3512610_37 = PRIM_CDR(exp);
+coraReturn(co, _3512610_37);
 return;
 } else {
-Obj _3512614_37 = PRIM_CAR(exp);
-Obj _3512615_37 = PRIM_EQ(_3512614_37, getBinding(co, packageID, 140).name);
-if (True == _3512615_37) {
+Obj _3512611_37 = PRIM_CAR(exp);
+Obj _3512612_37 = PRIM_EQ(_3512611_37, getBinding(co, packageID, 140).name);
+if (True == _3512612_37) {
 R[1] = exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
 } else {
-Obj _3512622_37 = PRIM_CAR(exp);
-Obj _3512623_37 = PRIM_EQ(_3512622_37, getBinding(co, packageID, 139).name);
-if (True == _3512623_37) {
+Obj _3512619_37 = PRIM_CAR(exp);
+Obj _3512620_37 = PRIM_EQ(_3512619_37, getBinding(co, packageID, 139).name);
+if (True == _3512620_37) {
 coraReturn(co, exp);
 return;
 } else {
@@ -3872,38 +3872,38 @@ return;
 }
 case 1:
 {
-Obj _3512618_37= co->res;
-Obj _3512616_37 = R[1];
-Obj _3512619_37 = makeCons(co->gc, _3512618_37, Nil);
-Obj _3512620_37 = makeCons(co->gc, _3512616_37, _3512619_37);
-Obj _3512621_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512620_37);
-coraReturn(co, _3512621_37);
+Obj _3512615_37= co->res;
+Obj _3512613_37 = R[1];
+Obj _3512616_37 = makeCons(co->gc, _3512615_37, Nil);
+Obj _3512617_37 = makeCons(co->gc, _3512613_37, _3512616_37);
+Obj _3512618_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512617_37);
+coraReturn(co, _3512618_37);
 return;
 }
 case 2:
 {
-Obj _3512617_37= co->res;
-Obj _3512616_37 = R[1];
-R[1] = _3512616_37;
+Obj _3512614_37= co->res;
+Obj _3512613_37 = R[1];
+R[1] = _3512613_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512617_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512614_37);
 return;
 }
 case 3:
 {
-Obj _3512616_37= co->res;
+Obj _3512613_37= co->res;
 Obj exp = R[1];
-R[1] = _3512616_37;
+R[1] = _3512613_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
 }
 case 4:
 {
-Obj _3512625_37= co->res;
+Obj _3512622_37= co->res;
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512625_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512622_37);
 return;
 }
 }
@@ -3914,8 +3914,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp1 = R[1];
-Obj _3512624_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512624_37) {
+Obj _3512621_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
+if (True == _3512621_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
 return;
@@ -3946,14 +3946,14 @@ case 0:
 {
 Obj exp = R[1];
 Obj macros = R[2];
-Obj _3512600_37 = PRIM_EQ(Nil, macros);
-if (True == _3512600_37) {
+Obj _3512597_37 = PRIM_EQ(Nil, macros);
+if (True == _3512597_37) {
 coraReturn(co, exp);
 return;
 } else {
-Obj _3512607_37 = PRIM_CAR(macros);
+Obj _3512604_37 = PRIM_CAR(macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512607_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512604_37);
 return;
 }
 }
@@ -3965,24 +3965,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj item = R[1];
-Obj _3512528_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512603_37 = PRIM_ISCONS(closureRef(R[0], 1));
+Obj _3512525_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3512600_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3512600_37) {
+Obj _3512601_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512602_37 = PRIM_CAR(item);
+Obj _3512603_37 = PRIM_EQ(_3512601_37, _3512602_37);
 if (True == _3512603_37) {
-Obj _3512604_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512605_37 = PRIM_CAR(item);
-Obj _3512606_37 = PRIM_EQ(_3512604_37, _3512605_37);
-if (True == _3512606_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512528_37, True);
+coraCall1(co, _3512525_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512528_37, False);
+coraCall1(co, _3512525_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512528_37, False);
+coraCall1(co, _3512525_37, False);
 return;
 }
 }
@@ -3993,16 +3993,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512529_37 = R[1];
-if (True == _3512529_37) {
-Obj _3512601_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512526_37 = R[1];
+if (True == _3512526_37) {
+Obj _3512598_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512601_37, closureRef(R[0], 1));
+coraCall1(co, _3512598_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512602_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3512599_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512602_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512599_37);
 return;
 }
 }
@@ -4015,10 +4015,10 @@ case 0:
 {
 Obj n = R[1];
 Obj v = R[2];
-Obj _3512596_37 = makeCons(co->gc, n, v);
-Obj _3512597_37 = makeCons(co->gc, _3512596_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3512598_37 = primSet(co, getBinding(co, packageID, 146).name, _3512597_37);
-coraReturn(co, _3512598_37);
+Obj _3512593_37 = makeCons(co->gc, n, v);
+Obj _3512594_37 = makeCons(co->gc, _3512593_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj _3512595_37 = primSet(co, getBinding(co, packageID, 146).name, _3512594_37);
+coraReturn(co, _3512595_37);
 return;
 }
 }
@@ -4044,14 +4044,14 @@ case 0:
 Obj res = R[1];
 Obj f = R[2];
 Obj l = R[3];
-Obj _3512586_37 = PRIM_ISCONS(l);
-if (True == _3512586_37) {
-Obj _3512587_37 = PRIM_CAR(l);
+Obj _3512583_37 = PRIM_ISCONS(l);
+if (True == _3512583_37) {
+Obj _3512584_37 = PRIM_CAR(l);
 R[1] = res;
 R[2] = l;
 R[3] = f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512587_37);
+coraCall1(co, f, _3512584_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4061,14 +4061,14 @@ return;
 }
 case 1:
 {
-Obj _3512588_37= co->res;
+Obj _3512585_37= co->res;
 Obj res = R[1];
 Obj l = R[2];
 Obj f = R[3];
-Obj _3512589_37 = makeCons(co->gc, _3512588_37, res);
-Obj _3512590_37 = PRIM_CDR(l);
+Obj _3512586_37 = makeCons(co->gc, _3512585_37, res);
+Obj _3512587_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512589_37, f, _3512590_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512586_37, f, _3512587_37);
 return;
 }
 }
@@ -4080,13 +4080,13 @@ case 0:
 {
 Obj res = R[1];
 Obj l = R[2];
-Obj _3512579_37 = PRIM_ISCONS(l);
-if (True == _3512579_37) {
-Obj _3512580_37 = PRIM_CAR(l);
-Obj _3512581_37 = makeCons(co->gc, _3512580_37, res);
-Obj _3512582_37 = PRIM_CDR(l);
+Obj _3512576_37 = PRIM_ISCONS(l);
+if (True == _3512576_37) {
+Obj _3512577_37 = PRIM_CAR(l);
+Obj _3512578_37 = makeCons(co->gc, _3512577_37, res);
+Obj _3512579_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512581_37, _3512582_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512578_37, _3512579_37);
 return;
 } else {
 coraReturn(co, res);
@@ -4101,8 +4101,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512577_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512577_37);
+Obj _3512574_37 = PRIM_ISCONS(x);
+coraReturn(co, _3512574_37);
 return;
 }
 }
@@ -4113,13 +4113,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512569_37 = PRIM_ISCONS(exp);
-if (True == _3512569_37) {
-Obj _3512570_37 = PRIM_CAR(exp);
-Obj _3512571_37 = PRIM_CDR(exp);
-R[1] = _3512570_37;
+Obj _3512566_37 = PRIM_ISCONS(exp);
+if (True == _3512566_37) {
+Obj _3512567_37 = PRIM_CAR(exp);
+Obj _3512568_37 = PRIM_CDR(exp);
+R[1] = _3512567_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512571_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512568_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4128,12 +4128,12 @@ return;
 }
 case 1:
 {
-Obj _3512572_37= co->res;
-Obj _3512570_37 = R[1];
-Obj _3512573_37 = makeCons(co->gc, _3512572_37, Nil);
-Obj _3512574_37 = makeCons(co->gc, _3512570_37, _3512573_37);
-Obj _3512575_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512574_37);
-coraReturn(co, _3512575_37);
+Obj _3512569_37= co->res;
+Obj _3512567_37 = R[1];
+Obj _3512570_37 = makeCons(co->gc, _3512569_37, Nil);
+Obj _3512571_37 = makeCons(co->gc, _3512567_37, _3512570_37);
+Obj _3512572_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512571_37);
+coraReturn(co, _3512572_37);
 return;
 }
 }
@@ -4144,10 +4144,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512565_37 = PRIM_CDR(x);
-Obj _3512566_37 = PRIM_CDR(_3512565_37);
-Obj _3512567_37 = PRIM_CDR(_3512566_37);
-coraReturn(co, _3512567_37);
+Obj _3512562_37 = PRIM_CDR(x);
+Obj _3512563_37 = PRIM_CDR(_3512562_37);
+Obj _3512564_37 = PRIM_CDR(_3512563_37);
+coraReturn(co, _3512564_37);
 return;
 }
 }
@@ -4158,11 +4158,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512560_37 = PRIM_CDR(x);
-Obj _3512561_37 = PRIM_CDR(_3512560_37);
-Obj _3512562_37 = PRIM_CDR(_3512561_37);
-Obj _3512563_37 = PRIM_CAR(_3512562_37);
-coraReturn(co, _3512563_37);
+Obj _3512557_37 = PRIM_CDR(x);
+Obj _3512558_37 = PRIM_CDR(_3512557_37);
+Obj _3512559_37 = PRIM_CDR(_3512558_37);
+Obj _3512560_37 = PRIM_CAR(_3512559_37);
+coraReturn(co, _3512560_37);
 return;
 }
 }
@@ -4173,10 +4173,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512556_37 = PRIM_CDR(x);
-Obj _3512557_37 = PRIM_CDR(_3512556_37);
-Obj _3512558_37 = PRIM_CAR(_3512557_37);
-coraReturn(co, _3512558_37);
+Obj _3512553_37 = PRIM_CDR(x);
+Obj _3512554_37 = PRIM_CDR(_3512553_37);
+Obj _3512555_37 = PRIM_CAR(_3512554_37);
+coraReturn(co, _3512555_37);
 return;
 }
 }
@@ -4187,9 +4187,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512553_37 = PRIM_CDR(x);
-Obj _3512554_37 = PRIM_CDR(_3512553_37);
-coraReturn(co, _3512554_37);
+Obj _3512550_37 = PRIM_CDR(x);
+Obj _3512551_37 = PRIM_CDR(_3512550_37);
+coraReturn(co, _3512551_37);
 return;
 }
 }
@@ -4200,9 +4200,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512550_37 = PRIM_CAR(x);
-Obj _3512551_37 = PRIM_CDR(_3512550_37);
-coraReturn(co, _3512551_37);
+Obj _3512547_37 = PRIM_CAR(x);
+Obj _3512548_37 = PRIM_CDR(_3512547_37);
+coraReturn(co, _3512548_37);
 return;
 }
 }
@@ -4213,9 +4213,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512547_37 = PRIM_CAR(x);
-Obj _3512548_37 = PRIM_CAR(_3512547_37);
-coraReturn(co, _3512548_37);
+Obj _3512544_37 = PRIM_CAR(x);
+Obj _3512545_37 = PRIM_CAR(_3512544_37);
+coraReturn(co, _3512545_37);
 return;
 }
 }
@@ -4226,9 +4226,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512544_37 = PRIM_CDR(x);
-Obj _3512545_37 = PRIM_CAR(_3512544_37);
-coraReturn(co, _3512545_37);
+Obj _3512541_37 = PRIM_CDR(x);
+Obj _3512542_37 = PRIM_CAR(_3512541_37);
+coraReturn(co, _3512542_37);
 return;
 }
 }
@@ -4239,8 +4239,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512542_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512542_37);
+Obj _3512539_37 = PRIM_EQ(x, Nil);
+coraReturn(co, _3512539_37);
 return;
 }
 }
diff --git a/lib/io.c b/lib/io.c
index c10e6c1..f67c390 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -57,6 +57,8 @@ builtinOpenOutputFile(struct Cora *co, int label, Obj *R) {
 	FILE *f = fopen(filePath.str, "w");
 	if (f == NULL) {
 		fprintf(stderr, "Failed to open file '%s', err: %s\n", filePath.str, strerror(errno));
+		coraReturn(co, Nil);
+		return;
 	}
 	coraReturn(co, makeCObj(f));
 	return;
@@ -66,8 +68,10 @@ static void
 builtinCloseOutputFile(Cora *co, int label, Obj *R) {
 	Obj arg1 = R[1];
 	FILE *f = mustCObj(arg1);
-	int ret = fclose(f);
-	if (ret != 0) {
+	// fclose does not report the error of an earlier write.
+	int ret = ferror(f);
+	if (fclose(f) != 0 || ret != 0) {
+		ret = -1;
 		fprintf(stderr, "Failed to close file, err: %s\n", strerror(errno));
 	}
 	coraReturn(co, makeNumber(ret));
diff --git a/lib/toc.c b/lib/toc.c
index dfb0dc8..1d2a2aa 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,7 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun146(struct Cora* co, int label, Obj *R);
 static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
 static void clofun143(struct Cora* co, int label, Obj *R);
@@ -152,399 +153,453 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 131);
-__symbolTable[0] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
-__symbolTable[1] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
-__symbolTable[2] = bindSymbol(co, intern("cora/init#macroexpand"));
-__symbolTable[3] = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
-__symbolTable[4] = bindSymbol(co, intern("cora/init#read-file-as-sexp"));
-__symbolTable[5] = bindSymbol(co, intern("cora/lib/toc#preprocess"));
-__symbolTable[6] = bindSymbol(co, intern("cora/lib/toc#split-type-and-code-toplevel"));
-__symbolTable[7] = bindSymbol(co, intern("cora/lib/infer#*typecheck*"));
-__symbolTable[8] = bindSymbol(co, intern("cora/lib/toc#generate-typecheck-code"));
-__symbolTable[9] = bindSymbol(co, intern("cora/lib/toc#extract-typecheck-body"));
-__symbolTable[10] = bindSymbol(co, intern(":type"));
-__symbolTable[11] = bindSymbol(co, intern("declare"));
-__symbolTable[12] = bindSymbol(co, intern(":declare"));
-__symbolTable[13] = bindSymbol(co, intern("cora/lib/infer#tvar"));
-__symbolTable[14] = bindSymbol(co, intern("backquote"));
-__symbolTable[15] = bindSymbol(co, intern("macroexpand"));
-__symbolTable[16] = bindSymbol(co, intern("cora/lib/infer#check-type!"));
-__symbolTable[17] = bindSymbol(co, intern("cora/lib/toc#split-type-and-code"));
-__symbolTable[18] = bindSymbol(co, intern("package"));
-__symbolTable[19] = bindSymbol(co, intern("begin"));
-__symbolTable[20] = bindSymbol(co, intern("export"));
-__symbolTable[21] = bindSymbol(co, intern("import"));
-__symbolTable[22] = bindSymbol(co, intern("cora/lib/toc#handle-import-eagerly"));
-__symbolTable[23] = bindSymbol(co, intern("cora/lib/toc#generate-c"));
-__symbolTable[24] = bindSymbol(co, intern("cora/init#symbol->string"));
-__symbolTable[25] = bindSymbol(co, intern("cora/lib/toc#generate-entry"));
-__symbolTable[26] = bindSymbol(co, intern("cora/lib/toc#generate-toplevel-lambda"));
-__symbolTable[27] = bindSymbol(co, intern("cora/lib/toc#for-each"));
-__symbolTable[28] = bindSymbol(co, intern("cora/lib/toc#compile"));
-__symbolTable[29] = bindSymbol(co, intern("cora/init#cddr"));
-__symbolTable[30] = bindSymbol(co, intern("->"));
-__symbolTable[31] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
-__symbolTable[32] = bindSymbol(co, intern("cora/lib/toc#rewrite-->macro"));
-__symbolTable[33] = bindSymbol(co, intern("cora/init#vector"));
-__symbolTable[34] = bindSymbol(co, intern("cora/lib/toc#collect-lambda-pass"));
-__symbolTable[35] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze-pass"));
-__symbolTable[36] = bindSymbol(co, intern("cora/lib/toc#tailify-pass"));
-__symbolTable[37] = bindSymbol(co, intern("cora/lib/toc#closure-convert-pass"));
-__symbolTable[38] = bindSymbol(co, intern("cora/lib/toc#parse-pass"));
-__symbolTable[39] = bindSymbol(co, intern("cora/lib/toc#code-gen-func-declare"));
-__symbolTable[40] = bindSymbol(co, intern("cora/lib/toc#generate-cont"));
-__symbolTable[41] = bindSymbol(co, intern("cora/lib/toc/internal#escape-str"));
-__symbolTable[42] = bindSymbol(co, intern("cora/lib/toc#generate-group-name"));
-__symbolTable[43] = bindSymbol(co, intern("cora/lib/toc#generate-inst-list"));
-__symbolTable[44] = bindSymbol(co, intern("cora/lib/toc/internal#generate-sym"));
-__symbolTable[45] = bindSymbol(co, intern("cora/lib/toc#recover-from-frame"));
-__symbolTable[46] = bindSymbol(co, intern("cora/lib/toc#generate-inst"));
-__symbolTable[47] = bindSymbol(co, intern("cora/lib/toc/internal#generate-num"));
-__symbolTable[48] = bindSymbol(co, intern("cora/lib/toc/internal#generate-str"));
-__symbolTable[49] = bindSymbol(co, intern("cora/lib/toc#save-to-frame"));
-__symbolTable[50] = bindSymbol(co, intern("cora/lib/toc#symbol-offset"));
-__symbolTable[51] = bindSymbol(co, intern("cora/lib/toc#symbol-offset-h"));
-__symbolTable[52] = bindSymbol(co, intern("cora/init#value"));
-__symbolTable[53] = bindSymbol(co, intern("cora/init#vector-set!"));
-__symbolTable[54] = bindSymbol(co, intern("cora/lib/toc#append-result"));
-__symbolTable[55] = bindSymbol(co, intern("cora/init#vector-ref"));
-__symbolTable[56] = bindSymbol(co, intern("cora/lib/toc#collect-lambda"));
-__symbolTable[57] = bindSymbol(co, intern("cora/lib/toc#lambda-frame-size"));
-__symbolTable[58] = bindSymbol(co, intern("cora/lib/toc#rewrite-lambda-final"));
-__symbolTable[59] = bindSymbol(co, intern("cora/init#cdddr"));
-__symbolTable[60] = bindSymbol(co, intern("cora/lib/toc#collect-cont-list"));
-__symbolTable[61] = bindSymbol(co, intern("cora/lib/toc#collect-cont"));
-__symbolTable[62] = bindSymbol(co, intern("%continuation"));
-__symbolTable[63] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
-__symbolTable[64] = bindSymbol(co, intern("cora/init#caar"));
-__symbolTable[65] = bindSymbol(co, intern("cora/init#pair?"));
-__symbolTable[66] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
-__symbolTable[67] = bindSymbol(co, intern("cora/init#reverse"));
-__symbolTable[68] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
-__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#tailify"));
-__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#id"));
-__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
-__symbolTable[72] = bindSymbol(co, intern("return"));
-__symbolTable[73] = bindSymbol(co, intern("call"));
-__symbolTable[74] = bindSymbol(co, intern("tailcall"));
-__symbolTable[75] = bindSymbol(co, intern("continuation"));
-__symbolTable[76] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
-__symbolTable[77] = bindSymbol(co, intern("%closure-ref"));
-__symbolTable[78] = bindSymbol(co, intern("%closure"));
-__symbolTable[79] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
-__symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#diff"));
-__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#union"));
-__symbolTable[82] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[84] = bindSymbol(co, intern("quote"));
-__symbolTable[85] = bindSymbol(co, intern("do"));
-__symbolTable[86] = bindSymbol(co, intern("let"));
-__symbolTable[87] = bindSymbol(co, intern("if"));
-__symbolTable[88] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[89] = bindSymbol(co, intern("lambda"));
-__symbolTable[90] = bindSymbol(co, intern("%builtin"));
-__symbolTable[91] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[93] = bindSymbol(co, intern("%global"));
-__symbolTable[94] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[95] = bindSymbol(co, intern("cora/init#elem?"));
-__symbolTable[96] = bindSymbol(co, intern("%const"));
-__symbolTable[97] = bindSymbol(co, intern("cora/lib/toc#parse"));
-__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
-__symbolTable[99] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
-__symbolTable[101] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
-__symbolTable[103] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
-__symbolTable[105] = bindSymbol(co, intern("string?"));
-__symbolTable[106] = bindSymbol(co, intern("integer?"));
-__symbolTable[107] = bindSymbol(co, intern("not"));
-__symbolTable[108] = bindSymbol(co, intern("symbol?"));
-__symbolTable[109] = bindSymbol(co, intern("gensym"));
-__symbolTable[110] = bindSymbol(co, intern("<"));
-__symbolTable[111] = bindSymbol(co, intern(">"));
-__symbolTable[112] = bindSymbol(co, intern("="));
-__symbolTable[113] = bindSymbol(co, intern("/"));
-__symbolTable[114] = bindSymbol(co, intern("*"));
-__symbolTable[115] = bindSymbol(co, intern("-"));
-__symbolTable[116] = bindSymbol(co, intern("+"));
-__symbolTable[117] = bindSymbol(co, intern("cons?"));
-__symbolTable[118] = bindSymbol(co, intern("cons"));
-__symbolTable[119] = bindSymbol(co, intern("cdr"));
-__symbolTable[120] = bindSymbol(co, intern("car"));
-__symbolTable[121] = bindSymbol(co, intern("set"));
-__symbolTable[122] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
-__symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
-__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#index"));
-__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
-__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#error"));
-__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
-__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
-__symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
+Binding *__symbolTable = malloc(sizeof(Binding) * 133);
+__symbolTable[0] = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
+__symbolTable[1] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
+__symbolTable[2] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
+__symbolTable[3] = bindSymbol(co, intern("cora/init#macroexpand"));
+__symbolTable[4] = bindSymbol(co, intern("cora/lib/toc#compile-exp-to-c"));
+__symbolTable[5] = bindSymbol(co, intern("cora/init#read-file-as-sexp"));
+__symbolTable[6] = bindSymbol(co, intern("cora/lib/toc#preprocess"));
+__symbolTable[7] = bindSymbol(co, intern("cora/lib/toc#split-type-and-code-toplevel"));
+__symbolTable[8] = bindSymbol(co, intern("cora/lib/infer#*typecheck*"));
+__symbolTable[9] = bindSymbol(co, intern("cora/lib/toc#generate-typecheck-code"));
+__symbolTable[10] = bindSymbol(co, intern("cora/lib/toc#extract-typecheck-body"));
+__symbolTable[11] = bindSymbol(co, intern(":type"));
+__symbolTable[12] = bindSymbol(co, intern("declare"));
+__symbolTable[13] = bindSymbol(co, intern(":declare"));
+__symbolTable[14] = bindSymbol(co, intern("cora/lib/infer#tvar"));
+__symbolTable[15] = bindSymbol(co, intern("backquote"));
+__symbolTable[16] = bindSymbol(co, intern("macroexpand"));
+__symbolTable[17] = bindSymbol(co, intern("cora/lib/infer#check-type!"));
+__symbolTable[18] = bindSymbol(co, intern("cora/lib/toc#split-type-and-code"));
+__symbolTable[19] = bindSymbol(co, intern("package"));
+__symbolTable[20] = bindSymbol(co, intern("begin"));
+__symbolTable[21] = bindSymbol(co, intern("export"));
+__symbolTable[22] = bindSymbol(co, intern("cora/init#*imported*"));
+__symbolTable[23] = bindSymbol(co, intern("import"));
+__symbolTable[24] = bindSymbol(co, intern("cora/lib/toc#handle-import-eagerly"));
+__symbolTable[25] = bindSymbol(co, intern("cora/lib/toc#generate-c"));
+__symbolTable[26] = bindSymbol(co, intern("cora/init#symbol->string"));
+__symbolTable[27] = bindSymbol(co, intern("cora/lib/toc#generate-entry"));
+__symbolTable[28] = bindSymbol(co, intern("cora/lib/toc#generate-toplevel-lambda"));
+__symbolTable[29] = bindSymbol(co, intern("cora/lib/toc#for-each"));
+__symbolTable[30] = bindSymbol(co, intern("cora/lib/toc#compile"));
+__symbolTable[31] = bindSymbol(co, intern("cora/init#cddr"));
+__symbolTable[32] = bindSymbol(co, intern("->"));
+__symbolTable[33] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
+__symbolTable[34] = bindSymbol(co, intern("cora/lib/toc#rewrite-->macro"));
+__symbolTable[35] = bindSymbol(co, intern("cora/init#vector"));
+__symbolTable[36] = bindSymbol(co, intern("cora/lib/toc#collect-lambda-pass"));
+__symbolTable[37] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze-pass"));
+__symbolTable[38] = bindSymbol(co, intern("cora/lib/toc#tailify-pass"));
+__symbolTable[39] = bindSymbol(co, intern("cora/lib/toc#closure-convert-pass"));
+__symbolTable[40] = bindSymbol(co, intern("cora/lib/toc#parse-pass"));
+__symbolTable[41] = bindSymbol(co, intern("cora/lib/toc#code-gen-func-declare"));
+__symbolTable[42] = bindSymbol(co, intern("cora/lib/toc#generate-cont"));
+__symbolTable[43] = bindSymbol(co, intern("cora/lib/toc/internal#escape-str"));
+__symbolTable[44] = bindSymbol(co, intern("cora/lib/toc#generate-group-name"));
+__symbolTable[45] = bindSymbol(co, intern("cora/lib/toc#generate-inst-list"));
+__symbolTable[46] = bindSymbol(co, intern("cora/lib/toc/internal#generate-sym"));
+__symbolTable[47] = bindSymbol(co, intern("cora/lib/toc#recover-from-frame"));
+__symbolTable[48] = bindSymbol(co, intern("cora/lib/toc#generate-inst"));
+__symbolTable[49] = bindSymbol(co, intern("cora/lib/toc/internal#generate-num"));
+__symbolTable[50] = bindSymbol(co, intern("cora/lib/toc/internal#generate-str"));
+__symbolTable[51] = bindSymbol(co, intern("cora/lib/toc#save-to-frame"));
+__symbolTable[52] = bindSymbol(co, intern("cora/lib/toc#symbol-offset"));
+__symbolTable[53] = bindSymbol(co, intern("cora/lib/toc#symbol-offset-h"));
+__symbolTable[54] = bindSymbol(co, intern("cora/init#value"));
+__symbolTable[55] = bindSymbol(co, intern("cora/init#vector-set!"));
+__symbolTable[56] = bindSymbol(co, intern("cora/lib/toc#append-result"));
+__symbolTable[57] = bindSymbol(co, intern("cora/init#vector-ref"));
+__symbolTable[58] = bindSymbol(co, intern("cora/lib/toc#collect-lambda"));
+__symbolTable[59] = bindSymbol(co, intern("cora/lib/toc#lambda-frame-size"));
+__symbolTable[60] = bindSymbol(co, intern("cora/lib/toc#rewrite-lambda-final"));
+__symbolTable[61] = bindSymbol(co, intern("cora/init#cdddr"));
+__symbolTable[62] = bindSymbol(co, intern("cora/lib/toc#collect-cont-list"));
+__symbolTable[63] = bindSymbol(co, intern("cora/lib/toc#collect-cont"));
+__symbolTable[64] = bindSymbol(co, intern("%continuation"));
+__symbolTable[65] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
+__symbolTable[66] = bindSymbol(co, intern("cora/init#caar"));
+__symbolTable[67] = bindSymbol(co, intern("cora/init#pair?"));
+__symbolTable[68] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
+__symbolTable[69] = bindSymbol(co, intern("cora/init#reverse"));
+__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
+__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#tailify"));
+__symbolTable[72] = bindSymbol(co, intern("cora/lib/toc#id"));
+__symbolTable[73] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
+__symbolTable[74] = bindSymbol(co, intern("return"));
+__symbolTable[75] = bindSymbol(co, intern("call"));
+__symbolTable[76] = bindSymbol(co, intern("tailcall"));
+__symbolTable[77] = bindSymbol(co, intern("continuation"));
+__symbolTable[78] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
+__symbolTable[79] = bindSymbol(co, intern("%closure-ref"));
+__symbolTable[80] = bindSymbol(co, intern("%closure"));
+__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
+__symbolTable[82] = bindSymbol(co, intern("cora/lib/toc#diff"));
+__symbolTable[83] = bindSymbol(co, intern("cora/lib/toc#union"));
+__symbolTable[84] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[85] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[86] = bindSymbol(co, intern("quote"));
+__symbolTable[87] = bindSymbol(co, intern("do"));
+__symbolTable[88] = bindSymbol(co, intern("let"));
+__symbolTable[89] = bindSymbol(co, intern("if"));
+__symbolTable[90] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[91] = bindSymbol(co, intern("lambda"));
+__symbolTable[92] = bindSymbol(co, intern("%builtin"));
+__symbolTable[93] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[94] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[95] = bindSymbol(co, intern("%global"));
+__symbolTable[96] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
+__symbolTable[97] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[98] = bindSymbol(co, intern("%const"));
+__symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#parse"));
+__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
+__symbolTable[101] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
+__symbolTable[103] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
+__symbolTable[105] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[106] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
+__symbolTable[107] = bindSymbol(co, intern("string?"));
+__symbolTable[108] = bindSymbol(co, intern("integer?"));
+__symbolTable[109] = bindSymbol(co, intern("not"));
+__symbolTable[110] = bindSymbol(co, intern("symbol?"));
+__symbolTable[111] = bindSymbol(co, intern("gensym"));
+__symbolTable[112] = bindSymbol(co, intern("<"));
+__symbolTable[113] = bindSymbol(co, intern(">"));
+__symbolTable[114] = bindSymbol(co, intern("="));
+__symbolTable[115] = bindSymbol(co, intern("/"));
+__symbolTable[116] = bindSymbol(co, intern("*"));
+__symbolTable[117] = bindSymbol(co, intern("-"));
+__symbolTable[118] = bindSymbol(co, intern("+"));
+__symbolTable[119] = bindSymbol(co, intern("cons?"));
+__symbolTable[120] = bindSymbol(co, intern("cons"));
+__symbolTable[121] = bindSymbol(co, intern("cdr"));
+__symbolTable[122] = bindSymbol(co, intern("car"));
+__symbolTable[123] = bindSymbol(co, intern("set"));
+__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
+__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
+__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#index"));
+__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
+__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#foldl"));
+__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#error"));
+__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#assq"));
+__symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
+__symbolTable[132] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
-coraCall0(co, makeNative(co->gc, 1, clofun145, 0, 0));
+coraCall0(co, makeNative(co->gc, 1, clofun146, 0, 0));
 }
 
-static void clofun145(struct Cora* co, int label, Obj *R) {
+static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun145, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/toc/internal"));
+saveCont(co, clofun146, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj _3518239_37= co->res;
-Obj _3518245_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518251_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj _3518273_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun114, 3, 0));
-Obj _3518293_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun116, 4, 0));
-Obj _3518306_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun119, 3, 0));
-Obj _3518347_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
-Obj _3518386_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
-Obj _3518438_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518439_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj _3518453_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
-Obj _3518454_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3518467_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
-Obj _3518477_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
-coraReturn(co, _3518477_37);
+Obj _3518236_37= co->res;
+Obj _3518242_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj _3518248_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj _3518270_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun114, 3, 0));
+Obj _3518290_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun116, 4, 0));
+Obj _3518303_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun119, 3, 0));
+Obj _3518345_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun124, 1, 0));
+Obj _3518384_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun127, 4, 0));
+Obj _3518436_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj _3518437_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj _3518451_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun141, 1, 0));
+Obj _3518452_37 = primSet(co, getBinding(co, packageID, 8).name, False);
+Obj _3518456_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun143, 1, 0));
+Obj _3518468_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun144, 2, 0));
+Obj _3518471_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun145, 2, 0));
+coraReturn(co, _3518471_37);
 return;
 }
 case 2:
 {
-Obj _3516855_37= co->res;
-Obj _3516856_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3516871_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516877_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516887_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516888_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516895_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516896_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516897_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516896_37);
-Obj _3516898_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516897_37);
-Obj _3516899_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3516852_37= co->res;
+Obj _3516853_37 = primSet(co, getBinding(co, packageID, 131).name, Nil);
+Obj _3516868_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj _3516874_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj _3516884_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj _3516885_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj _3516892_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj _3516893_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3516894_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516893_37);
+Obj _3516895_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, _3516894_37);
+Obj _3516896_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3516897_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516896_37);
+Obj _3516898_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, _3516897_37);
+Obj _3516899_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
 Obj _3516900_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516899_37);
-Obj _3516901_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516900_37);
-Obj _3516902_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516903_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516902_37);
-Obj _3516904_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516903_37);
-Obj _3516905_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516906_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516905_37);
-Obj _3516907_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516906_37);
-Obj _3516908_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516909_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516908_37);
-Obj _3516910_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516909_37);
-Obj _3516911_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3516901_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516900_37);
+Obj _3516902_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3516903_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516902_37);
+Obj _3516904_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516903_37);
+Obj _3516905_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3516906_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516905_37);
+Obj _3516907_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516906_37);
+Obj _3516908_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3516909_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516908_37);
+Obj _3516910_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516909_37);
+Obj _3516911_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
 Obj _3516912_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516911_37);
-Obj _3516913_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516912_37);
-Obj _3516914_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3516913_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516912_37);
+Obj _3516914_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
 Obj _3516915_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516914_37);
-Obj _3516916_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516915_37);
-Obj _3516917_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3516916_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516915_37);
+Obj _3516917_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
 Obj _3516918_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516917_37);
-Obj _3516919_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516918_37);
-Obj _3516920_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3516919_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516918_37);
+Obj _3516920_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
 Obj _3516921_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516920_37);
-Obj _3516922_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516921_37);
-Obj _3516923_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3516922_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516921_37);
+Obj _3516923_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
 Obj _3516924_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516923_37);
-Obj _3516925_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516924_37);
-Obj _3516926_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3516925_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516924_37);
+Obj _3516926_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
 Obj _3516927_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516926_37);
-Obj _3516928_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516927_37);
-Obj _3516929_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516930_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516929_37);
-Obj _3516931_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516930_37);
-Obj _3516932_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516933_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516932_37);
-Obj _3516934_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516933_37);
-Obj _3516935_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3516928_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516927_37);
+Obj _3516929_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3516930_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516929_37);
+Obj _3516931_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516930_37);
+Obj _3516932_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3516933_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516932_37);
+Obj _3516934_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516933_37);
+Obj _3516935_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
 Obj _3516936_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516935_37);
-Obj _3516937_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516936_37);
-Obj _3516938_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3516937_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516936_37);
+Obj _3516938_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
 Obj _3516939_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516938_37);
-Obj _3516940_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516939_37);
-Obj _3516941_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3516940_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516939_37);
+Obj _3516941_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
 Obj _3516942_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516941_37);
-Obj _3516943_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516942_37);
-Obj _3516944_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516945_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516944_37);
-Obj _3516946_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516945_37);
-Obj _3516947_37 = makeCons(co->gc, _3516946_37, Nil);
-Obj _3516948_37 = makeCons(co->gc, _3516943_37, _3516947_37);
-Obj _3516949_37 = makeCons(co->gc, _3516940_37, _3516948_37);
-Obj _3516950_37 = makeCons(co->gc, _3516937_37, _3516949_37);
-Obj _3516951_37 = makeCons(co->gc, _3516934_37, _3516950_37);
-Obj _3516952_37 = makeCons(co->gc, _3516931_37, _3516951_37);
-Obj _3516953_37 = makeCons(co->gc, _3516928_37, _3516952_37);
-Obj _3516954_37 = makeCons(co->gc, _3516925_37, _3516953_37);
-Obj _3516955_37 = makeCons(co->gc, _3516922_37, _3516954_37);
-Obj _3516956_37 = makeCons(co->gc, _3516919_37, _3516955_37);
-Obj _3516957_37 = makeCons(co->gc, _3516916_37, _3516956_37);
-Obj _3516958_37 = makeCons(co->gc, _3516913_37, _3516957_37);
-Obj _3516959_37 = makeCons(co->gc, _3516910_37, _3516958_37);
-Obj _3516960_37 = makeCons(co->gc, _3516907_37, _3516959_37);
-Obj _3516961_37 = makeCons(co->gc, _3516904_37, _3516960_37);
-Obj _3516962_37 = makeCons(co->gc, _3516901_37, _3516961_37);
-Obj _3516963_37 = makeCons(co->gc, _3516898_37, _3516962_37);
-Obj _3516964_37 = primSet(co, getBinding(co, packageID, 122).name, _3516963_37);
-Obj _3516968_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516971_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516974_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516979_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517173_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517184_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517195_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517256_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517431_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517506_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun45, 2, 0));
-Obj _3517509_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun46, 1, 0));
-Obj _3517646_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3517669_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj _3517746_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun62, 2, 0));
-Obj _3517777_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun66, 3, 0));
-Obj _3517783_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun69, 4, 0));
-Obj _3517788_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun71, 2, 0));
-Obj _3517797_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun73, 1, 0));
-Obj _3517848_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun75, 2, 0));
-Obj _3517856_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun76, 2, 0));
-Obj _3517863_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun77, 2, 0));
-Obj _3517868_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun78, 2, 0));
-Obj _3517874_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun79, 3, 0));
-Obj _3517875_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3517882_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun82, 5, 0));
-Obj _3517889_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun84, 5, 0));
-Obj _3518176_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun97, 5, 0));
-Obj _3518190_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun99, 5, 0));
-Obj _3518212_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun101, 5, 0));
-Obj _3518214_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518218_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518219_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj _3518220_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518221_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518222_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj _3518229_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun108, 1, 0));
-Obj _3518236_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun109, 2, 0));
-saveCont(co, clofun145, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj _3516943_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516942_37);
+Obj _3516944_37 = makeCons(co->gc, _3516943_37, Nil);
+Obj _3516945_37 = makeCons(co->gc, _3516940_37, _3516944_37);
+Obj _3516946_37 = makeCons(co->gc, _3516937_37, _3516945_37);
+Obj _3516947_37 = makeCons(co->gc, _3516934_37, _3516946_37);
+Obj _3516948_37 = makeCons(co->gc, _3516931_37, _3516947_37);
+Obj _3516949_37 = makeCons(co->gc, _3516928_37, _3516948_37);
+Obj _3516950_37 = makeCons(co->gc, _3516925_37, _3516949_37);
+Obj _3516951_37 = makeCons(co->gc, _3516922_37, _3516950_37);
+Obj _3516952_37 = makeCons(co->gc, _3516919_37, _3516951_37);
+Obj _3516953_37 = makeCons(co->gc, _3516916_37, _3516952_37);
+Obj _3516954_37 = makeCons(co->gc, _3516913_37, _3516953_37);
+Obj _3516955_37 = makeCons(co->gc, _3516910_37, _3516954_37);
+Obj _3516956_37 = makeCons(co->gc, _3516907_37, _3516955_37);
+Obj _3516957_37 = makeCons(co->gc, _3516904_37, _3516956_37);
+Obj _3516958_37 = makeCons(co->gc, _3516901_37, _3516957_37);
+Obj _3516959_37 = makeCons(co->gc, _3516898_37, _3516958_37);
+Obj _3516960_37 = makeCons(co->gc, _3516895_37, _3516959_37);
+Obj _3516961_37 = primSet(co, getBinding(co, packageID, 124).name, _3516960_37);
+Obj _3516965_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3516968_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3516971_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3516976_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3517170_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 4, clofun20, 3, 0));
+Obj _3517181_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 4, clofun22, 2, 0));
+Obj _3517192_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj _3517253_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj _3517428_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun41, 1, 0));
+Obj _3517503_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun45, 2, 0));
+Obj _3517506_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun46, 1, 0));
+Obj _3517643_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3517666_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj _3517743_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj _3517774_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun66, 3, 0));
+Obj _3517780_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun69, 4, 0));
+Obj _3517785_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3517794_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun73, 1, 0));
+Obj _3517845_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun75, 2, 0));
+Obj _3517853_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun76, 2, 0));
+Obj _3517860_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun77, 2, 0));
+Obj _3517865_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun78, 2, 0));
+Obj _3517871_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun79, 3, 0));
+Obj _3517872_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3517879_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun82, 5, 0));
+Obj _3517886_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun84, 5, 0));
+Obj _3518173_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun97, 5, 0));
+Obj _3518187_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun99, 5, 0));
+Obj _3518209_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun101, 5, 0));
+Obj _3518211_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj _3518215_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj _3518216_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj _3518217_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj _3518218_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj _3518219_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj _3518226_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun108, 1, 0));
+Obj _3518233_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun109, 2, 0));
+saveCont(co, clofun146, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), getBinding(co, packageID, 32).name, makeNative(co->gc, 2, clofun110, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516854_37= co->res;
-saveCont(co, clofun145, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
+Obj _3516851_37= co->res;
+saveCont(co, clofun146, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516853_37= co->res;
-saveCont(co, clofun145, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
+Obj _3516850_37= co->res;
+saveCont(co, clofun146, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj from = R[1];
 Obj to = R[2];
-Obj _3518468_37 = primGenSym(co);
-Obj globals = _3518468_37;
-Obj _3518469_37 = primSet(co, globals, Nil);
-R[1] = from;
+R[1] = to;
+saveCont(co, clofun145, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), from);
+return;
+}
+case 1:
+{
+Obj _3518470_37= co->res;
+Obj exp = R[1];
+Obj to = R[2];
+if (True == _3518470_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), exp, to);
+return;
+} else {
+coraReturn(co, False);
+return;
+}
+}
+case 2:
+{
+Obj _3518469_37= co->res;
+Obj to = R[1];
+Obj exp = _3518469_37;
+R[1] = exp;
+R[2] = to;
+saveCont(co, clofun145, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), exp);
+return;
+}
+}
+}
+
+static void clofun144(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj exp = R[1];
+Obj to = R[2];
+Obj _3518457_37 = primGenSym(co);
+Obj globals = _3518457_37;
+Obj _3518458_37 = primSet(co, globals, Nil);
+R[1] = exp;
 R[2] = to;
 R[3] = globals;
-saveCont(co, clofun144, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), globals);
+saveCont(co, clofun144, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), globals);
 return;
 }
 case 1:
 {
-Obj _3518476_37= co->res;
-Obj stream = R[1];
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), stream);
+Obj _3518466_37= co->res;
+Obj _3518467_37 = PRIM_EQ(MAKE_NUMBER(0), _3518466_37);
+coraReturn(co, _3518467_37);
 return;
 }
 case 2:
 {
-Obj _3518475_37= co->res;
+Obj _3518465_37= co->res;
+Obj stream = R[1];
+saveCont(co, clofun144, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), stream);
+return;
+}
+case 3:
+{
+Obj _3518464_37= co->res;
 Obj bc = R[1];
 Obj stream = R[2];
 R[1] = stream;
-saveCont(co, clofun144, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518475_37);
+saveCont(co, clofun144, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), stream, bc, _3518464_37);
 return;
 }
-case 3:
+case 4:
 {
-Obj _3518474_37= co->res;
+Obj _3518463_37= co->res;
 Obj globals = R[1];
 Obj bc = R[2];
-Obj stream = _3518474_37;
+Obj stream = R[3];
+if (True == _3518463_37) {
+coraReturn(co, False);
+return;
+} else {
 R[1] = bc;
 R[2] = stream;
-saveCont(co, clofun144, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
+saveCont(co, clofun144, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), globals);
 return;
 }
-case 4:
+}
+case 5:
+{
+Obj _3518462_37= co->res;
+Obj globals = R[1];
+Obj bc = R[2];
+Obj stream = _3518462_37;
+R[1] = globals;
+R[2] = bc;
+R[3] = stream;
+saveCont(co, clofun144, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), stream);
+return;
+}
+case 6:
 {
-Obj _3518473_37= co->res;
+Obj _3518461_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
-Obj bc = _3518473_37;
+Obj bc = _3518461_37;
 R[1] = globals;
 R[2] = bc;
-saveCont(co, clofun144, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), to);
+saveCont(co, clofun144, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), to);
 return;
 }
-case 5:
+case 7:
 {
-Obj _3518472_37= co->res;
-Obj _3518470_37 = R[1];
+Obj _3518460_37= co->res;
+Obj _3518459_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
-saveCont(co, clofun144, 4, R);
-coraCall1(co, _3518470_37, _3518472_37);
-return;
-}
-case 6:
-{
-Obj _3518471_37= co->res;
-Obj _3518470_37 = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-R[1] = _3518470_37;
-R[2] = to;
-R[3] = globals;
-saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518471_37);
+saveCont(co, clofun144, 6, R);
+coraCall1(co, _3518459_37, _3518460_37);
 return;
 }
-case 7:
+case 8:
 {
-Obj _3518470_37= co->res;
-Obj from = R[1];
+Obj _3518459_37= co->res;
+Obj exp = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518470_37;
+R[1] = _3518459_37;
 R[2] = to;
 R[3] = globals;
-saveCont(co, clofun144, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), from);
+saveCont(co, clofun144, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 3)), exp);
 return;
 }
 }
@@ -555,96 +610,49 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj file_45path = R[1];
-saveCont(co, clofun143, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), file_45path);
+saveCont(co, clofun143, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), file_45path);
 return;
 }
 case 1:
 {
-Obj _3518462_37= co->res;
-Obj sexp = R[1];
+Obj _3518455_37= co->res;
+Obj _3516848_37 = R[1];
+if (True == _3518455_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
-return;
-}
-case 2:
-{
-Obj _3518461_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun143, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+coraCall1(co, _3516848_37, True);
 return;
-}
-case 3:
-{
-Obj _3518464_37= co->res;
-Obj sexp = R[1];
+} else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, _3516848_37, False);
 return;
 }
-case 4:
-{
-Obj _3518463_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun143, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
-return;
 }
-case 5:
+case 2:
 {
-Obj _3518466_37= co->res;
+Obj _3518454_37= co->res;
 Obj sexp = R[1];
+Obj _3516848_37 = R[2];
+if (True == _3518454_37) {
+R[1] = _3516848_37;
+saveCont(co, clofun143, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sexp);
+return;
+} else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, _3516848_37, False);
 return;
 }
-case 6:
-{
-Obj _3518465_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
-return;
 }
-case 7:
+case 3:
 {
-Obj _3518458_37= co->res;
-Obj _3516851_37 = R[1];
-Obj sexp = R[2];
-if (True == _3518458_37) {
-Obj _3518459_37 = PRIM_CAR(sexp);
-Obj _3518460_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518459_37);
-if (True == _3518460_37) {
+Obj _3518453_37= co->res;
+Obj sexp = _3518453_37;
+Obj _3516848_37 = makeNative(co->gc, 2, clofun142, 1, 1, sexp);
 R[1] = sexp;
+R[2] = _3516848_37;
 saveCont(co, clofun143, 2, R);
-coraCall1(co, _3516851_37, True);
-return;
-} else {
-R[1] = sexp;
-saveCont(co, clofun143, 4, R);
-coraCall1(co, _3516851_37, False);
-return;
-}
-} else {
-R[1] = sexp;
-saveCont(co, clofun143, 6, R);
-coraCall1(co, _3516851_37, False);
-return;
-}
-}
-case 8:
-{
-Obj _3518455_37= co->res;
-Obj sexp = _3518455_37;
-Obj _3516851_37 = makeNative(co->gc, 2, clofun142, 1, 1, sexp);
-R[1] = _3516851_37;
-R[2] = sexp;
-saveCont(co, clofun143, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), sexp);
 return;
 }
 }
@@ -654,14 +662,13 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516852_37 = R[1];
-if (True == _3516852_37) {
-Obj _3518456_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3518456_37);
+Obj _3516849_37 = R[1];
+if (True == _3516849_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 7)), closureRef(R[0], 0));
 return;
 } else {
-Obj _3518457_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3518457_37);
+coraReturn(co, False);
 return;
 }
 }
@@ -672,27 +679,27 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516839_37 = R[1];
-Obj _3516840_37 = makeNative(co->gc, 1, clofun138, 0, 1, _3516839_37);
-Obj _3518448_37 = PRIM_ISCONS(_3516839_37);
+Obj _3516836_37 = R[1];
+Obj _3516837_37 = makeNative(co->gc, 1, clofun138, 0, 1, _3516836_37);
+Obj _3518446_37 = PRIM_ISCONS(_3516836_37);
+if (True == _3518446_37) {
+Obj _3518447_37 = PRIM_CAR(_3516836_37);
+Obj _3518448_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518447_37);
 if (True == _3518448_37) {
-Obj _3518449_37 = PRIM_CAR(_3516839_37);
-Obj _3518450_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518449_37);
-if (True == _3518450_37) {
-Obj _3518451_37 = PRIM_CDR(_3516839_37);
-Obj more = _3518451_37;
-Obj _3518452_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
+Obj _3518449_37 = PRIM_CDR(_3516836_37);
+Obj more = _3518449_37;
+Obj _3518450_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518452_37, makeNative(co->gc, 2, clofun140, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), _3518450_37, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516840_37);
+coraCall0(co, _3516837_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516840_37);
+coraCall0(co, _3516837_37);
 return;
 }
 }
@@ -705,7 +712,7 @@ case 0:
 {
 Obj body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
 return;
 }
 }
@@ -718,7 +725,7 @@ case 0:
 Obj type = R[1];
 Obj code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), type, code);
 return;
 }
 }
@@ -728,26 +735,26 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516841_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
-Obj _3518443_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj _3516838_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
+Obj _3518441_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518441_37) {
+Obj _3518442_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518443_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518442_37);
 if (True == _3518443_37) {
-Obj _3518444_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518445_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518444_37);
-if (True == _3518445_37) {
-Obj _3518446_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518446_37;
-Obj _3518447_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj _3518444_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518444_37;
+Obj _3518445_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518447_37, makeNative(co->gc, 2, clofun137, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), _3518445_37, makeNative(co->gc, 2, clofun137, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516841_37);
+coraCall0(co, _3516838_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516841_37);
+coraCall0(co, _3516838_37);
 return;
 }
 }
@@ -760,7 +767,7 @@ case 0:
 {
 Obj body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
 return;
 }
 }
@@ -773,7 +780,7 @@ case 0:
 Obj type = R[1];
 Obj code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), type, code);
 return;
 }
 }
@@ -783,9 +790,9 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518440_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3518438_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518440_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), _3518438_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
 return;
 }
 }
@@ -798,14 +805,14 @@ case 0:
 Obj type = R[1];
 Obj code = R[2];
 saveCont(co, clofun134, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), type, code);
 return;
 }
 case 1:
 {
-Obj _3518441_37= co->res;
-Obj _3518442_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518441_37);
-coraReturn(co, _3518442_37);
+Obj _3518439_37= co->res;
+Obj _3518440_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, _3518439_37);
+coraReturn(co, _3518440_37);
 return;
 }
 }
@@ -817,9 +824,9 @@ case 0:
 {
 Obj type = R[1];
 Obj code = R[2];
-if (True == globalRef(co, getBinding(co, packageID, 7))) {
+if (True == globalRef(co, getBinding(co, packageID, 8))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), type, code);
 return;
 } else {
 coraReturn(co, code);
@@ -833,50 +840,50 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516832_37 = R[1];
-Obj _3516833_37 = R[2];
-Obj _3516834_37 = makeNative(co->gc, 2, clofun131, 0, 2, _3516832_37, _3516833_37);
-Obj _3518426_37 = PRIM_ISCONS(_3516832_37);
+Obj _3516829_37 = R[1];
+Obj _3516830_37 = R[2];
+Obj _3516831_37 = makeNative(co->gc, 2, clofun131, 0, 2, _3516829_37, _3516830_37);
+Obj _3518424_37 = PRIM_ISCONS(_3516829_37);
+if (True == _3518424_37) {
+Obj _3518425_37 = PRIM_CAR(_3516829_37);
+Obj _3518426_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518425_37);
 if (True == _3518426_37) {
-Obj _3518427_37 = PRIM_CAR(_3516832_37);
-Obj _3518428_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518427_37);
+Obj _3518427_37 = PRIM_CDR(_3516829_37);
+Obj _3518428_37 = PRIM_ISCONS(_3518427_37);
 if (True == _3518428_37) {
-Obj _3518429_37 = PRIM_CDR(_3516832_37);
-Obj _3518430_37 = PRIM_ISCONS(_3518429_37);
-if (True == _3518430_37) {
-Obj _3518431_37 = PRIM_CDR(_3516832_37);
-Obj _3518432_37 = PRIM_CAR(_3518431_37);
-Obj name = _3518432_37;
-Obj _3518433_37 = PRIM_CDR(_3516832_37);
-Obj _3518434_37 = PRIM_CDR(_3518433_37);
-Obj more = _3518434_37;
+Obj _3518429_37 = PRIM_CDR(_3516829_37);
+Obj _3518430_37 = PRIM_CAR(_3518429_37);
+Obj name = _3518430_37;
+Obj _3518431_37 = PRIM_CDR(_3516829_37);
+Obj _3518432_37 = PRIM_CDR(_3518431_37);
+Obj more = _3518432_37;
 R[1] = name;
 saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516833_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), more, _3516830_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516834_37);
+coraCall0(co, _3516831_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516834_37);
+coraCall0(co, _3516831_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516834_37);
+coraCall0(co, _3516831_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518435_37= co->res;
+Obj _3518433_37= co->res;
 Obj name = R[1];
-Obj _3518436_37 = makeCons(co->gc, name, _3518435_37);
-Obj _3518437_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518436_37);
-coraReturn(co, _3518437_37);
+Obj _3518434_37 = makeCons(co->gc, name, _3518433_37);
+Obj _3518435_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518434_37);
+coraReturn(co, _3518435_37);
 return;
 }
 }
@@ -886,69 +893,69 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516835_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518405_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj _3516832_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518403_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518403_37) {
+Obj _3518404_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518405_37 = PRIM_ISCONS(_3518404_37);
 if (True == _3518405_37) {
 Obj _3518406_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518407_37 = PRIM_ISCONS(_3518406_37);
-if (True == _3518407_37) {
-Obj _3518408_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518409_37 = PRIM_CAR(_3518408_37);
-Obj _3518410_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518409_37);
-if (True == _3518410_37) {
-Obj _3518411_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518412_37 = PRIM_CDR(_3518411_37);
-Obj _3518413_37 = PRIM_ISCONS(_3518412_37);
-if (True == _3518413_37) {
-Obj _3518414_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518415_37 = PRIM_CDR(_3518414_37);
-Obj _3518416_37 = PRIM_CAR(_3518415_37);
-Obj pkg = _3518416_37;
-Obj _3518417_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518418_37 = PRIM_CDR(_3518417_37);
-Obj _3518419_37 = PRIM_CDR(_3518418_37);
-Obj _3518420_37 = PRIM_EQ(Nil, _3518419_37);
-if (True == _3518420_37) {
-Obj _3518421_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518421_37;
-Obj _3518422_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518423_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518422_37);
-R[1] = _3518423_37;
+Obj _3518407_37 = PRIM_CAR(_3518406_37);
+Obj _3518408_37 = PRIM_EQ(getBinding(co, packageID, 23).name, _3518407_37);
+if (True == _3518408_37) {
+Obj _3518409_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518410_37 = PRIM_CDR(_3518409_37);
+Obj _3518411_37 = PRIM_ISCONS(_3518410_37);
+if (True == _3518411_37) {
+Obj _3518412_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518413_37 = PRIM_CDR(_3518412_37);
+Obj _3518414_37 = PRIM_CAR(_3518413_37);
+Obj pkg = _3518414_37;
+Obj _3518415_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518416_37 = PRIM_CDR(_3518415_37);
+Obj _3518417_37 = PRIM_CDR(_3518416_37);
+Obj _3518418_37 = PRIM_EQ(Nil, _3518417_37);
+if (True == _3518418_37) {
+Obj _3518419_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518419_37;
+Obj _3518420_37 = makeCons(co->gc, pkg, Nil);
+Obj _3518421_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, _3518420_37);
+R[1] = _3518421_37;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516835_37);
+coraCall0(co, _3516832_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516835_37);
+coraCall0(co, _3516832_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516835_37);
+coraCall0(co, _3516832_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516835_37);
+coraCall0(co, _3516832_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516835_37);
+coraCall0(co, _3516832_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518424_37= co->res;
-Obj _3518423_37 = R[1];
-Obj _3518425_37 = makeCons(co->gc, _3518423_37, _3518424_37);
-coraReturn(co, _3518425_37);
+Obj _3518422_37= co->res;
+Obj _3518421_37 = R[1];
+Obj _3518423_37 = makeCons(co->gc, _3518421_37, _3518422_37);
+coraReturn(co, _3518423_37);
 return;
 }
 }
@@ -958,48 +965,48 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516836_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518393_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj _3516833_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518391_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518391_37) {
+Obj _3518392_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518393_37 = PRIM_ISCONS(_3518392_37);
 if (True == _3518393_37) {
 Obj _3518394_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518395_37 = PRIM_ISCONS(_3518394_37);
-if (True == _3518395_37) {
-Obj _3518396_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518397_37 = PRIM_CAR(_3518396_37);
-Obj _3518398_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518397_37);
-if (True == _3518398_37) {
-Obj _3518399_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518400_37 = PRIM_CDR(_3518399_37);
-Obj symbols = _3518400_37;
-Obj _3518401_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518401_37;
-Obj _3518402_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
-R[1] = _3518402_37;
+Obj _3518395_37 = PRIM_CAR(_3518394_37);
+Obj _3518396_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518395_37);
+if (True == _3518396_37) {
+Obj _3518397_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518398_37 = PRIM_CDR(_3518397_37);
+Obj symbols = _3518398_37;
+Obj _3518399_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518399_37;
+Obj _3518400_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, symbols);
+R[1] = _3518400_37;
 saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516836_37);
+coraCall0(co, _3516833_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516836_37);
+coraCall0(co, _3516833_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516836_37);
+coraCall0(co, _3516833_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518403_37= co->res;
-Obj _3518402_37 = R[1];
-Obj _3518404_37 = makeCons(co->gc, _3518402_37, _3518403_37);
-coraReturn(co, _3518404_37);
+Obj _3518401_37= co->res;
+Obj _3518400_37 = R[1];
+Obj _3518402_37 = makeCons(co->gc, _3518400_37, _3518401_37);
+coraReturn(co, _3518402_37);
 return;
 }
 }
@@ -1009,33 +1016,33 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516837_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518387_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj _3516834_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3518385_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518385_37) {
+Obj _3518386_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518387_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518386_37);
 if (True == _3518387_37) {
-Obj _3518388_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518389_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518388_37);
-if (True == _3518389_37) {
-Obj _3518390_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518390_37;
+Obj _3518388_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518388_37;
 saveCont(co, clofun129, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516837_37);
+coraCall0(co, _3516834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516837_37);
+coraCall0(co, _3516834_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518391_37= co->res;
-Obj _3518392_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518391_37);
-coraReturn(co, _3518392_37);
+Obj _3518389_37= co->res;
+Obj _3518390_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, _3518389_37);
+coraReturn(co, _3518390_37);
 return;
 }
 }
@@ -1056,73 +1063,73 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516824_37 = R[1];
-Obj _3516825_37 = R[2];
-Obj _3516826_37 = R[3];
-Obj _3516827_37 = R[4];
-Obj _3518348_37 = PRIM_EQ(Nil, _3516824_37);
-if (True == _3518348_37) {
-R[1] = _3516826_37;
-R[2] = _3516827_37;
+Obj _3516821_37 = R[1];
+Obj _3516822_37 = R[2];
+Obj _3516823_37 = R[3];
+Obj _3516824_37 = R[4];
+Obj _3518346_37 = PRIM_EQ(Nil, _3516821_37);
+if (True == _3518346_37) {
+R[1] = _3516823_37;
+R[2] = _3516824_37;
 saveCont(co, clofun127, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516825_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), _3516822_37);
 return;
 } else {
-Obj _3516829_37 = makeNative(co->gc, 1, clofun126, 0, 4, _3516824_37, _3516825_37, _3516826_37, _3516827_37);
-Obj _3518375_37 = PRIM_ISCONS(_3516824_37);
+Obj _3516826_37 = makeNative(co->gc, 1, clofun126, 0, 4, _3516821_37, _3516822_37, _3516823_37, _3516824_37);
+Obj _3518373_37 = PRIM_ISCONS(_3516821_37);
+if (True == _3518373_37) {
+Obj _3518374_37 = PRIM_CAR(_3516821_37);
+Obj _3518375_37 = PRIM_ISCONS(_3518374_37);
 if (True == _3518375_37) {
-Obj _3518376_37 = PRIM_CAR(_3516824_37);
-Obj _3518377_37 = PRIM_ISCONS(_3518376_37);
-if (True == _3518377_37) {
-Obj _3518378_37 = PRIM_CAR(_3516824_37);
-Obj _3518379_37 = PRIM_CAR(_3518378_37);
-Obj _3518380_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518379_37);
-if (True == _3518380_37) {
-Obj _3518381_37 = PRIM_CAR(_3516824_37);
-Obj _3518382_37 = PRIM_CDR(_3518381_37);
-Obj exp = _3518382_37;
-Obj _3518383_37 = PRIM_CDR(_3516824_37);
-Obj more = _3518383_37;
-Obj _3518384_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
-Obj _3518385_37 = makeCons(co->gc, _3518384_37, _3516825_37);
+Obj _3518376_37 = PRIM_CAR(_3516821_37);
+Obj _3518377_37 = PRIM_CAR(_3518376_37);
+Obj _3518378_37 = PRIM_EQ(getBinding(co, packageID, 11).name, _3518377_37);
+if (True == _3518378_37) {
+Obj _3518379_37 = PRIM_CAR(_3516821_37);
+Obj _3518380_37 = PRIM_CDR(_3518379_37);
+Obj exp = _3518380_37;
+Obj _3518381_37 = PRIM_CDR(_3516821_37);
+Obj more = _3518381_37;
+Obj _3518382_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, exp);
+Obj _3518383_37 = makeCons(co->gc, _3518382_37, _3516822_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518385_37, _3516826_37, _3516827_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), more, _3518383_37, _3516823_37, _3516824_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516829_37);
+coraCall0(co, _3516826_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516829_37);
+coraCall0(co, _3516826_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516829_37);
+coraCall0(co, _3516826_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518350_37= co->res;
-Obj _3516827_37 = R[1];
-Obj _3518349_37 = R[2];
+Obj _3518348_37= co->res;
+Obj _3516824_37 = R[1];
+Obj _3518347_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516827_37, _3518349_37, _3518350_37);
+coraCall2(co, _3516824_37, _3518347_37, _3518348_37);
 return;
 }
 case 2:
 {
-Obj _3518349_37= co->res;
-Obj _3516826_37 = R[1];
-Obj _3516827_37 = R[2];
-R[1] = _3516827_37;
-R[2] = _3518349_37;
+Obj _3518347_37= co->res;
+Obj _3516823_37 = R[1];
+Obj _3516824_37 = R[2];
+R[1] = _3516824_37;
+R[2] = _3518347_37;
 saveCont(co, clofun127, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516826_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), _3516823_37);
 return;
 }
 }
@@ -1132,39 +1139,39 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516830_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518364_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj _3516827_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3518362_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518362_37) {
+Obj _3518363_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518364_37 = PRIM_ISCONS(_3518363_37);
 if (True == _3518364_37) {
 Obj _3518365_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518366_37 = PRIM_ISCONS(_3518365_37);
-if (True == _3518366_37) {
-Obj _3518367_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518368_37 = PRIM_CAR(_3518367_37);
-Obj _3518369_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518368_37);
-if (True == _3518369_37) {
-Obj _3518370_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518371_37 = PRIM_CDR(_3518370_37);
-Obj exp = _3518371_37;
-Obj _3518372_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518372_37;
-Obj _3518373_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
-Obj _3518374_37 = makeCons(co->gc, _3518373_37, closureRef(R[0], 1));
+Obj _3518366_37 = PRIM_CAR(_3518365_37);
+Obj _3518367_37 = PRIM_EQ(getBinding(co, packageID, 13).name, _3518366_37);
+if (True == _3518367_37) {
+Obj _3518368_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518369_37 = PRIM_CDR(_3518368_37);
+Obj exp = _3518369_37;
+Obj _3518370_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518370_37;
+Obj _3518371_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, exp);
+Obj _3518372_37 = makeCons(co->gc, _3518371_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518374_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), more, _3518372_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516830_37);
+coraCall0(co, _3516827_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516830_37);
+coraCall0(co, _3516827_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516830_37);
+coraCall0(co, _3516827_37);
 return;
 }
 }
@@ -1175,28 +1182,28 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518351_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518351_37) {
-Obj _3518352_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518352_37;
-Obj _3518353_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518353_37;
-Obj _3518354_37 = makeCons(co->gc, exp, Nil);
-Obj _3518355_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518354_37);
-Obj _3518356_37 = makeCons(co->gc, _3518355_37, Nil);
-Obj _3518357_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518356_37);
-Obj _3518358_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3518359_37 = makeCons(co->gc, _3518358_37, Nil);
-Obj _3518360_37 = makeCons(co->gc, _3518357_37, _3518359_37);
-Obj _3518361_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518360_37);
-Obj _3518362_37 = makeCons(co->gc, _3518361_37, closureRef(R[0], 1));
-Obj _3518363_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj _3518349_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518349_37) {
+Obj _3518350_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj exp = _3518350_37;
+Obj _3518351_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518351_37;
+Obj _3518352_37 = makeCons(co->gc, exp, Nil);
+Obj _3518353_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518352_37);
+Obj _3518354_37 = makeCons(co->gc, _3518353_37, Nil);
+Obj _3518355_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518354_37);
+Obj _3518356_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
+Obj _3518357_37 = makeCons(co->gc, _3518356_37, Nil);
+Obj _3518358_37 = makeCons(co->gc, _3518355_37, _3518357_37);
+Obj _3518359_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, _3518358_37);
+Obj _3518360_37 = makeCons(co->gc, _3518359_37, closureRef(R[0], 1));
+Obj _3518361_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518362_37, _3518363_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), more, _3518360_37, _3518361_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -1207,37 +1214,37 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516818_37 = R[1];
-Obj _3516819_37 = makeNative(co->gc, 1, clofun123, 0, 1, _3516818_37);
-Obj _3518338_37 = PRIM_ISCONS(_3516818_37);
+Obj _3516815_37 = R[1];
+Obj _3516816_37 = makeNative(co->gc, 1, clofun123, 0, 1, _3516815_37);
+Obj _3518336_37 = PRIM_ISCONS(_3516815_37);
+if (True == _3518336_37) {
+Obj _3518337_37 = PRIM_CAR(_3516815_37);
+Obj _3518338_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518337_37);
 if (True == _3518338_37) {
-Obj _3518339_37 = PRIM_CAR(_3516818_37);
-Obj _3518340_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518339_37);
+Obj _3518339_37 = PRIM_CDR(_3516815_37);
+Obj _3518340_37 = PRIM_ISCONS(_3518339_37);
 if (True == _3518340_37) {
-Obj _3518341_37 = PRIM_CDR(_3516818_37);
-Obj _3518342_37 = PRIM_ISCONS(_3518341_37);
-if (True == _3518342_37) {
-Obj _3518343_37 = PRIM_CDR(_3516818_37);
-Obj _3518344_37 = PRIM_CAR(_3518343_37);
-Obj _3518345_37 = PRIM_CDR(_3516818_37);
-Obj _3518346_37 = PRIM_CDR(_3518345_37);
-Obj remain = _3518346_37;
+Obj _3518341_37 = PRIM_CDR(_3516815_37);
+Obj _3518342_37 = PRIM_CAR(_3518341_37);
+Obj _3518343_37 = PRIM_CDR(_3516815_37);
+Obj _3518344_37 = PRIM_CDR(_3518343_37);
+Obj remain = _3518344_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516819_37);
+coraCall0(co, _3516816_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516819_37);
+coraCall0(co, _3516816_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516819_37);
+coraCall0(co, _3516816_37);
 return;
 }
 }
@@ -1248,25 +1255,25 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516820_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
-Obj _3518334_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj _3516817_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
+Obj _3518332_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518332_37) {
+Obj _3518333_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518334_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518333_37);
 if (True == _3518334_37) {
-Obj _3518335_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518336_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518335_37);
-if (True == _3518336_37) {
-Obj _3518337_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518337_37;
+Obj _3518335_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518335_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516820_37);
+coraCall0(co, _3516817_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516820_37);
+coraCall0(co, _3516817_37);
 return;
 }
 }
@@ -1277,36 +1284,36 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516821_37 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518325_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj _3516818_37 = makeNative(co->gc, 3, clofun121, 0, 1, closureRef(R[0], 0));
+Obj _3518323_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518323_37) {
+Obj _3518324_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518325_37 = PRIM_ISCONS(_3518324_37);
 if (True == _3518325_37) {
 Obj _3518326_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518327_37 = PRIM_ISCONS(_3518326_37);
-if (True == _3518327_37) {
-Obj _3518328_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518329_37 = PRIM_CAR(_3518328_37);
-Obj _3518330_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518329_37);
-if (True == _3518330_37) {
-Obj _3518331_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518332_37 = PRIM_CDR(_3518331_37);
-Obj _3518333_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518333_37;
+Obj _3518327_37 = PRIM_CAR(_3518326_37);
+Obj _3518328_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518327_37);
+if (True == _3518328_37) {
+Obj _3518329_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518330_37 = PRIM_CDR(_3518329_37);
+Obj _3518331_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518331_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516821_37);
+coraCall0(co, _3516818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516821_37);
+coraCall0(co, _3516818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516821_37);
+coraCall0(co, _3516818_37);
 return;
 }
 }
@@ -1317,67 +1324,83 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516822_37 = makeNative(co->gc, 1, clofun120, 0, 0);
-Obj _3518307_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518307_37) {
-Obj _3518308_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518309_37 = PRIM_ISCONS(_3518308_37);
+Obj _3516819_37 = makeNative(co->gc, 1, clofun120, 0, 0);
+Obj _3518304_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518304_37) {
+Obj _3518305_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518306_37 = PRIM_ISCONS(_3518305_37);
+if (True == _3518306_37) {
+Obj _3518307_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518308_37 = PRIM_CAR(_3518307_37);
+Obj _3518309_37 = PRIM_EQ(getBinding(co, packageID, 23).name, _3518308_37);
 if (True == _3518309_37) {
 Obj _3518310_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518311_37 = PRIM_CAR(_3518310_37);
-Obj _3518312_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518311_37);
+Obj _3518311_37 = PRIM_CDR(_3518310_37);
+Obj _3518312_37 = PRIM_ISCONS(_3518311_37);
 if (True == _3518312_37) {
 Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
 Obj _3518314_37 = PRIM_CDR(_3518313_37);
-Obj _3518315_37 = PRIM_ISCONS(_3518314_37);
-if (True == _3518315_37) {
+Obj _3518315_37 = PRIM_CAR(_3518314_37);
+Obj pkg = _3518315_37;
 Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
 Obj _3518317_37 = PRIM_CDR(_3518316_37);
-Obj _3518318_37 = PRIM_CAR(_3518317_37);
-Obj pkg = _3518318_37;
-Obj _3518319_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518320_37 = PRIM_CDR(_3518319_37);
-Obj _3518321_37 = PRIM_CDR(_3518320_37);
-Obj _3518322_37 = PRIM_EQ(Nil, _3518321_37);
-if (True == _3518322_37) {
-Obj _3518323_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518323_37;
-R[1] = remain;
-saveCont(co, clofun121, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), pkg);
+Obj _3518318_37 = PRIM_CDR(_3518317_37);
+Obj _3518319_37 = PRIM_EQ(Nil, _3518318_37);
+if (True == _3518319_37) {
+Obj _3518320_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518320_37;
+R[1] = pkg;
+R[2] = remain;
+saveCont(co, clofun121, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516822_37);
+coraCall0(co, _3516819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516822_37);
+coraCall0(co, _3516819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516822_37);
+coraCall0(co, _3516819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516822_37);
+coraCall0(co, _3516819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516822_37);
+coraCall0(co, _3516819_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518324_37= co->res;
+Obj _3518322_37= co->res;
 Obj remain = R[1];
+if (True == _3518322_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), remain);
+return;
+} else {
+coraReturn(co, False);
+return;
+}
+}
+case 2:
+{
+Obj _3518321_37= co->res;
+Obj pkg = R[1];
+Obj remain = R[2];
+R[1] = remain;
+saveCont(co, clofun121, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), pkg, globalRef(co, getBinding(co, packageID, 22)));
 return;
 }
 }
@@ -1387,7 +1410,7 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-coraReturn(co, Nil);
+coraReturn(co, True);
 return;
 }
 }
@@ -1404,23 +1427,23 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun119, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3518305_37= co->res;
+Obj _3518302_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 2, to, globals), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun118, 1, 2, to, globals), bc);
 return;
 }
 case 2:
 {
-Obj _3518304_37= co->res;
-Obj _3518301_37 = R[1];
+Obj _3518301_37= co->res;
+Obj _3518298_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
 Obj bc = R[4];
@@ -1428,42 +1451,42 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun119, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518301_37, _3518304_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), to, globals, _3518298_37, _3518301_37);
 return;
 }
 case 3:
 {
-Obj _3518303_37= co->res;
-Obj _3518301_37 = R[1];
+Obj _3518300_37= co->res;
+Obj _3518298_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
 Obj bc = R[4];
-R[1] = _3518301_37;
+R[1] = _3518298_37;
 R[2] = to;
 R[3] = globals;
 R[4] = bc;
 saveCont(co, clofun119, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), _3518303_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), _3518300_37);
 return;
 }
 case 4:
 {
-Obj _3518301_37= co->res;
+Obj _3518298_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
-Obj _3518302_37 = PRIM_CAR(bc);
-R[1] = _3518301_37;
+Obj _3518299_37 = PRIM_CAR(bc);
+R[1] = _3518298_37;
 R[2] = to;
 R[3] = globals;
 R[4] = bc;
 saveCont(co, clofun119, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3518302_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3518299_37);
 return;
 }
 case 5:
 {
-Obj _3518300_37= co->res;
+Obj _3518297_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1471,12 +1494,12 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun119, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), bc);
 return;
 }
 case 6:
 {
-Obj _3518299_37= co->res;
+Obj _3518296_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1484,12 +1507,12 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun119, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj _3518296_37= co->res;
+Obj _3518293_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1497,12 +1520,12 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun119, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 1, to), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun117, 1, 1, to), bc);
 return;
 }
 case 8:
 {
-Obj _3518295_37= co->res;
+Obj _3518292_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1510,12 +1533,12 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun119, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
 {
-Obj _3518294_37= co->res;
+Obj _3518291_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1523,7 +1546,7 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun119, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1535,7 +1558,7 @@ case 0:
 {
 Obj group = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), group, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 28)), closureRef(R[0], 0), group, closureRef(R[0], 1));
 return;
 }
 }
@@ -1546,16 +1569,16 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj group = R[1];
-Obj _3518297_37 = PRIM_CAR(group);
+Obj _3518294_37 = PRIM_CAR(group);
 saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518297_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), _3518294_37);
 return;
 }
 case 1:
 {
-Obj _3518298_37= co->res;
+Obj _3518295_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
 }
 }
@@ -1574,53 +1597,53 @@ R[2] = nframe;
 R[3] = label;
 R[4] = to;
 saveCont(co, clofun116, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3518292_37= co->res;
+Obj _3518289_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ", 0, 0));\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, ", 0, 0));\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3518291_37= co->res;
+Obj _3518288_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = to;
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), to, label);
 return;
 }
 case 3:
 {
-Obj _3518290_37= co->res;
+Obj _3518287_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
 saveCont(co, clofun116, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3518289_37= co->res;
+Obj _3518286_37= co->res;
 Obj nframe = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = label;
 R[2] = to;
 saveCont(co, clofun116, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, nframe);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), to, nframe);
 return;
 }
 case 5:
 {
-Obj _3518288_37= co->res;
+Obj _3518285_37= co->res;
 Obj nframe = R[1];
 Obj label = R[2];
 Obj to = R[3];
@@ -1628,12 +1651,12 @@ R[1] = nframe;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun116, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
 return;
 }
 case 6:
 {
-Obj _3518287_37= co->res;
+Obj _3518284_37= co->res;
 Obj nframe = R[1];
 Obj label = R[2];
 Obj to = R[3];
@@ -1641,12 +1664,12 @@ R[1] = nframe;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun116, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 7:
 {
-Obj _3518279_37= co->res;
+Obj _3518276_37= co->res;
 Obj globals = R[1];
 Obj nframe = R[2];
 Obj label = R[3];
@@ -1655,12 +1678,12 @@ R[1] = nframe;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun116, 6, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun115, 2, 1, to), MAKE_NUMBER(0), globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun115, 2, 1, to), MAKE_NUMBER(0), globals);
 return;
 }
 case 8:
 {
-Obj _3518278_37= co->res;
+Obj _3518275_37= co->res;
 Obj globals = R[1];
 Obj nframe = R[2];
 Obj label = R[3];
@@ -1670,12 +1693,12 @@ R[2] = nframe;
 R[3] = label;
 R[4] = to;
 saveCont(co, clofun116, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, ");\n"));
 return;
 }
 case 9:
 {
-Obj _3518277_37= co->res;
+Obj _3518274_37= co->res;
 Obj globals = R[1];
 Obj nframe = R[2];
 Obj label = R[3];
@@ -1685,12 +1708,12 @@ R[2] = nframe;
 R[3] = label;
 R[4] = to;
 saveCont(co, clofun116, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518277_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), to, _3518274_37);
 return;
 }
 case 10:
 {
-Obj _3518276_37= co->res;
+Obj _3518273_37= co->res;
 Obj globals = R[1];
 Obj nframe = R[2];
 Obj label = R[3];
@@ -1700,12 +1723,12 @@ R[2] = nframe;
 R[3] = label;
 R[4] = to;
 saveCont(co, clofun116, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), globals);
 return;
 }
 case 11:
 {
-Obj _3518275_37= co->res;
+Obj _3518272_37= co->res;
 Obj globals = R[1];
 Obj nframe = R[2];
 Obj label = R[3];
@@ -1715,12 +1738,12 @@ R[2] = nframe;
 R[3] = label;
 R[4] = to;
 saveCont(co, clofun116, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 12:
 {
-Obj _3518274_37= co->res;
+Obj _3518271_37= co->res;
 Obj globals = R[1];
 Obj nframe = R[2];
 Obj label = R[3];
@@ -1730,7 +1753,7 @@ R[2] = nframe;
 R[3] = label;
 R[4] = to;
 saveCont(co, clofun116, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1745,65 +1768,65 @@ Obj sym = R[2];
 R[1] = sym;
 R[2] = acc;
 saveCont(co, clofun115, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj _3518285_37= co->res;
+Obj _3518282_37= co->res;
 Obj acc = R[1];
-Obj _3518286_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518286_37);
+Obj _3518283_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518283_37);
 return;
 }
 case 2:
 {
-Obj _3518284_37= co->res;
+Obj _3518281_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun115, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj _3518283_37= co->res;
+Obj _3518280_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun115, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518283_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), _3518280_37);
 return;
 }
 case 4:
 {
-Obj _3518282_37= co->res;
+Obj _3518279_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = acc;
 saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sym);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 26)), sym);
 return;
 }
 case 5:
 {
-Obj _3518281_37= co->res;
+Obj _3518278_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
 R[2] = acc;
 saveCont(co, clofun115, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 6:
 {
-Obj _3518280_37= co->res;
+Obj _3518277_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
 R[2] = acc;
 saveCont(co, clofun115, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), acc);
 return;
 }
 }
@@ -1816,47 +1839,47 @@ case 0:
 Obj to = R[1];
 Obj group = R[2];
 Obj globals = R[3];
-Obj _3518252_37 = PRIM_CAR(group);
-Obj label = _3518252_37;
+Obj _3518249_37 = PRIM_CAR(group);
+Obj label = _3518249_37;
 R[1] = globals;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun114, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), group);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), group);
 return;
 }
 case 1:
 {
-Obj _3518272_37= co->res;
+Obj _3518269_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3518271_37= co->res;
+Obj _3518268_37= co->res;
 Obj to = R[1];
 R[1] = to;
 saveCont(co, clofun114, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518270_37= co->res;
+Obj _3518267_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
 R[1] = to;
 saveCont(co, clofun114, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun113, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518270_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun113, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518267_37);
 return;
 }
 case 4:
 {
-Obj _3518262_37= co->res;
+Obj _3518259_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1866,12 +1889,12 @@ R[2] = label;
 R[3] = lam;
 R[4] = to;
 saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), lam);
 return;
 }
 case 5:
 {
-Obj _3518261_37= co->res;
+Obj _3518258_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1881,12 +1904,12 @@ R[2] = label;
 R[3] = lam;
 R[4] = to;
 saveCont(co, clofun114, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj _3518260_37= co->res;
+Obj _3518257_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1899,12 +1922,12 @@ R[3] = lam;
 R[4] = to;
 saveCont(co, clofun114, 5, R);
 Obj __args[5] = {globals, label, params, to, first_45stmt};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518259_37= co->res;
+Obj _3518256_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1919,12 +1942,12 @@ R[5] = lam;
 R[6] = to;
 saveCont(co, clofun114, 6, R);
 Obj __args[5] = {globals, label, Nil, to, params};
-coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 8:
 {
-Obj _3518258_37= co->res;
+Obj _3518255_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1938,12 +1961,12 @@ R[4] = label;
 R[5] = lam;
 R[6] = to;
 saveCont(co, clofun114, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj _3518257_37= co->res;
+Obj _3518254_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1957,12 +1980,12 @@ R[4] = label;
 R[5] = lam;
 R[6] = to;
 saveCont(co, clofun114, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj _3518256_37= co->res;
+Obj _3518253_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1976,18 +1999,18 @@ R[4] = label;
 R[5] = lam;
 R[6] = to;
 saveCont(co, clofun114, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj _3518255_37= co->res;
+Obj _3518252_37= co->res;
 Obj params = R[1];
 Obj globals = R[2];
 Obj label = R[3];
 Obj lam = R[4];
 Obj to = R[5];
-Obj first_45stmt = _3518255_37;
+Obj first_45stmt = _3518252_37;
 R[1] = params;
 R[2] = first_45stmt;
 R[3] = globals;
@@ -1995,39 +2018,39 @@ R[4] = label;
 R[5] = lam;
 R[6] = to;
 saveCont(co, clofun114, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), to, label);
 return;
 }
 case 12:
 {
-Obj _3518254_37= co->res;
+Obj _3518251_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
-Obj params = _3518254_37;
+Obj params = _3518251_37;
 R[1] = params;
 R[2] = globals;
 R[3] = label;
 R[4] = lam;
 R[5] = to;
 saveCont(co, clofun114, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), lam);
 return;
 }
 case 13:
 {
-Obj _3518253_37= co->res;
+Obj _3518250_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
-Obj lam = _3518253_37;
+Obj lam = _3518250_37;
 R[1] = globals;
 R[2] = label;
 R[3] = lam;
 R[4] = to;
 saveCont(co, clofun114, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
 return;
 }
 }
@@ -2042,68 +2065,68 @@ Obj cont = R[2];
 R[1] = cont;
 R[2] = acc;
 saveCont(co, clofun113, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj _3518268_37= co->res;
+Obj _3518265_37= co->res;
 Obj acc = R[1];
-Obj _3518269_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518269_37);
+Obj _3518266_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518266_37);
 return;
 }
 case 2:
 {
-Obj _3518267_37= co->res;
+Obj _3518264_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun113, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518266_37= co->res;
+Obj _3518263_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = acc;
 saveCont(co, clofun113, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518266_37, closureRef(R[0], 3), cont};
-coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518263_37, closureRef(R[0], 3), cont};
+coraCall(co, globalRef(co, getBinding(co, packageID, 42)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518265_37= co->res;
+Obj _3518262_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
 saveCont(co, clofun113, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj _3518264_37= co->res;
+Obj _3518261_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
 saveCont(co, clofun113, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj _3518263_37= co->res;
+Obj _3518260_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
 saveCont(co, clofun113, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), acc);
 return;
 }
 }
@@ -2113,38 +2136,38 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516814_37 = R[1];
-Obj _3516815_37 = R[2];
-Obj _3518246_37 = PRIM_EQ(Nil, _3516815_37);
-if (True == _3518246_37) {
+Obj _3516811_37 = R[1];
+Obj _3516812_37 = R[2];
+Obj _3518243_37 = PRIM_EQ(Nil, _3516812_37);
+if (True == _3518243_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518247_37 = PRIM_ISCONS(_3516815_37);
-if (True == _3518247_37) {
-Obj _3518248_37 = PRIM_CAR(_3516815_37);
-Obj x = _3518248_37;
-Obj _3518249_37 = PRIM_CDR(_3516815_37);
-Obj y = _3518249_37;
-R[1] = _3516814_37;
+Obj _3518244_37 = PRIM_ISCONS(_3516812_37);
+if (True == _3518244_37) {
+Obj _3518245_37 = PRIM_CAR(_3516812_37);
+Obj x = _3518245_37;
+Obj _3518246_37 = PRIM_CDR(_3516812_37);
+Obj y = _3518246_37;
+R[1] = _3516811_37;
 R[2] = y;
 saveCont(co, clofun112, 1, R);
-coraCall1(co, _3516814_37, x);
+coraCall1(co, _3516811_37, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518250_37= co->res;
-Obj _3516814_37 = R[1];
+Obj _3518247_37= co->res;
+Obj _3516811_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516814_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), _3516811_37, y);
 return;
 }
 }
@@ -2158,43 +2181,43 @@ Obj globals = R[1];
 Obj exp = R[2];
 R[1] = exp;
 saveCont(co, clofun111, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 40)), globals);
 return;
 }
 case 1:
 {
-Obj _3518244_37= co->res;
+Obj _3518241_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518244_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518241_37);
 return;
 }
 case 2:
 {
-Obj _3518243_37= co->res;
+Obj _3518240_37= co->res;
 saveCont(co, clofun111, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518243_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518240_37);
 return;
 }
 case 3:
 {
-Obj _3518242_37= co->res;
+Obj _3518239_37= co->res;
 saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518242_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), _3518239_37);
 return;
 }
 case 4:
 {
-Obj _3518241_37= co->res;
+Obj _3518238_37= co->res;
 saveCont(co, clofun111, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518241_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), _3518238_37);
 return;
 }
 case 5:
 {
-Obj _3518240_37= co->res;
+Obj _3518237_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun111, 4, R);
-coraCall1(co, _3518240_37, exp);
+coraCall1(co, _3518237_37, exp);
 return;
 }
 }
@@ -2207,26 +2230,26 @@ case 0:
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), exp);
 return;
 }
 case 1:
 {
-Obj _3518238_37= co->res;
+Obj _3518235_37= co->res;
 Obj obj = R[1];
-Obj fns = _3518238_37;
+Obj fns = _3518235_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), obj, fns);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), obj, fns);
 return;
 }
 case 2:
 {
-Obj _3518237_37= co->res;
+Obj _3518234_37= co->res;
 Obj exp = R[1];
-Obj obj = _3518237_37;
+Obj obj = _3518234_37;
 R[1] = obj;
 saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 31)), exp);
 return;
 }
 }
@@ -2236,27 +2259,27 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516810_37 = R[1];
-Obj _3516811_37 = R[2];
-Obj _3518230_37 = PRIM_EQ(Nil, _3516811_37);
-if (True == _3518230_37) {
-coraReturn(co, _3516810_37);
+Obj _3516807_37 = R[1];
+Obj _3516808_37 = R[2];
+Obj _3518227_37 = PRIM_EQ(Nil, _3516808_37);
+if (True == _3518227_37) {
+coraReturn(co, _3516807_37);
 return;
 } else {
-Obj _3518231_37 = PRIM_ISCONS(_3516811_37);
-if (True == _3518231_37) {
-Obj _3518232_37 = PRIM_CAR(_3516811_37);
-Obj hd = _3518232_37;
-Obj _3518233_37 = PRIM_CDR(_3516811_37);
-Obj more = _3518233_37;
-Obj _3518234_37 = makeCons(co->gc, _3516810_37, Nil);
-Obj _3518235_37 = makeCons(co->gc, hd, _3518234_37);
+Obj _3518228_37 = PRIM_ISCONS(_3516808_37);
+if (True == _3518228_37) {
+Obj _3518229_37 = PRIM_CAR(_3516808_37);
+Obj hd = _3518229_37;
+Obj _3518230_37 = PRIM_CDR(_3516808_37);
+Obj more = _3518230_37;
+Obj _3518231_37 = makeCons(co->gc, _3516807_37, Nil);
+Obj _3518232_37 = makeCons(co->gc, hd, _3518231_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518235_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), _3518232_37, more);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2271,67 +2294,67 @@ case 0:
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun108, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj _3518228_37= co->res;
+Obj _3518225_37= co->res;
 Obj v = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj _3518227_37= co->res;
+Obj _3518224_37= co->res;
 Obj v = R[1];
-Obj e2 = _3518227_37;
+Obj e2 = _3518224_37;
 R[1] = v;
 saveCont(co, clofun108, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v, e2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v, e2);
 return;
 }
 case 3:
 {
-Obj _3518226_37= co->res;
+Obj _3518223_37= co->res;
 Obj v = R[1];
-Obj e1 = _3518226_37;
+Obj e1 = _3518223_37;
 R[1] = v;
 saveCont(co, clofun108, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, e1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, e1);
 return;
 }
 case 4:
 {
-Obj _3518225_37= co->res;
+Obj _3518222_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = v;
 saveCont(co, clofun108, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v, exp);
 return;
 }
 case 5:
 {
-Obj _3518224_37= co->res;
+Obj _3518221_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = exp;
 R[2] = v;
 saveCont(co, clofun108, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj _3518223_37= co->res;
+Obj _3518220_37= co->res;
 Obj exp = R[1];
-Obj v = _3518223_37;
+Obj v = _3518220_37;
 R[1] = exp;
 R[2] = v;
 saveCont(co, clofun108, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2343,7 +2366,7 @@ case 0:
 {
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), Nil, exp);
 return;
 }
 }
@@ -2355,7 +2378,7 @@ case 0:
 {
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), exp, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), exp, globalRef(co, getBinding(co, packageID, 72)));
 return;
 }
 }
@@ -2367,7 +2390,7 @@ case 0:
 {
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), Nil, exp);
 return;
 }
 }
@@ -2380,7 +2403,7 @@ case 0:
 Obj globals = R[1];
 Obj exp = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, globals, exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), Nil, globals, exp);
 return;
 }
 }
@@ -2395,34 +2418,34 @@ Obj label = R[2];
 R[1] = label;
 R[2] = w;
 saveCont(co, clofun103, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj _3518217_37= co->res;
+Obj _3518214_37= co->res;
 Obj w = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), w, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518216_37= co->res;
+Obj _3518213_37= co->res;
 Obj w = R[1];
 R[1] = w;
 saveCont(co, clofun103, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj _3518215_37= co->res;
+Obj _3518212_37= co->res;
 Obj label = R[1];
 Obj w = R[2];
 R[1] = w;
 saveCont(co, clofun103, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), w, label);
 return;
 }
 }
@@ -2437,16 +2460,16 @@ Obj label = R[2];
 R[1] = w;
 R[2] = label;
 saveCont(co, clofun102, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj _3518213_37= co->res;
+Obj _3518210_37= co->res;
 Obj w = R[1];
 Obj label = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), w, label);
 return;
 }
 }
@@ -2456,136 +2479,136 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516804_37 = R[1];
-Obj _3516805_37 = R[2];
-Obj _3516806_37 = R[3];
-Obj _3516807_37 = R[4];
-Obj _3516808_37 = R[5];
-Obj _3516809_37 = makeNative(co->gc, 1, clofun100, 0, 0);
-Obj _3518191_37 = PRIM_ISCONS(_3516808_37);
-if (True == _3518191_37) {
-Obj _3518192_37 = PRIM_CAR(_3516808_37);
-Obj _3518193_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518192_37);
-if (True == _3518193_37) {
-Obj _3518194_37 = PRIM_CDR(_3516808_37);
-Obj _3518195_37 = PRIM_ISCONS(_3518194_37);
-if (True == _3518195_37) {
-Obj _3518196_37 = PRIM_CDR(_3516808_37);
-Obj _3518197_37 = PRIM_CAR(_3518196_37);
-Obj var = _3518197_37;
-Obj _3518198_37 = PRIM_CDR(_3516808_37);
+Obj _3516801_37 = R[1];
+Obj _3516802_37 = R[2];
+Obj _3516803_37 = R[3];
+Obj _3516804_37 = R[4];
+Obj _3516805_37 = R[5];
+Obj _3516806_37 = makeNative(co->gc, 1, clofun100, 0, 0);
+Obj _3518188_37 = PRIM_ISCONS(_3516805_37);
+if (True == _3518188_37) {
+Obj _3518189_37 = PRIM_CAR(_3516805_37);
+Obj _3518190_37 = PRIM_EQ(getBinding(co, packageID, 64).name, _3518189_37);
+if (True == _3518190_37) {
+Obj _3518191_37 = PRIM_CDR(_3516805_37);
+Obj _3518192_37 = PRIM_ISCONS(_3518191_37);
+if (True == _3518192_37) {
+Obj _3518193_37 = PRIM_CDR(_3516805_37);
+Obj _3518194_37 = PRIM_CAR(_3518193_37);
+Obj var = _3518194_37;
+Obj _3518195_37 = PRIM_CDR(_3516805_37);
+Obj _3518196_37 = PRIM_CDR(_3518195_37);
+Obj _3518197_37 = PRIM_ISCONS(_3518196_37);
+if (True == _3518197_37) {
+Obj _3518198_37 = PRIM_CDR(_3516805_37);
 Obj _3518199_37 = PRIM_CDR(_3518198_37);
-Obj _3518200_37 = PRIM_ISCONS(_3518199_37);
-if (True == _3518200_37) {
-Obj _3518201_37 = PRIM_CDR(_3516808_37);
+Obj _3518200_37 = PRIM_CAR(_3518199_37);
+Obj body = _3518200_37;
+Obj _3518201_37 = PRIM_CDR(_3516805_37);
 Obj _3518202_37 = PRIM_CDR(_3518201_37);
-Obj _3518203_37 = PRIM_CAR(_3518202_37);
-Obj body = _3518203_37;
-Obj _3518204_37 = PRIM_CDR(_3516808_37);
-Obj _3518205_37 = PRIM_CDR(_3518204_37);
-Obj _3518206_37 = PRIM_CDR(_3518205_37);
-Obj fvs = _3518206_37;
+Obj _3518203_37 = PRIM_CDR(_3518202_37);
+Obj fvs = _3518203_37;
 R[1] = var;
 R[2] = fvs;
-R[3] = _3516804_37;
-R[4] = _3516805_37;
-R[5] = _3516806_37;
-R[6] = _3516807_37;
+R[3] = _3516801_37;
+R[4] = _3516802_37;
+R[5] = _3516803_37;
+R[6] = _3516804_37;
 R[7] = body;
 saveCont(co, clofun101, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516807_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3516804_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516809_37);
+coraCall0(co, _3516806_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516809_37);
+coraCall0(co, _3516806_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516809_37);
+coraCall0(co, _3516806_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516809_37);
+coraCall0(co, _3516806_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518211_37= co->res;
-Obj _3516804_37 = R[1];
-Obj _3516805_37 = R[2];
-Obj _3516806_37 = R[3];
-Obj _3516807_37 = R[4];
+Obj _3518208_37= co->res;
+Obj _3516801_37 = R[1];
+Obj _3516802_37 = R[2];
+Obj _3516803_37 = R[3];
+Obj _3516804_37 = R[4];
 Obj body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516804_37, _3516805_37, _3516806_37, _3516807_37, body};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+Obj __args[5] = {_3516801_37, _3516802_37, _3516803_37, _3516804_37, body};
+coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518210_37= co->res;
+Obj _3518207_37= co->res;
 Obj fvs = R[1];
-Obj _3516804_37 = R[2];
-Obj _3516805_37 = R[3];
-Obj _3516806_37 = R[4];
-Obj _3516807_37 = R[5];
+Obj _3516801_37 = R[2];
+Obj _3516802_37 = R[3];
+Obj _3516803_37 = R[4];
+Obj _3516804_37 = R[5];
 Obj body = R[6];
-R[1] = _3516804_37;
-R[2] = _3516805_37;
-R[3] = _3516806_37;
-R[4] = _3516807_37;
+R[1] = _3516801_37;
+R[2] = _3516802_37;
+R[3] = _3516803_37;
+R[4] = _3516804_37;
 R[5] = body;
 saveCont(co, clofun101, 1, R);
-Obj __args[5] = {_3516804_37, _3516805_37, _3516806_37, _3516807_37, fvs};
-coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
+Obj __args[5] = {_3516801_37, _3516802_37, _3516803_37, _3516804_37, fvs};
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518209_37= co->res;
+Obj _3518206_37= co->res;
 Obj fvs = R[1];
-Obj _3516804_37 = R[2];
-Obj _3516805_37 = R[3];
-Obj _3516806_37 = R[4];
-Obj _3516807_37 = R[5];
+Obj _3516801_37 = R[2];
+Obj _3516802_37 = R[3];
+Obj _3516803_37 = R[4];
+Obj _3516804_37 = R[5];
 Obj body = R[6];
 R[1] = fvs;
-R[2] = _3516804_37;
-R[3] = _3516805_37;
-R[4] = _3516806_37;
-R[5] = _3516807_37;
+R[2] = _3516801_37;
+R[3] = _3516802_37;
+R[4] = _3516803_37;
+R[5] = _3516804_37;
 R[6] = body;
 saveCont(co, clofun101, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516807_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3516804_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518207_37= co->res;
+Obj _3518204_37= co->res;
 Obj var = R[1];
 Obj fvs = R[2];
-Obj _3516804_37 = R[3];
-Obj _3516805_37 = R[4];
-Obj _3516806_37 = R[5];
-Obj _3516807_37 = R[6];
+Obj _3516801_37 = R[3];
+Obj _3516802_37 = R[4];
+Obj _3516803_37 = R[5];
+Obj _3516804_37 = R[6];
 Obj body = R[7];
-Obj _3518208_37 = PRIM_CAR(var);
+Obj _3518205_37 = PRIM_CAR(var);
 R[1] = fvs;
-R[2] = _3516804_37;
-R[3] = _3516805_37;
-R[4] = _3516806_37;
-R[5] = _3516807_37;
+R[2] = _3516801_37;
+R[3] = _3516802_37;
+R[4] = _3516803_37;
+R[5] = _3516804_37;
 R[6] = body;
 saveCont(co, clofun101, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516807_37, _3518208_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), _3516804_37, _3518205_37);
 return;
 }
 }
@@ -2596,7 +2619,7 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2611,20 +2634,20 @@ Obj self = R[2];
 Obj env = R[3];
 Obj w = R[4];
 Obj l = R[5];
-Obj _3518177_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518177_37;
-Obj _3518188_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun98, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
+Obj _3518174_37 = primGenSym(co);
+Obj generate_45inst_45list_45h = _3518174_37;
+Obj _3518185_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun98, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
 R[1] = l;
 saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45list_45h);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), generate_45inst_45list_45h);
 return;
 }
 case 1:
 {
-Obj _3518189_37= co->res;
+Obj _3518186_37= co->res;
 Obj l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518189_37, l);
+coraCall1(co, _3518186_37, l);
 return;
 }
 }
@@ -2635,79 +2658,79 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3518178_37 = PRIM_EQ(Nil, x);
-if (True == _3518178_37) {
+Obj _3518175_37 = PRIM_EQ(Nil, x);
+if (True == _3518175_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518179_37 = PRIM_ISCONS(x);
-if (True == _3518179_37) {
-Obj _3518180_37 = PRIM_CAR(x);
-Obj a = _3518180_37;
-Obj _3518181_37 = PRIM_CDR(x);
-Obj b = _3518181_37;
+Obj _3518176_37 = PRIM_ISCONS(x);
+if (True == _3518176_37) {
+Obj _3518177_37 = PRIM_CAR(x);
+Obj a = _3518177_37;
+Obj _3518178_37 = PRIM_CDR(x);
+Obj b = _3518178_37;
 R[1] = b;
 saveCont(co, clofun98, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518186_37= co->res;
+Obj _3518183_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518186_37, b);
+coraCall1(co, _3518183_37, b);
 return;
 }
 case 2:
 {
-Obj _3518185_37= co->res;
+Obj _3518182_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518187_37= co->res;
+Obj _3518184_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518187_37, b);
+coraCall1(co, _3518184_37, b);
 return;
 }
 case 4:
 {
-Obj _3518183_37= co->res;
+Obj _3518180_37= co->res;
 Obj b = R[1];
-Obj _3518184_37 = primNot(_3518183_37);
-if (True == _3518184_37) {
+Obj _3518181_37 = primNot(_3518180_37);
+if (True == _3518181_37) {
 R[1] = b;
 saveCont(co, clofun98, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 R[1] = b;
 saveCont(co, clofun98, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj _3518182_37= co->res;
+Obj _3518179_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun98, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), b);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), b);
 return;
 }
 }
@@ -2722,22 +2745,22 @@ Obj self = R[2];
 Obj env1 = R[3];
 Obj w = R[4];
 Obj x1 = R[5];
-Obj _3517890_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517890_37;
-Obj _3518174_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun96, 2, 4, self, generate_45inst_45h, globals, w));
+Obj _3517887_37 = primGenSym(co);
+Obj generate_45inst_45h = _3517887_37;
+Obj _3518171_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun96, 2, 4, self, generate_45inst_45h, globals, w));
 R[1] = x1;
 R[2] = env1;
 saveCont(co, clofun97, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45h);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), generate_45inst_45h);
 return;
 }
 case 1:
 {
-Obj _3518175_37= co->res;
+Obj _3518172_37= co->res;
 Obj x1 = R[1];
 Obj env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518175_37, x1, env1);
+coraCall2(co, _3518172_37, x1, env1);
 return;
 }
 }
@@ -2749,74 +2772,74 @@ case 0:
 {
 Obj x2 = R[1];
 Obj env = R[2];
-Obj _3517891_37 = primIsSymbol(x2);
-if (True == _3517891_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
-return;
-} else {
-Obj _3516790_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518161_37 = PRIM_ISCONS(x2);
-if (True == _3518161_37) {
-Obj _3518162_37 = PRIM_CAR(x2);
-Obj _3518163_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518162_37);
-if (True == _3518163_37) {
-Obj _3518164_37 = PRIM_CDR(x2);
-Obj _3518165_37 = PRIM_ISCONS(_3518164_37);
-if (True == _3518165_37) {
-Obj _3518166_37 = PRIM_CDR(x2);
-Obj _3518167_37 = PRIM_CAR(_3518166_37);
-Obj x = _3518167_37;
-Obj _3518168_37 = PRIM_CDR(x2);
-Obj _3518169_37 = PRIM_CDR(_3518168_37);
-Obj _3518170_37 = PRIM_EQ(Nil, _3518169_37);
-if (True == _3518170_37) {
+Obj _3517888_37 = primIsSymbol(x2);
+if (True == _3517888_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), x2);
+return;
+} else {
+Obj _3516787_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
+Obj _3518158_37 = PRIM_ISCONS(x2);
+if (True == _3518158_37) {
+Obj _3518159_37 = PRIM_CAR(x2);
+Obj _3518160_37 = PRIM_EQ(getBinding(co, packageID, 95).name, _3518159_37);
+if (True == _3518160_37) {
+Obj _3518161_37 = PRIM_CDR(x2);
+Obj _3518162_37 = PRIM_ISCONS(_3518161_37);
+if (True == _3518162_37) {
+Obj _3518163_37 = PRIM_CDR(x2);
+Obj _3518164_37 = PRIM_CAR(_3518163_37);
+Obj x = _3518164_37;
+Obj _3518165_37 = PRIM_CDR(x2);
+Obj _3518166_37 = PRIM_CDR(_3518165_37);
+Obj _3518167_37 = PRIM_EQ(Nil, _3518166_37);
+if (True == _3518167_37) {
 R[1] = x;
 saveCont(co, clofun96, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3516787_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518173_37= co->res;
+Obj _3518170_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518172_37= co->res;
+Obj _3518169_37= co->res;
 saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518172_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), _3518169_37);
 return;
 }
 case 3:
 {
-Obj _3518171_37= co->res;
+Obj _3518168_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun96, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), x, closureRef(R[0], 2));
 return;
 }
 }
@@ -2826,60 +2849,60 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516791_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518149_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518149_37) {
-Obj _3518150_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518151_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518150_37);
-if (True == _3518151_37) {
-Obj _3518152_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518153_37 = PRIM_ISCONS(_3518152_37);
-if (True == _3518153_37) {
-Obj _3518154_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518155_37 = PRIM_CAR(_3518154_37);
-Obj idx = _3518155_37;
-Obj _3518156_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518157_37 = PRIM_CDR(_3518156_37);
-Obj _3518158_37 = PRIM_EQ(Nil, _3518157_37);
-if (True == _3518158_37) {
+Obj _3516788_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj _3518146_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == _3518146_37) {
+Obj _3518147_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj _3518148_37 = PRIM_EQ(getBinding(co, packageID, 79).name, _3518147_37);
+if (True == _3518148_37) {
+Obj _3518149_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518150_37 = PRIM_ISCONS(_3518149_37);
+if (True == _3518150_37) {
+Obj _3518151_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518152_37 = PRIM_CAR(_3518151_37);
+Obj idx = _3518152_37;
+Obj _3518153_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518154_37 = PRIM_CDR(_3518153_37);
+Obj _3518155_37 = PRIM_EQ(Nil, _3518154_37);
+if (True == _3518155_37) {
 R[1] = idx;
 saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, _3516788_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518160_37= co->res;
+Obj _3518157_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518159_37= co->res;
+Obj _3518156_37= co->res;
 Obj idx = R[1];
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), idx);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), idx);
 return;
 }
 }
@@ -2889,151 +2912,151 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516792_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518125_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518125_37) {
-Obj _3518126_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518127_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518126_37);
-if (True == _3518127_37) {
-Obj _3518128_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518129_37 = PRIM_ISCONS(_3518128_37);
-if (True == _3518129_37) {
-Obj _3518130_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518131_37 = PRIM_CAR(_3518130_37);
-Obj x = _3518131_37;
-Obj _3518132_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518133_37 = PRIM_CDR(_3518132_37);
-Obj _3518134_37 = PRIM_EQ(Nil, _3518133_37);
-if (True == _3518134_37) {
-Obj _3518135_37 = primIsSymbol(x);
-if (True == _3518135_37) {
+Obj _3516789_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518122_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3518122_37) {
+Obj _3518123_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3518124_37 = PRIM_EQ(getBinding(co, packageID, 98).name, _3518123_37);
+if (True == _3518124_37) {
+Obj _3518125_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518126_37 = PRIM_ISCONS(_3518125_37);
+if (True == _3518126_37) {
+Obj _3518127_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518128_37 = PRIM_CAR(_3518127_37);
+Obj x = _3518128_37;
+Obj _3518129_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518130_37 = PRIM_CDR(_3518129_37);
+Obj _3518131_37 = PRIM_EQ(Nil, _3518130_37);
+if (True == _3518131_37) {
+Obj _3518132_37 = primIsSymbol(x);
+if (True == _3518132_37) {
 R[1] = x;
 saveCont(co, clofun94, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
 R[1] = x;
 saveCont(co, clofun94, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), x);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3516789_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3516789_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3516789_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3516789_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518138_37= co->res;
+Obj _3518135_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518137_37= co->res;
+Obj _3518134_37= co->res;
 saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518137_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), _3518134_37);
 return;
 }
 case 3:
 {
-Obj _3518136_37= co->res;
+Obj _3518133_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun94, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3518141_37= co->res;
+Obj _3518138_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518140_37= co->res;
+Obj _3518137_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun94, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), x);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), x);
 return;
 }
 case 6:
 {
-Obj _3518145_37= co->res;
+Obj _3518142_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518144_37= co->res;
+Obj _3518141_37= co->res;
 saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518144_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), _3518141_37);
 return;
 }
 case 8:
 {
-Obj _3518143_37= co->res;
+Obj _3518140_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun94, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), x);
 return;
 }
 case 9:
 {
-Obj _3518139_37= co->res;
+Obj _3518136_37= co->res;
 Obj x = R[1];
-if (True == _3518139_37) {
+if (True == _3518136_37) {
 R[1] = x;
 saveCont(co, clofun94, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518142_37 = primIsString(x);
-if (True == _3518142_37) {
+Obj _3518139_37 = primIsString(x);
+if (True == _3518139_37) {
 R[1] = x;
 saveCont(co, clofun94, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518146_37 = PRIM_EQ(x, Nil);
-if (True == _3518146_37) {
+Obj _3518143_37 = PRIM_EQ(x, Nil);
+if (True == _3518143_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518147_37 = PRIM_EQ(x, True);
-if (True == _3518147_37) {
+Obj _3518144_37 = PRIM_EQ(x, True);
+if (True == _3518144_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518148_37 = PRIM_EQ(x, False);
-if (True == _3518148_37) {
+Obj _3518145_37 = PRIM_EQ(x, False);
+if (True == _3518145_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
@@ -3048,126 +3071,126 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516793_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518090_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518090_37) {
-Obj _3518091_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518092_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518091_37);
-if (True == _3518092_37) {
-Obj _3518093_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518094_37 = PRIM_ISCONS(_3518093_37);
-if (True == _3518094_37) {
-Obj _3518095_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518096_37 = PRIM_CAR(_3518095_37);
-Obj a = _3518096_37;
+Obj _3516790_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3518087_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518087_37) {
+Obj _3518088_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518089_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518088_37);
+if (True == _3518089_37) {
+Obj _3518090_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518091_37 = PRIM_ISCONS(_3518090_37);
+if (True == _3518091_37) {
+Obj _3518092_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518093_37 = PRIM_CAR(_3518092_37);
+Obj a = _3518093_37;
+Obj _3518094_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518095_37 = PRIM_CDR(_3518094_37);
+Obj _3518096_37 = PRIM_ISCONS(_3518095_37);
+if (True == _3518096_37) {
 Obj _3518097_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3518098_37 = PRIM_CDR(_3518097_37);
-Obj _3518099_37 = PRIM_ISCONS(_3518098_37);
-if (True == _3518099_37) {
+Obj _3518099_37 = PRIM_CAR(_3518098_37);
+Obj b = _3518099_37;
 Obj _3518100_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3518101_37 = PRIM_CDR(_3518100_37);
-Obj _3518102_37 = PRIM_CAR(_3518101_37);
-Obj b = _3518102_37;
-Obj _3518103_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518104_37 = PRIM_CDR(_3518103_37);
+Obj _3518102_37 = PRIM_CDR(_3518101_37);
+Obj _3518103_37 = PRIM_ISCONS(_3518102_37);
+if (True == _3518103_37) {
+Obj _3518104_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3518105_37 = PRIM_CDR(_3518104_37);
-Obj _3518106_37 = PRIM_ISCONS(_3518105_37);
-if (True == _3518106_37) {
-Obj _3518107_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518108_37 = PRIM_CDR(_3518107_37);
+Obj _3518106_37 = PRIM_CDR(_3518105_37);
+Obj _3518107_37 = PRIM_CAR(_3518106_37);
+Obj c = _3518107_37;
+Obj _3518108_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3518109_37 = PRIM_CDR(_3518108_37);
-Obj _3518110_37 = PRIM_CAR(_3518109_37);
-Obj c = _3518110_37;
-Obj _3518111_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518112_37 = PRIM_CDR(_3518111_37);
-Obj _3518113_37 = PRIM_CDR(_3518112_37);
-Obj _3518114_37 = PRIM_CDR(_3518113_37);
-Obj _3518115_37 = PRIM_EQ(Nil, _3518114_37);
-if (True == _3518115_37) {
+Obj _3518110_37 = PRIM_CDR(_3518109_37);
+Obj _3518111_37 = PRIM_CDR(_3518110_37);
+Obj _3518112_37 = PRIM_EQ(Nil, _3518111_37);
+if (True == _3518112_37) {
 R[1] = b;
 R[2] = a;
 R[3] = c;
 saveCont(co, clofun93, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), a, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), a, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3516790_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518123_37= co->res;
+Obj _3518120_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
-Obj _3518124_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj _3518121_37 = makeCons(co->gc, a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518123_37, c, _3518124_37);
+coraCall2(co, _3518120_37, c, _3518121_37);
 return;
 }
 case 2:
 {
-Obj _3518122_37= co->res;
+Obj _3518119_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
 R[2] = c;
 saveCont(co, clofun93, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518121_37= co->res;
+Obj _3518118_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
 R[2] = c;
 saveCont(co, clofun93, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3518120_37= co->res;
+Obj _3518117_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = a;
 R[2] = c;
 saveCont(co, clofun93, 3, R);
-coraCall2(co, _3518120_37, b, closureRef(R[0], 5));
+coraCall2(co, _3518117_37, b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518119_37= co->res;
+Obj _3518116_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3175,12 +3198,12 @@ R[1] = b;
 R[2] = a;
 R[3] = c;
 saveCont(co, clofun93, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518118_37= co->res;
+Obj _3518115_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3188,12 +3211,12 @@ R[1] = b;
 R[2] = a;
 R[3] = c;
 saveCont(co, clofun93, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj _3518117_37= co->res;
+Obj _3518114_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3201,12 +3224,12 @@ R[1] = b;
 R[2] = a;
 R[3] = c;
 saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), a);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), a);
 return;
 }
 case 8:
 {
-Obj _3518116_37= co->res;
+Obj _3518113_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3214,7 +3237,7 @@ R[1] = b;
 R[2] = a;
 R[3] = c;
 saveCont(co, clofun93, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
@@ -3224,155 +3247,155 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516794_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518060_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518060_37) {
-Obj _3518061_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518062_37 = PRIM_ISCONS(_3518061_37);
+Obj _3516791_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518057_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518057_37) {
+Obj _3518058_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518059_37 = PRIM_ISCONS(_3518058_37);
+if (True == _3518059_37) {
+Obj _3518060_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518061_37 = PRIM_CAR(_3518060_37);
+Obj _3518062_37 = PRIM_EQ(getBinding(co, packageID, 92).name, _3518061_37);
 if (True == _3518062_37) {
 Obj _3518063_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518064_37 = PRIM_CAR(_3518063_37);
-Obj _3518065_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518064_37);
+Obj _3518064_37 = PRIM_CDR(_3518063_37);
+Obj _3518065_37 = PRIM_ISCONS(_3518064_37);
 if (True == _3518065_37) {
 Obj _3518066_37 = PRIM_CAR(closureRef(R[0], 1));
 Obj _3518067_37 = PRIM_CDR(_3518066_37);
-Obj _3518068_37 = PRIM_ISCONS(_3518067_37);
-if (True == _3518068_37) {
+Obj _3518068_37 = PRIM_CAR(_3518067_37);
+Obj f = _3518068_37;
 Obj _3518069_37 = PRIM_CAR(closureRef(R[0], 1));
 Obj _3518070_37 = PRIM_CDR(_3518069_37);
-Obj _3518071_37 = PRIM_CAR(_3518070_37);
-Obj f = _3518071_37;
-Obj _3518072_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518073_37 = PRIM_CDR(_3518072_37);
-Obj _3518074_37 = PRIM_CDR(_3518073_37);
-Obj _3518075_37 = PRIM_EQ(Nil, _3518074_37);
-if (True == _3518075_37) {
-Obj _3518076_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3518076_37;
+Obj _3518071_37 = PRIM_CDR(_3518070_37);
+Obj _3518072_37 = PRIM_EQ(Nil, _3518071_37);
+if (True == _3518072_37) {
+Obj _3518073_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj args = _3518073_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun92, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), f);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, _3516791_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518081_37= co->res;
+Obj _3518078_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518080_37= co->res;
+Obj _3518077_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun92, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518084_37= co->res;
+Obj _3518081_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518083_37= co->res;
+Obj _3518080_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun92, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 5:
 {
-Obj _3518087_37= co->res;
+Obj _3518084_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518086_37= co->res;
+Obj _3518083_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun92, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518089_37= co->res;
+Obj _3518086_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518088_37= co->res;
+Obj _3518085_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun92, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3518078_37= co->res;
+Obj _3518075_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3518079_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
-if (True == _3518079_37) {
+Obj _3518076_37 = PRIM_EQ(f, getBinding(co, packageID, 123).name);
+if (True == _3518076_37) {
 R[1] = args;
 saveCont(co, clofun92, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518082_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
-if (True == _3518082_37) {
+Obj _3518079_37 = PRIM_EQ(f, getBinding(co, packageID, 111).name);
+if (True == _3518079_37) {
 R[1] = args;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518085_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
-if (True == _3518085_37) {
+Obj _3518082_37 = PRIM_EQ(f, getBinding(co, packageID, 120).name);
+if (True == _3518082_37) {
 R[1] = args;
 saveCont(co, clofun92, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
 R[1] = args;
 saveCont(co, clofun92, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
 }
@@ -3380,13 +3403,13 @@ return;
 }
 case 10:
 {
-Obj _3518077_37= co->res;
+Obj _3518074_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun92, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518077_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), _3518074_37);
 return;
 }
 }
@@ -3396,159 +3419,159 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516795_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518025_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518025_37) {
-Obj _3518026_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518027_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518026_37);
-if (True == _3518027_37) {
-Obj _3518028_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518029_37 = PRIM_ISCONS(_3518028_37);
-if (True == _3518029_37) {
-Obj _3518030_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518031_37 = PRIM_CAR(_3518030_37);
-Obj a = _3518031_37;
+Obj _3516792_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518022_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518022_37) {
+Obj _3518023_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518024_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3518023_37);
+if (True == _3518024_37) {
+Obj _3518025_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518026_37 = PRIM_ISCONS(_3518025_37);
+if (True == _3518026_37) {
+Obj _3518027_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518028_37 = PRIM_CAR(_3518027_37);
+Obj a = _3518028_37;
+Obj _3518029_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518030_37 = PRIM_CDR(_3518029_37);
+Obj _3518031_37 = PRIM_ISCONS(_3518030_37);
+if (True == _3518031_37) {
 Obj _3518032_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3518033_37 = PRIM_CDR(_3518032_37);
-Obj _3518034_37 = PRIM_ISCONS(_3518033_37);
-if (True == _3518034_37) {
+Obj _3518034_37 = PRIM_CAR(_3518033_37);
+Obj b = _3518034_37;
 Obj _3518035_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3518036_37 = PRIM_CDR(_3518035_37);
-Obj _3518037_37 = PRIM_CAR(_3518036_37);
-Obj b = _3518037_37;
-Obj _3518038_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518039_37 = PRIM_CDR(_3518038_37);
+Obj _3518037_37 = PRIM_CDR(_3518036_37);
+Obj _3518038_37 = PRIM_ISCONS(_3518037_37);
+if (True == _3518038_37) {
+Obj _3518039_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3518040_37 = PRIM_CDR(_3518039_37);
-Obj _3518041_37 = PRIM_ISCONS(_3518040_37);
-if (True == _3518041_37) {
-Obj _3518042_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518043_37 = PRIM_CDR(_3518042_37);
+Obj _3518041_37 = PRIM_CDR(_3518040_37);
+Obj _3518042_37 = PRIM_CAR(_3518041_37);
+Obj c = _3518042_37;
+Obj _3518043_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3518044_37 = PRIM_CDR(_3518043_37);
-Obj _3518045_37 = PRIM_CAR(_3518044_37);
-Obj c = _3518045_37;
-Obj _3518046_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518047_37 = PRIM_CDR(_3518046_37);
-Obj _3518048_37 = PRIM_CDR(_3518047_37);
-Obj _3518049_37 = PRIM_CDR(_3518048_37);
-Obj _3518050_37 = PRIM_EQ(Nil, _3518049_37);
-if (True == _3518050_37) {
+Obj _3518045_37 = PRIM_CDR(_3518044_37);
+Obj _3518046_37 = PRIM_CDR(_3518045_37);
+Obj _3518047_37 = PRIM_EQ(Nil, _3518046_37);
+if (True == _3518047_37) {
 R[1] = a;
 R[2] = b;
 R[3] = c;
 saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, _3516792_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518059_37= co->res;
+Obj _3518056_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3518058_37= co->res;
+Obj _3518055_37= co->res;
 Obj c = R[1];
 saveCont(co, clofun91, 1, R);
-coraCall2(co, _3518058_37, c, closureRef(R[0], 4));
+coraCall2(co, _3518055_37, c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518057_37= co->res;
+Obj _3518054_37= co->res;
 Obj c = R[1];
 R[1] = c;
 saveCont(co, clofun91, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3518056_37= co->res;
+Obj _3518053_37= co->res;
 Obj c = R[1];
 R[1] = c;
 saveCont(co, clofun91, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj _3518055_37= co->res;
+Obj _3518052_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = c;
 saveCont(co, clofun91, 4, R);
-coraCall2(co, _3518055_37, b, closureRef(R[0], 4));
+coraCall2(co, _3518052_37, b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518054_37= co->res;
+Obj _3518051_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
 R[2] = c;
 saveCont(co, clofun91, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj _3518053_37= co->res;
+Obj _3518050_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
 R[2] = c;
 saveCont(co, clofun91, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj _3518052_37= co->res;
+Obj _3518049_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = c;
 saveCont(co, clofun91, 7, R);
-coraCall2(co, _3518052_37, a, closureRef(R[0], 4));
+coraCall2(co, _3518049_37, a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3518051_37= co->res;
+Obj _3518048_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
@@ -3556,7 +3579,7 @@ R[1] = a;
 R[2] = b;
 R[3] = c;
 saveCont(co, clofun91, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
@@ -3566,179 +3589,179 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516796_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517987_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517987_37) {
-Obj _3517988_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517989_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517988_37);
-if (True == _3517989_37) {
-Obj _3517990_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517991_37 = PRIM_ISCONS(_3517990_37);
-if (True == _3517991_37) {
-Obj _3517992_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517993_37 = PRIM_CAR(_3517992_37);
-Obj label = _3517993_37;
+Obj _3516793_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj _3517984_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517984_37) {
+Obj _3517985_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517986_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517985_37);
+if (True == _3517986_37) {
+Obj _3517987_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517988_37 = PRIM_ISCONS(_3517987_37);
+if (True == _3517988_37) {
+Obj _3517989_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517990_37 = PRIM_CAR(_3517989_37);
+Obj label = _3517990_37;
+Obj _3517991_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517992_37 = PRIM_CDR(_3517991_37);
+Obj _3517993_37 = PRIM_ISCONS(_3517992_37);
+if (True == _3517993_37) {
 Obj _3517994_37 = PRIM_CDR(closureRef(R[0], 1));
 Obj _3517995_37 = PRIM_CDR(_3517994_37);
-Obj _3517996_37 = PRIM_ISCONS(_3517995_37);
-if (True == _3517996_37) {
+Obj _3517996_37 = PRIM_CAR(_3517995_37);
+Obj nargs = _3517996_37;
 Obj _3517997_37 = PRIM_CDR(closureRef(R[0], 1));
 Obj _3517998_37 = PRIM_CDR(_3517997_37);
-Obj _3517999_37 = PRIM_CAR(_3517998_37);
-Obj nargs = _3517999_37;
-Obj _3518000_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518001_37 = PRIM_CDR(_3518000_37);
+Obj _3517999_37 = PRIM_CDR(_3517998_37);
+Obj _3518000_37 = PRIM_ISCONS(_3517999_37);
+if (True == _3518000_37) {
+Obj _3518001_37 = PRIM_CDR(closureRef(R[0], 1));
 Obj _3518002_37 = PRIM_CDR(_3518001_37);
-Obj _3518003_37 = PRIM_ISCONS(_3518002_37);
-if (True == _3518003_37) {
-Obj _3518004_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518005_37 = PRIM_CDR(_3518004_37);
+Obj _3518003_37 = PRIM_CDR(_3518002_37);
+Obj _3518004_37 = PRIM_CAR(_3518003_37);
+Obj nframe = _3518004_37;
+Obj _3518005_37 = PRIM_CDR(closureRef(R[0], 1));
 Obj _3518006_37 = PRIM_CDR(_3518005_37);
-Obj _3518007_37 = PRIM_CAR(_3518006_37);
-Obj nframe = _3518007_37;
-Obj _3518008_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518009_37 = PRIM_CDR(_3518008_37);
-Obj _3518010_37 = PRIM_CDR(_3518009_37);
-Obj _3518011_37 = PRIM_CDR(_3518010_37);
-Obj frees = _3518011_37;
+Obj _3518007_37 = PRIM_CDR(_3518006_37);
+Obj _3518008_37 = PRIM_CDR(_3518007_37);
+Obj frees = _3518008_37;
 R[1] = nframe;
 R[2] = label;
 R[3] = nargs;
 R[4] = frees;
 saveCont(co, clofun90, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, _3516793_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518024_37= co->res;
+Obj _3518021_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518023_37= co->res;
+Obj _3518020_37= co->res;
 Obj frees = R[1];
 saveCont(co, clofun90, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518021_37= co->res;
+Obj _3518018_37= co->res;
 Obj frees = R[1];
-Obj _3518022_37 = primNot(_3518021_37);
-if (True == _3518022_37) {
+Obj _3518019_37 = primNot(_3518018_37);
+if (True == _3518019_37) {
 R[1] = frees;
 saveCont(co, clofun90, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 }
 case 4:
 {
-Obj _3518020_37= co->res;
+Obj _3518017_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun90, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), frees);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), frees);
 return;
 }
 case 5:
 {
-Obj _3518019_37= co->res;
+Obj _3518016_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518019_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), _3518016_37);
 return;
 }
 case 6:
 {
-Obj _3518018_37= co->res;
+Obj _3518015_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun90, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), frees);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), frees);
 return;
 }
 case 7:
 {
-Obj _3518017_37= co->res;
+Obj _3518014_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun90, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj _3518016_37= co->res;
+Obj _3518013_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = frees;
 saveCont(co, clofun90, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nargs);
 return;
 }
 case 9:
 {
-Obj _3518015_37= co->res;
+Obj _3518012_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = nargs;
 R[2] = frees;
 saveCont(co, clofun90, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj _3518014_37= co->res;
+Obj _3518011_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
 R[1] = nargs;
 R[2] = frees;
 saveCont(co, clofun90, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), label);
 return;
 }
 case 11:
 {
-Obj _3518013_37= co->res;
+Obj _3518010_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
@@ -3746,12 +3769,12 @@ R[1] = label;
 R[2] = nargs;
 R[3] = frees;
 saveCont(co, clofun90, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj _3518012_37= co->res;
+Obj _3518009_37= co->res;
 Obj nframe = R[1];
 Obj label = R[2];
 Obj nargs = R[3];
@@ -3760,7 +3783,7 @@ R[1] = label;
 R[2] = nargs;
 R[3] = frees;
 saveCont(co, clofun90, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nframe);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nframe);
 return;
 }
 }
@@ -3770,96 +3793,96 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516797_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517966_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517966_37) {
-Obj _3517967_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517968_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517967_37);
-if (True == _3517968_37) {
-Obj _3517969_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517970_37 = PRIM_ISCONS(_3517969_37);
-if (True == _3517970_37) {
-Obj _3517971_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517972_37 = PRIM_CAR(_3517971_37);
-Obj a = _3517972_37;
+Obj _3516794_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3517963_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517963_37) {
+Obj _3517964_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517965_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517964_37);
+if (True == _3517965_37) {
+Obj _3517966_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517967_37 = PRIM_ISCONS(_3517966_37);
+if (True == _3517967_37) {
+Obj _3517968_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517969_37 = PRIM_CAR(_3517968_37);
+Obj a = _3517969_37;
+Obj _3517970_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517971_37 = PRIM_CDR(_3517970_37);
+Obj _3517972_37 = PRIM_ISCONS(_3517971_37);
+if (True == _3517972_37) {
 Obj _3517973_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3517974_37 = PRIM_CDR(_3517973_37);
-Obj _3517975_37 = PRIM_ISCONS(_3517974_37);
-if (True == _3517975_37) {
+Obj _3517975_37 = PRIM_CAR(_3517974_37);
+Obj b = _3517975_37;
 Obj _3517976_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3517977_37 = PRIM_CDR(_3517976_37);
-Obj _3517978_37 = PRIM_CAR(_3517977_37);
-Obj b = _3517978_37;
-Obj _3517979_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517980_37 = PRIM_CDR(_3517979_37);
-Obj _3517981_37 = PRIM_CDR(_3517980_37);
-Obj _3517982_37 = PRIM_EQ(Nil, _3517981_37);
-if (True == _3517982_37) {
+Obj _3517978_37 = PRIM_CDR(_3517977_37);
+Obj _3517979_37 = PRIM_EQ(Nil, _3517978_37);
+if (True == _3517979_37) {
 R[1] = a;
 R[2] = b;
 saveCont(co, clofun89, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, _3516794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, _3516794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, _3516794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, _3516794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, _3516794_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517986_37= co->res;
+Obj _3517983_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517986_37, b, closureRef(R[0], 5));
+coraCall2(co, _3517983_37, b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517985_37= co->res;
+Obj _3517982_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun89, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517984_37= co->res;
+Obj _3517981_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun89, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3517983_37= co->res;
+Obj _3517980_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 R[1] = b;
 saveCont(co, clofun89, 3, R);
-coraCall2(co, _3517983_37, a, closureRef(R[0], 5));
+coraCall2(co, _3517980_37, a, closureRef(R[0], 5));
 return;
 }
 }
@@ -3869,76 +3892,76 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516798_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517952_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517952_37) {
-Obj _3517953_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517954_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517953_37);
-if (True == _3517954_37) {
-Obj _3517955_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517956_37 = PRIM_ISCONS(_3517955_37);
-if (True == _3517956_37) {
-Obj _3517957_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517958_37 = PRIM_CAR(_3517957_37);
-Obj x = _3517958_37;
-Obj _3517959_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517960_37 = PRIM_CDR(_3517959_37);
-Obj _3517961_37 = PRIM_EQ(Nil, _3517960_37);
-if (True == _3517961_37) {
+Obj _3516795_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517949_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517949_37) {
+Obj _3517950_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517951_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517950_37);
+if (True == _3517951_37) {
+Obj _3517952_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517953_37 = PRIM_ISCONS(_3517952_37);
+if (True == _3517953_37) {
+Obj _3517954_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517955_37 = PRIM_CAR(_3517954_37);
+Obj x = _3517955_37;
+Obj _3517956_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517957_37 = PRIM_CDR(_3517956_37);
+Obj _3517958_37 = PRIM_EQ(Nil, _3517957_37);
+if (True == _3517958_37) {
 R[1] = x;
 saveCont(co, clofun88, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516798_37);
+coraCall0(co, _3516795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516798_37);
+coraCall0(co, _3516795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516798_37);
+coraCall0(co, _3516795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516798_37);
+coraCall0(co, _3516795_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517965_37= co->res;
+Obj _3517962_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517964_37= co->res;
+Obj _3517961_37= co->res;
 saveCont(co, clofun88, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517963_37= co->res;
+Obj _3517960_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun88, 2, R);
-coraCall2(co, _3517963_37, x, closureRef(R[0], 4));
+coraCall2(co, _3517960_37, x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517962_37= co->res;
+Obj _3517959_37= co->res;
 Obj x = R[1];
 R[1] = x;
 saveCont(co, clofun88, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
@@ -3948,69 +3971,69 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516799_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517939_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517939_37) {
-Obj _3517940_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517941_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517940_37);
-if (True == _3517941_37) {
-Obj _3517942_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517943_37 = PRIM_ISCONS(_3517942_37);
-if (True == _3517943_37) {
-Obj _3517944_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517945_37 = PRIM_CAR(_3517944_37);
-Obj exp = _3517945_37;
-Obj _3517946_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517947_37 = PRIM_CDR(_3517946_37);
-Obj _3517948_37 = PRIM_EQ(Nil, _3517947_37);
-if (True == _3517948_37) {
+Obj _3516796_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517936_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517936_37) {
+Obj _3517937_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517938_37 = PRIM_EQ(getBinding(co, packageID, 76).name, _3517937_37);
+if (True == _3517938_37) {
+Obj _3517939_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517940_37 = PRIM_ISCONS(_3517939_37);
+if (True == _3517940_37) {
+Obj _3517941_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517942_37 = PRIM_CAR(_3517941_37);
+Obj exp = _3517942_37;
+Obj _3517943_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517944_37 = PRIM_CDR(_3517943_37);
+Obj _3517945_37 = PRIM_EQ(Nil, _3517944_37);
+if (True == _3517945_37) {
 R[1] = exp;
 saveCont(co, clofun87, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516799_37);
+coraCall0(co, _3516796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516799_37);
+coraCall0(co, _3516796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516799_37);
+coraCall0(co, _3516796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516799_37);
+coraCall0(co, _3516796_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517951_37= co->res;
+Obj _3517948_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517950_37= co->res;
+Obj _3517947_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun87, 1, R);
-coraCall2(co, _3517950_37, exp, closureRef(R[0], 4));
+coraCall2(co, _3517947_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517949_37= co->res;
+Obj _3517946_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun87, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
@@ -4020,131 +4043,131 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516800_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517915_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517915_37) {
-Obj _3517916_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517917_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517916_37);
-if (True == _3517917_37) {
-Obj _3517918_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517919_37 = PRIM_ISCONS(_3517918_37);
-if (True == _3517919_37) {
-Obj _3517920_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517921_37 = PRIM_CAR(_3517920_37);
-Obj exp = _3517921_37;
+Obj _3516797_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517912_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517912_37) {
+Obj _3517913_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517914_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517913_37);
+if (True == _3517914_37) {
+Obj _3517915_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517916_37 = PRIM_ISCONS(_3517915_37);
+if (True == _3517916_37) {
+Obj _3517917_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517918_37 = PRIM_CAR(_3517917_37);
+Obj exp = _3517918_37;
+Obj _3517919_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517920_37 = PRIM_CDR(_3517919_37);
+Obj _3517921_37 = PRIM_ISCONS(_3517920_37);
+if (True == _3517921_37) {
 Obj _3517922_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517923_37 = PRIM_CDR(_3517922_37);
-Obj _3517924_37 = PRIM_ISCONS(_3517923_37);
-if (True == _3517924_37) {
+Obj _3517924_37 = PRIM_CAR(_3517923_37);
+Obj label = _3517924_37;
 Obj _3517925_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517926_37 = PRIM_CDR(_3517925_37);
-Obj _3517927_37 = PRIM_CAR(_3517926_37);
-Obj label = _3517927_37;
-Obj _3517928_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517929_37 = PRIM_CDR(_3517928_37);
-Obj _3517930_37 = PRIM_CDR(_3517929_37);
-Obj fvs = _3517930_37;
+Obj _3517927_37 = PRIM_CDR(_3517926_37);
+Obj fvs = _3517927_37;
 R[1] = label;
 R[2] = exp;
 saveCont(co, clofun86, 8, R);
 Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), fvs};
-coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 51)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516800_37);
+coraCall0(co, _3516797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516800_37);
+coraCall0(co, _3516797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516800_37);
+coraCall0(co, _3516797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516800_37);
+coraCall0(co, _3516797_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517938_37= co->res;
+Obj _3517935_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517937_37= co->res;
+Obj _3517934_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517937_37, exp, closureRef(R[0], 4));
+coraCall2(co, _3517934_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517936_37= co->res;
+Obj _3517933_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun86, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3517935_37= co->res;
+Obj _3517932_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun86, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj _3517934_37= co->res;
+Obj _3517931_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = exp;
 saveCont(co, clofun86, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), label);
 return;
 }
 case 6:
 {
-Obj _3517933_37= co->res;
+Obj _3517930_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
 R[2] = exp;
 saveCont(co, clofun86, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj _3517932_37= co->res;
+Obj _3517929_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
 R[2] = exp;
 saveCont(co, clofun86, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj _3517931_37= co->res;
+Obj _3517928_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
 R[2] = exp;
 saveCont(co, clofun86, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
@@ -4154,93 +4177,93 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517892_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517892_37) {
-Obj _3517893_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517893_37;
-Obj _3517894_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517894_37;
+Obj _3517889_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517889_37) {
+Obj _3517890_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517890_37;
+Obj _3517891_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517891_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun85, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj _3517906_37= co->res;
+Obj _3517903_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517905_37= co->res;
+Obj _3517902_37= co->res;
 Obj nargs = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nargs);
 return;
 }
 case 3:
 {
-Obj _3517904_37= co->res;
+Obj _3517901_37= co->res;
 Obj nargs = R[1];
 R[1] = nargs;
 saveCont(co, clofun85, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3517903_37= co->res;
+Obj _3517900_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = nargs;
 saveCont(co, clofun85, 3, R);
-coraCall2(co, _3517903_37, f, closureRef(R[0], 4));
+coraCall2(co, _3517900_37, f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517902_37= co->res;
+Obj _3517899_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
 R[2] = nargs;
 saveCont(co, clofun85, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj _3517901_37= co->res;
+Obj _3517898_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
 R[2] = nargs;
 saveCont(co, clofun85, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj _3517900_37= co->res;
+Obj _3517897_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
 R[2] = nargs;
 saveCont(co, clofun85, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj _3517899_37= co->res;
+Obj _3517896_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4248,12 +4271,12 @@ R[1] = f;
 R[2] = nargs;
 saveCont(co, clofun85, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3517898_37= co->res;
+Obj _3517895_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4261,12 +4284,12 @@ R[1] = args;
 R[2] = f;
 R[3] = nargs;
 saveCont(co, clofun85, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj _3517897_37= co->res;
+Obj _3517894_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4274,58 +4297,58 @@ R[1] = args;
 R[2] = f;
 R[3] = nargs;
 saveCont(co, clofun85, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nargs);
 return;
 }
 case 11:
 {
-Obj _3517914_37= co->res;
+Obj _3517911_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517913_37= co->res;
+Obj _3517910_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun85, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 13:
 {
-Obj _3517911_37= co->res;
+Obj _3517908_37= co->res;
 Obj nargs = R[1];
 Obj args = R[2];
-Obj _3517912_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517912_37) {
+Obj _3517909_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
+if (True == _3517909_37) {
 R[1] = args;
 saveCont(co, clofun85, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 }
 case 14:
 {
-Obj _3517910_37= co->res;
+Obj _3517907_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
 R[1] = nargs;
 R[2] = args;
 saveCont(co, clofun85, 13, R);
-coraCall2(co, _3517910_37, f, closureRef(R[0], 4));
+coraCall2(co, _3517907_37, f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517909_37= co->res;
+Obj _3517906_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4333,12 +4356,12 @@ R[1] = f;
 R[2] = nargs;
 R[3] = args;
 saveCont(co, clofun85, 14, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj _3517908_37= co->res;
+Obj _3517905_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4346,12 +4369,12 @@ R[1] = f;
 R[2] = nargs;
 R[3] = args;
 saveCont(co, clofun85, 15, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj _3517907_37= co->res;
+Obj _3517904_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4359,29 +4382,29 @@ R[1] = f;
 R[2] = nargs;
 R[3] = args;
 saveCont(co, clofun85, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nargs);
 return;
 }
 case 18:
 {
-Obj _3517895_37= co->res;
+Obj _3517892_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj nargs = _3517895_37;
-Obj _3517896_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517896_37) {
+Obj nargs = _3517892_37;
+Obj _3517893_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
+if (True == _3517893_37) {
 R[1] = args;
 R[2] = f;
 R[3] = nargs;
 saveCont(co, clofun85, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
 R[1] = f;
 R[2] = nargs;
 R[3] = args;
 saveCont(co, clofun85, 17, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
 }
@@ -4398,7 +4421,7 @@ Obj env = R[3];
 Obj w = R[4];
 Obj ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun83, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun83, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
 return;
 }
 }
@@ -4413,53 +4436,53 @@ Obj v = R[2];
 R[1] = v;
 R[2] = acc;
 saveCont(co, clofun83, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj _3517887_37= co->res;
+Obj _3517884_37= co->res;
 Obj acc = R[1];
-Obj _3517888_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517888_37);
+Obj _3517885_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517885_37);
 return;
 }
 case 2:
 {
-Obj _3517886_37= co->res;
+Obj _3517883_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun83, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj _3517885_37= co->res;
+Obj _3517882_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun83, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), acc);
 return;
 }
 case 4:
 {
-Obj _3517884_37= co->res;
+Obj _3517881_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun83, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj _3517883_37= co->res;
+Obj _3517880_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
 saveCont(co, clofun83, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 }
@@ -4475,7 +4498,7 @@ Obj env = R[3];
 Obj w = R[4];
 Obj ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun81, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun81, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
 return;
 }
 }
@@ -4490,57 +4513,57 @@ Obj v = R[2];
 R[1] = v;
 R[2] = acc;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj _3517880_37= co->res;
+Obj _3517877_37= co->res;
 Obj acc = R[1];
-Obj _3517881_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517881_37);
+Obj _3517878_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517878_37);
 return;
 }
 case 2:
 {
-Obj _3517879_37= co->res;
+Obj _3517876_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3517878_37= co->res;
+Obj _3517875_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
 saveCont(co, clofun81, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3517877_37= co->res;
+Obj _3517874_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
 R[2] = acc;
 saveCont(co, clofun81, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj _3517876_37= co->res;
+Obj _3517873_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
 R[2] = acc;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), acc);
 return;
 }
 }
@@ -4553,7 +4576,7 @@ case 0:
 Obj sym = R[1];
 Obj globals = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), sym, globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), MAKE_NUMBER(0), sym, globals);
 return;
 }
 }
@@ -4570,29 +4593,29 @@ R[1] = idx;
 R[2] = globals;
 R[3] = sym;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), globals);
 return;
 }
 case 1:
 {
-Obj _3517869_37= co->res;
+Obj _3517866_37= co->res;
 Obj idx = R[1];
 Obj globals = R[2];
 Obj sym = R[3];
-if (True == _3517869_37) {
+if (True == _3517866_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517870_37 = PRIM_CAR(globals);
-Obj _3517871_37 = PRIM_EQ(sym, _3517870_37);
-if (True == _3517871_37) {
+Obj _3517867_37 = PRIM_CAR(globals);
+Obj _3517868_37 = PRIM_EQ(sym, _3517867_37);
+if (True == _3517868_37) {
 coraReturn(co, idx);
 return;
 } else {
-Obj _3517872_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517873_37 = PRIM_CDR(globals);
+Obj _3517869_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3517870_37 = PRIM_CDR(globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517872_37, sym, _3517873_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517869_37, sym, _3517870_37);
 return;
 }
 }
@@ -4609,36 +4632,36 @@ Obj globals = R[2];
 R[1] = sym;
 R[2] = globals;
 saveCont(co, clofun78, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), globals);
 return;
 }
 case 1:
 {
-Obj _3517865_37= co->res;
+Obj _3517862_37= co->res;
 Obj sym = R[1];
 Obj val = R[2];
 Obj globals = R[3];
-if (True == _3517865_37) {
+if (True == _3517862_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517866_37 = makeCons(co->gc, sym, val);
-Obj _3517867_37 = primSet(co, globals, _3517866_37);
-coraReturn(co, _3517867_37);
+Obj _3517863_37 = makeCons(co->gc, sym, val);
+Obj _3517864_37 = primSet(co, globals, _3517863_37);
+coraReturn(co, _3517864_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517864_37= co->res;
+Obj _3517861_37= co->res;
 Obj sym = R[1];
 Obj globals = R[2];
-Obj val = _3517864_37;
+Obj val = _3517861_37;
 R[1] = sym;
 R[2] = val;
 R[3] = globals;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), sym, val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), sym, val);
 return;
 }
 }
@@ -4650,8 +4673,8 @@ case 0:
 {
 Obj x = R[1];
 Obj k = R[2];
-Obj _3517857_37 = primGenSym(co);
-Obj tmp = _3517857_37;
+Obj _3517854_37 = primGenSym(co);
+Obj tmp = _3517854_37;
 R[1] = x;
 R[2] = tmp;
 saveCont(co, clofun77, 1, R);
@@ -4660,14 +4683,14 @@ return;
 }
 case 1:
 {
-Obj _3517858_37= co->res;
+Obj _3517855_37= co->res;
 Obj x = R[1];
 Obj tmp = R[2];
-Obj _3517859_37 = makeCons(co->gc, _3517858_37, Nil);
-Obj _3517860_37 = makeCons(co->gc, x, _3517859_37);
-Obj _3517861_37 = makeCons(co->gc, tmp, _3517860_37);
-Obj _3517862_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517861_37);
-coraReturn(co, _3517862_37);
+Obj _3517856_37 = makeCons(co->gc, _3517855_37, Nil);
+Obj _3517857_37 = makeCons(co->gc, x, _3517856_37);
+Obj _3517858_37 = makeCons(co->gc, tmp, _3517857_37);
+Obj _3517859_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517858_37);
+coraReturn(co, _3517859_37);
 return;
 }
 }
@@ -4682,47 +4705,47 @@ Obj val = R[2];
 R[1] = val;
 R[2] = v;
 saveCont(co, clofun76, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj _3517855_37= co->res;
+Obj _3517852_37= co->res;
 Obj v = R[1];
 Obj cur1 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), cur1);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1), cur1);
 return;
 }
 case 2:
 {
-Obj _3517850_37= co->res;
+Obj _3517847_37= co->res;
 Obj val = R[1];
 Obj idx = R[2];
 Obj v = R[3];
-Obj cur = _3517850_37;
-Obj _3517851_37 = makeCons(co->gc, val, Nil);
-Obj _3517852_37 = makeCons(co->gc, idx, _3517851_37);
-Obj _3517853_37 = makeCons(co->gc, _3517852_37, cur);
-Obj cur1 = _3517853_37;
-Obj _3517854_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj cur = _3517847_37;
+Obj _3517848_37 = makeCons(co->gc, val, Nil);
+Obj _3517849_37 = makeCons(co->gc, idx, _3517848_37);
+Obj _3517850_37 = makeCons(co->gc, _3517849_37, cur);
+Obj cur1 = _3517850_37;
+Obj _3517851_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
 R[1] = v;
 R[2] = cur1;
 saveCont(co, clofun76, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517854_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0), _3517851_37);
 return;
 }
 case 3:
 {
-Obj _3517849_37= co->res;
+Obj _3517846_37= co->res;
 Obj val = R[1];
 Obj v = R[2];
-Obj idx = _3517849_37;
+Obj idx = _3517846_37;
 R[1] = val;
 R[2] = idx;
 R[3] = v;
 saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4732,121 +4755,121 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516785_37 = R[1];
-Obj _3516786_37 = R[2];
-Obj _3516787_37 = makeNative(co->gc, 1, clofun74, 0, 2, _3516785_37, _3516786_37);
-Obj _3517800_37 = PRIM_ISCONS(_3516786_37);
-if (True == _3517800_37) {
-Obj _3517801_37 = PRIM_CAR(_3516786_37);
-Obj _3517802_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517801_37);
-if (True == _3517802_37) {
-Obj _3517803_37 = PRIM_CDR(_3516786_37);
+Obj _3516782_37 = R[1];
+Obj _3516783_37 = R[2];
+Obj _3516784_37 = makeNative(co->gc, 1, clofun74, 0, 2, _3516782_37, _3516783_37);
+Obj _3517797_37 = PRIM_ISCONS(_3516783_37);
+if (True == _3517797_37) {
+Obj _3517798_37 = PRIM_CAR(_3516783_37);
+Obj _3517799_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517798_37);
+if (True == _3517799_37) {
+Obj _3517800_37 = PRIM_CDR(_3516783_37);
+Obj _3517801_37 = PRIM_ISCONS(_3517800_37);
+if (True == _3517801_37) {
+Obj _3517802_37 = PRIM_CDR(_3516783_37);
+Obj _3517803_37 = PRIM_CAR(_3517802_37);
 Obj _3517804_37 = PRIM_ISCONS(_3517803_37);
 if (True == _3517804_37) {
-Obj _3517805_37 = PRIM_CDR(_3516786_37);
+Obj _3517805_37 = PRIM_CDR(_3516783_37);
 Obj _3517806_37 = PRIM_CAR(_3517805_37);
-Obj _3517807_37 = PRIM_ISCONS(_3517806_37);
-if (True == _3517807_37) {
-Obj _3517808_37 = PRIM_CDR(_3516786_37);
-Obj _3517809_37 = PRIM_CAR(_3517808_37);
+Obj _3517807_37 = PRIM_CAR(_3517806_37);
+Obj _3517808_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517807_37);
+if (True == _3517808_37) {
+Obj _3517809_37 = PRIM_CDR(_3516783_37);
 Obj _3517810_37 = PRIM_CAR(_3517809_37);
-Obj _3517811_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517810_37);
-if (True == _3517811_37) {
-Obj _3517812_37 = PRIM_CDR(_3516786_37);
-Obj _3517813_37 = PRIM_CAR(_3517812_37);
-Obj _3517814_37 = PRIM_CDR(_3517813_37);
-Obj _3517815_37 = PRIM_ISCONS(_3517814_37);
-if (True == _3517815_37) {
-Obj _3517816_37 = PRIM_CDR(_3516786_37);
-Obj _3517817_37 = PRIM_CAR(_3517816_37);
-Obj _3517818_37 = PRIM_CDR(_3517817_37);
-Obj _3517819_37 = PRIM_CAR(_3517818_37);
-Obj params = _3517819_37;
-Obj _3517820_37 = PRIM_CDR(_3516786_37);
-Obj _3517821_37 = PRIM_CAR(_3517820_37);
-Obj _3517822_37 = PRIM_CDR(_3517821_37);
-Obj _3517823_37 = PRIM_CDR(_3517822_37);
-Obj _3517824_37 = PRIM_ISCONS(_3517823_37);
-if (True == _3517824_37) {
-Obj _3517825_37 = PRIM_CDR(_3516786_37);
+Obj _3517811_37 = PRIM_CDR(_3517810_37);
+Obj _3517812_37 = PRIM_ISCONS(_3517811_37);
+if (True == _3517812_37) {
+Obj _3517813_37 = PRIM_CDR(_3516783_37);
+Obj _3517814_37 = PRIM_CAR(_3517813_37);
+Obj _3517815_37 = PRIM_CDR(_3517814_37);
+Obj _3517816_37 = PRIM_CAR(_3517815_37);
+Obj params = _3517816_37;
+Obj _3517817_37 = PRIM_CDR(_3516783_37);
+Obj _3517818_37 = PRIM_CAR(_3517817_37);
+Obj _3517819_37 = PRIM_CDR(_3517818_37);
+Obj _3517820_37 = PRIM_CDR(_3517819_37);
+Obj _3517821_37 = PRIM_ISCONS(_3517820_37);
+if (True == _3517821_37) {
+Obj _3517822_37 = PRIM_CDR(_3516783_37);
+Obj _3517823_37 = PRIM_CAR(_3517822_37);
+Obj _3517824_37 = PRIM_CDR(_3517823_37);
+Obj _3517825_37 = PRIM_CDR(_3517824_37);
 Obj _3517826_37 = PRIM_CAR(_3517825_37);
-Obj _3517827_37 = PRIM_CDR(_3517826_37);
-Obj _3517828_37 = PRIM_CDR(_3517827_37);
-Obj _3517829_37 = PRIM_CAR(_3517828_37);
-Obj body = _3517829_37;
-Obj _3517830_37 = PRIM_CDR(_3516786_37);
-Obj _3517831_37 = PRIM_CAR(_3517830_37);
-Obj _3517832_37 = PRIM_CDR(_3517831_37);
-Obj _3517833_37 = PRIM_CDR(_3517832_37);
+Obj body = _3517826_37;
+Obj _3517827_37 = PRIM_CDR(_3516783_37);
+Obj _3517828_37 = PRIM_CAR(_3517827_37);
+Obj _3517829_37 = PRIM_CDR(_3517828_37);
+Obj _3517830_37 = PRIM_CDR(_3517829_37);
+Obj _3517831_37 = PRIM_CDR(_3517830_37);
+Obj _3517832_37 = PRIM_EQ(Nil, _3517831_37);
+if (True == _3517832_37) {
+Obj _3517833_37 = PRIM_CDR(_3516783_37);
 Obj _3517834_37 = PRIM_CDR(_3517833_37);
-Obj _3517835_37 = PRIM_EQ(Nil, _3517834_37);
-if (True == _3517835_37) {
-Obj _3517836_37 = PRIM_CDR(_3516786_37);
-Obj _3517837_37 = PRIM_CDR(_3517836_37);
-Obj fvs = _3517837_37;
-R[1] = _3516785_37;
+Obj fvs = _3517834_37;
+R[1] = _3516782_37;
 R[2] = params;
 R[3] = fvs;
 saveCont(co, clofun75, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516785_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), _3516782_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3516784_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517843_37= co->res;
+Obj _3517840_37= co->res;
 Obj nframe = R[1];
 Obj fvs = R[2];
 Obj cur = R[3];
-Obj _3517844_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517845_37 = makeCons(co->gc, _3517843_37, _3517844_37);
-Obj _3517846_37 = makeCons(co->gc, cur, _3517845_37);
-Obj _3517847_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517846_37);
-coraReturn(co, _3517847_37);
+Obj _3517841_37 = makeCons(co->gc, nframe, fvs);
+Obj _3517842_37 = makeCons(co->gc, _3517840_37, _3517841_37);
+Obj _3517843_37 = makeCons(co->gc, cur, _3517842_37);
+Obj _3517844_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3517843_37);
+coraReturn(co, _3517844_37);
 return;
 }
 case 2:
 {
-Obj _3517842_37= co->res;
+Obj _3517839_37= co->res;
 Obj params = R[1];
 Obj nframe = R[2];
 Obj fvs = R[3];
@@ -4855,72 +4878,72 @@ R[1] = nframe;
 R[2] = fvs;
 R[3] = cur;
 saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), params);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), params);
 return;
 }
 case 3:
 {
-Obj _3517841_37= co->res;
-Obj _3516785_37 = R[1];
+Obj _3517838_37= co->res;
+Obj _3516782_37 = R[1];
 Obj body2 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
 Obj cur = R[5];
-Obj nframe = _3517841_37;
+Obj nframe = _3517838_37;
 R[1] = params;
 R[2] = nframe;
 R[3] = fvs;
 R[4] = cur;
 saveCont(co, clofun75, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516785_37, body2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516782_37, body2);
 return;
 }
 case 4:
 {
-Obj _3517840_37= co->res;
-Obj _3516785_37 = R[1];
+Obj _3517837_37= co->res;
+Obj _3516782_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
 Obj cur = R[4];
-Obj body2 = _3517840_37;
-R[1] = _3516785_37;
+Obj body2 = _3517837_37;
+R[1] = _3516782_37;
 R[2] = body2;
 R[3] = params;
 R[4] = fvs;
 R[5] = cur;
 saveCont(co, clofun75, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), body2);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), body2);
 return;
 }
 case 5:
 {
-Obj _3517839_37= co->res;
+Obj _3517836_37= co->res;
 Obj body1 = R[1];
-Obj _3516785_37 = R[2];
+Obj _3516782_37 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
-Obj cur = _3517839_37;
-R[1] = _3516785_37;
+Obj cur = _3517836_37;
+R[1] = _3516782_37;
 R[2] = params;
 R[3] = fvs;
 R[4] = cur;
 saveCont(co, clofun75, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), params, body1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), params, body1);
 return;
 }
 case 6:
 {
-Obj _3517838_37= co->res;
-Obj _3516785_37 = R[1];
+Obj _3517835_37= co->res;
+Obj _3516782_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
-Obj body1 = _3517838_37;
+Obj body1 = _3517835_37;
 R[1] = body1;
-R[2] = _3516785_37;
+R[2] = _3516782_37;
 R[3] = params;
 R[4] = fvs;
 saveCont(co, clofun75, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516785_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), _3516782_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4930,10 +4953,10 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517798_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517798_37) {
+Obj _3517795_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517795_37) {
 saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 0));
 return;
 } else {
 coraReturn(co, closureRef(R[0], 1));
@@ -4942,9 +4965,9 @@ return;
 }
 case 1:
 {
-Obj _3517799_37= co->res;
+Obj _3517796_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517799_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517796_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4957,35 +4980,35 @@ case 0:
 Obj lam = R[1];
 R[1] = lam;
 saveCont(co, clofun73, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
 return;
 }
 case 1:
 {
-Obj _3517796_37= co->res;
-Obj _3517795_37 = R[1];
+Obj _3517793_37= co->res;
+Obj _3517792_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun72, 2, 0), _3517795_37, _3517796_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun72, 2, 0), _3517792_37, _3517793_37);
 return;
 }
 case 2:
 {
-Obj _3517790_37= co->res;
+Obj _3517787_37= co->res;
 Obj lam = R[1];
-Obj nargs = _3517790_37;
-Obj _3517795_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517795_37;
+Obj nargs = _3517787_37;
+Obj _3517792_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
+R[1] = _3517792_37;
 saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), lam);
 return;
 }
 case 3:
 {
-Obj _3517789_37= co->res;
+Obj _3517786_37= co->res;
 Obj lam = R[1];
 R[1] = lam;
 saveCont(co, clofun73, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517789_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3517786_37);
 return;
 }
 }
@@ -4999,17 +5022,17 @@ Obj acc = R[1];
 Obj x = R[2];
 R[1] = acc;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), x);
 return;
 }
 case 1:
 {
-Obj _3517792_37= co->res;
+Obj _3517789_37= co->res;
 Obj acc = R[1];
-Obj _3517793_37 = PRIM_ADD(_3517792_37, MAKE_NUMBER(1));
-Obj len = _3517793_37;
-Obj _3517794_37 = PRIM_GT(len, acc);
-if (True == _3517794_37) {
+Obj _3517790_37 = PRIM_ADD(_3517789_37, MAKE_NUMBER(1));
+Obj len = _3517790_37;
+Obj _3517791_37 = PRIM_GT(len, acc);
+if (True == _3517791_37) {
 coraReturn(co, len);
 return;
 } else {
@@ -5019,11 +5042,11 @@ return;
 }
 case 2:
 {
-Obj _3517791_37= co->res;
+Obj _3517788_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517791_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3517788_37);
 return;
 }
 }
@@ -5036,7 +5059,7 @@ case 0:
 Obj params = R[1];
 Obj body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, params));
 return;
 }
 }
@@ -5050,17 +5073,17 @@ Obj body1 = R[1];
 Obj conts = R[2];
 R[1] = body1;
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), conts);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), conts);
 return;
 }
 case 1:
 {
-Obj _3517784_37= co->res;
+Obj _3517781_37= co->res;
 Obj body1 = R[1];
-Obj _3517785_37 = makeCons(co->gc, body1, _3517784_37);
-Obj _3517786_37 = makeCons(co->gc, closureRef(R[0], 0), _3517785_37);
-Obj _3517787_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517786_37);
-coraReturn(co, _3517787_37);
+Obj _3517782_37 = makeCons(co->gc, body1, _3517781_37);
+Obj _3517783_37 = makeCons(co->gc, closureRef(R[0], 0), _3517782_37);
+Obj _3517784_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517783_37);
+coraReturn(co, _3517784_37);
 return;
 }
 }
@@ -5070,28 +5093,28 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516779_37 = R[1];
-Obj _3516780_37 = R[2];
-Obj _3516781_37 = R[3];
-Obj _3516782_37 = R[4];
-Obj _3517778_37 = PRIM_EQ(Nil, _3516779_37);
-if (True == _3517778_37) {
+Obj _3516776_37 = R[1];
+Obj _3516777_37 = R[2];
+Obj _3516778_37 = R[3];
+Obj _3516779_37 = R[4];
+Obj _3517775_37 = PRIM_EQ(Nil, _3516776_37);
+if (True == _3517775_37) {
 co->ctx.sp = R;
-coraCall2(co, _3516782_37, _3516781_37, _3516780_37);
+coraCall2(co, _3516779_37, _3516778_37, _3516777_37);
 return;
 } else {
-Obj _3517779_37 = PRIM_ISCONS(_3516779_37);
-if (True == _3517779_37) {
-Obj _3517780_37 = PRIM_CAR(_3516779_37);
-Obj f = _3517780_37;
-Obj _3517781_37 = PRIM_CDR(_3516779_37);
-Obj args = _3517781_37;
+Obj _3517776_37 = PRIM_ISCONS(_3516776_37);
+if (True == _3517776_37) {
+Obj _3517777_37 = PRIM_CAR(_3516776_37);
+Obj f = _3517777_37;
+Obj _3517778_37 = PRIM_CDR(_3516776_37);
+Obj args = _3517778_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516780_37, makeNative(co->gc, 3, clofun68, 2, 3, args, _3516781_37, _3516782_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), f, _3516777_37, makeNative(co->gc, 3, clofun68, 2, 3, args, _3516778_37, _3516779_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5106,7 +5129,7 @@ case 0:
 Obj f1 = R[1];
 Obj conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), f1));
 return;
 }
 }
@@ -5118,9 +5141,9 @@ case 0:
 {
 Obj args1 = R[1];
 Obj conts2 = R[2];
-Obj _3517782_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj _3517779_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517782_37, conts2);
+coraCall2(co, closureRef(R[0], 0), _3517779_37, conts2);
 return;
 }
 }
@@ -5130,33 +5153,33 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516773_37 = R[1];
-Obj _3516774_37 = R[2];
-Obj _3516775_37 = R[3];
-Obj _3516849_37 = makeNative(co->gc, 2, clofun65, 1, 3, _3516773_37, _3516774_37, _3516775_37);
-Obj _3517775_37 = primIsSymbol(_3516773_37);
-if (True == _3517775_37) {
+Obj _3516770_37 = R[1];
+Obj _3516771_37 = R[2];
+Obj _3516772_37 = R[3];
+Obj _3516846_37 = makeNative(co->gc, 2, clofun65, 1, 3, _3516770_37, _3516771_37, _3516772_37);
+Obj _3517772_37 = primIsSymbol(_3516770_37);
+if (True == _3517772_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516849_37, True);
+coraCall1(co, _3516846_37, True);
 return;
 } else {
-R[1] = _3516849_37;
+R[1] = _3516846_37;
 saveCont(co, clofun66, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516773_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516770_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517776_37= co->res;
-Obj _3516849_37 = R[1];
-if (True == _3517776_37) {
+Obj _3517773_37= co->res;
+Obj _3516846_37 = R[1];
+if (True == _3517773_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516849_37, True);
+coraCall1(co, _3516846_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516849_37, False);
+coraCall1(co, _3516846_37, False);
 return;
 }
 }
@@ -5167,63 +5190,63 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516850_37 = R[1];
-if (True == _3516850_37) {
+Obj _3516847_37 = R[1];
+if (True == _3516847_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516777_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517751_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517751_37) {
-Obj _3517752_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517753_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517752_37);
-if (True == _3517753_37) {
-Obj _3517754_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517755_37 = PRIM_ISCONS(_3517754_37);
-if (True == _3517755_37) {
-Obj _3517756_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517757_37 = PRIM_CAR(_3517756_37);
-Obj exp = _3517757_37;
+Obj _3516774_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517748_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517748_37) {
+Obj _3517749_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517750_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517749_37);
+if (True == _3517750_37) {
+Obj _3517751_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517752_37 = PRIM_ISCONS(_3517751_37);
+if (True == _3517752_37) {
+Obj _3517753_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517754_37 = PRIM_CAR(_3517753_37);
+Obj exp = _3517754_37;
+Obj _3517755_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517756_37 = PRIM_CDR(_3517755_37);
+Obj _3517757_37 = PRIM_ISCONS(_3517756_37);
+if (True == _3517757_37) {
 Obj _3517758_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517759_37 = PRIM_CDR(_3517758_37);
-Obj _3517760_37 = PRIM_ISCONS(_3517759_37);
-if (True == _3517760_37) {
+Obj _3517760_37 = PRIM_CAR(_3517759_37);
+Obj cont = _3517760_37;
 Obj _3517761_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517762_37 = PRIM_CDR(_3517761_37);
-Obj _3517763_37 = PRIM_CAR(_3517762_37);
-Obj cont = _3517763_37;
-Obj _3517764_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517765_37 = PRIM_CDR(_3517764_37);
-Obj _3517766_37 = PRIM_CDR(_3517765_37);
-Obj _3517767_37 = PRIM_EQ(Nil, _3517766_37);
-if (True == _3517767_37) {
+Obj _3517763_37 = PRIM_CDR(_3517762_37);
+Obj _3517764_37 = PRIM_EQ(Nil, _3517763_37);
+if (True == _3517764_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516774_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516774_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516774_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516774_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516777_37);
+coraCall0(co, _3516774_37);
 return;
 }
 }
@@ -5240,35 +5263,35 @@ Obj conts1 = R[2];
 R[1] = cont1;
 R[2] = conts1;
 saveCont(co, clofun64, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), cont1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), cont1);
 return;
 }
 case 1:
 {
-Obj _3517769_37= co->res;
+Obj _3517766_37= co->res;
 Obj fvs = R[1];
 Obj cont1 = R[2];
 Obj conts1 = R[3];
-Obj _3517770_37 = PRIM_ADD(_3517769_37, MAKE_NUMBER(1));
-Obj _3517771_37 = makeCons(co->gc, _3517770_37, fvs);
-Obj _3517772_37 = makeCons(co->gc, closureRef(R[0], 1), _3517771_37);
-Obj _3517773_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517772_37);
-Obj _3517774_37 = makeCons(co->gc, cont1, conts1);
+Obj _3517767_37 = PRIM_ADD(_3517766_37, MAKE_NUMBER(1));
+Obj _3517768_37 = makeCons(co->gc, _3517767_37, fvs);
+Obj _3517769_37 = makeCons(co->gc, closureRef(R[0], 1), _3517768_37);
+Obj _3517770_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517769_37);
+Obj _3517771_37 = makeCons(co->gc, cont1, conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517773_37, _3517774_37);
+coraCall2(co, closureRef(R[0], 0), _3517770_37, _3517771_37);
 return;
 }
 case 2:
 {
-Obj _3517768_37= co->res;
+Obj _3517765_37= co->res;
 Obj cont1 = R[1];
 Obj conts1 = R[2];
-Obj fvs = _3517768_37;
+Obj fvs = _3517765_37;
 R[1] = fvs;
 R[2] = cont1;
 R[3] = conts1;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), conts1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), conts1);
 return;
 }
 }
@@ -5278,19 +5301,19 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517747_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517747_37) {
-Obj _3517748_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517748_37;
-Obj _3517749_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517749_37;
-Obj _3517750_37 = makeCons(co->gc, f, args);
+Obj _3517744_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517744_37) {
+Obj _3517745_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517745_37;
+Obj _3517746_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517746_37;
+Obj _3517747_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517750_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), _3517747_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5301,90 +5324,90 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516765_37 = R[1];
-Obj _3516766_37 = R[2];
-R[1] = _3516766_37;
-R[2] = _3516765_37;
+Obj _3516762_37 = R[1];
+Obj _3516763_37 = R[2];
+R[1] = _3516763_37;
+R[2] = _3516762_37;
 saveCont(co, clofun62, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516766_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516763_37);
 return;
 }
 case 1:
 {
-Obj _3517742_37= co->res;
+Obj _3517739_37= co->res;
 Obj args = R[1];
-Obj _3517743_37 = makeCons(co->gc, _3517742_37, Nil);
-Obj _3517744_37 = makeCons(co->gc, args, _3517743_37);
-Obj _3517745_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517744_37);
-coraReturn(co, _3517745_37);
+Obj _3517740_37 = makeCons(co->gc, _3517739_37, Nil);
+Obj _3517741_37 = makeCons(co->gc, args, _3517740_37);
+Obj _3517742_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517741_37);
+coraReturn(co, _3517742_37);
 return;
 }
 case 2:
 {
-Obj _3517670_37= co->res;
-Obj _3516766_37 = R[1];
-Obj _3516765_37 = R[2];
-if (True == _3517670_37) {
-coraReturn(co, _3516766_37);
-return;
-} else {
-Obj _3517671_37 = primIsSymbol(_3516766_37);
-if (True == _3517671_37) {
-coraReturn(co, _3516766_37);
-return;
-} else {
-Obj _3516769_37 = makeNative(co->gc, 4, clofun61, 0, 2, _3516766_37, _3516765_37);
-Obj _3517725_37 = PRIM_ISCONS(_3516766_37);
-if (True == _3517725_37) {
-Obj _3517726_37 = PRIM_CAR(_3516766_37);
-Obj _3517727_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517726_37);
-if (True == _3517727_37) {
-Obj _3517728_37 = PRIM_CDR(_3516766_37);
-Obj _3517729_37 = PRIM_ISCONS(_3517728_37);
-if (True == _3517729_37) {
-Obj _3517730_37 = PRIM_CDR(_3516766_37);
-Obj _3517731_37 = PRIM_CAR(_3517730_37);
-Obj args = _3517731_37;
-Obj _3517732_37 = PRIM_CDR(_3516766_37);
+Obj _3517667_37= co->res;
+Obj _3516763_37 = R[1];
+Obj _3516762_37 = R[2];
+if (True == _3517667_37) {
+coraReturn(co, _3516763_37);
+return;
+} else {
+Obj _3517668_37 = primIsSymbol(_3516763_37);
+if (True == _3517668_37) {
+coraReturn(co, _3516763_37);
+return;
+} else {
+Obj _3516766_37 = makeNative(co->gc, 4, clofun61, 0, 2, _3516763_37, _3516762_37);
+Obj _3517722_37 = PRIM_ISCONS(_3516763_37);
+if (True == _3517722_37) {
+Obj _3517723_37 = PRIM_CAR(_3516763_37);
+Obj _3517724_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517723_37);
+if (True == _3517724_37) {
+Obj _3517725_37 = PRIM_CDR(_3516763_37);
+Obj _3517726_37 = PRIM_ISCONS(_3517725_37);
+if (True == _3517726_37) {
+Obj _3517727_37 = PRIM_CDR(_3516763_37);
+Obj _3517728_37 = PRIM_CAR(_3517727_37);
+Obj args = _3517728_37;
+Obj _3517729_37 = PRIM_CDR(_3516763_37);
+Obj _3517730_37 = PRIM_CDR(_3517729_37);
+Obj _3517731_37 = PRIM_ISCONS(_3517730_37);
+if (True == _3517731_37) {
+Obj _3517732_37 = PRIM_CDR(_3516763_37);
 Obj _3517733_37 = PRIM_CDR(_3517732_37);
-Obj _3517734_37 = PRIM_ISCONS(_3517733_37);
-if (True == _3517734_37) {
-Obj _3517735_37 = PRIM_CDR(_3516766_37);
+Obj _3517734_37 = PRIM_CAR(_3517733_37);
+Obj body = _3517734_37;
+Obj _3517735_37 = PRIM_CDR(_3516763_37);
 Obj _3517736_37 = PRIM_CDR(_3517735_37);
-Obj _3517737_37 = PRIM_CAR(_3517736_37);
-Obj body = _3517737_37;
-Obj _3517738_37 = PRIM_CDR(_3516766_37);
-Obj _3517739_37 = PRIM_CDR(_3517738_37);
-Obj _3517740_37 = PRIM_CDR(_3517739_37);
-Obj _3517741_37 = PRIM_EQ(Nil, _3517740_37);
-if (True == _3517741_37) {
+Obj _3517737_37 = PRIM_CDR(_3517736_37);
+Obj _3517738_37 = PRIM_EQ(Nil, _3517737_37);
+if (True == _3517738_37) {
 R[1] = args;
 saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516765_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), _3516762_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516769_37);
+coraCall0(co, _3516766_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516769_37);
+coraCall0(co, _3516766_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516769_37);
+coraCall0(co, _3516766_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516769_37);
+coraCall0(co, _3516766_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516769_37);
+coraCall0(co, _3516766_37);
 return;
 }
 }
@@ -5397,89 +5420,89 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516770_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517700_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517700_37) {
-Obj _3517701_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517702_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517701_37);
-if (True == _3517702_37) {
-Obj _3517703_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517704_37 = PRIM_ISCONS(_3517703_37);
-if (True == _3517704_37) {
-Obj _3517705_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517706_37 = PRIM_CAR(_3517705_37);
-Obj val = _3517706_37;
+Obj _3516767_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517697_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517697_37) {
+Obj _3517698_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517699_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517698_37);
+if (True == _3517699_37) {
+Obj _3517700_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517701_37 = PRIM_ISCONS(_3517700_37);
+if (True == _3517701_37) {
+Obj _3517702_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517703_37 = PRIM_CAR(_3517702_37);
+Obj val = _3517703_37;
+Obj _3517704_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517705_37 = PRIM_CDR(_3517704_37);
+Obj _3517706_37 = PRIM_ISCONS(_3517705_37);
+if (True == _3517706_37) {
 Obj _3517707_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517708_37 = PRIM_CDR(_3517707_37);
-Obj _3517709_37 = PRIM_ISCONS(_3517708_37);
-if (True == _3517709_37) {
+Obj _3517709_37 = PRIM_CAR(_3517708_37);
+Obj body = _3517709_37;
 Obj _3517710_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517711_37 = PRIM_CDR(_3517710_37);
-Obj _3517712_37 = PRIM_CAR(_3517711_37);
-Obj body = _3517712_37;
-Obj _3517713_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517714_37 = PRIM_CDR(_3517713_37);
-Obj _3517715_37 = PRIM_CDR(_3517714_37);
-Obj _3517716_37 = PRIM_EQ(Nil, _3517715_37);
-if (True == _3517716_37) {
+Obj _3517712_37 = PRIM_CDR(_3517711_37);
+Obj _3517713_37 = PRIM_EQ(Nil, _3517712_37);
+if (True == _3517713_37) {
 R[1] = body;
 R[2] = val;
 saveCont(co, clofun61, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3516767_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3516767_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3516767_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3516767_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3516767_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517721_37= co->res;
+Obj _3517718_37= co->res;
 Obj fvs2 = R[1];
 Obj val = R[2];
-Obj _3517722_37 = makeCons(co->gc, _3517721_37, fvs2);
-Obj _3517723_37 = makeCons(co->gc, val, _3517722_37);
-Obj _3517724_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517723_37);
-coraReturn(co, _3517724_37);
+Obj _3517719_37 = makeCons(co->gc, _3517718_37, fvs2);
+Obj _3517720_37 = makeCons(co->gc, val, _3517719_37);
+Obj _3517721_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3517720_37);
+coraReturn(co, _3517721_37);
 return;
 }
 case 2:
 {
-Obj _3517720_37= co->res;
+Obj _3517717_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
-Obj fvs2 = _3517720_37;
+Obj fvs2 = _3517717_37;
 R[1] = fvs2;
 R[2] = val;
 saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), fvs1, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), fvs1, body);
 return;
 }
 case 3:
 {
-Obj _3517719_37= co->res;
+Obj _3517716_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
@@ -5487,31 +5510,31 @@ R[1] = fvs1;
 R[2] = body;
 R[3] = val;
 saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517719_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517716_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517718_37= co->res;
+Obj _3517715_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
-Obj fvs1 = _3517718_37;
+Obj fvs1 = _3517715_37;
 R[1] = fvs1;
 R[2] = body;
 R[3] = val;
 saveCont(co, clofun61, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj _3517717_37= co->res;
+Obj _3517714_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
 R[1] = body;
 R[2] = val;
 saveCont(co, clofun61, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517717_37, val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517714_37, val);
 return;
 }
 }
@@ -5521,89 +5544,89 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516771_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517677_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517677_37) {
-Obj _3517678_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517679_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517678_37);
-if (True == _3517679_37) {
-Obj _3517680_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517681_37 = PRIM_ISCONS(_3517680_37);
-if (True == _3517681_37) {
-Obj _3517682_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517683_37 = PRIM_CAR(_3517682_37);
-Obj exp = _3517683_37;
+Obj _3516768_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517674_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517674_37) {
+Obj _3517675_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517676_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517675_37);
+if (True == _3517676_37) {
+Obj _3517677_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517678_37 = PRIM_ISCONS(_3517677_37);
+if (True == _3517678_37) {
+Obj _3517679_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517680_37 = PRIM_CAR(_3517679_37);
+Obj exp = _3517680_37;
+Obj _3517681_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517682_37 = PRIM_CDR(_3517681_37);
+Obj _3517683_37 = PRIM_ISCONS(_3517682_37);
+if (True == _3517683_37) {
 Obj _3517684_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517685_37 = PRIM_CDR(_3517684_37);
-Obj _3517686_37 = PRIM_ISCONS(_3517685_37);
-if (True == _3517686_37) {
+Obj _3517686_37 = PRIM_CAR(_3517685_37);
+Obj cont = _3517686_37;
 Obj _3517687_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517688_37 = PRIM_CDR(_3517687_37);
-Obj _3517689_37 = PRIM_CAR(_3517688_37);
-Obj cont = _3517689_37;
-Obj _3517690_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517691_37 = PRIM_CDR(_3517690_37);
-Obj _3517692_37 = PRIM_CDR(_3517691_37);
-Obj _3517693_37 = PRIM_EQ(Nil, _3517692_37);
-if (True == _3517693_37) {
+Obj _3517689_37 = PRIM_CDR(_3517688_37);
+Obj _3517690_37 = PRIM_EQ(Nil, _3517689_37);
+if (True == _3517690_37) {
 R[1] = exp;
 R[2] = cont;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3516768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3516768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3516768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3516768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3516768_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517696_37= co->res;
-Obj _3517695_37 = R[1];
-Obj _3517697_37 = makeCons(co->gc, _3517696_37, Nil);
-Obj _3517698_37 = makeCons(co->gc, _3517695_37, _3517697_37);
-Obj _3517699_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517698_37);
-coraReturn(co, _3517699_37);
+Obj _3517693_37= co->res;
+Obj _3517692_37 = R[1];
+Obj _3517694_37 = makeCons(co->gc, _3517693_37, Nil);
+Obj _3517695_37 = makeCons(co->gc, _3517692_37, _3517694_37);
+Obj _3517696_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517695_37);
+coraReturn(co, _3517696_37);
 return;
 }
 case 2:
 {
-Obj _3517695_37= co->res;
+Obj _3517692_37= co->res;
 Obj cont = R[1];
-R[1] = _3517695_37;
+R[1] = _3517692_37;
 saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), cont);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), cont);
 return;
 }
 case 3:
 {
-Obj _3517694_37= co->res;
+Obj _3517691_37= co->res;
 Obj exp = R[1];
 Obj cont = R[2];
 R[1] = cont;
 saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517694_37, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517691_37, exp);
 return;
 }
 }
@@ -5613,31 +5636,31 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517672_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517672_37) {
-Obj _3517673_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517673_37;
-Obj _3517674_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517674_37;
+Obj _3517669_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517669_37) {
+Obj _3517670_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517670_37;
+Obj _3517671_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517671_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj _3517675_37= co->res;
+Obj _3517672_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517676_37 = makeCons(co->gc, f, args);
+Obj _3517673_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517675_37, _3517676_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517672_37, _3517673_37);
 return;
 }
 }
@@ -5647,74 +5670,74 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516760_37 = R[1];
-Obj _3516761_37 = R[2];
-Obj _3516762_37 = R[3];
-Obj _3517647_37 = PRIM_EQ(Nil, _3516760_37);
-if (True == _3517647_37) {
-R[1] = _3516762_37;
+Obj _3516757_37 = R[1];
+Obj _3516758_37 = R[2];
+Obj _3516759_37 = R[3];
+Obj _3517644_37 = PRIM_EQ(Nil, _3516757_37);
+if (True == _3517644_37) {
+R[1] = _3516759_37;
 saveCont(co, clofun58, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516761_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), _3516758_37);
 return;
 } else {
-Obj _3517665_37 = PRIM_ISCONS(_3516760_37);
-if (True == _3517665_37) {
-Obj _3517666_37 = PRIM_CAR(_3516760_37);
-Obj hd = _3517666_37;
-Obj _3517667_37 = PRIM_CDR(_3516760_37);
-Obj tl = _3517667_37;
+Obj _3517662_37 = PRIM_ISCONS(_3516757_37);
+if (True == _3517662_37) {
+Obj _3517663_37 = PRIM_CAR(_3516757_37);
+Obj hd = _3517663_37;
+Obj _3517664_37 = PRIM_CDR(_3516757_37);
+Obj tl = _3517664_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun57, 1, 3, tl, _3516761_37, _3516762_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), hd, makeNative(co->gc, 2, clofun57, 1, 3, tl, _3516758_37, _3516759_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517663_37= co->res;
-Obj _3516847_37 = R[1];
-Obj _3517664_37 = PRIM_EQ(_3517663_37, getBinding(co, packageID, 90).name);
-if (True == _3517664_37) {
+Obj _3517660_37= co->res;
+Obj _3516844_37 = R[1];
+Obj _3517661_37 = PRIM_EQ(_3517660_37, getBinding(co, packageID, 92).name);
+if (True == _3517661_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516847_37, True);
+coraCall1(co, _3516844_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516847_37, False);
+coraCall1(co, _3516844_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517662_37= co->res;
+Obj _3517659_37= co->res;
 Obj exp = R[1];
-Obj _3516847_37 = R[2];
-if (True == _3517662_37) {
-R[1] = _3516847_37;
+Obj _3516844_37 = R[2];
+if (True == _3517659_37) {
+R[1] = _3516844_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516847_37, False);
+coraCall1(co, _3516844_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517648_37= co->res;
-Obj _3516762_37 = R[1];
-Obj exp = _3517648_37;
-Obj _3516847_37 = makeNative(co->gc, 2, clofun56, 1, 2, exp, _3516762_37);
-Obj _3517661_37 = PRIM_CAR(exp);
+Obj _3517645_37= co->res;
+Obj _3516759_37 = R[1];
+Obj exp = _3517645_37;
+Obj _3516844_37 = makeNative(co->gc, 2, clofun56, 1, 2, exp, _3516759_37);
+Obj _3517658_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3516847_37;
+R[2] = _3516844_37;
 saveCont(co, clofun58, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517661_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517658_37);
 return;
 }
 }
@@ -5725,9 +5748,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj hd1 = R[1];
-Obj _3517668_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj _3517665_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517668_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), _3517665_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5737,23 +5760,23 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516848_37 = R[1];
-if (True == _3516848_37) {
+Obj _3516845_37 = R[1];
+if (True == _3516845_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517649_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3517649_37) {
-Obj _3517650_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517651_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517650_37);
-coraReturn(co, _3517651_37);
+Obj _3517646_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
+if (True == _3517646_37) {
+Obj _3517647_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3517648_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, _3517647_37);
+coraReturn(co, _3517648_37);
 return;
 } else {
-Obj _3517652_37 = primGenSym(co);
-Obj val = _3517652_37;
-Obj _3517653_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517653_37;
+Obj _3517649_37 = primGenSym(co);
+Obj val = _3517649_37;
+Obj _3517650_37 = makeCons(co->gc, val, Nil);
+R[1] = _3517650_37;
 saveCont(co, clofun56, 1, R);
 coraCall1(co, closureRef(R[0], 1), val);
 return;
@@ -5762,15 +5785,15 @@ return;
 }
 case 1:
 {
-Obj _3517654_37= co->res;
-Obj _3517653_37 = R[1];
+Obj _3517651_37= co->res;
+Obj _3517650_37 = R[1];
+Obj _3517652_37 = makeCons(co->gc, _3517651_37, Nil);
+Obj _3517653_37 = makeCons(co->gc, _3517650_37, _3517652_37);
+Obj _3517654_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517653_37);
 Obj _3517655_37 = makeCons(co->gc, _3517654_37, Nil);
-Obj _3517656_37 = makeCons(co->gc, _3517653_37, _3517655_37);
+Obj _3517656_37 = makeCons(co->gc, closureRef(R[0], 0), _3517655_37);
 Obj _3517657_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517656_37);
-Obj _3517658_37 = makeCons(co->gc, _3517657_37, Nil);
-Obj _3517659_37 = makeCons(co->gc, closureRef(R[0], 0), _3517658_37);
-Obj _3517660_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517659_37);
-coraReturn(co, _3517660_37);
+coraReturn(co, _3517657_37);
 return;
 }
 }
@@ -5780,32 +5803,32 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516751_37 = R[1];
-Obj _3516752_37 = R[2];
-Obj _3516845_37 = makeNative(co->gc, 2, clofun54, 1, 2, _3516751_37, _3516752_37);
-Obj _3517644_37 = primIsSymbol(_3516751_37);
-if (True == _3517644_37) {
+Obj _3516748_37 = R[1];
+Obj _3516749_37 = R[2];
+Obj _3516842_37 = makeNative(co->gc, 2, clofun54, 1, 2, _3516748_37, _3516749_37);
+Obj _3517641_37 = primIsSymbol(_3516748_37);
+if (True == _3517641_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516845_37, True);
+coraCall1(co, _3516842_37, True);
 return;
 } else {
-R[1] = _3516845_37;
+R[1] = _3516842_37;
 saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516751_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516748_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517645_37= co->res;
-Obj _3516845_37 = R[1];
-if (True == _3517645_37) {
+Obj _3517642_37= co->res;
+Obj _3516842_37 = R[1];
+if (True == _3517642_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516845_37, True);
+coraCall1(co, _3516842_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516845_37, False);
+coraCall1(co, _3516842_37, False);
 return;
 }
 }
@@ -5816,91 +5839,91 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516846_37 = R[1];
-if (True == _3516846_37) {
+Obj _3516843_37 = R[1];
+if (True == _3516843_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
 saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), closureRef(R[0], 0));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj _3517510_37= co->res;
-if (True == _3517510_37) {
+Obj _3517507_37= co->res;
+if (True == _3517507_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516755_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517612_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517612_37) {
-Obj _3517613_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517614_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517613_37);
-if (True == _3517614_37) {
-Obj _3517615_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517616_37 = PRIM_ISCONS(_3517615_37);
-if (True == _3517616_37) {
-Obj _3517617_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517618_37 = PRIM_CAR(_3517617_37);
-Obj a = _3517618_37;
+Obj _3516752_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517609_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517609_37) {
+Obj _3517610_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517611_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517610_37);
+if (True == _3517611_37) {
+Obj _3517612_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517613_37 = PRIM_ISCONS(_3517612_37);
+if (True == _3517613_37) {
+Obj _3517614_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517615_37 = PRIM_CAR(_3517614_37);
+Obj a = _3517615_37;
+Obj _3517616_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517617_37 = PRIM_CDR(_3517616_37);
+Obj _3517618_37 = PRIM_ISCONS(_3517617_37);
+if (True == _3517618_37) {
 Obj _3517619_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517620_37 = PRIM_CDR(_3517619_37);
-Obj _3517621_37 = PRIM_ISCONS(_3517620_37);
-if (True == _3517621_37) {
+Obj _3517621_37 = PRIM_CAR(_3517620_37);
+Obj b = _3517621_37;
 Obj _3517622_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517623_37 = PRIM_CDR(_3517622_37);
-Obj _3517624_37 = PRIM_CAR(_3517623_37);
-Obj b = _3517624_37;
-Obj _3517625_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517626_37 = PRIM_CDR(_3517625_37);
+Obj _3517624_37 = PRIM_CDR(_3517623_37);
+Obj _3517625_37 = PRIM_ISCONS(_3517624_37);
+if (True == _3517625_37) {
+Obj _3517626_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517627_37 = PRIM_CDR(_3517626_37);
-Obj _3517628_37 = PRIM_ISCONS(_3517627_37);
-if (True == _3517628_37) {
-Obj _3517629_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517630_37 = PRIM_CDR(_3517629_37);
+Obj _3517628_37 = PRIM_CDR(_3517627_37);
+Obj _3517629_37 = PRIM_CAR(_3517628_37);
+Obj c = _3517629_37;
+Obj _3517630_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517631_37 = PRIM_CDR(_3517630_37);
-Obj _3517632_37 = PRIM_CAR(_3517631_37);
-Obj c = _3517632_37;
-Obj _3517633_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517634_37 = PRIM_CDR(_3517633_37);
-Obj _3517635_37 = PRIM_CDR(_3517634_37);
-Obj _3517636_37 = PRIM_CDR(_3517635_37);
-Obj _3517637_37 = PRIM_EQ(Nil, _3517636_37);
-if (True == _3517637_37) {
+Obj _3517632_37 = PRIM_CDR(_3517631_37);
+Obj _3517633_37 = PRIM_CDR(_3517632_37);
+Obj _3517634_37 = PRIM_EQ(Nil, _3517633_37);
+if (True == _3517634_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun53, 1, 3, b, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), a, makeNative(co->gc, 3, clofun53, 1, 3, b, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, _3516752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, _3516752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, _3516752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, _3516752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, _3516752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, _3516752_37);
 return;
 }
 }
@@ -5915,29 +5938,29 @@ case 0:
 Obj ra = R[1];
 R[1] = ra;
 saveCont(co, clofun53, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517639_37= co->res;
-Obj _3517638_37 = R[1];
+Obj _3517636_37= co->res;
+Obj _3517635_37 = R[1];
 Obj ra = R[2];
-Obj _3517640_37 = makeCons(co->gc, _3517639_37, Nil);
-Obj _3517641_37 = makeCons(co->gc, _3517638_37, _3517640_37);
-Obj _3517642_37 = makeCons(co->gc, ra, _3517641_37);
-Obj _3517643_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517642_37);
-coraReturn(co, _3517643_37);
+Obj _3517637_37 = makeCons(co->gc, _3517636_37, Nil);
+Obj _3517638_37 = makeCons(co->gc, _3517635_37, _3517637_37);
+Obj _3517639_37 = makeCons(co->gc, ra, _3517638_37);
+Obj _3517640_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517639_37);
+coraReturn(co, _3517640_37);
 return;
 }
 case 2:
 {
-Obj _3517638_37= co->res;
+Obj _3517635_37= co->res;
 Obj ra = R[1];
-R[1] = _3517638_37;
+R[1] = _3517635_37;
 R[2] = ra;
 saveCont(co, clofun53, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
@@ -5947,57 +5970,57 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516756_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517590_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517590_37) {
-Obj _3517591_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517592_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517591_37);
-if (True == _3517592_37) {
-Obj _3517593_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517594_37 = PRIM_ISCONS(_3517593_37);
-if (True == _3517594_37) {
-Obj _3517595_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517596_37 = PRIM_CAR(_3517595_37);
-Obj a = _3517596_37;
+Obj _3516753_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517587_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517587_37) {
+Obj _3517588_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517589_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517588_37);
+if (True == _3517589_37) {
+Obj _3517590_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517591_37 = PRIM_ISCONS(_3517590_37);
+if (True == _3517591_37) {
+Obj _3517592_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517593_37 = PRIM_CAR(_3517592_37);
+Obj a = _3517593_37;
+Obj _3517594_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517595_37 = PRIM_CDR(_3517594_37);
+Obj _3517596_37 = PRIM_ISCONS(_3517595_37);
+if (True == _3517596_37) {
 Obj _3517597_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517598_37 = PRIM_CDR(_3517597_37);
-Obj _3517599_37 = PRIM_ISCONS(_3517598_37);
-if (True == _3517599_37) {
+Obj _3517599_37 = PRIM_CAR(_3517598_37);
+Obj b = _3517599_37;
 Obj _3517600_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517601_37 = PRIM_CDR(_3517600_37);
-Obj _3517602_37 = PRIM_CAR(_3517601_37);
-Obj b = _3517602_37;
-Obj _3517603_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517604_37 = PRIM_CDR(_3517603_37);
-Obj _3517605_37 = PRIM_CDR(_3517604_37);
-Obj _3517606_37 = PRIM_EQ(Nil, _3517605_37);
-if (True == _3517606_37) {
+Obj _3517602_37 = PRIM_CDR(_3517601_37);
+Obj _3517603_37 = PRIM_EQ(Nil, _3517602_37);
+if (True == _3517603_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun51, 1, 2, b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), a, makeNative(co->gc, 2, clofun51, 1, 2, b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516756_37);
+coraCall0(co, _3516753_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516756_37);
+coraCall0(co, _3516753_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516756_37);
+coraCall0(co, _3516753_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516756_37);
+coraCall0(co, _3516753_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516756_37);
+coraCall0(co, _3516753_37);
 return;
 }
 }
@@ -6009,26 +6032,26 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj ra = R[1];
-Obj _3517607_37 = primIsSymbol(ra);
-if (True == _3517607_37) {
+Obj _3517604_37 = primIsSymbol(ra);
+if (True == _3517604_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = ra;
 saveCont(co, clofun51, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj _3517608_37= co->res;
+Obj _3517605_37= co->res;
 Obj ra = R[1];
-Obj _3517609_37 = makeCons(co->gc, _3517608_37, Nil);
-Obj _3517610_37 = makeCons(co->gc, ra, _3517609_37);
-Obj _3517611_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517610_37);
-coraReturn(co, _3517611_37);
+Obj _3517606_37 = makeCons(co->gc, _3517605_37, Nil);
+Obj _3517607_37 = makeCons(co->gc, ra, _3517606_37);
+Obj _3517608_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517607_37);
+coraReturn(co, _3517608_37);
 return;
 }
 }
@@ -6038,73 +6061,73 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516757_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517559_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517559_37) {
-Obj _3517560_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517561_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517560_37);
-if (True == _3517561_37) {
-Obj _3517562_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517563_37 = PRIM_ISCONS(_3517562_37);
-if (True == _3517563_37) {
-Obj _3517564_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517565_37 = PRIM_CAR(_3517564_37);
-Obj a = _3517565_37;
+Obj _3516754_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517556_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517556_37) {
+Obj _3517557_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517558_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517557_37);
+if (True == _3517558_37) {
+Obj _3517559_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517560_37 = PRIM_ISCONS(_3517559_37);
+if (True == _3517560_37) {
+Obj _3517561_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517562_37 = PRIM_CAR(_3517561_37);
+Obj a = _3517562_37;
+Obj _3517563_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517564_37 = PRIM_CDR(_3517563_37);
+Obj _3517565_37 = PRIM_ISCONS(_3517564_37);
+if (True == _3517565_37) {
 Obj _3517566_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517567_37 = PRIM_CDR(_3517566_37);
-Obj _3517568_37 = PRIM_ISCONS(_3517567_37);
-if (True == _3517568_37) {
+Obj _3517568_37 = PRIM_CAR(_3517567_37);
+Obj b = _3517568_37;
 Obj _3517569_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517570_37 = PRIM_CDR(_3517569_37);
-Obj _3517571_37 = PRIM_CAR(_3517570_37);
-Obj b = _3517571_37;
-Obj _3517572_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517573_37 = PRIM_CDR(_3517572_37);
+Obj _3517571_37 = PRIM_CDR(_3517570_37);
+Obj _3517572_37 = PRIM_ISCONS(_3517571_37);
+if (True == _3517572_37) {
+Obj _3517573_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517574_37 = PRIM_CDR(_3517573_37);
-Obj _3517575_37 = PRIM_ISCONS(_3517574_37);
-if (True == _3517575_37) {
-Obj _3517576_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517577_37 = PRIM_CDR(_3517576_37);
+Obj _3517575_37 = PRIM_CDR(_3517574_37);
+Obj _3517576_37 = PRIM_CAR(_3517575_37);
+Obj c = _3517576_37;
+Obj _3517577_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517578_37 = PRIM_CDR(_3517577_37);
-Obj _3517579_37 = PRIM_CAR(_3517578_37);
-Obj c = _3517579_37;
-Obj _3517580_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517581_37 = PRIM_CDR(_3517580_37);
-Obj _3517582_37 = PRIM_CDR(_3517581_37);
-Obj _3517583_37 = PRIM_CDR(_3517582_37);
-Obj _3517584_37 = PRIM_EQ(Nil, _3517583_37);
-if (True == _3517584_37) {
+Obj _3517579_37 = PRIM_CDR(_3517578_37);
+Obj _3517580_37 = PRIM_CDR(_3517579_37);
+Obj _3517581_37 = PRIM_EQ(Nil, _3517580_37);
+if (True == _3517581_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun49, 1, 3, a, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), b, makeNative(co->gc, 2, clofun49, 1, 3, a, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516754_37);
 return;
 }
 }
@@ -6118,18 +6141,18 @@ case 0:
 Obj rb = R[1];
 R[1] = rb;
 saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517585_37= co->res;
+Obj _3517582_37= co->res;
 Obj rb = R[1];
-Obj _3517586_37 = makeCons(co->gc, _3517585_37, Nil);
-Obj _3517587_37 = makeCons(co->gc, rb, _3517586_37);
-Obj _3517588_37 = makeCons(co->gc, closureRef(R[0], 0), _3517587_37);
-Obj _3517589_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517588_37);
-coraReturn(co, _3517589_37);
+Obj _3517583_37 = makeCons(co->gc, _3517582_37, Nil);
+Obj _3517584_37 = makeCons(co->gc, rb, _3517583_37);
+Obj _3517585_37 = makeCons(co->gc, closureRef(R[0], 0), _3517584_37);
+Obj _3517586_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517585_37);
+coraReturn(co, _3517586_37);
 return;
 }
 }
@@ -6139,114 +6162,114 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516758_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517515_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517515_37) {
-Obj _3517516_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517517_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517516_37);
-if (True == _3517517_37) {
-Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516755_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517512_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517512_37) {
+Obj _3517513_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517514_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517513_37);
+if (True == _3517514_37) {
+Obj _3517515_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517516_37 = PRIM_ISCONS(_3517515_37);
+if (True == _3517516_37) {
+Obj _3517517_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517518_37 = PRIM_CAR(_3517517_37);
 Obj _3517519_37 = PRIM_ISCONS(_3517518_37);
 if (True == _3517519_37) {
 Obj _3517520_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517521_37 = PRIM_CAR(_3517520_37);
-Obj _3517522_37 = PRIM_ISCONS(_3517521_37);
-if (True == _3517522_37) {
-Obj _3517523_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517524_37 = PRIM_CAR(_3517523_37);
+Obj _3517522_37 = PRIM_CAR(_3517521_37);
+Obj _3517523_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517522_37);
+if (True == _3517523_37) {
+Obj _3517524_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517525_37 = PRIM_CAR(_3517524_37);
-Obj _3517526_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517525_37);
-if (True == _3517526_37) {
-Obj _3517527_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517528_37 = PRIM_CAR(_3517527_37);
-Obj _3517529_37 = PRIM_CDR(_3517528_37);
-Obj _3517530_37 = PRIM_ISCONS(_3517529_37);
-if (True == _3517530_37) {
-Obj _3517531_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517532_37 = PRIM_CAR(_3517531_37);
-Obj _3517533_37 = PRIM_CDR(_3517532_37);
-Obj _3517534_37 = PRIM_CAR(_3517533_37);
-Obj args = _3517534_37;
-Obj _3517535_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517536_37 = PRIM_CAR(_3517535_37);
-Obj _3517537_37 = PRIM_CDR(_3517536_37);
-Obj _3517538_37 = PRIM_CDR(_3517537_37);
-Obj _3517539_37 = PRIM_ISCONS(_3517538_37);
-if (True == _3517539_37) {
-Obj _3517540_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517526_37 = PRIM_CDR(_3517525_37);
+Obj _3517527_37 = PRIM_ISCONS(_3517526_37);
+if (True == _3517527_37) {
+Obj _3517528_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517529_37 = PRIM_CAR(_3517528_37);
+Obj _3517530_37 = PRIM_CDR(_3517529_37);
+Obj _3517531_37 = PRIM_CAR(_3517530_37);
+Obj args = _3517531_37;
+Obj _3517532_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517533_37 = PRIM_CAR(_3517532_37);
+Obj _3517534_37 = PRIM_CDR(_3517533_37);
+Obj _3517535_37 = PRIM_CDR(_3517534_37);
+Obj _3517536_37 = PRIM_ISCONS(_3517535_37);
+if (True == _3517536_37) {
+Obj _3517537_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517538_37 = PRIM_CAR(_3517537_37);
+Obj _3517539_37 = PRIM_CDR(_3517538_37);
+Obj _3517540_37 = PRIM_CDR(_3517539_37);
 Obj _3517541_37 = PRIM_CAR(_3517540_37);
-Obj _3517542_37 = PRIM_CDR(_3517541_37);
-Obj _3517543_37 = PRIM_CDR(_3517542_37);
-Obj _3517544_37 = PRIM_CAR(_3517543_37);
-Obj body = _3517544_37;
-Obj _3517545_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517546_37 = PRIM_CAR(_3517545_37);
-Obj _3517547_37 = PRIM_CDR(_3517546_37);
-Obj _3517548_37 = PRIM_CDR(_3517547_37);
+Obj body = _3517541_37;
+Obj _3517542_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517543_37 = PRIM_CAR(_3517542_37);
+Obj _3517544_37 = PRIM_CDR(_3517543_37);
+Obj _3517545_37 = PRIM_CDR(_3517544_37);
+Obj _3517546_37 = PRIM_CDR(_3517545_37);
+Obj _3517547_37 = PRIM_EQ(Nil, _3517546_37);
+if (True == _3517547_37) {
+Obj _3517548_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517549_37 = PRIM_CDR(_3517548_37);
-Obj _3517550_37 = PRIM_EQ(Nil, _3517549_37);
-if (True == _3517550_37) {
-Obj _3517551_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517552_37 = PRIM_CDR(_3517551_37);
-Obj frees = _3517552_37;
+Obj frees = _3517549_37;
 R[1] = args;
 R[2] = frees;
 saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), body, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), body, globalRef(co, getBinding(co, packageID, 72)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516755_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517553_37= co->res;
+Obj _3517550_37= co->res;
 Obj args = R[1];
 Obj frees = R[2];
-Obj _3517554_37 = makeCons(co->gc, _3517553_37, Nil);
-Obj _3517555_37 = makeCons(co->gc, args, _3517554_37);
-Obj _3517556_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517555_37);
-Obj _3517557_37 = makeCons(co->gc, _3517556_37, frees);
-Obj _3517558_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517557_37);
+Obj _3517551_37 = makeCons(co->gc, _3517550_37, Nil);
+Obj _3517552_37 = makeCons(co->gc, args, _3517551_37);
+Obj _3517553_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517552_37);
+Obj _3517554_37 = makeCons(co->gc, _3517553_37, frees);
+Obj _3517555_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3517554_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517558_37);
+coraCall1(co, closureRef(R[0], 1), _3517555_37);
 return;
 }
 }
@@ -6256,19 +6279,19 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517511_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517511_37) {
-Obj _3517512_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517512_37;
-Obj _3517513_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517513_37;
-Obj _3517514_37 = makeCons(co->gc, f, args);
+Obj _3517508_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517508_37) {
+Obj _3517509_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517509_37;
+Obj _3517510_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517510_37;
+Obj _3517511_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517514_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), _3517511_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -6280,9 +6303,9 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517507_37 = makeCons(co->gc, x, Nil);
-Obj _3517508_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517507_37);
-coraReturn(co, _3517508_37);
+Obj _3517504_37 = makeCons(co->gc, x, Nil);
+Obj _3517505_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517504_37);
+coraReturn(co, _3517505_37);
 return;
 }
 }
@@ -6292,151 +6315,151 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516744_37 = R[1];
-Obj _3516745_37 = R[2];
-R[1] = _3516745_37;
-R[2] = _3516744_37;
+Obj _3516741_37 = R[1];
+Obj _3516742_37 = R[2];
+R[1] = _3516742_37;
+R[2] = _3516741_37;
 saveCont(co, clofun45, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516745_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516742_37);
 return;
 }
 case 1:
 {
-Obj _3517434_37= co->res;
-Obj _3516745_37 = R[1];
-Obj pos = _3517434_37;
-Obj _3517435_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517435_37) {
-coraReturn(co, _3516745_37);
+Obj _3517431_37= co->res;
+Obj _3516742_37 = R[1];
+Obj pos = _3517431_37;
+Obj _3517432_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
+if (True == _3517432_37) {
+coraReturn(co, _3516742_37);
 return;
 } else {
-Obj _3517436_37 = makeCons(co->gc, pos, Nil);
-Obj _3517437_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517436_37);
-coraReturn(co, _3517437_37);
+Obj _3517433_37 = makeCons(co->gc, pos, Nil);
+Obj _3517434_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, _3517433_37);
+coraReturn(co, _3517434_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517503_37= co->res;
-Obj _3517501_37 = R[1];
-Obj _3517504_37 = makeCons(co->gc, _3517501_37, _3517503_37);
-Obj _3517505_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517504_37);
-coraReturn(co, _3517505_37);
+Obj _3517500_37= co->res;
+Obj _3517498_37 = R[1];
+Obj _3517501_37 = makeCons(co->gc, _3517498_37, _3517500_37);
+Obj _3517502_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3517501_37);
+coraReturn(co, _3517502_37);
 return;
 }
 case 3:
 {
-Obj _3517502_37= co->res;
+Obj _3517499_37= co->res;
 Obj fvs1 = R[1];
-Obj _3517501_37 = R[2];
-R[1] = _3517501_37;
+Obj _3517498_37 = R[2];
+R[1] = _3517498_37;
 saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517502_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517499_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517498_37= co->res;
+Obj _3517495_37= co->res;
 Obj args = R[1];
-Obj _3516744_37 = R[2];
+Obj _3516741_37 = R[2];
 Obj fvs1 = R[3];
-Obj _3517499_37 = makeCons(co->gc, _3517498_37, Nil);
-Obj _3517500_37 = makeCons(co->gc, args, _3517499_37);
-Obj _3517501_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517500_37);
+Obj _3517496_37 = makeCons(co->gc, _3517495_37, Nil);
+Obj _3517497_37 = makeCons(co->gc, args, _3517496_37);
+Obj _3517498_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517497_37);
 R[1] = fvs1;
-R[2] = _3517501_37;
+R[2] = _3517498_37;
 saveCont(co, clofun45, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516744_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), _3516741_37);
 return;
 }
 case 5:
 {
-Obj _3517497_37= co->res;
+Obj _3517494_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3516744_37 = R[3];
-Obj fvs1 = _3517497_37;
+Obj _3516741_37 = R[3];
+Obj fvs1 = _3517494_37;
 R[1] = args;
-R[2] = _3516744_37;
+R[2] = _3516741_37;
 R[3] = fvs1;
 saveCont(co, clofun45, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), fvs1, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), fvs1, body);
 return;
 }
 case 6:
 {
-Obj _3517432_37= co->res;
-Obj _3516745_37 = R[1];
-Obj _3516744_37 = R[2];
-if (True == _3517432_37) {
-coraReturn(co, _3516745_37);
+Obj _3517429_37= co->res;
+Obj _3516742_37 = R[1];
+Obj _3516741_37 = R[2];
+if (True == _3517429_37) {
+coraReturn(co, _3516742_37);
 return;
 } else {
-Obj _3517433_37 = primIsSymbol(_3516745_37);
-if (True == _3517433_37) {
-R[1] = _3516745_37;
+Obj _3517430_37 = primIsSymbol(_3516742_37);
+if (True == _3517430_37) {
+R[1] = _3516742_37;
 saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516745_37, _3516744_37);
-return;
-} else {
-Obj _3516748_37 = makeNative(co->gc, 4, clofun44, 0, 2, _3516745_37, _3516744_37);
-Obj _3517477_37 = PRIM_ISCONS(_3516745_37);
-if (True == _3517477_37) {
-Obj _3517478_37 = PRIM_CAR(_3516745_37);
-Obj _3517479_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517478_37);
-if (True == _3517479_37) {
-Obj _3517480_37 = PRIM_CDR(_3516745_37);
-Obj _3517481_37 = PRIM_ISCONS(_3517480_37);
-if (True == _3517481_37) {
-Obj _3517482_37 = PRIM_CDR(_3516745_37);
-Obj _3517483_37 = PRIM_CAR(_3517482_37);
-Obj args = _3517483_37;
-Obj _3517484_37 = PRIM_CDR(_3516745_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), _3516742_37, _3516741_37);
+return;
+} else {
+Obj _3516745_37 = makeNative(co->gc, 4, clofun44, 0, 2, _3516742_37, _3516741_37);
+Obj _3517474_37 = PRIM_ISCONS(_3516742_37);
+if (True == _3517474_37) {
+Obj _3517475_37 = PRIM_CAR(_3516742_37);
+Obj _3517476_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517475_37);
+if (True == _3517476_37) {
+Obj _3517477_37 = PRIM_CDR(_3516742_37);
+Obj _3517478_37 = PRIM_ISCONS(_3517477_37);
+if (True == _3517478_37) {
+Obj _3517479_37 = PRIM_CDR(_3516742_37);
+Obj _3517480_37 = PRIM_CAR(_3517479_37);
+Obj args = _3517480_37;
+Obj _3517481_37 = PRIM_CDR(_3516742_37);
+Obj _3517482_37 = PRIM_CDR(_3517481_37);
+Obj _3517483_37 = PRIM_ISCONS(_3517482_37);
+if (True == _3517483_37) {
+Obj _3517484_37 = PRIM_CDR(_3516742_37);
 Obj _3517485_37 = PRIM_CDR(_3517484_37);
-Obj _3517486_37 = PRIM_ISCONS(_3517485_37);
-if (True == _3517486_37) {
-Obj _3517487_37 = PRIM_CDR(_3516745_37);
+Obj _3517486_37 = PRIM_CAR(_3517485_37);
+Obj body = _3517486_37;
+Obj _3517487_37 = PRIM_CDR(_3516742_37);
 Obj _3517488_37 = PRIM_CDR(_3517487_37);
-Obj _3517489_37 = PRIM_CAR(_3517488_37);
-Obj body = _3517489_37;
-Obj _3517490_37 = PRIM_CDR(_3516745_37);
-Obj _3517491_37 = PRIM_CDR(_3517490_37);
-Obj _3517492_37 = PRIM_CDR(_3517491_37);
-Obj _3517493_37 = PRIM_EQ(Nil, _3517492_37);
-if (True == _3517493_37) {
-Obj _3517494_37 = makeCons(co->gc, body, Nil);
-Obj _3517495_37 = makeCons(co->gc, args, _3517494_37);
-Obj _3517496_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517495_37);
+Obj _3517489_37 = PRIM_CDR(_3517488_37);
+Obj _3517490_37 = PRIM_EQ(Nil, _3517489_37);
+if (True == _3517490_37) {
+Obj _3517491_37 = makeCons(co->gc, body, Nil);
+Obj _3517492_37 = makeCons(co->gc, args, _3517491_37);
+Obj _3517493_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517492_37);
 R[1] = body;
 R[2] = args;
-R[3] = _3516744_37;
+R[3] = _3516741_37;
 saveCont(co, clofun45, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517496_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), _3517493_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3516745_37);
 return;
 }
 }
@@ -6449,112 +6472,112 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516749_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517443_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517443_37) {
-Obj _3517444_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517445_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517444_37);
-if (True == _3517445_37) {
-Obj _3517446_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517447_37 = PRIM_ISCONS(_3517446_37);
-if (True == _3517447_37) {
-Obj _3517448_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517449_37 = PRIM_CAR(_3517448_37);
-Obj a = _3517449_37;
+Obj _3516746_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517440_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517440_37) {
+Obj _3517441_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517442_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517441_37);
+if (True == _3517442_37) {
+Obj _3517443_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517444_37 = PRIM_ISCONS(_3517443_37);
+if (True == _3517444_37) {
+Obj _3517445_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517446_37 = PRIM_CAR(_3517445_37);
+Obj a = _3517446_37;
+Obj _3517447_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517448_37 = PRIM_CDR(_3517447_37);
+Obj _3517449_37 = PRIM_ISCONS(_3517448_37);
+if (True == _3517449_37) {
 Obj _3517450_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517451_37 = PRIM_CDR(_3517450_37);
-Obj _3517452_37 = PRIM_ISCONS(_3517451_37);
-if (True == _3517452_37) {
+Obj _3517452_37 = PRIM_CAR(_3517451_37);
+Obj b = _3517452_37;
 Obj _3517453_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517454_37 = PRIM_CDR(_3517453_37);
-Obj _3517455_37 = PRIM_CAR(_3517454_37);
-Obj b = _3517455_37;
-Obj _3517456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517457_37 = PRIM_CDR(_3517456_37);
+Obj _3517455_37 = PRIM_CDR(_3517454_37);
+Obj _3517456_37 = PRIM_ISCONS(_3517455_37);
+if (True == _3517456_37) {
+Obj _3517457_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517458_37 = PRIM_CDR(_3517457_37);
-Obj _3517459_37 = PRIM_ISCONS(_3517458_37);
-if (True == _3517459_37) {
-Obj _3517460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517461_37 = PRIM_CDR(_3517460_37);
+Obj _3517459_37 = PRIM_CDR(_3517458_37);
+Obj _3517460_37 = PRIM_CAR(_3517459_37);
+Obj c = _3517460_37;
+Obj _3517461_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517462_37 = PRIM_CDR(_3517461_37);
-Obj _3517463_37 = PRIM_CAR(_3517462_37);
-Obj c = _3517463_37;
-Obj _3517464_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517465_37 = PRIM_CDR(_3517464_37);
-Obj _3517466_37 = PRIM_CDR(_3517465_37);
-Obj _3517467_37 = PRIM_CDR(_3517466_37);
-Obj _3517468_37 = PRIM_EQ(Nil, _3517467_37);
-if (True == _3517468_37) {
+Obj _3517463_37 = PRIM_CDR(_3517462_37);
+Obj _3517464_37 = PRIM_CDR(_3517463_37);
+Obj _3517465_37 = PRIM_EQ(Nil, _3517464_37);
+if (True == _3517465_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun44, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), b);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3516746_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517472_37= co->res;
-Obj _3517469_37 = R[1];
+Obj _3517469_37= co->res;
+Obj _3517466_37 = R[1];
 Obj a = R[2];
-Obj _3517473_37 = makeCons(co->gc, _3517472_37, Nil);
-Obj _3517474_37 = makeCons(co->gc, _3517469_37, _3517473_37);
-Obj _3517475_37 = makeCons(co->gc, a, _3517474_37);
-Obj _3517476_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517475_37);
-coraReturn(co, _3517476_37);
+Obj _3517470_37 = makeCons(co->gc, _3517469_37, Nil);
+Obj _3517471_37 = makeCons(co->gc, _3517466_37, _3517470_37);
+Obj _3517472_37 = makeCons(co->gc, a, _3517471_37);
+Obj _3517473_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517472_37);
+coraReturn(co, _3517473_37);
 return;
 }
 case 2:
 {
-Obj _3517471_37= co->res;
+Obj _3517468_37= co->res;
 Obj c = R[1];
-Obj _3517469_37 = R[2];
+Obj _3517466_37 = R[2];
 Obj a = R[3];
-R[1] = _3517469_37;
+R[1] = _3517466_37;
 R[2] = a;
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), _3517471_37, c);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), _3517468_37, c);
 return;
 }
 case 3:
 {
-Obj _3517469_37= co->res;
+Obj _3517466_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
 R[1] = c;
-R[2] = _3517469_37;
+R[2] = _3517466_37;
 R[3] = a;
 saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), makeNative(co->gc, 2, clofun43, 1, 1, a), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun43, 1, 1, a), closureRef(R[0], 1));
 return;
 }
 }
@@ -6565,8 +6588,8 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517470_37 = PRIM_EQ(x, closureRef(R[0], 0));
-if (True == _3517470_37) {
+Obj _3517467_37 = PRIM_EQ(x, closureRef(R[0], 0));
+if (True == _3517467_37) {
 coraReturn(co, Nil);
 return;
 } else {
@@ -6581,31 +6604,31 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517438_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517438_37) {
-Obj _3517439_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517439_37;
-Obj _3517440_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517440_37;
+Obj _3517435_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517435_37) {
+Obj _3517436_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517436_37;
+Obj _3517437_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517437_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj _3517441_37= co->res;
+Obj _3517438_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517442_37 = makeCons(co->gc, f, args);
+Obj _3517439_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517441_37, _3517442_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517438_37, _3517439_37);
 return;
 }
 }
@@ -6615,86 +6638,86 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516731_37 = R[1];
-R[1] = _3516731_37;
+Obj _3516728_37 = R[1];
+R[1] = _3516728_37;
 saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516731_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516728_37);
 return;
 }
 case 1:
 {
-Obj _3517430_37= co->res;
+Obj _3517427_37= co->res;
 Obj args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517430_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517427_37, args);
 return;
 }
 case 2:
 {
-Obj _3517257_37= co->res;
-Obj _3516731_37 = R[1];
-if (True == _3517257_37) {
+Obj _3517254_37= co->res;
+Obj _3516728_37 = R[1];
+if (True == _3517254_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517258_37 = primIsSymbol(_3516731_37);
-if (True == _3517258_37) {
-Obj _3517259_37 = makeCons(co->gc, _3516731_37, Nil);
-coraReturn(co, _3517259_37);
-return;
-} else {
-Obj _3516734_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516731_37);
-Obj _3517413_37 = PRIM_ISCONS(_3516731_37);
-if (True == _3517413_37) {
-Obj _3517414_37 = PRIM_CAR(_3516731_37);
-Obj _3517415_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517414_37);
-if (True == _3517415_37) {
-Obj _3517416_37 = PRIM_CDR(_3516731_37);
-Obj _3517417_37 = PRIM_ISCONS(_3517416_37);
-if (True == _3517417_37) {
-Obj _3517418_37 = PRIM_CDR(_3516731_37);
-Obj _3517419_37 = PRIM_CAR(_3517418_37);
-Obj args = _3517419_37;
-Obj _3517420_37 = PRIM_CDR(_3516731_37);
+Obj _3517255_37 = primIsSymbol(_3516728_37);
+if (True == _3517255_37) {
+Obj _3517256_37 = makeCons(co->gc, _3516728_37, Nil);
+coraReturn(co, _3517256_37);
+return;
+} else {
+Obj _3516731_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516728_37);
+Obj _3517410_37 = PRIM_ISCONS(_3516728_37);
+if (True == _3517410_37) {
+Obj _3517411_37 = PRIM_CAR(_3516728_37);
+Obj _3517412_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517411_37);
+if (True == _3517412_37) {
+Obj _3517413_37 = PRIM_CDR(_3516728_37);
+Obj _3517414_37 = PRIM_ISCONS(_3517413_37);
+if (True == _3517414_37) {
+Obj _3517415_37 = PRIM_CDR(_3516728_37);
+Obj _3517416_37 = PRIM_CAR(_3517415_37);
+Obj args = _3517416_37;
+Obj _3517417_37 = PRIM_CDR(_3516728_37);
+Obj _3517418_37 = PRIM_CDR(_3517417_37);
+Obj _3517419_37 = PRIM_ISCONS(_3517418_37);
+if (True == _3517419_37) {
+Obj _3517420_37 = PRIM_CDR(_3516728_37);
 Obj _3517421_37 = PRIM_CDR(_3517420_37);
-Obj _3517422_37 = PRIM_ISCONS(_3517421_37);
-if (True == _3517422_37) {
-Obj _3517423_37 = PRIM_CDR(_3516731_37);
+Obj _3517422_37 = PRIM_CAR(_3517421_37);
+Obj body = _3517422_37;
+Obj _3517423_37 = PRIM_CDR(_3516728_37);
 Obj _3517424_37 = PRIM_CDR(_3517423_37);
-Obj _3517425_37 = PRIM_CAR(_3517424_37);
-Obj body = _3517425_37;
-Obj _3517426_37 = PRIM_CDR(_3516731_37);
-Obj _3517427_37 = PRIM_CDR(_3517426_37);
-Obj _3517428_37 = PRIM_CDR(_3517427_37);
-Obj _3517429_37 = PRIM_EQ(Nil, _3517428_37);
-if (True == _3517429_37) {
+Obj _3517425_37 = PRIM_CDR(_3517424_37);
+Obj _3517426_37 = PRIM_EQ(Nil, _3517425_37);
+if (True == _3517426_37) {
 R[1] = args;
 saveCont(co, clofun41, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516731_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516731_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516731_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516731_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3516731_37);
 return;
 }
 }
@@ -6707,84 +6730,84 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516735_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517383_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517383_37) {
-Obj _3517384_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517385_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517384_37);
-if (True == _3517385_37) {
-Obj _3517386_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517387_37 = PRIM_ISCONS(_3517386_37);
-if (True == _3517387_37) {
-Obj _3517388_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517389_37 = PRIM_CAR(_3517388_37);
-Obj x = _3517389_37;
+Obj _3516732_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj _3517380_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517380_37) {
+Obj _3517381_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517382_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517381_37);
+if (True == _3517382_37) {
+Obj _3517383_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517384_37 = PRIM_ISCONS(_3517383_37);
+if (True == _3517384_37) {
+Obj _3517385_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517386_37 = PRIM_CAR(_3517385_37);
+Obj x = _3517386_37;
+Obj _3517387_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517388_37 = PRIM_CDR(_3517387_37);
+Obj _3517389_37 = PRIM_ISCONS(_3517388_37);
+if (True == _3517389_37) {
 Obj _3517390_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517391_37 = PRIM_CDR(_3517390_37);
-Obj _3517392_37 = PRIM_ISCONS(_3517391_37);
-if (True == _3517392_37) {
+Obj _3517392_37 = PRIM_CAR(_3517391_37);
+Obj y = _3517392_37;
 Obj _3517393_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517394_37 = PRIM_CDR(_3517393_37);
-Obj _3517395_37 = PRIM_CAR(_3517394_37);
-Obj y = _3517395_37;
-Obj _3517396_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517397_37 = PRIM_CDR(_3517396_37);
+Obj _3517395_37 = PRIM_CDR(_3517394_37);
+Obj _3517396_37 = PRIM_ISCONS(_3517395_37);
+if (True == _3517396_37) {
+Obj _3517397_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517398_37 = PRIM_CDR(_3517397_37);
-Obj _3517399_37 = PRIM_ISCONS(_3517398_37);
-if (True == _3517399_37) {
-Obj _3517400_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517401_37 = PRIM_CDR(_3517400_37);
+Obj _3517399_37 = PRIM_CDR(_3517398_37);
+Obj _3517400_37 = PRIM_CAR(_3517399_37);
+Obj z = _3517400_37;
+Obj _3517401_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517402_37 = PRIM_CDR(_3517401_37);
-Obj _3517403_37 = PRIM_CAR(_3517402_37);
-Obj z = _3517403_37;
-Obj _3517404_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517405_37 = PRIM_CDR(_3517404_37);
-Obj _3517406_37 = PRIM_CDR(_3517405_37);
-Obj _3517407_37 = PRIM_CDR(_3517406_37);
-Obj _3517408_37 = PRIM_EQ(Nil, _3517407_37);
-if (True == _3517408_37) {
-Obj _3517409_37 = makeCons(co->gc, z, Nil);
-Obj _3517410_37 = makeCons(co->gc, y, _3517409_37);
-Obj _3517411_37 = makeCons(co->gc, x, _3517410_37);
+Obj _3517403_37 = PRIM_CDR(_3517402_37);
+Obj _3517404_37 = PRIM_CDR(_3517403_37);
+Obj _3517405_37 = PRIM_EQ(Nil, _3517404_37);
+if (True == _3517405_37) {
+Obj _3517406_37 = makeCons(co->gc, z, Nil);
+Obj _3517407_37 = makeCons(co->gc, y, _3517406_37);
+Obj _3517408_37 = makeCons(co->gc, x, _3517407_37);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517411_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), _3517408_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3516732_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517412_37= co->res;
+Obj _3517409_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517412_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 83)), Nil, _3517409_37);
 return;
 }
 }
@@ -6794,67 +6817,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516736_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517363_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517363_37) {
-Obj _3517364_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517365_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517364_37);
-if (True == _3517365_37) {
-Obj _3517366_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517367_37 = PRIM_ISCONS(_3517366_37);
-if (True == _3517367_37) {
-Obj _3517368_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517369_37 = PRIM_CAR(_3517368_37);
-Obj x = _3517369_37;
+Obj _3516733_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
+Obj _3517360_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517360_37) {
+Obj _3517361_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517362_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517361_37);
+if (True == _3517362_37) {
+Obj _3517363_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517364_37 = PRIM_ISCONS(_3517363_37);
+if (True == _3517364_37) {
+Obj _3517365_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517366_37 = PRIM_CAR(_3517365_37);
+Obj x = _3517366_37;
+Obj _3517367_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517368_37 = PRIM_CDR(_3517367_37);
+Obj _3517369_37 = PRIM_ISCONS(_3517368_37);
+if (True == _3517369_37) {
 Obj _3517370_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517371_37 = PRIM_CDR(_3517370_37);
-Obj _3517372_37 = PRIM_ISCONS(_3517371_37);
-if (True == _3517372_37) {
+Obj _3517372_37 = PRIM_CAR(_3517371_37);
+Obj y = _3517372_37;
 Obj _3517373_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517374_37 = PRIM_CDR(_3517373_37);
-Obj _3517375_37 = PRIM_CAR(_3517374_37);
-Obj y = _3517375_37;
-Obj _3517376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517377_37 = PRIM_CDR(_3517376_37);
-Obj _3517378_37 = PRIM_CDR(_3517377_37);
-Obj _3517379_37 = PRIM_EQ(Nil, _3517378_37);
-if (True == _3517379_37) {
-Obj _3517380_37 = makeCons(co->gc, y, Nil);
-Obj _3517381_37 = makeCons(co->gc, x, _3517380_37);
+Obj _3517375_37 = PRIM_CDR(_3517374_37);
+Obj _3517376_37 = PRIM_EQ(Nil, _3517375_37);
+if (True == _3517376_37) {
+Obj _3517377_37 = makeCons(co->gc, y, Nil);
+Obj _3517378_37 = makeCons(co->gc, x, _3517377_37);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517381_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), _3517378_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, _3516733_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517382_37= co->res;
+Obj _3517379_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517382_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 83)), Nil, _3517379_37);
 return;
 }
 }
@@ -6864,106 +6887,106 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517333_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517333_37) {
-Obj _3517334_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517335_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517334_37);
-if (True == _3517335_37) {
-Obj _3517336_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517337_37 = PRIM_ISCONS(_3517336_37);
-if (True == _3517337_37) {
-Obj _3517338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517339_37 = PRIM_CAR(_3517338_37);
-Obj a = _3517339_37;
+Obj _3516734_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj _3517330_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517330_37) {
+Obj _3517331_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517332_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517331_37);
+if (True == _3517332_37) {
+Obj _3517333_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517334_37 = PRIM_ISCONS(_3517333_37);
+if (True == _3517334_37) {
+Obj _3517335_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517336_37 = PRIM_CAR(_3517335_37);
+Obj a = _3517336_37;
+Obj _3517337_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517338_37 = PRIM_CDR(_3517337_37);
+Obj _3517339_37 = PRIM_ISCONS(_3517338_37);
+if (True == _3517339_37) {
 Obj _3517340_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517341_37 = PRIM_CDR(_3517340_37);
-Obj _3517342_37 = PRIM_ISCONS(_3517341_37);
-if (True == _3517342_37) {
+Obj _3517342_37 = PRIM_CAR(_3517341_37);
+Obj b = _3517342_37;
 Obj _3517343_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517344_37 = PRIM_CDR(_3517343_37);
-Obj _3517345_37 = PRIM_CAR(_3517344_37);
-Obj b = _3517345_37;
-Obj _3517346_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517347_37 = PRIM_CDR(_3517346_37);
+Obj _3517345_37 = PRIM_CDR(_3517344_37);
+Obj _3517346_37 = PRIM_ISCONS(_3517345_37);
+if (True == _3517346_37) {
+Obj _3517347_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517348_37 = PRIM_CDR(_3517347_37);
-Obj _3517349_37 = PRIM_ISCONS(_3517348_37);
-if (True == _3517349_37) {
-Obj _3517350_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517351_37 = PRIM_CDR(_3517350_37);
+Obj _3517349_37 = PRIM_CDR(_3517348_37);
+Obj _3517350_37 = PRIM_CAR(_3517349_37);
+Obj c = _3517350_37;
+Obj _3517351_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517352_37 = PRIM_CDR(_3517351_37);
-Obj _3517353_37 = PRIM_CAR(_3517352_37);
-Obj c = _3517353_37;
-Obj _3517354_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517355_37 = PRIM_CDR(_3517354_37);
-Obj _3517356_37 = PRIM_CDR(_3517355_37);
-Obj _3517357_37 = PRIM_CDR(_3517356_37);
-Obj _3517358_37 = PRIM_EQ(Nil, _3517357_37);
-if (True == _3517358_37) {
+Obj _3517353_37 = PRIM_CDR(_3517352_37);
+Obj _3517354_37 = PRIM_CDR(_3517353_37);
+Obj _3517355_37 = PRIM_EQ(Nil, _3517354_37);
+if (True == _3517355_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), b);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, _3516734_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517362_37= co->res;
-Obj _3517359_37 = R[1];
+Obj _3517359_37= co->res;
+Obj _3517356_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517359_37, _3517362_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), _3517356_37, _3517359_37);
 return;
 }
 case 2:
 {
-Obj _3517360_37= co->res;
+Obj _3517357_37= co->res;
 Obj a = R[1];
-Obj _3517359_37 = R[2];
-Obj _3517361_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517359_37;
+Obj _3517356_37 = R[2];
+Obj _3517358_37 = makeCons(co->gc, a, Nil);
+R[1] = _3517356_37;
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517360_37, _3517361_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517357_37, _3517358_37);
 return;
 }
 case 3:
 {
-Obj _3517359_37= co->res;
+Obj _3517356_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
 R[1] = a;
-R[2] = _3517359_37;
+R[2] = _3517356_37;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), c);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), c);
 return;
 }
 }
@@ -6973,38 +6996,38 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516738_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517323_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517323_37) {
-Obj _3517324_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517325_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517324_37);
-if (True == _3517325_37) {
-Obj _3517326_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517327_37 = PRIM_ISCONS(_3517326_37);
-if (True == _3517327_37) {
-Obj _3517328_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517329_37 = PRIM_CAR(_3517328_37);
-Obj lam = _3517329_37;
-Obj _3517330_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517331_37 = PRIM_CDR(_3517330_37);
-Obj more = _3517331_37;
-Obj _3517332_37 = makeCons(co->gc, lam, more);
+Obj _3516735_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj _3517320_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517320_37) {
+Obj _3517321_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517322_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517321_37);
+if (True == _3517322_37) {
+Obj _3517323_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517324_37 = PRIM_ISCONS(_3517323_37);
+if (True == _3517324_37) {
+Obj _3517325_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517326_37 = PRIM_CAR(_3517325_37);
+Obj lam = _3517326_37;
+Obj _3517327_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517328_37 = PRIM_CDR(_3517327_37);
+Obj more = _3517328_37;
+Obj _3517329_37 = makeCons(co->gc, lam, more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517332_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), _3517329_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, _3516735_37);
 return;
 }
 }
@@ -7015,43 +7038,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516739_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517313_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517313_37) {
-Obj _3517314_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517315_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517314_37);
-if (True == _3517315_37) {
-Obj _3517316_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517317_37 = PRIM_ISCONS(_3517316_37);
-if (True == _3517317_37) {
-Obj _3517318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517319_37 = PRIM_CAR(_3517318_37);
-Obj x = _3517319_37;
-Obj _3517320_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517321_37 = PRIM_CDR(_3517320_37);
-Obj _3517322_37 = PRIM_EQ(Nil, _3517321_37);
-if (True == _3517322_37) {
+Obj _3516736_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj _3517310_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517310_37) {
+Obj _3517311_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517312_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517311_37);
+if (True == _3517312_37) {
+Obj _3517313_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517314_37 = PRIM_ISCONS(_3517313_37);
+if (True == _3517314_37) {
+Obj _3517315_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517316_37 = PRIM_CAR(_3517315_37);
+Obj x = _3517316_37;
+Obj _3517317_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517318_37 = PRIM_CDR(_3517317_37);
+Obj _3517319_37 = PRIM_EQ(Nil, _3517318_37);
+if (True == _3517319_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3516736_37);
 return;
 }
 }
@@ -7062,67 +7085,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516740_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517293_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517293_37) {
-Obj _3517294_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517295_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517294_37);
-if (True == _3517295_37) {
-Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517297_37 = PRIM_ISCONS(_3517296_37);
-if (True == _3517297_37) {
-Obj _3517298_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517299_37 = PRIM_CAR(_3517298_37);
-Obj exp = _3517299_37;
+Obj _3516737_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj _3517290_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517290_37) {
+Obj _3517291_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517292_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517291_37);
+if (True == _3517292_37) {
+Obj _3517293_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517294_37 = PRIM_ISCONS(_3517293_37);
+if (True == _3517294_37) {
+Obj _3517295_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517296_37 = PRIM_CAR(_3517295_37);
+Obj exp = _3517296_37;
+Obj _3517297_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517298_37 = PRIM_CDR(_3517297_37);
+Obj _3517299_37 = PRIM_ISCONS(_3517298_37);
+if (True == _3517299_37) {
 Obj _3517300_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517301_37 = PRIM_CDR(_3517300_37);
-Obj _3517302_37 = PRIM_ISCONS(_3517301_37);
-if (True == _3517302_37) {
+Obj _3517302_37 = PRIM_CAR(_3517301_37);
+Obj cont = _3517302_37;
 Obj _3517303_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517304_37 = PRIM_CDR(_3517303_37);
-Obj _3517305_37 = PRIM_CAR(_3517304_37);
-Obj cont = _3517305_37;
-Obj _3517306_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517307_37 = PRIM_CDR(_3517306_37);
-Obj _3517308_37 = PRIM_CDR(_3517307_37);
-Obj _3517309_37 = PRIM_EQ(Nil, _3517308_37);
-if (True == _3517309_37) {
-Obj _3517310_37 = makeCons(co->gc, cont, Nil);
-Obj _3517311_37 = makeCons(co->gc, exp, _3517310_37);
+Obj _3517305_37 = PRIM_CDR(_3517304_37);
+Obj _3517306_37 = PRIM_EQ(Nil, _3517305_37);
+if (True == _3517306_37) {
+Obj _3517307_37 = makeCons(co->gc, cont, Nil);
+Obj _3517308_37 = makeCons(co->gc, exp, _3517307_37);
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517311_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), _3517308_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516740_37);
+coraCall0(co, _3516737_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517312_37= co->res;
+Obj _3517309_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517312_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 83)), Nil, _3517309_37);
 return;
 }
 }
@@ -7132,43 +7155,43 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516741_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517283_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517283_37) {
-Obj _3517284_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517285_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517284_37);
-if (True == _3517285_37) {
-Obj _3517286_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517287_37 = PRIM_ISCONS(_3517286_37);
-if (True == _3517287_37) {
-Obj _3517288_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517289_37 = PRIM_CAR(_3517288_37);
-Obj exp = _3517289_37;
-Obj _3517290_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517291_37 = PRIM_CDR(_3517290_37);
-Obj _3517292_37 = PRIM_EQ(Nil, _3517291_37);
-if (True == _3517292_37) {
+Obj _3516738_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
+Obj _3517280_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517280_37) {
+Obj _3517281_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517282_37 = PRIM_EQ(getBinding(co, packageID, 76).name, _3517281_37);
+if (True == _3517282_37) {
+Obj _3517283_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517284_37 = PRIM_ISCONS(_3517283_37);
+if (True == _3517284_37) {
+Obj _3517285_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517286_37 = PRIM_CAR(_3517285_37);
+Obj exp = _3517286_37;
+Obj _3517287_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517288_37 = PRIM_CDR(_3517287_37);
+Obj _3517289_37 = PRIM_EQ(Nil, _3517288_37);
+if (True == _3517289_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3516738_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3516738_37);
 return;
 }
 }
@@ -7179,67 +7202,67 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516742_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517265_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517265_37) {
-Obj _3517266_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517267_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517266_37);
-if (True == _3517267_37) {
-Obj _3517268_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517269_37 = PRIM_ISCONS(_3517268_37);
-if (True == _3517269_37) {
-Obj _3517270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517271_37 = PRIM_CAR(_3517270_37);
-Obj arg = _3517271_37;
+Obj _3516739_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj _3517262_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517262_37) {
+Obj _3517263_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517264_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517263_37);
+if (True == _3517264_37) {
+Obj _3517265_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517266_37 = PRIM_ISCONS(_3517265_37);
+if (True == _3517266_37) {
+Obj _3517267_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517268_37 = PRIM_CAR(_3517267_37);
+Obj arg = _3517268_37;
+Obj _3517269_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517270_37 = PRIM_CDR(_3517269_37);
+Obj _3517271_37 = PRIM_ISCONS(_3517270_37);
+if (True == _3517271_37) {
 Obj _3517272_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517273_37 = PRIM_CDR(_3517272_37);
-Obj _3517274_37 = PRIM_ISCONS(_3517273_37);
-if (True == _3517274_37) {
+Obj _3517274_37 = PRIM_CAR(_3517273_37);
+Obj body = _3517274_37;
 Obj _3517275_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517276_37 = PRIM_CDR(_3517275_37);
-Obj _3517277_37 = PRIM_CAR(_3517276_37);
-Obj body = _3517277_37;
-Obj _3517278_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517279_37 = PRIM_CDR(_3517278_37);
-Obj _3517280_37 = PRIM_CDR(_3517279_37);
-Obj _3517281_37 = PRIM_EQ(Nil, _3517280_37);
-if (True == _3517281_37) {
+Obj _3517277_37 = PRIM_CDR(_3517276_37);
+Obj _3517278_37 = PRIM_EQ(Nil, _3517277_37);
+if (True == _3517278_37) {
 R[1] = arg;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516739_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517282_37= co->res;
+Obj _3517279_37= co->res;
 Obj arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517282_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517279_37, arg);
 return;
 }
 }
@@ -7249,27 +7272,27 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517260_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517260_37) {
-Obj _3517261_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517261_37;
-Obj _3517262_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517262_37;
-Obj _3517263_37 = makeCons(co->gc, f, args);
+Obj _3517257_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517257_37) {
+Obj _3517258_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517258_37;
+Obj _3517259_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517259_37;
+Obj _3517260_37 = makeCons(co->gc, f, args);
 saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517263_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), _3517260_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj _3517264_37= co->res;
+Obj _3517261_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517264_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 83)), Nil, _3517261_37);
 return;
 }
 }
@@ -7279,42 +7302,42 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516723_37 = R[1];
-Obj _3516724_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516723_37);
-Obj _3517246_37 = PRIM_ISCONS(_3516723_37);
-if (True == _3517246_37) {
-Obj _3517247_37 = PRIM_CAR(_3516723_37);
-Obj _3517248_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517247_37);
-if (True == _3517248_37) {
-Obj _3517249_37 = PRIM_CDR(_3516723_37);
-Obj _3517250_37 = PRIM_ISCONS(_3517249_37);
-if (True == _3517250_37) {
-Obj _3517251_37 = PRIM_CDR(_3516723_37);
-Obj _3517252_37 = PRIM_CAR(_3517251_37);
-Obj _3517253_37 = PRIM_CDR(_3516723_37);
-Obj _3517254_37 = PRIM_CDR(_3517253_37);
-Obj _3517255_37 = PRIM_EQ(Nil, _3517254_37);
-if (True == _3517255_37) {
+Obj _3516720_37 = R[1];
+Obj _3516721_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516720_37);
+Obj _3517243_37 = PRIM_ISCONS(_3516720_37);
+if (True == _3517243_37) {
+Obj _3517244_37 = PRIM_CAR(_3516720_37);
+Obj _3517245_37 = PRIM_EQ(getBinding(co, packageID, 98).name, _3517244_37);
+if (True == _3517245_37) {
+Obj _3517246_37 = PRIM_CDR(_3516720_37);
+Obj _3517247_37 = PRIM_ISCONS(_3517246_37);
+if (True == _3517247_37) {
+Obj _3517248_37 = PRIM_CDR(_3516720_37);
+Obj _3517249_37 = PRIM_CAR(_3517248_37);
+Obj _3517250_37 = PRIM_CDR(_3516720_37);
+Obj _3517251_37 = PRIM_CDR(_3517250_37);
+Obj _3517252_37 = PRIM_EQ(Nil, _3517251_37);
+if (True == _3517252_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516724_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516724_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516724_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516724_37);
+coraCall0(co, _3516721_37);
 return;
 }
 }
@@ -7325,41 +7348,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516725_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517236_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517236_37) {
-Obj _3517237_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517238_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517237_37);
-if (True == _3517238_37) {
-Obj _3517239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517240_37 = PRIM_ISCONS(_3517239_37);
-if (True == _3517240_37) {
-Obj _3517241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517242_37 = PRIM_CAR(_3517241_37);
-Obj _3517243_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517244_37 = PRIM_CDR(_3517243_37);
-Obj _3517245_37 = PRIM_EQ(Nil, _3517244_37);
-if (True == _3517245_37) {
+Obj _3516722_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj _3517233_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517233_37) {
+Obj _3517234_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517235_37 = PRIM_EQ(getBinding(co, packageID, 95).name, _3517234_37);
+if (True == _3517235_37) {
+Obj _3517236_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517237_37 = PRIM_ISCONS(_3517236_37);
+if (True == _3517237_37) {
+Obj _3517238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517239_37 = PRIM_CAR(_3517238_37);
+Obj _3517240_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517241_37 = PRIM_CDR(_3517240_37);
+Obj _3517242_37 = PRIM_EQ(Nil, _3517241_37);
+if (True == _3517242_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516725_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516725_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516725_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516725_37);
+coraCall0(co, _3516722_37);
 return;
 }
 }
@@ -7370,41 +7393,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516726_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517226_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517226_37) {
-Obj _3517227_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517228_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517227_37);
-if (True == _3517228_37) {
-Obj _3517229_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517230_37 = PRIM_ISCONS(_3517229_37);
-if (True == _3517230_37) {
-Obj _3517231_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517232_37 = PRIM_CAR(_3517231_37);
-Obj _3517233_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517234_37 = PRIM_CDR(_3517233_37);
-Obj _3517235_37 = PRIM_EQ(Nil, _3517234_37);
-if (True == _3517235_37) {
+Obj _3516723_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj _3517223_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517223_37) {
+Obj _3517224_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517225_37 = PRIM_EQ(getBinding(co, packageID, 92).name, _3517224_37);
+if (True == _3517225_37) {
+Obj _3517226_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517227_37 = PRIM_ISCONS(_3517226_37);
+if (True == _3517227_37) {
+Obj _3517228_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517229_37 = PRIM_CAR(_3517228_37);
+Obj _3517230_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517231_37 = PRIM_CDR(_3517230_37);
+Obj _3517232_37 = PRIM_EQ(Nil, _3517231_37);
+if (True == _3517232_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516726_37);
+coraCall0(co, _3516723_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516726_37);
+coraCall0(co, _3516723_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516726_37);
+coraCall0(co, _3516723_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516726_37);
+coraCall0(co, _3516723_37);
 return;
 }
 }
@@ -7415,41 +7438,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516727_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517216_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517216_37) {
-Obj _3517217_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517218_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517217_37);
-if (True == _3517218_37) {
-Obj _3517219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517220_37 = PRIM_ISCONS(_3517219_37);
-if (True == _3517220_37) {
-Obj _3517221_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517222_37 = PRIM_CAR(_3517221_37);
-Obj _3517223_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517224_37 = PRIM_CDR(_3517223_37);
-Obj _3517225_37 = PRIM_EQ(Nil, _3517224_37);
-if (True == _3517225_37) {
+Obj _3516724_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
+Obj _3517213_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517213_37) {
+Obj _3517214_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517215_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517214_37);
+if (True == _3517215_37) {
+Obj _3517216_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517217_37 = PRIM_ISCONS(_3517216_37);
+if (True == _3517217_37) {
+Obj _3517218_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517219_37 = PRIM_CAR(_3517218_37);
+Obj _3517220_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517221_37 = PRIM_CDR(_3517220_37);
+Obj _3517222_37 = PRIM_EQ(Nil, _3517221_37);
+if (True == _3517222_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3516724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3516724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3516724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3516724_37);
 return;
 }
 }
@@ -7460,41 +7483,41 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516728_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517206_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517206_37) {
-Obj _3517207_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517208_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517207_37);
-if (True == _3517208_37) {
-Obj _3517209_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517210_37 = PRIM_ISCONS(_3517209_37);
-if (True == _3517210_37) {
-Obj _3517211_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517212_37 = PRIM_CAR(_3517211_37);
-Obj _3517213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517214_37 = PRIM_CDR(_3517213_37);
-Obj _3517215_37 = PRIM_EQ(Nil, _3517214_37);
-if (True == _3517215_37) {
+Obj _3516725_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
+Obj _3517203_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517203_37) {
+Obj _3517204_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517205_37 = PRIM_EQ(getBinding(co, packageID, 79).name, _3517204_37);
+if (True == _3517205_37) {
+Obj _3517206_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517207_37 = PRIM_ISCONS(_3517206_37);
+if (True == _3517207_37) {
+Obj _3517208_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517209_37 = PRIM_CAR(_3517208_37);
+Obj _3517210_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517211_37 = PRIM_CDR(_3517210_37);
+Obj _3517212_37 = PRIM_EQ(Nil, _3517211_37);
+if (True == _3517212_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3516725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3516725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3516725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3516725_37);
 return;
 }
 }
@@ -7505,50 +7528,50 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516729_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517196_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517196_37) {
-Obj _3517197_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517198_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517197_37);
-if (True == _3517198_37) {
-Obj _3517199_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517200_37 = PRIM_ISCONS(_3517199_37);
-if (True == _3517200_37) {
-Obj _3517201_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517202_37 = PRIM_CAR(_3517201_37);
-Obj label = _3517202_37;
-Obj _3517203_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517204_37 = PRIM_CDR(_3517203_37);
-R[1] = _3516729_37;
+Obj _3516726_37 = makeNative(co->gc, 1, clofun25, 0, 0);
+Obj _3517193_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517193_37) {
+Obj _3517194_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517195_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517194_37);
+if (True == _3517195_37) {
+Obj _3517196_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517197_37 = PRIM_ISCONS(_3517196_37);
+if (True == _3517197_37) {
+Obj _3517198_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517199_37 = PRIM_CAR(_3517198_37);
+Obj label = _3517199_37;
+Obj _3517200_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517201_37 = PRIM_CDR(_3517200_37);
+R[1] = _3516726_37;
 saveCont(co, clofun26, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), label);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516726_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517205_37= co->res;
-Obj _3516729_37 = R[1];
-if (True == _3517205_37) {
+Obj _3517202_37= co->res;
+Obj _3516726_37 = R[1];
+if (True == _3517202_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3516726_37);
 return;
 }
 }
@@ -7569,46 +7592,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516718_37 = R[1];
-Obj _3516719_37 = R[2];
-Obj _3517185_37 = PRIM_EQ(Nil, _3516718_37);
-if (True == _3517185_37) {
+Obj _3516715_37 = R[1];
+Obj _3516716_37 = R[2];
+Obj _3517182_37 = PRIM_EQ(Nil, _3516715_37);
+if (True == _3517182_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516721_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516718_37, _3516719_37);
-Obj _3517191_37 = PRIM_ISCONS(_3516718_37);
-if (True == _3517191_37) {
-Obj _3517192_37 = PRIM_CAR(_3516718_37);
-Obj x = _3517192_37;
-Obj _3517193_37 = PRIM_CDR(_3516718_37);
-Obj y = _3517193_37;
+Obj _3516718_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516715_37, _3516716_37);
+Obj _3517188_37 = PRIM_ISCONS(_3516715_37);
+if (True == _3517188_37) {
+Obj _3517189_37 = PRIM_CAR(_3516715_37);
+Obj x = _3517189_37;
+Obj _3517190_37 = PRIM_CDR(_3516715_37);
+Obj y = _3517190_37;
 R[1] = y;
-R[2] = _3516719_37;
-R[3] = _3516721_37;
+R[2] = _3516716_37;
+R[3] = _3516718_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516719_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), x, _3516716_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516718_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517194_37= co->res;
+Obj _3517191_37= co->res;
 Obj y = R[1];
-Obj _3516719_37 = R[2];
-Obj _3516721_37 = R[3];
-if (True == _3517194_37) {
+Obj _3516716_37 = R[2];
+Obj _3516718_37 = R[3];
+if (True == _3517191_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516719_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), y, _3516716_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516718_37);
 return;
 }
 }
@@ -7619,28 +7642,28 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517186_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517186_37) {
-Obj _3517187_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517187_37;
-Obj _3517188_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517188_37;
+Obj _3517183_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517183_37) {
+Obj _3517184_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517184_37;
+Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517185_37;
 R[1] = x;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj _3517189_37= co->res;
+Obj _3517186_37= co->res;
 Obj x = R[1];
-Obj _3517190_37 = makeCons(co->gc, x, _3517189_37);
-coraReturn(co, _3517190_37);
+Obj _3517187_37 = makeCons(co->gc, x, _3517186_37);
+coraReturn(co, _3517187_37);
 return;
 }
 }
@@ -7650,46 +7673,46 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516713_37 = R[1];
-Obj _3516714_37 = R[2];
-Obj _3517174_37 = PRIM_EQ(Nil, _3516713_37);
-if (True == _3517174_37) {
-coraReturn(co, _3516714_37);
+Obj _3516710_37 = R[1];
+Obj _3516711_37 = R[2];
+Obj _3517171_37 = PRIM_EQ(Nil, _3516710_37);
+if (True == _3517171_37) {
+coraReturn(co, _3516711_37);
 return;
 } else {
-Obj _3516716_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516713_37, _3516714_37);
-Obj _3517180_37 = PRIM_ISCONS(_3516713_37);
-if (True == _3517180_37) {
-Obj _3517181_37 = PRIM_CAR(_3516713_37);
-Obj x = _3517181_37;
-Obj _3517182_37 = PRIM_CDR(_3516713_37);
-Obj y = _3517182_37;
+Obj _3516713_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516710_37, _3516711_37);
+Obj _3517177_37 = PRIM_ISCONS(_3516710_37);
+if (True == _3517177_37) {
+Obj _3517178_37 = PRIM_CAR(_3516710_37);
+Obj x = _3517178_37;
+Obj _3517179_37 = PRIM_CDR(_3516710_37);
+Obj y = _3517179_37;
 R[1] = y;
-R[2] = _3516714_37;
-R[3] = _3516716_37;
+R[2] = _3516711_37;
+R[3] = _3516713_37;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516714_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), x, _3516711_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516713_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517183_37= co->res;
+Obj _3517180_37= co->res;
 Obj y = R[1];
-Obj _3516714_37 = R[2];
-Obj _3516716_37 = R[3];
-if (True == _3517183_37) {
+Obj _3516711_37 = R[2];
+Obj _3516713_37 = R[3];
+if (True == _3517180_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516714_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), y, _3516711_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516713_37);
 return;
 }
 }
@@ -7700,28 +7723,28 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517175_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517175_37) {
-Obj _3517176_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517176_37;
-Obj _3517177_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517177_37;
+Obj _3517172_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517172_37) {
+Obj _3517173_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517173_37;
+Obj _3517174_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517174_37;
 R[1] = x;
 saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), y, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj _3517178_37= co->res;
+Obj _3517175_37= co->res;
 Obj x = R[1];
-Obj _3517179_37 = makeCons(co->gc, x, _3517178_37);
-coraReturn(co, _3517179_37);
+Obj _3517176_37 = makeCons(co->gc, x, _3517175_37);
+coraReturn(co, _3517176_37);
 return;
 }
 }
@@ -7731,66 +7754,66 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516699_37 = R[1];
-Obj _3516700_37 = R[2];
-Obj _3516701_37 = R[3];
-Obj _3516843_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516699_37, _3516701_37, _3516700_37);
-R[1] = _3516701_37;
-R[2] = _3516843_37;
+Obj _3516696_37 = R[1];
+Obj _3516697_37 = R[2];
+Obj _3516698_37 = R[3];
+Obj _3516840_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516696_37, _3516698_37, _3516697_37);
+R[1] = _3516698_37;
+R[2] = _3516840_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516701_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), _3516698_37);
 return;
 }
 case 1:
 {
-Obj _3517172_37= co->res;
-Obj _3516843_37 = R[1];
-if (True == _3517172_37) {
+Obj _3517169_37= co->res;
+Obj _3516840_37 = R[1];
+if (True == _3517169_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516843_37, True);
+coraCall1(co, _3516840_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516843_37, False);
+coraCall1(co, _3516840_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517171_37= co->res;
-Obj _3516701_37 = R[1];
-Obj _3516843_37 = R[2];
-if (True == _3517171_37) {
+Obj _3517168_37= co->res;
+Obj _3516698_37 = R[1];
+Obj _3516840_37 = R[2];
+if (True == _3517168_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516843_37, True);
+coraCall1(co, _3516840_37, True);
 return;
 } else {
-R[1] = _3516843_37;
+R[1] = _3516840_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516701_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), _3516698_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517169_37= co->res;
-Obj _3516701_37 = R[1];
-Obj _3516843_37 = R[2];
-if (True == _3517169_37) {
+Obj _3517166_37= co->res;
+Obj _3516698_37 = R[1];
+Obj _3516840_37 = R[2];
+if (True == _3517166_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516843_37, True);
+coraCall1(co, _3516840_37, True);
 return;
 } else {
-Obj _3517170_37 = primIsString(_3516701_37);
-if (True == _3517170_37) {
+Obj _3517167_37 = primIsString(_3516698_37);
+if (True == _3517167_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516843_37, True);
+coraCall1(co, _3516840_37, True);
 return;
 } else {
-R[1] = _3516701_37;
-R[2] = _3516843_37;
+R[1] = _3516698_37;
+R[2] = _3516840_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516701_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3516698_37);
 return;
 }
 }
@@ -7802,62 +7825,62 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516844_37 = R[1];
-if (True == _3516844_37) {
-Obj _3516980_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516981_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516980_37);
-coraReturn(co, _3516981_37);
-return;
-} else {
-Obj _3516703_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517156_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517156_37) {
-Obj _3517157_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517158_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517157_37);
-if (True == _3517158_37) {
-Obj _3517159_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517160_37 = PRIM_ISCONS(_3517159_37);
-if (True == _3517160_37) {
-Obj _3517161_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517162_37 = PRIM_CAR(_3517161_37);
-Obj x = _3517162_37;
-Obj _3517163_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517164_37 = PRIM_CDR(_3517163_37);
-Obj _3517165_37 = PRIM_EQ(Nil, _3517164_37);
-if (True == _3517165_37) {
+Obj _3516841_37 = R[1];
+if (True == _3516841_37) {
+Obj _3516977_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj _3516978_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, _3516977_37);
+coraReturn(co, _3516978_37);
+return;
+} else {
+Obj _3516700_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj _3517153_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517153_37) {
+Obj _3517154_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517155_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517154_37);
+if (True == _3517155_37) {
+Obj _3517156_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517157_37 = PRIM_ISCONS(_3517156_37);
+if (True == _3517157_37) {
+Obj _3517158_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517159_37 = PRIM_CAR(_3517158_37);
+Obj x = _3517159_37;
+Obj _3517160_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517161_37 = PRIM_CDR(_3517160_37);
+Obj _3517162_37 = PRIM_EQ(Nil, _3517161_37);
+if (True == _3517162_37) {
 R[1] = x;
 saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), x, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), x, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3516700_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517166_37= co->res;
+Obj _3517163_37= co->res;
 Obj x = R[1];
-Obj _3517167_37 = makeCons(co->gc, x, Nil);
-Obj _3517168_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517167_37);
-coraReturn(co, _3517168_37);
+Obj _3517164_37 = makeCons(co->gc, x, Nil);
+Obj _3517165_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, _3517164_37);
+coraReturn(co, _3517165_37);
 return;
 }
 }
@@ -7867,107 +7890,107 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516982_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516982_37) {
+Obj _3516979_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3516979_37) {
 saveCont(co, clofun18, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj _3516705_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517134_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517134_37) {
-Obj _3517135_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517136_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517135_37);
-if (True == _3517136_37) {
-Obj _3517137_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517138_37 = PRIM_ISCONS(_3517137_37);
-if (True == _3517138_37) {
-Obj _3517139_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517140_37 = PRIM_CAR(_3517139_37);
-Obj args = _3517140_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj _3516702_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517131_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517131_37) {
+Obj _3517132_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517133_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517132_37);
+if (True == _3517133_37) {
+Obj _3517134_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517135_37 = PRIM_ISCONS(_3517134_37);
+if (True == _3517135_37) {
+Obj _3517136_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517137_37 = PRIM_CAR(_3517136_37);
+Obj args = _3517137_37;
+Obj _3517138_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517139_37 = PRIM_CDR(_3517138_37);
+Obj _3517140_37 = PRIM_ISCONS(_3517139_37);
+if (True == _3517140_37) {
 Obj _3517141_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517142_37 = PRIM_CDR(_3517141_37);
-Obj _3517143_37 = PRIM_ISCONS(_3517142_37);
-if (True == _3517143_37) {
+Obj _3517143_37 = PRIM_CAR(_3517142_37);
+Obj body = _3517143_37;
 Obj _3517144_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517145_37 = PRIM_CDR(_3517144_37);
-Obj _3517146_37 = PRIM_CAR(_3517145_37);
-Obj body = _3517146_37;
-Obj _3517147_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517148_37 = PRIM_CDR(_3517147_37);
-Obj _3517149_37 = PRIM_CDR(_3517148_37);
-Obj _3517150_37 = PRIM_EQ(Nil, _3517149_37);
-if (True == _3517150_37) {
+Obj _3517146_37 = PRIM_CDR(_3517145_37);
+Obj _3517147_37 = PRIM_EQ(Nil, _3517146_37);
+if (True == _3517147_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun18, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), args, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), args, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, _3516702_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516984_37= co->res;
-Obj _3516985_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516986_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516985_37);
-coraReturn(co, _3516986_37);
+Obj _3516981_37= co->res;
+Obj _3516982_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3516983_37 = makeCons(co->gc, getBinding(co, packageID, 95).name, _3516982_37);
+coraReturn(co, _3516983_37);
 return;
 }
 case 2:
 {
-Obj _3516983_37= co->res;
-if (True == _3516983_37) {
+Obj _3516980_37= co->res;
+if (True == _3516980_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
 saveCont(co, clofun18, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), closureRef(R[0], 0), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 }
 case 3:
 {
-Obj _3517152_37= co->res;
+Obj _3517149_37= co->res;
 Obj args = R[1];
-Obj _3517153_37 = makeCons(co->gc, _3517152_37, Nil);
-Obj _3517154_37 = makeCons(co->gc, args, _3517153_37);
-Obj _3517155_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517154_37);
-coraReturn(co, _3517155_37);
+Obj _3517150_37 = makeCons(co->gc, _3517149_37, Nil);
+Obj _3517151_37 = makeCons(co->gc, args, _3517150_37);
+Obj _3517152_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517151_37);
+coraReturn(co, _3517152_37);
 return;
 }
 case 4:
 {
-Obj _3517151_37= co->res;
+Obj _3517148_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517151_37, closureRef(R[0], 2), body);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), _3517148_37, closureRef(R[0], 2), body);
 return;
 }
 }
@@ -7977,74 +8000,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516706_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517102_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517102_37) {
-Obj _3517103_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517104_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517103_37);
-if (True == _3517104_37) {
-Obj _3517105_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516703_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517099_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517099_37) {
+Obj _3517100_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517101_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517100_37);
+if (True == _3517101_37) {
+Obj _3517102_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517103_37 = PRIM_ISCONS(_3517102_37);
+if (True == _3517103_37) {
+Obj _3517104_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517105_37 = PRIM_CAR(_3517104_37);
 Obj _3517106_37 = PRIM_ISCONS(_3517105_37);
 if (True == _3517106_37) {
 Obj _3517107_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517108_37 = PRIM_CAR(_3517107_37);
-Obj _3517109_37 = PRIM_ISCONS(_3517108_37);
-if (True == _3517109_37) {
-Obj _3517110_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517111_37 = PRIM_CAR(_3517110_37);
+Obj _3517109_37 = PRIM_CAR(_3517108_37);
+Obj _3517110_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517109_37);
+if (True == _3517110_37) {
+Obj _3517111_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517112_37 = PRIM_CAR(_3517111_37);
-Obj _3517113_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517112_37);
-if (True == _3517113_37) {
+Obj _3517113_37 = PRIM_CDR(_3517112_37);
+Obj exp1 = _3517113_37;
 Obj _3517114_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517115_37 = PRIM_CAR(_3517114_37);
-Obj _3517116_37 = PRIM_CDR(_3517115_37);
-Obj exp1 = _3517116_37;
-Obj _3517117_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517118_37 = PRIM_CDR(_3517117_37);
-Obj exp2 = _3517118_37;
-Obj _3517119_37 = primGenSym(co);
-Obj f = _3517119_37;
-Obj _3517120_37 = primGenSym(co);
-Obj v = _3517120_37;
-Obj _3517121_37 = makeCons(co->gc, v, Nil);
-Obj _3517122_37 = makeCons(co->gc, v, exp2);
-Obj _3517123_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517122_37);
-Obj _3517124_37 = makeCons(co->gc, _3517123_37, Nil);
-Obj _3517125_37 = makeCons(co->gc, _3517121_37, _3517124_37);
-Obj _3517126_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517125_37);
-Obj _3517127_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
-Obj _3517128_37 = makeCons(co->gc, _3517127_37, Nil);
+Obj _3517115_37 = PRIM_CDR(_3517114_37);
+Obj exp2 = _3517115_37;
+Obj _3517116_37 = primGenSym(co);
+Obj f = _3517116_37;
+Obj _3517117_37 = primGenSym(co);
+Obj v = _3517117_37;
+Obj _3517118_37 = makeCons(co->gc, v, Nil);
+Obj _3517119_37 = makeCons(co->gc, v, exp2);
+Obj _3517120_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517119_37);
+Obj _3517121_37 = makeCons(co->gc, _3517120_37, Nil);
+Obj _3517122_37 = makeCons(co->gc, _3517118_37, _3517121_37);
+Obj _3517123_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517122_37);
+Obj _3517124_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
+Obj _3517125_37 = makeCons(co->gc, _3517124_37, Nil);
+Obj _3517126_37 = makeCons(co->gc, f, _3517125_37);
+Obj _3517127_37 = makeCons(co->gc, _3517126_37, Nil);
+Obj _3517128_37 = makeCons(co->gc, _3517123_37, _3517127_37);
 Obj _3517129_37 = makeCons(co->gc, f, _3517128_37);
-Obj _3517130_37 = makeCons(co->gc, _3517129_37, Nil);
-Obj _3517131_37 = makeCons(co->gc, _3517126_37, _3517130_37);
-Obj _3517132_37 = makeCons(co->gc, f, _3517131_37);
-Obj _3517133_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517132_37);
+Obj _3517130_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517129_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517133_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), _3517130_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, _3516703_37);
 return;
 }
 }
@@ -8055,42 +8078,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516707_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517095_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517095_37) {
-Obj _3517096_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517097_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517096_37);
-if (True == _3517097_37) {
-Obj _3517098_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517098_37;
+Obj _3516704_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517092_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517092_37) {
+Obj _3517093_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517094_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517093_37);
+if (True == _3517094_37) {
+Obj _3517095_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517095_37;
 R[1] = args;
 saveCont(co, clofun16, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, _3516704_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, _3516704_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517100_37= co->res;
-Obj _3517101_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517100_37);
-coraReturn(co, _3517101_37);
+Obj _3517097_37= co->res;
+Obj _3517098_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517097_37);
+coraReturn(co, _3517098_37);
 return;
 }
 case 2:
 {
-Obj _3517099_37= co->res;
+Obj _3517096_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517099_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517096_37, args);
 return;
 }
 }
@@ -8100,78 +8123,78 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516708_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517073_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517073_37) {
-Obj _3517074_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517075_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517074_37);
-if (True == _3517075_37) {
-Obj _3517076_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517077_37 = PRIM_ISCONS(_3517076_37);
-if (True == _3517077_37) {
-Obj _3517078_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517079_37 = PRIM_CAR(_3517078_37);
-Obj x = _3517079_37;
+Obj _3516705_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517070_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517070_37) {
+Obj _3517071_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517072_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517071_37);
+if (True == _3517072_37) {
+Obj _3517073_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517074_37 = PRIM_ISCONS(_3517073_37);
+if (True == _3517074_37) {
+Obj _3517075_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517076_37 = PRIM_CAR(_3517075_37);
+Obj x = _3517076_37;
+Obj _3517077_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517078_37 = PRIM_CDR(_3517077_37);
+Obj _3517079_37 = PRIM_ISCONS(_3517078_37);
+if (True == _3517079_37) {
 Obj _3517080_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517081_37 = PRIM_CDR(_3517080_37);
-Obj _3517082_37 = PRIM_ISCONS(_3517081_37);
-if (True == _3517082_37) {
+Obj _3517082_37 = PRIM_CAR(_3517081_37);
+Obj y = _3517082_37;
 Obj _3517083_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517084_37 = PRIM_CDR(_3517083_37);
-Obj _3517085_37 = PRIM_CAR(_3517084_37);
-Obj y = _3517085_37;
-Obj _3517086_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517087_37 = PRIM_CDR(_3517086_37);
-Obj _3517088_37 = PRIM_CDR(_3517087_37);
-Obj _3517089_37 = PRIM_EQ(Nil, _3517088_37);
-if (True == _3517089_37) {
+Obj _3517085_37 = PRIM_CDR(_3517084_37);
+Obj _3517086_37 = PRIM_EQ(Nil, _3517085_37);
+if (True == _3517086_37) {
 R[1] = y;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), x);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3516705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3516705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3516705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3516705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3516705_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517091_37= co->res;
-Obj _3517090_37 = R[1];
-Obj _3517092_37 = makeCons(co->gc, _3517091_37, Nil);
-Obj _3517093_37 = makeCons(co->gc, _3517090_37, _3517092_37);
-Obj _3517094_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517093_37);
-coraReturn(co, _3517094_37);
+Obj _3517088_37= co->res;
+Obj _3517087_37 = R[1];
+Obj _3517089_37 = makeCons(co->gc, _3517088_37, Nil);
+Obj _3517090_37 = makeCons(co->gc, _3517087_37, _3517089_37);
+Obj _3517091_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517090_37);
+coraReturn(co, _3517091_37);
 return;
 }
 case 2:
 {
-Obj _3517090_37= co->res;
+Obj _3517087_37= co->res;
 Obj y = R[1];
-R[1] = _3517090_37;
+R[1] = _3517087_37;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), y);
 return;
 }
 }
@@ -8181,100 +8204,100 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516709_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517040_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517040_37) {
-Obj _3517041_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517042_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517041_37);
-if (True == _3517042_37) {
-Obj _3517043_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517044_37 = PRIM_ISCONS(_3517043_37);
-if (True == _3517044_37) {
-Obj _3517045_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517046_37 = PRIM_CAR(_3517045_37);
-Obj a = _3517046_37;
+Obj _3516706_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517037_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517037_37) {
+Obj _3517038_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517039_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517038_37);
+if (True == _3517039_37) {
+Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517041_37 = PRIM_ISCONS(_3517040_37);
+if (True == _3517041_37) {
+Obj _3517042_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517043_37 = PRIM_CAR(_3517042_37);
+Obj a = _3517043_37;
+Obj _3517044_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517045_37 = PRIM_CDR(_3517044_37);
+Obj _3517046_37 = PRIM_ISCONS(_3517045_37);
+if (True == _3517046_37) {
 Obj _3517047_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517048_37 = PRIM_CDR(_3517047_37);
-Obj _3517049_37 = PRIM_ISCONS(_3517048_37);
-if (True == _3517049_37) {
+Obj _3517049_37 = PRIM_CAR(_3517048_37);
+Obj b = _3517049_37;
 Obj _3517050_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517051_37 = PRIM_CDR(_3517050_37);
-Obj _3517052_37 = PRIM_CAR(_3517051_37);
-Obj b = _3517052_37;
-Obj _3517053_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517054_37 = PRIM_CDR(_3517053_37);
+Obj _3517052_37 = PRIM_CDR(_3517051_37);
+Obj _3517053_37 = PRIM_ISCONS(_3517052_37);
+if (True == _3517053_37) {
+Obj _3517054_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517055_37 = PRIM_CDR(_3517054_37);
-Obj _3517056_37 = PRIM_ISCONS(_3517055_37);
-if (True == _3517056_37) {
-Obj _3517057_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517058_37 = PRIM_CDR(_3517057_37);
+Obj _3517056_37 = PRIM_CDR(_3517055_37);
+Obj _3517057_37 = PRIM_CAR(_3517056_37);
+Obj c = _3517057_37;
+Obj _3517058_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517059_37 = PRIM_CDR(_3517058_37);
-Obj _3517060_37 = PRIM_CAR(_3517059_37);
-Obj c = _3517060_37;
-Obj _3517061_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517062_37 = PRIM_CDR(_3517061_37);
-Obj _3517063_37 = PRIM_CDR(_3517062_37);
-Obj _3517064_37 = PRIM_CDR(_3517063_37);
-Obj _3517065_37 = PRIM_EQ(Nil, _3517064_37);
-if (True == _3517065_37) {
+Obj _3517060_37 = PRIM_CDR(_3517059_37);
+Obj _3517061_37 = PRIM_CDR(_3517060_37);
+Obj _3517062_37 = PRIM_EQ(Nil, _3517061_37);
+if (True == _3517062_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3516706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3516706_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517068_37= co->res;
-Obj _3517066_37 = R[1];
+Obj _3517065_37= co->res;
+Obj _3517063_37 = R[1];
 Obj a = R[2];
-Obj _3517069_37 = makeCons(co->gc, _3517068_37, Nil);
-Obj _3517070_37 = makeCons(co->gc, _3517066_37, _3517069_37);
-Obj _3517071_37 = makeCons(co->gc, a, _3517070_37);
-Obj _3517072_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517071_37);
-coraReturn(co, _3517072_37);
+Obj _3517066_37 = makeCons(co->gc, _3517065_37, Nil);
+Obj _3517067_37 = makeCons(co->gc, _3517063_37, _3517066_37);
+Obj _3517068_37 = makeCons(co->gc, a, _3517067_37);
+Obj _3517069_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517068_37);
+coraReturn(co, _3517069_37);
 return;
 }
 case 2:
 {
-Obj _3517066_37= co->res;
+Obj _3517063_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3517067_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3517066_37;
+Obj _3517064_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3517063_37;
 R[2] = a;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517067_37, closureRef(R[0], 2), c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), _3517064_37, closureRef(R[0], 2), c);
 return;
 }
 }
@@ -8284,85 +8307,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516710_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517008_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517008_37) {
-Obj _3517009_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517010_37 = PRIM_ISCONS(_3517009_37);
+Obj _3516707_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517005_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517005_37) {
+Obj _3517006_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517007_37 = PRIM_ISCONS(_3517006_37);
+if (True == _3517007_37) {
+Obj _3517008_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517009_37 = PRIM_CAR(_3517008_37);
+Obj _3517010_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517009_37);
 if (True == _3517010_37) {
 Obj _3517011_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517012_37 = PRIM_CAR(_3517011_37);
-Obj _3517013_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517012_37);
-if (True == _3517013_37) {
-Obj _3517014_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517015_37 = PRIM_CDR(_3517014_37);
-Obj exp1 = _3517015_37;
-Obj _3517016_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517012_37 = PRIM_CDR(_3517011_37);
+Obj exp1 = _3517012_37;
+Obj _3517013_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517014_37 = PRIM_ISCONS(_3517013_37);
+if (True == _3517014_37) {
+Obj _3517015_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517016_37 = PRIM_CAR(_3517015_37);
 Obj _3517017_37 = PRIM_ISCONS(_3517016_37);
 if (True == _3517017_37) {
 Obj _3517018_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517019_37 = PRIM_CAR(_3517018_37);
-Obj _3517020_37 = PRIM_ISCONS(_3517019_37);
-if (True == _3517020_37) {
-Obj _3517021_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517022_37 = PRIM_CAR(_3517021_37);
+Obj _3517020_37 = PRIM_CAR(_3517019_37);
+Obj _3517021_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517020_37);
+if (True == _3517021_37) {
+Obj _3517022_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3517023_37 = PRIM_CAR(_3517022_37);
-Obj _3517024_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517023_37);
-if (True == _3517024_37) {
+Obj _3517024_37 = PRIM_CDR(_3517023_37);
+Obj exp2 = _3517024_37;
 Obj _3517025_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517026_37 = PRIM_CAR(_3517025_37);
-Obj _3517027_37 = PRIM_CDR(_3517026_37);
-Obj exp2 = _3517027_37;
-Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517029_37 = PRIM_CDR(_3517028_37);
-Obj _3517030_37 = PRIM_EQ(Nil, _3517029_37);
-if (True == _3517030_37) {
-Obj _3517031_37 = primGenSym(co);
-Obj f = _3517031_37;
-Obj _3517032_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3517033_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
-Obj _3517034_37 = makeCons(co->gc, _3517033_37, Nil);
+Obj _3517026_37 = PRIM_CDR(_3517025_37);
+Obj _3517027_37 = PRIM_EQ(Nil, _3517026_37);
+if (True == _3517027_37) {
+Obj _3517028_37 = primGenSym(co);
+Obj f = _3517028_37;
+Obj _3517029_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, exp1);
+Obj _3517030_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp2);
+Obj _3517031_37 = makeCons(co->gc, _3517030_37, Nil);
+Obj _3517032_37 = makeCons(co->gc, f, _3517031_37);
+Obj _3517033_37 = makeCons(co->gc, _3517032_37, Nil);
+Obj _3517034_37 = makeCons(co->gc, _3517029_37, _3517033_37);
 Obj _3517035_37 = makeCons(co->gc, f, _3517034_37);
-Obj _3517036_37 = makeCons(co->gc, _3517035_37, Nil);
-Obj _3517037_37 = makeCons(co->gc, _3517032_37, _3517036_37);
-Obj _3517038_37 = makeCons(co->gc, f, _3517037_37);
-Obj _3517039_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517038_37);
+Obj _3517036_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517035_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517039_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), _3517036_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516707_37);
 return;
 }
 }
@@ -8373,126 +8396,126 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516711_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516988_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516988_37) {
-Obj _3516989_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516989_37;
-Obj _3516990_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516990_37;
+Obj _3516708_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj _3516985_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516985_37) {
+Obj _3516986_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3516986_37;
+Obj _3516987_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3516987_37;
 R[1] = op;
 R[2] = args;
-R[3] = _3516711_37;
+R[3] = _3516708_37;
 saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516711_37);
+coraCall0(co, _3516708_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516998_37= co->res;
-Obj _3516996_37 = R[1];
-Obj _3516999_37 = makeCons(co->gc, _3516996_37, _3516998_37);
-coraReturn(co, _3516999_37);
+Obj _3516995_37= co->res;
+Obj _3516993_37 = R[1];
+Obj _3516996_37 = makeCons(co->gc, _3516993_37, _3516995_37);
+coraReturn(co, _3516996_37);
 return;
 }
 case 2:
 {
-Obj _3516997_37= co->res;
+Obj _3516994_37= co->res;
 Obj args = R[1];
-Obj _3516996_37 = R[2];
-R[1] = _3516996_37;
+Obj _3516993_37 = R[2];
+R[1] = _3516993_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516997_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3516994_37, args);
 return;
 }
 case 3:
 {
-Obj _3517004_37= co->res;
+Obj _3517001_37= co->res;
 Obj tmp = R[1];
-Obj _3517005_37 = makeCons(co->gc, _3517004_37, Nil);
-Obj _3517006_37 = makeCons(co->gc, tmp, _3517005_37);
-Obj _3517007_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517006_37);
+Obj _3517002_37 = makeCons(co->gc, _3517001_37, Nil);
+Obj _3517003_37 = makeCons(co->gc, tmp, _3517002_37);
+Obj _3517004_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517003_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517007_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), _3517004_37);
 return;
 }
 case 4:
 {
-Obj _3517002_37= co->res;
+Obj _3516999_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj tmp = _3517002_37;
-Obj _3517003_37 = makeCons(co->gc, op, args);
+Obj tmp = _3516999_37;
+Obj _3517000_37 = makeCons(co->gc, op, args);
 R[1] = tmp;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3517003_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), _3517000_37, tmp);
 return;
 }
 case 5:
 {
-Obj _3516993_37= co->res;
+Obj _3516990_37= co->res;
 Obj required = R[1];
 Obj op = R[2];
 Obj args = R[3];
-Obj provided = _3516993_37;
-Obj _3516994_37 = PRIM_EQ(required, provided);
-if (True == _3516994_37) {
-Obj _3516995_37 = makeCons(co->gc, op, Nil);
-Obj _3516996_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516995_37);
+Obj provided = _3516990_37;
+Obj _3516991_37 = PRIM_EQ(required, provided);
+if (True == _3516991_37) {
+Obj _3516992_37 = makeCons(co->gc, op, Nil);
+Obj _3516993_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3516992_37);
 R[1] = args;
-R[2] = _3516996_37;
+R[2] = _3516993_37;
 saveCont(co, clofun12, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3517000_37 = PRIM_GT(required, provided);
-if (True == _3517000_37) {
-Obj _3517001_37 = PRIM_SUB(required, provided);
+Obj _3516997_37 = PRIM_GT(required, provided);
+if (True == _3516997_37) {
+Obj _3516998_37 = PRIM_SUB(required, provided);
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3517001_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3516998_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "primitive call mismatch"));
 return;
 }
 }
 }
 case 6:
 {
-Obj _3516992_37= co->res;
+Obj _3516989_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj required = _3516992_37;
+Obj required = _3516989_37;
 R[1] = required;
 R[2] = op;
 R[3] = args;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), args);
 return;
 }
 case 7:
 {
-Obj _3516991_37= co->res;
+Obj _3516988_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj _3516711_37 = R[3];
-if (True == _3516991_37) {
+Obj _3516708_37 = R[3];
+if (True == _3516988_37) {
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516711_37);
+coraCall0(co, _3516708_37);
 return;
 }
 }
@@ -8504,14 +8527,14 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj _3516987_37= co->res;
+Obj _3516984_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516987_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3516984_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8521,18 +8544,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516695_37 = R[1];
-Obj _3516696_37 = R[2];
-Obj _3516975_37 = PRIM_EQ(MAKE_NUMBER(0), _3516695_37);
-if (True == _3516975_37) {
-coraReturn(co, _3516696_37);
+Obj _3516692_37 = R[1];
+Obj _3516693_37 = R[2];
+Obj _3516972_37 = PRIM_EQ(MAKE_NUMBER(0), _3516692_37);
+if (True == _3516972_37) {
+coraReturn(co, _3516693_37);
 return;
 } else {
-Obj _3516976_37 = PRIM_SUB(_3516695_37, MAKE_NUMBER(1));
-Obj _3516977_37 = primGenSym(co);
-Obj _3516978_37 = makeCons(co->gc, _3516977_37, _3516696_37);
+Obj _3516973_37 = PRIM_SUB(_3516692_37, MAKE_NUMBER(1));
+Obj _3516974_37 = primGenSym(co);
+Obj _3516975_37 = makeCons(co->gc, _3516974_37, _3516693_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516976_37, _3516978_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3516973_37, _3516975_37);
 return;
 }
 }
@@ -8545,29 +8568,29 @@ case 0:
 {
 Obj x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj _3516973_37= co->res;
+Obj _3516970_37= co->res;
 Obj find = R[1];
-if (True == _3516973_37) {
+if (True == _3516970_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), find);
 return;
 }
 }
 case 2:
 {
-Obj _3516972_37= co->res;
-Obj find = _3516972_37;
+Obj _3516969_37= co->res;
+Obj find = _3516969_37;
 R[1] = find;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), find);
 return;
 }
 }
@@ -8579,29 +8602,29 @@ case 0:
 {
 Obj x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj _3516970_37= co->res;
+Obj _3516967_37= co->res;
 Obj find = R[1];
-if (True == _3516970_37) {
+if (True == _3516967_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
 return;
 }
 }
 case 2:
 {
-Obj _3516969_37= co->res;
-Obj find = _3516969_37;
+Obj _3516966_37= co->res;
+Obj find = _3516966_37;
 R[1] = find;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), find);
 return;
 }
 }
@@ -8613,21 +8636,21 @@ case 0:
 {
 Obj x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj _3516966_37= co->res;
-Obj _3516967_37 = primNot(_3516966_37);
-coraReturn(co, _3516967_37);
+Obj _3516963_37= co->res;
+Obj _3516964_37 = primNot(_3516963_37);
+coraReturn(co, _3516964_37);
 return;
 }
 case 2:
 {
-Obj _3516965_37= co->res;
+Obj _3516962_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516965_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), _3516962_37);
 return;
 }
 }
@@ -8637,40 +8660,40 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516691_37 = R[1];
-Obj _3516692_37 = R[2];
-Obj _3516889_37 = PRIM_EQ(Nil, _3516692_37);
-if (True == _3516889_37) {
+Obj _3516688_37 = R[1];
+Obj _3516689_37 = R[2];
+Obj _3516886_37 = PRIM_EQ(Nil, _3516689_37);
+if (True == _3516886_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516890_37 = PRIM_ISCONS(_3516692_37);
-if (True == _3516890_37) {
-Obj _3516891_37 = PRIM_CAR(_3516692_37);
-Obj hd = _3516891_37;
-Obj _3516892_37 = PRIM_CDR(_3516692_37);
-Obj tl = _3516892_37;
-R[1] = _3516691_37;
+Obj _3516887_37 = PRIM_ISCONS(_3516689_37);
+if (True == _3516887_37) {
+Obj _3516888_37 = PRIM_CAR(_3516689_37);
+Obj hd = _3516888_37;
+Obj _3516889_37 = PRIM_CDR(_3516689_37);
+Obj tl = _3516889_37;
+R[1] = _3516688_37;
 R[2] = tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516691_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), _3516688_37, hd);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516893_37= co->res;
-Obj _3516691_37 = R[1];
+Obj _3516890_37= co->res;
+Obj _3516688_37 = R[1];
 Obj tl = R[2];
-Obj _3516894_37 = PRIM_LT(_3516893_37, MAKE_NUMBER(0));
-if (True == _3516894_37) {
+Obj _3516891_37 = PRIM_LT(_3516890_37, MAKE_NUMBER(0));
+if (True == _3516891_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516691_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), _3516688_37, tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8687,7 +8710,7 @@ case 0:
 Obj x = R[1];
 Obj l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), x, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), MAKE_NUMBER(0), x, l);
 return;
 }
 }
@@ -8697,32 +8720,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516685_37 = R[1];
-Obj _3516686_37 = R[2];
-Obj _3516687_37 = R[3];
-Obj _3516878_37 = PRIM_EQ(Nil, _3516687_37);
-if (True == _3516878_37) {
+Obj _3516682_37 = R[1];
+Obj _3516683_37 = R[2];
+Obj _3516684_37 = R[3];
+Obj _3516875_37 = PRIM_EQ(Nil, _3516684_37);
+if (True == _3516875_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516689_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516687_37, _3516685_37, _3516686_37);
-Obj _3516883_37 = PRIM_ISCONS(_3516687_37);
+Obj _3516686_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516684_37, _3516682_37, _3516683_37);
+Obj _3516880_37 = PRIM_ISCONS(_3516684_37);
+if (True == _3516880_37) {
+Obj _3516881_37 = PRIM_CAR(_3516684_37);
+Obj a = _3516881_37;
+Obj _3516882_37 = PRIM_CDR(_3516684_37);
+Obj _3516883_37 = PRIM_EQ(_3516683_37, a);
 if (True == _3516883_37) {
-Obj _3516884_37 = PRIM_CAR(_3516687_37);
-Obj a = _3516884_37;
-Obj _3516885_37 = PRIM_CDR(_3516687_37);
-Obj _3516886_37 = PRIM_EQ(_3516686_37, a);
-if (True == _3516886_37) {
-coraReturn(co, _3516685_37);
+coraReturn(co, _3516682_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516689_37);
+coraCall0(co, _3516686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516689_37);
+coraCall0(co, _3516686_37);
 return;
 }
 }
@@ -8734,18 +8757,18 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516879_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516879_37) {
-Obj _3516880_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516881_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516881_37;
-Obj _3516882_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj _3516876_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516876_37) {
+Obj _3516877_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516878_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj b = _3516878_37;
+Obj _3516879_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516882_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), _3516879_37, closureRef(R[0], 2), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8756,39 +8779,39 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516680_37 = R[1];
-Obj _3516681_37 = R[2];
-Obj _3516682_37 = R[3];
-Obj _3516872_37 = PRIM_EQ(Nil, _3516682_37);
-if (True == _3516872_37) {
-coraReturn(co, _3516681_37);
+Obj _3516677_37 = R[1];
+Obj _3516678_37 = R[2];
+Obj _3516679_37 = R[3];
+Obj _3516869_37 = PRIM_EQ(Nil, _3516679_37);
+if (True == _3516869_37) {
+coraReturn(co, _3516678_37);
 return;
 } else {
-Obj _3516873_37 = PRIM_ISCONS(_3516682_37);
-if (True == _3516873_37) {
-Obj _3516874_37 = PRIM_CAR(_3516682_37);
-Obj x = _3516874_37;
-Obj _3516875_37 = PRIM_CDR(_3516682_37);
-Obj y = _3516875_37;
-R[1] = _3516680_37;
+Obj _3516870_37 = PRIM_ISCONS(_3516679_37);
+if (True == _3516870_37) {
+Obj _3516871_37 = PRIM_CAR(_3516679_37);
+Obj x = _3516871_37;
+Obj _3516872_37 = PRIM_CDR(_3516679_37);
+Obj y = _3516872_37;
+R[1] = _3516677_37;
 R[2] = y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516680_37, _3516681_37, x);
+coraCall2(co, _3516677_37, _3516678_37, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516876_37= co->res;
-Obj _3516680_37 = R[1];
+Obj _3516873_37= co->res;
+Obj _3516677_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516680_37, _3516876_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), _3516677_37, _3516873_37, y);
 return;
 }
 }
@@ -8798,44 +8821,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516675_37 = R[1];
-Obj _3516676_37 = R[2];
-Obj _3516857_37 = PRIM_EQ(Nil, _3516676_37);
-if (True == _3516857_37) {
+Obj _3516672_37 = R[1];
+Obj _3516673_37 = R[2];
+Obj _3516854_37 = PRIM_EQ(Nil, _3516673_37);
+if (True == _3516854_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516678_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516676_37, _3516675_37);
-Obj _3516861_37 = PRIM_ISCONS(_3516676_37);
-if (True == _3516861_37) {
-Obj _3516862_37 = PRIM_CAR(_3516676_37);
-Obj _3516863_37 = PRIM_ISCONS(_3516862_37);
-if (True == _3516863_37) {
-Obj _3516864_37 = PRIM_CAR(_3516676_37);
-Obj _3516865_37 = PRIM_CAR(_3516864_37);
-Obj x = _3516865_37;
-Obj _3516866_37 = PRIM_CAR(_3516676_37);
-Obj _3516867_37 = PRIM_CDR(_3516866_37);
-Obj y = _3516867_37;
-Obj _3516868_37 = PRIM_CDR(_3516676_37);
-Obj _3516869_37 = PRIM_EQ(_3516675_37, x);
-if (True == _3516869_37) {
-Obj _3516870_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516870_37);
+Obj _3516675_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516673_37, _3516672_37);
+Obj _3516858_37 = PRIM_ISCONS(_3516673_37);
+if (True == _3516858_37) {
+Obj _3516859_37 = PRIM_CAR(_3516673_37);
+Obj _3516860_37 = PRIM_ISCONS(_3516859_37);
+if (True == _3516860_37) {
+Obj _3516861_37 = PRIM_CAR(_3516673_37);
+Obj _3516862_37 = PRIM_CAR(_3516861_37);
+Obj x = _3516862_37;
+Obj _3516863_37 = PRIM_CAR(_3516673_37);
+Obj _3516864_37 = PRIM_CDR(_3516863_37);
+Obj y = _3516864_37;
+Obj _3516865_37 = PRIM_CDR(_3516673_37);
+Obj _3516866_37 = PRIM_EQ(_3516672_37, x);
+if (True == _3516866_37) {
+Obj _3516867_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3516867_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516675_37);
 return;
 }
 }
@@ -8847,17 +8870,17 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516858_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516858_37) {
-Obj _3516859_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516860_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516860_37;
+Obj _3516855_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516855_37) {
+Obj _3516856_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516857_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3516857_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), closureRef(R[0], 1), y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index 26c3ed1..7f43f42 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -617,8 +617,10 @@
 				      ;; (display "import ==")
 				      ;; (display pkg)
 				      ;; (display "\n\n")
-				      (handle-import-eagerly remain))
-	_ => ())
+				      (if (elem? pkg cora/init#*imported*)
+					  (handle-import-eagerly remain)
+					  false))
+	_ => true)
 
   (func split-type-and-code
 	[] type code k => (k (reverse type) (reverse code))
@@ -660,24 +662,30 @@
 
   (defun preprocess (file-path)
     (let sexp (read-file-as-sexp file-path)
-      (let sexp1 (if (and (pair? sexp) (= 'begin (car sexp)))
-		     (cdr sexp)
-		     (cons sexp ()))
-	(begin
-	  (handle-import-eagerly sexp)
-	  (split-type-and-code-toplevel sexp)))))
+      ;; false: the file can't be read, or a package it needs can't be imported
+      (if (and (pair? sexp) (handle-import-eagerly sexp))
+	  (split-type-and-code-toplevel sexp)
+	  false)))
 
-  (defun compile-to-c (from to)
+  (defun compile-exp-to-c (exp to)
     (let globals (gensym)
       (begin
 	(set globals ())
-	(let bc (-> from
-		    preprocess
+	(let bc (-> exp
 		    macroexpand
 		    (compile globals))
 	  (let stream (open-output-file to)
-	    (begin
-	      (generate-c stream bc (value globals))
-	      (close-output-file stream)))))))
+	    (if (null? stream)
+		false
+		(begin
+		 (generate-c stream bc (value globals))
+		 (= 0 (close-output-file stream)))))))))
+
+  ;; true if the C file is complete
+  (defun compile-to-c (from to)
+    (let exp (preprocess from)
+      (if (pair? exp)
+	  (compile-exp-to-c exp to)
+	  false)))
 
   )
diff --git a/src/runtime.c b/src/runtime.c
index b19b63f..3f48cae 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -334,6 +334,21 @@ packageIDAlloc() {
 	return packageID++;
 }
 
+// Loading pkg, or a file when pkg is not a package, failed. When it was imported,
+// it is not marked as imported any more, so the next import tries again.
+static void
+loadFailed(Cora *co, Obj pkg, int code) {
+	Binding bind = bindSymbol(co, intern("cora/init#*imported*"));
+	Obj imported = Nil;
+	for (Obj p = globalRef(co, bind); p != Nil; p = cdr(p)) {
+		if (!eq(car(p), pkg)) {
+			imported = makeCons(co->gc, car(p), imported);
+		}
+	}
+	globalSet(co, bind, reverse(co->gc, imported));
+	coraReturn(co, makeNumber(code));
+}
+
 void
 builtinLoadSo(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinLoadSo");
@@ -344,7 +359,7 @@ builtinLoadSo(Cora *co, int label, Obj *R) {
 	void *handle = dlopen(path, RTLD_LAZY);
 	if (!handle) {
 		fprintf(stderr, "%s\n", dlerror());
-		coraReturn(co, makeNumber(-1));
+		loadFailed(co, R[2], -1);
 		return;
 	}
 	// printf("builtin load so ... dlopen for path %s return handle=%p\n", path,
@@ -353,8 +368,9 @@ builtinLoadSo(Cora *co, int label, Obj *R) {
 	basicBlock entry = dlsym(handle, "entry");
 	char *error = dlerror();
 	if (error != NULL) {
-		// TODO
-		coraReturn(co, makeString(co->gc, error, strlen(error)));
+		fprintf(stderr, "%s\n", error);
+		dlclose(handle);
+		loadFailed(co, R[2], -1);
 		return;
 	}
 	// A tail call. The entry must not run in a coraRun of its own: a throw out of the
@@ -429,8 +445,10 @@ loadCompiled(Cora *co, int label, Obj *R) {
 	int cfileidx = fixnum(R[2]);
 	const int BUFSIZE = 512;
 	char buf[BUFSIZE];
-	// TODO: check res?
-	// Obj res = co->args[1];
+	if (co->res != True) {
+		loadFailed(co, R[3], -1);
+		return;
+	}
 
 	strBuf tmp;
 	strBuf path = getCoraPath();
@@ -451,24 +469,23 @@ loadCompiled(Cora *co, int label, Obj *R) {
 	strFree(path);
 	int exitCode = system(buf);
 	if (exitCode != 0) {
-		coraReturn(co, makeNumber(exitCode));
+		strFree(tmp);
+		loadFailed(co, R[3], exitCode);
 		return;
 	}
 
 	Obj arg1 = makeCString(co->gc, toCStr(tmp));
 	strFree(tmp);
-	Obj arg2 = makeCString(co->gc, "");
-	Obj fn = globalRef(co, bindSymbol(co, intern("load-so")));
+	Obj arg2 = R[3];
+	Obj fn = makeNative(co->gc, 3, builtinLoadSo, 2, 0);
 	co->ctx.sp = R;
 	coraCall2(co, fn, arg1, arg2);
 	return;
 }
 
+// Load a file as a tail call: the frame R is given back.
 static void
-builtinLoad(Cora *co, int label, Obj *R) {
-	TRACE_SCOPE("builtinLoad");
-	// (load "file-path.cora")
-	Obj filePath = R[1];
+load(Cora *co, Obj *R, Obj filePath, Obj pkg) {
 	const int BUFSIZE = 512;
 	char buf[BUFSIZE];
 	int cfileidx = unique;
@@ -479,16 +496,24 @@ builtinLoad(Cora *co, int label, Obj *R) {
 
 	// The frame keeps what loadCompiled needs.
 	co->ctx.sp = R;
-	R = stackAlloc(co, 3);
+	R = stackAlloc(co, 4);
 	R[0] = Nil;
 	R[1] = filePath;
 	R[2] = makeNumber(cfileidx);
+	R[3] = pkg;
 	saveCont(co, loadCompiled, 0, R);
 	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
 	Obj fn = globalRef(co, bind);
 	coraCall2(co, fn, filePath, arg2);
 }
 
+static void
+builtinLoad(Cora *co, int label, Obj *R) {
+	TRACE_SCOPE("builtinLoad");
+	// (load "file-path.cora")
+	load(co, R, R[1], makeCString(co->gc, ""));
+}
+
 static bool
 safeToUseSo(strBuf soFilePath) {
 	if (0 != access(toCStr(soFilePath), R_OK)) {
@@ -577,8 +602,7 @@ builtinImport(Cora *co, int label, Obj *R) {
 	Obj filePath = makeString(co->gc, tmp1.str, tmp1.len);
 	strFree(tmp);
 
-	co->ctx.bp = R;
-	coraCall2(co, makeNative(co->gc, 3, builtinLoad, 2, 0), filePath, pkg);
+	load(co, R, filePath, pkg);
 }
 
 static void
@@ -628,7 +652,8 @@ void
 builtinReadFileAsSexp(Cora *co, int label, Obj *R) {
 	Obj arg = R[1];
 	assert(isBytes(arg));
-	Obj result = Nil;
+	// A file that can't be read is false, which no file is read as.
+	Obj result = False;
 	char *fileName = stringStr(arg).str;
 	FILE *f = fopen(fileName, "r");
 	if (f == NULL) {
@@ -637,16 +662,20 @@ builtinReadFileAsSexp(Cora *co, int label, Obj *R) {
 	}
 
 	int err = 0;
-	int count = 0;
+	result = Nil;
 	while (true) {
 		Obj ast = sexpRead(co->gc, f, &err);
 		if (err != 0) {
 			break;
 		}
 		result = makeCons(co->gc, ast, result);
-		count++;
 	}
-	if (count > 1) {
+	if (ferror(f)) {
+		printf("read file fail %s\n", fileName);
+		result = False;
+	} else if (result == Nil) {
+		result = makeCons(co->gc, intern("begin"), makeCons(co->gc, Nil, Nil));
+	} else if (cdr(result) != Nil || !iscons(car(result))) {
 		result = reverse(co->gc, result);
 		result = makeCons(co->gc, intern("begin"), result);
 	} else {
-- 
2.43.0


From c8ce7b6f85d38accccce5290a28f59db3f844e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 28/63] fix: load does not share its temporary files with other
 processes

Two processes that compiled at the same time wrote the same /tmp/cora-xxx-1.c,
and one could compile and load what the other had written. The files are also
removed now, since their names are not used again. The gcc command is not cut
off at 511 bytes any more.
---
 src/runtime.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 3f48cae..8e4f9e5 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -442,10 +442,9 @@ static void
 loadCompiled(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("loadCompiled");
 	str filePathStr = stringStr(R[1]);
-	int cfileidx = fixnum(R[2]);
-	const int BUFSIZE = 512;
-	char buf[BUFSIZE];
+	char *tmpCFile = stringStr(R[2]).str;
 	if (co->res != True) {
+		unlink(tmpCFile);
 		loadFailed(co, R[3], -1);
 		return;
 	}
@@ -458,16 +457,21 @@ loadCompiled(Cora *co, int label, Obj *R) {
 		tmp = strCat(tmp, strSub(filePathStr, 0, strLen(filePathStr) - 5));
 		tmp = strCat(tmp, S(".so"));
 	} else {
-		tmp = strNew(30);
-		snprintf(toCStr(tmp), 30, "/tmp/cora-xxx-%d.so", cfileidx);
+		tmp = fromCStr(tmpCFile);
+		tmp = strShrink(tmp, 2);
+		tmp = strCat(tmp, S(".so"));
 	}
 
-	snprintf(buf, BUFSIZE,
-		"gcc -shared -I%s -g -fPIC /tmp/cora-xxx-%d.c -o "
+	int bufSize = 2 * strlen(coraSrcDir) + strlen(tmpCFile) +
+		strLen(toStr(tmp)) + 128;
+	char buf[bufSize];
+	snprintf(buf, bufSize,
+		"gcc -shared -I%s -g -fPIC %s -o "
 		"%s -ldl -lm -L%s -lcora",
-		coraSrcDir, cfileidx, toCStr(tmp), coraSrcDir);
+		coraSrcDir, tmpCFile, toCStr(tmp), coraSrcDir);
 	strFree(path);
 	int exitCode = system(buf);
+	unlink(tmpCFile);
 	if (exitCode != 0) {
 		strFree(tmp);
 		loadFailed(co, R[3], exitCode);
@@ -490,7 +494,8 @@ load(Cora *co, Obj *R, Obj filePath, Obj pkg) {
 	char buf[BUFSIZE];
 	int cfileidx = unique;
 	unique++;
-	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", cfileidx);
+	// Other processes use the same directory.
+	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d-%d.c", (int)getpid(), cfileidx);
 	str tmpCFile = cstr(buf);
 	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
 
@@ -499,7 +504,7 @@ load(Cora *co, Obj *R, Obj filePath, Obj pkg) {
 	R = stackAlloc(co, 4);
 	R[0] = Nil;
 	R[1] = filePath;
-	R[2] = makeNumber(cfileidx);
+	R[2] = arg2;
 	R[3] = pkg;
 	saveCont(co, loadCompiled, 0, R);
 	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
-- 
2.43.0


From 7d32ea5dc6e57a2349131e3d4b9da9ec141301f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 29/63] fix: the .so of a package appears when it is complete,
 and is the one that is loaded

gcc wrote the .so in its final place: another process could load it half
written, and a crash left it there for good. Loading a file a second time
after an edit ran the old code, since dlopen knows the name. The .so is put
beside files in CORAPATH only, as intended, not beside every file whose path
compares greater.
---
 src/runtime.c | 65 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 8e4f9e5..e70220f 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -349,21 +349,15 @@ loadFailed(Cora *co, Obj pkg, int code) {
 	coraReturn(co, makeNumber(code));
 }
 
-void
-builtinLoadSo(Cora *co, int label, Obj *R) {
-	TRACE_SCOPE("builtinLoadSo");
-	// (load-so "file-path.so" "package-path")
-	Obj filePath = R[1];
-	str str = stringStr(filePath);
-	char *path = str.str;
-	void *handle = dlopen(path, RTLD_LAZY);
+// Run the entry of a .so as a tail call, in the frame of
+// (load-so "file-path.so" "package-path")
+static void
+runSo(Cora *co, void *handle, Obj *R) {
 	if (!handle) {
 		fprintf(stderr, "%s\n", dlerror());
 		loadFailed(co, R[2], -1);
 		return;
 	}
-	// printf("builtin load so ... dlopen for path %s return handle=%p\n", path,
-	// handle);
 
 	basicBlock entry = dlsym(handle, "entry");
 	char *error = dlerror();
@@ -379,6 +373,19 @@ builtinLoadSo(Cora *co, int label, Obj *R) {
 	co->ctx.label = 0;
 }
 
+void
+builtinLoadSo(Cora *co, int label, Obj *R) {
+	TRACE_SCOPE("builtinLoadSo");
+	// (load-so "file-path.so" "package-path")
+	Obj filePath = R[1];
+	str str = stringStr(filePath);
+	char *path = str.str;
+	void *handle = dlopen(path, RTLD_LAZY);
+	// printf("builtin load so ... dlopen for path %s return handle=%p\n", path,
+	// handle);
+	runSo(co, handle, R);
+}
+
 static int
 listLen(Obj l) {
 	int c = 0;
@@ -450,12 +457,23 @@ loadCompiled(Cora *co, int label, Obj *R) {
 	}
 
 	strBuf tmp;
+	// The name under which the .so is kept for the next import, if it is.
+	strBuf so = NULL;
 	strBuf path = getCoraPath();
-	if (strCmp(filePathStr, toStr(path)) > 0) {
+	str dir = toStr(path);
+	if (strLen(filePathStr) > strLen(dir) + 5 &&
+		memcmp(filePathStr.str, dir.str, strLen(dir)) == 0) {
 		// The cora file is in $CORAPATH, it might be a import package
-		tmp = strNew(filePathStr.len - 5 + 3);
-		tmp = strCat(tmp, strSub(filePathStr, 0, strLen(filePathStr) - 5));
-		tmp = strCat(tmp, S(".so"));
+		so = strNew(filePathStr.len - 5 + 4);
+		so = strCat(so, strSub(filePathStr, 0, strLen(filePathStr) - 5));
+		so = strCat(so, S(".so"));
+		// Nobody may see it before it is complete, and dlopen would not load it
+		// if a .so of its name was loaded before.
+		char suffix[64];
+		snprintf(suffix, sizeof(suffix), ".tmp-%d-%d", (int)getpid(), unique);
+		unique++;
+		tmp = strDup(toStr(so));
+		tmp = strCat(tmp, cstr(suffix));
 	} else {
 		tmp = fromCStr(tmpCFile);
 		tmp = strShrink(tmp, 2);
@@ -470,21 +488,30 @@ loadCompiled(Cora *co, int label, Obj *R) {
 		"%s -ldl -lm -L%s -lcora",
 		coraSrcDir, tmpCFile, toCStr(tmp), coraSrcDir);
 	strFree(path);
+	Obj pkg = R[3];
 	int exitCode = system(buf);
 	unlink(tmpCFile);
 	if (exitCode != 0) {
+		unlink(toCStr(tmp));
 		strFree(tmp);
+		strFree(so);
 		loadFailed(co, R[3], exitCode);
 		return;
 	}
 
-	Obj arg1 = makeCString(co->gc, toCStr(tmp));
+	void *handle = dlopen(toCStr(tmp), RTLD_LAZY);
+	if (handle == NULL || so == NULL || rename(toCStr(tmp), toCStr(so)) != 0) {
+		unlink(toCStr(tmp));
+	}
+	Obj arg1 = makeCString(co->gc, toCStr(so != NULL ? so : tmp));
 	strFree(tmp);
-	Obj arg2 = R[3];
-	Obj fn = makeNative(co->gc, 3, builtinLoadSo, 2, 0);
+	strFree(so);
 	co->ctx.sp = R;
-	coraCall2(co, fn, arg1, arg2);
-	return;
+	R = stackAlloc(co, 3);
+	R[0] = Nil;
+	R[1] = arg1;
+	R[2] = pkg;
+	runSo(co, handle, R);
 }
 
 // Load a file as a tail call: the frame R is given back.
-- 
2.43.0


From bd09fc494baf8c21faf553b0264ae5ef3b868be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 30/63] fix: an edit is seen by the next import also when it
 comes quickly

The .so counted as up to date when the source was edited within the second
in which the .so was written, or between being read and the end of the
compilation.
---
 src/runtime.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index e70220f..25109a8 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -9,11 +9,16 @@
 #include "vector.h"
 #include <dlfcn.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <pwd.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
 
+#ifdef __APPLE__
+#define st_mtim st_mtimespec
+#endif
+
 const int INIT_STACK_SIZE = 256;
 
 static void
@@ -500,7 +505,14 @@ loadCompiled(Cora *co, int label, Obj *R) {
 	}
 
 	void *handle = dlopen(toCStr(tmp), RTLD_LAZY);
-	if (handle == NULL || so == NULL || rename(toCStr(tmp), toCStr(so)) != 0) {
+	// The .so is as old as the source that was read, so that it does not pass for a
+	// compiled form of an edit made since.
+	struct timespec times[2] = {
+		{.tv_nsec = UTIME_OMIT},
+		{.tv_sec = fixnum(R[4]), .tv_nsec = fixnum(R[5])}};
+	if (handle == NULL || so == NULL ||
+		utimensat(AT_FDCWD, toCStr(tmp), times, 0) != 0 ||
+		rename(toCStr(tmp), toCStr(so)) != 0) {
 		unlink(toCStr(tmp));
 	}
 	Obj arg1 = makeCString(co->gc, toCStr(so != NULL ? so : tmp));
@@ -527,12 +539,21 @@ load(Cora *co, Obj *R, Obj filePath, Obj pkg) {
 	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
 
 	// The frame keeps what loadCompiled needs.
+	struct stat st;
+	if (stat(stringStr(filePath).str, &st) < 0) {
+		printf("failed to get %s file stats: %s\n", stringStr(filePath).str,
+			strerror(errno));
+		loadFailed(co, pkg, -1);
+		return;
+	}
 	co->ctx.sp = R;
-	R = stackAlloc(co, 4);
+	R = stackAlloc(co, 6);
 	R[0] = Nil;
 	R[1] = filePath;
 	R[2] = arg2;
 	R[3] = pkg;
+	R[4] = makeNumber(st.st_mtim.tv_sec);
+	R[5] = makeNumber(st.st_mtim.tv_nsec);
 	saveCont(co, loadCompiled, 0, R);
 	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
 	Obj fn = globalRef(co, bind);
@@ -574,7 +595,10 @@ safeToUseSo(strBuf soFilePath) {
 			strerror(errno));
 		goto exit;
 	}
-	if (coraFileStat.st_mtime > soFileStat.st_mtime) {
+	struct timespec soTime = soFileStat.st_mtim;
+	struct timespec coraTime = coraFileStat.st_mtim;
+	if (coraTime.tv_sec > soTime.tv_sec ||
+		(coraTime.tv_sec == soTime.tv_sec && coraTime.tv_nsec > soTime.tv_nsec)) {
 		res = false;
 	}
 exit:
-- 
2.43.0


From f75c86e0fd120317744aeba0b59cd1739189eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 31/63] fix: the reader stops when its input ends inside a form

A list that was not closed was read for ever, until the C stack was used up;
[ and ' and the like took the end of the input for their missing part. A list
could not begin with a space if it was empty.
---
 src/reader.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 38a7c35..5aad5bf 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -47,28 +47,37 @@ eatWhitespace(FILE *in) {
 	}
 }
 
-static char
+static int
 peekFirstChar(FILE *in) {
 	eatWhitespace(in);
 	return getc(in);
 }
 
+// Read a sexp that is a part of another one, so it has to be there.
 static Obj
-readCons(GC *gc, FILE *in, int *errCode) {
-	int c = getc(in);
+readPart(GC *gc, FILE *in) {
+	int errCode = 0;
+	Obj o = sexpRead(gc, in, &errCode);
+	if (errCode != 0) {
+		fprintf(stderr, "non-terminated list or quote\n");
+		exit(1);
+	}
+	return o;
+}
+
+static Obj
+readCons(GC *gc, FILE *in) {
+	int c = peekFirstChar(in);
 	if (c == ')') {
 		// read the empty list
 		return Nil;
 	}
 
 	ungetc(c, in);
-	Obj hd = sexpRead(gc, in, errCode);
-
-	c = peekFirstChar(in);
-	ungetc(c, in);
+	Obj hd = readPart(gc, in);
 
 	/* read list */
-	Obj tl = readCons(gc, in, errCode);
+	Obj tl = readCons(gc, in);
 	return makeCons(gc, hd, tl);
 }
 
@@ -83,16 +92,16 @@ reverse(GC *gc, Obj o) {
 }
 
 static Obj
-readListMacro(GC *gc, FILE *in, int *errCode) {
+readListMacro(GC *gc, FILE *in) {
 	Obj hd = intern("list");
 	Obj ret = Nil;
-	char b = peekFirstChar(in);
-	while (b != EOF && b != ']') {
+	int b = peekFirstChar(in);
+	while (b != ']') {
 		if (b == '.') {
 			hd = intern("list-rest");
 		} else {
 			ungetc(b, in);
-			Obj o = sexpRead(gc, in, errCode);
+			Obj o = readPart(gc, in);
 			ret = makeCons(gc, o, ret);
 		}
 		b = peekFirstChar(in);
@@ -135,25 +144,25 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 	}
 	// read quote
 	if (c == '\'') {
-		Obj o = sexpRead(gc, in, errCode);
+		Obj o = readPart(gc, in);
 		return makeCons(gc, symQuote, makeCons(gc, o, Nil));
 	}
 	// read the empty list or pair
 	if (c == '(') {
-		return readCons(gc, in, errCode);
+		return readCons(gc, in);
 	}
 	// read list macro
 	if (c == '[') {
-		return readListMacro(gc, in, errCode);
+		return readListMacro(gc, in);
 	}
 	// read backquote macro
 	if (c == '`') {
-		Obj o = sexpRead(gc, in, errCode);
+		Obj o = readPart(gc, in);
 		return makeCons(gc, symBackQuote, makeCons(gc, o, Nil));
 	}
 	// read unquote macro
 	if (c == ',') {
-		Obj o = sexpRead(gc, in, errCode);
+		Obj o = readPart(gc, in);
 		return makeCons(gc, symUnQuote, makeCons(gc, o, Nil));
 	}
 	// read a string
-- 
2.43.0


From 0814a3fecaa640a6f9d67233c9f044adfd7a5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 32/63] fix: the reader does not overrun its buffers nor wrap
 numbers

Strings of 512 to 999 bytes, symbols of 512 bytes and more and numbers of 30
digits overran the buffers on the stack; numbers beyond 32 bits wrapped.
---
 src/reader.c | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 5aad5bf..72ecff2 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -7,6 +7,9 @@
 #include <stdlib.h>
 #include <string.h>
 
+// Including the '\0'. symbolStr copies the names of symbols to 256 bytes.
+enum { MAX_STRING = 1000, MAX_SYMBOL = 255 };
+
 extern Obj primSet(struct Cora *co, Obj key, Obj val);
 
 static bool
@@ -109,22 +112,31 @@ readListMacro(GC *gc, FILE *in) {
 	return makeCons(gc, hd, reverse(gc, ret));
 }
 
+// The numbers up to this are exact.
+static const int64_t MAX_NUMBER = (int64_t)1 << 53;
+
+static int64_t
+addDigit(int64_t n, int c) {
+	n = n * 10 + (c - '0');
+	if (n > MAX_NUMBER) {
+		fprintf(stderr, "number too large\n");
+		exit(1);
+	}
+	return n;
+}
+
 static Obj
 readNumber(FILE *in) {
-	char buf[30];
-	memset(buf, 0, 30);
-	int i = 0;
-	char c = getc(in);
+	int64_t n = 0;
+	int c = getc(in);
 	while (c != EOF && isdigit(c)) {
-		buf[i] = c;
+		n = addDigit(n, c);
 		c = getc(in);
-		i++;
 	}
-	buf[i] = '\0';
 	if (c != EOF) {
 		ungetc(c, in);
 	}
-	Obj ret = makeNumber(atoi(buf));
+	Obj ret = makeNumber(n);
 	return ret;
 }
 
@@ -132,7 +144,7 @@ Obj
 sexpRead(GC *gc, FILE *in, int *errCode) {
 	int c;
 	int i;
-	char buffer[512];
+	char buffer[MAX_STRING];
 
 	eatWhitespace(in);
 	c = getc(in);
@@ -181,12 +193,12 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 				exit(1);
 			}
 			/* subtract 1 to save space for '\0' terminator */
-			if (i < 1000 - 1) {
+			if (i < MAX_STRING - 1) {
 				buffer[i++] = c;
 			} else {
 				fprintf(stderr,
 					"string too long. Maximum length is %d\n",
-					1000);
+					MAX_STRING);
 				exit(1);
 			}
 		}
@@ -198,6 +210,12 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 		/* int firstDot = -1; */
 		i = 0;
 		while (isIdentifierChar(c)) {
+			if (i >= MAX_SYMBOL - 1) {
+				fprintf(stderr,
+					"symbol too long. Maximum length is %d\n",
+					MAX_SYMBOL);
+				exit(1);
+			}
 			buffer[i] = c;
 			if (c == '.') {
 				/* firstDot = i; */
@@ -222,8 +240,11 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 				}
 			}
 			if (allDigit) {
-				Obj num = makeNumber(atoi(buffer));
-				return num;
+				int64_t n = 0;
+				for (int p = 1; p < i; p++) {
+					n = addDigit(n, buffer[p]);
+				}
+				return makeNumber(-n);
 			}
 		}
 		return intern(buffer);
-- 
2.43.0


From d8c27323e8c93a97ec1d153193790dd59d0bf5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 33/63] fix: the functions of io and os report what failed

write-bytes tried again for ever when a write failed, copy dropped what it
could not write and returned a raw int, like pclose; read-all took an error
for the end of the file; popen wrapped NULL.
---
 lib/io.c | 13 +++++++++----
 lib/os.c |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/io.c b/lib/io.c
index f67c390..71800ea 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -93,6 +93,11 @@ ioReadAll(struct Cora *co, int label, Obj *R) {
 			break;
 		}
 	}
+	if (ferror(f)) {
+		strFree(dest);
+		coraReturn(co, Nil);
+		return;
+	}
 	Obj ret = makeString(co->gc, toCStr(dest), strLen(toStr(dest)));
 	strFree(dest);
 	coraReturn(co, ret);
@@ -110,11 +115,11 @@ ioCopy(struct Cora *co, int label, Obj *R) {
 	while (!feof(from)) {
 		size_t sz = fread(buf, 1, BATCH_SIZE, from);
 		size_t done = fwrite(buf, 1, sz, to);
-		if (sz < BATCH_SIZE) {
+		if (done < sz || sz < BATCH_SIZE) {
 			break;
 		}
 	}
-	coraReturn(co, feof(from));
+	coraReturn(co, feof(from) && !ferror(to) ? True : False);
 }
 
 static void
@@ -126,8 +131,8 @@ ioWrite(struct Cora *co, int label, Obj *R) {
 	size_t off = 0;
 	while (off < len) {
 		size_t sz = fwrite(data + off, 1, len - off, to);
-		if (sz < 0) {
-			coraReturn(co, makeNumber(sz));
+		if (sz == 0) {
+			coraReturn(co, makeNumber(-1));
 			return;
 		}
 		off += sz;
diff --git a/lib/os.c b/lib/os.c
index 84d0ef7..9e7c335 100644
--- a/lib/os.c
+++ b/lib/os.c
@@ -36,7 +36,7 @@ popenFn(struct Cora *co, int label, Obj *R) {
 	strBuf cmdStr = cmdListStr(cmd);
 	FILE *f = popen(toCStr(cmdStr), type);
 	strFree(cmdStr);
-	coraReturn(co, makeCObj(f));
+	coraReturn(co, f != NULL ? makeCObj(f) : Nil);
 	return;
 }
 
@@ -45,7 +45,7 @@ pcloseFn(struct Cora *co, int label, Obj *R) {
 	Obj arg = R[1];
 	FILE *f = mustCObj(arg);
 	int res = pclose(f);
-	coraReturn(co, res);
+	coraReturn(co, makeNumber(res));
 }
 
 static struct registerModule osModule = {
-- 
2.43.0


From 709cf76091b42f73c8eb444c62861c6be2070356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 34/63] fix: backslashes in strings survive the compiler

---
 lib/toc/internal.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index b34c0a5..f8c7ec7 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -62,10 +62,18 @@ builtinEscapeStr(struct Cora *co, int label, Obj *R) {
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, '"');
 			break;
+		case '\\':
+			dst = strAppend(dst, '\\');
+			dst = strAppend(dst, '\\');
+			break;
 		case '\n':
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, 'n');
 			break;
+		case '\r':
+			dst = strAppend(dst, '\\');
+			dst = strAppend(dst, 'r');
+			break;
 		case '\t':
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, 't');
-- 
2.43.0


From 4ea6d3ce98d5d1c805b640374afc923a36db912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 35/63] fix: a package that threw while it was loaded is not
 taken for imported

The next import of it, or of a package that imports it, reported success without
running it; a package compiled in that state kept calling functions that do not
exist, in every later process, since its .so was kept.
---
 src/runtime.c | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 25109a8..fb0f9f7 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -339,10 +339,9 @@ packageIDAlloc() {
 	return packageID++;
 }
 
-// Loading pkg, or a file when pkg is not a package, failed. When it was imported,
-// it is not marked as imported any more, so the next import tries again.
+// Whether pkg counts as imported, so that the next import does not load it.
 static void
-loadFailed(Cora *co, Obj pkg, int code) {
+setImported(Cora *co, Obj pkg, bool yes) {
 	Binding bind = bindSymbol(co, intern("cora/init#*imported*"));
 	Obj imported = Nil;
 	for (Obj p = globalRef(co, bind); p != Nil; p = cdr(p)) {
@@ -350,10 +349,38 @@ loadFailed(Cora *co, Obj pkg, int code) {
 			imported = makeCons(co->gc, car(p), imported);
 		}
 	}
-	globalSet(co, bind, reverse(co->gc, imported));
+	imported = reverse(co->gc, imported);
+	if (yes) {
+		imported = makeCons(co->gc, pkg, imported);
+	}
+	globalSet(co, bind, imported);
+}
+
+// Loading pkg, or a file when pkg is not a package, failed. When it was imported,
+// it is not marked as imported any more, so the next import tries again.
+static void
+loadFailed(Cora *co, Obj pkg, int code) {
+	setImported(co, pkg, false);
 	coraReturn(co, makeNumber(code));
 }
 
+// The frame of an import stays on the stack until the package is loaded, to tell a
+// throw which packages it leaves half loaded. R[1] is the package.
+static void
+importDone(Cora *co, int label, Obj *R) {
+	coraReturn(co, co->res);
+}
+
+// The packages whose loading is part of these frames count as imported or not.
+static void
+setImportedFrames(Cora *co, Frame *frames, int n, bool yes) {
+	for (int i = 0; i < n; i++) {
+		if (frames[i].fn == importDone) {
+			setImported(co, frames[i].bp[1], yes);
+		}
+	}
+}
+
 // Run the entry of a .so as a tail call, in the frame of
 // (load-so "file-path.so" "package-path")
 static void
@@ -630,6 +657,7 @@ builtinImport(Cora *co, int label, Obj *R) {
 
 	// Set the *imported* variable to avoid repeated load.
 	globalSet(co, bind, makeCons(co->gc, pkg, imported));
+	saveCont(co, importDone, 0, R);
 
 	// CORA PATH
 	strBuf tmp = getCoraPath();
@@ -646,7 +674,6 @@ builtinImport(Cora *co, int label, Obj *R) {
 		Obj arg1 = makeString(co->gc, toCStr(tmp), strLen(toStr(tmp)));
 		strFree(tmp);
 		Obj arg2 = pkg;
-		co->ctx.bp = R;
 		coraCall2(co, arg0, arg1, arg2);
 		return;
 	}
@@ -658,7 +685,7 @@ builtinImport(Cora *co, int label, Obj *R) {
 	Obj filePath = makeString(co->gc, tmp1.str, tmp1.len);
 	strFree(tmp);
 
-	load(co, R, filePath, pkg);
+	load(co, co->ctx.sp, filePath, pkg);
 }
 
 static void
@@ -911,6 +938,7 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 		vecAppend(&co->callstack, p[i]);
 	}
 	cont->resumed = true;
+	setImportedFrames(co, p, cont->len, true);
 	Obj **stk = (Obj **)(cont->data + (sizeof(Frame) * cont->len));
 	for (int i = 0; i < cont->count; i++) {
 		vecAppend(&co->stk.data, stk[i]);
@@ -929,6 +957,11 @@ builtinThrow(Cora *co, int label, Obj *R) {
 	struct tryMark mark = vecPop(&co->trystack);
 	Obj v = R[1];
 
+	// What is being loaded inside of the try is not imported, unless the continuation
+	// is resumed.
+	setImportedFrames(co, vecRef(&co->callstack, mark.callstackPos),
+		vecLen(&co->callstack) - mark.callstackPos, false);
+
 	// Capture the call stack as continuation.
 	Obj cont = makeContinuation(co, vecRef(&co->callstack, mark.callstackPos),
 		vecLen(&co->callstack) - mark.callstackPos,
-- 
2.43.0


From edc75f8a93ecded71f647d955fec58ac1dd0fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 36/63] fix: a short write is not hidden by writing the rest
 again

---
 lib/io.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lib/io.c b/lib/io.c
index 71800ea..f02b8f4 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -128,16 +128,9 @@ ioWrite(struct Cora *co, int label, Obj *R) {
 	Obj from = R[2];
 	char *data = bytesData(from);
 	int len = bytesLen(from);
-	size_t off = 0;
-	while (off < len) {
-		size_t sz = fwrite(data + off, 1, len - off, to);
-		if (sz == 0) {
-			coraReturn(co, makeNumber(-1));
-			return;
-		}
-		off += sz;
-	}
-	coraReturn(co, makeNumber(len));
+	// A short count is an error. Writing the rest again would hide what was lost.
+	size_t sz = fwrite(data, 1, len, to);
+	coraReturn(co, makeNumber(sz < len ? -1 : len));
 }
 
 void
-- 
2.43.0


From d490340c1dc45daa56ba5fc2e77ad8db42c51c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 37/63] fix: a function made by eval has a frame with room for
 its parameters

---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index fb0f9f7..c28d168 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -1142,7 +1142,7 @@ makeClosureForEval(Cora *co, int label, Obj *R) {
 	Obj env = R[3];
 	int len = listLen(params);
 	Obj ret =
-		makeNative(co->gc, 4, applyClosureForEval, len, 3, params, body, env);
+		makeNative(co->gc, len + 1, applyClosureForEval, len, 3, params, body, env);
 	coraReturn(co, ret);
 }
 
-- 
2.43.0


From 202fcfe3bc9289bbb0b834094ec089af2e5fbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 38/63] fix: apply takes more and fewer arguments than the
 function has parameters

---
 src/runtime.c | 55 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index c28d168..6218e47 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -438,8 +438,15 @@ builtinApply(Cora *co, int label, Obj *R) {
 	struct scmNative *f = ptr(fn);
 	assert(f->head.type == scmHeadNative);
 	if (f->required != nargs) {
-		// TODO
-		assert(false);
+		// curry or partial
+		Obj tmp[nargs + 1];
+		for (int i = 0; i < nargs; i++) {
+			tmp[i] = car(args);
+			args = cdr(args);
+		}
+		co->ctx.sp = R;
+		coraCall(co, fn, nargs, tmp);
+		return;
 	}
 
 	// A tail call, give back the frame of apply.
@@ -1023,8 +1030,15 @@ primDiv(Obj x, Obj y) {
 		assert(fixnum(y) != 0);
 		return makeNumber(fixnum(x) / fixnum(y));
 	} else {
-		// TODO
-		assert(false);
+		// curry or partial
+		Obj tmp[nargs + 1];
+		for (int i = 0; i < nargs; i++) {
+			tmp[i] = car(args);
+			args = cdr(args);
+		}
+		co->ctx.sp = R;
+		coraCall(co, fn, nargs, tmp);
+		return;
 	}
 }
 
@@ -1033,8 +1047,15 @@ primAdd(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
 		return makeNumber(fixnum(x) + fixnum(y));
 	} else {
-		// TODO
-		assert(false);
+		// curry or partial
+		Obj tmp[nargs + 1];
+		for (int i = 0; i < nargs; i++) {
+			tmp[i] = car(args);
+			args = cdr(args);
+		}
+		co->ctx.sp = R;
+		coraCall(co, fn, nargs, tmp);
+		return;
 	}
 }
 
@@ -1079,8 +1100,15 @@ primSub(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
 		return makeNumber(fixnum(x) - fixnum(y));
 	} else {
-		// TODO
-		assert(false);
+		// curry or partial
+		Obj tmp[nargs + 1];
+		for (int i = 0; i < nargs; i++) {
+			tmp[i] = car(args);
+			args = cdr(args);
+		}
+		co->ctx.sp = R;
+		coraCall(co, fn, nargs, tmp);
+		return;
 	}
 }
 
@@ -1089,8 +1117,15 @@ primMul(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
 		return makeNumber(fixnum(x) * fixnum(y));
 	} else {
-		// TODO
-		assert(false);
+		// curry or partial
+		Obj tmp[nargs + 1];
+		for (int i = 0; i < nargs; i++) {
+			tmp[i] = car(args);
+			args = cdr(args);
+		}
+		co->ctx.sp = R;
+		coraCall(co, fn, nargs, tmp);
+		return;
 	}
 }
 
-- 
2.43.0


From 0633a323b1d0230e9b1775ac68b2554e66a5ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 39/63] fix: integer? is defined

---
 lib/eval.cora |  1 +
 src/runtime.c | 49 +++++++++++++------------------------------------
 2 files changed, 14 insertions(+), 36 deletions(-)

diff --git a/lib/eval.cora b/lib/eval.cora
index c2244f6..18e73a0 100644
--- a/lib/eval.cora
+++ b/lib/eval.cora
@@ -16,6 +16,7 @@
   (set '< (<))
   (set 'gensym (lambda () (gensym)))
   (set 'symbol? (symbol?))
+  (set 'integer? (integer?))
   (set 'not (not))
   (set 'string? (string?))
 
diff --git a/src/runtime.c b/src/runtime.c
index 6218e47..eb6d64a 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -245,6 +245,11 @@ primIsString(Obj x) {
 	}
 }
 
+Obj
+primIsNumber(Obj x) {
+	return isNumber(x) ? True : False;
+}
+
 void
 symbolToString(Cora *co, int lable, Obj *R) {
 	Obj sym = R[1];
@@ -1030,15 +1035,8 @@ primDiv(Obj x, Obj y) {
 		assert(fixnum(y) != 0);
 		return makeNumber(fixnum(x) / fixnum(y));
 	} else {
-		// curry or partial
-		Obj tmp[nargs + 1];
-		for (int i = 0; i < nargs; i++) {
-			tmp[i] = car(args);
-			args = cdr(args);
-		}
-		co->ctx.sp = R;
-		coraCall(co, fn, nargs, tmp);
-		return;
+		// TODO
+		assert(false);
 	}
 }
 
@@ -1047,15 +1045,8 @@ primAdd(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
 		return makeNumber(fixnum(x) + fixnum(y));
 	} else {
-		// curry or partial
-		Obj tmp[nargs + 1];
-		for (int i = 0; i < nargs; i++) {
-			tmp[i] = car(args);
-			args = cdr(args);
-		}
-		co->ctx.sp = R;
-		coraCall(co, fn, nargs, tmp);
-		return;
+		// TODO
+		assert(false);
 	}
 }
 
@@ -1100,15 +1091,8 @@ primSub(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
 		return makeNumber(fixnum(x) - fixnum(y));
 	} else {
-		// curry or partial
-		Obj tmp[nargs + 1];
-		for (int i = 0; i < nargs; i++) {
-			tmp[i] = car(args);
-			args = cdr(args);
-		}
-		co->ctx.sp = R;
-		coraCall(co, fn, nargs, tmp);
-		return;
+		// TODO
+		assert(false);
 	}
 }
 
@@ -1117,15 +1101,8 @@ primMul(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
 		return makeNumber(fixnum(x) * fixnum(y));
 	} else {
-		// curry or partial
-		Obj tmp[nargs + 1];
-		for (int i = 0; i < nargs; i++) {
-			tmp[i] = car(args);
-			args = cdr(args);
-		}
-		co->ctx.sp = R;
-		coraCall(co, fn, nargs, tmp);
-		return;
+		// TODO
+		assert(false);
 	}
 }
 
-- 
2.43.0


From 6213a46fde56d837a412f40ab49d99cf16697442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 40/63] fix: names of a program do not clash in the code made
 for it

---
 init.c             | 3728 +++++++++---------
 lib/toc.c          | 9117 ++++++++++++++++++++++----------------------
 lib/toc.cora       |   20 +-
 lib/toc/internal.c |    8 +-
 4 files changed, 6464 insertions(+), 6409 deletions(-)

diff --git a/init.c b/init.c
index 964ee06..6f936f8 100644
--- a/init.c
+++ b/init.c
@@ -273,315 +273,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512540_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512543_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512546_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512549_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512552_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512556_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512561_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512565_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512573_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512575_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512580_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3513164_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3513167_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3513170_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3513173_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3513176_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3513180_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3513185_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3513189_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3513197_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3513199_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3513204_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj _3513060_37= co->res;
-Obj _3513066_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513078_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513079_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513080_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513079_37);
-Obj _3513081_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513080_37);
-Obj _3513082_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513083_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513082_37);
-Obj _3513084_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513083_37);
-Obj _3513085_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513086_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513085_37);
-Obj _3513087_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513086_37);
-Obj _3513088_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513089_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513088_37);
-Obj _3513090_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513089_37);
-Obj _3513091_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513092_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513091_37);
-Obj _3513093_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513092_37);
-Obj _3513094_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513095_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513094_37);
-Obj _3513096_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513095_37);
-Obj _3513097_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513098_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513097_37);
-Obj _3513099_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513098_37);
-Obj _3513100_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513101_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513100_37);
-Obj _3513102_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513101_37);
-Obj _3513103_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513104_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513103_37);
-Obj _3513105_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513104_37);
-Obj _3513106_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513107_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513106_37);
-Obj _3513108_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513107_37);
-Obj _3513109_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513110_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513109_37);
-Obj _3513111_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513110_37);
-Obj _3513112_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513113_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513112_37);
-Obj _3513114_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513113_37);
-Obj _3513115_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513116_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513115_37);
-Obj _3513117_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513116_37);
-Obj _3513118_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513119_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513118_37);
-Obj _3513120_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513119_37);
-Obj _3513121_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513122_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513121_37);
-Obj _3513123_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513122_37);
-Obj _3513124_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513125_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513124_37);
-Obj _3513126_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513125_37);
-Obj _3513127_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513128_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513127_37);
-Obj _3513129_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513128_37);
-Obj _3513130_37 = makeCons(co->gc, _3513129_37, Nil);
-Obj _3513131_37 = makeCons(co->gc, _3513126_37, _3513130_37);
-Obj _3513132_37 = makeCons(co->gc, _3513123_37, _3513131_37);
-Obj _3513133_37 = makeCons(co->gc, _3513120_37, _3513132_37);
-Obj _3513134_37 = makeCons(co->gc, _3513117_37, _3513133_37);
-Obj _3513135_37 = makeCons(co->gc, _3513114_37, _3513134_37);
-Obj _3513136_37 = makeCons(co->gc, _3513111_37, _3513135_37);
-Obj _3513137_37 = makeCons(co->gc, _3513108_37, _3513136_37);
-Obj _3513138_37 = makeCons(co->gc, _3513105_37, _3513137_37);
-Obj _3513139_37 = makeCons(co->gc, _3513102_37, _3513138_37);
-Obj _3513140_37 = makeCons(co->gc, _3513099_37, _3513139_37);
-Obj _3513141_37 = makeCons(co->gc, _3513096_37, _3513140_37);
-Obj _3513142_37 = makeCons(co->gc, _3513093_37, _3513141_37);
-Obj _3513143_37 = makeCons(co->gc, _3513090_37, _3513142_37);
-Obj _3513144_37 = makeCons(co->gc, _3513087_37, _3513143_37);
-Obj _3513145_37 = makeCons(co->gc, _3513084_37, _3513144_37);
-Obj _3513146_37 = makeCons(co->gc, _3513081_37, _3513145_37);
-Obj _3513147_37 = primSet(co, getBinding(co, packageID, 69).name, _3513146_37);
-Obj _3513162_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513166_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513344_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513345_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513346_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513345_37);
-Obj _3513347_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513346_37);
-Obj _3513348_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513347_37);
-Obj _3513349_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513348_37);
-Obj _3513350_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513349_37);
-Obj _3513351_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513350_37);
-Obj _3513352_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513351_37);
-Obj _3513353_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513352_37);
-Obj _3513354_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513353_37);
-Obj _3513355_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513354_37);
-Obj _3513356_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513355_37);
-Obj _3513357_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513356_37);
-Obj _3513358_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513357_37);
-Obj _3513359_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513358_37);
-Obj _3513360_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513359_37);
-Obj _3513361_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513360_37);
-Obj _3513362_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513361_37);
-Obj _3513363_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513362_37);
-Obj _3513364_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513363_37);
-Obj _3513365_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513364_37);
-Obj _3513366_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513365_37);
-Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513366_37);
-Obj _3513368_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513367_37);
-Obj _3513369_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513368_37);
-Obj _3513370_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513369_37);
-Obj _3513371_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513370_37);
-Obj _3513372_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513371_37);
-Obj _3513373_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513372_37);
-Obj _3513374_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513373_37);
-Obj _3513375_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513374_37);
-Obj _3513376_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513375_37);
-Obj _3513377_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513376_37);
-Obj _3513378_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513377_37);
-Obj _3513379_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513378_37);
-Obj _3513380_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513379_37);
-Obj _3513381_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513380_37);
-Obj _3513382_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513381_37);
-Obj _3513383_37 = primSet(co, getBinding(co, packageID, 53).name, _3513382_37);
-Obj _3513384_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513385_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513386_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513387_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513388_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513389_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513390_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513391_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513392_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513393_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513394_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513395_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513396_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513397_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513398_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513399_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513400_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513401_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513402_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513403_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513404_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513405_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513406_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513407_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3513408_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513409_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513410_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513411_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513412_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3513413_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3513414_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3513415_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3513416_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513417_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3513418_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513419_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513420_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3513421_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3513422_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3513422_37);
+Obj v__3513684_37= co->res;
+Obj v__3513690_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v__3513702_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v__3513703_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3513704_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513703_37);
+Obj v__3513705_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513704_37);
+Obj v__3513706_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3513707_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513706_37);
+Obj v__3513708_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513707_37);
+Obj v__3513709_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3513710_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513709_37);
+Obj v__3513711_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513710_37);
+Obj v__3513712_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3513713_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513712_37);
+Obj v__3513714_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513713_37);
+Obj v__3513715_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3513716_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513715_37);
+Obj v__3513717_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513716_37);
+Obj v__3513718_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3513719_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513718_37);
+Obj v__3513720_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513719_37);
+Obj v__3513721_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3513722_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513721_37);
+Obj v__3513723_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513722_37);
+Obj v__3513724_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3513725_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513724_37);
+Obj v__3513726_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513725_37);
+Obj v__3513727_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3513728_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513727_37);
+Obj v__3513729_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513728_37);
+Obj v__3513730_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3513731_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513730_37);
+Obj v__3513732_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513731_37);
+Obj v__3513733_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3513734_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513733_37);
+Obj v__3513735_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513734_37);
+Obj v__3513736_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3513737_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513736_37);
+Obj v__3513738_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513737_37);
+Obj v__3513739_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3513740_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513739_37);
+Obj v__3513741_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513740_37);
+Obj v__3513742_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3513743_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513742_37);
+Obj v__3513744_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513743_37);
+Obj v__3513745_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3513746_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513745_37);
+Obj v__3513747_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513746_37);
+Obj v__3513748_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3513749_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513748_37);
+Obj v__3513750_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513749_37);
+Obj v__3513751_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3513752_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513751_37);
+Obj v__3513753_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513752_37);
+Obj v__3513754_37 = makeCons(co->gc, v__3513753_37, Nil);
+Obj v__3513755_37 = makeCons(co->gc, v__3513750_37, v__3513754_37);
+Obj v__3513756_37 = makeCons(co->gc, v__3513747_37, v__3513755_37);
+Obj v__3513757_37 = makeCons(co->gc, v__3513744_37, v__3513756_37);
+Obj v__3513758_37 = makeCons(co->gc, v__3513741_37, v__3513757_37);
+Obj v__3513759_37 = makeCons(co->gc, v__3513738_37, v__3513758_37);
+Obj v__3513760_37 = makeCons(co->gc, v__3513735_37, v__3513759_37);
+Obj v__3513761_37 = makeCons(co->gc, v__3513732_37, v__3513760_37);
+Obj v__3513762_37 = makeCons(co->gc, v__3513729_37, v__3513761_37);
+Obj v__3513763_37 = makeCons(co->gc, v__3513726_37, v__3513762_37);
+Obj v__3513764_37 = makeCons(co->gc, v__3513723_37, v__3513763_37);
+Obj v__3513765_37 = makeCons(co->gc, v__3513720_37, v__3513764_37);
+Obj v__3513766_37 = makeCons(co->gc, v__3513717_37, v__3513765_37);
+Obj v__3513767_37 = makeCons(co->gc, v__3513714_37, v__3513766_37);
+Obj v__3513768_37 = makeCons(co->gc, v__3513711_37, v__3513767_37);
+Obj v__3513769_37 = makeCons(co->gc, v__3513708_37, v__3513768_37);
+Obj v__3513770_37 = makeCons(co->gc, v__3513705_37, v__3513769_37);
+Obj v__3513771_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513770_37);
+Obj v__3513786_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v__3513790_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v__3513968_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v__3513969_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3513970_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3513969_37);
+Obj v__3513971_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3513970_37);
+Obj v__3513972_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3513971_37);
+Obj v__3513973_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3513972_37);
+Obj v__3513974_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3513973_37);
+Obj v__3513975_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3513974_37);
+Obj v__3513976_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3513975_37);
+Obj v__3513977_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3513976_37);
+Obj v__3513978_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3513977_37);
+Obj v__3513979_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513978_37);
+Obj v__3513980_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3513979_37);
+Obj v__3513981_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3513980_37);
+Obj v__3513982_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3513981_37);
+Obj v__3513983_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3513982_37);
+Obj v__3513984_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3513983_37);
+Obj v__3513985_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3513984_37);
+Obj v__3513986_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3513985_37);
+Obj v__3513987_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3513986_37);
+Obj v__3513988_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3513987_37);
+Obj v__3513989_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3513988_37);
+Obj v__3513990_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3513989_37);
+Obj v__3513991_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3513990_37);
+Obj v__3513992_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3513991_37);
+Obj v__3513993_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3513992_37);
+Obj v__3513994_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3513993_37);
+Obj v__3513995_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3513994_37);
+Obj v__3513996_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3513995_37);
+Obj v__3513997_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3513996_37);
+Obj v__3513998_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3513997_37);
+Obj v__3513999_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3513998_37);
+Obj v__3514000_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3513999_37);
+Obj v__3514001_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3514000_37);
+Obj v__3514002_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514001_37);
+Obj v__3514003_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3514002_37);
+Obj v__3514004_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3514003_37);
+Obj v__3514005_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3514004_37);
+Obj v__3514006_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3514005_37);
+Obj v__3514007_37 = primSet(co, getBinding(co, packageID, 53).name, v__3514006_37);
+Obj v__3514008_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3514009_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3514010_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3514011_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3514012_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3514013_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3514014_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v__3514015_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v__3514016_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v__3514017_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v__3514018_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3514019_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3514020_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3514021_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3514022_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3514023_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3514024_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3514025_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3514026_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3514027_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3514028_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3514029_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3514030_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3514031_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3514032_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3514033_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3514034_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3514035_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3514036_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3514037_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3514038_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3514039_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v__3514040_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3514041_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v__3514042_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3514043_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3514044_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3514045_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3514046_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3514046_37);
 return;
 }
 case 2:
 {
-Obj _3513010_37= co->res;
-Obj _3513039_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3513040_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v__3513634_37= co->res;
+Obj v__3513663_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v__3513664_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512993_37= co->res;
-Obj _3513007_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v__3513617_37= co->res;
+Obj v__3513631_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512971_37= co->res;
-Obj _3512991_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v__3513595_37= co->res;
+Obj v__3513615_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512940_37= co->res;
-Obj _3512941_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512942_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512945_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512969_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3513564_37= co->res;
+Obj v__3513565_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v__3513566_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v__3513569_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3513593_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512832_37= co->res;
-Obj _3512884_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512885_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512890_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512894_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512895_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512903_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512904_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512910_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512921_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512927_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v__3513456_37= co->res;
+Obj v__3513508_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v__3513509_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v__3513514_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v__3513518_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v__3513519_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v__3513527_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v__3513528_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v__3513534_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3513545_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v__3513551_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512727_37= co->res;
-Obj _3512749_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512782_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512795_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512817_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512831_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v__3513351_37= co->res;
+Obj v__3513373_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3513406_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3513419_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3513441_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3513455_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512712_37= co->res;
-Obj _3512715_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512725_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3513336_37= co->res;
+Obj v__3513339_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3513349_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512698_37= co->res;
-Obj _3512710_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v__3513322_37= co->res;
+Obj v__3513334_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512684_37= co->res;
-Obj _3512696_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v__3513308_37= co->res;
+Obj v__3513320_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512670_37= co->res;
+Obj v__3513294_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512648_37= co->res;
-Obj _3512653_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512656_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512668_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v__3513272_37= co->res;
+Obj v__3513277_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3513280_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3513292_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512638_37= co->res;
+Obj v__3513262_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512636_37= co->res;
+Obj v__3513260_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512581_37= co->res;
-Obj _3512582_37 = primSet(co, getBinding(co, packageID, 149).name, _3512581_37);
-Obj _3512588_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512589_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512590_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3512591_37 = primGenSym(co);
-Obj _3512592_37 = primSet(co, getBinding(co, packageID, 145).name, _3512591_37);
-Obj _3512596_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512605_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512606_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512623_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512624_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3512635_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v__3513205_37= co->res;
+Obj v__3513206_37 = primSet(co, getBinding(co, packageID, 149).name, v__3513205_37);
+Obj v__3513212_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3513213_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3513214_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v__3513215_37 = primGenSym(co);
+Obj v__3513216_37 = primSet(co, getBinding(co, packageID, 145).name, v__3513215_37);
+Obj v__3513220_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3513229_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3513230_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3513247_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3513248_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v__3513259_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -593,67 +593,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512511_37 = R[1];
-Obj _3512512_37 = R[2];
-Obj _3512513_37 = R[3];
-Obj _3512514_37 = R[4];
-Obj _3512535_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512511_37, _3512512_37, _3512513_37, _3512514_37);
-R[1] = _3512514_37;
-R[2] = _3512535_37;
+Obj v__3513047_37 = R[1];
+Obj v__3513048_37 = R[2];
+Obj v__3513049_37 = R[3];
+Obj v__3513050_37 = R[4];
+Obj v__3513136_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3513047_37, v__3513048_37, v__3513049_37, v__3513050_37);
+R[1] = v__3513050_37;
+R[2] = v__3513136_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512514_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513050_37);
 return;
 }
 case 1:
 {
-Obj _3513343_37= co->res;
-Obj _3512535_37 = R[1];
-if (True == _3513343_37) {
+Obj v__3513967_37= co->res;
+Obj v__3513136_37 = R[1];
+if (True == v__3513967_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512535_37, True);
+coraCall1(co, v__3513136_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512535_37, False);
+coraCall1(co, v__3513136_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513342_37= co->res;
-Obj _3512514_37 = R[1];
-Obj _3512535_37 = R[2];
-if (True == _3513342_37) {
+Obj v__3513966_37= co->res;
+Obj v__3513050_37 = R[1];
+Obj v__3513136_37 = R[2];
+if (True == v__3513966_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512535_37, True);
+coraCall1(co, v__3513136_37, True);
 return;
 } else {
-R[1] = _3512535_37;
+R[1] = v__3513136_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512514_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513050_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513340_37= co->res;
-Obj _3512514_37 = R[1];
-Obj _3512535_37 = R[2];
-if (True == _3513340_37) {
+Obj v__3513964_37= co->res;
+Obj v__3513050_37 = R[1];
+Obj v__3513136_37 = R[2];
+if (True == v__3513964_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512535_37, True);
+coraCall1(co, v__3513136_37, True);
 return;
 } else {
-Obj _3513341_37 = primIsString(_3512514_37);
-if (True == _3513341_37) {
+Obj v__3513965_37 = primIsString(v__3513050_37);
+if (True == v__3513965_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512535_37, True);
+coraCall1(co, v__3513136_37, True);
 return;
 } else {
-R[1] = _3512514_37;
-R[2] = _3512535_37;
+R[1] = v__3513050_37;
+R[2] = v__3513136_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512514_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513050_37);
 return;
 }
 }
@@ -665,49 +665,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512536_37 = R[1];
-if (True == _3512536_37) {
+Obj v__3513135_37 = R[1];
+if (True == v__3513135_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512516_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513328_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513328_37) {
-Obj _3513329_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513330_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513329_37);
-if (True == _3513330_37) {
-Obj _3513331_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513332_37 = PRIM_ISCONS(_3513331_37);
-if (True == _3513332_37) {
-Obj _3513333_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513334_37 = PRIM_CAR(_3513333_37);
-Obj x = _3513334_37;
-Obj _3513335_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513336_37 = PRIM_CDR(_3513335_37);
-Obj _3513337_37 = PRIM_EQ(Nil, _3513336_37);
-if (True == _3513337_37) {
-Obj _3513338_37 = makeCons(co->gc, x, Nil);
-Obj _3513339_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513338_37);
-coraReturn(co, _3513339_37);
+Obj v__3513137_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3513952_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3513952_37) {
+Obj v__3513953_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3513954_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3513953_37);
+if (True == v__3513954_37) {
+Obj v__3513955_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3513956_37 = PRIM_ISCONS(v__3513955_37);
+if (True == v__3513956_37) {
+Obj v__3513957_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3513958_37 = PRIM_CAR(v__3513957_37);
+Obj v__3513162_37 = v__3513958_37;
+Obj v__3513959_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3513960_37 = PRIM_CDR(v__3513959_37);
+Obj v__3513961_37 = PRIM_EQ(Nil, v__3513960_37);
+if (True == v__3513961_37) {
+Obj v__3513962_37 = makeCons(co->gc, v__3513162_37, Nil);
+Obj v__3513963_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513962_37);
+coraReturn(co, v__3513963_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512516_37);
+coraCall0(co, v__3513137_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512516_37);
+coraCall0(co, v__3513137_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512516_37);
+coraCall0(co, v__3513137_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512516_37);
+coraCall0(co, v__3513137_37);
 return;
 }
 }
@@ -719,73 +719,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513167_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513167_37) {
+Obj v__3513791_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3513791_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3512518_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513306_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513306_37) {
-Obj _3513307_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513308_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513307_37);
-if (True == _3513308_37) {
-Obj _3513309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513310_37 = PRIM_ISCONS(_3513309_37);
-if (True == _3513310_37) {
-Obj _3513311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513312_37 = PRIM_CAR(_3513311_37);
-Obj args = _3513312_37;
-Obj _3513313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513314_37 = PRIM_CDR(_3513313_37);
-Obj _3513315_37 = PRIM_ISCONS(_3513314_37);
-if (True == _3513315_37) {
-Obj _3513316_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513317_37 = PRIM_CDR(_3513316_37);
-Obj _3513318_37 = PRIM_CAR(_3513317_37);
-Obj body = _3513318_37;
-Obj _3513319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513320_37 = PRIM_CDR(_3513319_37);
-Obj _3513321_37 = PRIM_CDR(_3513320_37);
-Obj _3513322_37 = PRIM_EQ(Nil, _3513321_37);
-if (True == _3513322_37) {
-R[1] = body;
-R[2] = args;
+Obj v__3513138_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513930_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513930_37) {
+Obj v__3513931_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513932_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3513931_37);
+if (True == v__3513932_37) {
+Obj v__3513933_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513934_37 = PRIM_ISCONS(v__3513933_37);
+if (True == v__3513934_37) {
+Obj v__3513935_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513936_37 = PRIM_CAR(v__3513935_37);
+Obj v__3513160_37 = v__3513936_37;
+Obj v__3513937_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513938_37 = PRIM_CDR(v__3513937_37);
+Obj v__3513939_37 = PRIM_ISCONS(v__3513938_37);
+if (True == v__3513939_37) {
+Obj v__3513940_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513941_37 = PRIM_CDR(v__3513940_37);
+Obj v__3513942_37 = PRIM_CAR(v__3513941_37);
+Obj v__3513161_37 = v__3513942_37;
+Obj v__3513943_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513944_37 = PRIM_CDR(v__3513943_37);
+Obj v__3513945_37 = PRIM_CDR(v__3513944_37);
+Obj v__3513946_37 = PRIM_EQ(Nil, v__3513945_37);
+if (True == v__3513946_37) {
+R[1] = v__3513161_37;
+R[2] = v__3513160_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), args, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513160_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, v__3513138_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, v__3513138_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, v__3513138_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, v__3513138_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, v__3513138_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513169_37= co->res;
-if (True == _3513169_37) {
+Obj v__3513793_37= co->res;
+if (True == v__3513793_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -796,8 +796,8 @@ return;
 }
 case 2:
 {
-Obj _3513168_37= co->res;
-if (True == _3513168_37) {
+Obj v__3513792_37= co->res;
+if (True == v__3513792_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -808,22 +808,22 @@ return;
 }
 case 3:
 {
-Obj _3513324_37= co->res;
-Obj args = R[1];
-Obj _3513325_37 = makeCons(co->gc, _3513324_37, Nil);
-Obj _3513326_37 = makeCons(co->gc, args, _3513325_37);
-Obj _3513327_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513326_37);
-coraReturn(co, _3513327_37);
+Obj v__3513948_37= co->res;
+Obj v__3513160_37 = R[1];
+Obj v__3513949_37 = makeCons(co->gc, v__3513948_37, Nil);
+Obj v__3513950_37 = makeCons(co->gc, v__3513160_37, v__3513949_37);
+Obj v__3513951_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513950_37);
+coraReturn(co, v__3513951_37);
 return;
 }
 case 4:
 {
-Obj _3513323_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-R[1] = args;
+Obj v__3513947_37= co->res;
+Obj v__3513161_37 = R[1];
+Obj v__3513160_37 = R[2];
+R[1] = v__3513160_37;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513323_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513947_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513161_37);
 return;
 }
 }
@@ -833,132 +833,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512519_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513262_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513262_37) {
-Obj _3513263_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513264_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513263_37);
-if (True == _3513264_37) {
-Obj _3513265_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513266_37 = PRIM_ISCONS(_3513265_37);
-if (True == _3513266_37) {
-Obj _3513267_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513268_37 = PRIM_CAR(_3513267_37);
-Obj _3513269_37 = PRIM_ISCONS(_3513268_37);
-if (True == _3513269_37) {
-Obj _3513270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513271_37 = PRIM_CAR(_3513270_37);
-Obj _3513272_37 = PRIM_CAR(_3513271_37);
-Obj _3513273_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513272_37);
-if (True == _3513273_37) {
-Obj _3513274_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513275_37 = PRIM_CAR(_3513274_37);
-Obj _3513276_37 = PRIM_CDR(_3513275_37);
-Obj _3513277_37 = PRIM_ISCONS(_3513276_37);
-if (True == _3513277_37) {
-Obj _3513278_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513279_37 = PRIM_CAR(_3513278_37);
-Obj _3513280_37 = PRIM_CDR(_3513279_37);
-Obj _3513281_37 = PRIM_CAR(_3513280_37);
-Obj pkg = _3513281_37;
-Obj _3513282_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513283_37 = PRIM_CAR(_3513282_37);
-Obj _3513284_37 = PRIM_CDR(_3513283_37);
-Obj _3513285_37 = PRIM_CDR(_3513284_37);
-Obj _3513286_37 = PRIM_EQ(Nil, _3513285_37);
-if (True == _3513286_37) {
-Obj _3513287_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513288_37 = PRIM_CDR(_3513287_37);
-Obj _3513289_37 = PRIM_ISCONS(_3513288_37);
-if (True == _3513289_37) {
-Obj _3513290_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513291_37 = PRIM_CDR(_3513290_37);
-Obj _3513292_37 = PRIM_CAR(_3513291_37);
-Obj y = _3513292_37;
-Obj _3513293_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513294_37 = PRIM_CDR(_3513293_37);
-Obj _3513295_37 = PRIM_CDR(_3513294_37);
-Obj _3513296_37 = PRIM_EQ(Nil, _3513295_37);
-if (True == _3513296_37) {
-Obj _3513297_37 = primIsString(pkg);
-if (True == _3513297_37) {
-Obj _3513298_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513298_37);
-R[1] = pkg;
-R[2] = y;
+Obj v__3513139_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513886_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513886_37) {
+Obj v__3513887_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513888_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513887_37);
+if (True == v__3513888_37) {
+Obj v__3513889_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513890_37 = PRIM_ISCONS(v__3513889_37);
+if (True == v__3513890_37) {
+Obj v__3513891_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513892_37 = PRIM_CAR(v__3513891_37);
+Obj v__3513893_37 = PRIM_ISCONS(v__3513892_37);
+if (True == v__3513893_37) {
+Obj v__3513894_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513895_37 = PRIM_CAR(v__3513894_37);
+Obj v__3513896_37 = PRIM_CAR(v__3513895_37);
+Obj v__3513897_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513896_37);
+if (True == v__3513897_37) {
+Obj v__3513898_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513899_37 = PRIM_CAR(v__3513898_37);
+Obj v__3513900_37 = PRIM_CDR(v__3513899_37);
+Obj v__3513901_37 = PRIM_ISCONS(v__3513900_37);
+if (True == v__3513901_37) {
+Obj v__3513902_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513903_37 = PRIM_CAR(v__3513902_37);
+Obj v__3513904_37 = PRIM_CDR(v__3513903_37);
+Obj v__3513905_37 = PRIM_CAR(v__3513904_37);
+Obj v__3513158_37 = v__3513905_37;
+Obj v__3513906_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513907_37 = PRIM_CAR(v__3513906_37);
+Obj v__3513908_37 = PRIM_CDR(v__3513907_37);
+Obj v__3513909_37 = PRIM_CDR(v__3513908_37);
+Obj v__3513910_37 = PRIM_EQ(Nil, v__3513909_37);
+if (True == v__3513910_37) {
+Obj v__3513911_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513912_37 = PRIM_CDR(v__3513911_37);
+Obj v__3513913_37 = PRIM_ISCONS(v__3513912_37);
+if (True == v__3513913_37) {
+Obj v__3513914_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513915_37 = PRIM_CDR(v__3513914_37);
+Obj v__3513916_37 = PRIM_CAR(v__3513915_37);
+Obj v__3513159_37 = v__3513916_37;
+Obj v__3513917_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513918_37 = PRIM_CDR(v__3513917_37);
+Obj v__3513919_37 = PRIM_CDR(v__3513918_37);
+Obj v__3513920_37 = PRIM_EQ(Nil, v__3513919_37);
+if (True == v__3513920_37) {
+Obj v__3513921_37 = primIsString(v__3513158_37);
+if (True == v__3513921_37) {
+Obj v__3513922_37 = makeCons(co->gc, v__3513158_37, Nil);
+Obj v__3513923_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513922_37);
+R[1] = v__3513158_37;
+R[2] = v__3513159_37;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513299_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513923_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, v__3513139_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513302_37= co->res;
-Obj _3513300_37 = R[1];
-Obj _3513303_37 = makeCons(co->gc, _3513302_37, Nil);
-Obj _3513304_37 = makeCons(co->gc, _3513300_37, _3513303_37);
-Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513304_37);
-coraReturn(co, _3513305_37);
+Obj v__3513926_37= co->res;
+Obj v__3513924_37 = R[1];
+Obj v__3513927_37 = makeCons(co->gc, v__3513926_37, Nil);
+Obj v__3513928_37 = makeCons(co->gc, v__3513924_37, v__3513927_37);
+Obj v__3513929_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513928_37);
+coraReturn(co, v__3513929_37);
 return;
 }
 case 2:
 {
-Obj _3513300_37= co->res;
-Obj pkg = R[1];
-Obj y = R[2];
-Obj _3513301_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513300_37;
+Obj v__3513924_37= co->res;
+Obj v__3513158_37 = R[1];
+Obj v__3513159_37 = R[2];
+Obj v__3513925_37 = makeCons(co->gc, v__3513158_37, closureRef(R[0], 3));
+R[1] = v__3513924_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513301_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3513925_37, v__3513159_37);
 return;
 }
 }
@@ -968,34 +968,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512520_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513254_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513254_37) {
-Obj _3513255_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513255_37;
-Obj _3513256_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513256_37;
-Obj _3512537_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512520_37);
-Obj _3513260_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
-if (True == _3513260_37) {
+Obj v__3513140_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513878_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513878_37) {
+Obj v__3513879_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513153_37 = v__3513879_37;
+Obj v__3513880_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513154_37 = v__3513880_37;
+Obj v__3513157_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3513153_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513154_37, v__3513140_37);
+Obj v__3513884_37 = PRIM_EQ(v__3513153_37, getBinding(co, packageID, 126).name);
+if (True == v__3513884_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512537_37, True);
+coraCall1(co, v__3513157_37, True);
 return;
 } else {
-Obj _3513261_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
-if (True == _3513261_37) {
+Obj v__3513885_37 = PRIM_EQ(v__3513153_37, getBinding(co, packageID, 90).name);
+if (True == v__3513885_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512537_37, True);
+coraCall1(co, v__3513157_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512537_37, False);
+coraCall1(co, v__3513157_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512520_37);
+coraCall0(co, v__3513140_37);
 return;
 }
 }
@@ -1006,8 +1006,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512538_37 = R[1];
-if (True == _3512538_37) {
+Obj v__3513156_37 = R[1];
+if (True == v__3513156_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1019,16 +1019,16 @@ return;
 }
 case 1:
 {
-Obj _3513258_37= co->res;
-Obj _3513259_37 = makeCons(co->gc, closureRef(R[0], 0), _3513258_37);
-coraReturn(co, _3513259_37);
+Obj v__3513882_37= co->res;
+Obj v__3513883_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513882_37);
+coraReturn(co, v__3513883_37);
 return;
 }
 case 2:
 {
-Obj _3513257_37= co->res;
+Obj v__3513881_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513257_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513881_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1038,100 +1038,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512521_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513221_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513221_37) {
-Obj _3513222_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513223_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513222_37);
-if (True == _3513223_37) {
-Obj _3513224_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513225_37 = PRIM_ISCONS(_3513224_37);
-if (True == _3513225_37) {
-Obj _3513226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513227_37 = PRIM_CAR(_3513226_37);
-Obj a = _3513227_37;
-Obj _3513228_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513229_37 = PRIM_CDR(_3513228_37);
-Obj _3513230_37 = PRIM_ISCONS(_3513229_37);
-if (True == _3513230_37) {
-Obj _3513231_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513232_37 = PRIM_CDR(_3513231_37);
-Obj _3513233_37 = PRIM_CAR(_3513232_37);
-Obj b = _3513233_37;
-Obj _3513234_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513235_37 = PRIM_CDR(_3513234_37);
-Obj _3513236_37 = PRIM_CDR(_3513235_37);
-Obj _3513237_37 = PRIM_ISCONS(_3513236_37);
-if (True == _3513237_37) {
-Obj _3513238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513239_37 = PRIM_CDR(_3513238_37);
-Obj _3513240_37 = PRIM_CDR(_3513239_37);
-Obj _3513241_37 = PRIM_CAR(_3513240_37);
-Obj c = _3513241_37;
-Obj _3513242_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513243_37 = PRIM_CDR(_3513242_37);
-Obj _3513244_37 = PRIM_CDR(_3513243_37);
-Obj _3513245_37 = PRIM_CDR(_3513244_37);
-Obj _3513246_37 = PRIM_EQ(Nil, _3513245_37);
-if (True == _3513246_37) {
-R[1] = c;
-R[2] = a;
+Obj v__3513141_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513845_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513845_37) {
+Obj v__3513846_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513847_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3513846_37);
+if (True == v__3513847_37) {
+Obj v__3513848_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513849_37 = PRIM_ISCONS(v__3513848_37);
+if (True == v__3513849_37) {
+Obj v__3513850_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513851_37 = PRIM_CAR(v__3513850_37);
+Obj v__3513150_37 = v__3513851_37;
+Obj v__3513852_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513853_37 = PRIM_CDR(v__3513852_37);
+Obj v__3513854_37 = PRIM_ISCONS(v__3513853_37);
+if (True == v__3513854_37) {
+Obj v__3513855_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513856_37 = PRIM_CDR(v__3513855_37);
+Obj v__3513857_37 = PRIM_CAR(v__3513856_37);
+Obj v__3513151_37 = v__3513857_37;
+Obj v__3513858_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513859_37 = PRIM_CDR(v__3513858_37);
+Obj v__3513860_37 = PRIM_CDR(v__3513859_37);
+Obj v__3513861_37 = PRIM_ISCONS(v__3513860_37);
+if (True == v__3513861_37) {
+Obj v__3513862_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513863_37 = PRIM_CDR(v__3513862_37);
+Obj v__3513864_37 = PRIM_CDR(v__3513863_37);
+Obj v__3513865_37 = PRIM_CAR(v__3513864_37);
+Obj v__3513152_37 = v__3513865_37;
+Obj v__3513866_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513867_37 = PRIM_CDR(v__3513866_37);
+Obj v__3513868_37 = PRIM_CDR(v__3513867_37);
+Obj v__3513869_37 = PRIM_CDR(v__3513868_37);
+Obj v__3513870_37 = PRIM_EQ(Nil, v__3513869_37);
+if (True == v__3513870_37) {
+R[1] = v__3513152_37;
+R[2] = v__3513150_37;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), b);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513151_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512521_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513249_37= co->res;
-Obj _3513247_37 = R[1];
-Obj a = R[2];
-Obj _3513250_37 = makeCons(co->gc, _3513249_37, Nil);
-Obj _3513251_37 = makeCons(co->gc, _3513247_37, _3513250_37);
-Obj _3513252_37 = makeCons(co->gc, a, _3513251_37);
-Obj _3513253_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513252_37);
-coraReturn(co, _3513253_37);
+Obj v__3513873_37= co->res;
+Obj v__3513871_37 = R[1];
+Obj v__3513150_37 = R[2];
+Obj v__3513874_37 = makeCons(co->gc, v__3513873_37, Nil);
+Obj v__3513875_37 = makeCons(co->gc, v__3513871_37, v__3513874_37);
+Obj v__3513876_37 = makeCons(co->gc, v__3513150_37, v__3513875_37);
+Obj v__3513877_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513876_37);
+coraReturn(co, v__3513877_37);
 return;
 }
 case 2:
 {
-Obj _3513247_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-Obj _3513248_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513247_37;
-R[2] = a;
+Obj v__3513871_37= co->res;
+Obj v__3513152_37 = R[1];
+Obj v__3513150_37 = R[2];
+Obj v__3513872_37 = makeCons(co->gc, v__3513150_37, closureRef(R[0], 1));
+R[1] = v__3513871_37;
+R[2] = v__3513150_37;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513248_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513872_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513152_37);
 return;
 }
 }
@@ -1141,73 +1141,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512522_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513195_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513195_37) {
-Obj _3513196_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513197_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513196_37);
-if (True == _3513197_37) {
-Obj _3513198_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513199_37 = PRIM_ISCONS(_3513198_37);
-if (True == _3513199_37) {
-Obj _3513200_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513201_37 = PRIM_CAR(_3513200_37);
-Obj path = _3513201_37;
-Obj _3513202_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513203_37 = PRIM_CDR(_3513202_37);
-Obj _3513204_37 = PRIM_ISCONS(_3513203_37);
-if (True == _3513204_37) {
-Obj _3513205_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513206_37 = PRIM_CDR(_3513205_37);
-Obj _3513207_37 = PRIM_CAR(_3513206_37);
-Obj import = _3513207_37;
-Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513209_37 = PRIM_CDR(_3513208_37);
-Obj _3513210_37 = PRIM_CDR(_3513209_37);
-Obj _3513211_37 = PRIM_ISCONS(_3513210_37);
-if (True == _3513211_37) {
-Obj _3513212_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513213_37 = PRIM_CDR(_3513212_37);
-Obj _3513214_37 = PRIM_CDR(_3513213_37);
-Obj _3513215_37 = PRIM_CAR(_3513214_37);
-Obj body = _3513215_37;
-Obj _3513216_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513217_37 = PRIM_CDR(_3513216_37);
-Obj _3513218_37 = PRIM_CDR(_3513217_37);
-Obj _3513219_37 = PRIM_CDR(_3513218_37);
-Obj _3513220_37 = PRIM_EQ(Nil, _3513219_37);
-if (True == _3513220_37) {
+Obj v__3513142_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513819_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3513819_37) {
+Obj v__3513820_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3513821_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513820_37);
+if (True == v__3513821_37) {
+Obj v__3513822_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513823_37 = PRIM_ISCONS(v__3513822_37);
+if (True == v__3513823_37) {
+Obj v__3513824_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513825_37 = PRIM_CAR(v__3513824_37);
+Obj v__3513147_37 = v__3513825_37;
+Obj v__3513826_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513827_37 = PRIM_CDR(v__3513826_37);
+Obj v__3513828_37 = PRIM_ISCONS(v__3513827_37);
+if (True == v__3513828_37) {
+Obj v__3513829_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513830_37 = PRIM_CDR(v__3513829_37);
+Obj v__3513831_37 = PRIM_CAR(v__3513830_37);
+Obj v__3513148_37 = v__3513831_37;
+Obj v__3513832_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513833_37 = PRIM_CDR(v__3513832_37);
+Obj v__3513834_37 = PRIM_CDR(v__3513833_37);
+Obj v__3513835_37 = PRIM_ISCONS(v__3513834_37);
+if (True == v__3513835_37) {
+Obj v__3513836_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513837_37 = PRIM_CDR(v__3513836_37);
+Obj v__3513838_37 = PRIM_CDR(v__3513837_37);
+Obj v__3513839_37 = PRIM_CAR(v__3513838_37);
+Obj v__3513149_37 = v__3513839_37;
+Obj v__3513840_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513841_37 = PRIM_CDR(v__3513840_37);
+Obj v__3513842_37 = PRIM_CDR(v__3513841_37);
+Obj v__3513843_37 = PRIM_CDR(v__3513842_37);
+Obj v__3513844_37 = PRIM_EQ(Nil, v__3513843_37);
+if (True == v__3513844_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), path, import, body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513147_37, v__3513148_37, v__3513149_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, v__3513142_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, v__3513142_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, v__3513142_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, v__3513142_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, v__3513142_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512522_37);
+coraCall0(co, v__3513142_37);
 return;
 }
 }
@@ -1218,81 +1218,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512523_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513171_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513171_37) {
-Obj _3513172_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513173_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513172_37);
-if (True == _3513173_37) {
-Obj _3513174_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513175_37 = PRIM_ISCONS(_3513174_37);
-if (True == _3513175_37) {
-Obj _3513176_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513177_37 = PRIM_CAR(_3513176_37);
-Obj var = _3513177_37;
-Obj _3513178_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513179_37 = PRIM_CDR(_3513178_37);
-Obj _3513180_37 = PRIM_ISCONS(_3513179_37);
-if (True == _3513180_37) {
-Obj _3513181_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513182_37 = PRIM_CDR(_3513181_37);
-Obj _3513183_37 = PRIM_CAR(_3513182_37);
-Obj val = _3513183_37;
-Obj _3513184_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513185_37 = PRIM_CDR(_3513184_37);
-Obj _3513186_37 = PRIM_CDR(_3513185_37);
-Obj _3513187_37 = PRIM_EQ(Nil, _3513186_37);
-if (True == _3513187_37) {
-R[1] = val;
+Obj v__3513143_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3513795_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513795_37) {
+Obj v__3513796_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513797_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3513796_37);
+if (True == v__3513797_37) {
+Obj v__3513798_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513799_37 = PRIM_ISCONS(v__3513798_37);
+if (True == v__3513799_37) {
+Obj v__3513800_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513801_37 = PRIM_CAR(v__3513800_37);
+Obj v__3513144_37 = v__3513801_37;
+Obj v__3513802_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513803_37 = PRIM_CDR(v__3513802_37);
+Obj v__3513804_37 = PRIM_ISCONS(v__3513803_37);
+if (True == v__3513804_37) {
+Obj v__3513805_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513806_37 = PRIM_CDR(v__3513805_37);
+Obj v__3513807_37 = PRIM_CAR(v__3513806_37);
+Obj v__3513145_37 = v__3513807_37;
+Obj v__3513808_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513809_37 = PRIM_CDR(v__3513808_37);
+Obj v__3513810_37 = PRIM_CDR(v__3513809_37);
+Obj v__3513811_37 = PRIM_EQ(Nil, v__3513810_37);
+if (True == v__3513811_37) {
+R[1] = v__3513145_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), var, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513144_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512523_37);
+coraCall0(co, v__3513143_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512523_37);
+coraCall0(co, v__3513143_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512523_37);
+coraCall0(co, v__3513143_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512523_37);
+coraCall0(co, v__3513143_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512523_37);
+coraCall0(co, v__3513143_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513191_37= co->res;
-Obj _3513190_37 = R[1];
-Obj _3513192_37 = makeCons(co->gc, _3513191_37, Nil);
-Obj _3513193_37 = makeCons(co->gc, _3513190_37, _3513192_37);
-Obj _3513194_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513193_37);
-coraReturn(co, _3513194_37);
+Obj v__3513815_37= co->res;
+Obj v__3513814_37 = R[1];
+Obj v__3513816_37 = makeCons(co->gc, v__3513815_37, Nil);
+Obj v__3513817_37 = makeCons(co->gc, v__3513814_37, v__3513816_37);
+Obj v__3513818_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513817_37);
+coraReturn(co, v__3513818_37);
 return;
 }
 case 2:
 {
-Obj _3513188_37= co->res;
-Obj val = R[1];
-Obj var1 = _3513188_37;
-Obj _3513189_37 = makeCons(co->gc, var1, Nil);
-Obj _3513190_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513189_37);
-R[1] = _3513190_37;
+Obj v__3513812_37= co->res;
+Obj v__3513145_37 = R[1];
+Obj v__3513146_37 = v__3513812_37;
+Obj v__3513813_37 = makeCons(co->gc, v__3513146_37, Nil);
+Obj v__3513814_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513813_37);
+R[1] = v__3513814_37;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513145_37);
 return;
 }
 }
@@ -1308,9 +1308,9 @@ return;
 }
 case 1:
 {
-Obj _3513170_37= co->res;
+Obj v__3513794_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513170_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513794_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1320,23 +1320,23 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), x, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_x, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj _3513164_37= co->res;
-Obj _3513165_37 = primNot(_3513164_37);
-coraReturn(co, _3513165_37);
+Obj v__3513788_37= co->res;
+Obj v__3513789_37 = primNot(v__3513788_37);
+coraReturn(co, v__3513789_37);
 return;
 }
 case 2:
 {
-Obj _3513163_37= co->res;
+Obj v__3513787_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513163_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513787_37);
 return;
 }
 }
@@ -1346,44 +1346,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512506_37 = R[1];
-Obj _3512507_37 = R[2];
-Obj _3513148_37 = PRIM_EQ(Nil, _3512507_37);
-if (True == _3513148_37) {
+Obj v__3513042_37 = R[1];
+Obj v__3513043_37 = R[2];
+Obj v__3513772_37 = PRIM_EQ(Nil, v__3513043_37);
+if (True == v__3513772_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512509_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512507_37, _3512506_37);
-Obj _3513152_37 = PRIM_ISCONS(_3512507_37);
-if (True == _3513152_37) {
-Obj _3513153_37 = PRIM_CAR(_3512507_37);
-Obj _3513154_37 = PRIM_ISCONS(_3513153_37);
-if (True == _3513154_37) {
-Obj _3513155_37 = PRIM_CAR(_3512507_37);
-Obj _3513156_37 = PRIM_CAR(_3513155_37);
-Obj x = _3513156_37;
-Obj _3513157_37 = PRIM_CAR(_3512507_37);
-Obj _3513158_37 = PRIM_CDR(_3513157_37);
-Obj y = _3513158_37;
-Obj _3513159_37 = PRIM_CDR(_3512507_37);
-Obj _3513160_37 = PRIM_EQ(_3512506_37, x);
-if (True == _3513160_37) {
-Obj _3513161_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513161_37);
+Obj v__3513130_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3513043_37, v__3513042_37);
+Obj v__3513776_37 = PRIM_ISCONS(v__3513043_37);
+if (True == v__3513776_37) {
+Obj v__3513777_37 = PRIM_CAR(v__3513043_37);
+Obj v__3513778_37 = PRIM_ISCONS(v__3513777_37);
+if (True == v__3513778_37) {
+Obj v__3513779_37 = PRIM_CAR(v__3513043_37);
+Obj v__3513780_37 = PRIM_CAR(v__3513779_37);
+Obj v__3513132_37 = v__3513780_37;
+Obj v__3513781_37 = PRIM_CAR(v__3513043_37);
+Obj v__3513782_37 = PRIM_CDR(v__3513781_37);
+Obj v__3513133_37 = v__3513782_37;
+Obj v__3513783_37 = PRIM_CDR(v__3513043_37);
+Obj v__3513784_37 = PRIM_EQ(v__3513042_37, v__3513132_37);
+if (True == v__3513784_37) {
+Obj v__3513785_37 = makeCons(co->gc, v__3513132_37, v__3513133_37);
+coraReturn(co, v__3513785_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512509_37);
+coraCall0(co, v__3513130_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512509_37);
+coraCall0(co, v__3513130_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512509_37);
+coraCall0(co, v__3513130_37);
 return;
 }
 }
@@ -1395,13 +1395,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513149_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513149_37) {
-Obj _3513150_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513151_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513151_37;
+Obj v__3513773_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513773_37) {
+Obj v__3513774_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513775_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513131_37 = v__3513775_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513131_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1416,27 +1416,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512501_37 = R[1];
-Obj _3512502_37 = R[2];
-Obj _3512503_37 = R[3];
-Obj _3513067_37 = PRIM_EQ(Nil, _3512503_37);
-if (True == _3513067_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512501_37, _3512502_37);
-return;
-} else {
-Obj _3513068_37 = PRIM_ISCONS(_3512503_37);
-if (True == _3513068_37) {
-Obj _3513069_37 = PRIM_CAR(_3512503_37);
-Obj import = _3513069_37;
-Obj _3513070_37 = PRIM_CDR(_3512503_37);
-Obj more = _3513070_37;
-R[1] = import;
-R[2] = _3512501_37;
-R[3] = _3512502_37;
-R[4] = more;
+Obj v__3513037_37 = R[1];
+Obj v__3513038_37 = R[2];
+Obj v__3513039_37 = R[3];
+Obj v__3513691_37 = PRIM_EQ(Nil, v__3513039_37);
+if (True == v__3513691_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513037_37, v__3513038_37);
+return;
+} else {
+Obj v__3513692_37 = PRIM_ISCONS(v__3513039_37);
+if (True == v__3513692_37) {
+Obj v__3513693_37 = PRIM_CAR(v__3513039_37);
+Obj v__3513127_37 = v__3513693_37;
+Obj v__3513694_37 = PRIM_CDR(v__3513039_37);
+Obj v__3513128_37 = v__3513694_37;
+R[1] = v__3513127_37;
+R[2] = v__3513037_37;
+R[3] = v__3513038_37;
+R[4] = v__3513128_37;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513127_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1447,90 +1447,90 @@ return;
 }
 case 1:
 {
-Obj _3513077_37= co->res;
+Obj v__3513701_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513077_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513701_37);
 return;
 }
 case 2:
 {
-Obj _3513076_37= co->res;
-Obj import = R[1];
+Obj v__3513700_37= co->res;
+Obj v__3513127_37 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513076_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513127_37, v__3513700_37);
 return;
 }
 case 3:
 {
-Obj _3513075_37= co->res;
-Obj import = R[1];
-R[1] = import;
+Obj v__3513699_37= co->res;
+Obj v__3513127_37 = R[1];
+R[1] = v__3513127_37;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513075_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513699_37);
 return;
 }
 case 4:
 {
-Obj _3513074_37= co->res;
-Obj import = R[1];
-Obj _3512501_37 = R[2];
-Obj _3512502_37 = R[3];
-Obj more = R[4];
-if (True == _3513074_37) {
-R[1] = import;
+Obj v__3513698_37= co->res;
+Obj v__3513127_37 = R[1];
+Obj v__3513037_37 = R[2];
+Obj v__3513038_37 = R[3];
+Obj v__3513128_37 = R[4];
+if (True == v__3513698_37) {
+R[1] = v__3513127_37;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512501_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513037_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512501_37, _3512502_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513037_37, v__3513038_37, v__3513128_37);
 return;
 }
 }
 case 5:
 {
-Obj _3513073_37= co->res;
-Obj import = R[1];
-Obj _3512501_37 = R[2];
-Obj _3512502_37 = R[3];
-Obj more = R[4];
-Obj export = _3513073_37;
-R[1] = import;
-R[2] = _3512501_37;
-R[3] = _3512502_37;
-R[4] = more;
+Obj v__3513697_37= co->res;
+Obj v__3513127_37 = R[1];
+Obj v__3513037_37 = R[2];
+Obj v__3513038_37 = R[3];
+Obj v__3513128_37 = R[4];
+Obj v__3513129_37 = v__3513697_37;
+R[1] = v__3513127_37;
+R[2] = v__3513037_37;
+R[3] = v__3513038_37;
+R[4] = v__3513128_37;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512501_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3513037_37, v__3513129_37);
 return;
 }
 case 6:
 {
-Obj _3513072_37= co->res;
-Obj import = R[1];
-Obj _3512501_37 = R[2];
-Obj _3512502_37 = R[3];
-Obj more = R[4];
-R[1] = import;
-R[2] = _3512501_37;
-R[3] = _3512502_37;
-R[4] = more;
+Obj v__3513696_37= co->res;
+Obj v__3513127_37 = R[1];
+Obj v__3513037_37 = R[2];
+Obj v__3513038_37 = R[3];
+Obj v__3513128_37 = R[4];
+R[1] = v__3513127_37;
+R[2] = v__3513037_37;
+R[3] = v__3513038_37;
+R[4] = v__3513128_37;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513072_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513696_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3513071_37= co->res;
-Obj import = R[1];
-Obj _3512501_37 = R[2];
-Obj _3512502_37 = R[3];
-Obj more = R[4];
-R[1] = import;
-R[2] = _3512501_37;
-R[3] = _3512502_37;
-R[4] = more;
+Obj v__3513695_37= co->res;
+Obj v__3513127_37 = R[1];
+Obj v__3513037_37 = R[2];
+Obj v__3513038_37 = R[3];
+Obj v__3513128_37 = R[4];
+R[1] = v__3513127_37;
+R[2] = v__3513037_37;
+R[3] = v__3513038_37;
+R[4] = v__3513128_37;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513071_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513695_37);
 return;
 }
 }
@@ -1540,56 +1540,56 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj var = R[1];
-Obj ns = R[2];
-Obj _3513061_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3513061_37) {
-coraReturn(co, var);
+Obj v_var = R[1];
+Obj v_ns = R[2];
+Obj v__3513685_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v__3513685_37) {
+coraReturn(co, v_var);
 return;
 } else {
-R[1] = var;
-R[2] = ns;
+R[1] = v_var;
+R[2] = v_ns;
 saveCont(co, clofun80, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_var);
 return;
 }
 }
 case 1:
 {
-Obj _3513065_37= co->res;
+Obj v__3513689_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513065_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513689_37);
 return;
 }
 case 2:
 {
-Obj _3513064_37= co->res;
-Obj ns = R[1];
+Obj v__3513688_37= co->res;
+Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513064_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513688_37);
 return;
 }
 case 3:
 {
-Obj _3513063_37= co->res;
-Obj ns = R[1];
-R[1] = ns;
+Obj v__3513687_37= co->res;
+Obj v_ns = R[1];
+R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513063_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513687_37);
 return;
 }
 case 4:
 {
-Obj _3513062_37= co->res;
-Obj var = R[1];
-Obj ns = R[2];
-if (True == _3513062_37) {
-coraReturn(co, var);
+Obj v__3513686_37= co->res;
+Obj v_var = R[1];
+Obj v_ns = R[2];
+if (True == v__3513686_37) {
+coraReturn(co, v_var);
 return;
 } else {
-R[1] = ns;
+R[1] = v_ns;
 saveCont(co, clofun80, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_var);
 return;
 }
 }
@@ -1600,37 +1600,37 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sexp = R[1];
-R[1] = sexp;
+Obj v_sexp = R[1];
+R[1] = v_sexp;
 saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_sexp);
 return;
 }
 case 1:
 {
-Obj _3513043_37= co->res;
-Obj path = R[1];
+Obj v__3513667_37= co->res;
+Obj v__3513126_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3513043_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, v__3513667_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3513126_37));
 return;
 }
 case 2:
 {
-Obj _3513042_37= co->res;
-Obj path = R[1];
-R[1] = path;
+Obj v__3513666_37= co->res;
+Obj v__3513126_37 = R[1];
+R[1] = v__3513126_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3513042_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513666_37);
 return;
 }
 case 3:
 {
-Obj _3513041_37= co->res;
-Obj sexp = R[1];
-Obj path = _3513041_37;
-R[1] = path;
+Obj v__3513665_37= co->res;
+Obj v_sexp = R[1];
+Obj v__3513126_37 = v__3513665_37;
+R[1] = v__3513126_37;
 saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
 return;
 }
 }
@@ -1640,44 +1640,44 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj import = R[1];
-Obj export = R[2];
-Obj body = R[3];
-Obj _3513044_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
-R[1] = export;
-R[2] = body;
-R[3] = _3513044_37;
+Obj v_import = R[1];
+Obj v_export = R[2];
+Obj v_body = R[3];
+Obj v__3513668_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+R[1] = v_export;
+R[2] = v_body;
+R[3] = v__3513668_37;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj _3513054_37= co->res;
-Obj _3513044_37 = R[1];
-Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3513054_37);
-Obj _3513056_37 = makeCons(co->gc, _3513055_37, Nil);
-Obj _3513057_37 = makeCons(co->gc, _3513044_37, _3513056_37);
-Obj _3513058_37 = makeCons(co->gc, closureRef(R[0], 0), _3513057_37);
-Obj _3513059_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513058_37);
-coraReturn(co, _3513059_37);
+Obj v__3513678_37= co->res;
+Obj v__3513668_37 = R[1];
+Obj v__3513679_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513678_37);
+Obj v__3513680_37 = makeCons(co->gc, v__3513679_37, Nil);
+Obj v__3513681_37 = makeCons(co->gc, v__3513668_37, v__3513680_37);
+Obj v__3513682_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513681_37);
+Obj v__3513683_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513682_37);
+coraReturn(co, v__3513683_37);
 return;
 }
 case 2:
 {
-Obj _3513047_37= co->res;
-Obj export = R[1];
-Obj body = R[2];
-Obj _3513044_37 = R[3];
-Obj _3513048_37 = makeCons(co->gc, export, Nil);
-Obj _3513049_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3513048_37);
-Obj _3513050_37 = makeCons(co->gc, _3513049_37, Nil);
-Obj _3513051_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513050_37);
-Obj _3513052_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513051_37);
-Obj _3513053_37 = makeCons(co->gc, _3513052_37, body);
-R[1] = _3513044_37;
+Obj v__3513671_37= co->res;
+Obj v_export = R[1];
+Obj v_body = R[2];
+Obj v__3513668_37 = R[3];
+Obj v__3513672_37 = makeCons(co->gc, v_export, Nil);
+Obj v__3513673_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513672_37);
+Obj v__3513674_37 = makeCons(co->gc, v__3513673_37, Nil);
+Obj v__3513675_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513674_37);
+Obj v__3513676_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513675_37);
+Obj v__3513677_37 = makeCons(co->gc, v__3513676_37, v_body);
+R[1] = v__3513668_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513047_37, _3513053_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513671_37, v__3513677_37);
 return;
 }
 }
@@ -1687,10 +1687,10 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj imp = R[1];
-Obj _3513045_37 = makeCons(co->gc, imp, Nil);
-Obj _3513046_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513045_37);
-coraReturn(co, _3513046_37);
+Obj v_imp = R[1];
+Obj v__3513669_37 = makeCons(co->gc, v_imp, Nil);
+Obj v__3513670_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513669_37);
+coraReturn(co, v__3513670_37);
 return;
 }
 }
@@ -1700,10 +1700,10 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj data = R[1];
-Obj k = R[2];
+Obj v_data = R[1];
+Obj v_k = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), data, Nil, Nil, k);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_data, Nil, Nil, v_k);
 return;
 }
 }
@@ -1713,62 +1713,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512494_37 = R[1];
-Obj _3512495_37 = R[2];
-Obj _3512496_37 = R[3];
-Obj _3512497_37 = R[4];
-Obj _3512498_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512496_37, _3512494_37, _3512495_37, _3512497_37);
-Obj _3513021_37 = PRIM_ISCONS(_3512494_37);
-if (True == _3513021_37) {
-Obj _3513022_37 = PRIM_CAR(_3512494_37);
-Obj _3513023_37 = PRIM_ISCONS(_3513022_37);
-if (True == _3513023_37) {
-Obj _3513024_37 = PRIM_CAR(_3512494_37);
-Obj _3513025_37 = PRIM_CAR(_3513024_37);
-Obj _3513026_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513025_37);
-if (True == _3513026_37) {
-Obj _3513027_37 = PRIM_CAR(_3512494_37);
-Obj _3513028_37 = PRIM_CDR(_3513027_37);
-Obj _3513029_37 = PRIM_ISCONS(_3513028_37);
-if (True == _3513029_37) {
-Obj _3513030_37 = PRIM_CAR(_3512494_37);
-Obj _3513031_37 = PRIM_CDR(_3513030_37);
-Obj _3513032_37 = PRIM_CAR(_3513031_37);
-Obj lib = _3513032_37;
-Obj _3513033_37 = PRIM_CAR(_3512494_37);
-Obj _3513034_37 = PRIM_CDR(_3513033_37);
-Obj _3513035_37 = PRIM_CDR(_3513034_37);
-Obj _3513036_37 = PRIM_EQ(Nil, _3513035_37);
-if (True == _3513036_37) {
-Obj _3513037_37 = PRIM_CDR(_3512494_37);
-Obj rest = _3513037_37;
-Obj _3513038_37 = makeCons(co->gc, lib, _3512495_37);
+Obj v__3513030_37 = R[1];
+Obj v__3513031_37 = R[2];
+Obj v__3513032_37 = R[3];
+Obj v__3513033_37 = R[4];
+Obj v__3513120_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3513032_37, v__3513030_37, v__3513031_37, v__3513033_37);
+Obj v__3513645_37 = PRIM_ISCONS(v__3513030_37);
+if (True == v__3513645_37) {
+Obj v__3513646_37 = PRIM_CAR(v__3513030_37);
+Obj v__3513647_37 = PRIM_ISCONS(v__3513646_37);
+if (True == v__3513647_37) {
+Obj v__3513648_37 = PRIM_CAR(v__3513030_37);
+Obj v__3513649_37 = PRIM_CAR(v__3513648_37);
+Obj v__3513650_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513649_37);
+if (True == v__3513650_37) {
+Obj v__3513651_37 = PRIM_CAR(v__3513030_37);
+Obj v__3513652_37 = PRIM_CDR(v__3513651_37);
+Obj v__3513653_37 = PRIM_ISCONS(v__3513652_37);
+if (True == v__3513653_37) {
+Obj v__3513654_37 = PRIM_CAR(v__3513030_37);
+Obj v__3513655_37 = PRIM_CDR(v__3513654_37);
+Obj v__3513656_37 = PRIM_CAR(v__3513655_37);
+Obj v__3513124_37 = v__3513656_37;
+Obj v__3513657_37 = PRIM_CAR(v__3513030_37);
+Obj v__3513658_37 = PRIM_CDR(v__3513657_37);
+Obj v__3513659_37 = PRIM_CDR(v__3513658_37);
+Obj v__3513660_37 = PRIM_EQ(Nil, v__3513659_37);
+if (True == v__3513660_37) {
+Obj v__3513661_37 = PRIM_CDR(v__3513030_37);
+Obj v__3513125_37 = v__3513661_37;
+Obj v__3513662_37 = makeCons(co->gc, v__3513124_37, v__3513031_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3513038_37, _3512496_37, _3512497_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513125_37, v__3513662_37, v__3513032_37, v__3513033_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512498_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512498_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512498_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512498_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512498_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 }
@@ -1779,37 +1779,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512499_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513012_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3513012_37) {
-Obj _3513013_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513014_37 = PRIM_ISCONS(_3513013_37);
-if (True == _3513014_37) {
-Obj _3513015_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513016_37 = PRIM_CAR(_3513015_37);
-Obj _3513017_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3513016_37);
-if (True == _3513017_37) {
-Obj _3513018_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513019_37 = PRIM_CDR(_3513018_37);
-Obj more = _3513019_37;
-Obj _3513020_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3513020_37;
+Obj v__3513121_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513636_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513636_37) {
+Obj v__3513637_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513638_37 = PRIM_ISCONS(v__3513637_37);
+if (True == v__3513638_37) {
+Obj v__3513639_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513640_37 = PRIM_CAR(v__3513639_37);
+Obj v__3513641_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513640_37);
+if (True == v__3513641_37) {
+Obj v__3513642_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513643_37 = PRIM_CDR(v__3513642_37);
+Obj v__3513122_37 = v__3513643_37;
+Obj v__3513644_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513123_37 = v__3513644_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513123_37, closureRef(R[0], 2), v__3513122_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512499_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512499_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512499_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 }
@@ -1826,9 +1826,9 @@ return;
 }
 case 1:
 {
-Obj _3513011_37= co->res;
+Obj v__3513635_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3513011_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3513635_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1838,27 +1838,27 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513009_37= co->res;
-Obj _3513008_37 = R[1];
+Obj v__3513633_37= co->res;
+Obj v__3513632_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3513008_37, _3513009_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513632_37, v__3513633_37);
 return;
 }
 case 2:
 {
-Obj _3513008_37= co->res;
-Obj exp = R[1];
-R[1] = _3513008_37;
+Obj v__3513632_37= co->res;
+Obj v_exp = R[1];
+R[1] = v__3513632_37;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -1868,67 +1868,67 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj fn = R[1];
-Obj arglist = R[2];
-R[1] = arglist;
-R[2] = fn;
+Obj v_fn = R[1];
+Obj v_arglist = R[2];
+R[1] = v_arglist;
+R[2] = v_fn;
 saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_arglist);
 return;
 }
 case 1:
 {
-Obj _3512997_37= co->res;
-Obj _3512996_37 = R[1];
-Obj fn = R[2];
-Obj _3512998_37 = makeCons(co->gc, _3512997_37, Nil);
-Obj _3512999_37 = makeCons(co->gc, _3512996_37, _3512998_37);
-Obj _3513000_37 = makeCons(co->gc, fn, _3512999_37);
-coraReturn(co, _3513000_37);
+Obj v__3513621_37= co->res;
+Obj v__3513620_37 = R[1];
+Obj v_fn = R[2];
+Obj v__3513622_37 = makeCons(co->gc, v__3513621_37, Nil);
+Obj v__3513623_37 = makeCons(co->gc, v__3513620_37, v__3513622_37);
+Obj v__3513624_37 = makeCons(co->gc, v_fn, v__3513623_37);
+coraReturn(co, v__3513624_37);
 return;
 }
 case 2:
 {
-Obj _3513003_37= co->res;
-Obj _3513001_37 = R[1];
-Obj fn = R[2];
-Obj _3513004_37 = makeCons(co->gc, _3513003_37, Nil);
-Obj _3513005_37 = makeCons(co->gc, _3513001_37, _3513004_37);
-Obj _3513006_37 = makeCons(co->gc, fn, _3513005_37);
-coraReturn(co, _3513006_37);
+Obj v__3513627_37= co->res;
+Obj v__3513625_37 = R[1];
+Obj v_fn = R[2];
+Obj v__3513628_37 = makeCons(co->gc, v__3513627_37, Nil);
+Obj v__3513629_37 = makeCons(co->gc, v__3513625_37, v__3513628_37);
+Obj v__3513630_37 = makeCons(co->gc, v_fn, v__3513629_37);
+coraReturn(co, v__3513630_37);
 return;
 }
 case 3:
 {
-Obj _3512995_37= co->res;
-Obj arglist = R[1];
-Obj fn = R[2];
-if (True == _3512995_37) {
-Obj _3512996_37 = PRIM_CAR(arglist);
-R[1] = _3512996_37;
-R[2] = fn;
+Obj v__3513619_37= co->res;
+Obj v_arglist = R[1];
+Obj v_fn = R[2];
+if (True == v__3513619_37) {
+Obj v__3513620_37 = PRIM_CAR(v_arglist);
+R[1] = v__3513620_37;
+R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj _3513001_37 = PRIM_CAR(arglist);
-Obj _3513002_37 = PRIM_CDR(arglist);
-R[1] = _3513001_37;
-R[2] = fn;
+Obj v__3513625_37 = PRIM_CAR(v_arglist);
+Obj v__3513626_37 = PRIM_CDR(v_arglist);
+R[1] = v__3513625_37;
+R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3513002_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513626_37);
 return;
 }
 }
 case 4:
 {
-Obj _3512994_37= co->res;
-Obj arglist = R[1];
-Obj fn = R[2];
-R[1] = arglist;
-R[2] = fn;
+Obj v__3513618_37= co->res;
+Obj v_arglist = R[1];
+Obj v_fn = R[2];
+R[1] = v_arglist;
+R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512994_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513618_37);
 return;
 }
 }
@@ -1938,16 +1938,16 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512992_37= co->res;
+Obj v__3513616_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512992_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513616_37);
 return;
 }
 }
@@ -1957,50 +1957,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512489_37 = R[1];
-Obj _3512972_37 = primIsSymbol(_3512489_37);
-if (True == _3512972_37) {
-Obj _3512973_37 = makeCons(co->gc, _3512489_37, Nil);
-Obj _3512974_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512973_37);
-coraReturn(co, _3512974_37);
+Obj v__3513025_37 = R[1];
+Obj v__3513596_37 = primIsSymbol(v__3513025_37);
+if (True == v__3513596_37) {
+Obj v__3513597_37 = makeCons(co->gc, v__3513025_37, Nil);
+Obj v__3513598_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513597_37);
+coraReturn(co, v__3513598_37);
 return;
 } else {
-Obj _3512491_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512489_37);
-Obj _3512981_37 = PRIM_ISCONS(_3512489_37);
-if (True == _3512981_37) {
-Obj _3512982_37 = PRIM_CAR(_3512489_37);
-Obj _3512983_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512982_37);
-if (True == _3512983_37) {
-Obj _3512984_37 = PRIM_CDR(_3512489_37);
-Obj _3512985_37 = PRIM_ISCONS(_3512984_37);
-if (True == _3512985_37) {
-Obj _3512986_37 = PRIM_CDR(_3512489_37);
-Obj _3512987_37 = PRIM_CAR(_3512986_37);
-Obj x = _3512987_37;
-Obj _3512988_37 = PRIM_CDR(_3512489_37);
-Obj _3512989_37 = PRIM_CDR(_3512988_37);
-Obj _3512990_37 = PRIM_EQ(Nil, _3512989_37);
-if (True == _3512990_37) {
-coraReturn(co, x);
+Obj v__3513116_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3513025_37);
+Obj v__3513605_37 = PRIM_ISCONS(v__3513025_37);
+if (True == v__3513605_37) {
+Obj v__3513606_37 = PRIM_CAR(v__3513025_37);
+Obj v__3513607_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513606_37);
+if (True == v__3513607_37) {
+Obj v__3513608_37 = PRIM_CDR(v__3513025_37);
+Obj v__3513609_37 = PRIM_ISCONS(v__3513608_37);
+if (True == v__3513609_37) {
+Obj v__3513610_37 = PRIM_CDR(v__3513025_37);
+Obj v__3513611_37 = PRIM_CAR(v__3513610_37);
+Obj v__3513119_37 = v__3513611_37;
+Obj v__3513612_37 = PRIM_CDR(v__3513025_37);
+Obj v__3513613_37 = PRIM_CDR(v__3513612_37);
+Obj v__3513614_37 = PRIM_EQ(Nil, v__3513613_37);
+if (True == v__3513614_37) {
+coraReturn(co, v__3513119_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512491_37);
+coraCall0(co, v__3513116_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512491_37);
+coraCall0(co, v__3513116_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512491_37);
+coraCall0(co, v__3513116_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512491_37);
+coraCall0(co, v__3513116_37);
 return;
 }
 }
@@ -2012,15 +2012,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512975_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512975_37) {
-Obj _3512976_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512976_37;
-Obj _3512977_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512977_37;
-Obj _3512978_37 = makeCons(co->gc, x, more);
+Obj v__3513599_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513599_37) {
+Obj v__3513600_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513117_37 = v__3513600_37;
+Obj v__3513601_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513118_37 = v__3513601_37;
+Obj v__3513602_37 = makeCons(co->gc, v__3513117_37, v__3513118_37);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512978_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3513602_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2029,9 +2029,9 @@ return;
 }
 case 1:
 {
-Obj _3512979_37= co->res;
-Obj _3512980_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512979_37);
-coraReturn(co, _3512980_37);
+Obj v__3513603_37= co->res;
+Obj v__3513604_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513603_37);
+coraReturn(co, v__3513604_37);
 return;
 }
 }
@@ -2041,10 +2041,10 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512970_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513594_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512970_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513594_37);
 return;
 }
 }
@@ -2054,25 +2054,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512485_37 = R[1];
-Obj _3512486_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512485_37);
-Obj _3512965_37 = PRIM_ISCONS(_3512485_37);
-if (True == _3512965_37) {
-Obj _3512966_37 = PRIM_CAR(_3512485_37);
-Obj x = _3512966_37;
-Obj _3512967_37 = PRIM_CDR(_3512485_37);
-Obj _3512968_37 = PRIM_EQ(Nil, _3512967_37);
-if (True == _3512968_37) {
-coraReturn(co, x);
+Obj v__3513021_37 = R[1];
+Obj v__3513109_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3513021_37);
+Obj v__3513589_37 = PRIM_ISCONS(v__3513021_37);
+if (True == v__3513589_37) {
+Obj v__3513590_37 = PRIM_CAR(v__3513021_37);
+Obj v__3513115_37 = v__3513590_37;
+Obj v__3513591_37 = PRIM_CDR(v__3513021_37);
+Obj v__3513592_37 = PRIM_EQ(Nil, v__3513591_37);
+if (True == v__3513592_37) {
+coraReturn(co, v__3513115_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512486_37);
+coraCall0(co, v__3513109_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512486_37);
+coraCall0(co, v__3513109_37);
 return;
 }
 }
@@ -2083,39 +2083,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512487_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512953_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512953_37) {
-Obj _3512954_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512954_37;
-Obj _3512955_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512956_37 = PRIM_ISCONS(_3512955_37);
-if (True == _3512956_37) {
-Obj _3512957_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512958_37 = PRIM_CAR(_3512957_37);
-Obj y = _3512958_37;
-Obj _3512959_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512960_37 = PRIM_CDR(_3512959_37);
-Obj _3512961_37 = PRIM_EQ(Nil, _3512960_37);
-if (True == _3512961_37) {
-Obj _3512962_37 = makeCons(co->gc, y, Nil);
-Obj _3512963_37 = makeCons(co->gc, x, _3512962_37);
-Obj _3512964_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512963_37);
-coraReturn(co, _3512964_37);
+Obj v__3513110_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v__3513577_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513577_37) {
+Obj v__3513578_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513113_37 = v__3513578_37;
+Obj v__3513579_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513580_37 = PRIM_ISCONS(v__3513579_37);
+if (True == v__3513580_37) {
+Obj v__3513581_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513582_37 = PRIM_CAR(v__3513581_37);
+Obj v__3513114_37 = v__3513582_37;
+Obj v__3513583_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513584_37 = PRIM_CDR(v__3513583_37);
+Obj v__3513585_37 = PRIM_EQ(Nil, v__3513584_37);
+if (True == v__3513585_37) {
+Obj v__3513586_37 = makeCons(co->gc, v__3513114_37, Nil);
+Obj v__3513587_37 = makeCons(co->gc, v__3513113_37, v__3513586_37);
+Obj v__3513588_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513587_37);
+coraReturn(co, v__3513588_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512487_37);
+coraCall0(co, v__3513110_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512487_37);
+coraCall0(co, v__3513110_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512487_37);
+coraCall0(co, v__3513110_37);
 return;
 }
 }
@@ -2126,15 +2126,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512946_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512946_37) {
-Obj _3512947_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512947_37;
-Obj _3512948_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512948_37;
-R[1] = x;
+Obj v__3513570_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513570_37) {
+Obj v__3513571_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513111_37 = v__3513571_37;
+Obj v__3513572_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513112_37 = v__3513572_37;
+R[1] = v__3513111_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), y);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513112_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2144,12 +2144,12 @@ return;
 }
 case 1:
 {
-Obj _3512949_37= co->res;
-Obj x = R[1];
-Obj _3512950_37 = makeCons(co->gc, _3512949_37, Nil);
-Obj _3512951_37 = makeCons(co->gc, x, _3512950_37);
-Obj _3512952_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512951_37);
-coraReturn(co, _3512952_37);
+Obj v__3513573_37= co->res;
+Obj v__3513111_37 = R[1];
+Obj v__3513574_37 = makeCons(co->gc, v__3513573_37, Nil);
+Obj v__3513575_37 = makeCons(co->gc, v__3513111_37, v__3513574_37);
+Obj v__3513576_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513575_37);
+coraReturn(co, v__3513576_37);
 return;
 }
 }
@@ -2159,23 +2159,23 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512944_37= co->res;
+Obj v__3513568_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512944_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513568_37);
 return;
 }
 case 2:
 {
-Obj _3512943_37= co->res;
+Obj v__3513567_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512943_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513567_37);
 return;
 }
 }
@@ -2185,8 +2185,8 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-coraReturn(co, x);
+Obj v_x = R[1];
+coraReturn(co, v_x);
 return;
 }
 }
@@ -2196,9 +2196,9 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v_exp);
 return;
 }
 }
@@ -2208,69 +2208,69 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512932_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-Obj _3512933_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
-Obj _3512934_37 = makeCons(co->gc, _3512933_37, body);
-Obj _3512935_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512934_37);
-Obj _3512936_37 = makeCons(co->gc, _3512935_37, Nil);
-Obj _3512937_37 = makeCons(co->gc, args, _3512936_37);
-Obj _3512938_37 = makeCons(co->gc, _3512932_37, _3512937_37);
-Obj _3512939_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512938_37);
-coraReturn(co, _3512939_37);
+Obj v__3513556_37= co->res;
+Obj v__3513106_37 = R[1];
+Obj v__3513108_37 = R[2];
+Obj v__3513557_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513108_37);
+Obj v__3513558_37 = makeCons(co->gc, v__3513557_37, v__3513106_37);
+Obj v__3513559_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3513558_37);
+Obj v__3513560_37 = makeCons(co->gc, v__3513559_37, Nil);
+Obj v__3513561_37 = makeCons(co->gc, v__3513108_37, v__3513560_37);
+Obj v__3513562_37 = makeCons(co->gc, v__3513556_37, v__3513561_37);
+Obj v__3513563_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513562_37);
+coraReturn(co, v__3513563_37);
 return;
 }
 case 2:
 {
-Obj _3512931_37= co->res;
-Obj exp = R[1];
-Obj body = R[2];
-Obj args = _3512931_37;
-R[1] = body;
-R[2] = args;
+Obj v__3513555_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513106_37 = R[2];
+Obj v__3513108_37 = v__3513555_37;
+R[1] = v__3513106_37;
+R[2] = v__3513108_37;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512930_37= co->res;
-Obj exp = R[1];
-Obj body = R[2];
-Obj nargs = _3512930_37;
-R[1] = exp;
-R[2] = body;
+Obj v__3513554_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513106_37 = R[2];
+Obj v__3513107_37 = v__3513554_37;
+R[1] = v_exp;
+R[2] = v__3513106_37;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), nargs);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513107_37);
 return;
 }
 case 4:
 {
-Obj _3512929_37= co->res;
-Obj exp = R[1];
-Obj body = _3512929_37;
-R[1] = exp;
-R[2] = body;
+Obj v__3513553_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513106_37 = v__3513553_37;
+R[1] = v_exp;
+R[2] = v__3513106_37;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513106_37);
 return;
 }
 case 5:
 {
-Obj _3512928_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v__3513552_37= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512928_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513552_37);
 return;
 }
 }
@@ -2280,26 +2280,26 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj n = R[1];
-Obj _3512922_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512922_37) {
+Obj v_n = R[1];
+Obj v__3513546_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v__3513546_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512923_37 = primGenSym(co);
-Obj _3512924_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512923_37;
+Obj v__3513547_37 = primGenSym(co);
+Obj v__3513548_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v__3513547_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512924_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513548_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512925_37= co->res;
-Obj _3512923_37 = R[1];
-Obj _3512926_37 = makeCons(co->gc, _3512923_37, _3512925_37);
-coraReturn(co, _3512926_37);
+Obj v__3513549_37= co->res;
+Obj v__3513547_37 = R[1];
+Obj v__3513550_37 = makeCons(co->gc, v__3513547_37, v__3513549_37);
+coraReturn(co, v__3513550_37);
 return;
 }
 }
@@ -2309,52 +2309,52 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rules = R[1];
+Obj v_rules = R[1];
 saveCont(co, clofun58, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, rules);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v_rules);
 return;
 }
 case 1:
 {
-Obj _3512919_37= co->res;
-Obj n = R[1];
-Obj _3512920_37 = primNot(_3512919_37);
-if (True == _3512920_37) {
+Obj v__3513543_37= co->res;
+Obj v__3513105_37 = R[1];
+Obj v__3513544_37 = primNot(v__3513543_37);
+if (True == v__3513544_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, n);
+coraReturn(co, v__3513105_37);
 return;
 }
 }
 case 2:
 {
-Obj _3512918_37= co->res;
-Obj n = R[1];
-R[1] = n;
+Obj v__3513542_37= co->res;
+Obj v__3513105_37 = R[1];
+R[1] = v__3513105_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512918_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513542_37);
 return;
 }
 case 3:
 {
-Obj _3512913_37= co->res;
-Obj counts = _3512913_37;
-Obj _3512914_37 = PRIM_CAR(counts);
-Obj n = _3512914_37;
-Obj _3512917_37 = PRIM_CDR(counts);
-R[1] = n;
+Obj v__3513537_37= co->res;
+Obj v__3513104_37 = v__3513537_37;
+Obj v__3513538_37 = PRIM_CAR(v__3513104_37);
+Obj v__3513105_37 = v__3513538_37;
+Obj v__3513541_37 = PRIM_CDR(v__3513104_37);
+R[1] = v__3513105_37;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512917_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3513105_37), v__3513541_37);
 return;
 }
 case 4:
 {
-Obj _3512911_37= co->res;
-Obj pats = _3512911_37;
+Obj v__3513535_37= co->res;
+Obj v__3513103_37 = v__3513535_37;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3513103_37);
 return;
 }
 }
@@ -2364,10 +2364,10 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512915_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512916_37 = primNot(_3512915_37);
-coraReturn(co, _3512916_37);
+Obj v_x = R[1];
+Obj v__3513539_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v__3513540_37 = primNot(v__3513539_37);
+coraReturn(co, v__3513540_37);
 return;
 }
 }
@@ -2377,10 +2377,10 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512912_37 = PRIM_CDR(x);
+Obj v_x = R[1];
+Obj v__3513536_37 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512912_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513536_37);
 return;
 }
 }
@@ -2390,27 +2390,27 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l1 = R[1];
-Obj l2 = R[2];
-Obj _3512905_37 = PRIM_EQ(l1, Nil);
-if (True == _3512905_37) {
-coraReturn(co, l2);
+Obj v_l1 = R[1];
+Obj v_l2 = R[2];
+Obj v__3513529_37 = PRIM_EQ(v_l1, Nil);
+if (True == v__3513529_37) {
+coraReturn(co, v_l2);
 return;
 } else {
-Obj _3512906_37 = PRIM_CAR(l1);
-Obj _3512907_37 = PRIM_CDR(l1);
-R[1] = _3512906_37;
+Obj v__3513530_37 = PRIM_CAR(v_l1);
+Obj v__3513531_37 = PRIM_CDR(v_l1);
+R[1] = v__3513530_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512907_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513531_37, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512908_37= co->res;
-Obj _3512906_37 = R[1];
-Obj _3512909_37 = makeCons(co->gc, _3512906_37, _3512908_37);
-coraReturn(co, _3512909_37);
+Obj v__3513532_37= co->res;
+Obj v__3513530_37 = R[1];
+Obj v__3513533_37 = makeCons(co->gc, v__3513530_37, v__3513532_37);
+coraReturn(co, v__3513533_37);
 return;
 }
 }
@@ -2420,10 +2420,10 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj fn = R[1];
-Obj l = R[2];
+Obj v_fn = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, fn, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v_fn, v_l);
 return;
 }
 }
@@ -2433,41 +2433,41 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj fn = R[2];
-Obj l = R[3];
-Obj _3512896_37 = PRIM_ISCONS(l);
-if (True == _3512896_37) {
-Obj _3512897_37 = PRIM_CAR(l);
-R[1] = l;
-R[2] = res;
-R[3] = fn;
+Obj v_res = R[1];
+Obj v_fn = R[2];
+Obj v_l = R[3];
+Obj v__3513520_37 = PRIM_ISCONS(v_l);
+if (True == v__3513520_37) {
+Obj v__3513521_37 = PRIM_CAR(v_l);
+R[1] = v_l;
+R[2] = v_res;
+R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512897_37);
+coraCall1(co, v_fn, v__3513521_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj _3512898_37= co->res;
-Obj l = R[1];
-Obj res = R[2];
-Obj fn = R[3];
-if (True == _3512898_37) {
-Obj _3512899_37 = PRIM_CAR(l);
-Obj _3512900_37 = makeCons(co->gc, _3512899_37, res);
-Obj _3512901_37 = PRIM_CDR(l);
+Obj v__3513522_37= co->res;
+Obj v_l = R[1];
+Obj v_res = R[2];
+Obj v_fn = R[3];
+if (True == v__3513522_37) {
+Obj v__3513523_37 = PRIM_CAR(v_l);
+Obj v__3513524_37 = makeCons(co->gc, v__3513523_37, v_res);
+Obj v__3513525_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512900_37, fn, _3512901_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513524_37, v_fn, v__3513525_37);
 return;
 } else {
-Obj _3512902_37 = PRIM_CDR(l);
+Obj v__3513526_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512902_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513526_37);
 return;
 }
 }
@@ -2478,9 +2478,9 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
+Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), l);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v_l);
 return;
 }
 }
@@ -2490,17 +2490,17 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj i = R[1];
-Obj l = R[2];
-Obj _3512891_37 = PRIM_EQ(l, Nil);
-if (True == _3512891_37) {
-coraReturn(co, i);
+Obj v_i = R[1];
+Obj v_l = R[2];
+Obj v__3513515_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513515_37) {
+coraReturn(co, v_i);
 return;
 } else {
-Obj _3512892_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512893_37 = PRIM_CDR(l);
+Obj v__3513516_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v__3513517_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512892_37, _3512893_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513516_37, v__3513517_37);
 return;
 }
 }
@@ -2511,37 +2511,37 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj rules = R[2];
-R[1] = res;
-R[2] = rules;
+Obj v_res = R[1];
+Obj v_rules = R[2];
+R[1] = v_res;
+R[2] = v_rules;
 saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
 return;
 }
 case 1:
 {
-Obj _3512889_37= co->res;
-Obj _3512888_37 = R[1];
+Obj v__3513513_37= co->res;
+Obj v__3513512_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512888_37, _3512889_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513512_37, v__3513513_37);
 return;
 }
 case 2:
 {
-Obj _3512886_37= co->res;
-Obj res = R[1];
-Obj rules = R[2];
-if (True == _3512886_37) {
+Obj v__3513510_37= co->res;
+Obj v_res = R[1];
+Obj v_rules = R[2];
+if (True == v__3513510_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj _3512887_37 = PRIM_CAR(rules);
-Obj _3512888_37 = makeCons(co->gc, _3512887_37, res);
-R[1] = _3512888_37;
+Obj v__3513511_37 = PRIM_CAR(v_rules);
+Obj v__3513512_37 = makeCons(co->gc, v__3513511_37, v_res);
+R[1] = v__3513512_37;
 saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
 }
 }
@@ -2552,9 +2552,9 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj input = R[1];
+Obj v_input = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), input, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_input, Nil, Nil);
 return;
 }
 }
@@ -2564,106 +2564,106 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj input = R[1];
-Obj current = R[2];
-Obj result = R[3];
-Obj _3512833_37 = PRIM_EQ(Nil, input);
-if (True == _3512833_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
-return;
-} else {
-Obj _3512482_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512851_37 = PRIM_ISCONS(input);
-if (True == _3512851_37) {
-Obj _3512852_37 = PRIM_CAR(input);
-Obj _3512853_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512852_37);
-if (True == _3512853_37) {
-Obj _3512854_37 = PRIM_CDR(input);
-Obj _3512855_37 = PRIM_ISCONS(_3512854_37);
-if (True == _3512855_37) {
-Obj _3512856_37 = PRIM_CDR(input);
-Obj _3512857_37 = PRIM_CAR(_3512856_37);
-Obj act = _3512857_37;
-Obj _3512858_37 = PRIM_CDR(input);
-Obj _3512859_37 = PRIM_CDR(_3512858_37);
-Obj _3512860_37 = PRIM_ISCONS(_3512859_37);
-if (True == _3512860_37) {
-Obj _3512861_37 = PRIM_CDR(input);
-Obj _3512862_37 = PRIM_CDR(_3512861_37);
-Obj _3512863_37 = PRIM_CAR(_3512862_37);
-Obj _3512864_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512863_37);
-if (True == _3512864_37) {
-Obj _3512865_37 = PRIM_CDR(input);
-Obj _3512866_37 = PRIM_CDR(_3512865_37);
-Obj _3512867_37 = PRIM_CDR(_3512866_37);
-Obj _3512868_37 = PRIM_ISCONS(_3512867_37);
-if (True == _3512868_37) {
-Obj _3512869_37 = PRIM_CDR(input);
-Obj _3512870_37 = PRIM_CDR(_3512869_37);
-Obj _3512871_37 = PRIM_CDR(_3512870_37);
-Obj _3512872_37 = PRIM_CAR(_3512871_37);
-Obj pred = _3512872_37;
-Obj _3512873_37 = PRIM_CDR(input);
-Obj _3512874_37 = PRIM_CDR(_3512873_37);
-Obj _3512875_37 = PRIM_CDR(_3512874_37);
-Obj _3512876_37 = PRIM_CDR(_3512875_37);
-Obj remain = _3512876_37;
-R[1] = act;
-R[2] = pred;
-R[3] = result;
-R[4] = remain;
+Obj v_input = R[1];
+Obj v_current = R[2];
+Obj v_result = R[3];
+Obj v__3513457_37 = PRIM_EQ(Nil, v_input);
+if (True == v__3513457_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
+return;
+} else {
+Obj v__3513092_37 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v__3513475_37 = PRIM_ISCONS(v_input);
+if (True == v__3513475_37) {
+Obj v__3513476_37 = PRIM_CAR(v_input);
+Obj v__3513477_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513476_37);
+if (True == v__3513477_37) {
+Obj v__3513478_37 = PRIM_CDR(v_input);
+Obj v__3513479_37 = PRIM_ISCONS(v__3513478_37);
+if (True == v__3513479_37) {
+Obj v__3513480_37 = PRIM_CDR(v_input);
+Obj v__3513481_37 = PRIM_CAR(v__3513480_37);
+Obj v__3513099_37 = v__3513481_37;
+Obj v__3513482_37 = PRIM_CDR(v_input);
+Obj v__3513483_37 = PRIM_CDR(v__3513482_37);
+Obj v__3513484_37 = PRIM_ISCONS(v__3513483_37);
+if (True == v__3513484_37) {
+Obj v__3513485_37 = PRIM_CDR(v_input);
+Obj v__3513486_37 = PRIM_CDR(v__3513485_37);
+Obj v__3513487_37 = PRIM_CAR(v__3513486_37);
+Obj v__3513488_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3513487_37);
+if (True == v__3513488_37) {
+Obj v__3513489_37 = PRIM_CDR(v_input);
+Obj v__3513490_37 = PRIM_CDR(v__3513489_37);
+Obj v__3513491_37 = PRIM_CDR(v__3513490_37);
+Obj v__3513492_37 = PRIM_ISCONS(v__3513491_37);
+if (True == v__3513492_37) {
+Obj v__3513493_37 = PRIM_CDR(v_input);
+Obj v__3513494_37 = PRIM_CDR(v__3513493_37);
+Obj v__3513495_37 = PRIM_CDR(v__3513494_37);
+Obj v__3513496_37 = PRIM_CAR(v__3513495_37);
+Obj v__3513100_37 = v__3513496_37;
+Obj v__3513497_37 = PRIM_CDR(v_input);
+Obj v__3513498_37 = PRIM_CDR(v__3513497_37);
+Obj v__3513499_37 = PRIM_CDR(v__3513498_37);
+Obj v__3513500_37 = PRIM_CDR(v__3513499_37);
+Obj v__3513101_37 = v__3513500_37;
+R[1] = v__3513099_37;
+R[2] = v__3513100_37;
+R[3] = v_result;
+R[4] = v__3513101_37;
 saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512482_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512482_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512482_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512482_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512482_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512482_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512877_37= co->res;
-Obj act = R[1];
-Obj pred = R[2];
-Obj result = R[3];
-Obj remain = R[4];
-Obj _3512878_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512877_37);
-Obj pat = _3512878_37;
-Obj _3512879_37 = makeCons(co->gc, act, Nil);
-Obj _3512880_37 = makeCons(co->gc, pred, _3512879_37);
-Obj _3512881_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512880_37);
-Obj _3512882_37 = makeCons(co->gc, pat, result);
-Obj _3512883_37 = makeCons(co->gc, _3512881_37, _3512882_37);
+Obj v__3513501_37= co->res;
+Obj v__3513099_37 = R[1];
+Obj v__3513100_37 = R[2];
+Obj v_result = R[3];
+Obj v__3513101_37 = R[4];
+Obj v__3513502_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513501_37);
+Obj v__3513102_37 = v__3513502_37;
+Obj v__3513503_37 = makeCons(co->gc, v__3513099_37, Nil);
+Obj v__3513504_37 = makeCons(co->gc, v__3513100_37, v__3513503_37);
+Obj v__3513505_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3513504_37);
+Obj v__3513506_37 = makeCons(co->gc, v__3513102_37, v_result);
+Obj v__3513507_37 = makeCons(co->gc, v__3513505_37, v__3513506_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512883_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513101_37, Nil, v__3513507_37);
 return;
 }
 }
@@ -2673,53 +2673,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512483_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512838_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512838_37) {
-Obj _3512839_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512840_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512839_37);
-if (True == _3512840_37) {
-Obj _3512841_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512842_37 = PRIM_ISCONS(_3512841_37);
-if (True == _3512842_37) {
-Obj _3512843_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512844_37 = PRIM_CAR(_3512843_37);
-Obj act = _3512844_37;
-Obj _3512845_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512846_37 = PRIM_CDR(_3512845_37);
-Obj remain = _3512846_37;
-R[1] = act;
-R[2] = remain;
+Obj v__3513093_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3513462_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513462_37) {
+Obj v__3513463_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513464_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513463_37);
+if (True == v__3513464_37) {
+Obj v__3513465_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513466_37 = PRIM_ISCONS(v__3513465_37);
+if (True == v__3513466_37) {
+Obj v__3513467_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513468_37 = PRIM_CAR(v__3513467_37);
+Obj v__3513096_37 = v__3513468_37;
+Obj v__3513469_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513470_37 = PRIM_CDR(v__3513469_37);
+Obj v__3513097_37 = v__3513470_37;
+R[1] = v__3513096_37;
+R[2] = v__3513097_37;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512483_37);
+coraCall0(co, v__3513093_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512483_37);
+coraCall0(co, v__3513093_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512483_37);
+coraCall0(co, v__3513093_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512847_37= co->res;
-Obj act = R[1];
-Obj remain = R[2];
-Obj _3512848_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512847_37);
-Obj pat = _3512848_37;
-Obj _3512849_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512850_37 = makeCons(co->gc, act, _3512849_37);
+Obj v__3513471_37= co->res;
+Obj v__3513096_37 = R[1];
+Obj v__3513097_37 = R[2];
+Obj v__3513472_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513471_37);
+Obj v__3513098_37 = v__3513472_37;
+Obj v__3513473_37 = makeCons(co->gc, v__3513098_37, closureRef(R[0], 2));
+Obj v__3513474_37 = makeCons(co->gc, v__3513096_37, v__3513473_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512850_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513097_37, Nil, v__3513474_37);
 return;
 }
 }
@@ -2729,15 +2729,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512834_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512834_37) {
-Obj _3512835_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512835_37;
-Obj _3512836_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512836_37;
-Obj _3512837_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj v__3513458_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513458_37) {
+Obj v__3513459_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513094_37 = v__3513459_37;
+Obj v__3513460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513095_37 = v__3513460_37;
+Obj v__3513461_37 = makeCons(co->gc, v__3513094_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512837_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513095_37, v__3513461_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2752,9 +2752,9 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_exp);
 return;
 }
 }
@@ -2764,55 +2764,55 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512820_37= co->res;
-Obj value = R[1];
-Obj rules = _3512820_37;
-Obj _3512533_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512827_37 = PRIM_ISCONS(value);
-if (True == _3512827_37) {
-Obj _3512828_37 = PRIM_CAR(value);
-Obj _3512829_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512828_37);
-Obj _3512830_37 = primNot(_3512829_37);
-if (True == _3512830_37) {
+Obj v__3513444_37= co->res;
+Obj v__3513086_37 = R[1];
+Obj v__3513087_37 = v__3513444_37;
+Obj v__3513090_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3513086_37, v__3513087_37);
+Obj v__3513451_37 = PRIM_ISCONS(v__3513086_37);
+if (True == v__3513451_37) {
+Obj v__3513452_37 = PRIM_CAR(v__3513086_37);
+Obj v__3513453_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3513452_37);
+Obj v__3513454_37 = primNot(v__3513453_37);
+if (True == v__3513454_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512533_37, True);
+coraCall1(co, v__3513090_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512533_37, False);
+coraCall1(co, v__3513090_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512533_37, False);
+coraCall1(co, v__3513090_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512819_37= co->res;
-Obj exp = R[1];
-Obj value = _3512819_37;
-R[1] = value;
+Obj v__3513443_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513086_37 = v__3513443_37;
+R[1] = v__3513086_37;
 saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512818_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v__3513442_37= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512818_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513442_37);
 return;
 }
 }
@@ -2822,13 +2822,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512534_37 = R[1];
-if (True == _3512534_37) {
-Obj _3512821_37 = primGenSym(co);
-Obj val = _3512821_37;
-R[1] = val;
+Obj v__3513089_37 = R[1];
+if (True == v__3513089_37) {
+Obj v__3513445_37 = primGenSym(co);
+Obj v__3513091_37 = v__3513445_37;
+R[1] = v__3513091_37;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), val, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513091_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2838,13 +2838,13 @@ return;
 }
 case 1:
 {
-Obj _3512822_37= co->res;
-Obj val = R[1];
-Obj _3512823_37 = makeCons(co->gc, _3512822_37, Nil);
-Obj _3512824_37 = makeCons(co->gc, closureRef(R[0], 0), _3512823_37);
-Obj _3512825_37 = makeCons(co->gc, val, _3512824_37);
-Obj _3512826_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512825_37);
-coraReturn(co, _3512826_37);
+Obj v__3513446_37= co->res;
+Obj v__3513091_37 = R[1];
+Obj v__3513447_37 = makeCons(co->gc, v__3513446_37, Nil);
+Obj v__3513448_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513447_37);
+Obj v__3513449_37 = makeCons(co->gc, v__3513091_37, v__3513448_37);
+Obj v__3513450_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513449_37);
+coraReturn(co, v__3513450_37);
 return;
 }
 }
@@ -2854,61 +2854,61 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj value = R[1];
-Obj rules = R[2];
-R[1] = value;
-R[2] = rules;
+Obj v_value = R[1];
+Obj v_rules = R[2];
+R[1] = v_value;
+R[2] = v_rules;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
 return;
 }
 case 1:
 {
-Obj _3512816_37= co->res;
-Obj _3512531_37 = R[1];
-if (True == _3512816_37) {
+Obj v__3513440_37= co->res;
+Obj v__3513080_37 = R[1];
+if (True == v__3513440_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512531_37, True);
+coraCall1(co, v__3513080_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512531_37, False);
+coraCall1(co, v__3513080_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512814_37= co->res;
-Obj rules = R[1];
-Obj _3512531_37 = R[2];
-if (True == _3512814_37) {
-Obj _3512815_37 = PRIM_CDR(rules);
-R[1] = _3512531_37;
+Obj v__3513438_37= co->res;
+Obj v_rules = R[1];
+Obj v__3513080_37 = R[2];
+if (True == v__3513438_37) {
+Obj v__3513439_37 = PRIM_CDR(v_rules);
+R[1] = v__3513080_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512815_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513439_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512531_37, False);
+coraCall1(co, v__3513080_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512796_37= co->res;
-Obj value = R[1];
-Obj rules = R[2];
-if (True == _3512796_37) {
-Obj _3512797_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512798_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512797_37);
-coraReturn(co, _3512798_37);
+Obj v__3513420_37= co->res;
+Obj v_value = R[1];
+Obj v_rules = R[2];
+if (True == v__3513420_37) {
+Obj v__3513421_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3513422_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513421_37);
+coraReturn(co, v__3513422_37);
 return;
 } else {
-Obj _3512531_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
-R[1] = rules;
-R[2] = _3512531_37;
+Obj v__3513080_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+R[1] = v_rules;
+R[2] = v__3513080_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
 }
 }
@@ -2919,16 +2919,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512532_37 = R[1];
-if (True == _3512532_37) {
-Obj _3512799_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512799_37;
-Obj _3512800_37 = primGenSym(co);
-Obj cc = _3512800_37;
-R[1] = pat;
-R[2] = cc;
+Obj v__3513079_37 = R[1];
+if (True == v__3513079_37) {
+Obj v__3513423_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513081_37 = v__3513423_37;
+Obj v__3513424_37 = primGenSym(co);
+Obj v__3513082_37 = v__3513424_37;
+R[1] = v__3513081_37;
+R[2] = v__3513082_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), cc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3513082_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2938,53 +2938,53 @@ return;
 }
 case 1:
 {
-Obj _3512806_37= co->res;
-Obj curr = R[1];
-Obj cc = R[2];
-Obj rest = _3512806_37;
-Obj _3512807_37 = makeCons(co->gc, rest, Nil);
-Obj _3512808_37 = makeCons(co->gc, Nil, _3512807_37);
-Obj _3512809_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512808_37);
-Obj _3512810_37 = makeCons(co->gc, curr, Nil);
-Obj _3512811_37 = makeCons(co->gc, _3512809_37, _3512810_37);
-Obj _3512812_37 = makeCons(co->gc, cc, _3512811_37);
-Obj _3512813_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512812_37);
-coraReturn(co, _3512813_37);
+Obj v__3513430_37= co->res;
+Obj v__3513084_37 = R[1];
+Obj v__3513082_37 = R[2];
+Obj v__3513085_37 = v__3513430_37;
+Obj v__3513431_37 = makeCons(co->gc, v__3513085_37, Nil);
+Obj v__3513432_37 = makeCons(co->gc, Nil, v__3513431_37);
+Obj v__3513433_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513432_37);
+Obj v__3513434_37 = makeCons(co->gc, v__3513084_37, Nil);
+Obj v__3513435_37 = makeCons(co->gc, v__3513433_37, v__3513434_37);
+Obj v__3513436_37 = makeCons(co->gc, v__3513082_37, v__3513435_37);
+Obj v__3513437_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513436_37);
+coraReturn(co, v__3513437_37);
 return;
 }
 case 2:
 {
-Obj _3512803_37= co->res;
-Obj cc = R[1];
-Obj curr = _3512803_37;
-Obj _3512804_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512805_37 = PRIM_CDR(_3512804_37);
-R[1] = curr;
-R[2] = cc;
+Obj v__3513427_37= co->res;
+Obj v__3513082_37 = R[1];
+Obj v__3513084_37 = v__3513427_37;
+Obj v__3513428_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513429_37 = PRIM_CDR(v__3513428_37);
+R[1] = v__3513084_37;
+R[2] = v__3513082_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512805_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3513429_37);
 return;
 }
 case 3:
 {
-Obj _3512802_37= co->res;
-Obj action = R[1];
-Obj cc = R[2];
-R[1] = cc;
+Obj v__3513426_37= co->res;
+Obj v__3513083_37 = R[1];
+Obj v__3513082_37 = R[2];
+R[1] = v__3513082_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512802_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3513426_37, closureRef(R[0], 0), v__3513083_37, v__3513082_37);
 return;
 }
 case 4:
 {
-Obj _3512801_37= co->res;
-Obj pat = R[1];
-Obj cc = R[2];
-Obj action = _3512801_37;
-R[1] = action;
-R[2] = cc;
+Obj v__3513425_37= co->res;
+Obj v__3513081_37 = R[1];
+Obj v__3513082_37 = R[2];
+Obj v__3513083_37 = v__3513425_37;
+R[1] = v__3513083_37;
+R[2] = v__3513082_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513081_37);
 return;
 }
 }
@@ -2994,38 +2994,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rules = R[1];
-Obj cc = R[2];
-Obj _3512783_37 = PRIM_CDR(rules);
-Obj _3512784_37 = PRIM_CAR(_3512783_37);
-Obj action = _3512784_37;
-Obj _3512529_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
-R[1] = action;
-R[2] = _3512529_37;
+Obj v_rules = R[1];
+Obj v_cc = R[2];
+Obj v__3513407_37 = PRIM_CDR(v_rules);
+Obj v__3513408_37 = PRIM_CAR(v__3513407_37);
+Obj v__3513074_37 = v__3513408_37;
+Obj v__3513077_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513074_37);
+R[1] = v__3513074_37;
+R[2] = v__3513077_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), action);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513074_37);
 return;
 }
 case 1:
 {
-Obj _3512792_37= co->res;
-Obj action = R[1];
-Obj _3512529_37 = R[2];
-if (True == _3512792_37) {
-Obj _3512793_37 = PRIM_CAR(action);
-Obj _3512794_37 = PRIM_EQ(_3512793_37, getBinding(co, packageID, 110).name);
-if (True == _3512794_37) {
+Obj v__3513416_37= co->res;
+Obj v__3513074_37 = R[1];
+Obj v__3513077_37 = R[2];
+if (True == v__3513416_37) {
+Obj v__3513417_37 = PRIM_CAR(v__3513074_37);
+Obj v__3513418_37 = PRIM_EQ(v__3513417_37, getBinding(co, packageID, 110).name);
+if (True == v__3513418_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512529_37, True);
+coraCall1(co, v__3513077_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512529_37, False);
+coraCall1(co, v__3513077_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512529_37, False);
+coraCall1(co, v__3513077_37, False);
 return;
 }
 }
@@ -3036,8 +3036,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512530_37 = R[1];
-if (True == _3512530_37) {
+Obj v__3513076_37 = R[1];
+if (True == v__3513076_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3048,20 +3048,20 @@ return;
 }
 case 1:
 {
-Obj _3512786_37= co->res;
-Obj _3512785_37 = R[1];
-Obj _3512787_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512788_37 = makeCons(co->gc, _3512787_37, Nil);
-Obj _3512789_37 = makeCons(co->gc, _3512786_37, _3512788_37);
-Obj _3512790_37 = makeCons(co->gc, _3512785_37, _3512789_37);
-Obj _3512791_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512790_37);
-coraReturn(co, _3512791_37);
+Obj v__3513410_37= co->res;
+Obj v__3513409_37 = R[1];
+Obj v__3513411_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3513412_37 = makeCons(co->gc, v__3513411_37, Nil);
+Obj v__3513413_37 = makeCons(co->gc, v__3513410_37, v__3513412_37);
+Obj v__3513414_37 = makeCons(co->gc, v__3513409_37, v__3513413_37);
+Obj v__3513415_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513414_37);
+coraReturn(co, v__3513415_37);
 return;
 }
 case 2:
 {
-Obj _3512785_37= co->res;
-R[1] = _3512785_37;
+Obj v__3513409_37= co->res;
+R[1] = v__3513409_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3073,52 +3073,52 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj expr = R[2];
-Obj body = R[3];
-Obj cc = R[4];
-R[1] = expr;
-R[2] = body;
-R[3] = cc;
-R[4] = pat;
+Obj v_pat = R[1];
+Obj v_expr = R[2];
+Obj v_body = R[3];
+Obj v_cc = R[4];
+R[1] = v_expr;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_pat;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), pat);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v_pat);
 return;
 }
 case 1:
 {
-Obj _3512781_37= co->res;
+Obj v__3513405_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512781_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3513405_37);
 return;
 }
 case 2:
 {
-Obj _3512768_37= co->res;
-Obj expr = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj pat = R[4];
-if (True == _3512768_37) {
-Obj _3512769_37 = PRIM_CAR(pat);
-Obj _3512770_37 = PRIM_EQ(_3512769_37, getBinding(co, packageID, 139).name);
-if (True == _3512770_37) {
-Obj _3512771_37 = makeCons(co->gc, expr, Nil);
-Obj _3512772_37 = makeCons(co->gc, pat, _3512771_37);
-Obj _3512773_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512772_37);
-Obj _3512774_37 = makeCons(co->gc, cc, Nil);
-Obj _3512775_37 = makeCons(co->gc, _3512774_37, Nil);
-Obj _3512776_37 = makeCons(co->gc, body, _3512775_37);
-Obj _3512777_37 = makeCons(co->gc, _3512773_37, _3512776_37);
-Obj _3512778_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512777_37);
-coraReturn(co, _3512778_37);
+Obj v__3513392_37= co->res;
+Obj v_expr = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_pat = R[4];
+if (True == v__3513392_37) {
+Obj v__3513393_37 = PRIM_CAR(v_pat);
+Obj v__3513394_37 = PRIM_EQ(v__3513393_37, getBinding(co, packageID, 139).name);
+if (True == v__3513394_37) {
+Obj v__3513395_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513396_37 = makeCons(co->gc, v_pat, v__3513395_37);
+Obj v__3513397_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513396_37);
+Obj v__3513398_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513399_37 = makeCons(co->gc, v__3513398_37, Nil);
+Obj v__3513400_37 = makeCons(co->gc, v_body, v__3513399_37);
+Obj v__3513401_37 = makeCons(co->gc, v__3513397_37, v__3513400_37);
+Obj v__3513402_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513401_37);
+coraReturn(co, v__3513402_37);
 return;
 } else {
-Obj _3512779_37 = PRIM_CAR(pat);
-Obj _3512780_37 = PRIM_EQ(_3512779_37, getBinding(co, packageID, 152).name);
-if (True == _3512780_37) {
+Obj v__3513403_37 = PRIM_CAR(v_pat);
+Obj v__3513404_37 = PRIM_EQ(v__3513403_37, getBinding(co, packageID, 152).name);
+if (True == v__3513404_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
 } else {
 co->ctx.sp = R;
@@ -3128,50 +3128,50 @@ return;
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), pat);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), v_pat);
 return;
 }
 }
 case 3:
 {
-Obj _3512753_37= co->res;
-Obj expr = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj pat = R[4];
-if (True == _3512753_37) {
-Obj _3512754_37 = PRIM_EQ(pat, expr);
-if (True == _3512754_37) {
-coraReturn(co, body);
-return;
-} else {
-Obj _3512755_37 = makeCons(co->gc, expr, Nil);
-Obj _3512756_37 = makeCons(co->gc, pat, _3512755_37);
-Obj _3512757_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512756_37);
-Obj _3512758_37 = makeCons(co->gc, cc, Nil);
-Obj _3512759_37 = makeCons(co->gc, _3512758_37, Nil);
-Obj _3512760_37 = makeCons(co->gc, body, _3512759_37);
-Obj _3512761_37 = makeCons(co->gc, _3512757_37, _3512760_37);
-Obj _3512762_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512761_37);
-coraReturn(co, _3512762_37);
-return;
-}
-} else {
-Obj _3512763_37 = primIsSymbol(pat);
-if (True == _3512763_37) {
-Obj _3512764_37 = makeCons(co->gc, body, Nil);
-Obj _3512765_37 = makeCons(co->gc, expr, _3512764_37);
-Obj _3512766_37 = makeCons(co->gc, pat, _3512765_37);
-Obj _3512767_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512766_37);
-coraReturn(co, _3512767_37);
-return;
-} else {
-R[1] = expr;
-R[2] = body;
-R[3] = cc;
-R[4] = pat;
+Obj v__3513377_37= co->res;
+Obj v_expr = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_pat = R[4];
+if (True == v__3513377_37) {
+Obj v__3513378_37 = PRIM_EQ(v_pat, v_expr);
+if (True == v__3513378_37) {
+coraReturn(co, v_body);
+return;
+} else {
+Obj v__3513379_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513380_37 = makeCons(co->gc, v_pat, v__3513379_37);
+Obj v__3513381_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513380_37);
+Obj v__3513382_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513383_37 = makeCons(co->gc, v__3513382_37, Nil);
+Obj v__3513384_37 = makeCons(co->gc, v_body, v__3513383_37);
+Obj v__3513385_37 = makeCons(co->gc, v__3513381_37, v__3513384_37);
+Obj v__3513386_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513385_37);
+coraReturn(co, v__3513386_37);
+return;
+}
+} else {
+Obj v__3513387_37 = primIsSymbol(v_pat);
+if (True == v__3513387_37) {
+Obj v__3513388_37 = makeCons(co->gc, v_body, Nil);
+Obj v__3513389_37 = makeCons(co->gc, v_expr, v__3513388_37);
+Obj v__3513390_37 = makeCons(co->gc, v_pat, v__3513389_37);
+Obj v__3513391_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513390_37);
+coraReturn(co, v__3513391_37);
+return;
+} else {
+R[1] = v_expr;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_pat;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_pat);
 return;
 }
 }
@@ -3183,20 +3183,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-R[1] = x;
+Obj v_x = R[1];
+R[1] = v_x;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_x);
 return;
 }
 case 1:
 {
-Obj _3512750_37= co->res;
-Obj x = R[1];
-if (True == _3512750_37) {
-Obj _3512751_37 = primIsSymbol(x);
-Obj _3512752_37 = primNot(_3512751_37);
-if (True == _3512752_37) {
+Obj v__3513374_37= co->res;
+Obj v_x = R[1];
+if (True == v__3513374_37) {
+Obj v__3513375_37 = primIsSymbol(v_x);
+Obj v__3513376_37 = primNot(v__3513375_37);
+if (True == v__3513376_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3215,60 +3215,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj expr = R[2];
-Obj body = R[3];
-Obj cc = R[4];
-R[1] = pat;
-R[2] = body;
-R[3] = cc;
-R[4] = expr;
+Obj v_pat = R[1];
+Obj v_expr = R[2];
+Obj v_body = R[3];
+Obj v_cc = R[4];
+R[1] = v_pat;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_expr;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_pat);
 return;
 }
 case 1:
 {
-Obj _3512729_37= co->res;
-Obj x = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj expr = R[4];
-Obj y = _3512729_37;
-Obj _3512527_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512746_37 = PRIM_ISCONS(expr);
-if (True == _3512746_37) {
-Obj _3512747_37 = PRIM_CAR(expr);
-Obj _3512748_37 = PRIM_EQ(_3512747_37, getBinding(co, packageID, 152).name);
-if (True == _3512748_37) {
+Obj v__3513353_37= co->res;
+Obj v__3513067_37 = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_expr = R[4];
+Obj v__3513068_37 = v__3513353_37;
+Obj v__3513071_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513067_37, v__3513068_37, v_expr, v_body, v_cc);
+Obj v__3513370_37 = PRIM_ISCONS(v_expr);
+if (True == v__3513370_37) {
+Obj v__3513371_37 = PRIM_CAR(v_expr);
+Obj v__3513372_37 = PRIM_EQ(v__3513371_37, getBinding(co, packageID, 152).name);
+if (True == v__3513372_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512527_37, True);
+coraCall1(co, v__3513071_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512527_37, False);
+coraCall1(co, v__3513071_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512527_37, False);
+coraCall1(co, v__3513071_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512728_37= co->res;
-Obj pat = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj expr = R[4];
-Obj x = _3512728_37;
-R[1] = x;
-R[2] = body;
-R[3] = cc;
-R[4] = expr;
+Obj v__3513352_37= co->res;
+Obj v_pat = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_expr = R[4];
+Obj v__3513067_37 = v__3513352_37;
+R[1] = v__3513067_37;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_expr;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_pat);
 return;
 }
 }
@@ -3278,72 +3278,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512528_37 = R[1];
-if (True == _3512528_37) {
+Obj v__3513070_37 = R[1];
+if (True == v__3513070_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512733_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512734_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512733_37);
-Obj _3512735_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512736_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512735_37);
-Obj _3512737_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512738_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512737_37);
-R[1] = _3512736_37;
-R[2] = _3512734_37;
+Obj v__3513357_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513358_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513357_37);
+Obj v__3513359_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513360_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513359_37);
+Obj v__3513361_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513362_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513361_37);
+R[1] = v__3513360_37;
+R[2] = v__3513358_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512738_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513362_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512732_37= co->res;
-Obj e1 = R[1];
+Obj v__3513356_37= co->res;
+Obj v__3513072_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512732_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513072_37, v__3513356_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512731_37= co->res;
-Obj e1 = R[1];
-Obj e2 = _3512731_37;
-R[1] = e1;
+Obj v__3513355_37= co->res;
+Obj v__3513072_37 = R[1];
+Obj v__3513073_37 = v__3513355_37;
+R[1] = v__3513072_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513073_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3512730_37= co->res;
-Obj e1 = _3512730_37;
-R[1] = e1;
+Obj v__3513354_37= co->res;
+Obj v__3513072_37 = v__3513354_37;
+R[1] = v__3513072_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj _3512740_37= co->res;
-Obj _3512734_37 = R[1];
-Obj _3512741_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512742_37 = makeCons(co->gc, _3512741_37, Nil);
-Obj _3512743_37 = makeCons(co->gc, _3512740_37, _3512742_37);
-Obj _3512744_37 = makeCons(co->gc, _3512734_37, _3512743_37);
-Obj _3512745_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512744_37);
-coraReturn(co, _3512745_37);
+Obj v__3513364_37= co->res;
+Obj v__3513358_37 = R[1];
+Obj v__3513365_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3513366_37 = makeCons(co->gc, v__3513365_37, Nil);
+Obj v__3513367_37 = makeCons(co->gc, v__3513364_37, v__3513366_37);
+Obj v__3513368_37 = makeCons(co->gc, v__3513358_37, v__3513367_37);
+Obj v__3513369_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513368_37);
+coraReturn(co, v__3513369_37);
 return;
 }
 case 5:
 {
-Obj _3512739_37= co->res;
-Obj _3512736_37 = R[1];
-Obj _3512734_37 = R[2];
-R[1] = _3512734_37;
+Obj v__3513363_37= co->res;
+Obj v__3513360_37 = R[1];
+Obj v__3513358_37 = R[2];
+R[1] = v__3513358_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512736_37, _3512739_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513360_37, v__3513363_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3353,10 +3353,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512726_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513350_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512726_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513350_37);
 return;
 }
 }
@@ -3366,37 +3366,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj _3512716_37 = PRIM_CDR(pat);
-R[1] = pat;
+Obj v_pat = R[1];
+Obj v__3513340_37 = PRIM_CDR(v_pat);
+R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512716_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513340_37);
 return;
 }
 case 1:
 {
-Obj _3512721_37= co->res;
-Obj _3512719_37 = R[1];
-Obj _3512722_37 = makeCons(co->gc, _3512721_37, Nil);
-Obj _3512723_37 = makeCons(co->gc, _3512719_37, _3512722_37);
-Obj _3512724_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512723_37);
-coraReturn(co, _3512724_37);
+Obj v__3513345_37= co->res;
+Obj v__3513343_37 = R[1];
+Obj v__3513346_37 = makeCons(co->gc, v__3513345_37, Nil);
+Obj v__3513347_37 = makeCons(co->gc, v__3513343_37, v__3513346_37);
+Obj v__3513348_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513347_37);
+coraReturn(co, v__3513348_37);
 return;
 }
 case 2:
 {
-Obj _3512717_37= co->res;
-Obj pat = R[1];
-if (True == _3512717_37) {
-Obj _3512718_37 = PRIM_CAR(pat);
-coraReturn(co, _3512718_37);
+Obj v__3513341_37= co->res;
+Obj v_pat = R[1];
+if (True == v__3513341_37) {
+Obj v__3513342_37 = PRIM_CAR(v_pat);
+coraReturn(co, v__3513342_37);
 return;
 } else {
-Obj _3512719_37 = PRIM_CAR(pat);
-Obj _3512720_37 = PRIM_CDR(pat);
-R[1] = _3512719_37;
+Obj v__3513343_37 = PRIM_CAR(v_pat);
+Obj v__3513344_37 = PRIM_CDR(v_pat);
+R[1] = v__3513343_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512720_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513344_37);
 return;
 }
 }
@@ -3407,14 +3407,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512713_37 = PRIM_EQ(x, True);
-if (True == _3512713_37) {
+Obj v_x = R[1];
+Obj v__3513337_37 = PRIM_EQ(v_x, True);
+if (True == v__3513337_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512714_37 = PRIM_EQ(x, False);
-if (True == _3512714_37) {
+Obj v__3513338_37 = PRIM_EQ(v_x, False);
+if (True == v__3513338_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3430,10 +3430,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512711_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513335_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512711_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513335_37);
 return;
 }
 }
@@ -3443,42 +3443,42 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
-Obj _3512699_37 = PRIM_EQ(Nil, l);
-if (True == _3512699_37) {
+Obj v_l = R[1];
+Obj v__3513323_37 = PRIM_EQ(Nil, v_l);
+if (True == v__3513323_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512700_37 = PRIM_CAR(l);
-Obj _3512701_37 = PRIM_EQ(_3512700_37, False);
-if (True == _3512701_37) {
+Obj v__3513324_37 = PRIM_CAR(v_l);
+Obj v__3513325_37 = PRIM_EQ(v__3513324_37, False);
+if (True == v__3513325_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512702_37 = PRIM_CDR(l);
-R[1] = l;
+Obj v__3513326_37 = PRIM_CDR(v_l);
+R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512702_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513326_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512703_37= co->res;
-Obj l = R[1];
-Obj more = _3512703_37;
-Obj _3512704_37 = PRIM_EQ(more, False);
-if (True == _3512704_37) {
+Obj v__3513327_37= co->res;
+Obj v_l = R[1];
+Obj v__3513066_37 = v__3513327_37;
+Obj v__3513328_37 = PRIM_EQ(v__3513066_37, False);
+if (True == v__3513328_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512705_37 = PRIM_CAR(l);
-Obj _3512706_37 = makeCons(co->gc, False, Nil);
-Obj _3512707_37 = makeCons(co->gc, more, _3512706_37);
-Obj _3512708_37 = makeCons(co->gc, _3512705_37, _3512707_37);
-Obj _3512709_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512708_37);
-coraReturn(co, _3512709_37);
+Obj v__3513329_37 = PRIM_CAR(v_l);
+Obj v__3513330_37 = makeCons(co->gc, False, Nil);
+Obj v__3513331_37 = makeCons(co->gc, v__3513066_37, v__3513330_37);
+Obj v__3513332_37 = makeCons(co->gc, v__3513329_37, v__3513331_37);
+Obj v__3513333_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513332_37);
+coraReturn(co, v__3513333_37);
 return;
 }
 }
@@ -3489,10 +3489,10 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512697_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513321_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512697_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513321_37);
 return;
 }
 }
@@ -3502,42 +3502,42 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
-Obj _3512685_37 = PRIM_EQ(l, Nil);
-if (True == _3512685_37) {
+Obj v_l = R[1];
+Obj v__3513309_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513309_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512686_37 = PRIM_CAR(l);
-Obj _3512687_37 = PRIM_EQ(_3512686_37, True);
-if (True == _3512687_37) {
+Obj v__3513310_37 = PRIM_CAR(v_l);
+Obj v__3513311_37 = PRIM_EQ(v__3513310_37, True);
+if (True == v__3513311_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512688_37 = PRIM_CDR(l);
-R[1] = l;
+Obj v__3513312_37 = PRIM_CDR(v_l);
+R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512688_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513312_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512689_37= co->res;
-Obj l = R[1];
-Obj more = _3512689_37;
-Obj _3512690_37 = PRIM_EQ(more, True);
-if (True == _3512690_37) {
+Obj v__3513313_37= co->res;
+Obj v_l = R[1];
+Obj v__3513065_37 = v__3513313_37;
+Obj v__3513314_37 = PRIM_EQ(v__3513065_37, True);
+if (True == v__3513314_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512691_37 = PRIM_CAR(l);
-Obj _3512692_37 = makeCons(co->gc, more, Nil);
-Obj _3512693_37 = makeCons(co->gc, True, _3512692_37);
-Obj _3512694_37 = makeCons(co->gc, _3512691_37, _3512693_37);
-Obj _3512695_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512694_37);
-coraReturn(co, _3512695_37);
+Obj v__3513315_37 = PRIM_CAR(v_l);
+Obj v__3513316_37 = makeCons(co->gc, v__3513065_37, Nil);
+Obj v__3513317_37 = makeCons(co->gc, True, v__3513316_37);
+Obj v__3513318_37 = makeCons(co->gc, v__3513315_37, v__3513317_37);
+Obj v__3513319_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513318_37);
+coraReturn(co, v__3513319_37);
 return;
 }
 }
@@ -3548,55 +3548,55 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512671_37 = PRIM_CDR(exp);
-Obj _3512672_37 = PRIM_EQ(Nil, _3512671_37);
-if (True == _3512672_37) {
-Obj _3512673_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512674_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512673_37);
-coraReturn(co, _3512674_37);
+Obj v_exp = R[1];
+Obj v__3513295_37 = PRIM_CDR(v_exp);
+Obj v__3513296_37 = PRIM_EQ(Nil, v__3513295_37);
+if (True == v__3513296_37) {
+Obj v__3513297_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3513298_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513297_37);
+coraReturn(co, v__3513298_37);
 return;
 } else {
-R[1] = exp;
+R[1] = v_exp;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 }
 case 1:
 {
-Obj _3512678_37= co->res;
-Obj _3512677_37 = R[1];
-Obj _3512676_37 = R[2];
-Obj _3512679_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512678_37);
-Obj _3512680_37 = makeCons(co->gc, _3512679_37, Nil);
-Obj _3512681_37 = makeCons(co->gc, _3512677_37, _3512680_37);
-Obj _3512682_37 = makeCons(co->gc, _3512676_37, _3512681_37);
-Obj _3512683_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512682_37);
-coraReturn(co, _3512683_37);
+Obj v__3513302_37= co->res;
+Obj v__3513301_37 = R[1];
+Obj v__3513300_37 = R[2];
+Obj v__3513303_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513302_37);
+Obj v__3513304_37 = makeCons(co->gc, v__3513303_37, Nil);
+Obj v__3513305_37 = makeCons(co->gc, v__3513301_37, v__3513304_37);
+Obj v__3513306_37 = makeCons(co->gc, v__3513300_37, v__3513305_37);
+Obj v__3513307_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513306_37);
+coraReturn(co, v__3513307_37);
 return;
 }
 case 2:
 {
-Obj _3512677_37= co->res;
-Obj exp = R[1];
-Obj _3512676_37 = R[2];
-R[1] = _3512677_37;
-R[2] = _3512676_37;
+Obj v__3513301_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513300_37 = R[2];
+R[1] = v__3513301_37;
+R[2] = v__3513300_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512675_37= co->res;
-Obj exp = R[1];
-Obj curr = _3512675_37;
-Obj _3512676_37 = PRIM_CAR(curr);
-R[1] = exp;
-R[2] = _3512676_37;
+Obj v__3513299_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513064_37 = v__3513299_37;
+Obj v__3513300_37 = PRIM_CAR(v__3513064_37);
+R[1] = v_exp;
+R[2] = v__3513300_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), curr);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3513064_37);
 return;
 }
 }
@@ -3606,10 +3606,10 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512669_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513293_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512669_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513293_37);
 return;
 }
 }
@@ -3619,61 +3619,61 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512657_37 = PRIM_CDR(exp);
-R[1] = exp;
+Obj v_exp = R[1];
+Obj v__3513281_37 = PRIM_CDR(v_exp);
+R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512657_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513281_37);
 return;
 }
 case 1:
 {
-Obj _3512663_37= co->res;
-Obj _3512661_37 = R[1];
-Obj _3512660_37 = R[2];
-Obj _3512664_37 = makeCons(co->gc, _3512663_37, Nil);
-Obj _3512665_37 = makeCons(co->gc, _3512661_37, _3512664_37);
-Obj _3512666_37 = makeCons(co->gc, _3512660_37, _3512665_37);
-Obj _3512667_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512666_37);
-coraReturn(co, _3512667_37);
+Obj v__3513287_37= co->res;
+Obj v__3513285_37 = R[1];
+Obj v__3513284_37 = R[2];
+Obj v__3513288_37 = makeCons(co->gc, v__3513287_37, Nil);
+Obj v__3513289_37 = makeCons(co->gc, v__3513285_37, v__3513288_37);
+Obj v__3513290_37 = makeCons(co->gc, v__3513284_37, v__3513289_37);
+Obj v__3513291_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513290_37);
+coraReturn(co, v__3513291_37);
 return;
 }
 case 2:
 {
-Obj _3512662_37= co->res;
-Obj _3512661_37 = R[1];
-Obj _3512660_37 = R[2];
-R[1] = _3512661_37;
-R[2] = _3512660_37;
+Obj v__3513286_37= co->res;
+Obj v__3513285_37 = R[1];
+Obj v__3513284_37 = R[2];
+R[1] = v__3513285_37;
+R[2] = v__3513284_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512662_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513286_37);
 return;
 }
 case 3:
 {
-Obj _3512661_37= co->res;
-Obj exp = R[1];
-Obj _3512660_37 = R[2];
-R[1] = _3512661_37;
-R[2] = _3512660_37;
+Obj v__3513285_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513284_37 = R[2];
+R[1] = v__3513285_37;
+R[2] = v__3513284_37;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj _3512658_37= co->res;
-Obj exp = R[1];
-if (True == _3512658_37) {
-Obj _3512659_37 = PRIM_CAR(exp);
-coraReturn(co, _3512659_37);
+Obj v__3513282_37= co->res;
+Obj v_exp = R[1];
+if (True == v__3513282_37) {
+Obj v__3513283_37 = PRIM_CAR(v_exp);
+coraReturn(co, v__3513283_37);
 return;
 } else {
-Obj _3512660_37 = PRIM_CAR(exp);
-R[1] = exp;
-R[2] = _3512660_37;
+Obj v__3513284_37 = PRIM_CAR(v_exp);
+R[1] = v_exp;
+R[2] = v__3513284_37;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 }
@@ -3684,10 +3684,10 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512654_37 = PRIM_ISCONS(x);
-Obj _3512655_37 = primNot(_3512654_37);
-coraReturn(co, _3512655_37);
+Obj v_x = R[1];
+Obj v__3513278_37 = PRIM_ISCONS(v_x);
+Obj v__3513279_37 = primNot(v__3513278_37);
+coraReturn(co, v__3513279_37);
 return;
 }
 }
@@ -3697,19 +3697,19 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj l = R[2];
-Obj _3512649_37 = PRIM_ISCONS(l);
-if (True == _3512649_37) {
-Obj _3512650_37 = PRIM_CAR(l);
-Obj _3512651_37 = PRIM_EQ(_3512650_37, x);
-if (True == _3512651_37) {
+Obj v_x = R[1];
+Obj v_l = R[2];
+Obj v__3513273_37 = PRIM_ISCONS(v_l);
+if (True == v__3513273_37) {
+Obj v__3513274_37 = PRIM_CAR(v_l);
+Obj v__3513275_37 = PRIM_EQ(v__3513274_37, v_x);
+if (True == v__3513275_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512652_37 = PRIM_CDR(l);
+Obj v__3513276_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512652_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v__3513276_37);
 return;
 }
 } else {
@@ -3724,45 +3724,45 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512641_37= co->res;
-Obj _3512640_37 = R[1];
-Obj _3512639_37 = R[2];
-Obj _3512642_37 = makeCons(co->gc, _3512641_37, Nil);
-Obj _3512643_37 = makeCons(co->gc, _3512640_37, _3512642_37);
-Obj _3512644_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512643_37);
-Obj _3512645_37 = makeCons(co->gc, _3512644_37, Nil);
-Obj _3512646_37 = makeCons(co->gc, _3512639_37, _3512645_37);
-Obj _3512647_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512646_37);
-coraReturn(co, _3512647_37);
+Obj v__3513265_37= co->res;
+Obj v__3513264_37 = R[1];
+Obj v__3513263_37 = R[2];
+Obj v__3513266_37 = makeCons(co->gc, v__3513265_37, Nil);
+Obj v__3513267_37 = makeCons(co->gc, v__3513264_37, v__3513266_37);
+Obj v__3513268_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513267_37);
+Obj v__3513269_37 = makeCons(co->gc, v__3513268_37, Nil);
+Obj v__3513270_37 = makeCons(co->gc, v__3513263_37, v__3513269_37);
+Obj v__3513271_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513270_37);
+coraReturn(co, v__3513271_37);
 return;
 }
 case 2:
 {
-Obj _3512640_37= co->res;
-Obj exp = R[1];
-Obj _3512639_37 = R[2];
-R[1] = _3512640_37;
-R[2] = _3512639_37;
+Obj v__3513264_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513263_37 = R[2];
+R[1] = v__3513264_37;
+R[2] = v__3513263_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512639_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-R[2] = _3512639_37;
+Obj v__3513263_37= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
+R[2] = v__3513263_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 }
@@ -3772,10 +3772,10 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512637_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513261_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512637_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513261_37);
 return;
 }
 }
@@ -3785,46 +3785,46 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3512629_37= co->res;
-Obj _3512628_37 = R[1];
-Obj _3512627_37 = R[2];
-Obj _3512630_37 = makeCons(co->gc, _3512628_37, _3512629_37);
-Obj _3512631_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512630_37);
-Obj _3512632_37 = makeCons(co->gc, _3512631_37, Nil);
-Obj _3512633_37 = makeCons(co->gc, _3512627_37, _3512632_37);
-Obj _3512634_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512633_37);
-coraReturn(co, _3512634_37);
+Obj v__3513253_37= co->res;
+Obj v__3513252_37 = R[1];
+Obj v__3513251_37 = R[2];
+Obj v__3513254_37 = makeCons(co->gc, v__3513252_37, v__3513253_37);
+Obj v__3513255_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513254_37);
+Obj v__3513256_37 = makeCons(co->gc, v__3513255_37, Nil);
+Obj v__3513257_37 = makeCons(co->gc, v__3513251_37, v__3513256_37);
+Obj v__3513258_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3513257_37);
+coraReturn(co, v__3513258_37);
 return;
 }
 case 2:
 {
-Obj _3512628_37= co->res;
-Obj exp = R[1];
-Obj _3512627_37 = R[2];
-R[1] = _3512628_37;
-R[2] = _3512627_37;
+Obj v__3513252_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513251_37 = R[2];
+R[1] = v__3513252_37;
+R[2] = v__3513251_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3512625_37= co->res;
-Obj exp = R[1];
-Obj _3512626_37 = makeCons(co->gc, _3512625_37, Nil);
-Obj _3512627_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512626_37);
-R[1] = exp;
-R[2] = _3512627_37;
+Obj v__3513249_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513250_37 = makeCons(co->gc, v__3513249_37, Nil);
+Obj v__3513251_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513250_37);
+R[1] = v_exp;
+R[2] = v__3513251_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 }
@@ -3834,76 +3834,76 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512607_37 = PRIM_ISCONS(exp);
-if (True == _3512607_37) {
-Obj _3512608_37 = PRIM_CAR(exp);
-Obj _3512609_37 = PRIM_EQ(_3512608_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3512609_37) {
-Obj _3512610_37 = PRIM_CDR(exp);
-coraReturn(co, _3512610_37);
+Obj v_exp = R[1];
+Obj v__3513231_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513231_37) {
+Obj v__3513232_37 = PRIM_CAR(v_exp);
+Obj v__3513233_37 = PRIM_EQ(v__3513232_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v__3513233_37) {
+Obj v__3513234_37 = PRIM_CDR(v_exp);
+coraReturn(co, v__3513234_37);
 return;
 } else {
-Obj _3512611_37 = PRIM_CAR(exp);
-Obj _3512612_37 = PRIM_EQ(_3512611_37, getBinding(co, packageID, 140).name);
-if (True == _3512612_37) {
-R[1] = exp;
+Obj v__3513235_37 = PRIM_CAR(v_exp);
+Obj v__3513236_37 = PRIM_EQ(v__3513235_37, getBinding(co, packageID, 140).name);
+if (True == v__3513236_37) {
+R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj _3512619_37 = PRIM_CAR(exp);
-Obj _3512620_37 = PRIM_EQ(_3512619_37, getBinding(co, packageID, 139).name);
-if (True == _3512620_37) {
-coraReturn(co, exp);
+Obj v__3513243_37 = PRIM_CAR(v_exp);
+Obj v__3513244_37 = PRIM_EQ(v__3513243_37, getBinding(co, packageID, 139).name);
+if (True == v__3513244_37) {
+coraReturn(co, v_exp);
 return;
 } else {
-R[1] = exp;
+R[1] = v_exp;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
 return;
 }
 }
 }
 } else {
-coraReturn(co, exp);
+coraReturn(co, v_exp);
 return;
 }
 }
 case 1:
 {
-Obj _3512615_37= co->res;
-Obj _3512613_37 = R[1];
-Obj _3512616_37 = makeCons(co->gc, _3512615_37, Nil);
-Obj _3512617_37 = makeCons(co->gc, _3512613_37, _3512616_37);
-Obj _3512618_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512617_37);
-coraReturn(co, _3512618_37);
+Obj v__3513239_37= co->res;
+Obj v__3513237_37 = R[1];
+Obj v__3513240_37 = makeCons(co->gc, v__3513239_37, Nil);
+Obj v__3513241_37 = makeCons(co->gc, v__3513237_37, v__3513240_37);
+Obj v__3513242_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513241_37);
+coraReturn(co, v__3513242_37);
 return;
 }
 case 2:
 {
-Obj _3512614_37= co->res;
-Obj _3512613_37 = R[1];
-R[1] = _3512613_37;
+Obj v__3513238_37= co->res;
+Obj v__3513237_37 = R[1];
+R[1] = v__3513237_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512614_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3513238_37);
 return;
 }
 case 3:
 {
-Obj _3512613_37= co->res;
-Obj exp = R[1];
-R[1] = _3512613_37;
+Obj v__3513237_37= co->res;
+Obj v_exp = R[1];
+R[1] = v__3513237_37;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj _3512622_37= co->res;
-Obj exp = R[1];
+Obj v__3513246_37= co->res;
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512622_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513246_37);
 return;
 }
 }
@@ -3913,15 +3913,15 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp1 = R[1];
-Obj _3512621_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512621_37) {
+Obj v_exp1 = R[1];
+Obj v__3513245_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v__3513245_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
 }
 }
@@ -3932,9 +3932,9 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), exp, globalRef(co, getBinding(co, packageID, 146)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), v_exp, globalRef(co, getBinding(co, packageID, 146)));
 return;
 }
 }
@@ -3944,16 +3944,16 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj macros = R[2];
-Obj _3512597_37 = PRIM_EQ(Nil, macros);
-if (True == _3512597_37) {
-coraReturn(co, exp);
+Obj v_exp = R[1];
+Obj v_macros = R[2];
+Obj v__3513221_37 = PRIM_EQ(Nil, v_macros);
+if (True == v__3513221_37) {
+coraReturn(co, v_exp);
 return;
 } else {
-Obj _3512604_37 = PRIM_CAR(macros);
+Obj v__3513228_37 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512604_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513228_37);
 return;
 }
 }
@@ -3964,25 +3964,25 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj item = R[1];
-Obj _3512525_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512600_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512600_37) {
-Obj _3512601_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512602_37 = PRIM_CAR(item);
-Obj _3512603_37 = PRIM_EQ(_3512601_37, _3512602_37);
-if (True == _3512603_37) {
+Obj v_item = R[1];
+Obj v__3513063_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3513224_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513224_37) {
+Obj v__3513225_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513226_37 = PRIM_CAR(v_item);
+Obj v__3513227_37 = PRIM_EQ(v__3513225_37, v__3513226_37);
+if (True == v__3513227_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512525_37, True);
+coraCall1(co, v__3513063_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512525_37, False);
+coraCall1(co, v__3513063_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512525_37, False);
+coraCall1(co, v__3513063_37, False);
 return;
 }
 }
@@ -3993,16 +3993,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512526_37 = R[1];
-if (True == _3512526_37) {
-Obj _3512598_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513062_37 = R[1];
+if (True == v__3513062_37) {
+Obj v__3513222_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512598_37, closureRef(R[0], 1));
+coraCall1(co, v__3513222_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512599_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513223_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512599_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3513223_37);
 return;
 }
 }
@@ -4013,12 +4013,12 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj n = R[1];
-Obj v = R[2];
-Obj _3512593_37 = makeCons(co->gc, n, v);
-Obj _3512594_37 = makeCons(co->gc, _3512593_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3512595_37 = primSet(co, getBinding(co, packageID, 146).name, _3512594_37);
-coraReturn(co, _3512595_37);
+Obj v_n = R[1];
+Obj v_v = R[2];
+Obj v__3513217_37 = makeCons(co->gc, v_n, v_v);
+Obj v__3513218_37 = makeCons(co->gc, v__3513217_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj v__3513219_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513218_37);
+coraReturn(co, v__3513219_37);
 return;
 }
 }
@@ -4028,10 +4028,10 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj f = R[1];
-Obj l = R[2];
+Obj v_f = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, f, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, v_f, v_l);
 return;
 }
 }
@@ -4041,34 +4041,34 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj f = R[2];
-Obj l = R[3];
-Obj _3512583_37 = PRIM_ISCONS(l);
-if (True == _3512583_37) {
-Obj _3512584_37 = PRIM_CAR(l);
-R[1] = res;
-R[2] = l;
-R[3] = f;
+Obj v_res = R[1];
+Obj v_f = R[2];
+Obj v_l = R[3];
+Obj v__3513207_37 = PRIM_ISCONS(v_l);
+if (True == v__3513207_37) {
+Obj v__3513208_37 = PRIM_CAR(v_l);
+R[1] = v_res;
+R[2] = v_l;
+R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512584_37);
+coraCall1(co, v_f, v__3513208_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj _3512585_37= co->res;
-Obj res = R[1];
-Obj l = R[2];
-Obj f = R[3];
-Obj _3512586_37 = makeCons(co->gc, _3512585_37, res);
-Obj _3512587_37 = PRIM_CDR(l);
+Obj v__3513209_37= co->res;
+Obj v_res = R[1];
+Obj v_l = R[2];
+Obj v_f = R[3];
+Obj v__3513210_37 = makeCons(co->gc, v__3513209_37, v_res);
+Obj v__3513211_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512586_37, f, _3512587_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3513210_37, v_f, v__3513211_37);
 return;
 }
 }
@@ -4078,18 +4078,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj l = R[2];
-Obj _3512576_37 = PRIM_ISCONS(l);
-if (True == _3512576_37) {
-Obj _3512577_37 = PRIM_CAR(l);
-Obj _3512578_37 = makeCons(co->gc, _3512577_37, res);
-Obj _3512579_37 = PRIM_CDR(l);
+Obj v_res = R[1];
+Obj v_l = R[2];
+Obj v__3513200_37 = PRIM_ISCONS(v_l);
+if (True == v__3513200_37) {
+Obj v__3513201_37 = PRIM_CAR(v_l);
+Obj v__3513202_37 = makeCons(co->gc, v__3513201_37, v_res);
+Obj v__3513203_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512578_37, _3512579_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3513202_37, v__3513203_37);
 return;
 } else {
-coraReturn(co, res);
+coraReturn(co, v_res);
 return;
 }
 }
@@ -4100,9 +4100,9 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512574_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512574_37);
+Obj v_x = R[1];
+Obj v__3513198_37 = PRIM_ISCONS(v_x);
+coraReturn(co, v__3513198_37);
 return;
 }
 }
@@ -4112,14 +4112,14 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3512566_37 = PRIM_ISCONS(exp);
-if (True == _3512566_37) {
-Obj _3512567_37 = PRIM_CAR(exp);
-Obj _3512568_37 = PRIM_CDR(exp);
-R[1] = _3512567_37;
+Obj v_exp = R[1];
+Obj v__3513190_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513190_37) {
+Obj v__3513191_37 = PRIM_CAR(v_exp);
+Obj v__3513192_37 = PRIM_CDR(v_exp);
+R[1] = v__3513191_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512568_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513192_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4128,12 +4128,12 @@ return;
 }
 case 1:
 {
-Obj _3512569_37= co->res;
-Obj _3512567_37 = R[1];
-Obj _3512570_37 = makeCons(co->gc, _3512569_37, Nil);
-Obj _3512571_37 = makeCons(co->gc, _3512567_37, _3512570_37);
-Obj _3512572_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512571_37);
-coraReturn(co, _3512572_37);
+Obj v__3513193_37= co->res;
+Obj v__3513191_37 = R[1];
+Obj v__3513194_37 = makeCons(co->gc, v__3513193_37, Nil);
+Obj v__3513195_37 = makeCons(co->gc, v__3513191_37, v__3513194_37);
+Obj v__3513196_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513195_37);
+coraReturn(co, v__3513196_37);
 return;
 }
 }
@@ -4143,11 +4143,11 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512562_37 = PRIM_CDR(x);
-Obj _3512563_37 = PRIM_CDR(_3512562_37);
-Obj _3512564_37 = PRIM_CDR(_3512563_37);
-coraReturn(co, _3512564_37);
+Obj v_x = R[1];
+Obj v__3513186_37 = PRIM_CDR(v_x);
+Obj v__3513187_37 = PRIM_CDR(v__3513186_37);
+Obj v__3513188_37 = PRIM_CDR(v__3513187_37);
+coraReturn(co, v__3513188_37);
 return;
 }
 }
@@ -4157,12 +4157,12 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512557_37 = PRIM_CDR(x);
-Obj _3512558_37 = PRIM_CDR(_3512557_37);
-Obj _3512559_37 = PRIM_CDR(_3512558_37);
-Obj _3512560_37 = PRIM_CAR(_3512559_37);
-coraReturn(co, _3512560_37);
+Obj v_x = R[1];
+Obj v__3513181_37 = PRIM_CDR(v_x);
+Obj v__3513182_37 = PRIM_CDR(v__3513181_37);
+Obj v__3513183_37 = PRIM_CDR(v__3513182_37);
+Obj v__3513184_37 = PRIM_CAR(v__3513183_37);
+coraReturn(co, v__3513184_37);
 return;
 }
 }
@@ -4172,11 +4172,11 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512553_37 = PRIM_CDR(x);
-Obj _3512554_37 = PRIM_CDR(_3512553_37);
-Obj _3512555_37 = PRIM_CAR(_3512554_37);
-coraReturn(co, _3512555_37);
+Obj v_x = R[1];
+Obj v__3513177_37 = PRIM_CDR(v_x);
+Obj v__3513178_37 = PRIM_CDR(v__3513177_37);
+Obj v__3513179_37 = PRIM_CAR(v__3513178_37);
+coraReturn(co, v__3513179_37);
 return;
 }
 }
@@ -4186,10 +4186,10 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512550_37 = PRIM_CDR(x);
-Obj _3512551_37 = PRIM_CDR(_3512550_37);
-coraReturn(co, _3512551_37);
+Obj v_x = R[1];
+Obj v__3513174_37 = PRIM_CDR(v_x);
+Obj v__3513175_37 = PRIM_CDR(v__3513174_37);
+coraReturn(co, v__3513175_37);
 return;
 }
 }
@@ -4199,10 +4199,10 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512547_37 = PRIM_CAR(x);
-Obj _3512548_37 = PRIM_CDR(_3512547_37);
-coraReturn(co, _3512548_37);
+Obj v_x = R[1];
+Obj v__3513171_37 = PRIM_CAR(v_x);
+Obj v__3513172_37 = PRIM_CDR(v__3513171_37);
+coraReturn(co, v__3513172_37);
 return;
 }
 }
@@ -4212,10 +4212,10 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512544_37 = PRIM_CAR(x);
-Obj _3512545_37 = PRIM_CAR(_3512544_37);
-coraReturn(co, _3512545_37);
+Obj v_x = R[1];
+Obj v__3513168_37 = PRIM_CAR(v_x);
+Obj v__3513169_37 = PRIM_CAR(v__3513168_37);
+coraReturn(co, v__3513169_37);
 return;
 }
 }
@@ -4225,10 +4225,10 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512541_37 = PRIM_CDR(x);
-Obj _3512542_37 = PRIM_CAR(_3512541_37);
-coraReturn(co, _3512542_37);
+Obj v_x = R[1];
+Obj v__3513165_37 = PRIM_CDR(v_x);
+Obj v__3513166_37 = PRIM_CAR(v__3513165_37);
+coraReturn(co, v__3513166_37);
 return;
 }
 }
@@ -4238,9 +4238,9 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3512539_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512539_37);
+Obj v_x = R[1];
+Obj v__3513163_37 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v__3513163_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 1d2a2aa..7f4845a 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,7 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun147(struct Cora* co, int label, Obj *R);
 static void clofun146(struct Cora* co, int label, Obj *R);
 static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
@@ -237,21 +238,21 @@ __symbolTable[79] = bindSymbol(co, intern("%closure-ref"));
 __symbolTable[80] = bindSymbol(co, intern("%closure"));
 __symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
 __symbolTable[82] = bindSymbol(co, intern("cora/lib/toc#diff"));
-__symbolTable[83] = bindSymbol(co, intern("cora/lib/toc#union"));
-__symbolTable[84] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[85] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[86] = bindSymbol(co, intern("quote"));
-__symbolTable[87] = bindSymbol(co, intern("do"));
-__symbolTable[88] = bindSymbol(co, intern("let"));
-__symbolTable[89] = bindSymbol(co, intern("if"));
-__symbolTable[90] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[91] = bindSymbol(co, intern("lambda"));
-__symbolTable[92] = bindSymbol(co, intern("%builtin"));
-__symbolTable[93] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[94] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[95] = bindSymbol(co, intern("%global"));
-__symbolTable[96] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[97] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[83] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[84] = bindSymbol(co, intern("cora/lib/toc#union"));
+__symbolTable[85] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[86] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[87] = bindSymbol(co, intern("quote"));
+__symbolTable[88] = bindSymbol(co, intern("do"));
+__symbolTable[89] = bindSymbol(co, intern("let"));
+__symbolTable[90] = bindSymbol(co, intern("if"));
+__symbolTable[91] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[92] = bindSymbol(co, intern("lambda"));
+__symbolTable[93] = bindSymbol(co, intern("%builtin"));
+__symbolTable[94] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[95] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[96] = bindSymbol(co, intern("%global"));
+__symbolTable[97] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
 __symbolTable[98] = bindSymbol(co, intern("%const"));
 __symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#parse"));
 __symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
@@ -288,192 +289,192 @@ __symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#assq"));
 __symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[132] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
-coraCall0(co, makeNative(co->gc, 1, clofun146, 0, 0));
+coraCall0(co, makeNative(co->gc, 1, clofun147, 0, 0));
 }
 
-static void clofun146(struct Cora* co, int label, Obj *R) {
+static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun146, 4, R);
+saveCont(co, clofun147, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj _3518236_37= co->res;
-Obj _3518242_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518248_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj _3518270_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun114, 3, 0));
-Obj _3518290_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun116, 4, 0));
-Obj _3518303_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun119, 3, 0));
-Obj _3518345_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun124, 1, 0));
-Obj _3518384_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun127, 4, 0));
-Obj _3518436_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518437_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj _3518451_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun141, 1, 0));
-Obj _3518452_37 = primSet(co, getBinding(co, packageID, 8).name, False);
-Obj _3518456_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun143, 1, 0));
-Obj _3518468_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun144, 2, 0));
-Obj _3518471_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun145, 2, 0));
-coraReturn(co, _3518471_37);
+Obj v__3519123_37= co->res;
+Obj v__3519129_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj v__3519135_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v__3519157_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun115, 3, 0));
+Obj v__3519178_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun117, 4, 0));
+Obj v__3519191_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun120, 3, 0));
+Obj v__3519233_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun125, 1, 0));
+Obj v__3519272_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun128, 4, 0));
+Obj v__3519324_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj v__3519325_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun134, 2, 0));
+Obj v__3519339_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun142, 1, 0));
+Obj v__3519340_37 = primSet(co, getBinding(co, packageID, 8).name, False);
+Obj v__3519344_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun144, 1, 0));
+Obj v__3519356_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun145, 2, 0));
+Obj v__3519359_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun146, 2, 0));
+coraReturn(co, v__3519359_37);
 return;
 }
 case 2:
 {
-Obj _3516852_37= co->res;
-Obj _3516853_37 = primSet(co, getBinding(co, packageID, 131).name, Nil);
-Obj _3516868_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516874_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516884_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516885_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516892_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516893_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516894_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516893_37);
-Obj _3516895_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, _3516894_37);
-Obj _3516896_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3516897_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516896_37);
-Obj _3516898_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, _3516897_37);
-Obj _3516899_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516900_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516899_37);
-Obj _3516901_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516900_37);
-Obj _3516902_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516903_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516902_37);
-Obj _3516904_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516903_37);
-Obj _3516905_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516906_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516905_37);
-Obj _3516907_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516906_37);
-Obj _3516908_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3516909_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516908_37);
-Obj _3516910_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516909_37);
-Obj _3516911_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3516912_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516911_37);
-Obj _3516913_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516912_37);
-Obj _3516914_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3516915_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516914_37);
-Obj _3516916_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516915_37);
-Obj _3516917_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3516918_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516917_37);
-Obj _3516919_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516918_37);
-Obj _3516920_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3516921_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516920_37);
-Obj _3516922_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516921_37);
-Obj _3516923_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3516924_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516923_37);
-Obj _3516925_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516924_37);
-Obj _3516926_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516927_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516926_37);
-Obj _3516928_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516927_37);
-Obj _3516929_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516930_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516929_37);
-Obj _3516931_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516930_37);
-Obj _3516932_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3516933_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516932_37);
-Obj _3516934_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516933_37);
-Obj _3516935_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3516936_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516935_37);
-Obj _3516937_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516936_37);
-Obj _3516938_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3516939_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516938_37);
-Obj _3516940_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516939_37);
-Obj _3516941_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516942_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516941_37);
-Obj _3516943_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516942_37);
-Obj _3516944_37 = makeCons(co->gc, _3516943_37, Nil);
-Obj _3516945_37 = makeCons(co->gc, _3516940_37, _3516944_37);
-Obj _3516946_37 = makeCons(co->gc, _3516937_37, _3516945_37);
-Obj _3516947_37 = makeCons(co->gc, _3516934_37, _3516946_37);
-Obj _3516948_37 = makeCons(co->gc, _3516931_37, _3516947_37);
-Obj _3516949_37 = makeCons(co->gc, _3516928_37, _3516948_37);
-Obj _3516950_37 = makeCons(co->gc, _3516925_37, _3516949_37);
-Obj _3516951_37 = makeCons(co->gc, _3516922_37, _3516950_37);
-Obj _3516952_37 = makeCons(co->gc, _3516919_37, _3516951_37);
-Obj _3516953_37 = makeCons(co->gc, _3516916_37, _3516952_37);
-Obj _3516954_37 = makeCons(co->gc, _3516913_37, _3516953_37);
-Obj _3516955_37 = makeCons(co->gc, _3516910_37, _3516954_37);
-Obj _3516956_37 = makeCons(co->gc, _3516907_37, _3516955_37);
-Obj _3516957_37 = makeCons(co->gc, _3516904_37, _3516956_37);
-Obj _3516958_37 = makeCons(co->gc, _3516901_37, _3516957_37);
-Obj _3516959_37 = makeCons(co->gc, _3516898_37, _3516958_37);
-Obj _3516960_37 = makeCons(co->gc, _3516895_37, _3516959_37);
-Obj _3516961_37 = primSet(co, getBinding(co, packageID, 124).name, _3516960_37);
-Obj _3516965_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516968_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516971_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516976_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517170_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517181_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517192_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517253_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517428_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517503_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun45, 2, 0));
-Obj _3517506_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun46, 1, 0));
-Obj _3517643_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3517666_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj _3517743_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun62, 2, 0));
-Obj _3517774_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun66, 3, 0));
-Obj _3517780_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun69, 4, 0));
-Obj _3517785_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun71, 2, 0));
-Obj _3517794_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun73, 1, 0));
-Obj _3517845_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun75, 2, 0));
-Obj _3517853_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun76, 2, 0));
-Obj _3517860_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun77, 2, 0));
-Obj _3517865_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun78, 2, 0));
-Obj _3517871_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun79, 3, 0));
-Obj _3517872_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3517879_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun82, 5, 0));
-Obj _3517886_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun84, 5, 0));
-Obj _3518173_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun97, 5, 0));
-Obj _3518187_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun99, 5, 0));
-Obj _3518209_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun101, 5, 0));
-Obj _3518211_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518215_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518216_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj _3518217_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518218_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518219_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj _3518226_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun108, 1, 0));
-Obj _3518233_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun109, 2, 0));
-saveCont(co, clofun146, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), getBinding(co, packageID, 32).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj v__3517733_37= co->res;
+Obj v__3517734_37 = primSet(co, getBinding(co, packageID, 131).name, Nil);
+Obj v__3517749_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3517755_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3517765_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3517766_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3517773_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3517774_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3517775_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517774_37);
+Obj v__3517776_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, v__3517775_37);
+Obj v__3517777_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3517778_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517777_37);
+Obj v__3517779_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3517778_37);
+Obj v__3517780_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3517781_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517780_37);
+Obj v__3517782_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517781_37);
+Obj v__3517783_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3517784_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517783_37);
+Obj v__3517785_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517784_37);
+Obj v__3517786_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3517787_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517786_37);
+Obj v__3517788_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517787_37);
+Obj v__3517789_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3517790_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517789_37);
+Obj v__3517791_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517790_37);
+Obj v__3517792_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3517793_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517792_37);
+Obj v__3517794_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517793_37);
+Obj v__3517795_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3517796_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517795_37);
+Obj v__3517797_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517796_37);
+Obj v__3517798_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3517799_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517798_37);
+Obj v__3517800_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517799_37);
+Obj v__3517801_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3517802_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517801_37);
+Obj v__3517803_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517802_37);
+Obj v__3517804_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3517805_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517804_37);
+Obj v__3517806_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517805_37);
+Obj v__3517807_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3517808_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517807_37);
+Obj v__3517809_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517808_37);
+Obj v__3517810_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3517811_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517810_37);
+Obj v__3517812_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517811_37);
+Obj v__3517813_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3517814_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517813_37);
+Obj v__3517815_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517814_37);
+Obj v__3517816_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3517817_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517816_37);
+Obj v__3517818_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517817_37);
+Obj v__3517819_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3517820_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517819_37);
+Obj v__3517821_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517820_37);
+Obj v__3517822_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3517823_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517822_37);
+Obj v__3517824_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3517823_37);
+Obj v__3517825_37 = makeCons(co->gc, v__3517824_37, Nil);
+Obj v__3517826_37 = makeCons(co->gc, v__3517821_37, v__3517825_37);
+Obj v__3517827_37 = makeCons(co->gc, v__3517818_37, v__3517826_37);
+Obj v__3517828_37 = makeCons(co->gc, v__3517815_37, v__3517827_37);
+Obj v__3517829_37 = makeCons(co->gc, v__3517812_37, v__3517828_37);
+Obj v__3517830_37 = makeCons(co->gc, v__3517809_37, v__3517829_37);
+Obj v__3517831_37 = makeCons(co->gc, v__3517806_37, v__3517830_37);
+Obj v__3517832_37 = makeCons(co->gc, v__3517803_37, v__3517831_37);
+Obj v__3517833_37 = makeCons(co->gc, v__3517800_37, v__3517832_37);
+Obj v__3517834_37 = makeCons(co->gc, v__3517797_37, v__3517833_37);
+Obj v__3517835_37 = makeCons(co->gc, v__3517794_37, v__3517834_37);
+Obj v__3517836_37 = makeCons(co->gc, v__3517791_37, v__3517835_37);
+Obj v__3517837_37 = makeCons(co->gc, v__3517788_37, v__3517836_37);
+Obj v__3517838_37 = makeCons(co->gc, v__3517785_37, v__3517837_37);
+Obj v__3517839_37 = makeCons(co->gc, v__3517782_37, v__3517838_37);
+Obj v__3517840_37 = makeCons(co->gc, v__3517779_37, v__3517839_37);
+Obj v__3517841_37 = makeCons(co->gc, v__3517776_37, v__3517840_37);
+Obj v__3517842_37 = primSet(co, getBinding(co, packageID, 124).name, v__3517841_37);
+Obj v__3517846_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3517849_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3517852_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3517857_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3518057_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 4, clofun21, 3, 0));
+Obj v__3518068_37 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 4, clofun23, 2, 0));
+Obj v__3518079_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun25, 2, 0));
+Obj v__3518140_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3518315_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun42, 1, 0));
+Obj v__3518390_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun46, 2, 0));
+Obj v__3518393_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun47, 1, 0));
+Obj v__3518530_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v__3518553_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun59, 3, 0));
+Obj v__3518630_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun63, 2, 0));
+Obj v__3518661_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun67, 3, 0));
+Obj v__3518667_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun70, 4, 0));
+Obj v__3518672_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun72, 2, 0));
+Obj v__3518681_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun74, 1, 0));
+Obj v__3518732_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun76, 2, 0));
+Obj v__3518740_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun77, 2, 0));
+Obj v__3518747_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun78, 2, 0));
+Obj v__3518752_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun79, 2, 0));
+Obj v__3518758_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun80, 3, 0));
+Obj v__3518759_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3518766_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun83, 5, 0));
+Obj v__3518773_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun85, 5, 0));
+Obj v__3519060_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun98, 5, 0));
+Obj v__3519074_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun100, 5, 0));
+Obj v__3519096_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun102, 5, 0));
+Obj v__3519098_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj v__3519102_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj v__3519103_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj v__3519104_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj v__3519105_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj v__3519106_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj v__3519113_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun109, 1, 0));
+Obj v__3519120_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun110, 2, 0));
+saveCont(co, clofun147, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), getBinding(co, packageID, 32).name, makeNative(co->gc, 2, clofun111, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516851_37= co->res;
-saveCont(co, clofun146, 2, R);
+Obj v__3517732_37= co->res;
+saveCont(co, clofun147, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516850_37= co->res;
-saveCont(co, clofun146, 3, R);
+Obj v__3517731_37= co->res;
+saveCont(co, clofun147, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun145(struct Cora* co, int label, Obj *R) {
+static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj from = R[1];
-Obj to = R[2];
-R[1] = to;
-saveCont(co, clofun145, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), from);
+Obj v_from = R[1];
+Obj v_to = R[2];
+R[1] = v_to;
+saveCont(co, clofun146, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_from);
 return;
 }
 case 1:
 {
-Obj _3518470_37= co->res;
-Obj exp = R[1];
-Obj to = R[2];
-if (True == _3518470_37) {
+Obj v__3519358_37= co->res;
+Obj v__3517730_37 = R[1];
+Obj v_to = R[2];
+if (True == v__3519358_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), exp, to);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), v__3517730_37, v_to);
 return;
 } else {
 coraReturn(co, False);
@@ -482,188 +483,188 @@ return;
 }
 case 2:
 {
-Obj _3518469_37= co->res;
-Obj to = R[1];
-Obj exp = _3518469_37;
-R[1] = exp;
-R[2] = to;
-saveCont(co, clofun145, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), exp);
+Obj v__3519357_37= co->res;
+Obj v_to = R[1];
+Obj v__3517730_37 = v__3519357_37;
+R[1] = v__3517730_37;
+R[2] = v_to;
+saveCont(co, clofun146, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517730_37);
 return;
 }
 }
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj to = R[2];
-Obj _3518457_37 = primGenSym(co);
-Obj globals = _3518457_37;
-Obj _3518458_37 = primSet(co, globals, Nil);
-R[1] = exp;
-R[2] = to;
-R[3] = globals;
-saveCont(co, clofun144, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), globals);
+Obj v_exp = R[1];
+Obj v_to = R[2];
+Obj v__3519345_37 = primGenSym(co);
+Obj v__3517727_37 = v__3519345_37;
+Obj v__3519346_37 = primSet(co, v__3517727_37, Nil);
+R[1] = v_exp;
+R[2] = v_to;
+R[3] = v__3517727_37;
+saveCont(co, clofun145, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v__3517727_37);
 return;
 }
 case 1:
 {
-Obj _3518466_37= co->res;
-Obj _3518467_37 = PRIM_EQ(MAKE_NUMBER(0), _3518466_37);
-coraReturn(co, _3518467_37);
+Obj v__3519354_37= co->res;
+Obj v__3519355_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519354_37);
+coraReturn(co, v__3519355_37);
 return;
 }
 case 2:
 {
-Obj _3518465_37= co->res;
-Obj stream = R[1];
-saveCont(co, clofun144, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), stream);
+Obj v__3519353_37= co->res;
+Obj v__3517729_37 = R[1];
+saveCont(co, clofun145, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3517729_37);
 return;
 }
 case 3:
 {
-Obj _3518464_37= co->res;
-Obj bc = R[1];
-Obj stream = R[2];
-R[1] = stream;
-saveCont(co, clofun144, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), stream, bc, _3518464_37);
+Obj v__3519352_37= co->res;
+Obj v__3517728_37 = R[1];
+Obj v__3517729_37 = R[2];
+R[1] = v__3517729_37;
+saveCont(co, clofun145, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v__3517729_37, v__3517728_37, v__3519352_37);
 return;
 }
 case 4:
 {
-Obj _3518463_37= co->res;
-Obj globals = R[1];
-Obj bc = R[2];
-Obj stream = R[3];
-if (True == _3518463_37) {
+Obj v__3519351_37= co->res;
+Obj v__3517727_37 = R[1];
+Obj v__3517728_37 = R[2];
+Obj v__3517729_37 = R[3];
+if (True == v__3519351_37) {
 coraReturn(co, False);
 return;
 } else {
-R[1] = bc;
-R[2] = stream;
-saveCont(co, clofun144, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), globals);
+R[1] = v__3517728_37;
+R[2] = v__3517729_37;
+saveCont(co, clofun145, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517727_37);
 return;
 }
 }
 case 5:
 {
-Obj _3518462_37= co->res;
-Obj globals = R[1];
-Obj bc = R[2];
-Obj stream = _3518462_37;
-R[1] = globals;
-R[2] = bc;
-R[3] = stream;
-saveCont(co, clofun144, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), stream);
+Obj v__3519350_37= co->res;
+Obj v__3517727_37 = R[1];
+Obj v__3517728_37 = R[2];
+Obj v__3517729_37 = v__3519350_37;
+R[1] = v__3517727_37;
+R[2] = v__3517728_37;
+R[3] = v__3517729_37;
+saveCont(co, clofun145, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517729_37);
 return;
 }
 case 6:
 {
-Obj _3518461_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = _3518461_37;
-R[1] = globals;
-R[2] = bc;
-saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), to);
+Obj v__3519349_37= co->res;
+Obj v_to = R[1];
+Obj v__3517727_37 = R[2];
+Obj v__3517728_37 = v__3519349_37;
+R[1] = v__3517727_37;
+R[2] = v__3517728_37;
+saveCont(co, clofun145, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_to);
 return;
 }
 case 7:
 {
-Obj _3518460_37= co->res;
-Obj _3518459_37 = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-R[1] = to;
-R[2] = globals;
-saveCont(co, clofun144, 6, R);
-coraCall1(co, _3518459_37, _3518460_37);
+Obj v__3519348_37= co->res;
+Obj v__3519347_37 = R[1];
+Obj v_to = R[2];
+Obj v__3517727_37 = R[3];
+R[1] = v_to;
+R[2] = v__3517727_37;
+saveCont(co, clofun145, 6, R);
+coraCall1(co, v__3519347_37, v__3519348_37);
 return;
 }
 case 8:
 {
-Obj _3518459_37= co->res;
-Obj exp = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-R[1] = _3518459_37;
-R[2] = to;
-R[3] = globals;
-saveCont(co, clofun144, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 3)), exp);
+Obj v__3519347_37= co->res;
+Obj v_exp = R[1];
+Obj v_to = R[2];
+Obj v__3517727_37 = R[3];
+R[1] = v__3519347_37;
+R[2] = v_to;
+R[3] = v__3517727_37;
+saveCont(co, clofun145, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 3)), v_exp);
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj file_45path = R[1];
-saveCont(co, clofun143, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), file_45path);
+Obj v_file_45path = R[1];
+saveCont(co, clofun144, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_file_45path);
 return;
 }
 case 1:
 {
-Obj _3518455_37= co->res;
-Obj _3516848_37 = R[1];
-if (True == _3518455_37) {
+Obj v__3519343_37= co->res;
+Obj v__3517726_37 = R[1];
+if (True == v__3519343_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516848_37, True);
+coraCall1(co, v__3517726_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516848_37, False);
+coraCall1(co, v__3517726_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3518454_37= co->res;
-Obj sexp = R[1];
-Obj _3516848_37 = R[2];
-if (True == _3518454_37) {
-R[1] = _3516848_37;
-saveCont(co, clofun143, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sexp);
+Obj v__3519342_37= co->res;
+Obj v__3517723_37 = R[1];
+Obj v__3517726_37 = R[2];
+if (True == v__3519342_37) {
+R[1] = v__3517726_37;
+saveCont(co, clofun144, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517723_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516848_37, False);
+coraCall1(co, v__3517726_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3518453_37= co->res;
-Obj sexp = _3518453_37;
-Obj _3516848_37 = makeNative(co->gc, 2, clofun142, 1, 1, sexp);
-R[1] = sexp;
-R[2] = _3516848_37;
-saveCont(co, clofun143, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), sexp);
+Obj v__3519341_37= co->res;
+Obj v__3517723_37 = v__3519341_37;
+Obj v__3517726_37 = makeNative(co->gc, 2, clofun143, 1, 1, v__3517723_37);
+R[1] = v__3517723_37;
+R[2] = v__3517726_37;
+saveCont(co, clofun144, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517723_37);
 return;
 }
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516849_37 = R[1];
-if (True == _3516849_37) {
+Obj v__3517725_37 = R[1];
+if (True == v__3517725_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 7)), closureRef(R[0], 0));
 return;
@@ -675,380 +676,380 @@ return;
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516836_37 = R[1];
-Obj _3516837_37 = makeNative(co->gc, 1, clofun138, 0, 1, _3516836_37);
-Obj _3518446_37 = PRIM_ISCONS(_3516836_37);
-if (True == _3518446_37) {
-Obj _3518447_37 = PRIM_CAR(_3516836_37);
-Obj _3518448_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518447_37);
-if (True == _3518448_37) {
-Obj _3518449_37 = PRIM_CDR(_3516836_37);
-Obj more = _3518449_37;
-Obj _3518450_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj v__3517460_37 = R[1];
+Obj v__3517719_37 = makeNative(co->gc, 1, clofun139, 0, 1, v__3517460_37);
+Obj v__3519334_37 = PRIM_ISCONS(v__3517460_37);
+if (True == v__3519334_37) {
+Obj v__3519335_37 = PRIM_CAR(v__3517460_37);
+Obj v__3519336_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519335_37);
+if (True == v__3519336_37) {
+Obj v__3519337_37 = PRIM_CDR(v__3517460_37);
+Obj v__3517722_37 = v__3519337_37;
+Obj v__3519338_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517722_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), _3518450_37, makeNative(co->gc, 2, clofun140, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519338_37, makeNative(co->gc, 2, clofun141, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516837_37);
+coraCall0(co, v__3517719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516837_37);
+coraCall0(co, v__3517719_37);
 return;
 }
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body = R[1];
+Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
 return;
 }
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_type, v_code);
 return;
 }
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516838_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
-Obj _3518441_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518441_37) {
-Obj _3518442_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518443_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518442_37);
-if (True == _3518443_37) {
-Obj _3518444_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518444_37;
-Obj _3518445_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, more);
+Obj v__3517720_37 = makeNative(co->gc, 1, clofun136, 0, 1, closureRef(R[0], 0));
+Obj v__3519329_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519329_37) {
+Obj v__3519330_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519331_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519330_37);
+if (True == v__3519331_37) {
+Obj v__3519332_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517721_37 = v__3519332_37;
+Obj v__3519333_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517721_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), _3518445_37, makeNative(co->gc, 2, clofun137, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519333_37, makeNative(co->gc, 2, clofun138, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516838_37);
+coraCall0(co, v__3517720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516838_37);
+coraCall0(co, v__3517720_37);
 return;
 }
 }
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body = R[1];
+Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
 return;
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_type, v_code);
 return;
 }
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518438_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3519326_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), _3518438_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519326_37, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
 return;
 }
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
-saveCont(co, clofun134, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), type, code);
+Obj v_type = R[1];
+Obj v_code = R[2];
+saveCont(co, clofun135, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj _3518439_37= co->res;
-Obj _3518440_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, _3518439_37);
-coraReturn(co, _3518440_37);
+Obj v__3519327_37= co->res;
+Obj v__3519328_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519327_37);
+coraReturn(co, v__3519328_37);
 return;
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 8))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v_type, v_code);
 return;
 } else {
-coraReturn(co, code);
+coraReturn(co, v_code);
 return;
 }
 }
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516829_37 = R[1];
-Obj _3516830_37 = R[2];
-Obj _3516831_37 = makeNative(co->gc, 2, clofun131, 0, 2, _3516829_37, _3516830_37);
-Obj _3518424_37 = PRIM_ISCONS(_3516829_37);
-if (True == _3518424_37) {
-Obj _3518425_37 = PRIM_CAR(_3516829_37);
-Obj _3518426_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518425_37);
-if (True == _3518426_37) {
-Obj _3518427_37 = PRIM_CDR(_3516829_37);
-Obj _3518428_37 = PRIM_ISCONS(_3518427_37);
-if (True == _3518428_37) {
-Obj _3518429_37 = PRIM_CDR(_3516829_37);
-Obj _3518430_37 = PRIM_CAR(_3518429_37);
-Obj name = _3518430_37;
-Obj _3518431_37 = PRIM_CDR(_3516829_37);
-Obj _3518432_37 = PRIM_CDR(_3518431_37);
-Obj more = _3518432_37;
-R[1] = name;
-saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), more, _3516830_37);
+Obj v__3517453_37 = R[1];
+Obj v__3517454_37 = R[2];
+Obj v__3517708_37 = makeNative(co->gc, 2, clofun132, 0, 2, v__3517453_37, v__3517454_37);
+Obj v__3519312_37 = PRIM_ISCONS(v__3517453_37);
+if (True == v__3519312_37) {
+Obj v__3519313_37 = PRIM_CAR(v__3517453_37);
+Obj v__3519314_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519313_37);
+if (True == v__3519314_37) {
+Obj v__3519315_37 = PRIM_CDR(v__3517453_37);
+Obj v__3519316_37 = PRIM_ISCONS(v__3519315_37);
+if (True == v__3519316_37) {
+Obj v__3519317_37 = PRIM_CDR(v__3517453_37);
+Obj v__3519318_37 = PRIM_CAR(v__3519317_37);
+Obj v__3517717_37 = v__3519318_37;
+Obj v__3519319_37 = PRIM_CDR(v__3517453_37);
+Obj v__3519320_37 = PRIM_CDR(v__3519319_37);
+Obj v__3517718_37 = v__3519320_37;
+R[1] = v__3517717_37;
+saveCont(co, clofun133, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517718_37, v__3517454_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516831_37);
+coraCall0(co, v__3517708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516831_37);
+coraCall0(co, v__3517708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516831_37);
+coraCall0(co, v__3517708_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518433_37= co->res;
-Obj name = R[1];
-Obj _3518434_37 = makeCons(co->gc, name, _3518433_37);
-Obj _3518435_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518434_37);
-coraReturn(co, _3518435_37);
+Obj v__3519321_37= co->res;
+Obj v__3517717_37 = R[1];
+Obj v__3519322_37 = makeCons(co->gc, v__3517717_37, v__3519321_37);
+Obj v__3519323_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519322_37);
+coraReturn(co, v__3519323_37);
 return;
 }
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516832_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518403_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518403_37) {
-Obj _3518404_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518405_37 = PRIM_ISCONS(_3518404_37);
-if (True == _3518405_37) {
-Obj _3518406_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518407_37 = PRIM_CAR(_3518406_37);
-Obj _3518408_37 = PRIM_EQ(getBinding(co, packageID, 23).name, _3518407_37);
-if (True == _3518408_37) {
-Obj _3518409_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518410_37 = PRIM_CDR(_3518409_37);
-Obj _3518411_37 = PRIM_ISCONS(_3518410_37);
-if (True == _3518411_37) {
-Obj _3518412_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518413_37 = PRIM_CDR(_3518412_37);
-Obj _3518414_37 = PRIM_CAR(_3518413_37);
-Obj pkg = _3518414_37;
-Obj _3518415_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518416_37 = PRIM_CDR(_3518415_37);
-Obj _3518417_37 = PRIM_CDR(_3518416_37);
-Obj _3518418_37 = PRIM_EQ(Nil, _3518417_37);
-if (True == _3518418_37) {
-Obj _3518419_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518419_37;
-Obj _3518420_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518421_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, _3518420_37);
-R[1] = _3518421_37;
-saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), more, closureRef(R[0], 1));
+Obj v__3517709_37 = makeNative(co->gc, 2, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519291_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519291_37) {
+Obj v__3519292_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519293_37 = PRIM_ISCONS(v__3519292_37);
+if (True == v__3519293_37) {
+Obj v__3519294_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519295_37 = PRIM_CAR(v__3519294_37);
+Obj v__3519296_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3519295_37);
+if (True == v__3519296_37) {
+Obj v__3519297_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519298_37 = PRIM_CDR(v__3519297_37);
+Obj v__3519299_37 = PRIM_ISCONS(v__3519298_37);
+if (True == v__3519299_37) {
+Obj v__3519300_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519301_37 = PRIM_CDR(v__3519300_37);
+Obj v__3519302_37 = PRIM_CAR(v__3519301_37);
+Obj v__3517715_37 = v__3519302_37;
+Obj v__3519303_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519304_37 = PRIM_CDR(v__3519303_37);
+Obj v__3519305_37 = PRIM_CDR(v__3519304_37);
+Obj v__3519306_37 = PRIM_EQ(Nil, v__3519305_37);
+if (True == v__3519306_37) {
+Obj v__3519307_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517716_37 = v__3519307_37;
+Obj v__3519308_37 = makeCons(co->gc, v__3517715_37, Nil);
+Obj v__3519309_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, v__3519308_37);
+R[1] = v__3519309_37;
+saveCont(co, clofun132, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517716_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516832_37);
+coraCall0(co, v__3517709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516832_37);
+coraCall0(co, v__3517709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516832_37);
+coraCall0(co, v__3517709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516832_37);
+coraCall0(co, v__3517709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516832_37);
+coraCall0(co, v__3517709_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518422_37= co->res;
-Obj _3518421_37 = R[1];
-Obj _3518423_37 = makeCons(co->gc, _3518421_37, _3518422_37);
-coraReturn(co, _3518423_37);
+Obj v__3519310_37= co->res;
+Obj v__3519309_37 = R[1];
+Obj v__3519311_37 = makeCons(co->gc, v__3519309_37, v__3519310_37);
+coraReturn(co, v__3519311_37);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516833_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518391_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518391_37) {
-Obj _3518392_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518393_37 = PRIM_ISCONS(_3518392_37);
-if (True == _3518393_37) {
-Obj _3518394_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518395_37 = PRIM_CAR(_3518394_37);
-Obj _3518396_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518395_37);
-if (True == _3518396_37) {
-Obj _3518397_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518398_37 = PRIM_CDR(_3518397_37);
-Obj symbols = _3518398_37;
-Obj _3518399_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518399_37;
-Obj _3518400_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, symbols);
-R[1] = _3518400_37;
-saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), more, closureRef(R[0], 1));
+Obj v__3517710_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519279_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519279_37) {
+Obj v__3519280_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519281_37 = PRIM_ISCONS(v__3519280_37);
+if (True == v__3519281_37) {
+Obj v__3519282_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519283_37 = PRIM_CAR(v__3519282_37);
+Obj v__3519284_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519283_37);
+if (True == v__3519284_37) {
+Obj v__3519285_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519286_37 = PRIM_CDR(v__3519285_37);
+Obj v__3517713_37 = v__3519286_37;
+Obj v__3519287_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517714_37 = v__3519287_37;
+Obj v__3519288_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3517713_37);
+R[1] = v__3519288_37;
+saveCont(co, clofun131, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517714_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516833_37);
+coraCall0(co, v__3517710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516833_37);
+coraCall0(co, v__3517710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516833_37);
+coraCall0(co, v__3517710_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518401_37= co->res;
-Obj _3518400_37 = R[1];
-Obj _3518402_37 = makeCons(co->gc, _3518400_37, _3518401_37);
-coraReturn(co, _3518402_37);
+Obj v__3519289_37= co->res;
+Obj v__3519288_37 = R[1];
+Obj v__3519290_37 = makeCons(co->gc, v__3519288_37, v__3519289_37);
+coraReturn(co, v__3519290_37);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516834_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518385_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518385_37) {
-Obj _3518386_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518387_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518386_37);
-if (True == _3518387_37) {
-Obj _3518388_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518388_37;
-saveCont(co, clofun129, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), more, closureRef(R[0], 1));
+Obj v__3517711_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3519273_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519273_37) {
+Obj v__3519274_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519275_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519274_37);
+if (True == v__3519275_37) {
+Obj v__3519276_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517712_37 = v__3519276_37;
+saveCont(co, clofun130, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517712_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516834_37);
+coraCall0(co, v__3517711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516834_37);
+coraCall0(co, v__3517711_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518389_37= co->res;
-Obj _3518390_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, _3518389_37);
-coraReturn(co, _3518390_37);
+Obj v__3519277_37= co->res;
+Obj v__3519278_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519277_37);
+coraReturn(co, v__3519278_37);
 return;
 }
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1059,147 +1060,147 @@ return;
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516821_37 = R[1];
-Obj _3516822_37 = R[2];
-Obj _3516823_37 = R[3];
-Obj _3516824_37 = R[4];
-Obj _3518346_37 = PRIM_EQ(Nil, _3516821_37);
-if (True == _3518346_37) {
-R[1] = _3516823_37;
-R[2] = _3516824_37;
-saveCont(co, clofun127, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), _3516822_37);
+Obj v__3517445_37 = R[1];
+Obj v__3517446_37 = R[2];
+Obj v__3517447_37 = R[3];
+Obj v__3517448_37 = R[4];
+Obj v__3519234_37 = PRIM_EQ(Nil, v__3517445_37);
+if (True == v__3519234_37) {
+R[1] = v__3517447_37;
+R[2] = v__3517448_37;
+saveCont(co, clofun128, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517446_37);
 return;
 } else {
-Obj _3516826_37 = makeNative(co->gc, 1, clofun126, 0, 4, _3516821_37, _3516822_37, _3516823_37, _3516824_37);
-Obj _3518373_37 = PRIM_ISCONS(_3516821_37);
-if (True == _3518373_37) {
-Obj _3518374_37 = PRIM_CAR(_3516821_37);
-Obj _3518375_37 = PRIM_ISCONS(_3518374_37);
-if (True == _3518375_37) {
-Obj _3518376_37 = PRIM_CAR(_3516821_37);
-Obj _3518377_37 = PRIM_CAR(_3518376_37);
-Obj _3518378_37 = PRIM_EQ(getBinding(co, packageID, 11).name, _3518377_37);
-if (True == _3518378_37) {
-Obj _3518379_37 = PRIM_CAR(_3516821_37);
-Obj _3518380_37 = PRIM_CDR(_3518379_37);
-Obj exp = _3518380_37;
-Obj _3518381_37 = PRIM_CDR(_3516821_37);
-Obj more = _3518381_37;
-Obj _3518382_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, exp);
-Obj _3518383_37 = makeCons(co->gc, _3518382_37, _3516822_37);
+Obj v__3517700_37 = makeNative(co->gc, 1, clofun127, 0, 4, v__3517445_37, v__3517446_37, v__3517447_37, v__3517448_37);
+Obj v__3519261_37 = PRIM_ISCONS(v__3517445_37);
+if (True == v__3519261_37) {
+Obj v__3519262_37 = PRIM_CAR(v__3517445_37);
+Obj v__3519263_37 = PRIM_ISCONS(v__3519262_37);
+if (True == v__3519263_37) {
+Obj v__3519264_37 = PRIM_CAR(v__3517445_37);
+Obj v__3519265_37 = PRIM_CAR(v__3519264_37);
+Obj v__3519266_37 = PRIM_EQ(getBinding(co, packageID, 11).name, v__3519265_37);
+if (True == v__3519266_37) {
+Obj v__3519267_37 = PRIM_CAR(v__3517445_37);
+Obj v__3519268_37 = PRIM_CDR(v__3519267_37);
+Obj v__3517706_37 = v__3519268_37;
+Obj v__3519269_37 = PRIM_CDR(v__3517445_37);
+Obj v__3517707_37 = v__3519269_37;
+Obj v__3519270_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517706_37);
+Obj v__3519271_37 = makeCons(co->gc, v__3519270_37, v__3517446_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), more, _3518383_37, _3516823_37, _3516824_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517707_37, v__3519271_37, v__3517447_37, v__3517448_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516826_37);
+coraCall0(co, v__3517700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516826_37);
+coraCall0(co, v__3517700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516826_37);
+coraCall0(co, v__3517700_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518348_37= co->res;
-Obj _3516824_37 = R[1];
-Obj _3518347_37 = R[2];
+Obj v__3519236_37= co->res;
+Obj v__3517448_37 = R[1];
+Obj v__3519235_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516824_37, _3518347_37, _3518348_37);
+coraCall2(co, v__3517448_37, v__3519235_37, v__3519236_37);
 return;
 }
 case 2:
 {
-Obj _3518347_37= co->res;
-Obj _3516823_37 = R[1];
-Obj _3516824_37 = R[2];
-R[1] = _3516824_37;
-R[2] = _3518347_37;
-saveCont(co, clofun127, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), _3516823_37);
+Obj v__3519235_37= co->res;
+Obj v__3517447_37 = R[1];
+Obj v__3517448_37 = R[2];
+R[1] = v__3517448_37;
+R[2] = v__3519235_37;
+saveCont(co, clofun128, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517447_37);
 return;
 }
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516827_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518362_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518362_37) {
-Obj _3518363_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518364_37 = PRIM_ISCONS(_3518363_37);
-if (True == _3518364_37) {
-Obj _3518365_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518366_37 = PRIM_CAR(_3518365_37);
-Obj _3518367_37 = PRIM_EQ(getBinding(co, packageID, 13).name, _3518366_37);
-if (True == _3518367_37) {
-Obj _3518368_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518369_37 = PRIM_CDR(_3518368_37);
-Obj exp = _3518369_37;
-Obj _3518370_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518370_37;
-Obj _3518371_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, exp);
-Obj _3518372_37 = makeCons(co->gc, _3518371_37, closureRef(R[0], 1));
+Obj v__3517701_37 = makeNative(co->gc, 1, clofun126, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3519250_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519250_37) {
+Obj v__3519251_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519252_37 = PRIM_ISCONS(v__3519251_37);
+if (True == v__3519252_37) {
+Obj v__3519253_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519254_37 = PRIM_CAR(v__3519253_37);
+Obj v__3519255_37 = PRIM_EQ(getBinding(co, packageID, 13).name, v__3519254_37);
+if (True == v__3519255_37) {
+Obj v__3519256_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519257_37 = PRIM_CDR(v__3519256_37);
+Obj v__3517704_37 = v__3519257_37;
+Obj v__3519258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517705_37 = v__3519258_37;
+Obj v__3519259_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, v__3517704_37);
+Obj v__3519260_37 = makeCons(co->gc, v__3519259_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), more, _3518372_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517705_37, v__3519260_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516827_37);
+coraCall0(co, v__3517701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516827_37);
+coraCall0(co, v__3517701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516827_37);
+coraCall0(co, v__3517701_37);
 return;
 }
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518349_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518349_37) {
-Obj _3518350_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518350_37;
-Obj _3518351_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518351_37;
-Obj _3518352_37 = makeCons(co->gc, exp, Nil);
-Obj _3518353_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518352_37);
-Obj _3518354_37 = makeCons(co->gc, _3518353_37, Nil);
-Obj _3518355_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518354_37);
-Obj _3518356_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
-Obj _3518357_37 = makeCons(co->gc, _3518356_37, Nil);
-Obj _3518358_37 = makeCons(co->gc, _3518355_37, _3518357_37);
-Obj _3518359_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, _3518358_37);
-Obj _3518360_37 = makeCons(co->gc, _3518359_37, closureRef(R[0], 1));
-Obj _3518361_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj v__3519237_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519237_37) {
+Obj v__3519238_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517702_37 = v__3519238_37;
+Obj v__3519239_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517703_37 = v__3519239_37;
+Obj v__3519240_37 = makeCons(co->gc, v__3517702_37, Nil);
+Obj v__3519241_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519240_37);
+Obj v__3519242_37 = makeCons(co->gc, v__3519241_37, Nil);
+Obj v__3519243_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519242_37);
+Obj v__3519244_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
+Obj v__3519245_37 = makeCons(co->gc, v__3519244_37, Nil);
+Obj v__3519246_37 = makeCons(co->gc, v__3519243_37, v__3519245_37);
+Obj v__3519247_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, v__3519246_37);
+Obj v__3519248_37 = makeCons(co->gc, v__3519247_37, closureRef(R[0], 1));
+Obj v__3519249_37 = makeCons(co->gc, v__3517702_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), more, _3518360_37, _3518361_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517703_37, v__3519248_37, v__3519249_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1210,183 +1211,183 @@ return;
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516815_37 = R[1];
-Obj _3516816_37 = makeNative(co->gc, 1, clofun123, 0, 1, _3516815_37);
-Obj _3518336_37 = PRIM_ISCONS(_3516815_37);
-if (True == _3518336_37) {
-Obj _3518337_37 = PRIM_CAR(_3516815_37);
-Obj _3518338_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518337_37);
-if (True == _3518338_37) {
-Obj _3518339_37 = PRIM_CDR(_3516815_37);
-Obj _3518340_37 = PRIM_ISCONS(_3518339_37);
-if (True == _3518340_37) {
-Obj _3518341_37 = PRIM_CDR(_3516815_37);
-Obj _3518342_37 = PRIM_CAR(_3518341_37);
-Obj _3518343_37 = PRIM_CDR(_3516815_37);
-Obj _3518344_37 = PRIM_CDR(_3518343_37);
-Obj remain = _3518344_37;
+Obj v__3517439_37 = R[1];
+Obj v__3517691_37 = makeNative(co->gc, 1, clofun124, 0, 1, v__3517439_37);
+Obj v__3519224_37 = PRIM_ISCONS(v__3517439_37);
+if (True == v__3519224_37) {
+Obj v__3519225_37 = PRIM_CAR(v__3517439_37);
+Obj v__3519226_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519225_37);
+if (True == v__3519226_37) {
+Obj v__3519227_37 = PRIM_CDR(v__3517439_37);
+Obj v__3519228_37 = PRIM_ISCONS(v__3519227_37);
+if (True == v__3519228_37) {
+Obj v__3519229_37 = PRIM_CDR(v__3517439_37);
+Obj v__3519230_37 = PRIM_CAR(v__3519229_37);
+Obj v__3519231_37 = PRIM_CDR(v__3517439_37);
+Obj v__3519232_37 = PRIM_CDR(v__3519231_37);
+Obj v__3517699_37 = v__3519232_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517699_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516816_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516816_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516816_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 }
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516817_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
-Obj _3518332_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518332_37) {
-Obj _3518333_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518334_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518333_37);
-if (True == _3518334_37) {
-Obj _3518335_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518335_37;
+Obj v__3517692_37 = makeNative(co->gc, 1, clofun123, 0, 1, closureRef(R[0], 0));
+Obj v__3519220_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519220_37) {
+Obj v__3519221_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519222_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519221_37);
+if (True == v__3519222_37) {
+Obj v__3519223_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517698_37 = v__3519223_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517698_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516817_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516817_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516818_37 = makeNative(co->gc, 3, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518323_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518323_37) {
-Obj _3518324_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518325_37 = PRIM_ISCONS(_3518324_37);
-if (True == _3518325_37) {
-Obj _3518326_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518327_37 = PRIM_CAR(_3518326_37);
-Obj _3518328_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518327_37);
-if (True == _3518328_37) {
-Obj _3518329_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518330_37 = PRIM_CDR(_3518329_37);
-Obj _3518331_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518331_37;
+Obj v__3517693_37 = makeNative(co->gc, 3, clofun122, 0, 1, closureRef(R[0], 0));
+Obj v__3519211_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519211_37) {
+Obj v__3519212_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519213_37 = PRIM_ISCONS(v__3519212_37);
+if (True == v__3519213_37) {
+Obj v__3519214_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519215_37 = PRIM_CAR(v__3519214_37);
+Obj v__3519216_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519215_37);
+if (True == v__3519216_37) {
+Obj v__3519217_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519218_37 = PRIM_CDR(v__3519217_37);
+Obj v__3519219_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517697_37 = v__3519219_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517697_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516818_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516818_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516818_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516819_37 = makeNative(co->gc, 1, clofun120, 0, 0);
-Obj _3518304_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518304_37) {
-Obj _3518305_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518306_37 = PRIM_ISCONS(_3518305_37);
-if (True == _3518306_37) {
-Obj _3518307_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518308_37 = PRIM_CAR(_3518307_37);
-Obj _3518309_37 = PRIM_EQ(getBinding(co, packageID, 23).name, _3518308_37);
-if (True == _3518309_37) {
-Obj _3518310_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518311_37 = PRIM_CDR(_3518310_37);
-Obj _3518312_37 = PRIM_ISCONS(_3518311_37);
-if (True == _3518312_37) {
-Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518314_37 = PRIM_CDR(_3518313_37);
-Obj _3518315_37 = PRIM_CAR(_3518314_37);
-Obj pkg = _3518315_37;
-Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518317_37 = PRIM_CDR(_3518316_37);
-Obj _3518318_37 = PRIM_CDR(_3518317_37);
-Obj _3518319_37 = PRIM_EQ(Nil, _3518318_37);
-if (True == _3518319_37) {
-Obj _3518320_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518320_37;
-R[1] = pkg;
-R[2] = remain;
-saveCont(co, clofun121, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), pkg);
+Obj v__3517694_37 = makeNative(co->gc, 1, clofun121, 0, 0);
+Obj v__3519192_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519192_37) {
+Obj v__3519193_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519194_37 = PRIM_ISCONS(v__3519193_37);
+if (True == v__3519194_37) {
+Obj v__3519195_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519196_37 = PRIM_CAR(v__3519195_37);
+Obj v__3519197_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3519196_37);
+if (True == v__3519197_37) {
+Obj v__3519198_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519199_37 = PRIM_CDR(v__3519198_37);
+Obj v__3519200_37 = PRIM_ISCONS(v__3519199_37);
+if (True == v__3519200_37) {
+Obj v__3519201_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519202_37 = PRIM_CDR(v__3519201_37);
+Obj v__3519203_37 = PRIM_CAR(v__3519202_37);
+Obj v__3517695_37 = v__3519203_37;
+Obj v__3519204_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519205_37 = PRIM_CDR(v__3519204_37);
+Obj v__3519206_37 = PRIM_CDR(v__3519205_37);
+Obj v__3519207_37 = PRIM_EQ(Nil, v__3519206_37);
+if (True == v__3519207_37) {
+Obj v__3519208_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517696_37 = v__3519208_37;
+R[1] = v__3517695_37;
+R[2] = v__3517696_37;
+saveCont(co, clofun122, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v__3517695_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516819_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516819_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516819_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516819_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516819_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518322_37= co->res;
-Obj remain = R[1];
-if (True == _3518322_37) {
+Obj v__3519210_37= co->res;
+Obj v__3517696_37 = R[1];
+if (True == v__3519210_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517696_37);
 return;
 } else {
 coraReturn(co, False);
@@ -1395,18 +1396,18 @@ return;
 }
 case 2:
 {
-Obj _3518321_37= co->res;
-Obj pkg = R[1];
-Obj remain = R[2];
-R[1] = remain;
-saveCont(co, clofun121, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), pkg, globalRef(co, getBinding(co, packageID, 22)));
+Obj v__3519209_37= co->res;
+Obj v__3517695_37 = R[1];
+Obj v__3517696_37 = R[2];
+R[1] = v__3517696_37;
+saveCont(co, clofun122, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517695_37, globalRef(co, getBinding(co, packageID, 22)));
 return;
 }
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1416,167 +1417,167 @@ return;
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj bc = R[2];
-Obj globals = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
-saveCont(co, clofun119, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "#include \"types.h\"\n"));
+Obj v_to = R[1];
+Obj v_bc = R[2];
+Obj v_globals = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun120, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3518302_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
+Obj v__3519190_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun118, 1, 2, to, globals), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun119, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj _3518301_37= co->res;
-Obj _3518298_37 = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-Obj bc = R[4];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
-saveCont(co, clofun119, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), to, globals, _3518298_37, _3518301_37);
+Obj v__3519189_37= co->res;
+Obj v__3519186_37 = R[1];
+Obj v_to = R[2];
+Obj v_globals = R[3];
+Obj v_bc = R[4];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun120, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), v_to, v_globals, v__3519186_37, v__3519189_37);
 return;
 }
 case 3:
 {
-Obj _3518300_37= co->res;
-Obj _3518298_37 = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-Obj bc = R[4];
-R[1] = _3518298_37;
-R[2] = to;
-R[3] = globals;
-R[4] = bc;
-saveCont(co, clofun119, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), _3518300_37);
+Obj v__3519188_37= co->res;
+Obj v__3519186_37 = R[1];
+Obj v_to = R[2];
+Obj v_globals = R[3];
+Obj v_bc = R[4];
+R[1] = v__3519186_37;
+R[2] = v_to;
+R[3] = v_globals;
+R[4] = v_bc;
+saveCont(co, clofun120, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519188_37);
 return;
 }
 case 4:
 {
-Obj _3518298_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-Obj _3518299_37 = PRIM_CAR(bc);
-R[1] = _3518298_37;
-R[2] = to;
-R[3] = globals;
-R[4] = bc;
-saveCont(co, clofun119, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3518299_37);
+Obj v__3519186_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+Obj v__3519187_37 = PRIM_CAR(v_bc);
+R[1] = v__3519186_37;
+R[2] = v_to;
+R[3] = v_globals;
+R[4] = v_bc;
+saveCont(co, clofun120, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3519187_37);
 return;
 }
 case 5:
 {
-Obj _3518297_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
-saveCont(co, clofun119, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), bc);
+Obj v__3519185_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun120, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_bc);
 return;
 }
 case 6:
 {
-Obj _3518296_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
-saveCont(co, clofun119, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "\n\n"));
+Obj v__3519184_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun120, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj _3518293_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
-saveCont(co, clofun119, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun117, 1, 1, to), bc);
+Obj v__3519181_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun120, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun118, 1, 1, v_to), v_bc);
 return;
 }
 case 8:
 {
-Obj _3518292_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
-saveCont(co, clofun119, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "static int packageID = -1;\n"));
+Obj v__3519180_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun120, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
 {
-Obj _3518291_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
-saveCont(co, clofun119, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+Obj v__3519179_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
+saveCont(co, clofun120, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj group = R[1];
+Obj v_group = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 28)), closureRef(R[0], 0), group, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 28)), closureRef(R[0], 0), v_group, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj group = R[1];
-Obj _3518294_37 = PRIM_CAR(group);
-saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), _3518294_37);
+Obj v_group = R[1];
+Obj v__3519182_37 = PRIM_CAR(v_group);
+saveCont(co, clofun118, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), v__3519182_37);
 return;
 }
 case 1:
 {
-Obj _3518295_37= co->res;
+Obj v__3519183_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1584,575 +1585,584 @@ return;
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj globals = R[2];
-Obj label = R[3];
-Obj nframe = R[4];
-R[1] = globals;
-R[2] = nframe;
-R[3] = label;
-R[4] = to;
-saveCont(co, clofun116, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_label = R[3];
+Obj v_nframe = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun117, 12, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3518289_37= co->res;
-Obj to = R[1];
+Obj v__3519177_37= co->res;
+Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, ", 0, 0));\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ", 0, 0));\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3518288_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = to;
-saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), to, label);
+Obj v__3519176_37= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_to;
+saveCont(co, clofun117, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v_to, v_label);
 return;
 }
 case 3:
 {
-Obj _3518287_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
-saveCont(co, clofun116, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, ", "));
+Obj v__3519175_37= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_label;
+R[2] = v_to;
+saveCont(co, clofun117, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3518286_37= co->res;
-Obj nframe = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = label;
-R[2] = to;
-saveCont(co, clofun116, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), to, nframe);
+Obj v__3519174_37= co->res;
+Obj v_nframe = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_label;
+R[2] = v_to;
+saveCont(co, clofun117, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, v_nframe);
 return;
 }
 case 5:
 {
-Obj _3518285_37= co->res;
-Obj nframe = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = nframe;
-R[2] = label;
-R[3] = to;
-saveCont(co, clofun116, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
+Obj v__3519173_37= co->res;
+Obj v_nframe = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_nframe;
+R[2] = v_label;
+R[3] = v_to;
+saveCont(co, clofun117, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
 return;
 }
 case 6:
 {
-Obj _3518284_37= co->res;
-Obj nframe = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = nframe;
-R[2] = label;
-R[3] = to;
-saveCont(co, clofun116, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+Obj v__3519172_37= co->res;
+Obj v_nframe = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_nframe;
+R[2] = v_label;
+R[3] = v_to;
+saveCont(co, clofun117, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 7:
 {
-Obj _3518276_37= co->res;
-Obj globals = R[1];
-Obj nframe = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = nframe;
-R[2] = label;
-R[3] = to;
-saveCont(co, clofun116, 6, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun115, 2, 1, to), MAKE_NUMBER(0), globals);
+Obj v__3519163_37= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_nframe;
+R[2] = v_label;
+R[3] = v_to;
+saveCont(co, clofun117, 6, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun116, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 8:
 {
-Obj _3518275_37= co->res;
-Obj globals = R[1];
-Obj nframe = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = nframe;
-R[3] = label;
-R[4] = to;
-saveCont(co, clofun116, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, ");\n"));
+Obj v__3519162_37= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun117, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 9:
 {
-Obj _3518274_37= co->res;
-Obj globals = R[1];
-Obj nframe = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = nframe;
-R[3] = label;
-R[4] = to;
-saveCont(co, clofun116, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), to, _3518274_37);
+Obj v__3519161_37= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun117, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, v__3519161_37);
 return;
 }
 case 10:
 {
-Obj _3518273_37= co->res;
-Obj globals = R[1];
-Obj nframe = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = nframe;
-R[3] = label;
-R[4] = to;
-saveCont(co, clofun116, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), globals);
+Obj v__3519160_37= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun117, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_globals);
 return;
 }
 case 11:
 {
-Obj _3518272_37= co->res;
-Obj globals = R[1];
-Obj nframe = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = nframe;
-R[3] = label;
-R[4] = to;
-saveCont(co, clofun116, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+Obj v__3519159_37= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun117, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 12:
 {
-Obj _3518271_37= co->res;
-Obj globals = R[1];
-Obj nframe = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = nframe;
-R[3] = label;
-R[4] = to;
-saveCont(co, clofun116, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+Obj v__3519158_37= co->res;
+Obj v_globals = R[1];
+Obj v_nframe = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_nframe;
+R[3] = v_label;
+R[4] = v_to;
+saveCont(co, clofun117, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj sym = R[2];
-R[1] = sym;
-R[2] = acc;
-saveCont(co, clofun115, 6, R);
+Obj v_acc = R[1];
+Obj v_sym = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun116, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj _3518282_37= co->res;
-Obj acc = R[1];
-Obj _3518283_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518283_37);
+Obj v__3519170_37= co->res;
+Obj v_acc = R[1];
+Obj v__3519171_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519171_37);
 return;
 }
 case 2:
 {
-Obj _3518281_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
-saveCont(co, clofun115, 1, R);
+Obj v__3519169_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun116, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj _3518280_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
-saveCont(co, clofun115, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), _3518280_37);
+Obj v__3519168_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun116, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), v__3519168_37);
 return;
 }
 case 4:
 {
-Obj _3518279_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = acc;
-saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 26)), sym);
+Obj v__3519167_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun116, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3519167_37);
 return;
 }
 case 5:
 {
-Obj _3518278_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = sym;
-R[2] = acc;
-saveCont(co, clofun115, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+Obj v__3519166_37= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
+saveCont(co, clofun116, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 26)), v_sym);
 return;
 }
 case 6:
 {
-Obj _3518277_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = sym;
-R[2] = acc;
-saveCont(co, clofun115, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), acc);
+Obj v__3519165_37= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun116, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+return;
+}
+case 7:
+{
+Obj v__3519164_37= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun116, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj group = R[2];
-Obj globals = R[3];
-Obj _3518249_37 = PRIM_CAR(group);
-Obj label = _3518249_37;
-R[1] = globals;
-R[2] = label;
-R[3] = to;
-saveCont(co, clofun114, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), group);
+Obj v_to = R[1];
+Obj v_group = R[2];
+Obj v_globals = R[3];
+Obj v__3519136_37 = PRIM_CAR(v_group);
+Obj v__3517687_37 = v__3519136_37;
+R[1] = v_globals;
+R[2] = v__3517687_37;
+R[3] = v_to;
+saveCont(co, clofun115, 13, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_group);
 return;
 }
 case 1:
 {
-Obj _3518269_37= co->res;
-Obj to = R[1];
+Obj v__3519156_37= co->res;
+Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3518268_37= co->res;
-Obj to = R[1];
-R[1] = to;
-saveCont(co, clofun114, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "}\n"));
+Obj v__3519155_37= co->res;
+Obj v_to = R[1];
+R[1] = v_to;
+saveCont(co, clofun115, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518267_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
-Obj to = R[4];
-R[1] = to;
-saveCont(co, clofun114, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun113, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518267_37);
+Obj v__3519154_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517687_37 = R[2];
+Obj v__3517688_37 = R[3];
+Obj v_to = R[4];
+R[1] = v_to;
+saveCont(co, clofun115, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun114, 2, 4, v_globals, v__3517687_37, v__3517688_37, v_to), MAKE_NUMBER(1), v__3519154_37);
 return;
 }
 case 4:
 {
-Obj _3518259_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = label;
-R[3] = lam;
-R[4] = to;
-saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), lam);
+Obj v__3519146_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517687_37 = R[2];
+Obj v__3517688_37 = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v__3517687_37;
+R[3] = v__3517688_37;
+R[4] = v_to;
+saveCont(co, clofun115, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3517688_37);
 return;
 }
 case 5:
 {
-Obj _3518258_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = label;
-R[3] = lam;
-R[4] = to;
-saveCont(co, clofun114, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "}\n"));
+Obj v__3519145_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517687_37 = R[2];
+Obj v__3517688_37 = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v__3517687_37;
+R[3] = v__3517688_37;
+R[4] = v_to;
+saveCont(co, clofun115, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj _3518257_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = globals;
-R[2] = label;
-R[3] = lam;
-R[4] = to;
-saveCont(co, clofun114, 5, R);
-Obj __args[5] = {globals, label, params, to, first_45stmt};
+Obj v__3519144_37= co->res;
+Obj v__3517689_37 = R[1];
+Obj v__3517690_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517687_37 = R[4];
+Obj v__3517688_37 = R[5];
+Obj v_to = R[6];
+R[1] = v_globals;
+R[2] = v__3517687_37;
+R[3] = v__3517688_37;
+R[4] = v_to;
+saveCont(co, clofun115, 5, R);
+Obj __args[5] = {v_globals, v__3517687_37, v__3517689_37, v_to, v__3517690_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518256_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
-saveCont(co, clofun114, 6, R);
-Obj __args[5] = {globals, label, Nil, to, params};
+Obj v__3519143_37= co->res;
+Obj v__3517689_37 = R[1];
+Obj v__3517690_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517687_37 = R[4];
+Obj v__3517688_37 = R[5];
+Obj v_to = R[6];
+R[1] = v__3517689_37;
+R[2] = v__3517690_37;
+R[3] = v_globals;
+R[4] = v__3517687_37;
+R[5] = v__3517688_37;
+R[6] = v_to;
+saveCont(co, clofun115, 6, R);
+Obj __args[5] = {v_globals, v__3517687_37, Nil, v_to, v__3517689_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 8:
 {
-Obj _3518255_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
-saveCont(co, clofun114, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, "case 0:\n{\n"));
+Obj v__3519142_37= co->res;
+Obj v__3517689_37 = R[1];
+Obj v__3517690_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517687_37 = R[4];
+Obj v__3517688_37 = R[5];
+Obj v_to = R[6];
+R[1] = v__3517689_37;
+R[2] = v__3517690_37;
+R[3] = v_globals;
+R[4] = v__3517687_37;
+R[5] = v__3517688_37;
+R[6] = v_to;
+saveCont(co, clofun115, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj _3518254_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
-saveCont(co, clofun114, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, " switch (label) {\n"));
+Obj v__3519141_37= co->res;
+Obj v__3517689_37 = R[1];
+Obj v__3517690_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517687_37 = R[4];
+Obj v__3517688_37 = R[5];
+Obj v_to = R[6];
+R[1] = v__3517689_37;
+R[2] = v__3517690_37;
+R[3] = v_globals;
+R[4] = v__3517687_37;
+R[5] = v__3517688_37;
+R[6] = v_to;
+saveCont(co, clofun115, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj _3518253_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
-Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
-Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
-saveCont(co, clofun114, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), to, makeCString(co->gc, " {\n"));
+Obj v__3519140_37= co->res;
+Obj v__3517689_37 = R[1];
+Obj v__3517690_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517687_37 = R[4];
+Obj v__3517688_37 = R[5];
+Obj v_to = R[6];
+R[1] = v__3517689_37;
+R[2] = v__3517690_37;
+R[3] = v_globals;
+R[4] = v__3517687_37;
+R[5] = v__3517688_37;
+R[6] = v_to;
+saveCont(co, clofun115, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj _3518252_37= co->res;
-Obj params = R[1];
-Obj globals = R[2];
-Obj label = R[3];
-Obj lam = R[4];
-Obj to = R[5];
-Obj first_45stmt = _3518252_37;
-R[1] = params;
-R[2] = first_45stmt;
-R[3] = globals;
-R[4] = label;
-R[5] = lam;
-R[6] = to;
-saveCont(co, clofun114, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), to, label);
+Obj v__3519139_37= co->res;
+Obj v__3517689_37 = R[1];
+Obj v_globals = R[2];
+Obj v__3517687_37 = R[3];
+Obj v__3517688_37 = R[4];
+Obj v_to = R[5];
+Obj v__3517690_37 = v__3519139_37;
+R[1] = v__3517689_37;
+R[2] = v__3517690_37;
+R[3] = v_globals;
+R[4] = v__3517687_37;
+R[5] = v__3517688_37;
+R[6] = v_to;
+saveCont(co, clofun115, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), v_to, v__3517687_37);
 return;
 }
 case 12:
 {
-Obj _3518251_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
-Obj to = R[4];
-Obj params = _3518251_37;
-R[1] = params;
-R[2] = globals;
-R[3] = label;
-R[4] = lam;
-R[5] = to;
-saveCont(co, clofun114, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), lam);
+Obj v__3519138_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517687_37 = R[2];
+Obj v__3517688_37 = R[3];
+Obj v_to = R[4];
+Obj v__3517689_37 = v__3519138_37;
+R[1] = v__3517689_37;
+R[2] = v_globals;
+R[3] = v__3517687_37;
+R[4] = v__3517688_37;
+R[5] = v_to;
+saveCont(co, clofun115, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517688_37);
 return;
 }
 case 13:
 {
-Obj _3518250_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-Obj lam = _3518250_37;
-R[1] = globals;
-R[2] = label;
-R[3] = lam;
-R[4] = to;
-saveCont(co, clofun114, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
+Obj v__3519137_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517687_37 = R[2];
+Obj v_to = R[3];
+Obj v__3517688_37 = v__3519137_37;
+R[1] = v_globals;
+R[2] = v__3517687_37;
+R[3] = v__3517688_37;
+R[4] = v_to;
+saveCont(co, clofun115, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517688_37);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj cont = R[2];
-R[1] = cont;
-R[2] = acc;
-saveCont(co, clofun113, 6, R);
+Obj v_acc = R[1];
+Obj v_cont = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
+saveCont(co, clofun114, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj _3518265_37= co->res;
-Obj acc = R[1];
-Obj _3518266_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518266_37);
+Obj v__3519152_37= co->res;
+Obj v_acc = R[1];
+Obj v__3519153_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519153_37);
 return;
 }
 case 2:
 {
-Obj _3518264_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
-saveCont(co, clofun113, 1, R);
+Obj v__3519151_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun114, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518263_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = acc;
-saveCont(co, clofun113, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518263_37, closureRef(R[0], 3), cont};
+Obj v__3519150_37= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
+saveCont(co, clofun114, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519150_37, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 42)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518262_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
-saveCont(co, clofun113, 3, R);
+Obj v__3519149_37= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
+saveCont(co, clofun114, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj _3518261_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
-saveCont(co, clofun113, 4, R);
+Obj v__3519148_37= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
+saveCont(co, clofun114, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj _3518260_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
-saveCont(co, clofun113, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), acc);
+Obj v__3519147_37= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
+saveCont(co, clofun114, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516811_37 = R[1];
-Obj _3516812_37 = R[2];
-Obj _3518243_37 = PRIM_EQ(Nil, _3516812_37);
-if (True == _3518243_37) {
+Obj v__3517435_37 = R[1];
+Obj v__3517436_37 = R[2];
+Obj v__3519130_37 = PRIM_EQ(Nil, v__3517436_37);
+if (True == v__3519130_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518244_37 = PRIM_ISCONS(_3516812_37);
-if (True == _3518244_37) {
-Obj _3518245_37 = PRIM_CAR(_3516812_37);
-Obj x = _3518245_37;
-Obj _3518246_37 = PRIM_CDR(_3516812_37);
-Obj y = _3518246_37;
-R[1] = _3516811_37;
-R[2] = y;
-saveCont(co, clofun112, 1, R);
-coraCall1(co, _3516811_37, x);
+Obj v__3519131_37 = PRIM_ISCONS(v__3517436_37);
+if (True == v__3519131_37) {
+Obj v__3519132_37 = PRIM_CAR(v__3517436_37);
+Obj v__3517685_37 = v__3519132_37;
+Obj v__3519133_37 = PRIM_CDR(v__3517436_37);
+Obj v__3517686_37 = v__3519133_37;
+R[1] = v__3517435_37;
+R[2] = v__3517686_37;
+saveCont(co, clofun113, 1, R);
+coraCall1(co, v__3517435_37, v__3517685_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2163,119 +2173,119 @@ return;
 }
 case 1:
 {
-Obj _3518247_37= co->res;
-Obj _3516811_37 = R[1];
-Obj y = R[2];
+Obj v__3519134_37= co->res;
+Obj v__3517435_37 = R[1];
+Obj v__3517686_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), _3516811_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), v__3517435_37, v__3517686_37);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj exp = R[2];
-R[1] = exp;
-saveCont(co, clofun111, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 40)), globals);
+Obj v_globals = R[1];
+Obj v_exp = R[2];
+R[1] = v_exp;
+saveCont(co, clofun112, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 40)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3518241_37= co->res;
+Obj v__3519128_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518241_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519128_37);
 return;
 }
 case 2:
 {
-Obj _3518240_37= co->res;
-saveCont(co, clofun111, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518240_37);
+Obj v__3519127_37= co->res;
+saveCont(co, clofun112, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519127_37);
 return;
 }
 case 3:
 {
-Obj _3518239_37= co->res;
-saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), _3518239_37);
+Obj v__3519126_37= co->res;
+saveCont(co, clofun112, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519126_37);
 return;
 }
 case 4:
 {
-Obj _3518238_37= co->res;
-saveCont(co, clofun111, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), _3518238_37);
+Obj v__3519125_37= co->res;
+saveCont(co, clofun112, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v__3519125_37);
 return;
 }
 case 5:
 {
-Obj _3518237_37= co->res;
-Obj exp = R[1];
-saveCont(co, clofun111, 4, R);
-coraCall1(co, _3518237_37, exp);
+Obj v__3519124_37= co->res;
+Obj v_exp = R[1];
+saveCont(co, clofun112, 4, R);
+coraCall1(co, v__3519124_37, v_exp);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), exp);
+Obj v_exp = R[1];
+R[1] = v_exp;
+saveCont(co, clofun111, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3518235_37= co->res;
-Obj obj = R[1];
-Obj fns = _3518235_37;
+Obj v__3519122_37= co->res;
+Obj v__3517683_37 = R[1];
+Obj v__3517684_37 = v__3519122_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), obj, fns);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3517683_37, v__3517684_37);
 return;
 }
 case 2:
 {
-Obj _3518234_37= co->res;
-Obj exp = R[1];
-Obj obj = _3518234_37;
-R[1] = obj;
-saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 31)), exp);
+Obj v__3519121_37= co->res;
+Obj v_exp = R[1];
+Obj v__3517683_37 = v__3519121_37;
+R[1] = v__3517683_37;
+saveCont(co, clofun111, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 31)), v_exp);
 return;
 }
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516807_37 = R[1];
-Obj _3516808_37 = R[2];
-Obj _3518227_37 = PRIM_EQ(Nil, _3516808_37);
-if (True == _3518227_37) {
-coraReturn(co, _3516807_37);
+Obj v__3517431_37 = R[1];
+Obj v__3517432_37 = R[2];
+Obj v__3519114_37 = PRIM_EQ(Nil, v__3517432_37);
+if (True == v__3519114_37) {
+coraReturn(co, v__3517431_37);
 return;
 } else {
-Obj _3518228_37 = PRIM_ISCONS(_3516808_37);
-if (True == _3518228_37) {
-Obj _3518229_37 = PRIM_CAR(_3516808_37);
-Obj hd = _3518229_37;
-Obj _3518230_37 = PRIM_CDR(_3516808_37);
-Obj more = _3518230_37;
-Obj _3518231_37 = makeCons(co->gc, _3516807_37, Nil);
-Obj _3518232_37 = makeCons(co->gc, hd, _3518231_37);
+Obj v__3519115_37 = PRIM_ISCONS(v__3517432_37);
+if (True == v__3519115_37) {
+Obj v__3519116_37 = PRIM_CAR(v__3517432_37);
+Obj v__3517681_37 = v__3519116_37;
+Obj v__3519117_37 = PRIM_CDR(v__3517432_37);
+Obj v__3517682_37 = v__3519117_37;
+Obj v__3519118_37 = makeCons(co->gc, v__3517431_37, Nil);
+Obj v__3519119_37 = makeCons(co->gc, v__3517681_37, v__3519118_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), _3518232_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3519119_37, v__3517682_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2287,334 +2297,334 @@ return;
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun108, 6, R);
+Obj v_exp = R[1];
+R[1] = v_exp;
+saveCont(co, clofun109, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj _3518225_37= co->res;
-Obj v = R[1];
+Obj v__3519112_37= co->res;
+Obj v__3517678_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3517678_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj _3518224_37= co->res;
-Obj v = R[1];
-Obj e2 = _3518224_37;
-R[1] = v;
-saveCont(co, clofun108, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v, e2);
+Obj v__3519111_37= co->res;
+Obj v__3517678_37 = R[1];
+Obj v__3517680_37 = v__3519111_37;
+R[1] = v__3517678_37;
+saveCont(co, clofun109, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517678_37, v__3517680_37);
 return;
 }
 case 3:
 {
-Obj _3518223_37= co->res;
-Obj v = R[1];
-Obj e1 = _3518223_37;
-R[1] = v;
-saveCont(co, clofun108, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, e1);
+Obj v__3519110_37= co->res;
+Obj v__3517678_37 = R[1];
+Obj v__3517679_37 = v__3519110_37;
+R[1] = v__3517678_37;
+saveCont(co, clofun109, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, v__3517679_37);
 return;
 }
 case 4:
 {
-Obj _3518222_37= co->res;
-Obj exp = R[1];
-Obj v = R[2];
-R[1] = v;
-saveCont(co, clofun108, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v, exp);
+Obj v__3519109_37= co->res;
+Obj v_exp = R[1];
+Obj v__3517678_37 = R[2];
+R[1] = v__3517678_37;
+saveCont(co, clofun109, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517678_37, v_exp);
 return;
 }
 case 5:
 {
-Obj _3518221_37= co->res;
-Obj exp = R[1];
-Obj v = R[2];
-R[1] = exp;
-R[2] = v;
-saveCont(co, clofun108, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1), Nil);
+Obj v__3519108_37= co->res;
+Obj v_exp = R[1];
+Obj v__3517678_37 = R[2];
+R[1] = v_exp;
+R[2] = v__3517678_37;
+saveCont(co, clofun109, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3517678_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj _3518220_37= co->res;
-Obj exp = R[1];
-Obj v = _3518220_37;
-R[1] = exp;
-R[2] = v;
-saveCont(co, clofun108, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0), MAKE_NUMBER(0));
+Obj v__3519107_37= co->res;
+Obj v_exp = R[1];
+Obj v__3517678_37 = v__3519107_37;
+R[1] = v_exp;
+R[2] = v__3517678_37;
+saveCont(co, clofun109, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3517678_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), Nil, v_exp);
 return;
 }
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), exp, globalRef(co, getBinding(co, packageID, 72)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v_exp, globalRef(co, getBinding(co, packageID, 72)));
 return;
 }
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), Nil, v_exp);
 return;
 }
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj exp = R[2];
+Obj v_globals = R[1];
+Obj v_exp = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), Nil, globals, exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), Nil, v_globals, v_exp);
 return;
 }
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj w = R[1];
-Obj label = R[2];
-R[1] = label;
-R[2] = w;
-saveCont(co, clofun103, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), w, makeCString(co->gc, "static void "));
+Obj v_w = R[1];
+Obj v_label = R[2];
+R[1] = v_label;
+R[2] = v_w;
+saveCont(co, clofun104, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj _3518214_37= co->res;
-Obj w = R[1];
+Obj v__3519101_37= co->res;
+Obj v_w = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518213_37= co->res;
-Obj w = R[1];
-R[1] = w;
-saveCont(co, clofun103, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+Obj v__3519100_37= co->res;
+Obj v_w = R[1];
+R[1] = v_w;
+saveCont(co, clofun104, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj _3518212_37= co->res;
-Obj label = R[1];
-Obj w = R[2];
-R[1] = w;
-saveCont(co, clofun103, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), w, label);
+Obj v__3519099_37= co->res;
+Obj v_label = R[1];
+Obj v_w = R[2];
+R[1] = v_w;
+saveCont(co, clofun104, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v_w, v_label);
 return;
 }
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj w = R[1];
-Obj label = R[2];
-R[1] = w;
-R[2] = label;
-saveCont(co, clofun102, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), w, makeCString(co->gc, "clofun"));
+Obj v_w = R[1];
+Obj v_label = R[2];
+R[1] = v_w;
+R[2] = v_label;
+saveCont(co, clofun103, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj _3518210_37= co->res;
-Obj w = R[1];
-Obj label = R[2];
+Obj v__3519097_37= co->res;
+Obj v_w = R[1];
+Obj v_label = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, v_label);
 return;
 }
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516801_37 = R[1];
-Obj _3516802_37 = R[2];
-Obj _3516803_37 = R[3];
-Obj _3516804_37 = R[4];
-Obj _3516805_37 = R[5];
-Obj _3516806_37 = makeNative(co->gc, 1, clofun100, 0, 0);
-Obj _3518188_37 = PRIM_ISCONS(_3516805_37);
-if (True == _3518188_37) {
-Obj _3518189_37 = PRIM_CAR(_3516805_37);
-Obj _3518190_37 = PRIM_EQ(getBinding(co, packageID, 64).name, _3518189_37);
-if (True == _3518190_37) {
-Obj _3518191_37 = PRIM_CDR(_3516805_37);
-Obj _3518192_37 = PRIM_ISCONS(_3518191_37);
-if (True == _3518192_37) {
-Obj _3518193_37 = PRIM_CDR(_3516805_37);
-Obj _3518194_37 = PRIM_CAR(_3518193_37);
-Obj var = _3518194_37;
-Obj _3518195_37 = PRIM_CDR(_3516805_37);
-Obj _3518196_37 = PRIM_CDR(_3518195_37);
-Obj _3518197_37 = PRIM_ISCONS(_3518196_37);
-if (True == _3518197_37) {
-Obj _3518198_37 = PRIM_CDR(_3516805_37);
-Obj _3518199_37 = PRIM_CDR(_3518198_37);
-Obj _3518200_37 = PRIM_CAR(_3518199_37);
-Obj body = _3518200_37;
-Obj _3518201_37 = PRIM_CDR(_3516805_37);
-Obj _3518202_37 = PRIM_CDR(_3518201_37);
-Obj _3518203_37 = PRIM_CDR(_3518202_37);
-Obj fvs = _3518203_37;
-R[1] = var;
-R[2] = fvs;
-R[3] = _3516801_37;
-R[4] = _3516802_37;
-R[5] = _3516803_37;
-R[6] = _3516804_37;
-R[7] = body;
-saveCont(co, clofun101, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3516804_37, makeCString(co->gc, "Obj "));
+Obj v__3517425_37 = R[1];
+Obj v__3517426_37 = R[2];
+Obj v__3517427_37 = R[3];
+Obj v__3517428_37 = R[4];
+Obj v__3517429_37 = R[5];
+Obj v__3517674_37 = makeNative(co->gc, 1, clofun101, 0, 0);
+Obj v__3519075_37 = PRIM_ISCONS(v__3517429_37);
+if (True == v__3519075_37) {
+Obj v__3519076_37 = PRIM_CAR(v__3517429_37);
+Obj v__3519077_37 = PRIM_EQ(getBinding(co, packageID, 64).name, v__3519076_37);
+if (True == v__3519077_37) {
+Obj v__3519078_37 = PRIM_CDR(v__3517429_37);
+Obj v__3519079_37 = PRIM_ISCONS(v__3519078_37);
+if (True == v__3519079_37) {
+Obj v__3519080_37 = PRIM_CDR(v__3517429_37);
+Obj v__3519081_37 = PRIM_CAR(v__3519080_37);
+Obj v__3517675_37 = v__3519081_37;
+Obj v__3519082_37 = PRIM_CDR(v__3517429_37);
+Obj v__3519083_37 = PRIM_CDR(v__3519082_37);
+Obj v__3519084_37 = PRIM_ISCONS(v__3519083_37);
+if (True == v__3519084_37) {
+Obj v__3519085_37 = PRIM_CDR(v__3517429_37);
+Obj v__3519086_37 = PRIM_CDR(v__3519085_37);
+Obj v__3519087_37 = PRIM_CAR(v__3519086_37);
+Obj v__3517676_37 = v__3519087_37;
+Obj v__3519088_37 = PRIM_CDR(v__3517429_37);
+Obj v__3519089_37 = PRIM_CDR(v__3519088_37);
+Obj v__3519090_37 = PRIM_CDR(v__3519089_37);
+Obj v__3517677_37 = v__3519090_37;
+R[1] = v__3517675_37;
+R[2] = v__3517677_37;
+R[3] = v__3517425_37;
+R[4] = v__3517426_37;
+R[5] = v__3517427_37;
+R[6] = v__3517428_37;
+R[7] = v__3517676_37;
+saveCont(co, clofun102, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517428_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516806_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516806_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516806_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516806_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518208_37= co->res;
-Obj _3516801_37 = R[1];
-Obj _3516802_37 = R[2];
-Obj _3516803_37 = R[3];
-Obj _3516804_37 = R[4];
-Obj body = R[5];
+Obj v__3519095_37= co->res;
+Obj v__3517425_37 = R[1];
+Obj v__3517426_37 = R[2];
+Obj v__3517427_37 = R[3];
+Obj v__3517428_37 = R[4];
+Obj v__3517676_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516801_37, _3516802_37, _3516803_37, _3516804_37, body};
+Obj __args[5] = {v__3517425_37, v__3517426_37, v__3517427_37, v__3517428_37, v__3517676_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518207_37= co->res;
-Obj fvs = R[1];
-Obj _3516801_37 = R[2];
-Obj _3516802_37 = R[3];
-Obj _3516803_37 = R[4];
-Obj _3516804_37 = R[5];
-Obj body = R[6];
-R[1] = _3516801_37;
-R[2] = _3516802_37;
-R[3] = _3516803_37;
-R[4] = _3516804_37;
-R[5] = body;
-saveCont(co, clofun101, 1, R);
-Obj __args[5] = {_3516801_37, _3516802_37, _3516803_37, _3516804_37, fvs};
+Obj v__3519094_37= co->res;
+Obj v__3517677_37 = R[1];
+Obj v__3517425_37 = R[2];
+Obj v__3517426_37 = R[3];
+Obj v__3517427_37 = R[4];
+Obj v__3517428_37 = R[5];
+Obj v__3517676_37 = R[6];
+R[1] = v__3517425_37;
+R[2] = v__3517426_37;
+R[3] = v__3517427_37;
+R[4] = v__3517428_37;
+R[5] = v__3517676_37;
+saveCont(co, clofun102, 1, R);
+Obj __args[5] = {v__3517425_37, v__3517426_37, v__3517427_37, v__3517428_37, v__3517677_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518206_37= co->res;
-Obj fvs = R[1];
-Obj _3516801_37 = R[2];
-Obj _3516802_37 = R[3];
-Obj _3516803_37 = R[4];
-Obj _3516804_37 = R[5];
-Obj body = R[6];
-R[1] = fvs;
-R[2] = _3516801_37;
-R[3] = _3516802_37;
-R[4] = _3516803_37;
-R[5] = _3516804_37;
-R[6] = body;
-saveCont(co, clofun101, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3516804_37, makeCString(co->gc, "= co->res;\n"));
+Obj v__3519093_37= co->res;
+Obj v__3517677_37 = R[1];
+Obj v__3517425_37 = R[2];
+Obj v__3517426_37 = R[3];
+Obj v__3517427_37 = R[4];
+Obj v__3517428_37 = R[5];
+Obj v__3517676_37 = R[6];
+R[1] = v__3517677_37;
+R[2] = v__3517425_37;
+R[3] = v__3517426_37;
+R[4] = v__3517427_37;
+R[5] = v__3517428_37;
+R[6] = v__3517676_37;
+saveCont(co, clofun102, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517428_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518204_37= co->res;
-Obj var = R[1];
-Obj fvs = R[2];
-Obj _3516801_37 = R[3];
-Obj _3516802_37 = R[4];
-Obj _3516803_37 = R[5];
-Obj _3516804_37 = R[6];
-Obj body = R[7];
-Obj _3518205_37 = PRIM_CAR(var);
-R[1] = fvs;
-R[2] = _3516801_37;
-R[3] = _3516802_37;
-R[4] = _3516803_37;
-R[5] = _3516804_37;
-R[6] = body;
-saveCont(co, clofun101, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), _3516804_37, _3518205_37);
+Obj v__3519091_37= co->res;
+Obj v__3517675_37 = R[1];
+Obj v__3517677_37 = R[2];
+Obj v__3517425_37 = R[3];
+Obj v__3517426_37 = R[4];
+Obj v__3517427_37 = R[5];
+Obj v__3517428_37 = R[6];
+Obj v__3517676_37 = R[7];
+Obj v__3519092_37 = PRIM_CAR(v__3517675_37);
+R[1] = v__3517677_37;
+R[2] = v__3517425_37;
+R[3] = v__3517426_37;
+R[4] = v__3517427_37;
+R[5] = v__3517428_37;
+R[6] = v__3517676_37;
+saveCont(co, clofun102, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), v__3517428_37, v__3519092_37);
 return;
 }
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2625,53 +2635,53 @@ return;
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj l = R[5];
-Obj _3518174_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518174_37;
-Obj _3518185_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun98, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
-R[1] = l;
-saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), generate_45inst_45list_45h);
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_l = R[5];
+Obj v__3519061_37 = primGenSym(co);
+Obj v__3517671_37 = v__3519061_37;
+Obj v__3519072_37 = primSet(co, v__3517671_37, makeNative(co->gc, 2, clofun99, 1, 5, v_globals, v_self, v_env, v_w, v__3517671_37));
+R[1] = v_l;
+saveCont(co, clofun100, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517671_37);
 return;
 }
 case 1:
 {
-Obj _3518186_37= co->res;
-Obj l = R[1];
+Obj v__3519073_37= co->res;
+Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518186_37, l);
+coraCall1(co, v__3519073_37, v_l);
 return;
 }
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3518175_37 = PRIM_EQ(Nil, x);
-if (True == _3518175_37) {
+Obj v_x = R[1];
+Obj v__3519062_37 = PRIM_EQ(Nil, v_x);
+if (True == v__3519062_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518176_37 = PRIM_ISCONS(x);
-if (True == _3518176_37) {
-Obj _3518177_37 = PRIM_CAR(x);
-Obj a = _3518177_37;
-Obj _3518178_37 = PRIM_CDR(x);
-Obj b = _3518178_37;
-R[1] = b;
-saveCont(co, clofun98, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
+Obj v__3519063_37 = PRIM_ISCONS(v_x);
+if (True == v__3519063_37) {
+Obj v__3519064_37 = PRIM_CAR(v_x);
+Obj v__3517672_37 = v__3519064_37;
+Obj v__3519065_37 = PRIM_CDR(v_x);
+Obj v__3517673_37 = v__3519065_37;
+R[1] = v__3517673_37;
+saveCont(co, clofun99, 5, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517672_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 } else {
@@ -2683,374 +2693,374 @@ return;
 }
 case 1:
 {
-Obj _3518183_37= co->res;
-Obj b = R[1];
+Obj v__3519070_37= co->res;
+Obj v__3517673_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518183_37, b);
+coraCall1(co, v__3519070_37, v__3517673_37);
 return;
 }
 case 2:
 {
-Obj _3518182_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun98, 1, R);
+Obj v__3519069_37= co->res;
+Obj v__3517673_37 = R[1];
+R[1] = v__3517673_37;
+saveCont(co, clofun99, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518184_37= co->res;
-Obj b = R[1];
+Obj v__3519071_37= co->res;
+Obj v__3517673_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518184_37, b);
+coraCall1(co, v__3519071_37, v__3517673_37);
 return;
 }
 case 4:
 {
-Obj _3518180_37= co->res;
-Obj b = R[1];
-Obj _3518181_37 = primNot(_3518180_37);
-if (True == _3518181_37) {
-R[1] = b;
-saveCont(co, clofun98, 2, R);
+Obj v__3519067_37= co->res;
+Obj v__3517673_37 = R[1];
+Obj v__3519068_37 = primNot(v__3519067_37);
+if (True == v__3519068_37) {
+R[1] = v__3517673_37;
+saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = b;
-saveCont(co, clofun98, 3, R);
+R[1] = v__3517673_37;
+saveCont(co, clofun99, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj _3518179_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun98, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), b);
+Obj v__3519066_37= co->res;
+Obj v__3517673_37 = R[1];
+R[1] = v__3517673_37;
+saveCont(co, clofun99, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517673_37);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env1 = R[3];
-Obj w = R[4];
-Obj x1 = R[5];
-Obj _3517887_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517887_37;
-Obj _3518171_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun96, 2, 4, self, generate_45inst_45h, globals, w));
-R[1] = x1;
-R[2] = env1;
-saveCont(co, clofun97, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), generate_45inst_45h);
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env1 = R[3];
+Obj v_w = R[4];
+Obj v_x1 = R[5];
+Obj v__3518774_37 = primGenSym(co);
+Obj v__3517634_37 = v__3518774_37;
+Obj v__3519058_37 = primSet(co, v__3517634_37, makeNative(co->gc, 3, clofun97, 2, 4, v_self, v__3517634_37, v_globals, v_w));
+R[1] = v_x1;
+R[2] = v_env1;
+saveCont(co, clofun98, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517634_37);
 return;
 }
 case 1:
 {
-Obj _3518172_37= co->res;
-Obj x1 = R[1];
-Obj env1 = R[2];
+Obj v__3519059_37= co->res;
+Obj v_x1 = R[1];
+Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518172_37, x1, env1);
+coraCall2(co, v__3519059_37, v_x1, v_env1);
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x2 = R[1];
-Obj env = R[2];
-Obj _3517888_37 = primIsSymbol(x2);
-if (True == _3517888_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), x2);
-return;
-} else {
-Obj _3516787_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518158_37 = PRIM_ISCONS(x2);
-if (True == _3518158_37) {
-Obj _3518159_37 = PRIM_CAR(x2);
-Obj _3518160_37 = PRIM_EQ(getBinding(co, packageID, 95).name, _3518159_37);
-if (True == _3518160_37) {
-Obj _3518161_37 = PRIM_CDR(x2);
-Obj _3518162_37 = PRIM_ISCONS(_3518161_37);
-if (True == _3518162_37) {
-Obj _3518163_37 = PRIM_CDR(x2);
-Obj _3518164_37 = PRIM_CAR(_3518163_37);
-Obj x = _3518164_37;
-Obj _3518165_37 = PRIM_CDR(x2);
-Obj _3518166_37 = PRIM_CDR(_3518165_37);
-Obj _3518167_37 = PRIM_EQ(Nil, _3518166_37);
-if (True == _3518167_37) {
-R[1] = x;
-saveCont(co, clofun96, 3, R);
+Obj v_x2 = R[1];
+Obj v_env = R[2];
+Obj v__3518775_37 = primIsSymbol(v_x2);
+if (True == v__3518775_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v_x2);
+return;
+} else {
+Obj v__3517635_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v__3519045_37 = PRIM_ISCONS(v_x2);
+if (True == v__3519045_37) {
+Obj v__3519046_37 = PRIM_CAR(v_x2);
+Obj v__3519047_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3519046_37);
+if (True == v__3519047_37) {
+Obj v__3519048_37 = PRIM_CDR(v_x2);
+Obj v__3519049_37 = PRIM_ISCONS(v__3519048_37);
+if (True == v__3519049_37) {
+Obj v__3519050_37 = PRIM_CDR(v_x2);
+Obj v__3519051_37 = PRIM_CAR(v__3519050_37);
+Obj v__3517670_37 = v__3519051_37;
+Obj v__3519052_37 = PRIM_CDR(v_x2);
+Obj v__3519053_37 = PRIM_CDR(v__3519052_37);
+Obj v__3519054_37 = PRIM_EQ(Nil, v__3519053_37);
+if (True == v__3519054_37) {
+R[1] = v__3517670_37;
+saveCont(co, clofun97, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, v__3517635_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, v__3517635_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, v__3517635_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, v__3517635_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518170_37= co->res;
+Obj v__3519057_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518169_37= co->res;
-saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), _3518169_37);
+Obj v__3519056_37= co->res;
+saveCont(co, clofun97, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519056_37);
 return;
 }
 case 3:
 {
-Obj _3518168_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun96, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), x, closureRef(R[0], 2));
+Obj v__3519055_37= co->res;
+Obj v__3517670_37 = R[1];
+saveCont(co, clofun97, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3517670_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516788_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518146_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518146_37) {
-Obj _3518147_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518148_37 = PRIM_EQ(getBinding(co, packageID, 79).name, _3518147_37);
-if (True == _3518148_37) {
-Obj _3518149_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518150_37 = PRIM_ISCONS(_3518149_37);
-if (True == _3518150_37) {
-Obj _3518151_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518152_37 = PRIM_CAR(_3518151_37);
-Obj idx = _3518152_37;
-Obj _3518153_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518154_37 = PRIM_CDR(_3518153_37);
-Obj _3518155_37 = PRIM_EQ(Nil, _3518154_37);
-if (True == _3518155_37) {
-R[1] = idx;
-saveCont(co, clofun95, 2, R);
+Obj v__3517636_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3519033_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3519033_37) {
+Obj v__3519034_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3519035_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3519034_37);
+if (True == v__3519035_37) {
+Obj v__3519036_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519037_37 = PRIM_ISCONS(v__3519036_37);
+if (True == v__3519037_37) {
+Obj v__3519038_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519039_37 = PRIM_CAR(v__3519038_37);
+Obj v__3517669_37 = v__3519039_37;
+Obj v__3519040_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519041_37 = PRIM_CDR(v__3519040_37);
+Obj v__3519042_37 = PRIM_EQ(Nil, v__3519041_37);
+if (True == v__3519042_37) {
+R[1] = v__3517669_37;
+saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, v__3517636_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, v__3517636_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, v__3517636_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, v__3517636_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518157_37= co->res;
+Obj v__3519044_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518156_37= co->res;
-Obj idx = R[1];
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), idx);
+Obj v__3519043_37= co->res;
+Obj v__3517669_37 = R[1];
+saveCont(co, clofun96, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517669_37);
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516789_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518122_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518122_37) {
-Obj _3518123_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518124_37 = PRIM_EQ(getBinding(co, packageID, 98).name, _3518123_37);
-if (True == _3518124_37) {
-Obj _3518125_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518126_37 = PRIM_ISCONS(_3518125_37);
-if (True == _3518126_37) {
-Obj _3518127_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518128_37 = PRIM_CAR(_3518127_37);
-Obj x = _3518128_37;
-Obj _3518129_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518130_37 = PRIM_CDR(_3518129_37);
-Obj _3518131_37 = PRIM_EQ(Nil, _3518130_37);
-if (True == _3518131_37) {
-Obj _3518132_37 = primIsSymbol(x);
-if (True == _3518132_37) {
-R[1] = x;
-saveCont(co, clofun94, 3, R);
+Obj v__3517637_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3519009_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3519009_37) {
+Obj v__3519010_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3519011_37 = PRIM_EQ(getBinding(co, packageID, 98).name, v__3519010_37);
+if (True == v__3519011_37) {
+Obj v__3519012_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519013_37 = PRIM_ISCONS(v__3519012_37);
+if (True == v__3519013_37) {
+Obj v__3519014_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519015_37 = PRIM_CAR(v__3519014_37);
+Obj v__3517668_37 = v__3519015_37;
+Obj v__3519016_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519017_37 = PRIM_CDR(v__3519016_37);
+Obj v__3519018_37 = PRIM_EQ(Nil, v__3519017_37);
+if (True == v__3519018_37) {
+Obj v__3519019_37 = primIsSymbol(v__3517668_37);
+if (True == v__3519019_37) {
+R[1] = v__3517668_37;
+saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = x;
-saveCont(co, clofun94, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), x);
+R[1] = v__3517668_37;
+saveCont(co, clofun95, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, v__3517637_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, v__3517637_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, v__3517637_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, v__3517637_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518135_37= co->res;
+Obj v__3519022_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518134_37= co->res;
-saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), _3518134_37);
+Obj v__3519021_37= co->res;
+saveCont(co, clofun95, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519021_37);
 return;
 }
 case 3:
 {
-Obj _3518133_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun94, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), x, closureRef(R[0], 4));
+Obj v__3519020_37= co->res;
+Obj v__3517668_37 = R[1];
+saveCont(co, clofun95, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3517668_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3518138_37= co->res;
+Obj v__3519025_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518137_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun94, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), x);
+Obj v__3519024_37= co->res;
+Obj v__3517668_37 = R[1];
+saveCont(co, clofun95, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517668_37);
 return;
 }
 case 6:
 {
-Obj _3518142_37= co->res;
+Obj v__3519029_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518141_37= co->res;
-saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), _3518141_37);
+Obj v__3519028_37= co->res;
+saveCont(co, clofun95, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3519028_37);
 return;
 }
 case 8:
 {
-Obj _3518140_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun94, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), x);
+Obj v__3519027_37= co->res;
+Obj v__3517668_37 = R[1];
+saveCont(co, clofun95, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3517668_37);
 return;
 }
 case 9:
 {
-Obj _3518136_37= co->res;
-Obj x = R[1];
-if (True == _3518136_37) {
-R[1] = x;
-saveCont(co, clofun94, 5, R);
+Obj v__3519023_37= co->res;
+Obj v__3517668_37 = R[1];
+if (True == v__3519023_37) {
+R[1] = v__3517668_37;
+saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518139_37 = primIsString(x);
-if (True == _3518139_37) {
-R[1] = x;
-saveCont(co, clofun94, 8, R);
+Obj v__3519026_37 = primIsString(v__3517668_37);
+if (True == v__3519026_37) {
+R[1] = v__3517668_37;
+saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518143_37 = PRIM_EQ(x, Nil);
-if (True == _3518143_37) {
+Obj v__3519030_37 = PRIM_EQ(v__3517668_37, Nil);
+if (True == v__3519030_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518144_37 = PRIM_EQ(x, True);
-if (True == _3518144_37) {
+Obj v__3519031_37 = PRIM_EQ(v__3517668_37, True);
+if (True == v__3519031_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518145_37 = PRIM_EQ(x, False);
-if (True == _3518145_37) {
+Obj v__3519032_37 = PRIM_EQ(v__3517668_37, False);
+if (True == v__3519032_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3067,334 +3077,334 @@ return;
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516790_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518087_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518087_37) {
-Obj _3518088_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518089_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518088_37);
-if (True == _3518089_37) {
-Obj _3518090_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518091_37 = PRIM_ISCONS(_3518090_37);
-if (True == _3518091_37) {
-Obj _3518092_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518093_37 = PRIM_CAR(_3518092_37);
-Obj a = _3518093_37;
-Obj _3518094_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518095_37 = PRIM_CDR(_3518094_37);
-Obj _3518096_37 = PRIM_ISCONS(_3518095_37);
-if (True == _3518096_37) {
-Obj _3518097_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518098_37 = PRIM_CDR(_3518097_37);
-Obj _3518099_37 = PRIM_CAR(_3518098_37);
-Obj b = _3518099_37;
-Obj _3518100_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518101_37 = PRIM_CDR(_3518100_37);
-Obj _3518102_37 = PRIM_CDR(_3518101_37);
-Obj _3518103_37 = PRIM_ISCONS(_3518102_37);
-if (True == _3518103_37) {
-Obj _3518104_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518105_37 = PRIM_CDR(_3518104_37);
-Obj _3518106_37 = PRIM_CDR(_3518105_37);
-Obj _3518107_37 = PRIM_CAR(_3518106_37);
-Obj c = _3518107_37;
-Obj _3518108_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518109_37 = PRIM_CDR(_3518108_37);
-Obj _3518110_37 = PRIM_CDR(_3518109_37);
-Obj _3518111_37 = PRIM_CDR(_3518110_37);
-Obj _3518112_37 = PRIM_EQ(Nil, _3518111_37);
-if (True == _3518112_37) {
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun93, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), a, closureRef(R[0], 5));
+Obj v__3517638_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3518974_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518974_37) {
+Obj v__3518975_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518976_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518975_37);
+if (True == v__3518976_37) {
+Obj v__3518977_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518978_37 = PRIM_ISCONS(v__3518977_37);
+if (True == v__3518978_37) {
+Obj v__3518979_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518980_37 = PRIM_CAR(v__3518979_37);
+Obj v__3517665_37 = v__3518980_37;
+Obj v__3518981_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518982_37 = PRIM_CDR(v__3518981_37);
+Obj v__3518983_37 = PRIM_ISCONS(v__3518982_37);
+if (True == v__3518983_37) {
+Obj v__3518984_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518985_37 = PRIM_CDR(v__3518984_37);
+Obj v__3518986_37 = PRIM_CAR(v__3518985_37);
+Obj v__3517666_37 = v__3518986_37;
+Obj v__3518987_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518988_37 = PRIM_CDR(v__3518987_37);
+Obj v__3518989_37 = PRIM_CDR(v__3518988_37);
+Obj v__3518990_37 = PRIM_ISCONS(v__3518989_37);
+if (True == v__3518990_37) {
+Obj v__3518991_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518992_37 = PRIM_CDR(v__3518991_37);
+Obj v__3518993_37 = PRIM_CDR(v__3518992_37);
+Obj v__3518994_37 = PRIM_CAR(v__3518993_37);
+Obj v__3517667_37 = v__3518994_37;
+Obj v__3518995_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
+Obj v__3518997_37 = PRIM_CDR(v__3518996_37);
+Obj v__3518998_37 = PRIM_CDR(v__3518997_37);
+Obj v__3518999_37 = PRIM_EQ(Nil, v__3518998_37);
+if (True == v__3518999_37) {
+R[1] = v__3517666_37;
+R[2] = v__3517665_37;
+R[3] = v__3517667_37;
+saveCont(co, clofun94, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3517665_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, v__3517638_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, v__3517638_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, v__3517638_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, v__3517638_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, v__3517638_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, v__3517638_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518120_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-Obj _3518121_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj v__3519007_37= co->res;
+Obj v__3517665_37 = R[1];
+Obj v__3517667_37 = R[2];
+Obj v__3519008_37 = makeCons(co->gc, v__3517665_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518120_37, c, _3518121_37);
+coraCall2(co, v__3519007_37, v__3517667_37, v__3519008_37);
 return;
 }
 case 2:
 {
-Obj _3518119_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun93, 1, R);
+Obj v__3519006_37= co->res;
+Obj v__3517665_37 = R[1];
+Obj v__3517667_37 = R[2];
+R[1] = v__3517665_37;
+R[2] = v__3517667_37;
+saveCont(co, clofun94, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518118_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun93, 2, R);
+Obj v__3519005_37= co->res;
+Obj v__3517665_37 = R[1];
+Obj v__3517667_37 = R[2];
+R[1] = v__3517665_37;
+R[2] = v__3517667_37;
+saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3518117_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun93, 3, R);
-coraCall2(co, _3518117_37, b, closureRef(R[0], 5));
+Obj v__3519004_37= co->res;
+Obj v__3517666_37 = R[1];
+Obj v__3517665_37 = R[2];
+Obj v__3517667_37 = R[3];
+R[1] = v__3517665_37;
+R[2] = v__3517667_37;
+saveCont(co, clofun94, 3, R);
+coraCall2(co, v__3519004_37, v__3517666_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518116_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun93, 4, R);
+Obj v__3519003_37= co->res;
+Obj v__3517666_37 = R[1];
+Obj v__3517665_37 = R[2];
+Obj v__3517667_37 = R[3];
+R[1] = v__3517666_37;
+R[2] = v__3517665_37;
+R[3] = v__3517667_37;
+saveCont(co, clofun94, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518115_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun93, 5, R);
+Obj v__3519002_37= co->res;
+Obj v__3517666_37 = R[1];
+Obj v__3517665_37 = R[2];
+Obj v__3517667_37 = R[3];
+R[1] = v__3517666_37;
+R[2] = v__3517665_37;
+R[3] = v__3517667_37;
+saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj _3518114_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), a);
+Obj v__3519001_37= co->res;
+Obj v__3517666_37 = R[1];
+Obj v__3517665_37 = R[2];
+Obj v__3517667_37 = R[3];
+R[1] = v__3517666_37;
+R[2] = v__3517665_37;
+R[3] = v__3517667_37;
+saveCont(co, clofun94, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3517665_37);
 return;
 }
 case 8:
 {
-Obj _3518113_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun93, 7, R);
+Obj v__3519000_37= co->res;
+Obj v__3517666_37 = R[1];
+Obj v__3517665_37 = R[2];
+Obj v__3517667_37 = R[3];
+R[1] = v__3517666_37;
+R[2] = v__3517665_37;
+R[3] = v__3517667_37;
+saveCont(co, clofun94, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516791_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518057_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518057_37) {
-Obj _3518058_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518059_37 = PRIM_ISCONS(_3518058_37);
-if (True == _3518059_37) {
-Obj _3518060_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518061_37 = PRIM_CAR(_3518060_37);
-Obj _3518062_37 = PRIM_EQ(getBinding(co, packageID, 92).name, _3518061_37);
-if (True == _3518062_37) {
-Obj _3518063_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518064_37 = PRIM_CDR(_3518063_37);
-Obj _3518065_37 = PRIM_ISCONS(_3518064_37);
-if (True == _3518065_37) {
-Obj _3518066_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518067_37 = PRIM_CDR(_3518066_37);
-Obj _3518068_37 = PRIM_CAR(_3518067_37);
-Obj f = _3518068_37;
-Obj _3518069_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518070_37 = PRIM_CDR(_3518069_37);
-Obj _3518071_37 = PRIM_CDR(_3518070_37);
-Obj _3518072_37 = PRIM_EQ(Nil, _3518071_37);
-if (True == _3518072_37) {
-Obj _3518073_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3518073_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun92, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), f);
+Obj v__3517639_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518944_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518944_37) {
+Obj v__3518945_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518946_37 = PRIM_ISCONS(v__3518945_37);
+if (True == v__3518946_37) {
+Obj v__3518947_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518948_37 = PRIM_CAR(v__3518947_37);
+Obj v__3518949_37 = PRIM_EQ(getBinding(co, packageID, 93).name, v__3518948_37);
+if (True == v__3518949_37) {
+Obj v__3518950_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518951_37 = PRIM_CDR(v__3518950_37);
+Obj v__3518952_37 = PRIM_ISCONS(v__3518951_37);
+if (True == v__3518952_37) {
+Obj v__3518953_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518954_37 = PRIM_CDR(v__3518953_37);
+Obj v__3518955_37 = PRIM_CAR(v__3518954_37);
+Obj v__3517663_37 = v__3518955_37;
+Obj v__3518956_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518957_37 = PRIM_CDR(v__3518956_37);
+Obj v__3518958_37 = PRIM_CDR(v__3518957_37);
+Obj v__3518959_37 = PRIM_EQ(Nil, v__3518958_37);
+if (True == v__3518959_37) {
+Obj v__3518960_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3517664_37 = v__3518960_37;
+R[1] = v__3517663_37;
+R[2] = v__3517664_37;
+saveCont(co, clofun93, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517663_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, v__3517639_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, v__3517639_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, v__3517639_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, v__3517639_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, v__3517639_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518078_37= co->res;
+Obj v__3518965_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518077_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun92, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj v__3518964_37= co->res;
+Obj v__3517664_37 = R[1];
+saveCont(co, clofun93, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517664_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518081_37= co->res;
+Obj v__3518968_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518080_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun92, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj v__3518967_37= co->res;
+Obj v__3517664_37 = R[1];
+saveCont(co, clofun93, 3, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517664_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 5:
 {
-Obj _3518084_37= co->res;
+Obj v__3518971_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518083_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun92, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj v__3518970_37= co->res;
+Obj v__3517664_37 = R[1];
+saveCont(co, clofun93, 5, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517664_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518086_37= co->res;
+Obj v__3518973_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518085_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun92, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj v__3518972_37= co->res;
+Obj v__3517664_37 = R[1];
+saveCont(co, clofun93, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517664_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3518075_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3518076_37 = PRIM_EQ(f, getBinding(co, packageID, 123).name);
-if (True == _3518076_37) {
-R[1] = args;
-saveCont(co, clofun92, 2, R);
+Obj v__3518962_37= co->res;
+Obj v__3517663_37 = R[1];
+Obj v__3517664_37 = R[2];
+Obj v__3518963_37 = PRIM_EQ(v__3517663_37, getBinding(co, packageID, 123).name);
+if (True == v__3518963_37) {
+R[1] = v__3517664_37;
+saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518079_37 = PRIM_EQ(f, getBinding(co, packageID, 111).name);
-if (True == _3518079_37) {
-R[1] = args;
-saveCont(co, clofun92, 4, R);
+Obj v__3518966_37 = PRIM_EQ(v__3517663_37, getBinding(co, packageID, 111).name);
+if (True == v__3518966_37) {
+R[1] = v__3517664_37;
+saveCont(co, clofun93, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518082_37 = PRIM_EQ(f, getBinding(co, packageID, 120).name);
-if (True == _3518082_37) {
-R[1] = args;
-saveCont(co, clofun92, 6, R);
+Obj v__3518969_37 = PRIM_EQ(v__3517663_37, getBinding(co, packageID, 120).name);
+if (True == v__3518969_37) {
+R[1] = v__3517664_37;
+saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = args;
-saveCont(co, clofun92, 8, R);
+R[1] = v__3517664_37;
+saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3403,284 +3413,284 @@ return;
 }
 case 10:
 {
-Obj _3518074_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun92, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), _3518074_37);
+Obj v__3518961_37= co->res;
+Obj v__3517663_37 = R[1];
+Obj v__3517664_37 = R[2];
+R[1] = v__3517663_37;
+R[2] = v__3517664_37;
+saveCont(co, clofun93, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3518961_37);
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516792_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518022_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518022_37) {
-Obj _3518023_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518024_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3518023_37);
-if (True == _3518024_37) {
-Obj _3518025_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518026_37 = PRIM_ISCONS(_3518025_37);
-if (True == _3518026_37) {
-Obj _3518027_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518028_37 = PRIM_CAR(_3518027_37);
-Obj a = _3518028_37;
-Obj _3518029_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518030_37 = PRIM_CDR(_3518029_37);
-Obj _3518031_37 = PRIM_ISCONS(_3518030_37);
-if (True == _3518031_37) {
-Obj _3518032_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518033_37 = PRIM_CDR(_3518032_37);
-Obj _3518034_37 = PRIM_CAR(_3518033_37);
-Obj b = _3518034_37;
-Obj _3518035_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518036_37 = PRIM_CDR(_3518035_37);
-Obj _3518037_37 = PRIM_CDR(_3518036_37);
-Obj _3518038_37 = PRIM_ISCONS(_3518037_37);
-if (True == _3518038_37) {
-Obj _3518039_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518040_37 = PRIM_CDR(_3518039_37);
-Obj _3518041_37 = PRIM_CDR(_3518040_37);
-Obj _3518042_37 = PRIM_CAR(_3518041_37);
-Obj c = _3518042_37;
-Obj _3518043_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518044_37 = PRIM_CDR(_3518043_37);
-Obj _3518045_37 = PRIM_CDR(_3518044_37);
-Obj _3518046_37 = PRIM_CDR(_3518045_37);
-Obj _3518047_37 = PRIM_EQ(Nil, _3518046_37);
-if (True == _3518047_37) {
-R[1] = a;
-R[2] = b;
-R[3] = c;
-saveCont(co, clofun91, 9, R);
+Obj v__3517640_37 = makeNative(co->gc, 5, clofun91, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518909_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518909_37) {
+Obj v__3518910_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518911_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518910_37);
+if (True == v__3518911_37) {
+Obj v__3518912_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518913_37 = PRIM_ISCONS(v__3518912_37);
+if (True == v__3518913_37) {
+Obj v__3518914_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518915_37 = PRIM_CAR(v__3518914_37);
+Obj v__3517660_37 = v__3518915_37;
+Obj v__3518916_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518917_37 = PRIM_CDR(v__3518916_37);
+Obj v__3518918_37 = PRIM_ISCONS(v__3518917_37);
+if (True == v__3518918_37) {
+Obj v__3518919_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518920_37 = PRIM_CDR(v__3518919_37);
+Obj v__3518921_37 = PRIM_CAR(v__3518920_37);
+Obj v__3517661_37 = v__3518921_37;
+Obj v__3518922_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518923_37 = PRIM_CDR(v__3518922_37);
+Obj v__3518924_37 = PRIM_CDR(v__3518923_37);
+Obj v__3518925_37 = PRIM_ISCONS(v__3518924_37);
+if (True == v__3518925_37) {
+Obj v__3518926_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518927_37 = PRIM_CDR(v__3518926_37);
+Obj v__3518928_37 = PRIM_CDR(v__3518927_37);
+Obj v__3518929_37 = PRIM_CAR(v__3518928_37);
+Obj v__3517662_37 = v__3518929_37;
+Obj v__3518930_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518931_37 = PRIM_CDR(v__3518930_37);
+Obj v__3518932_37 = PRIM_CDR(v__3518931_37);
+Obj v__3518933_37 = PRIM_CDR(v__3518932_37);
+Obj v__3518934_37 = PRIM_EQ(Nil, v__3518933_37);
+if (True == v__3518934_37) {
+R[1] = v__3517660_37;
+R[2] = v__3517661_37;
+R[3] = v__3517662_37;
+saveCont(co, clofun92, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518056_37= co->res;
+Obj v__3518943_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3518055_37= co->res;
-Obj c = R[1];
-saveCont(co, clofun91, 1, R);
-coraCall2(co, _3518055_37, c, closureRef(R[0], 4));
+Obj v__3518942_37= co->res;
+Obj v__3517662_37 = R[1];
+saveCont(co, clofun92, 1, R);
+coraCall2(co, v__3518942_37, v__3517662_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518054_37= co->res;
-Obj c = R[1];
-R[1] = c;
-saveCont(co, clofun91, 2, R);
+Obj v__3518941_37= co->res;
+Obj v__3517662_37 = R[1];
+R[1] = v__3517662_37;
+saveCont(co, clofun92, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3518053_37= co->res;
-Obj c = R[1];
-R[1] = c;
-saveCont(co, clofun91, 3, R);
+Obj v__3518940_37= co->res;
+Obj v__3517662_37 = R[1];
+R[1] = v__3517662_37;
+saveCont(co, clofun92, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj _3518052_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = c;
-saveCont(co, clofun91, 4, R);
-coraCall2(co, _3518052_37, b, closureRef(R[0], 4));
+Obj v__3518939_37= co->res;
+Obj v__3517661_37 = R[1];
+Obj v__3517662_37 = R[2];
+R[1] = v__3517662_37;
+saveCont(co, clofun92, 4, R);
+coraCall2(co, v__3518939_37, v__3517661_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518051_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun91, 5, R);
+Obj v__3518938_37= co->res;
+Obj v__3517661_37 = R[1];
+Obj v__3517662_37 = R[2];
+R[1] = v__3517661_37;
+R[2] = v__3517662_37;
+saveCont(co, clofun92, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj _3518050_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun91, 6, R);
+Obj v__3518937_37= co->res;
+Obj v__3517661_37 = R[1];
+Obj v__3517662_37 = R[2];
+R[1] = v__3517661_37;
+R[2] = v__3517662_37;
+saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj _3518049_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun91, 7, R);
-coraCall2(co, _3518049_37, a, closureRef(R[0], 4));
+Obj v__3518936_37= co->res;
+Obj v__3517660_37 = R[1];
+Obj v__3517661_37 = R[2];
+Obj v__3517662_37 = R[3];
+R[1] = v__3517661_37;
+R[2] = v__3517662_37;
+saveCont(co, clofun92, 7, R);
+coraCall2(co, v__3518936_37, v__3517660_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3518048_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-Obj c = R[3];
-R[1] = a;
-R[2] = b;
-R[3] = c;
-saveCont(co, clofun91, 8, R);
+Obj v__3518935_37= co->res;
+Obj v__3517660_37 = R[1];
+Obj v__3517661_37 = R[2];
+Obj v__3517662_37 = R[3];
+R[1] = v__3517660_37;
+R[2] = v__3517661_37;
+R[3] = v__3517662_37;
+saveCont(co, clofun92, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516793_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517984_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517984_37) {
-Obj _3517985_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517986_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517985_37);
-if (True == _3517986_37) {
-Obj _3517987_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517988_37 = PRIM_ISCONS(_3517987_37);
-if (True == _3517988_37) {
-Obj _3517989_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517990_37 = PRIM_CAR(_3517989_37);
-Obj label = _3517990_37;
-Obj _3517991_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517992_37 = PRIM_CDR(_3517991_37);
-Obj _3517993_37 = PRIM_ISCONS(_3517992_37);
-if (True == _3517993_37) {
-Obj _3517994_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517995_37 = PRIM_CDR(_3517994_37);
-Obj _3517996_37 = PRIM_CAR(_3517995_37);
-Obj nargs = _3517996_37;
-Obj _3517997_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517998_37 = PRIM_CDR(_3517997_37);
-Obj _3517999_37 = PRIM_CDR(_3517998_37);
-Obj _3518000_37 = PRIM_ISCONS(_3517999_37);
-if (True == _3518000_37) {
-Obj _3518001_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518002_37 = PRIM_CDR(_3518001_37);
-Obj _3518003_37 = PRIM_CDR(_3518002_37);
-Obj _3518004_37 = PRIM_CAR(_3518003_37);
-Obj nframe = _3518004_37;
-Obj _3518005_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518006_37 = PRIM_CDR(_3518005_37);
-Obj _3518007_37 = PRIM_CDR(_3518006_37);
-Obj _3518008_37 = PRIM_CDR(_3518007_37);
-Obj frees = _3518008_37;
-R[1] = nframe;
-R[2] = label;
-R[3] = nargs;
-R[4] = frees;
-saveCont(co, clofun90, 12, R);
+Obj v__3517641_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3518871_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518871_37) {
+Obj v__3518872_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518873_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518872_37);
+if (True == v__3518873_37) {
+Obj v__3518874_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518875_37 = PRIM_ISCONS(v__3518874_37);
+if (True == v__3518875_37) {
+Obj v__3518876_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518877_37 = PRIM_CAR(v__3518876_37);
+Obj v__3517656_37 = v__3518877_37;
+Obj v__3518878_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518879_37 = PRIM_CDR(v__3518878_37);
+Obj v__3518880_37 = PRIM_ISCONS(v__3518879_37);
+if (True == v__3518880_37) {
+Obj v__3518881_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518882_37 = PRIM_CDR(v__3518881_37);
+Obj v__3518883_37 = PRIM_CAR(v__3518882_37);
+Obj v__3517657_37 = v__3518883_37;
+Obj v__3518884_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518885_37 = PRIM_CDR(v__3518884_37);
+Obj v__3518886_37 = PRIM_CDR(v__3518885_37);
+Obj v__3518887_37 = PRIM_ISCONS(v__3518886_37);
+if (True == v__3518887_37) {
+Obj v__3518888_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518889_37 = PRIM_CDR(v__3518888_37);
+Obj v__3518890_37 = PRIM_CDR(v__3518889_37);
+Obj v__3518891_37 = PRIM_CAR(v__3518890_37);
+Obj v__3517658_37 = v__3518891_37;
+Obj v__3518892_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518893_37 = PRIM_CDR(v__3518892_37);
+Obj v__3518894_37 = PRIM_CDR(v__3518893_37);
+Obj v__3518895_37 = PRIM_CDR(v__3518894_37);
+Obj v__3517659_37 = v__3518895_37;
+R[1] = v__3517658_37;
+R[2] = v__3517656_37;
+R[3] = v__3517657_37;
+R[4] = v__3517659_37;
+saveCont(co, clofun91, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518021_37= co->res;
+Obj v__3518908_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518020_37= co->res;
-Obj frees = R[1];
-saveCont(co, clofun90, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
+Obj v__3518907_37= co->res;
+Obj v__3517659_37 = R[1];
+saveCont(co, clofun91, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517659_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518018_37= co->res;
-Obj frees = R[1];
-Obj _3518019_37 = primNot(_3518018_37);
-if (True == _3518019_37) {
-R[1] = frees;
-saveCont(co, clofun90, 2, R);
+Obj v__3518905_37= co->res;
+Obj v__3517659_37 = R[1];
+Obj v__3518906_37 = primNot(v__3518905_37);
+if (True == v__3518906_37) {
+R[1] = v__3517659_37;
+saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3692,501 +3702,501 @@ return;
 }
 case 4:
 {
-Obj _3518017_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun90, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), frees);
+Obj v__3518904_37= co->res;
+Obj v__3517659_37 = R[1];
+R[1] = v__3517659_37;
+saveCont(co, clofun91, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517659_37);
 return;
 }
 case 5:
 {
-Obj _3518016_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun90, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), _3518016_37);
+Obj v__3518903_37= co->res;
+Obj v__3517659_37 = R[1];
+R[1] = v__3517659_37;
+saveCont(co, clofun91, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3518903_37);
 return;
 }
 case 6:
 {
-Obj _3518015_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun90, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), frees);
+Obj v__3518902_37= co->res;
+Obj v__3517659_37 = R[1];
+R[1] = v__3517659_37;
+saveCont(co, clofun91, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3517659_37);
 return;
 }
 case 7:
 {
-Obj _3518014_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun90, 6, R);
+Obj v__3518901_37= co->res;
+Obj v__3517659_37 = R[1];
+R[1] = v__3517659_37;
+saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj _3518013_37= co->res;
-Obj nargs = R[1];
-Obj frees = R[2];
-R[1] = frees;
-saveCont(co, clofun90, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nargs);
+Obj v__3518900_37= co->res;
+Obj v__3517657_37 = R[1];
+Obj v__3517659_37 = R[2];
+R[1] = v__3517659_37;
+saveCont(co, clofun91, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517657_37);
 return;
 }
 case 9:
 {
-Obj _3518012_37= co->res;
-Obj nargs = R[1];
-Obj frees = R[2];
-R[1] = nargs;
-R[2] = frees;
-saveCont(co, clofun90, 8, R);
+Obj v__3518899_37= co->res;
+Obj v__3517657_37 = R[1];
+Obj v__3517659_37 = R[2];
+R[1] = v__3517657_37;
+R[2] = v__3517659_37;
+saveCont(co, clofun91, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj _3518011_37= co->res;
-Obj label = R[1];
-Obj nargs = R[2];
-Obj frees = R[3];
-R[1] = nargs;
-R[2] = frees;
-saveCont(co, clofun90, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), label);
+Obj v__3518898_37= co->res;
+Obj v__3517656_37 = R[1];
+Obj v__3517657_37 = R[2];
+Obj v__3517659_37 = R[3];
+R[1] = v__3517657_37;
+R[2] = v__3517659_37;
+saveCont(co, clofun91, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), v__3517656_37);
 return;
 }
 case 11:
 {
-Obj _3518010_37= co->res;
-Obj label = R[1];
-Obj nargs = R[2];
-Obj frees = R[3];
-R[1] = label;
-R[2] = nargs;
-R[3] = frees;
-saveCont(co, clofun90, 10, R);
+Obj v__3518897_37= co->res;
+Obj v__3517656_37 = R[1];
+Obj v__3517657_37 = R[2];
+Obj v__3517659_37 = R[3];
+R[1] = v__3517656_37;
+R[2] = v__3517657_37;
+R[3] = v__3517659_37;
+saveCont(co, clofun91, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj _3518009_37= co->res;
-Obj nframe = R[1];
-Obj label = R[2];
-Obj nargs = R[3];
-Obj frees = R[4];
-R[1] = label;
-R[2] = nargs;
-R[3] = frees;
-saveCont(co, clofun90, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nframe);
+Obj v__3518896_37= co->res;
+Obj v__3517658_37 = R[1];
+Obj v__3517656_37 = R[2];
+Obj v__3517657_37 = R[3];
+Obj v__3517659_37 = R[4];
+R[1] = v__3517656_37;
+R[2] = v__3517657_37;
+R[3] = v__3517659_37;
+saveCont(co, clofun91, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517658_37);
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516794_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517963_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517963_37) {
-Obj _3517964_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517965_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517964_37);
-if (True == _3517965_37) {
-Obj _3517966_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517967_37 = PRIM_ISCONS(_3517966_37);
-if (True == _3517967_37) {
-Obj _3517968_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517969_37 = PRIM_CAR(_3517968_37);
-Obj a = _3517969_37;
-Obj _3517970_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517971_37 = PRIM_CDR(_3517970_37);
-Obj _3517972_37 = PRIM_ISCONS(_3517971_37);
-if (True == _3517972_37) {
-Obj _3517973_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517974_37 = PRIM_CDR(_3517973_37);
-Obj _3517975_37 = PRIM_CAR(_3517974_37);
-Obj b = _3517975_37;
-Obj _3517976_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517977_37 = PRIM_CDR(_3517976_37);
-Obj _3517978_37 = PRIM_CDR(_3517977_37);
-Obj _3517979_37 = PRIM_EQ(Nil, _3517978_37);
-if (True == _3517979_37) {
-R[1] = a;
-R[2] = b;
-saveCont(co, clofun89, 4, R);
+Obj v__3517642_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3518850_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518850_37) {
+Obj v__3518851_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518852_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518851_37);
+if (True == v__3518852_37) {
+Obj v__3518853_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518854_37 = PRIM_ISCONS(v__3518853_37);
+if (True == v__3518854_37) {
+Obj v__3518855_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518856_37 = PRIM_CAR(v__3518855_37);
+Obj v__3517654_37 = v__3518856_37;
+Obj v__3518857_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518858_37 = PRIM_CDR(v__3518857_37);
+Obj v__3518859_37 = PRIM_ISCONS(v__3518858_37);
+if (True == v__3518859_37) {
+Obj v__3518860_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518861_37 = PRIM_CDR(v__3518860_37);
+Obj v__3518862_37 = PRIM_CAR(v__3518861_37);
+Obj v__3517655_37 = v__3518862_37;
+Obj v__3518863_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518864_37 = PRIM_CDR(v__3518863_37);
+Obj v__3518865_37 = PRIM_CDR(v__3518864_37);
+Obj v__3518866_37 = PRIM_EQ(Nil, v__3518865_37);
+if (True == v__3518866_37) {
+R[1] = v__3517654_37;
+R[2] = v__3517655_37;
+saveCont(co, clofun90, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516794_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517983_37= co->res;
-Obj b = R[1];
+Obj v__3518870_37= co->res;
+Obj v__3517655_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517983_37, b, closureRef(R[0], 5));
+coraCall2(co, v__3518870_37, v__3517655_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517982_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun89, 1, R);
+Obj v__3518869_37= co->res;
+Obj v__3517655_37 = R[1];
+R[1] = v__3517655_37;
+saveCont(co, clofun90, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517981_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun89, 2, R);
+Obj v__3518868_37= co->res;
+Obj v__3517655_37 = R[1];
+R[1] = v__3517655_37;
+saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3517980_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-R[1] = b;
-saveCont(co, clofun89, 3, R);
-coraCall2(co, _3517980_37, a, closureRef(R[0], 5));
+Obj v__3518867_37= co->res;
+Obj v__3517654_37 = R[1];
+Obj v__3517655_37 = R[2];
+R[1] = v__3517655_37;
+saveCont(co, clofun90, 3, R);
+coraCall2(co, v__3518867_37, v__3517654_37, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516795_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517949_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517949_37) {
-Obj _3517950_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517951_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517950_37);
-if (True == _3517951_37) {
-Obj _3517952_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517953_37 = PRIM_ISCONS(_3517952_37);
-if (True == _3517953_37) {
-Obj _3517954_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517955_37 = PRIM_CAR(_3517954_37);
-Obj x = _3517955_37;
-Obj _3517956_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517957_37 = PRIM_CDR(_3517956_37);
-Obj _3517958_37 = PRIM_EQ(Nil, _3517957_37);
-if (True == _3517958_37) {
-R[1] = x;
-saveCont(co, clofun88, 4, R);
+Obj v__3517643_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518836_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518836_37) {
+Obj v__3518837_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518838_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518837_37);
+if (True == v__3518838_37) {
+Obj v__3518839_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518840_37 = PRIM_ISCONS(v__3518839_37);
+if (True == v__3518840_37) {
+Obj v__3518841_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518842_37 = PRIM_CAR(v__3518841_37);
+Obj v__3517653_37 = v__3518842_37;
+Obj v__3518843_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518844_37 = PRIM_CDR(v__3518843_37);
+Obj v__3518845_37 = PRIM_EQ(Nil, v__3518844_37);
+if (True == v__3518845_37) {
+R[1] = v__3517653_37;
+saveCont(co, clofun89, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, v__3517643_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, v__3517643_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, v__3517643_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516795_37);
+coraCall0(co, v__3517643_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517962_37= co->res;
+Obj v__3518849_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517961_37= co->res;
-saveCont(co, clofun88, 1, R);
+Obj v__3518848_37= co->res;
+saveCont(co, clofun89, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517960_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun88, 2, R);
-coraCall2(co, _3517960_37, x, closureRef(R[0], 4));
+Obj v__3518847_37= co->res;
+Obj v__3517653_37 = R[1];
+saveCont(co, clofun89, 2, R);
+coraCall2(co, v__3518847_37, v__3517653_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517959_37= co->res;
-Obj x = R[1];
-R[1] = x;
-saveCont(co, clofun88, 3, R);
+Obj v__3518846_37= co->res;
+Obj v__3517653_37 = R[1];
+R[1] = v__3517653_37;
+saveCont(co, clofun89, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516796_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517936_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517936_37) {
-Obj _3517937_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517938_37 = PRIM_EQ(getBinding(co, packageID, 76).name, _3517937_37);
-if (True == _3517938_37) {
-Obj _3517939_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517940_37 = PRIM_ISCONS(_3517939_37);
-if (True == _3517940_37) {
-Obj _3517941_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517942_37 = PRIM_CAR(_3517941_37);
-Obj exp = _3517942_37;
-Obj _3517943_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517944_37 = PRIM_CDR(_3517943_37);
-Obj _3517945_37 = PRIM_EQ(Nil, _3517944_37);
-if (True == _3517945_37) {
-R[1] = exp;
-saveCont(co, clofun87, 3, R);
+Obj v__3517644_37 = makeNative(co->gc, 3, clofun87, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518823_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518823_37) {
+Obj v__3518824_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518825_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3518824_37);
+if (True == v__3518825_37) {
+Obj v__3518826_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518827_37 = PRIM_ISCONS(v__3518826_37);
+if (True == v__3518827_37) {
+Obj v__3518828_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518829_37 = PRIM_CAR(v__3518828_37);
+Obj v__3517652_37 = v__3518829_37;
+Obj v__3518830_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518831_37 = PRIM_CDR(v__3518830_37);
+Obj v__3518832_37 = PRIM_EQ(Nil, v__3518831_37);
+if (True == v__3518832_37) {
+R[1] = v__3517652_37;
+saveCont(co, clofun88, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, v__3517644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, v__3517644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, v__3517644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516796_37);
+coraCall0(co, v__3517644_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517948_37= co->res;
+Obj v__3518835_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517947_37= co->res;
-Obj exp = R[1];
-saveCont(co, clofun87, 1, R);
-coraCall2(co, _3517947_37, exp, closureRef(R[0], 4));
+Obj v__3518834_37= co->res;
+Obj v__3517652_37 = R[1];
+saveCont(co, clofun88, 1, R);
+coraCall2(co, v__3518834_37, v__3517652_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517946_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun87, 2, R);
+Obj v__3518833_37= co->res;
+Obj v__3517652_37 = R[1];
+R[1] = v__3517652_37;
+saveCont(co, clofun88, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516797_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517912_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517912_37) {
-Obj _3517913_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517914_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517913_37);
-if (True == _3517914_37) {
-Obj _3517915_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517916_37 = PRIM_ISCONS(_3517915_37);
-if (True == _3517916_37) {
-Obj _3517917_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517918_37 = PRIM_CAR(_3517917_37);
-Obj exp = _3517918_37;
-Obj _3517919_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517920_37 = PRIM_CDR(_3517919_37);
-Obj _3517921_37 = PRIM_ISCONS(_3517920_37);
-if (True == _3517921_37) {
-Obj _3517922_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517923_37 = PRIM_CDR(_3517922_37);
-Obj _3517924_37 = PRIM_CAR(_3517923_37);
-Obj label = _3517924_37;
-Obj _3517925_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517926_37 = PRIM_CDR(_3517925_37);
-Obj _3517927_37 = PRIM_CDR(_3517926_37);
-Obj fvs = _3517927_37;
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun86, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), fvs};
+Obj v__3517645_37 = makeNative(co->gc, 4, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518799_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518799_37) {
+Obj v__3518800_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518801_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518800_37);
+if (True == v__3518801_37) {
+Obj v__3518802_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518803_37 = PRIM_ISCONS(v__3518802_37);
+if (True == v__3518803_37) {
+Obj v__3518804_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518805_37 = PRIM_CAR(v__3518804_37);
+Obj v__3517649_37 = v__3518805_37;
+Obj v__3518806_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518807_37 = PRIM_CDR(v__3518806_37);
+Obj v__3518808_37 = PRIM_ISCONS(v__3518807_37);
+if (True == v__3518808_37) {
+Obj v__3518809_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518810_37 = PRIM_CDR(v__3518809_37);
+Obj v__3518811_37 = PRIM_CAR(v__3518810_37);
+Obj v__3517650_37 = v__3518811_37;
+Obj v__3518812_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518813_37 = PRIM_CDR(v__3518812_37);
+Obj v__3518814_37 = PRIM_CDR(v__3518813_37);
+Obj v__3517651_37 = v__3518814_37;
+R[1] = v__3517650_37;
+R[2] = v__3517649_37;
+saveCont(co, clofun87, 8, R);
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517651_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 51)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, v__3517645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, v__3517645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, v__3517645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516797_37);
+coraCall0(co, v__3517645_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517935_37= co->res;
+Obj v__3518822_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517934_37= co->res;
-Obj exp = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517934_37, exp, closureRef(R[0], 4));
+Obj v__3518821_37= co->res;
+Obj v__3517649_37 = R[1];
+saveCont(co, clofun87, 1, R);
+coraCall2(co, v__3518821_37, v__3517649_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517933_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun86, 2, R);
+Obj v__3518820_37= co->res;
+Obj v__3517649_37 = R[1];
+R[1] = v__3517649_37;
+saveCont(co, clofun87, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3517932_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun86, 3, R);
+Obj v__3518819_37= co->res;
+Obj v__3517649_37 = R[1];
+R[1] = v__3517649_37;
+saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj _3517931_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = exp;
-saveCont(co, clofun86, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), label);
+Obj v__3518818_37= co->res;
+Obj v__3517650_37 = R[1];
+Obj v__3517649_37 = R[2];
+R[1] = v__3517649_37;
+saveCont(co, clofun87, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517650_37);
 return;
 }
 case 6:
 {
-Obj _3517930_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun86, 5, R);
+Obj v__3518817_37= co->res;
+Obj v__3517650_37 = R[1];
+Obj v__3517649_37 = R[2];
+R[1] = v__3517650_37;
+R[2] = v__3517649_37;
+saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj _3517929_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun86, 6, R);
+Obj v__3518816_37= co->res;
+Obj v__3517650_37 = R[1];
+Obj v__3517649_37 = R[2];
+R[1] = v__3517650_37;
+R[2] = v__3517649_37;
+saveCont(co, clofun87, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj _3517928_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun86, 7, R);
+Obj v__3518815_37= co->res;
+Obj v__3517650_37 = R[1];
+Obj v__3517649_37 = R[2];
+R[1] = v__3517650_37;
+R[2] = v__3517649_37;
+saveCont(co, clofun87, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517889_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517889_37) {
-Obj _3517890_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517890_37;
-Obj _3517891_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517891_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun85, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), args);
+Obj v__3518776_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518776_37) {
+Obj v__3518777_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517646_37 = v__3518777_37;
+Obj v__3518778_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517647_37 = v__3518778_37;
+R[1] = v__3517646_37;
+R[2] = v__3517647_37;
+saveCont(co, clofun86, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3517647_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4196,135 +4206,135 @@ return;
 }
 case 1:
 {
-Obj _3517903_37= co->res;
+Obj v__3518790_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517902_37= co->res;
-Obj nargs = R[1];
-saveCont(co, clofun85, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nargs);
+Obj v__3518789_37= co->res;
+Obj v__3517648_37 = R[1];
+saveCont(co, clofun86, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517648_37);
 return;
 }
 case 3:
 {
-Obj _3517901_37= co->res;
-Obj nargs = R[1];
-R[1] = nargs;
-saveCont(co, clofun85, 2, R);
+Obj v__3518788_37= co->res;
+Obj v__3517648_37 = R[1];
+R[1] = v__3517648_37;
+saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3517900_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = nargs;
-saveCont(co, clofun85, 3, R);
-coraCall2(co, _3517900_37, f, closureRef(R[0], 4));
+Obj v__3518787_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517648_37 = R[2];
+R[1] = v__3517648_37;
+saveCont(co, clofun86, 3, R);
+coraCall2(co, v__3518787_37, v__3517646_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517899_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun85, 4, R);
+Obj v__3518786_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517648_37 = R[2];
+R[1] = v__3517646_37;
+R[2] = v__3517648_37;
+saveCont(co, clofun86, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj _3517898_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun85, 5, R);
+Obj v__3518785_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517648_37 = R[2];
+R[1] = v__3517646_37;
+R[2] = v__3517648_37;
+saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj _3517897_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun85, 6, R);
+Obj v__3518784_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517648_37 = R[2];
+R[1] = v__3517646_37;
+R[2] = v__3517648_37;
+saveCont(co, clofun86, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj _3517896_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun85, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj v__3518783_37= co->res;
+Obj v__3517647_37 = R[1];
+Obj v__3517646_37 = R[2];
+Obj v__3517648_37 = R[3];
+R[1] = v__3517646_37;
+R[2] = v__3517648_37;
+saveCont(co, clofun86, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517647_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3517895_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun85, 8, R);
+Obj v__3518782_37= co->res;
+Obj v__3517647_37 = R[1];
+Obj v__3517646_37 = R[2];
+Obj v__3517648_37 = R[3];
+R[1] = v__3517647_37;
+R[2] = v__3517646_37;
+R[3] = v__3517648_37;
+saveCont(co, clofun86, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj _3517894_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun85, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nargs);
+Obj v__3518781_37= co->res;
+Obj v__3517647_37 = R[1];
+Obj v__3517646_37 = R[2];
+Obj v__3517648_37 = R[3];
+R[1] = v__3517647_37;
+R[2] = v__3517646_37;
+R[3] = v__3517648_37;
+saveCont(co, clofun86, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517648_37);
 return;
 }
 case 11:
 {
-Obj _3517911_37= co->res;
+Obj v__3518798_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517910_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun85, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj v__3518797_37= co->res;
+Obj v__3517647_37 = R[1];
+saveCont(co, clofun86, 11, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517647_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 13:
 {
-Obj _3517908_37= co->res;
-Obj nargs = R[1];
-Obj args = R[2];
-Obj _3517909_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517909_37) {
-R[1] = args;
-saveCont(co, clofun85, 12, R);
+Obj v__3518795_37= co->res;
+Obj v__3517648_37 = R[1];
+Obj v__3517647_37 = R[2];
+Obj v__3518796_37 = PRIM_GT(v__3517648_37, MAKE_NUMBER(0));
+if (True == v__3518796_37) {
+R[1] = v__3517647_37;
+saveCont(co, clofun86, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4336,74 +4346,74 @@ return;
 }
 case 14:
 {
-Obj _3517907_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = nargs;
-R[2] = args;
-saveCont(co, clofun85, 13, R);
-coraCall2(co, _3517907_37, f, closureRef(R[0], 4));
+Obj v__3518794_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517648_37 = R[2];
+Obj v__3517647_37 = R[3];
+R[1] = v__3517648_37;
+R[2] = v__3517647_37;
+saveCont(co, clofun86, 13, R);
+coraCall2(co, v__3518794_37, v__3517646_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517906_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun85, 14, R);
+Obj v__3518793_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517648_37 = R[2];
+Obj v__3517647_37 = R[3];
+R[1] = v__3517646_37;
+R[2] = v__3517648_37;
+R[3] = v__3517647_37;
+saveCont(co, clofun86, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj _3517905_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun85, 15, R);
+Obj v__3518792_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517648_37 = R[2];
+Obj v__3517647_37 = R[3];
+R[1] = v__3517646_37;
+R[2] = v__3517648_37;
+R[3] = v__3517647_37;
+saveCont(co, clofun86, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj _3517904_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun85, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), nargs);
+Obj v__3518791_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517648_37 = R[2];
+Obj v__3517647_37 = R[3];
+R[1] = v__3517646_37;
+R[2] = v__3517648_37;
+R[3] = v__3517647_37;
+saveCont(co, clofun86, 16, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517648_37);
 return;
 }
 case 18:
 {
-Obj _3517892_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj nargs = _3517892_37;
-Obj _3517893_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517893_37) {
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun85, 10, R);
+Obj v__3518779_37= co->res;
+Obj v__3517646_37 = R[1];
+Obj v__3517647_37 = R[2];
+Obj v__3517648_37 = v__3518779_37;
+Obj v__3518780_37 = PRIM_GT(v__3517648_37, MAKE_NUMBER(4));
+if (True == v__3518780_37) {
+R[1] = v__3517647_37;
+R[2] = v__3517646_37;
+R[3] = v__3517648_37;
+saveCont(co, clofun86, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun85, 17, R);
+R[1] = v__3517646_37;
+R[2] = v__3517648_37;
+R[3] = v__3517647_37;
+saveCont(co, clofun86, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4411,211 +4421,211 @@ return;
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj ls = R[5];
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun83, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun84, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj v = R[2];
-R[1] = v;
-R[2] = acc;
-saveCont(co, clofun83, 5, R);
+Obj v_acc = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
+R[2] = v_acc;
+saveCont(co, clofun84, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj _3517884_37= co->res;
-Obj acc = R[1];
-Obj _3517885_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517885_37);
+Obj v__3518771_37= co->res;
+Obj v_acc = R[1];
+Obj v__3518772_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518772_37);
 return;
 }
 case 2:
 {
-Obj _3517883_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
-saveCont(co, clofun83, 1, R);
+Obj v__3518770_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun84, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj _3517882_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
-saveCont(co, clofun83, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), acc);
+Obj v__3518769_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun84, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj _3517881_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
-saveCont(co, clofun83, 3, R);
+Obj v__3518768_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun84, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj _3517880_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = acc;
-saveCont(co, clofun83, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
+Obj v__3518767_37= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
+saveCont(co, clofun84, 4, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj ls = R[5];
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun81, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun82, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj v = R[2];
-R[1] = v;
-R[2] = acc;
-saveCont(co, clofun81, 5, R);
+Obj v_acc = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
+R[2] = v_acc;
+saveCont(co, clofun82, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj _3517877_37= co->res;
-Obj acc = R[1];
-Obj _3517878_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517878_37);
+Obj v__3518764_37= co->res;
+Obj v_acc = R[1];
+Obj v__3518765_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518765_37);
 return;
 }
 case 2:
 {
-Obj _3517876_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
-saveCont(co, clofun81, 1, R);
+Obj v__3518763_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun82, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3517875_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = acc;
-saveCont(co, clofun81, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
+Obj v__3518762_37= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
+saveCont(co, clofun82, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3517874_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = v;
-R[2] = acc;
-saveCont(co, clofun81, 3, R);
+Obj v__3518761_37= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_v;
+R[2] = v_acc;
+saveCont(co, clofun82, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj _3517873_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = v;
-R[2] = acc;
-saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), acc);
+Obj v__3518760_37= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_v;
+R[2] = v_acc;
+saveCont(co, clofun82, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sym = R[1];
-Obj globals = R[2];
+Obj v_sym = R[1];
+Obj v_globals = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), MAKE_NUMBER(0), sym, globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), MAKE_NUMBER(0), v_sym, v_globals);
 return;
 }
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj idx = R[1];
-Obj sym = R[2];
-Obj globals = R[3];
-R[1] = idx;
-R[2] = globals;
-R[3] = sym;
-saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), globals);
+Obj v_idx = R[1];
+Obj v_sym = R[2];
+Obj v_globals = R[3];
+R[1] = v_idx;
+R[2] = v_globals;
+R[3] = v_sym;
+saveCont(co, clofun80, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3517866_37= co->res;
-Obj idx = R[1];
-Obj globals = R[2];
-Obj sym = R[3];
-if (True == _3517866_37) {
+Obj v__3518753_37= co->res;
+Obj v_idx = R[1];
+Obj v_globals = R[2];
+Obj v_sym = R[3];
+if (True == v__3518753_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517867_37 = PRIM_CAR(globals);
-Obj _3517868_37 = PRIM_EQ(sym, _3517867_37);
-if (True == _3517868_37) {
-coraReturn(co, idx);
+Obj v__3518754_37 = PRIM_CAR(v_globals);
+Obj v__3518755_37 = PRIM_EQ(v_sym, v__3518754_37);
+if (True == v__3518755_37) {
+coraReturn(co, v_idx);
 return;
 } else {
-Obj _3517869_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517870_37 = PRIM_CDR(globals);
+Obj v__3518756_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v__3518757_37 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517869_37, sym, _3517870_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3518756_37, v_sym, v__3518757_37);
 return;
 }
 }
@@ -4623,339 +4633,339 @@ return;
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sym = R[1];
-Obj globals = R[2];
-R[1] = sym;
-R[2] = globals;
-saveCont(co, clofun78, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), globals);
+Obj v_sym = R[1];
+Obj v_globals = R[2];
+R[1] = v_sym;
+R[2] = v_globals;
+saveCont(co, clofun79, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3517862_37= co->res;
-Obj sym = R[1];
-Obj val = R[2];
-Obj globals = R[3];
-if (True == _3517862_37) {
+Obj v__3518749_37= co->res;
+Obj v_sym = R[1];
+Obj v__3517633_37 = R[2];
+Obj v_globals = R[3];
+if (True == v__3518749_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517863_37 = makeCons(co->gc, sym, val);
-Obj _3517864_37 = primSet(co, globals, _3517863_37);
-coraReturn(co, _3517864_37);
+Obj v__3518750_37 = makeCons(co->gc, v_sym, v__3517633_37);
+Obj v__3518751_37 = primSet(co, v_globals, v__3518750_37);
+coraReturn(co, v__3518751_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517861_37= co->res;
-Obj sym = R[1];
-Obj globals = R[2];
-Obj val = _3517861_37;
-R[1] = sym;
-R[2] = val;
-R[3] = globals;
-saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), sym, val);
+Obj v__3518748_37= co->res;
+Obj v_sym = R[1];
+Obj v_globals = R[2];
+Obj v__3517633_37 = v__3518748_37;
+R[1] = v_sym;
+R[2] = v__3517633_37;
+R[3] = v_globals;
+saveCont(co, clofun79, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_sym, v__3517633_37);
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj k = R[2];
-Obj _3517854_37 = primGenSym(co);
-Obj tmp = _3517854_37;
-R[1] = x;
-R[2] = tmp;
-saveCont(co, clofun77, 1, R);
-coraCall1(co, k, tmp);
+Obj v_x = R[1];
+Obj v_k = R[2];
+Obj v__3518741_37 = primGenSym(co);
+Obj v__3517632_37 = v__3518741_37;
+R[1] = v_x;
+R[2] = v__3517632_37;
+saveCont(co, clofun78, 1, R);
+coraCall1(co, v_k, v__3517632_37);
 return;
 }
 case 1:
 {
-Obj _3517855_37= co->res;
-Obj x = R[1];
-Obj tmp = R[2];
-Obj _3517856_37 = makeCons(co->gc, _3517855_37, Nil);
-Obj _3517857_37 = makeCons(co->gc, x, _3517856_37);
-Obj _3517858_37 = makeCons(co->gc, tmp, _3517857_37);
-Obj _3517859_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517858_37);
-coraReturn(co, _3517859_37);
+Obj v__3518742_37= co->res;
+Obj v_x = R[1];
+Obj v__3517632_37 = R[2];
+Obj v__3518743_37 = makeCons(co->gc, v__3518742_37, Nil);
+Obj v__3518744_37 = makeCons(co->gc, v_x, v__3518743_37);
+Obj v__3518745_37 = makeCons(co->gc, v__3517632_37, v__3518744_37);
+Obj v__3518746_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518745_37);
+coraReturn(co, v__3518746_37);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v = R[1];
-Obj val = R[2];
-R[1] = val;
-R[2] = v;
-saveCont(co, clofun76, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v, MAKE_NUMBER(0));
+Obj v_v = R[1];
+Obj v_val = R[2];
+R[1] = v_val;
+R[2] = v_v;
+saveCont(co, clofun77, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj _3517852_37= co->res;
-Obj v = R[1];
-Obj cur1 = R[2];
+Obj v__3518739_37= co->res;
+Obj v_v = R[1];
+Obj v__3517631_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1), cur1);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1), v__3517631_37);
 return;
 }
 case 2:
 {
-Obj _3517847_37= co->res;
-Obj val = R[1];
-Obj idx = R[2];
-Obj v = R[3];
-Obj cur = _3517847_37;
-Obj _3517848_37 = makeCons(co->gc, val, Nil);
-Obj _3517849_37 = makeCons(co->gc, idx, _3517848_37);
-Obj _3517850_37 = makeCons(co->gc, _3517849_37, cur);
-Obj cur1 = _3517850_37;
-Obj _3517851_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-R[1] = v;
-R[2] = cur1;
-saveCont(co, clofun76, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0), _3517851_37);
+Obj v__3518734_37= co->res;
+Obj v_val = R[1];
+Obj v__3517629_37 = R[2];
+Obj v_v = R[3];
+Obj v__3517630_37 = v__3518734_37;
+Obj v__3518735_37 = makeCons(co->gc, v_val, Nil);
+Obj v__3518736_37 = makeCons(co->gc, v__3517629_37, v__3518735_37);
+Obj v__3518737_37 = makeCons(co->gc, v__3518736_37, v__3517630_37);
+Obj v__3517631_37 = v__3518737_37;
+Obj v__3518738_37 = PRIM_ADD(v__3517629_37, MAKE_NUMBER(1));
+R[1] = v_v;
+R[2] = v__3517631_37;
+saveCont(co, clofun77, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0), v__3518738_37);
 return;
 }
 case 3:
 {
-Obj _3517846_37= co->res;
-Obj val = R[1];
-Obj v = R[2];
-Obj idx = _3517846_37;
-R[1] = val;
-R[2] = idx;
-R[3] = v;
-saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v, MAKE_NUMBER(1));
+Obj v__3518733_37= co->res;
+Obj v_val = R[1];
+Obj v_v = R[2];
+Obj v__3517629_37 = v__3518733_37;
+R[1] = v_val;
+R[2] = v__3517629_37;
+R[3] = v_v;
+saveCont(co, clofun77, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516782_37 = R[1];
-Obj _3516783_37 = R[2];
-Obj _3516784_37 = makeNative(co->gc, 1, clofun74, 0, 2, _3516782_37, _3516783_37);
-Obj _3517797_37 = PRIM_ISCONS(_3516783_37);
-if (True == _3517797_37) {
-Obj _3517798_37 = PRIM_CAR(_3516783_37);
-Obj _3517799_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517798_37);
-if (True == _3517799_37) {
-Obj _3517800_37 = PRIM_CDR(_3516783_37);
-Obj _3517801_37 = PRIM_ISCONS(_3517800_37);
-if (True == _3517801_37) {
-Obj _3517802_37 = PRIM_CDR(_3516783_37);
-Obj _3517803_37 = PRIM_CAR(_3517802_37);
-Obj _3517804_37 = PRIM_ISCONS(_3517803_37);
-if (True == _3517804_37) {
-Obj _3517805_37 = PRIM_CDR(_3516783_37);
-Obj _3517806_37 = PRIM_CAR(_3517805_37);
-Obj _3517807_37 = PRIM_CAR(_3517806_37);
-Obj _3517808_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517807_37);
-if (True == _3517808_37) {
-Obj _3517809_37 = PRIM_CDR(_3516783_37);
-Obj _3517810_37 = PRIM_CAR(_3517809_37);
-Obj _3517811_37 = PRIM_CDR(_3517810_37);
-Obj _3517812_37 = PRIM_ISCONS(_3517811_37);
-if (True == _3517812_37) {
-Obj _3517813_37 = PRIM_CDR(_3516783_37);
-Obj _3517814_37 = PRIM_CAR(_3517813_37);
-Obj _3517815_37 = PRIM_CDR(_3517814_37);
-Obj _3517816_37 = PRIM_CAR(_3517815_37);
-Obj params = _3517816_37;
-Obj _3517817_37 = PRIM_CDR(_3516783_37);
-Obj _3517818_37 = PRIM_CAR(_3517817_37);
-Obj _3517819_37 = PRIM_CDR(_3517818_37);
-Obj _3517820_37 = PRIM_CDR(_3517819_37);
-Obj _3517821_37 = PRIM_ISCONS(_3517820_37);
-if (True == _3517821_37) {
-Obj _3517822_37 = PRIM_CDR(_3516783_37);
-Obj _3517823_37 = PRIM_CAR(_3517822_37);
-Obj _3517824_37 = PRIM_CDR(_3517823_37);
-Obj _3517825_37 = PRIM_CDR(_3517824_37);
-Obj _3517826_37 = PRIM_CAR(_3517825_37);
-Obj body = _3517826_37;
-Obj _3517827_37 = PRIM_CDR(_3516783_37);
-Obj _3517828_37 = PRIM_CAR(_3517827_37);
-Obj _3517829_37 = PRIM_CDR(_3517828_37);
-Obj _3517830_37 = PRIM_CDR(_3517829_37);
-Obj _3517831_37 = PRIM_CDR(_3517830_37);
-Obj _3517832_37 = PRIM_EQ(Nil, _3517831_37);
-if (True == _3517832_37) {
-Obj _3517833_37 = PRIM_CDR(_3516783_37);
-Obj _3517834_37 = PRIM_CDR(_3517833_37);
-Obj fvs = _3517834_37;
-R[1] = _3516782_37;
-R[2] = params;
-R[3] = fvs;
-saveCont(co, clofun75, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), _3516782_37, body);
+Obj v__3517406_37 = R[1];
+Obj v__3517407_37 = R[2];
+Obj v__3517621_37 = makeNative(co->gc, 1, clofun75, 0, 2, v__3517406_37, v__3517407_37);
+Obj v__3518684_37 = PRIM_ISCONS(v__3517407_37);
+if (True == v__3518684_37) {
+Obj v__3518685_37 = PRIM_CAR(v__3517407_37);
+Obj v__3518686_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518685_37);
+if (True == v__3518686_37) {
+Obj v__3518687_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518688_37 = PRIM_ISCONS(v__3518687_37);
+if (True == v__3518688_37) {
+Obj v__3518689_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518690_37 = PRIM_CAR(v__3518689_37);
+Obj v__3518691_37 = PRIM_ISCONS(v__3518690_37);
+if (True == v__3518691_37) {
+Obj v__3518692_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518693_37 = PRIM_CAR(v__3518692_37);
+Obj v__3518694_37 = PRIM_CAR(v__3518693_37);
+Obj v__3518695_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518694_37);
+if (True == v__3518695_37) {
+Obj v__3518696_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518697_37 = PRIM_CAR(v__3518696_37);
+Obj v__3518698_37 = PRIM_CDR(v__3518697_37);
+Obj v__3518699_37 = PRIM_ISCONS(v__3518698_37);
+if (True == v__3518699_37) {
+Obj v__3518700_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518701_37 = PRIM_CAR(v__3518700_37);
+Obj v__3518702_37 = PRIM_CDR(v__3518701_37);
+Obj v__3518703_37 = PRIM_CAR(v__3518702_37);
+Obj v__3517622_37 = v__3518703_37;
+Obj v__3518704_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518705_37 = PRIM_CAR(v__3518704_37);
+Obj v__3518706_37 = PRIM_CDR(v__3518705_37);
+Obj v__3518707_37 = PRIM_CDR(v__3518706_37);
+Obj v__3518708_37 = PRIM_ISCONS(v__3518707_37);
+if (True == v__3518708_37) {
+Obj v__3518709_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518710_37 = PRIM_CAR(v__3518709_37);
+Obj v__3518711_37 = PRIM_CDR(v__3518710_37);
+Obj v__3518712_37 = PRIM_CDR(v__3518711_37);
+Obj v__3518713_37 = PRIM_CAR(v__3518712_37);
+Obj v__3517623_37 = v__3518713_37;
+Obj v__3518714_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518715_37 = PRIM_CAR(v__3518714_37);
+Obj v__3518716_37 = PRIM_CDR(v__3518715_37);
+Obj v__3518717_37 = PRIM_CDR(v__3518716_37);
+Obj v__3518718_37 = PRIM_CDR(v__3518717_37);
+Obj v__3518719_37 = PRIM_EQ(Nil, v__3518718_37);
+if (True == v__3518719_37) {
+Obj v__3518720_37 = PRIM_CDR(v__3517407_37);
+Obj v__3518721_37 = PRIM_CDR(v__3518720_37);
+Obj v__3517624_37 = v__3518721_37;
+R[1] = v__3517406_37;
+R[2] = v__3517622_37;
+R[3] = v__3517624_37;
+saveCont(co, clofun76, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517406_37, v__3517623_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517840_37= co->res;
-Obj nframe = R[1];
-Obj fvs = R[2];
-Obj cur = R[3];
-Obj _3517841_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517842_37 = makeCons(co->gc, _3517840_37, _3517841_37);
-Obj _3517843_37 = makeCons(co->gc, cur, _3517842_37);
-Obj _3517844_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3517843_37);
-coraReturn(co, _3517844_37);
+Obj v__3518727_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517624_37 = R[2];
+Obj v__3517626_37 = R[3];
+Obj v__3518728_37 = makeCons(co->gc, v__3517628_37, v__3517624_37);
+Obj v__3518729_37 = makeCons(co->gc, v__3518727_37, v__3518728_37);
+Obj v__3518730_37 = makeCons(co->gc, v__3517626_37, v__3518729_37);
+Obj v__3518731_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518730_37);
+coraReturn(co, v__3518731_37);
 return;
 }
 case 2:
 {
-Obj _3517839_37= co->res;
-Obj params = R[1];
-Obj nframe = R[2];
-Obj fvs = R[3];
-Obj cur = R[4];
-R[1] = nframe;
-R[2] = fvs;
-R[3] = cur;
-saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), params);
+Obj v__3518726_37= co->res;
+Obj v__3517622_37 = R[1];
+Obj v__3517628_37 = R[2];
+Obj v__3517624_37 = R[3];
+Obj v__3517626_37 = R[4];
+R[1] = v__3517628_37;
+R[2] = v__3517624_37;
+R[3] = v__3517626_37;
+saveCont(co, clofun76, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3517622_37);
 return;
 }
 case 3:
 {
-Obj _3517838_37= co->res;
-Obj _3516782_37 = R[1];
-Obj body2 = R[2];
-Obj params = R[3];
-Obj fvs = R[4];
-Obj cur = R[5];
-Obj nframe = _3517838_37;
-R[1] = params;
-R[2] = nframe;
-R[3] = fvs;
-R[4] = cur;
-saveCont(co, clofun75, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516782_37, body2);
+Obj v__3518725_37= co->res;
+Obj v__3517406_37 = R[1];
+Obj v__3517627_37 = R[2];
+Obj v__3517622_37 = R[3];
+Obj v__3517624_37 = R[4];
+Obj v__3517626_37 = R[5];
+Obj v__3517628_37 = v__3518725_37;
+R[1] = v__3517622_37;
+R[2] = v__3517628_37;
+R[3] = v__3517624_37;
+R[4] = v__3517626_37;
+saveCont(co, clofun76, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517406_37, v__3517627_37);
 return;
 }
 case 4:
 {
-Obj _3517837_37= co->res;
-Obj _3516782_37 = R[1];
-Obj params = R[2];
-Obj fvs = R[3];
-Obj cur = R[4];
-Obj body2 = _3517837_37;
-R[1] = _3516782_37;
-R[2] = body2;
-R[3] = params;
-R[4] = fvs;
-R[5] = cur;
-saveCont(co, clofun75, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), body2);
+Obj v__3518724_37= co->res;
+Obj v__3517406_37 = R[1];
+Obj v__3517622_37 = R[2];
+Obj v__3517624_37 = R[3];
+Obj v__3517626_37 = R[4];
+Obj v__3517627_37 = v__3518724_37;
+R[1] = v__3517406_37;
+R[2] = v__3517627_37;
+R[3] = v__3517622_37;
+R[4] = v__3517624_37;
+R[5] = v__3517626_37;
+saveCont(co, clofun76, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517627_37);
 return;
 }
 case 5:
 {
-Obj _3517836_37= co->res;
-Obj body1 = R[1];
-Obj _3516782_37 = R[2];
-Obj params = R[3];
-Obj fvs = R[4];
-Obj cur = _3517836_37;
-R[1] = _3516782_37;
-R[2] = params;
-R[3] = fvs;
-R[4] = cur;
-saveCont(co, clofun75, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), params, body1);
+Obj v__3518723_37= co->res;
+Obj v__3517625_37 = R[1];
+Obj v__3517406_37 = R[2];
+Obj v__3517622_37 = R[3];
+Obj v__3517624_37 = R[4];
+Obj v__3517626_37 = v__3518723_37;
+R[1] = v__3517406_37;
+R[2] = v__3517622_37;
+R[3] = v__3517624_37;
+R[4] = v__3517626_37;
+saveCont(co, clofun76, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), v__3517622_37, v__3517625_37);
 return;
 }
 case 6:
 {
-Obj _3517835_37= co->res;
-Obj _3516782_37 = R[1];
-Obj params = R[2];
-Obj fvs = R[3];
-Obj body1 = _3517835_37;
-R[1] = body1;
-R[2] = _3516782_37;
-R[3] = params;
-R[4] = fvs;
-saveCont(co, clofun75, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), _3516782_37, MAKE_NUMBER(0));
+Obj v__3518722_37= co->res;
+Obj v__3517406_37 = R[1];
+Obj v__3517622_37 = R[2];
+Obj v__3517624_37 = R[3];
+Obj v__3517625_37 = v__3518722_37;
+R[1] = v__3517625_37;
+R[2] = v__3517406_37;
+R[3] = v__3517622_37;
+R[4] = v__3517624_37;
+saveCont(co, clofun76, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3517406_37, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517795_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517795_37) {
-saveCont(co, clofun74, 1, R);
+Obj v__3518682_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518682_37) {
+saveCont(co, clofun75, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 0));
 return;
 } else {
@@ -4965,152 +4975,152 @@ return;
 }
 case 1:
 {
-Obj _3517796_37= co->res;
+Obj v__3518683_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517796_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518683_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj lam = R[1];
-R[1] = lam;
-saveCont(co, clofun73, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
+Obj v_lam = R[1];
+R[1] = v_lam;
+saveCont(co, clofun74, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_lam);
 return;
 }
 case 1:
 {
-Obj _3517793_37= co->res;
-Obj _3517792_37 = R[1];
+Obj v__3518680_37= co->res;
+Obj v__3518679_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun72, 2, 0), _3517792_37, _3517793_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun73, 2, 0), v__3518679_37, v__3518680_37);
 return;
 }
 case 2:
 {
-Obj _3517787_37= co->res;
-Obj lam = R[1];
-Obj nargs = _3517787_37;
-Obj _3517792_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517792_37;
-saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), lam);
+Obj v__3518674_37= co->res;
+Obj v_lam = R[1];
+Obj v__3517619_37 = v__3518674_37;
+Obj v__3518679_37 = PRIM_ADD(v__3517619_37, MAKE_NUMBER(1));
+R[1] = v__3518679_37;
+saveCont(co, clofun74, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_lam);
 return;
 }
 case 3:
 {
-Obj _3517786_37= co->res;
-Obj lam = R[1];
-R[1] = lam;
-saveCont(co, clofun73, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3517786_37);
+Obj v__3518673_37= co->res;
+Obj v_lam = R[1];
+R[1] = v_lam;
+saveCont(co, clofun74, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3518673_37);
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj x = R[2];
-R[1] = acc;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), x);
+Obj v_acc = R[1];
+Obj v_x = R[2];
+R[1] = v_acc;
+saveCont(co, clofun73, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_x);
 return;
 }
 case 1:
 {
-Obj _3517789_37= co->res;
-Obj acc = R[1];
-Obj _3517790_37 = PRIM_ADD(_3517789_37, MAKE_NUMBER(1));
-Obj len = _3517790_37;
-Obj _3517791_37 = PRIM_GT(len, acc);
-if (True == _3517791_37) {
-coraReturn(co, len);
+Obj v__3518676_37= co->res;
+Obj v_acc = R[1];
+Obj v__3518677_37 = PRIM_ADD(v__3518676_37, MAKE_NUMBER(1));
+Obj v__3517620_37 = v__3518677_37;
+Obj v__3518678_37 = PRIM_GT(v__3517620_37, v_acc);
+if (True == v__3518678_37) {
+coraReturn(co, v__3517620_37);
 return;
 } else {
-coraReturn(co, acc);
+coraReturn(co, v_acc);
 return;
 }
 }
 case 2:
 {
-Obj _3517788_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
-saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3517788_37);
+Obj v__3518675_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
+saveCont(co, clofun73, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3518675_37);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj params = R[1];
-Obj body = R[2];
+Obj v_params = R[1];
+Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v_body, Nil, makeNative(co->gc, 3, clofun71, 2, 1, v_params));
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body1 = R[1];
-Obj conts = R[2];
-R[1] = body1;
-saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), conts);
+Obj v_body1 = R[1];
+Obj v_conts = R[2];
+R[1] = v_body1;
+saveCont(co, clofun71, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v_conts);
 return;
 }
 case 1:
 {
-Obj _3517781_37= co->res;
-Obj body1 = R[1];
-Obj _3517782_37 = makeCons(co->gc, body1, _3517781_37);
-Obj _3517783_37 = makeCons(co->gc, closureRef(R[0], 0), _3517782_37);
-Obj _3517784_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517783_37);
-coraReturn(co, _3517784_37);
+Obj v__3518668_37= co->res;
+Obj v_body1 = R[1];
+Obj v__3518669_37 = makeCons(co->gc, v_body1, v__3518668_37);
+Obj v__3518670_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518669_37);
+Obj v__3518671_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518670_37);
+coraReturn(co, v__3518671_37);
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516776_37 = R[1];
-Obj _3516777_37 = R[2];
-Obj _3516778_37 = R[3];
-Obj _3516779_37 = R[4];
-Obj _3517775_37 = PRIM_EQ(Nil, _3516776_37);
-if (True == _3517775_37) {
+Obj v__3517400_37 = R[1];
+Obj v__3517401_37 = R[2];
+Obj v__3517402_37 = R[3];
+Obj v__3517403_37 = R[4];
+Obj v__3518662_37 = PRIM_EQ(Nil, v__3517400_37);
+if (True == v__3518662_37) {
 co->ctx.sp = R;
-coraCall2(co, _3516779_37, _3516778_37, _3516777_37);
+coraCall2(co, v__3517403_37, v__3517402_37, v__3517401_37);
 return;
 } else {
-Obj _3517776_37 = PRIM_ISCONS(_3516776_37);
-if (True == _3517776_37) {
-Obj _3517777_37 = PRIM_CAR(_3516776_37);
-Obj f = _3517777_37;
-Obj _3517778_37 = PRIM_CDR(_3516776_37);
-Obj args = _3517778_37;
+Obj v__3518663_37 = PRIM_ISCONS(v__3517400_37);
+if (True == v__3518663_37) {
+Obj v__3518664_37 = PRIM_CAR(v__3517400_37);
+Obj v__3517617_37 = v__3518664_37;
+Obj v__3518665_37 = PRIM_CDR(v__3517400_37);
+Obj v__3517618_37 = v__3518665_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), f, _3516777_37, makeNative(co->gc, 3, clofun68, 2, 3, args, _3516778_37, _3516779_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3517617_37, v__3517401_37, makeNative(co->gc, 3, clofun69, 2, 3, v__3517618_37, v__3517402_37, v__3517403_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5122,131 +5132,131 @@ return;
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj f1 = R[1];
-Obj conts1 = R[2];
+Obj v_f1 = R[1];
+Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun68, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj args1 = R[1];
-Obj conts2 = R[2];
-Obj _3517779_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj v_args1 = R[1];
+Obj v_conts2 = R[2];
+Obj v__3518666_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517779_37, conts2);
+coraCall2(co, closureRef(R[0], 0), v__3518666_37, v_conts2);
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516770_37 = R[1];
-Obj _3516771_37 = R[2];
-Obj _3516772_37 = R[3];
-Obj _3516846_37 = makeNative(co->gc, 2, clofun65, 1, 3, _3516770_37, _3516771_37, _3516772_37);
-Obj _3517772_37 = primIsSymbol(_3516770_37);
-if (True == _3517772_37) {
+Obj v__3517394_37 = R[1];
+Obj v__3517395_37 = R[2];
+Obj v__3517396_37 = R[3];
+Obj v__3517610_37 = makeNative(co->gc, 2, clofun66, 1, 3, v__3517394_37, v__3517395_37, v__3517396_37);
+Obj v__3518659_37 = primIsSymbol(v__3517394_37);
+if (True == v__3518659_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516846_37, True);
+coraCall1(co, v__3517610_37, True);
 return;
 } else {
-R[1] = _3516846_37;
-saveCont(co, clofun66, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516770_37);
+R[1] = v__3517610_37;
+saveCont(co, clofun67, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517394_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517773_37= co->res;
-Obj _3516846_37 = R[1];
-if (True == _3517773_37) {
+Obj v__3518660_37= co->res;
+Obj v__3517610_37 = R[1];
+if (True == v__3518660_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516846_37, True);
+coraCall1(co, v__3517610_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516846_37, False);
+coraCall1(co, v__3517610_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516847_37 = R[1];
-if (True == _3516847_37) {
+Obj v__3517609_37 = R[1];
+if (True == v__3517609_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516774_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517748_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517748_37) {
-Obj _3517749_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517750_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517749_37);
-if (True == _3517750_37) {
-Obj _3517751_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517752_37 = PRIM_ISCONS(_3517751_37);
-if (True == _3517752_37) {
-Obj _3517753_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517754_37 = PRIM_CAR(_3517753_37);
-Obj exp = _3517754_37;
-Obj _3517755_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517756_37 = PRIM_CDR(_3517755_37);
-Obj _3517757_37 = PRIM_ISCONS(_3517756_37);
-if (True == _3517757_37) {
-Obj _3517758_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517759_37 = PRIM_CDR(_3517758_37);
-Obj _3517760_37 = PRIM_CAR(_3517759_37);
-Obj cont = _3517760_37;
-Obj _3517761_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517762_37 = PRIM_CDR(_3517761_37);
-Obj _3517763_37 = PRIM_CDR(_3517762_37);
-Obj _3517764_37 = PRIM_EQ(Nil, _3517763_37);
-if (True == _3517764_37) {
+Obj v__3517611_37 = makeNative(co->gc, 1, clofun64, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518635_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518635_37) {
+Obj v__3518636_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518637_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518636_37);
+if (True == v__3518637_37) {
+Obj v__3518638_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518639_37 = PRIM_ISCONS(v__3518638_37);
+if (True == v__3518639_37) {
+Obj v__3518640_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518641_37 = PRIM_CAR(v__3518640_37);
+Obj v__3517614_37 = v__3518641_37;
+Obj v__3518642_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518643_37 = PRIM_CDR(v__3518642_37);
+Obj v__3518644_37 = PRIM_ISCONS(v__3518643_37);
+if (True == v__3518644_37) {
+Obj v__3518645_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518646_37 = PRIM_CDR(v__3518645_37);
+Obj v__3518647_37 = PRIM_CAR(v__3518646_37);
+Obj v__3517615_37 = v__3518647_37;
+Obj v__3518648_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518649_37 = PRIM_CDR(v__3518648_37);
+Obj v__3518650_37 = PRIM_CDR(v__3518649_37);
+Obj v__3518651_37 = PRIM_EQ(Nil, v__3518650_37);
+if (True == v__3518651_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3517615_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun65, 2, 2, closureRef(R[0], 2), v__3517614_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, v__3517611_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, v__3517611_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, v__3517611_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, v__3517611_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, v__3517611_37);
 return;
 }
 }
@@ -5254,62 +5264,62 @@ return;
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj cont1 = R[1];
-Obj conts1 = R[2];
-R[1] = cont1;
-R[2] = conts1;
-saveCont(co, clofun64, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), cont1);
+Obj v_cont1 = R[1];
+Obj v_conts1 = R[2];
+R[1] = v_cont1;
+R[2] = v_conts1;
+saveCont(co, clofun65, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_cont1);
 return;
 }
 case 1:
 {
-Obj _3517766_37= co->res;
-Obj fvs = R[1];
-Obj cont1 = R[2];
-Obj conts1 = R[3];
-Obj _3517767_37 = PRIM_ADD(_3517766_37, MAKE_NUMBER(1));
-Obj _3517768_37 = makeCons(co->gc, _3517767_37, fvs);
-Obj _3517769_37 = makeCons(co->gc, closureRef(R[0], 1), _3517768_37);
-Obj _3517770_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517769_37);
-Obj _3517771_37 = makeCons(co->gc, cont1, conts1);
+Obj v__3518653_37= co->res;
+Obj v__3517616_37 = R[1];
+Obj v_cont1 = R[2];
+Obj v_conts1 = R[3];
+Obj v__3518654_37 = PRIM_ADD(v__3518653_37, MAKE_NUMBER(1));
+Obj v__3518655_37 = makeCons(co->gc, v__3518654_37, v__3517616_37);
+Obj v__3518656_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518655_37);
+Obj v__3518657_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518656_37);
+Obj v__3518658_37 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517770_37, _3517771_37);
+coraCall2(co, closureRef(R[0], 0), v__3518657_37, v__3518658_37);
 return;
 }
 case 2:
 {
-Obj _3517765_37= co->res;
-Obj cont1 = R[1];
-Obj conts1 = R[2];
-Obj fvs = _3517765_37;
-R[1] = fvs;
-R[2] = cont1;
-R[3] = conts1;
-saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), conts1);
+Obj v__3518652_37= co->res;
+Obj v_cont1 = R[1];
+Obj v_conts1 = R[2];
+Obj v__3517616_37 = v__3518652_37;
+R[1] = v__3517616_37;
+R[2] = v_cont1;
+R[3] = v_conts1;
+saveCont(co, clofun65, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_conts1);
 return;
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517744_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517744_37) {
-Obj _3517745_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517745_37;
-Obj _3517746_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517746_37;
-Obj _3517747_37 = makeCons(co->gc, f, args);
+Obj v__3518631_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518631_37) {
+Obj v__3518632_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517612_37 = v__3518632_37;
+Obj v__3518633_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517613_37 = v__3518633_37;
+Obj v__3518634_37 = makeCons(co->gc, v__3517612_37, v__3517613_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), _3517747_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), v__3518634_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5320,94 +5330,94 @@ return;
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516762_37 = R[1];
-Obj _3516763_37 = R[2];
-R[1] = _3516763_37;
-R[2] = _3516762_37;
-saveCont(co, clofun62, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516763_37);
+Obj v__3517386_37 = R[1];
+Obj v__3517387_37 = R[2];
+R[1] = v__3517387_37;
+R[2] = v__3517386_37;
+saveCont(co, clofun63, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517387_37);
 return;
 }
 case 1:
 {
-Obj _3517739_37= co->res;
-Obj args = R[1];
-Obj _3517740_37 = makeCons(co->gc, _3517739_37, Nil);
-Obj _3517741_37 = makeCons(co->gc, args, _3517740_37);
-Obj _3517742_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517741_37);
-coraReturn(co, _3517742_37);
+Obj v__3518626_37= co->res;
+Obj v__3517606_37 = R[1];
+Obj v__3518627_37 = makeCons(co->gc, v__3518626_37, Nil);
+Obj v__3518628_37 = makeCons(co->gc, v__3517606_37, v__3518627_37);
+Obj v__3518629_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518628_37);
+coraReturn(co, v__3518629_37);
 return;
 }
 case 2:
 {
-Obj _3517667_37= co->res;
-Obj _3516763_37 = R[1];
-Obj _3516762_37 = R[2];
-if (True == _3517667_37) {
-coraReturn(co, _3516763_37);
-return;
-} else {
-Obj _3517668_37 = primIsSymbol(_3516763_37);
-if (True == _3517668_37) {
-coraReturn(co, _3516763_37);
-return;
-} else {
-Obj _3516766_37 = makeNative(co->gc, 4, clofun61, 0, 2, _3516763_37, _3516762_37);
-Obj _3517722_37 = PRIM_ISCONS(_3516763_37);
-if (True == _3517722_37) {
-Obj _3517723_37 = PRIM_CAR(_3516763_37);
-Obj _3517724_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517723_37);
-if (True == _3517724_37) {
-Obj _3517725_37 = PRIM_CDR(_3516763_37);
-Obj _3517726_37 = PRIM_ISCONS(_3517725_37);
-if (True == _3517726_37) {
-Obj _3517727_37 = PRIM_CDR(_3516763_37);
-Obj _3517728_37 = PRIM_CAR(_3517727_37);
-Obj args = _3517728_37;
-Obj _3517729_37 = PRIM_CDR(_3516763_37);
-Obj _3517730_37 = PRIM_CDR(_3517729_37);
-Obj _3517731_37 = PRIM_ISCONS(_3517730_37);
-if (True == _3517731_37) {
-Obj _3517732_37 = PRIM_CDR(_3516763_37);
-Obj _3517733_37 = PRIM_CDR(_3517732_37);
-Obj _3517734_37 = PRIM_CAR(_3517733_37);
-Obj body = _3517734_37;
-Obj _3517735_37 = PRIM_CDR(_3516763_37);
-Obj _3517736_37 = PRIM_CDR(_3517735_37);
-Obj _3517737_37 = PRIM_CDR(_3517736_37);
-Obj _3517738_37 = PRIM_EQ(Nil, _3517737_37);
-if (True == _3517738_37) {
-R[1] = args;
-saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), _3516762_37, body);
+Obj v__3518554_37= co->res;
+Obj v__3517387_37 = R[1];
+Obj v__3517386_37 = R[2];
+if (True == v__3518554_37) {
+coraReturn(co, v__3517387_37);
+return;
+} else {
+Obj v__3518555_37 = primIsSymbol(v__3517387_37);
+if (True == v__3518555_37) {
+coraReturn(co, v__3517387_37);
+return;
+} else {
+Obj v__3517595_37 = makeNative(co->gc, 4, clofun62, 0, 2, v__3517387_37, v__3517386_37);
+Obj v__3518609_37 = PRIM_ISCONS(v__3517387_37);
+if (True == v__3518609_37) {
+Obj v__3518610_37 = PRIM_CAR(v__3517387_37);
+Obj v__3518611_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518610_37);
+if (True == v__3518611_37) {
+Obj v__3518612_37 = PRIM_CDR(v__3517387_37);
+Obj v__3518613_37 = PRIM_ISCONS(v__3518612_37);
+if (True == v__3518613_37) {
+Obj v__3518614_37 = PRIM_CDR(v__3517387_37);
+Obj v__3518615_37 = PRIM_CAR(v__3518614_37);
+Obj v__3517606_37 = v__3518615_37;
+Obj v__3518616_37 = PRIM_CDR(v__3517387_37);
+Obj v__3518617_37 = PRIM_CDR(v__3518616_37);
+Obj v__3518618_37 = PRIM_ISCONS(v__3518617_37);
+if (True == v__3518618_37) {
+Obj v__3518619_37 = PRIM_CDR(v__3517387_37);
+Obj v__3518620_37 = PRIM_CDR(v__3518619_37);
+Obj v__3518621_37 = PRIM_CAR(v__3518620_37);
+Obj v__3517607_37 = v__3518621_37;
+Obj v__3518622_37 = PRIM_CDR(v__3517387_37);
+Obj v__3518623_37 = PRIM_CDR(v__3518622_37);
+Obj v__3518624_37 = PRIM_CDR(v__3518623_37);
+Obj v__3518625_37 = PRIM_EQ(Nil, v__3518624_37);
+if (True == v__3518625_37) {
+R[1] = v__3517606_37;
+saveCont(co, clofun63, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3517386_37, v__3517607_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516766_37);
+coraCall0(co, v__3517595_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516766_37);
+coraCall0(co, v__3517595_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516766_37);
+coraCall0(co, v__3517595_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516766_37);
+coraCall0(co, v__3517595_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516766_37);
+coraCall0(co, v__3517595_37);
 return;
 }
 }
@@ -5416,235 +5426,235 @@ return;
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516767_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517697_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517697_37) {
-Obj _3517698_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517699_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517698_37);
-if (True == _3517699_37) {
-Obj _3517700_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517701_37 = PRIM_ISCONS(_3517700_37);
-if (True == _3517701_37) {
-Obj _3517702_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517703_37 = PRIM_CAR(_3517702_37);
-Obj val = _3517703_37;
-Obj _3517704_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517705_37 = PRIM_CDR(_3517704_37);
-Obj _3517706_37 = PRIM_ISCONS(_3517705_37);
-if (True == _3517706_37) {
-Obj _3517707_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517708_37 = PRIM_CDR(_3517707_37);
-Obj _3517709_37 = PRIM_CAR(_3517708_37);
-Obj body = _3517709_37;
-Obj _3517710_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517711_37 = PRIM_CDR(_3517710_37);
-Obj _3517712_37 = PRIM_CDR(_3517711_37);
-Obj _3517713_37 = PRIM_EQ(Nil, _3517712_37);
-if (True == _3517713_37) {
-R[1] = body;
-R[2] = val;
-saveCont(co, clofun61, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), body);
+Obj v__3517596_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518584_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518584_37) {
+Obj v__3518585_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518586_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518585_37);
+if (True == v__3518586_37) {
+Obj v__3518587_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518588_37 = PRIM_ISCONS(v__3518587_37);
+if (True == v__3518588_37) {
+Obj v__3518589_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518590_37 = PRIM_CAR(v__3518589_37);
+Obj v__3517602_37 = v__3518590_37;
+Obj v__3518591_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518592_37 = PRIM_CDR(v__3518591_37);
+Obj v__3518593_37 = PRIM_ISCONS(v__3518592_37);
+if (True == v__3518593_37) {
+Obj v__3518594_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518595_37 = PRIM_CDR(v__3518594_37);
+Obj v__3518596_37 = PRIM_CAR(v__3518595_37);
+Obj v__3517603_37 = v__3518596_37;
+Obj v__3518597_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518598_37 = PRIM_CDR(v__3518597_37);
+Obj v__3518599_37 = PRIM_CDR(v__3518598_37);
+Obj v__3518600_37 = PRIM_EQ(Nil, v__3518599_37);
+if (True == v__3518600_37) {
+R[1] = v__3517603_37;
+R[2] = v__3517602_37;
+saveCont(co, clofun62, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517603_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516767_37);
+coraCall0(co, v__3517596_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516767_37);
+coraCall0(co, v__3517596_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516767_37);
+coraCall0(co, v__3517596_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516767_37);
+coraCall0(co, v__3517596_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516767_37);
+coraCall0(co, v__3517596_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517718_37= co->res;
-Obj fvs2 = R[1];
-Obj val = R[2];
-Obj _3517719_37 = makeCons(co->gc, _3517718_37, fvs2);
-Obj _3517720_37 = makeCons(co->gc, val, _3517719_37);
-Obj _3517721_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3517720_37);
-coraReturn(co, _3517721_37);
+Obj v__3518605_37= co->res;
+Obj v__3517605_37 = R[1];
+Obj v__3517602_37 = R[2];
+Obj v__3518606_37 = makeCons(co->gc, v__3518605_37, v__3517605_37);
+Obj v__3518607_37 = makeCons(co->gc, v__3517602_37, v__3518606_37);
+Obj v__3518608_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3518607_37);
+coraReturn(co, v__3518608_37);
 return;
 }
 case 2:
 {
-Obj _3517717_37= co->res;
-Obj fvs1 = R[1];
-Obj body = R[2];
-Obj val = R[3];
-Obj fvs2 = _3517717_37;
-R[1] = fvs2;
-R[2] = val;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), fvs1, body);
+Obj v__3518604_37= co->res;
+Obj v__3517604_37 = R[1];
+Obj v__3517603_37 = R[2];
+Obj v__3517602_37 = R[3];
+Obj v__3517605_37 = v__3518604_37;
+R[1] = v__3517605_37;
+R[2] = v__3517602_37;
+saveCont(co, clofun62, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3517604_37, v__3517603_37);
 return;
 }
 case 3:
 {
-Obj _3517716_37= co->res;
-Obj fvs1 = R[1];
-Obj body = R[2];
-Obj val = R[3];
-R[1] = fvs1;
-R[2] = body;
-R[3] = val;
-saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517716_37, fvs1);
+Obj v__3518603_37= co->res;
+Obj v__3517604_37 = R[1];
+Obj v__3517603_37 = R[2];
+Obj v__3517602_37 = R[3];
+R[1] = v__3517604_37;
+R[2] = v__3517603_37;
+R[3] = v__3517602_37;
+saveCont(co, clofun62, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518603_37, v__3517604_37);
 return;
 }
 case 4:
 {
-Obj _3517715_37= co->res;
-Obj body = R[1];
-Obj val = R[2];
-Obj fvs1 = _3517715_37;
-R[1] = fvs1;
-R[2] = body;
-R[3] = val;
-saveCont(co, clofun61, 3, R);
+Obj v__3518602_37= co->res;
+Obj v__3517603_37 = R[1];
+Obj v__3517602_37 = R[2];
+Obj v__3517604_37 = v__3518602_37;
+R[1] = v__3517604_37;
+R[2] = v__3517603_37;
+R[3] = v__3517602_37;
+saveCont(co, clofun62, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj _3517714_37= co->res;
-Obj body = R[1];
-Obj val = R[2];
-R[1] = body;
-R[2] = val;
-saveCont(co, clofun61, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517714_37, val);
+Obj v__3518601_37= co->res;
+Obj v__3517603_37 = R[1];
+Obj v__3517602_37 = R[2];
+R[1] = v__3517603_37;
+R[2] = v__3517602_37;
+saveCont(co, clofun62, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518601_37, v__3517602_37);
 return;
 }
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516768_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517674_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517674_37) {
-Obj _3517675_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517676_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517675_37);
-if (True == _3517676_37) {
-Obj _3517677_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517678_37 = PRIM_ISCONS(_3517677_37);
-if (True == _3517678_37) {
-Obj _3517679_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517680_37 = PRIM_CAR(_3517679_37);
-Obj exp = _3517680_37;
-Obj _3517681_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517682_37 = PRIM_CDR(_3517681_37);
-Obj _3517683_37 = PRIM_ISCONS(_3517682_37);
-if (True == _3517683_37) {
-Obj _3517684_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517685_37 = PRIM_CDR(_3517684_37);
-Obj _3517686_37 = PRIM_CAR(_3517685_37);
-Obj cont = _3517686_37;
-Obj _3517687_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517688_37 = PRIM_CDR(_3517687_37);
-Obj _3517689_37 = PRIM_CDR(_3517688_37);
-Obj _3517690_37 = PRIM_EQ(Nil, _3517689_37);
-if (True == _3517690_37) {
-R[1] = exp;
-R[2] = cont;
-saveCont(co, clofun60, 3, R);
+Obj v__3517597_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518561_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518561_37) {
+Obj v__3518562_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518563_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518562_37);
+if (True == v__3518563_37) {
+Obj v__3518564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518565_37 = PRIM_ISCONS(v__3518564_37);
+if (True == v__3518565_37) {
+Obj v__3518566_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518567_37 = PRIM_CAR(v__3518566_37);
+Obj v__3517600_37 = v__3518567_37;
+Obj v__3518568_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518569_37 = PRIM_CDR(v__3518568_37);
+Obj v__3518570_37 = PRIM_ISCONS(v__3518569_37);
+if (True == v__3518570_37) {
+Obj v__3518571_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518572_37 = PRIM_CDR(v__3518571_37);
+Obj v__3518573_37 = PRIM_CAR(v__3518572_37);
+Obj v__3517601_37 = v__3518573_37;
+Obj v__3518574_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518575_37 = PRIM_CDR(v__3518574_37);
+Obj v__3518576_37 = PRIM_CDR(v__3518575_37);
+Obj v__3518577_37 = PRIM_EQ(Nil, v__3518576_37);
+if (True == v__3518577_37) {
+R[1] = v__3517600_37;
+R[2] = v__3517601_37;
+saveCont(co, clofun61, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516768_37);
+coraCall0(co, v__3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516768_37);
+coraCall0(co, v__3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516768_37);
+coraCall0(co, v__3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516768_37);
+coraCall0(co, v__3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516768_37);
+coraCall0(co, v__3517597_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517693_37= co->res;
-Obj _3517692_37 = R[1];
-Obj _3517694_37 = makeCons(co->gc, _3517693_37, Nil);
-Obj _3517695_37 = makeCons(co->gc, _3517692_37, _3517694_37);
-Obj _3517696_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517695_37);
-coraReturn(co, _3517696_37);
+Obj v__3518580_37= co->res;
+Obj v__3518579_37 = R[1];
+Obj v__3518581_37 = makeCons(co->gc, v__3518580_37, Nil);
+Obj v__3518582_37 = makeCons(co->gc, v__3518579_37, v__3518581_37);
+Obj v__3518583_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518582_37);
+coraReturn(co, v__3518583_37);
 return;
 }
 case 2:
 {
-Obj _3517692_37= co->res;
-Obj cont = R[1];
-R[1] = _3517692_37;
-saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), cont);
+Obj v__3518579_37= co->res;
+Obj v__3517601_37 = R[1];
+R[1] = v__3518579_37;
+saveCont(co, clofun61, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), v__3517601_37);
 return;
 }
 case 3:
 {
-Obj _3517691_37= co->res;
-Obj exp = R[1];
-Obj cont = R[2];
-R[1] = cont;
-saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517691_37, exp);
+Obj v__3518578_37= co->res;
+Obj v__3517600_37 = R[1];
+Obj v__3517601_37 = R[2];
+R[1] = v__3517601_37;
+saveCont(co, clofun61, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518578_37, v__3517600_37);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517669_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517669_37) {
-Obj _3517670_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517670_37;
-Obj _3517671_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517671_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun59, 1, R);
+Obj v__3518556_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518556_37) {
+Obj v__3518557_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517598_37 = v__3518557_37;
+Obj v__3518558_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517599_37 = v__3518558_37;
+R[1] = v__3517598_37;
+R[2] = v__3517599_37;
+saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 } else {
@@ -5655,39 +5665,39 @@ return;
 }
 case 1:
 {
-Obj _3517672_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3517673_37 = makeCons(co->gc, f, args);
+Obj v__3518559_37= co->res;
+Obj v__3517598_37 = R[1];
+Obj v__3517599_37 = R[2];
+Obj v__3518560_37 = makeCons(co->gc, v__3517598_37, v__3517599_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517672_37, _3517673_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518559_37, v__3518560_37);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516757_37 = R[1];
-Obj _3516758_37 = R[2];
-Obj _3516759_37 = R[3];
-Obj _3517644_37 = PRIM_EQ(Nil, _3516757_37);
-if (True == _3517644_37) {
-R[1] = _3516759_37;
-saveCont(co, clofun58, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), _3516758_37);
+Obj v__3517381_37 = R[1];
+Obj v__3517382_37 = R[2];
+Obj v__3517383_37 = R[3];
+Obj v__3518531_37 = PRIM_EQ(Nil, v__3517381_37);
+if (True == v__3518531_37) {
+R[1] = v__3517383_37;
+saveCont(co, clofun59, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517382_37);
 return;
 } else {
-Obj _3517662_37 = PRIM_ISCONS(_3516757_37);
-if (True == _3517662_37) {
-Obj _3517663_37 = PRIM_CAR(_3516757_37);
-Obj hd = _3517663_37;
-Obj _3517664_37 = PRIM_CDR(_3516757_37);
-Obj tl = _3517664_37;
+Obj v__3518549_37 = PRIM_ISCONS(v__3517381_37);
+if (True == v__3518549_37) {
+Obj v__3518550_37 = PRIM_CAR(v__3517381_37);
+Obj v__3517593_37 = v__3518550_37;
+Obj v__3518551_37 = PRIM_CDR(v__3517381_37);
+Obj v__3517594_37 = v__3518551_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), hd, makeNative(co->gc, 2, clofun57, 1, 3, tl, _3516758_37, _3516759_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517593_37, makeNative(co->gc, 2, clofun58, 1, 3, v__3517594_37, v__3517382_37, v__3517383_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5698,232 +5708,232 @@ return;
 }
 case 1:
 {
-Obj _3517660_37= co->res;
-Obj _3516844_37 = R[1];
-Obj _3517661_37 = PRIM_EQ(_3517660_37, getBinding(co, packageID, 92).name);
-if (True == _3517661_37) {
+Obj v__3518547_37= co->res;
+Obj v__3517591_37 = R[1];
+Obj v__3518548_37 = PRIM_EQ(v__3518547_37, getBinding(co, packageID, 93).name);
+if (True == v__3518548_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516844_37, True);
+coraCall1(co, v__3517591_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516844_37, False);
+coraCall1(co, v__3517591_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517659_37= co->res;
-Obj exp = R[1];
-Obj _3516844_37 = R[2];
-if (True == _3517659_37) {
-R[1] = _3516844_37;
-saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), exp);
+Obj v__3518546_37= co->res;
+Obj v__3517588_37 = R[1];
+Obj v__3517591_37 = R[2];
+if (True == v__3518546_37) {
+R[1] = v__3517591_37;
+saveCont(co, clofun59, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3517588_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516844_37, False);
+coraCall1(co, v__3517591_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517645_37= co->res;
-Obj _3516759_37 = R[1];
-Obj exp = _3517645_37;
-Obj _3516844_37 = makeNative(co->gc, 2, clofun56, 1, 2, exp, _3516759_37);
-Obj _3517658_37 = PRIM_CAR(exp);
-R[1] = exp;
-R[2] = _3516844_37;
-saveCont(co, clofun58, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517658_37);
+Obj v__3518532_37= co->res;
+Obj v__3517383_37 = R[1];
+Obj v__3517588_37 = v__3518532_37;
+Obj v__3517591_37 = makeNative(co->gc, 2, clofun57, 1, 2, v__3517588_37, v__3517383_37);
+Obj v__3518545_37 = PRIM_CAR(v__3517588_37);
+R[1] = v__3517588_37;
+R[2] = v__3517591_37;
+saveCont(co, clofun59, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3518545_37);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj hd1 = R[1];
-Obj _3517665_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj v_hd1 = R[1];
+Obj v__3518552_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), _3517665_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), v__3518552_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516845_37 = R[1];
-if (True == _3516845_37) {
+Obj v__3517590_37 = R[1];
+if (True == v__3517590_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517646_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
-if (True == _3517646_37) {
-Obj _3517647_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517648_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, _3517647_37);
-coraReturn(co, _3517648_37);
+Obj v__3518533_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
+if (True == v__3518533_37) {
+Obj v__3518534_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3518535_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3518534_37);
+coraReturn(co, v__3518535_37);
 return;
 } else {
-Obj _3517649_37 = primGenSym(co);
-Obj val = _3517649_37;
-Obj _3517650_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517650_37;
-saveCont(co, clofun56, 1, R);
-coraCall1(co, closureRef(R[0], 1), val);
+Obj v__3518536_37 = primGenSym(co);
+Obj v__3517592_37 = v__3518536_37;
+Obj v__3518537_37 = makeCons(co->gc, v__3517592_37, Nil);
+R[1] = v__3518537_37;
+saveCont(co, clofun57, 1, R);
+coraCall1(co, closureRef(R[0], 1), v__3517592_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517651_37= co->res;
-Obj _3517650_37 = R[1];
-Obj _3517652_37 = makeCons(co->gc, _3517651_37, Nil);
-Obj _3517653_37 = makeCons(co->gc, _3517650_37, _3517652_37);
-Obj _3517654_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517653_37);
-Obj _3517655_37 = makeCons(co->gc, _3517654_37, Nil);
-Obj _3517656_37 = makeCons(co->gc, closureRef(R[0], 0), _3517655_37);
-Obj _3517657_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517656_37);
-coraReturn(co, _3517657_37);
+Obj v__3518538_37= co->res;
+Obj v__3518537_37 = R[1];
+Obj v__3518539_37 = makeCons(co->gc, v__3518538_37, Nil);
+Obj v__3518540_37 = makeCons(co->gc, v__3518537_37, v__3518539_37);
+Obj v__3518541_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518540_37);
+Obj v__3518542_37 = makeCons(co->gc, v__3518541_37, Nil);
+Obj v__3518543_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518542_37);
+Obj v__3518544_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518543_37);
+coraReturn(co, v__3518544_37);
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516748_37 = R[1];
-Obj _3516749_37 = R[2];
-Obj _3516842_37 = makeNative(co->gc, 2, clofun54, 1, 2, _3516748_37, _3516749_37);
-Obj _3517641_37 = primIsSymbol(_3516748_37);
-if (True == _3517641_37) {
+Obj v__3517372_37 = R[1];
+Obj v__3517373_37 = R[2];
+Obj v__3517570_37 = makeNative(co->gc, 2, clofun55, 1, 2, v__3517372_37, v__3517373_37);
+Obj v__3518528_37 = primIsSymbol(v__3517372_37);
+if (True == v__3518528_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516842_37, True);
+coraCall1(co, v__3517570_37, True);
 return;
 } else {
-R[1] = _3516842_37;
-saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516748_37);
+R[1] = v__3517570_37;
+saveCont(co, clofun56, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517372_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517642_37= co->res;
-Obj _3516842_37 = R[1];
-if (True == _3517642_37) {
+Obj v__3518529_37= co->res;
+Obj v__3517570_37 = R[1];
+if (True == v__3518529_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516842_37, True);
+coraCall1(co, v__3517570_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516842_37, False);
+coraCall1(co, v__3517570_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516843_37 = R[1];
-if (True == _3516843_37) {
+Obj v__3517569_37 = R[1];
+if (True == v__3517569_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun54, 1, R);
+saveCont(co, clofun55, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj _3517507_37= co->res;
-if (True == _3517507_37) {
+Obj v__3518394_37= co->res;
+if (True == v__3518394_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516752_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517609_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517609_37) {
-Obj _3517610_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517611_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517610_37);
-if (True == _3517611_37) {
-Obj _3517612_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517613_37 = PRIM_ISCONS(_3517612_37);
-if (True == _3517613_37) {
-Obj _3517614_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517615_37 = PRIM_CAR(_3517614_37);
-Obj a = _3517615_37;
-Obj _3517616_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517617_37 = PRIM_CDR(_3517616_37);
-Obj _3517618_37 = PRIM_ISCONS(_3517617_37);
-if (True == _3517618_37) {
-Obj _3517619_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517620_37 = PRIM_CDR(_3517619_37);
-Obj _3517621_37 = PRIM_CAR(_3517620_37);
-Obj b = _3517621_37;
-Obj _3517622_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517623_37 = PRIM_CDR(_3517622_37);
-Obj _3517624_37 = PRIM_CDR(_3517623_37);
-Obj _3517625_37 = PRIM_ISCONS(_3517624_37);
-if (True == _3517625_37) {
-Obj _3517626_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517627_37 = PRIM_CDR(_3517626_37);
-Obj _3517628_37 = PRIM_CDR(_3517627_37);
-Obj _3517629_37 = PRIM_CAR(_3517628_37);
-Obj c = _3517629_37;
-Obj _3517630_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517631_37 = PRIM_CDR(_3517630_37);
-Obj _3517632_37 = PRIM_CDR(_3517631_37);
-Obj _3517633_37 = PRIM_CDR(_3517632_37);
-Obj _3517634_37 = PRIM_EQ(Nil, _3517633_37);
-if (True == _3517634_37) {
+Obj v__3517571_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518496_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518496_37) {
+Obj v__3518497_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518498_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518497_37);
+if (True == v__3518498_37) {
+Obj v__3518499_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518500_37 = PRIM_ISCONS(v__3518499_37);
+if (True == v__3518500_37) {
+Obj v__3518501_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518502_37 = PRIM_CAR(v__3518501_37);
+Obj v__3517585_37 = v__3518502_37;
+Obj v__3518503_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518504_37 = PRIM_CDR(v__3518503_37);
+Obj v__3518505_37 = PRIM_ISCONS(v__3518504_37);
+if (True == v__3518505_37) {
+Obj v__3518506_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518507_37 = PRIM_CDR(v__3518506_37);
+Obj v__3518508_37 = PRIM_CAR(v__3518507_37);
+Obj v__3517586_37 = v__3518508_37;
+Obj v__3518509_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518510_37 = PRIM_CDR(v__3518509_37);
+Obj v__3518511_37 = PRIM_CDR(v__3518510_37);
+Obj v__3518512_37 = PRIM_ISCONS(v__3518511_37);
+if (True == v__3518512_37) {
+Obj v__3518513_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518514_37 = PRIM_CDR(v__3518513_37);
+Obj v__3518515_37 = PRIM_CDR(v__3518514_37);
+Obj v__3518516_37 = PRIM_CAR(v__3518515_37);
+Obj v__3517587_37 = v__3518516_37;
+Obj v__3518517_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518518_37 = PRIM_CDR(v__3518517_37);
+Obj v__3518519_37 = PRIM_CDR(v__3518518_37);
+Obj v__3518520_37 = PRIM_CDR(v__3518519_37);
+Obj v__3518521_37 = PRIM_EQ(Nil, v__3518520_37);
+if (True == v__3518521_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), a, makeNative(co->gc, 3, clofun53, 1, 3, b, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517585_37, makeNative(co->gc, 3, clofun54, 1, 3, v__3517586_37, v__3517587_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v__3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v__3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v__3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v__3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v__3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, v__3517571_37);
 return;
 }
 }
@@ -5931,363 +5941,363 @@ return;
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj ra = R[1];
-R[1] = ra;
-saveCont(co, clofun53, 2, R);
+Obj v_ra = R[1];
+R[1] = v_ra;
+saveCont(co, clofun54, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517636_37= co->res;
-Obj _3517635_37 = R[1];
-Obj ra = R[2];
-Obj _3517637_37 = makeCons(co->gc, _3517636_37, Nil);
-Obj _3517638_37 = makeCons(co->gc, _3517635_37, _3517637_37);
-Obj _3517639_37 = makeCons(co->gc, ra, _3517638_37);
-Obj _3517640_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517639_37);
-coraReturn(co, _3517640_37);
+Obj v__3518523_37= co->res;
+Obj v__3518522_37 = R[1];
+Obj v_ra = R[2];
+Obj v__3518524_37 = makeCons(co->gc, v__3518523_37, Nil);
+Obj v__3518525_37 = makeCons(co->gc, v__3518522_37, v__3518524_37);
+Obj v__3518526_37 = makeCons(co->gc, v_ra, v__3518525_37);
+Obj v__3518527_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518526_37);
+coraReturn(co, v__3518527_37);
 return;
 }
 case 2:
 {
-Obj _3517635_37= co->res;
-Obj ra = R[1];
-R[1] = _3517635_37;
-R[2] = ra;
-saveCont(co, clofun53, 1, R);
+Obj v__3518522_37= co->res;
+Obj v_ra = R[1];
+R[1] = v__3518522_37;
+R[2] = v_ra;
+saveCont(co, clofun54, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516753_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517587_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517587_37) {
-Obj _3517588_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517589_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517588_37);
-if (True == _3517589_37) {
-Obj _3517590_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517591_37 = PRIM_ISCONS(_3517590_37);
-if (True == _3517591_37) {
-Obj _3517592_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517593_37 = PRIM_CAR(_3517592_37);
-Obj a = _3517593_37;
-Obj _3517594_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517595_37 = PRIM_CDR(_3517594_37);
-Obj _3517596_37 = PRIM_ISCONS(_3517595_37);
-if (True == _3517596_37) {
-Obj _3517597_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517598_37 = PRIM_CDR(_3517597_37);
-Obj _3517599_37 = PRIM_CAR(_3517598_37);
-Obj b = _3517599_37;
-Obj _3517600_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517601_37 = PRIM_CDR(_3517600_37);
-Obj _3517602_37 = PRIM_CDR(_3517601_37);
-Obj _3517603_37 = PRIM_EQ(Nil, _3517602_37);
-if (True == _3517603_37) {
+Obj v__3517572_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518474_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518474_37) {
+Obj v__3518475_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518476_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518475_37);
+if (True == v__3518476_37) {
+Obj v__3518477_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518478_37 = PRIM_ISCONS(v__3518477_37);
+if (True == v__3518478_37) {
+Obj v__3518479_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518480_37 = PRIM_CAR(v__3518479_37);
+Obj v__3517583_37 = v__3518480_37;
+Obj v__3518481_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518482_37 = PRIM_CDR(v__3518481_37);
+Obj v__3518483_37 = PRIM_ISCONS(v__3518482_37);
+if (True == v__3518483_37) {
+Obj v__3518484_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518485_37 = PRIM_CDR(v__3518484_37);
+Obj v__3518486_37 = PRIM_CAR(v__3518485_37);
+Obj v__3517584_37 = v__3518486_37;
+Obj v__3518487_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518488_37 = PRIM_CDR(v__3518487_37);
+Obj v__3518489_37 = PRIM_CDR(v__3518488_37);
+Obj v__3518490_37 = PRIM_EQ(Nil, v__3518489_37);
+if (True == v__3518490_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), a, makeNative(co->gc, 2, clofun51, 1, 2, b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517583_37, makeNative(co->gc, 2, clofun52, 1, 2, v__3517584_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj ra = R[1];
-Obj _3517604_37 = primIsSymbol(ra);
-if (True == _3517604_37) {
+Obj v_ra = R[1];
+Obj v__3518491_37 = primIsSymbol(v_ra);
+if (True == v__3518491_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = ra;
-saveCont(co, clofun51, 1, R);
+R[1] = v_ra;
+saveCont(co, clofun52, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj _3517605_37= co->res;
-Obj ra = R[1];
-Obj _3517606_37 = makeCons(co->gc, _3517605_37, Nil);
-Obj _3517607_37 = makeCons(co->gc, ra, _3517606_37);
-Obj _3517608_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517607_37);
-coraReturn(co, _3517608_37);
+Obj v__3518492_37= co->res;
+Obj v_ra = R[1];
+Obj v__3518493_37 = makeCons(co->gc, v__3518492_37, Nil);
+Obj v__3518494_37 = makeCons(co->gc, v_ra, v__3518493_37);
+Obj v__3518495_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518494_37);
+coraReturn(co, v__3518495_37);
 return;
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516754_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517556_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517556_37) {
-Obj _3517557_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517558_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517557_37);
-if (True == _3517558_37) {
-Obj _3517559_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517560_37 = PRIM_ISCONS(_3517559_37);
-if (True == _3517560_37) {
-Obj _3517561_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517562_37 = PRIM_CAR(_3517561_37);
-Obj a = _3517562_37;
-Obj _3517563_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517564_37 = PRIM_CDR(_3517563_37);
-Obj _3517565_37 = PRIM_ISCONS(_3517564_37);
-if (True == _3517565_37) {
-Obj _3517566_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517567_37 = PRIM_CDR(_3517566_37);
-Obj _3517568_37 = PRIM_CAR(_3517567_37);
-Obj b = _3517568_37;
-Obj _3517569_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517570_37 = PRIM_CDR(_3517569_37);
-Obj _3517571_37 = PRIM_CDR(_3517570_37);
-Obj _3517572_37 = PRIM_ISCONS(_3517571_37);
-if (True == _3517572_37) {
-Obj _3517573_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517574_37 = PRIM_CDR(_3517573_37);
-Obj _3517575_37 = PRIM_CDR(_3517574_37);
-Obj _3517576_37 = PRIM_CAR(_3517575_37);
-Obj c = _3517576_37;
-Obj _3517577_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517578_37 = PRIM_CDR(_3517577_37);
-Obj _3517579_37 = PRIM_CDR(_3517578_37);
-Obj _3517580_37 = PRIM_CDR(_3517579_37);
-Obj _3517581_37 = PRIM_EQ(Nil, _3517580_37);
-if (True == _3517581_37) {
+Obj v__3517573_37 = makeNative(co->gc, 3, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518443_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518443_37) {
+Obj v__3518444_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518445_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518444_37);
+if (True == v__3518445_37) {
+Obj v__3518446_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518447_37 = PRIM_ISCONS(v__3518446_37);
+if (True == v__3518447_37) {
+Obj v__3518448_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518449_37 = PRIM_CAR(v__3518448_37);
+Obj v__3517580_37 = v__3518449_37;
+Obj v__3518450_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518451_37 = PRIM_CDR(v__3518450_37);
+Obj v__3518452_37 = PRIM_ISCONS(v__3518451_37);
+if (True == v__3518452_37) {
+Obj v__3518453_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518454_37 = PRIM_CDR(v__3518453_37);
+Obj v__3518455_37 = PRIM_CAR(v__3518454_37);
+Obj v__3517581_37 = v__3518455_37;
+Obj v__3518456_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518457_37 = PRIM_CDR(v__3518456_37);
+Obj v__3518458_37 = PRIM_CDR(v__3518457_37);
+Obj v__3518459_37 = PRIM_ISCONS(v__3518458_37);
+if (True == v__3518459_37) {
+Obj v__3518460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518461_37 = PRIM_CDR(v__3518460_37);
+Obj v__3518462_37 = PRIM_CDR(v__3518461_37);
+Obj v__3518463_37 = PRIM_CAR(v__3518462_37);
+Obj v__3517582_37 = v__3518463_37;
+Obj v__3518464_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518465_37 = PRIM_CDR(v__3518464_37);
+Obj v__3518466_37 = PRIM_CDR(v__3518465_37);
+Obj v__3518467_37 = PRIM_CDR(v__3518466_37);
+Obj v__3518468_37 = PRIM_EQ(Nil, v__3518467_37);
+if (True == v__3518468_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), b, makeNative(co->gc, 2, clofun49, 1, 3, a, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517581_37, makeNative(co->gc, 2, clofun50, 1, 3, v__3517580_37, v__3517582_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516754_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516754_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516754_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516754_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516754_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516754_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rb = R[1];
-R[1] = rb;
-saveCont(co, clofun49, 1, R);
+Obj v_rb = R[1];
+R[1] = v_rb;
+saveCont(co, clofun50, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517582_37= co->res;
-Obj rb = R[1];
-Obj _3517583_37 = makeCons(co->gc, _3517582_37, Nil);
-Obj _3517584_37 = makeCons(co->gc, rb, _3517583_37);
-Obj _3517585_37 = makeCons(co->gc, closureRef(R[0], 0), _3517584_37);
-Obj _3517586_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517585_37);
-coraReturn(co, _3517586_37);
+Obj v__3518469_37= co->res;
+Obj v_rb = R[1];
+Obj v__3518470_37 = makeCons(co->gc, v__3518469_37, Nil);
+Obj v__3518471_37 = makeCons(co->gc, v_rb, v__3518470_37);
+Obj v__3518472_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518471_37);
+Obj v__3518473_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518472_37);
+coraReturn(co, v__3518473_37);
 return;
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516755_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517512_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517512_37) {
-Obj _3517513_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517514_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517513_37);
-if (True == _3517514_37) {
-Obj _3517515_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517516_37 = PRIM_ISCONS(_3517515_37);
-if (True == _3517516_37) {
-Obj _3517517_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517518_37 = PRIM_CAR(_3517517_37);
-Obj _3517519_37 = PRIM_ISCONS(_3517518_37);
-if (True == _3517519_37) {
-Obj _3517520_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517521_37 = PRIM_CAR(_3517520_37);
-Obj _3517522_37 = PRIM_CAR(_3517521_37);
-Obj _3517523_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517522_37);
-if (True == _3517523_37) {
-Obj _3517524_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517525_37 = PRIM_CAR(_3517524_37);
-Obj _3517526_37 = PRIM_CDR(_3517525_37);
-Obj _3517527_37 = PRIM_ISCONS(_3517526_37);
-if (True == _3517527_37) {
-Obj _3517528_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517529_37 = PRIM_CAR(_3517528_37);
-Obj _3517530_37 = PRIM_CDR(_3517529_37);
-Obj _3517531_37 = PRIM_CAR(_3517530_37);
-Obj args = _3517531_37;
-Obj _3517532_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517533_37 = PRIM_CAR(_3517532_37);
-Obj _3517534_37 = PRIM_CDR(_3517533_37);
-Obj _3517535_37 = PRIM_CDR(_3517534_37);
-Obj _3517536_37 = PRIM_ISCONS(_3517535_37);
-if (True == _3517536_37) {
-Obj _3517537_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517538_37 = PRIM_CAR(_3517537_37);
-Obj _3517539_37 = PRIM_CDR(_3517538_37);
-Obj _3517540_37 = PRIM_CDR(_3517539_37);
-Obj _3517541_37 = PRIM_CAR(_3517540_37);
-Obj body = _3517541_37;
-Obj _3517542_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517543_37 = PRIM_CAR(_3517542_37);
-Obj _3517544_37 = PRIM_CDR(_3517543_37);
-Obj _3517545_37 = PRIM_CDR(_3517544_37);
-Obj _3517546_37 = PRIM_CDR(_3517545_37);
-Obj _3517547_37 = PRIM_EQ(Nil, _3517546_37);
-if (True == _3517547_37) {
-Obj _3517548_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517549_37 = PRIM_CDR(_3517548_37);
-Obj frees = _3517549_37;
-R[1] = args;
-R[2] = frees;
-saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), body, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3517574_37 = makeNative(co->gc, 1, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518399_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518399_37) {
+Obj v__3518400_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518401_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518400_37);
+if (True == v__3518401_37) {
+Obj v__3518402_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518403_37 = PRIM_ISCONS(v__3518402_37);
+if (True == v__3518403_37) {
+Obj v__3518404_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518405_37 = PRIM_CAR(v__3518404_37);
+Obj v__3518406_37 = PRIM_ISCONS(v__3518405_37);
+if (True == v__3518406_37) {
+Obj v__3518407_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518408_37 = PRIM_CAR(v__3518407_37);
+Obj v__3518409_37 = PRIM_CAR(v__3518408_37);
+Obj v__3518410_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518409_37);
+if (True == v__3518410_37) {
+Obj v__3518411_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518412_37 = PRIM_CAR(v__3518411_37);
+Obj v__3518413_37 = PRIM_CDR(v__3518412_37);
+Obj v__3518414_37 = PRIM_ISCONS(v__3518413_37);
+if (True == v__3518414_37) {
+Obj v__3518415_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518416_37 = PRIM_CAR(v__3518415_37);
+Obj v__3518417_37 = PRIM_CDR(v__3518416_37);
+Obj v__3518418_37 = PRIM_CAR(v__3518417_37);
+Obj v__3517577_37 = v__3518418_37;
+Obj v__3518419_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518420_37 = PRIM_CAR(v__3518419_37);
+Obj v__3518421_37 = PRIM_CDR(v__3518420_37);
+Obj v__3518422_37 = PRIM_CDR(v__3518421_37);
+Obj v__3518423_37 = PRIM_ISCONS(v__3518422_37);
+if (True == v__3518423_37) {
+Obj v__3518424_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518425_37 = PRIM_CAR(v__3518424_37);
+Obj v__3518426_37 = PRIM_CDR(v__3518425_37);
+Obj v__3518427_37 = PRIM_CDR(v__3518426_37);
+Obj v__3518428_37 = PRIM_CAR(v__3518427_37);
+Obj v__3517578_37 = v__3518428_37;
+Obj v__3518429_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518430_37 = PRIM_CAR(v__3518429_37);
+Obj v__3518431_37 = PRIM_CDR(v__3518430_37);
+Obj v__3518432_37 = PRIM_CDR(v__3518431_37);
+Obj v__3518433_37 = PRIM_CDR(v__3518432_37);
+Obj v__3518434_37 = PRIM_EQ(Nil, v__3518433_37);
+if (True == v__3518434_37) {
+Obj v__3518435_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518436_37 = PRIM_CDR(v__3518435_37);
+Obj v__3517579_37 = v__3518436_37;
+R[1] = v__3517577_37;
+R[2] = v__3517579_37;
+saveCont(co, clofun49, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517578_37, globalRef(co, getBinding(co, packageID, 72)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516755_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517550_37= co->res;
-Obj args = R[1];
-Obj frees = R[2];
-Obj _3517551_37 = makeCons(co->gc, _3517550_37, Nil);
-Obj _3517552_37 = makeCons(co->gc, args, _3517551_37);
-Obj _3517553_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517552_37);
-Obj _3517554_37 = makeCons(co->gc, _3517553_37, frees);
-Obj _3517555_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3517554_37);
+Obj v__3518437_37= co->res;
+Obj v__3517577_37 = R[1];
+Obj v__3517579_37 = R[2];
+Obj v__3518438_37 = makeCons(co->gc, v__3518437_37, Nil);
+Obj v__3518439_37 = makeCons(co->gc, v__3517577_37, v__3518438_37);
+Obj v__3518440_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518439_37);
+Obj v__3518441_37 = makeCons(co->gc, v__3518440_37, v__3517579_37);
+Obj v__3518442_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518441_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517555_37);
+coraCall1(co, closureRef(R[0], 1), v__3518442_37);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517508_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517508_37) {
-Obj _3517509_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517509_37;
-Obj _3517510_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517510_37;
-Obj _3517511_37 = makeCons(co->gc, f, args);
+Obj v__3518395_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518395_37) {
+Obj v__3518396_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517575_37 = v__3518396_37;
+Obj v__3518397_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517576_37 = v__3518397_37;
+Obj v__3518398_37 = makeCons(co->gc, v__3517575_37, v__3517576_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), _3517511_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), v__3518398_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6298,168 +6308,168 @@ return;
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3517504_37 = makeCons(co->gc, x, Nil);
-Obj _3517505_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517504_37);
-coraReturn(co, _3517505_37);
+Obj v_x = R[1];
+Obj v__3518391_37 = makeCons(co->gc, v_x, Nil);
+Obj v__3518392_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518391_37);
+coraReturn(co, v__3518392_37);
 return;
 }
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516741_37 = R[1];
-Obj _3516742_37 = R[2];
-R[1] = _3516742_37;
-R[2] = _3516741_37;
-saveCont(co, clofun45, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516742_37);
+Obj v__3517365_37 = R[1];
+Obj v__3517366_37 = R[2];
+R[1] = v__3517366_37;
+R[2] = v__3517365_37;
+saveCont(co, clofun46, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517366_37);
 return;
 }
 case 1:
 {
-Obj _3517431_37= co->res;
-Obj _3516742_37 = R[1];
-Obj pos = _3517431_37;
-Obj _3517432_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517432_37) {
-coraReturn(co, _3516742_37);
+Obj v__3518318_37= co->res;
+Obj v__3517366_37 = R[1];
+Obj v__3517557_37 = v__3518318_37;
+Obj v__3518319_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517557_37);
+if (True == v__3518319_37) {
+coraReturn(co, v__3517366_37);
 return;
 } else {
-Obj _3517433_37 = makeCons(co->gc, pos, Nil);
-Obj _3517434_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, _3517433_37);
-coraReturn(co, _3517434_37);
+Obj v__3518320_37 = makeCons(co->gc, v__3517557_37, Nil);
+Obj v__3518321_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, v__3518320_37);
+coraReturn(co, v__3518321_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517500_37= co->res;
-Obj _3517498_37 = R[1];
-Obj _3517501_37 = makeCons(co->gc, _3517498_37, _3517500_37);
-Obj _3517502_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3517501_37);
-coraReturn(co, _3517502_37);
+Obj v__3518387_37= co->res;
+Obj v__3518385_37 = R[1];
+Obj v__3518388_37 = makeCons(co->gc, v__3518385_37, v__3518387_37);
+Obj v__3518389_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518388_37);
+coraReturn(co, v__3518389_37);
 return;
 }
 case 3:
 {
-Obj _3517499_37= co->res;
-Obj fvs1 = R[1];
-Obj _3517498_37 = R[2];
-R[1] = _3517498_37;
-saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517499_37, fvs1);
+Obj v__3518386_37= co->res;
+Obj v__3517567_37 = R[1];
+Obj v__3518385_37 = R[2];
+R[1] = v__3518385_37;
+saveCont(co, clofun46, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518386_37, v__3517567_37);
 return;
 }
 case 4:
 {
-Obj _3517495_37= co->res;
-Obj args = R[1];
-Obj _3516741_37 = R[2];
-Obj fvs1 = R[3];
-Obj _3517496_37 = makeCons(co->gc, _3517495_37, Nil);
-Obj _3517497_37 = makeCons(co->gc, args, _3517496_37);
-Obj _3517498_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517497_37);
-R[1] = fvs1;
-R[2] = _3517498_37;
-saveCont(co, clofun45, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), _3516741_37);
+Obj v__3518382_37= co->res;
+Obj v__3517565_37 = R[1];
+Obj v__3517365_37 = R[2];
+Obj v__3517567_37 = R[3];
+Obj v__3518383_37 = makeCons(co->gc, v__3518382_37, Nil);
+Obj v__3518384_37 = makeCons(co->gc, v__3517565_37, v__3518383_37);
+Obj v__3518385_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518384_37);
+R[1] = v__3517567_37;
+R[2] = v__3518385_37;
+saveCont(co, clofun46, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), v__3517365_37);
 return;
 }
 case 5:
 {
-Obj _3517494_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-Obj _3516741_37 = R[3];
-Obj fvs1 = _3517494_37;
-R[1] = args;
-R[2] = _3516741_37;
-R[3] = fvs1;
-saveCont(co, clofun45, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), fvs1, body);
+Obj v__3518381_37= co->res;
+Obj v__3517566_37 = R[1];
+Obj v__3517565_37 = R[2];
+Obj v__3517365_37 = R[3];
+Obj v__3517567_37 = v__3518381_37;
+R[1] = v__3517565_37;
+R[2] = v__3517365_37;
+R[3] = v__3517567_37;
+saveCont(co, clofun46, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3517567_37, v__3517566_37);
 return;
 }
 case 6:
 {
-Obj _3517429_37= co->res;
-Obj _3516742_37 = R[1];
-Obj _3516741_37 = R[2];
-if (True == _3517429_37) {
-coraReturn(co, _3516742_37);
+Obj v__3518316_37= co->res;
+Obj v__3517366_37 = R[1];
+Obj v__3517365_37 = R[2];
+if (True == v__3518316_37) {
+coraReturn(co, v__3517366_37);
 return;
 } else {
-Obj _3517430_37 = primIsSymbol(_3516742_37);
-if (True == _3517430_37) {
-R[1] = _3516742_37;
-saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), _3516742_37, _3516741_37);
+Obj v__3518317_37 = primIsSymbol(v__3517366_37);
+if (True == v__3518317_37) {
+R[1] = v__3517366_37;
+saveCont(co, clofun46, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3517366_37, v__3517365_37);
 return;
 } else {
-Obj _3516745_37 = makeNative(co->gc, 4, clofun44, 0, 2, _3516742_37, _3516741_37);
-Obj _3517474_37 = PRIM_ISCONS(_3516742_37);
-if (True == _3517474_37) {
-Obj _3517475_37 = PRIM_CAR(_3516742_37);
-Obj _3517476_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517475_37);
-if (True == _3517476_37) {
-Obj _3517477_37 = PRIM_CDR(_3516742_37);
-Obj _3517478_37 = PRIM_ISCONS(_3517477_37);
-if (True == _3517478_37) {
-Obj _3517479_37 = PRIM_CDR(_3516742_37);
-Obj _3517480_37 = PRIM_CAR(_3517479_37);
-Obj args = _3517480_37;
-Obj _3517481_37 = PRIM_CDR(_3516742_37);
-Obj _3517482_37 = PRIM_CDR(_3517481_37);
-Obj _3517483_37 = PRIM_ISCONS(_3517482_37);
-if (True == _3517483_37) {
-Obj _3517484_37 = PRIM_CDR(_3516742_37);
-Obj _3517485_37 = PRIM_CDR(_3517484_37);
-Obj _3517486_37 = PRIM_CAR(_3517485_37);
-Obj body = _3517486_37;
-Obj _3517487_37 = PRIM_CDR(_3516742_37);
-Obj _3517488_37 = PRIM_CDR(_3517487_37);
-Obj _3517489_37 = PRIM_CDR(_3517488_37);
-Obj _3517490_37 = PRIM_EQ(Nil, _3517489_37);
-if (True == _3517490_37) {
-Obj _3517491_37 = makeCons(co->gc, body, Nil);
-Obj _3517492_37 = makeCons(co->gc, args, _3517491_37);
-Obj _3517493_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517492_37);
-R[1] = body;
-R[2] = args;
-R[3] = _3516741_37;
-saveCont(co, clofun45, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), _3517493_37);
+Obj v__3517558_37 = makeNative(co->gc, 4, clofun45, 0, 2, v__3517366_37, v__3517365_37);
+Obj v__3518361_37 = PRIM_ISCONS(v__3517366_37);
+if (True == v__3518361_37) {
+Obj v__3518362_37 = PRIM_CAR(v__3517366_37);
+Obj v__3518363_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518362_37);
+if (True == v__3518363_37) {
+Obj v__3518364_37 = PRIM_CDR(v__3517366_37);
+Obj v__3518365_37 = PRIM_ISCONS(v__3518364_37);
+if (True == v__3518365_37) {
+Obj v__3518366_37 = PRIM_CDR(v__3517366_37);
+Obj v__3518367_37 = PRIM_CAR(v__3518366_37);
+Obj v__3517565_37 = v__3518367_37;
+Obj v__3518368_37 = PRIM_CDR(v__3517366_37);
+Obj v__3518369_37 = PRIM_CDR(v__3518368_37);
+Obj v__3518370_37 = PRIM_ISCONS(v__3518369_37);
+if (True == v__3518370_37) {
+Obj v__3518371_37 = PRIM_CDR(v__3517366_37);
+Obj v__3518372_37 = PRIM_CDR(v__3518371_37);
+Obj v__3518373_37 = PRIM_CAR(v__3518372_37);
+Obj v__3517566_37 = v__3518373_37;
+Obj v__3518374_37 = PRIM_CDR(v__3517366_37);
+Obj v__3518375_37 = PRIM_CDR(v__3518374_37);
+Obj v__3518376_37 = PRIM_CDR(v__3518375_37);
+Obj v__3518377_37 = PRIM_EQ(Nil, v__3518376_37);
+if (True == v__3518377_37) {
+Obj v__3518378_37 = makeCons(co->gc, v__3517566_37, Nil);
+Obj v__3518379_37 = makeCons(co->gc, v__3517565_37, v__3518378_37);
+Obj v__3518380_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518379_37);
+R[1] = v__3517566_37;
+R[2] = v__3517565_37;
+R[3] = v__3517365_37;
+saveCont(co, clofun46, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3518380_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v__3517558_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v__3517558_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v__3517558_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v__3517558_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, v__3517558_37);
 return;
 }
 }
@@ -6468,151 +6478,151 @@ return;
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516746_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517440_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517440_37) {
-Obj _3517441_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517442_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517441_37);
-if (True == _3517442_37) {
-Obj _3517443_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517444_37 = PRIM_ISCONS(_3517443_37);
-if (True == _3517444_37) {
-Obj _3517445_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517446_37 = PRIM_CAR(_3517445_37);
-Obj a = _3517446_37;
-Obj _3517447_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517448_37 = PRIM_CDR(_3517447_37);
-Obj _3517449_37 = PRIM_ISCONS(_3517448_37);
-if (True == _3517449_37) {
-Obj _3517450_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517451_37 = PRIM_CDR(_3517450_37);
-Obj _3517452_37 = PRIM_CAR(_3517451_37);
-Obj b = _3517452_37;
-Obj _3517453_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517454_37 = PRIM_CDR(_3517453_37);
-Obj _3517455_37 = PRIM_CDR(_3517454_37);
-Obj _3517456_37 = PRIM_ISCONS(_3517455_37);
-if (True == _3517456_37) {
-Obj _3517457_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517458_37 = PRIM_CDR(_3517457_37);
-Obj _3517459_37 = PRIM_CDR(_3517458_37);
-Obj _3517460_37 = PRIM_CAR(_3517459_37);
-Obj c = _3517460_37;
-Obj _3517461_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517462_37 = PRIM_CDR(_3517461_37);
-Obj _3517463_37 = PRIM_CDR(_3517462_37);
-Obj _3517464_37 = PRIM_CDR(_3517463_37);
-Obj _3517465_37 = PRIM_EQ(Nil, _3517464_37);
-if (True == _3517465_37) {
-R[1] = c;
-R[2] = a;
-saveCont(co, clofun44, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), b);
+Obj v__3517559_37 = makeNative(co->gc, 3, clofun43, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518327_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518327_37) {
+Obj v__3518328_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518329_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518328_37);
+if (True == v__3518329_37) {
+Obj v__3518330_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518331_37 = PRIM_ISCONS(v__3518330_37);
+if (True == v__3518331_37) {
+Obj v__3518332_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518333_37 = PRIM_CAR(v__3518332_37);
+Obj v__3517562_37 = v__3518333_37;
+Obj v__3518334_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518335_37 = PRIM_CDR(v__3518334_37);
+Obj v__3518336_37 = PRIM_ISCONS(v__3518335_37);
+if (True == v__3518336_37) {
+Obj v__3518337_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518338_37 = PRIM_CDR(v__3518337_37);
+Obj v__3518339_37 = PRIM_CAR(v__3518338_37);
+Obj v__3517563_37 = v__3518339_37;
+Obj v__3518340_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518341_37 = PRIM_CDR(v__3518340_37);
+Obj v__3518342_37 = PRIM_CDR(v__3518341_37);
+Obj v__3518343_37 = PRIM_ISCONS(v__3518342_37);
+if (True == v__3518343_37) {
+Obj v__3518344_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518345_37 = PRIM_CDR(v__3518344_37);
+Obj v__3518346_37 = PRIM_CDR(v__3518345_37);
+Obj v__3518347_37 = PRIM_CAR(v__3518346_37);
+Obj v__3517564_37 = v__3518347_37;
+Obj v__3518348_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518349_37 = PRIM_CDR(v__3518348_37);
+Obj v__3518350_37 = PRIM_CDR(v__3518349_37);
+Obj v__3518351_37 = PRIM_CDR(v__3518350_37);
+Obj v__3518352_37 = PRIM_EQ(Nil, v__3518351_37);
+if (True == v__3518352_37) {
+R[1] = v__3517564_37;
+R[2] = v__3517562_37;
+saveCont(co, clofun45, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), v__3517563_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, v__3517559_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, v__3517559_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, v__3517559_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, v__3517559_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, v__3517559_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, v__3517559_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517469_37= co->res;
-Obj _3517466_37 = R[1];
-Obj a = R[2];
-Obj _3517470_37 = makeCons(co->gc, _3517469_37, Nil);
-Obj _3517471_37 = makeCons(co->gc, _3517466_37, _3517470_37);
-Obj _3517472_37 = makeCons(co->gc, a, _3517471_37);
-Obj _3517473_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517472_37);
-coraReturn(co, _3517473_37);
+Obj v__3518356_37= co->res;
+Obj v__3518353_37 = R[1];
+Obj v__3517562_37 = R[2];
+Obj v__3518357_37 = makeCons(co->gc, v__3518356_37, Nil);
+Obj v__3518358_37 = makeCons(co->gc, v__3518353_37, v__3518357_37);
+Obj v__3518359_37 = makeCons(co->gc, v__3517562_37, v__3518358_37);
+Obj v__3518360_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518359_37);
+coraReturn(co, v__3518360_37);
 return;
 }
 case 2:
 {
-Obj _3517468_37= co->res;
-Obj c = R[1];
-Obj _3517466_37 = R[2];
-Obj a = R[3];
-R[1] = _3517466_37;
-R[2] = a;
-saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), _3517468_37, c);
+Obj v__3518355_37= co->res;
+Obj v__3517564_37 = R[1];
+Obj v__3518353_37 = R[2];
+Obj v__3517562_37 = R[3];
+R[1] = v__3518353_37;
+R[2] = v__3517562_37;
+saveCont(co, clofun45, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3518355_37, v__3517564_37);
 return;
 }
 case 3:
 {
-Obj _3517466_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-R[1] = c;
-R[2] = _3517466_37;
-R[3] = a;
-saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun43, 1, 1, a), closureRef(R[0], 1));
+Obj v__3518353_37= co->res;
+Obj v__3517564_37 = R[1];
+Obj v__3517562_37 = R[2];
+R[1] = v__3517564_37;
+R[2] = v__3518353_37;
+R[3] = v__3517562_37;
+saveCont(co, clofun45, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), makeNative(co->gc, 2, clofun44, 1, 1, v__3517562_37), closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3517467_37 = PRIM_EQ(x, closureRef(R[0], 0));
-if (True == _3517467_37) {
+Obj v_x = R[1];
+Obj v__3518354_37 = PRIM_EQ(v_x, closureRef(R[0], 0));
+if (True == v__3518354_37) {
 coraReturn(co, Nil);
 return;
 } else {
-coraReturn(co, x);
+coraReturn(co, v_x);
 return;
 }
 }
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517435_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517435_37) {
-Obj _3517436_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517436_37;
-Obj _3517437_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517437_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun42, 1, R);
+Obj v__3518322_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518322_37) {
+Obj v__3518323_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517560_37 = v__3518323_37;
+Obj v__3518324_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517561_37 = v__3518324_37;
+R[1] = v__3517560_37;
+R[2] = v__3517561_37;
+saveCont(co, clofun43, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1));
 return;
 } else {
@@ -6623,101 +6633,101 @@ return;
 }
 case 1:
 {
-Obj _3517438_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3517439_37 = makeCons(co->gc, f, args);
+Obj v__3518325_37= co->res;
+Obj v__3517560_37 = R[1];
+Obj v__3517561_37 = R[2];
+Obj v__3518326_37 = makeCons(co->gc, v__3517560_37, v__3517561_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517438_37, _3517439_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518325_37, v__3518326_37);
 return;
 }
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516728_37 = R[1];
-R[1] = _3516728_37;
-saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), _3516728_37);
+Obj v__3517352_37 = R[1];
+R[1] = v__3517352_37;
+saveCont(co, clofun42, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517352_37);
 return;
 }
 case 1:
 {
-Obj _3517427_37= co->res;
-Obj args = R[1];
+Obj v__3518314_37= co->res;
+Obj v__3517555_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517427_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518314_37, v__3517555_37);
 return;
 }
 case 2:
 {
-Obj _3517254_37= co->res;
-Obj _3516728_37 = R[1];
-if (True == _3517254_37) {
+Obj v__3518141_37= co->res;
+Obj v__3517352_37 = R[1];
+if (True == v__3518141_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517255_37 = primIsSymbol(_3516728_37);
-if (True == _3517255_37) {
-Obj _3517256_37 = makeCons(co->gc, _3516728_37, Nil);
-coraReturn(co, _3517256_37);
-return;
-} else {
-Obj _3516731_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516728_37);
-Obj _3517410_37 = PRIM_ISCONS(_3516728_37);
-if (True == _3517410_37) {
-Obj _3517411_37 = PRIM_CAR(_3516728_37);
-Obj _3517412_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517411_37);
-if (True == _3517412_37) {
-Obj _3517413_37 = PRIM_CDR(_3516728_37);
-Obj _3517414_37 = PRIM_ISCONS(_3517413_37);
-if (True == _3517414_37) {
-Obj _3517415_37 = PRIM_CDR(_3516728_37);
-Obj _3517416_37 = PRIM_CAR(_3517415_37);
-Obj args = _3517416_37;
-Obj _3517417_37 = PRIM_CDR(_3516728_37);
-Obj _3517418_37 = PRIM_CDR(_3517417_37);
-Obj _3517419_37 = PRIM_ISCONS(_3517418_37);
-if (True == _3517419_37) {
-Obj _3517420_37 = PRIM_CDR(_3516728_37);
-Obj _3517421_37 = PRIM_CDR(_3517420_37);
-Obj _3517422_37 = PRIM_CAR(_3517421_37);
-Obj body = _3517422_37;
-Obj _3517423_37 = PRIM_CDR(_3516728_37);
-Obj _3517424_37 = PRIM_CDR(_3517423_37);
-Obj _3517425_37 = PRIM_CDR(_3517424_37);
-Obj _3517426_37 = PRIM_EQ(Nil, _3517425_37);
-if (True == _3517426_37) {
-R[1] = args;
-saveCont(co, clofun41, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), body);
+Obj v__3518142_37 = primIsSymbol(v__3517352_37);
+if (True == v__3518142_37) {
+Obj v__3518143_37 = makeCons(co->gc, v__3517352_37, Nil);
+coraReturn(co, v__3518143_37);
+return;
+} else {
+Obj v__3517528_37 = makeNative(co->gc, 1, clofun41, 0, 1, v__3517352_37);
+Obj v__3518297_37 = PRIM_ISCONS(v__3517352_37);
+if (True == v__3518297_37) {
+Obj v__3518298_37 = PRIM_CAR(v__3517352_37);
+Obj v__3518299_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518298_37);
+if (True == v__3518299_37) {
+Obj v__3518300_37 = PRIM_CDR(v__3517352_37);
+Obj v__3518301_37 = PRIM_ISCONS(v__3518300_37);
+if (True == v__3518301_37) {
+Obj v__3518302_37 = PRIM_CDR(v__3517352_37);
+Obj v__3518303_37 = PRIM_CAR(v__3518302_37);
+Obj v__3517555_37 = v__3518303_37;
+Obj v__3518304_37 = PRIM_CDR(v__3517352_37);
+Obj v__3518305_37 = PRIM_CDR(v__3518304_37);
+Obj v__3518306_37 = PRIM_ISCONS(v__3518305_37);
+if (True == v__3518306_37) {
+Obj v__3518307_37 = PRIM_CDR(v__3517352_37);
+Obj v__3518308_37 = PRIM_CDR(v__3518307_37);
+Obj v__3518309_37 = PRIM_CAR(v__3518308_37);
+Obj v__3517556_37 = v__3518309_37;
+Obj v__3518310_37 = PRIM_CDR(v__3517352_37);
+Obj v__3518311_37 = PRIM_CDR(v__3518310_37);
+Obj v__3518312_37 = PRIM_CDR(v__3518311_37);
+Obj v__3518313_37 = PRIM_EQ(Nil, v__3518312_37);
+if (True == v__3518313_37) {
+R[1] = v__3517555_37;
+saveCont(co, clofun42, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517556_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516731_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516731_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516731_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516731_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516731_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 }
@@ -6726,561 +6736,561 @@ return;
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516732_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517380_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517380_37) {
-Obj _3517381_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517382_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517381_37);
-if (True == _3517382_37) {
-Obj _3517383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517384_37 = PRIM_ISCONS(_3517383_37);
-if (True == _3517384_37) {
-Obj _3517385_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517386_37 = PRIM_CAR(_3517385_37);
-Obj x = _3517386_37;
-Obj _3517387_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517388_37 = PRIM_CDR(_3517387_37);
-Obj _3517389_37 = PRIM_ISCONS(_3517388_37);
-if (True == _3517389_37) {
-Obj _3517390_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517391_37 = PRIM_CDR(_3517390_37);
-Obj _3517392_37 = PRIM_CAR(_3517391_37);
-Obj y = _3517392_37;
-Obj _3517393_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517394_37 = PRIM_CDR(_3517393_37);
-Obj _3517395_37 = PRIM_CDR(_3517394_37);
-Obj _3517396_37 = PRIM_ISCONS(_3517395_37);
-if (True == _3517396_37) {
-Obj _3517397_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517398_37 = PRIM_CDR(_3517397_37);
-Obj _3517399_37 = PRIM_CDR(_3517398_37);
-Obj _3517400_37 = PRIM_CAR(_3517399_37);
-Obj z = _3517400_37;
-Obj _3517401_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517402_37 = PRIM_CDR(_3517401_37);
-Obj _3517403_37 = PRIM_CDR(_3517402_37);
-Obj _3517404_37 = PRIM_CDR(_3517403_37);
-Obj _3517405_37 = PRIM_EQ(Nil, _3517404_37);
-if (True == _3517405_37) {
-Obj _3517406_37 = makeCons(co->gc, z, Nil);
-Obj _3517407_37 = makeCons(co->gc, y, _3517406_37);
-Obj _3517408_37 = makeCons(co->gc, x, _3517407_37);
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), _3517408_37);
+Obj v__3517529_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3518267_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518267_37) {
+Obj v__3518268_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518269_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518268_37);
+if (True == v__3518269_37) {
+Obj v__3518270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518271_37 = PRIM_ISCONS(v__3518270_37);
+if (True == v__3518271_37) {
+Obj v__3518272_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518273_37 = PRIM_CAR(v__3518272_37);
+Obj v__3517552_37 = v__3518273_37;
+Obj v__3518274_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518275_37 = PRIM_CDR(v__3518274_37);
+Obj v__3518276_37 = PRIM_ISCONS(v__3518275_37);
+if (True == v__3518276_37) {
+Obj v__3518277_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518278_37 = PRIM_CDR(v__3518277_37);
+Obj v__3518279_37 = PRIM_CAR(v__3518278_37);
+Obj v__3517553_37 = v__3518279_37;
+Obj v__3518280_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518281_37 = PRIM_CDR(v__3518280_37);
+Obj v__3518282_37 = PRIM_CDR(v__3518281_37);
+Obj v__3518283_37 = PRIM_ISCONS(v__3518282_37);
+if (True == v__3518283_37) {
+Obj v__3518284_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518285_37 = PRIM_CDR(v__3518284_37);
+Obj v__3518286_37 = PRIM_CDR(v__3518285_37);
+Obj v__3518287_37 = PRIM_CAR(v__3518286_37);
+Obj v__3517554_37 = v__3518287_37;
+Obj v__3518288_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518289_37 = PRIM_CDR(v__3518288_37);
+Obj v__3518290_37 = PRIM_CDR(v__3518289_37);
+Obj v__3518291_37 = PRIM_CDR(v__3518290_37);
+Obj v__3518292_37 = PRIM_EQ(Nil, v__3518291_37);
+if (True == v__3518292_37) {
+Obj v__3518293_37 = makeCons(co->gc, v__3517554_37, Nil);
+Obj v__3518294_37 = makeCons(co->gc, v__3517553_37, v__3518293_37);
+Obj v__3518295_37 = makeCons(co->gc, v__3517552_37, v__3518294_37);
+saveCont(co, clofun41, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), globalRef(co, getBinding(co, packageID, 78)), v__3518295_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v__3517529_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v__3517529_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v__3517529_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v__3517529_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v__3517529_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, v__3517529_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517409_37= co->res;
+Obj v__3518296_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 83)), Nil, _3517409_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518296_37);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
+static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516733_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517360_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517360_37) {
-Obj _3517361_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517362_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517361_37);
-if (True == _3517362_37) {
-Obj _3517363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517364_37 = PRIM_ISCONS(_3517363_37);
-if (True == _3517364_37) {
-Obj _3517365_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517366_37 = PRIM_CAR(_3517365_37);
-Obj x = _3517366_37;
-Obj _3517367_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517368_37 = PRIM_CDR(_3517367_37);
-Obj _3517369_37 = PRIM_ISCONS(_3517368_37);
-if (True == _3517369_37) {
-Obj _3517370_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517371_37 = PRIM_CDR(_3517370_37);
-Obj _3517372_37 = PRIM_CAR(_3517371_37);
-Obj y = _3517372_37;
-Obj _3517373_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517374_37 = PRIM_CDR(_3517373_37);
-Obj _3517375_37 = PRIM_CDR(_3517374_37);
-Obj _3517376_37 = PRIM_EQ(Nil, _3517375_37);
-if (True == _3517376_37) {
-Obj _3517377_37 = makeCons(co->gc, y, Nil);
-Obj _3517378_37 = makeCons(co->gc, x, _3517377_37);
-saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), _3517378_37);
+Obj v__3517530_37 = makeNative(co->gc, 3, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3518247_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518247_37) {
+Obj v__3518248_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518249_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518248_37);
+if (True == v__3518249_37) {
+Obj v__3518250_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518251_37 = PRIM_ISCONS(v__3518250_37);
+if (True == v__3518251_37) {
+Obj v__3518252_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518253_37 = PRIM_CAR(v__3518252_37);
+Obj v__3517550_37 = v__3518253_37;
+Obj v__3518254_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518255_37 = PRIM_CDR(v__3518254_37);
+Obj v__3518256_37 = PRIM_ISCONS(v__3518255_37);
+if (True == v__3518256_37) {
+Obj v__3518257_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518258_37 = PRIM_CDR(v__3518257_37);
+Obj v__3518259_37 = PRIM_CAR(v__3518258_37);
+Obj v__3517551_37 = v__3518259_37;
+Obj v__3518260_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518261_37 = PRIM_CDR(v__3518260_37);
+Obj v__3518262_37 = PRIM_CDR(v__3518261_37);
+Obj v__3518263_37 = PRIM_EQ(Nil, v__3518262_37);
+if (True == v__3518263_37) {
+Obj v__3518264_37 = makeCons(co->gc, v__3517551_37, Nil);
+Obj v__3518265_37 = makeCons(co->gc, v__3517550_37, v__3518264_37);
+saveCont(co, clofun40, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), globalRef(co, getBinding(co, packageID, 78)), v__3518265_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517379_37= co->res;
+Obj v__3518266_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 83)), Nil, _3517379_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518266_37);
 return;
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516734_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517330_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517330_37) {
-Obj _3517331_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517332_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517331_37);
-if (True == _3517332_37) {
-Obj _3517333_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517334_37 = PRIM_ISCONS(_3517333_37);
-if (True == _3517334_37) {
-Obj _3517335_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517336_37 = PRIM_CAR(_3517335_37);
-Obj a = _3517336_37;
-Obj _3517337_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517338_37 = PRIM_CDR(_3517337_37);
-Obj _3517339_37 = PRIM_ISCONS(_3517338_37);
-if (True == _3517339_37) {
-Obj _3517340_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517341_37 = PRIM_CDR(_3517340_37);
-Obj _3517342_37 = PRIM_CAR(_3517341_37);
-Obj b = _3517342_37;
-Obj _3517343_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517344_37 = PRIM_CDR(_3517343_37);
-Obj _3517345_37 = PRIM_CDR(_3517344_37);
-Obj _3517346_37 = PRIM_ISCONS(_3517345_37);
-if (True == _3517346_37) {
-Obj _3517347_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517348_37 = PRIM_CDR(_3517347_37);
-Obj _3517349_37 = PRIM_CDR(_3517348_37);
-Obj _3517350_37 = PRIM_CAR(_3517349_37);
-Obj c = _3517350_37;
-Obj _3517351_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517352_37 = PRIM_CDR(_3517351_37);
-Obj _3517353_37 = PRIM_CDR(_3517352_37);
-Obj _3517354_37 = PRIM_CDR(_3517353_37);
-Obj _3517355_37 = PRIM_EQ(Nil, _3517354_37);
-if (True == _3517355_37) {
-R[1] = c;
-R[2] = a;
-saveCont(co, clofun38, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), b);
+Obj v__3517531_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3518217_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518217_37) {
+Obj v__3518218_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518219_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518218_37);
+if (True == v__3518219_37) {
+Obj v__3518220_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518221_37 = PRIM_ISCONS(v__3518220_37);
+if (True == v__3518221_37) {
+Obj v__3518222_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518223_37 = PRIM_CAR(v__3518222_37);
+Obj v__3517547_37 = v__3518223_37;
+Obj v__3518224_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518225_37 = PRIM_CDR(v__3518224_37);
+Obj v__3518226_37 = PRIM_ISCONS(v__3518225_37);
+if (True == v__3518226_37) {
+Obj v__3518227_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518228_37 = PRIM_CDR(v__3518227_37);
+Obj v__3518229_37 = PRIM_CAR(v__3518228_37);
+Obj v__3517548_37 = v__3518229_37;
+Obj v__3518230_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518231_37 = PRIM_CDR(v__3518230_37);
+Obj v__3518232_37 = PRIM_CDR(v__3518231_37);
+Obj v__3518233_37 = PRIM_ISCONS(v__3518232_37);
+if (True == v__3518233_37) {
+Obj v__3518234_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518235_37 = PRIM_CDR(v__3518234_37);
+Obj v__3518236_37 = PRIM_CDR(v__3518235_37);
+Obj v__3518237_37 = PRIM_CAR(v__3518236_37);
+Obj v__3517549_37 = v__3518237_37;
+Obj v__3518238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518239_37 = PRIM_CDR(v__3518238_37);
+Obj v__3518240_37 = PRIM_CDR(v__3518239_37);
+Obj v__3518241_37 = PRIM_CDR(v__3518240_37);
+Obj v__3518242_37 = PRIM_EQ(Nil, v__3518241_37);
+if (True == v__3518242_37) {
+R[1] = v__3517549_37;
+R[2] = v__3517547_37;
+saveCont(co, clofun39, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517548_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517359_37= co->res;
-Obj _3517356_37 = R[1];
+Obj v__3518246_37= co->res;
+Obj v__3518243_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), _3517356_37, _3517359_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3518243_37, v__3518246_37);
 return;
 }
 case 2:
 {
-Obj _3517357_37= co->res;
-Obj a = R[1];
-Obj _3517356_37 = R[2];
-Obj _3517358_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517356_37;
-saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517357_37, _3517358_37);
+Obj v__3518244_37= co->res;
+Obj v__3517547_37 = R[1];
+Obj v__3518243_37 = R[2];
+Obj v__3518245_37 = makeCons(co->gc, v__3517547_37, Nil);
+R[1] = v__3518243_37;
+saveCont(co, clofun39, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518244_37, v__3518245_37);
 return;
 }
 case 3:
 {
-Obj _3517356_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-R[1] = a;
-R[2] = _3517356_37;
-saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), c);
+Obj v__3518243_37= co->res;
+Obj v__3517549_37 = R[1];
+Obj v__3517547_37 = R[2];
+R[1] = v__3517547_37;
+R[2] = v__3518243_37;
+saveCont(co, clofun39, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517549_37);
 return;
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516735_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517320_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517320_37) {
-Obj _3517321_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517322_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517321_37);
-if (True == _3517322_37) {
-Obj _3517323_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517324_37 = PRIM_ISCONS(_3517323_37);
-if (True == _3517324_37) {
-Obj _3517325_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517326_37 = PRIM_CAR(_3517325_37);
-Obj lam = _3517326_37;
-Obj _3517327_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517328_37 = PRIM_CDR(_3517327_37);
-Obj more = _3517328_37;
-Obj _3517329_37 = makeCons(co->gc, lam, more);
+Obj v__3517532_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3518207_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518207_37) {
+Obj v__3518208_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518209_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518208_37);
+if (True == v__3518209_37) {
+Obj v__3518210_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518211_37 = PRIM_ISCONS(v__3518210_37);
+if (True == v__3518211_37) {
+Obj v__3518212_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518213_37 = PRIM_CAR(v__3518212_37);
+Obj v__3517545_37 = v__3518213_37;
+Obj v__3518214_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518215_37 = PRIM_CDR(v__3518214_37);
+Obj v__3517546_37 = v__3518215_37;
+Obj v__3518216_37 = makeCons(co->gc, v__3517545_37, v__3517546_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), _3517329_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3518216_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, v__3517532_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, v__3517532_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, v__3517532_37);
 return;
 }
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516736_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517310_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517310_37) {
-Obj _3517311_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517312_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517311_37);
-if (True == _3517312_37) {
-Obj _3517313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517314_37 = PRIM_ISCONS(_3517313_37);
-if (True == _3517314_37) {
-Obj _3517315_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517316_37 = PRIM_CAR(_3517315_37);
-Obj x = _3517316_37;
-Obj _3517317_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517318_37 = PRIM_CDR(_3517317_37);
-Obj _3517319_37 = PRIM_EQ(Nil, _3517318_37);
-if (True == _3517319_37) {
+Obj v__3517533_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3518197_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518197_37) {
+Obj v__3518198_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518199_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518198_37);
+if (True == v__3518199_37) {
+Obj v__3518200_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518201_37 = PRIM_ISCONS(v__3518200_37);
+if (True == v__3518201_37) {
+Obj v__3518202_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518203_37 = PRIM_CAR(v__3518202_37);
+Obj v__3517544_37 = v__3518203_37;
+Obj v__3518204_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518205_37 = PRIM_CDR(v__3518204_37);
+Obj v__3518206_37 = PRIM_EQ(Nil, v__3518205_37);
+if (True == v__3518206_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517544_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516736_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517290_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517290_37) {
-Obj _3517291_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517292_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517291_37);
-if (True == _3517292_37) {
-Obj _3517293_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517294_37 = PRIM_ISCONS(_3517293_37);
-if (True == _3517294_37) {
-Obj _3517295_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517296_37 = PRIM_CAR(_3517295_37);
-Obj exp = _3517296_37;
-Obj _3517297_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517298_37 = PRIM_CDR(_3517297_37);
-Obj _3517299_37 = PRIM_ISCONS(_3517298_37);
-if (True == _3517299_37) {
-Obj _3517300_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517301_37 = PRIM_CDR(_3517300_37);
-Obj _3517302_37 = PRIM_CAR(_3517301_37);
-Obj cont = _3517302_37;
-Obj _3517303_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517304_37 = PRIM_CDR(_3517303_37);
-Obj _3517305_37 = PRIM_CDR(_3517304_37);
-Obj _3517306_37 = PRIM_EQ(Nil, _3517305_37);
-if (True == _3517306_37) {
-Obj _3517307_37 = makeCons(co->gc, cont, Nil);
-Obj _3517308_37 = makeCons(co->gc, exp, _3517307_37);
-saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), _3517308_37);
+Obj v__3517534_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v__3518177_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518177_37) {
+Obj v__3518178_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518179_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518178_37);
+if (True == v__3518179_37) {
+Obj v__3518180_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518181_37 = PRIM_ISCONS(v__3518180_37);
+if (True == v__3518181_37) {
+Obj v__3518182_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518183_37 = PRIM_CAR(v__3518182_37);
+Obj v__3517542_37 = v__3518183_37;
+Obj v__3518184_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518185_37 = PRIM_CDR(v__3518184_37);
+Obj v__3518186_37 = PRIM_ISCONS(v__3518185_37);
+if (True == v__3518186_37) {
+Obj v__3518187_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518188_37 = PRIM_CDR(v__3518187_37);
+Obj v__3518189_37 = PRIM_CAR(v__3518188_37);
+Obj v__3517543_37 = v__3518189_37;
+Obj v__3518190_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518191_37 = PRIM_CDR(v__3518190_37);
+Obj v__3518192_37 = PRIM_CDR(v__3518191_37);
+Obj v__3518193_37 = PRIM_EQ(Nil, v__3518192_37);
+if (True == v__3518193_37) {
+Obj v__3518194_37 = makeCons(co->gc, v__3517543_37, Nil);
+Obj v__3518195_37 = makeCons(co->gc, v__3517542_37, v__3518194_37);
+saveCont(co, clofun36, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), globalRef(co, getBinding(co, packageID, 78)), v__3518195_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516737_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517309_37= co->res;
+Obj v__3518196_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 83)), Nil, _3517309_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518196_37);
 return;
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516738_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517280_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517280_37) {
-Obj _3517281_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517282_37 = PRIM_EQ(getBinding(co, packageID, 76).name, _3517281_37);
-if (True == _3517282_37) {
-Obj _3517283_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517284_37 = PRIM_ISCONS(_3517283_37);
-if (True == _3517284_37) {
-Obj _3517285_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517286_37 = PRIM_CAR(_3517285_37);
-Obj exp = _3517286_37;
-Obj _3517287_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517288_37 = PRIM_CDR(_3517287_37);
-Obj _3517289_37 = PRIM_EQ(Nil, _3517288_37);
-if (True == _3517289_37) {
+Obj v__3517535_37 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v__3518167_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518167_37) {
+Obj v__3518168_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518169_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3518168_37);
+if (True == v__3518169_37) {
+Obj v__3518170_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518171_37 = PRIM_ISCONS(v__3518170_37);
+if (True == v__3518171_37) {
+Obj v__3518172_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518173_37 = PRIM_CAR(v__3518172_37);
+Obj v__3517541_37 = v__3518173_37;
+Obj v__3518174_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518175_37 = PRIM_CDR(v__3518174_37);
+Obj v__3518176_37 = PRIM_EQ(Nil, v__3518175_37);
+if (True == v__3518176_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517541_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, v__3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, v__3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, v__3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516738_37);
+coraCall0(co, v__3517535_37);
 return;
 }
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516739_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517262_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517262_37) {
-Obj _3517263_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517264_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517263_37);
-if (True == _3517264_37) {
-Obj _3517265_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517266_37 = PRIM_ISCONS(_3517265_37);
-if (True == _3517266_37) {
-Obj _3517267_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517268_37 = PRIM_CAR(_3517267_37);
-Obj arg = _3517268_37;
-Obj _3517269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517270_37 = PRIM_CDR(_3517269_37);
-Obj _3517271_37 = PRIM_ISCONS(_3517270_37);
-if (True == _3517271_37) {
-Obj _3517272_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517273_37 = PRIM_CDR(_3517272_37);
-Obj _3517274_37 = PRIM_CAR(_3517273_37);
-Obj body = _3517274_37;
-Obj _3517275_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517276_37 = PRIM_CDR(_3517275_37);
-Obj _3517277_37 = PRIM_CDR(_3517276_37);
-Obj _3517278_37 = PRIM_EQ(Nil, _3517277_37);
-if (True == _3517278_37) {
-R[1] = arg;
-saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), body);
+Obj v__3517536_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj v__3518149_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518149_37) {
+Obj v__3518150_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518151_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518150_37);
+if (True == v__3518151_37) {
+Obj v__3518152_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518153_37 = PRIM_ISCONS(v__3518152_37);
+if (True == v__3518153_37) {
+Obj v__3518154_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518155_37 = PRIM_CAR(v__3518154_37);
+Obj v__3517539_37 = v__3518155_37;
+Obj v__3518156_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518157_37 = PRIM_CDR(v__3518156_37);
+Obj v__3518158_37 = PRIM_ISCONS(v__3518157_37);
+if (True == v__3518158_37) {
+Obj v__3518159_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518160_37 = PRIM_CDR(v__3518159_37);
+Obj v__3518161_37 = PRIM_CAR(v__3518160_37);
+Obj v__3517540_37 = v__3518161_37;
+Obj v__3518162_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518163_37 = PRIM_CDR(v__3518162_37);
+Obj v__3518164_37 = PRIM_CDR(v__3518163_37);
+Obj v__3518165_37 = PRIM_EQ(Nil, v__3518164_37);
+if (True == v__3518165_37) {
+R[1] = v__3517539_37;
+saveCont(co, clofun34, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517540_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, v__3517536_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, v__3517536_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, v__3517536_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, v__3517536_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, v__3517536_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517279_37= co->res;
-Obj arg = R[1];
+Obj v__3518166_37= co->res;
+Obj v__3517539_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517279_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518166_37, v__3517539_37);
 return;
 }
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517257_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517257_37) {
-Obj _3517258_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517258_37;
-Obj _3517259_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517259_37;
-Obj _3517260_37 = makeCons(co->gc, f, args);
-saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), _3517260_37);
+Obj v__3518144_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518144_37) {
+Obj v__3518145_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517537_37 = v__3518145_37;
+Obj v__3518146_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517538_37 = v__3518146_37;
+Obj v__3518147_37 = makeCons(co->gc, v__3517537_37, v__3517538_37);
+saveCont(co, clofun33, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), globalRef(co, getBinding(co, packageID, 78)), v__3518147_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7290,295 +7300,295 @@ return;
 }
 case 1:
 {
-Obj _3517261_37= co->res;
+Obj v__3518148_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 83)), Nil, _3517261_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518148_37);
 return;
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516720_37 = R[1];
-Obj _3516721_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516720_37);
-Obj _3517243_37 = PRIM_ISCONS(_3516720_37);
-if (True == _3517243_37) {
-Obj _3517244_37 = PRIM_CAR(_3516720_37);
-Obj _3517245_37 = PRIM_EQ(getBinding(co, packageID, 98).name, _3517244_37);
-if (True == _3517245_37) {
-Obj _3517246_37 = PRIM_CDR(_3516720_37);
-Obj _3517247_37 = PRIM_ISCONS(_3517246_37);
-if (True == _3517247_37) {
-Obj _3517248_37 = PRIM_CDR(_3516720_37);
-Obj _3517249_37 = PRIM_CAR(_3517248_37);
-Obj _3517250_37 = PRIM_CDR(_3516720_37);
-Obj _3517251_37 = PRIM_CDR(_3517250_37);
-Obj _3517252_37 = PRIM_EQ(Nil, _3517251_37);
-if (True == _3517252_37) {
+Obj v__3517344_37 = R[1];
+Obj v__3517521_37 = makeNative(co->gc, 1, clofun31, 0, 1, v__3517344_37);
+Obj v__3518130_37 = PRIM_ISCONS(v__3517344_37);
+if (True == v__3518130_37) {
+Obj v__3518131_37 = PRIM_CAR(v__3517344_37);
+Obj v__3518132_37 = PRIM_EQ(getBinding(co, packageID, 98).name, v__3518131_37);
+if (True == v__3518132_37) {
+Obj v__3518133_37 = PRIM_CDR(v__3517344_37);
+Obj v__3518134_37 = PRIM_ISCONS(v__3518133_37);
+if (True == v__3518134_37) {
+Obj v__3518135_37 = PRIM_CDR(v__3517344_37);
+Obj v__3518136_37 = PRIM_CAR(v__3518135_37);
+Obj v__3518137_37 = PRIM_CDR(v__3517344_37);
+Obj v__3518138_37 = PRIM_CDR(v__3518137_37);
+Obj v__3518139_37 = PRIM_EQ(Nil, v__3518138_37);
+if (True == v__3518139_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, v__3517521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, v__3517521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, v__3517521_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, v__3517521_37);
 return;
 }
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516722_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517233_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517233_37) {
-Obj _3517234_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517235_37 = PRIM_EQ(getBinding(co, packageID, 95).name, _3517234_37);
-if (True == _3517235_37) {
-Obj _3517236_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517237_37 = PRIM_ISCONS(_3517236_37);
-if (True == _3517237_37) {
-Obj _3517238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517239_37 = PRIM_CAR(_3517238_37);
-Obj _3517240_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517241_37 = PRIM_CDR(_3517240_37);
-Obj _3517242_37 = PRIM_EQ(Nil, _3517241_37);
-if (True == _3517242_37) {
+Obj v__3517522_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3518120_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518120_37) {
+Obj v__3518121_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518122_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518121_37);
+if (True == v__3518122_37) {
+Obj v__3518123_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518124_37 = PRIM_ISCONS(v__3518123_37);
+if (True == v__3518124_37) {
+Obj v__3518125_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518126_37 = PRIM_CAR(v__3518125_37);
+Obj v__3518127_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518128_37 = PRIM_CDR(v__3518127_37);
+Obj v__3518129_37 = PRIM_EQ(Nil, v__3518128_37);
+if (True == v__3518129_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, v__3517522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, v__3517522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, v__3517522_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, v__3517522_37);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516723_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517223_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517223_37) {
-Obj _3517224_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517225_37 = PRIM_EQ(getBinding(co, packageID, 92).name, _3517224_37);
-if (True == _3517225_37) {
-Obj _3517226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517227_37 = PRIM_ISCONS(_3517226_37);
-if (True == _3517227_37) {
-Obj _3517228_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517229_37 = PRIM_CAR(_3517228_37);
-Obj _3517230_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517231_37 = PRIM_CDR(_3517230_37);
-Obj _3517232_37 = PRIM_EQ(Nil, _3517231_37);
-if (True == _3517232_37) {
+Obj v__3517523_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v__3518110_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518110_37) {
+Obj v__3518111_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518112_37 = PRIM_EQ(getBinding(co, packageID, 93).name, v__3518111_37);
+if (True == v__3518112_37) {
+Obj v__3518113_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518114_37 = PRIM_ISCONS(v__3518113_37);
+if (True == v__3518114_37) {
+Obj v__3518115_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518116_37 = PRIM_CAR(v__3518115_37);
+Obj v__3518117_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518118_37 = PRIM_CDR(v__3518117_37);
+Obj v__3518119_37 = PRIM_EQ(Nil, v__3518118_37);
+if (True == v__3518119_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, v__3517523_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, v__3517523_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, v__3517523_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, v__3517523_37);
 return;
 }
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516724_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517213_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517213_37) {
-Obj _3517214_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517215_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517214_37);
-if (True == _3517215_37) {
-Obj _3517216_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517217_37 = PRIM_ISCONS(_3517216_37);
-if (True == _3517217_37) {
-Obj _3517218_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517219_37 = PRIM_CAR(_3517218_37);
-Obj _3517220_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517221_37 = PRIM_CDR(_3517220_37);
-Obj _3517222_37 = PRIM_EQ(Nil, _3517221_37);
-if (True == _3517222_37) {
+Obj v__3517524_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj v__3518100_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518100_37) {
+Obj v__3518101_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518102_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518101_37);
+if (True == v__3518102_37) {
+Obj v__3518103_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518104_37 = PRIM_ISCONS(v__3518103_37);
+if (True == v__3518104_37) {
+Obj v__3518105_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518106_37 = PRIM_CAR(v__3518105_37);
+Obj v__3518107_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518108_37 = PRIM_CDR(v__3518107_37);
+Obj v__3518109_37 = PRIM_EQ(Nil, v__3518108_37);
+if (True == v__3518109_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516724_37);
+coraCall0(co, v__3517524_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516724_37);
+coraCall0(co, v__3517524_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516724_37);
+coraCall0(co, v__3517524_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516724_37);
+coraCall0(co, v__3517524_37);
 return;
 }
 }
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516725_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517203_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517203_37) {
-Obj _3517204_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517205_37 = PRIM_EQ(getBinding(co, packageID, 79).name, _3517204_37);
-if (True == _3517205_37) {
-Obj _3517206_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517207_37 = PRIM_ISCONS(_3517206_37);
-if (True == _3517207_37) {
-Obj _3517208_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517209_37 = PRIM_CAR(_3517208_37);
-Obj _3517210_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517211_37 = PRIM_CDR(_3517210_37);
-Obj _3517212_37 = PRIM_EQ(Nil, _3517211_37);
-if (True == _3517212_37) {
+Obj v__3517525_37 = makeNative(co->gc, 2, clofun27, 0, 1, closureRef(R[0], 0));
+Obj v__3518090_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518090_37) {
+Obj v__3518091_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518092_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3518091_37);
+if (True == v__3518092_37) {
+Obj v__3518093_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518094_37 = PRIM_ISCONS(v__3518093_37);
+if (True == v__3518094_37) {
+Obj v__3518095_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518096_37 = PRIM_CAR(v__3518095_37);
+Obj v__3518097_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518098_37 = PRIM_CDR(v__3518097_37);
+Obj v__3518099_37 = PRIM_EQ(Nil, v__3518098_37);
+if (True == v__3518099_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516725_37);
+coraCall0(co, v__3517525_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516725_37);
+coraCall0(co, v__3517525_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516725_37);
+coraCall0(co, v__3517525_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516725_37);
+coraCall0(co, v__3517525_37);
 return;
 }
 }
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516726_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517193_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517193_37) {
-Obj _3517194_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517195_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3517194_37);
-if (True == _3517195_37) {
-Obj _3517196_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517197_37 = PRIM_ISCONS(_3517196_37);
-if (True == _3517197_37) {
-Obj _3517198_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517199_37 = PRIM_CAR(_3517198_37);
-Obj label = _3517199_37;
-Obj _3517200_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517201_37 = PRIM_CDR(_3517200_37);
-R[1] = _3516726_37;
-saveCont(co, clofun26, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), label);
+Obj v__3517526_37 = makeNative(co->gc, 1, clofun26, 0, 0);
+Obj v__3518080_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518080_37) {
+Obj v__3518081_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518082_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518081_37);
+if (True == v__3518082_37) {
+Obj v__3518083_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518084_37 = PRIM_ISCONS(v__3518083_37);
+if (True == v__3518084_37) {
+Obj v__3518085_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518086_37 = PRIM_CAR(v__3518085_37);
+Obj v__3517527_37 = v__3518086_37;
+Obj v__3518087_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518088_37 = PRIM_CDR(v__3518087_37);
+R[1] = v__3517526_37;
+saveCont(co, clofun27, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517527_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516726_37);
+coraCall0(co, v__3517526_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516726_37);
+coraCall0(co, v__3517526_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516726_37);
+coraCall0(co, v__3517526_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517202_37= co->res;
-Obj _3516726_37 = R[1];
-if (True == _3517202_37) {
+Obj v__3518089_37= co->res;
+Obj v__3517526_37 = R[1];
+if (True == v__3518089_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516726_37);
+coraCall0(co, v__3517526_37);
 return;
 }
 }
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7588,69 +7598,69 @@ return;
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516715_37 = R[1];
-Obj _3516716_37 = R[2];
-Obj _3517182_37 = PRIM_EQ(Nil, _3516715_37);
-if (True == _3517182_37) {
+Obj v__3517339_37 = R[1];
+Obj v__3517340_37 = R[2];
+Obj v__3518069_37 = PRIM_EQ(Nil, v__3517339_37);
+if (True == v__3518069_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516718_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516715_37, _3516716_37);
-Obj _3517188_37 = PRIM_ISCONS(_3516715_37);
-if (True == _3517188_37) {
-Obj _3517189_37 = PRIM_CAR(_3516715_37);
-Obj x = _3517189_37;
-Obj _3517190_37 = PRIM_CDR(_3516715_37);
-Obj y = _3517190_37;
-R[1] = y;
-R[2] = _3516716_37;
-R[3] = _3516718_37;
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), x, _3516716_37);
+Obj v__3517516_37 = makeNative(co->gc, 2, clofun24, 0, 2, v__3517339_37, v__3517340_37);
+Obj v__3518075_37 = PRIM_ISCONS(v__3517339_37);
+if (True == v__3518075_37) {
+Obj v__3518076_37 = PRIM_CAR(v__3517339_37);
+Obj v__3517519_37 = v__3518076_37;
+Obj v__3518077_37 = PRIM_CDR(v__3517339_37);
+Obj v__3517520_37 = v__3518077_37;
+R[1] = v__3517520_37;
+R[2] = v__3517340_37;
+R[3] = v__3517516_37;
+saveCont(co, clofun25, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517519_37, v__3517340_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, v__3517516_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517191_37= co->res;
-Obj y = R[1];
-Obj _3516716_37 = R[2];
-Obj _3516718_37 = R[3];
-if (True == _3517191_37) {
+Obj v__3518078_37= co->res;
+Obj v__3517520_37 = R[1];
+Obj v__3517340_37 = R[2];
+Obj v__3517516_37 = R[3];
+if (True == v__3518078_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), y, _3516716_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517520_37, v__3517340_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, v__3517516_37);
 return;
 }
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517183_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517183_37) {
-Obj _3517184_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517184_37;
-Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517185_37;
-R[1] = x;
-saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), y, closureRef(R[0], 1));
+Obj v__3518070_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518070_37) {
+Obj v__3518071_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517517_37 = v__3518071_37;
+Obj v__3518072_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517518_37 = v__3518072_37;
+R[1] = v__3517517_37;
+saveCont(co, clofun24, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517518_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7660,78 +7670,78 @@ return;
 }
 case 1:
 {
-Obj _3517186_37= co->res;
-Obj x = R[1];
-Obj _3517187_37 = makeCons(co->gc, x, _3517186_37);
-coraReturn(co, _3517187_37);
+Obj v__3518073_37= co->res;
+Obj v__3517517_37 = R[1];
+Obj v__3518074_37 = makeCons(co->gc, v__3517517_37, v__3518073_37);
+coraReturn(co, v__3518074_37);
 return;
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516710_37 = R[1];
-Obj _3516711_37 = R[2];
-Obj _3517171_37 = PRIM_EQ(Nil, _3516710_37);
-if (True == _3517171_37) {
-coraReturn(co, _3516711_37);
+Obj v__3517334_37 = R[1];
+Obj v__3517335_37 = R[2];
+Obj v__3518058_37 = PRIM_EQ(Nil, v__3517334_37);
+if (True == v__3518058_37) {
+coraReturn(co, v__3517335_37);
 return;
 } else {
-Obj _3516713_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516710_37, _3516711_37);
-Obj _3517177_37 = PRIM_ISCONS(_3516710_37);
-if (True == _3517177_37) {
-Obj _3517178_37 = PRIM_CAR(_3516710_37);
-Obj x = _3517178_37;
-Obj _3517179_37 = PRIM_CDR(_3516710_37);
-Obj y = _3517179_37;
-R[1] = y;
-R[2] = _3516711_37;
-R[3] = _3516713_37;
-saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), x, _3516711_37);
+Obj v__3517511_37 = makeNative(co->gc, 2, clofun22, 0, 2, v__3517334_37, v__3517335_37);
+Obj v__3518064_37 = PRIM_ISCONS(v__3517334_37);
+if (True == v__3518064_37) {
+Obj v__3518065_37 = PRIM_CAR(v__3517334_37);
+Obj v__3517514_37 = v__3518065_37;
+Obj v__3518066_37 = PRIM_CDR(v__3517334_37);
+Obj v__3517515_37 = v__3518066_37;
+R[1] = v__3517515_37;
+R[2] = v__3517335_37;
+R[3] = v__3517511_37;
+saveCont(co, clofun23, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517514_37, v__3517335_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, v__3517511_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517180_37= co->res;
-Obj y = R[1];
-Obj _3516711_37 = R[2];
-Obj _3516713_37 = R[3];
-if (True == _3517180_37) {
+Obj v__3518067_37= co->res;
+Obj v__3517515_37 = R[1];
+Obj v__3517335_37 = R[2];
+Obj v__3517511_37 = R[3];
+if (True == v__3518067_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), y, _3516711_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3517515_37, v__3517335_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, v__3517511_37);
 return;
 }
 }
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517172_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517172_37) {
-Obj _3517173_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517173_37;
-Obj _3517174_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517174_37;
-R[1] = x;
-saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), y, closureRef(R[0], 1));
+Obj v__3518059_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518059_37) {
+Obj v__3518060_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517512_37 = v__3518060_37;
+Obj v__3518061_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517513_37 = v__3518061_37;
+R[1] = v__3517512_37;
+saveCont(co, clofun22, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3517513_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7741,79 +7751,79 @@ return;
 }
 case 1:
 {
-Obj _3517175_37= co->res;
-Obj x = R[1];
-Obj _3517176_37 = makeCons(co->gc, x, _3517175_37);
-coraReturn(co, _3517176_37);
+Obj v__3518062_37= co->res;
+Obj v__3517512_37 = R[1];
+Obj v__3518063_37 = makeCons(co->gc, v__3517512_37, v__3518062_37);
+coraReturn(co, v__3518063_37);
 return;
 }
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516696_37 = R[1];
-Obj _3516697_37 = R[2];
-Obj _3516698_37 = R[3];
-Obj _3516840_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516696_37, _3516698_37, _3516697_37);
-R[1] = _3516698_37;
-R[2] = _3516840_37;
-saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), _3516698_37);
+Obj v__3517320_37 = R[1];
+Obj v__3517321_37 = R[2];
+Obj v__3517322_37 = R[3];
+Obj v__3517479_37 = makeNative(co->gc, 2, clofun20, 1, 3, v__3517320_37, v__3517322_37, v__3517321_37);
+R[1] = v__3517322_37;
+R[2] = v__3517479_37;
+saveCont(co, clofun21, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517322_37);
 return;
 }
 case 1:
 {
-Obj _3517169_37= co->res;
-Obj _3516840_37 = R[1];
-if (True == _3517169_37) {
+Obj v__3518056_37= co->res;
+Obj v__3517479_37 = R[1];
+if (True == v__3518056_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516840_37, True);
+coraCall1(co, v__3517479_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516840_37, False);
+coraCall1(co, v__3517479_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517168_37= co->res;
-Obj _3516698_37 = R[1];
-Obj _3516840_37 = R[2];
-if (True == _3517168_37) {
+Obj v__3518055_37= co->res;
+Obj v__3517322_37 = R[1];
+Obj v__3517479_37 = R[2];
+if (True == v__3518055_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516840_37, True);
+coraCall1(co, v__3517479_37, True);
 return;
 } else {
-R[1] = _3516840_37;
-saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), _3516698_37);
+R[1] = v__3517479_37;
+saveCont(co, clofun21, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517322_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517166_37= co->res;
-Obj _3516698_37 = R[1];
-Obj _3516840_37 = R[2];
-if (True == _3517166_37) {
+Obj v__3518053_37= co->res;
+Obj v__3517322_37 = R[1];
+Obj v__3517479_37 = R[2];
+if (True == v__3518053_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516840_37, True);
+coraCall1(co, v__3517479_37, True);
 return;
 } else {
-Obj _3517167_37 = primIsString(_3516698_37);
-if (True == _3517167_37) {
+Obj v__3518054_37 = primIsString(v__3517322_37);
+if (True == v__3518054_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516840_37, True);
+coraCall1(co, v__3517479_37, True);
 return;
 } else {
-R[1] = _3516698_37;
-R[2] = _3516840_37;
-saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3516698_37);
+R[1] = v__3517322_37;
+R[2] = v__3517479_37;
+saveCont(co, clofun21, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), v__3517322_37);
 return;
 }
 }
@@ -7821,176 +7831,210 @@ return;
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516841_37 = R[1];
-if (True == _3516841_37) {
-Obj _3516977_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516978_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, _3516977_37);
-coraReturn(co, _3516978_37);
-return;
-} else {
-Obj _3516700_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517153_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517153_37) {
-Obj _3517154_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517155_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517154_37);
-if (True == _3517155_37) {
-Obj _3517156_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517157_37 = PRIM_ISCONS(_3517156_37);
-if (True == _3517157_37) {
-Obj _3517158_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517159_37 = PRIM_CAR(_3517158_37);
-Obj x = _3517159_37;
-Obj _3517160_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517161_37 = PRIM_CDR(_3517160_37);
-Obj _3517162_37 = PRIM_EQ(Nil, _3517161_37);
-if (True == _3517162_37) {
-R[1] = x;
-saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), x, closureRef(R[0], 2));
+Obj v__3517478_37 = R[1];
+if (True == v__3517478_37) {
+Obj v__3517858_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v__3517859_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, v__3517858_37);
+coraReturn(co, v__3517859_37);
+return;
+} else {
+Obj v__3517480_37 = makeNative(co->gc, 3, clofun19, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v__3518040_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518040_37) {
+Obj v__3518041_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518042_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518041_37);
+if (True == v__3518042_37) {
+Obj v__3518043_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518044_37 = PRIM_ISCONS(v__3518043_37);
+if (True == v__3518044_37) {
+Obj v__3518045_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518046_37 = PRIM_CAR(v__3518045_37);
+Obj v__3517510_37 = v__3518046_37;
+Obj v__3518047_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518048_37 = PRIM_CDR(v__3518047_37);
+Obj v__3518049_37 = PRIM_EQ(Nil, v__3518048_37);
+if (True == v__3518049_37) {
+R[1] = v__3517510_37;
+saveCont(co, clofun20, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), v__3517510_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v__3517480_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v__3517480_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v__3517480_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, v__3517480_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517163_37= co->res;
-Obj x = R[1];
-Obj _3517164_37 = makeCons(co->gc, x, Nil);
-Obj _3517165_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, _3517164_37);
-coraReturn(co, _3517165_37);
+Obj v__3518050_37= co->res;
+Obj v__3517510_37 = R[1];
+Obj v__3518051_37 = makeCons(co->gc, v__3517510_37, Nil);
+Obj v__3518052_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, v__3518051_37);
+coraReturn(co, v__3518052_37);
 return;
 }
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516979_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516979_37) {
-saveCont(co, clofun18, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3517860_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3517860_37) {
+saveCont(co, clofun19, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516702_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517131_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517131_37) {
-Obj _3517132_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517133_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517132_37);
-if (True == _3517133_37) {
-Obj _3517134_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517135_37 = PRIM_ISCONS(_3517134_37);
-if (True == _3517135_37) {
-Obj _3517136_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517137_37 = PRIM_CAR(_3517136_37);
-Obj args = _3517137_37;
-Obj _3517138_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517139_37 = PRIM_CDR(_3517138_37);
-Obj _3517140_37 = PRIM_ISCONS(_3517139_37);
-if (True == _3517140_37) {
-Obj _3517141_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517142_37 = PRIM_CDR(_3517141_37);
-Obj _3517143_37 = PRIM_CAR(_3517142_37);
-Obj body = _3517143_37;
-Obj _3517144_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517145_37 = PRIM_CDR(_3517144_37);
-Obj _3517146_37 = PRIM_CDR(_3517145_37);
-Obj _3517147_37 = PRIM_EQ(Nil, _3517146_37);
-if (True == _3517147_37) {
-R[1] = body;
-R[2] = args;
-saveCont(co, clofun18, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), args, closureRef(R[0], 1));
+Obj v__3517482_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518016_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518016_37) {
+Obj v__3518017_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518018_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518017_37);
+if (True == v__3518018_37) {
+Obj v__3518019_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518020_37 = PRIM_ISCONS(v__3518019_37);
+if (True == v__3518020_37) {
+Obj v__3518021_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518022_37 = PRIM_CAR(v__3518021_37);
+Obj v__3517508_37 = v__3518022_37;
+Obj v__3518023_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518024_37 = PRIM_CDR(v__3518023_37);
+Obj v__3518025_37 = PRIM_ISCONS(v__3518024_37);
+if (True == v__3518025_37) {
+Obj v__3518026_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518027_37 = PRIM_CDR(v__3518026_37);
+Obj v__3518028_37 = PRIM_CAR(v__3518027_37);
+Obj v__3517509_37 = v__3518028_37;
+Obj v__3518029_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518030_37 = PRIM_CDR(v__3518029_37);
+Obj v__3518031_37 = PRIM_CDR(v__3518030_37);
+Obj v__3518032_37 = PRIM_EQ(Nil, v__3518031_37);
+if (True == v__3518032_37) {
+R[1] = v__3517509_37;
+R[2] = v__3517508_37;
+saveCont(co, clofun19, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), makeNative(co->gc, 2, clofun18, 1, 0), v__3517508_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, v__3517482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, v__3517482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, v__3517482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, v__3517482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, v__3517482_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516981_37= co->res;
-Obj _3516982_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516983_37 = makeCons(co->gc, getBinding(co, packageID, 95).name, _3516982_37);
-coraReturn(co, _3516983_37);
+Obj v__3517863_37= co->res;
+Obj v__3517864_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3517865_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3517864_37);
+coraReturn(co, v__3517865_37);
 return;
 }
 case 2:
 {
-Obj _3516980_37= co->res;
-if (True == _3516980_37) {
-coraReturn(co, closureRef(R[0], 0));
+Obj v__3517862_37= co->res;
+Obj v__3517481_37 = R[1];
+if (True == v__3517862_37) {
+saveCont(co, clofun19, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 } else {
-saveCont(co, clofun18, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v__3517866_37 = PRIM_CDR(v__3517481_37);
+coraReturn(co, v__3517866_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517149_37= co->res;
-Obj args = R[1];
-Obj _3517150_37 = makeCons(co->gc, _3517149_37, Nil);
-Obj _3517151_37 = makeCons(co->gc, args, _3517150_37);
-Obj _3517152_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517151_37);
-coraReturn(co, _3517152_37);
+Obj v__3517861_37= co->res;
+Obj v__3517481_37 = v__3517861_37;
+R[1] = v__3517481_37;
+saveCont(co, clofun19, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517481_37);
 return;
 }
 case 4:
 {
-Obj _3517148_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-R[1] = args;
-saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), _3517148_37, closureRef(R[0], 2), body);
+Obj v__3518036_37= co->res;
+Obj v__3517508_37 = R[1];
+Obj v__3518037_37 = makeCons(co->gc, v__3518036_37, Nil);
+Obj v__3518038_37 = makeCons(co->gc, v__3517508_37, v__3518037_37);
+Obj v__3518039_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518038_37);
+coraReturn(co, v__3518039_37);
+return;
+}
+case 5:
+{
+Obj v__3518035_37= co->res;
+Obj v__3517509_37 = R[1];
+Obj v__3517508_37 = R[2];
+R[1] = v__3517508_37;
+saveCont(co, clofun19, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), v__3518035_37, closureRef(R[0], 2), v__3517509_37);
+return;
+}
+case 6:
+{
+Obj v__3518034_37= co->res;
+Obj v__3517509_37 = R[1];
+Obj v__3517508_37 = R[2];
+R[1] = v__3517509_37;
+R[2] = v__3517508_37;
+saveCont(co, clofun19, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v__3518034_37, closureRef(R[0], 1));
+return;
+}
+}
+}
+
+static void clofun18(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_x = R[1];
+Obj v__3518033_37 = makeCons(co->gc, v_x, v_x);
+coraReturn(co, v__3518033_37);
 return;
 }
 }
@@ -8000,74 +8044,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516703_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517099_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517099_37) {
-Obj _3517100_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517101_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517100_37);
-if (True == _3517101_37) {
-Obj _3517102_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517103_37 = PRIM_ISCONS(_3517102_37);
-if (True == _3517103_37) {
-Obj _3517104_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517105_37 = PRIM_CAR(_3517104_37);
-Obj _3517106_37 = PRIM_ISCONS(_3517105_37);
-if (True == _3517106_37) {
-Obj _3517107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517108_37 = PRIM_CAR(_3517107_37);
-Obj _3517109_37 = PRIM_CAR(_3517108_37);
-Obj _3517110_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517109_37);
-if (True == _3517110_37) {
-Obj _3517111_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517112_37 = PRIM_CAR(_3517111_37);
-Obj _3517113_37 = PRIM_CDR(_3517112_37);
-Obj exp1 = _3517113_37;
-Obj _3517114_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517115_37 = PRIM_CDR(_3517114_37);
-Obj exp2 = _3517115_37;
-Obj _3517116_37 = primGenSym(co);
-Obj f = _3517116_37;
-Obj _3517117_37 = primGenSym(co);
-Obj v = _3517117_37;
-Obj _3517118_37 = makeCons(co->gc, v, Nil);
-Obj _3517119_37 = makeCons(co->gc, v, exp2);
-Obj _3517120_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517119_37);
-Obj _3517121_37 = makeCons(co->gc, _3517120_37, Nil);
-Obj _3517122_37 = makeCons(co->gc, _3517118_37, _3517121_37);
-Obj _3517123_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517122_37);
-Obj _3517124_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3517125_37 = makeCons(co->gc, _3517124_37, Nil);
-Obj _3517126_37 = makeCons(co->gc, f, _3517125_37);
-Obj _3517127_37 = makeCons(co->gc, _3517126_37, Nil);
-Obj _3517128_37 = makeCons(co->gc, _3517123_37, _3517127_37);
-Obj _3517129_37 = makeCons(co->gc, f, _3517128_37);
-Obj _3517130_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517129_37);
+Obj v__3517483_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517984_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517984_37) {
+Obj v__3517985_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517986_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517985_37);
+if (True == v__3517986_37) {
+Obj v__3517987_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517988_37 = PRIM_ISCONS(v__3517987_37);
+if (True == v__3517988_37) {
+Obj v__3517989_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517990_37 = PRIM_CAR(v__3517989_37);
+Obj v__3517991_37 = PRIM_ISCONS(v__3517990_37);
+if (True == v__3517991_37) {
+Obj v__3517992_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517993_37 = PRIM_CAR(v__3517992_37);
+Obj v__3517994_37 = PRIM_CAR(v__3517993_37);
+Obj v__3517995_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517994_37);
+if (True == v__3517995_37) {
+Obj v__3517996_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517997_37 = PRIM_CAR(v__3517996_37);
+Obj v__3517998_37 = PRIM_CDR(v__3517997_37);
+Obj v__3517504_37 = v__3517998_37;
+Obj v__3517999_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518000_37 = PRIM_CDR(v__3517999_37);
+Obj v__3517505_37 = v__3518000_37;
+Obj v__3518001_37 = primGenSym(co);
+Obj v__3517506_37 = v__3518001_37;
+Obj v__3518002_37 = primGenSym(co);
+Obj v__3517507_37 = v__3518002_37;
+Obj v__3518003_37 = makeCons(co->gc, v__3517507_37, Nil);
+Obj v__3518004_37 = makeCons(co->gc, v__3517507_37, v__3517505_37);
+Obj v__3518005_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518004_37);
+Obj v__3518006_37 = makeCons(co->gc, v__3518005_37, Nil);
+Obj v__3518007_37 = makeCons(co->gc, v__3518003_37, v__3518006_37);
+Obj v__3518008_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518007_37);
+Obj v__3518009_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517504_37);
+Obj v__3518010_37 = makeCons(co->gc, v__3518009_37, Nil);
+Obj v__3518011_37 = makeCons(co->gc, v__3517506_37, v__3518010_37);
+Obj v__3518012_37 = makeCons(co->gc, v__3518011_37, Nil);
+Obj v__3518013_37 = makeCons(co->gc, v__3518008_37, v__3518012_37);
+Obj v__3518014_37 = makeCons(co->gc, v__3517506_37, v__3518013_37);
+Obj v__3518015_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518014_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), _3517130_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518015_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, v__3517483_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, v__3517483_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, v__3517483_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, v__3517483_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, v__3517483_37);
 return;
 }
 }
@@ -8078,42 +8122,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516704_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517092_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517092_37) {
-Obj _3517093_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517094_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517093_37);
-if (True == _3517094_37) {
-Obj _3517095_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517095_37;
-R[1] = args;
+Obj v__3517484_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517977_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517977_37) {
+Obj v__3517978_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517979_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517978_37);
+if (True == v__3517979_37) {
+Obj v__3517980_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517503_37 = v__3517980_37;
+R[1] = v__3517503_37;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516704_37);
+coraCall0(co, v__3517484_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516704_37);
+coraCall0(co, v__3517484_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517097_37= co->res;
-Obj _3517098_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517097_37);
-coraReturn(co, _3517098_37);
+Obj v__3517982_37= co->res;
+Obj v__3517983_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517982_37);
+coraReturn(co, v__3517983_37);
 return;
 }
 case 2:
 {
-Obj _3517096_37= co->res;
-Obj args = R[1];
+Obj v__3517981_37= co->res;
+Obj v__3517503_37 = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3517096_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517981_37, v__3517503_37);
 return;
 }
 }
@@ -8123,78 +8167,78 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516705_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517070_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517070_37) {
-Obj _3517071_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517072_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517071_37);
-if (True == _3517072_37) {
-Obj _3517073_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517074_37 = PRIM_ISCONS(_3517073_37);
-if (True == _3517074_37) {
-Obj _3517075_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517076_37 = PRIM_CAR(_3517075_37);
-Obj x = _3517076_37;
-Obj _3517077_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517078_37 = PRIM_CDR(_3517077_37);
-Obj _3517079_37 = PRIM_ISCONS(_3517078_37);
-if (True == _3517079_37) {
-Obj _3517080_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517081_37 = PRIM_CDR(_3517080_37);
-Obj _3517082_37 = PRIM_CAR(_3517081_37);
-Obj y = _3517082_37;
-Obj _3517083_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517084_37 = PRIM_CDR(_3517083_37);
-Obj _3517085_37 = PRIM_CDR(_3517084_37);
-Obj _3517086_37 = PRIM_EQ(Nil, _3517085_37);
-if (True == _3517086_37) {
-R[1] = y;
+Obj v__3517485_37 = makeNative(co->gc, 4, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517955_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517955_37) {
+Obj v__3517956_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517957_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517956_37);
+if (True == v__3517957_37) {
+Obj v__3517958_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517959_37 = PRIM_ISCONS(v__3517958_37);
+if (True == v__3517959_37) {
+Obj v__3517960_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517961_37 = PRIM_CAR(v__3517960_37);
+Obj v__3517501_37 = v__3517961_37;
+Obj v__3517962_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517963_37 = PRIM_CDR(v__3517962_37);
+Obj v__3517964_37 = PRIM_ISCONS(v__3517963_37);
+if (True == v__3517964_37) {
+Obj v__3517965_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517966_37 = PRIM_CDR(v__3517965_37);
+Obj v__3517967_37 = PRIM_CAR(v__3517966_37);
+Obj v__3517502_37 = v__3517967_37;
+Obj v__3517968_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517969_37 = PRIM_CDR(v__3517968_37);
+Obj v__3517970_37 = PRIM_CDR(v__3517969_37);
+Obj v__3517971_37 = PRIM_EQ(Nil, v__3517970_37);
+if (True == v__3517971_37) {
+R[1] = v__3517502_37;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), x);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517501_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, v__3517485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, v__3517485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, v__3517485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, v__3517485_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516705_37);
+coraCall0(co, v__3517485_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517088_37= co->res;
-Obj _3517087_37 = R[1];
-Obj _3517089_37 = makeCons(co->gc, _3517088_37, Nil);
-Obj _3517090_37 = makeCons(co->gc, _3517087_37, _3517089_37);
-Obj _3517091_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517090_37);
-coraReturn(co, _3517091_37);
+Obj v__3517973_37= co->res;
+Obj v__3517972_37 = R[1];
+Obj v__3517974_37 = makeCons(co->gc, v__3517973_37, Nil);
+Obj v__3517975_37 = makeCons(co->gc, v__3517972_37, v__3517974_37);
+Obj v__3517976_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517975_37);
+coraReturn(co, v__3517976_37);
 return;
 }
 case 2:
 {
-Obj _3517087_37= co->res;
-Obj y = R[1];
-R[1] = _3517087_37;
+Obj v__3517972_37= co->res;
+Obj v__3517502_37 = R[1];
+R[1] = v__3517972_37;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517502_37);
 return;
 }
 }
@@ -8204,100 +8248,105 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516706_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517037_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517037_37) {
-Obj _3517038_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517039_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517038_37);
-if (True == _3517039_37) {
-Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517041_37 = PRIM_ISCONS(_3517040_37);
-if (True == _3517041_37) {
-Obj _3517042_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517043_37 = PRIM_CAR(_3517042_37);
-Obj a = _3517043_37;
-Obj _3517044_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517045_37 = PRIM_CDR(_3517044_37);
-Obj _3517046_37 = PRIM_ISCONS(_3517045_37);
-if (True == _3517046_37) {
-Obj _3517047_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517048_37 = PRIM_CDR(_3517047_37);
-Obj _3517049_37 = PRIM_CAR(_3517048_37);
-Obj b = _3517049_37;
-Obj _3517050_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517051_37 = PRIM_CDR(_3517050_37);
-Obj _3517052_37 = PRIM_CDR(_3517051_37);
-Obj _3517053_37 = PRIM_ISCONS(_3517052_37);
-if (True == _3517053_37) {
-Obj _3517054_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517055_37 = PRIM_CDR(_3517054_37);
-Obj _3517056_37 = PRIM_CDR(_3517055_37);
-Obj _3517057_37 = PRIM_CAR(_3517056_37);
-Obj c = _3517057_37;
-Obj _3517058_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517059_37 = PRIM_CDR(_3517058_37);
-Obj _3517060_37 = PRIM_CDR(_3517059_37);
-Obj _3517061_37 = PRIM_CDR(_3517060_37);
-Obj _3517062_37 = PRIM_EQ(Nil, _3517061_37);
-if (True == _3517062_37) {
-R[1] = c;
-R[2] = a;
+Obj v__3517486_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517920_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517920_37) {
+Obj v__3517921_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517922_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3517921_37);
+if (True == v__3517922_37) {
+Obj v__3517923_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517924_37 = PRIM_ISCONS(v__3517923_37);
+if (True == v__3517924_37) {
+Obj v__3517925_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517926_37 = PRIM_CAR(v__3517925_37);
+Obj v__3517497_37 = v__3517926_37;
+Obj v__3517927_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517928_37 = PRIM_CDR(v__3517927_37);
+Obj v__3517929_37 = PRIM_ISCONS(v__3517928_37);
+if (True == v__3517929_37) {
+Obj v__3517930_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517931_37 = PRIM_CDR(v__3517930_37);
+Obj v__3517932_37 = PRIM_CAR(v__3517931_37);
+Obj v__3517498_37 = v__3517932_37;
+Obj v__3517933_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517934_37 = PRIM_CDR(v__3517933_37);
+Obj v__3517935_37 = PRIM_CDR(v__3517934_37);
+Obj v__3517936_37 = PRIM_ISCONS(v__3517935_37);
+if (True == v__3517936_37) {
+Obj v__3517937_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517938_37 = PRIM_CDR(v__3517937_37);
+Obj v__3517939_37 = PRIM_CDR(v__3517938_37);
+Obj v__3517940_37 = PRIM_CAR(v__3517939_37);
+Obj v__3517499_37 = v__3517940_37;
+Obj v__3517941_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517942_37 = PRIM_CDR(v__3517941_37);
+Obj v__3517943_37 = PRIM_CDR(v__3517942_37);
+Obj v__3517944_37 = PRIM_CDR(v__3517943_37);
+Obj v__3517945_37 = PRIM_EQ(Nil, v__3517944_37);
+if (True == v__3517945_37) {
+Obj v__3517946_37 = primGenSym(co);
+Obj v__3517500_37 = v__3517946_37;
+R[1] = v__3517497_37;
+R[2] = v__3517499_37;
+R[3] = v__3517500_37;
 saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517498_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, v__3517486_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, v__3517486_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, v__3517486_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, v__3517486_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, v__3517486_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516706_37);
+coraCall0(co, v__3517486_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517065_37= co->res;
-Obj _3517063_37 = R[1];
-Obj a = R[2];
-Obj _3517066_37 = makeCons(co->gc, _3517065_37, Nil);
-Obj _3517067_37 = makeCons(co->gc, _3517063_37, _3517066_37);
-Obj _3517068_37 = makeCons(co->gc, a, _3517067_37);
-Obj _3517069_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517068_37);
-coraReturn(co, _3517069_37);
+Obj v__3517950_37= co->res;
+Obj v__3517947_37 = R[1];
+Obj v__3517500_37 = R[2];
+Obj v__3517951_37 = makeCons(co->gc, v__3517950_37, Nil);
+Obj v__3517952_37 = makeCons(co->gc, v__3517947_37, v__3517951_37);
+Obj v__3517953_37 = makeCons(co->gc, v__3517500_37, v__3517952_37);
+Obj v__3517954_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3517953_37);
+coraReturn(co, v__3517954_37);
 return;
 }
 case 2:
 {
-Obj _3517063_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-Obj _3517064_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3517063_37;
-R[2] = a;
+Obj v__3517947_37= co->res;
+Obj v__3517497_37 = R[1];
+Obj v__3517499_37 = R[2];
+Obj v__3517500_37 = R[3];
+Obj v__3517948_37 = makeCons(co->gc, v__3517497_37, v__3517500_37);
+Obj v__3517949_37 = makeCons(co->gc, v__3517948_37, closureRef(R[0], 1));
+R[1] = v__3517947_37;
+R[2] = v__3517500_37;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), _3517064_37, closureRef(R[0], 2), c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), v__3517949_37, closureRef(R[0], 2), v__3517499_37);
 return;
 }
 }
@@ -8307,85 +8356,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516707_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517005_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517005_37) {
-Obj _3517006_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517007_37 = PRIM_ISCONS(_3517006_37);
-if (True == _3517007_37) {
-Obj _3517008_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517009_37 = PRIM_CAR(_3517008_37);
-Obj _3517010_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3517009_37);
-if (True == _3517010_37) {
-Obj _3517011_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517012_37 = PRIM_CDR(_3517011_37);
-Obj exp1 = _3517012_37;
-Obj _3517013_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517014_37 = PRIM_ISCONS(_3517013_37);
-if (True == _3517014_37) {
-Obj _3517015_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517016_37 = PRIM_CAR(_3517015_37);
-Obj _3517017_37 = PRIM_ISCONS(_3517016_37);
-if (True == _3517017_37) {
-Obj _3517018_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517019_37 = PRIM_CAR(_3517018_37);
-Obj _3517020_37 = PRIM_CAR(_3517019_37);
-Obj _3517021_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517020_37);
-if (True == _3517021_37) {
-Obj _3517022_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517023_37 = PRIM_CAR(_3517022_37);
-Obj _3517024_37 = PRIM_CDR(_3517023_37);
-Obj exp2 = _3517024_37;
-Obj _3517025_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517026_37 = PRIM_CDR(_3517025_37);
-Obj _3517027_37 = PRIM_EQ(Nil, _3517026_37);
-if (True == _3517027_37) {
-Obj _3517028_37 = primGenSym(co);
-Obj f = _3517028_37;
-Obj _3517029_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, exp1);
-Obj _3517030_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp2);
-Obj _3517031_37 = makeCons(co->gc, _3517030_37, Nil);
-Obj _3517032_37 = makeCons(co->gc, f, _3517031_37);
-Obj _3517033_37 = makeCons(co->gc, _3517032_37, Nil);
-Obj _3517034_37 = makeCons(co->gc, _3517029_37, _3517033_37);
-Obj _3517035_37 = makeCons(co->gc, f, _3517034_37);
-Obj _3517036_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517035_37);
+Obj v__3517487_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517888_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517888_37) {
+Obj v__3517889_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517890_37 = PRIM_ISCONS(v__3517889_37);
+if (True == v__3517890_37) {
+Obj v__3517891_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517892_37 = PRIM_CAR(v__3517891_37);
+Obj v__3517893_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3517892_37);
+if (True == v__3517893_37) {
+Obj v__3517894_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517895_37 = PRIM_CDR(v__3517894_37);
+Obj v__3517494_37 = v__3517895_37;
+Obj v__3517896_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517897_37 = PRIM_ISCONS(v__3517896_37);
+if (True == v__3517897_37) {
+Obj v__3517898_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517899_37 = PRIM_CAR(v__3517898_37);
+Obj v__3517900_37 = PRIM_ISCONS(v__3517899_37);
+if (True == v__3517900_37) {
+Obj v__3517901_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517902_37 = PRIM_CAR(v__3517901_37);
+Obj v__3517903_37 = PRIM_CAR(v__3517902_37);
+Obj v__3517904_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517903_37);
+if (True == v__3517904_37) {
+Obj v__3517905_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517906_37 = PRIM_CAR(v__3517905_37);
+Obj v__3517907_37 = PRIM_CDR(v__3517906_37);
+Obj v__3517495_37 = v__3517907_37;
+Obj v__3517908_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517909_37 = PRIM_CDR(v__3517908_37);
+Obj v__3517910_37 = PRIM_EQ(Nil, v__3517909_37);
+if (True == v__3517910_37) {
+Obj v__3517911_37 = primGenSym(co);
+Obj v__3517496_37 = v__3517911_37;
+Obj v__3517912_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3517494_37);
+Obj v__3517913_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517495_37);
+Obj v__3517914_37 = makeCons(co->gc, v__3517913_37, Nil);
+Obj v__3517915_37 = makeCons(co->gc, v__3517496_37, v__3517914_37);
+Obj v__3517916_37 = makeCons(co->gc, v__3517915_37, Nil);
+Obj v__3517917_37 = makeCons(co->gc, v__3517912_37, v__3517916_37);
+Obj v__3517918_37 = makeCons(co->gc, v__3517496_37, v__3517917_37);
+Obj v__3517919_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3517918_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), _3517036_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517919_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, v__3517487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, v__3517487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, v__3517487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, v__3517487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, v__3517487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, v__3517487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, v__3517487_37);
 return;
 }
 }
@@ -8396,90 +8445,90 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516708_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516985_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516985_37) {
-Obj _3516986_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516986_37;
-Obj _3516987_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516987_37;
-R[1] = op;
-R[2] = args;
-R[3] = _3516708_37;
+Obj v__3517488_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v__3517868_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517868_37) {
+Obj v__3517869_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517489_37 = v__3517869_37;
+Obj v__3517870_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517490_37 = v__3517870_37;
+R[1] = v__3517489_37;
+R[2] = v__3517490_37;
+R[3] = v__3517488_37;
 saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517489_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, v__3517488_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516995_37= co->res;
-Obj _3516993_37 = R[1];
-Obj _3516996_37 = makeCons(co->gc, _3516993_37, _3516995_37);
-coraReturn(co, _3516996_37);
+Obj v__3517878_37= co->res;
+Obj v__3517876_37 = R[1];
+Obj v__3517879_37 = makeCons(co->gc, v__3517876_37, v__3517878_37);
+coraReturn(co, v__3517879_37);
 return;
 }
 case 2:
 {
-Obj _3516994_37= co->res;
-Obj args = R[1];
-Obj _3516993_37 = R[2];
-R[1] = _3516993_37;
+Obj v__3517877_37= co->res;
+Obj v__3517490_37 = R[1];
+Obj v__3517876_37 = R[2];
+R[1] = v__3517876_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3516994_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517877_37, v__3517490_37);
 return;
 }
 case 3:
 {
-Obj _3517001_37= co->res;
-Obj tmp = R[1];
-Obj _3517002_37 = makeCons(co->gc, _3517001_37, Nil);
-Obj _3517003_37 = makeCons(co->gc, tmp, _3517002_37);
-Obj _3517004_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517003_37);
+Obj v__3517884_37= co->res;
+Obj v__3517493_37 = R[1];
+Obj v__3517885_37 = makeCons(co->gc, v__3517884_37, Nil);
+Obj v__3517886_37 = makeCons(co->gc, v__3517493_37, v__3517885_37);
+Obj v__3517887_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3517886_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), _3517004_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517887_37);
 return;
 }
 case 4:
 {
-Obj _3516999_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj tmp = _3516999_37;
-Obj _3517000_37 = makeCons(co->gc, op, args);
-R[1] = tmp;
+Obj v__3517882_37= co->res;
+Obj v__3517489_37 = R[1];
+Obj v__3517490_37 = R[2];
+Obj v__3517493_37 = v__3517882_37;
+Obj v__3517883_37 = makeCons(co->gc, v__3517489_37, v__3517490_37);
+R[1] = v__3517493_37;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), _3517000_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v__3517883_37, v__3517493_37);
 return;
 }
 case 5:
 {
-Obj _3516990_37= co->res;
-Obj required = R[1];
-Obj op = R[2];
-Obj args = R[3];
-Obj provided = _3516990_37;
-Obj _3516991_37 = PRIM_EQ(required, provided);
-if (True == _3516991_37) {
-Obj _3516992_37 = makeCons(co->gc, op, Nil);
-Obj _3516993_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3516992_37);
-R[1] = args;
-R[2] = _3516993_37;
+Obj v__3517873_37= co->res;
+Obj v__3517491_37 = R[1];
+Obj v__3517489_37 = R[2];
+Obj v__3517490_37 = R[3];
+Obj v__3517492_37 = v__3517873_37;
+Obj v__3517874_37 = PRIM_EQ(v__3517491_37, v__3517492_37);
+if (True == v__3517874_37) {
+Obj v__3517875_37 = makeCons(co->gc, v__3517489_37, Nil);
+Obj v__3517876_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, v__3517875_37);
+R[1] = v__3517490_37;
+R[2] = v__3517876_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3516997_37 = PRIM_GT(required, provided);
-if (True == _3516997_37) {
-Obj _3516998_37 = PRIM_SUB(required, provided);
-R[1] = op;
-R[2] = args;
+Obj v__3517880_37 = PRIM_GT(v__3517491_37, v__3517492_37);
+if (True == v__3517880_37) {
+Obj v__3517881_37 = PRIM_SUB(v__3517491_37, v__3517492_37);
+R[1] = v__3517489_37;
+R[2] = v__3517490_37;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3516998_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v__3517881_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8490,32 +8539,32 @@ return;
 }
 case 6:
 {
-Obj _3516989_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj required = _3516989_37;
-R[1] = required;
-R[2] = op;
-R[3] = args;
+Obj v__3517872_37= co->res;
+Obj v__3517489_37 = R[1];
+Obj v__3517490_37 = R[2];
+Obj v__3517491_37 = v__3517872_37;
+R[1] = v__3517491_37;
+R[2] = v__3517489_37;
+R[3] = v__3517490_37;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), args);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3517490_37);
 return;
 }
 case 7:
 {
-Obj _3516988_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj _3516708_37 = R[3];
-if (True == _3516988_37) {
-R[1] = op;
-R[2] = args;
+Obj v__3517871_37= co->res;
+Obj v__3517489_37 = R[1];
+Obj v__3517490_37 = R[2];
+Obj v__3517488_37 = R[3];
+if (True == v__3517871_37) {
+R[1] = v__3517489_37;
+R[2] = v__3517490_37;
 saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517489_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, v__3517488_37);
 return;
 }
 }
@@ -8532,9 +8581,9 @@ return;
 }
 case 1:
 {
-Obj _3516984_37= co->res;
+Obj v__3517867_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), _3516984_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517867_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8544,18 +8593,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516692_37 = R[1];
-Obj _3516693_37 = R[2];
-Obj _3516972_37 = PRIM_EQ(MAKE_NUMBER(0), _3516692_37);
-if (True == _3516972_37) {
-coraReturn(co, _3516693_37);
+Obj v__3517316_37 = R[1];
+Obj v__3517317_37 = R[2];
+Obj v__3517853_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517316_37);
+if (True == v__3517853_37) {
+coraReturn(co, v__3517317_37);
 return;
 } else {
-Obj _3516973_37 = PRIM_SUB(_3516692_37, MAKE_NUMBER(1));
-Obj _3516974_37 = primGenSym(co);
-Obj _3516975_37 = makeCons(co->gc, _3516974_37, _3516693_37);
+Obj v__3517854_37 = PRIM_SUB(v__3517316_37, MAKE_NUMBER(1));
+Obj v__3517855_37 = primGenSym(co);
+Obj v__3517856_37 = makeCons(co->gc, v__3517855_37, v__3517317_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3516973_37, _3516975_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v__3517854_37, v__3517856_37);
 return;
 }
 }
@@ -8566,31 +8615,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj _3516970_37= co->res;
-Obj find = R[1];
-if (True == _3516970_37) {
+Obj v__3517851_37= co->res;
+Obj v__3517476_37 = R[1];
+if (True == v__3517851_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517476_37);
 return;
 }
 }
 case 2:
 {
-Obj _3516969_37= co->res;
-Obj find = _3516969_37;
-R[1] = find;
+Obj v__3517850_37= co->res;
+Obj v__3517476_37 = v__3517850_37;
+R[1] = v__3517476_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517476_37);
 return;
 }
 }
@@ -8600,31 +8649,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj _3516967_37= co->res;
-Obj find = R[1];
-if (True == _3516967_37) {
+Obj v__3517848_37= co->res;
+Obj v__3517475_37 = R[1];
+if (True == v__3517848_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517475_37);
 return;
 }
 }
 case 2:
 {
-Obj _3516966_37= co->res;
-Obj find = _3516966_37;
-R[1] = find;
+Obj v__3517847_37= co->res;
+Obj v__3517475_37 = v__3517847_37;
+R[1] = v__3517475_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517475_37);
 return;
 }
 }
@@ -8634,23 +8683,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
 return;
 }
 case 1:
 {
-Obj _3516963_37= co->res;
-Obj _3516964_37 = primNot(_3516963_37);
-coraReturn(co, _3516964_37);
+Obj v__3517844_37= co->res;
+Obj v__3517845_37 = primNot(v__3517844_37);
+coraReturn(co, v__3517845_37);
 return;
 }
 case 2:
 {
-Obj _3516962_37= co->res;
+Obj v__3517843_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), _3516962_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517843_37);
 return;
 }
 }
@@ -8660,23 +8709,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516688_37 = R[1];
-Obj _3516689_37 = R[2];
-Obj _3516886_37 = PRIM_EQ(Nil, _3516689_37);
-if (True == _3516886_37) {
+Obj v__3517312_37 = R[1];
+Obj v__3517313_37 = R[2];
+Obj v__3517767_37 = PRIM_EQ(Nil, v__3517313_37);
+if (True == v__3517767_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516887_37 = PRIM_ISCONS(_3516689_37);
-if (True == _3516887_37) {
-Obj _3516888_37 = PRIM_CAR(_3516689_37);
-Obj hd = _3516888_37;
-Obj _3516889_37 = PRIM_CDR(_3516689_37);
-Obj tl = _3516889_37;
-R[1] = _3516688_37;
-R[2] = tl;
+Obj v__3517768_37 = PRIM_ISCONS(v__3517313_37);
+if (True == v__3517768_37) {
+Obj v__3517769_37 = PRIM_CAR(v__3517313_37);
+Obj v__3517473_37 = v__3517769_37;
+Obj v__3517770_37 = PRIM_CDR(v__3517313_37);
+Obj v__3517474_37 = v__3517770_37;
+R[1] = v__3517312_37;
+R[2] = v__3517474_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), _3516688_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3517312_37, v__3517473_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8687,13 +8736,13 @@ return;
 }
 case 1:
 {
-Obj _3516890_37= co->res;
-Obj _3516688_37 = R[1];
-Obj tl = R[2];
-Obj _3516891_37 = PRIM_LT(_3516890_37, MAKE_NUMBER(0));
-if (True == _3516891_37) {
+Obj v__3517771_37= co->res;
+Obj v__3517312_37 = R[1];
+Obj v__3517474_37 = R[2];
+Obj v__3517772_37 = PRIM_LT(v__3517771_37, MAKE_NUMBER(0));
+if (True == v__3517772_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), _3516688_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3517312_37, v__3517474_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8707,10 +8756,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj l = R[2];
+Obj v_x = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), MAKE_NUMBER(0), x, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -8720,32 +8769,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516682_37 = R[1];
-Obj _3516683_37 = R[2];
-Obj _3516684_37 = R[3];
-Obj _3516875_37 = PRIM_EQ(Nil, _3516684_37);
-if (True == _3516875_37) {
+Obj v__3517306_37 = R[1];
+Obj v__3517307_37 = R[2];
+Obj v__3517308_37 = R[3];
+Obj v__3517756_37 = PRIM_EQ(Nil, v__3517308_37);
+if (True == v__3517756_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516686_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516684_37, _3516682_37, _3516683_37);
-Obj _3516880_37 = PRIM_ISCONS(_3516684_37);
-if (True == _3516880_37) {
-Obj _3516881_37 = PRIM_CAR(_3516684_37);
-Obj a = _3516881_37;
-Obj _3516882_37 = PRIM_CDR(_3516684_37);
-Obj _3516883_37 = PRIM_EQ(_3516683_37, a);
-if (True == _3516883_37) {
-coraReturn(co, _3516682_37);
+Obj v__3517470_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517308_37, v__3517306_37, v__3517307_37);
+Obj v__3517761_37 = PRIM_ISCONS(v__3517308_37);
+if (True == v__3517761_37) {
+Obj v__3517762_37 = PRIM_CAR(v__3517308_37);
+Obj v__3517472_37 = v__3517762_37;
+Obj v__3517763_37 = PRIM_CDR(v__3517308_37);
+Obj v__3517764_37 = PRIM_EQ(v__3517307_37, v__3517472_37);
+if (True == v__3517764_37) {
+coraReturn(co, v__3517306_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516686_37);
+coraCall0(co, v__3517470_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516686_37);
+coraCall0(co, v__3517470_37);
 return;
 }
 }
@@ -8757,14 +8806,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516876_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516876_37) {
-Obj _3516877_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516878_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516878_37;
-Obj _3516879_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3517757_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517757_37) {
+Obj v__3517758_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517759_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517471_37 = v__3517759_37;
+Obj v__3517760_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), _3516879_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v__3517760_37, closureRef(R[0], 2), v__3517471_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8779,24 +8828,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516677_37 = R[1];
-Obj _3516678_37 = R[2];
-Obj _3516679_37 = R[3];
-Obj _3516869_37 = PRIM_EQ(Nil, _3516679_37);
-if (True == _3516869_37) {
-coraReturn(co, _3516678_37);
+Obj v__3517301_37 = R[1];
+Obj v__3517302_37 = R[2];
+Obj v__3517303_37 = R[3];
+Obj v__3517750_37 = PRIM_EQ(Nil, v__3517303_37);
+if (True == v__3517750_37) {
+coraReturn(co, v__3517302_37);
 return;
 } else {
-Obj _3516870_37 = PRIM_ISCONS(_3516679_37);
-if (True == _3516870_37) {
-Obj _3516871_37 = PRIM_CAR(_3516679_37);
-Obj x = _3516871_37;
-Obj _3516872_37 = PRIM_CDR(_3516679_37);
-Obj y = _3516872_37;
-R[1] = _3516677_37;
-R[2] = y;
+Obj v__3517751_37 = PRIM_ISCONS(v__3517303_37);
+if (True == v__3517751_37) {
+Obj v__3517752_37 = PRIM_CAR(v__3517303_37);
+Obj v__3517468_37 = v__3517752_37;
+Obj v__3517753_37 = PRIM_CDR(v__3517303_37);
+Obj v__3517469_37 = v__3517753_37;
+R[1] = v__3517301_37;
+R[2] = v__3517469_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516677_37, _3516678_37, x);
+coraCall2(co, v__3517301_37, v__3517302_37, v__3517468_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8807,11 +8856,11 @@ return;
 }
 case 1:
 {
-Obj _3516873_37= co->res;
-Obj _3516677_37 = R[1];
-Obj y = R[2];
+Obj v__3517754_37= co->res;
+Obj v__3517301_37 = R[1];
+Obj v__3517469_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), _3516677_37, _3516873_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v__3517301_37, v__3517754_37, v__3517469_37);
 return;
 }
 }
@@ -8821,44 +8870,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516672_37 = R[1];
-Obj _3516673_37 = R[2];
-Obj _3516854_37 = PRIM_EQ(Nil, _3516673_37);
-if (True == _3516854_37) {
+Obj v__3517296_37 = R[1];
+Obj v__3517297_37 = R[2];
+Obj v__3517735_37 = PRIM_EQ(Nil, v__3517297_37);
+if (True == v__3517735_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516675_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516673_37, _3516672_37);
-Obj _3516858_37 = PRIM_ISCONS(_3516673_37);
-if (True == _3516858_37) {
-Obj _3516859_37 = PRIM_CAR(_3516673_37);
-Obj _3516860_37 = PRIM_ISCONS(_3516859_37);
-if (True == _3516860_37) {
-Obj _3516861_37 = PRIM_CAR(_3516673_37);
-Obj _3516862_37 = PRIM_CAR(_3516861_37);
-Obj x = _3516862_37;
-Obj _3516863_37 = PRIM_CAR(_3516673_37);
-Obj _3516864_37 = PRIM_CDR(_3516863_37);
-Obj y = _3516864_37;
-Obj _3516865_37 = PRIM_CDR(_3516673_37);
-Obj _3516866_37 = PRIM_EQ(_3516672_37, x);
-if (True == _3516866_37) {
-Obj _3516867_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516867_37);
+Obj v__3517464_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517297_37, v__3517296_37);
+Obj v__3517739_37 = PRIM_ISCONS(v__3517297_37);
+if (True == v__3517739_37) {
+Obj v__3517740_37 = PRIM_CAR(v__3517297_37);
+Obj v__3517741_37 = PRIM_ISCONS(v__3517740_37);
+if (True == v__3517741_37) {
+Obj v__3517742_37 = PRIM_CAR(v__3517297_37);
+Obj v__3517743_37 = PRIM_CAR(v__3517742_37);
+Obj v__3517466_37 = v__3517743_37;
+Obj v__3517744_37 = PRIM_CAR(v__3517297_37);
+Obj v__3517745_37 = PRIM_CDR(v__3517744_37);
+Obj v__3517467_37 = v__3517745_37;
+Obj v__3517746_37 = PRIM_CDR(v__3517297_37);
+Obj v__3517747_37 = PRIM_EQ(v__3517296_37, v__3517466_37);
+if (True == v__3517747_37) {
+Obj v__3517748_37 = makeCons(co->gc, v__3517466_37, v__3517467_37);
+coraReturn(co, v__3517748_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516675_37);
+coraCall0(co, v__3517464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516675_37);
+coraCall0(co, v__3517464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516675_37);
+coraCall0(co, v__3517464_37);
 return;
 }
 }
@@ -8870,13 +8919,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516855_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516855_37) {
-Obj _3516856_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516857_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516857_37;
+Obj v__3517736_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517736_37) {
+Obj v__3517737_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517738_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517465_37 = v__3517738_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), closureRef(R[0], 1), v__3517465_37);
 return;
 } else {
 co->ctx.sp = R;
diff --git a/lib/toc.cora b/lib/toc.cora
index 7f43f42..2f5c72a 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -51,14 +51,17 @@
 	0 res => res
 	n res => (temp-list (- n 1) (cons (gensym) res)))
 
+  ;; env: the variables in scope, each with the name that it has in the result
   (func parse
 	_ globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
 	_ globals ['quote x] => (begin (add-symbol-to-list x globals) ['%const x])
-	env globals x => (if (elem? x env) x
-			     (begin
-			      (add-symbol-to-list x globals)
-			      ['%global x])) where (symbol? x)
-	env globals ['lambda args body] => ['lambda args (parse (append args env) globals body)]
+	env globals x => (let find (assq x env)
+			   (if (null? find)
+			       (begin
+				(add-symbol-to-list x globals)
+				['%global x])
+			       (cdr find))) where (symbol? x)
+	env globals ['lambda args body] => ['lambda args (parse (append (map (lambda (x) (cons x x)) args) env) globals body)]
 	;; macro rewrite to avoid code explosion during tailify-pass
 	env globals ['if ['if . exp1] . exp2] => (let f (gensym)
 						      v (gensym)
@@ -66,7 +69,10 @@
 							     [f ['if . exp1]]]))
 	env globals ['if . args] => ['if . (map (parse env globals) args)]
 	env globals ['do x y] => ['do (parse env globals x) (parse env globals y)]
-	env globals ['let a b c] => ['let a (parse env globals b) (parse (cons a env) globals c)]
+	;; variables of the same name may come to the same block of the C code, so each let has a new one
+	env globals ['let a b c] => (let a1 (gensym)
+					 ['let a1 (parse env globals b)
+					       (parse (cons (cons a a1) env) globals c)])
 	;; macro rewrite to avoid code explosion during tailify-pass
 	env globals [['lambda . exp1] ['if . exp2]] => (let f (gensym)
 							    (parse env globals ['let f ['lambda . exp1]
@@ -579,7 +585,7 @@
 	       (generate-str to "__symbolTable[")
 	       (generate-num to acc)
 	       (generate-str to "] = bindSymbol(co, intern(\"")
-	       (generate-str to (symbol->string sym))
+	       (generate-str to (escape-str (symbol->string sym)))
 	       (generate-str to "\"));\n")
 	       (+ acc 1)))
 	    0 globals)
diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index f8c7ec7..a2dd811 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -19,9 +19,9 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 	Obj exp = R[2];
 	char s[256];
 	symbolStr(exp, s, 256);
-	if (s[0] >= '0' && s[0] <= '9') {
-		fprintf(out, "v");
-	}
+	// The prefix keeps it apart from the keywords of C and from the names used in
+	// the generated code, such as co and R.
+	fprintf(out, "v_");
 	for (const char *p = s; *p != 0; p++) {
 		if ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z') ||
 			(*p >= '0' && *p <= '9')) {
@@ -29,7 +29,7 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 		} else if (*p == '_') {
 			fprintf(out, "__");
 		} else {
-			fprintf(out, "_%d", *p);
+			fprintf(out, "_%d", (unsigned char)*p);
 		}
 	}
 	coraReturn(co, Nil);
-- 
2.43.0


From ec5014572cde968cc8b6fb66391955a65727aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 41/63] fix: a partial application of a primitive evaluates its
 arguments once

---
 init.c       | 3144 +++++++++----------
 lib/toc.c    | 8399 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |   13 +-
 3 files changed, 5843 insertions(+), 5713 deletions(-)

diff --git a/init.c b/init.c
index 6f936f8..217a0c0 100644
--- a/init.c
+++ b/init.c
@@ -273,315 +273,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513164_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v__3513167_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v__3513170_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v__3513173_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v__3513176_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v__3513180_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v__3513185_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v__3513189_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3513197_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3513199_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3513204_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3513271_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3513274_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3513277_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3513280_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3513283_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3513287_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3513292_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3513296_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3513304_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3513306_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3513311_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj v__3513684_37= co->res;
-Obj v__3513690_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v__3513702_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v__3513703_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3513704_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513703_37);
-Obj v__3513705_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513704_37);
-Obj v__3513706_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3513707_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513706_37);
-Obj v__3513708_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513707_37);
-Obj v__3513709_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3513710_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513709_37);
-Obj v__3513711_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513710_37);
-Obj v__3513712_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3513713_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513712_37);
-Obj v__3513714_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513713_37);
-Obj v__3513715_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3513716_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513715_37);
-Obj v__3513717_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513716_37);
-Obj v__3513718_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3513719_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513718_37);
-Obj v__3513720_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513719_37);
-Obj v__3513721_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3513722_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513721_37);
-Obj v__3513723_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513722_37);
-Obj v__3513724_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3513725_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513724_37);
-Obj v__3513726_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513725_37);
-Obj v__3513727_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3513728_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513727_37);
-Obj v__3513729_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513728_37);
-Obj v__3513730_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3513731_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513730_37);
-Obj v__3513732_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513731_37);
-Obj v__3513733_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3513734_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513733_37);
-Obj v__3513735_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513734_37);
-Obj v__3513736_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3513737_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513736_37);
-Obj v__3513738_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513737_37);
-Obj v__3513739_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3513740_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513739_37);
-Obj v__3513741_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513740_37);
-Obj v__3513742_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3513743_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513742_37);
-Obj v__3513744_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513743_37);
-Obj v__3513745_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3513746_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513745_37);
-Obj v__3513747_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513746_37);
-Obj v__3513748_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3513749_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513748_37);
-Obj v__3513750_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513749_37);
-Obj v__3513751_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3513752_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513751_37);
-Obj v__3513753_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513752_37);
-Obj v__3513754_37 = makeCons(co->gc, v__3513753_37, Nil);
-Obj v__3513755_37 = makeCons(co->gc, v__3513750_37, v__3513754_37);
-Obj v__3513756_37 = makeCons(co->gc, v__3513747_37, v__3513755_37);
-Obj v__3513757_37 = makeCons(co->gc, v__3513744_37, v__3513756_37);
-Obj v__3513758_37 = makeCons(co->gc, v__3513741_37, v__3513757_37);
-Obj v__3513759_37 = makeCons(co->gc, v__3513738_37, v__3513758_37);
-Obj v__3513760_37 = makeCons(co->gc, v__3513735_37, v__3513759_37);
-Obj v__3513761_37 = makeCons(co->gc, v__3513732_37, v__3513760_37);
-Obj v__3513762_37 = makeCons(co->gc, v__3513729_37, v__3513761_37);
-Obj v__3513763_37 = makeCons(co->gc, v__3513726_37, v__3513762_37);
-Obj v__3513764_37 = makeCons(co->gc, v__3513723_37, v__3513763_37);
-Obj v__3513765_37 = makeCons(co->gc, v__3513720_37, v__3513764_37);
-Obj v__3513766_37 = makeCons(co->gc, v__3513717_37, v__3513765_37);
-Obj v__3513767_37 = makeCons(co->gc, v__3513714_37, v__3513766_37);
-Obj v__3513768_37 = makeCons(co->gc, v__3513711_37, v__3513767_37);
-Obj v__3513769_37 = makeCons(co->gc, v__3513708_37, v__3513768_37);
-Obj v__3513770_37 = makeCons(co->gc, v__3513705_37, v__3513769_37);
-Obj v__3513771_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513770_37);
-Obj v__3513786_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v__3513790_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v__3513968_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v__3513969_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v__3513970_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3513969_37);
-Obj v__3513971_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3513970_37);
-Obj v__3513972_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3513971_37);
-Obj v__3513973_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3513972_37);
-Obj v__3513974_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3513973_37);
-Obj v__3513975_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3513974_37);
-Obj v__3513976_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3513975_37);
-Obj v__3513977_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3513976_37);
-Obj v__3513978_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3513977_37);
-Obj v__3513979_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513978_37);
-Obj v__3513980_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3513979_37);
-Obj v__3513981_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3513980_37);
-Obj v__3513982_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3513981_37);
-Obj v__3513983_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3513982_37);
-Obj v__3513984_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3513983_37);
-Obj v__3513985_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3513984_37);
-Obj v__3513986_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3513985_37);
-Obj v__3513987_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3513986_37);
-Obj v__3513988_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3513987_37);
-Obj v__3513989_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3513988_37);
-Obj v__3513990_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3513989_37);
-Obj v__3513991_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3513990_37);
-Obj v__3513992_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3513991_37);
-Obj v__3513993_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3513992_37);
-Obj v__3513994_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3513993_37);
-Obj v__3513995_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3513994_37);
-Obj v__3513996_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3513995_37);
-Obj v__3513997_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3513996_37);
-Obj v__3513998_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3513997_37);
-Obj v__3513999_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3513998_37);
-Obj v__3514000_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3513999_37);
-Obj v__3514001_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3514000_37);
-Obj v__3514002_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514001_37);
-Obj v__3514003_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3514002_37);
-Obj v__3514004_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3514003_37);
-Obj v__3514005_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3514004_37);
-Obj v__3514006_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3514005_37);
-Obj v__3514007_37 = primSet(co, getBinding(co, packageID, 53).name, v__3514006_37);
-Obj v__3514008_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v__3514009_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v__3514010_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v__3514011_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v__3514012_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v__3514013_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v__3514014_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v__3514015_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v__3514016_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v__3514017_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v__3514018_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v__3514019_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v__3514020_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v__3514021_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v__3514022_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v__3514023_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v__3514024_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v__3514025_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v__3514026_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v__3514027_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v__3514028_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v__3514029_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v__3514030_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v__3514031_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v__3514032_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v__3514033_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v__3514034_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v__3514035_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v__3514036_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v__3514037_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v__3514038_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v__3514039_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v__3514040_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v__3514041_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v__3514042_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v__3514043_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v__3514044_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v__3514045_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v__3514046_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v__3514046_37);
+Obj v__3513791_37= co->res;
+Obj v__3513797_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v__3513809_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v__3513810_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3513811_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513810_37);
+Obj v__3513812_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513811_37);
+Obj v__3513813_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3513814_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513813_37);
+Obj v__3513815_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513814_37);
+Obj v__3513816_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3513817_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513816_37);
+Obj v__3513818_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513817_37);
+Obj v__3513819_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3513820_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513819_37);
+Obj v__3513821_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513820_37);
+Obj v__3513822_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3513823_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513822_37);
+Obj v__3513824_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513823_37);
+Obj v__3513825_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3513826_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513825_37);
+Obj v__3513827_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513826_37);
+Obj v__3513828_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3513829_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513828_37);
+Obj v__3513830_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513829_37);
+Obj v__3513831_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3513832_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513831_37);
+Obj v__3513833_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513832_37);
+Obj v__3513834_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3513835_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513834_37);
+Obj v__3513836_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513835_37);
+Obj v__3513837_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3513838_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513837_37);
+Obj v__3513839_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513838_37);
+Obj v__3513840_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3513841_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513840_37);
+Obj v__3513842_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513841_37);
+Obj v__3513843_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3513844_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513843_37);
+Obj v__3513845_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513844_37);
+Obj v__3513846_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3513847_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513846_37);
+Obj v__3513848_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513847_37);
+Obj v__3513849_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3513850_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513849_37);
+Obj v__3513851_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513850_37);
+Obj v__3513852_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3513853_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513852_37);
+Obj v__3513854_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513853_37);
+Obj v__3513855_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3513856_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513855_37);
+Obj v__3513857_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513856_37);
+Obj v__3513858_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3513859_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513858_37);
+Obj v__3513860_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513859_37);
+Obj v__3513861_37 = makeCons(co->gc, v__3513860_37, Nil);
+Obj v__3513862_37 = makeCons(co->gc, v__3513857_37, v__3513861_37);
+Obj v__3513863_37 = makeCons(co->gc, v__3513854_37, v__3513862_37);
+Obj v__3513864_37 = makeCons(co->gc, v__3513851_37, v__3513863_37);
+Obj v__3513865_37 = makeCons(co->gc, v__3513848_37, v__3513864_37);
+Obj v__3513866_37 = makeCons(co->gc, v__3513845_37, v__3513865_37);
+Obj v__3513867_37 = makeCons(co->gc, v__3513842_37, v__3513866_37);
+Obj v__3513868_37 = makeCons(co->gc, v__3513839_37, v__3513867_37);
+Obj v__3513869_37 = makeCons(co->gc, v__3513836_37, v__3513868_37);
+Obj v__3513870_37 = makeCons(co->gc, v__3513833_37, v__3513869_37);
+Obj v__3513871_37 = makeCons(co->gc, v__3513830_37, v__3513870_37);
+Obj v__3513872_37 = makeCons(co->gc, v__3513827_37, v__3513871_37);
+Obj v__3513873_37 = makeCons(co->gc, v__3513824_37, v__3513872_37);
+Obj v__3513874_37 = makeCons(co->gc, v__3513821_37, v__3513873_37);
+Obj v__3513875_37 = makeCons(co->gc, v__3513818_37, v__3513874_37);
+Obj v__3513876_37 = makeCons(co->gc, v__3513815_37, v__3513875_37);
+Obj v__3513877_37 = makeCons(co->gc, v__3513812_37, v__3513876_37);
+Obj v__3513878_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513877_37);
+Obj v__3513893_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v__3513897_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v__3514075_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v__3514076_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3514077_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3514076_37);
+Obj v__3514078_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3514077_37);
+Obj v__3514079_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3514078_37);
+Obj v__3514080_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3514079_37);
+Obj v__3514081_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3514080_37);
+Obj v__3514082_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3514081_37);
+Obj v__3514083_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3514082_37);
+Obj v__3514084_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3514083_37);
+Obj v__3514085_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3514084_37);
+Obj v__3514086_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3514085_37);
+Obj v__3514087_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3514086_37);
+Obj v__3514088_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3514087_37);
+Obj v__3514089_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3514088_37);
+Obj v__3514090_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3514089_37);
+Obj v__3514091_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3514090_37);
+Obj v__3514092_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3514091_37);
+Obj v__3514093_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3514092_37);
+Obj v__3514094_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3514093_37);
+Obj v__3514095_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3514094_37);
+Obj v__3514096_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3514095_37);
+Obj v__3514097_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3514096_37);
+Obj v__3514098_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3514097_37);
+Obj v__3514099_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3514098_37);
+Obj v__3514100_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3514099_37);
+Obj v__3514101_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3514100_37);
+Obj v__3514102_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3514101_37);
+Obj v__3514103_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3514102_37);
+Obj v__3514104_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3514103_37);
+Obj v__3514105_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3514104_37);
+Obj v__3514106_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3514105_37);
+Obj v__3514107_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3514106_37);
+Obj v__3514108_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3514107_37);
+Obj v__3514109_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514108_37);
+Obj v__3514110_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3514109_37);
+Obj v__3514111_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3514110_37);
+Obj v__3514112_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3514111_37);
+Obj v__3514113_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3514112_37);
+Obj v__3514114_37 = primSet(co, getBinding(co, packageID, 53).name, v__3514113_37);
+Obj v__3514115_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3514116_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3514117_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3514118_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3514119_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3514120_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3514121_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v__3514122_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v__3514123_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v__3514124_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v__3514125_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3514126_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3514127_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3514128_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3514129_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3514130_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3514131_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3514132_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3514133_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3514134_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3514135_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3514136_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3514137_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3514138_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3514139_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3514140_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3514141_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3514142_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3514143_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3514144_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3514145_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3514146_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v__3514147_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3514148_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v__3514149_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3514150_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3514151_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3514152_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3514153_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3514153_37);
 return;
 }
 case 2:
 {
-Obj v__3513634_37= co->res;
-Obj v__3513663_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v__3513664_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v__3513741_37= co->res;
+Obj v__3513770_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v__3513771_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3513617_37= co->res;
-Obj v__3513631_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v__3513724_37= co->res;
+Obj v__3513738_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj v__3513595_37= co->res;
-Obj v__3513615_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v__3513702_37= co->res;
+Obj v__3513722_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj v__3513564_37= co->res;
-Obj v__3513565_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v__3513566_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v__3513569_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v__3513593_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3513671_37= co->res;
+Obj v__3513672_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v__3513673_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v__3513676_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3513700_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj v__3513456_37= co->res;
-Obj v__3513508_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v__3513509_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v__3513514_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v__3513518_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v__3513519_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v__3513527_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v__3513528_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v__3513534_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3513545_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v__3513551_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v__3513563_37= co->res;
+Obj v__3513615_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v__3513616_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v__3513621_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v__3513625_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v__3513626_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v__3513634_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v__3513635_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v__3513641_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3513652_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v__3513658_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj v__3513351_37= co->res;
-Obj v__3513373_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v__3513406_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v__3513419_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v__3513441_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v__3513455_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v__3513458_37= co->res;
+Obj v__3513480_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3513513_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3513526_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3513548_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3513562_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj v__3513336_37= co->res;
-Obj v__3513339_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3513349_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3513443_37= co->res;
+Obj v__3513446_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3513456_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v__3513322_37= co->res;
-Obj v__3513334_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v__3513429_37= co->res;
+Obj v__3513441_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v__3513308_37= co->res;
-Obj v__3513320_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v__3513415_37= co->res;
+Obj v__3513427_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v__3513294_37= co->res;
+Obj v__3513401_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v__3513272_37= co->res;
-Obj v__3513277_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v__3513280_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v__3513292_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v__3513379_37= co->res;
+Obj v__3513384_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3513387_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3513399_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v__3513262_37= co->res;
+Obj v__3513369_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v__3513260_37= co->res;
+Obj v__3513367_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v__3513205_37= co->res;
-Obj v__3513206_37 = primSet(co, getBinding(co, packageID, 149).name, v__3513205_37);
-Obj v__3513212_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v__3513213_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v__3513214_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v__3513215_37 = primGenSym(co);
-Obj v__3513216_37 = primSet(co, getBinding(co, packageID, 145).name, v__3513215_37);
-Obj v__3513220_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v__3513229_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v__3513230_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v__3513247_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v__3513248_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v__3513259_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v__3513312_37= co->res;
+Obj v__3513313_37 = primSet(co, getBinding(co, packageID, 149).name, v__3513312_37);
+Obj v__3513319_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3513320_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3513321_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v__3513322_37 = primGenSym(co);
+Obj v__3513323_37 = primSet(co, getBinding(co, packageID, 145).name, v__3513322_37);
+Obj v__3513327_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3513336_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3513337_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3513354_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3513355_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v__3513366_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -593,67 +593,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513047_37 = R[1];
-Obj v__3513048_37 = R[2];
-Obj v__3513049_37 = R[3];
-Obj v__3513050_37 = R[4];
-Obj v__3513136_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3513047_37, v__3513048_37, v__3513049_37, v__3513050_37);
-R[1] = v__3513050_37;
-R[2] = v__3513136_37;
+Obj v__3513154_37 = R[1];
+Obj v__3513155_37 = R[2];
+Obj v__3513156_37 = R[3];
+Obj v__3513157_37 = R[4];
+Obj v__3513243_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3513154_37, v__3513155_37, v__3513156_37, v__3513157_37);
+R[1] = v__3513157_37;
+R[2] = v__3513243_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513050_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513157_37);
 return;
 }
 case 1:
 {
-Obj v__3513967_37= co->res;
-Obj v__3513136_37 = R[1];
-if (True == v__3513967_37) {
+Obj v__3514074_37= co->res;
+Obj v__3513243_37 = R[1];
+if (True == v__3514074_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513136_37, True);
+coraCall1(co, v__3513243_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513136_37, False);
+coraCall1(co, v__3513243_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513966_37= co->res;
-Obj v__3513050_37 = R[1];
-Obj v__3513136_37 = R[2];
-if (True == v__3513966_37) {
+Obj v__3514073_37= co->res;
+Obj v__3513157_37 = R[1];
+Obj v__3513243_37 = R[2];
+if (True == v__3514073_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513136_37, True);
+coraCall1(co, v__3513243_37, True);
 return;
 } else {
-R[1] = v__3513136_37;
+R[1] = v__3513243_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513050_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513157_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3513964_37= co->res;
-Obj v__3513050_37 = R[1];
-Obj v__3513136_37 = R[2];
-if (True == v__3513964_37) {
+Obj v__3514071_37= co->res;
+Obj v__3513157_37 = R[1];
+Obj v__3513243_37 = R[2];
+if (True == v__3514071_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513136_37, True);
+coraCall1(co, v__3513243_37, True);
 return;
 } else {
-Obj v__3513965_37 = primIsString(v__3513050_37);
-if (True == v__3513965_37) {
+Obj v__3514072_37 = primIsString(v__3513157_37);
+if (True == v__3514072_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513136_37, True);
+coraCall1(co, v__3513243_37, True);
 return;
 } else {
-R[1] = v__3513050_37;
-R[2] = v__3513136_37;
+R[1] = v__3513157_37;
+R[2] = v__3513243_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513050_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513157_37);
 return;
 }
 }
@@ -665,49 +665,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513135_37 = R[1];
-if (True == v__3513135_37) {
+Obj v__3513242_37 = R[1];
+if (True == v__3513242_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v__3513137_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3513952_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3513952_37) {
-Obj v__3513953_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3513954_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3513953_37);
-if (True == v__3513954_37) {
-Obj v__3513955_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3513956_37 = PRIM_ISCONS(v__3513955_37);
-if (True == v__3513956_37) {
-Obj v__3513957_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3513958_37 = PRIM_CAR(v__3513957_37);
-Obj v__3513162_37 = v__3513958_37;
-Obj v__3513959_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3513960_37 = PRIM_CDR(v__3513959_37);
-Obj v__3513961_37 = PRIM_EQ(Nil, v__3513960_37);
-if (True == v__3513961_37) {
-Obj v__3513962_37 = makeCons(co->gc, v__3513162_37, Nil);
-Obj v__3513963_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513962_37);
-coraReturn(co, v__3513963_37);
+Obj v__3513244_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3514059_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3514059_37) {
+Obj v__3514060_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3514061_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3514060_37);
+if (True == v__3514061_37) {
+Obj v__3514062_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514063_37 = PRIM_ISCONS(v__3514062_37);
+if (True == v__3514063_37) {
+Obj v__3514064_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514065_37 = PRIM_CAR(v__3514064_37);
+Obj v__3513269_37 = v__3514065_37;
+Obj v__3514066_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514067_37 = PRIM_CDR(v__3514066_37);
+Obj v__3514068_37 = PRIM_EQ(Nil, v__3514067_37);
+if (True == v__3514068_37) {
+Obj v__3514069_37 = makeCons(co->gc, v__3513269_37, Nil);
+Obj v__3514070_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514069_37);
+coraReturn(co, v__3514070_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513137_37);
+coraCall0(co, v__3513244_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513137_37);
+coraCall0(co, v__3513244_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513137_37);
+coraCall0(co, v__3513244_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513137_37);
+coraCall0(co, v__3513244_37);
 return;
 }
 }
@@ -719,73 +719,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513791_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3513791_37) {
+Obj v__3513898_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3513898_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513138_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513930_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513930_37) {
-Obj v__3513931_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513932_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3513931_37);
-if (True == v__3513932_37) {
-Obj v__3513933_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513934_37 = PRIM_ISCONS(v__3513933_37);
-if (True == v__3513934_37) {
-Obj v__3513935_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513936_37 = PRIM_CAR(v__3513935_37);
-Obj v__3513160_37 = v__3513936_37;
-Obj v__3513937_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513938_37 = PRIM_CDR(v__3513937_37);
-Obj v__3513939_37 = PRIM_ISCONS(v__3513938_37);
-if (True == v__3513939_37) {
-Obj v__3513940_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513941_37 = PRIM_CDR(v__3513940_37);
-Obj v__3513942_37 = PRIM_CAR(v__3513941_37);
-Obj v__3513161_37 = v__3513942_37;
-Obj v__3513943_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513944_37 = PRIM_CDR(v__3513943_37);
-Obj v__3513945_37 = PRIM_CDR(v__3513944_37);
-Obj v__3513946_37 = PRIM_EQ(Nil, v__3513945_37);
-if (True == v__3513946_37) {
-R[1] = v__3513161_37;
-R[2] = v__3513160_37;
+Obj v__3513245_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3514037_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3514037_37) {
+Obj v__3514038_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514039_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3514038_37);
+if (True == v__3514039_37) {
+Obj v__3514040_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514041_37 = PRIM_ISCONS(v__3514040_37);
+if (True == v__3514041_37) {
+Obj v__3514042_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514043_37 = PRIM_CAR(v__3514042_37);
+Obj v__3513267_37 = v__3514043_37;
+Obj v__3514044_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514045_37 = PRIM_CDR(v__3514044_37);
+Obj v__3514046_37 = PRIM_ISCONS(v__3514045_37);
+if (True == v__3514046_37) {
+Obj v__3514047_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514048_37 = PRIM_CDR(v__3514047_37);
+Obj v__3514049_37 = PRIM_CAR(v__3514048_37);
+Obj v__3513268_37 = v__3514049_37;
+Obj v__3514050_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514051_37 = PRIM_CDR(v__3514050_37);
+Obj v__3514052_37 = PRIM_CDR(v__3514051_37);
+Obj v__3514053_37 = PRIM_EQ(Nil, v__3514052_37);
+if (True == v__3514053_37) {
+R[1] = v__3513268_37;
+R[2] = v__3513267_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513160_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513267_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513138_37);
+coraCall0(co, v__3513245_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513138_37);
+coraCall0(co, v__3513245_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513138_37);
+coraCall0(co, v__3513245_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513138_37);
+coraCall0(co, v__3513245_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513138_37);
+coraCall0(co, v__3513245_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513793_37= co->res;
-if (True == v__3513793_37) {
+Obj v__3513900_37= co->res;
+if (True == v__3513900_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -796,8 +796,8 @@ return;
 }
 case 2:
 {
-Obj v__3513792_37= co->res;
-if (True == v__3513792_37) {
+Obj v__3513899_37= co->res;
+if (True == v__3513899_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -808,22 +808,22 @@ return;
 }
 case 3:
 {
-Obj v__3513948_37= co->res;
-Obj v__3513160_37 = R[1];
-Obj v__3513949_37 = makeCons(co->gc, v__3513948_37, Nil);
-Obj v__3513950_37 = makeCons(co->gc, v__3513160_37, v__3513949_37);
-Obj v__3513951_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513950_37);
-coraReturn(co, v__3513951_37);
+Obj v__3514055_37= co->res;
+Obj v__3513267_37 = R[1];
+Obj v__3514056_37 = makeCons(co->gc, v__3514055_37, Nil);
+Obj v__3514057_37 = makeCons(co->gc, v__3513267_37, v__3514056_37);
+Obj v__3514058_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514057_37);
+coraReturn(co, v__3514058_37);
 return;
 }
 case 4:
 {
-Obj v__3513947_37= co->res;
-Obj v__3513161_37 = R[1];
-Obj v__3513160_37 = R[2];
-R[1] = v__3513160_37;
+Obj v__3514054_37= co->res;
+Obj v__3513268_37 = R[1];
+Obj v__3513267_37 = R[2];
+R[1] = v__3513267_37;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513947_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513161_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3514054_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513268_37);
 return;
 }
 }
@@ -833,132 +833,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513139_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513886_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513886_37) {
-Obj v__3513887_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513888_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513887_37);
-if (True == v__3513888_37) {
-Obj v__3513889_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513890_37 = PRIM_ISCONS(v__3513889_37);
-if (True == v__3513890_37) {
-Obj v__3513891_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513892_37 = PRIM_CAR(v__3513891_37);
-Obj v__3513893_37 = PRIM_ISCONS(v__3513892_37);
-if (True == v__3513893_37) {
-Obj v__3513894_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513895_37 = PRIM_CAR(v__3513894_37);
-Obj v__3513896_37 = PRIM_CAR(v__3513895_37);
-Obj v__3513897_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513896_37);
-if (True == v__3513897_37) {
-Obj v__3513898_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513899_37 = PRIM_CAR(v__3513898_37);
-Obj v__3513900_37 = PRIM_CDR(v__3513899_37);
-Obj v__3513901_37 = PRIM_ISCONS(v__3513900_37);
-if (True == v__3513901_37) {
-Obj v__3513902_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513903_37 = PRIM_CAR(v__3513902_37);
-Obj v__3513904_37 = PRIM_CDR(v__3513903_37);
-Obj v__3513905_37 = PRIM_CAR(v__3513904_37);
-Obj v__3513158_37 = v__3513905_37;
-Obj v__3513906_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513907_37 = PRIM_CAR(v__3513906_37);
-Obj v__3513908_37 = PRIM_CDR(v__3513907_37);
-Obj v__3513909_37 = PRIM_CDR(v__3513908_37);
-Obj v__3513910_37 = PRIM_EQ(Nil, v__3513909_37);
-if (True == v__3513910_37) {
-Obj v__3513911_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513912_37 = PRIM_CDR(v__3513911_37);
-Obj v__3513913_37 = PRIM_ISCONS(v__3513912_37);
-if (True == v__3513913_37) {
-Obj v__3513914_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513915_37 = PRIM_CDR(v__3513914_37);
-Obj v__3513916_37 = PRIM_CAR(v__3513915_37);
-Obj v__3513159_37 = v__3513916_37;
-Obj v__3513917_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513918_37 = PRIM_CDR(v__3513917_37);
-Obj v__3513919_37 = PRIM_CDR(v__3513918_37);
-Obj v__3513920_37 = PRIM_EQ(Nil, v__3513919_37);
-if (True == v__3513920_37) {
-Obj v__3513921_37 = primIsString(v__3513158_37);
-if (True == v__3513921_37) {
-Obj v__3513922_37 = makeCons(co->gc, v__3513158_37, Nil);
-Obj v__3513923_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513922_37);
-R[1] = v__3513158_37;
-R[2] = v__3513159_37;
+Obj v__3513246_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513993_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513993_37) {
+Obj v__3513994_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513995_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513994_37);
+if (True == v__3513995_37) {
+Obj v__3513996_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513997_37 = PRIM_ISCONS(v__3513996_37);
+if (True == v__3513997_37) {
+Obj v__3513998_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513999_37 = PRIM_CAR(v__3513998_37);
+Obj v__3514000_37 = PRIM_ISCONS(v__3513999_37);
+if (True == v__3514000_37) {
+Obj v__3514001_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514002_37 = PRIM_CAR(v__3514001_37);
+Obj v__3514003_37 = PRIM_CAR(v__3514002_37);
+Obj v__3514004_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3514003_37);
+if (True == v__3514004_37) {
+Obj v__3514005_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514006_37 = PRIM_CAR(v__3514005_37);
+Obj v__3514007_37 = PRIM_CDR(v__3514006_37);
+Obj v__3514008_37 = PRIM_ISCONS(v__3514007_37);
+if (True == v__3514008_37) {
+Obj v__3514009_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514010_37 = PRIM_CAR(v__3514009_37);
+Obj v__3514011_37 = PRIM_CDR(v__3514010_37);
+Obj v__3514012_37 = PRIM_CAR(v__3514011_37);
+Obj v__3513265_37 = v__3514012_37;
+Obj v__3514013_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514014_37 = PRIM_CAR(v__3514013_37);
+Obj v__3514015_37 = PRIM_CDR(v__3514014_37);
+Obj v__3514016_37 = PRIM_CDR(v__3514015_37);
+Obj v__3514017_37 = PRIM_EQ(Nil, v__3514016_37);
+if (True == v__3514017_37) {
+Obj v__3514018_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514019_37 = PRIM_CDR(v__3514018_37);
+Obj v__3514020_37 = PRIM_ISCONS(v__3514019_37);
+if (True == v__3514020_37) {
+Obj v__3514021_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514022_37 = PRIM_CDR(v__3514021_37);
+Obj v__3514023_37 = PRIM_CAR(v__3514022_37);
+Obj v__3513266_37 = v__3514023_37;
+Obj v__3514024_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514025_37 = PRIM_CDR(v__3514024_37);
+Obj v__3514026_37 = PRIM_CDR(v__3514025_37);
+Obj v__3514027_37 = PRIM_EQ(Nil, v__3514026_37);
+if (True == v__3514027_37) {
+Obj v__3514028_37 = primIsString(v__3513265_37);
+if (True == v__3514028_37) {
+Obj v__3514029_37 = makeCons(co->gc, v__3513265_37, Nil);
+Obj v__3514030_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3514029_37);
+R[1] = v__3513265_37;
+R[2] = v__3513266_37;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513923_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514030_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513139_37);
+coraCall0(co, v__3513246_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513926_37= co->res;
-Obj v__3513924_37 = R[1];
-Obj v__3513927_37 = makeCons(co->gc, v__3513926_37, Nil);
-Obj v__3513928_37 = makeCons(co->gc, v__3513924_37, v__3513927_37);
-Obj v__3513929_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513928_37);
-coraReturn(co, v__3513929_37);
+Obj v__3514033_37= co->res;
+Obj v__3514031_37 = R[1];
+Obj v__3514034_37 = makeCons(co->gc, v__3514033_37, Nil);
+Obj v__3514035_37 = makeCons(co->gc, v__3514031_37, v__3514034_37);
+Obj v__3514036_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3514035_37);
+coraReturn(co, v__3514036_37);
 return;
 }
 case 2:
 {
-Obj v__3513924_37= co->res;
-Obj v__3513158_37 = R[1];
-Obj v__3513159_37 = R[2];
-Obj v__3513925_37 = makeCons(co->gc, v__3513158_37, closureRef(R[0], 3));
-R[1] = v__3513924_37;
+Obj v__3514031_37= co->res;
+Obj v__3513265_37 = R[1];
+Obj v__3513266_37 = R[2];
+Obj v__3514032_37 = makeCons(co->gc, v__3513265_37, closureRef(R[0], 3));
+R[1] = v__3514031_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3513925_37, v__3513159_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3514032_37, v__3513266_37);
 return;
 }
 }
@@ -968,34 +968,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513140_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513878_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513878_37) {
-Obj v__3513879_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513153_37 = v__3513879_37;
-Obj v__3513880_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513154_37 = v__3513880_37;
-Obj v__3513157_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3513153_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513154_37, v__3513140_37);
-Obj v__3513884_37 = PRIM_EQ(v__3513153_37, getBinding(co, packageID, 126).name);
-if (True == v__3513884_37) {
+Obj v__3513247_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513985_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513985_37) {
+Obj v__3513986_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513260_37 = v__3513986_37;
+Obj v__3513987_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513261_37 = v__3513987_37;
+Obj v__3513264_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3513260_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513261_37, v__3513247_37);
+Obj v__3513991_37 = PRIM_EQ(v__3513260_37, getBinding(co, packageID, 126).name);
+if (True == v__3513991_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513157_37, True);
+coraCall1(co, v__3513264_37, True);
 return;
 } else {
-Obj v__3513885_37 = PRIM_EQ(v__3513153_37, getBinding(co, packageID, 90).name);
-if (True == v__3513885_37) {
+Obj v__3513992_37 = PRIM_EQ(v__3513260_37, getBinding(co, packageID, 90).name);
+if (True == v__3513992_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513157_37, True);
+coraCall1(co, v__3513264_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513157_37, False);
+coraCall1(co, v__3513264_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513140_37);
+coraCall0(co, v__3513247_37);
 return;
 }
 }
@@ -1006,8 +1006,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513156_37 = R[1];
-if (True == v__3513156_37) {
+Obj v__3513263_37 = R[1];
+if (True == v__3513263_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1019,16 +1019,16 @@ return;
 }
 case 1:
 {
-Obj v__3513882_37= co->res;
-Obj v__3513883_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513882_37);
-coraReturn(co, v__3513883_37);
+Obj v__3513989_37= co->res;
+Obj v__3513990_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513989_37);
+coraReturn(co, v__3513990_37);
 return;
 }
 case 2:
 {
-Obj v__3513881_37= co->res;
+Obj v__3513988_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513881_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513988_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1038,100 +1038,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513141_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513845_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513845_37) {
-Obj v__3513846_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513847_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3513846_37);
-if (True == v__3513847_37) {
-Obj v__3513848_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513849_37 = PRIM_ISCONS(v__3513848_37);
-if (True == v__3513849_37) {
-Obj v__3513850_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513851_37 = PRIM_CAR(v__3513850_37);
-Obj v__3513150_37 = v__3513851_37;
-Obj v__3513852_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513853_37 = PRIM_CDR(v__3513852_37);
-Obj v__3513854_37 = PRIM_ISCONS(v__3513853_37);
-if (True == v__3513854_37) {
-Obj v__3513855_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513856_37 = PRIM_CDR(v__3513855_37);
-Obj v__3513857_37 = PRIM_CAR(v__3513856_37);
-Obj v__3513151_37 = v__3513857_37;
-Obj v__3513858_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513859_37 = PRIM_CDR(v__3513858_37);
-Obj v__3513860_37 = PRIM_CDR(v__3513859_37);
-Obj v__3513861_37 = PRIM_ISCONS(v__3513860_37);
-if (True == v__3513861_37) {
-Obj v__3513862_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513863_37 = PRIM_CDR(v__3513862_37);
-Obj v__3513864_37 = PRIM_CDR(v__3513863_37);
-Obj v__3513865_37 = PRIM_CAR(v__3513864_37);
-Obj v__3513152_37 = v__3513865_37;
-Obj v__3513866_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513867_37 = PRIM_CDR(v__3513866_37);
-Obj v__3513868_37 = PRIM_CDR(v__3513867_37);
-Obj v__3513869_37 = PRIM_CDR(v__3513868_37);
-Obj v__3513870_37 = PRIM_EQ(Nil, v__3513869_37);
-if (True == v__3513870_37) {
-R[1] = v__3513152_37;
-R[2] = v__3513150_37;
+Obj v__3513248_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513952_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513952_37) {
+Obj v__3513953_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513954_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3513953_37);
+if (True == v__3513954_37) {
+Obj v__3513955_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513956_37 = PRIM_ISCONS(v__3513955_37);
+if (True == v__3513956_37) {
+Obj v__3513957_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513958_37 = PRIM_CAR(v__3513957_37);
+Obj v__3513257_37 = v__3513958_37;
+Obj v__3513959_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513960_37 = PRIM_CDR(v__3513959_37);
+Obj v__3513961_37 = PRIM_ISCONS(v__3513960_37);
+if (True == v__3513961_37) {
+Obj v__3513962_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513963_37 = PRIM_CDR(v__3513962_37);
+Obj v__3513964_37 = PRIM_CAR(v__3513963_37);
+Obj v__3513258_37 = v__3513964_37;
+Obj v__3513965_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513966_37 = PRIM_CDR(v__3513965_37);
+Obj v__3513967_37 = PRIM_CDR(v__3513966_37);
+Obj v__3513968_37 = PRIM_ISCONS(v__3513967_37);
+if (True == v__3513968_37) {
+Obj v__3513969_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513970_37 = PRIM_CDR(v__3513969_37);
+Obj v__3513971_37 = PRIM_CDR(v__3513970_37);
+Obj v__3513972_37 = PRIM_CAR(v__3513971_37);
+Obj v__3513259_37 = v__3513972_37;
+Obj v__3513973_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513974_37 = PRIM_CDR(v__3513973_37);
+Obj v__3513975_37 = PRIM_CDR(v__3513974_37);
+Obj v__3513976_37 = PRIM_CDR(v__3513975_37);
+Obj v__3513977_37 = PRIM_EQ(Nil, v__3513976_37);
+if (True == v__3513977_37) {
+R[1] = v__3513259_37;
+R[2] = v__3513257_37;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513151_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513258_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513248_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513248_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513248_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513248_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513248_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513248_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513873_37= co->res;
-Obj v__3513871_37 = R[1];
-Obj v__3513150_37 = R[2];
-Obj v__3513874_37 = makeCons(co->gc, v__3513873_37, Nil);
-Obj v__3513875_37 = makeCons(co->gc, v__3513871_37, v__3513874_37);
-Obj v__3513876_37 = makeCons(co->gc, v__3513150_37, v__3513875_37);
-Obj v__3513877_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513876_37);
-coraReturn(co, v__3513877_37);
+Obj v__3513980_37= co->res;
+Obj v__3513978_37 = R[1];
+Obj v__3513257_37 = R[2];
+Obj v__3513981_37 = makeCons(co->gc, v__3513980_37, Nil);
+Obj v__3513982_37 = makeCons(co->gc, v__3513978_37, v__3513981_37);
+Obj v__3513983_37 = makeCons(co->gc, v__3513257_37, v__3513982_37);
+Obj v__3513984_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513983_37);
+coraReturn(co, v__3513984_37);
 return;
 }
 case 2:
 {
-Obj v__3513871_37= co->res;
-Obj v__3513152_37 = R[1];
-Obj v__3513150_37 = R[2];
-Obj v__3513872_37 = makeCons(co->gc, v__3513150_37, closureRef(R[0], 1));
-R[1] = v__3513871_37;
-R[2] = v__3513150_37;
+Obj v__3513978_37= co->res;
+Obj v__3513259_37 = R[1];
+Obj v__3513257_37 = R[2];
+Obj v__3513979_37 = makeCons(co->gc, v__3513257_37, closureRef(R[0], 1));
+R[1] = v__3513978_37;
+R[2] = v__3513257_37;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513872_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513152_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513979_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513259_37);
 return;
 }
 }
@@ -1141,73 +1141,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513142_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513819_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3513819_37) {
-Obj v__3513820_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3513821_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513820_37);
-if (True == v__3513821_37) {
-Obj v__3513822_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513823_37 = PRIM_ISCONS(v__3513822_37);
-if (True == v__3513823_37) {
-Obj v__3513824_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513825_37 = PRIM_CAR(v__3513824_37);
-Obj v__3513147_37 = v__3513825_37;
-Obj v__3513826_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513827_37 = PRIM_CDR(v__3513826_37);
-Obj v__3513828_37 = PRIM_ISCONS(v__3513827_37);
-if (True == v__3513828_37) {
-Obj v__3513829_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513830_37 = PRIM_CDR(v__3513829_37);
-Obj v__3513831_37 = PRIM_CAR(v__3513830_37);
-Obj v__3513148_37 = v__3513831_37;
-Obj v__3513832_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513833_37 = PRIM_CDR(v__3513832_37);
-Obj v__3513834_37 = PRIM_CDR(v__3513833_37);
-Obj v__3513835_37 = PRIM_ISCONS(v__3513834_37);
-if (True == v__3513835_37) {
-Obj v__3513836_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513837_37 = PRIM_CDR(v__3513836_37);
-Obj v__3513838_37 = PRIM_CDR(v__3513837_37);
-Obj v__3513839_37 = PRIM_CAR(v__3513838_37);
-Obj v__3513149_37 = v__3513839_37;
-Obj v__3513840_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513841_37 = PRIM_CDR(v__3513840_37);
-Obj v__3513842_37 = PRIM_CDR(v__3513841_37);
-Obj v__3513843_37 = PRIM_CDR(v__3513842_37);
-Obj v__3513844_37 = PRIM_EQ(Nil, v__3513843_37);
-if (True == v__3513844_37) {
+Obj v__3513249_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513926_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3513926_37) {
+Obj v__3513927_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3513928_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513927_37);
+if (True == v__3513928_37) {
+Obj v__3513929_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513930_37 = PRIM_ISCONS(v__3513929_37);
+if (True == v__3513930_37) {
+Obj v__3513931_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513932_37 = PRIM_CAR(v__3513931_37);
+Obj v__3513254_37 = v__3513932_37;
+Obj v__3513933_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513934_37 = PRIM_CDR(v__3513933_37);
+Obj v__3513935_37 = PRIM_ISCONS(v__3513934_37);
+if (True == v__3513935_37) {
+Obj v__3513936_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513937_37 = PRIM_CDR(v__3513936_37);
+Obj v__3513938_37 = PRIM_CAR(v__3513937_37);
+Obj v__3513255_37 = v__3513938_37;
+Obj v__3513939_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513940_37 = PRIM_CDR(v__3513939_37);
+Obj v__3513941_37 = PRIM_CDR(v__3513940_37);
+Obj v__3513942_37 = PRIM_ISCONS(v__3513941_37);
+if (True == v__3513942_37) {
+Obj v__3513943_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513944_37 = PRIM_CDR(v__3513943_37);
+Obj v__3513945_37 = PRIM_CDR(v__3513944_37);
+Obj v__3513946_37 = PRIM_CAR(v__3513945_37);
+Obj v__3513256_37 = v__3513946_37;
+Obj v__3513947_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513948_37 = PRIM_CDR(v__3513947_37);
+Obj v__3513949_37 = PRIM_CDR(v__3513948_37);
+Obj v__3513950_37 = PRIM_CDR(v__3513949_37);
+Obj v__3513951_37 = PRIM_EQ(Nil, v__3513950_37);
+if (True == v__3513951_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513147_37, v__3513148_37, v__3513149_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513254_37, v__3513255_37, v__3513256_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513142_37);
+coraCall0(co, v__3513249_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513142_37);
+coraCall0(co, v__3513249_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513142_37);
+coraCall0(co, v__3513249_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513142_37);
+coraCall0(co, v__3513249_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513142_37);
+coraCall0(co, v__3513249_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513142_37);
+coraCall0(co, v__3513249_37);
 return;
 }
 }
@@ -1218,81 +1218,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513143_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v__3513795_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513795_37) {
-Obj v__3513796_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513797_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3513796_37);
-if (True == v__3513797_37) {
-Obj v__3513798_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513799_37 = PRIM_ISCONS(v__3513798_37);
-if (True == v__3513799_37) {
-Obj v__3513800_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513801_37 = PRIM_CAR(v__3513800_37);
-Obj v__3513144_37 = v__3513801_37;
-Obj v__3513802_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513803_37 = PRIM_CDR(v__3513802_37);
-Obj v__3513804_37 = PRIM_ISCONS(v__3513803_37);
-if (True == v__3513804_37) {
-Obj v__3513805_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513806_37 = PRIM_CDR(v__3513805_37);
-Obj v__3513807_37 = PRIM_CAR(v__3513806_37);
-Obj v__3513145_37 = v__3513807_37;
-Obj v__3513808_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513809_37 = PRIM_CDR(v__3513808_37);
-Obj v__3513810_37 = PRIM_CDR(v__3513809_37);
-Obj v__3513811_37 = PRIM_EQ(Nil, v__3513810_37);
-if (True == v__3513811_37) {
-R[1] = v__3513145_37;
+Obj v__3513250_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3513902_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513902_37) {
+Obj v__3513903_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513904_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3513903_37);
+if (True == v__3513904_37) {
+Obj v__3513905_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513906_37 = PRIM_ISCONS(v__3513905_37);
+if (True == v__3513906_37) {
+Obj v__3513907_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513908_37 = PRIM_CAR(v__3513907_37);
+Obj v__3513251_37 = v__3513908_37;
+Obj v__3513909_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513910_37 = PRIM_CDR(v__3513909_37);
+Obj v__3513911_37 = PRIM_ISCONS(v__3513910_37);
+if (True == v__3513911_37) {
+Obj v__3513912_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513913_37 = PRIM_CDR(v__3513912_37);
+Obj v__3513914_37 = PRIM_CAR(v__3513913_37);
+Obj v__3513252_37 = v__3513914_37;
+Obj v__3513915_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513916_37 = PRIM_CDR(v__3513915_37);
+Obj v__3513917_37 = PRIM_CDR(v__3513916_37);
+Obj v__3513918_37 = PRIM_EQ(Nil, v__3513917_37);
+if (True == v__3513918_37) {
+R[1] = v__3513252_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513144_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513251_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513143_37);
+coraCall0(co, v__3513250_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513143_37);
+coraCall0(co, v__3513250_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513143_37);
+coraCall0(co, v__3513250_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513143_37);
+coraCall0(co, v__3513250_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513143_37);
+coraCall0(co, v__3513250_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513815_37= co->res;
-Obj v__3513814_37 = R[1];
-Obj v__3513816_37 = makeCons(co->gc, v__3513815_37, Nil);
-Obj v__3513817_37 = makeCons(co->gc, v__3513814_37, v__3513816_37);
-Obj v__3513818_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513817_37);
-coraReturn(co, v__3513818_37);
+Obj v__3513922_37= co->res;
+Obj v__3513921_37 = R[1];
+Obj v__3513923_37 = makeCons(co->gc, v__3513922_37, Nil);
+Obj v__3513924_37 = makeCons(co->gc, v__3513921_37, v__3513923_37);
+Obj v__3513925_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513924_37);
+coraReturn(co, v__3513925_37);
 return;
 }
 case 2:
 {
-Obj v__3513812_37= co->res;
-Obj v__3513145_37 = R[1];
-Obj v__3513146_37 = v__3513812_37;
-Obj v__3513813_37 = makeCons(co->gc, v__3513146_37, Nil);
-Obj v__3513814_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513813_37);
-R[1] = v__3513814_37;
+Obj v__3513919_37= co->res;
+Obj v__3513252_37 = R[1];
+Obj v__3513253_37 = v__3513919_37;
+Obj v__3513920_37 = makeCons(co->gc, v__3513253_37, Nil);
+Obj v__3513921_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513920_37);
+R[1] = v__3513921_37;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513145_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513252_37);
 return;
 }
 }
@@ -1308,9 +1308,9 @@ return;
 }
 case 1:
 {
-Obj v__3513794_37= co->res;
+Obj v__3513901_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513794_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513901_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1327,16 +1327,16 @@ return;
 }
 case 1:
 {
-Obj v__3513788_37= co->res;
-Obj v__3513789_37 = primNot(v__3513788_37);
-coraReturn(co, v__3513789_37);
+Obj v__3513895_37= co->res;
+Obj v__3513896_37 = primNot(v__3513895_37);
+coraReturn(co, v__3513896_37);
 return;
 }
 case 2:
 {
-Obj v__3513787_37= co->res;
+Obj v__3513894_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513787_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513894_37);
 return;
 }
 }
@@ -1346,44 +1346,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513042_37 = R[1];
-Obj v__3513043_37 = R[2];
-Obj v__3513772_37 = PRIM_EQ(Nil, v__3513043_37);
-if (True == v__3513772_37) {
+Obj v__3513149_37 = R[1];
+Obj v__3513150_37 = R[2];
+Obj v__3513879_37 = PRIM_EQ(Nil, v__3513150_37);
+if (True == v__3513879_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513130_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3513043_37, v__3513042_37);
-Obj v__3513776_37 = PRIM_ISCONS(v__3513043_37);
-if (True == v__3513776_37) {
-Obj v__3513777_37 = PRIM_CAR(v__3513043_37);
-Obj v__3513778_37 = PRIM_ISCONS(v__3513777_37);
-if (True == v__3513778_37) {
-Obj v__3513779_37 = PRIM_CAR(v__3513043_37);
-Obj v__3513780_37 = PRIM_CAR(v__3513779_37);
-Obj v__3513132_37 = v__3513780_37;
-Obj v__3513781_37 = PRIM_CAR(v__3513043_37);
-Obj v__3513782_37 = PRIM_CDR(v__3513781_37);
-Obj v__3513133_37 = v__3513782_37;
-Obj v__3513783_37 = PRIM_CDR(v__3513043_37);
-Obj v__3513784_37 = PRIM_EQ(v__3513042_37, v__3513132_37);
-if (True == v__3513784_37) {
-Obj v__3513785_37 = makeCons(co->gc, v__3513132_37, v__3513133_37);
-coraReturn(co, v__3513785_37);
+Obj v__3513237_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3513150_37, v__3513149_37);
+Obj v__3513883_37 = PRIM_ISCONS(v__3513150_37);
+if (True == v__3513883_37) {
+Obj v__3513884_37 = PRIM_CAR(v__3513150_37);
+Obj v__3513885_37 = PRIM_ISCONS(v__3513884_37);
+if (True == v__3513885_37) {
+Obj v__3513886_37 = PRIM_CAR(v__3513150_37);
+Obj v__3513887_37 = PRIM_CAR(v__3513886_37);
+Obj v__3513239_37 = v__3513887_37;
+Obj v__3513888_37 = PRIM_CAR(v__3513150_37);
+Obj v__3513889_37 = PRIM_CDR(v__3513888_37);
+Obj v__3513240_37 = v__3513889_37;
+Obj v__3513890_37 = PRIM_CDR(v__3513150_37);
+Obj v__3513891_37 = PRIM_EQ(v__3513149_37, v__3513239_37);
+if (True == v__3513891_37) {
+Obj v__3513892_37 = makeCons(co->gc, v__3513239_37, v__3513240_37);
+coraReturn(co, v__3513892_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513130_37);
+coraCall0(co, v__3513237_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513130_37);
+coraCall0(co, v__3513237_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513130_37);
+coraCall0(co, v__3513237_37);
 return;
 }
 }
@@ -1395,13 +1395,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513773_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513773_37) {
-Obj v__3513774_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513775_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513131_37 = v__3513775_37;
+Obj v__3513880_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513880_37) {
+Obj v__3513881_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513882_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513238_37 = v__3513882_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513131_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513238_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1416,27 +1416,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513037_37 = R[1];
-Obj v__3513038_37 = R[2];
-Obj v__3513039_37 = R[3];
-Obj v__3513691_37 = PRIM_EQ(Nil, v__3513039_37);
-if (True == v__3513691_37) {
+Obj v__3513144_37 = R[1];
+Obj v__3513145_37 = R[2];
+Obj v__3513146_37 = R[3];
+Obj v__3513798_37 = PRIM_EQ(Nil, v__3513146_37);
+if (True == v__3513798_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513037_37, v__3513038_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513144_37, v__3513145_37);
 return;
 } else {
-Obj v__3513692_37 = PRIM_ISCONS(v__3513039_37);
-if (True == v__3513692_37) {
-Obj v__3513693_37 = PRIM_CAR(v__3513039_37);
-Obj v__3513127_37 = v__3513693_37;
-Obj v__3513694_37 = PRIM_CDR(v__3513039_37);
-Obj v__3513128_37 = v__3513694_37;
-R[1] = v__3513127_37;
-R[2] = v__3513037_37;
-R[3] = v__3513038_37;
-R[4] = v__3513128_37;
+Obj v__3513799_37 = PRIM_ISCONS(v__3513146_37);
+if (True == v__3513799_37) {
+Obj v__3513800_37 = PRIM_CAR(v__3513146_37);
+Obj v__3513234_37 = v__3513800_37;
+Obj v__3513801_37 = PRIM_CDR(v__3513146_37);
+Obj v__3513235_37 = v__3513801_37;
+R[1] = v__3513234_37;
+R[2] = v__3513144_37;
+R[3] = v__3513145_37;
+R[4] = v__3513235_37;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513127_37, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513234_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1447,90 +1447,90 @@ return;
 }
 case 1:
 {
-Obj v__3513701_37= co->res;
+Obj v__3513808_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513701_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513808_37);
 return;
 }
 case 2:
 {
-Obj v__3513700_37= co->res;
-Obj v__3513127_37 = R[1];
+Obj v__3513807_37= co->res;
+Obj v__3513234_37 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513127_37, v__3513700_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513234_37, v__3513807_37);
 return;
 }
 case 3:
 {
-Obj v__3513699_37= co->res;
-Obj v__3513127_37 = R[1];
-R[1] = v__3513127_37;
+Obj v__3513806_37= co->res;
+Obj v__3513234_37 = R[1];
+R[1] = v__3513234_37;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513699_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513806_37);
 return;
 }
 case 4:
 {
-Obj v__3513698_37= co->res;
-Obj v__3513127_37 = R[1];
-Obj v__3513037_37 = R[2];
-Obj v__3513038_37 = R[3];
-Obj v__3513128_37 = R[4];
-if (True == v__3513698_37) {
-R[1] = v__3513127_37;
+Obj v__3513805_37= co->res;
+Obj v__3513234_37 = R[1];
+Obj v__3513144_37 = R[2];
+Obj v__3513145_37 = R[3];
+Obj v__3513235_37 = R[4];
+if (True == v__3513805_37) {
+R[1] = v__3513234_37;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513037_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513144_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513037_37, v__3513038_37, v__3513128_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513144_37, v__3513145_37, v__3513235_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3513697_37= co->res;
-Obj v__3513127_37 = R[1];
-Obj v__3513037_37 = R[2];
-Obj v__3513038_37 = R[3];
-Obj v__3513128_37 = R[4];
-Obj v__3513129_37 = v__3513697_37;
-R[1] = v__3513127_37;
-R[2] = v__3513037_37;
-R[3] = v__3513038_37;
-R[4] = v__3513128_37;
+Obj v__3513804_37= co->res;
+Obj v__3513234_37 = R[1];
+Obj v__3513144_37 = R[2];
+Obj v__3513145_37 = R[3];
+Obj v__3513235_37 = R[4];
+Obj v__3513236_37 = v__3513804_37;
+R[1] = v__3513234_37;
+R[2] = v__3513144_37;
+R[3] = v__3513145_37;
+R[4] = v__3513235_37;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3513037_37, v__3513129_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3513144_37, v__3513236_37);
 return;
 }
 case 6:
 {
-Obj v__3513696_37= co->res;
-Obj v__3513127_37 = R[1];
-Obj v__3513037_37 = R[2];
-Obj v__3513038_37 = R[3];
-Obj v__3513128_37 = R[4];
-R[1] = v__3513127_37;
-R[2] = v__3513037_37;
-R[3] = v__3513038_37;
-R[4] = v__3513128_37;
+Obj v__3513803_37= co->res;
+Obj v__3513234_37 = R[1];
+Obj v__3513144_37 = R[2];
+Obj v__3513145_37 = R[3];
+Obj v__3513235_37 = R[4];
+R[1] = v__3513234_37;
+R[2] = v__3513144_37;
+R[3] = v__3513145_37;
+R[4] = v__3513235_37;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513696_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513803_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3513695_37= co->res;
-Obj v__3513127_37 = R[1];
-Obj v__3513037_37 = R[2];
-Obj v__3513038_37 = R[3];
-Obj v__3513128_37 = R[4];
-R[1] = v__3513127_37;
-R[2] = v__3513037_37;
-R[3] = v__3513038_37;
-R[4] = v__3513128_37;
+Obj v__3513802_37= co->res;
+Obj v__3513234_37 = R[1];
+Obj v__3513144_37 = R[2];
+Obj v__3513145_37 = R[3];
+Obj v__3513235_37 = R[4];
+R[1] = v__3513234_37;
+R[2] = v__3513144_37;
+R[3] = v__3513145_37;
+R[4] = v__3513235_37;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513695_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513802_37);
 return;
 }
 }
@@ -1542,8 +1542,8 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v__3513685_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v__3513685_37) {
+Obj v__3513792_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v__3513792_37) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1556,34 +1556,34 @@ return;
 }
 case 1:
 {
-Obj v__3513689_37= co->res;
+Obj v__3513796_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513689_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513796_37);
 return;
 }
 case 2:
 {
-Obj v__3513688_37= co->res;
+Obj v__3513795_37= co->res;
 Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513688_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513795_37);
 return;
 }
 case 3:
 {
-Obj v__3513687_37= co->res;
+Obj v__3513794_37= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513687_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513794_37);
 return;
 }
 case 4:
 {
-Obj v__3513686_37= co->res;
+Obj v__3513793_37= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v__3513686_37) {
+if (True == v__3513793_37) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1608,27 +1608,27 @@ return;
 }
 case 1:
 {
-Obj v__3513667_37= co->res;
-Obj v__3513126_37 = R[1];
+Obj v__3513774_37= co->res;
+Obj v__3513233_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3513667_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3513126_37));
+coraCall1(co, v__3513774_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3513233_37));
 return;
 }
 case 2:
 {
-Obj v__3513666_37= co->res;
-Obj v__3513126_37 = R[1];
-R[1] = v__3513126_37;
+Obj v__3513773_37= co->res;
+Obj v__3513233_37 = R[1];
+R[1] = v__3513233_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513666_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513773_37);
 return;
 }
 case 3:
 {
-Obj v__3513665_37= co->res;
+Obj v__3513772_37= co->res;
 Obj v_sexp = R[1];
-Obj v__3513126_37 = v__3513665_37;
-R[1] = v__3513126_37;
+Obj v__3513233_37 = v__3513772_37;
+R[1] = v__3513233_37;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
 return;
@@ -1643,41 +1643,41 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v__3513668_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v__3513775_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v__3513668_37;
+R[3] = v__3513775_37;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v__3513678_37= co->res;
-Obj v__3513668_37 = R[1];
-Obj v__3513679_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513678_37);
-Obj v__3513680_37 = makeCons(co->gc, v__3513679_37, Nil);
-Obj v__3513681_37 = makeCons(co->gc, v__3513668_37, v__3513680_37);
-Obj v__3513682_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513681_37);
-Obj v__3513683_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513682_37);
-coraReturn(co, v__3513683_37);
+Obj v__3513785_37= co->res;
+Obj v__3513775_37 = R[1];
+Obj v__3513786_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513785_37);
+Obj v__3513787_37 = makeCons(co->gc, v__3513786_37, Nil);
+Obj v__3513788_37 = makeCons(co->gc, v__3513775_37, v__3513787_37);
+Obj v__3513789_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513788_37);
+Obj v__3513790_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513789_37);
+coraReturn(co, v__3513790_37);
 return;
 }
 case 2:
 {
-Obj v__3513671_37= co->res;
+Obj v__3513778_37= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v__3513668_37 = R[3];
-Obj v__3513672_37 = makeCons(co->gc, v_export, Nil);
-Obj v__3513673_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513672_37);
-Obj v__3513674_37 = makeCons(co->gc, v__3513673_37, Nil);
-Obj v__3513675_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513674_37);
-Obj v__3513676_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513675_37);
-Obj v__3513677_37 = makeCons(co->gc, v__3513676_37, v_body);
-R[1] = v__3513668_37;
+Obj v__3513775_37 = R[3];
+Obj v__3513779_37 = makeCons(co->gc, v_export, Nil);
+Obj v__3513780_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513779_37);
+Obj v__3513781_37 = makeCons(co->gc, v__3513780_37, Nil);
+Obj v__3513782_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513781_37);
+Obj v__3513783_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513782_37);
+Obj v__3513784_37 = makeCons(co->gc, v__3513783_37, v_body);
+R[1] = v__3513775_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513671_37, v__3513677_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513778_37, v__3513784_37);
 return;
 }
 }
@@ -1688,9 +1688,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v__3513669_37 = makeCons(co->gc, v_imp, Nil);
-Obj v__3513670_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513669_37);
-coraReturn(co, v__3513670_37);
+Obj v__3513776_37 = makeCons(co->gc, v_imp, Nil);
+Obj v__3513777_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513776_37);
+coraReturn(co, v__3513777_37);
 return;
 }
 }
@@ -1713,62 +1713,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513030_37 = R[1];
-Obj v__3513031_37 = R[2];
-Obj v__3513032_37 = R[3];
-Obj v__3513033_37 = R[4];
-Obj v__3513120_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3513032_37, v__3513030_37, v__3513031_37, v__3513033_37);
-Obj v__3513645_37 = PRIM_ISCONS(v__3513030_37);
-if (True == v__3513645_37) {
-Obj v__3513646_37 = PRIM_CAR(v__3513030_37);
-Obj v__3513647_37 = PRIM_ISCONS(v__3513646_37);
-if (True == v__3513647_37) {
-Obj v__3513648_37 = PRIM_CAR(v__3513030_37);
-Obj v__3513649_37 = PRIM_CAR(v__3513648_37);
-Obj v__3513650_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513649_37);
-if (True == v__3513650_37) {
-Obj v__3513651_37 = PRIM_CAR(v__3513030_37);
-Obj v__3513652_37 = PRIM_CDR(v__3513651_37);
-Obj v__3513653_37 = PRIM_ISCONS(v__3513652_37);
-if (True == v__3513653_37) {
-Obj v__3513654_37 = PRIM_CAR(v__3513030_37);
-Obj v__3513655_37 = PRIM_CDR(v__3513654_37);
-Obj v__3513656_37 = PRIM_CAR(v__3513655_37);
-Obj v__3513124_37 = v__3513656_37;
-Obj v__3513657_37 = PRIM_CAR(v__3513030_37);
-Obj v__3513658_37 = PRIM_CDR(v__3513657_37);
-Obj v__3513659_37 = PRIM_CDR(v__3513658_37);
-Obj v__3513660_37 = PRIM_EQ(Nil, v__3513659_37);
-if (True == v__3513660_37) {
-Obj v__3513661_37 = PRIM_CDR(v__3513030_37);
-Obj v__3513125_37 = v__3513661_37;
-Obj v__3513662_37 = makeCons(co->gc, v__3513124_37, v__3513031_37);
+Obj v__3513137_37 = R[1];
+Obj v__3513138_37 = R[2];
+Obj v__3513139_37 = R[3];
+Obj v__3513140_37 = R[4];
+Obj v__3513227_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3513139_37, v__3513137_37, v__3513138_37, v__3513140_37);
+Obj v__3513752_37 = PRIM_ISCONS(v__3513137_37);
+if (True == v__3513752_37) {
+Obj v__3513753_37 = PRIM_CAR(v__3513137_37);
+Obj v__3513754_37 = PRIM_ISCONS(v__3513753_37);
+if (True == v__3513754_37) {
+Obj v__3513755_37 = PRIM_CAR(v__3513137_37);
+Obj v__3513756_37 = PRIM_CAR(v__3513755_37);
+Obj v__3513757_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513756_37);
+if (True == v__3513757_37) {
+Obj v__3513758_37 = PRIM_CAR(v__3513137_37);
+Obj v__3513759_37 = PRIM_CDR(v__3513758_37);
+Obj v__3513760_37 = PRIM_ISCONS(v__3513759_37);
+if (True == v__3513760_37) {
+Obj v__3513761_37 = PRIM_CAR(v__3513137_37);
+Obj v__3513762_37 = PRIM_CDR(v__3513761_37);
+Obj v__3513763_37 = PRIM_CAR(v__3513762_37);
+Obj v__3513231_37 = v__3513763_37;
+Obj v__3513764_37 = PRIM_CAR(v__3513137_37);
+Obj v__3513765_37 = PRIM_CDR(v__3513764_37);
+Obj v__3513766_37 = PRIM_CDR(v__3513765_37);
+Obj v__3513767_37 = PRIM_EQ(Nil, v__3513766_37);
+if (True == v__3513767_37) {
+Obj v__3513768_37 = PRIM_CDR(v__3513137_37);
+Obj v__3513232_37 = v__3513768_37;
+Obj v__3513769_37 = makeCons(co->gc, v__3513231_37, v__3513138_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513125_37, v__3513662_37, v__3513032_37, v__3513033_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513232_37, v__3513769_37, v__3513139_37, v__3513140_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513227_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513227_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513227_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513227_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513227_37);
 return;
 }
 }
@@ -1779,37 +1779,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513121_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513636_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513636_37) {
-Obj v__3513637_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513638_37 = PRIM_ISCONS(v__3513637_37);
-if (True == v__3513638_37) {
-Obj v__3513639_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513640_37 = PRIM_CAR(v__3513639_37);
-Obj v__3513641_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513640_37);
-if (True == v__3513641_37) {
-Obj v__3513642_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513643_37 = PRIM_CDR(v__3513642_37);
-Obj v__3513122_37 = v__3513643_37;
-Obj v__3513644_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513123_37 = v__3513644_37;
+Obj v__3513228_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513743_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513743_37) {
+Obj v__3513744_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513745_37 = PRIM_ISCONS(v__3513744_37);
+if (True == v__3513745_37) {
+Obj v__3513746_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513747_37 = PRIM_CAR(v__3513746_37);
+Obj v__3513748_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513747_37);
+if (True == v__3513748_37) {
+Obj v__3513749_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513750_37 = PRIM_CDR(v__3513749_37);
+Obj v__3513229_37 = v__3513750_37;
+Obj v__3513751_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513230_37 = v__3513751_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513123_37, closureRef(R[0], 2), v__3513122_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513230_37, closureRef(R[0], 2), v__3513229_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513228_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513228_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513228_37);
 return;
 }
 }
@@ -1826,9 +1826,9 @@ return;
 }
 case 1:
 {
-Obj v__3513635_37= co->res;
+Obj v__3513742_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v__3513635_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3513742_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1846,17 +1846,17 @@ return;
 }
 case 1:
 {
-Obj v__3513633_37= co->res;
-Obj v__3513632_37 = R[1];
+Obj v__3513740_37= co->res;
+Obj v__3513739_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513632_37, v__3513633_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513739_37, v__3513740_37);
 return;
 }
 case 2:
 {
-Obj v__3513632_37= co->res;
+Obj v__3513739_37= co->res;
 Obj v_exp = R[1];
-R[1] = v__3513632_37;
+R[1] = v__3513739_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -1878,57 +1878,57 @@ return;
 }
 case 1:
 {
-Obj v__3513621_37= co->res;
-Obj v__3513620_37 = R[1];
+Obj v__3513728_37= co->res;
+Obj v__3513727_37 = R[1];
 Obj v_fn = R[2];
-Obj v__3513622_37 = makeCons(co->gc, v__3513621_37, Nil);
-Obj v__3513623_37 = makeCons(co->gc, v__3513620_37, v__3513622_37);
-Obj v__3513624_37 = makeCons(co->gc, v_fn, v__3513623_37);
-coraReturn(co, v__3513624_37);
+Obj v__3513729_37 = makeCons(co->gc, v__3513728_37, Nil);
+Obj v__3513730_37 = makeCons(co->gc, v__3513727_37, v__3513729_37);
+Obj v__3513731_37 = makeCons(co->gc, v_fn, v__3513730_37);
+coraReturn(co, v__3513731_37);
 return;
 }
 case 2:
 {
-Obj v__3513627_37= co->res;
-Obj v__3513625_37 = R[1];
+Obj v__3513734_37= co->res;
+Obj v__3513732_37 = R[1];
 Obj v_fn = R[2];
-Obj v__3513628_37 = makeCons(co->gc, v__3513627_37, Nil);
-Obj v__3513629_37 = makeCons(co->gc, v__3513625_37, v__3513628_37);
-Obj v__3513630_37 = makeCons(co->gc, v_fn, v__3513629_37);
-coraReturn(co, v__3513630_37);
+Obj v__3513735_37 = makeCons(co->gc, v__3513734_37, Nil);
+Obj v__3513736_37 = makeCons(co->gc, v__3513732_37, v__3513735_37);
+Obj v__3513737_37 = makeCons(co->gc, v_fn, v__3513736_37);
+coraReturn(co, v__3513737_37);
 return;
 }
 case 3:
 {
-Obj v__3513619_37= co->res;
+Obj v__3513726_37= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v__3513619_37) {
-Obj v__3513620_37 = PRIM_CAR(v_arglist);
-R[1] = v__3513620_37;
+if (True == v__3513726_37) {
+Obj v__3513727_37 = PRIM_CAR(v_arglist);
+R[1] = v__3513727_37;
 R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj v__3513625_37 = PRIM_CAR(v_arglist);
-Obj v__3513626_37 = PRIM_CDR(v_arglist);
-R[1] = v__3513625_37;
+Obj v__3513732_37 = PRIM_CAR(v_arglist);
+Obj v__3513733_37 = PRIM_CDR(v_arglist);
+R[1] = v__3513732_37;
 R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513626_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513733_37);
 return;
 }
 }
 case 4:
 {
-Obj v__3513618_37= co->res;
+Obj v__3513725_37= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513618_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513725_37);
 return;
 }
 }
@@ -1945,9 +1945,9 @@ return;
 }
 case 1:
 {
-Obj v__3513616_37= co->res;
+Obj v__3513723_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513616_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513723_37);
 return;
 }
 }
@@ -1957,50 +1957,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513025_37 = R[1];
-Obj v__3513596_37 = primIsSymbol(v__3513025_37);
-if (True == v__3513596_37) {
-Obj v__3513597_37 = makeCons(co->gc, v__3513025_37, Nil);
-Obj v__3513598_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513597_37);
-coraReturn(co, v__3513598_37);
+Obj v__3513132_37 = R[1];
+Obj v__3513703_37 = primIsSymbol(v__3513132_37);
+if (True == v__3513703_37) {
+Obj v__3513704_37 = makeCons(co->gc, v__3513132_37, Nil);
+Obj v__3513705_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513704_37);
+coraReturn(co, v__3513705_37);
 return;
 } else {
-Obj v__3513116_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3513025_37);
-Obj v__3513605_37 = PRIM_ISCONS(v__3513025_37);
-if (True == v__3513605_37) {
-Obj v__3513606_37 = PRIM_CAR(v__3513025_37);
-Obj v__3513607_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513606_37);
-if (True == v__3513607_37) {
-Obj v__3513608_37 = PRIM_CDR(v__3513025_37);
-Obj v__3513609_37 = PRIM_ISCONS(v__3513608_37);
-if (True == v__3513609_37) {
-Obj v__3513610_37 = PRIM_CDR(v__3513025_37);
-Obj v__3513611_37 = PRIM_CAR(v__3513610_37);
-Obj v__3513119_37 = v__3513611_37;
-Obj v__3513612_37 = PRIM_CDR(v__3513025_37);
-Obj v__3513613_37 = PRIM_CDR(v__3513612_37);
-Obj v__3513614_37 = PRIM_EQ(Nil, v__3513613_37);
-if (True == v__3513614_37) {
-coraReturn(co, v__3513119_37);
+Obj v__3513223_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3513132_37);
+Obj v__3513712_37 = PRIM_ISCONS(v__3513132_37);
+if (True == v__3513712_37) {
+Obj v__3513713_37 = PRIM_CAR(v__3513132_37);
+Obj v__3513714_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513713_37);
+if (True == v__3513714_37) {
+Obj v__3513715_37 = PRIM_CDR(v__3513132_37);
+Obj v__3513716_37 = PRIM_ISCONS(v__3513715_37);
+if (True == v__3513716_37) {
+Obj v__3513717_37 = PRIM_CDR(v__3513132_37);
+Obj v__3513718_37 = PRIM_CAR(v__3513717_37);
+Obj v__3513226_37 = v__3513718_37;
+Obj v__3513719_37 = PRIM_CDR(v__3513132_37);
+Obj v__3513720_37 = PRIM_CDR(v__3513719_37);
+Obj v__3513721_37 = PRIM_EQ(Nil, v__3513720_37);
+if (True == v__3513721_37) {
+coraReturn(co, v__3513226_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513116_37);
+coraCall0(co, v__3513223_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513116_37);
+coraCall0(co, v__3513223_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513116_37);
+coraCall0(co, v__3513223_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513116_37);
+coraCall0(co, v__3513223_37);
 return;
 }
 }
@@ -2012,15 +2012,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513599_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513599_37) {
-Obj v__3513600_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513117_37 = v__3513600_37;
-Obj v__3513601_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513118_37 = v__3513601_37;
-Obj v__3513602_37 = makeCons(co->gc, v__3513117_37, v__3513118_37);
+Obj v__3513706_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513706_37) {
+Obj v__3513707_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513224_37 = v__3513707_37;
+Obj v__3513708_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513225_37 = v__3513708_37;
+Obj v__3513709_37 = makeCons(co->gc, v__3513224_37, v__3513225_37);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3513602_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3513709_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2029,9 +2029,9 @@ return;
 }
 case 1:
 {
-Obj v__3513603_37= co->res;
-Obj v__3513604_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513603_37);
-coraReturn(co, v__3513604_37);
+Obj v__3513710_37= co->res;
+Obj v__3513711_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513710_37);
+coraReturn(co, v__3513711_37);
 return;
 }
 }
@@ -2042,9 +2042,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513594_37 = PRIM_CDR(v_exp);
+Obj v__3513701_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513594_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513701_37);
 return;
 }
 }
@@ -2054,25 +2054,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513021_37 = R[1];
-Obj v__3513109_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3513021_37);
-Obj v__3513589_37 = PRIM_ISCONS(v__3513021_37);
-if (True == v__3513589_37) {
-Obj v__3513590_37 = PRIM_CAR(v__3513021_37);
-Obj v__3513115_37 = v__3513590_37;
-Obj v__3513591_37 = PRIM_CDR(v__3513021_37);
-Obj v__3513592_37 = PRIM_EQ(Nil, v__3513591_37);
-if (True == v__3513592_37) {
-coraReturn(co, v__3513115_37);
+Obj v__3513128_37 = R[1];
+Obj v__3513216_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3513128_37);
+Obj v__3513696_37 = PRIM_ISCONS(v__3513128_37);
+if (True == v__3513696_37) {
+Obj v__3513697_37 = PRIM_CAR(v__3513128_37);
+Obj v__3513222_37 = v__3513697_37;
+Obj v__3513698_37 = PRIM_CDR(v__3513128_37);
+Obj v__3513699_37 = PRIM_EQ(Nil, v__3513698_37);
+if (True == v__3513699_37) {
+coraReturn(co, v__3513222_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513109_37);
+coraCall0(co, v__3513216_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513109_37);
+coraCall0(co, v__3513216_37);
 return;
 }
 }
@@ -2083,39 +2083,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513110_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v__3513577_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513577_37) {
-Obj v__3513578_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513113_37 = v__3513578_37;
-Obj v__3513579_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513580_37 = PRIM_ISCONS(v__3513579_37);
-if (True == v__3513580_37) {
-Obj v__3513581_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513582_37 = PRIM_CAR(v__3513581_37);
-Obj v__3513114_37 = v__3513582_37;
-Obj v__3513583_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513584_37 = PRIM_CDR(v__3513583_37);
-Obj v__3513585_37 = PRIM_EQ(Nil, v__3513584_37);
-if (True == v__3513585_37) {
-Obj v__3513586_37 = makeCons(co->gc, v__3513114_37, Nil);
-Obj v__3513587_37 = makeCons(co->gc, v__3513113_37, v__3513586_37);
-Obj v__3513588_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513587_37);
-coraReturn(co, v__3513588_37);
+Obj v__3513217_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v__3513684_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513684_37) {
+Obj v__3513685_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513220_37 = v__3513685_37;
+Obj v__3513686_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513687_37 = PRIM_ISCONS(v__3513686_37);
+if (True == v__3513687_37) {
+Obj v__3513688_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513689_37 = PRIM_CAR(v__3513688_37);
+Obj v__3513221_37 = v__3513689_37;
+Obj v__3513690_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513691_37 = PRIM_CDR(v__3513690_37);
+Obj v__3513692_37 = PRIM_EQ(Nil, v__3513691_37);
+if (True == v__3513692_37) {
+Obj v__3513693_37 = makeCons(co->gc, v__3513221_37, Nil);
+Obj v__3513694_37 = makeCons(co->gc, v__3513220_37, v__3513693_37);
+Obj v__3513695_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513694_37);
+coraReturn(co, v__3513695_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513110_37);
+coraCall0(co, v__3513217_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513110_37);
+coraCall0(co, v__3513217_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513110_37);
+coraCall0(co, v__3513217_37);
 return;
 }
 }
@@ -2126,15 +2126,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513570_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513570_37) {
-Obj v__3513571_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513111_37 = v__3513571_37;
-Obj v__3513572_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513112_37 = v__3513572_37;
-R[1] = v__3513111_37;
+Obj v__3513677_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513677_37) {
+Obj v__3513678_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513218_37 = v__3513678_37;
+Obj v__3513679_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513219_37 = v__3513679_37;
+R[1] = v__3513218_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513112_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513219_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2144,12 +2144,12 @@ return;
 }
 case 1:
 {
-Obj v__3513573_37= co->res;
-Obj v__3513111_37 = R[1];
-Obj v__3513574_37 = makeCons(co->gc, v__3513573_37, Nil);
-Obj v__3513575_37 = makeCons(co->gc, v__3513111_37, v__3513574_37);
-Obj v__3513576_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513575_37);
-coraReturn(co, v__3513576_37);
+Obj v__3513680_37= co->res;
+Obj v__3513218_37 = R[1];
+Obj v__3513681_37 = makeCons(co->gc, v__3513680_37, Nil);
+Obj v__3513682_37 = makeCons(co->gc, v__3513218_37, v__3513681_37);
+Obj v__3513683_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513682_37);
+coraReturn(co, v__3513683_37);
 return;
 }
 }
@@ -2166,16 +2166,16 @@ return;
 }
 case 1:
 {
-Obj v__3513568_37= co->res;
+Obj v__3513675_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513568_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513675_37);
 return;
 }
 case 2:
 {
-Obj v__3513567_37= co->res;
+Obj v__3513674_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513567_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513674_37);
 return;
 }
 }
@@ -2216,61 +2216,61 @@ return;
 }
 case 1:
 {
-Obj v__3513556_37= co->res;
-Obj v__3513106_37 = R[1];
-Obj v__3513108_37 = R[2];
-Obj v__3513557_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513108_37);
-Obj v__3513558_37 = makeCons(co->gc, v__3513557_37, v__3513106_37);
-Obj v__3513559_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3513558_37);
-Obj v__3513560_37 = makeCons(co->gc, v__3513559_37, Nil);
-Obj v__3513561_37 = makeCons(co->gc, v__3513108_37, v__3513560_37);
-Obj v__3513562_37 = makeCons(co->gc, v__3513556_37, v__3513561_37);
-Obj v__3513563_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513562_37);
-coraReturn(co, v__3513563_37);
+Obj v__3513663_37= co->res;
+Obj v__3513213_37 = R[1];
+Obj v__3513215_37 = R[2];
+Obj v__3513664_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513215_37);
+Obj v__3513665_37 = makeCons(co->gc, v__3513664_37, v__3513213_37);
+Obj v__3513666_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3513665_37);
+Obj v__3513667_37 = makeCons(co->gc, v__3513666_37, Nil);
+Obj v__3513668_37 = makeCons(co->gc, v__3513215_37, v__3513667_37);
+Obj v__3513669_37 = makeCons(co->gc, v__3513663_37, v__3513668_37);
+Obj v__3513670_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513669_37);
+coraReturn(co, v__3513670_37);
 return;
 }
 case 2:
 {
-Obj v__3513555_37= co->res;
+Obj v__3513662_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513106_37 = R[2];
-Obj v__3513108_37 = v__3513555_37;
-R[1] = v__3513106_37;
-R[2] = v__3513108_37;
+Obj v__3513213_37 = R[2];
+Obj v__3513215_37 = v__3513662_37;
+R[1] = v__3513213_37;
+R[2] = v__3513215_37;
 saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513554_37= co->res;
+Obj v__3513661_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513106_37 = R[2];
-Obj v__3513107_37 = v__3513554_37;
+Obj v__3513213_37 = R[2];
+Obj v__3513214_37 = v__3513661_37;
 R[1] = v_exp;
-R[2] = v__3513106_37;
+R[2] = v__3513213_37;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513107_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513214_37);
 return;
 }
 case 4:
 {
-Obj v__3513553_37= co->res;
+Obj v__3513660_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513106_37 = v__3513553_37;
+Obj v__3513213_37 = v__3513660_37;
 R[1] = v_exp;
-R[2] = v__3513106_37;
+R[2] = v__3513213_37;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513106_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513213_37);
 return;
 }
 case 5:
 {
-Obj v__3513552_37= co->res;
+Obj v__3513659_37= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513552_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513659_37);
 return;
 }
 }
@@ -2281,25 +2281,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v__3513546_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v__3513546_37) {
+Obj v__3513653_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v__3513653_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513547_37 = primGenSym(co);
-Obj v__3513548_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v__3513547_37;
+Obj v__3513654_37 = primGenSym(co);
+Obj v__3513655_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v__3513654_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513548_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513655_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513549_37= co->res;
-Obj v__3513547_37 = R[1];
-Obj v__3513550_37 = makeCons(co->gc, v__3513547_37, v__3513549_37);
-coraReturn(co, v__3513550_37);
+Obj v__3513656_37= co->res;
+Obj v__3513654_37 = R[1];
+Obj v__3513657_37 = makeCons(co->gc, v__3513654_37, v__3513656_37);
+coraReturn(co, v__3513657_37);
 return;
 }
 }
@@ -2316,45 +2316,45 @@ return;
 }
 case 1:
 {
-Obj v__3513543_37= co->res;
-Obj v__3513105_37 = R[1];
-Obj v__3513544_37 = primNot(v__3513543_37);
-if (True == v__3513544_37) {
+Obj v__3513650_37= co->res;
+Obj v__3513212_37 = R[1];
+Obj v__3513651_37 = primNot(v__3513650_37);
+if (True == v__3513651_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, v__3513105_37);
+coraReturn(co, v__3513212_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3513542_37= co->res;
-Obj v__3513105_37 = R[1];
-R[1] = v__3513105_37;
+Obj v__3513649_37= co->res;
+Obj v__3513212_37 = R[1];
+R[1] = v__3513212_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513542_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513649_37);
 return;
 }
 case 3:
 {
-Obj v__3513537_37= co->res;
-Obj v__3513104_37 = v__3513537_37;
-Obj v__3513538_37 = PRIM_CAR(v__3513104_37);
-Obj v__3513105_37 = v__3513538_37;
-Obj v__3513541_37 = PRIM_CDR(v__3513104_37);
-R[1] = v__3513105_37;
+Obj v__3513644_37= co->res;
+Obj v__3513211_37 = v__3513644_37;
+Obj v__3513645_37 = PRIM_CAR(v__3513211_37);
+Obj v__3513212_37 = v__3513645_37;
+Obj v__3513648_37 = PRIM_CDR(v__3513211_37);
+R[1] = v__3513212_37;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3513105_37), v__3513541_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3513212_37), v__3513648_37);
 return;
 }
 case 4:
 {
-Obj v__3513535_37= co->res;
-Obj v__3513103_37 = v__3513535_37;
+Obj v__3513642_37= co->res;
+Obj v__3513210_37 = v__3513642_37;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3513103_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3513210_37);
 return;
 }
 }
@@ -2365,9 +2365,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513539_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v__3513540_37 = primNot(v__3513539_37);
-coraReturn(co, v__3513540_37);
+Obj v__3513646_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v__3513647_37 = primNot(v__3513646_37);
+coraReturn(co, v__3513647_37);
 return;
 }
 }
@@ -2378,9 +2378,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513536_37 = PRIM_CDR(v_x);
+Obj v__3513643_37 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513536_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513643_37);
 return;
 }
 }
@@ -2392,25 +2392,25 @@ case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v__3513529_37 = PRIM_EQ(v_l1, Nil);
-if (True == v__3513529_37) {
+Obj v__3513636_37 = PRIM_EQ(v_l1, Nil);
+if (True == v__3513636_37) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v__3513530_37 = PRIM_CAR(v_l1);
-Obj v__3513531_37 = PRIM_CDR(v_l1);
-R[1] = v__3513530_37;
+Obj v__3513637_37 = PRIM_CAR(v_l1);
+Obj v__3513638_37 = PRIM_CDR(v_l1);
+R[1] = v__3513637_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513531_37, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513638_37, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v__3513532_37= co->res;
-Obj v__3513530_37 = R[1];
-Obj v__3513533_37 = makeCons(co->gc, v__3513530_37, v__3513532_37);
-coraReturn(co, v__3513533_37);
+Obj v__3513639_37= co->res;
+Obj v__3513637_37 = R[1];
+Obj v__3513640_37 = makeCons(co->gc, v__3513637_37, v__3513639_37);
+coraReturn(co, v__3513640_37);
 return;
 }
 }
@@ -2436,14 +2436,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v__3513520_37 = PRIM_ISCONS(v_l);
-if (True == v__3513520_37) {
-Obj v__3513521_37 = PRIM_CAR(v_l);
+Obj v__3513627_37 = PRIM_ISCONS(v_l);
+if (True == v__3513627_37) {
+Obj v__3513628_37 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v__3513521_37);
+coraCall1(co, v_fn, v__3513628_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2453,21 +2453,21 @@ return;
 }
 case 1:
 {
-Obj v__3513522_37= co->res;
+Obj v__3513629_37= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v__3513522_37) {
-Obj v__3513523_37 = PRIM_CAR(v_l);
-Obj v__3513524_37 = makeCons(co->gc, v__3513523_37, v_res);
-Obj v__3513525_37 = PRIM_CDR(v_l);
+if (True == v__3513629_37) {
+Obj v__3513630_37 = PRIM_CAR(v_l);
+Obj v__3513631_37 = makeCons(co->gc, v__3513630_37, v_res);
+Obj v__3513632_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513524_37, v_fn, v__3513525_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513631_37, v_fn, v__3513632_37);
 return;
 } else {
-Obj v__3513526_37 = PRIM_CDR(v_l);
+Obj v__3513633_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513526_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513633_37);
 return;
 }
 }
@@ -2492,15 +2492,15 @@ case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v__3513515_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513515_37) {
+Obj v__3513622_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513622_37) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v__3513516_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v__3513517_37 = PRIM_CDR(v_l);
+Obj v__3513623_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v__3513624_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513516_37, v__3513517_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513623_37, v__3513624_37);
 return;
 }
 }
@@ -2521,25 +2521,25 @@ return;
 }
 case 1:
 {
-Obj v__3513513_37= co->res;
-Obj v__3513512_37 = R[1];
+Obj v__3513620_37= co->res;
+Obj v__3513619_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513512_37, v__3513513_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513619_37, v__3513620_37);
 return;
 }
 case 2:
 {
-Obj v__3513510_37= co->res;
+Obj v__3513617_37= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v__3513510_37) {
+if (True == v__3513617_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj v__3513511_37 = PRIM_CAR(v_rules);
-Obj v__3513512_37 = makeCons(co->gc, v__3513511_37, v_res);
-R[1] = v__3513512_37;
+Obj v__3513618_37 = PRIM_CAR(v_rules);
+Obj v__3513619_37 = makeCons(co->gc, v__3513618_37, v_res);
+R[1] = v__3513619_37;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
@@ -2567,103 +2567,103 @@ case 0:
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v__3513457_37 = PRIM_EQ(Nil, v_input);
-if (True == v__3513457_37) {
+Obj v__3513564_37 = PRIM_EQ(Nil, v_input);
+if (True == v__3513564_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
 return;
 } else {
-Obj v__3513092_37 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v__3513475_37 = PRIM_ISCONS(v_input);
-if (True == v__3513475_37) {
-Obj v__3513476_37 = PRIM_CAR(v_input);
-Obj v__3513477_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513476_37);
-if (True == v__3513477_37) {
-Obj v__3513478_37 = PRIM_CDR(v_input);
-Obj v__3513479_37 = PRIM_ISCONS(v__3513478_37);
-if (True == v__3513479_37) {
-Obj v__3513480_37 = PRIM_CDR(v_input);
-Obj v__3513481_37 = PRIM_CAR(v__3513480_37);
-Obj v__3513099_37 = v__3513481_37;
-Obj v__3513482_37 = PRIM_CDR(v_input);
-Obj v__3513483_37 = PRIM_CDR(v__3513482_37);
-Obj v__3513484_37 = PRIM_ISCONS(v__3513483_37);
-if (True == v__3513484_37) {
-Obj v__3513485_37 = PRIM_CDR(v_input);
-Obj v__3513486_37 = PRIM_CDR(v__3513485_37);
-Obj v__3513487_37 = PRIM_CAR(v__3513486_37);
-Obj v__3513488_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3513487_37);
-if (True == v__3513488_37) {
-Obj v__3513489_37 = PRIM_CDR(v_input);
-Obj v__3513490_37 = PRIM_CDR(v__3513489_37);
-Obj v__3513491_37 = PRIM_CDR(v__3513490_37);
-Obj v__3513492_37 = PRIM_ISCONS(v__3513491_37);
-if (True == v__3513492_37) {
-Obj v__3513493_37 = PRIM_CDR(v_input);
-Obj v__3513494_37 = PRIM_CDR(v__3513493_37);
-Obj v__3513495_37 = PRIM_CDR(v__3513494_37);
-Obj v__3513496_37 = PRIM_CAR(v__3513495_37);
-Obj v__3513100_37 = v__3513496_37;
-Obj v__3513497_37 = PRIM_CDR(v_input);
-Obj v__3513498_37 = PRIM_CDR(v__3513497_37);
-Obj v__3513499_37 = PRIM_CDR(v__3513498_37);
-Obj v__3513500_37 = PRIM_CDR(v__3513499_37);
-Obj v__3513101_37 = v__3513500_37;
-R[1] = v__3513099_37;
-R[2] = v__3513100_37;
+Obj v__3513199_37 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v__3513582_37 = PRIM_ISCONS(v_input);
+if (True == v__3513582_37) {
+Obj v__3513583_37 = PRIM_CAR(v_input);
+Obj v__3513584_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513583_37);
+if (True == v__3513584_37) {
+Obj v__3513585_37 = PRIM_CDR(v_input);
+Obj v__3513586_37 = PRIM_ISCONS(v__3513585_37);
+if (True == v__3513586_37) {
+Obj v__3513587_37 = PRIM_CDR(v_input);
+Obj v__3513588_37 = PRIM_CAR(v__3513587_37);
+Obj v__3513206_37 = v__3513588_37;
+Obj v__3513589_37 = PRIM_CDR(v_input);
+Obj v__3513590_37 = PRIM_CDR(v__3513589_37);
+Obj v__3513591_37 = PRIM_ISCONS(v__3513590_37);
+if (True == v__3513591_37) {
+Obj v__3513592_37 = PRIM_CDR(v_input);
+Obj v__3513593_37 = PRIM_CDR(v__3513592_37);
+Obj v__3513594_37 = PRIM_CAR(v__3513593_37);
+Obj v__3513595_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3513594_37);
+if (True == v__3513595_37) {
+Obj v__3513596_37 = PRIM_CDR(v_input);
+Obj v__3513597_37 = PRIM_CDR(v__3513596_37);
+Obj v__3513598_37 = PRIM_CDR(v__3513597_37);
+Obj v__3513599_37 = PRIM_ISCONS(v__3513598_37);
+if (True == v__3513599_37) {
+Obj v__3513600_37 = PRIM_CDR(v_input);
+Obj v__3513601_37 = PRIM_CDR(v__3513600_37);
+Obj v__3513602_37 = PRIM_CDR(v__3513601_37);
+Obj v__3513603_37 = PRIM_CAR(v__3513602_37);
+Obj v__3513207_37 = v__3513603_37;
+Obj v__3513604_37 = PRIM_CDR(v_input);
+Obj v__3513605_37 = PRIM_CDR(v__3513604_37);
+Obj v__3513606_37 = PRIM_CDR(v__3513605_37);
+Obj v__3513607_37 = PRIM_CDR(v__3513606_37);
+Obj v__3513208_37 = v__3513607_37;
+R[1] = v__3513206_37;
+R[2] = v__3513207_37;
 R[3] = v_result;
-R[4] = v__3513101_37;
+R[4] = v__3513208_37;
 saveCont(co, clofun48, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513199_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513199_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513199_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513199_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513199_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513199_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513501_37= co->res;
-Obj v__3513099_37 = R[1];
-Obj v__3513100_37 = R[2];
+Obj v__3513608_37= co->res;
+Obj v__3513206_37 = R[1];
+Obj v__3513207_37 = R[2];
 Obj v_result = R[3];
-Obj v__3513101_37 = R[4];
-Obj v__3513502_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513501_37);
-Obj v__3513102_37 = v__3513502_37;
-Obj v__3513503_37 = makeCons(co->gc, v__3513099_37, Nil);
-Obj v__3513504_37 = makeCons(co->gc, v__3513100_37, v__3513503_37);
-Obj v__3513505_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3513504_37);
-Obj v__3513506_37 = makeCons(co->gc, v__3513102_37, v_result);
-Obj v__3513507_37 = makeCons(co->gc, v__3513505_37, v__3513506_37);
+Obj v__3513208_37 = R[4];
+Obj v__3513609_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513608_37);
+Obj v__3513209_37 = v__3513609_37;
+Obj v__3513610_37 = makeCons(co->gc, v__3513206_37, Nil);
+Obj v__3513611_37 = makeCons(co->gc, v__3513207_37, v__3513610_37);
+Obj v__3513612_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3513611_37);
+Obj v__3513613_37 = makeCons(co->gc, v__3513209_37, v_result);
+Obj v__3513614_37 = makeCons(co->gc, v__3513612_37, v__3513613_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513101_37, Nil, v__3513507_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513208_37, Nil, v__3513614_37);
 return;
 }
 }
@@ -2673,53 +2673,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513093_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3513462_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513462_37) {
-Obj v__3513463_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513464_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513463_37);
-if (True == v__3513464_37) {
-Obj v__3513465_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513466_37 = PRIM_ISCONS(v__3513465_37);
-if (True == v__3513466_37) {
-Obj v__3513467_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513468_37 = PRIM_CAR(v__3513467_37);
-Obj v__3513096_37 = v__3513468_37;
-Obj v__3513469_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513470_37 = PRIM_CDR(v__3513469_37);
-Obj v__3513097_37 = v__3513470_37;
-R[1] = v__3513096_37;
-R[2] = v__3513097_37;
+Obj v__3513200_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3513569_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513569_37) {
+Obj v__3513570_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513571_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513570_37);
+if (True == v__3513571_37) {
+Obj v__3513572_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513573_37 = PRIM_ISCONS(v__3513572_37);
+if (True == v__3513573_37) {
+Obj v__3513574_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513575_37 = PRIM_CAR(v__3513574_37);
+Obj v__3513203_37 = v__3513575_37;
+Obj v__3513576_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513577_37 = PRIM_CDR(v__3513576_37);
+Obj v__3513204_37 = v__3513577_37;
+R[1] = v__3513203_37;
+R[2] = v__3513204_37;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513093_37);
+coraCall0(co, v__3513200_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513093_37);
+coraCall0(co, v__3513200_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513093_37);
+coraCall0(co, v__3513200_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513471_37= co->res;
-Obj v__3513096_37 = R[1];
-Obj v__3513097_37 = R[2];
-Obj v__3513472_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513471_37);
-Obj v__3513098_37 = v__3513472_37;
-Obj v__3513473_37 = makeCons(co->gc, v__3513098_37, closureRef(R[0], 2));
-Obj v__3513474_37 = makeCons(co->gc, v__3513096_37, v__3513473_37);
+Obj v__3513578_37= co->res;
+Obj v__3513203_37 = R[1];
+Obj v__3513204_37 = R[2];
+Obj v__3513579_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513578_37);
+Obj v__3513205_37 = v__3513579_37;
+Obj v__3513580_37 = makeCons(co->gc, v__3513205_37, closureRef(R[0], 2));
+Obj v__3513581_37 = makeCons(co->gc, v__3513203_37, v__3513580_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513097_37, Nil, v__3513474_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513204_37, Nil, v__3513581_37);
 return;
 }
 }
@@ -2729,15 +2729,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513458_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513458_37) {
-Obj v__3513459_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513094_37 = v__3513459_37;
-Obj v__3513460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513095_37 = v__3513460_37;
-Obj v__3513461_37 = makeCons(co->gc, v__3513094_37, closureRef(R[0], 1));
+Obj v__3513565_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513565_37) {
+Obj v__3513566_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513201_37 = v__3513566_37;
+Obj v__3513567_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513202_37 = v__3513567_37;
+Obj v__3513568_37 = makeCons(co->gc, v__3513201_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513095_37, v__3513461_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513202_37, v__3513568_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2772,47 +2772,47 @@ return;
 }
 case 1:
 {
-Obj v__3513444_37= co->res;
-Obj v__3513086_37 = R[1];
-Obj v__3513087_37 = v__3513444_37;
-Obj v__3513090_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3513086_37, v__3513087_37);
-Obj v__3513451_37 = PRIM_ISCONS(v__3513086_37);
-if (True == v__3513451_37) {
-Obj v__3513452_37 = PRIM_CAR(v__3513086_37);
-Obj v__3513453_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3513452_37);
-Obj v__3513454_37 = primNot(v__3513453_37);
-if (True == v__3513454_37) {
+Obj v__3513551_37= co->res;
+Obj v__3513193_37 = R[1];
+Obj v__3513194_37 = v__3513551_37;
+Obj v__3513197_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3513193_37, v__3513194_37);
+Obj v__3513558_37 = PRIM_ISCONS(v__3513193_37);
+if (True == v__3513558_37) {
+Obj v__3513559_37 = PRIM_CAR(v__3513193_37);
+Obj v__3513560_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3513559_37);
+Obj v__3513561_37 = primNot(v__3513560_37);
+if (True == v__3513561_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513090_37, True);
+coraCall1(co, v__3513197_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513090_37, False);
+coraCall1(co, v__3513197_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513090_37, False);
+coraCall1(co, v__3513197_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513443_37= co->res;
+Obj v__3513550_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513086_37 = v__3513443_37;
-R[1] = v__3513086_37;
+Obj v__3513193_37 = v__3513550_37;
+R[1] = v__3513193_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513442_37= co->res;
+Obj v__3513549_37= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513442_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513549_37);
 return;
 }
 }
@@ -2822,13 +2822,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513089_37 = R[1];
-if (True == v__3513089_37) {
-Obj v__3513445_37 = primGenSym(co);
-Obj v__3513091_37 = v__3513445_37;
-R[1] = v__3513091_37;
+Obj v__3513196_37 = R[1];
+if (True == v__3513196_37) {
+Obj v__3513552_37 = primGenSym(co);
+Obj v__3513198_37 = v__3513552_37;
+R[1] = v__3513198_37;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513091_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513198_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2838,13 +2838,13 @@ return;
 }
 case 1:
 {
-Obj v__3513446_37= co->res;
-Obj v__3513091_37 = R[1];
-Obj v__3513447_37 = makeCons(co->gc, v__3513446_37, Nil);
-Obj v__3513448_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513447_37);
-Obj v__3513449_37 = makeCons(co->gc, v__3513091_37, v__3513448_37);
-Obj v__3513450_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513449_37);
-coraReturn(co, v__3513450_37);
+Obj v__3513553_37= co->res;
+Obj v__3513198_37 = R[1];
+Obj v__3513554_37 = makeCons(co->gc, v__3513553_37, Nil);
+Obj v__3513555_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513554_37);
+Obj v__3513556_37 = makeCons(co->gc, v__3513198_37, v__3513555_37);
+Obj v__3513557_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513556_37);
+coraReturn(co, v__3513557_37);
 return;
 }
 }
@@ -2864,49 +2864,49 @@ return;
 }
 case 1:
 {
-Obj v__3513440_37= co->res;
-Obj v__3513080_37 = R[1];
-if (True == v__3513440_37) {
+Obj v__3513547_37= co->res;
+Obj v__3513187_37 = R[1];
+if (True == v__3513547_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513080_37, True);
+coraCall1(co, v__3513187_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513080_37, False);
+coraCall1(co, v__3513187_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513438_37= co->res;
+Obj v__3513545_37= co->res;
 Obj v_rules = R[1];
-Obj v__3513080_37 = R[2];
-if (True == v__3513438_37) {
-Obj v__3513439_37 = PRIM_CDR(v_rules);
-R[1] = v__3513080_37;
+Obj v__3513187_37 = R[2];
+if (True == v__3513545_37) {
+Obj v__3513546_37 = PRIM_CDR(v_rules);
+R[1] = v__3513187_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513439_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513546_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513080_37, False);
+coraCall1(co, v__3513187_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3513420_37= co->res;
+Obj v__3513527_37= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v__3513420_37) {
-Obj v__3513421_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v__3513422_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513421_37);
-coraReturn(co, v__3513422_37);
+if (True == v__3513527_37) {
+Obj v__3513528_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3513529_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513528_37);
+coraReturn(co, v__3513529_37);
 return;
 } else {
-Obj v__3513080_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v__3513187_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v__3513080_37;
+R[2] = v__3513187_37;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
@@ -2919,16 +2919,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513079_37 = R[1];
-if (True == v__3513079_37) {
-Obj v__3513423_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513081_37 = v__3513423_37;
-Obj v__3513424_37 = primGenSym(co);
-Obj v__3513082_37 = v__3513424_37;
-R[1] = v__3513081_37;
-R[2] = v__3513082_37;
+Obj v__3513186_37 = R[1];
+if (True == v__3513186_37) {
+Obj v__3513530_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513188_37 = v__3513530_37;
+Obj v__3513531_37 = primGenSym(co);
+Obj v__3513189_37 = v__3513531_37;
+R[1] = v__3513188_37;
+R[2] = v__3513189_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3513082_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3513189_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2938,53 +2938,53 @@ return;
 }
 case 1:
 {
-Obj v__3513430_37= co->res;
-Obj v__3513084_37 = R[1];
-Obj v__3513082_37 = R[2];
-Obj v__3513085_37 = v__3513430_37;
-Obj v__3513431_37 = makeCons(co->gc, v__3513085_37, Nil);
-Obj v__3513432_37 = makeCons(co->gc, Nil, v__3513431_37);
-Obj v__3513433_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513432_37);
-Obj v__3513434_37 = makeCons(co->gc, v__3513084_37, Nil);
-Obj v__3513435_37 = makeCons(co->gc, v__3513433_37, v__3513434_37);
-Obj v__3513436_37 = makeCons(co->gc, v__3513082_37, v__3513435_37);
-Obj v__3513437_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513436_37);
-coraReturn(co, v__3513437_37);
+Obj v__3513537_37= co->res;
+Obj v__3513191_37 = R[1];
+Obj v__3513189_37 = R[2];
+Obj v__3513192_37 = v__3513537_37;
+Obj v__3513538_37 = makeCons(co->gc, v__3513192_37, Nil);
+Obj v__3513539_37 = makeCons(co->gc, Nil, v__3513538_37);
+Obj v__3513540_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513539_37);
+Obj v__3513541_37 = makeCons(co->gc, v__3513191_37, Nil);
+Obj v__3513542_37 = makeCons(co->gc, v__3513540_37, v__3513541_37);
+Obj v__3513543_37 = makeCons(co->gc, v__3513189_37, v__3513542_37);
+Obj v__3513544_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513543_37);
+coraReturn(co, v__3513544_37);
 return;
 }
 case 2:
 {
-Obj v__3513427_37= co->res;
-Obj v__3513082_37 = R[1];
-Obj v__3513084_37 = v__3513427_37;
-Obj v__3513428_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513429_37 = PRIM_CDR(v__3513428_37);
-R[1] = v__3513084_37;
-R[2] = v__3513082_37;
+Obj v__3513534_37= co->res;
+Obj v__3513189_37 = R[1];
+Obj v__3513191_37 = v__3513534_37;
+Obj v__3513535_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513536_37 = PRIM_CDR(v__3513535_37);
+R[1] = v__3513191_37;
+R[2] = v__3513189_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3513429_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3513536_37);
 return;
 }
 case 3:
 {
-Obj v__3513426_37= co->res;
-Obj v__3513083_37 = R[1];
-Obj v__3513082_37 = R[2];
-R[1] = v__3513082_37;
+Obj v__3513533_37= co->res;
+Obj v__3513190_37 = R[1];
+Obj v__3513189_37 = R[2];
+R[1] = v__3513189_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3513426_37, closureRef(R[0], 0), v__3513083_37, v__3513082_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3513533_37, closureRef(R[0], 0), v__3513190_37, v__3513189_37);
 return;
 }
 case 4:
 {
-Obj v__3513425_37= co->res;
-Obj v__3513081_37 = R[1];
-Obj v__3513082_37 = R[2];
-Obj v__3513083_37 = v__3513425_37;
-R[1] = v__3513083_37;
-R[2] = v__3513082_37;
+Obj v__3513532_37= co->res;
+Obj v__3513188_37 = R[1];
+Obj v__3513189_37 = R[2];
+Obj v__3513190_37 = v__3513532_37;
+R[1] = v__3513190_37;
+R[2] = v__3513189_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513081_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513188_37);
 return;
 }
 }
@@ -2996,36 +2996,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v__3513407_37 = PRIM_CDR(v_rules);
-Obj v__3513408_37 = PRIM_CAR(v__3513407_37);
-Obj v__3513074_37 = v__3513408_37;
-Obj v__3513077_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513074_37);
-R[1] = v__3513074_37;
-R[2] = v__3513077_37;
+Obj v__3513514_37 = PRIM_CDR(v_rules);
+Obj v__3513515_37 = PRIM_CAR(v__3513514_37);
+Obj v__3513181_37 = v__3513515_37;
+Obj v__3513184_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513181_37);
+R[1] = v__3513181_37;
+R[2] = v__3513184_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513074_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513181_37);
 return;
 }
 case 1:
 {
-Obj v__3513416_37= co->res;
-Obj v__3513074_37 = R[1];
-Obj v__3513077_37 = R[2];
-if (True == v__3513416_37) {
-Obj v__3513417_37 = PRIM_CAR(v__3513074_37);
-Obj v__3513418_37 = PRIM_EQ(v__3513417_37, getBinding(co, packageID, 110).name);
-if (True == v__3513418_37) {
+Obj v__3513523_37= co->res;
+Obj v__3513181_37 = R[1];
+Obj v__3513184_37 = R[2];
+if (True == v__3513523_37) {
+Obj v__3513524_37 = PRIM_CAR(v__3513181_37);
+Obj v__3513525_37 = PRIM_EQ(v__3513524_37, getBinding(co, packageID, 110).name);
+if (True == v__3513525_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513077_37, True);
+coraCall1(co, v__3513184_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513077_37, False);
+coraCall1(co, v__3513184_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513077_37, False);
+coraCall1(co, v__3513184_37, False);
 return;
 }
 }
@@ -3036,8 +3036,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513076_37 = R[1];
-if (True == v__3513076_37) {
+Obj v__3513183_37 = R[1];
+if (True == v__3513183_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3048,20 +3048,20 @@ return;
 }
 case 1:
 {
-Obj v__3513410_37= co->res;
-Obj v__3513409_37 = R[1];
-Obj v__3513411_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3513412_37 = makeCons(co->gc, v__3513411_37, Nil);
-Obj v__3513413_37 = makeCons(co->gc, v__3513410_37, v__3513412_37);
-Obj v__3513414_37 = makeCons(co->gc, v__3513409_37, v__3513413_37);
-Obj v__3513415_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513414_37);
-coraReturn(co, v__3513415_37);
+Obj v__3513517_37= co->res;
+Obj v__3513516_37 = R[1];
+Obj v__3513518_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3513519_37 = makeCons(co->gc, v__3513518_37, Nil);
+Obj v__3513520_37 = makeCons(co->gc, v__3513517_37, v__3513519_37);
+Obj v__3513521_37 = makeCons(co->gc, v__3513516_37, v__3513520_37);
+Obj v__3513522_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513521_37);
+coraReturn(co, v__3513522_37);
 return;
 }
 case 2:
 {
-Obj v__3513409_37= co->res;
-R[1] = v__3513409_37;
+Obj v__3513516_37= co->res;
+R[1] = v__3513516_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3087,36 +3087,36 @@ return;
 }
 case 1:
 {
-Obj v__3513405_37= co->res;
+Obj v__3513512_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3513405_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3513512_37);
 return;
 }
 case 2:
 {
-Obj v__3513392_37= co->res;
+Obj v__3513499_37= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v__3513392_37) {
-Obj v__3513393_37 = PRIM_CAR(v_pat);
-Obj v__3513394_37 = PRIM_EQ(v__3513393_37, getBinding(co, packageID, 139).name);
-if (True == v__3513394_37) {
-Obj v__3513395_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513396_37 = makeCons(co->gc, v_pat, v__3513395_37);
-Obj v__3513397_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513396_37);
-Obj v__3513398_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513399_37 = makeCons(co->gc, v__3513398_37, Nil);
-Obj v__3513400_37 = makeCons(co->gc, v_body, v__3513399_37);
-Obj v__3513401_37 = makeCons(co->gc, v__3513397_37, v__3513400_37);
-Obj v__3513402_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513401_37);
-coraReturn(co, v__3513402_37);
-return;
-} else {
-Obj v__3513403_37 = PRIM_CAR(v_pat);
-Obj v__3513404_37 = PRIM_EQ(v__3513403_37, getBinding(co, packageID, 152).name);
-if (True == v__3513404_37) {
+if (True == v__3513499_37) {
+Obj v__3513500_37 = PRIM_CAR(v_pat);
+Obj v__3513501_37 = PRIM_EQ(v__3513500_37, getBinding(co, packageID, 139).name);
+if (True == v__3513501_37) {
+Obj v__3513502_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513503_37 = makeCons(co->gc, v_pat, v__3513502_37);
+Obj v__3513504_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513503_37);
+Obj v__3513505_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513506_37 = makeCons(co->gc, v__3513505_37, Nil);
+Obj v__3513507_37 = makeCons(co->gc, v_body, v__3513506_37);
+Obj v__3513508_37 = makeCons(co->gc, v__3513504_37, v__3513507_37);
+Obj v__3513509_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513508_37);
+coraReturn(co, v__3513509_37);
+return;
+} else {
+Obj v__3513510_37 = PRIM_CAR(v_pat);
+Obj v__3513511_37 = PRIM_EQ(v__3513510_37, getBinding(co, packageID, 152).name);
+if (True == v__3513511_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
@@ -3134,36 +3134,36 @@ return;
 }
 case 3:
 {
-Obj v__3513377_37= co->res;
+Obj v__3513484_37= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v__3513377_37) {
-Obj v__3513378_37 = PRIM_EQ(v_pat, v_expr);
-if (True == v__3513378_37) {
+if (True == v__3513484_37) {
+Obj v__3513485_37 = PRIM_EQ(v_pat, v_expr);
+if (True == v__3513485_37) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v__3513379_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513380_37 = makeCons(co->gc, v_pat, v__3513379_37);
-Obj v__3513381_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513380_37);
-Obj v__3513382_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513383_37 = makeCons(co->gc, v__3513382_37, Nil);
-Obj v__3513384_37 = makeCons(co->gc, v_body, v__3513383_37);
-Obj v__3513385_37 = makeCons(co->gc, v__3513381_37, v__3513384_37);
-Obj v__3513386_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513385_37);
-coraReturn(co, v__3513386_37);
+Obj v__3513486_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513487_37 = makeCons(co->gc, v_pat, v__3513486_37);
+Obj v__3513488_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513487_37);
+Obj v__3513489_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513490_37 = makeCons(co->gc, v__3513489_37, Nil);
+Obj v__3513491_37 = makeCons(co->gc, v_body, v__3513490_37);
+Obj v__3513492_37 = makeCons(co->gc, v__3513488_37, v__3513491_37);
+Obj v__3513493_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513492_37);
+coraReturn(co, v__3513493_37);
 return;
 }
 } else {
-Obj v__3513387_37 = primIsSymbol(v_pat);
-if (True == v__3513387_37) {
-Obj v__3513388_37 = makeCons(co->gc, v_body, Nil);
-Obj v__3513389_37 = makeCons(co->gc, v_expr, v__3513388_37);
-Obj v__3513390_37 = makeCons(co->gc, v_pat, v__3513389_37);
-Obj v__3513391_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513390_37);
-coraReturn(co, v__3513391_37);
+Obj v__3513494_37 = primIsSymbol(v_pat);
+if (True == v__3513494_37) {
+Obj v__3513495_37 = makeCons(co->gc, v_body, Nil);
+Obj v__3513496_37 = makeCons(co->gc, v_expr, v__3513495_37);
+Obj v__3513497_37 = makeCons(co->gc, v_pat, v__3513496_37);
+Obj v__3513498_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513497_37);
+coraReturn(co, v__3513498_37);
 return;
 } else {
 R[1] = v_expr;
@@ -3191,12 +3191,12 @@ return;
 }
 case 1:
 {
-Obj v__3513374_37= co->res;
+Obj v__3513481_37= co->res;
 Obj v_x = R[1];
-if (True == v__3513374_37) {
-Obj v__3513375_37 = primIsSymbol(v_x);
-Obj v__3513376_37 = primNot(v__3513375_37);
-if (True == v__3513376_37) {
+if (True == v__3513481_37) {
+Obj v__3513482_37 = primIsSymbol(v_x);
+Obj v__3513483_37 = primNot(v__3513482_37);
+if (True == v__3513483_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3229,41 +3229,41 @@ return;
 }
 case 1:
 {
-Obj v__3513353_37= co->res;
-Obj v__3513067_37 = R[1];
+Obj v__3513460_37= co->res;
+Obj v__3513174_37 = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v__3513068_37 = v__3513353_37;
-Obj v__3513071_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513067_37, v__3513068_37, v_expr, v_body, v_cc);
-Obj v__3513370_37 = PRIM_ISCONS(v_expr);
-if (True == v__3513370_37) {
-Obj v__3513371_37 = PRIM_CAR(v_expr);
-Obj v__3513372_37 = PRIM_EQ(v__3513371_37, getBinding(co, packageID, 152).name);
-if (True == v__3513372_37) {
+Obj v__3513175_37 = v__3513460_37;
+Obj v__3513178_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513174_37, v__3513175_37, v_expr, v_body, v_cc);
+Obj v__3513477_37 = PRIM_ISCONS(v_expr);
+if (True == v__3513477_37) {
+Obj v__3513478_37 = PRIM_CAR(v_expr);
+Obj v__3513479_37 = PRIM_EQ(v__3513478_37, getBinding(co, packageID, 152).name);
+if (True == v__3513479_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513071_37, True);
+coraCall1(co, v__3513178_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513071_37, False);
+coraCall1(co, v__3513178_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513071_37, False);
+coraCall1(co, v__3513178_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513352_37= co->res;
+Obj v__3513459_37= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v__3513067_37 = v__3513352_37;
-R[1] = v__3513067_37;
+Obj v__3513174_37 = v__3513459_37;
+R[1] = v__3513174_37;
 R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_expr;
@@ -3278,72 +3278,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513070_37 = R[1];
-if (True == v__3513070_37) {
+Obj v__3513177_37 = R[1];
+if (True == v__3513177_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3513357_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513358_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513357_37);
-Obj v__3513359_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513360_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513359_37);
-Obj v__3513361_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513362_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513361_37);
-R[1] = v__3513360_37;
-R[2] = v__3513358_37;
+Obj v__3513464_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513465_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513464_37);
+Obj v__3513466_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513467_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513466_37);
+Obj v__3513468_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513469_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513468_37);
+R[1] = v__3513467_37;
+R[2] = v__3513465_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513362_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513469_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3513356_37= co->res;
-Obj v__3513072_37 = R[1];
+Obj v__3513463_37= co->res;
+Obj v__3513179_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513072_37, v__3513356_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513179_37, v__3513463_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v__3513355_37= co->res;
-Obj v__3513072_37 = R[1];
-Obj v__3513073_37 = v__3513355_37;
-R[1] = v__3513072_37;
+Obj v__3513462_37= co->res;
+Obj v__3513179_37 = R[1];
+Obj v__3513180_37 = v__3513462_37;
+R[1] = v__3513179_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513073_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513180_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3513354_37= co->res;
-Obj v__3513072_37 = v__3513354_37;
-R[1] = v__3513072_37;
+Obj v__3513461_37= co->res;
+Obj v__3513179_37 = v__3513461_37;
+R[1] = v__3513179_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v__3513364_37= co->res;
-Obj v__3513358_37 = R[1];
-Obj v__3513365_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v__3513366_37 = makeCons(co->gc, v__3513365_37, Nil);
-Obj v__3513367_37 = makeCons(co->gc, v__3513364_37, v__3513366_37);
-Obj v__3513368_37 = makeCons(co->gc, v__3513358_37, v__3513367_37);
-Obj v__3513369_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513368_37);
-coraReturn(co, v__3513369_37);
+Obj v__3513471_37= co->res;
+Obj v__3513465_37 = R[1];
+Obj v__3513472_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3513473_37 = makeCons(co->gc, v__3513472_37, Nil);
+Obj v__3513474_37 = makeCons(co->gc, v__3513471_37, v__3513473_37);
+Obj v__3513475_37 = makeCons(co->gc, v__3513465_37, v__3513474_37);
+Obj v__3513476_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513475_37);
+coraReturn(co, v__3513476_37);
 return;
 }
 case 5:
 {
-Obj v__3513363_37= co->res;
-Obj v__3513360_37 = R[1];
-Obj v__3513358_37 = R[2];
-R[1] = v__3513358_37;
+Obj v__3513470_37= co->res;
+Obj v__3513467_37 = R[1];
+Obj v__3513465_37 = R[2];
+R[1] = v__3513465_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513360_37, v__3513363_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513467_37, v__3513470_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3354,9 +3354,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513350_37 = PRIM_CDR(v_exp);
+Obj v__3513457_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513350_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513457_37);
 return;
 }
 }
@@ -3367,36 +3367,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v__3513340_37 = PRIM_CDR(v_pat);
+Obj v__3513447_37 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513340_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513447_37);
 return;
 }
 case 1:
 {
-Obj v__3513345_37= co->res;
-Obj v__3513343_37 = R[1];
-Obj v__3513346_37 = makeCons(co->gc, v__3513345_37, Nil);
-Obj v__3513347_37 = makeCons(co->gc, v__3513343_37, v__3513346_37);
-Obj v__3513348_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513347_37);
-coraReturn(co, v__3513348_37);
+Obj v__3513452_37= co->res;
+Obj v__3513450_37 = R[1];
+Obj v__3513453_37 = makeCons(co->gc, v__3513452_37, Nil);
+Obj v__3513454_37 = makeCons(co->gc, v__3513450_37, v__3513453_37);
+Obj v__3513455_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513454_37);
+coraReturn(co, v__3513455_37);
 return;
 }
 case 2:
 {
-Obj v__3513341_37= co->res;
+Obj v__3513448_37= co->res;
 Obj v_pat = R[1];
-if (True == v__3513341_37) {
-Obj v__3513342_37 = PRIM_CAR(v_pat);
-coraReturn(co, v__3513342_37);
+if (True == v__3513448_37) {
+Obj v__3513449_37 = PRIM_CAR(v_pat);
+coraReturn(co, v__3513449_37);
 return;
 } else {
-Obj v__3513343_37 = PRIM_CAR(v_pat);
-Obj v__3513344_37 = PRIM_CDR(v_pat);
-R[1] = v__3513343_37;
+Obj v__3513450_37 = PRIM_CAR(v_pat);
+Obj v__3513451_37 = PRIM_CDR(v_pat);
+R[1] = v__3513450_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513344_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513451_37);
 return;
 }
 }
@@ -3408,13 +3408,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513337_37 = PRIM_EQ(v_x, True);
-if (True == v__3513337_37) {
+Obj v__3513444_37 = PRIM_EQ(v_x, True);
+if (True == v__3513444_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513338_37 = PRIM_EQ(v_x, False);
-if (True == v__3513338_37) {
+Obj v__3513445_37 = PRIM_EQ(v_x, False);
+if (True == v__3513445_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3431,9 +3431,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513335_37 = PRIM_CDR(v_exp);
+Obj v__3513442_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513335_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513442_37);
 return;
 }
 }
@@ -3444,41 +3444,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v__3513323_37 = PRIM_EQ(Nil, v_l);
-if (True == v__3513323_37) {
+Obj v__3513430_37 = PRIM_EQ(Nil, v_l);
+if (True == v__3513430_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513324_37 = PRIM_CAR(v_l);
-Obj v__3513325_37 = PRIM_EQ(v__3513324_37, False);
-if (True == v__3513325_37) {
+Obj v__3513431_37 = PRIM_CAR(v_l);
+Obj v__3513432_37 = PRIM_EQ(v__3513431_37, False);
+if (True == v__3513432_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513326_37 = PRIM_CDR(v_l);
+Obj v__3513433_37 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513326_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513433_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513327_37= co->res;
+Obj v__3513434_37= co->res;
 Obj v_l = R[1];
-Obj v__3513066_37 = v__3513327_37;
-Obj v__3513328_37 = PRIM_EQ(v__3513066_37, False);
-if (True == v__3513328_37) {
+Obj v__3513173_37 = v__3513434_37;
+Obj v__3513435_37 = PRIM_EQ(v__3513173_37, False);
+if (True == v__3513435_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513329_37 = PRIM_CAR(v_l);
-Obj v__3513330_37 = makeCons(co->gc, False, Nil);
-Obj v__3513331_37 = makeCons(co->gc, v__3513066_37, v__3513330_37);
-Obj v__3513332_37 = makeCons(co->gc, v__3513329_37, v__3513331_37);
-Obj v__3513333_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513332_37);
-coraReturn(co, v__3513333_37);
+Obj v__3513436_37 = PRIM_CAR(v_l);
+Obj v__3513437_37 = makeCons(co->gc, False, Nil);
+Obj v__3513438_37 = makeCons(co->gc, v__3513173_37, v__3513437_37);
+Obj v__3513439_37 = makeCons(co->gc, v__3513436_37, v__3513438_37);
+Obj v__3513440_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513439_37);
+coraReturn(co, v__3513440_37);
 return;
 }
 }
@@ -3490,9 +3490,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513321_37 = PRIM_CDR(v_exp);
+Obj v__3513428_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513321_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513428_37);
 return;
 }
 }
@@ -3503,41 +3503,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v__3513309_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513309_37) {
+Obj v__3513416_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513416_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513310_37 = PRIM_CAR(v_l);
-Obj v__3513311_37 = PRIM_EQ(v__3513310_37, True);
-if (True == v__3513311_37) {
+Obj v__3513417_37 = PRIM_CAR(v_l);
+Obj v__3513418_37 = PRIM_EQ(v__3513417_37, True);
+if (True == v__3513418_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513312_37 = PRIM_CDR(v_l);
+Obj v__3513419_37 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513312_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513419_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513313_37= co->res;
+Obj v__3513420_37= co->res;
 Obj v_l = R[1];
-Obj v__3513065_37 = v__3513313_37;
-Obj v__3513314_37 = PRIM_EQ(v__3513065_37, True);
-if (True == v__3513314_37) {
+Obj v__3513172_37 = v__3513420_37;
+Obj v__3513421_37 = PRIM_EQ(v__3513172_37, True);
+if (True == v__3513421_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513315_37 = PRIM_CAR(v_l);
-Obj v__3513316_37 = makeCons(co->gc, v__3513065_37, Nil);
-Obj v__3513317_37 = makeCons(co->gc, True, v__3513316_37);
-Obj v__3513318_37 = makeCons(co->gc, v__3513315_37, v__3513317_37);
-Obj v__3513319_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513318_37);
-coraReturn(co, v__3513319_37);
+Obj v__3513422_37 = PRIM_CAR(v_l);
+Obj v__3513423_37 = makeCons(co->gc, v__3513172_37, Nil);
+Obj v__3513424_37 = makeCons(co->gc, True, v__3513423_37);
+Obj v__3513425_37 = makeCons(co->gc, v__3513422_37, v__3513424_37);
+Obj v__3513426_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513425_37);
+coraReturn(co, v__3513426_37);
 return;
 }
 }
@@ -3549,12 +3549,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513295_37 = PRIM_CDR(v_exp);
-Obj v__3513296_37 = PRIM_EQ(Nil, v__3513295_37);
-if (True == v__3513296_37) {
-Obj v__3513297_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v__3513298_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513297_37);
-coraReturn(co, v__3513298_37);
+Obj v__3513402_37 = PRIM_CDR(v_exp);
+Obj v__3513403_37 = PRIM_EQ(Nil, v__3513402_37);
+if (True == v__3513403_37) {
+Obj v__3513404_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3513405_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513404_37);
+coraReturn(co, v__3513405_37);
 return;
 } else {
 R[1] = v_exp;
@@ -3565,38 +3565,38 @@ return;
 }
 case 1:
 {
-Obj v__3513302_37= co->res;
-Obj v__3513301_37 = R[1];
-Obj v__3513300_37 = R[2];
-Obj v__3513303_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513302_37);
-Obj v__3513304_37 = makeCons(co->gc, v__3513303_37, Nil);
-Obj v__3513305_37 = makeCons(co->gc, v__3513301_37, v__3513304_37);
-Obj v__3513306_37 = makeCons(co->gc, v__3513300_37, v__3513305_37);
-Obj v__3513307_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513306_37);
-coraReturn(co, v__3513307_37);
+Obj v__3513409_37= co->res;
+Obj v__3513408_37 = R[1];
+Obj v__3513407_37 = R[2];
+Obj v__3513410_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513409_37);
+Obj v__3513411_37 = makeCons(co->gc, v__3513410_37, Nil);
+Obj v__3513412_37 = makeCons(co->gc, v__3513408_37, v__3513411_37);
+Obj v__3513413_37 = makeCons(co->gc, v__3513407_37, v__3513412_37);
+Obj v__3513414_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513413_37);
+coraReturn(co, v__3513414_37);
 return;
 }
 case 2:
 {
-Obj v__3513301_37= co->res;
+Obj v__3513408_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513300_37 = R[2];
-R[1] = v__3513301_37;
-R[2] = v__3513300_37;
+Obj v__3513407_37 = R[2];
+R[1] = v__3513408_37;
+R[2] = v__3513407_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513299_37= co->res;
+Obj v__3513406_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513064_37 = v__3513299_37;
-Obj v__3513300_37 = PRIM_CAR(v__3513064_37);
+Obj v__3513171_37 = v__3513406_37;
+Obj v__3513407_37 = PRIM_CAR(v__3513171_37);
 R[1] = v_exp;
-R[2] = v__3513300_37;
+R[2] = v__3513407_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3513064_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3513171_37);
 return;
 }
 }
@@ -3607,9 +3607,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513293_37 = PRIM_CDR(v_exp);
+Obj v__3513400_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513293_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513400_37);
 return;
 }
 }
@@ -3620,58 +3620,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513281_37 = PRIM_CDR(v_exp);
+Obj v__3513388_37 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513281_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513388_37);
 return;
 }
 case 1:
 {
-Obj v__3513287_37= co->res;
-Obj v__3513285_37 = R[1];
-Obj v__3513284_37 = R[2];
-Obj v__3513288_37 = makeCons(co->gc, v__3513287_37, Nil);
-Obj v__3513289_37 = makeCons(co->gc, v__3513285_37, v__3513288_37);
-Obj v__3513290_37 = makeCons(co->gc, v__3513284_37, v__3513289_37);
-Obj v__3513291_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513290_37);
-coraReturn(co, v__3513291_37);
+Obj v__3513394_37= co->res;
+Obj v__3513392_37 = R[1];
+Obj v__3513391_37 = R[2];
+Obj v__3513395_37 = makeCons(co->gc, v__3513394_37, Nil);
+Obj v__3513396_37 = makeCons(co->gc, v__3513392_37, v__3513395_37);
+Obj v__3513397_37 = makeCons(co->gc, v__3513391_37, v__3513396_37);
+Obj v__3513398_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513397_37);
+coraReturn(co, v__3513398_37);
 return;
 }
 case 2:
 {
-Obj v__3513286_37= co->res;
-Obj v__3513285_37 = R[1];
-Obj v__3513284_37 = R[2];
-R[1] = v__3513285_37;
-R[2] = v__3513284_37;
+Obj v__3513393_37= co->res;
+Obj v__3513392_37 = R[1];
+Obj v__3513391_37 = R[2];
+R[1] = v__3513392_37;
+R[2] = v__3513391_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513286_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513393_37);
 return;
 }
 case 3:
 {
-Obj v__3513285_37= co->res;
+Obj v__3513392_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513284_37 = R[2];
-R[1] = v__3513285_37;
-R[2] = v__3513284_37;
+Obj v__3513391_37 = R[2];
+R[1] = v__3513392_37;
+R[2] = v__3513391_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v__3513282_37= co->res;
+Obj v__3513389_37= co->res;
 Obj v_exp = R[1];
-if (True == v__3513282_37) {
-Obj v__3513283_37 = PRIM_CAR(v_exp);
-coraReturn(co, v__3513283_37);
+if (True == v__3513389_37) {
+Obj v__3513390_37 = PRIM_CAR(v_exp);
+coraReturn(co, v__3513390_37);
 return;
 } else {
-Obj v__3513284_37 = PRIM_CAR(v_exp);
+Obj v__3513391_37 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v__3513284_37;
+R[2] = v__3513391_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
@@ -3685,9 +3685,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513278_37 = PRIM_ISCONS(v_x);
-Obj v__3513279_37 = primNot(v__3513278_37);
-coraReturn(co, v__3513279_37);
+Obj v__3513385_37 = PRIM_ISCONS(v_x);
+Obj v__3513386_37 = primNot(v__3513385_37);
+coraReturn(co, v__3513386_37);
 return;
 }
 }
@@ -3699,17 +3699,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v__3513273_37 = PRIM_ISCONS(v_l);
-if (True == v__3513273_37) {
-Obj v__3513274_37 = PRIM_CAR(v_l);
-Obj v__3513275_37 = PRIM_EQ(v__3513274_37, v_x);
-if (True == v__3513275_37) {
+Obj v__3513380_37 = PRIM_ISCONS(v_l);
+if (True == v__3513380_37) {
+Obj v__3513381_37 = PRIM_CAR(v_l);
+Obj v__3513382_37 = PRIM_EQ(v__3513381_37, v_x);
+if (True == v__3513382_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513276_37 = PRIM_CDR(v_l);
+Obj v__3513383_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v__3513276_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v__3513383_37);
 return;
 }
 } else {
@@ -3732,35 +3732,35 @@ return;
 }
 case 1:
 {
-Obj v__3513265_37= co->res;
-Obj v__3513264_37 = R[1];
-Obj v__3513263_37 = R[2];
-Obj v__3513266_37 = makeCons(co->gc, v__3513265_37, Nil);
-Obj v__3513267_37 = makeCons(co->gc, v__3513264_37, v__3513266_37);
-Obj v__3513268_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513267_37);
-Obj v__3513269_37 = makeCons(co->gc, v__3513268_37, Nil);
-Obj v__3513270_37 = makeCons(co->gc, v__3513263_37, v__3513269_37);
-Obj v__3513271_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513270_37);
-coraReturn(co, v__3513271_37);
+Obj v__3513372_37= co->res;
+Obj v__3513371_37 = R[1];
+Obj v__3513370_37 = R[2];
+Obj v__3513373_37 = makeCons(co->gc, v__3513372_37, Nil);
+Obj v__3513374_37 = makeCons(co->gc, v__3513371_37, v__3513373_37);
+Obj v__3513375_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513374_37);
+Obj v__3513376_37 = makeCons(co->gc, v__3513375_37, Nil);
+Obj v__3513377_37 = makeCons(co->gc, v__3513370_37, v__3513376_37);
+Obj v__3513378_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513377_37);
+coraReturn(co, v__3513378_37);
 return;
 }
 case 2:
 {
-Obj v__3513264_37= co->res;
+Obj v__3513371_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513263_37 = R[2];
-R[1] = v__3513264_37;
-R[2] = v__3513263_37;
+Obj v__3513370_37 = R[2];
+R[1] = v__3513371_37;
+R[2] = v__3513370_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513263_37= co->res;
+Obj v__3513370_37= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v__3513263_37;
+R[2] = v__3513370_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3773,9 +3773,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513261_37 = PRIM_CDR(v_exp);
+Obj v__3513368_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513261_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513368_37);
 return;
 }
 }
@@ -3793,36 +3793,36 @@ return;
 }
 case 1:
 {
-Obj v__3513253_37= co->res;
-Obj v__3513252_37 = R[1];
-Obj v__3513251_37 = R[2];
-Obj v__3513254_37 = makeCons(co->gc, v__3513252_37, v__3513253_37);
-Obj v__3513255_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513254_37);
-Obj v__3513256_37 = makeCons(co->gc, v__3513255_37, Nil);
-Obj v__3513257_37 = makeCons(co->gc, v__3513251_37, v__3513256_37);
-Obj v__3513258_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3513257_37);
-coraReturn(co, v__3513258_37);
+Obj v__3513360_37= co->res;
+Obj v__3513359_37 = R[1];
+Obj v__3513358_37 = R[2];
+Obj v__3513361_37 = makeCons(co->gc, v__3513359_37, v__3513360_37);
+Obj v__3513362_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513361_37);
+Obj v__3513363_37 = makeCons(co->gc, v__3513362_37, Nil);
+Obj v__3513364_37 = makeCons(co->gc, v__3513358_37, v__3513363_37);
+Obj v__3513365_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3513364_37);
+coraReturn(co, v__3513365_37);
 return;
 }
 case 2:
 {
-Obj v__3513252_37= co->res;
+Obj v__3513359_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513251_37 = R[2];
-R[1] = v__3513252_37;
-R[2] = v__3513251_37;
+Obj v__3513358_37 = R[2];
+R[1] = v__3513359_37;
+R[2] = v__3513358_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513249_37= co->res;
+Obj v__3513356_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513250_37 = makeCons(co->gc, v__3513249_37, Nil);
-Obj v__3513251_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513250_37);
+Obj v__3513357_37 = makeCons(co->gc, v__3513356_37, Nil);
+Obj v__3513358_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513357_37);
 R[1] = v_exp;
-R[2] = v__3513251_37;
+R[2] = v__3513358_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3835,26 +3835,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513231_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513231_37) {
-Obj v__3513232_37 = PRIM_CAR(v_exp);
-Obj v__3513233_37 = PRIM_EQ(v__3513232_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v__3513233_37) {
-Obj v__3513234_37 = PRIM_CDR(v_exp);
-coraReturn(co, v__3513234_37);
-return;
-} else {
-Obj v__3513235_37 = PRIM_CAR(v_exp);
-Obj v__3513236_37 = PRIM_EQ(v__3513235_37, getBinding(co, packageID, 140).name);
-if (True == v__3513236_37) {
+Obj v__3513338_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513338_37) {
+Obj v__3513339_37 = PRIM_CAR(v_exp);
+Obj v__3513340_37 = PRIM_EQ(v__3513339_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v__3513340_37) {
+Obj v__3513341_37 = PRIM_CDR(v_exp);
+coraReturn(co, v__3513341_37);
+return;
+} else {
+Obj v__3513342_37 = PRIM_CAR(v_exp);
+Obj v__3513343_37 = PRIM_EQ(v__3513342_37, getBinding(co, packageID, 140).name);
+if (True == v__3513343_37) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj v__3513243_37 = PRIM_CAR(v_exp);
-Obj v__3513244_37 = PRIM_EQ(v__3513243_37, getBinding(co, packageID, 139).name);
-if (True == v__3513244_37) {
+Obj v__3513350_37 = PRIM_CAR(v_exp);
+Obj v__3513351_37 = PRIM_EQ(v__3513350_37, getBinding(co, packageID, 139).name);
+if (True == v__3513351_37) {
 coraReturn(co, v_exp);
 return;
 } else {
@@ -3872,38 +3872,38 @@ return;
 }
 case 1:
 {
-Obj v__3513239_37= co->res;
-Obj v__3513237_37 = R[1];
-Obj v__3513240_37 = makeCons(co->gc, v__3513239_37, Nil);
-Obj v__3513241_37 = makeCons(co->gc, v__3513237_37, v__3513240_37);
-Obj v__3513242_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513241_37);
-coraReturn(co, v__3513242_37);
+Obj v__3513346_37= co->res;
+Obj v__3513344_37 = R[1];
+Obj v__3513347_37 = makeCons(co->gc, v__3513346_37, Nil);
+Obj v__3513348_37 = makeCons(co->gc, v__3513344_37, v__3513347_37);
+Obj v__3513349_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513348_37);
+coraReturn(co, v__3513349_37);
 return;
 }
 case 2:
 {
-Obj v__3513238_37= co->res;
-Obj v__3513237_37 = R[1];
-R[1] = v__3513237_37;
+Obj v__3513345_37= co->res;
+Obj v__3513344_37 = R[1];
+R[1] = v__3513344_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3513238_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3513345_37);
 return;
 }
 case 3:
 {
-Obj v__3513237_37= co->res;
+Obj v__3513344_37= co->res;
 Obj v_exp = R[1];
-R[1] = v__3513237_37;
+R[1] = v__3513344_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj v__3513246_37= co->res;
+Obj v__3513353_37= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513246_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513353_37);
 return;
 }
 }
@@ -3914,8 +3914,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v__3513245_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v__3513245_37) {
+Obj v__3513352_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v__3513352_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
@@ -3946,14 +3946,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v__3513221_37 = PRIM_EQ(Nil, v_macros);
-if (True == v__3513221_37) {
+Obj v__3513328_37 = PRIM_EQ(Nil, v_macros);
+if (True == v__3513328_37) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v__3513228_37 = PRIM_CAR(v_macros);
+Obj v__3513335_37 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513228_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513335_37);
 return;
 }
 }
@@ -3965,24 +3965,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v__3513063_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3513224_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513224_37) {
-Obj v__3513225_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513226_37 = PRIM_CAR(v_item);
-Obj v__3513227_37 = PRIM_EQ(v__3513225_37, v__3513226_37);
-if (True == v__3513227_37) {
+Obj v__3513170_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3513331_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513331_37) {
+Obj v__3513332_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513333_37 = PRIM_CAR(v_item);
+Obj v__3513334_37 = PRIM_EQ(v__3513332_37, v__3513333_37);
+if (True == v__3513334_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513063_37, True);
+coraCall1(co, v__3513170_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513063_37, False);
+coraCall1(co, v__3513170_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513063_37, False);
+coraCall1(co, v__3513170_37, False);
 return;
 }
 }
@@ -3993,16 +3993,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513062_37 = R[1];
-if (True == v__3513062_37) {
-Obj v__3513222_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513169_37 = R[1];
+if (True == v__3513169_37) {
+Obj v__3513329_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v__3513222_37, closureRef(R[0], 1));
+coraCall1(co, v__3513329_37, closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513223_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513330_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3513223_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3513330_37);
 return;
 }
 }
@@ -4015,10 +4015,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v__3513217_37 = makeCons(co->gc, v_n, v_v);
-Obj v__3513218_37 = makeCons(co->gc, v__3513217_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj v__3513219_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513218_37);
-coraReturn(co, v__3513219_37);
+Obj v__3513324_37 = makeCons(co->gc, v_n, v_v);
+Obj v__3513325_37 = makeCons(co->gc, v__3513324_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj v__3513326_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513325_37);
+coraReturn(co, v__3513326_37);
 return;
 }
 }
@@ -4044,14 +4044,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v__3513207_37 = PRIM_ISCONS(v_l);
-if (True == v__3513207_37) {
-Obj v__3513208_37 = PRIM_CAR(v_l);
+Obj v__3513314_37 = PRIM_ISCONS(v_l);
+if (True == v__3513314_37) {
+Obj v__3513315_37 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v__3513208_37);
+coraCall1(co, v_f, v__3513315_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4061,14 +4061,14 @@ return;
 }
 case 1:
 {
-Obj v__3513209_37= co->res;
+Obj v__3513316_37= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v__3513210_37 = makeCons(co->gc, v__3513209_37, v_res);
-Obj v__3513211_37 = PRIM_CDR(v_l);
+Obj v__3513317_37 = makeCons(co->gc, v__3513316_37, v_res);
+Obj v__3513318_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3513210_37, v_f, v__3513211_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3513317_37, v_f, v__3513318_37);
 return;
 }
 }
@@ -4080,13 +4080,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v__3513200_37 = PRIM_ISCONS(v_l);
-if (True == v__3513200_37) {
-Obj v__3513201_37 = PRIM_CAR(v_l);
-Obj v__3513202_37 = makeCons(co->gc, v__3513201_37, v_res);
-Obj v__3513203_37 = PRIM_CDR(v_l);
+Obj v__3513307_37 = PRIM_ISCONS(v_l);
+if (True == v__3513307_37) {
+Obj v__3513308_37 = PRIM_CAR(v_l);
+Obj v__3513309_37 = makeCons(co->gc, v__3513308_37, v_res);
+Obj v__3513310_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3513202_37, v__3513203_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3513309_37, v__3513310_37);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4101,8 +4101,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513198_37 = PRIM_ISCONS(v_x);
-coraReturn(co, v__3513198_37);
+Obj v__3513305_37 = PRIM_ISCONS(v_x);
+coraReturn(co, v__3513305_37);
 return;
 }
 }
@@ -4113,13 +4113,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513190_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513190_37) {
-Obj v__3513191_37 = PRIM_CAR(v_exp);
-Obj v__3513192_37 = PRIM_CDR(v_exp);
-R[1] = v__3513191_37;
+Obj v__3513297_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513297_37) {
+Obj v__3513298_37 = PRIM_CAR(v_exp);
+Obj v__3513299_37 = PRIM_CDR(v_exp);
+R[1] = v__3513298_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513192_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513299_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4128,12 +4128,12 @@ return;
 }
 case 1:
 {
-Obj v__3513193_37= co->res;
-Obj v__3513191_37 = R[1];
-Obj v__3513194_37 = makeCons(co->gc, v__3513193_37, Nil);
-Obj v__3513195_37 = makeCons(co->gc, v__3513191_37, v__3513194_37);
-Obj v__3513196_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513195_37);
-coraReturn(co, v__3513196_37);
+Obj v__3513300_37= co->res;
+Obj v__3513298_37 = R[1];
+Obj v__3513301_37 = makeCons(co->gc, v__3513300_37, Nil);
+Obj v__3513302_37 = makeCons(co->gc, v__3513298_37, v__3513301_37);
+Obj v__3513303_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513302_37);
+coraReturn(co, v__3513303_37);
 return;
 }
 }
@@ -4144,10 +4144,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513186_37 = PRIM_CDR(v_x);
-Obj v__3513187_37 = PRIM_CDR(v__3513186_37);
-Obj v__3513188_37 = PRIM_CDR(v__3513187_37);
-coraReturn(co, v__3513188_37);
+Obj v__3513293_37 = PRIM_CDR(v_x);
+Obj v__3513294_37 = PRIM_CDR(v__3513293_37);
+Obj v__3513295_37 = PRIM_CDR(v__3513294_37);
+coraReturn(co, v__3513295_37);
 return;
 }
 }
@@ -4158,11 +4158,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513181_37 = PRIM_CDR(v_x);
-Obj v__3513182_37 = PRIM_CDR(v__3513181_37);
-Obj v__3513183_37 = PRIM_CDR(v__3513182_37);
-Obj v__3513184_37 = PRIM_CAR(v__3513183_37);
-coraReturn(co, v__3513184_37);
+Obj v__3513288_37 = PRIM_CDR(v_x);
+Obj v__3513289_37 = PRIM_CDR(v__3513288_37);
+Obj v__3513290_37 = PRIM_CDR(v__3513289_37);
+Obj v__3513291_37 = PRIM_CAR(v__3513290_37);
+coraReturn(co, v__3513291_37);
 return;
 }
 }
@@ -4173,10 +4173,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513177_37 = PRIM_CDR(v_x);
-Obj v__3513178_37 = PRIM_CDR(v__3513177_37);
-Obj v__3513179_37 = PRIM_CAR(v__3513178_37);
-coraReturn(co, v__3513179_37);
+Obj v__3513284_37 = PRIM_CDR(v_x);
+Obj v__3513285_37 = PRIM_CDR(v__3513284_37);
+Obj v__3513286_37 = PRIM_CAR(v__3513285_37);
+coraReturn(co, v__3513286_37);
 return;
 }
 }
@@ -4187,9 +4187,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513174_37 = PRIM_CDR(v_x);
-Obj v__3513175_37 = PRIM_CDR(v__3513174_37);
-coraReturn(co, v__3513175_37);
+Obj v__3513281_37 = PRIM_CDR(v_x);
+Obj v__3513282_37 = PRIM_CDR(v__3513281_37);
+coraReturn(co, v__3513282_37);
 return;
 }
 }
@@ -4200,9 +4200,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513171_37 = PRIM_CAR(v_x);
-Obj v__3513172_37 = PRIM_CDR(v__3513171_37);
-coraReturn(co, v__3513172_37);
+Obj v__3513278_37 = PRIM_CAR(v_x);
+Obj v__3513279_37 = PRIM_CDR(v__3513278_37);
+coraReturn(co, v__3513279_37);
 return;
 }
 }
@@ -4213,9 +4213,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513168_37 = PRIM_CAR(v_x);
-Obj v__3513169_37 = PRIM_CAR(v__3513168_37);
-coraReturn(co, v__3513169_37);
+Obj v__3513275_37 = PRIM_CAR(v_x);
+Obj v__3513276_37 = PRIM_CAR(v__3513275_37);
+coraReturn(co, v__3513276_37);
 return;
 }
 }
@@ -4226,9 +4226,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513165_37 = PRIM_CDR(v_x);
-Obj v__3513166_37 = PRIM_CAR(v__3513165_37);
-coraReturn(co, v__3513166_37);
+Obj v__3513272_37 = PRIM_CDR(v_x);
+Obj v__3513273_37 = PRIM_CAR(v__3513272_37);
+coraReturn(co, v__3513273_37);
 return;
 }
 }
@@ -4239,8 +4239,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513163_37 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v__3513163_37);
+Obj v__3513270_37 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v__3513270_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 7f4845a..9759c2b 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,9 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun150(struct Cora* co, int label, Obj *R);
+static void clofun149(struct Cora* co, int label, Obj *R);
+static void clofun148(struct Cora* co, int label, Obj *R);
 static void clofun147(struct Cora* co, int label, Obj *R);
 static void clofun146(struct Cora* co, int label, Obj *R);
 static void clofun145(struct Cora* co, int label, Obj *R);
@@ -154,7 +157,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 133);
+Binding *__symbolTable = malloc(sizeof(Binding) * 134);
 __symbolTable[0] = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
 __symbolTable[1] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
 __symbolTable[2] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
@@ -244,237 +247,239 @@ __symbolTable[85] = bindSymbol(co, intern("cora/init#boolean?"));
 __symbolTable[86] = bindSymbol(co, intern("cora/init#number?"));
 __symbolTable[87] = bindSymbol(co, intern("quote"));
 __symbolTable[88] = bindSymbol(co, intern("do"));
-__symbolTable[89] = bindSymbol(co, intern("let"));
-__symbolTable[90] = bindSymbol(co, intern("if"));
-__symbolTable[91] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[92] = bindSymbol(co, intern("lambda"));
-__symbolTable[93] = bindSymbol(co, intern("%builtin"));
-__symbolTable[94] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[95] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[96] = bindSymbol(co, intern("%global"));
-__symbolTable[97] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[98] = bindSymbol(co, intern("%const"));
-__symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#parse"));
-__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
-__symbolTable[101] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
-__symbolTable[103] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
-__symbolTable[105] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[106] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
-__symbolTable[107] = bindSymbol(co, intern("string?"));
-__symbolTable[108] = bindSymbol(co, intern("integer?"));
-__symbolTable[109] = bindSymbol(co, intern("not"));
-__symbolTable[110] = bindSymbol(co, intern("symbol?"));
-__symbolTable[111] = bindSymbol(co, intern("gensym"));
-__symbolTable[112] = bindSymbol(co, intern("<"));
-__symbolTable[113] = bindSymbol(co, intern(">"));
-__symbolTable[114] = bindSymbol(co, intern("="));
-__symbolTable[115] = bindSymbol(co, intern("/"));
-__symbolTable[116] = bindSymbol(co, intern("*"));
-__symbolTable[117] = bindSymbol(co, intern("-"));
-__symbolTable[118] = bindSymbol(co, intern("+"));
-__symbolTable[119] = bindSymbol(co, intern("cons?"));
-__symbolTable[120] = bindSymbol(co, intern("cons"));
-__symbolTable[121] = bindSymbol(co, intern("cdr"));
-__symbolTable[122] = bindSymbol(co, intern("car"));
-__symbolTable[123] = bindSymbol(co, intern("set"));
-__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
-__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
-__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#index"));
-__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
-__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#error"));
-__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#assq"));
-__symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
-__symbolTable[132] = bindSymbol(co, intern("cora/init#import"));
+__symbolTable[89] = bindSymbol(co, intern("if"));
+__symbolTable[90] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[91] = bindSymbol(co, intern("lambda"));
+__symbolTable[92] = bindSymbol(co, intern("%builtin"));
+__symbolTable[93] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[94] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[95] = bindSymbol(co, intern("%global"));
+__symbolTable[96] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
+__symbolTable[97] = bindSymbol(co, intern("%const"));
+__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#parse"));
+__symbolTable[99] = bindSymbol(co, intern("let"));
+__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#let-list"));
+__symbolTable[101] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
+__symbolTable[102] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[103] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
+__symbolTable[104] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[105] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
+__symbolTable[106] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[107] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
+__symbolTable[108] = bindSymbol(co, intern("string?"));
+__symbolTable[109] = bindSymbol(co, intern("integer?"));
+__symbolTable[110] = bindSymbol(co, intern("not"));
+__symbolTable[111] = bindSymbol(co, intern("symbol?"));
+__symbolTable[112] = bindSymbol(co, intern("gensym"));
+__symbolTable[113] = bindSymbol(co, intern("<"));
+__symbolTable[114] = bindSymbol(co, intern(">"));
+__symbolTable[115] = bindSymbol(co, intern("="));
+__symbolTable[116] = bindSymbol(co, intern("/"));
+__symbolTable[117] = bindSymbol(co, intern("*"));
+__symbolTable[118] = bindSymbol(co, intern("-"));
+__symbolTable[119] = bindSymbol(co, intern("+"));
+__symbolTable[120] = bindSymbol(co, intern("cons?"));
+__symbolTable[121] = bindSymbol(co, intern("cons"));
+__symbolTable[122] = bindSymbol(co, intern("cdr"));
+__symbolTable[123] = bindSymbol(co, intern("car"));
+__symbolTable[124] = bindSymbol(co, intern("set"));
+__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
+__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
+__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#index"));
+__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
+__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#foldl"));
+__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#error"));
+__symbolTable[131] = bindSymbol(co, intern("cora/lib/toc#assq"));
+__symbolTable[132] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
+__symbolTable[133] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
-coraCall0(co, makeNative(co->gc, 1, clofun147, 0, 0));
+coraCall0(co, makeNative(co->gc, 1, clofun150, 0, 0));
 }
 
-static void clofun147(struct Cora* co, int label, Obj *R) {
+static void clofun150(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun147, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/toc/internal"));
+saveCont(co, clofun150, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj v__3519123_37= co->res;
-Obj v__3519129_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj v__3519135_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun113, 2, 0));
-Obj v__3519157_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun115, 3, 0));
-Obj v__3519178_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun117, 4, 0));
-Obj v__3519191_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun120, 3, 0));
-Obj v__3519233_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun125, 1, 0));
-Obj v__3519272_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun128, 4, 0));
-Obj v__3519324_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj v__3519325_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun134, 2, 0));
-Obj v__3519339_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun142, 1, 0));
-Obj v__3519340_37 = primSet(co, getBinding(co, packageID, 8).name, False);
-Obj v__3519344_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun144, 1, 0));
-Obj v__3519356_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun145, 2, 0));
-Obj v__3519359_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun146, 2, 0));
-coraReturn(co, v__3519359_37);
+Obj v__3519258_37= co->res;
+Obj v__3519264_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun115, 2, 0));
+Obj v__3519270_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun116, 2, 0));
+Obj v__3519292_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun118, 3, 0));
+Obj v__3519313_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun120, 4, 0));
+Obj v__3519326_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun123, 3, 0));
+Obj v__3519368_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun128, 1, 0));
+Obj v__3519407_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun131, 4, 0));
+Obj v__3519459_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun136, 2, 0));
+Obj v__3519460_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun137, 2, 0));
+Obj v__3519474_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun145, 1, 0));
+Obj v__3519475_37 = primSet(co, getBinding(co, packageID, 8).name, False);
+Obj v__3519479_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun147, 1, 0));
+Obj v__3519491_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun148, 2, 0));
+Obj v__3519494_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun149, 2, 0));
+coraReturn(co, v__3519494_37);
 return;
 }
 case 2:
 {
-Obj v__3517733_37= co->res;
-Obj v__3517734_37 = primSet(co, getBinding(co, packageID, 131).name, Nil);
-Obj v__3517749_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v__3517755_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v__3517765_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v__3517766_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v__3517773_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v__3517774_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3517775_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517774_37);
-Obj v__3517776_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, v__3517775_37);
-Obj v__3517777_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3517778_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517777_37);
-Obj v__3517779_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3517778_37);
-Obj v__3517780_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3517781_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517780_37);
-Obj v__3517782_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517781_37);
-Obj v__3517783_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3517784_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517783_37);
-Obj v__3517785_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517784_37);
-Obj v__3517786_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3517787_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517786_37);
-Obj v__3517788_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517787_37);
-Obj v__3517789_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3517790_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517789_37);
-Obj v__3517791_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517790_37);
-Obj v__3517792_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3517793_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517792_37);
-Obj v__3517794_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517793_37);
-Obj v__3517795_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3517796_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517795_37);
-Obj v__3517797_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517796_37);
-Obj v__3517798_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3517799_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517798_37);
-Obj v__3517800_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517799_37);
-Obj v__3517801_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3517802_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517801_37);
-Obj v__3517803_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517802_37);
-Obj v__3517804_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3517805_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517804_37);
-Obj v__3517806_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517805_37);
-Obj v__3517807_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3517808_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517807_37);
-Obj v__3517809_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517808_37);
-Obj v__3517810_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3517811_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517810_37);
-Obj v__3517812_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517811_37);
-Obj v__3517813_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3517814_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517813_37);
-Obj v__3517815_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517814_37);
-Obj v__3517816_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3517817_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517816_37);
-Obj v__3517818_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517817_37);
-Obj v__3517819_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3517820_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517819_37);
-Obj v__3517821_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517820_37);
-Obj v__3517822_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3517823_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517822_37);
-Obj v__3517824_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3517823_37);
-Obj v__3517825_37 = makeCons(co->gc, v__3517824_37, Nil);
-Obj v__3517826_37 = makeCons(co->gc, v__3517821_37, v__3517825_37);
-Obj v__3517827_37 = makeCons(co->gc, v__3517818_37, v__3517826_37);
-Obj v__3517828_37 = makeCons(co->gc, v__3517815_37, v__3517827_37);
-Obj v__3517829_37 = makeCons(co->gc, v__3517812_37, v__3517828_37);
-Obj v__3517830_37 = makeCons(co->gc, v__3517809_37, v__3517829_37);
-Obj v__3517831_37 = makeCons(co->gc, v__3517806_37, v__3517830_37);
-Obj v__3517832_37 = makeCons(co->gc, v__3517803_37, v__3517831_37);
-Obj v__3517833_37 = makeCons(co->gc, v__3517800_37, v__3517832_37);
-Obj v__3517834_37 = makeCons(co->gc, v__3517797_37, v__3517833_37);
-Obj v__3517835_37 = makeCons(co->gc, v__3517794_37, v__3517834_37);
-Obj v__3517836_37 = makeCons(co->gc, v__3517791_37, v__3517835_37);
-Obj v__3517837_37 = makeCons(co->gc, v__3517788_37, v__3517836_37);
-Obj v__3517838_37 = makeCons(co->gc, v__3517785_37, v__3517837_37);
-Obj v__3517839_37 = makeCons(co->gc, v__3517782_37, v__3517838_37);
-Obj v__3517840_37 = makeCons(co->gc, v__3517779_37, v__3517839_37);
-Obj v__3517841_37 = makeCons(co->gc, v__3517776_37, v__3517840_37);
-Obj v__3517842_37 = primSet(co, getBinding(co, packageID, 124).name, v__3517841_37);
-Obj v__3517846_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3517849_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3517852_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3517857_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v__3518057_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 4, clofun21, 3, 0));
-Obj v__3518068_37 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 4, clofun23, 2, 0));
-Obj v__3518079_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun25, 2, 0));
-Obj v__3518140_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3518315_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun42, 1, 0));
-Obj v__3518390_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun46, 2, 0));
-Obj v__3518393_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun47, 1, 0));
-Obj v__3518530_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun56, 2, 0));
-Obj v__3518553_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun59, 3, 0));
-Obj v__3518630_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun63, 2, 0));
-Obj v__3518661_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun67, 3, 0));
-Obj v__3518667_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun70, 4, 0));
-Obj v__3518672_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun72, 2, 0));
-Obj v__3518681_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun74, 1, 0));
-Obj v__3518732_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun76, 2, 0));
-Obj v__3518740_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj v__3518747_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun78, 2, 0));
-Obj v__3518752_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun79, 2, 0));
-Obj v__3518758_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun80, 3, 0));
-Obj v__3518759_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun81, 2, 0));
-Obj v__3518766_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj v__3518773_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun85, 5, 0));
-Obj v__3519060_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj v__3519074_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun100, 5, 0));
-Obj v__3519096_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun102, 5, 0));
-Obj v__3519098_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj v__3519102_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj v__3519103_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun105, 2, 0));
-Obj v__3519104_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj v__3519105_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj v__3519106_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun108, 1, 0));
-Obj v__3519113_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun109, 1, 0));
-Obj v__3519120_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun110, 2, 0));
-saveCont(co, clofun147, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), getBinding(co, packageID, 32).name, makeNative(co->gc, 2, clofun111, 1, 0));
+Obj v__3517852_37= co->res;
+Obj v__3517853_37 = primSet(co, getBinding(co, packageID, 132).name, Nil);
+Obj v__3517868_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3517874_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3517884_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3517885_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3517892_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3517893_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3517894_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517893_37);
+Obj v__3517895_37 = makeCons(co->gc, getBinding(co, packageID, 124).name, v__3517894_37);
+Obj v__3517896_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3517897_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517896_37);
+Obj v__3517898_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, v__3517897_37);
+Obj v__3517899_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3517900_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517899_37);
+Obj v__3517901_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3517900_37);
+Obj v__3517902_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3517903_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517902_37);
+Obj v__3517904_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517903_37);
+Obj v__3517905_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3517906_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517905_37);
+Obj v__3517907_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517906_37);
+Obj v__3517908_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3517909_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517908_37);
+Obj v__3517910_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517909_37);
+Obj v__3517911_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3517912_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517911_37);
+Obj v__3517913_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517912_37);
+Obj v__3517914_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3517915_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517914_37);
+Obj v__3517916_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517915_37);
+Obj v__3517917_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3517918_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517917_37);
+Obj v__3517919_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517918_37);
+Obj v__3517920_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3517921_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517920_37);
+Obj v__3517922_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517921_37);
+Obj v__3517923_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3517924_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517923_37);
+Obj v__3517925_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517924_37);
+Obj v__3517926_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3517927_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517926_37);
+Obj v__3517928_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517927_37);
+Obj v__3517929_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3517930_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517929_37);
+Obj v__3517931_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517930_37);
+Obj v__3517932_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3517933_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517932_37);
+Obj v__3517934_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517933_37);
+Obj v__3517935_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3517936_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517935_37);
+Obj v__3517937_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517936_37);
+Obj v__3517938_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3517939_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517938_37);
+Obj v__3517940_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517939_37);
+Obj v__3517941_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3517942_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517941_37);
+Obj v__3517943_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517942_37);
+Obj v__3517944_37 = makeCons(co->gc, v__3517943_37, Nil);
+Obj v__3517945_37 = makeCons(co->gc, v__3517940_37, v__3517944_37);
+Obj v__3517946_37 = makeCons(co->gc, v__3517937_37, v__3517945_37);
+Obj v__3517947_37 = makeCons(co->gc, v__3517934_37, v__3517946_37);
+Obj v__3517948_37 = makeCons(co->gc, v__3517931_37, v__3517947_37);
+Obj v__3517949_37 = makeCons(co->gc, v__3517928_37, v__3517948_37);
+Obj v__3517950_37 = makeCons(co->gc, v__3517925_37, v__3517949_37);
+Obj v__3517951_37 = makeCons(co->gc, v__3517922_37, v__3517950_37);
+Obj v__3517952_37 = makeCons(co->gc, v__3517919_37, v__3517951_37);
+Obj v__3517953_37 = makeCons(co->gc, v__3517916_37, v__3517952_37);
+Obj v__3517954_37 = makeCons(co->gc, v__3517913_37, v__3517953_37);
+Obj v__3517955_37 = makeCons(co->gc, v__3517910_37, v__3517954_37);
+Obj v__3517956_37 = makeCons(co->gc, v__3517907_37, v__3517955_37);
+Obj v__3517957_37 = makeCons(co->gc, v__3517904_37, v__3517956_37);
+Obj v__3517958_37 = makeCons(co->gc, v__3517901_37, v__3517957_37);
+Obj v__3517959_37 = makeCons(co->gc, v__3517898_37, v__3517958_37);
+Obj v__3517960_37 = makeCons(co->gc, v__3517895_37, v__3517959_37);
+Obj v__3517961_37 = primSet(co, getBinding(co, packageID, 125).name, v__3517960_37);
+Obj v__3517965_37 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3517968_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3517971_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3517976_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3517990_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun13, 3, 0));
+Obj v__3518192_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun24, 3, 0));
+Obj v__3518203_37 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj v__3518214_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun28, 2, 0));
+Obj v__3518275_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun35, 1, 0));
+Obj v__3518450_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj v__3518525_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun49, 2, 0));
+Obj v__3518528_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun50, 1, 0));
+Obj v__3518665_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun59, 2, 0));
+Obj v__3518688_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun62, 3, 0));
+Obj v__3518765_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun66, 2, 0));
+Obj v__3518796_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun70, 3, 0));
+Obj v__3518802_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun73, 4, 0));
+Obj v__3518807_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun75, 2, 0));
+Obj v__3518816_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun77, 1, 0));
+Obj v__3518867_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun79, 2, 0));
+Obj v__3518875_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun80, 2, 0));
+Obj v__3518882_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3518887_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun82, 2, 0));
+Obj v__3518893_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun83, 3, 0));
+Obj v__3518894_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun84, 2, 0));
+Obj v__3518901_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun86, 5, 0));
+Obj v__3518908_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun88, 5, 0));
+Obj v__3519195_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun101, 5, 0));
+Obj v__3519209_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun103, 5, 0));
+Obj v__3519231_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun105, 5, 0));
+Obj v__3519233_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun106, 2, 0));
+Obj v__3519237_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun107, 2, 0));
+Obj v__3519238_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun108, 2, 0));
+Obj v__3519239_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj v__3519240_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj v__3519241_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun111, 1, 0));
+Obj v__3519248_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun112, 1, 0));
+Obj v__3519255_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun113, 2, 0));
+saveCont(co, clofun150, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), getBinding(co, packageID, 32).name, makeNative(co->gc, 2, clofun114, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3517732_37= co->res;
-saveCont(co, clofun147, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/hash-h"));
+Obj v__3517851_37= co->res;
+saveCont(co, clofun150, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v__3517731_37= co->res;
-saveCont(co, clofun147, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), makeCString(co->gc, "cora/lib/io"));
+Obj v__3517850_37= co->res;
+saveCont(co, clofun150, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun146(struct Cora* co, int label, Obj *R) {
+static void clofun149(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
-saveCont(co, clofun146, 2, R);
+saveCont(co, clofun149, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_from);
 return;
 }
 case 1:
 {
-Obj v__3519358_37= co->res;
-Obj v__3517730_37 = R[1];
+Obj v__3519493_37= co->res;
+Obj v__3517849_37 = R[1];
 Obj v_to = R[2];
-if (True == v__3519358_37) {
+if (True == v__3519493_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), v__3517730_37, v_to);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), v__3517849_37, v_to);
 return;
 } else {
 coraReturn(co, False);
@@ -483,188 +488,188 @@ return;
 }
 case 2:
 {
-Obj v__3519357_37= co->res;
+Obj v__3519492_37= co->res;
 Obj v_to = R[1];
-Obj v__3517730_37 = v__3519357_37;
-R[1] = v__3517730_37;
+Obj v__3517849_37 = v__3519492_37;
+R[1] = v__3517849_37;
 R[2] = v_to;
-saveCont(co, clofun146, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517730_37);
+saveCont(co, clofun149, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517849_37);
 return;
 }
 }
 }
 
-static void clofun145(struct Cora* co, int label, Obj *R) {
+static void clofun148(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 Obj v_to = R[2];
-Obj v__3519345_37 = primGenSym(co);
-Obj v__3517727_37 = v__3519345_37;
-Obj v__3519346_37 = primSet(co, v__3517727_37, Nil);
+Obj v__3519480_37 = primGenSym(co);
+Obj v__3517846_37 = v__3519480_37;
+Obj v__3519481_37 = primSet(co, v__3517846_37, Nil);
 R[1] = v_exp;
 R[2] = v_to;
-R[3] = v__3517727_37;
-saveCont(co, clofun145, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v__3517727_37);
+R[3] = v__3517846_37;
+saveCont(co, clofun148, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v__3517846_37);
 return;
 }
 case 1:
 {
-Obj v__3519354_37= co->res;
-Obj v__3519355_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519354_37);
-coraReturn(co, v__3519355_37);
+Obj v__3519489_37= co->res;
+Obj v__3519490_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519489_37);
+coraReturn(co, v__3519490_37);
 return;
 }
 case 2:
 {
-Obj v__3519353_37= co->res;
-Obj v__3517729_37 = R[1];
-saveCont(co, clofun145, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3517729_37);
+Obj v__3519488_37= co->res;
+Obj v__3517848_37 = R[1];
+saveCont(co, clofun148, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3517848_37);
 return;
 }
 case 3:
 {
-Obj v__3519352_37= co->res;
-Obj v__3517728_37 = R[1];
-Obj v__3517729_37 = R[2];
-R[1] = v__3517729_37;
-saveCont(co, clofun145, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v__3517729_37, v__3517728_37, v__3519352_37);
+Obj v__3519487_37= co->res;
+Obj v__3517847_37 = R[1];
+Obj v__3517848_37 = R[2];
+R[1] = v__3517848_37;
+saveCont(co, clofun148, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v__3517848_37, v__3517847_37, v__3519487_37);
 return;
 }
 case 4:
 {
-Obj v__3519351_37= co->res;
-Obj v__3517727_37 = R[1];
-Obj v__3517728_37 = R[2];
-Obj v__3517729_37 = R[3];
-if (True == v__3519351_37) {
+Obj v__3519486_37= co->res;
+Obj v__3517846_37 = R[1];
+Obj v__3517847_37 = R[2];
+Obj v__3517848_37 = R[3];
+if (True == v__3519486_37) {
 coraReturn(co, False);
 return;
 } else {
-R[1] = v__3517728_37;
-R[2] = v__3517729_37;
-saveCont(co, clofun145, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517727_37);
+R[1] = v__3517847_37;
+R[2] = v__3517848_37;
+saveCont(co, clofun148, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517846_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3519350_37= co->res;
-Obj v__3517727_37 = R[1];
-Obj v__3517728_37 = R[2];
-Obj v__3517729_37 = v__3519350_37;
-R[1] = v__3517727_37;
-R[2] = v__3517728_37;
-R[3] = v__3517729_37;
-saveCont(co, clofun145, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517729_37);
+Obj v__3519485_37= co->res;
+Obj v__3517846_37 = R[1];
+Obj v__3517847_37 = R[2];
+Obj v__3517848_37 = v__3519485_37;
+R[1] = v__3517846_37;
+R[2] = v__3517847_37;
+R[3] = v__3517848_37;
+saveCont(co, clofun148, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517848_37);
 return;
 }
 case 6:
 {
-Obj v__3519349_37= co->res;
+Obj v__3519484_37= co->res;
 Obj v_to = R[1];
-Obj v__3517727_37 = R[2];
-Obj v__3517728_37 = v__3519349_37;
-R[1] = v__3517727_37;
-R[2] = v__3517728_37;
-saveCont(co, clofun145, 5, R);
+Obj v__3517846_37 = R[2];
+Obj v__3517847_37 = v__3519484_37;
+R[1] = v__3517846_37;
+R[2] = v__3517847_37;
+saveCont(co, clofun148, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_to);
 return;
 }
 case 7:
 {
-Obj v__3519348_37= co->res;
-Obj v__3519347_37 = R[1];
+Obj v__3519483_37= co->res;
+Obj v__3519482_37 = R[1];
 Obj v_to = R[2];
-Obj v__3517727_37 = R[3];
+Obj v__3517846_37 = R[3];
 R[1] = v_to;
-R[2] = v__3517727_37;
-saveCont(co, clofun145, 6, R);
-coraCall1(co, v__3519347_37, v__3519348_37);
+R[2] = v__3517846_37;
+saveCont(co, clofun148, 6, R);
+coraCall1(co, v__3519482_37, v__3519483_37);
 return;
 }
 case 8:
 {
-Obj v__3519347_37= co->res;
+Obj v__3519482_37= co->res;
 Obj v_exp = R[1];
 Obj v_to = R[2];
-Obj v__3517727_37 = R[3];
-R[1] = v__3519347_37;
+Obj v__3517846_37 = R[3];
+R[1] = v__3519482_37;
 R[2] = v_to;
-R[3] = v__3517727_37;
-saveCont(co, clofun145, 7, R);
+R[3] = v__3517846_37;
+saveCont(co, clofun148, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 3)), v_exp);
 return;
 }
 }
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_file_45path = R[1];
-saveCont(co, clofun144, 3, R);
+saveCont(co, clofun147, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_file_45path);
 return;
 }
 case 1:
 {
-Obj v__3519343_37= co->res;
-Obj v__3517726_37 = R[1];
-if (True == v__3519343_37) {
+Obj v__3519478_37= co->res;
+Obj v__3517845_37 = R[1];
+if (True == v__3519478_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517726_37, True);
+coraCall1(co, v__3517845_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517726_37, False);
+coraCall1(co, v__3517845_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3519342_37= co->res;
-Obj v__3517723_37 = R[1];
-Obj v__3517726_37 = R[2];
-if (True == v__3519342_37) {
-R[1] = v__3517726_37;
-saveCont(co, clofun144, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517723_37);
+Obj v__3519477_37= co->res;
+Obj v__3517842_37 = R[1];
+Obj v__3517845_37 = R[2];
+if (True == v__3519477_37) {
+R[1] = v__3517845_37;
+saveCont(co, clofun147, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517842_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517726_37, False);
+coraCall1(co, v__3517845_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3519341_37= co->res;
-Obj v__3517723_37 = v__3519341_37;
-Obj v__3517726_37 = makeNative(co->gc, 2, clofun143, 1, 1, v__3517723_37);
-R[1] = v__3517723_37;
-R[2] = v__3517726_37;
-saveCont(co, clofun144, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517723_37);
+Obj v__3519476_37= co->res;
+Obj v__3517842_37 = v__3519476_37;
+Obj v__3517845_37 = makeNative(co->gc, 2, clofun146, 1, 1, v__3517842_37);
+R[1] = v__3517842_37;
+R[2] = v__3517845_37;
+saveCont(co, clofun147, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517842_37);
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517725_37 = R[1];
-if (True == v__3517725_37) {
+Obj v__3517844_37 = R[1];
+if (True == v__3517844_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 7)), closureRef(R[0], 0));
 return;
@@ -676,50 +681,50 @@ return;
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517460_37 = R[1];
-Obj v__3517719_37 = makeNative(co->gc, 1, clofun139, 0, 1, v__3517460_37);
-Obj v__3519334_37 = PRIM_ISCONS(v__3517460_37);
-if (True == v__3519334_37) {
-Obj v__3519335_37 = PRIM_CAR(v__3517460_37);
-Obj v__3519336_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519335_37);
-if (True == v__3519336_37) {
-Obj v__3519337_37 = PRIM_CDR(v__3517460_37);
-Obj v__3517722_37 = v__3519337_37;
-Obj v__3519338_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517722_37);
+Obj v__3517572_37 = R[1];
+Obj v__3517838_37 = makeNative(co->gc, 1, clofun142, 0, 1, v__3517572_37);
+Obj v__3519469_37 = PRIM_ISCONS(v__3517572_37);
+if (True == v__3519469_37) {
+Obj v__3519470_37 = PRIM_CAR(v__3517572_37);
+Obj v__3519471_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519470_37);
+if (True == v__3519471_37) {
+Obj v__3519472_37 = PRIM_CDR(v__3517572_37);
+Obj v__3517841_37 = v__3519472_37;
+Obj v__3519473_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517841_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519338_37, makeNative(co->gc, 2, clofun141, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519473_37, makeNative(co->gc, 2, clofun144, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517719_37);
+coraCall0(co, v__3517838_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517719_37);
+coraCall0(co, v__3517838_37);
 return;
 }
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun143, 2, 0));
 return;
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -732,49 +737,49 @@ return;
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517720_37 = makeNative(co->gc, 1, clofun136, 0, 1, closureRef(R[0], 0));
-Obj v__3519329_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519329_37) {
-Obj v__3519330_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519331_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519330_37);
-if (True == v__3519331_37) {
-Obj v__3519332_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517721_37 = v__3519332_37;
-Obj v__3519333_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517721_37);
+Obj v__3517839_37 = makeNative(co->gc, 1, clofun139, 0, 1, closureRef(R[0], 0));
+Obj v__3519464_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519464_37) {
+Obj v__3519465_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519466_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519465_37);
+if (True == v__3519466_37) {
+Obj v__3519467_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517840_37 = v__3519467_37;
+Obj v__3519468_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517840_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519333_37, makeNative(co->gc, 2, clofun138, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519468_37, makeNative(co->gc, 2, clofun141, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517720_37);
+coraCall0(co, v__3517839_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517720_37);
+coraCall0(co, v__3517839_37);
 return;
 }
 }
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
 return;
 }
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -787,39 +792,39 @@ return;
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519326_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3519461_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519326_37, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519461_37, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
 return;
 }
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_type = R[1];
 Obj v_code = R[2];
-saveCont(co, clofun135, 1, R);
+saveCont(co, clofun138, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj v__3519327_37= co->res;
-Obj v__3519328_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519327_37);
-coraReturn(co, v__3519328_37);
+Obj v__3519462_37= co->res;
+Obj v__3519463_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519462_37);
+coraReturn(co, v__3519463_37);
 return;
 }
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -827,7 +832,7 @@ Obj v_type = R[1];
 Obj v_code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 8))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v_type, v_code);
 return;
 } else {
 coraReturn(co, v_code);
@@ -837,219 +842,219 @@ return;
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517453_37 = R[1];
-Obj v__3517454_37 = R[2];
-Obj v__3517708_37 = makeNative(co->gc, 2, clofun132, 0, 2, v__3517453_37, v__3517454_37);
-Obj v__3519312_37 = PRIM_ISCONS(v__3517453_37);
-if (True == v__3519312_37) {
-Obj v__3519313_37 = PRIM_CAR(v__3517453_37);
-Obj v__3519314_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519313_37);
-if (True == v__3519314_37) {
-Obj v__3519315_37 = PRIM_CDR(v__3517453_37);
-Obj v__3519316_37 = PRIM_ISCONS(v__3519315_37);
-if (True == v__3519316_37) {
-Obj v__3519317_37 = PRIM_CDR(v__3517453_37);
-Obj v__3519318_37 = PRIM_CAR(v__3519317_37);
-Obj v__3517717_37 = v__3519318_37;
-Obj v__3519319_37 = PRIM_CDR(v__3517453_37);
-Obj v__3519320_37 = PRIM_CDR(v__3519319_37);
-Obj v__3517718_37 = v__3519320_37;
-R[1] = v__3517717_37;
-saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517718_37, v__3517454_37);
+Obj v__3517565_37 = R[1];
+Obj v__3517566_37 = R[2];
+Obj v__3517827_37 = makeNative(co->gc, 2, clofun135, 0, 2, v__3517565_37, v__3517566_37);
+Obj v__3519447_37 = PRIM_ISCONS(v__3517565_37);
+if (True == v__3519447_37) {
+Obj v__3519448_37 = PRIM_CAR(v__3517565_37);
+Obj v__3519449_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519448_37);
+if (True == v__3519449_37) {
+Obj v__3519450_37 = PRIM_CDR(v__3517565_37);
+Obj v__3519451_37 = PRIM_ISCONS(v__3519450_37);
+if (True == v__3519451_37) {
+Obj v__3519452_37 = PRIM_CDR(v__3517565_37);
+Obj v__3519453_37 = PRIM_CAR(v__3519452_37);
+Obj v__3517836_37 = v__3519453_37;
+Obj v__3519454_37 = PRIM_CDR(v__3517565_37);
+Obj v__3519455_37 = PRIM_CDR(v__3519454_37);
+Obj v__3517837_37 = v__3519455_37;
+R[1] = v__3517836_37;
+saveCont(co, clofun136, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517837_37, v__3517566_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517708_37);
+coraCall0(co, v__3517827_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517708_37);
+coraCall0(co, v__3517827_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517708_37);
+coraCall0(co, v__3517827_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519321_37= co->res;
-Obj v__3517717_37 = R[1];
-Obj v__3519322_37 = makeCons(co->gc, v__3517717_37, v__3519321_37);
-Obj v__3519323_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519322_37);
-coraReturn(co, v__3519323_37);
+Obj v__3519456_37= co->res;
+Obj v__3517836_37 = R[1];
+Obj v__3519457_37 = makeCons(co->gc, v__3517836_37, v__3519456_37);
+Obj v__3519458_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519457_37);
+coraReturn(co, v__3519458_37);
 return;
 }
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517709_37 = makeNative(co->gc, 2, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519291_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519291_37) {
-Obj v__3519292_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519293_37 = PRIM_ISCONS(v__3519292_37);
-if (True == v__3519293_37) {
-Obj v__3519294_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519295_37 = PRIM_CAR(v__3519294_37);
-Obj v__3519296_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3519295_37);
-if (True == v__3519296_37) {
-Obj v__3519297_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519298_37 = PRIM_CDR(v__3519297_37);
-Obj v__3519299_37 = PRIM_ISCONS(v__3519298_37);
-if (True == v__3519299_37) {
-Obj v__3519300_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519301_37 = PRIM_CDR(v__3519300_37);
-Obj v__3519302_37 = PRIM_CAR(v__3519301_37);
-Obj v__3517715_37 = v__3519302_37;
-Obj v__3519303_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519304_37 = PRIM_CDR(v__3519303_37);
-Obj v__3519305_37 = PRIM_CDR(v__3519304_37);
-Obj v__3519306_37 = PRIM_EQ(Nil, v__3519305_37);
-if (True == v__3519306_37) {
-Obj v__3519307_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517716_37 = v__3519307_37;
-Obj v__3519308_37 = makeCons(co->gc, v__3517715_37, Nil);
-Obj v__3519309_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, v__3519308_37);
-R[1] = v__3519309_37;
-saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517716_37, closureRef(R[0], 1));
+Obj v__3517828_37 = makeNative(co->gc, 2, clofun134, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519426_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519426_37) {
+Obj v__3519427_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519428_37 = PRIM_ISCONS(v__3519427_37);
+if (True == v__3519428_37) {
+Obj v__3519429_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519430_37 = PRIM_CAR(v__3519429_37);
+Obj v__3519431_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3519430_37);
+if (True == v__3519431_37) {
+Obj v__3519432_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519433_37 = PRIM_CDR(v__3519432_37);
+Obj v__3519434_37 = PRIM_ISCONS(v__3519433_37);
+if (True == v__3519434_37) {
+Obj v__3519435_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519436_37 = PRIM_CDR(v__3519435_37);
+Obj v__3519437_37 = PRIM_CAR(v__3519436_37);
+Obj v__3517834_37 = v__3519437_37;
+Obj v__3519438_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519439_37 = PRIM_CDR(v__3519438_37);
+Obj v__3519440_37 = PRIM_CDR(v__3519439_37);
+Obj v__3519441_37 = PRIM_EQ(Nil, v__3519440_37);
+if (True == v__3519441_37) {
+Obj v__3519442_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517835_37 = v__3519442_37;
+Obj v__3519443_37 = makeCons(co->gc, v__3517834_37, Nil);
+Obj v__3519444_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, v__3519443_37);
+R[1] = v__3519444_37;
+saveCont(co, clofun135, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517835_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517709_37);
+coraCall0(co, v__3517828_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517709_37);
+coraCall0(co, v__3517828_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517709_37);
+coraCall0(co, v__3517828_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517709_37);
+coraCall0(co, v__3517828_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517709_37);
+coraCall0(co, v__3517828_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519310_37= co->res;
-Obj v__3519309_37 = R[1];
-Obj v__3519311_37 = makeCons(co->gc, v__3519309_37, v__3519310_37);
-coraReturn(co, v__3519311_37);
+Obj v__3519445_37= co->res;
+Obj v__3519444_37 = R[1];
+Obj v__3519446_37 = makeCons(co->gc, v__3519444_37, v__3519445_37);
+coraReturn(co, v__3519446_37);
 return;
 }
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517710_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519279_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519279_37) {
-Obj v__3519280_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519281_37 = PRIM_ISCONS(v__3519280_37);
-if (True == v__3519281_37) {
-Obj v__3519282_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519283_37 = PRIM_CAR(v__3519282_37);
-Obj v__3519284_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519283_37);
-if (True == v__3519284_37) {
-Obj v__3519285_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519286_37 = PRIM_CDR(v__3519285_37);
-Obj v__3517713_37 = v__3519286_37;
-Obj v__3519287_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517714_37 = v__3519287_37;
-Obj v__3519288_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3517713_37);
-R[1] = v__3519288_37;
-saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517714_37, closureRef(R[0], 1));
+Obj v__3517829_37 = makeNative(co->gc, 1, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519414_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519414_37) {
+Obj v__3519415_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519416_37 = PRIM_ISCONS(v__3519415_37);
+if (True == v__3519416_37) {
+Obj v__3519417_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519418_37 = PRIM_CAR(v__3519417_37);
+Obj v__3519419_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519418_37);
+if (True == v__3519419_37) {
+Obj v__3519420_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519421_37 = PRIM_CDR(v__3519420_37);
+Obj v__3517832_37 = v__3519421_37;
+Obj v__3519422_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517833_37 = v__3519422_37;
+Obj v__3519423_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3517832_37);
+R[1] = v__3519423_37;
+saveCont(co, clofun134, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517833_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517710_37);
+coraCall0(co, v__3517829_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517710_37);
+coraCall0(co, v__3517829_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517710_37);
+coraCall0(co, v__3517829_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519289_37= co->res;
-Obj v__3519288_37 = R[1];
-Obj v__3519290_37 = makeCons(co->gc, v__3519288_37, v__3519289_37);
-coraReturn(co, v__3519290_37);
+Obj v__3519424_37= co->res;
+Obj v__3519423_37 = R[1];
+Obj v__3519425_37 = makeCons(co->gc, v__3519423_37, v__3519424_37);
+coraReturn(co, v__3519425_37);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517711_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3519273_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519273_37) {
-Obj v__3519274_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519275_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519274_37);
-if (True == v__3519275_37) {
-Obj v__3519276_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517712_37 = v__3519276_37;
-saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517712_37, closureRef(R[0], 1));
+Obj v__3517830_37 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3519408_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519408_37) {
+Obj v__3519409_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519410_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519409_37);
+if (True == v__3519410_37) {
+Obj v__3519411_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517831_37 = v__3519411_37;
+saveCont(co, clofun133, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517831_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517711_37);
+coraCall0(co, v__3517830_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517711_37);
+coraCall0(co, v__3517830_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519277_37= co->res;
-Obj v__3519278_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519277_37);
-coraReturn(co, v__3519278_37);
+Obj v__3519412_37= co->res;
+Obj v__3519413_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519412_37);
+coraReturn(co, v__3519413_37);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1060,334 +1065,334 @@ return;
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517445_37 = R[1];
-Obj v__3517446_37 = R[2];
-Obj v__3517447_37 = R[3];
-Obj v__3517448_37 = R[4];
-Obj v__3519234_37 = PRIM_EQ(Nil, v__3517445_37);
-if (True == v__3519234_37) {
-R[1] = v__3517447_37;
-R[2] = v__3517448_37;
-saveCont(co, clofun128, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517446_37);
-return;
-} else {
-Obj v__3517700_37 = makeNative(co->gc, 1, clofun127, 0, 4, v__3517445_37, v__3517446_37, v__3517447_37, v__3517448_37);
-Obj v__3519261_37 = PRIM_ISCONS(v__3517445_37);
-if (True == v__3519261_37) {
-Obj v__3519262_37 = PRIM_CAR(v__3517445_37);
-Obj v__3519263_37 = PRIM_ISCONS(v__3519262_37);
-if (True == v__3519263_37) {
-Obj v__3519264_37 = PRIM_CAR(v__3517445_37);
-Obj v__3519265_37 = PRIM_CAR(v__3519264_37);
-Obj v__3519266_37 = PRIM_EQ(getBinding(co, packageID, 11).name, v__3519265_37);
-if (True == v__3519266_37) {
-Obj v__3519267_37 = PRIM_CAR(v__3517445_37);
-Obj v__3519268_37 = PRIM_CDR(v__3519267_37);
-Obj v__3517706_37 = v__3519268_37;
-Obj v__3519269_37 = PRIM_CDR(v__3517445_37);
-Obj v__3517707_37 = v__3519269_37;
-Obj v__3519270_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517706_37);
-Obj v__3519271_37 = makeCons(co->gc, v__3519270_37, v__3517446_37);
+Obj v__3517557_37 = R[1];
+Obj v__3517558_37 = R[2];
+Obj v__3517559_37 = R[3];
+Obj v__3517560_37 = R[4];
+Obj v__3519369_37 = PRIM_EQ(Nil, v__3517557_37);
+if (True == v__3519369_37) {
+R[1] = v__3517559_37;
+R[2] = v__3517560_37;
+saveCont(co, clofun131, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517558_37);
+return;
+} else {
+Obj v__3517819_37 = makeNative(co->gc, 1, clofun130, 0, 4, v__3517557_37, v__3517558_37, v__3517559_37, v__3517560_37);
+Obj v__3519396_37 = PRIM_ISCONS(v__3517557_37);
+if (True == v__3519396_37) {
+Obj v__3519397_37 = PRIM_CAR(v__3517557_37);
+Obj v__3519398_37 = PRIM_ISCONS(v__3519397_37);
+if (True == v__3519398_37) {
+Obj v__3519399_37 = PRIM_CAR(v__3517557_37);
+Obj v__3519400_37 = PRIM_CAR(v__3519399_37);
+Obj v__3519401_37 = PRIM_EQ(getBinding(co, packageID, 11).name, v__3519400_37);
+if (True == v__3519401_37) {
+Obj v__3519402_37 = PRIM_CAR(v__3517557_37);
+Obj v__3519403_37 = PRIM_CDR(v__3519402_37);
+Obj v__3517825_37 = v__3519403_37;
+Obj v__3519404_37 = PRIM_CDR(v__3517557_37);
+Obj v__3517826_37 = v__3519404_37;
+Obj v__3519405_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517825_37);
+Obj v__3519406_37 = makeCons(co->gc, v__3519405_37, v__3517558_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517707_37, v__3519271_37, v__3517447_37, v__3517448_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517826_37, v__3519406_37, v__3517559_37, v__3517560_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517700_37);
+coraCall0(co, v__3517819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517700_37);
+coraCall0(co, v__3517819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517700_37);
+coraCall0(co, v__3517819_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519236_37= co->res;
-Obj v__3517448_37 = R[1];
-Obj v__3519235_37 = R[2];
+Obj v__3519371_37= co->res;
+Obj v__3517560_37 = R[1];
+Obj v__3519370_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3517448_37, v__3519235_37, v__3519236_37);
+coraCall2(co, v__3517560_37, v__3519370_37, v__3519371_37);
 return;
 }
 case 2:
 {
-Obj v__3519235_37= co->res;
-Obj v__3517447_37 = R[1];
-Obj v__3517448_37 = R[2];
-R[1] = v__3517448_37;
-R[2] = v__3519235_37;
-saveCont(co, clofun128, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517447_37);
+Obj v__3519370_37= co->res;
+Obj v__3517559_37 = R[1];
+Obj v__3517560_37 = R[2];
+R[1] = v__3517560_37;
+R[2] = v__3519370_37;
+saveCont(co, clofun131, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517559_37);
 return;
 }
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517701_37 = makeNative(co->gc, 1, clofun126, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3519250_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519250_37) {
-Obj v__3519251_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519252_37 = PRIM_ISCONS(v__3519251_37);
-if (True == v__3519252_37) {
-Obj v__3519253_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519254_37 = PRIM_CAR(v__3519253_37);
-Obj v__3519255_37 = PRIM_EQ(getBinding(co, packageID, 13).name, v__3519254_37);
-if (True == v__3519255_37) {
-Obj v__3519256_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519257_37 = PRIM_CDR(v__3519256_37);
-Obj v__3517704_37 = v__3519257_37;
-Obj v__3519258_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517705_37 = v__3519258_37;
-Obj v__3519259_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, v__3517704_37);
-Obj v__3519260_37 = makeCons(co->gc, v__3519259_37, closureRef(R[0], 1));
+Obj v__3517820_37 = makeNative(co->gc, 1, clofun129, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3519385_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519385_37) {
+Obj v__3519386_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519387_37 = PRIM_ISCONS(v__3519386_37);
+if (True == v__3519387_37) {
+Obj v__3519388_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519389_37 = PRIM_CAR(v__3519388_37);
+Obj v__3519390_37 = PRIM_EQ(getBinding(co, packageID, 13).name, v__3519389_37);
+if (True == v__3519390_37) {
+Obj v__3519391_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519392_37 = PRIM_CDR(v__3519391_37);
+Obj v__3517823_37 = v__3519392_37;
+Obj v__3519393_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517824_37 = v__3519393_37;
+Obj v__3519394_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, v__3517823_37);
+Obj v__3519395_37 = makeCons(co->gc, v__3519394_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517705_37, v__3519260_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517824_37, v__3519395_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517701_37);
+coraCall0(co, v__3517820_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517701_37);
+coraCall0(co, v__3517820_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517701_37);
+coraCall0(co, v__3517820_37);
 return;
 }
 }
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519237_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519237_37) {
-Obj v__3519238_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517702_37 = v__3519238_37;
-Obj v__3519239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517703_37 = v__3519239_37;
-Obj v__3519240_37 = makeCons(co->gc, v__3517702_37, Nil);
-Obj v__3519241_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519240_37);
-Obj v__3519242_37 = makeCons(co->gc, v__3519241_37, Nil);
-Obj v__3519243_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519242_37);
-Obj v__3519244_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
-Obj v__3519245_37 = makeCons(co->gc, v__3519244_37, Nil);
-Obj v__3519246_37 = makeCons(co->gc, v__3519243_37, v__3519245_37);
-Obj v__3519247_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, v__3519246_37);
-Obj v__3519248_37 = makeCons(co->gc, v__3519247_37, closureRef(R[0], 1));
-Obj v__3519249_37 = makeCons(co->gc, v__3517702_37, closureRef(R[0], 2));
+Obj v__3519372_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519372_37) {
+Obj v__3519373_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517821_37 = v__3519373_37;
+Obj v__3519374_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517822_37 = v__3519374_37;
+Obj v__3519375_37 = makeCons(co->gc, v__3517821_37, Nil);
+Obj v__3519376_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519375_37);
+Obj v__3519377_37 = makeCons(co->gc, v__3519376_37, Nil);
+Obj v__3519378_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519377_37);
+Obj v__3519379_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
+Obj v__3519380_37 = makeCons(co->gc, v__3519379_37, Nil);
+Obj v__3519381_37 = makeCons(co->gc, v__3519378_37, v__3519380_37);
+Obj v__3519382_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, v__3519381_37);
+Obj v__3519383_37 = makeCons(co->gc, v__3519382_37, closureRef(R[0], 1));
+Obj v__3519384_37 = makeCons(co->gc, v__3517821_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517703_37, v__3519248_37, v__3519249_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517822_37, v__3519383_37, v__3519384_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517439_37 = R[1];
-Obj v__3517691_37 = makeNative(co->gc, 1, clofun124, 0, 1, v__3517439_37);
-Obj v__3519224_37 = PRIM_ISCONS(v__3517439_37);
-if (True == v__3519224_37) {
-Obj v__3519225_37 = PRIM_CAR(v__3517439_37);
-Obj v__3519226_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519225_37);
-if (True == v__3519226_37) {
-Obj v__3519227_37 = PRIM_CDR(v__3517439_37);
-Obj v__3519228_37 = PRIM_ISCONS(v__3519227_37);
-if (True == v__3519228_37) {
-Obj v__3519229_37 = PRIM_CDR(v__3517439_37);
-Obj v__3519230_37 = PRIM_CAR(v__3519229_37);
-Obj v__3519231_37 = PRIM_CDR(v__3517439_37);
-Obj v__3519232_37 = PRIM_CDR(v__3519231_37);
-Obj v__3517699_37 = v__3519232_37;
+Obj v__3517551_37 = R[1];
+Obj v__3517810_37 = makeNative(co->gc, 1, clofun127, 0, 1, v__3517551_37);
+Obj v__3519359_37 = PRIM_ISCONS(v__3517551_37);
+if (True == v__3519359_37) {
+Obj v__3519360_37 = PRIM_CAR(v__3517551_37);
+Obj v__3519361_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519360_37);
+if (True == v__3519361_37) {
+Obj v__3519362_37 = PRIM_CDR(v__3517551_37);
+Obj v__3519363_37 = PRIM_ISCONS(v__3519362_37);
+if (True == v__3519363_37) {
+Obj v__3519364_37 = PRIM_CDR(v__3517551_37);
+Obj v__3519365_37 = PRIM_CAR(v__3519364_37);
+Obj v__3519366_37 = PRIM_CDR(v__3517551_37);
+Obj v__3519367_37 = PRIM_CDR(v__3519366_37);
+Obj v__3517818_37 = v__3519367_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517699_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517818_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517810_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517810_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517810_37);
 return;
 }
 }
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517692_37 = makeNative(co->gc, 1, clofun123, 0, 1, closureRef(R[0], 0));
-Obj v__3519220_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519220_37) {
-Obj v__3519221_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519222_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519221_37);
-if (True == v__3519222_37) {
-Obj v__3519223_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517698_37 = v__3519223_37;
+Obj v__3517811_37 = makeNative(co->gc, 1, clofun126, 0, 1, closureRef(R[0], 0));
+Obj v__3519355_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519355_37) {
+Obj v__3519356_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519357_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519356_37);
+if (True == v__3519357_37) {
+Obj v__3519358_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517817_37 = v__3519358_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517698_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517817_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517811_37);
 return;
 }
 }
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517693_37 = makeNative(co->gc, 3, clofun122, 0, 1, closureRef(R[0], 0));
-Obj v__3519211_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519211_37) {
-Obj v__3519212_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519213_37 = PRIM_ISCONS(v__3519212_37);
-if (True == v__3519213_37) {
-Obj v__3519214_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519215_37 = PRIM_CAR(v__3519214_37);
-Obj v__3519216_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519215_37);
-if (True == v__3519216_37) {
-Obj v__3519217_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519218_37 = PRIM_CDR(v__3519217_37);
-Obj v__3519219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517697_37 = v__3519219_37;
+Obj v__3517812_37 = makeNative(co->gc, 3, clofun125, 0, 1, closureRef(R[0], 0));
+Obj v__3519346_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519346_37) {
+Obj v__3519347_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519348_37 = PRIM_ISCONS(v__3519347_37);
+if (True == v__3519348_37) {
+Obj v__3519349_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519350_37 = PRIM_CAR(v__3519349_37);
+Obj v__3519351_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519350_37);
+if (True == v__3519351_37) {
+Obj v__3519352_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519353_37 = PRIM_CDR(v__3519352_37);
+Obj v__3519354_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517816_37 = v__3519354_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517697_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517816_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517812_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517812_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517812_37);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517694_37 = makeNative(co->gc, 1, clofun121, 0, 0);
-Obj v__3519192_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519192_37) {
-Obj v__3519193_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519194_37 = PRIM_ISCONS(v__3519193_37);
-if (True == v__3519194_37) {
-Obj v__3519195_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519196_37 = PRIM_CAR(v__3519195_37);
-Obj v__3519197_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3519196_37);
-if (True == v__3519197_37) {
-Obj v__3519198_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519199_37 = PRIM_CDR(v__3519198_37);
-Obj v__3519200_37 = PRIM_ISCONS(v__3519199_37);
-if (True == v__3519200_37) {
-Obj v__3519201_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519202_37 = PRIM_CDR(v__3519201_37);
-Obj v__3519203_37 = PRIM_CAR(v__3519202_37);
-Obj v__3517695_37 = v__3519203_37;
-Obj v__3519204_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519205_37 = PRIM_CDR(v__3519204_37);
-Obj v__3519206_37 = PRIM_CDR(v__3519205_37);
-Obj v__3519207_37 = PRIM_EQ(Nil, v__3519206_37);
-if (True == v__3519207_37) {
-Obj v__3519208_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517696_37 = v__3519208_37;
-R[1] = v__3517695_37;
-R[2] = v__3517696_37;
-saveCont(co, clofun122, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v__3517695_37);
+Obj v__3517813_37 = makeNative(co->gc, 1, clofun124, 0, 0);
+Obj v__3519327_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519327_37) {
+Obj v__3519328_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519329_37 = PRIM_ISCONS(v__3519328_37);
+if (True == v__3519329_37) {
+Obj v__3519330_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519331_37 = PRIM_CAR(v__3519330_37);
+Obj v__3519332_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3519331_37);
+if (True == v__3519332_37) {
+Obj v__3519333_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519334_37 = PRIM_CDR(v__3519333_37);
+Obj v__3519335_37 = PRIM_ISCONS(v__3519334_37);
+if (True == v__3519335_37) {
+Obj v__3519336_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519337_37 = PRIM_CDR(v__3519336_37);
+Obj v__3519338_37 = PRIM_CAR(v__3519337_37);
+Obj v__3517814_37 = v__3519338_37;
+Obj v__3519339_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519340_37 = PRIM_CDR(v__3519339_37);
+Obj v__3519341_37 = PRIM_CDR(v__3519340_37);
+Obj v__3519342_37 = PRIM_EQ(Nil, v__3519341_37);
+if (True == v__3519342_37) {
+Obj v__3519343_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517815_37 = v__3519343_37;
+R[1] = v__3517814_37;
+R[2] = v__3517815_37;
+saveCont(co, clofun125, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), v__3517814_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517813_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519210_37= co->res;
-Obj v__3517696_37 = R[1];
-if (True == v__3519210_37) {
+Obj v__3519345_37= co->res;
+Obj v__3517815_37 = R[1];
+if (True == v__3519345_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517696_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517815_37);
 return;
 } else {
 coraReturn(co, False);
@@ -1396,18 +1401,18 @@ return;
 }
 case 2:
 {
-Obj v__3519209_37= co->res;
-Obj v__3517695_37 = R[1];
-Obj v__3517696_37 = R[2];
-R[1] = v__3517696_37;
-saveCont(co, clofun122, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517695_37, globalRef(co, getBinding(co, packageID, 22)));
+Obj v__3519344_37= co->res;
+Obj v__3517814_37 = R[1];
+Obj v__3517815_37 = R[2];
+R[1] = v__3517815_37;
+saveCont(co, clofun125, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517814_37, globalRef(co, getBinding(co, packageID, 22)));
 return;
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1417,7 +1422,7 @@ return;
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1427,133 +1432,133 @@ Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun120, 9, R);
+saveCont(co, clofun123, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v__3519190_37= co->res;
+Obj v__3519325_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun119, 1, 2, v_to, v_globals), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun122, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj v__3519189_37= co->res;
-Obj v__3519186_37 = R[1];
+Obj v__3519324_37= co->res;
+Obj v__3519321_37 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun120, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), v_to, v_globals, v__3519186_37, v__3519189_37);
+saveCont(co, clofun123, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), v_to, v_globals, v__3519321_37, v__3519324_37);
 return;
 }
 case 3:
 {
-Obj v__3519188_37= co->res;
-Obj v__3519186_37 = R[1];
+Obj v__3519323_37= co->res;
+Obj v__3519321_37 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
-R[1] = v__3519186_37;
+R[1] = v__3519321_37;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun120, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519188_37);
+saveCont(co, clofun123, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519323_37);
 return;
 }
 case 4:
 {
-Obj v__3519186_37= co->res;
+Obj v__3519321_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-Obj v__3519187_37 = PRIM_CAR(v_bc);
-R[1] = v__3519186_37;
+Obj v__3519322_37 = PRIM_CAR(v_bc);
+R[1] = v__3519321_37;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun120, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3519187_37);
+saveCont(co, clofun123, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519322_37);
 return;
 }
 case 5:
 {
-Obj v__3519185_37= co->res;
+Obj v__3519320_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun120, 4, R);
+saveCont(co, clofun123, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_bc);
 return;
 }
 case 6:
 {
-Obj v__3519184_37= co->res;
+Obj v__3519319_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun120, 5, R);
+saveCont(co, clofun123, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj v__3519181_37= co->res;
+Obj v__3519316_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun120, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun118, 1, 1, v_to), v_bc);
+saveCont(co, clofun123, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun121, 1, 1, v_to), v_bc);
 return;
 }
 case 8:
 {
-Obj v__3519180_37= co->res;
+Obj v__3519315_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun120, 7, R);
+saveCont(co, clofun123, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
 {
-Obj v__3519179_37= co->res;
+Obj v__3519314_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun120, 8, R);
+saveCont(co, clofun123, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1565,19 +1570,19 @@ return;
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v__3519182_37 = PRIM_CAR(v_group);
-saveCont(co, clofun118, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), v__3519182_37);
+Obj v__3519317_37 = PRIM_CAR(v_group);
+saveCont(co, clofun121, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), v__3519317_37);
 return;
 }
 case 1:
 {
-Obj v__3519183_37= co->res;
+Obj v__3519318_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1585,7 +1590,7 @@ return;
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1597,13 +1602,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun117, 12, R);
+saveCont(co, clofun120, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v__3519177_37= co->res;
+Obj v__3519312_37= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ", 0, 0));\n}\n\n"));
@@ -1611,66 +1616,66 @@ return;
 }
 case 2:
 {
-Obj v__3519176_37= co->res;
+Obj v__3519311_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
-saveCont(co, clofun117, 1, R);
+saveCont(co, clofun120, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v_to, v_label);
 return;
 }
 case 3:
 {
-Obj v__3519175_37= co->res;
+Obj v__3519310_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun117, 2, R);
+saveCont(co, clofun120, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3519174_37= co->res;
+Obj v__3519309_37= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun117, 3, R);
+saveCont(co, clofun120, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, v_nframe);
 return;
 }
 case 5:
 {
-Obj v__3519173_37= co->res;
+Obj v__3519308_37= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun117, 4, R);
+saveCont(co, clofun120, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
 return;
 }
 case 6:
 {
-Obj v__3519172_37= co->res;
+Obj v__3519307_37= co->res;
 Obj v_nframe = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun117, 5, R);
+saveCont(co, clofun120, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 7:
 {
-Obj v__3519163_37= co->res;
+Obj v__3519298_37= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1678,13 +1683,13 @@ Obj v_to = R[4];
 R[1] = v_nframe;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun117, 6, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun116, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
+saveCont(co, clofun120, 6, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun119, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 8:
 {
-Obj v__3519162_37= co->res;
+Obj v__3519297_37= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1693,13 +1698,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun117, 7, R);
+saveCont(co, clofun120, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 9:
 {
-Obj v__3519161_37= co->res;
+Obj v__3519296_37= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1708,13 +1713,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun117, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, v__3519161_37);
+saveCont(co, clofun120, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, v__3519296_37);
 return;
 }
 case 10:
 {
-Obj v__3519160_37= co->res;
+Obj v__3519295_37= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1723,13 +1728,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun117, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_globals);
+saveCont(co, clofun120, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v_globals);
 return;
 }
 case 11:
 {
-Obj v__3519159_37= co->res;
+Obj v__3519294_37= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1738,13 +1743,13 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun117, 10, R);
+saveCont(co, clofun120, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 12:
 {
-Obj v__3519158_37= co->res;
+Obj v__3519293_37= co->res;
 Obj v_globals = R[1];
 Obj v_nframe = R[2];
 Obj v_label = R[3];
@@ -1753,14 +1758,14 @@ R[1] = v_globals;
 R[2] = v_nframe;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun117, 11, R);
+saveCont(co, clofun120, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1768,99 +1773,99 @@ Obj v_acc = R[1];
 Obj v_sym = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun116, 7, R);
+saveCont(co, clofun119, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v__3519170_37= co->res;
+Obj v__3519305_37= co->res;
 Obj v_acc = R[1];
-Obj v__3519171_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519171_37);
+Obj v__3519306_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519306_37);
 return;
 }
 case 2:
 {
-Obj v__3519169_37= co->res;
+Obj v__3519304_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun116, 1, R);
+saveCont(co, clofun119, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v__3519168_37= co->res;
+Obj v__3519303_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun116, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), v__3519168_37);
+saveCont(co, clofun119, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), v__3519303_37);
 return;
 }
 case 4:
 {
-Obj v__3519167_37= co->res;
+Obj v__3519302_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun116, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3519167_37);
+saveCont(co, clofun119, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3519302_37);
 return;
 }
 case 5:
 {
-Obj v__3519166_37= co->res;
+Obj v__3519301_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun116, 4, R);
+saveCont(co, clofun119, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 26)), v_sym);
 return;
 }
 case 6:
 {
-Obj v__3519165_37= co->res;
+Obj v__3519300_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun116, 5, R);
+saveCont(co, clofun119, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v__3519164_37= co->res;
+Obj v__3519299_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun116, 6, R);
+saveCont(co, clofun119, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v__3519136_37 = PRIM_CAR(v_group);
-Obj v__3517687_37 = v__3519136_37;
+Obj v__3519271_37 = PRIM_CAR(v_group);
+Obj v__3517806_37 = v__3519271_37;
 R[1] = v_globals;
-R[2] = v__3517687_37;
+R[2] = v__3517806_37;
 R[3] = v_to;
-saveCont(co, clofun115, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_group);
+saveCont(co, clofun118, 13, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_group);
 return;
 }
 case 1:
 {
-Obj v__3519156_37= co->res;
+Obj v__3519291_37= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n\n"));
@@ -1868,205 +1873,205 @@ return;
 }
 case 2:
 {
-Obj v__3519155_37= co->res;
+Obj v__3519290_37= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun115, 1, R);
+saveCont(co, clofun118, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3519154_37= co->res;
+Obj v__3519289_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517687_37 = R[2];
-Obj v__3517688_37 = R[3];
+Obj v__3517806_37 = R[2];
+Obj v__3517807_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
-saveCont(co, clofun115, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun114, 2, 4, v_globals, v__3517687_37, v__3517688_37, v_to), MAKE_NUMBER(1), v__3519154_37);
+saveCont(co, clofun118, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun117, 2, 4, v_globals, v__3517806_37, v__3517807_37, v_to), MAKE_NUMBER(1), v__3519289_37);
 return;
 }
 case 4:
 {
-Obj v__3519146_37= co->res;
+Obj v__3519281_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517687_37 = R[2];
-Obj v__3517688_37 = R[3];
+Obj v__3517806_37 = R[2];
+Obj v__3517807_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = v__3517687_37;
-R[3] = v__3517688_37;
+R[2] = v__3517806_37;
+R[3] = v__3517807_37;
 R[4] = v_to;
-saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3517688_37);
+saveCont(co, clofun118, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3517807_37);
 return;
 }
 case 5:
 {
-Obj v__3519145_37= co->res;
+Obj v__3519280_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517687_37 = R[2];
-Obj v__3517688_37 = R[3];
+Obj v__3517806_37 = R[2];
+Obj v__3517807_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = v__3517687_37;
-R[3] = v__3517688_37;
+R[2] = v__3517806_37;
+R[3] = v__3517807_37;
 R[4] = v_to;
-saveCont(co, clofun115, 4, R);
+saveCont(co, clofun118, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v__3519144_37= co->res;
-Obj v__3517689_37 = R[1];
-Obj v__3517690_37 = R[2];
+Obj v__3519279_37= co->res;
+Obj v__3517808_37 = R[1];
+Obj v__3517809_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517687_37 = R[4];
-Obj v__3517688_37 = R[5];
+Obj v__3517806_37 = R[4];
+Obj v__3517807_37 = R[5];
 Obj v_to = R[6];
 R[1] = v_globals;
-R[2] = v__3517687_37;
-R[3] = v__3517688_37;
+R[2] = v__3517806_37;
+R[3] = v__3517807_37;
 R[4] = v_to;
-saveCont(co, clofun115, 5, R);
-Obj __args[5] = {v_globals, v__3517687_37, v__3517689_37, v_to, v__3517690_37};
+saveCont(co, clofun118, 5, R);
+Obj __args[5] = {v_globals, v__3517806_37, v__3517808_37, v_to, v__3517809_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3519143_37= co->res;
-Obj v__3517689_37 = R[1];
-Obj v__3517690_37 = R[2];
+Obj v__3519278_37= co->res;
+Obj v__3517808_37 = R[1];
+Obj v__3517809_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517687_37 = R[4];
-Obj v__3517688_37 = R[5];
+Obj v__3517806_37 = R[4];
+Obj v__3517807_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517689_37;
-R[2] = v__3517690_37;
+R[1] = v__3517808_37;
+R[2] = v__3517809_37;
 R[3] = v_globals;
-R[4] = v__3517687_37;
-R[5] = v__3517688_37;
+R[4] = v__3517806_37;
+R[5] = v__3517807_37;
 R[6] = v_to;
-saveCont(co, clofun115, 6, R);
-Obj __args[5] = {v_globals, v__3517687_37, Nil, v_to, v__3517689_37};
+saveCont(co, clofun118, 6, R);
+Obj __args[5] = {v_globals, v__3517806_37, Nil, v_to, v__3517808_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v__3519142_37= co->res;
-Obj v__3517689_37 = R[1];
-Obj v__3517690_37 = R[2];
+Obj v__3519277_37= co->res;
+Obj v__3517808_37 = R[1];
+Obj v__3517809_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517687_37 = R[4];
-Obj v__3517688_37 = R[5];
+Obj v__3517806_37 = R[4];
+Obj v__3517807_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517689_37;
-R[2] = v__3517690_37;
+R[1] = v__3517808_37;
+R[2] = v__3517809_37;
 R[3] = v_globals;
-R[4] = v__3517687_37;
-R[5] = v__3517688_37;
+R[4] = v__3517806_37;
+R[5] = v__3517807_37;
 R[6] = v_to;
-saveCont(co, clofun115, 7, R);
+saveCont(co, clofun118, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v__3519141_37= co->res;
-Obj v__3517689_37 = R[1];
-Obj v__3517690_37 = R[2];
+Obj v__3519276_37= co->res;
+Obj v__3517808_37 = R[1];
+Obj v__3517809_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517687_37 = R[4];
-Obj v__3517688_37 = R[5];
+Obj v__3517806_37 = R[4];
+Obj v__3517807_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517689_37;
-R[2] = v__3517690_37;
+R[1] = v__3517808_37;
+R[2] = v__3517809_37;
 R[3] = v_globals;
-R[4] = v__3517687_37;
-R[5] = v__3517688_37;
+R[4] = v__3517806_37;
+R[5] = v__3517807_37;
 R[6] = v_to;
-saveCont(co, clofun115, 8, R);
+saveCont(co, clofun118, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v__3519140_37= co->res;
-Obj v__3517689_37 = R[1];
-Obj v__3517690_37 = R[2];
+Obj v__3519275_37= co->res;
+Obj v__3517808_37 = R[1];
+Obj v__3517809_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517687_37 = R[4];
-Obj v__3517688_37 = R[5];
+Obj v__3517806_37 = R[4];
+Obj v__3517807_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517689_37;
-R[2] = v__3517690_37;
+R[1] = v__3517808_37;
+R[2] = v__3517809_37;
 R[3] = v_globals;
-R[4] = v__3517687_37;
-R[5] = v__3517688_37;
+R[4] = v__3517806_37;
+R[5] = v__3517807_37;
 R[6] = v_to;
-saveCont(co, clofun115, 9, R);
+saveCont(co, clofun118, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v__3519139_37= co->res;
-Obj v__3517689_37 = R[1];
+Obj v__3519274_37= co->res;
+Obj v__3517808_37 = R[1];
 Obj v_globals = R[2];
-Obj v__3517687_37 = R[3];
-Obj v__3517688_37 = R[4];
+Obj v__3517806_37 = R[3];
+Obj v__3517807_37 = R[4];
 Obj v_to = R[5];
-Obj v__3517690_37 = v__3519139_37;
-R[1] = v__3517689_37;
-R[2] = v__3517690_37;
+Obj v__3517809_37 = v__3519274_37;
+R[1] = v__3517808_37;
+R[2] = v__3517809_37;
 R[3] = v_globals;
-R[4] = v__3517687_37;
-R[5] = v__3517688_37;
+R[4] = v__3517806_37;
+R[5] = v__3517807_37;
 R[6] = v_to;
-saveCont(co, clofun115, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), v_to, v__3517687_37);
+saveCont(co, clofun118, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), v_to, v__3517806_37);
 return;
 }
 case 12:
 {
-Obj v__3519138_37= co->res;
+Obj v__3519273_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517687_37 = R[2];
-Obj v__3517688_37 = R[3];
+Obj v__3517806_37 = R[2];
+Obj v__3517807_37 = R[3];
 Obj v_to = R[4];
-Obj v__3517689_37 = v__3519138_37;
-R[1] = v__3517689_37;
+Obj v__3517808_37 = v__3519273_37;
+R[1] = v__3517808_37;
 R[2] = v_globals;
-R[3] = v__3517687_37;
-R[4] = v__3517688_37;
+R[3] = v__3517806_37;
+R[4] = v__3517807_37;
 R[5] = v_to;
-saveCont(co, clofun115, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517688_37);
+saveCont(co, clofun118, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517807_37);
 return;
 }
 case 13:
 {
-Obj v__3519137_37= co->res;
+Obj v__3519272_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517687_37 = R[2];
+Obj v__3517806_37 = R[2];
 Obj v_to = R[3];
-Obj v__3517688_37 = v__3519137_37;
+Obj v__3517807_37 = v__3519272_37;
 R[1] = v_globals;
-R[2] = v__3517687_37;
-R[3] = v__3517688_37;
+R[2] = v__3517806_37;
+R[3] = v__3517807_37;
 R[4] = v_to;
-saveCont(co, clofun115, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517688_37);
+saveCont(co, clofun118, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517807_37);
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2074,222 +2079,222 @@ Obj v_acc = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun114, 6, R);
+saveCont(co, clofun117, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v__3519152_37= co->res;
+Obj v__3519287_37= co->res;
 Obj v_acc = R[1];
-Obj v__3519153_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519153_37);
+Obj v__3519288_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519288_37);
 return;
 }
 case 2:
 {
-Obj v__3519151_37= co->res;
+Obj v__3519286_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun114, 1, R);
+saveCont(co, clofun117, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3519150_37= co->res;
+Obj v__3519285_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun114, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519150_37, closureRef(R[0], 3), v_cont};
+saveCont(co, clofun117, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519285_37, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 42)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3519149_37= co->res;
+Obj v__3519284_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
+saveCont(co, clofun117, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v__3519148_37= co->res;
+Obj v__3519283_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun114, 4, R);
+saveCont(co, clofun117, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v__3519147_37= co->res;
+Obj v__3519282_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun114, 5, R);
+saveCont(co, clofun117, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517435_37 = R[1];
-Obj v__3517436_37 = R[2];
-Obj v__3519130_37 = PRIM_EQ(Nil, v__3517436_37);
-if (True == v__3519130_37) {
+Obj v__3517547_37 = R[1];
+Obj v__3517548_37 = R[2];
+Obj v__3519265_37 = PRIM_EQ(Nil, v__3517548_37);
+if (True == v__3519265_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519131_37 = PRIM_ISCONS(v__3517436_37);
-if (True == v__3519131_37) {
-Obj v__3519132_37 = PRIM_CAR(v__3517436_37);
-Obj v__3517685_37 = v__3519132_37;
-Obj v__3519133_37 = PRIM_CDR(v__3517436_37);
-Obj v__3517686_37 = v__3519133_37;
-R[1] = v__3517435_37;
-R[2] = v__3517686_37;
-saveCont(co, clofun113, 1, R);
-coraCall1(co, v__3517435_37, v__3517685_37);
+Obj v__3519266_37 = PRIM_ISCONS(v__3517548_37);
+if (True == v__3519266_37) {
+Obj v__3519267_37 = PRIM_CAR(v__3517548_37);
+Obj v__3517804_37 = v__3519267_37;
+Obj v__3519268_37 = PRIM_CDR(v__3517548_37);
+Obj v__3517805_37 = v__3519268_37;
+R[1] = v__3517547_37;
+R[2] = v__3517805_37;
+saveCont(co, clofun116, 1, R);
+coraCall1(co, v__3517547_37, v__3517804_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519134_37= co->res;
-Obj v__3517435_37 = R[1];
-Obj v__3517686_37 = R[2];
+Obj v__3519269_37= co->res;
+Obj v__3517547_37 = R[1];
+Obj v__3517805_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), v__3517435_37, v__3517686_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), v__3517547_37, v__3517805_37);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
-saveCont(co, clofun112, 5, R);
+saveCont(co, clofun115, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 40)), v_globals);
 return;
 }
 case 1:
 {
-Obj v__3519128_37= co->res;
+Obj v__3519263_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519128_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519263_37);
 return;
 }
 case 2:
 {
-Obj v__3519127_37= co->res;
-saveCont(co, clofun112, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519127_37);
+Obj v__3519262_37= co->res;
+saveCont(co, clofun115, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519262_37);
 return;
 }
 case 3:
 {
-Obj v__3519126_37= co->res;
-saveCont(co, clofun112, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519126_37);
+Obj v__3519261_37= co->res;
+saveCont(co, clofun115, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519261_37);
 return;
 }
 case 4:
 {
-Obj v__3519125_37= co->res;
-saveCont(co, clofun112, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v__3519125_37);
+Obj v__3519260_37= co->res;
+saveCont(co, clofun115, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v__3519260_37);
 return;
 }
 case 5:
 {
-Obj v__3519124_37= co->res;
+Obj v__3519259_37= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun112, 4, R);
-coraCall1(co, v__3519124_37, v_exp);
+saveCont(co, clofun115, 4, R);
+coraCall1(co, v__3519259_37, v_exp);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_exp);
+saveCont(co, clofun114, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3519122_37= co->res;
-Obj v__3517683_37 = R[1];
-Obj v__3517684_37 = v__3519122_37;
+Obj v__3519257_37= co->res;
+Obj v__3517802_37 = R[1];
+Obj v__3517803_37 = v__3519257_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3517683_37, v__3517684_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3517802_37, v__3517803_37);
 return;
 }
 case 2:
 {
-Obj v__3519121_37= co->res;
+Obj v__3519256_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517683_37 = v__3519121_37;
-R[1] = v__3517683_37;
-saveCont(co, clofun111, 1, R);
+Obj v__3517802_37 = v__3519256_37;
+R[1] = v__3517802_37;
+saveCont(co, clofun114, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 31)), v_exp);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517431_37 = R[1];
-Obj v__3517432_37 = R[2];
-Obj v__3519114_37 = PRIM_EQ(Nil, v__3517432_37);
-if (True == v__3519114_37) {
-coraReturn(co, v__3517431_37);
+Obj v__3517543_37 = R[1];
+Obj v__3517544_37 = R[2];
+Obj v__3519249_37 = PRIM_EQ(Nil, v__3517544_37);
+if (True == v__3519249_37) {
+coraReturn(co, v__3517543_37);
 return;
 } else {
-Obj v__3519115_37 = PRIM_ISCONS(v__3517432_37);
-if (True == v__3519115_37) {
-Obj v__3519116_37 = PRIM_CAR(v__3517432_37);
-Obj v__3517681_37 = v__3519116_37;
-Obj v__3519117_37 = PRIM_CDR(v__3517432_37);
-Obj v__3517682_37 = v__3519117_37;
-Obj v__3519118_37 = makeCons(co->gc, v__3517431_37, Nil);
-Obj v__3519119_37 = makeCons(co->gc, v__3517681_37, v__3519118_37);
+Obj v__3519250_37 = PRIM_ISCONS(v__3517544_37);
+if (True == v__3519250_37) {
+Obj v__3519251_37 = PRIM_CAR(v__3517544_37);
+Obj v__3517800_37 = v__3519251_37;
+Obj v__3519252_37 = PRIM_CDR(v__3517544_37);
+Obj v__3517801_37 = v__3519252_37;
+Obj v__3519253_37 = makeCons(co->gc, v__3517543_37, Nil);
+Obj v__3519254_37 = makeCons(co->gc, v__3517800_37, v__3519253_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3519119_37, v__3517682_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3519254_37, v__3517801_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2297,80 +2302,80 @@ return;
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun109, 6, R);
+saveCont(co, clofun112, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v__3519112_37= co->res;
-Obj v__3517678_37 = R[1];
+Obj v__3519247_37= co->res;
+Obj v__3517797_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3517678_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3517797_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v__3519111_37= co->res;
-Obj v__3517678_37 = R[1];
-Obj v__3517680_37 = v__3519111_37;
-R[1] = v__3517678_37;
-saveCont(co, clofun109, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517678_37, v__3517680_37);
+Obj v__3519246_37= co->res;
+Obj v__3517797_37 = R[1];
+Obj v__3517799_37 = v__3519246_37;
+R[1] = v__3517797_37;
+saveCont(co, clofun112, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517797_37, v__3517799_37);
 return;
 }
 case 3:
 {
-Obj v__3519110_37= co->res;
-Obj v__3517678_37 = R[1];
-Obj v__3517679_37 = v__3519110_37;
-R[1] = v__3517678_37;
-saveCont(co, clofun109, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, v__3517679_37);
+Obj v__3519245_37= co->res;
+Obj v__3517797_37 = R[1];
+Obj v__3517798_37 = v__3519245_37;
+R[1] = v__3517797_37;
+saveCont(co, clofun112, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, v__3517798_37);
 return;
 }
 case 4:
 {
-Obj v__3519109_37= co->res;
+Obj v__3519244_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517678_37 = R[2];
-R[1] = v__3517678_37;
-saveCont(co, clofun109, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517678_37, v_exp);
+Obj v__3517797_37 = R[2];
+R[1] = v__3517797_37;
+saveCont(co, clofun112, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517797_37, v_exp);
 return;
 }
 case 5:
 {
-Obj v__3519108_37= co->res;
+Obj v__3519243_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517678_37 = R[2];
+Obj v__3517797_37 = R[2];
 R[1] = v_exp;
-R[2] = v__3517678_37;
-saveCont(co, clofun109, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3517678_37, MAKE_NUMBER(1), Nil);
+R[2] = v__3517797_37;
+saveCont(co, clofun112, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3517797_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v__3519107_37= co->res;
+Obj v__3519242_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517678_37 = v__3519107_37;
+Obj v__3517797_37 = v__3519242_37;
 R[1] = v_exp;
-R[2] = v__3517678_37;
-saveCont(co, clofun109, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3517678_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+R[2] = v__3517797_37;
+saveCont(co, clofun112, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3517797_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2382,7 +2387,7 @@ return;
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2394,7 +2399,7 @@ return;
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2406,20 +2411,20 @@ return;
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), Nil, v_globals, v_exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), Nil, v_globals, v_exp);
 return;
 }
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2427,13 +2432,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_label;
 R[2] = v_w;
-saveCont(co, clofun104, 3, R);
+saveCont(co, clofun107, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v__3519101_37= co->res;
+Obj v__3519236_37= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, ")"));
@@ -2441,27 +2446,27 @@ return;
 }
 case 2:
 {
-Obj v__3519100_37= co->res;
+Obj v__3519235_37= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
-saveCont(co, clofun104, 1, R);
+saveCont(co, clofun107, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v__3519099_37= co->res;
+Obj v__3519234_37= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
-saveCont(co, clofun104, 2, R);
+saveCont(co, clofun107, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v_w, v_label);
 return;
 }
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2469,13 +2474,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_w;
 R[2] = v_label;
-saveCont(co, clofun103, 1, R);
+saveCont(co, clofun106, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v__3519097_37= co->res;
+Obj v__3519232_37= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2485,157 +2490,157 @@ return;
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517425_37 = R[1];
-Obj v__3517426_37 = R[2];
-Obj v__3517427_37 = R[3];
-Obj v__3517428_37 = R[4];
-Obj v__3517429_37 = R[5];
-Obj v__3517674_37 = makeNative(co->gc, 1, clofun101, 0, 0);
-Obj v__3519075_37 = PRIM_ISCONS(v__3517429_37);
-if (True == v__3519075_37) {
-Obj v__3519076_37 = PRIM_CAR(v__3517429_37);
-Obj v__3519077_37 = PRIM_EQ(getBinding(co, packageID, 64).name, v__3519076_37);
-if (True == v__3519077_37) {
-Obj v__3519078_37 = PRIM_CDR(v__3517429_37);
-Obj v__3519079_37 = PRIM_ISCONS(v__3519078_37);
-if (True == v__3519079_37) {
-Obj v__3519080_37 = PRIM_CDR(v__3517429_37);
-Obj v__3519081_37 = PRIM_CAR(v__3519080_37);
-Obj v__3517675_37 = v__3519081_37;
-Obj v__3519082_37 = PRIM_CDR(v__3517429_37);
-Obj v__3519083_37 = PRIM_CDR(v__3519082_37);
-Obj v__3519084_37 = PRIM_ISCONS(v__3519083_37);
-if (True == v__3519084_37) {
-Obj v__3519085_37 = PRIM_CDR(v__3517429_37);
-Obj v__3519086_37 = PRIM_CDR(v__3519085_37);
-Obj v__3519087_37 = PRIM_CAR(v__3519086_37);
-Obj v__3517676_37 = v__3519087_37;
-Obj v__3519088_37 = PRIM_CDR(v__3517429_37);
-Obj v__3519089_37 = PRIM_CDR(v__3519088_37);
-Obj v__3519090_37 = PRIM_CDR(v__3519089_37);
-Obj v__3517677_37 = v__3519090_37;
-R[1] = v__3517675_37;
-R[2] = v__3517677_37;
-R[3] = v__3517425_37;
-R[4] = v__3517426_37;
-R[5] = v__3517427_37;
-R[6] = v__3517428_37;
-R[7] = v__3517676_37;
-saveCont(co, clofun102, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517428_37, makeCString(co->gc, "Obj "));
+Obj v__3517537_37 = R[1];
+Obj v__3517538_37 = R[2];
+Obj v__3517539_37 = R[3];
+Obj v__3517540_37 = R[4];
+Obj v__3517541_37 = R[5];
+Obj v__3517793_37 = makeNative(co->gc, 1, clofun104, 0, 0);
+Obj v__3519210_37 = PRIM_ISCONS(v__3517541_37);
+if (True == v__3519210_37) {
+Obj v__3519211_37 = PRIM_CAR(v__3517541_37);
+Obj v__3519212_37 = PRIM_EQ(getBinding(co, packageID, 64).name, v__3519211_37);
+if (True == v__3519212_37) {
+Obj v__3519213_37 = PRIM_CDR(v__3517541_37);
+Obj v__3519214_37 = PRIM_ISCONS(v__3519213_37);
+if (True == v__3519214_37) {
+Obj v__3519215_37 = PRIM_CDR(v__3517541_37);
+Obj v__3519216_37 = PRIM_CAR(v__3519215_37);
+Obj v__3517794_37 = v__3519216_37;
+Obj v__3519217_37 = PRIM_CDR(v__3517541_37);
+Obj v__3519218_37 = PRIM_CDR(v__3519217_37);
+Obj v__3519219_37 = PRIM_ISCONS(v__3519218_37);
+if (True == v__3519219_37) {
+Obj v__3519220_37 = PRIM_CDR(v__3517541_37);
+Obj v__3519221_37 = PRIM_CDR(v__3519220_37);
+Obj v__3519222_37 = PRIM_CAR(v__3519221_37);
+Obj v__3517795_37 = v__3519222_37;
+Obj v__3519223_37 = PRIM_CDR(v__3517541_37);
+Obj v__3519224_37 = PRIM_CDR(v__3519223_37);
+Obj v__3519225_37 = PRIM_CDR(v__3519224_37);
+Obj v__3517796_37 = v__3519225_37;
+R[1] = v__3517794_37;
+R[2] = v__3517796_37;
+R[3] = v__3517537_37;
+R[4] = v__3517538_37;
+R[5] = v__3517539_37;
+R[6] = v__3517540_37;
+R[7] = v__3517795_37;
+saveCont(co, clofun105, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517540_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3517793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3517793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3517793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3517793_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519095_37= co->res;
-Obj v__3517425_37 = R[1];
-Obj v__3517426_37 = R[2];
-Obj v__3517427_37 = R[3];
-Obj v__3517428_37 = R[4];
-Obj v__3517676_37 = R[5];
+Obj v__3519230_37= co->res;
+Obj v__3517537_37 = R[1];
+Obj v__3517538_37 = R[2];
+Obj v__3517539_37 = R[3];
+Obj v__3517540_37 = R[4];
+Obj v__3517795_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v__3517425_37, v__3517426_37, v__3517427_37, v__3517428_37, v__3517676_37};
+Obj __args[5] = {v__3517537_37, v__3517538_37, v__3517539_37, v__3517540_37, v__3517795_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v__3519094_37= co->res;
-Obj v__3517677_37 = R[1];
-Obj v__3517425_37 = R[2];
-Obj v__3517426_37 = R[3];
-Obj v__3517427_37 = R[4];
-Obj v__3517428_37 = R[5];
-Obj v__3517676_37 = R[6];
-R[1] = v__3517425_37;
-R[2] = v__3517426_37;
-R[3] = v__3517427_37;
-R[4] = v__3517428_37;
-R[5] = v__3517676_37;
-saveCont(co, clofun102, 1, R);
-Obj __args[5] = {v__3517425_37, v__3517426_37, v__3517427_37, v__3517428_37, v__3517677_37};
+Obj v__3519229_37= co->res;
+Obj v__3517796_37 = R[1];
+Obj v__3517537_37 = R[2];
+Obj v__3517538_37 = R[3];
+Obj v__3517539_37 = R[4];
+Obj v__3517540_37 = R[5];
+Obj v__3517795_37 = R[6];
+R[1] = v__3517537_37;
+R[2] = v__3517538_37;
+R[3] = v__3517539_37;
+R[4] = v__3517540_37;
+R[5] = v__3517795_37;
+saveCont(co, clofun105, 1, R);
+Obj __args[5] = {v__3517537_37, v__3517538_37, v__3517539_37, v__3517540_37, v__3517796_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519093_37= co->res;
-Obj v__3517677_37 = R[1];
-Obj v__3517425_37 = R[2];
-Obj v__3517426_37 = R[3];
-Obj v__3517427_37 = R[4];
-Obj v__3517428_37 = R[5];
-Obj v__3517676_37 = R[6];
-R[1] = v__3517677_37;
-R[2] = v__3517425_37;
-R[3] = v__3517426_37;
-R[4] = v__3517427_37;
-R[5] = v__3517428_37;
-R[6] = v__3517676_37;
-saveCont(co, clofun102, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517428_37, makeCString(co->gc, "= co->res;\n"));
+Obj v__3519228_37= co->res;
+Obj v__3517796_37 = R[1];
+Obj v__3517537_37 = R[2];
+Obj v__3517538_37 = R[3];
+Obj v__3517539_37 = R[4];
+Obj v__3517540_37 = R[5];
+Obj v__3517795_37 = R[6];
+R[1] = v__3517796_37;
+R[2] = v__3517537_37;
+R[3] = v__3517538_37;
+R[4] = v__3517539_37;
+R[5] = v__3517540_37;
+R[6] = v__3517795_37;
+saveCont(co, clofun105, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517540_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v__3519091_37= co->res;
-Obj v__3517675_37 = R[1];
-Obj v__3517677_37 = R[2];
-Obj v__3517425_37 = R[3];
-Obj v__3517426_37 = R[4];
-Obj v__3517427_37 = R[5];
-Obj v__3517428_37 = R[6];
-Obj v__3517676_37 = R[7];
-Obj v__3519092_37 = PRIM_CAR(v__3517675_37);
-R[1] = v__3517677_37;
-R[2] = v__3517425_37;
-R[3] = v__3517426_37;
-R[4] = v__3517427_37;
-R[5] = v__3517428_37;
-R[6] = v__3517676_37;
-saveCont(co, clofun102, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), v__3517428_37, v__3519092_37);
+Obj v__3519226_37= co->res;
+Obj v__3517794_37 = R[1];
+Obj v__3517796_37 = R[2];
+Obj v__3517537_37 = R[3];
+Obj v__3517538_37 = R[4];
+Obj v__3517539_37 = R[5];
+Obj v__3517540_37 = R[6];
+Obj v__3517795_37 = R[7];
+Obj v__3519227_37 = PRIM_CAR(v__3517794_37);
+R[1] = v__3517796_37;
+R[2] = v__3517537_37;
+R[3] = v__3517538_37;
+R[4] = v__3517539_37;
+R[5] = v__3517540_37;
+R[6] = v__3517795_37;
+saveCont(co, clofun105, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), v__3517540_37, v__3519227_37);
 return;
 }
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2644,109 +2649,109 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v__3519061_37 = primGenSym(co);
-Obj v__3517671_37 = v__3519061_37;
-Obj v__3519072_37 = primSet(co, v__3517671_37, makeNative(co->gc, 2, clofun99, 1, 5, v_globals, v_self, v_env, v_w, v__3517671_37));
+Obj v__3519196_37 = primGenSym(co);
+Obj v__3517790_37 = v__3519196_37;
+Obj v__3519207_37 = primSet(co, v__3517790_37, makeNative(co->gc, 2, clofun102, 1, 5, v_globals, v_self, v_env, v_w, v__3517790_37));
 R[1] = v_l;
-saveCont(co, clofun100, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517671_37);
+saveCont(co, clofun103, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517790_37);
 return;
 }
 case 1:
 {
-Obj v__3519073_37= co->res;
+Obj v__3519208_37= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519073_37, v_l);
+coraCall1(co, v__3519208_37, v_l);
 return;
 }
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3519062_37 = PRIM_EQ(Nil, v_x);
-if (True == v__3519062_37) {
+Obj v__3519197_37 = PRIM_EQ(Nil, v_x);
+if (True == v__3519197_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519063_37 = PRIM_ISCONS(v_x);
-if (True == v__3519063_37) {
-Obj v__3519064_37 = PRIM_CAR(v_x);
-Obj v__3517672_37 = v__3519064_37;
-Obj v__3519065_37 = PRIM_CDR(v_x);
-Obj v__3517673_37 = v__3519065_37;
-R[1] = v__3517673_37;
-saveCont(co, clofun99, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517672_37};
+Obj v__3519198_37 = PRIM_ISCONS(v_x);
+if (True == v__3519198_37) {
+Obj v__3519199_37 = PRIM_CAR(v_x);
+Obj v__3517791_37 = v__3519199_37;
+Obj v__3519200_37 = PRIM_CDR(v_x);
+Obj v__3517792_37 = v__3519200_37;
+R[1] = v__3517792_37;
+saveCont(co, clofun102, 5, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517791_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519070_37= co->res;
-Obj v__3517673_37 = R[1];
+Obj v__3519205_37= co->res;
+Obj v__3517792_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519070_37, v__3517673_37);
+coraCall1(co, v__3519205_37, v__3517792_37);
 return;
 }
 case 2:
 {
-Obj v__3519069_37= co->res;
-Obj v__3517673_37 = R[1];
-R[1] = v__3517673_37;
-saveCont(co, clofun99, 1, R);
+Obj v__3519204_37= co->res;
+Obj v__3517792_37 = R[1];
+R[1] = v__3517792_37;
+saveCont(co, clofun102, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519071_37= co->res;
-Obj v__3517673_37 = R[1];
+Obj v__3519206_37= co->res;
+Obj v__3517792_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519071_37, v__3517673_37);
+coraCall1(co, v__3519206_37, v__3517792_37);
 return;
 }
 case 4:
 {
-Obj v__3519067_37= co->res;
-Obj v__3517673_37 = R[1];
-Obj v__3519068_37 = primNot(v__3519067_37);
-if (True == v__3519068_37) {
-R[1] = v__3517673_37;
-saveCont(co, clofun99, 2, R);
+Obj v__3519202_37= co->res;
+Obj v__3517792_37 = R[1];
+Obj v__3519203_37 = primNot(v__3519202_37);
+if (True == v__3519203_37) {
+R[1] = v__3517792_37;
+saveCont(co, clofun102, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = v__3517673_37;
-saveCont(co, clofun99, 3, R);
+R[1] = v__3517792_37;
+saveCont(co, clofun102, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj v__3519066_37= co->res;
-Obj v__3517673_37 = R[1];
-R[1] = v__3517673_37;
-saveCont(co, clofun99, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517673_37);
+Obj v__3519201_37= co->res;
+Obj v__3517792_37 = R[1];
+R[1] = v__3517792_37;
+saveCont(co, clofun102, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517792_37);
 return;
 }
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2755,318 +2760,318 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v__3518774_37 = primGenSym(co);
-Obj v__3517634_37 = v__3518774_37;
-Obj v__3519058_37 = primSet(co, v__3517634_37, makeNative(co->gc, 3, clofun97, 2, 4, v_self, v__3517634_37, v_globals, v_w));
+Obj v__3518909_37 = primGenSym(co);
+Obj v__3517753_37 = v__3518909_37;
+Obj v__3519193_37 = primSet(co, v__3517753_37, makeNative(co->gc, 3, clofun100, 2, 4, v_self, v__3517753_37, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
-saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517634_37);
+saveCont(co, clofun101, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517753_37);
 return;
 }
 case 1:
 {
-Obj v__3519059_37= co->res;
+Obj v__3519194_37= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3519059_37, v_x1, v_env1);
+coraCall2(co, v__3519194_37, v_x1, v_env1);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v__3518775_37 = primIsSymbol(v_x2);
-if (True == v__3518775_37) {
+Obj v__3518910_37 = primIsSymbol(v_x2);
+if (True == v__3518910_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj v__3517635_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v__3519045_37 = PRIM_ISCONS(v_x2);
-if (True == v__3519045_37) {
-Obj v__3519046_37 = PRIM_CAR(v_x2);
-Obj v__3519047_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3519046_37);
-if (True == v__3519047_37) {
-Obj v__3519048_37 = PRIM_CDR(v_x2);
-Obj v__3519049_37 = PRIM_ISCONS(v__3519048_37);
-if (True == v__3519049_37) {
-Obj v__3519050_37 = PRIM_CDR(v_x2);
-Obj v__3519051_37 = PRIM_CAR(v__3519050_37);
-Obj v__3517670_37 = v__3519051_37;
-Obj v__3519052_37 = PRIM_CDR(v_x2);
-Obj v__3519053_37 = PRIM_CDR(v__3519052_37);
-Obj v__3519054_37 = PRIM_EQ(Nil, v__3519053_37);
-if (True == v__3519054_37) {
-R[1] = v__3517670_37;
-saveCont(co, clofun97, 3, R);
+Obj v__3517754_37 = makeNative(co->gc, 2, clofun99, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v__3519180_37 = PRIM_ISCONS(v_x2);
+if (True == v__3519180_37) {
+Obj v__3519181_37 = PRIM_CAR(v_x2);
+Obj v__3519182_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3519181_37);
+if (True == v__3519182_37) {
+Obj v__3519183_37 = PRIM_CDR(v_x2);
+Obj v__3519184_37 = PRIM_ISCONS(v__3519183_37);
+if (True == v__3519184_37) {
+Obj v__3519185_37 = PRIM_CDR(v_x2);
+Obj v__3519186_37 = PRIM_CAR(v__3519185_37);
+Obj v__3517789_37 = v__3519186_37;
+Obj v__3519187_37 = PRIM_CDR(v_x2);
+Obj v__3519188_37 = PRIM_CDR(v__3519187_37);
+Obj v__3519189_37 = PRIM_EQ(Nil, v__3519188_37);
+if (True == v__3519189_37) {
+R[1] = v__3517789_37;
+saveCont(co, clofun100, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517635_37);
+coraCall0(co, v__3517754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517635_37);
+coraCall0(co, v__3517754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517635_37);
+coraCall0(co, v__3517754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517635_37);
+coraCall0(co, v__3517754_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519057_37= co->res;
+Obj v__3519192_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v__3519056_37= co->res;
-saveCont(co, clofun97, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519056_37);
+Obj v__3519191_37= co->res;
+saveCont(co, clofun100, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519191_37);
 return;
 }
 case 3:
 {
-Obj v__3519055_37= co->res;
-Obj v__3517670_37 = R[1];
-saveCont(co, clofun97, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3517670_37, closureRef(R[0], 2));
+Obj v__3519190_37= co->res;
+Obj v__3517789_37 = R[1];
+saveCont(co, clofun100, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3517789_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517636_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v__3519033_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v__3519033_37) {
-Obj v__3519034_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj v__3519035_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3519034_37);
-if (True == v__3519035_37) {
-Obj v__3519036_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519037_37 = PRIM_ISCONS(v__3519036_37);
-if (True == v__3519037_37) {
-Obj v__3519038_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519039_37 = PRIM_CAR(v__3519038_37);
-Obj v__3517669_37 = v__3519039_37;
-Obj v__3519040_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519041_37 = PRIM_CDR(v__3519040_37);
-Obj v__3519042_37 = PRIM_EQ(Nil, v__3519041_37);
-if (True == v__3519042_37) {
-R[1] = v__3517669_37;
-saveCont(co, clofun96, 2, R);
+Obj v__3517755_37 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3519168_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3519168_37) {
+Obj v__3519169_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3519170_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3519169_37);
+if (True == v__3519170_37) {
+Obj v__3519171_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519172_37 = PRIM_ISCONS(v__3519171_37);
+if (True == v__3519172_37) {
+Obj v__3519173_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519174_37 = PRIM_CAR(v__3519173_37);
+Obj v__3517788_37 = v__3519174_37;
+Obj v__3519175_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519176_37 = PRIM_CDR(v__3519175_37);
+Obj v__3519177_37 = PRIM_EQ(Nil, v__3519176_37);
+if (True == v__3519177_37) {
+R[1] = v__3517788_37;
+saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517636_37);
+coraCall0(co, v__3517755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517636_37);
+coraCall0(co, v__3517755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517636_37);
+coraCall0(co, v__3517755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517636_37);
+coraCall0(co, v__3517755_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519044_37= co->res;
+Obj v__3519179_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519043_37= co->res;
-Obj v__3517669_37 = R[1];
-saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517669_37);
+Obj v__3519178_37= co->res;
+Obj v__3517788_37 = R[1];
+saveCont(co, clofun99, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517788_37);
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517637_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3519009_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3519009_37) {
-Obj v__3519010_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3519011_37 = PRIM_EQ(getBinding(co, packageID, 98).name, v__3519010_37);
-if (True == v__3519011_37) {
-Obj v__3519012_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519013_37 = PRIM_ISCONS(v__3519012_37);
-if (True == v__3519013_37) {
-Obj v__3519014_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519015_37 = PRIM_CAR(v__3519014_37);
-Obj v__3517668_37 = v__3519015_37;
-Obj v__3519016_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519017_37 = PRIM_CDR(v__3519016_37);
-Obj v__3519018_37 = PRIM_EQ(Nil, v__3519017_37);
-if (True == v__3519018_37) {
-Obj v__3519019_37 = primIsSymbol(v__3517668_37);
-if (True == v__3519019_37) {
-R[1] = v__3517668_37;
-saveCont(co, clofun95, 3, R);
+Obj v__3517756_37 = makeNative(co->gc, 4, clofun97, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3519144_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3519144_37) {
+Obj v__3519145_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3519146_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3519145_37);
+if (True == v__3519146_37) {
+Obj v__3519147_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519148_37 = PRIM_ISCONS(v__3519147_37);
+if (True == v__3519148_37) {
+Obj v__3519149_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519150_37 = PRIM_CAR(v__3519149_37);
+Obj v__3517787_37 = v__3519150_37;
+Obj v__3519151_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519152_37 = PRIM_CDR(v__3519151_37);
+Obj v__3519153_37 = PRIM_EQ(Nil, v__3519152_37);
+if (True == v__3519153_37) {
+Obj v__3519154_37 = primIsSymbol(v__3517787_37);
+if (True == v__3519154_37) {
+R[1] = v__3517787_37;
+saveCont(co, clofun98, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = v__3517668_37;
-saveCont(co, clofun95, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517668_37);
+R[1] = v__3517787_37;
+saveCont(co, clofun98, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517637_37);
+coraCall0(co, v__3517756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517637_37);
+coraCall0(co, v__3517756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517637_37);
+coraCall0(co, v__3517756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517637_37);
+coraCall0(co, v__3517756_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519022_37= co->res;
+Obj v__3519157_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v__3519021_37= co->res;
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519021_37);
+Obj v__3519156_37= co->res;
+saveCont(co, clofun98, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519156_37);
 return;
 }
 case 3:
 {
-Obj v__3519020_37= co->res;
-Obj v__3517668_37 = R[1];
-saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3517668_37, closureRef(R[0], 4));
+Obj v__3519155_37= co->res;
+Obj v__3517787_37 = R[1];
+saveCont(co, clofun98, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3517787_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3519025_37= co->res;
+Obj v__3519160_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v__3519024_37= co->res;
-Obj v__3517668_37 = R[1];
-saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517668_37);
+Obj v__3519159_37= co->res;
+Obj v__3517787_37 = R[1];
+saveCont(co, clofun98, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517787_37);
 return;
 }
 case 6:
 {
-Obj v__3519029_37= co->res;
+Obj v__3519164_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v__3519028_37= co->res;
-saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3519028_37);
+Obj v__3519163_37= co->res;
+saveCont(co, clofun98, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3519163_37);
 return;
 }
 case 8:
 {
-Obj v__3519027_37= co->res;
-Obj v__3517668_37 = R[1];
-saveCont(co, clofun95, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3517668_37);
+Obj v__3519162_37= co->res;
+Obj v__3517787_37 = R[1];
+saveCont(co, clofun98, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3517787_37);
 return;
 }
 case 9:
 {
-Obj v__3519023_37= co->res;
-Obj v__3517668_37 = R[1];
-if (True == v__3519023_37) {
-R[1] = v__3517668_37;
-saveCont(co, clofun95, 5, R);
+Obj v__3519158_37= co->res;
+Obj v__3517787_37 = R[1];
+if (True == v__3519158_37) {
+R[1] = v__3517787_37;
+saveCont(co, clofun98, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v__3519026_37 = primIsString(v__3517668_37);
-if (True == v__3519026_37) {
-R[1] = v__3517668_37;
-saveCont(co, clofun95, 8, R);
+Obj v__3519161_37 = primIsString(v__3517787_37);
+if (True == v__3519161_37) {
+R[1] = v__3517787_37;
+saveCont(co, clofun98, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v__3519030_37 = PRIM_EQ(v__3517668_37, Nil);
-if (True == v__3519030_37) {
+Obj v__3519165_37 = PRIM_EQ(v__3517787_37, Nil);
+if (True == v__3519165_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v__3519031_37 = PRIM_EQ(v__3517668_37, True);
-if (True == v__3519031_37) {
+Obj v__3519166_37 = PRIM_EQ(v__3517787_37, True);
+if (True == v__3519166_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v__3519032_37 = PRIM_EQ(v__3517668_37, False);
-if (True == v__3519032_37) {
+Obj v__3519167_37 = PRIM_EQ(v__3517787_37, False);
+if (True == v__3519167_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
@@ -3077,334 +3082,334 @@ return;
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517638_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3518974_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518974_37) {
-Obj v__3518975_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518976_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518975_37);
-if (True == v__3518976_37) {
-Obj v__3518977_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518978_37 = PRIM_ISCONS(v__3518977_37);
-if (True == v__3518978_37) {
-Obj v__3518979_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518980_37 = PRIM_CAR(v__3518979_37);
-Obj v__3517665_37 = v__3518980_37;
-Obj v__3518981_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518982_37 = PRIM_CDR(v__3518981_37);
-Obj v__3518983_37 = PRIM_ISCONS(v__3518982_37);
-if (True == v__3518983_37) {
-Obj v__3518984_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518985_37 = PRIM_CDR(v__3518984_37);
-Obj v__3518986_37 = PRIM_CAR(v__3518985_37);
-Obj v__3517666_37 = v__3518986_37;
-Obj v__3518987_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518988_37 = PRIM_CDR(v__3518987_37);
-Obj v__3518989_37 = PRIM_CDR(v__3518988_37);
-Obj v__3518990_37 = PRIM_ISCONS(v__3518989_37);
-if (True == v__3518990_37) {
-Obj v__3518991_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518992_37 = PRIM_CDR(v__3518991_37);
-Obj v__3518993_37 = PRIM_CDR(v__3518992_37);
-Obj v__3518994_37 = PRIM_CAR(v__3518993_37);
-Obj v__3517667_37 = v__3518994_37;
-Obj v__3518995_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
-Obj v__3518997_37 = PRIM_CDR(v__3518996_37);
-Obj v__3518998_37 = PRIM_CDR(v__3518997_37);
-Obj v__3518999_37 = PRIM_EQ(Nil, v__3518998_37);
-if (True == v__3518999_37) {
-R[1] = v__3517666_37;
-R[2] = v__3517665_37;
-R[3] = v__3517667_37;
-saveCont(co, clofun94, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3517665_37, closureRef(R[0], 5));
+Obj v__3517757_37 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3519109_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3519109_37) {
+Obj v__3519110_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3519111_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3519110_37);
+if (True == v__3519111_37) {
+Obj v__3519112_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519113_37 = PRIM_ISCONS(v__3519112_37);
+if (True == v__3519113_37) {
+Obj v__3519114_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519115_37 = PRIM_CAR(v__3519114_37);
+Obj v__3517784_37 = v__3519115_37;
+Obj v__3519116_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519117_37 = PRIM_CDR(v__3519116_37);
+Obj v__3519118_37 = PRIM_ISCONS(v__3519117_37);
+if (True == v__3519118_37) {
+Obj v__3519119_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519120_37 = PRIM_CDR(v__3519119_37);
+Obj v__3519121_37 = PRIM_CAR(v__3519120_37);
+Obj v__3517785_37 = v__3519121_37;
+Obj v__3519122_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519123_37 = PRIM_CDR(v__3519122_37);
+Obj v__3519124_37 = PRIM_CDR(v__3519123_37);
+Obj v__3519125_37 = PRIM_ISCONS(v__3519124_37);
+if (True == v__3519125_37) {
+Obj v__3519126_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519127_37 = PRIM_CDR(v__3519126_37);
+Obj v__3519128_37 = PRIM_CDR(v__3519127_37);
+Obj v__3519129_37 = PRIM_CAR(v__3519128_37);
+Obj v__3517786_37 = v__3519129_37;
+Obj v__3519130_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519131_37 = PRIM_CDR(v__3519130_37);
+Obj v__3519132_37 = PRIM_CDR(v__3519131_37);
+Obj v__3519133_37 = PRIM_CDR(v__3519132_37);
+Obj v__3519134_37 = PRIM_EQ(Nil, v__3519133_37);
+if (True == v__3519134_37) {
+R[1] = v__3517785_37;
+R[2] = v__3517784_37;
+R[3] = v__3517786_37;
+saveCont(co, clofun97, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3517784_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517638_37);
+coraCall0(co, v__3517757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517638_37);
+coraCall0(co, v__3517757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517638_37);
+coraCall0(co, v__3517757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517638_37);
+coraCall0(co, v__3517757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517638_37);
+coraCall0(co, v__3517757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517638_37);
+coraCall0(co, v__3517757_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519007_37= co->res;
-Obj v__3517665_37 = R[1];
-Obj v__3517667_37 = R[2];
-Obj v__3519008_37 = makeCons(co->gc, v__3517665_37, closureRef(R[0], 5));
+Obj v__3519142_37= co->res;
+Obj v__3517784_37 = R[1];
+Obj v__3517786_37 = R[2];
+Obj v__3519143_37 = makeCons(co->gc, v__3517784_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v__3519007_37, v__3517667_37, v__3519008_37);
+coraCall2(co, v__3519142_37, v__3517786_37, v__3519143_37);
 return;
 }
 case 2:
 {
-Obj v__3519006_37= co->res;
-Obj v__3517665_37 = R[1];
-Obj v__3517667_37 = R[2];
-R[1] = v__3517665_37;
-R[2] = v__3517667_37;
-saveCont(co, clofun94, 1, R);
+Obj v__3519141_37= co->res;
+Obj v__3517784_37 = R[1];
+Obj v__3517786_37 = R[2];
+R[1] = v__3517784_37;
+R[2] = v__3517786_37;
+saveCont(co, clofun97, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519005_37= co->res;
-Obj v__3517665_37 = R[1];
-Obj v__3517667_37 = R[2];
-R[1] = v__3517665_37;
-R[2] = v__3517667_37;
-saveCont(co, clofun94, 2, R);
+Obj v__3519140_37= co->res;
+Obj v__3517784_37 = R[1];
+Obj v__3517786_37 = R[2];
+R[1] = v__3517784_37;
+R[2] = v__3517786_37;
+saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3519004_37= co->res;
-Obj v__3517666_37 = R[1];
-Obj v__3517665_37 = R[2];
-Obj v__3517667_37 = R[3];
-R[1] = v__3517665_37;
-R[2] = v__3517667_37;
-saveCont(co, clofun94, 3, R);
-coraCall2(co, v__3519004_37, v__3517666_37, closureRef(R[0], 5));
+Obj v__3519139_37= co->res;
+Obj v__3517785_37 = R[1];
+Obj v__3517784_37 = R[2];
+Obj v__3517786_37 = R[3];
+R[1] = v__3517784_37;
+R[2] = v__3517786_37;
+saveCont(co, clofun97, 3, R);
+coraCall2(co, v__3519139_37, v__3517785_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v__3519003_37= co->res;
-Obj v__3517666_37 = R[1];
-Obj v__3517665_37 = R[2];
-Obj v__3517667_37 = R[3];
-R[1] = v__3517666_37;
-R[2] = v__3517665_37;
-R[3] = v__3517667_37;
-saveCont(co, clofun94, 4, R);
+Obj v__3519138_37= co->res;
+Obj v__3517785_37 = R[1];
+Obj v__3517784_37 = R[2];
+Obj v__3517786_37 = R[3];
+R[1] = v__3517785_37;
+R[2] = v__3517784_37;
+R[3] = v__3517786_37;
+saveCont(co, clofun97, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3519002_37= co->res;
-Obj v__3517666_37 = R[1];
-Obj v__3517665_37 = R[2];
-Obj v__3517667_37 = R[3];
-R[1] = v__3517666_37;
-R[2] = v__3517665_37;
-R[3] = v__3517667_37;
-saveCont(co, clofun94, 5, R);
+Obj v__3519137_37= co->res;
+Obj v__3517785_37 = R[1];
+Obj v__3517784_37 = R[2];
+Obj v__3517786_37 = R[3];
+R[1] = v__3517785_37;
+R[2] = v__3517784_37;
+R[3] = v__3517786_37;
+saveCont(co, clofun97, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v__3519001_37= co->res;
-Obj v__3517666_37 = R[1];
-Obj v__3517665_37 = R[2];
-Obj v__3517667_37 = R[3];
-R[1] = v__3517666_37;
-R[2] = v__3517665_37;
-R[3] = v__3517667_37;
-saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3517665_37);
+Obj v__3519136_37= co->res;
+Obj v__3517785_37 = R[1];
+Obj v__3517784_37 = R[2];
+Obj v__3517786_37 = R[3];
+R[1] = v__3517785_37;
+R[2] = v__3517784_37;
+R[3] = v__3517786_37;
+saveCont(co, clofun97, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3517784_37);
 return;
 }
 case 8:
 {
-Obj v__3519000_37= co->res;
-Obj v__3517666_37 = R[1];
-Obj v__3517665_37 = R[2];
-Obj v__3517667_37 = R[3];
-R[1] = v__3517666_37;
-R[2] = v__3517665_37;
-R[3] = v__3517667_37;
-saveCont(co, clofun94, 7, R);
+Obj v__3519135_37= co->res;
+Obj v__3517785_37 = R[1];
+Obj v__3517784_37 = R[2];
+Obj v__3517786_37 = R[3];
+R[1] = v__3517785_37;
+R[2] = v__3517784_37;
+R[3] = v__3517786_37;
+saveCont(co, clofun97, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517639_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518944_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518944_37) {
-Obj v__3518945_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518946_37 = PRIM_ISCONS(v__3518945_37);
-if (True == v__3518946_37) {
-Obj v__3518947_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518948_37 = PRIM_CAR(v__3518947_37);
-Obj v__3518949_37 = PRIM_EQ(getBinding(co, packageID, 93).name, v__3518948_37);
-if (True == v__3518949_37) {
-Obj v__3518950_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518951_37 = PRIM_CDR(v__3518950_37);
-Obj v__3518952_37 = PRIM_ISCONS(v__3518951_37);
-if (True == v__3518952_37) {
-Obj v__3518953_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518954_37 = PRIM_CDR(v__3518953_37);
-Obj v__3518955_37 = PRIM_CAR(v__3518954_37);
-Obj v__3517663_37 = v__3518955_37;
-Obj v__3518956_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518957_37 = PRIM_CDR(v__3518956_37);
-Obj v__3518958_37 = PRIM_CDR(v__3518957_37);
-Obj v__3518959_37 = PRIM_EQ(Nil, v__3518958_37);
-if (True == v__3518959_37) {
-Obj v__3518960_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3517664_37 = v__3518960_37;
-R[1] = v__3517663_37;
-R[2] = v__3517664_37;
-saveCont(co, clofun93, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517663_37);
+Obj v__3517758_37 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3519079_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3519079_37) {
+Obj v__3519080_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519081_37 = PRIM_ISCONS(v__3519080_37);
+if (True == v__3519081_37) {
+Obj v__3519082_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519083_37 = PRIM_CAR(v__3519082_37);
+Obj v__3519084_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3519083_37);
+if (True == v__3519084_37) {
+Obj v__3519085_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519086_37 = PRIM_CDR(v__3519085_37);
+Obj v__3519087_37 = PRIM_ISCONS(v__3519086_37);
+if (True == v__3519087_37) {
+Obj v__3519088_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519089_37 = PRIM_CDR(v__3519088_37);
+Obj v__3519090_37 = PRIM_CAR(v__3519089_37);
+Obj v__3517782_37 = v__3519090_37;
+Obj v__3519091_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519092_37 = PRIM_CDR(v__3519091_37);
+Obj v__3519093_37 = PRIM_CDR(v__3519092_37);
+Obj v__3519094_37 = PRIM_EQ(Nil, v__3519093_37);
+if (True == v__3519094_37) {
+Obj v__3519095_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3517783_37 = v__3519095_37;
+R[1] = v__3517782_37;
+R[2] = v__3517783_37;
+saveCont(co, clofun96, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517782_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517639_37);
+coraCall0(co, v__3517758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517639_37);
+coraCall0(co, v__3517758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517639_37);
+coraCall0(co, v__3517758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517639_37);
+coraCall0(co, v__3517758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517639_37);
+coraCall0(co, v__3517758_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518965_37= co->res;
+Obj v__3519100_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3518964_37= co->res;
-Obj v__3517664_37 = R[1];
-saveCont(co, clofun93, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517664_37};
+Obj v__3519099_37= co->res;
+Obj v__3517783_37 = R[1];
+saveCont(co, clofun96, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517783_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3518968_37= co->res;
+Obj v__3519103_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v__3518967_37= co->res;
-Obj v__3517664_37 = R[1];
-saveCont(co, clofun93, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517664_37};
+Obj v__3519102_37= co->res;
+Obj v__3517783_37 = R[1];
+saveCont(co, clofun96, 3, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517783_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v__3518971_37= co->res;
+Obj v__3519106_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v__3518970_37= co->res;
-Obj v__3517664_37 = R[1];
-saveCont(co, clofun93, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517664_37};
+Obj v__3519105_37= co->res;
+Obj v__3517783_37 = R[1];
+saveCont(co, clofun96, 5, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517783_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3518973_37= co->res;
+Obj v__3519108_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v__3518972_37= co->res;
-Obj v__3517664_37 = R[1];
-saveCont(co, clofun93, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517664_37};
+Obj v__3519107_37= co->res;
+Obj v__3517783_37 = R[1];
+saveCont(co, clofun96, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517783_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3518962_37= co->res;
-Obj v__3517663_37 = R[1];
-Obj v__3517664_37 = R[2];
-Obj v__3518963_37 = PRIM_EQ(v__3517663_37, getBinding(co, packageID, 123).name);
-if (True == v__3518963_37) {
-R[1] = v__3517664_37;
-saveCont(co, clofun93, 2, R);
+Obj v__3519097_37= co->res;
+Obj v__3517782_37 = R[1];
+Obj v__3517783_37 = R[2];
+Obj v__3519098_37 = PRIM_EQ(v__3517782_37, getBinding(co, packageID, 124).name);
+if (True == v__3519098_37) {
+R[1] = v__3517783_37;
+saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v__3518966_37 = PRIM_EQ(v__3517663_37, getBinding(co, packageID, 111).name);
-if (True == v__3518966_37) {
-R[1] = v__3517664_37;
-saveCont(co, clofun93, 4, R);
+Obj v__3519101_37 = PRIM_EQ(v__3517782_37, getBinding(co, packageID, 112).name);
+if (True == v__3519101_37) {
+R[1] = v__3517783_37;
+saveCont(co, clofun96, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v__3518969_37 = PRIM_EQ(v__3517663_37, getBinding(co, packageID, 120).name);
-if (True == v__3518969_37) {
-R[1] = v__3517664_37;
-saveCont(co, clofun93, 6, R);
+Obj v__3519104_37 = PRIM_EQ(v__3517782_37, getBinding(co, packageID, 121).name);
+if (True == v__3519104_37) {
+R[1] = v__3517783_37;
+saveCont(co, clofun96, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = v__3517664_37;
-saveCont(co, clofun93, 8, R);
+R[1] = v__3517783_37;
+saveCont(co, clofun96, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3413,284 +3418,284 @@ return;
 }
 case 10:
 {
-Obj v__3518961_37= co->res;
-Obj v__3517663_37 = R[1];
-Obj v__3517664_37 = R[2];
-R[1] = v__3517663_37;
-R[2] = v__3517664_37;
-saveCont(co, clofun93, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3518961_37);
+Obj v__3519096_37= co->res;
+Obj v__3517782_37 = R[1];
+Obj v__3517783_37 = R[2];
+R[1] = v__3517782_37;
+R[2] = v__3517783_37;
+saveCont(co, clofun96, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3519096_37);
 return;
 }
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517640_37 = makeNative(co->gc, 5, clofun91, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518909_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518909_37) {
-Obj v__3518910_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518911_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518910_37);
-if (True == v__3518911_37) {
-Obj v__3518912_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518913_37 = PRIM_ISCONS(v__3518912_37);
-if (True == v__3518913_37) {
-Obj v__3518914_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518915_37 = PRIM_CAR(v__3518914_37);
-Obj v__3517660_37 = v__3518915_37;
-Obj v__3518916_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518917_37 = PRIM_CDR(v__3518916_37);
-Obj v__3518918_37 = PRIM_ISCONS(v__3518917_37);
-if (True == v__3518918_37) {
-Obj v__3518919_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518920_37 = PRIM_CDR(v__3518919_37);
-Obj v__3518921_37 = PRIM_CAR(v__3518920_37);
-Obj v__3517661_37 = v__3518921_37;
-Obj v__3518922_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518923_37 = PRIM_CDR(v__3518922_37);
-Obj v__3518924_37 = PRIM_CDR(v__3518923_37);
-Obj v__3518925_37 = PRIM_ISCONS(v__3518924_37);
-if (True == v__3518925_37) {
-Obj v__3518926_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518927_37 = PRIM_CDR(v__3518926_37);
-Obj v__3518928_37 = PRIM_CDR(v__3518927_37);
-Obj v__3518929_37 = PRIM_CAR(v__3518928_37);
-Obj v__3517662_37 = v__3518929_37;
-Obj v__3518930_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518931_37 = PRIM_CDR(v__3518930_37);
-Obj v__3518932_37 = PRIM_CDR(v__3518931_37);
-Obj v__3518933_37 = PRIM_CDR(v__3518932_37);
-Obj v__3518934_37 = PRIM_EQ(Nil, v__3518933_37);
-if (True == v__3518934_37) {
-R[1] = v__3517660_37;
-R[2] = v__3517661_37;
-R[3] = v__3517662_37;
-saveCont(co, clofun92, 9, R);
+Obj v__3517759_37 = makeNative(co->gc, 5, clofun94, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3519044_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3519044_37) {
+Obj v__3519045_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3519046_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3519045_37);
+if (True == v__3519046_37) {
+Obj v__3519047_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519048_37 = PRIM_ISCONS(v__3519047_37);
+if (True == v__3519048_37) {
+Obj v__3519049_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519050_37 = PRIM_CAR(v__3519049_37);
+Obj v__3517779_37 = v__3519050_37;
+Obj v__3519051_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519052_37 = PRIM_CDR(v__3519051_37);
+Obj v__3519053_37 = PRIM_ISCONS(v__3519052_37);
+if (True == v__3519053_37) {
+Obj v__3519054_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519055_37 = PRIM_CDR(v__3519054_37);
+Obj v__3519056_37 = PRIM_CAR(v__3519055_37);
+Obj v__3517780_37 = v__3519056_37;
+Obj v__3519057_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519058_37 = PRIM_CDR(v__3519057_37);
+Obj v__3519059_37 = PRIM_CDR(v__3519058_37);
+Obj v__3519060_37 = PRIM_ISCONS(v__3519059_37);
+if (True == v__3519060_37) {
+Obj v__3519061_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519062_37 = PRIM_CDR(v__3519061_37);
+Obj v__3519063_37 = PRIM_CDR(v__3519062_37);
+Obj v__3519064_37 = PRIM_CAR(v__3519063_37);
+Obj v__3517781_37 = v__3519064_37;
+Obj v__3519065_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519066_37 = PRIM_CDR(v__3519065_37);
+Obj v__3519067_37 = PRIM_CDR(v__3519066_37);
+Obj v__3519068_37 = PRIM_CDR(v__3519067_37);
+Obj v__3519069_37 = PRIM_EQ(Nil, v__3519068_37);
+if (True == v__3519069_37) {
+R[1] = v__3517779_37;
+R[2] = v__3517780_37;
+R[3] = v__3517781_37;
+saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518943_37= co->res;
+Obj v__3519078_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v__3518942_37= co->res;
-Obj v__3517662_37 = R[1];
-saveCont(co, clofun92, 1, R);
-coraCall2(co, v__3518942_37, v__3517662_37, closureRef(R[0], 4));
+Obj v__3519077_37= co->res;
+Obj v__3517781_37 = R[1];
+saveCont(co, clofun95, 1, R);
+coraCall2(co, v__3519077_37, v__3517781_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518941_37= co->res;
-Obj v__3517662_37 = R[1];
-R[1] = v__3517662_37;
-saveCont(co, clofun92, 2, R);
+Obj v__3519076_37= co->res;
+Obj v__3517781_37 = R[1];
+R[1] = v__3517781_37;
+saveCont(co, clofun95, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3518940_37= co->res;
-Obj v__3517662_37 = R[1];
-R[1] = v__3517662_37;
-saveCont(co, clofun92, 3, R);
+Obj v__3519075_37= co->res;
+Obj v__3517781_37 = R[1];
+R[1] = v__3517781_37;
+saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v__3518939_37= co->res;
-Obj v__3517661_37 = R[1];
-Obj v__3517662_37 = R[2];
-R[1] = v__3517662_37;
-saveCont(co, clofun92, 4, R);
-coraCall2(co, v__3518939_37, v__3517661_37, closureRef(R[0], 4));
+Obj v__3519074_37= co->res;
+Obj v__3517780_37 = R[1];
+Obj v__3517781_37 = R[2];
+R[1] = v__3517781_37;
+saveCont(co, clofun95, 4, R);
+coraCall2(co, v__3519074_37, v__3517780_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3518938_37= co->res;
-Obj v__3517661_37 = R[1];
-Obj v__3517662_37 = R[2];
-R[1] = v__3517661_37;
-R[2] = v__3517662_37;
-saveCont(co, clofun92, 5, R);
+Obj v__3519073_37= co->res;
+Obj v__3517780_37 = R[1];
+Obj v__3517781_37 = R[2];
+R[1] = v__3517780_37;
+R[2] = v__3517781_37;
+saveCont(co, clofun95, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v__3518937_37= co->res;
-Obj v__3517661_37 = R[1];
-Obj v__3517662_37 = R[2];
-R[1] = v__3517661_37;
-R[2] = v__3517662_37;
-saveCont(co, clofun92, 6, R);
+Obj v__3519072_37= co->res;
+Obj v__3517780_37 = R[1];
+Obj v__3517781_37 = R[2];
+R[1] = v__3517780_37;
+R[2] = v__3517781_37;
+saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v__3518936_37= co->res;
-Obj v__3517660_37 = R[1];
-Obj v__3517661_37 = R[2];
-Obj v__3517662_37 = R[3];
-R[1] = v__3517661_37;
-R[2] = v__3517662_37;
-saveCont(co, clofun92, 7, R);
-coraCall2(co, v__3518936_37, v__3517660_37, closureRef(R[0], 4));
+Obj v__3519071_37= co->res;
+Obj v__3517779_37 = R[1];
+Obj v__3517780_37 = R[2];
+Obj v__3517781_37 = R[3];
+R[1] = v__3517780_37;
+R[2] = v__3517781_37;
+saveCont(co, clofun95, 7, R);
+coraCall2(co, v__3519071_37, v__3517779_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v__3518935_37= co->res;
-Obj v__3517660_37 = R[1];
-Obj v__3517661_37 = R[2];
-Obj v__3517662_37 = R[3];
-R[1] = v__3517660_37;
-R[2] = v__3517661_37;
-R[3] = v__3517662_37;
-saveCont(co, clofun92, 8, R);
+Obj v__3519070_37= co->res;
+Obj v__3517779_37 = R[1];
+Obj v__3517780_37 = R[2];
+Obj v__3517781_37 = R[3];
+R[1] = v__3517779_37;
+R[2] = v__3517780_37;
+R[3] = v__3517781_37;
+saveCont(co, clofun95, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517641_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v__3518871_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518871_37) {
-Obj v__3518872_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518873_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518872_37);
-if (True == v__3518873_37) {
-Obj v__3518874_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518875_37 = PRIM_ISCONS(v__3518874_37);
-if (True == v__3518875_37) {
-Obj v__3518876_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518877_37 = PRIM_CAR(v__3518876_37);
-Obj v__3517656_37 = v__3518877_37;
-Obj v__3518878_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518879_37 = PRIM_CDR(v__3518878_37);
-Obj v__3518880_37 = PRIM_ISCONS(v__3518879_37);
-if (True == v__3518880_37) {
-Obj v__3518881_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518882_37 = PRIM_CDR(v__3518881_37);
-Obj v__3518883_37 = PRIM_CAR(v__3518882_37);
-Obj v__3517657_37 = v__3518883_37;
-Obj v__3518884_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518885_37 = PRIM_CDR(v__3518884_37);
-Obj v__3518886_37 = PRIM_CDR(v__3518885_37);
-Obj v__3518887_37 = PRIM_ISCONS(v__3518886_37);
-if (True == v__3518887_37) {
-Obj v__3518888_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518889_37 = PRIM_CDR(v__3518888_37);
-Obj v__3518890_37 = PRIM_CDR(v__3518889_37);
-Obj v__3518891_37 = PRIM_CAR(v__3518890_37);
-Obj v__3517658_37 = v__3518891_37;
-Obj v__3518892_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518893_37 = PRIM_CDR(v__3518892_37);
-Obj v__3518894_37 = PRIM_CDR(v__3518893_37);
-Obj v__3518895_37 = PRIM_CDR(v__3518894_37);
-Obj v__3517659_37 = v__3518895_37;
-R[1] = v__3517658_37;
-R[2] = v__3517656_37;
-R[3] = v__3517657_37;
-R[4] = v__3517659_37;
-saveCont(co, clofun91, 12, R);
+Obj v__3517760_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3519006_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3519006_37) {
+Obj v__3519007_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519008_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3519007_37);
+if (True == v__3519008_37) {
+Obj v__3519009_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519010_37 = PRIM_ISCONS(v__3519009_37);
+if (True == v__3519010_37) {
+Obj v__3519011_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519012_37 = PRIM_CAR(v__3519011_37);
+Obj v__3517775_37 = v__3519012_37;
+Obj v__3519013_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519014_37 = PRIM_CDR(v__3519013_37);
+Obj v__3519015_37 = PRIM_ISCONS(v__3519014_37);
+if (True == v__3519015_37) {
+Obj v__3519016_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519017_37 = PRIM_CDR(v__3519016_37);
+Obj v__3519018_37 = PRIM_CAR(v__3519017_37);
+Obj v__3517776_37 = v__3519018_37;
+Obj v__3519019_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519020_37 = PRIM_CDR(v__3519019_37);
+Obj v__3519021_37 = PRIM_CDR(v__3519020_37);
+Obj v__3519022_37 = PRIM_ISCONS(v__3519021_37);
+if (True == v__3519022_37) {
+Obj v__3519023_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519024_37 = PRIM_CDR(v__3519023_37);
+Obj v__3519025_37 = PRIM_CDR(v__3519024_37);
+Obj v__3519026_37 = PRIM_CAR(v__3519025_37);
+Obj v__3517777_37 = v__3519026_37;
+Obj v__3519027_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519028_37 = PRIM_CDR(v__3519027_37);
+Obj v__3519029_37 = PRIM_CDR(v__3519028_37);
+Obj v__3519030_37 = PRIM_CDR(v__3519029_37);
+Obj v__3517778_37 = v__3519030_37;
+R[1] = v__3517777_37;
+R[2] = v__3517775_37;
+R[3] = v__3517776_37;
+R[4] = v__3517778_37;
+saveCont(co, clofun94, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518908_37= co->res;
+Obj v__3519043_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3518907_37= co->res;
-Obj v__3517659_37 = R[1];
-saveCont(co, clofun91, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517659_37};
+Obj v__3519042_37= co->res;
+Obj v__3517778_37 = R[1];
+saveCont(co, clofun94, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517778_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3518905_37= co->res;
-Obj v__3517659_37 = R[1];
-Obj v__3518906_37 = primNot(v__3518905_37);
-if (True == v__3518906_37) {
-R[1] = v__3517659_37;
-saveCont(co, clofun91, 2, R);
+Obj v__3519040_37= co->res;
+Obj v__3517778_37 = R[1];
+Obj v__3519041_37 = primNot(v__3519040_37);
+if (True == v__3519041_37) {
+R[1] = v__3517778_37;
+saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3702,639 +3707,639 @@ return;
 }
 case 4:
 {
-Obj v__3518904_37= co->res;
-Obj v__3517659_37 = R[1];
-R[1] = v__3517659_37;
-saveCont(co, clofun91, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517659_37);
+Obj v__3519039_37= co->res;
+Obj v__3517778_37 = R[1];
+R[1] = v__3517778_37;
+saveCont(co, clofun94, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517778_37);
 return;
 }
 case 5:
 {
-Obj v__3518903_37= co->res;
-Obj v__3517659_37 = R[1];
-R[1] = v__3517659_37;
-saveCont(co, clofun91, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3518903_37);
+Obj v__3519038_37= co->res;
+Obj v__3517778_37 = R[1];
+R[1] = v__3517778_37;
+saveCont(co, clofun94, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519038_37);
 return;
 }
 case 6:
 {
-Obj v__3518902_37= co->res;
-Obj v__3517659_37 = R[1];
-R[1] = v__3517659_37;
-saveCont(co, clofun91, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3517659_37);
+Obj v__3519037_37= co->res;
+Obj v__3517778_37 = R[1];
+R[1] = v__3517778_37;
+saveCont(co, clofun94, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3517778_37);
 return;
 }
 case 7:
 {
-Obj v__3518901_37= co->res;
-Obj v__3517659_37 = R[1];
-R[1] = v__3517659_37;
-saveCont(co, clofun91, 6, R);
+Obj v__3519036_37= co->res;
+Obj v__3517778_37 = R[1];
+R[1] = v__3517778_37;
+saveCont(co, clofun94, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v__3518900_37= co->res;
-Obj v__3517657_37 = R[1];
-Obj v__3517659_37 = R[2];
-R[1] = v__3517659_37;
-saveCont(co, clofun91, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517657_37);
+Obj v__3519035_37= co->res;
+Obj v__3517776_37 = R[1];
+Obj v__3517778_37 = R[2];
+R[1] = v__3517778_37;
+saveCont(co, clofun94, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517776_37);
 return;
 }
 case 9:
 {
-Obj v__3518899_37= co->res;
-Obj v__3517657_37 = R[1];
-Obj v__3517659_37 = R[2];
-R[1] = v__3517657_37;
-R[2] = v__3517659_37;
-saveCont(co, clofun91, 8, R);
+Obj v__3519034_37= co->res;
+Obj v__3517776_37 = R[1];
+Obj v__3517778_37 = R[2];
+R[1] = v__3517776_37;
+R[2] = v__3517778_37;
+saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v__3518898_37= co->res;
-Obj v__3517656_37 = R[1];
-Obj v__3517657_37 = R[2];
-Obj v__3517659_37 = R[3];
-R[1] = v__3517657_37;
-R[2] = v__3517659_37;
-saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), v__3517656_37);
+Obj v__3519033_37= co->res;
+Obj v__3517775_37 = R[1];
+Obj v__3517776_37 = R[2];
+Obj v__3517778_37 = R[3];
+R[1] = v__3517776_37;
+R[2] = v__3517778_37;
+saveCont(co, clofun94, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), v__3517775_37);
 return;
 }
 case 11:
 {
-Obj v__3518897_37= co->res;
-Obj v__3517656_37 = R[1];
-Obj v__3517657_37 = R[2];
-Obj v__3517659_37 = R[3];
-R[1] = v__3517656_37;
-R[2] = v__3517657_37;
-R[3] = v__3517659_37;
-saveCont(co, clofun91, 10, R);
+Obj v__3519032_37= co->res;
+Obj v__3517775_37 = R[1];
+Obj v__3517776_37 = R[2];
+Obj v__3517778_37 = R[3];
+R[1] = v__3517775_37;
+R[2] = v__3517776_37;
+R[3] = v__3517778_37;
+saveCont(co, clofun94, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v__3518896_37= co->res;
-Obj v__3517658_37 = R[1];
-Obj v__3517656_37 = R[2];
-Obj v__3517657_37 = R[3];
-Obj v__3517659_37 = R[4];
-R[1] = v__3517656_37;
-R[2] = v__3517657_37;
-R[3] = v__3517659_37;
-saveCont(co, clofun91, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517658_37);
+Obj v__3519031_37= co->res;
+Obj v__3517777_37 = R[1];
+Obj v__3517775_37 = R[2];
+Obj v__3517776_37 = R[3];
+Obj v__3517778_37 = R[4];
+R[1] = v__3517775_37;
+R[2] = v__3517776_37;
+R[3] = v__3517778_37;
+saveCont(co, clofun94, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517777_37);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517642_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3518850_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518850_37) {
-Obj v__3518851_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518852_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518851_37);
-if (True == v__3518852_37) {
-Obj v__3518853_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518854_37 = PRIM_ISCONS(v__3518853_37);
-if (True == v__3518854_37) {
-Obj v__3518855_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518856_37 = PRIM_CAR(v__3518855_37);
-Obj v__3517654_37 = v__3518856_37;
-Obj v__3518857_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518858_37 = PRIM_CDR(v__3518857_37);
-Obj v__3518859_37 = PRIM_ISCONS(v__3518858_37);
-if (True == v__3518859_37) {
-Obj v__3518860_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518861_37 = PRIM_CDR(v__3518860_37);
-Obj v__3518862_37 = PRIM_CAR(v__3518861_37);
-Obj v__3517655_37 = v__3518862_37;
-Obj v__3518863_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518864_37 = PRIM_CDR(v__3518863_37);
-Obj v__3518865_37 = PRIM_CDR(v__3518864_37);
-Obj v__3518866_37 = PRIM_EQ(Nil, v__3518865_37);
-if (True == v__3518866_37) {
-R[1] = v__3517654_37;
-R[2] = v__3517655_37;
-saveCont(co, clofun90, 4, R);
+Obj v__3517761_37 = makeNative(co->gc, 2, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3518985_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518985_37) {
+Obj v__3518986_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518987_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518986_37);
+if (True == v__3518987_37) {
+Obj v__3518988_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518989_37 = PRIM_ISCONS(v__3518988_37);
+if (True == v__3518989_37) {
+Obj v__3518990_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518991_37 = PRIM_CAR(v__3518990_37);
+Obj v__3517773_37 = v__3518991_37;
+Obj v__3518992_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518993_37 = PRIM_CDR(v__3518992_37);
+Obj v__3518994_37 = PRIM_ISCONS(v__3518993_37);
+if (True == v__3518994_37) {
+Obj v__3518995_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
+Obj v__3518997_37 = PRIM_CAR(v__3518996_37);
+Obj v__3517774_37 = v__3518997_37;
+Obj v__3518998_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518999_37 = PRIM_CDR(v__3518998_37);
+Obj v__3519000_37 = PRIM_CDR(v__3518999_37);
+Obj v__3519001_37 = PRIM_EQ(Nil, v__3519000_37);
+if (True == v__3519001_37) {
+R[1] = v__3517773_37;
+R[2] = v__3517774_37;
+saveCont(co, clofun93, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518870_37= co->res;
-Obj v__3517655_37 = R[1];
+Obj v__3519005_37= co->res;
+Obj v__3517774_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, v__3518870_37, v__3517655_37, closureRef(R[0], 5));
+coraCall2(co, v__3519005_37, v__3517774_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v__3518869_37= co->res;
-Obj v__3517655_37 = R[1];
-R[1] = v__3517655_37;
-saveCont(co, clofun90, 1, R);
+Obj v__3519004_37= co->res;
+Obj v__3517774_37 = R[1];
+R[1] = v__3517774_37;
+saveCont(co, clofun93, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518868_37= co->res;
-Obj v__3517655_37 = R[1];
-R[1] = v__3517655_37;
-saveCont(co, clofun90, 2, R);
+Obj v__3519003_37= co->res;
+Obj v__3517774_37 = R[1];
+R[1] = v__3517774_37;
+saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3518867_37= co->res;
-Obj v__3517654_37 = R[1];
-Obj v__3517655_37 = R[2];
-R[1] = v__3517655_37;
-saveCont(co, clofun90, 3, R);
-coraCall2(co, v__3518867_37, v__3517654_37, closureRef(R[0], 5));
+Obj v__3519002_37= co->res;
+Obj v__3517773_37 = R[1];
+Obj v__3517774_37 = R[2];
+R[1] = v__3517774_37;
+saveCont(co, clofun93, 3, R);
+coraCall2(co, v__3519002_37, v__3517773_37, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517643_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518836_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518836_37) {
-Obj v__3518837_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518838_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518837_37);
-if (True == v__3518838_37) {
-Obj v__3518839_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518840_37 = PRIM_ISCONS(v__3518839_37);
-if (True == v__3518840_37) {
-Obj v__3518841_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518842_37 = PRIM_CAR(v__3518841_37);
-Obj v__3517653_37 = v__3518842_37;
-Obj v__3518843_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518844_37 = PRIM_CDR(v__3518843_37);
-Obj v__3518845_37 = PRIM_EQ(Nil, v__3518844_37);
-if (True == v__3518845_37) {
-R[1] = v__3517653_37;
-saveCont(co, clofun89, 4, R);
+Obj v__3517762_37 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518971_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518971_37) {
+Obj v__3518972_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518973_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518972_37);
+if (True == v__3518973_37) {
+Obj v__3518974_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518975_37 = PRIM_ISCONS(v__3518974_37);
+if (True == v__3518975_37) {
+Obj v__3518976_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518977_37 = PRIM_CAR(v__3518976_37);
+Obj v__3517772_37 = v__3518977_37;
+Obj v__3518978_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518979_37 = PRIM_CDR(v__3518978_37);
+Obj v__3518980_37 = PRIM_EQ(Nil, v__3518979_37);
+if (True == v__3518980_37) {
+R[1] = v__3517772_37;
+saveCont(co, clofun92, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517643_37);
+coraCall0(co, v__3517762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517643_37);
+coraCall0(co, v__3517762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517643_37);
+coraCall0(co, v__3517762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517643_37);
+coraCall0(co, v__3517762_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518849_37= co->res;
+Obj v__3518984_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518848_37= co->res;
-saveCont(co, clofun89, 1, R);
+Obj v__3518983_37= co->res;
+saveCont(co, clofun92, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v__3518847_37= co->res;
-Obj v__3517653_37 = R[1];
-saveCont(co, clofun89, 2, R);
-coraCall2(co, v__3518847_37, v__3517653_37, closureRef(R[0], 4));
+Obj v__3518982_37= co->res;
+Obj v__3517772_37 = R[1];
+saveCont(co, clofun92, 2, R);
+coraCall2(co, v__3518982_37, v__3517772_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3518846_37= co->res;
-Obj v__3517653_37 = R[1];
-R[1] = v__3517653_37;
-saveCont(co, clofun89, 3, R);
+Obj v__3518981_37= co->res;
+Obj v__3517772_37 = R[1];
+R[1] = v__3517772_37;
+saveCont(co, clofun92, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517644_37 = makeNative(co->gc, 3, clofun87, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518823_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518823_37) {
-Obj v__3518824_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518825_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3518824_37);
-if (True == v__3518825_37) {
-Obj v__3518826_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518827_37 = PRIM_ISCONS(v__3518826_37);
-if (True == v__3518827_37) {
-Obj v__3518828_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518829_37 = PRIM_CAR(v__3518828_37);
-Obj v__3517652_37 = v__3518829_37;
-Obj v__3518830_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518831_37 = PRIM_CDR(v__3518830_37);
-Obj v__3518832_37 = PRIM_EQ(Nil, v__3518831_37);
-if (True == v__3518832_37) {
-R[1] = v__3517652_37;
-saveCont(co, clofun88, 3, R);
+Obj v__3517763_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518958_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518958_37) {
+Obj v__3518959_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518960_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3518959_37);
+if (True == v__3518960_37) {
+Obj v__3518961_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518962_37 = PRIM_ISCONS(v__3518961_37);
+if (True == v__3518962_37) {
+Obj v__3518963_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518964_37 = PRIM_CAR(v__3518963_37);
+Obj v__3517771_37 = v__3518964_37;
+Obj v__3518965_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518966_37 = PRIM_CDR(v__3518965_37);
+Obj v__3518967_37 = PRIM_EQ(Nil, v__3518966_37);
+if (True == v__3518967_37) {
+R[1] = v__3517771_37;
+saveCont(co, clofun91, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517644_37);
+coraCall0(co, v__3517763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517644_37);
+coraCall0(co, v__3517763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517644_37);
+coraCall0(co, v__3517763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517644_37);
+coraCall0(co, v__3517763_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518835_37= co->res;
+Obj v__3518970_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518834_37= co->res;
-Obj v__3517652_37 = R[1];
-saveCont(co, clofun88, 1, R);
-coraCall2(co, v__3518834_37, v__3517652_37, closureRef(R[0], 4));
+Obj v__3518969_37= co->res;
+Obj v__3517771_37 = R[1];
+saveCont(co, clofun91, 1, R);
+coraCall2(co, v__3518969_37, v__3517771_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518833_37= co->res;
-Obj v__3517652_37 = R[1];
-R[1] = v__3517652_37;
-saveCont(co, clofun88, 2, R);
+Obj v__3518968_37= co->res;
+Obj v__3517771_37 = R[1];
+R[1] = v__3517771_37;
+saveCont(co, clofun91, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517645_37 = makeNative(co->gc, 4, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518799_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518799_37) {
-Obj v__3518800_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518801_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518800_37);
-if (True == v__3518801_37) {
-Obj v__3518802_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518803_37 = PRIM_ISCONS(v__3518802_37);
-if (True == v__3518803_37) {
-Obj v__3518804_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518805_37 = PRIM_CAR(v__3518804_37);
-Obj v__3517649_37 = v__3518805_37;
-Obj v__3518806_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518807_37 = PRIM_CDR(v__3518806_37);
-Obj v__3518808_37 = PRIM_ISCONS(v__3518807_37);
-if (True == v__3518808_37) {
-Obj v__3518809_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518810_37 = PRIM_CDR(v__3518809_37);
-Obj v__3518811_37 = PRIM_CAR(v__3518810_37);
-Obj v__3517650_37 = v__3518811_37;
-Obj v__3518812_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518813_37 = PRIM_CDR(v__3518812_37);
-Obj v__3518814_37 = PRIM_CDR(v__3518813_37);
-Obj v__3517651_37 = v__3518814_37;
-R[1] = v__3517650_37;
-R[2] = v__3517649_37;
-saveCont(co, clofun87, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517651_37};
+Obj v__3517764_37 = makeNative(co->gc, 4, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518934_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518934_37) {
+Obj v__3518935_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518936_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518935_37);
+if (True == v__3518936_37) {
+Obj v__3518937_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518938_37 = PRIM_ISCONS(v__3518937_37);
+if (True == v__3518938_37) {
+Obj v__3518939_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518940_37 = PRIM_CAR(v__3518939_37);
+Obj v__3517768_37 = v__3518940_37;
+Obj v__3518941_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518942_37 = PRIM_CDR(v__3518941_37);
+Obj v__3518943_37 = PRIM_ISCONS(v__3518942_37);
+if (True == v__3518943_37) {
+Obj v__3518944_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518945_37 = PRIM_CDR(v__3518944_37);
+Obj v__3518946_37 = PRIM_CAR(v__3518945_37);
+Obj v__3517769_37 = v__3518946_37;
+Obj v__3518947_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518948_37 = PRIM_CDR(v__3518947_37);
+Obj v__3518949_37 = PRIM_CDR(v__3518948_37);
+Obj v__3517770_37 = v__3518949_37;
+R[1] = v__3517769_37;
+R[2] = v__3517768_37;
+saveCont(co, clofun90, 8, R);
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517770_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 51)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517645_37);
+coraCall0(co, v__3517764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517645_37);
+coraCall0(co, v__3517764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517645_37);
+coraCall0(co, v__3517764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517645_37);
+coraCall0(co, v__3517764_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518822_37= co->res;
+Obj v__3518957_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518821_37= co->res;
-Obj v__3517649_37 = R[1];
-saveCont(co, clofun87, 1, R);
-coraCall2(co, v__3518821_37, v__3517649_37, closureRef(R[0], 4));
+Obj v__3518956_37= co->res;
+Obj v__3517768_37 = R[1];
+saveCont(co, clofun90, 1, R);
+coraCall2(co, v__3518956_37, v__3517768_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518820_37= co->res;
-Obj v__3517649_37 = R[1];
-R[1] = v__3517649_37;
-saveCont(co, clofun87, 2, R);
+Obj v__3518955_37= co->res;
+Obj v__3517768_37 = R[1];
+R[1] = v__3517768_37;
+saveCont(co, clofun90, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3518819_37= co->res;
-Obj v__3517649_37 = R[1];
-R[1] = v__3517649_37;
-saveCont(co, clofun87, 3, R);
+Obj v__3518954_37= co->res;
+Obj v__3517768_37 = R[1];
+R[1] = v__3517768_37;
+saveCont(co, clofun90, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v__3518818_37= co->res;
-Obj v__3517650_37 = R[1];
-Obj v__3517649_37 = R[2];
-R[1] = v__3517649_37;
-saveCont(co, clofun87, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517650_37);
+Obj v__3518953_37= co->res;
+Obj v__3517769_37 = R[1];
+Obj v__3517768_37 = R[2];
+R[1] = v__3517768_37;
+saveCont(co, clofun90, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517769_37);
 return;
 }
 case 6:
 {
-Obj v__3518817_37= co->res;
-Obj v__3517650_37 = R[1];
-Obj v__3517649_37 = R[2];
-R[1] = v__3517650_37;
-R[2] = v__3517649_37;
-saveCont(co, clofun87, 5, R);
+Obj v__3518952_37= co->res;
+Obj v__3517769_37 = R[1];
+Obj v__3517768_37 = R[2];
+R[1] = v__3517769_37;
+R[2] = v__3517768_37;
+saveCont(co, clofun90, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v__3518816_37= co->res;
-Obj v__3517650_37 = R[1];
-Obj v__3517649_37 = R[2];
-R[1] = v__3517650_37;
-R[2] = v__3517649_37;
-saveCont(co, clofun87, 6, R);
+Obj v__3518951_37= co->res;
+Obj v__3517769_37 = R[1];
+Obj v__3517768_37 = R[2];
+R[1] = v__3517769_37;
+R[2] = v__3517768_37;
+saveCont(co, clofun90, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v__3518815_37= co->res;
-Obj v__3517650_37 = R[1];
-Obj v__3517649_37 = R[2];
-R[1] = v__3517650_37;
-R[2] = v__3517649_37;
-saveCont(co, clofun87, 7, R);
+Obj v__3518950_37= co->res;
+Obj v__3517769_37 = R[1];
+Obj v__3517768_37 = R[2];
+R[1] = v__3517769_37;
+R[2] = v__3517768_37;
+saveCont(co, clofun90, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518776_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518776_37) {
-Obj v__3518777_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517646_37 = v__3518777_37;
-Obj v__3518778_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517647_37 = v__3518778_37;
-R[1] = v__3517646_37;
-R[2] = v__3517647_37;
-saveCont(co, clofun86, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3517647_37);
+Obj v__3518911_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518911_37) {
+Obj v__3518912_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517765_37 = v__3518912_37;
+Obj v__3518913_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517766_37 = v__3518913_37;
+R[1] = v__3517765_37;
+R[2] = v__3517766_37;
+saveCont(co, clofun89, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3517766_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3518790_37= co->res;
+Obj v__3518925_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v__3518789_37= co->res;
-Obj v__3517648_37 = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517648_37);
+Obj v__3518924_37= co->res;
+Obj v__3517767_37 = R[1];
+saveCont(co, clofun89, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517767_37);
 return;
 }
 case 3:
 {
-Obj v__3518788_37= co->res;
-Obj v__3517648_37 = R[1];
-R[1] = v__3517648_37;
-saveCont(co, clofun86, 2, R);
+Obj v__3518923_37= co->res;
+Obj v__3517767_37 = R[1];
+R[1] = v__3517767_37;
+saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3518787_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517648_37 = R[2];
-R[1] = v__3517648_37;
-saveCont(co, clofun86, 3, R);
-coraCall2(co, v__3518787_37, v__3517646_37, closureRef(R[0], 4));
+Obj v__3518922_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517767_37 = R[2];
+R[1] = v__3517767_37;
+saveCont(co, clofun89, 3, R);
+coraCall2(co, v__3518922_37, v__3517765_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v__3518786_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517648_37 = R[2];
-R[1] = v__3517646_37;
-R[2] = v__3517648_37;
-saveCont(co, clofun86, 4, R);
+Obj v__3518921_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517767_37 = R[2];
+R[1] = v__3517765_37;
+R[2] = v__3517767_37;
+saveCont(co, clofun89, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v__3518785_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517648_37 = R[2];
-R[1] = v__3517646_37;
-R[2] = v__3517648_37;
-saveCont(co, clofun86, 5, R);
+Obj v__3518920_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517767_37 = R[2];
+R[1] = v__3517765_37;
+R[2] = v__3517767_37;
+saveCont(co, clofun89, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v__3518784_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517648_37 = R[2];
-R[1] = v__3517646_37;
-R[2] = v__3517648_37;
-saveCont(co, clofun86, 6, R);
+Obj v__3518919_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517767_37 = R[2];
+R[1] = v__3517765_37;
+R[2] = v__3517767_37;
+saveCont(co, clofun89, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v__3518783_37= co->res;
-Obj v__3517647_37 = R[1];
-Obj v__3517646_37 = R[2];
-Obj v__3517648_37 = R[3];
-R[1] = v__3517646_37;
-R[2] = v__3517648_37;
-saveCont(co, clofun86, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517647_37};
+Obj v__3518918_37= co->res;
+Obj v__3517766_37 = R[1];
+Obj v__3517765_37 = R[2];
+Obj v__3517767_37 = R[3];
+R[1] = v__3517765_37;
+R[2] = v__3517767_37;
+saveCont(co, clofun89, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517766_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3518782_37= co->res;
-Obj v__3517647_37 = R[1];
-Obj v__3517646_37 = R[2];
-Obj v__3517648_37 = R[3];
-R[1] = v__3517647_37;
-R[2] = v__3517646_37;
-R[3] = v__3517648_37;
-saveCont(co, clofun86, 8, R);
+Obj v__3518917_37= co->res;
+Obj v__3517766_37 = R[1];
+Obj v__3517765_37 = R[2];
+Obj v__3517767_37 = R[3];
+R[1] = v__3517766_37;
+R[2] = v__3517765_37;
+R[3] = v__3517767_37;
+saveCont(co, clofun89, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v__3518781_37= co->res;
-Obj v__3517647_37 = R[1];
-Obj v__3517646_37 = R[2];
-Obj v__3517648_37 = R[3];
-R[1] = v__3517647_37;
-R[2] = v__3517646_37;
-R[3] = v__3517648_37;
-saveCont(co, clofun86, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517648_37);
+Obj v__3518916_37= co->res;
+Obj v__3517766_37 = R[1];
+Obj v__3517765_37 = R[2];
+Obj v__3517767_37 = R[3];
+R[1] = v__3517766_37;
+R[2] = v__3517765_37;
+R[3] = v__3517767_37;
+saveCont(co, clofun89, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517767_37);
 return;
 }
 case 11:
 {
-Obj v__3518798_37= co->res;
+Obj v__3518933_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3518797_37= co->res;
-Obj v__3517647_37 = R[1];
-saveCont(co, clofun86, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517647_37};
+Obj v__3518932_37= co->res;
+Obj v__3517766_37 = R[1];
+saveCont(co, clofun89, 11, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517766_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v__3518795_37= co->res;
-Obj v__3517648_37 = R[1];
-Obj v__3517647_37 = R[2];
-Obj v__3518796_37 = PRIM_GT(v__3517648_37, MAKE_NUMBER(0));
-if (True == v__3518796_37) {
-R[1] = v__3517647_37;
-saveCont(co, clofun86, 12, R);
+Obj v__3518930_37= co->res;
+Obj v__3517767_37 = R[1];
+Obj v__3517766_37 = R[2];
+Obj v__3518931_37 = PRIM_GT(v__3517767_37, MAKE_NUMBER(0));
+if (True == v__3518931_37) {
+R[1] = v__3517766_37;
+saveCont(co, clofun89, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4346,74 +4351,74 @@ return;
 }
 case 14:
 {
-Obj v__3518794_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517648_37 = R[2];
-Obj v__3517647_37 = R[3];
-R[1] = v__3517648_37;
-R[2] = v__3517647_37;
-saveCont(co, clofun86, 13, R);
-coraCall2(co, v__3518794_37, v__3517646_37, closureRef(R[0], 4));
+Obj v__3518929_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517767_37 = R[2];
+Obj v__3517766_37 = R[3];
+R[1] = v__3517767_37;
+R[2] = v__3517766_37;
+saveCont(co, clofun89, 13, R);
+coraCall2(co, v__3518929_37, v__3517765_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v__3518793_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517648_37 = R[2];
-Obj v__3517647_37 = R[3];
-R[1] = v__3517646_37;
-R[2] = v__3517648_37;
-R[3] = v__3517647_37;
-saveCont(co, clofun86, 14, R);
+Obj v__3518928_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517767_37 = R[2];
+Obj v__3517766_37 = R[3];
+R[1] = v__3517765_37;
+R[2] = v__3517767_37;
+R[3] = v__3517766_37;
+saveCont(co, clofun89, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v__3518792_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517648_37 = R[2];
-Obj v__3517647_37 = R[3];
-R[1] = v__3517646_37;
-R[2] = v__3517648_37;
-R[3] = v__3517647_37;
-saveCont(co, clofun86, 15, R);
+Obj v__3518927_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517767_37 = R[2];
+Obj v__3517766_37 = R[3];
+R[1] = v__3517765_37;
+R[2] = v__3517767_37;
+R[3] = v__3517766_37;
+saveCont(co, clofun89, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v__3518791_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517648_37 = R[2];
-Obj v__3517647_37 = R[3];
-R[1] = v__3517646_37;
-R[2] = v__3517648_37;
-R[3] = v__3517647_37;
-saveCont(co, clofun86, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517648_37);
+Obj v__3518926_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517767_37 = R[2];
+Obj v__3517766_37 = R[3];
+R[1] = v__3517765_37;
+R[2] = v__3517767_37;
+R[3] = v__3517766_37;
+saveCont(co, clofun89, 16, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517767_37);
 return;
 }
 case 18:
 {
-Obj v__3518779_37= co->res;
-Obj v__3517646_37 = R[1];
-Obj v__3517647_37 = R[2];
-Obj v__3517648_37 = v__3518779_37;
-Obj v__3518780_37 = PRIM_GT(v__3517648_37, MAKE_NUMBER(4));
-if (True == v__3518780_37) {
-R[1] = v__3517647_37;
-R[2] = v__3517646_37;
-R[3] = v__3517648_37;
-saveCont(co, clofun86, 10, R);
+Obj v__3518914_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517766_37 = R[2];
+Obj v__3517767_37 = v__3518914_37;
+Obj v__3518915_37 = PRIM_GT(v__3517767_37, MAKE_NUMBER(4));
+if (True == v__3518915_37) {
+R[1] = v__3517766_37;
+R[2] = v__3517765_37;
+R[3] = v__3517767_37;
+saveCont(co, clofun89, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = v__3517646_37;
-R[2] = v__3517648_37;
-R[3] = v__3517647_37;
-saveCont(co, clofun86, 17, R);
+R[1] = v__3517765_37;
+R[2] = v__3517767_37;
+R[3] = v__3517766_37;
+saveCont(co, clofun89, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4421,7 +4426,7 @@ return;
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4431,13 +4436,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun84, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun87, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4445,52 +4450,52 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun84, 5, R);
+saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v__3518771_37= co->res;
+Obj v__3518906_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518772_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518772_37);
+Obj v__3518907_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518907_37);
 return;
 }
 case 2:
 {
-Obj v__3518770_37= co->res;
+Obj v__3518905_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun84, 1, R);
+saveCont(co, clofun87, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v__3518769_37= co->res;
+Obj v__3518904_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun84, 2, R);
+saveCont(co, clofun87, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj v__3518768_37= co->res;
+Obj v__3518903_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun84, 3, R);
+saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v__3518767_37= co->res;
+Obj v__3518902_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun84, 4, R);
+saveCont(co, clofun87, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
@@ -4498,7 +4503,7 @@ return;
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4508,13 +4513,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun82, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun85, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4522,64 +4527,64 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun82, 5, R);
+saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v__3518764_37= co->res;
+Obj v__3518899_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518765_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518765_37);
+Obj v__3518900_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518900_37);
 return;
 }
 case 2:
 {
-Obj v__3518763_37= co->res;
+Obj v__3518898_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun82, 1, R);
+saveCont(co, clofun85, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3518762_37= co->res;
+Obj v__3518897_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun82, 2, R);
+saveCont(co, clofun85, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3518761_37= co->res;
+Obj v__3518896_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun82, 3, R);
+saveCont(co, clofun85, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v__3518760_37= co->res;
+Obj v__3518895_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun82, 4, R);
+saveCont(co, clofun85, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4592,7 +4597,7 @@ return;
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4602,30 +4607,30 @@ Obj v_globals = R[3];
 R[1] = v_idx;
 R[2] = v_globals;
 R[3] = v_sym;
-saveCont(co, clofun80, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v_globals);
+saveCont(co, clofun83, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v_globals);
 return;
 }
 case 1:
 {
-Obj v__3518753_37= co->res;
+Obj v__3518888_37= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v__3518753_37) {
+if (True == v__3518888_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3518754_37 = PRIM_CAR(v_globals);
-Obj v__3518755_37 = PRIM_EQ(v_sym, v__3518754_37);
-if (True == v__3518755_37) {
+Obj v__3518889_37 = PRIM_CAR(v_globals);
+Obj v__3518890_37 = PRIM_EQ(v_sym, v__3518889_37);
+if (True == v__3518890_37) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v__3518756_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v__3518757_37 = PRIM_CDR(v_globals);
+Obj v__3518891_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v__3518892_37 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3518756_37, v_sym, v__3518757_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3518891_37, v_sym, v__3518892_37);
 return;
 }
 }
@@ -4633,7 +4638,7 @@ return;
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4641,72 +4646,72 @@ Obj v_sym = R[1];
 Obj v_globals = R[2];
 R[1] = v_sym;
 R[2] = v_globals;
-saveCont(co, clofun79, 2, R);
+saveCont(co, clofun82, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_globals);
 return;
 }
 case 1:
 {
-Obj v__3518749_37= co->res;
+Obj v__3518884_37= co->res;
 Obj v_sym = R[1];
-Obj v__3517633_37 = R[2];
+Obj v__3517752_37 = R[2];
 Obj v_globals = R[3];
-if (True == v__3518749_37) {
+if (True == v__3518884_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518750_37 = makeCons(co->gc, v_sym, v__3517633_37);
-Obj v__3518751_37 = primSet(co, v_globals, v__3518750_37);
-coraReturn(co, v__3518751_37);
+Obj v__3518885_37 = makeCons(co->gc, v_sym, v__3517752_37);
+Obj v__3518886_37 = primSet(co, v_globals, v__3518885_37);
+coraReturn(co, v__3518886_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518748_37= co->res;
+Obj v__3518883_37= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v__3517633_37 = v__3518748_37;
+Obj v__3517752_37 = v__3518883_37;
 R[1] = v_sym;
-R[2] = v__3517633_37;
+R[2] = v__3517752_37;
 R[3] = v_globals;
-saveCont(co, clofun79, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_sym, v__3517633_37);
+saveCont(co, clofun82, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_sym, v__3517752_37);
 return;
 }
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v__3518741_37 = primGenSym(co);
-Obj v__3517632_37 = v__3518741_37;
+Obj v__3518876_37 = primGenSym(co);
+Obj v__3517751_37 = v__3518876_37;
 R[1] = v_x;
-R[2] = v__3517632_37;
-saveCont(co, clofun78, 1, R);
-coraCall1(co, v_k, v__3517632_37);
+R[2] = v__3517751_37;
+saveCont(co, clofun81, 1, R);
+coraCall1(co, v_k, v__3517751_37);
 return;
 }
 case 1:
 {
-Obj v__3518742_37= co->res;
+Obj v__3518877_37= co->res;
 Obj v_x = R[1];
-Obj v__3517632_37 = R[2];
-Obj v__3518743_37 = makeCons(co->gc, v__3518742_37, Nil);
-Obj v__3518744_37 = makeCons(co->gc, v_x, v__3518743_37);
-Obj v__3518745_37 = makeCons(co->gc, v__3517632_37, v__3518744_37);
-Obj v__3518746_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518745_37);
-coraReturn(co, v__3518746_37);
+Obj v__3517751_37 = R[2];
+Obj v__3518878_37 = makeCons(co->gc, v__3518877_37, Nil);
+Obj v__3518879_37 = makeCons(co->gc, v_x, v__3518878_37);
+Obj v__3518880_37 = makeCons(co->gc, v__3517751_37, v__3518879_37);
+Obj v__3518881_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518880_37);
+coraReturn(co, v__3518881_37);
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4714,258 +4719,258 @@ Obj v_v = R[1];
 Obj v_val = R[2];
 R[1] = v_val;
 R[2] = v_v;
-saveCont(co, clofun77, 3, R);
+saveCont(co, clofun80, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v__3518739_37= co->res;
+Obj v__3518874_37= co->res;
 Obj v_v = R[1];
-Obj v__3517631_37 = R[2];
+Obj v__3517750_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1), v__3517631_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1), v__3517750_37);
 return;
 }
 case 2:
 {
-Obj v__3518734_37= co->res;
+Obj v__3518869_37= co->res;
 Obj v_val = R[1];
-Obj v__3517629_37 = R[2];
+Obj v__3517748_37 = R[2];
 Obj v_v = R[3];
-Obj v__3517630_37 = v__3518734_37;
-Obj v__3518735_37 = makeCons(co->gc, v_val, Nil);
-Obj v__3518736_37 = makeCons(co->gc, v__3517629_37, v__3518735_37);
-Obj v__3518737_37 = makeCons(co->gc, v__3518736_37, v__3517630_37);
-Obj v__3517631_37 = v__3518737_37;
-Obj v__3518738_37 = PRIM_ADD(v__3517629_37, MAKE_NUMBER(1));
+Obj v__3517749_37 = v__3518869_37;
+Obj v__3518870_37 = makeCons(co->gc, v_val, Nil);
+Obj v__3518871_37 = makeCons(co->gc, v__3517748_37, v__3518870_37);
+Obj v__3518872_37 = makeCons(co->gc, v__3518871_37, v__3517749_37);
+Obj v__3517750_37 = v__3518872_37;
+Obj v__3518873_37 = PRIM_ADD(v__3517748_37, MAKE_NUMBER(1));
 R[1] = v_v;
-R[2] = v__3517631_37;
-saveCont(co, clofun77, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0), v__3518738_37);
+R[2] = v__3517750_37;
+saveCont(co, clofun80, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0), v__3518873_37);
 return;
 }
 case 3:
 {
-Obj v__3518733_37= co->res;
+Obj v__3518868_37= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v__3517629_37 = v__3518733_37;
+Obj v__3517748_37 = v__3518868_37;
 R[1] = v_val;
-R[2] = v__3517629_37;
+R[2] = v__3517748_37;
 R[3] = v_v;
-saveCont(co, clofun77, 2, R);
+saveCont(co, clofun80, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517406_37 = R[1];
-Obj v__3517407_37 = R[2];
-Obj v__3517621_37 = makeNative(co->gc, 1, clofun75, 0, 2, v__3517406_37, v__3517407_37);
-Obj v__3518684_37 = PRIM_ISCONS(v__3517407_37);
-if (True == v__3518684_37) {
-Obj v__3518685_37 = PRIM_CAR(v__3517407_37);
-Obj v__3518686_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518685_37);
-if (True == v__3518686_37) {
-Obj v__3518687_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518688_37 = PRIM_ISCONS(v__3518687_37);
-if (True == v__3518688_37) {
-Obj v__3518689_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518690_37 = PRIM_CAR(v__3518689_37);
-Obj v__3518691_37 = PRIM_ISCONS(v__3518690_37);
-if (True == v__3518691_37) {
-Obj v__3518692_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518693_37 = PRIM_CAR(v__3518692_37);
-Obj v__3518694_37 = PRIM_CAR(v__3518693_37);
-Obj v__3518695_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518694_37);
-if (True == v__3518695_37) {
-Obj v__3518696_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518697_37 = PRIM_CAR(v__3518696_37);
-Obj v__3518698_37 = PRIM_CDR(v__3518697_37);
-Obj v__3518699_37 = PRIM_ISCONS(v__3518698_37);
-if (True == v__3518699_37) {
-Obj v__3518700_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518701_37 = PRIM_CAR(v__3518700_37);
-Obj v__3518702_37 = PRIM_CDR(v__3518701_37);
-Obj v__3518703_37 = PRIM_CAR(v__3518702_37);
-Obj v__3517622_37 = v__3518703_37;
-Obj v__3518704_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518705_37 = PRIM_CAR(v__3518704_37);
-Obj v__3518706_37 = PRIM_CDR(v__3518705_37);
-Obj v__3518707_37 = PRIM_CDR(v__3518706_37);
-Obj v__3518708_37 = PRIM_ISCONS(v__3518707_37);
-if (True == v__3518708_37) {
-Obj v__3518709_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518710_37 = PRIM_CAR(v__3518709_37);
-Obj v__3518711_37 = PRIM_CDR(v__3518710_37);
-Obj v__3518712_37 = PRIM_CDR(v__3518711_37);
-Obj v__3518713_37 = PRIM_CAR(v__3518712_37);
-Obj v__3517623_37 = v__3518713_37;
-Obj v__3518714_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518715_37 = PRIM_CAR(v__3518714_37);
-Obj v__3518716_37 = PRIM_CDR(v__3518715_37);
-Obj v__3518717_37 = PRIM_CDR(v__3518716_37);
-Obj v__3518718_37 = PRIM_CDR(v__3518717_37);
-Obj v__3518719_37 = PRIM_EQ(Nil, v__3518718_37);
-if (True == v__3518719_37) {
-Obj v__3518720_37 = PRIM_CDR(v__3517407_37);
-Obj v__3518721_37 = PRIM_CDR(v__3518720_37);
-Obj v__3517624_37 = v__3518721_37;
-R[1] = v__3517406_37;
-R[2] = v__3517622_37;
-R[3] = v__3517624_37;
-saveCont(co, clofun76, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517406_37, v__3517623_37);
+Obj v__3517518_37 = R[1];
+Obj v__3517519_37 = R[2];
+Obj v__3517740_37 = makeNative(co->gc, 1, clofun78, 0, 2, v__3517518_37, v__3517519_37);
+Obj v__3518819_37 = PRIM_ISCONS(v__3517519_37);
+if (True == v__3518819_37) {
+Obj v__3518820_37 = PRIM_CAR(v__3517519_37);
+Obj v__3518821_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518820_37);
+if (True == v__3518821_37) {
+Obj v__3518822_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518823_37 = PRIM_ISCONS(v__3518822_37);
+if (True == v__3518823_37) {
+Obj v__3518824_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518825_37 = PRIM_CAR(v__3518824_37);
+Obj v__3518826_37 = PRIM_ISCONS(v__3518825_37);
+if (True == v__3518826_37) {
+Obj v__3518827_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518828_37 = PRIM_CAR(v__3518827_37);
+Obj v__3518829_37 = PRIM_CAR(v__3518828_37);
+Obj v__3518830_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518829_37);
+if (True == v__3518830_37) {
+Obj v__3518831_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518832_37 = PRIM_CAR(v__3518831_37);
+Obj v__3518833_37 = PRIM_CDR(v__3518832_37);
+Obj v__3518834_37 = PRIM_ISCONS(v__3518833_37);
+if (True == v__3518834_37) {
+Obj v__3518835_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518836_37 = PRIM_CAR(v__3518835_37);
+Obj v__3518837_37 = PRIM_CDR(v__3518836_37);
+Obj v__3518838_37 = PRIM_CAR(v__3518837_37);
+Obj v__3517741_37 = v__3518838_37;
+Obj v__3518839_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518840_37 = PRIM_CAR(v__3518839_37);
+Obj v__3518841_37 = PRIM_CDR(v__3518840_37);
+Obj v__3518842_37 = PRIM_CDR(v__3518841_37);
+Obj v__3518843_37 = PRIM_ISCONS(v__3518842_37);
+if (True == v__3518843_37) {
+Obj v__3518844_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518845_37 = PRIM_CAR(v__3518844_37);
+Obj v__3518846_37 = PRIM_CDR(v__3518845_37);
+Obj v__3518847_37 = PRIM_CDR(v__3518846_37);
+Obj v__3518848_37 = PRIM_CAR(v__3518847_37);
+Obj v__3517742_37 = v__3518848_37;
+Obj v__3518849_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518850_37 = PRIM_CAR(v__3518849_37);
+Obj v__3518851_37 = PRIM_CDR(v__3518850_37);
+Obj v__3518852_37 = PRIM_CDR(v__3518851_37);
+Obj v__3518853_37 = PRIM_CDR(v__3518852_37);
+Obj v__3518854_37 = PRIM_EQ(Nil, v__3518853_37);
+if (True == v__3518854_37) {
+Obj v__3518855_37 = PRIM_CDR(v__3517519_37);
+Obj v__3518856_37 = PRIM_CDR(v__3518855_37);
+Obj v__3517743_37 = v__3518856_37;
+R[1] = v__3517518_37;
+R[2] = v__3517741_37;
+R[3] = v__3517743_37;
+saveCont(co, clofun79, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517518_37, v__3517742_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517740_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517740_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518727_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517624_37 = R[2];
-Obj v__3517626_37 = R[3];
-Obj v__3518728_37 = makeCons(co->gc, v__3517628_37, v__3517624_37);
-Obj v__3518729_37 = makeCons(co->gc, v__3518727_37, v__3518728_37);
-Obj v__3518730_37 = makeCons(co->gc, v__3517626_37, v__3518729_37);
-Obj v__3518731_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518730_37);
-coraReturn(co, v__3518731_37);
+Obj v__3518862_37= co->res;
+Obj v__3517747_37 = R[1];
+Obj v__3517743_37 = R[2];
+Obj v__3517745_37 = R[3];
+Obj v__3518863_37 = makeCons(co->gc, v__3517747_37, v__3517743_37);
+Obj v__3518864_37 = makeCons(co->gc, v__3518862_37, v__3518863_37);
+Obj v__3518865_37 = makeCons(co->gc, v__3517745_37, v__3518864_37);
+Obj v__3518866_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518865_37);
+coraReturn(co, v__3518866_37);
 return;
 }
 case 2:
 {
-Obj v__3518726_37= co->res;
-Obj v__3517622_37 = R[1];
-Obj v__3517628_37 = R[2];
-Obj v__3517624_37 = R[3];
-Obj v__3517626_37 = R[4];
-R[1] = v__3517628_37;
-R[2] = v__3517624_37;
-R[3] = v__3517626_37;
-saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3517622_37);
+Obj v__3518861_37= co->res;
+Obj v__3517741_37 = R[1];
+Obj v__3517747_37 = R[2];
+Obj v__3517743_37 = R[3];
+Obj v__3517745_37 = R[4];
+R[1] = v__3517747_37;
+R[2] = v__3517743_37;
+R[3] = v__3517745_37;
+saveCont(co, clofun79, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3517741_37);
 return;
 }
 case 3:
 {
-Obj v__3518725_37= co->res;
-Obj v__3517406_37 = R[1];
-Obj v__3517627_37 = R[2];
-Obj v__3517622_37 = R[3];
-Obj v__3517624_37 = R[4];
-Obj v__3517626_37 = R[5];
-Obj v__3517628_37 = v__3518725_37;
-R[1] = v__3517622_37;
-R[2] = v__3517628_37;
-R[3] = v__3517624_37;
-R[4] = v__3517626_37;
-saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517406_37, v__3517627_37);
+Obj v__3518860_37= co->res;
+Obj v__3517518_37 = R[1];
+Obj v__3517746_37 = R[2];
+Obj v__3517741_37 = R[3];
+Obj v__3517743_37 = R[4];
+Obj v__3517745_37 = R[5];
+Obj v__3517747_37 = v__3518860_37;
+R[1] = v__3517741_37;
+R[2] = v__3517747_37;
+R[3] = v__3517743_37;
+R[4] = v__3517745_37;
+saveCont(co, clofun79, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517518_37, v__3517746_37);
 return;
 }
 case 4:
 {
-Obj v__3518724_37= co->res;
-Obj v__3517406_37 = R[1];
-Obj v__3517622_37 = R[2];
-Obj v__3517624_37 = R[3];
-Obj v__3517626_37 = R[4];
-Obj v__3517627_37 = v__3518724_37;
-R[1] = v__3517406_37;
-R[2] = v__3517627_37;
-R[3] = v__3517622_37;
-R[4] = v__3517624_37;
-R[5] = v__3517626_37;
-saveCont(co, clofun76, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517627_37);
+Obj v__3518859_37= co->res;
+Obj v__3517518_37 = R[1];
+Obj v__3517741_37 = R[2];
+Obj v__3517743_37 = R[3];
+Obj v__3517745_37 = R[4];
+Obj v__3517746_37 = v__3518859_37;
+R[1] = v__3517518_37;
+R[2] = v__3517746_37;
+R[3] = v__3517741_37;
+R[4] = v__3517743_37;
+R[5] = v__3517745_37;
+saveCont(co, clofun79, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517746_37);
 return;
 }
 case 5:
 {
-Obj v__3518723_37= co->res;
-Obj v__3517625_37 = R[1];
-Obj v__3517406_37 = R[2];
-Obj v__3517622_37 = R[3];
-Obj v__3517624_37 = R[4];
-Obj v__3517626_37 = v__3518723_37;
-R[1] = v__3517406_37;
-R[2] = v__3517622_37;
-R[3] = v__3517624_37;
-R[4] = v__3517626_37;
-saveCont(co, clofun76, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), v__3517622_37, v__3517625_37);
+Obj v__3518858_37= co->res;
+Obj v__3517744_37 = R[1];
+Obj v__3517518_37 = R[2];
+Obj v__3517741_37 = R[3];
+Obj v__3517743_37 = R[4];
+Obj v__3517745_37 = v__3518858_37;
+R[1] = v__3517518_37;
+R[2] = v__3517741_37;
+R[3] = v__3517743_37;
+R[4] = v__3517745_37;
+saveCont(co, clofun79, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), v__3517741_37, v__3517744_37);
 return;
 }
 case 6:
 {
-Obj v__3518722_37= co->res;
-Obj v__3517406_37 = R[1];
-Obj v__3517622_37 = R[2];
-Obj v__3517624_37 = R[3];
-Obj v__3517625_37 = v__3518722_37;
-R[1] = v__3517625_37;
-R[2] = v__3517406_37;
-R[3] = v__3517622_37;
-R[4] = v__3517624_37;
-saveCont(co, clofun76, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3517406_37, MAKE_NUMBER(0));
+Obj v__3518857_37= co->res;
+Obj v__3517518_37 = R[1];
+Obj v__3517741_37 = R[2];
+Obj v__3517743_37 = R[3];
+Obj v__3517744_37 = v__3518857_37;
+R[1] = v__3517744_37;
+R[2] = v__3517518_37;
+R[3] = v__3517741_37;
+R[4] = v__3517743_37;
+saveCont(co, clofun79, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3517518_37, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518682_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518682_37) {
-saveCont(co, clofun75, 1, R);
+Obj v__3518817_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518817_37) {
+saveCont(co, clofun78, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 0));
 return;
 } else {
@@ -4975,75 +4980,75 @@ return;
 }
 case 1:
 {
-Obj v__3518683_37= co->res;
+Obj v__3518818_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518683_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518818_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun74, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v_lam);
+saveCont(co, clofun77, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_lam);
 return;
 }
 case 1:
 {
-Obj v__3518680_37= co->res;
-Obj v__3518679_37 = R[1];
+Obj v__3518815_37= co->res;
+Obj v__3518814_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), makeNative(co->gc, 3, clofun73, 2, 0), v__3518679_37, v__3518680_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun76, 2, 0), v__3518814_37, v__3518815_37);
 return;
 }
 case 2:
 {
-Obj v__3518674_37= co->res;
+Obj v__3518809_37= co->res;
 Obj v_lam = R[1];
-Obj v__3517619_37 = v__3518674_37;
-Obj v__3518679_37 = PRIM_ADD(v__3517619_37, MAKE_NUMBER(1));
-R[1] = v__3518679_37;
-saveCont(co, clofun74, 1, R);
+Obj v__3517738_37 = v__3518809_37;
+Obj v__3518814_37 = PRIM_ADD(v__3517738_37, MAKE_NUMBER(1));
+R[1] = v__3518814_37;
+saveCont(co, clofun77, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_lam);
 return;
 }
 case 3:
 {
-Obj v__3518673_37= co->res;
+Obj v__3518808_37= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun74, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3518673_37);
+saveCont(co, clofun77, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3518808_37);
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_acc = R[1];
 Obj v_x = R[2];
 R[1] = v_acc;
-saveCont(co, clofun73, 2, R);
+saveCont(co, clofun76, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_x);
 return;
 }
 case 1:
 {
-Obj v__3518676_37= co->res;
+Obj v__3518811_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518677_37 = PRIM_ADD(v__3518676_37, MAKE_NUMBER(1));
-Obj v__3517620_37 = v__3518677_37;
-Obj v__3518678_37 = PRIM_GT(v__3517620_37, v_acc);
-if (True == v__3518678_37) {
-coraReturn(co, v__3517620_37);
+Obj v__3518812_37 = PRIM_ADD(v__3518811_37, MAKE_NUMBER(1));
+Obj v__3517739_37 = v__3518812_37;
+Obj v__3518813_37 = PRIM_GT(v__3517739_37, v_acc);
+if (True == v__3518813_37) {
+coraReturn(co, v__3517739_37);
 return;
 } else {
 coraReturn(co, v_acc);
@@ -5052,79 +5057,79 @@ return;
 }
 case 2:
 {
-Obj v__3518675_37= co->res;
+Obj v__3518810_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3518675_37);
+saveCont(co, clofun76, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3518810_37);
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_params = R[1];
 Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v_body, Nil, makeNative(co->gc, 3, clofun71, 2, 1, v_params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v_body, Nil, makeNative(co->gc, 3, clofun74, 2, 1, v_params));
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body1 = R[1];
 Obj v_conts = R[2];
 R[1] = v_body1;
-saveCont(co, clofun71, 1, R);
+saveCont(co, clofun74, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v_conts);
 return;
 }
 case 1:
 {
-Obj v__3518668_37= co->res;
+Obj v__3518803_37= co->res;
 Obj v_body1 = R[1];
-Obj v__3518669_37 = makeCons(co->gc, v_body1, v__3518668_37);
-Obj v__3518670_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518669_37);
-Obj v__3518671_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518670_37);
-coraReturn(co, v__3518671_37);
+Obj v__3518804_37 = makeCons(co->gc, v_body1, v__3518803_37);
+Obj v__3518805_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518804_37);
+Obj v__3518806_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518805_37);
+coraReturn(co, v__3518806_37);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517400_37 = R[1];
-Obj v__3517401_37 = R[2];
-Obj v__3517402_37 = R[3];
-Obj v__3517403_37 = R[4];
-Obj v__3518662_37 = PRIM_EQ(Nil, v__3517400_37);
-if (True == v__3518662_37) {
+Obj v__3517512_37 = R[1];
+Obj v__3517513_37 = R[2];
+Obj v__3517514_37 = R[3];
+Obj v__3517515_37 = R[4];
+Obj v__3518797_37 = PRIM_EQ(Nil, v__3517512_37);
+if (True == v__3518797_37) {
 co->ctx.sp = R;
-coraCall2(co, v__3517403_37, v__3517402_37, v__3517401_37);
+coraCall2(co, v__3517515_37, v__3517514_37, v__3517513_37);
 return;
 } else {
-Obj v__3518663_37 = PRIM_ISCONS(v__3517400_37);
-if (True == v__3518663_37) {
-Obj v__3518664_37 = PRIM_CAR(v__3517400_37);
-Obj v__3517617_37 = v__3518664_37;
-Obj v__3518665_37 = PRIM_CDR(v__3517400_37);
-Obj v__3517618_37 = v__3518665_37;
+Obj v__3518798_37 = PRIM_ISCONS(v__3517512_37);
+if (True == v__3518798_37) {
+Obj v__3518799_37 = PRIM_CAR(v__3517512_37);
+Obj v__3517736_37 = v__3518799_37;
+Obj v__3518800_37 = PRIM_CDR(v__3517512_37);
+Obj v__3517737_37 = v__3518800_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3517617_37, v__3517401_37, makeNative(co->gc, 3, clofun69, 2, 3, v__3517618_37, v__3517402_37, v__3517403_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3517736_37, v__3517513_37, makeNative(co->gc, 3, clofun72, 2, 3, v__3517737_37, v__3517514_37, v__3517515_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5132,131 +5137,131 @@ return;
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_f1 = R[1];
 Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun68, 2, 2, closureRef(R[0], 2), v_f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun71, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v__3518666_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v__3518801_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518666_37, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v__3518801_37, v_conts2);
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517394_37 = R[1];
-Obj v__3517395_37 = R[2];
-Obj v__3517396_37 = R[3];
-Obj v__3517610_37 = makeNative(co->gc, 2, clofun66, 1, 3, v__3517394_37, v__3517395_37, v__3517396_37);
-Obj v__3518659_37 = primIsSymbol(v__3517394_37);
-if (True == v__3518659_37) {
+Obj v__3517506_37 = R[1];
+Obj v__3517507_37 = R[2];
+Obj v__3517508_37 = R[3];
+Obj v__3517729_37 = makeNative(co->gc, 2, clofun69, 1, 3, v__3517506_37, v__3517507_37, v__3517508_37);
+Obj v__3518794_37 = primIsSymbol(v__3517506_37);
+if (True == v__3518794_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517610_37, True);
+coraCall1(co, v__3517729_37, True);
 return;
 } else {
-R[1] = v__3517610_37;
-saveCont(co, clofun67, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517394_37);
+R[1] = v__3517729_37;
+saveCont(co, clofun70, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517506_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518660_37= co->res;
-Obj v__3517610_37 = R[1];
-if (True == v__3518660_37) {
+Obj v__3518795_37= co->res;
+Obj v__3517729_37 = R[1];
+if (True == v__3518795_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517610_37, True);
+coraCall1(co, v__3517729_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517610_37, False);
+coraCall1(co, v__3517729_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517609_37 = R[1];
-if (True == v__3517609_37) {
+Obj v__3517728_37 = R[1];
+if (True == v__3517728_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517611_37 = makeNative(co->gc, 1, clofun64, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518635_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518635_37) {
-Obj v__3518636_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518637_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518636_37);
-if (True == v__3518637_37) {
-Obj v__3518638_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518639_37 = PRIM_ISCONS(v__3518638_37);
-if (True == v__3518639_37) {
-Obj v__3518640_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518641_37 = PRIM_CAR(v__3518640_37);
-Obj v__3517614_37 = v__3518641_37;
-Obj v__3518642_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518643_37 = PRIM_CDR(v__3518642_37);
-Obj v__3518644_37 = PRIM_ISCONS(v__3518643_37);
-if (True == v__3518644_37) {
-Obj v__3518645_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518646_37 = PRIM_CDR(v__3518645_37);
-Obj v__3518647_37 = PRIM_CAR(v__3518646_37);
-Obj v__3517615_37 = v__3518647_37;
-Obj v__3518648_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518649_37 = PRIM_CDR(v__3518648_37);
-Obj v__3518650_37 = PRIM_CDR(v__3518649_37);
-Obj v__3518651_37 = PRIM_EQ(Nil, v__3518650_37);
-if (True == v__3518651_37) {
+Obj v__3517730_37 = makeNative(co->gc, 1, clofun67, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518770_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518770_37) {
+Obj v__3518771_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518772_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518771_37);
+if (True == v__3518772_37) {
+Obj v__3518773_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518774_37 = PRIM_ISCONS(v__3518773_37);
+if (True == v__3518774_37) {
+Obj v__3518775_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518776_37 = PRIM_CAR(v__3518775_37);
+Obj v__3517733_37 = v__3518776_37;
+Obj v__3518777_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518778_37 = PRIM_CDR(v__3518777_37);
+Obj v__3518779_37 = PRIM_ISCONS(v__3518778_37);
+if (True == v__3518779_37) {
+Obj v__3518780_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518781_37 = PRIM_CDR(v__3518780_37);
+Obj v__3518782_37 = PRIM_CAR(v__3518781_37);
+Obj v__3517734_37 = v__3518782_37;
+Obj v__3518783_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518784_37 = PRIM_CDR(v__3518783_37);
+Obj v__3518785_37 = PRIM_CDR(v__3518784_37);
+Obj v__3518786_37 = PRIM_EQ(Nil, v__3518785_37);
+if (True == v__3518786_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3517615_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun65, 2, 2, closureRef(R[0], 2), v__3517614_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3517734_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun68, 2, 2, closureRef(R[0], 2), v__3517733_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517611_37);
+coraCall0(co, v__3517730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517611_37);
+coraCall0(co, v__3517730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517611_37);
+coraCall0(co, v__3517730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517611_37);
+coraCall0(co, v__3517730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517611_37);
+coraCall0(co, v__3517730_37);
 return;
 }
 }
@@ -5264,7 +5269,7 @@ return;
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -5272,152 +5277,152 @@ Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
 R[1] = v_cont1;
 R[2] = v_conts1;
-saveCont(co, clofun65, 2, R);
+saveCont(co, clofun68, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_cont1);
 return;
 }
 case 1:
 {
-Obj v__3518653_37= co->res;
-Obj v__3517616_37 = R[1];
+Obj v__3518788_37= co->res;
+Obj v__3517735_37 = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v__3518654_37 = PRIM_ADD(v__3518653_37, MAKE_NUMBER(1));
-Obj v__3518655_37 = makeCons(co->gc, v__3518654_37, v__3517616_37);
-Obj v__3518656_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518655_37);
-Obj v__3518657_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518656_37);
-Obj v__3518658_37 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v__3518789_37 = PRIM_ADD(v__3518788_37, MAKE_NUMBER(1));
+Obj v__3518790_37 = makeCons(co->gc, v__3518789_37, v__3517735_37);
+Obj v__3518791_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518790_37);
+Obj v__3518792_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518791_37);
+Obj v__3518793_37 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518657_37, v__3518658_37);
+coraCall2(co, closureRef(R[0], 0), v__3518792_37, v__3518793_37);
 return;
 }
 case 2:
 {
-Obj v__3518652_37= co->res;
+Obj v__3518787_37= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v__3517616_37 = v__3518652_37;
-R[1] = v__3517616_37;
+Obj v__3517735_37 = v__3518787_37;
+R[1] = v__3517735_37;
 R[2] = v_cont1;
 R[3] = v_conts1;
-saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v_conts1);
+saveCont(co, clofun68, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v_conts1);
 return;
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518631_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518631_37) {
-Obj v__3518632_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517612_37 = v__3518632_37;
-Obj v__3518633_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517613_37 = v__3518633_37;
-Obj v__3518634_37 = makeCons(co->gc, v__3517612_37, v__3517613_37);
+Obj v__3518766_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518766_37) {
+Obj v__3518767_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517731_37 = v__3518767_37;
+Obj v__3518768_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517732_37 = v__3518768_37;
+Obj v__3518769_37 = makeCons(co->gc, v__3517731_37, v__3517732_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), v__3518634_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), v__3518769_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517386_37 = R[1];
-Obj v__3517387_37 = R[2];
-R[1] = v__3517387_37;
-R[2] = v__3517386_37;
-saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517387_37);
+Obj v__3517498_37 = R[1];
+Obj v__3517499_37 = R[2];
+R[1] = v__3517499_37;
+R[2] = v__3517498_37;
+saveCont(co, clofun66, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517499_37);
 return;
 }
 case 1:
 {
-Obj v__3518626_37= co->res;
-Obj v__3517606_37 = R[1];
-Obj v__3518627_37 = makeCons(co->gc, v__3518626_37, Nil);
-Obj v__3518628_37 = makeCons(co->gc, v__3517606_37, v__3518627_37);
-Obj v__3518629_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518628_37);
-coraReturn(co, v__3518629_37);
+Obj v__3518761_37= co->res;
+Obj v__3517725_37 = R[1];
+Obj v__3518762_37 = makeCons(co->gc, v__3518761_37, Nil);
+Obj v__3518763_37 = makeCons(co->gc, v__3517725_37, v__3518762_37);
+Obj v__3518764_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518763_37);
+coraReturn(co, v__3518764_37);
 return;
 }
 case 2:
 {
-Obj v__3518554_37= co->res;
-Obj v__3517387_37 = R[1];
-Obj v__3517386_37 = R[2];
-if (True == v__3518554_37) {
-coraReturn(co, v__3517387_37);
-return;
-} else {
-Obj v__3518555_37 = primIsSymbol(v__3517387_37);
-if (True == v__3518555_37) {
-coraReturn(co, v__3517387_37);
-return;
-} else {
-Obj v__3517595_37 = makeNative(co->gc, 4, clofun62, 0, 2, v__3517387_37, v__3517386_37);
-Obj v__3518609_37 = PRIM_ISCONS(v__3517387_37);
-if (True == v__3518609_37) {
-Obj v__3518610_37 = PRIM_CAR(v__3517387_37);
-Obj v__3518611_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518610_37);
-if (True == v__3518611_37) {
-Obj v__3518612_37 = PRIM_CDR(v__3517387_37);
-Obj v__3518613_37 = PRIM_ISCONS(v__3518612_37);
-if (True == v__3518613_37) {
-Obj v__3518614_37 = PRIM_CDR(v__3517387_37);
-Obj v__3518615_37 = PRIM_CAR(v__3518614_37);
-Obj v__3517606_37 = v__3518615_37;
-Obj v__3518616_37 = PRIM_CDR(v__3517387_37);
-Obj v__3518617_37 = PRIM_CDR(v__3518616_37);
-Obj v__3518618_37 = PRIM_ISCONS(v__3518617_37);
-if (True == v__3518618_37) {
-Obj v__3518619_37 = PRIM_CDR(v__3517387_37);
-Obj v__3518620_37 = PRIM_CDR(v__3518619_37);
-Obj v__3518621_37 = PRIM_CAR(v__3518620_37);
-Obj v__3517607_37 = v__3518621_37;
-Obj v__3518622_37 = PRIM_CDR(v__3517387_37);
-Obj v__3518623_37 = PRIM_CDR(v__3518622_37);
-Obj v__3518624_37 = PRIM_CDR(v__3518623_37);
-Obj v__3518625_37 = PRIM_EQ(Nil, v__3518624_37);
-if (True == v__3518625_37) {
-R[1] = v__3517606_37;
-saveCont(co, clofun63, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3517386_37, v__3517607_37);
+Obj v__3518689_37= co->res;
+Obj v__3517499_37 = R[1];
+Obj v__3517498_37 = R[2];
+if (True == v__3518689_37) {
+coraReturn(co, v__3517499_37);
+return;
+} else {
+Obj v__3518690_37 = primIsSymbol(v__3517499_37);
+if (True == v__3518690_37) {
+coraReturn(co, v__3517499_37);
+return;
+} else {
+Obj v__3517714_37 = makeNative(co->gc, 4, clofun65, 0, 2, v__3517499_37, v__3517498_37);
+Obj v__3518744_37 = PRIM_ISCONS(v__3517499_37);
+if (True == v__3518744_37) {
+Obj v__3518745_37 = PRIM_CAR(v__3517499_37);
+Obj v__3518746_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518745_37);
+if (True == v__3518746_37) {
+Obj v__3518747_37 = PRIM_CDR(v__3517499_37);
+Obj v__3518748_37 = PRIM_ISCONS(v__3518747_37);
+if (True == v__3518748_37) {
+Obj v__3518749_37 = PRIM_CDR(v__3517499_37);
+Obj v__3518750_37 = PRIM_CAR(v__3518749_37);
+Obj v__3517725_37 = v__3518750_37;
+Obj v__3518751_37 = PRIM_CDR(v__3517499_37);
+Obj v__3518752_37 = PRIM_CDR(v__3518751_37);
+Obj v__3518753_37 = PRIM_ISCONS(v__3518752_37);
+if (True == v__3518753_37) {
+Obj v__3518754_37 = PRIM_CDR(v__3517499_37);
+Obj v__3518755_37 = PRIM_CDR(v__3518754_37);
+Obj v__3518756_37 = PRIM_CAR(v__3518755_37);
+Obj v__3517726_37 = v__3518756_37;
+Obj v__3518757_37 = PRIM_CDR(v__3517499_37);
+Obj v__3518758_37 = PRIM_CDR(v__3518757_37);
+Obj v__3518759_37 = PRIM_CDR(v__3518758_37);
+Obj v__3518760_37 = PRIM_EQ(Nil, v__3518759_37);
+if (True == v__3518760_37) {
+R[1] = v__3517725_37;
+saveCont(co, clofun66, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3517498_37, v__3517726_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517595_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517595_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517595_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517595_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517595_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 }
@@ -5426,514 +5431,514 @@ return;
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517596_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518584_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518584_37) {
-Obj v__3518585_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518586_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518585_37);
-if (True == v__3518586_37) {
-Obj v__3518587_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518588_37 = PRIM_ISCONS(v__3518587_37);
-if (True == v__3518588_37) {
-Obj v__3518589_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518590_37 = PRIM_CAR(v__3518589_37);
-Obj v__3517602_37 = v__3518590_37;
-Obj v__3518591_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518592_37 = PRIM_CDR(v__3518591_37);
-Obj v__3518593_37 = PRIM_ISCONS(v__3518592_37);
-if (True == v__3518593_37) {
-Obj v__3518594_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518595_37 = PRIM_CDR(v__3518594_37);
-Obj v__3518596_37 = PRIM_CAR(v__3518595_37);
-Obj v__3517603_37 = v__3518596_37;
-Obj v__3518597_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518598_37 = PRIM_CDR(v__3518597_37);
-Obj v__3518599_37 = PRIM_CDR(v__3518598_37);
-Obj v__3518600_37 = PRIM_EQ(Nil, v__3518599_37);
-if (True == v__3518600_37) {
-R[1] = v__3517603_37;
-R[2] = v__3517602_37;
-saveCont(co, clofun62, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517603_37);
+Obj v__3517715_37 = makeNative(co->gc, 3, clofun64, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518719_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518719_37) {
+Obj v__3518720_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518721_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518720_37);
+if (True == v__3518721_37) {
+Obj v__3518722_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518723_37 = PRIM_ISCONS(v__3518722_37);
+if (True == v__3518723_37) {
+Obj v__3518724_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518725_37 = PRIM_CAR(v__3518724_37);
+Obj v__3517721_37 = v__3518725_37;
+Obj v__3518726_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518727_37 = PRIM_CDR(v__3518726_37);
+Obj v__3518728_37 = PRIM_ISCONS(v__3518727_37);
+if (True == v__3518728_37) {
+Obj v__3518729_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518730_37 = PRIM_CDR(v__3518729_37);
+Obj v__3518731_37 = PRIM_CAR(v__3518730_37);
+Obj v__3517722_37 = v__3518731_37;
+Obj v__3518732_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518733_37 = PRIM_CDR(v__3518732_37);
+Obj v__3518734_37 = PRIM_CDR(v__3518733_37);
+Obj v__3518735_37 = PRIM_EQ(Nil, v__3518734_37);
+if (True == v__3518735_37) {
+R[1] = v__3517722_37;
+R[2] = v__3517721_37;
+saveCont(co, clofun65, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517722_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517596_37);
+coraCall0(co, v__3517715_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517596_37);
+coraCall0(co, v__3517715_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517596_37);
+coraCall0(co, v__3517715_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517596_37);
+coraCall0(co, v__3517715_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517596_37);
+coraCall0(co, v__3517715_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518605_37= co->res;
-Obj v__3517605_37 = R[1];
-Obj v__3517602_37 = R[2];
-Obj v__3518606_37 = makeCons(co->gc, v__3518605_37, v__3517605_37);
-Obj v__3518607_37 = makeCons(co->gc, v__3517602_37, v__3518606_37);
-Obj v__3518608_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3518607_37);
-coraReturn(co, v__3518608_37);
+Obj v__3518740_37= co->res;
+Obj v__3517724_37 = R[1];
+Obj v__3517721_37 = R[2];
+Obj v__3518741_37 = makeCons(co->gc, v__3518740_37, v__3517724_37);
+Obj v__3518742_37 = makeCons(co->gc, v__3517721_37, v__3518741_37);
+Obj v__3518743_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3518742_37);
+coraReturn(co, v__3518743_37);
 return;
 }
 case 2:
 {
-Obj v__3518604_37= co->res;
-Obj v__3517604_37 = R[1];
-Obj v__3517603_37 = R[2];
-Obj v__3517602_37 = R[3];
-Obj v__3517605_37 = v__3518604_37;
-R[1] = v__3517605_37;
-R[2] = v__3517602_37;
-saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3517604_37, v__3517603_37);
+Obj v__3518739_37= co->res;
+Obj v__3517723_37 = R[1];
+Obj v__3517722_37 = R[2];
+Obj v__3517721_37 = R[3];
+Obj v__3517724_37 = v__3518739_37;
+R[1] = v__3517724_37;
+R[2] = v__3517721_37;
+saveCont(co, clofun65, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3517723_37, v__3517722_37);
 return;
 }
 case 3:
 {
-Obj v__3518603_37= co->res;
-Obj v__3517604_37 = R[1];
-Obj v__3517603_37 = R[2];
-Obj v__3517602_37 = R[3];
-R[1] = v__3517604_37;
-R[2] = v__3517603_37;
-R[3] = v__3517602_37;
-saveCont(co, clofun62, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518603_37, v__3517604_37);
+Obj v__3518738_37= co->res;
+Obj v__3517723_37 = R[1];
+Obj v__3517722_37 = R[2];
+Obj v__3517721_37 = R[3];
+R[1] = v__3517723_37;
+R[2] = v__3517722_37;
+R[3] = v__3517721_37;
+saveCont(co, clofun65, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518738_37, v__3517723_37);
 return;
 }
 case 4:
 {
-Obj v__3518602_37= co->res;
-Obj v__3517603_37 = R[1];
-Obj v__3517602_37 = R[2];
-Obj v__3517604_37 = v__3518602_37;
-R[1] = v__3517604_37;
-R[2] = v__3517603_37;
-R[3] = v__3517602_37;
-saveCont(co, clofun62, 3, R);
+Obj v__3518737_37= co->res;
+Obj v__3517722_37 = R[1];
+Obj v__3517721_37 = R[2];
+Obj v__3517723_37 = v__3518737_37;
+R[1] = v__3517723_37;
+R[2] = v__3517722_37;
+R[3] = v__3517721_37;
+saveCont(co, clofun65, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v__3518601_37= co->res;
-Obj v__3517603_37 = R[1];
-Obj v__3517602_37 = R[2];
-R[1] = v__3517603_37;
-R[2] = v__3517602_37;
-saveCont(co, clofun62, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518601_37, v__3517602_37);
+Obj v__3518736_37= co->res;
+Obj v__3517722_37 = R[1];
+Obj v__3517721_37 = R[2];
+R[1] = v__3517722_37;
+R[2] = v__3517721_37;
+saveCont(co, clofun65, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518736_37, v__3517721_37);
 return;
 }
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517597_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518561_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518561_37) {
-Obj v__3518562_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518563_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518562_37);
-if (True == v__3518563_37) {
-Obj v__3518564_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518565_37 = PRIM_ISCONS(v__3518564_37);
-if (True == v__3518565_37) {
-Obj v__3518566_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518567_37 = PRIM_CAR(v__3518566_37);
-Obj v__3517600_37 = v__3518567_37;
-Obj v__3518568_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518569_37 = PRIM_CDR(v__3518568_37);
-Obj v__3518570_37 = PRIM_ISCONS(v__3518569_37);
-if (True == v__3518570_37) {
-Obj v__3518571_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518572_37 = PRIM_CDR(v__3518571_37);
-Obj v__3518573_37 = PRIM_CAR(v__3518572_37);
-Obj v__3517601_37 = v__3518573_37;
-Obj v__3518574_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518575_37 = PRIM_CDR(v__3518574_37);
-Obj v__3518576_37 = PRIM_CDR(v__3518575_37);
-Obj v__3518577_37 = PRIM_EQ(Nil, v__3518576_37);
-if (True == v__3518577_37) {
-R[1] = v__3517600_37;
-R[2] = v__3517601_37;
-saveCont(co, clofun61, 3, R);
+Obj v__3517716_37 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518696_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518696_37) {
+Obj v__3518697_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518698_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518697_37);
+if (True == v__3518698_37) {
+Obj v__3518699_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518700_37 = PRIM_ISCONS(v__3518699_37);
+if (True == v__3518700_37) {
+Obj v__3518701_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518702_37 = PRIM_CAR(v__3518701_37);
+Obj v__3517719_37 = v__3518702_37;
+Obj v__3518703_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518704_37 = PRIM_CDR(v__3518703_37);
+Obj v__3518705_37 = PRIM_ISCONS(v__3518704_37);
+if (True == v__3518705_37) {
+Obj v__3518706_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518707_37 = PRIM_CDR(v__3518706_37);
+Obj v__3518708_37 = PRIM_CAR(v__3518707_37);
+Obj v__3517720_37 = v__3518708_37;
+Obj v__3518709_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518710_37 = PRIM_CDR(v__3518709_37);
+Obj v__3518711_37 = PRIM_CDR(v__3518710_37);
+Obj v__3518712_37 = PRIM_EQ(Nil, v__3518711_37);
+if (True == v__3518712_37) {
+R[1] = v__3517719_37;
+R[2] = v__3517720_37;
+saveCont(co, clofun64, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517597_37);
+coraCall0(co, v__3517716_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517597_37);
+coraCall0(co, v__3517716_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517597_37);
+coraCall0(co, v__3517716_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517597_37);
+coraCall0(co, v__3517716_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517597_37);
+coraCall0(co, v__3517716_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518580_37= co->res;
-Obj v__3518579_37 = R[1];
-Obj v__3518581_37 = makeCons(co->gc, v__3518580_37, Nil);
-Obj v__3518582_37 = makeCons(co->gc, v__3518579_37, v__3518581_37);
-Obj v__3518583_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518582_37);
-coraReturn(co, v__3518583_37);
+Obj v__3518715_37= co->res;
+Obj v__3518714_37 = R[1];
+Obj v__3518716_37 = makeCons(co->gc, v__3518715_37, Nil);
+Obj v__3518717_37 = makeCons(co->gc, v__3518714_37, v__3518716_37);
+Obj v__3518718_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518717_37);
+coraReturn(co, v__3518718_37);
 return;
 }
 case 2:
 {
-Obj v__3518579_37= co->res;
-Obj v__3517601_37 = R[1];
-R[1] = v__3518579_37;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), v__3517601_37);
+Obj v__3518714_37= co->res;
+Obj v__3517720_37 = R[1];
+R[1] = v__3518714_37;
+saveCont(co, clofun64, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), v__3517720_37);
 return;
 }
 case 3:
 {
-Obj v__3518578_37= co->res;
-Obj v__3517600_37 = R[1];
-Obj v__3517601_37 = R[2];
-R[1] = v__3517601_37;
-saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518578_37, v__3517600_37);
+Obj v__3518713_37= co->res;
+Obj v__3517719_37 = R[1];
+Obj v__3517720_37 = R[2];
+R[1] = v__3517720_37;
+saveCont(co, clofun64, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518713_37, v__3517719_37);
 return;
 }
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518556_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518556_37) {
-Obj v__3518557_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517598_37 = v__3518557_37;
-Obj v__3518558_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517599_37 = v__3518558_37;
-R[1] = v__3517598_37;
-R[2] = v__3517599_37;
-saveCont(co, clofun60, 1, R);
+Obj v__3518691_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518691_37) {
+Obj v__3518692_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517717_37 = v__3518692_37;
+Obj v__3518693_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517718_37 = v__3518693_37;
+R[1] = v__3517717_37;
+R[2] = v__3517718_37;
+saveCont(co, clofun63, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3518559_37= co->res;
-Obj v__3517598_37 = R[1];
-Obj v__3517599_37 = R[2];
-Obj v__3518560_37 = makeCons(co->gc, v__3517598_37, v__3517599_37);
+Obj v__3518694_37= co->res;
+Obj v__3517717_37 = R[1];
+Obj v__3517718_37 = R[2];
+Obj v__3518695_37 = makeCons(co->gc, v__3517717_37, v__3517718_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518559_37, v__3518560_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518694_37, v__3518695_37);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517381_37 = R[1];
-Obj v__3517382_37 = R[2];
-Obj v__3517383_37 = R[3];
-Obj v__3518531_37 = PRIM_EQ(Nil, v__3517381_37);
-if (True == v__3518531_37) {
-R[1] = v__3517383_37;
-saveCont(co, clofun59, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517382_37);
+Obj v__3517493_37 = R[1];
+Obj v__3517494_37 = R[2];
+Obj v__3517495_37 = R[3];
+Obj v__3518666_37 = PRIM_EQ(Nil, v__3517493_37);
+if (True == v__3518666_37) {
+R[1] = v__3517495_37;
+saveCont(co, clofun62, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517494_37);
 return;
 } else {
-Obj v__3518549_37 = PRIM_ISCONS(v__3517381_37);
-if (True == v__3518549_37) {
-Obj v__3518550_37 = PRIM_CAR(v__3517381_37);
-Obj v__3517593_37 = v__3518550_37;
-Obj v__3518551_37 = PRIM_CDR(v__3517381_37);
-Obj v__3517594_37 = v__3518551_37;
+Obj v__3518684_37 = PRIM_ISCONS(v__3517493_37);
+if (True == v__3518684_37) {
+Obj v__3518685_37 = PRIM_CAR(v__3517493_37);
+Obj v__3517712_37 = v__3518685_37;
+Obj v__3518686_37 = PRIM_CDR(v__3517493_37);
+Obj v__3517713_37 = v__3518686_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517593_37, makeNative(co->gc, 2, clofun58, 1, 3, v__3517594_37, v__3517382_37, v__3517383_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517712_37, makeNative(co->gc, 2, clofun61, 1, 3, v__3517713_37, v__3517494_37, v__3517495_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518547_37= co->res;
-Obj v__3517591_37 = R[1];
-Obj v__3518548_37 = PRIM_EQ(v__3518547_37, getBinding(co, packageID, 93).name);
-if (True == v__3518548_37) {
+Obj v__3518682_37= co->res;
+Obj v__3517710_37 = R[1];
+Obj v__3518683_37 = PRIM_EQ(v__3518682_37, getBinding(co, packageID, 92).name);
+if (True == v__3518683_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517591_37, True);
+coraCall1(co, v__3517710_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517591_37, False);
+coraCall1(co, v__3517710_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518546_37= co->res;
-Obj v__3517588_37 = R[1];
-Obj v__3517591_37 = R[2];
-if (True == v__3518546_37) {
-R[1] = v__3517591_37;
-saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3517588_37);
+Obj v__3518681_37= co->res;
+Obj v__3517707_37 = R[1];
+Obj v__3517710_37 = R[2];
+if (True == v__3518681_37) {
+R[1] = v__3517710_37;
+saveCont(co, clofun62, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3517707_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517591_37, False);
+coraCall1(co, v__3517710_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3518532_37= co->res;
-Obj v__3517383_37 = R[1];
-Obj v__3517588_37 = v__3518532_37;
-Obj v__3517591_37 = makeNative(co->gc, 2, clofun57, 1, 2, v__3517588_37, v__3517383_37);
-Obj v__3518545_37 = PRIM_CAR(v__3517588_37);
-R[1] = v__3517588_37;
-R[2] = v__3517591_37;
-saveCont(co, clofun59, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3518545_37);
+Obj v__3518667_37= co->res;
+Obj v__3517495_37 = R[1];
+Obj v__3517707_37 = v__3518667_37;
+Obj v__3517710_37 = makeNative(co->gc, 2, clofun60, 1, 2, v__3517707_37, v__3517495_37);
+Obj v__3518680_37 = PRIM_CAR(v__3517707_37);
+R[1] = v__3517707_37;
+R[2] = v__3517710_37;
+saveCont(co, clofun62, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3518680_37);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v__3518552_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v__3518687_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), v__3518552_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), v__3518687_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517590_37 = R[1];
-if (True == v__3517590_37) {
+Obj v__3517709_37 = R[1];
+if (True == v__3517709_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3518533_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
-if (True == v__3518533_37) {
-Obj v__3518534_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3518535_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3518534_37);
-coraReturn(co, v__3518535_37);
+Obj v__3518668_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
+if (True == v__3518668_37) {
+Obj v__3518669_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3518670_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3518669_37);
+coraReturn(co, v__3518670_37);
 return;
 } else {
-Obj v__3518536_37 = primGenSym(co);
-Obj v__3517592_37 = v__3518536_37;
-Obj v__3518537_37 = makeCons(co->gc, v__3517592_37, Nil);
-R[1] = v__3518537_37;
-saveCont(co, clofun57, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3517592_37);
+Obj v__3518671_37 = primGenSym(co);
+Obj v__3517711_37 = v__3518671_37;
+Obj v__3518672_37 = makeCons(co->gc, v__3517711_37, Nil);
+R[1] = v__3518672_37;
+saveCont(co, clofun60, 1, R);
+coraCall1(co, closureRef(R[0], 1), v__3517711_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518538_37= co->res;
-Obj v__3518537_37 = R[1];
-Obj v__3518539_37 = makeCons(co->gc, v__3518538_37, Nil);
-Obj v__3518540_37 = makeCons(co->gc, v__3518537_37, v__3518539_37);
-Obj v__3518541_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518540_37);
-Obj v__3518542_37 = makeCons(co->gc, v__3518541_37, Nil);
-Obj v__3518543_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518542_37);
-Obj v__3518544_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518543_37);
-coraReturn(co, v__3518544_37);
+Obj v__3518673_37= co->res;
+Obj v__3518672_37 = R[1];
+Obj v__3518674_37 = makeCons(co->gc, v__3518673_37, Nil);
+Obj v__3518675_37 = makeCons(co->gc, v__3518672_37, v__3518674_37);
+Obj v__3518676_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518675_37);
+Obj v__3518677_37 = makeCons(co->gc, v__3518676_37, Nil);
+Obj v__3518678_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518677_37);
+Obj v__3518679_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518678_37);
+coraReturn(co, v__3518679_37);
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517372_37 = R[1];
-Obj v__3517373_37 = R[2];
-Obj v__3517570_37 = makeNative(co->gc, 2, clofun55, 1, 2, v__3517372_37, v__3517373_37);
-Obj v__3518528_37 = primIsSymbol(v__3517372_37);
-if (True == v__3518528_37) {
+Obj v__3517484_37 = R[1];
+Obj v__3517485_37 = R[2];
+Obj v__3517689_37 = makeNative(co->gc, 2, clofun58, 1, 2, v__3517484_37, v__3517485_37);
+Obj v__3518663_37 = primIsSymbol(v__3517484_37);
+if (True == v__3518663_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517570_37, True);
+coraCall1(co, v__3517689_37, True);
 return;
 } else {
-R[1] = v__3517570_37;
-saveCont(co, clofun56, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517372_37);
+R[1] = v__3517689_37;
+saveCont(co, clofun59, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517484_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518529_37= co->res;
-Obj v__3517570_37 = R[1];
-if (True == v__3518529_37) {
+Obj v__3518664_37= co->res;
+Obj v__3517689_37 = R[1];
+if (True == v__3518664_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517570_37, True);
+coraCall1(co, v__3517689_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517570_37, False);
+coraCall1(co, v__3517689_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517569_37 = R[1];
-if (True == v__3517569_37) {
+Obj v__3517688_37 = R[1];
+if (True == v__3517688_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun55, 1, R);
+saveCont(co, clofun58, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj v__3518394_37= co->res;
-if (True == v__3518394_37) {
+Obj v__3518529_37= co->res;
+if (True == v__3518529_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v__3517571_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518496_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518496_37) {
-Obj v__3518497_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518498_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518497_37);
-if (True == v__3518498_37) {
-Obj v__3518499_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518500_37 = PRIM_ISCONS(v__3518499_37);
-if (True == v__3518500_37) {
-Obj v__3518501_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518502_37 = PRIM_CAR(v__3518501_37);
-Obj v__3517585_37 = v__3518502_37;
-Obj v__3518503_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518504_37 = PRIM_CDR(v__3518503_37);
-Obj v__3518505_37 = PRIM_ISCONS(v__3518504_37);
-if (True == v__3518505_37) {
-Obj v__3518506_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518507_37 = PRIM_CDR(v__3518506_37);
-Obj v__3518508_37 = PRIM_CAR(v__3518507_37);
-Obj v__3517586_37 = v__3518508_37;
-Obj v__3518509_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518510_37 = PRIM_CDR(v__3518509_37);
-Obj v__3518511_37 = PRIM_CDR(v__3518510_37);
-Obj v__3518512_37 = PRIM_ISCONS(v__3518511_37);
-if (True == v__3518512_37) {
-Obj v__3518513_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518514_37 = PRIM_CDR(v__3518513_37);
-Obj v__3518515_37 = PRIM_CDR(v__3518514_37);
-Obj v__3518516_37 = PRIM_CAR(v__3518515_37);
-Obj v__3517587_37 = v__3518516_37;
-Obj v__3518517_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518518_37 = PRIM_CDR(v__3518517_37);
-Obj v__3518519_37 = PRIM_CDR(v__3518518_37);
-Obj v__3518520_37 = PRIM_CDR(v__3518519_37);
-Obj v__3518521_37 = PRIM_EQ(Nil, v__3518520_37);
-if (True == v__3518521_37) {
+Obj v__3517690_37 = makeNative(co->gc, 1, clofun56, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518631_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518631_37) {
+Obj v__3518632_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518633_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518632_37);
+if (True == v__3518633_37) {
+Obj v__3518634_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518635_37 = PRIM_ISCONS(v__3518634_37);
+if (True == v__3518635_37) {
+Obj v__3518636_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518637_37 = PRIM_CAR(v__3518636_37);
+Obj v__3517704_37 = v__3518637_37;
+Obj v__3518638_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518639_37 = PRIM_CDR(v__3518638_37);
+Obj v__3518640_37 = PRIM_ISCONS(v__3518639_37);
+if (True == v__3518640_37) {
+Obj v__3518641_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518642_37 = PRIM_CDR(v__3518641_37);
+Obj v__3518643_37 = PRIM_CAR(v__3518642_37);
+Obj v__3517705_37 = v__3518643_37;
+Obj v__3518644_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518645_37 = PRIM_CDR(v__3518644_37);
+Obj v__3518646_37 = PRIM_CDR(v__3518645_37);
+Obj v__3518647_37 = PRIM_ISCONS(v__3518646_37);
+if (True == v__3518647_37) {
+Obj v__3518648_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518649_37 = PRIM_CDR(v__3518648_37);
+Obj v__3518650_37 = PRIM_CDR(v__3518649_37);
+Obj v__3518651_37 = PRIM_CAR(v__3518650_37);
+Obj v__3517706_37 = v__3518651_37;
+Obj v__3518652_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518653_37 = PRIM_CDR(v__3518652_37);
+Obj v__3518654_37 = PRIM_CDR(v__3518653_37);
+Obj v__3518655_37 = PRIM_CDR(v__3518654_37);
+Obj v__3518656_37 = PRIM_EQ(Nil, v__3518655_37);
+if (True == v__3518656_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517585_37, makeNative(co->gc, 3, clofun54, 1, 3, v__3517586_37, v__3517587_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517704_37, makeNative(co->gc, 3, clofun57, 1, 3, v__3517705_37, v__3517706_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517571_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517571_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517571_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517571_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517571_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517571_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 }
@@ -5941,535 +5946,535 @@ return;
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
 R[1] = v_ra;
-saveCont(co, clofun54, 2, R);
+saveCont(co, clofun57, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3518523_37= co->res;
-Obj v__3518522_37 = R[1];
+Obj v__3518658_37= co->res;
+Obj v__3518657_37 = R[1];
 Obj v_ra = R[2];
-Obj v__3518524_37 = makeCons(co->gc, v__3518523_37, Nil);
-Obj v__3518525_37 = makeCons(co->gc, v__3518522_37, v__3518524_37);
-Obj v__3518526_37 = makeCons(co->gc, v_ra, v__3518525_37);
-Obj v__3518527_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518526_37);
-coraReturn(co, v__3518527_37);
+Obj v__3518659_37 = makeCons(co->gc, v__3518658_37, Nil);
+Obj v__3518660_37 = makeCons(co->gc, v__3518657_37, v__3518659_37);
+Obj v__3518661_37 = makeCons(co->gc, v_ra, v__3518660_37);
+Obj v__3518662_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518661_37);
+coraReturn(co, v__3518662_37);
 return;
 }
 case 2:
 {
-Obj v__3518522_37= co->res;
+Obj v__3518657_37= co->res;
 Obj v_ra = R[1];
-R[1] = v__3518522_37;
+R[1] = v__3518657_37;
 R[2] = v_ra;
-saveCont(co, clofun54, 1, R);
+saveCont(co, clofun57, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517572_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518474_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518474_37) {
-Obj v__3518475_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518476_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518475_37);
-if (True == v__3518476_37) {
-Obj v__3518477_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518478_37 = PRIM_ISCONS(v__3518477_37);
-if (True == v__3518478_37) {
-Obj v__3518479_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518480_37 = PRIM_CAR(v__3518479_37);
-Obj v__3517583_37 = v__3518480_37;
-Obj v__3518481_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518482_37 = PRIM_CDR(v__3518481_37);
-Obj v__3518483_37 = PRIM_ISCONS(v__3518482_37);
-if (True == v__3518483_37) {
-Obj v__3518484_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518485_37 = PRIM_CDR(v__3518484_37);
-Obj v__3518486_37 = PRIM_CAR(v__3518485_37);
-Obj v__3517584_37 = v__3518486_37;
-Obj v__3518487_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518488_37 = PRIM_CDR(v__3518487_37);
-Obj v__3518489_37 = PRIM_CDR(v__3518488_37);
-Obj v__3518490_37 = PRIM_EQ(Nil, v__3518489_37);
-if (True == v__3518490_37) {
+Obj v__3517691_37 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518609_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518609_37) {
+Obj v__3518610_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518611_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518610_37);
+if (True == v__3518611_37) {
+Obj v__3518612_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518613_37 = PRIM_ISCONS(v__3518612_37);
+if (True == v__3518613_37) {
+Obj v__3518614_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518615_37 = PRIM_CAR(v__3518614_37);
+Obj v__3517702_37 = v__3518615_37;
+Obj v__3518616_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518617_37 = PRIM_CDR(v__3518616_37);
+Obj v__3518618_37 = PRIM_ISCONS(v__3518617_37);
+if (True == v__3518618_37) {
+Obj v__3518619_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518620_37 = PRIM_CDR(v__3518619_37);
+Obj v__3518621_37 = PRIM_CAR(v__3518620_37);
+Obj v__3517703_37 = v__3518621_37;
+Obj v__3518622_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518623_37 = PRIM_CDR(v__3518622_37);
+Obj v__3518624_37 = PRIM_CDR(v__3518623_37);
+Obj v__3518625_37 = PRIM_EQ(Nil, v__3518624_37);
+if (True == v__3518625_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517583_37, makeNative(co->gc, 2, clofun52, 1, 2, v__3517584_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517702_37, makeNative(co->gc, 2, clofun55, 1, 2, v__3517703_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 }
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v__3518491_37 = primIsSymbol(v_ra);
-if (True == v__3518491_37) {
+Obj v__3518626_37 = primIsSymbol(v_ra);
+if (True == v__3518626_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = v_ra;
-saveCont(co, clofun52, 1, R);
+saveCont(co, clofun55, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj v__3518492_37= co->res;
+Obj v__3518627_37= co->res;
 Obj v_ra = R[1];
-Obj v__3518493_37 = makeCons(co->gc, v__3518492_37, Nil);
-Obj v__3518494_37 = makeCons(co->gc, v_ra, v__3518493_37);
-Obj v__3518495_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518494_37);
-coraReturn(co, v__3518495_37);
+Obj v__3518628_37 = makeCons(co->gc, v__3518627_37, Nil);
+Obj v__3518629_37 = makeCons(co->gc, v_ra, v__3518628_37);
+Obj v__3518630_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518629_37);
+coraReturn(co, v__3518630_37);
 return;
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517573_37 = makeNative(co->gc, 3, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518443_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518443_37) {
-Obj v__3518444_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518445_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518444_37);
-if (True == v__3518445_37) {
-Obj v__3518446_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518447_37 = PRIM_ISCONS(v__3518446_37);
-if (True == v__3518447_37) {
-Obj v__3518448_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518449_37 = PRIM_CAR(v__3518448_37);
-Obj v__3517580_37 = v__3518449_37;
-Obj v__3518450_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518451_37 = PRIM_CDR(v__3518450_37);
-Obj v__3518452_37 = PRIM_ISCONS(v__3518451_37);
-if (True == v__3518452_37) {
-Obj v__3518453_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518454_37 = PRIM_CDR(v__3518453_37);
-Obj v__3518455_37 = PRIM_CAR(v__3518454_37);
-Obj v__3517581_37 = v__3518455_37;
-Obj v__3518456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518457_37 = PRIM_CDR(v__3518456_37);
-Obj v__3518458_37 = PRIM_CDR(v__3518457_37);
-Obj v__3518459_37 = PRIM_ISCONS(v__3518458_37);
-if (True == v__3518459_37) {
-Obj v__3518460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518461_37 = PRIM_CDR(v__3518460_37);
-Obj v__3518462_37 = PRIM_CDR(v__3518461_37);
-Obj v__3518463_37 = PRIM_CAR(v__3518462_37);
-Obj v__3517582_37 = v__3518463_37;
-Obj v__3518464_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518465_37 = PRIM_CDR(v__3518464_37);
-Obj v__3518466_37 = PRIM_CDR(v__3518465_37);
-Obj v__3518467_37 = PRIM_CDR(v__3518466_37);
-Obj v__3518468_37 = PRIM_EQ(Nil, v__3518467_37);
-if (True == v__3518468_37) {
+Obj v__3517692_37 = makeNative(co->gc, 3, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518578_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518578_37) {
+Obj v__3518579_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518580_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3518579_37);
+if (True == v__3518580_37) {
+Obj v__3518581_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518582_37 = PRIM_ISCONS(v__3518581_37);
+if (True == v__3518582_37) {
+Obj v__3518583_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518584_37 = PRIM_CAR(v__3518583_37);
+Obj v__3517699_37 = v__3518584_37;
+Obj v__3518585_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518586_37 = PRIM_CDR(v__3518585_37);
+Obj v__3518587_37 = PRIM_ISCONS(v__3518586_37);
+if (True == v__3518587_37) {
+Obj v__3518588_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518589_37 = PRIM_CDR(v__3518588_37);
+Obj v__3518590_37 = PRIM_CAR(v__3518589_37);
+Obj v__3517700_37 = v__3518590_37;
+Obj v__3518591_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518592_37 = PRIM_CDR(v__3518591_37);
+Obj v__3518593_37 = PRIM_CDR(v__3518592_37);
+Obj v__3518594_37 = PRIM_ISCONS(v__3518593_37);
+if (True == v__3518594_37) {
+Obj v__3518595_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518596_37 = PRIM_CDR(v__3518595_37);
+Obj v__3518597_37 = PRIM_CDR(v__3518596_37);
+Obj v__3518598_37 = PRIM_CAR(v__3518597_37);
+Obj v__3517701_37 = v__3518598_37;
+Obj v__3518599_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518600_37 = PRIM_CDR(v__3518599_37);
+Obj v__3518601_37 = PRIM_CDR(v__3518600_37);
+Obj v__3518602_37 = PRIM_CDR(v__3518601_37);
+Obj v__3518603_37 = PRIM_EQ(Nil, v__3518602_37);
+if (True == v__3518603_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517581_37, makeNative(co->gc, 2, clofun50, 1, 3, v__3517580_37, v__3517582_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517700_37, makeNative(co->gc, 2, clofun53, 1, 3, v__3517699_37, v__3517701_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_rb = R[1];
 R[1] = v_rb;
-saveCont(co, clofun50, 1, R);
+saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3518469_37= co->res;
+Obj v__3518604_37= co->res;
 Obj v_rb = R[1];
-Obj v__3518470_37 = makeCons(co->gc, v__3518469_37, Nil);
-Obj v__3518471_37 = makeCons(co->gc, v_rb, v__3518470_37);
-Obj v__3518472_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518471_37);
-Obj v__3518473_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518472_37);
-coraReturn(co, v__3518473_37);
+Obj v__3518605_37 = makeCons(co->gc, v__3518604_37, Nil);
+Obj v__3518606_37 = makeCons(co->gc, v_rb, v__3518605_37);
+Obj v__3518607_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518606_37);
+Obj v__3518608_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518607_37);
+coraReturn(co, v__3518608_37);
 return;
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517574_37 = makeNative(co->gc, 1, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518399_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518399_37) {
-Obj v__3518400_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518401_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518400_37);
-if (True == v__3518401_37) {
-Obj v__3518402_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518403_37 = PRIM_ISCONS(v__3518402_37);
-if (True == v__3518403_37) {
-Obj v__3518404_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518405_37 = PRIM_CAR(v__3518404_37);
-Obj v__3518406_37 = PRIM_ISCONS(v__3518405_37);
-if (True == v__3518406_37) {
-Obj v__3518407_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518408_37 = PRIM_CAR(v__3518407_37);
-Obj v__3518409_37 = PRIM_CAR(v__3518408_37);
-Obj v__3518410_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518409_37);
-if (True == v__3518410_37) {
-Obj v__3518411_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518412_37 = PRIM_CAR(v__3518411_37);
-Obj v__3518413_37 = PRIM_CDR(v__3518412_37);
-Obj v__3518414_37 = PRIM_ISCONS(v__3518413_37);
-if (True == v__3518414_37) {
-Obj v__3518415_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518416_37 = PRIM_CAR(v__3518415_37);
-Obj v__3518417_37 = PRIM_CDR(v__3518416_37);
-Obj v__3518418_37 = PRIM_CAR(v__3518417_37);
-Obj v__3517577_37 = v__3518418_37;
-Obj v__3518419_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518420_37 = PRIM_CAR(v__3518419_37);
-Obj v__3518421_37 = PRIM_CDR(v__3518420_37);
-Obj v__3518422_37 = PRIM_CDR(v__3518421_37);
-Obj v__3518423_37 = PRIM_ISCONS(v__3518422_37);
-if (True == v__3518423_37) {
-Obj v__3518424_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518425_37 = PRIM_CAR(v__3518424_37);
-Obj v__3518426_37 = PRIM_CDR(v__3518425_37);
-Obj v__3518427_37 = PRIM_CDR(v__3518426_37);
-Obj v__3518428_37 = PRIM_CAR(v__3518427_37);
-Obj v__3517578_37 = v__3518428_37;
-Obj v__3518429_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518430_37 = PRIM_CAR(v__3518429_37);
-Obj v__3518431_37 = PRIM_CDR(v__3518430_37);
-Obj v__3518432_37 = PRIM_CDR(v__3518431_37);
-Obj v__3518433_37 = PRIM_CDR(v__3518432_37);
-Obj v__3518434_37 = PRIM_EQ(Nil, v__3518433_37);
-if (True == v__3518434_37) {
-Obj v__3518435_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518436_37 = PRIM_CDR(v__3518435_37);
-Obj v__3517579_37 = v__3518436_37;
-R[1] = v__3517577_37;
-R[2] = v__3517579_37;
-saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517578_37, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3517693_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518534_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518534_37) {
+Obj v__3518535_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518536_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518535_37);
+if (True == v__3518536_37) {
+Obj v__3518537_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518538_37 = PRIM_ISCONS(v__3518537_37);
+if (True == v__3518538_37) {
+Obj v__3518539_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518540_37 = PRIM_CAR(v__3518539_37);
+Obj v__3518541_37 = PRIM_ISCONS(v__3518540_37);
+if (True == v__3518541_37) {
+Obj v__3518542_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518543_37 = PRIM_CAR(v__3518542_37);
+Obj v__3518544_37 = PRIM_CAR(v__3518543_37);
+Obj v__3518545_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518544_37);
+if (True == v__3518545_37) {
+Obj v__3518546_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518547_37 = PRIM_CAR(v__3518546_37);
+Obj v__3518548_37 = PRIM_CDR(v__3518547_37);
+Obj v__3518549_37 = PRIM_ISCONS(v__3518548_37);
+if (True == v__3518549_37) {
+Obj v__3518550_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518551_37 = PRIM_CAR(v__3518550_37);
+Obj v__3518552_37 = PRIM_CDR(v__3518551_37);
+Obj v__3518553_37 = PRIM_CAR(v__3518552_37);
+Obj v__3517696_37 = v__3518553_37;
+Obj v__3518554_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518555_37 = PRIM_CAR(v__3518554_37);
+Obj v__3518556_37 = PRIM_CDR(v__3518555_37);
+Obj v__3518557_37 = PRIM_CDR(v__3518556_37);
+Obj v__3518558_37 = PRIM_ISCONS(v__3518557_37);
+if (True == v__3518558_37) {
+Obj v__3518559_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518560_37 = PRIM_CAR(v__3518559_37);
+Obj v__3518561_37 = PRIM_CDR(v__3518560_37);
+Obj v__3518562_37 = PRIM_CDR(v__3518561_37);
+Obj v__3518563_37 = PRIM_CAR(v__3518562_37);
+Obj v__3517697_37 = v__3518563_37;
+Obj v__3518564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518565_37 = PRIM_CAR(v__3518564_37);
+Obj v__3518566_37 = PRIM_CDR(v__3518565_37);
+Obj v__3518567_37 = PRIM_CDR(v__3518566_37);
+Obj v__3518568_37 = PRIM_CDR(v__3518567_37);
+Obj v__3518569_37 = PRIM_EQ(Nil, v__3518568_37);
+if (True == v__3518569_37) {
+Obj v__3518570_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518571_37 = PRIM_CDR(v__3518570_37);
+Obj v__3517698_37 = v__3518571_37;
+R[1] = v__3517696_37;
+R[2] = v__3517698_37;
+saveCont(co, clofun52, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517697_37, globalRef(co, getBinding(co, packageID, 72)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518437_37= co->res;
-Obj v__3517577_37 = R[1];
-Obj v__3517579_37 = R[2];
-Obj v__3518438_37 = makeCons(co->gc, v__3518437_37, Nil);
-Obj v__3518439_37 = makeCons(co->gc, v__3517577_37, v__3518438_37);
-Obj v__3518440_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518439_37);
-Obj v__3518441_37 = makeCons(co->gc, v__3518440_37, v__3517579_37);
-Obj v__3518442_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518441_37);
+Obj v__3518572_37= co->res;
+Obj v__3517696_37 = R[1];
+Obj v__3517698_37 = R[2];
+Obj v__3518573_37 = makeCons(co->gc, v__3518572_37, Nil);
+Obj v__3518574_37 = makeCons(co->gc, v__3517696_37, v__3518573_37);
+Obj v__3518575_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518574_37);
+Obj v__3518576_37 = makeCons(co->gc, v__3518575_37, v__3517698_37);
+Obj v__3518577_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518576_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v__3518442_37);
+coraCall1(co, closureRef(R[0], 1), v__3518577_37);
 return;
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518395_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518395_37) {
-Obj v__3518396_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517575_37 = v__3518396_37;
-Obj v__3518397_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517576_37 = v__3518397_37;
-Obj v__3518398_37 = makeCons(co->gc, v__3517575_37, v__3517576_37);
+Obj v__3518530_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518530_37) {
+Obj v__3518531_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517694_37 = v__3518531_37;
+Obj v__3518532_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517695_37 = v__3518532_37;
+Obj v__3518533_37 = makeCons(co->gc, v__3517694_37, v__3517695_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), v__3518398_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), v__3518533_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3518391_37 = makeCons(co->gc, v_x, Nil);
-Obj v__3518392_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518391_37);
-coraReturn(co, v__3518392_37);
+Obj v__3518526_37 = makeCons(co->gc, v_x, Nil);
+Obj v__3518527_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518526_37);
+coraReturn(co, v__3518527_37);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517365_37 = R[1];
-Obj v__3517366_37 = R[2];
-R[1] = v__3517366_37;
-R[2] = v__3517365_37;
-saveCont(co, clofun46, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517366_37);
+Obj v__3517477_37 = R[1];
+Obj v__3517478_37 = R[2];
+R[1] = v__3517478_37;
+R[2] = v__3517477_37;
+saveCont(co, clofun49, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517478_37);
 return;
 }
 case 1:
 {
-Obj v__3518318_37= co->res;
-Obj v__3517366_37 = R[1];
-Obj v__3517557_37 = v__3518318_37;
-Obj v__3518319_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517557_37);
-if (True == v__3518319_37) {
-coraReturn(co, v__3517366_37);
+Obj v__3518453_37= co->res;
+Obj v__3517478_37 = R[1];
+Obj v__3517676_37 = v__3518453_37;
+Obj v__3518454_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517676_37);
+if (True == v__3518454_37) {
+coraReturn(co, v__3517478_37);
 return;
 } else {
-Obj v__3518320_37 = makeCons(co->gc, v__3517557_37, Nil);
-Obj v__3518321_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, v__3518320_37);
-coraReturn(co, v__3518321_37);
+Obj v__3518455_37 = makeCons(co->gc, v__3517676_37, Nil);
+Obj v__3518456_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, v__3518455_37);
+coraReturn(co, v__3518456_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518387_37= co->res;
-Obj v__3518385_37 = R[1];
-Obj v__3518388_37 = makeCons(co->gc, v__3518385_37, v__3518387_37);
-Obj v__3518389_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518388_37);
-coraReturn(co, v__3518389_37);
+Obj v__3518522_37= co->res;
+Obj v__3518520_37 = R[1];
+Obj v__3518523_37 = makeCons(co->gc, v__3518520_37, v__3518522_37);
+Obj v__3518524_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518523_37);
+coraReturn(co, v__3518524_37);
 return;
 }
 case 3:
 {
-Obj v__3518386_37= co->res;
-Obj v__3517567_37 = R[1];
-Obj v__3518385_37 = R[2];
-R[1] = v__3518385_37;
-saveCont(co, clofun46, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518386_37, v__3517567_37);
+Obj v__3518521_37= co->res;
+Obj v__3517686_37 = R[1];
+Obj v__3518520_37 = R[2];
+R[1] = v__3518520_37;
+saveCont(co, clofun49, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518521_37, v__3517686_37);
 return;
 }
 case 4:
 {
-Obj v__3518382_37= co->res;
-Obj v__3517565_37 = R[1];
-Obj v__3517365_37 = R[2];
-Obj v__3517567_37 = R[3];
-Obj v__3518383_37 = makeCons(co->gc, v__3518382_37, Nil);
-Obj v__3518384_37 = makeCons(co->gc, v__3517565_37, v__3518383_37);
-Obj v__3518385_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518384_37);
-R[1] = v__3517567_37;
-R[2] = v__3518385_37;
-saveCont(co, clofun46, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), v__3517365_37);
+Obj v__3518517_37= co->res;
+Obj v__3517684_37 = R[1];
+Obj v__3517477_37 = R[2];
+Obj v__3517686_37 = R[3];
+Obj v__3518518_37 = makeCons(co->gc, v__3518517_37, Nil);
+Obj v__3518519_37 = makeCons(co->gc, v__3517684_37, v__3518518_37);
+Obj v__3518520_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518519_37);
+R[1] = v__3517686_37;
+R[2] = v__3518520_37;
+saveCont(co, clofun49, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), v__3517477_37);
 return;
 }
 case 5:
 {
-Obj v__3518381_37= co->res;
-Obj v__3517566_37 = R[1];
-Obj v__3517565_37 = R[2];
-Obj v__3517365_37 = R[3];
-Obj v__3517567_37 = v__3518381_37;
-R[1] = v__3517565_37;
-R[2] = v__3517365_37;
-R[3] = v__3517567_37;
-saveCont(co, clofun46, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3517567_37, v__3517566_37);
+Obj v__3518516_37= co->res;
+Obj v__3517685_37 = R[1];
+Obj v__3517684_37 = R[2];
+Obj v__3517477_37 = R[3];
+Obj v__3517686_37 = v__3518516_37;
+R[1] = v__3517684_37;
+R[2] = v__3517477_37;
+R[3] = v__3517686_37;
+saveCont(co, clofun49, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3517686_37, v__3517685_37);
 return;
 }
 case 6:
 {
-Obj v__3518316_37= co->res;
-Obj v__3517366_37 = R[1];
-Obj v__3517365_37 = R[2];
-if (True == v__3518316_37) {
-coraReturn(co, v__3517366_37);
+Obj v__3518451_37= co->res;
+Obj v__3517478_37 = R[1];
+Obj v__3517477_37 = R[2];
+if (True == v__3518451_37) {
+coraReturn(co, v__3517478_37);
 return;
 } else {
-Obj v__3518317_37 = primIsSymbol(v__3517366_37);
-if (True == v__3518317_37) {
-R[1] = v__3517366_37;
-saveCont(co, clofun46, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3517366_37, v__3517365_37);
+Obj v__3518452_37 = primIsSymbol(v__3517478_37);
+if (True == v__3518452_37) {
+R[1] = v__3517478_37;
+saveCont(co, clofun49, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3517478_37, v__3517477_37);
 return;
 } else {
-Obj v__3517558_37 = makeNative(co->gc, 4, clofun45, 0, 2, v__3517366_37, v__3517365_37);
-Obj v__3518361_37 = PRIM_ISCONS(v__3517366_37);
-if (True == v__3518361_37) {
-Obj v__3518362_37 = PRIM_CAR(v__3517366_37);
-Obj v__3518363_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518362_37);
-if (True == v__3518363_37) {
-Obj v__3518364_37 = PRIM_CDR(v__3517366_37);
-Obj v__3518365_37 = PRIM_ISCONS(v__3518364_37);
-if (True == v__3518365_37) {
-Obj v__3518366_37 = PRIM_CDR(v__3517366_37);
-Obj v__3518367_37 = PRIM_CAR(v__3518366_37);
-Obj v__3517565_37 = v__3518367_37;
-Obj v__3518368_37 = PRIM_CDR(v__3517366_37);
-Obj v__3518369_37 = PRIM_CDR(v__3518368_37);
-Obj v__3518370_37 = PRIM_ISCONS(v__3518369_37);
-if (True == v__3518370_37) {
-Obj v__3518371_37 = PRIM_CDR(v__3517366_37);
-Obj v__3518372_37 = PRIM_CDR(v__3518371_37);
-Obj v__3518373_37 = PRIM_CAR(v__3518372_37);
-Obj v__3517566_37 = v__3518373_37;
-Obj v__3518374_37 = PRIM_CDR(v__3517366_37);
-Obj v__3518375_37 = PRIM_CDR(v__3518374_37);
-Obj v__3518376_37 = PRIM_CDR(v__3518375_37);
-Obj v__3518377_37 = PRIM_EQ(Nil, v__3518376_37);
-if (True == v__3518377_37) {
-Obj v__3518378_37 = makeCons(co->gc, v__3517566_37, Nil);
-Obj v__3518379_37 = makeCons(co->gc, v__3517565_37, v__3518378_37);
-Obj v__3518380_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518379_37);
-R[1] = v__3517566_37;
-R[2] = v__3517565_37;
-R[3] = v__3517365_37;
-saveCont(co, clofun46, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3518380_37);
+Obj v__3517677_37 = makeNative(co->gc, 4, clofun48, 0, 2, v__3517478_37, v__3517477_37);
+Obj v__3518496_37 = PRIM_ISCONS(v__3517478_37);
+if (True == v__3518496_37) {
+Obj v__3518497_37 = PRIM_CAR(v__3517478_37);
+Obj v__3518498_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518497_37);
+if (True == v__3518498_37) {
+Obj v__3518499_37 = PRIM_CDR(v__3517478_37);
+Obj v__3518500_37 = PRIM_ISCONS(v__3518499_37);
+if (True == v__3518500_37) {
+Obj v__3518501_37 = PRIM_CDR(v__3517478_37);
+Obj v__3518502_37 = PRIM_CAR(v__3518501_37);
+Obj v__3517684_37 = v__3518502_37;
+Obj v__3518503_37 = PRIM_CDR(v__3517478_37);
+Obj v__3518504_37 = PRIM_CDR(v__3518503_37);
+Obj v__3518505_37 = PRIM_ISCONS(v__3518504_37);
+if (True == v__3518505_37) {
+Obj v__3518506_37 = PRIM_CDR(v__3517478_37);
+Obj v__3518507_37 = PRIM_CDR(v__3518506_37);
+Obj v__3518508_37 = PRIM_CAR(v__3518507_37);
+Obj v__3517685_37 = v__3518508_37;
+Obj v__3518509_37 = PRIM_CDR(v__3517478_37);
+Obj v__3518510_37 = PRIM_CDR(v__3518509_37);
+Obj v__3518511_37 = PRIM_CDR(v__3518510_37);
+Obj v__3518512_37 = PRIM_EQ(Nil, v__3518511_37);
+if (True == v__3518512_37) {
+Obj v__3518513_37 = makeCons(co->gc, v__3517685_37, Nil);
+Obj v__3518514_37 = makeCons(co->gc, v__3517684_37, v__3518513_37);
+Obj v__3518515_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518514_37);
+R[1] = v__3517685_37;
+R[2] = v__3517684_37;
+R[3] = v__3517477_37;
+saveCont(co, clofun49, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3518515_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517558_37);
+coraCall0(co, v__3517677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517558_37);
+coraCall0(co, v__3517677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517558_37);
+coraCall0(co, v__3517677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517558_37);
+coraCall0(co, v__3517677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517558_37);
+coraCall0(co, v__3517677_37);
 return;
 }
 }
@@ -6478,128 +6483,128 @@ return;
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517559_37 = makeNative(co->gc, 3, clofun43, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518327_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518327_37) {
-Obj v__3518328_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518329_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518328_37);
-if (True == v__3518329_37) {
-Obj v__3518330_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518331_37 = PRIM_ISCONS(v__3518330_37);
-if (True == v__3518331_37) {
-Obj v__3518332_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518333_37 = PRIM_CAR(v__3518332_37);
-Obj v__3517562_37 = v__3518333_37;
-Obj v__3518334_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518335_37 = PRIM_CDR(v__3518334_37);
-Obj v__3518336_37 = PRIM_ISCONS(v__3518335_37);
-if (True == v__3518336_37) {
-Obj v__3518337_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518338_37 = PRIM_CDR(v__3518337_37);
-Obj v__3518339_37 = PRIM_CAR(v__3518338_37);
-Obj v__3517563_37 = v__3518339_37;
-Obj v__3518340_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518341_37 = PRIM_CDR(v__3518340_37);
-Obj v__3518342_37 = PRIM_CDR(v__3518341_37);
-Obj v__3518343_37 = PRIM_ISCONS(v__3518342_37);
-if (True == v__3518343_37) {
-Obj v__3518344_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518345_37 = PRIM_CDR(v__3518344_37);
-Obj v__3518346_37 = PRIM_CDR(v__3518345_37);
-Obj v__3518347_37 = PRIM_CAR(v__3518346_37);
-Obj v__3517564_37 = v__3518347_37;
-Obj v__3518348_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518349_37 = PRIM_CDR(v__3518348_37);
-Obj v__3518350_37 = PRIM_CDR(v__3518349_37);
-Obj v__3518351_37 = PRIM_CDR(v__3518350_37);
-Obj v__3518352_37 = PRIM_EQ(Nil, v__3518351_37);
-if (True == v__3518352_37) {
-R[1] = v__3517564_37;
-R[2] = v__3517562_37;
-saveCont(co, clofun45, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), v__3517563_37);
+Obj v__3517678_37 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518462_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518462_37) {
+Obj v__3518463_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518464_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3518463_37);
+if (True == v__3518464_37) {
+Obj v__3518465_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518466_37 = PRIM_ISCONS(v__3518465_37);
+if (True == v__3518466_37) {
+Obj v__3518467_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518468_37 = PRIM_CAR(v__3518467_37);
+Obj v__3517681_37 = v__3518468_37;
+Obj v__3518469_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518470_37 = PRIM_CDR(v__3518469_37);
+Obj v__3518471_37 = PRIM_ISCONS(v__3518470_37);
+if (True == v__3518471_37) {
+Obj v__3518472_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518473_37 = PRIM_CDR(v__3518472_37);
+Obj v__3518474_37 = PRIM_CAR(v__3518473_37);
+Obj v__3517682_37 = v__3518474_37;
+Obj v__3518475_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518476_37 = PRIM_CDR(v__3518475_37);
+Obj v__3518477_37 = PRIM_CDR(v__3518476_37);
+Obj v__3518478_37 = PRIM_ISCONS(v__3518477_37);
+if (True == v__3518478_37) {
+Obj v__3518479_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518480_37 = PRIM_CDR(v__3518479_37);
+Obj v__3518481_37 = PRIM_CDR(v__3518480_37);
+Obj v__3518482_37 = PRIM_CAR(v__3518481_37);
+Obj v__3517683_37 = v__3518482_37;
+Obj v__3518483_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518484_37 = PRIM_CDR(v__3518483_37);
+Obj v__3518485_37 = PRIM_CDR(v__3518484_37);
+Obj v__3518486_37 = PRIM_CDR(v__3518485_37);
+Obj v__3518487_37 = PRIM_EQ(Nil, v__3518486_37);
+if (True == v__3518487_37) {
+R[1] = v__3517683_37;
+R[2] = v__3517681_37;
+saveCont(co, clofun48, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), v__3517682_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517559_37);
+coraCall0(co, v__3517678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517559_37);
+coraCall0(co, v__3517678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517559_37);
+coraCall0(co, v__3517678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517559_37);
+coraCall0(co, v__3517678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517559_37);
+coraCall0(co, v__3517678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517559_37);
+coraCall0(co, v__3517678_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518356_37= co->res;
-Obj v__3518353_37 = R[1];
-Obj v__3517562_37 = R[2];
-Obj v__3518357_37 = makeCons(co->gc, v__3518356_37, Nil);
-Obj v__3518358_37 = makeCons(co->gc, v__3518353_37, v__3518357_37);
-Obj v__3518359_37 = makeCons(co->gc, v__3517562_37, v__3518358_37);
-Obj v__3518360_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518359_37);
-coraReturn(co, v__3518360_37);
+Obj v__3518491_37= co->res;
+Obj v__3518488_37 = R[1];
+Obj v__3517681_37 = R[2];
+Obj v__3518492_37 = makeCons(co->gc, v__3518491_37, Nil);
+Obj v__3518493_37 = makeCons(co->gc, v__3518488_37, v__3518492_37);
+Obj v__3518494_37 = makeCons(co->gc, v__3517681_37, v__3518493_37);
+Obj v__3518495_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518494_37);
+coraReturn(co, v__3518495_37);
 return;
 }
 case 2:
 {
-Obj v__3518355_37= co->res;
-Obj v__3517564_37 = R[1];
-Obj v__3518353_37 = R[2];
-Obj v__3517562_37 = R[3];
-R[1] = v__3518353_37;
-R[2] = v__3517562_37;
-saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3518355_37, v__3517564_37);
+Obj v__3518490_37= co->res;
+Obj v__3517683_37 = R[1];
+Obj v__3518488_37 = R[2];
+Obj v__3517681_37 = R[3];
+R[1] = v__3518488_37;
+R[2] = v__3517681_37;
+saveCont(co, clofun48, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3518490_37, v__3517683_37);
 return;
 }
 case 3:
 {
-Obj v__3518353_37= co->res;
-Obj v__3517564_37 = R[1];
-Obj v__3517562_37 = R[2];
-R[1] = v__3517564_37;
-R[2] = v__3518353_37;
-R[3] = v__3517562_37;
-saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), makeNative(co->gc, 2, clofun44, 1, 1, v__3517562_37), closureRef(R[0], 1));
+Obj v__3518488_37= co->res;
+Obj v__3517683_37 = R[1];
+Obj v__3517681_37 = R[2];
+R[1] = v__3517683_37;
+R[2] = v__3518488_37;
+R[3] = v__3517681_37;
+saveCont(co, clofun48, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun47, 1, 1, v__3517681_37), closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3518354_37 = PRIM_EQ(v_x, closureRef(R[0], 0));
-if (True == v__3518354_37) {
+Obj v__3518489_37 = PRIM_EQ(v_x, closureRef(R[0], 0));
+if (True == v__3518489_37) {
 coraReturn(co, Nil);
 return;
 } else {
@@ -6610,124 +6615,124 @@ return;
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518322_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518322_37) {
-Obj v__3518323_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517560_37 = v__3518323_37;
-Obj v__3518324_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517561_37 = v__3518324_37;
-R[1] = v__3517560_37;
-R[2] = v__3517561_37;
-saveCont(co, clofun43, 1, R);
+Obj v__3518457_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518457_37) {
+Obj v__3518458_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517679_37 = v__3518458_37;
+Obj v__3518459_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517680_37 = v__3518459_37;
+R[1] = v__3517679_37;
+R[2] = v__3517680_37;
+saveCont(co, clofun46, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3518325_37= co->res;
-Obj v__3517560_37 = R[1];
-Obj v__3517561_37 = R[2];
-Obj v__3518326_37 = makeCons(co->gc, v__3517560_37, v__3517561_37);
+Obj v__3518460_37= co->res;
+Obj v__3517679_37 = R[1];
+Obj v__3517680_37 = R[2];
+Obj v__3518461_37 = makeCons(co->gc, v__3517679_37, v__3517680_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3518325_37, v__3518326_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518460_37, v__3518461_37);
 return;
 }
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517352_37 = R[1];
-R[1] = v__3517352_37;
-saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517352_37);
+Obj v__3517464_37 = R[1];
+R[1] = v__3517464_37;
+saveCont(co, clofun45, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517464_37);
 return;
 }
 case 1:
 {
-Obj v__3518314_37= co->res;
-Obj v__3517555_37 = R[1];
+Obj v__3518449_37= co->res;
+Obj v__3517674_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518314_37, v__3517555_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518449_37, v__3517674_37);
 return;
 }
 case 2:
 {
-Obj v__3518141_37= co->res;
-Obj v__3517352_37 = R[1];
-if (True == v__3518141_37) {
+Obj v__3518276_37= co->res;
+Obj v__3517464_37 = R[1];
+if (True == v__3518276_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518142_37 = primIsSymbol(v__3517352_37);
-if (True == v__3518142_37) {
-Obj v__3518143_37 = makeCons(co->gc, v__3517352_37, Nil);
-coraReturn(co, v__3518143_37);
-return;
-} else {
-Obj v__3517528_37 = makeNative(co->gc, 1, clofun41, 0, 1, v__3517352_37);
-Obj v__3518297_37 = PRIM_ISCONS(v__3517352_37);
-if (True == v__3518297_37) {
-Obj v__3518298_37 = PRIM_CAR(v__3517352_37);
-Obj v__3518299_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518298_37);
-if (True == v__3518299_37) {
-Obj v__3518300_37 = PRIM_CDR(v__3517352_37);
-Obj v__3518301_37 = PRIM_ISCONS(v__3518300_37);
-if (True == v__3518301_37) {
-Obj v__3518302_37 = PRIM_CDR(v__3517352_37);
-Obj v__3518303_37 = PRIM_CAR(v__3518302_37);
-Obj v__3517555_37 = v__3518303_37;
-Obj v__3518304_37 = PRIM_CDR(v__3517352_37);
-Obj v__3518305_37 = PRIM_CDR(v__3518304_37);
-Obj v__3518306_37 = PRIM_ISCONS(v__3518305_37);
-if (True == v__3518306_37) {
-Obj v__3518307_37 = PRIM_CDR(v__3517352_37);
-Obj v__3518308_37 = PRIM_CDR(v__3518307_37);
-Obj v__3518309_37 = PRIM_CAR(v__3518308_37);
-Obj v__3517556_37 = v__3518309_37;
-Obj v__3518310_37 = PRIM_CDR(v__3517352_37);
-Obj v__3518311_37 = PRIM_CDR(v__3518310_37);
-Obj v__3518312_37 = PRIM_CDR(v__3518311_37);
-Obj v__3518313_37 = PRIM_EQ(Nil, v__3518312_37);
-if (True == v__3518313_37) {
-R[1] = v__3517555_37;
-saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517556_37);
+Obj v__3518277_37 = primIsSymbol(v__3517464_37);
+if (True == v__3518277_37) {
+Obj v__3518278_37 = makeCons(co->gc, v__3517464_37, Nil);
+coraReturn(co, v__3518278_37);
+return;
+} else {
+Obj v__3517647_37 = makeNative(co->gc, 1, clofun44, 0, 1, v__3517464_37);
+Obj v__3518432_37 = PRIM_ISCONS(v__3517464_37);
+if (True == v__3518432_37) {
+Obj v__3518433_37 = PRIM_CAR(v__3517464_37);
+Obj v__3518434_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518433_37);
+if (True == v__3518434_37) {
+Obj v__3518435_37 = PRIM_CDR(v__3517464_37);
+Obj v__3518436_37 = PRIM_ISCONS(v__3518435_37);
+if (True == v__3518436_37) {
+Obj v__3518437_37 = PRIM_CDR(v__3517464_37);
+Obj v__3518438_37 = PRIM_CAR(v__3518437_37);
+Obj v__3517674_37 = v__3518438_37;
+Obj v__3518439_37 = PRIM_CDR(v__3517464_37);
+Obj v__3518440_37 = PRIM_CDR(v__3518439_37);
+Obj v__3518441_37 = PRIM_ISCONS(v__3518440_37);
+if (True == v__3518441_37) {
+Obj v__3518442_37 = PRIM_CDR(v__3517464_37);
+Obj v__3518443_37 = PRIM_CDR(v__3518442_37);
+Obj v__3518444_37 = PRIM_CAR(v__3518443_37);
+Obj v__3517675_37 = v__3518444_37;
+Obj v__3518445_37 = PRIM_CDR(v__3517464_37);
+Obj v__3518446_37 = PRIM_CDR(v__3518445_37);
+Obj v__3518447_37 = PRIM_CDR(v__3518446_37);
+Obj v__3518448_37 = PRIM_EQ(Nil, v__3518447_37);
+if (True == v__3518448_37) {
+R[1] = v__3517674_37;
+saveCont(co, clofun45, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517675_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 }
@@ -6736,859 +6741,859 @@ return;
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517529_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v__3518267_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518267_37) {
-Obj v__3518268_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518269_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518268_37);
-if (True == v__3518269_37) {
-Obj v__3518270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518271_37 = PRIM_ISCONS(v__3518270_37);
-if (True == v__3518271_37) {
-Obj v__3518272_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518273_37 = PRIM_CAR(v__3518272_37);
-Obj v__3517552_37 = v__3518273_37;
-Obj v__3518274_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518275_37 = PRIM_CDR(v__3518274_37);
-Obj v__3518276_37 = PRIM_ISCONS(v__3518275_37);
-if (True == v__3518276_37) {
-Obj v__3518277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518278_37 = PRIM_CDR(v__3518277_37);
-Obj v__3518279_37 = PRIM_CAR(v__3518278_37);
-Obj v__3517553_37 = v__3518279_37;
-Obj v__3518280_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518281_37 = PRIM_CDR(v__3518280_37);
-Obj v__3518282_37 = PRIM_CDR(v__3518281_37);
-Obj v__3518283_37 = PRIM_ISCONS(v__3518282_37);
-if (True == v__3518283_37) {
-Obj v__3518284_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518285_37 = PRIM_CDR(v__3518284_37);
-Obj v__3518286_37 = PRIM_CDR(v__3518285_37);
-Obj v__3518287_37 = PRIM_CAR(v__3518286_37);
-Obj v__3517554_37 = v__3518287_37;
-Obj v__3518288_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518289_37 = PRIM_CDR(v__3518288_37);
-Obj v__3518290_37 = PRIM_CDR(v__3518289_37);
-Obj v__3518291_37 = PRIM_CDR(v__3518290_37);
-Obj v__3518292_37 = PRIM_EQ(Nil, v__3518291_37);
-if (True == v__3518292_37) {
-Obj v__3518293_37 = makeCons(co->gc, v__3517554_37, Nil);
-Obj v__3518294_37 = makeCons(co->gc, v__3517553_37, v__3518293_37);
-Obj v__3518295_37 = makeCons(co->gc, v__3517552_37, v__3518294_37);
-saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), globalRef(co, getBinding(co, packageID, 78)), v__3518295_37);
+Obj v__3517648_37 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj v__3518402_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518402_37) {
+Obj v__3518403_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518404_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518403_37);
+if (True == v__3518404_37) {
+Obj v__3518405_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518406_37 = PRIM_ISCONS(v__3518405_37);
+if (True == v__3518406_37) {
+Obj v__3518407_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518408_37 = PRIM_CAR(v__3518407_37);
+Obj v__3517671_37 = v__3518408_37;
+Obj v__3518409_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518410_37 = PRIM_CDR(v__3518409_37);
+Obj v__3518411_37 = PRIM_ISCONS(v__3518410_37);
+if (True == v__3518411_37) {
+Obj v__3518412_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518413_37 = PRIM_CDR(v__3518412_37);
+Obj v__3518414_37 = PRIM_CAR(v__3518413_37);
+Obj v__3517672_37 = v__3518414_37;
+Obj v__3518415_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518416_37 = PRIM_CDR(v__3518415_37);
+Obj v__3518417_37 = PRIM_CDR(v__3518416_37);
+Obj v__3518418_37 = PRIM_ISCONS(v__3518417_37);
+if (True == v__3518418_37) {
+Obj v__3518419_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518420_37 = PRIM_CDR(v__3518419_37);
+Obj v__3518421_37 = PRIM_CDR(v__3518420_37);
+Obj v__3518422_37 = PRIM_CAR(v__3518421_37);
+Obj v__3517673_37 = v__3518422_37;
+Obj v__3518423_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518424_37 = PRIM_CDR(v__3518423_37);
+Obj v__3518425_37 = PRIM_CDR(v__3518424_37);
+Obj v__3518426_37 = PRIM_CDR(v__3518425_37);
+Obj v__3518427_37 = PRIM_EQ(Nil, v__3518426_37);
+if (True == v__3518427_37) {
+Obj v__3518428_37 = makeCons(co->gc, v__3517673_37, Nil);
+Obj v__3518429_37 = makeCons(co->gc, v__3517672_37, v__3518428_37);
+Obj v__3518430_37 = makeCons(co->gc, v__3517671_37, v__3518429_37);
+saveCont(co, clofun44, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3518430_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517529_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517529_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517529_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517529_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517529_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517529_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518296_37= co->res;
+Obj v__3518431_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518296_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518431_37);
 return;
 }
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517530_37 = makeNative(co->gc, 3, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v__3518247_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518247_37) {
-Obj v__3518248_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518249_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518248_37);
-if (True == v__3518249_37) {
-Obj v__3518250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518251_37 = PRIM_ISCONS(v__3518250_37);
-if (True == v__3518251_37) {
-Obj v__3518252_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518253_37 = PRIM_CAR(v__3518252_37);
-Obj v__3517550_37 = v__3518253_37;
-Obj v__3518254_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518255_37 = PRIM_CDR(v__3518254_37);
-Obj v__3518256_37 = PRIM_ISCONS(v__3518255_37);
-if (True == v__3518256_37) {
-Obj v__3518257_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518258_37 = PRIM_CDR(v__3518257_37);
-Obj v__3518259_37 = PRIM_CAR(v__3518258_37);
-Obj v__3517551_37 = v__3518259_37;
-Obj v__3518260_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518261_37 = PRIM_CDR(v__3518260_37);
-Obj v__3518262_37 = PRIM_CDR(v__3518261_37);
-Obj v__3518263_37 = PRIM_EQ(Nil, v__3518262_37);
-if (True == v__3518263_37) {
-Obj v__3518264_37 = makeCons(co->gc, v__3517551_37, Nil);
-Obj v__3518265_37 = makeCons(co->gc, v__3517550_37, v__3518264_37);
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), globalRef(co, getBinding(co, packageID, 78)), v__3518265_37);
+Obj v__3517649_37 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
+Obj v__3518382_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518382_37) {
+Obj v__3518383_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518384_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518383_37);
+if (True == v__3518384_37) {
+Obj v__3518385_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518386_37 = PRIM_ISCONS(v__3518385_37);
+if (True == v__3518386_37) {
+Obj v__3518387_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518388_37 = PRIM_CAR(v__3518387_37);
+Obj v__3517669_37 = v__3518388_37;
+Obj v__3518389_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518390_37 = PRIM_CDR(v__3518389_37);
+Obj v__3518391_37 = PRIM_ISCONS(v__3518390_37);
+if (True == v__3518391_37) {
+Obj v__3518392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518393_37 = PRIM_CDR(v__3518392_37);
+Obj v__3518394_37 = PRIM_CAR(v__3518393_37);
+Obj v__3517670_37 = v__3518394_37;
+Obj v__3518395_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518396_37 = PRIM_CDR(v__3518395_37);
+Obj v__3518397_37 = PRIM_CDR(v__3518396_37);
+Obj v__3518398_37 = PRIM_EQ(Nil, v__3518397_37);
+if (True == v__3518398_37) {
+Obj v__3518399_37 = makeCons(co->gc, v__3517670_37, Nil);
+Obj v__3518400_37 = makeCons(co->gc, v__3517669_37, v__3518399_37);
+saveCont(co, clofun43, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3518400_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517649_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517649_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517649_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517649_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517649_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518266_37= co->res;
+Obj v__3518401_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518266_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518401_37);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517531_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v__3518217_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518217_37) {
-Obj v__3518218_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518219_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518218_37);
-if (True == v__3518219_37) {
-Obj v__3518220_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518221_37 = PRIM_ISCONS(v__3518220_37);
-if (True == v__3518221_37) {
-Obj v__3518222_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518223_37 = PRIM_CAR(v__3518222_37);
-Obj v__3517547_37 = v__3518223_37;
-Obj v__3518224_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518225_37 = PRIM_CDR(v__3518224_37);
-Obj v__3518226_37 = PRIM_ISCONS(v__3518225_37);
-if (True == v__3518226_37) {
-Obj v__3518227_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518228_37 = PRIM_CDR(v__3518227_37);
-Obj v__3518229_37 = PRIM_CAR(v__3518228_37);
-Obj v__3517548_37 = v__3518229_37;
-Obj v__3518230_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518231_37 = PRIM_CDR(v__3518230_37);
-Obj v__3518232_37 = PRIM_CDR(v__3518231_37);
-Obj v__3518233_37 = PRIM_ISCONS(v__3518232_37);
-if (True == v__3518233_37) {
-Obj v__3518234_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518235_37 = PRIM_CDR(v__3518234_37);
-Obj v__3518236_37 = PRIM_CDR(v__3518235_37);
-Obj v__3518237_37 = PRIM_CAR(v__3518236_37);
-Obj v__3517549_37 = v__3518237_37;
-Obj v__3518238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518239_37 = PRIM_CDR(v__3518238_37);
-Obj v__3518240_37 = PRIM_CDR(v__3518239_37);
-Obj v__3518241_37 = PRIM_CDR(v__3518240_37);
-Obj v__3518242_37 = PRIM_EQ(Nil, v__3518241_37);
-if (True == v__3518242_37) {
-R[1] = v__3517549_37;
-R[2] = v__3517547_37;
-saveCont(co, clofun39, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517548_37);
+Obj v__3517650_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v__3518352_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518352_37) {
+Obj v__3518353_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518354_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3518353_37);
+if (True == v__3518354_37) {
+Obj v__3518355_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518356_37 = PRIM_ISCONS(v__3518355_37);
+if (True == v__3518356_37) {
+Obj v__3518357_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518358_37 = PRIM_CAR(v__3518357_37);
+Obj v__3517666_37 = v__3518358_37;
+Obj v__3518359_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518360_37 = PRIM_CDR(v__3518359_37);
+Obj v__3518361_37 = PRIM_ISCONS(v__3518360_37);
+if (True == v__3518361_37) {
+Obj v__3518362_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518363_37 = PRIM_CDR(v__3518362_37);
+Obj v__3518364_37 = PRIM_CAR(v__3518363_37);
+Obj v__3517667_37 = v__3518364_37;
+Obj v__3518365_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518366_37 = PRIM_CDR(v__3518365_37);
+Obj v__3518367_37 = PRIM_CDR(v__3518366_37);
+Obj v__3518368_37 = PRIM_ISCONS(v__3518367_37);
+if (True == v__3518368_37) {
+Obj v__3518369_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518370_37 = PRIM_CDR(v__3518369_37);
+Obj v__3518371_37 = PRIM_CDR(v__3518370_37);
+Obj v__3518372_37 = PRIM_CAR(v__3518371_37);
+Obj v__3517668_37 = v__3518372_37;
+Obj v__3518373_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518374_37 = PRIM_CDR(v__3518373_37);
+Obj v__3518375_37 = PRIM_CDR(v__3518374_37);
+Obj v__3518376_37 = PRIM_CDR(v__3518375_37);
+Obj v__3518377_37 = PRIM_EQ(Nil, v__3518376_37);
+if (True == v__3518377_37) {
+R[1] = v__3517668_37;
+R[2] = v__3517666_37;
+saveCont(co, clofun42, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517667_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517650_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518246_37= co->res;
-Obj v__3518243_37 = R[1];
+Obj v__3518381_37= co->res;
+Obj v__3518378_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3518243_37, v__3518246_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3518378_37, v__3518381_37);
 return;
 }
 case 2:
 {
-Obj v__3518244_37= co->res;
-Obj v__3517547_37 = R[1];
-Obj v__3518243_37 = R[2];
-Obj v__3518245_37 = makeCons(co->gc, v__3517547_37, Nil);
-R[1] = v__3518243_37;
-saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518244_37, v__3518245_37);
+Obj v__3518379_37= co->res;
+Obj v__3517666_37 = R[1];
+Obj v__3518378_37 = R[2];
+Obj v__3518380_37 = makeCons(co->gc, v__3517666_37, Nil);
+R[1] = v__3518378_37;
+saveCont(co, clofun42, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518379_37, v__3518380_37);
 return;
 }
 case 3:
 {
-Obj v__3518243_37= co->res;
-Obj v__3517549_37 = R[1];
-Obj v__3517547_37 = R[2];
-R[1] = v__3517547_37;
-R[2] = v__3518243_37;
-saveCont(co, clofun39, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517549_37);
+Obj v__3518378_37= co->res;
+Obj v__3517668_37 = R[1];
+Obj v__3517666_37 = R[2];
+R[1] = v__3517666_37;
+R[2] = v__3518378_37;
+saveCont(co, clofun42, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517668_37);
 return;
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517532_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v__3518207_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518207_37) {
-Obj v__3518208_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518209_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518208_37);
-if (True == v__3518209_37) {
-Obj v__3518210_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518211_37 = PRIM_ISCONS(v__3518210_37);
-if (True == v__3518211_37) {
-Obj v__3518212_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518213_37 = PRIM_CAR(v__3518212_37);
-Obj v__3517545_37 = v__3518213_37;
-Obj v__3518214_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518215_37 = PRIM_CDR(v__3518214_37);
-Obj v__3517546_37 = v__3518215_37;
-Obj v__3518216_37 = makeCons(co->gc, v__3517545_37, v__3517546_37);
+Obj v__3517651_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3518342_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518342_37) {
+Obj v__3518343_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518344_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518343_37);
+if (True == v__3518344_37) {
+Obj v__3518345_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518346_37 = PRIM_ISCONS(v__3518345_37);
+if (True == v__3518346_37) {
+Obj v__3518347_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518348_37 = PRIM_CAR(v__3518347_37);
+Obj v__3517664_37 = v__3518348_37;
+Obj v__3518349_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518350_37 = PRIM_CDR(v__3518349_37);
+Obj v__3517665_37 = v__3518350_37;
+Obj v__3518351_37 = makeCons(co->gc, v__3517664_37, v__3517665_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3518216_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3518351_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517532_37);
+coraCall0(co, v__3517651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517532_37);
+coraCall0(co, v__3517651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517532_37);
+coraCall0(co, v__3517651_37);
 return;
 }
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517533_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v__3518197_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518197_37) {
-Obj v__3518198_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518199_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518198_37);
-if (True == v__3518199_37) {
-Obj v__3518200_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518201_37 = PRIM_ISCONS(v__3518200_37);
-if (True == v__3518201_37) {
-Obj v__3518202_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518203_37 = PRIM_CAR(v__3518202_37);
-Obj v__3517544_37 = v__3518203_37;
-Obj v__3518204_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518205_37 = PRIM_CDR(v__3518204_37);
-Obj v__3518206_37 = PRIM_EQ(Nil, v__3518205_37);
-if (True == v__3518206_37) {
+Obj v__3517652_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3518332_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518332_37) {
+Obj v__3518333_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518334_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518333_37);
+if (True == v__3518334_37) {
+Obj v__3518335_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518336_37 = PRIM_ISCONS(v__3518335_37);
+if (True == v__3518336_37) {
+Obj v__3518337_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518338_37 = PRIM_CAR(v__3518337_37);
+Obj v__3517663_37 = v__3518338_37;
+Obj v__3518339_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518340_37 = PRIM_CDR(v__3518339_37);
+Obj v__3518341_37 = PRIM_EQ(Nil, v__3518340_37);
+if (True == v__3518341_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517544_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517663_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517652_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517652_37);
 return;
 }
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517534_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v__3518177_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518177_37) {
-Obj v__3518178_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518179_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518178_37);
-if (True == v__3518179_37) {
-Obj v__3518180_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518181_37 = PRIM_ISCONS(v__3518180_37);
-if (True == v__3518181_37) {
-Obj v__3518182_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518183_37 = PRIM_CAR(v__3518182_37);
-Obj v__3517542_37 = v__3518183_37;
-Obj v__3518184_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518185_37 = PRIM_CDR(v__3518184_37);
-Obj v__3518186_37 = PRIM_ISCONS(v__3518185_37);
-if (True == v__3518186_37) {
-Obj v__3518187_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518188_37 = PRIM_CDR(v__3518187_37);
-Obj v__3518189_37 = PRIM_CAR(v__3518188_37);
-Obj v__3517543_37 = v__3518189_37;
-Obj v__3518190_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518191_37 = PRIM_CDR(v__3518190_37);
-Obj v__3518192_37 = PRIM_CDR(v__3518191_37);
-Obj v__3518193_37 = PRIM_EQ(Nil, v__3518192_37);
-if (True == v__3518193_37) {
-Obj v__3518194_37 = makeCons(co->gc, v__3517543_37, Nil);
-Obj v__3518195_37 = makeCons(co->gc, v__3517542_37, v__3518194_37);
-saveCont(co, clofun36, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), globalRef(co, getBinding(co, packageID, 78)), v__3518195_37);
+Obj v__3517653_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3518312_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518312_37) {
+Obj v__3518313_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518314_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518313_37);
+if (True == v__3518314_37) {
+Obj v__3518315_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518316_37 = PRIM_ISCONS(v__3518315_37);
+if (True == v__3518316_37) {
+Obj v__3518317_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518318_37 = PRIM_CAR(v__3518317_37);
+Obj v__3517661_37 = v__3518318_37;
+Obj v__3518319_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518320_37 = PRIM_CDR(v__3518319_37);
+Obj v__3518321_37 = PRIM_ISCONS(v__3518320_37);
+if (True == v__3518321_37) {
+Obj v__3518322_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518323_37 = PRIM_CDR(v__3518322_37);
+Obj v__3518324_37 = PRIM_CAR(v__3518323_37);
+Obj v__3517662_37 = v__3518324_37;
+Obj v__3518325_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518326_37 = PRIM_CDR(v__3518325_37);
+Obj v__3518327_37 = PRIM_CDR(v__3518326_37);
+Obj v__3518328_37 = PRIM_EQ(Nil, v__3518327_37);
+if (True == v__3518328_37) {
+Obj v__3518329_37 = makeCons(co->gc, v__3517662_37, Nil);
+Obj v__3518330_37 = makeCons(co->gc, v__3517661_37, v__3518329_37);
+saveCont(co, clofun39, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3518330_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517653_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517653_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517653_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517653_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517653_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518196_37= co->res;
+Obj v__3518331_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518196_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518331_37);
 return;
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517535_37 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v__3518167_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518167_37) {
-Obj v__3518168_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518169_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3518168_37);
-if (True == v__3518169_37) {
-Obj v__3518170_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518171_37 = PRIM_ISCONS(v__3518170_37);
-if (True == v__3518171_37) {
-Obj v__3518172_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518173_37 = PRIM_CAR(v__3518172_37);
-Obj v__3517541_37 = v__3518173_37;
-Obj v__3518174_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518175_37 = PRIM_CDR(v__3518174_37);
-Obj v__3518176_37 = PRIM_EQ(Nil, v__3518175_37);
-if (True == v__3518176_37) {
+Obj v__3517654_37 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3518302_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518302_37) {
+Obj v__3518303_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518304_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3518303_37);
+if (True == v__3518304_37) {
+Obj v__3518305_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518306_37 = PRIM_ISCONS(v__3518305_37);
+if (True == v__3518306_37) {
+Obj v__3518307_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518308_37 = PRIM_CAR(v__3518307_37);
+Obj v__3517660_37 = v__3518308_37;
+Obj v__3518309_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518310_37 = PRIM_CDR(v__3518309_37);
+Obj v__3518311_37 = PRIM_EQ(Nil, v__3518310_37);
+if (True == v__3518311_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517541_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517660_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517654_37);
 return;
 }
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517536_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
-Obj v__3518149_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518149_37) {
-Obj v__3518150_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518151_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518150_37);
-if (True == v__3518151_37) {
-Obj v__3518152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518153_37 = PRIM_ISCONS(v__3518152_37);
-if (True == v__3518153_37) {
-Obj v__3518154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518155_37 = PRIM_CAR(v__3518154_37);
-Obj v__3517539_37 = v__3518155_37;
-Obj v__3518156_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518157_37 = PRIM_CDR(v__3518156_37);
-Obj v__3518158_37 = PRIM_ISCONS(v__3518157_37);
-if (True == v__3518158_37) {
-Obj v__3518159_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518160_37 = PRIM_CDR(v__3518159_37);
-Obj v__3518161_37 = PRIM_CAR(v__3518160_37);
-Obj v__3517540_37 = v__3518161_37;
-Obj v__3518162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518163_37 = PRIM_CDR(v__3518162_37);
-Obj v__3518164_37 = PRIM_CDR(v__3518163_37);
-Obj v__3518165_37 = PRIM_EQ(Nil, v__3518164_37);
-if (True == v__3518165_37) {
-R[1] = v__3517539_37;
-saveCont(co, clofun34, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517540_37);
+Obj v__3517655_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3518284_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518284_37) {
+Obj v__3518285_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518286_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518285_37);
+if (True == v__3518286_37) {
+Obj v__3518287_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518288_37 = PRIM_ISCONS(v__3518287_37);
+if (True == v__3518288_37) {
+Obj v__3518289_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518290_37 = PRIM_CAR(v__3518289_37);
+Obj v__3517658_37 = v__3518290_37;
+Obj v__3518291_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518292_37 = PRIM_CDR(v__3518291_37);
+Obj v__3518293_37 = PRIM_ISCONS(v__3518292_37);
+if (True == v__3518293_37) {
+Obj v__3518294_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518295_37 = PRIM_CDR(v__3518294_37);
+Obj v__3518296_37 = PRIM_CAR(v__3518295_37);
+Obj v__3517659_37 = v__3518296_37;
+Obj v__3518297_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518298_37 = PRIM_CDR(v__3518297_37);
+Obj v__3518299_37 = PRIM_CDR(v__3518298_37);
+Obj v__3518300_37 = PRIM_EQ(Nil, v__3518299_37);
+if (True == v__3518300_37) {
+R[1] = v__3517658_37;
+saveCont(co, clofun37, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517659_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517536_37);
+coraCall0(co, v__3517655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517536_37);
+coraCall0(co, v__3517655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517536_37);
+coraCall0(co, v__3517655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517536_37);
+coraCall0(co, v__3517655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517536_37);
+coraCall0(co, v__3517655_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518166_37= co->res;
-Obj v__3517539_37 = R[1];
+Obj v__3518301_37= co->res;
+Obj v__3517658_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518166_37, v__3517539_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518301_37, v__3517658_37);
 return;
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518144_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518144_37) {
-Obj v__3518145_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517537_37 = v__3518145_37;
-Obj v__3518146_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517538_37 = v__3518146_37;
-Obj v__3518147_37 = makeCons(co->gc, v__3517537_37, v__3517538_37);
-saveCont(co, clofun33, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), globalRef(co, getBinding(co, packageID, 78)), v__3518147_37);
+Obj v__3518279_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518279_37) {
+Obj v__3518280_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517656_37 = v__3518280_37;
+Obj v__3518281_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517657_37 = v__3518281_37;
+Obj v__3518282_37 = makeCons(co->gc, v__3517656_37, v__3517657_37);
+saveCont(co, clofun36, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3518282_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3518148_37= co->res;
+Obj v__3518283_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518148_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518283_37);
 return;
 }
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517344_37 = R[1];
-Obj v__3517521_37 = makeNative(co->gc, 1, clofun31, 0, 1, v__3517344_37);
-Obj v__3518130_37 = PRIM_ISCONS(v__3517344_37);
-if (True == v__3518130_37) {
-Obj v__3518131_37 = PRIM_CAR(v__3517344_37);
-Obj v__3518132_37 = PRIM_EQ(getBinding(co, packageID, 98).name, v__3518131_37);
-if (True == v__3518132_37) {
-Obj v__3518133_37 = PRIM_CDR(v__3517344_37);
-Obj v__3518134_37 = PRIM_ISCONS(v__3518133_37);
-if (True == v__3518134_37) {
-Obj v__3518135_37 = PRIM_CDR(v__3517344_37);
-Obj v__3518136_37 = PRIM_CAR(v__3518135_37);
-Obj v__3518137_37 = PRIM_CDR(v__3517344_37);
-Obj v__3518138_37 = PRIM_CDR(v__3518137_37);
-Obj v__3518139_37 = PRIM_EQ(Nil, v__3518138_37);
-if (True == v__3518139_37) {
+Obj v__3517456_37 = R[1];
+Obj v__3517640_37 = makeNative(co->gc, 1, clofun34, 0, 1, v__3517456_37);
+Obj v__3518265_37 = PRIM_ISCONS(v__3517456_37);
+if (True == v__3518265_37) {
+Obj v__3518266_37 = PRIM_CAR(v__3517456_37);
+Obj v__3518267_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3518266_37);
+if (True == v__3518267_37) {
+Obj v__3518268_37 = PRIM_CDR(v__3517456_37);
+Obj v__3518269_37 = PRIM_ISCONS(v__3518268_37);
+if (True == v__3518269_37) {
+Obj v__3518270_37 = PRIM_CDR(v__3517456_37);
+Obj v__3518271_37 = PRIM_CAR(v__3518270_37);
+Obj v__3518272_37 = PRIM_CDR(v__3517456_37);
+Obj v__3518273_37 = PRIM_CDR(v__3518272_37);
+Obj v__3518274_37 = PRIM_EQ(Nil, v__3518273_37);
+if (True == v__3518274_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517521_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517521_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517521_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517521_37);
+coraCall0(co, v__3517640_37);
 return;
 }
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517522_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v__3518120_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518120_37) {
-Obj v__3518121_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518122_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518121_37);
-if (True == v__3518122_37) {
-Obj v__3518123_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518124_37 = PRIM_ISCONS(v__3518123_37);
-if (True == v__3518124_37) {
-Obj v__3518125_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518126_37 = PRIM_CAR(v__3518125_37);
-Obj v__3518127_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518128_37 = PRIM_CDR(v__3518127_37);
-Obj v__3518129_37 = PRIM_EQ(Nil, v__3518128_37);
-if (True == v__3518129_37) {
+Obj v__3517641_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj v__3518255_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518255_37) {
+Obj v__3518256_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518257_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3518256_37);
+if (True == v__3518257_37) {
+Obj v__3518258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518259_37 = PRIM_ISCONS(v__3518258_37);
+if (True == v__3518259_37) {
+Obj v__3518260_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518261_37 = PRIM_CAR(v__3518260_37);
+Obj v__3518262_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518263_37 = PRIM_CDR(v__3518262_37);
+Obj v__3518264_37 = PRIM_EQ(Nil, v__3518263_37);
+if (True == v__3518264_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517522_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517522_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517522_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517522_37);
+coraCall0(co, v__3517641_37);
 return;
 }
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517523_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v__3518110_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518110_37) {
-Obj v__3518111_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518112_37 = PRIM_EQ(getBinding(co, packageID, 93).name, v__3518111_37);
-if (True == v__3518112_37) {
-Obj v__3518113_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518114_37 = PRIM_ISCONS(v__3518113_37);
-if (True == v__3518114_37) {
-Obj v__3518115_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518116_37 = PRIM_CAR(v__3518115_37);
-Obj v__3518117_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518118_37 = PRIM_CDR(v__3518117_37);
-Obj v__3518119_37 = PRIM_EQ(Nil, v__3518118_37);
-if (True == v__3518119_37) {
+Obj v__3517642_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj v__3518245_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518245_37) {
+Obj v__3518246_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518247_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518246_37);
+if (True == v__3518247_37) {
+Obj v__3518248_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518249_37 = PRIM_ISCONS(v__3518248_37);
+if (True == v__3518249_37) {
+Obj v__3518250_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518251_37 = PRIM_CAR(v__3518250_37);
+Obj v__3518252_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518253_37 = PRIM_CDR(v__3518252_37);
+Obj v__3518254_37 = PRIM_EQ(Nil, v__3518253_37);
+if (True == v__3518254_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517523_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517523_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517523_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517523_37);
+coraCall0(co, v__3517642_37);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517524_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj v__3518100_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518100_37) {
-Obj v__3518101_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518102_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518101_37);
-if (True == v__3518102_37) {
-Obj v__3518103_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518104_37 = PRIM_ISCONS(v__3518103_37);
-if (True == v__3518104_37) {
-Obj v__3518105_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518106_37 = PRIM_CAR(v__3518105_37);
-Obj v__3518107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518108_37 = PRIM_CDR(v__3518107_37);
-Obj v__3518109_37 = PRIM_EQ(Nil, v__3518108_37);
-if (True == v__3518109_37) {
+Obj v__3517643_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj v__3518235_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518235_37) {
+Obj v__3518236_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518237_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518236_37);
+if (True == v__3518237_37) {
+Obj v__3518238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518239_37 = PRIM_ISCONS(v__3518238_37);
+if (True == v__3518239_37) {
+Obj v__3518240_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518241_37 = PRIM_CAR(v__3518240_37);
+Obj v__3518242_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518243_37 = PRIM_CDR(v__3518242_37);
+Obj v__3518244_37 = PRIM_EQ(Nil, v__3518243_37);
+if (True == v__3518244_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517524_37);
+coraCall0(co, v__3517643_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517524_37);
+coraCall0(co, v__3517643_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517524_37);
+coraCall0(co, v__3517643_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517524_37);
+coraCall0(co, v__3517643_37);
 return;
 }
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517525_37 = makeNative(co->gc, 2, clofun27, 0, 1, closureRef(R[0], 0));
-Obj v__3518090_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518090_37) {
-Obj v__3518091_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518092_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3518091_37);
-if (True == v__3518092_37) {
-Obj v__3518093_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518094_37 = PRIM_ISCONS(v__3518093_37);
-if (True == v__3518094_37) {
-Obj v__3518095_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518096_37 = PRIM_CAR(v__3518095_37);
-Obj v__3518097_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518098_37 = PRIM_CDR(v__3518097_37);
-Obj v__3518099_37 = PRIM_EQ(Nil, v__3518098_37);
-if (True == v__3518099_37) {
+Obj v__3517644_37 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3518225_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518225_37) {
+Obj v__3518226_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518227_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3518226_37);
+if (True == v__3518227_37) {
+Obj v__3518228_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518229_37 = PRIM_ISCONS(v__3518228_37);
+if (True == v__3518229_37) {
+Obj v__3518230_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518231_37 = PRIM_CAR(v__3518230_37);
+Obj v__3518232_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518233_37 = PRIM_CDR(v__3518232_37);
+Obj v__3518234_37 = PRIM_EQ(Nil, v__3518233_37);
+if (True == v__3518234_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517525_37);
+coraCall0(co, v__3517644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517525_37);
+coraCall0(co, v__3517644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517525_37);
+coraCall0(co, v__3517644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517525_37);
+coraCall0(co, v__3517644_37);
 return;
 }
 }
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517526_37 = makeNative(co->gc, 1, clofun26, 0, 0);
-Obj v__3518080_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518080_37) {
-Obj v__3518081_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518082_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518081_37);
-if (True == v__3518082_37) {
-Obj v__3518083_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518084_37 = PRIM_ISCONS(v__3518083_37);
-if (True == v__3518084_37) {
-Obj v__3518085_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518086_37 = PRIM_CAR(v__3518085_37);
-Obj v__3517527_37 = v__3518086_37;
-Obj v__3518087_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518088_37 = PRIM_CDR(v__3518087_37);
-R[1] = v__3517526_37;
-saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517527_37);
+Obj v__3517645_37 = makeNative(co->gc, 1, clofun29, 0, 0);
+Obj v__3518215_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518215_37) {
+Obj v__3518216_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518217_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518216_37);
+if (True == v__3518217_37) {
+Obj v__3518218_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518219_37 = PRIM_ISCONS(v__3518218_37);
+if (True == v__3518219_37) {
+Obj v__3518220_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518221_37 = PRIM_CAR(v__3518220_37);
+Obj v__3517646_37 = v__3518221_37;
+Obj v__3518222_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518223_37 = PRIM_CDR(v__3518222_37);
+R[1] = v__3517645_37;
+saveCont(co, clofun30, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517646_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517526_37);
+coraCall0(co, v__3517645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517526_37);
+coraCall0(co, v__3517645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517526_37);
+coraCall0(co, v__3517645_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518089_37= co->res;
-Obj v__3517526_37 = R[1];
-if (True == v__3518089_37) {
+Obj v__3518224_37= co->res;
+Obj v__3517645_37 = R[1];
+if (True == v__3518224_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517526_37);
+coraCall0(co, v__3517645_37);
 return;
 }
 }
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7598,232 +7603,232 @@ return;
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517339_37 = R[1];
-Obj v__3517340_37 = R[2];
-Obj v__3518069_37 = PRIM_EQ(Nil, v__3517339_37);
-if (True == v__3518069_37) {
+Obj v__3517451_37 = R[1];
+Obj v__3517452_37 = R[2];
+Obj v__3518204_37 = PRIM_EQ(Nil, v__3517451_37);
+if (True == v__3518204_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517516_37 = makeNative(co->gc, 2, clofun24, 0, 2, v__3517339_37, v__3517340_37);
-Obj v__3518075_37 = PRIM_ISCONS(v__3517339_37);
-if (True == v__3518075_37) {
-Obj v__3518076_37 = PRIM_CAR(v__3517339_37);
-Obj v__3517519_37 = v__3518076_37;
-Obj v__3518077_37 = PRIM_CDR(v__3517339_37);
-Obj v__3517520_37 = v__3518077_37;
-R[1] = v__3517520_37;
-R[2] = v__3517340_37;
-R[3] = v__3517516_37;
-saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517519_37, v__3517340_37);
+Obj v__3517635_37 = makeNative(co->gc, 2, clofun27, 0, 2, v__3517451_37, v__3517452_37);
+Obj v__3518210_37 = PRIM_ISCONS(v__3517451_37);
+if (True == v__3518210_37) {
+Obj v__3518211_37 = PRIM_CAR(v__3517451_37);
+Obj v__3517638_37 = v__3518211_37;
+Obj v__3518212_37 = PRIM_CDR(v__3517451_37);
+Obj v__3517639_37 = v__3518212_37;
+R[1] = v__3517639_37;
+R[2] = v__3517452_37;
+R[3] = v__3517635_37;
+saveCont(co, clofun28, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517638_37, v__3517452_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517516_37);
+coraCall0(co, v__3517635_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518078_37= co->res;
-Obj v__3517520_37 = R[1];
-Obj v__3517340_37 = R[2];
-Obj v__3517516_37 = R[3];
-if (True == v__3518078_37) {
+Obj v__3518213_37= co->res;
+Obj v__3517639_37 = R[1];
+Obj v__3517452_37 = R[2];
+Obj v__3517635_37 = R[3];
+if (True == v__3518213_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517520_37, v__3517340_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517639_37, v__3517452_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517516_37);
+coraCall0(co, v__3517635_37);
 return;
 }
 }
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518070_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518070_37) {
-Obj v__3518071_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517517_37 = v__3518071_37;
-Obj v__3518072_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517518_37 = v__3518072_37;
-R[1] = v__3517517_37;
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517518_37, closureRef(R[0], 1));
+Obj v__3518205_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518205_37) {
+Obj v__3518206_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517636_37 = v__3518206_37;
+Obj v__3518207_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517637_37 = v__3518207_37;
+R[1] = v__3517636_37;
+saveCont(co, clofun27, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517637_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3518073_37= co->res;
-Obj v__3517517_37 = R[1];
-Obj v__3518074_37 = makeCons(co->gc, v__3517517_37, v__3518073_37);
-coraReturn(co, v__3518074_37);
+Obj v__3518208_37= co->res;
+Obj v__3517636_37 = R[1];
+Obj v__3518209_37 = makeCons(co->gc, v__3517636_37, v__3518208_37);
+coraReturn(co, v__3518209_37);
 return;
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517334_37 = R[1];
-Obj v__3517335_37 = R[2];
-Obj v__3518058_37 = PRIM_EQ(Nil, v__3517334_37);
-if (True == v__3518058_37) {
-coraReturn(co, v__3517335_37);
+Obj v__3517446_37 = R[1];
+Obj v__3517447_37 = R[2];
+Obj v__3518193_37 = PRIM_EQ(Nil, v__3517446_37);
+if (True == v__3518193_37) {
+coraReturn(co, v__3517447_37);
 return;
 } else {
-Obj v__3517511_37 = makeNative(co->gc, 2, clofun22, 0, 2, v__3517334_37, v__3517335_37);
-Obj v__3518064_37 = PRIM_ISCONS(v__3517334_37);
-if (True == v__3518064_37) {
-Obj v__3518065_37 = PRIM_CAR(v__3517334_37);
-Obj v__3517514_37 = v__3518065_37;
-Obj v__3518066_37 = PRIM_CDR(v__3517334_37);
-Obj v__3517515_37 = v__3518066_37;
-R[1] = v__3517515_37;
-R[2] = v__3517335_37;
-R[3] = v__3517511_37;
-saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517514_37, v__3517335_37);
+Obj v__3517630_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3517446_37, v__3517447_37);
+Obj v__3518199_37 = PRIM_ISCONS(v__3517446_37);
+if (True == v__3518199_37) {
+Obj v__3518200_37 = PRIM_CAR(v__3517446_37);
+Obj v__3517633_37 = v__3518200_37;
+Obj v__3518201_37 = PRIM_CDR(v__3517446_37);
+Obj v__3517634_37 = v__3518201_37;
+R[1] = v__3517634_37;
+R[2] = v__3517447_37;
+R[3] = v__3517630_37;
+saveCont(co, clofun26, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517633_37, v__3517447_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517511_37);
+coraCall0(co, v__3517630_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518067_37= co->res;
-Obj v__3517515_37 = R[1];
-Obj v__3517335_37 = R[2];
-Obj v__3517511_37 = R[3];
-if (True == v__3518067_37) {
+Obj v__3518202_37= co->res;
+Obj v__3517634_37 = R[1];
+Obj v__3517447_37 = R[2];
+Obj v__3517630_37 = R[3];
+if (True == v__3518202_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3517515_37, v__3517335_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3517634_37, v__3517447_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517511_37);
+coraCall0(co, v__3517630_37);
 return;
 }
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518059_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518059_37) {
-Obj v__3518060_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517512_37 = v__3518060_37;
-Obj v__3518061_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517513_37 = v__3518061_37;
-R[1] = v__3517512_37;
-saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3517513_37, closureRef(R[0], 1));
+Obj v__3518194_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518194_37) {
+Obj v__3518195_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517631_37 = v__3518195_37;
+Obj v__3518196_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517632_37 = v__3518196_37;
+R[1] = v__3517631_37;
+saveCont(co, clofun25, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3517632_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3518062_37= co->res;
-Obj v__3517512_37 = R[1];
-Obj v__3518063_37 = makeCons(co->gc, v__3517512_37, v__3518062_37);
-coraReturn(co, v__3518063_37);
+Obj v__3518197_37= co->res;
+Obj v__3517631_37 = R[1];
+Obj v__3518198_37 = makeCons(co->gc, v__3517631_37, v__3518197_37);
+coraReturn(co, v__3518198_37);
 return;
 }
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517320_37 = R[1];
-Obj v__3517321_37 = R[2];
-Obj v__3517322_37 = R[3];
-Obj v__3517479_37 = makeNative(co->gc, 2, clofun20, 1, 3, v__3517320_37, v__3517322_37, v__3517321_37);
-R[1] = v__3517322_37;
-R[2] = v__3517479_37;
-saveCont(co, clofun21, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517322_37);
+Obj v__3517432_37 = R[1];
+Obj v__3517433_37 = R[2];
+Obj v__3517434_37 = R[3];
+Obj v__3517597_37 = makeNative(co->gc, 2, clofun23, 1, 3, v__3517432_37, v__3517434_37, v__3517433_37);
+R[1] = v__3517434_37;
+R[2] = v__3517597_37;
+saveCont(co, clofun24, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517434_37);
 return;
 }
 case 1:
 {
-Obj v__3518056_37= co->res;
-Obj v__3517479_37 = R[1];
-if (True == v__3518056_37) {
+Obj v__3518191_37= co->res;
+Obj v__3517597_37 = R[1];
+if (True == v__3518191_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517479_37, True);
+coraCall1(co, v__3517597_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517479_37, False);
+coraCall1(co, v__3517597_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518055_37= co->res;
-Obj v__3517322_37 = R[1];
-Obj v__3517479_37 = R[2];
-if (True == v__3518055_37) {
+Obj v__3518190_37= co->res;
+Obj v__3517434_37 = R[1];
+Obj v__3517597_37 = R[2];
+if (True == v__3518190_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517479_37, True);
+coraCall1(co, v__3517597_37, True);
 return;
 } else {
-R[1] = v__3517479_37;
-saveCont(co, clofun21, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517322_37);
+R[1] = v__3517597_37;
+saveCont(co, clofun24, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517434_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3518053_37= co->res;
-Obj v__3517322_37 = R[1];
-Obj v__3517479_37 = R[2];
-if (True == v__3518053_37) {
+Obj v__3518188_37= co->res;
+Obj v__3517434_37 = R[1];
+Obj v__3517597_37 = R[2];
+if (True == v__3518188_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517479_37, True);
+coraCall1(co, v__3517597_37, True);
 return;
 } else {
-Obj v__3518054_37 = primIsString(v__3517322_37);
-if (True == v__3518054_37) {
+Obj v__3518189_37 = primIsString(v__3517434_37);
+if (True == v__3518189_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517479_37, True);
+coraCall1(co, v__3517597_37, True);
 return;
 } else {
-R[1] = v__3517322_37;
-R[2] = v__3517479_37;
-saveCont(co, clofun21, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), v__3517322_37);
+R[1] = v__3517434_37;
+R[2] = v__3517597_37;
+saveCont(co, clofun24, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), v__3517434_37);
 return;
 }
 }
@@ -7831,759 +7836,877 @@ return;
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517478_37 = R[1];
-if (True == v__3517478_37) {
-Obj v__3517858_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v__3517859_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, v__3517858_37);
-coraReturn(co, v__3517859_37);
+Obj v__3517596_37 = R[1];
+if (True == v__3517596_37) {
+Obj v__3517991_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v__3517992_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3517991_37);
+coraReturn(co, v__3517992_37);
 return;
 } else {
-Obj v__3517480_37 = makeNative(co->gc, 3, clofun19, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj v__3518040_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518040_37) {
-Obj v__3518041_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518042_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518041_37);
-if (True == v__3518042_37) {
-Obj v__3518043_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518044_37 = PRIM_ISCONS(v__3518043_37);
-if (True == v__3518044_37) {
-Obj v__3518045_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518046_37 = PRIM_CAR(v__3518045_37);
-Obj v__3517510_37 = v__3518046_37;
-Obj v__3518047_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518048_37 = PRIM_CDR(v__3518047_37);
-Obj v__3518049_37 = PRIM_EQ(Nil, v__3518048_37);
-if (True == v__3518049_37) {
-R[1] = v__3517510_37;
-saveCont(co, clofun20, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), v__3517510_37, closureRef(R[0], 2));
+Obj v__3517598_37 = makeNative(co->gc, 3, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v__3518175_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518175_37) {
+Obj v__3518176_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518177_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518176_37);
+if (True == v__3518177_37) {
+Obj v__3518178_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518179_37 = PRIM_ISCONS(v__3518178_37);
+if (True == v__3518179_37) {
+Obj v__3518180_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518181_37 = PRIM_CAR(v__3518180_37);
+Obj v__3517629_37 = v__3518181_37;
+Obj v__3518182_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518183_37 = PRIM_CDR(v__3518182_37);
+Obj v__3518184_37 = PRIM_EQ(Nil, v__3518183_37);
+if (True == v__3518184_37) {
+R[1] = v__3517629_37;
+saveCont(co, clofun23, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3517629_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517480_37);
+coraCall0(co, v__3517598_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517480_37);
+coraCall0(co, v__3517598_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517480_37);
+coraCall0(co, v__3517598_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517480_37);
+coraCall0(co, v__3517598_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518050_37= co->res;
-Obj v__3517510_37 = R[1];
-Obj v__3518051_37 = makeCons(co->gc, v__3517510_37, Nil);
-Obj v__3518052_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, v__3518051_37);
-coraReturn(co, v__3518052_37);
+Obj v__3518185_37= co->res;
+Obj v__3517629_37 = R[1];
+Obj v__3518186_37 = makeCons(co->gc, v__3517629_37, Nil);
+Obj v__3518187_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3518186_37);
+coraReturn(co, v__3518187_37);
 return;
 }
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517860_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3517860_37) {
-saveCont(co, clofun19, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj v__3517482_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518016_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518016_37) {
-Obj v__3518017_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518018_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518017_37);
-if (True == v__3518018_37) {
-Obj v__3518019_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518020_37 = PRIM_ISCONS(v__3518019_37);
-if (True == v__3518020_37) {
-Obj v__3518021_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518022_37 = PRIM_CAR(v__3518021_37);
-Obj v__3517508_37 = v__3518022_37;
-Obj v__3518023_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518024_37 = PRIM_CDR(v__3518023_37);
-Obj v__3518025_37 = PRIM_ISCONS(v__3518024_37);
-if (True == v__3518025_37) {
-Obj v__3518026_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518027_37 = PRIM_CDR(v__3518026_37);
-Obj v__3518028_37 = PRIM_CAR(v__3518027_37);
-Obj v__3517509_37 = v__3518028_37;
-Obj v__3518029_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518030_37 = PRIM_CDR(v__3518029_37);
-Obj v__3518031_37 = PRIM_CDR(v__3518030_37);
-Obj v__3518032_37 = PRIM_EQ(Nil, v__3518031_37);
-if (True == v__3518032_37) {
-R[1] = v__3517509_37;
-R[2] = v__3517508_37;
-saveCont(co, clofun19, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), makeNative(co->gc, 2, clofun18, 1, 0), v__3517508_37);
+Obj v__3517993_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3517993_37) {
+saveCont(co, clofun22, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj v__3517600_37 = makeNative(co->gc, 1, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518151_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518151_37) {
+Obj v__3518152_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518153_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518152_37);
+if (True == v__3518153_37) {
+Obj v__3518154_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518155_37 = PRIM_ISCONS(v__3518154_37);
+if (True == v__3518155_37) {
+Obj v__3518156_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518157_37 = PRIM_CAR(v__3518156_37);
+Obj v__3517627_37 = v__3518157_37;
+Obj v__3518158_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518159_37 = PRIM_CDR(v__3518158_37);
+Obj v__3518160_37 = PRIM_ISCONS(v__3518159_37);
+if (True == v__3518160_37) {
+Obj v__3518161_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518162_37 = PRIM_CDR(v__3518161_37);
+Obj v__3518163_37 = PRIM_CAR(v__3518162_37);
+Obj v__3517628_37 = v__3518163_37;
+Obj v__3518164_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518165_37 = PRIM_CDR(v__3518164_37);
+Obj v__3518166_37 = PRIM_CDR(v__3518165_37);
+Obj v__3518167_37 = PRIM_EQ(Nil, v__3518166_37);
+if (True == v__3518167_37) {
+R[1] = v__3517628_37;
+R[2] = v__3517627_37;
+saveCont(co, clofun22, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun21, 1, 0), v__3517627_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517482_37);
+coraCall0(co, v__3517600_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517482_37);
+coraCall0(co, v__3517600_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517482_37);
+coraCall0(co, v__3517600_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517482_37);
+coraCall0(co, v__3517600_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517482_37);
+coraCall0(co, v__3517600_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3517863_37= co->res;
-Obj v__3517864_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3517865_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3517864_37);
-coraReturn(co, v__3517865_37);
+Obj v__3517996_37= co->res;
+Obj v__3517997_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3517998_37 = makeCons(co->gc, getBinding(co, packageID, 95).name, v__3517997_37);
+coraReturn(co, v__3517998_37);
 return;
 }
 case 2:
 {
-Obj v__3517862_37= co->res;
-Obj v__3517481_37 = R[1];
-if (True == v__3517862_37) {
-saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v__3517995_37= co->res;
+Obj v__3517599_37 = R[1];
+if (True == v__3517995_37) {
+saveCont(co, clofun22, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3517866_37 = PRIM_CDR(v__3517481_37);
-coraReturn(co, v__3517866_37);
+Obj v__3517999_37 = PRIM_CDR(v__3517599_37);
+coraReturn(co, v__3517999_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3517861_37= co->res;
-Obj v__3517481_37 = v__3517861_37;
-R[1] = v__3517481_37;
-saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517481_37);
+Obj v__3517994_37= co->res;
+Obj v__3517599_37 = v__3517994_37;
+R[1] = v__3517599_37;
+saveCont(co, clofun22, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517599_37);
 return;
 }
 case 4:
 {
-Obj v__3518036_37= co->res;
-Obj v__3517508_37 = R[1];
-Obj v__3518037_37 = makeCons(co->gc, v__3518036_37, Nil);
-Obj v__3518038_37 = makeCons(co->gc, v__3517508_37, v__3518037_37);
-Obj v__3518039_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518038_37);
-coraReturn(co, v__3518039_37);
+Obj v__3518171_37= co->res;
+Obj v__3517627_37 = R[1];
+Obj v__3518172_37 = makeCons(co->gc, v__3518171_37, Nil);
+Obj v__3518173_37 = makeCons(co->gc, v__3517627_37, v__3518172_37);
+Obj v__3518174_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518173_37);
+coraReturn(co, v__3518174_37);
 return;
 }
 case 5:
 {
-Obj v__3518035_37= co->res;
-Obj v__3517509_37 = R[1];
-Obj v__3517508_37 = R[2];
-R[1] = v__3517508_37;
-saveCont(co, clofun19, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), v__3518035_37, closureRef(R[0], 2), v__3517509_37);
+Obj v__3518170_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517627_37 = R[2];
+R[1] = v__3517627_37;
+saveCont(co, clofun22, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3518170_37, closureRef(R[0], 2), v__3517628_37);
 return;
 }
 case 6:
 {
-Obj v__3518034_37= co->res;
-Obj v__3517509_37 = R[1];
-Obj v__3517508_37 = R[2];
-R[1] = v__3517509_37;
-R[2] = v__3517508_37;
-saveCont(co, clofun19, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v__3518034_37, closureRef(R[0], 1));
+Obj v__3518169_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517627_37 = R[2];
+R[1] = v__3517628_37;
+R[2] = v__3517627_37;
+saveCont(co, clofun22, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3518169_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3518033_37 = makeCons(co->gc, v_x, v_x);
-coraReturn(co, v__3518033_37);
+Obj v__3518168_37 = makeCons(co->gc, v_x, v_x);
+coraReturn(co, v__3518168_37);
 return;
 }
 }
 }
 
-static void clofun17(struct Cora* co, int label, Obj *R) {
+static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517483_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517984_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517984_37) {
-Obj v__3517985_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517986_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517985_37);
-if (True == v__3517986_37) {
-Obj v__3517987_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517988_37 = PRIM_ISCONS(v__3517987_37);
-if (True == v__3517988_37) {
-Obj v__3517989_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517990_37 = PRIM_CAR(v__3517989_37);
-Obj v__3517991_37 = PRIM_ISCONS(v__3517990_37);
-if (True == v__3517991_37) {
-Obj v__3517992_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517993_37 = PRIM_CAR(v__3517992_37);
-Obj v__3517994_37 = PRIM_CAR(v__3517993_37);
-Obj v__3517995_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517994_37);
-if (True == v__3517995_37) {
-Obj v__3517996_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517997_37 = PRIM_CAR(v__3517996_37);
-Obj v__3517998_37 = PRIM_CDR(v__3517997_37);
-Obj v__3517504_37 = v__3517998_37;
-Obj v__3517999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518000_37 = PRIM_CDR(v__3517999_37);
-Obj v__3517505_37 = v__3518000_37;
-Obj v__3518001_37 = primGenSym(co);
-Obj v__3517506_37 = v__3518001_37;
-Obj v__3518002_37 = primGenSym(co);
-Obj v__3517507_37 = v__3518002_37;
-Obj v__3518003_37 = makeCons(co->gc, v__3517507_37, Nil);
-Obj v__3518004_37 = makeCons(co->gc, v__3517507_37, v__3517505_37);
-Obj v__3518005_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518004_37);
-Obj v__3518006_37 = makeCons(co->gc, v__3518005_37, Nil);
-Obj v__3518007_37 = makeCons(co->gc, v__3518003_37, v__3518006_37);
-Obj v__3518008_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518007_37);
-Obj v__3518009_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517504_37);
-Obj v__3518010_37 = makeCons(co->gc, v__3518009_37, Nil);
-Obj v__3518011_37 = makeCons(co->gc, v__3517506_37, v__3518010_37);
-Obj v__3518012_37 = makeCons(co->gc, v__3518011_37, Nil);
-Obj v__3518013_37 = makeCons(co->gc, v__3518008_37, v__3518012_37);
-Obj v__3518014_37 = makeCons(co->gc, v__3517506_37, v__3518013_37);
-Obj v__3518015_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518014_37);
+Obj v__3517601_37 = makeNative(co->gc, 2, clofun19, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518119_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518119_37) {
+Obj v__3518120_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518121_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518120_37);
+if (True == v__3518121_37) {
+Obj v__3518122_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518123_37 = PRIM_ISCONS(v__3518122_37);
+if (True == v__3518123_37) {
+Obj v__3518124_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518125_37 = PRIM_CAR(v__3518124_37);
+Obj v__3518126_37 = PRIM_ISCONS(v__3518125_37);
+if (True == v__3518126_37) {
+Obj v__3518127_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518128_37 = PRIM_CAR(v__3518127_37);
+Obj v__3518129_37 = PRIM_CAR(v__3518128_37);
+Obj v__3518130_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518129_37);
+if (True == v__3518130_37) {
+Obj v__3518131_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518132_37 = PRIM_CAR(v__3518131_37);
+Obj v__3518133_37 = PRIM_CDR(v__3518132_37);
+Obj v__3517623_37 = v__3518133_37;
+Obj v__3518134_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518135_37 = PRIM_CDR(v__3518134_37);
+Obj v__3517624_37 = v__3518135_37;
+Obj v__3518136_37 = primGenSym(co);
+Obj v__3517625_37 = v__3518136_37;
+Obj v__3518137_37 = primGenSym(co);
+Obj v__3517626_37 = v__3518137_37;
+Obj v__3518138_37 = makeCons(co->gc, v__3517626_37, Nil);
+Obj v__3518139_37 = makeCons(co->gc, v__3517626_37, v__3517624_37);
+Obj v__3518140_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518139_37);
+Obj v__3518141_37 = makeCons(co->gc, v__3518140_37, Nil);
+Obj v__3518142_37 = makeCons(co->gc, v__3518138_37, v__3518141_37);
+Obj v__3518143_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518142_37);
+Obj v__3518144_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3517623_37);
+Obj v__3518145_37 = makeCons(co->gc, v__3518144_37, Nil);
+Obj v__3518146_37 = makeCons(co->gc, v__3517625_37, v__3518145_37);
+Obj v__3518147_37 = makeCons(co->gc, v__3518146_37, Nil);
+Obj v__3518148_37 = makeCons(co->gc, v__3518143_37, v__3518147_37);
+Obj v__3518149_37 = makeCons(co->gc, v__3517625_37, v__3518148_37);
+Obj v__3518150_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518149_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518015_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518150_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517483_37);
+coraCall0(co, v__3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517483_37);
+coraCall0(co, v__3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517483_37);
+coraCall0(co, v__3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517483_37);
+coraCall0(co, v__3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517483_37);
+coraCall0(co, v__3517601_37);
 return;
 }
 }
 }
 }
 
-static void clofun16(struct Cora* co, int label, Obj *R) {
+static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517484_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517977_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517977_37) {
-Obj v__3517978_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517979_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517978_37);
-if (True == v__3517979_37) {
-Obj v__3517980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517503_37 = v__3517980_37;
-R[1] = v__3517503_37;
-saveCont(co, clofun16, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517602_37 = makeNative(co->gc, 2, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518112_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518112_37) {
+Obj v__3518113_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518114_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518113_37);
+if (True == v__3518114_37) {
+Obj v__3518115_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517622_37 = v__3518115_37;
+R[1] = v__3517622_37;
+saveCont(co, clofun19, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517484_37);
+coraCall0(co, v__3517602_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517484_37);
+coraCall0(co, v__3517602_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517982_37= co->res;
-Obj v__3517983_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517982_37);
-coraReturn(co, v__3517983_37);
+Obj v__3518117_37= co->res;
+Obj v__3518118_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518117_37);
+coraReturn(co, v__3518118_37);
 return;
 }
 case 2:
 {
-Obj v__3517981_37= co->res;
-Obj v__3517503_37 = R[1];
-saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517981_37, v__3517503_37);
+Obj v__3518116_37= co->res;
+Obj v__3517622_37 = R[1];
+saveCont(co, clofun19, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518116_37, v__3517622_37);
 return;
 }
 }
 }
 
-static void clofun15(struct Cora* co, int label, Obj *R) {
+static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517485_37 = makeNative(co->gc, 4, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517955_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517955_37) {
-Obj v__3517956_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517957_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517956_37);
-if (True == v__3517957_37) {
-Obj v__3517958_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517959_37 = PRIM_ISCONS(v__3517958_37);
-if (True == v__3517959_37) {
-Obj v__3517960_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517961_37 = PRIM_CAR(v__3517960_37);
-Obj v__3517501_37 = v__3517961_37;
-Obj v__3517962_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517963_37 = PRIM_CDR(v__3517962_37);
-Obj v__3517964_37 = PRIM_ISCONS(v__3517963_37);
-if (True == v__3517964_37) {
-Obj v__3517965_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517966_37 = PRIM_CDR(v__3517965_37);
-Obj v__3517967_37 = PRIM_CAR(v__3517966_37);
-Obj v__3517502_37 = v__3517967_37;
-Obj v__3517968_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517969_37 = PRIM_CDR(v__3517968_37);
-Obj v__3517970_37 = PRIM_CDR(v__3517969_37);
-Obj v__3517971_37 = PRIM_EQ(Nil, v__3517970_37);
-if (True == v__3517971_37) {
-R[1] = v__3517502_37;
-saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517501_37);
+Obj v__3517603_37 = makeNative(co->gc, 4, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518090_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518090_37) {
+Obj v__3518091_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518092_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518091_37);
+if (True == v__3518092_37) {
+Obj v__3518093_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518094_37 = PRIM_ISCONS(v__3518093_37);
+if (True == v__3518094_37) {
+Obj v__3518095_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518096_37 = PRIM_CAR(v__3518095_37);
+Obj v__3517620_37 = v__3518096_37;
+Obj v__3518097_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518098_37 = PRIM_CDR(v__3518097_37);
+Obj v__3518099_37 = PRIM_ISCONS(v__3518098_37);
+if (True == v__3518099_37) {
+Obj v__3518100_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518101_37 = PRIM_CDR(v__3518100_37);
+Obj v__3518102_37 = PRIM_CAR(v__3518101_37);
+Obj v__3517621_37 = v__3518102_37;
+Obj v__3518103_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518104_37 = PRIM_CDR(v__3518103_37);
+Obj v__3518105_37 = PRIM_CDR(v__3518104_37);
+Obj v__3518106_37 = PRIM_EQ(Nil, v__3518105_37);
+if (True == v__3518106_37) {
+R[1] = v__3517621_37;
+saveCont(co, clofun18, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517620_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517485_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517485_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517485_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517485_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517485_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517973_37= co->res;
-Obj v__3517972_37 = R[1];
-Obj v__3517974_37 = makeCons(co->gc, v__3517973_37, Nil);
-Obj v__3517975_37 = makeCons(co->gc, v__3517972_37, v__3517974_37);
-Obj v__3517976_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517975_37);
-coraReturn(co, v__3517976_37);
+Obj v__3518108_37= co->res;
+Obj v__3518107_37 = R[1];
+Obj v__3518109_37 = makeCons(co->gc, v__3518108_37, Nil);
+Obj v__3518110_37 = makeCons(co->gc, v__3518107_37, v__3518109_37);
+Obj v__3518111_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518110_37);
+coraReturn(co, v__3518111_37);
 return;
 }
 case 2:
 {
-Obj v__3517972_37= co->res;
-Obj v__3517502_37 = R[1];
-R[1] = v__3517972_37;
-saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517502_37);
+Obj v__3518107_37= co->res;
+Obj v__3517621_37 = R[1];
+R[1] = v__3518107_37;
+saveCont(co, clofun18, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517621_37);
 return;
 }
 }
 }
 
-static void clofun14(struct Cora* co, int label, Obj *R) {
+static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517486_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517920_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517920_37) {
-Obj v__3517921_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517922_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3517921_37);
-if (True == v__3517922_37) {
-Obj v__3517923_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517924_37 = PRIM_ISCONS(v__3517923_37);
-if (True == v__3517924_37) {
-Obj v__3517925_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517926_37 = PRIM_CAR(v__3517925_37);
-Obj v__3517497_37 = v__3517926_37;
-Obj v__3517927_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517928_37 = PRIM_CDR(v__3517927_37);
-Obj v__3517929_37 = PRIM_ISCONS(v__3517928_37);
-if (True == v__3517929_37) {
-Obj v__3517930_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517931_37 = PRIM_CDR(v__3517930_37);
-Obj v__3517932_37 = PRIM_CAR(v__3517931_37);
-Obj v__3517498_37 = v__3517932_37;
-Obj v__3517933_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517934_37 = PRIM_CDR(v__3517933_37);
-Obj v__3517935_37 = PRIM_CDR(v__3517934_37);
-Obj v__3517936_37 = PRIM_ISCONS(v__3517935_37);
-if (True == v__3517936_37) {
-Obj v__3517937_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517938_37 = PRIM_CDR(v__3517937_37);
-Obj v__3517939_37 = PRIM_CDR(v__3517938_37);
-Obj v__3517940_37 = PRIM_CAR(v__3517939_37);
-Obj v__3517499_37 = v__3517940_37;
-Obj v__3517941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517942_37 = PRIM_CDR(v__3517941_37);
-Obj v__3517943_37 = PRIM_CDR(v__3517942_37);
-Obj v__3517944_37 = PRIM_CDR(v__3517943_37);
-Obj v__3517945_37 = PRIM_EQ(Nil, v__3517944_37);
-if (True == v__3517945_37) {
-Obj v__3517946_37 = primGenSym(co);
-Obj v__3517500_37 = v__3517946_37;
-R[1] = v__3517497_37;
-R[2] = v__3517499_37;
-R[3] = v__3517500_37;
-saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517498_37);
+Obj v__3517604_37 = makeNative(co->gc, 1, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518055_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518055_37) {
+Obj v__3518056_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518057_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3518056_37);
+if (True == v__3518057_37) {
+Obj v__3518058_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518059_37 = PRIM_ISCONS(v__3518058_37);
+if (True == v__3518059_37) {
+Obj v__3518060_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518061_37 = PRIM_CAR(v__3518060_37);
+Obj v__3517616_37 = v__3518061_37;
+Obj v__3518062_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518063_37 = PRIM_CDR(v__3518062_37);
+Obj v__3518064_37 = PRIM_ISCONS(v__3518063_37);
+if (True == v__3518064_37) {
+Obj v__3518065_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518066_37 = PRIM_CDR(v__3518065_37);
+Obj v__3518067_37 = PRIM_CAR(v__3518066_37);
+Obj v__3517617_37 = v__3518067_37;
+Obj v__3518068_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518069_37 = PRIM_CDR(v__3518068_37);
+Obj v__3518070_37 = PRIM_CDR(v__3518069_37);
+Obj v__3518071_37 = PRIM_ISCONS(v__3518070_37);
+if (True == v__3518071_37) {
+Obj v__3518072_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518073_37 = PRIM_CDR(v__3518072_37);
+Obj v__3518074_37 = PRIM_CDR(v__3518073_37);
+Obj v__3518075_37 = PRIM_CAR(v__3518074_37);
+Obj v__3517618_37 = v__3518075_37;
+Obj v__3518076_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518077_37 = PRIM_CDR(v__3518076_37);
+Obj v__3518078_37 = PRIM_CDR(v__3518077_37);
+Obj v__3518079_37 = PRIM_CDR(v__3518078_37);
+Obj v__3518080_37 = PRIM_EQ(Nil, v__3518079_37);
+if (True == v__3518080_37) {
+Obj v__3518081_37 = primGenSym(co);
+Obj v__3517619_37 = v__3518081_37;
+R[1] = v__3517616_37;
+R[2] = v__3517618_37;
+R[3] = v__3517619_37;
+saveCont(co, clofun17, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517617_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517486_37);
+coraCall0(co, v__3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517486_37);
+coraCall0(co, v__3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517486_37);
+coraCall0(co, v__3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517486_37);
+coraCall0(co, v__3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517486_37);
+coraCall0(co, v__3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517486_37);
+coraCall0(co, v__3517604_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517950_37= co->res;
-Obj v__3517947_37 = R[1];
-Obj v__3517500_37 = R[2];
-Obj v__3517951_37 = makeCons(co->gc, v__3517950_37, Nil);
-Obj v__3517952_37 = makeCons(co->gc, v__3517947_37, v__3517951_37);
-Obj v__3517953_37 = makeCons(co->gc, v__3517500_37, v__3517952_37);
-Obj v__3517954_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3517953_37);
-coraReturn(co, v__3517954_37);
+Obj v__3518085_37= co->res;
+Obj v__3518082_37 = R[1];
+Obj v__3517619_37 = R[2];
+Obj v__3518086_37 = makeCons(co->gc, v__3518085_37, Nil);
+Obj v__3518087_37 = makeCons(co->gc, v__3518082_37, v__3518086_37);
+Obj v__3518088_37 = makeCons(co->gc, v__3517619_37, v__3518087_37);
+Obj v__3518089_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518088_37);
+coraReturn(co, v__3518089_37);
 return;
 }
 case 2:
 {
-Obj v__3517947_37= co->res;
-Obj v__3517497_37 = R[1];
-Obj v__3517499_37 = R[2];
-Obj v__3517500_37 = R[3];
-Obj v__3517948_37 = makeCons(co->gc, v__3517497_37, v__3517500_37);
-Obj v__3517949_37 = makeCons(co->gc, v__3517948_37, closureRef(R[0], 1));
-R[1] = v__3517947_37;
-R[2] = v__3517500_37;
-saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), v__3517949_37, closureRef(R[0], 2), v__3517499_37);
+Obj v__3518082_37= co->res;
+Obj v__3517616_37 = R[1];
+Obj v__3517618_37 = R[2];
+Obj v__3517619_37 = R[3];
+Obj v__3518083_37 = makeCons(co->gc, v__3517616_37, v__3517619_37);
+Obj v__3518084_37 = makeCons(co->gc, v__3518083_37, closureRef(R[0], 1));
+R[1] = v__3518082_37;
+R[2] = v__3517619_37;
+saveCont(co, clofun17, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3518084_37, closureRef(R[0], 2), v__3517618_37);
 return;
 }
 }
 }
 
-static void clofun13(struct Cora* co, int label, Obj *R) {
+static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517487_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517888_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517888_37) {
-Obj v__3517889_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517890_37 = PRIM_ISCONS(v__3517889_37);
-if (True == v__3517890_37) {
-Obj v__3517891_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517892_37 = PRIM_CAR(v__3517891_37);
-Obj v__3517893_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3517892_37);
-if (True == v__3517893_37) {
-Obj v__3517894_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517895_37 = PRIM_CDR(v__3517894_37);
-Obj v__3517494_37 = v__3517895_37;
-Obj v__3517896_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517897_37 = PRIM_ISCONS(v__3517896_37);
-if (True == v__3517897_37) {
-Obj v__3517898_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517899_37 = PRIM_CAR(v__3517898_37);
-Obj v__3517900_37 = PRIM_ISCONS(v__3517899_37);
-if (True == v__3517900_37) {
-Obj v__3517901_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517902_37 = PRIM_CAR(v__3517901_37);
-Obj v__3517903_37 = PRIM_CAR(v__3517902_37);
-Obj v__3517904_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517903_37);
-if (True == v__3517904_37) {
-Obj v__3517905_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517906_37 = PRIM_CAR(v__3517905_37);
-Obj v__3517907_37 = PRIM_CDR(v__3517906_37);
-Obj v__3517495_37 = v__3517907_37;
-Obj v__3517908_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517909_37 = PRIM_CDR(v__3517908_37);
-Obj v__3517910_37 = PRIM_EQ(Nil, v__3517909_37);
-if (True == v__3517910_37) {
-Obj v__3517911_37 = primGenSym(co);
-Obj v__3517496_37 = v__3517911_37;
-Obj v__3517912_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3517494_37);
-Obj v__3517913_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517495_37);
-Obj v__3517914_37 = makeCons(co->gc, v__3517913_37, Nil);
-Obj v__3517915_37 = makeCons(co->gc, v__3517496_37, v__3517914_37);
-Obj v__3517916_37 = makeCons(co->gc, v__3517915_37, Nil);
-Obj v__3517917_37 = makeCons(co->gc, v__3517912_37, v__3517916_37);
-Obj v__3517918_37 = makeCons(co->gc, v__3517496_37, v__3517917_37);
-Obj v__3517919_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3517918_37);
+Obj v__3517605_37 = makeNative(co->gc, 5, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518023_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518023_37) {
+Obj v__3518024_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518025_37 = PRIM_ISCONS(v__3518024_37);
+if (True == v__3518025_37) {
+Obj v__3518026_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518027_37 = PRIM_CAR(v__3518026_37);
+Obj v__3518028_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518027_37);
+if (True == v__3518028_37) {
+Obj v__3518029_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518030_37 = PRIM_CDR(v__3518029_37);
+Obj v__3517613_37 = v__3518030_37;
+Obj v__3518031_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518032_37 = PRIM_ISCONS(v__3518031_37);
+if (True == v__3518032_37) {
+Obj v__3518033_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518034_37 = PRIM_CAR(v__3518033_37);
+Obj v__3518035_37 = PRIM_ISCONS(v__3518034_37);
+if (True == v__3518035_37) {
+Obj v__3518036_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518037_37 = PRIM_CAR(v__3518036_37);
+Obj v__3518038_37 = PRIM_CAR(v__3518037_37);
+Obj v__3518039_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518038_37);
+if (True == v__3518039_37) {
+Obj v__3518040_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518041_37 = PRIM_CAR(v__3518040_37);
+Obj v__3518042_37 = PRIM_CDR(v__3518041_37);
+Obj v__3517614_37 = v__3518042_37;
+Obj v__3518043_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518044_37 = PRIM_CDR(v__3518043_37);
+Obj v__3518045_37 = PRIM_EQ(Nil, v__3518044_37);
+if (True == v__3518045_37) {
+Obj v__3518046_37 = primGenSym(co);
+Obj v__3517615_37 = v__3518046_37;
+Obj v__3518047_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3517613_37);
+Obj v__3518048_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3517614_37);
+Obj v__3518049_37 = makeCons(co->gc, v__3518048_37, Nil);
+Obj v__3518050_37 = makeCons(co->gc, v__3517615_37, v__3518049_37);
+Obj v__3518051_37 = makeCons(co->gc, v__3518050_37, Nil);
+Obj v__3518052_37 = makeCons(co->gc, v__3518047_37, v__3518051_37);
+Obj v__3518053_37 = makeCons(co->gc, v__3517615_37, v__3518052_37);
+Obj v__3518054_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518053_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517919_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518054_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517487_37);
+coraCall0(co, v__3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517487_37);
+coraCall0(co, v__3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517487_37);
+coraCall0(co, v__3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517487_37);
+coraCall0(co, v__3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517487_37);
+coraCall0(co, v__3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517487_37);
+coraCall0(co, v__3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517487_37);
+coraCall0(co, v__3517605_37);
 return;
 }
 }
 }
 }
 
-static void clofun12(struct Cora* co, int label, Obj *R) {
+static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517488_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v__3517868_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517868_37) {
-Obj v__3517869_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517489_37 = v__3517869_37;
-Obj v__3517870_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517490_37 = v__3517870_37;
-R[1] = v__3517489_37;
-R[2] = v__3517490_37;
-R[3] = v__3517488_37;
-saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517489_37);
+Obj v__3517606_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v__3518001_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518001_37) {
+Obj v__3518002_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517607_37 = v__3518002_37;
+Obj v__3518003_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517608_37 = v__3518003_37;
+R[1] = v__3517607_37;
+R[2] = v__3517608_37;
+R[3] = v__3517606_37;
+saveCont(co, clofun15, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v__3517607_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517488_37);
+coraCall0(co, v__3517606_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517878_37= co->res;
-Obj v__3517876_37 = R[1];
-Obj v__3517879_37 = makeCons(co->gc, v__3517876_37, v__3517878_37);
-coraReturn(co, v__3517879_37);
+Obj v__3518011_37= co->res;
+Obj v__3518009_37 = R[1];
+Obj v__3518012_37 = makeCons(co->gc, v__3518009_37, v__3518011_37);
+coraReturn(co, v__3518012_37);
 return;
 }
 case 2:
 {
-Obj v__3517877_37= co->res;
-Obj v__3517490_37 = R[1];
-Obj v__3517876_37 = R[2];
-R[1] = v__3517876_37;
-saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517877_37, v__3517490_37);
+Obj v__3518010_37= co->res;
+Obj v__3517608_37 = R[1];
+Obj v__3518009_37 = R[2];
+R[1] = v__3518009_37;
+saveCont(co, clofun15, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518010_37, v__3517608_37);
 return;
 }
 case 3:
 {
-Obj v__3517884_37= co->res;
-Obj v__3517493_37 = R[1];
-Obj v__3517885_37 = makeCons(co->gc, v__3517884_37, Nil);
-Obj v__3517886_37 = makeCons(co->gc, v__3517493_37, v__3517885_37);
-Obj v__3517887_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3517886_37);
+Obj v__3518022_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517887_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518022_37);
 return;
 }
 case 4:
 {
-Obj v__3517882_37= co->res;
-Obj v__3517489_37 = R[1];
-Obj v__3517490_37 = R[2];
-Obj v__3517493_37 = v__3517882_37;
-Obj v__3517883_37 = makeCons(co->gc, v__3517489_37, v__3517490_37);
-R[1] = v__3517493_37;
-saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v__3517883_37, v__3517493_37);
+Obj v__3518017_37= co->res;
+Obj v__3517607_37 = R[1];
+Obj v__3517612_37 = R[2];
+Obj v__3517611_37 = R[3];
+Obj v__3517608_37 = R[4];
+Obj v__3518018_37 = makeCons(co->gc, v__3517607_37, v__3518017_37);
+Obj v__3518019_37 = makeCons(co->gc, v__3518018_37, Nil);
+Obj v__3518020_37 = makeCons(co->gc, v__3517612_37, v__3518019_37);
+Obj v__3518021_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518020_37);
+saveCont(co, clofun15, 3, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3517611_37, v__3517608_37, v__3518021_37);
 return;
 }
 case 5:
 {
-Obj v__3517873_37= co->res;
-Obj v__3517491_37 = R[1];
-Obj v__3517489_37 = R[2];
-Obj v__3517490_37 = R[3];
-Obj v__3517492_37 = v__3517873_37;
-Obj v__3517874_37 = PRIM_EQ(v__3517491_37, v__3517492_37);
-if (True == v__3517874_37) {
-Obj v__3517875_37 = makeCons(co->gc, v__3517489_37, Nil);
-Obj v__3517876_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, v__3517875_37);
-R[1] = v__3517490_37;
-R[2] = v__3517876_37;
-saveCont(co, clofun12, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 1), closureRef(R[0], 2));
-return;
-} else {
-Obj v__3517880_37 = PRIM_GT(v__3517491_37, v__3517492_37);
-if (True == v__3517880_37) {
-Obj v__3517881_37 = PRIM_SUB(v__3517491_37, v__3517492_37);
-R[1] = v__3517489_37;
-R[2] = v__3517490_37;
-saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v__3517881_37, Nil);
+Obj v__3518016_37= co->res;
+Obj v__3517607_37 = R[1];
+Obj v__3517611_37 = R[2];
+Obj v__3517608_37 = R[3];
+Obj v__3517612_37 = v__3518016_37;
+R[1] = v__3517607_37;
+R[2] = v__3517612_37;
+R[3] = v__3517611_37;
+R[4] = v__3517608_37;
+saveCont(co, clofun15, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3517611_37, v__3517612_37);
+return;
+}
+case 6:
+{
+Obj v__3518014_37= co->res;
+Obj v__3517609_37 = R[1];
+Obj v__3517610_37 = R[2];
+Obj v__3517607_37 = R[3];
+Obj v__3517608_37 = R[4];
+Obj v__3517611_37 = v__3518014_37;
+Obj v__3518015_37 = PRIM_SUB(v__3517609_37, v__3517610_37);
+R[1] = v__3517607_37;
+R[2] = v__3517611_37;
+R[3] = v__3517608_37;
+saveCont(co, clofun15, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3518015_37, Nil);
+return;
+}
+case 7:
+{
+Obj v__3518006_37= co->res;
+Obj v__3517609_37 = R[1];
+Obj v__3517607_37 = R[2];
+Obj v__3517608_37 = R[3];
+Obj v__3517610_37 = v__3518006_37;
+Obj v__3518007_37 = PRIM_EQ(v__3517609_37, v__3517610_37);
+if (True == v__3518007_37) {
+Obj v__3518008_37 = makeCons(co->gc, v__3517607_37, Nil);
+Obj v__3518009_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518008_37);
+R[1] = v__3517608_37;
+R[2] = v__3518009_37;
+saveCont(co, clofun15, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
+return;
+} else {
+Obj v__3518013_37 = PRIM_GT(v__3517609_37, v__3517610_37);
+if (True == v__3518013_37) {
+R[1] = v__3517609_37;
+R[2] = v__3517610_37;
+R[3] = v__3517607_37;
+R[4] = v__3517608_37;
+saveCont(co, clofun15, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3517610_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "primitive call mismatch"));
 return;
 }
 }
 }
-case 6:
+case 8:
 {
-Obj v__3517872_37= co->res;
-Obj v__3517489_37 = R[1];
-Obj v__3517490_37 = R[2];
-Obj v__3517491_37 = v__3517872_37;
-R[1] = v__3517491_37;
-R[2] = v__3517489_37;
-R[3] = v__3517490_37;
-saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3517490_37);
+Obj v__3518005_37= co->res;
+Obj v__3517607_37 = R[1];
+Obj v__3517608_37 = R[2];
+Obj v__3517609_37 = v__3518005_37;
+R[1] = v__3517609_37;
+R[2] = v__3517607_37;
+R[3] = v__3517608_37;
+saveCont(co, clofun15, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3517608_37);
 return;
 }
-case 7:
+case 9:
 {
-Obj v__3517871_37= co->res;
-Obj v__3517489_37 = R[1];
-Obj v__3517490_37 = R[2];
-Obj v__3517488_37 = R[3];
-if (True == v__3517871_37) {
-R[1] = v__3517489_37;
-R[2] = v__3517490_37;
-saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517489_37);
+Obj v__3518004_37= co->res;
+Obj v__3517607_37 = R[1];
+Obj v__3517608_37 = R[2];
+Obj v__3517606_37 = R[3];
+if (True == v__3518004_37) {
+R[1] = v__3517607_37;
+R[2] = v__3517608_37;
+saveCont(co, clofun15, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517607_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517488_37);
+coraCall0(co, v__3517606_37);
 return;
 }
 }
 }
 }
 
-static void clofun11(struct Cora* co, int label, Obj *R) {
+static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 0), closureRef(R[0], 1));
+saveCont(co, clofun14, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj v__3517867_37= co->res;
+Obj v__3518000_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517867_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518000_37, closureRef(R[0], 2));
+return;
+}
+}
+}
+
+static void clofun13(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3517427_37 = R[1];
+Obj v__3517428_37 = R[2];
+Obj v__3517429_37 = R[3];
+Obj v__3517589_37 = makeNative(co->gc, 3, clofun12, 0, 3, v__3517427_37, v__3517428_37, v__3517429_37);
+Obj v__3517988_37 = PRIM_EQ(Nil, v__3517427_37);
+if (True == v__3517988_37) {
+Obj v__3517989_37 = PRIM_EQ(Nil, v__3517428_37);
+if (True == v__3517989_37) {
+coraReturn(co, v__3517429_37);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3517589_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3517589_37);
+return;
+}
+}
+}
+}
+
+static void clofun12(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3517590_37 = makeNative(co->gc, 1, clofun11, 0, 0);
+Obj v__3517977_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517977_37) {
+Obj v__3517978_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517591_37 = v__3517978_37;
+Obj v__3517979_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517592_37 = v__3517979_37;
+Obj v__3517980_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3517980_37) {
+Obj v__3517981_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3517593_37 = v__3517981_37;
+Obj v__3517982_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3517594_37 = v__3517982_37;
+R[1] = v__3517593_37;
+R[2] = v__3517591_37;
+saveCont(co, clofun12, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3517592_37, v__3517594_37, closureRef(R[0], 2));
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3517590_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3517590_37);
+return;
+}
+}
+case 1:
+{
+Obj v__3517983_37= co->res;
+Obj v__3517593_37 = R[1];
+Obj v__3517591_37 = R[2];
+Obj v__3517984_37 = makeCons(co->gc, v__3517983_37, Nil);
+Obj v__3517985_37 = makeCons(co->gc, v__3517593_37, v__3517984_37);
+Obj v__3517986_37 = makeCons(co->gc, v__3517591_37, v__3517985_37);
+Obj v__3517987_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3517986_37);
+coraReturn(co, v__3517987_37);
+return;
+}
+}
+}
+
+static void clofun11(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8593,18 +8716,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517316_37 = R[1];
-Obj v__3517317_37 = R[2];
-Obj v__3517853_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517316_37);
-if (True == v__3517853_37) {
-coraReturn(co, v__3517317_37);
+Obj v__3517423_37 = R[1];
+Obj v__3517424_37 = R[2];
+Obj v__3517972_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517423_37);
+if (True == v__3517972_37) {
+coraReturn(co, v__3517424_37);
 return;
 } else {
-Obj v__3517854_37 = PRIM_SUB(v__3517316_37, MAKE_NUMBER(1));
-Obj v__3517855_37 = primGenSym(co);
-Obj v__3517856_37 = makeCons(co->gc, v__3517855_37, v__3517317_37);
+Obj v__3517973_37 = PRIM_SUB(v__3517423_37, MAKE_NUMBER(1));
+Obj v__3517974_37 = primGenSym(co);
+Obj v__3517975_37 = makeCons(co->gc, v__3517974_37, v__3517424_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), v__3517854_37, v__3517856_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3517973_37, v__3517975_37);
 return;
 }
 }
@@ -8617,29 +8740,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v_x, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3517851_37= co->res;
-Obj v__3517476_37 = R[1];
-if (True == v__3517851_37) {
+Obj v__3517970_37= co->res;
+Obj v__3517588_37 = R[1];
+if (True == v__3517970_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517476_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517588_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517850_37= co->res;
-Obj v__3517476_37 = v__3517850_37;
-R[1] = v__3517476_37;
+Obj v__3517969_37= co->res;
+Obj v__3517588_37 = v__3517969_37;
+R[1] = v__3517588_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517476_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517588_37);
 return;
 }
 }
@@ -8651,29 +8774,29 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v_x, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3517848_37= co->res;
-Obj v__3517475_37 = R[1];
-if (True == v__3517848_37) {
+Obj v__3517967_37= co->res;
+Obj v__3517587_37 = R[1];
+if (True == v__3517967_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517475_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517587_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517847_37= co->res;
-Obj v__3517475_37 = v__3517847_37;
-R[1] = v__3517475_37;
+Obj v__3517966_37= co->res;
+Obj v__3517587_37 = v__3517966_37;
+R[1] = v__3517587_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517475_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517587_37);
 return;
 }
 }
@@ -8685,21 +8808,21 @@ case 0:
 {
 Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), v_x, globalRef(co, getBinding(co, packageID, 124)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v_x, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3517844_37= co->res;
-Obj v__3517845_37 = primNot(v__3517844_37);
-coraReturn(co, v__3517845_37);
+Obj v__3517963_37= co->res;
+Obj v__3517964_37 = primNot(v__3517963_37);
+coraReturn(co, v__3517964_37);
 return;
 }
 case 2:
 {
-Obj v__3517843_37= co->res;
+Obj v__3517962_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517843_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517962_37);
 return;
 }
 }
@@ -8709,40 +8832,40 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517312_37 = R[1];
-Obj v__3517313_37 = R[2];
-Obj v__3517767_37 = PRIM_EQ(Nil, v__3517313_37);
-if (True == v__3517767_37) {
+Obj v__3517419_37 = R[1];
+Obj v__3517420_37 = R[2];
+Obj v__3517886_37 = PRIM_EQ(Nil, v__3517420_37);
+if (True == v__3517886_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3517768_37 = PRIM_ISCONS(v__3517313_37);
-if (True == v__3517768_37) {
-Obj v__3517769_37 = PRIM_CAR(v__3517313_37);
-Obj v__3517473_37 = v__3517769_37;
-Obj v__3517770_37 = PRIM_CDR(v__3517313_37);
-Obj v__3517474_37 = v__3517770_37;
-R[1] = v__3517312_37;
-R[2] = v__3517474_37;
+Obj v__3517887_37 = PRIM_ISCONS(v__3517420_37);
+if (True == v__3517887_37) {
+Obj v__3517888_37 = PRIM_CAR(v__3517420_37);
+Obj v__3517585_37 = v__3517888_37;
+Obj v__3517889_37 = PRIM_CDR(v__3517420_37);
+Obj v__3517586_37 = v__3517889_37;
+R[1] = v__3517419_37;
+R[2] = v__3517586_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3517312_37, v__3517473_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3517419_37, v__3517585_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3517771_37= co->res;
-Obj v__3517312_37 = R[1];
-Obj v__3517474_37 = R[2];
-Obj v__3517772_37 = PRIM_LT(v__3517771_37, MAKE_NUMBER(0));
-if (True == v__3517772_37) {
+Obj v__3517890_37= co->res;
+Obj v__3517419_37 = R[1];
+Obj v__3517586_37 = R[2];
+Obj v__3517891_37 = PRIM_LT(v__3517890_37, MAKE_NUMBER(0));
+if (True == v__3517891_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3517312_37, v__3517474_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3517419_37, v__3517586_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8759,7 +8882,7 @@ case 0:
 Obj v_x = R[1];
 Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), MAKE_NUMBER(0), v_x, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -8769,32 +8892,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517306_37 = R[1];
-Obj v__3517307_37 = R[2];
-Obj v__3517308_37 = R[3];
-Obj v__3517756_37 = PRIM_EQ(Nil, v__3517308_37);
-if (True == v__3517756_37) {
+Obj v__3517413_37 = R[1];
+Obj v__3517414_37 = R[2];
+Obj v__3517415_37 = R[3];
+Obj v__3517875_37 = PRIM_EQ(Nil, v__3517415_37);
+if (True == v__3517875_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3517470_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517308_37, v__3517306_37, v__3517307_37);
-Obj v__3517761_37 = PRIM_ISCONS(v__3517308_37);
-if (True == v__3517761_37) {
-Obj v__3517762_37 = PRIM_CAR(v__3517308_37);
-Obj v__3517472_37 = v__3517762_37;
-Obj v__3517763_37 = PRIM_CDR(v__3517308_37);
-Obj v__3517764_37 = PRIM_EQ(v__3517307_37, v__3517472_37);
-if (True == v__3517764_37) {
-coraReturn(co, v__3517306_37);
+Obj v__3517582_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517415_37, v__3517413_37, v__3517414_37);
+Obj v__3517880_37 = PRIM_ISCONS(v__3517415_37);
+if (True == v__3517880_37) {
+Obj v__3517881_37 = PRIM_CAR(v__3517415_37);
+Obj v__3517584_37 = v__3517881_37;
+Obj v__3517882_37 = PRIM_CDR(v__3517415_37);
+Obj v__3517883_37 = PRIM_EQ(v__3517414_37, v__3517584_37);
+if (True == v__3517883_37) {
+coraReturn(co, v__3517413_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517470_37);
+coraCall0(co, v__3517582_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517470_37);
+coraCall0(co, v__3517582_37);
 return;
 }
 }
@@ -8806,18 +8929,18 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517757_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517757_37) {
-Obj v__3517758_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517759_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517471_37 = v__3517759_37;
-Obj v__3517760_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3517876_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517876_37) {
+Obj v__3517877_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517878_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517583_37 = v__3517878_37;
+Obj v__3517879_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v__3517760_37, closureRef(R[0], 2), v__3517471_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v__3517879_37, closureRef(R[0], 2), v__3517583_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8828,39 +8951,39 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517301_37 = R[1];
-Obj v__3517302_37 = R[2];
-Obj v__3517303_37 = R[3];
-Obj v__3517750_37 = PRIM_EQ(Nil, v__3517303_37);
-if (True == v__3517750_37) {
-coraReturn(co, v__3517302_37);
+Obj v__3517408_37 = R[1];
+Obj v__3517409_37 = R[2];
+Obj v__3517410_37 = R[3];
+Obj v__3517869_37 = PRIM_EQ(Nil, v__3517410_37);
+if (True == v__3517869_37) {
+coraReturn(co, v__3517409_37);
 return;
 } else {
-Obj v__3517751_37 = PRIM_ISCONS(v__3517303_37);
-if (True == v__3517751_37) {
-Obj v__3517752_37 = PRIM_CAR(v__3517303_37);
-Obj v__3517468_37 = v__3517752_37;
-Obj v__3517753_37 = PRIM_CDR(v__3517303_37);
-Obj v__3517469_37 = v__3517753_37;
-R[1] = v__3517301_37;
-R[2] = v__3517469_37;
+Obj v__3517870_37 = PRIM_ISCONS(v__3517410_37);
+if (True == v__3517870_37) {
+Obj v__3517871_37 = PRIM_CAR(v__3517410_37);
+Obj v__3517580_37 = v__3517871_37;
+Obj v__3517872_37 = PRIM_CDR(v__3517410_37);
+Obj v__3517581_37 = v__3517872_37;
+R[1] = v__3517408_37;
+R[2] = v__3517581_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v__3517301_37, v__3517302_37, v__3517468_37);
+coraCall2(co, v__3517408_37, v__3517409_37, v__3517580_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3517754_37= co->res;
-Obj v__3517301_37 = R[1];
-Obj v__3517469_37 = R[2];
+Obj v__3517873_37= co->res;
+Obj v__3517408_37 = R[1];
+Obj v__3517581_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v__3517301_37, v__3517754_37, v__3517469_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), v__3517408_37, v__3517873_37, v__3517581_37);
 return;
 }
 }
@@ -8870,44 +8993,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517296_37 = R[1];
-Obj v__3517297_37 = R[2];
-Obj v__3517735_37 = PRIM_EQ(Nil, v__3517297_37);
-if (True == v__3517735_37) {
+Obj v__3517403_37 = R[1];
+Obj v__3517404_37 = R[2];
+Obj v__3517854_37 = PRIM_EQ(Nil, v__3517404_37);
+if (True == v__3517854_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517464_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517297_37, v__3517296_37);
-Obj v__3517739_37 = PRIM_ISCONS(v__3517297_37);
-if (True == v__3517739_37) {
-Obj v__3517740_37 = PRIM_CAR(v__3517297_37);
-Obj v__3517741_37 = PRIM_ISCONS(v__3517740_37);
-if (True == v__3517741_37) {
-Obj v__3517742_37 = PRIM_CAR(v__3517297_37);
-Obj v__3517743_37 = PRIM_CAR(v__3517742_37);
-Obj v__3517466_37 = v__3517743_37;
-Obj v__3517744_37 = PRIM_CAR(v__3517297_37);
-Obj v__3517745_37 = PRIM_CDR(v__3517744_37);
-Obj v__3517467_37 = v__3517745_37;
-Obj v__3517746_37 = PRIM_CDR(v__3517297_37);
-Obj v__3517747_37 = PRIM_EQ(v__3517296_37, v__3517466_37);
-if (True == v__3517747_37) {
-Obj v__3517748_37 = makeCons(co->gc, v__3517466_37, v__3517467_37);
-coraReturn(co, v__3517748_37);
+Obj v__3517576_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517404_37, v__3517403_37);
+Obj v__3517858_37 = PRIM_ISCONS(v__3517404_37);
+if (True == v__3517858_37) {
+Obj v__3517859_37 = PRIM_CAR(v__3517404_37);
+Obj v__3517860_37 = PRIM_ISCONS(v__3517859_37);
+if (True == v__3517860_37) {
+Obj v__3517861_37 = PRIM_CAR(v__3517404_37);
+Obj v__3517862_37 = PRIM_CAR(v__3517861_37);
+Obj v__3517578_37 = v__3517862_37;
+Obj v__3517863_37 = PRIM_CAR(v__3517404_37);
+Obj v__3517864_37 = PRIM_CDR(v__3517863_37);
+Obj v__3517579_37 = v__3517864_37;
+Obj v__3517865_37 = PRIM_CDR(v__3517404_37);
+Obj v__3517866_37 = PRIM_EQ(v__3517403_37, v__3517578_37);
+if (True == v__3517866_37) {
+Obj v__3517867_37 = makeCons(co->gc, v__3517578_37, v__3517579_37);
+coraReturn(co, v__3517867_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517464_37);
+coraCall0(co, v__3517576_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517464_37);
+coraCall0(co, v__3517576_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517464_37);
+coraCall0(co, v__3517576_37);
 return;
 }
 }
@@ -8919,17 +9042,17 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517736_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517736_37) {
-Obj v__3517737_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517738_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517465_37 = v__3517738_37;
+Obj v__3517855_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517855_37) {
+Obj v__3517856_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517857_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517577_37 = v__3517857_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 130)), closureRef(R[0], 1), v__3517465_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), closureRef(R[0], 1), v__3517577_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index 2f5c72a..280ebce 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -51,6 +51,10 @@
 	0 res => res
 	n res => (temp-list (- n 1) (cons (gensym) res)))
 
+  (func let-list
+	[] [] body => body
+	[x . xs] [v . vs] body => ['let x v (let-list xs vs body)])
+
   ;; env: the variables in scope, each with the name that it has in the result
   (func parse
 	_ globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
@@ -83,9 +87,12 @@
 					  ((= required provided)  [['%builtin op] . (map (parse env globals) args)])
 					  ((> required provided)
 					   ;; rewrite partial apply of primitives
-					   ;; (+ x) => (lambda (tmp) (+ x tmp))
-					   (let tmp (temp-list (- required provided) ())
-						(parse env globals ['lambda tmp (append [op . args] tmp)])))
+					   ;; (+ x) => (let y x (lambda (tmp) (+ y tmp)))
+					   (let vars (temp-list provided ())
+						tmp (temp-list (- required provided) ())
+						(parse env globals
+						       (let-list vars args
+								 ['lambda tmp [op . (append vars tmp)]]))))
 					  (true (error "primitive call mismatch"))))
 	where (builtin? op)
 	env globals ls => (map (parse env globals) ls))
-- 
2.43.0


From b0b7d95236c82f7abc2e6efca952ec6c228b71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 42/63] fix: the partial evaluator keeps variables apart and
 effects in place

---
 init.c         | 3728 ++++++++++-----------
 lib/peval.cora |   48 +-
 lib/toc.c      | 8380 ++++++++++++++++++++++++------------------------
 3 files changed, 6088 insertions(+), 6068 deletions(-)

diff --git a/init.c b/init.c
index 217a0c0..d039868 100644
--- a/init.c
+++ b/init.c
@@ -273,315 +273,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513271_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v__3513274_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v__3513277_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v__3513280_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v__3513283_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v__3513287_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v__3513292_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v__3513296_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3513304_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3513306_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3513311_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3514688_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3514691_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3514694_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3514697_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3514700_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3514704_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3514709_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3514713_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3514721_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3514723_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3514728_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj v__3513791_37= co->res;
-Obj v__3513797_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v__3513809_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v__3513810_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3513811_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513810_37);
-Obj v__3513812_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513811_37);
-Obj v__3513813_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3513814_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513813_37);
-Obj v__3513815_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513814_37);
-Obj v__3513816_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3513817_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513816_37);
-Obj v__3513818_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513817_37);
-Obj v__3513819_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3513820_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513819_37);
-Obj v__3513821_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513820_37);
-Obj v__3513822_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3513823_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513822_37);
-Obj v__3513824_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513823_37);
-Obj v__3513825_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3513826_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513825_37);
-Obj v__3513827_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513826_37);
-Obj v__3513828_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3513829_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513828_37);
-Obj v__3513830_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513829_37);
-Obj v__3513831_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3513832_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513831_37);
-Obj v__3513833_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513832_37);
-Obj v__3513834_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3513835_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513834_37);
-Obj v__3513836_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513835_37);
-Obj v__3513837_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3513838_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513837_37);
-Obj v__3513839_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513838_37);
-Obj v__3513840_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3513841_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513840_37);
-Obj v__3513842_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513841_37);
-Obj v__3513843_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3513844_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513843_37);
-Obj v__3513845_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513844_37);
-Obj v__3513846_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3513847_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513846_37);
-Obj v__3513848_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513847_37);
-Obj v__3513849_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3513850_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513849_37);
-Obj v__3513851_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513850_37);
-Obj v__3513852_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3513853_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513852_37);
-Obj v__3513854_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513853_37);
-Obj v__3513855_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3513856_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513855_37);
-Obj v__3513857_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513856_37);
-Obj v__3513858_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3513859_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513858_37);
-Obj v__3513860_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513859_37);
-Obj v__3513861_37 = makeCons(co->gc, v__3513860_37, Nil);
-Obj v__3513862_37 = makeCons(co->gc, v__3513857_37, v__3513861_37);
-Obj v__3513863_37 = makeCons(co->gc, v__3513854_37, v__3513862_37);
-Obj v__3513864_37 = makeCons(co->gc, v__3513851_37, v__3513863_37);
-Obj v__3513865_37 = makeCons(co->gc, v__3513848_37, v__3513864_37);
-Obj v__3513866_37 = makeCons(co->gc, v__3513845_37, v__3513865_37);
-Obj v__3513867_37 = makeCons(co->gc, v__3513842_37, v__3513866_37);
-Obj v__3513868_37 = makeCons(co->gc, v__3513839_37, v__3513867_37);
-Obj v__3513869_37 = makeCons(co->gc, v__3513836_37, v__3513868_37);
-Obj v__3513870_37 = makeCons(co->gc, v__3513833_37, v__3513869_37);
-Obj v__3513871_37 = makeCons(co->gc, v__3513830_37, v__3513870_37);
-Obj v__3513872_37 = makeCons(co->gc, v__3513827_37, v__3513871_37);
-Obj v__3513873_37 = makeCons(co->gc, v__3513824_37, v__3513872_37);
-Obj v__3513874_37 = makeCons(co->gc, v__3513821_37, v__3513873_37);
-Obj v__3513875_37 = makeCons(co->gc, v__3513818_37, v__3513874_37);
-Obj v__3513876_37 = makeCons(co->gc, v__3513815_37, v__3513875_37);
-Obj v__3513877_37 = makeCons(co->gc, v__3513812_37, v__3513876_37);
-Obj v__3513878_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513877_37);
-Obj v__3513893_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v__3513897_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v__3514075_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v__3514076_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v__3514077_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3514076_37);
-Obj v__3514078_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3514077_37);
-Obj v__3514079_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3514078_37);
-Obj v__3514080_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3514079_37);
-Obj v__3514081_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3514080_37);
-Obj v__3514082_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3514081_37);
-Obj v__3514083_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3514082_37);
-Obj v__3514084_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3514083_37);
-Obj v__3514085_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3514084_37);
-Obj v__3514086_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3514085_37);
-Obj v__3514087_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3514086_37);
-Obj v__3514088_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3514087_37);
-Obj v__3514089_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3514088_37);
-Obj v__3514090_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3514089_37);
-Obj v__3514091_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3514090_37);
-Obj v__3514092_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3514091_37);
-Obj v__3514093_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3514092_37);
-Obj v__3514094_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3514093_37);
-Obj v__3514095_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3514094_37);
-Obj v__3514096_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3514095_37);
-Obj v__3514097_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3514096_37);
-Obj v__3514098_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3514097_37);
-Obj v__3514099_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3514098_37);
-Obj v__3514100_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3514099_37);
-Obj v__3514101_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3514100_37);
-Obj v__3514102_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3514101_37);
-Obj v__3514103_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3514102_37);
-Obj v__3514104_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3514103_37);
-Obj v__3514105_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3514104_37);
-Obj v__3514106_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3514105_37);
-Obj v__3514107_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3514106_37);
-Obj v__3514108_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3514107_37);
-Obj v__3514109_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514108_37);
-Obj v__3514110_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3514109_37);
-Obj v__3514111_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3514110_37);
-Obj v__3514112_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3514111_37);
-Obj v__3514113_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3514112_37);
-Obj v__3514114_37 = primSet(co, getBinding(co, packageID, 53).name, v__3514113_37);
-Obj v__3514115_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v__3514116_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v__3514117_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v__3514118_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v__3514119_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v__3514120_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v__3514121_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v__3514122_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v__3514123_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v__3514124_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v__3514125_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v__3514126_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v__3514127_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v__3514128_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v__3514129_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v__3514130_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v__3514131_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v__3514132_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v__3514133_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v__3514134_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v__3514135_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v__3514136_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v__3514137_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v__3514138_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v__3514139_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v__3514140_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v__3514141_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v__3514142_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v__3514143_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v__3514144_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v__3514145_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v__3514146_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v__3514147_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v__3514148_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v__3514149_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v__3514150_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v__3514151_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v__3514152_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v__3514153_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v__3514153_37);
+Obj v__3515208_37= co->res;
+Obj v__3515214_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v__3515226_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v__3515227_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3515228_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515227_37);
+Obj v__3515229_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515228_37);
+Obj v__3515230_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3515231_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515230_37);
+Obj v__3515232_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515231_37);
+Obj v__3515233_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3515234_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515233_37);
+Obj v__3515235_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515234_37);
+Obj v__3515236_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3515237_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515236_37);
+Obj v__3515238_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3515237_37);
+Obj v__3515239_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3515240_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515239_37);
+Obj v__3515241_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515240_37);
+Obj v__3515242_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3515243_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515242_37);
+Obj v__3515244_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3515243_37);
+Obj v__3515245_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3515246_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515245_37);
+Obj v__3515247_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3515246_37);
+Obj v__3515248_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3515249_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515248_37);
+Obj v__3515250_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3515249_37);
+Obj v__3515251_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3515252_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515251_37);
+Obj v__3515253_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3515252_37);
+Obj v__3515254_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3515255_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515254_37);
+Obj v__3515256_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3515255_37);
+Obj v__3515257_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3515258_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515257_37);
+Obj v__3515259_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3515258_37);
+Obj v__3515260_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3515261_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515260_37);
+Obj v__3515262_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3515261_37);
+Obj v__3515263_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3515264_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3515263_37);
+Obj v__3515265_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3515264_37);
+Obj v__3515266_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3515267_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515266_37);
+Obj v__3515268_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3515267_37);
+Obj v__3515269_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3515270_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515269_37);
+Obj v__3515271_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3515270_37);
+Obj v__3515272_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3515273_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515272_37);
+Obj v__3515274_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3515273_37);
+Obj v__3515275_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3515276_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515275_37);
+Obj v__3515277_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3515276_37);
+Obj v__3515278_37 = makeCons(co->gc, v__3515277_37, Nil);
+Obj v__3515279_37 = makeCons(co->gc, v__3515274_37, v__3515278_37);
+Obj v__3515280_37 = makeCons(co->gc, v__3515271_37, v__3515279_37);
+Obj v__3515281_37 = makeCons(co->gc, v__3515268_37, v__3515280_37);
+Obj v__3515282_37 = makeCons(co->gc, v__3515265_37, v__3515281_37);
+Obj v__3515283_37 = makeCons(co->gc, v__3515262_37, v__3515282_37);
+Obj v__3515284_37 = makeCons(co->gc, v__3515259_37, v__3515283_37);
+Obj v__3515285_37 = makeCons(co->gc, v__3515256_37, v__3515284_37);
+Obj v__3515286_37 = makeCons(co->gc, v__3515253_37, v__3515285_37);
+Obj v__3515287_37 = makeCons(co->gc, v__3515250_37, v__3515286_37);
+Obj v__3515288_37 = makeCons(co->gc, v__3515247_37, v__3515287_37);
+Obj v__3515289_37 = makeCons(co->gc, v__3515244_37, v__3515288_37);
+Obj v__3515290_37 = makeCons(co->gc, v__3515241_37, v__3515289_37);
+Obj v__3515291_37 = makeCons(co->gc, v__3515238_37, v__3515290_37);
+Obj v__3515292_37 = makeCons(co->gc, v__3515235_37, v__3515291_37);
+Obj v__3515293_37 = makeCons(co->gc, v__3515232_37, v__3515292_37);
+Obj v__3515294_37 = makeCons(co->gc, v__3515229_37, v__3515293_37);
+Obj v__3515295_37 = primSet(co, getBinding(co, packageID, 69).name, v__3515294_37);
+Obj v__3515310_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v__3515314_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v__3515492_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v__3515493_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3515494_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3515493_37);
+Obj v__3515495_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3515494_37);
+Obj v__3515496_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3515495_37);
+Obj v__3515497_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3515496_37);
+Obj v__3515498_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3515497_37);
+Obj v__3515499_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3515498_37);
+Obj v__3515500_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3515499_37);
+Obj v__3515501_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3515500_37);
+Obj v__3515502_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3515501_37);
+Obj v__3515503_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515502_37);
+Obj v__3515504_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3515503_37);
+Obj v__3515505_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3515504_37);
+Obj v__3515506_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3515505_37);
+Obj v__3515507_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3515506_37);
+Obj v__3515508_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3515507_37);
+Obj v__3515509_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3515508_37);
+Obj v__3515510_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3515509_37);
+Obj v__3515511_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3515510_37);
+Obj v__3515512_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3515511_37);
+Obj v__3515513_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3515512_37);
+Obj v__3515514_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3515513_37);
+Obj v__3515515_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3515514_37);
+Obj v__3515516_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3515515_37);
+Obj v__3515517_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3515516_37);
+Obj v__3515518_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3515517_37);
+Obj v__3515519_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3515518_37);
+Obj v__3515520_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3515519_37);
+Obj v__3515521_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3515520_37);
+Obj v__3515522_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3515521_37);
+Obj v__3515523_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3515522_37);
+Obj v__3515524_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3515523_37);
+Obj v__3515525_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3515524_37);
+Obj v__3515526_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3515525_37);
+Obj v__3515527_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3515526_37);
+Obj v__3515528_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3515527_37);
+Obj v__3515529_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3515528_37);
+Obj v__3515530_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3515529_37);
+Obj v__3515531_37 = primSet(co, getBinding(co, packageID, 53).name, v__3515530_37);
+Obj v__3515532_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3515533_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3515534_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3515535_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3515536_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3515537_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3515538_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v__3515539_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v__3515540_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v__3515541_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v__3515542_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3515543_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3515544_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3515545_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3515546_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3515547_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3515548_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3515549_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3515550_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3515551_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3515552_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3515553_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3515554_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3515555_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3515556_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3515557_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3515558_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3515559_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3515560_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3515561_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3515562_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3515563_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v__3515564_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3515565_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v__3515566_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3515567_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3515568_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3515569_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3515570_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3515570_37);
 return;
 }
 case 2:
 {
-Obj v__3513741_37= co->res;
-Obj v__3513770_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v__3513771_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v__3515158_37= co->res;
+Obj v__3515187_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v__3515188_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3513724_37= co->res;
-Obj v__3513738_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v__3515141_37= co->res;
+Obj v__3515155_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj v__3513702_37= co->res;
-Obj v__3513722_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v__3515119_37= co->res;
+Obj v__3515139_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj v__3513671_37= co->res;
-Obj v__3513672_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v__3513673_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v__3513676_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v__3513700_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3515088_37= co->res;
+Obj v__3515089_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v__3515090_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v__3515093_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3515117_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj v__3513563_37= co->res;
-Obj v__3513615_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v__3513616_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v__3513621_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v__3513625_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v__3513626_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v__3513634_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v__3513635_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v__3513641_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3513652_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v__3513658_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v__3514980_37= co->res;
+Obj v__3515032_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v__3515033_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v__3515038_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v__3515042_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v__3515043_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v__3515051_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v__3515052_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v__3515058_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3515069_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v__3515075_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj v__3513458_37= co->res;
-Obj v__3513480_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v__3513513_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v__3513526_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v__3513548_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v__3513562_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v__3514875_37= co->res;
+Obj v__3514897_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3514930_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3514943_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3514965_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3514979_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj v__3513443_37= co->res;
-Obj v__3513446_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3513456_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3514860_37= co->res;
+Obj v__3514863_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3514873_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v__3513429_37= co->res;
-Obj v__3513441_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v__3514846_37= co->res;
+Obj v__3514858_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v__3513415_37= co->res;
-Obj v__3513427_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v__3514832_37= co->res;
+Obj v__3514844_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v__3513401_37= co->res;
+Obj v__3514818_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v__3513379_37= co->res;
-Obj v__3513384_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v__3513387_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v__3513399_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v__3514796_37= co->res;
+Obj v__3514801_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3514804_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3514816_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v__3513369_37= co->res;
+Obj v__3514786_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v__3513367_37= co->res;
+Obj v__3514784_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v__3513312_37= co->res;
-Obj v__3513313_37 = primSet(co, getBinding(co, packageID, 149).name, v__3513312_37);
-Obj v__3513319_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v__3513320_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v__3513321_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v__3513322_37 = primGenSym(co);
-Obj v__3513323_37 = primSet(co, getBinding(co, packageID, 145).name, v__3513322_37);
-Obj v__3513327_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v__3513336_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v__3513337_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v__3513354_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v__3513355_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v__3513366_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v__3514729_37= co->res;
+Obj v__3514730_37 = primSet(co, getBinding(co, packageID, 149).name, v__3514729_37);
+Obj v__3514736_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3514737_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3514738_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v__3514739_37 = primGenSym(co);
+Obj v__3514740_37 = primSet(co, getBinding(co, packageID, 145).name, v__3514739_37);
+Obj v__3514744_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3514753_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3514754_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3514771_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3514772_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v__3514783_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -593,67 +593,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513154_37 = R[1];
-Obj v__3513155_37 = R[2];
-Obj v__3513156_37 = R[3];
-Obj v__3513157_37 = R[4];
-Obj v__3513243_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3513154_37, v__3513155_37, v__3513156_37, v__3513157_37);
-R[1] = v__3513157_37;
-R[2] = v__3513243_37;
+Obj v__3514514_37 = R[1];
+Obj v__3514515_37 = R[2];
+Obj v__3514516_37 = R[3];
+Obj v__3514517_37 = R[4];
+Obj v__3514660_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3514514_37, v__3514515_37, v__3514516_37, v__3514517_37);
+R[1] = v__3514517_37;
+R[2] = v__3514660_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513157_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3514517_37);
 return;
 }
 case 1:
 {
-Obj v__3514074_37= co->res;
-Obj v__3513243_37 = R[1];
-if (True == v__3514074_37) {
+Obj v__3515491_37= co->res;
+Obj v__3514660_37 = R[1];
+if (True == v__3515491_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513243_37, True);
+coraCall1(co, v__3514660_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513243_37, False);
+coraCall1(co, v__3514660_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3514073_37= co->res;
-Obj v__3513157_37 = R[1];
-Obj v__3513243_37 = R[2];
-if (True == v__3514073_37) {
+Obj v__3515490_37= co->res;
+Obj v__3514517_37 = R[1];
+Obj v__3514660_37 = R[2];
+if (True == v__3515490_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513243_37, True);
+coraCall1(co, v__3514660_37, True);
 return;
 } else {
-R[1] = v__3513243_37;
+R[1] = v__3514660_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513157_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514517_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3514071_37= co->res;
-Obj v__3513157_37 = R[1];
-Obj v__3513243_37 = R[2];
-if (True == v__3514071_37) {
+Obj v__3515488_37= co->res;
+Obj v__3514517_37 = R[1];
+Obj v__3514660_37 = R[2];
+if (True == v__3515488_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513243_37, True);
+coraCall1(co, v__3514660_37, True);
 return;
 } else {
-Obj v__3514072_37 = primIsString(v__3513157_37);
-if (True == v__3514072_37) {
+Obj v__3515489_37 = primIsString(v__3514517_37);
+if (True == v__3515489_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513243_37, True);
+coraCall1(co, v__3514660_37, True);
 return;
 } else {
-R[1] = v__3513157_37;
-R[2] = v__3513243_37;
+R[1] = v__3514517_37;
+R[2] = v__3514660_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513157_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3514517_37);
 return;
 }
 }
@@ -665,49 +665,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513242_37 = R[1];
-if (True == v__3513242_37) {
+Obj v__3514659_37 = R[1];
+if (True == v__3514659_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v__3513244_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3514059_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3514059_37) {
-Obj v__3514060_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3514061_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3514060_37);
-if (True == v__3514061_37) {
-Obj v__3514062_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514063_37 = PRIM_ISCONS(v__3514062_37);
-if (True == v__3514063_37) {
-Obj v__3514064_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514065_37 = PRIM_CAR(v__3514064_37);
-Obj v__3513269_37 = v__3514065_37;
-Obj v__3514066_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514067_37 = PRIM_CDR(v__3514066_37);
-Obj v__3514068_37 = PRIM_EQ(Nil, v__3514067_37);
-if (True == v__3514068_37) {
-Obj v__3514069_37 = makeCons(co->gc, v__3513269_37, Nil);
-Obj v__3514070_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514069_37);
-coraReturn(co, v__3514070_37);
+Obj v__3514661_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515476_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3515476_37) {
+Obj v__3515477_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3515478_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3515477_37);
+if (True == v__3515478_37) {
+Obj v__3515479_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515480_37 = PRIM_ISCONS(v__3515479_37);
+if (True == v__3515480_37) {
+Obj v__3515481_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515482_37 = PRIM_CAR(v__3515481_37);
+Obj v__3514686_37 = v__3515482_37;
+Obj v__3515483_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515484_37 = PRIM_CDR(v__3515483_37);
+Obj v__3515485_37 = PRIM_EQ(Nil, v__3515484_37);
+if (True == v__3515485_37) {
+Obj v__3515486_37 = makeCons(co->gc, v__3514686_37, Nil);
+Obj v__3515487_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515486_37);
+coraReturn(co, v__3515487_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513244_37);
+coraCall0(co, v__3514661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513244_37);
+coraCall0(co, v__3514661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513244_37);
+coraCall0(co, v__3514661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513244_37);
+coraCall0(co, v__3514661_37);
 return;
 }
 }
@@ -719,73 +719,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513898_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3513898_37) {
+Obj v__3515315_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3515315_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513245_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3514037_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3514037_37) {
-Obj v__3514038_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514039_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3514038_37);
-if (True == v__3514039_37) {
-Obj v__3514040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514041_37 = PRIM_ISCONS(v__3514040_37);
-if (True == v__3514041_37) {
-Obj v__3514042_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514043_37 = PRIM_CAR(v__3514042_37);
-Obj v__3513267_37 = v__3514043_37;
-Obj v__3514044_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514045_37 = PRIM_CDR(v__3514044_37);
-Obj v__3514046_37 = PRIM_ISCONS(v__3514045_37);
-if (True == v__3514046_37) {
-Obj v__3514047_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514048_37 = PRIM_CDR(v__3514047_37);
-Obj v__3514049_37 = PRIM_CAR(v__3514048_37);
-Obj v__3513268_37 = v__3514049_37;
-Obj v__3514050_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514051_37 = PRIM_CDR(v__3514050_37);
-Obj v__3514052_37 = PRIM_CDR(v__3514051_37);
-Obj v__3514053_37 = PRIM_EQ(Nil, v__3514052_37);
-if (True == v__3514053_37) {
-R[1] = v__3513268_37;
-R[2] = v__3513267_37;
+Obj v__3514662_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515454_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515454_37) {
+Obj v__3515455_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515456_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3515455_37);
+if (True == v__3515456_37) {
+Obj v__3515457_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515458_37 = PRIM_ISCONS(v__3515457_37);
+if (True == v__3515458_37) {
+Obj v__3515459_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515460_37 = PRIM_CAR(v__3515459_37);
+Obj v__3514684_37 = v__3515460_37;
+Obj v__3515461_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515462_37 = PRIM_CDR(v__3515461_37);
+Obj v__3515463_37 = PRIM_ISCONS(v__3515462_37);
+if (True == v__3515463_37) {
+Obj v__3515464_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515465_37 = PRIM_CDR(v__3515464_37);
+Obj v__3515466_37 = PRIM_CAR(v__3515465_37);
+Obj v__3514685_37 = v__3515466_37;
+Obj v__3515467_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515468_37 = PRIM_CDR(v__3515467_37);
+Obj v__3515469_37 = PRIM_CDR(v__3515468_37);
+Obj v__3515470_37 = PRIM_EQ(Nil, v__3515469_37);
+if (True == v__3515470_37) {
+R[1] = v__3514685_37;
+R[2] = v__3514684_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513267_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3514684_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513245_37);
+coraCall0(co, v__3514662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513245_37);
+coraCall0(co, v__3514662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513245_37);
+coraCall0(co, v__3514662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513245_37);
+coraCall0(co, v__3514662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513245_37);
+coraCall0(co, v__3514662_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513900_37= co->res;
-if (True == v__3513900_37) {
+Obj v__3515317_37= co->res;
+if (True == v__3515317_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -796,8 +796,8 @@ return;
 }
 case 2:
 {
-Obj v__3513899_37= co->res;
-if (True == v__3513899_37) {
+Obj v__3515316_37= co->res;
+if (True == v__3515316_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -808,22 +808,22 @@ return;
 }
 case 3:
 {
-Obj v__3514055_37= co->res;
-Obj v__3513267_37 = R[1];
-Obj v__3514056_37 = makeCons(co->gc, v__3514055_37, Nil);
-Obj v__3514057_37 = makeCons(co->gc, v__3513267_37, v__3514056_37);
-Obj v__3514058_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514057_37);
-coraReturn(co, v__3514058_37);
+Obj v__3515472_37= co->res;
+Obj v__3514684_37 = R[1];
+Obj v__3515473_37 = makeCons(co->gc, v__3515472_37, Nil);
+Obj v__3515474_37 = makeCons(co->gc, v__3514684_37, v__3515473_37);
+Obj v__3515475_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515474_37);
+coraReturn(co, v__3515475_37);
 return;
 }
 case 4:
 {
-Obj v__3514054_37= co->res;
-Obj v__3513268_37 = R[1];
-Obj v__3513267_37 = R[2];
-R[1] = v__3513267_37;
+Obj v__3515471_37= co->res;
+Obj v__3514685_37 = R[1];
+Obj v__3514684_37 = R[2];
+R[1] = v__3514684_37;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3514054_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513268_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515471_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514685_37);
 return;
 }
 }
@@ -833,132 +833,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513246_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513993_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513993_37) {
-Obj v__3513994_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513995_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513994_37);
-if (True == v__3513995_37) {
-Obj v__3513996_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513997_37 = PRIM_ISCONS(v__3513996_37);
-if (True == v__3513997_37) {
-Obj v__3513998_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513999_37 = PRIM_CAR(v__3513998_37);
-Obj v__3514000_37 = PRIM_ISCONS(v__3513999_37);
-if (True == v__3514000_37) {
-Obj v__3514001_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514002_37 = PRIM_CAR(v__3514001_37);
-Obj v__3514003_37 = PRIM_CAR(v__3514002_37);
-Obj v__3514004_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3514003_37);
-if (True == v__3514004_37) {
-Obj v__3514005_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514006_37 = PRIM_CAR(v__3514005_37);
-Obj v__3514007_37 = PRIM_CDR(v__3514006_37);
-Obj v__3514008_37 = PRIM_ISCONS(v__3514007_37);
-if (True == v__3514008_37) {
-Obj v__3514009_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514010_37 = PRIM_CAR(v__3514009_37);
-Obj v__3514011_37 = PRIM_CDR(v__3514010_37);
-Obj v__3514012_37 = PRIM_CAR(v__3514011_37);
-Obj v__3513265_37 = v__3514012_37;
-Obj v__3514013_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514014_37 = PRIM_CAR(v__3514013_37);
-Obj v__3514015_37 = PRIM_CDR(v__3514014_37);
-Obj v__3514016_37 = PRIM_CDR(v__3514015_37);
-Obj v__3514017_37 = PRIM_EQ(Nil, v__3514016_37);
-if (True == v__3514017_37) {
-Obj v__3514018_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514019_37 = PRIM_CDR(v__3514018_37);
-Obj v__3514020_37 = PRIM_ISCONS(v__3514019_37);
-if (True == v__3514020_37) {
-Obj v__3514021_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514022_37 = PRIM_CDR(v__3514021_37);
-Obj v__3514023_37 = PRIM_CAR(v__3514022_37);
-Obj v__3513266_37 = v__3514023_37;
-Obj v__3514024_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514025_37 = PRIM_CDR(v__3514024_37);
-Obj v__3514026_37 = PRIM_CDR(v__3514025_37);
-Obj v__3514027_37 = PRIM_EQ(Nil, v__3514026_37);
-if (True == v__3514027_37) {
-Obj v__3514028_37 = primIsString(v__3513265_37);
-if (True == v__3514028_37) {
-Obj v__3514029_37 = makeCons(co->gc, v__3513265_37, Nil);
-Obj v__3514030_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3514029_37);
-R[1] = v__3513265_37;
-R[2] = v__3513266_37;
+Obj v__3514663_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515410_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515410_37) {
+Obj v__3515411_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515412_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3515411_37);
+if (True == v__3515412_37) {
+Obj v__3515413_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515414_37 = PRIM_ISCONS(v__3515413_37);
+if (True == v__3515414_37) {
+Obj v__3515415_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515416_37 = PRIM_CAR(v__3515415_37);
+Obj v__3515417_37 = PRIM_ISCONS(v__3515416_37);
+if (True == v__3515417_37) {
+Obj v__3515418_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515419_37 = PRIM_CAR(v__3515418_37);
+Obj v__3515420_37 = PRIM_CAR(v__3515419_37);
+Obj v__3515421_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515420_37);
+if (True == v__3515421_37) {
+Obj v__3515422_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515423_37 = PRIM_CAR(v__3515422_37);
+Obj v__3515424_37 = PRIM_CDR(v__3515423_37);
+Obj v__3515425_37 = PRIM_ISCONS(v__3515424_37);
+if (True == v__3515425_37) {
+Obj v__3515426_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515427_37 = PRIM_CAR(v__3515426_37);
+Obj v__3515428_37 = PRIM_CDR(v__3515427_37);
+Obj v__3515429_37 = PRIM_CAR(v__3515428_37);
+Obj v__3514682_37 = v__3515429_37;
+Obj v__3515430_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515431_37 = PRIM_CAR(v__3515430_37);
+Obj v__3515432_37 = PRIM_CDR(v__3515431_37);
+Obj v__3515433_37 = PRIM_CDR(v__3515432_37);
+Obj v__3515434_37 = PRIM_EQ(Nil, v__3515433_37);
+if (True == v__3515434_37) {
+Obj v__3515435_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515436_37 = PRIM_CDR(v__3515435_37);
+Obj v__3515437_37 = PRIM_ISCONS(v__3515436_37);
+if (True == v__3515437_37) {
+Obj v__3515438_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515439_37 = PRIM_CDR(v__3515438_37);
+Obj v__3515440_37 = PRIM_CAR(v__3515439_37);
+Obj v__3514683_37 = v__3515440_37;
+Obj v__3515441_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515442_37 = PRIM_CDR(v__3515441_37);
+Obj v__3515443_37 = PRIM_CDR(v__3515442_37);
+Obj v__3515444_37 = PRIM_EQ(Nil, v__3515443_37);
+if (True == v__3515444_37) {
+Obj v__3515445_37 = primIsString(v__3514682_37);
+if (True == v__3515445_37) {
+Obj v__3515446_37 = makeCons(co->gc, v__3514682_37, Nil);
+Obj v__3515447_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515446_37);
+R[1] = v__3514682_37;
+R[2] = v__3514683_37;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514030_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3515447_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513246_37);
+coraCall0(co, v__3514663_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3514033_37= co->res;
-Obj v__3514031_37 = R[1];
-Obj v__3514034_37 = makeCons(co->gc, v__3514033_37, Nil);
-Obj v__3514035_37 = makeCons(co->gc, v__3514031_37, v__3514034_37);
-Obj v__3514036_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3514035_37);
-coraReturn(co, v__3514036_37);
+Obj v__3515450_37= co->res;
+Obj v__3515448_37 = R[1];
+Obj v__3515451_37 = makeCons(co->gc, v__3515450_37, Nil);
+Obj v__3515452_37 = makeCons(co->gc, v__3515448_37, v__3515451_37);
+Obj v__3515453_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515452_37);
+coraReturn(co, v__3515453_37);
 return;
 }
 case 2:
 {
-Obj v__3514031_37= co->res;
-Obj v__3513265_37 = R[1];
-Obj v__3513266_37 = R[2];
-Obj v__3514032_37 = makeCons(co->gc, v__3513265_37, closureRef(R[0], 3));
-R[1] = v__3514031_37;
+Obj v__3515448_37= co->res;
+Obj v__3514682_37 = R[1];
+Obj v__3514683_37 = R[2];
+Obj v__3515449_37 = makeCons(co->gc, v__3514682_37, closureRef(R[0], 3));
+R[1] = v__3515448_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3514032_37, v__3513266_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3515449_37, v__3514683_37);
 return;
 }
 }
@@ -968,34 +968,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513247_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513985_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513985_37) {
-Obj v__3513986_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513260_37 = v__3513986_37;
-Obj v__3513987_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513261_37 = v__3513987_37;
-Obj v__3513264_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3513260_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513261_37, v__3513247_37);
-Obj v__3513991_37 = PRIM_EQ(v__3513260_37, getBinding(co, packageID, 126).name);
-if (True == v__3513991_37) {
+Obj v__3514664_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515402_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515402_37) {
+Obj v__3515403_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514677_37 = v__3515403_37;
+Obj v__3515404_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514678_37 = v__3515404_37;
+Obj v__3514681_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3514677_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514678_37, v__3514664_37);
+Obj v__3515408_37 = PRIM_EQ(v__3514677_37, getBinding(co, packageID, 126).name);
+if (True == v__3515408_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513264_37, True);
+coraCall1(co, v__3514681_37, True);
 return;
 } else {
-Obj v__3513992_37 = PRIM_EQ(v__3513260_37, getBinding(co, packageID, 90).name);
-if (True == v__3513992_37) {
+Obj v__3515409_37 = PRIM_EQ(v__3514677_37, getBinding(co, packageID, 90).name);
+if (True == v__3515409_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513264_37, True);
+coraCall1(co, v__3514681_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513264_37, False);
+coraCall1(co, v__3514681_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513247_37);
+coraCall0(co, v__3514664_37);
 return;
 }
 }
@@ -1006,8 +1006,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513263_37 = R[1];
-if (True == v__3513263_37) {
+Obj v__3514680_37 = R[1];
+if (True == v__3514680_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1019,16 +1019,16 @@ return;
 }
 case 1:
 {
-Obj v__3513989_37= co->res;
-Obj v__3513990_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513989_37);
-coraReturn(co, v__3513990_37);
+Obj v__3515406_37= co->res;
+Obj v__3515407_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515406_37);
+coraReturn(co, v__3515407_37);
 return;
 }
 case 2:
 {
-Obj v__3513988_37= co->res;
+Obj v__3515405_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513988_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3515405_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1038,100 +1038,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513248_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513952_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513952_37) {
-Obj v__3513953_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513954_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3513953_37);
-if (True == v__3513954_37) {
-Obj v__3513955_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513956_37 = PRIM_ISCONS(v__3513955_37);
-if (True == v__3513956_37) {
-Obj v__3513957_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513958_37 = PRIM_CAR(v__3513957_37);
-Obj v__3513257_37 = v__3513958_37;
-Obj v__3513959_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513960_37 = PRIM_CDR(v__3513959_37);
-Obj v__3513961_37 = PRIM_ISCONS(v__3513960_37);
-if (True == v__3513961_37) {
-Obj v__3513962_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513963_37 = PRIM_CDR(v__3513962_37);
-Obj v__3513964_37 = PRIM_CAR(v__3513963_37);
-Obj v__3513258_37 = v__3513964_37;
-Obj v__3513965_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513966_37 = PRIM_CDR(v__3513965_37);
-Obj v__3513967_37 = PRIM_CDR(v__3513966_37);
-Obj v__3513968_37 = PRIM_ISCONS(v__3513967_37);
-if (True == v__3513968_37) {
-Obj v__3513969_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513970_37 = PRIM_CDR(v__3513969_37);
-Obj v__3513971_37 = PRIM_CDR(v__3513970_37);
-Obj v__3513972_37 = PRIM_CAR(v__3513971_37);
-Obj v__3513259_37 = v__3513972_37;
-Obj v__3513973_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513974_37 = PRIM_CDR(v__3513973_37);
-Obj v__3513975_37 = PRIM_CDR(v__3513974_37);
-Obj v__3513976_37 = PRIM_CDR(v__3513975_37);
-Obj v__3513977_37 = PRIM_EQ(Nil, v__3513976_37);
-if (True == v__3513977_37) {
-R[1] = v__3513259_37;
-R[2] = v__3513257_37;
+Obj v__3514665_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515369_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515369_37) {
+Obj v__3515370_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515371_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3515370_37);
+if (True == v__3515371_37) {
+Obj v__3515372_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515373_37 = PRIM_ISCONS(v__3515372_37);
+if (True == v__3515373_37) {
+Obj v__3515374_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515375_37 = PRIM_CAR(v__3515374_37);
+Obj v__3514674_37 = v__3515375_37;
+Obj v__3515376_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515377_37 = PRIM_CDR(v__3515376_37);
+Obj v__3515378_37 = PRIM_ISCONS(v__3515377_37);
+if (True == v__3515378_37) {
+Obj v__3515379_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515380_37 = PRIM_CDR(v__3515379_37);
+Obj v__3515381_37 = PRIM_CAR(v__3515380_37);
+Obj v__3514675_37 = v__3515381_37;
+Obj v__3515382_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515383_37 = PRIM_CDR(v__3515382_37);
+Obj v__3515384_37 = PRIM_CDR(v__3515383_37);
+Obj v__3515385_37 = PRIM_ISCONS(v__3515384_37);
+if (True == v__3515385_37) {
+Obj v__3515386_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515387_37 = PRIM_CDR(v__3515386_37);
+Obj v__3515388_37 = PRIM_CDR(v__3515387_37);
+Obj v__3515389_37 = PRIM_CAR(v__3515388_37);
+Obj v__3514676_37 = v__3515389_37;
+Obj v__3515390_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515391_37 = PRIM_CDR(v__3515390_37);
+Obj v__3515392_37 = PRIM_CDR(v__3515391_37);
+Obj v__3515393_37 = PRIM_CDR(v__3515392_37);
+Obj v__3515394_37 = PRIM_EQ(Nil, v__3515393_37);
+if (True == v__3515394_37) {
+R[1] = v__3514676_37;
+R[2] = v__3514674_37;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513258_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514675_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513248_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513248_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513248_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513248_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513248_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513248_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513980_37= co->res;
-Obj v__3513978_37 = R[1];
-Obj v__3513257_37 = R[2];
-Obj v__3513981_37 = makeCons(co->gc, v__3513980_37, Nil);
-Obj v__3513982_37 = makeCons(co->gc, v__3513978_37, v__3513981_37);
-Obj v__3513983_37 = makeCons(co->gc, v__3513257_37, v__3513982_37);
-Obj v__3513984_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513983_37);
-coraReturn(co, v__3513984_37);
+Obj v__3515397_37= co->res;
+Obj v__3515395_37 = R[1];
+Obj v__3514674_37 = R[2];
+Obj v__3515398_37 = makeCons(co->gc, v__3515397_37, Nil);
+Obj v__3515399_37 = makeCons(co->gc, v__3515395_37, v__3515398_37);
+Obj v__3515400_37 = makeCons(co->gc, v__3514674_37, v__3515399_37);
+Obj v__3515401_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3515400_37);
+coraReturn(co, v__3515401_37);
 return;
 }
 case 2:
 {
-Obj v__3513978_37= co->res;
-Obj v__3513259_37 = R[1];
-Obj v__3513257_37 = R[2];
-Obj v__3513979_37 = makeCons(co->gc, v__3513257_37, closureRef(R[0], 1));
-R[1] = v__3513978_37;
-R[2] = v__3513257_37;
+Obj v__3515395_37= co->res;
+Obj v__3514676_37 = R[1];
+Obj v__3514674_37 = R[2];
+Obj v__3515396_37 = makeCons(co->gc, v__3514674_37, closureRef(R[0], 1));
+R[1] = v__3515395_37;
+R[2] = v__3514674_37;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513979_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513259_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515396_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514676_37);
 return;
 }
 }
@@ -1141,73 +1141,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513249_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513926_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3513926_37) {
-Obj v__3513927_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3513928_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513927_37);
-if (True == v__3513928_37) {
-Obj v__3513929_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513930_37 = PRIM_ISCONS(v__3513929_37);
-if (True == v__3513930_37) {
-Obj v__3513931_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513932_37 = PRIM_CAR(v__3513931_37);
-Obj v__3513254_37 = v__3513932_37;
-Obj v__3513933_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513934_37 = PRIM_CDR(v__3513933_37);
-Obj v__3513935_37 = PRIM_ISCONS(v__3513934_37);
-if (True == v__3513935_37) {
-Obj v__3513936_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513937_37 = PRIM_CDR(v__3513936_37);
-Obj v__3513938_37 = PRIM_CAR(v__3513937_37);
-Obj v__3513255_37 = v__3513938_37;
-Obj v__3513939_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513940_37 = PRIM_CDR(v__3513939_37);
-Obj v__3513941_37 = PRIM_CDR(v__3513940_37);
-Obj v__3513942_37 = PRIM_ISCONS(v__3513941_37);
-if (True == v__3513942_37) {
-Obj v__3513943_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513944_37 = PRIM_CDR(v__3513943_37);
-Obj v__3513945_37 = PRIM_CDR(v__3513944_37);
-Obj v__3513946_37 = PRIM_CAR(v__3513945_37);
-Obj v__3513256_37 = v__3513946_37;
-Obj v__3513947_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513948_37 = PRIM_CDR(v__3513947_37);
-Obj v__3513949_37 = PRIM_CDR(v__3513948_37);
-Obj v__3513950_37 = PRIM_CDR(v__3513949_37);
-Obj v__3513951_37 = PRIM_EQ(Nil, v__3513950_37);
-if (True == v__3513951_37) {
+Obj v__3514666_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515343_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3515343_37) {
+Obj v__3515344_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3515345_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3515344_37);
+if (True == v__3515345_37) {
+Obj v__3515346_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515347_37 = PRIM_ISCONS(v__3515346_37);
+if (True == v__3515347_37) {
+Obj v__3515348_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515349_37 = PRIM_CAR(v__3515348_37);
+Obj v__3514671_37 = v__3515349_37;
+Obj v__3515350_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515351_37 = PRIM_CDR(v__3515350_37);
+Obj v__3515352_37 = PRIM_ISCONS(v__3515351_37);
+if (True == v__3515352_37) {
+Obj v__3515353_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515354_37 = PRIM_CDR(v__3515353_37);
+Obj v__3515355_37 = PRIM_CAR(v__3515354_37);
+Obj v__3514672_37 = v__3515355_37;
+Obj v__3515356_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515357_37 = PRIM_CDR(v__3515356_37);
+Obj v__3515358_37 = PRIM_CDR(v__3515357_37);
+Obj v__3515359_37 = PRIM_ISCONS(v__3515358_37);
+if (True == v__3515359_37) {
+Obj v__3515360_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515361_37 = PRIM_CDR(v__3515360_37);
+Obj v__3515362_37 = PRIM_CDR(v__3515361_37);
+Obj v__3515363_37 = PRIM_CAR(v__3515362_37);
+Obj v__3514673_37 = v__3515363_37;
+Obj v__3515364_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515365_37 = PRIM_CDR(v__3515364_37);
+Obj v__3515366_37 = PRIM_CDR(v__3515365_37);
+Obj v__3515367_37 = PRIM_CDR(v__3515366_37);
+Obj v__3515368_37 = PRIM_EQ(Nil, v__3515367_37);
+if (True == v__3515368_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513254_37, v__3513255_37, v__3513256_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3514671_37, v__3514672_37, v__3514673_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513249_37);
+coraCall0(co, v__3514666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513249_37);
+coraCall0(co, v__3514666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513249_37);
+coraCall0(co, v__3514666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513249_37);
+coraCall0(co, v__3514666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513249_37);
+coraCall0(co, v__3514666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513249_37);
+coraCall0(co, v__3514666_37);
 return;
 }
 }
@@ -1218,81 +1218,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513250_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v__3513902_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513902_37) {
-Obj v__3513903_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513904_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3513903_37);
-if (True == v__3513904_37) {
-Obj v__3513905_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513906_37 = PRIM_ISCONS(v__3513905_37);
-if (True == v__3513906_37) {
-Obj v__3513907_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513908_37 = PRIM_CAR(v__3513907_37);
-Obj v__3513251_37 = v__3513908_37;
-Obj v__3513909_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513910_37 = PRIM_CDR(v__3513909_37);
-Obj v__3513911_37 = PRIM_ISCONS(v__3513910_37);
-if (True == v__3513911_37) {
-Obj v__3513912_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513913_37 = PRIM_CDR(v__3513912_37);
-Obj v__3513914_37 = PRIM_CAR(v__3513913_37);
-Obj v__3513252_37 = v__3513914_37;
-Obj v__3513915_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513916_37 = PRIM_CDR(v__3513915_37);
-Obj v__3513917_37 = PRIM_CDR(v__3513916_37);
-Obj v__3513918_37 = PRIM_EQ(Nil, v__3513917_37);
-if (True == v__3513918_37) {
-R[1] = v__3513252_37;
+Obj v__3514667_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3515319_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515319_37) {
+Obj v__3515320_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515321_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3515320_37);
+if (True == v__3515321_37) {
+Obj v__3515322_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515323_37 = PRIM_ISCONS(v__3515322_37);
+if (True == v__3515323_37) {
+Obj v__3515324_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515325_37 = PRIM_CAR(v__3515324_37);
+Obj v__3514668_37 = v__3515325_37;
+Obj v__3515326_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515327_37 = PRIM_CDR(v__3515326_37);
+Obj v__3515328_37 = PRIM_ISCONS(v__3515327_37);
+if (True == v__3515328_37) {
+Obj v__3515329_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515330_37 = PRIM_CDR(v__3515329_37);
+Obj v__3515331_37 = PRIM_CAR(v__3515330_37);
+Obj v__3514669_37 = v__3515331_37;
+Obj v__3515332_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515333_37 = PRIM_CDR(v__3515332_37);
+Obj v__3515334_37 = PRIM_CDR(v__3515333_37);
+Obj v__3515335_37 = PRIM_EQ(Nil, v__3515334_37);
+if (True == v__3515335_37) {
+R[1] = v__3514669_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513251_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514668_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513250_37);
+coraCall0(co, v__3514667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513250_37);
+coraCall0(co, v__3514667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513250_37);
+coraCall0(co, v__3514667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513250_37);
+coraCall0(co, v__3514667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513250_37);
+coraCall0(co, v__3514667_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513922_37= co->res;
-Obj v__3513921_37 = R[1];
-Obj v__3513923_37 = makeCons(co->gc, v__3513922_37, Nil);
-Obj v__3513924_37 = makeCons(co->gc, v__3513921_37, v__3513923_37);
-Obj v__3513925_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513924_37);
-coraReturn(co, v__3513925_37);
+Obj v__3515339_37= co->res;
+Obj v__3515338_37 = R[1];
+Obj v__3515340_37 = makeCons(co->gc, v__3515339_37, Nil);
+Obj v__3515341_37 = makeCons(co->gc, v__3515338_37, v__3515340_37);
+Obj v__3515342_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515341_37);
+coraReturn(co, v__3515342_37);
 return;
 }
 case 2:
 {
-Obj v__3513919_37= co->res;
-Obj v__3513252_37 = R[1];
-Obj v__3513253_37 = v__3513919_37;
-Obj v__3513920_37 = makeCons(co->gc, v__3513253_37, Nil);
-Obj v__3513921_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513920_37);
-R[1] = v__3513921_37;
+Obj v__3515336_37= co->res;
+Obj v__3514669_37 = R[1];
+Obj v__3514670_37 = v__3515336_37;
+Obj v__3515337_37 = makeCons(co->gc, v__3514670_37, Nil);
+Obj v__3515338_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515337_37);
+R[1] = v__3515338_37;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513252_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514669_37);
 return;
 }
 }
@@ -1308,9 +1308,9 @@ return;
 }
 case 1:
 {
-Obj v__3513901_37= co->res;
+Obj v__3515318_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513901_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3515318_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1320,23 +1320,23 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
+Obj v__3514513_37 = R[1];
 saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_x, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3514513_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj v__3513895_37= co->res;
-Obj v__3513896_37 = primNot(v__3513895_37);
-coraReturn(co, v__3513896_37);
+Obj v__3515312_37= co->res;
+Obj v__3515313_37 = primNot(v__3515312_37);
+coraReturn(co, v__3515313_37);
 return;
 }
 case 2:
 {
-Obj v__3513894_37= co->res;
+Obj v__3515311_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513894_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3515311_37);
 return;
 }
 }
@@ -1346,44 +1346,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513149_37 = R[1];
-Obj v__3513150_37 = R[2];
-Obj v__3513879_37 = PRIM_EQ(Nil, v__3513150_37);
-if (True == v__3513879_37) {
+Obj v__3514503_37 = R[1];
+Obj v__3514504_37 = R[2];
+Obj v__3515296_37 = PRIM_EQ(Nil, v__3514504_37);
+if (True == v__3515296_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513237_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3513150_37, v__3513149_37);
-Obj v__3513883_37 = PRIM_ISCONS(v__3513150_37);
-if (True == v__3513883_37) {
-Obj v__3513884_37 = PRIM_CAR(v__3513150_37);
-Obj v__3513885_37 = PRIM_ISCONS(v__3513884_37);
-if (True == v__3513885_37) {
-Obj v__3513886_37 = PRIM_CAR(v__3513150_37);
-Obj v__3513887_37 = PRIM_CAR(v__3513886_37);
-Obj v__3513239_37 = v__3513887_37;
-Obj v__3513888_37 = PRIM_CAR(v__3513150_37);
-Obj v__3513889_37 = PRIM_CDR(v__3513888_37);
-Obj v__3513240_37 = v__3513889_37;
-Obj v__3513890_37 = PRIM_CDR(v__3513150_37);
-Obj v__3513891_37 = PRIM_EQ(v__3513149_37, v__3513239_37);
-if (True == v__3513891_37) {
-Obj v__3513892_37 = makeCons(co->gc, v__3513239_37, v__3513240_37);
-coraReturn(co, v__3513892_37);
+Obj v__3514654_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3514504_37, v__3514503_37);
+Obj v__3515300_37 = PRIM_ISCONS(v__3514504_37);
+if (True == v__3515300_37) {
+Obj v__3515301_37 = PRIM_CAR(v__3514504_37);
+Obj v__3515302_37 = PRIM_ISCONS(v__3515301_37);
+if (True == v__3515302_37) {
+Obj v__3515303_37 = PRIM_CAR(v__3514504_37);
+Obj v__3515304_37 = PRIM_CAR(v__3515303_37);
+Obj v__3514656_37 = v__3515304_37;
+Obj v__3515305_37 = PRIM_CAR(v__3514504_37);
+Obj v__3515306_37 = PRIM_CDR(v__3515305_37);
+Obj v__3514657_37 = v__3515306_37;
+Obj v__3515307_37 = PRIM_CDR(v__3514504_37);
+Obj v__3515308_37 = PRIM_EQ(v__3514503_37, v__3514656_37);
+if (True == v__3515308_37) {
+Obj v__3515309_37 = makeCons(co->gc, v__3514656_37, v__3514657_37);
+coraReturn(co, v__3515309_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513237_37);
+coraCall0(co, v__3514654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513237_37);
+coraCall0(co, v__3514654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513237_37);
+coraCall0(co, v__3514654_37);
 return;
 }
 }
@@ -1395,13 +1395,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513880_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513880_37) {
-Obj v__3513881_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513882_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513238_37 = v__3513882_37;
+Obj v__3515297_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515297_37) {
+Obj v__3515298_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515299_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514655_37 = v__3515299_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513238_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3514655_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1416,27 +1416,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513144_37 = R[1];
-Obj v__3513145_37 = R[2];
-Obj v__3513146_37 = R[3];
-Obj v__3513798_37 = PRIM_EQ(Nil, v__3513146_37);
-if (True == v__3513798_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513144_37, v__3513145_37);
-return;
-} else {
-Obj v__3513799_37 = PRIM_ISCONS(v__3513146_37);
-if (True == v__3513799_37) {
-Obj v__3513800_37 = PRIM_CAR(v__3513146_37);
-Obj v__3513234_37 = v__3513800_37;
-Obj v__3513801_37 = PRIM_CDR(v__3513146_37);
-Obj v__3513235_37 = v__3513801_37;
-R[1] = v__3513234_37;
-R[2] = v__3513144_37;
-R[3] = v__3513145_37;
-R[4] = v__3513235_37;
+Obj v__3514494_37 = R[1];
+Obj v__3514495_37 = R[2];
+Obj v__3514496_37 = R[3];
+Obj v__3515215_37 = PRIM_EQ(Nil, v__3514496_37);
+if (True == v__3515215_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514494_37, v__3514495_37);
+return;
+} else {
+Obj v__3515216_37 = PRIM_ISCONS(v__3514496_37);
+if (True == v__3515216_37) {
+Obj v__3515217_37 = PRIM_CAR(v__3514496_37);
+Obj v__3514651_37 = v__3515217_37;
+Obj v__3515218_37 = PRIM_CDR(v__3514496_37);
+Obj v__3514652_37 = v__3515218_37;
+R[1] = v__3514651_37;
+R[2] = v__3514494_37;
+R[3] = v__3514495_37;
+R[4] = v__3514652_37;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513234_37, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514651_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1447,90 +1447,90 @@ return;
 }
 case 1:
 {
-Obj v__3513808_37= co->res;
+Obj v__3515225_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513808_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515225_37);
 return;
 }
 case 2:
 {
-Obj v__3513807_37= co->res;
-Obj v__3513234_37 = R[1];
+Obj v__3515224_37= co->res;
+Obj v__3514651_37 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513234_37, v__3513807_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514651_37, v__3515224_37);
 return;
 }
 case 3:
 {
-Obj v__3513806_37= co->res;
-Obj v__3513234_37 = R[1];
-R[1] = v__3513234_37;
+Obj v__3515223_37= co->res;
+Obj v__3514651_37 = R[1];
+R[1] = v__3514651_37;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513806_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515223_37);
 return;
 }
 case 4:
 {
-Obj v__3513805_37= co->res;
-Obj v__3513234_37 = R[1];
-Obj v__3513144_37 = R[2];
-Obj v__3513145_37 = R[3];
-Obj v__3513235_37 = R[4];
-if (True == v__3513805_37) {
-R[1] = v__3513234_37;
+Obj v__3515222_37= co->res;
+Obj v__3514651_37 = R[1];
+Obj v__3514494_37 = R[2];
+Obj v__3514495_37 = R[3];
+Obj v__3514652_37 = R[4];
+if (True == v__3515222_37) {
+R[1] = v__3514651_37;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513144_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514494_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513144_37, v__3513145_37, v__3513235_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3514494_37, v__3514495_37, v__3514652_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3513804_37= co->res;
-Obj v__3513234_37 = R[1];
-Obj v__3513144_37 = R[2];
-Obj v__3513145_37 = R[3];
-Obj v__3513235_37 = R[4];
-Obj v__3513236_37 = v__3513804_37;
-R[1] = v__3513234_37;
-R[2] = v__3513144_37;
-R[3] = v__3513145_37;
-R[4] = v__3513235_37;
+Obj v__3515221_37= co->res;
+Obj v__3514651_37 = R[1];
+Obj v__3514494_37 = R[2];
+Obj v__3514495_37 = R[3];
+Obj v__3514652_37 = R[4];
+Obj v__3514653_37 = v__3515221_37;
+R[1] = v__3514651_37;
+R[2] = v__3514494_37;
+R[3] = v__3514495_37;
+R[4] = v__3514652_37;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3513144_37, v__3513236_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3514494_37, v__3514653_37);
 return;
 }
 case 6:
 {
-Obj v__3513803_37= co->res;
-Obj v__3513234_37 = R[1];
-Obj v__3513144_37 = R[2];
-Obj v__3513145_37 = R[3];
-Obj v__3513235_37 = R[4];
-R[1] = v__3513234_37;
-R[2] = v__3513144_37;
-R[3] = v__3513145_37;
-R[4] = v__3513235_37;
+Obj v__3515220_37= co->res;
+Obj v__3514651_37 = R[1];
+Obj v__3514494_37 = R[2];
+Obj v__3514495_37 = R[3];
+Obj v__3514652_37 = R[4];
+R[1] = v__3514651_37;
+R[2] = v__3514494_37;
+R[3] = v__3514495_37;
+R[4] = v__3514652_37;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513803_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3515220_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3513802_37= co->res;
-Obj v__3513234_37 = R[1];
-Obj v__3513144_37 = R[2];
-Obj v__3513145_37 = R[3];
-Obj v__3513235_37 = R[4];
-R[1] = v__3513234_37;
-R[2] = v__3513144_37;
-R[3] = v__3513145_37;
-R[4] = v__3513235_37;
+Obj v__3515219_37= co->res;
+Obj v__3514651_37 = R[1];
+Obj v__3514494_37 = R[2];
+Obj v__3514495_37 = R[3];
+Obj v__3514652_37 = R[4];
+R[1] = v__3514651_37;
+R[2] = v__3514494_37;
+R[3] = v__3514495_37;
+R[4] = v__3514652_37;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513802_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515219_37);
 return;
 }
 }
@@ -1540,56 +1540,56 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_var = R[1];
-Obj v_ns = R[2];
-Obj v__3513792_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v__3513792_37) {
-coraReturn(co, v_var);
+Obj v__3514492_37 = R[1];
+Obj v__3514493_37 = R[2];
+Obj v__3515209_37 = PRIM_EQ(v__3514493_37, makeCString(co->gc, ""));
+if (True == v__3515209_37) {
+coraReturn(co, v__3514492_37);
 return;
 } else {
-R[1] = v_var;
-R[2] = v_ns;
+R[1] = v__3514492_37;
+R[2] = v__3514493_37;
 saveCont(co, clofun80, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3514492_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513796_37= co->res;
+Obj v__3515213_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513796_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515213_37);
 return;
 }
 case 2:
 {
-Obj v__3513795_37= co->res;
-Obj v_ns = R[1];
+Obj v__3515212_37= co->res;
+Obj v__3514493_37 = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513795_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514493_37, v__3515212_37);
 return;
 }
 case 3:
 {
-Obj v__3513794_37= co->res;
-Obj v_ns = R[1];
-R[1] = v_ns;
+Obj v__3515211_37= co->res;
+Obj v__3514493_37 = R[1];
+R[1] = v__3514493_37;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513794_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515211_37);
 return;
 }
 case 4:
 {
-Obj v__3513793_37= co->res;
-Obj v_var = R[1];
-Obj v_ns = R[2];
-if (True == v__3513793_37) {
-coraReturn(co, v_var);
+Obj v__3515210_37= co->res;
+Obj v__3514492_37 = R[1];
+Obj v__3514493_37 = R[2];
+if (True == v__3515210_37) {
+coraReturn(co, v__3514492_37);
 return;
 } else {
-R[1] = v_ns;
+R[1] = v__3514493_37;
 saveCont(co, clofun80, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514492_37);
 return;
 }
 }
@@ -1600,37 +1600,37 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_sexp = R[1];
-R[1] = v_sexp;
+Obj v__3514486_37 = R[1];
+R[1] = v__3514486_37;
 saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514486_37);
 return;
 }
 case 1:
 {
-Obj v__3513774_37= co->res;
-Obj v__3513233_37 = R[1];
+Obj v__3515191_37= co->res;
+Obj v__3514650_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3513774_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3513233_37));
+coraCall1(co, v__3515191_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3514650_37));
 return;
 }
 case 2:
 {
-Obj v__3513773_37= co->res;
-Obj v__3513233_37 = R[1];
-R[1] = v__3513233_37;
+Obj v__3515190_37= co->res;
+Obj v__3514650_37 = R[1];
+R[1] = v__3514650_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513773_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3515190_37);
 return;
 }
 case 3:
 {
-Obj v__3513772_37= co->res;
-Obj v_sexp = R[1];
-Obj v__3513233_37 = v__3513772_37;
-R[1] = v__3513233_37;
+Obj v__3515189_37= co->res;
+Obj v__3514486_37 = R[1];
+Obj v__3514650_37 = v__3515189_37;
+R[1] = v__3514650_37;
 saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514486_37);
 return;
 }
 }
@@ -1640,44 +1640,44 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_import = R[1];
-Obj v_export = R[2];
-Obj v_body = R[3];
-Obj v__3513775_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
-R[1] = v_export;
-R[2] = v_body;
-R[3] = v__3513775_37;
+Obj v__3514488_37 = R[1];
+Obj v__3514489_37 = R[2];
+Obj v__3514490_37 = R[3];
+Obj v__3515192_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v__3514488_37);
+R[1] = v__3514489_37;
+R[2] = v__3514490_37;
+R[3] = v__3515192_37;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v__3514488_37);
 return;
 }
 case 1:
 {
-Obj v__3513785_37= co->res;
-Obj v__3513775_37 = R[1];
-Obj v__3513786_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513785_37);
-Obj v__3513787_37 = makeCons(co->gc, v__3513786_37, Nil);
-Obj v__3513788_37 = makeCons(co->gc, v__3513775_37, v__3513787_37);
-Obj v__3513789_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513788_37);
-Obj v__3513790_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513789_37);
-coraReturn(co, v__3513790_37);
+Obj v__3515202_37= co->res;
+Obj v__3515192_37 = R[1];
+Obj v__3515203_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3515202_37);
+Obj v__3515204_37 = makeCons(co->gc, v__3515203_37, Nil);
+Obj v__3515205_37 = makeCons(co->gc, v__3515192_37, v__3515204_37);
+Obj v__3515206_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515205_37);
+Obj v__3515207_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3515206_37);
+coraReturn(co, v__3515207_37);
 return;
 }
 case 2:
 {
-Obj v__3513778_37= co->res;
-Obj v_export = R[1];
-Obj v_body = R[2];
-Obj v__3513775_37 = R[3];
-Obj v__3513779_37 = makeCons(co->gc, v_export, Nil);
-Obj v__3513780_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513779_37);
-Obj v__3513781_37 = makeCons(co->gc, v__3513780_37, Nil);
-Obj v__3513782_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513781_37);
-Obj v__3513783_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513782_37);
-Obj v__3513784_37 = makeCons(co->gc, v__3513783_37, v_body);
-R[1] = v__3513775_37;
+Obj v__3515195_37= co->res;
+Obj v__3514489_37 = R[1];
+Obj v__3514490_37 = R[2];
+Obj v__3515192_37 = R[3];
+Obj v__3515196_37 = makeCons(co->gc, v__3514489_37, Nil);
+Obj v__3515197_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3515196_37);
+Obj v__3515198_37 = makeCons(co->gc, v__3515197_37, Nil);
+Obj v__3515199_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3515198_37);
+Obj v__3515200_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515199_37);
+Obj v__3515201_37 = makeCons(co->gc, v__3515200_37, v__3514490_37);
+R[1] = v__3515192_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513778_37, v__3513784_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515195_37, v__3515201_37);
 return;
 }
 }
@@ -1687,10 +1687,10 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_imp = R[1];
-Obj v__3513776_37 = makeCons(co->gc, v_imp, Nil);
-Obj v__3513777_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513776_37);
-coraReturn(co, v__3513777_37);
+Obj v__3514491_37 = R[1];
+Obj v__3515193_37 = makeCons(co->gc, v__3514491_37, Nil);
+Obj v__3515194_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515193_37);
+coraReturn(co, v__3515194_37);
 return;
 }
 }
@@ -1700,10 +1700,10 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_data = R[1];
-Obj v_k = R[2];
+Obj v__3514484_37 = R[1];
+Obj v__3514485_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_data, Nil, Nil, v_k);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514484_37, Nil, Nil, v__3514485_37);
 return;
 }
 }
@@ -1713,62 +1713,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513137_37 = R[1];
-Obj v__3513138_37 = R[2];
-Obj v__3513139_37 = R[3];
-Obj v__3513140_37 = R[4];
-Obj v__3513227_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3513139_37, v__3513137_37, v__3513138_37, v__3513140_37);
-Obj v__3513752_37 = PRIM_ISCONS(v__3513137_37);
-if (True == v__3513752_37) {
-Obj v__3513753_37 = PRIM_CAR(v__3513137_37);
-Obj v__3513754_37 = PRIM_ISCONS(v__3513753_37);
-if (True == v__3513754_37) {
-Obj v__3513755_37 = PRIM_CAR(v__3513137_37);
-Obj v__3513756_37 = PRIM_CAR(v__3513755_37);
-Obj v__3513757_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513756_37);
-if (True == v__3513757_37) {
-Obj v__3513758_37 = PRIM_CAR(v__3513137_37);
-Obj v__3513759_37 = PRIM_CDR(v__3513758_37);
-Obj v__3513760_37 = PRIM_ISCONS(v__3513759_37);
-if (True == v__3513760_37) {
-Obj v__3513761_37 = PRIM_CAR(v__3513137_37);
-Obj v__3513762_37 = PRIM_CDR(v__3513761_37);
-Obj v__3513763_37 = PRIM_CAR(v__3513762_37);
-Obj v__3513231_37 = v__3513763_37;
-Obj v__3513764_37 = PRIM_CAR(v__3513137_37);
-Obj v__3513765_37 = PRIM_CDR(v__3513764_37);
-Obj v__3513766_37 = PRIM_CDR(v__3513765_37);
-Obj v__3513767_37 = PRIM_EQ(Nil, v__3513766_37);
-if (True == v__3513767_37) {
-Obj v__3513768_37 = PRIM_CDR(v__3513137_37);
-Obj v__3513232_37 = v__3513768_37;
-Obj v__3513769_37 = makeCons(co->gc, v__3513231_37, v__3513138_37);
+Obj v__3514474_37 = R[1];
+Obj v__3514475_37 = R[2];
+Obj v__3514476_37 = R[3];
+Obj v__3514477_37 = R[4];
+Obj v__3514644_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3514476_37, v__3514474_37, v__3514475_37, v__3514477_37);
+Obj v__3515169_37 = PRIM_ISCONS(v__3514474_37);
+if (True == v__3515169_37) {
+Obj v__3515170_37 = PRIM_CAR(v__3514474_37);
+Obj v__3515171_37 = PRIM_ISCONS(v__3515170_37);
+if (True == v__3515171_37) {
+Obj v__3515172_37 = PRIM_CAR(v__3514474_37);
+Obj v__3515173_37 = PRIM_CAR(v__3515172_37);
+Obj v__3515174_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515173_37);
+if (True == v__3515174_37) {
+Obj v__3515175_37 = PRIM_CAR(v__3514474_37);
+Obj v__3515176_37 = PRIM_CDR(v__3515175_37);
+Obj v__3515177_37 = PRIM_ISCONS(v__3515176_37);
+if (True == v__3515177_37) {
+Obj v__3515178_37 = PRIM_CAR(v__3514474_37);
+Obj v__3515179_37 = PRIM_CDR(v__3515178_37);
+Obj v__3515180_37 = PRIM_CAR(v__3515179_37);
+Obj v__3514648_37 = v__3515180_37;
+Obj v__3515181_37 = PRIM_CAR(v__3514474_37);
+Obj v__3515182_37 = PRIM_CDR(v__3515181_37);
+Obj v__3515183_37 = PRIM_CDR(v__3515182_37);
+Obj v__3515184_37 = PRIM_EQ(Nil, v__3515183_37);
+if (True == v__3515184_37) {
+Obj v__3515185_37 = PRIM_CDR(v__3514474_37);
+Obj v__3514649_37 = v__3515185_37;
+Obj v__3515186_37 = makeCons(co->gc, v__3514648_37, v__3514475_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513232_37, v__3513769_37, v__3513139_37, v__3513140_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514649_37, v__3515186_37, v__3514476_37, v__3514477_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513227_37);
+coraCall0(co, v__3514644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513227_37);
+coraCall0(co, v__3514644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513227_37);
+coraCall0(co, v__3514644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513227_37);
+coraCall0(co, v__3514644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513227_37);
+coraCall0(co, v__3514644_37);
 return;
 }
 }
@@ -1779,37 +1779,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513228_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513743_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513743_37) {
-Obj v__3513744_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513745_37 = PRIM_ISCONS(v__3513744_37);
-if (True == v__3513745_37) {
-Obj v__3513746_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513747_37 = PRIM_CAR(v__3513746_37);
-Obj v__3513748_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513747_37);
-if (True == v__3513748_37) {
-Obj v__3513749_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513750_37 = PRIM_CDR(v__3513749_37);
-Obj v__3513229_37 = v__3513750_37;
-Obj v__3513751_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513230_37 = v__3513751_37;
+Obj v__3514645_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515160_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3515160_37) {
+Obj v__3515161_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515162_37 = PRIM_ISCONS(v__3515161_37);
+if (True == v__3515162_37) {
+Obj v__3515163_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515164_37 = PRIM_CAR(v__3515163_37);
+Obj v__3515165_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3515164_37);
+if (True == v__3515165_37) {
+Obj v__3515166_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515167_37 = PRIM_CDR(v__3515166_37);
+Obj v__3514646_37 = v__3515167_37;
+Obj v__3515168_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3514647_37 = v__3515168_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513230_37, closureRef(R[0], 2), v__3513229_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514647_37, closureRef(R[0], 2), v__3514646_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513228_37);
+coraCall0(co, v__3514645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513228_37);
+coraCall0(co, v__3514645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513228_37);
+coraCall0(co, v__3514645_37);
 return;
 }
 }
@@ -1826,9 +1826,9 @@ return;
 }
 case 1:
 {
-Obj v__3513742_37= co->res;
+Obj v__3515159_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v__3513742_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3515159_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1838,27 +1838,27 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514473_37 = R[1];
+R[1] = v__3514473_37;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514473_37);
 return;
 }
 case 1:
 {
-Obj v__3513740_37= co->res;
-Obj v__3513739_37 = R[1];
+Obj v__3515157_37= co->res;
+Obj v__3515156_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513739_37, v__3513740_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3515156_37, v__3515157_37);
 return;
 }
 case 2:
 {
-Obj v__3513739_37= co->res;
-Obj v_exp = R[1];
-R[1] = v__3513739_37;
+Obj v__3515156_37= co->res;
+Obj v__3514473_37 = R[1];
+R[1] = v__3515156_37;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514473_37);
 return;
 }
 }
@@ -1868,67 +1868,67 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_fn = R[1];
-Obj v_arglist = R[2];
-R[1] = v_arglist;
-R[2] = v_fn;
+Obj v__3514471_37 = R[1];
+Obj v__3514472_37 = R[2];
+R[1] = v__3514472_37;
+R[2] = v__3514471_37;
 saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514472_37);
 return;
 }
 case 1:
 {
-Obj v__3513728_37= co->res;
-Obj v__3513727_37 = R[1];
-Obj v_fn = R[2];
-Obj v__3513729_37 = makeCons(co->gc, v__3513728_37, Nil);
-Obj v__3513730_37 = makeCons(co->gc, v__3513727_37, v__3513729_37);
-Obj v__3513731_37 = makeCons(co->gc, v_fn, v__3513730_37);
-coraReturn(co, v__3513731_37);
+Obj v__3515145_37= co->res;
+Obj v__3515144_37 = R[1];
+Obj v__3514471_37 = R[2];
+Obj v__3515146_37 = makeCons(co->gc, v__3515145_37, Nil);
+Obj v__3515147_37 = makeCons(co->gc, v__3515144_37, v__3515146_37);
+Obj v__3515148_37 = makeCons(co->gc, v__3514471_37, v__3515147_37);
+coraReturn(co, v__3515148_37);
 return;
 }
 case 2:
 {
-Obj v__3513734_37= co->res;
-Obj v__3513732_37 = R[1];
-Obj v_fn = R[2];
-Obj v__3513735_37 = makeCons(co->gc, v__3513734_37, Nil);
-Obj v__3513736_37 = makeCons(co->gc, v__3513732_37, v__3513735_37);
-Obj v__3513737_37 = makeCons(co->gc, v_fn, v__3513736_37);
-coraReturn(co, v__3513737_37);
+Obj v__3515151_37= co->res;
+Obj v__3515149_37 = R[1];
+Obj v__3514471_37 = R[2];
+Obj v__3515152_37 = makeCons(co->gc, v__3515151_37, Nil);
+Obj v__3515153_37 = makeCons(co->gc, v__3515149_37, v__3515152_37);
+Obj v__3515154_37 = makeCons(co->gc, v__3514471_37, v__3515153_37);
+coraReturn(co, v__3515154_37);
 return;
 }
 case 3:
 {
-Obj v__3513726_37= co->res;
-Obj v_arglist = R[1];
-Obj v_fn = R[2];
-if (True == v__3513726_37) {
-Obj v__3513727_37 = PRIM_CAR(v_arglist);
-R[1] = v__3513727_37;
-R[2] = v_fn;
+Obj v__3515143_37= co->res;
+Obj v__3514472_37 = R[1];
+Obj v__3514471_37 = R[2];
+if (True == v__3515143_37) {
+Obj v__3515144_37 = PRIM_CAR(v__3514472_37);
+R[1] = v__3515144_37;
+R[2] = v__3514471_37;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514472_37);
 return;
 } else {
-Obj v__3513732_37 = PRIM_CAR(v_arglist);
-Obj v__3513733_37 = PRIM_CDR(v_arglist);
-R[1] = v__3513732_37;
-R[2] = v_fn;
+Obj v__3515149_37 = PRIM_CAR(v__3514472_37);
+Obj v__3515150_37 = PRIM_CDR(v__3514472_37);
+R[1] = v__3515149_37;
+R[2] = v__3514471_37;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513733_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3514471_37, v__3515150_37);
 return;
 }
 }
 case 4:
 {
-Obj v__3513725_37= co->res;
-Obj v_arglist = R[1];
-Obj v_fn = R[2];
-R[1] = v_arglist;
-R[2] = v_fn;
+Obj v__3515142_37= co->res;
+Obj v__3514472_37 = R[1];
+Obj v__3514471_37 = R[2];
+R[1] = v__3514472_37;
+R[2] = v__3514471_37;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513725_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3515142_37);
 return;
 }
 }
@@ -1938,16 +1938,16 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514470_37 = R[1];
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514470_37);
 return;
 }
 case 1:
 {
-Obj v__3513723_37= co->res;
+Obj v__3515140_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513723_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3515140_37);
 return;
 }
 }
@@ -1957,50 +1957,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513132_37 = R[1];
-Obj v__3513703_37 = primIsSymbol(v__3513132_37);
-if (True == v__3513703_37) {
-Obj v__3513704_37 = makeCons(co->gc, v__3513132_37, Nil);
-Obj v__3513705_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513704_37);
-coraReturn(co, v__3513705_37);
+Obj v__3514461_37 = R[1];
+Obj v__3515120_37 = primIsSymbol(v__3514461_37);
+if (True == v__3515120_37) {
+Obj v__3515121_37 = makeCons(co->gc, v__3514461_37, Nil);
+Obj v__3515122_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515121_37);
+coraReturn(co, v__3515122_37);
 return;
 } else {
-Obj v__3513223_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3513132_37);
-Obj v__3513712_37 = PRIM_ISCONS(v__3513132_37);
-if (True == v__3513712_37) {
-Obj v__3513713_37 = PRIM_CAR(v__3513132_37);
-Obj v__3513714_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513713_37);
-if (True == v__3513714_37) {
-Obj v__3513715_37 = PRIM_CDR(v__3513132_37);
-Obj v__3513716_37 = PRIM_ISCONS(v__3513715_37);
-if (True == v__3513716_37) {
-Obj v__3513717_37 = PRIM_CDR(v__3513132_37);
-Obj v__3513718_37 = PRIM_CAR(v__3513717_37);
-Obj v__3513226_37 = v__3513718_37;
-Obj v__3513719_37 = PRIM_CDR(v__3513132_37);
-Obj v__3513720_37 = PRIM_CDR(v__3513719_37);
-Obj v__3513721_37 = PRIM_EQ(Nil, v__3513720_37);
-if (True == v__3513721_37) {
-coraReturn(co, v__3513226_37);
+Obj v__3514640_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3514461_37);
+Obj v__3515129_37 = PRIM_ISCONS(v__3514461_37);
+if (True == v__3515129_37) {
+Obj v__3515130_37 = PRIM_CAR(v__3514461_37);
+Obj v__3515131_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3515130_37);
+if (True == v__3515131_37) {
+Obj v__3515132_37 = PRIM_CDR(v__3514461_37);
+Obj v__3515133_37 = PRIM_ISCONS(v__3515132_37);
+if (True == v__3515133_37) {
+Obj v__3515134_37 = PRIM_CDR(v__3514461_37);
+Obj v__3515135_37 = PRIM_CAR(v__3515134_37);
+Obj v__3514643_37 = v__3515135_37;
+Obj v__3515136_37 = PRIM_CDR(v__3514461_37);
+Obj v__3515137_37 = PRIM_CDR(v__3515136_37);
+Obj v__3515138_37 = PRIM_EQ(Nil, v__3515137_37);
+if (True == v__3515138_37) {
+coraReturn(co, v__3514643_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513223_37);
+coraCall0(co, v__3514640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513223_37);
+coraCall0(co, v__3514640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513223_37);
+coraCall0(co, v__3514640_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513223_37);
+coraCall0(co, v__3514640_37);
 return;
 }
 }
@@ -2012,15 +2012,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513706_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513706_37) {
-Obj v__3513707_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513224_37 = v__3513707_37;
-Obj v__3513708_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513225_37 = v__3513708_37;
-Obj v__3513709_37 = makeCons(co->gc, v__3513224_37, v__3513225_37);
+Obj v__3515123_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515123_37) {
+Obj v__3515124_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514641_37 = v__3515124_37;
+Obj v__3515125_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514642_37 = v__3515125_37;
+Obj v__3515126_37 = makeCons(co->gc, v__3514641_37, v__3514642_37);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3513709_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3515126_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2029,9 +2029,9 @@ return;
 }
 case 1:
 {
-Obj v__3513710_37= co->res;
-Obj v__3513711_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513710_37);
-coraReturn(co, v__3513711_37);
+Obj v__3515127_37= co->res;
+Obj v__3515128_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515127_37);
+coraReturn(co, v__3515128_37);
 return;
 }
 }
@@ -2041,10 +2041,10 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513701_37 = PRIM_CDR(v_exp);
+Obj v__3514460_37 = R[1];
+Obj v__3515118_37 = PRIM_CDR(v__3514460_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513701_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3515118_37);
 return;
 }
 }
@@ -2054,25 +2054,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513128_37 = R[1];
-Obj v__3513216_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3513128_37);
-Obj v__3513696_37 = PRIM_ISCONS(v__3513128_37);
-if (True == v__3513696_37) {
-Obj v__3513697_37 = PRIM_CAR(v__3513128_37);
-Obj v__3513222_37 = v__3513697_37;
-Obj v__3513698_37 = PRIM_CDR(v__3513128_37);
-Obj v__3513699_37 = PRIM_EQ(Nil, v__3513698_37);
-if (True == v__3513699_37) {
-coraReturn(co, v__3513222_37);
+Obj v__3514452_37 = R[1];
+Obj v__3514633_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3514452_37);
+Obj v__3515113_37 = PRIM_ISCONS(v__3514452_37);
+if (True == v__3515113_37) {
+Obj v__3515114_37 = PRIM_CAR(v__3514452_37);
+Obj v__3514639_37 = v__3515114_37;
+Obj v__3515115_37 = PRIM_CDR(v__3514452_37);
+Obj v__3515116_37 = PRIM_EQ(Nil, v__3515115_37);
+if (True == v__3515116_37) {
+coraReturn(co, v__3514639_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513216_37);
+coraCall0(co, v__3514633_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513216_37);
+coraCall0(co, v__3514633_37);
 return;
 }
 }
@@ -2083,39 +2083,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513217_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v__3513684_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513684_37) {
-Obj v__3513685_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513220_37 = v__3513685_37;
-Obj v__3513686_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513687_37 = PRIM_ISCONS(v__3513686_37);
-if (True == v__3513687_37) {
-Obj v__3513688_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513689_37 = PRIM_CAR(v__3513688_37);
-Obj v__3513221_37 = v__3513689_37;
-Obj v__3513690_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513691_37 = PRIM_CDR(v__3513690_37);
-Obj v__3513692_37 = PRIM_EQ(Nil, v__3513691_37);
-if (True == v__3513692_37) {
-Obj v__3513693_37 = makeCons(co->gc, v__3513221_37, Nil);
-Obj v__3513694_37 = makeCons(co->gc, v__3513220_37, v__3513693_37);
-Obj v__3513695_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513694_37);
-coraReturn(co, v__3513695_37);
+Obj v__3514634_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v__3515101_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515101_37) {
+Obj v__3515102_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514637_37 = v__3515102_37;
+Obj v__3515103_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515104_37 = PRIM_ISCONS(v__3515103_37);
+if (True == v__3515104_37) {
+Obj v__3515105_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515106_37 = PRIM_CAR(v__3515105_37);
+Obj v__3514638_37 = v__3515106_37;
+Obj v__3515107_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515108_37 = PRIM_CDR(v__3515107_37);
+Obj v__3515109_37 = PRIM_EQ(Nil, v__3515108_37);
+if (True == v__3515109_37) {
+Obj v__3515110_37 = makeCons(co->gc, v__3514638_37, Nil);
+Obj v__3515111_37 = makeCons(co->gc, v__3514637_37, v__3515110_37);
+Obj v__3515112_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515111_37);
+coraReturn(co, v__3515112_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513217_37);
+coraCall0(co, v__3514634_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513217_37);
+coraCall0(co, v__3514634_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513217_37);
+coraCall0(co, v__3514634_37);
 return;
 }
 }
@@ -2126,15 +2126,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513677_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513677_37) {
-Obj v__3513678_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513218_37 = v__3513678_37;
-Obj v__3513679_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513219_37 = v__3513679_37;
-R[1] = v__3513218_37;
+Obj v__3515094_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515094_37) {
+Obj v__3515095_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514635_37 = v__3515095_37;
+Obj v__3515096_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514636_37 = v__3515096_37;
+R[1] = v__3514635_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513219_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3514636_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2144,12 +2144,12 @@ return;
 }
 case 1:
 {
-Obj v__3513680_37= co->res;
-Obj v__3513218_37 = R[1];
-Obj v__3513681_37 = makeCons(co->gc, v__3513680_37, Nil);
-Obj v__3513682_37 = makeCons(co->gc, v__3513218_37, v__3513681_37);
-Obj v__3513683_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513682_37);
-coraReturn(co, v__3513683_37);
+Obj v__3515097_37= co->res;
+Obj v__3514635_37 = R[1];
+Obj v__3515098_37 = makeCons(co->gc, v__3515097_37, Nil);
+Obj v__3515099_37 = makeCons(co->gc, v__3514635_37, v__3515098_37);
+Obj v__3515100_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515099_37);
+coraReturn(co, v__3515100_37);
 return;
 }
 }
@@ -2159,23 +2159,23 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514451_37 = R[1];
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3514451_37);
 return;
 }
 case 1:
 {
-Obj v__3513675_37= co->res;
+Obj v__3515092_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513675_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3515092_37);
 return;
 }
 case 2:
 {
-Obj v__3513674_37= co->res;
+Obj v__3515091_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513674_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3515091_37);
 return;
 }
 }
@@ -2185,8 +2185,8 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-coraReturn(co, v_x);
+Obj v__3514450_37 = R[1];
+coraReturn(co, v__3514450_37);
 return;
 }
 }
@@ -2196,9 +2196,9 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514449_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v_exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v__3514449_37);
 return;
 }
 }
@@ -2208,69 +2208,69 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514445_37 = R[1];
+R[1] = v__3514445_37;
 saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514445_37);
 return;
 }
 case 1:
 {
-Obj v__3513663_37= co->res;
-Obj v__3513213_37 = R[1];
-Obj v__3513215_37 = R[2];
-Obj v__3513664_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513215_37);
-Obj v__3513665_37 = makeCons(co->gc, v__3513664_37, v__3513213_37);
-Obj v__3513666_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3513665_37);
-Obj v__3513667_37 = makeCons(co->gc, v__3513666_37, Nil);
-Obj v__3513668_37 = makeCons(co->gc, v__3513215_37, v__3513667_37);
-Obj v__3513669_37 = makeCons(co->gc, v__3513663_37, v__3513668_37);
-Obj v__3513670_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513669_37);
-coraReturn(co, v__3513670_37);
+Obj v__3515080_37= co->res;
+Obj v__3514630_37 = R[1];
+Obj v__3514632_37 = R[2];
+Obj v__3515081_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3514632_37);
+Obj v__3515082_37 = makeCons(co->gc, v__3515081_37, v__3514630_37);
+Obj v__3515083_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3515082_37);
+Obj v__3515084_37 = makeCons(co->gc, v__3515083_37, Nil);
+Obj v__3515085_37 = makeCons(co->gc, v__3514632_37, v__3515084_37);
+Obj v__3515086_37 = makeCons(co->gc, v__3515080_37, v__3515085_37);
+Obj v__3515087_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3515086_37);
+coraReturn(co, v__3515087_37);
 return;
 }
 case 2:
 {
-Obj v__3513662_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513213_37 = R[2];
-Obj v__3513215_37 = v__3513662_37;
-R[1] = v__3513213_37;
-R[2] = v__3513215_37;
+Obj v__3515079_37= co->res;
+Obj v__3514445_37 = R[1];
+Obj v__3514630_37 = R[2];
+Obj v__3514632_37 = v__3515079_37;
+R[1] = v__3514630_37;
+R[2] = v__3514632_37;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514445_37);
 return;
 }
 case 3:
 {
-Obj v__3513661_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513213_37 = R[2];
-Obj v__3513214_37 = v__3513661_37;
-R[1] = v_exp;
-R[2] = v__3513213_37;
+Obj v__3515078_37= co->res;
+Obj v__3514445_37 = R[1];
+Obj v__3514630_37 = R[2];
+Obj v__3514631_37 = v__3515078_37;
+R[1] = v__3514445_37;
+R[2] = v__3514630_37;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513214_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3514631_37);
 return;
 }
 case 4:
 {
-Obj v__3513660_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513213_37 = v__3513660_37;
-R[1] = v_exp;
-R[2] = v__3513213_37;
+Obj v__3515077_37= co->res;
+Obj v__3514445_37 = R[1];
+Obj v__3514630_37 = v__3515077_37;
+R[1] = v__3514445_37;
+R[2] = v__3514630_37;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513213_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3514630_37);
 return;
 }
 case 5:
 {
-Obj v__3513659_37= co->res;
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3515076_37= co->res;
+Obj v__3514445_37 = R[1];
+R[1] = v__3514445_37;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513659_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3515076_37);
 return;
 }
 }
@@ -2280,26 +2280,26 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_n = R[1];
-Obj v__3513653_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v__3513653_37) {
+Obj v__3514444_37 = R[1];
+Obj v__3515070_37 = PRIM_EQ(v__3514444_37, MAKE_NUMBER(0));
+if (True == v__3515070_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513654_37 = primGenSym(co);
-Obj v__3513655_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v__3513654_37;
+Obj v__3515071_37 = primGenSym(co);
+Obj v__3515072_37 = PRIM_SUB(v__3514444_37, MAKE_NUMBER(1));
+R[1] = v__3515071_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513655_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3515072_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513656_37= co->res;
-Obj v__3513654_37 = R[1];
-Obj v__3513657_37 = makeCons(co->gc, v__3513654_37, v__3513656_37);
-coraReturn(co, v__3513657_37);
+Obj v__3515073_37= co->res;
+Obj v__3515071_37 = R[1];
+Obj v__3515074_37 = makeCons(co->gc, v__3515071_37, v__3515073_37);
+coraReturn(co, v__3515074_37);
 return;
 }
 }
@@ -2309,52 +2309,52 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_rules = R[1];
+Obj v__3514438_37 = R[1];
 saveCont(co, clofun58, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v_rules);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v__3514438_37);
 return;
 }
 case 1:
 {
-Obj v__3513650_37= co->res;
-Obj v__3513212_37 = R[1];
-Obj v__3513651_37 = primNot(v__3513650_37);
-if (True == v__3513651_37) {
+Obj v__3515067_37= co->res;
+Obj v__3514629_37 = R[1];
+Obj v__3515068_37 = primNot(v__3515067_37);
+if (True == v__3515068_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, v__3513212_37);
+coraReturn(co, v__3514629_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3513649_37= co->res;
-Obj v__3513212_37 = R[1];
-R[1] = v__3513212_37;
+Obj v__3515066_37= co->res;
+Obj v__3514629_37 = R[1];
+R[1] = v__3514629_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513649_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3515066_37);
 return;
 }
 case 3:
 {
-Obj v__3513644_37= co->res;
-Obj v__3513211_37 = v__3513644_37;
-Obj v__3513645_37 = PRIM_CAR(v__3513211_37);
-Obj v__3513212_37 = v__3513645_37;
-Obj v__3513648_37 = PRIM_CDR(v__3513211_37);
-R[1] = v__3513212_37;
+Obj v__3515061_37= co->res;
+Obj v__3514628_37 = v__3515061_37;
+Obj v__3515062_37 = PRIM_CAR(v__3514628_37);
+Obj v__3514629_37 = v__3515062_37;
+Obj v__3515065_37 = PRIM_CDR(v__3514628_37);
+R[1] = v__3514629_37;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3513212_37), v__3513648_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3514629_37), v__3515065_37);
 return;
 }
 case 4:
 {
-Obj v__3513642_37= co->res;
-Obj v__3513210_37 = v__3513642_37;
+Obj v__3515059_37= co->res;
+Obj v__3514627_37 = v__3515059_37;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3513210_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3514627_37);
 return;
 }
 }
@@ -2364,10 +2364,10 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513646_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v__3513647_37 = primNot(v__3513646_37);
-coraReturn(co, v__3513647_37);
+Obj v__3514443_37 = R[1];
+Obj v__3515063_37 = PRIM_EQ(closureRef(R[0], 0), v__3514443_37);
+Obj v__3515064_37 = primNot(v__3515063_37);
+coraReturn(co, v__3515064_37);
 return;
 }
 }
@@ -2377,10 +2377,10 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513643_37 = PRIM_CDR(v_x);
+Obj v__3514440_37 = R[1];
+Obj v__3515060_37 = PRIM_CDR(v__3514440_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513643_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3515060_37);
 return;
 }
 }
@@ -2390,27 +2390,27 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_l1 = R[1];
-Obj v_l2 = R[2];
-Obj v__3513636_37 = PRIM_EQ(v_l1, Nil);
-if (True == v__3513636_37) {
-coraReturn(co, v_l2);
+Obj v__3514436_37 = R[1];
+Obj v__3514437_37 = R[2];
+Obj v__3515053_37 = PRIM_EQ(v__3514436_37, Nil);
+if (True == v__3515053_37) {
+coraReturn(co, v__3514437_37);
 return;
 } else {
-Obj v__3513637_37 = PRIM_CAR(v_l1);
-Obj v__3513638_37 = PRIM_CDR(v_l1);
-R[1] = v__3513637_37;
+Obj v__3515054_37 = PRIM_CAR(v__3514436_37);
+Obj v__3515055_37 = PRIM_CDR(v__3514436_37);
+R[1] = v__3515054_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513638_37, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515055_37, v__3514437_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513639_37= co->res;
-Obj v__3513637_37 = R[1];
-Obj v__3513640_37 = makeCons(co->gc, v__3513637_37, v__3513639_37);
-coraReturn(co, v__3513640_37);
+Obj v__3515056_37= co->res;
+Obj v__3515054_37 = R[1];
+Obj v__3515057_37 = makeCons(co->gc, v__3515054_37, v__3515056_37);
+coraReturn(co, v__3515057_37);
 return;
 }
 }
@@ -2420,10 +2420,10 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_fn = R[1];
-Obj v_l = R[2];
+Obj v__3514434_37 = R[1];
+Obj v__3514435_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v_fn, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v__3514434_37, v__3514435_37);
 return;
 }
 }
@@ -2433,41 +2433,41 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_res = R[1];
-Obj v_fn = R[2];
-Obj v_l = R[3];
-Obj v__3513627_37 = PRIM_ISCONS(v_l);
-if (True == v__3513627_37) {
-Obj v__3513628_37 = PRIM_CAR(v_l);
-R[1] = v_l;
-R[2] = v_res;
-R[3] = v_fn;
+Obj v__3514431_37 = R[1];
+Obj v__3514432_37 = R[2];
+Obj v__3514433_37 = R[3];
+Obj v__3515044_37 = PRIM_ISCONS(v__3514433_37);
+if (True == v__3515044_37) {
+Obj v__3515045_37 = PRIM_CAR(v__3514433_37);
+R[1] = v__3514433_37;
+R[2] = v__3514431_37;
+R[3] = v__3514432_37;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v__3513628_37);
+coraCall1(co, v__3514432_37, v__3515045_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514431_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513629_37= co->res;
-Obj v_l = R[1];
-Obj v_res = R[2];
-Obj v_fn = R[3];
-if (True == v__3513629_37) {
-Obj v__3513630_37 = PRIM_CAR(v_l);
-Obj v__3513631_37 = makeCons(co->gc, v__3513630_37, v_res);
-Obj v__3513632_37 = PRIM_CDR(v_l);
+Obj v__3515046_37= co->res;
+Obj v__3514433_37 = R[1];
+Obj v__3514431_37 = R[2];
+Obj v__3514432_37 = R[3];
+if (True == v__3515046_37) {
+Obj v__3515047_37 = PRIM_CAR(v__3514433_37);
+Obj v__3515048_37 = makeCons(co->gc, v__3515047_37, v__3514431_37);
+Obj v__3515049_37 = PRIM_CDR(v__3514433_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513631_37, v_fn, v__3513632_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3515048_37, v__3514432_37, v__3515049_37);
 return;
 } else {
-Obj v__3513633_37 = PRIM_CDR(v_l);
+Obj v__3515050_37 = PRIM_CDR(v__3514433_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513633_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3514431_37, v__3514432_37, v__3515050_37);
 return;
 }
 }
@@ -2478,9 +2478,9 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_l = R[1];
+Obj v__3514430_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v_l);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v__3514430_37);
 return;
 }
 }
@@ -2490,17 +2490,17 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_i = R[1];
-Obj v_l = R[2];
-Obj v__3513622_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513622_37) {
-coraReturn(co, v_i);
+Obj v__3514428_37 = R[1];
+Obj v__3514429_37 = R[2];
+Obj v__3515039_37 = PRIM_EQ(v__3514429_37, Nil);
+if (True == v__3515039_37) {
+coraReturn(co, v__3514428_37);
 return;
 } else {
-Obj v__3513623_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v__3513624_37 = PRIM_CDR(v_l);
+Obj v__3515040_37 = PRIM_ADD(v__3514428_37, MAKE_NUMBER(1));
+Obj v__3515041_37 = PRIM_CDR(v__3514429_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513623_37, v__3513624_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3515040_37, v__3515041_37);
 return;
 }
 }
@@ -2511,37 +2511,37 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_res = R[1];
-Obj v_rules = R[2];
-R[1] = v_res;
-R[2] = v_rules;
+Obj v__3514426_37 = R[1];
+Obj v__3514427_37 = R[2];
+R[1] = v__3514426_37;
+R[2] = v__3514427_37;
 saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514427_37);
 return;
 }
 case 1:
 {
-Obj v__3513620_37= co->res;
-Obj v__3513619_37 = R[1];
+Obj v__3515037_37= co->res;
+Obj v__3515036_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513619_37, v__3513620_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3515036_37, v__3515037_37);
 return;
 }
 case 2:
 {
-Obj v__3513617_37= co->res;
-Obj v_res = R[1];
-Obj v_rules = R[2];
-if (True == v__3513617_37) {
+Obj v__3515034_37= co->res;
+Obj v__3514426_37 = R[1];
+Obj v__3514427_37 = R[2];
+if (True == v__3515034_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514426_37);
 return;
 } else {
-Obj v__3513618_37 = PRIM_CAR(v_rules);
-Obj v__3513619_37 = makeCons(co->gc, v__3513618_37, v_res);
-R[1] = v__3513619_37;
+Obj v__3515035_37 = PRIM_CAR(v__3514427_37);
+Obj v__3515036_37 = makeCons(co->gc, v__3515035_37, v__3514426_37);
+R[1] = v__3515036_37;
 saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514427_37);
 return;
 }
 }
@@ -2552,9 +2552,9 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_input = R[1];
+Obj v__3514425_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_input, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514425_37, Nil, Nil);
 return;
 }
 }
@@ -2564,106 +2564,106 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_input = R[1];
-Obj v_current = R[2];
-Obj v_result = R[3];
-Obj v__3513564_37 = PRIM_EQ(Nil, v_input);
-if (True == v__3513564_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
-return;
-} else {
-Obj v__3513199_37 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v__3513582_37 = PRIM_ISCONS(v_input);
-if (True == v__3513582_37) {
-Obj v__3513583_37 = PRIM_CAR(v_input);
-Obj v__3513584_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513583_37);
-if (True == v__3513584_37) {
-Obj v__3513585_37 = PRIM_CDR(v_input);
-Obj v__3513586_37 = PRIM_ISCONS(v__3513585_37);
-if (True == v__3513586_37) {
-Obj v__3513587_37 = PRIM_CDR(v_input);
-Obj v__3513588_37 = PRIM_CAR(v__3513587_37);
-Obj v__3513206_37 = v__3513588_37;
-Obj v__3513589_37 = PRIM_CDR(v_input);
-Obj v__3513590_37 = PRIM_CDR(v__3513589_37);
-Obj v__3513591_37 = PRIM_ISCONS(v__3513590_37);
-if (True == v__3513591_37) {
-Obj v__3513592_37 = PRIM_CDR(v_input);
-Obj v__3513593_37 = PRIM_CDR(v__3513592_37);
-Obj v__3513594_37 = PRIM_CAR(v__3513593_37);
-Obj v__3513595_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3513594_37);
-if (True == v__3513595_37) {
-Obj v__3513596_37 = PRIM_CDR(v_input);
-Obj v__3513597_37 = PRIM_CDR(v__3513596_37);
-Obj v__3513598_37 = PRIM_CDR(v__3513597_37);
-Obj v__3513599_37 = PRIM_ISCONS(v__3513598_37);
-if (True == v__3513599_37) {
-Obj v__3513600_37 = PRIM_CDR(v_input);
-Obj v__3513601_37 = PRIM_CDR(v__3513600_37);
-Obj v__3513602_37 = PRIM_CDR(v__3513601_37);
-Obj v__3513603_37 = PRIM_CAR(v__3513602_37);
-Obj v__3513207_37 = v__3513603_37;
-Obj v__3513604_37 = PRIM_CDR(v_input);
-Obj v__3513605_37 = PRIM_CDR(v__3513604_37);
-Obj v__3513606_37 = PRIM_CDR(v__3513605_37);
-Obj v__3513607_37 = PRIM_CDR(v__3513606_37);
-Obj v__3513208_37 = v__3513607_37;
-R[1] = v__3513206_37;
-R[2] = v__3513207_37;
-R[3] = v_result;
-R[4] = v__3513208_37;
+Obj v__3514400_37 = R[1];
+Obj v__3514401_37 = R[2];
+Obj v__3514402_37 = R[3];
+Obj v__3514981_37 = PRIM_EQ(Nil, v__3514400_37);
+if (True == v__3514981_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514402_37);
+return;
+} else {
+Obj v__3514616_37 = makeNative(co->gc, 3, clofun47, 0, 3, v__3514400_37, v__3514401_37, v__3514402_37);
+Obj v__3514999_37 = PRIM_ISCONS(v__3514400_37);
+if (True == v__3514999_37) {
+Obj v__3515000_37 = PRIM_CAR(v__3514400_37);
+Obj v__3515001_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515000_37);
+if (True == v__3515001_37) {
+Obj v__3515002_37 = PRIM_CDR(v__3514400_37);
+Obj v__3515003_37 = PRIM_ISCONS(v__3515002_37);
+if (True == v__3515003_37) {
+Obj v__3515004_37 = PRIM_CDR(v__3514400_37);
+Obj v__3515005_37 = PRIM_CAR(v__3515004_37);
+Obj v__3514623_37 = v__3515005_37;
+Obj v__3515006_37 = PRIM_CDR(v__3514400_37);
+Obj v__3515007_37 = PRIM_CDR(v__3515006_37);
+Obj v__3515008_37 = PRIM_ISCONS(v__3515007_37);
+if (True == v__3515008_37) {
+Obj v__3515009_37 = PRIM_CDR(v__3514400_37);
+Obj v__3515010_37 = PRIM_CDR(v__3515009_37);
+Obj v__3515011_37 = PRIM_CAR(v__3515010_37);
+Obj v__3515012_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3515011_37);
+if (True == v__3515012_37) {
+Obj v__3515013_37 = PRIM_CDR(v__3514400_37);
+Obj v__3515014_37 = PRIM_CDR(v__3515013_37);
+Obj v__3515015_37 = PRIM_CDR(v__3515014_37);
+Obj v__3515016_37 = PRIM_ISCONS(v__3515015_37);
+if (True == v__3515016_37) {
+Obj v__3515017_37 = PRIM_CDR(v__3514400_37);
+Obj v__3515018_37 = PRIM_CDR(v__3515017_37);
+Obj v__3515019_37 = PRIM_CDR(v__3515018_37);
+Obj v__3515020_37 = PRIM_CAR(v__3515019_37);
+Obj v__3514624_37 = v__3515020_37;
+Obj v__3515021_37 = PRIM_CDR(v__3514400_37);
+Obj v__3515022_37 = PRIM_CDR(v__3515021_37);
+Obj v__3515023_37 = PRIM_CDR(v__3515022_37);
+Obj v__3515024_37 = PRIM_CDR(v__3515023_37);
+Obj v__3514625_37 = v__3515024_37;
+R[1] = v__3514623_37;
+R[2] = v__3514624_37;
+R[3] = v__3514402_37;
+R[4] = v__3514625_37;
 saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514401_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513199_37);
+coraCall0(co, v__3514616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513199_37);
+coraCall0(co, v__3514616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513199_37);
+coraCall0(co, v__3514616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513199_37);
+coraCall0(co, v__3514616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513199_37);
+coraCall0(co, v__3514616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513199_37);
+coraCall0(co, v__3514616_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513608_37= co->res;
-Obj v__3513206_37 = R[1];
-Obj v__3513207_37 = R[2];
-Obj v_result = R[3];
-Obj v__3513208_37 = R[4];
-Obj v__3513609_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513608_37);
-Obj v__3513209_37 = v__3513609_37;
-Obj v__3513610_37 = makeCons(co->gc, v__3513206_37, Nil);
-Obj v__3513611_37 = makeCons(co->gc, v__3513207_37, v__3513610_37);
-Obj v__3513612_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3513611_37);
-Obj v__3513613_37 = makeCons(co->gc, v__3513209_37, v_result);
-Obj v__3513614_37 = makeCons(co->gc, v__3513612_37, v__3513613_37);
+Obj v__3515025_37= co->res;
+Obj v__3514623_37 = R[1];
+Obj v__3514624_37 = R[2];
+Obj v__3514402_37 = R[3];
+Obj v__3514625_37 = R[4];
+Obj v__3515026_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515025_37);
+Obj v__3514626_37 = v__3515026_37;
+Obj v__3515027_37 = makeCons(co->gc, v__3514623_37, Nil);
+Obj v__3515028_37 = makeCons(co->gc, v__3514624_37, v__3515027_37);
+Obj v__3515029_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3515028_37);
+Obj v__3515030_37 = makeCons(co->gc, v__3514626_37, v__3514402_37);
+Obj v__3515031_37 = makeCons(co->gc, v__3515029_37, v__3515030_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513208_37, Nil, v__3513614_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514625_37, Nil, v__3515031_37);
 return;
 }
 }
@@ -2673,53 +2673,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513200_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3513569_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513569_37) {
-Obj v__3513570_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513571_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513570_37);
-if (True == v__3513571_37) {
-Obj v__3513572_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513573_37 = PRIM_ISCONS(v__3513572_37);
-if (True == v__3513573_37) {
-Obj v__3513574_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513575_37 = PRIM_CAR(v__3513574_37);
-Obj v__3513203_37 = v__3513575_37;
-Obj v__3513576_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513577_37 = PRIM_CDR(v__3513576_37);
-Obj v__3513204_37 = v__3513577_37;
-R[1] = v__3513203_37;
-R[2] = v__3513204_37;
+Obj v__3514617_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3514986_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3514986_37) {
+Obj v__3514987_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514988_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3514987_37);
+if (True == v__3514988_37) {
+Obj v__3514989_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514990_37 = PRIM_ISCONS(v__3514989_37);
+if (True == v__3514990_37) {
+Obj v__3514991_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514992_37 = PRIM_CAR(v__3514991_37);
+Obj v__3514620_37 = v__3514992_37;
+Obj v__3514993_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514994_37 = PRIM_CDR(v__3514993_37);
+Obj v__3514621_37 = v__3514994_37;
+R[1] = v__3514620_37;
+R[2] = v__3514621_37;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513200_37);
+coraCall0(co, v__3514617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513200_37);
+coraCall0(co, v__3514617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513200_37);
+coraCall0(co, v__3514617_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513578_37= co->res;
-Obj v__3513203_37 = R[1];
-Obj v__3513204_37 = R[2];
-Obj v__3513579_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513578_37);
-Obj v__3513205_37 = v__3513579_37;
-Obj v__3513580_37 = makeCons(co->gc, v__3513205_37, closureRef(R[0], 2));
-Obj v__3513581_37 = makeCons(co->gc, v__3513203_37, v__3513580_37);
+Obj v__3514995_37= co->res;
+Obj v__3514620_37 = R[1];
+Obj v__3514621_37 = R[2];
+Obj v__3514996_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3514995_37);
+Obj v__3514622_37 = v__3514996_37;
+Obj v__3514997_37 = makeCons(co->gc, v__3514622_37, closureRef(R[0], 2));
+Obj v__3514998_37 = makeCons(co->gc, v__3514620_37, v__3514997_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513204_37, Nil, v__3513581_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514621_37, Nil, v__3514998_37);
 return;
 }
 }
@@ -2729,15 +2729,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513565_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513565_37) {
-Obj v__3513566_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513201_37 = v__3513566_37;
-Obj v__3513567_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513202_37 = v__3513567_37;
-Obj v__3513568_37 = makeCons(co->gc, v__3513201_37, closureRef(R[0], 1));
+Obj v__3514982_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3514982_37) {
+Obj v__3514983_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514618_37 = v__3514983_37;
+Obj v__3514984_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514619_37 = v__3514984_37;
+Obj v__3514985_37 = makeCons(co->gc, v__3514618_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513202_37, v__3513568_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514619_37, v__3514985_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2752,9 +2752,9 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514399_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v__3514399_37);
 return;
 }
 }
@@ -2764,55 +2764,55 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514395_37 = R[1];
+R[1] = v__3514395_37;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514395_37);
 return;
 }
 case 1:
 {
-Obj v__3513551_37= co->res;
-Obj v__3513193_37 = R[1];
-Obj v__3513194_37 = v__3513551_37;
-Obj v__3513197_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3513193_37, v__3513194_37);
-Obj v__3513558_37 = PRIM_ISCONS(v__3513193_37);
-if (True == v__3513558_37) {
-Obj v__3513559_37 = PRIM_CAR(v__3513193_37);
-Obj v__3513560_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3513559_37);
-Obj v__3513561_37 = primNot(v__3513560_37);
-if (True == v__3513561_37) {
+Obj v__3514968_37= co->res;
+Obj v__3514610_37 = R[1];
+Obj v__3514611_37 = v__3514968_37;
+Obj v__3514614_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3514610_37, v__3514611_37);
+Obj v__3514975_37 = PRIM_ISCONS(v__3514610_37);
+if (True == v__3514975_37) {
+Obj v__3514976_37 = PRIM_CAR(v__3514610_37);
+Obj v__3514977_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3514976_37);
+Obj v__3514978_37 = primNot(v__3514977_37);
+if (True == v__3514978_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513197_37, True);
+coraCall1(co, v__3514614_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513197_37, False);
+coraCall1(co, v__3514614_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513197_37, False);
+coraCall1(co, v__3514614_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513550_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513193_37 = v__3513550_37;
-R[1] = v__3513193_37;
+Obj v__3514967_37= co->res;
+Obj v__3514395_37 = R[1];
+Obj v__3514610_37 = v__3514967_37;
+R[1] = v__3514610_37;
 saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514395_37);
 return;
 }
 case 3:
 {
-Obj v__3513549_37= co->res;
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514966_37= co->res;
+Obj v__3514395_37 = R[1];
+R[1] = v__3514395_37;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513549_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3514966_37);
 return;
 }
 }
@@ -2822,13 +2822,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513196_37 = R[1];
-if (True == v__3513196_37) {
-Obj v__3513552_37 = primGenSym(co);
-Obj v__3513198_37 = v__3513552_37;
-R[1] = v__3513198_37;
+Obj v__3514613_37 = R[1];
+if (True == v__3514613_37) {
+Obj v__3514969_37 = primGenSym(co);
+Obj v__3514615_37 = v__3514969_37;
+R[1] = v__3514615_37;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513198_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3514615_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2838,13 +2838,13 @@ return;
 }
 case 1:
 {
-Obj v__3513553_37= co->res;
-Obj v__3513198_37 = R[1];
-Obj v__3513554_37 = makeCons(co->gc, v__3513553_37, Nil);
-Obj v__3513555_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513554_37);
-Obj v__3513556_37 = makeCons(co->gc, v__3513198_37, v__3513555_37);
-Obj v__3513557_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513556_37);
-coraReturn(co, v__3513557_37);
+Obj v__3514970_37= co->res;
+Obj v__3514615_37 = R[1];
+Obj v__3514971_37 = makeCons(co->gc, v__3514970_37, Nil);
+Obj v__3514972_37 = makeCons(co->gc, closureRef(R[0], 0), v__3514971_37);
+Obj v__3514973_37 = makeCons(co->gc, v__3514615_37, v__3514972_37);
+Obj v__3514974_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514973_37);
+coraReturn(co, v__3514974_37);
 return;
 }
 }
@@ -2854,61 +2854,61 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_value = R[1];
-Obj v_rules = R[2];
-R[1] = v_value;
-R[2] = v_rules;
+Obj v__3514388_37 = R[1];
+Obj v__3514389_37 = R[2];
+R[1] = v__3514388_37;
+R[2] = v__3514389_37;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514389_37);
 return;
 }
 case 1:
 {
-Obj v__3513547_37= co->res;
-Obj v__3513187_37 = R[1];
-if (True == v__3513547_37) {
+Obj v__3514964_37= co->res;
+Obj v__3514604_37 = R[1];
+if (True == v__3514964_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513187_37, True);
+coraCall1(co, v__3514604_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513187_37, False);
+coraCall1(co, v__3514604_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513545_37= co->res;
-Obj v_rules = R[1];
-Obj v__3513187_37 = R[2];
-if (True == v__3513545_37) {
-Obj v__3513546_37 = PRIM_CDR(v_rules);
-R[1] = v__3513187_37;
+Obj v__3514962_37= co->res;
+Obj v__3514389_37 = R[1];
+Obj v__3514604_37 = R[2];
+if (True == v__3514962_37) {
+Obj v__3514963_37 = PRIM_CDR(v__3514389_37);
+R[1] = v__3514604_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513546_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3514963_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513187_37, False);
+coraCall1(co, v__3514604_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3513527_37= co->res;
-Obj v_value = R[1];
-Obj v_rules = R[2];
-if (True == v__3513527_37) {
-Obj v__3513528_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v__3513529_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513528_37);
-coraReturn(co, v__3513529_37);
+Obj v__3514944_37= co->res;
+Obj v__3514388_37 = R[1];
+Obj v__3514389_37 = R[2];
+if (True == v__3514944_37) {
+Obj v__3514945_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3514946_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514945_37);
+coraReturn(co, v__3514946_37);
 return;
 } else {
-Obj v__3513187_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
-R[1] = v_rules;
-R[2] = v__3513187_37;
+Obj v__3514604_37 = makeNative(co->gc, 3, clofun41, 1, 2, v__3514388_37, v__3514389_37);
+R[1] = v__3514389_37;
+R[2] = v__3514604_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3514389_37);
 return;
 }
 }
@@ -2919,16 +2919,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513186_37 = R[1];
-if (True == v__3513186_37) {
-Obj v__3513530_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513188_37 = v__3513530_37;
-Obj v__3513531_37 = primGenSym(co);
-Obj v__3513189_37 = v__3513531_37;
-R[1] = v__3513188_37;
-R[2] = v__3513189_37;
+Obj v__3514603_37 = R[1];
+if (True == v__3514603_37) {
+Obj v__3514947_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514605_37 = v__3514947_37;
+Obj v__3514948_37 = primGenSym(co);
+Obj v__3514606_37 = v__3514948_37;
+R[1] = v__3514605_37;
+R[2] = v__3514606_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3513189_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3514606_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2938,53 +2938,53 @@ return;
 }
 case 1:
 {
-Obj v__3513537_37= co->res;
-Obj v__3513191_37 = R[1];
-Obj v__3513189_37 = R[2];
-Obj v__3513192_37 = v__3513537_37;
-Obj v__3513538_37 = makeCons(co->gc, v__3513192_37, Nil);
-Obj v__3513539_37 = makeCons(co->gc, Nil, v__3513538_37);
-Obj v__3513540_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513539_37);
-Obj v__3513541_37 = makeCons(co->gc, v__3513191_37, Nil);
-Obj v__3513542_37 = makeCons(co->gc, v__3513540_37, v__3513541_37);
-Obj v__3513543_37 = makeCons(co->gc, v__3513189_37, v__3513542_37);
-Obj v__3513544_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513543_37);
-coraReturn(co, v__3513544_37);
+Obj v__3514954_37= co->res;
+Obj v__3514608_37 = R[1];
+Obj v__3514606_37 = R[2];
+Obj v__3514609_37 = v__3514954_37;
+Obj v__3514955_37 = makeCons(co->gc, v__3514609_37, Nil);
+Obj v__3514956_37 = makeCons(co->gc, Nil, v__3514955_37);
+Obj v__3514957_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514956_37);
+Obj v__3514958_37 = makeCons(co->gc, v__3514608_37, Nil);
+Obj v__3514959_37 = makeCons(co->gc, v__3514957_37, v__3514958_37);
+Obj v__3514960_37 = makeCons(co->gc, v__3514606_37, v__3514959_37);
+Obj v__3514961_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514960_37);
+coraReturn(co, v__3514961_37);
 return;
 }
 case 2:
 {
-Obj v__3513534_37= co->res;
-Obj v__3513189_37 = R[1];
-Obj v__3513191_37 = v__3513534_37;
-Obj v__3513535_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513536_37 = PRIM_CDR(v__3513535_37);
-R[1] = v__3513191_37;
-R[2] = v__3513189_37;
+Obj v__3514951_37= co->res;
+Obj v__3514606_37 = R[1];
+Obj v__3514608_37 = v__3514951_37;
+Obj v__3514952_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3514953_37 = PRIM_CDR(v__3514952_37);
+R[1] = v__3514608_37;
+R[2] = v__3514606_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3513536_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3514953_37);
 return;
 }
 case 3:
 {
-Obj v__3513533_37= co->res;
-Obj v__3513190_37 = R[1];
-Obj v__3513189_37 = R[2];
-R[1] = v__3513189_37;
+Obj v__3514950_37= co->res;
+Obj v__3514607_37 = R[1];
+Obj v__3514606_37 = R[2];
+R[1] = v__3514606_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3513533_37, closureRef(R[0], 0), v__3513190_37, v__3513189_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3514950_37, closureRef(R[0], 0), v__3514607_37, v__3514606_37);
 return;
 }
 case 4:
 {
-Obj v__3513532_37= co->res;
-Obj v__3513188_37 = R[1];
-Obj v__3513189_37 = R[2];
-Obj v__3513190_37 = v__3513532_37;
-R[1] = v__3513190_37;
-R[2] = v__3513189_37;
+Obj v__3514949_37= co->res;
+Obj v__3514605_37 = R[1];
+Obj v__3514606_37 = R[2];
+Obj v__3514607_37 = v__3514949_37;
+R[1] = v__3514607_37;
+R[2] = v__3514606_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513188_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3514605_37);
 return;
 }
 }
@@ -2994,38 +2994,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_rules = R[1];
-Obj v_cc = R[2];
-Obj v__3513514_37 = PRIM_CDR(v_rules);
-Obj v__3513515_37 = PRIM_CAR(v__3513514_37);
-Obj v__3513181_37 = v__3513515_37;
-Obj v__3513184_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513181_37);
-R[1] = v__3513181_37;
-R[2] = v__3513184_37;
+Obj v__3514385_37 = R[1];
+Obj v__3514386_37 = R[2];
+Obj v__3514931_37 = PRIM_CDR(v__3514385_37);
+Obj v__3514932_37 = PRIM_CAR(v__3514931_37);
+Obj v__3514598_37 = v__3514932_37;
+Obj v__3514601_37 = makeNative(co->gc, 2, clofun39, 1, 2, v__3514386_37, v__3514598_37);
+R[1] = v__3514598_37;
+R[2] = v__3514601_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513181_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3514598_37);
 return;
 }
 case 1:
 {
-Obj v__3513523_37= co->res;
-Obj v__3513181_37 = R[1];
-Obj v__3513184_37 = R[2];
-if (True == v__3513523_37) {
-Obj v__3513524_37 = PRIM_CAR(v__3513181_37);
-Obj v__3513525_37 = PRIM_EQ(v__3513524_37, getBinding(co, packageID, 110).name);
-if (True == v__3513525_37) {
+Obj v__3514940_37= co->res;
+Obj v__3514598_37 = R[1];
+Obj v__3514601_37 = R[2];
+if (True == v__3514940_37) {
+Obj v__3514941_37 = PRIM_CAR(v__3514598_37);
+Obj v__3514942_37 = PRIM_EQ(v__3514941_37, getBinding(co, packageID, 110).name);
+if (True == v__3514942_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513184_37, True);
+coraCall1(co, v__3514601_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513184_37, False);
+coraCall1(co, v__3514601_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513184_37, False);
+coraCall1(co, v__3514601_37, False);
 return;
 }
 }
@@ -3036,8 +3036,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513183_37 = R[1];
-if (True == v__3513183_37) {
+Obj v__3514600_37 = R[1];
+if (True == v__3514600_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3048,20 +3048,20 @@ return;
 }
 case 1:
 {
-Obj v__3513517_37= co->res;
-Obj v__3513516_37 = R[1];
-Obj v__3513518_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3513519_37 = makeCons(co->gc, v__3513518_37, Nil);
-Obj v__3513520_37 = makeCons(co->gc, v__3513517_37, v__3513519_37);
-Obj v__3513521_37 = makeCons(co->gc, v__3513516_37, v__3513520_37);
-Obj v__3513522_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513521_37);
-coraReturn(co, v__3513522_37);
+Obj v__3514934_37= co->res;
+Obj v__3514933_37 = R[1];
+Obj v__3514935_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3514936_37 = makeCons(co->gc, v__3514935_37, Nil);
+Obj v__3514937_37 = makeCons(co->gc, v__3514934_37, v__3514936_37);
+Obj v__3514938_37 = makeCons(co->gc, v__3514933_37, v__3514937_37);
+Obj v__3514939_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514938_37);
+coraReturn(co, v__3514939_37);
 return;
 }
 case 2:
 {
-Obj v__3513516_37= co->res;
-R[1] = v__3513516_37;
+Obj v__3514933_37= co->res;
+R[1] = v__3514933_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3073,52 +3073,52 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_pat = R[1];
-Obj v_expr = R[2];
-Obj v_body = R[3];
-Obj v_cc = R[4];
-R[1] = v_expr;
-R[2] = v_body;
-R[3] = v_cc;
-R[4] = v_pat;
+Obj v__3514380_37 = R[1];
+Obj v__3514381_37 = R[2];
+Obj v__3514382_37 = R[3];
+Obj v__3514383_37 = R[4];
+R[1] = v__3514381_37;
+R[2] = v__3514382_37;
+R[3] = v__3514383_37;
+R[4] = v__3514380_37;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v_pat);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v__3514380_37);
 return;
 }
 case 1:
 {
-Obj v__3513512_37= co->res;
+Obj v__3514929_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3513512_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3514929_37);
 return;
 }
 case 2:
 {
-Obj v__3513499_37= co->res;
-Obj v_expr = R[1];
-Obj v_body = R[2];
-Obj v_cc = R[3];
-Obj v_pat = R[4];
-if (True == v__3513499_37) {
-Obj v__3513500_37 = PRIM_CAR(v_pat);
-Obj v__3513501_37 = PRIM_EQ(v__3513500_37, getBinding(co, packageID, 139).name);
-if (True == v__3513501_37) {
-Obj v__3513502_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513503_37 = makeCons(co->gc, v_pat, v__3513502_37);
-Obj v__3513504_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513503_37);
-Obj v__3513505_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513506_37 = makeCons(co->gc, v__3513505_37, Nil);
-Obj v__3513507_37 = makeCons(co->gc, v_body, v__3513506_37);
-Obj v__3513508_37 = makeCons(co->gc, v__3513504_37, v__3513507_37);
-Obj v__3513509_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513508_37);
-coraReturn(co, v__3513509_37);
+Obj v__3514916_37= co->res;
+Obj v__3514381_37 = R[1];
+Obj v__3514382_37 = R[2];
+Obj v__3514383_37 = R[3];
+Obj v__3514380_37 = R[4];
+if (True == v__3514916_37) {
+Obj v__3514917_37 = PRIM_CAR(v__3514380_37);
+Obj v__3514918_37 = PRIM_EQ(v__3514917_37, getBinding(co, packageID, 139).name);
+if (True == v__3514918_37) {
+Obj v__3514919_37 = makeCons(co->gc, v__3514381_37, Nil);
+Obj v__3514920_37 = makeCons(co->gc, v__3514380_37, v__3514919_37);
+Obj v__3514921_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3514920_37);
+Obj v__3514922_37 = makeCons(co->gc, v__3514383_37, Nil);
+Obj v__3514923_37 = makeCons(co->gc, v__3514922_37, Nil);
+Obj v__3514924_37 = makeCons(co->gc, v__3514382_37, v__3514923_37);
+Obj v__3514925_37 = makeCons(co->gc, v__3514921_37, v__3514924_37);
+Obj v__3514926_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514925_37);
+coraReturn(co, v__3514926_37);
 return;
 } else {
-Obj v__3513510_37 = PRIM_CAR(v_pat);
-Obj v__3513511_37 = PRIM_EQ(v__3513510_37, getBinding(co, packageID, 152).name);
-if (True == v__3513511_37) {
+Obj v__3514927_37 = PRIM_CAR(v__3514380_37);
+Obj v__3514928_37 = PRIM_EQ(v__3514927_37, getBinding(co, packageID, 152).name);
+if (True == v__3514928_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3514380_37, v__3514381_37, v__3514382_37, v__3514383_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -3128,50 +3128,50 @@ return;
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), v_pat);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), v__3514380_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3513484_37= co->res;
-Obj v_expr = R[1];
-Obj v_body = R[2];
-Obj v_cc = R[3];
-Obj v_pat = R[4];
-if (True == v__3513484_37) {
-Obj v__3513485_37 = PRIM_EQ(v_pat, v_expr);
-if (True == v__3513485_37) {
-coraReturn(co, v_body);
-return;
-} else {
-Obj v__3513486_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513487_37 = makeCons(co->gc, v_pat, v__3513486_37);
-Obj v__3513488_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513487_37);
-Obj v__3513489_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513490_37 = makeCons(co->gc, v__3513489_37, Nil);
-Obj v__3513491_37 = makeCons(co->gc, v_body, v__3513490_37);
-Obj v__3513492_37 = makeCons(co->gc, v__3513488_37, v__3513491_37);
-Obj v__3513493_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513492_37);
-coraReturn(co, v__3513493_37);
-return;
-}
-} else {
-Obj v__3513494_37 = primIsSymbol(v_pat);
-if (True == v__3513494_37) {
-Obj v__3513495_37 = makeCons(co->gc, v_body, Nil);
-Obj v__3513496_37 = makeCons(co->gc, v_expr, v__3513495_37);
-Obj v__3513497_37 = makeCons(co->gc, v_pat, v__3513496_37);
-Obj v__3513498_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513497_37);
-coraReturn(co, v__3513498_37);
-return;
-} else {
-R[1] = v_expr;
-R[2] = v_body;
-R[3] = v_cc;
-R[4] = v_pat;
+Obj v__3514901_37= co->res;
+Obj v__3514381_37 = R[1];
+Obj v__3514382_37 = R[2];
+Obj v__3514383_37 = R[3];
+Obj v__3514380_37 = R[4];
+if (True == v__3514901_37) {
+Obj v__3514902_37 = PRIM_EQ(v__3514380_37, v__3514381_37);
+if (True == v__3514902_37) {
+coraReturn(co, v__3514382_37);
+return;
+} else {
+Obj v__3514903_37 = makeCons(co->gc, v__3514381_37, Nil);
+Obj v__3514904_37 = makeCons(co->gc, v__3514380_37, v__3514903_37);
+Obj v__3514905_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3514904_37);
+Obj v__3514906_37 = makeCons(co->gc, v__3514383_37, Nil);
+Obj v__3514907_37 = makeCons(co->gc, v__3514906_37, Nil);
+Obj v__3514908_37 = makeCons(co->gc, v__3514382_37, v__3514907_37);
+Obj v__3514909_37 = makeCons(co->gc, v__3514905_37, v__3514908_37);
+Obj v__3514910_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514909_37);
+coraReturn(co, v__3514910_37);
+return;
+}
+} else {
+Obj v__3514911_37 = primIsSymbol(v__3514380_37);
+if (True == v__3514911_37) {
+Obj v__3514912_37 = makeCons(co->gc, v__3514382_37, Nil);
+Obj v__3514913_37 = makeCons(co->gc, v__3514381_37, v__3514912_37);
+Obj v__3514914_37 = makeCons(co->gc, v__3514380_37, v__3514913_37);
+Obj v__3514915_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514914_37);
+coraReturn(co, v__3514915_37);
+return;
+} else {
+R[1] = v__3514381_37;
+R[2] = v__3514382_37;
+R[3] = v__3514383_37;
+R[4] = v__3514380_37;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3514380_37);
 return;
 }
 }
@@ -3183,20 +3183,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-R[1] = v_x;
+Obj v__3514384_37 = R[1];
+R[1] = v__3514384_37;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514384_37);
 return;
 }
 case 1:
 {
-Obj v__3513481_37= co->res;
-Obj v_x = R[1];
-if (True == v__3513481_37) {
-Obj v__3513482_37 = primIsSymbol(v_x);
-Obj v__3513483_37 = primNot(v__3513482_37);
-if (True == v__3513483_37) {
+Obj v__3514898_37= co->res;
+Obj v__3514384_37 = R[1];
+if (True == v__3514898_37) {
+Obj v__3514899_37 = primIsSymbol(v__3514384_37);
+Obj v__3514900_37 = primNot(v__3514899_37);
+if (True == v__3514900_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3215,60 +3215,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_pat = R[1];
-Obj v_expr = R[2];
-Obj v_body = R[3];
-Obj v_cc = R[4];
-R[1] = v_pat;
-R[2] = v_body;
-R[3] = v_cc;
-R[4] = v_expr;
+Obj v__3514372_37 = R[1];
+Obj v__3514373_37 = R[2];
+Obj v__3514374_37 = R[3];
+Obj v__3514375_37 = R[4];
+R[1] = v__3514372_37;
+R[2] = v__3514374_37;
+R[3] = v__3514375_37;
+R[4] = v__3514373_37;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514372_37);
 return;
 }
 case 1:
 {
-Obj v__3513460_37= co->res;
-Obj v__3513174_37 = R[1];
-Obj v_body = R[2];
-Obj v_cc = R[3];
-Obj v_expr = R[4];
-Obj v__3513175_37 = v__3513460_37;
-Obj v__3513178_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513174_37, v__3513175_37, v_expr, v_body, v_cc);
-Obj v__3513477_37 = PRIM_ISCONS(v_expr);
-if (True == v__3513477_37) {
-Obj v__3513478_37 = PRIM_CAR(v_expr);
-Obj v__3513479_37 = PRIM_EQ(v__3513478_37, getBinding(co, packageID, 152).name);
-if (True == v__3513479_37) {
+Obj v__3514877_37= co->res;
+Obj v__3514591_37 = R[1];
+Obj v__3514374_37 = R[2];
+Obj v__3514375_37 = R[3];
+Obj v__3514373_37 = R[4];
+Obj v__3514592_37 = v__3514877_37;
+Obj v__3514595_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3514591_37, v__3514592_37, v__3514373_37, v__3514374_37, v__3514375_37);
+Obj v__3514894_37 = PRIM_ISCONS(v__3514373_37);
+if (True == v__3514894_37) {
+Obj v__3514895_37 = PRIM_CAR(v__3514373_37);
+Obj v__3514896_37 = PRIM_EQ(v__3514895_37, getBinding(co, packageID, 152).name);
+if (True == v__3514896_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513178_37, True);
+coraCall1(co, v__3514595_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513178_37, False);
+coraCall1(co, v__3514595_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513178_37, False);
+coraCall1(co, v__3514595_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513459_37= co->res;
-Obj v_pat = R[1];
-Obj v_body = R[2];
-Obj v_cc = R[3];
-Obj v_expr = R[4];
-Obj v__3513174_37 = v__3513459_37;
-R[1] = v__3513174_37;
-R[2] = v_body;
-R[3] = v_cc;
-R[4] = v_expr;
+Obj v__3514876_37= co->res;
+Obj v__3514372_37 = R[1];
+Obj v__3514374_37 = R[2];
+Obj v__3514375_37 = R[3];
+Obj v__3514373_37 = R[4];
+Obj v__3514591_37 = v__3514876_37;
+R[1] = v__3514591_37;
+R[2] = v__3514374_37;
+R[3] = v__3514375_37;
+R[4] = v__3514373_37;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514372_37);
 return;
 }
 }
@@ -3278,72 +3278,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513177_37 = R[1];
-if (True == v__3513177_37) {
+Obj v__3514594_37 = R[1];
+if (True == v__3514594_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3513464_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513465_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513464_37);
-Obj v__3513466_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513467_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513466_37);
-Obj v__3513468_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513469_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513468_37);
-R[1] = v__3513467_37;
-R[2] = v__3513465_37;
+Obj v__3514881_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514882_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3514881_37);
+Obj v__3514883_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514884_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3514883_37);
+Obj v__3514885_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514886_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3514885_37);
+R[1] = v__3514884_37;
+R[2] = v__3514882_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513469_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3514886_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3513463_37= co->res;
-Obj v__3513179_37 = R[1];
+Obj v__3514880_37= co->res;
+Obj v__3514596_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513179_37, v__3513463_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3514596_37, v__3514880_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v__3513462_37= co->res;
-Obj v__3513179_37 = R[1];
-Obj v__3513180_37 = v__3513462_37;
-R[1] = v__3513179_37;
+Obj v__3514879_37= co->res;
+Obj v__3514596_37 = R[1];
+Obj v__3514597_37 = v__3514879_37;
+R[1] = v__3514596_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513180_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3514597_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3513461_37= co->res;
-Obj v__3513179_37 = v__3513461_37;
-R[1] = v__3513179_37;
+Obj v__3514878_37= co->res;
+Obj v__3514596_37 = v__3514878_37;
+R[1] = v__3514596_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v__3513471_37= co->res;
-Obj v__3513465_37 = R[1];
-Obj v__3513472_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v__3513473_37 = makeCons(co->gc, v__3513472_37, Nil);
-Obj v__3513474_37 = makeCons(co->gc, v__3513471_37, v__3513473_37);
-Obj v__3513475_37 = makeCons(co->gc, v__3513465_37, v__3513474_37);
-Obj v__3513476_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513475_37);
-coraReturn(co, v__3513476_37);
+Obj v__3514888_37= co->res;
+Obj v__3514882_37 = R[1];
+Obj v__3514889_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3514890_37 = makeCons(co->gc, v__3514889_37, Nil);
+Obj v__3514891_37 = makeCons(co->gc, v__3514888_37, v__3514890_37);
+Obj v__3514892_37 = makeCons(co->gc, v__3514882_37, v__3514891_37);
+Obj v__3514893_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514892_37);
+coraReturn(co, v__3514893_37);
 return;
 }
 case 5:
 {
-Obj v__3513470_37= co->res;
-Obj v__3513467_37 = R[1];
-Obj v__3513465_37 = R[2];
-R[1] = v__3513465_37;
+Obj v__3514887_37= co->res;
+Obj v__3514884_37 = R[1];
+Obj v__3514882_37 = R[2];
+R[1] = v__3514882_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513467_37, v__3513470_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3514884_37, v__3514887_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3353,10 +3353,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513457_37 = PRIM_CDR(v_exp);
+Obj v__3514371_37 = R[1];
+Obj v__3514874_37 = PRIM_CDR(v__3514371_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513457_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3514874_37);
 return;
 }
 }
@@ -3366,37 +3366,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_pat = R[1];
-Obj v__3513447_37 = PRIM_CDR(v_pat);
-R[1] = v_pat;
+Obj v__3514370_37 = R[1];
+Obj v__3514864_37 = PRIM_CDR(v__3514370_37);
+R[1] = v__3514370_37;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513447_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514864_37);
 return;
 }
 case 1:
 {
-Obj v__3513452_37= co->res;
-Obj v__3513450_37 = R[1];
-Obj v__3513453_37 = makeCons(co->gc, v__3513452_37, Nil);
-Obj v__3513454_37 = makeCons(co->gc, v__3513450_37, v__3513453_37);
-Obj v__3513455_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513454_37);
-coraReturn(co, v__3513455_37);
+Obj v__3514869_37= co->res;
+Obj v__3514867_37 = R[1];
+Obj v__3514870_37 = makeCons(co->gc, v__3514869_37, Nil);
+Obj v__3514871_37 = makeCons(co->gc, v__3514867_37, v__3514870_37);
+Obj v__3514872_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3514871_37);
+coraReturn(co, v__3514872_37);
 return;
 }
 case 2:
 {
-Obj v__3513448_37= co->res;
-Obj v_pat = R[1];
-if (True == v__3513448_37) {
-Obj v__3513449_37 = PRIM_CAR(v_pat);
-coraReturn(co, v__3513449_37);
+Obj v__3514865_37= co->res;
+Obj v__3514370_37 = R[1];
+if (True == v__3514865_37) {
+Obj v__3514866_37 = PRIM_CAR(v__3514370_37);
+coraReturn(co, v__3514866_37);
 return;
 } else {
-Obj v__3513450_37 = PRIM_CAR(v_pat);
-Obj v__3513451_37 = PRIM_CDR(v_pat);
-R[1] = v__3513450_37;
+Obj v__3514867_37 = PRIM_CAR(v__3514370_37);
+Obj v__3514868_37 = PRIM_CDR(v__3514370_37);
+R[1] = v__3514867_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513451_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3514868_37);
 return;
 }
 }
@@ -3407,14 +3407,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513444_37 = PRIM_EQ(v_x, True);
-if (True == v__3513444_37) {
+Obj v__3514369_37 = R[1];
+Obj v__3514861_37 = PRIM_EQ(v__3514369_37, True);
+if (True == v__3514861_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513445_37 = PRIM_EQ(v_x, False);
-if (True == v__3513445_37) {
+Obj v__3514862_37 = PRIM_EQ(v__3514369_37, False);
+if (True == v__3514862_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3430,10 +3430,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513442_37 = PRIM_CDR(v_exp);
+Obj v__3514368_37 = R[1];
+Obj v__3514859_37 = PRIM_CDR(v__3514368_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513442_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3514859_37);
 return;
 }
 }
@@ -3443,42 +3443,42 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_l = R[1];
-Obj v__3513430_37 = PRIM_EQ(Nil, v_l);
-if (True == v__3513430_37) {
+Obj v__3514366_37 = R[1];
+Obj v__3514847_37 = PRIM_EQ(Nil, v__3514366_37);
+if (True == v__3514847_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513431_37 = PRIM_CAR(v_l);
-Obj v__3513432_37 = PRIM_EQ(v__3513431_37, False);
-if (True == v__3513432_37) {
+Obj v__3514848_37 = PRIM_CAR(v__3514366_37);
+Obj v__3514849_37 = PRIM_EQ(v__3514848_37, False);
+if (True == v__3514849_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513433_37 = PRIM_CDR(v_l);
-R[1] = v_l;
+Obj v__3514850_37 = PRIM_CDR(v__3514366_37);
+R[1] = v__3514366_37;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513433_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3514850_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513434_37= co->res;
-Obj v_l = R[1];
-Obj v__3513173_37 = v__3513434_37;
-Obj v__3513435_37 = PRIM_EQ(v__3513173_37, False);
-if (True == v__3513435_37) {
+Obj v__3514851_37= co->res;
+Obj v__3514366_37 = R[1];
+Obj v__3514590_37 = v__3514851_37;
+Obj v__3514852_37 = PRIM_EQ(v__3514590_37, False);
+if (True == v__3514852_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513436_37 = PRIM_CAR(v_l);
-Obj v__3513437_37 = makeCons(co->gc, False, Nil);
-Obj v__3513438_37 = makeCons(co->gc, v__3513173_37, v__3513437_37);
-Obj v__3513439_37 = makeCons(co->gc, v__3513436_37, v__3513438_37);
-Obj v__3513440_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513439_37);
-coraReturn(co, v__3513440_37);
+Obj v__3514853_37 = PRIM_CAR(v__3514366_37);
+Obj v__3514854_37 = makeCons(co->gc, False, Nil);
+Obj v__3514855_37 = makeCons(co->gc, v__3514590_37, v__3514854_37);
+Obj v__3514856_37 = makeCons(co->gc, v__3514853_37, v__3514855_37);
+Obj v__3514857_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514856_37);
+coraReturn(co, v__3514857_37);
 return;
 }
 }
@@ -3489,10 +3489,10 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513428_37 = PRIM_CDR(v_exp);
+Obj v__3514365_37 = R[1];
+Obj v__3514845_37 = PRIM_CDR(v__3514365_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513428_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3514845_37);
 return;
 }
 }
@@ -3502,42 +3502,42 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_l = R[1];
-Obj v__3513416_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513416_37) {
+Obj v__3514363_37 = R[1];
+Obj v__3514833_37 = PRIM_EQ(v__3514363_37, Nil);
+if (True == v__3514833_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513417_37 = PRIM_CAR(v_l);
-Obj v__3513418_37 = PRIM_EQ(v__3513417_37, True);
-if (True == v__3513418_37) {
+Obj v__3514834_37 = PRIM_CAR(v__3514363_37);
+Obj v__3514835_37 = PRIM_EQ(v__3514834_37, True);
+if (True == v__3514835_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513419_37 = PRIM_CDR(v_l);
-R[1] = v_l;
+Obj v__3514836_37 = PRIM_CDR(v__3514363_37);
+R[1] = v__3514363_37;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513419_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3514836_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513420_37= co->res;
-Obj v_l = R[1];
-Obj v__3513172_37 = v__3513420_37;
-Obj v__3513421_37 = PRIM_EQ(v__3513172_37, True);
-if (True == v__3513421_37) {
+Obj v__3514837_37= co->res;
+Obj v__3514363_37 = R[1];
+Obj v__3514589_37 = v__3514837_37;
+Obj v__3514838_37 = PRIM_EQ(v__3514589_37, True);
+if (True == v__3514838_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513422_37 = PRIM_CAR(v_l);
-Obj v__3513423_37 = makeCons(co->gc, v__3513172_37, Nil);
-Obj v__3513424_37 = makeCons(co->gc, True, v__3513423_37);
-Obj v__3513425_37 = makeCons(co->gc, v__3513422_37, v__3513424_37);
-Obj v__3513426_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513425_37);
-coraReturn(co, v__3513426_37);
+Obj v__3514839_37 = PRIM_CAR(v__3514363_37);
+Obj v__3514840_37 = makeCons(co->gc, v__3514589_37, Nil);
+Obj v__3514841_37 = makeCons(co->gc, True, v__3514840_37);
+Obj v__3514842_37 = makeCons(co->gc, v__3514839_37, v__3514841_37);
+Obj v__3514843_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514842_37);
+coraReturn(co, v__3514843_37);
 return;
 }
 }
@@ -3548,55 +3548,55 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513402_37 = PRIM_CDR(v_exp);
-Obj v__3513403_37 = PRIM_EQ(Nil, v__3513402_37);
-if (True == v__3513403_37) {
-Obj v__3513404_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v__3513405_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513404_37);
-coraReturn(co, v__3513405_37);
+Obj v__3514361_37 = R[1];
+Obj v__3514819_37 = PRIM_CDR(v__3514361_37);
+Obj v__3514820_37 = PRIM_EQ(Nil, v__3514819_37);
+if (True == v__3514820_37) {
+Obj v__3514821_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3514822_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514821_37);
+coraReturn(co, v__3514822_37);
 return;
 } else {
-R[1] = v_exp;
+R[1] = v__3514361_37;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514361_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513409_37= co->res;
-Obj v__3513408_37 = R[1];
-Obj v__3513407_37 = R[2];
-Obj v__3513410_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513409_37);
-Obj v__3513411_37 = makeCons(co->gc, v__3513410_37, Nil);
-Obj v__3513412_37 = makeCons(co->gc, v__3513408_37, v__3513411_37);
-Obj v__3513413_37 = makeCons(co->gc, v__3513407_37, v__3513412_37);
-Obj v__3513414_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513413_37);
-coraReturn(co, v__3513414_37);
+Obj v__3514826_37= co->res;
+Obj v__3514825_37 = R[1];
+Obj v__3514824_37 = R[2];
+Obj v__3514827_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3514826_37);
+Obj v__3514828_37 = makeCons(co->gc, v__3514827_37, Nil);
+Obj v__3514829_37 = makeCons(co->gc, v__3514825_37, v__3514828_37);
+Obj v__3514830_37 = makeCons(co->gc, v__3514824_37, v__3514829_37);
+Obj v__3514831_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514830_37);
+coraReturn(co, v__3514831_37);
 return;
 }
 case 2:
 {
-Obj v__3513408_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513407_37 = R[2];
-R[1] = v__3513408_37;
-R[2] = v__3513407_37;
+Obj v__3514825_37= co->res;
+Obj v__3514361_37 = R[1];
+Obj v__3514824_37 = R[2];
+R[1] = v__3514825_37;
+R[2] = v__3514824_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514361_37);
 return;
 }
 case 3:
 {
-Obj v__3513406_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513171_37 = v__3513406_37;
-Obj v__3513407_37 = PRIM_CAR(v__3513171_37);
-R[1] = v_exp;
-R[2] = v__3513407_37;
+Obj v__3514823_37= co->res;
+Obj v__3514361_37 = R[1];
+Obj v__3514588_37 = v__3514823_37;
+Obj v__3514824_37 = PRIM_CAR(v__3514588_37);
+R[1] = v__3514361_37;
+R[2] = v__3514824_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3513171_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514588_37);
 return;
 }
 }
@@ -3606,10 +3606,10 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513400_37 = PRIM_CDR(v_exp);
+Obj v__3514360_37 = R[1];
+Obj v__3514817_37 = PRIM_CDR(v__3514360_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513400_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3514817_37);
 return;
 }
 }
@@ -3619,61 +3619,61 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513388_37 = PRIM_CDR(v_exp);
-R[1] = v_exp;
+Obj v__3514359_37 = R[1];
+Obj v__3514805_37 = PRIM_CDR(v__3514359_37);
+R[1] = v__3514359_37;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513388_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514805_37);
 return;
 }
 case 1:
 {
-Obj v__3513394_37= co->res;
-Obj v__3513392_37 = R[1];
-Obj v__3513391_37 = R[2];
-Obj v__3513395_37 = makeCons(co->gc, v__3513394_37, Nil);
-Obj v__3513396_37 = makeCons(co->gc, v__3513392_37, v__3513395_37);
-Obj v__3513397_37 = makeCons(co->gc, v__3513391_37, v__3513396_37);
-Obj v__3513398_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513397_37);
-coraReturn(co, v__3513398_37);
+Obj v__3514811_37= co->res;
+Obj v__3514809_37 = R[1];
+Obj v__3514808_37 = R[2];
+Obj v__3514812_37 = makeCons(co->gc, v__3514811_37, Nil);
+Obj v__3514813_37 = makeCons(co->gc, v__3514809_37, v__3514812_37);
+Obj v__3514814_37 = makeCons(co->gc, v__3514808_37, v__3514813_37);
+Obj v__3514815_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514814_37);
+coraReturn(co, v__3514815_37);
 return;
 }
 case 2:
 {
-Obj v__3513393_37= co->res;
-Obj v__3513392_37 = R[1];
-Obj v__3513391_37 = R[2];
-R[1] = v__3513392_37;
-R[2] = v__3513391_37;
+Obj v__3514810_37= co->res;
+Obj v__3514809_37 = R[1];
+Obj v__3514808_37 = R[2];
+R[1] = v__3514809_37;
+R[2] = v__3514808_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513393_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3514810_37);
 return;
 }
 case 3:
 {
-Obj v__3513392_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513391_37 = R[2];
-R[1] = v__3513392_37;
-R[2] = v__3513391_37;
+Obj v__3514809_37= co->res;
+Obj v__3514359_37 = R[1];
+Obj v__3514808_37 = R[2];
+R[1] = v__3514809_37;
+R[2] = v__3514808_37;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514359_37);
 return;
 }
 case 4:
 {
-Obj v__3513389_37= co->res;
-Obj v_exp = R[1];
-if (True == v__3513389_37) {
-Obj v__3513390_37 = PRIM_CAR(v_exp);
-coraReturn(co, v__3513390_37);
+Obj v__3514806_37= co->res;
+Obj v__3514359_37 = R[1];
+if (True == v__3514806_37) {
+Obj v__3514807_37 = PRIM_CAR(v__3514359_37);
+coraReturn(co, v__3514807_37);
 return;
 } else {
-Obj v__3513391_37 = PRIM_CAR(v_exp);
-R[1] = v_exp;
-R[2] = v__3513391_37;
+Obj v__3514808_37 = PRIM_CAR(v__3514359_37);
+R[1] = v__3514359_37;
+R[2] = v__3514808_37;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514359_37);
 return;
 }
 }
@@ -3684,10 +3684,10 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513385_37 = PRIM_ISCONS(v_x);
-Obj v__3513386_37 = primNot(v__3513385_37);
-coraReturn(co, v__3513386_37);
+Obj v__3514358_37 = R[1];
+Obj v__3514802_37 = PRIM_ISCONS(v__3514358_37);
+Obj v__3514803_37 = primNot(v__3514802_37);
+coraReturn(co, v__3514803_37);
 return;
 }
 }
@@ -3697,19 +3697,19 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v_l = R[2];
-Obj v__3513380_37 = PRIM_ISCONS(v_l);
-if (True == v__3513380_37) {
-Obj v__3513381_37 = PRIM_CAR(v_l);
-Obj v__3513382_37 = PRIM_EQ(v__3513381_37, v_x);
-if (True == v__3513382_37) {
+Obj v__3514356_37 = R[1];
+Obj v__3514357_37 = R[2];
+Obj v__3514797_37 = PRIM_ISCONS(v__3514357_37);
+if (True == v__3514797_37) {
+Obj v__3514798_37 = PRIM_CAR(v__3514357_37);
+Obj v__3514799_37 = PRIM_EQ(v__3514798_37, v__3514356_37);
+if (True == v__3514799_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513383_37 = PRIM_CDR(v_l);
+Obj v__3514800_37 = PRIM_CDR(v__3514357_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v__3513383_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3514356_37, v__3514800_37);
 return;
 }
 } else {
@@ -3724,45 +3724,45 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514355_37 = R[1];
+R[1] = v__3514355_37;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514355_37);
 return;
 }
 case 1:
 {
-Obj v__3513372_37= co->res;
-Obj v__3513371_37 = R[1];
-Obj v__3513370_37 = R[2];
-Obj v__3513373_37 = makeCons(co->gc, v__3513372_37, Nil);
-Obj v__3513374_37 = makeCons(co->gc, v__3513371_37, v__3513373_37);
-Obj v__3513375_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513374_37);
-Obj v__3513376_37 = makeCons(co->gc, v__3513375_37, Nil);
-Obj v__3513377_37 = makeCons(co->gc, v__3513370_37, v__3513376_37);
-Obj v__3513378_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513377_37);
-coraReturn(co, v__3513378_37);
+Obj v__3514789_37= co->res;
+Obj v__3514788_37 = R[1];
+Obj v__3514787_37 = R[2];
+Obj v__3514790_37 = makeCons(co->gc, v__3514789_37, Nil);
+Obj v__3514791_37 = makeCons(co->gc, v__3514788_37, v__3514790_37);
+Obj v__3514792_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514791_37);
+Obj v__3514793_37 = makeCons(co->gc, v__3514792_37, Nil);
+Obj v__3514794_37 = makeCons(co->gc, v__3514787_37, v__3514793_37);
+Obj v__3514795_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3514794_37);
+coraReturn(co, v__3514795_37);
 return;
 }
 case 2:
 {
-Obj v__3513371_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513370_37 = R[2];
-R[1] = v__3513371_37;
-R[2] = v__3513370_37;
+Obj v__3514788_37= co->res;
+Obj v__3514355_37 = R[1];
+Obj v__3514787_37 = R[2];
+R[1] = v__3514788_37;
+R[2] = v__3514787_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514355_37);
 return;
 }
 case 3:
 {
-Obj v__3513370_37= co->res;
-Obj v_exp = R[1];
-R[1] = v_exp;
-R[2] = v__3513370_37;
+Obj v__3514787_37= co->res;
+Obj v__3514355_37 = R[1];
+R[1] = v__3514355_37;
+R[2] = v__3514787_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514355_37);
 return;
 }
 }
@@ -3772,10 +3772,10 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513368_37 = PRIM_CDR(v_exp);
+Obj v__3514354_37 = R[1];
+Obj v__3514785_37 = PRIM_CDR(v__3514354_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513368_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514785_37);
 return;
 }
 }
@@ -3785,46 +3785,46 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514353_37 = R[1];
+R[1] = v__3514353_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514353_37);
 return;
 }
 case 1:
 {
-Obj v__3513360_37= co->res;
-Obj v__3513359_37 = R[1];
-Obj v__3513358_37 = R[2];
-Obj v__3513361_37 = makeCons(co->gc, v__3513359_37, v__3513360_37);
-Obj v__3513362_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513361_37);
-Obj v__3513363_37 = makeCons(co->gc, v__3513362_37, Nil);
-Obj v__3513364_37 = makeCons(co->gc, v__3513358_37, v__3513363_37);
-Obj v__3513365_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3513364_37);
-coraReturn(co, v__3513365_37);
+Obj v__3514777_37= co->res;
+Obj v__3514776_37 = R[1];
+Obj v__3514775_37 = R[2];
+Obj v__3514778_37 = makeCons(co->gc, v__3514776_37, v__3514777_37);
+Obj v__3514779_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514778_37);
+Obj v__3514780_37 = makeCons(co->gc, v__3514779_37, Nil);
+Obj v__3514781_37 = makeCons(co->gc, v__3514775_37, v__3514780_37);
+Obj v__3514782_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3514781_37);
+coraReturn(co, v__3514782_37);
 return;
 }
 case 2:
 {
-Obj v__3513359_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513358_37 = R[2];
-R[1] = v__3513359_37;
-R[2] = v__3513358_37;
+Obj v__3514776_37= co->res;
+Obj v__3514353_37 = R[1];
+Obj v__3514775_37 = R[2];
+R[1] = v__3514776_37;
+R[2] = v__3514775_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514353_37);
 return;
 }
 case 3:
 {
-Obj v__3513356_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513357_37 = makeCons(co->gc, v__3513356_37, Nil);
-Obj v__3513358_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513357_37);
-R[1] = v_exp;
-R[2] = v__3513358_37;
+Obj v__3514773_37= co->res;
+Obj v__3514353_37 = R[1];
+Obj v__3514774_37 = makeCons(co->gc, v__3514773_37, Nil);
+Obj v__3514775_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514774_37);
+R[1] = v__3514353_37;
+R[2] = v__3514775_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514353_37);
 return;
 }
 }
@@ -3834,76 +3834,76 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513338_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513338_37) {
-Obj v__3513339_37 = PRIM_CAR(v_exp);
-Obj v__3513340_37 = PRIM_EQ(v__3513339_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v__3513340_37) {
-Obj v__3513341_37 = PRIM_CDR(v_exp);
-coraReturn(co, v__3513341_37);
+Obj v__3514351_37 = R[1];
+Obj v__3514755_37 = PRIM_ISCONS(v__3514351_37);
+if (True == v__3514755_37) {
+Obj v__3514756_37 = PRIM_CAR(v__3514351_37);
+Obj v__3514757_37 = PRIM_EQ(v__3514756_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v__3514757_37) {
+Obj v__3514758_37 = PRIM_CDR(v__3514351_37);
+coraReturn(co, v__3514758_37);
 return;
 } else {
-Obj v__3513342_37 = PRIM_CAR(v_exp);
-Obj v__3513343_37 = PRIM_EQ(v__3513342_37, getBinding(co, packageID, 140).name);
-if (True == v__3513343_37) {
-R[1] = v_exp;
+Obj v__3514759_37 = PRIM_CAR(v__3514351_37);
+Obj v__3514760_37 = PRIM_EQ(v__3514759_37, getBinding(co, packageID, 140).name);
+if (True == v__3514760_37) {
+R[1] = v__3514351_37;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514351_37);
 return;
 } else {
-Obj v__3513350_37 = PRIM_CAR(v_exp);
-Obj v__3513351_37 = PRIM_EQ(v__3513350_37, getBinding(co, packageID, 139).name);
-if (True == v__3513351_37) {
-coraReturn(co, v_exp);
+Obj v__3514767_37 = PRIM_CAR(v__3514351_37);
+Obj v__3514768_37 = PRIM_EQ(v__3514767_37, getBinding(co, packageID, 139).name);
+if (True == v__3514768_37) {
+coraReturn(co, v__3514351_37);
 return;
 } else {
-R[1] = v_exp;
+R[1] = v__3514351_37;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514351_37);
 return;
 }
 }
 }
 } else {
-coraReturn(co, v_exp);
+coraReturn(co, v__3514351_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513346_37= co->res;
-Obj v__3513344_37 = R[1];
-Obj v__3513347_37 = makeCons(co->gc, v__3513346_37, Nil);
-Obj v__3513348_37 = makeCons(co->gc, v__3513344_37, v__3513347_37);
-Obj v__3513349_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513348_37);
-coraReturn(co, v__3513349_37);
+Obj v__3514763_37= co->res;
+Obj v__3514761_37 = R[1];
+Obj v__3514764_37 = makeCons(co->gc, v__3514763_37, Nil);
+Obj v__3514765_37 = makeCons(co->gc, v__3514761_37, v__3514764_37);
+Obj v__3514766_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514765_37);
+coraReturn(co, v__3514766_37);
 return;
 }
 case 2:
 {
-Obj v__3513345_37= co->res;
-Obj v__3513344_37 = R[1];
-R[1] = v__3513344_37;
+Obj v__3514762_37= co->res;
+Obj v__3514761_37 = R[1];
+R[1] = v__3514761_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3513345_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3514762_37);
 return;
 }
 case 3:
 {
-Obj v__3513344_37= co->res;
-Obj v_exp = R[1];
-R[1] = v__3513344_37;
+Obj v__3514761_37= co->res;
+Obj v__3514351_37 = R[1];
+R[1] = v__3514761_37;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514351_37);
 return;
 }
 case 4:
 {
-Obj v__3513353_37= co->res;
-Obj v_exp = R[1];
+Obj v__3514770_37= co->res;
+Obj v__3514351_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513353_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v__3514351_37), v__3514770_37);
 return;
 }
 }
@@ -3913,15 +3913,15 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp1 = R[1];
-Obj v__3513352_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v__3513352_37) {
+Obj v__3514352_37 = R[1];
+Obj v__3514769_37 = PRIM_EQ(v__3514352_37, closureRef(R[0], 0));
+if (True == v__3514769_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v__3514352_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3514352_37);
 return;
 }
 }
@@ -3932,9 +3932,9 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514350_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), v_exp, globalRef(co, getBinding(co, packageID, 146)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), v__3514350_37, globalRef(co, getBinding(co, packageID, 146)));
 return;
 }
 }
@@ -3944,16 +3944,16 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v_macros = R[2];
-Obj v__3513328_37 = PRIM_EQ(Nil, v_macros);
-if (True == v__3513328_37) {
-coraReturn(co, v_exp);
+Obj v__3514347_37 = R[1];
+Obj v__3514348_37 = R[2];
+Obj v__3514745_37 = PRIM_EQ(Nil, v__3514348_37);
+if (True == v__3514745_37) {
+coraReturn(co, v__3514347_37);
 return;
 } else {
-Obj v__3513335_37 = PRIM_CAR(v_macros);
+Obj v__3514752_37 = PRIM_CAR(v__3514348_37);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513335_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v__3514348_37, v__3514347_37), v__3514752_37);
 return;
 }
 }
@@ -3964,25 +3964,25 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_item = R[1];
-Obj v__3513170_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3513331_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513331_37) {
-Obj v__3513332_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513333_37 = PRIM_CAR(v_item);
-Obj v__3513334_37 = PRIM_EQ(v__3513332_37, v__3513333_37);
-if (True == v__3513334_37) {
+Obj v__3514349_37 = R[1];
+Obj v__3514587_37 = makeNative(co->gc, 2, clofun14, 1, 3, v__3514349_37, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3514748_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3514748_37) {
+Obj v__3514749_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514750_37 = PRIM_CAR(v__3514349_37);
+Obj v__3514751_37 = PRIM_EQ(v__3514749_37, v__3514750_37);
+if (True == v__3514751_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513170_37, True);
+coraCall1(co, v__3514587_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513170_37, False);
+coraCall1(co, v__3514587_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513170_37, False);
+coraCall1(co, v__3514587_37, False);
 return;
 }
 }
@@ -3993,16 +3993,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513169_37 = R[1];
-if (True == v__3513169_37) {
-Obj v__3513329_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514586_37 = R[1];
+if (True == v__3514586_37) {
+Obj v__3514746_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v__3513329_37, closureRef(R[0], 1));
+coraCall1(co, v__3514746_37, closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513330_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3514747_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3513330_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3514747_37);
 return;
 }
 }
@@ -4013,12 +4013,12 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_n = R[1];
-Obj v_v = R[2];
-Obj v__3513324_37 = makeCons(co->gc, v_n, v_v);
-Obj v__3513325_37 = makeCons(co->gc, v__3513324_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj v__3513326_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513325_37);
-coraReturn(co, v__3513326_37);
+Obj v__3514345_37 = R[1];
+Obj v__3514346_37 = R[2];
+Obj v__3514741_37 = makeCons(co->gc, v__3514345_37, v__3514346_37);
+Obj v__3514742_37 = makeCons(co->gc, v__3514741_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj v__3514743_37 = primSet(co, getBinding(co, packageID, 146).name, v__3514742_37);
+coraReturn(co, v__3514743_37);
 return;
 }
 }
@@ -4028,10 +4028,10 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_f = R[1];
-Obj v_l = R[2];
+Obj v__3514343_37 = R[1];
+Obj v__3514344_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, v_f, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, v__3514343_37, v__3514344_37);
 return;
 }
 }
@@ -4041,34 +4041,34 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_res = R[1];
-Obj v_f = R[2];
-Obj v_l = R[3];
-Obj v__3513314_37 = PRIM_ISCONS(v_l);
-if (True == v__3513314_37) {
-Obj v__3513315_37 = PRIM_CAR(v_l);
-R[1] = v_res;
-R[2] = v_l;
-R[3] = v_f;
+Obj v__3514340_37 = R[1];
+Obj v__3514341_37 = R[2];
+Obj v__3514342_37 = R[3];
+Obj v__3514731_37 = PRIM_ISCONS(v__3514342_37);
+if (True == v__3514731_37) {
+Obj v__3514732_37 = PRIM_CAR(v__3514342_37);
+R[1] = v__3514340_37;
+R[2] = v__3514342_37;
+R[3] = v__3514341_37;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v__3513315_37);
+coraCall1(co, v__3514341_37, v__3514732_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514340_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513316_37= co->res;
-Obj v_res = R[1];
-Obj v_l = R[2];
-Obj v_f = R[3];
-Obj v__3513317_37 = makeCons(co->gc, v__3513316_37, v_res);
-Obj v__3513318_37 = PRIM_CDR(v_l);
+Obj v__3514733_37= co->res;
+Obj v__3514340_37 = R[1];
+Obj v__3514342_37 = R[2];
+Obj v__3514341_37 = R[3];
+Obj v__3514734_37 = makeCons(co->gc, v__3514733_37, v__3514340_37);
+Obj v__3514735_37 = PRIM_CDR(v__3514342_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3513317_37, v_f, v__3513318_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3514734_37, v__3514341_37, v__3514735_37);
 return;
 }
 }
@@ -4078,18 +4078,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_res = R[1];
-Obj v_l = R[2];
-Obj v__3513307_37 = PRIM_ISCONS(v_l);
-if (True == v__3513307_37) {
-Obj v__3513308_37 = PRIM_CAR(v_l);
-Obj v__3513309_37 = makeCons(co->gc, v__3513308_37, v_res);
-Obj v__3513310_37 = PRIM_CDR(v_l);
+Obj v__3514338_37 = R[1];
+Obj v__3514339_37 = R[2];
+Obj v__3514724_37 = PRIM_ISCONS(v__3514339_37);
+if (True == v__3514724_37) {
+Obj v__3514725_37 = PRIM_CAR(v__3514339_37);
+Obj v__3514726_37 = makeCons(co->gc, v__3514725_37, v__3514338_37);
+Obj v__3514727_37 = PRIM_CDR(v__3514339_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3513309_37, v__3513310_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3514726_37, v__3514727_37);
 return;
 } else {
-coraReturn(co, v_res);
+coraReturn(co, v__3514338_37);
 return;
 }
 }
@@ -4100,9 +4100,9 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513305_37 = PRIM_ISCONS(v_x);
-coraReturn(co, v__3513305_37);
+Obj v__3514337_37 = R[1];
+Obj v__3514722_37 = PRIM_ISCONS(v__3514337_37);
+coraReturn(co, v__3514722_37);
 return;
 }
 }
@@ -4112,14 +4112,14 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513297_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513297_37) {
-Obj v__3513298_37 = PRIM_CAR(v_exp);
-Obj v__3513299_37 = PRIM_CDR(v_exp);
-R[1] = v__3513298_37;
+Obj v__3514336_37 = R[1];
+Obj v__3514714_37 = PRIM_ISCONS(v__3514336_37);
+if (True == v__3514714_37) {
+Obj v__3514715_37 = PRIM_CAR(v__3514336_37);
+Obj v__3514716_37 = PRIM_CDR(v__3514336_37);
+R[1] = v__3514715_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513299_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514716_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4128,12 +4128,12 @@ return;
 }
 case 1:
 {
-Obj v__3513300_37= co->res;
-Obj v__3513298_37 = R[1];
-Obj v__3513301_37 = makeCons(co->gc, v__3513300_37, Nil);
-Obj v__3513302_37 = makeCons(co->gc, v__3513298_37, v__3513301_37);
-Obj v__3513303_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513302_37);
-coraReturn(co, v__3513303_37);
+Obj v__3514717_37= co->res;
+Obj v__3514715_37 = R[1];
+Obj v__3514718_37 = makeCons(co->gc, v__3514717_37, Nil);
+Obj v__3514719_37 = makeCons(co->gc, v__3514715_37, v__3514718_37);
+Obj v__3514720_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3514719_37);
+coraReturn(co, v__3514720_37);
 return;
 }
 }
@@ -4143,11 +4143,11 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513293_37 = PRIM_CDR(v_x);
-Obj v__3513294_37 = PRIM_CDR(v__3513293_37);
-Obj v__3513295_37 = PRIM_CDR(v__3513294_37);
-coraReturn(co, v__3513295_37);
+Obj v__3514335_37 = R[1];
+Obj v__3514710_37 = PRIM_CDR(v__3514335_37);
+Obj v__3514711_37 = PRIM_CDR(v__3514710_37);
+Obj v__3514712_37 = PRIM_CDR(v__3514711_37);
+coraReturn(co, v__3514712_37);
 return;
 }
 }
@@ -4157,12 +4157,12 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513288_37 = PRIM_CDR(v_x);
-Obj v__3513289_37 = PRIM_CDR(v__3513288_37);
-Obj v__3513290_37 = PRIM_CDR(v__3513289_37);
-Obj v__3513291_37 = PRIM_CAR(v__3513290_37);
-coraReturn(co, v__3513291_37);
+Obj v__3514334_37 = R[1];
+Obj v__3514705_37 = PRIM_CDR(v__3514334_37);
+Obj v__3514706_37 = PRIM_CDR(v__3514705_37);
+Obj v__3514707_37 = PRIM_CDR(v__3514706_37);
+Obj v__3514708_37 = PRIM_CAR(v__3514707_37);
+coraReturn(co, v__3514708_37);
 return;
 }
 }
@@ -4172,11 +4172,11 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513284_37 = PRIM_CDR(v_x);
-Obj v__3513285_37 = PRIM_CDR(v__3513284_37);
-Obj v__3513286_37 = PRIM_CAR(v__3513285_37);
-coraReturn(co, v__3513286_37);
+Obj v__3514333_37 = R[1];
+Obj v__3514701_37 = PRIM_CDR(v__3514333_37);
+Obj v__3514702_37 = PRIM_CDR(v__3514701_37);
+Obj v__3514703_37 = PRIM_CAR(v__3514702_37);
+coraReturn(co, v__3514703_37);
 return;
 }
 }
@@ -4186,10 +4186,10 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513281_37 = PRIM_CDR(v_x);
-Obj v__3513282_37 = PRIM_CDR(v__3513281_37);
-coraReturn(co, v__3513282_37);
+Obj v__3514332_37 = R[1];
+Obj v__3514698_37 = PRIM_CDR(v__3514332_37);
+Obj v__3514699_37 = PRIM_CDR(v__3514698_37);
+coraReturn(co, v__3514699_37);
 return;
 }
 }
@@ -4199,10 +4199,10 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513278_37 = PRIM_CAR(v_x);
-Obj v__3513279_37 = PRIM_CDR(v__3513278_37);
-coraReturn(co, v__3513279_37);
+Obj v__3514331_37 = R[1];
+Obj v__3514695_37 = PRIM_CAR(v__3514331_37);
+Obj v__3514696_37 = PRIM_CDR(v__3514695_37);
+coraReturn(co, v__3514696_37);
 return;
 }
 }
@@ -4212,10 +4212,10 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513275_37 = PRIM_CAR(v_x);
-Obj v__3513276_37 = PRIM_CAR(v__3513275_37);
-coraReturn(co, v__3513276_37);
+Obj v__3514330_37 = R[1];
+Obj v__3514692_37 = PRIM_CAR(v__3514330_37);
+Obj v__3514693_37 = PRIM_CAR(v__3514692_37);
+coraReturn(co, v__3514693_37);
 return;
 }
 }
@@ -4225,10 +4225,10 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513272_37 = PRIM_CDR(v_x);
-Obj v__3513273_37 = PRIM_CAR(v__3513272_37);
-coraReturn(co, v__3513273_37);
+Obj v__3514329_37 = R[1];
+Obj v__3514689_37 = PRIM_CDR(v__3514329_37);
+Obj v__3514690_37 = PRIM_CAR(v__3514689_37);
+coraReturn(co, v__3514690_37);
 return;
 }
 }
@@ -4238,9 +4238,9 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513270_37 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v__3513270_37);
+Obj v__3514328_37 = R[1];
+Obj v__3514687_37 = PRIM_EQ(v__3514328_37, Nil);
+coraReturn(co, v__3514687_37);
 return;
 }
 }
diff --git a/lib/peval.cora b/lib/peval.cora
index a9bf083..09c025a 100644
--- a/lib/peval.cora
+++ b/lib/peval.cora
@@ -23,10 +23,25 @@
 	       ['cons _ ()] => 1
 	       ['cons _ more] => (+ 1 (const-list-length more)))
 
-	 (defun shrink-env (params env)
-	   (filter (lambda (kv)
-		     (not (member (car kv) params)))
-		   env))
+	 ;; evaluating exp does nothing but make its value
+	 (func pure?
+	       ['lambda _ _] => true
+	       ['cons x y] => (and (pure? x) (pure? y))
+	       x => (or (const? x) (symbol? x)))
+
+	 ;; env: the variables in scope, each with what replaces it.
+	 ;; The variables of the result have new names, so that an expression put in the place of
+	 ;; a variable means the same there, and all symbols that are not in env are global.
+	 (func new-names
+	       [] env k => (k () env)
+	       [x . more] env k => (let x1 (gensym)
+					(new-names more (cons (cons x x1) env)
+						   (lambda (more1 env1)
+						     (k (cons x1 more1) env1)))))
+
+	 (func local?
+	       x [] => false
+	       x [[_ . y] . more] => (if (= x y) true (local? x more)))
 
 	 (func peval
 	       env x => (let find (assq x env)
@@ -43,7 +58,9 @@
 				     (if (and (cons? a1) (= (car a1) 'lambda))
 					 (peval env b)
 					 ['do a1 (peval env b)]))
-	       env ['lambda params body] => ['lambda params (peval (shrink-env params env) body)]
+	       env ['lambda params body] => (new-names params env
+						       (lambda (params1 env1)
+							 ['lambda params1 (peval env1 body)]))
 	       env ['let a b c] => (peval-let a (peval env b) c env)
 	       env [f . args] => (peval-app (map (peval env) [f . args]) env)
 	       env x => x)
@@ -71,18 +88,19 @@
 
 	 (defun peval-let (var val body env)
 	   (if (or (const? val)            ;; val is const
-		   (symbol? val)           ;; val is symbol
+		   (and (symbol? val) (local? val env)) ;; val is a variable, not a global that may change
 		   (and (const-list? val) (< (const-list-length val) 3))) ;; val is short const list
 	       (peval [(cons var val) . env] body)
 	       (let refs (ref-count var body)
 		    safe (side-effect-free? val)
 		    (cond
 		      ((= refs 0) ;; var is not really used
-		       (if safe (peval env body) 
+		       (if (or safe (symbol? val)) (peval env body)
 			   ['do val (peval env body)]))
 		      ((and (= refs 1) safe) ;; var is used exactly once and val is side effect free
 		       (peval [(cons var val) . env] body))
-		      (true ['let var val (peval (shrink-env [var] env) body)])))))
+		      (true (let var1 (gensym)
+				 ['let var1 val (peval [(cons var var1) . env] body)]))))))
 		      
 	 ;; collect the static const to env
 	 (defun extend-env (params args env k)
@@ -97,23 +115,25 @@
 
 	 (func peval-apply-lambda
 	       [] [] body => body
+	       [] args body => [body . args]
 	       params [] body => ['lambda params body]
 	       params args body => [['lambda params body] . args])
 
 	 (func peval-app
-	       ['cons? ['cons _ _]] env => true
-	       ['car ['cons x _]] env => x
-	       ['cdr ['cons _ x]] env => x
+	       ['cons? ['cons x y]] env => true where (and (pure? x) (pure? y))
+	       ['car ['cons x y]] env => x where (pure? y)
+	       ['cdr ['cons y x]] env => x where (pure? y)
 	       ['and true true] env => true
 	       ['null? ()] env => true
-	       ['null? ['cons _ _]] env => false
+	       ['null? ['cons x y]] env => false where (and (pure? x) (pure? y))
 	       ['not true] env => false
 	       ['not false] env => true
 	       ['+ x y] env => (+ x y) where (and (number? x) (number? y))
 	       ['- x y] env => (- x y) where (and (number? x) (number? y))
-	       [['lambda params body] . args] env => (extend-env params args env
+	       ;; the body is evaluated already, except for the const args
+	       [['lambda params body] . args] env => (extend-env params args ()
 								 (lambda (params1 args1 env1)
-								   (let body1 (peval (shrink-env params1 env1) body)
+								   (let body1 (peval env1 body)
 									(peval-apply-lambda params1 args1 body1))))
 	       x env => x)
 
diff --git a/lib/toc.c b/lib/toc.c
index 9759c2b..5b9717b 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -306,154 +306,154 @@ return;
 }
 case 1:
 {
-Obj v__3519258_37= co->res;
-Obj v__3519264_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun115, 2, 0));
-Obj v__3519270_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun116, 2, 0));
-Obj v__3519292_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun118, 3, 0));
-Obj v__3519313_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun120, 4, 0));
-Obj v__3519326_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun123, 3, 0));
-Obj v__3519368_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun128, 1, 0));
-Obj v__3519407_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun131, 4, 0));
-Obj v__3519459_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun136, 2, 0));
-Obj v__3519460_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun137, 2, 0));
-Obj v__3519474_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun145, 1, 0));
-Obj v__3519475_37 = primSet(co, getBinding(co, packageID, 8).name, False);
-Obj v__3519479_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun147, 1, 0));
-Obj v__3519491_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun148, 2, 0));
-Obj v__3519494_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun149, 2, 0));
-coraReturn(co, v__3519494_37);
+Obj v__3521362_37= co->res;
+Obj v__3521368_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun115, 2, 0));
+Obj v__3521374_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun116, 2, 0));
+Obj v__3521396_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun118, 3, 0));
+Obj v__3521417_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun120, 4, 0));
+Obj v__3521430_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun123, 3, 0));
+Obj v__3521472_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun128, 1, 0));
+Obj v__3521511_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun131, 4, 0));
+Obj v__3521563_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun136, 2, 0));
+Obj v__3521564_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun137, 2, 0));
+Obj v__3521578_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun145, 1, 0));
+Obj v__3521579_37 = primSet(co, getBinding(co, packageID, 8).name, False);
+Obj v__3521583_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun147, 1, 0));
+Obj v__3521595_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun148, 2, 0));
+Obj v__3521598_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun149, 2, 0));
+coraReturn(co, v__3521598_37);
 return;
 }
 case 2:
 {
-Obj v__3517852_37= co->res;
-Obj v__3517853_37 = primSet(co, getBinding(co, packageID, 132).name, Nil);
-Obj v__3517868_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v__3517874_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v__3517884_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v__3517885_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v__3517892_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v__3517893_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3517894_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517893_37);
-Obj v__3517895_37 = makeCons(co->gc, getBinding(co, packageID, 124).name, v__3517894_37);
-Obj v__3517896_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3517897_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517896_37);
-Obj v__3517898_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, v__3517897_37);
-Obj v__3517899_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3517900_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517899_37);
-Obj v__3517901_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3517900_37);
-Obj v__3517902_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3517903_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517902_37);
-Obj v__3517904_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517903_37);
-Obj v__3517905_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3517906_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517905_37);
-Obj v__3517907_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517906_37);
-Obj v__3517908_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3517909_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517908_37);
-Obj v__3517910_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517909_37);
-Obj v__3517911_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3517912_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517911_37);
-Obj v__3517913_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517912_37);
-Obj v__3517914_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3517915_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517914_37);
-Obj v__3517916_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517915_37);
-Obj v__3517917_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3517918_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517917_37);
-Obj v__3517919_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517918_37);
-Obj v__3517920_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3517921_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517920_37);
-Obj v__3517922_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517921_37);
-Obj v__3517923_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3517924_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517923_37);
-Obj v__3517925_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517924_37);
-Obj v__3517926_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3517927_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517926_37);
-Obj v__3517928_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517927_37);
-Obj v__3517929_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3517930_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517929_37);
-Obj v__3517931_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517930_37);
-Obj v__3517932_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3517933_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517932_37);
-Obj v__3517934_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517933_37);
-Obj v__3517935_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3517936_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517935_37);
-Obj v__3517937_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517936_37);
-Obj v__3517938_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3517939_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517938_37);
-Obj v__3517940_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517939_37);
-Obj v__3517941_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3517942_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517941_37);
-Obj v__3517943_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517942_37);
-Obj v__3517944_37 = makeCons(co->gc, v__3517943_37, Nil);
-Obj v__3517945_37 = makeCons(co->gc, v__3517940_37, v__3517944_37);
-Obj v__3517946_37 = makeCons(co->gc, v__3517937_37, v__3517945_37);
-Obj v__3517947_37 = makeCons(co->gc, v__3517934_37, v__3517946_37);
-Obj v__3517948_37 = makeCons(co->gc, v__3517931_37, v__3517947_37);
-Obj v__3517949_37 = makeCons(co->gc, v__3517928_37, v__3517948_37);
-Obj v__3517950_37 = makeCons(co->gc, v__3517925_37, v__3517949_37);
-Obj v__3517951_37 = makeCons(co->gc, v__3517922_37, v__3517950_37);
-Obj v__3517952_37 = makeCons(co->gc, v__3517919_37, v__3517951_37);
-Obj v__3517953_37 = makeCons(co->gc, v__3517916_37, v__3517952_37);
-Obj v__3517954_37 = makeCons(co->gc, v__3517913_37, v__3517953_37);
-Obj v__3517955_37 = makeCons(co->gc, v__3517910_37, v__3517954_37);
-Obj v__3517956_37 = makeCons(co->gc, v__3517907_37, v__3517955_37);
-Obj v__3517957_37 = makeCons(co->gc, v__3517904_37, v__3517956_37);
-Obj v__3517958_37 = makeCons(co->gc, v__3517901_37, v__3517957_37);
-Obj v__3517959_37 = makeCons(co->gc, v__3517898_37, v__3517958_37);
-Obj v__3517960_37 = makeCons(co->gc, v__3517895_37, v__3517959_37);
-Obj v__3517961_37 = primSet(co, getBinding(co, packageID, 125).name, v__3517960_37);
-Obj v__3517965_37 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3517968_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3517971_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3517976_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v__3517990_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun13, 3, 0));
-Obj v__3518192_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun24, 3, 0));
-Obj v__3518203_37 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 4, clofun26, 2, 0));
-Obj v__3518214_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun28, 2, 0));
-Obj v__3518275_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun35, 1, 0));
-Obj v__3518450_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj v__3518525_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun49, 2, 0));
-Obj v__3518528_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun50, 1, 0));
-Obj v__3518665_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun59, 2, 0));
-Obj v__3518688_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun62, 3, 0));
-Obj v__3518765_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun66, 2, 0));
-Obj v__3518796_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun70, 3, 0));
-Obj v__3518802_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun73, 4, 0));
-Obj v__3518807_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun75, 2, 0));
-Obj v__3518816_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun77, 1, 0));
-Obj v__3518867_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun79, 2, 0));
-Obj v__3518875_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun80, 2, 0));
-Obj v__3518882_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun81, 2, 0));
-Obj v__3518887_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun82, 2, 0));
-Obj v__3518893_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun83, 3, 0));
-Obj v__3518894_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun84, 2, 0));
-Obj v__3518901_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun86, 5, 0));
-Obj v__3518908_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun88, 5, 0));
-Obj v__3519195_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun101, 5, 0));
-Obj v__3519209_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun103, 5, 0));
-Obj v__3519231_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun105, 5, 0));
-Obj v__3519233_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun106, 2, 0));
-Obj v__3519237_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun107, 2, 0));
-Obj v__3519238_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun108, 2, 0));
-Obj v__3519239_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun109, 1, 0));
-Obj v__3519240_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun110, 1, 0));
-Obj v__3519241_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun111, 1, 0));
-Obj v__3519248_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun112, 1, 0));
-Obj v__3519255_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v__3519956_37= co->res;
+Obj v__3519957_37 = primSet(co, getBinding(co, packageID, 132).name, Nil);
+Obj v__3519972_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3519978_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3519988_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3519989_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3519996_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3519997_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3519998_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3519997_37);
+Obj v__3519999_37 = makeCons(co->gc, getBinding(co, packageID, 124).name, v__3519998_37);
+Obj v__3520000_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3520001_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520000_37);
+Obj v__3520002_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, v__3520001_37);
+Obj v__3520003_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3520004_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520003_37);
+Obj v__3520005_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3520004_37);
+Obj v__3520006_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3520007_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520006_37);
+Obj v__3520008_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3520007_37);
+Obj v__3520009_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3520010_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520009_37);
+Obj v__3520011_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3520010_37);
+Obj v__3520012_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3520013_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520012_37);
+Obj v__3520014_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520013_37);
+Obj v__3520015_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3520016_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520015_37);
+Obj v__3520017_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520016_37);
+Obj v__3520018_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3520019_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520018_37);
+Obj v__3520020_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3520019_37);
+Obj v__3520021_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3520022_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520021_37);
+Obj v__3520023_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3520022_37);
+Obj v__3520024_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3520025_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520024_37);
+Obj v__3520026_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3520025_37);
+Obj v__3520027_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3520028_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520027_37);
+Obj v__3520029_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3520028_37);
+Obj v__3520030_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3520031_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520030_37);
+Obj v__3520032_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3520031_37);
+Obj v__3520033_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3520034_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3520033_37);
+Obj v__3520035_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3520034_37);
+Obj v__3520036_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3520037_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520036_37);
+Obj v__3520038_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3520037_37);
+Obj v__3520039_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3520040_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520039_37);
+Obj v__3520041_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3520040_37);
+Obj v__3520042_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3520043_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520042_37);
+Obj v__3520044_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3520043_37);
+Obj v__3520045_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3520046_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520045_37);
+Obj v__3520047_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3520046_37);
+Obj v__3520048_37 = makeCons(co->gc, v__3520047_37, Nil);
+Obj v__3520049_37 = makeCons(co->gc, v__3520044_37, v__3520048_37);
+Obj v__3520050_37 = makeCons(co->gc, v__3520041_37, v__3520049_37);
+Obj v__3520051_37 = makeCons(co->gc, v__3520038_37, v__3520050_37);
+Obj v__3520052_37 = makeCons(co->gc, v__3520035_37, v__3520051_37);
+Obj v__3520053_37 = makeCons(co->gc, v__3520032_37, v__3520052_37);
+Obj v__3520054_37 = makeCons(co->gc, v__3520029_37, v__3520053_37);
+Obj v__3520055_37 = makeCons(co->gc, v__3520026_37, v__3520054_37);
+Obj v__3520056_37 = makeCons(co->gc, v__3520023_37, v__3520055_37);
+Obj v__3520057_37 = makeCons(co->gc, v__3520020_37, v__3520056_37);
+Obj v__3520058_37 = makeCons(co->gc, v__3520017_37, v__3520057_37);
+Obj v__3520059_37 = makeCons(co->gc, v__3520014_37, v__3520058_37);
+Obj v__3520060_37 = makeCons(co->gc, v__3520011_37, v__3520059_37);
+Obj v__3520061_37 = makeCons(co->gc, v__3520008_37, v__3520060_37);
+Obj v__3520062_37 = makeCons(co->gc, v__3520005_37, v__3520061_37);
+Obj v__3520063_37 = makeCons(co->gc, v__3520002_37, v__3520062_37);
+Obj v__3520064_37 = makeCons(co->gc, v__3519999_37, v__3520063_37);
+Obj v__3520065_37 = primSet(co, getBinding(co, packageID, 125).name, v__3520064_37);
+Obj v__3520069_37 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3520072_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3520075_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3520080_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3520094_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun13, 3, 0));
+Obj v__3520296_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun24, 3, 0));
+Obj v__3520307_37 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj v__3520318_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun28, 2, 0));
+Obj v__3520379_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun35, 1, 0));
+Obj v__3520554_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj v__3520629_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun49, 2, 0));
+Obj v__3520632_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun50, 1, 0));
+Obj v__3520769_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun59, 2, 0));
+Obj v__3520792_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun62, 3, 0));
+Obj v__3520869_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun66, 2, 0));
+Obj v__3520900_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun70, 3, 0));
+Obj v__3520906_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun73, 4, 0));
+Obj v__3520911_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun75, 2, 0));
+Obj v__3520920_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun77, 1, 0));
+Obj v__3520971_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun79, 2, 0));
+Obj v__3520979_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun80, 2, 0));
+Obj v__3520986_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3520991_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun82, 2, 0));
+Obj v__3520997_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun83, 3, 0));
+Obj v__3520998_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun84, 2, 0));
+Obj v__3521005_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun86, 5, 0));
+Obj v__3521012_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun88, 5, 0));
+Obj v__3521299_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun101, 5, 0));
+Obj v__3521313_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun103, 5, 0));
+Obj v__3521335_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun105, 5, 0));
+Obj v__3521337_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun106, 2, 0));
+Obj v__3521341_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun107, 2, 0));
+Obj v__3521342_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun108, 2, 0));
+Obj v__3521343_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj v__3521344_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj v__3521345_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun111, 1, 0));
+Obj v__3521352_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun112, 1, 0));
+Obj v__3521359_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun113, 2, 0));
 saveCont(co, clofun150, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), getBinding(co, packageID, 32).name, makeNative(co->gc, 2, clofun114, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3517851_37= co->res;
+Obj v__3519955_37= co->res;
 saveCont(co, clofun150, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v__3517850_37= co->res;
+Obj v__3519954_37= co->res;
 saveCont(co, clofun150, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -465,21 +465,21 @@ static void clofun149(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_from = R[1];
-Obj v_to = R[2];
-R[1] = v_to;
+Obj v__3519677_37 = R[1];
+Obj v__3519678_37 = R[2];
+R[1] = v__3519678_37;
 saveCont(co, clofun149, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v_from);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3519677_37);
 return;
 }
 case 1:
 {
-Obj v__3519493_37= co->res;
-Obj v__3517849_37 = R[1];
-Obj v_to = R[2];
-if (True == v__3519493_37) {
+Obj v__3521597_37= co->res;
+Obj v__3519953_37 = R[1];
+Obj v__3519678_37 = R[2];
+if (True == v__3521597_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), v__3517849_37, v_to);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), v__3519953_37, v__3519678_37);
 return;
 } else {
 coraReturn(co, False);
@@ -488,13 +488,13 @@ return;
 }
 case 2:
 {
-Obj v__3519492_37= co->res;
-Obj v_to = R[1];
-Obj v__3517849_37 = v__3519492_37;
-R[1] = v__3517849_37;
-R[2] = v_to;
+Obj v__3521596_37= co->res;
+Obj v__3519678_37 = R[1];
+Obj v__3519953_37 = v__3521596_37;
+R[1] = v__3519953_37;
+R[2] = v__3519678_37;
 saveCont(co, clofun149, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517849_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519953_37);
 return;
 }
 }
@@ -504,108 +504,108 @@ static void clofun148(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v_to = R[2];
-Obj v__3519480_37 = primGenSym(co);
-Obj v__3517846_37 = v__3519480_37;
-Obj v__3519481_37 = primSet(co, v__3517846_37, Nil);
-R[1] = v_exp;
-R[2] = v_to;
-R[3] = v__3517846_37;
+Obj v__3519672_37 = R[1];
+Obj v__3519673_37 = R[2];
+Obj v__3521584_37 = primGenSym(co);
+Obj v__3519950_37 = v__3521584_37;
+Obj v__3521585_37 = primSet(co, v__3519950_37, Nil);
+R[1] = v__3519672_37;
+R[2] = v__3519673_37;
+R[3] = v__3519950_37;
 saveCont(co, clofun148, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v__3517846_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v__3519950_37);
 return;
 }
 case 1:
 {
-Obj v__3519489_37= co->res;
-Obj v__3519490_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519489_37);
-coraReturn(co, v__3519490_37);
+Obj v__3521593_37= co->res;
+Obj v__3521594_37 = PRIM_EQ(MAKE_NUMBER(0), v__3521593_37);
+coraReturn(co, v__3521594_37);
 return;
 }
 case 2:
 {
-Obj v__3519488_37= co->res;
-Obj v__3517848_37 = R[1];
+Obj v__3521592_37= co->res;
+Obj v__3519952_37 = R[1];
 saveCont(co, clofun148, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3519952_37);
 return;
 }
 case 3:
 {
-Obj v__3519487_37= co->res;
-Obj v__3517847_37 = R[1];
-Obj v__3517848_37 = R[2];
-R[1] = v__3517848_37;
+Obj v__3521591_37= co->res;
+Obj v__3519951_37 = R[1];
+Obj v__3519952_37 = R[2];
+R[1] = v__3519952_37;
 saveCont(co, clofun148, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v__3517848_37, v__3517847_37, v__3519487_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v__3519952_37, v__3519951_37, v__3521591_37);
 return;
 }
 case 4:
 {
-Obj v__3519486_37= co->res;
-Obj v__3517846_37 = R[1];
-Obj v__3517847_37 = R[2];
-Obj v__3517848_37 = R[3];
-if (True == v__3519486_37) {
+Obj v__3521590_37= co->res;
+Obj v__3519950_37 = R[1];
+Obj v__3519951_37 = R[2];
+Obj v__3519952_37 = R[3];
+if (True == v__3521590_37) {
 coraReturn(co, False);
 return;
 } else {
-R[1] = v__3517847_37;
-R[2] = v__3517848_37;
+R[1] = v__3519951_37;
+R[2] = v__3519952_37;
 saveCont(co, clofun148, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517846_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519950_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3519485_37= co->res;
-Obj v__3517846_37 = R[1];
-Obj v__3517847_37 = R[2];
-Obj v__3517848_37 = v__3519485_37;
-R[1] = v__3517846_37;
-R[2] = v__3517847_37;
-R[3] = v__3517848_37;
+Obj v__3521589_37= co->res;
+Obj v__3519950_37 = R[1];
+Obj v__3519951_37 = R[2];
+Obj v__3519952_37 = v__3521589_37;
+R[1] = v__3519950_37;
+R[2] = v__3519951_37;
+R[3] = v__3519952_37;
 saveCont(co, clofun148, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519952_37);
 return;
 }
 case 6:
 {
-Obj v__3519484_37= co->res;
-Obj v_to = R[1];
-Obj v__3517846_37 = R[2];
-Obj v__3517847_37 = v__3519484_37;
-R[1] = v__3517846_37;
-R[2] = v__3517847_37;
+Obj v__3521588_37= co->res;
+Obj v__3519673_37 = R[1];
+Obj v__3519950_37 = R[2];
+Obj v__3519951_37 = v__3521588_37;
+R[1] = v__3519950_37;
+R[2] = v__3519951_37;
 saveCont(co, clofun148, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v_to);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519673_37);
 return;
 }
 case 7:
 {
-Obj v__3519483_37= co->res;
-Obj v__3519482_37 = R[1];
-Obj v_to = R[2];
-Obj v__3517846_37 = R[3];
-R[1] = v_to;
-R[2] = v__3517846_37;
+Obj v__3521587_37= co->res;
+Obj v__3521586_37 = R[1];
+Obj v__3519673_37 = R[2];
+Obj v__3519950_37 = R[3];
+R[1] = v__3519673_37;
+R[2] = v__3519950_37;
 saveCont(co, clofun148, 6, R);
-coraCall1(co, v__3519482_37, v__3519483_37);
+coraCall1(co, v__3521586_37, v__3521587_37);
 return;
 }
 case 8:
 {
-Obj v__3519482_37= co->res;
-Obj v_exp = R[1];
-Obj v_to = R[2];
-Obj v__3517846_37 = R[3];
-R[1] = v__3519482_37;
-R[2] = v_to;
-R[3] = v__3517846_37;
+Obj v__3521586_37= co->res;
+Obj v__3519672_37 = R[1];
+Obj v__3519673_37 = R[2];
+Obj v__3519950_37 = R[3];
+R[1] = v__3521586_37;
+R[2] = v__3519673_37;
+R[3] = v__3519950_37;
 saveCont(co, clofun148, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 3)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 3)), v__3519672_37);
 return;
 }
 }
@@ -615,50 +615,50 @@ static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_file_45path = R[1];
+Obj v__3519670_37 = R[1];
 saveCont(co, clofun147, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_file_45path);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v__3519670_37);
 return;
 }
 case 1:
 {
-Obj v__3519478_37= co->res;
-Obj v__3517845_37 = R[1];
-if (True == v__3519478_37) {
+Obj v__3521582_37= co->res;
+Obj v__3519949_37 = R[1];
+if (True == v__3521582_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517845_37, True);
+coraCall1(co, v__3519949_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517845_37, False);
+coraCall1(co, v__3519949_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3519477_37= co->res;
-Obj v__3517842_37 = R[1];
-Obj v__3517845_37 = R[2];
-if (True == v__3519477_37) {
-R[1] = v__3517845_37;
+Obj v__3521581_37= co->res;
+Obj v__3519946_37 = R[1];
+Obj v__3519949_37 = R[2];
+if (True == v__3521581_37) {
+R[1] = v__3519949_37;
 saveCont(co, clofun147, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517842_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519946_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517845_37, False);
+coraCall1(co, v__3519949_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3519476_37= co->res;
-Obj v__3517842_37 = v__3519476_37;
-Obj v__3517845_37 = makeNative(co->gc, 2, clofun146, 1, 1, v__3517842_37);
-R[1] = v__3517842_37;
-R[2] = v__3517845_37;
+Obj v__3521580_37= co->res;
+Obj v__3519946_37 = v__3521580_37;
+Obj v__3519949_37 = makeNative(co->gc, 2, clofun146, 1, 1, v__3519946_37);
+R[1] = v__3519946_37;
+R[2] = v__3519949_37;
 saveCont(co, clofun147, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517842_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519946_37);
 return;
 }
 }
@@ -668,8 +668,8 @@ static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517844_37 = R[1];
-if (True == v__3517844_37) {
+Obj v__3519948_37 = R[1];
+if (True == v__3519948_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 7)), closureRef(R[0], 0));
 return;
@@ -685,27 +685,27 @@ static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517572_37 = R[1];
-Obj v__3517838_37 = makeNative(co->gc, 1, clofun142, 0, 1, v__3517572_37);
-Obj v__3519469_37 = PRIM_ISCONS(v__3517572_37);
-if (True == v__3519469_37) {
-Obj v__3519470_37 = PRIM_CAR(v__3517572_37);
-Obj v__3519471_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519470_37);
-if (True == v__3519471_37) {
-Obj v__3519472_37 = PRIM_CDR(v__3517572_37);
-Obj v__3517841_37 = v__3519472_37;
-Obj v__3519473_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517841_37);
+Obj v__3519657_37 = R[1];
+Obj v__3519942_37 = makeNative(co->gc, 1, clofun142, 0, 1, v__3519657_37);
+Obj v__3521573_37 = PRIM_ISCONS(v__3519657_37);
+if (True == v__3521573_37) {
+Obj v__3521574_37 = PRIM_CAR(v__3519657_37);
+Obj v__3521575_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521574_37);
+if (True == v__3521575_37) {
+Obj v__3521576_37 = PRIM_CDR(v__3519657_37);
+Obj v__3519945_37 = v__3521576_37;
+Obj v__3521577_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519945_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519473_37, makeNative(co->gc, 2, clofun144, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3521577_37, makeNative(co->gc, 2, clofun144, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517838_37);
+coraCall0(co, v__3519942_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517838_37);
+coraCall0(co, v__3519942_37);
 return;
 }
 }
@@ -716,9 +716,9 @@ static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_body = R[1];
+Obj v__3519667_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun143, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519667_37, Nil, Nil, makeNative(co->gc, 3, clofun143, 2, 0));
 return;
 }
 }
@@ -728,10 +728,10 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_type = R[1];
-Obj v_code = R[2];
+Obj v__3519668_37 = R[1];
+Obj v__3519669_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519668_37, v__3519669_37);
 return;
 }
 }
@@ -741,26 +741,26 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517839_37 = makeNative(co->gc, 1, clofun139, 0, 1, closureRef(R[0], 0));
-Obj v__3519464_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519464_37) {
-Obj v__3519465_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519466_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519465_37);
-if (True == v__3519466_37) {
-Obj v__3519467_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517840_37 = v__3519467_37;
-Obj v__3519468_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517840_37);
+Obj v__3519943_37 = makeNative(co->gc, 1, clofun139, 0, 1, closureRef(R[0], 0));
+Obj v__3521568_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521568_37) {
+Obj v__3521569_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521570_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521569_37);
+if (True == v__3521570_37) {
+Obj v__3521571_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519944_37 = v__3521571_37;
+Obj v__3521572_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519944_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519468_37, makeNative(co->gc, 2, clofun141, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3521572_37, makeNative(co->gc, 2, clofun141, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517839_37);
+coraCall0(co, v__3519943_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517839_37);
+coraCall0(co, v__3519943_37);
 return;
 }
 }
@@ -771,9 +771,9 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_body = R[1];
+Obj v__3519662_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519662_37, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
 return;
 }
 }
@@ -783,10 +783,10 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_type = R[1];
-Obj v_code = R[2];
+Obj v__3519663_37 = R[1];
+Obj v__3519664_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519663_37, v__3519664_37);
 return;
 }
 }
@@ -796,9 +796,9 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519461_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3521565_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519461_37, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3521565_37, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
 return;
 }
 }
@@ -808,17 +808,17 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_type = R[1];
-Obj v_code = R[2];
+Obj v__3519658_37 = R[1];
+Obj v__3519659_37 = R[2];
 saveCont(co, clofun138, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519658_37, v__3519659_37);
 return;
 }
 case 1:
 {
-Obj v__3519462_37= co->res;
-Obj v__3519463_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519462_37);
-coraReturn(co, v__3519463_37);
+Obj v__3521566_37= co->res;
+Obj v__3521567_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3521566_37);
+coraReturn(co, v__3521567_37);
 return;
 }
 }
@@ -828,14 +828,14 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_type = R[1];
-Obj v_code = R[2];
+Obj v__3519655_37 = R[1];
+Obj v__3519656_37 = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 8))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3519655_37, v__3519656_37);
 return;
 } else {
-coraReturn(co, v_code);
+coraReturn(co, v__3519656_37);
 return;
 }
 }
@@ -846,50 +846,50 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517565_37 = R[1];
-Obj v__3517566_37 = R[2];
-Obj v__3517827_37 = makeNative(co->gc, 2, clofun135, 0, 2, v__3517565_37, v__3517566_37);
-Obj v__3519447_37 = PRIM_ISCONS(v__3517565_37);
-if (True == v__3519447_37) {
-Obj v__3519448_37 = PRIM_CAR(v__3517565_37);
-Obj v__3519449_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519448_37);
-if (True == v__3519449_37) {
-Obj v__3519450_37 = PRIM_CDR(v__3517565_37);
-Obj v__3519451_37 = PRIM_ISCONS(v__3519450_37);
-if (True == v__3519451_37) {
-Obj v__3519452_37 = PRIM_CDR(v__3517565_37);
-Obj v__3519453_37 = PRIM_CAR(v__3519452_37);
-Obj v__3517836_37 = v__3519453_37;
-Obj v__3519454_37 = PRIM_CDR(v__3517565_37);
-Obj v__3519455_37 = PRIM_CDR(v__3519454_37);
-Obj v__3517837_37 = v__3519455_37;
-R[1] = v__3517836_37;
+Obj v__3519642_37 = R[1];
+Obj v__3519643_37 = R[2];
+Obj v__3519931_37 = makeNative(co->gc, 2, clofun135, 0, 2, v__3519642_37, v__3519643_37);
+Obj v__3521551_37 = PRIM_ISCONS(v__3519642_37);
+if (True == v__3521551_37) {
+Obj v__3521552_37 = PRIM_CAR(v__3519642_37);
+Obj v__3521553_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521552_37);
+if (True == v__3521553_37) {
+Obj v__3521554_37 = PRIM_CDR(v__3519642_37);
+Obj v__3521555_37 = PRIM_ISCONS(v__3521554_37);
+if (True == v__3521555_37) {
+Obj v__3521556_37 = PRIM_CDR(v__3519642_37);
+Obj v__3521557_37 = PRIM_CAR(v__3521556_37);
+Obj v__3519940_37 = v__3521557_37;
+Obj v__3521558_37 = PRIM_CDR(v__3519642_37);
+Obj v__3521559_37 = PRIM_CDR(v__3521558_37);
+Obj v__3519941_37 = v__3521559_37;
+R[1] = v__3519940_37;
 saveCont(co, clofun136, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517837_37, v__3517566_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519941_37, v__3519643_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517827_37);
+coraCall0(co, v__3519931_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517827_37);
+coraCall0(co, v__3519931_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517827_37);
+coraCall0(co, v__3519931_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519456_37= co->res;
-Obj v__3517836_37 = R[1];
-Obj v__3519457_37 = makeCons(co->gc, v__3517836_37, v__3519456_37);
-Obj v__3519458_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519457_37);
-coraReturn(co, v__3519458_37);
+Obj v__3521560_37= co->res;
+Obj v__3519940_37 = R[1];
+Obj v__3521561_37 = makeCons(co->gc, v__3519940_37, v__3521560_37);
+Obj v__3521562_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521561_37);
+coraReturn(co, v__3521562_37);
 return;
 }
 }
@@ -899,69 +899,69 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517828_37 = makeNative(co->gc, 2, clofun134, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519426_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519426_37) {
-Obj v__3519427_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519428_37 = PRIM_ISCONS(v__3519427_37);
-if (True == v__3519428_37) {
-Obj v__3519429_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519430_37 = PRIM_CAR(v__3519429_37);
-Obj v__3519431_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3519430_37);
-if (True == v__3519431_37) {
-Obj v__3519432_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519433_37 = PRIM_CDR(v__3519432_37);
-Obj v__3519434_37 = PRIM_ISCONS(v__3519433_37);
-if (True == v__3519434_37) {
-Obj v__3519435_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519436_37 = PRIM_CDR(v__3519435_37);
-Obj v__3519437_37 = PRIM_CAR(v__3519436_37);
-Obj v__3517834_37 = v__3519437_37;
-Obj v__3519438_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519439_37 = PRIM_CDR(v__3519438_37);
-Obj v__3519440_37 = PRIM_CDR(v__3519439_37);
-Obj v__3519441_37 = PRIM_EQ(Nil, v__3519440_37);
-if (True == v__3519441_37) {
-Obj v__3519442_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517835_37 = v__3519442_37;
-Obj v__3519443_37 = makeCons(co->gc, v__3517834_37, Nil);
-Obj v__3519444_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, v__3519443_37);
-R[1] = v__3519444_37;
+Obj v__3519932_37 = makeNative(co->gc, 2, clofun134, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521530_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521530_37) {
+Obj v__3521531_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521532_37 = PRIM_ISCONS(v__3521531_37);
+if (True == v__3521532_37) {
+Obj v__3521533_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521534_37 = PRIM_CAR(v__3521533_37);
+Obj v__3521535_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3521534_37);
+if (True == v__3521535_37) {
+Obj v__3521536_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521537_37 = PRIM_CDR(v__3521536_37);
+Obj v__3521538_37 = PRIM_ISCONS(v__3521537_37);
+if (True == v__3521538_37) {
+Obj v__3521539_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521540_37 = PRIM_CDR(v__3521539_37);
+Obj v__3521541_37 = PRIM_CAR(v__3521540_37);
+Obj v__3519938_37 = v__3521541_37;
+Obj v__3521542_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521543_37 = PRIM_CDR(v__3521542_37);
+Obj v__3521544_37 = PRIM_CDR(v__3521543_37);
+Obj v__3521545_37 = PRIM_EQ(Nil, v__3521544_37);
+if (True == v__3521545_37) {
+Obj v__3521546_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519939_37 = v__3521546_37;
+Obj v__3521547_37 = makeCons(co->gc, v__3519938_37, Nil);
+Obj v__3521548_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, v__3521547_37);
+R[1] = v__3521548_37;
 saveCont(co, clofun135, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517835_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519939_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517828_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517828_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517828_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517828_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517828_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519445_37= co->res;
-Obj v__3519444_37 = R[1];
-Obj v__3519446_37 = makeCons(co->gc, v__3519444_37, v__3519445_37);
-coraReturn(co, v__3519446_37);
+Obj v__3521549_37= co->res;
+Obj v__3521548_37 = R[1];
+Obj v__3521550_37 = makeCons(co->gc, v__3521548_37, v__3521549_37);
+coraReturn(co, v__3521550_37);
 return;
 }
 }
@@ -971,48 +971,48 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517829_37 = makeNative(co->gc, 1, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519414_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519414_37) {
-Obj v__3519415_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519416_37 = PRIM_ISCONS(v__3519415_37);
-if (True == v__3519416_37) {
-Obj v__3519417_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519418_37 = PRIM_CAR(v__3519417_37);
-Obj v__3519419_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519418_37);
-if (True == v__3519419_37) {
-Obj v__3519420_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519421_37 = PRIM_CDR(v__3519420_37);
-Obj v__3517832_37 = v__3519421_37;
-Obj v__3519422_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517833_37 = v__3519422_37;
-Obj v__3519423_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3517832_37);
-R[1] = v__3519423_37;
+Obj v__3519933_37 = makeNative(co->gc, 1, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521518_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521518_37) {
+Obj v__3521519_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521520_37 = PRIM_ISCONS(v__3521519_37);
+if (True == v__3521520_37) {
+Obj v__3521521_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521522_37 = PRIM_CAR(v__3521521_37);
+Obj v__3521523_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521522_37);
+if (True == v__3521523_37) {
+Obj v__3521524_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521525_37 = PRIM_CDR(v__3521524_37);
+Obj v__3519936_37 = v__3521525_37;
+Obj v__3521526_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519937_37 = v__3521526_37;
+Obj v__3521527_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3519936_37);
+R[1] = v__3521527_37;
 saveCont(co, clofun134, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517833_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519937_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517829_37);
+coraCall0(co, v__3519933_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517829_37);
+coraCall0(co, v__3519933_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517829_37);
+coraCall0(co, v__3519933_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519424_37= co->res;
-Obj v__3519423_37 = R[1];
-Obj v__3519425_37 = makeCons(co->gc, v__3519423_37, v__3519424_37);
-coraReturn(co, v__3519425_37);
+Obj v__3521528_37= co->res;
+Obj v__3521527_37 = R[1];
+Obj v__3521529_37 = makeCons(co->gc, v__3521527_37, v__3521528_37);
+coraReturn(co, v__3521529_37);
 return;
 }
 }
@@ -1022,33 +1022,33 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517830_37 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3519408_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519408_37) {
-Obj v__3519409_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519410_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519409_37);
-if (True == v__3519410_37) {
-Obj v__3519411_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517831_37 = v__3519411_37;
+Obj v__3519934_37 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3521512_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521512_37) {
+Obj v__3521513_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521514_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521513_37);
+if (True == v__3521514_37) {
+Obj v__3521515_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519935_37 = v__3521515_37;
 saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3517831_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519935_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517830_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517830_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519412_37= co->res;
-Obj v__3519413_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519412_37);
-coraReturn(co, v__3519413_37);
+Obj v__3521516_37= co->res;
+Obj v__3521517_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3521516_37);
+coraReturn(co, v__3521517_37);
 return;
 }
 }
@@ -1069,73 +1069,73 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517557_37 = R[1];
-Obj v__3517558_37 = R[2];
-Obj v__3517559_37 = R[3];
-Obj v__3517560_37 = R[4];
-Obj v__3519369_37 = PRIM_EQ(Nil, v__3517557_37);
-if (True == v__3519369_37) {
-R[1] = v__3517559_37;
-R[2] = v__3517560_37;
+Obj v__3519622_37 = R[1];
+Obj v__3519623_37 = R[2];
+Obj v__3519624_37 = R[3];
+Obj v__3519625_37 = R[4];
+Obj v__3521473_37 = PRIM_EQ(Nil, v__3519622_37);
+if (True == v__3521473_37) {
+R[1] = v__3519624_37;
+R[2] = v__3519625_37;
 saveCont(co, clofun131, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517558_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519623_37);
 return;
 } else {
-Obj v__3517819_37 = makeNative(co->gc, 1, clofun130, 0, 4, v__3517557_37, v__3517558_37, v__3517559_37, v__3517560_37);
-Obj v__3519396_37 = PRIM_ISCONS(v__3517557_37);
-if (True == v__3519396_37) {
-Obj v__3519397_37 = PRIM_CAR(v__3517557_37);
-Obj v__3519398_37 = PRIM_ISCONS(v__3519397_37);
-if (True == v__3519398_37) {
-Obj v__3519399_37 = PRIM_CAR(v__3517557_37);
-Obj v__3519400_37 = PRIM_CAR(v__3519399_37);
-Obj v__3519401_37 = PRIM_EQ(getBinding(co, packageID, 11).name, v__3519400_37);
-if (True == v__3519401_37) {
-Obj v__3519402_37 = PRIM_CAR(v__3517557_37);
-Obj v__3519403_37 = PRIM_CDR(v__3519402_37);
-Obj v__3517825_37 = v__3519403_37;
-Obj v__3519404_37 = PRIM_CDR(v__3517557_37);
-Obj v__3517826_37 = v__3519404_37;
-Obj v__3519405_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517825_37);
-Obj v__3519406_37 = makeCons(co->gc, v__3519405_37, v__3517558_37);
+Obj v__3519923_37 = makeNative(co->gc, 1, clofun130, 0, 4, v__3519622_37, v__3519623_37, v__3519624_37, v__3519625_37);
+Obj v__3521500_37 = PRIM_ISCONS(v__3519622_37);
+if (True == v__3521500_37) {
+Obj v__3521501_37 = PRIM_CAR(v__3519622_37);
+Obj v__3521502_37 = PRIM_ISCONS(v__3521501_37);
+if (True == v__3521502_37) {
+Obj v__3521503_37 = PRIM_CAR(v__3519622_37);
+Obj v__3521504_37 = PRIM_CAR(v__3521503_37);
+Obj v__3521505_37 = PRIM_EQ(getBinding(co, packageID, 11).name, v__3521504_37);
+if (True == v__3521505_37) {
+Obj v__3521506_37 = PRIM_CAR(v__3519622_37);
+Obj v__3521507_37 = PRIM_CDR(v__3521506_37);
+Obj v__3519929_37 = v__3521507_37;
+Obj v__3521508_37 = PRIM_CDR(v__3519622_37);
+Obj v__3519930_37 = v__3521508_37;
+Obj v__3521509_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519929_37);
+Obj v__3521510_37 = makeCons(co->gc, v__3521509_37, v__3519623_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517826_37, v__3519406_37, v__3517559_37, v__3517560_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519930_37, v__3521510_37, v__3519624_37, v__3519625_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517819_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517819_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517819_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519371_37= co->res;
-Obj v__3517560_37 = R[1];
-Obj v__3519370_37 = R[2];
+Obj v__3521475_37= co->res;
+Obj v__3519625_37 = R[1];
+Obj v__3521474_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3517560_37, v__3519370_37, v__3519371_37);
+coraCall2(co, v__3519625_37, v__3521474_37, v__3521475_37);
 return;
 }
 case 2:
 {
-Obj v__3519370_37= co->res;
-Obj v__3517559_37 = R[1];
-Obj v__3517560_37 = R[2];
-R[1] = v__3517560_37;
-R[2] = v__3519370_37;
+Obj v__3521474_37= co->res;
+Obj v__3519624_37 = R[1];
+Obj v__3519625_37 = R[2];
+R[1] = v__3519625_37;
+R[2] = v__3521474_37;
 saveCont(co, clofun131, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517559_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519624_37);
 return;
 }
 }
@@ -1145,39 +1145,39 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517820_37 = makeNative(co->gc, 1, clofun129, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3519385_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519385_37) {
-Obj v__3519386_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519387_37 = PRIM_ISCONS(v__3519386_37);
-if (True == v__3519387_37) {
-Obj v__3519388_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519389_37 = PRIM_CAR(v__3519388_37);
-Obj v__3519390_37 = PRIM_EQ(getBinding(co, packageID, 13).name, v__3519389_37);
-if (True == v__3519390_37) {
-Obj v__3519391_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519392_37 = PRIM_CDR(v__3519391_37);
-Obj v__3517823_37 = v__3519392_37;
-Obj v__3519393_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517824_37 = v__3519393_37;
-Obj v__3519394_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, v__3517823_37);
-Obj v__3519395_37 = makeCons(co->gc, v__3519394_37, closureRef(R[0], 1));
+Obj v__3519924_37 = makeNative(co->gc, 1, clofun129, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3521489_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521489_37) {
+Obj v__3521490_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521491_37 = PRIM_ISCONS(v__3521490_37);
+if (True == v__3521491_37) {
+Obj v__3521492_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521493_37 = PRIM_CAR(v__3521492_37);
+Obj v__3521494_37 = PRIM_EQ(getBinding(co, packageID, 13).name, v__3521493_37);
+if (True == v__3521494_37) {
+Obj v__3521495_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521496_37 = PRIM_CDR(v__3521495_37);
+Obj v__3519927_37 = v__3521496_37;
+Obj v__3521497_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519928_37 = v__3521497_37;
+Obj v__3521498_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, v__3519927_37);
+Obj v__3521499_37 = makeCons(co->gc, v__3521498_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517824_37, v__3519395_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519928_37, v__3521499_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517820_37);
+coraCall0(co, v__3519924_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517820_37);
+coraCall0(co, v__3519924_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517820_37);
+coraCall0(co, v__3519924_37);
 return;
 }
 }
@@ -1188,24 +1188,24 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519372_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519372_37) {
-Obj v__3519373_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517821_37 = v__3519373_37;
-Obj v__3519374_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517822_37 = v__3519374_37;
-Obj v__3519375_37 = makeCons(co->gc, v__3517821_37, Nil);
-Obj v__3519376_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519375_37);
-Obj v__3519377_37 = makeCons(co->gc, v__3519376_37, Nil);
-Obj v__3519378_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519377_37);
-Obj v__3519379_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
-Obj v__3519380_37 = makeCons(co->gc, v__3519379_37, Nil);
-Obj v__3519381_37 = makeCons(co->gc, v__3519378_37, v__3519380_37);
-Obj v__3519382_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, v__3519381_37);
-Obj v__3519383_37 = makeCons(co->gc, v__3519382_37, closureRef(R[0], 1));
-Obj v__3519384_37 = makeCons(co->gc, v__3517821_37, closureRef(R[0], 2));
+Obj v__3521476_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521476_37) {
+Obj v__3521477_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519925_37 = v__3521477_37;
+Obj v__3521478_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519926_37 = v__3521478_37;
+Obj v__3521479_37 = makeCons(co->gc, v__3519925_37, Nil);
+Obj v__3521480_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3521479_37);
+Obj v__3521481_37 = makeCons(co->gc, v__3521480_37, Nil);
+Obj v__3521482_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3521481_37);
+Obj v__3521483_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
+Obj v__3521484_37 = makeCons(co->gc, v__3521483_37, Nil);
+Obj v__3521485_37 = makeCons(co->gc, v__3521482_37, v__3521484_37);
+Obj v__3521486_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, v__3521485_37);
+Obj v__3521487_37 = makeCons(co->gc, v__3521486_37, closureRef(R[0], 1));
+Obj v__3521488_37 = makeCons(co->gc, v__3519925_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3517822_37, v__3519383_37, v__3519384_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519926_37, v__3521487_37, v__3521488_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1220,37 +1220,37 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517551_37 = R[1];
-Obj v__3517810_37 = makeNative(co->gc, 1, clofun127, 0, 1, v__3517551_37);
-Obj v__3519359_37 = PRIM_ISCONS(v__3517551_37);
-if (True == v__3519359_37) {
-Obj v__3519360_37 = PRIM_CAR(v__3517551_37);
-Obj v__3519361_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519360_37);
-if (True == v__3519361_37) {
-Obj v__3519362_37 = PRIM_CDR(v__3517551_37);
-Obj v__3519363_37 = PRIM_ISCONS(v__3519362_37);
-if (True == v__3519363_37) {
-Obj v__3519364_37 = PRIM_CDR(v__3517551_37);
-Obj v__3519365_37 = PRIM_CAR(v__3519364_37);
-Obj v__3519366_37 = PRIM_CDR(v__3517551_37);
-Obj v__3519367_37 = PRIM_CDR(v__3519366_37);
-Obj v__3517818_37 = v__3519367_37;
+Obj v__3519612_37 = R[1];
+Obj v__3519914_37 = makeNative(co->gc, 1, clofun127, 0, 1, v__3519612_37);
+Obj v__3521463_37 = PRIM_ISCONS(v__3519612_37);
+if (True == v__3521463_37) {
+Obj v__3521464_37 = PRIM_CAR(v__3519612_37);
+Obj v__3521465_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521464_37);
+if (True == v__3521465_37) {
+Obj v__3521466_37 = PRIM_CDR(v__3519612_37);
+Obj v__3521467_37 = PRIM_ISCONS(v__3521466_37);
+if (True == v__3521467_37) {
+Obj v__3521468_37 = PRIM_CDR(v__3519612_37);
+Obj v__3521469_37 = PRIM_CAR(v__3521468_37);
+Obj v__3521470_37 = PRIM_CDR(v__3519612_37);
+Obj v__3521471_37 = PRIM_CDR(v__3521470_37);
+Obj v__3519922_37 = v__3521471_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517818_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519922_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517810_37);
+coraCall0(co, v__3519914_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517810_37);
+coraCall0(co, v__3519914_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517810_37);
+coraCall0(co, v__3519914_37);
 return;
 }
 }
@@ -1261,25 +1261,25 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517811_37 = makeNative(co->gc, 1, clofun126, 0, 1, closureRef(R[0], 0));
-Obj v__3519355_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519355_37) {
-Obj v__3519356_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519357_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519356_37);
-if (True == v__3519357_37) {
-Obj v__3519358_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517817_37 = v__3519358_37;
+Obj v__3519915_37 = makeNative(co->gc, 1, clofun126, 0, 1, closureRef(R[0], 0));
+Obj v__3521459_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521459_37) {
+Obj v__3521460_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521461_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521460_37);
+if (True == v__3521461_37) {
+Obj v__3521462_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519921_37 = v__3521462_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517817_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519921_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517811_37);
+coraCall0(co, v__3519915_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517811_37);
+coraCall0(co, v__3519915_37);
 return;
 }
 }
@@ -1290,36 +1290,36 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517812_37 = makeNative(co->gc, 3, clofun125, 0, 1, closureRef(R[0], 0));
-Obj v__3519346_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519346_37) {
-Obj v__3519347_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519348_37 = PRIM_ISCONS(v__3519347_37);
-if (True == v__3519348_37) {
-Obj v__3519349_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519350_37 = PRIM_CAR(v__3519349_37);
-Obj v__3519351_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519350_37);
-if (True == v__3519351_37) {
-Obj v__3519352_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519353_37 = PRIM_CDR(v__3519352_37);
-Obj v__3519354_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517816_37 = v__3519354_37;
+Obj v__3519916_37 = makeNative(co->gc, 3, clofun125, 0, 1, closureRef(R[0], 0));
+Obj v__3521450_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521450_37) {
+Obj v__3521451_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521452_37 = PRIM_ISCONS(v__3521451_37);
+if (True == v__3521452_37) {
+Obj v__3521453_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521454_37 = PRIM_CAR(v__3521453_37);
+Obj v__3521455_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521454_37);
+if (True == v__3521455_37) {
+Obj v__3521456_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521457_37 = PRIM_CDR(v__3521456_37);
+Obj v__3521458_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519920_37 = v__3521458_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517816_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519920_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517812_37);
+coraCall0(co, v__3519916_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517812_37);
+coraCall0(co, v__3519916_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517812_37);
+coraCall0(co, v__3519916_37);
 return;
 }
 }
@@ -1330,69 +1330,69 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517813_37 = makeNative(co->gc, 1, clofun124, 0, 0);
-Obj v__3519327_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519327_37) {
-Obj v__3519328_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519329_37 = PRIM_ISCONS(v__3519328_37);
-if (True == v__3519329_37) {
-Obj v__3519330_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519331_37 = PRIM_CAR(v__3519330_37);
-Obj v__3519332_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3519331_37);
-if (True == v__3519332_37) {
-Obj v__3519333_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519334_37 = PRIM_CDR(v__3519333_37);
-Obj v__3519335_37 = PRIM_ISCONS(v__3519334_37);
-if (True == v__3519335_37) {
-Obj v__3519336_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519337_37 = PRIM_CDR(v__3519336_37);
-Obj v__3519338_37 = PRIM_CAR(v__3519337_37);
-Obj v__3517814_37 = v__3519338_37;
-Obj v__3519339_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519340_37 = PRIM_CDR(v__3519339_37);
-Obj v__3519341_37 = PRIM_CDR(v__3519340_37);
-Obj v__3519342_37 = PRIM_EQ(Nil, v__3519341_37);
-if (True == v__3519342_37) {
-Obj v__3519343_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517815_37 = v__3519343_37;
-R[1] = v__3517814_37;
-R[2] = v__3517815_37;
+Obj v__3519917_37 = makeNative(co->gc, 1, clofun124, 0, 0);
+Obj v__3521431_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521431_37) {
+Obj v__3521432_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521433_37 = PRIM_ISCONS(v__3521432_37);
+if (True == v__3521433_37) {
+Obj v__3521434_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521435_37 = PRIM_CAR(v__3521434_37);
+Obj v__3521436_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3521435_37);
+if (True == v__3521436_37) {
+Obj v__3521437_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521438_37 = PRIM_CDR(v__3521437_37);
+Obj v__3521439_37 = PRIM_ISCONS(v__3521438_37);
+if (True == v__3521439_37) {
+Obj v__3521440_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521441_37 = PRIM_CDR(v__3521440_37);
+Obj v__3521442_37 = PRIM_CAR(v__3521441_37);
+Obj v__3519918_37 = v__3521442_37;
+Obj v__3521443_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521444_37 = PRIM_CDR(v__3521443_37);
+Obj v__3521445_37 = PRIM_CDR(v__3521444_37);
+Obj v__3521446_37 = PRIM_EQ(Nil, v__3521445_37);
+if (True == v__3521446_37) {
+Obj v__3521447_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519919_37 = v__3521447_37;
+R[1] = v__3519918_37;
+R[2] = v__3519919_37;
 saveCont(co, clofun125, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), v__3517814_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), v__3519918_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517813_37);
+coraCall0(co, v__3519917_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517813_37);
+coraCall0(co, v__3519917_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517813_37);
+coraCall0(co, v__3519917_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517813_37);
+coraCall0(co, v__3519917_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517813_37);
+coraCall0(co, v__3519917_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519345_37= co->res;
-Obj v__3517815_37 = R[1];
-if (True == v__3519345_37) {
+Obj v__3521449_37= co->res;
+Obj v__3519919_37 = R[1];
+if (True == v__3521449_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3517815_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519919_37);
 return;
 } else {
 coraReturn(co, False);
@@ -1401,12 +1401,12 @@ return;
 }
 case 2:
 {
-Obj v__3519344_37= co->res;
-Obj v__3517814_37 = R[1];
-Obj v__3517815_37 = R[2];
-R[1] = v__3517815_37;
+Obj v__3521448_37= co->res;
+Obj v__3519918_37 = R[1];
+Obj v__3519919_37 = R[2];
+R[1] = v__3519919_37;
 saveCont(co, clofun125, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517814_37, globalRef(co, getBinding(co, packageID, 22)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519918_37, globalRef(co, getBinding(co, packageID, 22)));
 return;
 }
 }
@@ -1426,133 +1426,133 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_to = R[1];
-Obj v_bc = R[2];
-Obj v_globals = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3519607_37 = R[1];
+Obj v__3519608_37 = R[2];
+Obj v__3519609_37 = R[3];
+R[1] = v__3519607_37;
+R[2] = v__3519609_37;
+R[3] = v__3519608_37;
 saveCont(co, clofun123, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519607_37, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v__3519325_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
+Obj v__3521429_37= co->res;
+Obj v__3519607_37 = R[1];
+Obj v__3519609_37 = R[2];
+Obj v__3519608_37 = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun122, 1, 2, v_to, v_globals), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun122, 1, 2, v__3519607_37, v__3519609_37), v__3519608_37);
 return;
 }
 case 2:
 {
-Obj v__3519324_37= co->res;
-Obj v__3519321_37 = R[1];
-Obj v_to = R[2];
-Obj v_globals = R[3];
-Obj v_bc = R[4];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521428_37= co->res;
+Obj v__3521425_37 = R[1];
+Obj v__3519607_37 = R[2];
+Obj v__3519609_37 = R[3];
+Obj v__3519608_37 = R[4];
+R[1] = v__3519607_37;
+R[2] = v__3519609_37;
+R[3] = v__3519608_37;
 saveCont(co, clofun123, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), v_to, v_globals, v__3519321_37, v__3519324_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), v__3519607_37, v__3519609_37, v__3521425_37, v__3521428_37);
 return;
 }
 case 3:
 {
-Obj v__3519323_37= co->res;
-Obj v__3519321_37 = R[1];
-Obj v_to = R[2];
-Obj v_globals = R[3];
-Obj v_bc = R[4];
-R[1] = v__3519321_37;
-R[2] = v_to;
-R[3] = v_globals;
-R[4] = v_bc;
+Obj v__3521427_37= co->res;
+Obj v__3521425_37 = R[1];
+Obj v__3519607_37 = R[2];
+Obj v__3519609_37 = R[3];
+Obj v__3519608_37 = R[4];
+R[1] = v__3521425_37;
+R[2] = v__3519607_37;
+R[3] = v__3519609_37;
+R[4] = v__3519608_37;
 saveCont(co, clofun123, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519323_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3521427_37);
 return;
 }
 case 4:
 {
-Obj v__3519321_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-Obj v__3519322_37 = PRIM_CAR(v_bc);
-R[1] = v__3519321_37;
-R[2] = v_to;
-R[3] = v_globals;
-R[4] = v_bc;
+Obj v__3521425_37= co->res;
+Obj v__3519607_37 = R[1];
+Obj v__3519609_37 = R[2];
+Obj v__3519608_37 = R[3];
+Obj v__3521426_37 = PRIM_CAR(v__3519608_37);
+R[1] = v__3521425_37;
+R[2] = v__3519607_37;
+R[3] = v__3519609_37;
+R[4] = v__3519608_37;
 saveCont(co, clofun123, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519322_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3521426_37);
 return;
 }
 case 5:
 {
-Obj v__3519320_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521424_37= co->res;
+Obj v__3519607_37 = R[1];
+Obj v__3519609_37 = R[2];
+Obj v__3519608_37 = R[3];
+R[1] = v__3519607_37;
+R[2] = v__3519609_37;
+R[3] = v__3519608_37;
 saveCont(co, clofun123, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v_bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3519608_37);
 return;
 }
 case 6:
 {
-Obj v__3519319_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521423_37= co->res;
+Obj v__3519607_37 = R[1];
+Obj v__3519609_37 = R[2];
+Obj v__3519608_37 = R[3];
+R[1] = v__3519607_37;
+R[2] = v__3519609_37;
+R[3] = v__3519608_37;
 saveCont(co, clofun123, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519607_37, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj v__3519316_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521420_37= co->res;
+Obj v__3519607_37 = R[1];
+Obj v__3519609_37 = R[2];
+Obj v__3519608_37 = R[3];
+R[1] = v__3519607_37;
+R[2] = v__3519609_37;
+R[3] = v__3519608_37;
 saveCont(co, clofun123, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun121, 1, 1, v_to), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun121, 1, 1, v__3519607_37), v__3519608_37);
 return;
 }
 case 8:
 {
-Obj v__3519315_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521419_37= co->res;
+Obj v__3519607_37 = R[1];
+Obj v__3519609_37 = R[2];
+Obj v__3519608_37 = R[3];
+R[1] = v__3519607_37;
+R[2] = v__3519609_37;
+R[3] = v__3519608_37;
 saveCont(co, clofun123, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519607_37, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
 {
-Obj v__3519314_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521418_37= co->res;
+Obj v__3519607_37 = R[1];
+Obj v__3519609_37 = R[2];
+Obj v__3519608_37 = R[3];
+R[1] = v__3519607_37;
+R[2] = v__3519609_37;
+R[3] = v__3519608_37;
 saveCont(co, clofun123, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519607_37, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1562,9 +1562,9 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_group = R[1];
+Obj v__3519611_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 28)), closureRef(R[0], 0), v_group, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 28)), closureRef(R[0], 0), v__3519611_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -1574,15 +1574,15 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_group = R[1];
-Obj v__3519317_37 = PRIM_CAR(v_group);
+Obj v__3519610_37 = R[1];
+Obj v__3521421_37 = PRIM_CAR(v__3519610_37);
 saveCont(co, clofun121, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), v__3519317_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), v__3521421_37);
 return;
 }
 case 1:
 {
-Obj v__3519318_37= co->res;
+Obj v__3521422_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1594,172 +1594,172 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_label = R[3];
-Obj v_nframe = R[4];
-R[1] = v_globals;
-R[2] = v_nframe;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3519601_37 = R[1];
+Obj v__3519602_37 = R[2];
+Obj v__3519603_37 = R[3];
+Obj v__3519604_37 = R[4];
+R[1] = v__3519602_37;
+R[2] = v__3519604_37;
+R[3] = v__3519603_37;
+R[4] = v__3519601_37;
 saveCont(co, clofun120, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v__3519312_37= co->res;
-Obj v_to = R[1];
+Obj v__3521416_37= co->res;
+Obj v__3519601_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ", 0, 0));\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, ", 0, 0));\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3519311_37= co->res;
-Obj v_label = R[1];
-Obj v_to = R[2];
-R[1] = v_to;
+Obj v__3521415_37= co->res;
+Obj v__3519603_37 = R[1];
+Obj v__3519601_37 = R[2];
+R[1] = v__3519601_37;
 saveCont(co, clofun120, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v_to, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519601_37, v__3519603_37);
 return;
 }
 case 3:
 {
-Obj v__3519310_37= co->res;
-Obj v_label = R[1];
-Obj v_to = R[2];
-R[1] = v_label;
-R[2] = v_to;
+Obj v__3521414_37= co->res;
+Obj v__3519603_37 = R[1];
+Obj v__3519601_37 = R[2];
+R[1] = v__3519603_37;
+R[2] = v__3519601_37;
 saveCont(co, clofun120, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3519309_37= co->res;
-Obj v_nframe = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
-R[1] = v_label;
-R[2] = v_to;
+Obj v__3521413_37= co->res;
+Obj v__3519604_37 = R[1];
+Obj v__3519603_37 = R[2];
+Obj v__3519601_37 = R[3];
+R[1] = v__3519603_37;
+R[2] = v__3519601_37;
 saveCont(co, clofun120, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, v_nframe);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519601_37, v__3519604_37);
 return;
 }
 case 5:
 {
-Obj v__3519308_37= co->res;
-Obj v_nframe = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
-R[1] = v_nframe;
-R[2] = v_label;
-R[3] = v_to;
+Obj v__3521412_37= co->res;
+Obj v__3519604_37 = R[1];
+Obj v__3519603_37 = R[2];
+Obj v__3519601_37 = R[3];
+R[1] = v__3519604_37;
+R[2] = v__3519603_37;
+R[3] = v__3519601_37;
 saveCont(co, clofun120, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
 return;
 }
 case 6:
 {
-Obj v__3519307_37= co->res;
-Obj v_nframe = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
-R[1] = v_nframe;
-R[2] = v_label;
-R[3] = v_to;
+Obj v__3521411_37= co->res;
+Obj v__3519604_37 = R[1];
+Obj v__3519603_37 = R[2];
+Obj v__3519601_37 = R[3];
+R[1] = v__3519604_37;
+R[2] = v__3519603_37;
+R[3] = v__3519601_37;
 saveCont(co, clofun120, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 7:
 {
-Obj v__3519298_37= co->res;
-Obj v_globals = R[1];
-Obj v_nframe = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_nframe;
-R[2] = v_label;
-R[3] = v_to;
+Obj v__3521402_37= co->res;
+Obj v__3519602_37 = R[1];
+Obj v__3519604_37 = R[2];
+Obj v__3519603_37 = R[3];
+Obj v__3519601_37 = R[4];
+R[1] = v__3519604_37;
+R[2] = v__3519603_37;
+R[3] = v__3519601_37;
 saveCont(co, clofun120, 6, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun119, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun119, 2, 1, v__3519601_37), MAKE_NUMBER(0), v__3519602_37);
 return;
 }
 case 8:
 {
-Obj v__3519297_37= co->res;
-Obj v_globals = R[1];
-Obj v_nframe = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_nframe;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521401_37= co->res;
+Obj v__3519602_37 = R[1];
+Obj v__3519604_37 = R[2];
+Obj v__3519603_37 = R[3];
+Obj v__3519601_37 = R[4];
+R[1] = v__3519602_37;
+R[2] = v__3519604_37;
+R[3] = v__3519603_37;
+R[4] = v__3519601_37;
 saveCont(co, clofun120, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, ");\n"));
 return;
 }
 case 9:
 {
-Obj v__3519296_37= co->res;
-Obj v_globals = R[1];
-Obj v_nframe = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_nframe;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521400_37= co->res;
+Obj v__3519602_37 = R[1];
+Obj v__3519604_37 = R[2];
+Obj v__3519603_37 = R[3];
+Obj v__3519601_37 = R[4];
+R[1] = v__3519602_37;
+R[2] = v__3519604_37;
+R[3] = v__3519603_37;
+R[4] = v__3519601_37;
 saveCont(co, clofun120, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, v__3519296_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519601_37, v__3521400_37);
 return;
 }
 case 10:
 {
-Obj v__3519295_37= co->res;
-Obj v_globals = R[1];
-Obj v_nframe = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_nframe;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521399_37= co->res;
+Obj v__3519602_37 = R[1];
+Obj v__3519604_37 = R[2];
+Obj v__3519603_37 = R[3];
+Obj v__3519601_37 = R[4];
+R[1] = v__3519602_37;
+R[2] = v__3519604_37;
+R[3] = v__3519603_37;
+R[4] = v__3519601_37;
 saveCont(co, clofun120, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519602_37);
 return;
 }
 case 11:
 {
-Obj v__3519294_37= co->res;
-Obj v_globals = R[1];
-Obj v_nframe = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_nframe;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521398_37= co->res;
+Obj v__3519602_37 = R[1];
+Obj v__3519604_37 = R[2];
+Obj v__3519603_37 = R[3];
+Obj v__3519601_37 = R[4];
+R[1] = v__3519602_37;
+R[2] = v__3519604_37;
+R[3] = v__3519603_37;
+R[4] = v__3519601_37;
 saveCont(co, clofun120, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 12:
 {
-Obj v__3519293_37= co->res;
-Obj v_globals = R[1];
-Obj v_nframe = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_nframe;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521397_37= co->res;
+Obj v__3519602_37 = R[1];
+Obj v__3519604_37 = R[2];
+Obj v__3519603_37 = R[3];
+Obj v__3519601_37 = R[4];
+R[1] = v__3519602_37;
+R[2] = v__3519604_37;
+R[3] = v__3519603_37;
+R[4] = v__3519601_37;
 saveCont(co, clofun120, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1769,79 +1769,79 @@ static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_sym = R[2];
-R[1] = v_sym;
-R[2] = v_acc;
+Obj v__3519605_37 = R[1];
+Obj v__3519606_37 = R[2];
+R[1] = v__3519606_37;
+R[2] = v__3519605_37;
 saveCont(co, clofun119, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v__3519305_37= co->res;
-Obj v_acc = R[1];
-Obj v__3519306_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519306_37);
+Obj v__3521409_37= co->res;
+Obj v__3519605_37 = R[1];
+Obj v__3521410_37 = PRIM_ADD(v__3519605_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521410_37);
 return;
 }
 case 2:
 {
-Obj v__3519304_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521408_37= co->res;
+Obj v__3519605_37 = R[1];
+R[1] = v__3519605_37;
 saveCont(co, clofun119, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v__3519303_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521407_37= co->res;
+Obj v__3519605_37 = R[1];
+R[1] = v__3519605_37;
 saveCont(co, clofun119, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), v__3519303_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), v__3521407_37);
 return;
 }
 case 4:
 {
-Obj v__3519302_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521406_37= co->res;
+Obj v__3519605_37 = R[1];
+R[1] = v__3519605_37;
 saveCont(co, clofun119, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3519302_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3521406_37);
 return;
 }
 case 5:
 {
-Obj v__3519301_37= co->res;
-Obj v_sym = R[1];
-Obj v_acc = R[2];
-R[1] = v_acc;
+Obj v__3521405_37= co->res;
+Obj v__3519606_37 = R[1];
+Obj v__3519605_37 = R[2];
+R[1] = v__3519605_37;
 saveCont(co, clofun119, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 26)), v_sym);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 26)), v__3519606_37);
 return;
 }
 case 6:
 {
-Obj v__3519300_37= co->res;
-Obj v_sym = R[1];
-Obj v_acc = R[2];
-R[1] = v_sym;
-R[2] = v_acc;
+Obj v__3521404_37= co->res;
+Obj v__3519606_37 = R[1];
+Obj v__3519605_37 = R[2];
+R[1] = v__3519606_37;
+R[2] = v__3519605_37;
 saveCont(co, clofun119, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v__3519299_37= co->res;
-Obj v_sym = R[1];
-Obj v_acc = R[2];
-R[1] = v_sym;
-R[2] = v_acc;
+Obj v__3521403_37= co->res;
+Obj v__3519606_37 = R[1];
+Obj v__3519605_37 = R[2];
+R[1] = v__3519606_37;
+R[2] = v__3519605_37;
 saveCont(co, clofun119, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v__3519605_37);
 return;
 }
 }
@@ -1851,221 +1851,221 @@ static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_to = R[1];
-Obj v_group = R[2];
-Obj v_globals = R[3];
-Obj v__3519271_37 = PRIM_CAR(v_group);
-Obj v__3517806_37 = v__3519271_37;
-R[1] = v_globals;
-R[2] = v__3517806_37;
-R[3] = v_to;
+Obj v__3519592_37 = R[1];
+Obj v__3519593_37 = R[2];
+Obj v__3519594_37 = R[3];
+Obj v__3521375_37 = PRIM_CAR(v__3519593_37);
+Obj v__3519910_37 = v__3521375_37;
+R[1] = v__3519594_37;
+R[2] = v__3519910_37;
+R[3] = v__3519592_37;
 saveCont(co, clofun118, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_group);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519593_37);
 return;
 }
 case 1:
 {
-Obj v__3519291_37= co->res;
-Obj v_to = R[1];
+Obj v__3521395_37= co->res;
+Obj v__3519592_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3519290_37= co->res;
-Obj v_to = R[1];
-R[1] = v_to;
+Obj v__3521394_37= co->res;
+Obj v__3519592_37 = R[1];
+R[1] = v__3519592_37;
 saveCont(co, clofun118, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3519289_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517806_37 = R[2];
-Obj v__3517807_37 = R[3];
-Obj v_to = R[4];
-R[1] = v_to;
+Obj v__3521393_37= co->res;
+Obj v__3519594_37 = R[1];
+Obj v__3519910_37 = R[2];
+Obj v__3519911_37 = R[3];
+Obj v__3519592_37 = R[4];
+R[1] = v__3519592_37;
 saveCont(co, clofun118, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun117, 2, 4, v_globals, v__3517806_37, v__3517807_37, v_to), MAKE_NUMBER(1), v__3519289_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun117, 2, 4, v__3519594_37, v__3519910_37, v__3519911_37, v__3519592_37), MAKE_NUMBER(1), v__3521393_37);
 return;
 }
 case 4:
 {
-Obj v__3519281_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517806_37 = R[2];
-Obj v__3517807_37 = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v__3517806_37;
-R[3] = v__3517807_37;
-R[4] = v_to;
+Obj v__3521385_37= co->res;
+Obj v__3519594_37 = R[1];
+Obj v__3519910_37 = R[2];
+Obj v__3519911_37 = R[3];
+Obj v__3519592_37 = R[4];
+R[1] = v__3519594_37;
+R[2] = v__3519910_37;
+R[3] = v__3519911_37;
+R[4] = v__3519592_37;
 saveCont(co, clofun118, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3517807_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519911_37);
 return;
 }
 case 5:
 {
-Obj v__3519280_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517806_37 = R[2];
-Obj v__3517807_37 = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v__3517806_37;
-R[3] = v__3517807_37;
-R[4] = v_to;
+Obj v__3521384_37= co->res;
+Obj v__3519594_37 = R[1];
+Obj v__3519910_37 = R[2];
+Obj v__3519911_37 = R[3];
+Obj v__3519592_37 = R[4];
+R[1] = v__3519594_37;
+R[2] = v__3519910_37;
+R[3] = v__3519911_37;
+R[4] = v__3519592_37;
 saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v__3519279_37= co->res;
-Obj v__3517808_37 = R[1];
-Obj v__3517809_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517806_37 = R[4];
-Obj v__3517807_37 = R[5];
-Obj v_to = R[6];
-R[1] = v_globals;
-R[2] = v__3517806_37;
-R[3] = v__3517807_37;
-R[4] = v_to;
+Obj v__3521383_37= co->res;
+Obj v__3519912_37 = R[1];
+Obj v__3519913_37 = R[2];
+Obj v__3519594_37 = R[3];
+Obj v__3519910_37 = R[4];
+Obj v__3519911_37 = R[5];
+Obj v__3519592_37 = R[6];
+R[1] = v__3519594_37;
+R[2] = v__3519910_37;
+R[3] = v__3519911_37;
+R[4] = v__3519592_37;
 saveCont(co, clofun118, 5, R);
-Obj __args[5] = {v_globals, v__3517806_37, v__3517808_37, v_to, v__3517809_37};
+Obj __args[5] = {v__3519594_37, v__3519910_37, v__3519912_37, v__3519592_37, v__3519913_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3519278_37= co->res;
-Obj v__3517808_37 = R[1];
-Obj v__3517809_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517806_37 = R[4];
-Obj v__3517807_37 = R[5];
-Obj v_to = R[6];
-R[1] = v__3517808_37;
-R[2] = v__3517809_37;
-R[3] = v_globals;
-R[4] = v__3517806_37;
-R[5] = v__3517807_37;
-R[6] = v_to;
+Obj v__3521382_37= co->res;
+Obj v__3519912_37 = R[1];
+Obj v__3519913_37 = R[2];
+Obj v__3519594_37 = R[3];
+Obj v__3519910_37 = R[4];
+Obj v__3519911_37 = R[5];
+Obj v__3519592_37 = R[6];
+R[1] = v__3519912_37;
+R[2] = v__3519913_37;
+R[3] = v__3519594_37;
+R[4] = v__3519910_37;
+R[5] = v__3519911_37;
+R[6] = v__3519592_37;
 saveCont(co, clofun118, 6, R);
-Obj __args[5] = {v_globals, v__3517806_37, Nil, v_to, v__3517808_37};
+Obj __args[5] = {v__3519594_37, v__3519910_37, Nil, v__3519592_37, v__3519912_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v__3519277_37= co->res;
-Obj v__3517808_37 = R[1];
-Obj v__3517809_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517806_37 = R[4];
-Obj v__3517807_37 = R[5];
-Obj v_to = R[6];
-R[1] = v__3517808_37;
-R[2] = v__3517809_37;
-R[3] = v_globals;
-R[4] = v__3517806_37;
-R[5] = v__3517807_37;
-R[6] = v_to;
+Obj v__3521381_37= co->res;
+Obj v__3519912_37 = R[1];
+Obj v__3519913_37 = R[2];
+Obj v__3519594_37 = R[3];
+Obj v__3519910_37 = R[4];
+Obj v__3519911_37 = R[5];
+Obj v__3519592_37 = R[6];
+R[1] = v__3519912_37;
+R[2] = v__3519913_37;
+R[3] = v__3519594_37;
+R[4] = v__3519910_37;
+R[5] = v__3519911_37;
+R[6] = v__3519592_37;
 saveCont(co, clofun118, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v__3519276_37= co->res;
-Obj v__3517808_37 = R[1];
-Obj v__3517809_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517806_37 = R[4];
-Obj v__3517807_37 = R[5];
-Obj v_to = R[6];
-R[1] = v__3517808_37;
-R[2] = v__3517809_37;
-R[3] = v_globals;
-R[4] = v__3517806_37;
-R[5] = v__3517807_37;
-R[6] = v_to;
+Obj v__3521380_37= co->res;
+Obj v__3519912_37 = R[1];
+Obj v__3519913_37 = R[2];
+Obj v__3519594_37 = R[3];
+Obj v__3519910_37 = R[4];
+Obj v__3519911_37 = R[5];
+Obj v__3519592_37 = R[6];
+R[1] = v__3519912_37;
+R[2] = v__3519913_37;
+R[3] = v__3519594_37;
+R[4] = v__3519910_37;
+R[5] = v__3519911_37;
+R[6] = v__3519592_37;
 saveCont(co, clofun118, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v__3519275_37= co->res;
-Obj v__3517808_37 = R[1];
-Obj v__3517809_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517806_37 = R[4];
-Obj v__3517807_37 = R[5];
-Obj v_to = R[6];
-R[1] = v__3517808_37;
-R[2] = v__3517809_37;
-R[3] = v_globals;
-R[4] = v__3517806_37;
-R[5] = v__3517807_37;
-R[6] = v_to;
+Obj v__3521379_37= co->res;
+Obj v__3519912_37 = R[1];
+Obj v__3519913_37 = R[2];
+Obj v__3519594_37 = R[3];
+Obj v__3519910_37 = R[4];
+Obj v__3519911_37 = R[5];
+Obj v__3519592_37 = R[6];
+R[1] = v__3519912_37;
+R[2] = v__3519913_37;
+R[3] = v__3519594_37;
+R[4] = v__3519910_37;
+R[5] = v__3519911_37;
+R[6] = v__3519592_37;
 saveCont(co, clofun118, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_to, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v__3519274_37= co->res;
-Obj v__3517808_37 = R[1];
-Obj v_globals = R[2];
-Obj v__3517806_37 = R[3];
-Obj v__3517807_37 = R[4];
-Obj v_to = R[5];
-Obj v__3517809_37 = v__3519274_37;
-R[1] = v__3517808_37;
-R[2] = v__3517809_37;
-R[3] = v_globals;
-R[4] = v__3517806_37;
-R[5] = v__3517807_37;
-R[6] = v_to;
+Obj v__3521378_37= co->res;
+Obj v__3519912_37 = R[1];
+Obj v__3519594_37 = R[2];
+Obj v__3519910_37 = R[3];
+Obj v__3519911_37 = R[4];
+Obj v__3519592_37 = R[5];
+Obj v__3519913_37 = v__3521378_37;
+R[1] = v__3519912_37;
+R[2] = v__3519913_37;
+R[3] = v__3519594_37;
+R[4] = v__3519910_37;
+R[5] = v__3519911_37;
+R[6] = v__3519592_37;
 saveCont(co, clofun118, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), v_to, v__3517806_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), v__3519592_37, v__3519910_37);
 return;
 }
 case 12:
 {
-Obj v__3519273_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517806_37 = R[2];
-Obj v__3517807_37 = R[3];
-Obj v_to = R[4];
-Obj v__3517808_37 = v__3519273_37;
-R[1] = v__3517808_37;
-R[2] = v_globals;
-R[3] = v__3517806_37;
-R[4] = v__3517807_37;
-R[5] = v_to;
+Obj v__3521377_37= co->res;
+Obj v__3519594_37 = R[1];
+Obj v__3519910_37 = R[2];
+Obj v__3519911_37 = R[3];
+Obj v__3519592_37 = R[4];
+Obj v__3519912_37 = v__3521377_37;
+R[1] = v__3519912_37;
+R[2] = v__3519594_37;
+R[3] = v__3519910_37;
+R[4] = v__3519911_37;
+R[5] = v__3519592_37;
 saveCont(co, clofun118, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517807_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519911_37);
 return;
 }
 case 13:
 {
-Obj v__3519272_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517806_37 = R[2];
-Obj v_to = R[3];
-Obj v__3517807_37 = v__3519272_37;
-R[1] = v_globals;
-R[2] = v__3517806_37;
-R[3] = v__3517807_37;
-R[4] = v_to;
+Obj v__3521376_37= co->res;
+Obj v__3519594_37 = R[1];
+Obj v__3519910_37 = R[2];
+Obj v__3519592_37 = R[3];
+Obj v__3519911_37 = v__3521376_37;
+R[1] = v__3519594_37;
+R[2] = v__3519910_37;
+R[3] = v__3519911_37;
+R[4] = v__3519592_37;
 saveCont(co, clofun118, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517807_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519911_37);
 return;
 }
 }
@@ -2075,73 +2075,73 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_cont = R[2];
-R[1] = v_cont;
-R[2] = v_acc;
+Obj v__3519599_37 = R[1];
+Obj v__3519600_37 = R[2];
+R[1] = v__3519600_37;
+R[2] = v__3519599_37;
 saveCont(co, clofun117, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v__3519287_37= co->res;
-Obj v_acc = R[1];
-Obj v__3519288_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519288_37);
+Obj v__3521391_37= co->res;
+Obj v__3519599_37 = R[1];
+Obj v__3521392_37 = PRIM_ADD(v__3519599_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521392_37);
 return;
 }
 case 2:
 {
-Obj v__3519286_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521390_37= co->res;
+Obj v__3519599_37 = R[1];
+R[1] = v__3519599_37;
 saveCont(co, clofun117, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3519285_37= co->res;
-Obj v_cont = R[1];
-Obj v_acc = R[2];
-R[1] = v_acc;
+Obj v__3521389_37= co->res;
+Obj v__3519600_37 = R[1];
+Obj v__3519599_37 = R[2];
+R[1] = v__3519599_37;
 saveCont(co, clofun117, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519285_37, closureRef(R[0], 3), v_cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3521389_37, closureRef(R[0], 3), v__3519600_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 42)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3519284_37= co->res;
-Obj v_cont = R[1];
-Obj v_acc = R[2];
-R[1] = v_cont;
-R[2] = v_acc;
+Obj v__3521388_37= co->res;
+Obj v__3519600_37 = R[1];
+Obj v__3519599_37 = R[2];
+R[1] = v__3519600_37;
+R[2] = v__3519599_37;
 saveCont(co, clofun117, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v__3519283_37= co->res;
-Obj v_cont = R[1];
-Obj v_acc = R[2];
-R[1] = v_cont;
-R[2] = v_acc;
+Obj v__3521387_37= co->res;
+Obj v__3519600_37 = R[1];
+Obj v__3519599_37 = R[2];
+R[1] = v__3519600_37;
+R[2] = v__3519599_37;
 saveCont(co, clofun117, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v__3519282_37= co->res;
-Obj v_cont = R[1];
-Obj v_acc = R[2];
-R[1] = v_cont;
-R[2] = v_acc;
+Obj v__3521386_37= co->res;
+Obj v__3519600_37 = R[1];
+Obj v__3519599_37 = R[2];
+R[1] = v__3519600_37;
+R[2] = v__3519599_37;
 saveCont(co, clofun117, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519599_37);
 return;
 }
 }
@@ -2151,23 +2151,23 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517547_37 = R[1];
-Obj v__3517548_37 = R[2];
-Obj v__3519265_37 = PRIM_EQ(Nil, v__3517548_37);
-if (True == v__3519265_37) {
+Obj v__3519586_37 = R[1];
+Obj v__3519587_37 = R[2];
+Obj v__3521369_37 = PRIM_EQ(Nil, v__3519587_37);
+if (True == v__3521369_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519266_37 = PRIM_ISCONS(v__3517548_37);
-if (True == v__3519266_37) {
-Obj v__3519267_37 = PRIM_CAR(v__3517548_37);
-Obj v__3517804_37 = v__3519267_37;
-Obj v__3519268_37 = PRIM_CDR(v__3517548_37);
-Obj v__3517805_37 = v__3519268_37;
-R[1] = v__3517547_37;
-R[2] = v__3517805_37;
+Obj v__3521370_37 = PRIM_ISCONS(v__3519587_37);
+if (True == v__3521370_37) {
+Obj v__3521371_37 = PRIM_CAR(v__3519587_37);
+Obj v__3519908_37 = v__3521371_37;
+Obj v__3521372_37 = PRIM_CDR(v__3519587_37);
+Obj v__3519909_37 = v__3521372_37;
+R[1] = v__3519586_37;
+R[2] = v__3519909_37;
 saveCont(co, clofun116, 1, R);
-coraCall1(co, v__3517547_37, v__3517804_37);
+coraCall1(co, v__3519586_37, v__3519908_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2178,11 +2178,11 @@ return;
 }
 case 1:
 {
-Obj v__3519269_37= co->res;
-Obj v__3517547_37 = R[1];
-Obj v__3517805_37 = R[2];
+Obj v__3521373_37= co->res;
+Obj v__3519586_37 = R[1];
+Obj v__3519909_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), v__3517547_37, v__3517805_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), v__3519586_37, v__3519909_37);
 return;
 }
 }
@@ -2192,47 +2192,47 @@ static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_exp = R[2];
-R[1] = v_exp;
+Obj v__3519584_37 = R[1];
+Obj v__3519585_37 = R[2];
+R[1] = v__3519585_37;
 saveCont(co, clofun115, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 40)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 40)), v__3519584_37);
 return;
 }
 case 1:
 {
-Obj v__3519263_37= co->res;
+Obj v__3521367_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519263_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3521367_37);
 return;
 }
 case 2:
 {
-Obj v__3519262_37= co->res;
+Obj v__3521366_37= co->res;
 saveCont(co, clofun115, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519262_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3521366_37);
 return;
 }
 case 3:
 {
-Obj v__3519261_37= co->res;
+Obj v__3521365_37= co->res;
 saveCont(co, clofun115, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519261_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3521365_37);
 return;
 }
 case 4:
 {
-Obj v__3519260_37= co->res;
+Obj v__3521364_37= co->res;
 saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v__3519260_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v__3521364_37);
 return;
 }
 case 5:
 {
-Obj v__3519259_37= co->res;
-Obj v_exp = R[1];
+Obj v__3521363_37= co->res;
+Obj v__3519585_37 = R[1];
 saveCont(co, clofun115, 4, R);
-coraCall1(co, v__3519259_37, v_exp);
+coraCall1(co, v__3521363_37, v__3519585_37);
 return;
 }
 }
@@ -2242,29 +2242,29 @@ static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3519581_37 = R[1];
+R[1] = v__3519581_37;
 saveCont(co, clofun114, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519581_37);
 return;
 }
 case 1:
 {
-Obj v__3519257_37= co->res;
-Obj v__3517802_37 = R[1];
-Obj v__3517803_37 = v__3519257_37;
+Obj v__3521361_37= co->res;
+Obj v__3519906_37 = R[1];
+Obj v__3519907_37 = v__3521361_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3517802_37, v__3517803_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3519906_37, v__3519907_37);
 return;
 }
 case 2:
 {
-Obj v__3519256_37= co->res;
-Obj v_exp = R[1];
-Obj v__3517802_37 = v__3519256_37;
-R[1] = v__3517802_37;
+Obj v__3521360_37= co->res;
+Obj v__3519581_37 = R[1];
+Obj v__3519906_37 = v__3521360_37;
+R[1] = v__3519906_37;
 saveCont(co, clofun114, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 31)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 31)), v__3519581_37);
 return;
 }
 }
@@ -2274,23 +2274,23 @@ static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517543_37 = R[1];
-Obj v__3517544_37 = R[2];
-Obj v__3519249_37 = PRIM_EQ(Nil, v__3517544_37);
-if (True == v__3519249_37) {
-coraReturn(co, v__3517543_37);
+Obj v__3519575_37 = R[1];
+Obj v__3519576_37 = R[2];
+Obj v__3521353_37 = PRIM_EQ(Nil, v__3519576_37);
+if (True == v__3521353_37) {
+coraReturn(co, v__3519575_37);
 return;
 } else {
-Obj v__3519250_37 = PRIM_ISCONS(v__3517544_37);
-if (True == v__3519250_37) {
-Obj v__3519251_37 = PRIM_CAR(v__3517544_37);
-Obj v__3517800_37 = v__3519251_37;
-Obj v__3519252_37 = PRIM_CDR(v__3517544_37);
-Obj v__3517801_37 = v__3519252_37;
-Obj v__3519253_37 = makeCons(co->gc, v__3517543_37, Nil);
-Obj v__3519254_37 = makeCons(co->gc, v__3517800_37, v__3519253_37);
+Obj v__3521354_37 = PRIM_ISCONS(v__3519576_37);
+if (True == v__3521354_37) {
+Obj v__3521355_37 = PRIM_CAR(v__3519576_37);
+Obj v__3519904_37 = v__3521355_37;
+Obj v__3521356_37 = PRIM_CDR(v__3519576_37);
+Obj v__3519905_37 = v__3521356_37;
+Obj v__3521357_37 = makeCons(co->gc, v__3519575_37, Nil);
+Obj v__3521358_37 = makeCons(co->gc, v__3519904_37, v__3521357_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3519254_37, v__3517801_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3521358_37, v__3519905_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2306,70 +2306,70 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3519571_37 = R[1];
+R[1] = v__3519571_37;
 saveCont(co, clofun112, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v__3519247_37= co->res;
-Obj v__3517797_37 = R[1];
+Obj v__3521351_37= co->res;
+Obj v__3519901_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3517797_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519901_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v__3519246_37= co->res;
-Obj v__3517797_37 = R[1];
-Obj v__3517799_37 = v__3519246_37;
-R[1] = v__3517797_37;
+Obj v__3521350_37= co->res;
+Obj v__3519901_37 = R[1];
+Obj v__3519903_37 = v__3521350_37;
+R[1] = v__3519901_37;
 saveCont(co, clofun112, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517797_37, v__3517799_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519901_37, v__3519903_37);
 return;
 }
 case 3:
 {
-Obj v__3519245_37= co->res;
-Obj v__3517797_37 = R[1];
-Obj v__3517798_37 = v__3519245_37;
-R[1] = v__3517797_37;
+Obj v__3521349_37= co->res;
+Obj v__3519901_37 = R[1];
+Obj v__3519902_37 = v__3521349_37;
+R[1] = v__3519901_37;
 saveCont(co, clofun112, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, v__3517798_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, v__3519902_37);
 return;
 }
 case 4:
 {
-Obj v__3519244_37= co->res;
-Obj v_exp = R[1];
-Obj v__3517797_37 = R[2];
-R[1] = v__3517797_37;
+Obj v__3521348_37= co->res;
+Obj v__3519571_37 = R[1];
+Obj v__3519901_37 = R[2];
+R[1] = v__3519901_37;
 saveCont(co, clofun112, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517797_37, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3519901_37, v__3519571_37);
 return;
 }
 case 5:
 {
-Obj v__3519243_37= co->res;
-Obj v_exp = R[1];
-Obj v__3517797_37 = R[2];
-R[1] = v_exp;
-R[2] = v__3517797_37;
+Obj v__3521347_37= co->res;
+Obj v__3519571_37 = R[1];
+Obj v__3519901_37 = R[2];
+R[1] = v__3519571_37;
+R[2] = v__3519901_37;
 saveCont(co, clofun112, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3517797_37, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519901_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v__3519242_37= co->res;
-Obj v_exp = R[1];
-Obj v__3517797_37 = v__3519242_37;
-R[1] = v_exp;
-R[2] = v__3517797_37;
+Obj v__3521346_37= co->res;
+Obj v__3519571_37 = R[1];
+Obj v__3519901_37 = v__3521346_37;
+R[1] = v__3519571_37;
+R[2] = v__3519901_37;
 saveCont(co, clofun112, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3517797_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519901_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2379,9 +2379,9 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3519570_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), Nil, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), Nil, v__3519570_37);
 return;
 }
 }
@@ -2391,9 +2391,9 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3519569_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v_exp, globalRef(co, getBinding(co, packageID, 72)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519569_37, globalRef(co, getBinding(co, packageID, 72)));
 return;
 }
 }
@@ -2403,9 +2403,9 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3519568_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), Nil, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), Nil, v__3519568_37);
 return;
 }
 }
@@ -2415,10 +2415,10 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_exp = R[2];
+Obj v__3519566_37 = R[1];
+Obj v__3519567_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), Nil, v_globals, v_exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), Nil, v__3519566_37, v__3519567_37);
 return;
 }
 }
@@ -2428,39 +2428,39 @@ static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_w = R[1];
-Obj v_label = R[2];
-R[1] = v_label;
-R[2] = v_w;
+Obj v__3519564_37 = R[1];
+Obj v__3519565_37 = R[2];
+R[1] = v__3519565_37;
+R[2] = v__3519564_37;
 saveCont(co, clofun107, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519564_37, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v__3519236_37= co->res;
-Obj v_w = R[1];
+Obj v__3521340_37= co->res;
+Obj v__3519564_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519564_37, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519235_37= co->res;
-Obj v_w = R[1];
-R[1] = v_w;
+Obj v__3521339_37= co->res;
+Obj v__3519564_37 = R[1];
+R[1] = v__3519564_37;
 saveCont(co, clofun107, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519564_37, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v__3519234_37= co->res;
-Obj v_label = R[1];
-Obj v_w = R[2];
-R[1] = v_w;
+Obj v__3521338_37= co->res;
+Obj v__3519565_37 = R[1];
+Obj v__3519564_37 = R[2];
+R[1] = v__3519564_37;
 saveCont(co, clofun107, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v_w, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519564_37, v__3519565_37);
 return;
 }
 }
@@ -2470,21 +2470,21 @@ static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_w = R[1];
-Obj v_label = R[2];
-R[1] = v_w;
-R[2] = v_label;
+Obj v__3519562_37 = R[1];
+Obj v__3519563_37 = R[2];
+R[1] = v__3519562_37;
+R[2] = v__3519563_37;
 saveCont(co, clofun106, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v_w, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519562_37, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v__3519232_37= co->res;
-Obj v_w = R[1];
-Obj v_label = R[2];
+Obj v__3521336_37= co->res;
+Obj v__3519562_37 = R[1];
+Obj v__3519563_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519562_37, v__3519563_37);
 return;
 }
 }
@@ -2494,136 +2494,136 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517537_37 = R[1];
-Obj v__3517538_37 = R[2];
-Obj v__3517539_37 = R[3];
-Obj v__3517540_37 = R[4];
-Obj v__3517541_37 = R[5];
-Obj v__3517793_37 = makeNative(co->gc, 1, clofun104, 0, 0);
-Obj v__3519210_37 = PRIM_ISCONS(v__3517541_37);
-if (True == v__3519210_37) {
-Obj v__3519211_37 = PRIM_CAR(v__3517541_37);
-Obj v__3519212_37 = PRIM_EQ(getBinding(co, packageID, 64).name, v__3519211_37);
-if (True == v__3519212_37) {
-Obj v__3519213_37 = PRIM_CDR(v__3517541_37);
-Obj v__3519214_37 = PRIM_ISCONS(v__3519213_37);
-if (True == v__3519214_37) {
-Obj v__3519215_37 = PRIM_CDR(v__3517541_37);
-Obj v__3519216_37 = PRIM_CAR(v__3519215_37);
-Obj v__3517794_37 = v__3519216_37;
-Obj v__3519217_37 = PRIM_CDR(v__3517541_37);
-Obj v__3519218_37 = PRIM_CDR(v__3519217_37);
-Obj v__3519219_37 = PRIM_ISCONS(v__3519218_37);
-if (True == v__3519219_37) {
-Obj v__3519220_37 = PRIM_CDR(v__3517541_37);
-Obj v__3519221_37 = PRIM_CDR(v__3519220_37);
-Obj v__3519222_37 = PRIM_CAR(v__3519221_37);
-Obj v__3517795_37 = v__3519222_37;
-Obj v__3519223_37 = PRIM_CDR(v__3517541_37);
-Obj v__3519224_37 = PRIM_CDR(v__3519223_37);
-Obj v__3519225_37 = PRIM_CDR(v__3519224_37);
-Obj v__3517796_37 = v__3519225_37;
-R[1] = v__3517794_37;
-R[2] = v__3517796_37;
-R[3] = v__3517537_37;
-R[4] = v__3517538_37;
-R[5] = v__3517539_37;
-R[6] = v__3517540_37;
-R[7] = v__3517795_37;
+Obj v__3519553_37 = R[1];
+Obj v__3519554_37 = R[2];
+Obj v__3519555_37 = R[3];
+Obj v__3519556_37 = R[4];
+Obj v__3519557_37 = R[5];
+Obj v__3519897_37 = makeNative(co->gc, 1, clofun104, 0, 0);
+Obj v__3521314_37 = PRIM_ISCONS(v__3519557_37);
+if (True == v__3521314_37) {
+Obj v__3521315_37 = PRIM_CAR(v__3519557_37);
+Obj v__3521316_37 = PRIM_EQ(getBinding(co, packageID, 64).name, v__3521315_37);
+if (True == v__3521316_37) {
+Obj v__3521317_37 = PRIM_CDR(v__3519557_37);
+Obj v__3521318_37 = PRIM_ISCONS(v__3521317_37);
+if (True == v__3521318_37) {
+Obj v__3521319_37 = PRIM_CDR(v__3519557_37);
+Obj v__3521320_37 = PRIM_CAR(v__3521319_37);
+Obj v__3519898_37 = v__3521320_37;
+Obj v__3521321_37 = PRIM_CDR(v__3519557_37);
+Obj v__3521322_37 = PRIM_CDR(v__3521321_37);
+Obj v__3521323_37 = PRIM_ISCONS(v__3521322_37);
+if (True == v__3521323_37) {
+Obj v__3521324_37 = PRIM_CDR(v__3519557_37);
+Obj v__3521325_37 = PRIM_CDR(v__3521324_37);
+Obj v__3521326_37 = PRIM_CAR(v__3521325_37);
+Obj v__3519899_37 = v__3521326_37;
+Obj v__3521327_37 = PRIM_CDR(v__3519557_37);
+Obj v__3521328_37 = PRIM_CDR(v__3521327_37);
+Obj v__3521329_37 = PRIM_CDR(v__3521328_37);
+Obj v__3519900_37 = v__3521329_37;
+R[1] = v__3519898_37;
+R[2] = v__3519900_37;
+R[3] = v__3519553_37;
+R[4] = v__3519554_37;
+R[5] = v__3519555_37;
+R[6] = v__3519556_37;
+R[7] = v__3519899_37;
 saveCont(co, clofun105, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517540_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519556_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517793_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517793_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517793_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517793_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519230_37= co->res;
-Obj v__3517537_37 = R[1];
-Obj v__3517538_37 = R[2];
-Obj v__3517539_37 = R[3];
-Obj v__3517540_37 = R[4];
-Obj v__3517795_37 = R[5];
+Obj v__3521334_37= co->res;
+Obj v__3519553_37 = R[1];
+Obj v__3519554_37 = R[2];
+Obj v__3519555_37 = R[3];
+Obj v__3519556_37 = R[4];
+Obj v__3519899_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v__3517537_37, v__3517538_37, v__3517539_37, v__3517540_37, v__3517795_37};
+Obj __args[5] = {v__3519553_37, v__3519554_37, v__3519555_37, v__3519556_37, v__3519899_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v__3519229_37= co->res;
-Obj v__3517796_37 = R[1];
-Obj v__3517537_37 = R[2];
-Obj v__3517538_37 = R[3];
-Obj v__3517539_37 = R[4];
-Obj v__3517540_37 = R[5];
-Obj v__3517795_37 = R[6];
-R[1] = v__3517537_37;
-R[2] = v__3517538_37;
-R[3] = v__3517539_37;
-R[4] = v__3517540_37;
-R[5] = v__3517795_37;
+Obj v__3521333_37= co->res;
+Obj v__3519900_37 = R[1];
+Obj v__3519553_37 = R[2];
+Obj v__3519554_37 = R[3];
+Obj v__3519555_37 = R[4];
+Obj v__3519556_37 = R[5];
+Obj v__3519899_37 = R[6];
+R[1] = v__3519553_37;
+R[2] = v__3519554_37;
+R[3] = v__3519555_37;
+R[4] = v__3519556_37;
+R[5] = v__3519899_37;
 saveCont(co, clofun105, 1, R);
-Obj __args[5] = {v__3517537_37, v__3517538_37, v__3517539_37, v__3517540_37, v__3517796_37};
+Obj __args[5] = {v__3519553_37, v__3519554_37, v__3519555_37, v__3519556_37, v__3519900_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519228_37= co->res;
-Obj v__3517796_37 = R[1];
-Obj v__3517537_37 = R[2];
-Obj v__3517538_37 = R[3];
-Obj v__3517539_37 = R[4];
-Obj v__3517540_37 = R[5];
-Obj v__3517795_37 = R[6];
-R[1] = v__3517796_37;
-R[2] = v__3517537_37;
-R[3] = v__3517538_37;
-R[4] = v__3517539_37;
-R[5] = v__3517540_37;
-R[6] = v__3517795_37;
+Obj v__3521332_37= co->res;
+Obj v__3519900_37 = R[1];
+Obj v__3519553_37 = R[2];
+Obj v__3519554_37 = R[3];
+Obj v__3519555_37 = R[4];
+Obj v__3519556_37 = R[5];
+Obj v__3519899_37 = R[6];
+R[1] = v__3519900_37;
+R[2] = v__3519553_37;
+R[3] = v__3519554_37;
+R[4] = v__3519555_37;
+R[5] = v__3519556_37;
+R[6] = v__3519899_37;
 saveCont(co, clofun105, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517540_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519556_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v__3519226_37= co->res;
-Obj v__3517794_37 = R[1];
-Obj v__3517796_37 = R[2];
-Obj v__3517537_37 = R[3];
-Obj v__3517538_37 = R[4];
-Obj v__3517539_37 = R[5];
-Obj v__3517540_37 = R[6];
-Obj v__3517795_37 = R[7];
-Obj v__3519227_37 = PRIM_CAR(v__3517794_37);
-R[1] = v__3517796_37;
-R[2] = v__3517537_37;
-R[3] = v__3517538_37;
-R[4] = v__3517539_37;
-R[5] = v__3517540_37;
-R[6] = v__3517795_37;
+Obj v__3521330_37= co->res;
+Obj v__3519898_37 = R[1];
+Obj v__3519900_37 = R[2];
+Obj v__3519553_37 = R[3];
+Obj v__3519554_37 = R[4];
+Obj v__3519555_37 = R[5];
+Obj v__3519556_37 = R[6];
+Obj v__3519899_37 = R[7];
+Obj v__3521331_37 = PRIM_CAR(v__3519898_37);
+R[1] = v__3519900_37;
+R[2] = v__3519553_37;
+R[3] = v__3519554_37;
+R[4] = v__3519555_37;
+R[5] = v__3519556_37;
+R[6] = v__3519899_37;
 saveCont(co, clofun105, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), v__3517540_37, v__3519227_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), v__3519556_37, v__3521331_37);
 return;
 }
 }
@@ -2644,25 +2644,25 @@ static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_self = R[2];
-Obj v_env = R[3];
-Obj v_w = R[4];
-Obj v_l = R[5];
-Obj v__3519196_37 = primGenSym(co);
-Obj v__3517790_37 = v__3519196_37;
-Obj v__3519207_37 = primSet(co, v__3517790_37, makeNative(co->gc, 2, clofun102, 1, 5, v_globals, v_self, v_env, v_w, v__3517790_37));
-R[1] = v_l;
+Obj v__3519542_37 = R[1];
+Obj v__3519543_37 = R[2];
+Obj v__3519544_37 = R[3];
+Obj v__3519545_37 = R[4];
+Obj v__3519546_37 = R[5];
+Obj v__3521300_37 = primGenSym(co);
+Obj v__3519894_37 = v__3521300_37;
+Obj v__3521311_37 = primSet(co, v__3519894_37, makeNative(co->gc, 2, clofun102, 1, 5, v__3519542_37, v__3519543_37, v__3519544_37, v__3519545_37, v__3519894_37));
+R[1] = v__3519546_37;
 saveCont(co, clofun103, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517790_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519894_37);
 return;
 }
 case 1:
 {
-Obj v__3519208_37= co->res;
-Obj v_l = R[1];
+Obj v__3521312_37= co->res;
+Obj v__3519546_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519208_37, v_l);
+coraCall1(co, v__3521312_37, v__3519546_37);
 return;
 }
 }
@@ -2672,21 +2672,21 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3519197_37 = PRIM_EQ(Nil, v_x);
-if (True == v__3519197_37) {
+Obj v__3519548_37 = R[1];
+Obj v__3521301_37 = PRIM_EQ(Nil, v__3519548_37);
+if (True == v__3521301_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519198_37 = PRIM_ISCONS(v_x);
-if (True == v__3519198_37) {
-Obj v__3519199_37 = PRIM_CAR(v_x);
-Obj v__3517791_37 = v__3519199_37;
-Obj v__3519200_37 = PRIM_CDR(v_x);
-Obj v__3517792_37 = v__3519200_37;
-R[1] = v__3517792_37;
+Obj v__3521302_37 = PRIM_ISCONS(v__3519548_37);
+if (True == v__3521302_37) {
+Obj v__3521303_37 = PRIM_CAR(v__3519548_37);
+Obj v__3519895_37 = v__3521303_37;
+Obj v__3521304_37 = PRIM_CDR(v__3519548_37);
+Obj v__3519896_37 = v__3521304_37;
+R[1] = v__3519896_37;
 saveCont(co, clofun102, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517791_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519895_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 } else {
@@ -2698,42 +2698,42 @@ return;
 }
 case 1:
 {
-Obj v__3519205_37= co->res;
-Obj v__3517792_37 = R[1];
+Obj v__3521309_37= co->res;
+Obj v__3519896_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519205_37, v__3517792_37);
+coraCall1(co, v__3521309_37, v__3519896_37);
 return;
 }
 case 2:
 {
-Obj v__3519204_37= co->res;
-Obj v__3517792_37 = R[1];
-R[1] = v__3517792_37;
+Obj v__3521308_37= co->res;
+Obj v__3519896_37 = R[1];
+R[1] = v__3519896_37;
 saveCont(co, clofun102, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519206_37= co->res;
-Obj v__3517792_37 = R[1];
+Obj v__3521310_37= co->res;
+Obj v__3519896_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519206_37, v__3517792_37);
+coraCall1(co, v__3521310_37, v__3519896_37);
 return;
 }
 case 4:
 {
-Obj v__3519202_37= co->res;
-Obj v__3517792_37 = R[1];
-Obj v__3519203_37 = primNot(v__3519202_37);
-if (True == v__3519203_37) {
-R[1] = v__3517792_37;
+Obj v__3521306_37= co->res;
+Obj v__3519896_37 = R[1];
+Obj v__3521307_37 = primNot(v__3521306_37);
+if (True == v__3521307_37) {
+R[1] = v__3519896_37;
 saveCont(co, clofun102, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = v__3517792_37;
+R[1] = v__3519896_37;
 saveCont(co, clofun102, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
@@ -2741,11 +2741,11 @@ return;
 }
 case 5:
 {
-Obj v__3519201_37= co->res;
-Obj v__3517792_37 = R[1];
-R[1] = v__3517792_37;
+Obj v__3521305_37= co->res;
+Obj v__3519896_37 = R[1];
+R[1] = v__3519896_37;
 saveCont(co, clofun102, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517792_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519896_37);
 return;
 }
 }
@@ -2755,27 +2755,27 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_self = R[2];
-Obj v_env1 = R[3];
-Obj v_w = R[4];
-Obj v_x1 = R[5];
-Obj v__3518909_37 = primGenSym(co);
-Obj v__3517753_37 = v__3518909_37;
-Obj v__3519193_37 = primSet(co, v__3517753_37, makeNative(co->gc, 3, clofun100, 2, 4, v_self, v__3517753_37, v_globals, v_w));
-R[1] = v_x1;
-R[2] = v_env1;
+Obj v__3519498_37 = R[1];
+Obj v__3519499_37 = R[2];
+Obj v__3519500_37 = R[3];
+Obj v__3519501_37 = R[4];
+Obj v__3519502_37 = R[5];
+Obj v__3521013_37 = primGenSym(co);
+Obj v__3519857_37 = v__3521013_37;
+Obj v__3521297_37 = primSet(co, v__3519857_37, makeNative(co->gc, 3, clofun100, 2, 4, v__3519499_37, v__3519857_37, v__3519498_37, v__3519501_37));
+R[1] = v__3519502_37;
+R[2] = v__3519500_37;
 saveCont(co, clofun101, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3517753_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519857_37);
 return;
 }
 case 1:
 {
-Obj v__3519194_37= co->res;
-Obj v_x1 = R[1];
-Obj v_env1 = R[2];
+Obj v__3521298_37= co->res;
+Obj v__3519502_37 = R[1];
+Obj v__3519500_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3519194_37, v_x1, v_env1);
+coraCall2(co, v__3521298_37, v__3519502_37, v__3519500_37);
 return;
 }
 }
@@ -2785,76 +2785,76 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x2 = R[1];
-Obj v_env = R[2];
-Obj v__3518910_37 = primIsSymbol(v_x2);
-if (True == v__3518910_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v_x2);
-return;
-} else {
-Obj v__3517754_37 = makeNative(co->gc, 2, clofun99, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v__3519180_37 = PRIM_ISCONS(v_x2);
-if (True == v__3519180_37) {
-Obj v__3519181_37 = PRIM_CAR(v_x2);
-Obj v__3519182_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3519181_37);
-if (True == v__3519182_37) {
-Obj v__3519183_37 = PRIM_CDR(v_x2);
-Obj v__3519184_37 = PRIM_ISCONS(v__3519183_37);
-if (True == v__3519184_37) {
-Obj v__3519185_37 = PRIM_CDR(v_x2);
-Obj v__3519186_37 = PRIM_CAR(v__3519185_37);
-Obj v__3517789_37 = v__3519186_37;
-Obj v__3519187_37 = PRIM_CDR(v_x2);
-Obj v__3519188_37 = PRIM_CDR(v__3519187_37);
-Obj v__3519189_37 = PRIM_EQ(Nil, v__3519188_37);
-if (True == v__3519189_37) {
-R[1] = v__3517789_37;
+Obj v__3519504_37 = R[1];
+Obj v__3519505_37 = R[2];
+Obj v__3521014_37 = primIsSymbol(v__3519504_37);
+if (True == v__3521014_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3519504_37);
+return;
+} else {
+Obj v__3519858_37 = makeNative(co->gc, 2, clofun99, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v__3519505_37, closureRef(R[0], 2), v__3519504_37, closureRef(R[0], 3));
+Obj v__3521284_37 = PRIM_ISCONS(v__3519504_37);
+if (True == v__3521284_37) {
+Obj v__3521285_37 = PRIM_CAR(v__3519504_37);
+Obj v__3521286_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3521285_37);
+if (True == v__3521286_37) {
+Obj v__3521287_37 = PRIM_CDR(v__3519504_37);
+Obj v__3521288_37 = PRIM_ISCONS(v__3521287_37);
+if (True == v__3521288_37) {
+Obj v__3521289_37 = PRIM_CDR(v__3519504_37);
+Obj v__3521290_37 = PRIM_CAR(v__3521289_37);
+Obj v__3519893_37 = v__3521290_37;
+Obj v__3521291_37 = PRIM_CDR(v__3519504_37);
+Obj v__3521292_37 = PRIM_CDR(v__3521291_37);
+Obj v__3521293_37 = PRIM_EQ(Nil, v__3521292_37);
+if (True == v__3521293_37) {
+R[1] = v__3519893_37;
 saveCont(co, clofun100, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517754_37);
+coraCall0(co, v__3519858_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517754_37);
+coraCall0(co, v__3519858_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517754_37);
+coraCall0(co, v__3519858_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517754_37);
+coraCall0(co, v__3519858_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519192_37= co->res;
+Obj v__3521296_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v__3519191_37= co->res;
+Obj v__3521295_37= co->res;
 saveCont(co, clofun100, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519191_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3521295_37);
 return;
 }
 case 3:
 {
-Obj v__3519190_37= co->res;
-Obj v__3517789_37 = R[1];
+Obj v__3521294_37= co->res;
+Obj v__3519893_37 = R[1];
 saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3517789_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3519893_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -2864,60 +2864,60 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517755_37 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v__3519168_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v__3519168_37) {
-Obj v__3519169_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj v__3519170_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3519169_37);
-if (True == v__3519170_37) {
-Obj v__3519171_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519172_37 = PRIM_ISCONS(v__3519171_37);
-if (True == v__3519172_37) {
-Obj v__3519173_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519174_37 = PRIM_CAR(v__3519173_37);
-Obj v__3517788_37 = v__3519174_37;
-Obj v__3519175_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519176_37 = PRIM_CDR(v__3519175_37);
-Obj v__3519177_37 = PRIM_EQ(Nil, v__3519176_37);
-if (True == v__3519177_37) {
-R[1] = v__3517788_37;
+Obj v__3519859_37 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3521272_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3521272_37) {
+Obj v__3521273_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3521274_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3521273_37);
+if (True == v__3521274_37) {
+Obj v__3521275_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521276_37 = PRIM_ISCONS(v__3521275_37);
+if (True == v__3521276_37) {
+Obj v__3521277_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521278_37 = PRIM_CAR(v__3521277_37);
+Obj v__3519892_37 = v__3521278_37;
+Obj v__3521279_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521280_37 = PRIM_CDR(v__3521279_37);
+Obj v__3521281_37 = PRIM_EQ(Nil, v__3521280_37);
+if (True == v__3521281_37) {
+R[1] = v__3519892_37;
 saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517755_37);
+coraCall0(co, v__3519859_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517755_37);
+coraCall0(co, v__3519859_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517755_37);
+coraCall0(co, v__3519859_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517755_37);
+coraCall0(co, v__3519859_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519179_37= co->res;
+Obj v__3521283_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519178_37= co->res;
-Obj v__3517788_37 = R[1];
+Obj v__3521282_37= co->res;
+Obj v__3519892_37 = R[1];
 saveCont(co, clofun99, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517788_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519892_37);
 return;
 }
 }
@@ -2927,145 +2927,145 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517756_37 = makeNative(co->gc, 4, clofun97, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3519144_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3519144_37) {
-Obj v__3519145_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3519146_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3519145_37);
-if (True == v__3519146_37) {
-Obj v__3519147_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519148_37 = PRIM_ISCONS(v__3519147_37);
-if (True == v__3519148_37) {
-Obj v__3519149_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519150_37 = PRIM_CAR(v__3519149_37);
-Obj v__3517787_37 = v__3519150_37;
-Obj v__3519151_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519152_37 = PRIM_CDR(v__3519151_37);
-Obj v__3519153_37 = PRIM_EQ(Nil, v__3519152_37);
-if (True == v__3519153_37) {
-Obj v__3519154_37 = primIsSymbol(v__3517787_37);
-if (True == v__3519154_37) {
-R[1] = v__3517787_37;
+Obj v__3519860_37 = makeNative(co->gc, 4, clofun97, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3521248_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3521248_37) {
+Obj v__3521249_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3521250_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521249_37);
+if (True == v__3521250_37) {
+Obj v__3521251_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521252_37 = PRIM_ISCONS(v__3521251_37);
+if (True == v__3521252_37) {
+Obj v__3521253_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521254_37 = PRIM_CAR(v__3521253_37);
+Obj v__3519891_37 = v__3521254_37;
+Obj v__3521255_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521256_37 = PRIM_CDR(v__3521255_37);
+Obj v__3521257_37 = PRIM_EQ(Nil, v__3521256_37);
+if (True == v__3521257_37) {
+Obj v__3521258_37 = primIsSymbol(v__3519891_37);
+if (True == v__3521258_37) {
+R[1] = v__3519891_37;
 saveCont(co, clofun98, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = v__3517787_37;
+R[1] = v__3519891_37;
 saveCont(co, clofun98, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517787_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3519891_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517756_37);
+coraCall0(co, v__3519860_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517756_37);
+coraCall0(co, v__3519860_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517756_37);
+coraCall0(co, v__3519860_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517756_37);
+coraCall0(co, v__3519860_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519157_37= co->res;
+Obj v__3521261_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v__3519156_37= co->res;
+Obj v__3521260_37= co->res;
 saveCont(co, clofun98, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519156_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3521260_37);
 return;
 }
 case 3:
 {
-Obj v__3519155_37= co->res;
-Obj v__3517787_37 = R[1];
+Obj v__3521259_37= co->res;
+Obj v__3519891_37 = R[1];
 saveCont(co, clofun98, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3517787_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3519891_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3519160_37= co->res;
+Obj v__3521264_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v__3519159_37= co->res;
-Obj v__3517787_37 = R[1];
+Obj v__3521263_37= co->res;
+Obj v__3519891_37 = R[1];
 saveCont(co, clofun98, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517787_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519891_37);
 return;
 }
 case 6:
 {
-Obj v__3519164_37= co->res;
+Obj v__3521268_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v__3519163_37= co->res;
+Obj v__3521267_37= co->res;
 saveCont(co, clofun98, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3519163_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3521267_37);
 return;
 }
 case 8:
 {
-Obj v__3519162_37= co->res;
-Obj v__3517787_37 = R[1];
+Obj v__3521266_37= co->res;
+Obj v__3519891_37 = R[1];
 saveCont(co, clofun98, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3517787_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3519891_37);
 return;
 }
 case 9:
 {
-Obj v__3519158_37= co->res;
-Obj v__3517787_37 = R[1];
-if (True == v__3519158_37) {
-R[1] = v__3517787_37;
+Obj v__3521262_37= co->res;
+Obj v__3519891_37 = R[1];
+if (True == v__3521262_37) {
+R[1] = v__3519891_37;
 saveCont(co, clofun98, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v__3519161_37 = primIsString(v__3517787_37);
-if (True == v__3519161_37) {
-R[1] = v__3517787_37;
+Obj v__3521265_37 = primIsString(v__3519891_37);
+if (True == v__3521265_37) {
+R[1] = v__3519891_37;
 saveCont(co, clofun98, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v__3519165_37 = PRIM_EQ(v__3517787_37, Nil);
-if (True == v__3519165_37) {
+Obj v__3521269_37 = PRIM_EQ(v__3519891_37, Nil);
+if (True == v__3521269_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v__3519166_37 = PRIM_EQ(v__3517787_37, True);
-if (True == v__3519166_37) {
+Obj v__3521270_37 = PRIM_EQ(v__3519891_37, True);
+if (True == v__3521270_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v__3519167_37 = PRIM_EQ(v__3517787_37, False);
-if (True == v__3519167_37) {
+Obj v__3521271_37 = PRIM_EQ(v__3519891_37, False);
+if (True == v__3521271_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3086,171 +3086,171 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517757_37 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3519109_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3519109_37) {
-Obj v__3519110_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3519111_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3519110_37);
-if (True == v__3519111_37) {
-Obj v__3519112_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519113_37 = PRIM_ISCONS(v__3519112_37);
-if (True == v__3519113_37) {
-Obj v__3519114_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519115_37 = PRIM_CAR(v__3519114_37);
-Obj v__3517784_37 = v__3519115_37;
-Obj v__3519116_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519117_37 = PRIM_CDR(v__3519116_37);
-Obj v__3519118_37 = PRIM_ISCONS(v__3519117_37);
-if (True == v__3519118_37) {
-Obj v__3519119_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519120_37 = PRIM_CDR(v__3519119_37);
-Obj v__3519121_37 = PRIM_CAR(v__3519120_37);
-Obj v__3517785_37 = v__3519121_37;
-Obj v__3519122_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519123_37 = PRIM_CDR(v__3519122_37);
-Obj v__3519124_37 = PRIM_CDR(v__3519123_37);
-Obj v__3519125_37 = PRIM_ISCONS(v__3519124_37);
-if (True == v__3519125_37) {
-Obj v__3519126_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519127_37 = PRIM_CDR(v__3519126_37);
-Obj v__3519128_37 = PRIM_CDR(v__3519127_37);
-Obj v__3519129_37 = PRIM_CAR(v__3519128_37);
-Obj v__3517786_37 = v__3519129_37;
-Obj v__3519130_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519131_37 = PRIM_CDR(v__3519130_37);
-Obj v__3519132_37 = PRIM_CDR(v__3519131_37);
-Obj v__3519133_37 = PRIM_CDR(v__3519132_37);
-Obj v__3519134_37 = PRIM_EQ(Nil, v__3519133_37);
-if (True == v__3519134_37) {
-R[1] = v__3517785_37;
-R[2] = v__3517784_37;
-R[3] = v__3517786_37;
+Obj v__3519861_37 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521213_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521213_37) {
+Obj v__3521214_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521215_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3521214_37);
+if (True == v__3521215_37) {
+Obj v__3521216_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521217_37 = PRIM_ISCONS(v__3521216_37);
+if (True == v__3521217_37) {
+Obj v__3521218_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521219_37 = PRIM_CAR(v__3521218_37);
+Obj v__3519888_37 = v__3521219_37;
+Obj v__3521220_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521221_37 = PRIM_CDR(v__3521220_37);
+Obj v__3521222_37 = PRIM_ISCONS(v__3521221_37);
+if (True == v__3521222_37) {
+Obj v__3521223_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521224_37 = PRIM_CDR(v__3521223_37);
+Obj v__3521225_37 = PRIM_CAR(v__3521224_37);
+Obj v__3519889_37 = v__3521225_37;
+Obj v__3521226_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521227_37 = PRIM_CDR(v__3521226_37);
+Obj v__3521228_37 = PRIM_CDR(v__3521227_37);
+Obj v__3521229_37 = PRIM_ISCONS(v__3521228_37);
+if (True == v__3521229_37) {
+Obj v__3521230_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521231_37 = PRIM_CDR(v__3521230_37);
+Obj v__3521232_37 = PRIM_CDR(v__3521231_37);
+Obj v__3521233_37 = PRIM_CAR(v__3521232_37);
+Obj v__3519890_37 = v__3521233_37;
+Obj v__3521234_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521235_37 = PRIM_CDR(v__3521234_37);
+Obj v__3521236_37 = PRIM_CDR(v__3521235_37);
+Obj v__3521237_37 = PRIM_CDR(v__3521236_37);
+Obj v__3521238_37 = PRIM_EQ(Nil, v__3521237_37);
+if (True == v__3521238_37) {
+R[1] = v__3519889_37;
+R[2] = v__3519888_37;
+R[3] = v__3519890_37;
 saveCont(co, clofun97, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3517784_37, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3519888_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517757_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517757_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517757_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517757_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517757_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517757_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519142_37= co->res;
-Obj v__3517784_37 = R[1];
-Obj v__3517786_37 = R[2];
-Obj v__3519143_37 = makeCons(co->gc, v__3517784_37, closureRef(R[0], 5));
+Obj v__3521246_37= co->res;
+Obj v__3519888_37 = R[1];
+Obj v__3519890_37 = R[2];
+Obj v__3521247_37 = makeCons(co->gc, v__3519888_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v__3519142_37, v__3517786_37, v__3519143_37);
+coraCall2(co, v__3521246_37, v__3519890_37, v__3521247_37);
 return;
 }
 case 2:
 {
-Obj v__3519141_37= co->res;
-Obj v__3517784_37 = R[1];
-Obj v__3517786_37 = R[2];
-R[1] = v__3517784_37;
-R[2] = v__3517786_37;
+Obj v__3521245_37= co->res;
+Obj v__3519888_37 = R[1];
+Obj v__3519890_37 = R[2];
+R[1] = v__3519888_37;
+R[2] = v__3519890_37;
 saveCont(co, clofun97, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519140_37= co->res;
-Obj v__3517784_37 = R[1];
-Obj v__3517786_37 = R[2];
-R[1] = v__3517784_37;
-R[2] = v__3517786_37;
+Obj v__3521244_37= co->res;
+Obj v__3519888_37 = R[1];
+Obj v__3519890_37 = R[2];
+R[1] = v__3519888_37;
+R[2] = v__3519890_37;
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3519139_37= co->res;
-Obj v__3517785_37 = R[1];
-Obj v__3517784_37 = R[2];
-Obj v__3517786_37 = R[3];
-R[1] = v__3517784_37;
-R[2] = v__3517786_37;
+Obj v__3521243_37= co->res;
+Obj v__3519889_37 = R[1];
+Obj v__3519888_37 = R[2];
+Obj v__3519890_37 = R[3];
+R[1] = v__3519888_37;
+R[2] = v__3519890_37;
 saveCont(co, clofun97, 3, R);
-coraCall2(co, v__3519139_37, v__3517785_37, closureRef(R[0], 5));
+coraCall2(co, v__3521243_37, v__3519889_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v__3519138_37= co->res;
-Obj v__3517785_37 = R[1];
-Obj v__3517784_37 = R[2];
-Obj v__3517786_37 = R[3];
-R[1] = v__3517785_37;
-R[2] = v__3517784_37;
-R[3] = v__3517786_37;
+Obj v__3521242_37= co->res;
+Obj v__3519889_37 = R[1];
+Obj v__3519888_37 = R[2];
+Obj v__3519890_37 = R[3];
+R[1] = v__3519889_37;
+R[2] = v__3519888_37;
+R[3] = v__3519890_37;
 saveCont(co, clofun97, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3519137_37= co->res;
-Obj v__3517785_37 = R[1];
-Obj v__3517784_37 = R[2];
-Obj v__3517786_37 = R[3];
-R[1] = v__3517785_37;
-R[2] = v__3517784_37;
-R[3] = v__3517786_37;
+Obj v__3521241_37= co->res;
+Obj v__3519889_37 = R[1];
+Obj v__3519888_37 = R[2];
+Obj v__3519890_37 = R[3];
+R[1] = v__3519889_37;
+R[2] = v__3519888_37;
+R[3] = v__3519890_37;
 saveCont(co, clofun97, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v__3519136_37= co->res;
-Obj v__3517785_37 = R[1];
-Obj v__3517784_37 = R[2];
-Obj v__3517786_37 = R[3];
-R[1] = v__3517785_37;
-R[2] = v__3517784_37;
-R[3] = v__3517786_37;
+Obj v__3521240_37= co->res;
+Obj v__3519889_37 = R[1];
+Obj v__3519888_37 = R[2];
+Obj v__3519890_37 = R[3];
+R[1] = v__3519889_37;
+R[2] = v__3519888_37;
+R[3] = v__3519890_37;
 saveCont(co, clofun97, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3517784_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3519888_37);
 return;
 }
 case 8:
 {
-Obj v__3519135_37= co->res;
-Obj v__3517785_37 = R[1];
-Obj v__3517784_37 = R[2];
-Obj v__3517786_37 = R[3];
-R[1] = v__3517785_37;
-R[2] = v__3517784_37;
-R[3] = v__3517786_37;
+Obj v__3521239_37= co->res;
+Obj v__3519889_37 = R[1];
+Obj v__3519888_37 = R[2];
+Obj v__3519890_37 = R[3];
+R[1] = v__3519889_37;
+R[2] = v__3519888_37;
+R[3] = v__3519890_37;
 saveCont(co, clofun97, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
@@ -3262,153 +3262,153 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517758_37 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3519079_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3519079_37) {
-Obj v__3519080_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519081_37 = PRIM_ISCONS(v__3519080_37);
-if (True == v__3519081_37) {
-Obj v__3519082_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519083_37 = PRIM_CAR(v__3519082_37);
-Obj v__3519084_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3519083_37);
-if (True == v__3519084_37) {
-Obj v__3519085_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519086_37 = PRIM_CDR(v__3519085_37);
-Obj v__3519087_37 = PRIM_ISCONS(v__3519086_37);
-if (True == v__3519087_37) {
-Obj v__3519088_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519089_37 = PRIM_CDR(v__3519088_37);
-Obj v__3519090_37 = PRIM_CAR(v__3519089_37);
-Obj v__3517782_37 = v__3519090_37;
-Obj v__3519091_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519092_37 = PRIM_CDR(v__3519091_37);
-Obj v__3519093_37 = PRIM_CDR(v__3519092_37);
-Obj v__3519094_37 = PRIM_EQ(Nil, v__3519093_37);
-if (True == v__3519094_37) {
-Obj v__3519095_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3517783_37 = v__3519095_37;
-R[1] = v__3517782_37;
-R[2] = v__3517783_37;
+Obj v__3519862_37 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521183_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521183_37) {
+Obj v__3521184_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521185_37 = PRIM_ISCONS(v__3521184_37);
+if (True == v__3521185_37) {
+Obj v__3521186_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521187_37 = PRIM_CAR(v__3521186_37);
+Obj v__3521188_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3521187_37);
+if (True == v__3521188_37) {
+Obj v__3521189_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521190_37 = PRIM_CDR(v__3521189_37);
+Obj v__3521191_37 = PRIM_ISCONS(v__3521190_37);
+if (True == v__3521191_37) {
+Obj v__3521192_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521193_37 = PRIM_CDR(v__3521192_37);
+Obj v__3521194_37 = PRIM_CAR(v__3521193_37);
+Obj v__3519886_37 = v__3521194_37;
+Obj v__3521195_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521196_37 = PRIM_CDR(v__3521195_37);
+Obj v__3521197_37 = PRIM_CDR(v__3521196_37);
+Obj v__3521198_37 = PRIM_EQ(Nil, v__3521197_37);
+if (True == v__3521198_37) {
+Obj v__3521199_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519887_37 = v__3521199_37;
+R[1] = v__3519886_37;
+R[2] = v__3519887_37;
 saveCont(co, clofun96, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3517782_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3519886_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517758_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517758_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517758_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517758_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517758_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519100_37= co->res;
+Obj v__3521204_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519099_37= co->res;
-Obj v__3517783_37 = R[1];
+Obj v__3521203_37= co->res;
+Obj v__3519887_37 = R[1];
 saveCont(co, clofun96, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517783_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519887_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519103_37= co->res;
+Obj v__3521207_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v__3519102_37= co->res;
-Obj v__3517783_37 = R[1];
+Obj v__3521206_37= co->res;
+Obj v__3519887_37 = R[1];
 saveCont(co, clofun96, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517783_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519887_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v__3519106_37= co->res;
+Obj v__3521210_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v__3519105_37= co->res;
-Obj v__3517783_37 = R[1];
+Obj v__3521209_37= co->res;
+Obj v__3519887_37 = R[1];
 saveCont(co, clofun96, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517783_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519887_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3519108_37= co->res;
+Obj v__3521212_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v__3519107_37= co->res;
-Obj v__3517783_37 = R[1];
+Obj v__3521211_37= co->res;
+Obj v__3519887_37 = R[1];
 saveCont(co, clofun96, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517783_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519887_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3519097_37= co->res;
-Obj v__3517782_37 = R[1];
-Obj v__3517783_37 = R[2];
-Obj v__3519098_37 = PRIM_EQ(v__3517782_37, getBinding(co, packageID, 124).name);
-if (True == v__3519098_37) {
-R[1] = v__3517783_37;
+Obj v__3521201_37= co->res;
+Obj v__3519886_37 = R[1];
+Obj v__3519887_37 = R[2];
+Obj v__3521202_37 = PRIM_EQ(v__3519886_37, getBinding(co, packageID, 124).name);
+if (True == v__3521202_37) {
+R[1] = v__3519887_37;
 saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v__3519101_37 = PRIM_EQ(v__3517782_37, getBinding(co, packageID, 112).name);
-if (True == v__3519101_37) {
-R[1] = v__3517783_37;
+Obj v__3521205_37 = PRIM_EQ(v__3519886_37, getBinding(co, packageID, 112).name);
+if (True == v__3521205_37) {
+R[1] = v__3519887_37;
 saveCont(co, clofun96, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v__3519104_37 = PRIM_EQ(v__3517782_37, getBinding(co, packageID, 121).name);
-if (True == v__3519104_37) {
-R[1] = v__3517783_37;
+Obj v__3521208_37 = PRIM_EQ(v__3519886_37, getBinding(co, packageID, 121).name);
+if (True == v__3521208_37) {
+R[1] = v__3519887_37;
 saveCont(co, clofun96, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = v__3517783_37;
+R[1] = v__3519887_37;
 saveCont(co, clofun96, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
@@ -3418,13 +3418,13 @@ return;
 }
 case 10:
 {
-Obj v__3519096_37= co->res;
-Obj v__3517782_37 = R[1];
-Obj v__3517783_37 = R[2];
-R[1] = v__3517782_37;
-R[2] = v__3517783_37;
+Obj v__3521200_37= co->res;
+Obj v__3519886_37 = R[1];
+Obj v__3519887_37 = R[2];
+R[1] = v__3519886_37;
+R[2] = v__3519887_37;
 saveCont(co, clofun96, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3519096_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3521200_37);
 return;
 }
 }
@@ -3434,165 +3434,165 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517759_37 = makeNative(co->gc, 5, clofun94, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3519044_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3519044_37) {
-Obj v__3519045_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3519046_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3519045_37);
-if (True == v__3519046_37) {
-Obj v__3519047_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519048_37 = PRIM_ISCONS(v__3519047_37);
-if (True == v__3519048_37) {
-Obj v__3519049_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519050_37 = PRIM_CAR(v__3519049_37);
-Obj v__3517779_37 = v__3519050_37;
-Obj v__3519051_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519052_37 = PRIM_CDR(v__3519051_37);
-Obj v__3519053_37 = PRIM_ISCONS(v__3519052_37);
-if (True == v__3519053_37) {
-Obj v__3519054_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519055_37 = PRIM_CDR(v__3519054_37);
-Obj v__3519056_37 = PRIM_CAR(v__3519055_37);
-Obj v__3517780_37 = v__3519056_37;
-Obj v__3519057_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519058_37 = PRIM_CDR(v__3519057_37);
-Obj v__3519059_37 = PRIM_CDR(v__3519058_37);
-Obj v__3519060_37 = PRIM_ISCONS(v__3519059_37);
-if (True == v__3519060_37) {
-Obj v__3519061_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519062_37 = PRIM_CDR(v__3519061_37);
-Obj v__3519063_37 = PRIM_CDR(v__3519062_37);
-Obj v__3519064_37 = PRIM_CAR(v__3519063_37);
-Obj v__3517781_37 = v__3519064_37;
-Obj v__3519065_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519066_37 = PRIM_CDR(v__3519065_37);
-Obj v__3519067_37 = PRIM_CDR(v__3519066_37);
-Obj v__3519068_37 = PRIM_CDR(v__3519067_37);
-Obj v__3519069_37 = PRIM_EQ(Nil, v__3519068_37);
-if (True == v__3519069_37) {
-R[1] = v__3517779_37;
-R[2] = v__3517780_37;
-R[3] = v__3517781_37;
+Obj v__3519863_37 = makeNative(co->gc, 5, clofun94, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521148_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521148_37) {
+Obj v__3521149_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521150_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3521149_37);
+if (True == v__3521150_37) {
+Obj v__3521151_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521152_37 = PRIM_ISCONS(v__3521151_37);
+if (True == v__3521152_37) {
+Obj v__3521153_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521154_37 = PRIM_CAR(v__3521153_37);
+Obj v__3519883_37 = v__3521154_37;
+Obj v__3521155_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521156_37 = PRIM_CDR(v__3521155_37);
+Obj v__3521157_37 = PRIM_ISCONS(v__3521156_37);
+if (True == v__3521157_37) {
+Obj v__3521158_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521159_37 = PRIM_CDR(v__3521158_37);
+Obj v__3521160_37 = PRIM_CAR(v__3521159_37);
+Obj v__3519884_37 = v__3521160_37;
+Obj v__3521161_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521162_37 = PRIM_CDR(v__3521161_37);
+Obj v__3521163_37 = PRIM_CDR(v__3521162_37);
+Obj v__3521164_37 = PRIM_ISCONS(v__3521163_37);
+if (True == v__3521164_37) {
+Obj v__3521165_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521166_37 = PRIM_CDR(v__3521165_37);
+Obj v__3521167_37 = PRIM_CDR(v__3521166_37);
+Obj v__3521168_37 = PRIM_CAR(v__3521167_37);
+Obj v__3519885_37 = v__3521168_37;
+Obj v__3521169_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521170_37 = PRIM_CDR(v__3521169_37);
+Obj v__3521171_37 = PRIM_CDR(v__3521170_37);
+Obj v__3521172_37 = PRIM_CDR(v__3521171_37);
+Obj v__3521173_37 = PRIM_EQ(Nil, v__3521172_37);
+if (True == v__3521173_37) {
+R[1] = v__3519883_37;
+R[2] = v__3519884_37;
+R[3] = v__3519885_37;
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519078_37= co->res;
+Obj v__3521182_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v__3519077_37= co->res;
-Obj v__3517781_37 = R[1];
+Obj v__3521181_37= co->res;
+Obj v__3519885_37 = R[1];
 saveCont(co, clofun95, 1, R);
-coraCall2(co, v__3519077_37, v__3517781_37, closureRef(R[0], 4));
+coraCall2(co, v__3521181_37, v__3519885_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519076_37= co->res;
-Obj v__3517781_37 = R[1];
-R[1] = v__3517781_37;
+Obj v__3521180_37= co->res;
+Obj v__3519885_37 = R[1];
+R[1] = v__3519885_37;
 saveCont(co, clofun95, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3519075_37= co->res;
-Obj v__3517781_37 = R[1];
-R[1] = v__3517781_37;
+Obj v__3521179_37= co->res;
+Obj v__3519885_37 = R[1];
+R[1] = v__3519885_37;
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v__3519074_37= co->res;
-Obj v__3517780_37 = R[1];
-Obj v__3517781_37 = R[2];
-R[1] = v__3517781_37;
+Obj v__3521178_37= co->res;
+Obj v__3519884_37 = R[1];
+Obj v__3519885_37 = R[2];
+R[1] = v__3519885_37;
 saveCont(co, clofun95, 4, R);
-coraCall2(co, v__3519074_37, v__3517780_37, closureRef(R[0], 4));
+coraCall2(co, v__3521178_37, v__3519884_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3519073_37= co->res;
-Obj v__3517780_37 = R[1];
-Obj v__3517781_37 = R[2];
-R[1] = v__3517780_37;
-R[2] = v__3517781_37;
+Obj v__3521177_37= co->res;
+Obj v__3519884_37 = R[1];
+Obj v__3519885_37 = R[2];
+R[1] = v__3519884_37;
+R[2] = v__3519885_37;
 saveCont(co, clofun95, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v__3519072_37= co->res;
-Obj v__3517780_37 = R[1];
-Obj v__3517781_37 = R[2];
-R[1] = v__3517780_37;
-R[2] = v__3517781_37;
+Obj v__3521176_37= co->res;
+Obj v__3519884_37 = R[1];
+Obj v__3519885_37 = R[2];
+R[1] = v__3519884_37;
+R[2] = v__3519885_37;
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v__3519071_37= co->res;
-Obj v__3517779_37 = R[1];
-Obj v__3517780_37 = R[2];
-Obj v__3517781_37 = R[3];
-R[1] = v__3517780_37;
-R[2] = v__3517781_37;
+Obj v__3521175_37= co->res;
+Obj v__3519883_37 = R[1];
+Obj v__3519884_37 = R[2];
+Obj v__3519885_37 = R[3];
+R[1] = v__3519884_37;
+R[2] = v__3519885_37;
 saveCont(co, clofun95, 7, R);
-coraCall2(co, v__3519071_37, v__3517779_37, closureRef(R[0], 4));
+coraCall2(co, v__3521175_37, v__3519883_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v__3519070_37= co->res;
-Obj v__3517779_37 = R[1];
-Obj v__3517780_37 = R[2];
-Obj v__3517781_37 = R[3];
-R[1] = v__3517779_37;
-R[2] = v__3517780_37;
-R[3] = v__3517781_37;
+Obj v__3521174_37= co->res;
+Obj v__3519883_37 = R[1];
+Obj v__3519884_37 = R[2];
+Obj v__3519885_37 = R[3];
+R[1] = v__3519883_37;
+R[2] = v__3519884_37;
+R[3] = v__3519885_37;
 saveCont(co, clofun95, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
@@ -3604,97 +3604,97 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517760_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v__3519006_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3519006_37) {
-Obj v__3519007_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519008_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3519007_37);
-if (True == v__3519008_37) {
-Obj v__3519009_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519010_37 = PRIM_ISCONS(v__3519009_37);
-if (True == v__3519010_37) {
-Obj v__3519011_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519012_37 = PRIM_CAR(v__3519011_37);
-Obj v__3517775_37 = v__3519012_37;
-Obj v__3519013_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519014_37 = PRIM_CDR(v__3519013_37);
-Obj v__3519015_37 = PRIM_ISCONS(v__3519014_37);
-if (True == v__3519015_37) {
-Obj v__3519016_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519017_37 = PRIM_CDR(v__3519016_37);
-Obj v__3519018_37 = PRIM_CAR(v__3519017_37);
-Obj v__3517776_37 = v__3519018_37;
-Obj v__3519019_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519020_37 = PRIM_CDR(v__3519019_37);
-Obj v__3519021_37 = PRIM_CDR(v__3519020_37);
-Obj v__3519022_37 = PRIM_ISCONS(v__3519021_37);
-if (True == v__3519022_37) {
-Obj v__3519023_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519024_37 = PRIM_CDR(v__3519023_37);
-Obj v__3519025_37 = PRIM_CDR(v__3519024_37);
-Obj v__3519026_37 = PRIM_CAR(v__3519025_37);
-Obj v__3517777_37 = v__3519026_37;
-Obj v__3519027_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519028_37 = PRIM_CDR(v__3519027_37);
-Obj v__3519029_37 = PRIM_CDR(v__3519028_37);
-Obj v__3519030_37 = PRIM_CDR(v__3519029_37);
-Obj v__3517778_37 = v__3519030_37;
-R[1] = v__3517777_37;
-R[2] = v__3517775_37;
-R[3] = v__3517776_37;
-R[4] = v__3517778_37;
+Obj v__3519864_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3521110_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521110_37) {
+Obj v__3521111_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521112_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3521111_37);
+if (True == v__3521112_37) {
+Obj v__3521113_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521114_37 = PRIM_ISCONS(v__3521113_37);
+if (True == v__3521114_37) {
+Obj v__3521115_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521116_37 = PRIM_CAR(v__3521115_37);
+Obj v__3519879_37 = v__3521116_37;
+Obj v__3521117_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521118_37 = PRIM_CDR(v__3521117_37);
+Obj v__3521119_37 = PRIM_ISCONS(v__3521118_37);
+if (True == v__3521119_37) {
+Obj v__3521120_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521121_37 = PRIM_CDR(v__3521120_37);
+Obj v__3521122_37 = PRIM_CAR(v__3521121_37);
+Obj v__3519880_37 = v__3521122_37;
+Obj v__3521123_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521124_37 = PRIM_CDR(v__3521123_37);
+Obj v__3521125_37 = PRIM_CDR(v__3521124_37);
+Obj v__3521126_37 = PRIM_ISCONS(v__3521125_37);
+if (True == v__3521126_37) {
+Obj v__3521127_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521128_37 = PRIM_CDR(v__3521127_37);
+Obj v__3521129_37 = PRIM_CDR(v__3521128_37);
+Obj v__3521130_37 = PRIM_CAR(v__3521129_37);
+Obj v__3519881_37 = v__3521130_37;
+Obj v__3521131_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521132_37 = PRIM_CDR(v__3521131_37);
+Obj v__3521133_37 = PRIM_CDR(v__3521132_37);
+Obj v__3521134_37 = PRIM_CDR(v__3521133_37);
+Obj v__3519882_37 = v__3521134_37;
+R[1] = v__3519881_37;
+R[2] = v__3519879_37;
+R[3] = v__3519880_37;
+R[4] = v__3519882_37;
 saveCont(co, clofun94, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519043_37= co->res;
+Obj v__3521147_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519042_37= co->res;
-Obj v__3517778_37 = R[1];
+Obj v__3521146_37= co->res;
+Obj v__3519882_37 = R[1];
 saveCont(co, clofun94, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517778_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519882_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519040_37= co->res;
-Obj v__3517778_37 = R[1];
-Obj v__3519041_37 = primNot(v__3519040_37);
-if (True == v__3519041_37) {
-R[1] = v__3517778_37;
+Obj v__3521144_37= co->res;
+Obj v__3519882_37 = R[1];
+Obj v__3521145_37 = primNot(v__3521144_37);
+if (True == v__3521145_37) {
+R[1] = v__3519882_37;
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -3707,98 +3707,98 @@ return;
 }
 case 4:
 {
-Obj v__3519039_37= co->res;
-Obj v__3517778_37 = R[1];
-R[1] = v__3517778_37;
+Obj v__3521143_37= co->res;
+Obj v__3519882_37 = R[1];
+R[1] = v__3519882_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517778_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519882_37);
 return;
 }
 case 5:
 {
-Obj v__3519038_37= co->res;
-Obj v__3517778_37 = R[1];
-R[1] = v__3517778_37;
+Obj v__3521142_37= co->res;
+Obj v__3519882_37 = R[1];
+R[1] = v__3519882_37;
 saveCont(co, clofun94, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519038_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3521142_37);
 return;
 }
 case 6:
 {
-Obj v__3519037_37= co->res;
-Obj v__3517778_37 = R[1];
-R[1] = v__3517778_37;
+Obj v__3521141_37= co->res;
+Obj v__3519882_37 = R[1];
+R[1] = v__3519882_37;
 saveCont(co, clofun94, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3517778_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519882_37);
 return;
 }
 case 7:
 {
-Obj v__3519036_37= co->res;
-Obj v__3517778_37 = R[1];
-R[1] = v__3517778_37;
+Obj v__3521140_37= co->res;
+Obj v__3519882_37 = R[1];
+R[1] = v__3519882_37;
 saveCont(co, clofun94, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v__3519035_37= co->res;
-Obj v__3517776_37 = R[1];
-Obj v__3517778_37 = R[2];
-R[1] = v__3517778_37;
+Obj v__3521139_37= co->res;
+Obj v__3519880_37 = R[1];
+Obj v__3519882_37 = R[2];
+R[1] = v__3519882_37;
 saveCont(co, clofun94, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517776_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519880_37);
 return;
 }
 case 9:
 {
-Obj v__3519034_37= co->res;
-Obj v__3517776_37 = R[1];
-Obj v__3517778_37 = R[2];
-R[1] = v__3517776_37;
-R[2] = v__3517778_37;
+Obj v__3521138_37= co->res;
+Obj v__3519880_37 = R[1];
+Obj v__3519882_37 = R[2];
+R[1] = v__3519880_37;
+R[2] = v__3519882_37;
 saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v__3519033_37= co->res;
-Obj v__3517775_37 = R[1];
-Obj v__3517776_37 = R[2];
-Obj v__3517778_37 = R[3];
-R[1] = v__3517776_37;
-R[2] = v__3517778_37;
+Obj v__3521137_37= co->res;
+Obj v__3519879_37 = R[1];
+Obj v__3519880_37 = R[2];
+Obj v__3519882_37 = R[3];
+R[1] = v__3519880_37;
+R[2] = v__3519882_37;
 saveCont(co, clofun94, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), v__3517775_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), v__3519879_37);
 return;
 }
 case 11:
 {
-Obj v__3519032_37= co->res;
-Obj v__3517775_37 = R[1];
-Obj v__3517776_37 = R[2];
-Obj v__3517778_37 = R[3];
-R[1] = v__3517775_37;
-R[2] = v__3517776_37;
-R[3] = v__3517778_37;
+Obj v__3521136_37= co->res;
+Obj v__3519879_37 = R[1];
+Obj v__3519880_37 = R[2];
+Obj v__3519882_37 = R[3];
+R[1] = v__3519879_37;
+R[2] = v__3519880_37;
+R[3] = v__3519882_37;
 saveCont(co, clofun94, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v__3519031_37= co->res;
-Obj v__3517777_37 = R[1];
-Obj v__3517775_37 = R[2];
-Obj v__3517776_37 = R[3];
-Obj v__3517778_37 = R[4];
-R[1] = v__3517775_37;
-R[2] = v__3517776_37;
-R[3] = v__3517778_37;
+Obj v__3521135_37= co->res;
+Obj v__3519881_37 = R[1];
+Obj v__3519879_37 = R[2];
+Obj v__3519880_37 = R[3];
+Obj v__3519882_37 = R[4];
+R[1] = v__3519879_37;
+R[2] = v__3519880_37;
+R[3] = v__3519882_37;
 saveCont(co, clofun94, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517777_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519881_37);
 return;
 }
 }
@@ -3808,96 +3808,96 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517761_37 = makeNative(co->gc, 2, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3518985_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518985_37) {
-Obj v__3518986_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518987_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518986_37);
-if (True == v__3518987_37) {
-Obj v__3518988_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518989_37 = PRIM_ISCONS(v__3518988_37);
-if (True == v__3518989_37) {
-Obj v__3518990_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518991_37 = PRIM_CAR(v__3518990_37);
-Obj v__3517773_37 = v__3518991_37;
-Obj v__3518992_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518993_37 = PRIM_CDR(v__3518992_37);
-Obj v__3518994_37 = PRIM_ISCONS(v__3518993_37);
-if (True == v__3518994_37) {
-Obj v__3518995_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
-Obj v__3518997_37 = PRIM_CAR(v__3518996_37);
-Obj v__3517774_37 = v__3518997_37;
-Obj v__3518998_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518999_37 = PRIM_CDR(v__3518998_37);
-Obj v__3519000_37 = PRIM_CDR(v__3518999_37);
-Obj v__3519001_37 = PRIM_EQ(Nil, v__3519000_37);
-if (True == v__3519001_37) {
-R[1] = v__3517773_37;
-R[2] = v__3517774_37;
+Obj v__3519865_37 = makeNative(co->gc, 2, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521089_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521089_37) {
+Obj v__3521090_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521091_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3521090_37);
+if (True == v__3521091_37) {
+Obj v__3521092_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521093_37 = PRIM_ISCONS(v__3521092_37);
+if (True == v__3521093_37) {
+Obj v__3521094_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521095_37 = PRIM_CAR(v__3521094_37);
+Obj v__3519877_37 = v__3521095_37;
+Obj v__3521096_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521097_37 = PRIM_CDR(v__3521096_37);
+Obj v__3521098_37 = PRIM_ISCONS(v__3521097_37);
+if (True == v__3521098_37) {
+Obj v__3521099_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521100_37 = PRIM_CDR(v__3521099_37);
+Obj v__3521101_37 = PRIM_CAR(v__3521100_37);
+Obj v__3519878_37 = v__3521101_37;
+Obj v__3521102_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521103_37 = PRIM_CDR(v__3521102_37);
+Obj v__3521104_37 = PRIM_CDR(v__3521103_37);
+Obj v__3521105_37 = PRIM_EQ(Nil, v__3521104_37);
+if (True == v__3521105_37) {
+R[1] = v__3519877_37;
+R[2] = v__3519878_37;
 saveCont(co, clofun93, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519005_37= co->res;
-Obj v__3517774_37 = R[1];
+Obj v__3521109_37= co->res;
+Obj v__3519878_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, v__3519005_37, v__3517774_37, closureRef(R[0], 5));
+coraCall2(co, v__3521109_37, v__3519878_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v__3519004_37= co->res;
-Obj v__3517774_37 = R[1];
-R[1] = v__3517774_37;
+Obj v__3521108_37= co->res;
+Obj v__3519878_37 = R[1];
+R[1] = v__3519878_37;
 saveCont(co, clofun93, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519003_37= co->res;
-Obj v__3517774_37 = R[1];
-R[1] = v__3517774_37;
+Obj v__3521107_37= co->res;
+Obj v__3519878_37 = R[1];
+R[1] = v__3519878_37;
 saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3519002_37= co->res;
-Obj v__3517773_37 = R[1];
-Obj v__3517774_37 = R[2];
-R[1] = v__3517774_37;
+Obj v__3521106_37= co->res;
+Obj v__3519877_37 = R[1];
+Obj v__3519878_37 = R[2];
+R[1] = v__3519878_37;
 saveCont(co, clofun93, 3, R);
-coraCall2(co, v__3519002_37, v__3517773_37, closureRef(R[0], 5));
+coraCall2(co, v__3521106_37, v__3519877_37, closureRef(R[0], 5));
 return;
 }
 }
@@ -3907,74 +3907,74 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517762_37 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518971_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518971_37) {
-Obj v__3518972_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518973_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518972_37);
-if (True == v__3518973_37) {
-Obj v__3518974_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518975_37 = PRIM_ISCONS(v__3518974_37);
-if (True == v__3518975_37) {
-Obj v__3518976_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518977_37 = PRIM_CAR(v__3518976_37);
-Obj v__3517772_37 = v__3518977_37;
-Obj v__3518978_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518979_37 = PRIM_CDR(v__3518978_37);
-Obj v__3518980_37 = PRIM_EQ(Nil, v__3518979_37);
-if (True == v__3518980_37) {
-R[1] = v__3517772_37;
+Obj v__3519866_37 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521075_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521075_37) {
+Obj v__3521076_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521077_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3521076_37);
+if (True == v__3521077_37) {
+Obj v__3521078_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521079_37 = PRIM_ISCONS(v__3521078_37);
+if (True == v__3521079_37) {
+Obj v__3521080_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521081_37 = PRIM_CAR(v__3521080_37);
+Obj v__3519876_37 = v__3521081_37;
+Obj v__3521082_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521083_37 = PRIM_CDR(v__3521082_37);
+Obj v__3521084_37 = PRIM_EQ(Nil, v__3521083_37);
+if (True == v__3521084_37) {
+R[1] = v__3519876_37;
 saveCont(co, clofun92, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517762_37);
+coraCall0(co, v__3519866_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517762_37);
+coraCall0(co, v__3519866_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517762_37);
+coraCall0(co, v__3519866_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517762_37);
+coraCall0(co, v__3519866_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518984_37= co->res;
+Obj v__3521088_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518983_37= co->res;
+Obj v__3521087_37= co->res;
 saveCont(co, clofun92, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v__3518982_37= co->res;
-Obj v__3517772_37 = R[1];
+Obj v__3521086_37= co->res;
+Obj v__3519876_37 = R[1];
 saveCont(co, clofun92, 2, R);
-coraCall2(co, v__3518982_37, v__3517772_37, closureRef(R[0], 4));
+coraCall2(co, v__3521086_37, v__3519876_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3518981_37= co->res;
-Obj v__3517772_37 = R[1];
-R[1] = v__3517772_37;
+Obj v__3521085_37= co->res;
+Obj v__3519876_37 = R[1];
+R[1] = v__3519876_37;
 saveCont(co, clofun92, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
@@ -3986,67 +3986,67 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517763_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518958_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518958_37) {
-Obj v__3518959_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518960_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3518959_37);
-if (True == v__3518960_37) {
-Obj v__3518961_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518962_37 = PRIM_ISCONS(v__3518961_37);
-if (True == v__3518962_37) {
-Obj v__3518963_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518964_37 = PRIM_CAR(v__3518963_37);
-Obj v__3517771_37 = v__3518964_37;
-Obj v__3518965_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518966_37 = PRIM_CDR(v__3518965_37);
-Obj v__3518967_37 = PRIM_EQ(Nil, v__3518966_37);
-if (True == v__3518967_37) {
-R[1] = v__3517771_37;
+Obj v__3519867_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521062_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521062_37) {
+Obj v__3521063_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521064_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3521063_37);
+if (True == v__3521064_37) {
+Obj v__3521065_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521066_37 = PRIM_ISCONS(v__3521065_37);
+if (True == v__3521066_37) {
+Obj v__3521067_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521068_37 = PRIM_CAR(v__3521067_37);
+Obj v__3519875_37 = v__3521068_37;
+Obj v__3521069_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521070_37 = PRIM_CDR(v__3521069_37);
+Obj v__3521071_37 = PRIM_EQ(Nil, v__3521070_37);
+if (True == v__3521071_37) {
+R[1] = v__3519875_37;
 saveCont(co, clofun91, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517763_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517763_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517763_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517763_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518970_37= co->res;
+Obj v__3521074_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518969_37= co->res;
-Obj v__3517771_37 = R[1];
+Obj v__3521073_37= co->res;
+Obj v__3519875_37 = R[1];
 saveCont(co, clofun91, 1, R);
-coraCall2(co, v__3518969_37, v__3517771_37, closureRef(R[0], 4));
+coraCall2(co, v__3521073_37, v__3519875_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518968_37= co->res;
-Obj v__3517771_37 = R[1];
-R[1] = v__3517771_37;
+Obj v__3521072_37= co->res;
+Obj v__3519875_37 = R[1];
+R[1] = v__3519875_37;
 saveCont(co, clofun91, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
@@ -4058,129 +4058,129 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517764_37 = makeNative(co->gc, 4, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518934_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518934_37) {
-Obj v__3518935_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518936_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518935_37);
-if (True == v__3518936_37) {
-Obj v__3518937_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518938_37 = PRIM_ISCONS(v__3518937_37);
-if (True == v__3518938_37) {
-Obj v__3518939_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518940_37 = PRIM_CAR(v__3518939_37);
-Obj v__3517768_37 = v__3518940_37;
-Obj v__3518941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518942_37 = PRIM_CDR(v__3518941_37);
-Obj v__3518943_37 = PRIM_ISCONS(v__3518942_37);
-if (True == v__3518943_37) {
-Obj v__3518944_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518945_37 = PRIM_CDR(v__3518944_37);
-Obj v__3518946_37 = PRIM_CAR(v__3518945_37);
-Obj v__3517769_37 = v__3518946_37;
-Obj v__3518947_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518948_37 = PRIM_CDR(v__3518947_37);
-Obj v__3518949_37 = PRIM_CDR(v__3518948_37);
-Obj v__3517770_37 = v__3518949_37;
-R[1] = v__3517769_37;
-R[2] = v__3517768_37;
+Obj v__3519868_37 = makeNative(co->gc, 4, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521038_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521038_37) {
+Obj v__3521039_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521040_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3521039_37);
+if (True == v__3521040_37) {
+Obj v__3521041_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521042_37 = PRIM_ISCONS(v__3521041_37);
+if (True == v__3521042_37) {
+Obj v__3521043_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521044_37 = PRIM_CAR(v__3521043_37);
+Obj v__3519872_37 = v__3521044_37;
+Obj v__3521045_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521046_37 = PRIM_CDR(v__3521045_37);
+Obj v__3521047_37 = PRIM_ISCONS(v__3521046_37);
+if (True == v__3521047_37) {
+Obj v__3521048_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521049_37 = PRIM_CDR(v__3521048_37);
+Obj v__3521050_37 = PRIM_CAR(v__3521049_37);
+Obj v__3519873_37 = v__3521050_37;
+Obj v__3521051_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521052_37 = PRIM_CDR(v__3521051_37);
+Obj v__3521053_37 = PRIM_CDR(v__3521052_37);
+Obj v__3519874_37 = v__3521053_37;
+R[1] = v__3519873_37;
+R[2] = v__3519872_37;
 saveCont(co, clofun90, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517770_37};
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3519874_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 51)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517764_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517764_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517764_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517764_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518957_37= co->res;
+Obj v__3521061_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518956_37= co->res;
-Obj v__3517768_37 = R[1];
+Obj v__3521060_37= co->res;
+Obj v__3519872_37 = R[1];
 saveCont(co, clofun90, 1, R);
-coraCall2(co, v__3518956_37, v__3517768_37, closureRef(R[0], 4));
+coraCall2(co, v__3521060_37, v__3519872_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518955_37= co->res;
-Obj v__3517768_37 = R[1];
-R[1] = v__3517768_37;
+Obj v__3521059_37= co->res;
+Obj v__3519872_37 = R[1];
+R[1] = v__3519872_37;
 saveCont(co, clofun90, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3518954_37= co->res;
-Obj v__3517768_37 = R[1];
-R[1] = v__3517768_37;
+Obj v__3521058_37= co->res;
+Obj v__3519872_37 = R[1];
+R[1] = v__3519872_37;
 saveCont(co, clofun90, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v__3518953_37= co->res;
-Obj v__3517769_37 = R[1];
-Obj v__3517768_37 = R[2];
-R[1] = v__3517768_37;
+Obj v__3521057_37= co->res;
+Obj v__3519873_37 = R[1];
+Obj v__3519872_37 = R[2];
+R[1] = v__3519872_37;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517769_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519873_37);
 return;
 }
 case 6:
 {
-Obj v__3518952_37= co->res;
-Obj v__3517769_37 = R[1];
-Obj v__3517768_37 = R[2];
-R[1] = v__3517769_37;
-R[2] = v__3517768_37;
+Obj v__3521056_37= co->res;
+Obj v__3519873_37 = R[1];
+Obj v__3519872_37 = R[2];
+R[1] = v__3519873_37;
+R[2] = v__3519872_37;
 saveCont(co, clofun90, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v__3518951_37= co->res;
-Obj v__3517769_37 = R[1];
-Obj v__3517768_37 = R[2];
-R[1] = v__3517769_37;
-R[2] = v__3517768_37;
+Obj v__3521055_37= co->res;
+Obj v__3519873_37 = R[1];
+Obj v__3519872_37 = R[2];
+R[1] = v__3519873_37;
+R[2] = v__3519872_37;
 saveCont(co, clofun90, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v__3518950_37= co->res;
-Obj v__3517769_37 = R[1];
-Obj v__3517768_37 = R[2];
-R[1] = v__3517769_37;
-R[2] = v__3517768_37;
+Obj v__3521054_37= co->res;
+Obj v__3519873_37 = R[1];
+Obj v__3519872_37 = R[2];
+R[1] = v__3519873_37;
+R[2] = v__3519872_37;
 saveCont(co, clofun90, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
@@ -4192,16 +4192,16 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518911_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518911_37) {
-Obj v__3518912_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517765_37 = v__3518912_37;
-Obj v__3518913_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517766_37 = v__3518913_37;
-R[1] = v__3517765_37;
-R[2] = v__3517766_37;
+Obj v__3521015_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521015_37) {
+Obj v__3521016_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519869_37 = v__3521016_37;
+Obj v__3521017_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519870_37 = v__3521017_37;
+R[1] = v__3519869_37;
+R[2] = v__3519870_37;
 saveCont(co, clofun89, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3517766_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519870_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4211,134 +4211,134 @@ return;
 }
 case 1:
 {
-Obj v__3518925_37= co->res;
+Obj v__3521029_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v__3518924_37= co->res;
-Obj v__3517767_37 = R[1];
+Obj v__3521028_37= co->res;
+Obj v__3519871_37 = R[1];
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517767_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519871_37);
 return;
 }
 case 3:
 {
-Obj v__3518923_37= co->res;
-Obj v__3517767_37 = R[1];
-R[1] = v__3517767_37;
+Obj v__3521027_37= co->res;
+Obj v__3519871_37 = R[1];
+R[1] = v__3519871_37;
 saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3518922_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517767_37 = R[2];
-R[1] = v__3517767_37;
+Obj v__3521026_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519871_37 = R[2];
+R[1] = v__3519871_37;
 saveCont(co, clofun89, 3, R);
-coraCall2(co, v__3518922_37, v__3517765_37, closureRef(R[0], 4));
+coraCall2(co, v__3521026_37, v__3519869_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v__3518921_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517767_37 = R[2];
-R[1] = v__3517765_37;
-R[2] = v__3517767_37;
+Obj v__3521025_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519871_37 = R[2];
+R[1] = v__3519869_37;
+R[2] = v__3519871_37;
 saveCont(co, clofun89, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v__3518920_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517767_37 = R[2];
-R[1] = v__3517765_37;
-R[2] = v__3517767_37;
+Obj v__3521024_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519871_37 = R[2];
+R[1] = v__3519869_37;
+R[2] = v__3519871_37;
 saveCont(co, clofun89, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v__3518919_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517767_37 = R[2];
-R[1] = v__3517765_37;
-R[2] = v__3517767_37;
+Obj v__3521023_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519871_37 = R[2];
+R[1] = v__3519869_37;
+R[2] = v__3519871_37;
 saveCont(co, clofun89, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v__3518918_37= co->res;
-Obj v__3517766_37 = R[1];
-Obj v__3517765_37 = R[2];
-Obj v__3517767_37 = R[3];
-R[1] = v__3517765_37;
-R[2] = v__3517767_37;
+Obj v__3521022_37= co->res;
+Obj v__3519870_37 = R[1];
+Obj v__3519869_37 = R[2];
+Obj v__3519871_37 = R[3];
+R[1] = v__3519869_37;
+R[2] = v__3519871_37;
 saveCont(co, clofun89, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517766_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519870_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3518917_37= co->res;
-Obj v__3517766_37 = R[1];
-Obj v__3517765_37 = R[2];
-Obj v__3517767_37 = R[3];
-R[1] = v__3517766_37;
-R[2] = v__3517765_37;
-R[3] = v__3517767_37;
+Obj v__3521021_37= co->res;
+Obj v__3519870_37 = R[1];
+Obj v__3519869_37 = R[2];
+Obj v__3519871_37 = R[3];
+R[1] = v__3519870_37;
+R[2] = v__3519869_37;
+R[3] = v__3519871_37;
 saveCont(co, clofun89, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v__3518916_37= co->res;
-Obj v__3517766_37 = R[1];
-Obj v__3517765_37 = R[2];
-Obj v__3517767_37 = R[3];
-R[1] = v__3517766_37;
-R[2] = v__3517765_37;
-R[3] = v__3517767_37;
+Obj v__3521020_37= co->res;
+Obj v__3519870_37 = R[1];
+Obj v__3519869_37 = R[2];
+Obj v__3519871_37 = R[3];
+R[1] = v__3519870_37;
+R[2] = v__3519869_37;
+R[3] = v__3519871_37;
 saveCont(co, clofun89, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517767_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519871_37);
 return;
 }
 case 11:
 {
-Obj v__3518933_37= co->res;
+Obj v__3521037_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3518932_37= co->res;
-Obj v__3517766_37 = R[1];
+Obj v__3521036_37= co->res;
+Obj v__3519870_37 = R[1];
 saveCont(co, clofun89, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517766_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519870_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v__3518930_37= co->res;
-Obj v__3517767_37 = R[1];
-Obj v__3517766_37 = R[2];
-Obj v__3518931_37 = PRIM_GT(v__3517767_37, MAKE_NUMBER(0));
-if (True == v__3518931_37) {
-R[1] = v__3517766_37;
+Obj v__3521034_37= co->res;
+Obj v__3519871_37 = R[1];
+Obj v__3519870_37 = R[2];
+Obj v__3521035_37 = PRIM_GT(v__3519871_37, MAKE_NUMBER(0));
+if (True == v__3521035_37) {
+R[1] = v__3519870_37;
 saveCont(co, clofun89, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -4351,73 +4351,73 @@ return;
 }
 case 14:
 {
-Obj v__3518929_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517767_37 = R[2];
-Obj v__3517766_37 = R[3];
-R[1] = v__3517767_37;
-R[2] = v__3517766_37;
+Obj v__3521033_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519871_37 = R[2];
+Obj v__3519870_37 = R[3];
+R[1] = v__3519871_37;
+R[2] = v__3519870_37;
 saveCont(co, clofun89, 13, R);
-coraCall2(co, v__3518929_37, v__3517765_37, closureRef(R[0], 4));
+coraCall2(co, v__3521033_37, v__3519869_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v__3518928_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517767_37 = R[2];
-Obj v__3517766_37 = R[3];
-R[1] = v__3517765_37;
-R[2] = v__3517767_37;
-R[3] = v__3517766_37;
+Obj v__3521032_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519871_37 = R[2];
+Obj v__3519870_37 = R[3];
+R[1] = v__3519869_37;
+R[2] = v__3519871_37;
+R[3] = v__3519870_37;
 saveCont(co, clofun89, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v__3518927_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517767_37 = R[2];
-Obj v__3517766_37 = R[3];
-R[1] = v__3517765_37;
-R[2] = v__3517767_37;
-R[3] = v__3517766_37;
+Obj v__3521031_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519871_37 = R[2];
+Obj v__3519870_37 = R[3];
+R[1] = v__3519869_37;
+R[2] = v__3519871_37;
+R[3] = v__3519870_37;
 saveCont(co, clofun89, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v__3518926_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517767_37 = R[2];
-Obj v__3517766_37 = R[3];
-R[1] = v__3517765_37;
-R[2] = v__3517767_37;
-R[3] = v__3517766_37;
+Obj v__3521030_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519871_37 = R[2];
+Obj v__3519870_37 = R[3];
+R[1] = v__3519869_37;
+R[2] = v__3519871_37;
+R[3] = v__3519870_37;
 saveCont(co, clofun89, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3517767_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519871_37);
 return;
 }
 case 18:
 {
-Obj v__3518914_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517766_37 = R[2];
-Obj v__3517767_37 = v__3518914_37;
-Obj v__3518915_37 = PRIM_GT(v__3517767_37, MAKE_NUMBER(4));
-if (True == v__3518915_37) {
-R[1] = v__3517766_37;
-R[2] = v__3517765_37;
-R[3] = v__3517767_37;
+Obj v__3521018_37= co->res;
+Obj v__3519869_37 = R[1];
+Obj v__3519870_37 = R[2];
+Obj v__3519871_37 = v__3521018_37;
+Obj v__3521019_37 = PRIM_GT(v__3519871_37, MAKE_NUMBER(4));
+if (True == v__3521019_37) {
+R[1] = v__3519870_37;
+R[2] = v__3519869_37;
+R[3] = v__3519871_37;
 saveCont(co, clofun89, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = v__3517765_37;
-R[2] = v__3517767_37;
-R[3] = v__3517766_37;
+R[1] = v__3519869_37;
+R[2] = v__3519871_37;
+R[3] = v__3519870_37;
 saveCont(co, clofun89, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
@@ -4430,13 +4430,13 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_self = R[2];
-Obj v_env = R[3];
-Obj v_w = R[4];
-Obj v_ls = R[5];
+Obj v__3519491_37 = R[1];
+Obj v__3519492_37 = R[2];
+Obj v__3519493_37 = R[3];
+Obj v__3519494_37 = R[4];
+Obj v__3519495_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun87, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun87, 2, 4, v__3519491_37, v__3519492_37, v__3519493_37, v__3519494_37), MAKE_NUMBER(1), v__3519495_37);
 return;
 }
 }
@@ -4446,57 +4446,57 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_v = R[2];
-R[1] = v_v;
-R[2] = v_acc;
+Obj v__3519496_37 = R[1];
+Obj v__3519497_37 = R[2];
+R[1] = v__3519497_37;
+R[2] = v__3519496_37;
 saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v__3518906_37= co->res;
-Obj v_acc = R[1];
-Obj v__3518907_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518907_37);
+Obj v__3521010_37= co->res;
+Obj v__3519496_37 = R[1];
+Obj v__3521011_37 = PRIM_ADD(v__3519496_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521011_37);
 return;
 }
 case 2:
 {
-Obj v__3518905_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521009_37= co->res;
+Obj v__3519496_37 = R[1];
+R[1] = v__3519496_37;
 saveCont(co, clofun87, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v__3518904_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521008_37= co->res;
+Obj v__3519496_37 = R[1];
+R[1] = v__3519496_37;
 saveCont(co, clofun87, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519496_37);
 return;
 }
 case 4:
 {
-Obj v__3518903_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521007_37= co->res;
+Obj v__3519496_37 = R[1];
+R[1] = v__3519496_37;
 saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v__3518902_37= co->res;
-Obj v_v = R[1];
-Obj v_acc = R[2];
-R[1] = v_acc;
+Obj v__3521006_37= co->res;
+Obj v__3519497_37 = R[1];
+Obj v__3519496_37 = R[2];
+R[1] = v__3519496_37;
 saveCont(co, clofun87, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519497_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
@@ -4507,13 +4507,13 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_self = R[2];
-Obj v_env = R[3];
-Obj v_w = R[4];
-Obj v_ls = R[5];
+Obj v__3519484_37 = R[1];
+Obj v__3519485_37 = R[2];
+Obj v__3519486_37 = R[3];
+Obj v__3519487_37 = R[4];
+Obj v__3519488_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun85, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun85, 2, 4, v__3519484_37, v__3519485_37, v__3519486_37, v__3519487_37), MAKE_NUMBER(1), v__3519488_37);
 return;
 }
 }
@@ -4523,62 +4523,62 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_v = R[2];
-R[1] = v_v;
-R[2] = v_acc;
+Obj v__3519489_37 = R[1];
+Obj v__3519490_37 = R[2];
+R[1] = v__3519490_37;
+R[2] = v__3519489_37;
 saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v__3518899_37= co->res;
-Obj v_acc = R[1];
-Obj v__3518900_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518900_37);
+Obj v__3521003_37= co->res;
+Obj v__3519489_37 = R[1];
+Obj v__3521004_37 = PRIM_ADD(v__3519489_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521004_37);
 return;
 }
 case 2:
 {
-Obj v__3518898_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521002_37= co->res;
+Obj v__3519489_37 = R[1];
+R[1] = v__3519489_37;
 saveCont(co, clofun85, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3518897_37= co->res;
-Obj v_v = R[1];
-Obj v_acc = R[2];
-R[1] = v_acc;
+Obj v__3521001_37= co->res;
+Obj v__3519490_37 = R[1];
+Obj v__3519489_37 = R[2];
+R[1] = v__3519489_37;
 saveCont(co, clofun85, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519490_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3518896_37= co->res;
-Obj v_v = R[1];
-Obj v_acc = R[2];
-R[1] = v_v;
-R[2] = v_acc;
+Obj v__3521000_37= co->res;
+Obj v__3519490_37 = R[1];
+Obj v__3519489_37 = R[2];
+R[1] = v__3519490_37;
+R[2] = v__3519489_37;
 saveCont(co, clofun85, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v__3518895_37= co->res;
-Obj v_v = R[1];
-Obj v_acc = R[2];
-R[1] = v_v;
-R[2] = v_acc;
+Obj v__3520999_37= co->res;
+Obj v__3519490_37 = R[1];
+Obj v__3519489_37 = R[2];
+R[1] = v__3519490_37;
+R[2] = v__3519489_37;
 saveCont(co, clofun85, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519489_37);
 return;
 }
 }
@@ -4588,10 +4588,10 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_sym = R[1];
-Obj v_globals = R[2];
+Obj v__3519482_37 = R[1];
+Obj v__3519483_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), MAKE_NUMBER(0), v_sym, v_globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), MAKE_NUMBER(0), v__3519482_37, v__3519483_37);
 return;
 }
 }
@@ -4601,36 +4601,36 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_idx = R[1];
-Obj v_sym = R[2];
-Obj v_globals = R[3];
-R[1] = v_idx;
-R[2] = v_globals;
-R[3] = v_sym;
+Obj v__3519479_37 = R[1];
+Obj v__3519480_37 = R[2];
+Obj v__3519481_37 = R[3];
+R[1] = v__3519479_37;
+R[2] = v__3519481_37;
+R[3] = v__3519480_37;
 saveCont(co, clofun83, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519481_37);
 return;
 }
 case 1:
 {
-Obj v__3518888_37= co->res;
-Obj v_idx = R[1];
-Obj v_globals = R[2];
-Obj v_sym = R[3];
-if (True == v__3518888_37) {
+Obj v__3520992_37= co->res;
+Obj v__3519479_37 = R[1];
+Obj v__3519481_37 = R[2];
+Obj v__3519480_37 = R[3];
+if (True == v__3520992_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3518889_37 = PRIM_CAR(v_globals);
-Obj v__3518890_37 = PRIM_EQ(v_sym, v__3518889_37);
-if (True == v__3518890_37) {
-coraReturn(co, v_idx);
+Obj v__3520993_37 = PRIM_CAR(v__3519481_37);
+Obj v__3520994_37 = PRIM_EQ(v__3519480_37, v__3520993_37);
+if (True == v__3520994_37) {
+coraReturn(co, v__3519479_37);
 return;
 } else {
-Obj v__3518891_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v__3518892_37 = PRIM_CDR(v_globals);
+Obj v__3520995_37 = PRIM_ADD(v__3519479_37, MAKE_NUMBER(1));
+Obj v__3520996_37 = PRIM_CDR(v__3519481_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3518891_37, v_sym, v__3518892_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520995_37, v__3519480_37, v__3520996_37);
 return;
 }
 }
@@ -4642,41 +4642,41 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_sym = R[1];
-Obj v_globals = R[2];
-R[1] = v_sym;
-R[2] = v_globals;
+Obj v__3519476_37 = R[1];
+Obj v__3519477_37 = R[2];
+R[1] = v__3519476_37;
+R[2] = v__3519477_37;
 saveCont(co, clofun82, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519477_37);
 return;
 }
 case 1:
 {
-Obj v__3518884_37= co->res;
-Obj v_sym = R[1];
-Obj v__3517752_37 = R[2];
-Obj v_globals = R[3];
-if (True == v__3518884_37) {
+Obj v__3520988_37= co->res;
+Obj v__3519476_37 = R[1];
+Obj v__3519856_37 = R[2];
+Obj v__3519477_37 = R[3];
+if (True == v__3520988_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518885_37 = makeCons(co->gc, v_sym, v__3517752_37);
-Obj v__3518886_37 = primSet(co, v_globals, v__3518885_37);
-coraReturn(co, v__3518886_37);
+Obj v__3520989_37 = makeCons(co->gc, v__3519476_37, v__3519856_37);
+Obj v__3520990_37 = primSet(co, v__3519477_37, v__3520989_37);
+coraReturn(co, v__3520990_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518883_37= co->res;
-Obj v_sym = R[1];
-Obj v_globals = R[2];
-Obj v__3517752_37 = v__3518883_37;
-R[1] = v_sym;
-R[2] = v__3517752_37;
-R[3] = v_globals;
+Obj v__3520987_37= co->res;
+Obj v__3519476_37 = R[1];
+Obj v__3519477_37 = R[2];
+Obj v__3519856_37 = v__3520987_37;
+R[1] = v__3519476_37;
+R[2] = v__3519856_37;
+R[3] = v__3519477_37;
 saveCont(co, clofun82, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v_sym, v__3517752_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519476_37, v__3519856_37);
 return;
 }
 }
@@ -4686,26 +4686,26 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v_k = R[2];
-Obj v__3518876_37 = primGenSym(co);
-Obj v__3517751_37 = v__3518876_37;
-R[1] = v_x;
-R[2] = v__3517751_37;
+Obj v__3519473_37 = R[1];
+Obj v__3519474_37 = R[2];
+Obj v__3520980_37 = primGenSym(co);
+Obj v__3519855_37 = v__3520980_37;
+R[1] = v__3519473_37;
+R[2] = v__3519855_37;
 saveCont(co, clofun81, 1, R);
-coraCall1(co, v_k, v__3517751_37);
+coraCall1(co, v__3519474_37, v__3519855_37);
 return;
 }
 case 1:
 {
-Obj v__3518877_37= co->res;
-Obj v_x = R[1];
-Obj v__3517751_37 = R[2];
-Obj v__3518878_37 = makeCons(co->gc, v__3518877_37, Nil);
-Obj v__3518879_37 = makeCons(co->gc, v_x, v__3518878_37);
-Obj v__3518880_37 = makeCons(co->gc, v__3517751_37, v__3518879_37);
-Obj v__3518881_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518880_37);
-coraReturn(co, v__3518881_37);
+Obj v__3520981_37= co->res;
+Obj v__3519473_37 = R[1];
+Obj v__3519855_37 = R[2];
+Obj v__3520982_37 = makeCons(co->gc, v__3520981_37, Nil);
+Obj v__3520983_37 = makeCons(co->gc, v__3519473_37, v__3520982_37);
+Obj v__3520984_37 = makeCons(co->gc, v__3519855_37, v__3520983_37);
+Obj v__3520985_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520984_37);
+coraReturn(co, v__3520985_37);
 return;
 }
 }
@@ -4715,52 +4715,52 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_v = R[1];
-Obj v_val = R[2];
-R[1] = v_val;
-R[2] = v_v;
+Obj v__3519468_37 = R[1];
+Obj v__3519469_37 = R[2];
+R[1] = v__3519469_37;
+R[2] = v__3519468_37;
 saveCont(co, clofun80, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519468_37, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v__3518874_37= co->res;
-Obj v_v = R[1];
-Obj v__3517750_37 = R[2];
+Obj v__3520978_37= co->res;
+Obj v__3519468_37 = R[1];
+Obj v__3519854_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1), v__3517750_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519468_37, MAKE_NUMBER(1), v__3519854_37);
 return;
 }
 case 2:
 {
-Obj v__3518869_37= co->res;
-Obj v_val = R[1];
-Obj v__3517748_37 = R[2];
-Obj v_v = R[3];
-Obj v__3517749_37 = v__3518869_37;
-Obj v__3518870_37 = makeCons(co->gc, v_val, Nil);
-Obj v__3518871_37 = makeCons(co->gc, v__3517748_37, v__3518870_37);
-Obj v__3518872_37 = makeCons(co->gc, v__3518871_37, v__3517749_37);
-Obj v__3517750_37 = v__3518872_37;
-Obj v__3518873_37 = PRIM_ADD(v__3517748_37, MAKE_NUMBER(1));
-R[1] = v_v;
-R[2] = v__3517750_37;
+Obj v__3520973_37= co->res;
+Obj v__3519469_37 = R[1];
+Obj v__3519852_37 = R[2];
+Obj v__3519468_37 = R[3];
+Obj v__3519853_37 = v__3520973_37;
+Obj v__3520974_37 = makeCons(co->gc, v__3519469_37, Nil);
+Obj v__3520975_37 = makeCons(co->gc, v__3519852_37, v__3520974_37);
+Obj v__3520976_37 = makeCons(co->gc, v__3520975_37, v__3519853_37);
+Obj v__3519854_37 = v__3520976_37;
+Obj v__3520977_37 = PRIM_ADD(v__3519852_37, MAKE_NUMBER(1));
+R[1] = v__3519468_37;
+R[2] = v__3519854_37;
 saveCont(co, clofun80, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0), v__3518873_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519468_37, MAKE_NUMBER(0), v__3520977_37);
 return;
 }
 case 3:
 {
-Obj v__3518868_37= co->res;
-Obj v_val = R[1];
-Obj v_v = R[2];
-Obj v__3517748_37 = v__3518868_37;
-R[1] = v_val;
-R[2] = v__3517748_37;
-R[3] = v_v;
+Obj v__3520972_37= co->res;
+Obj v__3519469_37 = R[1];
+Obj v__3519468_37 = R[2];
+Obj v__3519852_37 = v__3520972_37;
+R[1] = v__3519469_37;
+R[2] = v__3519852_37;
+R[3] = v__3519468_37;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v_v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519468_37, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4770,195 +4770,195 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517518_37 = R[1];
-Obj v__3517519_37 = R[2];
-Obj v__3517740_37 = makeNative(co->gc, 1, clofun78, 0, 2, v__3517518_37, v__3517519_37);
-Obj v__3518819_37 = PRIM_ISCONS(v__3517519_37);
-if (True == v__3518819_37) {
-Obj v__3518820_37 = PRIM_CAR(v__3517519_37);
-Obj v__3518821_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518820_37);
-if (True == v__3518821_37) {
-Obj v__3518822_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518823_37 = PRIM_ISCONS(v__3518822_37);
-if (True == v__3518823_37) {
-Obj v__3518824_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518825_37 = PRIM_CAR(v__3518824_37);
-Obj v__3518826_37 = PRIM_ISCONS(v__3518825_37);
-if (True == v__3518826_37) {
-Obj v__3518827_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518828_37 = PRIM_CAR(v__3518827_37);
-Obj v__3518829_37 = PRIM_CAR(v__3518828_37);
-Obj v__3518830_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518829_37);
-if (True == v__3518830_37) {
-Obj v__3518831_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518832_37 = PRIM_CAR(v__3518831_37);
-Obj v__3518833_37 = PRIM_CDR(v__3518832_37);
-Obj v__3518834_37 = PRIM_ISCONS(v__3518833_37);
-if (True == v__3518834_37) {
-Obj v__3518835_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518836_37 = PRIM_CAR(v__3518835_37);
-Obj v__3518837_37 = PRIM_CDR(v__3518836_37);
-Obj v__3518838_37 = PRIM_CAR(v__3518837_37);
-Obj v__3517741_37 = v__3518838_37;
-Obj v__3518839_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518840_37 = PRIM_CAR(v__3518839_37);
-Obj v__3518841_37 = PRIM_CDR(v__3518840_37);
-Obj v__3518842_37 = PRIM_CDR(v__3518841_37);
-Obj v__3518843_37 = PRIM_ISCONS(v__3518842_37);
-if (True == v__3518843_37) {
-Obj v__3518844_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518845_37 = PRIM_CAR(v__3518844_37);
-Obj v__3518846_37 = PRIM_CDR(v__3518845_37);
-Obj v__3518847_37 = PRIM_CDR(v__3518846_37);
-Obj v__3518848_37 = PRIM_CAR(v__3518847_37);
-Obj v__3517742_37 = v__3518848_37;
-Obj v__3518849_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518850_37 = PRIM_CAR(v__3518849_37);
-Obj v__3518851_37 = PRIM_CDR(v__3518850_37);
-Obj v__3518852_37 = PRIM_CDR(v__3518851_37);
-Obj v__3518853_37 = PRIM_CDR(v__3518852_37);
-Obj v__3518854_37 = PRIM_EQ(Nil, v__3518853_37);
-if (True == v__3518854_37) {
-Obj v__3518855_37 = PRIM_CDR(v__3517519_37);
-Obj v__3518856_37 = PRIM_CDR(v__3518855_37);
-Obj v__3517743_37 = v__3518856_37;
-R[1] = v__3517518_37;
-R[2] = v__3517741_37;
-R[3] = v__3517743_37;
+Obj v__3519458_37 = R[1];
+Obj v__3519459_37 = R[2];
+Obj v__3519844_37 = makeNative(co->gc, 1, clofun78, 0, 2, v__3519458_37, v__3519459_37);
+Obj v__3520923_37 = PRIM_ISCONS(v__3519459_37);
+if (True == v__3520923_37) {
+Obj v__3520924_37 = PRIM_CAR(v__3519459_37);
+Obj v__3520925_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520924_37);
+if (True == v__3520925_37) {
+Obj v__3520926_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520927_37 = PRIM_ISCONS(v__3520926_37);
+if (True == v__3520927_37) {
+Obj v__3520928_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520929_37 = PRIM_CAR(v__3520928_37);
+Obj v__3520930_37 = PRIM_ISCONS(v__3520929_37);
+if (True == v__3520930_37) {
+Obj v__3520931_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520932_37 = PRIM_CAR(v__3520931_37);
+Obj v__3520933_37 = PRIM_CAR(v__3520932_37);
+Obj v__3520934_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520933_37);
+if (True == v__3520934_37) {
+Obj v__3520935_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520936_37 = PRIM_CAR(v__3520935_37);
+Obj v__3520937_37 = PRIM_CDR(v__3520936_37);
+Obj v__3520938_37 = PRIM_ISCONS(v__3520937_37);
+if (True == v__3520938_37) {
+Obj v__3520939_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520940_37 = PRIM_CAR(v__3520939_37);
+Obj v__3520941_37 = PRIM_CDR(v__3520940_37);
+Obj v__3520942_37 = PRIM_CAR(v__3520941_37);
+Obj v__3519845_37 = v__3520942_37;
+Obj v__3520943_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520944_37 = PRIM_CAR(v__3520943_37);
+Obj v__3520945_37 = PRIM_CDR(v__3520944_37);
+Obj v__3520946_37 = PRIM_CDR(v__3520945_37);
+Obj v__3520947_37 = PRIM_ISCONS(v__3520946_37);
+if (True == v__3520947_37) {
+Obj v__3520948_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520949_37 = PRIM_CAR(v__3520948_37);
+Obj v__3520950_37 = PRIM_CDR(v__3520949_37);
+Obj v__3520951_37 = PRIM_CDR(v__3520950_37);
+Obj v__3520952_37 = PRIM_CAR(v__3520951_37);
+Obj v__3519846_37 = v__3520952_37;
+Obj v__3520953_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520954_37 = PRIM_CAR(v__3520953_37);
+Obj v__3520955_37 = PRIM_CDR(v__3520954_37);
+Obj v__3520956_37 = PRIM_CDR(v__3520955_37);
+Obj v__3520957_37 = PRIM_CDR(v__3520956_37);
+Obj v__3520958_37 = PRIM_EQ(Nil, v__3520957_37);
+if (True == v__3520958_37) {
+Obj v__3520959_37 = PRIM_CDR(v__3519459_37);
+Obj v__3520960_37 = PRIM_CDR(v__3520959_37);
+Obj v__3519847_37 = v__3520960_37;
+R[1] = v__3519458_37;
+R[2] = v__3519845_37;
+R[3] = v__3519847_37;
 saveCont(co, clofun79, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517518_37, v__3517742_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3519458_37, v__3519846_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517740_37);
+coraCall0(co, v__3519844_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517740_37);
+coraCall0(co, v__3519844_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517740_37);
+coraCall0(co, v__3519844_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517740_37);
+coraCall0(co, v__3519844_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517740_37);
+coraCall0(co, v__3519844_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517740_37);
+coraCall0(co, v__3519844_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517740_37);
+coraCall0(co, v__3519844_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517740_37);
+coraCall0(co, v__3519844_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518862_37= co->res;
-Obj v__3517747_37 = R[1];
-Obj v__3517743_37 = R[2];
-Obj v__3517745_37 = R[3];
-Obj v__3518863_37 = makeCons(co->gc, v__3517747_37, v__3517743_37);
-Obj v__3518864_37 = makeCons(co->gc, v__3518862_37, v__3518863_37);
-Obj v__3518865_37 = makeCons(co->gc, v__3517745_37, v__3518864_37);
-Obj v__3518866_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518865_37);
-coraReturn(co, v__3518866_37);
+Obj v__3520966_37= co->res;
+Obj v__3519851_37 = R[1];
+Obj v__3519847_37 = R[2];
+Obj v__3519849_37 = R[3];
+Obj v__3520967_37 = makeCons(co->gc, v__3519851_37, v__3519847_37);
+Obj v__3520968_37 = makeCons(co->gc, v__3520966_37, v__3520967_37);
+Obj v__3520969_37 = makeCons(co->gc, v__3519849_37, v__3520968_37);
+Obj v__3520970_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3520969_37);
+coraReturn(co, v__3520970_37);
 return;
 }
 case 2:
 {
-Obj v__3518861_37= co->res;
-Obj v__3517741_37 = R[1];
-Obj v__3517747_37 = R[2];
-Obj v__3517743_37 = R[3];
-Obj v__3517745_37 = R[4];
-R[1] = v__3517747_37;
-R[2] = v__3517743_37;
-R[3] = v__3517745_37;
+Obj v__3520965_37= co->res;
+Obj v__3519845_37 = R[1];
+Obj v__3519851_37 = R[2];
+Obj v__3519847_37 = R[3];
+Obj v__3519849_37 = R[4];
+R[1] = v__3519851_37;
+R[2] = v__3519847_37;
+R[3] = v__3519849_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3517741_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519845_37);
 return;
 }
 case 3:
 {
-Obj v__3518860_37= co->res;
-Obj v__3517518_37 = R[1];
-Obj v__3517746_37 = R[2];
-Obj v__3517741_37 = R[3];
-Obj v__3517743_37 = R[4];
-Obj v__3517745_37 = R[5];
-Obj v__3517747_37 = v__3518860_37;
-R[1] = v__3517741_37;
-R[2] = v__3517747_37;
-R[3] = v__3517743_37;
-R[4] = v__3517745_37;
+Obj v__3520964_37= co->res;
+Obj v__3519458_37 = R[1];
+Obj v__3519850_37 = R[2];
+Obj v__3519845_37 = R[3];
+Obj v__3519847_37 = R[4];
+Obj v__3519849_37 = R[5];
+Obj v__3519851_37 = v__3520964_37;
+R[1] = v__3519845_37;
+R[2] = v__3519851_37;
+R[3] = v__3519847_37;
+R[4] = v__3519849_37;
 saveCont(co, clofun79, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517518_37, v__3517746_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519458_37, v__3519850_37);
 return;
 }
 case 4:
 {
-Obj v__3518859_37= co->res;
-Obj v__3517518_37 = R[1];
-Obj v__3517741_37 = R[2];
-Obj v__3517743_37 = R[3];
-Obj v__3517745_37 = R[4];
-Obj v__3517746_37 = v__3518859_37;
-R[1] = v__3517518_37;
-R[2] = v__3517746_37;
-R[3] = v__3517741_37;
-R[4] = v__3517743_37;
-R[5] = v__3517745_37;
+Obj v__3520963_37= co->res;
+Obj v__3519458_37 = R[1];
+Obj v__3519845_37 = R[2];
+Obj v__3519847_37 = R[3];
+Obj v__3519849_37 = R[4];
+Obj v__3519850_37 = v__3520963_37;
+R[1] = v__3519458_37;
+R[2] = v__3519850_37;
+R[3] = v__3519845_37;
+R[4] = v__3519847_37;
+R[5] = v__3519849_37;
 saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517746_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519850_37);
 return;
 }
 case 5:
 {
-Obj v__3518858_37= co->res;
-Obj v__3517744_37 = R[1];
-Obj v__3517518_37 = R[2];
-Obj v__3517741_37 = R[3];
-Obj v__3517743_37 = R[4];
-Obj v__3517745_37 = v__3518858_37;
-R[1] = v__3517518_37;
-R[2] = v__3517741_37;
-R[3] = v__3517743_37;
-R[4] = v__3517745_37;
+Obj v__3520962_37= co->res;
+Obj v__3519848_37 = R[1];
+Obj v__3519458_37 = R[2];
+Obj v__3519845_37 = R[3];
+Obj v__3519847_37 = R[4];
+Obj v__3519849_37 = v__3520962_37;
+R[1] = v__3519458_37;
+R[2] = v__3519845_37;
+R[3] = v__3519847_37;
+R[4] = v__3519849_37;
 saveCont(co, clofun79, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), v__3517741_37, v__3517744_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), v__3519845_37, v__3519848_37);
 return;
 }
 case 6:
 {
-Obj v__3518857_37= co->res;
-Obj v__3517518_37 = R[1];
-Obj v__3517741_37 = R[2];
-Obj v__3517743_37 = R[3];
-Obj v__3517744_37 = v__3518857_37;
-R[1] = v__3517744_37;
-R[2] = v__3517518_37;
-R[3] = v__3517741_37;
-R[4] = v__3517743_37;
+Obj v__3520961_37= co->res;
+Obj v__3519458_37 = R[1];
+Obj v__3519845_37 = R[2];
+Obj v__3519847_37 = R[3];
+Obj v__3519848_37 = v__3520961_37;
+R[1] = v__3519848_37;
+R[2] = v__3519458_37;
+R[3] = v__3519845_37;
+R[4] = v__3519847_37;
 saveCont(co, clofun79, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3517518_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519458_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4968,8 +4968,8 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518817_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518817_37) {
+Obj v__3520921_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3520921_37) {
 saveCont(co, clofun78, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 0));
 return;
@@ -4980,9 +4980,9 @@ return;
 }
 case 1:
 {
-Obj v__3518818_37= co->res;
+Obj v__3520922_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518818_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520922_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4992,38 +4992,38 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_lam = R[1];
-R[1] = v_lam;
+Obj v__3519453_37 = R[1];
+R[1] = v__3519453_37;
 saveCont(co, clofun77, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519453_37);
 return;
 }
 case 1:
 {
-Obj v__3518815_37= co->res;
-Obj v__3518814_37 = R[1];
+Obj v__3520919_37= co->res;
+Obj v__3520918_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun76, 2, 0), v__3518814_37, v__3518815_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun76, 2, 0), v__3520918_37, v__3520919_37);
 return;
 }
 case 2:
 {
-Obj v__3518809_37= co->res;
-Obj v_lam = R[1];
-Obj v__3517738_37 = v__3518809_37;
-Obj v__3518814_37 = PRIM_ADD(v__3517738_37, MAKE_NUMBER(1));
-R[1] = v__3518814_37;
+Obj v__3520913_37= co->res;
+Obj v__3519453_37 = R[1];
+Obj v__3519842_37 = v__3520913_37;
+Obj v__3520918_37 = PRIM_ADD(v__3519842_37, MAKE_NUMBER(1));
+R[1] = v__3520918_37;
 saveCont(co, clofun77, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519453_37);
 return;
 }
 case 3:
 {
-Obj v__3518808_37= co->res;
-Obj v_lam = R[1];
-R[1] = v_lam;
+Obj v__3520912_37= co->res;
+Obj v__3519453_37 = R[1];
+R[1] = v__3519453_37;
 saveCont(co, clofun77, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3518808_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3520912_37);
 return;
 }
 }
@@ -5033,35 +5033,35 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_x = R[2];
-R[1] = v_acc;
+Obj v__3519455_37 = R[1];
+Obj v__3519456_37 = R[2];
+R[1] = v__3519455_37;
 saveCont(co, clofun76, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519456_37);
 return;
 }
 case 1:
 {
-Obj v__3518811_37= co->res;
-Obj v_acc = R[1];
-Obj v__3518812_37 = PRIM_ADD(v__3518811_37, MAKE_NUMBER(1));
-Obj v__3517739_37 = v__3518812_37;
-Obj v__3518813_37 = PRIM_GT(v__3517739_37, v_acc);
-if (True == v__3518813_37) {
-coraReturn(co, v__3517739_37);
+Obj v__3520915_37= co->res;
+Obj v__3519455_37 = R[1];
+Obj v__3520916_37 = PRIM_ADD(v__3520915_37, MAKE_NUMBER(1));
+Obj v__3519843_37 = v__3520916_37;
+Obj v__3520917_37 = PRIM_GT(v__3519843_37, v__3519455_37);
+if (True == v__3520917_37) {
+coraReturn(co, v__3519843_37);
 return;
 } else {
-coraReturn(co, v_acc);
+coraReturn(co, v__3519455_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518810_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3520914_37= co->res;
+Obj v__3519455_37 = R[1];
+R[1] = v__3519455_37;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3518810_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3520914_37);
 return;
 }
 }
@@ -5071,10 +5071,10 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_params = R[1];
-Obj v_body = R[2];
+Obj v__3519449_37 = R[1];
+Obj v__3519450_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v_body, Nil, makeNative(co->gc, 3, clofun74, 2, 1, v_params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3519450_37, Nil, makeNative(co->gc, 3, clofun74, 2, 1, v__3519449_37));
 return;
 }
 }
@@ -5084,21 +5084,21 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_body1 = R[1];
-Obj v_conts = R[2];
-R[1] = v_body1;
+Obj v__3519451_37 = R[1];
+Obj v__3519452_37 = R[2];
+R[1] = v__3519451_37;
 saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v_conts);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519452_37);
 return;
 }
 case 1:
 {
-Obj v__3518803_37= co->res;
-Obj v_body1 = R[1];
-Obj v__3518804_37 = makeCons(co->gc, v_body1, v__3518803_37);
-Obj v__3518805_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518804_37);
-Obj v__3518806_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518805_37);
-coraReturn(co, v__3518806_37);
+Obj v__3520907_37= co->res;
+Obj v__3519451_37 = R[1];
+Obj v__3520908_37 = makeCons(co->gc, v__3519451_37, v__3520907_37);
+Obj v__3520909_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520908_37);
+Obj v__3520910_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520909_37);
+coraReturn(co, v__3520910_37);
 return;
 }
 }
@@ -5108,24 +5108,24 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517512_37 = R[1];
-Obj v__3517513_37 = R[2];
-Obj v__3517514_37 = R[3];
-Obj v__3517515_37 = R[4];
-Obj v__3518797_37 = PRIM_EQ(Nil, v__3517512_37);
-if (True == v__3518797_37) {
+Obj v__3519433_37 = R[1];
+Obj v__3519434_37 = R[2];
+Obj v__3519435_37 = R[3];
+Obj v__3519436_37 = R[4];
+Obj v__3520901_37 = PRIM_EQ(Nil, v__3519433_37);
+if (True == v__3520901_37) {
 co->ctx.sp = R;
-coraCall2(co, v__3517515_37, v__3517514_37, v__3517513_37);
+coraCall2(co, v__3519436_37, v__3519435_37, v__3519434_37);
 return;
 } else {
-Obj v__3518798_37 = PRIM_ISCONS(v__3517512_37);
-if (True == v__3518798_37) {
-Obj v__3518799_37 = PRIM_CAR(v__3517512_37);
-Obj v__3517736_37 = v__3518799_37;
-Obj v__3518800_37 = PRIM_CDR(v__3517512_37);
-Obj v__3517737_37 = v__3518800_37;
+Obj v__3520902_37 = PRIM_ISCONS(v__3519433_37);
+if (True == v__3520902_37) {
+Obj v__3520903_37 = PRIM_CAR(v__3519433_37);
+Obj v__3519840_37 = v__3520903_37;
+Obj v__3520904_37 = PRIM_CDR(v__3519433_37);
+Obj v__3519841_37 = v__3520904_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3517736_37, v__3517513_37, makeNative(co->gc, 3, clofun72, 2, 3, v__3517737_37, v__3517514_37, v__3517515_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3519840_37, v__3519434_37, makeNative(co->gc, 3, clofun72, 2, 3, v__3519841_37, v__3519435_37, v__3519436_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5141,10 +5141,10 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_f1 = R[1];
-Obj v_conts1 = R[2];
+Obj v__3519445_37 = R[1];
+Obj v__3519446_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun71, 2, 2, closureRef(R[0], 2), v_f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), v__3519446_37, closureRef(R[0], 1), makeNative(co->gc, 3, clofun71, 2, 2, closureRef(R[0], 2), v__3519445_37));
 return;
 }
 }
@@ -5154,11 +5154,11 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_args1 = R[1];
-Obj v_conts2 = R[2];
-Obj v__3518801_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v__3519447_37 = R[1];
+Obj v__3519448_37 = R[2];
+Obj v__3520905_37 = makeCons(co->gc, closureRef(R[0], 1), v__3519447_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518801_37, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v__3520905_37, v__3519448_37);
 return;
 }
 }
@@ -5168,33 +5168,33 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517506_37 = R[1];
-Obj v__3517507_37 = R[2];
-Obj v__3517508_37 = R[3];
-Obj v__3517729_37 = makeNative(co->gc, 2, clofun69, 1, 3, v__3517506_37, v__3517507_37, v__3517508_37);
-Obj v__3518794_37 = primIsSymbol(v__3517506_37);
-if (True == v__3518794_37) {
+Obj v__3519414_37 = R[1];
+Obj v__3519415_37 = R[2];
+Obj v__3519416_37 = R[3];
+Obj v__3519833_37 = makeNative(co->gc, 2, clofun69, 1, 3, v__3519414_37, v__3519415_37, v__3519416_37);
+Obj v__3520898_37 = primIsSymbol(v__3519414_37);
+if (True == v__3520898_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517729_37, True);
+coraCall1(co, v__3519833_37, True);
 return;
 } else {
-R[1] = v__3517729_37;
+R[1] = v__3519833_37;
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517506_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519414_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518795_37= co->res;
-Obj v__3517729_37 = R[1];
-if (True == v__3518795_37) {
+Obj v__3520899_37= co->res;
+Obj v__3519833_37 = R[1];
+if (True == v__3520899_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517729_37, True);
+coraCall1(co, v__3519833_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517729_37, False);
+coraCall1(co, v__3519833_37, False);
 return;
 }
 }
@@ -5205,63 +5205,63 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517728_37 = R[1];
-if (True == v__3517728_37) {
+Obj v__3519832_37 = R[1];
+if (True == v__3519832_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517730_37 = makeNative(co->gc, 1, clofun67, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518770_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518770_37) {
-Obj v__3518771_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518772_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518771_37);
-if (True == v__3518772_37) {
-Obj v__3518773_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518774_37 = PRIM_ISCONS(v__3518773_37);
-if (True == v__3518774_37) {
-Obj v__3518775_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518776_37 = PRIM_CAR(v__3518775_37);
-Obj v__3517733_37 = v__3518776_37;
-Obj v__3518777_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518778_37 = PRIM_CDR(v__3518777_37);
-Obj v__3518779_37 = PRIM_ISCONS(v__3518778_37);
-if (True == v__3518779_37) {
-Obj v__3518780_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518781_37 = PRIM_CDR(v__3518780_37);
-Obj v__3518782_37 = PRIM_CAR(v__3518781_37);
-Obj v__3517734_37 = v__3518782_37;
-Obj v__3518783_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518784_37 = PRIM_CDR(v__3518783_37);
-Obj v__3518785_37 = PRIM_CDR(v__3518784_37);
-Obj v__3518786_37 = PRIM_EQ(Nil, v__3518785_37);
-if (True == v__3518786_37) {
+Obj v__3519834_37 = makeNative(co->gc, 1, clofun67, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520874_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520874_37) {
+Obj v__3520875_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520876_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520875_37);
+if (True == v__3520876_37) {
+Obj v__3520877_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520878_37 = PRIM_ISCONS(v__3520877_37);
+if (True == v__3520878_37) {
+Obj v__3520879_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520880_37 = PRIM_CAR(v__3520879_37);
+Obj v__3519837_37 = v__3520880_37;
+Obj v__3520881_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520882_37 = PRIM_CDR(v__3520881_37);
+Obj v__3520883_37 = PRIM_ISCONS(v__3520882_37);
+if (True == v__3520883_37) {
+Obj v__3520884_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520885_37 = PRIM_CDR(v__3520884_37);
+Obj v__3520886_37 = PRIM_CAR(v__3520885_37);
+Obj v__3519838_37 = v__3520886_37;
+Obj v__3520887_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520888_37 = PRIM_CDR(v__3520887_37);
+Obj v__3520889_37 = PRIM_CDR(v__3520888_37);
+Obj v__3520890_37 = PRIM_EQ(Nil, v__3520889_37);
+if (True == v__3520890_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3517734_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun68, 2, 2, closureRef(R[0], 2), v__3517733_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3519838_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun68, 2, 2, closureRef(R[0], 2), v__3519837_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517730_37);
+coraCall0(co, v__3519834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517730_37);
+coraCall0(co, v__3519834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517730_37);
+coraCall0(co, v__3519834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517730_37);
+coraCall0(co, v__3519834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517730_37);
+coraCall0(co, v__3519834_37);
 return;
 }
 }
@@ -5273,40 +5273,40 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_cont1 = R[1];
-Obj v_conts1 = R[2];
-R[1] = v_cont1;
-R[2] = v_conts1;
+Obj v__3519430_37 = R[1];
+Obj v__3519431_37 = R[2];
+R[1] = v__3519430_37;
+R[2] = v__3519431_37;
 saveCont(co, clofun68, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v_cont1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519430_37);
 return;
 }
 case 1:
 {
-Obj v__3518788_37= co->res;
-Obj v__3517735_37 = R[1];
-Obj v_cont1 = R[2];
-Obj v_conts1 = R[3];
-Obj v__3518789_37 = PRIM_ADD(v__3518788_37, MAKE_NUMBER(1));
-Obj v__3518790_37 = makeCons(co->gc, v__3518789_37, v__3517735_37);
-Obj v__3518791_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518790_37);
-Obj v__3518792_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518791_37);
-Obj v__3518793_37 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v__3520892_37= co->res;
+Obj v__3519839_37 = R[1];
+Obj v__3519430_37 = R[2];
+Obj v__3519431_37 = R[3];
+Obj v__3520893_37 = PRIM_ADD(v__3520892_37, MAKE_NUMBER(1));
+Obj v__3520894_37 = makeCons(co->gc, v__3520893_37, v__3519839_37);
+Obj v__3520895_37 = makeCons(co->gc, closureRef(R[0], 1), v__3520894_37);
+Obj v__3520896_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520895_37);
+Obj v__3520897_37 = makeCons(co->gc, v__3519430_37, v__3519431_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518792_37, v__3518793_37);
+coraCall2(co, closureRef(R[0], 0), v__3520896_37, v__3520897_37);
 return;
 }
 case 2:
 {
-Obj v__3518787_37= co->res;
-Obj v_cont1 = R[1];
-Obj v_conts1 = R[2];
-Obj v__3517735_37 = v__3518787_37;
-R[1] = v__3517735_37;
-R[2] = v_cont1;
-R[3] = v_conts1;
+Obj v__3520891_37= co->res;
+Obj v__3519430_37 = R[1];
+Obj v__3519431_37 = R[2];
+Obj v__3519839_37 = v__3520891_37;
+R[1] = v__3519839_37;
+R[2] = v__3519430_37;
+R[3] = v__3519431_37;
 saveCont(co, clofun68, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v_conts1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519431_37);
 return;
 }
 }
@@ -5316,15 +5316,15 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518766_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518766_37) {
-Obj v__3518767_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517731_37 = v__3518767_37;
-Obj v__3518768_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517732_37 = v__3518768_37;
-Obj v__3518769_37 = makeCons(co->gc, v__3517731_37, v__3517732_37);
+Obj v__3520870_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520870_37) {
+Obj v__3520871_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519835_37 = v__3520871_37;
+Obj v__3520872_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519836_37 = v__3520872_37;
+Obj v__3520873_37 = makeCons(co->gc, v__3519835_37, v__3519836_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), v__3518769_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), v__3520873_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5339,90 +5339,90 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517498_37 = R[1];
-Obj v__3517499_37 = R[2];
-R[1] = v__3517499_37;
-R[2] = v__3517498_37;
+Obj v__3519373_37 = R[1];
+Obj v__3519374_37 = R[2];
+R[1] = v__3519374_37;
+R[2] = v__3519373_37;
 saveCont(co, clofun66, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517499_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519374_37);
 return;
 }
 case 1:
 {
-Obj v__3518761_37= co->res;
-Obj v__3517725_37 = R[1];
-Obj v__3518762_37 = makeCons(co->gc, v__3518761_37, Nil);
-Obj v__3518763_37 = makeCons(co->gc, v__3517725_37, v__3518762_37);
-Obj v__3518764_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518763_37);
-coraReturn(co, v__3518764_37);
+Obj v__3520865_37= co->res;
+Obj v__3519829_37 = R[1];
+Obj v__3520866_37 = makeCons(co->gc, v__3520865_37, Nil);
+Obj v__3520867_37 = makeCons(co->gc, v__3519829_37, v__3520866_37);
+Obj v__3520868_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520867_37);
+coraReturn(co, v__3520868_37);
 return;
 }
 case 2:
 {
-Obj v__3518689_37= co->res;
-Obj v__3517499_37 = R[1];
-Obj v__3517498_37 = R[2];
-if (True == v__3518689_37) {
-coraReturn(co, v__3517499_37);
-return;
-} else {
-Obj v__3518690_37 = primIsSymbol(v__3517499_37);
-if (True == v__3518690_37) {
-coraReturn(co, v__3517499_37);
-return;
-} else {
-Obj v__3517714_37 = makeNative(co->gc, 4, clofun65, 0, 2, v__3517499_37, v__3517498_37);
-Obj v__3518744_37 = PRIM_ISCONS(v__3517499_37);
-if (True == v__3518744_37) {
-Obj v__3518745_37 = PRIM_CAR(v__3517499_37);
-Obj v__3518746_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518745_37);
-if (True == v__3518746_37) {
-Obj v__3518747_37 = PRIM_CDR(v__3517499_37);
-Obj v__3518748_37 = PRIM_ISCONS(v__3518747_37);
-if (True == v__3518748_37) {
-Obj v__3518749_37 = PRIM_CDR(v__3517499_37);
-Obj v__3518750_37 = PRIM_CAR(v__3518749_37);
-Obj v__3517725_37 = v__3518750_37;
-Obj v__3518751_37 = PRIM_CDR(v__3517499_37);
-Obj v__3518752_37 = PRIM_CDR(v__3518751_37);
-Obj v__3518753_37 = PRIM_ISCONS(v__3518752_37);
-if (True == v__3518753_37) {
-Obj v__3518754_37 = PRIM_CDR(v__3517499_37);
-Obj v__3518755_37 = PRIM_CDR(v__3518754_37);
-Obj v__3518756_37 = PRIM_CAR(v__3518755_37);
-Obj v__3517726_37 = v__3518756_37;
-Obj v__3518757_37 = PRIM_CDR(v__3517499_37);
-Obj v__3518758_37 = PRIM_CDR(v__3518757_37);
-Obj v__3518759_37 = PRIM_CDR(v__3518758_37);
-Obj v__3518760_37 = PRIM_EQ(Nil, v__3518759_37);
-if (True == v__3518760_37) {
-R[1] = v__3517725_37;
+Obj v__3520793_37= co->res;
+Obj v__3519374_37 = R[1];
+Obj v__3519373_37 = R[2];
+if (True == v__3520793_37) {
+coraReturn(co, v__3519374_37);
+return;
+} else {
+Obj v__3520794_37 = primIsSymbol(v__3519374_37);
+if (True == v__3520794_37) {
+coraReturn(co, v__3519374_37);
+return;
+} else {
+Obj v__3519818_37 = makeNative(co->gc, 4, clofun65, 0, 2, v__3519374_37, v__3519373_37);
+Obj v__3520848_37 = PRIM_ISCONS(v__3519374_37);
+if (True == v__3520848_37) {
+Obj v__3520849_37 = PRIM_CAR(v__3519374_37);
+Obj v__3520850_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520849_37);
+if (True == v__3520850_37) {
+Obj v__3520851_37 = PRIM_CDR(v__3519374_37);
+Obj v__3520852_37 = PRIM_ISCONS(v__3520851_37);
+if (True == v__3520852_37) {
+Obj v__3520853_37 = PRIM_CDR(v__3519374_37);
+Obj v__3520854_37 = PRIM_CAR(v__3520853_37);
+Obj v__3519829_37 = v__3520854_37;
+Obj v__3520855_37 = PRIM_CDR(v__3519374_37);
+Obj v__3520856_37 = PRIM_CDR(v__3520855_37);
+Obj v__3520857_37 = PRIM_ISCONS(v__3520856_37);
+if (True == v__3520857_37) {
+Obj v__3520858_37 = PRIM_CDR(v__3519374_37);
+Obj v__3520859_37 = PRIM_CDR(v__3520858_37);
+Obj v__3520860_37 = PRIM_CAR(v__3520859_37);
+Obj v__3519830_37 = v__3520860_37;
+Obj v__3520861_37 = PRIM_CDR(v__3519374_37);
+Obj v__3520862_37 = PRIM_CDR(v__3520861_37);
+Obj v__3520863_37 = PRIM_CDR(v__3520862_37);
+Obj v__3520864_37 = PRIM_EQ(Nil, v__3520863_37);
+if (True == v__3520864_37) {
+R[1] = v__3519829_37;
 saveCont(co, clofun66, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3517498_37, v__3517726_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3519373_37, v__3519830_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 }
@@ -5435,121 +5435,121 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517715_37 = makeNative(co->gc, 3, clofun64, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518719_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518719_37) {
-Obj v__3518720_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518721_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518720_37);
-if (True == v__3518721_37) {
-Obj v__3518722_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518723_37 = PRIM_ISCONS(v__3518722_37);
-if (True == v__3518723_37) {
-Obj v__3518724_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518725_37 = PRIM_CAR(v__3518724_37);
-Obj v__3517721_37 = v__3518725_37;
-Obj v__3518726_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518727_37 = PRIM_CDR(v__3518726_37);
-Obj v__3518728_37 = PRIM_ISCONS(v__3518727_37);
-if (True == v__3518728_37) {
-Obj v__3518729_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518730_37 = PRIM_CDR(v__3518729_37);
-Obj v__3518731_37 = PRIM_CAR(v__3518730_37);
-Obj v__3517722_37 = v__3518731_37;
-Obj v__3518732_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518733_37 = PRIM_CDR(v__3518732_37);
-Obj v__3518734_37 = PRIM_CDR(v__3518733_37);
-Obj v__3518735_37 = PRIM_EQ(Nil, v__3518734_37);
-if (True == v__3518735_37) {
-R[1] = v__3517722_37;
-R[2] = v__3517721_37;
+Obj v__3519819_37 = makeNative(co->gc, 3, clofun64, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520823_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520823_37) {
+Obj v__3520824_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520825_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520824_37);
+if (True == v__3520825_37) {
+Obj v__3520826_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520827_37 = PRIM_ISCONS(v__3520826_37);
+if (True == v__3520827_37) {
+Obj v__3520828_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520829_37 = PRIM_CAR(v__3520828_37);
+Obj v__3519825_37 = v__3520829_37;
+Obj v__3520830_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520831_37 = PRIM_CDR(v__3520830_37);
+Obj v__3520832_37 = PRIM_ISCONS(v__3520831_37);
+if (True == v__3520832_37) {
+Obj v__3520833_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520834_37 = PRIM_CDR(v__3520833_37);
+Obj v__3520835_37 = PRIM_CAR(v__3520834_37);
+Obj v__3519826_37 = v__3520835_37;
+Obj v__3520836_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520837_37 = PRIM_CDR(v__3520836_37);
+Obj v__3520838_37 = PRIM_CDR(v__3520837_37);
+Obj v__3520839_37 = PRIM_EQ(Nil, v__3520838_37);
+if (True == v__3520839_37) {
+R[1] = v__3519826_37;
+R[2] = v__3519825_37;
 saveCont(co, clofun65, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517722_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519826_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517715_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517715_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517715_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517715_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517715_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518740_37= co->res;
-Obj v__3517724_37 = R[1];
-Obj v__3517721_37 = R[2];
-Obj v__3518741_37 = makeCons(co->gc, v__3518740_37, v__3517724_37);
-Obj v__3518742_37 = makeCons(co->gc, v__3517721_37, v__3518741_37);
-Obj v__3518743_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3518742_37);
-coraReturn(co, v__3518743_37);
+Obj v__3520844_37= co->res;
+Obj v__3519828_37 = R[1];
+Obj v__3519825_37 = R[2];
+Obj v__3520845_37 = makeCons(co->gc, v__3520844_37, v__3519828_37);
+Obj v__3520846_37 = makeCons(co->gc, v__3519825_37, v__3520845_37);
+Obj v__3520847_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3520846_37);
+coraReturn(co, v__3520847_37);
 return;
 }
 case 2:
 {
-Obj v__3518739_37= co->res;
-Obj v__3517723_37 = R[1];
-Obj v__3517722_37 = R[2];
-Obj v__3517721_37 = R[3];
-Obj v__3517724_37 = v__3518739_37;
-R[1] = v__3517724_37;
-R[2] = v__3517721_37;
+Obj v__3520843_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519826_37 = R[2];
+Obj v__3519825_37 = R[3];
+Obj v__3519828_37 = v__3520843_37;
+R[1] = v__3519828_37;
+R[2] = v__3519825_37;
 saveCont(co, clofun65, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3517723_37, v__3517722_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3519827_37, v__3519826_37);
 return;
 }
 case 3:
 {
-Obj v__3518738_37= co->res;
-Obj v__3517723_37 = R[1];
-Obj v__3517722_37 = R[2];
-Obj v__3517721_37 = R[3];
-R[1] = v__3517723_37;
-R[2] = v__3517722_37;
-R[3] = v__3517721_37;
+Obj v__3520842_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519826_37 = R[2];
+Obj v__3519825_37 = R[3];
+R[1] = v__3519827_37;
+R[2] = v__3519826_37;
+R[3] = v__3519825_37;
 saveCont(co, clofun65, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518738_37, v__3517723_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520842_37, v__3519827_37);
 return;
 }
 case 4:
 {
-Obj v__3518737_37= co->res;
-Obj v__3517722_37 = R[1];
-Obj v__3517721_37 = R[2];
-Obj v__3517723_37 = v__3518737_37;
-R[1] = v__3517723_37;
-R[2] = v__3517722_37;
-R[3] = v__3517721_37;
+Obj v__3520841_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3519825_37 = R[2];
+Obj v__3519827_37 = v__3520841_37;
+R[1] = v__3519827_37;
+R[2] = v__3519826_37;
+R[3] = v__3519825_37;
 saveCont(co, clofun65, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v__3518736_37= co->res;
-Obj v__3517722_37 = R[1];
-Obj v__3517721_37 = R[2];
-R[1] = v__3517722_37;
-R[2] = v__3517721_37;
+Obj v__3520840_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3519825_37 = R[2];
+R[1] = v__3519826_37;
+R[2] = v__3519825_37;
 saveCont(co, clofun65, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518736_37, v__3517721_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520840_37, v__3519825_37);
 return;
 }
 }
@@ -5559,89 +5559,89 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517716_37 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518696_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518696_37) {
-Obj v__3518697_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518698_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518697_37);
-if (True == v__3518698_37) {
-Obj v__3518699_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518700_37 = PRIM_ISCONS(v__3518699_37);
-if (True == v__3518700_37) {
-Obj v__3518701_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518702_37 = PRIM_CAR(v__3518701_37);
-Obj v__3517719_37 = v__3518702_37;
-Obj v__3518703_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518704_37 = PRIM_CDR(v__3518703_37);
-Obj v__3518705_37 = PRIM_ISCONS(v__3518704_37);
-if (True == v__3518705_37) {
-Obj v__3518706_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518707_37 = PRIM_CDR(v__3518706_37);
-Obj v__3518708_37 = PRIM_CAR(v__3518707_37);
-Obj v__3517720_37 = v__3518708_37;
-Obj v__3518709_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518710_37 = PRIM_CDR(v__3518709_37);
-Obj v__3518711_37 = PRIM_CDR(v__3518710_37);
-Obj v__3518712_37 = PRIM_EQ(Nil, v__3518711_37);
-if (True == v__3518712_37) {
-R[1] = v__3517719_37;
-R[2] = v__3517720_37;
+Obj v__3519820_37 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520800_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520800_37) {
+Obj v__3520801_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520802_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520801_37);
+if (True == v__3520802_37) {
+Obj v__3520803_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520804_37 = PRIM_ISCONS(v__3520803_37);
+if (True == v__3520804_37) {
+Obj v__3520805_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520806_37 = PRIM_CAR(v__3520805_37);
+Obj v__3519823_37 = v__3520806_37;
+Obj v__3520807_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520808_37 = PRIM_CDR(v__3520807_37);
+Obj v__3520809_37 = PRIM_ISCONS(v__3520808_37);
+if (True == v__3520809_37) {
+Obj v__3520810_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520811_37 = PRIM_CDR(v__3520810_37);
+Obj v__3520812_37 = PRIM_CAR(v__3520811_37);
+Obj v__3519824_37 = v__3520812_37;
+Obj v__3520813_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520814_37 = PRIM_CDR(v__3520813_37);
+Obj v__3520815_37 = PRIM_CDR(v__3520814_37);
+Obj v__3520816_37 = PRIM_EQ(Nil, v__3520815_37);
+if (True == v__3520816_37) {
+R[1] = v__3519823_37;
+R[2] = v__3519824_37;
 saveCont(co, clofun64, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517716_37);
+coraCall0(co, v__3519820_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517716_37);
+coraCall0(co, v__3519820_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517716_37);
+coraCall0(co, v__3519820_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517716_37);
+coraCall0(co, v__3519820_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517716_37);
+coraCall0(co, v__3519820_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518715_37= co->res;
-Obj v__3518714_37 = R[1];
-Obj v__3518716_37 = makeCons(co->gc, v__3518715_37, Nil);
-Obj v__3518717_37 = makeCons(co->gc, v__3518714_37, v__3518716_37);
-Obj v__3518718_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518717_37);
-coraReturn(co, v__3518718_37);
+Obj v__3520819_37= co->res;
+Obj v__3520818_37 = R[1];
+Obj v__3520820_37 = makeCons(co->gc, v__3520819_37, Nil);
+Obj v__3520821_37 = makeCons(co->gc, v__3520818_37, v__3520820_37);
+Obj v__3520822_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520821_37);
+coraReturn(co, v__3520822_37);
 return;
 }
 case 2:
 {
-Obj v__3518714_37= co->res;
-Obj v__3517720_37 = R[1];
-R[1] = v__3518714_37;
+Obj v__3520818_37= co->res;
+Obj v__3519824_37 = R[1];
+R[1] = v__3520818_37;
 saveCont(co, clofun64, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), v__3517720_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), v__3519824_37);
 return;
 }
 case 3:
 {
-Obj v__3518713_37= co->res;
-Obj v__3517719_37 = R[1];
-Obj v__3517720_37 = R[2];
-R[1] = v__3517720_37;
+Obj v__3520817_37= co->res;
+Obj v__3519823_37 = R[1];
+Obj v__3519824_37 = R[2];
+R[1] = v__3519824_37;
 saveCont(co, clofun64, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518713_37, v__3517719_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520817_37, v__3519823_37);
 return;
 }
 }
@@ -5651,14 +5651,14 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518691_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518691_37) {
-Obj v__3518692_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517717_37 = v__3518692_37;
-Obj v__3518693_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517718_37 = v__3518693_37;
-R[1] = v__3517717_37;
-R[2] = v__3517718_37;
+Obj v__3520795_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520795_37) {
+Obj v__3520796_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519821_37 = v__3520796_37;
+Obj v__3520797_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519822_37 = v__3520797_37;
+R[1] = v__3519821_37;
+R[2] = v__3519822_37;
 saveCont(co, clofun63, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
@@ -5670,12 +5670,12 @@ return;
 }
 case 1:
 {
-Obj v__3518694_37= co->res;
-Obj v__3517717_37 = R[1];
-Obj v__3517718_37 = R[2];
-Obj v__3518695_37 = makeCons(co->gc, v__3517717_37, v__3517718_37);
+Obj v__3520798_37= co->res;
+Obj v__3519821_37 = R[1];
+Obj v__3519822_37 = R[2];
+Obj v__3520799_37 = makeCons(co->gc, v__3519821_37, v__3519822_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518694_37, v__3518695_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520798_37, v__3520799_37);
 return;
 }
 }
@@ -5685,24 +5685,24 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517493_37 = R[1];
-Obj v__3517494_37 = R[2];
-Obj v__3517495_37 = R[3];
-Obj v__3518666_37 = PRIM_EQ(Nil, v__3517493_37);
-if (True == v__3518666_37) {
-R[1] = v__3517495_37;
+Obj v__3519362_37 = R[1];
+Obj v__3519363_37 = R[2];
+Obj v__3519364_37 = R[3];
+Obj v__3520770_37 = PRIM_EQ(Nil, v__3519362_37);
+if (True == v__3520770_37) {
+R[1] = v__3519364_37;
 saveCont(co, clofun62, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3517494_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519363_37);
 return;
 } else {
-Obj v__3518684_37 = PRIM_ISCONS(v__3517493_37);
-if (True == v__3518684_37) {
-Obj v__3518685_37 = PRIM_CAR(v__3517493_37);
-Obj v__3517712_37 = v__3518685_37;
-Obj v__3518686_37 = PRIM_CDR(v__3517493_37);
-Obj v__3517713_37 = v__3518686_37;
+Obj v__3520788_37 = PRIM_ISCONS(v__3519362_37);
+if (True == v__3520788_37) {
+Obj v__3520789_37 = PRIM_CAR(v__3519362_37);
+Obj v__3519816_37 = v__3520789_37;
+Obj v__3520790_37 = PRIM_CDR(v__3519362_37);
+Obj v__3519817_37 = v__3520790_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517712_37, makeNative(co->gc, 2, clofun61, 1, 3, v__3517713_37, v__3517494_37, v__3517495_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519816_37, makeNative(co->gc, 2, clofun61, 1, 3, v__3519817_37, v__3519363_37, v__3519364_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5713,46 +5713,46 @@ return;
 }
 case 1:
 {
-Obj v__3518682_37= co->res;
-Obj v__3517710_37 = R[1];
-Obj v__3518683_37 = PRIM_EQ(v__3518682_37, getBinding(co, packageID, 92).name);
-if (True == v__3518683_37) {
+Obj v__3520786_37= co->res;
+Obj v__3519814_37 = R[1];
+Obj v__3520787_37 = PRIM_EQ(v__3520786_37, getBinding(co, packageID, 92).name);
+if (True == v__3520787_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517710_37, True);
+coraCall1(co, v__3519814_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517710_37, False);
+coraCall1(co, v__3519814_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518681_37= co->res;
-Obj v__3517707_37 = R[1];
-Obj v__3517710_37 = R[2];
-if (True == v__3518681_37) {
-R[1] = v__3517710_37;
+Obj v__3520785_37= co->res;
+Obj v__3519811_37 = R[1];
+Obj v__3519814_37 = R[2];
+if (True == v__3520785_37) {
+R[1] = v__3519814_37;
 saveCont(co, clofun62, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3517707_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3519811_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517710_37, False);
+coraCall1(co, v__3519814_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3518667_37= co->res;
-Obj v__3517495_37 = R[1];
-Obj v__3517707_37 = v__3518667_37;
-Obj v__3517710_37 = makeNative(co->gc, 2, clofun60, 1, 2, v__3517707_37, v__3517495_37);
-Obj v__3518680_37 = PRIM_CAR(v__3517707_37);
-R[1] = v__3517707_37;
-R[2] = v__3517710_37;
+Obj v__3520771_37= co->res;
+Obj v__3519364_37 = R[1];
+Obj v__3519811_37 = v__3520771_37;
+Obj v__3519814_37 = makeNative(co->gc, 2, clofun60, 1, 2, v__3519811_37, v__3519364_37);
+Obj v__3520784_37 = PRIM_CAR(v__3519811_37);
+R[1] = v__3519811_37;
+R[2] = v__3519814_37;
 saveCont(co, clofun62, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3518680_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3520784_37);
 return;
 }
 }
@@ -5762,10 +5762,10 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_hd1 = R[1];
-Obj v__3518687_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v__3519372_37 = R[1];
+Obj v__3520791_37 = makeCons(co->gc, v__3519372_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), v__3518687_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), v__3520791_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5775,40 +5775,40 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517709_37 = R[1];
-if (True == v__3517709_37) {
+Obj v__3519813_37 = R[1];
+if (True == v__3519813_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3518668_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
-if (True == v__3518668_37) {
-Obj v__3518669_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3518670_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3518669_37);
-coraReturn(co, v__3518670_37);
+Obj v__3520772_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
+if (True == v__3520772_37) {
+Obj v__3520773_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520774_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3520773_37);
+coraReturn(co, v__3520774_37);
 return;
 } else {
-Obj v__3518671_37 = primGenSym(co);
-Obj v__3517711_37 = v__3518671_37;
-Obj v__3518672_37 = makeCons(co->gc, v__3517711_37, Nil);
-R[1] = v__3518672_37;
+Obj v__3520775_37 = primGenSym(co);
+Obj v__3519815_37 = v__3520775_37;
+Obj v__3520776_37 = makeCons(co->gc, v__3519815_37, Nil);
+R[1] = v__3520776_37;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3517711_37);
+coraCall1(co, closureRef(R[0], 1), v__3519815_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518673_37= co->res;
-Obj v__3518672_37 = R[1];
-Obj v__3518674_37 = makeCons(co->gc, v__3518673_37, Nil);
-Obj v__3518675_37 = makeCons(co->gc, v__3518672_37, v__3518674_37);
-Obj v__3518676_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518675_37);
-Obj v__3518677_37 = makeCons(co->gc, v__3518676_37, Nil);
-Obj v__3518678_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518677_37);
-Obj v__3518679_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518678_37);
-coraReturn(co, v__3518679_37);
+Obj v__3520777_37= co->res;
+Obj v__3520776_37 = R[1];
+Obj v__3520778_37 = makeCons(co->gc, v__3520777_37, Nil);
+Obj v__3520779_37 = makeCons(co->gc, v__3520776_37, v__3520778_37);
+Obj v__3520780_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520779_37);
+Obj v__3520781_37 = makeCons(co->gc, v__3520780_37, Nil);
+Obj v__3520782_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520781_37);
+Obj v__3520783_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520782_37);
+coraReturn(co, v__3520783_37);
 return;
 }
 }
@@ -5818,32 +5818,32 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517484_37 = R[1];
-Obj v__3517485_37 = R[2];
-Obj v__3517689_37 = makeNative(co->gc, 2, clofun58, 1, 2, v__3517484_37, v__3517485_37);
-Obj v__3518663_37 = primIsSymbol(v__3517484_37);
-if (True == v__3518663_37) {
+Obj v__3519300_37 = R[1];
+Obj v__3519301_37 = R[2];
+Obj v__3519793_37 = makeNative(co->gc, 2, clofun58, 1, 2, v__3519300_37, v__3519301_37);
+Obj v__3520767_37 = primIsSymbol(v__3519300_37);
+if (True == v__3520767_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517689_37, True);
+coraCall1(co, v__3519793_37, True);
 return;
 } else {
-R[1] = v__3517689_37;
+R[1] = v__3519793_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517484_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519300_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518664_37= co->res;
-Obj v__3517689_37 = R[1];
-if (True == v__3518664_37) {
+Obj v__3520768_37= co->res;
+Obj v__3519793_37 = R[1];
+if (True == v__3520768_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517689_37, True);
+coraCall1(co, v__3519793_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517689_37, False);
+coraCall1(co, v__3519793_37, False);
 return;
 }
 }
@@ -5854,8 +5854,8 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517688_37 = R[1];
-if (True == v__3517688_37) {
+Obj v__3519792_37 = R[1];
+if (True == v__3519792_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5867,78 +5867,78 @@ return;
 }
 case 1:
 {
-Obj v__3518529_37= co->res;
-if (True == v__3518529_37) {
+Obj v__3520633_37= co->res;
+if (True == v__3520633_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v__3517690_37 = makeNative(co->gc, 1, clofun56, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518631_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518631_37) {
-Obj v__3518632_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518633_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518632_37);
-if (True == v__3518633_37) {
-Obj v__3518634_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518635_37 = PRIM_ISCONS(v__3518634_37);
-if (True == v__3518635_37) {
-Obj v__3518636_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518637_37 = PRIM_CAR(v__3518636_37);
-Obj v__3517704_37 = v__3518637_37;
-Obj v__3518638_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518639_37 = PRIM_CDR(v__3518638_37);
-Obj v__3518640_37 = PRIM_ISCONS(v__3518639_37);
-if (True == v__3518640_37) {
-Obj v__3518641_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518642_37 = PRIM_CDR(v__3518641_37);
-Obj v__3518643_37 = PRIM_CAR(v__3518642_37);
-Obj v__3517705_37 = v__3518643_37;
-Obj v__3518644_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518645_37 = PRIM_CDR(v__3518644_37);
-Obj v__3518646_37 = PRIM_CDR(v__3518645_37);
-Obj v__3518647_37 = PRIM_ISCONS(v__3518646_37);
-if (True == v__3518647_37) {
-Obj v__3518648_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518649_37 = PRIM_CDR(v__3518648_37);
-Obj v__3518650_37 = PRIM_CDR(v__3518649_37);
-Obj v__3518651_37 = PRIM_CAR(v__3518650_37);
-Obj v__3517706_37 = v__3518651_37;
-Obj v__3518652_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518653_37 = PRIM_CDR(v__3518652_37);
-Obj v__3518654_37 = PRIM_CDR(v__3518653_37);
-Obj v__3518655_37 = PRIM_CDR(v__3518654_37);
-Obj v__3518656_37 = PRIM_EQ(Nil, v__3518655_37);
-if (True == v__3518656_37) {
+Obj v__3519794_37 = makeNative(co->gc, 1, clofun56, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520735_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520735_37) {
+Obj v__3520736_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520737_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520736_37);
+if (True == v__3520737_37) {
+Obj v__3520738_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520739_37 = PRIM_ISCONS(v__3520738_37);
+if (True == v__3520739_37) {
+Obj v__3520740_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520741_37 = PRIM_CAR(v__3520740_37);
+Obj v__3519808_37 = v__3520741_37;
+Obj v__3520742_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520743_37 = PRIM_CDR(v__3520742_37);
+Obj v__3520744_37 = PRIM_ISCONS(v__3520743_37);
+if (True == v__3520744_37) {
+Obj v__3520745_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520746_37 = PRIM_CDR(v__3520745_37);
+Obj v__3520747_37 = PRIM_CAR(v__3520746_37);
+Obj v__3519809_37 = v__3520747_37;
+Obj v__3520748_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520749_37 = PRIM_CDR(v__3520748_37);
+Obj v__3520750_37 = PRIM_CDR(v__3520749_37);
+Obj v__3520751_37 = PRIM_ISCONS(v__3520750_37);
+if (True == v__3520751_37) {
+Obj v__3520752_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520753_37 = PRIM_CDR(v__3520752_37);
+Obj v__3520754_37 = PRIM_CDR(v__3520753_37);
+Obj v__3520755_37 = PRIM_CAR(v__3520754_37);
+Obj v__3519810_37 = v__3520755_37;
+Obj v__3520756_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520757_37 = PRIM_CDR(v__3520756_37);
+Obj v__3520758_37 = PRIM_CDR(v__3520757_37);
+Obj v__3520759_37 = PRIM_CDR(v__3520758_37);
+Obj v__3520760_37 = PRIM_EQ(Nil, v__3520759_37);
+if (True == v__3520760_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517704_37, makeNative(co->gc, 3, clofun57, 1, 3, v__3517705_37, v__3517706_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519808_37, makeNative(co->gc, 3, clofun57, 1, 3, v__3519809_37, v__3519810_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3519794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3519794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3519794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3519794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3519794_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3519794_37);
 return;
 }
 }
@@ -5950,30 +5950,30 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_ra = R[1];
-R[1] = v_ra;
+Obj v__3519361_37 = R[1];
+R[1] = v__3519361_37;
 saveCont(co, clofun57, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3518658_37= co->res;
-Obj v__3518657_37 = R[1];
-Obj v_ra = R[2];
-Obj v__3518659_37 = makeCons(co->gc, v__3518658_37, Nil);
-Obj v__3518660_37 = makeCons(co->gc, v__3518657_37, v__3518659_37);
-Obj v__3518661_37 = makeCons(co->gc, v_ra, v__3518660_37);
-Obj v__3518662_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518661_37);
-coraReturn(co, v__3518662_37);
+Obj v__3520762_37= co->res;
+Obj v__3520761_37 = R[1];
+Obj v__3519361_37 = R[2];
+Obj v__3520763_37 = makeCons(co->gc, v__3520762_37, Nil);
+Obj v__3520764_37 = makeCons(co->gc, v__3520761_37, v__3520763_37);
+Obj v__3520765_37 = makeCons(co->gc, v__3519361_37, v__3520764_37);
+Obj v__3520766_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520765_37);
+coraReturn(co, v__3520766_37);
 return;
 }
 case 2:
 {
-Obj v__3518657_37= co->res;
-Obj v_ra = R[1];
-R[1] = v__3518657_37;
-R[2] = v_ra;
+Obj v__3520761_37= co->res;
+Obj v__3519361_37 = R[1];
+R[1] = v__3520761_37;
+R[2] = v__3519361_37;
 saveCont(co, clofun57, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
@@ -5985,57 +5985,57 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517691_37 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518609_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518609_37) {
-Obj v__3518610_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518611_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518610_37);
-if (True == v__3518611_37) {
-Obj v__3518612_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518613_37 = PRIM_ISCONS(v__3518612_37);
-if (True == v__3518613_37) {
-Obj v__3518614_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518615_37 = PRIM_CAR(v__3518614_37);
-Obj v__3517702_37 = v__3518615_37;
-Obj v__3518616_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518617_37 = PRIM_CDR(v__3518616_37);
-Obj v__3518618_37 = PRIM_ISCONS(v__3518617_37);
-if (True == v__3518618_37) {
-Obj v__3518619_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518620_37 = PRIM_CDR(v__3518619_37);
-Obj v__3518621_37 = PRIM_CAR(v__3518620_37);
-Obj v__3517703_37 = v__3518621_37;
-Obj v__3518622_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518623_37 = PRIM_CDR(v__3518622_37);
-Obj v__3518624_37 = PRIM_CDR(v__3518623_37);
-Obj v__3518625_37 = PRIM_EQ(Nil, v__3518624_37);
-if (True == v__3518625_37) {
+Obj v__3519795_37 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520713_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520713_37) {
+Obj v__3520714_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520715_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520714_37);
+if (True == v__3520715_37) {
+Obj v__3520716_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520717_37 = PRIM_ISCONS(v__3520716_37);
+if (True == v__3520717_37) {
+Obj v__3520718_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520719_37 = PRIM_CAR(v__3520718_37);
+Obj v__3519806_37 = v__3520719_37;
+Obj v__3520720_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520721_37 = PRIM_CDR(v__3520720_37);
+Obj v__3520722_37 = PRIM_ISCONS(v__3520721_37);
+if (True == v__3520722_37) {
+Obj v__3520723_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520724_37 = PRIM_CDR(v__3520723_37);
+Obj v__3520725_37 = PRIM_CAR(v__3520724_37);
+Obj v__3519807_37 = v__3520725_37;
+Obj v__3520726_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520727_37 = PRIM_CDR(v__3520726_37);
+Obj v__3520728_37 = PRIM_CDR(v__3520727_37);
+Obj v__3520729_37 = PRIM_EQ(Nil, v__3520728_37);
+if (True == v__3520729_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517702_37, makeNative(co->gc, 2, clofun55, 1, 2, v__3517703_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519806_37, makeNative(co->gc, 2, clofun55, 1, 2, v__3519807_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3519795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3519795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3519795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3519795_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3519795_37);
 return;
 }
 }
@@ -6046,14 +6046,14 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_ra = R[1];
-Obj v__3518626_37 = primIsSymbol(v_ra);
-if (True == v__3518626_37) {
+Obj v__3519356_37 = R[1];
+Obj v__3520730_37 = primIsSymbol(v__3519356_37);
+if (True == v__3520730_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = v_ra;
+R[1] = v__3519356_37;
 saveCont(co, clofun55, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6061,12 +6061,12 @@ return;
 }
 case 1:
 {
-Obj v__3518627_37= co->res;
-Obj v_ra = R[1];
-Obj v__3518628_37 = makeCons(co->gc, v__3518627_37, Nil);
-Obj v__3518629_37 = makeCons(co->gc, v_ra, v__3518628_37);
-Obj v__3518630_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518629_37);
-coraReturn(co, v__3518630_37);
+Obj v__3520731_37= co->res;
+Obj v__3519356_37 = R[1];
+Obj v__3520732_37 = makeCons(co->gc, v__3520731_37, Nil);
+Obj v__3520733_37 = makeCons(co->gc, v__3519356_37, v__3520732_37);
+Obj v__3520734_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520733_37);
+coraReturn(co, v__3520734_37);
 return;
 }
 }
@@ -6076,73 +6076,73 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517692_37 = makeNative(co->gc, 3, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518578_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518578_37) {
-Obj v__3518579_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518580_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3518579_37);
-if (True == v__3518580_37) {
-Obj v__3518581_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518582_37 = PRIM_ISCONS(v__3518581_37);
-if (True == v__3518582_37) {
-Obj v__3518583_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518584_37 = PRIM_CAR(v__3518583_37);
-Obj v__3517699_37 = v__3518584_37;
-Obj v__3518585_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518586_37 = PRIM_CDR(v__3518585_37);
-Obj v__3518587_37 = PRIM_ISCONS(v__3518586_37);
-if (True == v__3518587_37) {
-Obj v__3518588_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518589_37 = PRIM_CDR(v__3518588_37);
-Obj v__3518590_37 = PRIM_CAR(v__3518589_37);
-Obj v__3517700_37 = v__3518590_37;
-Obj v__3518591_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518592_37 = PRIM_CDR(v__3518591_37);
-Obj v__3518593_37 = PRIM_CDR(v__3518592_37);
-Obj v__3518594_37 = PRIM_ISCONS(v__3518593_37);
-if (True == v__3518594_37) {
-Obj v__3518595_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518596_37 = PRIM_CDR(v__3518595_37);
-Obj v__3518597_37 = PRIM_CDR(v__3518596_37);
-Obj v__3518598_37 = PRIM_CAR(v__3518597_37);
-Obj v__3517701_37 = v__3518598_37;
-Obj v__3518599_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518600_37 = PRIM_CDR(v__3518599_37);
-Obj v__3518601_37 = PRIM_CDR(v__3518600_37);
-Obj v__3518602_37 = PRIM_CDR(v__3518601_37);
-Obj v__3518603_37 = PRIM_EQ(Nil, v__3518602_37);
-if (True == v__3518603_37) {
+Obj v__3519796_37 = makeNative(co->gc, 3, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520682_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520682_37) {
+Obj v__3520683_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520684_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520683_37);
+if (True == v__3520684_37) {
+Obj v__3520685_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520686_37 = PRIM_ISCONS(v__3520685_37);
+if (True == v__3520686_37) {
+Obj v__3520687_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520688_37 = PRIM_CAR(v__3520687_37);
+Obj v__3519803_37 = v__3520688_37;
+Obj v__3520689_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520690_37 = PRIM_CDR(v__3520689_37);
+Obj v__3520691_37 = PRIM_ISCONS(v__3520690_37);
+if (True == v__3520691_37) {
+Obj v__3520692_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520693_37 = PRIM_CDR(v__3520692_37);
+Obj v__3520694_37 = PRIM_CAR(v__3520693_37);
+Obj v__3519804_37 = v__3520694_37;
+Obj v__3520695_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520696_37 = PRIM_CDR(v__3520695_37);
+Obj v__3520697_37 = PRIM_CDR(v__3520696_37);
+Obj v__3520698_37 = PRIM_ISCONS(v__3520697_37);
+if (True == v__3520698_37) {
+Obj v__3520699_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520700_37 = PRIM_CDR(v__3520699_37);
+Obj v__3520701_37 = PRIM_CDR(v__3520700_37);
+Obj v__3520702_37 = PRIM_CAR(v__3520701_37);
+Obj v__3519805_37 = v__3520702_37;
+Obj v__3520703_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520704_37 = PRIM_CDR(v__3520703_37);
+Obj v__3520705_37 = PRIM_CDR(v__3520704_37);
+Obj v__3520706_37 = PRIM_CDR(v__3520705_37);
+Obj v__3520707_37 = PRIM_EQ(Nil, v__3520706_37);
+if (True == v__3520707_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517700_37, makeNative(co->gc, 2, clofun53, 1, 3, v__3517699_37, v__3517701_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519804_37, makeNative(co->gc, 2, clofun53, 1, 3, v__3519803_37, v__3519805_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3519796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3519796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3519796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3519796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3519796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3519796_37);
 return;
 }
 }
@@ -6153,21 +6153,21 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_rb = R[1];
-R[1] = v_rb;
+Obj v__3519352_37 = R[1];
+R[1] = v__3519352_37;
 saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3518604_37= co->res;
-Obj v_rb = R[1];
-Obj v__3518605_37 = makeCons(co->gc, v__3518604_37, Nil);
-Obj v__3518606_37 = makeCons(co->gc, v_rb, v__3518605_37);
-Obj v__3518607_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518606_37);
-Obj v__3518608_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518607_37);
-coraReturn(co, v__3518608_37);
+Obj v__3520708_37= co->res;
+Obj v__3519352_37 = R[1];
+Obj v__3520709_37 = makeCons(co->gc, v__3520708_37, Nil);
+Obj v__3520710_37 = makeCons(co->gc, v__3519352_37, v__3520709_37);
+Obj v__3520711_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520710_37);
+Obj v__3520712_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520711_37);
+coraReturn(co, v__3520712_37);
 return;
 }
 }
@@ -6177,114 +6177,114 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517693_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518534_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518534_37) {
-Obj v__3518535_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518536_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518535_37);
-if (True == v__3518536_37) {
-Obj v__3518537_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518538_37 = PRIM_ISCONS(v__3518537_37);
-if (True == v__3518538_37) {
-Obj v__3518539_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518540_37 = PRIM_CAR(v__3518539_37);
-Obj v__3518541_37 = PRIM_ISCONS(v__3518540_37);
-if (True == v__3518541_37) {
-Obj v__3518542_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518543_37 = PRIM_CAR(v__3518542_37);
-Obj v__3518544_37 = PRIM_CAR(v__3518543_37);
-Obj v__3518545_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518544_37);
-if (True == v__3518545_37) {
-Obj v__3518546_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518547_37 = PRIM_CAR(v__3518546_37);
-Obj v__3518548_37 = PRIM_CDR(v__3518547_37);
-Obj v__3518549_37 = PRIM_ISCONS(v__3518548_37);
-if (True == v__3518549_37) {
-Obj v__3518550_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518551_37 = PRIM_CAR(v__3518550_37);
-Obj v__3518552_37 = PRIM_CDR(v__3518551_37);
-Obj v__3518553_37 = PRIM_CAR(v__3518552_37);
-Obj v__3517696_37 = v__3518553_37;
-Obj v__3518554_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518555_37 = PRIM_CAR(v__3518554_37);
-Obj v__3518556_37 = PRIM_CDR(v__3518555_37);
-Obj v__3518557_37 = PRIM_CDR(v__3518556_37);
-Obj v__3518558_37 = PRIM_ISCONS(v__3518557_37);
-if (True == v__3518558_37) {
-Obj v__3518559_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518560_37 = PRIM_CAR(v__3518559_37);
-Obj v__3518561_37 = PRIM_CDR(v__3518560_37);
-Obj v__3518562_37 = PRIM_CDR(v__3518561_37);
-Obj v__3518563_37 = PRIM_CAR(v__3518562_37);
-Obj v__3517697_37 = v__3518563_37;
-Obj v__3518564_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518565_37 = PRIM_CAR(v__3518564_37);
-Obj v__3518566_37 = PRIM_CDR(v__3518565_37);
-Obj v__3518567_37 = PRIM_CDR(v__3518566_37);
-Obj v__3518568_37 = PRIM_CDR(v__3518567_37);
-Obj v__3518569_37 = PRIM_EQ(Nil, v__3518568_37);
-if (True == v__3518569_37) {
-Obj v__3518570_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518571_37 = PRIM_CDR(v__3518570_37);
-Obj v__3517698_37 = v__3518571_37;
-R[1] = v__3517696_37;
-R[2] = v__3517698_37;
+Obj v__3519797_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520638_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520638_37) {
+Obj v__3520639_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520640_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520639_37);
+if (True == v__3520640_37) {
+Obj v__3520641_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520642_37 = PRIM_ISCONS(v__3520641_37);
+if (True == v__3520642_37) {
+Obj v__3520643_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520644_37 = PRIM_CAR(v__3520643_37);
+Obj v__3520645_37 = PRIM_ISCONS(v__3520644_37);
+if (True == v__3520645_37) {
+Obj v__3520646_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520647_37 = PRIM_CAR(v__3520646_37);
+Obj v__3520648_37 = PRIM_CAR(v__3520647_37);
+Obj v__3520649_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520648_37);
+if (True == v__3520649_37) {
+Obj v__3520650_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520651_37 = PRIM_CAR(v__3520650_37);
+Obj v__3520652_37 = PRIM_CDR(v__3520651_37);
+Obj v__3520653_37 = PRIM_ISCONS(v__3520652_37);
+if (True == v__3520653_37) {
+Obj v__3520654_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520655_37 = PRIM_CAR(v__3520654_37);
+Obj v__3520656_37 = PRIM_CDR(v__3520655_37);
+Obj v__3520657_37 = PRIM_CAR(v__3520656_37);
+Obj v__3519800_37 = v__3520657_37;
+Obj v__3520658_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520659_37 = PRIM_CAR(v__3520658_37);
+Obj v__3520660_37 = PRIM_CDR(v__3520659_37);
+Obj v__3520661_37 = PRIM_CDR(v__3520660_37);
+Obj v__3520662_37 = PRIM_ISCONS(v__3520661_37);
+if (True == v__3520662_37) {
+Obj v__3520663_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520664_37 = PRIM_CAR(v__3520663_37);
+Obj v__3520665_37 = PRIM_CDR(v__3520664_37);
+Obj v__3520666_37 = PRIM_CDR(v__3520665_37);
+Obj v__3520667_37 = PRIM_CAR(v__3520666_37);
+Obj v__3519801_37 = v__3520667_37;
+Obj v__3520668_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520669_37 = PRIM_CAR(v__3520668_37);
+Obj v__3520670_37 = PRIM_CDR(v__3520669_37);
+Obj v__3520671_37 = PRIM_CDR(v__3520670_37);
+Obj v__3520672_37 = PRIM_CDR(v__3520671_37);
+Obj v__3520673_37 = PRIM_EQ(Nil, v__3520672_37);
+if (True == v__3520673_37) {
+Obj v__3520674_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520675_37 = PRIM_CDR(v__3520674_37);
+Obj v__3519802_37 = v__3520675_37;
+R[1] = v__3519800_37;
+R[2] = v__3519802_37;
 saveCont(co, clofun52, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517697_37, globalRef(co, getBinding(co, packageID, 72)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519801_37, globalRef(co, getBinding(co, packageID, 72)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3519797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3519797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3519797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3519797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3519797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3519797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3519797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3519797_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518572_37= co->res;
-Obj v__3517696_37 = R[1];
-Obj v__3517698_37 = R[2];
-Obj v__3518573_37 = makeCons(co->gc, v__3518572_37, Nil);
-Obj v__3518574_37 = makeCons(co->gc, v__3517696_37, v__3518573_37);
-Obj v__3518575_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518574_37);
-Obj v__3518576_37 = makeCons(co->gc, v__3518575_37, v__3517698_37);
-Obj v__3518577_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518576_37);
+Obj v__3520676_37= co->res;
+Obj v__3519800_37 = R[1];
+Obj v__3519802_37 = R[2];
+Obj v__3520677_37 = makeCons(co->gc, v__3520676_37, Nil);
+Obj v__3520678_37 = makeCons(co->gc, v__3519800_37, v__3520677_37);
+Obj v__3520679_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520678_37);
+Obj v__3520680_37 = makeCons(co->gc, v__3520679_37, v__3519802_37);
+Obj v__3520681_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3520680_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v__3518577_37);
+coraCall1(co, closureRef(R[0], 1), v__3520681_37);
 return;
 }
 }
@@ -6294,15 +6294,15 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518530_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518530_37) {
-Obj v__3518531_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517694_37 = v__3518531_37;
-Obj v__3518532_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517695_37 = v__3518532_37;
-Obj v__3518533_37 = makeCons(co->gc, v__3517694_37, v__3517695_37);
+Obj v__3520634_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520634_37) {
+Obj v__3520635_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519798_37 = v__3520635_37;
+Obj v__3520636_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519799_37 = v__3520636_37;
+Obj v__3520637_37 = makeCons(co->gc, v__3519798_37, v__3519799_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), v__3518533_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), v__3520637_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6317,10 +6317,10 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3518526_37 = makeCons(co->gc, v_x, Nil);
-Obj v__3518527_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518526_37);
-coraReturn(co, v__3518527_37);
+Obj v__3519299_37 = R[1];
+Obj v__3520630_37 = makeCons(co->gc, v__3519299_37, Nil);
+Obj v__3520631_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3520630_37);
+coraReturn(co, v__3520631_37);
 return;
 }
 }
@@ -6330,151 +6330,151 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517477_37 = R[1];
-Obj v__3517478_37 = R[2];
-R[1] = v__3517478_37;
-R[2] = v__3517477_37;
+Obj v__3519262_37 = R[1];
+Obj v__3519263_37 = R[2];
+R[1] = v__3519263_37;
+R[2] = v__3519262_37;
 saveCont(co, clofun49, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517478_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519263_37);
 return;
 }
 case 1:
 {
-Obj v__3518453_37= co->res;
-Obj v__3517478_37 = R[1];
-Obj v__3517676_37 = v__3518453_37;
-Obj v__3518454_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517676_37);
-if (True == v__3518454_37) {
-coraReturn(co, v__3517478_37);
+Obj v__3520557_37= co->res;
+Obj v__3519263_37 = R[1];
+Obj v__3519780_37 = v__3520557_37;
+Obj v__3520558_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3519780_37);
+if (True == v__3520558_37) {
+coraReturn(co, v__3519263_37);
 return;
 } else {
-Obj v__3518455_37 = makeCons(co->gc, v__3517676_37, Nil);
-Obj v__3518456_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, v__3518455_37);
-coraReturn(co, v__3518456_37);
+Obj v__3520559_37 = makeCons(co->gc, v__3519780_37, Nil);
+Obj v__3520560_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, v__3520559_37);
+coraReturn(co, v__3520560_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518522_37= co->res;
-Obj v__3518520_37 = R[1];
-Obj v__3518523_37 = makeCons(co->gc, v__3518520_37, v__3518522_37);
-Obj v__3518524_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3518523_37);
-coraReturn(co, v__3518524_37);
+Obj v__3520626_37= co->res;
+Obj v__3520624_37 = R[1];
+Obj v__3520627_37 = makeCons(co->gc, v__3520624_37, v__3520626_37);
+Obj v__3520628_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3520627_37);
+coraReturn(co, v__3520628_37);
 return;
 }
 case 3:
 {
-Obj v__3518521_37= co->res;
-Obj v__3517686_37 = R[1];
-Obj v__3518520_37 = R[2];
-R[1] = v__3518520_37;
+Obj v__3520625_37= co->res;
+Obj v__3519790_37 = R[1];
+Obj v__3520624_37 = R[2];
+R[1] = v__3520624_37;
 saveCont(co, clofun49, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518521_37, v__3517686_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520625_37, v__3519790_37);
 return;
 }
 case 4:
 {
-Obj v__3518517_37= co->res;
-Obj v__3517684_37 = R[1];
-Obj v__3517477_37 = R[2];
-Obj v__3517686_37 = R[3];
-Obj v__3518518_37 = makeCons(co->gc, v__3518517_37, Nil);
-Obj v__3518519_37 = makeCons(co->gc, v__3517684_37, v__3518518_37);
-Obj v__3518520_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518519_37);
-R[1] = v__3517686_37;
-R[2] = v__3518520_37;
+Obj v__3520621_37= co->res;
+Obj v__3519788_37 = R[1];
+Obj v__3519262_37 = R[2];
+Obj v__3519790_37 = R[3];
+Obj v__3520622_37 = makeCons(co->gc, v__3520621_37, Nil);
+Obj v__3520623_37 = makeCons(co->gc, v__3519788_37, v__3520622_37);
+Obj v__3520624_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520623_37);
+R[1] = v__3519790_37;
+R[2] = v__3520624_37;
 saveCont(co, clofun49, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), v__3517477_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), v__3519262_37);
 return;
 }
 case 5:
 {
-Obj v__3518516_37= co->res;
-Obj v__3517685_37 = R[1];
-Obj v__3517684_37 = R[2];
-Obj v__3517477_37 = R[3];
-Obj v__3517686_37 = v__3518516_37;
-R[1] = v__3517684_37;
-R[2] = v__3517477_37;
-R[3] = v__3517686_37;
+Obj v__3520620_37= co->res;
+Obj v__3519789_37 = R[1];
+Obj v__3519788_37 = R[2];
+Obj v__3519262_37 = R[3];
+Obj v__3519790_37 = v__3520620_37;
+R[1] = v__3519788_37;
+R[2] = v__3519262_37;
+R[3] = v__3519790_37;
 saveCont(co, clofun49, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3517686_37, v__3517685_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3519790_37, v__3519789_37);
 return;
 }
 case 6:
 {
-Obj v__3518451_37= co->res;
-Obj v__3517478_37 = R[1];
-Obj v__3517477_37 = R[2];
-if (True == v__3518451_37) {
-coraReturn(co, v__3517478_37);
+Obj v__3520555_37= co->res;
+Obj v__3519263_37 = R[1];
+Obj v__3519262_37 = R[2];
+if (True == v__3520555_37) {
+coraReturn(co, v__3519263_37);
 return;
 } else {
-Obj v__3518452_37 = primIsSymbol(v__3517478_37);
-if (True == v__3518452_37) {
-R[1] = v__3517478_37;
+Obj v__3520556_37 = primIsSymbol(v__3519263_37);
+if (True == v__3520556_37) {
+R[1] = v__3519263_37;
 saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3517478_37, v__3517477_37);
-return;
-} else {
-Obj v__3517677_37 = makeNative(co->gc, 4, clofun48, 0, 2, v__3517478_37, v__3517477_37);
-Obj v__3518496_37 = PRIM_ISCONS(v__3517478_37);
-if (True == v__3518496_37) {
-Obj v__3518497_37 = PRIM_CAR(v__3517478_37);
-Obj v__3518498_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518497_37);
-if (True == v__3518498_37) {
-Obj v__3518499_37 = PRIM_CDR(v__3517478_37);
-Obj v__3518500_37 = PRIM_ISCONS(v__3518499_37);
-if (True == v__3518500_37) {
-Obj v__3518501_37 = PRIM_CDR(v__3517478_37);
-Obj v__3518502_37 = PRIM_CAR(v__3518501_37);
-Obj v__3517684_37 = v__3518502_37;
-Obj v__3518503_37 = PRIM_CDR(v__3517478_37);
-Obj v__3518504_37 = PRIM_CDR(v__3518503_37);
-Obj v__3518505_37 = PRIM_ISCONS(v__3518504_37);
-if (True == v__3518505_37) {
-Obj v__3518506_37 = PRIM_CDR(v__3517478_37);
-Obj v__3518507_37 = PRIM_CDR(v__3518506_37);
-Obj v__3518508_37 = PRIM_CAR(v__3518507_37);
-Obj v__3517685_37 = v__3518508_37;
-Obj v__3518509_37 = PRIM_CDR(v__3517478_37);
-Obj v__3518510_37 = PRIM_CDR(v__3518509_37);
-Obj v__3518511_37 = PRIM_CDR(v__3518510_37);
-Obj v__3518512_37 = PRIM_EQ(Nil, v__3518511_37);
-if (True == v__3518512_37) {
-Obj v__3518513_37 = makeCons(co->gc, v__3517685_37, Nil);
-Obj v__3518514_37 = makeCons(co->gc, v__3517684_37, v__3518513_37);
-Obj v__3518515_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518514_37);
-R[1] = v__3517685_37;
-R[2] = v__3517684_37;
-R[3] = v__3517477_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3519263_37, v__3519262_37);
+return;
+} else {
+Obj v__3519781_37 = makeNative(co->gc, 4, clofun48, 0, 2, v__3519263_37, v__3519262_37);
+Obj v__3520600_37 = PRIM_ISCONS(v__3519263_37);
+if (True == v__3520600_37) {
+Obj v__3520601_37 = PRIM_CAR(v__3519263_37);
+Obj v__3520602_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520601_37);
+if (True == v__3520602_37) {
+Obj v__3520603_37 = PRIM_CDR(v__3519263_37);
+Obj v__3520604_37 = PRIM_ISCONS(v__3520603_37);
+if (True == v__3520604_37) {
+Obj v__3520605_37 = PRIM_CDR(v__3519263_37);
+Obj v__3520606_37 = PRIM_CAR(v__3520605_37);
+Obj v__3519788_37 = v__3520606_37;
+Obj v__3520607_37 = PRIM_CDR(v__3519263_37);
+Obj v__3520608_37 = PRIM_CDR(v__3520607_37);
+Obj v__3520609_37 = PRIM_ISCONS(v__3520608_37);
+if (True == v__3520609_37) {
+Obj v__3520610_37 = PRIM_CDR(v__3519263_37);
+Obj v__3520611_37 = PRIM_CDR(v__3520610_37);
+Obj v__3520612_37 = PRIM_CAR(v__3520611_37);
+Obj v__3519789_37 = v__3520612_37;
+Obj v__3520613_37 = PRIM_CDR(v__3519263_37);
+Obj v__3520614_37 = PRIM_CDR(v__3520613_37);
+Obj v__3520615_37 = PRIM_CDR(v__3520614_37);
+Obj v__3520616_37 = PRIM_EQ(Nil, v__3520615_37);
+if (True == v__3520616_37) {
+Obj v__3520617_37 = makeCons(co->gc, v__3519789_37, Nil);
+Obj v__3520618_37 = makeCons(co->gc, v__3519788_37, v__3520617_37);
+Obj v__3520619_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520618_37);
+R[1] = v__3519789_37;
+R[2] = v__3519788_37;
+R[3] = v__3519262_37;
 saveCont(co, clofun49, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3518515_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3520619_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517677_37);
+coraCall0(co, v__3519781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517677_37);
+coraCall0(co, v__3519781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517677_37);
+coraCall0(co, v__3519781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517677_37);
+coraCall0(co, v__3519781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517677_37);
+coraCall0(co, v__3519781_37);
 return;
 }
 }
@@ -6487,112 +6487,112 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517678_37 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518462_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518462_37) {
-Obj v__3518463_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518464_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3518463_37);
-if (True == v__3518464_37) {
-Obj v__3518465_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518466_37 = PRIM_ISCONS(v__3518465_37);
-if (True == v__3518466_37) {
-Obj v__3518467_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518468_37 = PRIM_CAR(v__3518467_37);
-Obj v__3517681_37 = v__3518468_37;
-Obj v__3518469_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518470_37 = PRIM_CDR(v__3518469_37);
-Obj v__3518471_37 = PRIM_ISCONS(v__3518470_37);
-if (True == v__3518471_37) {
-Obj v__3518472_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518473_37 = PRIM_CDR(v__3518472_37);
-Obj v__3518474_37 = PRIM_CAR(v__3518473_37);
-Obj v__3517682_37 = v__3518474_37;
-Obj v__3518475_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518476_37 = PRIM_CDR(v__3518475_37);
-Obj v__3518477_37 = PRIM_CDR(v__3518476_37);
-Obj v__3518478_37 = PRIM_ISCONS(v__3518477_37);
-if (True == v__3518478_37) {
-Obj v__3518479_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518480_37 = PRIM_CDR(v__3518479_37);
-Obj v__3518481_37 = PRIM_CDR(v__3518480_37);
-Obj v__3518482_37 = PRIM_CAR(v__3518481_37);
-Obj v__3517683_37 = v__3518482_37;
-Obj v__3518483_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518484_37 = PRIM_CDR(v__3518483_37);
-Obj v__3518485_37 = PRIM_CDR(v__3518484_37);
-Obj v__3518486_37 = PRIM_CDR(v__3518485_37);
-Obj v__3518487_37 = PRIM_EQ(Nil, v__3518486_37);
-if (True == v__3518487_37) {
-R[1] = v__3517683_37;
-R[2] = v__3517681_37;
+Obj v__3519782_37 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520566_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520566_37) {
+Obj v__3520567_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520568_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520567_37);
+if (True == v__3520568_37) {
+Obj v__3520569_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520570_37 = PRIM_ISCONS(v__3520569_37);
+if (True == v__3520570_37) {
+Obj v__3520571_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520572_37 = PRIM_CAR(v__3520571_37);
+Obj v__3519785_37 = v__3520572_37;
+Obj v__3520573_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520574_37 = PRIM_CDR(v__3520573_37);
+Obj v__3520575_37 = PRIM_ISCONS(v__3520574_37);
+if (True == v__3520575_37) {
+Obj v__3520576_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520577_37 = PRIM_CDR(v__3520576_37);
+Obj v__3520578_37 = PRIM_CAR(v__3520577_37);
+Obj v__3519786_37 = v__3520578_37;
+Obj v__3520579_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520580_37 = PRIM_CDR(v__3520579_37);
+Obj v__3520581_37 = PRIM_CDR(v__3520580_37);
+Obj v__3520582_37 = PRIM_ISCONS(v__3520581_37);
+if (True == v__3520582_37) {
+Obj v__3520583_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520584_37 = PRIM_CDR(v__3520583_37);
+Obj v__3520585_37 = PRIM_CDR(v__3520584_37);
+Obj v__3520586_37 = PRIM_CAR(v__3520585_37);
+Obj v__3519787_37 = v__3520586_37;
+Obj v__3520587_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520588_37 = PRIM_CDR(v__3520587_37);
+Obj v__3520589_37 = PRIM_CDR(v__3520588_37);
+Obj v__3520590_37 = PRIM_CDR(v__3520589_37);
+Obj v__3520591_37 = PRIM_EQ(Nil, v__3520590_37);
+if (True == v__3520591_37) {
+R[1] = v__3519787_37;
+R[2] = v__3519785_37;
 saveCont(co, clofun48, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), v__3517682_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), v__3519786_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517678_37);
+coraCall0(co, v__3519782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517678_37);
+coraCall0(co, v__3519782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517678_37);
+coraCall0(co, v__3519782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517678_37);
+coraCall0(co, v__3519782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517678_37);
+coraCall0(co, v__3519782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517678_37);
+coraCall0(co, v__3519782_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518491_37= co->res;
-Obj v__3518488_37 = R[1];
-Obj v__3517681_37 = R[2];
-Obj v__3518492_37 = makeCons(co->gc, v__3518491_37, Nil);
-Obj v__3518493_37 = makeCons(co->gc, v__3518488_37, v__3518492_37);
-Obj v__3518494_37 = makeCons(co->gc, v__3517681_37, v__3518493_37);
-Obj v__3518495_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518494_37);
-coraReturn(co, v__3518495_37);
+Obj v__3520595_37= co->res;
+Obj v__3520592_37 = R[1];
+Obj v__3519785_37 = R[2];
+Obj v__3520596_37 = makeCons(co->gc, v__3520595_37, Nil);
+Obj v__3520597_37 = makeCons(co->gc, v__3520592_37, v__3520596_37);
+Obj v__3520598_37 = makeCons(co->gc, v__3519785_37, v__3520597_37);
+Obj v__3520599_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520598_37);
+coraReturn(co, v__3520599_37);
 return;
 }
 case 2:
 {
-Obj v__3518490_37= co->res;
-Obj v__3517683_37 = R[1];
-Obj v__3518488_37 = R[2];
-Obj v__3517681_37 = R[3];
-R[1] = v__3518488_37;
-R[2] = v__3517681_37;
+Obj v__3520594_37= co->res;
+Obj v__3519787_37 = R[1];
+Obj v__3520592_37 = R[2];
+Obj v__3519785_37 = R[3];
+R[1] = v__3520592_37;
+R[2] = v__3519785_37;
 saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3518490_37, v__3517683_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3520594_37, v__3519787_37);
 return;
 }
 case 3:
 {
-Obj v__3518488_37= co->res;
-Obj v__3517683_37 = R[1];
-Obj v__3517681_37 = R[2];
-R[1] = v__3517683_37;
-R[2] = v__3518488_37;
-R[3] = v__3517681_37;
+Obj v__3520592_37= co->res;
+Obj v__3519787_37 = R[1];
+Obj v__3519785_37 = R[2];
+R[1] = v__3519787_37;
+R[2] = v__3520592_37;
+R[3] = v__3519785_37;
 saveCont(co, clofun48, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun47, 1, 1, v__3517681_37), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun47, 1, 1, v__3519785_37), closureRef(R[0], 1));
 return;
 }
 }
@@ -6602,13 +6602,13 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3518489_37 = PRIM_EQ(v_x, closureRef(R[0], 0));
-if (True == v__3518489_37) {
+Obj v__3519294_37 = R[1];
+Obj v__3520593_37 = PRIM_EQ(v__3519294_37, closureRef(R[0], 0));
+if (True == v__3520593_37) {
 coraReturn(co, Nil);
 return;
 } else {
-coraReturn(co, v_x);
+coraReturn(co, v__3519294_37);
 return;
 }
 }
@@ -6619,14 +6619,14 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518457_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518457_37) {
-Obj v__3518458_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517679_37 = v__3518458_37;
-Obj v__3518459_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517680_37 = v__3518459_37;
-R[1] = v__3517679_37;
-R[2] = v__3517680_37;
+Obj v__3520561_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520561_37) {
+Obj v__3520562_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519783_37 = v__3520562_37;
+Obj v__3520563_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519784_37 = v__3520563_37;
+R[1] = v__3519783_37;
+R[2] = v__3519784_37;
 saveCont(co, clofun46, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1));
 return;
@@ -6638,12 +6638,12 @@ return;
 }
 case 1:
 {
-Obj v__3518460_37= co->res;
-Obj v__3517679_37 = R[1];
-Obj v__3517680_37 = R[2];
-Obj v__3518461_37 = makeCons(co->gc, v__3517679_37, v__3517680_37);
+Obj v__3520564_37= co->res;
+Obj v__3519783_37 = R[1];
+Obj v__3519784_37 = R[2];
+Obj v__3520565_37 = makeCons(co->gc, v__3519783_37, v__3519784_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518460_37, v__3518461_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520564_37, v__3520565_37);
 return;
 }
 }
@@ -6653,86 +6653,86 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517464_37 = R[1];
-R[1] = v__3517464_37;
+Obj v__3519174_37 = R[1];
+R[1] = v__3519174_37;
 saveCont(co, clofun45, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3517464_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519174_37);
 return;
 }
 case 1:
 {
-Obj v__3518449_37= co->res;
-Obj v__3517674_37 = R[1];
+Obj v__3520553_37= co->res;
+Obj v__3519778_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518449_37, v__3517674_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520553_37, v__3519778_37);
 return;
 }
 case 2:
 {
-Obj v__3518276_37= co->res;
-Obj v__3517464_37 = R[1];
-if (True == v__3518276_37) {
+Obj v__3520380_37= co->res;
+Obj v__3519174_37 = R[1];
+if (True == v__3520380_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518277_37 = primIsSymbol(v__3517464_37);
-if (True == v__3518277_37) {
-Obj v__3518278_37 = makeCons(co->gc, v__3517464_37, Nil);
-coraReturn(co, v__3518278_37);
-return;
-} else {
-Obj v__3517647_37 = makeNative(co->gc, 1, clofun44, 0, 1, v__3517464_37);
-Obj v__3518432_37 = PRIM_ISCONS(v__3517464_37);
-if (True == v__3518432_37) {
-Obj v__3518433_37 = PRIM_CAR(v__3517464_37);
-Obj v__3518434_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518433_37);
-if (True == v__3518434_37) {
-Obj v__3518435_37 = PRIM_CDR(v__3517464_37);
-Obj v__3518436_37 = PRIM_ISCONS(v__3518435_37);
-if (True == v__3518436_37) {
-Obj v__3518437_37 = PRIM_CDR(v__3517464_37);
-Obj v__3518438_37 = PRIM_CAR(v__3518437_37);
-Obj v__3517674_37 = v__3518438_37;
-Obj v__3518439_37 = PRIM_CDR(v__3517464_37);
-Obj v__3518440_37 = PRIM_CDR(v__3518439_37);
-Obj v__3518441_37 = PRIM_ISCONS(v__3518440_37);
-if (True == v__3518441_37) {
-Obj v__3518442_37 = PRIM_CDR(v__3517464_37);
-Obj v__3518443_37 = PRIM_CDR(v__3518442_37);
-Obj v__3518444_37 = PRIM_CAR(v__3518443_37);
-Obj v__3517675_37 = v__3518444_37;
-Obj v__3518445_37 = PRIM_CDR(v__3517464_37);
-Obj v__3518446_37 = PRIM_CDR(v__3518445_37);
-Obj v__3518447_37 = PRIM_CDR(v__3518446_37);
-Obj v__3518448_37 = PRIM_EQ(Nil, v__3518447_37);
-if (True == v__3518448_37) {
-R[1] = v__3517674_37;
+Obj v__3520381_37 = primIsSymbol(v__3519174_37);
+if (True == v__3520381_37) {
+Obj v__3520382_37 = makeCons(co->gc, v__3519174_37, Nil);
+coraReturn(co, v__3520382_37);
+return;
+} else {
+Obj v__3519751_37 = makeNative(co->gc, 1, clofun44, 0, 1, v__3519174_37);
+Obj v__3520536_37 = PRIM_ISCONS(v__3519174_37);
+if (True == v__3520536_37) {
+Obj v__3520537_37 = PRIM_CAR(v__3519174_37);
+Obj v__3520538_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520537_37);
+if (True == v__3520538_37) {
+Obj v__3520539_37 = PRIM_CDR(v__3519174_37);
+Obj v__3520540_37 = PRIM_ISCONS(v__3520539_37);
+if (True == v__3520540_37) {
+Obj v__3520541_37 = PRIM_CDR(v__3519174_37);
+Obj v__3520542_37 = PRIM_CAR(v__3520541_37);
+Obj v__3519778_37 = v__3520542_37;
+Obj v__3520543_37 = PRIM_CDR(v__3519174_37);
+Obj v__3520544_37 = PRIM_CDR(v__3520543_37);
+Obj v__3520545_37 = PRIM_ISCONS(v__3520544_37);
+if (True == v__3520545_37) {
+Obj v__3520546_37 = PRIM_CDR(v__3519174_37);
+Obj v__3520547_37 = PRIM_CDR(v__3520546_37);
+Obj v__3520548_37 = PRIM_CAR(v__3520547_37);
+Obj v__3519779_37 = v__3520548_37;
+Obj v__3520549_37 = PRIM_CDR(v__3519174_37);
+Obj v__3520550_37 = PRIM_CDR(v__3520549_37);
+Obj v__3520551_37 = PRIM_CDR(v__3520550_37);
+Obj v__3520552_37 = PRIM_EQ(Nil, v__3520551_37);
+if (True == v__3520552_37) {
+R[1] = v__3519778_37;
 saveCont(co, clofun45, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517675_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519779_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3519751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3519751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3519751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3519751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3519751_37);
 return;
 }
 }
@@ -6745,84 +6745,84 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517648_37 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
-Obj v__3518402_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518402_37) {
-Obj v__3518403_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518404_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518403_37);
-if (True == v__3518404_37) {
-Obj v__3518405_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518406_37 = PRIM_ISCONS(v__3518405_37);
-if (True == v__3518406_37) {
-Obj v__3518407_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518408_37 = PRIM_CAR(v__3518407_37);
-Obj v__3517671_37 = v__3518408_37;
-Obj v__3518409_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518410_37 = PRIM_CDR(v__3518409_37);
-Obj v__3518411_37 = PRIM_ISCONS(v__3518410_37);
-if (True == v__3518411_37) {
-Obj v__3518412_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518413_37 = PRIM_CDR(v__3518412_37);
-Obj v__3518414_37 = PRIM_CAR(v__3518413_37);
-Obj v__3517672_37 = v__3518414_37;
-Obj v__3518415_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518416_37 = PRIM_CDR(v__3518415_37);
-Obj v__3518417_37 = PRIM_CDR(v__3518416_37);
-Obj v__3518418_37 = PRIM_ISCONS(v__3518417_37);
-if (True == v__3518418_37) {
-Obj v__3518419_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518420_37 = PRIM_CDR(v__3518419_37);
-Obj v__3518421_37 = PRIM_CDR(v__3518420_37);
-Obj v__3518422_37 = PRIM_CAR(v__3518421_37);
-Obj v__3517673_37 = v__3518422_37;
-Obj v__3518423_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518424_37 = PRIM_CDR(v__3518423_37);
-Obj v__3518425_37 = PRIM_CDR(v__3518424_37);
-Obj v__3518426_37 = PRIM_CDR(v__3518425_37);
-Obj v__3518427_37 = PRIM_EQ(Nil, v__3518426_37);
-if (True == v__3518427_37) {
-Obj v__3518428_37 = makeCons(co->gc, v__3517673_37, Nil);
-Obj v__3518429_37 = makeCons(co->gc, v__3517672_37, v__3518428_37);
-Obj v__3518430_37 = makeCons(co->gc, v__3517671_37, v__3518429_37);
+Obj v__3519752_37 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj v__3520506_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520506_37) {
+Obj v__3520507_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520508_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520507_37);
+if (True == v__3520508_37) {
+Obj v__3520509_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520510_37 = PRIM_ISCONS(v__3520509_37);
+if (True == v__3520510_37) {
+Obj v__3520511_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520512_37 = PRIM_CAR(v__3520511_37);
+Obj v__3519775_37 = v__3520512_37;
+Obj v__3520513_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520514_37 = PRIM_CDR(v__3520513_37);
+Obj v__3520515_37 = PRIM_ISCONS(v__3520514_37);
+if (True == v__3520515_37) {
+Obj v__3520516_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520517_37 = PRIM_CDR(v__3520516_37);
+Obj v__3520518_37 = PRIM_CAR(v__3520517_37);
+Obj v__3519776_37 = v__3520518_37;
+Obj v__3520519_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520520_37 = PRIM_CDR(v__3520519_37);
+Obj v__3520521_37 = PRIM_CDR(v__3520520_37);
+Obj v__3520522_37 = PRIM_ISCONS(v__3520521_37);
+if (True == v__3520522_37) {
+Obj v__3520523_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520524_37 = PRIM_CDR(v__3520523_37);
+Obj v__3520525_37 = PRIM_CDR(v__3520524_37);
+Obj v__3520526_37 = PRIM_CAR(v__3520525_37);
+Obj v__3519777_37 = v__3520526_37;
+Obj v__3520527_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520528_37 = PRIM_CDR(v__3520527_37);
+Obj v__3520529_37 = PRIM_CDR(v__3520528_37);
+Obj v__3520530_37 = PRIM_CDR(v__3520529_37);
+Obj v__3520531_37 = PRIM_EQ(Nil, v__3520530_37);
+if (True == v__3520531_37) {
+Obj v__3520532_37 = makeCons(co->gc, v__3519777_37, Nil);
+Obj v__3520533_37 = makeCons(co->gc, v__3519776_37, v__3520532_37);
+Obj v__3520534_37 = makeCons(co->gc, v__3519775_37, v__3520533_37);
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3518430_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520534_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3519752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3519752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3519752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3519752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3519752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3519752_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518431_37= co->res;
+Obj v__3520535_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518431_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520535_37);
 return;
 }
 }
@@ -6832,67 +6832,67 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517649_37 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
-Obj v__3518382_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518382_37) {
-Obj v__3518383_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518384_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518383_37);
-if (True == v__3518384_37) {
-Obj v__3518385_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518386_37 = PRIM_ISCONS(v__3518385_37);
-if (True == v__3518386_37) {
-Obj v__3518387_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518388_37 = PRIM_CAR(v__3518387_37);
-Obj v__3517669_37 = v__3518388_37;
-Obj v__3518389_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518390_37 = PRIM_CDR(v__3518389_37);
-Obj v__3518391_37 = PRIM_ISCONS(v__3518390_37);
-if (True == v__3518391_37) {
-Obj v__3518392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518393_37 = PRIM_CDR(v__3518392_37);
-Obj v__3518394_37 = PRIM_CAR(v__3518393_37);
-Obj v__3517670_37 = v__3518394_37;
-Obj v__3518395_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518396_37 = PRIM_CDR(v__3518395_37);
-Obj v__3518397_37 = PRIM_CDR(v__3518396_37);
-Obj v__3518398_37 = PRIM_EQ(Nil, v__3518397_37);
-if (True == v__3518398_37) {
-Obj v__3518399_37 = makeCons(co->gc, v__3517670_37, Nil);
-Obj v__3518400_37 = makeCons(co->gc, v__3517669_37, v__3518399_37);
+Obj v__3519753_37 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
+Obj v__3520486_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520486_37) {
+Obj v__3520487_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520488_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520487_37);
+if (True == v__3520488_37) {
+Obj v__3520489_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520490_37 = PRIM_ISCONS(v__3520489_37);
+if (True == v__3520490_37) {
+Obj v__3520491_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520492_37 = PRIM_CAR(v__3520491_37);
+Obj v__3519773_37 = v__3520492_37;
+Obj v__3520493_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520494_37 = PRIM_CDR(v__3520493_37);
+Obj v__3520495_37 = PRIM_ISCONS(v__3520494_37);
+if (True == v__3520495_37) {
+Obj v__3520496_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520497_37 = PRIM_CDR(v__3520496_37);
+Obj v__3520498_37 = PRIM_CAR(v__3520497_37);
+Obj v__3519774_37 = v__3520498_37;
+Obj v__3520499_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520500_37 = PRIM_CDR(v__3520499_37);
+Obj v__3520501_37 = PRIM_CDR(v__3520500_37);
+Obj v__3520502_37 = PRIM_EQ(Nil, v__3520501_37);
+if (True == v__3520502_37) {
+Obj v__3520503_37 = makeCons(co->gc, v__3519774_37, Nil);
+Obj v__3520504_37 = makeCons(co->gc, v__3519773_37, v__3520503_37);
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3518400_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520504_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517649_37);
+coraCall0(co, v__3519753_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517649_37);
+coraCall0(co, v__3519753_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517649_37);
+coraCall0(co, v__3519753_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517649_37);
+coraCall0(co, v__3519753_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517649_37);
+coraCall0(co, v__3519753_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518401_37= co->res;
+Obj v__3520505_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518401_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520505_37);
 return;
 }
 }
@@ -6902,106 +6902,106 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517650_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
-Obj v__3518352_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518352_37) {
-Obj v__3518353_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518354_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3518353_37);
-if (True == v__3518354_37) {
-Obj v__3518355_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518356_37 = PRIM_ISCONS(v__3518355_37);
-if (True == v__3518356_37) {
-Obj v__3518357_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518358_37 = PRIM_CAR(v__3518357_37);
-Obj v__3517666_37 = v__3518358_37;
-Obj v__3518359_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518360_37 = PRIM_CDR(v__3518359_37);
-Obj v__3518361_37 = PRIM_ISCONS(v__3518360_37);
-if (True == v__3518361_37) {
-Obj v__3518362_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518363_37 = PRIM_CDR(v__3518362_37);
-Obj v__3518364_37 = PRIM_CAR(v__3518363_37);
-Obj v__3517667_37 = v__3518364_37;
-Obj v__3518365_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518366_37 = PRIM_CDR(v__3518365_37);
-Obj v__3518367_37 = PRIM_CDR(v__3518366_37);
-Obj v__3518368_37 = PRIM_ISCONS(v__3518367_37);
-if (True == v__3518368_37) {
-Obj v__3518369_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518370_37 = PRIM_CDR(v__3518369_37);
-Obj v__3518371_37 = PRIM_CDR(v__3518370_37);
-Obj v__3518372_37 = PRIM_CAR(v__3518371_37);
-Obj v__3517668_37 = v__3518372_37;
-Obj v__3518373_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518374_37 = PRIM_CDR(v__3518373_37);
-Obj v__3518375_37 = PRIM_CDR(v__3518374_37);
-Obj v__3518376_37 = PRIM_CDR(v__3518375_37);
-Obj v__3518377_37 = PRIM_EQ(Nil, v__3518376_37);
-if (True == v__3518377_37) {
-R[1] = v__3517668_37;
-R[2] = v__3517666_37;
+Obj v__3519754_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v__3520456_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520456_37) {
+Obj v__3520457_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520458_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520457_37);
+if (True == v__3520458_37) {
+Obj v__3520459_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520460_37 = PRIM_ISCONS(v__3520459_37);
+if (True == v__3520460_37) {
+Obj v__3520461_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520462_37 = PRIM_CAR(v__3520461_37);
+Obj v__3519770_37 = v__3520462_37;
+Obj v__3520463_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520464_37 = PRIM_CDR(v__3520463_37);
+Obj v__3520465_37 = PRIM_ISCONS(v__3520464_37);
+if (True == v__3520465_37) {
+Obj v__3520466_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520467_37 = PRIM_CDR(v__3520466_37);
+Obj v__3520468_37 = PRIM_CAR(v__3520467_37);
+Obj v__3519771_37 = v__3520468_37;
+Obj v__3520469_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520470_37 = PRIM_CDR(v__3520469_37);
+Obj v__3520471_37 = PRIM_CDR(v__3520470_37);
+Obj v__3520472_37 = PRIM_ISCONS(v__3520471_37);
+if (True == v__3520472_37) {
+Obj v__3520473_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520474_37 = PRIM_CDR(v__3520473_37);
+Obj v__3520475_37 = PRIM_CDR(v__3520474_37);
+Obj v__3520476_37 = PRIM_CAR(v__3520475_37);
+Obj v__3519772_37 = v__3520476_37;
+Obj v__3520477_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520478_37 = PRIM_CDR(v__3520477_37);
+Obj v__3520479_37 = PRIM_CDR(v__3520478_37);
+Obj v__3520480_37 = PRIM_CDR(v__3520479_37);
+Obj v__3520481_37 = PRIM_EQ(Nil, v__3520480_37);
+if (True == v__3520481_37) {
+R[1] = v__3519772_37;
+R[2] = v__3519770_37;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519771_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517650_37);
+coraCall0(co, v__3519754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517650_37);
+coraCall0(co, v__3519754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517650_37);
+coraCall0(co, v__3519754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517650_37);
+coraCall0(co, v__3519754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517650_37);
+coraCall0(co, v__3519754_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517650_37);
+coraCall0(co, v__3519754_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518381_37= co->res;
-Obj v__3518378_37 = R[1];
+Obj v__3520485_37= co->res;
+Obj v__3520482_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3518378_37, v__3518381_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3520482_37, v__3520485_37);
 return;
 }
 case 2:
 {
-Obj v__3518379_37= co->res;
-Obj v__3517666_37 = R[1];
-Obj v__3518378_37 = R[2];
-Obj v__3518380_37 = makeCons(co->gc, v__3517666_37, Nil);
-R[1] = v__3518378_37;
+Obj v__3520483_37= co->res;
+Obj v__3519770_37 = R[1];
+Obj v__3520482_37 = R[2];
+Obj v__3520484_37 = makeCons(co->gc, v__3519770_37, Nil);
+R[1] = v__3520482_37;
 saveCont(co, clofun42, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518379_37, v__3518380_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520483_37, v__3520484_37);
 return;
 }
 case 3:
 {
-Obj v__3518378_37= co->res;
-Obj v__3517668_37 = R[1];
-Obj v__3517666_37 = R[2];
-R[1] = v__3517666_37;
-R[2] = v__3518378_37;
+Obj v__3520482_37= co->res;
+Obj v__3519772_37 = R[1];
+Obj v__3519770_37 = R[2];
+R[1] = v__3519770_37;
+R[2] = v__3520482_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517668_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519772_37);
 return;
 }
 }
@@ -7011,38 +7011,38 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517651_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v__3518342_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518342_37) {
-Obj v__3518343_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518344_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518343_37);
-if (True == v__3518344_37) {
-Obj v__3518345_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518346_37 = PRIM_ISCONS(v__3518345_37);
-if (True == v__3518346_37) {
-Obj v__3518347_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518348_37 = PRIM_CAR(v__3518347_37);
-Obj v__3517664_37 = v__3518348_37;
-Obj v__3518349_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518350_37 = PRIM_CDR(v__3518349_37);
-Obj v__3517665_37 = v__3518350_37;
-Obj v__3518351_37 = makeCons(co->gc, v__3517664_37, v__3517665_37);
+Obj v__3519755_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3520446_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520446_37) {
+Obj v__3520447_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520448_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520447_37);
+if (True == v__3520448_37) {
+Obj v__3520449_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520450_37 = PRIM_ISCONS(v__3520449_37);
+if (True == v__3520450_37) {
+Obj v__3520451_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520452_37 = PRIM_CAR(v__3520451_37);
+Obj v__3519768_37 = v__3520452_37;
+Obj v__3520453_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520454_37 = PRIM_CDR(v__3520453_37);
+Obj v__3519769_37 = v__3520454_37;
+Obj v__3520455_37 = makeCons(co->gc, v__3519768_37, v__3519769_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3518351_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3520455_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517651_37);
+coraCall0(co, v__3519755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517651_37);
+coraCall0(co, v__3519755_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517651_37);
+coraCall0(co, v__3519755_37);
 return;
 }
 }
@@ -7053,43 +7053,43 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517652_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v__3518332_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518332_37) {
-Obj v__3518333_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518334_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518333_37);
-if (True == v__3518334_37) {
-Obj v__3518335_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518336_37 = PRIM_ISCONS(v__3518335_37);
-if (True == v__3518336_37) {
-Obj v__3518337_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518338_37 = PRIM_CAR(v__3518337_37);
-Obj v__3517663_37 = v__3518338_37;
-Obj v__3518339_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518340_37 = PRIM_CDR(v__3518339_37);
-Obj v__3518341_37 = PRIM_EQ(Nil, v__3518340_37);
-if (True == v__3518341_37) {
+Obj v__3519756_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3520436_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520436_37) {
+Obj v__3520437_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520438_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3520437_37);
+if (True == v__3520438_37) {
+Obj v__3520439_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520440_37 = PRIM_ISCONS(v__3520439_37);
+if (True == v__3520440_37) {
+Obj v__3520441_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520442_37 = PRIM_CAR(v__3520441_37);
+Obj v__3519767_37 = v__3520442_37;
+Obj v__3520443_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520444_37 = PRIM_CDR(v__3520443_37);
+Obj v__3520445_37 = PRIM_EQ(Nil, v__3520444_37);
+if (True == v__3520445_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517663_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519767_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517652_37);
+coraCall0(co, v__3519756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517652_37);
+coraCall0(co, v__3519756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517652_37);
+coraCall0(co, v__3519756_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517652_37);
+coraCall0(co, v__3519756_37);
 return;
 }
 }
@@ -7100,67 +7100,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517653_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v__3518312_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518312_37) {
-Obj v__3518313_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518314_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518313_37);
-if (True == v__3518314_37) {
-Obj v__3518315_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518316_37 = PRIM_ISCONS(v__3518315_37);
-if (True == v__3518316_37) {
-Obj v__3518317_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518318_37 = PRIM_CAR(v__3518317_37);
-Obj v__3517661_37 = v__3518318_37;
-Obj v__3518319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518320_37 = PRIM_CDR(v__3518319_37);
-Obj v__3518321_37 = PRIM_ISCONS(v__3518320_37);
-if (True == v__3518321_37) {
-Obj v__3518322_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518323_37 = PRIM_CDR(v__3518322_37);
-Obj v__3518324_37 = PRIM_CAR(v__3518323_37);
-Obj v__3517662_37 = v__3518324_37;
-Obj v__3518325_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518326_37 = PRIM_CDR(v__3518325_37);
-Obj v__3518327_37 = PRIM_CDR(v__3518326_37);
-Obj v__3518328_37 = PRIM_EQ(Nil, v__3518327_37);
-if (True == v__3518328_37) {
-Obj v__3518329_37 = makeCons(co->gc, v__3517662_37, Nil);
-Obj v__3518330_37 = makeCons(co->gc, v__3517661_37, v__3518329_37);
+Obj v__3519757_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3520416_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520416_37) {
+Obj v__3520417_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520418_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520417_37);
+if (True == v__3520418_37) {
+Obj v__3520419_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520420_37 = PRIM_ISCONS(v__3520419_37);
+if (True == v__3520420_37) {
+Obj v__3520421_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520422_37 = PRIM_CAR(v__3520421_37);
+Obj v__3519765_37 = v__3520422_37;
+Obj v__3520423_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520424_37 = PRIM_CDR(v__3520423_37);
+Obj v__3520425_37 = PRIM_ISCONS(v__3520424_37);
+if (True == v__3520425_37) {
+Obj v__3520426_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520427_37 = PRIM_CDR(v__3520426_37);
+Obj v__3520428_37 = PRIM_CAR(v__3520427_37);
+Obj v__3519766_37 = v__3520428_37;
+Obj v__3520429_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520430_37 = PRIM_CDR(v__3520429_37);
+Obj v__3520431_37 = PRIM_CDR(v__3520430_37);
+Obj v__3520432_37 = PRIM_EQ(Nil, v__3520431_37);
+if (True == v__3520432_37) {
+Obj v__3520433_37 = makeCons(co->gc, v__3519766_37, Nil);
+Obj v__3520434_37 = makeCons(co->gc, v__3519765_37, v__3520433_37);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3518330_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520434_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517653_37);
+coraCall0(co, v__3519757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517653_37);
+coraCall0(co, v__3519757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517653_37);
+coraCall0(co, v__3519757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517653_37);
+coraCall0(co, v__3519757_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517653_37);
+coraCall0(co, v__3519757_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518331_37= co->res;
+Obj v__3520435_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518331_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520435_37);
 return;
 }
 }
@@ -7170,43 +7170,43 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517654_37 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v__3518302_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518302_37) {
-Obj v__3518303_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518304_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3518303_37);
-if (True == v__3518304_37) {
-Obj v__3518305_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518306_37 = PRIM_ISCONS(v__3518305_37);
-if (True == v__3518306_37) {
-Obj v__3518307_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518308_37 = PRIM_CAR(v__3518307_37);
-Obj v__3517660_37 = v__3518308_37;
-Obj v__3518309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518310_37 = PRIM_CDR(v__3518309_37);
-Obj v__3518311_37 = PRIM_EQ(Nil, v__3518310_37);
-if (True == v__3518311_37) {
+Obj v__3519758_37 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3520406_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520406_37) {
+Obj v__3520407_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520408_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3520407_37);
+if (True == v__3520408_37) {
+Obj v__3520409_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520410_37 = PRIM_ISCONS(v__3520409_37);
+if (True == v__3520410_37) {
+Obj v__3520411_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520412_37 = PRIM_CAR(v__3520411_37);
+Obj v__3519764_37 = v__3520412_37;
+Obj v__3520413_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520414_37 = PRIM_CDR(v__3520413_37);
+Obj v__3520415_37 = PRIM_EQ(Nil, v__3520414_37);
+if (True == v__3520415_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517660_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519764_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517654_37);
+coraCall0(co, v__3519758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517654_37);
+coraCall0(co, v__3519758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517654_37);
+coraCall0(co, v__3519758_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517654_37);
+coraCall0(co, v__3519758_37);
 return;
 }
 }
@@ -7217,67 +7217,67 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517655_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v__3518284_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518284_37) {
-Obj v__3518285_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518286_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518285_37);
-if (True == v__3518286_37) {
-Obj v__3518287_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518288_37 = PRIM_ISCONS(v__3518287_37);
-if (True == v__3518288_37) {
-Obj v__3518289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518290_37 = PRIM_CAR(v__3518289_37);
-Obj v__3517658_37 = v__3518290_37;
-Obj v__3518291_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518292_37 = PRIM_CDR(v__3518291_37);
-Obj v__3518293_37 = PRIM_ISCONS(v__3518292_37);
-if (True == v__3518293_37) {
-Obj v__3518294_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518295_37 = PRIM_CDR(v__3518294_37);
-Obj v__3518296_37 = PRIM_CAR(v__3518295_37);
-Obj v__3517659_37 = v__3518296_37;
-Obj v__3518297_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518298_37 = PRIM_CDR(v__3518297_37);
-Obj v__3518299_37 = PRIM_CDR(v__3518298_37);
-Obj v__3518300_37 = PRIM_EQ(Nil, v__3518299_37);
-if (True == v__3518300_37) {
-R[1] = v__3517658_37;
+Obj v__3519759_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3520388_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520388_37) {
+Obj v__3520389_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520390_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520389_37);
+if (True == v__3520390_37) {
+Obj v__3520391_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520392_37 = PRIM_ISCONS(v__3520391_37);
+if (True == v__3520392_37) {
+Obj v__3520393_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520394_37 = PRIM_CAR(v__3520393_37);
+Obj v__3519762_37 = v__3520394_37;
+Obj v__3520395_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520396_37 = PRIM_CDR(v__3520395_37);
+Obj v__3520397_37 = PRIM_ISCONS(v__3520396_37);
+if (True == v__3520397_37) {
+Obj v__3520398_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520399_37 = PRIM_CDR(v__3520398_37);
+Obj v__3520400_37 = PRIM_CAR(v__3520399_37);
+Obj v__3519763_37 = v__3520400_37;
+Obj v__3520401_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520402_37 = PRIM_CDR(v__3520401_37);
+Obj v__3520403_37 = PRIM_CDR(v__3520402_37);
+Obj v__3520404_37 = PRIM_EQ(Nil, v__3520403_37);
+if (True == v__3520404_37) {
+R[1] = v__3519762_37;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3517659_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519763_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517655_37);
+coraCall0(co, v__3519759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517655_37);
+coraCall0(co, v__3519759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517655_37);
+coraCall0(co, v__3519759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517655_37);
+coraCall0(co, v__3519759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517655_37);
+coraCall0(co, v__3519759_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518301_37= co->res;
-Obj v__3517658_37 = R[1];
+Obj v__3520405_37= co->res;
+Obj v__3519762_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518301_37, v__3517658_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520405_37, v__3519762_37);
 return;
 }
 }
@@ -7287,15 +7287,15 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518279_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518279_37) {
-Obj v__3518280_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517656_37 = v__3518280_37;
-Obj v__3518281_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517657_37 = v__3518281_37;
-Obj v__3518282_37 = makeCons(co->gc, v__3517656_37, v__3517657_37);
+Obj v__3520383_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520383_37) {
+Obj v__3520384_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519760_37 = v__3520384_37;
+Obj v__3520385_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519761_37 = v__3520385_37;
+Obj v__3520386_37 = makeCons(co->gc, v__3519760_37, v__3519761_37);
 saveCont(co, clofun36, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3518282_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520386_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7305,9 +7305,9 @@ return;
 }
 case 1:
 {
-Obj v__3518283_37= co->res;
+Obj v__3520387_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3518283_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520387_37);
 return;
 }
 }
@@ -7317,42 +7317,42 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517456_37 = R[1];
-Obj v__3517640_37 = makeNative(co->gc, 1, clofun34, 0, 1, v__3517456_37);
-Obj v__3518265_37 = PRIM_ISCONS(v__3517456_37);
-if (True == v__3518265_37) {
-Obj v__3518266_37 = PRIM_CAR(v__3517456_37);
-Obj v__3518267_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3518266_37);
-if (True == v__3518267_37) {
-Obj v__3518268_37 = PRIM_CDR(v__3517456_37);
-Obj v__3518269_37 = PRIM_ISCONS(v__3518268_37);
-if (True == v__3518269_37) {
-Obj v__3518270_37 = PRIM_CDR(v__3517456_37);
-Obj v__3518271_37 = PRIM_CAR(v__3518270_37);
-Obj v__3518272_37 = PRIM_CDR(v__3517456_37);
-Obj v__3518273_37 = PRIM_CDR(v__3518272_37);
-Obj v__3518274_37 = PRIM_EQ(Nil, v__3518273_37);
-if (True == v__3518274_37) {
+Obj v__3519166_37 = R[1];
+Obj v__3519744_37 = makeNative(co->gc, 1, clofun34, 0, 1, v__3519166_37);
+Obj v__3520369_37 = PRIM_ISCONS(v__3519166_37);
+if (True == v__3520369_37) {
+Obj v__3520370_37 = PRIM_CAR(v__3519166_37);
+Obj v__3520371_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520370_37);
+if (True == v__3520371_37) {
+Obj v__3520372_37 = PRIM_CDR(v__3519166_37);
+Obj v__3520373_37 = PRIM_ISCONS(v__3520372_37);
+if (True == v__3520373_37) {
+Obj v__3520374_37 = PRIM_CDR(v__3519166_37);
+Obj v__3520375_37 = PRIM_CAR(v__3520374_37);
+Obj v__3520376_37 = PRIM_CDR(v__3519166_37);
+Obj v__3520377_37 = PRIM_CDR(v__3520376_37);
+Obj v__3520378_37 = PRIM_EQ(Nil, v__3520377_37);
+if (True == v__3520378_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3519744_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3519744_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3519744_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517640_37);
+coraCall0(co, v__3519744_37);
 return;
 }
 }
@@ -7363,41 +7363,41 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517641_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
-Obj v__3518255_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518255_37) {
-Obj v__3518256_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518257_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3518256_37);
-if (True == v__3518257_37) {
-Obj v__3518258_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518259_37 = PRIM_ISCONS(v__3518258_37);
-if (True == v__3518259_37) {
-Obj v__3518260_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518261_37 = PRIM_CAR(v__3518260_37);
-Obj v__3518262_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518263_37 = PRIM_CDR(v__3518262_37);
-Obj v__3518264_37 = PRIM_EQ(Nil, v__3518263_37);
-if (True == v__3518264_37) {
+Obj v__3519745_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj v__3520359_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520359_37) {
+Obj v__3520360_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520361_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3520360_37);
+if (True == v__3520361_37) {
+Obj v__3520362_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520363_37 = PRIM_ISCONS(v__3520362_37);
+if (True == v__3520363_37) {
+Obj v__3520364_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520365_37 = PRIM_CAR(v__3520364_37);
+Obj v__3520366_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520367_37 = PRIM_CDR(v__3520366_37);
+Obj v__3520368_37 = PRIM_EQ(Nil, v__3520367_37);
+if (True == v__3520368_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3519745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3519745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3519745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517641_37);
+coraCall0(co, v__3519745_37);
 return;
 }
 }
@@ -7408,41 +7408,41 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517642_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj v__3518245_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518245_37) {
-Obj v__3518246_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518247_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3518246_37);
-if (True == v__3518247_37) {
-Obj v__3518248_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518249_37 = PRIM_ISCONS(v__3518248_37);
-if (True == v__3518249_37) {
-Obj v__3518250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518251_37 = PRIM_CAR(v__3518250_37);
-Obj v__3518252_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518253_37 = PRIM_CDR(v__3518252_37);
-Obj v__3518254_37 = PRIM_EQ(Nil, v__3518253_37);
-if (True == v__3518254_37) {
+Obj v__3519746_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj v__3520349_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520349_37) {
+Obj v__3520350_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520351_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3520350_37);
+if (True == v__3520351_37) {
+Obj v__3520352_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520353_37 = PRIM_ISCONS(v__3520352_37);
+if (True == v__3520353_37) {
+Obj v__3520354_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520355_37 = PRIM_CAR(v__3520354_37);
+Obj v__3520356_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520357_37 = PRIM_CDR(v__3520356_37);
+Obj v__3520358_37 = PRIM_EQ(Nil, v__3520357_37);
+if (True == v__3520358_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3519746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3519746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3519746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517642_37);
+coraCall0(co, v__3519746_37);
 return;
 }
 }
@@ -7453,41 +7453,41 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517643_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
-Obj v__3518235_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518235_37) {
-Obj v__3518236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518237_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518236_37);
-if (True == v__3518237_37) {
-Obj v__3518238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518239_37 = PRIM_ISCONS(v__3518238_37);
-if (True == v__3518239_37) {
-Obj v__3518240_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518241_37 = PRIM_CAR(v__3518240_37);
-Obj v__3518242_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518243_37 = PRIM_CDR(v__3518242_37);
-Obj v__3518244_37 = PRIM_EQ(Nil, v__3518243_37);
-if (True == v__3518244_37) {
+Obj v__3519747_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj v__3520339_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520339_37) {
+Obj v__3520340_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520341_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520340_37);
+if (True == v__3520341_37) {
+Obj v__3520342_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520343_37 = PRIM_ISCONS(v__3520342_37);
+if (True == v__3520343_37) {
+Obj v__3520344_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520345_37 = PRIM_CAR(v__3520344_37);
+Obj v__3520346_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520347_37 = PRIM_CDR(v__3520346_37);
+Obj v__3520348_37 = PRIM_EQ(Nil, v__3520347_37);
+if (True == v__3520348_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517643_37);
+coraCall0(co, v__3519747_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517643_37);
+coraCall0(co, v__3519747_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517643_37);
+coraCall0(co, v__3519747_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517643_37);
+coraCall0(co, v__3519747_37);
 return;
 }
 }
@@ -7498,41 +7498,41 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517644_37 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v__3518225_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518225_37) {
-Obj v__3518226_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518227_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3518226_37);
-if (True == v__3518227_37) {
-Obj v__3518228_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518229_37 = PRIM_ISCONS(v__3518228_37);
-if (True == v__3518229_37) {
-Obj v__3518230_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518231_37 = PRIM_CAR(v__3518230_37);
-Obj v__3518232_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518233_37 = PRIM_CDR(v__3518232_37);
-Obj v__3518234_37 = PRIM_EQ(Nil, v__3518233_37);
-if (True == v__3518234_37) {
+Obj v__3519748_37 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3520329_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520329_37) {
+Obj v__3520330_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520331_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3520330_37);
+if (True == v__3520331_37) {
+Obj v__3520332_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520333_37 = PRIM_ISCONS(v__3520332_37);
+if (True == v__3520333_37) {
+Obj v__3520334_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520335_37 = PRIM_CAR(v__3520334_37);
+Obj v__3520336_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520337_37 = PRIM_CDR(v__3520336_37);
+Obj v__3520338_37 = PRIM_EQ(Nil, v__3520337_37);
+if (True == v__3520338_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517644_37);
+coraCall0(co, v__3519748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517644_37);
+coraCall0(co, v__3519748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517644_37);
+coraCall0(co, v__3519748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517644_37);
+coraCall0(co, v__3519748_37);
 return;
 }
 }
@@ -7543,50 +7543,50 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517645_37 = makeNative(co->gc, 1, clofun29, 0, 0);
-Obj v__3518215_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518215_37) {
-Obj v__3518216_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518217_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3518216_37);
-if (True == v__3518217_37) {
-Obj v__3518218_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518219_37 = PRIM_ISCONS(v__3518218_37);
-if (True == v__3518219_37) {
-Obj v__3518220_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518221_37 = PRIM_CAR(v__3518220_37);
-Obj v__3517646_37 = v__3518221_37;
-Obj v__3518222_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518223_37 = PRIM_CDR(v__3518222_37);
-R[1] = v__3517645_37;
+Obj v__3519749_37 = makeNative(co->gc, 1, clofun29, 0, 0);
+Obj v__3520319_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520319_37) {
+Obj v__3520320_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520321_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520320_37);
+if (True == v__3520321_37) {
+Obj v__3520322_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520323_37 = PRIM_ISCONS(v__3520322_37);
+if (True == v__3520323_37) {
+Obj v__3520324_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520325_37 = PRIM_CAR(v__3520324_37);
+Obj v__3519750_37 = v__3520325_37;
+Obj v__3520326_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520327_37 = PRIM_CDR(v__3520326_37);
+R[1] = v__3519749_37;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517646_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3519750_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517645_37);
+coraCall0(co, v__3519749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517645_37);
+coraCall0(co, v__3519749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517645_37);
+coraCall0(co, v__3519749_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518224_37= co->res;
-Obj v__3517645_37 = R[1];
-if (True == v__3518224_37) {
+Obj v__3520328_37= co->res;
+Obj v__3519749_37 = R[1];
+if (True == v__3520328_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517645_37);
+coraCall0(co, v__3519749_37);
 return;
 }
 }
@@ -7607,46 +7607,46 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517451_37 = R[1];
-Obj v__3517452_37 = R[2];
-Obj v__3518204_37 = PRIM_EQ(Nil, v__3517451_37);
-if (True == v__3518204_37) {
+Obj v__3519154_37 = R[1];
+Obj v__3519155_37 = R[2];
+Obj v__3520308_37 = PRIM_EQ(Nil, v__3519154_37);
+if (True == v__3520308_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517635_37 = makeNative(co->gc, 2, clofun27, 0, 2, v__3517451_37, v__3517452_37);
-Obj v__3518210_37 = PRIM_ISCONS(v__3517451_37);
-if (True == v__3518210_37) {
-Obj v__3518211_37 = PRIM_CAR(v__3517451_37);
-Obj v__3517638_37 = v__3518211_37;
-Obj v__3518212_37 = PRIM_CDR(v__3517451_37);
-Obj v__3517639_37 = v__3518212_37;
-R[1] = v__3517639_37;
-R[2] = v__3517452_37;
-R[3] = v__3517635_37;
+Obj v__3519739_37 = makeNative(co->gc, 2, clofun27, 0, 2, v__3519154_37, v__3519155_37);
+Obj v__3520314_37 = PRIM_ISCONS(v__3519154_37);
+if (True == v__3520314_37) {
+Obj v__3520315_37 = PRIM_CAR(v__3519154_37);
+Obj v__3519742_37 = v__3520315_37;
+Obj v__3520316_37 = PRIM_CDR(v__3519154_37);
+Obj v__3519743_37 = v__3520316_37;
+R[1] = v__3519743_37;
+R[2] = v__3519155_37;
+R[3] = v__3519739_37;
 saveCont(co, clofun28, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517638_37, v__3517452_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519742_37, v__3519155_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517635_37);
+coraCall0(co, v__3519739_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518213_37= co->res;
-Obj v__3517639_37 = R[1];
-Obj v__3517452_37 = R[2];
-Obj v__3517635_37 = R[3];
-if (True == v__3518213_37) {
+Obj v__3520317_37= co->res;
+Obj v__3519743_37 = R[1];
+Obj v__3519155_37 = R[2];
+Obj v__3519739_37 = R[3];
+if (True == v__3520317_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517639_37, v__3517452_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519743_37, v__3519155_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517635_37);
+coraCall0(co, v__3519739_37);
 return;
 }
 }
@@ -7657,15 +7657,15 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518205_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518205_37) {
-Obj v__3518206_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517636_37 = v__3518206_37;
-Obj v__3518207_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517637_37 = v__3518207_37;
-R[1] = v__3517636_37;
+Obj v__3520309_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520309_37) {
+Obj v__3520310_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519740_37 = v__3520310_37;
+Obj v__3520311_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519741_37 = v__3520311_37;
+R[1] = v__3519740_37;
 saveCont(co, clofun27, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517637_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519741_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7675,10 +7675,10 @@ return;
 }
 case 1:
 {
-Obj v__3518208_37= co->res;
-Obj v__3517636_37 = R[1];
-Obj v__3518209_37 = makeCons(co->gc, v__3517636_37, v__3518208_37);
-coraReturn(co, v__3518209_37);
+Obj v__3520312_37= co->res;
+Obj v__3519740_37 = R[1];
+Obj v__3520313_37 = makeCons(co->gc, v__3519740_37, v__3520312_37);
+coraReturn(co, v__3520313_37);
 return;
 }
 }
@@ -7688,46 +7688,46 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517446_37 = R[1];
-Obj v__3517447_37 = R[2];
-Obj v__3518193_37 = PRIM_EQ(Nil, v__3517446_37);
-if (True == v__3518193_37) {
-coraReturn(co, v__3517447_37);
+Obj v__3519142_37 = R[1];
+Obj v__3519143_37 = R[2];
+Obj v__3520297_37 = PRIM_EQ(Nil, v__3519142_37);
+if (True == v__3520297_37) {
+coraReturn(co, v__3519143_37);
 return;
 } else {
-Obj v__3517630_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3517446_37, v__3517447_37);
-Obj v__3518199_37 = PRIM_ISCONS(v__3517446_37);
-if (True == v__3518199_37) {
-Obj v__3518200_37 = PRIM_CAR(v__3517446_37);
-Obj v__3517633_37 = v__3518200_37;
-Obj v__3518201_37 = PRIM_CDR(v__3517446_37);
-Obj v__3517634_37 = v__3518201_37;
-R[1] = v__3517634_37;
-R[2] = v__3517447_37;
-R[3] = v__3517630_37;
+Obj v__3519734_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3519142_37, v__3519143_37);
+Obj v__3520303_37 = PRIM_ISCONS(v__3519142_37);
+if (True == v__3520303_37) {
+Obj v__3520304_37 = PRIM_CAR(v__3519142_37);
+Obj v__3519737_37 = v__3520304_37;
+Obj v__3520305_37 = PRIM_CDR(v__3519142_37);
+Obj v__3519738_37 = v__3520305_37;
+R[1] = v__3519738_37;
+R[2] = v__3519143_37;
+R[3] = v__3519734_37;
 saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3517633_37, v__3517447_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519737_37, v__3519143_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517630_37);
+coraCall0(co, v__3519734_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518202_37= co->res;
-Obj v__3517634_37 = R[1];
-Obj v__3517447_37 = R[2];
-Obj v__3517630_37 = R[3];
-if (True == v__3518202_37) {
+Obj v__3520306_37= co->res;
+Obj v__3519738_37 = R[1];
+Obj v__3519143_37 = R[2];
+Obj v__3519734_37 = R[3];
+if (True == v__3520306_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3517634_37, v__3517447_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3519738_37, v__3519143_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517630_37);
+coraCall0(co, v__3519734_37);
 return;
 }
 }
@@ -7738,15 +7738,15 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518194_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518194_37) {
-Obj v__3518195_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517631_37 = v__3518195_37;
-Obj v__3518196_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517632_37 = v__3518196_37;
-R[1] = v__3517631_37;
+Obj v__3520298_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520298_37) {
+Obj v__3520299_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519735_37 = v__3520299_37;
+Obj v__3520300_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519736_37 = v__3520300_37;
+R[1] = v__3519735_37;
 saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3517632_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3519736_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7756,10 +7756,10 @@ return;
 }
 case 1:
 {
-Obj v__3518197_37= co->res;
-Obj v__3517631_37 = R[1];
-Obj v__3518198_37 = makeCons(co->gc, v__3517631_37, v__3518197_37);
-coraReturn(co, v__3518198_37);
+Obj v__3520301_37= co->res;
+Obj v__3519735_37 = R[1];
+Obj v__3520302_37 = makeCons(co->gc, v__3519735_37, v__3520301_37);
+coraReturn(co, v__3520302_37);
 return;
 }
 }
@@ -7769,66 +7769,66 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517432_37 = R[1];
-Obj v__3517433_37 = R[2];
-Obj v__3517434_37 = R[3];
-Obj v__3517597_37 = makeNative(co->gc, 2, clofun23, 1, 3, v__3517432_37, v__3517434_37, v__3517433_37);
-R[1] = v__3517434_37;
-R[2] = v__3517597_37;
+Obj v__3519043_37 = R[1];
+Obj v__3519044_37 = R[2];
+Obj v__3519045_37 = R[3];
+Obj v__3519701_37 = makeNative(co->gc, 2, clofun23, 1, 3, v__3519043_37, v__3519045_37, v__3519044_37);
+R[1] = v__3519045_37;
+R[2] = v__3519701_37;
 saveCont(co, clofun24, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3517434_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3519045_37);
 return;
 }
 case 1:
 {
-Obj v__3518191_37= co->res;
-Obj v__3517597_37 = R[1];
-if (True == v__3518191_37) {
+Obj v__3520295_37= co->res;
+Obj v__3519701_37 = R[1];
+if (True == v__3520295_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517597_37, True);
+coraCall1(co, v__3519701_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517597_37, False);
+coraCall1(co, v__3519701_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518190_37= co->res;
-Obj v__3517434_37 = R[1];
-Obj v__3517597_37 = R[2];
-if (True == v__3518190_37) {
+Obj v__3520294_37= co->res;
+Obj v__3519045_37 = R[1];
+Obj v__3519701_37 = R[2];
+if (True == v__3520294_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517597_37, True);
+coraCall1(co, v__3519701_37, True);
 return;
 } else {
-R[1] = v__3517597_37;
+R[1] = v__3519701_37;
 saveCont(co, clofun24, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517434_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519045_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3518188_37= co->res;
-Obj v__3517434_37 = R[1];
-Obj v__3517597_37 = R[2];
-if (True == v__3518188_37) {
+Obj v__3520292_37= co->res;
+Obj v__3519045_37 = R[1];
+Obj v__3519701_37 = R[2];
+if (True == v__3520292_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517597_37, True);
+coraCall1(co, v__3519701_37, True);
 return;
 } else {
-Obj v__3518189_37 = primIsString(v__3517434_37);
-if (True == v__3518189_37) {
+Obj v__3520293_37 = primIsString(v__3519045_37);
+if (True == v__3520293_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517597_37, True);
+coraCall1(co, v__3519701_37, True);
 return;
 } else {
-R[1] = v__3517434_37;
-R[2] = v__3517597_37;
+R[1] = v__3519045_37;
+R[2] = v__3519701_37;
 saveCont(co, clofun24, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), v__3517434_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), v__3519045_37);
 return;
 }
 }
@@ -7840,62 +7840,62 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517596_37 = R[1];
-if (True == v__3517596_37) {
-Obj v__3517991_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v__3517992_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3517991_37);
-coraReturn(co, v__3517992_37);
-return;
-} else {
-Obj v__3517598_37 = makeNative(co->gc, 3, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj v__3518175_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518175_37) {
-Obj v__3518176_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518177_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518176_37);
-if (True == v__3518177_37) {
-Obj v__3518178_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518179_37 = PRIM_ISCONS(v__3518178_37);
-if (True == v__3518179_37) {
-Obj v__3518180_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518181_37 = PRIM_CAR(v__3518180_37);
-Obj v__3517629_37 = v__3518181_37;
-Obj v__3518182_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518183_37 = PRIM_CDR(v__3518182_37);
-Obj v__3518184_37 = PRIM_EQ(Nil, v__3518183_37);
-if (True == v__3518184_37) {
-R[1] = v__3517629_37;
+Obj v__3519700_37 = R[1];
+if (True == v__3519700_37) {
+Obj v__3520095_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v__3520096_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520095_37);
+coraReturn(co, v__3520096_37);
+return;
+} else {
+Obj v__3519702_37 = makeNative(co->gc, 3, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v__3520279_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3520279_37) {
+Obj v__3520280_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3520281_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520280_37);
+if (True == v__3520281_37) {
+Obj v__3520282_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520283_37 = PRIM_ISCONS(v__3520282_37);
+if (True == v__3520283_37) {
+Obj v__3520284_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520285_37 = PRIM_CAR(v__3520284_37);
+Obj v__3519733_37 = v__3520285_37;
+Obj v__3520286_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520287_37 = PRIM_CDR(v__3520286_37);
+Obj v__3520288_37 = PRIM_EQ(Nil, v__3520287_37);
+if (True == v__3520288_37) {
+R[1] = v__3519733_37;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3517629_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3519733_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517598_37);
+coraCall0(co, v__3519702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517598_37);
+coraCall0(co, v__3519702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517598_37);
+coraCall0(co, v__3519702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517598_37);
+coraCall0(co, v__3519702_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518185_37= co->res;
-Obj v__3517629_37 = R[1];
-Obj v__3518186_37 = makeCons(co->gc, v__3517629_37, Nil);
-Obj v__3518187_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3518186_37);
-coraReturn(co, v__3518187_37);
+Obj v__3520289_37= co->res;
+Obj v__3519733_37 = R[1];
+Obj v__3520290_37 = makeCons(co->gc, v__3519733_37, Nil);
+Obj v__3520291_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520290_37);
+coraReturn(co, v__3520291_37);
 return;
 }
 }
@@ -7905,129 +7905,129 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517993_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3517993_37) {
+Obj v__3520097_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3520097_37) {
 saveCont(co, clofun22, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517600_37 = makeNative(co->gc, 1, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518151_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518151_37) {
-Obj v__3518152_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518153_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518152_37);
-if (True == v__3518153_37) {
-Obj v__3518154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518155_37 = PRIM_ISCONS(v__3518154_37);
-if (True == v__3518155_37) {
-Obj v__3518156_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518157_37 = PRIM_CAR(v__3518156_37);
-Obj v__3517627_37 = v__3518157_37;
-Obj v__3518158_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518159_37 = PRIM_CDR(v__3518158_37);
-Obj v__3518160_37 = PRIM_ISCONS(v__3518159_37);
-if (True == v__3518160_37) {
-Obj v__3518161_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518162_37 = PRIM_CDR(v__3518161_37);
-Obj v__3518163_37 = PRIM_CAR(v__3518162_37);
-Obj v__3517628_37 = v__3518163_37;
-Obj v__3518164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518165_37 = PRIM_CDR(v__3518164_37);
-Obj v__3518166_37 = PRIM_CDR(v__3518165_37);
-Obj v__3518167_37 = PRIM_EQ(Nil, v__3518166_37);
-if (True == v__3518167_37) {
-R[1] = v__3517628_37;
-R[2] = v__3517627_37;
+Obj v__3519704_37 = makeNative(co->gc, 1, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520255_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520255_37) {
+Obj v__3520256_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520257_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520256_37);
+if (True == v__3520257_37) {
+Obj v__3520258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520259_37 = PRIM_ISCONS(v__3520258_37);
+if (True == v__3520259_37) {
+Obj v__3520260_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520261_37 = PRIM_CAR(v__3520260_37);
+Obj v__3519731_37 = v__3520261_37;
+Obj v__3520262_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520263_37 = PRIM_CDR(v__3520262_37);
+Obj v__3520264_37 = PRIM_ISCONS(v__3520263_37);
+if (True == v__3520264_37) {
+Obj v__3520265_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520266_37 = PRIM_CDR(v__3520265_37);
+Obj v__3520267_37 = PRIM_CAR(v__3520266_37);
+Obj v__3519732_37 = v__3520267_37;
+Obj v__3520268_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520269_37 = PRIM_CDR(v__3520268_37);
+Obj v__3520270_37 = PRIM_CDR(v__3520269_37);
+Obj v__3520271_37 = PRIM_EQ(Nil, v__3520270_37);
+if (True == v__3520271_37) {
+R[1] = v__3519732_37;
+R[2] = v__3519731_37;
 saveCont(co, clofun22, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun21, 1, 0), v__3517627_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun21, 1, 0), v__3519731_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517600_37);
+coraCall0(co, v__3519704_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517600_37);
+coraCall0(co, v__3519704_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517600_37);
+coraCall0(co, v__3519704_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517600_37);
+coraCall0(co, v__3519704_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517600_37);
+coraCall0(co, v__3519704_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3517996_37= co->res;
-Obj v__3517997_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3517998_37 = makeCons(co->gc, getBinding(co, packageID, 95).name, v__3517997_37);
-coraReturn(co, v__3517998_37);
+Obj v__3520100_37= co->res;
+Obj v__3520101_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520102_37 = makeCons(co->gc, getBinding(co, packageID, 95).name, v__3520101_37);
+coraReturn(co, v__3520102_37);
 return;
 }
 case 2:
 {
-Obj v__3517995_37= co->res;
-Obj v__3517599_37 = R[1];
-if (True == v__3517995_37) {
+Obj v__3520099_37= co->res;
+Obj v__3519703_37 = R[1];
+if (True == v__3520099_37) {
 saveCont(co, clofun22, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3517999_37 = PRIM_CDR(v__3517599_37);
-coraReturn(co, v__3517999_37);
+Obj v__3520103_37 = PRIM_CDR(v__3519703_37);
+coraReturn(co, v__3520103_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3517994_37= co->res;
-Obj v__3517599_37 = v__3517994_37;
-R[1] = v__3517599_37;
+Obj v__3520098_37= co->res;
+Obj v__3519703_37 = v__3520098_37;
+R[1] = v__3519703_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517599_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519703_37);
 return;
 }
 case 4:
 {
-Obj v__3518171_37= co->res;
-Obj v__3517627_37 = R[1];
-Obj v__3518172_37 = makeCons(co->gc, v__3518171_37, Nil);
-Obj v__3518173_37 = makeCons(co->gc, v__3517627_37, v__3518172_37);
-Obj v__3518174_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518173_37);
-coraReturn(co, v__3518174_37);
+Obj v__3520275_37= co->res;
+Obj v__3519731_37 = R[1];
+Obj v__3520276_37 = makeCons(co->gc, v__3520275_37, Nil);
+Obj v__3520277_37 = makeCons(co->gc, v__3519731_37, v__3520276_37);
+Obj v__3520278_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520277_37);
+coraReturn(co, v__3520278_37);
 return;
 }
 case 5:
 {
-Obj v__3518170_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517627_37 = R[2];
-R[1] = v__3517627_37;
+Obj v__3520274_37= co->res;
+Obj v__3519732_37 = R[1];
+Obj v__3519731_37 = R[2];
+R[1] = v__3519731_37;
 saveCont(co, clofun22, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3518170_37, closureRef(R[0], 2), v__3517628_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3520274_37, closureRef(R[0], 2), v__3519732_37);
 return;
 }
 case 6:
 {
-Obj v__3518169_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517627_37 = R[2];
-R[1] = v__3517628_37;
-R[2] = v__3517627_37;
+Obj v__3520273_37= co->res;
+Obj v__3519732_37 = R[1];
+Obj v__3519731_37 = R[2];
+R[1] = v__3519732_37;
+R[2] = v__3519731_37;
 saveCont(co, clofun22, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3518169_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3520273_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -8037,9 +8037,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3518168_37 = makeCons(co->gc, v_x, v_x);
-coraReturn(co, v__3518168_37);
+Obj v__3519139_37 = R[1];
+Obj v__3520272_37 = makeCons(co->gc, v__3519139_37, v__3519139_37);
+coraReturn(co, v__3520272_37);
 return;
 }
 }
@@ -8049,74 +8049,74 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517601_37 = makeNative(co->gc, 2, clofun19, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518119_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518119_37) {
-Obj v__3518120_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518121_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518120_37);
-if (True == v__3518121_37) {
-Obj v__3518122_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518123_37 = PRIM_ISCONS(v__3518122_37);
-if (True == v__3518123_37) {
-Obj v__3518124_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518125_37 = PRIM_CAR(v__3518124_37);
-Obj v__3518126_37 = PRIM_ISCONS(v__3518125_37);
-if (True == v__3518126_37) {
-Obj v__3518127_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518128_37 = PRIM_CAR(v__3518127_37);
-Obj v__3518129_37 = PRIM_CAR(v__3518128_37);
-Obj v__3518130_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518129_37);
-if (True == v__3518130_37) {
-Obj v__3518131_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518132_37 = PRIM_CAR(v__3518131_37);
-Obj v__3518133_37 = PRIM_CDR(v__3518132_37);
-Obj v__3517623_37 = v__3518133_37;
-Obj v__3518134_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518135_37 = PRIM_CDR(v__3518134_37);
-Obj v__3517624_37 = v__3518135_37;
-Obj v__3518136_37 = primGenSym(co);
-Obj v__3517625_37 = v__3518136_37;
-Obj v__3518137_37 = primGenSym(co);
-Obj v__3517626_37 = v__3518137_37;
-Obj v__3518138_37 = makeCons(co->gc, v__3517626_37, Nil);
-Obj v__3518139_37 = makeCons(co->gc, v__3517626_37, v__3517624_37);
-Obj v__3518140_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518139_37);
-Obj v__3518141_37 = makeCons(co->gc, v__3518140_37, Nil);
-Obj v__3518142_37 = makeCons(co->gc, v__3518138_37, v__3518141_37);
-Obj v__3518143_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518142_37);
-Obj v__3518144_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3517623_37);
-Obj v__3518145_37 = makeCons(co->gc, v__3518144_37, Nil);
-Obj v__3518146_37 = makeCons(co->gc, v__3517625_37, v__3518145_37);
-Obj v__3518147_37 = makeCons(co->gc, v__3518146_37, Nil);
-Obj v__3518148_37 = makeCons(co->gc, v__3518143_37, v__3518147_37);
-Obj v__3518149_37 = makeCons(co->gc, v__3517625_37, v__3518148_37);
-Obj v__3518150_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518149_37);
+Obj v__3519705_37 = makeNative(co->gc, 2, clofun19, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520223_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520223_37) {
+Obj v__3520224_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520225_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520224_37);
+if (True == v__3520225_37) {
+Obj v__3520226_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520227_37 = PRIM_ISCONS(v__3520226_37);
+if (True == v__3520227_37) {
+Obj v__3520228_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520229_37 = PRIM_CAR(v__3520228_37);
+Obj v__3520230_37 = PRIM_ISCONS(v__3520229_37);
+if (True == v__3520230_37) {
+Obj v__3520231_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520232_37 = PRIM_CAR(v__3520231_37);
+Obj v__3520233_37 = PRIM_CAR(v__3520232_37);
+Obj v__3520234_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520233_37);
+if (True == v__3520234_37) {
+Obj v__3520235_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520236_37 = PRIM_CAR(v__3520235_37);
+Obj v__3520237_37 = PRIM_CDR(v__3520236_37);
+Obj v__3519727_37 = v__3520237_37;
+Obj v__3520238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520239_37 = PRIM_CDR(v__3520238_37);
+Obj v__3519728_37 = v__3520239_37;
+Obj v__3520240_37 = primGenSym(co);
+Obj v__3519729_37 = v__3520240_37;
+Obj v__3520241_37 = primGenSym(co);
+Obj v__3519730_37 = v__3520241_37;
+Obj v__3520242_37 = makeCons(co->gc, v__3519730_37, Nil);
+Obj v__3520243_37 = makeCons(co->gc, v__3519730_37, v__3519728_37);
+Obj v__3520244_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520243_37);
+Obj v__3520245_37 = makeCons(co->gc, v__3520244_37, Nil);
+Obj v__3520246_37 = makeCons(co->gc, v__3520242_37, v__3520245_37);
+Obj v__3520247_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520246_37);
+Obj v__3520248_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3519727_37);
+Obj v__3520249_37 = makeCons(co->gc, v__3520248_37, Nil);
+Obj v__3520250_37 = makeCons(co->gc, v__3519729_37, v__3520249_37);
+Obj v__3520251_37 = makeCons(co->gc, v__3520250_37, Nil);
+Obj v__3520252_37 = makeCons(co->gc, v__3520247_37, v__3520251_37);
+Obj v__3520253_37 = makeCons(co->gc, v__3519729_37, v__3520252_37);
+Obj v__3520254_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520253_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518150_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520254_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517601_37);
+coraCall0(co, v__3519705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517601_37);
+coraCall0(co, v__3519705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517601_37);
+coraCall0(co, v__3519705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517601_37);
+coraCall0(co, v__3519705_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517601_37);
+coraCall0(co, v__3519705_37);
 return;
 }
 }
@@ -8127,42 +8127,42 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517602_37 = makeNative(co->gc, 2, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518112_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518112_37) {
-Obj v__3518113_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518114_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518113_37);
-if (True == v__3518114_37) {
-Obj v__3518115_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517622_37 = v__3518115_37;
-R[1] = v__3517622_37;
+Obj v__3519706_37 = makeNative(co->gc, 2, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520216_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520216_37) {
+Obj v__3520217_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520218_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520217_37);
+if (True == v__3520218_37) {
+Obj v__3520219_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519726_37 = v__3520219_37;
+R[1] = v__3519726_37;
 saveCont(co, clofun19, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517602_37);
+coraCall0(co, v__3519706_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517602_37);
+coraCall0(co, v__3519706_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518117_37= co->res;
-Obj v__3518118_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3518117_37);
-coraReturn(co, v__3518118_37);
+Obj v__3520221_37= co->res;
+Obj v__3520222_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520221_37);
+coraReturn(co, v__3520222_37);
 return;
 }
 case 2:
 {
-Obj v__3518116_37= co->res;
-Obj v__3517622_37 = R[1];
+Obj v__3520220_37= co->res;
+Obj v__3519726_37 = R[1];
 saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518116_37, v__3517622_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520220_37, v__3519726_37);
 return;
 }
 }
@@ -8172,78 +8172,78 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517603_37 = makeNative(co->gc, 4, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518090_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518090_37) {
-Obj v__3518091_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518092_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518091_37);
-if (True == v__3518092_37) {
-Obj v__3518093_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518094_37 = PRIM_ISCONS(v__3518093_37);
-if (True == v__3518094_37) {
-Obj v__3518095_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518096_37 = PRIM_CAR(v__3518095_37);
-Obj v__3517620_37 = v__3518096_37;
-Obj v__3518097_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518098_37 = PRIM_CDR(v__3518097_37);
-Obj v__3518099_37 = PRIM_ISCONS(v__3518098_37);
-if (True == v__3518099_37) {
-Obj v__3518100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518101_37 = PRIM_CDR(v__3518100_37);
-Obj v__3518102_37 = PRIM_CAR(v__3518101_37);
-Obj v__3517621_37 = v__3518102_37;
-Obj v__3518103_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518104_37 = PRIM_CDR(v__3518103_37);
-Obj v__3518105_37 = PRIM_CDR(v__3518104_37);
-Obj v__3518106_37 = PRIM_EQ(Nil, v__3518105_37);
-if (True == v__3518106_37) {
-R[1] = v__3517621_37;
+Obj v__3519707_37 = makeNative(co->gc, 4, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520194_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520194_37) {
+Obj v__3520195_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520196_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520195_37);
+if (True == v__3520196_37) {
+Obj v__3520197_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520198_37 = PRIM_ISCONS(v__3520197_37);
+if (True == v__3520198_37) {
+Obj v__3520199_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520200_37 = PRIM_CAR(v__3520199_37);
+Obj v__3519724_37 = v__3520200_37;
+Obj v__3520201_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520202_37 = PRIM_CDR(v__3520201_37);
+Obj v__3520203_37 = PRIM_ISCONS(v__3520202_37);
+if (True == v__3520203_37) {
+Obj v__3520204_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520205_37 = PRIM_CDR(v__3520204_37);
+Obj v__3520206_37 = PRIM_CAR(v__3520205_37);
+Obj v__3519725_37 = v__3520206_37;
+Obj v__3520207_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520208_37 = PRIM_CDR(v__3520207_37);
+Obj v__3520209_37 = PRIM_CDR(v__3520208_37);
+Obj v__3520210_37 = PRIM_EQ(Nil, v__3520209_37);
+if (True == v__3520210_37) {
+R[1] = v__3519725_37;
 saveCont(co, clofun18, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517620_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519724_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3519707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3519707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3519707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3519707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3519707_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518108_37= co->res;
-Obj v__3518107_37 = R[1];
-Obj v__3518109_37 = makeCons(co->gc, v__3518108_37, Nil);
-Obj v__3518110_37 = makeCons(co->gc, v__3518107_37, v__3518109_37);
-Obj v__3518111_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518110_37);
-coraReturn(co, v__3518111_37);
+Obj v__3520212_37= co->res;
+Obj v__3520211_37 = R[1];
+Obj v__3520213_37 = makeCons(co->gc, v__3520212_37, Nil);
+Obj v__3520214_37 = makeCons(co->gc, v__3520211_37, v__3520213_37);
+Obj v__3520215_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520214_37);
+coraReturn(co, v__3520215_37);
 return;
 }
 case 2:
 {
-Obj v__3518107_37= co->res;
-Obj v__3517621_37 = R[1];
-R[1] = v__3518107_37;
+Obj v__3520211_37= co->res;
+Obj v__3519725_37 = R[1];
+R[1] = v__3520211_37;
 saveCont(co, clofun18, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517621_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519725_37);
 return;
 }
 }
@@ -8253,105 +8253,105 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517604_37 = makeNative(co->gc, 1, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518055_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518055_37) {
-Obj v__3518056_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518057_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3518056_37);
-if (True == v__3518057_37) {
-Obj v__3518058_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518059_37 = PRIM_ISCONS(v__3518058_37);
-if (True == v__3518059_37) {
-Obj v__3518060_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518061_37 = PRIM_CAR(v__3518060_37);
-Obj v__3517616_37 = v__3518061_37;
-Obj v__3518062_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518063_37 = PRIM_CDR(v__3518062_37);
-Obj v__3518064_37 = PRIM_ISCONS(v__3518063_37);
-if (True == v__3518064_37) {
-Obj v__3518065_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518066_37 = PRIM_CDR(v__3518065_37);
-Obj v__3518067_37 = PRIM_CAR(v__3518066_37);
-Obj v__3517617_37 = v__3518067_37;
-Obj v__3518068_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518069_37 = PRIM_CDR(v__3518068_37);
-Obj v__3518070_37 = PRIM_CDR(v__3518069_37);
-Obj v__3518071_37 = PRIM_ISCONS(v__3518070_37);
-if (True == v__3518071_37) {
-Obj v__3518072_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518073_37 = PRIM_CDR(v__3518072_37);
-Obj v__3518074_37 = PRIM_CDR(v__3518073_37);
-Obj v__3518075_37 = PRIM_CAR(v__3518074_37);
-Obj v__3517618_37 = v__3518075_37;
-Obj v__3518076_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518077_37 = PRIM_CDR(v__3518076_37);
-Obj v__3518078_37 = PRIM_CDR(v__3518077_37);
-Obj v__3518079_37 = PRIM_CDR(v__3518078_37);
-Obj v__3518080_37 = PRIM_EQ(Nil, v__3518079_37);
-if (True == v__3518080_37) {
-Obj v__3518081_37 = primGenSym(co);
-Obj v__3517619_37 = v__3518081_37;
-R[1] = v__3517616_37;
-R[2] = v__3517618_37;
-R[3] = v__3517619_37;
+Obj v__3519708_37 = makeNative(co->gc, 1, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520159_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520159_37) {
+Obj v__3520160_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520161_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520160_37);
+if (True == v__3520161_37) {
+Obj v__3520162_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520163_37 = PRIM_ISCONS(v__3520162_37);
+if (True == v__3520163_37) {
+Obj v__3520164_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520165_37 = PRIM_CAR(v__3520164_37);
+Obj v__3519720_37 = v__3520165_37;
+Obj v__3520166_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520167_37 = PRIM_CDR(v__3520166_37);
+Obj v__3520168_37 = PRIM_ISCONS(v__3520167_37);
+if (True == v__3520168_37) {
+Obj v__3520169_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520170_37 = PRIM_CDR(v__3520169_37);
+Obj v__3520171_37 = PRIM_CAR(v__3520170_37);
+Obj v__3519721_37 = v__3520171_37;
+Obj v__3520172_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520173_37 = PRIM_CDR(v__3520172_37);
+Obj v__3520174_37 = PRIM_CDR(v__3520173_37);
+Obj v__3520175_37 = PRIM_ISCONS(v__3520174_37);
+if (True == v__3520175_37) {
+Obj v__3520176_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520177_37 = PRIM_CDR(v__3520176_37);
+Obj v__3520178_37 = PRIM_CDR(v__3520177_37);
+Obj v__3520179_37 = PRIM_CAR(v__3520178_37);
+Obj v__3519722_37 = v__3520179_37;
+Obj v__3520180_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520181_37 = PRIM_CDR(v__3520180_37);
+Obj v__3520182_37 = PRIM_CDR(v__3520181_37);
+Obj v__3520183_37 = PRIM_CDR(v__3520182_37);
+Obj v__3520184_37 = PRIM_EQ(Nil, v__3520183_37);
+if (True == v__3520184_37) {
+Obj v__3520185_37 = primGenSym(co);
+Obj v__3519723_37 = v__3520185_37;
+R[1] = v__3519720_37;
+R[2] = v__3519722_37;
+R[3] = v__3519723_37;
 saveCont(co, clofun17, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517617_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519721_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517604_37);
+coraCall0(co, v__3519708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517604_37);
+coraCall0(co, v__3519708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517604_37);
+coraCall0(co, v__3519708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517604_37);
+coraCall0(co, v__3519708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517604_37);
+coraCall0(co, v__3519708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517604_37);
+coraCall0(co, v__3519708_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518085_37= co->res;
-Obj v__3518082_37 = R[1];
-Obj v__3517619_37 = R[2];
-Obj v__3518086_37 = makeCons(co->gc, v__3518085_37, Nil);
-Obj v__3518087_37 = makeCons(co->gc, v__3518082_37, v__3518086_37);
-Obj v__3518088_37 = makeCons(co->gc, v__3517619_37, v__3518087_37);
-Obj v__3518089_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518088_37);
-coraReturn(co, v__3518089_37);
+Obj v__3520189_37= co->res;
+Obj v__3520186_37 = R[1];
+Obj v__3519723_37 = R[2];
+Obj v__3520190_37 = makeCons(co->gc, v__3520189_37, Nil);
+Obj v__3520191_37 = makeCons(co->gc, v__3520186_37, v__3520190_37);
+Obj v__3520192_37 = makeCons(co->gc, v__3519723_37, v__3520191_37);
+Obj v__3520193_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520192_37);
+coraReturn(co, v__3520193_37);
 return;
 }
 case 2:
 {
-Obj v__3518082_37= co->res;
-Obj v__3517616_37 = R[1];
-Obj v__3517618_37 = R[2];
-Obj v__3517619_37 = R[3];
-Obj v__3518083_37 = makeCons(co->gc, v__3517616_37, v__3517619_37);
-Obj v__3518084_37 = makeCons(co->gc, v__3518083_37, closureRef(R[0], 1));
-R[1] = v__3518082_37;
-R[2] = v__3517619_37;
+Obj v__3520186_37= co->res;
+Obj v__3519720_37 = R[1];
+Obj v__3519722_37 = R[2];
+Obj v__3519723_37 = R[3];
+Obj v__3520187_37 = makeCons(co->gc, v__3519720_37, v__3519723_37);
+Obj v__3520188_37 = makeCons(co->gc, v__3520187_37, closureRef(R[0], 1));
+R[1] = v__3520186_37;
+R[2] = v__3519723_37;
 saveCont(co, clofun17, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3518084_37, closureRef(R[0], 2), v__3517618_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3520188_37, closureRef(R[0], 2), v__3519722_37);
 return;
 }
 }
@@ -8361,85 +8361,85 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517605_37 = makeNative(co->gc, 5, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518023_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518023_37) {
-Obj v__3518024_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518025_37 = PRIM_ISCONS(v__3518024_37);
-if (True == v__3518025_37) {
-Obj v__3518026_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518027_37 = PRIM_CAR(v__3518026_37);
-Obj v__3518028_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518027_37);
-if (True == v__3518028_37) {
-Obj v__3518029_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518030_37 = PRIM_CDR(v__3518029_37);
-Obj v__3517613_37 = v__3518030_37;
-Obj v__3518031_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518032_37 = PRIM_ISCONS(v__3518031_37);
-if (True == v__3518032_37) {
-Obj v__3518033_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518034_37 = PRIM_CAR(v__3518033_37);
-Obj v__3518035_37 = PRIM_ISCONS(v__3518034_37);
-if (True == v__3518035_37) {
-Obj v__3518036_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518037_37 = PRIM_CAR(v__3518036_37);
-Obj v__3518038_37 = PRIM_CAR(v__3518037_37);
-Obj v__3518039_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3518038_37);
-if (True == v__3518039_37) {
-Obj v__3518040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518041_37 = PRIM_CAR(v__3518040_37);
-Obj v__3518042_37 = PRIM_CDR(v__3518041_37);
-Obj v__3517614_37 = v__3518042_37;
-Obj v__3518043_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518044_37 = PRIM_CDR(v__3518043_37);
-Obj v__3518045_37 = PRIM_EQ(Nil, v__3518044_37);
-if (True == v__3518045_37) {
-Obj v__3518046_37 = primGenSym(co);
-Obj v__3517615_37 = v__3518046_37;
-Obj v__3518047_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3517613_37);
-Obj v__3518048_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3517614_37);
-Obj v__3518049_37 = makeCons(co->gc, v__3518048_37, Nil);
-Obj v__3518050_37 = makeCons(co->gc, v__3517615_37, v__3518049_37);
-Obj v__3518051_37 = makeCons(co->gc, v__3518050_37, Nil);
-Obj v__3518052_37 = makeCons(co->gc, v__3518047_37, v__3518051_37);
-Obj v__3518053_37 = makeCons(co->gc, v__3517615_37, v__3518052_37);
-Obj v__3518054_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3518053_37);
+Obj v__3519709_37 = makeNative(co->gc, 5, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520127_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520127_37) {
+Obj v__3520128_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520129_37 = PRIM_ISCONS(v__3520128_37);
+if (True == v__3520129_37) {
+Obj v__3520130_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520131_37 = PRIM_CAR(v__3520130_37);
+Obj v__3520132_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520131_37);
+if (True == v__3520132_37) {
+Obj v__3520133_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520134_37 = PRIM_CDR(v__3520133_37);
+Obj v__3519717_37 = v__3520134_37;
+Obj v__3520135_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520136_37 = PRIM_ISCONS(v__3520135_37);
+if (True == v__3520136_37) {
+Obj v__3520137_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520138_37 = PRIM_CAR(v__3520137_37);
+Obj v__3520139_37 = PRIM_ISCONS(v__3520138_37);
+if (True == v__3520139_37) {
+Obj v__3520140_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520141_37 = PRIM_CAR(v__3520140_37);
+Obj v__3520142_37 = PRIM_CAR(v__3520141_37);
+Obj v__3520143_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520142_37);
+if (True == v__3520143_37) {
+Obj v__3520144_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520145_37 = PRIM_CAR(v__3520144_37);
+Obj v__3520146_37 = PRIM_CDR(v__3520145_37);
+Obj v__3519718_37 = v__3520146_37;
+Obj v__3520147_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520148_37 = PRIM_CDR(v__3520147_37);
+Obj v__3520149_37 = PRIM_EQ(Nil, v__3520148_37);
+if (True == v__3520149_37) {
+Obj v__3520150_37 = primGenSym(co);
+Obj v__3519719_37 = v__3520150_37;
+Obj v__3520151_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3519717_37);
+Obj v__3520152_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3519718_37);
+Obj v__3520153_37 = makeCons(co->gc, v__3520152_37, Nil);
+Obj v__3520154_37 = makeCons(co->gc, v__3519719_37, v__3520153_37);
+Obj v__3520155_37 = makeCons(co->gc, v__3520154_37, Nil);
+Obj v__3520156_37 = makeCons(co->gc, v__3520151_37, v__3520155_37);
+Obj v__3520157_37 = makeCons(co->gc, v__3519719_37, v__3520156_37);
+Obj v__3520158_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520157_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518054_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520158_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517605_37);
+coraCall0(co, v__3519709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517605_37);
+coraCall0(co, v__3519709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517605_37);
+coraCall0(co, v__3519709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517605_37);
+coraCall0(co, v__3519709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517605_37);
+coraCall0(co, v__3519709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517605_37);
+coraCall0(co, v__3519709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517605_37);
+coraCall0(co, v__3519709_37);
 return;
 }
 }
@@ -8450,121 +8450,121 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517606_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v__3518001_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518001_37) {
-Obj v__3518002_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517607_37 = v__3518002_37;
-Obj v__3518003_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517608_37 = v__3518003_37;
-R[1] = v__3517607_37;
-R[2] = v__3517608_37;
-R[3] = v__3517606_37;
+Obj v__3519710_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v__3520105_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520105_37) {
+Obj v__3520106_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519711_37 = v__3520106_37;
+Obj v__3520107_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519712_37 = v__3520107_37;
+R[1] = v__3519711_37;
+R[2] = v__3519712_37;
+R[3] = v__3519710_37;
 saveCont(co, clofun15, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v__3517607_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v__3519711_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517606_37);
+coraCall0(co, v__3519710_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518011_37= co->res;
-Obj v__3518009_37 = R[1];
-Obj v__3518012_37 = makeCons(co->gc, v__3518009_37, v__3518011_37);
-coraReturn(co, v__3518012_37);
+Obj v__3520115_37= co->res;
+Obj v__3520113_37 = R[1];
+Obj v__3520116_37 = makeCons(co->gc, v__3520113_37, v__3520115_37);
+coraReturn(co, v__3520116_37);
 return;
 }
 case 2:
 {
-Obj v__3518010_37= co->res;
-Obj v__3517608_37 = R[1];
-Obj v__3518009_37 = R[2];
-R[1] = v__3518009_37;
+Obj v__3520114_37= co->res;
+Obj v__3519712_37 = R[1];
+Obj v__3520113_37 = R[2];
+R[1] = v__3520113_37;
 saveCont(co, clofun15, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518010_37, v__3517608_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520114_37, v__3519712_37);
 return;
 }
 case 3:
 {
-Obj v__3518022_37= co->res;
+Obj v__3520126_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518022_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520126_37);
 return;
 }
 case 4:
 {
-Obj v__3518017_37= co->res;
-Obj v__3517607_37 = R[1];
-Obj v__3517612_37 = R[2];
-Obj v__3517611_37 = R[3];
-Obj v__3517608_37 = R[4];
-Obj v__3518018_37 = makeCons(co->gc, v__3517607_37, v__3518017_37);
-Obj v__3518019_37 = makeCons(co->gc, v__3518018_37, Nil);
-Obj v__3518020_37 = makeCons(co->gc, v__3517612_37, v__3518019_37);
-Obj v__3518021_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518020_37);
+Obj v__3520121_37= co->res;
+Obj v__3519711_37 = R[1];
+Obj v__3519716_37 = R[2];
+Obj v__3519715_37 = R[3];
+Obj v__3519712_37 = R[4];
+Obj v__3520122_37 = makeCons(co->gc, v__3519711_37, v__3520121_37);
+Obj v__3520123_37 = makeCons(co->gc, v__3520122_37, Nil);
+Obj v__3520124_37 = makeCons(co->gc, v__3519716_37, v__3520123_37);
+Obj v__3520125_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520124_37);
 saveCont(co, clofun15, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3517611_37, v__3517608_37, v__3518021_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3519715_37, v__3519712_37, v__3520125_37);
 return;
 }
 case 5:
 {
-Obj v__3518016_37= co->res;
-Obj v__3517607_37 = R[1];
-Obj v__3517611_37 = R[2];
-Obj v__3517608_37 = R[3];
-Obj v__3517612_37 = v__3518016_37;
-R[1] = v__3517607_37;
-R[2] = v__3517612_37;
-R[3] = v__3517611_37;
-R[4] = v__3517608_37;
+Obj v__3520120_37= co->res;
+Obj v__3519711_37 = R[1];
+Obj v__3519715_37 = R[2];
+Obj v__3519712_37 = R[3];
+Obj v__3519716_37 = v__3520120_37;
+R[1] = v__3519711_37;
+R[2] = v__3519716_37;
+R[3] = v__3519715_37;
+R[4] = v__3519712_37;
 saveCont(co, clofun15, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3517611_37, v__3517612_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3519715_37, v__3519716_37);
 return;
 }
 case 6:
 {
-Obj v__3518014_37= co->res;
-Obj v__3517609_37 = R[1];
-Obj v__3517610_37 = R[2];
-Obj v__3517607_37 = R[3];
-Obj v__3517608_37 = R[4];
-Obj v__3517611_37 = v__3518014_37;
-Obj v__3518015_37 = PRIM_SUB(v__3517609_37, v__3517610_37);
-R[1] = v__3517607_37;
-R[2] = v__3517611_37;
-R[3] = v__3517608_37;
+Obj v__3520118_37= co->res;
+Obj v__3519713_37 = R[1];
+Obj v__3519714_37 = R[2];
+Obj v__3519711_37 = R[3];
+Obj v__3519712_37 = R[4];
+Obj v__3519715_37 = v__3520118_37;
+Obj v__3520119_37 = PRIM_SUB(v__3519713_37, v__3519714_37);
+R[1] = v__3519711_37;
+R[2] = v__3519715_37;
+R[3] = v__3519712_37;
 saveCont(co, clofun15, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3518015_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3520119_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3518006_37= co->res;
-Obj v__3517609_37 = R[1];
-Obj v__3517607_37 = R[2];
-Obj v__3517608_37 = R[3];
-Obj v__3517610_37 = v__3518006_37;
-Obj v__3518007_37 = PRIM_EQ(v__3517609_37, v__3517610_37);
-if (True == v__3518007_37) {
-Obj v__3518008_37 = makeCons(co->gc, v__3517607_37, Nil);
-Obj v__3518009_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3518008_37);
-R[1] = v__3517608_37;
-R[2] = v__3518009_37;
+Obj v__3520110_37= co->res;
+Obj v__3519713_37 = R[1];
+Obj v__3519711_37 = R[2];
+Obj v__3519712_37 = R[3];
+Obj v__3519714_37 = v__3520110_37;
+Obj v__3520111_37 = PRIM_EQ(v__3519713_37, v__3519714_37);
+if (True == v__3520111_37) {
+Obj v__3520112_37 = makeCons(co->gc, v__3519711_37, Nil);
+Obj v__3520113_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520112_37);
+R[1] = v__3519712_37;
+R[2] = v__3520113_37;
 saveCont(co, clofun15, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3518013_37 = PRIM_GT(v__3517609_37, v__3517610_37);
-if (True == v__3518013_37) {
-R[1] = v__3517609_37;
-R[2] = v__3517610_37;
-R[3] = v__3517607_37;
-R[4] = v__3517608_37;
+Obj v__3520117_37 = PRIM_GT(v__3519713_37, v__3519714_37);
+if (True == v__3520117_37) {
+R[1] = v__3519713_37;
+R[2] = v__3519714_37;
+R[3] = v__3519711_37;
+R[4] = v__3519712_37;
 saveCont(co, clofun15, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3517610_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3519714_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8575,32 +8575,32 @@ return;
 }
 case 8:
 {
-Obj v__3518005_37= co->res;
-Obj v__3517607_37 = R[1];
-Obj v__3517608_37 = R[2];
-Obj v__3517609_37 = v__3518005_37;
-R[1] = v__3517609_37;
-R[2] = v__3517607_37;
-R[3] = v__3517608_37;
+Obj v__3520109_37= co->res;
+Obj v__3519711_37 = R[1];
+Obj v__3519712_37 = R[2];
+Obj v__3519713_37 = v__3520109_37;
+R[1] = v__3519713_37;
+R[2] = v__3519711_37;
+R[3] = v__3519712_37;
 saveCont(co, clofun15, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3517608_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519712_37);
 return;
 }
 case 9:
 {
-Obj v__3518004_37= co->res;
-Obj v__3517607_37 = R[1];
-Obj v__3517608_37 = R[2];
-Obj v__3517606_37 = R[3];
-if (True == v__3518004_37) {
-R[1] = v__3517607_37;
-R[2] = v__3517608_37;
+Obj v__3520108_37= co->res;
+Obj v__3519711_37 = R[1];
+Obj v__3519712_37 = R[2];
+Obj v__3519710_37 = R[3];
+if (True == v__3520108_37) {
+R[1] = v__3519711_37;
+R[2] = v__3519712_37;
 saveCont(co, clofun15, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517607_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519711_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517606_37);
+coraCall0(co, v__3519710_37);
 return;
 }
 }
@@ -8617,9 +8617,9 @@ return;
 }
 case 1:
 {
-Obj v__3518000_37= co->res;
+Obj v__3520104_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3518000_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520104_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8629,24 +8629,24 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517427_37 = R[1];
-Obj v__3517428_37 = R[2];
-Obj v__3517429_37 = R[3];
-Obj v__3517589_37 = makeNative(co->gc, 3, clofun12, 0, 3, v__3517427_37, v__3517428_37, v__3517429_37);
-Obj v__3517988_37 = PRIM_EQ(Nil, v__3517427_37);
-if (True == v__3517988_37) {
-Obj v__3517989_37 = PRIM_EQ(Nil, v__3517428_37);
-if (True == v__3517989_37) {
-coraReturn(co, v__3517429_37);
+Obj v__3519034_37 = R[1];
+Obj v__3519035_37 = R[2];
+Obj v__3519036_37 = R[3];
+Obj v__3519693_37 = makeNative(co->gc, 3, clofun12, 0, 3, v__3519034_37, v__3519035_37, v__3519036_37);
+Obj v__3520092_37 = PRIM_EQ(Nil, v__3519034_37);
+if (True == v__3520092_37) {
+Obj v__3520093_37 = PRIM_EQ(Nil, v__3519035_37);
+if (True == v__3520093_37) {
+coraReturn(co, v__3519036_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517589_37);
+coraCall0(co, v__3519693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517589_37);
+coraCall0(co, v__3519693_37);
 return;
 }
 }
@@ -8657,45 +8657,45 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517590_37 = makeNative(co->gc, 1, clofun11, 0, 0);
-Obj v__3517977_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517977_37) {
-Obj v__3517978_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517591_37 = v__3517978_37;
-Obj v__3517979_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517592_37 = v__3517979_37;
-Obj v__3517980_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3517980_37) {
-Obj v__3517981_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3517593_37 = v__3517981_37;
-Obj v__3517982_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3517594_37 = v__3517982_37;
-R[1] = v__3517593_37;
-R[2] = v__3517591_37;
+Obj v__3519694_37 = makeNative(co->gc, 1, clofun11, 0, 0);
+Obj v__3520081_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520081_37) {
+Obj v__3520082_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519695_37 = v__3520082_37;
+Obj v__3520083_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519696_37 = v__3520083_37;
+Obj v__3520084_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3520084_37) {
+Obj v__3520085_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519697_37 = v__3520085_37;
+Obj v__3520086_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519698_37 = v__3520086_37;
+R[1] = v__3519697_37;
+R[2] = v__3519695_37;
 saveCont(co, clofun12, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3517592_37, v__3517594_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3519696_37, v__3519698_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517590_37);
+coraCall0(co, v__3519694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517590_37);
+coraCall0(co, v__3519694_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517983_37= co->res;
-Obj v__3517593_37 = R[1];
-Obj v__3517591_37 = R[2];
-Obj v__3517984_37 = makeCons(co->gc, v__3517983_37, Nil);
-Obj v__3517985_37 = makeCons(co->gc, v__3517593_37, v__3517984_37);
-Obj v__3517986_37 = makeCons(co->gc, v__3517591_37, v__3517985_37);
-Obj v__3517987_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3517986_37);
-coraReturn(co, v__3517987_37);
+Obj v__3520087_37= co->res;
+Obj v__3519697_37 = R[1];
+Obj v__3519695_37 = R[2];
+Obj v__3520088_37 = makeCons(co->gc, v__3520087_37, Nil);
+Obj v__3520089_37 = makeCons(co->gc, v__3519697_37, v__3520088_37);
+Obj v__3520090_37 = makeCons(co->gc, v__3519695_37, v__3520089_37);
+Obj v__3520091_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520090_37);
+coraReturn(co, v__3520091_37);
 return;
 }
 }
@@ -8716,18 +8716,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517423_37 = R[1];
-Obj v__3517424_37 = R[2];
-Obj v__3517972_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517423_37);
-if (True == v__3517972_37) {
-coraReturn(co, v__3517424_37);
+Obj v__3519032_37 = R[1];
+Obj v__3519033_37 = R[2];
+Obj v__3520076_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519032_37);
+if (True == v__3520076_37) {
+coraReturn(co, v__3519033_37);
 return;
 } else {
-Obj v__3517973_37 = PRIM_SUB(v__3517423_37, MAKE_NUMBER(1));
-Obj v__3517974_37 = primGenSym(co);
-Obj v__3517975_37 = makeCons(co->gc, v__3517974_37, v__3517424_37);
+Obj v__3520077_37 = PRIM_SUB(v__3519032_37, MAKE_NUMBER(1));
+Obj v__3520078_37 = primGenSym(co);
+Obj v__3520079_37 = makeCons(co->gc, v__3520078_37, v__3519033_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3517973_37, v__3517975_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3520077_37, v__3520079_37);
 return;
 }
 }
@@ -8738,31 +8738,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
+Obj v__3519030_37 = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v_x, globalRef(co, getBinding(co, packageID, 125)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519030_37, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3517970_37= co->res;
-Obj v__3517588_37 = R[1];
-if (True == v__3517970_37) {
+Obj v__3520074_37= co->res;
+Obj v__3519692_37 = R[1];
+if (True == v__3520074_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517588_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519692_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517969_37= co->res;
-Obj v__3517588_37 = v__3517969_37;
-R[1] = v__3517588_37;
+Obj v__3520073_37= co->res;
+Obj v__3519692_37 = v__3520073_37;
+R[1] = v__3519692_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517588_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519692_37);
 return;
 }
 }
@@ -8772,31 +8772,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
+Obj v__3519028_37 = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v_x, globalRef(co, getBinding(co, packageID, 125)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519028_37, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3517967_37= co->res;
-Obj v__3517587_37 = R[1];
-if (True == v__3517967_37) {
+Obj v__3520071_37= co->res;
+Obj v__3519691_37 = R[1];
+if (True == v__3520071_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517587_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519691_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517966_37= co->res;
-Obj v__3517587_37 = v__3517966_37;
-R[1] = v__3517587_37;
+Obj v__3520070_37= co->res;
+Obj v__3519691_37 = v__3520070_37;
+R[1] = v__3519691_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517587_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519691_37);
 return;
 }
 }
@@ -8806,23 +8806,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
+Obj v__3519027_37 = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v_x, globalRef(co, getBinding(co, packageID, 125)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519027_37, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3517963_37= co->res;
-Obj v__3517964_37 = primNot(v__3517963_37);
-coraReturn(co, v__3517964_37);
+Obj v__3520067_37= co->res;
+Obj v__3520068_37 = primNot(v__3520067_37);
+coraReturn(co, v__3520068_37);
 return;
 }
 case 2:
 {
-Obj v__3517962_37= co->res;
+Obj v__3520066_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3517962_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3520066_37);
 return;
 }
 }
@@ -8832,23 +8832,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517419_37 = R[1];
-Obj v__3517420_37 = R[2];
-Obj v__3517886_37 = PRIM_EQ(Nil, v__3517420_37);
-if (True == v__3517886_37) {
+Obj v__3519021_37 = R[1];
+Obj v__3519022_37 = R[2];
+Obj v__3519990_37 = PRIM_EQ(Nil, v__3519022_37);
+if (True == v__3519990_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3517887_37 = PRIM_ISCONS(v__3517420_37);
-if (True == v__3517887_37) {
-Obj v__3517888_37 = PRIM_CAR(v__3517420_37);
-Obj v__3517585_37 = v__3517888_37;
-Obj v__3517889_37 = PRIM_CDR(v__3517420_37);
-Obj v__3517586_37 = v__3517889_37;
-R[1] = v__3517419_37;
-R[2] = v__3517586_37;
+Obj v__3519991_37 = PRIM_ISCONS(v__3519022_37);
+if (True == v__3519991_37) {
+Obj v__3519992_37 = PRIM_CAR(v__3519022_37);
+Obj v__3519689_37 = v__3519992_37;
+Obj v__3519993_37 = PRIM_CDR(v__3519022_37);
+Obj v__3519690_37 = v__3519993_37;
+R[1] = v__3519021_37;
+R[2] = v__3519690_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3517419_37, v__3517585_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3519021_37, v__3519689_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8859,13 +8859,13 @@ return;
 }
 case 1:
 {
-Obj v__3517890_37= co->res;
-Obj v__3517419_37 = R[1];
-Obj v__3517586_37 = R[2];
-Obj v__3517891_37 = PRIM_LT(v__3517890_37, MAKE_NUMBER(0));
-if (True == v__3517891_37) {
+Obj v__3519994_37= co->res;
+Obj v__3519021_37 = R[1];
+Obj v__3519690_37 = R[2];
+Obj v__3519995_37 = PRIM_LT(v__3519994_37, MAKE_NUMBER(0));
+if (True == v__3519995_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3517419_37, v__3517586_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3519021_37, v__3519690_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8879,10 +8879,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v_l = R[2];
+Obj v__3519019_37 = R[1];
+Obj v__3519020_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), MAKE_NUMBER(0), v_x, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), MAKE_NUMBER(0), v__3519019_37, v__3519020_37);
 return;
 }
 }
@@ -8892,32 +8892,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517413_37 = R[1];
-Obj v__3517414_37 = R[2];
-Obj v__3517415_37 = R[3];
-Obj v__3517875_37 = PRIM_EQ(Nil, v__3517415_37);
-if (True == v__3517875_37) {
+Obj v__3519010_37 = R[1];
+Obj v__3519011_37 = R[2];
+Obj v__3519012_37 = R[3];
+Obj v__3519979_37 = PRIM_EQ(Nil, v__3519012_37);
+if (True == v__3519979_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3517582_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517415_37, v__3517413_37, v__3517414_37);
-Obj v__3517880_37 = PRIM_ISCONS(v__3517415_37);
-if (True == v__3517880_37) {
-Obj v__3517881_37 = PRIM_CAR(v__3517415_37);
-Obj v__3517584_37 = v__3517881_37;
-Obj v__3517882_37 = PRIM_CDR(v__3517415_37);
-Obj v__3517883_37 = PRIM_EQ(v__3517414_37, v__3517584_37);
-if (True == v__3517883_37) {
-coraReturn(co, v__3517413_37);
+Obj v__3519686_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3519012_37, v__3519010_37, v__3519011_37);
+Obj v__3519984_37 = PRIM_ISCONS(v__3519012_37);
+if (True == v__3519984_37) {
+Obj v__3519985_37 = PRIM_CAR(v__3519012_37);
+Obj v__3519688_37 = v__3519985_37;
+Obj v__3519986_37 = PRIM_CDR(v__3519012_37);
+Obj v__3519987_37 = PRIM_EQ(v__3519011_37, v__3519688_37);
+if (True == v__3519987_37) {
+coraReturn(co, v__3519010_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517582_37);
+coraCall0(co, v__3519686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517582_37);
+coraCall0(co, v__3519686_37);
 return;
 }
 }
@@ -8929,14 +8929,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517876_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517876_37) {
-Obj v__3517877_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517878_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517583_37 = v__3517878_37;
-Obj v__3517879_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3519980_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519980_37) {
+Obj v__3519981_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519982_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519687_37 = v__3519982_37;
+Obj v__3519983_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v__3517879_37, closureRef(R[0], 2), v__3517583_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v__3519983_37, closureRef(R[0], 2), v__3519687_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8951,24 +8951,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517408_37 = R[1];
-Obj v__3517409_37 = R[2];
-Obj v__3517410_37 = R[3];
-Obj v__3517869_37 = PRIM_EQ(Nil, v__3517410_37);
-if (True == v__3517869_37) {
-coraReturn(co, v__3517409_37);
+Obj v__3519003_37 = R[1];
+Obj v__3519004_37 = R[2];
+Obj v__3519005_37 = R[3];
+Obj v__3519973_37 = PRIM_EQ(Nil, v__3519005_37);
+if (True == v__3519973_37) {
+coraReturn(co, v__3519004_37);
 return;
 } else {
-Obj v__3517870_37 = PRIM_ISCONS(v__3517410_37);
-if (True == v__3517870_37) {
-Obj v__3517871_37 = PRIM_CAR(v__3517410_37);
-Obj v__3517580_37 = v__3517871_37;
-Obj v__3517872_37 = PRIM_CDR(v__3517410_37);
-Obj v__3517581_37 = v__3517872_37;
-R[1] = v__3517408_37;
-R[2] = v__3517581_37;
+Obj v__3519974_37 = PRIM_ISCONS(v__3519005_37);
+if (True == v__3519974_37) {
+Obj v__3519975_37 = PRIM_CAR(v__3519005_37);
+Obj v__3519684_37 = v__3519975_37;
+Obj v__3519976_37 = PRIM_CDR(v__3519005_37);
+Obj v__3519685_37 = v__3519976_37;
+R[1] = v__3519003_37;
+R[2] = v__3519685_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v__3517408_37, v__3517409_37, v__3517580_37);
+coraCall2(co, v__3519003_37, v__3519004_37, v__3519684_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8979,11 +8979,11 @@ return;
 }
 case 1:
 {
-Obj v__3517873_37= co->res;
-Obj v__3517408_37 = R[1];
-Obj v__3517581_37 = R[2];
+Obj v__3519977_37= co->res;
+Obj v__3519003_37 = R[1];
+Obj v__3519685_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), v__3517408_37, v__3517873_37, v__3517581_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), v__3519003_37, v__3519977_37, v__3519685_37);
 return;
 }
 }
@@ -8993,44 +8993,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517403_37 = R[1];
-Obj v__3517404_37 = R[2];
-Obj v__3517854_37 = PRIM_EQ(Nil, v__3517404_37);
-if (True == v__3517854_37) {
+Obj v__3518993_37 = R[1];
+Obj v__3518994_37 = R[2];
+Obj v__3519958_37 = PRIM_EQ(Nil, v__3518994_37);
+if (True == v__3519958_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517576_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517404_37, v__3517403_37);
-Obj v__3517858_37 = PRIM_ISCONS(v__3517404_37);
-if (True == v__3517858_37) {
-Obj v__3517859_37 = PRIM_CAR(v__3517404_37);
-Obj v__3517860_37 = PRIM_ISCONS(v__3517859_37);
-if (True == v__3517860_37) {
-Obj v__3517861_37 = PRIM_CAR(v__3517404_37);
-Obj v__3517862_37 = PRIM_CAR(v__3517861_37);
-Obj v__3517578_37 = v__3517862_37;
-Obj v__3517863_37 = PRIM_CAR(v__3517404_37);
-Obj v__3517864_37 = PRIM_CDR(v__3517863_37);
-Obj v__3517579_37 = v__3517864_37;
-Obj v__3517865_37 = PRIM_CDR(v__3517404_37);
-Obj v__3517866_37 = PRIM_EQ(v__3517403_37, v__3517578_37);
-if (True == v__3517866_37) {
-Obj v__3517867_37 = makeCons(co->gc, v__3517578_37, v__3517579_37);
-coraReturn(co, v__3517867_37);
+Obj v__3519680_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3518994_37, v__3518993_37);
+Obj v__3519962_37 = PRIM_ISCONS(v__3518994_37);
+if (True == v__3519962_37) {
+Obj v__3519963_37 = PRIM_CAR(v__3518994_37);
+Obj v__3519964_37 = PRIM_ISCONS(v__3519963_37);
+if (True == v__3519964_37) {
+Obj v__3519965_37 = PRIM_CAR(v__3518994_37);
+Obj v__3519966_37 = PRIM_CAR(v__3519965_37);
+Obj v__3519682_37 = v__3519966_37;
+Obj v__3519967_37 = PRIM_CAR(v__3518994_37);
+Obj v__3519968_37 = PRIM_CDR(v__3519967_37);
+Obj v__3519683_37 = v__3519968_37;
+Obj v__3519969_37 = PRIM_CDR(v__3518994_37);
+Obj v__3519970_37 = PRIM_EQ(v__3518993_37, v__3519682_37);
+if (True == v__3519970_37) {
+Obj v__3519971_37 = makeCons(co->gc, v__3519682_37, v__3519683_37);
+coraReturn(co, v__3519971_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517576_37);
+coraCall0(co, v__3519680_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517576_37);
+coraCall0(co, v__3519680_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517576_37);
+coraCall0(co, v__3519680_37);
 return;
 }
 }
@@ -9042,13 +9042,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517855_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517855_37) {
-Obj v__3517856_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517857_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517577_37 = v__3517857_37;
+Obj v__3519959_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519959_37) {
+Obj v__3519960_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519961_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519681_37 = v__3519961_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), closureRef(R[0], 1), v__3517577_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), closureRef(R[0], 1), v__3519681_37);
 return;
 } else {
 co->ctx.sp = R;
-- 
2.43.0


From 3373329365e2e995048d1293798475cd4b88d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 43/63] fix: match evaluates its value once and binds no
 variable of it, and/or keep their operands

---
 init.c    | 4376 +++++++++++++++-------------
 init.cora |   51 +-
 lib/toc.c | 8380 ++++++++++++++++++++++++++---------------------------
 3 files changed, 6555 insertions(+), 6252 deletions(-)

diff --git a/init.c b/init.c
index d039868..2e332fc 100644
--- a/init.c
+++ b/init.c
@@ -2,6 +2,14 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun103(struct Cora* co, int label, Obj *R);
+static void clofun102(struct Cora* co, int label, Obj *R);
+static void clofun101(struct Cora* co, int label, Obj *R);
+static void clofun100(struct Cora* co, int label, Obj *R);
+static void clofun99(struct Cora* co, int label, Obj *R);
+static void clofun98(struct Cora* co, int label, Obj *R);
+static void clofun97(struct Cora* co, int label, Obj *R);
+static void clofun96(struct Cora* co, int label, Obj *R);
 static void clofun95(struct Cora* co, int label, Obj *R);
 static void clofun94(struct Cora* co, int label, Obj *R);
 static void clofun93(struct Cora* co, int label, Obj *R);
@@ -102,7 +110,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 162);
+Binding *__symbolTable = malloc(sizeof(Binding) * 166);
 __symbolTable[0] = bindSymbol(co, intern("cora/init#assq"));
 __symbolTable[1] = bindSymbol(co, intern("cora/init#append"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#filter"));
@@ -212,448 +220,456 @@ __symbolTable[105] = bindSymbol(co, intern("=>"));
 __symbolTable[106] = bindSymbol(co, intern("cora/init#extract-rules1"));
 __symbolTable[107] = bindSymbol(co, intern("match"));
 __symbolTable[108] = bindSymbol(co, intern("cora/init#rewrite-match"));
-__symbolTable[109] = bindSymbol(co, intern("cora/init#match-helper"));
-__symbolTable[110] = bindSymbol(co, intern("where"));
-__symbolTable[111] = bindSymbol(co, intern("cora/init#extract-rule-action"));
-__symbolTable[112] = bindSymbol(co, intern("str"));
-__symbolTable[113] = bindSymbol(co, intern("="));
-__symbolTable[114] = bindSymbol(co, intern("cdr"));
-__symbolTable[115] = bindSymbol(co, intern("car"));
-__symbolTable[116] = bindSymbol(co, intern("cons?"));
-__symbolTable[117] = bindSymbol(co, intern("cora/init#match1"));
-__symbolTable[118] = bindSymbol(co, intern("cora/init#match-cons-expander"));
-__symbolTable[119] = bindSymbol(co, intern("list-rest"));
-__symbolTable[120] = bindSymbol(co, intern("cora/init#rcons1"));
-__symbolTable[121] = bindSymbol(co, intern("boolean?"));
-__symbolTable[122] = bindSymbol(co, intern("and"));
-__symbolTable[123] = bindSymbol(co, intern("cora/init#rewrite-and"));
-__symbolTable[124] = bindSymbol(co, intern("or"));
-__symbolTable[125] = bindSymbol(co, intern("cora/init#rewrite-or"));
-__symbolTable[126] = bindSymbol(co, intern("if"));
-__symbolTable[127] = bindSymbol(co, intern("error"));
-__symbolTable[128] = bindSymbol(co, intern("cond"));
-__symbolTable[129] = bindSymbol(co, intern("let"));
-__symbolTable[130] = bindSymbol(co, intern("cora/init#rewrite-let"));
-__symbolTable[131] = bindSymbol(co, intern("atom?"));
-__symbolTable[132] = bindSymbol(co, intern("elem?"));
-__symbolTable[133] = bindSymbol(co, intern("def"));
-__symbolTable[134] = bindSymbol(co, intern("defun"));
-__symbolTable[135] = bindSymbol(co, intern("list"));
-__symbolTable[136] = bindSymbol(co, intern("defmacro"));
-__symbolTable[137] = bindSymbol(co, intern("defmacro-macro"));
-__symbolTable[138] = bindSymbol(co, intern("macroexpand"));
-__symbolTable[139] = bindSymbol(co, intern("quote"));
-__symbolTable[140] = bindSymbol(co, intern("lambda"));
-__symbolTable[141] = bindSymbol(co, intern("cora/init#macroexpand-boot"));
-__symbolTable[142] = bindSymbol(co, intern("cora/init#macroexpand1"));
-__symbolTable[143] = bindSymbol(co, intern("cora/init#macroexpand1-h"));
-__symbolTable[144] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
-__symbolTable[145] = bindSymbol(co, intern("*protect-symbol*"));
-__symbolTable[146] = bindSymbol(co, intern("*macros*"));
-__symbolTable[147] = bindSymbol(co, intern("map"));
-__symbolTable[148] = bindSymbol(co, intern("map-h"));
-__symbolTable[149] = bindSymbol(co, intern("reverse"));
-__symbolTable[150] = bindSymbol(co, intern("cora/init#reverse-h"));
-__symbolTable[151] = bindSymbol(co, intern("pair?"));
-__symbolTable[152] = bindSymbol(co, intern("cons"));
-__symbolTable[153] = bindSymbol(co, intern("rcons"));
-__symbolTable[154] = bindSymbol(co, intern("cdddr"));
-__symbolTable[155] = bindSymbol(co, intern("cadddr"));
-__symbolTable[156] = bindSymbol(co, intern("caddr"));
-__symbolTable[157] = bindSymbol(co, intern("cddr"));
-__symbolTable[158] = bindSymbol(co, intern("cdar"));
-__symbolTable[159] = bindSymbol(co, intern("caar"));
-__symbolTable[160] = bindSymbol(co, intern("cadr"));
-__symbolTable[161] = bindSymbol(co, intern("null?"));
+__symbolTable[109] = bindSymbol(co, intern("cora/init#match-bind-part"));
+__symbolTable[110] = bindSymbol(co, intern("cora/init#match-bind-parts"));
+__symbolTable[111] = bindSymbol(co, intern("cora/init#in-patterns?"));
+__symbolTable[112] = bindSymbol(co, intern("cora/init#in-pattern?"));
+__symbolTable[113] = bindSymbol(co, intern("cora/init#match-helper"));
+__symbolTable[114] = bindSymbol(co, intern("where"));
+__symbolTable[115] = bindSymbol(co, intern("cora/init#extract-rule-action"));
+__symbolTable[116] = bindSymbol(co, intern("str"));
+__symbolTable[117] = bindSymbol(co, intern("="));
+__symbolTable[118] = bindSymbol(co, intern("cdr"));
+__symbolTable[119] = bindSymbol(co, intern("car"));
+__symbolTable[120] = bindSymbol(co, intern("cons?"));
+__symbolTable[121] = bindSymbol(co, intern("cora/init#match1"));
+__symbolTable[122] = bindSymbol(co, intern("cora/init#match-cons-expander"));
+__symbolTable[123] = bindSymbol(co, intern("list-rest"));
+__symbolTable[124] = bindSymbol(co, intern("cora/init#rcons1"));
+__symbolTable[125] = bindSymbol(co, intern("boolean?"));
+__symbolTable[126] = bindSymbol(co, intern("and"));
+__symbolTable[127] = bindSymbol(co, intern("cora/init#rewrite-and"));
+__symbolTable[128] = bindSymbol(co, intern("or"));
+__symbolTable[129] = bindSymbol(co, intern("cora/init#rewrite-or"));
+__symbolTable[130] = bindSymbol(co, intern("if"));
+__symbolTable[131] = bindSymbol(co, intern("error"));
+__symbolTable[132] = bindSymbol(co, intern("cond"));
+__symbolTable[133] = bindSymbol(co, intern("let"));
+__symbolTable[134] = bindSymbol(co, intern("cora/init#rewrite-let"));
+__symbolTable[135] = bindSymbol(co, intern("atom?"));
+__symbolTable[136] = bindSymbol(co, intern("elem?"));
+__symbolTable[137] = bindSymbol(co, intern("def"));
+__symbolTable[138] = bindSymbol(co, intern("defun"));
+__symbolTable[139] = bindSymbol(co, intern("list"));
+__symbolTable[140] = bindSymbol(co, intern("defmacro"));
+__symbolTable[141] = bindSymbol(co, intern("defmacro-macro"));
+__symbolTable[142] = bindSymbol(co, intern("macroexpand"));
+__symbolTable[143] = bindSymbol(co, intern("quote"));
+__symbolTable[144] = bindSymbol(co, intern("lambda"));
+__symbolTable[145] = bindSymbol(co, intern("cora/init#macroexpand-boot"));
+__symbolTable[146] = bindSymbol(co, intern("cora/init#macroexpand1"));
+__symbolTable[147] = bindSymbol(co, intern("cora/init#macroexpand1-h"));
+__symbolTable[148] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
+__symbolTable[149] = bindSymbol(co, intern("*protect-symbol*"));
+__symbolTable[150] = bindSymbol(co, intern("*macros*"));
+__symbolTable[151] = bindSymbol(co, intern("map"));
+__symbolTable[152] = bindSymbol(co, intern("map-h"));
+__symbolTable[153] = bindSymbol(co, intern("reverse"));
+__symbolTable[154] = bindSymbol(co, intern("cora/init#reverse-h"));
+__symbolTable[155] = bindSymbol(co, intern("pair?"));
+__symbolTable[156] = bindSymbol(co, intern("cons"));
+__symbolTable[157] = bindSymbol(co, intern("rcons"));
+__symbolTable[158] = bindSymbol(co, intern("cdddr"));
+__symbolTable[159] = bindSymbol(co, intern("cadddr"));
+__symbolTable[160] = bindSymbol(co, intern("caddr"));
+__symbolTable[161] = bindSymbol(co, intern("cddr"));
+__symbolTable[162] = bindSymbol(co, intern("cdar"));
+__symbolTable[163] = bindSymbol(co, intern("caar"));
+__symbolTable[164] = bindSymbol(co, intern("cadr"));
+__symbolTable[165] = bindSymbol(co, intern("null?"));
 addPackage(co, packageID, __symbolTable);
-coraCall0(co, makeNative(co->gc, 1, clofun95, 0, 0));
+coraCall0(co, makeNative(co->gc, 1, clofun103, 0, 0));
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514688_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v__3514691_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v__3514694_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v__3514697_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v__3514700_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v__3514704_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v__3514709_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v__3514713_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3514721_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3514723_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3514728_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
-saveCont(co, clofun95, 15, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
+Obj v__3514699_37 = primSet(co, getBinding(co, packageID, 165).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3514702_37 = primSet(co, getBinding(co, packageID, 164).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3514705_37 = primSet(co, getBinding(co, packageID, 163).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3514708_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3514711_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3514715_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3514720_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3514724_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3514732_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3514734_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3514739_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 3, clofun10, 2, 0));
+saveCont(co, clofun103, 15, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), Nil);
 return;
 }
 case 1:
 {
-Obj v__3515208_37= co->res;
-Obj v__3515214_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v__3515226_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v__3515227_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3515228_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515227_37);
-Obj v__3515229_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515228_37);
-Obj v__3515230_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3515231_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515230_37);
-Obj v__3515232_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515231_37);
-Obj v__3515233_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3515234_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515233_37);
-Obj v__3515235_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515234_37);
-Obj v__3515236_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3515237_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515236_37);
-Obj v__3515238_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3515237_37);
-Obj v__3515239_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3515240_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515239_37);
-Obj v__3515241_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515240_37);
-Obj v__3515242_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3515243_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515242_37);
-Obj v__3515244_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3515243_37);
-Obj v__3515245_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3515246_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515245_37);
-Obj v__3515247_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3515246_37);
-Obj v__3515248_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3515249_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515248_37);
-Obj v__3515250_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3515249_37);
-Obj v__3515251_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3515252_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515251_37);
-Obj v__3515253_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3515252_37);
-Obj v__3515254_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3515255_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515254_37);
-Obj v__3515256_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3515255_37);
-Obj v__3515257_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3515258_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515257_37);
-Obj v__3515259_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3515258_37);
-Obj v__3515260_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3515261_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515260_37);
-Obj v__3515262_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3515261_37);
-Obj v__3515263_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3515264_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3515263_37);
-Obj v__3515265_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3515264_37);
-Obj v__3515266_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3515267_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515266_37);
-Obj v__3515268_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3515267_37);
-Obj v__3515269_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3515270_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515269_37);
-Obj v__3515271_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3515270_37);
-Obj v__3515272_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3515273_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515272_37);
-Obj v__3515274_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3515273_37);
-Obj v__3515275_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3515276_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515275_37);
-Obj v__3515277_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3515276_37);
-Obj v__3515278_37 = makeCons(co->gc, v__3515277_37, Nil);
-Obj v__3515279_37 = makeCons(co->gc, v__3515274_37, v__3515278_37);
-Obj v__3515280_37 = makeCons(co->gc, v__3515271_37, v__3515279_37);
-Obj v__3515281_37 = makeCons(co->gc, v__3515268_37, v__3515280_37);
-Obj v__3515282_37 = makeCons(co->gc, v__3515265_37, v__3515281_37);
-Obj v__3515283_37 = makeCons(co->gc, v__3515262_37, v__3515282_37);
-Obj v__3515284_37 = makeCons(co->gc, v__3515259_37, v__3515283_37);
-Obj v__3515285_37 = makeCons(co->gc, v__3515256_37, v__3515284_37);
-Obj v__3515286_37 = makeCons(co->gc, v__3515253_37, v__3515285_37);
-Obj v__3515287_37 = makeCons(co->gc, v__3515250_37, v__3515286_37);
-Obj v__3515288_37 = makeCons(co->gc, v__3515247_37, v__3515287_37);
-Obj v__3515289_37 = makeCons(co->gc, v__3515244_37, v__3515288_37);
-Obj v__3515290_37 = makeCons(co->gc, v__3515241_37, v__3515289_37);
-Obj v__3515291_37 = makeCons(co->gc, v__3515238_37, v__3515290_37);
-Obj v__3515292_37 = makeCons(co->gc, v__3515235_37, v__3515291_37);
-Obj v__3515293_37 = makeCons(co->gc, v__3515232_37, v__3515292_37);
-Obj v__3515294_37 = makeCons(co->gc, v__3515229_37, v__3515293_37);
-Obj v__3515295_37 = primSet(co, getBinding(co, packageID, 69).name, v__3515294_37);
-Obj v__3515310_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v__3515314_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v__3515492_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v__3515493_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v__3515494_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3515493_37);
-Obj v__3515495_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3515494_37);
-Obj v__3515496_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3515495_37);
-Obj v__3515497_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3515496_37);
-Obj v__3515498_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3515497_37);
-Obj v__3515499_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3515498_37);
-Obj v__3515500_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3515499_37);
-Obj v__3515501_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3515500_37);
-Obj v__3515502_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3515501_37);
-Obj v__3515503_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515502_37);
-Obj v__3515504_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3515503_37);
-Obj v__3515505_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3515504_37);
-Obj v__3515506_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3515505_37);
-Obj v__3515507_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3515506_37);
-Obj v__3515508_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3515507_37);
-Obj v__3515509_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3515508_37);
-Obj v__3515510_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3515509_37);
-Obj v__3515511_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3515510_37);
-Obj v__3515512_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3515511_37);
-Obj v__3515513_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3515512_37);
-Obj v__3515514_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3515513_37);
-Obj v__3515515_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3515514_37);
-Obj v__3515516_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3515515_37);
-Obj v__3515517_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3515516_37);
-Obj v__3515518_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3515517_37);
-Obj v__3515519_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3515518_37);
-Obj v__3515520_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3515519_37);
-Obj v__3515521_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3515520_37);
-Obj v__3515522_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3515521_37);
-Obj v__3515523_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3515522_37);
-Obj v__3515524_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3515523_37);
-Obj v__3515525_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3515524_37);
-Obj v__3515526_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3515525_37);
-Obj v__3515527_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3515526_37);
-Obj v__3515528_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3515527_37);
-Obj v__3515529_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3515528_37);
-Obj v__3515530_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3515529_37);
-Obj v__3515531_37 = primSet(co, getBinding(co, packageID, 53).name, v__3515530_37);
-Obj v__3515532_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v__3515533_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v__3515534_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v__3515535_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v__3515536_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v__3515537_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v__3515538_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v__3515539_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v__3515540_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v__3515541_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v__3515542_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v__3515543_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v__3515544_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v__3515545_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v__3515546_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v__3515547_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v__3515548_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v__3515549_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v__3515550_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v__3515551_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v__3515552_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v__3515553_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v__3515554_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v__3515555_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v__3515556_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v__3515557_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v__3515558_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v__3515559_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v__3515560_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v__3515561_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v__3515562_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v__3515563_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v__3515564_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v__3515565_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v__3515566_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v__3515567_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v__3515568_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v__3515569_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v__3515570_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v__3515570_37);
+Obj v__3515240_37= co->res;
+Obj v__3515246_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun88, 2, 0));
+Obj v__3515258_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun89, 3, 0));
+Obj v__3515259_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3515260_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515259_37);
+Obj v__3515261_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515260_37);
+Obj v__3515262_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3515263_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515262_37);
+Obj v__3515264_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3515263_37);
+Obj v__3515265_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3515266_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515265_37);
+Obj v__3515267_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3515266_37);
+Obj v__3515268_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3515269_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515268_37);
+Obj v__3515270_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3515269_37);
+Obj v__3515271_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3515272_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515271_37);
+Obj v__3515273_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3515272_37);
+Obj v__3515274_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3515275_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515274_37);
+Obj v__3515276_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3515275_37);
+Obj v__3515277_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3515278_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515277_37);
+Obj v__3515279_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3515278_37);
+Obj v__3515280_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3515281_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515280_37);
+Obj v__3515282_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3515281_37);
+Obj v__3515283_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3515284_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515283_37);
+Obj v__3515285_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3515284_37);
+Obj v__3515286_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3515287_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515286_37);
+Obj v__3515288_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515287_37);
+Obj v__3515289_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3515290_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515289_37);
+Obj v__3515291_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3515290_37);
+Obj v__3515292_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3515293_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515292_37);
+Obj v__3515294_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3515293_37);
+Obj v__3515295_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3515296_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3515295_37);
+Obj v__3515297_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3515296_37);
+Obj v__3515298_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3515299_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515298_37);
+Obj v__3515300_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3515299_37);
+Obj v__3515301_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3515302_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515301_37);
+Obj v__3515303_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3515302_37);
+Obj v__3515304_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3515305_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515304_37);
+Obj v__3515306_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3515305_37);
+Obj v__3515307_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3515308_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515307_37);
+Obj v__3515309_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3515308_37);
+Obj v__3515310_37 = makeCons(co->gc, v__3515309_37, Nil);
+Obj v__3515311_37 = makeCons(co->gc, v__3515306_37, v__3515310_37);
+Obj v__3515312_37 = makeCons(co->gc, v__3515303_37, v__3515311_37);
+Obj v__3515313_37 = makeCons(co->gc, v__3515300_37, v__3515312_37);
+Obj v__3515314_37 = makeCons(co->gc, v__3515297_37, v__3515313_37);
+Obj v__3515315_37 = makeCons(co->gc, v__3515294_37, v__3515314_37);
+Obj v__3515316_37 = makeCons(co->gc, v__3515291_37, v__3515315_37);
+Obj v__3515317_37 = makeCons(co->gc, v__3515288_37, v__3515316_37);
+Obj v__3515318_37 = makeCons(co->gc, v__3515285_37, v__3515317_37);
+Obj v__3515319_37 = makeCons(co->gc, v__3515282_37, v__3515318_37);
+Obj v__3515320_37 = makeCons(co->gc, v__3515279_37, v__3515319_37);
+Obj v__3515321_37 = makeCons(co->gc, v__3515276_37, v__3515320_37);
+Obj v__3515322_37 = makeCons(co->gc, v__3515273_37, v__3515321_37);
+Obj v__3515323_37 = makeCons(co->gc, v__3515270_37, v__3515322_37);
+Obj v__3515324_37 = makeCons(co->gc, v__3515267_37, v__3515323_37);
+Obj v__3515325_37 = makeCons(co->gc, v__3515264_37, v__3515324_37);
+Obj v__3515326_37 = makeCons(co->gc, v__3515261_37, v__3515325_37);
+Obj v__3515327_37 = primSet(co, getBinding(co, packageID, 69).name, v__3515326_37);
+Obj v__3515342_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun91, 2, 0));
+Obj v__3515346_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun92, 1, 0));
+Obj v__3515524_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun102, 4, 0));
+Obj v__3515525_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3515526_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3515525_37);
+Obj v__3515527_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3515526_37);
+Obj v__3515528_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515527_37);
+Obj v__3515529_37 = makeCons(co->gc, getBinding(co, packageID, 142).name, v__3515528_37);
+Obj v__3515530_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3515529_37);
+Obj v__3515531_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515530_37);
+Obj v__3515532_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3515531_37);
+Obj v__3515533_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3515532_37);
+Obj v__3515534_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3515533_37);
+Obj v__3515535_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515534_37);
+Obj v__3515536_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3515535_37);
+Obj v__3515537_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3515536_37);
+Obj v__3515538_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3515537_37);
+Obj v__3515539_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3515538_37);
+Obj v__3515540_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3515539_37);
+Obj v__3515541_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3515540_37);
+Obj v__3515542_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3515541_37);
+Obj v__3515543_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3515542_37);
+Obj v__3515544_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3515543_37);
+Obj v__3515545_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3515544_37);
+Obj v__3515546_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3515545_37);
+Obj v__3515547_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3515546_37);
+Obj v__3515548_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3515547_37);
+Obj v__3515549_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3515548_37);
+Obj v__3515550_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3515549_37);
+Obj v__3515551_37 = makeCons(co->gc, getBinding(co, packageID, 165).name, v__3515550_37);
+Obj v__3515552_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3515551_37);
+Obj v__3515553_37 = makeCons(co->gc, getBinding(co, packageID, 125).name, v__3515552_37);
+Obj v__3515554_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515553_37);
+Obj v__3515555_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3515554_37);
+Obj v__3515556_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3515555_37);
+Obj v__3515557_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3515556_37);
+Obj v__3515558_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3515557_37);
+Obj v__3515559_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3515558_37);
+Obj v__3515560_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, v__3515559_37);
+Obj v__3515561_37 = makeCons(co->gc, getBinding(co, packageID, 163).name, v__3515560_37);
+Obj v__3515562_37 = makeCons(co->gc, getBinding(co, packageID, 164).name, v__3515561_37);
+Obj v__3515563_37 = primSet(co, getBinding(co, packageID, 53).name, v__3515562_37);
+Obj v__3515564_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 164)));
+Obj v__3515565_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 163)));
+Obj v__3515566_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj v__3515567_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3515568_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3515569_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3515570_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3515571_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3515572_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 135)));
+Obj v__3515573_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 125)));
+Obj v__3515574_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 165)));
+Obj v__3515575_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3515576_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3515577_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3515578_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3515579_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3515580_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3515581_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3515582_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3515583_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3515584_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3515585_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3515586_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3515587_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3515588_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3515589_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3515590_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3515591_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3515592_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3515593_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3515594_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3515595_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 153)));
+Obj v__3515596_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v__3515597_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj v__3515598_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 136)));
+Obj v__3515599_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3515600_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3515601_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3515602_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3515602_37);
 return;
 }
 case 2:
 {
-Obj v__3515158_37= co->res;
-Obj v__3515187_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v__3515188_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
+Obj v__3515190_37= co->res;
+Obj v__3515219_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun83, 4, 0));
+Obj v__3515220_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun84, 2, 0));
+saveCont(co, clofun103, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun87, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3515141_37= co->res;
-Obj v__3515155_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
-saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
+Obj v__3515173_37= co->res;
+Obj v__3515187_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun79, 2, 0));
+saveCont(co, clofun103, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun80, 1, 0));
 return;
 }
 case 4:
 {
-Obj v__3515119_37= co->res;
-Obj v__3515139_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
-saveCont(co, clofun95, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
+Obj v__3515151_37= co->res;
+Obj v__3515171_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun77, 1, 0));
+saveCont(co, clofun103, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun78, 1, 0));
 return;
 }
 case 5:
 {
-Obj v__3515088_37= co->res;
-Obj v__3515089_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v__3515090_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v__3515093_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v__3515117_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
-saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
+Obj v__3515120_37= co->res;
+Obj v__3515121_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v__3515122_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun70, 1, 0));
+Obj v__3515125_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun71, 1, 0));
+Obj v__3515149_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun74, 1, 0));
+saveCont(co, clofun103, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun75, 1, 0));
 return;
 }
 case 6:
 {
-Obj v__3514980_37= co->res;
-Obj v__3515032_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v__3515033_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v__3515038_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v__3515042_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v__3515043_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v__3515051_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v__3515052_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v__3515058_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3515069_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v__3515075_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
-saveCont(co, clofun95, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
+Obj v__3515012_37= co->res;
+Obj v__3515064_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun56, 3, 0));
+Obj v__3515065_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun57, 1, 0));
+Obj v__3515070_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun58, 2, 0));
+Obj v__3515074_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun59, 2, 0));
+Obj v__3515075_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun60, 1, 0));
+Obj v__3515083_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun61, 3, 0));
+Obj v__3515084_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj v__3515090_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun63, 2, 0));
+Obj v__3515101_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3515107_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun67, 1, 0));
+saveCont(co, clofun103, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun68, 1, 0));
 return;
 }
 case 7:
 {
-Obj v__3514875_37= co->res;
-Obj v__3514897_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v__3514930_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v__3514943_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v__3514965_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v__3514979_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
-saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj v__3514884_37= co->res;
+Obj v__3514906_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3514939_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3514952_37 = primSet(co, getBinding(co, packageID, 115).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3514974_37 = primSet(co, getBinding(co, packageID, 113).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3514981_37 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun43, 2, 0));
+Obj v__3514987_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 4, clofun45, 2, 0));
+Obj v__3515000_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 4, clofun49, 3, 0));
+Obj v__3515007_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v__3515011_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun52, 1, 0));
+saveCont(co, clofun103, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun53, 1, 0));
 return;
 }
 case 8:
 {
-Obj v__3514860_37= co->res;
-Obj v__3514863_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3514873_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
-saveCont(co, clofun95, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
+Obj v__3514869_37= co->res;
+Obj v__3514872_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3514882_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun33, 1, 0));
+saveCont(co, clofun103, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v__3514846_37= co->res;
-Obj v__3514858_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
-saveCont(co, clofun95, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj v__3514856_37= co->res;
+Obj v__3514867_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 2, clofun30, 1, 0));
+saveCont(co, clofun103, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v__3514832_37= co->res;
-Obj v__3514844_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
-saveCont(co, clofun95, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
+Obj v__3514843_37= co->res;
+Obj v__3514854_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun28, 1, 0));
+saveCont(co, clofun103, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 128).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v__3514818_37= co->res;
-saveCont(co, clofun95, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
+Obj v__3514829_37= co->res;
+saveCont(co, clofun103, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v__3514796_37= co->res;
-Obj v__3514801_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v__3514804_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v__3514816_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
-saveCont(co, clofun95, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
+Obj v__3514807_37= co->res;
+Obj v__3514812_37 = primSet(co, getBinding(co, packageID, 136).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3514815_37 = primSet(co, getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3514827_37 = primSet(co, getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun25, 1, 0));
+saveCont(co, clofun103, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 133).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v__3514786_37= co->res;
-saveCont(co, clofun95, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
+Obj v__3514797_37= co->res;
+saveCont(co, clofun103, 12, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v__3514784_37= co->res;
-saveCont(co, clofun95, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
+Obj v__3514795_37= co->res;
+saveCont(co, clofun103, 13, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v__3514729_37= co->res;
-Obj v__3514730_37 = primSet(co, getBinding(co, packageID, 149).name, v__3514729_37);
-Obj v__3514736_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v__3514737_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v__3514738_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v__3514739_37 = primGenSym(co);
-Obj v__3514740_37 = primSet(co, getBinding(co, packageID, 145).name, v__3514739_37);
-Obj v__3514744_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v__3514753_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v__3514754_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v__3514771_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v__3514772_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v__3514783_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
-saveCont(co, clofun95, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
+Obj v__3514740_37= co->res;
+Obj v__3514741_37 = primSet(co, getBinding(co, packageID, 153).name, v__3514740_37);
+Obj v__3514747_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3514748_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3514749_37 = primSet(co, getBinding(co, packageID, 150).name, Nil);
+Obj v__3514750_37 = primGenSym(co);
+Obj v__3514751_37 = primSet(co, getBinding(co, packageID, 149).name, v__3514750_37);
+Obj v__3514755_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3514764_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3514765_37 = primSet(co, getBinding(co, packageID, 146).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3514782_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3514783_37 = primSet(co, getBinding(co, packageID, 142).name, globalRef(co, getBinding(co, packageID, 145)));
+Obj v__3514794_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 3, clofun20, 1, 0));
+saveCont(co, clofun103, 14, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), getBinding(co, packageID, 140).name, globalRef(co, getBinding(co, packageID, 141)));
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514514_37 = R[1];
-Obj v__3514515_37 = R[2];
-Obj v__3514516_37 = R[3];
-Obj v__3514517_37 = R[4];
-Obj v__3514660_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3514514_37, v__3514515_37, v__3514516_37, v__3514517_37);
-R[1] = v__3514517_37;
-R[2] = v__3514660_37;
-saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3514517_37);
+Obj v__3514524_37 = R[1];
+Obj v__3514525_37 = R[2];
+Obj v__3514526_37 = R[3];
+Obj v__3514527_37 = R[4];
+Obj v__3514671_37 = makeNative(co->gc, 2, clofun101, 1, 4, v__3514524_37, v__3514525_37, v__3514526_37, v__3514527_37);
+R[1] = v__3514527_37;
+R[2] = v__3514671_37;
+saveCont(co, clofun102, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3514527_37);
 return;
 }
 case 1:
 {
-Obj v__3515491_37= co->res;
-Obj v__3514660_37 = R[1];
-if (True == v__3515491_37) {
+Obj v__3515523_37= co->res;
+Obj v__3514671_37 = R[1];
+if (True == v__3515523_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514660_37, True);
+coraCall1(co, v__3514671_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514660_37, False);
+coraCall1(co, v__3514671_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3515490_37= co->res;
-Obj v__3514517_37 = R[1];
-Obj v__3514660_37 = R[2];
-if (True == v__3515490_37) {
+Obj v__3515522_37= co->res;
+Obj v__3514527_37 = R[1];
+Obj v__3514671_37 = R[2];
+if (True == v__3515522_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514660_37, True);
+coraCall1(co, v__3514671_37, True);
 return;
 } else {
-R[1] = v__3514660_37;
-saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514517_37);
+R[1] = v__3514671_37;
+saveCont(co, clofun102, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 165)), v__3514527_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3515488_37= co->res;
-Obj v__3514517_37 = R[1];
-Obj v__3514660_37 = R[2];
-if (True == v__3515488_37) {
+Obj v__3515520_37= co->res;
+Obj v__3514527_37 = R[1];
+Obj v__3514671_37 = R[2];
+if (True == v__3515520_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514660_37, True);
+coraCall1(co, v__3514671_37, True);
 return;
 } else {
-Obj v__3515489_37 = primIsString(v__3514517_37);
-if (True == v__3515489_37) {
+Obj v__3515521_37 = primIsString(v__3514527_37);
+if (True == v__3515521_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514660_37, True);
+coraCall1(co, v__3514671_37, True);
 return;
 } else {
-R[1] = v__3514517_37;
-R[2] = v__3514660_37;
-saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3514517_37);
+R[1] = v__3514527_37;
+R[2] = v__3514671_37;
+saveCont(co, clofun102, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3514527_37);
 return;
 }
 }
@@ -661,53 +677,53 @@ return;
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514659_37 = R[1];
-if (True == v__3514659_37) {
+Obj v__3514670_37 = R[1];
+if (True == v__3514670_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v__3514661_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3515476_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3515476_37) {
-Obj v__3515477_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3515478_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3515477_37);
-if (True == v__3515478_37) {
-Obj v__3515479_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515480_37 = PRIM_ISCONS(v__3515479_37);
-if (True == v__3515480_37) {
-Obj v__3515481_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515482_37 = PRIM_CAR(v__3515481_37);
-Obj v__3514686_37 = v__3515482_37;
-Obj v__3515483_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515484_37 = PRIM_CDR(v__3515483_37);
-Obj v__3515485_37 = PRIM_EQ(Nil, v__3515484_37);
-if (True == v__3515485_37) {
-Obj v__3515486_37 = makeCons(co->gc, v__3514686_37, Nil);
-Obj v__3515487_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515486_37);
-coraReturn(co, v__3515487_37);
+Obj v__3514672_37 = makeNative(co->gc, 3, clofun100, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515508_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3515508_37) {
+Obj v__3515509_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3515510_37 = PRIM_EQ(getBinding(co, packageID, 143).name, v__3515509_37);
+if (True == v__3515510_37) {
+Obj v__3515511_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515512_37 = PRIM_ISCONS(v__3515511_37);
+if (True == v__3515512_37) {
+Obj v__3515513_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515514_37 = PRIM_CAR(v__3515513_37);
+Obj v__3514697_37 = v__3515514_37;
+Obj v__3515515_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515516_37 = PRIM_CDR(v__3515515_37);
+Obj v__3515517_37 = PRIM_EQ(Nil, v__3515516_37);
+if (True == v__3515517_37) {
+Obj v__3515518_37 = makeCons(co->gc, v__3514697_37, Nil);
+Obj v__3515519_37 = makeCons(co->gc, getBinding(co, packageID, 143).name, v__3515518_37);
+coraReturn(co, v__3515519_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514661_37);
+coraCall0(co, v__3514672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514661_37);
+coraCall0(co, v__3514672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514661_37);
+coraCall0(co, v__3514672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514661_37);
+coraCall0(co, v__3514672_37);
 return;
 }
 }
@@ -715,77 +731,77 @@ return;
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515315_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3515315_37) {
-saveCont(co, clofun92, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj v__3514662_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515454_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515454_37) {
-Obj v__3515455_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515456_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3515455_37);
-if (True == v__3515456_37) {
-Obj v__3515457_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515458_37 = PRIM_ISCONS(v__3515457_37);
-if (True == v__3515458_37) {
-Obj v__3515459_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515460_37 = PRIM_CAR(v__3515459_37);
-Obj v__3514684_37 = v__3515460_37;
-Obj v__3515461_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515462_37 = PRIM_CDR(v__3515461_37);
-Obj v__3515463_37 = PRIM_ISCONS(v__3515462_37);
-if (True == v__3515463_37) {
-Obj v__3515464_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515465_37 = PRIM_CDR(v__3515464_37);
-Obj v__3515466_37 = PRIM_CAR(v__3515465_37);
-Obj v__3514685_37 = v__3515466_37;
-Obj v__3515467_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515468_37 = PRIM_CDR(v__3515467_37);
-Obj v__3515469_37 = PRIM_CDR(v__3515468_37);
-Obj v__3515470_37 = PRIM_EQ(Nil, v__3515469_37);
-if (True == v__3515470_37) {
-R[1] = v__3514685_37;
-R[2] = v__3514684_37;
-saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3514684_37, closureRef(R[0], 1));
+Obj v__3515347_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3515347_37) {
+saveCont(co, clofun100, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 136)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj v__3514673_37 = makeNative(co->gc, 3, clofun99, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515486_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515486_37) {
+Obj v__3515487_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515488_37 = PRIM_EQ(getBinding(co, packageID, 144).name, v__3515487_37);
+if (True == v__3515488_37) {
+Obj v__3515489_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515490_37 = PRIM_ISCONS(v__3515489_37);
+if (True == v__3515490_37) {
+Obj v__3515491_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515492_37 = PRIM_CAR(v__3515491_37);
+Obj v__3514695_37 = v__3515492_37;
+Obj v__3515493_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515494_37 = PRIM_CDR(v__3515493_37);
+Obj v__3515495_37 = PRIM_ISCONS(v__3515494_37);
+if (True == v__3515495_37) {
+Obj v__3515496_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515497_37 = PRIM_CDR(v__3515496_37);
+Obj v__3515498_37 = PRIM_CAR(v__3515497_37);
+Obj v__3514696_37 = v__3515498_37;
+Obj v__3515499_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515500_37 = PRIM_CDR(v__3515499_37);
+Obj v__3515501_37 = PRIM_CDR(v__3515500_37);
+Obj v__3515502_37 = PRIM_EQ(Nil, v__3515501_37);
+if (True == v__3515502_37) {
+R[1] = v__3514696_37;
+R[2] = v__3514695_37;
+saveCont(co, clofun100, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3514695_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514662_37);
+coraCall0(co, v__3514673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514662_37);
+coraCall0(co, v__3514673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514662_37);
+coraCall0(co, v__3514673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514662_37);
+coraCall0(co, v__3514673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514662_37);
+coraCall0(co, v__3514673_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3515317_37= co->res;
-if (True == v__3515317_37) {
+Obj v__3515349_37= co->res;
+if (True == v__3515349_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -796,219 +812,219 @@ return;
 }
 case 2:
 {
-Obj v__3515316_37= co->res;
-if (True == v__3515316_37) {
+Obj v__3515348_37= co->res;
+if (True == v__3515348_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun92, 1, R);
+saveCont(co, clofun100, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 55)), closureRef(R[0], 0));
 return;
 }
 }
 case 3:
 {
-Obj v__3515472_37= co->res;
-Obj v__3514684_37 = R[1];
-Obj v__3515473_37 = makeCons(co->gc, v__3515472_37, Nil);
-Obj v__3515474_37 = makeCons(co->gc, v__3514684_37, v__3515473_37);
-Obj v__3515475_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515474_37);
-coraReturn(co, v__3515475_37);
+Obj v__3515504_37= co->res;
+Obj v__3514695_37 = R[1];
+Obj v__3515505_37 = makeCons(co->gc, v__3515504_37, Nil);
+Obj v__3515506_37 = makeCons(co->gc, v__3514695_37, v__3515505_37);
+Obj v__3515507_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3515506_37);
+coraReturn(co, v__3515507_37);
 return;
 }
 case 4:
 {
-Obj v__3515471_37= co->res;
-Obj v__3514685_37 = R[1];
-Obj v__3514684_37 = R[2];
-R[1] = v__3514684_37;
-saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515471_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514685_37);
+Obj v__3515503_37= co->res;
+Obj v__3514696_37 = R[1];
+Obj v__3514695_37 = R[2];
+R[1] = v__3514695_37;
+saveCont(co, clofun100, 3, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515503_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514696_37);
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514663_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515410_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515410_37) {
-Obj v__3515411_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515412_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3515411_37);
-if (True == v__3515412_37) {
-Obj v__3515413_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515414_37 = PRIM_ISCONS(v__3515413_37);
-if (True == v__3515414_37) {
-Obj v__3515415_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515416_37 = PRIM_CAR(v__3515415_37);
-Obj v__3515417_37 = PRIM_ISCONS(v__3515416_37);
-if (True == v__3515417_37) {
-Obj v__3515418_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515419_37 = PRIM_CAR(v__3515418_37);
-Obj v__3515420_37 = PRIM_CAR(v__3515419_37);
-Obj v__3515421_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515420_37);
-if (True == v__3515421_37) {
-Obj v__3515422_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515423_37 = PRIM_CAR(v__3515422_37);
-Obj v__3515424_37 = PRIM_CDR(v__3515423_37);
-Obj v__3515425_37 = PRIM_ISCONS(v__3515424_37);
-if (True == v__3515425_37) {
-Obj v__3515426_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515427_37 = PRIM_CAR(v__3515426_37);
-Obj v__3515428_37 = PRIM_CDR(v__3515427_37);
-Obj v__3515429_37 = PRIM_CAR(v__3515428_37);
-Obj v__3514682_37 = v__3515429_37;
-Obj v__3515430_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515431_37 = PRIM_CAR(v__3515430_37);
-Obj v__3515432_37 = PRIM_CDR(v__3515431_37);
-Obj v__3515433_37 = PRIM_CDR(v__3515432_37);
-Obj v__3515434_37 = PRIM_EQ(Nil, v__3515433_37);
-if (True == v__3515434_37) {
-Obj v__3515435_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515436_37 = PRIM_CDR(v__3515435_37);
-Obj v__3515437_37 = PRIM_ISCONS(v__3515436_37);
-if (True == v__3515437_37) {
-Obj v__3515438_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515439_37 = PRIM_CDR(v__3515438_37);
-Obj v__3515440_37 = PRIM_CAR(v__3515439_37);
-Obj v__3514683_37 = v__3515440_37;
-Obj v__3515441_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515442_37 = PRIM_CDR(v__3515441_37);
-Obj v__3515443_37 = PRIM_CDR(v__3515442_37);
-Obj v__3515444_37 = PRIM_EQ(Nil, v__3515443_37);
+Obj v__3514674_37 = makeNative(co->gc, 1, clofun98, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515442_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515442_37) {
+Obj v__3515443_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515444_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3515443_37);
 if (True == v__3515444_37) {
-Obj v__3515445_37 = primIsString(v__3514682_37);
-if (True == v__3515445_37) {
-Obj v__3515446_37 = makeCons(co->gc, v__3514682_37, Nil);
-Obj v__3515447_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515446_37);
-R[1] = v__3514682_37;
-R[2] = v__3514683_37;
-saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3515447_37);
+Obj v__3515445_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515446_37 = PRIM_ISCONS(v__3515445_37);
+if (True == v__3515446_37) {
+Obj v__3515447_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515448_37 = PRIM_CAR(v__3515447_37);
+Obj v__3515449_37 = PRIM_ISCONS(v__3515448_37);
+if (True == v__3515449_37) {
+Obj v__3515450_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515451_37 = PRIM_CAR(v__3515450_37);
+Obj v__3515452_37 = PRIM_CAR(v__3515451_37);
+Obj v__3515453_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515452_37);
+if (True == v__3515453_37) {
+Obj v__3515454_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515455_37 = PRIM_CAR(v__3515454_37);
+Obj v__3515456_37 = PRIM_CDR(v__3515455_37);
+Obj v__3515457_37 = PRIM_ISCONS(v__3515456_37);
+if (True == v__3515457_37) {
+Obj v__3515458_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515459_37 = PRIM_CAR(v__3515458_37);
+Obj v__3515460_37 = PRIM_CDR(v__3515459_37);
+Obj v__3515461_37 = PRIM_CAR(v__3515460_37);
+Obj v__3514693_37 = v__3515461_37;
+Obj v__3515462_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515463_37 = PRIM_CAR(v__3515462_37);
+Obj v__3515464_37 = PRIM_CDR(v__3515463_37);
+Obj v__3515465_37 = PRIM_CDR(v__3515464_37);
+Obj v__3515466_37 = PRIM_EQ(Nil, v__3515465_37);
+if (True == v__3515466_37) {
+Obj v__3515467_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515468_37 = PRIM_CDR(v__3515467_37);
+Obj v__3515469_37 = PRIM_ISCONS(v__3515468_37);
+if (True == v__3515469_37) {
+Obj v__3515470_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515471_37 = PRIM_CDR(v__3515470_37);
+Obj v__3515472_37 = PRIM_CAR(v__3515471_37);
+Obj v__3514694_37 = v__3515472_37;
+Obj v__3515473_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515474_37 = PRIM_CDR(v__3515473_37);
+Obj v__3515475_37 = PRIM_CDR(v__3515474_37);
+Obj v__3515476_37 = PRIM_EQ(Nil, v__3515475_37);
+if (True == v__3515476_37) {
+Obj v__3515477_37 = primIsString(v__3514693_37);
+if (True == v__3515477_37) {
+Obj v__3515478_37 = makeCons(co->gc, v__3514693_37, Nil);
+Obj v__3515479_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515478_37);
+R[1] = v__3514693_37;
+R[2] = v__3514694_37;
+saveCont(co, clofun99, 2, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3515479_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514663_37);
+coraCall0(co, v__3514674_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515450_37= co->res;
-Obj v__3515448_37 = R[1];
-Obj v__3515451_37 = makeCons(co->gc, v__3515450_37, Nil);
-Obj v__3515452_37 = makeCons(co->gc, v__3515448_37, v__3515451_37);
-Obj v__3515453_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515452_37);
-coraReturn(co, v__3515453_37);
+Obj v__3515482_37= co->res;
+Obj v__3515480_37 = R[1];
+Obj v__3515483_37 = makeCons(co->gc, v__3515482_37, Nil);
+Obj v__3515484_37 = makeCons(co->gc, v__3515480_37, v__3515483_37);
+Obj v__3515485_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515484_37);
+coraReturn(co, v__3515485_37);
 return;
 }
 case 2:
 {
-Obj v__3515448_37= co->res;
-Obj v__3514682_37 = R[1];
-Obj v__3514683_37 = R[2];
-Obj v__3515449_37 = makeCons(co->gc, v__3514682_37, closureRef(R[0], 3));
-R[1] = v__3515448_37;
-saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3515449_37, v__3514683_37);
+Obj v__3515480_37= co->res;
+Obj v__3514693_37 = R[1];
+Obj v__3514694_37 = R[2];
+Obj v__3515481_37 = makeCons(co->gc, v__3514693_37, closureRef(R[0], 3));
+R[1] = v__3515480_37;
+saveCont(co, clofun99, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3515481_37, v__3514694_37);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514664_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515402_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515402_37) {
-Obj v__3515403_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514677_37 = v__3515403_37;
-Obj v__3515404_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514678_37 = v__3515404_37;
-Obj v__3514681_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3514677_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514678_37, v__3514664_37);
-Obj v__3515408_37 = PRIM_EQ(v__3514677_37, getBinding(co, packageID, 126).name);
-if (True == v__3515408_37) {
+Obj v__3514675_37 = makeNative(co->gc, 3, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515434_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515434_37) {
+Obj v__3515435_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514688_37 = v__3515435_37;
+Obj v__3515436_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514689_37 = v__3515436_37;
+Obj v__3514692_37 = makeNative(co->gc, 2, clofun97, 1, 6, v__3514688_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514689_37, v__3514675_37);
+Obj v__3515440_37 = PRIM_EQ(v__3514688_37, getBinding(co, packageID, 130).name);
+if (True == v__3515440_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514681_37, True);
+coraCall1(co, v__3514692_37, True);
 return;
 } else {
-Obj v__3515409_37 = PRIM_EQ(v__3514677_37, getBinding(co, packageID, 90).name);
-if (True == v__3515409_37) {
+Obj v__3515441_37 = PRIM_EQ(v__3514688_37, getBinding(co, packageID, 90).name);
+if (True == v__3515441_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514681_37, True);
+coraCall1(co, v__3514692_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514681_37, False);
+coraCall1(co, v__3514692_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514664_37);
+coraCall0(co, v__3514675_37);
 return;
 }
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514680_37 = R[1];
-if (True == v__3514680_37) {
-saveCont(co, clofun89, 2, R);
+Obj v__3514691_37 = R[1];
+if (True == v__3514691_37) {
+saveCont(co, clofun97, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
@@ -1019,371 +1035,371 @@ return;
 }
 case 1:
 {
-Obj v__3515406_37= co->res;
-Obj v__3515407_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515406_37);
-coraReturn(co, v__3515407_37);
+Obj v__3515438_37= co->res;
+Obj v__3515439_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515438_37);
+coraReturn(co, v__3515439_37);
 return;
 }
 case 2:
 {
-Obj v__3515405_37= co->res;
-saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3515405_37, closureRef(R[0], 4));
+Obj v__3515437_37= co->res;
+saveCont(co, clofun97, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3515437_37, closureRef(R[0], 4));
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514665_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515369_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515369_37) {
-Obj v__3515370_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515371_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3515370_37);
-if (True == v__3515371_37) {
-Obj v__3515372_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515373_37 = PRIM_ISCONS(v__3515372_37);
-if (True == v__3515373_37) {
-Obj v__3515374_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515375_37 = PRIM_CAR(v__3515374_37);
-Obj v__3514674_37 = v__3515375_37;
-Obj v__3515376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515377_37 = PRIM_CDR(v__3515376_37);
-Obj v__3515378_37 = PRIM_ISCONS(v__3515377_37);
-if (True == v__3515378_37) {
-Obj v__3515379_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515380_37 = PRIM_CDR(v__3515379_37);
-Obj v__3515381_37 = PRIM_CAR(v__3515380_37);
-Obj v__3514675_37 = v__3515381_37;
-Obj v__3515382_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515383_37 = PRIM_CDR(v__3515382_37);
-Obj v__3515384_37 = PRIM_CDR(v__3515383_37);
-Obj v__3515385_37 = PRIM_ISCONS(v__3515384_37);
-if (True == v__3515385_37) {
-Obj v__3515386_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515387_37 = PRIM_CDR(v__3515386_37);
-Obj v__3515388_37 = PRIM_CDR(v__3515387_37);
-Obj v__3515389_37 = PRIM_CAR(v__3515388_37);
-Obj v__3514676_37 = v__3515389_37;
-Obj v__3515390_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515391_37 = PRIM_CDR(v__3515390_37);
-Obj v__3515392_37 = PRIM_CDR(v__3515391_37);
-Obj v__3515393_37 = PRIM_CDR(v__3515392_37);
-Obj v__3515394_37 = PRIM_EQ(Nil, v__3515393_37);
-if (True == v__3515394_37) {
-R[1] = v__3514676_37;
-R[2] = v__3514674_37;
-saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514675_37);
+Obj v__3514676_37 = makeNative(co->gc, 1, clofun95, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515401_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515401_37) {
+Obj v__3515402_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515403_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3515402_37);
+if (True == v__3515403_37) {
+Obj v__3515404_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515405_37 = PRIM_ISCONS(v__3515404_37);
+if (True == v__3515405_37) {
+Obj v__3515406_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515407_37 = PRIM_CAR(v__3515406_37);
+Obj v__3514685_37 = v__3515407_37;
+Obj v__3515408_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515409_37 = PRIM_CDR(v__3515408_37);
+Obj v__3515410_37 = PRIM_ISCONS(v__3515409_37);
+if (True == v__3515410_37) {
+Obj v__3515411_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515412_37 = PRIM_CDR(v__3515411_37);
+Obj v__3515413_37 = PRIM_CAR(v__3515412_37);
+Obj v__3514686_37 = v__3515413_37;
+Obj v__3515414_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515415_37 = PRIM_CDR(v__3515414_37);
+Obj v__3515416_37 = PRIM_CDR(v__3515415_37);
+Obj v__3515417_37 = PRIM_ISCONS(v__3515416_37);
+if (True == v__3515417_37) {
+Obj v__3515418_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515419_37 = PRIM_CDR(v__3515418_37);
+Obj v__3515420_37 = PRIM_CDR(v__3515419_37);
+Obj v__3515421_37 = PRIM_CAR(v__3515420_37);
+Obj v__3514687_37 = v__3515421_37;
+Obj v__3515422_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515423_37 = PRIM_CDR(v__3515422_37);
+Obj v__3515424_37 = PRIM_CDR(v__3515423_37);
+Obj v__3515425_37 = PRIM_CDR(v__3515424_37);
+Obj v__3515426_37 = PRIM_EQ(Nil, v__3515425_37);
+if (True == v__3515426_37) {
+R[1] = v__3514687_37;
+R[2] = v__3514685_37;
+saveCont(co, clofun96, 2, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514686_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514665_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514665_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514665_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514665_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514665_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514665_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515397_37= co->res;
-Obj v__3515395_37 = R[1];
-Obj v__3514674_37 = R[2];
-Obj v__3515398_37 = makeCons(co->gc, v__3515397_37, Nil);
-Obj v__3515399_37 = makeCons(co->gc, v__3515395_37, v__3515398_37);
-Obj v__3515400_37 = makeCons(co->gc, v__3514674_37, v__3515399_37);
-Obj v__3515401_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3515400_37);
-coraReturn(co, v__3515401_37);
+Obj v__3515429_37= co->res;
+Obj v__3515427_37 = R[1];
+Obj v__3514685_37 = R[2];
+Obj v__3515430_37 = makeCons(co->gc, v__3515429_37, Nil);
+Obj v__3515431_37 = makeCons(co->gc, v__3515427_37, v__3515430_37);
+Obj v__3515432_37 = makeCons(co->gc, v__3514685_37, v__3515431_37);
+Obj v__3515433_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515432_37);
+coraReturn(co, v__3515433_37);
 return;
 }
 case 2:
 {
-Obj v__3515395_37= co->res;
-Obj v__3514676_37 = R[1];
-Obj v__3514674_37 = R[2];
-Obj v__3515396_37 = makeCons(co->gc, v__3514674_37, closureRef(R[0], 1));
-R[1] = v__3515395_37;
-R[2] = v__3514674_37;
-saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515396_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514676_37);
+Obj v__3515427_37= co->res;
+Obj v__3514687_37 = R[1];
+Obj v__3514685_37 = R[2];
+Obj v__3515428_37 = makeCons(co->gc, v__3514685_37, closureRef(R[0], 1));
+R[1] = v__3515427_37;
+R[2] = v__3514685_37;
+saveCont(co, clofun96, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515428_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514687_37);
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514666_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515343_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3515343_37) {
-Obj v__3515344_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3515345_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3515344_37);
-if (True == v__3515345_37) {
-Obj v__3515346_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515347_37 = PRIM_ISCONS(v__3515346_37);
-if (True == v__3515347_37) {
-Obj v__3515348_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515349_37 = PRIM_CAR(v__3515348_37);
-Obj v__3514671_37 = v__3515349_37;
-Obj v__3515350_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515351_37 = PRIM_CDR(v__3515350_37);
-Obj v__3515352_37 = PRIM_ISCONS(v__3515351_37);
-if (True == v__3515352_37) {
-Obj v__3515353_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515354_37 = PRIM_CDR(v__3515353_37);
-Obj v__3515355_37 = PRIM_CAR(v__3515354_37);
-Obj v__3514672_37 = v__3515355_37;
-Obj v__3515356_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515357_37 = PRIM_CDR(v__3515356_37);
-Obj v__3515358_37 = PRIM_CDR(v__3515357_37);
-Obj v__3515359_37 = PRIM_ISCONS(v__3515358_37);
-if (True == v__3515359_37) {
-Obj v__3515360_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515361_37 = PRIM_CDR(v__3515360_37);
-Obj v__3515362_37 = PRIM_CDR(v__3515361_37);
-Obj v__3515363_37 = PRIM_CAR(v__3515362_37);
-Obj v__3514673_37 = v__3515363_37;
-Obj v__3515364_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515365_37 = PRIM_CDR(v__3515364_37);
-Obj v__3515366_37 = PRIM_CDR(v__3515365_37);
-Obj v__3515367_37 = PRIM_CDR(v__3515366_37);
-Obj v__3515368_37 = PRIM_EQ(Nil, v__3515367_37);
-if (True == v__3515368_37) {
+Obj v__3514677_37 = makeNative(co->gc, 2, clofun94, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515375_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3515375_37) {
+Obj v__3515376_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3515377_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3515376_37);
+if (True == v__3515377_37) {
+Obj v__3515378_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515379_37 = PRIM_ISCONS(v__3515378_37);
+if (True == v__3515379_37) {
+Obj v__3515380_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515381_37 = PRIM_CAR(v__3515380_37);
+Obj v__3514682_37 = v__3515381_37;
+Obj v__3515382_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515383_37 = PRIM_CDR(v__3515382_37);
+Obj v__3515384_37 = PRIM_ISCONS(v__3515383_37);
+if (True == v__3515384_37) {
+Obj v__3515385_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515386_37 = PRIM_CDR(v__3515385_37);
+Obj v__3515387_37 = PRIM_CAR(v__3515386_37);
+Obj v__3514683_37 = v__3515387_37;
+Obj v__3515388_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515389_37 = PRIM_CDR(v__3515388_37);
+Obj v__3515390_37 = PRIM_CDR(v__3515389_37);
+Obj v__3515391_37 = PRIM_ISCONS(v__3515390_37);
+if (True == v__3515391_37) {
+Obj v__3515392_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515393_37 = PRIM_CDR(v__3515392_37);
+Obj v__3515394_37 = PRIM_CDR(v__3515393_37);
+Obj v__3515395_37 = PRIM_CAR(v__3515394_37);
+Obj v__3514684_37 = v__3515395_37;
+Obj v__3515396_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515397_37 = PRIM_CDR(v__3515396_37);
+Obj v__3515398_37 = PRIM_CDR(v__3515397_37);
+Obj v__3515399_37 = PRIM_CDR(v__3515398_37);
+Obj v__3515400_37 = PRIM_EQ(Nil, v__3515399_37);
+if (True == v__3515400_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3514671_37, v__3514672_37, v__3514673_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3514682_37, v__3514683_37, v__3514684_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514666_37);
+coraCall0(co, v__3514677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514666_37);
+coraCall0(co, v__3514677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514666_37);
+coraCall0(co, v__3514677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514666_37);
+coraCall0(co, v__3514677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514666_37);
+coraCall0(co, v__3514677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514666_37);
+coraCall0(co, v__3514677_37);
 return;
 }
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514667_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v__3515319_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515319_37) {
-Obj v__3515320_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515321_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3515320_37);
-if (True == v__3515321_37) {
-Obj v__3515322_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515323_37 = PRIM_ISCONS(v__3515322_37);
-if (True == v__3515323_37) {
-Obj v__3515324_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515325_37 = PRIM_CAR(v__3515324_37);
-Obj v__3514668_37 = v__3515325_37;
-Obj v__3515326_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515327_37 = PRIM_CDR(v__3515326_37);
-Obj v__3515328_37 = PRIM_ISCONS(v__3515327_37);
-if (True == v__3515328_37) {
-Obj v__3515329_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515330_37 = PRIM_CDR(v__3515329_37);
-Obj v__3515331_37 = PRIM_CAR(v__3515330_37);
-Obj v__3514669_37 = v__3515331_37;
-Obj v__3515332_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515333_37 = PRIM_CDR(v__3515332_37);
-Obj v__3515334_37 = PRIM_CDR(v__3515333_37);
-Obj v__3515335_37 = PRIM_EQ(Nil, v__3515334_37);
-if (True == v__3515335_37) {
-R[1] = v__3514669_37;
-saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514668_37, closureRef(R[0], 2));
+Obj v__3514678_37 = makeNative(co->gc, 1, clofun93, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3515351_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515351_37) {
+Obj v__3515352_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515353_37 = PRIM_EQ(getBinding(co, packageID, 137).name, v__3515352_37);
+if (True == v__3515353_37) {
+Obj v__3515354_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515355_37 = PRIM_ISCONS(v__3515354_37);
+if (True == v__3515355_37) {
+Obj v__3515356_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515357_37 = PRIM_CAR(v__3515356_37);
+Obj v__3514679_37 = v__3515357_37;
+Obj v__3515358_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515359_37 = PRIM_CDR(v__3515358_37);
+Obj v__3515360_37 = PRIM_ISCONS(v__3515359_37);
+if (True == v__3515360_37) {
+Obj v__3515361_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515362_37 = PRIM_CDR(v__3515361_37);
+Obj v__3515363_37 = PRIM_CAR(v__3515362_37);
+Obj v__3514680_37 = v__3515363_37;
+Obj v__3515364_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515365_37 = PRIM_CDR(v__3515364_37);
+Obj v__3515366_37 = PRIM_CDR(v__3515365_37);
+Obj v__3515367_37 = PRIM_EQ(Nil, v__3515366_37);
+if (True == v__3515367_37) {
+R[1] = v__3514680_37;
+saveCont(co, clofun94, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514679_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514667_37);
+coraCall0(co, v__3514678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514667_37);
+coraCall0(co, v__3514678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514667_37);
+coraCall0(co, v__3514678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514667_37);
+coraCall0(co, v__3514678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514667_37);
+coraCall0(co, v__3514678_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515339_37= co->res;
-Obj v__3515338_37 = R[1];
-Obj v__3515340_37 = makeCons(co->gc, v__3515339_37, Nil);
-Obj v__3515341_37 = makeCons(co->gc, v__3515338_37, v__3515340_37);
-Obj v__3515342_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515341_37);
-coraReturn(co, v__3515342_37);
+Obj v__3515371_37= co->res;
+Obj v__3515370_37 = R[1];
+Obj v__3515372_37 = makeCons(co->gc, v__3515371_37, Nil);
+Obj v__3515373_37 = makeCons(co->gc, v__3515370_37, v__3515372_37);
+Obj v__3515374_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515373_37);
+coraReturn(co, v__3515374_37);
 return;
 }
 case 2:
 {
-Obj v__3515336_37= co->res;
-Obj v__3514669_37 = R[1];
-Obj v__3514670_37 = v__3515336_37;
-Obj v__3515337_37 = makeCons(co->gc, v__3514670_37, Nil);
-Obj v__3515338_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515337_37);
-R[1] = v__3515338_37;
-saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514669_37);
+Obj v__3515368_37= co->res;
+Obj v__3514680_37 = R[1];
+Obj v__3514681_37 = v__3515368_37;
+Obj v__3515369_37 = makeCons(co->gc, v__3514681_37, Nil);
+Obj v__3515370_37 = makeCons(co->gc, getBinding(co, packageID, 143).name, v__3515369_37);
+R[1] = v__3515370_37;
+saveCont(co, clofun94, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514680_37);
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun85, 1, R);
+saveCont(co, clofun93, 1, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3515318_37= co->res;
+Obj v__3515350_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3515318_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3515350_37, closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514513_37 = R[1];
-saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3514513_37, globalRef(co, getBinding(co, packageID, 69)));
+Obj v__3514523_37 = R[1];
+saveCont(co, clofun92, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3514523_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj v__3515312_37= co->res;
-Obj v__3515313_37 = primNot(v__3515312_37);
-coraReturn(co, v__3515313_37);
+Obj v__3515344_37= co->res;
+Obj v__3515345_37 = primNot(v__3515344_37);
+coraReturn(co, v__3515345_37);
 return;
 }
 case 2:
 {
-Obj v__3515311_37= co->res;
-saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3515311_37);
+Obj v__3515343_37= co->res;
+saveCont(co, clofun92, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 165)), v__3515343_37);
 return;
 }
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514503_37 = R[1];
-Obj v__3514504_37 = R[2];
-Obj v__3515296_37 = PRIM_EQ(Nil, v__3514504_37);
-if (True == v__3515296_37) {
+Obj v__3514513_37 = R[1];
+Obj v__3514514_37 = R[2];
+Obj v__3515328_37 = PRIM_EQ(Nil, v__3514514_37);
+if (True == v__3515328_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3514654_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3514504_37, v__3514503_37);
-Obj v__3515300_37 = PRIM_ISCONS(v__3514504_37);
-if (True == v__3515300_37) {
-Obj v__3515301_37 = PRIM_CAR(v__3514504_37);
-Obj v__3515302_37 = PRIM_ISCONS(v__3515301_37);
-if (True == v__3515302_37) {
-Obj v__3515303_37 = PRIM_CAR(v__3514504_37);
-Obj v__3515304_37 = PRIM_CAR(v__3515303_37);
-Obj v__3514656_37 = v__3515304_37;
-Obj v__3515305_37 = PRIM_CAR(v__3514504_37);
-Obj v__3515306_37 = PRIM_CDR(v__3515305_37);
-Obj v__3514657_37 = v__3515306_37;
-Obj v__3515307_37 = PRIM_CDR(v__3514504_37);
-Obj v__3515308_37 = PRIM_EQ(v__3514503_37, v__3514656_37);
-if (True == v__3515308_37) {
-Obj v__3515309_37 = makeCons(co->gc, v__3514656_37, v__3514657_37);
-coraReturn(co, v__3515309_37);
+Obj v__3514665_37 = makeNative(co->gc, 1, clofun90, 0, 2, v__3514514_37, v__3514513_37);
+Obj v__3515332_37 = PRIM_ISCONS(v__3514514_37);
+if (True == v__3515332_37) {
+Obj v__3515333_37 = PRIM_CAR(v__3514514_37);
+Obj v__3515334_37 = PRIM_ISCONS(v__3515333_37);
+if (True == v__3515334_37) {
+Obj v__3515335_37 = PRIM_CAR(v__3514514_37);
+Obj v__3515336_37 = PRIM_CAR(v__3515335_37);
+Obj v__3514667_37 = v__3515336_37;
+Obj v__3515337_37 = PRIM_CAR(v__3514514_37);
+Obj v__3515338_37 = PRIM_CDR(v__3515337_37);
+Obj v__3514668_37 = v__3515338_37;
+Obj v__3515339_37 = PRIM_CDR(v__3514514_37);
+Obj v__3515340_37 = PRIM_EQ(v__3514513_37, v__3514667_37);
+if (True == v__3515340_37) {
+Obj v__3515341_37 = makeCons(co->gc, v__3514667_37, v__3514668_37);
+coraReturn(co, v__3515341_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514654_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514654_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514654_37);
+coraCall0(co, v__3514665_37);
 return;
 }
 }
@@ -1391,616 +1407,616 @@ return;
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515297_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515297_37) {
-Obj v__3515298_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514655_37 = v__3515299_37;
+Obj v__3515329_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515329_37) {
+Obj v__3515330_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515331_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514666_37 = v__3515331_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3514655_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3514666_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514494_37 = R[1];
-Obj v__3514495_37 = R[2];
-Obj v__3514496_37 = R[3];
-Obj v__3515215_37 = PRIM_EQ(Nil, v__3514496_37);
-if (True == v__3515215_37) {
+Obj v__3514504_37 = R[1];
+Obj v__3514505_37 = R[2];
+Obj v__3514506_37 = R[3];
+Obj v__3515247_37 = PRIM_EQ(Nil, v__3514506_37);
+if (True == v__3515247_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514494_37, v__3514495_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514504_37, v__3514505_37);
 return;
 } else {
-Obj v__3515216_37 = PRIM_ISCONS(v__3514496_37);
-if (True == v__3515216_37) {
-Obj v__3515217_37 = PRIM_CAR(v__3514496_37);
-Obj v__3514651_37 = v__3515217_37;
-Obj v__3515218_37 = PRIM_CDR(v__3514496_37);
-Obj v__3514652_37 = v__3515218_37;
-R[1] = v__3514651_37;
-R[2] = v__3514494_37;
-R[3] = v__3514495_37;
-R[4] = v__3514652_37;
-saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514651_37, makeCString(co->gc, "#*ns-export*"));
+Obj v__3515248_37 = PRIM_ISCONS(v__3514506_37);
+if (True == v__3515248_37) {
+Obj v__3515249_37 = PRIM_CAR(v__3514506_37);
+Obj v__3514662_37 = v__3515249_37;
+Obj v__3515250_37 = PRIM_CDR(v__3514506_37);
+Obj v__3514663_37 = v__3515250_37;
+R[1] = v__3514662_37;
+R[2] = v__3514504_37;
+R[3] = v__3514505_37;
+R[4] = v__3514663_37;
+saveCont(co, clofun89, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514662_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3515225_37= co->res;
+Obj v__3515257_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515225_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515257_37);
 return;
 }
 case 2:
 {
-Obj v__3515224_37= co->res;
-Obj v__3514651_37 = R[1];
-saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514651_37, v__3515224_37);
+Obj v__3515256_37= co->res;
+Obj v__3514662_37 = R[1];
+saveCont(co, clofun89, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514662_37, v__3515256_37);
 return;
 }
 case 3:
 {
-Obj v__3515223_37= co->res;
-Obj v__3514651_37 = R[1];
-R[1] = v__3514651_37;
-saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515223_37);
+Obj v__3515255_37= co->res;
+Obj v__3514662_37 = R[1];
+R[1] = v__3514662_37;
+saveCont(co, clofun89, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515255_37);
 return;
 }
 case 4:
 {
-Obj v__3515222_37= co->res;
-Obj v__3514651_37 = R[1];
-Obj v__3514494_37 = R[2];
-Obj v__3514495_37 = R[3];
-Obj v__3514652_37 = R[4];
-if (True == v__3515222_37) {
-R[1] = v__3514651_37;
-saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514494_37);
+Obj v__3515254_37= co->res;
+Obj v__3514662_37 = R[1];
+Obj v__3514504_37 = R[2];
+Obj v__3514505_37 = R[3];
+Obj v__3514663_37 = R[4];
+if (True == v__3515254_37) {
+R[1] = v__3514662_37;
+saveCont(co, clofun89, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514504_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3514494_37, v__3514495_37, v__3514652_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3514504_37, v__3514505_37, v__3514663_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3515221_37= co->res;
-Obj v__3514651_37 = R[1];
-Obj v__3514494_37 = R[2];
-Obj v__3514495_37 = R[3];
-Obj v__3514652_37 = R[4];
-Obj v__3514653_37 = v__3515221_37;
-R[1] = v__3514651_37;
-R[2] = v__3514494_37;
-R[3] = v__3514495_37;
-R[4] = v__3514652_37;
-saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3514494_37, v__3514653_37);
+Obj v__3515253_37= co->res;
+Obj v__3514662_37 = R[1];
+Obj v__3514504_37 = R[2];
+Obj v__3514505_37 = R[3];
+Obj v__3514663_37 = R[4];
+Obj v__3514664_37 = v__3515253_37;
+R[1] = v__3514662_37;
+R[2] = v__3514504_37;
+R[3] = v__3514505_37;
+R[4] = v__3514663_37;
+saveCont(co, clofun89, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 136)), v__3514504_37, v__3514664_37);
 return;
 }
 case 6:
 {
-Obj v__3515220_37= co->res;
-Obj v__3514651_37 = R[1];
-Obj v__3514494_37 = R[2];
-Obj v__3514495_37 = R[3];
-Obj v__3514652_37 = R[4];
-R[1] = v__3514651_37;
-R[2] = v__3514494_37;
-R[3] = v__3514495_37;
-R[4] = v__3514652_37;
-saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3515220_37, Nil);
+Obj v__3515252_37= co->res;
+Obj v__3514662_37 = R[1];
+Obj v__3514504_37 = R[2];
+Obj v__3514505_37 = R[3];
+Obj v__3514663_37 = R[4];
+R[1] = v__3514662_37;
+R[2] = v__3514504_37;
+R[3] = v__3514505_37;
+R[4] = v__3514663_37;
+saveCont(co, clofun89, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3515252_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3515219_37= co->res;
-Obj v__3514651_37 = R[1];
-Obj v__3514494_37 = R[2];
-Obj v__3514495_37 = R[3];
-Obj v__3514652_37 = R[4];
-R[1] = v__3514651_37;
-R[2] = v__3514494_37;
-R[3] = v__3514495_37;
-R[4] = v__3514652_37;
-saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515219_37);
+Obj v__3515251_37= co->res;
+Obj v__3514662_37 = R[1];
+Obj v__3514504_37 = R[2];
+Obj v__3514505_37 = R[3];
+Obj v__3514663_37 = R[4];
+R[1] = v__3514662_37;
+R[2] = v__3514504_37;
+R[3] = v__3514505_37;
+R[4] = v__3514663_37;
+saveCont(co, clofun89, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515251_37);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514492_37 = R[1];
-Obj v__3514493_37 = R[2];
-Obj v__3515209_37 = PRIM_EQ(v__3514493_37, makeCString(co->gc, ""));
-if (True == v__3515209_37) {
-coraReturn(co, v__3514492_37);
+Obj v__3514502_37 = R[1];
+Obj v__3514503_37 = R[2];
+Obj v__3515241_37 = PRIM_EQ(v__3514503_37, makeCString(co->gc, ""));
+if (True == v__3515241_37) {
+coraReturn(co, v__3514502_37);
 return;
 } else {
-R[1] = v__3514492_37;
-R[2] = v__3514493_37;
-saveCont(co, clofun80, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3514492_37);
+R[1] = v__3514502_37;
+R[2] = v__3514503_37;
+saveCont(co, clofun88, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3514502_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515213_37= co->res;
+Obj v__3515245_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515213_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515245_37);
 return;
 }
 case 2:
 {
-Obj v__3515212_37= co->res;
-Obj v__3514493_37 = R[1];
-saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514493_37, v__3515212_37);
+Obj v__3515244_37= co->res;
+Obj v__3514503_37 = R[1];
+saveCont(co, clofun88, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514503_37, v__3515244_37);
 return;
 }
 case 3:
 {
-Obj v__3515211_37= co->res;
-Obj v__3514493_37 = R[1];
-R[1] = v__3514493_37;
-saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515211_37);
+Obj v__3515243_37= co->res;
+Obj v__3514503_37 = R[1];
+R[1] = v__3514503_37;
+saveCont(co, clofun88, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515243_37);
 return;
 }
 case 4:
 {
-Obj v__3515210_37= co->res;
-Obj v__3514492_37 = R[1];
-Obj v__3514493_37 = R[2];
-if (True == v__3515210_37) {
-coraReturn(co, v__3514492_37);
+Obj v__3515242_37= co->res;
+Obj v__3514502_37 = R[1];
+Obj v__3514503_37 = R[2];
+if (True == v__3515242_37) {
+coraReturn(co, v__3514502_37);
 return;
 } else {
-R[1] = v__3514493_37;
-saveCont(co, clofun80, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514492_37);
+R[1] = v__3514503_37;
+saveCont(co, clofun88, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514502_37);
 return;
 }
 }
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514486_37 = R[1];
-R[1] = v__3514486_37;
-saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514486_37);
+Obj v__3514496_37 = R[1];
+R[1] = v__3514496_37;
+saveCont(co, clofun87, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514496_37);
 return;
 }
 case 1:
 {
-Obj v__3515191_37= co->res;
-Obj v__3514650_37 = R[1];
+Obj v__3515223_37= co->res;
+Obj v__3514661_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3515191_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3514650_37));
+coraCall1(co, v__3515223_37, makeNative(co->gc, 4, clofun86, 3, 1, v__3514661_37));
 return;
 }
 case 2:
 {
-Obj v__3515190_37= co->res;
-Obj v__3514650_37 = R[1];
-R[1] = v__3514650_37;
-saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3515190_37);
+Obj v__3515222_37= co->res;
+Obj v__3514661_37 = R[1];
+R[1] = v__3514661_37;
+saveCont(co, clofun87, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3515222_37);
 return;
 }
 case 3:
 {
-Obj v__3515189_37= co->res;
-Obj v__3514486_37 = R[1];
-Obj v__3514650_37 = v__3515189_37;
-R[1] = v__3514650_37;
-saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514486_37);
+Obj v__3515221_37= co->res;
+Obj v__3514496_37 = R[1];
+Obj v__3514661_37 = v__3515221_37;
+R[1] = v__3514661_37;
+saveCont(co, clofun87, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514496_37);
 return;
 }
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514488_37 = R[1];
-Obj v__3514489_37 = R[2];
-Obj v__3514490_37 = R[3];
-Obj v__3515192_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v__3514488_37);
-R[1] = v__3514489_37;
-R[2] = v__3514490_37;
-R[3] = v__3515192_37;
-saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v__3514488_37);
+Obj v__3514498_37 = R[1];
+Obj v__3514499_37 = R[2];
+Obj v__3514500_37 = R[3];
+Obj v__3515224_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v__3514498_37);
+R[1] = v__3514499_37;
+R[2] = v__3514500_37;
+R[3] = v__3515224_37;
+saveCont(co, clofun86, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), makeNative(co->gc, 2, clofun85, 1, 0), v__3514498_37);
 return;
 }
 case 1:
 {
-Obj v__3515202_37= co->res;
-Obj v__3515192_37 = R[1];
-Obj v__3515203_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3515202_37);
-Obj v__3515204_37 = makeCons(co->gc, v__3515203_37, Nil);
-Obj v__3515205_37 = makeCons(co->gc, v__3515192_37, v__3515204_37);
-Obj v__3515206_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515205_37);
-Obj v__3515207_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3515206_37);
-coraReturn(co, v__3515207_37);
+Obj v__3515234_37= co->res;
+Obj v__3515224_37 = R[1];
+Obj v__3515235_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3515234_37);
+Obj v__3515236_37 = makeCons(co->gc, v__3515235_37, Nil);
+Obj v__3515237_37 = makeCons(co->gc, v__3515224_37, v__3515236_37);
+Obj v__3515238_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515237_37);
+Obj v__3515239_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3515238_37);
+coraReturn(co, v__3515239_37);
 return;
 }
 case 2:
 {
-Obj v__3515195_37= co->res;
-Obj v__3514489_37 = R[1];
-Obj v__3514490_37 = R[2];
-Obj v__3515192_37 = R[3];
-Obj v__3515196_37 = makeCons(co->gc, v__3514489_37, Nil);
-Obj v__3515197_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3515196_37);
-Obj v__3515198_37 = makeCons(co->gc, v__3515197_37, Nil);
-Obj v__3515199_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3515198_37);
-Obj v__3515200_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515199_37);
-Obj v__3515201_37 = makeCons(co->gc, v__3515200_37, v__3514490_37);
-R[1] = v__3515192_37;
-saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515195_37, v__3515201_37);
+Obj v__3515227_37= co->res;
+Obj v__3514499_37 = R[1];
+Obj v__3514500_37 = R[2];
+Obj v__3515224_37 = R[3];
+Obj v__3515228_37 = makeCons(co->gc, v__3514499_37, Nil);
+Obj v__3515229_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3515228_37);
+Obj v__3515230_37 = makeCons(co->gc, v__3515229_37, Nil);
+Obj v__3515231_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3515230_37);
+Obj v__3515232_37 = makeCons(co->gc, getBinding(co, packageID, 137).name, v__3515231_37);
+Obj v__3515233_37 = makeCons(co->gc, v__3515232_37, v__3514500_37);
+R[1] = v__3515224_37;
+saveCont(co, clofun86, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515227_37, v__3515233_37);
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514491_37 = R[1];
-Obj v__3515193_37 = makeCons(co->gc, v__3514491_37, Nil);
-Obj v__3515194_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515193_37);
-coraReturn(co, v__3515194_37);
+Obj v__3514501_37 = R[1];
+Obj v__3515225_37 = makeCons(co->gc, v__3514501_37, Nil);
+Obj v__3515226_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515225_37);
+coraReturn(co, v__3515226_37);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514484_37 = R[1];
-Obj v__3514485_37 = R[2];
+Obj v__3514494_37 = R[1];
+Obj v__3514495_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514484_37, Nil, Nil, v__3514485_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514494_37, Nil, Nil, v__3514495_37);
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514474_37 = R[1];
-Obj v__3514475_37 = R[2];
-Obj v__3514476_37 = R[3];
-Obj v__3514477_37 = R[4];
-Obj v__3514644_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3514476_37, v__3514474_37, v__3514475_37, v__3514477_37);
-Obj v__3515169_37 = PRIM_ISCONS(v__3514474_37);
-if (True == v__3515169_37) {
-Obj v__3515170_37 = PRIM_CAR(v__3514474_37);
-Obj v__3515171_37 = PRIM_ISCONS(v__3515170_37);
-if (True == v__3515171_37) {
-Obj v__3515172_37 = PRIM_CAR(v__3514474_37);
-Obj v__3515173_37 = PRIM_CAR(v__3515172_37);
-Obj v__3515174_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515173_37);
-if (True == v__3515174_37) {
-Obj v__3515175_37 = PRIM_CAR(v__3514474_37);
-Obj v__3515176_37 = PRIM_CDR(v__3515175_37);
-Obj v__3515177_37 = PRIM_ISCONS(v__3515176_37);
-if (True == v__3515177_37) {
-Obj v__3515178_37 = PRIM_CAR(v__3514474_37);
-Obj v__3515179_37 = PRIM_CDR(v__3515178_37);
-Obj v__3515180_37 = PRIM_CAR(v__3515179_37);
-Obj v__3514648_37 = v__3515180_37;
-Obj v__3515181_37 = PRIM_CAR(v__3514474_37);
-Obj v__3515182_37 = PRIM_CDR(v__3515181_37);
-Obj v__3515183_37 = PRIM_CDR(v__3515182_37);
-Obj v__3515184_37 = PRIM_EQ(Nil, v__3515183_37);
-if (True == v__3515184_37) {
-Obj v__3515185_37 = PRIM_CDR(v__3514474_37);
-Obj v__3514649_37 = v__3515185_37;
-Obj v__3515186_37 = makeCons(co->gc, v__3514648_37, v__3514475_37);
-co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514649_37, v__3515186_37, v__3514476_37, v__3514477_37);
+Obj v__3514484_37 = R[1];
+Obj v__3514485_37 = R[2];
+Obj v__3514486_37 = R[3];
+Obj v__3514487_37 = R[4];
+Obj v__3514655_37 = makeNative(co->gc, 1, clofun82, 0, 4, v__3514486_37, v__3514484_37, v__3514485_37, v__3514487_37);
+Obj v__3515201_37 = PRIM_ISCONS(v__3514484_37);
+if (True == v__3515201_37) {
+Obj v__3515202_37 = PRIM_CAR(v__3514484_37);
+Obj v__3515203_37 = PRIM_ISCONS(v__3515202_37);
+if (True == v__3515203_37) {
+Obj v__3515204_37 = PRIM_CAR(v__3514484_37);
+Obj v__3515205_37 = PRIM_CAR(v__3515204_37);
+Obj v__3515206_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515205_37);
+if (True == v__3515206_37) {
+Obj v__3515207_37 = PRIM_CAR(v__3514484_37);
+Obj v__3515208_37 = PRIM_CDR(v__3515207_37);
+Obj v__3515209_37 = PRIM_ISCONS(v__3515208_37);
+if (True == v__3515209_37) {
+Obj v__3515210_37 = PRIM_CAR(v__3514484_37);
+Obj v__3515211_37 = PRIM_CDR(v__3515210_37);
+Obj v__3515212_37 = PRIM_CAR(v__3515211_37);
+Obj v__3514659_37 = v__3515212_37;
+Obj v__3515213_37 = PRIM_CAR(v__3514484_37);
+Obj v__3515214_37 = PRIM_CDR(v__3515213_37);
+Obj v__3515215_37 = PRIM_CDR(v__3515214_37);
+Obj v__3515216_37 = PRIM_EQ(Nil, v__3515215_37);
+if (True == v__3515216_37) {
+Obj v__3515217_37 = PRIM_CDR(v__3514484_37);
+Obj v__3514660_37 = v__3515217_37;
+Obj v__3515218_37 = makeCons(co->gc, v__3514659_37, v__3514485_37);
+co->ctx.sp = R;
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514660_37, v__3515218_37, v__3514486_37, v__3514487_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514644_37);
+coraCall0(co, v__3514655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514644_37);
+coraCall0(co, v__3514655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514644_37);
+coraCall0(co, v__3514655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514644_37);
+coraCall0(co, v__3514655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514644_37);
+coraCall0(co, v__3514655_37);
 return;
 }
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514645_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515160_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3515160_37) {
-Obj v__3515161_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515162_37 = PRIM_ISCONS(v__3515161_37);
-if (True == v__3515162_37) {
-Obj v__3515163_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515164_37 = PRIM_CAR(v__3515163_37);
-Obj v__3515165_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3515164_37);
-if (True == v__3515165_37) {
-Obj v__3515166_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515167_37 = PRIM_CDR(v__3515166_37);
-Obj v__3514646_37 = v__3515167_37;
-Obj v__3515168_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3514647_37 = v__3515168_37;
+Obj v__3514656_37 = makeNative(co->gc, 1, clofun81, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515192_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3515192_37) {
+Obj v__3515193_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515194_37 = PRIM_ISCONS(v__3515193_37);
+if (True == v__3515194_37) {
+Obj v__3515195_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515196_37 = PRIM_CAR(v__3515195_37);
+Obj v__3515197_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3515196_37);
+if (True == v__3515197_37) {
+Obj v__3515198_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515199_37 = PRIM_CDR(v__3515198_37);
+Obj v__3514657_37 = v__3515199_37;
+Obj v__3515200_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3514658_37 = v__3515200_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514647_37, closureRef(R[0], 2), v__3514646_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514658_37, closureRef(R[0], 2), v__3514657_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514645_37);
+coraCall0(co, v__3514656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514645_37);
+coraCall0(co, v__3514656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514645_37);
+coraCall0(co, v__3514656_37);
 return;
 }
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
+saveCont(co, clofun81, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj v__3515159_37= co->res;
+Obj v__3515191_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v__3515159_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3515191_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514473_37 = R[1];
-R[1] = v__3514473_37;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514473_37);
+Obj v__3514483_37 = R[1];
+R[1] = v__3514483_37;
+saveCont(co, clofun80, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514483_37);
 return;
 }
 case 1:
 {
-Obj v__3515157_37= co->res;
-Obj v__3515156_37 = R[1];
+Obj v__3515189_37= co->res;
+Obj v__3515188_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3515156_37, v__3515157_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3515188_37, v__3515189_37);
 return;
 }
 case 2:
 {
-Obj v__3515156_37= co->res;
-Obj v__3514473_37 = R[1];
-R[1] = v__3515156_37;
-saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514473_37);
+Obj v__3515188_37= co->res;
+Obj v__3514483_37 = R[1];
+R[1] = v__3515188_37;
+saveCont(co, clofun80, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514483_37);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514471_37 = R[1];
-Obj v__3514472_37 = R[2];
-R[1] = v__3514472_37;
-R[2] = v__3514471_37;
-saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514472_37);
+Obj v__3514481_37 = R[1];
+Obj v__3514482_37 = R[2];
+R[1] = v__3514482_37;
+R[2] = v__3514481_37;
+saveCont(co, clofun79, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514482_37);
 return;
 }
 case 1:
 {
-Obj v__3515145_37= co->res;
-Obj v__3515144_37 = R[1];
-Obj v__3514471_37 = R[2];
-Obj v__3515146_37 = makeCons(co->gc, v__3515145_37, Nil);
-Obj v__3515147_37 = makeCons(co->gc, v__3515144_37, v__3515146_37);
-Obj v__3515148_37 = makeCons(co->gc, v__3514471_37, v__3515147_37);
-coraReturn(co, v__3515148_37);
+Obj v__3515177_37= co->res;
+Obj v__3515176_37 = R[1];
+Obj v__3514481_37 = R[2];
+Obj v__3515178_37 = makeCons(co->gc, v__3515177_37, Nil);
+Obj v__3515179_37 = makeCons(co->gc, v__3515176_37, v__3515178_37);
+Obj v__3515180_37 = makeCons(co->gc, v__3514481_37, v__3515179_37);
+coraReturn(co, v__3515180_37);
 return;
 }
 case 2:
 {
-Obj v__3515151_37= co->res;
-Obj v__3515149_37 = R[1];
-Obj v__3514471_37 = R[2];
-Obj v__3515152_37 = makeCons(co->gc, v__3515151_37, Nil);
-Obj v__3515153_37 = makeCons(co->gc, v__3515149_37, v__3515152_37);
-Obj v__3515154_37 = makeCons(co->gc, v__3514471_37, v__3515153_37);
-coraReturn(co, v__3515154_37);
+Obj v__3515183_37= co->res;
+Obj v__3515181_37 = R[1];
+Obj v__3514481_37 = R[2];
+Obj v__3515184_37 = makeCons(co->gc, v__3515183_37, Nil);
+Obj v__3515185_37 = makeCons(co->gc, v__3515181_37, v__3515184_37);
+Obj v__3515186_37 = makeCons(co->gc, v__3514481_37, v__3515185_37);
+coraReturn(co, v__3515186_37);
 return;
 }
 case 3:
 {
-Obj v__3515143_37= co->res;
-Obj v__3514472_37 = R[1];
-Obj v__3514471_37 = R[2];
-if (True == v__3515143_37) {
-Obj v__3515144_37 = PRIM_CAR(v__3514472_37);
-R[1] = v__3515144_37;
-R[2] = v__3514471_37;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514472_37);
+Obj v__3515175_37= co->res;
+Obj v__3514482_37 = R[1];
+Obj v__3514481_37 = R[2];
+if (True == v__3515175_37) {
+Obj v__3515176_37 = PRIM_CAR(v__3514482_37);
+R[1] = v__3515176_37;
+R[2] = v__3514481_37;
+saveCont(co, clofun79, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514482_37);
 return;
 } else {
-Obj v__3515149_37 = PRIM_CAR(v__3514472_37);
-Obj v__3515150_37 = PRIM_CDR(v__3514472_37);
-R[1] = v__3515149_37;
-R[2] = v__3514471_37;
-saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3514471_37, v__3515150_37);
+Obj v__3515181_37 = PRIM_CAR(v__3514482_37);
+Obj v__3515182_37 = PRIM_CDR(v__3514482_37);
+R[1] = v__3515181_37;
+R[2] = v__3514481_37;
+saveCont(co, clofun79, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3514481_37, v__3515182_37);
 return;
 }
 }
 case 4:
 {
-Obj v__3515142_37= co->res;
-Obj v__3514472_37 = R[1];
-Obj v__3514471_37 = R[2];
-R[1] = v__3514472_37;
-R[2] = v__3514471_37;
-saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3515142_37);
+Obj v__3515174_37= co->res;
+Obj v__3514482_37 = R[1];
+Obj v__3514481_37 = R[2];
+R[1] = v__3514482_37;
+R[2] = v__3514481_37;
+saveCont(co, clofun79, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 165)), v__3515174_37);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514470_37 = R[1];
-saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514470_37);
+Obj v__3514480_37 = R[1];
+saveCont(co, clofun78, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514480_37);
 return;
 }
 case 1:
 {
-Obj v__3515140_37= co->res;
+Obj v__3515172_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3515140_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3515172_37);
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514461_37 = R[1];
-Obj v__3515120_37 = primIsSymbol(v__3514461_37);
-if (True == v__3515120_37) {
-Obj v__3515121_37 = makeCons(co->gc, v__3514461_37, Nil);
-Obj v__3515122_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515121_37);
-coraReturn(co, v__3515122_37);
-return;
-} else {
-Obj v__3514640_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3514461_37);
-Obj v__3515129_37 = PRIM_ISCONS(v__3514461_37);
-if (True == v__3515129_37) {
-Obj v__3515130_37 = PRIM_CAR(v__3514461_37);
-Obj v__3515131_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3515130_37);
-if (True == v__3515131_37) {
-Obj v__3515132_37 = PRIM_CDR(v__3514461_37);
-Obj v__3515133_37 = PRIM_ISCONS(v__3515132_37);
-if (True == v__3515133_37) {
-Obj v__3515134_37 = PRIM_CDR(v__3514461_37);
-Obj v__3515135_37 = PRIM_CAR(v__3515134_37);
-Obj v__3514643_37 = v__3515135_37;
-Obj v__3515136_37 = PRIM_CDR(v__3514461_37);
-Obj v__3515137_37 = PRIM_CDR(v__3515136_37);
-Obj v__3515138_37 = PRIM_EQ(Nil, v__3515137_37);
-if (True == v__3515138_37) {
-coraReturn(co, v__3514643_37);
+Obj v__3514471_37 = R[1];
+Obj v__3515152_37 = primIsSymbol(v__3514471_37);
+if (True == v__3515152_37) {
+Obj v__3515153_37 = makeCons(co->gc, v__3514471_37, Nil);
+Obj v__3515154_37 = makeCons(co->gc, getBinding(co, packageID, 143).name, v__3515153_37);
+coraReturn(co, v__3515154_37);
+return;
+} else {
+Obj v__3514651_37 = makeNative(co->gc, 1, clofun76, 0, 1, v__3514471_37);
+Obj v__3515161_37 = PRIM_ISCONS(v__3514471_37);
+if (True == v__3515161_37) {
+Obj v__3515162_37 = PRIM_CAR(v__3514471_37);
+Obj v__3515163_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3515162_37);
+if (True == v__3515163_37) {
+Obj v__3515164_37 = PRIM_CDR(v__3514471_37);
+Obj v__3515165_37 = PRIM_ISCONS(v__3515164_37);
+if (True == v__3515165_37) {
+Obj v__3515166_37 = PRIM_CDR(v__3514471_37);
+Obj v__3515167_37 = PRIM_CAR(v__3515166_37);
+Obj v__3514654_37 = v__3515167_37;
+Obj v__3515168_37 = PRIM_CDR(v__3514471_37);
+Obj v__3515169_37 = PRIM_CDR(v__3515168_37);
+Obj v__3515170_37 = PRIM_EQ(Nil, v__3515169_37);
+if (True == v__3515170_37) {
+coraReturn(co, v__3514654_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514640_37);
+coraCall0(co, v__3514651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514640_37);
+coraCall0(co, v__3514651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514640_37);
+coraCall0(co, v__3514651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514640_37);
+coraCall0(co, v__3514651_37);
 return;
 }
 }
@@ -2008,19 +2024,19 @@ return;
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515123_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515123_37) {
-Obj v__3515124_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514641_37 = v__3515124_37;
-Obj v__3515125_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514642_37 = v__3515125_37;
-Obj v__3515126_37 = makeCons(co->gc, v__3514641_37, v__3514642_37);
-saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3515126_37);
+Obj v__3515155_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515155_37) {
+Obj v__3515156_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514652_37 = v__3515156_37;
+Obj v__3515157_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514653_37 = v__3515157_37;
+Obj v__3515158_37 = makeCons(co->gc, v__3514652_37, v__3514653_37);
+saveCont(co, clofun76, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), globalRef(co, getBinding(co, packageID, 88)), v__3515158_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2029,886 +2045,1162 @@ return;
 }
 case 1:
 {
-Obj v__3515127_37= co->res;
-Obj v__3515128_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515127_37);
-coraReturn(co, v__3515128_37);
+Obj v__3515159_37= co->res;
+Obj v__3515160_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515159_37);
+coraReturn(co, v__3515160_37);
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514460_37 = R[1];
-Obj v__3515118_37 = PRIM_CDR(v__3514460_37);
+Obj v__3514470_37 = R[1];
+Obj v__3515150_37 = PRIM_CDR(v__3514470_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3515118_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3515150_37);
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514452_37 = R[1];
-Obj v__3514633_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3514452_37);
-Obj v__3515113_37 = PRIM_ISCONS(v__3514452_37);
-if (True == v__3515113_37) {
-Obj v__3515114_37 = PRIM_CAR(v__3514452_37);
-Obj v__3514639_37 = v__3515114_37;
-Obj v__3515115_37 = PRIM_CDR(v__3514452_37);
-Obj v__3515116_37 = PRIM_EQ(Nil, v__3515115_37);
-if (True == v__3515116_37) {
-coraReturn(co, v__3514639_37);
+Obj v__3514462_37 = R[1];
+Obj v__3514644_37 = makeNative(co->gc, 1, clofun73, 0, 1, v__3514462_37);
+Obj v__3515145_37 = PRIM_ISCONS(v__3514462_37);
+if (True == v__3515145_37) {
+Obj v__3515146_37 = PRIM_CAR(v__3514462_37);
+Obj v__3514650_37 = v__3515146_37;
+Obj v__3515147_37 = PRIM_CDR(v__3514462_37);
+Obj v__3515148_37 = PRIM_EQ(Nil, v__3515147_37);
+if (True == v__3515148_37) {
+coraReturn(co, v__3514650_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514633_37);
+coraCall0(co, v__3514644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514633_37);
+coraCall0(co, v__3514644_37);
 return;
 }
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514634_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v__3515101_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515101_37) {
-Obj v__3515102_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514637_37 = v__3515102_37;
-Obj v__3515103_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515104_37 = PRIM_ISCONS(v__3515103_37);
-if (True == v__3515104_37) {
-Obj v__3515105_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515106_37 = PRIM_CAR(v__3515105_37);
-Obj v__3514638_37 = v__3515106_37;
-Obj v__3515107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515108_37 = PRIM_CDR(v__3515107_37);
-Obj v__3515109_37 = PRIM_EQ(Nil, v__3515108_37);
-if (True == v__3515109_37) {
-Obj v__3515110_37 = makeCons(co->gc, v__3514638_37, Nil);
-Obj v__3515111_37 = makeCons(co->gc, v__3514637_37, v__3515110_37);
-Obj v__3515112_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515111_37);
-coraReturn(co, v__3515112_37);
+Obj v__3514645_37 = makeNative(co->gc, 2, clofun72, 0, 1, closureRef(R[0], 0));
+Obj v__3515133_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515133_37) {
+Obj v__3515134_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514648_37 = v__3515134_37;
+Obj v__3515135_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515136_37 = PRIM_ISCONS(v__3515135_37);
+if (True == v__3515136_37) {
+Obj v__3515137_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515138_37 = PRIM_CAR(v__3515137_37);
+Obj v__3514649_37 = v__3515138_37;
+Obj v__3515139_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515140_37 = PRIM_CDR(v__3515139_37);
+Obj v__3515141_37 = PRIM_EQ(Nil, v__3515140_37);
+if (True == v__3515141_37) {
+Obj v__3515142_37 = makeCons(co->gc, v__3514649_37, Nil);
+Obj v__3515143_37 = makeCons(co->gc, v__3514648_37, v__3515142_37);
+Obj v__3515144_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515143_37);
+coraReturn(co, v__3515144_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514634_37);
+coraCall0(co, v__3514645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514634_37);
+coraCall0(co, v__3514645_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514634_37);
+coraCall0(co, v__3514645_37);
 return;
 }
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515094_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515094_37) {
-Obj v__3515095_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514635_37 = v__3515095_37;
-Obj v__3515096_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514636_37 = v__3515096_37;
-R[1] = v__3514635_37;
-saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3514636_37);
+Obj v__3515126_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515126_37) {
+Obj v__3515127_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514646_37 = v__3515127_37;
+Obj v__3515128_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514647_37 = v__3515128_37;
+R[1] = v__3514646_37;
+saveCont(co, clofun72, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3514647_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3515097_37= co->res;
-Obj v__3514635_37 = R[1];
-Obj v__3515098_37 = makeCons(co->gc, v__3515097_37, Nil);
-Obj v__3515099_37 = makeCons(co->gc, v__3514635_37, v__3515098_37);
-Obj v__3515100_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515099_37);
-coraReturn(co, v__3515100_37);
+Obj v__3515129_37= co->res;
+Obj v__3514646_37 = R[1];
+Obj v__3515130_37 = makeCons(co->gc, v__3515129_37, Nil);
+Obj v__3515131_37 = makeCons(co->gc, v__3514646_37, v__3515130_37);
+Obj v__3515132_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515131_37);
+coraReturn(co, v__3515132_37);
 return;
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514451_37 = R[1];
-saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3514451_37);
+Obj v__3514461_37 = R[1];
+saveCont(co, clofun71, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 145)), v__3514461_37);
 return;
 }
 case 1:
 {
-Obj v__3515092_37= co->res;
+Obj v__3515124_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3515092_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3515124_37);
 return;
 }
 case 2:
 {
-Obj v__3515091_37= co->res;
-saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3515091_37);
+Obj v__3515123_37= co->res;
+saveCont(co, clofun71, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3515123_37);
 return;
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514450_37 = R[1];
-coraReturn(co, v__3514450_37);
+Obj v__3514460_37 = R[1];
+coraReturn(co, v__3514460_37);
 return;
 }
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514449_37 = R[1];
+Obj v__3514459_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v__3514449_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v__3514459_37);
 return;
 }
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514445_37 = R[1];
-R[1] = v__3514445_37;
-saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514445_37);
+Obj v__3514455_37 = R[1];
+R[1] = v__3514455_37;
+saveCont(co, clofun68, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514455_37);
 return;
 }
 case 1:
 {
-Obj v__3515080_37= co->res;
-Obj v__3514630_37 = R[1];
-Obj v__3514632_37 = R[2];
-Obj v__3515081_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3514632_37);
-Obj v__3515082_37 = makeCons(co->gc, v__3515081_37, v__3514630_37);
-Obj v__3515083_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3515082_37);
-Obj v__3515084_37 = makeCons(co->gc, v__3515083_37, Nil);
-Obj v__3515085_37 = makeCons(co->gc, v__3514632_37, v__3515084_37);
-Obj v__3515086_37 = makeCons(co->gc, v__3515080_37, v__3515085_37);
-Obj v__3515087_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3515086_37);
-coraReturn(co, v__3515087_37);
+Obj v__3515112_37= co->res;
+Obj v__3514641_37 = R[1];
+Obj v__3514643_37 = R[2];
+Obj v__3515113_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514643_37);
+Obj v__3515114_37 = makeCons(co->gc, v__3515113_37, v__3514641_37);
+Obj v__3515115_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3515114_37);
+Obj v__3515116_37 = makeCons(co->gc, v__3515115_37, Nil);
+Obj v__3515117_37 = makeCons(co->gc, v__3514643_37, v__3515116_37);
+Obj v__3515118_37 = makeCons(co->gc, v__3515112_37, v__3515117_37);
+Obj v__3515119_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3515118_37);
+coraReturn(co, v__3515119_37);
 return;
 }
 case 2:
 {
-Obj v__3515079_37= co->res;
-Obj v__3514445_37 = R[1];
-Obj v__3514630_37 = R[2];
-Obj v__3514632_37 = v__3515079_37;
-R[1] = v__3514630_37;
-R[2] = v__3514632_37;
-saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514445_37);
+Obj v__3515111_37= co->res;
+Obj v__3514455_37 = R[1];
+Obj v__3514641_37 = R[2];
+Obj v__3514643_37 = v__3515111_37;
+R[1] = v__3514641_37;
+R[2] = v__3514643_37;
+saveCont(co, clofun68, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514455_37);
 return;
 }
 case 3:
 {
-Obj v__3515078_37= co->res;
-Obj v__3514445_37 = R[1];
-Obj v__3514630_37 = R[2];
-Obj v__3514631_37 = v__3515078_37;
-R[1] = v__3514445_37;
-R[2] = v__3514630_37;
-saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3514631_37);
+Obj v__3515110_37= co->res;
+Obj v__3514455_37 = R[1];
+Obj v__3514641_37 = R[2];
+Obj v__3514642_37 = v__3515110_37;
+R[1] = v__3514455_37;
+R[2] = v__3514641_37;
+saveCont(co, clofun68, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3514642_37);
 return;
 }
 case 4:
 {
-Obj v__3515077_37= co->res;
-Obj v__3514445_37 = R[1];
-Obj v__3514630_37 = v__3515077_37;
-R[1] = v__3514445_37;
-R[2] = v__3514630_37;
-saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3514630_37);
+Obj v__3515109_37= co->res;
+Obj v__3514455_37 = R[1];
+Obj v__3514641_37 = v__3515109_37;
+R[1] = v__3514455_37;
+R[2] = v__3514641_37;
+saveCont(co, clofun68, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3514641_37);
 return;
 }
 case 5:
 {
-Obj v__3515076_37= co->res;
-Obj v__3514445_37 = R[1];
-R[1] = v__3514445_37;
-saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3515076_37);
+Obj v__3515108_37= co->res;
+Obj v__3514455_37 = R[1];
+R[1] = v__3514455_37;
+saveCont(co, clofun68, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3515108_37);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514444_37 = R[1];
-Obj v__3515070_37 = PRIM_EQ(v__3514444_37, MAKE_NUMBER(0));
-if (True == v__3515070_37) {
+Obj v__3514454_37 = R[1];
+Obj v__3515102_37 = PRIM_EQ(v__3514454_37, MAKE_NUMBER(0));
+if (True == v__3515102_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3515071_37 = primGenSym(co);
-Obj v__3515072_37 = PRIM_SUB(v__3514444_37, MAKE_NUMBER(1));
-R[1] = v__3515071_37;
-saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3515072_37);
+Obj v__3515103_37 = primGenSym(co);
+Obj v__3515104_37 = PRIM_SUB(v__3514454_37, MAKE_NUMBER(1));
+R[1] = v__3515103_37;
+saveCont(co, clofun67, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3515104_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515073_37= co->res;
-Obj v__3515071_37 = R[1];
-Obj v__3515074_37 = makeCons(co->gc, v__3515071_37, v__3515073_37);
-coraReturn(co, v__3515074_37);
+Obj v__3515105_37= co->res;
+Obj v__3515103_37 = R[1];
+Obj v__3515106_37 = makeCons(co->gc, v__3515103_37, v__3515105_37);
+coraReturn(co, v__3515106_37);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514438_37 = R[1];
-saveCont(co, clofun58, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v__3514438_37);
+Obj v__3514448_37 = R[1];
+saveCont(co, clofun66, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v__3514448_37);
 return;
 }
 case 1:
 {
-Obj v__3515067_37= co->res;
-Obj v__3514629_37 = R[1];
-Obj v__3515068_37 = primNot(v__3515067_37);
-if (True == v__3515068_37) {
+Obj v__3515099_37= co->res;
+Obj v__3514640_37 = R[1];
+Obj v__3515100_37 = primNot(v__3515099_37);
+if (True == v__3515100_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, v__3514629_37);
+coraReturn(co, v__3514640_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3515066_37= co->res;
-Obj v__3514629_37 = R[1];
-R[1] = v__3514629_37;
-saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3515066_37);
+Obj v__3515098_37= co->res;
+Obj v__3514640_37 = R[1];
+R[1] = v__3514640_37;
+saveCont(co, clofun66, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 165)), v__3515098_37);
 return;
 }
 case 3:
 {
-Obj v__3515061_37= co->res;
-Obj v__3514628_37 = v__3515061_37;
-Obj v__3515062_37 = PRIM_CAR(v__3514628_37);
-Obj v__3514629_37 = v__3515062_37;
-Obj v__3515065_37 = PRIM_CDR(v__3514628_37);
-R[1] = v__3514629_37;
-saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3514629_37), v__3515065_37);
+Obj v__3515093_37= co->res;
+Obj v__3514639_37 = v__3515093_37;
+Obj v__3515094_37 = PRIM_CAR(v__3514639_37);
+Obj v__3514640_37 = v__3515094_37;
+Obj v__3515097_37 = PRIM_CDR(v__3514639_37);
+R[1] = v__3514640_37;
+saveCont(co, clofun66, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun65, 1, 1, v__3514640_37), v__3515097_37);
 return;
 }
 case 4:
 {
-Obj v__3515059_37= co->res;
-Obj v__3514627_37 = v__3515059_37;
-saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3514627_37);
+Obj v__3515091_37= co->res;
+Obj v__3514638_37 = v__3515091_37;
+saveCont(co, clofun66, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), makeNative(co->gc, 2, clofun64, 1, 0), v__3514638_37);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3514453_37 = R[1];
+Obj v__3515095_37 = PRIM_EQ(closureRef(R[0], 0), v__3514453_37);
+Obj v__3515096_37 = primNot(v__3515095_37);
+coraReturn(co, v__3515096_37);
+return;
+}
+}
+}
+
+static void clofun64(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3514450_37 = R[1];
+Obj v__3515092_37 = PRIM_CDR(v__3514450_37);
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3515092_37);
+return;
+}
+}
+}
+
+static void clofun63(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3514446_37 = R[1];
+Obj v__3514447_37 = R[2];
+Obj v__3515085_37 = PRIM_EQ(v__3514446_37, Nil);
+if (True == v__3515085_37) {
+coraReturn(co, v__3514447_37);
+return;
+} else {
+Obj v__3515086_37 = PRIM_CAR(v__3514446_37);
+Obj v__3515087_37 = PRIM_CDR(v__3514446_37);
+R[1] = v__3515086_37;
+saveCont(co, clofun63, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515087_37, v__3514447_37);
+return;
+}
+}
+case 1:
+{
+Obj v__3515088_37= co->res;
+Obj v__3515086_37 = R[1];
+Obj v__3515089_37 = makeCons(co->gc, v__3515086_37, v__3515088_37);
+coraReturn(co, v__3515089_37);
+return;
+}
+}
+}
+
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
+Obj v__3514444_37 = R[1];
+Obj v__3514445_37 = R[2];
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v__3514444_37, v__3514445_37);
+return;
+}
+}
+}
+
+static void clofun61(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3514441_37 = R[1];
+Obj v__3514442_37 = R[2];
+Obj v__3514443_37 = R[3];
+Obj v__3515076_37 = PRIM_ISCONS(v__3514443_37);
+if (True == v__3515076_37) {
+Obj v__3515077_37 = PRIM_CAR(v__3514443_37);
+R[1] = v__3514443_37;
+R[2] = v__3514441_37;
+R[3] = v__3514442_37;
+saveCont(co, clofun61, 1, R);
+coraCall1(co, v__3514442_37, v__3515077_37);
+return;
+} else {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514441_37);
+return;
+}
+}
+case 1:
+{
+Obj v__3515078_37= co->res;
 Obj v__3514443_37 = R[1];
-Obj v__3515063_37 = PRIM_EQ(closureRef(R[0], 0), v__3514443_37);
-Obj v__3515064_37 = primNot(v__3515063_37);
-coraReturn(co, v__3515064_37);
+Obj v__3514441_37 = R[2];
+Obj v__3514442_37 = R[3];
+if (True == v__3515078_37) {
+Obj v__3515079_37 = PRIM_CAR(v__3514443_37);
+Obj v__3515080_37 = makeCons(co->gc, v__3515079_37, v__3514441_37);
+Obj v__3515081_37 = PRIM_CDR(v__3514443_37);
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3515080_37, v__3514442_37, v__3515081_37);
+return;
+} else {
+Obj v__3515082_37 = PRIM_CDR(v__3514443_37);
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3514441_37, v__3514442_37, v__3515082_37);
 return;
 }
 }
 }
+}
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v__3514440_37 = R[1];
-Obj v__3515060_37 = PRIM_CDR(v__3514440_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3515060_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v__3514440_37);
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514436_37 = R[1];
-Obj v__3514437_37 = R[2];
-Obj v__3515053_37 = PRIM_EQ(v__3514436_37, Nil);
-if (True == v__3515053_37) {
-coraReturn(co, v__3514437_37);
+Obj v__3514438_37 = R[1];
+Obj v__3514439_37 = R[2];
+Obj v__3515071_37 = PRIM_EQ(v__3514439_37, Nil);
+if (True == v__3515071_37) {
+coraReturn(co, v__3514438_37);
 return;
 } else {
-Obj v__3515054_37 = PRIM_CAR(v__3514436_37);
-Obj v__3515055_37 = PRIM_CDR(v__3514436_37);
-R[1] = v__3515054_37;
-saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515055_37, v__3514437_37);
+Obj v__3515072_37 = PRIM_ADD(v__3514438_37, MAKE_NUMBER(1));
+Obj v__3515073_37 = PRIM_CDR(v__3514439_37);
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3515072_37, v__3515073_37);
 return;
 }
 }
+}
+}
+
+static void clofun58(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3514436_37 = R[1];
+Obj v__3514437_37 = R[2];
+R[1] = v__3514436_37;
+R[2] = v__3514437_37;
+saveCont(co, clofun58, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 165)), v__3514437_37);
+return;
+}
 case 1:
 {
-Obj v__3515056_37= co->res;
-Obj v__3515054_37 = R[1];
-Obj v__3515057_37 = makeCons(co->gc, v__3515054_37, v__3515056_37);
-coraReturn(co, v__3515057_37);
+Obj v__3515069_37= co->res;
+Obj v__3515068_37 = R[1];
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3515068_37, v__3515069_37);
+return;
+}
+case 2:
+{
+Obj v__3515066_37= co->res;
+Obj v__3514436_37 = R[1];
+Obj v__3514437_37 = R[2];
+if (True == v__3515066_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514436_37);
+return;
+} else {
+Obj v__3515067_37 = PRIM_CAR(v__3514437_37);
+Obj v__3515068_37 = makeCons(co->gc, v__3515067_37, v__3514436_37);
+R[1] = v__3515068_37;
+saveCont(co, clofun58, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514437_37);
 return;
 }
 }
 }
+}
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514434_37 = R[1];
-Obj v__3514435_37 = R[2];
+Obj v__3514435_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v__3514434_37, v__3514435_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514435_37, Nil, Nil);
 return;
 }
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514431_37 = R[1];
-Obj v__3514432_37 = R[2];
-Obj v__3514433_37 = R[3];
-Obj v__3515044_37 = PRIM_ISCONS(v__3514433_37);
+Obj v__3514410_37 = R[1];
+Obj v__3514411_37 = R[2];
+Obj v__3514412_37 = R[3];
+Obj v__3515013_37 = PRIM_EQ(Nil, v__3514410_37);
+if (True == v__3515013_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514412_37);
+return;
+} else {
+Obj v__3514627_37 = makeNative(co->gc, 3, clofun55, 0, 3, v__3514410_37, v__3514411_37, v__3514412_37);
+Obj v__3515031_37 = PRIM_ISCONS(v__3514410_37);
+if (True == v__3515031_37) {
+Obj v__3515032_37 = PRIM_CAR(v__3514410_37);
+Obj v__3515033_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515032_37);
+if (True == v__3515033_37) {
+Obj v__3515034_37 = PRIM_CDR(v__3514410_37);
+Obj v__3515035_37 = PRIM_ISCONS(v__3515034_37);
+if (True == v__3515035_37) {
+Obj v__3515036_37 = PRIM_CDR(v__3514410_37);
+Obj v__3515037_37 = PRIM_CAR(v__3515036_37);
+Obj v__3514634_37 = v__3515037_37;
+Obj v__3515038_37 = PRIM_CDR(v__3514410_37);
+Obj v__3515039_37 = PRIM_CDR(v__3515038_37);
+Obj v__3515040_37 = PRIM_ISCONS(v__3515039_37);
+if (True == v__3515040_37) {
+Obj v__3515041_37 = PRIM_CDR(v__3514410_37);
+Obj v__3515042_37 = PRIM_CDR(v__3515041_37);
+Obj v__3515043_37 = PRIM_CAR(v__3515042_37);
+Obj v__3515044_37 = PRIM_EQ(getBinding(co, packageID, 114).name, v__3515043_37);
 if (True == v__3515044_37) {
-Obj v__3515045_37 = PRIM_CAR(v__3514433_37);
-R[1] = v__3514433_37;
-R[2] = v__3514431_37;
-R[3] = v__3514432_37;
-saveCont(co, clofun53, 1, R);
-coraCall1(co, v__3514432_37, v__3515045_37);
+Obj v__3515045_37 = PRIM_CDR(v__3514410_37);
+Obj v__3515046_37 = PRIM_CDR(v__3515045_37);
+Obj v__3515047_37 = PRIM_CDR(v__3515046_37);
+Obj v__3515048_37 = PRIM_ISCONS(v__3515047_37);
+if (True == v__3515048_37) {
+Obj v__3515049_37 = PRIM_CDR(v__3514410_37);
+Obj v__3515050_37 = PRIM_CDR(v__3515049_37);
+Obj v__3515051_37 = PRIM_CDR(v__3515050_37);
+Obj v__3515052_37 = PRIM_CAR(v__3515051_37);
+Obj v__3514635_37 = v__3515052_37;
+Obj v__3515053_37 = PRIM_CDR(v__3514410_37);
+Obj v__3515054_37 = PRIM_CDR(v__3515053_37);
+Obj v__3515055_37 = PRIM_CDR(v__3515054_37);
+Obj v__3515056_37 = PRIM_CDR(v__3515055_37);
+Obj v__3514636_37 = v__3515056_37;
+R[1] = v__3514634_37;
+R[2] = v__3514635_37;
+R[3] = v__3514412_37;
+R[4] = v__3514636_37;
+saveCont(co, clofun56, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514411_37);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3514627_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3514627_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3514627_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3514627_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3514627_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3514627_37);
+return;
+}
+}
+}
+case 1:
+{
+Obj v__3515057_37= co->res;
+Obj v__3514634_37 = R[1];
+Obj v__3514635_37 = R[2];
+Obj v__3514412_37 = R[3];
+Obj v__3514636_37 = R[4];
+Obj v__3515058_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515057_37);
+Obj v__3514637_37 = v__3515058_37;
+Obj v__3515059_37 = makeCons(co->gc, v__3514634_37, Nil);
+Obj v__3515060_37 = makeCons(co->gc, v__3514635_37, v__3515059_37);
+Obj v__3515061_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515060_37);
+Obj v__3515062_37 = makeCons(co->gc, v__3514637_37, v__3514412_37);
+Obj v__3515063_37 = makeCons(co->gc, v__3515061_37, v__3515062_37);
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514636_37, Nil, v__3515063_37);
+return;
+}
+}
+}
+
+static void clofun55(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3514628_37 = makeNative(co->gc, 1, clofun54, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515018_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515018_37) {
+Obj v__3515019_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515020_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515019_37);
+if (True == v__3515020_37) {
+Obj v__3515021_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515022_37 = PRIM_ISCONS(v__3515021_37);
+if (True == v__3515022_37) {
+Obj v__3515023_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515024_37 = PRIM_CAR(v__3515023_37);
+Obj v__3514631_37 = v__3515024_37;
+Obj v__3515025_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515026_37 = PRIM_CDR(v__3515025_37);
+Obj v__3514632_37 = v__3515026_37;
+R[1] = v__3514631_37;
+R[2] = v__3514632_37;
+saveCont(co, clofun55, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), closureRef(R[0], 1));
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3514628_37);
 return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3514628_37);
+return;
+}
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514431_37);
+coraCall0(co, v__3514628_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515046_37= co->res;
-Obj v__3514433_37 = R[1];
-Obj v__3514431_37 = R[2];
-Obj v__3514432_37 = R[3];
-if (True == v__3515046_37) {
-Obj v__3515047_37 = PRIM_CAR(v__3514433_37);
-Obj v__3515048_37 = makeCons(co->gc, v__3515047_37, v__3514431_37);
-Obj v__3515049_37 = PRIM_CDR(v__3514433_37);
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3515048_37, v__3514432_37, v__3515049_37);
-return;
-} else {
-Obj v__3515050_37 = PRIM_CDR(v__3514433_37);
+Obj v__3515027_37= co->res;
+Obj v__3514631_37 = R[1];
+Obj v__3514632_37 = R[2];
+Obj v__3515028_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515027_37);
+Obj v__3514633_37 = v__3515028_37;
+Obj v__3515029_37 = makeCons(co->gc, v__3514633_37, closureRef(R[0], 2));
+Obj v__3515030_37 = makeCons(co->gc, v__3514631_37, v__3515029_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3514431_37, v__3514432_37, v__3515050_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514632_37, Nil, v__3515030_37);
 return;
 }
 }
 }
-}
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514430_37 = R[1];
+Obj v__3515014_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515014_37) {
+Obj v__3515015_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514629_37 = v__3515015_37;
+Obj v__3515016_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514630_37 = v__3515016_37;
+Obj v__3515017_37 = makeCons(co->gc, v__3514629_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v__3514430_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514630_37, v__3515017_37, closureRef(R[0], 2));
 return;
+} else {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "no match-help found!"));
+return;
+}
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514428_37 = R[1];
-Obj v__3514429_37 = R[2];
-Obj v__3515039_37 = PRIM_EQ(v__3514429_37, Nil);
-if (True == v__3515039_37) {
-coraReturn(co, v__3514428_37);
-return;
-} else {
-Obj v__3515040_37 = PRIM_ADD(v__3514428_37, MAKE_NUMBER(1));
-Obj v__3515041_37 = PRIM_CDR(v__3514429_37);
+Obj v__3514409_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3515040_37, v__3515041_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v__3514409_37);
 return;
 }
 }
 }
-}
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514426_37 = R[1];
-Obj v__3514427_37 = R[2];
-R[1] = v__3514426_37;
-R[2] = v__3514427_37;
-saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514427_37);
+Obj v__3514405_37 = R[1];
+R[1] = v__3514405_37;
+saveCont(co, clofun52, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514405_37);
 return;
 }
 case 1:
 {
-Obj v__3515037_37= co->res;
-Obj v__3515036_37 = R[1];
+Obj v__3515010_37= co->res;
+Obj v__3514625_37 = R[1];
+Obj v__3514626_37 = v__3515010_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3515036_37, v__3515037_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 110)), v__3514625_37, v__3514626_37, makeNative(co->gc, 2, clofun51, 1, 1, v__3514626_37));
 return;
 }
 case 2:
 {
-Obj v__3515034_37= co->res;
-Obj v__3514426_37 = R[1];
-Obj v__3514427_37 = R[2];
-if (True == v__3515034_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514426_37);
-return;
-} else {
-Obj v__3515035_37 = PRIM_CAR(v__3514427_37);
-Obj v__3515036_37 = makeCons(co->gc, v__3515035_37, v__3514426_37);
-R[1] = v__3515036_37;
-saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514427_37);
+Obj v__3515009_37= co->res;
+Obj v__3514405_37 = R[1];
+Obj v__3514625_37 = v__3515009_37;
+R[1] = v__3514625_37;
+saveCont(co, clofun52, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514405_37);
 return;
 }
+case 3:
+{
+Obj v__3515008_37= co->res;
+Obj v__3514405_37 = R[1];
+R[1] = v__3514405_37;
+saveCont(co, clofun52, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3515008_37);
+return;
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514425_37 = R[1];
+Obj v__3514408_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514425_37, Nil, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), v__3514408_37, closureRef(R[0], 0));
 return;
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514400_37 = R[1];
-Obj v__3514401_37 = R[2];
-Obj v__3514402_37 = R[3];
-Obj v__3514981_37 = PRIM_EQ(Nil, v__3514400_37);
-if (True == v__3514981_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514402_37);
-return;
-} else {
-Obj v__3514616_37 = makeNative(co->gc, 3, clofun47, 0, 3, v__3514400_37, v__3514401_37, v__3514402_37);
-Obj v__3514999_37 = PRIM_ISCONS(v__3514400_37);
-if (True == v__3514999_37) {
-Obj v__3515000_37 = PRIM_CAR(v__3514400_37);
-Obj v__3515001_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515000_37);
-if (True == v__3515001_37) {
-Obj v__3515002_37 = PRIM_CDR(v__3514400_37);
-Obj v__3515003_37 = PRIM_ISCONS(v__3515002_37);
-if (True == v__3515003_37) {
-Obj v__3515004_37 = PRIM_CDR(v__3514400_37);
-Obj v__3515005_37 = PRIM_CAR(v__3515004_37);
-Obj v__3514623_37 = v__3515005_37;
-Obj v__3515006_37 = PRIM_CDR(v__3514400_37);
-Obj v__3515007_37 = PRIM_CDR(v__3515006_37);
-Obj v__3515008_37 = PRIM_ISCONS(v__3515007_37);
-if (True == v__3515008_37) {
-Obj v__3515009_37 = PRIM_CDR(v__3514400_37);
-Obj v__3515010_37 = PRIM_CDR(v__3515009_37);
-Obj v__3515011_37 = PRIM_CAR(v__3515010_37);
-Obj v__3515012_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3515011_37);
-if (True == v__3515012_37) {
-Obj v__3515013_37 = PRIM_CDR(v__3514400_37);
-Obj v__3515014_37 = PRIM_CDR(v__3515013_37);
-Obj v__3515015_37 = PRIM_CDR(v__3515014_37);
-Obj v__3515016_37 = PRIM_ISCONS(v__3515015_37);
-if (True == v__3515016_37) {
-Obj v__3515017_37 = PRIM_CDR(v__3514400_37);
-Obj v__3515018_37 = PRIM_CDR(v__3515017_37);
-Obj v__3515019_37 = PRIM_CDR(v__3515018_37);
-Obj v__3515020_37 = PRIM_CAR(v__3515019_37);
-Obj v__3514624_37 = v__3515020_37;
-Obj v__3515021_37 = PRIM_CDR(v__3514400_37);
-Obj v__3515022_37 = PRIM_CDR(v__3515021_37);
-Obj v__3515023_37 = PRIM_CDR(v__3515022_37);
-Obj v__3515024_37 = PRIM_CDR(v__3515023_37);
-Obj v__3514625_37 = v__3515024_37;
-R[1] = v__3514623_37;
+Obj v__3514402_37 = R[1];
+Obj v__3514403_37 = R[2];
+Obj v__3515001_37 = primGenSym(co);
+Obj v__3514624_37 = v__3515001_37;
+R[1] = v__3514402_37;
 R[2] = v__3514624_37;
-R[3] = v__3514402_37;
-R[4] = v__3514625_37;
-saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514401_37);
+saveCont(co, clofun50, 1, R);
+coraCall1(co, v__3514403_37, v__3514624_37);
 return;
-} else {
-co->ctx.sp = R;
-coraCall0(co, v__3514616_37);
+}
+case 1:
+{
+Obj v__3515002_37= co->res;
+Obj v__3514402_37 = R[1];
+Obj v__3514624_37 = R[2];
+Obj v__3515003_37 = makeCons(co->gc, v__3515002_37, Nil);
+Obj v__3515004_37 = makeCons(co->gc, v__3514402_37, v__3515003_37);
+Obj v__3515005_37 = makeCons(co->gc, v__3514624_37, v__3515004_37);
+Obj v__3515006_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515005_37);
+coraReturn(co, v__3515006_37);
 return;
 }
+}
+}
+
+static void clofun49(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3514397_37 = R[1];
+Obj v__3514398_37 = R[2];
+Obj v__3514399_37 = R[3];
+Obj v__3514988_37 = primIsSymbol(v__3514397_37);
+if (True == v__3514988_37) {
+R[1] = v__3514399_37;
+R[2] = v__3514397_37;
+saveCont(co, clofun49, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), v__3514397_37, v__3514398_37);
+return;
 } else {
-co->ctx.sp = R;
-coraCall0(co, v__3514616_37);
+Obj v__3514623_37 = makeNative(co->gc, 2, clofun48, 1, 3, v__3514398_37, v__3514397_37, v__3514399_37);
+R[1] = v__3514397_37;
+R[2] = v__3514623_37;
+saveCont(co, clofun49, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), v__3514397_37);
 return;
 }
-} else {
+}
+case 1:
+{
+Obj v__3514989_37= co->res;
+Obj v__3514399_37 = R[1];
+Obj v__3514397_37 = R[2];
+if (True == v__3514989_37) {
 co->ctx.sp = R;
-coraCall0(co, v__3514616_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3514397_37, v__3514399_37);
 return;
-}
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514616_37);
+coraCall1(co, v__3514399_37, v__3514397_37);
 return;
 }
+}
+case 2:
+{
+Obj v__3514997_37= co->res;
+Obj v__3514397_37 = R[1];
+Obj v__3514623_37 = R[2];
+if (True == v__3514997_37) {
+co->ctx.sp = R;
+coraCall1(co, v__3514623_37, True);
+return;
 } else {
+Obj v__3514998_37 = PRIM_CAR(v__3514397_37);
+Obj v__3514999_37 = PRIM_EQ(v__3514998_37, getBinding(co, packageID, 143).name);
+if (True == v__3514999_37) {
 co->ctx.sp = R;
-coraCall0(co, v__3514616_37);
+coraCall1(co, v__3514623_37, True);
 return;
-}
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514616_37);
+coraCall1(co, v__3514623_37, False);
 return;
 }
 }
 }
-case 1:
-{
-Obj v__3515025_37= co->res;
-Obj v__3514623_37 = R[1];
-Obj v__3514624_37 = R[2];
-Obj v__3514402_37 = R[3];
-Obj v__3514625_37 = R[4];
-Obj v__3515026_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515025_37);
-Obj v__3514626_37 = v__3515026_37;
-Obj v__3515027_37 = makeCons(co->gc, v__3514623_37, Nil);
-Obj v__3515028_37 = makeCons(co->gc, v__3514624_37, v__3515027_37);
-Obj v__3515029_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3515028_37);
-Obj v__3515030_37 = makeCons(co->gc, v__3514626_37, v__3514402_37);
-Obj v__3515031_37 = makeCons(co->gc, v__3515029_37, v__3515030_37);
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514625_37, Nil, v__3515031_37);
-return;
-}
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514617_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3514986_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3514986_37) {
-Obj v__3514987_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514988_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3514987_37);
-if (True == v__3514988_37) {
-Obj v__3514989_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514990_37 = PRIM_ISCONS(v__3514989_37);
-if (True == v__3514990_37) {
-Obj v__3514991_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514992_37 = PRIM_CAR(v__3514991_37);
-Obj v__3514620_37 = v__3514992_37;
-Obj v__3514993_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514994_37 = PRIM_CDR(v__3514993_37);
-Obj v__3514621_37 = v__3514994_37;
-R[1] = v__3514620_37;
-R[2] = v__3514621_37;
-saveCont(co, clofun47, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
-return;
-} else {
+Obj v__3514622_37 = R[1];
+if (True == v__3514622_37) {
 co->ctx.sp = R;
-coraCall0(co, v__3514617_37);
+coraCall1(co, closureRef(R[0], 2), closureRef(R[0], 1));
 return;
-}
 } else {
-co->ctx.sp = R;
-coraCall0(co, v__3514617_37);
+Obj v__3514990_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514991_37 = PRIM_EQ(v__3514990_37, getBinding(co, packageID, 156).name);
+if (True == v__3514991_37) {
+saveCont(co, clofun48, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), closureRef(R[0], 1));
 return;
-}
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514617_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
+}
 case 1:
 {
-Obj v__3514995_37= co->res;
-Obj v__3514620_37 = R[1];
-Obj v__3514621_37 = R[2];
-Obj v__3514996_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3514995_37);
-Obj v__3514622_37 = v__3514996_37;
-Obj v__3514997_37 = makeCons(co->gc, v__3514622_37, closureRef(R[0], 2));
-Obj v__3514998_37 = makeCons(co->gc, v__3514620_37, v__3514997_37);
+Obj v__3514992_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514621_37, Nil, v__3514998_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 110)), v__3514992_37, closureRef(R[0], 0), makeNative(co->gc, 2, clofun47, 1, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2)));
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514982_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3514982_37) {
-Obj v__3514983_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514618_37 = v__3514983_37;
-Obj v__3514984_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514619_37 = v__3514984_37;
-Obj v__3514985_37 = makeCons(co->gc, v__3514618_37, closureRef(R[0], 1));
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514619_37, v__3514985_37, closureRef(R[0], 2));
+Obj v__3514400_37 = R[1];
+R[1] = v__3514400_37;
+saveCont(co, clofun47, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 0));
 return;
-} else {
+}
+case 1:
+{
+Obj v__3514993_37= co->res;
+Obj v__3514400_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 110)), v__3514993_37, closureRef(R[0], 1), makeNative(co->gc, 2, clofun46, 1, 2, closureRef(R[0], 2), v__3514400_37));
 return;
 }
 }
 }
-}
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514399_37 = R[1];
+Obj v__3514401_37 = R[1];
+Obj v__3514994_37 = makeCons(co->gc, v__3514401_37, Nil);
+Obj v__3514995_37 = makeCons(co->gc, closureRef(R[0], 1), v__3514994_37);
+Obj v__3514996_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514995_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v__3514399_37);
+coraCall1(co, closureRef(R[0], 0), v__3514996_37);
 return;
 }
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v__3514395_37 = R[1];
-R[1] = v__3514395_37;
-saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514395_37);
+Obj v__3514396_37 = R[2];
+R[1] = v__3514396_37;
+R[2] = v__3514395_37;
+saveCont(co, clofun45, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514396_37);
 return;
 }
 case 1:
 {
-Obj v__3514968_37= co->res;
-Obj v__3514610_37 = R[1];
-Obj v__3514611_37 = v__3514968_37;
-Obj v__3514614_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3514610_37, v__3514611_37);
-Obj v__3514975_37 = PRIM_ISCONS(v__3514610_37);
-if (True == v__3514975_37) {
-Obj v__3514976_37 = PRIM_CAR(v__3514610_37);
-Obj v__3514977_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3514976_37);
-Obj v__3514978_37 = primNot(v__3514977_37);
-if (True == v__3514978_37) {
-co->ctx.sp = R;
-coraCall1(co, v__3514614_37, True);
-return;
-} else {
+Obj v__3514986_37= co->res;
+Obj v__3514620_37 = R[1];
+if (True == v__3514986_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514614_37, False);
+coraCall1(co, v__3514620_37, True);
 return;
-}
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514614_37, False);
+coraCall1(co, v__3514620_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3514967_37= co->res;
+Obj v__3514985_37= co->res;
 Obj v__3514395_37 = R[1];
-Obj v__3514610_37 = v__3514967_37;
-R[1] = v__3514610_37;
-saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514395_37);
+Obj v__3514620_37 = R[2];
+R[1] = v__3514620_37;
+saveCont(co, clofun45, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), v__3514395_37, v__3514985_37);
 return;
 }
 case 3:
 {
-Obj v__3514966_37= co->res;
-Obj v__3514395_37 = R[1];
+Obj v__3514984_37= co->res;
+Obj v__3514396_37 = R[1];
+Obj v__3514395_37 = R[2];
+Obj v__3514620_37 = R[3];
+if (True == v__3514984_37) {
+co->ctx.sp = R;
+coraCall1(co, v__3514620_37, True);
+return;
+} else {
 R[1] = v__3514395_37;
-saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3514966_37);
+R[2] = v__3514620_37;
+saveCont(co, clofun45, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514396_37);
+return;
+}
+}
+case 4:
+{
+Obj v__3514982_37= co->res;
+Obj v__3514396_37 = R[1];
+Obj v__3514395_37 = R[2];
+if (True == v__3514982_37) {
+Obj v__3514620_37 = makeNative(co->gc, 2, clofun44, 1, 0);
+Obj v__3514983_37 = PRIM_CAR(v__3514396_37);
+R[1] = v__3514396_37;
+R[2] = v__3514395_37;
+R[3] = v__3514620_37;
+saveCont(co, clofun45, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), v__3514395_37, v__3514983_37);
+return;
+} else {
+coraReturn(co, False);
 return;
 }
 }
 }
+}
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514613_37 = R[1];
-if (True == v__3514613_37) {
-Obj v__3514969_37 = primGenSym(co);
-Obj v__3514615_37 = v__3514969_37;
-R[1] = v__3514615_37;
-saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3514615_37, closureRef(R[0], 1));
+Obj v__3514619_37 = R[1];
+if (True == v__3514619_37) {
+coraReturn(co, True);
 return;
 } else {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraReturn(co, False);
 return;
 }
 }
+}
+}
+
+static void clofun43(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3514393_37 = R[1];
+Obj v__3514394_37 = R[2];
+R[1] = v__3514393_37;
+R[2] = v__3514394_37;
+saveCont(co, clofun43, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514394_37);
+return;
+}
 case 1:
 {
-Obj v__3514970_37= co->res;
-Obj v__3514615_37 = R[1];
-Obj v__3514971_37 = makeCons(co->gc, v__3514970_37, Nil);
-Obj v__3514972_37 = makeCons(co->gc, closureRef(R[0], 0), v__3514971_37);
-Obj v__3514973_37 = makeCons(co->gc, v__3514615_37, v__3514972_37);
-Obj v__3514974_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514973_37);
-coraReturn(co, v__3514974_37);
+Obj v__3514979_37= co->res;
+if (True == v__3514979_37) {
+coraReturn(co, True);
+return;
+} else {
+coraReturn(co, False);
+return;
+}
+}
+case 2:
+{
+Obj v__3514977_37= co->res;
+Obj v__3514394_37 = R[1];
+Obj v__3514393_37 = R[2];
+if (True == v__3514977_37) {
+coraReturn(co, True);
+return;
+} else {
+Obj v__3514978_37 = PRIM_CDR(v__3514394_37);
+saveCont(co, clofun43, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), v__3514393_37, v__3514978_37);
+return;
+}
+}
+case 3:
+{
+Obj v__3514975_37= co->res;
+Obj v__3514393_37 = R[1];
+Obj v__3514394_37 = R[2];
+if (True == v__3514975_37) {
+Obj v__3514976_37 = PRIM_CAR(v__3514394_37);
+R[1] = v__3514394_37;
+R[2] = v__3514393_37;
+saveCont(co, clofun43, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), v__3514393_37, v__3514976_37);
+return;
+} else {
+Obj v__3514980_37 = PRIM_EQ(v__3514393_37, v__3514394_37);
+coraReturn(co, v__3514980_37);
 return;
 }
 }
 }
+}
 
 static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514388_37 = R[1];
-Obj v__3514389_37 = R[2];
-R[1] = v__3514388_37;
-R[2] = v__3514389_37;
+Obj v__3514386_37 = R[1];
+Obj v__3514387_37 = R[2];
+R[1] = v__3514386_37;
+R[2] = v__3514387_37;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514389_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 165)), v__3514387_37);
 return;
 }
 case 1:
 {
-Obj v__3514964_37= co->res;
-Obj v__3514604_37 = R[1];
-if (True == v__3514964_37) {
+Obj v__3514973_37= co->res;
+Obj v__3514612_37 = R[1];
+if (True == v__3514973_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514604_37, True);
+coraCall1(co, v__3514612_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514604_37, False);
+coraCall1(co, v__3514612_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3514962_37= co->res;
-Obj v__3514389_37 = R[1];
-Obj v__3514604_37 = R[2];
-if (True == v__3514962_37) {
-Obj v__3514963_37 = PRIM_CDR(v__3514389_37);
-R[1] = v__3514604_37;
+Obj v__3514971_37= co->res;
+Obj v__3514387_37 = R[1];
+Obj v__3514612_37 = R[2];
+if (True == v__3514971_37) {
+Obj v__3514972_37 = PRIM_CDR(v__3514387_37);
+R[1] = v__3514612_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3514963_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514972_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514604_37, False);
+coraCall1(co, v__3514612_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3514944_37= co->res;
-Obj v__3514388_37 = R[1];
-Obj v__3514389_37 = R[2];
-if (True == v__3514944_37) {
-Obj v__3514945_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v__3514946_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514945_37);
-coraReturn(co, v__3514946_37);
+Obj v__3514953_37= co->res;
+Obj v__3514386_37 = R[1];
+Obj v__3514387_37 = R[2];
+if (True == v__3514953_37) {
+Obj v__3514954_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3514955_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3514954_37);
+coraReturn(co, v__3514955_37);
 return;
 } else {
-Obj v__3514604_37 = makeNative(co->gc, 3, clofun41, 1, 2, v__3514388_37, v__3514389_37);
-R[1] = v__3514389_37;
-R[2] = v__3514604_37;
+Obj v__3514612_37 = makeNative(co->gc, 3, clofun41, 1, 2, v__3514386_37, v__3514387_37);
+R[1] = v__3514387_37;
+R[2] = v__3514612_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3514389_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514387_37);
 return;
 }
 }
@@ -2919,72 +3211,72 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514603_37 = R[1];
-if (True == v__3514603_37) {
-Obj v__3514947_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3514605_37 = v__3514947_37;
-Obj v__3514948_37 = primGenSym(co);
-Obj v__3514606_37 = v__3514948_37;
-R[1] = v__3514605_37;
-R[2] = v__3514606_37;
+Obj v__3514611_37 = R[1];
+if (True == v__3514611_37) {
+Obj v__3514956_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514613_37 = v__3514956_37;
+Obj v__3514957_37 = primGenSym(co);
+Obj v__3514614_37 = v__3514957_37;
+R[1] = v__3514613_37;
+R[2] = v__3514614_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3514606_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 115)), closureRef(R[0], 1), v__3514614_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
 case 1:
 {
-Obj v__3514954_37= co->res;
-Obj v__3514608_37 = R[1];
-Obj v__3514606_37 = R[2];
-Obj v__3514609_37 = v__3514954_37;
-Obj v__3514955_37 = makeCons(co->gc, v__3514609_37, Nil);
-Obj v__3514956_37 = makeCons(co->gc, Nil, v__3514955_37);
-Obj v__3514957_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514956_37);
-Obj v__3514958_37 = makeCons(co->gc, v__3514608_37, Nil);
-Obj v__3514959_37 = makeCons(co->gc, v__3514957_37, v__3514958_37);
-Obj v__3514960_37 = makeCons(co->gc, v__3514606_37, v__3514959_37);
-Obj v__3514961_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514960_37);
-coraReturn(co, v__3514961_37);
+Obj v__3514963_37= co->res;
+Obj v__3514616_37 = R[1];
+Obj v__3514614_37 = R[2];
+Obj v__3514617_37 = v__3514963_37;
+Obj v__3514964_37 = makeCons(co->gc, v__3514617_37, Nil);
+Obj v__3514965_37 = makeCons(co->gc, Nil, v__3514964_37);
+Obj v__3514966_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3514965_37);
+Obj v__3514967_37 = makeCons(co->gc, v__3514616_37, Nil);
+Obj v__3514968_37 = makeCons(co->gc, v__3514966_37, v__3514967_37);
+Obj v__3514969_37 = makeCons(co->gc, v__3514614_37, v__3514968_37);
+Obj v__3514970_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3514969_37);
+coraReturn(co, v__3514970_37);
 return;
 }
 case 2:
 {
-Obj v__3514951_37= co->res;
-Obj v__3514606_37 = R[1];
-Obj v__3514608_37 = v__3514951_37;
-Obj v__3514952_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3514953_37 = PRIM_CDR(v__3514952_37);
-R[1] = v__3514608_37;
-R[2] = v__3514606_37;
+Obj v__3514960_37= co->res;
+Obj v__3514614_37 = R[1];
+Obj v__3514616_37 = v__3514960_37;
+Obj v__3514961_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3514962_37 = PRIM_CDR(v__3514961_37);
+R[1] = v__3514616_37;
+R[2] = v__3514614_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3514953_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), closureRef(R[0], 0), v__3514962_37);
 return;
 }
 case 3:
 {
-Obj v__3514950_37= co->res;
-Obj v__3514607_37 = R[1];
-Obj v__3514606_37 = R[2];
-R[1] = v__3514606_37;
+Obj v__3514959_37= co->res;
+Obj v__3514615_37 = R[1];
+Obj v__3514614_37 = R[2];
+R[1] = v__3514614_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3514950_37, closureRef(R[0], 0), v__3514607_37, v__3514606_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 121)), v__3514959_37, closureRef(R[0], 0), v__3514615_37, v__3514614_37);
 return;
 }
 case 4:
 {
-Obj v__3514949_37= co->res;
-Obj v__3514605_37 = R[1];
-Obj v__3514606_37 = R[2];
-Obj v__3514607_37 = v__3514949_37;
-R[1] = v__3514607_37;
-R[2] = v__3514606_37;
+Obj v__3514958_37= co->res;
+Obj v__3514613_37 = R[1];
+Obj v__3514614_37 = R[2];
+Obj v__3514615_37 = v__3514958_37;
+R[1] = v__3514615_37;
+R[2] = v__3514614_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3514605_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514613_37);
 return;
 }
 }
@@ -2994,38 +3286,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514385_37 = R[1];
-Obj v__3514386_37 = R[2];
-Obj v__3514931_37 = PRIM_CDR(v__3514385_37);
-Obj v__3514932_37 = PRIM_CAR(v__3514931_37);
-Obj v__3514598_37 = v__3514932_37;
-Obj v__3514601_37 = makeNative(co->gc, 2, clofun39, 1, 2, v__3514386_37, v__3514598_37);
-R[1] = v__3514598_37;
-R[2] = v__3514601_37;
+Obj v__3514383_37 = R[1];
+Obj v__3514384_37 = R[2];
+Obj v__3514940_37 = PRIM_CDR(v__3514383_37);
+Obj v__3514941_37 = PRIM_CAR(v__3514940_37);
+Obj v__3514606_37 = v__3514941_37;
+Obj v__3514609_37 = makeNative(co->gc, 2, clofun39, 1, 2, v__3514384_37, v__3514606_37);
+R[1] = v__3514606_37;
+R[2] = v__3514609_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3514598_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514606_37);
 return;
 }
 case 1:
 {
-Obj v__3514940_37= co->res;
-Obj v__3514598_37 = R[1];
-Obj v__3514601_37 = R[2];
-if (True == v__3514940_37) {
-Obj v__3514941_37 = PRIM_CAR(v__3514598_37);
-Obj v__3514942_37 = PRIM_EQ(v__3514941_37, getBinding(co, packageID, 110).name);
-if (True == v__3514942_37) {
+Obj v__3514949_37= co->res;
+Obj v__3514606_37 = R[1];
+Obj v__3514609_37 = R[2];
+if (True == v__3514949_37) {
+Obj v__3514950_37 = PRIM_CAR(v__3514606_37);
+Obj v__3514951_37 = PRIM_EQ(v__3514950_37, getBinding(co, packageID, 114).name);
+if (True == v__3514951_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514601_37, True);
+coraCall1(co, v__3514609_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514601_37, False);
+coraCall1(co, v__3514609_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514601_37, False);
+coraCall1(co, v__3514609_37, False);
 return;
 }
 }
@@ -3036,10 +3328,10 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514600_37 = R[1];
-if (True == v__3514600_37) {
+Obj v__3514608_37 = R[1];
+if (True == v__3514608_37) {
 saveCont(co, clofun39, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), closureRef(R[0], 1));
 return;
 } else {
 coraReturn(co, closureRef(R[0], 1));
@@ -3048,22 +3340,22 @@ return;
 }
 case 1:
 {
-Obj v__3514934_37= co->res;
-Obj v__3514933_37 = R[1];
-Obj v__3514935_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3514936_37 = makeCons(co->gc, v__3514935_37, Nil);
-Obj v__3514937_37 = makeCons(co->gc, v__3514934_37, v__3514936_37);
-Obj v__3514938_37 = makeCons(co->gc, v__3514933_37, v__3514937_37);
-Obj v__3514939_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514938_37);
-coraReturn(co, v__3514939_37);
+Obj v__3514943_37= co->res;
+Obj v__3514942_37 = R[1];
+Obj v__3514944_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3514945_37 = makeCons(co->gc, v__3514944_37, Nil);
+Obj v__3514946_37 = makeCons(co->gc, v__3514943_37, v__3514945_37);
+Obj v__3514947_37 = makeCons(co->gc, v__3514942_37, v__3514946_37);
+Obj v__3514948_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514947_37);
+coraReturn(co, v__3514948_37);
 return;
 }
 case 2:
 {
-Obj v__3514933_37= co->res;
-R[1] = v__3514933_37;
+Obj v__3514942_37= co->res;
+R[1] = v__3514942_37;
 saveCont(co, clofun39, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
 }
 }
@@ -3073,105 +3365,105 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514380_37 = R[1];
-Obj v__3514381_37 = R[2];
-Obj v__3514382_37 = R[3];
-Obj v__3514383_37 = R[4];
-R[1] = v__3514381_37;
-R[2] = v__3514382_37;
-R[3] = v__3514383_37;
-R[4] = v__3514380_37;
+Obj v__3514378_37 = R[1];
+Obj v__3514379_37 = R[2];
+Obj v__3514380_37 = R[3];
+Obj v__3514381_37 = R[4];
+R[1] = v__3514379_37;
+R[2] = v__3514380_37;
+R[3] = v__3514381_37;
+R[4] = v__3514378_37;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v__3514380_37);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v__3514378_37);
 return;
 }
 case 1:
 {
-Obj v__3514929_37= co->res;
+Obj v__3514938_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3514929_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514938_37);
 return;
 }
 case 2:
 {
-Obj v__3514916_37= co->res;
-Obj v__3514381_37 = R[1];
-Obj v__3514382_37 = R[2];
-Obj v__3514383_37 = R[3];
-Obj v__3514380_37 = R[4];
-if (True == v__3514916_37) {
-Obj v__3514917_37 = PRIM_CAR(v__3514380_37);
-Obj v__3514918_37 = PRIM_EQ(v__3514917_37, getBinding(co, packageID, 139).name);
-if (True == v__3514918_37) {
-Obj v__3514919_37 = makeCons(co->gc, v__3514381_37, Nil);
-Obj v__3514920_37 = makeCons(co->gc, v__3514380_37, v__3514919_37);
-Obj v__3514921_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3514920_37);
-Obj v__3514922_37 = makeCons(co->gc, v__3514383_37, Nil);
-Obj v__3514923_37 = makeCons(co->gc, v__3514922_37, Nil);
-Obj v__3514924_37 = makeCons(co->gc, v__3514382_37, v__3514923_37);
-Obj v__3514925_37 = makeCons(co->gc, v__3514921_37, v__3514924_37);
-Obj v__3514926_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514925_37);
-coraReturn(co, v__3514926_37);
+Obj v__3514925_37= co->res;
+Obj v__3514379_37 = R[1];
+Obj v__3514380_37 = R[2];
+Obj v__3514381_37 = R[3];
+Obj v__3514378_37 = R[4];
+if (True == v__3514925_37) {
+Obj v__3514926_37 = PRIM_CAR(v__3514378_37);
+Obj v__3514927_37 = PRIM_EQ(v__3514926_37, getBinding(co, packageID, 143).name);
+if (True == v__3514927_37) {
+Obj v__3514928_37 = makeCons(co->gc, v__3514379_37, Nil);
+Obj v__3514929_37 = makeCons(co->gc, v__3514378_37, v__3514928_37);
+Obj v__3514930_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3514929_37);
+Obj v__3514931_37 = makeCons(co->gc, v__3514381_37, Nil);
+Obj v__3514932_37 = makeCons(co->gc, v__3514931_37, Nil);
+Obj v__3514933_37 = makeCons(co->gc, v__3514380_37, v__3514932_37);
+Obj v__3514934_37 = makeCons(co->gc, v__3514930_37, v__3514933_37);
+Obj v__3514935_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514934_37);
+coraReturn(co, v__3514935_37);
 return;
 } else {
-Obj v__3514927_37 = PRIM_CAR(v__3514380_37);
-Obj v__3514928_37 = PRIM_EQ(v__3514927_37, getBinding(co, packageID, 152).name);
-if (True == v__3514928_37) {
+Obj v__3514936_37 = PRIM_CAR(v__3514378_37);
+Obj v__3514937_37 = PRIM_EQ(v__3514936_37, getBinding(co, packageID, 156).name);
+if (True == v__3514937_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3514380_37, v__3514381_37, v__3514382_37, v__3514383_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 122)), v__3514378_37, v__3514379_37, v__3514380_37, v__3514381_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), v__3514380_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 116)), makeCString(co->gc, "match fail "), v__3514378_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3514901_37= co->res;
-Obj v__3514381_37 = R[1];
-Obj v__3514382_37 = R[2];
-Obj v__3514383_37 = R[3];
-Obj v__3514380_37 = R[4];
-if (True == v__3514901_37) {
-Obj v__3514902_37 = PRIM_EQ(v__3514380_37, v__3514381_37);
-if (True == v__3514902_37) {
-coraReturn(co, v__3514382_37);
+Obj v__3514910_37= co->res;
+Obj v__3514379_37 = R[1];
+Obj v__3514380_37 = R[2];
+Obj v__3514381_37 = R[3];
+Obj v__3514378_37 = R[4];
+if (True == v__3514910_37) {
+Obj v__3514911_37 = PRIM_EQ(v__3514378_37, v__3514379_37);
+if (True == v__3514911_37) {
+coraReturn(co, v__3514380_37);
 return;
 } else {
-Obj v__3514903_37 = makeCons(co->gc, v__3514381_37, Nil);
-Obj v__3514904_37 = makeCons(co->gc, v__3514380_37, v__3514903_37);
-Obj v__3514905_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3514904_37);
-Obj v__3514906_37 = makeCons(co->gc, v__3514383_37, Nil);
-Obj v__3514907_37 = makeCons(co->gc, v__3514906_37, Nil);
-Obj v__3514908_37 = makeCons(co->gc, v__3514382_37, v__3514907_37);
-Obj v__3514909_37 = makeCons(co->gc, v__3514905_37, v__3514908_37);
-Obj v__3514910_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514909_37);
-coraReturn(co, v__3514910_37);
+Obj v__3514912_37 = makeCons(co->gc, v__3514379_37, Nil);
+Obj v__3514913_37 = makeCons(co->gc, v__3514378_37, v__3514912_37);
+Obj v__3514914_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3514913_37);
+Obj v__3514915_37 = makeCons(co->gc, v__3514381_37, Nil);
+Obj v__3514916_37 = makeCons(co->gc, v__3514915_37, Nil);
+Obj v__3514917_37 = makeCons(co->gc, v__3514380_37, v__3514916_37);
+Obj v__3514918_37 = makeCons(co->gc, v__3514914_37, v__3514917_37);
+Obj v__3514919_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514918_37);
+coraReturn(co, v__3514919_37);
 return;
 }
 } else {
-Obj v__3514911_37 = primIsSymbol(v__3514380_37);
-if (True == v__3514911_37) {
-Obj v__3514912_37 = makeCons(co->gc, v__3514382_37, Nil);
-Obj v__3514913_37 = makeCons(co->gc, v__3514381_37, v__3514912_37);
-Obj v__3514914_37 = makeCons(co->gc, v__3514380_37, v__3514913_37);
-Obj v__3514915_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514914_37);
-coraReturn(co, v__3514915_37);
+Obj v__3514920_37 = primIsSymbol(v__3514378_37);
+if (True == v__3514920_37) {
+Obj v__3514921_37 = makeCons(co->gc, v__3514380_37, Nil);
+Obj v__3514922_37 = makeCons(co->gc, v__3514379_37, v__3514921_37);
+Obj v__3514923_37 = makeCons(co->gc, v__3514378_37, v__3514922_37);
+Obj v__3514924_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3514923_37);
+coraReturn(co, v__3514924_37);
 return;
 } else {
-R[1] = v__3514381_37;
-R[2] = v__3514382_37;
-R[3] = v__3514383_37;
-R[4] = v__3514380_37;
+R[1] = v__3514379_37;
+R[2] = v__3514380_37;
+R[3] = v__3514381_37;
+R[4] = v__3514378_37;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3514380_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514378_37);
 return;
 }
 }
@@ -3183,20 +3475,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514384_37 = R[1];
-R[1] = v__3514384_37;
+Obj v__3514382_37 = R[1];
+R[1] = v__3514382_37;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514384_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 135)), v__3514382_37);
 return;
 }
 case 1:
 {
-Obj v__3514898_37= co->res;
-Obj v__3514384_37 = R[1];
-if (True == v__3514898_37) {
-Obj v__3514899_37 = primIsSymbol(v__3514384_37);
-Obj v__3514900_37 = primNot(v__3514899_37);
-if (True == v__3514900_37) {
+Obj v__3514907_37= co->res;
+Obj v__3514382_37 = R[1];
+if (True == v__3514907_37) {
+Obj v__3514908_37 = primIsSymbol(v__3514382_37);
+Obj v__3514909_37 = primNot(v__3514908_37);
+if (True == v__3514909_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3215,60 +3507,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514372_37 = R[1];
-Obj v__3514373_37 = R[2];
-Obj v__3514374_37 = R[3];
-Obj v__3514375_37 = R[4];
-R[1] = v__3514372_37;
-R[2] = v__3514374_37;
-R[3] = v__3514375_37;
-R[4] = v__3514373_37;
+Obj v__3514370_37 = R[1];
+Obj v__3514371_37 = R[2];
+Obj v__3514372_37 = R[3];
+Obj v__3514373_37 = R[4];
+R[1] = v__3514370_37;
+R[2] = v__3514372_37;
+R[3] = v__3514373_37;
+R[4] = v__3514371_37;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514372_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514370_37);
 return;
 }
 case 1:
 {
-Obj v__3514877_37= co->res;
-Obj v__3514591_37 = R[1];
-Obj v__3514374_37 = R[2];
-Obj v__3514375_37 = R[3];
-Obj v__3514373_37 = R[4];
-Obj v__3514592_37 = v__3514877_37;
-Obj v__3514595_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3514591_37, v__3514592_37, v__3514373_37, v__3514374_37, v__3514375_37);
-Obj v__3514894_37 = PRIM_ISCONS(v__3514373_37);
-if (True == v__3514894_37) {
-Obj v__3514895_37 = PRIM_CAR(v__3514373_37);
-Obj v__3514896_37 = PRIM_EQ(v__3514895_37, getBinding(co, packageID, 152).name);
-if (True == v__3514896_37) {
+Obj v__3514886_37= co->res;
+Obj v__3514599_37 = R[1];
+Obj v__3514372_37 = R[2];
+Obj v__3514373_37 = R[3];
+Obj v__3514371_37 = R[4];
+Obj v__3514600_37 = v__3514886_37;
+Obj v__3514603_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3514599_37, v__3514600_37, v__3514371_37, v__3514372_37, v__3514373_37);
+Obj v__3514903_37 = PRIM_ISCONS(v__3514371_37);
+if (True == v__3514903_37) {
+Obj v__3514904_37 = PRIM_CAR(v__3514371_37);
+Obj v__3514905_37 = PRIM_EQ(v__3514904_37, getBinding(co, packageID, 156).name);
+if (True == v__3514905_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514595_37, True);
+coraCall1(co, v__3514603_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514595_37, False);
+coraCall1(co, v__3514603_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514595_37, False);
+coraCall1(co, v__3514603_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3514876_37= co->res;
-Obj v__3514372_37 = R[1];
-Obj v__3514374_37 = R[2];
-Obj v__3514375_37 = R[3];
-Obj v__3514373_37 = R[4];
-Obj v__3514591_37 = v__3514876_37;
-R[1] = v__3514591_37;
-R[2] = v__3514374_37;
-R[3] = v__3514375_37;
-R[4] = v__3514373_37;
+Obj v__3514885_37= co->res;
+Obj v__3514370_37 = R[1];
+Obj v__3514372_37 = R[2];
+Obj v__3514373_37 = R[3];
+Obj v__3514371_37 = R[4];
+Obj v__3514599_37 = v__3514885_37;
+R[1] = v__3514599_37;
+R[2] = v__3514372_37;
+R[3] = v__3514373_37;
+R[4] = v__3514371_37;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514372_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514370_37);
 return;
 }
 }
@@ -3278,72 +3570,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514594_37 = R[1];
-if (True == v__3514594_37) {
+Obj v__3514602_37 = R[1];
+if (True == v__3514602_37) {
 saveCont(co, clofun35, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3514881_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3514882_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3514881_37);
-Obj v__3514883_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3514884_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3514883_37);
-Obj v__3514885_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3514886_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3514885_37);
-R[1] = v__3514884_37;
-R[2] = v__3514882_37;
+Obj v__3514890_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514891_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3514890_37);
+Obj v__3514892_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514893_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3514892_37);
+Obj v__3514894_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514895_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3514894_37);
+R[1] = v__3514893_37;
+R[2] = v__3514891_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3514886_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 121)), closureRef(R[0], 1), v__3514895_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3514880_37= co->res;
-Obj v__3514596_37 = R[1];
+Obj v__3514889_37= co->res;
+Obj v__3514604_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3514596_37, v__3514880_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 121)), closureRef(R[0], 0), v__3514604_37, v__3514889_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v__3514879_37= co->res;
-Obj v__3514596_37 = R[1];
-Obj v__3514597_37 = v__3514879_37;
-R[1] = v__3514596_37;
+Obj v__3514888_37= co->res;
+Obj v__3514604_37 = R[1];
+Obj v__3514605_37 = v__3514888_37;
+R[1] = v__3514604_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3514597_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 121)), closureRef(R[0], 1), v__3514605_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3514878_37= co->res;
-Obj v__3514596_37 = v__3514878_37;
-R[1] = v__3514596_37;
+Obj v__3514887_37= co->res;
+Obj v__3514604_37 = v__3514887_37;
+R[1] = v__3514604_37;
 saveCont(co, clofun35, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v__3514888_37= co->res;
-Obj v__3514882_37 = R[1];
-Obj v__3514889_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v__3514890_37 = makeCons(co->gc, v__3514889_37, Nil);
-Obj v__3514891_37 = makeCons(co->gc, v__3514888_37, v__3514890_37);
-Obj v__3514892_37 = makeCons(co->gc, v__3514882_37, v__3514891_37);
-Obj v__3514893_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514892_37);
-coraReturn(co, v__3514893_37);
+Obj v__3514897_37= co->res;
+Obj v__3514891_37 = R[1];
+Obj v__3514898_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3514899_37 = makeCons(co->gc, v__3514898_37, Nil);
+Obj v__3514900_37 = makeCons(co->gc, v__3514897_37, v__3514899_37);
+Obj v__3514901_37 = makeCons(co->gc, v__3514891_37, v__3514900_37);
+Obj v__3514902_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514901_37);
+coraReturn(co, v__3514902_37);
 return;
 }
 case 5:
 {
-Obj v__3514887_37= co->res;
-Obj v__3514884_37 = R[1];
-Obj v__3514882_37 = R[2];
-R[1] = v__3514882_37;
+Obj v__3514896_37= co->res;
+Obj v__3514893_37 = R[1];
+Obj v__3514891_37 = R[2];
+R[1] = v__3514891_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3514884_37, v__3514887_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 121)), closureRef(R[0], 0), v__3514893_37, v__3514896_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3353,10 +3645,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514371_37 = R[1];
-Obj v__3514874_37 = PRIM_CDR(v__3514371_37);
+Obj v__3514369_37 = R[1];
+Obj v__3514883_37 = PRIM_CDR(v__3514369_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3514874_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3514883_37);
 return;
 }
 }
@@ -3366,37 +3658,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514370_37 = R[1];
-Obj v__3514864_37 = PRIM_CDR(v__3514370_37);
-R[1] = v__3514370_37;
+Obj v__3514368_37 = R[1];
+Obj v__3514873_37 = PRIM_CDR(v__3514368_37);
+R[1] = v__3514368_37;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514864_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 165)), v__3514873_37);
 return;
 }
 case 1:
 {
-Obj v__3514869_37= co->res;
-Obj v__3514867_37 = R[1];
-Obj v__3514870_37 = makeCons(co->gc, v__3514869_37, Nil);
-Obj v__3514871_37 = makeCons(co->gc, v__3514867_37, v__3514870_37);
-Obj v__3514872_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3514871_37);
-coraReturn(co, v__3514872_37);
+Obj v__3514878_37= co->res;
+Obj v__3514876_37 = R[1];
+Obj v__3514879_37 = makeCons(co->gc, v__3514878_37, Nil);
+Obj v__3514880_37 = makeCons(co->gc, v__3514876_37, v__3514879_37);
+Obj v__3514881_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514880_37);
+coraReturn(co, v__3514881_37);
 return;
 }
 case 2:
 {
-Obj v__3514865_37= co->res;
-Obj v__3514370_37 = R[1];
-if (True == v__3514865_37) {
-Obj v__3514866_37 = PRIM_CAR(v__3514370_37);
-coraReturn(co, v__3514866_37);
+Obj v__3514874_37= co->res;
+Obj v__3514368_37 = R[1];
+if (True == v__3514874_37) {
+Obj v__3514875_37 = PRIM_CAR(v__3514368_37);
+coraReturn(co, v__3514875_37);
 return;
 } else {
-Obj v__3514867_37 = PRIM_CAR(v__3514370_37);
-Obj v__3514868_37 = PRIM_CDR(v__3514370_37);
-R[1] = v__3514867_37;
+Obj v__3514876_37 = PRIM_CAR(v__3514368_37);
+Obj v__3514877_37 = PRIM_CDR(v__3514368_37);
+R[1] = v__3514876_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3514868_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3514877_37);
 return;
 }
 }
@@ -3407,14 +3699,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514369_37 = R[1];
-Obj v__3514861_37 = PRIM_EQ(v__3514369_37, True);
-if (True == v__3514861_37) {
+Obj v__3514367_37 = R[1];
+Obj v__3514870_37 = PRIM_EQ(v__3514367_37, True);
+if (True == v__3514870_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514862_37 = PRIM_EQ(v__3514369_37, False);
-if (True == v__3514862_37) {
+Obj v__3514871_37 = PRIM_EQ(v__3514367_37, False);
+if (True == v__3514871_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3430,10 +3722,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514368_37 = R[1];
-Obj v__3514859_37 = PRIM_CDR(v__3514368_37);
+Obj v__3514366_37 = R[1];
+Obj v__3514868_37 = PRIM_CDR(v__3514366_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3514859_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3514868_37);
 return;
 }
 }
@@ -3443,56 +3735,49 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514366_37 = R[1];
-Obj v__3514847_37 = PRIM_EQ(Nil, v__3514366_37);
-if (True == v__3514847_37) {
+Obj v__3514365_37 = R[1];
+Obj v__3514857_37 = PRIM_EQ(Nil, v__3514365_37);
+if (True == v__3514857_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514848_37 = PRIM_CAR(v__3514366_37);
-Obj v__3514849_37 = PRIM_EQ(v__3514848_37, False);
-if (True == v__3514849_37) {
+Obj v__3514858_37 = PRIM_CAR(v__3514365_37);
+Obj v__3514859_37 = PRIM_EQ(v__3514858_37, False);
+if (True == v__3514859_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3514850_37 = PRIM_CDR(v__3514366_37);
-R[1] = v__3514366_37;
+Obj v__3514860_37 = PRIM_CAR(v__3514365_37);
+Obj v__3514861_37 = PRIM_CDR(v__3514365_37);
+R[1] = v__3514860_37;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3514850_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3514861_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3514851_37= co->res;
-Obj v__3514366_37 = R[1];
-Obj v__3514590_37 = v__3514851_37;
-Obj v__3514852_37 = PRIM_EQ(v__3514590_37, False);
-if (True == v__3514852_37) {
-coraReturn(co, False);
-return;
-} else {
-Obj v__3514853_37 = PRIM_CAR(v__3514366_37);
-Obj v__3514854_37 = makeCons(co->gc, False, Nil);
-Obj v__3514855_37 = makeCons(co->gc, v__3514590_37, v__3514854_37);
-Obj v__3514856_37 = makeCons(co->gc, v__3514853_37, v__3514855_37);
-Obj v__3514857_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514856_37);
-coraReturn(co, v__3514857_37);
+Obj v__3514862_37= co->res;
+Obj v__3514860_37 = R[1];
+Obj v__3514863_37 = makeCons(co->gc, False, Nil);
+Obj v__3514864_37 = makeCons(co->gc, v__3514862_37, v__3514863_37);
+Obj v__3514865_37 = makeCons(co->gc, v__3514860_37, v__3514864_37);
+Obj v__3514866_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514865_37);
+coraReturn(co, v__3514866_37);
 return;
 }
 }
 }
-}
 
 static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514365_37 = R[1];
-Obj v__3514845_37 = PRIM_CDR(v__3514365_37);
+Obj v__3514364_37 = R[1];
+Obj v__3514855_37 = PRIM_CDR(v__3514364_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3514845_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), v__3514855_37);
 return;
 }
 }
@@ -3503,100 +3788,93 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514363_37 = R[1];
-Obj v__3514833_37 = PRIM_EQ(v__3514363_37, Nil);
-if (True == v__3514833_37) {
+Obj v__3514844_37 = PRIM_EQ(v__3514363_37, Nil);
+if (True == v__3514844_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3514834_37 = PRIM_CAR(v__3514363_37);
-Obj v__3514835_37 = PRIM_EQ(v__3514834_37, True);
-if (True == v__3514835_37) {
+Obj v__3514845_37 = PRIM_CAR(v__3514363_37);
+Obj v__3514846_37 = PRIM_EQ(v__3514845_37, True);
+if (True == v__3514846_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514836_37 = PRIM_CDR(v__3514363_37);
-R[1] = v__3514363_37;
+Obj v__3514847_37 = PRIM_CAR(v__3514363_37);
+Obj v__3514848_37 = PRIM_CDR(v__3514363_37);
+R[1] = v__3514847_37;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3514836_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 129)), v__3514848_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3514837_37= co->res;
-Obj v__3514363_37 = R[1];
-Obj v__3514589_37 = v__3514837_37;
-Obj v__3514838_37 = PRIM_EQ(v__3514589_37, True);
-if (True == v__3514838_37) {
-coraReturn(co, True);
-return;
-} else {
-Obj v__3514839_37 = PRIM_CAR(v__3514363_37);
-Obj v__3514840_37 = makeCons(co->gc, v__3514589_37, Nil);
-Obj v__3514841_37 = makeCons(co->gc, True, v__3514840_37);
-Obj v__3514842_37 = makeCons(co->gc, v__3514839_37, v__3514841_37);
-Obj v__3514843_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514842_37);
-coraReturn(co, v__3514843_37);
+Obj v__3514849_37= co->res;
+Obj v__3514847_37 = R[1];
+Obj v__3514850_37 = makeCons(co->gc, v__3514849_37, Nil);
+Obj v__3514851_37 = makeCons(co->gc, True, v__3514850_37);
+Obj v__3514852_37 = makeCons(co->gc, v__3514847_37, v__3514851_37);
+Obj v__3514853_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514852_37);
+coraReturn(co, v__3514853_37);
 return;
 }
 }
 }
-}
 
 static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v__3514361_37 = R[1];
-Obj v__3514819_37 = PRIM_CDR(v__3514361_37);
-Obj v__3514820_37 = PRIM_EQ(Nil, v__3514819_37);
-if (True == v__3514820_37) {
-Obj v__3514821_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v__3514822_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514821_37);
-coraReturn(co, v__3514822_37);
+Obj v__3514830_37 = PRIM_CDR(v__3514361_37);
+Obj v__3514831_37 = PRIM_EQ(Nil, v__3514830_37);
+if (True == v__3514831_37) {
+Obj v__3514832_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3514833_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3514832_37);
+coraReturn(co, v__3514833_37);
 return;
 } else {
 R[1] = v__3514361_37;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514361_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514361_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3514826_37= co->res;
-Obj v__3514825_37 = R[1];
-Obj v__3514824_37 = R[2];
-Obj v__3514827_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3514826_37);
-Obj v__3514828_37 = makeCons(co->gc, v__3514827_37, Nil);
-Obj v__3514829_37 = makeCons(co->gc, v__3514825_37, v__3514828_37);
-Obj v__3514830_37 = makeCons(co->gc, v__3514824_37, v__3514829_37);
-Obj v__3514831_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3514830_37);
-coraReturn(co, v__3514831_37);
+Obj v__3514837_37= co->res;
+Obj v__3514836_37 = R[1];
+Obj v__3514835_37 = R[2];
+Obj v__3514838_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3514837_37);
+Obj v__3514839_37 = makeCons(co->gc, v__3514838_37, Nil);
+Obj v__3514840_37 = makeCons(co->gc, v__3514836_37, v__3514839_37);
+Obj v__3514841_37 = makeCons(co->gc, v__3514835_37, v__3514840_37);
+Obj v__3514842_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514841_37);
+coraReturn(co, v__3514842_37);
 return;
 }
 case 2:
 {
-Obj v__3514825_37= co->res;
+Obj v__3514836_37= co->res;
 Obj v__3514361_37 = R[1];
-Obj v__3514824_37 = R[2];
-R[1] = v__3514825_37;
-R[2] = v__3514824_37;
+Obj v__3514835_37 = R[2];
+R[1] = v__3514836_37;
+R[2] = v__3514835_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514361_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514361_37);
 return;
 }
 case 3:
 {
-Obj v__3514823_37= co->res;
+Obj v__3514834_37= co->res;
 Obj v__3514361_37 = R[1];
-Obj v__3514588_37 = v__3514823_37;
-Obj v__3514824_37 = PRIM_CAR(v__3514588_37);
+Obj v__3514598_37 = v__3514834_37;
+Obj v__3514835_37 = PRIM_CAR(v__3514598_37);
 R[1] = v__3514361_37;
-R[2] = v__3514824_37;
+R[2] = v__3514835_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514588_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514598_37);
 return;
 }
 }
@@ -3607,9 +3885,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514360_37 = R[1];
-Obj v__3514817_37 = PRIM_CDR(v__3514360_37);
+Obj v__3514828_37 = PRIM_CDR(v__3514360_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3514817_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 134)), v__3514828_37);
 return;
 }
 }
@@ -3620,60 +3898,60 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514359_37 = R[1];
-Obj v__3514805_37 = PRIM_CDR(v__3514359_37);
+Obj v__3514816_37 = PRIM_CDR(v__3514359_37);
 R[1] = v__3514359_37;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514805_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 165)), v__3514816_37);
 return;
 }
 case 1:
 {
-Obj v__3514811_37= co->res;
-Obj v__3514809_37 = R[1];
-Obj v__3514808_37 = R[2];
-Obj v__3514812_37 = makeCons(co->gc, v__3514811_37, Nil);
-Obj v__3514813_37 = makeCons(co->gc, v__3514809_37, v__3514812_37);
-Obj v__3514814_37 = makeCons(co->gc, v__3514808_37, v__3514813_37);
-Obj v__3514815_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514814_37);
-coraReturn(co, v__3514815_37);
+Obj v__3514822_37= co->res;
+Obj v__3514820_37 = R[1];
+Obj v__3514819_37 = R[2];
+Obj v__3514823_37 = makeCons(co->gc, v__3514822_37, Nil);
+Obj v__3514824_37 = makeCons(co->gc, v__3514820_37, v__3514823_37);
+Obj v__3514825_37 = makeCons(co->gc, v__3514819_37, v__3514824_37);
+Obj v__3514826_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3514825_37);
+coraReturn(co, v__3514826_37);
 return;
 }
 case 2:
 {
-Obj v__3514810_37= co->res;
-Obj v__3514809_37 = R[1];
-Obj v__3514808_37 = R[2];
-R[1] = v__3514809_37;
-R[2] = v__3514808_37;
+Obj v__3514821_37= co->res;
+Obj v__3514820_37 = R[1];
+Obj v__3514819_37 = R[2];
+R[1] = v__3514820_37;
+R[2] = v__3514819_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3514810_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 134)), v__3514821_37);
 return;
 }
 case 3:
 {
-Obj v__3514809_37= co->res;
+Obj v__3514820_37= co->res;
 Obj v__3514359_37 = R[1];
-Obj v__3514808_37 = R[2];
-R[1] = v__3514809_37;
-R[2] = v__3514808_37;
+Obj v__3514819_37 = R[2];
+R[1] = v__3514820_37;
+R[2] = v__3514819_37;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514359_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514359_37);
 return;
 }
 case 4:
 {
-Obj v__3514806_37= co->res;
+Obj v__3514817_37= co->res;
 Obj v__3514359_37 = R[1];
-if (True == v__3514806_37) {
-Obj v__3514807_37 = PRIM_CAR(v__3514359_37);
-coraReturn(co, v__3514807_37);
+if (True == v__3514817_37) {
+Obj v__3514818_37 = PRIM_CAR(v__3514359_37);
+coraReturn(co, v__3514818_37);
 return;
 } else {
-Obj v__3514808_37 = PRIM_CAR(v__3514359_37);
+Obj v__3514819_37 = PRIM_CAR(v__3514359_37);
 R[1] = v__3514359_37;
-R[2] = v__3514808_37;
+R[2] = v__3514819_37;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514359_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514359_37);
 return;
 }
 }
@@ -3685,9 +3963,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514358_37 = R[1];
-Obj v__3514802_37 = PRIM_ISCONS(v__3514358_37);
-Obj v__3514803_37 = primNot(v__3514802_37);
-coraReturn(co, v__3514803_37);
+Obj v__3514813_37 = PRIM_ISCONS(v__3514358_37);
+Obj v__3514814_37 = primNot(v__3514813_37);
+coraReturn(co, v__3514814_37);
 return;
 }
 }
@@ -3699,17 +3977,17 @@ case 0:
 {
 Obj v__3514356_37 = R[1];
 Obj v__3514357_37 = R[2];
-Obj v__3514797_37 = PRIM_ISCONS(v__3514357_37);
-if (True == v__3514797_37) {
-Obj v__3514798_37 = PRIM_CAR(v__3514357_37);
-Obj v__3514799_37 = PRIM_EQ(v__3514798_37, v__3514356_37);
-if (True == v__3514799_37) {
+Obj v__3514808_37 = PRIM_ISCONS(v__3514357_37);
+if (True == v__3514808_37) {
+Obj v__3514809_37 = PRIM_CAR(v__3514357_37);
+Obj v__3514810_37 = PRIM_EQ(v__3514809_37, v__3514356_37);
+if (True == v__3514810_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514800_37 = PRIM_CDR(v__3514357_37);
+Obj v__3514811_37 = PRIM_CDR(v__3514357_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3514356_37, v__3514800_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 136)), v__3514356_37, v__3514811_37);
 return;
 }
 } else {
@@ -3727,42 +4005,42 @@ case 0:
 Obj v__3514355_37 = R[1];
 R[1] = v__3514355_37;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514355_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514355_37);
 return;
 }
 case 1:
 {
-Obj v__3514789_37= co->res;
-Obj v__3514788_37 = R[1];
-Obj v__3514787_37 = R[2];
-Obj v__3514790_37 = makeCons(co->gc, v__3514789_37, Nil);
-Obj v__3514791_37 = makeCons(co->gc, v__3514788_37, v__3514790_37);
-Obj v__3514792_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514791_37);
-Obj v__3514793_37 = makeCons(co->gc, v__3514792_37, Nil);
-Obj v__3514794_37 = makeCons(co->gc, v__3514787_37, v__3514793_37);
-Obj v__3514795_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3514794_37);
-coraReturn(co, v__3514795_37);
+Obj v__3514800_37= co->res;
+Obj v__3514799_37 = R[1];
+Obj v__3514798_37 = R[2];
+Obj v__3514801_37 = makeCons(co->gc, v__3514800_37, Nil);
+Obj v__3514802_37 = makeCons(co->gc, v__3514799_37, v__3514801_37);
+Obj v__3514803_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3514802_37);
+Obj v__3514804_37 = makeCons(co->gc, v__3514803_37, Nil);
+Obj v__3514805_37 = makeCons(co->gc, v__3514798_37, v__3514804_37);
+Obj v__3514806_37 = makeCons(co->gc, getBinding(co, packageID, 137).name, v__3514805_37);
+coraReturn(co, v__3514806_37);
 return;
 }
 case 2:
 {
-Obj v__3514788_37= co->res;
+Obj v__3514799_37= co->res;
 Obj v__3514355_37 = R[1];
-Obj v__3514787_37 = R[2];
-R[1] = v__3514788_37;
-R[2] = v__3514787_37;
+Obj v__3514798_37 = R[2];
+R[1] = v__3514799_37;
+R[2] = v__3514798_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514355_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 159)), v__3514355_37);
 return;
 }
 case 3:
 {
-Obj v__3514787_37= co->res;
+Obj v__3514798_37= co->res;
 Obj v__3514355_37 = R[1];
 R[1] = v__3514355_37;
-R[2] = v__3514787_37;
+R[2] = v__3514798_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514355_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514355_37);
 return;
 }
 }
@@ -3773,9 +4051,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514354_37 = R[1];
-Obj v__3514785_37 = PRIM_CDR(v__3514354_37);
+Obj v__3514796_37 = PRIM_CDR(v__3514354_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514785_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514796_37);
 return;
 }
 }
@@ -3788,43 +4066,43 @@ case 0:
 Obj v__3514353_37 = R[1];
 R[1] = v__3514353_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514353_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514353_37);
 return;
 }
 case 1:
 {
-Obj v__3514777_37= co->res;
-Obj v__3514776_37 = R[1];
-Obj v__3514775_37 = R[2];
-Obj v__3514778_37 = makeCons(co->gc, v__3514776_37, v__3514777_37);
-Obj v__3514779_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514778_37);
-Obj v__3514780_37 = makeCons(co->gc, v__3514779_37, Nil);
-Obj v__3514781_37 = makeCons(co->gc, v__3514775_37, v__3514780_37);
-Obj v__3514782_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3514781_37);
-coraReturn(co, v__3514782_37);
+Obj v__3514788_37= co->res;
+Obj v__3514787_37 = R[1];
+Obj v__3514786_37 = R[2];
+Obj v__3514789_37 = makeCons(co->gc, v__3514787_37, v__3514788_37);
+Obj v__3514790_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3514789_37);
+Obj v__3514791_37 = makeCons(co->gc, v__3514790_37, Nil);
+Obj v__3514792_37 = makeCons(co->gc, v__3514786_37, v__3514791_37);
+Obj v__3514793_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, v__3514792_37);
+coraReturn(co, v__3514793_37);
 return;
 }
 case 2:
 {
-Obj v__3514776_37= co->res;
+Obj v__3514787_37= co->res;
 Obj v__3514353_37 = R[1];
-Obj v__3514775_37 = R[2];
-R[1] = v__3514776_37;
-R[2] = v__3514775_37;
+Obj v__3514786_37 = R[2];
+R[1] = v__3514787_37;
+R[2] = v__3514786_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514353_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514353_37);
 return;
 }
 case 3:
 {
-Obj v__3514773_37= co->res;
+Obj v__3514784_37= co->res;
 Obj v__3514353_37 = R[1];
-Obj v__3514774_37 = makeCons(co->gc, v__3514773_37, Nil);
-Obj v__3514775_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514774_37);
+Obj v__3514785_37 = makeCons(co->gc, v__3514784_37, Nil);
+Obj v__3514786_37 = makeCons(co->gc, getBinding(co, packageID, 143).name, v__3514785_37);
 R[1] = v__3514353_37;
-R[2] = v__3514775_37;
+R[2] = v__3514786_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514353_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514353_37);
 return;
 }
 }
@@ -3835,32 +4113,32 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514351_37 = R[1];
-Obj v__3514755_37 = PRIM_ISCONS(v__3514351_37);
-if (True == v__3514755_37) {
-Obj v__3514756_37 = PRIM_CAR(v__3514351_37);
-Obj v__3514757_37 = PRIM_EQ(v__3514756_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v__3514757_37) {
-Obj v__3514758_37 = PRIM_CDR(v__3514351_37);
-coraReturn(co, v__3514758_37);
-return;
-} else {
-Obj v__3514759_37 = PRIM_CAR(v__3514351_37);
-Obj v__3514760_37 = PRIM_EQ(v__3514759_37, getBinding(co, packageID, 140).name);
-if (True == v__3514760_37) {
+Obj v__3514766_37 = PRIM_ISCONS(v__3514351_37);
+if (True == v__3514766_37) {
+Obj v__3514767_37 = PRIM_CAR(v__3514351_37);
+Obj v__3514768_37 = PRIM_EQ(v__3514767_37, globalRef(co, getBinding(co, packageID, 149)));
+if (True == v__3514768_37) {
+Obj v__3514769_37 = PRIM_CDR(v__3514351_37);
+coraReturn(co, v__3514769_37);
+return;
+} else {
+Obj v__3514770_37 = PRIM_CAR(v__3514351_37);
+Obj v__3514771_37 = PRIM_EQ(v__3514770_37, getBinding(co, packageID, 144).name);
+if (True == v__3514771_37) {
 R[1] = v__3514351_37;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514351_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 164)), v__3514351_37);
 return;
 } else {
-Obj v__3514767_37 = PRIM_CAR(v__3514351_37);
-Obj v__3514768_37 = PRIM_EQ(v__3514767_37, getBinding(co, packageID, 139).name);
-if (True == v__3514768_37) {
+Obj v__3514778_37 = PRIM_CAR(v__3514351_37);
+Obj v__3514779_37 = PRIM_EQ(v__3514778_37, getBinding(co, packageID, 143).name);
+if (True == v__3514779_37) {
 coraReturn(co, v__3514351_37);
 return;
 } else {
 R[1] = v__3514351_37;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514351_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 146)), v__3514351_37);
 return;
 }
 }
@@ -3872,38 +4150,38 @@ return;
 }
 case 1:
 {
-Obj v__3514763_37= co->res;
-Obj v__3514761_37 = R[1];
-Obj v__3514764_37 = makeCons(co->gc, v__3514763_37, Nil);
-Obj v__3514765_37 = makeCons(co->gc, v__3514761_37, v__3514764_37);
-Obj v__3514766_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514765_37);
-coraReturn(co, v__3514766_37);
+Obj v__3514774_37= co->res;
+Obj v__3514772_37 = R[1];
+Obj v__3514775_37 = makeCons(co->gc, v__3514774_37, Nil);
+Obj v__3514776_37 = makeCons(co->gc, v__3514772_37, v__3514775_37);
+Obj v__3514777_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3514776_37);
+coraReturn(co, v__3514777_37);
 return;
 }
 case 2:
 {
-Obj v__3514762_37= co->res;
-Obj v__3514761_37 = R[1];
-R[1] = v__3514761_37;
+Obj v__3514773_37= co->res;
+Obj v__3514772_37 = R[1];
+R[1] = v__3514772_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3514762_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 145)), v__3514773_37);
 return;
 }
 case 3:
 {
-Obj v__3514761_37= co->res;
+Obj v__3514772_37= co->res;
 Obj v__3514351_37 = R[1];
-R[1] = v__3514761_37;
+R[1] = v__3514772_37;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514351_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3514351_37);
 return;
 }
 case 4:
 {
-Obj v__3514770_37= co->res;
+Obj v__3514781_37= co->res;
 Obj v__3514351_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v__3514351_37), v__3514770_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v__3514351_37), v__3514781_37);
 return;
 }
 }
@@ -3914,14 +4192,14 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514352_37 = R[1];
-Obj v__3514769_37 = PRIM_EQ(v__3514352_37, closureRef(R[0], 0));
-if (True == v__3514769_37) {
+Obj v__3514780_37 = PRIM_EQ(v__3514352_37, closureRef(R[0], 0));
+if (True == v__3514780_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v__3514352_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), globalRef(co, getBinding(co, packageID, 145)), v__3514352_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3514352_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 145)), v__3514352_37);
 return;
 }
 }
@@ -3934,7 +4212,7 @@ case 0:
 {
 Obj v__3514350_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), v__3514350_37, globalRef(co, getBinding(co, packageID, 146)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3514350_37, globalRef(co, getBinding(co, packageID, 150)));
 return;
 }
 }
@@ -3946,14 +4224,14 @@ case 0:
 {
 Obj v__3514347_37 = R[1];
 Obj v__3514348_37 = R[2];
-Obj v__3514745_37 = PRIM_EQ(Nil, v__3514348_37);
-if (True == v__3514745_37) {
+Obj v__3514756_37 = PRIM_EQ(Nil, v__3514348_37);
+if (True == v__3514756_37) {
 coraReturn(co, v__3514347_37);
 return;
 } else {
-Obj v__3514752_37 = PRIM_CAR(v__3514348_37);
+Obj v__3514763_37 = PRIM_CAR(v__3514348_37);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v__3514348_37, v__3514347_37), v__3514752_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v__3514348_37, v__3514347_37), v__3514763_37);
 return;
 }
 }
@@ -3965,24 +4243,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514349_37 = R[1];
-Obj v__3514587_37 = makeNative(co->gc, 2, clofun14, 1, 3, v__3514349_37, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3514748_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3514748_37) {
-Obj v__3514749_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3514750_37 = PRIM_CAR(v__3514349_37);
-Obj v__3514751_37 = PRIM_EQ(v__3514749_37, v__3514750_37);
-if (True == v__3514751_37) {
+Obj v__3514597_37 = makeNative(co->gc, 2, clofun14, 1, 3, v__3514349_37, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3514759_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3514759_37) {
+Obj v__3514760_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514761_37 = PRIM_CAR(v__3514349_37);
+Obj v__3514762_37 = PRIM_EQ(v__3514760_37, v__3514761_37);
+if (True == v__3514762_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514587_37, True);
+coraCall1(co, v__3514597_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514587_37, False);
+coraCall1(co, v__3514597_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514587_37, False);
+coraCall1(co, v__3514597_37, False);
 return;
 }
 }
@@ -3993,16 +4271,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514586_37 = R[1];
-if (True == v__3514586_37) {
-Obj v__3514746_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514596_37 = R[1];
+if (True == v__3514596_37) {
+Obj v__3514757_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v__3514746_37, closureRef(R[0], 1));
+coraCall1(co, v__3514757_37, closureRef(R[0], 1));
 return;
 } else {
-Obj v__3514747_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3514758_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3514747_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), closureRef(R[0], 1), v__3514758_37);
 return;
 }
 }
@@ -4015,10 +4293,10 @@ case 0:
 {
 Obj v__3514345_37 = R[1];
 Obj v__3514346_37 = R[2];
-Obj v__3514741_37 = makeCons(co->gc, v__3514345_37, v__3514346_37);
-Obj v__3514742_37 = makeCons(co->gc, v__3514741_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj v__3514743_37 = primSet(co, getBinding(co, packageID, 146).name, v__3514742_37);
-coraReturn(co, v__3514743_37);
+Obj v__3514752_37 = makeCons(co->gc, v__3514345_37, v__3514346_37);
+Obj v__3514753_37 = makeCons(co->gc, v__3514752_37, globalRef(co, getBinding(co, packageID, 150)));
+Obj v__3514754_37 = primSet(co, getBinding(co, packageID, 150).name, v__3514753_37);
+coraReturn(co, v__3514754_37);
 return;
 }
 }
@@ -4031,7 +4309,7 @@ case 0:
 Obj v__3514343_37 = R[1];
 Obj v__3514344_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, v__3514343_37, v__3514344_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 152)), Nil, v__3514343_37, v__3514344_37);
 return;
 }
 }
@@ -4044,31 +4322,31 @@ case 0:
 Obj v__3514340_37 = R[1];
 Obj v__3514341_37 = R[2];
 Obj v__3514342_37 = R[3];
-Obj v__3514731_37 = PRIM_ISCONS(v__3514342_37);
-if (True == v__3514731_37) {
-Obj v__3514732_37 = PRIM_CAR(v__3514342_37);
+Obj v__3514742_37 = PRIM_ISCONS(v__3514342_37);
+if (True == v__3514742_37) {
+Obj v__3514743_37 = PRIM_CAR(v__3514342_37);
 R[1] = v__3514340_37;
 R[2] = v__3514342_37;
 R[3] = v__3514341_37;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v__3514341_37, v__3514732_37);
+coraCall1(co, v__3514341_37, v__3514743_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v__3514340_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514340_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3514733_37= co->res;
+Obj v__3514744_37= co->res;
 Obj v__3514340_37 = R[1];
 Obj v__3514342_37 = R[2];
 Obj v__3514341_37 = R[3];
-Obj v__3514734_37 = makeCons(co->gc, v__3514733_37, v__3514340_37);
-Obj v__3514735_37 = PRIM_CDR(v__3514342_37);
+Obj v__3514745_37 = makeCons(co->gc, v__3514744_37, v__3514340_37);
+Obj v__3514746_37 = PRIM_CDR(v__3514342_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3514734_37, v__3514341_37, v__3514735_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 152)), v__3514745_37, v__3514341_37, v__3514746_37);
 return;
 }
 }
@@ -4080,13 +4358,13 @@ case 0:
 {
 Obj v__3514338_37 = R[1];
 Obj v__3514339_37 = R[2];
-Obj v__3514724_37 = PRIM_ISCONS(v__3514339_37);
-if (True == v__3514724_37) {
-Obj v__3514725_37 = PRIM_CAR(v__3514339_37);
-Obj v__3514726_37 = makeCons(co->gc, v__3514725_37, v__3514338_37);
-Obj v__3514727_37 = PRIM_CDR(v__3514339_37);
+Obj v__3514735_37 = PRIM_ISCONS(v__3514339_37);
+if (True == v__3514735_37) {
+Obj v__3514736_37 = PRIM_CAR(v__3514339_37);
+Obj v__3514737_37 = makeCons(co->gc, v__3514736_37, v__3514338_37);
+Obj v__3514738_37 = PRIM_CDR(v__3514339_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3514726_37, v__3514727_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 154)), v__3514737_37, v__3514738_37);
 return;
 } else {
 coraReturn(co, v__3514338_37);
@@ -4101,8 +4379,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514337_37 = R[1];
-Obj v__3514722_37 = PRIM_ISCONS(v__3514337_37);
-coraReturn(co, v__3514722_37);
+Obj v__3514733_37 = PRIM_ISCONS(v__3514337_37);
+coraReturn(co, v__3514733_37);
 return;
 }
 }
@@ -4113,13 +4391,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514336_37 = R[1];
-Obj v__3514714_37 = PRIM_ISCONS(v__3514336_37);
-if (True == v__3514714_37) {
-Obj v__3514715_37 = PRIM_CAR(v__3514336_37);
-Obj v__3514716_37 = PRIM_CDR(v__3514336_37);
-R[1] = v__3514715_37;
+Obj v__3514725_37 = PRIM_ISCONS(v__3514336_37);
+if (True == v__3514725_37) {
+Obj v__3514726_37 = PRIM_CAR(v__3514336_37);
+Obj v__3514727_37 = PRIM_CDR(v__3514336_37);
+R[1] = v__3514726_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3514716_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514727_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4128,12 +4406,12 @@ return;
 }
 case 1:
 {
-Obj v__3514717_37= co->res;
-Obj v__3514715_37 = R[1];
-Obj v__3514718_37 = makeCons(co->gc, v__3514717_37, Nil);
-Obj v__3514719_37 = makeCons(co->gc, v__3514715_37, v__3514718_37);
-Obj v__3514720_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3514719_37);
-coraReturn(co, v__3514720_37);
+Obj v__3514728_37= co->res;
+Obj v__3514726_37 = R[1];
+Obj v__3514729_37 = makeCons(co->gc, v__3514728_37, Nil);
+Obj v__3514730_37 = makeCons(co->gc, v__3514726_37, v__3514729_37);
+Obj v__3514731_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514730_37);
+coraReturn(co, v__3514731_37);
 return;
 }
 }
@@ -4144,10 +4422,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514335_37 = R[1];
-Obj v__3514710_37 = PRIM_CDR(v__3514335_37);
-Obj v__3514711_37 = PRIM_CDR(v__3514710_37);
-Obj v__3514712_37 = PRIM_CDR(v__3514711_37);
-coraReturn(co, v__3514712_37);
+Obj v__3514721_37 = PRIM_CDR(v__3514335_37);
+Obj v__3514722_37 = PRIM_CDR(v__3514721_37);
+Obj v__3514723_37 = PRIM_CDR(v__3514722_37);
+coraReturn(co, v__3514723_37);
 return;
 }
 }
@@ -4158,11 +4436,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514334_37 = R[1];
-Obj v__3514705_37 = PRIM_CDR(v__3514334_37);
-Obj v__3514706_37 = PRIM_CDR(v__3514705_37);
-Obj v__3514707_37 = PRIM_CDR(v__3514706_37);
-Obj v__3514708_37 = PRIM_CAR(v__3514707_37);
-coraReturn(co, v__3514708_37);
+Obj v__3514716_37 = PRIM_CDR(v__3514334_37);
+Obj v__3514717_37 = PRIM_CDR(v__3514716_37);
+Obj v__3514718_37 = PRIM_CDR(v__3514717_37);
+Obj v__3514719_37 = PRIM_CAR(v__3514718_37);
+coraReturn(co, v__3514719_37);
 return;
 }
 }
@@ -4173,10 +4451,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514333_37 = R[1];
-Obj v__3514701_37 = PRIM_CDR(v__3514333_37);
-Obj v__3514702_37 = PRIM_CDR(v__3514701_37);
-Obj v__3514703_37 = PRIM_CAR(v__3514702_37);
-coraReturn(co, v__3514703_37);
+Obj v__3514712_37 = PRIM_CDR(v__3514333_37);
+Obj v__3514713_37 = PRIM_CDR(v__3514712_37);
+Obj v__3514714_37 = PRIM_CAR(v__3514713_37);
+coraReturn(co, v__3514714_37);
 return;
 }
 }
@@ -4187,9 +4465,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514332_37 = R[1];
-Obj v__3514698_37 = PRIM_CDR(v__3514332_37);
-Obj v__3514699_37 = PRIM_CDR(v__3514698_37);
-coraReturn(co, v__3514699_37);
+Obj v__3514709_37 = PRIM_CDR(v__3514332_37);
+Obj v__3514710_37 = PRIM_CDR(v__3514709_37);
+coraReturn(co, v__3514710_37);
 return;
 }
 }
@@ -4200,9 +4478,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514331_37 = R[1];
-Obj v__3514695_37 = PRIM_CAR(v__3514331_37);
-Obj v__3514696_37 = PRIM_CDR(v__3514695_37);
-coraReturn(co, v__3514696_37);
+Obj v__3514706_37 = PRIM_CAR(v__3514331_37);
+Obj v__3514707_37 = PRIM_CDR(v__3514706_37);
+coraReturn(co, v__3514707_37);
 return;
 }
 }
@@ -4213,9 +4491,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514330_37 = R[1];
-Obj v__3514692_37 = PRIM_CAR(v__3514330_37);
-Obj v__3514693_37 = PRIM_CAR(v__3514692_37);
-coraReturn(co, v__3514693_37);
+Obj v__3514703_37 = PRIM_CAR(v__3514330_37);
+Obj v__3514704_37 = PRIM_CAR(v__3514703_37);
+coraReturn(co, v__3514704_37);
 return;
 }
 }
@@ -4226,9 +4504,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514329_37 = R[1];
-Obj v__3514689_37 = PRIM_CDR(v__3514329_37);
-Obj v__3514690_37 = PRIM_CAR(v__3514689_37);
-coraReturn(co, v__3514690_37);
+Obj v__3514700_37 = PRIM_CDR(v__3514329_37);
+Obj v__3514701_37 = PRIM_CAR(v__3514700_37);
+coraReturn(co, v__3514701_37);
 return;
 }
 }
@@ -4239,8 +4517,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514328_37 = R[1];
-Obj v__3514687_37 = PRIM_EQ(v__3514328_37, Nil);
-coraReturn(co, v__3514687_37);
+Obj v__3514698_37 = PRIM_EQ(v__3514328_37, Nil);
+coraReturn(co, v__3514698_37);
 return;
 }
 }
diff --git a/init.cora b/init.cora
index 735ab7d..28594ce 100644
--- a/init.cora
+++ b/init.cora
@@ -139,10 +139,7 @@
       false
     (if (= (car l) true)
         true
-      (let more (cora/init#rewrite-or (cdr l))
-           (if (= more true)
-               true
-             (list 'if (car l) true more))))))
+      (list 'if (car l) true (cora/init#rewrite-or (cdr l))))))
 
 (defmacro or (exp)
   (cora/init#rewrite-or (cdr exp)))
@@ -152,10 +149,7 @@
       true
     (if (= (car l) false)
         false
-      (let more (cora/init#rewrite-and (cdr l))
-           (if (= more false)
-               false
-             (list 'if (car l) more false))))))
+      (list 'if (car l) (cora/init#rewrite-and (cdr l)) false))))
 
 (defmacro and (exp)
   (cora/init#rewrite-and (cdr exp)))
@@ -221,14 +215,45 @@
 		    (list 'let cc (list 'lambda () rest)
 			  curr)))))))
 
+;; whether x is one of the symbols of a pattern
+(defun cora/init#in-pattern? (x pat)
+  (if (pair? pat)
+      (or (cora/init#in-pattern? x (car pat))
+	  (cora/init#in-pattern? x (cdr pat)))
+    (= x pat)))
+
+(defun cora/init#in-patterns? (x rules)
+  (and (pair? rules)
+       (or (cora/init#in-pattern? x (car rules))
+	   (cora/init#in-patterns? x (cddr rules)))))
+
+;; what the value of a match is made from is evaluated once, before the rules;
+;; a variable that a pattern binds anew gets another name
+(defun cora/init#match-bind-parts (exp rules k)
+  (cond
+    ((symbol? exp) (if (cora/init#in-patterns? exp rules)
+		       (cora/init#match-bind-part exp k)
+		       (k exp)))
+    ((or (atom? exp) (= (car exp) 'quote)) (k exp))
+    ((= (car exp) 'cons)
+     (cora/init#match-bind-parts
+      (cadr exp) rules
+      (lambda (x)
+	(cora/init#match-bind-parts
+	 (caddr exp) rules
+	 (lambda (y)
+	   (k (list 'cons x y)))))))
+    (true (cora/init#match-bind-part exp k))))
+
+(defun cora/init#match-bind-part (exp k)
+  (let val (gensym)
+       (list 'let val exp (k val))))
+
 (defun cora/init#rewrite-match (exp)
   (let value (macroexpand (cadr exp))
        rules (cddr exp)
-       (if (and (cons? value)
-		(not (= 'cons (car value))))
-	   (let val (gensym)
-		(list 'let val value (cora/init#match-helper val rules)))
-	   (cora/init#match-helper value rules))))
+       (cora/init#match-bind-parts value rules (lambda (val)
+						 (cora/init#match-helper val rules)))))
 
 
 (defmacro match (exp)
diff --git a/lib/toc.c b/lib/toc.c
index 5b9717b..32ee1d1 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -306,154 +306,154 @@ return;
 }
 case 1:
 {
-Obj v__3521362_37= co->res;
-Obj v__3521368_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun115, 2, 0));
-Obj v__3521374_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun116, 2, 0));
-Obj v__3521396_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun118, 3, 0));
-Obj v__3521417_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun120, 4, 0));
-Obj v__3521430_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun123, 3, 0));
-Obj v__3521472_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun128, 1, 0));
-Obj v__3521511_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun131, 4, 0));
-Obj v__3521563_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun136, 2, 0));
-Obj v__3521564_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun137, 2, 0));
-Obj v__3521578_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun145, 1, 0));
-Obj v__3521579_37 = primSet(co, getBinding(co, packageID, 8).name, False);
-Obj v__3521583_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun147, 1, 0));
-Obj v__3521595_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun148, 2, 0));
-Obj v__3521598_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun149, 2, 0));
-coraReturn(co, v__3521598_37);
+Obj v__3521555_37= co->res;
+Obj v__3521561_37 = primSet(co, getBinding(co, packageID, 30).name, makeNative(co->gc, 3, clofun115, 2, 0));
+Obj v__3521567_37 = primSet(co, getBinding(co, packageID, 29).name, makeNative(co->gc, 3, clofun116, 2, 0));
+Obj v__3521589_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 7, clofun118, 3, 0));
+Obj v__3521610_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 5, clofun120, 4, 0));
+Obj v__3521623_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun123, 3, 0));
+Obj v__3521665_37 = primSet(co, getBinding(co, packageID, 24).name, makeNative(co->gc, 2, clofun128, 1, 0));
+Obj v__3521704_37 = primSet(co, getBinding(co, packageID, 18).name, makeNative(co->gc, 5, clofun131, 4, 0));
+Obj v__3521756_37 = primSet(co, getBinding(co, packageID, 10).name, makeNative(co->gc, 3, clofun136, 2, 0));
+Obj v__3521757_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun137, 2, 0));
+Obj v__3521771_37 = primSet(co, getBinding(co, packageID, 7).name, makeNative(co->gc, 2, clofun145, 1, 0));
+Obj v__3521772_37 = primSet(co, getBinding(co, packageID, 8).name, False);
+Obj v__3521776_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 3, clofun147, 1, 0));
+Obj v__3521788_37 = primSet(co, getBinding(co, packageID, 4).name, makeNative(co->gc, 4, clofun148, 2, 0));
+Obj v__3521791_37 = primSet(co, getBinding(co, packageID, 0).name, makeNative(co->gc, 3, clofun149, 2, 0));
+coraReturn(co, v__3521791_37);
 return;
 }
 case 2:
 {
-Obj v__3519956_37= co->res;
-Obj v__3519957_37 = primSet(co, getBinding(co, packageID, 132).name, Nil);
-Obj v__3519972_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v__3519978_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v__3519988_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v__3519989_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v__3519996_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v__3519997_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3519998_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3519997_37);
-Obj v__3519999_37 = makeCons(co->gc, getBinding(co, packageID, 124).name, v__3519998_37);
-Obj v__3520000_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3520001_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520000_37);
-Obj v__3520002_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, v__3520001_37);
-Obj v__3520003_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3520004_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520003_37);
-Obj v__3520005_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3520004_37);
-Obj v__3520006_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3520007_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520006_37);
-Obj v__3520008_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3520007_37);
-Obj v__3520009_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3520010_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520009_37);
-Obj v__3520011_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3520010_37);
-Obj v__3520012_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3520013_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520012_37);
-Obj v__3520014_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520013_37);
-Obj v__3520015_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3520016_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520015_37);
-Obj v__3520017_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520016_37);
-Obj v__3520018_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3520019_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520018_37);
-Obj v__3520020_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3520019_37);
-Obj v__3520021_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3520022_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520021_37);
-Obj v__3520023_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3520022_37);
-Obj v__3520024_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3520025_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520024_37);
-Obj v__3520026_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3520025_37);
-Obj v__3520027_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3520028_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520027_37);
-Obj v__3520029_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3520028_37);
-Obj v__3520030_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3520031_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520030_37);
-Obj v__3520032_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3520031_37);
-Obj v__3520033_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3520034_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3520033_37);
-Obj v__3520035_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3520034_37);
-Obj v__3520036_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3520037_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520036_37);
-Obj v__3520038_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3520037_37);
-Obj v__3520039_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3520040_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520039_37);
-Obj v__3520041_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3520040_37);
-Obj v__3520042_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3520043_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520042_37);
-Obj v__3520044_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3520043_37);
-Obj v__3520045_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3520046_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520045_37);
-Obj v__3520047_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3520046_37);
-Obj v__3520048_37 = makeCons(co->gc, v__3520047_37, Nil);
-Obj v__3520049_37 = makeCons(co->gc, v__3520044_37, v__3520048_37);
-Obj v__3520050_37 = makeCons(co->gc, v__3520041_37, v__3520049_37);
-Obj v__3520051_37 = makeCons(co->gc, v__3520038_37, v__3520050_37);
-Obj v__3520052_37 = makeCons(co->gc, v__3520035_37, v__3520051_37);
-Obj v__3520053_37 = makeCons(co->gc, v__3520032_37, v__3520052_37);
-Obj v__3520054_37 = makeCons(co->gc, v__3520029_37, v__3520053_37);
-Obj v__3520055_37 = makeCons(co->gc, v__3520026_37, v__3520054_37);
-Obj v__3520056_37 = makeCons(co->gc, v__3520023_37, v__3520055_37);
-Obj v__3520057_37 = makeCons(co->gc, v__3520020_37, v__3520056_37);
-Obj v__3520058_37 = makeCons(co->gc, v__3520017_37, v__3520057_37);
-Obj v__3520059_37 = makeCons(co->gc, v__3520014_37, v__3520058_37);
-Obj v__3520060_37 = makeCons(co->gc, v__3520011_37, v__3520059_37);
-Obj v__3520061_37 = makeCons(co->gc, v__3520008_37, v__3520060_37);
-Obj v__3520062_37 = makeCons(co->gc, v__3520005_37, v__3520061_37);
-Obj v__3520063_37 = makeCons(co->gc, v__3520002_37, v__3520062_37);
-Obj v__3520064_37 = makeCons(co->gc, v__3519999_37, v__3520063_37);
-Obj v__3520065_37 = primSet(co, getBinding(co, packageID, 125).name, v__3520064_37);
-Obj v__3520069_37 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3520072_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3520075_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3520080_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v__3520094_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun13, 3, 0));
-Obj v__3520296_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun24, 3, 0));
-Obj v__3520307_37 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 4, clofun26, 2, 0));
-Obj v__3520318_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun28, 2, 0));
-Obj v__3520379_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun35, 1, 0));
-Obj v__3520554_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj v__3520629_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun49, 2, 0));
-Obj v__3520632_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun50, 1, 0));
-Obj v__3520769_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun59, 2, 0));
-Obj v__3520792_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun62, 3, 0));
-Obj v__3520869_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun66, 2, 0));
-Obj v__3520900_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun70, 3, 0));
-Obj v__3520906_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun73, 4, 0));
-Obj v__3520911_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun75, 2, 0));
-Obj v__3520920_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun77, 1, 0));
-Obj v__3520971_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun79, 2, 0));
-Obj v__3520979_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun80, 2, 0));
-Obj v__3520986_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun81, 2, 0));
-Obj v__3520991_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun82, 2, 0));
-Obj v__3520997_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun83, 3, 0));
-Obj v__3520998_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun84, 2, 0));
-Obj v__3521005_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun86, 5, 0));
-Obj v__3521012_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun88, 5, 0));
-Obj v__3521299_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun101, 5, 0));
-Obj v__3521313_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun103, 5, 0));
-Obj v__3521335_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun105, 5, 0));
-Obj v__3521337_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun106, 2, 0));
-Obj v__3521341_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun107, 2, 0));
-Obj v__3521342_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun108, 2, 0));
-Obj v__3521343_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun109, 1, 0));
-Obj v__3521344_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun110, 1, 0));
-Obj v__3521345_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun111, 1, 0));
-Obj v__3521352_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun112, 1, 0));
-Obj v__3521359_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v__3520149_37= co->res;
+Obj v__3520150_37 = primSet(co, getBinding(co, packageID, 132).name, Nil);
+Obj v__3520165_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3520171_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3520181_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3520182_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3520189_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3520190_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3520191_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520190_37);
+Obj v__3520192_37 = makeCons(co->gc, getBinding(co, packageID, 124).name, v__3520191_37);
+Obj v__3520193_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3520194_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520193_37);
+Obj v__3520195_37 = makeCons(co->gc, getBinding(co, packageID, 123).name, v__3520194_37);
+Obj v__3520196_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3520197_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520196_37);
+Obj v__3520198_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3520197_37);
+Obj v__3520199_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3520200_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520199_37);
+Obj v__3520201_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3520200_37);
+Obj v__3520202_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3520203_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520202_37);
+Obj v__3520204_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3520203_37);
+Obj v__3520205_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3520206_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520205_37);
+Obj v__3520207_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520206_37);
+Obj v__3520208_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3520209_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520208_37);
+Obj v__3520210_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520209_37);
+Obj v__3520211_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3520212_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520211_37);
+Obj v__3520213_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3520212_37);
+Obj v__3520214_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3520215_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520214_37);
+Obj v__3520216_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3520215_37);
+Obj v__3520217_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3520218_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520217_37);
+Obj v__3520219_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3520218_37);
+Obj v__3520220_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3520221_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520220_37);
+Obj v__3520222_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3520221_37);
+Obj v__3520223_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3520224_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520223_37);
+Obj v__3520225_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3520224_37);
+Obj v__3520226_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3520227_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3520226_37);
+Obj v__3520228_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3520227_37);
+Obj v__3520229_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3520230_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520229_37);
+Obj v__3520231_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3520230_37);
+Obj v__3520232_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3520233_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520232_37);
+Obj v__3520234_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3520233_37);
+Obj v__3520235_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3520236_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520235_37);
+Obj v__3520237_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3520236_37);
+Obj v__3520238_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3520239_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520238_37);
+Obj v__3520240_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3520239_37);
+Obj v__3520241_37 = makeCons(co->gc, v__3520240_37, Nil);
+Obj v__3520242_37 = makeCons(co->gc, v__3520237_37, v__3520241_37);
+Obj v__3520243_37 = makeCons(co->gc, v__3520234_37, v__3520242_37);
+Obj v__3520244_37 = makeCons(co->gc, v__3520231_37, v__3520243_37);
+Obj v__3520245_37 = makeCons(co->gc, v__3520228_37, v__3520244_37);
+Obj v__3520246_37 = makeCons(co->gc, v__3520225_37, v__3520245_37);
+Obj v__3520247_37 = makeCons(co->gc, v__3520222_37, v__3520246_37);
+Obj v__3520248_37 = makeCons(co->gc, v__3520219_37, v__3520247_37);
+Obj v__3520249_37 = makeCons(co->gc, v__3520216_37, v__3520248_37);
+Obj v__3520250_37 = makeCons(co->gc, v__3520213_37, v__3520249_37);
+Obj v__3520251_37 = makeCons(co->gc, v__3520210_37, v__3520250_37);
+Obj v__3520252_37 = makeCons(co->gc, v__3520207_37, v__3520251_37);
+Obj v__3520253_37 = makeCons(co->gc, v__3520204_37, v__3520252_37);
+Obj v__3520254_37 = makeCons(co->gc, v__3520201_37, v__3520253_37);
+Obj v__3520255_37 = makeCons(co->gc, v__3520198_37, v__3520254_37);
+Obj v__3520256_37 = makeCons(co->gc, v__3520195_37, v__3520255_37);
+Obj v__3520257_37 = makeCons(co->gc, v__3520192_37, v__3520256_37);
+Obj v__3520258_37 = primSet(co, getBinding(co, packageID, 125).name, v__3520257_37);
+Obj v__3520262_37 = primSet(co, getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3520265_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3520268_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3520273_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3520287_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun13, 3, 0));
+Obj v__3520489_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun24, 3, 0));
+Obj v__3520500_37 = primSet(co, getBinding(co, packageID, 84).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj v__3520511_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun28, 2, 0));
+Obj v__3520572_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun35, 1, 0));
+Obj v__3520747_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj v__3520822_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 4, clofun49, 2, 0));
+Obj v__3520825_37 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 2, clofun50, 1, 0));
+Obj v__3520962_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 3, clofun59, 2, 0));
+Obj v__3520985_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun62, 3, 0));
+Obj v__3521062_37 = primSet(co, getBinding(co, packageID, 65).name, makeNative(co->gc, 3, clofun66, 2, 0));
+Obj v__3521093_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 4, clofun70, 3, 0));
+Obj v__3521099_37 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 5, clofun73, 4, 0));
+Obj v__3521104_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 3, clofun75, 2, 0));
+Obj v__3521113_37 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 2, clofun77, 1, 0));
+Obj v__3521164_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 6, clofun79, 2, 0));
+Obj v__3521172_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 4, clofun80, 2, 0));
+Obj v__3521179_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3521184_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun82, 2, 0));
+Obj v__3521190_37 = primSet(co, getBinding(co, packageID, 53).name, makeNative(co->gc, 4, clofun83, 3, 0));
+Obj v__3521191_37 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 3, clofun84, 2, 0));
+Obj v__3521198_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 6, clofun86, 5, 0));
+Obj v__3521205_37 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun88, 5, 0));
+Obj v__3521492_37 = primSet(co, getBinding(co, packageID, 48).name, makeNative(co->gc, 6, clofun101, 5, 0));
+Obj v__3521506_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun103, 5, 0));
+Obj v__3521528_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 8, clofun105, 5, 0));
+Obj v__3521530_37 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 3, clofun106, 2, 0));
+Obj v__3521534_37 = primSet(co, getBinding(co, packageID, 41).name, makeNative(co->gc, 3, clofun107, 2, 0));
+Obj v__3521535_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 3, clofun108, 2, 0));
+Obj v__3521536_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj v__3521537_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj v__3521538_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun111, 1, 0));
+Obj v__3521545_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 3, clofun112, 1, 0));
+Obj v__3521552_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun113, 2, 0));
 saveCont(co, clofun150, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 33)), getBinding(co, packageID, 32).name, makeNative(co->gc, 2, clofun114, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3519955_37= co->res;
+Obj v__3520148_37= co->res;
 saveCont(co, clofun150, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v__3519954_37= co->res;
+Obj v__3520147_37= co->res;
 saveCont(co, clofun150, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -465,21 +465,21 @@ static void clofun149(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519677_37 = R[1];
-Obj v__3519678_37 = R[2];
-R[1] = v__3519678_37;
+Obj v__3519870_37 = R[1];
+Obj v__3519871_37 = R[2];
+R[1] = v__3519871_37;
 saveCont(co, clofun149, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3519677_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3519870_37);
 return;
 }
 case 1:
 {
-Obj v__3521597_37= co->res;
-Obj v__3519953_37 = R[1];
-Obj v__3519678_37 = R[2];
-if (True == v__3521597_37) {
+Obj v__3521790_37= co->res;
+Obj v__3520146_37 = R[1];
+Obj v__3519871_37 = R[2];
+if (True == v__3521790_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), v__3519953_37, v__3519678_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 4)), v__3520146_37, v__3519871_37);
 return;
 } else {
 coraReturn(co, False);
@@ -488,13 +488,13 @@ return;
 }
 case 2:
 {
-Obj v__3521596_37= co->res;
-Obj v__3519678_37 = R[1];
-Obj v__3519953_37 = v__3521596_37;
-R[1] = v__3519953_37;
-R[2] = v__3519678_37;
+Obj v__3521789_37= co->res;
+Obj v__3519871_37 = R[1];
+Obj v__3520146_37 = v__3521789_37;
+R[1] = v__3520146_37;
+R[2] = v__3519871_37;
 saveCont(co, clofun149, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519953_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3520146_37);
 return;
 }
 }
@@ -504,108 +504,108 @@ static void clofun148(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519672_37 = R[1];
-Obj v__3519673_37 = R[2];
-Obj v__3521584_37 = primGenSym(co);
-Obj v__3519950_37 = v__3521584_37;
-Obj v__3521585_37 = primSet(co, v__3519950_37, Nil);
-R[1] = v__3519672_37;
-R[2] = v__3519673_37;
-R[3] = v__3519950_37;
+Obj v__3519865_37 = R[1];
+Obj v__3519866_37 = R[2];
+Obj v__3521777_37 = primGenSym(co);
+Obj v__3520143_37 = v__3521777_37;
+Obj v__3521778_37 = primSet(co, v__3520143_37, Nil);
+R[1] = v__3519865_37;
+R[2] = v__3519866_37;
+R[3] = v__3520143_37;
 saveCont(co, clofun148, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v__3519950_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 30)), v__3520143_37);
 return;
 }
 case 1:
 {
-Obj v__3521593_37= co->res;
-Obj v__3521594_37 = PRIM_EQ(MAKE_NUMBER(0), v__3521593_37);
-coraReturn(co, v__3521594_37);
+Obj v__3521786_37= co->res;
+Obj v__3521787_37 = PRIM_EQ(MAKE_NUMBER(0), v__3521786_37);
+coraReturn(co, v__3521787_37);
 return;
 }
 case 2:
 {
-Obj v__3521592_37= co->res;
-Obj v__3519952_37 = R[1];
+Obj v__3521785_37= co->res;
+Obj v__3520145_37 = R[1];
 saveCont(co, clofun148, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3519952_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3520145_37);
 return;
 }
 case 3:
 {
-Obj v__3521591_37= co->res;
-Obj v__3519951_37 = R[1];
-Obj v__3519952_37 = R[2];
-R[1] = v__3519952_37;
+Obj v__3521784_37= co->res;
+Obj v__3520144_37 = R[1];
+Obj v__3520145_37 = R[2];
+R[1] = v__3520145_37;
 saveCont(co, clofun148, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v__3519952_37, v__3519951_37, v__3521591_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v__3520145_37, v__3520144_37, v__3521784_37);
 return;
 }
 case 4:
 {
-Obj v__3521590_37= co->res;
-Obj v__3519950_37 = R[1];
-Obj v__3519951_37 = R[2];
-Obj v__3519952_37 = R[3];
-if (True == v__3521590_37) {
+Obj v__3521783_37= co->res;
+Obj v__3520143_37 = R[1];
+Obj v__3520144_37 = R[2];
+Obj v__3520145_37 = R[3];
+if (True == v__3521783_37) {
 coraReturn(co, False);
 return;
 } else {
-R[1] = v__3519951_37;
-R[2] = v__3519952_37;
+R[1] = v__3520144_37;
+R[2] = v__3520145_37;
 saveCont(co, clofun148, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519950_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3520143_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3521589_37= co->res;
-Obj v__3519950_37 = R[1];
-Obj v__3519951_37 = R[2];
-Obj v__3519952_37 = v__3521589_37;
-R[1] = v__3519950_37;
-R[2] = v__3519951_37;
-R[3] = v__3519952_37;
+Obj v__3521782_37= co->res;
+Obj v__3520143_37 = R[1];
+Obj v__3520144_37 = R[2];
+Obj v__3520145_37 = v__3521782_37;
+R[1] = v__3520143_37;
+R[2] = v__3520144_37;
+R[3] = v__3520145_37;
 saveCont(co, clofun148, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519952_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3520145_37);
 return;
 }
 case 6:
 {
-Obj v__3521588_37= co->res;
-Obj v__3519673_37 = R[1];
-Obj v__3519950_37 = R[2];
-Obj v__3519951_37 = v__3521588_37;
-R[1] = v__3519950_37;
-R[2] = v__3519951_37;
+Obj v__3521781_37= co->res;
+Obj v__3519866_37 = R[1];
+Obj v__3520143_37 = R[2];
+Obj v__3520144_37 = v__3521781_37;
+R[1] = v__3520143_37;
+R[2] = v__3520144_37;
 saveCont(co, clofun148, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519673_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519866_37);
 return;
 }
 case 7:
 {
-Obj v__3521587_37= co->res;
-Obj v__3521586_37 = R[1];
-Obj v__3519673_37 = R[2];
-Obj v__3519950_37 = R[3];
-R[1] = v__3519673_37;
-R[2] = v__3519950_37;
+Obj v__3521780_37= co->res;
+Obj v__3521779_37 = R[1];
+Obj v__3519866_37 = R[2];
+Obj v__3520143_37 = R[3];
+R[1] = v__3519866_37;
+R[2] = v__3520143_37;
 saveCont(co, clofun148, 6, R);
-coraCall1(co, v__3521586_37, v__3521587_37);
+coraCall1(co, v__3521779_37, v__3521780_37);
 return;
 }
 case 8:
 {
-Obj v__3521586_37= co->res;
-Obj v__3519672_37 = R[1];
-Obj v__3519673_37 = R[2];
-Obj v__3519950_37 = R[3];
-R[1] = v__3521586_37;
-R[2] = v__3519673_37;
-R[3] = v__3519950_37;
+Obj v__3521779_37= co->res;
+Obj v__3519865_37 = R[1];
+Obj v__3519866_37 = R[2];
+Obj v__3520143_37 = R[3];
+R[1] = v__3521779_37;
+R[2] = v__3519866_37;
+R[3] = v__3520143_37;
 saveCont(co, clofun148, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 3)), v__3519672_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 3)), v__3519865_37);
 return;
 }
 }
@@ -615,50 +615,50 @@ static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519670_37 = R[1];
+Obj v__3519863_37 = R[1];
 saveCont(co, clofun147, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v__3519670_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v__3519863_37);
 return;
 }
 case 1:
 {
-Obj v__3521582_37= co->res;
-Obj v__3519949_37 = R[1];
-if (True == v__3521582_37) {
+Obj v__3521775_37= co->res;
+Obj v__3520142_37 = R[1];
+if (True == v__3521775_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519949_37, True);
+coraCall1(co, v__3520142_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519949_37, False);
+coraCall1(co, v__3520142_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3521581_37= co->res;
-Obj v__3519946_37 = R[1];
-Obj v__3519949_37 = R[2];
-if (True == v__3521581_37) {
-R[1] = v__3519949_37;
+Obj v__3521774_37= co->res;
+Obj v__3520139_37 = R[1];
+Obj v__3520142_37 = R[2];
+if (True == v__3521774_37) {
+R[1] = v__3520142_37;
 saveCont(co, clofun147, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519946_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3520139_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519949_37, False);
+coraCall1(co, v__3520142_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3521580_37= co->res;
-Obj v__3519946_37 = v__3521580_37;
-Obj v__3519949_37 = makeNative(co->gc, 2, clofun146, 1, 1, v__3519946_37);
-R[1] = v__3519946_37;
-R[2] = v__3519949_37;
+Obj v__3521773_37= co->res;
+Obj v__3520139_37 = v__3521773_37;
+Obj v__3520142_37 = makeNative(co->gc, 2, clofun146, 1, 1, v__3520139_37);
+R[1] = v__3520139_37;
+R[2] = v__3520142_37;
 saveCont(co, clofun147, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519946_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3520139_37);
 return;
 }
 }
@@ -668,8 +668,8 @@ static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519948_37 = R[1];
-if (True == v__3519948_37) {
+Obj v__3520141_37 = R[1];
+if (True == v__3520141_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 7)), closureRef(R[0], 0));
 return;
@@ -685,27 +685,27 @@ static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519657_37 = R[1];
-Obj v__3519942_37 = makeNative(co->gc, 1, clofun142, 0, 1, v__3519657_37);
-Obj v__3521573_37 = PRIM_ISCONS(v__3519657_37);
-if (True == v__3521573_37) {
-Obj v__3521574_37 = PRIM_CAR(v__3519657_37);
-Obj v__3521575_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521574_37);
-if (True == v__3521575_37) {
-Obj v__3521576_37 = PRIM_CDR(v__3519657_37);
-Obj v__3519945_37 = v__3521576_37;
-Obj v__3521577_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519945_37);
+Obj v__3519850_37 = R[1];
+Obj v__3520135_37 = makeNative(co->gc, 1, clofun142, 0, 1, v__3519850_37);
+Obj v__3521766_37 = PRIM_ISCONS(v__3519850_37);
+if (True == v__3521766_37) {
+Obj v__3521767_37 = PRIM_CAR(v__3519850_37);
+Obj v__3521768_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521767_37);
+if (True == v__3521768_37) {
+Obj v__3521769_37 = PRIM_CDR(v__3519850_37);
+Obj v__3520138_37 = v__3521769_37;
+Obj v__3521770_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520138_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3521577_37, makeNative(co->gc, 2, clofun144, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3521770_37, makeNative(co->gc, 2, clofun144, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519942_37);
+coraCall0(co, v__3520135_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519942_37);
+coraCall0(co, v__3520135_37);
 return;
 }
 }
@@ -716,9 +716,9 @@ static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519667_37 = R[1];
+Obj v__3519860_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519667_37, Nil, Nil, makeNative(co->gc, 3, clofun143, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519860_37, Nil, Nil, makeNative(co->gc, 3, clofun143, 2, 0));
 return;
 }
 }
@@ -728,10 +728,10 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519668_37 = R[1];
-Obj v__3519669_37 = R[2];
+Obj v__3519861_37 = R[1];
+Obj v__3519862_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519668_37, v__3519669_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519861_37, v__3519862_37);
 return;
 }
 }
@@ -741,26 +741,26 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519943_37 = makeNative(co->gc, 1, clofun139, 0, 1, closureRef(R[0], 0));
-Obj v__3521568_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521568_37) {
-Obj v__3521569_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521570_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521569_37);
-if (True == v__3521570_37) {
-Obj v__3521571_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519944_37 = v__3521571_37;
-Obj v__3521572_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519944_37);
+Obj v__3520136_37 = makeNative(co->gc, 1, clofun139, 0, 1, closureRef(R[0], 0));
+Obj v__3521761_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521761_37) {
+Obj v__3521762_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521763_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521762_37);
+if (True == v__3521763_37) {
+Obj v__3521764_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520137_37 = v__3521764_37;
+Obj v__3521765_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3520137_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3521572_37, makeNative(co->gc, 2, clofun141, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3521765_37, makeNative(co->gc, 2, clofun141, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519943_37);
+coraCall0(co, v__3520136_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519943_37);
+coraCall0(co, v__3520136_37);
 return;
 }
 }
@@ -771,9 +771,9 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519662_37 = R[1];
+Obj v__3519855_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519662_37, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519855_37, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
 return;
 }
 }
@@ -783,10 +783,10 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519663_37 = R[1];
-Obj v__3519664_37 = R[2];
+Obj v__3519856_37 = R[1];
+Obj v__3519857_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519663_37, v__3519664_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519856_37, v__3519857_37);
 return;
 }
 }
@@ -796,9 +796,9 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521565_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3521758_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3521565_37, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3521758_37, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
 return;
 }
 }
@@ -808,17 +808,17 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519658_37 = R[1];
-Obj v__3519659_37 = R[2];
+Obj v__3519851_37 = R[1];
+Obj v__3519852_37 = R[2];
 saveCont(co, clofun138, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519658_37, v__3519659_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519851_37, v__3519852_37);
 return;
 }
 case 1:
 {
-Obj v__3521566_37= co->res;
-Obj v__3521567_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3521566_37);
-coraReturn(co, v__3521567_37);
+Obj v__3521759_37= co->res;
+Obj v__3521760_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3521759_37);
+coraReturn(co, v__3521760_37);
 return;
 }
 }
@@ -828,14 +828,14 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519655_37 = R[1];
-Obj v__3519656_37 = R[2];
+Obj v__3519848_37 = R[1];
+Obj v__3519849_37 = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 8))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3519655_37, v__3519656_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3519848_37, v__3519849_37);
 return;
 } else {
-coraReturn(co, v__3519656_37);
+coraReturn(co, v__3519849_37);
 return;
 }
 }
@@ -846,50 +846,50 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519642_37 = R[1];
-Obj v__3519643_37 = R[2];
-Obj v__3519931_37 = makeNative(co->gc, 2, clofun135, 0, 2, v__3519642_37, v__3519643_37);
-Obj v__3521551_37 = PRIM_ISCONS(v__3519642_37);
-if (True == v__3521551_37) {
-Obj v__3521552_37 = PRIM_CAR(v__3519642_37);
-Obj v__3521553_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521552_37);
-if (True == v__3521553_37) {
-Obj v__3521554_37 = PRIM_CDR(v__3519642_37);
-Obj v__3521555_37 = PRIM_ISCONS(v__3521554_37);
-if (True == v__3521555_37) {
-Obj v__3521556_37 = PRIM_CDR(v__3519642_37);
-Obj v__3521557_37 = PRIM_CAR(v__3521556_37);
-Obj v__3519940_37 = v__3521557_37;
-Obj v__3521558_37 = PRIM_CDR(v__3519642_37);
-Obj v__3521559_37 = PRIM_CDR(v__3521558_37);
-Obj v__3519941_37 = v__3521559_37;
-R[1] = v__3519940_37;
+Obj v__3519835_37 = R[1];
+Obj v__3519836_37 = R[2];
+Obj v__3520124_37 = makeNative(co->gc, 2, clofun135, 0, 2, v__3519835_37, v__3519836_37);
+Obj v__3521744_37 = PRIM_ISCONS(v__3519835_37);
+if (True == v__3521744_37) {
+Obj v__3521745_37 = PRIM_CAR(v__3519835_37);
+Obj v__3521746_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521745_37);
+if (True == v__3521746_37) {
+Obj v__3521747_37 = PRIM_CDR(v__3519835_37);
+Obj v__3521748_37 = PRIM_ISCONS(v__3521747_37);
+if (True == v__3521748_37) {
+Obj v__3521749_37 = PRIM_CDR(v__3519835_37);
+Obj v__3521750_37 = PRIM_CAR(v__3521749_37);
+Obj v__3520133_37 = v__3521750_37;
+Obj v__3521751_37 = PRIM_CDR(v__3519835_37);
+Obj v__3521752_37 = PRIM_CDR(v__3521751_37);
+Obj v__3520134_37 = v__3521752_37;
+R[1] = v__3520133_37;
 saveCont(co, clofun136, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519941_37, v__3519643_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3520134_37, v__3519836_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519931_37);
+coraCall0(co, v__3520124_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519931_37);
+coraCall0(co, v__3520124_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519931_37);
+coraCall0(co, v__3520124_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521560_37= co->res;
-Obj v__3519940_37 = R[1];
-Obj v__3521561_37 = makeCons(co->gc, v__3519940_37, v__3521560_37);
-Obj v__3521562_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521561_37);
-coraReturn(co, v__3521562_37);
+Obj v__3521753_37= co->res;
+Obj v__3520133_37 = R[1];
+Obj v__3521754_37 = makeCons(co->gc, v__3520133_37, v__3521753_37);
+Obj v__3521755_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521754_37);
+coraReturn(co, v__3521755_37);
 return;
 }
 }
@@ -899,69 +899,69 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519932_37 = makeNative(co->gc, 2, clofun134, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3521530_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521530_37) {
-Obj v__3521531_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521532_37 = PRIM_ISCONS(v__3521531_37);
-if (True == v__3521532_37) {
-Obj v__3521533_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521534_37 = PRIM_CAR(v__3521533_37);
-Obj v__3521535_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3521534_37);
-if (True == v__3521535_37) {
-Obj v__3521536_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521537_37 = PRIM_CDR(v__3521536_37);
-Obj v__3521538_37 = PRIM_ISCONS(v__3521537_37);
-if (True == v__3521538_37) {
-Obj v__3521539_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521540_37 = PRIM_CDR(v__3521539_37);
-Obj v__3521541_37 = PRIM_CAR(v__3521540_37);
-Obj v__3519938_37 = v__3521541_37;
-Obj v__3521542_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521543_37 = PRIM_CDR(v__3521542_37);
-Obj v__3521544_37 = PRIM_CDR(v__3521543_37);
-Obj v__3521545_37 = PRIM_EQ(Nil, v__3521544_37);
-if (True == v__3521545_37) {
-Obj v__3521546_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519939_37 = v__3521546_37;
-Obj v__3521547_37 = makeCons(co->gc, v__3519938_37, Nil);
-Obj v__3521548_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, v__3521547_37);
-R[1] = v__3521548_37;
+Obj v__3520125_37 = makeNative(co->gc, 2, clofun134, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521723_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521723_37) {
+Obj v__3521724_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521725_37 = PRIM_ISCONS(v__3521724_37);
+if (True == v__3521725_37) {
+Obj v__3521726_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521727_37 = PRIM_CAR(v__3521726_37);
+Obj v__3521728_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3521727_37);
+if (True == v__3521728_37) {
+Obj v__3521729_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521730_37 = PRIM_CDR(v__3521729_37);
+Obj v__3521731_37 = PRIM_ISCONS(v__3521730_37);
+if (True == v__3521731_37) {
+Obj v__3521732_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521733_37 = PRIM_CDR(v__3521732_37);
+Obj v__3521734_37 = PRIM_CAR(v__3521733_37);
+Obj v__3520131_37 = v__3521734_37;
+Obj v__3521735_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521736_37 = PRIM_CDR(v__3521735_37);
+Obj v__3521737_37 = PRIM_CDR(v__3521736_37);
+Obj v__3521738_37 = PRIM_EQ(Nil, v__3521737_37);
+if (True == v__3521738_37) {
+Obj v__3521739_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520132_37 = v__3521739_37;
+Obj v__3521740_37 = makeCons(co->gc, v__3520131_37, Nil);
+Obj v__3521741_37 = makeCons(co->gc, getBinding(co, packageID, 23).name, v__3521740_37);
+R[1] = v__3521741_37;
 saveCont(co, clofun135, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519939_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3520132_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519932_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519932_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519932_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519932_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519932_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521549_37= co->res;
-Obj v__3521548_37 = R[1];
-Obj v__3521550_37 = makeCons(co->gc, v__3521548_37, v__3521549_37);
-coraReturn(co, v__3521550_37);
+Obj v__3521742_37= co->res;
+Obj v__3521741_37 = R[1];
+Obj v__3521743_37 = makeCons(co->gc, v__3521741_37, v__3521742_37);
+coraReturn(co, v__3521743_37);
 return;
 }
 }
@@ -971,48 +971,48 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519933_37 = makeNative(co->gc, 1, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3521518_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521518_37) {
-Obj v__3521519_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521520_37 = PRIM_ISCONS(v__3521519_37);
-if (True == v__3521520_37) {
-Obj v__3521521_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521522_37 = PRIM_CAR(v__3521521_37);
-Obj v__3521523_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521522_37);
-if (True == v__3521523_37) {
-Obj v__3521524_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521525_37 = PRIM_CDR(v__3521524_37);
-Obj v__3519936_37 = v__3521525_37;
-Obj v__3521526_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519937_37 = v__3521526_37;
-Obj v__3521527_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3519936_37);
-R[1] = v__3521527_37;
+Obj v__3520126_37 = makeNative(co->gc, 1, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521711_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521711_37) {
+Obj v__3521712_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521713_37 = PRIM_ISCONS(v__3521712_37);
+if (True == v__3521713_37) {
+Obj v__3521714_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521715_37 = PRIM_CAR(v__3521714_37);
+Obj v__3521716_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521715_37);
+if (True == v__3521716_37) {
+Obj v__3521717_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521718_37 = PRIM_CDR(v__3521717_37);
+Obj v__3520129_37 = v__3521718_37;
+Obj v__3521719_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520130_37 = v__3521719_37;
+Obj v__3521720_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3520129_37);
+R[1] = v__3521720_37;
 saveCont(co, clofun134, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519937_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3520130_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519933_37);
+coraCall0(co, v__3520126_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519933_37);
+coraCall0(co, v__3520126_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519933_37);
+coraCall0(co, v__3520126_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521528_37= co->res;
-Obj v__3521527_37 = R[1];
-Obj v__3521529_37 = makeCons(co->gc, v__3521527_37, v__3521528_37);
-coraReturn(co, v__3521529_37);
+Obj v__3521721_37= co->res;
+Obj v__3521720_37 = R[1];
+Obj v__3521722_37 = makeCons(co->gc, v__3521720_37, v__3521721_37);
+coraReturn(co, v__3521722_37);
 return;
 }
 }
@@ -1022,33 +1022,33 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519934_37 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3521512_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521512_37) {
-Obj v__3521513_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521514_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521513_37);
-if (True == v__3521514_37) {
-Obj v__3521515_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519935_37 = v__3521515_37;
+Obj v__3520127_37 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3521705_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521705_37) {
+Obj v__3521706_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521707_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521706_37);
+if (True == v__3521707_37) {
+Obj v__3521708_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520128_37 = v__3521708_37;
 saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3519935_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 10)), v__3520128_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3520127_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3520127_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521516_37= co->res;
-Obj v__3521517_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3521516_37);
-coraReturn(co, v__3521517_37);
+Obj v__3521709_37= co->res;
+Obj v__3521710_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3521709_37);
+coraReturn(co, v__3521710_37);
 return;
 }
 }
@@ -1069,73 +1069,73 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519622_37 = R[1];
-Obj v__3519623_37 = R[2];
-Obj v__3519624_37 = R[3];
-Obj v__3519625_37 = R[4];
-Obj v__3521473_37 = PRIM_EQ(Nil, v__3519622_37);
-if (True == v__3521473_37) {
-R[1] = v__3519624_37;
-R[2] = v__3519625_37;
+Obj v__3519815_37 = R[1];
+Obj v__3519816_37 = R[2];
+Obj v__3519817_37 = R[3];
+Obj v__3519818_37 = R[4];
+Obj v__3521666_37 = PRIM_EQ(Nil, v__3519815_37);
+if (True == v__3521666_37) {
+R[1] = v__3519817_37;
+R[2] = v__3519818_37;
 saveCont(co, clofun131, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519623_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519816_37);
 return;
 } else {
-Obj v__3519923_37 = makeNative(co->gc, 1, clofun130, 0, 4, v__3519622_37, v__3519623_37, v__3519624_37, v__3519625_37);
-Obj v__3521500_37 = PRIM_ISCONS(v__3519622_37);
-if (True == v__3521500_37) {
-Obj v__3521501_37 = PRIM_CAR(v__3519622_37);
-Obj v__3521502_37 = PRIM_ISCONS(v__3521501_37);
-if (True == v__3521502_37) {
-Obj v__3521503_37 = PRIM_CAR(v__3519622_37);
-Obj v__3521504_37 = PRIM_CAR(v__3521503_37);
-Obj v__3521505_37 = PRIM_EQ(getBinding(co, packageID, 11).name, v__3521504_37);
-if (True == v__3521505_37) {
-Obj v__3521506_37 = PRIM_CAR(v__3519622_37);
-Obj v__3521507_37 = PRIM_CDR(v__3521506_37);
-Obj v__3519929_37 = v__3521507_37;
-Obj v__3521508_37 = PRIM_CDR(v__3519622_37);
-Obj v__3519930_37 = v__3521508_37;
-Obj v__3521509_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3519929_37);
-Obj v__3521510_37 = makeCons(co->gc, v__3521509_37, v__3519623_37);
+Obj v__3520116_37 = makeNative(co->gc, 1, clofun130, 0, 4, v__3519815_37, v__3519816_37, v__3519817_37, v__3519818_37);
+Obj v__3521693_37 = PRIM_ISCONS(v__3519815_37);
+if (True == v__3521693_37) {
+Obj v__3521694_37 = PRIM_CAR(v__3519815_37);
+Obj v__3521695_37 = PRIM_ISCONS(v__3521694_37);
+if (True == v__3521695_37) {
+Obj v__3521696_37 = PRIM_CAR(v__3519815_37);
+Obj v__3521697_37 = PRIM_CAR(v__3521696_37);
+Obj v__3521698_37 = PRIM_EQ(getBinding(co, packageID, 11).name, v__3521697_37);
+if (True == v__3521698_37) {
+Obj v__3521699_37 = PRIM_CAR(v__3519815_37);
+Obj v__3521700_37 = PRIM_CDR(v__3521699_37);
+Obj v__3520122_37 = v__3521700_37;
+Obj v__3521701_37 = PRIM_CDR(v__3519815_37);
+Obj v__3520123_37 = v__3521701_37;
+Obj v__3521702_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3520122_37);
+Obj v__3521703_37 = makeCons(co->gc, v__3521702_37, v__3519816_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519930_37, v__3521510_37, v__3519624_37, v__3519625_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3520123_37, v__3521703_37, v__3519817_37, v__3519818_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519923_37);
+coraCall0(co, v__3520116_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519923_37);
+coraCall0(co, v__3520116_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519923_37);
+coraCall0(co, v__3520116_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521475_37= co->res;
-Obj v__3519625_37 = R[1];
-Obj v__3521474_37 = R[2];
+Obj v__3521668_37= co->res;
+Obj v__3519818_37 = R[1];
+Obj v__3521667_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3519625_37, v__3521474_37, v__3521475_37);
+coraCall2(co, v__3519818_37, v__3521667_37, v__3521668_37);
 return;
 }
 case 2:
 {
-Obj v__3521474_37= co->res;
-Obj v__3519624_37 = R[1];
-Obj v__3519625_37 = R[2];
-R[1] = v__3519625_37;
-R[2] = v__3521474_37;
+Obj v__3521667_37= co->res;
+Obj v__3519817_37 = R[1];
+Obj v__3519818_37 = R[2];
+R[1] = v__3519818_37;
+R[2] = v__3521667_37;
 saveCont(co, clofun131, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519817_37);
 return;
 }
 }
@@ -1145,39 +1145,39 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519924_37 = makeNative(co->gc, 1, clofun129, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3521489_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521489_37) {
-Obj v__3521490_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521491_37 = PRIM_ISCONS(v__3521490_37);
-if (True == v__3521491_37) {
-Obj v__3521492_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521493_37 = PRIM_CAR(v__3521492_37);
-Obj v__3521494_37 = PRIM_EQ(getBinding(co, packageID, 13).name, v__3521493_37);
-if (True == v__3521494_37) {
-Obj v__3521495_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521496_37 = PRIM_CDR(v__3521495_37);
-Obj v__3519927_37 = v__3521496_37;
-Obj v__3521497_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519928_37 = v__3521497_37;
-Obj v__3521498_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, v__3519927_37);
-Obj v__3521499_37 = makeCons(co->gc, v__3521498_37, closureRef(R[0], 1));
+Obj v__3520117_37 = makeNative(co->gc, 1, clofun129, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3521682_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521682_37) {
+Obj v__3521683_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521684_37 = PRIM_ISCONS(v__3521683_37);
+if (True == v__3521684_37) {
+Obj v__3521685_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521686_37 = PRIM_CAR(v__3521685_37);
+Obj v__3521687_37 = PRIM_EQ(getBinding(co, packageID, 13).name, v__3521686_37);
+if (True == v__3521687_37) {
+Obj v__3521688_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521689_37 = PRIM_CDR(v__3521688_37);
+Obj v__3520120_37 = v__3521689_37;
+Obj v__3521690_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520121_37 = v__3521690_37;
+Obj v__3521691_37 = makeCons(co->gc, getBinding(co, packageID, 12).name, v__3520120_37);
+Obj v__3521692_37 = makeCons(co->gc, v__3521691_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519928_37, v__3521499_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3520121_37, v__3521692_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519924_37);
+coraCall0(co, v__3520117_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519924_37);
+coraCall0(co, v__3520117_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519924_37);
+coraCall0(co, v__3520117_37);
 return;
 }
 }
@@ -1188,24 +1188,24 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521476_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521476_37) {
-Obj v__3521477_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519925_37 = v__3521477_37;
-Obj v__3521478_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519926_37 = v__3521478_37;
-Obj v__3521479_37 = makeCons(co->gc, v__3519925_37, Nil);
-Obj v__3521480_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3521479_37);
-Obj v__3521481_37 = makeCons(co->gc, v__3521480_37, Nil);
-Obj v__3521482_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3521481_37);
-Obj v__3521483_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
-Obj v__3521484_37 = makeCons(co->gc, v__3521483_37, Nil);
-Obj v__3521485_37 = makeCons(co->gc, v__3521482_37, v__3521484_37);
-Obj v__3521486_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, v__3521485_37);
-Obj v__3521487_37 = makeCons(co->gc, v__3521486_37, closureRef(R[0], 1));
-Obj v__3521488_37 = makeCons(co->gc, v__3519925_37, closureRef(R[0], 2));
+Obj v__3521669_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521669_37) {
+Obj v__3521670_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520118_37 = v__3521670_37;
+Obj v__3521671_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520119_37 = v__3521671_37;
+Obj v__3521672_37 = makeCons(co->gc, v__3520118_37, Nil);
+Obj v__3521673_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3521672_37);
+Obj v__3521674_37 = makeCons(co->gc, v__3521673_37, Nil);
+Obj v__3521675_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3521674_37);
+Obj v__3521676_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, Nil);
+Obj v__3521677_37 = makeCons(co->gc, v__3521676_37, Nil);
+Obj v__3521678_37 = makeCons(co->gc, v__3521675_37, v__3521677_37);
+Obj v__3521679_37 = makeCons(co->gc, getBinding(co, packageID, 17).name, v__3521678_37);
+Obj v__3521680_37 = makeCons(co->gc, v__3521679_37, closureRef(R[0], 1));
+Obj v__3521681_37 = makeCons(co->gc, v__3520118_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3519926_37, v__3521487_37, v__3521488_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 18)), v__3520119_37, v__3521680_37, v__3521681_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1220,37 +1220,37 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519612_37 = R[1];
-Obj v__3519914_37 = makeNative(co->gc, 1, clofun127, 0, 1, v__3519612_37);
-Obj v__3521463_37 = PRIM_ISCONS(v__3519612_37);
-if (True == v__3521463_37) {
-Obj v__3521464_37 = PRIM_CAR(v__3519612_37);
-Obj v__3521465_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521464_37);
-if (True == v__3521465_37) {
-Obj v__3521466_37 = PRIM_CDR(v__3519612_37);
-Obj v__3521467_37 = PRIM_ISCONS(v__3521466_37);
-if (True == v__3521467_37) {
-Obj v__3521468_37 = PRIM_CDR(v__3519612_37);
-Obj v__3521469_37 = PRIM_CAR(v__3521468_37);
-Obj v__3521470_37 = PRIM_CDR(v__3519612_37);
-Obj v__3521471_37 = PRIM_CDR(v__3521470_37);
-Obj v__3519922_37 = v__3521471_37;
+Obj v__3519805_37 = R[1];
+Obj v__3520107_37 = makeNative(co->gc, 1, clofun127, 0, 1, v__3519805_37);
+Obj v__3521656_37 = PRIM_ISCONS(v__3519805_37);
+if (True == v__3521656_37) {
+Obj v__3521657_37 = PRIM_CAR(v__3519805_37);
+Obj v__3521658_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521657_37);
+if (True == v__3521658_37) {
+Obj v__3521659_37 = PRIM_CDR(v__3519805_37);
+Obj v__3521660_37 = PRIM_ISCONS(v__3521659_37);
+if (True == v__3521660_37) {
+Obj v__3521661_37 = PRIM_CDR(v__3519805_37);
+Obj v__3521662_37 = PRIM_CAR(v__3521661_37);
+Obj v__3521663_37 = PRIM_CDR(v__3519805_37);
+Obj v__3521664_37 = PRIM_CDR(v__3521663_37);
+Obj v__3520115_37 = v__3521664_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519922_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3520115_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519914_37);
+coraCall0(co, v__3520107_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519914_37);
+coraCall0(co, v__3520107_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519914_37);
+coraCall0(co, v__3520107_37);
 return;
 }
 }
@@ -1261,25 +1261,25 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519915_37 = makeNative(co->gc, 1, clofun126, 0, 1, closureRef(R[0], 0));
-Obj v__3521459_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521459_37) {
-Obj v__3521460_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521461_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521460_37);
-if (True == v__3521461_37) {
-Obj v__3521462_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519921_37 = v__3521462_37;
+Obj v__3520108_37 = makeNative(co->gc, 1, clofun126, 0, 1, closureRef(R[0], 0));
+Obj v__3521652_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521652_37) {
+Obj v__3521653_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521654_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521653_37);
+if (True == v__3521654_37) {
+Obj v__3521655_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520114_37 = v__3521655_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519921_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3520114_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519915_37);
+coraCall0(co, v__3520108_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519915_37);
+coraCall0(co, v__3520108_37);
 return;
 }
 }
@@ -1290,36 +1290,36 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519916_37 = makeNative(co->gc, 3, clofun125, 0, 1, closureRef(R[0], 0));
-Obj v__3521450_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521450_37) {
-Obj v__3521451_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521452_37 = PRIM_ISCONS(v__3521451_37);
-if (True == v__3521452_37) {
-Obj v__3521453_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521454_37 = PRIM_CAR(v__3521453_37);
-Obj v__3521455_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521454_37);
-if (True == v__3521455_37) {
-Obj v__3521456_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521457_37 = PRIM_CDR(v__3521456_37);
-Obj v__3521458_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519920_37 = v__3521458_37;
+Obj v__3520109_37 = makeNative(co->gc, 3, clofun125, 0, 1, closureRef(R[0], 0));
+Obj v__3521643_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521643_37) {
+Obj v__3521644_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521645_37 = PRIM_ISCONS(v__3521644_37);
+if (True == v__3521645_37) {
+Obj v__3521646_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521647_37 = PRIM_CAR(v__3521646_37);
+Obj v__3521648_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521647_37);
+if (True == v__3521648_37) {
+Obj v__3521649_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521650_37 = PRIM_CDR(v__3521649_37);
+Obj v__3521651_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520113_37 = v__3521651_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519920_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3520113_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519916_37);
+coraCall0(co, v__3520109_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519916_37);
+coraCall0(co, v__3520109_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519916_37);
+coraCall0(co, v__3520109_37);
 return;
 }
 }
@@ -1330,69 +1330,69 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519917_37 = makeNative(co->gc, 1, clofun124, 0, 0);
-Obj v__3521431_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521431_37) {
-Obj v__3521432_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521433_37 = PRIM_ISCONS(v__3521432_37);
-if (True == v__3521433_37) {
-Obj v__3521434_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521435_37 = PRIM_CAR(v__3521434_37);
-Obj v__3521436_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3521435_37);
-if (True == v__3521436_37) {
-Obj v__3521437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521438_37 = PRIM_CDR(v__3521437_37);
-Obj v__3521439_37 = PRIM_ISCONS(v__3521438_37);
-if (True == v__3521439_37) {
-Obj v__3521440_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521441_37 = PRIM_CDR(v__3521440_37);
-Obj v__3521442_37 = PRIM_CAR(v__3521441_37);
-Obj v__3519918_37 = v__3521442_37;
-Obj v__3521443_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521444_37 = PRIM_CDR(v__3521443_37);
-Obj v__3521445_37 = PRIM_CDR(v__3521444_37);
-Obj v__3521446_37 = PRIM_EQ(Nil, v__3521445_37);
-if (True == v__3521446_37) {
-Obj v__3521447_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519919_37 = v__3521447_37;
-R[1] = v__3519918_37;
-R[2] = v__3519919_37;
+Obj v__3520110_37 = makeNative(co->gc, 1, clofun124, 0, 0);
+Obj v__3521624_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521624_37) {
+Obj v__3521625_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521626_37 = PRIM_ISCONS(v__3521625_37);
+if (True == v__3521626_37) {
+Obj v__3521627_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521628_37 = PRIM_CAR(v__3521627_37);
+Obj v__3521629_37 = PRIM_EQ(getBinding(co, packageID, 23).name, v__3521628_37);
+if (True == v__3521629_37) {
+Obj v__3521630_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521631_37 = PRIM_CDR(v__3521630_37);
+Obj v__3521632_37 = PRIM_ISCONS(v__3521631_37);
+if (True == v__3521632_37) {
+Obj v__3521633_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521634_37 = PRIM_CDR(v__3521633_37);
+Obj v__3521635_37 = PRIM_CAR(v__3521634_37);
+Obj v__3520111_37 = v__3521635_37;
+Obj v__3521636_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521637_37 = PRIM_CDR(v__3521636_37);
+Obj v__3521638_37 = PRIM_CDR(v__3521637_37);
+Obj v__3521639_37 = PRIM_EQ(Nil, v__3521638_37);
+if (True == v__3521639_37) {
+Obj v__3521640_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520112_37 = v__3521640_37;
+R[1] = v__3520111_37;
+R[2] = v__3520112_37;
 saveCont(co, clofun125, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), v__3519918_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 133)), v__3520111_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519917_37);
+coraCall0(co, v__3520110_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519917_37);
+coraCall0(co, v__3520110_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519917_37);
+coraCall0(co, v__3520110_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519917_37);
+coraCall0(co, v__3520110_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519917_37);
+coraCall0(co, v__3520110_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521449_37= co->res;
-Obj v__3519919_37 = R[1];
-if (True == v__3521449_37) {
+Obj v__3521642_37= co->res;
+Obj v__3520112_37 = R[1];
+if (True == v__3521642_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519919_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3520112_37);
 return;
 } else {
 coraReturn(co, False);
@@ -1401,12 +1401,12 @@ return;
 }
 case 2:
 {
-Obj v__3521448_37= co->res;
-Obj v__3519918_37 = R[1];
-Obj v__3519919_37 = R[2];
-R[1] = v__3519919_37;
+Obj v__3521641_37= co->res;
+Obj v__3520111_37 = R[1];
+Obj v__3520112_37 = R[2];
+R[1] = v__3520112_37;
 saveCont(co, clofun125, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519918_37, globalRef(co, getBinding(co, packageID, 22)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3520111_37, globalRef(co, getBinding(co, packageID, 22)));
 return;
 }
 }
@@ -1426,133 +1426,133 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519607_37 = R[1];
-Obj v__3519608_37 = R[2];
-Obj v__3519609_37 = R[3];
-R[1] = v__3519607_37;
-R[2] = v__3519609_37;
-R[3] = v__3519608_37;
+Obj v__3519800_37 = R[1];
+Obj v__3519801_37 = R[2];
+Obj v__3519802_37 = R[3];
+R[1] = v__3519800_37;
+R[2] = v__3519802_37;
+R[3] = v__3519801_37;
 saveCont(co, clofun123, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519607_37, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519800_37, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v__3521429_37= co->res;
-Obj v__3519607_37 = R[1];
-Obj v__3519609_37 = R[2];
-Obj v__3519608_37 = R[3];
+Obj v__3521622_37= co->res;
+Obj v__3519800_37 = R[1];
+Obj v__3519802_37 = R[2];
+Obj v__3519801_37 = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun122, 1, 2, v__3519607_37, v__3519609_37), v__3519608_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun122, 1, 2, v__3519800_37, v__3519802_37), v__3519801_37);
 return;
 }
 case 2:
 {
-Obj v__3521428_37= co->res;
-Obj v__3521425_37 = R[1];
-Obj v__3519607_37 = R[2];
-Obj v__3519609_37 = R[3];
-Obj v__3519608_37 = R[4];
-R[1] = v__3519607_37;
-R[2] = v__3519609_37;
-R[3] = v__3519608_37;
+Obj v__3521621_37= co->res;
+Obj v__3521618_37 = R[1];
+Obj v__3519800_37 = R[2];
+Obj v__3519802_37 = R[3];
+Obj v__3519801_37 = R[4];
+R[1] = v__3519800_37;
+R[2] = v__3519802_37;
+R[3] = v__3519801_37;
 saveCont(co, clofun123, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), v__3519607_37, v__3519609_37, v__3521425_37, v__3521428_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 27)), v__3519800_37, v__3519802_37, v__3521618_37, v__3521621_37);
 return;
 }
 case 3:
 {
-Obj v__3521427_37= co->res;
-Obj v__3521425_37 = R[1];
-Obj v__3519607_37 = R[2];
-Obj v__3519609_37 = R[3];
-Obj v__3519608_37 = R[4];
-R[1] = v__3521425_37;
-R[2] = v__3519607_37;
-R[3] = v__3519609_37;
-R[4] = v__3519608_37;
+Obj v__3521620_37= co->res;
+Obj v__3521618_37 = R[1];
+Obj v__3519800_37 = R[2];
+Obj v__3519802_37 = R[3];
+Obj v__3519801_37 = R[4];
+R[1] = v__3521618_37;
+R[2] = v__3519800_37;
+R[3] = v__3519802_37;
+R[4] = v__3519801_37;
 saveCont(co, clofun123, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3521427_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3521620_37);
 return;
 }
 case 4:
 {
-Obj v__3521425_37= co->res;
-Obj v__3519607_37 = R[1];
-Obj v__3519609_37 = R[2];
-Obj v__3519608_37 = R[3];
-Obj v__3521426_37 = PRIM_CAR(v__3519608_37);
-R[1] = v__3521425_37;
-R[2] = v__3519607_37;
-R[3] = v__3519609_37;
-R[4] = v__3519608_37;
+Obj v__3521618_37= co->res;
+Obj v__3519800_37 = R[1];
+Obj v__3519802_37 = R[2];
+Obj v__3519801_37 = R[3];
+Obj v__3521619_37 = PRIM_CAR(v__3519801_37);
+R[1] = v__3521618_37;
+R[2] = v__3519800_37;
+R[3] = v__3519802_37;
+R[4] = v__3519801_37;
 saveCont(co, clofun123, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3521426_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3521619_37);
 return;
 }
 case 5:
 {
-Obj v__3521424_37= co->res;
-Obj v__3519607_37 = R[1];
-Obj v__3519609_37 = R[2];
-Obj v__3519608_37 = R[3];
-R[1] = v__3519607_37;
-R[2] = v__3519609_37;
-R[3] = v__3519608_37;
+Obj v__3521617_37= co->res;
+Obj v__3519800_37 = R[1];
+Obj v__3519802_37 = R[2];
+Obj v__3519801_37 = R[3];
+R[1] = v__3519800_37;
+R[2] = v__3519802_37;
+R[3] = v__3519801_37;
 saveCont(co, clofun123, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3519608_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3519801_37);
 return;
 }
 case 6:
 {
-Obj v__3521423_37= co->res;
-Obj v__3519607_37 = R[1];
-Obj v__3519609_37 = R[2];
-Obj v__3519608_37 = R[3];
-R[1] = v__3519607_37;
-R[2] = v__3519609_37;
-R[3] = v__3519608_37;
+Obj v__3521616_37= co->res;
+Obj v__3519800_37 = R[1];
+Obj v__3519802_37 = R[2];
+Obj v__3519801_37 = R[3];
+R[1] = v__3519800_37;
+R[2] = v__3519802_37;
+R[3] = v__3519801_37;
 saveCont(co, clofun123, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519607_37, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519800_37, makeCString(co->gc, "\n\n"));
 return;
 }
 case 7:
 {
-Obj v__3521420_37= co->res;
-Obj v__3519607_37 = R[1];
-Obj v__3519609_37 = R[2];
-Obj v__3519608_37 = R[3];
-R[1] = v__3519607_37;
-R[2] = v__3519609_37;
-R[3] = v__3519608_37;
+Obj v__3521613_37= co->res;
+Obj v__3519800_37 = R[1];
+Obj v__3519802_37 = R[2];
+Obj v__3519801_37 = R[3];
+R[1] = v__3519800_37;
+R[2] = v__3519802_37;
+R[3] = v__3519801_37;
 saveCont(co, clofun123, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun121, 1, 1, v__3519607_37), v__3519608_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), makeNative(co->gc, 2, clofun121, 1, 1, v__3519800_37), v__3519801_37);
 return;
 }
 case 8:
 {
-Obj v__3521419_37= co->res;
-Obj v__3519607_37 = R[1];
-Obj v__3519609_37 = R[2];
-Obj v__3519608_37 = R[3];
-R[1] = v__3519607_37;
-R[2] = v__3519609_37;
-R[3] = v__3519608_37;
+Obj v__3521612_37= co->res;
+Obj v__3519800_37 = R[1];
+Obj v__3519802_37 = R[2];
+Obj v__3519801_37 = R[3];
+R[1] = v__3519800_37;
+R[2] = v__3519802_37;
+R[3] = v__3519801_37;
 saveCont(co, clofun123, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519607_37, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519800_37, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 9:
 {
-Obj v__3521418_37= co->res;
-Obj v__3519607_37 = R[1];
-Obj v__3519609_37 = R[2];
-Obj v__3519608_37 = R[3];
-R[1] = v__3519607_37;
-R[2] = v__3519609_37;
-R[3] = v__3519608_37;
+Obj v__3521611_37= co->res;
+Obj v__3519800_37 = R[1];
+Obj v__3519802_37 = R[2];
+Obj v__3519801_37 = R[3];
+R[1] = v__3519800_37;
+R[2] = v__3519802_37;
+R[3] = v__3519801_37;
 saveCont(co, clofun123, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519607_37, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519800_37, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1562,9 +1562,9 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519611_37 = R[1];
+Obj v__3519804_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 28)), closureRef(R[0], 0), v__3519611_37, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 28)), closureRef(R[0], 0), v__3519804_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -1574,15 +1574,15 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519610_37 = R[1];
-Obj v__3521421_37 = PRIM_CAR(v__3519610_37);
+Obj v__3519803_37 = R[1];
+Obj v__3521614_37 = PRIM_CAR(v__3519803_37);
 saveCont(co, clofun121, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), v__3521421_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), closureRef(R[0], 0), v__3521614_37);
 return;
 }
 case 1:
 {
-Obj v__3521422_37= co->res;
+Obj v__3521615_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1594,172 +1594,172 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519601_37 = R[1];
-Obj v__3519602_37 = R[2];
-Obj v__3519603_37 = R[3];
-Obj v__3519604_37 = R[4];
-R[1] = v__3519602_37;
-R[2] = v__3519604_37;
-R[3] = v__3519603_37;
-R[4] = v__3519601_37;
+Obj v__3519794_37 = R[1];
+Obj v__3519795_37 = R[2];
+Obj v__3519796_37 = R[3];
+Obj v__3519797_37 = R[4];
+R[1] = v__3519795_37;
+R[2] = v__3519797_37;
+R[3] = v__3519796_37;
+R[4] = v__3519794_37;
 saveCont(co, clofun120, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519794_37, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v__3521416_37= co->res;
-Obj v__3519601_37 = R[1];
+Obj v__3521609_37= co->res;
+Obj v__3519794_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, ", 0, 0));\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519794_37, makeCString(co->gc, ", 0, 0));\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3521415_37= co->res;
-Obj v__3519603_37 = R[1];
-Obj v__3519601_37 = R[2];
-R[1] = v__3519601_37;
+Obj v__3521608_37= co->res;
+Obj v__3519796_37 = R[1];
+Obj v__3519794_37 = R[2];
+R[1] = v__3519794_37;
 saveCont(co, clofun120, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519601_37, v__3519603_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519794_37, v__3519796_37);
 return;
 }
 case 3:
 {
-Obj v__3521414_37= co->res;
-Obj v__3519603_37 = R[1];
-Obj v__3519601_37 = R[2];
-R[1] = v__3519603_37;
-R[2] = v__3519601_37;
+Obj v__3521607_37= co->res;
+Obj v__3519796_37 = R[1];
+Obj v__3519794_37 = R[2];
+R[1] = v__3519796_37;
+R[2] = v__3519794_37;
 saveCont(co, clofun120, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519794_37, makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3521413_37= co->res;
-Obj v__3519604_37 = R[1];
-Obj v__3519603_37 = R[2];
-Obj v__3519601_37 = R[3];
-R[1] = v__3519603_37;
-R[2] = v__3519601_37;
+Obj v__3521606_37= co->res;
+Obj v__3519797_37 = R[1];
+Obj v__3519796_37 = R[2];
+Obj v__3519794_37 = R[3];
+R[1] = v__3519796_37;
+R[2] = v__3519794_37;
 saveCont(co, clofun120, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519601_37, v__3519604_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519794_37, v__3519797_37);
 return;
 }
 case 5:
 {
-Obj v__3521412_37= co->res;
-Obj v__3519604_37 = R[1];
-Obj v__3519603_37 = R[2];
-Obj v__3519601_37 = R[3];
-R[1] = v__3519604_37;
-R[2] = v__3519603_37;
-R[3] = v__3519601_37;
+Obj v__3521605_37= co->res;
+Obj v__3519797_37 = R[1];
+Obj v__3519796_37 = R[2];
+Obj v__3519794_37 = R[3];
+R[1] = v__3519797_37;
+R[2] = v__3519796_37;
+R[3] = v__3519794_37;
 saveCont(co, clofun120, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519794_37, makeCString(co->gc, "coraCall0(co, makeNative(co->gc, "));
 return;
 }
 case 6:
 {
-Obj v__3521411_37= co->res;
-Obj v__3519604_37 = R[1];
-Obj v__3519603_37 = R[2];
-Obj v__3519601_37 = R[3];
-R[1] = v__3519604_37;
-R[2] = v__3519603_37;
-R[3] = v__3519601_37;
+Obj v__3521604_37= co->res;
+Obj v__3519797_37 = R[1];
+Obj v__3519796_37 = R[2];
+Obj v__3519794_37 = R[3];
+R[1] = v__3519797_37;
+R[2] = v__3519796_37;
+R[3] = v__3519794_37;
 saveCont(co, clofun120, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519794_37, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 7:
 {
-Obj v__3521402_37= co->res;
-Obj v__3519602_37 = R[1];
-Obj v__3519604_37 = R[2];
-Obj v__3519603_37 = R[3];
-Obj v__3519601_37 = R[4];
-R[1] = v__3519604_37;
-R[2] = v__3519603_37;
-R[3] = v__3519601_37;
+Obj v__3521595_37= co->res;
+Obj v__3519795_37 = R[1];
+Obj v__3519797_37 = R[2];
+Obj v__3519796_37 = R[3];
+Obj v__3519794_37 = R[4];
+R[1] = v__3519797_37;
+R[2] = v__3519796_37;
+R[3] = v__3519794_37;
 saveCont(co, clofun120, 6, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun119, 2, 1, v__3519601_37), MAKE_NUMBER(0), v__3519602_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun119, 2, 1, v__3519794_37), MAKE_NUMBER(0), v__3519795_37);
 return;
 }
 case 8:
 {
-Obj v__3521401_37= co->res;
-Obj v__3519602_37 = R[1];
-Obj v__3519604_37 = R[2];
-Obj v__3519603_37 = R[3];
-Obj v__3519601_37 = R[4];
-R[1] = v__3519602_37;
-R[2] = v__3519604_37;
-R[3] = v__3519603_37;
-R[4] = v__3519601_37;
+Obj v__3521594_37= co->res;
+Obj v__3519795_37 = R[1];
+Obj v__3519797_37 = R[2];
+Obj v__3519796_37 = R[3];
+Obj v__3519794_37 = R[4];
+R[1] = v__3519795_37;
+R[2] = v__3519797_37;
+R[3] = v__3519796_37;
+R[4] = v__3519794_37;
 saveCont(co, clofun120, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519794_37, makeCString(co->gc, ");\n"));
 return;
 }
 case 9:
 {
-Obj v__3521400_37= co->res;
-Obj v__3519602_37 = R[1];
-Obj v__3519604_37 = R[2];
-Obj v__3519603_37 = R[3];
-Obj v__3519601_37 = R[4];
-R[1] = v__3519602_37;
-R[2] = v__3519604_37;
-R[3] = v__3519603_37;
-R[4] = v__3519601_37;
+Obj v__3521593_37= co->res;
+Obj v__3519795_37 = R[1];
+Obj v__3519797_37 = R[2];
+Obj v__3519796_37 = R[3];
+Obj v__3519794_37 = R[4];
+R[1] = v__3519795_37;
+R[2] = v__3519797_37;
+R[3] = v__3519796_37;
+R[4] = v__3519794_37;
 saveCont(co, clofun120, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519601_37, v__3521400_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519794_37, v__3521593_37);
 return;
 }
 case 10:
 {
-Obj v__3521399_37= co->res;
-Obj v__3519602_37 = R[1];
-Obj v__3519604_37 = R[2];
-Obj v__3519603_37 = R[3];
-Obj v__3519601_37 = R[4];
-R[1] = v__3519602_37;
-R[2] = v__3519604_37;
-R[3] = v__3519603_37;
-R[4] = v__3519601_37;
+Obj v__3521592_37= co->res;
+Obj v__3519795_37 = R[1];
+Obj v__3519797_37 = R[2];
+Obj v__3519796_37 = R[3];
+Obj v__3519794_37 = R[4];
+R[1] = v__3519795_37;
+R[2] = v__3519797_37;
+R[3] = v__3519796_37;
+R[4] = v__3519794_37;
 saveCont(co, clofun120, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519602_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519795_37);
 return;
 }
 case 11:
 {
-Obj v__3521398_37= co->res;
-Obj v__3519602_37 = R[1];
-Obj v__3519604_37 = R[2];
-Obj v__3519603_37 = R[3];
-Obj v__3519601_37 = R[4];
-R[1] = v__3519602_37;
-R[2] = v__3519604_37;
-R[3] = v__3519603_37;
-R[4] = v__3519601_37;
+Obj v__3521591_37= co->res;
+Obj v__3519795_37 = R[1];
+Obj v__3519797_37 = R[2];
+Obj v__3519796_37 = R[3];
+Obj v__3519794_37 = R[4];
+R[1] = v__3519795_37;
+R[2] = v__3519797_37;
+R[3] = v__3519796_37;
+R[4] = v__3519794_37;
 saveCont(co, clofun120, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519794_37, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 12:
 {
-Obj v__3521397_37= co->res;
-Obj v__3519602_37 = R[1];
-Obj v__3519604_37 = R[2];
-Obj v__3519603_37 = R[3];
-Obj v__3519601_37 = R[4];
-R[1] = v__3519602_37;
-R[2] = v__3519604_37;
-R[3] = v__3519603_37;
-R[4] = v__3519601_37;
+Obj v__3521590_37= co->res;
+Obj v__3519795_37 = R[1];
+Obj v__3519797_37 = R[2];
+Obj v__3519796_37 = R[3];
+Obj v__3519794_37 = R[4];
+R[1] = v__3519795_37;
+R[2] = v__3519797_37;
+R[3] = v__3519796_37;
+R[4] = v__3519794_37;
 saveCont(co, clofun120, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519601_37, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519794_37, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1769,79 +1769,79 @@ static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519605_37 = R[1];
-Obj v__3519606_37 = R[2];
-R[1] = v__3519606_37;
-R[2] = v__3519605_37;
+Obj v__3519798_37 = R[1];
+Obj v__3519799_37 = R[2];
+R[1] = v__3519799_37;
+R[2] = v__3519798_37;
 saveCont(co, clofun119, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v__3521409_37= co->res;
-Obj v__3519605_37 = R[1];
-Obj v__3521410_37 = PRIM_ADD(v__3519605_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521410_37);
+Obj v__3521602_37= co->res;
+Obj v__3519798_37 = R[1];
+Obj v__3521603_37 = PRIM_ADD(v__3519798_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521603_37);
 return;
 }
 case 2:
 {
-Obj v__3521408_37= co->res;
-Obj v__3519605_37 = R[1];
-R[1] = v__3519605_37;
+Obj v__3521601_37= co->res;
+Obj v__3519798_37 = R[1];
+R[1] = v__3519798_37;
 saveCont(co, clofun119, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v__3521407_37= co->res;
-Obj v__3519605_37 = R[1];
-R[1] = v__3519605_37;
+Obj v__3521600_37= co->res;
+Obj v__3519798_37 = R[1];
+R[1] = v__3519798_37;
 saveCont(co, clofun119, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), v__3521407_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), v__3521600_37);
 return;
 }
 case 4:
 {
-Obj v__3521406_37= co->res;
-Obj v__3519605_37 = R[1];
-R[1] = v__3519605_37;
+Obj v__3521599_37= co->res;
+Obj v__3519798_37 = R[1];
+R[1] = v__3519798_37;
 saveCont(co, clofun119, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3521406_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3521599_37);
 return;
 }
 case 5:
 {
-Obj v__3521405_37= co->res;
-Obj v__3519606_37 = R[1];
-Obj v__3519605_37 = R[2];
-R[1] = v__3519605_37;
+Obj v__3521598_37= co->res;
+Obj v__3519799_37 = R[1];
+Obj v__3519798_37 = R[2];
+R[1] = v__3519798_37;
 saveCont(co, clofun119, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 26)), v__3519606_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 26)), v__3519799_37);
 return;
 }
 case 6:
 {
-Obj v__3521404_37= co->res;
-Obj v__3519606_37 = R[1];
-Obj v__3519605_37 = R[2];
-R[1] = v__3519606_37;
-R[2] = v__3519605_37;
+Obj v__3521597_37= co->res;
+Obj v__3519799_37 = R[1];
+Obj v__3519798_37 = R[2];
+R[1] = v__3519799_37;
+R[2] = v__3519798_37;
 saveCont(co, clofun119, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v__3521403_37= co->res;
-Obj v__3519606_37 = R[1];
-Obj v__3519605_37 = R[2];
-R[1] = v__3519606_37;
-R[2] = v__3519605_37;
+Obj v__3521596_37= co->res;
+Obj v__3519799_37 = R[1];
+Obj v__3519798_37 = R[2];
+R[1] = v__3519799_37;
+R[2] = v__3519798_37;
 saveCont(co, clofun119, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v__3519605_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), v__3519798_37);
 return;
 }
 }
@@ -1851,221 +1851,221 @@ static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519592_37 = R[1];
-Obj v__3519593_37 = R[2];
-Obj v__3519594_37 = R[3];
-Obj v__3521375_37 = PRIM_CAR(v__3519593_37);
-Obj v__3519910_37 = v__3521375_37;
-R[1] = v__3519594_37;
-R[2] = v__3519910_37;
-R[3] = v__3519592_37;
+Obj v__3519785_37 = R[1];
+Obj v__3519786_37 = R[2];
+Obj v__3519787_37 = R[3];
+Obj v__3521568_37 = PRIM_CAR(v__3519786_37);
+Obj v__3520103_37 = v__3521568_37;
+R[1] = v__3519787_37;
+R[2] = v__3520103_37;
+R[3] = v__3519785_37;
 saveCont(co, clofun118, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519593_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519786_37);
 return;
 }
 case 1:
 {
-Obj v__3521395_37= co->res;
-Obj v__3519592_37 = R[1];
+Obj v__3521588_37= co->res;
+Obj v__3519785_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519785_37, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3521394_37= co->res;
-Obj v__3519592_37 = R[1];
-R[1] = v__3519592_37;
+Obj v__3521587_37= co->res;
+Obj v__3519785_37 = R[1];
+R[1] = v__3519785_37;
 saveCont(co, clofun118, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519785_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3521393_37= co->res;
-Obj v__3519594_37 = R[1];
-Obj v__3519910_37 = R[2];
-Obj v__3519911_37 = R[3];
-Obj v__3519592_37 = R[4];
-R[1] = v__3519592_37;
+Obj v__3521586_37= co->res;
+Obj v__3519787_37 = R[1];
+Obj v__3520103_37 = R[2];
+Obj v__3520104_37 = R[3];
+Obj v__3519785_37 = R[4];
+R[1] = v__3519785_37;
 saveCont(co, clofun118, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun117, 2, 4, v__3519594_37, v__3519910_37, v__3519911_37, v__3519592_37), MAKE_NUMBER(1), v__3521393_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun117, 2, 4, v__3519787_37, v__3520103_37, v__3520104_37, v__3519785_37), MAKE_NUMBER(1), v__3521586_37);
 return;
 }
 case 4:
 {
-Obj v__3521385_37= co->res;
-Obj v__3519594_37 = R[1];
-Obj v__3519910_37 = R[2];
-Obj v__3519911_37 = R[3];
-Obj v__3519592_37 = R[4];
-R[1] = v__3519594_37;
-R[2] = v__3519910_37;
-R[3] = v__3519911_37;
-R[4] = v__3519592_37;
+Obj v__3521578_37= co->res;
+Obj v__3519787_37 = R[1];
+Obj v__3520103_37 = R[2];
+Obj v__3520104_37 = R[3];
+Obj v__3519785_37 = R[4];
+R[1] = v__3519787_37;
+R[2] = v__3520103_37;
+R[3] = v__3520104_37;
+R[4] = v__3519785_37;
 saveCont(co, clofun118, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519911_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3520104_37);
 return;
 }
 case 5:
 {
-Obj v__3521384_37= co->res;
-Obj v__3519594_37 = R[1];
-Obj v__3519910_37 = R[2];
-Obj v__3519911_37 = R[3];
-Obj v__3519592_37 = R[4];
-R[1] = v__3519594_37;
-R[2] = v__3519910_37;
-R[3] = v__3519911_37;
-R[4] = v__3519592_37;
+Obj v__3521577_37= co->res;
+Obj v__3519787_37 = R[1];
+Obj v__3520103_37 = R[2];
+Obj v__3520104_37 = R[3];
+Obj v__3519785_37 = R[4];
+R[1] = v__3519787_37;
+R[2] = v__3520103_37;
+R[3] = v__3520104_37;
+R[4] = v__3519785_37;
 saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519785_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v__3521383_37= co->res;
-Obj v__3519912_37 = R[1];
-Obj v__3519913_37 = R[2];
-Obj v__3519594_37 = R[3];
-Obj v__3519910_37 = R[4];
-Obj v__3519911_37 = R[5];
-Obj v__3519592_37 = R[6];
-R[1] = v__3519594_37;
-R[2] = v__3519910_37;
-R[3] = v__3519911_37;
-R[4] = v__3519592_37;
+Obj v__3521576_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520106_37 = R[2];
+Obj v__3519787_37 = R[3];
+Obj v__3520103_37 = R[4];
+Obj v__3520104_37 = R[5];
+Obj v__3519785_37 = R[6];
+R[1] = v__3519787_37;
+R[2] = v__3520103_37;
+R[3] = v__3520104_37;
+R[4] = v__3519785_37;
 saveCont(co, clofun118, 5, R);
-Obj __args[5] = {v__3519594_37, v__3519910_37, v__3519912_37, v__3519592_37, v__3519913_37};
+Obj __args[5] = {v__3519787_37, v__3520103_37, v__3520105_37, v__3519785_37, v__3520106_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3521382_37= co->res;
-Obj v__3519912_37 = R[1];
-Obj v__3519913_37 = R[2];
-Obj v__3519594_37 = R[3];
-Obj v__3519910_37 = R[4];
-Obj v__3519911_37 = R[5];
-Obj v__3519592_37 = R[6];
-R[1] = v__3519912_37;
-R[2] = v__3519913_37;
-R[3] = v__3519594_37;
-R[4] = v__3519910_37;
-R[5] = v__3519911_37;
-R[6] = v__3519592_37;
+Obj v__3521575_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520106_37 = R[2];
+Obj v__3519787_37 = R[3];
+Obj v__3520103_37 = R[4];
+Obj v__3520104_37 = R[5];
+Obj v__3519785_37 = R[6];
+R[1] = v__3520105_37;
+R[2] = v__3520106_37;
+R[3] = v__3519787_37;
+R[4] = v__3520103_37;
+R[5] = v__3520104_37;
+R[6] = v__3519785_37;
 saveCont(co, clofun118, 6, R);
-Obj __args[5] = {v__3519594_37, v__3519910_37, Nil, v__3519592_37, v__3519912_37};
+Obj __args[5] = {v__3519787_37, v__3520103_37, Nil, v__3519785_37, v__3520105_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v__3521381_37= co->res;
-Obj v__3519912_37 = R[1];
-Obj v__3519913_37 = R[2];
-Obj v__3519594_37 = R[3];
-Obj v__3519910_37 = R[4];
-Obj v__3519911_37 = R[5];
-Obj v__3519592_37 = R[6];
-R[1] = v__3519912_37;
-R[2] = v__3519913_37;
-R[3] = v__3519594_37;
-R[4] = v__3519910_37;
-R[5] = v__3519911_37;
-R[6] = v__3519592_37;
+Obj v__3521574_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520106_37 = R[2];
+Obj v__3519787_37 = R[3];
+Obj v__3520103_37 = R[4];
+Obj v__3520104_37 = R[5];
+Obj v__3519785_37 = R[6];
+R[1] = v__3520105_37;
+R[2] = v__3520106_37;
+R[3] = v__3519787_37;
+R[4] = v__3520103_37;
+R[5] = v__3520104_37;
+R[6] = v__3519785_37;
 saveCont(co, clofun118, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519785_37, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v__3521380_37= co->res;
-Obj v__3519912_37 = R[1];
-Obj v__3519913_37 = R[2];
-Obj v__3519594_37 = R[3];
-Obj v__3519910_37 = R[4];
-Obj v__3519911_37 = R[5];
-Obj v__3519592_37 = R[6];
-R[1] = v__3519912_37;
-R[2] = v__3519913_37;
-R[3] = v__3519594_37;
-R[4] = v__3519910_37;
-R[5] = v__3519911_37;
-R[6] = v__3519592_37;
+Obj v__3521573_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520106_37 = R[2];
+Obj v__3519787_37 = R[3];
+Obj v__3520103_37 = R[4];
+Obj v__3520104_37 = R[5];
+Obj v__3519785_37 = R[6];
+R[1] = v__3520105_37;
+R[2] = v__3520106_37;
+R[3] = v__3519787_37;
+R[4] = v__3520103_37;
+R[5] = v__3520104_37;
+R[6] = v__3519785_37;
 saveCont(co, clofun118, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519785_37, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v__3521379_37= co->res;
-Obj v__3519912_37 = R[1];
-Obj v__3519913_37 = R[2];
-Obj v__3519594_37 = R[3];
-Obj v__3519910_37 = R[4];
-Obj v__3519911_37 = R[5];
-Obj v__3519592_37 = R[6];
-R[1] = v__3519912_37;
-R[2] = v__3519913_37;
-R[3] = v__3519594_37;
-R[4] = v__3519910_37;
-R[5] = v__3519911_37;
-R[6] = v__3519592_37;
+Obj v__3521572_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520106_37 = R[2];
+Obj v__3519787_37 = R[3];
+Obj v__3520103_37 = R[4];
+Obj v__3520104_37 = R[5];
+Obj v__3519785_37 = R[6];
+R[1] = v__3520105_37;
+R[2] = v__3520106_37;
+R[3] = v__3519787_37;
+R[4] = v__3520103_37;
+R[5] = v__3520104_37;
+R[6] = v__3519785_37;
 saveCont(co, clofun118, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519592_37, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519785_37, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v__3521378_37= co->res;
-Obj v__3519912_37 = R[1];
-Obj v__3519594_37 = R[2];
-Obj v__3519910_37 = R[3];
-Obj v__3519911_37 = R[4];
-Obj v__3519592_37 = R[5];
-Obj v__3519913_37 = v__3521378_37;
-R[1] = v__3519912_37;
-R[2] = v__3519913_37;
-R[3] = v__3519594_37;
-R[4] = v__3519910_37;
-R[5] = v__3519911_37;
-R[6] = v__3519592_37;
+Obj v__3521571_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3519787_37 = R[2];
+Obj v__3520103_37 = R[3];
+Obj v__3520104_37 = R[4];
+Obj v__3519785_37 = R[5];
+Obj v__3520106_37 = v__3521571_37;
+R[1] = v__3520105_37;
+R[2] = v__3520106_37;
+R[3] = v__3519787_37;
+R[4] = v__3520103_37;
+R[5] = v__3520104_37;
+R[6] = v__3519785_37;
 saveCont(co, clofun118, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), v__3519592_37, v__3519910_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 41)), v__3519785_37, v__3520103_37);
 return;
 }
 case 12:
 {
-Obj v__3521377_37= co->res;
-Obj v__3519594_37 = R[1];
-Obj v__3519910_37 = R[2];
-Obj v__3519911_37 = R[3];
-Obj v__3519592_37 = R[4];
-Obj v__3519912_37 = v__3521377_37;
-R[1] = v__3519912_37;
-R[2] = v__3519594_37;
-R[3] = v__3519910_37;
-R[4] = v__3519911_37;
-R[5] = v__3519592_37;
+Obj v__3521570_37= co->res;
+Obj v__3519787_37 = R[1];
+Obj v__3520103_37 = R[2];
+Obj v__3520104_37 = R[3];
+Obj v__3519785_37 = R[4];
+Obj v__3520105_37 = v__3521570_37;
+R[1] = v__3520105_37;
+R[2] = v__3519787_37;
+R[3] = v__3520103_37;
+R[4] = v__3520104_37;
+R[5] = v__3519785_37;
 saveCont(co, clofun118, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519911_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520104_37);
 return;
 }
 case 13:
 {
-Obj v__3521376_37= co->res;
-Obj v__3519594_37 = R[1];
-Obj v__3519910_37 = R[2];
-Obj v__3519592_37 = R[3];
-Obj v__3519911_37 = v__3521376_37;
-R[1] = v__3519594_37;
-R[2] = v__3519910_37;
-R[3] = v__3519911_37;
-R[4] = v__3519592_37;
+Obj v__3521569_37= co->res;
+Obj v__3519787_37 = R[1];
+Obj v__3520103_37 = R[2];
+Obj v__3519785_37 = R[3];
+Obj v__3520104_37 = v__3521569_37;
+R[1] = v__3519787_37;
+R[2] = v__3520103_37;
+R[3] = v__3520104_37;
+R[4] = v__3519785_37;
 saveCont(co, clofun118, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519911_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3520104_37);
 return;
 }
 }
@@ -2075,73 +2075,73 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519599_37 = R[1];
-Obj v__3519600_37 = R[2];
-R[1] = v__3519600_37;
-R[2] = v__3519599_37;
+Obj v__3519792_37 = R[1];
+Obj v__3519793_37 = R[2];
+R[1] = v__3519793_37;
+R[2] = v__3519792_37;
 saveCont(co, clofun117, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v__3521391_37= co->res;
-Obj v__3519599_37 = R[1];
-Obj v__3521392_37 = PRIM_ADD(v__3519599_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521392_37);
+Obj v__3521584_37= co->res;
+Obj v__3519792_37 = R[1];
+Obj v__3521585_37 = PRIM_ADD(v__3519792_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521585_37);
 return;
 }
 case 2:
 {
-Obj v__3521390_37= co->res;
-Obj v__3519599_37 = R[1];
-R[1] = v__3519599_37;
+Obj v__3521583_37= co->res;
+Obj v__3519792_37 = R[1];
+R[1] = v__3519792_37;
 saveCont(co, clofun117, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3521389_37= co->res;
-Obj v__3519600_37 = R[1];
-Obj v__3519599_37 = R[2];
-R[1] = v__3519599_37;
+Obj v__3521582_37= co->res;
+Obj v__3519793_37 = R[1];
+Obj v__3519792_37 = R[2];
+R[1] = v__3519792_37;
 saveCont(co, clofun117, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3521389_37, closureRef(R[0], 3), v__3519600_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3521582_37, closureRef(R[0], 3), v__3519793_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 42)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3521388_37= co->res;
-Obj v__3519600_37 = R[1];
-Obj v__3519599_37 = R[2];
-R[1] = v__3519600_37;
-R[2] = v__3519599_37;
+Obj v__3521581_37= co->res;
+Obj v__3519793_37 = R[1];
+Obj v__3519792_37 = R[2];
+R[1] = v__3519793_37;
+R[2] = v__3519792_37;
 saveCont(co, clofun117, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v__3521387_37= co->res;
-Obj v__3519600_37 = R[1];
-Obj v__3519599_37 = R[2];
-R[1] = v__3519600_37;
-R[2] = v__3519599_37;
+Obj v__3521580_37= co->res;
+Obj v__3519793_37 = R[1];
+Obj v__3519792_37 = R[2];
+R[1] = v__3519793_37;
+R[2] = v__3519792_37;
 saveCont(co, clofun117, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v__3521386_37= co->res;
-Obj v__3519600_37 = R[1];
-Obj v__3519599_37 = R[2];
-R[1] = v__3519600_37;
-R[2] = v__3519599_37;
+Obj v__3521579_37= co->res;
+Obj v__3519793_37 = R[1];
+Obj v__3519792_37 = R[2];
+R[1] = v__3519793_37;
+R[2] = v__3519792_37;
 saveCont(co, clofun117, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519599_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519792_37);
 return;
 }
 }
@@ -2151,23 +2151,23 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519586_37 = R[1];
-Obj v__3519587_37 = R[2];
-Obj v__3521369_37 = PRIM_EQ(Nil, v__3519587_37);
-if (True == v__3521369_37) {
+Obj v__3519779_37 = R[1];
+Obj v__3519780_37 = R[2];
+Obj v__3521562_37 = PRIM_EQ(Nil, v__3519780_37);
+if (True == v__3521562_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3521370_37 = PRIM_ISCONS(v__3519587_37);
-if (True == v__3521370_37) {
-Obj v__3521371_37 = PRIM_CAR(v__3519587_37);
-Obj v__3519908_37 = v__3521371_37;
-Obj v__3521372_37 = PRIM_CDR(v__3519587_37);
-Obj v__3519909_37 = v__3521372_37;
-R[1] = v__3519586_37;
-R[2] = v__3519909_37;
+Obj v__3521563_37 = PRIM_ISCONS(v__3519780_37);
+if (True == v__3521563_37) {
+Obj v__3521564_37 = PRIM_CAR(v__3519780_37);
+Obj v__3520101_37 = v__3521564_37;
+Obj v__3521565_37 = PRIM_CDR(v__3519780_37);
+Obj v__3520102_37 = v__3521565_37;
+R[1] = v__3519779_37;
+R[2] = v__3520102_37;
 saveCont(co, clofun116, 1, R);
-coraCall1(co, v__3519586_37, v__3519908_37);
+coraCall1(co, v__3519779_37, v__3520101_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2178,11 +2178,11 @@ return;
 }
 case 1:
 {
-Obj v__3521373_37= co->res;
-Obj v__3519586_37 = R[1];
-Obj v__3519909_37 = R[2];
+Obj v__3521566_37= co->res;
+Obj v__3519779_37 = R[1];
+Obj v__3520102_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), v__3519586_37, v__3519909_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 29)), v__3519779_37, v__3520102_37);
 return;
 }
 }
@@ -2192,47 +2192,47 @@ static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519584_37 = R[1];
-Obj v__3519585_37 = R[2];
-R[1] = v__3519585_37;
+Obj v__3519777_37 = R[1];
+Obj v__3519778_37 = R[2];
+R[1] = v__3519778_37;
 saveCont(co, clofun115, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 40)), v__3519584_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 40)), v__3519777_37);
 return;
 }
 case 1:
 {
-Obj v__3521367_37= co->res;
+Obj v__3521560_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3521367_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3521560_37);
 return;
 }
 case 2:
 {
-Obj v__3521366_37= co->res;
+Obj v__3521559_37= co->res;
 saveCont(co, clofun115, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3521366_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3521559_37);
 return;
 }
 case 3:
 {
-Obj v__3521365_37= co->res;
+Obj v__3521558_37= co->res;
 saveCont(co, clofun115, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3521365_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3521558_37);
 return;
 }
 case 4:
 {
-Obj v__3521364_37= co->res;
+Obj v__3521557_37= co->res;
 saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v__3521364_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 39)), v__3521557_37);
 return;
 }
 case 5:
 {
-Obj v__3521363_37= co->res;
-Obj v__3519585_37 = R[1];
+Obj v__3521556_37= co->res;
+Obj v__3519778_37 = R[1];
 saveCont(co, clofun115, 4, R);
-coraCall1(co, v__3521363_37, v__3519585_37);
+coraCall1(co, v__3521556_37, v__3519778_37);
 return;
 }
 }
@@ -2242,29 +2242,29 @@ static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519581_37 = R[1];
-R[1] = v__3519581_37;
+Obj v__3519774_37 = R[1];
+R[1] = v__3519774_37;
 saveCont(co, clofun114, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519581_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519774_37);
 return;
 }
 case 1:
 {
-Obj v__3521361_37= co->res;
-Obj v__3519906_37 = R[1];
-Obj v__3519907_37 = v__3521361_37;
+Obj v__3521554_37= co->res;
+Obj v__3520099_37 = R[1];
+Obj v__3520100_37 = v__3521554_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3519906_37, v__3519907_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3520099_37, v__3520100_37);
 return;
 }
 case 2:
 {
-Obj v__3521360_37= co->res;
-Obj v__3519581_37 = R[1];
-Obj v__3519906_37 = v__3521360_37;
-R[1] = v__3519906_37;
+Obj v__3521553_37= co->res;
+Obj v__3519774_37 = R[1];
+Obj v__3520099_37 = v__3521553_37;
+R[1] = v__3520099_37;
 saveCont(co, clofun114, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 31)), v__3519581_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 31)), v__3519774_37);
 return;
 }
 }
@@ -2274,23 +2274,23 @@ static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519575_37 = R[1];
-Obj v__3519576_37 = R[2];
-Obj v__3521353_37 = PRIM_EQ(Nil, v__3519576_37);
-if (True == v__3521353_37) {
-coraReturn(co, v__3519575_37);
+Obj v__3519768_37 = R[1];
+Obj v__3519769_37 = R[2];
+Obj v__3521546_37 = PRIM_EQ(Nil, v__3519769_37);
+if (True == v__3521546_37) {
+coraReturn(co, v__3519768_37);
 return;
 } else {
-Obj v__3521354_37 = PRIM_ISCONS(v__3519576_37);
-if (True == v__3521354_37) {
-Obj v__3521355_37 = PRIM_CAR(v__3519576_37);
-Obj v__3519904_37 = v__3521355_37;
-Obj v__3521356_37 = PRIM_CDR(v__3519576_37);
-Obj v__3519905_37 = v__3521356_37;
-Obj v__3521357_37 = makeCons(co->gc, v__3519575_37, Nil);
-Obj v__3521358_37 = makeCons(co->gc, v__3519904_37, v__3521357_37);
+Obj v__3521547_37 = PRIM_ISCONS(v__3519769_37);
+if (True == v__3521547_37) {
+Obj v__3521548_37 = PRIM_CAR(v__3519769_37);
+Obj v__3520097_37 = v__3521548_37;
+Obj v__3521549_37 = PRIM_CDR(v__3519769_37);
+Obj v__3520098_37 = v__3521549_37;
+Obj v__3521550_37 = makeCons(co->gc, v__3519768_37, Nil);
+Obj v__3521551_37 = makeCons(co->gc, v__3520097_37, v__3521550_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3521358_37, v__3519905_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 34)), v__3521551_37, v__3520098_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2306,70 +2306,70 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519571_37 = R[1];
-R[1] = v__3519571_37;
+Obj v__3519764_37 = R[1];
+R[1] = v__3519764_37;
 saveCont(co, clofun112, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v__3521351_37= co->res;
-Obj v__3519901_37 = R[1];
+Obj v__3521544_37= co->res;
+Obj v__3520094_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519901_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3520094_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v__3521350_37= co->res;
-Obj v__3519901_37 = R[1];
-Obj v__3519903_37 = v__3521350_37;
-R[1] = v__3519901_37;
+Obj v__3521543_37= co->res;
+Obj v__3520094_37 = R[1];
+Obj v__3520096_37 = v__3521543_37;
+R[1] = v__3520094_37;
 saveCont(co, clofun112, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519901_37, v__3519903_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3520094_37, v__3520096_37);
 return;
 }
 case 3:
 {
-Obj v__3521349_37= co->res;
-Obj v__3519901_37 = R[1];
-Obj v__3519902_37 = v__3521349_37;
-R[1] = v__3519901_37;
+Obj v__3521542_37= co->res;
+Obj v__3520094_37 = R[1];
+Obj v__3520095_37 = v__3521542_37;
+R[1] = v__3520094_37;
 saveCont(co, clofun112, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, v__3519902_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), Nil, v__3520095_37);
 return;
 }
 case 4:
 {
-Obj v__3521348_37= co->res;
-Obj v__3519571_37 = R[1];
-Obj v__3519901_37 = R[2];
-R[1] = v__3519901_37;
+Obj v__3521541_37= co->res;
+Obj v__3519764_37 = R[1];
+Obj v__3520094_37 = R[2];
+R[1] = v__3520094_37;
 saveCont(co, clofun112, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3519901_37, v__3519571_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3520094_37, v__3519764_37);
 return;
 }
 case 5:
 {
-Obj v__3521347_37= co->res;
-Obj v__3519571_37 = R[1];
-Obj v__3519901_37 = R[2];
-R[1] = v__3519571_37;
-R[2] = v__3519901_37;
+Obj v__3521540_37= co->res;
+Obj v__3519764_37 = R[1];
+Obj v__3520094_37 = R[2];
+R[1] = v__3519764_37;
+R[2] = v__3520094_37;
 saveCont(co, clofun112, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519901_37, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3520094_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v__3521346_37= co->res;
-Obj v__3519571_37 = R[1];
-Obj v__3519901_37 = v__3521346_37;
-R[1] = v__3519571_37;
-R[2] = v__3519901_37;
+Obj v__3521539_37= co->res;
+Obj v__3519764_37 = R[1];
+Obj v__3520094_37 = v__3521539_37;
+R[1] = v__3519764_37;
+R[2] = v__3520094_37;
 saveCont(co, clofun112, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519901_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3520094_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2379,9 +2379,9 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519570_37 = R[1];
+Obj v__3519763_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), Nil, v__3519570_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), Nil, v__3519763_37);
 return;
 }
 }
@@ -2391,9 +2391,9 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519569_37 = R[1];
+Obj v__3519762_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519569_37, globalRef(co, getBinding(co, packageID, 72)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519762_37, globalRef(co, getBinding(co, packageID, 72)));
 return;
 }
 }
@@ -2403,9 +2403,9 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519568_37 = R[1];
+Obj v__3519761_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), Nil, v__3519568_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), Nil, v__3519761_37);
 return;
 }
 }
@@ -2415,10 +2415,10 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519566_37 = R[1];
-Obj v__3519567_37 = R[2];
+Obj v__3519759_37 = R[1];
+Obj v__3519760_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), Nil, v__3519566_37, v__3519567_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), Nil, v__3519759_37, v__3519760_37);
 return;
 }
 }
@@ -2428,39 +2428,39 @@ static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519564_37 = R[1];
-Obj v__3519565_37 = R[2];
-R[1] = v__3519565_37;
-R[2] = v__3519564_37;
+Obj v__3519757_37 = R[1];
+Obj v__3519758_37 = R[2];
+R[1] = v__3519758_37;
+R[2] = v__3519757_37;
 saveCont(co, clofun107, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519564_37, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519757_37, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v__3521340_37= co->res;
-Obj v__3519564_37 = R[1];
+Obj v__3521533_37= co->res;
+Obj v__3519757_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519564_37, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519757_37, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521339_37= co->res;
-Obj v__3519564_37 = R[1];
-R[1] = v__3519564_37;
+Obj v__3521532_37= co->res;
+Obj v__3519757_37 = R[1];
+R[1] = v__3519757_37;
 saveCont(co, clofun107, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519564_37, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519757_37, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v__3521338_37= co->res;
-Obj v__3519565_37 = R[1];
-Obj v__3519564_37 = R[2];
-R[1] = v__3519564_37;
+Obj v__3521531_37= co->res;
+Obj v__3519758_37 = R[1];
+Obj v__3519757_37 = R[2];
+R[1] = v__3519757_37;
 saveCont(co, clofun107, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519564_37, v__3519565_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519757_37, v__3519758_37);
 return;
 }
 }
@@ -2470,21 +2470,21 @@ static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519562_37 = R[1];
-Obj v__3519563_37 = R[2];
-R[1] = v__3519562_37;
-R[2] = v__3519563_37;
+Obj v__3519755_37 = R[1];
+Obj v__3519756_37 = R[2];
+R[1] = v__3519755_37;
+R[2] = v__3519756_37;
 saveCont(co, clofun106, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519562_37, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519755_37, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v__3521336_37= co->res;
-Obj v__3519562_37 = R[1];
-Obj v__3519563_37 = R[2];
+Obj v__3521529_37= co->res;
+Obj v__3519755_37 = R[1];
+Obj v__3519756_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519562_37, v__3519563_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v__3519755_37, v__3519756_37);
 return;
 }
 }
@@ -2494,136 +2494,136 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519553_37 = R[1];
-Obj v__3519554_37 = R[2];
-Obj v__3519555_37 = R[3];
-Obj v__3519556_37 = R[4];
-Obj v__3519557_37 = R[5];
-Obj v__3519897_37 = makeNative(co->gc, 1, clofun104, 0, 0);
-Obj v__3521314_37 = PRIM_ISCONS(v__3519557_37);
-if (True == v__3521314_37) {
-Obj v__3521315_37 = PRIM_CAR(v__3519557_37);
-Obj v__3521316_37 = PRIM_EQ(getBinding(co, packageID, 64).name, v__3521315_37);
-if (True == v__3521316_37) {
-Obj v__3521317_37 = PRIM_CDR(v__3519557_37);
-Obj v__3521318_37 = PRIM_ISCONS(v__3521317_37);
-if (True == v__3521318_37) {
-Obj v__3521319_37 = PRIM_CDR(v__3519557_37);
-Obj v__3521320_37 = PRIM_CAR(v__3521319_37);
-Obj v__3519898_37 = v__3521320_37;
-Obj v__3521321_37 = PRIM_CDR(v__3519557_37);
-Obj v__3521322_37 = PRIM_CDR(v__3521321_37);
-Obj v__3521323_37 = PRIM_ISCONS(v__3521322_37);
-if (True == v__3521323_37) {
-Obj v__3521324_37 = PRIM_CDR(v__3519557_37);
-Obj v__3521325_37 = PRIM_CDR(v__3521324_37);
-Obj v__3521326_37 = PRIM_CAR(v__3521325_37);
-Obj v__3519899_37 = v__3521326_37;
-Obj v__3521327_37 = PRIM_CDR(v__3519557_37);
-Obj v__3521328_37 = PRIM_CDR(v__3521327_37);
-Obj v__3521329_37 = PRIM_CDR(v__3521328_37);
-Obj v__3519900_37 = v__3521329_37;
-R[1] = v__3519898_37;
-R[2] = v__3519900_37;
-R[3] = v__3519553_37;
-R[4] = v__3519554_37;
-R[5] = v__3519555_37;
-R[6] = v__3519556_37;
-R[7] = v__3519899_37;
+Obj v__3519746_37 = R[1];
+Obj v__3519747_37 = R[2];
+Obj v__3519748_37 = R[3];
+Obj v__3519749_37 = R[4];
+Obj v__3519750_37 = R[5];
+Obj v__3520090_37 = makeNative(co->gc, 1, clofun104, 0, 0);
+Obj v__3521507_37 = PRIM_ISCONS(v__3519750_37);
+if (True == v__3521507_37) {
+Obj v__3521508_37 = PRIM_CAR(v__3519750_37);
+Obj v__3521509_37 = PRIM_EQ(getBinding(co, packageID, 64).name, v__3521508_37);
+if (True == v__3521509_37) {
+Obj v__3521510_37 = PRIM_CDR(v__3519750_37);
+Obj v__3521511_37 = PRIM_ISCONS(v__3521510_37);
+if (True == v__3521511_37) {
+Obj v__3521512_37 = PRIM_CDR(v__3519750_37);
+Obj v__3521513_37 = PRIM_CAR(v__3521512_37);
+Obj v__3520091_37 = v__3521513_37;
+Obj v__3521514_37 = PRIM_CDR(v__3519750_37);
+Obj v__3521515_37 = PRIM_CDR(v__3521514_37);
+Obj v__3521516_37 = PRIM_ISCONS(v__3521515_37);
+if (True == v__3521516_37) {
+Obj v__3521517_37 = PRIM_CDR(v__3519750_37);
+Obj v__3521518_37 = PRIM_CDR(v__3521517_37);
+Obj v__3521519_37 = PRIM_CAR(v__3521518_37);
+Obj v__3520092_37 = v__3521519_37;
+Obj v__3521520_37 = PRIM_CDR(v__3519750_37);
+Obj v__3521521_37 = PRIM_CDR(v__3521520_37);
+Obj v__3521522_37 = PRIM_CDR(v__3521521_37);
+Obj v__3520093_37 = v__3521522_37;
+R[1] = v__3520091_37;
+R[2] = v__3520093_37;
+R[3] = v__3519746_37;
+R[4] = v__3519747_37;
+R[5] = v__3519748_37;
+R[6] = v__3519749_37;
+R[7] = v__3520092_37;
 saveCont(co, clofun105, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519556_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519749_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521334_37= co->res;
-Obj v__3519553_37 = R[1];
-Obj v__3519554_37 = R[2];
-Obj v__3519555_37 = R[3];
-Obj v__3519556_37 = R[4];
-Obj v__3519899_37 = R[5];
+Obj v__3521527_37= co->res;
+Obj v__3519746_37 = R[1];
+Obj v__3519747_37 = R[2];
+Obj v__3519748_37 = R[3];
+Obj v__3519749_37 = R[4];
+Obj v__3520092_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v__3519553_37, v__3519554_37, v__3519555_37, v__3519556_37, v__3519899_37};
+Obj __args[5] = {v__3519746_37, v__3519747_37, v__3519748_37, v__3519749_37, v__3520092_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v__3521333_37= co->res;
-Obj v__3519900_37 = R[1];
-Obj v__3519553_37 = R[2];
-Obj v__3519554_37 = R[3];
-Obj v__3519555_37 = R[4];
-Obj v__3519556_37 = R[5];
-Obj v__3519899_37 = R[6];
-R[1] = v__3519553_37;
-R[2] = v__3519554_37;
-R[3] = v__3519555_37;
-R[4] = v__3519556_37;
-R[5] = v__3519899_37;
+Obj v__3521526_37= co->res;
+Obj v__3520093_37 = R[1];
+Obj v__3519746_37 = R[2];
+Obj v__3519747_37 = R[3];
+Obj v__3519748_37 = R[4];
+Obj v__3519749_37 = R[5];
+Obj v__3520092_37 = R[6];
+R[1] = v__3519746_37;
+R[2] = v__3519747_37;
+R[3] = v__3519748_37;
+R[4] = v__3519749_37;
+R[5] = v__3520092_37;
 saveCont(co, clofun105, 1, R);
-Obj __args[5] = {v__3519553_37, v__3519554_37, v__3519555_37, v__3519556_37, v__3519900_37};
+Obj __args[5] = {v__3519746_37, v__3519747_37, v__3519748_37, v__3519749_37, v__3520093_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521332_37= co->res;
-Obj v__3519900_37 = R[1];
-Obj v__3519553_37 = R[2];
-Obj v__3519554_37 = R[3];
-Obj v__3519555_37 = R[4];
-Obj v__3519556_37 = R[5];
-Obj v__3519899_37 = R[6];
-R[1] = v__3519900_37;
-R[2] = v__3519553_37;
-R[3] = v__3519554_37;
-R[4] = v__3519555_37;
-R[5] = v__3519556_37;
-R[6] = v__3519899_37;
+Obj v__3521525_37= co->res;
+Obj v__3520093_37 = R[1];
+Obj v__3519746_37 = R[2];
+Obj v__3519747_37 = R[3];
+Obj v__3519748_37 = R[4];
+Obj v__3519749_37 = R[5];
+Obj v__3520092_37 = R[6];
+R[1] = v__3520093_37;
+R[2] = v__3519746_37;
+R[3] = v__3519747_37;
+R[4] = v__3519748_37;
+R[5] = v__3519749_37;
+R[6] = v__3520092_37;
 saveCont(co, clofun105, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519556_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3519749_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v__3521330_37= co->res;
-Obj v__3519898_37 = R[1];
-Obj v__3519900_37 = R[2];
-Obj v__3519553_37 = R[3];
-Obj v__3519554_37 = R[4];
-Obj v__3519555_37 = R[5];
-Obj v__3519556_37 = R[6];
-Obj v__3519899_37 = R[7];
-Obj v__3521331_37 = PRIM_CAR(v__3519898_37);
-R[1] = v__3519900_37;
-R[2] = v__3519553_37;
-R[3] = v__3519554_37;
-R[4] = v__3519555_37;
-R[5] = v__3519556_37;
-R[6] = v__3519899_37;
+Obj v__3521523_37= co->res;
+Obj v__3520091_37 = R[1];
+Obj v__3520093_37 = R[2];
+Obj v__3519746_37 = R[3];
+Obj v__3519747_37 = R[4];
+Obj v__3519748_37 = R[5];
+Obj v__3519749_37 = R[6];
+Obj v__3520092_37 = R[7];
+Obj v__3521524_37 = PRIM_CAR(v__3520091_37);
+R[1] = v__3520093_37;
+R[2] = v__3519746_37;
+R[3] = v__3519747_37;
+R[4] = v__3519748_37;
+R[5] = v__3519749_37;
+R[6] = v__3520092_37;
 saveCont(co, clofun105, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), v__3519556_37, v__3521331_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), v__3519749_37, v__3521524_37);
 return;
 }
 }
@@ -2644,25 +2644,25 @@ static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519542_37 = R[1];
-Obj v__3519543_37 = R[2];
-Obj v__3519544_37 = R[3];
-Obj v__3519545_37 = R[4];
-Obj v__3519546_37 = R[5];
-Obj v__3521300_37 = primGenSym(co);
-Obj v__3519894_37 = v__3521300_37;
-Obj v__3521311_37 = primSet(co, v__3519894_37, makeNative(co->gc, 2, clofun102, 1, 5, v__3519542_37, v__3519543_37, v__3519544_37, v__3519545_37, v__3519894_37));
-R[1] = v__3519546_37;
+Obj v__3519735_37 = R[1];
+Obj v__3519736_37 = R[2];
+Obj v__3519737_37 = R[3];
+Obj v__3519738_37 = R[4];
+Obj v__3519739_37 = R[5];
+Obj v__3521493_37 = primGenSym(co);
+Obj v__3520087_37 = v__3521493_37;
+Obj v__3521504_37 = primSet(co, v__3520087_37, makeNative(co->gc, 2, clofun102, 1, 5, v__3519735_37, v__3519736_37, v__3519737_37, v__3519738_37, v__3520087_37));
+R[1] = v__3519739_37;
 saveCont(co, clofun103, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519894_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3520087_37);
 return;
 }
 case 1:
 {
-Obj v__3521312_37= co->res;
-Obj v__3519546_37 = R[1];
+Obj v__3521505_37= co->res;
+Obj v__3519739_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521312_37, v__3519546_37);
+coraCall1(co, v__3521505_37, v__3519739_37);
 return;
 }
 }
@@ -2672,21 +2672,21 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519548_37 = R[1];
-Obj v__3521301_37 = PRIM_EQ(Nil, v__3519548_37);
-if (True == v__3521301_37) {
+Obj v__3519741_37 = R[1];
+Obj v__3521494_37 = PRIM_EQ(Nil, v__3519741_37);
+if (True == v__3521494_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3521302_37 = PRIM_ISCONS(v__3519548_37);
-if (True == v__3521302_37) {
-Obj v__3521303_37 = PRIM_CAR(v__3519548_37);
-Obj v__3519895_37 = v__3521303_37;
-Obj v__3521304_37 = PRIM_CDR(v__3519548_37);
-Obj v__3519896_37 = v__3521304_37;
-R[1] = v__3519896_37;
+Obj v__3521495_37 = PRIM_ISCONS(v__3519741_37);
+if (True == v__3521495_37) {
+Obj v__3521496_37 = PRIM_CAR(v__3519741_37);
+Obj v__3520088_37 = v__3521496_37;
+Obj v__3521497_37 = PRIM_CDR(v__3519741_37);
+Obj v__3520089_37 = v__3521497_37;
+R[1] = v__3520089_37;
 saveCont(co, clofun102, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519895_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3520088_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 } else {
@@ -2698,42 +2698,42 @@ return;
 }
 case 1:
 {
-Obj v__3521309_37= co->res;
-Obj v__3519896_37 = R[1];
+Obj v__3521502_37= co->res;
+Obj v__3520089_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521309_37, v__3519896_37);
+coraCall1(co, v__3521502_37, v__3520089_37);
 return;
 }
 case 2:
 {
-Obj v__3521308_37= co->res;
-Obj v__3519896_37 = R[1];
-R[1] = v__3519896_37;
+Obj v__3521501_37= co->res;
+Obj v__3520089_37 = R[1];
+R[1] = v__3520089_37;
 saveCont(co, clofun102, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521310_37= co->res;
-Obj v__3519896_37 = R[1];
+Obj v__3521503_37= co->res;
+Obj v__3520089_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521310_37, v__3519896_37);
+coraCall1(co, v__3521503_37, v__3520089_37);
 return;
 }
 case 4:
 {
-Obj v__3521306_37= co->res;
-Obj v__3519896_37 = R[1];
-Obj v__3521307_37 = primNot(v__3521306_37);
-if (True == v__3521307_37) {
-R[1] = v__3519896_37;
+Obj v__3521499_37= co->res;
+Obj v__3520089_37 = R[1];
+Obj v__3521500_37 = primNot(v__3521499_37);
+if (True == v__3521500_37) {
+R[1] = v__3520089_37;
 saveCont(co, clofun102, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = v__3519896_37;
+R[1] = v__3520089_37;
 saveCont(co, clofun102, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
@@ -2741,11 +2741,11 @@ return;
 }
 case 5:
 {
-Obj v__3521305_37= co->res;
-Obj v__3519896_37 = R[1];
-R[1] = v__3519896_37;
+Obj v__3521498_37= co->res;
+Obj v__3520089_37 = R[1];
+R[1] = v__3520089_37;
 saveCont(co, clofun102, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519896_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3520089_37);
 return;
 }
 }
@@ -2755,27 +2755,27 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519498_37 = R[1];
-Obj v__3519499_37 = R[2];
-Obj v__3519500_37 = R[3];
-Obj v__3519501_37 = R[4];
-Obj v__3519502_37 = R[5];
-Obj v__3521013_37 = primGenSym(co);
-Obj v__3519857_37 = v__3521013_37;
-Obj v__3521297_37 = primSet(co, v__3519857_37, makeNative(co->gc, 3, clofun100, 2, 4, v__3519499_37, v__3519857_37, v__3519498_37, v__3519501_37));
-R[1] = v__3519502_37;
-R[2] = v__3519500_37;
+Obj v__3519691_37 = R[1];
+Obj v__3519692_37 = R[2];
+Obj v__3519693_37 = R[3];
+Obj v__3519694_37 = R[4];
+Obj v__3519695_37 = R[5];
+Obj v__3521206_37 = primGenSym(co);
+Obj v__3520050_37 = v__3521206_37;
+Obj v__3521490_37 = primSet(co, v__3520050_37, makeNative(co->gc, 3, clofun100, 2, 4, v__3519692_37, v__3520050_37, v__3519691_37, v__3519694_37));
+R[1] = v__3519695_37;
+R[2] = v__3519693_37;
 saveCont(co, clofun101, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519857_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3520050_37);
 return;
 }
 case 1:
 {
-Obj v__3521298_37= co->res;
-Obj v__3519502_37 = R[1];
-Obj v__3519500_37 = R[2];
+Obj v__3521491_37= co->res;
+Obj v__3519695_37 = R[1];
+Obj v__3519693_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3521298_37, v__3519502_37, v__3519500_37);
+coraCall2(co, v__3521491_37, v__3519695_37, v__3519693_37);
 return;
 }
 }
@@ -2785,76 +2785,76 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519504_37 = R[1];
-Obj v__3519505_37 = R[2];
-Obj v__3521014_37 = primIsSymbol(v__3519504_37);
-if (True == v__3521014_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3519504_37);
-return;
-} else {
-Obj v__3519858_37 = makeNative(co->gc, 2, clofun99, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v__3519505_37, closureRef(R[0], 2), v__3519504_37, closureRef(R[0], 3));
-Obj v__3521284_37 = PRIM_ISCONS(v__3519504_37);
-if (True == v__3521284_37) {
-Obj v__3521285_37 = PRIM_CAR(v__3519504_37);
-Obj v__3521286_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3521285_37);
-if (True == v__3521286_37) {
-Obj v__3521287_37 = PRIM_CDR(v__3519504_37);
-Obj v__3521288_37 = PRIM_ISCONS(v__3521287_37);
-if (True == v__3521288_37) {
-Obj v__3521289_37 = PRIM_CDR(v__3519504_37);
-Obj v__3521290_37 = PRIM_CAR(v__3521289_37);
-Obj v__3519893_37 = v__3521290_37;
-Obj v__3521291_37 = PRIM_CDR(v__3519504_37);
-Obj v__3521292_37 = PRIM_CDR(v__3521291_37);
-Obj v__3521293_37 = PRIM_EQ(Nil, v__3521292_37);
-if (True == v__3521293_37) {
-R[1] = v__3519893_37;
+Obj v__3519697_37 = R[1];
+Obj v__3519698_37 = R[2];
+Obj v__3521207_37 = primIsSymbol(v__3519697_37);
+if (True == v__3521207_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3519697_37);
+return;
+} else {
+Obj v__3520051_37 = makeNative(co->gc, 2, clofun99, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v__3519698_37, closureRef(R[0], 2), v__3519697_37, closureRef(R[0], 3));
+Obj v__3521477_37 = PRIM_ISCONS(v__3519697_37);
+if (True == v__3521477_37) {
+Obj v__3521478_37 = PRIM_CAR(v__3519697_37);
+Obj v__3521479_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3521478_37);
+if (True == v__3521479_37) {
+Obj v__3521480_37 = PRIM_CDR(v__3519697_37);
+Obj v__3521481_37 = PRIM_ISCONS(v__3521480_37);
+if (True == v__3521481_37) {
+Obj v__3521482_37 = PRIM_CDR(v__3519697_37);
+Obj v__3521483_37 = PRIM_CAR(v__3521482_37);
+Obj v__3520086_37 = v__3521483_37;
+Obj v__3521484_37 = PRIM_CDR(v__3519697_37);
+Obj v__3521485_37 = PRIM_CDR(v__3521484_37);
+Obj v__3521486_37 = PRIM_EQ(Nil, v__3521485_37);
+if (True == v__3521486_37) {
+R[1] = v__3520086_37;
 saveCont(co, clofun100, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519858_37);
+coraCall0(co, v__3520051_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519858_37);
+coraCall0(co, v__3520051_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519858_37);
+coraCall0(co, v__3520051_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519858_37);
+coraCall0(co, v__3520051_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521296_37= co->res;
+Obj v__3521489_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v__3521295_37= co->res;
+Obj v__3521488_37= co->res;
 saveCont(co, clofun100, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3521295_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3521488_37);
 return;
 }
 case 3:
 {
-Obj v__3521294_37= co->res;
-Obj v__3519893_37 = R[1];
+Obj v__3521487_37= co->res;
+Obj v__3520086_37 = R[1];
 saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3519893_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3520086_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -2864,60 +2864,60 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519859_37 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v__3521272_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v__3521272_37) {
-Obj v__3521273_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj v__3521274_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3521273_37);
-if (True == v__3521274_37) {
-Obj v__3521275_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521276_37 = PRIM_ISCONS(v__3521275_37);
-if (True == v__3521276_37) {
-Obj v__3521277_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521278_37 = PRIM_CAR(v__3521277_37);
-Obj v__3519892_37 = v__3521278_37;
-Obj v__3521279_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521280_37 = PRIM_CDR(v__3521279_37);
-Obj v__3521281_37 = PRIM_EQ(Nil, v__3521280_37);
-if (True == v__3521281_37) {
-R[1] = v__3519892_37;
+Obj v__3520052_37 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3521465_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3521465_37) {
+Obj v__3521466_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3521467_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3521466_37);
+if (True == v__3521467_37) {
+Obj v__3521468_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521469_37 = PRIM_ISCONS(v__3521468_37);
+if (True == v__3521469_37) {
+Obj v__3521470_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521471_37 = PRIM_CAR(v__3521470_37);
+Obj v__3520085_37 = v__3521471_37;
+Obj v__3521472_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521473_37 = PRIM_CDR(v__3521472_37);
+Obj v__3521474_37 = PRIM_EQ(Nil, v__3521473_37);
+if (True == v__3521474_37) {
+R[1] = v__3520085_37;
 saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519859_37);
+coraCall0(co, v__3520052_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519859_37);
+coraCall0(co, v__3520052_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519859_37);
+coraCall0(co, v__3520052_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519859_37);
+coraCall0(co, v__3520052_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521283_37= co->res;
+Obj v__3521476_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521282_37= co->res;
-Obj v__3519892_37 = R[1];
+Obj v__3521475_37= co->res;
+Obj v__3520085_37 = R[1];
 saveCont(co, clofun99, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519892_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3520085_37);
 return;
 }
 }
@@ -2927,145 +2927,145 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519860_37 = makeNative(co->gc, 4, clofun97, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3521248_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3521248_37) {
-Obj v__3521249_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3521250_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521249_37);
-if (True == v__3521250_37) {
-Obj v__3521251_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521252_37 = PRIM_ISCONS(v__3521251_37);
-if (True == v__3521252_37) {
-Obj v__3521253_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521254_37 = PRIM_CAR(v__3521253_37);
-Obj v__3519891_37 = v__3521254_37;
-Obj v__3521255_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521256_37 = PRIM_CDR(v__3521255_37);
-Obj v__3521257_37 = PRIM_EQ(Nil, v__3521256_37);
-if (True == v__3521257_37) {
-Obj v__3521258_37 = primIsSymbol(v__3519891_37);
-if (True == v__3521258_37) {
-R[1] = v__3519891_37;
+Obj v__3520053_37 = makeNative(co->gc, 4, clofun97, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3521441_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3521441_37) {
+Obj v__3521442_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3521443_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521442_37);
+if (True == v__3521443_37) {
+Obj v__3521444_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521445_37 = PRIM_ISCONS(v__3521444_37);
+if (True == v__3521445_37) {
+Obj v__3521446_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521447_37 = PRIM_CAR(v__3521446_37);
+Obj v__3520084_37 = v__3521447_37;
+Obj v__3521448_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521449_37 = PRIM_CDR(v__3521448_37);
+Obj v__3521450_37 = PRIM_EQ(Nil, v__3521449_37);
+if (True == v__3521450_37) {
+Obj v__3521451_37 = primIsSymbol(v__3520084_37);
+if (True == v__3521451_37) {
+R[1] = v__3520084_37;
 saveCont(co, clofun98, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = v__3519891_37;
+R[1] = v__3520084_37;
 saveCont(co, clofun98, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3519891_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3520084_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519860_37);
+coraCall0(co, v__3520053_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519860_37);
+coraCall0(co, v__3520053_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519860_37);
+coraCall0(co, v__3520053_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519860_37);
+coraCall0(co, v__3520053_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521261_37= co->res;
+Obj v__3521454_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v__3521260_37= co->res;
+Obj v__3521453_37= co->res;
 saveCont(co, clofun98, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3521260_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3521453_37);
 return;
 }
 case 3:
 {
-Obj v__3521259_37= co->res;
-Obj v__3519891_37 = R[1];
+Obj v__3521452_37= co->res;
+Obj v__3520084_37 = R[1];
 saveCont(co, clofun98, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3519891_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 52)), v__3520084_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3521264_37= co->res;
+Obj v__3521457_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v__3521263_37= co->res;
-Obj v__3519891_37 = R[1];
+Obj v__3521456_37= co->res;
+Obj v__3520084_37 = R[1];
 saveCont(co, clofun98, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519891_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3520084_37);
 return;
 }
 case 6:
 {
-Obj v__3521268_37= co->res;
+Obj v__3521461_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v__3521267_37= co->res;
+Obj v__3521460_37= co->res;
 saveCont(co, clofun98, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3521267_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3521460_37);
 return;
 }
 case 8:
 {
-Obj v__3521266_37= co->res;
-Obj v__3519891_37 = R[1];
+Obj v__3521459_37= co->res;
+Obj v__3520084_37 = R[1];
 saveCont(co, clofun98, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3519891_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 43)), v__3520084_37);
 return;
 }
 case 9:
 {
-Obj v__3521262_37= co->res;
-Obj v__3519891_37 = R[1];
-if (True == v__3521262_37) {
-R[1] = v__3519891_37;
+Obj v__3521455_37= co->res;
+Obj v__3520084_37 = R[1];
+if (True == v__3521455_37) {
+R[1] = v__3520084_37;
 saveCont(co, clofun98, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v__3521265_37 = primIsString(v__3519891_37);
-if (True == v__3521265_37) {
-R[1] = v__3519891_37;
+Obj v__3521458_37 = primIsString(v__3520084_37);
+if (True == v__3521458_37) {
+R[1] = v__3520084_37;
 saveCont(co, clofun98, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v__3521269_37 = PRIM_EQ(v__3519891_37, Nil);
-if (True == v__3521269_37) {
+Obj v__3521462_37 = PRIM_EQ(v__3520084_37, Nil);
+if (True == v__3521462_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v__3521270_37 = PRIM_EQ(v__3519891_37, True);
-if (True == v__3521270_37) {
+Obj v__3521463_37 = PRIM_EQ(v__3520084_37, True);
+if (True == v__3521463_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v__3521271_37 = PRIM_EQ(v__3519891_37, False);
-if (True == v__3521271_37) {
+Obj v__3521464_37 = PRIM_EQ(v__3520084_37, False);
+if (True == v__3521464_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3086,171 +3086,171 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519861_37 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3521213_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521213_37) {
-Obj v__3521214_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521215_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3521214_37);
-if (True == v__3521215_37) {
-Obj v__3521216_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521217_37 = PRIM_ISCONS(v__3521216_37);
-if (True == v__3521217_37) {
-Obj v__3521218_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521219_37 = PRIM_CAR(v__3521218_37);
-Obj v__3519888_37 = v__3521219_37;
-Obj v__3521220_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521221_37 = PRIM_CDR(v__3521220_37);
-Obj v__3521222_37 = PRIM_ISCONS(v__3521221_37);
-if (True == v__3521222_37) {
-Obj v__3521223_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521224_37 = PRIM_CDR(v__3521223_37);
-Obj v__3521225_37 = PRIM_CAR(v__3521224_37);
-Obj v__3519889_37 = v__3521225_37;
-Obj v__3521226_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521227_37 = PRIM_CDR(v__3521226_37);
-Obj v__3521228_37 = PRIM_CDR(v__3521227_37);
-Obj v__3521229_37 = PRIM_ISCONS(v__3521228_37);
-if (True == v__3521229_37) {
-Obj v__3521230_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521231_37 = PRIM_CDR(v__3521230_37);
-Obj v__3521232_37 = PRIM_CDR(v__3521231_37);
-Obj v__3521233_37 = PRIM_CAR(v__3521232_37);
-Obj v__3519890_37 = v__3521233_37;
-Obj v__3521234_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521235_37 = PRIM_CDR(v__3521234_37);
-Obj v__3521236_37 = PRIM_CDR(v__3521235_37);
-Obj v__3521237_37 = PRIM_CDR(v__3521236_37);
-Obj v__3521238_37 = PRIM_EQ(Nil, v__3521237_37);
-if (True == v__3521238_37) {
-R[1] = v__3519889_37;
-R[2] = v__3519888_37;
-R[3] = v__3519890_37;
+Obj v__3520054_37 = makeNative(co->gc, 3, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521406_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521406_37) {
+Obj v__3521407_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521408_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3521407_37);
+if (True == v__3521408_37) {
+Obj v__3521409_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521410_37 = PRIM_ISCONS(v__3521409_37);
+if (True == v__3521410_37) {
+Obj v__3521411_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521412_37 = PRIM_CAR(v__3521411_37);
+Obj v__3520081_37 = v__3521412_37;
+Obj v__3521413_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521414_37 = PRIM_CDR(v__3521413_37);
+Obj v__3521415_37 = PRIM_ISCONS(v__3521414_37);
+if (True == v__3521415_37) {
+Obj v__3521416_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521417_37 = PRIM_CDR(v__3521416_37);
+Obj v__3521418_37 = PRIM_CAR(v__3521417_37);
+Obj v__3520082_37 = v__3521418_37;
+Obj v__3521419_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521420_37 = PRIM_CDR(v__3521419_37);
+Obj v__3521421_37 = PRIM_CDR(v__3521420_37);
+Obj v__3521422_37 = PRIM_ISCONS(v__3521421_37);
+if (True == v__3521422_37) {
+Obj v__3521423_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521424_37 = PRIM_CDR(v__3521423_37);
+Obj v__3521425_37 = PRIM_CDR(v__3521424_37);
+Obj v__3521426_37 = PRIM_CAR(v__3521425_37);
+Obj v__3520083_37 = v__3521426_37;
+Obj v__3521427_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521428_37 = PRIM_CDR(v__3521427_37);
+Obj v__3521429_37 = PRIM_CDR(v__3521428_37);
+Obj v__3521430_37 = PRIM_CDR(v__3521429_37);
+Obj v__3521431_37 = PRIM_EQ(Nil, v__3521430_37);
+if (True == v__3521431_37) {
+R[1] = v__3520082_37;
+R[2] = v__3520081_37;
+R[3] = v__3520083_37;
 saveCont(co, clofun97, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3519888_37, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3520081_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3520054_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3520054_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3520054_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3520054_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3520054_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3520054_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521246_37= co->res;
-Obj v__3519888_37 = R[1];
-Obj v__3519890_37 = R[2];
-Obj v__3521247_37 = makeCons(co->gc, v__3519888_37, closureRef(R[0], 5));
+Obj v__3521439_37= co->res;
+Obj v__3520081_37 = R[1];
+Obj v__3520083_37 = R[2];
+Obj v__3521440_37 = makeCons(co->gc, v__3520081_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v__3521246_37, v__3519890_37, v__3521247_37);
+coraCall2(co, v__3521439_37, v__3520083_37, v__3521440_37);
 return;
 }
 case 2:
 {
-Obj v__3521245_37= co->res;
-Obj v__3519888_37 = R[1];
-Obj v__3519890_37 = R[2];
-R[1] = v__3519888_37;
-R[2] = v__3519890_37;
+Obj v__3521438_37= co->res;
+Obj v__3520081_37 = R[1];
+Obj v__3520083_37 = R[2];
+R[1] = v__3520081_37;
+R[2] = v__3520083_37;
 saveCont(co, clofun97, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521244_37= co->res;
-Obj v__3519888_37 = R[1];
-Obj v__3519890_37 = R[2];
-R[1] = v__3519888_37;
-R[2] = v__3519890_37;
+Obj v__3521437_37= co->res;
+Obj v__3520081_37 = R[1];
+Obj v__3520083_37 = R[2];
+R[1] = v__3520081_37;
+R[2] = v__3520083_37;
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3521243_37= co->res;
-Obj v__3519889_37 = R[1];
-Obj v__3519888_37 = R[2];
-Obj v__3519890_37 = R[3];
-R[1] = v__3519888_37;
-R[2] = v__3519890_37;
+Obj v__3521436_37= co->res;
+Obj v__3520082_37 = R[1];
+Obj v__3520081_37 = R[2];
+Obj v__3520083_37 = R[3];
+R[1] = v__3520081_37;
+R[2] = v__3520083_37;
 saveCont(co, clofun97, 3, R);
-coraCall2(co, v__3521243_37, v__3519889_37, closureRef(R[0], 5));
+coraCall2(co, v__3521436_37, v__3520082_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v__3521242_37= co->res;
-Obj v__3519889_37 = R[1];
-Obj v__3519888_37 = R[2];
-Obj v__3519890_37 = R[3];
-R[1] = v__3519889_37;
-R[2] = v__3519888_37;
-R[3] = v__3519890_37;
+Obj v__3521435_37= co->res;
+Obj v__3520082_37 = R[1];
+Obj v__3520081_37 = R[2];
+Obj v__3520083_37 = R[3];
+R[1] = v__3520082_37;
+R[2] = v__3520081_37;
+R[3] = v__3520083_37;
 saveCont(co, clofun97, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3521241_37= co->res;
-Obj v__3519889_37 = R[1];
-Obj v__3519888_37 = R[2];
-Obj v__3519890_37 = R[3];
-R[1] = v__3519889_37;
-R[2] = v__3519888_37;
-R[3] = v__3519890_37;
+Obj v__3521434_37= co->res;
+Obj v__3520082_37 = R[1];
+Obj v__3520081_37 = R[2];
+Obj v__3520083_37 = R[3];
+R[1] = v__3520082_37;
+R[2] = v__3520081_37;
+R[3] = v__3520083_37;
 saveCont(co, clofun97, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v__3521240_37= co->res;
-Obj v__3519889_37 = R[1];
-Obj v__3519888_37 = R[2];
-Obj v__3519890_37 = R[3];
-R[1] = v__3519889_37;
-R[2] = v__3519888_37;
-R[3] = v__3519890_37;
+Obj v__3521433_37= co->res;
+Obj v__3520082_37 = R[1];
+Obj v__3520081_37 = R[2];
+Obj v__3520083_37 = R[3];
+R[1] = v__3520082_37;
+R[2] = v__3520081_37;
+R[3] = v__3520083_37;
 saveCont(co, clofun97, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3519888_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 46)), closureRef(R[0], 3), v__3520081_37);
 return;
 }
 case 8:
 {
-Obj v__3521239_37= co->res;
-Obj v__3519889_37 = R[1];
-Obj v__3519888_37 = R[2];
-Obj v__3519890_37 = R[3];
-R[1] = v__3519889_37;
-R[2] = v__3519888_37;
-R[3] = v__3519890_37;
+Obj v__3521432_37= co->res;
+Obj v__3520082_37 = R[1];
+Obj v__3520081_37 = R[2];
+Obj v__3520083_37 = R[3];
+R[1] = v__3520082_37;
+R[2] = v__3520081_37;
+R[3] = v__3520083_37;
 saveCont(co, clofun97, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
@@ -3262,153 +3262,153 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519862_37 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521183_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3521183_37) {
-Obj v__3521184_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521185_37 = PRIM_ISCONS(v__3521184_37);
-if (True == v__3521185_37) {
-Obj v__3521186_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521187_37 = PRIM_CAR(v__3521186_37);
-Obj v__3521188_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3521187_37);
-if (True == v__3521188_37) {
-Obj v__3521189_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521190_37 = PRIM_CDR(v__3521189_37);
-Obj v__3521191_37 = PRIM_ISCONS(v__3521190_37);
-if (True == v__3521191_37) {
-Obj v__3521192_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521193_37 = PRIM_CDR(v__3521192_37);
-Obj v__3521194_37 = PRIM_CAR(v__3521193_37);
-Obj v__3519886_37 = v__3521194_37;
-Obj v__3521195_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521196_37 = PRIM_CDR(v__3521195_37);
-Obj v__3521197_37 = PRIM_CDR(v__3521196_37);
-Obj v__3521198_37 = PRIM_EQ(Nil, v__3521197_37);
-if (True == v__3521198_37) {
-Obj v__3521199_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519887_37 = v__3521199_37;
-R[1] = v__3519886_37;
-R[2] = v__3519887_37;
+Obj v__3520055_37 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521376_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521376_37) {
+Obj v__3521377_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521378_37 = PRIM_ISCONS(v__3521377_37);
+if (True == v__3521378_37) {
+Obj v__3521379_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521380_37 = PRIM_CAR(v__3521379_37);
+Obj v__3521381_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3521380_37);
+if (True == v__3521381_37) {
+Obj v__3521382_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521383_37 = PRIM_CDR(v__3521382_37);
+Obj v__3521384_37 = PRIM_ISCONS(v__3521383_37);
+if (True == v__3521384_37) {
+Obj v__3521385_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521386_37 = PRIM_CDR(v__3521385_37);
+Obj v__3521387_37 = PRIM_CAR(v__3521386_37);
+Obj v__3520079_37 = v__3521387_37;
+Obj v__3521388_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521389_37 = PRIM_CDR(v__3521388_37);
+Obj v__3521390_37 = PRIM_CDR(v__3521389_37);
+Obj v__3521391_37 = PRIM_EQ(Nil, v__3521390_37);
+if (True == v__3521391_37) {
+Obj v__3521392_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520080_37 = v__3521392_37;
+R[1] = v__3520079_37;
+R[2] = v__3520080_37;
 saveCont(co, clofun96, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3519886_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3520079_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3520055_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3520055_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3520055_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3520055_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3520055_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521204_37= co->res;
+Obj v__3521397_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521203_37= co->res;
-Obj v__3519887_37 = R[1];
+Obj v__3521396_37= co->res;
+Obj v__3520080_37 = R[1];
 saveCont(co, clofun96, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519887_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520080_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521207_37= co->res;
+Obj v__3521400_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v__3521206_37= co->res;
-Obj v__3519887_37 = R[1];
+Obj v__3521399_37= co->res;
+Obj v__3520080_37 = R[1];
 saveCont(co, clofun96, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519887_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520080_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v__3521210_37= co->res;
+Obj v__3521403_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v__3521209_37= co->res;
-Obj v__3519887_37 = R[1];
+Obj v__3521402_37= co->res;
+Obj v__3520080_37 = R[1];
 saveCont(co, clofun96, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519887_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520080_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3521212_37= co->res;
+Obj v__3521405_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v__3521211_37= co->res;
-Obj v__3519887_37 = R[1];
+Obj v__3521404_37= co->res;
+Obj v__3520080_37 = R[1];
 saveCont(co, clofun96, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519887_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520080_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3521201_37= co->res;
-Obj v__3519886_37 = R[1];
-Obj v__3519887_37 = R[2];
-Obj v__3521202_37 = PRIM_EQ(v__3519886_37, getBinding(co, packageID, 124).name);
-if (True == v__3521202_37) {
-R[1] = v__3519887_37;
+Obj v__3521394_37= co->res;
+Obj v__3520079_37 = R[1];
+Obj v__3520080_37 = R[2];
+Obj v__3521395_37 = PRIM_EQ(v__3520079_37, getBinding(co, packageID, 124).name);
+if (True == v__3521395_37) {
+R[1] = v__3520080_37;
 saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v__3521205_37 = PRIM_EQ(v__3519886_37, getBinding(co, packageID, 112).name);
-if (True == v__3521205_37) {
-R[1] = v__3519887_37;
+Obj v__3521398_37 = PRIM_EQ(v__3520079_37, getBinding(co, packageID, 112).name);
+if (True == v__3521398_37) {
+R[1] = v__3520080_37;
 saveCont(co, clofun96, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v__3521208_37 = PRIM_EQ(v__3519886_37, getBinding(co, packageID, 121).name);
-if (True == v__3521208_37) {
-R[1] = v__3519887_37;
+Obj v__3521401_37 = PRIM_EQ(v__3520079_37, getBinding(co, packageID, 121).name);
+if (True == v__3521401_37) {
+R[1] = v__3520080_37;
 saveCont(co, clofun96, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = v__3519887_37;
+R[1] = v__3520080_37;
 saveCont(co, clofun96, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
@@ -3418,13 +3418,13 @@ return;
 }
 case 10:
 {
-Obj v__3521200_37= co->res;
-Obj v__3519886_37 = R[1];
-Obj v__3519887_37 = R[2];
-R[1] = v__3519886_37;
-R[2] = v__3519887_37;
+Obj v__3521393_37= co->res;
+Obj v__3520079_37 = R[1];
+Obj v__3520080_37 = R[2];
+R[1] = v__3520079_37;
+R[2] = v__3520080_37;
 saveCont(co, clofun96, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3521200_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), v__3521393_37);
 return;
 }
 }
@@ -3434,165 +3434,165 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519863_37 = makeNative(co->gc, 5, clofun94, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521148_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521148_37) {
-Obj v__3521149_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521150_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3521149_37);
-if (True == v__3521150_37) {
-Obj v__3521151_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521152_37 = PRIM_ISCONS(v__3521151_37);
-if (True == v__3521152_37) {
-Obj v__3521153_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521154_37 = PRIM_CAR(v__3521153_37);
-Obj v__3519883_37 = v__3521154_37;
-Obj v__3521155_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521156_37 = PRIM_CDR(v__3521155_37);
-Obj v__3521157_37 = PRIM_ISCONS(v__3521156_37);
-if (True == v__3521157_37) {
-Obj v__3521158_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521159_37 = PRIM_CDR(v__3521158_37);
-Obj v__3521160_37 = PRIM_CAR(v__3521159_37);
-Obj v__3519884_37 = v__3521160_37;
-Obj v__3521161_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521162_37 = PRIM_CDR(v__3521161_37);
-Obj v__3521163_37 = PRIM_CDR(v__3521162_37);
-Obj v__3521164_37 = PRIM_ISCONS(v__3521163_37);
-if (True == v__3521164_37) {
-Obj v__3521165_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521166_37 = PRIM_CDR(v__3521165_37);
-Obj v__3521167_37 = PRIM_CDR(v__3521166_37);
-Obj v__3521168_37 = PRIM_CAR(v__3521167_37);
-Obj v__3519885_37 = v__3521168_37;
-Obj v__3521169_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521170_37 = PRIM_CDR(v__3521169_37);
-Obj v__3521171_37 = PRIM_CDR(v__3521170_37);
-Obj v__3521172_37 = PRIM_CDR(v__3521171_37);
-Obj v__3521173_37 = PRIM_EQ(Nil, v__3521172_37);
-if (True == v__3521173_37) {
-R[1] = v__3519883_37;
-R[2] = v__3519884_37;
-R[3] = v__3519885_37;
+Obj v__3520056_37 = makeNative(co->gc, 5, clofun94, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521341_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521341_37) {
+Obj v__3521342_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521343_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3521342_37);
+if (True == v__3521343_37) {
+Obj v__3521344_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521345_37 = PRIM_ISCONS(v__3521344_37);
+if (True == v__3521345_37) {
+Obj v__3521346_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521347_37 = PRIM_CAR(v__3521346_37);
+Obj v__3520076_37 = v__3521347_37;
+Obj v__3521348_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521349_37 = PRIM_CDR(v__3521348_37);
+Obj v__3521350_37 = PRIM_ISCONS(v__3521349_37);
+if (True == v__3521350_37) {
+Obj v__3521351_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521352_37 = PRIM_CDR(v__3521351_37);
+Obj v__3521353_37 = PRIM_CAR(v__3521352_37);
+Obj v__3520077_37 = v__3521353_37;
+Obj v__3521354_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521355_37 = PRIM_CDR(v__3521354_37);
+Obj v__3521356_37 = PRIM_CDR(v__3521355_37);
+Obj v__3521357_37 = PRIM_ISCONS(v__3521356_37);
+if (True == v__3521357_37) {
+Obj v__3521358_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521359_37 = PRIM_CDR(v__3521358_37);
+Obj v__3521360_37 = PRIM_CDR(v__3521359_37);
+Obj v__3521361_37 = PRIM_CAR(v__3521360_37);
+Obj v__3520078_37 = v__3521361_37;
+Obj v__3521362_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521363_37 = PRIM_CDR(v__3521362_37);
+Obj v__3521364_37 = PRIM_CDR(v__3521363_37);
+Obj v__3521365_37 = PRIM_CDR(v__3521364_37);
+Obj v__3521366_37 = PRIM_EQ(Nil, v__3521365_37);
+if (True == v__3521366_37) {
+R[1] = v__3520076_37;
+R[2] = v__3520077_37;
+R[3] = v__3520078_37;
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3520056_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3520056_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3520056_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3520056_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3520056_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3520056_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521182_37= co->res;
+Obj v__3521375_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v__3521181_37= co->res;
-Obj v__3519885_37 = R[1];
+Obj v__3521374_37= co->res;
+Obj v__3520078_37 = R[1];
 saveCont(co, clofun95, 1, R);
-coraCall2(co, v__3521181_37, v__3519885_37, closureRef(R[0], 4));
+coraCall2(co, v__3521374_37, v__3520078_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521180_37= co->res;
-Obj v__3519885_37 = R[1];
-R[1] = v__3519885_37;
+Obj v__3521373_37= co->res;
+Obj v__3520078_37 = R[1];
+R[1] = v__3520078_37;
 saveCont(co, clofun95, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3521179_37= co->res;
-Obj v__3519885_37 = R[1];
-R[1] = v__3519885_37;
+Obj v__3521372_37= co->res;
+Obj v__3520078_37 = R[1];
+R[1] = v__3520078_37;
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v__3521178_37= co->res;
-Obj v__3519884_37 = R[1];
-Obj v__3519885_37 = R[2];
-R[1] = v__3519885_37;
+Obj v__3521371_37= co->res;
+Obj v__3520077_37 = R[1];
+Obj v__3520078_37 = R[2];
+R[1] = v__3520078_37;
 saveCont(co, clofun95, 4, R);
-coraCall2(co, v__3521178_37, v__3519884_37, closureRef(R[0], 4));
+coraCall2(co, v__3521371_37, v__3520077_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3521177_37= co->res;
-Obj v__3519884_37 = R[1];
-Obj v__3519885_37 = R[2];
-R[1] = v__3519884_37;
-R[2] = v__3519885_37;
+Obj v__3521370_37= co->res;
+Obj v__3520077_37 = R[1];
+Obj v__3520078_37 = R[2];
+R[1] = v__3520077_37;
+R[2] = v__3520078_37;
 saveCont(co, clofun95, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v__3521176_37= co->res;
-Obj v__3519884_37 = R[1];
-Obj v__3519885_37 = R[2];
-R[1] = v__3519884_37;
-R[2] = v__3519885_37;
+Obj v__3521369_37= co->res;
+Obj v__3520077_37 = R[1];
+Obj v__3520078_37 = R[2];
+R[1] = v__3520077_37;
+R[2] = v__3520078_37;
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v__3521175_37= co->res;
-Obj v__3519883_37 = R[1];
-Obj v__3519884_37 = R[2];
-Obj v__3519885_37 = R[3];
-R[1] = v__3519884_37;
-R[2] = v__3519885_37;
+Obj v__3521368_37= co->res;
+Obj v__3520076_37 = R[1];
+Obj v__3520077_37 = R[2];
+Obj v__3520078_37 = R[3];
+R[1] = v__3520077_37;
+R[2] = v__3520078_37;
 saveCont(co, clofun95, 7, R);
-coraCall2(co, v__3521175_37, v__3519883_37, closureRef(R[0], 4));
+coraCall2(co, v__3521368_37, v__3520076_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v__3521174_37= co->res;
-Obj v__3519883_37 = R[1];
-Obj v__3519884_37 = R[2];
-Obj v__3519885_37 = R[3];
-R[1] = v__3519883_37;
-R[2] = v__3519884_37;
-R[3] = v__3519885_37;
+Obj v__3521367_37= co->res;
+Obj v__3520076_37 = R[1];
+Obj v__3520077_37 = R[2];
+Obj v__3520078_37 = R[3];
+R[1] = v__3520076_37;
+R[2] = v__3520077_37;
+R[3] = v__3520078_37;
 saveCont(co, clofun95, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
@@ -3604,97 +3604,97 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519864_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v__3521110_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3521110_37) {
-Obj v__3521111_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521112_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3521111_37);
-if (True == v__3521112_37) {
-Obj v__3521113_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521114_37 = PRIM_ISCONS(v__3521113_37);
-if (True == v__3521114_37) {
-Obj v__3521115_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521116_37 = PRIM_CAR(v__3521115_37);
-Obj v__3519879_37 = v__3521116_37;
-Obj v__3521117_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521118_37 = PRIM_CDR(v__3521117_37);
-Obj v__3521119_37 = PRIM_ISCONS(v__3521118_37);
-if (True == v__3521119_37) {
-Obj v__3521120_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521121_37 = PRIM_CDR(v__3521120_37);
-Obj v__3521122_37 = PRIM_CAR(v__3521121_37);
-Obj v__3519880_37 = v__3521122_37;
-Obj v__3521123_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521124_37 = PRIM_CDR(v__3521123_37);
-Obj v__3521125_37 = PRIM_CDR(v__3521124_37);
-Obj v__3521126_37 = PRIM_ISCONS(v__3521125_37);
-if (True == v__3521126_37) {
-Obj v__3521127_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521128_37 = PRIM_CDR(v__3521127_37);
-Obj v__3521129_37 = PRIM_CDR(v__3521128_37);
-Obj v__3521130_37 = PRIM_CAR(v__3521129_37);
-Obj v__3519881_37 = v__3521130_37;
-Obj v__3521131_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521132_37 = PRIM_CDR(v__3521131_37);
-Obj v__3521133_37 = PRIM_CDR(v__3521132_37);
-Obj v__3521134_37 = PRIM_CDR(v__3521133_37);
-Obj v__3519882_37 = v__3521134_37;
-R[1] = v__3519881_37;
-R[2] = v__3519879_37;
-R[3] = v__3519880_37;
-R[4] = v__3519882_37;
+Obj v__3520057_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3521303_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521303_37) {
+Obj v__3521304_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521305_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3521304_37);
+if (True == v__3521305_37) {
+Obj v__3521306_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521307_37 = PRIM_ISCONS(v__3521306_37);
+if (True == v__3521307_37) {
+Obj v__3521308_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521309_37 = PRIM_CAR(v__3521308_37);
+Obj v__3520072_37 = v__3521309_37;
+Obj v__3521310_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521311_37 = PRIM_CDR(v__3521310_37);
+Obj v__3521312_37 = PRIM_ISCONS(v__3521311_37);
+if (True == v__3521312_37) {
+Obj v__3521313_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521314_37 = PRIM_CDR(v__3521313_37);
+Obj v__3521315_37 = PRIM_CAR(v__3521314_37);
+Obj v__3520073_37 = v__3521315_37;
+Obj v__3521316_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521317_37 = PRIM_CDR(v__3521316_37);
+Obj v__3521318_37 = PRIM_CDR(v__3521317_37);
+Obj v__3521319_37 = PRIM_ISCONS(v__3521318_37);
+if (True == v__3521319_37) {
+Obj v__3521320_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521321_37 = PRIM_CDR(v__3521320_37);
+Obj v__3521322_37 = PRIM_CDR(v__3521321_37);
+Obj v__3521323_37 = PRIM_CAR(v__3521322_37);
+Obj v__3520074_37 = v__3521323_37;
+Obj v__3521324_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521325_37 = PRIM_CDR(v__3521324_37);
+Obj v__3521326_37 = PRIM_CDR(v__3521325_37);
+Obj v__3521327_37 = PRIM_CDR(v__3521326_37);
+Obj v__3520075_37 = v__3521327_37;
+R[1] = v__3520074_37;
+R[2] = v__3520072_37;
+R[3] = v__3520073_37;
+R[4] = v__3520075_37;
 saveCont(co, clofun94, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3520057_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3520057_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3520057_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3520057_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3520057_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521147_37= co->res;
+Obj v__3521340_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521146_37= co->res;
-Obj v__3519882_37 = R[1];
+Obj v__3521339_37= co->res;
+Obj v__3520075_37 = R[1];
 saveCont(co, clofun94, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519882_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520075_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521144_37= co->res;
-Obj v__3519882_37 = R[1];
-Obj v__3521145_37 = primNot(v__3521144_37);
-if (True == v__3521145_37) {
-R[1] = v__3519882_37;
+Obj v__3521337_37= co->res;
+Obj v__3520075_37 = R[1];
+Obj v__3521338_37 = primNot(v__3521337_37);
+if (True == v__3521338_37) {
+R[1] = v__3520075_37;
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -3707,98 +3707,98 @@ return;
 }
 case 4:
 {
-Obj v__3521143_37= co->res;
-Obj v__3519882_37 = R[1];
-R[1] = v__3519882_37;
+Obj v__3521336_37= co->res;
+Obj v__3520075_37 = R[1];
+R[1] = v__3520075_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519882_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3520075_37);
 return;
 }
 case 5:
 {
-Obj v__3521142_37= co->res;
-Obj v__3519882_37 = R[1];
-R[1] = v__3519882_37;
+Obj v__3521335_37= co->res;
+Obj v__3520075_37 = R[1];
+R[1] = v__3520075_37;
 saveCont(co, clofun94, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3521142_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3521335_37);
 return;
 }
 case 6:
 {
-Obj v__3521141_37= co->res;
-Obj v__3519882_37 = R[1];
-R[1] = v__3519882_37;
+Obj v__3521334_37= co->res;
+Obj v__3520075_37 = R[1];
+R[1] = v__3520075_37;
 saveCont(co, clofun94, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519882_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3520075_37);
 return;
 }
 case 7:
 {
-Obj v__3521140_37= co->res;
-Obj v__3519882_37 = R[1];
-R[1] = v__3519882_37;
+Obj v__3521333_37= co->res;
+Obj v__3520075_37 = R[1];
+R[1] = v__3520075_37;
 saveCont(co, clofun94, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v__3521139_37= co->res;
-Obj v__3519880_37 = R[1];
-Obj v__3519882_37 = R[2];
-R[1] = v__3519882_37;
+Obj v__3521332_37= co->res;
+Obj v__3520073_37 = R[1];
+Obj v__3520075_37 = R[2];
+R[1] = v__3520075_37;
 saveCont(co, clofun94, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519880_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3520073_37);
 return;
 }
 case 9:
 {
-Obj v__3521138_37= co->res;
-Obj v__3519880_37 = R[1];
-Obj v__3519882_37 = R[2];
-R[1] = v__3519880_37;
-R[2] = v__3519882_37;
+Obj v__3521331_37= co->res;
+Obj v__3520073_37 = R[1];
+Obj v__3520075_37 = R[2];
+R[1] = v__3520073_37;
+R[2] = v__3520075_37;
 saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v__3521137_37= co->res;
-Obj v__3519879_37 = R[1];
-Obj v__3519880_37 = R[2];
-Obj v__3519882_37 = R[3];
-R[1] = v__3519880_37;
-R[2] = v__3519882_37;
+Obj v__3521330_37= co->res;
+Obj v__3520072_37 = R[1];
+Obj v__3520073_37 = R[2];
+Obj v__3520075_37 = R[3];
+R[1] = v__3520073_37;
+R[2] = v__3520075_37;
 saveCont(co, clofun94, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), v__3519879_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), v__3520072_37);
 return;
 }
 case 11:
 {
-Obj v__3521136_37= co->res;
-Obj v__3519879_37 = R[1];
-Obj v__3519880_37 = R[2];
-Obj v__3519882_37 = R[3];
-R[1] = v__3519879_37;
-R[2] = v__3519880_37;
-R[3] = v__3519882_37;
+Obj v__3521329_37= co->res;
+Obj v__3520072_37 = R[1];
+Obj v__3520073_37 = R[2];
+Obj v__3520075_37 = R[3];
+R[1] = v__3520072_37;
+R[2] = v__3520073_37;
+R[3] = v__3520075_37;
 saveCont(co, clofun94, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v__3521135_37= co->res;
-Obj v__3519881_37 = R[1];
-Obj v__3519879_37 = R[2];
-Obj v__3519880_37 = R[3];
-Obj v__3519882_37 = R[4];
-R[1] = v__3519879_37;
-R[2] = v__3519880_37;
-R[3] = v__3519882_37;
+Obj v__3521328_37= co->res;
+Obj v__3520074_37 = R[1];
+Obj v__3520072_37 = R[2];
+Obj v__3520073_37 = R[3];
+Obj v__3520075_37 = R[4];
+R[1] = v__3520072_37;
+R[2] = v__3520073_37;
+R[3] = v__3520075_37;
 saveCont(co, clofun94, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519881_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3520074_37);
 return;
 }
 }
@@ -3808,96 +3808,96 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519865_37 = makeNative(co->gc, 2, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3521089_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521089_37) {
-Obj v__3521090_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521091_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3521090_37);
-if (True == v__3521091_37) {
-Obj v__3521092_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521093_37 = PRIM_ISCONS(v__3521092_37);
-if (True == v__3521093_37) {
-Obj v__3521094_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521095_37 = PRIM_CAR(v__3521094_37);
-Obj v__3519877_37 = v__3521095_37;
-Obj v__3521096_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521097_37 = PRIM_CDR(v__3521096_37);
-Obj v__3521098_37 = PRIM_ISCONS(v__3521097_37);
-if (True == v__3521098_37) {
-Obj v__3521099_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521100_37 = PRIM_CDR(v__3521099_37);
-Obj v__3521101_37 = PRIM_CAR(v__3521100_37);
-Obj v__3519878_37 = v__3521101_37;
-Obj v__3521102_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521103_37 = PRIM_CDR(v__3521102_37);
-Obj v__3521104_37 = PRIM_CDR(v__3521103_37);
-Obj v__3521105_37 = PRIM_EQ(Nil, v__3521104_37);
-if (True == v__3521105_37) {
-R[1] = v__3519877_37;
-R[2] = v__3519878_37;
+Obj v__3520058_37 = makeNative(co->gc, 2, clofun92, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521282_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521282_37) {
+Obj v__3521283_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521284_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3521283_37);
+if (True == v__3521284_37) {
+Obj v__3521285_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521286_37 = PRIM_ISCONS(v__3521285_37);
+if (True == v__3521286_37) {
+Obj v__3521287_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521288_37 = PRIM_CAR(v__3521287_37);
+Obj v__3520070_37 = v__3521288_37;
+Obj v__3521289_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521290_37 = PRIM_CDR(v__3521289_37);
+Obj v__3521291_37 = PRIM_ISCONS(v__3521290_37);
+if (True == v__3521291_37) {
+Obj v__3521292_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521293_37 = PRIM_CDR(v__3521292_37);
+Obj v__3521294_37 = PRIM_CAR(v__3521293_37);
+Obj v__3520071_37 = v__3521294_37;
+Obj v__3521295_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521296_37 = PRIM_CDR(v__3521295_37);
+Obj v__3521297_37 = PRIM_CDR(v__3521296_37);
+Obj v__3521298_37 = PRIM_EQ(Nil, v__3521297_37);
+if (True == v__3521298_37) {
+R[1] = v__3520070_37;
+R[2] = v__3520071_37;
 saveCont(co, clofun93, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3520058_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3520058_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3520058_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3520058_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3520058_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521109_37= co->res;
-Obj v__3519878_37 = R[1];
+Obj v__3521302_37= co->res;
+Obj v__3520071_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, v__3521109_37, v__3519878_37, closureRef(R[0], 5));
+coraCall2(co, v__3521302_37, v__3520071_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v__3521108_37= co->res;
-Obj v__3519878_37 = R[1];
-R[1] = v__3519878_37;
+Obj v__3521301_37= co->res;
+Obj v__3520071_37 = R[1];
+R[1] = v__3520071_37;
 saveCont(co, clofun93, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521107_37= co->res;
-Obj v__3519878_37 = R[1];
-R[1] = v__3519878_37;
+Obj v__3521300_37= co->res;
+Obj v__3520071_37 = R[1];
+R[1] = v__3520071_37;
 saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3521106_37= co->res;
-Obj v__3519877_37 = R[1];
-Obj v__3519878_37 = R[2];
-R[1] = v__3519878_37;
+Obj v__3521299_37= co->res;
+Obj v__3520070_37 = R[1];
+Obj v__3520071_37 = R[2];
+R[1] = v__3520071_37;
 saveCont(co, clofun93, 3, R);
-coraCall2(co, v__3521106_37, v__3519877_37, closureRef(R[0], 5));
+coraCall2(co, v__3521299_37, v__3520070_37, closureRef(R[0], 5));
 return;
 }
 }
@@ -3907,74 +3907,74 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519866_37 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521075_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521075_37) {
-Obj v__3521076_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521077_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3521076_37);
-if (True == v__3521077_37) {
-Obj v__3521078_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521079_37 = PRIM_ISCONS(v__3521078_37);
-if (True == v__3521079_37) {
-Obj v__3521080_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521081_37 = PRIM_CAR(v__3521080_37);
-Obj v__3519876_37 = v__3521081_37;
-Obj v__3521082_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521083_37 = PRIM_CDR(v__3521082_37);
-Obj v__3521084_37 = PRIM_EQ(Nil, v__3521083_37);
-if (True == v__3521084_37) {
-R[1] = v__3519876_37;
+Obj v__3520059_37 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521268_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521268_37) {
+Obj v__3521269_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521270_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3521269_37);
+if (True == v__3521270_37) {
+Obj v__3521271_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521272_37 = PRIM_ISCONS(v__3521271_37);
+if (True == v__3521272_37) {
+Obj v__3521273_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521274_37 = PRIM_CAR(v__3521273_37);
+Obj v__3520069_37 = v__3521274_37;
+Obj v__3521275_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521276_37 = PRIM_CDR(v__3521275_37);
+Obj v__3521277_37 = PRIM_EQ(Nil, v__3521276_37);
+if (True == v__3521277_37) {
+R[1] = v__3520069_37;
 saveCont(co, clofun92, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519866_37);
+coraCall0(co, v__3520059_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519866_37);
+coraCall0(co, v__3520059_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519866_37);
+coraCall0(co, v__3520059_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519866_37);
+coraCall0(co, v__3520059_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521088_37= co->res;
+Obj v__3521281_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521087_37= co->res;
+Obj v__3521280_37= co->res;
 saveCont(co, clofun92, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v__3521086_37= co->res;
-Obj v__3519876_37 = R[1];
+Obj v__3521279_37= co->res;
+Obj v__3520069_37 = R[1];
 saveCont(co, clofun92, 2, R);
-coraCall2(co, v__3521086_37, v__3519876_37, closureRef(R[0], 4));
+coraCall2(co, v__3521279_37, v__3520069_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3521085_37= co->res;
-Obj v__3519876_37 = R[1];
-R[1] = v__3519876_37;
+Obj v__3521278_37= co->res;
+Obj v__3520069_37 = R[1];
+R[1] = v__3520069_37;
 saveCont(co, clofun92, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
@@ -3986,67 +3986,67 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519867_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521062_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521062_37) {
-Obj v__3521063_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521064_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3521063_37);
-if (True == v__3521064_37) {
-Obj v__3521065_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521066_37 = PRIM_ISCONS(v__3521065_37);
-if (True == v__3521066_37) {
-Obj v__3521067_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521068_37 = PRIM_CAR(v__3521067_37);
-Obj v__3519875_37 = v__3521068_37;
-Obj v__3521069_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521070_37 = PRIM_CDR(v__3521069_37);
-Obj v__3521071_37 = PRIM_EQ(Nil, v__3521070_37);
-if (True == v__3521071_37) {
-R[1] = v__3519875_37;
+Obj v__3520060_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521255_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521255_37) {
+Obj v__3521256_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521257_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3521256_37);
+if (True == v__3521257_37) {
+Obj v__3521258_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521259_37 = PRIM_ISCONS(v__3521258_37);
+if (True == v__3521259_37) {
+Obj v__3521260_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521261_37 = PRIM_CAR(v__3521260_37);
+Obj v__3520068_37 = v__3521261_37;
+Obj v__3521262_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521263_37 = PRIM_CDR(v__3521262_37);
+Obj v__3521264_37 = PRIM_EQ(Nil, v__3521263_37);
+if (True == v__3521264_37) {
+R[1] = v__3520068_37;
 saveCont(co, clofun91, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521074_37= co->res;
+Obj v__3521267_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521073_37= co->res;
-Obj v__3519875_37 = R[1];
+Obj v__3521266_37= co->res;
+Obj v__3520068_37 = R[1];
 saveCont(co, clofun91, 1, R);
-coraCall2(co, v__3521073_37, v__3519875_37, closureRef(R[0], 4));
+coraCall2(co, v__3521266_37, v__3520068_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521072_37= co->res;
-Obj v__3519875_37 = R[1];
-R[1] = v__3519875_37;
+Obj v__3521265_37= co->res;
+Obj v__3520068_37 = R[1];
+R[1] = v__3520068_37;
 saveCont(co, clofun91, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
@@ -4058,129 +4058,129 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519868_37 = makeNative(co->gc, 4, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521038_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521038_37) {
-Obj v__3521039_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521040_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3521039_37);
-if (True == v__3521040_37) {
-Obj v__3521041_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521042_37 = PRIM_ISCONS(v__3521041_37);
-if (True == v__3521042_37) {
-Obj v__3521043_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521044_37 = PRIM_CAR(v__3521043_37);
-Obj v__3519872_37 = v__3521044_37;
-Obj v__3521045_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521046_37 = PRIM_CDR(v__3521045_37);
-Obj v__3521047_37 = PRIM_ISCONS(v__3521046_37);
-if (True == v__3521047_37) {
-Obj v__3521048_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521049_37 = PRIM_CDR(v__3521048_37);
-Obj v__3521050_37 = PRIM_CAR(v__3521049_37);
-Obj v__3519873_37 = v__3521050_37;
-Obj v__3521051_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521052_37 = PRIM_CDR(v__3521051_37);
-Obj v__3521053_37 = PRIM_CDR(v__3521052_37);
-Obj v__3519874_37 = v__3521053_37;
-R[1] = v__3519873_37;
-R[2] = v__3519872_37;
+Obj v__3520061_37 = makeNative(co->gc, 4, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521231_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521231_37) {
+Obj v__3521232_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521233_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3521232_37);
+if (True == v__3521233_37) {
+Obj v__3521234_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521235_37 = PRIM_ISCONS(v__3521234_37);
+if (True == v__3521235_37) {
+Obj v__3521236_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521237_37 = PRIM_CAR(v__3521236_37);
+Obj v__3520065_37 = v__3521237_37;
+Obj v__3521238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521239_37 = PRIM_CDR(v__3521238_37);
+Obj v__3521240_37 = PRIM_ISCONS(v__3521239_37);
+if (True == v__3521240_37) {
+Obj v__3521241_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521242_37 = PRIM_CDR(v__3521241_37);
+Obj v__3521243_37 = PRIM_CAR(v__3521242_37);
+Obj v__3520066_37 = v__3521243_37;
+Obj v__3521244_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521245_37 = PRIM_CDR(v__3521244_37);
+Obj v__3521246_37 = PRIM_CDR(v__3521245_37);
+Obj v__3520067_37 = v__3521246_37;
+R[1] = v__3520066_37;
+R[2] = v__3520065_37;
 saveCont(co, clofun90, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3519874_37};
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3520067_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 51)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3520061_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3520061_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3520061_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3520061_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521061_37= co->res;
+Obj v__3521254_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521060_37= co->res;
-Obj v__3519872_37 = R[1];
+Obj v__3521253_37= co->res;
+Obj v__3520065_37 = R[1];
 saveCont(co, clofun90, 1, R);
-coraCall2(co, v__3521060_37, v__3519872_37, closureRef(R[0], 4));
+coraCall2(co, v__3521253_37, v__3520065_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521059_37= co->res;
-Obj v__3519872_37 = R[1];
-R[1] = v__3519872_37;
+Obj v__3521252_37= co->res;
+Obj v__3520065_37 = R[1];
+R[1] = v__3520065_37;
 saveCont(co, clofun90, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3521058_37= co->res;
-Obj v__3519872_37 = R[1];
-R[1] = v__3519872_37;
+Obj v__3521251_37= co->res;
+Obj v__3520065_37 = R[1];
+R[1] = v__3520065_37;
 saveCont(co, clofun90, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v__3521057_37= co->res;
-Obj v__3519873_37 = R[1];
-Obj v__3519872_37 = R[2];
-R[1] = v__3519872_37;
+Obj v__3521250_37= co->res;
+Obj v__3520066_37 = R[1];
+Obj v__3520065_37 = R[2];
+R[1] = v__3520065_37;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519873_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3520066_37);
 return;
 }
 case 6:
 {
-Obj v__3521056_37= co->res;
-Obj v__3519873_37 = R[1];
-Obj v__3519872_37 = R[2];
-R[1] = v__3519873_37;
-R[2] = v__3519872_37;
+Obj v__3521249_37= co->res;
+Obj v__3520066_37 = R[1];
+Obj v__3520065_37 = R[2];
+R[1] = v__3520066_37;
+R[2] = v__3520065_37;
 saveCont(co, clofun90, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v__3521055_37= co->res;
-Obj v__3519873_37 = R[1];
-Obj v__3519872_37 = R[2];
-R[1] = v__3519873_37;
-R[2] = v__3519872_37;
+Obj v__3521248_37= co->res;
+Obj v__3520066_37 = R[1];
+Obj v__3520065_37 = R[2];
+R[1] = v__3520066_37;
+R[2] = v__3520065_37;
 saveCont(co, clofun90, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v__3521054_37= co->res;
-Obj v__3519873_37 = R[1];
-Obj v__3519872_37 = R[2];
-R[1] = v__3519873_37;
-R[2] = v__3519872_37;
+Obj v__3521247_37= co->res;
+Obj v__3520066_37 = R[1];
+Obj v__3520065_37 = R[2];
+R[1] = v__3520066_37;
+R[2] = v__3520065_37;
 saveCont(co, clofun90, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
@@ -4192,16 +4192,16 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521015_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521015_37) {
-Obj v__3521016_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519869_37 = v__3521016_37;
-Obj v__3521017_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519870_37 = v__3521017_37;
-R[1] = v__3519869_37;
-R[2] = v__3519870_37;
+Obj v__3521208_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521208_37) {
+Obj v__3521209_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520062_37 = v__3521209_37;
+Obj v__3521210_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520063_37 = v__3521210_37;
+R[1] = v__3520062_37;
+R[2] = v__3520063_37;
 saveCont(co, clofun89, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519870_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3520063_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4211,134 +4211,134 @@ return;
 }
 case 1:
 {
-Obj v__3521029_37= co->res;
+Obj v__3521222_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v__3521028_37= co->res;
-Obj v__3519871_37 = R[1];
+Obj v__3521221_37= co->res;
+Obj v__3520064_37 = R[1];
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519871_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3520064_37);
 return;
 }
 case 3:
 {
-Obj v__3521027_37= co->res;
-Obj v__3519871_37 = R[1];
-R[1] = v__3519871_37;
+Obj v__3521220_37= co->res;
+Obj v__3520064_37 = R[1];
+R[1] = v__3520064_37;
 saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3521026_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519871_37 = R[2];
-R[1] = v__3519871_37;
+Obj v__3521219_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520064_37 = R[2];
+R[1] = v__3520064_37;
 saveCont(co, clofun89, 3, R);
-coraCall2(co, v__3521026_37, v__3519869_37, closureRef(R[0], 4));
+coraCall2(co, v__3521219_37, v__3520062_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v__3521025_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519871_37 = R[2];
-R[1] = v__3519869_37;
-R[2] = v__3519871_37;
+Obj v__3521218_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520064_37 = R[2];
+R[1] = v__3520062_37;
+R[2] = v__3520064_37;
 saveCont(co, clofun89, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v__3521024_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519871_37 = R[2];
-R[1] = v__3519869_37;
-R[2] = v__3519871_37;
+Obj v__3521217_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520064_37 = R[2];
+R[1] = v__3520062_37;
+R[2] = v__3520064_37;
 saveCont(co, clofun89, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v__3521023_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519871_37 = R[2];
-R[1] = v__3519869_37;
-R[2] = v__3519871_37;
+Obj v__3521216_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520064_37 = R[2];
+R[1] = v__3520062_37;
+R[2] = v__3520064_37;
 saveCont(co, clofun89, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v__3521022_37= co->res;
-Obj v__3519870_37 = R[1];
-Obj v__3519869_37 = R[2];
-Obj v__3519871_37 = R[3];
-R[1] = v__3519869_37;
-R[2] = v__3519871_37;
+Obj v__3521215_37= co->res;
+Obj v__3520063_37 = R[1];
+Obj v__3520062_37 = R[2];
+Obj v__3520064_37 = R[3];
+R[1] = v__3520062_37;
+R[2] = v__3520064_37;
 saveCont(co, clofun89, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519870_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520063_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3521021_37= co->res;
-Obj v__3519870_37 = R[1];
-Obj v__3519869_37 = R[2];
-Obj v__3519871_37 = R[3];
-R[1] = v__3519870_37;
-R[2] = v__3519869_37;
-R[3] = v__3519871_37;
+Obj v__3521214_37= co->res;
+Obj v__3520063_37 = R[1];
+Obj v__3520062_37 = R[2];
+Obj v__3520064_37 = R[3];
+R[1] = v__3520063_37;
+R[2] = v__3520062_37;
+R[3] = v__3520064_37;
 saveCont(co, clofun89, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v__3521020_37= co->res;
-Obj v__3519870_37 = R[1];
-Obj v__3519869_37 = R[2];
-Obj v__3519871_37 = R[3];
-R[1] = v__3519870_37;
-R[2] = v__3519869_37;
-R[3] = v__3519871_37;
+Obj v__3521213_37= co->res;
+Obj v__3520063_37 = R[1];
+Obj v__3520062_37 = R[2];
+Obj v__3520064_37 = R[3];
+R[1] = v__3520063_37;
+R[2] = v__3520062_37;
+R[3] = v__3520064_37;
 saveCont(co, clofun89, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519871_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3520064_37);
 return;
 }
 case 11:
 {
-Obj v__3521037_37= co->res;
+Obj v__3521230_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3521036_37= co->res;
-Obj v__3519870_37 = R[1];
+Obj v__3521229_37= co->res;
+Obj v__3520063_37 = R[1];
 saveCont(co, clofun89, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519870_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520063_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v__3521034_37= co->res;
-Obj v__3519871_37 = R[1];
-Obj v__3519870_37 = R[2];
-Obj v__3521035_37 = PRIM_GT(v__3519871_37, MAKE_NUMBER(0));
-if (True == v__3521035_37) {
-R[1] = v__3519870_37;
+Obj v__3521227_37= co->res;
+Obj v__3520064_37 = R[1];
+Obj v__3520063_37 = R[2];
+Obj v__3521228_37 = PRIM_GT(v__3520064_37, MAKE_NUMBER(0));
+if (True == v__3521228_37) {
+R[1] = v__3520063_37;
 saveCont(co, clofun89, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -4351,73 +4351,73 @@ return;
 }
 case 14:
 {
-Obj v__3521033_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519871_37 = R[2];
-Obj v__3519870_37 = R[3];
-R[1] = v__3519871_37;
-R[2] = v__3519870_37;
+Obj v__3521226_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520064_37 = R[2];
+Obj v__3520063_37 = R[3];
+R[1] = v__3520064_37;
+R[2] = v__3520063_37;
 saveCont(co, clofun89, 13, R);
-coraCall2(co, v__3521033_37, v__3519869_37, closureRef(R[0], 4));
+coraCall2(co, v__3521226_37, v__3520062_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v__3521032_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519871_37 = R[2];
-Obj v__3519870_37 = R[3];
-R[1] = v__3519869_37;
-R[2] = v__3519871_37;
-R[3] = v__3519870_37;
+Obj v__3521225_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520064_37 = R[2];
+Obj v__3520063_37 = R[3];
+R[1] = v__3520062_37;
+R[2] = v__3520064_37;
+R[3] = v__3520063_37;
 saveCont(co, clofun89, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v__3521031_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519871_37 = R[2];
-Obj v__3519870_37 = R[3];
-R[1] = v__3519869_37;
-R[2] = v__3519871_37;
-R[3] = v__3519870_37;
+Obj v__3521224_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520064_37 = R[2];
+Obj v__3520063_37 = R[3];
+R[1] = v__3520062_37;
+R[2] = v__3520064_37;
+R[3] = v__3520063_37;
 saveCont(co, clofun89, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v__3521030_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519871_37 = R[2];
-Obj v__3519870_37 = R[3];
-R[1] = v__3519869_37;
-R[2] = v__3519871_37;
-R[3] = v__3519870_37;
+Obj v__3521223_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520064_37 = R[2];
+Obj v__3520063_37 = R[3];
+R[1] = v__3520062_37;
+R[2] = v__3520064_37;
+R[3] = v__3520063_37;
 saveCont(co, clofun89, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3519871_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), v__3520064_37);
 return;
 }
 case 18:
 {
-Obj v__3521018_37= co->res;
-Obj v__3519869_37 = R[1];
-Obj v__3519870_37 = R[2];
-Obj v__3519871_37 = v__3521018_37;
-Obj v__3521019_37 = PRIM_GT(v__3519871_37, MAKE_NUMBER(4));
-if (True == v__3521019_37) {
-R[1] = v__3519870_37;
-R[2] = v__3519869_37;
-R[3] = v__3519871_37;
+Obj v__3521211_37= co->res;
+Obj v__3520062_37 = R[1];
+Obj v__3520063_37 = R[2];
+Obj v__3520064_37 = v__3521211_37;
+Obj v__3521212_37 = PRIM_GT(v__3520064_37, MAKE_NUMBER(4));
+if (True == v__3521212_37) {
+R[1] = v__3520063_37;
+R[2] = v__3520062_37;
+R[3] = v__3520064_37;
 saveCont(co, clofun89, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = v__3519869_37;
-R[2] = v__3519871_37;
-R[3] = v__3519870_37;
+R[1] = v__3520062_37;
+R[2] = v__3520064_37;
+R[3] = v__3520063_37;
 saveCont(co, clofun89, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
@@ -4430,13 +4430,13 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519491_37 = R[1];
-Obj v__3519492_37 = R[2];
-Obj v__3519493_37 = R[3];
-Obj v__3519494_37 = R[4];
-Obj v__3519495_37 = R[5];
+Obj v__3519684_37 = R[1];
+Obj v__3519685_37 = R[2];
+Obj v__3519686_37 = R[3];
+Obj v__3519687_37 = R[4];
+Obj v__3519688_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun87, 2, 4, v__3519491_37, v__3519492_37, v__3519493_37, v__3519494_37), MAKE_NUMBER(1), v__3519495_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun87, 2, 4, v__3519684_37, v__3519685_37, v__3519686_37, v__3519687_37), MAKE_NUMBER(1), v__3519688_37);
 return;
 }
 }
@@ -4446,57 +4446,57 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519496_37 = R[1];
-Obj v__3519497_37 = R[2];
-R[1] = v__3519497_37;
-R[2] = v__3519496_37;
+Obj v__3519689_37 = R[1];
+Obj v__3519690_37 = R[2];
+R[1] = v__3519690_37;
+R[2] = v__3519689_37;
 saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v__3521010_37= co->res;
-Obj v__3519496_37 = R[1];
-Obj v__3521011_37 = PRIM_ADD(v__3519496_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521011_37);
+Obj v__3521203_37= co->res;
+Obj v__3519689_37 = R[1];
+Obj v__3521204_37 = PRIM_ADD(v__3519689_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521204_37);
 return;
 }
 case 2:
 {
-Obj v__3521009_37= co->res;
-Obj v__3519496_37 = R[1];
-R[1] = v__3519496_37;
+Obj v__3521202_37= co->res;
+Obj v__3519689_37 = R[1];
+R[1] = v__3519689_37;
 saveCont(co, clofun87, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v__3521008_37= co->res;
-Obj v__3519496_37 = R[1];
-R[1] = v__3519496_37;
+Obj v__3521201_37= co->res;
+Obj v__3519689_37 = R[1];
+R[1] = v__3519689_37;
 saveCont(co, clofun87, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519496_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519689_37);
 return;
 }
 case 4:
 {
-Obj v__3521007_37= co->res;
-Obj v__3519496_37 = R[1];
-R[1] = v__3519496_37;
+Obj v__3521200_37= co->res;
+Obj v__3519689_37 = R[1];
+R[1] = v__3519689_37;
 saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v__3521006_37= co->res;
-Obj v__3519497_37 = R[1];
-Obj v__3519496_37 = R[2];
-R[1] = v__3519496_37;
+Obj v__3521199_37= co->res;
+Obj v__3519690_37 = R[1];
+Obj v__3519689_37 = R[2];
+R[1] = v__3519689_37;
 saveCont(co, clofun87, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519497_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519690_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
@@ -4507,13 +4507,13 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519484_37 = R[1];
-Obj v__3519485_37 = R[2];
-Obj v__3519486_37 = R[3];
-Obj v__3519487_37 = R[4];
-Obj v__3519488_37 = R[5];
+Obj v__3519677_37 = R[1];
+Obj v__3519678_37 = R[2];
+Obj v__3519679_37 = R[3];
+Obj v__3519680_37 = R[4];
+Obj v__3519681_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun85, 2, 4, v__3519484_37, v__3519485_37, v__3519486_37, v__3519487_37), MAKE_NUMBER(1), v__3519488_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun85, 2, 4, v__3519677_37, v__3519678_37, v__3519679_37, v__3519680_37), MAKE_NUMBER(1), v__3519681_37);
 return;
 }
 }
@@ -4523,62 +4523,62 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519489_37 = R[1];
-Obj v__3519490_37 = R[2];
-R[1] = v__3519490_37;
-R[2] = v__3519489_37;
+Obj v__3519682_37 = R[1];
+Obj v__3519683_37 = R[2];
+R[1] = v__3519683_37;
+R[2] = v__3519682_37;
 saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v__3521003_37= co->res;
-Obj v__3519489_37 = R[1];
-Obj v__3521004_37 = PRIM_ADD(v__3519489_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521004_37);
+Obj v__3521196_37= co->res;
+Obj v__3519682_37 = R[1];
+Obj v__3521197_37 = PRIM_ADD(v__3519682_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521197_37);
 return;
 }
 case 2:
 {
-Obj v__3521002_37= co->res;
-Obj v__3519489_37 = R[1];
-R[1] = v__3519489_37;
+Obj v__3521195_37= co->res;
+Obj v__3519682_37 = R[1];
+R[1] = v__3519682_37;
 saveCont(co, clofun85, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3521001_37= co->res;
-Obj v__3519490_37 = R[1];
-Obj v__3519489_37 = R[2];
-R[1] = v__3519489_37;
+Obj v__3521194_37= co->res;
+Obj v__3519683_37 = R[1];
+Obj v__3519682_37 = R[2];
+R[1] = v__3519682_37;
 saveCont(co, clofun85, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519490_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519683_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 48)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3521000_37= co->res;
-Obj v__3519490_37 = R[1];
-Obj v__3519489_37 = R[2];
-R[1] = v__3519490_37;
-R[2] = v__3519489_37;
+Obj v__3521193_37= co->res;
+Obj v__3519683_37 = R[1];
+Obj v__3519682_37 = R[2];
+R[1] = v__3519683_37;
+R[2] = v__3519682_37;
 saveCont(co, clofun85, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v__3520999_37= co->res;
-Obj v__3519490_37 = R[1];
-Obj v__3519489_37 = R[2];
-R[1] = v__3519490_37;
-R[2] = v__3519489_37;
+Obj v__3521192_37= co->res;
+Obj v__3519683_37 = R[1];
+Obj v__3519682_37 = R[2];
+R[1] = v__3519683_37;
+R[2] = v__3519682_37;
 saveCont(co, clofun85, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519489_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), v__3519682_37);
 return;
 }
 }
@@ -4588,10 +4588,10 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519482_37 = R[1];
-Obj v__3519483_37 = R[2];
+Obj v__3519675_37 = R[1];
+Obj v__3519676_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), MAKE_NUMBER(0), v__3519482_37, v__3519483_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), MAKE_NUMBER(0), v__3519675_37, v__3519676_37);
 return;
 }
 }
@@ -4601,36 +4601,36 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519479_37 = R[1];
-Obj v__3519480_37 = R[2];
-Obj v__3519481_37 = R[3];
-R[1] = v__3519479_37;
-R[2] = v__3519481_37;
-R[3] = v__3519480_37;
+Obj v__3519672_37 = R[1];
+Obj v__3519673_37 = R[2];
+Obj v__3519674_37 = R[3];
+R[1] = v__3519672_37;
+R[2] = v__3519674_37;
+R[3] = v__3519673_37;
 saveCont(co, clofun83, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519481_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519674_37);
 return;
 }
 case 1:
 {
-Obj v__3520992_37= co->res;
-Obj v__3519479_37 = R[1];
-Obj v__3519481_37 = R[2];
-Obj v__3519480_37 = R[3];
-if (True == v__3520992_37) {
+Obj v__3521185_37= co->res;
+Obj v__3519672_37 = R[1];
+Obj v__3519674_37 = R[2];
+Obj v__3519673_37 = R[3];
+if (True == v__3521185_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3520993_37 = PRIM_CAR(v__3519481_37);
-Obj v__3520994_37 = PRIM_EQ(v__3519480_37, v__3520993_37);
-if (True == v__3520994_37) {
-coraReturn(co, v__3519479_37);
+Obj v__3521186_37 = PRIM_CAR(v__3519674_37);
+Obj v__3521187_37 = PRIM_EQ(v__3519673_37, v__3521186_37);
+if (True == v__3521187_37) {
+coraReturn(co, v__3519672_37);
 return;
 } else {
-Obj v__3520995_37 = PRIM_ADD(v__3519479_37, MAKE_NUMBER(1));
-Obj v__3520996_37 = PRIM_CDR(v__3519481_37);
+Obj v__3521188_37 = PRIM_ADD(v__3519672_37, MAKE_NUMBER(1));
+Obj v__3521189_37 = PRIM_CDR(v__3519674_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520995_37, v__3519480_37, v__3520996_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3521188_37, v__3519673_37, v__3521189_37);
 return;
 }
 }
@@ -4642,41 +4642,41 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519476_37 = R[1];
-Obj v__3519477_37 = R[2];
-R[1] = v__3519476_37;
-R[2] = v__3519477_37;
+Obj v__3519669_37 = R[1];
+Obj v__3519670_37 = R[2];
+R[1] = v__3519669_37;
+R[2] = v__3519670_37;
 saveCont(co, clofun82, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519477_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3519670_37);
 return;
 }
 case 1:
 {
-Obj v__3520988_37= co->res;
-Obj v__3519476_37 = R[1];
-Obj v__3519856_37 = R[2];
-Obj v__3519477_37 = R[3];
-if (True == v__3520988_37) {
+Obj v__3521181_37= co->res;
+Obj v__3519669_37 = R[1];
+Obj v__3520049_37 = R[2];
+Obj v__3519670_37 = R[3];
+if (True == v__3521181_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3520989_37 = makeCons(co->gc, v__3519476_37, v__3519856_37);
-Obj v__3520990_37 = primSet(co, v__3519477_37, v__3520989_37);
-coraReturn(co, v__3520990_37);
+Obj v__3521182_37 = makeCons(co->gc, v__3519669_37, v__3520049_37);
+Obj v__3521183_37 = primSet(co, v__3519670_37, v__3521182_37);
+coraReturn(co, v__3521183_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520987_37= co->res;
-Obj v__3519476_37 = R[1];
-Obj v__3519477_37 = R[2];
-Obj v__3519856_37 = v__3520987_37;
-R[1] = v__3519476_37;
-R[2] = v__3519856_37;
-R[3] = v__3519477_37;
+Obj v__3521180_37= co->res;
+Obj v__3519669_37 = R[1];
+Obj v__3519670_37 = R[2];
+Obj v__3520049_37 = v__3521180_37;
+R[1] = v__3519669_37;
+R[2] = v__3520049_37;
+R[3] = v__3519670_37;
 saveCont(co, clofun82, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519476_37, v__3519856_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519669_37, v__3520049_37);
 return;
 }
 }
@@ -4686,26 +4686,26 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519473_37 = R[1];
-Obj v__3519474_37 = R[2];
-Obj v__3520980_37 = primGenSym(co);
-Obj v__3519855_37 = v__3520980_37;
-R[1] = v__3519473_37;
-R[2] = v__3519855_37;
+Obj v__3519666_37 = R[1];
+Obj v__3519667_37 = R[2];
+Obj v__3521173_37 = primGenSym(co);
+Obj v__3520048_37 = v__3521173_37;
+R[1] = v__3519666_37;
+R[2] = v__3520048_37;
 saveCont(co, clofun81, 1, R);
-coraCall1(co, v__3519474_37, v__3519855_37);
+coraCall1(co, v__3519667_37, v__3520048_37);
 return;
 }
 case 1:
 {
-Obj v__3520981_37= co->res;
-Obj v__3519473_37 = R[1];
-Obj v__3519855_37 = R[2];
-Obj v__3520982_37 = makeCons(co->gc, v__3520981_37, Nil);
-Obj v__3520983_37 = makeCons(co->gc, v__3519473_37, v__3520982_37);
-Obj v__3520984_37 = makeCons(co->gc, v__3519855_37, v__3520983_37);
-Obj v__3520985_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520984_37);
-coraReturn(co, v__3520985_37);
+Obj v__3521174_37= co->res;
+Obj v__3519666_37 = R[1];
+Obj v__3520048_37 = R[2];
+Obj v__3521175_37 = makeCons(co->gc, v__3521174_37, Nil);
+Obj v__3521176_37 = makeCons(co->gc, v__3519666_37, v__3521175_37);
+Obj v__3521177_37 = makeCons(co->gc, v__3520048_37, v__3521176_37);
+Obj v__3521178_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3521177_37);
+coraReturn(co, v__3521178_37);
 return;
 }
 }
@@ -4715,52 +4715,52 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519468_37 = R[1];
-Obj v__3519469_37 = R[2];
-R[1] = v__3519469_37;
-R[2] = v__3519468_37;
+Obj v__3519661_37 = R[1];
+Obj v__3519662_37 = R[2];
+R[1] = v__3519662_37;
+R[2] = v__3519661_37;
 saveCont(co, clofun80, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519468_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519661_37, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v__3520978_37= co->res;
-Obj v__3519468_37 = R[1];
-Obj v__3519854_37 = R[2];
+Obj v__3521171_37= co->res;
+Obj v__3519661_37 = R[1];
+Obj v__3520047_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519468_37, MAKE_NUMBER(1), v__3519854_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519661_37, MAKE_NUMBER(1), v__3520047_37);
 return;
 }
 case 2:
 {
-Obj v__3520973_37= co->res;
-Obj v__3519469_37 = R[1];
-Obj v__3519852_37 = R[2];
-Obj v__3519468_37 = R[3];
-Obj v__3519853_37 = v__3520973_37;
-Obj v__3520974_37 = makeCons(co->gc, v__3519469_37, Nil);
-Obj v__3520975_37 = makeCons(co->gc, v__3519852_37, v__3520974_37);
-Obj v__3520976_37 = makeCons(co->gc, v__3520975_37, v__3519853_37);
-Obj v__3519854_37 = v__3520976_37;
-Obj v__3520977_37 = PRIM_ADD(v__3519852_37, MAKE_NUMBER(1));
-R[1] = v__3519468_37;
-R[2] = v__3519854_37;
+Obj v__3521166_37= co->res;
+Obj v__3519662_37 = R[1];
+Obj v__3520045_37 = R[2];
+Obj v__3519661_37 = R[3];
+Obj v__3520046_37 = v__3521166_37;
+Obj v__3521167_37 = makeCons(co->gc, v__3519662_37, Nil);
+Obj v__3521168_37 = makeCons(co->gc, v__3520045_37, v__3521167_37);
+Obj v__3521169_37 = makeCons(co->gc, v__3521168_37, v__3520046_37);
+Obj v__3520047_37 = v__3521169_37;
+Obj v__3521170_37 = PRIM_ADD(v__3520045_37, MAKE_NUMBER(1));
+R[1] = v__3519661_37;
+R[2] = v__3520047_37;
 saveCont(co, clofun80, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519468_37, MAKE_NUMBER(0), v__3520977_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 55)), v__3519661_37, MAKE_NUMBER(0), v__3521170_37);
 return;
 }
 case 3:
 {
-Obj v__3520972_37= co->res;
-Obj v__3519469_37 = R[1];
-Obj v__3519468_37 = R[2];
-Obj v__3519852_37 = v__3520972_37;
-R[1] = v__3519469_37;
-R[2] = v__3519852_37;
-R[3] = v__3519468_37;
+Obj v__3521165_37= co->res;
+Obj v__3519662_37 = R[1];
+Obj v__3519661_37 = R[2];
+Obj v__3520045_37 = v__3521165_37;
+R[1] = v__3519662_37;
+R[2] = v__3520045_37;
+R[3] = v__3519661_37;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519468_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519661_37, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4770,195 +4770,195 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519458_37 = R[1];
-Obj v__3519459_37 = R[2];
-Obj v__3519844_37 = makeNative(co->gc, 1, clofun78, 0, 2, v__3519458_37, v__3519459_37);
-Obj v__3520923_37 = PRIM_ISCONS(v__3519459_37);
-if (True == v__3520923_37) {
-Obj v__3520924_37 = PRIM_CAR(v__3519459_37);
-Obj v__3520925_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520924_37);
-if (True == v__3520925_37) {
-Obj v__3520926_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520927_37 = PRIM_ISCONS(v__3520926_37);
-if (True == v__3520927_37) {
-Obj v__3520928_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520929_37 = PRIM_CAR(v__3520928_37);
-Obj v__3520930_37 = PRIM_ISCONS(v__3520929_37);
-if (True == v__3520930_37) {
-Obj v__3520931_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520932_37 = PRIM_CAR(v__3520931_37);
-Obj v__3520933_37 = PRIM_CAR(v__3520932_37);
-Obj v__3520934_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520933_37);
-if (True == v__3520934_37) {
-Obj v__3520935_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520936_37 = PRIM_CAR(v__3520935_37);
-Obj v__3520937_37 = PRIM_CDR(v__3520936_37);
-Obj v__3520938_37 = PRIM_ISCONS(v__3520937_37);
-if (True == v__3520938_37) {
-Obj v__3520939_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520940_37 = PRIM_CAR(v__3520939_37);
-Obj v__3520941_37 = PRIM_CDR(v__3520940_37);
-Obj v__3520942_37 = PRIM_CAR(v__3520941_37);
-Obj v__3519845_37 = v__3520942_37;
-Obj v__3520943_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520944_37 = PRIM_CAR(v__3520943_37);
-Obj v__3520945_37 = PRIM_CDR(v__3520944_37);
-Obj v__3520946_37 = PRIM_CDR(v__3520945_37);
-Obj v__3520947_37 = PRIM_ISCONS(v__3520946_37);
-if (True == v__3520947_37) {
-Obj v__3520948_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520949_37 = PRIM_CAR(v__3520948_37);
-Obj v__3520950_37 = PRIM_CDR(v__3520949_37);
-Obj v__3520951_37 = PRIM_CDR(v__3520950_37);
-Obj v__3520952_37 = PRIM_CAR(v__3520951_37);
-Obj v__3519846_37 = v__3520952_37;
-Obj v__3520953_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520954_37 = PRIM_CAR(v__3520953_37);
-Obj v__3520955_37 = PRIM_CDR(v__3520954_37);
-Obj v__3520956_37 = PRIM_CDR(v__3520955_37);
-Obj v__3520957_37 = PRIM_CDR(v__3520956_37);
-Obj v__3520958_37 = PRIM_EQ(Nil, v__3520957_37);
-if (True == v__3520958_37) {
-Obj v__3520959_37 = PRIM_CDR(v__3519459_37);
-Obj v__3520960_37 = PRIM_CDR(v__3520959_37);
-Obj v__3519847_37 = v__3520960_37;
-R[1] = v__3519458_37;
-R[2] = v__3519845_37;
-R[3] = v__3519847_37;
+Obj v__3519651_37 = R[1];
+Obj v__3519652_37 = R[2];
+Obj v__3520037_37 = makeNative(co->gc, 1, clofun78, 0, 2, v__3519651_37, v__3519652_37);
+Obj v__3521116_37 = PRIM_ISCONS(v__3519652_37);
+if (True == v__3521116_37) {
+Obj v__3521117_37 = PRIM_CAR(v__3519652_37);
+Obj v__3521118_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3521117_37);
+if (True == v__3521118_37) {
+Obj v__3521119_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521120_37 = PRIM_ISCONS(v__3521119_37);
+if (True == v__3521120_37) {
+Obj v__3521121_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521122_37 = PRIM_CAR(v__3521121_37);
+Obj v__3521123_37 = PRIM_ISCONS(v__3521122_37);
+if (True == v__3521123_37) {
+Obj v__3521124_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521125_37 = PRIM_CAR(v__3521124_37);
+Obj v__3521126_37 = PRIM_CAR(v__3521125_37);
+Obj v__3521127_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3521126_37);
+if (True == v__3521127_37) {
+Obj v__3521128_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521129_37 = PRIM_CAR(v__3521128_37);
+Obj v__3521130_37 = PRIM_CDR(v__3521129_37);
+Obj v__3521131_37 = PRIM_ISCONS(v__3521130_37);
+if (True == v__3521131_37) {
+Obj v__3521132_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521133_37 = PRIM_CAR(v__3521132_37);
+Obj v__3521134_37 = PRIM_CDR(v__3521133_37);
+Obj v__3521135_37 = PRIM_CAR(v__3521134_37);
+Obj v__3520038_37 = v__3521135_37;
+Obj v__3521136_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521137_37 = PRIM_CAR(v__3521136_37);
+Obj v__3521138_37 = PRIM_CDR(v__3521137_37);
+Obj v__3521139_37 = PRIM_CDR(v__3521138_37);
+Obj v__3521140_37 = PRIM_ISCONS(v__3521139_37);
+if (True == v__3521140_37) {
+Obj v__3521141_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521142_37 = PRIM_CAR(v__3521141_37);
+Obj v__3521143_37 = PRIM_CDR(v__3521142_37);
+Obj v__3521144_37 = PRIM_CDR(v__3521143_37);
+Obj v__3521145_37 = PRIM_CAR(v__3521144_37);
+Obj v__3520039_37 = v__3521145_37;
+Obj v__3521146_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521147_37 = PRIM_CAR(v__3521146_37);
+Obj v__3521148_37 = PRIM_CDR(v__3521147_37);
+Obj v__3521149_37 = PRIM_CDR(v__3521148_37);
+Obj v__3521150_37 = PRIM_CDR(v__3521149_37);
+Obj v__3521151_37 = PRIM_EQ(Nil, v__3521150_37);
+if (True == v__3521151_37) {
+Obj v__3521152_37 = PRIM_CDR(v__3519652_37);
+Obj v__3521153_37 = PRIM_CDR(v__3521152_37);
+Obj v__3520040_37 = v__3521153_37;
+R[1] = v__3519651_37;
+R[2] = v__3520038_37;
+R[3] = v__3520040_37;
 saveCont(co, clofun79, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3519458_37, v__3519846_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3519651_37, v__3520039_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519844_37);
+coraCall0(co, v__3520037_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519844_37);
+coraCall0(co, v__3520037_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519844_37);
+coraCall0(co, v__3520037_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519844_37);
+coraCall0(co, v__3520037_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519844_37);
+coraCall0(co, v__3520037_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519844_37);
+coraCall0(co, v__3520037_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519844_37);
+coraCall0(co, v__3520037_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519844_37);
+coraCall0(co, v__3520037_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520966_37= co->res;
-Obj v__3519851_37 = R[1];
-Obj v__3519847_37 = R[2];
-Obj v__3519849_37 = R[3];
-Obj v__3520967_37 = makeCons(co->gc, v__3519851_37, v__3519847_37);
-Obj v__3520968_37 = makeCons(co->gc, v__3520966_37, v__3520967_37);
-Obj v__3520969_37 = makeCons(co->gc, v__3519849_37, v__3520968_37);
-Obj v__3520970_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3520969_37);
-coraReturn(co, v__3520970_37);
+Obj v__3521159_37= co->res;
+Obj v__3520044_37 = R[1];
+Obj v__3520040_37 = R[2];
+Obj v__3520042_37 = R[3];
+Obj v__3521160_37 = makeCons(co->gc, v__3520044_37, v__3520040_37);
+Obj v__3521161_37 = makeCons(co->gc, v__3521159_37, v__3521160_37);
+Obj v__3521162_37 = makeCons(co->gc, v__3520042_37, v__3521161_37);
+Obj v__3521163_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3521162_37);
+coraReturn(co, v__3521163_37);
 return;
 }
 case 2:
 {
-Obj v__3520965_37= co->res;
-Obj v__3519845_37 = R[1];
-Obj v__3519851_37 = R[2];
-Obj v__3519847_37 = R[3];
-Obj v__3519849_37 = R[4];
-R[1] = v__3519851_37;
-R[2] = v__3519847_37;
-R[3] = v__3519849_37;
+Obj v__3521158_37= co->res;
+Obj v__3520038_37 = R[1];
+Obj v__3520044_37 = R[2];
+Obj v__3520040_37 = R[3];
+Obj v__3520042_37 = R[4];
+R[1] = v__3520044_37;
+R[2] = v__3520040_37;
+R[3] = v__3520042_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519845_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3520038_37);
 return;
 }
 case 3:
 {
-Obj v__3520964_37= co->res;
-Obj v__3519458_37 = R[1];
-Obj v__3519850_37 = R[2];
-Obj v__3519845_37 = R[3];
-Obj v__3519847_37 = R[4];
-Obj v__3519849_37 = R[5];
-Obj v__3519851_37 = v__3520964_37;
-R[1] = v__3519845_37;
-R[2] = v__3519851_37;
-R[3] = v__3519847_37;
-R[4] = v__3519849_37;
+Obj v__3521157_37= co->res;
+Obj v__3519651_37 = R[1];
+Obj v__3520043_37 = R[2];
+Obj v__3520038_37 = R[3];
+Obj v__3520040_37 = R[4];
+Obj v__3520042_37 = R[5];
+Obj v__3520044_37 = v__3521157_37;
+R[1] = v__3520038_37;
+R[2] = v__3520044_37;
+R[3] = v__3520040_37;
+R[4] = v__3520042_37;
 saveCont(co, clofun79, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519458_37, v__3519850_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519651_37, v__3520043_37);
 return;
 }
 case 4:
 {
-Obj v__3520963_37= co->res;
-Obj v__3519458_37 = R[1];
-Obj v__3519845_37 = R[2];
-Obj v__3519847_37 = R[3];
-Obj v__3519849_37 = R[4];
-Obj v__3519850_37 = v__3520963_37;
-R[1] = v__3519458_37;
-R[2] = v__3519850_37;
-R[3] = v__3519845_37;
-R[4] = v__3519847_37;
-R[5] = v__3519849_37;
+Obj v__3521156_37= co->res;
+Obj v__3519651_37 = R[1];
+Obj v__3520038_37 = R[2];
+Obj v__3520040_37 = R[3];
+Obj v__3520042_37 = R[4];
+Obj v__3520043_37 = v__3521156_37;
+R[1] = v__3519651_37;
+R[2] = v__3520043_37;
+R[3] = v__3520038_37;
+R[4] = v__3520040_37;
+R[5] = v__3520042_37;
 saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519850_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3520043_37);
 return;
 }
 case 5:
 {
-Obj v__3520962_37= co->res;
-Obj v__3519848_37 = R[1];
-Obj v__3519458_37 = R[2];
-Obj v__3519845_37 = R[3];
-Obj v__3519847_37 = R[4];
-Obj v__3519849_37 = v__3520962_37;
-R[1] = v__3519458_37;
-R[2] = v__3519845_37;
-R[3] = v__3519847_37;
-R[4] = v__3519849_37;
+Obj v__3521155_37= co->res;
+Obj v__3520041_37 = R[1];
+Obj v__3519651_37 = R[2];
+Obj v__3520038_37 = R[3];
+Obj v__3520040_37 = R[4];
+Obj v__3520042_37 = v__3521155_37;
+R[1] = v__3519651_37;
+R[2] = v__3520038_37;
+R[3] = v__3520040_37;
+R[4] = v__3520042_37;
 saveCont(co, clofun79, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), v__3519845_37, v__3519848_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 60)), v__3520038_37, v__3520041_37);
 return;
 }
 case 6:
 {
-Obj v__3520961_37= co->res;
-Obj v__3519458_37 = R[1];
-Obj v__3519845_37 = R[2];
-Obj v__3519847_37 = R[3];
-Obj v__3519848_37 = v__3520961_37;
-R[1] = v__3519848_37;
-R[2] = v__3519458_37;
-R[3] = v__3519845_37;
-R[4] = v__3519847_37;
+Obj v__3521154_37= co->res;
+Obj v__3519651_37 = R[1];
+Obj v__3520038_37 = R[2];
+Obj v__3520040_37 = R[3];
+Obj v__3520041_37 = v__3521154_37;
+R[1] = v__3520041_37;
+R[2] = v__3519651_37;
+R[3] = v__3520038_37;
+R[4] = v__3520040_37;
 saveCont(co, clofun79, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519458_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), v__3519651_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4968,8 +4968,8 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520921_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3520921_37) {
+Obj v__3521114_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521114_37) {
 saveCont(co, clofun78, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 0));
 return;
@@ -4980,9 +4980,9 @@ return;
 }
 case 1:
 {
-Obj v__3520922_37= co->res;
+Obj v__3521115_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520922_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3521115_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4992,38 +4992,38 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519453_37 = R[1];
-R[1] = v__3519453_37;
+Obj v__3519646_37 = R[1];
+R[1] = v__3519646_37;
 saveCont(co, clofun77, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519453_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519646_37);
 return;
 }
 case 1:
 {
-Obj v__3520919_37= co->res;
-Obj v__3520918_37 = R[1];
+Obj v__3521112_37= co->res;
+Obj v__3521111_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun76, 2, 0), v__3520918_37, v__3520919_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), makeNative(co->gc, 3, clofun76, 2, 0), v__3521111_37, v__3521112_37);
 return;
 }
 case 2:
 {
-Obj v__3520913_37= co->res;
-Obj v__3519453_37 = R[1];
-Obj v__3519842_37 = v__3520913_37;
-Obj v__3520918_37 = PRIM_ADD(v__3519842_37, MAKE_NUMBER(1));
-R[1] = v__3520918_37;
+Obj v__3521106_37= co->res;
+Obj v__3519646_37 = R[1];
+Obj v__3520035_37 = v__3521106_37;
+Obj v__3521111_37 = PRIM_ADD(v__3520035_37, MAKE_NUMBER(1));
+R[1] = v__3521111_37;
 saveCont(co, clofun77, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519453_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519646_37);
 return;
 }
 case 3:
 {
-Obj v__3520912_37= co->res;
-Obj v__3519453_37 = R[1];
-R[1] = v__3519453_37;
+Obj v__3521105_37= co->res;
+Obj v__3519646_37 = R[1];
+R[1] = v__3519646_37;
 saveCont(co, clofun77, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3520912_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3521105_37);
 return;
 }
 }
@@ -5033,35 +5033,35 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519455_37 = R[1];
-Obj v__3519456_37 = R[2];
-R[1] = v__3519455_37;
+Obj v__3519648_37 = R[1];
+Obj v__3519649_37 = R[2];
+R[1] = v__3519648_37;
 saveCont(co, clofun76, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519456_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519649_37);
 return;
 }
 case 1:
 {
-Obj v__3520915_37= co->res;
-Obj v__3519455_37 = R[1];
-Obj v__3520916_37 = PRIM_ADD(v__3520915_37, MAKE_NUMBER(1));
-Obj v__3519843_37 = v__3520916_37;
-Obj v__3520917_37 = PRIM_GT(v__3519843_37, v__3519455_37);
-if (True == v__3520917_37) {
-coraReturn(co, v__3519843_37);
+Obj v__3521108_37= co->res;
+Obj v__3519648_37 = R[1];
+Obj v__3521109_37 = PRIM_ADD(v__3521108_37, MAKE_NUMBER(1));
+Obj v__3520036_37 = v__3521109_37;
+Obj v__3521110_37 = PRIM_GT(v__3520036_37, v__3519648_37);
+if (True == v__3521110_37) {
+coraReturn(co, v__3520036_37);
 return;
 } else {
-coraReturn(co, v__3519455_37);
+coraReturn(co, v__3519648_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520914_37= co->res;
-Obj v__3519455_37 = R[1];
-R[1] = v__3519455_37;
+Obj v__3521107_37= co->res;
+Obj v__3519648_37 = R[1];
+R[1] = v__3519648_37;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3520914_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3521107_37);
 return;
 }
 }
@@ -5071,10 +5071,10 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519449_37 = R[1];
-Obj v__3519450_37 = R[2];
+Obj v__3519642_37 = R[1];
+Obj v__3519643_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3519450_37, Nil, makeNative(co->gc, 3, clofun74, 2, 1, v__3519449_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3519643_37, Nil, makeNative(co->gc, 3, clofun74, 2, 1, v__3519642_37));
 return;
 }
 }
@@ -5084,21 +5084,21 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519451_37 = R[1];
-Obj v__3519452_37 = R[2];
-R[1] = v__3519451_37;
+Obj v__3519644_37 = R[1];
+Obj v__3519645_37 = R[2];
+R[1] = v__3519644_37;
 saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519452_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519645_37);
 return;
 }
 case 1:
 {
-Obj v__3520907_37= co->res;
-Obj v__3519451_37 = R[1];
-Obj v__3520908_37 = makeCons(co->gc, v__3519451_37, v__3520907_37);
-Obj v__3520909_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520908_37);
-Obj v__3520910_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520909_37);
-coraReturn(co, v__3520910_37);
+Obj v__3521100_37= co->res;
+Obj v__3519644_37 = R[1];
+Obj v__3521101_37 = makeCons(co->gc, v__3519644_37, v__3521100_37);
+Obj v__3521102_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521101_37);
+Obj v__3521103_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3521102_37);
+coraReturn(co, v__3521103_37);
 return;
 }
 }
@@ -5108,24 +5108,24 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519433_37 = R[1];
-Obj v__3519434_37 = R[2];
-Obj v__3519435_37 = R[3];
-Obj v__3519436_37 = R[4];
-Obj v__3520901_37 = PRIM_EQ(Nil, v__3519433_37);
-if (True == v__3520901_37) {
+Obj v__3519626_37 = R[1];
+Obj v__3519627_37 = R[2];
+Obj v__3519628_37 = R[3];
+Obj v__3519629_37 = R[4];
+Obj v__3521094_37 = PRIM_EQ(Nil, v__3519626_37);
+if (True == v__3521094_37) {
 co->ctx.sp = R;
-coraCall2(co, v__3519436_37, v__3519435_37, v__3519434_37);
+coraCall2(co, v__3519629_37, v__3519628_37, v__3519627_37);
 return;
 } else {
-Obj v__3520902_37 = PRIM_ISCONS(v__3519433_37);
-if (True == v__3520902_37) {
-Obj v__3520903_37 = PRIM_CAR(v__3519433_37);
-Obj v__3519840_37 = v__3520903_37;
-Obj v__3520904_37 = PRIM_CDR(v__3519433_37);
-Obj v__3519841_37 = v__3520904_37;
+Obj v__3521095_37 = PRIM_ISCONS(v__3519626_37);
+if (True == v__3521095_37) {
+Obj v__3521096_37 = PRIM_CAR(v__3519626_37);
+Obj v__3520033_37 = v__3521096_37;
+Obj v__3521097_37 = PRIM_CDR(v__3519626_37);
+Obj v__3520034_37 = v__3521097_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3519840_37, v__3519434_37, makeNative(co->gc, 3, clofun72, 2, 3, v__3519841_37, v__3519435_37, v__3519436_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3520033_37, v__3519627_37, makeNative(co->gc, 3, clofun72, 2, 3, v__3520034_37, v__3519628_37, v__3519629_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5141,10 +5141,10 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519445_37 = R[1];
-Obj v__3519446_37 = R[2];
+Obj v__3519638_37 = R[1];
+Obj v__3519639_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), v__3519446_37, closureRef(R[0], 1), makeNative(co->gc, 3, clofun71, 2, 2, closureRef(R[0], 2), v__3519445_37));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), closureRef(R[0], 0), v__3519639_37, closureRef(R[0], 1), makeNative(co->gc, 3, clofun71, 2, 2, closureRef(R[0], 2), v__3519638_37));
 return;
 }
 }
@@ -5154,11 +5154,11 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519447_37 = R[1];
-Obj v__3519448_37 = R[2];
-Obj v__3520905_37 = makeCons(co->gc, closureRef(R[0], 1), v__3519447_37);
+Obj v__3519640_37 = R[1];
+Obj v__3519641_37 = R[2];
+Obj v__3521098_37 = makeCons(co->gc, closureRef(R[0], 1), v__3519640_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3520905_37, v__3519448_37);
+coraCall2(co, closureRef(R[0], 0), v__3521098_37, v__3519641_37);
 return;
 }
 }
@@ -5168,33 +5168,33 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519414_37 = R[1];
-Obj v__3519415_37 = R[2];
-Obj v__3519416_37 = R[3];
-Obj v__3519833_37 = makeNative(co->gc, 2, clofun69, 1, 3, v__3519414_37, v__3519415_37, v__3519416_37);
-Obj v__3520898_37 = primIsSymbol(v__3519414_37);
-if (True == v__3520898_37) {
+Obj v__3519607_37 = R[1];
+Obj v__3519608_37 = R[2];
+Obj v__3519609_37 = R[3];
+Obj v__3520026_37 = makeNative(co->gc, 2, clofun69, 1, 3, v__3519607_37, v__3519608_37, v__3519609_37);
+Obj v__3521091_37 = primIsSymbol(v__3519607_37);
+if (True == v__3521091_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519833_37, True);
+coraCall1(co, v__3520026_37, True);
 return;
 } else {
-R[1] = v__3519833_37;
+R[1] = v__3520026_37;
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519414_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519607_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520899_37= co->res;
-Obj v__3519833_37 = R[1];
-if (True == v__3520899_37) {
+Obj v__3521092_37= co->res;
+Obj v__3520026_37 = R[1];
+if (True == v__3521092_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519833_37, True);
+coraCall1(co, v__3520026_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519833_37, False);
+coraCall1(co, v__3520026_37, False);
 return;
 }
 }
@@ -5205,63 +5205,63 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519832_37 = R[1];
-if (True == v__3519832_37) {
+Obj v__3520025_37 = R[1];
+if (True == v__3520025_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3519834_37 = makeNative(co->gc, 1, clofun67, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520874_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520874_37) {
-Obj v__3520875_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520876_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520875_37);
-if (True == v__3520876_37) {
-Obj v__3520877_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520878_37 = PRIM_ISCONS(v__3520877_37);
-if (True == v__3520878_37) {
-Obj v__3520879_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520880_37 = PRIM_CAR(v__3520879_37);
-Obj v__3519837_37 = v__3520880_37;
-Obj v__3520881_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520882_37 = PRIM_CDR(v__3520881_37);
-Obj v__3520883_37 = PRIM_ISCONS(v__3520882_37);
-if (True == v__3520883_37) {
-Obj v__3520884_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520885_37 = PRIM_CDR(v__3520884_37);
-Obj v__3520886_37 = PRIM_CAR(v__3520885_37);
-Obj v__3519838_37 = v__3520886_37;
-Obj v__3520887_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520888_37 = PRIM_CDR(v__3520887_37);
-Obj v__3520889_37 = PRIM_CDR(v__3520888_37);
-Obj v__3520890_37 = PRIM_EQ(Nil, v__3520889_37);
-if (True == v__3520890_37) {
+Obj v__3520027_37 = makeNative(co->gc, 1, clofun67, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3521067_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521067_37) {
+Obj v__3521068_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521069_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3521068_37);
+if (True == v__3521069_37) {
+Obj v__3521070_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521071_37 = PRIM_ISCONS(v__3521070_37);
+if (True == v__3521071_37) {
+Obj v__3521072_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521073_37 = PRIM_CAR(v__3521072_37);
+Obj v__3520030_37 = v__3521073_37;
+Obj v__3521074_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521075_37 = PRIM_CDR(v__3521074_37);
+Obj v__3521076_37 = PRIM_ISCONS(v__3521075_37);
+if (True == v__3521076_37) {
+Obj v__3521077_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521078_37 = PRIM_CDR(v__3521077_37);
+Obj v__3521079_37 = PRIM_CAR(v__3521078_37);
+Obj v__3520031_37 = v__3521079_37;
+Obj v__3521080_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521081_37 = PRIM_CDR(v__3521080_37);
+Obj v__3521082_37 = PRIM_CDR(v__3521081_37);
+Obj v__3521083_37 = PRIM_EQ(Nil, v__3521082_37);
+if (True == v__3521083_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3519838_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun68, 2, 2, closureRef(R[0], 2), v__3519837_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 63)), v__3520031_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun68, 2, 2, closureRef(R[0], 2), v__3520030_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519834_37);
+coraCall0(co, v__3520027_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519834_37);
+coraCall0(co, v__3520027_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519834_37);
+coraCall0(co, v__3520027_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519834_37);
+coraCall0(co, v__3520027_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519834_37);
+coraCall0(co, v__3520027_37);
 return;
 }
 }
@@ -5273,40 +5273,40 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519430_37 = R[1];
-Obj v__3519431_37 = R[2];
-R[1] = v__3519430_37;
-R[2] = v__3519431_37;
+Obj v__3519623_37 = R[1];
+Obj v__3519624_37 = R[2];
+R[1] = v__3519623_37;
+R[2] = v__3519624_37;
 saveCont(co, clofun68, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519430_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 61)), v__3519623_37);
 return;
 }
 case 1:
 {
-Obj v__3520892_37= co->res;
-Obj v__3519839_37 = R[1];
-Obj v__3519430_37 = R[2];
-Obj v__3519431_37 = R[3];
-Obj v__3520893_37 = PRIM_ADD(v__3520892_37, MAKE_NUMBER(1));
-Obj v__3520894_37 = makeCons(co->gc, v__3520893_37, v__3519839_37);
-Obj v__3520895_37 = makeCons(co->gc, closureRef(R[0], 1), v__3520894_37);
-Obj v__3520896_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520895_37);
-Obj v__3520897_37 = makeCons(co->gc, v__3519430_37, v__3519431_37);
+Obj v__3521085_37= co->res;
+Obj v__3520032_37 = R[1];
+Obj v__3519623_37 = R[2];
+Obj v__3519624_37 = R[3];
+Obj v__3521086_37 = PRIM_ADD(v__3521085_37, MAKE_NUMBER(1));
+Obj v__3521087_37 = makeCons(co->gc, v__3521086_37, v__3520032_37);
+Obj v__3521088_37 = makeCons(co->gc, closureRef(R[0], 1), v__3521087_37);
+Obj v__3521089_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3521088_37);
+Obj v__3521090_37 = makeCons(co->gc, v__3519623_37, v__3519624_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3520896_37, v__3520897_37);
+coraCall2(co, closureRef(R[0], 0), v__3521089_37, v__3521090_37);
 return;
 }
 case 2:
 {
-Obj v__3520891_37= co->res;
-Obj v__3519430_37 = R[1];
-Obj v__3519431_37 = R[2];
-Obj v__3519839_37 = v__3520891_37;
-R[1] = v__3519839_37;
-R[2] = v__3519430_37;
-R[3] = v__3519431_37;
+Obj v__3521084_37= co->res;
+Obj v__3519623_37 = R[1];
+Obj v__3519624_37 = R[2];
+Obj v__3520032_37 = v__3521084_37;
+R[1] = v__3520032_37;
+R[2] = v__3519623_37;
+R[3] = v__3519624_37;
 saveCont(co, clofun68, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519431_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519624_37);
 return;
 }
 }
@@ -5316,15 +5316,15 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520870_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520870_37) {
-Obj v__3520871_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519835_37 = v__3520871_37;
-Obj v__3520872_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519836_37 = v__3520872_37;
-Obj v__3520873_37 = makeCons(co->gc, v__3519835_37, v__3519836_37);
+Obj v__3521063_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521063_37) {
+Obj v__3521064_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520028_37 = v__3521064_37;
+Obj v__3521065_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520029_37 = v__3521065_37;
+Obj v__3521066_37 = makeCons(co->gc, v__3520028_37, v__3520029_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), v__3520873_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 62)), v__3521066_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5339,90 +5339,90 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519373_37 = R[1];
-Obj v__3519374_37 = R[2];
-R[1] = v__3519374_37;
-R[2] = v__3519373_37;
+Obj v__3519566_37 = R[1];
+Obj v__3519567_37 = R[2];
+R[1] = v__3519567_37;
+R[2] = v__3519566_37;
 saveCont(co, clofun66, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519374_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519567_37);
 return;
 }
 case 1:
 {
-Obj v__3520865_37= co->res;
-Obj v__3519829_37 = R[1];
-Obj v__3520866_37 = makeCons(co->gc, v__3520865_37, Nil);
-Obj v__3520867_37 = makeCons(co->gc, v__3519829_37, v__3520866_37);
-Obj v__3520868_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520867_37);
-coraReturn(co, v__3520868_37);
+Obj v__3521058_37= co->res;
+Obj v__3520022_37 = R[1];
+Obj v__3521059_37 = makeCons(co->gc, v__3521058_37, Nil);
+Obj v__3521060_37 = makeCons(co->gc, v__3520022_37, v__3521059_37);
+Obj v__3521061_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3521060_37);
+coraReturn(co, v__3521061_37);
 return;
 }
 case 2:
 {
-Obj v__3520793_37= co->res;
-Obj v__3519374_37 = R[1];
-Obj v__3519373_37 = R[2];
-if (True == v__3520793_37) {
-coraReturn(co, v__3519374_37);
-return;
-} else {
-Obj v__3520794_37 = primIsSymbol(v__3519374_37);
-if (True == v__3520794_37) {
-coraReturn(co, v__3519374_37);
-return;
-} else {
-Obj v__3519818_37 = makeNative(co->gc, 4, clofun65, 0, 2, v__3519374_37, v__3519373_37);
-Obj v__3520848_37 = PRIM_ISCONS(v__3519374_37);
-if (True == v__3520848_37) {
-Obj v__3520849_37 = PRIM_CAR(v__3519374_37);
-Obj v__3520850_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520849_37);
-if (True == v__3520850_37) {
-Obj v__3520851_37 = PRIM_CDR(v__3519374_37);
-Obj v__3520852_37 = PRIM_ISCONS(v__3520851_37);
-if (True == v__3520852_37) {
-Obj v__3520853_37 = PRIM_CDR(v__3519374_37);
-Obj v__3520854_37 = PRIM_CAR(v__3520853_37);
-Obj v__3519829_37 = v__3520854_37;
-Obj v__3520855_37 = PRIM_CDR(v__3519374_37);
-Obj v__3520856_37 = PRIM_CDR(v__3520855_37);
-Obj v__3520857_37 = PRIM_ISCONS(v__3520856_37);
-if (True == v__3520857_37) {
-Obj v__3520858_37 = PRIM_CDR(v__3519374_37);
-Obj v__3520859_37 = PRIM_CDR(v__3520858_37);
-Obj v__3520860_37 = PRIM_CAR(v__3520859_37);
-Obj v__3519830_37 = v__3520860_37;
-Obj v__3520861_37 = PRIM_CDR(v__3519374_37);
-Obj v__3520862_37 = PRIM_CDR(v__3520861_37);
-Obj v__3520863_37 = PRIM_CDR(v__3520862_37);
-Obj v__3520864_37 = PRIM_EQ(Nil, v__3520863_37);
-if (True == v__3520864_37) {
-R[1] = v__3519829_37;
+Obj v__3520986_37= co->res;
+Obj v__3519567_37 = R[1];
+Obj v__3519566_37 = R[2];
+if (True == v__3520986_37) {
+coraReturn(co, v__3519567_37);
+return;
+} else {
+Obj v__3520987_37 = primIsSymbol(v__3519567_37);
+if (True == v__3520987_37) {
+coraReturn(co, v__3519567_37);
+return;
+} else {
+Obj v__3520011_37 = makeNative(co->gc, 4, clofun65, 0, 2, v__3519567_37, v__3519566_37);
+Obj v__3521041_37 = PRIM_ISCONS(v__3519567_37);
+if (True == v__3521041_37) {
+Obj v__3521042_37 = PRIM_CAR(v__3519567_37);
+Obj v__3521043_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3521042_37);
+if (True == v__3521043_37) {
+Obj v__3521044_37 = PRIM_CDR(v__3519567_37);
+Obj v__3521045_37 = PRIM_ISCONS(v__3521044_37);
+if (True == v__3521045_37) {
+Obj v__3521046_37 = PRIM_CDR(v__3519567_37);
+Obj v__3521047_37 = PRIM_CAR(v__3521046_37);
+Obj v__3520022_37 = v__3521047_37;
+Obj v__3521048_37 = PRIM_CDR(v__3519567_37);
+Obj v__3521049_37 = PRIM_CDR(v__3521048_37);
+Obj v__3521050_37 = PRIM_ISCONS(v__3521049_37);
+if (True == v__3521050_37) {
+Obj v__3521051_37 = PRIM_CDR(v__3519567_37);
+Obj v__3521052_37 = PRIM_CDR(v__3521051_37);
+Obj v__3521053_37 = PRIM_CAR(v__3521052_37);
+Obj v__3520023_37 = v__3521053_37;
+Obj v__3521054_37 = PRIM_CDR(v__3519567_37);
+Obj v__3521055_37 = PRIM_CDR(v__3521054_37);
+Obj v__3521056_37 = PRIM_CDR(v__3521055_37);
+Obj v__3521057_37 = PRIM_EQ(Nil, v__3521056_37);
+if (True == v__3521057_37) {
+R[1] = v__3520022_37;
 saveCont(co, clofun66, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3519373_37, v__3519830_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3519566_37, v__3520023_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 }
@@ -5435,121 +5435,121 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519819_37 = makeNative(co->gc, 3, clofun64, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520823_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520823_37) {
-Obj v__3520824_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520825_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520824_37);
-if (True == v__3520825_37) {
-Obj v__3520826_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520827_37 = PRIM_ISCONS(v__3520826_37);
-if (True == v__3520827_37) {
-Obj v__3520828_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520829_37 = PRIM_CAR(v__3520828_37);
-Obj v__3519825_37 = v__3520829_37;
-Obj v__3520830_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520831_37 = PRIM_CDR(v__3520830_37);
-Obj v__3520832_37 = PRIM_ISCONS(v__3520831_37);
-if (True == v__3520832_37) {
-Obj v__3520833_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520834_37 = PRIM_CDR(v__3520833_37);
-Obj v__3520835_37 = PRIM_CAR(v__3520834_37);
-Obj v__3519826_37 = v__3520835_37;
-Obj v__3520836_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520837_37 = PRIM_CDR(v__3520836_37);
-Obj v__3520838_37 = PRIM_CDR(v__3520837_37);
-Obj v__3520839_37 = PRIM_EQ(Nil, v__3520838_37);
-if (True == v__3520839_37) {
-R[1] = v__3519826_37;
-R[2] = v__3519825_37;
+Obj v__3520012_37 = makeNative(co->gc, 3, clofun64, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521016_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521016_37) {
+Obj v__3521017_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521018_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521017_37);
+if (True == v__3521018_37) {
+Obj v__3521019_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521020_37 = PRIM_ISCONS(v__3521019_37);
+if (True == v__3521020_37) {
+Obj v__3521021_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521022_37 = PRIM_CAR(v__3521021_37);
+Obj v__3520018_37 = v__3521022_37;
+Obj v__3521023_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521024_37 = PRIM_CDR(v__3521023_37);
+Obj v__3521025_37 = PRIM_ISCONS(v__3521024_37);
+if (True == v__3521025_37) {
+Obj v__3521026_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521027_37 = PRIM_CDR(v__3521026_37);
+Obj v__3521028_37 = PRIM_CAR(v__3521027_37);
+Obj v__3520019_37 = v__3521028_37;
+Obj v__3521029_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521030_37 = PRIM_CDR(v__3521029_37);
+Obj v__3521031_37 = PRIM_CDR(v__3521030_37);
+Obj v__3521032_37 = PRIM_EQ(Nil, v__3521031_37);
+if (True == v__3521032_37) {
+R[1] = v__3520019_37;
+R[2] = v__3520018_37;
 saveCont(co, clofun65, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519826_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3520019_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520844_37= co->res;
-Obj v__3519828_37 = R[1];
-Obj v__3519825_37 = R[2];
-Obj v__3520845_37 = makeCons(co->gc, v__3520844_37, v__3519828_37);
-Obj v__3520846_37 = makeCons(co->gc, v__3519825_37, v__3520845_37);
-Obj v__3520847_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3520846_37);
-coraReturn(co, v__3520847_37);
+Obj v__3521037_37= co->res;
+Obj v__3520021_37 = R[1];
+Obj v__3520018_37 = R[2];
+Obj v__3521038_37 = makeCons(co->gc, v__3521037_37, v__3520021_37);
+Obj v__3521039_37 = makeCons(co->gc, v__3520018_37, v__3521038_37);
+Obj v__3521040_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3521039_37);
+coraReturn(co, v__3521040_37);
 return;
 }
 case 2:
 {
-Obj v__3520843_37= co->res;
-Obj v__3519827_37 = R[1];
-Obj v__3519826_37 = R[2];
-Obj v__3519825_37 = R[3];
-Obj v__3519828_37 = v__3520843_37;
-R[1] = v__3519828_37;
-R[2] = v__3519825_37;
+Obj v__3521036_37= co->res;
+Obj v__3520020_37 = R[1];
+Obj v__3520019_37 = R[2];
+Obj v__3520018_37 = R[3];
+Obj v__3520021_37 = v__3521036_37;
+R[1] = v__3520021_37;
+R[2] = v__3520018_37;
 saveCont(co, clofun65, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3519827_37, v__3519826_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), v__3520020_37, v__3520019_37);
 return;
 }
 case 3:
 {
-Obj v__3520842_37= co->res;
-Obj v__3519827_37 = R[1];
-Obj v__3519826_37 = R[2];
-Obj v__3519825_37 = R[3];
-R[1] = v__3519827_37;
-R[2] = v__3519826_37;
-R[3] = v__3519825_37;
+Obj v__3521035_37= co->res;
+Obj v__3520020_37 = R[1];
+Obj v__3520019_37 = R[2];
+Obj v__3520018_37 = R[3];
+R[1] = v__3520020_37;
+R[2] = v__3520019_37;
+R[3] = v__3520018_37;
 saveCont(co, clofun65, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520842_37, v__3519827_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3521035_37, v__3520020_37);
 return;
 }
 case 4:
 {
-Obj v__3520841_37= co->res;
-Obj v__3519826_37 = R[1];
-Obj v__3519825_37 = R[2];
-Obj v__3519827_37 = v__3520841_37;
-R[1] = v__3519827_37;
-R[2] = v__3519826_37;
-R[3] = v__3519825_37;
+Obj v__3521034_37= co->res;
+Obj v__3520019_37 = R[1];
+Obj v__3520018_37 = R[2];
+Obj v__3520020_37 = v__3521034_37;
+R[1] = v__3520020_37;
+R[2] = v__3520019_37;
+R[3] = v__3520018_37;
 saveCont(co, clofun65, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v__3520840_37= co->res;
-Obj v__3519826_37 = R[1];
-Obj v__3519825_37 = R[2];
-R[1] = v__3519826_37;
-R[2] = v__3519825_37;
+Obj v__3521033_37= co->res;
+Obj v__3520019_37 = R[1];
+Obj v__3520018_37 = R[2];
+R[1] = v__3520019_37;
+R[2] = v__3520018_37;
 saveCont(co, clofun65, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520840_37, v__3519825_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3521033_37, v__3520018_37);
 return;
 }
 }
@@ -5559,89 +5559,89 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519820_37 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520800_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520800_37) {
-Obj v__3520801_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520802_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520801_37);
-if (True == v__3520802_37) {
-Obj v__3520803_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520804_37 = PRIM_ISCONS(v__3520803_37);
-if (True == v__3520804_37) {
-Obj v__3520805_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520806_37 = PRIM_CAR(v__3520805_37);
-Obj v__3519823_37 = v__3520806_37;
-Obj v__3520807_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520808_37 = PRIM_CDR(v__3520807_37);
-Obj v__3520809_37 = PRIM_ISCONS(v__3520808_37);
-if (True == v__3520809_37) {
-Obj v__3520810_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520811_37 = PRIM_CDR(v__3520810_37);
-Obj v__3520812_37 = PRIM_CAR(v__3520811_37);
-Obj v__3519824_37 = v__3520812_37;
-Obj v__3520813_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520814_37 = PRIM_CDR(v__3520813_37);
-Obj v__3520815_37 = PRIM_CDR(v__3520814_37);
-Obj v__3520816_37 = PRIM_EQ(Nil, v__3520815_37);
-if (True == v__3520816_37) {
-R[1] = v__3519823_37;
-R[2] = v__3519824_37;
+Obj v__3520013_37 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520993_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520993_37) {
+Obj v__3520994_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520995_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520994_37);
+if (True == v__3520995_37) {
+Obj v__3520996_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520997_37 = PRIM_ISCONS(v__3520996_37);
+if (True == v__3520997_37) {
+Obj v__3520998_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520999_37 = PRIM_CAR(v__3520998_37);
+Obj v__3520016_37 = v__3520999_37;
+Obj v__3521000_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521001_37 = PRIM_CDR(v__3521000_37);
+Obj v__3521002_37 = PRIM_ISCONS(v__3521001_37);
+if (True == v__3521002_37) {
+Obj v__3521003_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521004_37 = PRIM_CDR(v__3521003_37);
+Obj v__3521005_37 = PRIM_CAR(v__3521004_37);
+Obj v__3520017_37 = v__3521005_37;
+Obj v__3521006_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521007_37 = PRIM_CDR(v__3521006_37);
+Obj v__3521008_37 = PRIM_CDR(v__3521007_37);
+Obj v__3521009_37 = PRIM_EQ(Nil, v__3521008_37);
+if (True == v__3521009_37) {
+R[1] = v__3520016_37;
+R[2] = v__3520017_37;
 saveCont(co, clofun64, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519820_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519820_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519820_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519820_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519820_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520819_37= co->res;
-Obj v__3520818_37 = R[1];
-Obj v__3520820_37 = makeCons(co->gc, v__3520819_37, Nil);
-Obj v__3520821_37 = makeCons(co->gc, v__3520818_37, v__3520820_37);
-Obj v__3520822_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520821_37);
-coraReturn(co, v__3520822_37);
+Obj v__3521012_37= co->res;
+Obj v__3521011_37 = R[1];
+Obj v__3521013_37 = makeCons(co->gc, v__3521012_37, Nil);
+Obj v__3521014_37 = makeCons(co->gc, v__3521011_37, v__3521013_37);
+Obj v__3521015_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3521014_37);
+coraReturn(co, v__3521015_37);
 return;
 }
 case 2:
 {
-Obj v__3520818_37= co->res;
-Obj v__3519824_37 = R[1];
-R[1] = v__3520818_37;
+Obj v__3521011_37= co->res;
+Obj v__3520017_37 = R[1];
+R[1] = v__3521011_37;
 saveCont(co, clofun64, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), v__3519824_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1), v__3520017_37);
 return;
 }
 case 3:
 {
-Obj v__3520817_37= co->res;
-Obj v__3519823_37 = R[1];
-Obj v__3519824_37 = R[2];
-R[1] = v__3519824_37;
+Obj v__3521010_37= co->res;
+Obj v__3520016_37 = R[1];
+Obj v__3520017_37 = R[2];
+R[1] = v__3520017_37;
 saveCont(co, clofun64, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520817_37, v__3519823_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3521010_37, v__3520016_37);
 return;
 }
 }
@@ -5651,14 +5651,14 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520795_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520795_37) {
-Obj v__3520796_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519821_37 = v__3520796_37;
-Obj v__3520797_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519822_37 = v__3520797_37;
-R[1] = v__3519821_37;
-R[2] = v__3519822_37;
+Obj v__3520988_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520988_37) {
+Obj v__3520989_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520014_37 = v__3520989_37;
+Obj v__3520990_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520015_37 = v__3520990_37;
+R[1] = v__3520014_37;
+R[2] = v__3520015_37;
 saveCont(co, clofun63, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), closureRef(R[0], 1));
 return;
@@ -5670,12 +5670,12 @@ return;
 }
 case 1:
 {
-Obj v__3520798_37= co->res;
-Obj v__3519821_37 = R[1];
-Obj v__3519822_37 = R[2];
-Obj v__3520799_37 = makeCons(co->gc, v__3519821_37, v__3519822_37);
+Obj v__3520991_37= co->res;
+Obj v__3520014_37 = R[1];
+Obj v__3520015_37 = R[2];
+Obj v__3520992_37 = makeCons(co->gc, v__3520014_37, v__3520015_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520798_37, v__3520799_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520991_37, v__3520992_37);
 return;
 }
 }
@@ -5685,24 +5685,24 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519362_37 = R[1];
-Obj v__3519363_37 = R[2];
-Obj v__3519364_37 = R[3];
-Obj v__3520770_37 = PRIM_EQ(Nil, v__3519362_37);
-if (True == v__3520770_37) {
-R[1] = v__3519364_37;
+Obj v__3519555_37 = R[1];
+Obj v__3519556_37 = R[2];
+Obj v__3519557_37 = R[3];
+Obj v__3520963_37 = PRIM_EQ(Nil, v__3519555_37);
+if (True == v__3520963_37) {
+R[1] = v__3519557_37;
 saveCont(co, clofun62, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519363_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 69)), v__3519556_37);
 return;
 } else {
-Obj v__3520788_37 = PRIM_ISCONS(v__3519362_37);
-if (True == v__3520788_37) {
-Obj v__3520789_37 = PRIM_CAR(v__3519362_37);
-Obj v__3519816_37 = v__3520789_37;
-Obj v__3520790_37 = PRIM_CDR(v__3519362_37);
-Obj v__3519817_37 = v__3520790_37;
+Obj v__3520981_37 = PRIM_ISCONS(v__3519555_37);
+if (True == v__3520981_37) {
+Obj v__3520982_37 = PRIM_CAR(v__3519555_37);
+Obj v__3520009_37 = v__3520982_37;
+Obj v__3520983_37 = PRIM_CDR(v__3519555_37);
+Obj v__3520010_37 = v__3520983_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519816_37, makeNative(co->gc, 2, clofun61, 1, 3, v__3519817_37, v__3519363_37, v__3519364_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3520009_37, makeNative(co->gc, 2, clofun61, 1, 3, v__3520010_37, v__3519556_37, v__3519557_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5713,46 +5713,46 @@ return;
 }
 case 1:
 {
-Obj v__3520786_37= co->res;
-Obj v__3519814_37 = R[1];
-Obj v__3520787_37 = PRIM_EQ(v__3520786_37, getBinding(co, packageID, 92).name);
-if (True == v__3520787_37) {
+Obj v__3520979_37= co->res;
+Obj v__3520007_37 = R[1];
+Obj v__3520980_37 = PRIM_EQ(v__3520979_37, getBinding(co, packageID, 92).name);
+if (True == v__3520980_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519814_37, True);
+coraCall1(co, v__3520007_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519814_37, False);
+coraCall1(co, v__3520007_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3520785_37= co->res;
-Obj v__3519811_37 = R[1];
-Obj v__3519814_37 = R[2];
-if (True == v__3520785_37) {
-R[1] = v__3519814_37;
+Obj v__3520978_37= co->res;
+Obj v__3520004_37 = R[1];
+Obj v__3520007_37 = R[2];
+if (True == v__3520978_37) {
+R[1] = v__3520007_37;
 saveCont(co, clofun62, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3519811_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), v__3520004_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519814_37, False);
+coraCall1(co, v__3520007_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3520771_37= co->res;
-Obj v__3519364_37 = R[1];
-Obj v__3519811_37 = v__3520771_37;
-Obj v__3519814_37 = makeNative(co->gc, 2, clofun60, 1, 2, v__3519811_37, v__3519364_37);
-Obj v__3520784_37 = PRIM_CAR(v__3519811_37);
-R[1] = v__3519811_37;
-R[2] = v__3519814_37;
+Obj v__3520964_37= co->res;
+Obj v__3519557_37 = R[1];
+Obj v__3520004_37 = v__3520964_37;
+Obj v__3520007_37 = makeNative(co->gc, 2, clofun60, 1, 2, v__3520004_37, v__3519557_37);
+Obj v__3520977_37 = PRIM_CAR(v__3520004_37);
+R[1] = v__3520004_37;
+R[2] = v__3520007_37;
 saveCont(co, clofun62, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3520784_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3520977_37);
 return;
 }
 }
@@ -5762,10 +5762,10 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519372_37 = R[1];
-Obj v__3520791_37 = makeCons(co->gc, v__3519372_37, closureRef(R[0], 1));
+Obj v__3519565_37 = R[1];
+Obj v__3520984_37 = makeCons(co->gc, v__3519565_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), v__3520791_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), v__3520984_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5775,40 +5775,40 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519813_37 = R[1];
-if (True == v__3519813_37) {
+Obj v__3520006_37 = R[1];
+if (True == v__3520006_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3520772_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
-if (True == v__3520772_37) {
-Obj v__3520773_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3520774_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3520773_37);
-coraReturn(co, v__3520774_37);
+Obj v__3520965_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 72)));
+if (True == v__3520965_37) {
+Obj v__3520966_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520967_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3520966_37);
+coraReturn(co, v__3520967_37);
 return;
 } else {
-Obj v__3520775_37 = primGenSym(co);
-Obj v__3519815_37 = v__3520775_37;
-Obj v__3520776_37 = makeCons(co->gc, v__3519815_37, Nil);
-R[1] = v__3520776_37;
+Obj v__3520968_37 = primGenSym(co);
+Obj v__3520008_37 = v__3520968_37;
+Obj v__3520969_37 = makeCons(co->gc, v__3520008_37, Nil);
+R[1] = v__3520969_37;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3519815_37);
+coraCall1(co, closureRef(R[0], 1), v__3520008_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520777_37= co->res;
-Obj v__3520776_37 = R[1];
-Obj v__3520778_37 = makeCons(co->gc, v__3520777_37, Nil);
-Obj v__3520779_37 = makeCons(co->gc, v__3520776_37, v__3520778_37);
-Obj v__3520780_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520779_37);
-Obj v__3520781_37 = makeCons(co->gc, v__3520780_37, Nil);
-Obj v__3520782_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520781_37);
-Obj v__3520783_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520782_37);
-coraReturn(co, v__3520783_37);
+Obj v__3520970_37= co->res;
+Obj v__3520969_37 = R[1];
+Obj v__3520971_37 = makeCons(co->gc, v__3520970_37, Nil);
+Obj v__3520972_37 = makeCons(co->gc, v__3520969_37, v__3520971_37);
+Obj v__3520973_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520972_37);
+Obj v__3520974_37 = makeCons(co->gc, v__3520973_37, Nil);
+Obj v__3520975_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520974_37);
+Obj v__3520976_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520975_37);
+coraReturn(co, v__3520976_37);
 return;
 }
 }
@@ -5818,32 +5818,32 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519300_37 = R[1];
-Obj v__3519301_37 = R[2];
-Obj v__3519793_37 = makeNative(co->gc, 2, clofun58, 1, 2, v__3519300_37, v__3519301_37);
-Obj v__3520767_37 = primIsSymbol(v__3519300_37);
-if (True == v__3520767_37) {
+Obj v__3519493_37 = R[1];
+Obj v__3519494_37 = R[2];
+Obj v__3519986_37 = makeNative(co->gc, 2, clofun58, 1, 2, v__3519493_37, v__3519494_37);
+Obj v__3520960_37 = primIsSymbol(v__3519493_37);
+if (True == v__3520960_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519793_37, True);
+coraCall1(co, v__3519986_37, True);
 return;
 } else {
-R[1] = v__3519793_37;
+R[1] = v__3519986_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519300_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519493_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520768_37= co->res;
-Obj v__3519793_37 = R[1];
-if (True == v__3520768_37) {
+Obj v__3520961_37= co->res;
+Obj v__3519986_37 = R[1];
+if (True == v__3520961_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519793_37, True);
+coraCall1(co, v__3519986_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519793_37, False);
+coraCall1(co, v__3519986_37, False);
 return;
 }
 }
@@ -5854,8 +5854,8 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519792_37 = R[1];
-if (True == v__3519792_37) {
+Obj v__3519985_37 = R[1];
+if (True == v__3519985_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5867,78 +5867,78 @@ return;
 }
 case 1:
 {
-Obj v__3520633_37= co->res;
-if (True == v__3520633_37) {
+Obj v__3520826_37= co->res;
+if (True == v__3520826_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v__3519794_37 = makeNative(co->gc, 1, clofun56, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520735_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520735_37) {
-Obj v__3520736_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520737_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520736_37);
-if (True == v__3520737_37) {
-Obj v__3520738_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520739_37 = PRIM_ISCONS(v__3520738_37);
-if (True == v__3520739_37) {
-Obj v__3520740_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520741_37 = PRIM_CAR(v__3520740_37);
-Obj v__3519808_37 = v__3520741_37;
-Obj v__3520742_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520743_37 = PRIM_CDR(v__3520742_37);
-Obj v__3520744_37 = PRIM_ISCONS(v__3520743_37);
-if (True == v__3520744_37) {
-Obj v__3520745_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520746_37 = PRIM_CDR(v__3520745_37);
-Obj v__3520747_37 = PRIM_CAR(v__3520746_37);
-Obj v__3519809_37 = v__3520747_37;
-Obj v__3520748_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520749_37 = PRIM_CDR(v__3520748_37);
-Obj v__3520750_37 = PRIM_CDR(v__3520749_37);
-Obj v__3520751_37 = PRIM_ISCONS(v__3520750_37);
-if (True == v__3520751_37) {
-Obj v__3520752_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520753_37 = PRIM_CDR(v__3520752_37);
-Obj v__3520754_37 = PRIM_CDR(v__3520753_37);
-Obj v__3520755_37 = PRIM_CAR(v__3520754_37);
-Obj v__3519810_37 = v__3520755_37;
-Obj v__3520756_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520757_37 = PRIM_CDR(v__3520756_37);
-Obj v__3520758_37 = PRIM_CDR(v__3520757_37);
-Obj v__3520759_37 = PRIM_CDR(v__3520758_37);
-Obj v__3520760_37 = PRIM_EQ(Nil, v__3520759_37);
-if (True == v__3520760_37) {
+Obj v__3519987_37 = makeNative(co->gc, 1, clofun56, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520928_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520928_37) {
+Obj v__3520929_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520930_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520929_37);
+if (True == v__3520930_37) {
+Obj v__3520931_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520932_37 = PRIM_ISCONS(v__3520931_37);
+if (True == v__3520932_37) {
+Obj v__3520933_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520934_37 = PRIM_CAR(v__3520933_37);
+Obj v__3520001_37 = v__3520934_37;
+Obj v__3520935_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520936_37 = PRIM_CDR(v__3520935_37);
+Obj v__3520937_37 = PRIM_ISCONS(v__3520936_37);
+if (True == v__3520937_37) {
+Obj v__3520938_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520939_37 = PRIM_CDR(v__3520938_37);
+Obj v__3520940_37 = PRIM_CAR(v__3520939_37);
+Obj v__3520002_37 = v__3520940_37;
+Obj v__3520941_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520942_37 = PRIM_CDR(v__3520941_37);
+Obj v__3520943_37 = PRIM_CDR(v__3520942_37);
+Obj v__3520944_37 = PRIM_ISCONS(v__3520943_37);
+if (True == v__3520944_37) {
+Obj v__3520945_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520946_37 = PRIM_CDR(v__3520945_37);
+Obj v__3520947_37 = PRIM_CDR(v__3520946_37);
+Obj v__3520948_37 = PRIM_CAR(v__3520947_37);
+Obj v__3520003_37 = v__3520948_37;
+Obj v__3520949_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520950_37 = PRIM_CDR(v__3520949_37);
+Obj v__3520951_37 = PRIM_CDR(v__3520950_37);
+Obj v__3520952_37 = PRIM_CDR(v__3520951_37);
+Obj v__3520953_37 = PRIM_EQ(Nil, v__3520952_37);
+if (True == v__3520953_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519808_37, makeNative(co->gc, 3, clofun57, 1, 3, v__3519809_37, v__3519810_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3520001_37, makeNative(co->gc, 3, clofun57, 1, 3, v__3520002_37, v__3520003_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519794_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519794_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519794_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519794_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519794_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519794_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 }
@@ -5950,30 +5950,30 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519361_37 = R[1];
-R[1] = v__3519361_37;
+Obj v__3519554_37 = R[1];
+R[1] = v__3519554_37;
 saveCont(co, clofun57, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3520762_37= co->res;
-Obj v__3520761_37 = R[1];
-Obj v__3519361_37 = R[2];
-Obj v__3520763_37 = makeCons(co->gc, v__3520762_37, Nil);
-Obj v__3520764_37 = makeCons(co->gc, v__3520761_37, v__3520763_37);
-Obj v__3520765_37 = makeCons(co->gc, v__3519361_37, v__3520764_37);
-Obj v__3520766_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520765_37);
-coraReturn(co, v__3520766_37);
+Obj v__3520955_37= co->res;
+Obj v__3520954_37 = R[1];
+Obj v__3519554_37 = R[2];
+Obj v__3520956_37 = makeCons(co->gc, v__3520955_37, Nil);
+Obj v__3520957_37 = makeCons(co->gc, v__3520954_37, v__3520956_37);
+Obj v__3520958_37 = makeCons(co->gc, v__3519554_37, v__3520957_37);
+Obj v__3520959_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520958_37);
+coraReturn(co, v__3520959_37);
 return;
 }
 case 2:
 {
-Obj v__3520761_37= co->res;
-Obj v__3519361_37 = R[1];
-R[1] = v__3520761_37;
-R[2] = v__3519361_37;
+Obj v__3520954_37= co->res;
+Obj v__3519554_37 = R[1];
+R[1] = v__3520954_37;
+R[2] = v__3519554_37;
 saveCont(co, clofun57, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
@@ -5985,57 +5985,57 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519795_37 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520713_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520713_37) {
-Obj v__3520714_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520715_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520714_37);
-if (True == v__3520715_37) {
-Obj v__3520716_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520717_37 = PRIM_ISCONS(v__3520716_37);
-if (True == v__3520717_37) {
-Obj v__3520718_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520719_37 = PRIM_CAR(v__3520718_37);
-Obj v__3519806_37 = v__3520719_37;
-Obj v__3520720_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520721_37 = PRIM_CDR(v__3520720_37);
-Obj v__3520722_37 = PRIM_ISCONS(v__3520721_37);
-if (True == v__3520722_37) {
-Obj v__3520723_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520724_37 = PRIM_CDR(v__3520723_37);
-Obj v__3520725_37 = PRIM_CAR(v__3520724_37);
-Obj v__3519807_37 = v__3520725_37;
-Obj v__3520726_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520727_37 = PRIM_CDR(v__3520726_37);
-Obj v__3520728_37 = PRIM_CDR(v__3520727_37);
-Obj v__3520729_37 = PRIM_EQ(Nil, v__3520728_37);
-if (True == v__3520729_37) {
+Obj v__3519988_37 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520906_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520906_37) {
+Obj v__3520907_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520908_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520907_37);
+if (True == v__3520908_37) {
+Obj v__3520909_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520910_37 = PRIM_ISCONS(v__3520909_37);
+if (True == v__3520910_37) {
+Obj v__3520911_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520912_37 = PRIM_CAR(v__3520911_37);
+Obj v__3519999_37 = v__3520912_37;
+Obj v__3520913_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520914_37 = PRIM_CDR(v__3520913_37);
+Obj v__3520915_37 = PRIM_ISCONS(v__3520914_37);
+if (True == v__3520915_37) {
+Obj v__3520916_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520917_37 = PRIM_CDR(v__3520916_37);
+Obj v__3520918_37 = PRIM_CAR(v__3520917_37);
+Obj v__3520000_37 = v__3520918_37;
+Obj v__3520919_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520920_37 = PRIM_CDR(v__3520919_37);
+Obj v__3520921_37 = PRIM_CDR(v__3520920_37);
+Obj v__3520922_37 = PRIM_EQ(Nil, v__3520921_37);
+if (True == v__3520922_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519806_37, makeNative(co->gc, 2, clofun55, 1, 2, v__3519807_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519999_37, makeNative(co->gc, 2, clofun55, 1, 2, v__3520000_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519795_37);
+coraCall0(co, v__3519988_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519795_37);
+coraCall0(co, v__3519988_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519795_37);
+coraCall0(co, v__3519988_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519795_37);
+coraCall0(co, v__3519988_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519795_37);
+coraCall0(co, v__3519988_37);
 return;
 }
 }
@@ -6046,14 +6046,14 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519356_37 = R[1];
-Obj v__3520730_37 = primIsSymbol(v__3519356_37);
-if (True == v__3520730_37) {
+Obj v__3519549_37 = R[1];
+Obj v__3520923_37 = primIsSymbol(v__3519549_37);
+if (True == v__3520923_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = v__3519356_37;
+R[1] = v__3519549_37;
 saveCont(co, clofun55, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6061,12 +6061,12 @@ return;
 }
 case 1:
 {
-Obj v__3520731_37= co->res;
-Obj v__3519356_37 = R[1];
-Obj v__3520732_37 = makeCons(co->gc, v__3520731_37, Nil);
-Obj v__3520733_37 = makeCons(co->gc, v__3519356_37, v__3520732_37);
-Obj v__3520734_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520733_37);
-coraReturn(co, v__3520734_37);
+Obj v__3520924_37= co->res;
+Obj v__3519549_37 = R[1];
+Obj v__3520925_37 = makeCons(co->gc, v__3520924_37, Nil);
+Obj v__3520926_37 = makeCons(co->gc, v__3519549_37, v__3520925_37);
+Obj v__3520927_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520926_37);
+coraReturn(co, v__3520927_37);
 return;
 }
 }
@@ -6076,73 +6076,73 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519796_37 = makeNative(co->gc, 3, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520682_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520682_37) {
-Obj v__3520683_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520684_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520683_37);
-if (True == v__3520684_37) {
-Obj v__3520685_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520686_37 = PRIM_ISCONS(v__3520685_37);
-if (True == v__3520686_37) {
-Obj v__3520687_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520688_37 = PRIM_CAR(v__3520687_37);
-Obj v__3519803_37 = v__3520688_37;
-Obj v__3520689_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520690_37 = PRIM_CDR(v__3520689_37);
-Obj v__3520691_37 = PRIM_ISCONS(v__3520690_37);
-if (True == v__3520691_37) {
-Obj v__3520692_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520693_37 = PRIM_CDR(v__3520692_37);
-Obj v__3520694_37 = PRIM_CAR(v__3520693_37);
-Obj v__3519804_37 = v__3520694_37;
-Obj v__3520695_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520696_37 = PRIM_CDR(v__3520695_37);
-Obj v__3520697_37 = PRIM_CDR(v__3520696_37);
-Obj v__3520698_37 = PRIM_ISCONS(v__3520697_37);
-if (True == v__3520698_37) {
-Obj v__3520699_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520700_37 = PRIM_CDR(v__3520699_37);
-Obj v__3520701_37 = PRIM_CDR(v__3520700_37);
-Obj v__3520702_37 = PRIM_CAR(v__3520701_37);
-Obj v__3519805_37 = v__3520702_37;
-Obj v__3520703_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520704_37 = PRIM_CDR(v__3520703_37);
-Obj v__3520705_37 = PRIM_CDR(v__3520704_37);
-Obj v__3520706_37 = PRIM_CDR(v__3520705_37);
-Obj v__3520707_37 = PRIM_EQ(Nil, v__3520706_37);
-if (True == v__3520707_37) {
+Obj v__3519989_37 = makeNative(co->gc, 3, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520875_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520875_37) {
+Obj v__3520876_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520877_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520876_37);
+if (True == v__3520877_37) {
+Obj v__3520878_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520879_37 = PRIM_ISCONS(v__3520878_37);
+if (True == v__3520879_37) {
+Obj v__3520880_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520881_37 = PRIM_CAR(v__3520880_37);
+Obj v__3519996_37 = v__3520881_37;
+Obj v__3520882_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520883_37 = PRIM_CDR(v__3520882_37);
+Obj v__3520884_37 = PRIM_ISCONS(v__3520883_37);
+if (True == v__3520884_37) {
+Obj v__3520885_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520886_37 = PRIM_CDR(v__3520885_37);
+Obj v__3520887_37 = PRIM_CAR(v__3520886_37);
+Obj v__3519997_37 = v__3520887_37;
+Obj v__3520888_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520889_37 = PRIM_CDR(v__3520888_37);
+Obj v__3520890_37 = PRIM_CDR(v__3520889_37);
+Obj v__3520891_37 = PRIM_ISCONS(v__3520890_37);
+if (True == v__3520891_37) {
+Obj v__3520892_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520893_37 = PRIM_CDR(v__3520892_37);
+Obj v__3520894_37 = PRIM_CDR(v__3520893_37);
+Obj v__3520895_37 = PRIM_CAR(v__3520894_37);
+Obj v__3519998_37 = v__3520895_37;
+Obj v__3520896_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520897_37 = PRIM_CDR(v__3520896_37);
+Obj v__3520898_37 = PRIM_CDR(v__3520897_37);
+Obj v__3520899_37 = PRIM_CDR(v__3520898_37);
+Obj v__3520900_37 = PRIM_EQ(Nil, v__3520899_37);
+if (True == v__3520900_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519804_37, makeNative(co->gc, 2, clofun53, 1, 3, v__3519803_37, v__3519805_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519997_37, makeNative(co->gc, 2, clofun53, 1, 3, v__3519996_37, v__3519998_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519796_37);
+coraCall0(co, v__3519989_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519796_37);
+coraCall0(co, v__3519989_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519796_37);
+coraCall0(co, v__3519989_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519796_37);
+coraCall0(co, v__3519989_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519796_37);
+coraCall0(co, v__3519989_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519796_37);
+coraCall0(co, v__3519989_37);
 return;
 }
 }
@@ -6153,21 +6153,21 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519352_37 = R[1];
-R[1] = v__3519352_37;
+Obj v__3519545_37 = R[1];
+R[1] = v__3519545_37;
 saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3520708_37= co->res;
-Obj v__3519352_37 = R[1];
-Obj v__3520709_37 = makeCons(co->gc, v__3520708_37, Nil);
-Obj v__3520710_37 = makeCons(co->gc, v__3519352_37, v__3520709_37);
-Obj v__3520711_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520710_37);
-Obj v__3520712_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520711_37);
-coraReturn(co, v__3520712_37);
+Obj v__3520901_37= co->res;
+Obj v__3519545_37 = R[1];
+Obj v__3520902_37 = makeCons(co->gc, v__3520901_37, Nil);
+Obj v__3520903_37 = makeCons(co->gc, v__3519545_37, v__3520902_37);
+Obj v__3520904_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520903_37);
+Obj v__3520905_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520904_37);
+coraReturn(co, v__3520905_37);
 return;
 }
 }
@@ -6177,114 +6177,114 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519797_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520638_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520638_37) {
-Obj v__3520639_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520640_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520639_37);
-if (True == v__3520640_37) {
-Obj v__3520641_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520642_37 = PRIM_ISCONS(v__3520641_37);
-if (True == v__3520642_37) {
-Obj v__3520643_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520644_37 = PRIM_CAR(v__3520643_37);
-Obj v__3520645_37 = PRIM_ISCONS(v__3520644_37);
-if (True == v__3520645_37) {
-Obj v__3520646_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520647_37 = PRIM_CAR(v__3520646_37);
-Obj v__3520648_37 = PRIM_CAR(v__3520647_37);
-Obj v__3520649_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520648_37);
-if (True == v__3520649_37) {
-Obj v__3520650_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520651_37 = PRIM_CAR(v__3520650_37);
-Obj v__3520652_37 = PRIM_CDR(v__3520651_37);
-Obj v__3520653_37 = PRIM_ISCONS(v__3520652_37);
-if (True == v__3520653_37) {
-Obj v__3520654_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520655_37 = PRIM_CAR(v__3520654_37);
-Obj v__3520656_37 = PRIM_CDR(v__3520655_37);
-Obj v__3520657_37 = PRIM_CAR(v__3520656_37);
-Obj v__3519800_37 = v__3520657_37;
-Obj v__3520658_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520659_37 = PRIM_CAR(v__3520658_37);
-Obj v__3520660_37 = PRIM_CDR(v__3520659_37);
-Obj v__3520661_37 = PRIM_CDR(v__3520660_37);
-Obj v__3520662_37 = PRIM_ISCONS(v__3520661_37);
-if (True == v__3520662_37) {
-Obj v__3520663_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520664_37 = PRIM_CAR(v__3520663_37);
-Obj v__3520665_37 = PRIM_CDR(v__3520664_37);
-Obj v__3520666_37 = PRIM_CDR(v__3520665_37);
-Obj v__3520667_37 = PRIM_CAR(v__3520666_37);
-Obj v__3519801_37 = v__3520667_37;
-Obj v__3520668_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520669_37 = PRIM_CAR(v__3520668_37);
-Obj v__3520670_37 = PRIM_CDR(v__3520669_37);
-Obj v__3520671_37 = PRIM_CDR(v__3520670_37);
-Obj v__3520672_37 = PRIM_CDR(v__3520671_37);
-Obj v__3520673_37 = PRIM_EQ(Nil, v__3520672_37);
-if (True == v__3520673_37) {
-Obj v__3520674_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520675_37 = PRIM_CDR(v__3520674_37);
-Obj v__3519802_37 = v__3520675_37;
-R[1] = v__3519800_37;
-R[2] = v__3519802_37;
+Obj v__3519990_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520831_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520831_37) {
+Obj v__3520832_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520833_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520832_37);
+if (True == v__3520833_37) {
+Obj v__3520834_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520835_37 = PRIM_ISCONS(v__3520834_37);
+if (True == v__3520835_37) {
+Obj v__3520836_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520837_37 = PRIM_CAR(v__3520836_37);
+Obj v__3520838_37 = PRIM_ISCONS(v__3520837_37);
+if (True == v__3520838_37) {
+Obj v__3520839_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520840_37 = PRIM_CAR(v__3520839_37);
+Obj v__3520841_37 = PRIM_CAR(v__3520840_37);
+Obj v__3520842_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520841_37);
+if (True == v__3520842_37) {
+Obj v__3520843_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520844_37 = PRIM_CAR(v__3520843_37);
+Obj v__3520845_37 = PRIM_CDR(v__3520844_37);
+Obj v__3520846_37 = PRIM_ISCONS(v__3520845_37);
+if (True == v__3520846_37) {
+Obj v__3520847_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520848_37 = PRIM_CAR(v__3520847_37);
+Obj v__3520849_37 = PRIM_CDR(v__3520848_37);
+Obj v__3520850_37 = PRIM_CAR(v__3520849_37);
+Obj v__3519993_37 = v__3520850_37;
+Obj v__3520851_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520852_37 = PRIM_CAR(v__3520851_37);
+Obj v__3520853_37 = PRIM_CDR(v__3520852_37);
+Obj v__3520854_37 = PRIM_CDR(v__3520853_37);
+Obj v__3520855_37 = PRIM_ISCONS(v__3520854_37);
+if (True == v__3520855_37) {
+Obj v__3520856_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520857_37 = PRIM_CAR(v__3520856_37);
+Obj v__3520858_37 = PRIM_CDR(v__3520857_37);
+Obj v__3520859_37 = PRIM_CDR(v__3520858_37);
+Obj v__3520860_37 = PRIM_CAR(v__3520859_37);
+Obj v__3519994_37 = v__3520860_37;
+Obj v__3520861_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520862_37 = PRIM_CAR(v__3520861_37);
+Obj v__3520863_37 = PRIM_CDR(v__3520862_37);
+Obj v__3520864_37 = PRIM_CDR(v__3520863_37);
+Obj v__3520865_37 = PRIM_CDR(v__3520864_37);
+Obj v__3520866_37 = PRIM_EQ(Nil, v__3520865_37);
+if (True == v__3520866_37) {
+Obj v__3520867_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520868_37 = PRIM_CDR(v__3520867_37);
+Obj v__3519995_37 = v__3520868_37;
+R[1] = v__3519993_37;
+R[2] = v__3519995_37;
 saveCont(co, clofun52, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519801_37, globalRef(co, getBinding(co, packageID, 72)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519994_37, globalRef(co, getBinding(co, packageID, 72)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519797_37);
+coraCall0(co, v__3519990_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519797_37);
+coraCall0(co, v__3519990_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519797_37);
+coraCall0(co, v__3519990_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519797_37);
+coraCall0(co, v__3519990_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519797_37);
+coraCall0(co, v__3519990_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519797_37);
+coraCall0(co, v__3519990_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519797_37);
+coraCall0(co, v__3519990_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519797_37);
+coraCall0(co, v__3519990_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520676_37= co->res;
-Obj v__3519800_37 = R[1];
-Obj v__3519802_37 = R[2];
-Obj v__3520677_37 = makeCons(co->gc, v__3520676_37, Nil);
-Obj v__3520678_37 = makeCons(co->gc, v__3519800_37, v__3520677_37);
-Obj v__3520679_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520678_37);
-Obj v__3520680_37 = makeCons(co->gc, v__3520679_37, v__3519802_37);
-Obj v__3520681_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3520680_37);
+Obj v__3520869_37= co->res;
+Obj v__3519993_37 = R[1];
+Obj v__3519995_37 = R[2];
+Obj v__3520870_37 = makeCons(co->gc, v__3520869_37, Nil);
+Obj v__3520871_37 = makeCons(co->gc, v__3519993_37, v__3520870_37);
+Obj v__3520872_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520871_37);
+Obj v__3520873_37 = makeCons(co->gc, v__3520872_37, v__3519995_37);
+Obj v__3520874_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3520873_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v__3520681_37);
+coraCall1(co, closureRef(R[0], 1), v__3520874_37);
 return;
 }
 }
@@ -6294,15 +6294,15 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520634_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520634_37) {
-Obj v__3520635_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519798_37 = v__3520635_37;
-Obj v__3520636_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519799_37 = v__3520636_37;
-Obj v__3520637_37 = makeCons(co->gc, v__3519798_37, v__3519799_37);
+Obj v__3520827_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520827_37) {
+Obj v__3520828_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519991_37 = v__3520828_37;
+Obj v__3520829_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519992_37 = v__3520829_37;
+Obj v__3520830_37 = makeCons(co->gc, v__3519991_37, v__3519992_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), v__3520637_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 70)), v__3520830_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6317,10 +6317,10 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519299_37 = R[1];
-Obj v__3520630_37 = makeCons(co->gc, v__3519299_37, Nil);
-Obj v__3520631_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3520630_37);
-coraReturn(co, v__3520631_37);
+Obj v__3519492_37 = R[1];
+Obj v__3520823_37 = makeCons(co->gc, v__3519492_37, Nil);
+Obj v__3520824_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3520823_37);
+coraReturn(co, v__3520824_37);
 return;
 }
 }
@@ -6330,151 +6330,151 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519262_37 = R[1];
-Obj v__3519263_37 = R[2];
-R[1] = v__3519263_37;
-R[2] = v__3519262_37;
+Obj v__3519455_37 = R[1];
+Obj v__3519456_37 = R[2];
+R[1] = v__3519456_37;
+R[2] = v__3519455_37;
 saveCont(co, clofun49, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519263_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519456_37);
 return;
 }
 case 1:
 {
-Obj v__3520557_37= co->res;
-Obj v__3519263_37 = R[1];
-Obj v__3519780_37 = v__3520557_37;
-Obj v__3520558_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3519780_37);
-if (True == v__3520558_37) {
-coraReturn(co, v__3519263_37);
+Obj v__3520750_37= co->res;
+Obj v__3519456_37 = R[1];
+Obj v__3519973_37 = v__3520750_37;
+Obj v__3520751_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3519973_37);
+if (True == v__3520751_37) {
+coraReturn(co, v__3519456_37);
 return;
 } else {
-Obj v__3520559_37 = makeCons(co->gc, v__3519780_37, Nil);
-Obj v__3520560_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, v__3520559_37);
-coraReturn(co, v__3520560_37);
+Obj v__3520752_37 = makeCons(co->gc, v__3519973_37, Nil);
+Obj v__3520753_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, v__3520752_37);
+coraReturn(co, v__3520753_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520626_37= co->res;
-Obj v__3520624_37 = R[1];
-Obj v__3520627_37 = makeCons(co->gc, v__3520624_37, v__3520626_37);
-Obj v__3520628_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3520627_37);
-coraReturn(co, v__3520628_37);
+Obj v__3520819_37= co->res;
+Obj v__3520817_37 = R[1];
+Obj v__3520820_37 = makeCons(co->gc, v__3520817_37, v__3520819_37);
+Obj v__3520821_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, v__3520820_37);
+coraReturn(co, v__3520821_37);
 return;
 }
 case 3:
 {
-Obj v__3520625_37= co->res;
-Obj v__3519790_37 = R[1];
-Obj v__3520624_37 = R[2];
-R[1] = v__3520624_37;
+Obj v__3520818_37= co->res;
+Obj v__3519983_37 = R[1];
+Obj v__3520817_37 = R[2];
+R[1] = v__3520817_37;
 saveCont(co, clofun49, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520625_37, v__3519790_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520818_37, v__3519983_37);
 return;
 }
 case 4:
 {
-Obj v__3520621_37= co->res;
-Obj v__3519788_37 = R[1];
-Obj v__3519262_37 = R[2];
-Obj v__3519790_37 = R[3];
-Obj v__3520622_37 = makeCons(co->gc, v__3520621_37, Nil);
-Obj v__3520623_37 = makeCons(co->gc, v__3519788_37, v__3520622_37);
-Obj v__3520624_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520623_37);
-R[1] = v__3519790_37;
-R[2] = v__3520624_37;
+Obj v__3520814_37= co->res;
+Obj v__3519981_37 = R[1];
+Obj v__3519455_37 = R[2];
+Obj v__3519983_37 = R[3];
+Obj v__3520815_37 = makeCons(co->gc, v__3520814_37, Nil);
+Obj v__3520816_37 = makeCons(co->gc, v__3519981_37, v__3520815_37);
+Obj v__3520817_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520816_37);
+R[1] = v__3519983_37;
+R[2] = v__3520817_37;
 saveCont(co, clofun49, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), v__3519262_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), v__3519455_37);
 return;
 }
 case 5:
 {
-Obj v__3520620_37= co->res;
-Obj v__3519789_37 = R[1];
-Obj v__3519788_37 = R[2];
-Obj v__3519262_37 = R[3];
-Obj v__3519790_37 = v__3520620_37;
-R[1] = v__3519788_37;
-R[2] = v__3519262_37;
-R[3] = v__3519790_37;
+Obj v__3520813_37= co->res;
+Obj v__3519982_37 = R[1];
+Obj v__3519981_37 = R[2];
+Obj v__3519455_37 = R[3];
+Obj v__3519983_37 = v__3520813_37;
+R[1] = v__3519981_37;
+R[2] = v__3519455_37;
+R[3] = v__3519983_37;
 saveCont(co, clofun49, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3519790_37, v__3519789_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3519983_37, v__3519982_37);
 return;
 }
 case 6:
 {
-Obj v__3520555_37= co->res;
-Obj v__3519263_37 = R[1];
-Obj v__3519262_37 = R[2];
-if (True == v__3520555_37) {
-coraReturn(co, v__3519263_37);
+Obj v__3520748_37= co->res;
+Obj v__3519456_37 = R[1];
+Obj v__3519455_37 = R[2];
+if (True == v__3520748_37) {
+coraReturn(co, v__3519456_37);
 return;
 } else {
-Obj v__3520556_37 = primIsSymbol(v__3519263_37);
-if (True == v__3520556_37) {
-R[1] = v__3519263_37;
+Obj v__3520749_37 = primIsSymbol(v__3519456_37);
+if (True == v__3520749_37) {
+R[1] = v__3519456_37;
 saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3519263_37, v__3519262_37);
-return;
-} else {
-Obj v__3519781_37 = makeNative(co->gc, 4, clofun48, 0, 2, v__3519263_37, v__3519262_37);
-Obj v__3520600_37 = PRIM_ISCONS(v__3519263_37);
-if (True == v__3520600_37) {
-Obj v__3520601_37 = PRIM_CAR(v__3519263_37);
-Obj v__3520602_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520601_37);
-if (True == v__3520602_37) {
-Obj v__3520603_37 = PRIM_CDR(v__3519263_37);
-Obj v__3520604_37 = PRIM_ISCONS(v__3520603_37);
-if (True == v__3520604_37) {
-Obj v__3520605_37 = PRIM_CDR(v__3519263_37);
-Obj v__3520606_37 = PRIM_CAR(v__3520605_37);
-Obj v__3519788_37 = v__3520606_37;
-Obj v__3520607_37 = PRIM_CDR(v__3519263_37);
-Obj v__3520608_37 = PRIM_CDR(v__3520607_37);
-Obj v__3520609_37 = PRIM_ISCONS(v__3520608_37);
-if (True == v__3520609_37) {
-Obj v__3520610_37 = PRIM_CDR(v__3519263_37);
-Obj v__3520611_37 = PRIM_CDR(v__3520610_37);
-Obj v__3520612_37 = PRIM_CAR(v__3520611_37);
-Obj v__3519789_37 = v__3520612_37;
-Obj v__3520613_37 = PRIM_CDR(v__3519263_37);
-Obj v__3520614_37 = PRIM_CDR(v__3520613_37);
-Obj v__3520615_37 = PRIM_CDR(v__3520614_37);
-Obj v__3520616_37 = PRIM_EQ(Nil, v__3520615_37);
-if (True == v__3520616_37) {
-Obj v__3520617_37 = makeCons(co->gc, v__3519789_37, Nil);
-Obj v__3520618_37 = makeCons(co->gc, v__3519788_37, v__3520617_37);
-Obj v__3520619_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520618_37);
-R[1] = v__3519789_37;
-R[2] = v__3519788_37;
-R[3] = v__3519262_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3519456_37, v__3519455_37);
+return;
+} else {
+Obj v__3519974_37 = makeNative(co->gc, 4, clofun48, 0, 2, v__3519456_37, v__3519455_37);
+Obj v__3520793_37 = PRIM_ISCONS(v__3519456_37);
+if (True == v__3520793_37) {
+Obj v__3520794_37 = PRIM_CAR(v__3519456_37);
+Obj v__3520795_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520794_37);
+if (True == v__3520795_37) {
+Obj v__3520796_37 = PRIM_CDR(v__3519456_37);
+Obj v__3520797_37 = PRIM_ISCONS(v__3520796_37);
+if (True == v__3520797_37) {
+Obj v__3520798_37 = PRIM_CDR(v__3519456_37);
+Obj v__3520799_37 = PRIM_CAR(v__3520798_37);
+Obj v__3519981_37 = v__3520799_37;
+Obj v__3520800_37 = PRIM_CDR(v__3519456_37);
+Obj v__3520801_37 = PRIM_CDR(v__3520800_37);
+Obj v__3520802_37 = PRIM_ISCONS(v__3520801_37);
+if (True == v__3520802_37) {
+Obj v__3520803_37 = PRIM_CDR(v__3519456_37);
+Obj v__3520804_37 = PRIM_CDR(v__3520803_37);
+Obj v__3520805_37 = PRIM_CAR(v__3520804_37);
+Obj v__3519982_37 = v__3520805_37;
+Obj v__3520806_37 = PRIM_CDR(v__3519456_37);
+Obj v__3520807_37 = PRIM_CDR(v__3520806_37);
+Obj v__3520808_37 = PRIM_CDR(v__3520807_37);
+Obj v__3520809_37 = PRIM_EQ(Nil, v__3520808_37);
+if (True == v__3520809_37) {
+Obj v__3520810_37 = makeCons(co->gc, v__3519982_37, Nil);
+Obj v__3520811_37 = makeCons(co->gc, v__3519981_37, v__3520810_37);
+Obj v__3520812_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520811_37);
+R[1] = v__3519982_37;
+R[2] = v__3519981_37;
+R[3] = v__3519455_37;
 saveCont(co, clofun49, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3520619_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3520812_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519781_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519781_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519781_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519781_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519781_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 }
@@ -6487,112 +6487,112 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519782_37 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520566_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520566_37) {
-Obj v__3520567_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520568_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520567_37);
-if (True == v__3520568_37) {
-Obj v__3520569_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520570_37 = PRIM_ISCONS(v__3520569_37);
-if (True == v__3520570_37) {
-Obj v__3520571_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520572_37 = PRIM_CAR(v__3520571_37);
-Obj v__3519785_37 = v__3520572_37;
-Obj v__3520573_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520574_37 = PRIM_CDR(v__3520573_37);
-Obj v__3520575_37 = PRIM_ISCONS(v__3520574_37);
-if (True == v__3520575_37) {
-Obj v__3520576_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520577_37 = PRIM_CDR(v__3520576_37);
-Obj v__3520578_37 = PRIM_CAR(v__3520577_37);
-Obj v__3519786_37 = v__3520578_37;
-Obj v__3520579_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520580_37 = PRIM_CDR(v__3520579_37);
-Obj v__3520581_37 = PRIM_CDR(v__3520580_37);
-Obj v__3520582_37 = PRIM_ISCONS(v__3520581_37);
-if (True == v__3520582_37) {
-Obj v__3520583_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520584_37 = PRIM_CDR(v__3520583_37);
-Obj v__3520585_37 = PRIM_CDR(v__3520584_37);
-Obj v__3520586_37 = PRIM_CAR(v__3520585_37);
-Obj v__3519787_37 = v__3520586_37;
-Obj v__3520587_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520588_37 = PRIM_CDR(v__3520587_37);
-Obj v__3520589_37 = PRIM_CDR(v__3520588_37);
-Obj v__3520590_37 = PRIM_CDR(v__3520589_37);
-Obj v__3520591_37 = PRIM_EQ(Nil, v__3520590_37);
-if (True == v__3520591_37) {
-R[1] = v__3519787_37;
-R[2] = v__3519785_37;
+Obj v__3519975_37 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520759_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520759_37) {
+Obj v__3520760_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520761_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520760_37);
+if (True == v__3520761_37) {
+Obj v__3520762_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520763_37 = PRIM_ISCONS(v__3520762_37);
+if (True == v__3520763_37) {
+Obj v__3520764_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520765_37 = PRIM_CAR(v__3520764_37);
+Obj v__3519978_37 = v__3520765_37;
+Obj v__3520766_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520767_37 = PRIM_CDR(v__3520766_37);
+Obj v__3520768_37 = PRIM_ISCONS(v__3520767_37);
+if (True == v__3520768_37) {
+Obj v__3520769_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520770_37 = PRIM_CDR(v__3520769_37);
+Obj v__3520771_37 = PRIM_CAR(v__3520770_37);
+Obj v__3519979_37 = v__3520771_37;
+Obj v__3520772_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520773_37 = PRIM_CDR(v__3520772_37);
+Obj v__3520774_37 = PRIM_CDR(v__3520773_37);
+Obj v__3520775_37 = PRIM_ISCONS(v__3520774_37);
+if (True == v__3520775_37) {
+Obj v__3520776_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520777_37 = PRIM_CDR(v__3520776_37);
+Obj v__3520778_37 = PRIM_CDR(v__3520777_37);
+Obj v__3520779_37 = PRIM_CAR(v__3520778_37);
+Obj v__3519980_37 = v__3520779_37;
+Obj v__3520780_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520781_37 = PRIM_CDR(v__3520780_37);
+Obj v__3520782_37 = PRIM_CDR(v__3520781_37);
+Obj v__3520783_37 = PRIM_CDR(v__3520782_37);
+Obj v__3520784_37 = PRIM_EQ(Nil, v__3520783_37);
+if (True == v__3520784_37) {
+R[1] = v__3519980_37;
+R[2] = v__3519978_37;
 saveCont(co, clofun48, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), v__3519786_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1), v__3519979_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519782_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519782_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519782_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519782_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519782_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519782_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520595_37= co->res;
-Obj v__3520592_37 = R[1];
-Obj v__3519785_37 = R[2];
-Obj v__3520596_37 = makeCons(co->gc, v__3520595_37, Nil);
-Obj v__3520597_37 = makeCons(co->gc, v__3520592_37, v__3520596_37);
-Obj v__3520598_37 = makeCons(co->gc, v__3519785_37, v__3520597_37);
-Obj v__3520599_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520598_37);
-coraReturn(co, v__3520599_37);
+Obj v__3520788_37= co->res;
+Obj v__3520785_37 = R[1];
+Obj v__3519978_37 = R[2];
+Obj v__3520789_37 = makeCons(co->gc, v__3520788_37, Nil);
+Obj v__3520790_37 = makeCons(co->gc, v__3520785_37, v__3520789_37);
+Obj v__3520791_37 = makeCons(co->gc, v__3519978_37, v__3520790_37);
+Obj v__3520792_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520791_37);
+coraReturn(co, v__3520792_37);
 return;
 }
 case 2:
 {
-Obj v__3520594_37= co->res;
-Obj v__3519787_37 = R[1];
-Obj v__3520592_37 = R[2];
-Obj v__3519785_37 = R[3];
-R[1] = v__3520592_37;
-R[2] = v__3519785_37;
+Obj v__3520787_37= co->res;
+Obj v__3519980_37 = R[1];
+Obj v__3520785_37 = R[2];
+Obj v__3519978_37 = R[3];
+R[1] = v__3520785_37;
+R[2] = v__3519978_37;
 saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3520594_37, v__3519787_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3520787_37, v__3519980_37);
 return;
 }
 case 3:
 {
-Obj v__3520592_37= co->res;
-Obj v__3519787_37 = R[1];
-Obj v__3519785_37 = R[2];
-R[1] = v__3519787_37;
-R[2] = v__3520592_37;
-R[3] = v__3519785_37;
+Obj v__3520785_37= co->res;
+Obj v__3519980_37 = R[1];
+Obj v__3519978_37 = R[2];
+R[1] = v__3519980_37;
+R[2] = v__3520785_37;
+R[3] = v__3519978_37;
 saveCont(co, clofun48, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun47, 1, 1, v__3519785_37), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun47, 1, 1, v__3519978_37), closureRef(R[0], 1));
 return;
 }
 }
@@ -6602,13 +6602,13 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519294_37 = R[1];
-Obj v__3520593_37 = PRIM_EQ(v__3519294_37, closureRef(R[0], 0));
-if (True == v__3520593_37) {
+Obj v__3519487_37 = R[1];
+Obj v__3520786_37 = PRIM_EQ(v__3519487_37, closureRef(R[0], 0));
+if (True == v__3520786_37) {
 coraReturn(co, Nil);
 return;
 } else {
-coraReturn(co, v__3519294_37);
+coraReturn(co, v__3519487_37);
 return;
 }
 }
@@ -6619,14 +6619,14 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520561_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520561_37) {
-Obj v__3520562_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519783_37 = v__3520562_37;
-Obj v__3520563_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519784_37 = v__3520563_37;
-R[1] = v__3519783_37;
-R[2] = v__3519784_37;
+Obj v__3520754_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520754_37) {
+Obj v__3520755_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519976_37 = v__3520755_37;
+Obj v__3520756_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519977_37 = v__3520756_37;
+R[1] = v__3519976_37;
+R[2] = v__3519977_37;
 saveCont(co, clofun46, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 1));
 return;
@@ -6638,12 +6638,12 @@ return;
 }
 case 1:
 {
-Obj v__3520564_37= co->res;
-Obj v__3519783_37 = R[1];
-Obj v__3519784_37 = R[2];
-Obj v__3520565_37 = makeCons(co->gc, v__3519783_37, v__3519784_37);
+Obj v__3520757_37= co->res;
+Obj v__3519976_37 = R[1];
+Obj v__3519977_37 = R[2];
+Obj v__3520758_37 = makeCons(co->gc, v__3519976_37, v__3519977_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520564_37, v__3520565_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520757_37, v__3520758_37);
 return;
 }
 }
@@ -6653,86 +6653,86 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519174_37 = R[1];
-R[1] = v__3519174_37;
+Obj v__3519367_37 = R[1];
+R[1] = v__3519367_37;
 saveCont(co, clofun45, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 81)), v__3519367_37);
 return;
 }
 case 1:
 {
-Obj v__3520553_37= co->res;
-Obj v__3519778_37 = R[1];
+Obj v__3520746_37= co->res;
+Obj v__3519971_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520553_37, v__3519778_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520746_37, v__3519971_37);
 return;
 }
 case 2:
 {
-Obj v__3520380_37= co->res;
-Obj v__3519174_37 = R[1];
-if (True == v__3520380_37) {
+Obj v__3520573_37= co->res;
+Obj v__3519367_37 = R[1];
+if (True == v__3520573_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3520381_37 = primIsSymbol(v__3519174_37);
-if (True == v__3520381_37) {
-Obj v__3520382_37 = makeCons(co->gc, v__3519174_37, Nil);
-coraReturn(co, v__3520382_37);
+Obj v__3520574_37 = primIsSymbol(v__3519367_37);
+if (True == v__3520574_37) {
+Obj v__3520575_37 = makeCons(co->gc, v__3519367_37, Nil);
+coraReturn(co, v__3520575_37);
 return;
 } else {
-Obj v__3519751_37 = makeNative(co->gc, 1, clofun44, 0, 1, v__3519174_37);
-Obj v__3520536_37 = PRIM_ISCONS(v__3519174_37);
-if (True == v__3520536_37) {
-Obj v__3520537_37 = PRIM_CAR(v__3519174_37);
-Obj v__3520538_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520537_37);
-if (True == v__3520538_37) {
-Obj v__3520539_37 = PRIM_CDR(v__3519174_37);
-Obj v__3520540_37 = PRIM_ISCONS(v__3520539_37);
-if (True == v__3520540_37) {
-Obj v__3520541_37 = PRIM_CDR(v__3519174_37);
-Obj v__3520542_37 = PRIM_CAR(v__3520541_37);
-Obj v__3519778_37 = v__3520542_37;
-Obj v__3520543_37 = PRIM_CDR(v__3519174_37);
-Obj v__3520544_37 = PRIM_CDR(v__3520543_37);
-Obj v__3520545_37 = PRIM_ISCONS(v__3520544_37);
-if (True == v__3520545_37) {
-Obj v__3520546_37 = PRIM_CDR(v__3519174_37);
-Obj v__3520547_37 = PRIM_CDR(v__3520546_37);
-Obj v__3520548_37 = PRIM_CAR(v__3520547_37);
-Obj v__3519779_37 = v__3520548_37;
-Obj v__3520549_37 = PRIM_CDR(v__3519174_37);
-Obj v__3520550_37 = PRIM_CDR(v__3520549_37);
-Obj v__3520551_37 = PRIM_CDR(v__3520550_37);
-Obj v__3520552_37 = PRIM_EQ(Nil, v__3520551_37);
-if (True == v__3520552_37) {
-R[1] = v__3519778_37;
+Obj v__3519944_37 = makeNative(co->gc, 1, clofun44, 0, 1, v__3519367_37);
+Obj v__3520729_37 = PRIM_ISCONS(v__3519367_37);
+if (True == v__3520729_37) {
+Obj v__3520730_37 = PRIM_CAR(v__3519367_37);
+Obj v__3520731_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520730_37);
+if (True == v__3520731_37) {
+Obj v__3520732_37 = PRIM_CDR(v__3519367_37);
+Obj v__3520733_37 = PRIM_ISCONS(v__3520732_37);
+if (True == v__3520733_37) {
+Obj v__3520734_37 = PRIM_CDR(v__3519367_37);
+Obj v__3520735_37 = PRIM_CAR(v__3520734_37);
+Obj v__3519971_37 = v__3520735_37;
+Obj v__3520736_37 = PRIM_CDR(v__3519367_37);
+Obj v__3520737_37 = PRIM_CDR(v__3520736_37);
+Obj v__3520738_37 = PRIM_ISCONS(v__3520737_37);
+if (True == v__3520738_37) {
+Obj v__3520739_37 = PRIM_CDR(v__3519367_37);
+Obj v__3520740_37 = PRIM_CDR(v__3520739_37);
+Obj v__3520741_37 = PRIM_CAR(v__3520740_37);
+Obj v__3519972_37 = v__3520741_37;
+Obj v__3520742_37 = PRIM_CDR(v__3519367_37);
+Obj v__3520743_37 = PRIM_CDR(v__3520742_37);
+Obj v__3520744_37 = PRIM_CDR(v__3520743_37);
+Obj v__3520745_37 = PRIM_EQ(Nil, v__3520744_37);
+if (True == v__3520745_37) {
+R[1] = v__3519971_37;
 saveCont(co, clofun45, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519779_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519972_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519751_37);
+coraCall0(co, v__3519944_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519751_37);
+coraCall0(co, v__3519944_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519751_37);
+coraCall0(co, v__3519944_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519751_37);
+coraCall0(co, v__3519944_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519751_37);
+coraCall0(co, v__3519944_37);
 return;
 }
 }
@@ -6745,84 +6745,84 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519752_37 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
-Obj v__3520506_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520506_37) {
-Obj v__3520507_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520508_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520507_37);
-if (True == v__3520508_37) {
-Obj v__3520509_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520510_37 = PRIM_ISCONS(v__3520509_37);
-if (True == v__3520510_37) {
-Obj v__3520511_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520512_37 = PRIM_CAR(v__3520511_37);
-Obj v__3519775_37 = v__3520512_37;
-Obj v__3520513_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520514_37 = PRIM_CDR(v__3520513_37);
-Obj v__3520515_37 = PRIM_ISCONS(v__3520514_37);
-if (True == v__3520515_37) {
-Obj v__3520516_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520517_37 = PRIM_CDR(v__3520516_37);
-Obj v__3520518_37 = PRIM_CAR(v__3520517_37);
-Obj v__3519776_37 = v__3520518_37;
-Obj v__3520519_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520520_37 = PRIM_CDR(v__3520519_37);
-Obj v__3520521_37 = PRIM_CDR(v__3520520_37);
-Obj v__3520522_37 = PRIM_ISCONS(v__3520521_37);
-if (True == v__3520522_37) {
-Obj v__3520523_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520524_37 = PRIM_CDR(v__3520523_37);
-Obj v__3520525_37 = PRIM_CDR(v__3520524_37);
-Obj v__3520526_37 = PRIM_CAR(v__3520525_37);
-Obj v__3519777_37 = v__3520526_37;
-Obj v__3520527_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520528_37 = PRIM_CDR(v__3520527_37);
-Obj v__3520529_37 = PRIM_CDR(v__3520528_37);
-Obj v__3520530_37 = PRIM_CDR(v__3520529_37);
-Obj v__3520531_37 = PRIM_EQ(Nil, v__3520530_37);
-if (True == v__3520531_37) {
-Obj v__3520532_37 = makeCons(co->gc, v__3519777_37, Nil);
-Obj v__3520533_37 = makeCons(co->gc, v__3519776_37, v__3520532_37);
-Obj v__3520534_37 = makeCons(co->gc, v__3519775_37, v__3520533_37);
+Obj v__3519945_37 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj v__3520699_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520699_37) {
+Obj v__3520700_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520701_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520700_37);
+if (True == v__3520701_37) {
+Obj v__3520702_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520703_37 = PRIM_ISCONS(v__3520702_37);
+if (True == v__3520703_37) {
+Obj v__3520704_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520705_37 = PRIM_CAR(v__3520704_37);
+Obj v__3519968_37 = v__3520705_37;
+Obj v__3520706_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520707_37 = PRIM_CDR(v__3520706_37);
+Obj v__3520708_37 = PRIM_ISCONS(v__3520707_37);
+if (True == v__3520708_37) {
+Obj v__3520709_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520710_37 = PRIM_CDR(v__3520709_37);
+Obj v__3520711_37 = PRIM_CAR(v__3520710_37);
+Obj v__3519969_37 = v__3520711_37;
+Obj v__3520712_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520713_37 = PRIM_CDR(v__3520712_37);
+Obj v__3520714_37 = PRIM_CDR(v__3520713_37);
+Obj v__3520715_37 = PRIM_ISCONS(v__3520714_37);
+if (True == v__3520715_37) {
+Obj v__3520716_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520717_37 = PRIM_CDR(v__3520716_37);
+Obj v__3520718_37 = PRIM_CDR(v__3520717_37);
+Obj v__3520719_37 = PRIM_CAR(v__3520718_37);
+Obj v__3519970_37 = v__3520719_37;
+Obj v__3520720_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520721_37 = PRIM_CDR(v__3520720_37);
+Obj v__3520722_37 = PRIM_CDR(v__3520721_37);
+Obj v__3520723_37 = PRIM_CDR(v__3520722_37);
+Obj v__3520724_37 = PRIM_EQ(Nil, v__3520723_37);
+if (True == v__3520724_37) {
+Obj v__3520725_37 = makeCons(co->gc, v__3519970_37, Nil);
+Obj v__3520726_37 = makeCons(co->gc, v__3519969_37, v__3520725_37);
+Obj v__3520727_37 = makeCons(co->gc, v__3519968_37, v__3520726_37);
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520534_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520727_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519752_37);
+coraCall0(co, v__3519945_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519752_37);
+coraCall0(co, v__3519945_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519752_37);
+coraCall0(co, v__3519945_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519752_37);
+coraCall0(co, v__3519945_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519752_37);
+coraCall0(co, v__3519945_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519752_37);
+coraCall0(co, v__3519945_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520535_37= co->res;
+Obj v__3520728_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520535_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520728_37);
 return;
 }
 }
@@ -6832,67 +6832,67 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519753_37 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
-Obj v__3520486_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520486_37) {
-Obj v__3520487_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520488_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520487_37);
-if (True == v__3520488_37) {
-Obj v__3520489_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520490_37 = PRIM_ISCONS(v__3520489_37);
-if (True == v__3520490_37) {
-Obj v__3520491_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520492_37 = PRIM_CAR(v__3520491_37);
-Obj v__3519773_37 = v__3520492_37;
-Obj v__3520493_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520494_37 = PRIM_CDR(v__3520493_37);
-Obj v__3520495_37 = PRIM_ISCONS(v__3520494_37);
-if (True == v__3520495_37) {
-Obj v__3520496_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520497_37 = PRIM_CDR(v__3520496_37);
-Obj v__3520498_37 = PRIM_CAR(v__3520497_37);
-Obj v__3519774_37 = v__3520498_37;
-Obj v__3520499_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520500_37 = PRIM_CDR(v__3520499_37);
-Obj v__3520501_37 = PRIM_CDR(v__3520500_37);
-Obj v__3520502_37 = PRIM_EQ(Nil, v__3520501_37);
-if (True == v__3520502_37) {
-Obj v__3520503_37 = makeCons(co->gc, v__3519774_37, Nil);
-Obj v__3520504_37 = makeCons(co->gc, v__3519773_37, v__3520503_37);
+Obj v__3519946_37 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
+Obj v__3520679_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520679_37) {
+Obj v__3520680_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520681_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520680_37);
+if (True == v__3520681_37) {
+Obj v__3520682_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520683_37 = PRIM_ISCONS(v__3520682_37);
+if (True == v__3520683_37) {
+Obj v__3520684_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520685_37 = PRIM_CAR(v__3520684_37);
+Obj v__3519966_37 = v__3520685_37;
+Obj v__3520686_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520687_37 = PRIM_CDR(v__3520686_37);
+Obj v__3520688_37 = PRIM_ISCONS(v__3520687_37);
+if (True == v__3520688_37) {
+Obj v__3520689_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520690_37 = PRIM_CDR(v__3520689_37);
+Obj v__3520691_37 = PRIM_CAR(v__3520690_37);
+Obj v__3519967_37 = v__3520691_37;
+Obj v__3520692_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520693_37 = PRIM_CDR(v__3520692_37);
+Obj v__3520694_37 = PRIM_CDR(v__3520693_37);
+Obj v__3520695_37 = PRIM_EQ(Nil, v__3520694_37);
+if (True == v__3520695_37) {
+Obj v__3520696_37 = makeCons(co->gc, v__3519967_37, Nil);
+Obj v__3520697_37 = makeCons(co->gc, v__3519966_37, v__3520696_37);
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520504_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520697_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519753_37);
+coraCall0(co, v__3519946_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519753_37);
+coraCall0(co, v__3519946_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519753_37);
+coraCall0(co, v__3519946_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519753_37);
+coraCall0(co, v__3519946_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519753_37);
+coraCall0(co, v__3519946_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520505_37= co->res;
+Obj v__3520698_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520505_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520698_37);
 return;
 }
 }
@@ -6902,106 +6902,106 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519754_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
-Obj v__3520456_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520456_37) {
-Obj v__3520457_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520458_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520457_37);
-if (True == v__3520458_37) {
-Obj v__3520459_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520460_37 = PRIM_ISCONS(v__3520459_37);
-if (True == v__3520460_37) {
-Obj v__3520461_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520462_37 = PRIM_CAR(v__3520461_37);
-Obj v__3519770_37 = v__3520462_37;
-Obj v__3520463_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520464_37 = PRIM_CDR(v__3520463_37);
-Obj v__3520465_37 = PRIM_ISCONS(v__3520464_37);
-if (True == v__3520465_37) {
-Obj v__3520466_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520467_37 = PRIM_CDR(v__3520466_37);
-Obj v__3520468_37 = PRIM_CAR(v__3520467_37);
-Obj v__3519771_37 = v__3520468_37;
-Obj v__3520469_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520470_37 = PRIM_CDR(v__3520469_37);
-Obj v__3520471_37 = PRIM_CDR(v__3520470_37);
-Obj v__3520472_37 = PRIM_ISCONS(v__3520471_37);
-if (True == v__3520472_37) {
-Obj v__3520473_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520474_37 = PRIM_CDR(v__3520473_37);
-Obj v__3520475_37 = PRIM_CDR(v__3520474_37);
-Obj v__3520476_37 = PRIM_CAR(v__3520475_37);
-Obj v__3519772_37 = v__3520476_37;
-Obj v__3520477_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520478_37 = PRIM_CDR(v__3520477_37);
-Obj v__3520479_37 = PRIM_CDR(v__3520478_37);
-Obj v__3520480_37 = PRIM_CDR(v__3520479_37);
-Obj v__3520481_37 = PRIM_EQ(Nil, v__3520480_37);
-if (True == v__3520481_37) {
-R[1] = v__3519772_37;
-R[2] = v__3519770_37;
+Obj v__3519947_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v__3520649_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520649_37) {
+Obj v__3520650_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520651_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520650_37);
+if (True == v__3520651_37) {
+Obj v__3520652_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520653_37 = PRIM_ISCONS(v__3520652_37);
+if (True == v__3520653_37) {
+Obj v__3520654_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520655_37 = PRIM_CAR(v__3520654_37);
+Obj v__3519963_37 = v__3520655_37;
+Obj v__3520656_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520657_37 = PRIM_CDR(v__3520656_37);
+Obj v__3520658_37 = PRIM_ISCONS(v__3520657_37);
+if (True == v__3520658_37) {
+Obj v__3520659_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520660_37 = PRIM_CDR(v__3520659_37);
+Obj v__3520661_37 = PRIM_CAR(v__3520660_37);
+Obj v__3519964_37 = v__3520661_37;
+Obj v__3520662_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520663_37 = PRIM_CDR(v__3520662_37);
+Obj v__3520664_37 = PRIM_CDR(v__3520663_37);
+Obj v__3520665_37 = PRIM_ISCONS(v__3520664_37);
+if (True == v__3520665_37) {
+Obj v__3520666_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520667_37 = PRIM_CDR(v__3520666_37);
+Obj v__3520668_37 = PRIM_CDR(v__3520667_37);
+Obj v__3520669_37 = PRIM_CAR(v__3520668_37);
+Obj v__3519965_37 = v__3520669_37;
+Obj v__3520670_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520671_37 = PRIM_CDR(v__3520670_37);
+Obj v__3520672_37 = PRIM_CDR(v__3520671_37);
+Obj v__3520673_37 = PRIM_CDR(v__3520672_37);
+Obj v__3520674_37 = PRIM_EQ(Nil, v__3520673_37);
+if (True == v__3520674_37) {
+R[1] = v__3519965_37;
+R[2] = v__3519963_37;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519771_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519964_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519754_37);
+coraCall0(co, v__3519947_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519754_37);
+coraCall0(co, v__3519947_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519754_37);
+coraCall0(co, v__3519947_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519754_37);
+coraCall0(co, v__3519947_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519754_37);
+coraCall0(co, v__3519947_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519754_37);
+coraCall0(co, v__3519947_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520485_37= co->res;
-Obj v__3520482_37 = R[1];
+Obj v__3520678_37= co->res;
+Obj v__3520675_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3520482_37, v__3520485_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3520675_37, v__3520678_37);
 return;
 }
 case 2:
 {
-Obj v__3520483_37= co->res;
-Obj v__3519770_37 = R[1];
-Obj v__3520482_37 = R[2];
-Obj v__3520484_37 = makeCons(co->gc, v__3519770_37, Nil);
-R[1] = v__3520482_37;
+Obj v__3520676_37= co->res;
+Obj v__3519963_37 = R[1];
+Obj v__3520675_37 = R[2];
+Obj v__3520677_37 = makeCons(co->gc, v__3519963_37, Nil);
+R[1] = v__3520675_37;
 saveCont(co, clofun42, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520483_37, v__3520484_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520676_37, v__3520677_37);
 return;
 }
 case 3:
 {
-Obj v__3520482_37= co->res;
-Obj v__3519772_37 = R[1];
-Obj v__3519770_37 = R[2];
-R[1] = v__3519770_37;
-R[2] = v__3520482_37;
+Obj v__3520675_37= co->res;
+Obj v__3519965_37 = R[1];
+Obj v__3519963_37 = R[2];
+R[1] = v__3519963_37;
+R[2] = v__3520675_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519772_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519965_37);
 return;
 }
 }
@@ -7011,38 +7011,38 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519755_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v__3520446_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520446_37) {
-Obj v__3520447_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520448_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520447_37);
-if (True == v__3520448_37) {
-Obj v__3520449_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520450_37 = PRIM_ISCONS(v__3520449_37);
-if (True == v__3520450_37) {
-Obj v__3520451_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520452_37 = PRIM_CAR(v__3520451_37);
-Obj v__3519768_37 = v__3520452_37;
-Obj v__3520453_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520454_37 = PRIM_CDR(v__3520453_37);
-Obj v__3519769_37 = v__3520454_37;
-Obj v__3520455_37 = makeCons(co->gc, v__3519768_37, v__3519769_37);
+Obj v__3519948_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3520639_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520639_37) {
+Obj v__3520640_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520641_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520640_37);
+if (True == v__3520641_37) {
+Obj v__3520642_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520643_37 = PRIM_ISCONS(v__3520642_37);
+if (True == v__3520643_37) {
+Obj v__3520644_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520645_37 = PRIM_CAR(v__3520644_37);
+Obj v__3519961_37 = v__3520645_37;
+Obj v__3520646_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520647_37 = PRIM_CDR(v__3520646_37);
+Obj v__3519962_37 = v__3520647_37;
+Obj v__3520648_37 = makeCons(co->gc, v__3519961_37, v__3519962_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3520455_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3520648_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519755_37);
+coraCall0(co, v__3519948_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519755_37);
+coraCall0(co, v__3519948_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519755_37);
+coraCall0(co, v__3519948_37);
 return;
 }
 }
@@ -7053,43 +7053,43 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519756_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v__3520436_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520436_37) {
-Obj v__3520437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520438_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3520437_37);
-if (True == v__3520438_37) {
-Obj v__3520439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520440_37 = PRIM_ISCONS(v__3520439_37);
-if (True == v__3520440_37) {
-Obj v__3520441_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520442_37 = PRIM_CAR(v__3520441_37);
-Obj v__3519767_37 = v__3520442_37;
-Obj v__3520443_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520444_37 = PRIM_CDR(v__3520443_37);
-Obj v__3520445_37 = PRIM_EQ(Nil, v__3520444_37);
-if (True == v__3520445_37) {
+Obj v__3519949_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3520629_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520629_37) {
+Obj v__3520630_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520631_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3520630_37);
+if (True == v__3520631_37) {
+Obj v__3520632_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520633_37 = PRIM_ISCONS(v__3520632_37);
+if (True == v__3520633_37) {
+Obj v__3520634_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520635_37 = PRIM_CAR(v__3520634_37);
+Obj v__3519960_37 = v__3520635_37;
+Obj v__3520636_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520637_37 = PRIM_CDR(v__3520636_37);
+Obj v__3520638_37 = PRIM_EQ(Nil, v__3520637_37);
+if (True == v__3520638_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519767_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519960_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519756_37);
+coraCall0(co, v__3519949_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519756_37);
+coraCall0(co, v__3519949_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519756_37);
+coraCall0(co, v__3519949_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519756_37);
+coraCall0(co, v__3519949_37);
 return;
 }
 }
@@ -7100,67 +7100,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519757_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v__3520416_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520416_37) {
-Obj v__3520417_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520418_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520417_37);
-if (True == v__3520418_37) {
-Obj v__3520419_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520420_37 = PRIM_ISCONS(v__3520419_37);
-if (True == v__3520420_37) {
-Obj v__3520421_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520422_37 = PRIM_CAR(v__3520421_37);
-Obj v__3519765_37 = v__3520422_37;
-Obj v__3520423_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520424_37 = PRIM_CDR(v__3520423_37);
-Obj v__3520425_37 = PRIM_ISCONS(v__3520424_37);
-if (True == v__3520425_37) {
-Obj v__3520426_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520427_37 = PRIM_CDR(v__3520426_37);
-Obj v__3520428_37 = PRIM_CAR(v__3520427_37);
-Obj v__3519766_37 = v__3520428_37;
-Obj v__3520429_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520430_37 = PRIM_CDR(v__3520429_37);
-Obj v__3520431_37 = PRIM_CDR(v__3520430_37);
-Obj v__3520432_37 = PRIM_EQ(Nil, v__3520431_37);
-if (True == v__3520432_37) {
-Obj v__3520433_37 = makeCons(co->gc, v__3519766_37, Nil);
-Obj v__3520434_37 = makeCons(co->gc, v__3519765_37, v__3520433_37);
+Obj v__3519950_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3520609_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520609_37) {
+Obj v__3520610_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520611_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520610_37);
+if (True == v__3520611_37) {
+Obj v__3520612_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520613_37 = PRIM_ISCONS(v__3520612_37);
+if (True == v__3520613_37) {
+Obj v__3520614_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520615_37 = PRIM_CAR(v__3520614_37);
+Obj v__3519958_37 = v__3520615_37;
+Obj v__3520616_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520617_37 = PRIM_CDR(v__3520616_37);
+Obj v__3520618_37 = PRIM_ISCONS(v__3520617_37);
+if (True == v__3520618_37) {
+Obj v__3520619_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520620_37 = PRIM_CDR(v__3520619_37);
+Obj v__3520621_37 = PRIM_CAR(v__3520620_37);
+Obj v__3519959_37 = v__3520621_37;
+Obj v__3520622_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520623_37 = PRIM_CDR(v__3520622_37);
+Obj v__3520624_37 = PRIM_CDR(v__3520623_37);
+Obj v__3520625_37 = PRIM_EQ(Nil, v__3520624_37);
+if (True == v__3520625_37) {
+Obj v__3520626_37 = makeCons(co->gc, v__3519959_37, Nil);
+Obj v__3520627_37 = makeCons(co->gc, v__3519958_37, v__3520626_37);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520434_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520627_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519757_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519757_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519757_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519757_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519757_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520435_37= co->res;
+Obj v__3520628_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520435_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520628_37);
 return;
 }
 }
@@ -7170,43 +7170,43 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519758_37 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v__3520406_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520406_37) {
-Obj v__3520407_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520408_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3520407_37);
-if (True == v__3520408_37) {
-Obj v__3520409_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520410_37 = PRIM_ISCONS(v__3520409_37);
-if (True == v__3520410_37) {
-Obj v__3520411_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520412_37 = PRIM_CAR(v__3520411_37);
-Obj v__3519764_37 = v__3520412_37;
-Obj v__3520413_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520414_37 = PRIM_CDR(v__3520413_37);
-Obj v__3520415_37 = PRIM_EQ(Nil, v__3520414_37);
-if (True == v__3520415_37) {
+Obj v__3519951_37 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3520599_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520599_37) {
+Obj v__3520600_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520601_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3520600_37);
+if (True == v__3520601_37) {
+Obj v__3520602_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520603_37 = PRIM_ISCONS(v__3520602_37);
+if (True == v__3520603_37) {
+Obj v__3520604_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520605_37 = PRIM_CAR(v__3520604_37);
+Obj v__3519957_37 = v__3520605_37;
+Obj v__3520606_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520607_37 = PRIM_CDR(v__3520606_37);
+Obj v__3520608_37 = PRIM_EQ(Nil, v__3520607_37);
+if (True == v__3520608_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519764_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519957_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519758_37);
+coraCall0(co, v__3519951_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519758_37);
+coraCall0(co, v__3519951_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519758_37);
+coraCall0(co, v__3519951_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519758_37);
+coraCall0(co, v__3519951_37);
 return;
 }
 }
@@ -7217,67 +7217,67 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519759_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v__3520388_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520388_37) {
-Obj v__3520389_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520390_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520389_37);
-if (True == v__3520390_37) {
-Obj v__3520391_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520392_37 = PRIM_ISCONS(v__3520391_37);
-if (True == v__3520392_37) {
-Obj v__3520393_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520394_37 = PRIM_CAR(v__3520393_37);
-Obj v__3519762_37 = v__3520394_37;
-Obj v__3520395_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520396_37 = PRIM_CDR(v__3520395_37);
-Obj v__3520397_37 = PRIM_ISCONS(v__3520396_37);
-if (True == v__3520397_37) {
-Obj v__3520398_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520399_37 = PRIM_CDR(v__3520398_37);
-Obj v__3520400_37 = PRIM_CAR(v__3520399_37);
-Obj v__3519763_37 = v__3520400_37;
-Obj v__3520401_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520402_37 = PRIM_CDR(v__3520401_37);
-Obj v__3520403_37 = PRIM_CDR(v__3520402_37);
-Obj v__3520404_37 = PRIM_EQ(Nil, v__3520403_37);
-if (True == v__3520404_37) {
-R[1] = v__3519762_37;
+Obj v__3519952_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3520581_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520581_37) {
+Obj v__3520582_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520583_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520582_37);
+if (True == v__3520583_37) {
+Obj v__3520584_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520585_37 = PRIM_ISCONS(v__3520584_37);
+if (True == v__3520585_37) {
+Obj v__3520586_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520587_37 = PRIM_CAR(v__3520586_37);
+Obj v__3519955_37 = v__3520587_37;
+Obj v__3520588_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520589_37 = PRIM_CDR(v__3520588_37);
+Obj v__3520590_37 = PRIM_ISCONS(v__3520589_37);
+if (True == v__3520590_37) {
+Obj v__3520591_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520592_37 = PRIM_CDR(v__3520591_37);
+Obj v__3520593_37 = PRIM_CAR(v__3520592_37);
+Obj v__3519956_37 = v__3520593_37;
+Obj v__3520594_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520595_37 = PRIM_CDR(v__3520594_37);
+Obj v__3520596_37 = PRIM_CDR(v__3520595_37);
+Obj v__3520597_37 = PRIM_EQ(Nil, v__3520596_37);
+if (True == v__3520597_37) {
+R[1] = v__3519955_37;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519763_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519956_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519759_37);
+coraCall0(co, v__3519952_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519759_37);
+coraCall0(co, v__3519952_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519759_37);
+coraCall0(co, v__3519952_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519759_37);
+coraCall0(co, v__3519952_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519759_37);
+coraCall0(co, v__3519952_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520405_37= co->res;
-Obj v__3519762_37 = R[1];
+Obj v__3520598_37= co->res;
+Obj v__3519955_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520405_37, v__3519762_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520598_37, v__3519955_37);
 return;
 }
 }
@@ -7287,15 +7287,15 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520383_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520383_37) {
-Obj v__3520384_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519760_37 = v__3520384_37;
-Obj v__3520385_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519761_37 = v__3520385_37;
-Obj v__3520386_37 = makeCons(co->gc, v__3519760_37, v__3519761_37);
+Obj v__3520576_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520576_37) {
+Obj v__3520577_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519953_37 = v__3520577_37;
+Obj v__3520578_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519954_37 = v__3520578_37;
+Obj v__3520579_37 = makeCons(co->gc, v__3519953_37, v__3519954_37);
 saveCont(co, clofun36, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520386_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 78)), v__3520579_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7305,9 +7305,9 @@ return;
 }
 case 1:
 {
-Obj v__3520387_37= co->res;
+Obj v__3520580_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520387_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), globalRef(co, getBinding(co, packageID, 84)), Nil, v__3520580_37);
 return;
 }
 }
@@ -7317,42 +7317,42 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519166_37 = R[1];
-Obj v__3519744_37 = makeNative(co->gc, 1, clofun34, 0, 1, v__3519166_37);
-Obj v__3520369_37 = PRIM_ISCONS(v__3519166_37);
-if (True == v__3520369_37) {
-Obj v__3520370_37 = PRIM_CAR(v__3519166_37);
-Obj v__3520371_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520370_37);
-if (True == v__3520371_37) {
-Obj v__3520372_37 = PRIM_CDR(v__3519166_37);
-Obj v__3520373_37 = PRIM_ISCONS(v__3520372_37);
-if (True == v__3520373_37) {
-Obj v__3520374_37 = PRIM_CDR(v__3519166_37);
-Obj v__3520375_37 = PRIM_CAR(v__3520374_37);
-Obj v__3520376_37 = PRIM_CDR(v__3519166_37);
-Obj v__3520377_37 = PRIM_CDR(v__3520376_37);
-Obj v__3520378_37 = PRIM_EQ(Nil, v__3520377_37);
-if (True == v__3520378_37) {
+Obj v__3519359_37 = R[1];
+Obj v__3519937_37 = makeNative(co->gc, 1, clofun34, 0, 1, v__3519359_37);
+Obj v__3520562_37 = PRIM_ISCONS(v__3519359_37);
+if (True == v__3520562_37) {
+Obj v__3520563_37 = PRIM_CAR(v__3519359_37);
+Obj v__3520564_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520563_37);
+if (True == v__3520564_37) {
+Obj v__3520565_37 = PRIM_CDR(v__3519359_37);
+Obj v__3520566_37 = PRIM_ISCONS(v__3520565_37);
+if (True == v__3520566_37) {
+Obj v__3520567_37 = PRIM_CDR(v__3519359_37);
+Obj v__3520568_37 = PRIM_CAR(v__3520567_37);
+Obj v__3520569_37 = PRIM_CDR(v__3519359_37);
+Obj v__3520570_37 = PRIM_CDR(v__3520569_37);
+Obj v__3520571_37 = PRIM_EQ(Nil, v__3520570_37);
+if (True == v__3520571_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519744_37);
+coraCall0(co, v__3519937_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519744_37);
+coraCall0(co, v__3519937_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519744_37);
+coraCall0(co, v__3519937_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519744_37);
+coraCall0(co, v__3519937_37);
 return;
 }
 }
@@ -7363,41 +7363,41 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519745_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
-Obj v__3520359_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520359_37) {
-Obj v__3520360_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520361_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3520360_37);
-if (True == v__3520361_37) {
-Obj v__3520362_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520363_37 = PRIM_ISCONS(v__3520362_37);
-if (True == v__3520363_37) {
-Obj v__3520364_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520365_37 = PRIM_CAR(v__3520364_37);
-Obj v__3520366_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520367_37 = PRIM_CDR(v__3520366_37);
-Obj v__3520368_37 = PRIM_EQ(Nil, v__3520367_37);
-if (True == v__3520368_37) {
+Obj v__3519938_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj v__3520552_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520552_37) {
+Obj v__3520553_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520554_37 = PRIM_EQ(getBinding(co, packageID, 95).name, v__3520553_37);
+if (True == v__3520554_37) {
+Obj v__3520555_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520556_37 = PRIM_ISCONS(v__3520555_37);
+if (True == v__3520556_37) {
+Obj v__3520557_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520558_37 = PRIM_CAR(v__3520557_37);
+Obj v__3520559_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520560_37 = PRIM_CDR(v__3520559_37);
+Obj v__3520561_37 = PRIM_EQ(Nil, v__3520560_37);
+if (True == v__3520561_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519745_37);
+coraCall0(co, v__3519938_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519745_37);
+coraCall0(co, v__3519938_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519745_37);
+coraCall0(co, v__3519938_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519745_37);
+coraCall0(co, v__3519938_37);
 return;
 }
 }
@@ -7408,41 +7408,41 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519746_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj v__3520349_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520349_37) {
-Obj v__3520350_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520351_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3520350_37);
-if (True == v__3520351_37) {
-Obj v__3520352_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520353_37 = PRIM_ISCONS(v__3520352_37);
-if (True == v__3520353_37) {
-Obj v__3520354_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520355_37 = PRIM_CAR(v__3520354_37);
-Obj v__3520356_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520357_37 = PRIM_CDR(v__3520356_37);
-Obj v__3520358_37 = PRIM_EQ(Nil, v__3520357_37);
-if (True == v__3520358_37) {
+Obj v__3519939_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj v__3520542_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520542_37) {
+Obj v__3520543_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520544_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3520543_37);
+if (True == v__3520544_37) {
+Obj v__3520545_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520546_37 = PRIM_ISCONS(v__3520545_37);
+if (True == v__3520546_37) {
+Obj v__3520547_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520548_37 = PRIM_CAR(v__3520547_37);
+Obj v__3520549_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520550_37 = PRIM_CDR(v__3520549_37);
+Obj v__3520551_37 = PRIM_EQ(Nil, v__3520550_37);
+if (True == v__3520551_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519746_37);
+coraCall0(co, v__3519939_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519746_37);
+coraCall0(co, v__3519939_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519746_37);
+coraCall0(co, v__3519939_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519746_37);
+coraCall0(co, v__3519939_37);
 return;
 }
 }
@@ -7453,41 +7453,41 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519747_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
-Obj v__3520339_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520339_37) {
-Obj v__3520340_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520341_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520340_37);
-if (True == v__3520341_37) {
-Obj v__3520342_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520343_37 = PRIM_ISCONS(v__3520342_37);
-if (True == v__3520343_37) {
-Obj v__3520344_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520345_37 = PRIM_CAR(v__3520344_37);
-Obj v__3520346_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520347_37 = PRIM_CDR(v__3520346_37);
-Obj v__3520348_37 = PRIM_EQ(Nil, v__3520347_37);
-if (True == v__3520348_37) {
+Obj v__3519940_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj v__3520532_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520532_37) {
+Obj v__3520533_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520534_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520533_37);
+if (True == v__3520534_37) {
+Obj v__3520535_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520536_37 = PRIM_ISCONS(v__3520535_37);
+if (True == v__3520536_37) {
+Obj v__3520537_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520538_37 = PRIM_CAR(v__3520537_37);
+Obj v__3520539_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520540_37 = PRIM_CDR(v__3520539_37);
+Obj v__3520541_37 = PRIM_EQ(Nil, v__3520540_37);
+if (True == v__3520541_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519747_37);
+coraCall0(co, v__3519940_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519747_37);
+coraCall0(co, v__3519940_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519747_37);
+coraCall0(co, v__3519940_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519747_37);
+coraCall0(co, v__3519940_37);
 return;
 }
 }
@@ -7498,41 +7498,41 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519748_37 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v__3520329_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520329_37) {
-Obj v__3520330_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520331_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3520330_37);
-if (True == v__3520331_37) {
-Obj v__3520332_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520333_37 = PRIM_ISCONS(v__3520332_37);
-if (True == v__3520333_37) {
-Obj v__3520334_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520335_37 = PRIM_CAR(v__3520334_37);
-Obj v__3520336_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520337_37 = PRIM_CDR(v__3520336_37);
-Obj v__3520338_37 = PRIM_EQ(Nil, v__3520337_37);
-if (True == v__3520338_37) {
+Obj v__3519941_37 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3520522_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520522_37) {
+Obj v__3520523_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520524_37 = PRIM_EQ(getBinding(co, packageID, 79).name, v__3520523_37);
+if (True == v__3520524_37) {
+Obj v__3520525_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520526_37 = PRIM_ISCONS(v__3520525_37);
+if (True == v__3520526_37) {
+Obj v__3520527_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520528_37 = PRIM_CAR(v__3520527_37);
+Obj v__3520529_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520530_37 = PRIM_CDR(v__3520529_37);
+Obj v__3520531_37 = PRIM_EQ(Nil, v__3520530_37);
+if (True == v__3520531_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519748_37);
+coraCall0(co, v__3519941_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519748_37);
+coraCall0(co, v__3519941_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519748_37);
+coraCall0(co, v__3519941_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519748_37);
+coraCall0(co, v__3519941_37);
 return;
 }
 }
@@ -7543,50 +7543,50 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519749_37 = makeNative(co->gc, 1, clofun29, 0, 0);
-Obj v__3520319_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520319_37) {
-Obj v__3520320_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520321_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520320_37);
-if (True == v__3520321_37) {
-Obj v__3520322_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520323_37 = PRIM_ISCONS(v__3520322_37);
-if (True == v__3520323_37) {
-Obj v__3520324_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520325_37 = PRIM_CAR(v__3520324_37);
-Obj v__3519750_37 = v__3520325_37;
-Obj v__3520326_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520327_37 = PRIM_CDR(v__3520326_37);
-R[1] = v__3519749_37;
+Obj v__3519942_37 = makeNative(co->gc, 1, clofun29, 0, 0);
+Obj v__3520512_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520512_37) {
+Obj v__3520513_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520514_37 = PRIM_EQ(getBinding(co, packageID, 80).name, v__3520513_37);
+if (True == v__3520514_37) {
+Obj v__3520515_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520516_37 = PRIM_ISCONS(v__3520515_37);
+if (True == v__3520516_37) {
+Obj v__3520517_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520518_37 = PRIM_CAR(v__3520517_37);
+Obj v__3519943_37 = v__3520518_37;
+Obj v__3520519_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520520_37 = PRIM_CDR(v__3520519_37);
+R[1] = v__3519942_37;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3519750_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3519943_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519749_37);
+coraCall0(co, v__3519942_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519749_37);
+coraCall0(co, v__3519942_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519749_37);
+coraCall0(co, v__3519942_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520328_37= co->res;
-Obj v__3519749_37 = R[1];
-if (True == v__3520328_37) {
+Obj v__3520521_37= co->res;
+Obj v__3519942_37 = R[1];
+if (True == v__3520521_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519749_37);
+coraCall0(co, v__3519942_37);
 return;
 }
 }
@@ -7607,46 +7607,46 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519154_37 = R[1];
-Obj v__3519155_37 = R[2];
-Obj v__3520308_37 = PRIM_EQ(Nil, v__3519154_37);
-if (True == v__3520308_37) {
+Obj v__3519347_37 = R[1];
+Obj v__3519348_37 = R[2];
+Obj v__3520501_37 = PRIM_EQ(Nil, v__3519347_37);
+if (True == v__3520501_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519739_37 = makeNative(co->gc, 2, clofun27, 0, 2, v__3519154_37, v__3519155_37);
-Obj v__3520314_37 = PRIM_ISCONS(v__3519154_37);
-if (True == v__3520314_37) {
-Obj v__3520315_37 = PRIM_CAR(v__3519154_37);
-Obj v__3519742_37 = v__3520315_37;
-Obj v__3520316_37 = PRIM_CDR(v__3519154_37);
-Obj v__3519743_37 = v__3520316_37;
-R[1] = v__3519743_37;
-R[2] = v__3519155_37;
-R[3] = v__3519739_37;
+Obj v__3519932_37 = makeNative(co->gc, 2, clofun27, 0, 2, v__3519347_37, v__3519348_37);
+Obj v__3520507_37 = PRIM_ISCONS(v__3519347_37);
+if (True == v__3520507_37) {
+Obj v__3520508_37 = PRIM_CAR(v__3519347_37);
+Obj v__3519935_37 = v__3520508_37;
+Obj v__3520509_37 = PRIM_CDR(v__3519347_37);
+Obj v__3519936_37 = v__3520509_37;
+R[1] = v__3519936_37;
+R[2] = v__3519348_37;
+R[3] = v__3519932_37;
 saveCont(co, clofun28, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519742_37, v__3519155_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519935_37, v__3519348_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519739_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520317_37= co->res;
-Obj v__3519743_37 = R[1];
-Obj v__3519155_37 = R[2];
-Obj v__3519739_37 = R[3];
-if (True == v__3520317_37) {
+Obj v__3520510_37= co->res;
+Obj v__3519936_37 = R[1];
+Obj v__3519348_37 = R[2];
+Obj v__3519932_37 = R[3];
+if (True == v__3520510_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519743_37, v__3519155_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519936_37, v__3519348_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519739_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 }
@@ -7657,15 +7657,15 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520309_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520309_37) {
-Obj v__3520310_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519740_37 = v__3520310_37;
-Obj v__3520311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519741_37 = v__3520311_37;
-R[1] = v__3519740_37;
+Obj v__3520502_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520502_37) {
+Obj v__3520503_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519933_37 = v__3520503_37;
+Obj v__3520504_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519934_37 = v__3520504_37;
+R[1] = v__3519933_37;
 saveCont(co, clofun27, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519741_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519934_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7675,10 +7675,10 @@ return;
 }
 case 1:
 {
-Obj v__3520312_37= co->res;
-Obj v__3519740_37 = R[1];
-Obj v__3520313_37 = makeCons(co->gc, v__3519740_37, v__3520312_37);
-coraReturn(co, v__3520313_37);
+Obj v__3520505_37= co->res;
+Obj v__3519933_37 = R[1];
+Obj v__3520506_37 = makeCons(co->gc, v__3519933_37, v__3520505_37);
+coraReturn(co, v__3520506_37);
 return;
 }
 }
@@ -7688,46 +7688,46 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519142_37 = R[1];
-Obj v__3519143_37 = R[2];
-Obj v__3520297_37 = PRIM_EQ(Nil, v__3519142_37);
-if (True == v__3520297_37) {
-coraReturn(co, v__3519143_37);
-return;
-} else {
-Obj v__3519734_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3519142_37, v__3519143_37);
-Obj v__3520303_37 = PRIM_ISCONS(v__3519142_37);
-if (True == v__3520303_37) {
-Obj v__3520304_37 = PRIM_CAR(v__3519142_37);
-Obj v__3519737_37 = v__3520304_37;
-Obj v__3520305_37 = PRIM_CDR(v__3519142_37);
-Obj v__3519738_37 = v__3520305_37;
-R[1] = v__3519738_37;
-R[2] = v__3519143_37;
-R[3] = v__3519734_37;
+Obj v__3519335_37 = R[1];
+Obj v__3519336_37 = R[2];
+Obj v__3520490_37 = PRIM_EQ(Nil, v__3519335_37);
+if (True == v__3520490_37) {
+coraReturn(co, v__3519336_37);
+return;
+} else {
+Obj v__3519927_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3519335_37, v__3519336_37);
+Obj v__3520496_37 = PRIM_ISCONS(v__3519335_37);
+if (True == v__3520496_37) {
+Obj v__3520497_37 = PRIM_CAR(v__3519335_37);
+Obj v__3519930_37 = v__3520497_37;
+Obj v__3520498_37 = PRIM_CDR(v__3519335_37);
+Obj v__3519931_37 = v__3520498_37;
+R[1] = v__3519931_37;
+R[2] = v__3519336_37;
+R[3] = v__3519927_37;
 saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519737_37, v__3519143_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), v__3519930_37, v__3519336_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519734_37);
+coraCall0(co, v__3519927_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520306_37= co->res;
-Obj v__3519738_37 = R[1];
-Obj v__3519143_37 = R[2];
-Obj v__3519734_37 = R[3];
-if (True == v__3520306_37) {
+Obj v__3520499_37= co->res;
+Obj v__3519931_37 = R[1];
+Obj v__3519336_37 = R[2];
+Obj v__3519927_37 = R[3];
+if (True == v__3520499_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3519738_37, v__3519143_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3519931_37, v__3519336_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519734_37);
+coraCall0(co, v__3519927_37);
 return;
 }
 }
@@ -7738,15 +7738,15 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520298_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520298_37) {
-Obj v__3520299_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519735_37 = v__3520299_37;
-Obj v__3520300_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519736_37 = v__3520300_37;
-R[1] = v__3519735_37;
+Obj v__3520491_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520491_37) {
+Obj v__3520492_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519928_37 = v__3520492_37;
+Obj v__3520493_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519929_37 = v__3520493_37;
+R[1] = v__3519928_37;
 saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3519736_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 84)), v__3519929_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7756,10 +7756,10 @@ return;
 }
 case 1:
 {
-Obj v__3520301_37= co->res;
-Obj v__3519735_37 = R[1];
-Obj v__3520302_37 = makeCons(co->gc, v__3519735_37, v__3520301_37);
-coraReturn(co, v__3520302_37);
+Obj v__3520494_37= co->res;
+Obj v__3519928_37 = R[1];
+Obj v__3520495_37 = makeCons(co->gc, v__3519928_37, v__3520494_37);
+coraReturn(co, v__3520495_37);
 return;
 }
 }
@@ -7769,66 +7769,66 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519043_37 = R[1];
-Obj v__3519044_37 = R[2];
-Obj v__3519045_37 = R[3];
-Obj v__3519701_37 = makeNative(co->gc, 2, clofun23, 1, 3, v__3519043_37, v__3519045_37, v__3519044_37);
-R[1] = v__3519045_37;
-R[2] = v__3519701_37;
+Obj v__3519236_37 = R[1];
+Obj v__3519237_37 = R[2];
+Obj v__3519238_37 = R[3];
+Obj v__3519894_37 = makeNative(co->gc, 2, clofun23, 1, 3, v__3519236_37, v__3519238_37, v__3519237_37);
+R[1] = v__3519238_37;
+R[2] = v__3519894_37;
 saveCont(co, clofun24, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3519045_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 86)), v__3519238_37);
 return;
 }
 case 1:
 {
-Obj v__3520295_37= co->res;
-Obj v__3519701_37 = R[1];
-if (True == v__3520295_37) {
+Obj v__3520488_37= co->res;
+Obj v__3519894_37 = R[1];
+if (True == v__3520488_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519701_37, True);
+coraCall1(co, v__3519894_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519701_37, False);
+coraCall1(co, v__3519894_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3520294_37= co->res;
-Obj v__3519045_37 = R[1];
-Obj v__3519701_37 = R[2];
-if (True == v__3520294_37) {
+Obj v__3520487_37= co->res;
+Obj v__3519238_37 = R[1];
+Obj v__3519894_37 = R[2];
+if (True == v__3520487_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519701_37, True);
+coraCall1(co, v__3519894_37, True);
 return;
 } else {
-R[1] = v__3519701_37;
+R[1] = v__3519894_37;
 saveCont(co, clofun24, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519045_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519238_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3520292_37= co->res;
-Obj v__3519045_37 = R[1];
-Obj v__3519701_37 = R[2];
-if (True == v__3520292_37) {
+Obj v__3520485_37= co->res;
+Obj v__3519238_37 = R[1];
+Obj v__3519894_37 = R[2];
+if (True == v__3520485_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519701_37, True);
+coraCall1(co, v__3519894_37, True);
 return;
 } else {
-Obj v__3520293_37 = primIsString(v__3519045_37);
-if (True == v__3520293_37) {
+Obj v__3520486_37 = primIsString(v__3519238_37);
+if (True == v__3520486_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519701_37, True);
+coraCall1(co, v__3519894_37, True);
 return;
 } else {
-R[1] = v__3519045_37;
-R[2] = v__3519701_37;
+R[1] = v__3519238_37;
+R[2] = v__3519894_37;
 saveCont(co, clofun24, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), v__3519045_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), v__3519238_37);
 return;
 }
 }
@@ -7840,62 +7840,62 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519700_37 = R[1];
-if (True == v__3519700_37) {
-Obj v__3520095_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v__3520096_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520095_37);
-coraReturn(co, v__3520096_37);
-return;
-} else {
-Obj v__3519702_37 = makeNative(co->gc, 3, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj v__3520279_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3520279_37) {
-Obj v__3520280_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3520281_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520280_37);
-if (True == v__3520281_37) {
-Obj v__3520282_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3520283_37 = PRIM_ISCONS(v__3520282_37);
-if (True == v__3520283_37) {
-Obj v__3520284_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3520285_37 = PRIM_CAR(v__3520284_37);
-Obj v__3519733_37 = v__3520285_37;
-Obj v__3520286_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3520287_37 = PRIM_CDR(v__3520286_37);
-Obj v__3520288_37 = PRIM_EQ(Nil, v__3520287_37);
-if (True == v__3520288_37) {
-R[1] = v__3519733_37;
+Obj v__3519893_37 = R[1];
+if (True == v__3519893_37) {
+Obj v__3520288_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v__3520289_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520288_37);
+coraReturn(co, v__3520289_37);
+return;
+} else {
+Obj v__3519895_37 = makeNative(co->gc, 3, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v__3520472_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3520472_37) {
+Obj v__3520473_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3520474_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520473_37);
+if (True == v__3520474_37) {
+Obj v__3520475_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520476_37 = PRIM_ISCONS(v__3520475_37);
+if (True == v__3520476_37) {
+Obj v__3520477_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520478_37 = PRIM_CAR(v__3520477_37);
+Obj v__3519926_37 = v__3520478_37;
+Obj v__3520479_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520480_37 = PRIM_CDR(v__3520479_37);
+Obj v__3520481_37 = PRIM_EQ(Nil, v__3520480_37);
+if (True == v__3520481_37) {
+R[1] = v__3519926_37;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3519733_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3519926_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519702_37);
+coraCall0(co, v__3519895_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519702_37);
+coraCall0(co, v__3519895_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519702_37);
+coraCall0(co, v__3519895_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519702_37);
+coraCall0(co, v__3519895_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520289_37= co->res;
-Obj v__3519733_37 = R[1];
-Obj v__3520290_37 = makeCons(co->gc, v__3519733_37, Nil);
-Obj v__3520291_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520290_37);
-coraReturn(co, v__3520291_37);
+Obj v__3520482_37= co->res;
+Obj v__3519926_37 = R[1];
+Obj v__3520483_37 = makeCons(co->gc, v__3519926_37, Nil);
+Obj v__3520484_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520483_37);
+coraReturn(co, v__3520484_37);
 return;
 }
 }
@@ -7905,129 +7905,129 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520097_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3520097_37) {
+Obj v__3520290_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3520290_37) {
 saveCont(co, clofun22, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3519704_37 = makeNative(co->gc, 1, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520255_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520255_37) {
-Obj v__3520256_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520257_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520256_37);
-if (True == v__3520257_37) {
-Obj v__3520258_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520259_37 = PRIM_ISCONS(v__3520258_37);
-if (True == v__3520259_37) {
-Obj v__3520260_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520261_37 = PRIM_CAR(v__3520260_37);
-Obj v__3519731_37 = v__3520261_37;
-Obj v__3520262_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520263_37 = PRIM_CDR(v__3520262_37);
-Obj v__3520264_37 = PRIM_ISCONS(v__3520263_37);
-if (True == v__3520264_37) {
-Obj v__3520265_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520266_37 = PRIM_CDR(v__3520265_37);
-Obj v__3520267_37 = PRIM_CAR(v__3520266_37);
-Obj v__3519732_37 = v__3520267_37;
-Obj v__3520268_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520269_37 = PRIM_CDR(v__3520268_37);
-Obj v__3520270_37 = PRIM_CDR(v__3520269_37);
-Obj v__3520271_37 = PRIM_EQ(Nil, v__3520270_37);
-if (True == v__3520271_37) {
-R[1] = v__3519732_37;
-R[2] = v__3519731_37;
+Obj v__3519897_37 = makeNative(co->gc, 1, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520448_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520448_37) {
+Obj v__3520449_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520450_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520449_37);
+if (True == v__3520450_37) {
+Obj v__3520451_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520452_37 = PRIM_ISCONS(v__3520451_37);
+if (True == v__3520452_37) {
+Obj v__3520453_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520454_37 = PRIM_CAR(v__3520453_37);
+Obj v__3519924_37 = v__3520454_37;
+Obj v__3520455_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520456_37 = PRIM_CDR(v__3520455_37);
+Obj v__3520457_37 = PRIM_ISCONS(v__3520456_37);
+if (True == v__3520457_37) {
+Obj v__3520458_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520459_37 = PRIM_CDR(v__3520458_37);
+Obj v__3520460_37 = PRIM_CAR(v__3520459_37);
+Obj v__3519925_37 = v__3520460_37;
+Obj v__3520461_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520462_37 = PRIM_CDR(v__3520461_37);
+Obj v__3520463_37 = PRIM_CDR(v__3520462_37);
+Obj v__3520464_37 = PRIM_EQ(Nil, v__3520463_37);
+if (True == v__3520464_37) {
+R[1] = v__3519925_37;
+R[2] = v__3519924_37;
 saveCont(co, clofun22, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun21, 1, 0), v__3519731_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun21, 1, 0), v__3519924_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519704_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519704_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519704_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519704_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519704_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520100_37= co->res;
-Obj v__3520101_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3520102_37 = makeCons(co->gc, getBinding(co, packageID, 95).name, v__3520101_37);
-coraReturn(co, v__3520102_37);
+Obj v__3520293_37= co->res;
+Obj v__3520294_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520295_37 = makeCons(co->gc, getBinding(co, packageID, 95).name, v__3520294_37);
+coraReturn(co, v__3520295_37);
 return;
 }
 case 2:
 {
-Obj v__3520099_37= co->res;
-Obj v__3519703_37 = R[1];
-if (True == v__3520099_37) {
+Obj v__3520292_37= co->res;
+Obj v__3519896_37 = R[1];
+if (True == v__3520292_37) {
 saveCont(co, clofun22, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3520103_37 = PRIM_CDR(v__3519703_37);
-coraReturn(co, v__3520103_37);
+Obj v__3520296_37 = PRIM_CDR(v__3519896_37);
+coraReturn(co, v__3520296_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3520098_37= co->res;
-Obj v__3519703_37 = v__3520098_37;
-R[1] = v__3519703_37;
+Obj v__3520291_37= co->res;
+Obj v__3519896_37 = v__3520291_37;
+R[1] = v__3519896_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519703_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519896_37);
 return;
 }
 case 4:
 {
-Obj v__3520275_37= co->res;
-Obj v__3519731_37 = R[1];
-Obj v__3520276_37 = makeCons(co->gc, v__3520275_37, Nil);
-Obj v__3520277_37 = makeCons(co->gc, v__3519731_37, v__3520276_37);
-Obj v__3520278_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520277_37);
-coraReturn(co, v__3520278_37);
+Obj v__3520468_37= co->res;
+Obj v__3519924_37 = R[1];
+Obj v__3520469_37 = makeCons(co->gc, v__3520468_37, Nil);
+Obj v__3520470_37 = makeCons(co->gc, v__3519924_37, v__3520469_37);
+Obj v__3520471_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520470_37);
+coraReturn(co, v__3520471_37);
 return;
 }
 case 5:
 {
-Obj v__3520274_37= co->res;
-Obj v__3519732_37 = R[1];
-Obj v__3519731_37 = R[2];
-R[1] = v__3519731_37;
+Obj v__3520467_37= co->res;
+Obj v__3519925_37 = R[1];
+Obj v__3519924_37 = R[2];
+R[1] = v__3519924_37;
 saveCont(co, clofun22, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3520274_37, closureRef(R[0], 2), v__3519732_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3520467_37, closureRef(R[0], 2), v__3519925_37);
 return;
 }
 case 6:
 {
-Obj v__3520273_37= co->res;
-Obj v__3519732_37 = R[1];
-Obj v__3519731_37 = R[2];
-R[1] = v__3519732_37;
-R[2] = v__3519731_37;
+Obj v__3520466_37= co->res;
+Obj v__3519925_37 = R[1];
+Obj v__3519924_37 = R[2];
+R[1] = v__3519925_37;
+R[2] = v__3519924_37;
 saveCont(co, clofun22, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3520273_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3520466_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -8037,9 +8037,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519139_37 = R[1];
-Obj v__3520272_37 = makeCons(co->gc, v__3519139_37, v__3519139_37);
-coraReturn(co, v__3520272_37);
+Obj v__3519332_37 = R[1];
+Obj v__3520465_37 = makeCons(co->gc, v__3519332_37, v__3519332_37);
+coraReturn(co, v__3520465_37);
 return;
 }
 }
@@ -8049,74 +8049,74 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519705_37 = makeNative(co->gc, 2, clofun19, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520223_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520223_37) {
-Obj v__3520224_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520225_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520224_37);
-if (True == v__3520225_37) {
-Obj v__3520226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520227_37 = PRIM_ISCONS(v__3520226_37);
-if (True == v__3520227_37) {
-Obj v__3520228_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520229_37 = PRIM_CAR(v__3520228_37);
-Obj v__3520230_37 = PRIM_ISCONS(v__3520229_37);
-if (True == v__3520230_37) {
-Obj v__3520231_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520232_37 = PRIM_CAR(v__3520231_37);
-Obj v__3520233_37 = PRIM_CAR(v__3520232_37);
-Obj v__3520234_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520233_37);
-if (True == v__3520234_37) {
-Obj v__3520235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520236_37 = PRIM_CAR(v__3520235_37);
-Obj v__3520237_37 = PRIM_CDR(v__3520236_37);
-Obj v__3519727_37 = v__3520237_37;
-Obj v__3520238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520239_37 = PRIM_CDR(v__3520238_37);
-Obj v__3519728_37 = v__3520239_37;
-Obj v__3520240_37 = primGenSym(co);
-Obj v__3519729_37 = v__3520240_37;
-Obj v__3520241_37 = primGenSym(co);
-Obj v__3519730_37 = v__3520241_37;
-Obj v__3520242_37 = makeCons(co->gc, v__3519730_37, Nil);
-Obj v__3520243_37 = makeCons(co->gc, v__3519730_37, v__3519728_37);
-Obj v__3520244_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520243_37);
-Obj v__3520245_37 = makeCons(co->gc, v__3520244_37, Nil);
-Obj v__3520246_37 = makeCons(co->gc, v__3520242_37, v__3520245_37);
-Obj v__3520247_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520246_37);
-Obj v__3520248_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3519727_37);
-Obj v__3520249_37 = makeCons(co->gc, v__3520248_37, Nil);
-Obj v__3520250_37 = makeCons(co->gc, v__3519729_37, v__3520249_37);
-Obj v__3520251_37 = makeCons(co->gc, v__3520250_37, Nil);
-Obj v__3520252_37 = makeCons(co->gc, v__3520247_37, v__3520251_37);
-Obj v__3520253_37 = makeCons(co->gc, v__3519729_37, v__3520252_37);
-Obj v__3520254_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520253_37);
+Obj v__3519898_37 = makeNative(co->gc, 2, clofun19, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520416_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520416_37) {
+Obj v__3520417_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520418_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520417_37);
+if (True == v__3520418_37) {
+Obj v__3520419_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520420_37 = PRIM_ISCONS(v__3520419_37);
+if (True == v__3520420_37) {
+Obj v__3520421_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520422_37 = PRIM_CAR(v__3520421_37);
+Obj v__3520423_37 = PRIM_ISCONS(v__3520422_37);
+if (True == v__3520423_37) {
+Obj v__3520424_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520425_37 = PRIM_CAR(v__3520424_37);
+Obj v__3520426_37 = PRIM_CAR(v__3520425_37);
+Obj v__3520427_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520426_37);
+if (True == v__3520427_37) {
+Obj v__3520428_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520429_37 = PRIM_CAR(v__3520428_37);
+Obj v__3520430_37 = PRIM_CDR(v__3520429_37);
+Obj v__3519920_37 = v__3520430_37;
+Obj v__3520431_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520432_37 = PRIM_CDR(v__3520431_37);
+Obj v__3519921_37 = v__3520432_37;
+Obj v__3520433_37 = primGenSym(co);
+Obj v__3519922_37 = v__3520433_37;
+Obj v__3520434_37 = primGenSym(co);
+Obj v__3519923_37 = v__3520434_37;
+Obj v__3520435_37 = makeCons(co->gc, v__3519923_37, Nil);
+Obj v__3520436_37 = makeCons(co->gc, v__3519923_37, v__3519921_37);
+Obj v__3520437_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520436_37);
+Obj v__3520438_37 = makeCons(co->gc, v__3520437_37, Nil);
+Obj v__3520439_37 = makeCons(co->gc, v__3520435_37, v__3520438_37);
+Obj v__3520440_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520439_37);
+Obj v__3520441_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3519920_37);
+Obj v__3520442_37 = makeCons(co->gc, v__3520441_37, Nil);
+Obj v__3520443_37 = makeCons(co->gc, v__3519922_37, v__3520442_37);
+Obj v__3520444_37 = makeCons(co->gc, v__3520443_37, Nil);
+Obj v__3520445_37 = makeCons(co->gc, v__3520440_37, v__3520444_37);
+Obj v__3520446_37 = makeCons(co->gc, v__3519922_37, v__3520445_37);
+Obj v__3520447_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520446_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520254_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520447_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519705_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519705_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519705_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519705_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519705_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 }
@@ -8127,42 +8127,42 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519706_37 = makeNative(co->gc, 2, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520216_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520216_37) {
-Obj v__3520217_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520218_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520217_37);
-if (True == v__3520218_37) {
-Obj v__3520219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519726_37 = v__3520219_37;
-R[1] = v__3519726_37;
+Obj v__3519899_37 = makeNative(co->gc, 2, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520409_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520409_37) {
+Obj v__3520410_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520411_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520410_37);
+if (True == v__3520411_37) {
+Obj v__3520412_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519919_37 = v__3520412_37;
+R[1] = v__3519919_37;
 saveCont(co, clofun19, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519706_37);
+coraCall0(co, v__3519899_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519706_37);
+coraCall0(co, v__3519899_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520221_37= co->res;
-Obj v__3520222_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520221_37);
-coraReturn(co, v__3520222_37);
+Obj v__3520414_37= co->res;
+Obj v__3520415_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3520414_37);
+coraReturn(co, v__3520415_37);
 return;
 }
 case 2:
 {
-Obj v__3520220_37= co->res;
-Obj v__3519726_37 = R[1];
+Obj v__3520413_37= co->res;
+Obj v__3519919_37 = R[1];
 saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520220_37, v__3519726_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520413_37, v__3519919_37);
 return;
 }
 }
@@ -8172,78 +8172,78 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519707_37 = makeNative(co->gc, 4, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520194_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520194_37) {
-Obj v__3520195_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520196_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520195_37);
-if (True == v__3520196_37) {
-Obj v__3520197_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520198_37 = PRIM_ISCONS(v__3520197_37);
-if (True == v__3520198_37) {
-Obj v__3520199_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520200_37 = PRIM_CAR(v__3520199_37);
-Obj v__3519724_37 = v__3520200_37;
-Obj v__3520201_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520202_37 = PRIM_CDR(v__3520201_37);
-Obj v__3520203_37 = PRIM_ISCONS(v__3520202_37);
-if (True == v__3520203_37) {
-Obj v__3520204_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520205_37 = PRIM_CDR(v__3520204_37);
-Obj v__3520206_37 = PRIM_CAR(v__3520205_37);
-Obj v__3519725_37 = v__3520206_37;
-Obj v__3520207_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520208_37 = PRIM_CDR(v__3520207_37);
-Obj v__3520209_37 = PRIM_CDR(v__3520208_37);
-Obj v__3520210_37 = PRIM_EQ(Nil, v__3520209_37);
-if (True == v__3520210_37) {
-R[1] = v__3519725_37;
+Obj v__3519900_37 = makeNative(co->gc, 4, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520387_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520387_37) {
+Obj v__3520388_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520389_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520388_37);
+if (True == v__3520389_37) {
+Obj v__3520390_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520391_37 = PRIM_ISCONS(v__3520390_37);
+if (True == v__3520391_37) {
+Obj v__3520392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520393_37 = PRIM_CAR(v__3520392_37);
+Obj v__3519917_37 = v__3520393_37;
+Obj v__3520394_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520395_37 = PRIM_CDR(v__3520394_37);
+Obj v__3520396_37 = PRIM_ISCONS(v__3520395_37);
+if (True == v__3520396_37) {
+Obj v__3520397_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520398_37 = PRIM_CDR(v__3520397_37);
+Obj v__3520399_37 = PRIM_CAR(v__3520398_37);
+Obj v__3519918_37 = v__3520399_37;
+Obj v__3520400_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520401_37 = PRIM_CDR(v__3520400_37);
+Obj v__3520402_37 = PRIM_CDR(v__3520401_37);
+Obj v__3520403_37 = PRIM_EQ(Nil, v__3520402_37);
+if (True == v__3520403_37) {
+R[1] = v__3519918_37;
 saveCont(co, clofun18, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519724_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519917_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519707_37);
+coraCall0(co, v__3519900_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519707_37);
+coraCall0(co, v__3519900_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519707_37);
+coraCall0(co, v__3519900_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519707_37);
+coraCall0(co, v__3519900_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519707_37);
+coraCall0(co, v__3519900_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520212_37= co->res;
-Obj v__3520211_37 = R[1];
-Obj v__3520213_37 = makeCons(co->gc, v__3520212_37, Nil);
-Obj v__3520214_37 = makeCons(co->gc, v__3520211_37, v__3520213_37);
-Obj v__3520215_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520214_37);
-coraReturn(co, v__3520215_37);
+Obj v__3520405_37= co->res;
+Obj v__3520404_37 = R[1];
+Obj v__3520406_37 = makeCons(co->gc, v__3520405_37, Nil);
+Obj v__3520407_37 = makeCons(co->gc, v__3520404_37, v__3520406_37);
+Obj v__3520408_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520407_37);
+coraReturn(co, v__3520408_37);
 return;
 }
 case 2:
 {
-Obj v__3520211_37= co->res;
-Obj v__3519725_37 = R[1];
-R[1] = v__3520211_37;
+Obj v__3520404_37= co->res;
+Obj v__3519918_37 = R[1];
+R[1] = v__3520404_37;
 saveCont(co, clofun18, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519725_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519918_37);
 return;
 }
 }
@@ -8253,105 +8253,105 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519708_37 = makeNative(co->gc, 1, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520159_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520159_37) {
-Obj v__3520160_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520161_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520160_37);
-if (True == v__3520161_37) {
-Obj v__3520162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520163_37 = PRIM_ISCONS(v__3520162_37);
-if (True == v__3520163_37) {
-Obj v__3520164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520165_37 = PRIM_CAR(v__3520164_37);
-Obj v__3519720_37 = v__3520165_37;
-Obj v__3520166_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520167_37 = PRIM_CDR(v__3520166_37);
-Obj v__3520168_37 = PRIM_ISCONS(v__3520167_37);
-if (True == v__3520168_37) {
-Obj v__3520169_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520170_37 = PRIM_CDR(v__3520169_37);
-Obj v__3520171_37 = PRIM_CAR(v__3520170_37);
-Obj v__3519721_37 = v__3520171_37;
-Obj v__3520172_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520173_37 = PRIM_CDR(v__3520172_37);
-Obj v__3520174_37 = PRIM_CDR(v__3520173_37);
-Obj v__3520175_37 = PRIM_ISCONS(v__3520174_37);
-if (True == v__3520175_37) {
-Obj v__3520176_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520177_37 = PRIM_CDR(v__3520176_37);
-Obj v__3520178_37 = PRIM_CDR(v__3520177_37);
-Obj v__3520179_37 = PRIM_CAR(v__3520178_37);
-Obj v__3519722_37 = v__3520179_37;
-Obj v__3520180_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520181_37 = PRIM_CDR(v__3520180_37);
-Obj v__3520182_37 = PRIM_CDR(v__3520181_37);
-Obj v__3520183_37 = PRIM_CDR(v__3520182_37);
-Obj v__3520184_37 = PRIM_EQ(Nil, v__3520183_37);
-if (True == v__3520184_37) {
-Obj v__3520185_37 = primGenSym(co);
-Obj v__3519723_37 = v__3520185_37;
-R[1] = v__3519720_37;
-R[2] = v__3519722_37;
-R[3] = v__3519723_37;
+Obj v__3519901_37 = makeNative(co->gc, 1, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520352_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520352_37) {
+Obj v__3520353_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520354_37 = PRIM_EQ(getBinding(co, packageID, 99).name, v__3520353_37);
+if (True == v__3520354_37) {
+Obj v__3520355_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520356_37 = PRIM_ISCONS(v__3520355_37);
+if (True == v__3520356_37) {
+Obj v__3520357_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520358_37 = PRIM_CAR(v__3520357_37);
+Obj v__3519913_37 = v__3520358_37;
+Obj v__3520359_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520360_37 = PRIM_CDR(v__3520359_37);
+Obj v__3520361_37 = PRIM_ISCONS(v__3520360_37);
+if (True == v__3520361_37) {
+Obj v__3520362_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520363_37 = PRIM_CDR(v__3520362_37);
+Obj v__3520364_37 = PRIM_CAR(v__3520363_37);
+Obj v__3519914_37 = v__3520364_37;
+Obj v__3520365_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520366_37 = PRIM_CDR(v__3520365_37);
+Obj v__3520367_37 = PRIM_CDR(v__3520366_37);
+Obj v__3520368_37 = PRIM_ISCONS(v__3520367_37);
+if (True == v__3520368_37) {
+Obj v__3520369_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520370_37 = PRIM_CDR(v__3520369_37);
+Obj v__3520371_37 = PRIM_CDR(v__3520370_37);
+Obj v__3520372_37 = PRIM_CAR(v__3520371_37);
+Obj v__3519915_37 = v__3520372_37;
+Obj v__3520373_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520374_37 = PRIM_CDR(v__3520373_37);
+Obj v__3520375_37 = PRIM_CDR(v__3520374_37);
+Obj v__3520376_37 = PRIM_CDR(v__3520375_37);
+Obj v__3520377_37 = PRIM_EQ(Nil, v__3520376_37);
+if (True == v__3520377_37) {
+Obj v__3520378_37 = primGenSym(co);
+Obj v__3519916_37 = v__3520378_37;
+R[1] = v__3519913_37;
+R[2] = v__3519915_37;
+R[3] = v__3519916_37;
 saveCont(co, clofun17, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519721_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519914_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519708_37);
+coraCall0(co, v__3519901_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519708_37);
+coraCall0(co, v__3519901_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519708_37);
+coraCall0(co, v__3519901_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519708_37);
+coraCall0(co, v__3519901_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519708_37);
+coraCall0(co, v__3519901_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519708_37);
+coraCall0(co, v__3519901_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520189_37= co->res;
-Obj v__3520186_37 = R[1];
-Obj v__3519723_37 = R[2];
-Obj v__3520190_37 = makeCons(co->gc, v__3520189_37, Nil);
-Obj v__3520191_37 = makeCons(co->gc, v__3520186_37, v__3520190_37);
-Obj v__3520192_37 = makeCons(co->gc, v__3519723_37, v__3520191_37);
-Obj v__3520193_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520192_37);
-coraReturn(co, v__3520193_37);
+Obj v__3520382_37= co->res;
+Obj v__3520379_37 = R[1];
+Obj v__3519916_37 = R[2];
+Obj v__3520383_37 = makeCons(co->gc, v__3520382_37, Nil);
+Obj v__3520384_37 = makeCons(co->gc, v__3520379_37, v__3520383_37);
+Obj v__3520385_37 = makeCons(co->gc, v__3519916_37, v__3520384_37);
+Obj v__3520386_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520385_37);
+coraReturn(co, v__3520386_37);
 return;
 }
 case 2:
 {
-Obj v__3520186_37= co->res;
-Obj v__3519720_37 = R[1];
-Obj v__3519722_37 = R[2];
-Obj v__3519723_37 = R[3];
-Obj v__3520187_37 = makeCons(co->gc, v__3519720_37, v__3519723_37);
-Obj v__3520188_37 = makeCons(co->gc, v__3520187_37, closureRef(R[0], 1));
-R[1] = v__3520186_37;
-R[2] = v__3519723_37;
+Obj v__3520379_37= co->res;
+Obj v__3519913_37 = R[1];
+Obj v__3519915_37 = R[2];
+Obj v__3519916_37 = R[3];
+Obj v__3520380_37 = makeCons(co->gc, v__3519913_37, v__3519916_37);
+Obj v__3520381_37 = makeCons(co->gc, v__3520380_37, closureRef(R[0], 1));
+R[1] = v__3520379_37;
+R[2] = v__3519916_37;
 saveCont(co, clofun17, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3520188_37, closureRef(R[0], 2), v__3519722_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), v__3520381_37, closureRef(R[0], 2), v__3519915_37);
 return;
 }
 }
@@ -8361,85 +8361,85 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519709_37 = makeNative(co->gc, 5, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520127_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520127_37) {
-Obj v__3520128_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520129_37 = PRIM_ISCONS(v__3520128_37);
-if (True == v__3520129_37) {
-Obj v__3520130_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520131_37 = PRIM_CAR(v__3520130_37);
-Obj v__3520132_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520131_37);
-if (True == v__3520132_37) {
-Obj v__3520133_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520134_37 = PRIM_CDR(v__3520133_37);
-Obj v__3519717_37 = v__3520134_37;
-Obj v__3520135_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520136_37 = PRIM_ISCONS(v__3520135_37);
-if (True == v__3520136_37) {
-Obj v__3520137_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520138_37 = PRIM_CAR(v__3520137_37);
-Obj v__3520139_37 = PRIM_ISCONS(v__3520138_37);
-if (True == v__3520139_37) {
-Obj v__3520140_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520141_37 = PRIM_CAR(v__3520140_37);
-Obj v__3520142_37 = PRIM_CAR(v__3520141_37);
-Obj v__3520143_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520142_37);
-if (True == v__3520143_37) {
-Obj v__3520144_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520145_37 = PRIM_CAR(v__3520144_37);
-Obj v__3520146_37 = PRIM_CDR(v__3520145_37);
-Obj v__3519718_37 = v__3520146_37;
-Obj v__3520147_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520148_37 = PRIM_CDR(v__3520147_37);
-Obj v__3520149_37 = PRIM_EQ(Nil, v__3520148_37);
-if (True == v__3520149_37) {
-Obj v__3520150_37 = primGenSym(co);
-Obj v__3519719_37 = v__3520150_37;
-Obj v__3520151_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3519717_37);
-Obj v__3520152_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3519718_37);
-Obj v__3520153_37 = makeCons(co->gc, v__3520152_37, Nil);
-Obj v__3520154_37 = makeCons(co->gc, v__3519719_37, v__3520153_37);
-Obj v__3520155_37 = makeCons(co->gc, v__3520154_37, Nil);
-Obj v__3520156_37 = makeCons(co->gc, v__3520151_37, v__3520155_37);
-Obj v__3520157_37 = makeCons(co->gc, v__3519719_37, v__3520156_37);
-Obj v__3520158_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520157_37);
+Obj v__3519902_37 = makeNative(co->gc, 5, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520320_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520320_37) {
+Obj v__3520321_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520322_37 = PRIM_ISCONS(v__3520321_37);
+if (True == v__3520322_37) {
+Obj v__3520323_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520324_37 = PRIM_CAR(v__3520323_37);
+Obj v__3520325_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520324_37);
+if (True == v__3520325_37) {
+Obj v__3520326_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520327_37 = PRIM_CDR(v__3520326_37);
+Obj v__3519910_37 = v__3520327_37;
+Obj v__3520328_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520329_37 = PRIM_ISCONS(v__3520328_37);
+if (True == v__3520329_37) {
+Obj v__3520330_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520331_37 = PRIM_CAR(v__3520330_37);
+Obj v__3520332_37 = PRIM_ISCONS(v__3520331_37);
+if (True == v__3520332_37) {
+Obj v__3520333_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520334_37 = PRIM_CAR(v__3520333_37);
+Obj v__3520335_37 = PRIM_CAR(v__3520334_37);
+Obj v__3520336_37 = PRIM_EQ(getBinding(co, packageID, 89).name, v__3520335_37);
+if (True == v__3520336_37) {
+Obj v__3520337_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520338_37 = PRIM_CAR(v__3520337_37);
+Obj v__3520339_37 = PRIM_CDR(v__3520338_37);
+Obj v__3519911_37 = v__3520339_37;
+Obj v__3520340_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520341_37 = PRIM_CDR(v__3520340_37);
+Obj v__3520342_37 = PRIM_EQ(Nil, v__3520341_37);
+if (True == v__3520342_37) {
+Obj v__3520343_37 = primGenSym(co);
+Obj v__3519912_37 = v__3520343_37;
+Obj v__3520344_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3519910_37);
+Obj v__3520345_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3519911_37);
+Obj v__3520346_37 = makeCons(co->gc, v__3520345_37, Nil);
+Obj v__3520347_37 = makeCons(co->gc, v__3519912_37, v__3520346_37);
+Obj v__3520348_37 = makeCons(co->gc, v__3520347_37, Nil);
+Obj v__3520349_37 = makeCons(co->gc, v__3520344_37, v__3520348_37);
+Obj v__3520350_37 = makeCons(co->gc, v__3519912_37, v__3520349_37);
+Obj v__3520351_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520350_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520158_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520351_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519709_37);
+coraCall0(co, v__3519902_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519709_37);
+coraCall0(co, v__3519902_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519709_37);
+coraCall0(co, v__3519902_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519709_37);
+coraCall0(co, v__3519902_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519709_37);
+coraCall0(co, v__3519902_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519709_37);
+coraCall0(co, v__3519902_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519709_37);
+coraCall0(co, v__3519902_37);
 return;
 }
 }
@@ -8450,121 +8450,121 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519710_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v__3520105_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520105_37) {
-Obj v__3520106_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519711_37 = v__3520106_37;
-Obj v__3520107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519712_37 = v__3520107_37;
-R[1] = v__3519711_37;
-R[2] = v__3519712_37;
-R[3] = v__3519710_37;
+Obj v__3519903_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v__3520298_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520298_37) {
+Obj v__3520299_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519904_37 = v__3520299_37;
+Obj v__3520300_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519905_37 = v__3520300_37;
+R[1] = v__3519904_37;
+R[2] = v__3519905_37;
+R[3] = v__3519903_37;
 saveCont(co, clofun15, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v__3519711_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 107)), v__3519904_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519710_37);
+coraCall0(co, v__3519903_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520115_37= co->res;
-Obj v__3520113_37 = R[1];
-Obj v__3520116_37 = makeCons(co->gc, v__3520113_37, v__3520115_37);
-coraReturn(co, v__3520116_37);
+Obj v__3520308_37= co->res;
+Obj v__3520306_37 = R[1];
+Obj v__3520309_37 = makeCons(co->gc, v__3520306_37, v__3520308_37);
+coraReturn(co, v__3520309_37);
 return;
 }
 case 2:
 {
-Obj v__3520114_37= co->res;
-Obj v__3519712_37 = R[1];
-Obj v__3520113_37 = R[2];
-R[1] = v__3520113_37;
+Obj v__3520307_37= co->res;
+Obj v__3519905_37 = R[1];
+Obj v__3520306_37 = R[2];
+R[1] = v__3520306_37;
 saveCont(co, clofun15, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520114_37, v__3519712_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520307_37, v__3519905_37);
 return;
 }
 case 3:
 {
-Obj v__3520126_37= co->res;
+Obj v__3520319_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520126_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520319_37);
 return;
 }
 case 4:
 {
-Obj v__3520121_37= co->res;
-Obj v__3519711_37 = R[1];
-Obj v__3519716_37 = R[2];
-Obj v__3519715_37 = R[3];
-Obj v__3519712_37 = R[4];
-Obj v__3520122_37 = makeCons(co->gc, v__3519711_37, v__3520121_37);
-Obj v__3520123_37 = makeCons(co->gc, v__3520122_37, Nil);
-Obj v__3520124_37 = makeCons(co->gc, v__3519716_37, v__3520123_37);
-Obj v__3520125_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520124_37);
+Obj v__3520314_37= co->res;
+Obj v__3519904_37 = R[1];
+Obj v__3519909_37 = R[2];
+Obj v__3519908_37 = R[3];
+Obj v__3519905_37 = R[4];
+Obj v__3520315_37 = makeCons(co->gc, v__3519904_37, v__3520314_37);
+Obj v__3520316_37 = makeCons(co->gc, v__3520315_37, Nil);
+Obj v__3520317_37 = makeCons(co->gc, v__3519909_37, v__3520316_37);
+Obj v__3520318_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520317_37);
 saveCont(co, clofun15, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3519715_37, v__3519712_37, v__3520125_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3519908_37, v__3519905_37, v__3520318_37);
 return;
 }
 case 5:
 {
-Obj v__3520120_37= co->res;
-Obj v__3519711_37 = R[1];
-Obj v__3519715_37 = R[2];
-Obj v__3519712_37 = R[3];
-Obj v__3519716_37 = v__3520120_37;
-R[1] = v__3519711_37;
-R[2] = v__3519716_37;
-R[3] = v__3519715_37;
-R[4] = v__3519712_37;
+Obj v__3520313_37= co->res;
+Obj v__3519904_37 = R[1];
+Obj v__3519908_37 = R[2];
+Obj v__3519905_37 = R[3];
+Obj v__3519909_37 = v__3520313_37;
+R[1] = v__3519904_37;
+R[2] = v__3519909_37;
+R[3] = v__3519908_37;
+R[4] = v__3519905_37;
 saveCont(co, clofun15, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3519715_37, v__3519716_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v__3519908_37, v__3519909_37);
 return;
 }
 case 6:
 {
-Obj v__3520118_37= co->res;
-Obj v__3519713_37 = R[1];
-Obj v__3519714_37 = R[2];
-Obj v__3519711_37 = R[3];
-Obj v__3519712_37 = R[4];
-Obj v__3519715_37 = v__3520118_37;
-Obj v__3520119_37 = PRIM_SUB(v__3519713_37, v__3519714_37);
-R[1] = v__3519711_37;
-R[2] = v__3519715_37;
-R[3] = v__3519712_37;
+Obj v__3520311_37= co->res;
+Obj v__3519906_37 = R[1];
+Obj v__3519907_37 = R[2];
+Obj v__3519904_37 = R[3];
+Obj v__3519905_37 = R[4];
+Obj v__3519908_37 = v__3520311_37;
+Obj v__3520312_37 = PRIM_SUB(v__3519906_37, v__3519907_37);
+R[1] = v__3519904_37;
+R[2] = v__3519908_37;
+R[3] = v__3519905_37;
 saveCont(co, clofun15, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3520119_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3520312_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3520110_37= co->res;
-Obj v__3519713_37 = R[1];
-Obj v__3519711_37 = R[2];
-Obj v__3519712_37 = R[3];
-Obj v__3519714_37 = v__3520110_37;
-Obj v__3520111_37 = PRIM_EQ(v__3519713_37, v__3519714_37);
-if (True == v__3520111_37) {
-Obj v__3520112_37 = makeCons(co->gc, v__3519711_37, Nil);
-Obj v__3520113_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520112_37);
-R[1] = v__3519712_37;
-R[2] = v__3520113_37;
+Obj v__3520303_37= co->res;
+Obj v__3519906_37 = R[1];
+Obj v__3519904_37 = R[2];
+Obj v__3519905_37 = R[3];
+Obj v__3519907_37 = v__3520303_37;
+Obj v__3520304_37 = PRIM_EQ(v__3519906_37, v__3519907_37);
+if (True == v__3520304_37) {
+Obj v__3520305_37 = makeCons(co->gc, v__3519904_37, Nil);
+Obj v__3520306_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520305_37);
+R[1] = v__3519905_37;
+R[2] = v__3520306_37;
 saveCont(co, clofun15, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3520117_37 = PRIM_GT(v__3519713_37, v__3519714_37);
-if (True == v__3520117_37) {
-R[1] = v__3519713_37;
-R[2] = v__3519714_37;
-R[3] = v__3519711_37;
-R[4] = v__3519712_37;
+Obj v__3520310_37 = PRIM_GT(v__3519906_37, v__3519907_37);
+if (True == v__3520310_37) {
+R[1] = v__3519906_37;
+R[2] = v__3519907_37;
+R[3] = v__3519904_37;
+R[4] = v__3519905_37;
 saveCont(co, clofun15, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3519714_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3519907_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8575,32 +8575,32 @@ return;
 }
 case 8:
 {
-Obj v__3520109_37= co->res;
-Obj v__3519711_37 = R[1];
-Obj v__3519712_37 = R[2];
-Obj v__3519713_37 = v__3520109_37;
-R[1] = v__3519713_37;
-R[2] = v__3519711_37;
-R[3] = v__3519712_37;
+Obj v__3520302_37= co->res;
+Obj v__3519904_37 = R[1];
+Obj v__3519905_37 = R[2];
+Obj v__3519906_37 = v__3520302_37;
+R[1] = v__3519906_37;
+R[2] = v__3519904_37;
+R[3] = v__3519905_37;
 saveCont(co, clofun15, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519712_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v__3519905_37);
 return;
 }
 case 9:
 {
-Obj v__3520108_37= co->res;
-Obj v__3519711_37 = R[1];
-Obj v__3519712_37 = R[2];
-Obj v__3519710_37 = R[3];
-if (True == v__3520108_37) {
-R[1] = v__3519711_37;
-R[2] = v__3519712_37;
+Obj v__3520301_37= co->res;
+Obj v__3519904_37 = R[1];
+Obj v__3519905_37 = R[2];
+Obj v__3519903_37 = R[3];
+if (True == v__3520301_37) {
+R[1] = v__3519904_37;
+R[2] = v__3519905_37;
 saveCont(co, clofun15, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519711_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519904_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519710_37);
+coraCall0(co, v__3519903_37);
 return;
 }
 }
@@ -8617,9 +8617,9 @@ return;
 }
 case 1:
 {
-Obj v__3520104_37= co->res;
+Obj v__3520297_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520104_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), v__3520297_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8629,24 +8629,24 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519034_37 = R[1];
-Obj v__3519035_37 = R[2];
-Obj v__3519036_37 = R[3];
-Obj v__3519693_37 = makeNative(co->gc, 3, clofun12, 0, 3, v__3519034_37, v__3519035_37, v__3519036_37);
-Obj v__3520092_37 = PRIM_EQ(Nil, v__3519034_37);
-if (True == v__3520092_37) {
-Obj v__3520093_37 = PRIM_EQ(Nil, v__3519035_37);
-if (True == v__3520093_37) {
-coraReturn(co, v__3519036_37);
+Obj v__3519227_37 = R[1];
+Obj v__3519228_37 = R[2];
+Obj v__3519229_37 = R[3];
+Obj v__3519886_37 = makeNative(co->gc, 3, clofun12, 0, 3, v__3519227_37, v__3519228_37, v__3519229_37);
+Obj v__3520285_37 = PRIM_EQ(Nil, v__3519227_37);
+if (True == v__3520285_37) {
+Obj v__3520286_37 = PRIM_EQ(Nil, v__3519228_37);
+if (True == v__3520286_37) {
+coraReturn(co, v__3519229_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519693_37);
+coraCall0(co, v__3519886_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519693_37);
+coraCall0(co, v__3519886_37);
 return;
 }
 }
@@ -8657,45 +8657,45 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519694_37 = makeNative(co->gc, 1, clofun11, 0, 0);
-Obj v__3520081_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520081_37) {
-Obj v__3520082_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519695_37 = v__3520082_37;
-Obj v__3520083_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519696_37 = v__3520083_37;
-Obj v__3520084_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3520084_37) {
-Obj v__3520085_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519697_37 = v__3520085_37;
-Obj v__3520086_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519698_37 = v__3520086_37;
-R[1] = v__3519697_37;
-R[2] = v__3519695_37;
+Obj v__3519887_37 = makeNative(co->gc, 1, clofun11, 0, 0);
+Obj v__3520274_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520274_37) {
+Obj v__3520275_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519888_37 = v__3520275_37;
+Obj v__3520276_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519889_37 = v__3520276_37;
+Obj v__3520277_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3520277_37) {
+Obj v__3520278_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519890_37 = v__3520278_37;
+Obj v__3520279_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519891_37 = v__3520279_37;
+R[1] = v__3519890_37;
+R[2] = v__3519888_37;
 saveCont(co, clofun12, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3519696_37, v__3519698_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3519889_37, v__3519891_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519694_37);
+coraCall0(co, v__3519887_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519694_37);
+coraCall0(co, v__3519887_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520087_37= co->res;
-Obj v__3519697_37 = R[1];
-Obj v__3519695_37 = R[2];
-Obj v__3520088_37 = makeCons(co->gc, v__3520087_37, Nil);
-Obj v__3520089_37 = makeCons(co->gc, v__3519697_37, v__3520088_37);
-Obj v__3520090_37 = makeCons(co->gc, v__3519695_37, v__3520089_37);
-Obj v__3520091_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520090_37);
-coraReturn(co, v__3520091_37);
+Obj v__3520280_37= co->res;
+Obj v__3519890_37 = R[1];
+Obj v__3519888_37 = R[2];
+Obj v__3520281_37 = makeCons(co->gc, v__3520280_37, Nil);
+Obj v__3520282_37 = makeCons(co->gc, v__3519890_37, v__3520281_37);
+Obj v__3520283_37 = makeCons(co->gc, v__3519888_37, v__3520282_37);
+Obj v__3520284_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3520283_37);
+coraReturn(co, v__3520284_37);
 return;
 }
 }
@@ -8716,18 +8716,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519032_37 = R[1];
-Obj v__3519033_37 = R[2];
-Obj v__3520076_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519032_37);
-if (True == v__3520076_37) {
-coraReturn(co, v__3519033_37);
+Obj v__3519225_37 = R[1];
+Obj v__3519226_37 = R[2];
+Obj v__3520269_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519225_37);
+if (True == v__3520269_37) {
+coraReturn(co, v__3519226_37);
 return;
 } else {
-Obj v__3520077_37 = PRIM_SUB(v__3519032_37, MAKE_NUMBER(1));
-Obj v__3520078_37 = primGenSym(co);
-Obj v__3520079_37 = makeCons(co->gc, v__3520078_37, v__3519033_37);
+Obj v__3520270_37 = PRIM_SUB(v__3519225_37, MAKE_NUMBER(1));
+Obj v__3520271_37 = primGenSym(co);
+Obj v__3520272_37 = makeCons(co->gc, v__3520271_37, v__3519226_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3520077_37, v__3520079_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), v__3520270_37, v__3520272_37);
 return;
 }
 }
@@ -8738,31 +8738,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519030_37 = R[1];
+Obj v__3519223_37 = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519030_37, globalRef(co, getBinding(co, packageID, 125)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519223_37, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3520074_37= co->res;
-Obj v__3519692_37 = R[1];
-if (True == v__3520074_37) {
+Obj v__3520267_37= co->res;
+Obj v__3519885_37 = R[1];
+if (True == v__3520267_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519692_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519885_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520073_37= co->res;
-Obj v__3519692_37 = v__3520073_37;
-R[1] = v__3519692_37;
+Obj v__3520266_37= co->res;
+Obj v__3519885_37 = v__3520266_37;
+R[1] = v__3519885_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519692_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519885_37);
 return;
 }
 }
@@ -8772,31 +8772,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519028_37 = R[1];
+Obj v__3519221_37 = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519028_37, globalRef(co, getBinding(co, packageID, 125)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519221_37, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3520071_37= co->res;
-Obj v__3519691_37 = R[1];
-if (True == v__3520071_37) {
+Obj v__3520264_37= co->res;
+Obj v__3519884_37 = R[1];
+if (True == v__3520264_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519691_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519884_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520070_37= co->res;
-Obj v__3519691_37 = v__3520070_37;
-R[1] = v__3519691_37;
+Obj v__3520263_37= co->res;
+Obj v__3519884_37 = v__3520263_37;
+R[1] = v__3519884_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519691_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3519884_37);
 return;
 }
 }
@@ -8806,23 +8806,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519027_37 = R[1];
+Obj v__3519220_37 = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519027_37, globalRef(co, getBinding(co, packageID, 125)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), v__3519220_37, globalRef(co, getBinding(co, packageID, 125)));
 return;
 }
 case 1:
 {
-Obj v__3520067_37= co->res;
-Obj v__3520068_37 = primNot(v__3520067_37);
-coraReturn(co, v__3520068_37);
+Obj v__3520260_37= co->res;
+Obj v__3520261_37 = primNot(v__3520260_37);
+coraReturn(co, v__3520261_37);
 return;
 }
 case 2:
 {
-Obj v__3520066_37= co->res;
+Obj v__3520259_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3520066_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), v__3520259_37);
 return;
 }
 }
@@ -8832,23 +8832,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519021_37 = R[1];
-Obj v__3519022_37 = R[2];
-Obj v__3519990_37 = PRIM_EQ(Nil, v__3519022_37);
-if (True == v__3519990_37) {
+Obj v__3519214_37 = R[1];
+Obj v__3519215_37 = R[2];
+Obj v__3520183_37 = PRIM_EQ(Nil, v__3519215_37);
+if (True == v__3520183_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3519991_37 = PRIM_ISCONS(v__3519022_37);
-if (True == v__3519991_37) {
-Obj v__3519992_37 = PRIM_CAR(v__3519022_37);
-Obj v__3519689_37 = v__3519992_37;
-Obj v__3519993_37 = PRIM_CDR(v__3519022_37);
-Obj v__3519690_37 = v__3519993_37;
-R[1] = v__3519021_37;
-R[2] = v__3519690_37;
+Obj v__3520184_37 = PRIM_ISCONS(v__3519215_37);
+if (True == v__3520184_37) {
+Obj v__3520185_37 = PRIM_CAR(v__3519215_37);
+Obj v__3519882_37 = v__3520185_37;
+Obj v__3520186_37 = PRIM_CDR(v__3519215_37);
+Obj v__3519883_37 = v__3520186_37;
+R[1] = v__3519214_37;
+R[2] = v__3519883_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3519021_37, v__3519689_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 127)), v__3519214_37, v__3519882_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8859,13 +8859,13 @@ return;
 }
 case 1:
 {
-Obj v__3519994_37= co->res;
-Obj v__3519021_37 = R[1];
-Obj v__3519690_37 = R[2];
-Obj v__3519995_37 = PRIM_LT(v__3519994_37, MAKE_NUMBER(0));
-if (True == v__3519995_37) {
+Obj v__3520187_37= co->res;
+Obj v__3519214_37 = R[1];
+Obj v__3519883_37 = R[2];
+Obj v__3520188_37 = PRIM_LT(v__3520187_37, MAKE_NUMBER(0));
+if (True == v__3520188_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3519021_37, v__3519690_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 126)), v__3519214_37, v__3519883_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8879,10 +8879,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519019_37 = R[1];
-Obj v__3519020_37 = R[2];
+Obj v__3519212_37 = R[1];
+Obj v__3519213_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), MAKE_NUMBER(0), v__3519019_37, v__3519020_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), MAKE_NUMBER(0), v__3519212_37, v__3519213_37);
 return;
 }
 }
@@ -8892,32 +8892,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519010_37 = R[1];
-Obj v__3519011_37 = R[2];
-Obj v__3519012_37 = R[3];
-Obj v__3519979_37 = PRIM_EQ(Nil, v__3519012_37);
-if (True == v__3519979_37) {
+Obj v__3519203_37 = R[1];
+Obj v__3519204_37 = R[2];
+Obj v__3519205_37 = R[3];
+Obj v__3520172_37 = PRIM_EQ(Nil, v__3519205_37);
+if (True == v__3520172_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3519686_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3519012_37, v__3519010_37, v__3519011_37);
-Obj v__3519984_37 = PRIM_ISCONS(v__3519012_37);
-if (True == v__3519984_37) {
-Obj v__3519985_37 = PRIM_CAR(v__3519012_37);
-Obj v__3519688_37 = v__3519985_37;
-Obj v__3519986_37 = PRIM_CDR(v__3519012_37);
-Obj v__3519987_37 = PRIM_EQ(v__3519011_37, v__3519688_37);
-if (True == v__3519987_37) {
-coraReturn(co, v__3519010_37);
+Obj v__3519879_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3519205_37, v__3519203_37, v__3519204_37);
+Obj v__3520177_37 = PRIM_ISCONS(v__3519205_37);
+if (True == v__3520177_37) {
+Obj v__3520178_37 = PRIM_CAR(v__3519205_37);
+Obj v__3519881_37 = v__3520178_37;
+Obj v__3520179_37 = PRIM_CDR(v__3519205_37);
+Obj v__3520180_37 = PRIM_EQ(v__3519204_37, v__3519881_37);
+if (True == v__3520180_37) {
+coraReturn(co, v__3519203_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519686_37);
+coraCall0(co, v__3519879_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519686_37);
+coraCall0(co, v__3519879_37);
 return;
 }
 }
@@ -8929,14 +8929,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519980_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519980_37) {
-Obj v__3519981_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519982_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519687_37 = v__3519982_37;
-Obj v__3519983_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3520173_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520173_37) {
+Obj v__3520174_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520175_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519880_37 = v__3520175_37;
+Obj v__3520176_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v__3519983_37, closureRef(R[0], 2), v__3519687_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 128)), v__3520176_37, closureRef(R[0], 2), v__3519880_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8951,24 +8951,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519003_37 = R[1];
-Obj v__3519004_37 = R[2];
-Obj v__3519005_37 = R[3];
-Obj v__3519973_37 = PRIM_EQ(Nil, v__3519005_37);
-if (True == v__3519973_37) {
-coraReturn(co, v__3519004_37);
+Obj v__3519196_37 = R[1];
+Obj v__3519197_37 = R[2];
+Obj v__3519198_37 = R[3];
+Obj v__3520166_37 = PRIM_EQ(Nil, v__3519198_37);
+if (True == v__3520166_37) {
+coraReturn(co, v__3519197_37);
 return;
 } else {
-Obj v__3519974_37 = PRIM_ISCONS(v__3519005_37);
-if (True == v__3519974_37) {
-Obj v__3519975_37 = PRIM_CAR(v__3519005_37);
-Obj v__3519684_37 = v__3519975_37;
-Obj v__3519976_37 = PRIM_CDR(v__3519005_37);
-Obj v__3519685_37 = v__3519976_37;
-R[1] = v__3519003_37;
-R[2] = v__3519685_37;
+Obj v__3520167_37 = PRIM_ISCONS(v__3519198_37);
+if (True == v__3520167_37) {
+Obj v__3520168_37 = PRIM_CAR(v__3519198_37);
+Obj v__3519877_37 = v__3520168_37;
+Obj v__3520169_37 = PRIM_CDR(v__3519198_37);
+Obj v__3519878_37 = v__3520169_37;
+R[1] = v__3519196_37;
+R[2] = v__3519878_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v__3519003_37, v__3519004_37, v__3519684_37);
+coraCall2(co, v__3519196_37, v__3519197_37, v__3519877_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8979,11 +8979,11 @@ return;
 }
 case 1:
 {
-Obj v__3519977_37= co->res;
-Obj v__3519003_37 = R[1];
-Obj v__3519685_37 = R[2];
+Obj v__3520170_37= co->res;
+Obj v__3519196_37 = R[1];
+Obj v__3519878_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), v__3519003_37, v__3519977_37, v__3519685_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 129)), v__3519196_37, v__3520170_37, v__3519878_37);
 return;
 }
 }
@@ -8993,44 +8993,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518993_37 = R[1];
-Obj v__3518994_37 = R[2];
-Obj v__3519958_37 = PRIM_EQ(Nil, v__3518994_37);
-if (True == v__3519958_37) {
+Obj v__3519186_37 = R[1];
+Obj v__3519187_37 = R[2];
+Obj v__3520151_37 = PRIM_EQ(Nil, v__3519187_37);
+if (True == v__3520151_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519680_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3518994_37, v__3518993_37);
-Obj v__3519962_37 = PRIM_ISCONS(v__3518994_37);
-if (True == v__3519962_37) {
-Obj v__3519963_37 = PRIM_CAR(v__3518994_37);
-Obj v__3519964_37 = PRIM_ISCONS(v__3519963_37);
-if (True == v__3519964_37) {
-Obj v__3519965_37 = PRIM_CAR(v__3518994_37);
-Obj v__3519966_37 = PRIM_CAR(v__3519965_37);
-Obj v__3519682_37 = v__3519966_37;
-Obj v__3519967_37 = PRIM_CAR(v__3518994_37);
-Obj v__3519968_37 = PRIM_CDR(v__3519967_37);
-Obj v__3519683_37 = v__3519968_37;
-Obj v__3519969_37 = PRIM_CDR(v__3518994_37);
-Obj v__3519970_37 = PRIM_EQ(v__3518993_37, v__3519682_37);
-if (True == v__3519970_37) {
-Obj v__3519971_37 = makeCons(co->gc, v__3519682_37, v__3519683_37);
-coraReturn(co, v__3519971_37);
+Obj v__3519873_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3519187_37, v__3519186_37);
+Obj v__3520155_37 = PRIM_ISCONS(v__3519187_37);
+if (True == v__3520155_37) {
+Obj v__3520156_37 = PRIM_CAR(v__3519187_37);
+Obj v__3520157_37 = PRIM_ISCONS(v__3520156_37);
+if (True == v__3520157_37) {
+Obj v__3520158_37 = PRIM_CAR(v__3519187_37);
+Obj v__3520159_37 = PRIM_CAR(v__3520158_37);
+Obj v__3519875_37 = v__3520159_37;
+Obj v__3520160_37 = PRIM_CAR(v__3519187_37);
+Obj v__3520161_37 = PRIM_CDR(v__3520160_37);
+Obj v__3519876_37 = v__3520161_37;
+Obj v__3520162_37 = PRIM_CDR(v__3519187_37);
+Obj v__3520163_37 = PRIM_EQ(v__3519186_37, v__3519875_37);
+if (True == v__3520163_37) {
+Obj v__3520164_37 = makeCons(co->gc, v__3519875_37, v__3519876_37);
+coraReturn(co, v__3520164_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519680_37);
+coraCall0(co, v__3519873_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519680_37);
+coraCall0(co, v__3519873_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519680_37);
+coraCall0(co, v__3519873_37);
 return;
 }
 }
@@ -9042,13 +9042,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519959_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519959_37) {
-Obj v__3519960_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519961_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519681_37 = v__3519961_37;
+Obj v__3520152_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520152_37) {
+Obj v__3520153_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520154_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519874_37 = v__3520154_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), closureRef(R[0], 1), v__3519681_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 131)), closureRef(R[0], 1), v__3519874_37);
 return;
 } else {
 co->ctx.sp = R;
-- 
2.43.0


From fc7e89f4b68d46deb41715971b3661a838d587ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 44/63] fix: hash tables: a stored bucket, deletion and
 negative hashes work

---
 lib/hash.cora | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/hash.cora b/lib/hash.cora
index c8277b3..fb2921d 100644
--- a/lib/hash.cora
+++ b/lib/hash.cora
@@ -16,8 +16,8 @@
 
   (func assoc-rm
 	key [] => []
-	key [[key . _] . more] => more
-	key [x . more] => [x . (assoc-rm key x more)])
+	key [[k1 . _] . more] => more where (= key k1)
+	key [x . more] => [x . (assoc-rm key more)])
 
   (defun hash-make (n)
     (let h (vector (+ 3 n))
@@ -44,16 +44,20 @@
     (let ret (vector-ref h (+ idx 3))
       (if (list? ret) ret ()))) ;; the slot data maybe not initialized.
 
-  (defun hash-bucket-set! (h idx)
-    (vector-set! h (+ idx 3)))
+  (defun hash-bucket-set! (h idx bucket)
+    (vector-set! h (+ idx 3) bucket))
 
-  (defun hash-get (h key)
+  (defun hash-index (h key)
     (let idx (mod (hash-to-number key) (capacity h))
+      (if (< idx 0) (+ idx (capacity h)) idx))) ;; mod of a negative number is negative
+
+  (defun hash-get (h key)
+    (let idx (hash-index h key)
       (let bucket (hash-bucket-get h idx)
 	(assoc key bucket))))
 
   (defun hash-set! (h key value)
-    (let idx (mod (hash-to-number key) (capacity h))
+    (let idx (hash-index h key)
       (let old-bucket (hash-bucket-get h idx)
 	(begin
 	  (let exist (assoc key old-bucket)
@@ -64,7 +68,7 @@
 	    (hash-bucket-set! h idx new-bucket))))))
 
   (defun hash-del! (h key)
-    (let idx (mod (hash-to-number key) (capacity h))
+    (let idx (hash-index h key)
       (let old-bucket (hash-bucket-get h idx)
 	(if (null? (assoc key old-bucket))
 	    ()
-- 
2.43.0


From 82db6fd8038b7f4e13d582d0a2e9b8b92dd706ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 45/63] fix: peg: literals at the end of the input, choice and
 repetition resume where they began

---
 lib/peg.cora | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/peg.cora b/lib/peg.cora
index 091175b..995089c 100644
--- a/lib/peg.cora
+++ b/lib/peg.cora
@@ -58,7 +58,8 @@
 	       [] rem => ['ok rem]
 	       [h1 . t1] [h2 . t2] => (if (= h1 h2)
 					  (sub-list? t1 t2)
-					  ['fail]))
+					  ['fail])
+	       _ _ => ['fail])
 
 	 ;; matches string str
 	 (defun <string> (str)
@@ -126,19 +127,19 @@
 	 (defun @or (p1 p2)
 	   (lambda (toks)
 	     (match (p1 toks)
-	       ['ok v1 toks] ['ok v1 toks]
-	       ['fail toks] (p2 toks))))
+	       ['ok v1 toks1] ['ok v1 toks1]
+	       ['fail _] (p2 toks))))
 
 	 (defun @! (p)
 	   (lambda (toks)
 	     (match (p toks)
-	       ['ok _ toks1] ['fail toks1]
-	       ['fail toks1] ['ok v toks1])))
+	       ['ok _ _] ['fail toks]
+	       ['fail _] ['ok () toks])))
 
 	 (defun recur-h (p toks res k)
 	   (match (p toks)
 	     ['ok v toks1] (recur-h p toks1 (cons v res) k)
-	     ['fail toks1] (k res toks1)))
+	     ['fail _] (k res toks)))
 	 
 	 ;; match p 1 or more times
 	 (defun @+ (p)
@@ -160,7 +161,7 @@
 	   (lambda (toks)
 	     (match (p toks)
 	       ['ok v toks1] ['ok v toks1]
-	       ['fail toks1] ['ok () toks1])))
+	       ['fail _] ['ok () toks])))
 
 	 ;; (defun @& (p)
 	 ;;   ...)
-- 
2.43.0


From ea1a3160c49241964b6be994eb273fb9a9abe150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 46/63] fix: sxml escapes the apostrophe, not the backslash

---
 lib/sxml.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sxml.cora b/lib/sxml.cora
index d49b0f6..8f490da 100644
--- a/lib/sxml.cora
+++ b/lib/sxml.cora
@@ -57,7 +57,7 @@
 			(cond
 			 ((= c 34) (buffer-append buf "&quot;"))  ;; "
 			 ((= c 38) (buffer-append buf "&amp;"))  ;; &
-			 ((= c 92) (buffer-append buf "&apos;"))  ;; \
+			 ((= c 39) (buffer-append buf "&apos;"))  ;; '
 			 ((= c 60) (buffer-append buf "&lt;"))  ;; <
 			 ((= c 62) (buffer-append buf "&gt;"))  ;; >
 			 (true (buffer-append buf (string-index str i)))))
-- 
2.43.0


From 249e94307459b0abd548bc5e777f8e1febc6de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 47/63] fix: string-split finds empty fields and survives an
 empty separator

---
 lib/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 8b5b551..de66320 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -145,8 +145,9 @@ stringSplit(struct Cora *co, int label, Obj *R) {
 	Obj res = Nil;
 	str s = from;
 	while (1) {
-		int pos = strStr(s, split);
-		if (pos > 0) {
+		// A field may be empty. An empty separator splits nothing.
+		int pos = strLen(split) > 0 ? strStr(s, split) : -1;
+		if (pos >= 0) {
 			str find = strSub(s, 0, pos);
 			res = makeCons(co->gc, makeString(co->gc, find.str, strLen(find)), res);
 			s = strSub(s, pos + strLen(split), strLen(s));
-- 
2.43.0


From c280288af7a60eef166a79b7858bf1c924d6df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 48/63] fix: vector? of a number does not read memory through
 it

---
 src/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.c b/src/types.c
index 22992a2..f5915c7 100644
--- a/src/types.c
+++ b/src/types.c
@@ -331,7 +331,7 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 
 bool
 isvector(Obj o) {
-	if (tag(o) == TAG_PTR) {
+	if (isobj(o) && tag(o) == TAG_PTR) {
 		if (((scmHead *)ptr(o))->type == scmHeadVector) {
 			return true;
 		}
-- 
2.43.0


From 3119ca301d342abd78a776969bf7c409d930e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 49/63] fix: a new Cora instance starts from zeroed memory

---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index eb6d64a..d03a141 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -62,7 +62,7 @@ coraReturnSlowPath(Cora *co) {
 
 static Cora *
 coraNew() {
-	Cora *co = malloc(sizeof(Cora));
+	Cora *co = calloc(1, sizeof(Cora));
 	vecInit(&co->callstack, 64);
 	segmentStackInit(&co->stk);
 	co->ctx.bp = co->stk.begin;
-- 
2.43.0


From 6c6724e3d20e6681e8ff515c20a55c745a43779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 50/63] fix: a script's first line is skipped whole, and only
 when it is no code

---
 main.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/main.c b/main.c
index 29714e0..f7796b3 100644
--- a/main.c
+++ b/main.c
@@ -57,16 +57,17 @@ shebang(Cora* co, int argc, char* argv[]) {
 	//
 	// (followed by cora script ...)
 	//
-	char buf[256];
-	while (true) {
-		char* line = fgets(buf, 256, f);
-		if (line == NULL) {
-			exit(-1);
-		}
-		// The length of the first line is more than 255 bytes.
-		if (buf[254] != '\n') {
-			break;
+	// The line may be of any length. A first line of another kind is code.
+	int c = getc(f);
+	if (c == EOF) {
+		exit(-1);
+	}
+	if (c == '#') {
+		while (c != '\n' && c != EOF) {
+			c = getc(f);
 		}
+	} else {
+		ungetc(c, f);
 	}
 
 	Obj args = Nil;
-- 
2.43.0


From 6ebbefed7bb3a436fa6214a5955cfb0be55e753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 51/63] sim: the hook that starts a cycle early leaves the
 decision to the collector's own code

---
 src/gc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index b62319a..499ef57 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -381,10 +381,10 @@ getBlock(GC *gc, int slot) {
 bool
 gcTriggerCheck(GC *gc) {
 #ifdef CORA_SIM
-	if (gc->state == gcStateNone && coraSim.gcTrigger != NULL &&
+	if (gc->state == gcStateNone && gc->stats.allocated > 0 &&
+		coraSim.gcTrigger != NULL &&
 		coraSim.gcTrigger(gc->stats.allocated > gc->stats.nextSize)) {
-		gc->state = gcStateMark;
-		return true;
+		gc->stats.nextSize = 0; // due now
 	}
 #endif
 	if (gc->stats.allocated > gc->stats.nextSize && gc->state == gcStateNone) {
-- 
2.43.0


From c95496d8e7e63e41cefb269f1fa55dded4da5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 52/63] fix: md4c: a heading or code block in a list item is
 not taken for the item's own start

Whether the block bytes end with a list item was decided by reading the
last bytes as a block; those of a one-line heading or a closed code block
are a line record, whose offset can look like one (a heading at offset 4:
"- # a", blank line, "  b"), and the item then ended too early.
---
 lib/md4c/md4c.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index e16a20e..cc7b7b8 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -277,6 +277,11 @@ struct MD_CTX_tag {
 	int html_block_type;  /* For checking closing raw HTML condition. */
 	int last_line_has_list_loosening_effect;
 	int last_list_item_starts_with_two_blank_lines;
+
+	/* Value of ->n_block_bytes just after the last container was pushed, i.e.
+	 * the block bytes end with a container (and not with a line of a leaf
+	 * block) if and only if it equals ->n_block_bytes. */
+	int n_container_bytes;
 };
 
 enum MD_LINETYPE_tag {
@@ -5615,6 +5620,8 @@ md_push_container_bytes(MD_CTX *ctx, MD_BLOCKTYPE type, unsigned start,
 	block->data = data;
 	block->n_lines = start;
 
+	ctx->n_container_bytes = ctx->n_block_bytes;
+
 abort:
 	return ret;
 }
@@ -6388,7 +6395,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 				 * end the list because according to the specification, "a list
 				 * item can begin with at most one blank line."
 				 */
-				if (n_parents > 0 && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK)) {
+				if (n_parents > 0 && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK) && ctx->n_block_bytes == ctx->n_container_bytes) {
 					MD_BLOCK *top_block =
 						(MD_BLOCK *)((char *)
 								     ctx->block_bytes +
@@ -6407,7 +6414,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 			 * we would otherwise still belong to the list item, we enforce
 			 * the end of the list. */
 			if (ctx->last_list_item_starts_with_two_blank_lines) {
-				if (n_parents > 0 && n_parents == ctx->n_containers && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK)) {
+				if (n_parents > 0 && n_parents == ctx->n_containers && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK) && ctx->n_block_bytes == ctx->n_container_bytes) {
 					MD_BLOCK *top_block =
 						(MD_BLOCK *)((char *)
 								     ctx->block_bytes +
-- 
2.43.0


From 7301e7cd3051ea04f12982c8ecc501fb5fceb2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 53/63] fix: json-array-get does not wrap a large index round

---
 lib/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json.c b/lib/json.c
index a58cef7..7aa7e30 100644
--- a/lib/json.c
+++ b/lib/json.c
@@ -174,7 +174,7 @@ jsonArraySize(struct Cora *co, int label, Obj *R) {
 static void
 jsonArrayGet(struct Cora *co, int label, Obj *R) {
 	json_t *json = (json_t *)mustCObj(R[1]);
-	int idx = fixnum(R[2]);
+	size_t idx = fixnum(R[2]);
 	json_t *v = json_array_get(json, idx);
 	if (v == NULL) {
 		coraReturn(co, Nil);
-- 
2.43.0


From 2e0d47cc344970c9d1a8ada3933c9d02acf5cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 54/63] fix: the language of a markdown code block is an
 attribute of it

---
 lib/md4c/wrap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/md4c/wrap.c b/lib/md4c/wrap.c
index ad9015b..fda50e5 100644
--- a/lib/md4c/wrap.c
+++ b/lib/md4c/wrap.c
@@ -148,11 +148,10 @@ render_open_code_block(MD_HTML *r, const MD_BLOCK_CODE_DETAIL *det) {
 	/* If known, output the HTML 5 attribute class="language-LANGNAME". */
 	Obj attrs = Nil;
 	if (det->lang.text != NULL) {
-		attrs = coraMakeCons(r->co, intern("@"), coraMakeCons(r->co, attrs, Nil));
 		coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("class"), Nil));
 		render_attribute(r, &det->lang, render_append_text1);
 		Obj tmp = coraReverse(r->co, coraSymbolGet(r->co, r->curr));
-		attrs = coraMakeCons(r->co, tmp, attrs);
+		attrs = coraMakeCons(r->co, intern("@"), coraMakeCons(r->co, tmp, Nil));
 	}
 
 	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("code"), Nil));
-- 
2.43.0


From dd22ec63fec1d5a7a7d2f62aa66f79feb2ba034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 55/63] fix: a markdown file that cannot be read to its end is
 not taken for a shorter one

---
 lib/md4c/wrap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/md4c/wrap.c b/lib/md4c/wrap.c
index fda50e5..66f7e6b 100644
--- a/lib/md4c/wrap.c
+++ b/lib/md4c/wrap.c
@@ -602,6 +602,10 @@ process_file(struct Cora *co, FILE *in, Obj *sxml) {
 			break;
 		buf_in.size += n;
 	}
+	if (ferror(in)) {
+		fprintf(stderr, "Reading failed.\n");
+		goto out;
+	}
 
 	/* Input size is good estimation of output size. Add some more reserve to
 	 * deal with the HTML header/footer and tags. */
-- 
2.43.0


From 82719570c8ca55b2fb5524c2a97ebd9538b3516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 56/63] fix: a markdown attribute is one string, also when it
 is empty or holds an entity

sxml->xml takes the first string as the value: it lost the rest of a link
with an entity and crashed on an empty one.
---
 lib/md4c/wrap.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/lib/md4c/wrap.c b/lib/md4c/wrap.c
index 66f7e6b..dc560f4 100644
--- a/lib/md4c/wrap.c
+++ b/lib/md4c/wrap.c
@@ -75,22 +75,9 @@ render_append_text1(MD_HTML *r, const MD_CHAR *data, MD_SIZE size) {
 static void
 render_attribute(MD_HTML *r, const MD_ATTRIBUTE *attr,
 	void (*fn_append)(MD_HTML *, const MD_CHAR *, MD_SIZE)) {
-	int i;
-
-	for (i = 0; attr->substr_offsets[i] < attr->size; i++) {
-		MD_TEXTTYPE type = attr->substr_types[i];
-		MD_OFFSET off = attr->substr_offsets[i];
-		MD_SIZE size = attr->substr_offsets[i + 1] - off;
-		const MD_CHAR *text = attr->text + off;
-
-		switch (type) {
-			// case MD_TEXT_NULLCHAR:  render_utf8_codepoint(r, 0x0000, render_verbatim); break;
-			// case MD_TEXT_ENTITY:    render_entity(r, text, size, fn_append); break;
-		default:
-			fn_append(r, text, size);
-			break;
-		}
-	}
+	/* One string for the whole attribute, also when it is empty or when an
+	 * entity splits it: sxml takes the first string as the value. */
+	fn_append(r, attr->text, attr->size);
 }
 
 static void
-- 
2.43.0


From 228fe8e54a8cb7a2af277eb7634d4a8849673a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 57/63] fix: enabling a trace while one is on closes the first
 file with its events

---
 src/trace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trace.c b/src/trace.c
index 1f33343..9d7b495 100644
--- a/src/trace.c
+++ b/src/trace.c
@@ -17,6 +17,7 @@ traceClose() {
 
 void
 traceInit(const char *path) {
+	traceClose();
 	trace_file = fopen(path, "wb");
 	trace_offset = 0;
 	atexit(traceClose);
-- 
2.43.0


From 742d0bc7f0ad8fd4067f2b130c21a0db7fb774e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 58/63] fix: a list of any length can be read and displayed

---
 src/reader.c | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 72ecff2..54d968b 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -70,18 +70,15 @@ readPart(GC *gc, FILE *in) {
 
 static Obj
 readCons(GC *gc, FILE *in) {
+	Obj ret = Nil;
 	int c = peekFirstChar(in);
-	if (c == ')') {
-		// read the empty list
-		return Nil;
+	while (c != ')') {
+		ungetc(c, in);
+		Obj o = readPart(gc, in);
+		ret = makeCons(gc, o, ret);
+		c = peekFirstChar(in);
 	}
-
-	ungetc(c, in);
-	Obj hd = readPart(gc, in);
-
-	/* read list */
-	Obj tl = readCons(gc, in);
-	return makeCons(gc, hd, tl);
+	return reverse(gc, ret);
 }
 
 Obj
@@ -260,25 +257,21 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 }
 
 static void
-printCons(FILE *to, Obj o, bool start) {
-	if (start) {
-		fprintf(to, "(");
-		printObj(to, car(o));
-	} else {
-		fprintf(to, " ");
-		printObj(to, car(o));
-	}
+printCons(FILE *to, Obj o) {
+	fprintf(to, "(");
+	printObj(to, car(o));
 
 	Obj tl = cdr(o);
-	if (tl == Nil) {
-		fprintf(to, ")");
-	} else if (iscons(tl)) {
-		printCons(to, tl, false);
-	} else {
+	while (iscons(tl)) {
+		fprintf(to, " ");
+		printObj(to, car(tl));
+		tl = cdr(tl);
+	}
+	if (tl != Nil) {
 		fprintf(to, " . ");
 		printObj(to, tl);
-		fprintf(to, ")");
 	}
+	fprintf(to, ")");
 }
 
 void
@@ -288,7 +281,7 @@ printObj(FILE *to, Obj o) {
 	} else if (iscobj(o)) {
 		fprintf(to, "cobj");
 	} else if (iscons(o)) {
-		printCons(to, o, true);
+		printCons(to, o);
 	} else if (issymbol(o)) {
 		char dest[256];
 		symbolStr(o, dest, 256);
-- 
2.43.0


From c83ba6a6667f425cbc0e594fc9236b99d2e3ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 59/63] fix: text nested too deep for the C stack is refused

---
 src/reader.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 54d968b..fbf2b07 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -8,7 +8,8 @@
 #include <string.h>
 
 // Including the '\0'. symbolStr copies the names of symbols to 256 bytes.
-enum { MAX_STRING = 1000, MAX_SYMBOL = 255 };
+// The depth is limited by the C stack.
+enum { MAX_STRING = 1000, MAX_SYMBOL = 255, MAX_DEPTH = 4000 };
 
 extern Obj primSet(struct Cora *co, Obj key, Obj val);
 
@@ -59,12 +60,19 @@ peekFirstChar(FILE *in) {
 // Read a sexp that is a part of another one, so it has to be there.
 static Obj
 readPart(GC *gc, FILE *in) {
+	static __thread int depth = 0;
 	int errCode = 0;
+	depth++;
+	if (depth > MAX_DEPTH) {
+		fprintf(stderr, "nested too deep. Maximum depth is %d\n", MAX_DEPTH);
+		exit(1);
+	}
 	Obj o = sexpRead(gc, in, &errCode);
 	if (errCode != 0) {
 		fprintf(stderr, "non-terminated list or quote\n");
 		exit(1);
 	}
+	depth--;
 	return o;
 }
 
-- 
2.43.0


From 74d1278387efe7967e1e2d6c13803388fa7ac6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:41 +0000
Subject: [PATCH 60/63] fix: lists of any length can be compared

---
 src/types.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types.h b/src/types.h
index 342757c..ab276e0 100644
--- a/src/types.h
+++ b/src/types.h
@@ -117,9 +117,11 @@ static inline bool
 eq(Obj x, Obj y) {
     if (x == y) return true;
 
-    if (iscons(x) && iscons(y)) {
+    while (iscons(x) && iscons(y)) {
         if (!eq(car(x), car(y))) return false;
-        return eq(cdr(x), cdr(y));
+        x = cdr(x);
+        y = cdr(y);
+        if (x == y) return true;
     }
 
     if (isBytes(x) && isBytes(y)) {
-- 
2.43.0


From 257a88614b826f60b1c8cc7819909c60765dca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 61/63] fix: a frame may be larger than a stack segment

---
 src/runtime.c | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index d03a141..611086a 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -21,24 +21,42 @@
 
 const int INIT_STACK_SIZE = 256;
 
+// The slot before a segment holds its size.
+static Obj *
+segmentNew(int size) {
+	Obj *p = (Obj *)malloc(sizeof(Obj) * (size + 1));
+	p[0] = size;
+	return p + 1;
+}
+
+static Obj *
+segmentEnd(Obj *segment) {
+	return segment + segment[-1];
+}
+
+static void
+segmentFree(Obj *segment) {
+	free(segment - 1);
+}
+
 static void
-segmentStackAlloc(struct segmentStack *alloc) {
-	Obj *fixSized = (Obj *)malloc(sizeof(Obj) * INIT_STACK_SIZE);
-	vecAppend(&alloc->data, fixSized);
-	alloc->begin = fixSized;
-	alloc->end = fixSized + INIT_STACK_SIZE;
+segmentStackAlloc(struct segmentStack *alloc, int size) {
+	Obj *segment = segmentNew(size);
+	vecAppend(&alloc->data, segment);
+	alloc->begin = segment;
+	alloc->end = segmentEnd(segment);
 }
 
 static void
 segmentStackInit(struct segmentStack *alloc) {
 	vecInit(&alloc->data, 8);
-	segmentStackAlloc(alloc);
+	segmentStackAlloc(alloc, INIT_STACK_SIZE);
 }
 
 Obj *
 stackAllocSlowPath(Cora *co, int n) {
-	assert(n < INIT_STACK_SIZE);
-	segmentStackAlloc(&co->stk);
+	// A large frame gets a segment of its size. sp stays within the segment.
+	segmentStackAlloc(&co->stk, n < INIT_STACK_SIZE ? INIT_STACK_SIZE : n + 1);
 	co->ctx.bp = co->stk.begin;
 	co->ctx.sp = co->stk.begin + n;
 	return co->ctx.bp;
@@ -51,12 +69,12 @@ coraReturnSlowPath(Cora *co) {
 	do {
 		int last = vecLen(&co->stk.data) - 1;
 		assert(last > 0 && vecGet(&co->stk.data, last) == co->stk.begin);
-		free(co->stk.begin);
+		segmentFree(co->stk.begin);
 		vecSet(&co->stk.data, last, NULL);
 		co->stk.data.v.len--;
 
 		co->stk.begin = vecGet(&co->stk.data, last - 1);
-		co->stk.end = co->stk.begin + INIT_STACK_SIZE;
+		co->stk.end = segmentEnd(co->stk.begin);
 	} while (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end);
 }
 
@@ -157,8 +175,8 @@ makeCurry(Cora *co, Obj fn, int nargs, Obj *args) {
 // Call the returned function with the extra args of an over application.
 static void
 coraDispatchRest(Cora *co, int nargs, Obj *R) {
-	assert(nargs > 0 && nargs < INIT_STACK_SIZE);
-	Obj args[INIT_STACK_SIZE];
+	assert(nargs > 0);
+	Obj args[nargs];
 	memcpy(args, R, nargs * sizeof(Obj));
 	co->ctx.sp = R;
 	coraCall(co, co->res, nargs, args);
@@ -957,7 +975,7 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 	}
 	Obj *stack = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
 	co->stk.begin = stack;
-	co->stk.end = stack + INIT_STACK_SIZE;
+	co->stk.end = segmentEnd(stack);
 
 	Obj val = R[1];
 	coraReturn(co, val);
@@ -993,7 +1011,7 @@ builtinThrow(Cora *co, int label, Obj *R) {
 	}
 	co->stk.data.v.len = mark.segmentStackPos;
 	co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
-	co->stk.end = co->stk.begin + INIT_STACK_SIZE;
+	co->stk.end = segmentEnd(co->stk.begin);
 	co->callstack.v.len = mark.callstackPos;
 
 	Frame beforeTry = vecGet(&co->callstack, vecLen(&co->callstack) - 1);
-- 
2.43.0


From 92e862afaa5f8c34ba11467c8f3e1ffec69a0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:32 +0000
Subject: [PATCH 62/63] fix: a continuation that is dropped releases its stack
 segments

---
 src/gc.c      | 19 +++++++++++++++++++
 src/gc.h      |  7 +++++++
 src/runtime.c | 26 ++++++++++++++++++++++++++
 src/runtime.h |  3 +++
 4 files changed, 55 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 499ef57..950a931 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -234,6 +234,9 @@ struct GC {
 
 	// remember set for generationGC.
 	scmHeadEx *rset;
+
+	gcFlipCallback onFlip;
+	void *onFlipData;
 };
 
 static void
@@ -289,6 +292,7 @@ gcInit() {
 	gc->version =
 		2; // Start from 2, so uninitialized blocks can be treated as garbage
 	gc->rset = NULL;
+	gc->onFlip = NULL;
 	gc->freelist = NULL;
 
 	gc->gray.head = NULL;
@@ -829,9 +833,24 @@ gcMarkRoot(GC *gc, gcMarkRootCallback callback, void *data) {
 /* 	} */
 /* } */
 
+void
+gcOnFlip(GC *gc, gcFlipCallback callback, void *data) {
+	gc->onFlip = callback;
+	gc->onFlipData = data;
+}
+
+bool
+gcIsDead(GC *gc, scmHead *h) {
+	return versionCmp((gc->version + 2) & VERSION_MASK,
+		       h->version & VERSION_MASK) > 0;
+}
+
 static void
 gcFlip(GC *gc) {
 	TRACE_SCOPE("gcFlip");
+	if (gc->onFlip != NULL) {
+		gc->onFlip(gc, gc->onFlipData);
+	}
 	// Reset the current large list and sizeClass list.
 	for (struct heapArena *p = gc->large; p != NULL; p = p->next) {
 		p->curr = 0;
diff --git a/src/gc.h b/src/gc.h
index db28536..b017b4d 100644
--- a/src/gc.h
+++ b/src/gc.h
@@ -49,6 +49,13 @@ bool gcTriggerCheck(GC *gc);
 typedef void (*gcMarkRootCallback)(GC *gc, void* data);
 void gcMarkRoot(GC *gc, gcMarkRootCallback callback, void* data);
 
+// The callback runs when a round of GC is about to end: the objects which did not
+// survive are known and not reused yet. It should not allocate objects.
+typedef void (*gcFlipCallback)(GC *gc, void* data);
+void gcOnFlip(GC *gc, gcFlipCallback callback, void* data);
+// Whether an object does not survive this round, only for use in gcFlipCallback.
+bool gcIsDead(GC *gc, scmHead *h);
+
 void* gcAlloc(GC* gc, int size);
 void gcRun(GC *gc);
 
diff --git a/src/runtime.c b/src/runtime.c
index 611086a..e5922d7 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -86,6 +86,7 @@ coraNew() {
 	co->ctx.bp = co->stk.begin;
 	co->ctx.sp = co->stk.begin;
 	vecInit(&co->trystack, 4);
+	vecInit(&co->conts, 4);
 	mapInit(&co->env, strHashFunc, strEQFunc);
 	return co;
 }
@@ -922,6 +923,7 @@ makeContinuation(Cora *co, Frame *callstack, int len, Obj **stk,
 	for (int i = 0; i < count; i++) {
 		q[i] = stk[i];
 	}
+	vecAppend(&co->conts, cont);
 
 	return makeNaNPtr(&cont->head, TAG_PTR);
 }
@@ -942,6 +944,29 @@ continuationGCFunc(struct GC *gc, void *f) {
 	}
 }
 
+// A continuation that dies without being resumed takes its stack segments along.
+static void
+releaseContinuations(struct GC *gc, void *data) {
+	Cora *co = data;
+	int keep = 0;
+	for (int i = 0; i < vecLen(&co->conts); i++) {
+		struct scmContinuation *cont = vecGet(&co->conts, i);
+		if (cont->resumed) {
+			continue;
+		}
+		if (!gcIsDead(gc, &cont->head)) {
+			vecSet(&co->conts, keep, cont);
+			keep++;
+			continue;
+		}
+		Obj **stk = (Obj **)(cont->data + (sizeof(Frame) * cont->len));
+		for (int j = 0; j < cont->count; j++) {
+			segmentFree(stk[j]);
+		}
+	}
+	co->conts.v.len = keep;
+}
+
 static void
 continuationAsClosure(Cora *co, int label, Obj *R) {
 	Obj this = R[0];
@@ -1260,6 +1285,7 @@ coraInit() {
 	typesInit(); // this should be called before coraNew()
 	Cora *co = coraNew();
 	co->gc = gcInit();
+	gcOnFlip(co->gc, releaseContinuations, co);
 	gcRegistForType(scmHeadContinuation, continuationGCFunc);
 	symQuote = intern("quote");
 	symBackQuote = intern("backquote");
diff --git a/src/runtime.h b/src/runtime.h
index a963f65..7704288 100644
--- a/src/runtime.h
+++ b/src/runtime.h
@@ -32,6 +32,7 @@ struct tryMark {
 };
 
 typedef struct Cora Cora;
+struct scmContinuation;
 
 typedef struct {
 	Obj name;
@@ -52,6 +53,8 @@ struct Cora {
 	// imported packages, each package is an array Binding[]
 	vector(Binding*) pkgs;
 	vector(struct tryMark) trystack;
+	// The continuations that may still own stack segments.
+	vector(struct scmContinuation*) conts;
 	GC *gc;
 };
 
-- 
2.43.0


From a21d185d40f4ad35d9d65cd74fc086dc11bd3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 63/63] fix: stop polling a connection for what no fiber waits
 for

Read interest stayed registered after a recv was done, so a peer that sent
ahead, or closed, kept epoll_wait from ever sleeping while every fiber waited
for something else: the event loop ran at full speed and printed a line each
time. Deregister the mode when its event finds no callback, and take the
connection out of epoll with its last mode.
---
 lib/async.cora | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index c45d6e5..1edd24d 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -105,6 +105,20 @@
 		    (conn-set-mode! conn new-mode))))
 	     (display "event loop add no action!\n")))))
 
+  ;; event-loop-del stops polling the conn for mode, and takes the conn out of
+  ;; the event loop with its last mode: epoll reports a hangup whatever the modes are.
+  (defun event-loop-del (conn mode)
+    (if (conn-not-in-event-loop? conn)
+	()
+	(let new-mode (filter (lambda (m) (not (= mode m))) (conn-mode conn))
+	     (begin
+	      (conn-set-mode! conn new-mode)
+	      (if (null? new-mode)
+		  (begin
+		   (net-poll-del (conn-fd conn))
+		   (del-from-event-loop-conns conn))
+		  (net-poll-mod (conn-fd conn) new-mode conn))))))
+
   (defun listen (addr)
     (let fd (net-listen addr)
 	 (if (null? fd)
@@ -159,14 +173,7 @@
 					(conn-set-write-callback! conn ())
 					;; remove writable event registry from event loop,
 					;; because we'll get too noisy notifications, writable is almost always true
-					(let fd (conn-fd conn)
-					     old-mode (conn-mode conn)
-					     new-mode (filter
-						       (lambda (m) (not (= 'write m)))
-						       old-mode)
-					     (begin
-					      (net-poll-mod fd new-mode conn)
-					      (conn-set-mode! conn new-mode)))
+					(event-loop-del conn 'write)
 					(enqueue-task (lambda () (k res)))))
 	_ k => (display "wrong argument for send-handler\n"))
 
@@ -244,7 +251,10 @@
 					    (display "but callback is not set")
 					    (display "fd=")
 					    (display (conn-fd conn))
-					    (display "\n"))))))
+					    (display "\n")
+					    ;; nobody waits for it, and it stays ready: stop polling for it,
+					    ;; event-loop-add registers the mode again when it is needed
+					    (event-loop-del conn mode))))))
 			    events)
 		  (display "handle net-poll events done, --- return true!\n")
 		  true)))))
-- 
2.43.0

