/*
 * Controlled execution of multi-threaded cases. Library threads are coroutines
 * of one system thread; every memory access and synchronization call of the
 * instrumented code may switch, and all scheduling decisions are choices of the
 * case, so schedules are generated, shrunk and replayed like any other input.
 */
#pragma once

#include "vf.h"
#include <pthread.h>

#define VFMT_MAX 8

/* Start a multi-threaded case; the caller is thread 0. */
void vfmt_begin(void);
/* Let all other threads run until each has ended or is blocked for good.
 * Returns the set of blocked threads. */
uint32_t vfmt_settle(void);
/* Finish the case: abandons blocked threads. */
void vfmt_end(void);
unsigned vfmt_self(void);
unsigned vfmt_switches(void);  /* context switches so far */
unsigned vfmt_preempts(void);
void vfmt_yield(void);         /* an extra point where a switch may happen */
void vfmt_touch(const void* p, size_t n, bool write); /* an access by harness code that counts like one of the library */
uint64_t vfmt_now(void);       /* virtual time, ns */
const char* vfmt_blocked_on(unsigned tid);
extern uint32_t vfmt_create_fails;   /* bit n: the n-th thread start of the case fails */
extern unsigned vfmt_spurious_max;   /* most spurious wake-ups per case (default 2) */
extern unsigned vfmt_slice;           /* a thread that runs this many steps without a switch lets the others go on (reset to 50000 by vfmt_begin) */
extern uint64_t vfmt_limit;           /* steps after which a case counts as not finishing (reset to 3000000 by vfmt_begin) */
extern unsigned vfmt_gap;             /* most steps between planned preemptions; set before vfmt_begin */
extern bool vfmt_calm;                /* no preemptions while set (cleared by vfmt_begin) */
extern bool vfmt_no_timeouts;        /* timed waits expire only when nothing else can run */

/* Happens-before questions for the property. */
typedef struct { uint32_t vc[VFMT_MAX]; uint32_t tid, epoch; } vfmt_stamp;
vfmt_stamp vfmt_mark(void);                    /* the present moment of this thread */
bool vfmt_after(const vfmt_stamp* s);          /* is this thread's present ordered after s? */

/* ---- recorded calls and linearizability ---- */
#define VFMT_OPS 30
typedef struct {
	unsigned tid, op;
	bool done;
	int64_t a, b;      /* arguments */
	int64_t r, s;      /* results */
	uint32_t call, ret;
} vfmt_op;
vfmt_op* vfmt_call(unsigned op, int64_t a, int64_t b);
void vfmt_ret(vfmt_op* o, int64_t r, int64_t s);
unsigned vfmt_nops(void);
vfmt_op* vfmt_ops(void);

/* Is there an order of the recorded calls, respecting real time, in which each
 * result is what the model gives? `apply` changes the state and returns whether
 * the results of a finished call match; an unfinished call may take effect (if
 * `apply` allows it) or not. `final` judges the end state together with the set
 * of calls that did not take effect. */
bool vfmt_linearizable(const void* init, size_t size, bool (*apply)(void* st, const vfmt_op* o), bool (*final)(const void* st, uint32_t waiting));
const char* vfmt_history(const char* (*name)(unsigned op));
