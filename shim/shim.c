/* LD_PRELOAD shim: virtual monotonic clock, scaled sleeps, seeded delays around the socket calls,
 * SIGKILL at the n-th call of a kind, detection of close() on a descriptor that is not open,
 * counts and a hash of the order of the calls. Everything is off unless its variable is set.
 *
 *   VH_SLEEP_DIV=n        divide sleeps of 500 ms and more by n
 *   VH_DELAY=pct,maxus,seed  delay calls, and 8-byte writes, which wake somebody up
 *   VH_KILL_AT=call:n:b|a    SIGKILL before or after the n-th call of that kind
 *   VH_BADCLOSE=file      append a line for every close() that fails with EBADF
 *   VH_VWAIT=1            waits with a timeout end by the virtual clock, without being woken up
 *   VH_FAULT=permille,seed   socket calls fail with EINTR now and then, and sendmsg also for want of
 *                         memory, before doing anything; sleeps of 100 ms and more take a 50th then
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define NS 1000000000LL
static _Atomic int64_t offset_ns;
static int64_t sleep_div;
static int delay_pct, delay_us;
static int faults;
static _Atomic uint64_t faults_done;
static int vwait;
static uint64_t seed;
static char kill_call[32];
static long kill_n;
static int kill_after;
static char *badclose;
static int inited;

enum { C_sendmsg, C_recvmsg, C_epoll_wait, C_connect, C_bind, C_listen, C_accept4, C_close, C_socketpair, C_N };
static const char *names[C_N] = {"sendmsg", "recvmsg", "epoll_wait", "connect", "bind", "listen", "accept4", "close", "socketpair"};
static _Atomic uint64_t counts[C_N];
static _Atomic uint64_t trace = 0xcbf29ce484222325ULL;

static long (*real_syscall)(long, ...);
static int (*real_clock_gettime)(clockid_t, struct timespec *);
static int (*real_clock_nanosleep)(clockid_t, int, const struct timespec *, struct timespec *);
static int (*real_nanosleep)(const struct timespec *, struct timespec *);
static ssize_t (*real_sendmsg)(int, const struct msghdr *, int);
static ssize_t (*real_recvmsg)(int, struct msghdr *, int);
static int (*real_epoll_wait)(int, struct epoll_event *, int, int);
static int (*real_connect)(int, const struct sockaddr *, socklen_t);
static int (*real_bind)(int, const struct sockaddr *, socklen_t);
static int (*real_listen)(int, int);
static int (*real_accept4)(int, struct sockaddr *, socklen_t *, int);
static int (*real_close)(int);
static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_socketpair)(int, int, int, int *);

static void init(void) {
	if (inited)
		return;
#define R(n) real_##n = (void *)dlsym(RTLD_NEXT, #n)
	R(syscall); R(clock_gettime); R(clock_nanosleep); R(nanosleep); R(sendmsg); R(recvmsg); R(epoll_wait);
	R(connect); R(bind); R(listen); R(accept4); R(close); R(socketpair); R(write);
	char *s;
	if ((s = getenv("VH_SLEEP_DIV")))
		sleep_div = atoll(s);
	if ((s = getenv("VH_DELAY"))) {
		unsigned long long x = 1;
		sscanf(s, "%d,%d,%llu", &delay_pct, &delay_us, &x);
		seed = x;
	}
	vwait = getenv("VH_VWAIT") != NULL;
	if ((s = getenv("VH_FAULT"))) {
		unsigned long long x = 1;
		sscanf(s, "%d,%llu", &faults, &x);
		seed ^= x * 0x9e3779b97f4a7c15ULL;
	}
	if ((s = getenv("VH_KILL_AT"))) {
		char side = 'b';
		sscanf(s, "%31[^:]:%ld:%c", kill_call, &kill_n, &side);
		kill_after = side == 'a';
	}
	badclose = getenv("VH_BADCLOSE");
	inited = 1;
}
__attribute__((constructor)) static void ctor(void) { init(); }

static uint64_t rnd(void) {
	static __thread uint64_t st;
	static _Atomic uint64_t nth;
	if (!st)
		st = (seed + 1) * 0x9e3779b97f4a7c15ULL + (atomic_fetch_add(&nth, 1) + 1) * 0xbf58476d1ce4e5b9ULL;
	st ^= st << 13;
	st ^= st >> 7;
	st ^= st << 17;
	return st;
}

static void raw_sleep_ns(int64_t ns) {
	struct timespec ts = {ns / NS, ns % NS};
	real_nanosleep(&ts, NULL);
}

static void before(int c) {
	if (delay_pct && (int)(rnd() % 100) < delay_pct)
		raw_sleep_ns((int64_t)(rnd() % (uint64_t)(delay_us + 1)) * 1000);
}
static __thread int tno;
static _Atomic int tnext;
static void note(int c, int after) {
	uint64_t n = atomic_fetch_add(&counts[c], after ? 0 : 1) + 1;
	if (!after) {
		if (!tno)
			tno = atomic_fetch_add(&tnext, 1) + 1;
		uint64_t h = atomic_load(&trace);
		atomic_store(&trace, (h ^ (uint64_t)(c * 131 + tno)) * 0x100000001b3ULL);
	}
	(void)n;
}
static void crash(int c, uint64_t n, int after) {
	if (kill_n && kill_after == after && (long)n == kill_n && !strcmp(kill_call, names[c])) {
		real_syscall(SYS_kill, getpid(), SIGKILL);
		for (;;)
			pause();
	}
}
static int fault(void) {
	if (!faults || (int)(rnd() % 1000) >= faults)
		return 0;
	atomic_fetch_add(&faults_done, 1);
	errno = EINTR;
	return 1;
}
#define ENTER(c)                                              \
	init();                                                   \
	before(c);                                                \
	note(c, 0);                                               \
	uint64_t n_ = atomic_load(&counts[c]);                    \
	crash(c, n_, 0)
#define LEAVE(c)                                              \
	{                                                         \
		int e_ = errno;                                       \
		crash(c, n_, 1);                                      \
		before(c);                                            \
		errno = e_;                                           \
	}

void vh_clock_add(int64_t ns) { atomic_fetch_add(&offset_ns, ns); }
void vh_set_fault(int permille, uint64_t s) { seed ^= s * 0x9e3779b97f4a7c15ULL; faults = permille; }
uint64_t vh_faults(void) { return atomic_load(&faults_done); }
void vh_set_delay(int pct, int us, uint64_t s) { delay_us = us; seed = s; delay_pct = pct; }
/* SIGKILL at the n-th call of that kind from now on */
void vh_set_kill(const char *call, long n, int after) {
	for (int c = 0; c < C_N; c++)
		if (!strcmp(call, names[c])) {
			strncpy(kill_call, call, sizeof kill_call - 1);
			kill_after = after;
			kill_n = atomic_load(&counts[c]) + n;
		}
}
uint64_t vh_count(int c) { return c >= 0 && c < C_N ? atomic_load(&counts[c]) : 0; }
uint64_t vh_trace(void) { return atomic_load(&trace); }

int clock_gettime(clockid_t id, struct timespec *ts) {
	init();
	int r = real_clock_gettime(id, ts);
	int64_t off = atomic_load(&offset_ns);
	if (r == 0 && id == CLOCK_MONOTONIC && off) {
		int64_t t = ts->tv_sec * NS + ts->tv_nsec + off;
		ts->tv_sec = t / NS;
		ts->tv_nsec = t % NS;
	}
	return r;
}

/* A wait never sleeps for longer than this before it looks at the virtual clock again */
#define SLICE (10 * 1000000LL)
static int64_t virtual_now(void) {
	struct timespec ts;
	real_clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * NS + ts.tv_nsec + atomic_load(&offset_ns);
}

long syscall(long nr, ...) {
	init();
	va_list ap;
	va_start(ap, nr);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
		 f = va_arg(ap, long);
	va_end(ap);
	if (vwait && nr == SYS_futex && (b & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET && !(b & FUTEX_CLOCK_REALTIME) && d &&
		((struct timespec *)d)->tv_sec < (1LL << 32)) {
		int64_t end = ((struct timespec *)d)->tv_sec * NS + ((struct timespec *)d)->tv_nsec;
		for (;;) {
			int64_t left = end - virtual_now();
			if (left <= 0)
				left = 0;
			int last = left == 0;
			struct timespec ts;
			real_clock_gettime(CLOCK_MONOTONIC, &ts);
			int64_t t = ts.tv_sec * NS + ts.tv_nsec + (left < SLICE ? left : SLICE);
			ts.tv_sec = t / NS;
			ts.tv_nsec = t % NS;
			long r = real_syscall(nr, a, b, c, &ts, e, f);
			if (r == -1 && errno == ETIMEDOUT && !last)
				continue;
			return r;
		}
	}
	int64_t off = atomic_load(&offset_ns);
	if (nr == SYS_futex && off && (b & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET && !(b & FUTEX_CLOCK_REALTIME) && d) {
		struct timespec ts = *(struct timespec *)d;
		int64_t t = ts.tv_sec * NS + ts.tv_nsec;
		if (ts.tv_sec < (1LL << 32)) {
			t -= off;
			if (t < 0)
				t = 0;
			ts.tv_sec = t / NS;
			ts.tv_nsec = t % NS;
		}
		return real_syscall(nr, a, b, c, &ts, e, f);
	}
	return real_syscall(nr, a, b, c, d, e, f);
}

static int64_t scaled(int64_t t) {
	if (faults && t >= NS / 10)
		return t / 50;
	return sleep_div && t >= NS / 2 ? t / sleep_div : t;
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
	init();
	if (vwait && id == CLOCK_MONOTONIC) {
		int64_t end = req->tv_sec * NS + req->tv_nsec + ((flags & TIMER_ABSTIME) ? 0 : virtual_now());
		for (;;) {
			int64_t left = end - virtual_now();
			if (left <= 0)
				return 0;
			if (left > SLICE)
				left = SLICE;
			struct timespec ts = {left / NS, left % NS};
			if (real_nanosleep(&ts, rem) == -1)
				return errno;
		}
	}
	if (id != CLOCK_MONOTONIC || (!sleep_div && !faults && !atomic_load(&offset_ns)))
		return real_clock_nanosleep(id, flags, req, rem);
	int64_t t = req->tv_sec * NS + req->tv_nsec;
	if (flags & TIMER_ABSTIME) {
		struct timespec now;
		clock_gettime(CLOCK_MONOTONIC, &now);
		t -= now.tv_sec * NS + now.tv_nsec;
		if (t < 0)
			t = 0;
	}
	t = scaled(t);
	struct timespec ts = {t / NS, t % NS};
	if (real_nanosleep(&ts, rem) == -1)
		return errno;
	return 0;
}

int nanosleep(const struct timespec *req, struct timespec *rem) {
	init();
	int64_t t = req->tv_sec * NS + req->tv_nsec;
	t = scaled(t);
	struct timespec ts = {t / NS, t % NS};
	return real_nanosleep(&ts, rem);
}

ssize_t sendmsg(int fd, const struct msghdr *h, int fl) {
	ENTER(C_sendmsg);
	if (fault()) {
		static const int e[4] = {EINTR, ENOBUFS, ENOMEM, ETOOMANYREFS};
		errno = e[rnd() >> 20 & 3];
		return -1;
	}
	ssize_t r = real_sendmsg(fd, h, fl);
	LEAVE(C_sendmsg);
	return r;
}
ssize_t recvmsg(int fd, struct msghdr *h, int fl) {
	ENTER(C_recvmsg);
	if (fault())
		return -1;
	ssize_t r = real_recvmsg(fd, h, fl);
	LEAVE(C_recvmsg);
	return r;
}
int epoll_wait(int e, struct epoll_event *ev, int n, int t) {
	ENTER(C_epoll_wait);
	if (fault())
		return -1;
	int r;
	if (vwait && t > 0) {
		int64_t end = virtual_now() + t * 1000000LL;
		for (;;) {
			int64_t left = end - virtual_now();
			if (left < 0)
				left = 0;
			r = real_epoll_wait(e, ev, n, (int)(((left < SLICE ? left : SLICE) + 999999) / 1000000));
			if (r != 0 || left == 0)
				break;
		}
	} else
		r = real_epoll_wait(e, ev, n, t);
	LEAVE(C_epoll_wait);
	return r;
}
ssize_t write(int fd, const void *d, size_t n) {
	init();
	if (n == 8)
		before(0);
	ssize_t r = real_write(fd, d, n);
	if (n == 8) {
		int e = errno;
		before(0);
		errno = e;
	}
	return r;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
	ENTER(C_connect);
	if (fault())
		return -1;
	int r = real_connect(fd, a, l);
	LEAVE(C_connect);
	return r;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
	ENTER(C_bind);
	int r = real_bind(fd, a, l);
	LEAVE(C_bind);
	return r;
}
int listen(int fd, int n) {
	ENTER(C_listen);
	int r = real_listen(fd, n);
	LEAVE(C_listen);
	return r;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
	ENTER(C_accept4);
	if (fault())
		return -1;
	int r = real_accept4(fd, a, l, fl);
	LEAVE(C_accept4);
	return r;
}
int socketpair(int a, int b, int c, int *p) {
	ENTER(C_socketpair);
	int r = real_socketpair(a, b, c, p);
	LEAVE(C_socketpair);
	return r;
}
int close(int fd) {
	ENTER(C_close);
	int r = real_close(fd);
	if (r == -1 && errno == EBADF && badclose) {
		int e = errno;
		int f = open(badclose, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		if (f != -1) {
			char b[64];
			int n = snprintf(b, sizeof b, "pid %d close(%d): EBADF\n", getpid(), fd);
			if (write(f, b, n) == -1) {
			}
			real_close(f);
		}
		errno = e;
	}
	LEAVE(C_close);
	return r;
}
