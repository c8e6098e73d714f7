/*
 * A virtual kernel for the USB daemon.
 *
 * The daemon is compiled with -Dmain=daemon_main and linked with its system calls wrapped. It runs until it waits and
 * nothing is ready; there the environment's next events are chosen. Exploration is depth first: one fork per choice, so
 * every sequence of events up to the depth is executed on the real daemon code. After every step the octets the daemon
 * wrote to clients and to the device are compared with a line-oriented model.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <malloc.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <netinet/in.h>

int daemon_main(int argc, char **argv);

#define NFD 512
#define NCLI 160
#define BUFSZ 65536
#define MAXREPORT 64
#define SUREREPORT 56
#define MAXSERVED 64

enum { NONE, LISTENER, CONN, DEVICE, POLLER };
static struct { int kind, cli, nonblock; } fds[NFD];

struct line { int n, optional; unsigned char o[72]; };
struct queue { int n; struct line *l; };

struct cli {
	int used, accepted, fd, eof, reset, aborted, gone;	/* gone: the daemon closed it */
	int stalled, room;		/* it does not read; octets the kernel still takes for it */
	int shut, excused;		/* the daemon shut it down; it may, as a report did not fit */
	char *in; int in_len;
	char *out; int out_len;
	struct queue reports;		/* reports it must be sent */
	struct queue lines;		/* lines to be written to the device */
	char text[4096]; int text_len, text_over;
};
static struct cli cli[NCLI];
static int ncli, backlog[NCLI], nbacklog;
static struct { unsigned char o[80]; int n; } reports[64];
static int nreports;
static struct line written[2048];
static int nwritten;
static unsigned seq;
static int spins, calls;
static char script[65536];
static int out_fd = -1;
static long now_s = 1000000;	/* the time */
static int elapsed;		/* it passed while the daemon waited */

struct shared { unsigned long states, steps, runs; };
static struct shared *shared;

/* ---- results ---- */
static void say(const char *fmt, ...)
{
	char b[8192]; va_list ap;
	va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n > (int) sizeof b - 1) n = sizeof b - 1;
	extern ssize_t __real_write(int, const void *, size_t);
	__real_write(out_fd, b, n);
}

extern void __real__exit(int) __attribute__((noreturn));
static void fail(const char *fmt, ...)
{
	char b[6000]; va_list ap;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	say("FAIL %s\nSCRIPT %s\n", b, script);
	__real__exit(1);
}

static const char *hex(const unsigned char *o, int n)
{
	static char b[4][1024]; static int k; char *p = b[k++ & 3];
	if (n > 500) n = 500;
	for (int i = 0; i < n; i++) sprintf(p + 2 * i, "%02x", o[i]);
	p[2 * n] = 0;
	return p;
}

/* ---- model ---- */
static void push(struct queue *q, const unsigned char *o, int n, int optional)
{
	q->l = realloc(q->l, (q->n + 1) * sizeof *q->l);
	q->l[q->n].n = n; q->l[q->n].optional = optional;
	memcpy(q->l[q->n].o, o, n);
	q->n++;
}

static void pop(struct queue *q)
{
	memmove(q->l, q->l + 1, (q->n - 1) * sizeof *q->l);
	q->n--;
}

static int digit(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static int parse(const char *t, int n, unsigned char *o)
{
	if (n == 0 || n % 2 || n > 2 * MAXREPORT) return 0;
	for (int i = 0; i < n; i++)
		if (!((t[i] >= '0' && t[i] <= '9') || (t[i] >= 'a' && t[i] <= 'f') || (t[i] >= 'A' && t[i] <= 'F')))
			return 0;
	for (int i = 0; i < n / 2; i++) o[i] = digit(t[2 * i]) * 16 + digit(t[2 * i + 1]);
	return n / 2;
}

static void model_text(struct cli *c, const char *t, int n)
{
	unsigned char o[MAXREPORT];
	for (int i = 0; i < n; i++) {
		if (t[i] == '\n' || t[i] == '\r') {
			int k = c->text_over ? 0 : parse(c->text, c->text_len, o);
			if (k) push(&c->lines, o, k, k > SUREREPORT);
			c->text_len = c->text_over = 0;
		} else if (c->text_len < 4000) c->text[c->text_len++] = t[i];
		else c->text_over = 1;
	}
}

/* ---- environment events ---- */
static int live(int i) { return i < ncli && cli[i].used && !cli[i].eof && !cli[i].reset && !cli[i].aborted; }

static void post_text(int i, const char *t, int n)
{
	struct cli *c = &cli[i];
	if (c->in_len + n > BUFSZ) { say("HARNESS buffer\n"); __real__exit(3); }
	memcpy(c->in + c->in_len, t, n); c->in_len += n;
	model_text(c, t, n);
}

static void post_report(const unsigned char *o, int n)
{
	memcpy(reports[nreports].o, o, n); reports[nreports].n = n; nreports++;
	for (int i = 0; i < ncli; i++)
		if (live(i) && !cli[i].gone) {
			push(&cli[i].reports, o, n, !cli[i].accepted || cli[i].stalled);
			if (cli[i].stalled) cli[i].excused = 1;
		}
}

static int connect_client(int aborted)
{
	if (ncli == NCLI) { say("HARNESS clients\n"); __real__exit(3); }
	struct cli *c = &cli[ncli];
	memset(c, 0, sizeof *c);
	c->used = 1; c->aborted = aborted; c->fd = -1;
	c->in = malloc(BUFSZ); c->out = malloc(BUFSZ);
	/* reports not read yet: depends on which the daemon looks at first */
	for (int k = 0; k < nreports; k++) push(&c->reports, reports[k].o, reports[k].n, 1);
	backlog[nbacklog++] = ncli;
	return ncli++;
}

static int fmt_line(char *b, int i, int n)	/* a line of n octets bearing the client and a fresh number */
{
	int k = 0;
	seq++;
	for (int j = 0; j < n; j++)
		k += sprintf(b + k, (j + seq) & 1 ? "%02x" : "%02X",
			j == 0 ? 0xC0 | (i & 15) : j == 1 ? seq >> 8 & 255 : j == 2 ? seq & 255 : (unsigned char) (0xA5 + 37 * j + seq));
	return k;
}

static void post_chunk(int i, int kind)
{
	char b[2048]; int n = 0;
	switch (kind) {
	case 'a': n = fmt_line(b, i, 3); b[n++] = '\n'; break;
	case 'b': n = fmt_line(b, i, 56); b[n++] = '\n'; break;
	case 'c': n = fmt_line(b, i, 4); b[n++] = '\r'; b[n++] = '\n'; break;
	case 'd': n = fmt_line(b, i, 5); b[n++] = '\n'; n += fmt_line(b + n, i, 4); b[n++] = '\n'; break;
	case 'e': n = fmt_line(b, i, 4) - 3; break;
	case 'f': memcpy(b, "12345\n", 6); n = 6; break;
	case 'g': n = fmt_line(b, i, 6); b[n++] = '\n'; n += fmt_line(b + n, i, 4) - 1; break;
	case 'h': b[n++] = '\n'; break;
	case 'i': n = fmt_line(b, i, 4); b[n - 2] = 'z'; b[n++] = '\n'; break;
	case 'j': n = fmt_line(b, i, 4) - 1; b[n++] = '\n'; break;
	case 'k': n = fmt_line(b, i, 57); b[n++] = '\n'; break;
	case 'l': n = fmt_line(b, i, 70); b[n++] = '\n'; break;
	case 'm': for (n = 0; n < 300; n++) b[n] = "0123456789abcdef"[n & 15]; break;
	case 'n': memcpy(b, " 1-2+34\n", 8); n = 8; break;
	case 'o': n = fmt_line(b, i, 4); b[3] = 0; b[n++] = '\n'; break;
	case 'p': n = fmt_line(b, i, 56); break;
	case 'q': n = fmt_line(b, i, 4); b[0] = 'x'; b[n++] = '\n'; break;
	case 'r': n = fmt_line(b, i, 1); b[n++] = '\n'; break;
	case 's': for (int k = 0; k < 3; k++) { n += fmt_line(b + n, i, 56); b[n++] = '\n'; } break;
	case 't': memset(b, 0xFF, 8); b[8] = '\n'; n = 9; break;
	case 'u': memcpy(b, "0x12\n", 5); n = 5; break;
	case 'v': b[n++] = 'c'; break;
	default: say("HARNESS chunk %c\n", kind); __real__exit(3);
	}
	post_text(i, b, n);
}

static void post_size(int n)
{
	unsigned char o[MAXREPORT];
	seq++;
	for (int j = 0; j < n; j++)
		o[j] = j == 0 ? seq & 255 : j == 1 ? seq >> 8 & 255 : (unsigned char) (0x0F + 29 * j + seq);
	post_report(o, n);
}

/* apply one event; 0 when it makes no sense here */
static int event(const char *e)
{
	int i = e[0] && e[0] != 'R' && e[0] != 'W' && e[1] ? e[1] - '0' : -1;
	switch (e[0]) {
	case 'C': connect_client(0); return 1;
	case 'X': connect_client(1); return 1;
	case 'D': if (!live(i)) return 0; cli[i].eof = 1; return 1;
	case 'K': if (!live(i)) return 0;
		cli[i].reset = 1; cli[i].in_len = 0;
		for (int k = 0; k < cli[i].lines.n; k++) cli[i].lines.l[k].optional = 1;
		return 1;
	case 'S': case 'P': if (!live(i) || cli[i].stalled) return 0;
		cli[i].stalled = 1; cli[i].room = e[0] == 'S' ? 0 : e[2] ? atoi(e + 2) : 50;
		for (int k = 0; k < cli[i].reports.n; k++) cli[i].reports.l[k].optional = cli[i].excused = 1;
		return 1;
	case 'G': if (!live(i) || !cli[i].stalled) return 0; cli[i].stalled = 0; return 1;
	case 'R': post_size(atoi(e + 1)); return 1;
	case 'W': now_s += e[1] ? atoi(e + 1) : 5000; elapsed = 1; return 1;
	case 'T': if (!live(i)) return 0; post_chunk(i, e[2]); return 1;
	}
	say("HARNESS event %s\n", e); __real__exit(3);
}

static int apply(const char *es)	/* "e" or "e+e": posted before the daemon runs again */
{
	char b[64]; strcpy(b, es);
	char *p = strchr(b, '+');
	if (p) *p = 0;
	if (!event(b)) return 0;
	if (p && !event(p + 1)) return 0;
	if (strlen(script) + strlen(es) + 2 < sizeof script) { strcat(script, " "); strcat(script, es); }
	if (shared) shared->steps++;
	spins = calls = 0;
	return 1;
}

/* ---- judgement ---- */
static int match_line(const struct line *w, const struct line *e)
{
	if (w->n < e->n || w->n > MAXREPORT || memcmp(w->o, e->o, e->n)) return 0;
	for (int k = e->n; k < w->n; k++) if (w->o[k]) return 0;
	return 1;
}

static void judge(void)
{
	int serving = 0;
	for (int i = 0; i < ncli; i++) serving += live(i) && cli[i].accepted && !cli[i].gone;
	if (nbacklog) fail("a connection was not accepted");
	if (nreports) fail("a report of the device was not read");
	for (int w = 0; w < nwritten; w++) {
		int ok = 0;
		for (int i = 0; i < ncli && !ok; i++) {
			struct queue *q = &cli[i].lines;
			int k = 0;
			while (k < q->n && q->l[k].optional && !match_line(&written[w], &q->l[k])) k++;
			if (k < q->n && match_line(&written[w], &q->l[k])) {
				for (int x = 0; x <= k; x++) pop(q);
				ok = 1;
			}
		}
		if (!ok) fail("%s was written to the device, which no client's next line says", hex(written[w].o, written[w].n));
	}
	nwritten = 0;
	for (int i = 0; i < ncli; i++) {
		struct cli *c = &cli[i];
		for (int k = 0; k < c->lines.n; k++)
			if (!c->lines.l[k].optional && !c->gone)
				fail("the line %s of client %d was not written to the device", hex(c->lines.l[k].o, c->lines.l[k].n), i);
		c->lines.n = 0;
		if (!live(i)) {
			if (c->fd >= 0) fail("the connection of client %d, which went away, is still open", i);
			continue;
		}
		if (c->gone) {
			if (c->gone == 1 && serving < MAXSERVED && !c->excused) fail("the daemon closed the connection of client %d", i);
			if (c->fd >= 0) fail("the connection of client %d, which the daemon shut down, is still open", i);
			c->gone = 2;
		} else {
			if (!c->accepted) fail("client %d was not accepted", i);
			if (c->in_len) fail("text of client %d was not read", i);
		}
		int pos = 0;
		while (pos < c->out_len) {
			char *nl = memchr(c->out + pos, '\n', c->out_len - pos);
			if (!nl && (c->stalled || (c->gone && c->excused))) break;
			if (!nl) fail("client %d was sent a line without an end: %.*s", i, c->out_len - pos, c->out + pos);
			int len = nl - (c->out + pos);
			char t[600]; int hexlen = len > 500 ? 500 : len;
			memcpy(t, c->out + pos, hexlen); t[hexlen] = 0;
			if (hexlen && t[hexlen - 1] == '\r') t[--hexlen] = 0;
			unsigned char o[MAXREPORT];
			int n = parse(t, hexlen, o), ok = 0;
			while (n && c->reports.n) {
				struct line *e = &c->reports.l[0];
				int same = (n == e->n || (n < e->n && n >= SUREREPORT)) && !memcmp(o, e->o, n);
				int optional = e->optional;
				if (!same && !optional) break;
				pop(&c->reports);
				if (same) { ok = 1; break; }
			}
			if (!ok) fail("client %d was sent the line %s, which is not the next report", i, t);
			pos += len + 1;
		}
		memmove(c->out, c->out + pos, c->out_len -= pos);
		if (c->gone) { c->out_len = c->reports.n = 0; continue; }
		for (int k = 0; k < c->reports.n; k++)
			if (!c->reports.l[k].optional)
				fail("client %d was not sent the report %s", i, hex(c->reports.l[k].o, c->reports.l[k].n));
		if (!c->stalled) c->reports.n = 0;	/* else they may come when it reads again */
	}
}

/* ---- choosing the next events ---- */
static char **prefix; static int nprefix, at;
static const char **alphabet; static int nalphabet;
static int depth, leaf;
static void (*linear)(void);

static void leaf_probe_done(void)
{
	if (shared) shared->runs++;
	__real__exit(0);
}

static void cmd_choose(void);
static int cmd;

/* between two events the daemon takes microseconds: five seconds of computing are a loop without an end */
static void forever(int sig)
{
	fail("the daemon computes for ever and never waits for an event again");
}
static void watch(void)
{
	struct itimerval t = { { 0, 0 }, { 5, 0 } };
	setitimer(ITIMER_PROF, &t, NULL);
}

static void choose(void)
{
	alarm(60);	/* a wait which is not seen here */
	watch();
	if (cmd) { cmd_choose(); return; }
	judge();
	while (at < nprefix) {
		if (apply(prefix[at++])) return;
		__real__exit(0);	/* makes no sense here: nothing to explore */
	}
	if (linear) { linear(); return; }
	if (leaf == 0 && depth == 0) leaf = 1;
	if (leaf) {	/* valid traffic after whatever happened */
		char b[8]; int i;
		switch (leaf++) {
		case 1: apply("C"); return;
		case 2:
			for (i = 0; i < ncli && i < 10; i++) if (live(i) && !cli[i].gone) {
				sprintf(b, "T%dh", i); apply(b); spins = 0; sprintf(b, "T%da", i); apply(b);
			}
			return;
		case 3: apply("R56"); return;
		case 4: apply("R7"); return;
		default: leaf_probe_done();
		}
	}
	depth--;
	alarm(0);
	for (int k = 0; k < nalphabet; k++) {
		pid_t p = fork();
		if (p < 0) { say("HARNESS fork %d\n", errno); __real__exit(3); }
		if (p == 0) {
			alarm(60);
			watch();
			if (!apply(alphabet[k])) __real__exit(0);
			shared->states++;
			return;
		}
		int st;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
		if (st) {
			if (WIFSIGNALED(st)) {
				strcat(script, " "); strcat(script, alphabet[k]);
				say("FAIL the daemon was ended by signal %d (%s)\nSCRIPT %s ...\n", WTERMSIG(st), strsignal(WTERMSIG(st)), script);
			} else if (WEXITSTATUS(st) == 99) {
				strcat(script, " "); strcat(script, alphabet[k]);
				say("FAIL memory error in the daemon\nSCRIPT %s ...\n", script);
			}
			__real__exit(WIFSIGNALED(st) || WEXITSTATUS(st) == 99 ? 1 : WEXITSTATUS(st));
		}
	}
	__real__exit(0);
}

static char trouble[64];
static int cmd_step;

static int readable(int fd)
{
	switch (fds[fd].kind) {
	case LISTENER: return nbacklog > 0;
	case DEVICE: return nreports > 0 || (cmd_step == 2 && !strcmp(trouble, "unplugged"));
	case CONN: return cli[fds[fd].cli].in_len > 0 || cli[fds[fd].cli].eof || cli[fds[fd].cli].reset
		|| cli[fds[fd].cli].shut;
	}
	return 0;
}

static void tick(const char *what)
{
	if (++spins > 6000) fail("the daemon keeps calling %s and nothing happens", what);
}

/* would the call wait? then no descriptor can wake it but its own */
static void would_block(int fd, const char *what)
{
	fail("the daemon waits in %s on descriptor %d (%s) and serves nobody else", what, fd,
		fds[fd].kind == CONN ? "a client" : fds[fd].kind == DEVICE ? "the device" : "the listening socket");
}

/* ---- the system calls ---- */
static int virt(int fd) { return fd >= 0 && fd < NFD && fds[fd].kind != NONE; }

static int new_fd(int kind, int c)
{
	for (int fd = 3; fd < NFD; fd++)
		if (fds[fd].kind == NONE) { fds[fd].kind = kind; fds[fd].cli = c; fds[fd].nonblock = 0; return fd; }
	errno = EMFILE;
	return -1;
}

/* mode cmd: what the daemon did until it served or ended, in an environment with these troubles */
static int cmd, help_fd = -1;
static char trouble[64], opened[300], bound[100];
static int nopened, nbound, nlistening, reuse, cmd_step, listening, open_flags;

static void result(const char *what, int status)
{
	struct stat st = { 0 };
	fflush(stdout);
	fstat(help_fd, &st);
	say("%s %d opened=%d:%d:%s bound=%d:%s listening=%d output=%d\n", what, status, nopened, open_flags, opened, nbound, bound, listening, (int) st.st_size);
	__real__exit(0);
}

static void cmd_choose(void)
{
	judge();
	switch (cmd_step++) {
	case 0: if (listening) connect_client(0); spins = 0; if (listening) return; /* fall through */
	case 1:
		if (!listening || !nopened) result("DEAF", 0);
		if (!strcmp(trouble, "unplugged")) { connect_client(0); spins = 0; return; }
		post_chunk(0, 'a'); post_size(56); spins = 0; return;
	case 2: connect_client(0); post_chunk(0, 'e'); spins = 0; return;
	}
	result("SERVES", 0);
}

int __wrap_socket(int d, int t, int p)
{
	if (cmd && (d != AF_INET || (t & 15) != SOCK_STREAM)) { errno = EAFNOSUPPORT; return -1; }
	if (!strcmp(trouble, "nosocket")) { errno = EMFILE; return -1; }
	int fd = new_fd(LISTENER, -1);
	if (fd >= 0) fds[fd].nonblock = !!(t & SOCK_NONBLOCK);
	return fd;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l)
{
	const struct sockaddr_in *in = (const void *) a;
	if (!virt(fd)) { errno = EBADF; return -1; }
	if (l < sizeof *in || in->sin_family != AF_INET) { errno = EINVAL; return -1; }
	if (!strcmp(trouble, "busy") || (!strcmp(trouble, "timewait") && !reuse)) { errno = EADDRINUSE; return -1; }
	if (cmd && in->sin_addr.s_addr != INADDR_ANY && in->sin_addr.s_addr != htonl(INADDR_LOOPBACK)) { errno = EADDRNOTAVAIL; return -1; }
	nbound++;
	snprintf(bound, sizeof bound, "%08x:%u", ntohl(in->sin_addr.s_addr), ntohs(in->sin_port));
	return 0;
}
int __wrap_listen(int fd, int n)
{
	if (!virt(fd)) { errno = EBADF; return -1; }
	if (!strcmp(trouble, "nolisten")) { errno = EADDRINUSE; return -1; }
	if (nbound) listening = 1;
	return 0;
}
int __wrap_setsockopt(int fd, int a, int b, const void *v, socklen_t l)
{
	if (a == SOL_SOCKET && b == SO_REUSEADDR && !nbound) reuse = l >= sizeof(int) && *(const int *) v;
	return 0;
}
int __wrap_open(const char *path, int flags, ...)
{
	if (cmd) {
		if (!strcmp(trouble, "nodevice")) { errno = ENOENT; return -1; }
		if (!strcmp(trouble, "read only") && (flags & O_ACCMODE) != O_RDONLY) { errno = EACCES; return -1; }
		if (!strcmp(trouble, "denied")) { errno = EACCES; return -1; }
		nopened++;
		open_flags = flags & O_ACCMODE;
		snprintf(opened, sizeof opened, "%s", path);
	} else if (strncmp(path, "/dev/hidraw", 11)) { errno = ENOENT; return -1; }
	int fd = new_fd(DEVICE, -1);
	if (fd >= 0) fds[fd].nonblock = !!(flags & O_NONBLOCK);
	return fd;
}
int __wrap_access(const char *path, int mode)
{
	if (!cmd) { if (!strncmp(path, "/dev/hidraw", 11)) return 0; errno = ENOENT; return -1; }
	if (!strcmp(trouble, "nodevice")) { errno = ENOENT; return -1; }
	if (!strcmp(trouble, "denied") || (!strcmp(trouble, "read only") && mode & W_OK)) { errno = EACCES; return -1; }
	return 0;
}
int __wrap_open64(const char *path, int flags, ...) { return __wrap_open(path, flags); }

int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!virt(fd)) { errno = EBADF; return -1; }
	if (cmd == F_SETFL) { fds[fd].nonblock = !!(arg & O_NONBLOCK); return 0; }
	if (cmd == F_GETFL) return O_RDWR | (fds[fd].nonblock ? O_NONBLOCK : 0);
	return 0;
}
int __wrap_fcntl64(int fd, int cmd, long arg) { return __wrap_fcntl(fd, cmd, arg); }

int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
	tick("accept");
	if (!virt(fd) || fds[fd].kind != LISTENER) { errno = EBADF; return -1; }
	if (!nbacklog) {
		if (fds[fd].nonblock) { errno = EAGAIN; return -1; }
		would_block(fd, "accept");
	}
	int c = backlog[0];
	int n = cli[c].aborted ? 0 : new_fd(CONN, c);
	if (n < 0) return -1;
	memmove(backlog, backlog + 1, --nbacklog * sizeof *backlog);
	if (cli[c].aborted) { errno = ECONNABORTED; return -1; }
	fds[n].nonblock = !!(flags & SOCK_NONBLOCK);
	cli[c].fd = n; cli[c].accepted = 1;
	if (a) {
		struct sockaddr_in s = { .sin_family = AF_INET, .sin_port = htons(40000 + c), .sin_addr.s_addr = htonl(0x7F000001) };
		memcpy(a, &s, *l < sizeof s ? *l : sizeof s);
		*l = sizeof s;
	}
	return n;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { return __wrap_accept4(fd, a, l, 0); }

/* the kernel calls a socket writable when there is plenty of room only */
static int writable(int fd)
{
	return fds[fd].kind == DEVICE || (fds[fd].kind == CONN && (!cli[fds[fd].cli].stalled || cli[fds[fd].cli].room > 4096));
}

static int any_of(int n, fd_set *in, fd_set *out)
{
	for (int fd = 0; fd < n && fd < NFD; fd++)
		if (virt(fd) && ((FD_ISSET(fd, in) && readable(fd)) || (FD_ISSET(fd, out) && writable(fd)))) return 1;
	return 0;
}
static void clear3(fd_set *r, fd_set *w, fd_set *e)
{
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	if (e) FD_ZERO(e);
}

int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	fd_set in, out;
	FD_ZERO(&in); FD_ZERO(&out);
	if (r) in = *r;
	if (w) out = *w;
	for (;;) {
		int k = 0;
		tick("select");
		if (r) FD_ZERO(r);
		if (w) FD_ZERO(w);
		if (e) FD_ZERO(e);
		for (int fd = 0; fd < n && fd < NFD; fd++) {
			if ((FD_ISSET(fd, &in) || FD_ISSET(fd, &out)) && !virt(fd)) { errno = EBADF; return -1; }
			if (FD_ISSET(fd, &in) && readable(fd)) { FD_SET(fd, r); k++; }
			if (FD_ISSET(fd, &out) && writable(fd)) { FD_SET(fd, w); k++; }
		}
		if (k) return k;
		if (tv && !tv->tv_sec && !tv->tv_usec) return 0;
		choose();
		if (elapsed && tv) { elapsed = 0; if (!any_of(n, &in, &out)) { clear3(r, w, e); return 0; } }
		elapsed = 0;
	}
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m)
{
	struct timeval tv = { 0, 0 };
	if (t) { tv.tv_sec = t->tv_sec; tv.tv_usec = t->tv_nsec / 1000; }
	return __wrap_select(n, r, w, e, t ? &tv : NULL);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout)
{
	for (;;) {
		int k = 0;
		tick("poll");
		for (nfds_t i = 0; i < n; i++) {
			p[i].revents = 0;
			if (p[i].fd < 0) continue;
			if (!virt(p[i].fd)) p[i].revents = POLLNVAL;
			else {
				if (readable(p[i].fd)) p[i].revents |= p[i].events & (POLLIN | POLLRDNORM);
				if (writable(p[i].fd)) p[i].revents |= p[i].events & (POLLOUT | POLLWRNORM);
			}
			if (p[i].revents) k++;
		}
		if (k) return k;
		if (timeout == 0) return 0;
		choose();
		if (elapsed && timeout > 0) timeout = 0;
		elapsed = 0;
	}
}
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m)
{
	return __wrap_poll(p, n, !t ? -1 : t->tv_sec || t->tv_nsec ? 1000 : 0);
}

/* one level-triggered epoll instance */
static struct { int on; struct epoll_event e; } interest[NFD];
int __wrap_epoll_create1(int flags) { return new_fd(POLLER, -1); }
int __wrap_epoll_create(int n) { return new_fd(POLLER, -1); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *e)
{
	if (!virt(ep) || fds[ep].kind != POLLER || !virt(fd)) { errno = EBADF; return -1; }
	if (op == EPOLL_CTL_ADD && interest[fd].on) { errno = EEXIST; return -1; }
	if (op != EPOLL_CTL_ADD && !interest[fd].on) { errno = ENOENT; return -1; }
	interest[fd].on = op != EPOLL_CTL_DEL;
	if (e) interest[fd].e = *e;
	return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event *out, int max, int timeout)
{
	for (;;) {
		int k = 0;
		tick("epoll_wait");
		for (int fd = 0; fd < NFD && k < max; fd++) {
			unsigned got = 0;
			if (!interest[fd].on) continue;
			if (readable(fd)) got |= interest[fd].e.events & EPOLLIN;
			if (writable(fd)) got |= interest[fd].e.events & EPOLLOUT;
			if (got) { out[k] = interest[fd].e; out[k++].events = got; }
		}
		if (k) return k;
		if (timeout == 0) return 0;
		choose();
		if (elapsed && timeout > 0) timeout = 0;
		elapsed = 0;
	}
}

int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); int *arg = va_arg(ap, int *); va_end(ap);
	if (!virt(fd)) { errno = EBADF; return -1; }
	if (req == FIONBIO) { fds[fd].nonblock = !!*arg; return 0; }
	if (req == FIONREAD && fds[fd].kind == CONN) { *arg = cli[fds[fd].cli].in_len; return 0; }
	errno = EINVAL;
	return -1;
}
unsigned __wrap_sleep(unsigned s) { tick("sleep"); return 0; }
int __wrap_usleep(unsigned s) { tick("usleep"); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { tick("nanosleep"); return 0; }

time_t __wrap_time(time_t *t) { if (t) *t = now_s; return now_s; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now_s; t->tv_nsec = 0; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { t->tv_sec = now_s; t->tv_usec = 0; return 0; }

extern ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
	if (!virt(fd)) { errno = EBADF; return -1; }
	tick("read");
	if (fds[fd].kind == DEVICE) {
		if (!nreports) {
			if (!strcmp(trouble, "unplugged")) { errno = EIO; return -1; }
			if (fds[fd].nonblock) { errno = EAGAIN; return -1; }
			would_block(fd, "read");
		}
		int k = reports[0].n < (int) n ? reports[0].n : (int) n;
		memcpy(buf, reports[0].o, k);
		memmove(reports, reports + 1, --nreports * sizeof *reports);
		return k;
	}
	if (fds[fd].kind != CONN) { errno = ENOTCONN; return -1; }
	struct cli *c = &cli[fds[fd].cli];
	if (c->in_len) {
		int k = c->in_len < (int) n ? c->in_len : (int) n;
		memcpy(buf, c->in, k);
		memmove(c->in, c->in + k, c->in_len - k);
		c->in_len -= k;
		if (k) spins = 0;
		return k;
	}
	if (c->reset) { errno = ECONNRESET; return -1; }
	if (c->eof || c->shut) return 0;
	if (fds[fd].nonblock) { errno = EAGAIN; return -1; }
	would_block(fd, "read");
	return -1;
}
ssize_t __wrap___read_chk(int fd, void *buf, size_t n, size_t sz) { return __wrap_read(fd, buf, n); }
ssize_t __wrap_recv(int fd, void *buf, size_t n, int flags)
{
	if (!virt(fd) || fds[fd].kind != CONN) { errno = ENOTSOCK; return -1; }
	struct cli *c = &cli[fds[fd].cli];
	if (!c->in_len && !c->eof && !c->reset && !c->shut && (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
	if ((flags & MSG_PEEK) && c->in_len) {
		int k = c->in_len < (int) n ? c->in_len : (int) n;
		tick("recv");
		memcpy(buf, c->in, k);
		return k;
	}
	return __wrap_read(fd, buf, n);
}

ssize_t __wrap_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *a, socklen_t *l)
{
	return __wrap_recv(fd, buf, n, flags);
}

static ssize_t put(int fd, const void *buf, size_t n, int flags)
{
	if (!virt(fd)) { errno = EBADF; return -1; }
	tick("write");
	if (fds[fd].kind == DEVICE) {
		struct line *w = &written[nwritten];
		if (!strcmp(trouble, "deaf device")) { errno = EPIPE; return -1; }
		if (nwritten == 2048 || n > 72) fail("%zu octets were written to the device at once", n);
		w->n = n; memcpy(w->o, buf, n); nwritten++;
		return n;
	}
	if (fds[fd].kind != CONN) { errno = ENOTCONN; return -1; }
	struct cli *c = &cli[fds[fd].cli];
	if (c->eof || c->reset || c->shut) {
		struct sigaction sa;
		sigaction(SIGPIPE, NULL, &sa);
		if (sa.sa_handler == SIG_DFL && !(flags & MSG_NOSIGNAL))
			fail("writing to client %d, which went away, ends the daemon by SIGPIPE", fds[fd].cli);
		errno = EPIPE;
		return -1;
	}
	if (c->out_len + n > BUFSZ) fail("client %d was sent more than %d octets", fds[fd].cli, BUFSZ);
	volatile unsigned char touch = 0;
	for (size_t i = 0; i < n; i++) touch ^= ((const unsigned char *) buf)[i];
	if (c->stalled) {
		if ((size_t) c->room < n) {
			if (!fds[fd].nonblock && !(flags & MSG_DONTWAIT)) would_block(fd, "write");
			if (!c->room) { errno = EAGAIN; return -1; }
			n = c->room;
		}
		c->room -= n;
	}
	memcpy(c->out + c->out_len, buf, n); c->out_len += n;
	return n;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n) { return put(fd, buf, n, 0); }
ssize_t __wrap_send(int fd, const void *buf, size_t n, int flags)
{
	if (virt(fd) && fds[fd].kind != CONN) { errno = ENOTSOCK; return -1; }
	return put(fd, buf, n, flags);
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int k)
{
	unsigned char b[8192]; size_t n = 0;
	for (int i = 0; i < k; i++) {
		if (n + v[i].iov_len > sizeof b) { errno = EINVAL; return -1; }
		memcpy(b + n, v[i].iov_base, v[i].iov_len); n += v[i].iov_len;
	}
	return put(fd, b, n, 0);
}
ssize_t __wrap_sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *a, socklen_t l)
{
	return __wrap_send(fd, buf, n, flags);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int flags)
{
	unsigned char b[8192]; size_t n = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) {
		if (n + m->msg_iov[i].iov_len > sizeof b) { errno = EINVAL; return -1; }
		memcpy(b + n, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); n += m->msg_iov[i].iov_len;
	}
	return __wrap_send(fd, b, n, flags);
}
int __wrap_dprintf(int fd, const char *fmt, ...)
{
	char b[8192]; va_list ap;
	va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	return put(fd, b, n, 0);
}

int __wrap_close(int fd)
{
	if (!virt(fd)) { errno = EBADF; return -1; }
	if (fds[fd].kind == CONN) {
		struct cli *c = &cli[fds[fd].cli];
		c->fd = -1;
		if (live(fds[fd].cli) && !c->gone) c->gone = 1;
	} else if (fds[fd].kind != POLLER) fail("the daemon closed %s", fds[fd].kind == DEVICE ? "the device" : "its listening socket");
	fds[fd].kind = NONE;
	interest[fd].on = 0;
	return 0;
}
int __wrap_shutdown(int fd, int how)
{
	if (!virt(fd)) { errno = EBADF; return -1; }
	if (fds[fd].kind != CONN) fail("the daemon shut down %s", fds[fd].kind == DEVICE ? "the device" : "its listening socket");
	struct cli *c = &cli[fds[fd].cli];
	if (c->reset || c->shut) { errno = ENOTCONN; return -1; }
	if (how != SHUT_RD) {
		c->shut = 1;
		if (live(fds[fd].cli) && !c->gone) c->gone = 1;
	}
	return 0;
}

void __wrap_exit(int s) { if (cmd) result("ENDS", s); fail("the daemon stopped with status %d", s); __real__exit(1); }
void __wrap__exit(int s) { if (cmd) result("ENDS", s); fail("the daemon stopped with status %d", s); __real__exit(1); }
void __wrap_abort(void) { fail("the daemon aborted"); __real__exit(1); }

/* ---- exhaustive input families on one running daemon ---- */
static int lo, hi, lin_i, lin_j;
static const char *family;

static void lin_end(void) { shared->runs++; __real__exit(0); }

static void note(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	int n = snprintf(script, sizeof script, "[%s %d..%d] ", family, lo, hi);
	vsnprintf(script + n, 400, fmt, ap); va_end(ap);
	shared->states++; shared->steps++; spins = 0;
}

/* every pair of characters as (part of) a line */
static void lin_pairs(void)
{
	static const char *shapes[] = { "%c%c\n", "12%c%c\n", "%c%c34\n", "12%c%c34\r\n", "1%c%c2\n", "%c\n%c\n" };
	for (;;) {
		if (lin_j == 6 * 256) { lin_j = 0; if (++lin_i == hi) lin_end(); }
		int a = lin_i, b = lin_j % 256, s = lin_j / 256;
		lin_j++;
		char t[32];
		int n = snprintf(t, sizeof t, shapes[s], a, b);
		/* %c of NUL is part of the length returned */
		note("characters %d %d in shape %d", a, b, s);
		post_text(lin_j % 2, t, n);
		return;
	}
}

/* every length with every kind of end and fill, in every two-part segmentation */
static void lin_lengths(void)
{
	static int cut = 0, phase = 0, kind = 0;
	static char t[1024]; static int n;
	if (phase == 0) {
		if (lin_i == hi) lin_end();
		n = 0;
		for (int j = 0; j < lin_i; j++)
			t[n++] = kind % 4 == 0 ? "0123456789abcdefABCDEF"[(j * 7 + lin_i) % 22] : kind % 4 == 1 ? '0' :
				kind % 4 == 2 ? 'f' : (j == lin_i - 1 ? 'g' : 'A');
		if (kind / 4 == 0) t[n++] = '\n';
		else if (kind / 4 == 1) { t[n++] = '\r'; t[n++] = '\n'; }
		else { t[n++] = '\n'; t[n++] = 'B'; t[n++] = 'B'; t[n++] = '\n'; }
		note("line of %d characters, kind %d, cut at %d of %d", lin_i, kind, cut, n);
		phase = 1;
		post_text(0, t, cut);
		if (cut) return;
	}
	note("line of %d characters, kind %d, rest after %d of %d", lin_i, kind, cut, n);
	post_text(0, t + cut, n - cut);
	phase = 0;
	if (++cut == n) { cut = 0; if (++kind == 12) { kind = 0; lin_i++; } }
}

/* every length and octet of a report, and every octet value of a line */
static void lin_octets(void)
{
	unsigned char o[MAXREPORT];
	if (lin_i == hi) lin_end();
	for (int j = 0; j < 56; j++) o[j] = j == lin_j % 56 ? lin_i : (unsigned char) (j * 11 + lin_j);
	int len = 1 + (lin_j * 5 + lin_i) % 56;
	note("octet %d at %d, report of %d, line of %d", lin_i, lin_j % 56, len, 57 - len);
	post_report(o, len);
	o[0] ^= 0x80;
	post_report(o, 56);
	post_size(57 + lin_j % 8);	/* longer than what the daemon must relay of it */
	char t[256]; int n = 0;
	for (int j = 0; j < 57 - len; j++) n += sprintf(t + n, lin_i & 1 ? "%02x" : "%02X", o[j]);
	t[n++] = '\n';
	post_text(lin_j % 2, t, n);
	if (++lin_j == 112) { lin_j = 0; lin_i++; }
}

/* every two octets at the start, the end and in the middle of lines and reports, alone, repeated and echoed */
static void lin_words(void)
{
	unsigned char o[MAXREPORT];
	char t[1024]; int n = 0, at, len, k;
	if (lin_i == hi) lin_end();
	int a = lin_i, b = lin_j % 256, shape = lin_j / 256;
	len = shape == 0 ? 2 : shape == 1 ? 56 : shape == 2 ? 56 : 5 + (a + b) % 50;
	at = shape == 2 ? 54 : shape == 3 ? 1 + b % 3 : 0;
	for (k = 0; k < len; k++) o[k] = shape == 1 ? 0 : (unsigned char) (k * 11 + b);
	o[at] = a; o[at + 1] = b;
	note("octets %d %d at %d of %d, shape %d", a, b, at, len, shape);
	for (k = 0; k < len; k++) n += sprintf(t + n, b & 1 ? "%02x" : "%02X", o[k]);
	t[n++] = '\n';
	switch ((a + b + shape) % 4) {
	case 0: post_report(o, len); post_text(b % ncli, t, n); break;
	case 1: post_text(0, t, n); post_text(ncli - 1, t, n); break;
	case 2: memcpy(t + n, t, n); post_text(b % ncli, t, 2 * n); break;
	case 3: post_report(o, len); post_report(o, len); post_text(b % ncli, t, n); break;
	}
	if (++lin_j == 4 * 256) { lin_j = 0; lin_i++; }
}

/* several lines in every three-part segmentation, with reports and the other client in between */
static void lin_segments(void)
{
	static char t[1024]; static int n, a = -1, b, phase;
	static const int shapes[][3] = { {2, 3, 2}, {56, 1, 0}, {1, 0, 1}, {0, 2, 0}, {55, 56, 0}, {4, 57, 3}, {20, 20, 20} };
	if (a < 0) {
		if (lin_i == hi) lin_end();
		n = 0;
		for (int k = 0; k < 3; k++) { n += fmt_line(t + n, 0, shapes[lin_i][k]); t[n++] = '\n'; }
		a = 0; b = 0; phase = 0;
	}
	note("shape %d in segments 0..%d..%d..%d part %d", lin_i, a, b, n, phase);
	if (phase == 0) post_text(0, t, a), post_chunk(1, 'a');
	if (phase == 1) post_text(0, t + a, b - a), post_size(9);
	if (phase == 2) post_text(0, t + b, n - b);
	if (++phase == 3) {
		phase = 0;
		if (++b > n) {
			a += n > 60 ? 3 : 1;
			b = a;
			if (a > n) { a = -1; lin_i++; return; }
		}
		if (b < a) b = a;
	}
}

/* more and more clients, and fewer and fewer */
static void lin_crowd(void)
{
	static int n, phase;
	if (n < lo) { n++; note("connecting client %d", n); connect_client(0); return; }
	if (phase == 0) { phase = 1; note("report with %d clients", n); post_size(56); return; }
	if (phase == 1) {
		phase = 2;
		note("lines of %d clients", n);
		for (int i = 0; i < n; i++) if (live(i) && !cli[i].gone) post_chunk(i, 'a');
		return;
	}
	if (lin_i < n) {
		int i = hi == 1 ? lin_i : hi == 2 ? n - 1 - lin_i : (lin_i * 7) % n;
		lin_i++;
		note("client %d leaves", i);
		if (live(i)) { cli[i].eof = 1; if (lin_i % 2) post_size(3); }
		else post_size(4);
		return;
	}
	if (phase == 2) { phase = 3; note("a new client"); connect_client(0); return; }
	if (phase == 3) { phase = 4; note("report for the new client"); post_size(5); return; }
	lin_end();
}

/* what the daemon keeps on the heap (the harness itself keeps nothing more) must not grow with what it did */
static void lin_heap(void)
{
	static size_t at[5]; static int k;
	if (!getenv("VK_HEAP") || lo < 100 || lin_i != (k + 1) * (lo / 5)) return;
	if (k == 5) return;
	at[k++] = mallinfo2().uordblks;
	if (k < 5) return;
	for (int j = 1; j < 4; j++) if (at[j + 1] < at[j] + lo / 5) return;
	fail("the daemon keeps more and more memory: %zu octets after %d rounds, %zu after %d, %zu after %d", at[1], 2 * (lo / 5), at[3], 4 * (lo / 5), at[4], lo);
}

/* clients come and go, again and again, beside hi & 1 ? one which stays : none */
static void lin_churn(void)
{
	static int phase, kept = -1, now, again;
	if (phase == 0) lin_heap();
	if (hi & 1 && kept < 0) { kept = connect_client(0); note("the client which stays"); return; }
	if (lin_i < lo) {
		switch (phase++) {
		case 0:
			note("client number %d comes", lin_i);
			if (!again) { now = connect_client(0); again = 1; }
			else {
				struct cli *c = &cli[now];
				char *in = c->in, *out = c->out;
				free(c->reports.l); free(c->lines.l);
				memset(c, 0, sizeof *c);
				c->in = in; c->out = out; c->used = 1; c->fd = -1;
				backlog[nbacklog++] = now;
			}
			return;
		case 1:
			note("client number %d speaks", lin_i);
			if (hi & 4) post_chunk(now, lin_i % 3 == 0 ? 'e' : 'a');
			if (hi & 8) post_size(1 + lin_i % 56);
			if (kept >= 0 && lin_i % 5 == 0) post_chunk(kept, 'b');
			return;
		default:
			note("client number %d leaves", lin_i);
			if (hi & 2 && lin_i % 2) {
				cli[now].reset = 1; cli[now].in_len = 0;
				for (int k = 0; k < cli[now].lines.n; k++) cli[now].lines.l[k].optional = 1;
			} else cli[now].eof = 1;
			if (hi & 8 && lin_i % 4 == 0) post_size(5);
			phase = 0; lin_i++;
			return;
		}
	}
	switch (phase++) {
	case 0: note("a client after them"); connect_client(0); return;
	case 1:
		note("it speaks");
		for (int i = 0; i < ncli; i++) if (live(i)) post_chunk(i, 'a');
		return;
	case 2: note("a report for it"); post_size(56); return;
	case 3: note("and another"); connect_client(0); post_size(9); return;
	default: lin_end();
	}
}

/* a great many reports (hi & 1), lines (hi & 2), octets of one line (hi & 4), empty or useless lines (hi & 8) */
static void lin_flood(void)
{
	static int phase;
	if (phase == 0) lin_heap();
	if (lin_i < lo) {
		note("part %d", lin_i);
		if (hi & 1) post_size(1 + lin_i % 56);
		if (hi & 2) post_chunk(lin_i % ncli, lin_i % 7 ? 'a' : 'b');
		if (hi & 4) {
			char t[1000];
			memset(t, 'a', sizeof t);
			post_text(0, t, sizeof t);
		}
		if (hi & 8) post_chunk(lin_i % ncli, "hijtu"[lin_i % 5]);
		lin_i++;
		return;
	}
	switch (phase++) {
	case 0:
		note("lines after all this");
		for (int i = 0; i < ncli; i++) if (live(i)) { post_chunk(i, 'h'); post_chunk(i, 'a'); }
		return;
	case 1: note("a new client"); connect_client(0); return;
	case 2: note("a report"); post_size(56); return;
	case 3: note("a line of the new client"); post_chunk(ncli - 1, 'b'); return;
	default: lin_end();
	}
}

/* clients all but one of which do not read (hi & 1: nothing, hi & 2: some octets), again and again, hi & 4: silent ones read again */
static void lin_stall(void)
{
	static int phase, k, i;
	if (ncli < lo) { note("connecting client %d", ncli); connect_client(0); return; }
	switch (phase++) {
	case 0:
		for (i = 1; i < lo; i++) {
			cli[i].stalled = (hi & 3) == 3 ? i % 2 : 1;
			cli[i].room = hi & 2 ? 20 + 3 * i : 0;
		}
		note("all but one no longer read");
		return;
	case 1:
		note("report %d", k);
		post_size(1 + (11 * k) % 56);
		if (++k < 12) phase = 1;
		return;
	case 2:
		note("lines of all");
		for (i = 0; i < ncli; i++) if (live(i) && !cli[i].gone) post_chunk(i, 'a');
		return;
	case 3:
		note("they read again, or not");
		for (i = 0; i < ncli; i++) if (hi & 4) cli[i].stalled = 0;
		post_size(8);
		return;
	case 4: note("a new client"); connect_client(0); return;
	case 5: note("a report for it"); post_size(56); return;
	case 6: note("one leaves"); cli[1].eof = 1; return;
	case 7: note("a new client"); connect_client(0); return;
	case 8: note("a report for it"); post_size(5); return;
	case 9:
		note("lines of all");
		for (i = 0; i < ncli; i++) if (live(i) && !cli[i].gone) post_chunk(i, 'b');
		return;
	}
	lin_end();
}

int main(int argc, char **argv)
{
	static char *dargv[] = { "daemon", "--dev-hidraw", "/dev/hidraw7", NULL };
	if (argc < 3) return 3;
	out_fd = dup2(1, 900);
	int nul = open("/dev/null", O_RDWR);
	shared = mmap(NULL, sizeof *shared, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	const char *mode = argv[1];
	/* argv[2]: prefix of events, comma separated; then mode specific */
	char *p = strdup(argv[2]);
	prefix = calloc(4096, sizeof *prefix);
	for (char *t = strtok(p, ","); t; t = strtok(NULL, ",")) prefix[nprefix++] = t;
	if (!strcmp(mode, "dfs")) {
		depth = atoi(argv[3]);
		alphabet = (const char **) argv + 4; nalphabet = argc - 4;
	} else if (!strcmp(mode, "linear")) {
		family = argv[3]; lo = atoi(argv[4]); hi = atoi(argv[5]); lin_i = lo;
		linear = !strcmp(family, "pairs") ? lin_pairs : !strcmp(family, "lengths") ? lin_lengths :
			!strcmp(family, "words") ? lin_words : !strcmp(family, "octets") ? lin_octets : !strcmp(family, "segments") ? lin_segments :
			!strcmp(family, "churn") ? lin_churn : !strcmp(family, "stall") ? lin_stall : !strcmp(family, "flood") ? lin_flood : lin_crowd;
		if (linear == lin_crowd || linear == lin_churn || linear == lin_flood || linear == lin_stall) lin_i = 0;
	}
	if (!strcmp(mode, "cmd")) {	/* one case a line: trouble, tab, arguments separated by tabs */
		static char l[65536];
		FILE *f = fopen(argv[2], "r");
		cmd = 1;
		signal(SIGPROF, forever);
		while (f && fgets(l, sizeof l, f)) {
			char *a[64] = { "daemon" }; int n = 1;
			l[strcspn(l, "\n")] = 0;
			char *q = l, *t = strsep(&q, "\t");
			strcpy(trouble, t);
			while (n < 63 && (t = strsep(&q, "\t"))) a[n++] = t;
			say("CASE\n");
			pid_t c = fork();
			if (c == 0) {
				extern int __real_close(int), __real_open(const char *, int, ...);
				fclose(f);
				for (int fd = 0; fd < 60; fd++) __real_close(fd);
				__real_open("/dev/null", O_RDWR);
				help_fd = memfd_create("out", 0); dup2(help_fd, 901); dup2(help_fd, 1); dup2(help_fd, 2);
				help_fd = 901;
				alarm(60);
				watch();
				result("ENDS", daemon_main(n, a));
			}
			int st;
			waitpid(c, &st, 0);
			if (st) { say("DIES %d\n", st); break; }
			shared->states++;
		}
		say("COUNTS %lu 0 0\n", shared->states);
		return 0;
	}
	signal(SIGPROF, forever);
	pid_t c = fork();
	if (c == 0) {
		extern int __real_close(int);
		__real_close(0);
		freopen("/dev/null", "w", stdout);
		freopen("/dev/null", "w", stderr);
		alarm(60);
		watch();
		daemon_main(3, dargv);
		fail("the daemon returned from main");
	}
	int st;
	waitpid(c, &st, 0);
	if (WIFSIGNALED(st)) { say("FAIL the daemon was ended by signal %d (%s)\nSCRIPT %s ...\n", WTERMSIG(st), strsignal(WTERMSIG(st)), script); st = 1; }
	else if (WEXITSTATUS(st) == 99) { say("FAIL memory error in the daemon\nSCRIPT after %s\n", argv[2]); st = 1; }
	else st = WEXITSTATUS(st);
	say("COUNTS %lu %lu %lu\n", shared->states, shared->steps, shared->runs);
	return st;
}
