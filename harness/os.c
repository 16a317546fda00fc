/*
 * A deterministic operating system for ctrlproxy.
 *
 * These definitions override the C library's: the executable's symbols come first in the dynamic
 * linker's lookup order, so glib and ctrlproxy's own objects both end up here.
 *  - time never passes unless the driver says so;
 *  - TCP is replaced by socket pairs whose other end belongs to the driver, so that delivery is synchronous
 *    and the outcome of connect() and of each write() can be chosen;
 *  - name lookup never leaves the process.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <stddef.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <unistd.h>
#include "os.h"

#define MAXFD 4096
time_t os_now = 1000000000;
int os_last_accepted = -1;
int os_last_unix = -1;      /* the last socket connected to an address outside of the simulation */
os_accept_fn os_on_connect;

static struct fdinfo {
	int simulated;      /* TCP socket created by the code under test */
	int port;           /* port connected or bound to */
	int peer;           /* driver's descriptor */
	int filler;         /* bytes of padding in the pipe of a pending connection */
	int *plan; int nplan, pplan;
	int stalled;
} fds[MAXFD];
static int peer_to_code[MAXFD];
static int peer_filler[MAXFD];
static enum port_mode modes[65536];
static int listening[65536];  /* port -> fd of code's listening socket + 1 */

#define REAL(name) __typeof__(&name) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

time_t time(time_t *t) { if (t) *t = os_now; return os_now; }
int gettimeofday(struct timeval *restrict tv, void *restrict tz) { tv->tv_sec = os_now; tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
	(void)c; ts->tv_sec = os_now; ts->tv_nsec = 0; return 0;
}

void os_set_port_mode(int port, enum port_mode m) { modes[port & 65535] = m; }

int socket(int domain, int type, int proto)
{
	REAL(socket);
	int fd;
	if (domain != AF_INET && domain != AF_INET6)
		return real(domain, type, proto);
	fd = real(AF_UNIX, SOCK_STREAM, 0);
	if (fd >= 0 && fd < MAXFD) {
		memset(&fds[fd], 0, sizeof(fds[fd]));
		fds[fd].simulated = 1;
		fds[fd].peer = -1;
	}
	return fd;
}

int setsockopt(int fd, int level, int name, const void *val, socklen_t len)
{
	REAL(setsockopt);
	if (fd >= 0 && fd < MAXFD && fds[fd].simulated)
		return 0;
	return real(fd, level, name, val, len);
}

static int sa_port(const struct sockaddr *sa)
{
	return ntohs(((const struct sockaddr_in *)sa)->sin_port);
}

static socklen_t port_address(struct sockaddr_un *un, int port)
{
	memset(un, 0, sizeof(*un));
	un->sun_family = AF_UNIX;
	snprintf(un->sun_path + 1, sizeof(un->sun_path) - 1, "ctrlproxy-verif-%d-%d", (int)getpid(), port);
	return offsetof(struct sockaddr_un, sun_path) + 1 + strlen(un->sun_path + 1);
}

int bind(int fd, const struct sockaddr *sa, socklen_t len)
{
	REAL(bind);
	if (fd >= 0 && fd < MAXFD && fds[fd].simulated && sa->sa_family == AF_INET) {
		struct sockaddr_un un;
		int port = sa_port(sa);
		int ret;
		if (port == 0) return 0; /* local address of an outgoing connection */
		ret = real(fd, (struct sockaddr *)&un, port_address(&un, port));
		if (ret == 0) { fds[fd].port = port; listening[port] = fd + 1; }
		return ret;
	}
	return real(fd, sa, len);
}

int os_connect_to(int port)
{
	REAL(connect);
	int (*rs)(int, int, int) = (int (*)(int, int, int))dlsym(RTLD_NEXT, "socket");
	struct sockaddr_un un;
	socklen_t len = port_address(&un, port);
	int fd = rs(AF_UNIX, SOCK_STREAM, 0);
	if (real(fd, (struct sockaddr *)&un, len) < 0) { close(fd); return -1; }
	return fd;
}

int accept(int fd, struct sockaddr *restrict addr, socklen_t *restrict alen)
{
	REAL(accept);
	int n = real(fd, NULL, NULL);
	(void)addr; (void)alen;
	if (n >= 0 && n < MAXFD && fd < MAXFD) {
		memset(&fds[n], 0, sizeof(fds[n]));
		if (fds[fd].simulated) { fds[n].simulated = 1; fds[n].port = 40000; }
		fds[n].peer = -1;
		os_last_accepted = n;
	}
	return n;
}

int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	REAL(connect);
	int sv[2], port, n;
	static char pad[4096];
	enum port_mode m;
	if (!(fd >= 0 && fd < MAXFD && fds[fd].simulated && sa->sa_family == AF_INET)) {
		int ret = real(fd, sa, len);
		if (ret == 0) os_last_unix = fd;
		return ret;
	}
	port = sa_port(sa);
	m = modes[port];
	if (m == PORT_REFUSE) { errno = ECONNREFUSED; return -1; }
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0) return -1;
	/* keep the flags the code set on its descriptor */
	n = fcntl(fd, F_GETFL);
	dup2(sv[0], fd);
	close(sv[0]);
	fcntl(fd, F_SETFL, n);
	fds[fd].port = port;
	fds[fd].peer = sv[1];
	peer_to_code[sv[1]] = fd;
	fcntl(sv[1], F_SETFL, O_NONBLOCK);
	if (m == PORT_PENDING) {
		ssize_t w; int filler = 0;
		int (*rsetsockopt)(int, int, int, const void *, socklen_t) = dlsym(RTLD_NEXT, "setsockopt");
		int small = 1;
		(void)rsetsockopt; (void)small;
		fcntl(fd, F_SETFL, n | O_NONBLOCK);
		while ((w = send(fd, pad, sizeof(pad), MSG_DONTWAIT)) > 0) filler += w;
		while ((w = send(fd, pad, 1, MSG_DONTWAIT)) > 0) filler += w;
		fcntl(fd, F_SETFL, n);
		peer_filler[sv[1]] = filler;
		os_on_connect(port, sv[1], 1);
		errno = EINPROGRESS;
		return -1;
	}
	peer_filler[sv[1]] = 0;
	os_on_connect(port, sv[1], 0);
	return 0;
}

void os_connect_succeed(int peer)
{
	static char buf[65536];
	while (peer_filler[peer] > 0) {
		ssize_t r = recv(peer, buf, peer_filler[peer] < (int)sizeof(buf) ? peer_filler[peer] : (int)sizeof(buf), MSG_DONTWAIT);
		if (r <= 0) break;
		peer_filler[peer] -= r;
	}
}

void os_connect_fail(int peer)
{
	close(peer);  /* with unread data: the other side gets ECONNRESET / POLLERR */
}

int getaddrinfo(const char *restrict node, const char *restrict service, const struct addrinfo *restrict hints, struct addrinfo **restrict res)
{
	struct addrinfo *ai;
	struct sockaddr_in *sin;
	int port = service ? atoi(service) : 0;
	(void)hints;
	if (node != NULL && !strncmp(node, "nolookup", 8)) return EAI_NONAME;
	if (port > 0 && modes[port & 65535] == PORT_NOLOOKUP) return EAI_NONAME;
	ai = calloc(1, sizeof(*ai) + sizeof(*sin));
	sin = (struct sockaddr_in *)(ai + 1);
	sin->sin_family = AF_INET;
	sin->sin_port = htons(port);
	sin->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	ai->ai_family = AF_INET;
	ai->ai_socktype = SOCK_STREAM;
	ai->ai_addr = (struct sockaddr *)sin;
	ai->ai_addrlen = sizeof(*sin);
	*res = ai;
	return 0;
}

void freeaddrinfo(struct addrinfo *ai)
{
	while (ai) { struct addrinfo *n = ai->ai_next; free(ai); ai = n; }
}

int getnameinfo(const struct sockaddr *restrict sa, socklen_t salen, char *restrict host, socklen_t hostlen,
				char *restrict serv, socklen_t servlen, int flags)
{
	(void)salen; (void)flags;
	if (host) snprintf(host, hostlen, "localhost");
	if (serv) snprintf(serv, servlen, "%d", sa->sa_family == AF_INET ? sa_port(sa) : 0);
	return 0;
}

static int fill_name(int fd, struct sockaddr *sa, socklen_t *len)
{
	struct sockaddr_in sin;
	memset(&sin, 0, sizeof(sin));
	sin.sin_family = AF_INET;
	sin.sin_port = htons(fds[fd].port);
	sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	memcpy(sa, &sin, *len < sizeof(sin) ? *len : sizeof(sin));
	*len = sizeof(sin);
	return 0;
}

int getpeername(int fd, struct sockaddr *restrict sa, socklen_t *restrict len)
{
	REAL(getpeername);
	if (fd >= 0 && fd < MAXFD && fds[fd].simulated) return fill_name(fd, sa, len);
	return real(fd, sa, len);
}

int getsockname(int fd, struct sockaddr *restrict sa, socklen_t *restrict len)
{
	REAL(getsockname);
	if (fd >= 0 && fd < MAXFD && fds[fd].simulated) return fill_name(fd, sa, len);
	return real(fd, sa, len);
}

int os_code_fd_of_peer(int peer) { return peer_to_code[peer]; }

void os_write_plan(int fd, const int *plan, int n)
{
	if (fd < 0 || fd >= MAXFD) return;
	free(fds[fd].plan);
	fds[fd].plan = malloc(sizeof(int) * (n + 1));
	memcpy(fds[fd].plan, plan, sizeof(int) * n);
	fds[fd].nplan = n; fds[fd].pplan = 0;
}

void os_stall(int fd, int on) { if (fd >= 0 && fd < MAXFD) fds[fd].stalled = on; }

void os_forget(int peer) { if (peer >= 0 && peer < MAXFD) peer_to_code[peer] = -1; }

/* a stalled descriptor never becomes writable */
int poll(struct pollfd *p, nfds_t n, int timeout)
{
	REAL(poll);
	nfds_t i;
	short saved[256];
	int r;
	if (n > 256) return real(p, n, timeout);
	for (i = 0; i < n; i++) {
		saved[i] = p[i].events;
		if (p[i].fd >= 0 && p[i].fd < MAXFD && fds[p[i].fd].stalled) p[i].events &= ~POLLOUT;
	}
	r = real(p, n, timeout);
	for (i = 0; i < n; i++) p[i].events = saved[i];
	return r;
}

int close(int fd)
{
	REAL(close);
	if (fd >= 0 && fd < MAXFD) {
		if (fds[fd].simulated && fds[fd].port && listening[fds[fd].port] == fd + 1) listening[fds[fd].port] = 0;
		free(fds[fd].plan);
		memset(&fds[fd], 0, sizeof(fds[fd]));
	}
	return real(fd);
}

static int next_fault(int fd, size_t *n)
{
	int p;
	if (fd >= 0 && fd < MAXFD && fds[fd].stalled) { errno = EAGAIN; return -1; }
	if (fd < 0 || fd >= MAXFD || fds[fd].pplan >= fds[fd].nplan) return 0;
	p = fds[fd].plan[fds[fd].pplan++];
	if (p == 0) { errno = EAGAIN; return -1; }
	if (p < 0) { errno = EPIPE; return -1; }
	if ((size_t)p < *n) *n = p;
	return 0;
}

ssize_t write(int fd, const void *buf, size_t n)
{
	REAL(write);
	if (next_fault(fd, &n) < 0) return -1;
	return real(fd, buf, n);
}
