/* The simulated operating system beneath ctrlproxy: clock, name lookup, TCP.
 * See os.c. */
#ifndef VERIF_OS_H
#define VERIF_OS_H
#include <sys/types.h>
#include <time.h>

enum port_mode {
	PORT_OK = 0,        /* connect() succeeds at once */
	PORT_REFUSE,        /* connect() fails at once with ECONNREFUSED */
	PORT_PENDING,       /* connect() returns EINPROGRESS; completed by os_connect_finish() */
	PORT_NOLOOKUP,      /* getaddrinfo() fails */
};

extern time_t os_now;                      /* the fake wall clock */
void os_set_port_mode(int port, enum port_mode m);
/* Called for each outgoing TCP connection, with the peer's end. */
typedef void (*os_accept_fn)(int port, int peer_fd, int pending);
extern os_accept_fn os_on_connect;
/* complete a pending connection */
void os_connect_succeed(int peer_fd);
void os_connect_fail(int peer_fd);
/* connect to a TCP port ctrlproxy listens on; -1 if nobody listens */
int os_connect_to(int port);
/* write faults for descriptors: plan is a list; n>0 accept at most n bytes, 0 EAGAIN, -1 EPIPE */
void os_write_plan(int fd, const int *plan, int n);
int os_code_fd_of_peer(int peer_fd);
void os_forget(int peer_fd);
void os_stall(int fd, int on);
extern int os_last_accepted, os_last_unix;
#endif
