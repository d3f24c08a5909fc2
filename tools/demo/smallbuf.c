// Preloaded into the program: accepted and connecting sockets get small send buffers.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/socket.h>
static void small(int fd) { int n = 4608; if (fd >= 0) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
int accept(int s, struct sockaddr *a, socklen_t *l) { int (*f)(int, struct sockaddr *, socklen_t *) = dlsym(RTLD_NEXT, "accept"); int fd = f(s, a, l); small(fd); return fd; }
int accept4(int s, struct sockaddr *a, socklen_t *l, int fl) { int (*f)(int, struct sockaddr *, socklen_t *, int) = dlsym(RTLD_NEXT, "accept4"); int fd = f(s, a, l, fl); small(fd); return fd; }
int connect(int s, const struct sockaddr *a, socklen_t l) { int (*f)(int, const struct sockaddr *, socklen_t) = dlsym(RTLD_NEXT, "connect"); small(s); return f(s, a, l); }
