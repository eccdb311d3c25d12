/* net2 0.2.35, which the locked tokio 0.2 uses for bind and connect, takes the
 * memory of std's SocketAddrV4 for a sockaddr_in. It no longer is one (since
 * Rust 1.64), so that the kernel refuses the address. Preloaded into the
 * server: an address of 6 bytes is read as the SocketAddrV4 it is. */
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

static const struct sockaddr *fixed(const struct sockaddr *a, socklen_t *n, struct sockaddr_in *b) {
    if (*n != 6)
        return a;
    unsigned short port;
    memcpy(&port, (const char *)a + 4, 2);
    memset(b, 0, sizeof *b);
    b->sin_family = AF_INET;
    b->sin_port = htons(port);
    memcpy(&b->sin_addr, a, 4);
    *n = sizeof *b;
    return (const struct sockaddr *)b;
}

int bind(int fd, const struct sockaddr *a, socklen_t n) {
    struct sockaddr_in b;
    a = fixed(a, &n, &b);
    return syscall(SYS_bind, fd, a, n);
}

int connect(int fd, const struct sockaddr *a, socklen_t n) {
    struct sockaddr_in b;
    a = fixed(a, &n, &b);
    return syscall(SYS_connect, fd, a, n);
}
