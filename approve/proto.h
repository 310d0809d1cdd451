// how the stand-ins talk to the simulator: one SOCK_SEQPACKET connection per request
#include <errno.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

static int sim_connect(void) {
    const char *name = getenv("SIM_SOCK");
    if (!name) return -1;
    int fd = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
    if (fd < 0) return -1;
    struct sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    size_t n = strlen(name);
    memcpy(a.sun_path + 1, name, n);
    while (connect(fd, (struct sockaddr *)&a, offsetof(struct sockaddr_un, sun_path) + 1 + n) < 0) {
        if (errno == EINTR || errno == EAGAIN) continue;
        close(fd);
        return -1;
    }
    return fd;
}

static size_t sim_add(char *buf, size_t at, size_t max, const char *s) {
    size_t n = strlen(s) + 1;
    if (at + n > max) return at;
    memcpy(buf + at, s, n);
    return at + n;
}
