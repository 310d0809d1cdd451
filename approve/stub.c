// stands in for every command the approval script runs; asks the simulator what to do
#include "proto.h"
#include <signal.h>
#include <libgen.h>

static char buf[65536], rep[65536];
int main(int argc, char **argv) {
    int fd = sim_connect();
    if (fd < 0) return 125;
    size_t n = 0;
    char num[64];
    n = sim_add(buf, n, sizeof buf, "cmd");
    n = sim_add(buf, n, sizeof buf, getenv("SIM_ID") ? getenv("SIM_ID") : "?");
    snprintf(num, sizeof num, "%d", getppid());
    n = sim_add(buf, n, sizeof buf, num);
    // what it reads and writes
    char io[1024], one[256];
    io[0] = 0;
    for (int i = 0; i < 2; i++) {
        snprintf(num, sizeof num, "/proc/self/fd/%d", i);
        ssize_t k = readlink(num, one, sizeof one - 1);
        one[k < 0 ? 0 : k] = 0;
        if (i) strcat(io, "|");
        strcat(io, one);
    }
    n = sim_add(buf, n, sizeof buf, io);
    unsigned ignored = 0;
    for (int g = 1; g < 32; g++) {
        struct sigaction a;
        if (sigaction(g, 0, &a) == 0 && a.sa_handler == SIG_IGN) ignored |= 1u << g;
    }
    snprintf(num, sizeof num, "%u", ignored);
    n = sim_add(buf, n, sizeof buf, num);
    for (int i = 0; i < argc; i++) {
        char *s = argv[i];
        if (i == 0 && strrchr(s, '/')) s = strrchr(s, '/') + 1;
        n = sim_add(buf, n, sizeof buf, s);
    }
    if (send(fd, buf, n, MSG_NOSIGNAL) < 0) return 125;
    ssize_t r;
    while ((r = recv(fd, rep, sizeof rep - 1, 0)) < 0 && errno == EINTR) {}
    if (r <= 0) return 124;
    rep[r] = 0;
    int code = atoi(rep + 1);
    char *out = rep + strlen(rep) + 1, *end = rep + r;
    switch (rep[0]) {
    case 'X':
        while (out < end) {
            ssize_t k = write(1, out, end - out);
            if (k <= 0) break;
            out += k;
        }
        return code;
    case 'K':
        signal(code, SIG_DFL);
        raise(code);
        return 123;
    case 'E': {
        // code arguments, then the environment, all NUL terminated
        static char *av[64], *ev[64];
        int a = 0, e = 0;
        while (out < end && a < code) { av[a++] = out; out += strlen(out) + 1; }
        while (out < end && e < 60) { ev[e++] = out; out += strlen(out) + 1; }
        execve(av[0], av, ev);
        return 127;
    }
    }
    return 122;
}
