// Preloaded into a daemon: whoever connects to the unix socket $VP_MEM is told how many bytes
// the process has allocated.
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

static int sock = -1;

static void* serve(void* arg) {
    (void)arg;
    for (;;) {
        int c = accept(sock, NULL, NULL);
        if (c < 0) return NULL;
        struct mallinfo2 m = mallinfo2();
        char b[64];
        int n = snprintf(b, sizeof b, "%zu", m.uordblks + m.hblkhd);
        if (write(c, b, n) < 0) n = 0;
        close(c);
    }
}

__attribute__((constructor)) static void begin(void) {
    const char* path = getenv("VP_MEM");
    if (path == NULL) return;
    struct sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, path, sizeof a.sun_path - 1);
    sock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (sock < 0 || bind(sock, (struct sockaddr*)&a, sizeof a) != 0 || listen(sock, 5) != 0) return;
    sigset_t all, old;
    sigfillset(&all);
    pthread_sigmask(SIG_SETMASK, &all, &old);
    pthread_t t;
    pthread_create(&t, NULL, serve, NULL);
    pthread_sigmask(SIG_SETMASK, &old, NULL);
}
