// Sends the signal VP_SIG to the own process just before the VP_SIG_AT-th of the calls
// below that the main program makes itself (the signal may arrive at any moment).
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

static void vp_signal_point(const char* where) {
    static int calls = 0;
    static const char* at = getenv("VP_SIG_AT");
    calls++;
    if (at != nullptr && calls == atoi(at)) {
        const char* file = getenv("VP_SIG_FILE");
        FILE* f = fopen(file, "w");
        if (f != nullptr) {
            fprintf(f, "%s", where);
            fclose(f);
        }
        kill(getpid(), atoi(getenv("VP_SIG")));
        // time for another thread to take it
        struct timespec t = {0, 30 * 1000 * 1000};
        nanosleep(&t, nullptr);
    }
}

static int vp_sigaction(int s, const struct sigaction* a, struct sigaction* o) {
    vp_signal_point("sigaction");
    return sigaction(s, a, o);
}

static int vp_sigprocmask(int h, const sigset_t* s, sigset_t* o) {
    vp_signal_point("sigprocmask");
    return sigprocmask(h, s, o);
}

static int vp_pthread_sigmask(int h, const sigset_t* s, sigset_t* o) {
    vp_signal_point("pthread_sigmask");
    return pthread_sigmask(h, s, o);
}

static int vp_sigsuspend(const sigset_t* s) {
    vp_signal_point("sigsuspend");
    return sigsuspend(s);
}

static int vp_sigwait(const sigset_t* s, int* r) {
    vp_signal_point("sigwait");
    return sigwait(s, r);
}

static int vp_pause() {
    vp_signal_point("pause");
    return pause();
}

static unsigned vp_sleep(unsigned n) {
    vp_signal_point("sleep");
    return sleep(n);
}

#define sigaction(...) vp_sigaction(__VA_ARGS__)
#define sigprocmask(...) vp_sigprocmask(__VA_ARGS__)
#define pthread_sigmask(...) vp_pthread_sigmask(__VA_ARGS__)
#define sigsuspend(...) vp_sigsuspend(__VA_ARGS__)
#define sigwait(...) vp_sigwait(__VA_ARGS__)
#define pause() vp_pause()
#define sleep(n) vp_sleep(n)
