// Preloaded library: sends the process a signal during the n-th call of a script function after the
// program has installed its handlers, and counts the calls.
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>

static long calls = 0, total = 0;
static long at = -1;
static int sig = 0;
static const char *logname = nullptr;

static void report()
    {
    if (!logname) return;
    FILE *f = fopen(logname, "w");
    if (f)
        {
        fprintf(f, "%ld\n", calls);
        fclose(f);
        }
    }

__attribute__((constructor)) static void init()
    {
    const char *s = getenv("SIGAT_N");
    if (s) at = atol(s);
    s = getenv("SIGAT_SIG");
    if (s) sig = atoi(s);
    logname = getenv("SIGAT_LOG");
    }

extern "C" int duk_pcall(void *ctx, int nargs)
    {
    typedef int (*fun)(void *, int);
    static fun real = (fun) dlsym(RTLD_NEXT, "duk_pcall");
    struct sigaction a;
    sigaction(SIGTERM, nullptr, &a);
    if (a.sa_handler != SIG_DFL)
        {
        calls++;
        if (calls == at) raise(sig);
        report();
        }
    return real(ctx, nargs);
    }
