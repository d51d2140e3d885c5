// launch SHIM CPU_SECONDS PROGRAM ARGS...: no address space randomisation, bounded CPU and memory, then exec.
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <unistd.h>
int main(int c, char **v) {
    if (c < 4) return 126;
    personality(ADDR_NO_RANDOMIZE);
    struct rlimit r = { (rlim_t)atoi(v[2]), (rlim_t)atoi(v[2]) };
    setrlimit(RLIMIT_CPU, &r);
    r.rlim_cur = r.rlim_max = (rlim_t)3 << 30;
    setrlimit(RLIMIT_AS, &r);
    r.rlim_cur = r.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &r);
    setenv("LD_PRELOAD", v[1], 1);
    execv(v[3], v + 3);
    return 126;
}
