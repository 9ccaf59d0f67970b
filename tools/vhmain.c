/* Native driver: seeded search and replay.  Every iteration runs in a forked worker; the drawn values live in
 * shared memory, so the input that crashed or hung the code is known. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#define MAXT 65536
struct shm { volatile uint64_t iters,reached,assumed_out,distinct; volatile int state; volatile int n; char fail[200]; uint64_t tape[MAXT]; uint64_t it0; };
static struct shm *S;
static jmp_buf jb;
static uint64_t rng;
static int replaying; static int rn; static uint64_t *rt;
static struct { const char *n; void (*f)(void); } hs[256]; static int nh;
void vh_register(const char *name,void (*f)(void)) { hs[nh].n = name; hs[nh++].f = f; }
static uint64_t next(void) { uint64_t z = (rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void vh_assume_fail(void) { longjmp(jb,1); }
void vh_check_fail(const char *id) { strncpy(S->fail,id,sizeof(S->fail)-1); S->state = 2; _exit(3); }
void vh_reach(void) { S->reached++; }
static uint64_t special(int bits)
{
    uint64_t r = next();
    int k = (int)(next() % 10);
    uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    switch (k)
    {
        case 0: return (r % 5) & m;
        case 1: return (m - r % 5);
        case 2: return ((m >> 1) + (r % 5) - 2) & m;
        case 3: return ((uint64_t)1 << (r % (unsigned)bits)) & m;
        case 4: return (((uint64_t)1 << (r % (unsigned)bits)) - 1) & m;
        case 5: return (0ull - ((uint64_t)1 << (r % (unsigned)bits))) & m;
        case 6: { uint64_t p = 1; int e = (int)(r % 20); while (e--) p *= 10; uint64_t q = next(); if (q & 4) p = 0 - p; return (p + q % 3 - 1) & m; }
        case 7: return (r >> (next() % 64)) & m;
        default: return r & m;
    }
}
uint64_t vh_draw(int kind,uint64_t lo,uint64_t hi,const char *set)
{
    uint64_t v = 0;
    if (replaying)
    {
        if (S->n < rn) v = rt[S->n];
    }
    else switch (kind)
    {
        case 0: v = special(64); break;
        case 1: case 2:
        {
            uint64_t span = hi - lo; uint64_t r = next();
            switch (next() % 8) { case 0: v = lo + (span ? r % (span < 3 ? span + 1 : 4) : 0); break; case 1: v = hi - (span ? r % (span < 3 ? span + 1 : 4) : 0); break;
                case 2: v = (kind == 1 && (int64_t)lo < 0 && (int64_t)hi > 0 && span > 8) ? (uint64_t)((int64_t)(r % 5) - 2) : (span + 1 ? lo + r % (span + 1) : r); break;
                case 3: v = span + 1 ? lo + (r >> (next() % 64)) % (span + 1) : r; break;
                default: v = span + 1 ? lo + r % (span + 1) : r; }
            break;
        }
        case 3: v = special((int)lo); break;
        case 4: v = (uint8_t)set[next() % hi]; break;
    }
    if (S->n < MAXT) S->tape[S->n] = v;
    S->n++;
    return v;
}
static void quiet(void) { int fd = open("/dev/null",O_RDWR); dup2(fd,1); dup2(fd,2); }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc,char **argv)
{
    const char *run = 0,*replay = 0,*out = 0; uint64_t seed = 1,maxn = ~0ull; double sec = 1; int tmo = 20;
    for (int i = 1;i + 1 < argc;i += 2)
    {
        if (!strcmp(argv[i],"--run")) run = argv[i+1];
        else if (!strcmp(argv[i],"--replay")) replay = argv[i+1];
        else if (!strcmp(argv[i],"--out")) out = argv[i+1];
        else if (!strcmp(argv[i],"--seed")) seed = strtoull(argv[i+1],0,10);
        else if (!strcmp(argv[i],"--sec")) sec = atof(argv[i+1]);
        else if (!strcmp(argv[i],"--max")) maxn = strtoull(argv[i+1],0,10);
        else if (!strcmp(argv[i],"--iter-timeout")) tmo = atoi(argv[i+1]);
    }
    S = mmap(0,sizeof *S,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    void (*f)(void) = 0;
    static char name[200];
    if (replay)
    {
        FILE *fp = fopen(replay,"r"); if (!fp) return 9;
        static uint64_t tb[MAXT]; static char line[4000];
        while (fgets(line,sizeof line,fp))
        {
            if (sscanf(line,"harness %199s",name) == 1) continue;
            unsigned long long v; if (sscanf(line,"in %llu",&v) == 1 && rn < MAXT) tb[rn++] = v;
        }
        fclose(fp); rt = tb; replaying = 1; maxn = 1; run = name;
    }
    for (int i = 0;i < nh;i++) if (run && !strcmp(hs[i].n,run)) f = hs[i].f;
    if (!f) { fprintf(stderr,"no harness %s\n",run ? run : "?"); return 9; }
    double t0 = now();
    while (S->iters < maxn && (now() - t0 < sec || replay))
    {
        S->state = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            quiet();
            uint64_t batch = 0; double tb0 = now();
            while (S->iters < maxn && batch < 200000 && now() - t0 < sec + (replay ? 1e9 : 0) && now() - tb0 < 5)
            {
                rng = seed * 0x100000001B3ull + S->it0 * 0x9E3779B97F4A7C15ull; S->it0++;
                S->n = 0; S->fail[0] = 0; S->state = 1;
                if ((batch & 63) == 0) alarm((unsigned)tmo);
                if (setjmp(jb) == 0) f(); else S->assumed_out++;
                S->iters++; batch++;
            }
            S->state = 0;
            _exit(0);
        }
        int st; waitpid(pid,&st,0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->state == 0) { if (replay) break; continue; }
        if (S->state == 0) continue; /* died between iterations: not attributable */
        char why[256];
        if (S->state == 2) snprintf(why,sizeof why,"CHECK %s",S->fail);
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(why,sizeof why,"HANG no answer within %d s",tmo);
        else if (WIFSIGNALED(st)) snprintf(why,sizeof why,"CRASH signal %d",WTERMSIG(st));
        else snprintf(why,sizeof why,"CRASH sanitizer or abort, exit status %d",WEXITSTATUS(st));
        if (out)
        {
            FILE *fp = fopen(out,"w");
            fprintf(fp,"harness %s\nwhy %s\n",run,why);
            for (int i = 0;i < S->n && i < MAXT;i++) fprintf(fp,"in %llu\n",(unsigned long long)S->tape[i]);
            fclose(fp);
        }
        printf("FAIL %s iters=%llu\n",why,(unsigned long long)S->iters);
        return 3;
    }
    printf("OK iters=%llu reached=%llu assumed_out=%llu\n",(unsigned long long)S->iters,(unsigned long long)S->reached,(unsigned long long)S->assumed_out);
    return 0;
}
