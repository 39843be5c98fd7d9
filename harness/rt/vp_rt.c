/* Native runtime of the harnesses: replays concrete models (the engine interprets these calls instead). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
static unsigned char model[4096]; static size_t mlen, mpos;
static FILE *of;
void vp_sym(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = mpos < mlen ? model[mpos++] : 0x61; }
void vp_assume(uint32_t c) { if (!c) { fprintf(of, " E:assume\n"); fflush(of); _exit(0); } }
void vp_check(uint32_t c, const char *l, size_t n) { if (!c) { fprintf(of, " F:%.*s;", (int)n, l); fflush(of); } }
void vp_obs(uint64_t v) { fprintf(of, " %llx", (unsigned long long)v); }
void vp_reach(const char *l, size_t n) { (void)l; (void)n; }
uint64_t vp_concr(uint64_t v) { return v; }
uint32_t vp_eq(const void *a, const void *b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
void vp_dump(uint64_t v) { fprintf(stderr, "DUMP %llx\n", (unsigned long long)v); }
/* stdin: one model in hex per line ("-" for empty).  One output line per model. */
int vp_native(void (*h)(void)) {
  char line[9000]; struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  while (fgets(line, sizeof line, stdin)) {
    mlen = mpos = 0; for (char *p = line; p[0] && p[1] && p[0] != '\n' && p[0] != '-' && p[0] != ' '; p += 2) { unsigned x; sscanf(p, "%2x", &x); model[mlen++] = x; }
    fflush(NULL); int fd[2]; if (pipe(fd)) return 2;
    pid_t pid = fork();
    if (!pid) { close(fd[0]); of = fdopen(fd[1], "w"); int dn = open("/dev/null", 1); if (!getenv("VP_VERBOSE")) dup2(dn, 2); alarm(20); h(); fprintf(of, " E:ok\n"); fflush(of); _exit(0); }
    close(fd[1]); char buf[65536]; ssize_t r; int any = 0; char last = 0;
    while ((r = read(fd[0], buf, sizeof buf)) > 0) { fwrite(buf, 1, r, stdout); any = 1; last = buf[r - 1]; }
    close(fd[0]); int st; waitpid(pid, &st, 0);
    if (!WIFEXITED(st)) printf(" E:%s\n", WTERMSIG(st) == SIGALRM ? "limit" : "panic"); else if (!any || last != '\n') printf(" E:exit%d\n", WEXITSTATUS(st));
    fflush(stdout);
  }
  return 0;
}
