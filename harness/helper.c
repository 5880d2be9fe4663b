/* child process used by the process-stream scenarios; its arguments are its script */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <signal.h>
static long off = 0; static int recfd = -1; static char recp[4096];
static void out(const char* b, long n) { long o = 0; while (o < n) { ssize_t r = write(1, b + o, n - o); if (r < 0) { if (errno == EINTR) continue; exit(7); } o += r; } }
static char pat(long i) { return (char)((i * 7 + (i >> 8) * 13 + (i >> 16)) & 255); }
static void wr(long n, long chunk) { char b[65536]; while (n > 0) { long m = n < chunk ? n : chunk, i; if (m > 65536) m = 65536; for (i = 0; i < m; ++i) b[i] = pat(off + i); out(b, m); off += m; n -= m; } }
static void rec(const char* b, long n) { if (recfd >= 0) { long o = 0; while (o < n) { ssize_t r = write(recfd, b + o, n - o); if (r <= 0) exit(8); o += r; } } }
static void markeof(void) { char p[4200]; snprintf(p, sizeof p, "%s.eof", recp); int f = open(p, O_CREAT | O_WRONLY, 0600); if (f >= 0) close(f); }
static long rd(long n, int echo) { char b[65536]; long t = 0; while (n < 0 || t < n) { long m = sizeof b; if (n >= 0 && n - t < m) m = n - t; ssize_t r = read(0, b, m); if (r < 0) { if (errno == EINTR) continue; exit(6); } if (r == 0) { markeof(); break; } rec(b, r); if (echo) out(b, r); t += r; } return t; }
int main(int argc, char** argv) {
    int i; prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(60);
    for (i = 1; i < argc; ++i) {
        char* a = argv[i]; char* v = strchr(a, ':'); long n = v ? atol(v + 1) : 0;
        if (!strncmp(a, "pid:", 4)) { int f = open(a + 4, O_CREAT | O_WRONLY | O_TRUNC, 0600); char b[32]; int l = snprintf(b, 32, "%d\n", (int)getpid()); if (f < 0 || write(f, b, l) != l) exit(5); close(f); }
        else if (!strncmp(a, "rec:", 4)) { strncpy(recp, a + 4, 4000); recfd = open(recp, O_CREAT | O_WRONLY | O_TRUNC, 0600); if (recfd < 0) exit(5); fcntl(recfd, F_SETFD, FD_CLOEXEC); }
        else if (!strncmp(a, "w:", 2)) { char* c = strchr(v + 1, ','); wr(n, c ? atol(c + 1) : 65536); }
        else if (!strncmp(a, "r:", 2)) rd(n, 0);
        else if (!strcmp(a, "ra")) rd(-1, 0);
        else if (!strcmp(a, "e")) rd(-1, 1);
        else if (!strcmp(a, "tac")) { /* read everything, then write the pattern of that length */ long t = rd(-1, 0); wr(t, 65536); }
        else if (!strncmp(a, "s:", 2)) usleep(n * 1000);
        else if (!strcmp(a, "ci")) close(0);
        else if (!strcmp(a, "co")) close(1);
        else if (!strncmp(a, "x:", 2)) _exit(n);
        else if (!strcmp(a, "hold")) for (;;) pause();
    }
    return 0;
}
