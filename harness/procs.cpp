#include "drv.h"
#include <strigi/processinputstream.h>
#include <strigi/stringstream.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace std;
using namespace Strigi;

// ---- stand-in for kill(): only our own children are ever signalled -----
struct KillRec { int64_t pid; int sig; bool own; };
static vector<KillRec> g_kills;
static bool ownChild(pid_t pid) {
    if (pid <= 1) return false;
    char b[64]; snprintf(b, 64, "/proc/%d/stat", (int)pid);
    FILE* f = fopen(b, "r"); if (!f) return false;
    char line[512]; size_t n = fread(line, 1, 511, f); fclose(f); line[n] = 0;
    char* q = strrchr(line, ')'); if (!q) return false;
    char st; int pp; if (sscanf(q + 1, " %c %d", &st, &pp) != 2) return false;
    return pp == (int)getpid();
}
extern "C" int kill(pid_t pid, int sig) {
    KillRec r; r.pid = pid; r.sig = sig; r.own = ownChild(pid);
    g_kills.push_back(r);
    if (r.own) return (int)syscall(SYS_kill, pid, sig);
    return 0;
}
// number of open pipe ends
static int countFds() {
    int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1;
    while (struct dirent* e = readdir(d)) {
        char b[64]; ssize_t k = readlinkat(dirfd(d), e->d_name, b, 63);
        if (k > 5 && !memcmp(b, "pipe:", 5)) ++n;
    }
    closedir(d); return n;
}
static Str pat(int64_t n) { Str r; r.reserve(n); for (int64_t i = 0; i < n; ++i) r += (char)((i * 7 + (i >> 8) * 13 + (i >> 16)) & 255); return r; }

struct Proc { Str name; Str in; Str pidf, recf; size_t kills; bool hasIn; Str rest; };
static vector<Proc*> g_procs; static int g_live = 0, g_basefds = 0;
// standard descriptors that are closed while processes are alive
static int g_saved[2] = {-1, -1};
static void closeStd(int mask) {
    fflush(stdout);
    for (int i = 0; i < 2; ++i) if ((mask & (1 << i)) && g_saved[i] < 0) { g_saved[i] = fcntl(i, F_DUPFD_CLOEXEC, 200); close(i); }
}
static void restoreStd() {
    for (int i = 0; i < 2; ++i) if (g_saved[i] >= 0) { dup2(g_saved[i], i); close(g_saved[i]); g_saved[i] = -1; }
}
static Proc* findProc(const Str& n) { for (size_t i = 0; i < g_procs.size(); ++i) if (g_procs[i]->name == n) return g_procs[i]; return 0; }
static Str slurp(const Str& p) {
    FILE* f = fopen(p.c_str(), "rb"); if (!f) return Str();
    Str r; char b[65536]; size_t n; while ((n = fread(b, 1, 65536, f)) > 0) r.append(b, n); fclose(f); return r;
}
void procReset() {
    for (size_t i = 0; i < g_procs.size(); ++i) {
        Proc* p = g_procs[i];
        int pid = atoi(slurp(p->pidf).c_str());
        if (pid > 1 && ownChild(pid)) syscall(SYS_kill, pid, SIGKILL);
        unlink(p->pidf.c_str()); unlink(p->recf.c_str()); unlink((p->recf + ".eof").c_str());
        delete p;
    }
    g_procs.clear(); g_live = 0; restoreStd();
    while (waitpid(-1, 0, WNOHANG) > 0) {}
    g_kills.clear();
}
bool procOp(const Op& op) {
    const Str& c = op.cmd;
    if (c == "pat") { setBlob(op.pos[0], pat(atoll(op.pos[1].c_str()))); return true; }
    if (c == "proc") { // proc name in=<stream>|- inblob=b script...
        static int cnt = 0;
        Proc* p = new Proc; p->name = op.pos[0]; p->hasIn = false;
        p->pidf = scratchDir() + "/pid" + to_string(cnt); p->recf = scratchDir() + "/rec" + to_string(cnt); cnt++;
        if (g_live == 0) g_basefds = countFds();
        p->kills = g_kills.size();
        vector<Str> a; const char* h = getenv("DRV_HELPER"); a.push_back(arg(op.kv, "exe", h ? h : "/bin/false"));
        a.push_back("pid:" + p->pidf); a.push_back("rec:" + p->recf);
        for (size_t i = 1; i < op.pos.size(); ++i) a.push_back(op.pos[i]);
        Str in = arg(op.kv, "in", "");
        InputStream* is = 0;
        if (!in.empty()) { is = findObj(in)->in; p->hasIn = true; p->in = blob(arg(op.kv, "inblob")); }
        g_procs.push_back(p);
        if (num(op.kv, "closed", 0)) closeStd((int)num(op.kv, "closed", 0)); // descriptors 0 and 1 are free
        else if (g_saved[0] < 0 && g_saved[1] < 0) fprintf(stdout, "unflushed-stdio-noise"); // must never reach the stream
        g_live++;
        struct rlimit old; getrlimit(RLIMIT_NOFILE, &old);
        if (arg(op.kv, "nofd") == "1") { // descriptors run out
            struct rlimit r = old; int f = dup(0); r.rlim_cur = f + atoi(arg(op.kv, "spare", "0").c_str()); close(f); setrlimit(RLIMIT_NOFILE, &r);
        }
        InputStream* ps = new ProcessInputStream(a, is);
        setrlimit(RLIMIT_NOFILE, &old);
        addObj(p->name, ps, true);
        Ev e("procnew"); e.str("s", p->name).raw("m", arg(op.kv, "json", "{}")); e.emit();
        return true;
    }
    if (c == "procwait") { // wait until the command has started (its pid file is complete), at most 5 s
        Proc* p = findProc(op.pos[0]);
        for (int i = 0; i < 500; ++i) { if (slurp(p->pidf).find('\n') != Str::npos) break; usleep(10000); }
        return true;
    }
    if (c == "procend") { // destroy the stream, then report
        Proc* p = findProc(op.pos[0]);
        dropObj(p->name); if (--g_live == 0) restoreStd();
        int pid = atoi(slurp(p->pidf).c_str());
        bool alive = pid > 1 && syscall(SYS_kill, pid, 0) == 0;
        int stray = 0; for (size_t i = p->kills; i < g_kills.size(); ++i) if (!g_kills[i].own) stray++;
        Str rec = slurp(p->recf); bool eof = access((p->recf + ".eof").c_str(), F_OK) == 0;
        bool pre = rec.size() <= p->in.size() && memcmp(rec.data(), p->in.data(), rec.size()) == 0;
        Ev e("procend"); e.str("s", p->name).i("started", pid > 1).i("alive", alive).i("stray", stray).i("fds", g_live ? 0 : countFds() - g_basefds)
            .i("rec", rec.size()).i("recpre", pre).i("receof", eof).raw("m", arg(op.kv, "json", "{}"));
        e.emit(); return true;
    }
    if (c == "usleep") { usleep(atoi(op.pos[0].c_str())); return true; }
    return false;
}
