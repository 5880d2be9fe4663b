#include "drv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <dirent.h>
#include <fstream>
#include <sstream>
using namespace std;

static int g_out = 1;
static Str g_outbuf;
static Str g_scratch;
static int g_timeout = 20;
int g_curStep = 0;

void flushOut() {
    size_t o = 0;
    while (o < g_outbuf.size()) {
        ssize_t n = write(g_out, g_outbuf.data() + o, g_outbuf.size() - o);
        if (n < 0) { if (errno == EINTR) continue; _exit(9); }
        o += n;
    }
    g_outbuf.clear();
}
void emitLine(const Str& s) {
    g_outbuf += s; g_outbuf += '\n';
    flushOut();
}
void die(const Str& msg) {
    fprintf(stderr, "drv: %s\n", msg.c_str());
    flushOut();
    _exit(9);
}
Ev::Ev(const char* ev) { s = "{\"ev\":\""; s += ev; s += "\""; }
Ev& Ev::i(const char* k, int64_t v) {
    const int64_t M = 1000000000;
    if (v > M) v = M; if (v < -M) v = -M;
    s += ",\""; s += k; s += "\":"; s += to_string((long long)v); return *this;
}
static Str esc(const Str& v) {
    Str r; char b[8];
    for (size_t i = 0; i < v.size(); ++i) {
        unsigned char c = v[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c > 0x7e) { snprintf(b, 8, "%%%02x", c); r += b; }
        else if (c == '%') r += "%25";
        else r += c;
    }
    return r;
}
Ev& Ev::str(const char* k, const Str& v) { s += ",\""; s += k; s += "\":\""; s += esc(v); s += "\""; return *this; }
Ev& Ev::raw(const char* k, const Str& v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
Ev& Ev::bytes(const char* k, const char* d, size_t n) {
    s += ",\""; s += k; s += "\":[";
    for (size_t i = 0; i < n; ++i) { if (i) s += ','; s += to_string((int)(unsigned char)d[i]); }
    s += "]"; return *this;
}
void Ev::emit() { s += "}"; emitLine(s); }

Str unhex(const Str& h) {
    Str r; r.reserve(h.size() / 2);
    for (size_t i = 0; i + 1 < h.size(); i += 2) {
        unsigned v; sscanf(h.c_str() + i, "%2x", &v); r += (char)v;
    }
    return r;
}
Str hex(const char* d, size_t n) {
    static const char* x = "0123456789abcdef"; Str r;
    for (size_t i = 0; i < n; ++i) { r += x[(unsigned char)d[i] >> 4]; r += x[d[i] & 15]; }
    return r;
}
Str arg(const Args& a, const char* k, const char* def) { Args::const_iterator i = a.find(k); return i == a.end() ? Str(def) : i->second; }
int64_t num(const Args& a, const char* k, int64_t def) { Args::const_iterator i = a.find(k); return i == a.end() ? def : atoll(i->second.c_str()); }
uint32_t rnd32(uint64_t& s) {
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return (uint32_t)((s * 0x2545F4914F6CDD1DULL) >> 32);
}

static map<Str, Str> g_blobs;
const Str& blob(const Str& n) {
    map<Str, Str>::iterator i = g_blobs.find(n);
    if (i == g_blobs.end()) die("no blob " + n);
    return i->second;
}
void setBlob(const Str& n, const Str& v) { g_blobs[n] = v; }
const Str& scratchDir() { return g_scratch; }

static Str g_basedir;
static Str readFile(const Str& p) {
    ifstream f(p.c_str(), ios::binary);
    if (!f) die("cannot read " + p);
    stringstream ss; ss << f.rdbuf(); return ss.str();
}
static bool blobOp(const Op& op) {
    if (op.cmd != "blob") return false;
    const Str& n = op.pos[0]; const Str& k = op.pos[1];
    if (k == "hex") setBlob(n, unhex(op.pos.size() > 2 ? op.pos[2] : ""));
    else if (k == "gen") { // gen seed len alphabet
        uint64_t s = atoll(op.pos[2].c_str()) * 2654435761u + 88172645463325252ull;
        int64_t len = atoll(op.pos[3].c_str()); int al = atoi(op.pos[4].c_str());
        Str r; r.reserve(len);
        for (int64_t i = 0; i < len; ++i) r += (char)(rnd32(s) % al);
        setBlob(n, r);
    } else if (k == "file") setBlob(n, readFile(g_basedir + "/" + op.pos[2]));
    else if (k == "slice") { // slice src off len
        const Str& b = blob(op.pos[2]); size_t o = atoll(op.pos[3].c_str());
        setBlob(n, o <= b.size() ? b.substr(o, atoll(op.pos[4].c_str())) : Str());
    } else if (k == "cat") {
        Str r; for (size_t i = 2; i < op.pos.size(); ++i) r += blob(op.pos[i]); setBlob(n, r);
    } else if (k == "put") { // put src off hex
        Str r = blob(op.pos[2]); Str h = unhex(op.pos[4]); size_t o = atoll(op.pos[3].c_str());
        for (size_t i = 0; i < h.size() && o + i < r.size(); ++i) r[o + i] = h[i];
        setBlob(n, r);
    } else die("blob kind " + k);
    return true;
}

static void onAlarm(int) {
    static const char m[] = "{\"ev\":\"hang\"}\n";
    flushOut();
    ssize_t r = write(g_out, m, sizeof(m) - 1); (void)r;
    _exit(3);
}
void objReset();

static Str slurpName(const Str& line) { return line; }

int main(int argc, char** argv) {
    // drv SCENARIOFILE OUTFILE START SCRATCH TIMEOUT
    if (argc < 6) { fprintf(stderr, "usage\n"); return 9; }
    ifstream in(argv[1]);
    if (!in) { fprintf(stderr, "cannot open %s\n", argv[1]); return 9; }
    g_basedir = argv[1]; size_t sl = g_basedir.rfind('/');
    g_basedir = sl == Str::npos ? "." : g_basedir.substr(0, sl);
    FILE* o = fopen(argv[2], "ab");
    if (!o) return 9;
    g_out = fileno(o);
    int start = atoi(argv[3]);
    g_scratch = argv[4];
    g_timeout = atoi(argv[5]);
    signal(SIGALRM, onAlarm);
    signal(SIGPIPE, SIG_DFL);
    Str line; int idx = -1; bool skip = true;
    while (getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        Op op; size_t p = 0; vector<Str> t;
        while (p < line.size()) {
            size_t q = line.find(' ', p); if (q == Str::npos) q = line.size();
            if (q > p) t.push_back(line.substr(p, q - p));
            p = q + 1;
        }
        op.cmd = t[0];
        if (op.cmd == "scn") {
            idx++; skip = idx < start;
            g_curStep = 0;
            if (!skip) {
                alarm(g_timeout);
                Ev("scn").i("idx", idx).str("id", t.size() > 1 ? t[1] : "").emit();
            }
            continue;
        }
        if (skip) continue;
        for (size_t i = 1; i < t.size(); ++i) {
            size_t e = t[i].find('=');
            if (e != Str::npos && e > 0 && op.cmd != "pexp" && op.cmd != "raw") op.kv[t[i].substr(0, e)] = t[i].substr(e + 1);
            else op.pos.push_back(t[i]);
        }
        if (op.cmd == "end") {
            archReset(); provReset(); objReset(); procReset(); bigReset(); g_blobs.clear();
            alarm(0);
            Ev("end").i("idx", idx).emit();
            continue;
        }
        if (op.cmd == "raw") { // raw JSON event passed to the specification
            emitLine(line.substr(4)); continue;
        }
        if (op.cmd == "pexp") { op.pos.clear(); op.pos.push_back(t[1]); op.kv["json"] = line.substr(5 + t[1].size() + 1); }
        g_curStep++;
        if (!(blobOp(op) || streamOp(op) || provOp(op) || archOp(op) || funcOp(op) || procOp(op) || bigOp(op))) die("unknown op: " + line);
    }
    flushOut();
    _exit(0);
}
