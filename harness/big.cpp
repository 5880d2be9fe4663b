// Streams of many gigabytes: the content is computed, positions are counted in
// blocks, so that the specification deals with ordinary numbers.
#include "drv.h"
#include <strigi/fileinputstream.h>
#include <strigi/bufferedstream.h>
#include "skippingfileinputstream2.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
using namespace std;
using namespace Strigi;

static const int64_t U = 512;
static map<Str, Virt*> g_virt;
static vector<Str> g_files;
const Virt* findVirt(const Str& n) { map<Str, Virt*>::iterator i = g_virt.find(n); if (i == g_virt.end()) die("no virtual content " + n); return i->second; }
void bigReset() {
    for (map<Str, Virt*>::iterator i = g_virt.begin(); i != g_virt.end(); ++i) delete i->second;
    g_virt.clear();
    for (size_t i = 0; i < g_files.size(); ++i) unlink(g_files[i].c_str());
    g_files.clear();
}
static inline char at(int64_t off, bool zero) { // every block holds its number, again and again
    if (zero) return 0;
    uint64_t b = (uint64_t)(off / U) * 0x9E3779B97F4A7C15ull + 1;
    return (char)(b >> (8 * (off & 7)));
}
void Virt::get(int64_t off, char* d, int64_t n) const {
    if (zero) memset(d, 0, n);
    else for (int64_t i = 0; i < n; ++i) d[i] = at(off + i, false);
    for (map<int64_t, Str>::const_iterator i = over.begin(); i != over.end(); ++i) {
        int64_t a = max(off, i->first), b = min(off + n, i->first + (int64_t)i->second.size());
        if (a < b) memcpy(d + (a - off), i->second.data() + (a - i->first), b - a);
    }
}
bool Virt::same(int64_t off, const char* d, int64_t n) const {
    static vector<char> t; 
    while (n > 0) {
        int64_t k = min<int64_t>(n, 65536);
        t.resize(k); get(off, &t[0], k);
        if (memcmp(&t[0], d, k) != 0) return false;
        off += k; d += k; n -= k;
        if (n > (1 << 22)) { int64_t s = (n - 65536) / U * U; off += s; d += s; n -= s; } // both ends of what is huge
    }
    return true;
}
class VirtSource : public InputStream {
    const Virt* v; uint64_t seed; bool eager, gen; char* seg; int64_t lo, hi;
    void drop() { ::free(seg); seg = 0; }
public:
    VirtSource(const Virt* x, const Args& a) : v(x), seed(num(a, "seed", 1) * 7919 + 99), eager(num(a, "eager", 0)), gen(num(a, "gen", 0)), seg(0), lo(0), hi(0) {
        if (num(a, "known", 0)) m_size = v->len;
        rnd32(seed); rnd32(seed);
    }
    ~VirtSource() { drop(); }
    int32_t read(const char*& start, int32_t mn, int32_t mx) {
        drop(); lo = hi = m_position;
        int64_t left = v->len - m_position;
        if (mn < 1) mn = 1;
        int64_t top = mx < mn ? (int64_t)mn + 65536 : mx;
        int64_t n = mn + U * (rnd32(seed) % 5);
        if (n > top) n = mn;
        if (n > left) n = left;
        if (left == 0) { m_status = Eof; m_size = v->len; return -1; }
        seg = (char*)malloc(n); v->get(m_position, seg, n);
        start = seg; lo = m_position; hi = lo + n; m_position = hi;
        if (n < mn || (m_position == v->len && eager)) { m_status = Eof; m_size = v->len; }
        return (int32_t)n;
    }
    int64_t skip(int64_t k) {
        if (k <= 0) return 0;
        drop();
        int64_t to = k > v->len - m_position ? v->len : m_position + k;
        int64_t r = to - m_position;
        m_position = to; lo = hi = to;
        if (r < k || (eager && to == v->len)) { m_status = Eof; m_size = v->len; }
        return r;
    }
    int64_t reset(int64_t p) {
        if (p >= lo && p <= hi) { m_position = p; m_status = (eager && p == v->len && m_size != -1) ? Eof : Ok; return p; }
        if (gen && p >= 0 && p <= v->len) { drop(); m_position = p; lo = hi = p; m_status = Ok; return p; }
        return m_position;
    }
};
InputStream* makeVirt(const Virt* v, const Args& a) { return new VirtSource(v, a); }
class VirtBuffered : public BufferedInputStream {
    const Virt* v; int64_t off;
    int32_t fillBuffer(char* start, int32_t space) {
        int64_t n = min<int64_t>(space, v->len - off);
        if (n == 0) return -1;
        if (n >= U && n < v->len - off) n = n / U * U;
        v->get(off, start, n);
        off += n;
        return (int32_t)n;
    }
public:
    VirtBuffered(const Virt* x, const Args& a) : v(x), off(0) { if (num(a, "known", 0)) m_size = v->len; setMinBufSize(1 << 20); }
};
Str bigFile(const Virt* v) { // a sparse file
    static int cnt = 0;
    Str p = scratchDir() + "/big" + to_string(cnt++);
    int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, v->len)) die("no sparse file");
    for (map<int64_t, Str>::const_iterator i = v->over.begin(); i != v->over.end(); ++i)
        if (pwrite(fd, i->second.data(), i->second.size(), i->first) != (ssize_t)i->second.size()) die("sparse write");
    close(fd);
    g_files.push_back(p);
    return p;
}
bool bigOp(const Op& op) {
    const Str& c = op.cmd;
    if (c == "virt") { // virt name blocks [zero=1] [plus=bytes]
        Virt*& v = g_virt[op.pos[0]]; delete v; v = new Virt; v->len = atoll(op.pos[1].c_str()) * U + num(op.kv, "plus", 0); v->zero = num(op.kv, "zero", 0);
        return true;
    }
    if (c == "vput") { // vput name offset blob | vput name offset count=blocks : their pattern
        Virt* v = (Virt*)findVirt(op.pos[0]); int64_t o = atoll(op.pos[1].c_str());
        if (op.pos.size() > 2) v->over[o] = blob(op.pos[2]);
        else { Str s; for (int64_t i = 0; i < num(op.kv, "count", 1) * U; ++i) s += at(o + i, false); v->over[o] = s; }
        return true;
    }
    if (c == "bsrc") { // bsrc obj kind virt
        const Str& n = op.pos[0]; const Str& k = op.pos[1]; const Virt* v = findVirt(op.pos[2]);
        InputStream* s = 0;
        if (k == "virt") s = new VirtSource(v, op.kv);
        else if (k == "tbuf") s = new VirtBuffered(v, op.kv);
        else {
            Str p = bigFile(v);
            if (k == "ctor") s = new FileInputStream(p.c_str());
            else if (k == "skip2") s = new SkippingFileInputStream2(p.c_str());
            else s = FileInputStream::open(p.c_str(), k == "buffered" ? FileInputStream::Buffered : k == "mmap" ? FileInputStream::MMap : k == "unbuffered" ? FileInputStream::Unbuffered : FileInputStream::Automatic);
        }
        Obj* o = addObj(n, s, true);
        o->c.virt = v; o->c.unit = U; o->c.vlen = v->len / U;
        return true;
    }
    return false;
}
