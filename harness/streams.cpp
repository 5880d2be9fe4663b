#include "gzipcompressstream.h"
#include "drv.h"
#include <strigi/stringstream.h>
#include <strigi/bufferedstream.h>
#include <strigi/fileinputstream.h>
#include <strigi/subinputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/inputstreamreader.h>
#include "base64inputstream.h"
#include "skippingfileinputstream2.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <algorithm>
using namespace std;
using namespace Strigi;

// ---- adversarial but contract-abiding source ---------------------------
// n per read anywhere in [min, max]; every segment lives in its own
// exact-size allocation, released on the next invalidating call.
class ChunkSource : public InputStream {
    Str d; uint64_t seed; int mode; int64_t extra; bool known, eager, gen; int64_t fault;
    char* seg; int64_t lo, hi; bool sticky;
    vector<int> sched; size_t si;
    void drop() { ::free(seg); seg = 0; }
public:
    ChunkSource(const Str& data, const Args& a) : d(data), seed(num(a, "seed", 1) * 7919 + 12345), mode(0),
        extra(num(a, "extra", 0)), known(num(a, "known", 0)), eager(num(a, "eager", 0)), gen(num(a, "gen", 0)),
        fault(num(a, "fault", -1)), seg(0), lo(0), hi(0), si(0) {
        Str m = arg(a, "mode", "min");
        mode = m == "min" ? 0 : m == "max" ? 1 : m == "rand" ? 2 : 3;
        Str s = arg(a, "sched", "");
        while (!s.empty()) { size_t c = s.find(','); sched.push_back(atoi(s.c_str())); s = c == Str::npos ? "" : s.substr(c + 1); }
        if (known) m_size = d.size();
        rnd32(seed); rnd32(seed);
    }
    ~ChunkSource() { drop(); }
    int32_t read(const char*& start, int32_t min, int32_t max) {
        drop(); lo = hi = m_position;
        if (m_status == Error) return -2;
        int64_t L = d.size(), left = L - m_position;
        if (min < 1) min = 1;
        int64_t top = max < min ? left : (int64_t)max;
        int64_t n;
        if (mode == 0) n = min + extra;
        else if (mode == 1) n = top;
        else if (mode == 3 && !sched.empty()) { n = sched[si++ % sched.size()]; }
        else { // random, biased to the minimum
            uint32_t r = rnd32(seed);
            if ((r & 3) == 0) n = min; else if ((r & 3) == 1) n = min + (r >> 2) % 7;
            else if ((r & 3) == 2) n = min + (r >> 2) % (extra > 0 ? extra : 300);
            else n = top;
        }
        if (n > top) n = top;
        if (n < min) n = min;
        if (n > left) n = left;
        if (fault >= 0 && m_position + n >= fault) {
            // data may still be handed out up to the fault if min is covered
            n = fault - m_position;
            if (n < min) { m_status = Error; m_error = "injected source failure"; return -2; }
        }
        if (left == 0) { m_status = Eof; m_size = L; return -1; }
        seg = (char*)malloc(n); memcpy(seg, d.data() + m_position, n);
        start = seg; lo = m_position; hi = lo + n; m_position = hi;
        if (fault < 0 || fault > L) {
            if (n < min || (m_position == L && eager)) { m_status = Eof; m_size = L; }
        }
        return (int32_t)n;
    }
    int64_t skip(int64_t k) {
        if (k <= 0) return 0;
        drop();
        if (m_status == Error) return -2;
        int64_t L = d.size();
        int64_t to = m_position + k;
        if (fault >= 0 && to > fault) { m_status = Error; m_error = "injected source failure"; return -2; }
        if (to > L) to = L;
        int64_t r = to - m_position;
        m_position = to; lo = hi = to;
        if (r < k || (eager && to == L)) { m_status = Eof; m_size = L; }
        return r;
    }
    int64_t reset(int64_t p) {
        if (m_status == Error) return -2;
        if (p >= lo && p <= hi) { // guaranteed window, pointer stays valid
            m_position = p;
            m_status = (eager && p == (int64_t)d.size() && m_size != -1) ? Eof : Ok;
            return p;
        }
        if (gen && p >= 0 && p <= (int64_t)d.size() && (fault < 0 || p <= fault)) {
            drop(); m_position = p; lo = hi = p; m_status = Ok; return p;
        }
        return m_position; // stays where it is
    }
};
InputStream* makeChunk(const Str& data, const Args& a) { return new ChunkSource(data, a); }

// ---- BufferedStream subclass with scripted refills ---------------------
template <class T>
class TestBuffered : public BufferedStream<T> {
    Str d; int64_t off; uint64_t seed; int mode; int64_t fault; vector<int> sched; size_t si;
    int32_t fillBuffer(T* start, int32_t space) {
        int64_t L = d.size() / sizeof(T);
        if (fault >= 0 && off >= fault) { this->m_status = Error; this->m_error = "scripted failure"; return -1; }
        int64_t left = L - off;
        if (left == 0) return -1;
        int64_t n;
        if (mode == 0) n = 1; else if (mode == 1) n = space;
        else if (mode == 3 && !sched.empty()) n = sched[si++ % sched.size()];
        else n = rnd32(seed) % (space < 40 ? space + 1 : 40);
        if (n > space) n = space; if (n > left) n = left;
        if (fault >= 0 && off + n > fault) n = fault - off;
        memcpy(start, d.data() + off * sizeof(T), n * sizeof(T)); off += n;
        return (int32_t)n; // 0 means "nothing yet"
    }
public:
    TestBuffered(const Str& data, const Args& a) : d(data), off(0), seed(num(a, "seed", 1) * 7919 + 777), mode(1), fault(num(a, "fault", -1)), si(0) {
        Str m = arg(a, "mode", "max");
        mode = m == "min" ? 0 : m == "max" ? 1 : m == "rand" ? 2 : 3;
        Str s = arg(a, "sched", "");
        while (!s.empty()) { size_t c = s.find(','); sched.push_back(atoi(s.c_str())); s = c == Str::npos ? "" : s.substr(c + 1); }
        if (num(a, "known", 0)) this->m_size = d.size() / sizeof(T);
        int mb = (int)num(a, "minbuf", 0);
        if (mb > 0) this->setMinBufSize(mb);
        rnd32(seed); rnd32(seed);
    }
};

// ---- listener -----------------------------------------------------------
struct Listener : public DataEventHandler {
    Str got; int ends; int64_t stopAt; bool stopped; int late; int bad;
    Listener(int64_t s) : ends(0), stopAt(s), stopped(false), late(0), bad(0) {}
    bool handleData(const char* data, uint32_t size) {
        if (stopped || ends) late++;
        if (size == 0 || size > 0x7fffffff) bad++;
        else got.append(data, size);
        if (stopAt >= 0 && (int64_t)got.size() >= stopAt) { stopped = true; return false; }
        return true;
    }
    void handleEnd() { ends++; }
};

static Str slurp(const char* p) {
    Str r; char b[4096]; FILE* f = fopen(p, "rb"); if (!f) die("slurp");
    for (size_t n; (n = fread(b, 1, sizeof(b), f)) > 0;) r.append(b, n);
    fclose(f); return r;
}
// ---- registry -----------------------------------------------------------
static vector<Obj*> g_objs; // creation order
static vector<Listener*> g_lis;
Obj* findObj(const Str& n) {
    for (size_t i = g_objs.size(); i-- > 0;) if (g_objs[i]->name == n) return g_objs[i];
    return 0;
}
Obj* addObj(const Str& n, InputStream* in, bool owned) {
    dropObj(n);
    Obj* o = new Obj; o->name = n; o->in = in; o->owned = owned; g_objs.push_back(o); return o;
}
static void destroy(Obj* o) {
    if (o->owned) { delete o->in; delete o->rd; }
    delete o;
}
void dropObj(const Str& n) {
    for (size_t i = 0; i < g_objs.size(); ++i) if (g_objs[i]->name == n) {
        for (size_t j = 0; j < g_objs.size(); ++j) if (g_objs[j]->parent == g_objs[i]) g_objs[j]->parent = 0;
        destroy(g_objs[i]); g_objs.erase(g_objs.begin() + i); return; }
}
void objReset() {
    while (!g_objs.empty()) { Obj* o = g_objs.back(); g_objs.pop_back(); destroy(o); }
    for (size_t i = 0; i < g_lis.size(); ++i) delete g_lis[i];
    g_lis.clear();
}

static StreamBaseBase* base(Obj* o) { return o->in ? (StreamBaseBase*)o->in : (StreamBaseBase*)o->rd; }
static int64_t u(Obj* o) { return o->c.wide ? 4 : o->c.unit; }

void objEvent(Ev& e, Obj* o) {
    StreamBaseBase* b = base(o);
    e.str("s", o->name).i("pos", o->c.items(b->position())).i("size", o->c.items(b->size())).i("st", b->status()).i("err", b->error()[0] ? 1 : 0);
    if (o->parent) e.i("pp", o->parent->c.items(base(o->parent)->position())).i("ps", base(o->parent)->status());
    if (o->lis) {
        const Str& g = o->lis->got; const Str& c = o->c.bytes;
        bool pre = g.size() <= c.size() && memcmp(g.data(), c.data(), g.size()) == 0;
        e.i("dl", g.size()).i("dok", pre ? 1 : 0).i("de", o->lis->ends).i("dx", o->lis->late + o->lis->bad).i("ds", o->lis->stopped ? 1 : 0);
    }
}

static int64_t locate(Obj* o, int64_t pos, const void* p, int64_t n) {
    const Str& c = o->c.bytes; int64_t w = u(o);
    if (o->c.virt) return o->c.virt->same(o->c.base + pos * w, (const char*)p, n * w) ? pos : -1;
    if (pos >= 0 && (pos + n) * w <= (int64_t)c.size() && memcmp(c.data() + pos * w, p, n * w) == 0) return pos;
    // touch every delivered byte even if it is wrong
    volatile unsigned char x = 0; for (int64_t i = 0; i < n * w; ++i) x ^= ((const unsigned char*)p)[i];
    if (n * w > 4096) return -1;
    size_t q = c.find(Str((const char*)p, n * w));
    return q == Str::npos ? -1 : (int64_t)(q / w);
}

static int32_t doRead(Obj* o, int64_t min, int64_t max) {
    StreamBaseBase* b = base(o);
    int64_t before = o->c.items(b->position()), k = o->c.unit;
    const char* cp = 0; const wchar_t* wp = 0;
    int32_t n = o->in ? o->in->read(cp, (int32_t)(min * k), (int32_t)(max * k)) : o->rd->read(wp, (int32_t)min, (int32_t)max);
    n = (int32_t)o->c.items(n);
    const void* p = o->in ? (const void*)cp : (const void*)wp;
    Ev e("read"); e.i("min", min).i("max", max).i("n", n);
    if (n > 0) {
        e.i("off", locate(o, before, p, n));
        if (o->c.len() <= 24 && n <= 24 && !o->c.wide && !o->c.virt) e.bytes("d", (const char*)p, n);
        o->ptr = p; o->slo = before; o->shi = before + n; o->ptrok = true; o->seg.assign((const char*)p, n * u(o));
    } else { o->ptr = 0; o->ptrok = false; o->slo = o->shi = o->c.items(b->position()); }
    objEvent(e, o); e.emit();
    return n;
}
static void doReset(Obj* o, int64_t p) {
    StreamBaseBase* b = base(o);
    if (p < 0) p = 0;
    bool inwin = o->ptrok && p >= o->slo && p <= o->shi;
    int64_t r = o->c.items(o->in ? o->in->reset(p * o->c.unit) : o->rd->reset(p));
    Ev e("reset"); e.i("p", p).i("r", r);
    if (inwin) {
        int64_t n = o->shi - o->slo;
        e.i("po", memcmp(o->ptr, o->seg.data(), n * u(o)) == 0 ? 1 : 0);
    } else { o->ptr = 0; o->ptrok = false; }
    (void)b;
    objEvent(e, o); e.emit();
}
static void doSkip(Obj* o, int64_t k) {
    int64_t r = o->c.items(o->in ? o->in->skip(k * o->c.unit) : o->rd->skip(k));
    if (k != 0) { o->ptr = 0; o->ptrok = false; o->slo = o->shi = o->c.items(base(o)->position()); }
    else { o->ptr = 0; o->ptrok = false; }
    Ev e("skip"); e.i("k", k).i("r", r); objEvent(e, o); e.emit();
}

bool streamOp(const Op& op) {
    const Str& c = op.cmd;
    if (c == "src") {
        const Str& n = op.pos[0]; const Str& k = op.pos[1];
        const Str& d = op.pos.size() > 2 ? blob(op.pos[2]) : n;
        if (k == "string") addObj(n, new StringInputStream(d.data(), num(op.kv, "strlen", 0) ? -1 : (int32_t)d.size(), num(op.kv, "copy", 1)), true);
        else if (k == "chunk") addObj(n, new ChunkSource(d, op.kv), true);
        else if (k == "tbuf") addObj(n, new TestBuffered<char>(d, op.kv), true);
        else if (k == "wbuf") { Obj* o = addObj(n, 0, true); o->rd = new TestBuffered<wchar_t>(d, op.kv); o->c.wide = true; }
        else if (k == "wstring") { Obj* o = addObj(n, 0, true); o->rd = new StringReader((const wchar_t*)d.data(), (int32_t)d.size() / 4, num(op.kv, "copy", 1)); o->c.wide = true; }
        else if (k == "file") {
            static int cnt = 0;
            Str path = scratchDir() + "/f" + to_string(cnt++);
            FILE* f = fopen(path.c_str(), "wb"); if (!f) die("scratch");
            fwrite(d.data(), 1, d.size(), f); fclose(f);
            Str via = arg(op.kv, "via", "file"); int fd = -1; Str tmp = path;
            if (via == "pipe" && d.size() < 60000) { // not seekable
                int fds[2]; if (pipe(fds)) die("pipe");
                if (write(fds[1], d.data(), d.size()) != (ssize_t)d.size()) die("pipe");
                close(fds[1]); fd = fds[0]; path = "/dev/fd/" + to_string(fd);
            } else if (via == "proc") path = "/proc/self/cmdline"; // a size of 0
            Str h = arg(op.kv, "hint", "auto"); int bs = (int)num(op.kv, "bufsize", 1048576);
            InputStream* s;
            if (h == "ctor") s = new FileInputStream(path.c_str(), bs);
            else if (h == "skip2") s = new SkippingFileInputStream2(path.c_str(), bs);
            else if (h == "fp" || h == "fp2") { // a file that is open already, and that may have been read from
                FILE* fp = fopen(path.c_str(), "rb");
                for (int64_t k = via == "file" ? num(op.kv, "pre", 0) : 0; fp && k > 0; --k) fgetc(fp);
                if (h == "fp") s = new FileInputStream(fp, path.c_str(), bs);
                else s = new SkippingFileInputStream2(fp, path.c_str(), bs);
            }
            else s = FileInputStream::open(path.c_str(), h == "buffered" ? FileInputStream::Buffered : h == "mmap" ? FileInputStream::MMap : h == "unbuffered" ? FileInputStream::Unbuffered : FileInputStream::Automatic, bs);
            addObj(n, s, true);
            if (fd >= 0) close(fd);
            unlink(tmp.c_str());
        } else if (k == "nofile") {
            Str h = arg(op.kv, "hint", "auto");
            Str path = h == "dir" || arg(op.kv, "dir", "") == "1" ? scratchDir() : scratchDir() + "/does-not-exist";
            const char* pc = arg(op.kv, "null", "") == "1" ? 0 : path.c_str(); // no name at all
            InputStream* s;
            if (h == "ctor") s = new FileInputStream(pc);
            else if (h == "skip2") s = new SkippingFileInputStream2(pc);
            else if (h == "fp") s = new FileInputStream(fopen(path.c_str(), "rb"), path.c_str());
            else if (h == "fp2") s = new SkippingFileInputStream2(fopen(path.c_str(), "rb"), path.c_str());
            else s = FileInputStream::open(pc, h == "buffered" ? FileInputStream::Buffered : h == "mmap" ? FileInputStream::MMap : h == "unbuffered" ? FileInputStream::Unbuffered : FileInputStream::Automatic);
            addObj(n, s, true);
        } else die("src kind " + k);
        return true;
    }
    if (c == "flt") {
        const Str& n = op.pos[0]; const Str& k = op.pos[1]; Obj* p = findObj(op.pos[2]);
        if (!p || !p->in) die("no parent " + op.pos[2]);
        Obj* o = 0;
        if (k == "sub") { o = addObj(n, new SubInputStream(p->in, num(op.kv, "len", -1) * num(op.kv, "unit", 1)), true); o->parent = p; }
        else if (k == "term") { o = addObj(n, new StringTerminatedSubStream(p->in, unhex(arg(op.kv, "t"))), true); o->parent = p; }
        else if (k == "event") {
            Listener* l = new Listener(num(op.kv, "stop", -1)); g_lis.push_back(l);
            o = addObj(n, new DataEventInputStream(p->in, *l), true); o->lis = l;
        }
        else if (k == "gzip") { o = addObj(n, new GZipInputStream(p->in, GZipInputStream::GZIPFORMAT), true); o->parent = p; }
        else if (k == "gzc") { o = addObj(n, new GZipCompressInputStream(p->in, (int)num(op.kv, "level", -1)), true); o->parent = p; }
        else if (k == "zlib") { o = addObj(n, new GZipInputStream(p->in, GZipInputStream::ZLIBFORMAT), true); o->parent = p; }
        else if (k == "deflate") { o = addObj(n, new GZipInputStream(p->in, GZipInputStream::ZIPFORMAT), true); o->parent = p; }
        else if (k == "bz2") { o = addObj(n, new BZ2InputStream(p->in), true); o->parent = p; }
        else if (k == "lzma") { o = addObj(n, new LZMAInputStream(p->in), true); }
        else if (k == "b64") { o = addObj(n, new Base64InputStream(p->in), true); }
        else if (k == "enc") {
            Str i = arg(op.kv, "in"), ou = arg(op.kv, "out");
            o = addObj(n, new EncodingInputStream(p->in, i.empty() ? 0 : i.c_str(), ou.empty() ? 0 : ou.c_str()), true);
        } else if (k == "reader") {
            Str i = arg(op.kv, "enc");
            o = addObj(n, 0, true); o->rd = new InputStreamReader(p->in, i.empty() ? 0 : i.c_str()); o->c.wide = true;
        } else die("flt kind " + k);
        return true;
    }
    if (c == "expect") { // declares the contract of a stream to the specification
        Obj* o = findObj(op.pos[0]); if (!o) die("no stream");
        Str b = arg(op.kv, "blob");
        o->c.bytes = b.empty() ? Str() : b == "@cmdline" ? slurp("/proc/self/cmdline") : blob(b);
        Str vn = arg(op.kv, "virt");
        if (!vn.empty()) { o->c.virt = findVirt(vn); o->c.unit = num(op.kv, "unit", 512); o->c.base = num(op.kv, "base", 0) * o->c.unit; o->c.vlen = num(op.kv, "L", 0); }
        Ev e("new"); e.i("L", o->c.len()).str("kind", arg(op.kv, "kind", "any")).str("end", arg(op.kv, "end", "clean"));
        e.i("o0", num(op.kv, "o0", -1)).i("tl", num(op.kv, "tl", 0)).i("clen", num(op.kv, "clen", -1)).i("decl", num(op.kv, "decl", -1));
        e.i("rew", num(op.kv, "rew", 0));
        if (o->c.len() <= 24 && !o->c.wide && !o->c.virt) e.bytes("c", o->c.bytes.data(), o->c.bytes.size()); else e.raw("c", "[]");
        objEvent(e, o); e.emit();
        return true;
    }
    if (c == "read" || c == "skip" || c == "reset" || c == "rel" || c == "drain" || c == "fin" || c == "back") {
        Obj* o = findObj(op.pos[0]);
        if (!o) { return true; } // entry does not exist (provider returned none)
        if (c == "read") doRead(o, atoll(op.pos[1].c_str()), atoll(op.pos[2].c_str()));
        else if (c == "skip") doSkip(o, atoll(op.pos[1].c_str()));
        else if (c == "reset") doReset(o, atoll(op.pos[1].c_str()));
        else if (c == "rel") { // position inside the last segment, per mille
            if (!o->ptrok) { doReset(o, o->c.items(base(o)->position())); return true; }
            int64_t m = atoll(op.pos[1].c_str());
            doReset(o, o->slo + (o->shi - o->slo) * m / 1000);
        } else if (c == "back") { // relative to the current position
            doReset(o, o->c.items(base(o)->position()) - atoll(op.pos[1].c_str()));
        } else if (c == "drain") {
            int64_t mn = atoll(op.pos[1].c_str()), mx = atoll(op.pos[2].c_str());
            int64_t lim = op.pos.size() > 3 ? atoll(op.pos[3].c_str()) : 1 << 30;
            while (lim-- > 0 && doRead(o, mn, mx) > 0) {}
        } else { Str n = op.pos[0]; dropObj(n); Ev("fin").str("s", n).emit(); }
        return true;
    }
    return false;
}
