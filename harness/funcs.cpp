#include "drv.h"
#include <strigi/kmpsearcher.h>
#include <strigi/textutils.h>
#include "base64inputstream.h"
#include "dostime.h"
#include <strigi/tarinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <string.h>
#include <stdlib.h>
using namespace std;
using namespace Strigi;

// exact-size heap copy so that any access outside is a sanitizer report
struct Exact { char* p; Exact(const Str& s) { p = (char*)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); } ~Exact() { free(p); } };

static KmpSearcher* g_reuse = 0;
static Str b64(const Str& h) { return h == "-" ? Str() : unhex(h); }
static Str arr(uint64_t v, int w) { // little endian value bytes as an array, independent of TLC integers
    Str r = "["; for (int i = 0; i < w; ++i) { if (i) r += ','; r += to_string((int)((v >> (8 * i)) & 255)); } return r + "]";
}
bool funcOp(const Op& op) {
    const Str& c = op.cmd;
    if (c == "kmp") { // kmp new|reuse hexquery hexhay
        Str q = b64(op.pos[1]), h = b64(op.pos[2]); Exact e(h);
        KmpSearcher* k; KmpSearcher* tmp = 0;
        if (op.pos[0] == "reuse") { if (!g_reuse) g_reuse = new KmpSearcher(); g_reuse->setQuery(q); k = g_reuse; }
        else k = tmp = new KmpSearcher(q);
        const char* r = k->search(e.p, (int32_t)h.size());
        Ev ev("kmp"); ev.bytes("q", q.data(), q.size()).bytes("t", h.data(), h.size()).i("r", r ? r - e.p : -1)
            .i("ql", k->queryLength()).i("qs", k->query() == q); ev.emit();
        delete tmp; return true;
    }
    if (c == "kmpbig") { // kmpbig hexquery blob : big text, expectation computed in TLA+ from the planted positions
        Str q = b64(op.pos[0]); const Str& h = blob(op.pos[1]); Exact e(h); KmpSearcher k(q);
        const char* r = k.search(e.p, (int32_t)h.size());
        Ev ev("kmpbig"); ev.i("n", h.size()).i("m", q.size()).i("want", num(op.kv, "want", -1)).i("r", r ? r - e.p : -1); ev.emit();
        return true;
    }
    if (c == "utf8") {
        Str s = b64(op.pos[0]); Exact e(s); char nb = 77;
        const char* r = checkUtf8(e.p, (int32_t)s.size(), nb);
        bool ok = checkUtf8(e.p, (int32_t)s.size());
        char nb2 = 77; const char* r2 = checkUtf8(s, nb2); bool ok2 = checkUtf8(s);
        Ev ev("utf8"); ev.bytes("t", s.data(), s.size()).i("r", r ? r - e.p : -1).i("nb", nb).i("ok", ok)
            .i("same", ok == ok2 && nb == nb2 && (r ? r - e.p : -1) == (r2 ? r2 - s.c_str() : -1)); ev.emit();
        return true;
    }
    if (c == "nl") {
        Str s = b64(op.pos[0]); char* m = (char*)malloc(s.size() + 1); memcpy(m, s.data(), s.size()); m[s.size()] = 0;
        convertNewLines(m); Ev ev("nl"); ev.bytes("t", s.data(), s.size()).bytes("u", m, s.size()).i("z", m[s.size()]); ev.emit();
        free(m); return true;
    }
    if (c == "int") { // int hex(8+ bytes) off
        Str s = unhex(op.pos[0]); int off = atoi(op.pos[1].c_str());
        for (int v = 0; v < 2; ++v) for (int w = 2; w <= 8; w *= 2) {
            Exact e(s.substr(0, off + w)); const char* p = e.p + off; const unsigned char* q = (const unsigned char*)p;
            uint64_t l, b, ls, bs;
            if (w == 2) { l = v ? readLittleEndianUInt16(q) : readLittleEndianUInt16(p); b = v ? readBigEndianUInt16(q) : readBigEndianUInt16(p);
                ls = (int64_t)(v ? readLittleEndianInt16(q) : readLittleEndianInt16(p)); bs = (int64_t)(v ? readBigEndianInt16(q) : readBigEndianInt16(p)); }
            else if (w == 4) { l = v ? readLittleEndianUInt32(q) : readLittleEndianUInt32(p); b = v ? readBigEndianUInt32(q) : readBigEndianUInt32(p);
                ls = (int64_t)(v ? readLittleEndianInt32(q) : readLittleEndianInt32(p)); bs = (int64_t)(v ? readBigEndianInt32(q) : readBigEndianInt32(p)); }
            else { l = v ? readLittleEndianUInt64(q) : readLittleEndianUInt64(p); b = v ? readBigEndianUInt64(q) : readBigEndianUInt64(p);
                ls = (int64_t)(v ? readLittleEndianInt64(q) : readLittleEndianInt64(p)); bs = (int64_t)(v ? readBigEndianInt64(q) : readBigEndianInt64(p)); }
            Ev ev("int"); ev.i("w", w).i("uc", v).bytes("t", p, w).raw("lu", arr(l, 8)).raw("bu", arr(b, 8)).raw("ls", arr(ls, 8)).raw("bs", arr(bs, 8)); ev.emit();
        }
        return true;
    }
    if (c == "magic" || c == "magicb") { // magic hex | magicb blob len fmt=
        Str s = c == "magic" ? b64(op.pos[0]) : blob(op.pos[0]).substr(0, atoll(op.pos[1].c_str()));
        Exact x(s); int n = (int)s.size();
        Ev ev("magic"); ev.bytes("d", s.data(), s.size()).str("fmt", arg(op.kv, "fmt", "")).i("whole", num(op.kv, "whole", 0))
            .i("zip", ZipInputStream::checkHeader(x.p, n)).i("ar", ArInputStream::checkHeader(x.p, n)).i("cpio", CpioInputStream::checkHeader(x.p, n))
            .i("rpm", RpmInputStream::checkHeader(x.p, n)).i("ole", OleInputStream::checkHeader(x.p, n)).i("gzip", GZipInputStream::checkHeader(x.p, n))
            .i("tar", TarInputStream::checkHeader(x.p, n)).i("sdf", SdfInputStream::checkHeader(x.p, n)).i("mail", MailInputStream::checkHeader(x.p, n))
            .i("lzma", LZMAInputStream::checkHeader(x.p, n)).i("bz2", BZ2InputStream::checkHeader(x.p, n));
        ev.emit(); return true;
    }
    if (c == "mailtext") { // mailtext stream hex : the header fields of a mail that is the stream
        Obj* o = findObj(op.pos[0]); if (!o || !o->in) die("no stream");
        const Str d = b64(op.pos[1]); MailInputStream m(o->in);
        Ev ev("mailtext"); ev.bytes("d", d.data(), d.size()).i("st", m.status());
        struct { const char* n; const Str& v; } fs[] = {{"subject", m.subject()}, {"from", m.from()}, {"to", m.to()}, {"cc", m.cc()}, {"bcc", m.bcc()},
            {"messageid", m.messageid()}, {"inreplyto", m.inreplyto()}, {"references", m.references()}};
        for (auto& x : fs) ev.bytes(x.n, x.v.data(), x.v.size());
        ev.emit(); return true;
    }
    if (c == "sniff") { // sniff stream blob p0 : what follows position p0 of the stream is known
        Obj* o = findObj(op.pos[0]); if (!o || !o->in) die("no stream");
        const Str d = blob(op.pos[1]).substr(atoll(op.pos[2].c_str()));
        SubStreamProviderProvider pp; SubStreamProvider* p = pp.subStreamProvider(o->in);
        Str k = !p ? "none" : dynamic_cast<MailInputStream*>(p) ? "mail" : dynamic_cast<ZipInputStream*>(p) ? "zip" : dynamic_cast<SdfInputStream*>(p) ? "sdf" : "other";
        Ev ev("sniff"); ev.bytes("d", d.data(), d.size()).str("kind", k).i("p0", atoll(op.pos[2].c_str())).i("pos", o->in->position()).i("st", o->in->status()); ev.emit();
        delete p; return true;
    }
    if (c == "b64") { // one-shot decoder
        Str s = b64(op.pos[0]); Exact e(s);
        Str r = Base64InputStream::decode(e.p, s.size());
        Ev ev("b64"); ev.bytes("t", s.data(), s.size()).bytes("u", r.data(), r.size()); ev.emit(); return true;
    }
    return false;
}
