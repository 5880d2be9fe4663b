#include "drv.h"
#include <strigi/tarinputstream.h>
#include <strigi/zipinputstream.h>
#include <strigi/arinputstream.h>
#include <strigi/cpioinputstream.h>
#include <strigi/rpminputstream.h>
#include <strigi/mailinputstream.h>
#include <strigi/sdfinputstream.h>
#include <strigi/oleinputstream.h>
#include <strigi/substreamproviderprovider.h>
#include <strigi/gzipinputstream.h>
#include <strigi/bz2inputstream.h>
#include <strigi/lzmainputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <strigi/subinputstream.h>
#include "base64inputstream.h"
#include <string.h>
using namespace std;
using namespace Strigi;

struct Prov { Str name, kind; SubStreamProvider* p; map<int, Content> ment; int count; InputStream* last; InputStream* src; };
static vector<Prov*> g_provs;
static Prov* findProv(const Str& n) { for (size_t i = 0; i < g_provs.size(); ++i) if (g_provs[i]->name == n) return g_provs[i]; return 0; }
void provReset() {
    while (!g_provs.empty()) { Prov* p = g_provs.back(); g_provs.pop_back(); dropObj(p->name + ".e"); delete p->p; delete p; }
}
static void provEvent(Ev& e, Prov* p) {
    e.str("p", p->name).i("st", p->p->status()).i("err", p->p->error()[0] ? 1 : 0);
}
static Str fn(const Str& s) { // file names, trailing NUL made visible by escaping
    return s;
}
static SubStreamProvider* makeProv(const Str& k, InputStream* s) {
    SubStreamProvider* p = 0;
        
        if (k == "tar") p = new TarInputStream(s);
        else if (k == "zip") p = new ZipInputStream(s);
        else if (k == "ar") p = new ArInputStream(s);
        else if (k == "cpio") p = new CpioInputStream(s);
        else if (k == "rpm") p = new RpmInputStream(s);
        else if (k == "mail") p = new MailInputStream(s);
        else if (k == "sdf") p = new SdfInputStream(s);
        else if (k == "ole") p = new OleInputStream(s);
        else if (k == "sniff") { SubStreamProviderProvider pp; p = pp.subStreamProvider(s); }
    return p;
}
static InputStream* makeFilter(const Str& k, InputStream* s) {
    if (k == "gzip") return new GZipInputStream(s, GZipInputStream::GZIPFORMAT);
    if (k == "zlib") return new GZipInputStream(s, GZipInputStream::ZLIBFORMAT);
    if (k == "deflate") return new GZipInputStream(s, GZipInputStream::ZIPFORMAT);
    if (k == "bz2") return new BZ2InputStream(s);
    if (k == "lzma") return new LZMAInputStream(s);
    if (k == "b64") return new Base64InputStream(s);
    if (k == "utf16") return new EncodingInputStream(s, "UTF-16LE");
    if (k == "utf8") return new EncodingInputStream(s, "UTF-8", "UTF-16LE");
    if (k == "term") return new StringTerminatedSubStream(s, "\n\n");
    if (k == "sub") return new SubInputStream(s, 700);
    return 0;
}
static uint64_t fnv(uint64_t h, const void* d, size_t n) { for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)d)[i]) * 1099511628211ull; return h; }
// reads a stream to its end; describes what it delivered if it ended cleanly
static Str digest(InputStream* s, int32_t mn, int32_t mx, int64_t mb, bool& lim) {
    const char* d; int32_t n; uint64_t h = 14695981039346656037ull; int64_t t = 0;
    while ((n = s->read(d, mn, mx)) > 0) { h = fnv(h, d, n); t += n; if (t > mb) { lim = true; break; } }
    if (s->status() == Strigi::Error) return "E";
    return to_string((long long)t) + ":" + to_string((unsigned long long)h);
}
bool provOp(const Op& op) {
    const Str& c = op.cmd;
    if (c == "prov") { // prov p kind src
        const Str& n = op.pos[0]; const Str& k = op.pos[1];
        Obj* s = findObj(op.pos[2]); if (!s || !s->in) die("no source");
        SubStreamProvider* p = makeProv(k, s->in);
        if (!p) die("prov kind");
        Prov* q = new Prov; q->name = n; q->kind = k; q->p = p; q->count = 0; q->last = 0; q->src = s->in;
        g_provs.push_back(q);
        return true;
    }
    if (c == "hdr") { // static header check: hdr kind blob len
        const Str& k = op.pos[0]; Str d = blob(op.pos[1]).substr(0, atoll(op.pos[2].c_str()));
        char* m = (char*)malloc(d.size() ? d.size() : 1); memcpy(m, d.data(), d.size());
        bool r = false; int32_t n = d.size();
        if (k == "tar") r = TarInputStream::checkHeader(m, n);
        else if (k == "zip") r = ZipInputStream::checkHeader(m, n);
        else if (k == "ar") r = ArInputStream::checkHeader(m, n);
        else if (k == "cpio") r = CpioInputStream::checkHeader(m, n);
        else if (k == "rpm") r = RpmInputStream::checkHeader(m, n);
        else if (k == "mail") r = MailInputStream::checkHeader(m, n);
        else if (k == "sdf") r = SdfInputStream::checkHeader(m, n);
        else if (k == "ole") r = OleInputStream::checkHeader(m, n);
        else die("hdr kind");
        free(m);
        Ev e("hdr"); e.str("kind", k).i("n", n).i("r", r).str("want", arg(op.kv, "want", "any")); e.emit();
        return true;
    }
    if (c == "pexp") { // pexp p {json}
        Prov* p = findProv(op.pos[0]); if (!p) die("no provider");
        Ev e("pnew"); e.raw("m", op.kv.find("json")->second); provEvent(e, p); e.emit();
        return true;
    }
    if (c == "ment") { Prov* p = findProv(op.pos[0]); Content& m = p->ment[atoi(op.pos[1].c_str())]; m = Content();
        if (op.pos.size() > 2) m.bytes = blob(op.pos[2]);
        Str v = arg(op.kv, "virt");
        if (!v.empty()) { m.virt = findVirt(v); m.unit = num(op.kv, "unit", 512); m.base = num(op.kv, "base", 0); m.vlen = num(op.kv, "L", 0); }
        return true; }
    if (c == "next") {
        Prov* p = findProv(op.pos[0]); if (!p) die("no provider");
        dropObj(p->name + ".e");
        InputStream* s = p->p->nextEntry();
        Ev e("next"); e.i("ret", s ? 1 : 0).i("cur", p->p->currentEntry() == s ? 1 : 0);
        if (s) {
            const EntryInfo& i = p->p->entryInfo();
            const Content& m = p->ment[p->count];
            e.str("name", fn(i.filename)).i("sz", m.items(i.size)).i("mt", (int64_t)i.mtime % 1000000000).i("mth", (int64_t)i.mtime / 1000000000).i("ty", (int)i.type);
            Obj* o = addObj(p->name + ".e", s, false);
            o->c = m;
            e.i("epos", m.items(s->position())).i("esize", m.items(s->size())).i("est", s->status()).i("eerr", s->error()[0] ? 1 : 0);
            p->count++;
        } else {
            e.str("name", "").i("sz", -1).i("mt", 0).i("mth", 0).i("ty", 0).i("epos", 0).i("esize", -1).i("est", 0).i("eerr", 0);
        }
        provEvent(e, p); e.emit();
        return true;
    }
    if (c == "mailhdr") {
        Prov* p = findProv(op.pos[0]); MailInputStream* m = dynamic_cast<MailInputStream*>(p->p);
        Ev e("mailhdr"); e.str("subject", m->subject()).str("from", m->from()).str("to", m->to()).str("cc", m->cc()).str("bcc", m->bcc())
            .str("messageid", m->messageid()).str("inreplyto", m->inreplyto()).str("references", m->references()).str("contenttype", m->contentType());
        provEvent(e, p); e.emit(); return true;
    }
    if (c == "pwalk") { // iterate everything with bounds: pwalk p readmin readmax maxentries maxbytes
        Prov* p = findProv(op.pos[0]); if (!p) die("no provider");
        int64_t mn = atoll(op.pos[1].c_str()), mx = atoll(op.pos[2].c_str()), me = atoll(op.pos[3].c_str()), mb = atoll(op.pos[4].c_str());
        int64_t ents = 0, bytes = 0; int bad = 0; bool lim = false; volatile unsigned char x = 0;
        InputStream* s;
        while ((s = p->p->nextEntry())) {
            if (p->p->currentEntry() != s) bad++;
            if (++ents > me) { lim = true; break; }
            const char* d; int32_t n; int64_t pos = 0;
            if (mx != -7) while ((n = s->read(d, mn, mx)) > 0) {
                for (int32_t i = 0; i < n; ++i) x ^= (unsigned char)d[i];
                pos += n; if (s->position() != pos) bad++;
                if (s->position() >= 4 && (bytes & 3) == 1) { int64_t r = s->reset(s->position() - 1); if (r >= 0) pos = r; else break; if (s->read(d, 1, 1) > 0) pos++; }
                bytes += n; if (bytes > mb) { lim = true; break; }
            }
            if (lim) break;
        }
        Ev e("walk"); e.i("ents", ents).i("bytes", bytes).i("bad", bad).i("lim", lim ? 1 : 0); provEvent(e, p); e.emit();
        return true;
    }
    if (c == "sig") { // the whole outcome: sig key kind src min max maxents maxbytes
        Obj* o = findObj(op.pos[2]); if (!o || !o->in) die("no source");
        int64_t mn = atoll(op.pos[3].c_str()), mx = atoll(op.pos[4].c_str()), me = atoll(op.pos[5].c_str()), mb = atoll(op.pos[6].c_str());
        Str r; bool lim = false;
        InputStream* f = makeFilter(op.pos[1], o->in);
        if (f) { r = digest(f, mn, mx, mb, lim) + " " + to_string((int)f->status()); delete f; }
        else {
            SubStreamProvider* p = makeProv(op.pos[1], o->in); if (!p) die("sig kind");
            InputStream* s; int64_t ents = 0;
            while ((s = p->nextEntry())) {
                const EntryInfo& i = p->entryInfo();
                uint64_t h = fnv(14695981039346656037ull, i.filename.data(), i.filename.size());
                r += to_string((unsigned long long)(h % 1000003)) + "," + to_string((long long)i.size) + "," + to_string((long long)i.mtime) + "," + to_string((int)i.type) + "," + digest(s, mn, mx, mb, lim) + ";";
                if (++ents > me || lim) { lim = true; break; }
            }
            r += " " + to_string((int)p->status());
            delete p;
        }
        if (r.size() > 400) r = r.substr(0, 200) + "..." + to_string((unsigned long long)fnv(0, r.data(), r.size())) + r.substr(r.size() - 60);
        if (!lim) { Ev e("sig"); e.str("key", op.pos[0]).str("kind", op.pos[1]).str("sig", r); e.emit(); }
        return true;
    }
    if (c == "pfin") {
        Prov* p = findProv(op.pos[0]); if (!p) return true;
        dropObj(p->name + ".e"); delete p->p; p->p = 0;
        for (size_t i = 0; i < g_provs.size(); ++i) if (g_provs[i] == p) g_provs.erase(g_provs.begin() + i);
        delete p; Ev("pfin").str("p", op.pos[0]).emit();
        return true;
    }
    return false;
}
