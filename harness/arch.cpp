#include "drv.h"
#include <strigi/archivereader.h>
#include <strigi/stringstream.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
using namespace std;
using namespace Strigi;

struct MFile { Str content; int64_t mtime; int type; Args kv; const Virt* virt; MFile() : mtime(0), type(0), virt(0) {} };
// in-memory file system behind the StreamOpener interface
struct MemOpener : public StreamOpener {
    map<Str, MFile> files;
    InputStream* openStream(const Str& url) {
        map<Str, MFile>::iterator i = files.find(url);
        if (i == files.end() || !(i->second.type & EntryInfo::File)) return 0;
        if (i->second.virt) return makeVirt(i->second.virt, i->second.kv);
        if (i->second.kv.count("chunk")) return makeChunk(i->second.content, i->second.kv);
        return new StringInputStream(i->second.content.data(), (int32_t)i->second.content.size(), true);
    }
    int stat(const Str& url, EntryInfo& e) {
        map<Str, MFile>::iterator i = files.find(url);
        if (i == files.end()) return -1;
        size_t p = url.rfind('/'); e.filename = p == Str::npos ? url : url.substr(p + 1);
        e.size = i->second.virt ? i->second.virt->len : (int64_t)i->second.content.size(); e.mtime = i->second.mtime; e.type = (EntryInfo::Type)i->second.type; return 0;
    }
};
struct Rd { Str name; ArchiveReader* r; };
static map<Str, ArchiveReader*> g_rd;
static map<Str, MemOpener*> g_op;
static map<Str, ArchiveReader::DirLister*> g_ls;
static map<Str, Str> g_open; // stream -> reader
static void fsReset();
static int64_t g_unit = 1; // sizes are reported in blocks
void archReset() {
    for (map<Str, ArchiveReader::DirLister*>::iterator i = g_ls.begin(); i != g_ls.end(); ++i) delete i->second;
    g_ls.clear();
    for (map<Str, Str>::iterator i = g_open.begin(); i != g_open.end(); ++i) {
        Obj* o = findObj(i->first);
        if (o) { InputStream* s = o->in; dropObj(i->first); g_rd[i->second]->closeStream(s); }
    }
    g_open.clear();
    for (map<Str, ArchiveReader*>::iterator i = g_rd.begin(); i != g_rd.end(); ++i) delete i->second;
    g_rd.clear();
    for (map<Str, MemOpener*>::iterator i = g_op.begin(); i != g_op.end(); ++i) delete i->second;
    g_op.clear(); g_unit = 1;
    fsReset();
}
// "@/x" is the file x below the scratch directory
static Str real(const Str& u) { return u.compare(0, 2, "@/") == 0 ? scratchDir() + "/fs" + u.substr(1) : u; }
static vector<Str> g_fsfiles, g_fsdirs;
static Str split(const Str& u) { // path as an array of components
    Str r = "["; size_t p = 0; bool first = true;
    while (p <= u.size()) { size_t q = u.find('/', p); if (q == Str::npos) q = u.size();
        if (!first) r += ','; first = false; r += "\"" + u.substr(p, q - p) + "\""; p = q + 1; }
    return r + "]";
}

static void info(Ev& e, const EntryInfo& i) { Content c; c.unit = g_unit; e.str("name", i.filename).i("sz", c.items(i.size)).i("mt", (int64_t)i.mtime % 1000000000).i("mth", (int64_t)i.mtime / 1000000000).i("ty", (int)i.type); }
static const EntryInfo& none() { static EntryInfo e; e.filename = ""; e.size = -1; e.mtime = 0; e.type = EntryInfo::Unknown; return e; }

static void fsReset() {
    for (size_t i = 0; i < g_fsfiles.size(); ++i) unlink(real(g_fsfiles[i]).c_str());
    for (size_t i = g_fsdirs.size(); i > 0; --i) rmdir(real(g_fsdirs[i - 1]).c_str());
    g_fsfiles.clear(); g_fsdirs.clear();
}
static void setEvent(const Str& o, const Str& url, const Str& json) { Ev e("arset"); e.str("o", o).raw("url", split(url)).raw("m", json); e.emit(); }
static void fsDirs(const Str& url) { // create the directories of a file
    mkdir((scratchDir() + "/fs").c_str(), 0700);
    for (size_t p = url.find('/', 2); p != Str::npos; p = url.find('/', p + 1)) {
        Str d = url.substr(0, p);
        if (mkdir(real(d).c_str(), 0700) == 0) { g_fsdirs.push_back(d); setEvent("FS", d, "{\"ty\":1,\"sz\":-2,\"mt\":-1,\"mth\":0,\"c\":-1,\"sub\":[],\"wild\":0}"); }
    }
}
static void fsWrite(const Str& url, const Str& data, int64_t mtime) { // replace the file, what is open stays as it is
    Str p = real(url), t = p + ".tmp~";
    FILE* f = fopen(t.c_str(), "wb"); if (!f) die("cannot write");
    fwrite(data.data(), 1, data.size(), f); fclose(f);
    struct timeval tv[2]; tv[0].tv_sec = tv[1].tv_sec = mtime; tv[0].tv_usec = tv[1].tv_usec = 0;
    utimes(t.c_str(), tv);
    if (rename(t.c_str(), p.c_str())) die("cannot rename");
    g_fsfiles.push_back(url);
}

bool archOp(const Op& op) {
    const Str& c = op.cmd;
    if (c.compare(0, 2, "ar") != 0) return false;
    if (c == "arnew") { // arnew reader [opener...]
        const Str& n = op.pos[0]; g_rd[n] = new ArchiveReader();
        Str os = "[";
        for (size_t i = 1; i < op.pos.size(); ++i) {
            os += (i > 1 ? ",\"" : "\"") + op.pos[i] + "\"";
            if (op.pos[i] == "FS") { static FileStreamOpener fs; g_rd[n]->addStreamOpener(&fs); continue; }
            if (!g_op[op.pos[i]]) g_op[op.pos[i]] = new MemOpener(); g_rd[n]->addStreamOpener(g_op[op.pos[i]]); }
        Ev v("arnew"); v.str("r", n).raw("os", os + "]"); v.emit();
        return true;
    }
    if (c == "arfile") { // arfile opener path blob mtime json=
        if (op.kv.count("virt")) g_unit = 512;
        if (op.kv.count("virt") && op.pos[0] == "FS") { // a huge file
            fsDirs(op.pos[1]);
            Str p = real(op.pos[1]); if (rename(bigFile(findVirt(arg(op.kv, "virt"))).c_str(), p.c_str())) die("cannot rename");
            struct timeval tv[2]; tv[0].tv_sec = tv[1].tv_sec = atoll(op.pos[3].c_str()); tv[0].tv_usec = tv[1].tv_usec = 0; utimes(p.c_str(), tv);
            g_fsfiles.push_back(op.pos[1]);
        }
        else if (op.pos[0] == "FS") { fsDirs(op.pos[1]); fsWrite(op.pos[1], blob(op.pos[2]), atoll(op.pos[3].c_str())); }
        else {
            if (!g_op[op.pos[0]]) g_op[op.pos[0]] = new MemOpener();
            MFile& f = g_op[op.pos[0]]->files[op.pos[1]]; f.virt = op.kv.count("virt") ? findVirt(arg(op.kv, "virt")) : 0; f.content = f.virt ? Str() : blob(op.pos[2]); f.mtime = atoll(op.pos[3].c_str()); f.type = EntryInfo::File; f.kv = op.kv;
        }
        setEvent(op.pos[0], op.pos[1], arg(op.kv, "json"));
        return true; }
    if (c == "ardir") { if (!g_op[op.pos[0]]) g_op[op.pos[0]] = new MemOpener(); MFile& f = g_op[op.pos[0]]->files[op.pos[1]]; f.mtime = atoll(op.pos[2].c_str()); f.type = EntryInfo::Dir; f.content = ""; f.virt = 0;
        setEvent(op.pos[0], op.pos[1], "{\"ty\":1,\"sz\":0,\"mt\":" + op.pos[2] + ",\"mth\":0,\"c\":-1,\"sub\":[],\"wild\":0}"); return true; }
    if (c == "arrm") { if (op.pos[0] == "FS") unlink(real(op.pos[1]).c_str()); else g_op[op.pos[0]]->files.erase(op.pos[1]);
        Ev v("arrm"); v.str("o", op.pos[0]).raw("url", split(op.pos[1])); v.emit(); return true; }
    if (c == "arstat") { EntryInfo e = none(); int r = g_rd[op.pos[0]]->stat(real(op.pos[1]), e); Ev v("arstat"); v.str("r", op.pos[0]).raw("url", split(op.pos[1])).i("ret", r); info(v, e); v.emit(); return true; }
    if (c == "arisarch") { bool b = g_rd[op.pos[0]]->isArchive(real(op.pos[1])); Ev v("arisarch"); v.str("r", op.pos[0]).raw("url", split(op.pos[1])).i("ret", b); v.emit(); return true; }
    if (c == "arcan") { bool b = g_rd[op.pos[0]]->canHandle(real(op.pos[1])); Ev v("arcan"); v.str("r", op.pos[0]).raw("url", split(op.pos[1])).i("ret", b); v.emit(); return true; }
    if (c == "arls") { // arls reader lister url
        delete g_ls[op.pos[1]]; g_ls[op.pos[1]] = 0;
        g_ls[op.pos[1]] = new ArchiveReader::DirLister(g_rd[op.pos[0]]->dirEntries(real(op.pos[2])));
        Ev v("arls"); v.str("r", op.pos[0]).str("l", op.pos[1]).raw("url", split(op.pos[2])); v.emit(); return true; }
    if (c == "arnx" || c == "arall") { // arnx lister | arall lister : next entry / everything that is left
        ArchiveReader::DirLister* l = g_ls[op.pos[0]]; if (!l) die("no lister");
        int lim = c == "arnx" ? 1 : 1000; bool ok = true;
        while (lim-- > 0 && ok) { EntryInfo e = none(); ok = l->nextEntry(e); Ev v("arnx"); v.str("l", op.pos[0]).i("ok", ok); if (!ok) e = none(); info(v, e); v.emit(); }
        return true; }
    if (c == "arcp") { delete g_ls[op.pos[0]]; g_ls[op.pos[0]] = 0; g_ls[op.pos[0]] = new ArchiveReader::DirLister(*g_ls[op.pos[1]]); Ev v("arcp"); v.str("l", op.pos[0]).str("from", op.pos[1]); v.emit(); return true; }
    if (c == "aras") { *g_ls[op.pos[0]] = *g_ls[op.pos[1]]; Ev v("arcp"); v.str("l", op.pos[0]).str("from", op.pos[1]); v.emit(); return true; }
    if (c == "arlsdel") { delete g_ls[op.pos[0]]; g_ls.erase(op.pos[0]); Ev("arlsdel").str("l", op.pos[0]).emit(); return true; }
    if (c == "aropen") { // aropen reader stream url [blob]
        InputStream* s = g_rd[op.pos[0]]->openStream(real(op.pos[2]));
        Ev v("aropen"); v.str("r", op.pos[0]).raw("url", split(op.pos[2])).i("ret", s ? 1 : 0).i("c", num(op.kv, "c", -1));
        if (s) { Obj* o = addObj(op.pos[1], s, false); Str b = arg(op.kv, "blob"); if (!b.empty()) o->c.bytes = blob(b);
            if (op.kv.count("virt")) { o->c.virt = findVirt(arg(op.kv, "virt")); o->c.unit = 512; o->c.base = num(op.kv, "base", 0); o->c.vlen = num(op.kv, "L", 0); }
            g_open[op.pos[1]] = op.pos[0]; objEvent(v, o); v.i("L", o->c.len()); }
        else { v.str("s", op.pos[1]).i("pos", 0).i("size", -1).i("st", 0).i("err", 0).i("L", 0); }
        v.emit();
        if (s && num(op.kv, "sink", 0)) { // what it holds is not known: only read it
            const char* p; int64_t total = 0; int32_t n;
            while (total < (1 << 22) && (n = s->read(p, 1, 0)) > 0) { volatile char x = 0; for (int32_t i = 0; i < n; ++i) x = x ^ p[i]; total += n; }
            dropObj(op.pos[1]); g_open.erase(op.pos[1]); g_rd[op.pos[0]]->closeStream(s); Ev("arclose").str("s", op.pos[1]).emit(); }
        return true; }
    if (c == "arclose") { Obj* o = findObj(op.pos[1]); if (o) { InputStream* s = o->in; dropObj(op.pos[1]); g_open.erase(op.pos[1]); g_rd[op.pos[0]]->closeStream(s); } Ev("arclose").str("s", op.pos[1]).emit(); return true; }
    if (c == "arfree") { delete g_rd[op.pos[0]]; g_rd.erase(op.pos[0]); return true; }
    return false;
}
