// Conformance driver: interprets scenario files against the real library and
// records one ndjson event per public call (observable state only).
#ifndef DRV_H
#define DRV_H
#include <strigi/strigiconfig.h>
#include <strigi/streambase.h>
#include <string>
#include <map>
#include <vector>
#include <memory>
#include <stdint.h>

typedef std::string Str;
typedef std::map<Str, Str> Args;

// ---- event output ------------------------------------------------------
struct Ev {
    Str s;
    Ev(const char* ev);
    Ev& i(const char* k, int64_t v);          // clamped to 32 bit
    Ev& str(const char* k, const Str& v);      // escaped
    Ev& raw(const char* k, const Str& v);
    Ev& bytes(const char* k, const char* d, size_t n); // array of ints
    void emit();
};
void emitLine(const Str& s);

// ---- scenario state ----------------------------------------------------
struct Content { // expected content in items
    Str bytes;         // narrow content (or UTF-32LE for wide)
    bool wide;
    int64_t unit;      // items are blocks of that many bytes of virtual content
    const struct Virt* virt; int64_t base, vlen; // virtual content: where it starts, number of items
    Content() : wide(false), unit(1), virt(0), base(0), vlen(0) {}
    int64_t len() const { return virt ? vlen : wide ? (int64_t)bytes.size() / 4 : (int64_t)bytes.size(); }
    // an observed number in items; what is not a whole number of blocks becomes absurd
    int64_t items(int64_t v) const { return unit == 1 || v < 0 ? v : v % unit ? -999999 : v / unit; }
};
// content that is computed instead of stored
struct Virt {
    int64_t len; bool zero;                    // zero: nothing but zeroes between the overlays
    std::map<int64_t, Str> over;
    void get(int64_t off, char* d, int64_t n) const;
    bool same(int64_t off, const char* d, int64_t n) const;
};

struct Obj {           // a live stream
    Str name;
    Strigi::InputStream* in;
    Strigi::Reader* rd;
    bool owned;
    Content c;
    Obj* parent;       // stream whose position is reported as "pp"
    struct Listener* lis;
    // last read segment
    const void* ptr; int64_t slo, shi; bool ptrok; Str seg;
    Obj() : in(0), rd(0), owned(true), parent(0), lis(0), ptr(0), slo(-1), shi(-1), ptrok(false) {}
};
Obj* findObj(const Str& n);
Obj* addObj(const Str& n, Strigi::InputStream* in, bool owned);
const Str& blob(const Str& n);
void setBlob(const Str& n, const Str& v);
void dropObj(const Str& n);
Str unhex(const Str& h);
Str hex(const char* d, size_t n);
int64_t num(const Args& a, const char* k, int64_t def);
Str arg(const Args& a, const char* k, const char* def = "");
uint32_t rnd32(uint64_t& s);
const Str& scratchDir();
void die(const Str& msg);
void objEvent(Ev& e, Obj* o);
struct Op { Str cmd; std::vector<Str> pos; Args kv; };
bool streamOp(const Op& op);
bool provOp(const Op& op);
bool archOp(const Op& op);
bool funcOp(const Op& op);
bool procOp(const Op& op);
bool bigOp(const Op& op);
void bigReset();
const Virt* findVirt(const Str& n);
Str bigFile(const Virt* v);
Strigi::InputStream* makeVirt(const Virt* v, const Args& a);
void provReset(); void archReset(); void procReset();
Strigi::InputStream* makeChunk(const Str& data, const Args& a);
extern int g_curStep;
#endif
