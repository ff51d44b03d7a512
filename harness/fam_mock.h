// A stand-in for the OpenFAM client: fabric memory as plain arrays, one atomic step (and scheduling point) per operation.
#pragma once
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include "fam/fam.h"
#include "fam/fam_exception.h"
namespace fammock {
inline std::function<void()>& point() {
    static std::function<void()> f = [] {};
    return f;
}
struct Obj {
    bool live;
    std::string name;
    uint64_t off, size;
    std::vector<unsigned char> mem;
};
struct Reg {
    bool live;
    std::string name;
    uint64_t id, size, used;
    mode_t perm;
    std::vector<Obj*> objs;
};
inline std::vector<Reg*>& regs() {
    static std::vector<Reg*> r;
    return r;
}
using openfam::Fam_Exception;
inline Reg* byName(const char* n) {
    for (auto* r : regs()) if (r->live && r->name == n) return r;
    return nullptr;
}
inline Reg& byId(uint64_t id) {
    for (auto* r : regs()) if (r->live && r->id == id) return *r;
    throw Fam_Exception("region not found", openfam::FAM_ERR_NOTFOUND);
}
inline Obj* objByName(Reg& r, const char* n) {
    for (auto* o : r.objs) if (o->live && *n && o->name == n) return o;
    return nullptr;
}
inline Obj& obj(openfam::Fam_Descriptor* d) {
    auto g = d->get_global_descriptor();
    Reg& r = byId(g.regionId);
    for (auto* o : r.objs) if (o->live && o->off == g.offset) return *o;
    throw Fam_Exception("object not found", openfam::FAM_ERR_NOTFOUND);
}
inline unsigned char* at(openfam::Fam_Descriptor* d, uint64_t off, uint64_t n) {
    Obj& o = obj(d);
    if (off > o.size || n > o.size - off) throw Fam_Exception("out of range", openfam::FAM_ERR_OUTOFRANGE);
    return o.mem.data() + off;
}
template <class T> T get(openfam::Fam_Descriptor* d, uint64_t off) { T v; memcpy(&v, at(d, off, sizeof v), sizeof v); return v; }
template <class T> void set(openfam::Fam_Descriptor* d, uint64_t off, T v) { memcpy(at(d, off, sizeof v), &v, sizeof v); }
}  // namespace fammock
namespace openfam {
using namespace fammock;
#define PT fammock::point()()
fam::fam() {}
fam::~fam() {}
void fam::fam_initialize(const char*, Fam_Options*) {}
void fam::fam_finalize(const char*) {}
void fam::fam_abort(int) {}
const void* fam::fam_get_option(char*) { return "mock"; }
Fam_Region_Descriptor* fam::fam_create_region(const char* n, uint64_t size, mode_t perm, Fam_Region_Attributes*) {
    PT;
    if (byName(n)) throw Fam_Exception("region exists", FAM_ERR_ALREADYEXIST);
    Reg* r = new Reg{true, n, regs().size() + 1, size, 0, perm, {}};
    regs().push_back(r);
    return new Fam_Region_Descriptor(r->id, r->size, r->perm, n);
}
Fam_Region_Descriptor* fam::fam_lookup_region(const char* n) {
    PT;
    Reg* r = byName(n);
    if (!r) throw Fam_Exception("region not found", FAM_ERR_NOTFOUND);
    return new Fam_Region_Descriptor(r->id, r->size, r->perm, n);
}
void fam::fam_destroy_region(Fam_Region_Descriptor* d) {
    PT;
    byId(d->get_global_descriptor().regionId).live = false;
    d->mock_invalidate();
}
void fam::fam_resize_region(Fam_Region_Descriptor* d, uint64_t size) {
    PT;
    byId(d->get_global_descriptor().regionId).size = size;
    d->mock_setSize(size);
}
void fam::fam_stat(Fam_Region_Descriptor* d, Fam_Stat* s) {
    PT;
    Reg& r  = byId(d->get_global_descriptor().regionId);
    s->size = r.size; s->perm = r.perm;
    snprintf(s->name, sizeof s->name, "%s", r.name.c_str());
}
Fam_Descriptor* fam::fam_allocate(const char* n, uint64_t size, mode_t perm, Fam_Region_Descriptor* d) {
    PT;
    Reg& r = byId(d->get_global_descriptor().regionId);
    if (objByName(r, n)) throw Fam_Exception("object exists", FAM_ERR_ALREADYEXIST);
    uint64_t sum = size;
    for (auto* o : r.objs) if (o->live) sum += o->size;
    if (sum > r.size) throw Fam_Exception("no space", FAM_ERR_NO_SPACE);
    Obj* o = new Obj{true, n, 64 + r.used, size, std::vector<unsigned char>(size, 0)};
    r.used += (size + 7) / 8 * 8;
    r.objs.push_back(o);
    return new Fam_Descriptor(r.id, o->off, size, perm, n);
}
Fam_Descriptor* fam::fam_lookup(const char* n, const char* rn) {
    PT;
    Reg* r = byName(rn);
    if (!r) throw Fam_Exception("region not found", FAM_ERR_NOTFOUND);
    Obj* o = objByName(*r, n);
    if (!o) throw Fam_Exception("object not found", FAM_ERR_NOTFOUND);
    return new Fam_Descriptor(r->id, o->off, o->size, 0640, n);
}
void fam::fam_deallocate(Fam_Descriptor* d) {
    PT;
    obj(d).live = false;
    d->mock_invalidate();
}
void fam::fam_stat(Fam_Descriptor* d, Fam_Stat* s) {
    PT;
    Obj& o  = obj(d);
    s->size = o.size;
    snprintf(s->name, sizeof s->name, "%s", o.name.c_str());
}
void fam::fam_put_blocking(void* b, Fam_Descriptor* d, uint64_t off, uint64_t n) { PT; memcpy(at(d, off, n), b, n); }
void fam::fam_get_blocking(void* b, Fam_Descriptor* d, uint64_t off, uint64_t n) { PT; memcpy(b, at(d, off, n), n); }
int32_t fam::fam_fetch_int32(Fam_Descriptor* d, uint64_t o) { PT; return get<int32_t>(d, o); }
int64_t fam::fam_fetch_int64(Fam_Descriptor* d, uint64_t o) { PT; return get<int64_t>(d, o); }
int128_t fam::fam_fetch_int128(Fam_Descriptor* d, uint64_t o) { PT; return get<int128_t>(d, o); }
uint32_t fam::fam_fetch_uint32(Fam_Descriptor* d, uint64_t o) { PT; return get<uint32_t>(d, o); }
uint64_t fam::fam_fetch_uint64(Fam_Descriptor* d, uint64_t o) { PT; return get<uint64_t>(d, o); }
float fam::fam_fetch_float(Fam_Descriptor* d, uint64_t o) { PT; return get<float>(d, o); }
double fam::fam_fetch_double(Fam_Descriptor* d, uint64_t o) { PT; return get<double>(d, o); }
#define SET(T) void fam::fam_set(Fam_Descriptor* d, uint64_t o, T v) { PT; fammock::set<T>(d, o, v); }
SET(int32_t) SET(int64_t) SET(int128_t) SET(uint32_t) SET(uint64_t) SET(float) SET(double)
#define ARI(T) \
    void fam::fam_add(Fam_Descriptor* d, uint64_t o, T v) { PT; fammock::set<T>(d, o, get<T>(d, o) + v); } \
    void fam::fam_subtract(Fam_Descriptor* d, uint64_t o, T v) { PT; fammock::set<T>(d, o, get<T>(d, o) - v); } \
    T fam::fam_swap(Fam_Descriptor* d, uint64_t o, T v) { PT; T x = get<T>(d, o); fammock::set<T>(d, o, v); return x; }
ARI(int32_t) ARI(int64_t) ARI(uint32_t) ARI(uint64_t) ARI(float) ARI(double)
#define CASW(T) T fam::fam_compare_swap(Fam_Descriptor* d, uint64_t o, T a, T b) { PT; T x = get<T>(d, o); if (x == a) fammock::set<T>(d, o, b); return x; }
CASW(int32_t) CASW(int64_t) CASW(uint32_t) CASW(uint64_t) CASW(int128_t)
}  // namespace openfam
