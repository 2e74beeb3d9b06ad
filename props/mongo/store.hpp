// The model of a GridFS: files with data and metadata.
#pragma once
#include "raster/ras.hpp"
#include "vals.hpp"

using namespace ccgl;
using namespace ccgl::db_mongoc;

namespace {
struct DType {
    const char* name;
    int size;
    bool integral;
    double lo, hi;
    string (*bytes)(double);
    double (*number)(const char*);
};
template <class S> string to_bytes(double x) { S s = (S)x; return string((const char*)&s, sizeof s); }
template <class S> double from_bytes(const char* p) { S s; memcpy(&s, p, sizeof s); return (double)s; }
#define DT(N, S) {N, sizeof(S), std::is_integral<S>::value, (double)std::numeric_limits<S>::lowest(), (double)std::numeric_limits<S>::max(), to_bytes<S>, from_bytes<S>}
const DType dtypes[] = {DT("INT8", i8), DT("UINT8", u8), DT("INT16", int16_t), DT("UINT16", uint16_t), DT("INT32", int32_t),
                        DT("UINT32", uint32_t), DT("INT64", int64_t), DT("UINT64", uint64_t), DT("FLOAT", float), DT("DOUBLE", double)};
template <class T> const DType& own() {
    const char* n[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double"};
    for (int i = 0; i < 10; i++) if (string(n[i]) == tname<T>()) return dtypes[i];
    abort();
}
string upper(string s) { for (auto& x : s) x = (char)toupper(x); return s; }
const DType* by_name(const string& s) {
    for (auto& d : dtypes) if (upper(s) == d.name) return &d;
    return nullptr;
}
inline bool holds(const DType& t, double x) { return t.integral ? std::trunc(x) >= t.lo && std::trunc(x) <= t.hi : t.size == 8 || std::fabs(x) < 1e30; }
// a file in the store: what it must hold
struct Doc {
    string name, bytes;
    std::map<string, Val> meta;
    bool has_meta = true;
    double num(const char* k) const { auto it = meta.find(k); return it != meta.end() && it->second.number ? it->second.x : -9999; }
    string text(const char* k) const { auto it = meta.find(k); return it != meta.end() ? it->second.s : ""; }
};
const char* header_keys[] = {"NROWS", "NCOLS", "LAYERS", "CELLSNUM", "XLLCENTER", "YLLCENTER", "CELLSIZE", "NODATA_VALUE"};
bool is_header(const string& k) { for (auto h : header_keys) if (k == h) return true; return false; }
Val number(double x) { Val v; v.number = true; v.x = x; return v; }

struct Store {
    Ctx& c;
    MongoClient* client;
    std::unique_ptr<MongoGridFs> gfs;
    vector<Doc> docs;
    Store(Ctx& ctx) : c(ctx) {
        fake::server.reset();
        client = MongoClient::Init("127.0.0.1", 27017);
        gfs.reset(client->GridFs("model", "SPATIAL"));
    }
    ~Store() { drop(); }
    void drop() {
        gfs.reset();
        if (client) client->Destroy();
        delete client;
        client = nullptr;
    }
    void close() {
        drop();
        c.eq(fake::server.live, 0L, "driver objects that remain");
    }
    void verify_store() {
        auto& v = fake::server.files("model", "SPATIAL");
        std::ostringstream have, want;
        for (auto f : v) have << f->name << " ";
        for (auto& d : docs) want << d.name << " ";
        c.eq(have.str(), want.str(), "files stored");
        for (size_t i = 0; i < v.size(); i++) {
            const Doc& d = docs[i];
            c.eq(v[i]->name, d.name, "name of a stored file");
            c.eq(v[i]->data.size(), d.bytes.size(), "size of stored file " + d.name);
            if (v[i]->data != d.bytes) {
                const DType* t = by_name(d.text("DATATYPE_OUT"));
                if (t) for (size_t k = 0; k + t->size <= d.bytes.size(); k += t->size)
                    c.eq(t->number(&v[i]->data[k]), t->number(&d.bytes[k]), format("value %d of stored file ", (int)(k / t->size)) + d.name);
                c.fail("stored file " + d.name + " has other data");
            }
            c.eq(v[i]->has_meta, d.has_meta, "metadata of stored file " + d.name);
            if (!d.has_meta) continue;
            std::set<string> keys;
            bson_iter_t it;
            bson_iter_init(&it, &v[i]->meta);
            while (bson_iter_next(&it)) {
                string k = bson_iter_key(&it);
                c.check(keys.insert(k).second, "metadata " + k + " twice in stored file " + d.name);
                auto w = d.meta.find(k);
                c.check(w != d.meta.end(), "metadata " + k + " in stored file " + d.name);
                if (BSON_ITER_HOLDS_NUMBER(&it)) {
                    double x = BSON_ITER_HOLDS_DOUBLE(&it) ? bson_iter_double(&it) : (double)bson_iter_as_int64(&it);
                    c.check(w->second.number, "metadata " + k + " is a number in stored file " + d.name);
                    c.eq(x, w->second.x, "metadata " + k + " of stored file " + d.name);
                } else {
                    c.check(BSON_ITER_HOLDS_UTF8(&it) && !w->second.number, "metadata " + k + " is not a number in stored file " + d.name);
                    c.eq(string(bson_iter_utf8(&it, nullptr)), w->second.s, "metadata " + k + " of stored file " + d.name);
                }
            }
            c.eq(keys.size(), d.meta.size(), "number of metadata of stored file " + d.name);
        }
        c.eq(fake::server.error, string(), "misuse of the driver");
    }
    // the file that a request addresses
    const Doc* find(const string& name, const STRING_MAP& opts) {
        for (auto& d : docs) {
            bool same = d.name == name;
            for (auto& x : opts) { auto it = d.meta.find(x.first); same = same && it != d.meta.end() && it->second == value_of(x.second); }
            if (same) return &d;
        }
        return nullptr;
    }
    // files that a new one of this name and these options replaces
    size_t replace(const string& name, const STRING_MAP& opts, vector<Doc>& rest) {
        size_t gone = 0;
        for (auto& e : docs) {
            bool same = e.name == name;
            for (auto& x : opts) { auto it = e.meta.find(x.first); same = same && it != e.meta.end() && it->second == value_of(x.second); }
            if (same) gone++; else rest.push_back(e);
        }
        return gone;
    }
    static string options_text(const STRING_MAP& m) { string s; for (auto& x : m) s += x.first + "=" + x.second + " "; return s; }
};
}  // namespace
