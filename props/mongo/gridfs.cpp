// G03 values in BSON documents, G04 files in GridFS.
#include "common.hpp"
#include "db_mongoc.h"
#include "vals.hpp"
#include <ctime>

using namespace pbt;
using namespace ccgl;
using namespace ccgl::db_mongoc;
using std::string;
using std::vector;

namespace {
string gen_word(Ctx& c, const string& alphabet, size_t lo, size_t hi) {
    string s;
    for (size_t k = c.len(lo, hi); k > 0; k--) s += alphabet[c.below(alphabet.size())];
    return s;
}
string gen_number_text(Ctx& c) {
    switch (c.weighted({4, 2, 3, 2, 1})) {
    case 0: return std::to_string(c.integer(-100000, 100000));
    case 1: return std::to_string(c.integer(INT64_MIN / 4, INT64_MAX / 4));
    case 2: { std::ostringstream o; o.precision((int)c.range(1, 17)); o << c.integer(-1000000, 1000000) / c.pick({4., 10., 7., 1000.}); return o.str(); }
    case 3: { int64_t edge = c.pick({(int64_t)INT32_MAX, (int64_t)INT32_MIN, (int64_t)UINT32_MAX, (int64_t)1 << 53}); return std::to_string(edge + c.range(-2, 2)); }
    default: return c.pick({string("007"), string("1e3"), string("1.50"), string("-0"), string("+5"), string(".5"), string("5."), string("2.5e-3"), string("-1e20"), string("3.40282346639e+38"), string("18446744073709551615")});
    }
}
string gen_text(Ctx& c) {
    switch (c.weighted({3, 2, 3, 1})) {
    case 0: return gen_word(c, "abcXYZ_ -", 0, 6);
    case 1: return c.pick({string("TRUE"), string("FALSE"), string("true"), string("True"), string(""), string("x1"), string("1x"), string("1 2"), string("--1"), string("1e"), string("."), string("e5")});
    case 2: return gen_number_text(c);
    default: { string s = gen_number_text(c); return s + c.pick({string("m"), string(" "), string("."), string("-")}); }
    }
}
// ---- G03 ----------------------------------------------------------------------------------------------
struct Stored { int type; int32_t i32; int64_t i64; double d; string s; bool b; };
const char* kind[] = {"int32", "int64", "double", "text", "bool", "datetime", "null"};

Stored gen_value(Ctx& c) {
    Stored v = Stored();
    v.type = (int)c.weighted({3, 3, 4, 5, 1, 3, 1});
    v.i32 = (int32_t)c.integer(INT32_MIN, INT32_MAX);
    v.i64 = v.type == 5 ? (c.coin() ? c.integer(-3000000000LL, 3000000000LL) * 1000 + c.range(0, 999) : c.integer(-2000000, 2000000)) : c.integer(INT64_MIN, INT64_MAX);
    if (c.chance(20)) v.i32 = 0, v.i64 = 0;
    do { std::ostringstream o; v.d = strtod(gen_number_text(c).c_str(), nullptr); } while (v.d != 0 && std::fabs(v.d) < 1e-30);
    v.b = c.coin();
    if (v.type == 3) {
        if (c.chance(30)) {
            int y = (int)c.range(1900, 2100), m = (int)c.range(1, 12), d = (int)c.range(1, mdays(y, m));
            v.s = format("%04d-%02d-%02d", y, m, d);
            v.i64 = days_from_civil(y, m, d) * 86400;
            v.b = true;  // a date
            if (c.coin()) {
                int h = (int)c.range(0, 23), mi = (int)c.range(0, 59), s = (int)c.range(0, 59);
                v.s += format(" %02d:%02d:%02d", h, mi, s);
                v.i64 += h * 3600 + mi * 60 + s;
            }
        } else { v.s = gen_text(c); v.b = false; }
    }
    return v;
}
void append(bson_t* b, const string& key, const Stored& v) {
    switch (v.type) {
    case 0: BSON_APPEND_INT32(b, key.c_str(), v.i32); break;
    case 1: BSON_APPEND_INT64(b, key.c_str(), v.i64); break;
    case 2: BSON_APPEND_DOUBLE(b, key.c_str(), v.d); break;
    case 3: BSON_APPEND_UTF8(b, key.c_str(), v.s.c_str()); break;
    case 4: BSON_APPEND_BOOL(b, key.c_str(), v.b); break;
    case 5: BSON_APPEND_DATE_TIME(b, key.c_str(), v.i64); break;
    default: BSON_APPEND_NULL(b, key.c_str()); break;
    }
}
template <class T>
void numeric(Ctx& c, bson_t* b, const string& key, const Stored& v, const string& what, const char* tn) {
    T got = (T)77;
    bool ok = GetNumericFromBson(b, key.c_str(), got);
    double x = v.type == 0 ? v.i32 : v.type == 1 ? (double)v.i64 : v.type == 2 ? v.d : 0;
    bool number = v.type <= 2;
    if (v.type == 3) {
        number = literal(v.s);
        if (number) x = strtod(v.s.c_str(), nullptr);
        else if (v.s.find_first_of("0123456789") != string::npos) return;  // not a number, but partly: not judged
    }
    c.eq(ok, number, what + " is a number (" + tn + ")");
    if (!ok) { c.eq(got, (T)77, what + " as a number (" + tn + ") that it is not"); return; }
    if (std::is_integral<T>::value) {
        if (v.type == 1 && sizeof(T) == 8) { c.eq((int64_t)got, v.i64, what + " as " + tn); return; }
        if (!(x > (double)std::numeric_limits<T>::min() - 1 && x < (double)std::numeric_limits<T>::max())) return;
    }
    if (std::is_same<T, float>::value && std::fabs(x) > 3e38) return;
    if (v.type == 1 && std::is_same<T, float>::value) { c.eq(got, (T)v.i64, what + " as " + tn); return; }
    c.eq(got, (T)x, what + " as " + tn);
}
void g03(Ctx& c) {
    bson_t doc = BSON_INITIALIZER;
    std::map<string, Stored> want;
    for (size_t k = c.range(1, 4); k > 0; k--) {
        string key = gen_word(c, "ABCxyz_", 1, 5);
        if (want.count(key)) continue;
        want[key] = gen_value(c);
        append(&doc, key, want[key]);
    }
    STRING_MAP opts;
    for (size_t k = c.below(4); k > 0; k--) opts[gen_word(c, "KLM", 1, 3)] = gen_text(c);
    string prefix = c.coin() ? "" : "metadata.";
    AppendStringOptionsToBson(&doc, opts, prefix);
    for (auto& w : want) {
        const Stored& v = w.second;
        const string what = string("the ") + kind[v.type] + " " + (v.type == 0 ? std::to_string(v.i32) : v.type == 1 || v.type == 5 ? std::to_string(v.i64) : v.type == 2 ? format("%.17g", v.d) : v.type == 3 ? Ctx::show(v.s) : v.type == 4 ? (v.b ? "true" : "false") : "");
        c.note() << what << "; ";
        c.label(kind[v.type]);
        if (v.type != 6) c.nontrivial();
        numeric<int>(c, &doc, w.first, v, what, "int");
        numeric<int64_t>(c, &doc, w.first, v, what, "int64");
        numeric<float>(c, &doc, w.first, v, what, "float");
        numeric<double>(c, &doc, w.first, v, what, "double");
        string s = GetStringFromBson(&doc, w.first.c_str());
        if (v.type == 0) c.eq(s, std::to_string(v.i32), "text of " + what);
        else if (v.type == 1) c.eq(s, std::to_string(v.i64), "text of " + what);
        else if (v.type == 2) c.check(literal(s) && strtod(s.c_str(), nullptr) == v.d, "text of " + what + ": " + s);
        else if (v.type == 3) c.eq(s, v.s, "text of " + what);
        else c.eq(s, string(), "text of " + what);
        bool b = GetBoolFromBson(&doc, w.first.c_str());
        bool truth = false;
        if (v.type == 0) truth = v.i32 != 0;
        else if (v.type == 1) truth = v.i64 != 0;
        else if (v.type == 2) truth = v.d != 0;
        else if (v.type == 3) { string u = v.s; for (auto& ch : u) ch = (char)toupper(ch); truth = u == "TRUE"; }
        else if (v.type == 4) truth = v.b;
        c.eq(b, truth, "truth of " + what);
        if (v.type == 5) {
            int64_t sec = v.i64 / 1000 - (v.i64 % 1000 < 0);
            c.eq((int64_t)GetDatetimeFromBson(&doc, w.first.c_str()), sec, "instant of " + what);
        } else if (v.type == 3 && v.b) {
            c.label("date text");
            c.eq((int64_t)GetDatetimeFromBson(&doc, w.first.c_str()), v.i64, "instant of " + what);
        } else if (v.type != 3) c.eq((int64_t)GetDatetimeFromBson(&doc, w.first.c_str()), (int64_t)-1, "instant of " + what);
    }
    for (auto& o : opts) {
        Val v = value_of(o.second);
        string key = prefix + o.first;
        c.note() << "option " << Ctx::show(o.second) << "; ";
        c.label(v.number ? "numeric option" : "text option");
        bson_iter_t it;
        c.check(bson_iter_init_find(&it, &doc, key.c_str()), "option " + key + " is missing");
        c.eq((bool)BSON_ITER_HOLDS_NUMBER(&it), v.number, "option " + Ctx::show(o.second) + " is stored as a number");
        string s = GetStringFromBson(&doc, key.c_str());
        c.check(shows(s, v), "option " + Ctx::show(o.second) + " reads " + Ctx::show(s));
        double x = 0;
        if (v.number) { c.check(GetNumericFromBson(&doc, key.c_str(), x), "option without number"); c.eq(x, v.x, "number of option " + Ctx::show(o.second)); }
    }
    string none = "no such key";
    int z = 5;
    c.eq(GetNumericFromBson(&doc, none.c_str(), z), false, "number of a missing key");
    c.eq(z, 5, "number of a missing key");
    c.eq(GetStringFromBson(&doc, none.c_str()), string(), "text of a missing key");
    c.eq(GetBoolFromBson(&doc, none.c_str()), false, "truth of a missing key");
    c.eq((int64_t)GetDatetimeFromBson(&doc, none.c_str()), (int64_t)-1, "instant of a missing key");
    bson_destroy(&doc);
}

// ---- G04 ----------------------------------------------------------------------------------------------
struct Doc { string name, data; bool has_meta; std::map<string, Val> meta; };
string show(const STRING_MAP& m) {
    string s = "{";
    for (auto& x : m) s += x.first + "=" + Ctx::show(x.second) + " ";
    return s + "}";
}
void g04(Ctx& c) {
    fake::server.reset();
    const string db = "model", other = "other";
    vector<string> prefixes = {"SPATIAL"};
    if (c.coin()) prefixes.push_back(c.pick({string("SP.A"), string("a.b.c"), string("SP"), string("files"), string("x.chunks")}));
    std::map<string, vector<Doc> > model;
    vector<string> plain;
    for (size_t k = c.below(4); k > 0; k--) {
        string n = c.pick({string("PARAMETERS"), string("SPA.files"), string("b.chunks"), string("TIAL"), string("SPATIAL.x"), string("files"), string("files.chunks"), string("A.B"), string("SPA"), string("SPATIAL")});
        bool known = false;
        for (auto& p : plain) known = known || p == n;
        if (known) continue;
        plain.push_back(n);
        auto& v = fake::server.dbs[db].collections[n];
        for (uint64_t i = c.below(3); i > 0; i--) v.push_back("{}");
    }
    fake::server.dbs[other].collections["X"];
    MongoClient* client = MongoClient::Init("127.0.0.1", 27017);
    c.check(client != nullptr, "no client");
    vector<std::unique_ptr<MongoGridFs> > g;
    for (auto& p : prefixes) { g.emplace_back(client->GridFs(db, p)); model[p]; }
    vector<string> names = {"dem", "0_dem", "dem ", "slope_1"};
    vector<string> keys = {"A", "B", "INCLUDE_NODATA"};
    vector<string> texts = {"TRUE", "FALSE", "7", "7.0", "07", "2.5", "3000000000", "-1294967296", ""};
    texts.push_back(gen_text(c));
    auto options = [&](int most) {
        STRING_MAP m;
        for (int k = (int)c.range(0, most); k > 0; k--) m[c.pick(keys)] = c.pick(texts);
        return m;
    };
    auto matches = [&](const Doc& d, const string& name, const STRING_MAP& o) {
        if (d.name != name) return false;
        for (auto& x : o) {
            auto it = d.meta.find(x.first);
            if (it == d.meta.end() || !(it->second == value_of(x.second))) return false;
        }
        return true;
    };
    int steps = (int)c.range(2, 20), done = 0;
    for (int s = 0; s < steps; s++) {
        size_t gi = c.below(g.size());
        string prefix = prefixes[gi];
        vector<Doc>& docs = model[prefix];
        // either an object that knows its GridFS, or one that is told it for every call
        mongoc_gridfs_t* handle = g[gi]->GetGridFs();
        MongoGridFs loose;
        bool told = c.chance(30);
        MongoGridFs& fs = told ? loose : *g[gi];
        mongoc_gridfs_t* arg = told ? handle : nullptr;
        string name = c.pick(names);
        STRING_MAP o = options(2);
        if (!docs.empty() && c.chance(60)) {  // address an existing file
            const Doc& d = docs[c.below(docs.size())];
            name = d.name;
            o.clear();
            for (auto& x : d.meta) if (c.coin()) {
                string t = x.second.s;
                if (x.second.number) { std::ostringstream w; w.precision(17); w << x.second.x; t = w.str(); }
                o[x.first] = t;
            }
        }
        switch (c.weighted({5, 4, 2, 2, 1, 1})) {
        case 0: {
            Doc d;
            d.name = name;
            for (size_t k = c.len(0, 40); k > 0; k--) d.data += (char)c.below(256);
            d.has_meta = !c.chance(10);
            bson_t p = BSON_INITIALIZER;
            if (d.has_meta) { AppendStringOptionsToBson(&p, o); for (auto& x : o) d.meta[x.first] = value_of(x.second); }
            char* buf = new char[d.data.size()];
            memcpy(buf, d.data.data(), d.data.size());
            int fault = c.chance(20) ? (int)c.range(1, 2) : 0;
            if (fault == 1) fake::server.fail_write = 1;
            if (fault == 2) fake::server.fail_save = 1;
            c.note() << "write(" << prefix << "/" << name << " " << d.data.size() << " bytes " << (d.has_meta ? show(o) : "no metadata") << (fault ? " fault" : "") << ") ";
            bool ok = fs.WriteStreamData(name, buf, (vint)d.data.size(), d.has_meta ? &p : nullptr, arg);
            c.eq(ok, fault == 0, "result of writing");
            c.check(!memcmp(buf, d.data.data(), d.data.size()), "writing changed the data given");
            delete[] buf;
            bson_destroy(&p);
            if (ok) docs.push_back(d);
            if (fault) c.label("write fault");
            else c.label("write");
            done++;
            break;
        }
        case 1: {
            const Doc* want = nullptr;
            size_t n = 0;
            for (auto& d : docs) if (matches(d, name, o)) { if (!want) want = &d; n++; }
            int fault = want && c.chance(25) ? (int)c.range(1, 3) : 0;
            if (fault == 1) fake::server.fail_find = (int)c.range(1, 4);   // transient
            if (fault == 2) fake::server.fail_find = 5;
            if (fault == 3) fake::server.fail_read = 1;
            c.note() << "read(" << prefix << "/" << name << " " << show(o) << (fault ? format(" fault %d", fault) : "") << ") ";
            char* buf = (char*)1;
            vint len = -5;
            bool ok = fs.GetStreamData(name, buf, len, arg, o.empty() && c.coin() ? nullptr : &o);
            c.eq(ok, want && fault < 2, "result of reading data");
            if (ok) {
                c.eq(len, (vint)want->data.size(), "length of the data read");
                c.check(!memcmp(buf, want->data.data(), want->data.size()), "the data read are not those written");
                delete[] buf;
            } else c.check(buf == nullptr, "failed reading left a buffer");
            fake::server.fail_find = fake::server.fail_read = 0;
            if (n > 1) c.label("ambiguous name");
            if (fault) c.label("read fault");
            else c.label(want ? "read" : "missing");
            if (want && done > 1) c.nontrivial();
            break;
        }
        case 2: {
            const Doc* want = nullptr;
            for (auto& d : docs) if (matches(d, name, o)) { want = &d; break; }
            if (c.chance(30)) {
                // the file itself, by the GridFS the object has or was given
                mongoc_gridfs_file_t* f = fs.GetFile(name, arg, o);
                c.eq(f != nullptr, want != nullptr, "file found");
                if (f) {
                    c.eq(string(mongoc_gridfs_file_get_filename(f)), want->name, "name of the file found");
                    c.eq((size_t)mongoc_gridfs_file_get_length(f), want->data.size(), "length of the file found");
                    mongoc_gridfs_file_destroy(f);
                }
            }
            c.note() << "metadata(" << prefix << "/" << name << " " << show(o) << ") ";
            bson_t* m = fs.GetFileMetadata(name, arg, o);
            c.eq(m != nullptr, want && want->has_meta, "metadata found");
            if (m) {
                c.eq((size_t)bson_count_keys(m), want->meta.size(), "number of metadata");
                for (auto& x : want->meta) {
                    string t = GetStringFromBson(m, x.first.c_str());
                    c.check(shows(t, x.second), "metadata " + x.first + " reads " + Ctx::show(t));
                }
                bson_destroy(m);
            }
            c.label("metadata");
            break;
        }
        case 3: {
            bool fault = false;
            size_t n = 0;
            for (auto& d : docs) n += matches(d, name, o);
            if (n && c.chance(20)) { fault = true; if (c.coin()) fake::server.fail_find = 1; else fake::server.fail_remove = 1000; }
            c.note() << "remove(" << prefix << "/" << name << " " << show(o) << (fault ? " fault" : "") << ") ";
            bool ok = fs.RemoveFile(name, arg, o);
            c.eq(ok, !fault, "result of removing");
            fake::server.fail_find = fake::server.fail_remove = 0;
            if (ok) for (size_t i = 0; i < docs.size();) { if (matches(docs[i], name, o)) docs.erase(docs.begin() + (long)i); else i++; }
            if (n > 1) c.label("remove several");
            c.label(fault ? "remove fault" : n ? "remove" : "remove nothing");
            break;
        }
        case 4: {
            vector<string> got, want;
            for (auto& d : docs) want.push_back(d.name);
            if (c.coin()) fs.GetFileNames(got, arg);
            else client->GetGridFsFileNames(db, prefix, got);
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            c.eq(got, want, "names of files");
            c.label("names");
            break;
        }
        default: {
            vector<string> got;
            std::set<string> want(plain.begin(), plain.end()), have;
            for (auto& p : prefixes) { want.insert(p + ".files"); want.insert(p + ".chunks"); }
            std::set<string> all = want;
            for (auto& x : all) if (x.size() > 6 && x.substr(x.size() - 6) == ".files" && all.count(x.substr(0, x.size() - 6) + ".chunks")) want.insert(x.substr(0, x.size() - 6));
            bool direct = c.coin();
            if (c.chance(20)) {  // the server does not answer
                fake::server.fail_find = 1;
                if (direct) { string n = db; MongoDatabase d(client->GetConn(), n); d.GetCollectionNames(got); }
                else client->GetCollectionNames(db, got);
                fake::server.fail_find = 0;
                c.check(got.empty(), "collections of a server that does not answer");
                c.label("names fault");
            }
            got.assign(c.below(2), "old");
            if (direct) { string n = db; MongoDatabase d(client->GetConn(), n); d.GetCollectionNames(got); }
            else client->GetCollectionNames(db, got);
            have.insert(got.begin(), got.end());
            c.eq(vector<string>(have.begin(), have.end()), vector<string>(want.begin(), want.end()), "collections");
            // once each, or twice when a collection and a GridFS have the same name
            for (auto& x : have) c.check(std::count(got.begin(), got.end(), x) <= 1 + (all.count(x) && all.count(x + ".files") && all.count(x + ".chunks")), "collection " + x + " is named several times");
            got.clear();
            if (c.chance(20)) {
                fake::server.fail_find = 1;
                client->GetDatabaseNames(got);
                fake::server.fail_find = 1;
                MongoClient* none = MongoClient::Init("127.0.0.1", 27017);
                fake::server.fail_find = 0;
                c.check(got.empty(), "databases of a server that does not answer");
                c.check(none == nullptr, "client without a connection");
            }
            got.assign(1, "old");
            client->GetDatabaseNames(got);
            c.eq(got, vector<string>({db, other}), "databases");
            string coll = plain.empty() || c.coin() ? "nothing" : c.pick(plain);
            mongoc_collection_t* h = client->GetCollection(db, coll);
            c.eq(h != nullptr, all.count(coll) > 0, "collection found");
            if (h) {
                MongoCollection mc(h);
                c.eq(mc.QueryRecordsCount(), (vint)fake::server.dbs[db].collections[coll].size(), "records");
                fake::server.fail_find = 1;
                c.eq(mc.QueryRecordsCount(), (vint)-1, "records of a server that does not answer");
                fake::server.fail_find = 0;
                bson_t* q = BCON_NEW("name", BCON_UTF8(c.pick({"a", "b"}))), *opt = c.coin() ? BCON_NEW("limit", BCON_INT64(c.range(1, 5))) : nullptr;
                mongoc_cursor_t* cur = mc.ExecuteQuery(q, opt);
                c.check(cur != nullptr, "no cursor");
                char *tq = bson_as_canonical_extended_json(q, nullptr), *to = opt ? bson_as_canonical_extended_json(opt, nullptr) : nullptr;
                c.eq(cur->collection, db + "." + coll, "collection asked");
                c.eq(cur->filter, string(tq), "filter of the query");
                c.eq(cur->opts, string(to ? to : ""), "options of the query");
                bson_free(tq);
                bson_free(to);
                mongoc_cursor_destroy(cur);
                bson_destroy(q);
                if (opt) bson_destroy(opt);
            }
            c.label("collections");
            break;
        }
        }
        // all stored files are as expected
        for (size_t k = 0; k < prefixes.size(); k++) {
            auto& v = fake::server.files(db, prefixes[k]);
            auto& m = model[prefixes[k]];
            c.eq(v.size(), m.size(), "number of files stored in " + prefixes[k]);
            for (size_t i = 0; i < v.size(); i++) {
                c.eq(v[i]->name, m[i].name, "name of a stored file");
                c.check(v[i]->data == m[i].data, "a stored file has other data");
            }
        }
        c.eq(fake::server.error, string(), "misuse of the driver");
    }
    g.clear();
    client->Destroy();
    delete client;
    c.eq(fake::server.live, 0L, "driver objects that remain");
}

PBT_STATIC([] {
    auto& p = add("G03", 60000, 900000, "a document has a value that is not null", g03);
    p.worker_init = [] { setenv("TZ", "UTC", 1); tzset(); };
    p.assumptions = {"Texts that only contain a number, hexadecimal, infinite and not-a-number literals are not judged.", "Date texts are read in a process running in UTC."};
    auto& q = add("G04", 30000, 400000, "a file is read after at least two others were written", g04);
    q.assumptions = {"The MongoDB driver is replaced by an in-process stand-in with its documented behaviour; option names have no dots."};
});
}  // namespace
