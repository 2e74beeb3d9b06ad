#include "fake.hpp"
#include <algorithm>
#include <cstring>
#include <unistd.h>

struct _mongoc_uri_t { std::string host; uint16_t port; };
struct _mongoc_client_t { int x; };
struct _mongoc_database_t { std::string name; };
struct _mongoc_collection_t { std::string db, name; };
struct _mongoc_gridfs_t { std::string db, prefix; };
struct _mongoc_gridfs_file_t {
    fake::File f;          // copy of the document (has_meta: own copy of the metadata)
    std::string db, prefix;
    bson_value_t idv;
    size_t pos = 0;
    bool failed = false, fresh = false;
};
struct _mongoc_gridfs_file_list_t { std::vector<mongoc_gridfs_file_t*> files; size_t next = 0; bool failed = false; };
struct FakeStream { mongoc_stream_t base; mongoc_gridfs_file_t* file; };

namespace fake {
Server server;
static void drop(File* f) { if (f->has_meta) bson_destroy(&f->meta); delete f; }
void Server::reset() {
    for (auto& d : dbs) for (auto& g : d.second.gridfs) for (auto* f : g.second) drop(f);
    dbs.clear();
    live = errors = 0;
    error.clear();
    fail_find = fail_read = fail_write = fail_save = fail_remove = 0;
    finds = writes = 0;
}
static void misuse(const char* what) { server.errors++; if (server.error.empty()) server.error = what; }
static bool take(int& n) { if (n > 0) { n--; return true; } return false; }
static void set_err(bson_error_t* e, const char* m) { if (e) { memset(e, 0, sizeof *e); e->domain = 1; e->code = 1; snprintf(e->message, sizeof e->message, "%s", m); } }

static bool numeric(const bson_iter_t* i) { return BSON_ITER_HOLDS_INT32(i) || BSON_ITER_HOLDS_INT64(i) || BSON_ITER_HOLDS_DOUBLE(i); }
static long double num(const bson_iter_t* i) { return BSON_ITER_HOLDS_DOUBLE(i) ? (long double)bson_iter_double(i) : (long double)bson_iter_as_int64(i); }
static bool equal(bson_iter_t* a, bson_iter_t* b) {
    if (numeric(a) && numeric(b)) { long double x = num(a), y = num(b); return x == y || (x != x && y != y); }
    if (bson_iter_type(a) != bson_iter_type(b)) return false;
    if (BSON_ITER_HOLDS_UTF8(a)) {
        uint32_t la, lb;
        const char* x = bson_iter_utf8(a, &la);
        const char* y = bson_iter_utf8(b, &lb);
        return la == lb && !memcmp(x, y, la);
    }
    if (BSON_ITER_HOLDS_BOOL(a)) return bson_iter_bool(a) == bson_iter_bool(b);
    if (BSON_ITER_HOLDS_OID(a)) return bson_oid_equal(bson_iter_oid(a), bson_iter_oid(b));
    if (BSON_ITER_HOLDS_DATE_TIME(a)) return bson_iter_date_time(a) == bson_iter_date_time(b);
    return false;
}
static bool matches(const File& f, const bson_t* filter) {
    bson_iter_t it;
    if (!bson_iter_init(&it, filter)) { misuse("invalid filter"); return false; }
    while (bson_iter_next(&it)) {
        std::string k = bson_iter_key(&it);
        if (k == "filename") {
            if (!BSON_ITER_HOLDS_UTF8(&it) || f.name != bson_iter_utf8(&it, nullptr)) return false;
        } else if (k.compare(0, 9, "metadata.") == 0) {
            bson_iter_t m;
            if (!f.has_meta || !bson_iter_init_find(&m, &f.meta, k.c_str() + 9) || !equal(&m, &it)) return false;
        } else return false;
    }
    return true;
}
static mongoc_gridfs_file_t* copy(const std::string& db, const std::string& prefix, const File& f) {
    mongoc_gridfs_file_t* r = new mongoc_gridfs_file_t;
    r->f = f;
    if (f.has_meta) bson_copy_to(&f.meta, &r->f.meta);
    r->db = db;
    r->prefix = prefix;
    r->idv.value_type = BSON_TYPE_OID;
    bson_oid_copy(&f.id, &r->idv.value.v_oid);
    server.live++;
    return r;
}
mongoc_gridfs_t* open(const std::string& db, const std::string& prefix) {
    server.dbs[db].gridfs[prefix];
    server.live++;
    return new mongoc_gridfs_t{db, prefix};
}
static char** names(const std::vector<std::string>& v) {
    char** r = (char**)bson_malloc0((v.size() + 1) * sizeof(char*));
    for (size_t i = 0; i < v.size(); i++) r[i] = bson_strdup(v[i].c_str());
    return r;
}
}  // namespace fake
using namespace fake;

extern "C" {
int usleep(useconds_t) { return 0; }  // CCGL waits before it tries again; no need to wait for the stand-in
void mongoc_init(void) {}
void mongoc_cleanup(void) {}
mongoc_uri_t* mongoc_uri_new_for_host_port(const char* h, uint16_t p) { server.live++; return new mongoc_uri_t{h, p}; }
void mongoc_uri_destroy(mongoc_uri_t* u) { if (u) { server.live--; delete u; } }
mongoc_client_t* mongoc_client_new_from_uri(const mongoc_uri_t*) { if (take(server.fail_find)) return nullptr; server.live++; return new mongoc_client_t{0}; }
void mongoc_client_destroy(mongoc_client_t* c) { if (c) { server.live--; delete c; } }
char** mongoc_client_get_database_names_with_opts(mongoc_client_t*, const bson_t*, bson_error_t* e) {
    if (take(server.fail_find)) { set_err(e, "network"); return nullptr; }
    std::vector<std::string> v;
    for (auto& d : server.dbs) v.push_back(d.first);
    return names(v);
}
mongoc_database_t* mongoc_client_get_database(mongoc_client_t*, const char* n) { server.live++; return new mongoc_database_t{n}; }
const char* mongoc_database_get_name(mongoc_database_t* d) { return d->name.c_str(); }
void mongoc_database_destroy(mongoc_database_t* d) { if (d) { server.live--; delete d; } }
static std::vector<std::string> collections(const std::string& db) {
    std::vector<std::string> v;
    auto it = server.dbs.find(db);
    if (it == server.dbs.end()) return v;
    for (auto& c : it->second.collections) v.push_back(c.first);
    for (auto& g : it->second.gridfs) { v.push_back(g.first + ".chunks"); v.push_back(g.first + ".files"); }
    return v;
}
bool mongoc_database_has_collection(mongoc_database_t* d, const char* n, bson_error_t* e) {
    if (e) memset(e, 0, sizeof *e);
    auto v = collections(d->name);
    return std::find(v.begin(), v.end(), n) != v.end();
}
char** mongoc_database_get_collection_names_with_opts(mongoc_database_t* d, const bson_t*, bson_error_t* e) { if (take(server.fail_find)) { set_err(e, "network"); return nullptr; } return names(collections(d->name)); }
mongoc_collection_t* mongoc_client_get_collection(mongoc_client_t*, const char* db, const char* n) { server.live++; return new mongoc_collection_t{db, n}; }
void mongoc_collection_destroy(mongoc_collection_t* c) { if (c) { server.live--; delete c; } }
static std::string json(const bson_t* b) {
    if (!b) return "";
    char* t = bson_as_canonical_extended_json(b, nullptr);
    std::string s = t ? t : "invalid";
    bson_free(t);
    return s;
}
mongoc_cursor_t* mongoc_collection_find_with_opts(mongoc_collection_t* c, const bson_t* filter, const bson_t* opts, const mongoc_read_prefs_t*) {
    server.live++;
    return new mongoc_cursor_t{c->db + "." + c->name, json(filter), json(opts)};
}
void mongoc_cursor_destroy(mongoc_cursor_t* c) { if (c) { server.live--; delete c; } }
int64_t mongoc_collection_count_documents(mongoc_collection_t* c, const bson_t* filter, const bson_t*, const mongoc_read_prefs_t*, bson_t*, bson_error_t* e) {
    if (take(server.fail_find)) { set_err(e, "network"); return -1; }
    auto& d = server.dbs[c->db];
    auto it = d.collections.find(c->name);
    if (it != d.collections.end()) return (int64_t)it->second.size();
    for (auto& g : d.gridfs) if (g.first + ".files" == c->name) return (int64_t)g.second.size();
    return 0;
}
mongoc_gridfs_t* mongoc_client_get_gridfs(mongoc_client_t*, const char* db, const char* prefix, bson_error_t* e) {
    if (take(server.fail_find)) { set_err(e, "network"); return nullptr; }
    return open(db, prefix);
}
void mongoc_gridfs_destroy(mongoc_gridfs_t* g) { if (g) { server.live--; delete g; } }
mongoc_gridfs_file_list_t* mongoc_gridfs_find_with_opts(mongoc_gridfs_t* g, const bson_t* filter, const bson_t*) {
    mongoc_gridfs_file_list_t* l = new mongoc_gridfs_file_list_t;
    server.live++;
    server.finds++;
    if (take(server.fail_find)) { l->failed = true; return l; }
    for (File* f : server.files(g->db, g->prefix)) if (matches(*f, filter)) l->files.push_back(copy(g->db, g->prefix, *f));
    return l;
}
mongoc_gridfs_file_t* mongoc_gridfs_file_list_next(mongoc_gridfs_file_list_t* l) {
    return l->next < l->files.size() ? l->files[l->next++] : nullptr;
}
bool mongoc_gridfs_file_list_error(mongoc_gridfs_file_list_t* l, bson_error_t* e) { if (l->failed) set_err(e, "network"); return l->failed; }
void mongoc_gridfs_file_list_destroy(mongoc_gridfs_file_list_t* l) {
    if (!l) return;
    while (l->next < l->files.size()) mongoc_gridfs_file_destroy(l->files[l->next++]);
    server.live--;
    delete l;
}
mongoc_gridfs_file_t* mongoc_gridfs_find_one_with_opts(mongoc_gridfs_t* g, const bson_t* filter, const bson_t* o, bson_error_t* e) {
    mongoc_gridfs_file_list_t* l = mongoc_gridfs_find_with_opts(g, filter, o);
    mongoc_gridfs_file_t* f = mongoc_gridfs_file_list_next(l);
    if (!mongoc_gridfs_file_list_error(l, e) && e) memset(e, 0, sizeof *e);
    mongoc_gridfs_file_list_destroy(l);
    return f;
}
mongoc_gridfs_file_t* mongoc_gridfs_create_file(mongoc_gridfs_t* g, mongoc_gridfs_file_opt_t* o) {
    File f;
    bson_oid_init(&f.id, nullptr);
    f.name = o && o->filename ? o->filename : "";
    f.type = o && o->content_type ? o->content_type : "";
    f.has_meta = o && o->metadata;
    if (f.has_meta) memcpy(&f.meta, o->metadata, sizeof(bson_t));
    mongoc_gridfs_file_t* r = copy(g->db, g->prefix, f);
    r->fresh = true;
    return r;
}
void mongoc_gridfs_file_destroy(mongoc_gridfs_file_t* f) {
    if (!f) return;
    if (f->f.has_meta) bson_destroy(&f->f.meta);
    server.live--;
    delete f;
}
ssize_t mongoc_gridfs_file_writev(mongoc_gridfs_file_t* f, const mongoc_iovec_t* iov, size_t n, uint32_t) {
    server.writes++;
    if (take(server.fail_write)) { f->failed = true; return -1; }
    ssize_t r = 0;
    for (size_t i = 0; i < n; i++) {
        if (iov[i].iov_len > (1u << 28)) { misuse("write of an absurd length"); f->failed = true; return -1; }
        f->f.data.append((const char*)iov[i].iov_base, iov[i].iov_len);
        r += (ssize_t)iov[i].iov_len;
    }
    return r;
}
bool mongoc_gridfs_file_save(mongoc_gridfs_file_t* f) {
    if (take(server.fail_save)) { f->failed = true; return false; }
    if (f->failed) return true;  // nothing dirty
    File* s = new File(f->f);
    if (s->has_meta) bson_copy_to(&f->f.meta, &s->meta);
    server.files(f->db, f->prefix).push_back(s);
    return true;
}
bool mongoc_gridfs_file_error(mongoc_gridfs_file_t* f, bson_error_t* e) { if (f->failed) set_err(e, "network"); return f->failed; }
bool mongoc_gridfs_file_remove(mongoc_gridfs_file_t* f, bson_error_t* e) {
    if (take(server.fail_remove)) { set_err(e, "network"); return false; }
    auto& v = server.files(f->db, f->prefix);
    for (size_t i = 0; i < v.size(); i++)
        if (bson_oid_equal(&v[i]->id, &f->f.id)) { drop(v[i]); v.erase(v.begin() + (long)i); break; }
    return true;
}
const bson_value_t* mongoc_gridfs_file_get_id(mongoc_gridfs_file_t* f) { return &f->idv; }
const char* mongoc_gridfs_file_get_filename(mongoc_gridfs_file_t* f) { return f->f.name.c_str(); }
const bson_t* mongoc_gridfs_file_get_metadata(mongoc_gridfs_file_t* f) { return f->f.has_meta ? &f->f.meta : nullptr; }
int64_t mongoc_gridfs_file_get_length(mongoc_gridfs_file_t* f) { return (int64_t)f->f.data.size(); }
mongoc_stream_t* mongoc_stream_gridfs_new(mongoc_gridfs_file_t* f) {
    FakeStream* s = new FakeStream();
    s->file = f;
    server.live++;
    return &s->base;
}
ssize_t mongoc_stream_readv(mongoc_stream_t* st, mongoc_iovec_t* iov, size_t n, size_t min_bytes, int32_t) {
    FakeStream* s = (FakeStream*)st;
    if (take(server.fail_read)) return -1;
    ssize_t r = 0;
    std::string& d = s->file->f.data;
    for (size_t i = 0; i < n; i++) {
        size_t k = std::min((size_t)iov[i].iov_len, d.size() - s->file->pos);
        if (k) memcpy(iov[i].iov_base, d.data() + s->file->pos, k);
        s->file->pos += k;
        r += (ssize_t)k;
    }
    return r;
}
void mongoc_stream_destroy(mongoc_stream_t* st) { if (st) { server.live--; delete (FakeStream*)st; } }
}
