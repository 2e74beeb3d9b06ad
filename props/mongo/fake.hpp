// An in-process stand-in for the MongoDB driver (libmongoc), with the documented behaviour of the
// functions CCGL uses.  Documents are real BSON (libbson).  Faults can be scheduled.
#pragma once
#include <mongoc.h>
#include <map>
#include <string>
#include <vector>

struct _mongoc_cursor_t { std::string collection, filter, opts; };

namespace fake {
struct File {
    bson_oid_t id;
    std::string name, type, data;
    bool has_meta = false;
    bson_t meta;
};
struct Db {
    std::map<std::string, std::vector<File*> > gridfs;     // by prefix
    std::map<std::string, std::vector<std::string> > collections;
};
struct Server {
    std::map<std::string, Db> dbs;
    long live = 0;         // driver objects that are not destroyed
    long errors = 0;       // violations of the driver's contract by the caller
    std::string error;
    // faults: number of the next calls that fail
    int fail_find = 0, fail_read = 0, fail_write = 0, fail_save = 0, fail_remove = 0;
    long finds = 0, writes = 0;
    void reset();
    std::vector<File*>& files(const std::string& db, const std::string& prefix) { return dbs[db].gridfs[prefix]; }
};
extern Server server;
mongoc_gridfs_t* open(const std::string& db, const std::string& prefix);
}  // namespace fake
