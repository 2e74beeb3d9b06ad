// Repeating the cases of other properties must not use up memory or open files.
#pragma once
#include "common.hpp"
#include <dirent.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __lsan_do_recoverable_leak_check();

namespace leak {
struct Usage { size_t bytes; int files; };
inline int open_files() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) n++;
        closedir(d);
    }
    return n;
}
// the same case again: false when it was outside the domain or violates its own property
inline bool again(pbt::Ctx& c, const pbt::Property& p, size_t mark, bool first) {
    bool ok = true;
    if (!first) c.rewind(mark);
    {
        pbt::Ctx in(c.source());
        in.size_ = c.size_;
        try { p.run(in); }
        catch (const pbt::Failure&) { ok = false; }
        catch (const pbt::Discard&) { ok = false; }
        catch (const std::exception&) { ok = false; }
        if (first && ok) {
            if (in.nontrivial_) c.nontrivial();
            c.note() << p.id << ": " << in.notes.str();
        }
        pbt::wipe_dir(in.dir_);
    }
    return ok;
}
inline void property(pbt::Ctx& c, const std::vector<const char*>& ids) {
    const pbt::Property* p = pbt::find_property(ids[c.below(ids.size())]);
    c.label(p->id);
    size_t m = c.mark();
    if (!again(c, *p, m, true)) c.discard();
    const int N = 6;
    Usage u[N];
    int grown = 0, opened = 0;
    for (int i = 0; i < N; i++) {
        if (!again(c, *p, m, false)) c.discard();
        u[i].bytes = __sanitizer_get_current_allocated_bytes();
        u[i].files = open_files();
        if (i) {
            grown += u[i].bytes > u[i - 1].bytes;
            opened += u[i].files > u[i - 1].files;
            if (grown < i && opened < i) return;  // stable
        }
    }
    if (getenv("PBT_LSAN")) { freopen(getenv("PBT_LSAN"), "w", stderr); __lsan_do_recoverable_leak_check(); }
    if (opened == N - 1) c.fail(pbt::format("repeating the operations of a case of %s leaves %d more open files each time", p->id.c_str(), (u[N - 1].files - u[0].files) / (N - 1)));
    if (grown == N - 1) c.fail(pbt::format("repeating the operations of a case of %s uses %zu more bytes each time", p->id.c_str(), (u[N - 1].bytes - u[0].bytes) / (N - 1)));
}
inline void add(const char* id, uint64_t quick, uint64_t thorough, const std::string& what, std::vector<const char*> ids) {
    pbt::Property& p = pbt::add(id, quick, thorough, "a case of another property of " + what + ", run seven times; non-trivial as that case", [ids](pbt::Ctx& c) { property(c, ids); });
    p.worker_init = [ids] {
        for (auto i : ids) {
            const pbt::Property* q = pbt::find_property(i);
            if (q->worker_init) q->worker_init();
        }
    };
}
}  // namespace leak
