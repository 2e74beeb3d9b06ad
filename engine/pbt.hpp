// A small choice-sequence property-based testing engine (Hypothesis style).
//
// Every generated case is a sequence of bounded integer choices.  The choices come from a PRNG that is
// a pure function of (VERIF_SEED, property, case number); they are mirrored into shared memory while the
// case runs, so that a crash, a sanitizer report, an exception or a hang of the code under test can be
// replayed and shrunk exactly as an oracle mismatch can.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
    std::string msg;
};
struct Discard {
};

class Source;  // opaque

class Ctx {
public:
    explicit Ctx(Source* s) : src_(s) {}

    // ---- choices -------------------------------------------------------------------------------
    uint64_t below(uint64_t n);                  // uniform in [0, n), shrinks to 0; n == 0: all 64 bits
    int64_t range(int64_t lo, int64_t hi);       // uniform in [lo, hi], shrinks to lo
    bool chance(int percent);                    // true with the probability given, shrinks to false
    bool coin() { return chance(50); }
    int64_t integer(int64_t lo, int64_t hi);     // in [lo, hi], biased to small magnitudes and to the ends
    size_t len(size_t lo, size_t hi);            // a length, biased to be small, grows with size()
    double unit();                               // [0, 1)
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T>
    const T& pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    size_t weighted(std::initializer_list<int> w);  // index, with the weights given
    int size() const { return size_; }           // 1 .. 100, ramps up over the cases

    // ---- verdicts ------------------------------------------------------------------------------
    [[noreturn]] void fail(const std::string& msg);
    void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }
    template <class A, class B>
    void eq(const A& got, const B& want, const std::string& what) {
        if (!(got == want)) {
            std::ostringstream o;
            o.precision(17);
            o << what << ": got " << show(got) << ", expected " << show(want);
            fail(o.str());
        }
    }
    [[noreturn]] void discard();                 // case is outside the property's domain

    // ---- repetition: run the same choices again -------------------------------------------------
    size_t mark() const;                         // the place in the sequence of choices
    void rewind(size_t mark);                    // the choices from there on come again
    Source* source() const { return src_; }

    // ---- bookkeeping ---------------------------------------------------------------------------
    void label(const std::string& l) { labels.insert(l); }
    void nontrivial() { nontrivial_ = true; }    // by the rule stated with the property
    std::ostringstream& note();                  // description of the input, kept for samples/replays
    const std::string& dir();                    // a fresh scratch directory for this case
    const std::string& worker_dir() const;       // a scratch directory for this worker

    template <class T>
    static std::string show(const T& v) {
        std::ostringstream o;
        o.precision(17);
        o << v;
        return o.str();
    }
    static std::string show(const std::string& s);
    static std::string show(const signed char& s) { return std::to_string((int)s); }
    static std::string show(const unsigned char& s) { return std::to_string((int)s); }
    static std::string show(const char& s) { return std::to_string((int)s); }
    static std::string show(const std::wstring& s) {
        std::string r = "L\"";
        for (wchar_t w : s) r += (w >= 32 && w < 127) ? std::string(1, (char)w) : "\\u" + std::to_string((unsigned)w);
        return r + "\"";
    }
    template <class T>
    static std::string show(const std::vector<T>& v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) {
            if (i) r += ", ";
            if (i >= 40) { r += "... (" + std::to_string(v.size()) + ")"; break; }
            r += show(v[i]);
        }
        return r + "]";
    }

    std::set<std::string> labels;
    bool nontrivial_ = false;
    int size_ = 100;
    std::ostringstream notes;
    std::string dir_;

private:
    Source* src_;
};

struct Property {
    std::string id;
    std::string rule;            // what makes a case non-trivial
    uint64_t quick_cases;
    uint64_t thorough_cases;
    std::function<void(Ctx&)> run;
    std::vector<std::string> assumptions;
    int case_timeout = 30;       // seconds
    int max_workers = 8;
    std::function<void()> worker_init;
    // known findings: probe name -> returns true while the defect is still there
    std::map<std::string, std::function<bool(Ctx&)> > probes;
};

Property& add(const std::string& id, uint64_t quick, uint64_t thorough, const std::string& rule,
              std::function<void(Ctx&)> fn);

const Property* find_property(const std::string& id);
void wipe_dir(const std::string& d);             // of a case

struct Register {
    template <class F>
    explicit Register(F f) { f(); }
};

std::string format(const char* f, ...) __attribute__((format(printf, 1, 2)));

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_STATIC static pbt::Register PBT_CAT(pbt_reg_, __LINE__)
