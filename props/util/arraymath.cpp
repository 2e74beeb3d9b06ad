// A01 arrays, M01 statistics, M02 mathematics.
#include "common.hpp"
#include "utils_array.h"
#include "utils_math.h"
#include <omp.h>
#include <fstream>
using namespace pbt;
namespace ua = ccgl::utils_array;
namespace um = ccgl::utils_math;

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {
// ------------------------------------------------------------------------------------------------ A01
template <class T>
T value_of(Ctx& c) {
    if (std::is_floating_point<T>::value) return (T)(c.integer(-1000000, 1000000) / 64.);
    return (T)c.integer(std::numeric_limits<T>::min() < 0 ? -120 : 0, 120);
}
template <class T>
std::vector<T> values_of(Ctx& c, size_t n) {
    std::vector<T> v(n);
    for (auto& x : v) x = value_of<T>(c);
    return v;
}

template <class T, class U>
void one_d(Ctx& c) {
    int n = (int)c.len(1, 300);
    c.note() << "1D n=" << n << " ";
    if (n > 1) c.nontrivial();
    std::vector<U> src = values_of<U>(c, n);
    U init = value_of<U>(c);
    T* a = nullptr;
    c.check(ua::Initialize1DArray(n, a, init) && a != nullptr, "initialise a 1D array with one value");
    for (int i = 0; i < n; i++) c.eq(a[i], (T)init, format("element %d of an array of one value", i));
    T* keep = a;
    for (int i = 0; i < n; i++) a[i] = (T)src[i];
    c.check(!ua::Initialize1DArray(n, a, init) && a == keep, "an existing array must be left alone");
    c.check(!ua::Initialize1DArray(n, a, src.data()) && a == keep, "an existing array must be left alone");
    for (int i = 0; i < n; i++) c.eq(a[i], (T)src[i], format("element %d after a refused initialisation", i));
    T* b = nullptr;
    c.check(ua::Initialize1DArray(n, b, src.data()) && b != nullptr && (void*)b != (void*)src.data(), "initialise a 1D array from another");
    std::vector<U> orig = src;
    for (int i = 0; i < n; i++) c.eq(b[i], (T)src[i], format("element %d of a copied array", i));
    for (auto& x : src) x = (U)(x + 1);
    for (int i = 0; i < n; i++) c.eq(b[i], (T)orig[i], format("element %d of a copied array after its source changed", i));
    T* none = nullptr;
    int bad = -(int)c.below(3);
    c.check(!ua::Initialize1DArray(bad, none, init) && none == nullptr, "an array of no elements is refused and stays null");
    c.check(!ua::Initialize1DArray(bad, none, src.data()) && none == nullptr, "an array of no elements is refused and stays null");
    U* nosrc = nullptr;
    c.check(!ua::Initialize1DArray(n, none, nosrc) && none == nullptr, "an array without initial data is refused and stays null");
    if (c.coin()) {
        T* more[2] = {nullptr, nullptr};
        c.check(ua::Initialize1DArray(n, more[0], init) && ua::Initialize1DArray(1, more[1], init), "initialise a 1D array");
        size_t before = __sanitizer_get_current_allocated_bytes();
        switch (c.below(3)) {
        case 0: ua::BatchRelease1DArray(a, b, more[0], more[1], (T*)nullptr); break;
        case 1: ua::BatchRelease1DArray(a, b, more[0], (T*)nullptr); ua::BatchRelease1DArray(more[1], (T*)nullptr); break;
        default: ua::BatchRelease1DArray(a, b, (T*)nullptr); ua::BatchRelease1DArray(more[0], more[1], (T*)nullptr);
        }
        size_t freed = before - __sanitizer_get_current_allocated_bytes();
        c.check(a == nullptr, "released array must be null");
        c.check(freed >= (3 * n + 1) * sizeof(T), "arrays released together must be freed");
    } else {
        ua::Release1DArray(a);
        ua::Release1DArray(b);
        c.check(a == nullptr && b == nullptr, "released arrays must be null");
        ua::Release1DArray(a);
    }
}

template <class T, class U>
void two_d(Ctx& c) {
    int r = (int)c.len(1, 30), k = (int)c.len(1, 30);
    c.note() << "2D " << r << "x" << k << " ";
    if (r > 1 && k > 1) c.nontrivial();
    std::vector<std::vector<U>> src(r);
    std::vector<U*> ptr(r);
    for (int i = 0; i < r; i++) { src[i] = values_of<U>(c, k); ptr[i] = src[i].data(); }
    U init = value_of<U>(c);
    T** a = nullptr;
    c.check(ua::Initialize2DArray(r, k, a, init) && a != nullptr, "initialise a 2D array with one value");
    for (int i = 0; i < r; i++)
        for (int j = 0; j < k; j++) c.eq(a[i][j], (T)init, format("element %d,%d of a 2D array of one value", i, j));
    T** keep = a;
    c.check(!ua::Initialize2DArray(r, k, a, ptr.data()) && a == keep, "an existing 2D array must be left alone");
    T** b = nullptr;
    c.check(ua::Initialize2DArray(r, k, b, ptr.data()) && b != nullptr, "initialise a 2D array from another");
    for (int i = 0; i < r; i++)
        for (int j = 0; j < k; j++) c.eq(b[i][j], (T)src[i][j], format("element %d,%d of a copied 2D array", i, j));
    // rows are consecutive: the first row pointer addresses all elements (row-major)
    for (int i = 0; i < r * k; i++) c.eq(b[0][i], (T)src[i / k][i % k], format("element %d of the pool of a 2D array", i));
    // elements are distinct cells
    int wi = (int)c.below(r), wj = (int)c.below(k);
    T w = (T)(b[wi][wj] + 1);
    b[wi][wj] = w;
    for (int i = 0; i < r; i++)
        for (int j = 0; j < k; j++) c.eq(b[i][j], (i == wi && j == wj) ? w : (T)src[i][j], "element after writing one element");
    T** none = nullptr;
    int br = c.coin() ? -(int)c.below(2) : r, bk = br == r ? -(int)c.below(2) : k;
    c.check(!ua::Initialize2DArray(br, bk, none, init) && none == nullptr, "a 2D array of no elements is refused and stays null");
    ua::Release2DArray(none);
    c.check(none == nullptr, "an empty array stays empty when it is released");
    if (c.coin()) {
        size_t before = __sanitizer_get_current_allocated_bytes();
        ua::BatchRelease2DArray(r, a, b, (T**)nullptr);
        size_t freed = before - __sanitizer_get_current_allocated_bytes();
        c.check(a == nullptr, "released 2D array must be null");
        c.check(freed >= 2 * r * (k * sizeof(T) + sizeof(T*)), "2D arrays released together must be freed");
        return;
    }
    ua::Release2DArray(a);
    ua::Release2DArray(b);
    c.check(a == nullptr && b == nullptr, "released 2D arrays must be null");
    ua::Release2DArray(a);
}

template <class T, class U>
void irregular(Ctx& c) {
    int r = (int)c.len(1, 20);
    std::vector<U> flat(1, (U)r);
    std::vector<std::vector<U>> rows(r);
    int maxc = 0;
    for (int i = 0; i < r; i++) {
        int k = (int)c.len(i ? 0 : 0, 12);
        maxc = std::max(maxc, k);
        rows[i] = values_of<U>(c, k);
        flat.push_back((U)k);
        flat.insert(flat.end(), rows[i].begin(), rows[i].end());
    }
    c.note() << "irregular " << r << " rows, widest " << maxc << " ";
    if (r > 1) c.nontrivial();
    T** a = nullptr;
    int gr = -1, gc = -1;
    c.check(ua::Initialize2DArray(flat.data(), gr, gc, a) && a != nullptr, "initialise an irregular 2D array");
    c.eq(gr, r, "rows of an irregular array");
    c.eq(gc, maxc, "widest row of an irregular array");
    for (int i = 0; i < r; i++) {
        c.eq(a[i][0], (T)rows[i].size(), format("length of row %d of an irregular array", i));
        for (size_t j = 0; j < rows[i].size(); j++) c.eq(a[i][j + 1], (T)rows[i][j], format("value %d of row %d of an irregular array", (int)j, i));
    }
    ua::Release2DArray(a);
    c.check(a == nullptr, "released irregular array must be null");
}

template <class T>
void array2d(Ctx& c) {
    typedef ua::Array2D<T> A;
    typedef std::vector<std::vector<T>> M;
    struct Slot { A a; M m; bool moved; };
    std::vector<std::unique_ptr<Slot>> s;
    auto verify = [&](const char* what) {
        for (auto& x : s) {
            if (x->moved) continue;
            c.eq((size_t)x->a.get_rows(), x->m.size(), std::string("rows after ") + what);
            if (x->m.empty()) continue;
            c.eq((size_t)x->a.get_cols(), x->m[0].size(), std::string("columns after ") + what);
            const A& ca = x->a;
            for (size_t i = 0; i < x->m.size(); i++)
                for (size_t j = 0; j < x->m[0].size(); j++) {
                    c.eq(ca[(uint32_t)i][j], x->m[i][j], std::string("element after ") + what);
                    c.eq(x->a.data()[i][j], x->m[i][j], std::string("element (raw) after ") + what);
                }
        }
    };
    size_t steps = c.len(1, 25);
    if (steps > 2) c.nontrivial();
    for (size_t i = 0; i < steps; i++) {
        size_t op = s.empty() ? c.below(2) : c.below(9);
        Slot* x = s.empty() ? nullptr : s[c.below(s.size())].get();
        Slot* y = s.empty() ? nullptr : s[c.below(s.size())].get();
        if (op == 0) {
            uint32_t r = (uint32_t)c.len(1, 8), k = (uint32_t)c.len(1, 8);
            T v = c.chance(20) ? T() : value_of<T>(c);
            if (v == T() && c.coin()) s.emplace_back(new Slot{A(r, k), M(r, std::vector<T>(k, v)), false});
            else s.emplace_back(new Slot{A(r, k, v), M(r, std::vector<T>(k, v)), false});
            c.note() << "new(" << r << "," << k << ") ";
        } else if (op == 1) {
            s.emplace_back(new Slot{A(), M(), false});
            c.note() << "empty ";
        } else if (op == 2) {
            c.note() << "copy ";
            M m = x->moved ? M() : x->m;
            s.emplace_back(new Slot{A(x->a), m, x->moved});
        } else if (op == 3) {
            c.note() << "assign ";
            x->a = y->a;
            if (x != y) { x->m = y->m; x->moved = y->moved; }
        } else if (op == 4) {
            c.note() << "moveassign ";
            if (x != y) {
                x->a = std::move(y->a);
                x->m = y->m; x->moved = y->moved;
                y->moved = true;
            }
        } else if (op == 5) {
            c.note() << "move ";
            M m = x->m;
            bool mv = x->moved;
            s.emplace_back(new Slot{A(std::move(x->a)), m, mv});
            x->moved = true;
        } else if (op == 6) {
            uint32_t r = (uint32_t)c.len(1, 8), k = (uint32_t)c.len(1, 8);
            T v = value_of<T>(c);
            c.note() << "create(" << r << "," << k << ") ";
            x->a.create(r, k, v);
            x->m = M(r, std::vector<T>(k, v));
            x->moved = false;
        } else if (op == 7) {
            c.note() << "no elements ";
            uint32_t r = (uint32_t)c.below(3), k = r ? 0 : (uint32_t)c.below(3);
            bool refused = false;
            try { if (c.coin()) A none(r, k, value_of<T>(c)); else x->a.create(r, k, value_of<T>(c)); } catch (const std::invalid_argument&) { refused = true; }
            c.check(refused, format("an array object of %u x %u elements is not refused", r, k));
        } else {
            if (x->moved || x->m.empty()) continue;
            size_t r = c.below(x->m.size()), k = c.below(x->m[0].size());
            T v = value_of<T>(c);
            c.note() << "set ";
            x->a[(uint32_t)r][k] = v;
            x->m[r][k] = v;
        }
        verify("an operation");
    }
}

template <class T>
void vectors(Ctx& c) {
    std::vector<T> v(c.len(0, 40));
    for (auto& x : v) x = (T)c.below(6);
    T w = (T)c.below(7);
    c.note() << "vector " << Ctx::show(v) << " value " << Ctx::show(w);
    bool has = false;
    std::vector<T> want;
    for (auto& x : v) { if (x == w) has = true; else want.push_back(x); }
    if (has) c.nontrivial();
    c.eq(ua::ValueInVector(w, v), has, "ValueInVector");
    ua::RemoveValueInVector(w, v);
    c.eq(v, want, "vector after removing a value");
    c.eq(ua::ValueInVector(w, v), false, "ValueInVector after removal");
}

void prop_array(Ctx& c) {
    switch (c.below(11)) {
    case 0: one_d<double, float>(c); break;
    case 1: one_d<int, double>(c); break;
    case 2: one_d<unsigned char, int>(c); break;
    case 3: one_d<float, long long>(c); break;
    case 4: two_d<double, float>(c); break;
    case 5: two_d<short, int>(c); break;
    case 6: two_d<float, float>(c); break;
    case 7: if (c.coin()) irregular<float, float>(c); else irregular<int, double>(c); break;
    case 8: array2d<float>(c); break;
    case 9: array2d<int>(c); break;
    default: if (c.coin()) vectors<int>(c); else vectors<double>(c);
    }
}

// ------------------------------------------------------------------------------------------------ A02
void text_out(Ctx& c) {
    int r = (int)c.len(1, 12), k = (int)c.len(1, 12);
    bool one = c.coin();
    std::vector<std::vector<float>> v(r);
    std::vector<const float*> p(r);
    for (int i = 0; i < r; i++) { v[i] = values_of<float>(c, k); p[i] = v[i].data(); }
    std::string f = c.worker_dir() + "/a.txt";
    c.note() << "text output " << r << "x" << (one ? 1 : k) << " ";
    if (one) {
        std::vector<float> w;
        for (auto& x : v) w.push_back(x[0]);
        ua::Output1DArrayToTxtFile(r, w.data(), f.c_str());
    } else ua::Output2DArrayToTxtFile(r, k, p.data(), f.c_str());
    std::ifstream in(f);
    std::string line;
    int n = 0;
    while (std::getline(in, line)) {
        c.check(n < r, "more lines than rows");
        std::istringstream ls(line);
        float x;
        int j = 0;
        while (ls >> x) {
            c.check(j < (one ? 1 : k), "more values than columns");
            float want = v[n][j];
            c.check(std::fabs((double)x - want) <= 5.1e-6 * std::fabs((double)want), format("value %d,%d in the text file is %g, expected %g", n, j, x, want));
            j++;
        }
        c.eq(j, one ? 1 : k, "values in a line of the text file");
        n++;
    }
    c.eq(n, r, "lines of the text file");
    if (r > 1) c.nontrivial();
}


// white space as people write it
std::string gap(Ctx& c) { return c.pick<std::string>({" ", "\n", "\t", "  ", "\r\n", " \n "}); }
template <class T>
void text_in(Ctx& c) {
    bool one = c.coin();
    int r = (int)c.len(1, 12);
    std::vector<std::vector<T>> v(r);
    std::ostringstream o;
    o.precision(17);
    o << c.pick<std::string>({"rows", "n", "#", "ROWS:", "1", "3x"}) << gap(c) << r << gap(c);
    size_t most = 0;
    for (auto& x : v) {
        x = values_of<T>(c, one ? 1 : c.len(0, 12));
        most = std::max(most, x.size());
        if (!one) o << x.size() << gap(c);
        for (auto& y : x) o << y << gap(c);
    }
    std::string t = o.str();
    if (c.coin()) while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
    c.note() << "text input " << Ctx::show(t);
    if (r > 1) c.nontrivial();
    std::string f = c.worker_dir() + "/b.txt";
    int n = c.coin() ? -1 : 1000000;
    if (one) {
        { std::ofstream(f) << t; }
        T* a = nullptr;
        ua::Read1DArrayFromTxtFile(f.c_str(), n, a);
        c.eq(n, r, "number of values read from text");
        for (int i = 0; i < r; i++) c.eq(a[i], v[i][0], format("value %d read from text", i));
        ua::Release1DArray(a);
        c.label("1D in");
    } else {
        T** a = nullptr;
        if (c.coin()) {
            { std::ofstream(f) << t; }
            ua::Read2DArrayFromTxtFile(f.c_str(), n, a);
            c.label("2D in (file)");
        } else {
            ua::Read2DArrayFromString(t.c_str(), n, a);
            c.label("2D in (string)");
        }
        c.eq(n, r, "number of rows read from text");
        for (int i = 0; i < r; i++) {
            c.eq((double)a[i][0], (double)v[i].size(), format("length of row %d read from text", i));
            for (size_t j = 0; j < v[i].size(); j++) c.eq(a[i][j + 1], v[i][j], format("value %d,%d read from text", i, (int)j));
        }
        ua::Release2DArray(a);
    }
}
void text_bad(Ctx& c) {
    std::string t = c.pick<std::string>({"", "rows", "rows x", "rows 0", "rows -3", "rows none 4"}), f = c.worker_dir() + "/b.txt";
    bool missing = c.chance(30);
    c.note() << (missing ? "missing file" : "text input " + Ctx::show(t));
    if (missing) f = c.worker_dir() + "/no/such.txt";
    else { std::ofstream(f) << t; }
    int n = (int)c.range(-2, 5);
    float* a = nullptr;
    float** b = nullptr;
    ua::Read1DArrayFromTxtFile(f.c_str(), n, a);
    c.check(n == 0 && a == nullptr, "a 1D array of unreadable text must be empty");
    n = (int)c.range(-2, 5);
    if (missing || c.coin()) ua::Read2DArrayFromTxtFile(f.c_str(), n, b);
    else ua::Read2DArrayFromString(t.c_str(), n, b);
    c.check(n == 0 && b == nullptr, "a 2D array of unreadable text must be empty");
    c.label("unreadable");
}
void prop_text(Ctx& c) {
    switch (c.weighted({5, 3, 3, 1})) {
    case 0: text_out(c); c.label("out"); break;
    case 1: text_in<float>(c); break;
    case 2: if (c.coin()) text_in<int>(c); else text_in<double>(c); break;
    default: text_bad(c);
    }
}

// ------------------------------------------------------------------------------------------------ M01
template <class T>
struct Gen { static T get(Ctx& c, int mode) {
    typedef std::numeric_limits<T> L;
    if (std::is_floating_point<T>::value) {
        switch (mode) {
        case 0: return (T)c.integer(-1000, 1000);
        case 1: return (T)(c.integer(-100000000, 100000000) / 1024.);
        case 2: return (T)std::ldexp((double)c.range(1 << 20, 1 << 21) * (c.coin() ? 1 : -1), (int)c.range(-60, 60));
        default: return (T)(1e6 + c.range(0, 4096) / 4096.);
        }
    }
    int64_t lo = L::min() < 0 ? (sizeof(T) >= 8 ? -(1LL << 50) : (int64_t)L::min()) : 0, hi = sizeof(T) >= 8 ? (1LL << 50) : (int64_t)L::max();
    if (mode == 0) { lo = std::max<int64_t>(lo, -9); hi = std::min<int64_t>(hi, 9); }
    return (T)c.integer(lo, hi);
} };

struct Ref { int n = 0; long double sum = 0, mx = 0, mn = 0, absum = 0, m2 = 0, mean = 0; };
template <class T>
Ref reference(const std::vector<T>& v, T ex) {
    Ref r;
    for (T x : v) {
        if (x == ex) continue;
        long double d = (long double)x;
        if (!r.n) r.mx = r.mn = d;
        r.mx = std::max(r.mx, d); r.mn = std::min(r.mn, d);
        r.sum += d; r.absum += fabsl(d); r.n++;
    }
    if (r.n) {
        r.mean = r.sum / r.n;
        for (T x : v) if (!(x == ex)) r.m2 += ((long double)x - r.mean) * ((long double)x - r.mean);
    }
    return r;
}
void compare(Ctx& c, const Ref& r, double n, double mean, double mx, double mn, double sd, double range, const std::string& what) {
    c.eq(n, (double)r.n, what + ": number of valid values");
    if (!r.n) return;
    c.eq(mx, (double)r.mx, what + ": maximum");
    c.eq(mn, (double)r.mn, what + ": minimum");
    c.eq(range, (double)r.mx - (double)r.mn, what + ": range");
    long double tol = (r.n + 4) * 2.3e-16L * r.absum / r.n + 1e-300L;
    c.check(fabsl(mean - r.mean) <= tol, format("%s: mean %.17g, expected %.17Lg", what.c_str(), mean, r.mean));
    long double rsd = sqrtl(r.m2 / r.n);
    // the error of the mean enters the deviations: sqrt(s2 + tol^2) and rounding of the sum of squares
    long double stol = 4 * tol + (r.n + 8) * 2.3e-16L * rsd + 1e-9L * 0;
    stol += 4e-16L * std::max(fabsl(r.mx), fabsl(r.mn));
    c.check(fabsl(sd - rsd) <= stol, format("%s: standard deviation %.17g, expected %.17Lg (n=%d)", what.c_str(), sd, rsd, r.n));
}

template <class T>
void stats(Ctx& c) {
    int mode = (int)c.below(4), n = (int)c.len(1, 400), lyrs = (int)c.len(1, 5);
    T ex = c.coin() ? Gen<T>::get(c, mode) : (std::numeric_limits<T>::min() < 0 && sizeof(T) > 1 ? (T)-9999 : (T)99);
    int pex = (int)c.pick({0, 10, 50, 95, 100});
    std::vector<std::vector<T>> v(n, std::vector<T>(lyrs));
    for (auto& row : v) for (auto& x : row) x = c.chance(pex) ? ex : Gen<T>::get(c, mode);
    int threads = (int)c.pick({1, 2, 3, 8});
    c.note() << sizeof(T) << "-byte " << (std::is_floating_point<T>::value ? "float" : "int") << " n=" << n << " layers=" << lyrs << " mode=" << mode << " exclude=" << (double)ex
             << " (" << pex << "%) threads=" << threads << " first=" << Ctx::show(v[0]);
    c.label(format("exclude %d%%", pex));
    if (n > 2 && pex < 100) c.nontrivial();
    ccgl::SetOpenMPThread(threads);
    std::vector<const T*> p(n);
    for (int i = 0; i < n; i++) p[i] = v[i].data();
    double** d2 = nullptr;
    um::BasicStatistics((const T* const*)p.data(), n, lyrs, &d2, ex);
    for (int j = 0; j < lyrs; j++) {
        std::vector<T> col(n);
        for (int i = 0; i < n; i++) col[i] = v[i][j];
        Ref r = reference(col, ex);
        compare(c, r, d2[0][j], d2[1][j], d2[2][j], d2[3][j], d2[4][j], d2[5][j], format("layer %d", j + 1));
        double* d1 = nullptr;
        um::BasicStatistics(col.data(), n, &d1, ex);
        compare(c, r, d1[0], d1[1], d1[2], d1[3], d1[4], d1[5], "single layer");
        delete[] d1;
        T mx = col[0], mn = col[0];
        for (T x : col) { mx = std::max(mx, x); mn = std::min(mn, x); }
        c.eq(um::MaxInArray(col.data(), n), mx, "maximum in array");
        c.eq(um::MinInArray(col.data(), n), mn, "minimum in array");
        if (mode == 0 && (std::is_floating_point<T>::value || sizeof(T) >= 4)) {  // exact sums only
            T s = 0, si = 0;
            std::vector<int> idx(n);
            for (int i = 0; i < n; i++) { s = (T)(s + (col[i] == ex ? (T)0 : col[i])); idx[i] = (int)c.below(n); }
            std::vector<T> z = col;
            for (auto& x : z) if (x == ex) x = 0;
            for (int i : idx) si = (T)(si + z[i]);
            int* ip = idx.data();
            c.eq(um::Sum(n, z.data()), s, "sum of array");
            c.eq(um::Sum(n, ip, z.data()), si, "sum of indexed elements");
        }
    }
    for (int i = 0; i < 6; i++) delete[] d2[i];
    delete[] d2;
    omp_set_num_threads(2);
}
void prop_stats(Ctx& c) {
    switch (c.below(8)) {
    case 0: stats<float>(c); break;
    case 1: stats<double>(c); break;
    case 2: stats<int>(c); break;
    case 3: stats<signed char>(c); break;
    case 4: stats<unsigned char>(c); break;
    case 5: stats<short>(c); break;
    case 6: stats<unsigned>(c); break;
    default: stats<long>(c);
    }
}

// ------------------------------------------------------------------------------------------------ M02
// exact up to the last digits of the type
template <class T>
void near(Ctx& c, T got, T want, const char* what) {
    double tol = std::is_same<T, float>::value ? 3e-7 : 1e-15;
    if (!(got == want || std::fabs((double)got - want) <= tol * std::fabs((double)want) + 1e-300)) c.eq(got, want, what);
}
void prop_math(Ctx& c) {
    struct R { uint64_t s; double unit() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) * 0x1p-53; } };
    // a case is a batch: a start point and a sweep expanded from one choice
    R r{c.below(0) | 1};
    int what = (int)c.below(7);
    int n = (int)c.len(1, 256);
    double lo = c.unit(), width = c.pick({1., 0.1, 0.001, 1e-6});
    c.note() << "function " << what << " batch of " << n << " start " << lo << " width " << width << " stream " << r.s;
    c.label(format("function %d", what));
    if (n > 1) c.nontrivial();
    for (int i = 0; i < n; i++) {
        double u = std::fmod(lo + width * r.unit(), 1.0), w = r.unit();
        switch (what) {
        case 0: {
            float z = std::ldexp((float)(1 + u), (int)(w * 245) - 120);
            double t = std::sqrt((double)z);
            c.check(std::fabs(um::ApprSqrt(z) / t - 1) < 3e-7, format("approximate sqrt(%.9gf) = %.9g, expected %.9g", z, um::ApprSqrt(z), t));
            near(c, um::CalSqrt(z), std::sqrt(z), "sqrt");
            break;
        }
        case 1: {
            double z = std::ldexp(1 + u, (int)(w * 2000) - 1000), t = std::sqrt(z);
            c.check(std::fabs(um::ApprSqrt(z) / t - 1) < 1e-10, format("approximate sqrt(%.17g) = %.17g, expected %.17g", z, um::ApprSqrt(z), t));
            near(c, um::CalSqrt(z), t, "sqrt");
            break;
        }
        case 2: {
            float z = std::ldexp((float)(1 + u), (int)(w * 245) - 120);
            c.check(std::fabs(um::ApprLn(z) - std::log((double)z)) < 5e-4, format("approximate ln(%.9gf) = %.9g, expected %.9g", z, um::ApprLn(z), std::log((double)z)));
            near(c, um::CalLn(z), std::log(z), "ln");
            break;
        }
        case 3: {
            double z = std::ldexp(1 + u, (int)(w * 2000) - 1000);
            c.check(std::fabs(um::ApprLn(z) - std::log(z)) < 5e-4, format("approximate ln(%.17g) = %.17g, expected %.17g", z, um::ApprLn(z), std::log(z)));
            near(c, um::CalLn(z), std::log(z), "ln");
            break;
        }
        case 4: {
            double x = u * 86 - 43;
            float xf = (float)x;
            c.check(std::fabs(um::ApprExp(x) / std::exp(x) - 1) < 1e-5, format("approximate exp(%.17g) = %.17g, expected %.17g", x, um::ApprExp(x), std::exp(x)));
            c.check(std::fabs(um::ApprExp(xf) / std::exp((double)xf) - 1) < 1e-5, format("approximate exp(%.9gf) = %.9g, expected %.9g", xf, um::ApprExp(xf), std::exp((double)xf)));
            near(c, um::CalExp(x), std::exp(x), "exp");
            break;
        }
        case 5: {
            float a = std::ldexp((float)(1 + u), (int)(w * 60) - 30), b = (float)(r.unit() * 16 - 8);
            if (r.unit() < 0.3) b = (float)(int)b;
            double t = std::pow((double)a, (double)b);
            if (!(t > 1e-36 && t < 1e36)) break;
            float g = um::ApprPow(a, b);
            c.check(g > 0 && std::fabs(g / t - 1) < 2e-4 + 5e-4 * std::fabs(b), format("approximate %.9g ^ %.9g = %.9g, expected %.9g", a, b, g, t));
            float lb = (float)((w - 0.5) * 40);  // the power of a number given by its logarithm
            if (std::fabs((double)lb * b) < 80) {
                double want = std::exp((double)lb * b), got = um::pow_lookup(b, lb);
                c.check(std::fabs(got / want - 1) < 2e-4, format("power %.9g of the number whose logarithm is %.9g = %.9g, expected %.9g", b, lb, got, want));
            }
            near(c, (float)um::CalPow(a, b), (float)std::pow((double)a, (double)b), "pow");
            break;
        }
        default: {
            float x = (float)((u - 0.5) * 400), up = (float)(int)(w * 40), low = -(float)(int)(r.unit() * 40);
            double e = std::exp((double)std::min(std::max(x, low), up));
            double g = um::Expo(x, up, low), gd = um::Expo(x), ed = std::exp((double)std::min(std::max(x, -20.f), 20.f));
            c.check(std::fabs(g / e - 1) < 1e-5, format("limited exp of %.9g in [%g, %g] = %.9g, expected %.9g", x, low, up, g, e));
            c.check(std::fabs(gd / ed - 1) < 1e-5, format("limited exp of %.9g = %.9g, expected %.9g", x, gd, ed));
            float base = (float)((w - 0.5) * 100), ex = (float)(r.unit() * 8 - 2);
            if (base == 0) break;
            double t = std::pow(std::fabs((double)base), (double)ex) * (base < 0 ? -1 : 1);
            c.check(std::fabs(um::Power(base, ex) / t - 1) < 1e-5, format("signed power %.9g ^ %.9g = %.9g, expected %.9g", base, ex, um::Power(base, ex), t));
            // equality used throughout for no-data comparisons
            double v = (double)base * 3, o = std::nextafter(v, u < 0.5 ? 1e9 : -1e9);
            c.check(um::FloatEqual(v, v) && um::FloatEqual((float)base, (double)base) && !um::FloatEqual(v, o) && !um::FloatEqual(o, v), format("equality of %.17g and %.17g", v, o));
            c.check(um::FloatEqual((int)base, (double)(int)base) && !um::FloatEqual((int)base, (int)base + 1), "equality of integers");
        }
        }
    }
}

PBT_STATIC([] {
    add("A01", 250000, 6000000, "one of: 1D/2D/irregular array initialised, refused, copied and released in several type pairs, a history of 1-25 copies, moves, assignments and writes of array objects, or value removal; non-trivial from two elements or three steps on", prop_array);
    add("A02", 60000, 2000000, "an array of up to 12x12 values written to a text file, or a text of one (any white space, rows of any lengths) read as file or string, or an unreadable text; non-trivial from two rows on", prop_text);
    add("M01", 60000, 1500000, "1-400 values in 1-5 layers of eight element types with 0-100 % excluded, 1-8 threads; non-trivial with three or more values not all excluded", prop_stats);
    add("M02", 100000, 3000000, "a batch of 1-256 arguments of one of seven function families; non-trivial from two arguments on", prop_math);
});
}  // namespace
