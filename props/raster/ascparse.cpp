// R07 texts read as ASC rasters completely or not at all.
#include "ras.hpp"

namespace {
struct Parsed {
    bool ok = false, judge = true;
    string why;
    int rows = -1, cols = -1;
    double dx = -1, xll = 0, yll = 0, nodata = 0;
    bool has_nodata = false, has_x = false, has_y = false, has_dx = false;
    vector<double> v;
};
// Hexadecimal numbers and words such as inf and nan are accepted by strtod(), but not specified
bool unspecified(const string& s) {
    size_t i = !s.empty() && (s[0] == '-' || s[0] == '+') ? 1 : 0;
    if (i >= s.size()) return false;
    char a = (char)tolower((unsigned char)s[i]);
    return a == 'i' || a == 'n' || (a == '0' && i + 1 < s.size() && tolower((unsigned char)s[i + 1]) == 'x');
}
bool literal(const string& s, double& x) {  // one complete decimal number
    size_t i = 0, n = 0;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
    while (i < s.size() && isdigit((unsigned char)s[i])) i++, n++;
    if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++, n++; }
    if (!n) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        i++;
        if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
        size_t k = i;
        while (i < s.size() && isdigit((unsigned char)s[i])) i++;
        if (k == i) return false;
    }
    if (i != s.size()) return false;
    x = strtod(s.c_str(), nullptr);
    return true;
}
Parsed parse(const string& text) {
    Parsed p;
    vector<string> lines;
    string cur;
    for (size_t i = 0; i <= text.size(); i++) {
        if (i < text.size() && text[i] != '\n') { cur += text[i]; continue; }
        size_t a = cur.find_first_not_of(" \t\r"), b = cur.find_last_not_of(" \t\r");
        if (a != string::npos && cur[a] != '#') lines.push_back(cur.substr(a, b - a + 1));
        cur.clear();
    }
    bool xc = false, yc = false, xm = false, ym = false;
    for (auto& l : lines) {
        std::istringstream is(l);
        vector<string> t;
        string w;
        while (is >> w) t.push_back(w);
        string k = t[0];
        for (auto& ch : k) if (ch >= 'a' && ch <= 'z') ch = (char)(ch - 32);
        bool key = k == "NCOLS" || k == "NROWS" || k == "XLLCENTER" || k == "XLLCORNER" || k == "YLLCENTER" || k == "YLLCORNER" || k == "CELLSIZE" || k == "NODATA_VALUE";
        if (key) {
            if (!p.v.empty()) { p.why = "header after data"; return p; }
            double x = 0;
            __int128 n = 0;
            if (k == "NCOLS" || k == "NROWS") {
                if (t.size() < 2 || !canonical_int(t[1], 0, INT_MAX, n)) { p.why = "size"; return p; }
                (k == "NCOLS" ? p.cols : p.rows) = (int)n;
                continue;
            }
            if (t.size() < 2 || !literal(t[1], x)) { p.judge = t.size() < 2 || !unspecified(t[1]); p.why = "header value"; return p; }
            if (k == "CELLSIZE") p.dx = x, p.has_dx = true;
            else if (k == "NODATA_VALUE") p.nodata = x, p.has_nodata = true;
            else if (k[0] == 'X') { p.xll = x; p.has_x = true; (k == "XLLCORNER" ? xc : xm) = true; }
            else { p.yll = x; p.has_y = true; (k == "YLLCORNER" ? yc : ym) = true; }
            continue;
        }
        if (p.rows <= 0 || p.cols <= 0) { p.why = "no size before the data"; return p; }
        if ((int64_t)p.rows * p.cols > 300000) {
            if ((int64_t)p.rows * p.cols <= INT_MAX) p.judge = false;  // needs too much memory to be tried
            p.why = "impossible size";
            return p;
        }
        for (auto& w2 : t) {
            double x;
            if (!literal(w2, x)) { p.judge = !unspecified(w2); p.why = "not a number"; return p; }
            p.v.push_back(x);
        }
    }
    if (p.v.empty() || (int64_t)p.v.size() != (int64_t)p.rows * p.cols) { p.why = "number of values"; return p; }
    if (!(p.dx > 0) || !p.has_x || !p.has_y) { p.why = "incomplete header"; return p; }
    if (lines.size() < 7) p.judge = p.has_nodata;  // without the NoData line less than seven lines may be too few
    if ((xc && xm) || (yc && ym)) { p.judge = false; return p; }
    if (lines.size() < 7) { p.why = "too few lines"; return p; }
    if (!std::isfinite(p.dx) || !std::isfinite(p.xll) || !std::isfinite(p.yll)) p.judge = false;
    if (xc) p.xll += 0.5 * p.dx;
    if (yc) p.yll += 0.5 * p.dx;
    p.ok = true;
    return p;
}
string number(Ctx& c, bool real) {
    switch (c.below(real ? 7 : 2)) {
        case 0: return std::to_string(c.range(0, 9));
        case 1: return std::to_string(c.range(-99, 99));
        case 2: return format("%.2f", (double)c.range(-900, 900) / 8);
        case 3: return format("%g", (double)c.range(-900, 900) * 1e7);
        case 4: return format("%de-%d", (int)c.range(-99, 99), (int)c.range(0, 3));
        case 5: return format("+%d.", (int)c.range(0, 99));
        default: return format(".%d", (int)c.range(0, 99));
    }
}
string word_case(Ctx& c, string k) {
    if (c.chance(40)) for (auto& ch : k) if (c.coin()) ch = (char)tolower(ch);
    return k;
}
string blank(Ctx& c, bool fancy) {
    if (!fancy) return " ";
    switch (c.below(4)) { case 0: return "  "; case 1: return "\t"; case 2: return "            "; default: return " "; }
}
string text_of(Ctx& c, bool real) {
    bool fancy = c.coin(), corner = c.coin();
    int rows = (int)c.len(1, 7), cols = (int)c.len(1, 7);
    string eol = c.chance(25) ? "\r\n" : "\n";
    vector<string> h;
    h.push_back(word_case(c, "NCOLS") + blank(c, fancy) + std::to_string(cols));
    h.push_back(word_case(c, "NROWS") + blank(c, fancy) + std::to_string(rows));
    h.push_back(word_case(c, corner ? "XLLCORNER" : "XLLCENTER") + blank(c, fancy) + number(c, true));
    h.push_back(word_case(c, corner != c.chance(10) ? "YLLCORNER" : "YLLCENTER") + blank(c, fancy) + number(c, true));
    h.push_back(word_case(c, "CELLSIZE") + blank(c, fancy) + c.pick({string("1"), string("30"), string("0.5"), string("2.5e1"), string("12.")}));
    h.push_back(word_case(c, "NODATA_VALUE") + blank(c, fancy) + c.pick({string("-9999"), string("0"), string("-9999.000000"), string("-32768")}));
    if (c.chance(30))
        for (size_t i = 5; i > 0; i--) std::swap(h[i], h[c.below(i + 1)]);
    if (c.chance(10)) h.erase(h.begin() + (long)c.below(h.size()));
    if (c.chance(5)) h.push_back(h[c.below(h.size())]);
    string s;
    for (auto& l : h) {
        s += l + eol;
        if (fancy && c.chance(10)) s += c.pick({string("# comment 1 2"), string("   "), string("")}) + eol;
    }
    int n = rows * cols, layout = (int)c.weighted({6, 1, 1, 1});
    if (c.chance(15)) n += c.coin() ? 1 : -1;
    for (int i = 0; i < n; i++) {
        s += number(c, real);
        bool end = layout == 0 ? (i + 1) % cols == 0 : layout == 1 ? i + 1 == n : layout == 2 ? true : c.coin();
        s += end ? (fancy && c.coin() ? " " : "") + eol : blank(c, fancy);
        if (end && fancy && c.chance(5)) s += c.pick({string("#"), string(" ")}) + eol;
    }
    if (c.chance(15) && !s.empty()) s.erase(s.find_last_not_of(" \r\n") + 1);
    return s;
}
void mutate(Ctx& c, string& s) {
    static const string alphabet = " \n\t-+.eE0123456789#abcNXL_\r\x80/";
    size_t n = c.weighted({0, 4, 2, 1});
    for (size_t k = 0; k < n && !s.empty(); k++) {
        size_t i = c.below(s.size());
        switch (c.below(6)) {
            case 0: s.erase(i, 1); break;
            case 1: s.insert(i, 1, c.pick(vector<char>(alphabet.begin(), alphabet.end()))); break;
            case 2: s[i] = c.pick(vector<char>(alphabet.begin(), alphabet.end())); break;
            case 3: s.resize(i); break;  // cut off
            case 4: {  // a line repeated, moved or removed
                size_t a = s.rfind('\n', i), b = s.find('\n', i);
                a = a == string::npos ? 0 : a + 1;
                if (b == string::npos) b = s.size() - 1;
                if (b < a) break;
                string l = s.substr(a, b - a + 1);
                int how = (int)c.below(3);
                if (how != 0) s.erase(a, b - a + 1);
                if (how != 1) { size_t q = c.below(s.size() + 1); q = s.rfind('\n', q); s.insert(q == string::npos ? 0 : q + 1, l); }
                break;
            }
            default: {  // another number in place of one
                size_t a = s.find_first_of("0123456789", i);
                if (a == string::npos) break;
                size_t b = s.find_first_not_of("0123456789", a);
                s.replace(a, (b == string::npos ? s.size() : b) - a, c.pick({string("0"), string("1"), string("2147483647"), string("2147483648"), string("65536"), string("4294967297"), string("99999999999999999999"), string("00"), string("2"), string("46341"), string("1e9")}));
            }
        }
    }
}
template <class T>
void reading(Ctx& c) {
    bool real = std::is_floating_point<T>::value || c.chance(20);
    string s = text_of(c, real);
    bool mutated = c.chance(60);
    if (mutated) mutate(c, s);
    Parsed p = parse(s);
    string path = c.dir() + "/f.asc";
    { std::ofstream f(path, std::ios::binary); f << s; }
    c.note() << tname<T>() << " " << Ctx::show(s) << (p.ok ? " readable" : " " + p.why);
    if (!p.judge && (p.rows <= 0 || p.cols <= 0 || (int64_t)p.rows * p.cols > 300000)) c.discard();
    c.note() << "";
    std::unique_ptr<clsRasterData<T> > r;
    int how = (int)c.weighted({6, 2, 2});
    bool ok;
    Grid<T> old;
    if (how == 0) {
        r.reset(clsRasterData<T>::Init(path, false));
        ok = (bool)r;
        if (ok) c.check(r->Initialized(), "raster returned although it is not initialized");
    } else if (how == 1) {  // into a raster that holds other data
        old = grid<T>(c, 1, 5);
        r = make_raster(old, false);
        c.note() << " into " << old.str();
        ok = r->ReadFromFile(path, false);
    } else {  // as the second layer
        old = grid<T>(c, 1, 5);
        old.nodata = (T)(sizeof(T) == 1 ? -128 : -9999);
        old.v[0][0] = (T)1;
        write_asc(c, c.dir() + "/one.asc", old, 0);
        vector<string> names{c.dir() + "/one.asc", path};
        r.reset(clsRasterData<T>::Init(names, false));
        ok = (bool)r;
    }
    if (!p.judge) { c.label("not judged"); return; }
    c.eq(ok, p.ok, p.ok ? "readable file is read" : "file is read (" + p.why + ")");
    c.label(p.ok ? mutated ? "readable, mutated" : "readable" : p.why);
    if (!p.ok) {
        if (mutated || !p.v.empty()) c.nontrivial();
        if (r) {  // a raster whose reading failed can be asked anything
            c.check(r->GetCellNumber() <= 0 || r->GetRasterDataPointer() != nullptr || r->Get2DRasterDataPointer() != nullptr, "cells without data after a failed reading");
            (void)r->GetValueByIndex(0);
        }
        return;
    }
    if (how == 2) { c.eq(r->GetLayers(), 2, "layers"); return; }
    c.eq(r->GetRows(), p.rows, "rows");
    c.eq(r->GetCols(), p.cols, "columns");
    c.eq(r->GetLayers(), 1, "layers");
    c.eq(r->GetCellNumber(), p.rows * p.cols, "cells");
    c.eq(r->GetCellWidth(), p.dx, "cell size");
    c.eq(r->GetXllCenter(), p.xll, "x of the lower left centre");
    c.eq(r->GetYllCenter(), p.yll, "y of the lower left centre");
    auto fits = [](double x) { return std::is_floating_point<T>::value ? std::fabs(x) < 1e37 : x > (double)std::numeric_limits<T>::min() - 1 && x < (double)std::numeric_limits<T>::max() + 1; };
    if (p.has_nodata && fits(p.nodata)) {
        c.eq(+r->GetNoDataValue(), +(T)p.nodata, "NoData");
        c.eq(r->GetRasterHeader().at(dr::HEADER_RS_NODATA), p.nodata, "NoData in the header");
    }
    for (int i = 0; i < p.rows * p.cols; i++)
        if (fits(p.v[i])) c.eq(+r->GetValue(i / p.cols, i % p.cols), +(T)p.v[i], format("cell %d", i));
    if (p.v.size() > 1) c.nontrivial();
}
void prop_asc(Ctx& c) {
    switch (c.below(4)) {
        case 0: reading<int32_t>(c); break;
        case 1: reading<float>(c); break;
        case 2: reading<double>(c); break;
        default: reading<int16_t>(c); break;
    }
}
PBT_STATIC([] {
    auto& a = add("R07", 150000, 4000000, "an ASC text in a random layout, often mutated; non-trivial when it has several values and is readable, or is to be refused after a mutation or after values", prop_asc);
    a.worker_init = gdal_init;
});
}  // namespace
