#include "common.hpp"
#include <omp.h>
#include <time.h>
#include <unistd.h>
#include "utils_string.h"
#include "utils_array.h"
#include "basic.h"
#include <charconv>
#include <clocale>

using namespace pbt;
using namespace ccgl;
namespace us = ccgl::utils_string;

namespace {
const __int128 I64MIN = std::numeric_limits<int64_t>::min(), I64MAX = std::numeric_limits<int64_t>::max();
const __int128 U64MAX = std::numeric_limits<uint64_t>::max();

__int128 gen_big(Ctx& c) {
    switch (c.weighted({3, 3, 2, 2})) {
    case 0: return c.integer(INT64_MIN, INT64_MAX);
    case 1: {  // around a power of two or of ten
        __int128 p = 1;
        if (c.coin()) p <<= c.below(67);
        else for (uint64_t k = c.below(21); k > 0; k--) p *= 10;
        p += c.range(-2, 2);
        return c.coin() ? -p : p;
    }
    case 2: return (__int128)c.below(0);
    default: {
        __int128 p = 0;
        for (size_t k = 1 + c.below(22); k > 0; k--) p = p * 10 + (int)c.below(10);
        return c.chance(30) ? -p : p;
    }
    }
}

std::string mutate_num(Ctx& c, std::string s) {
    static const std::string extra = " +-.0123456789xXeEaAfF,;\t\n\rlLuU_'";
    switch (c.below(9)) {
    case 0: { size_t at = c.below(s.size() + 1); return s.substr(0, at) + extra[c.below(extra.size())] + s.substr(at); }
    case 1: { if (s.empty()) return s; size_t at = c.below(s.size()); return s.substr(0, at) + s.substr(at + 1); }
    case 2: return "+" + s;
    case 3: return (s.size() && s[0] == '-') ? "-0" + s.substr(1) : "0" + s;
    case 4: return " " + s;
    case 5: return s + c.pick({" ", "\n", ".", ".0", "e0", "L", "a", "\t"});
    case 6: return "-" + s;
    case 7: return c.pick({"", "-", "+", " ", "0x10", "--1", "-0", "00", "+0", "abc", "1 2", "\t1", "1,000", "NaN", "inf"});
    default: { if (s.empty()) return s; std::string t = s; t[c.below(t.size())] = extra[c.below(extra.size())]; return t; }
    }
}

template <class V, class F>
void recog(Ctx& c, const std::string& text, __int128 lo, __int128 hi, const char* who, F f) {
    __int128 want = 0;
    bool ok = canonical_int(text, lo, hi, want);
    bool got = !ok;
    V v = f(got);
    c.check(got == ok, std::string(who) + " on " + Ctx::show(text) + (ok ? " is not recognised" : " is taken for an integer"));
    if (ok) c.check((__int128)v == want, std::string(who) + " on " + Ctx::show(text) + " returns " + dec_i((__int128)v));
}

void prop_int(Ctx& c) {
    __int128 b = gen_big(c);
    if (b >= I64MIN && b <= I64MAX) {
        int64_t v = (int64_t)b;
        std::string d = dec_i(b);
        c.eq(us::itoa(v), d, "signed narrow text");
        c.eq(us::i64toa(v), d, "signed 64-bit narrow text");
        c.eq(us::itow(v), widen(d), "signed wide text");
        c.eq(us::i64tow(v), widen(d), "signed 64-bit wide text");
        c.eq(us::ToInt(us::itoa(v)), v, "signed round trip");
        c.eq(us::ToInt64(us::i64toa(v)), v, "signed 64-bit round trip");
        c.eq(us::ToInt(us::itow(v)), v, "signed wide round trip");
        c.eq(us::ToInt64(us::i64tow(v)), v, "signed 64-bit wide round trip");
        c.label("signed");
    }
    if (b >= 0 && b <= U64MAX) {
        uint64_t v = (uint64_t)b;
        std::string d = dec_u((unsigned __int128)b);
        c.eq(us::utoa(v), d, "unsigned narrow text");
        c.eq(us::u64toa(v), d, "unsigned 64-bit narrow text");
        c.eq(us::utow(v), widen(d), "unsigned wide text");
        c.eq(us::u64tow(v), widen(d), "unsigned 64-bit wide text");
        c.eq(us::ToUInt(us::utoa(v)), v, "unsigned round trip");
        c.eq(us::ToUInt64(us::u64toa(v)), v, "unsigned 64-bit round trip");
        c.eq(us::ToUInt(us::utow(v)), v, "unsigned wide round trip");
        c.eq(us::ToUInt64(us::u64tow(v)), v, "unsigned 64-bit wide round trip");
        c.label("unsigned");
    }
    // the formatting functions with a buffer of the caller
    {
        const size_t N = 32;
        char a[N];
        wchar_t w[N];
        if (b >= INT32_MIN && b <= INT32_MAX) {
            us::_itoa_s((int32_t)b, a, N, 10); c.eq(std::string(a), dec_i(b), "signed 32-bit text in a buffer");
            us::_itow_s((int32_t)b, w, N, 10); c.eq(std::wstring(w), widen(dec_i(b)), "signed 32-bit wide text in a buffer");
            c.eq(us::ValueToString((int)b), dec_i(b), "signed 32-bit value as text");
        }
        if (b >= 0 && b <= UINT32_MAX) {
            us::_uitoa_s((uint32_t)b, a, N, 10); c.eq(std::string(a), dec_i(b), "unsigned 32-bit text in a buffer");
            us::_uitow_s((uint32_t)b, w, N, 10); c.eq(std::wstring(w), widen(dec_i(b)), "unsigned 32-bit wide text in a buffer");
            c.eq(us::ValueToString((uint32_t)b), dec_i(b), "unsigned 32-bit value as text");
        }
        if (b >= I64MIN && b <= I64MAX) {
            us::_i64toa_s((int64_t)b, a, N, 10); c.eq(std::string(a), dec_i(b), "signed 64-bit text in a buffer");
            us::_i64tow_s((int64_t)b, w, N, 10); c.eq(std::wstring(w), widen(dec_i(b)), "signed 64-bit wide text in a buffer");
            c.eq(us::ValueToString((int64_t)b), dec_i(b), "signed 64-bit value as text");
        }
        if (b >= 0 && b <= U64MAX) {
            us::_ui64toa_s((uint64_t)b, a, N, 10); c.eq(std::string(a), dec_i(b), "unsigned 64-bit text in a buffer");
            us::_ui64tow_s((uint64_t)b, w, N, 10); c.eq(std::wstring(w), widen(dec_i(b)), "unsigned 64-bit wide text in a buffer");
            c.eq(us::ValueToString((uint64_t)b), dec_i(b), "unsigned 64-bit value as text");
        }
    }
    std::string t = dec_i(b);
    int muts = (int)c.weighted({5, 4, 1});
    for (int i = 0; i < muts; i++) t = mutate_num(c, t);
    c.note() << "text " << Ctx::show(t);
    __int128 dummy;
    bool can = canonical_int(t, I64MIN, I64MAX, dummy);
    c.label(can ? "canonical" : "not-canonical");
    if (t != "0" && !t.empty()) c.nontrivial();
    std::wstring w = widen(t);
    recog<int64_t>(c, t, I64MIN, I64MAX, "signed recogniser", [&](bool& s) { return us::IsInt(t, s); });
    recog<int64_t>(c, t, I64MIN, I64MAX, "signed wide recogniser", [&](bool& s) { return us::IsInt(w, s); });
    recog<int64_t>(c, t, I64MIN, I64MAX, "signed 64-bit recogniser", [&](bool& s) { return us::IsInt64(t, s); });
    recog<int64_t>(c, t, I64MIN, I64MAX, "signed 64-bit wide recogniser", [&](bool& s) { return us::IsInt64(w, s); });
    recog<uint64_t>(c, t, 0, U64MAX, "unsigned recogniser", [&](bool& s) { return us::IsUInt(t, s); });
    recog<uint64_t>(c, t, 0, U64MAX, "unsigned wide recogniser", [&](bool& s) { return us::IsUInt(w, s); });
    recog<uint64_t>(c, t, 0, U64MAX, "unsigned 64-bit recogniser", [&](bool& s) { return us::IsUInt64(t, s); });
    recog<uint64_t>(c, t, 0, U64MAX, "unsigned 64-bit wide recogniser", [&](bool& s) { return us::IsUInt64(w, s); });
}

// ---- floating point text ------------------------------------------------------------------------------
double gen_double(Ctx& c) {
    switch (c.weighted({3, 3, 2, 2, 1})) {
    case 0: return (double)c.integer(-1000000, 1000000) / c.pick({1.0, 2.0, 10.0, 100.0, 1000.0, 1e6, 1e7, 3.0});
    case 1: {
        double m = c.unit() * 2 - 1;
        return std::ldexp(m, (int)c.range(-40, 60));
    }
    case 2: return (double)c.integer(INT64_MIN, INT64_MAX);
    case 3: { double v = std::ldexp(c.unit() * 2 - 1, (int)c.range(-1000, 1000)); return v; }
    default: return c.pick({0.0, -0.0, 0.5e-6, 1e-6, -1e-6, 0.9999995, 9.9999999, 1e15, 1e22, 123456789.123456, 1e308, -1e308, 100.0, 0.1});
    }
}

bool plain_float_text(const std::string& s) {  // -?digits[.digits], no redundant zero at the end, no bare dot
    size_t i = 0;
    if (i < s.size() && s[i] == '-') i++;
    size_t d = i;
    while (i < s.size() && isdigit((unsigned char)s[i])) i++;
    if (i == d) return false;
    if (s[d] == '0' && i - d > 1) return false;
    if (i == s.size()) return true;
    if (s[i] != '.') return false;
    i++;
    d = i;
    while (i < s.size() && isdigit((unsigned char)s[i])) i++;
    return i == s.size() && i > d && i - d <= 6 && s.back() != '0';
}

// decimal floating-point literal; returns false when the text is not one
bool float_literal(const std::string& s, double& v, bool& in_range) {
    size_t i = 0;
    std::string body;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) { if (s[i] == '-') body = "-"; i++; }
    size_t nd = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) { body += s[i++]; nd++; }
    if (i < s.size() && s[i] == '.') {
        body += s[i++];
        while (i < s.size() && isdigit((unsigned char)s[i])) { body += s[i++]; nd++; }
    }
    if (!nd) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        i++;
        std::string ex = "e";
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) { if (s[i] == '-') ex += "-"; i++; }
        size_t d = 0;
        while (i < s.size() && isdigit((unsigned char)s[i])) { ex += s[i++]; d++; }
        if (!d) return false;
        body += ex;
    }
    if (i != s.size()) return false;
    if (body[0] == '.') body = "0" + body;
    if (body.compare(0, 2, "-.") == 0) body = "-0" + body.substr(1);
    auto r = std::from_chars(body.data(), body.data() + body.size(), v);
    in_range = r.ec == std::errc();
    return true;
}

std::string gen_float_text(Ctx& c) {
    std::string s = c.pick({"", "", "-", "+"});
    bool dig = false;
    if (c.chance(85)) { for (size_t k = 1 + c.below(6); k > 0; k--) s += (char)('0' + c.below(10)); dig = true; }
    if (c.chance(60) || !dig) {
        s += '.';
        size_t k = c.below(8);
        if (!dig && !k) k = 1;
        for (; k > 0; k--) s += (char)('0' + c.below(10));
    }
    if (c.chance(35)) {
        s += c.pick({"e", "E"});
        s += c.pick({"", "-", "+"});
        s += std::to_string(c.below(c.chance(20) ? 320 : 30));
    }
    return s;
}

void prop_float(Ctx& c) {
    if (c.coin()) {
        double x = gen_double(c);
        c.note() << "value " << x;
        std::string s = us::ftoa(x);
        c.check(plain_float_text(s), "floating text " + Ctx::show(s) + " is not a plain decimal without redundant zeros");
        double back = strtod(s.c_str(), nullptr);
        double tol = 0.5000001e-6 + std::fabs(std::nextafter(x, INFINITY) - x);
        c.check(std::fabs(back - x) <= tol, format("floating text %s is %g away from %.17g", s.c_str(), std::fabs(back - x), x));
        c.eq(us::ftow(x), widen(s), "wide floating text");
        char six[40];
        snprintf(six, sizeof six, "%g", x);
        c.eq(us::ValueToString(x), std::string(six), "floating value as text of six digits");
        bool ok = false;
        double v = us::IsDouble(s, ok);
        c.check(ok && v == back, "formatted value " + Ctx::show(s) + " is not recognised as itself");
        c.label("format");
        if (x != 0) c.nontrivial();
    } else {
        std::string t = gen_float_text(c);
        static const std::string junk = " xgz,;#$%&_\t\n-+.eE0123456789:/\\";
        int muts = (int)c.weighted({6, 4, 1});
        for (int i = 0; i < muts; i++) {
            size_t at = c.below(t.size() + 1);
            switch (c.below(4)) {
            case 0: t = t.substr(0, at) + junk[c.below(junk.size())] + t.substr(at); break;
            case 1: if (!t.empty()) t.erase(std::min(at, t.size() - 1), 1); break;
            case 2: t += c.pick({" ", "f", "e", "-", "abc", "\n", ",", "x", "int"}); break;
            default: t = c.pick({"", "-", ".", "e5", "+", "-.", "1e", "1e+", "abc", "1..2", "1.2.3", "--1", "1 2"}); break;
            }
        }
        double want;
        bool in_range = false;
        bool lit = float_literal(t, want, in_range);
        // leading blanks and hexadecimal are read by the C library; neither demanded nor forbidden here
        if (!lit && !t.empty()) {
            size_t f = t.find_first_not_of(" \t\n\r\v\f");
            if (f != 0) c.discard();
            if (t.find('x') != std::string::npos && t.find("0x") != std::string::npos) c.discard();
        }
        c.note() << "text " << Ctx::show(t);
        std::wstring w = widen(t);
        bool s1 = !lit, s2 = !lit;
        double v1 = us::IsDouble(t, s1), v2 = us::IsDouble(w, s2);
        c.check(s1 == lit, Ctx::show(t) + (lit ? " is not recognised as a number" : " is taken for a number"));
        c.check(s2 == lit, "wide " + Ctx::show(t) + (lit ? " is not recognised as a number" : " is taken for a number"));
        c.check(us::IsNumber(t) == lit, "number predicate is wrong on " + Ctx::show(t));
        c.check(us::IsNumber(w) == lit, "number predicate is wrong on wide " + Ctx::show(t));
        if (lit && in_range) {
            c.eq(v1, want, "value of " + t);
            c.eq(v2, want, "value of wide " + t);
            c.eq(us::ToDouble(t), want, "conversion of " + t);
            c.eq(us::ToDouble(w), want, "conversion of wide " + t);
        }
        c.label(lit ? "literal" : "not-a-literal");
        if (t.size() > 1) c.nontrivial();
    }
}

// ---- splitting, trimming, matching, option maps ---------------------------------------------------------
std::string gen_text(Ctx& c, const std::string& alphabet, size_t maxlen) {
    std::string s;
    size_t n = c.len(0, maxlen);
    for (size_t i = 0; i < n; i++) s += alphabet[c.below(alphabet.size())];
    return s;
}
std::string ref_trim(const std::string& s) {
    auto b = [](char ch) { return ch == ' ' || ch == '\n' || ch == '\r' || ch == '\t'; };
    size_t i = 0, j = s.size();
    while (i < j && b(s[i])) i++;
    while (j > i && b(s[j - 1])) j--;
    return s.substr(i, j - i);
}
char up(char ch) { return ch >= 'a' && ch <= 'z' ? ch - 32 : ch; }
std::string ref_up(std::string s) { for (char& ch : s) ch = up(ch); return s; }

template <class T>
void split_values(Ctx& c, const char* ty) {
    static const std::string delims = ",;:|-_ \t/";
    char dl;
    do dl = delims[c.below(delims.size())]; while (false);
    size_t n = c.len(1, 40);
    std::string text;
    std::vector<T> want;
    bool all = true;
    for (size_t i = 0; i < n; i++) {
        std::string tok;
        if (c.chance(10)) {
            tok = c.pick({"abc", "x", "NaN", "", "null"});
            if (i + 1 == n && tok.empty()) tok = "x";  // a trailing empty piece is not a piece
            all = false;
        } else {
            double v;
            std::string num;
            if (std::is_integral<T>::value) {
                int64_t k = c.integer(std::is_signed<T>::value && dl != '-' ? -2000000 : 0, 2000000);
                if (sizeof(T) < 4) k %= 120;
                num = dec_i(k);
                v = (double)k;
            } else {
                v = (double)c.integer(dl == '-' ? 0 : -1000000, 1000000) / c.pick({1.0, 10.0, 1000.0});
                char buf[64];
                snprintf(buf, sizeof buf, c.coin() || dl == '-' ? "%.3f" : "%.9e", v);
                num = buf;
                if (dl == '.') num = std::to_string((long)v);
                double q = 0;
                std::from_chars(num.data(), num.data() + num.size(), q);
                v = q;
            }
            tok = num;
            want.push_back((T)v);
        }
        text += (i ? std::string(1, dl) : std::string()) + tok;
    }
    if (text.empty()) c.discard();
    c.note() << ty << " values of " << Ctx::show(text) << " at " << Ctx::show(std::string(1, dl));
    std::vector<T> got;
    if (c.coin()) got.assign(c.below(4), T(7));
    bool r = us::SplitStringForValues(text, dl, got);
    c.check(got == want, "values of " + Ctx::show(text) + ": got " + Ctx::show(got) + ", expected " + Ctx::show(want));
    c.check(r == all, std::string("report for ") + Ctx::show(text) + (all ? " is failure though every piece is numeric" : " is success though a piece is not numeric"));
    if (n > 1) c.nontrivial();
}

void prop_text(Ctx& c) {
    switch (c.weighted({3, 3, 3, 3, 3, 3})) {
    case 0: {
        std::string s = gen_text(c, " \t\n\rab.,\v\f-_\xc3\xa9", 60);
        c.note() << "trim " << Ctx::show(s);
        std::string want = ref_trim(s), a = s, b = s;
        us::TrimSpaces(a);
        std::string& r = us::Trim(b);
        c.eq(a, want, "blank-trimmed");
        c.eq(b, want, "trimmed");
        c.check(&r == &b, "trim returns another string");
        c.label("trim");
        if (want != s) c.nontrivial();
        break;
    }
    case 1: {
        static const std::string al = ",;- \tab1.\n";
        std::string s = gen_text(c, al, 60);
        char dl = al[c.below(al.size())];
        c.note() << "split " << Ctx::show(s) << " at " << Ctx::show(std::string(1, dl));
        std::vector<std::string> want;
        std::string cur;
        for (char ch : s) {
            if (ch == dl) { want.push_back(cur); cur.clear(); }
            else cur += ch;
        }
        if (!cur.empty()) want.push_back(cur);
        std::vector<std::string> got = us::SplitString(s, dl);
        c.check(got == want, "pieces of " + Ctx::show(s) + ": got " + Ctx::show(got) + ", expected " + Ctx::show(want));
        c.label("split-char");
        if (want.size() > 1) c.nontrivial();
        break;
    }
    case 2: {
        std::string s = gen_text(c, "  \t\n\rabc1.,-\v\f", 60);
        c.note() << "words of " << Ctx::show(s);
        std::vector<std::string> want;
        std::string cur;
        for (char ch : s + " ") {
            if (isspace((unsigned char)ch)) { if (!cur.empty()) want.push_back(cur); cur.clear(); }
            else cur += ch;
        }
        std::vector<std::string> got = us::SplitString(s);
        c.check(got == want, "words of " + Ctx::show(s) + ": got " + Ctx::show(got) + ", expected " + Ctx::show(want));
        c.label("split-blank");
        if (want.size() > 1) c.nontrivial();
        break;
    }
    case 3: {
        std::string a = gen_text(c, "aAbBzZ@[`{09_- \xe9\xc9", 20), b = a;
        size_t k = b.empty() ? 0 : c.below(4);
        while (k--) {
            size_t at = c.below(b.size());
            switch (c.below(4)) {
            case 0: case 1: if (isalpha((unsigned char)b[at]) && (unsigned char)b[at] < 128) b[at] ^= 32; break;
            case 2: b[at] ^= 32; if (b[at] == 0) b[at] = 'q'; break;
            default: if (c.coin()) b += 'x'; else b.erase(at, 1); break;
            }
            if (b.empty()) break;
        }
        c.note() << "match " << Ctx::show(a) << " with " << Ctx::show(b);
        bool want = ref_up(a) == ref_up(b);
        c.eq(us::GetUpper(a), ref_up(a), "upper case");
        c.eq(us::StringMatch(a, b), want, "match of " + Ctx::show(a) + " with " + Ctx::show(b));
        c.eq(us::StringMatch(b, a), want, "match (swapped)");
        c.eq(us::StringMatch(a.c_str(), b.c_str()), want, "match of C strings " + Ctx::show(a) + " with " + Ctx::show(b));
        c.label(want ? (a == b ? "same" : "match") : "mismatch");
        if (a != b) c.nontrivial();
        break;
    }
    case 4: {
        auto gen = [&] {
            STRING_MAP m;
            for (size_t k = c.below(6); k > 0; k--) m[gen_text(c, "abA", 2)] = gen_text(c, "xyz", 3);
            return m;
        };
        STRING_MAP in = gen(), out = gen(), want = out, in0 = in;
        for (auto& kv : in) want[kv.first] = kv.second;
        us::CopyStringMap(in, out);
        c.check(out == want, "copying options into a map: union with the source winning is not what came out");
        c.check(in == in0, "copying options changed the source");
        std::string k = gen_text(c, "abA", 2), v = gen_text(c, "xyz", 3);
        us::UpdateStringMap(out, k, v);
        want[k] = v;
        c.check(out == want, "updating option " + Ctx::show(k) + " gave another map");
        c.note() << "maps of " << in.size() << " and " << want.size() << " options";
        c.label("maps");
        if (!in.empty()) c.nontrivial();
        break;
    }
    default:
        switch (c.below(5)) {
        case 0: split_values<int>(c, "int"); break;
        case 1: split_values<float>(c, "float"); break;
        case 2: split_values<double>(c, "double"); break;
        case 3: split_values<vint>(c, "vint"); break;
        default: split_values<unsigned char>(c, "byte"); break;
        }
        c.label("values");
    }
}

// ---- narrow / wide -------------------------------------------------------------------------------------
std::string utf8(uint32_t cp) {
    std::string s;
    if (cp < 0x80) s += (char)cp;
    else if (cp < 0x800) { s += (char)(0xc0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char)(0xe0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    return s;
}
void prop_wide(Ctx& c) {
    bool u8 = c.coin();
    if (!setlocale(LC_CTYPE, u8 ? "C.UTF-8" : "C")) { u8 = false; setlocale(LC_CTYPE, "C"); }
    std::wstring w;
    std::string a;
    size_t n = c.len(0, 80);
    bool ascii = true;
    for (size_t i = 0; i < n; i++) {
        uint32_t cp;
        switch (c.weighted({5, 2, 2, 1})) {
        case 0: cp = 1 + (uint32_t)c.below(127); break;
        case 1: cp = 0x80 + (uint32_t)c.below(0x780); break;
        case 2: cp = 0x800 + (uint32_t)c.below(0xd000 - 0x800); break;
        default: cp = 0x10000 + (uint32_t)c.below(0xffff); break;
        }
        if (cp >= 0x80) ascii = false;
        w += (wchar_t)cp;
        a += utf8(cp);
    }
    c.note() << (u8 ? "UTF-8" : "C") << " locale, text " << Ctx::show(a);
    std::string na = us::wtoa(w);
    std::wstring wa = us::atow(a);
    if (ascii || u8) {
        c.eq(na, a, "narrowed text");
        c.eq(wa, w, "widened text");
        c.check(us::atow(na) == w && us::wtoa(wa) == a, "narrow-wide round trip");
        c.label(ascii ? "ascii" : "unicode");
        if (n > 1) c.nontrivial();
    } else {
        // no representation in this locale: no invented text, and memory safe
        c.check(na.empty(), "text the locale cannot represent was narrowed to " + Ctx::show(na));
        c.check(wa.empty(), "text the locale cannot represent was widened to " + Ctx::show(wa));
        c.label("unrepresentable");
        c.nontrivial();
    }
    setlocale(LC_CTYPE, "C");
}

// ---- IP addresses ---------------------------------------------------------------------------------------
void prop_ip(Ctx& c) {
    std::string s;
    size_t parts = c.chance(75) ? 4 : c.below(7);
    for (size_t i = 0; i < parts; i++) {
        if (i) s += '.';
        switch (c.weighted({6, 2, 1, 1})) {
        case 0: s += std::to_string(c.below(256)); break;
        case 1: s += std::to_string(c.pick({0, 9, 10, 99, 100, 199, 200, 249, 250, 254, 255, 256, 257, 260, 300, 999})); break;
        case 2: s += dec_i(gen_big(c)); break;
        default: s += std::to_string(c.below(300)); break;
        }
    }
    if (c.chance(35)) {
        static const std::string ex = ". 0123456789-+ax\t\n/:,";
        size_t at = c.below(s.size() + 1);
        switch (c.below(3)) {
        case 0: s = s.substr(0, at) + ex[c.below(ex.size())] + s.substr(at); break;
        case 1: if (!s.empty()) s.erase(std::min(at, s.size() - 1), 1); break;
        default: s += ex[c.below(ex.size())]; break;
        }
    }
    // reference: four dot-separated groups of one to three digits, each at most 255
    bool want = true;
    size_t groups = 0, i = 0;
    while (true) {
        size_t d = 0;
        int v = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (d < 9) v = v * 10 + (s[i] - '0'); i++; d++; }
        if (d < 1 || d > 3 || v > 255) { want = false; break; }
        groups++;
        if (i == s.size()) break;
        if (s[i] != '.') { want = false; break; }
        i++;
    }
    if (groups != 4) want = false;
    c.note() << Ctx::show(s);
    c.label(want ? "address" : "not-an-address");
    c.eq(IsIpAddress(s.c_str()), want, "verdict on " + Ctx::show(s));
    if (parts >= 3) c.nontrivial();
}

// ------------------------------------------------------------------------------------------------ B02
void prop_process(Ctx& c) {
    struct Restore { ~Restore() { omp_set_num_threads(2); } } restore;
    int before = (int)c.range(1, 9);
    omp_set_num_threads(before);
    auto team = [] {
        int n = 0;
#pragma omp parallel
#pragma omp atomic
        n++;
        return n;
    };
    switch (c.weighted({6, 2, 1})) {
    case 0: {
        int n = c.coin() ? (int)c.range(1, 16) : (int)-c.integer(1, INT32_MAX);
        c.note() << before << " threads, then " << n << " asked for";
        ccgl::SetOpenMPThread(n);
        c.eq(omp_get_max_threads(), n > 0 ? n : before, "threads for parallel regions");
        c.eq(team(), n > 0 ? n : before, "threads of a parallel region");
        c.label(n > 0 ? "set" : "ignored");
        if (n != before) c.nontrivial();
        break;
    }
    case 1: {
        int cpus = ccgl::GetAvailableThreadNum();
        c.eq(cpus, (int)sysconf(_SC_NPROCESSORS_ONLN), "available threads");
        c.note() << before << " threads, then the default";
        ccgl::SetDefaultOpenMPThread();
        c.eq(omp_get_max_threads(), std::max(1, cpus / 2), "default number of threads");
        c.label("default");
        c.nontrivial();
        break;
    }
    default: {
        int ms = (int)c.range(0, 5);
        if (c.below(1000) >= 996) ms = (int)c.pick({20, 150, 999, 1000, 1001, 1234});
        c.note() << "sleep " << ms;
        timespec a, b;
        clock_gettime(CLOCK_MONOTONIC, &a);
        ccgl::SleepMs(ms);
        clock_gettime(CLOCK_MONOTONIC, &b);
        double took = (b.tv_sec - a.tv_sec) * 1e3 + (b.tv_nsec - a.tv_nsec) / 1e6;
        c.check(took >= ms - 0.01, format("sleeping %d ms took %g ms", ms, took));
        c.label("sleep");
        if (ms) c.nontrivial();
    }
    }
}

PBT_STATIC([] {
    add("S01", 1500000, 40000000, "an integer (small, power-of-two/ten neighbour, uniform 64-bit, out of range) is formatted eight ways and its text, mutated in about half the cases, is given to all eight recognisers; non-trivial unless the text is empty or 0", prop_int);
    add("S02", 1500000, 40000000, "a double is formatted and read back, or a decimal literal, mutated in about half the cases, is given to the recognisers; non-trivial unless the value is zero or the text one character", prop_float);
    add("S03", 900000, 25000000, "one of six utilities on generated text; non-trivial when the result differs from the input (two or more pieces, something trimmed, differing texts, a non-empty map)", prop_text);
    add("S04", 600000, 15000000, "Unicode text of 0-80 characters under the C or a UTF-8 locale; non-trivial from two characters on", prop_wide);
    add("B02", 30000, 300000, "a number of threads (positive, or negative and to be ignored), the default number, or a sleep of 0-5 (rarely to 1234) ms; non-trivial when the setting changes", prop_process);
    add("B01", 1500000, 40000000, "address-like text with octets around the limits, wrong group counts, or one edit; non-trivial from three groups on", prop_ip);
});
}  // namespace
