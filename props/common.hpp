#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <limits>

// ---- independent helpers shared by the oracles -------------------------------------------------------
inline std::string dec_u(unsigned __int128 v) {
    if (v == 0) return "0";
    std::string s;
    while (v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; }
    return s;
}
inline std::string dec_i(__int128 v) { return v < 0 ? "-" + dec_u((unsigned __int128)(-v)) : dec_u((unsigned __int128)v); }
inline std::wstring widen(const std::string& s) { return std::wstring(s.begin(), s.end()); }

// canonical decimal integer text within [lo, hi]?
inline bool canonical_int(const std::string& s, __int128 lo, __int128 hi, __int128& v) {
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && s[i] == '-') { neg = true; i++; }
    if (i >= s.size() || s.size() - i > 25) return false;
    if (s[i] == '0' && (s.size() > i + 1 || neg)) return false;
    v = 0;
    for (; i < s.size(); i++) {
        if (s[i] < '0' || s[i] > '9') return false;
        v = v * 10 + (s[i] - '0');
    }
    if (neg) v = -v;
    return v >= lo && v <= hi;
}

struct Civil { int64_t y; int m, d, h, mi, s, wday, yday; };
inline int64_t days_from_civil(int64_t y, int m, int d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
inline bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int64_t y, int m) {
    static const int k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return k[m - 1] + (m == 2 && leap(y));
}
inline Civil civil_from_epoch(int64_t t) {
    Civil c;
    int64_t days = t / 86400, r = t % 86400;
    if (r < 0) { r += 86400; days--; }
    c.h = (int)(r / 3600); c.mi = (int)(r / 60 % 60); c.s = (int)(r % 60);
    c.wday = (int)((days % 7 + 11) % 7);
    int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
    int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    c.d = (int)(doy - (153 * mp + 2) / 5 + 1);
    c.m = (int)(mp < 10 ? mp + 3 : mp - 9);
    c.y = yoe + era * 400 + (c.m <= 2);
    c.yday = (int)(days - days_from_civil(c.y, 1, 1));
    return c;
}
