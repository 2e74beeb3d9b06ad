// What an option becomes in BSON.
#pragma once
#include "common.hpp"
#include "db_mongoc.h"
#include "fake.hpp"
using std::string;
using std::vector;

// one complete decimal literal: sign, digits with an optional point, exponent
inline bool literal(const string& s) {
    size_t i = 0, digits = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    while (i < s.size() && isdigit((unsigned char)s[i])) i++, digits++;
    if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++, digits++; }
    if (!digits) return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        size_t j = i + 1;
        if (j < s.size() && (s[j] == '+' || s[j] == '-')) j++;
        if (j >= s.size() || !isdigit((unsigned char)s[j])) return false;
        while (j < s.size() && isdigit((unsigned char)s[j])) j++;
        i = j;
    }
    return i == s.size();
}
// what is stored for an option: its number, if it is one, and else its text
struct Val {
    bool number = false;
    double x = 0;
    string s;
    bool operator==(const Val& o) const { return number == o.number && (number ? x == o.x : s == o.s); }
};
inline Val value_of(const string& s) {
    Val v;
    v.number = literal(s);
    if (v.number) v.x = strtod(s.c_str(), nullptr); else v.s = s;
    return v;
}
inline bool shows(const string& text, const Val& v) { return v.number ? literal(text) && strtod(text.c_str(), nullptr) == v.x : text == v.s; }

