// Minimal JSON for the drivers: values in, text out. Floats are printed so that they read back exactly
// and always carry a point or an exponent; missing and infinite values are the strings nan, inf, -inf.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

// the caller of the driver is at fault, not the library
struct HarnessError { std::string what; };
struct J {
    enum T {Null, Bool, Num, Str, Arr, Obj} t = Null;
    bool b = false; double n = 0; std::string s; std::vector<J> a; std::map<std::string, J> o;
    const J& operator[](const char* k) const { auto i = o.find(k); if(i == o.end()) throw HarnessError{std::string("no field ") + k}; return i->second; }
    const J& operator[](const std::string& k) const { return (*this)[k.c_str()]; }
    bool has(const std::string& k) const { return o.count(k) > 0; }
};
struct JParser {
    const char* p;
    explicit JParser(const char* q) : p(q) {}
    void ws() { while(*p && (unsigned char)*p <= ' ') p++; }
    std::string str() {
        std::string r; p++;
        while(*p && *p != '"') {
            if(*p == '\\') { p++; if(*p == 'n') r += '\n'; else if(*p == 't') r += '\t'; else if(*p == 'u') { r += (char) strtol(std::string(p + 1, p + 5).c_str(), 0, 16); p += 4; } else r += *p; p++; }
            else r += *p++;
        }
        p++;
        return r;
    }
    J val() {
        ws(); J j;
        if(*p == '{') {
            j.t = J::Obj; p++; ws();
            if(*p == '}') { p++; return j; }
            while(true) { ws(); std::string k = str(); ws(); p++; j.o[k] = val(); ws(); if(*p++ == '}') break; }
        } else if(*p == '[') {
            j.t = J::Arr; p++; ws();
            if(*p == ']') { p++; return j; }
            while(true) { j.a.push_back(val()); ws(); if(*p++ == ']') break; }
        } else if(*p == '"') {
            j.s = str(); j.t = J::Str;
            if(j.s == "nan") j.n = NAN; else if(j.s == "inf") j.n = INFINITY; else if(j.s == "-inf") j.n = -INFINITY;
        } else if(*p == 't') { j.t = J::Bool; j.b = true; j.n = 1; p += 4; }
        else if(*p == 'f') { j.t = J::Bool; p += 5; }
        else if(*p == 'n') { p += 4; }
        else { char* e; j.t = J::Num; j.n = strtod(p, &e); if(e == p) throw std::runtime_error("bad json"); p = e; }
        return j;
    }
};
inline std::string quote(const std::string& s) {
    std::string r = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if(c < ' ' || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline std::string num(double v, const char* f) {
    if(std::isnan(v)) return "\"nan\"";
    if(std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40]; snprintf(b, 40, f, v);
    std::string s(b);
    if(s.find_first_of(".e") == std::string::npos) s += ".0";
    return s;
}
inline std::string out(float v) { return num((double) v, "%.17g"); }
inline std::string out(double v) { return num(v, "%.17g"); }
inline std::string out(int v) { return std::to_string(v); }
inline std::string out(bool v) { return v ? "true" : "false"; }
inline std::string out(const std::string& v) { return quote(v); }
template<class T> std::string out(const std::vector<T>& v) {
    std::string r = "[";
    for(size_t i = 0; i < v.size(); i++) { if(i) r += ","; r += out((T) v[i]); }
    return r + "]";
}
