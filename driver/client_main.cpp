// The command-line program's parts, driven by operations read as JSON lines.  Util::error aborts;
// the abort is turned into an answer, and the process ends, for nothing is promised after it.
#include "client.h"
#include <unistd.h>
#include <iostream>
#include <ftw.h>
#include <atomic>
#include <sys/stat.h>
#ifdef _OPENMP
#include <omp.h>
#endif
void register1(); void register2(); void register3();
std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }
Store& store() { static Store s; return s; }
std::string obj(std::initializer_list<std::pair<const char*, std::string> > l) {
    std::string r = "{"; bool first = true;
    for(auto& x : l) { if(!first) r += ","; first = false; r += quote(x.first) + ":" + x.second; }
    return r + "}";
}
std::string text(const J& j) { if(j.t != J::Arr) return j.s; std::string r; for(auto& x : j.a) r += x.s; return r; }
std::string chars(const std::string& s) { std::string r = "["; for(size_t i = 0; i < s.size(); i++) { if(i) r += ","; r += quote(s.substr(i, 1)); } return r + "]"; }
vec fvec(const J& j) { vec r; for(auto& x : j.a) r.push_back((float) x.n); return r; }
v2 fvec2(const J& j) { v2 r; for(auto& x : j.a) r.push_back(fvec(x)); return r; }
std::string field(const Field& f) {
    std::string r = "[";
    for(int y = 0; y < f.getNumY(); y++) { r += y ? ",[" : "["; for(int x = 0; x < f.getNumX(); x++) { if(x) r += ","; r += out(f(y, x)); } r += "]"; }
    return r + "]";
}
Variable variable(const J& j) {
    if(j.t == J::Str) return Variable(j.s);
    Variable v(text(j["name"]));
    if(j.has("min")) v.min((float) j["min"].n);
    if(j.has("max")) v.max((float) j["max"].n);
    if(j.has("units")) v.units(j["units"].s);
    if(j.has("std")) v.standardName(j["std"].s);
    if(j.has("level")) v.level((int) j["level"].n);
    return v;
}
static std::string optval(const J& v) {
    if(v.t == J::Arr) { std::string r; for(size_t i = 0; i < v.a.size(); i++) r += (i ? "," : "") + optval(v.a[i]); return r; }
    return v.t == J::Str ? v.s : v.t == J::Bool ? std::string(v.b ? "1" : "0") : num(v.n, "%.9g");
}
Options options(const J& j) { Options o; if(j.t == J::Str) o.addOptions(j.s); else for(auto& kv : j.o) o.addOption(kv.first, optval(kv.second)); return o; }
File& file(const J& j) { auto i = store().files.find(j.s); if(i == store().files.end()) throw HarnessError{"no file " + j.s}; return *i->second; }

static FILE* O = NULL;
static std::string scratch;
static int rm1(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static void empty() {
    if(scratch.empty()) return;
    if(chdir("/") == 0) nftw(scratch.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS);
    mkdir(scratch.c_str(), 0700);
    if(chdir(scratch.c_str()) != 0) { fprintf(stderr, "no scratch folder\n"); _exit(4); }
}
static void put(const std::string& s) { fputs(s.c_str(), O); fputc('\n', O); fflush(O); }
static void cleanup() { store().clear(); if(!scratch.empty()) { if(chdir("/") == 0) nftw(scratch.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS); } }
static std::atomic_flag ended = ATOMIC_FLAG_INIT;
extern "C" void __wrap_abort() {
    // several threads may give up at once
    while(ended.test_and_set()) pause();
    put("{\"r\":\"err\",\"msg\":\"\"}");
    if(!scratch.empty() && chdir("/") == 0) nftw(scratch.c_str(), rm1, 16, FTW_DEPTH | FTW_PHYS);
    _exit(5);
}
int main() {
    int fd = dup(1);
    O = fdopen(fd, "w");
    if(!freopen("/dev/null", "w", stdout)) return 3;
    const char* base = getenv("GRIDPP_SCRATCH");
    if(base) { std::string t = std::string(base) + "/d-XXXXXX"; std::vector<char> b(t.begin(), t.end()); b.push_back(0); if(!mkdtemp(b.data())) return 3; scratch = b.data(); if(chdir(b.data()) != 0) return 3; }
    Util::setShowError(false); Util::setShowWarning(false); Util::setShowStatus(false); Util::setShowInfo(false);
    register1(); register2(); register3();
    std::string line;
    bool used = false;
    while(std::getline(std::cin, line)) {
        if(line.empty()) continue;
        J c = JParser(line.c_str()).val();
        std::string res;
        if(c["op"].s == "reset") {
            store().clear();
            if(used) empty();
            used = false;
#ifdef _OPENMP
            if(c.has("thr")) omp_set_num_threads((int) c["thr"].n);
#endif
            res = "{\"r\":\"ok\",\"out\":true}";
        }
        else {
            auto it = ops().find(c["op"].s);
            if(it == ops().end()) { fprintf(stderr, "unknown operation %s\n", c["op"].s.c_str()); cleanup(); return 4; }
            used = true;
            try { res = "{\"r\":\"ok\",\"out\":" + it->second(c["in"]) + "}"; }
            catch(const HarnessError& e) { fprintf(stderr, "%s: %s\n", c["op"].s.c_str(), e.what.c_str()); cleanup(); return 4; }
            catch(const std::exception& e) { put(std::string("{\"r\":\"err\",\"msg\":") + quote(e.what()) + "}"); cleanup(); _exit(5); }
        }
        put(res);
    }
    cleanup();
    return 0;
}
