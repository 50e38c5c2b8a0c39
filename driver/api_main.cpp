// Executes operations read as JSON lines and writes one JSON line per operation.
#include "api.h"
#include <unistd.h>
#include <iostream>
#ifdef _OPENMP
#include <omp.h>
#endif
void race_begin() __attribute__((weak));
std::string race_end() __attribute__((weak));
void race_order(int) __attribute__((weak));
void register1(); void register2(); void register3();
std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }
Store& store() { static Store s; return s; }
CoordinateType ctype(const std::string& s) { return s == "cart" ? Cartesian : Geodetic; }
int code(const std::string& s) {
    static const std::map<std::string, int> m = {
        {"OneToOne", OneToOne}, {"MeanSlope", MeanSlope}, {"NearestSlope", NearestSlope}, {"Zero", Zero}, {"Unchanged", Unchanged},
        {"Ets", Ets}, {"Ts", Ts}, {"Kss", Kss}, {"Pc", Pc}, {"Bias", Bias}, {"Hss", Hss}, {"MinMax", MinMax}, {"LinearRegression", LinearRegression},
        {"Nearest", gridpp::Nearest}, {"Bilinear", Bilinear}, {"Lt", Lt}, {"Leq", Leq}, {"Gt", Gt}, {"Geq", Geq}, {"Bad", 12345}};
    auto i = m.find(s); if(i == m.end()) throw HarnessError{"no code " + s}; return i->second;
}
Statistic stat(const std::string& s) {
    static const std::map<std::string, Statistic> m = {{"Mean", Mean}, {"Min", Min}, {"Median", Median}, {"Max", Max}, {"Quantile", Quantile}, {"Std", Std},
        {"Variance", Variance}, {"Sum", Sum}, {"Count", Count}, {"RandomChoice", RandomChoice}, {"Unknown", Unknown}};
    auto i = m.find(s); if(i == m.end()) throw HarnessError{"no code " + s}; return i->second;
}
std::string obj(std::initializer_list<std::pair<const char*, std::string> > l) {
    std::string r = "{"; bool first = true;
    for(auto& x : l) { if(!first) r += ","; first = false; r += quote(x.first) + ":" + x.second; }
    return r + "}";
}
int main() {
    int fd = dup(1);
    FILE* o = fdopen(fd, "w");
    if(!freopen("/dev/null", "w", stdout)) return 3;
    register1(); register2(); register3();
    std::string line;
    while(std::getline(std::cin, line)) {
        if(line.empty()) continue;
        J c = JParser(line.c_str()).val();
        std::string res;
        if(c["op"].s == "reset") {
            store().clear();
#ifdef _OPENMP
            if(c.has("thr")) omp_set_num_threads((int) c["thr"].n);
#endif
            res = "{\"r\":\"ok\",\"out\":true}";
        }
        else if(c["op"].s == "threads") {
            // the number of threads, or where threads are stood in for, their order
#ifdef _OPENMP
            omp_set_num_threads((int) c["in"]["n"].n);
#endif
            if(race_order) race_order((int) c["in"]["order"].n);
            res = "{\"r\":\"ok\",\"out\":true}";
        }
        else {
            auto it = ops().find(c["op"].s);
            if(it == ops().end()) { fprintf(stderr, "unknown operation %s\n", c["op"].s.c_str()); return 4; }
            bool race = race_begin && c.has("race");
            try {
                if(race) race_begin();
                std::string v = it->second(c["in"]);
                res = "{\"r\":\"ok\",\"out\":" + v;
                if(race) res += ",\"acc\":" + race_end();
                res += "}";
            }
            catch(const HarnessError& e) { fprintf(stderr, "%s: %s\n", c["op"].s.c_str(), e.what.c_str()); return 4; }
            catch(const std::exception& e) {
                if(race) race_end();
                res = std::string("{\"r\":\"err\",\"msg\":") + quote(e.what()) + "}";
            }
        }
        fputs(res.c_str(), o); fputc('\n', o); fflush(o);
    }
    return 0;
}
