// NetCDF files written and read with the library's own C interface, command lines, schemes run on files.
#include "client.h"
#include <set>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "Calibrator/Calibrator.h"
static void nc(int s, const std::string& what) { if(s != NC_NOERR) throw HarnessError{what + ": " + nc_strerror(s)}; }
static std::vector<std::string> words(const J& j) { std::vector<std::string> r; for(auto& x : j.a) r.push_back(text(x)); return r; }
// very long texts are stated as a letter and how often it comes: "h*9000000"
static std::string lengthen(const std::string& s) { return s.size() > 8 && s[1] == '*' && s.find_first_not_of("0123456789", 2) == std::string::npos ? std::string(std::stoul(s.substr(2)), s[0]) : s; }
static std::string shorten(const std::string& s) { return s.size() >= 1000000 && s.find_first_not_of(s[0]) == std::string::npos ? std::string(1, s[0]) + "*" + std::to_string(s.size()) : s; }
static void attribute(int f, int v, const std::string& k, const J& x, nc_type t) {
    if(x.t == J::Str) { const std::string s = lengthen(x.s); nc(nc_put_att_text(f, v, k.c_str(), s.size(), s.c_str()), "attribute"); }
    else { double d = x.n; nc(nc_put_att_double(f, v, k.c_str(), k == "_FillValue" ? t : NC_DOUBLE, 1, &d), "attribute " + k); }
}
static std::string make(const J& in) {
    int f;
    nc(nc_create(in["path"].s.c_str(), (in.has("classic") && in["classic"].b ? 0 : NC_NETCDF4) | NC_CLOBBER, &f), "create");
    std::map<std::string, int> dims;
    for(auto& d : in["dims"].a) nc(nc_def_dim(f, d["n"].s.c_str(), d.has("unlim") && d["unlim"].b ? NC_UNLIMITED : (size_t) d["size"].n, &dims[d["n"].s]), "dimension");
    std::vector<int> ids;
    for(auto& v : in["vars"].a) {
        std::vector<int> ds; for(auto& d : v["dims"].a) ds.push_back(dims.at(d.s));
        const std::string t = v.has("type") ? v["type"].s : "f";
        nc_type ty = t == "d" ? NC_DOUBLE : t == "s" ? NC_SHORT : t == "i" ? NC_INT : t == "b" ? NC_BYTE : NC_FLOAT;
        int id; nc(nc_def_var(f, v["n"].s.c_str(), ty, ds.size(), ds.data(), &id), "variable");
        if(v.has("atts")) for(auto& a : v["atts"].o) attribute(f, id, a.first, a.second, ty);
        ids.push_back(id);
    }
    if(in.has("atts")) for(auto& a : in["atts"].o) attribute(f, NC_GLOBAL, a.first, a.second, NC_DOUBLE);
    nc(nc_enddef(f), "enddef");
    for(size_t i = 0; i < ids.size(); i++) {
        const J& v = in["vars"].a[i];
        if(!v.has("data")) continue;
        std::vector<double> d; for(auto& x : v["data"].a) d.push_back(x.n);
        std::vector<size_t> start(v["dims"].a.size(), 0), count;
        for(auto& k : v["dims"].a) for(auto& q : in["dims"].a) if(q["n"].s == k.s) count.push_back((size_t) q["size"].n);
        size_t n = 1; for(size_t c : count) n *= c;
        if(n != d.size()) throw HarnessError{"size of " + v["n"].s};
        if(n) nc(nc_put_vara_double(f, ids[i], start.data(), count.data(), d.data()), "data of " + v["n"].s);
    }
    nc(nc_close(f), "close");
    return out(true);
}
static std::string atts(int f, int v, int n) {
    std::string r = "{"; bool first = true;
    for(int i = 0; i < n; i++) {
        char name[NC_MAX_NAME + 1]; nc_type t; size_t len;
        nc(nc_inq_attname(f, v, i, name), "att"); nc(nc_inq_att(f, v, name, &t, &len), "att");
        std::string s;
        if(t == NC_CHAR) { std::string b(len, ' '); nc(nc_get_att_text(f, v, name, &b[0]), "att"); 
            if(std::string(name) == "history") { std::vector<std::string> ls; std::stringstream ss(b); std::string l; while(std::getline(ss, l)) ls.push_back(quote(shorten(l))); s = list(ls); }
            else s = quote(shorten(b)); }
        else if(len == 1 && t != NC_STRING) { double d; nc(nc_get_att_double(f, v, name, &d), "att"); s = out(d); }
        else continue;
        r += (first ? "" : ",") + quote(name) + ":" + s; first = false;
    }
    return r + "}";
}
static std::string dump(const J& in) {
    int f;
    if(nc_open(in["path"].s.c_str(), NC_NOWRITE, &f) != NC_NOERR) return obj({{"exists", "false"}});
    int nd, nv, na, unl; nc(nc_inq(f, &nd, &nv, &na, &unl), "inq");
    std::string d = "{";
    for(int i = 0; i < nd; i++) { char name[NC_MAX_NAME + 1]; size_t n; nc(nc_inq_dim(f, i, name, &n), "dim"); d += (i ? "," : "") + quote(name) + ":" + out((int) n); }
    d += "}";
    std::string v = "{";
    for(int i = 0; i < nv; i++) {
        char name[NC_MAX_NAME + 1]; nc_type t; int k, n, ids[NC_MAX_VAR_DIMS];
        nc(nc_inq_var(f, i, name, &t, &k, ids, &n), "var");
        std::vector<std::string> ds; size_t size = 1;
        for(int j = 0; j < k; j++) { char dn[NC_MAX_NAME + 1]; size_t l; nc(nc_inq_dim(f, ids[j], dn, &l), "dim"); ds.push_back(quote(dn)); size *= l; }
        std::vector<double> x(size);
        if(size) nc(nc_get_var_double(f, i, x.data()), "data");
        v += (i ? "," : "") + quote(name) + ":" + obj({{"dims", list(ds)}, {"type", quote(t == NC_DOUBLE ? "d" : t == NC_SHORT ? "s" : t == NC_INT ? "i" : t == NC_BYTE ? "b" : "f")}, {"atts", atts(f, i, n)}, {"data", out(x)}});
    }
    v += "}";
    std::string r = obj({{"exists", "true"}, {"dims", d}, {"vars", v}, {"atts", atts(f, NC_GLOBAL, na)}});
    nc(nc_close(f), "close");
    return r;
}
static std::string var(const Variable& v) {
    if(v.name() == "") return obj({{"name", "[]"}, {"units", chars(v.units())}, {"std", chars(v.standardName())}});
    return obj({{"name", chars(v.name())}, {"min", out(v.min())}, {"max", out(v.max())}, {"units", chars(v.units())}, {"std", chars(v.standardName())}});
}
static std::string options(const Options& o) { return chars(o.toString()); }
// what a gradient downscaler makes of a difference in height of 100 from the value 1
static std::string gradient(const VariableConfiguration& c) {
    J j = JParser("{\"lats\":[[50,50],[51,51]],\"lons\":[[10,11],[10,11]],\"elevs\":[[0,0],[0,0]],\"lafs\":[[1,1],[1,1]],\"times\":[0],\"vars\":{}}").val();
    J f = JParser("[[[[1],[1]],[[1],[1]]]]").val();
    j.o["vars"].o[c.inputVariable.name()] = f;
    MemFile a(j);
    j.o["elevs"] = JParser("[[100,100],[100,100]]").val(); j.o["vars"].o.clear(); j.o["vars"].o[c.outputVariable.name()] = f;
    MemFile b(j);
    c.downscaler->downscale(a, b);
    return out((*b.getField(c.outputVariable, 0))(0, 0, 0));
}
static std::string setup(const J& in) {
    Setup s(words(in["args"]));
    std::vector<std::string> files, vars, al;
    for(size_t i = 0; i < s.inputFiles.size(); i++) files.push_back(obj({{"in", chars(s.inputFiles[i]->getFilename())}, {"out", chars(s.outputFiles[i]->getFilename())}, {"same", out(s.inputFiles[i] == s.outputFiles[i])}}));
    for(auto& c : s.variableConfigurations) {
        std::vector<std::string> cals;
        for(size_t i = 0; i < c.calibrators.size(); i++) {
            ParameterFile* p = c.parameterFileCalibrators[i];
            cals.push_back(obj({{"name", quote(c.calibrators[i]->name())}, {"opts", options(c.calibrators[i]->getOptions())}, {"has", out(p != NULL)}, {"p", p ? chars(p->getFilename()) : "[]"}, {"popts", p ? options(p->getOptions()) : "[]"}}));
        }
        ParameterFile* p = c.parameterFileDownscaler;
        vars.push_back(obj({{"iv", var(c.inputVariable)}, {"ov", var(c.outputVariable)}, {"ivopts", options(c.inputVariableOptions)}, {"ovopts", options(c.outputVariableOptions)}, {"down", quote(c.downscaler->name())},
            {"grad", c.downscaler->name() == "gradient" && c.inputVariable.name() != "" ? "[" + gradient(c) + "]" : "[]"}, {"hasp", out(p != NULL)}, {"p", p ? chars(p->getFilename()) : "[]"}, {"popts", p ? options(p->getOptions()) : "[]"}, {"cals", list(cals)}, {"npar", out((int) c.parameterFileCalibrators.size())}}));
    }
    for(auto& a : s.variableAliases) al.push_back(obj({{"a", chars(a.first)}, {"v", var(a.second)}}));
    return obj({{"files", list(files)}, {"vars", list(vars)}, {"aliases", list(al)}, {"iopts", options(s.inputOptions)}, {"oopts", options(s.outputOptions)}});
}
static std::string fields(File& f, const Variable& v) { std::vector<std::string> r; for(int t = 0; t < f.getNumTime(); t++) r.push_back(field(*f.getField(v, t))); return list(r); }
static ParameterFile* par(const J& in) { if(!in.has("p")) return NULL; auto i = store().pars.find(in["p"].s); if(i == store().pars.end()) throw HarnessError{"no parameters " + in["p"].s}; return i->second.get(); }
static time_t wrote = 0;
void register2() {
    auto& m = ops();
    m["mk_nc"] = make;
    m["nc_dump"] = dump;
    m["kept"] = dump;
    m["plan"] = [](const J&) { return out(true); };
    m["t_dump"] = [](const J& in) {
        std::ifstream f(in["path"].s.c_str()); std::vector<std::string> rows; std::string l;
        while(std::getline(f, l)) { if(l.size() && l[0] == '#') continue; std::stringstream ss(l); std::vector<std::string> v; std::string w; while(ss >> w) { char* e; double d = strtod(w.c_str(), &e); v.push_back(*e ? "\"?\"" : v.empty() ? out(d) : out((float) d)); } rows.push_back(list(v)); }
        return list(rows);
    };
    m["q_dump"] = [](const J& in) {
        std::ifstream f(in["path"].s.c_str()); std::vector<std::string> r; std::string l;
        while(std::getline(f, l)) { for(auto& c : l) if(c == '\r') c = '|'; r.push_back(quote(l)); }
        return obj({{"lines", list(r)}, {"before", out((int) wrote)}, {"after", out((int) time(NULL))}});
    };
    m["setup"] = setup;
    m["f_open"] = [](const J& in) { File* f = File::getScheme(in["path"].s, options(in["opt"]), in["ro"].b); if(!f) Util::error("no file"); store().files[in["f"].s].reset(f); return out(true); };
    m["f_close"] = [](const J& in) { store().files.erase(in["f"].s); return out(true); };
    m["f_write"] = [](const J& in) { wrote = time(NULL); std::vector<Variable> v; for(auto& x : in["vars"].a) v.push_back(variable(x)); file(in["f"]).write(v, in["msg"].s); return out(true); };
    m["f_vars"] = [](const J& in) { std::vector<std::string> r; for(auto& x : in["names"].a) { Variable v; bool k = file(in["f"]).getVariable(x.s, v); r.push_back(k ? obj({{"known", "true"}, {"units", quote(v.units())}, {"std", quote(v.standardName())}}) : obj({{"known", "false"}})); } return list(r); };
    m["d_run"] = [](const J& in) {
        Variable iv = variable(in["iv"]), ov = variable(in["ov"]);
        std::unique_ptr<Downscaler> d(Downscaler::getScheme(in["name"].s, iv, ov, options(in["opt"])));
        File& f = file(in["out"]);
        bool done = d->downscale(file(in["in"]), f);
        return obj({{"done", out(done)}, {"fields", fields(f, ov)}});
    };
    m["c_run"] = [](const J& in) {
        std::unique_ptr<Calibrator> c(Calibrator::getScheme(in["name"].s, variable(in["v"]), options(in["opt"])));
        File& f = file(in["f"]);
        bool done = c->calibrate(f, par(in));
        vec2 el = f.getElevs();
        std::string r = "{";
        for(size_t i = 0; i < in["look"].a.size(); i++) r += (i ? "," : "") + quote(in["look"].a[i].s) + ":" + fields(f, Variable(in["look"].a[i].s));
        return obj({{"done", out(done)}, {"fields", r + "}"}, {"elevs", out(el)}});
    };
    // the program itself, in a process of its own
    m["cli"] = [](const J& in) {
        const char* prog = getenv("GRIDPP_CLI");
        if(!prog) throw HarnessError{"GRIDPP_CLI not set"};
        std::vector<std::string> w = words(in["args"]);
        std::vector<char*> a; a.push_back((char*) prog); for(auto& x : w) a.push_back((char*) x.c_str()); a.push_back(NULL);
        pid_t p = fork();
        if(p == 0) { int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); execv(prog, a.data()); _exit(127); }
        int st; waitpid(p, &st, 0);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 127) throw HarnessError{"cannot run the program"};
            // an error ends it with 9 (cli_abort.cpp)
        return obj({{"end", quote(WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "ok" : WIFEXITED(st) && WEXITSTATUS(st) == 9 ? "err" : "crash")}});
    };
}
