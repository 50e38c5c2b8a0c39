// Options, utilities, files as stores of fields, parameter files.
#include "client.h"
MemFile::MemFile(const J& j) : File(j.has("file") ? j["file"].s : "mem", Options()) {
    mNEns = j.has("ens") ? (int) j["ens"].n : 1;
    setLats(fvec2(j["lats"])); setLons(fvec2(j["lons"]));
    if(j.has("elevs")) setElevs(fvec2(j["elevs"]));
    if(j.has("lafs")) setLandFractions(fvec2(j["lafs"]));
    std::vector<double> t; if(j.has("times")) for(auto& x : j["times"].a) t.push_back(x.n); else t.push_back(0);
    setTimes(t);
    if(j.has("ref")) setReferenceTime(j["ref"].n);
    if(j.has("vars")) for(auto& kv : j["vars"].o) {
        std::vector<v3> all;
        for(auto& ft : kv.second.a) { v3 f; for(auto& r : ft.a) f.push_back(fvec2(r)); all.push_back(f); }
        mUnder[kv.first] = all;
        mVariables.push_back(Variable(kv.first));
    }
}
FieldPtr MemFile::getFieldCore(const Variable& v, int t) const {
    FieldPtr f = getEmptyField();
    const v3& u = mUnder.at(v.name())[t];
    for(int y = 0; y < getNumY(); y++) for(int x = 0; x < getNumX(); x++) for(int e = 0; e < getNumEns(); e++) (*f)(y, x, e) = u[y][x][e];
    return f;
}
void MemFile::writeCore(std::vector<Variable> v, std::string) { std::vector<std::string> n; for(auto& x : v) n.push_back(x.name()); mWritten.push_back(n); }
static Options& opt(const J& j) { auto i = store().opts.find(j.s); if(i == store().opts.end()) throw HarnessError{"no options " + j.s}; return *i->second; }
static FieldPtr mkfield(const J& j) {
    int ny = j.a.size(), nx = j.a[0].a.size(), ne = j.a[0].a[0].a.size();
    FieldPtr f(new Field(ny, nx, ne));
    for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) for(int e = 0; e < ne; e++) (*f)(y, x, e) = (float) j.a[y].a[x].a[e].n;
    return f;
}
template<class T> static std::string get1(const J& in, bool req, std::string (*f)(const T&)) {
    T v = T();
    bool found = true;
    if(req) opt(in["id"]).getRequiredValue(text(in["k"]), v); else found = opt(in["id"]).getValue(text(in["k"]), v);
    return found ? obj({{"found", "true"}, {"v", f(v)}}) : obj({{"found", "false"}});
}
template<class T> static std::string getn(const J& in, bool req, std::string (*f)(const T&)) {
    std::vector<T> v(2);
    bool found = true;
    if(req) opt(in["id"]).getRequiredValues(text(in["k"]), v); else found = opt(in["id"]).getValues(text(in["k"]), v);
    std::vector<std::string> r; for(auto x : v) r.push_back(f(x));
    return obj({{"found", out(found)}, {"v", list(r)}});
}
static std::string so(const std::string& s) { return chars(s); }
static std::string io(const int& s) { return out(s); }
static std::string fo(const float& s) { return out(s); }
static std::string bo(const bool& s) { return out(s); }
static ParameterFile& par(const J& j) { auto i = store().pars.find(j.s); if(i == store().pars.end()) throw HarnessError{"no parameters " + j.s}; return *i->second; }
static Location loc(const J& j) { return Location((float) j.a[0].n, (float) j.a[1].n, j.a.size() > 2 ? (float) j.a[2].n : Util::MV); }
void register1() {
    auto& m = ops();
    // options
    m["o_new"] = [](const J& in) { store().opts[in["id"].s].reset(new Options(text(in["s"]))); return out(true); };
    m["o_adds"] = [](const J& in) { opt(in["id"]).addOptions(text(in["s"])); return out(true); };
    m["o_add"] = [](const J& in) { opt(in["id"]).addOption(text(in["k"]), text(in["v"])); return out(true); };
    m["o_addi"] = [](const J& in) { opt(in["id"]).addOption(text(in["k"]), (int) in["v"].n); return out(true); };
    m["o_addf"] = [](const J& in) { opt(in["id"]).addOption(text(in["k"]), (float) in["v"].n); return out(true); };
    m["o_clear"] = [](const J& in) { opt(in["id"]).clear(); return out(true); };
    m["o_str"] = [](const J& in) { return chars(opt(in["id"]).toString()); };
    m["o_has"] = [](const J& in) { return out(opt(in["id"]).hasValue(text(in["k"]))); };
    m["o_check"] = [](const J& in) { return out(opt(in["id"]).check()); };
    m["o_eq"] = [](const J& in) { bool a = opt(in["a"]) == opt(in["b"]), b = opt(in["a"]) != opt(in["b"]); return obj({{"eq", out(a)}, {"ne", out(b)}}); };
    m["o_copy"] = [](const J& in) { store().opts[in["to"].s].reset(new Options(opt(in["id"]).toString())); return out(true); };
    for(bool req : {false, true}) {
        m[req ? "o_req" : "o_get"] = [req](const J& in) { const std::string& t = in["t"].s;
            return t == "str" ? get1<std::string>(in, req, so) : t == "int" ? get1<int>(in, req, io) : t == "float" ? get1<float>(in, req, fo) : get1<bool>(in, req, bo); };
        m[req ? "o_reqs" : "o_gets"] = [req](const J& in) { const std::string& t = in["t"].s;
            return t == "str" ? getn<std::string>(in, req, so) : t == "int" ? getn<int>(in, req, io) : getn<float>(in, req, fo); };
    }
    // utilities
    m["split"] = [](const J& in) { std::vector<std::string> r; for(auto& s : in.has("d") ? Util::split(text(in["s"]), text(in["d"])) : Util::split(text(in["s"]))) r.push_back(chars(s)); return list(r); };
    m["haschar"] = [](const J& in) { return out(Util::hasChar(text(in["s"]), in["c"].s[0])); };
    m["date"] = [](const J& in) { return out(Util::getDate((time_t) in["t"].n)); };
    m["time"] = [](const J& in) { return out(Util::getTime((time_t) in["t"].n)); };
    m["unix"] = [](const J& in) { return out((double) Util::getUnixTime((int) in["d"].n, (int) in["t"].n)); };
    m["calcdate"] = [](const J& in) { return out(Util::calcDate((int) in["d"].n, (float) in["h"].n)); };
    m["ustat"] = [](const J& in) { Util::StatType t; if(!Util::getStatType(in["stat"].s, t)) return obj({{"known", "false"}}); return obj({{"known", "true"}, {"v", out(Util::calculateStat(fvec(in["x"]), t, in.has("q") ? (float) in["q"].n : Util::MV))}}); };
    m["udist"] = [](const J& in) { return out(Util::getDistance((float) in["lat1"].n, (float) in["lon1"].n, (float) in["lat2"].n, (float) in["lon2"].n)); };
    m["ulogit"] = [](const J& in) { float p = Util::logit((float) in["p"].n); return obj({{"l", out(p)}, {"b", out(Util::invLogit(p))}}); };
    m["uinterp"] = [](const J& in) { return out(Util::interpolate((float) in["x"].n, fvec(in["X"]), fvec(in["Y"]))); };
    m["uinverse"] = [](const J& in) { return out(Util::inverse(fvec2(in["m"]))); };
    m["uregress"] = [](const J& in) { return out(Util::regression(fvec(in["y"]), fvec2(in["x"]), in["const"].b)); };
    m["uindex"] = [](const J& in) { vec v = fvec(in["v"]); float x = in["x"].n; return obj({{"lo", out(Util::getLowerIndex(x, v))}, {"hi", out(Util::getUpperIndex(x, v))}}); };
    m["uvalid"] = [](const J& in) { std::vector<std::string> r; for(float x : fvec(in["x"])) r.push_back(out(Util::isValid(x))); return list(r); };
    m["shuffle"] = [](const J& in) { vec a = fvec(in["after"]); Calibrator::shuffle(fvec(in["before"]), a); return out(a); };
    m["ensstr"] = [](const J& in) { return chars(Util::formatDescription(text(in["title"]), text(in["msg"]), (int) in["tl"].n, (int) in["ml"].n, (int) in["ti"].n)); };
    // files as stores of fields
    m["f_new"] = [](const J& in) { store().files[in["f"].s].reset(in.has("fake") ? (File*) new FileFake(options(in["fake"])) : (File*) new MemFile(in)); return out(true); };
    m["f_get"] = [](const J& in) { Variable v(in["v"].s); if(in.has("level")) v.level((int) in["level"].n); FieldPtr p = in["byvar"].b ? file(in["f"]).getField(v, (int) in["t"].n, in["skip"].b) : file(in["f"]).getField(in["v"].s, (int) in["t"].n); return field(*p); };
    m["f_poke"] = [](const J& in) { FieldPtr p = file(in["f"]).getField(in["v"].s, (int) in["t"].n); (*p)((int) in["y"].n, (int) in["x"].n, (int) in["e"].n) = (float) in["val"].n; return out(true); };
    m["f_add"] = [](const J& in) { file(in["f"]).addField(mkfield(in["field"]), Variable(in["v"].s), (int) in["t"].n); return out(true); };
    m["f_empty"] = [](const J& in) { return field(*(in.has("fill") ? file(in["f"]).getEmptyField((float) in["fill"].n) : file(in["f"]).getEmptyField())); };
    m["f_init"] = [](const J& in) { file(in["f"]).initNewVariable(Variable(in["v"].s)); return out(true); };
    m["f_has"] = [](const J& in) { return out(file(in["f"]).hasVariable(Variable(in["v"].s))); };
    m["f_clear"] = [](const J& in) { file(in["f"]).clear(); return out(true); };
    m["f_cache"] = [](const J& in) { return out((int) file(in["f"]).getCacheSize()); };
    m["f_tag"] = [](const J& in) { return out((int) file(in["f"]).getUniqueTag()); };
    m["f_alias"] = [](const J& in) { file(in["f"]).addVariableAlias(in["a"].s, Variable(in["v"].s)); return out(true); };
    m["f_setlats"] = [](const J& in) { return out(file(in["f"]).setLats(fvec2(in["x"]))); };
    m["f_setlons"] = [](const J& in) { return out(file(in["f"]).setLons(fvec2(in["x"]))); };
    m["f_setelevs"] = [](const J& in) { return out(file(in["f"]).setElevs(fvec2(in["x"]))); };
    m["f_setlafs"] = [](const J& in) { return out(file(in["f"]).setLandFractions(fvec2(in["x"]))); };
    m["f_grid"] = [](const J& in) { File& f = file(in["f"]); return obj({{"lats", out(f.getLats())}, {"lons", out(f.getLons())}, {"elevs", out(f.getElevs())}, {"lafs", out(f.getLandFractions())}, {"has", out(f.hasElevs())}}); };
    m["f_dims"] = [](const J& in) { File& f = file(in["f"]); return obj({{"y", out(f.getNumY())}, {"x", out(f.getNumX())}, {"e", out(f.getNumEns())}, {"t", out(f.getNumTime())}, {"times", out(f.getTimes())}, {"ref", out(f.getReferenceTime())}}); };
    m["f_same"] = [](const J& in) { return out(file(in["f"]).hasSameDimensions(file(in["g"]))); };
    m["f_settimes"] = [](const J& in) { std::vector<double> t; for(auto& x : in["x"].a) t.push_back(x.n); file(in["f"]).setTimes(t); return out(true); };
    m["f_setens"] = [](const J& in) { return out(file(in["f"]).setNumEns((int) in["n"].n)); };
    m["f_setref"] = [](const J& in) { file(in["f"]).setReferenceTime(in["t"].n); return out(true); };
    // parameter files
    m["p_new"] = [](const J& in) { Options o = options(in["opt"]); store().pars[in["p"].s].reset(ParameterFile::getScheme(in["type"].s, o, in["new"].b)); return out(true); };
    m["p_set"] = [](const J& in) { Parameters p(fvec(in["v"])); if(in.has("loc")) par(in["p"]).setParameters(p, (int) in["t"].n, loc(in["loc"])); else par(in["p"]).setParameters(p, (int) in["t"].n); return out(true); };
    m["p_tree"] = [](const J& in) { par(in["p"]).recomputeTree(); return out(true); };
    m["p_get"] = [](const J& in) { Parameters p = in.has("loc") ? par(in["p"]).getParameters((int) in["t"].n, loc(in["loc"]), in["near"].b) : par(in["p"]).getParameters((int) in["t"].n); return out(p.getValues()); };
    m["p_info"] = [](const J& in) { ParameterFile& p = par(in["p"]); std::vector<std::string> l; for(auto& x : p.getLocations()) l.push_back(out(vec({x.lat(), x.lon(), x.elev()})));
        return obj({{"locs", list(l)}, {"locdep", out(p.isLocationDependent())}, {"timedep", out(p.isTimeDependent())}, {"num", out(p.getNumParameters())}, {"times", out(p.getTimes())}, {"readable", out(p.isReadable())}}); };
    m["p_del"] = [](const J& in) { store().pars.erase(in["p"].s); return out(true); };
    m["p_write"] = [](const J& in) { par(in["p"]).write(); return out(true); };
    m["w_text"] = [](const J& in) { FILE* f = fopen(in["path"].s.c_str(), "w"); if(!f) throw HarnessError{"cannot write " + in["path"].s}; std::string s = text(in["s"]); fwrite(s.data(), 1, s.size(), f); fclose(f); return out(true); };
}
