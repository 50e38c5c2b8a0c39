// Geometry: points, grids, searches, distances; structure functions; transforms; session objects.
#include "api.h"
std::shared_ptr<StructureFunction> mkstruct(const J& j) {
    if(j.t == J::Str) return store().structs.at(j.s);
    if(j.has("ref")) return store().structs.at(j["ref"].s);
    const std::string& k = j["kind"].s;
    typedef std::shared_ptr<StructureFunction> S;
    if(k == "Multiple") { S a = mkstruct(j["sh"]), b = mkstruct(j["sv"]), c = mkstruct(j["sw"]); return S(new MultipleStructure(*a, *b, *c)); }
    if(k == "CrossValidation") { S a = mkstruct(j["s"]); return S(new CrossValidation(*a, From<float>::get(j["dist"]))); }
    if(j.has("clone")) { J q = j; q.o.erase("clone"); return mkstruct(q)->clone(); }
    if(j.has("grid")) {
        Grid g = From<Grid>::get(j["grid"]);
        vec2 h = From<vec2>::get(j["h"]), v = From<vec2>::get(j["v"]), w = From<vec2>::get(j["w"]);
        bool M = j.has("minrho"); float m = M ? From<float>::get(j["minrho"]) : 0;
        if(k == "Barnes") return S(M ? new BarnesStructure(g, h, v, w, m) : new BarnesStructure(g, h, v, w));
        if(k == "Soar") return S(M ? new SoarStructure(g, h, v, w, m) : new SoarStructure(g, h, v, w));
        if(k == "Toar") return S(M ? new ToarStructure(g, h, v, w, m) : new ToarStructure(g, h, v, w));
        if(k == "Powerlaw") return S(M ? new PowerlawStructure(g, h, v, w, m) : new PowerlawStructure(g, h, v, w));
        if(k == "Linear") return S(M ? new LinearStructure(g, h, v, w, m) : new LinearStructure(g, h, v, w));
    }
    else {
        float h = From<float>::get(j["h"]), v = From<float>::get(j["v"]), w = From<float>::get(j["w"]);
        if(k == "Cressman") return S(new CressmanStructure(h, v, w));
        float m = j.has("hmax") ? From<float>::get(j["hmax"]) : MV;
        if(k == "Barnes") return S(new BarnesStructure(h, v, w, m));
        if(k == "Soar") return S(new SoarStructure(h, v, w, m));
        if(k == "Toar") return S(new ToarStructure(h, v, w, m));
        if(k == "Powerlaw") return S(new PowerlawStructure(h, v, w, m));
        if(k == "Linear") return S(new LinearStructure(h, v, w, m));
    }
    throw HarnessError{"unknown structure " + k};
}
std::shared_ptr<Transform> mktransform(const J& j) {
    const std::string& k = j["kind"].s;
    typedef std::shared_ptr<Transform> S;
    if(k == "Identity") return S(new Identity());
    if(k == "Log") return S(new Log());
    if(k == "BoxCox") return S(new BoxCox(From<float>::get(j["p"])));
    if(k == "StartedBoxCox") return S(new StartedBoxCox(From<float>::get(j["p"]), From<float>::get(j["q"])));
    if(k == "Gamma") return S(new Gamma(From<float>::get(j["p"]), From<float>::get(j["q"]), From<float>::get(j["tol"])));
    throw HarnessError{"unknown transform"};
}
static float F(const J& in, const char* k) { return From<float>::get(in[k]); }
static std::string describe(const Points& p) {
    vec x, y, z;
    return obj({{"kind", "\"points\""}, {"size", out(p.size())}, {"lats", out(p.get_lats())}, {"lons", out(p.get_lons())}, {"elevs", out(p.get_elevs())}, {"lafs", out(p.get_lafs())},
        {"type", p.get_coordinate_type() == Cartesian ? "\"cart\"" : "\"geo\""}});
}
static std::string describe(const Grid& g) {
    return obj({{"kind", "\"grid\""}, {"size", out(g.size())}, {"lats", out(g.get_lats())}, {"lons", out(g.get_lons())}, {"elevs", out(g.get_elevs())}, {"lafs", out(g.get_lafs())},
        {"type", g.get_coordinate_type() == Cartesian ? "\"cart\"" : "\"geo\""}});
}
static std::string describe(const KDTree& t) {
    return obj({{"kind", "\"tree\""}, {"size", out(t.size())}, {"lats", out(t.get_lats())}, {"lons", out(t.get_lons())}, {"type", t.get_coordinate_type() == Cartesian ? "\"cart\"" : "\"geo\""}});
}
static std::string describe(const Point& p) {
    return obj({{"lat", out(p.lat)}, {"lon", out(p.lon)}, {"elev", out(p.elev)}, {"laf", out(p.laf)}, {"type", p.type == Cartesian ? "\"cart\"" : "\"geo\""}, {"xyz", out(vec({p.x, p.y, p.z}))}});
}
template<class G> std::string query(const G& g, const J& in) {
    const std::string& q = in["q"].s;
    float lat = F(in, "lat"), lon = F(in, "lon");
    bool m = in.has("match") ? in["match"].b : true;
    if(q == "nearest") return out(g.get_nearest_neighbour(lat, lon, m));
    if(q == "closest") return out(g.get_closest_neighbours(lat, lon, (int) in["num"].n, m));
    if(q == "radius") return out(g.get_neighbours(lat, lon, F(in, "radius"), m));
    if(q == "count") return out(g.get_num_neighbours(lat, lon, F(in, "radius"), m));
    if(q == "radiusd") { vec d; auto i = g.get_neighbours_with_distance(lat, lon, F(in, "radius"), d, m); return obj({{"i", out(i)}, {"d", out(d)}}); }
    throw HarnessError{"unknown query " + q};
}
// a name stands for one object
static void put(const std::string& id, std::shared_ptr<Grid> p) { Store& s = store(); s.points.erase(id); s.trees.erase(id); s.grids[id] = p; }
static void put(const std::string& id, std::shared_ptr<Points> p) { Store& s = store(); s.grids.erase(id); s.trees.erase(id); s.points[id] = p; }
static void put(const std::string& id, std::shared_ptr<KDTree> p) { Store& s = store(); s.grids.erase(id); s.points.erase(id); s.trees[id] = p; }
void register1() {
    auto& O = ops();
    O["mk_grid"] = [](const J& in) { auto p = std::make_shared<Grid>(From<Grid>::get(in["def"])); put(in["id"].s, p); return describe(*p); };
    O["mk_points"] = [](const J& in) { auto p = std::make_shared<Points>(From<Points>::get(in["def"])); put(in["id"].s, p); return describe(*p); };
    O["mk_tree"] = [](const J& in) { const J& d = in["def"]; auto p = std::make_shared<KDTree>(From<vec>::get(d["lats"]), From<vec>::get(d["lons"]), ctype(d["type"].s)); put(in["id"].s, p); return describe(*p); };
    O["mk_points_from_tree"] = [](const J& in) { auto p = std::make_shared<Points>(*store().trees.at(in["tree"].s), From<vec>::get(in["elevs"]), From<vec>::get(in["lafs"])); put(in["id"].s, p); return describe(*p); };
    // a copy made by construction, of whichever kind
    O["copy"] = [](const J& in) {
        Store& s = store(); const std::string &a = in["from"].s, &b = in["id"].s;
        if(s.grids.count(a)) { auto p = std::make_shared<Grid>(*s.grids[a]); put(b, p); return describe(*p); }
        if(s.points.count(a)) { auto p = std::make_shared<Points>(*s.points[a]); put(b, p); return describe(*p); }
        auto p = std::make_shared<KDTree>(*s.trees.at(a)); put(b, p); return describe(*p);
    };
    // assignment to an existing object of the same kind
    O["assign"] = [](const J& in) {
        Store& s = store(); const std::string &a = in["from"].s, &b = in["id"].s;
        if(s.grids.count(a)) { *s.grids.at(b) = *s.grids[a]; return describe(*s.grids[b]); }
        if(s.points.count(a)) { *s.points.at(b) = *s.points[a]; return describe(*s.points[b]); }
        *s.trees.at(b) = *s.trees.at(a); return describe(*s.trees[b]);
    };
    O["del"] = [](const J& in) { Store& s = store(); s.grids.erase(in["id"].s); s.points.erase(in["id"].s); s.trees.erase(in["id"].s); return out(true); };
    O["get"] = [](const J& in) {
        Store& s = store(); const std::string& a = in["id"].s;
        if(s.grids.count(a)) return describe(*s.grids[a]);
        if(s.points.count(a)) return describe(*s.points[a]);
        return describe(*s.trees.at(a));
    };
    O["to_points"] = [](const J& in) { auto p = std::make_shared<Points>(store().grids.at(in["from"].s)->to_points()); put(in["id"].s, p); return describe(*p); };
    O["subset"] = [](const J& in) { auto p = std::make_shared<Points>(store().points.at(in["from"].s)->subset(From<ivec>::get(in["indices"]))); put(in["id"].s, p); return describe(*p); };
    O["in_domain"] = [](const J& in) {
        auto& src = store().points.at(in["from"].s); Grid& g = *store().grids.at(in["grid"].s);
        ivec i = src->get_in_domain_indices(g);
        auto p = std::make_shared<Points>(src->get_in_domain(g)); put(in["id"].s, p);
        return obj({{"indices", out(i)}, {"points", describe(*p)}});
    };
    O["get_point"] = [](const J& in) {
        Store& s = store(); const std::string& a = in["id"].s;
        if(s.grids.count(a)) return describe(s.grids[a]->get_point((int) in["y"].n, (int) in["x"].n));
        return describe(s.points.at(a)->get_point((int) in["y"].n));
    };
    O["query"] = [](const J& in) {
        Store& s = store(); const std::string& a = in["id"].s;
        if(s.grids.count(a)) return query(*s.grids[a], in);
        if(s.points.count(a)) return query(*s.points[a], in);
        return query(*s.trees.at(a), in);
    };
    O["get_box"] = [](const J& in) {
        int a = -1, b = -1, c = -1, d = -1;
        bool f = store().grids.at(in["id"].s)->get_box(F(in, "lat"), F(in, "lon"), a, b, c, d);
        if(!f) a = b = c = d = -1; // Only a box that was found counts
        return obj({{"found", out(f)}, {"box", out(ivec({a, b, c, d}))}});
    };
    O["point_in_rectangle"] = [](const J& in) { return out(point_in_rectangle(From<Point>::get(in["a"]), From<Point>::get(in["b"]), From<Point>::get(in["c"]), From<Point>::get(in["d"]), From<Point>::get(in["m"]))); };
    O["point"] = [](const J& in) { return describe(From<Point>::get(in)); };
    O["calc_distance"] = [](const J& in) { return out(KDTree::calc_distance(F(in, "lat1"), F(in, "lon1"), F(in, "lat2"), F(in, "lon2"), ctype(in["type"].s))); };
    O["calc_distance_fast"] = [](const J& in) { return out(KDTree::calc_distance_fast(F(in, "lat1"), F(in, "lon1"), F(in, "lat2"), F(in, "lon2"), ctype(in["type"].s))); };
    O["calc_distance_p"] = [](const J& in) { return out(KDTree::calc_distance(From<Point>::get(in["a"]), From<Point>::get(in["b"]))); };
    O["calc_straight_distance"] = [](const J& in) { return out(KDTree::calc_straight_distance(From<Point>::get(in["a"]), From<Point>::get(in["b"]))); };
    O["convert_coordinates"] = [](const J& in) {
        if(in["lats"].t == J::Arr) { vec x, y, z; bool r = convert_coordinates(From<vec>::get(in["lats"]), From<vec>::get(in["lons"]), ctype(in["type"].s), x, y, z); return obj({{"ok", out(r)}, {"x", out(x)}, {"y", out(y)}, {"z", out(z)}}); }
        float x, y, z; bool r = convert_coordinates(F(in, "lats"), F(in, "lons"), ctype(in["type"].s), x, y, z); return obj({{"ok", out(r)}, {"x", out(x)}, {"y", out(y)}, {"z", out(z)}});
    };
    reg("distance_gp", SIG(vec, const Grid&, const Points&, int) &gridpp::distance, {"from", "to", "num"});
    reg("distance_gg", SIG(vec2, const Grid&, const Grid&, int) &gridpp::distance, {"from", "to", "num"});
    reg("distance_pg", SIG(vec2, const Points&, const Grid&, int) &gridpp::distance, {"from", "to", "num"});
    reg("distance_pp", SIG(vec, const Points&, const Points&, int) &gridpp::distance, {"from", "to", "num"});
    reg("count_gp", SIG(vec, const Grid&, const Points&, float) &gridpp::count, {"from", "to", "radius"});
    reg("count_gg", SIG(vec2, const Grid&, const Grid&, float) &gridpp::count, {"from", "to", "radius"});
    reg("count_pg", SIG(vec2, const Points&, const Grid&, float) &gridpp::count, {"from", "to", "radius"});
    reg("count_pp", SIG(vec, const Points&, const Points&, float) &gridpp::count, {"from", "to", "radius"});

    // structure functions
    O["mk_struct"] = [](const J& in) { store().structs[in["id"].s] = mkstruct(in["def"]); return out(true); };
    O["struct_clone"] = [](const J& in) { store().structs[in["id"].s] = store().structs.at(in["from"].s)->clone(); return out(true); };
    O["struct_del"] = [](const J& in) { store().structs.erase(in["id"].s); return out(true); };
    O["corr"] = [](const J& in) { auto s = mkstruct(in["s"]); Point a = From<Point>::get(in["a"]), b = From<Point>::get(in["b"]);
        std::vector<Point> v(1, b);
        return obj({{"corr", out(s->corr(a, b))}, {"bg", out(s->corr_background(a, b))}, {"rev", out(s->corr(b, a))}, {"list", out(s->corr(a, v))}, {"bglist", out(s->corr_background(a, v))}, {"loc", out(s->localization_distance(a))}}); };
    O["corr_list"] = [](const J& in) { auto s = mkstruct(in["s"]); Point a = From<Point>::get(in["a"]); std::vector<Point> v; for(auto& p : in["b"].a) v.push_back(From<Point>::get(p));
        vec one, onebg; for(auto& p : v) { one.push_back(s->corr(a, p)); onebg.push_back(s->corr_background(a, p)); }
        return obj({{"list", out(s->corr(a, v))}, {"bglist", out(s->corr_background(a, v))}, {"one", out(one)}, {"onebg", out(onebg)}, {"loc", out(s->localization_distance(a))}}); };
    reg("staticcorr_points", SIG(vec2, const Points&, const Points&, const StructureFunction&, int) &gridpp::staticcorr_points, {"points", "knots", "structure", "max_points"});

    // transforms
    O["transform"] = [](const J& in) {
        auto t = mktransform(in["t"]); bool f = in["dir"].s == "forward"; int d = (int) in["dim"].n; const J& x = in["x"];
        if(d == 0) { float v = From<float>::get(x); return out(f ? t->forward(v) : t->backward(v)); }
        if(d == 1) { vec v = From<vec>::get(x); return out(f ? t->forward(v) : t->backward(v)); }
        if(d == 2) { vec2 v = From<vec2>::get(x); return out(f ? t->forward(v) : t->backward(v)); }
        vec3 v = From<vec3>::get(x); return out(f ? t->forward(v) : t->backward(v));
    };
    O["transform_roundtrip"] = [](const J& in) {
        auto t = mktransform(in["t"]); vec v = From<vec>::get(in["x"]); vec f = t->forward(v);
        return obj({{"f", out(f)}, {"b", out(t->backward(f))}, {"b2", out(t->backward(v))}, {"f2", out(t->forward(t->backward(v)))}});
    };
}
