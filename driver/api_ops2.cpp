// Fields: statistics, windows, neighbourhoods, downscaling, gridding, fill.
#include "api.h"
void register2() {
    auto& O = ops();
    O["is_valid"] = [](const J& in) { vec v = From<vec>::get(in["x"]); std::vector<bool> b; std::string r = "["; for(size_t i = 0; i < v.size(); i++) { if(i) r += ","; r += out(gridpp::is_valid(v[i])); } return r + "]"; };
    reg("num_missing_values", SIG(int, const vec2&) &gridpp::num_missing_values, {"x"});
    reg("calc_statistic", SIG(float, const vec&, Statistic) &gridpp::calc_statistic, {"x", "stat"});
    reg("calc_statistic2", SIG(vec, const vec2&, Statistic) &gridpp::calc_statistic, {"x", "stat"});
    reg("calc_quantile", SIG(float, const vec&, float) &gridpp::calc_quantile, {"x", "q"});
    reg("calc_quantile2", SIG(vec, const vec2&, float) &gridpp::calc_quantile, {"x", "q"});
    reg("calc_quantile3", SIG(vec2, const vec3&, const vec2&) &gridpp::calc_quantile, {"x", "q"});
    reg("calc_even_quantiles", SIG(vec, const vec&, int) &gridpp::calc_even_quantiles, {"x", "num"});
    reg("get_lower_index", SIG(int, float, const vec&) &gridpp::get_lower_index, {"x", "v"});
    reg("get_upper_index", SIG(int, float, const vec&) &gridpp::get_upper_index, {"x", "v"});
    reg("interpolate", SIG(float, float, const vec&, const vec&) &gridpp::interpolate, {"x", "X", "Y"});
    reg("interpolate1", SIG(vec, const vec&, const vec&, const vec&) &gridpp::interpolate, {"x", "X", "Y"});
    O["get_statistic"] = [](const J& in) { return out((int) gridpp::get_statistic(in["name"].s)); };
    O["enum"] = [](const J& in) { return out((int) stat(in["stat"].s)); };
    O["init"] = [](const J& in) {
        int y = in["y"].n, x = in["x"].n, e = in["e"].n; const std::string& k = in["k"].s;
        if(k == "vec2") return out(init_vec2(y, x, From<float>::get(in["v"])));
        if(k == "vec3") return out(init_vec3(y, x, e, From<float>::get(in["v"])));
        if(k == "ivec2") return out(init_ivec2(y, x, (int) in["v"].n));
        return out(init_ivec3(y, x, e, (int) in["v"].n));
    };
    O["compatible"] = [](const J& in) {
        const std::string& k = in["k"].s;
        if(k == "g2") return out(compatible_size(From<Grid>::get(in["a"]), From<vec2>::get(in["b"])));
        if(k == "g3") return out(compatible_size(From<Grid>::get(in["a"]), From<vec3>::get(in["b"])));
        if(k == "p1") return out(compatible_size(From<Points>::get(in["a"]), From<vec>::get(in["b"])));
        if(k == "p2") return out(compatible_size(From<Points>::get(in["a"]), From<vec2>::get(in["b"])));
        if(k == "22") return out(compatible_size(From<vec2>::get(in["a"]), From<vec2>::get(in["b"])));
        if(k == "23") return out(compatible_size(From<vec2>::get(in["a"]), From<vec3>::get(in["b"])));
        return out(compatible_size(From<vec3>::get(in["a"]), From<vec3>::get(in["b"])));
    };
    reg("window", SIG(vec2, const vec2&, int, Statistic, bool, bool, bool) &gridpp::window, {"x", "length", "stat", "before", "keep", "edges"});
    reg("neighbourhood2", SIG(vec2, const vec2&, int, Statistic) &gridpp::neighbourhood, {"x", "hw", "stat"});
    reg("neighbourhood3", SIG(vec2, const vec3&, int, Statistic) &gridpp::neighbourhood, {"x", "hw", "stat"});
    reg("neighbourhood_bf2", SIG(vec2, const vec2&, int, Statistic) &gridpp::neighbourhood_brute_force, {"x", "hw", "stat"});
    reg("neighbourhood_bf3", SIG(vec2, const vec3&, int, Statistic) &gridpp::neighbourhood_brute_force, {"x", "hw", "stat"});
    reg("neighbourhood_ens", SIG(vec2, const vec3&, int, Statistic) &gridpp::neighbourhood_ens, {"x", "hw", "stat"});
    reg("neighbourhood_quantile2", SIG(vec2, const vec2&, float, int) &gridpp::neighbourhood_quantile, {"x", "q", "hw"});
    reg("neighbourhood_quantile3", SIG(vec2, const vec3&, float, int) &gridpp::neighbourhood_quantile, {"x", "q", "hw"});
    reg("neighbourhood_quantile_ens", SIG(vec2, const vec3&, float, int) &gridpp::neighbourhood_quantile_ens, {"x", "q", "hw"});
    reg("nqf2", SIG(vec2, const vec2&, float, int, const vec&) &gridpp::neighbourhood_quantile_fast, {"x", "q", "hw", "t"});
    reg("nqf3", SIG(vec2, const vec3&, float, int, const vec&) &gridpp::neighbourhood_quantile_fast, {"x", "q", "hw", "t"});
    reg("nqf2v", SIG(vec2, const vec2&, const vec2&, int, const vec&) &gridpp::neighbourhood_quantile_fast, {"x", "q", "hw", "t"});
    reg("nqf3v", SIG(vec2, const vec3&, const vec2&, int, const vec&) &gridpp::neighbourhood_quantile_fast, {"x", "q", "hw", "t"});
    reg("nqf3e", SIG(vec2, const vec3&, float, int, const vec&) &gridpp::neighbourhood_quantile_ens_fast, {"x", "q", "hw", "t"});
    reg("nthresholds2", SIG(vec, const vec2&, int) &gridpp::get_neighbourhood_thresholds, {"x", "num"});
    reg("nthresholds3", SIG(vec, const vec3&, int) &gridpp::get_neighbourhood_thresholds, {"x", "num"});
    reg("calc_gradient", SIG(vec2, const vec2&, const vec2&, GradientType, int, int, float, float) &gridpp::calc_gradient, {"base", "values", "type", "hw", "min_num", "min_range", "default"});
    reg("neighbourhood_search", SIG(vec2, const vec2&, const vec2&, int, float, float, float, const ivec2&) &gridpp::neighbourhood_search, {"x", "search", "hw", "tmin", "tmax", "delta", "apply"});
    reg("neighbourhood_score", SIG(vec2, const Grid&, const Points&, const vec2&, const vec&, int, Metric, float) &gridpp::neighbourhood_score, {"grid", "points", "fcst", "ref", "hw", "metric", "threshold"});
    reg("fill", SIG(vec2, const Grid&, const vec2&, const Points&, const vec&, float, bool) &gridpp::fill, {"grid", "x", "points", "radii", "value", "outside"});
    reg("fill_missing", SIG(vec2, const vec2&) &gridpp::fill_missing, {"x"});
    reg("doping_square", SIG(vec2, const Grid&, const vec2&, const Points&, const vec&, const ivec&, float) &gridpp::doping_square, {"grid", "x", "points", "obs", "hw", "max_elev"});
    reg("doping_circle", SIG(vec2, const Grid&, const vec2&, const Points&, const vec&, const vec&, float) &gridpp::doping_circle, {"grid", "x", "points", "obs", "radii", "max_elev"});
    reg("gridding_g", SIG(vec2, const Grid&, const Points&, const vec&, float, int, Statistic) &gridpp::gridding, {"to", "points", "x", "radius", "min_num", "stat"});
    reg("gridding_p", SIG(vec, const Points&, const Points&, const vec&, float, int, Statistic) &gridpp::gridding, {"to", "points", "x", "radius", "min_num", "stat"});
    reg("gridding_nearest_g", SIG(vec2, const Grid&, const Points&, const vec&, int, Statistic) &gridpp::gridding_nearest, {"to", "points", "x", "min_num", "stat"});
    reg("gridding_nearest_p", SIG(vec, const Points&, const Points&, const vec&, int, Statistic) &gridpp::gridding_nearest, {"to", "points", "x", "min_num", "stat"});
}
