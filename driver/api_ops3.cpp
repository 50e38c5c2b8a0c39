// Downscaling, curves, scores, diagnostics, interpolation of observations.
#include "api.h"
void register3() {
    auto& O = ops();
    reg("nearest_gg2", SIG(vec2, const Grid&, const Grid&, const vec2&) &gridpp::nearest, {"from", "to", "x"});
    reg("nearest_gg3", SIG(vec3, const Grid&, const Grid&, const vec3&) &gridpp::nearest, {"from", "to", "x"});
    reg("nearest_gp2", SIG(vec, const Grid&, const Points&, const vec2&) &gridpp::nearest, {"from", "to", "x"});
    reg("nearest_gp3", SIG(vec2, const Grid&, const Points&, const vec3&) &gridpp::nearest, {"from", "to", "x"});
    reg("nearest_pp1", SIG(vec, const Points&, const Points&, const vec&) &gridpp::nearest, {"from", "to", "x"});
    reg("nearest_pp2", SIG(vec2, const Points&, const Points&, const vec2&) &gridpp::nearest, {"from", "to", "x"});
    reg("nearest_pg1", SIG(vec2, const Points&, const Grid&, const vec&) &gridpp::nearest, {"from", "to", "x"});
    reg("nearest_pg2", SIG(vec3, const Points&, const Grid&, const vec2&) &gridpp::nearest, {"from", "to", "x"});
    reg("bilinear_gg2", SIG(vec2, const Grid&, const Grid&, const vec2&) &gridpp::bilinear, {"from", "to", "x"});
    reg("bilinear_gg3", SIG(vec3, const Grid&, const Grid&, const vec3&) &gridpp::bilinear, {"from", "to", "x"});
    reg("bilinear_gp2", SIG(vec, const Grid&, const Points&, const vec2&) &gridpp::bilinear, {"from", "to", "x"});
    reg("bilinear_gp3", SIG(vec2, const Grid&, const Points&, const vec3&) &gridpp::bilinear, {"from", "to", "x"});
    reg("downscaling_gg2", SIG(vec2, const Grid&, const Grid&, const vec2&, Downscaler) &gridpp::downscaling, {"from", "to", "x", "d"});
    reg("downscaling_gg3", SIG(vec3, const Grid&, const Grid&, const vec3&, Downscaler) &gridpp::downscaling, {"from", "to", "x", "d"});
    reg("downscaling_gp2", SIG(vec, const Grid&, const Points&, const vec2&, Downscaler) &gridpp::downscaling, {"from", "to", "x", "d"});
    reg("downscaling_gp3", SIG(vec2, const Grid&, const Points&, const vec3&, Downscaler) &gridpp::downscaling, {"from", "to", "x", "d"});
    reg("simple_gradient_gg2", SIG(vec2, const Grid&, const Grid&, const vec2&, float, Downscaler) &gridpp::simple_gradient, {"from", "to", "x", "eg", "d"});
    reg("simple_gradient_gg3", SIG(vec3, const Grid&, const Grid&, const vec3&, float, Downscaler) &gridpp::simple_gradient, {"from", "to", "x", "eg", "d"});
    reg("simple_gradient_gp2", SIG(vec, const Grid&, const Points&, const vec2&, float, Downscaler) &gridpp::simple_gradient, {"from", "to", "x", "eg", "d"});
    reg("simple_gradient_gp3", SIG(vec2, const Grid&, const Points&, const vec3&, float, Downscaler) &gridpp::simple_gradient, {"from", "to", "x", "eg", "d"});
    reg("full_gradient_gg2", SIG(vec2, const Grid&, const Grid&, const vec2&, const vec2&, const vec2&, Downscaler) &gridpp::full_gradient, {"from", "to", "x", "eg", "lg", "d"});
    reg("full_gradient_gg3", SIG(vec3, const Grid&, const Grid&, const vec3&, const vec3&, const vec3&, Downscaler) &gridpp::full_gradient, {"from", "to", "x", "eg", "lg", "d"});
    reg("full_gradient_gp2", SIG(vec, const Grid&, const Points&, const vec2&, const vec2&, const vec2&, Downscaler) &gridpp::full_gradient, {"from", "to", "x", "eg", "lg", "d"});
    reg("full_gradient_gp3", SIG(vec2, const Grid&, const Points&, const vec3&, const vec3&, const vec3&, Downscaler) &gridpp::full_gradient, {"from", "to", "x", "eg", "lg", "d"});
    reg("full_gradient_debug", SIG(vec3, const Grid&, const Grid&, const vec2&, const vec2&, const vec2&, Downscaler) &gridpp::full_gradient_debug, {"from", "to", "x", "eg", "lg", "d"});
    reg("smart", SIG(vec2, const Grid&, const Grid&, const vec2&, int, const StructureFunction&) &gridpp::smart, {"from", "to", "x", "num", "structure"});
    reg("downscale_probability", SIG(vec2, const Grid&, const Grid&, const vec3&, const vec2&, const ComparisonOperator&) &gridpp::downscale_probability, {"from", "to", "x", "threshold", "cmp"});
    reg("mask_consensus", SIG(vec2, const Grid&, const Grid&, const vec3&, const vec3&, const vec3&, const vec2&, const ComparisonOperator&, const Statistic&) &gridpp::mask_threshold_downscale_consensus, {"from", "to", "xt", "xf", "tv", "threshold", "cmp", "stat"});
    reg("mask_quantile", SIG(vec2, const Grid&, const Grid&, const vec3&, const vec3&, const vec3&, const vec2&, const ComparisonOperator&, const float) &gridpp::mask_threshold_downscale_quantile, {"from", "to", "xt", "xf", "tv", "threshold", "cmp", "q"});

    O["quantile_mapping_curve"] = [](const J& in) { vec f; vec r = quantile_mapping_curve(From<vec>::get(in["ref"]), From<vec>::get(in["fcst"]), f, From<vec>::get(in["quantiles"])); return obj({{"ref", out(r)}, {"fcst", out(f)}}); };
    O["monotonize_curve"] = [](const J& in) { vec f; vec r = monotonize_curve(From<vec>::get(in["ref"]), From<vec>::get(in["fcst"]), f); return obj({{"ref", out(r)}, {"fcst", out(f)}}); };
    O["metric_optimizer_curve"] = [](const J& in) { vec f; vec r = metric_optimizer_curve(From<vec>::get(in["ref"]), From<vec>::get(in["fcst"]), From<vec>::get(in["thresholds"]), From<Metric>::get(in["metric"]), f); return obj({{"ref", out(r)}, {"fcst", out(f)}}); };
    reg("apply_curve0", SIG(float, float, const vec&, const vec&, Extrapolation, Extrapolation) &gridpp::apply_curve, {"x", "ref", "fcst", "below", "above"});
    reg("apply_curve1", SIG(vec, const vec&, const vec&, const vec&, Extrapolation, Extrapolation) &gridpp::apply_curve, {"x", "ref", "fcst", "below", "above"});
    reg("apply_curve2", SIG(vec2, const vec2&, const vec&, const vec&, Extrapolation, Extrapolation) &gridpp::apply_curve, {"x", "ref", "fcst", "below", "above"});
    reg("apply_curve3", SIG(vec2, const vec2&, const vec3&, const vec3&, Extrapolation, Extrapolation) &gridpp::apply_curve, {"x", "ref", "fcst", "below", "above"});
    reg("get_optimal_threshold", SIG(float, const vec&, const vec&, float, Metric) &gridpp::get_optimal_threshold, {"ref", "fcst", "threshold", "metric"});
    reg("calc_score4", SIG(float, float, float, float, float, Metric) &gridpp::calc_score, {"a", "b", "c", "d", "metric"});
    reg("calc_score3", SIG(float, const vec&, const vec&, float, Metric) &gridpp::calc_score, {"ref", "fcst", "threshold", "metric"});
    reg("calc_score3f", SIG(float, const vec&, const vec&, float, float, Metric) &gridpp::calc_score, {"ref", "fcst", "threshold", "fthreshold", "metric"});

    reg("dewpoint0", SIG(float, float, float) &gridpp::dewpoint, {"t", "rh"});
    reg("dewpoint1", SIG(vec, const vec&, const vec&) &gridpp::dewpoint, {"t", "rh"});
    reg("relative_humidity0", SIG(float, float, float) &gridpp::relative_humidity, {"t", "td"});
    reg("relative_humidity1", SIG(vec, const vec&, const vec&) &gridpp::relative_humidity, {"t", "td"});
    reg("wetbulb0", SIG(float, float, float, float) &gridpp::wetbulb, {"t", "p", "rh"});
    reg("wetbulb1", SIG(vec, const vec&, const vec&, const vec&) &gridpp::wetbulb, {"t", "p", "rh"});
    reg("pressure0", SIG(float, float, float, float, float) &gridpp::pressure, {"ie", "oe", "p", "t"});
    reg("pressure1", SIG(vec, const vec&, const vec&, const vec&, const vec&) &gridpp::pressure, {"ie", "oe", "p", "t"});
    reg("slp0", SIG(float, float, float, float, float, float) &gridpp::sea_level_pressure, {"ps", "alt", "t", "rh", "td"});
    reg("slp1", SIG(vec, const vec&, const vec&, const vec&, const vec&, const vec&) &gridpp::sea_level_pressure, {"ps", "alt", "t", "rh", "td"});
    reg("qnh0", SIG(float, float, float) &gridpp::qnh, {"p", "alt"});
    reg("qnh1", SIG(vec, const vec&, const vec&) &gridpp::qnh, {"p", "alt"});
    reg("wind_speed0", SIG(float, float, float) &gridpp::wind_speed, {"x", "y"});
    reg("wind_speed1", SIG(vec, const vec&, const vec&) &gridpp::wind_speed, {"x", "y"});
    reg("wind_direction0", SIG(float, float, float) &gridpp::wind_direction, {"x", "y"});
    reg("wind_direction1", SIG(vec, const vec&, const vec&) &gridpp::wind_direction, {"x", "y"});
    reg("gamma_inv", SIG(vec, const vec&, const vec&, const vec&) &gridpp::gamma_inv, {"levels", "shape", "scale"});

    reg("oi_g", SIG(vec2, const Grid&, const vec2&, const Points&, const vec&, const vec&, const vec&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation,
        {"bgrid", "x", "points", "obs", "ratios", "pbg", "structure", "max_points", "extrap"});
    reg("oi_p", SIG(vec, const Points&, const vec&, const Points&, const vec&, const vec&, const vec&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation,
        {"bgrid", "x", "points", "obs", "ratios", "pbg", "structure", "max_points", "extrap"});
    O["oif_g"] = [](const J& in) { vec2 av; auto s = mkstruct(in["structure"]); vec2 r = optimal_interpolation_full(From<Grid>::get(in["bgrid"]), From<vec2>::get(in["x"]), From<vec2>::get(in["bvar"]), From<Points>::get(in["points"]),
        From<vec>::get(in["obs"]), From<vec>::get(in["ovar"]), From<vec>::get(in["pbg"]), From<vec>::get(in["pbvar"]), *s, (int) in["max_points"].n, av, in["extrap"].b); return obj({{"an", out(r)}, {"av", out(av)}}); };
    O["oif_p"] = [](const J& in) { vec av; auto s = mkstruct(in["structure"]); vec r = optimal_interpolation_full(From<Points>::get(in["bgrid"]), From<vec>::get(in["x"]), From<vec>::get(in["bvar"]), From<Points>::get(in["points"]),
        From<vec>::get(in["obs"]), From<vec>::get(in["ovar"]), From<vec>::get(in["pbg"]), From<vec>::get(in["pbvar"]), *s, (int) in["max_points"].n, av, in["extrap"].b); return obj({{"an", out(r)}, {"av", out(av)}}); };
    reg("ensi_g", SIG(vec3, const Grid&, const vec3&, const Points&, const vec&, const vec&, const vec2&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation_ensi,
        {"bgrid", "x", "points", "obs", "sigmas", "pbg", "structure", "max_points", "extrap"});
    reg("ensi_p", SIG(vec2, const Points&, const vec2&, const Points&, const vec&, const vec&, const vec2&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation_ensi,
        {"bgrid", "x", "points", "obs", "sigmas", "pbg", "structure", "max_points", "extrap"});
    reg("ebe_g", SIG(vec3, const Grid&, const vec2&, const vec3&, const vec3&, const Points&, const vec2&, const vec&, const vec2&, const vec2&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation_ensi_multi_ebe,
        {"bgrid", "bratios", "x", "xc", "points", "obs", "pratios", "pbg", "pbgc", "structure", "max_points", "extrap"});
    reg("ebe_p", SIG(vec2, const Points&, const vec&, const vec2&, const vec2&, const Points&, const vec2&, const vec&, const vec2&, const vec2&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation_ensi_multi_ebe,
        {"bgrid", "bratios", "x", "xc", "points", "obs", "pratios", "pbg", "pbgc", "structure", "max_points", "extrap"});
    reg("ebesc_g", SIG(vec3, const Grid&, const vec2&, const vec3&, const Points&, const vec2&, const vec&, const vec2&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation_ensi_multi_ebesc,
        {"bgrid", "bratios", "x", "points", "obs", "pratios", "pbg", "structure", "max_points", "extrap"});
    reg("ebesc_p", SIG(vec2, const Points&, const vec&, const vec2&, const Points&, const vec2&, const vec&, const vec2&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation_ensi_multi_ebesc,
        {"bgrid", "bratios", "x", "points", "obs", "pratios", "pbg", "structure", "max_points", "extrap"});
    reg("utem_g", SIG(vec3, const Grid&, const vec2&, const vec3&, const vec3&, const Points&, const vec&, const vec&, const vec2&, const vec2&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation_ensi_multi_utem,
        {"bgrid", "bratios", "x", "xc", "points", "obs", "pratios", "pbg", "pbgc", "structure", "max_points", "extrap"});
    reg("utem_p", SIG(vec2, const Points&, const vec&, const vec2&, const vec2&, const Points&, const vec&, const vec&, const vec2&, const vec2&, const StructureFunction&, int, bool) &gridpp::optimal_interpolation_ensi_multi_utem,
        {"bgrid", "bratios", "x", "xc", "points", "obs", "pratios", "pbg", "pbgc", "structure", "max_points", "extrap"});
    O["ldc"] = [](const J& in) {
        auto s = mkstruct(in["structure"]); Grid g = From<Grid>::get(in["bgrid"]); Points p = From<Points>::get(in["points"]); vec2 x = From<vec2>::get(in["x"]);
        float a = From<float>::get(in["minq"]), b = From<float>::get(in["maxq"]); int m = (int) in["min_points"].n;
        if(in["nt"].n == 1) return out(local_distribution_correction(g, x, p, From<vec2>::get(in["obs"]), From<vec2>::get(in["pbg"]), *s, a, b, m));
        return out(local_distribution_correction(g, x, p, From<vec>::get(in["obs"]), From<vec>::get(in["pbg"]), *s, a, b, m));
    };
}
