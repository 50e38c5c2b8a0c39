#pragma once
#include "gridpp.h"
#include "js.h"
#include <functional>
#include <memory>
#include <type_traits>
using namespace gridpp;

typedef std::function<std::string(const J&)> Op;
std::map<std::string, Op>& ops();
// objects that live for a session
struct Store {
    std::map<std::string, std::shared_ptr<Grid> > grids;
    std::map<std::string, std::shared_ptr<Points> > points;
    std::map<std::string, std::shared_ptr<KDTree> > trees;
    std::map<std::string, std::shared_ptr<StructureFunction> > structs;
    void clear() { grids.clear(); points.clear(); trees.clear(); structs.clear(); }
};
Store& store();
CoordinateType ctype(const std::string& s);
Statistic stat(const std::string& s);
int code(const std::string& s);
std::shared_ptr<StructureFunction> mkstruct(const J& j);
std::shared_ptr<Transform> mktransform(const J& j);

template<class T> struct From;
template<> struct From<float> { static float get(const J& j) { return (float) j.n; } };
template<> struct From<double> { static double get(const J& j) { return j.n; } };
template<> struct From<int> { static int get(const J& j) { return (int) j.n; } };
template<> struct From<bool> { static bool get(const J& j) { return j.b || j.n != 0; } };
template<> struct From<std::string> { static std::string get(const J& j) { return j.s; } };
template<class T> struct From<std::vector<T> > { static std::vector<T> get(const J& j) { std::vector<T> r; r.reserve(j.a.size()); for(auto& x : j.a) r.push_back(From<T>::get(x)); return r; } };
template<> struct From<Statistic> { static Statistic get(const J& j) { return stat(j.s); } };
template<> struct From<CoordinateType> { static CoordinateType get(const J& j) { return ctype(j.s); } };
template<> struct From<Extrapolation> { static Extrapolation get(const J& j) { return (Extrapolation) code(j.s); } };
template<> struct From<Metric> { static Metric get(const J& j) { return (Metric) code(j.s); } };
template<> struct From<GradientType> { static GradientType get(const J& j) { return (GradientType) code(j.s); } };
template<> struct From<Downscaler> { static Downscaler get(const J& j) { return (Downscaler) code(j.s); } };
template<> struct From<ComparisonOperator> { static ComparisonOperator get(const J& j) { return (ComparisonOperator) code(j.s); } };
template<> struct From<Point> { static Point get(const J& j) {
    CoordinateType t = j.has("type") ? ctype(j["type"].s) : Geodetic;
    if(j.has("xyz")) return Point(From<float>::get(j["lat"]), From<float>::get(j["lon"]), From<float>::get(j["elev"]), From<float>::get(j["laf"]), t, j["xyz"].a[0].n, j["xyz"].a[1].n, j["xyz"].a[2].n);
    return Point(From<float>::get(j["lat"]), From<float>::get(j["lon"]), j.has("elev") ? From<float>::get(j["elev"]) : MV, j.has("laf") ? From<float>::get(j["laf"]) : MV, t); } };
template<> struct From<Grid> { static Grid get(const J& j) {
    if(j.t == J::Str) return *store().grids.at(j.s);
    if(j.has("ref")) return *store().grids.at(j["ref"].s);
    return Grid(From<vec2>::get(j["lats"]), From<vec2>::get(j["lons"]), j.has("elevs") ? From<vec2>::get(j["elevs"]) : vec2(), j.has("lafs") ? From<vec2>::get(j["lafs"]) : vec2(), j.has("type") ? ctype(j["type"].s) : Geodetic); } };
template<> struct From<Points> { static Points get(const J& j) {
    if(j.t == J::Str) return *store().points.at(j.s);
    if(j.has("ref")) return *store().points.at(j["ref"].s);
    return Points(From<vec>::get(j["lats"]), From<vec>::get(j["lons"]), j.has("elevs") ? From<vec>::get(j["elevs"]) : vec(), j.has("lafs") ? From<vec>::get(j["lafs"]) : vec(), j.has("type") ? ctype(j["type"].s) : Geodetic); } };

// An argument held by value for the duration of the call; structure functions are held by pointer.
template<class T> struct Held { T v; explicit Held(const J& j) : v(From<T>::get(j)) {} T& get() { return v; } };
template<> struct Held<StructureFunction> { std::shared_ptr<StructureFunction> v; explicit Held(const J& j) : v(mkstruct(j)) {} StructureFunction& get() { return *v; } };

template<class R, class... A, size_t... I>
std::string apply_(R (*f)(A...), const J& in, const std::vector<std::string>& names, std::index_sequence<I...>) {
    std::tuple<Held<typename std::decay<A>::type>...> h { Held<typename std::decay<A>::type>(in[names[I]])... };
    return out(f(std::get<I>(h).get()...));
}
template<class R, class... A>
void reg(const char* name, R (*f)(A...), std::vector<std::string> names) {
    if(names.size() != sizeof...(A)) { fprintf(stderr, "bad registration of %s\n", name); abort(); }
    ops()[name] = [f, names](const J& in) { return apply_(f, in, names, std::index_sequence_for<A...>()); };
}
#define SIG(ret, ...) (ret (*)(__VA_ARGS__))
std::string obj(std::initializer_list<std::pair<const char*, std::string> > l);
