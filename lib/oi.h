// Reference optimal interpolation pieces in double precision.
#pragma once
#include "gp.h"
#include "la.h"
#include <memory>
namespace gp {
using la::Mat; using la::solve; using la::invert; using la::eig;
// observations used at a location: usable, positively correlated, the strongest first up to the limit
struct Local { std::vector<int> idx; std::vector<double> rho; bool tie = false; };
inline Local select(const Point& p, const Points& obs, const std::vector<bool>& usable, const StructureFunction& s, int max_points) {
    Local L; std::vector<std::pair<double, int>> v;
    for(int i = 0; i < obs.size(); i++) { if(!usable[i]) continue; double r = s.corr_background(p, obs.get_point(i)); if(r > 0) v.push_back({-r, i}); }
    std::stable_sort(v.begin(), v.end());
    if(max_points > 0 && (int)v.size() > max_points) { if(fabs(v[max_points].first - v[max_points - 1].first) < 1e-6) L.tie = true; v.resize(max_points); }
    for(auto& q : v) { L.idx.push_back(q.second); L.rho.push_back(-q.first); }
    return L;
}
// no observation is at the edge of the localization distance
inline bool clear_edges(const Point& p, const Points& obs, const StructureFunction& s) {
    double r = s.localization_distance(p);
    for(int i = 0; i < obs.size(); i++) { Point q = obs.get_point(i); double d = chord(p.lat, p.lon, q.lat, q.lon, p.type); if(d > 0 && fabs(d - r) < 4 + 1e-4 * r) return false; }
    return true;
}
} // namespace gp
