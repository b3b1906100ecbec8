// Adaptors (vi) and specification (vs) of the geometric parts of the library.
#include <bits/stdc++.h>
#include "spoc/point_record.h"
#include "spoc/affine.h"
#include "spoc/utils.h"
#include "spoc/extent.h"
#include "spoc/voxel.h"
#include "spoc/subsampling.h"
#include "spoc/radius_search.h"

using spoc::point_record::point_record;
using spoc::point_record::point_records;
using P = spoc::point::point<double>;
using PS = std::vector<P>;
using E = spoc::extent::extent;
using V = spoc::voxel::voxel_index;
using VS = std::vector<V>;
using IS = std::vector<size_t>;
using CB = std::function<void (size_t, const IS &)>;

namespace vi
{
#define TWO(T,N) \
void add_x_##N (T &p, const double v) { spoc::affine::add_x (p, v); } \
void add_y_##N (T &p, const double v) { spoc::affine::add_y (p, v); } \
void add_z_##N (T &p, const double v) { spoc::affine::add_z (p, v); } \
void add_##N (T &p, const typename T::value_type &v) { spoc::affine::add (p, v); } \
void scale_x_##N (T &p, const double v) { spoc::affine::scale_x (p, v); } \
void scale_y_##N (T &p, const double v) { spoc::affine::scale_y (p, v); } \
void scale_z_##N (T &p, const double v) { spoc::affine::scale_z (p, v); } \
void rotate_x_##N (T &p, const double v) { spoc::affine::rotate_x (p, v); } \
void rotate_y_##N (T &p, const double v) { spoc::affine::rotate_y (p, v); } \
void rotate_z_##N (T &p, const double v) { spoc::affine::rotate_z (p, v); } \
void quantize_##N (T &p, const double v) { spoc::utils::quantize (p, v); } \
typename T::value_type get_center_##N (const T &p) { return spoc::utils::get_center (p); } \
T crop_##N (const T &p, const E &e) { return spoc::utils::crop (p, e); } \
E get_extent_##N (const T &p) { return spoc::extent::get_extent (p); } \
VS voxels_extent_##N (const T &p, const E &e, const double r) { return spoc::voxel::get_voxel_indexes (p, e, r); } \
VS voxels_indexes_##N (const T &p, const IS &i, const double r) { return spoc::voxel::get_voxel_indexes (p, i, r); } \
VS voxels_##N (const T &p, const double r) { return spoc::voxel::get_voxel_indexes (p, r); } \
IS subsample_##N (const T &p, const double r, const size_t s) { return spoc::subsampling::get_subsample_indexes (p, r, s); } \
IS unique_##N (const T &p, const size_t s) { return spoc::subsampling::get_unique_xyz_indexes (p, s); } \
T subsample_points_##N (const T &p, const double r, const size_t s) { return spoc::subsampling::subsample_points (p, r, s); } \
IS neighbors_##N (const size_t i, const T &p, const IS &pi, const IS &ni, const VS &pv, const spoc::voxel::voxel_index_map &m, const double r, const size_t k) \
{ return spoc::radius_search::get_neighbors (i, p, pi, ni, pv, m, r, k); } \
void search_##N (const T &p, const IS &pi, const IS &ni, const double r, CB f, const size_t k) { spoc::radius_search::radius_search (p, pi, ni, r, f, k); } \
void search_indexes_##N (const T &p, const IS &i, const double r, CB f, const size_t k) { spoc::radius_search::radius_search_indexes (p, i, r, f, k); } \
void search_indexes32_##N (const T &p, const IS &i, const double r, CB f) { spoc::radius_search::radius_search_indexes (p, i, r, f); } \
void search_all_neighbors_##N (const T &p, const IS &i, const double r, CB f, const size_t k) { spoc::radius_search::radius_search_all_neighbors (p, i, r, f, k); } \
void search_all_##N (const T &p, const double r, CB f, const size_t k) { spoc::radius_search::radius_search_all (p, r, f, k); } \
std::vector<IS> get_all_neighbors_##N (const T &p, const double r) { return spoc::radius_search::radius_search_get_neighbors (p, r); }
TWO (PS, p) TWO (point_records, r)
#undef TWO
using S = spoc::radius_search::random_neighbor_selector;
VS selector_indexes (const V &v, const spoc::voxel::voxel_index_map &m) { return S (v, m).voxel_indexes; }
IS selector_counts (const V &v, const spoc::voxel::voxel_index_map &m) { return S (v, m).voxel_counts; }
size_t selector_total (const V &v, const spoc::voxel::voxel_index_map &m) { return S (v, m).total_points_left; }
size_t selector_left (const S &s) { return s.get_total_points_left (); }
size_t selector_next (S &s) { return s (); }
E total_extent (const E &a, const E &b) { return spoc::extent::get_total_extent (a, b); }
double volume (const E &a) { return spoc::extent::get_volume (a); }
double area (const E &a) { return spoc::extent::get_area (a); }
bool all_less_equal (const P &a, const P &b) { return spoc::extent::all_less_equal (a, b); }
bool extent_equal (const E &a, const E &b) { return a == b; }
V voxel_index (const P &p, const P &q, const double r) { return spoc::voxel::get_voxel_index (p, q, r); }
spoc::voxel::voxel_index_set index_set (const VS &v) { return spoc::voxel::get_voxel_index_set (v); }
spoc::voxel::voxel_index_map index_map (const VS &v) { return spoc::voxel::get_voxel_index_map (v); }
bool voxel_equal (const V &a, const V &b) { return a == b; }
V voxel_make (size_t i, size_t j, size_t k) { return V (i, j, k); }
spoc::point::point<uint64_t> rescale (const P &p, const P &s, const P &m) { return spoc::extent::rescale (p, s, m); }
P restore (const spoc::point::point<uint64_t> &p, const P &s, const P &m) { return spoc::extent::restore (p, s, m); }
std::vector<spoc::point::point<uint64_t>> rescale_all (const PS &p, const E &e) { return spoc::extent::rescale (p, e); }
PS restore_all (const std::vector<spoc::point::point<uint64_t>> &p, const E &e) { return spoc::extent::restore (p, e); }
}

namespace vs
{
template<typename T> void add (T &p, const double x, const double y, const double z)
{
    for (size_t i = 0; i < p.size (); ++i) { p[i].x += x; p[i].y += y; p[i].z += z; }
}
E get_extent_any (const auto &p)
{
    const double hi = std::numeric_limits<double>::max ();
    const double lo = std::numeric_limits<double>::lowest ();
    double x0 = hi, y0 = hi, z0 = hi, x1 = lo, y1 = lo, z1 = lo;
    for (size_t n = 0; n < p.size (); ++n)
    {
        x0 = std::min (p[n].x, x0); x1 = std::max (p[n].x, x1);
        y0 = std::min (p[n].y, y0); y1 = std::max (p[n].y, y1);
        z0 = std::min (p[n].z, z0); z1 = std::max (p[n].z, z1);
    }
    E e;
    e.minp = P (x0, y0, z0);
    e.maxp = P (x1, y1, z1);
    return e;
}
V voxel (double x, double y, double z, const P &m, const double r)
{
    V v;
    v.i = static_cast<size_t> ((x - m.x) / r);
    v.j = static_cast<size_t> ((y - m.y) / r);
    v.k = static_cast<size_t> ((z - m.z) / r);
    return v;
}
IS visiting_order (const size_t n, const size_t seed)
{
    IS o (n);
    for (size_t i = 0; i < n; ++i) o[i] = i;
    if (seed != 0)
    {
        std::default_random_engine g (seed);
        std::shuffle (o.begin (), o.end (), g);
    }
    return o;
}
template<typename T> void rotated (T &p, const double d, const int a)
{
    const double r = d * M_PI / 180.0;
    for (size_t i = 0; i < p.size (); ++i)
    {
        const double x = p[i].x, y = p[i].y, z = p[i].z;
        if (a == 0) { p[i].y = y * std::cos (r) - z * std::sin (r); p[i].z = y * std::sin (r) + z * std::cos (r); }
        if (a == 1) { p[i].x = x * std::cos (r) - z * std::sin (r); p[i].z = x * std::sin (r) + z * std::cos (r); }
        if (a == 2) { p[i].x = x * std::cos (r) - y * std::sin (r); p[i].y = x * std::sin (r) + y * std::cos (r); }
    }
}
IS iota (const size_t n)
{
    IS i;
    for (size_t k = 0; k < n; ++k) i.push_back (k);
    return i;
}
#define TWO(T,N) \
void add_x_##N (T &p, const double v) { for (auto &q : p) q.x += v; } \
void add_y_##N (T &p, const double v) { for (auto &q : p) q.y += v; } \
void add_z_##N (T &p, const double v) { for (auto &q : p) q.z += v; } \
void add_##N (T &p, const typename T::value_type &v) { vs::add (p, v.x, v.y, v.z); } \
void scale_x_##N (T &p, const double v) { for (auto &q : p) q.x = q.x * v; } \
void scale_y_##N (T &p, const double v) { for (auto &q : p) q.y = q.y * v; } \
void scale_z_##N (T &p, const double v) { for (auto &q : p) q.z = q.z * v; } \
void rotate_x_##N (T &p, const double v) { vs::rotated (p, v, 0); } \
void rotate_y_##N (T &p, const double v) { vs::rotated (p, v, 1); } \
void rotate_z_##N (T &p, const double v) { vs::rotated (p, v, 2); } \
void quantize_##N (T &p, const double v) \
{ \
    if (v == 0.0) throw std::runtime_error ("x"); \
    for (auto &q : p) \
    { \
        q.x = std::trunc (q.x / v) * v + 0.0; \
        q.y = std::trunc (q.y / v) * v + 0.0; \
        q.z = std::trunc (q.z / v) * v + 0.0; \
    } \
} \
typename T::value_type get_center_##N (const T &p) \
{ \
    double x = 0, y = 0, z = 0; \
    for (size_t n = 0; n < p.size (); ++n) { x += p[n].x; y += p[n].y; z += p[n].z; } \
    typename T::value_type c; \
    c.x = x / p.size (); c.y = y / p.size (); c.z = z / p.size (); \
    return c; \
} \
T crop_##N (const T &p, const E &e) \
{ \
    T q; \
    for (size_t n = 0; n < p.size (); ++n) \
        if (!(p[n].x < e.minp.x) && !(p[n].x > e.maxp.x) && !(p[n].y < e.minp.y) && !(p[n].y > e.maxp.y) && !(p[n].z < e.minp.z) && !(p[n].z > e.maxp.z)) \
            q.push_back (p[n]); \
    return q; \
} \
E get_extent_##N (const T &p) { return vs::get_extent_any (p); } \
VS voxels_extent_##N (const T &p, const E &e, const double r) \
{ \
    VS v; \
    for (size_t n = 0; n < p.size (); ++n) v.push_back (vs::voxel (p[n].x, p[n].y, p[n].z, e.minp, r)); \
    return v; \
} \
VS voxels_indexes_##N (const T &p, const IS &i, const double r) \
{ \
    const auto e = spoc::extent::get_extent (p); \
    VS v; \
    for (size_t n = 0; n < i.size (); ++n) v.push_back (vs::voxel (p[i[n]].x, p[i[n]].y, p[i[n]].z, e.minp, r)); \
    return v; \
} \
VS voxels_##N (const T &p, const double r) { return spoc::voxel::get_voxel_indexes (p, spoc::extent::get_extent (p), r); } \
IS subsample_##N (const T &p, const double r, const size_t s) \
{ \
    const IS o = vs::visiting_order (p.size (), s); \
    const auto v = spoc::voxel::get_voxel_indexes (p, r); \
    spoc::voxel::voxel_index_set seen; \
    IS kept; \
    for (size_t n = 0; n < p.size (); ++n) \
        if (seen.count (v[o[n]]) == 0) \
        { \
            seen.insert (v[o[n]]); \
            kept.push_back (o[n]); \
        } \
    return kept; \
} \
IS unique_##N (const T &p, const size_t s) \
{ \
    const IS o = vs::visiting_order (p.size (), s); \
    std::unordered_set<P, spoc::point::point_hash<double>> seen; \
    IS kept; \
    for (size_t n = 0; n < p.size (); ++n) \
    { \
        const P l (p[o[n]].x, p[o[n]].y, p[o[n]].z); \
        if (seen.count (l) == 0) \
        { \
            seen.insert (l); \
            kept.push_back (o[n]); \
        } \
    } \
    return kept; \
} \
T subsample_points_##N (const T &p, const double r, const size_t s) \
{ \
    T q; \
    const auto i = spoc::subsampling::get_subsample_indexes (p, r, s); \
    for (size_t n = 0; n < i.size (); ++n) q.push_back (p[i[n]]); \
    return q; \
} \
IS neighbors_##N (const size_t i, const T &p, const IS &pi, const IS &ni, const VS &pv, const spoc::voxel::voxel_index_map &m, const double r, const size_t k) \
{ \
    IS found; \
    if (k == 0) return found; \
    spoc::radius_search::random_neighbor_selector next (pv[i], m); \
    while (next.get_total_points_left () > 0 && found.size () != k) \
    { \
        const size_t j = next (); \
        if (spoc::point::distance (p[pi[i]], p[ni[j]]) <= r) found.push_back (j); \
    } \
    return found; \
} \
void search_##N (const T &p, const IS &pi, const IS &ni, const double r, CB f, const size_t k) \
{ \
    const auto pv = spoc::voxel::get_voxel_indexes (p, pi, r); \
    const auto nv = spoc::voxel::get_voxel_indexes (p, ni, r); \
    const auto m = spoc::voxel::get_voxel_index_map (nv); \
    for (size_t i = 0; i < pi.size (); ++i) \
        f (i, spoc::radius_search::get_neighbors (i, p, pi, ni, pv, m, r, k)); \
} \
void search_indexes_##N (const T &p, const IS &i, const double r, CB f, const size_t k) { spoc::radius_search::radius_search (p, i, i, r, f, k); } \
void search_indexes32_##N (const T &p, const IS &i, const double r, CB f) { spoc::radius_search::radius_search (p, i, i, r, f, 32); } \
void search_all_neighbors_##N (const T &p, const IS &i, const double r, CB f, const size_t k) \
{ spoc::radius_search::radius_search (p, i, vs::iota (p.size ()), r, f, k); } \
void search_all_##N (const T &p, const double r, CB f, const size_t k) \
{ spoc::radius_search::radius_search (p, vs::iota (p.size ()), vs::iota (p.size ()), r, f, k); } \
std::vector<IS> get_all_neighbors_##N (const T &p, const double r) \
{ \
    std::vector<IS> x (p.size ()); \
    auto f = [&](size_t i, const IS &n) { x[i] = n; }; \
    spoc::radius_search::radius_search (p, vs::iota (p.size ()), vs::iota (p.size ()), r, f, 32); \
    return x; \
}
TWO (PS, p) TWO (point_records, r)
#undef TWO
VS selector_indexes (const V &v, const spoc::voxel::voxel_index_map &)
{
    VS x;
    for (int i = -1; i <= 1; ++i)
        for (int j = -1; j <= 1; ++j)
            for (int k = -1; k <= 1; ++k)
                x.push_back (V (static_cast<int> (v.i) + i, static_cast<int> (v.j) + j, static_cast<int> (v.k) + k));
    return x;
}
IS selector_counts (const V &v, const spoc::voxel::voxel_index_map &m)
{
    IS x;
    for (const auto &w : vs::selector_indexes (v, m))
        if (m.count (w)) x.push_back (m.at (w).size ()); else x.push_back (0);
    return x;
}
size_t selector_total (const V &v, const spoc::voxel::voxel_index_map &m)
{
    size_t t = 0;
    for (const auto &w : vs::selector_indexes (v, m))
        if (m.count (w)) t += m.at (w).size ();
    return t;
}
size_t selector_left (const vi::S &s) { return s.total_points_left; }
E total_extent (const E &a, const E &b)
{
    E e;
    e.minp = P (std::min (a.minp.x, b.minp.x), std::min (a.minp.y, b.minp.y), std::min (a.minp.z, b.minp.z));
    e.maxp = P (std::max (a.maxp.x, b.maxp.x), std::max (a.maxp.y, b.maxp.y), std::max (a.maxp.z, b.maxp.z));
    return e;
}
double volume (const E &a) { return (a.maxp.x - a.minp.x) * (a.maxp.y - a.minp.y) * (a.maxp.z - a.minp.z); }
double area (const E &a) { return (a.maxp.x - a.minp.x) * (a.maxp.y - a.minp.y); }
bool all_less_equal (const P &a, const P &b) { return !(a.x > b.x) && !(a.y > b.y) && !(a.z > b.z); }
bool extent_equal (const E &a, const E &b)
{
    return a.minp.x == b.minp.x && a.minp.y == b.minp.y && a.minp.z == b.minp.z && a.maxp.x == b.maxp.x && a.maxp.y == b.maxp.y && a.maxp.z == b.maxp.z;
}
V voxel_index (const P &p, const P &q, const double r) { return vs::voxel (p.x, p.y, p.z, q, r); }
spoc::voxel::voxel_index_set index_set (const VS &v)
{
    spoc::voxel::voxel_index_set s;
    for (size_t n = 0; n < v.size (); ++n) s.insert (v[n]);
    return s;
}
spoc::voxel::voxel_index_map index_map (const VS &v)
{
    spoc::voxel::voxel_index_map m;
    for (size_t n = 0; n < v.size (); ++n) m[v[n]].push_back (n);
    return m;
}
bool voxel_equal (const V &a, const V &b) { return a.i == b.i && a.j == b.j && a.k == b.k; }
V voxel_make (size_t i, size_t j, size_t k) { V v; v.i = i; v.j = j; v.k = k; return v; }
spoc::point::point<uint64_t> rescale (const P &p, const P &s, const P &m)
{
    const double u = 4611686018427387904.0;
    spoc::point::point<uint64_t> q;
    q.x = static_cast<uint64_t> ((p.x - m.x) * u / s.x);
    q.y = static_cast<uint64_t> ((p.y - m.y) * u / s.y);
    q.z = static_cast<uint64_t> ((p.z - m.z) * u / s.z);
    return q;
}
P restore (const spoc::point::point<uint64_t> &p, const P &s, const P &m)
{
    const double u = 4611686018427387904.0;
    return P (p.x * s.x / u + m.x, p.y * s.y / u + m.y, p.z * s.z / u + m.z);
}
std::vector<spoc::point::point<uint64_t>> rescale_all (const PS &p, const E &e)
{
    std::vector<spoc::point::point<uint64_t>> q;
    for (size_t n = 0; n < p.size (); ++n) q.push_back (spoc::extent::rescale (p[n], P (e.maxp.x - e.minp.x, e.maxp.y - e.minp.y, e.maxp.z - e.minp.z), e.minp));
    return q;
}
PS restore_all (const std::vector<spoc::point::point<uint64_t>> &p, const E &e)
{
    PS q;
    for (size_t n = 0; n < p.size (); ++n) q.push_back (spoc::extent::restore (p[n], P (e.maxp.x - e.minp.x, e.maxp.y - e.minp.y, e.maxp.z - e.minp.z), e.minp));
    return q;
}
}
