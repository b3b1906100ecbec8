// Adaptors (vi) and specification (vs) of the diff, filter, merge and tile programs' own functions.
#include <bits/stdc++.h>
#include "spoc/app_utils.h"
#include "spoc/spoc.h"
#include "diff/diff.h"
#include "filter/filter.h"
#include "merge/merge.h"
#include "tile/tile.h"

using spoc::point_record::point_record;
using spoc::point_record::point_records;
using spoc::file::spoc_file;
using E = spoc::extent::extent;
using IS = std::vector<size_t>;
using SET = std::unordered_set<int>;

namespace vi
{
bool same (const spoc_file &f, const spoc_file &g, const bool h, const bool d, const std::vector<int> &fields)
{ return spoc::diff_app::diff (f, g, h, d, fields, false) == 0; }
bool same_reversed (const spoc_file &f, const spoc_file &g, const bool h, const bool d, const std::vector<int> &fields)
{ return spoc::diff_app::diff (f, g, h, d, fields, true) == 0; }
bool same_default (const spoc_file &f, const spoc_file &g) { return spoc::diff_app::diff (f, g) == 0; }
bool same_one (const spoc_file &f, const spoc_file &g, const int c) { return spoc::diff_app::diff (f, g, false, false, std::vector<int> (1, c), false) == 0; }
spoc_file keep (const spoc_file &f, const SET &c) { return spoc::filter_app::keep_classes (f, c); }
spoc_file remove (const spoc_file &f, const SET &c) { return spoc::filter_app::remove_classes (f, c); }
spoc_file unique (const spoc_file &f, const size_t s) { return spoc::filter_app::unique_xyz (f, s); }
spoc_file subsample (const spoc_file &f, const double r, const size_t s) { return spoc::filter_app::subsample_file (f, r, s); }
spoc_file coords (const spoc_file &f, const std::string &op) { return spoc::filter_app::remove_coords (f, op); }
std::vector<std::string> split (const std::string &s) { return spoc::filter_app::detail::split (s, " "); }
void append (const spoc_file &f, spoc_file &g, const unsigned id, const bool quiet, std::ostream &s) { spoc::merge_app::append (f, g, id, quiet, s); }
double tile_size (const E &e, const size_t n) { return spoc::tile_app::get_tile_size (e, n); }
IS tile_indexes (const point_records &p, const E &e, const double x, const double y) { return spoc::tile_app::get_tile_indexes (p, e, x, y); }
spoc::tile_app::tile_map tile_map (const IS &i) { return spoc::tile_app::get_tile_map (i); }
}

namespace vs
{
bool same_field (const spoc_file &f, const spoc_file &g, const int c)
{
    using namespace spoc::io;
    const auto &p = f.get_point_records ();
    const auto &q = g.get_point_records ();
    switch (c)
    {
        case 'x': return get_x (p) == get_x (q);
        case 'y': return get_y (p) == get_y (q);
        case 'z': return get_z (p) == get_z (q);
        case 'c': return get_c (p) == get_c (q);
        case 'p': return get_p (p) == get_p (q);
        case 'i': return get_i (p) == get_i (q);
        case 'r': return get_r (p) == get_r (q);
        case 'g': return get_g (p) == get_g (q);
        case 'b': return get_b (p) == get_b (q);
        case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9':
        {
            const size_t k = c - '0';
            if (k < get_extra_fields_size (p) && k < get_extra_fields_size (q))
                return get_extra (k, p) == get_extra (k, q);
            return k >= get_extra_fields_size (p) && k >= get_extra_fields_size (q);
        }
    }
    throw std::runtime_error ("field");
}
bool same_data (const spoc_file &f, const spoc_file &g)
{
    using namespace spoc::io;
    const auto &p = f.get_point_records ();
    const auto &q = g.get_point_records ();
    if (get_extra_fields_size (p) != get_extra_fields_size (q)) return false;
    bool same = get_x (p) == get_x (q) && get_y (p) == get_y (q) && get_z (p) == get_z (q) && get_c (p) == get_c (q) && get_p (p) == get_p (q)
        && get_i (p) == get_i (q) && get_r (p) == get_r (q) && get_g (p) == get_g (q) && get_b (p) == get_b (q);
    for (size_t k = 0; k < get_extra_fields_size (p); ++k)
        if (get_extra (k, p) != get_extra (k, q)) same = false;
    return same;
}
bool same (const spoc_file &f, const spoc_file &g, const bool h, const bool d, const std::vector<int> &fields)
{
    if (!fields.empty ())
    {
        for (size_t n = 0; n < fields.size (); ++n)
            if (!vs::same_field (f, g, fields[n])) return false;
        return true;
    }
    if (d) return vs::same_data (f, g);
    if (h) return f.get_header () == g.get_header ();
    return f.get_header () == g.get_header () && vs::same_data (f, g);
}
bool same_reversed (const spoc_file &f, const spoc_file &g, const bool h, const bool d, const std::vector<int> &fields) { return !vs::same (f, g, h, d, fields); }
bool same_default (const spoc_file &f, const spoc_file &g) { return vs::same (f, g, false, false, std::vector<int> ()); }
bool same_one (const spoc_file &f, const spoc_file &g, const int c) { return vs::same_field (f, g, c); }
spoc_file keep (const spoc_file &f, const SET &c)
{
    spoc_file g = f.clone_empty ();
    for (size_t n = 0; n < f.get_point_records ().size (); ++n)
        if (c.count (f.get_point_records ()[n].c) != 0) g.push_back (f.get_point_records ()[n]);
    return g;
}
spoc_file remove (const spoc_file &f, const SET &c)
{
    spoc_file g = f.clone_empty ();
    for (size_t n = 0; n < f.get_point_records ().size (); ++n)
        if (c.count (f.get_point_records ()[n].c) == 0) g.push_back (f.get_point_records ()[n]);
    return g;
}
spoc_file unique (const spoc_file &f, const size_t s)
{
    spoc_file g = f.clone_empty ();
    const auto i = spoc::subsampling::get_unique_xyz_indexes (f.get_point_records (), s);
    for (size_t n = 0; n < i.size (); ++n) g.push_back (f.get_point_records ()[i[n]]);
    return g;
}
spoc_file subsample (const spoc_file &f, const double r, const size_t s)
{
    spoc_file g = f.clone_empty ();
    g.set_point_records (spoc::subsampling::subsample_points (f.get_point_records (), r, s));
    return g;
}
spoc_file coords (const spoc_file &f, const std::string &op)
{
    const auto w = spoc::filter_app::detail::split (op, " ");
    if (w.size () != 3) throw std::runtime_error ("words");
    const bool x = w[0] == "x", y = w[0] == "y", z = w[0] == "z";
    if (!x && !y && !z) throw std::runtime_error ("coordinate");
    const bool above = w[1] == ">", below = w[1] == "<";
    if (!above && !below) throw std::runtime_error ("comparison");
    const double v = std::stod (w[2]);
    spoc_file g = f.clone_empty ();
    for (const auto &p : f.get_point_records ())
    {
        const double u = x ? p.x : y ? p.y : p.z;
        if (above ? !(u > v) : !(u < v)) g.push_back (p);
    }
    return g;
}
std::vector<std::string> split (const std::string &s)
{
    std::vector<std::string> w;
    size_t a = 0, b;
    while ((b = s.find (std::string (" "), a)) != std::string::npos) { w.push_back (s.substr (a, b - a)); a = b + 1; }
    w.push_back (s.substr (a));
    return w;
}
void append (const spoc_file &f, spoc_file &g, const unsigned id, const bool, std::ostream &)
{
    for (size_t n = 0; n < f.get_point_records ().size (); ++n)
    {
        point_record p = f.get_point_records ()[n];
        p.p = id;
        g.push_back (p);
    }
}
double tile_size (const E &e, const size_t n)
{
    const double s = std::numeric_limits<float>::epsilon ();
    const double x = e.maxp.x - e.minp.x + s, y = e.maxp.y - e.minp.y + s;
    return x > y ? x / n : y / n;
}
IS tile_indexes (const point_records &p, const E &e, const double x, const double y)
{
    IS t;
    const size_t columns = x > 0.0 ? static_cast<size_t> ((e.maxp.x - e.minp.x) / x + 1.0) : 1;
    for (size_t n = 0; n < p.size (); ++n)
    {
        const size_t c = x > 0.0 ? static_cast<size_t> ((p[n].x - e.minp.x) / x) : 0;
        const size_t r = y > 0.0 ? static_cast<size_t> ((p[n].y - e.minp.y) / y) : 0;
        t.push_back (r * columns + c);
    }
    return t;
}
spoc::tile_app::tile_map tile_map (const IS &t)
{
    spoc::tile_app::tile_map m;
    for (size_t n = 0; n < t.size (); ++n) m[t[n]].push_back (n);
    return m;
}
}
