// Adaptors (vi) and specification (vs) of the tool program's own functions and of the option parsing helpers.
#include <bits/stdc++.h>
#include "spoc/app_utils.h"
#include "spoc/spoc.h"
#include "tool/tool.h"

using PR = spoc::point_record::point_record;
using PRS = spoc::point_record::point_records;
using F = spoc::file::spoc_file;
using S = std::string;

namespace vi
{
void get_field (const F &f, std::ostream &s, const S &n) { spoc::tool_app::get_field (f, s, n); }
void get_field_debug (const F &f, std::ostream &s, const S &n) { spoc::tool_app::get_field (f, s, n); }
F recenter (const F &f, const bool z) { return spoc::tool_app::recenter (f, z); }
F recenter_xy (const F &f) { return spoc::tool_app::recenter (f); }
F resize_extra (const F &f, const int n) { return spoc::tool_app::resize_extra (f, n); }
F set_field (const F &f, std::istream &s, const S &n) { return spoc::tool_app::set_field (f, s, n); }
F subtract_min (const F &f, const bool z) { return spoc::tool_app::subtract_min (f, z); }
F subtract_min_xy (const F &f) { return spoc::tool_app::subtract_min (f); }
F upsample (const F &l, const F &f, const double r, std::ostream &log) { return spoc::tool_app::upsample_classifications (l, f, r, false, log); }
bool is_extra (const S &s) { return spoc::app_utils::is_extra_field (s); }
int extra_index (const S &s) { return spoc::app_utils::get_extra_index (s); }
bool check_name (const S &s) { return spoc::app_utils::check_field_name (s); }
S consume_name (S &s) { return spoc::app_utils::consume_field_name (s); }
unsigned consume_int (S &s) { return spoc::app_utils::consume_int (s); }
double consume_double (S &s) { return spoc::app_utils::consume_double (s); }
std::vector<unsigned> consume_ints (S &s) { return spoc::app_utils::consume_ints (s); }
}

namespace vs
{
void get_field (const F &f, std::ostream &s, const S &n)
{
    const char l = n[0];
    if (l == 'x' || l == 'y' || l == 'z') s << std::setprecision (17 - 1);
    const int j = l == 'e' ? spoc::app_utils::get_extra_index (n) : 0;
    for (size_t k = 0; k < f.get_point_records ().size (); ++k)
    {
        const PR &p = f.get_point_records ()[k];
        switch (l)
        {
            case 'x': s << p.x << std::endl; break;
            case 'y': s << p.y << std::endl; break;
            case 'z': s << p.z << std::endl; break;
            case 'c': s << p.c << std::endl; break;
            case 'p': s << p.p << std::endl; break;
            case 'i': s << p.i << std::endl; break;
            case 'r': s << p.r << std::endl; break;
            case 'g': s << p.g << std::endl; break;
            case 'b': s << p.b << std::endl; break;
            case 'e':
                if (static_cast<size_t> (j) >= p.extra.size ()) throw std::runtime_error ("index");
                s << p.extra[j] << std::endl;
        }
    }
}
void get_field_debug (const F &f, std::ostream &s, const S &n)
{
    if (!s.good ()) throw std::runtime_error ("contract");
    if (!spoc::app_utils::check_field_name (n)) throw std::runtime_error ("contract");
    vs::get_field (f, s, n);
}
F recenter (const F &f, const bool z)
{
    double x = 0.0, y = 0.0, u = 0.0;
    const size_t n = f.get_point_records ().size ();
    for (size_t k = 0; k < n; ++k)
    {
        x += f.get_point_records ()[k].x;
        y += f.get_point_records ()[k].y;
        u += f.get_point_records ()[k].z;
    }
    F g (f);
    PRS p = f.get_point_records ();
    for (size_t k = 0; k < n; ++k)
    {
        p[k].x -= x / n;
        p[k].y -= y / n;
        if (z) p[k].z -= u / n;
    }
    g.set_point_records (p);
    return g;
}
F recenter_xy (const F &f) { return vs::recenter (f, false); }
F resize_extra (const F &f, const int n)
{
    PRS p = f.get_point_records ();
    for (size_t k = 0; k < p.size (); ++k) p[k].extra.resize (n);
    F g = f.clone_empty ();
    g.set_point_records (p);
    return g;
}
F set_field (const F &f, std::istream &s, const S &n)
{
    const char l = n[0];
    const bool real = l == 'x' || l == 'y' || l == 'z';
    const size_t m = f.get_point_records ().size ();
    PRS p = f.get_point_records ();
    std::vector<double> d (m);
    std::vector<size_t> u (m);
    for (size_t k = 0; k < m; ++k)
    {
        if (real) s >> d[k]; else s >> u[k];
        if (s.fail ()) throw std::runtime_error ("values");
    }
    const size_t j = l == 'e' ? spoc::app_utils::get_extra_index (n) : 0;
    for (size_t k = 0; k < m; ++k)
    {
        if (l == 'x') p[k].x = d[k];
        if (l == 'y') p[k].y = d[k];
        if (l == 'z') p[k].z = d[k];
        if (l == 'c') p[k].c = u[k];
        if (l == 'p') p[k].p = u[k];
        if (l == 'i') p[k].i = u[k];
        if (l == 'r') p[k].r = u[k];
        if (l == 'g') p[k].g = u[k];
        if (l == 'b') p[k].b = u[k];
        if (l == 'e')
        {
            if (p[k].extra.size () <= j) p[k].extra.resize (j + 1);
            p[k].extra[j] = u[k];
        }
    }
    F g = f.clone_empty ();
    g.set_point_records (p);
    return g;
}
F subtract_min (const F &f, const bool z)
{
    const auto e = spoc::extent::get_extent (f.get_point_records ());
    PRS p = f.get_point_records ();
    for (size_t k = 0; k < p.size (); ++k)
    {
        p[k].x = p[k].x - e.minp.x;
        p[k].y = p[k].y - e.minp.y;
        if (z) p[k].z = p[k].z - e.minp.z;
    }
    F g = f.clone_empty ();
    g.set_point_records (p);
    return g;
}
F subtract_min_xy (const F &f) { return vs::subtract_min (f, false); }
bool is_extra (const S &s) { return s[0] == 'e'; }
int extra_index (const S &s)
{
    if (s[0] != 'e') return -1;
    S t (s);
    t.erase (0, 1);
    try { return std::stoi (t); }
    catch (...) { return -1; }
}
bool check_name (const S &s)
{
    if (s == "x" || s == "y" || s == "z" || s == "c" || s == "p" || s == "i" || s == "r" || s == "g" || s == "b") return true;
    return s.size () > 1 && s[0] == 'e' && spoc::app_utils::get_extra_index (s) >= 0;
}
unsigned consume_int (S &s)
{
    size_t n = 0;
    unsigned v;
    try { v = std::stoi (s, &n); }
    catch (...) { throw std::runtime_error ("int"); }
    s.erase (0, n + 1);
    return v;
}
double consume_double (S &s)
{
    size_t n = 0;
    double v;
    try { v = std::stod (s, &n); }
    catch (...) { throw std::runtime_error ("number"); }
    s.erase (0, n + 1);
    return v;
}
S consume_name (S &s)
{
    size_t n = 0;
    while (n < s.size () && isalnum (s[n])) ++n;
    const S name = s.substr (0, n);
    if (!spoc::app_utils::check_field_name (name)) throw std::runtime_error ("name");
    s.erase (0, n + 1);
    return name;
}
std::vector<unsigned> consume_ints (S &s)
{
    std::vector<unsigned> v;
    v.push_back (spoc::app_utils::consume_int (s));
    while (s.size () != 0) v.push_back (spoc::app_utils::consume_int (s));
    return v;
}
F upsample (const F &l, const F &f, const double r, std::ostream &)
{
    F h (f);
    const auto e = spoc::extent::get_extent (f.get_point_records ());
    const auto v = spoc::voxel::get_voxel_indexes (f.get_point_records (), e, r);
    const auto w = spoc::voxel::get_voxel_indexes (l.get_point_records (), e, r);
    const auto m = spoc::voxel::get_voxel_index_map (v);
    for (size_t i = 0; i < w.size (); ++i)
    {
        if (m.count (w[i]) == 0) continue;
        const auto &k = m.at (w[i]);
        for (size_t n = 0; n < k.size (); ++n)
        {
            PR p = h.get_point_record (k[n]);
            p.c = l.get_point_records ()[i].c;
            h.set_point_record (k[n], p);
        }
    }
    return h;
}
}
