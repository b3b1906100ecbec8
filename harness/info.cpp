// Adaptors (vi) and specification (vs) of the information report and of the JSON printer.
#include <bits/stdc++.h>
#include "spoc/app_utils.h"
#include "spoc/spoc.h"
#include "info/info.h"

using PR = spoc::point_record::point_record;
using PRS = spoc::point_record::point_records;
using F = spoc::file::spoc_file;
using S = std::string;
using O = spoc::json::object;
using A = spoc::json::array;
namespace ia = spoc::info_app;

namespace vi
{
std::map<S,size_t> class_counts (const std::vector<uint32_t> &c) { return ia::get_class_count_map (c); }
std::map<S,double> metrics (const PRS &p) { return ia::get_metric_values (p); }
std::map<S,S> units () { return ia::get_metric_units (); }
O object_f64 (const std::vector<double> &x, const bool q) { return ia::get_summary_object<double> (x, q); }
O object_u32 (const std::vector<uint32_t> &x, const bool q) { return ia::get_summary_object<uint32_t> (x, q); }
O object_u16 (const std::vector<uint16_t> &x, const bool q) { return ia::get_summary_object<uint16_t> (x, q); }
O object_u64 (const std::vector<uint64_t> &x, const bool q) { return ia::get_summary_object<uint64_t> (x, q); }
S string_f64 (const S &l, const std::vector<double> &x, const bool c, const bool q) { return ia::get_summary_string<double> (l, x, c, q); }
S string_u32 (const S &l, const std::vector<uint32_t> &x, const bool c, const bool q) { return ia::get_summary_string<uint32_t> (l, x, c, q); }
S string_u16 (const S &l, const std::vector<uint16_t> &x, const bool c, const bool q) { return ia::get_summary_string<uint16_t> (l, x, c, q); }
S string_u64 (const S &l, const std::vector<uint64_t> &x, const bool c, const bool q) { return ia::get_summary_string<uint64_t> (l, x, c, q); }
void report (std::ostream &os, const F &f, const bool json, const bool h, const bool s, const bool c, const bool m, const bool k, const bool q)
{
    ia::process (os, f, json, h, s, c, m, k, q);
}

void compact_int (std::ostream &s, const int v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_char (std::ostream &s, const char v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_u8 (std::ostream &s, const uint8_t v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_u16 (std::ostream &s, const uint16_t v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_u32 (std::ostream &s, const uint32_t v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_u64 (std::ostream &s, const uint64_t v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_f32 (std::ostream &s, const float v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_f64 (std::ostream &s, const double v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_bool (std::ostream &s, const bool v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_string (std::ostream &s, const S &v) { spoc::json::operator<< (s, spoc::json::value (v)); }
void compact_array (std::ostream &s, const A &v) { spoc::json::operator<< (s, v); }
void compact_object (std::ostream &s, const O &v) { spoc::json::operator<< (s, v); }

void pretty_int (std::ostream &s, const int v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_char (std::ostream &s, const char v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_u8 (std::ostream &s, const uint8_t v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_u16 (std::ostream &s, const uint16_t v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_u32 (std::ostream &s, const uint32_t v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_u64 (std::ostream &s, const uint64_t v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_f32 (std::ostream &s, const float v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_f64 (std::ostream &s, const double v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_bool (std::ostream &s, const bool v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_string (std::ostream &s, const S &v) { spoc::json::pretty_print (s, spoc::json::value (v), 1); }
void pretty_array (std::ostream &s, const A &v, const int n) { spoc::json::pretty_print (s, v, n); }
void pretty_object (std::ostream &s, const O &v, const int n) { spoc::json::pretty_print (s, v, n); }
std::unordered_map<int, std::string> class_names () { return spoc::asprs::get_asprs_class_map (); }
}

namespace vs
{
std::unordered_map<int, std::string> class_names ()
{
    std::unordered_map<int, std::string> m;
    const char *n[] = {"unclassified", "unknown", "ground", "low_veg", "med_veg", "high_veg", "building", "low_noise", "reserved", "water", "rail",
        "road", "reserved", "wire_guard", "wire_conductor", "transmission_tower", "wire_connector", "bridge_deck", "high_noise",
        "overhead_structure", "ignored", "snow", "exclusion"};
    for (int i = 0; i < 23; ++i)
        m[i] = n[i];
    for (int i = 23; i < 256; ++i)
        m[i] = i < 64 ? "reserved" : "user_defined";
    return m;
}
std::map<S,size_t> class_counts (const std::vector<uint32_t> &c)
{
    std::unordered_map<int,size_t> n;
    for (auto i : c)
        n[i] += 1;
    std::map<S,size_t> r;
    for (const auto &i : n)
    {
        std::ostringstream s;
        s << std::setfill ('0') << std::setw (3) << std::to_string (i.first);
        r[s.str ()] = i.second;
    }
    return r;
}

std::map<S,double> metrics (const PRS &p)
{
    const auto e = spoc::extent::get_extent (p);
    const auto vi = spoc::voxel::get_voxel_indexes (p, e, 1.0);
    auto gi = vi;
    for (auto &i : gi)
        i.k = 0;
    std::map<S,double> v;
    v["extent_point_density"] = p.size () / ((e.maxp.x - e.minp.x) * (e.maxp.y - e.minp.y));
    v["grid_point_density"] = double (p.size ()) / spoc::voxel::get_voxel_index_set (gi).size ();
    v["voxel_point_density"] = double (p.size ()) / spoc::voxel::get_voxel_index_set (vi).size ();
    return v;
}

std::map<S,S> units ()
{
    std::map<S,S> u;
    u["extent_point_density"] = "pts/unit^2";
    u["grid_point_density"] = "pts/unit^2";
    u["voxel_point_density"] = "pts/unit^3";
    return u;
}

template<typename T>
O object (const std::vector<T> &x, const bool q)
{
    O s;
    if (x.empty ())
    {
        s["size"] = 0;
        s["min"] = 0;
        s["max"] = 0;
    }
    else if (q)
    {
        std::vector<T> y (x);
        std::sort (y.begin (), y.end ());
        const size_t n = y.size ();
        s["range"] = y[n - 1] - y[0];
        s["q0"] = y[0];
        s["q1"] = y[n / 4];
        s["q2"] = y[n / 2];
        s["q3"] = y[3 * n / 4];
        s["q4"] = y[n - 1];
    }
    else
    {
        const T a = *std::min_element (x.begin (), x.end ());
        const T b = *std::max_element (x.begin (), x.end ());
        s["range"] = b - a;
        s["min"] = a;
        s["max"] = b;
    }
    return s;
}

O object_f64 (const std::vector<double> &x, const bool q) { return object<double> (x, q); }
O object_u32 (const std::vector<uint32_t> &x, const bool q) { return object<uint32_t> (x, q); }
O object_u16 (const std::vector<uint16_t> &x, const bool q) { return object<uint16_t> (x, q); }
O object_u64 (const std::vector<uint64_t> &x, const bool q) { return object<uint64_t> (x, q); }

template<typename T>
S text (const S &l, const std::vector<T> &x, const bool c, const bool q)
{
    std::ostringstream s;
    s << std::setprecision (3) << std::fixed;
    if (x.empty ())
    {
        if (!c)
            s << l << "0" << std::endl << "size\t0" << std::endl << "min\t0" << std::endl << "max\t0" << std::endl;
        return s.str ();
    }
    if (q)
    {
        std::vector<T> y (x);
        std::sort (y.begin (), y.end ());
        const size_t n = y.size ();
        const T q0 = y.front (), q1 = y[n / 4], q2 = y[n / 2], q3 = y[3 * n / 4], q4 = y.back ();
        if (c)
            s << l << "range=" << q4 - q0 << ", " << q0 << " + " << q1 - q0 << " + " << q2 - q1 << " + " << q3 - q2 << " + " << q4 - q3 << " = " << q4 << std::endl;
        else
            s << l << n << std::endl << "range\t" << q4 - q0 << std::endl << "q0\t" << q0 << std::endl << "q1\t" << q1 << std::endl << "q2\t" << q2 << std::endl
              << "q3\t" << q3 << std::endl << "q4\t" << q4 << std::endl;
        return s.str ();
    }
    const T a = *std::min_element (x.begin (), x.end ());
    const T b = *std::max_element (x.begin (), x.end ());
    if (c)
        s << l << "range=" << b - a << ", min=" << a << ", max=" << b << std::endl;
    else
        s << l << x.size () << std::endl << "range\t" << b - a << std::endl << "min\t" << a << std::endl << "max\t" << b << std::endl;
    return s.str ();
}

S string_f64 (const S &l, const std::vector<double> &x, const bool c, const bool q) { return text<double> (l, x, c, q); }
S string_u32 (const S &l, const std::vector<uint32_t> &x, const bool c, const bool q) { return text<uint32_t> (l, x, c, q); }
S string_u16 (const S &l, const std::vector<uint16_t> &x, const bool c, const bool q) { return text<uint16_t> (l, x, c, q); }
S string_u64 (const S &l, const std::vector<uint64_t> &x, const bool c, const bool q) { return text<uint64_t> (l, x, c, q); }

void report (std::ostream &os, const F &f, const bool json, const bool header, const bool summary, const bool classes, const bool metrics, const bool compact, const bool quartiles)
{
    const auto &p = f.get_point_records ();
    os << std::setprecision (15) << std::fixed;
    if (json)
    {
        O j;
        if (header)
        {
            O o;
            o["major_version"] = f.get_header ().major_version;
            o["minor_version"] = f.get_header ().minor_version;
            o["wkt"] = f.get_header ().wkt;
            o["total_points"] = f.get_header ().total_points;
            o["compressed"] = f.get_header ().compressed;
            j["header"] = o;
        }
        if (summary)
        {
            O o;
            o["x"] = ia::get_summary_object<double> (spoc::point_record::get_x (p), quartiles);
            o["y"] = ia::get_summary_object<double> (spoc::point_record::get_y (p), quartiles);
            o["z"] = ia::get_summary_object<double> (spoc::point_record::get_z (p), quartiles);
            o["c"] = ia::get_summary_object<uint32_t> (spoc::point_record::get_c (p), quartiles);
            o["p"] = ia::get_summary_object<uint32_t> (spoc::point_record::get_p (p), quartiles);
            o["i"] = ia::get_summary_object<uint16_t> (spoc::point_record::get_i (p), quartiles);
            o["r"] = ia::get_summary_object<uint16_t> (spoc::point_record::get_r (p), quartiles);
            o["g"] = ia::get_summary_object<uint16_t> (spoc::point_record::get_g (p), quartiles);
            o["b"] = ia::get_summary_object<uint16_t> (spoc::point_record::get_b (p), quartiles);
            A a;
            for (size_t k = 0; k < spoc::point_record::get_extra_fields_size (p); ++k)
                a.push_back (ia::get_summary_object<uint64_t> (spoc::point_record::get_extra (k, p), quartiles));
            o["extra"] = a;
            j["summary"] = o;
        }
        if (classes)
        {
            O o;
            for (const auto &i : ia::get_class_count_map (spoc::point_record::get_c (p)))
                o[i.first] = i.second;
            j["classifications"] = o;
        }
        if (metrics)
        {
            O o;
            for (const auto &i : ia::get_metric_values (p))
                o[i.first] = i.second;
            j["metrics"] = o;
        }
        if (compact)
            spoc::json::operator<< (os, j);
        else
            spoc::json::pretty_print (os, j, 0);
        return;
    }
    if (header)
    {
        os << "major_version\t" << int (f.get_header ().major_version) << std::endl;
        os << "minor_version\t" << int (f.get_header ().minor_version) << std::endl;
        os << "ogc_wkt\t'" << f.get_header ().wkt << "'" << std::endl;
        os << "total_points\t" << f.get_header ().total_points << std::endl;
        os << "compressed\t" << (f.get_header ().compressed ? "true" : "false") << std::endl;
    }
    if (summary)
    {
        os << ia::get_summary_string<double> ("x\t", spoc::point_record::get_x (p), compact, quartiles);
        os << ia::get_summary_string<double> ("y\t", spoc::point_record::get_y (p), compact, quartiles);
        os << ia::get_summary_string<double> ("z\t", spoc::point_record::get_z (p), compact, quartiles);
        os << ia::get_summary_string<uint32_t> ("c\t", spoc::point_record::get_c (p), compact, quartiles);
        os << ia::get_summary_string<uint32_t> ("p\t", spoc::point_record::get_p (p), compact, quartiles);
        os << ia::get_summary_string<uint16_t> ("i\t", spoc::point_record::get_i (p), compact, quartiles);
        os << ia::get_summary_string<uint16_t> ("r\t", spoc::point_record::get_r (p), compact, quartiles);
        os << ia::get_summary_string<uint16_t> ("g\t", spoc::point_record::get_g (p), compact, quartiles);
        os << ia::get_summary_string<uint16_t> ("b\t", spoc::point_record::get_b (p), compact, quartiles);
        for (size_t k = 0; k < spoc::point_record::get_extra_fields_size (p); ++k)
        {
            std::stringstream s;
            s << "extra_" << k << "\t";
            os << ia::get_summary_string<uint64_t> (s.str (), spoc::point_record::get_extra (k, p), compact, quartiles);
        }
    }
    if (classes)
    {
        const auto names = spoc::asprs::get_asprs_class_map ();
        for (const auto &i : ia::get_class_count_map (spoc::point_record::get_c (p)))
        {
            const auto n = names.find (std::stoi (i.first));
            os << "cls_" << i.first << "\t" << i.second << "\t" << (n == names.end () ? S ("undefined") : n->second) << std::endl;
        }
    }
    if (metrics)
    {
        const auto units = ia::get_metric_units ();
        for (const auto &i : ia::get_metric_values (p))
            os << i.first << "\t" << i.second << "\t" << units.at (i.first) << std::endl;
    }
}

void compact_int (std::ostream &s, const int v) { s << v; }
void compact_char (std::ostream &s, const char v) { s << int (v); }
void compact_u8 (std::ostream &s, const uint8_t v) { s << int (v); }
void compact_u16 (std::ostream &s, const uint16_t v) { s << v; }
void compact_u32 (std::ostream &s, const uint32_t v) { s << v; }
void compact_u64 (std::ostream &s, const uint64_t v) { s << v; }
void compact_f32 (std::ostream &s, const float v) { s << v; }
void compact_f64 (std::ostream &s, const double v) { s << v; }
void compact_bool (std::ostream &s, const bool v) { s << std::boolalpha << v; }
void compact_string (std::ostream &s, const S &v) { s << "'" << v << "'"; }
void compact_array (std::ostream &s, const A &v)
{
    s << "[ ";
    for (size_t i = 0; i < v.size (); ++i)
    {
        spoc::json::operator<< (s, v[i]);
        if (i + 1 != v.size ())
            s << ", ";
    }
    s << " ]";
}
void compact_object (std::ostream &s, const O &v)
{
    s << "{ ";
    auto i = v.begin ();
    while (i != v.end ())
    {
        s << "'" << i->first << "' : ";
        spoc::json::operator<< (s, i->second);
        ++i;
        if (i != v.end ())
            s << ", ";
    }
    s << " }";
}

void pretty_int (std::ostream &s, const int v) { s << v; }
void pretty_char (std::ostream &s, const char v) { s << int (v); }
void pretty_u8 (std::ostream &s, const uint8_t v) { s << int (v); }
void pretty_u16 (std::ostream &s, const uint16_t v) { s << v; }
void pretty_u32 (std::ostream &s, const uint32_t v) { s << v; }
void pretty_u64 (std::ostream &s, const uint64_t v) { s << v; }
void pretty_f32 (std::ostream &s, const float v) { s << v; }
void pretty_f64 (std::ostream &s, const double v) { s << v; }
void pretty_bool (std::ostream &s, const bool v) { s << std::boolalpha << v; }
void pretty_string (std::ostream &s, const S &v) { s << "'" << v << "'"; }
void indent (std::ostream &s, const int n) { for (int i = 0; i < n; ++i) s << "    "; }
void pretty_array (std::ostream &s, const A &v, const int n)
{
    s << "[ ";
    for (size_t i = 0; i < v.size (); ++i)
    {
        spoc::json::pretty_print (s, v[i], n);
        if (i + 1 != v.size ())
            s << ", ";
    }
    s << " ]";
}
void pretty_object (std::ostream &s, const O &v, const int n)
{
    s << "{" << std::endl;
    auto i = v.begin ();
    while (i != v.end ())
    {
        indent (s, n + 1);
        s << "'" << i->first << "' : ";
        spoc::json::pretty_print (s, i->second, n + 1);
        ++i;
        if (i != v.end ())
            s << ",";
        s << std::endl;
    }
    indent (s, n);
    s << "}";
}
}
