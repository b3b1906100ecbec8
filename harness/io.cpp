// Adaptors (vi) and specification (vs) of point file input and output.
#include <bits/stdc++.h>
#include "spoc/io.h"

using spoc::header::header;
using spoc::point_record::point_record;
using spoc::point_record::point_records;
using spoc::file::spoc_file;

namespace vi
{
#define COLUMN(N,T) \
std::vector<uint8_t> compress_field_##N (const std::vector<T> &x) { return spoc::io::compress_field (x); } \
std::vector<T> read_column_##N (std::istream &s, const size_t n) { return spoc::io::read_compressed<T> (s, n); }
COLUMN (f64, double) COLUMN (u32, uint32_t) COLUMN (u16, uint16_t) COLUMN (u64, uint64_t)
#undef COLUMN
void write_column (std::ostream &s, const std::vector<uint8_t> &x) { spoc::io::write_compressed (s, x); }
point_records read_compressed_points (std::istream &s, const size_t n, const size_t e) { return spoc::io::read_compressed_points (s, n, e); }
void write_compressed (std::ostream &s, const spoc_file &f) { spoc::io::write_spoc_file_compressed (s, f); }
void write_uncompressed (std::ostream &s, const spoc_file &f) { spoc::io::write_spoc_file_uncompressed (s, f); }
void write_file (std::ostream &s, const spoc_file &f) { spoc::io::write_spoc_file (s, f); }
spoc_file read_compressed (std::istream &s) { return spoc::io::read_spoc_file_compressed (s); }
spoc_file read_uncompressed (std::istream &s) { return spoc::io::read_spoc_file_uncompressed (s); }
spoc_file read_file (std::istream &s) { return spoc::io::read_spoc_file (s); }
}

namespace vs
{
template<typename T> bool zeros (const std::vector<T> &x)
{
    for (size_t n = 0; n < x.size (); ++n)
        if (x[n] != 0) return false;
    return true;
}
template<typename T> std::vector<uint8_t> compress_field (const std::vector<T> &x)
{
    if (vs::zeros (x)) return std::vector<uint8_t> ();
    return spoc::compression::compress (reinterpret_cast<const uint8_t *> (&x[0]), x.size () * sizeof (T), -1);
}
template<typename T> std::vector<T> read_column (std::istream &s, const size_t n)
{
    uint64_t len = 0;
    s.read (reinterpret_cast<char *> (&len), 8);
    if (!s) throw std::runtime_error ("read");
    if (len == 0) return std::vector<T> ();
    std::vector<uint8_t> c (len);
    s.read (reinterpret_cast<char *> (&c[0]), len);
    if (!s) throw std::runtime_error ("read");
    std::vector<T> x (n);
    spoc::compression::decompress (c, reinterpret_cast<uint8_t *> (&x[0]), n * sizeof (T));
    return x;
}
#define COLUMN(N,T) \
std::vector<uint8_t> compress_field_##N (const std::vector<T> &x) { return vs::compress_field (x); } \
std::vector<T> read_column_##N (std::istream &s, const size_t n) { return vs::read_column<T> (s, n); }
COLUMN (f64, double) COLUMN (u32, uint32_t) COLUMN (u16, uint16_t) COLUMN (u64, uint64_t)
#undef COLUMN
void write_column (std::ostream &s, const std::vector<uint8_t> &x)
{
    const uint64_t len = x.size ();
    s.write (reinterpret_cast<const char *> (&len), 8);
    if (len != 0) s.write (reinterpret_cast<const char *> (&x[0]), len);
}
point_records read_compressed_points (std::istream &s, const size_t n, const size_t e)
{
    const auto x = spoc::io::read_compressed<double> (s, n);
    const auto y = spoc::io::read_compressed<double> (s, n);
    const auto z = spoc::io::read_compressed<double> (s, n);
    const auto c = spoc::io::read_compressed<uint32_t> (s, n);
    const auto p = spoc::io::read_compressed<uint32_t> (s, n);
    const auto i = spoc::io::read_compressed<uint16_t> (s, n);
    const auto r = spoc::io::read_compressed<uint16_t> (s, n);
    const auto g = spoc::io::read_compressed<uint16_t> (s, n);
    const auto b = spoc::io::read_compressed<uint16_t> (s, n);
    std::vector<std::vector<uint64_t>> ex;
    for (size_t k = 0; k < e; ++k)
        ex.push_back (spoc::io::read_compressed<uint64_t> (s, n));
    point_records v;
    for (size_t j = 0; j < n; ++j)
    {
        point_record q (e);
        q.x = x.size () == 0 ? 0.0 : x[j];
        q.y = y.size () == 0 ? 0.0 : y[j];
        q.z = z.size () == 0 ? 0.0 : z[j];
        q.c = c.size () == 0 ? 0 : c[j];
        q.p = p.size () == 0 ? 0 : p[j];
        q.i = i.size () == 0 ? 0 : i[j];
        q.r = r.size () == 0 ? 0 : r[j];
        q.g = g.size () == 0 ? 0 : g[j];
        q.b = b.size () == 0 ? 0 : b[j];
        for (size_t k = 0; k < e; ++k)
            q.extra[k] = ex[k].size () == 0 ? 0 : ex[k][j];
        v.push_back (q);
    }
    return v;
}
void write_compressed (std::ostream &s, const spoc_file &f)
{
    if (!f.compressed) throw std::runtime_error ("kind");
    spoc::header::write_header (s, f.get_header ());
    const auto &p = f.prs;
    const size_t e = p.size () == 0 ? 0 : p[0].extra.size ();
#define COLUMN(F) { std::vector<decltype (point_record::F)> v; for (const auto &r : p) v.push_back (r.F); \
    spoc::io::write_compressed (s, spoc::io::compress_field (v)); }
    COLUMN (x) COLUMN (y) COLUMN (z) COLUMN (c) COLUMN (p) COLUMN (i) COLUMN (r) COLUMN (g) COLUMN (b)
#undef COLUMN
    for (size_t k = 0; k < e; ++k)
    {
        std::vector<uint64_t> v;
        for (const auto &r : p) v.push_back (r.extra[k]);
        spoc::io::write_compressed (s, spoc::io::compress_field (v));
    }
    s.flush ();
    if (!s) throw std::runtime_error ("write");
}
void write_uncompressed (std::ostream &s, const spoc_file &f)
{
    if (f.compressed) throw std::runtime_error ("kind");
    spoc::header::write_header (s, f.get_header ());
    for (size_t n = 0; n < f.prs.size (); ++n)
        spoc::point_record::write_point_record (s, f.prs[n]);
}
void write_file (std::ostream &s, const spoc_file &f)
{
    if (f.compressed)
        spoc::io::write_spoc_file_compressed (s, f);
    else
        spoc::io::write_spoc_file_uncompressed (s, f);
}
spoc_file read_compressed (std::istream &s)
{
    const auto h = spoc::header::read_header (s);
    if (!h.compressed) throw std::runtime_error ("kind");
    const auto p = spoc::io::read_compressed_points (s, h.total_points, h.extra_fields);
    return spoc_file (h.major_version, h.minor_version, h.wkt, h.compressed, p);
}
spoc_file read_uncompressed (std::istream &s)
{
    const auto h = spoc::header::read_header (s);
    if (h.compressed) throw std::runtime_error ("kind");
    const auto p = spoc::io::read_uncompressed_points (s, h.total_points, h.extra_fields);
    return spoc_file (h.major_version, h.minor_version, h.wkt, h.compressed, p);
}
spoc_file read_file (std::istream &s)
{
    const auto h = spoc::header::read_header (s);
    if (h.compressed)
    {
        const auto p = spoc::io::read_compressed_points (s, h.total_points, h.extra_fields);
        return spoc_file (h.major_version, h.minor_version, h.wkt, true, p);
    }
    const auto p = spoc::io::read_uncompressed_points (s, h.total_points, h.extra_fields);
    return spoc_file (h.major_version, h.minor_version, h.wkt, false, p);
}
}
