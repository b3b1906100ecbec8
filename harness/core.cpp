// Adaptors (vi) around the code under analysis and the specification (vs)
// of points, records, headers and file objects.  Nothing here is executed:
// both sides are summarised by the analyser and their summaries compared.
#include <bits/stdc++.h>
#include "spoc/file.h"
#include "spoc/io.h"
#include "spoc/extent.h"
#include "spoc/voxel.h"

using spoc::header::header;
using spoc::point_record::point_record;
using spoc::point_record::point_records;
using spoc::file::spoc_file;
typedef spoc::point::point<double> pd;
typedef spoc::voxel::voxel_index vox;
typedef spoc::extent::extent ext;

namespace vi
{
// C11
bool header_eq (const header &a, const header &b) { return a == b; }
bool header_ne (const header &a, const header &b) { return a != b; }
bool record_eq (const point_record &a, const point_record &b) { return a == b; }
bool record_ne (const point_record &a, const point_record &b) { return a != b; }
bool point_eq (const pd &a, const pd &b) { return a == b; }
bool point_ne (const pd &a, const pd &b) { return a != b; }
bool point_lt (const pd &a, const pd &b) { return a < b; }
bool voxel_eq (const vox &a, const vox &b) { return a == b; }
bool extent_eq (const ext &a, const ext &b) { return a == b; }
size_t point_hash (const pd &a) { return spoc::point::point_hash<double> () (a); }
size_t record_hash (const point_record &a) { return spoc::point_record::point_record_hash () (a); }
size_t voxel_hash (const vox &a) { return spoc::voxel::voxel_index_hash () (a); }

// C12
#define COL(T,F) \
std::vector<T> get_##F (const point_records &p) { return spoc::point_record::get_##F (p); } \
std::vector<T> file_get_##F (const spoc_file &f) { return f.get_##F (); }
COL (double, x) COL (double, y) COL (double, z) COL (uint32_t, c) COL (uint32_t, p)
COL (uint16_t, i) COL (uint16_t, r) COL (uint16_t, g) COL (uint16_t, b)
#undef COL
std::vector<uint64_t> get_extra (const size_t k, const point_records &p) { return spoc::point_record::get_extra (k, p); }
std::vector<uint64_t> file_get_extra (const size_t k, const spoc_file &f) { return f.get_extra (k); }
size_t extra_fields_size (const point_records &p) { return spoc::point_record::get_extra_fields_size (p); }
size_t file_extra_fields (const spoc_file &f) { return f.get_extra_fields (); }
bool zero_c (const point_records &p) { return spoc::point_record::has_all_zero_c (p); }
bool zero_p (const point_records &p) { return spoc::point_record::has_all_zero_p (p); }
bool zero_i (const point_records &p) { return spoc::point_record::has_all_zero_i (p); }
bool zero_r (const point_records &p) { return spoc::point_record::has_all_zero_r (p); }
bool zero_g (const point_records &p) { return spoc::point_record::has_all_zero_g (p); }
bool zero_b (const point_records &p) { return spoc::point_record::has_all_zero_b (p); }
bool zero_rgb (const point_records &p) { return spoc::point_record::has_all_zero_rgb (p); }
bool zero_extra (const size_t k, const point_records &p) { return spoc::point_record::has_all_zero_extra (k, p); }

// C01, C02, C06, C08
void write_header (std::ostream &s, const header &h) { spoc::header::write_header (s, h); }
header read_header (std::istream &s) { return spoc::header::read_header (s); }
void write_record (std::ostream &s, const point_record &p) { spoc::point_record::write_point_record (s, p); }
point_record read_record (std::istream &s, const size_t n) { return spoc::point_record::read_point_record (s, n); }
point_records read_points (std::istream &s, const size_t n, const size_t e) { return spoc::io::read_uncompressed_points (s, n, e); }
header get_header (const spoc_file &f) { return f.get_header (); }
bool check_signature (const header &h) { return h.check_signature (); }
bool header_valid (const header &h) { return h.is_valid (); }
header make_header (const uint8_t a, const uint8_t b, const std::string &w, const uint8_t e, const size_t n, const bool c) { return header (a, b, w, e, n, c); }
header make_header4 (const std::string &w, const uint8_t e, const size_t n, const bool c) { return header (w, e, n, c); }
header make_header0 () { return header (); }

// C09, C10
bool same_extra (const point_records &p) { return spoc::file::all_same_size_extra (p); }
bool file_valid (const spoc_file &f) { return f.is_valid (); }
void push_back (spoc_file &f, const point_record &p) { f.push_back (p); }
void resize_extra (spoc_file &f, const size_t n) { f.resize_extra_fields (n); }
void set_record (spoc_file &f, const size_t i, const point_record &p) { f.set_point_record (i, p); }
void set_records (spoc_file &f, const point_records &p) { f.set_point_records (p); }
void move_in (spoc_file &f, point_records &p) { f.move_point_records (p); }
void move_out (spoc_file &f, point_records &p) { p = f.move_point_records (); }
void swap_files (spoc_file &f, spoc_file &g) { f.swap (g); }
void assign (spoc_file &f, const spoc_file &g) { f = g; }
spoc_file copy (const spoc_file &g) { return spoc_file (g); }
spoc_file clone (const spoc_file &g) { return g.clone_empty (); }
spoc_file make_file (const std::string &w, const bool c, const point_records &p) { return spoc_file (w, c, p); }
spoc_file make_file5 (const uint8_t a, const uint8_t b, const std::string &w, const bool c, const point_records &p) { return spoc_file (a, b, w, c, p); }
spoc_file make_file0 () { return spoc_file (); }
void set_wkt (spoc_file &f, const std::string &w) { f.set_wkt (w); }
void set_compressed (spoc_file &f, const bool c) { f.set_compressed (c); }
std::string get_wkt (const spoc_file &f) { return f.get_wkt (); }
bool get_compressed (const spoc_file &f) { return f.get_compressed (); }
unsigned get_major (const spoc_file &f) { return f.get_major_version (); }
unsigned get_minor (const spoc_file &f) { return f.get_minor_version (); }
point_records get_records (const spoc_file &f) { return f.get_point_records (); }
point_record get_record (const spoc_file &f, const size_t i) { return f.get_point_record (i); }

// C39
pd add (const pd &a, const pd &b) { return a + b; }
pd sub (const pd &a, const pd &b) { return a - b; }
pd add_to (pd &a, const pd &b) { return a += b; }
pd sub_from (pd &a, const pd &b) { return a -= b; }
double dist (const pd &a, const pd &b) { return spoc::point::distance (a, b); }
double dist_record (const point_record &a, const point_record &b) { return spoc::point::distance (a, b); }
bool about (const double &a, const double &b, const unsigned p) { return spoc::point::about_equal (a, b, p); }
bool about_point (const pd &a, const pd &b, const unsigned p) { return spoc::point::about_equal (a, b, p); }
bool about_points (const std::vector<pd> &a, const std::vector<pd> &b, const unsigned p) { return spoc::point::about_equal (a, b, p); }
std::vector<uint8_t> encode_point (const pd &a) { return spoc::point::encode_point (a); }
pd decode_point (const std::vector<uint8_t> &a) { return spoc::point::decode_point (a); }
std::vector<uint8_t> encode_points (const std::vector<pd> &a) { return spoc::point::encode_points (a); }
std::vector<pd> decode_points (const std::vector<uint8_t> &a) { return spoc::point::decode_points<double> (a); }
spoc::extent::extent_pair encode_extent (const ext &a) { return spoc::extent::encode_extent (a); }
ext decode_extent (const spoc::extent::extent_pair &a) { return spoc::extent::decode_extent (a); }
}

namespace vs
{
bool header_eq (const header &a, const header &b)
{
    return a.signature[0] == b.signature[0] && a.signature[1] == b.signature[1]
        && a.signature[2] == b.signature[2] && a.signature[3] == b.signature[3]
        && a.major_version == b.major_version && a.minor_version == b.minor_version
        && a.wkt == b.wkt && a.extra_fields == b.extra_fields
        && a.total_points == b.total_points && a.compressed == b.compressed;
}
bool header_ne (const header &a, const header &b) { return !header_eq (a, b); }
bool record_eq (const point_record &a, const point_record &b)
{
    return a.x == b.x && a.y == b.y && a.z == b.z && a.c == b.c && a.p == b.p
        && a.i == b.i && a.r == b.r && a.g == b.g && a.b == b.b && a.extra == b.extra;
}
bool record_ne (const point_record &a, const point_record &b) { return !record_eq (a, b); }
bool point_eq (const pd &a, const pd &b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
bool point_ne (const pd &a, const pd &b) { return !point_eq (a, b); }
bool point_lt (const pd &a, const pd &b)
{
    if (a.x < b.x) return true;
    if (b.x < a.x) return false;
    if (a.y < b.y) return true;
    if (b.y < a.y) return false;
    return a.z < b.z;
}
bool voxel_eq (const vox &a, const vox &b) { return a.i == b.i && a.j == b.j && a.k == b.k; }
bool extent_eq (const ext &a, const ext &b) { return point_eq (a.minp, b.minp) && point_eq (a.maxp, b.maxp); }

#define COL(T,F) \
std::vector<T> get_##F (const point_records &p) \
{ \
    std::vector<T> v; \
    for (const auto &r : p) v.push_back (r.F); \
    return v; \
} \
std::vector<T> file_get_##F (const spoc_file &f) { return vs::get_##F (f.prs); }
COL (double, x) COL (double, y) COL (double, z) COL (uint32_t, c) COL (uint32_t, p)
COL (uint16_t, i) COL (uint16_t, r) COL (uint16_t, g) COL (uint16_t, b)
#undef COL
std::vector<uint64_t> get_extra (const size_t k, const point_records &p)
{
    std::vector<uint64_t> v;
    for (const auto &r : p)
        if (k >= r.extra.size ()) throw std::runtime_error ("index");
    for (const auto &r : p) v.push_back (r.extra[k]);
    return v;
}
std::vector<uint64_t> file_get_extra (const size_t k, const spoc_file &f) { return vs::get_extra (k, f.prs); }
size_t extra_fields_size (const point_records &p)
{
    if (p.size () == 0) return 0;
    return p[0].extra.size ();
}
size_t file_extra_fields (const spoc_file &f) { return extra_fields_size (f.prs); }
#define ZERO(F) \
bool zero_##F (const point_records &p) \
{ \
    for (size_t n = 0; n < p.size (); ++n) \
        if (p[n].F != 0) return false; \
    return true; \
}
ZERO (c) ZERO (p) ZERO (i) ZERO (r) ZERO (g) ZERO (b)
#undef ZERO
bool zero_rgb (const point_records &p) { return zero_r (p) && zero_g (p) && zero_b (p); }
// the same number of extra fields in every record is a precondition
bool zero_extra (const size_t k, const point_records &p)
{
    for (const auto &r : p)
        if (k >= r.extra.size ()) throw std::runtime_error ("index");
    for (const auto &r : p)
        if (r.extra[k] != 0) return false;
    return true;
}

#define PUT(v,n) s.write (reinterpret_cast<const char *> (&(v)), n)
#define GET(v,n) s.read (reinterpret_cast<char *> (&(v)), n)
void write_header (std::ostream &s, const header &h)
{
    if (!(h.signature[0] == 'S' && h.signature[1] == 'P' && h.signature[2] == 'O' && h.signature[3] == 'C'))
        throw std::runtime_error ("signature");
    if (h.wkt.size () > 65535)
        throw std::runtime_error ("wkt");
    PUT (h.signature[0], 1);
    PUT (h.signature[1], 1);
    PUT (h.signature[2], 1);
    PUT (h.signature[3], 1);
    PUT (h.major_version, 1);
    PUT (h.minor_version, 1);
    const uint16_t len = h.wkt.size ();
    PUT (len, 2);
    s.write (h.wkt.c_str (), h.wkt.size ());
    PUT (h.extra_fields, 1);
    PUT (h.total_points, 8);
    PUT (h.compressed, 1);
    s.flush ();
    if (!s) throw std::runtime_error ("write");
}
header read_header (std::istream &s)
{
    header h;
    char sig[4];
    s.read (sig, 4);
    if (!s) throw std::runtime_error ("read");
    if (!(sig[0] == 'S' && sig[1] == 'P' && sig[2] == 'O' && sig[3] == 'C'))
        throw std::runtime_error ("signature");
    GET (h.major_version, 1);
    if (!s) throw std::runtime_error ("read");
    if (h.major_version != spoc::MAJOR_VERSION) throw std::runtime_error ("major");
    GET (h.minor_version, 1);
    if (!s) throw std::runtime_error ("read");
    if (h.minor_version != spoc::MINOR_VERSION) throw std::runtime_error ("minor");
    uint16_t len = 0;
    GET (len, 2);
    if (!s) throw std::runtime_error ("read");
    std::string w (len, ' ');
    s.read (&w[0], len);
    h.wkt = w;
    GET (h.extra_fields, 1);
    GET (h.total_points, 8);
    GET (h.compressed, 1);
    if (!s) throw std::runtime_error ("read");
    return h;
}
bool check_signature (const header &h)
{
    return h.signature[0] == 'S' && h.signature[1] == 'P' && h.signature[2] == 'O' && h.signature[3] == 'C';
}
bool header_valid (const header &h) { return check_signature (h) && h.wkt.size () <= 65535; }
void write_record (std::ostream &s, const point_record &p)
{
    PUT (p.x, 8); PUT (p.y, 8); PUT (p.z, 8);
    PUT (p.c, 4); PUT (p.p, 4);
    PUT (p.i, 2); PUT (p.r, 2); PUT (p.g, 2); PUT (p.b, 2);
    for (size_t k = 0; k < p.extra.size (); ++k)
        PUT (p.extra[k], 8);
    s.flush ();
    if (!s) throw std::runtime_error ("write");
}
point_record read_record (std::istream &s, const size_t n)
{
    point_record p (n);
    GET (p.x, 8); GET (p.y, 8); GET (p.z, 8);
    GET (p.c, 4); GET (p.p, 4);
    GET (p.i, 2); GET (p.r, 2); GET (p.g, 2); GET (p.b, 2);
    for (size_t k = 0; k < n; ++k)
        GET (p.extra[k], 8);
    if (!s) throw std::runtime_error ("read");
    return p;
}
point_records read_points (std::istream &s, const size_t n, const size_t e)
{
    point_records v;
    for (size_t i = 0; i < n; ++i)
    {
        point_record p (e);
        GET (p.x, 8); GET (p.y, 8); GET (p.z, 8);
        GET (p.c, 4); GET (p.p, 4);
        GET (p.i, 2); GET (p.r, 2); GET (p.g, 2); GET (p.b, 2);
        for (size_t k = 0; k < e; ++k)
            GET (p.extra[k], 8);
        v.push_back (p);
    }
    if (!s) throw std::runtime_error ("read");
    return v;
}
header make_header (const uint8_t a, const uint8_t b, const std::string &w, const uint8_t e, const size_t n, const bool c)
{
    if (w.size () > 65535) throw std::runtime_error ("wkt");
    header h;
    h.signature[0] = 'S'; h.signature[1] = 'P'; h.signature[2] = 'O'; h.signature[3] = 'C'; h.signature[4] = 0;
    h.major_version = a;
    h.minor_version = b;
    h.wkt = w;
    h.extra_fields = e;
    h.total_points = n;
    h.compressed = c;
    return h;
}
header make_header4 (const std::string &w, const uint8_t e, const size_t n, const bool c)
{
    return make_header (spoc::MAJOR_VERSION, spoc::MINOR_VERSION, w, e, n, c);
}
header make_header0 ()
{
    return make_header (spoc::MAJOR_VERSION, spoc::MINOR_VERSION, std::string (), 0, 0, false);
}
header get_header (const spoc_file &f)
{
    const size_t e = extra_fields_size (f.prs);
    if (e > 255) throw std::runtime_error ("extra");
    return make_header (f.major_version, f.minor_version, f.wkt, e, f.prs.size (), f.compressed);
}

bool same_extra (const point_records &p)
{
    for (size_t n = 0; n < p.size (); ++n)
        if (p[n].extra.size () != p[0].extra.size ()) return false;
    return true;
}
bool file_valid (const spoc_file &f) { return same_extra (f.prs); }
void push_back (spoc_file &f, const point_record &p)
{
    if (f.prs.size () != 0 && p.extra.size () != f.prs[0].extra.size ()) throw std::runtime_error ("extra");
    f.prs.push_back (p);
}
void resize_extra (spoc_file &f, const size_t n)
{
    for (size_t i = 0; i < f.prs.size (); ++i)
        f.prs[i].extra.resize (n);
}
void set_record (spoc_file &f, const size_t i, const point_record &p)
{
    if (i >= f.prs.size ()) throw std::runtime_error ("index");
    if (p.extra.size () != f.prs[0].extra.size ()) throw std::runtime_error ("extra");
    f.prs[i] = p;
}
void set_records (spoc_file &f, const point_records &p)
{
    if (!same_extra (p)) throw std::runtime_error ("extra");
    f.prs = p;
}
void move_in (spoc_file &f, point_records &p)
{
    if (!same_extra (p)) throw std::runtime_error ("extra");
    f.prs = p;
}
void move_out (spoc_file &f, point_records &p) { p = f.prs; f.prs.clear (); }
void swap_files (spoc_file &f, spoc_file &g)
{
    const auto a = f.major_version; f.major_version = g.major_version; g.major_version = a;
    const auto b = f.minor_version; f.minor_version = g.minor_version; g.minor_version = b;
    const auto w = f.wkt; f.wkt = g.wkt; g.wkt = w;
    const auto c = f.compressed; f.compressed = g.compressed; g.compressed = c;
    const auto p = f.prs; f.prs = g.prs; g.prs = p;
}
void assign (spoc_file &f, const spoc_file &g)
{
    f.major_version = g.major_version;
    f.minor_version = g.minor_version;
    f.wkt = g.wkt;
    f.compressed = g.compressed;
    f.prs = g.prs;
}
spoc_file make_file5 (const uint8_t a, const uint8_t b, const std::string &w, const bool c, const point_records &p)
{
    if (!same_extra (p)) throw std::runtime_error ("extra");
    spoc_file f;
    f.major_version = a;
    f.minor_version = b;
    f.wkt = w;
    f.compressed = c;
    f.prs = p;
    return f;
}
spoc_file copy (const spoc_file &g)
{
    spoc_file f;
    assign (f, g);
    return f;
}
spoc_file clone (const spoc_file &g)
{
    spoc_file f;
    assign (f, g);
    f.prs.clear ();
    return f;
}
spoc_file make_file (const std::string &w, const bool c, const point_records &p)
{
    return make_file5 (spoc::MAJOR_VERSION, spoc::MINOR_VERSION, w, c, p);
}
spoc_file make_file0 () { return make_file5 (spoc::MAJOR_VERSION, spoc::MINOR_VERSION, std::string (), false, point_records ()); }
void set_wkt (spoc_file &f, const std::string &w) { f.wkt = w; }
void set_compressed (spoc_file &f, const bool c) { f.compressed = c; }
std::string get_wkt (const spoc_file &f) { return f.wkt; }
bool get_compressed (const spoc_file &f) { return f.compressed; }
unsigned get_major (const spoc_file &f) { return f.major_version; }
unsigned get_minor (const spoc_file &f) { return f.minor_version; }
point_records get_records (const spoc_file &f) { return f.prs; }
point_record get_record (const spoc_file &f, const size_t i)
{
    if (i >= f.prs.size ()) throw std::runtime_error ("index");
    return f.prs[i];
}

pd add (const pd &a, const pd &b) { pd c; c.x = a.x + b.x; c.y = a.y + b.y; c.z = a.z + b.z; return c; }
pd sub (const pd &a, const pd &b) { pd c; c.x = a.x - b.x; c.y = a.y - b.y; c.z = a.z - b.z; return c; }
pd add_to (pd &a, const pd &b) { a = add (a, b); return a; }
pd sub_from (pd &a, const pd &b) { a = sub (a, b); return a; }
double dist (const pd &a, const pd &b)
{
    return std::sqrt ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z));
}
double dist_record (const point_record &a, const point_record &b)
{
    return std::sqrt ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z));
}
bool about (const double &a, const double &b, const unsigned p)
{
    return std::round ((a - b) * std::pow (10, p)) == 0;
}
bool about_point (const pd &a, const pd &b, const unsigned p)
{
    return about (a.x, b.x, p) && about (a.y, b.y, p) && about (a.z, b.z, p);
}
bool about_points (const std::vector<pd> &a, const std::vector<pd> &b, const unsigned p)
{
    for (size_t n = 0; n < a.size (); ++n)
        if (!about_point (a[n], b[n], p)) return false;
    return true;
}
std::vector<uint8_t> encode_point (const pd &a)
{
    std::vector<uint8_t> v (24);
    std::memcpy (&v[0], &a.x, 8);
    std::memcpy (&v[8], &a.y, 8);
    std::memcpy (&v[16], &a.z, 8);
    return v;
}
pd decode_point (const std::vector<uint8_t> &a)
{
    pd p;
    std::memcpy (&p.x, &a[0], 8);
    std::memcpy (&p.y, &a[8], 8);
    std::memcpy (&p.z, &a[16], 8);
    return p;
}
std::vector<uint8_t> encode_points (const std::vector<pd> &a)
{
    std::vector<uint8_t> v;
    for (const auto &q : a)
    {
        const auto e = vs::encode_point (q);
        v.insert (v.end (), e.begin (), e.end ());
    }
    return v;
}
std::vector<pd> decode_points (const std::vector<uint8_t> &a)
{
    std::vector<pd> v (a.size () / 24);
    for (size_t n = 0; n < v.size (); ++n)
    {
        std::memcpy (&v[n].x, &a[24 * n], 8);
        std::memcpy (&v[n].y, &a[24 * n + 8], 8);
        std::memcpy (&v[n].z, &a[24 * n + 16], 8);
    }
    return v;
}
spoc::extent::extent_pair encode_extent (const ext &a)
{
    spoc::extent::extent_pair e;
    e.first = vs::encode_point (a.minp);
    e.second = vs::encode_point (a.maxp);
    return e;
}
ext decode_extent (const spoc::extent::extent_pair &a)
{
    ext e;
    e.minp = vs::decode_point (a.first);
    e.maxp = vs::decode_point (a.second);
    return e;
}
}
