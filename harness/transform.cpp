// Adaptors (vi) and specification (vs) of the streaming transform program's operations.
#include <bits/stdc++.h>
#include "spoc/app_utils.h"
#include "spoc/spoc.h"
#include "transform/transform.h"
#include "transform/transform_cmd.h"

using PR = spoc::point_record::point_record;
using S = std::string;
using CMD = spoc::transform_cmd::command;
using U = std::vector<unsigned>;
namespace ta = spoc::transform_app;
using G = std::default_random_engine;

namespace vi
{
PR add_x (double v, PR p) { return ta::get_add_x_op (v) (p); }
PR add_y (double v, PR p) { return ta::get_add_y_op (v) (p); }
PR add_z (double v, PR p) { return ta::get_add_z_op (v) (p); }
PR scale_x (double v, PR p) { return ta::get_scale_x_op (v) (p); }
PR scale_y (double v, PR p) { return ta::get_scale_y_op (v) (p); }
PR scale_z (double v, PR p) { return ta::get_scale_z_op (v) (p); }
PR rotate_x (double v, PR p) { return ta::get_rotate_x_op (v) (p); }
PR rotate_y (double v, PR p) { return ta::get_rotate_y_op (v) (p); }
PR rotate_z (double v, PR p) { return ta::get_rotate_z_op (v) (p); }
PR quantize (double v, PR p) { return ta::get_quantize_op (v) (p); }
std::pair<PR, PR> gaussian (size_t s, double x, double y, double z, PR p, PR q) { auto op = ta::get_gaussian_noise_op (s, x, y, z); PR a = op (p); PR b = op (q); return std::make_pair (a, b); }
std::pair<PR, PR> uniform (size_t s, double x, double y, double z, PR p, PR q) { auto op = ta::get_uniform_noise_op (s, x, y, z); PR a = op (p); PR b = op (q); return std::make_pair (a, b); }
PR copy_field (const S &a, const S &b, size_t n, PR p) { return ta::get_copy_field_op (a, b, n) (p); }
PR replace (const S &a, unsigned v, unsigned w, size_t n, PR p) { return ta::get_replace_op (a, v, w, n) (p); }
PR replace_not (const S &a, const U &v, size_t n, PR p) { return ta::get_replace_not_op (a, v, n) (p); }
PR set (const S &a, double v, size_t n, PR p) { return ta::get_set_op (a, v, n) (p); }
spoc::header::header read_hdr (std::istream &s) { return ta::detail::read_header_uncompressed (s); }
void apply (std::istream &is, std::ostream &os, const std::vector<CMD> &c, const size_t seed) { ta::apply (is, os, c, seed); }
}

namespace vs
{
PR add_x (double v, PR p) { p.x = p.x + v; return p; }
PR add_y (double v, PR p) { p.y = p.y + v; return p; }
PR add_z (double v, PR p) { p.z = p.z + v; return p; }
PR scale_x (double v, PR p) { p.x = p.x * v; return p; }
PR scale_y (double v, PR p) { p.y = p.y * v; return p; }
PR scale_z (double v, PR p) { p.z = p.z * v; return p; }
PR rotate_x (double v, PR p)
{
    const double r = v * M_PI / 180.0;
    PR q = p;
    q.y = p.y * std::cos (r) - p.z * std::sin (r);
    q.z = p.y * std::sin (r) + p.z * std::cos (r);
    return q;
}
PR rotate_y (double v, PR p)
{
    const double r = v * M_PI / 180.0;
    PR q = p;
    q.x = p.x * std::cos (r) - p.z * std::sin (r);
    q.z = p.x * std::sin (r) + p.z * std::cos (r);
    return q;
}
PR rotate_z (double v, PR p)
{
    const double r = v * M_PI / 180.0;
    PR q = p;
    q.x = p.x * std::cos (r) - p.y * std::sin (r);
    q.y = p.x * std::sin (r) + p.y * std::cos (r);
    return q;
}
double quant (double x, double v) { return std::trunc (x / v) * v + 0.0; }
PR quantize (double v, PR p) { p.x = quant (p.x, v); p.y = quant (p.y, v); p.z = quant (p.z, v); return p; }
std::pair<PR, PR> gaussian (size_t s, double x, double y, double z, PR p, PR q)
{
    G g (s);
    std::normal_distribution<double> a (0.0, x), b (0.0, y), c (0.0, z);
    if (x != 0.0) p.x += a (g);
    if (y != 0.0) p.y += b (g);
    if (z != 0.0) p.z += c (g);
    if (x != 0.0) q.x += a (g);
    if (y != 0.0) q.y += b (g);
    if (z != 0.0) q.z += c (g);
    return std::make_pair (p, q);
}
std::pair<PR, PR> uniform (size_t s, double x, double y, double z, PR p, PR q)
{
    G g (s);
    std::uniform_real_distribution<double> a (-x, x), b (-y, y), c (-z, z);
    if (x != 0.0) p.x += a (g);
    if (y != 0.0) p.y += b (g);
    if (z != 0.0) p.z += c (g);
    if (x != 0.0) q.x += a (g);
    if (y != 0.0) q.y += b (g);
    if (z != 0.0) q.z += c (g);
    return std::make_pair (p, q);
}
void no_float (const char l) { if (l == 'x' || l == 'y' || l == 'z') throw std::runtime_error ("coordinate"); }
size_t slot (const S &a, const PR &p)
{
    const size_t j = spoc::app_utils::get_extra_index (a);
    if (j >= p.extra.size ()) throw std::runtime_error ("index");
    return j;
}
uint64_t value (const S &a, const PR &p)
{
    switch (a[0])
    {
        case 'c': return p.c;
        case 'p': return p.p;
        case 'i': return p.i;
        case 'r': return p.r;
        case 'g': return p.g;
        case 'b': return p.b;
        case 'e': return p.extra[slot (a, p)];
    }
    return 0;
}
template <typename T> void store (const S &a, PR &p, const T v)
{
    switch (a[0])
    {
        case 'x': p.x = v; break;
        case 'y': p.y = v; break;
        case 'z': p.z = v; break;
        case 'c': p.c = v; break;
        case 'p': p.p = v; break;
        case 'i': p.i = v; break;
        case 'r': p.r = v; break;
        case 'g': p.g = v; break;
        case 'b': p.b = v; break;
        case 'e': p.extra[slot (a, p)] = v; break;
    }
}
PR copy_field (const S &a, const S &b, size_t, PR p)
{
    no_float (a[0]);
    no_float (b[0]);
    store (b, p, value (a, p));
    return p;
}
PR replace (const S &a, unsigned v, unsigned w, size_t, PR p)
{
    no_float (a[0]);
    switch (a[0])
    {
        case 'c': if (p.c == v) p.c = w; break;
        case 'p': if (p.p == v) p.p = w; break;
        case 'i': if (p.i == v) p.i = w; break;
        case 'r': if (p.r == v) p.r = w; break;
        case 'g': if (p.g == v) p.g = w; break;
        case 'b': if (p.b == v) p.b = w; break;
        case 'e': if (p.extra[slot (a, p)] == v) p.extra[slot (a, p)] = w; break;
    }
    return p;
}
PR replace_not (const S &a, const U &v, size_t, PR p)
{
    no_float (a[0]);
    if (v.size () < 2) throw std::runtime_error ("values");
    for (size_t k = 0; k + 1 < v.size (); ++k)
        if (value (a, p) == v[k]) return p;
    store (a, p, v[v.size () - 1]);
    return p;
}
PR set (const S &a, double v, size_t, PR p) { store (a, p, v); return p; }
spoc::header::header read_hdr (std::istream &s)
{
    const auto h = spoc::header::read_header (s);
    if (h.compressed) throw std::runtime_error ("compressed");
    return h;
}

// the operations the commands stand for
std::vector<std::function<PR (PR)>> operations (const std::vector<CMD> &cs, const size_t seed, const size_t n)
{
    using namespace spoc::app_utils;
    std::vector<std::function<PR (PR)>> ops;
    for (size_t k = 0; k < cs.size (); ++k)
    {
        S s = cs[k].params;
        const S &m = cs[k].name;
        if (m == "add-x") ops.push_back (ta::get_add_x_op (consume_double (s)));
        else if (m == "add-y") ops.push_back (ta::get_add_y_op (consume_double (s)));
        else if (m == "add-z") ops.push_back (ta::get_add_z_op (consume_double (s)));
        else if (m == "scale-x") ops.push_back (ta::get_scale_x_op (consume_double (s)));
        else if (m == "scale-y") ops.push_back (ta::get_scale_y_op (consume_double (s)));
        else if (m == "scale-z") ops.push_back (ta::get_scale_z_op (consume_double (s)));
        else if (m == "rotate-x") ops.push_back (ta::get_rotate_x_op (consume_double (s)));
        else if (m == "rotate-y") ops.push_back (ta::get_rotate_y_op (consume_double (s)));
        else if (m == "rotate-z") ops.push_back (ta::get_rotate_z_op (consume_double (s)));
        else if (m == "quantize-xyz") ops.push_back (ta::get_quantize_op (consume_double (s)));
        else if (m == "copy-field")
        {
            const S a = consume_field_name (s);
            const S b = consume_field_name (s);
            ops.push_back (ta::get_copy_field_op (a, b, n));
        }
        else if (m == "replace")
        {
            const S a = consume_field_name (s);
            const unsigned v = consume_int (s);
            const unsigned w = consume_int (s);
            ops.push_back (ta::get_replace_op (a, v, w, n));
        }
        else if (m == "replace-not")
        {
            const S a = consume_field_name (s);
            ops.push_back (ta::get_replace_not_op (a, consume_ints (s), n));
        }
        else if (m == "set")
        {
            const S a = consume_field_name (s);
            ops.push_back (ta::get_set_op (a, consume_double (s), n));
        }
        else if (m == "gaussian-noise") { const double v = consume_double (s); ops.push_back (ta::get_gaussian_noise_op (seed, v, v, v)); }
        else if (m == "gaussian-noise-x") ops.push_back (ta::get_gaussian_noise_op (seed, consume_double (s), 0.0, 0.0));
        else if (m == "gaussian-noise-y") ops.push_back (ta::get_gaussian_noise_op (seed, 0.0, consume_double (s), 0.0));
        else if (m == "gaussian-noise-z") ops.push_back (ta::get_gaussian_noise_op (seed, 0.0, 0.0, consume_double (s)));
        else if (m == "uniform-noise") { const double v = consume_double (s); ops.push_back (ta::get_uniform_noise_op (seed, v, v, v)); }
        else if (m == "uniform-noise-x") ops.push_back (ta::get_uniform_noise_op (seed, consume_double (s), 0.0, 0.0));
        else if (m == "uniform-noise-y") ops.push_back (ta::get_uniform_noise_op (seed, 0.0, consume_double (s), 0.0));
        else if (m == "uniform-noise-z") ops.push_back (ta::get_uniform_noise_op (seed, 0.0, 0.0, consume_double (s)));
        else throw std::runtime_error ("command");
    }
    return ops;
}
void apply (std::istream &is, std::ostream &os, const std::vector<CMD> &c, const size_t seed)
{
    const auto h = spoc::header::read_header (is);
    if (h.compressed) throw std::runtime_error ("compressed");
    spoc::header::write_header (os, h);
    auto ops = operations (c, seed, h.extra_fields);
    for (size_t i = 0; i < h.total_points; ++i)
    {
        PR p = spoc::point_record::read_point_record (is, h.extra_fields);
        for (size_t k = 0; k < ops.size (); ++k) p = ops[k] (p);
        spoc::point_record::write_point_record (os, p);
    }
}
}
