// Adaptors (vi) and specification (vs) of the driving of zlib.
#include <bits/stdc++.h>
#include "spoc/compression.h"

using V = std::vector<uint8_t>;

namespace vi
{
V pack (const V &v, const int level) { return spoc::compression::compress (v, level); }
V pack_block (const V &v, const int level) { return spoc::compression::compress (v.data (), v.size (), level); }
V unpack (const V &v) { return spoc::compression::decompress (v); }
void unpack_block (const V &v, V &w) { spoc::compression::decompress (v, w.data (), w.size ()); }
void pack_stream (std::istream &s, std::ostream &t, const int level) { spoc::compression::compress (s, t, level); }
void unpack_stream (std::istream &s, std::ostream &t) { spoc::compression::decompress (s, t); }
}

namespace vs
{
const size_t N = 1 << 20;
void clear (z_stream &s) { s.zalloc = nullptr; s.zfree = nullptr; s.opaque = nullptr; s.avail_in = 0; s.next_in = nullptr; }
V pack (const V &v, const int level)
{
    V b (N), w;
    z_stream s;
    clear (s);
    if (deflateInit (&s, level) != Z_OK) throw std::runtime_error ("init");
    size_t n = v.size ();
    s.next_in = const_cast<unsigned char *> (v.data ());
    for (;;)
    {
        if (!s.avail_in)
        {
            s.avail_in = n > 0xFFFFFFFFu ? 0xFFFFFFFFu : n;
            n -= s.avail_in;
        }
        s.avail_out = N;
        s.next_out = b.data ();
        const int r = deflate (&s, n ? Z_NO_FLUSH : Z_FINISH);
        if (r == Z_STREAM_ERROR) throw std::runtime_error ("deflate");
        w.insert (w.end (), b.begin (), b.begin () + (N - s.avail_out));
        if (r == Z_STREAM_END) break;
    }
    return w;
}
V pack_block (const V &v, const int level) { return pack (v, level); }
V unpack (const V &v)
{
    V b (N), w;
    z_stream s;
    clear (s);
    if (inflateInit (&s) != Z_OK) throw std::runtime_error ("init");
    size_t n = v.size ();
    s.next_in = const_cast<unsigned char *> (v.data ());
    for (;;)
    {
        if (!s.avail_in)
        {
            s.avail_in = n > 0xFFFFFFFFu ? 0xFFFFFFFFu : n;
            n -= s.avail_in;
        }
        s.avail_out = N;
        s.next_out = b.data ();
        const int r = inflate (&s, Z_NO_FLUSH);
        if (r == Z_BUF_ERROR) throw std::runtime_error ("end");
        if (r != Z_OK && r != Z_STREAM_END) throw std::runtime_error ("inflate");
        w.insert (w.end (), b.begin (), b.begin () + (N - s.avail_out));
        if (r == Z_STREAM_END) break;
    }
    return w;
}
void unpack_block (const V &v, V &w)
{
    const V u = unpack (v);
    if (u.size () != w.size ()) throw std::runtime_error ("size");
    for (size_t k = 0; k < w.size (); ++k) w[k] = u[k];
}
void pack_stream (std::istream &i, std::ostream &o, const int level)
{
    V a (N), b (N);
    z_stream s;
    clear (s);
    if (deflateInit (&s, level) != Z_OK) throw std::runtime_error ("init");
    for (;;)
    {
        i.read (reinterpret_cast<char *> (a.data ()), N);
        if (i.fail () && !i.eof ()) throw std::runtime_error ("read");
        s.avail_in = i.gcount ();
        s.next_in = a.data ();
        for (;;)
        {
            s.avail_out = N;
            s.next_out = b.data ();
            if (deflate (&s, i.eof () ? Z_FINISH : Z_NO_FLUSH) == Z_STREAM_ERROR) throw std::runtime_error ("deflate");
            o.write (reinterpret_cast<const char *> (b.data ()), N - s.avail_out);
            if (!o) throw std::runtime_error ("write");
            if (s.avail_out) break;
        }
        if (i.eof ()) break;
    }
}
void unpack_stream (std::istream &i, std::ostream &o)
{
    V a (N), b (N);
    z_stream s;
    clear (s);
    if (inflateInit (&s) != Z_OK) throw std::runtime_error ("init");
    bool done = false;
    for (;;)
    {
        i.read (reinterpret_cast<char *> (a.data ()), N);
        s.avail_in = i.gcount ();
        if (!s.avail_in) throw std::runtime_error ("end");
        s.next_in = a.data ();
        for (;;)
        {
            s.avail_out = N;
            s.next_out = b.data ();
            const int r = inflate (&s, Z_NO_FLUSH);
            if (r == Z_NEED_DICT || r == Z_DATA_ERROR || r == Z_STREAM_ERROR || r == Z_MEM_ERROR) throw std::runtime_error ("inflate");
            if (r == Z_STREAM_END) done = true;
            o.write (reinterpret_cast<const char *> (b.data ()), N - s.avail_out);
            if (!o) throw std::runtime_error ("write");
            if (s.avail_out) break;
        }
        if (done) break;
    }
}
}
