// The tile program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "tile/tile.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
bool run ()
{
    try
    {
        const auto a = spoc::tile_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        if (a.fn.empty () && a.prefix.empty ()) throw std::runtime_error ("prefix");
        spoc::app_utils::input_stream is (false, a.fn);
        const F f = io::read_spoc_file (is ());
        if (a.tile_size > 0.0 && (a.tile_size_x > 0.0 || a.tile_size_y > 0.0)) throw std::runtime_error ("size");
        const auto e = spoc::extent::get_extent (f.get_point_records ());
        double x = a.tile_size, y = a.tile_size;
        if (!(a.tile_size > 0.0))
        {
            if (a.tile_size_x > 0.0 || a.tile_size_y > 0.0) { x = a.tile_size_x; y = a.tile_size_y; }
            else x = y = spoc::tile_app::get_tile_size (e, a.tiles);
        }
        const auto m = spoc::tile_app::get_tile_map (spoc::tile_app::get_tile_indexes (f.get_point_records (), e, x, y));
        std::vector<size_t> keys;
        for (const auto &k : m) keys.push_back (k.first);
        std::sort (keys.begin (), keys.end ());
        for (size_t k = 0; k < keys.size (); ++k)
        {
            const auto &v = m.at (keys[k]);
            F t;
            t.set_wkt (f.get_wkt ());
            t.set_compressed (f.get_compressed ());
            for (size_t j = 0; j < v.size (); ++j) t.push_back (f.get_point_record (v[j]));
            std::stringstream n;
            n << (a.prefix.empty () ? std::string (std::filesystem::path (a.fn).stem ()) : a.prefix);
            n << std::setw (a.digits) << std::setfill ('0') << keys[k];
            if (a.fn.empty ()) n << (f.get_compressed () ? ".zpoc" : ".spoc");
            else n << std::filesystem::path (a.fn).extension ().string ();
            if (!a.force)
            {
                std::ifstream s (n.str ());
                if (s.good ()) throw std::runtime_error ("exists");
            }
            std::ofstream o (n.str ());
            if (!o) throw std::runtime_error ("open");
            io::write_spoc_file (o, t);
        }
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
