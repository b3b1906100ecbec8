// The merge program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "merge/merge.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
bool run ()
{
    try
    {
        const auto a = spoc::merge_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        if (a.fns.size () < 2) throw std::runtime_error ("files");
        F g;
        g.set_compressed (true);
        for (size_t k = 0; k < a.fns.size (); ++k)
        {
            std::ifstream s (a.fns[k]);
            if (!s) throw std::runtime_error ("open");
            const F f = io::read_spoc_file (s);
            if (!f.get_compressed ()) g.set_compressed (false);
            if (k == 0) g.set_wkt (f.get_wkt ());
            spoc::merge_app::append (f, g, a.point_id < 0 ? k : a.point_id, a.quiet);
        }
        io::write_spoc_file (std::cout, g);
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
