// The srs program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "srs/srs.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
void show (std::istream &s) { std::cout << spoc::header::read_header (s).wkt << std::endl; }
bool run ()
{
    try
    {
        const auto a = spoc::srs_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        if (a.set_srs && a.fns.empty ())
        {
            F f = io::read_spoc_file (std::cin);
            f.set_wkt (a.srs);
            io::write_spoc_file (std::cout, f);
            written ();
        }
        else if (a.set_srs)
        {
            if (a.fns.size () != 2) throw std::runtime_error ("files");
            std::ifstream s (a.fns[0]);
            if (!s) throw std::runtime_error ("open");
            F f = io::read_spoc_file (s);
            f.set_wkt (a.srs);
            std::ofstream o (a.fns[1]);
            if (!o) throw std::runtime_error ("open");
            io::write_spoc_file (o, f);
            written ();
        }
        else if (a.fns.empty ()) { show (std::cin); written (); }
        else
        {
            for (size_t k = 0; k < a.fns.size (); ++k)
            {
                std::ifstream s (a.fns[k]);
                if (!s) throw std::runtime_error ("open");
                show (s);
            }
            written ();
        }
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
