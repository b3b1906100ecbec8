// The diff program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "diff/diff.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
bool run ()
{
    try
    {
        const auto a = spoc::diff_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        if ((a.header_only ? 1 : 0) + (a.data_only ? 1 : 0) + (a.fields.empty () ? 0 : 1) > 1) throw std::runtime_error ("modes");
        std::ifstream s (a.fn1);
        if (!s) throw std::runtime_error ("open");
        std::ifstream t (a.fn2);
        if (!t) throw std::runtime_error ("open");
        const F f = io::read_spoc_file (s);
        const F g = io::read_spoc_file (t);
        return spoc::diff_app::diff (f, g, a.header_only, a.data_only, a.fields, a.reverse) != 0;
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
