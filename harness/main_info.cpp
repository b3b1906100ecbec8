// The info program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "info/info.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
template <typename A> void report (std::istream &s, const A &a)
{
    const F f = io::read_spoc_file (s);
    spoc::info_app::process (std::cout, f, a.json, a.header_info, a.summary_info, a.classification_info, a.metric_info, a.compact, a.quartiles);
}
bool run ()
{
    try
    {
        const auto a = spoc::info_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        if (a.fns.empty ()) report (std::cin, a);
        else for (size_t k = 0; k < a.fns.size (); ++k)
        {
            std::ifstream s (a.fns[k]);
            if (!s) throw std::runtime_error ("open");
            report (s, a);
        }
        written ();
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
