// The transform program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "transform/transform.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
bool run ()
{
    try
    {
        const auto a = spoc::transform_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        if (a.commands.empty ()) throw std::runtime_error ("command");
        spoc::app_utils::input_stream is (false, a.input_fn);
        spoc::app_utils::output_stream os (false, a.output_fn);
        spoc::transform_app::apply (is (), os (), a.commands, a.random_seed);
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
