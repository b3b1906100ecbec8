// The filter program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "filter/filter.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
bool run ()
{
    try
    {
        const auto a = spoc::filter_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        spoc::app_utils::input_stream is (false, a.input_fn);
        F f = io::read_spoc_file (is ());
        if (a.keep_classes.size () != 0) f = spoc::filter_app::keep_classes (f, a.keep_classes);
        if (a.remove_classes.size () != 0) f = spoc::filter_app::remove_classes (f, a.remove_classes);
        if (a.unique_xyz) f = spoc::filter_app::unique_xyz (f, a.random_seed);
        if (a.subsample > 0.0) f = spoc::filter_app::subsample_file (f, a.subsample, a.random_seed);
        if (a.remove_coords.size () != 0) f = spoc::filter_app::remove_coords (f, a.remove_coords);
        spoc::app_utils::output_stream os (false, a.output_fn);
        io::write_spoc_file (os (), f);
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
