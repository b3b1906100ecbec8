// The decompress program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "decompress/decompress.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
bool run ()
{
    try
    {
        const auto a = spoc::decompress_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        spoc::app_utils::input_stream is (false, a.input_fn);
        F f = io::read_spoc_file_compressed (is ());
        f.set_compressed (false);
        spoc::app_utils::output_stream os (false, a.output_fn);
        io::write_spoc_file_uncompressed (os (), f);
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
