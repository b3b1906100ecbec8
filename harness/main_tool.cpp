// The tool program: its main function (vi) and what it has to do (vs).
#include <bits/stdc++.h>
#define main program_main
#include "tool/tool.cpp"
#undef main

namespace vi
{
bool run () { char name[] = "p"; char *argv[] = {name, nullptr}; return program_main (1, argv) != 0; }
}

namespace vs
{
#include "main_common.h"
namespace io = spoc::io;
using F = spoc::file::spoc_file;
bool run ()
{
    try
    {
        const auto a = spoc::tool_cmd::get_args (0, nullptr, "");
        if (a.version) { version (); return false; }
        if (a.help) return false;
        if (a.command.name.empty ()) throw std::runtime_error ("command");
        spoc::app_utils::input_stream is (false, a.input_fn);
        F f = io::read_spoc_file (is ());
        const auto n = a.command.name;
        std::string s = a.command.params;
        if (n == "get-field")
        {
            spoc::tool_app::get_field (f, std::cout, spoc::app_utils::consume_field_name (s));
            written ();
            return false;
        }
        else if (n == "recenter-xy") f = spoc::tool_app::recenter (f, false);
        else if (n == "recenter-xyz") f = spoc::tool_app::recenter (f, true);
        else if (n == "resize-extra")
        {
            const int k = std::stoi (s);
            if (k < 0 || k > 255) throw std::runtime_error ("size");
            f = spoc::tool_app::resize_extra (f, k);
        }
        else if (n == "set-field")
        {
            if (a.field_fn.empty ()) throw std::runtime_error ("file");
            std::ifstream i (a.field_fn);
            if (!i) throw std::runtime_error ("open");
            f = spoc::tool_app::set_field (f, i, spoc::app_utils::consume_field_name (s));
        }
        else if (n == "subtract-min-xy") f = spoc::tool_app::subtract_min (f, false);
        else if (n == "subtract-min-xyz") f = spoc::tool_app::subtract_min (f, true);
        else if (n == "upsample-classifications")
        {
            if (a.resolution <= 0.0) throw std::runtime_error ("resolution");
            std::ifstream i (s);
            if (!i) throw std::runtime_error ("open");
            const F g = io::read_spoc_file (i);
            f = spoc::tool_app::upsample_classifications (f, g, a.resolution, false, std::clog);
        }
        else throw std::runtime_error ("command");
        spoc::app_utils::output_stream os (false, a.output_fn);
        io::write_spoc_file (os (), f);
        return false;
    }
    catch (const std::exception &e) { std::cerr << e.what () << std::endl; return true; }
}
}
