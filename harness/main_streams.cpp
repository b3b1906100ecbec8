// Adaptors (vi) and specification (vs) of the stream helpers of the programs.
#include <bits/stdc++.h>
#include "spoc/app_utils.h"
#include "spoc/spoc.h"

using spoc::file::spoc_file;

namespace vi
{
std::string input (const bool v, const std::string &fn)
{
    spoc::app_utils::input_stream s (v, fn);
    std::string w;
    s () >> w;
    return w;
}
void output (const bool v, const std::string &fn, const std::string &w)
{
    spoc::app_utils::output_stream s (v, fn);
    s () << w;
    s ().flush ();
}
void set_wkt (spoc_file &f, const std::string &s) { f.set_wkt (s); }
void set_compressed (spoc_file &f, const bool c) { f.set_compressed (c); }
}

namespace vs
{
std::string input (const bool, const std::string &fn)
{
    std::string w;
    if (fn.empty ()) { std::cin >> w; return w; }
    std::ifstream s (fn);
    if (!s) throw std::runtime_error ("open");
    s >> w;
    return w;
}
void output (const bool, const std::string &fn, const std::string &w)
{
    if (fn.empty ()) { std::cout << w; std::cout.flush (); return; }
    std::ofstream s (fn);
    if (!s) throw std::runtime_error ("open");
    s << w;
    s.flush ();
}
void set_wkt (spoc_file &f, const std::string &s) { f = spoc_file (f.get_major_version (), f.get_minor_version (), s, f.get_compressed (), f.get_point_records ()); }
void set_compressed (spoc_file &f, const bool c) { f = spoc_file (f.get_major_version (), f.get_minor_version (), f.get_wkt (), c, f.get_point_records ()); }
}
