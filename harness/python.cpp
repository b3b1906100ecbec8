// What the functions of the Python module have to do.  The module itself is included, its functions are found by the table of bindings.
#include <bits/stdc++.h>
#include "spocpy/spocpy/spocpy.cpp"

namespace vs
{
int getmajorversion () { return spoc::MAJOR_VERSION; }
int getminorversion () { return spoc::MINOR_VERSION; }
spoc::header::header readheader (const std::string &fn)
{
    std::ifstream s (fn);
    if (!s) throw std::runtime_error ("");
    return spoc::header::read_header (s);
}
spoc::file::spoc_file readspocfile (const std::string &fn)
{
    std::ifstream s (fn);
    if (!s) throw std::runtime_error ("");
    return spoc::io::read_spoc_file (s);
}
void writespocfile (const std::string &fn, const spoc::file::spoc_file &f)
{
    std::ofstream s (fn);
    if (!s) throw std::runtime_error ("");
    spoc::io::write_spoc_file (s, f);
}
}
