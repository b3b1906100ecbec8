// Shared by the specifications of the main functions.
void version () { std::cout << "Version " << static_cast<int> (spoc::MAJOR_VERSION) << "." << static_cast<int> (spoc::MINOR_VERSION) << std::endl; }
void written ()
{
    std::cout.flush ();
    if (!std::cout) throw std::runtime_error ("output");
}
