// Command line parsing. The repository's functions (vi) and their specification (vs).
#include "spoc/spoc.h"
#include "compress/compress_cmd.h"
#include "decompress/decompress_cmd.h"
#include "diff/diff_cmd.h"
#include "filter/filter_cmd.h"
#include "info/info_cmd.h"
#include "merge/merge_cmd.h"
#include "srs/srs_cmd.h"
#include "tile/tile_cmd.h"
#include "tool/tool_cmd.h"
#include "transform/transform_cmd.h"
#include <cstdlib>

namespace vs
{
// Before the first option.
void begin ();
}

namespace vi
{
spoc::compress_cmd::args compress (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::compress_cmd::get_args (argc, argv.data (), usage); }
spoc::decompress_cmd::args decompress (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::decompress_cmd::get_args (argc, argv.data (), usage); }
spoc::diff_cmd::args diff (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::diff_cmd::get_args (argc, argv.data (), usage); }
spoc::filter_cmd::args filter (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::filter_cmd::get_args (argc, argv.data (), usage); }
spoc::info_cmd::args info (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::info_cmd::get_args (argc, argv.data (), usage); }
spoc::merge_cmd::args merge (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::merge_cmd::get_args (argc, argv.data (), usage); }
spoc::srs_cmd::args srs (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::srs_cmd::get_args (argc, argv.data (), usage); }
spoc::tile_cmd::args tile (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::tile_cmd::get_args (argc, argv.data (), usage); }
spoc::tool_cmd::args tool (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::tool_cmd::get_args (argc, argv.data (), usage); }
spoc::transform_cmd::args transform (int argc, std::vector<char *> &argv, const std::string &usage) { vs::begin (); return spoc::transform_cmd::get_args (argc, argv.data (), usage); }
} // namespace vi

namespace vs
{
// The next option: 0 after the last one, else a number that stands for its name.
int next ();
// The number that stands for a name.
int named (const char *name);
// Print the help text.
void help (const std::string &usage);

inline void operand (std::string &s, int argc, std::vector<char *> &argv)
{
    if (optind < argc)
        s = argv.data ()[optind++];
}

inline void no_more (int argc)
{
    if (optind != argc)
        throw std::runtime_error ("Too many arguments on command line");
}

// The options that all programs have, and the refusal of unknown ones
#define COMMON                                                  \
    if (o == named ("verbose"))                                 \
        a.verbose = true;                                       \
    else if (o == named ("version"))                            \
        a.version = true;                                       \
    else                                                        \
    {                                                           \
        help (usage);                                           \
        if (o != named ("help"))                                \
            throw std::runtime_error ("Invalid option");        \
        a.help = true;                                          \
        return a;                                               \
    }

spoc::compress_cmd::args compress (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::compress_cmd::args a;
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        COMMON
    }
    operand (a.input_fn, argc, argv);
    operand (a.output_fn, argc, argv);
    no_more (argc);
    return a;
}

spoc::decompress_cmd::args decompress (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::decompress_cmd::args a;
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        COMMON
    }
    operand (a.input_fn, argc, argv);
    operand (a.output_fn, argc, argv);
    no_more (argc);
    return a;
}

spoc::diff_cmd::args diff (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::diff_cmd::args a;
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        if (o == named ("header-only"))
            a.header_only = true;
        else if (o == named ("data-only"))
            a.data_only = true;
        else if (o == named ("field"))
        {
            const std::string s (optarg);
            for (auto c : s)
                a.fields.push_back (c);
        }
        else if (o == named ("reverse"))
            a.reverse = true;
        else COMMON
    }
    if (optind == argc)
        throw std::runtime_error ("No input filename 1 was specified");
    operand (a.fn1, argc, argv);
    if (optind == argc)
        throw std::runtime_error ("No input filename 2 was specified");
    operand (a.fn2, argc, argv);
    no_more (argc);
    return a;
}

spoc::filter_cmd::args filter (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::filter_cmd::args a;
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        if (o == named ("keep-class"))
            a.keep_classes.insert (std::atoi (optarg));
        else if (o == named ("random-seed"))
            a.random_seed = std::atol (optarg);
        else if (o == named ("remove-class"))
            a.remove_classes.insert (std::atoi (optarg));
        else if (o == named ("unique-xyz"))
            a.unique_xyz = true;
        else if (o == named ("subsample"))
            a.subsample = std::atof (optarg);
        else if (o == named ("remove-coords"))
            a.remove_coords = std::string (optarg);
        else COMMON
    }
    operand (a.input_fn, argc, argv);
    operand (a.output_fn, argc, argv);
    no_more (argc);
    return a;
}

spoc::info_cmd::args info (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::info_cmd::args a;
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        if (o == named ("json"))
            a.json = !a.json;
        else if (o == named ("header-info"))
            a.header_info = !a.header_info;
        else if (o == named ("summary-info"))
            a.summary_info = !a.summary_info;
        else if (o == named ("classification-info"))
            a.classification_info = !a.classification_info;
        else if (o == named ("metric-info"))
            a.metric_info = !a.metric_info;
        else if (o == named ("compact"))
            a.compact = !a.compact;
        else if (o == named ("quartiles"))
            a.quartiles = !a.quartiles;
        else COMMON
    }
    while (optind < argc)
        a.fns.push_back (argv.data ()[optind++]);
    return a;
}

spoc::merge_cmd::args merge (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::merge_cmd::args a;
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        if (o == named ("quiet"))
            a.quiet = !a.quiet;
        else if (o == named ("point-id"))
            a.point_id = std::atoi (optarg);
        else COMMON
    }
    while (optind < argc)
        a.fns.push_back (argv.data ()[optind++]);
    return a;
}

spoc::srs_cmd::args srs (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::srs_cmd::args a;
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        if (o == named ("srs"))
        {
            a.srs = std::string (optarg);
            a.set_srs = true;
        }
        else COMMON
    }
    while (optind < argc)
        a.fns.push_back (argv.data ()[optind++]);
    return a;
}

spoc::tile_cmd::args tile (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::tile_cmd::args a;
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        if (o == named ("force"))
            a.force = true;
        else if (o == named ("tiles"))
            a.tiles = std::atoi (optarg);
        else if (o == named ("digits"))
            a.digits = std::atoi (optarg);
        else if (o == named ("tile-size"))
            a.tile_size = std::atof (optarg);
        else if (o == named ("tile-size-x"))
            a.tile_size_x = std::atof (optarg);
        else if (o == named ("tile-size-y"))
            a.tile_size_y = std::atof (optarg);
        else if (o == named ("prefix"))
            a.prefix = std::string (optarg);
        else COMMON
    }
    operand (a.fn, argc, argv);
    no_more (argc);
    return a;
}

spoc::tool_cmd::args tool (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::tool_cmd::args a;
    const auto command = [&] (const char *name)
    {
        if (!a.command.name.empty ())
            throw std::runtime_error ("You can only specify one command at a time");
        a.command.name = name;
        a.command.params = optarg != nullptr ? std::string (optarg) : std::string ();
    };
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        if (o == named ("resolution"))
            a.resolution = std::atof (optarg);
        else if (o == named ("field-filename"))
            a.field_fn = optarg;
        else if (o == named ("get-field"))
            command ("get-field");
        else if (o == named ("recenter-xy"))
            command ("recenter-xy");
        else if (o == named ("recenter-xyz"))
            command ("recenter-xyz");
        else if (o == named ("resize-extra"))
            command ("resize-extra");
        else if (o == named ("set-field"))
            command ("set-field");
        else if (o == named ("subtract-min-xy"))
            command ("subtract-min-xy");
        else if (o == named ("subtract-min-xyz"))
            command ("subtract-min-xyz");
        else if (o == named ("upsample-classifications"))
            command ("upsample-classifications");
        else COMMON
    }
    operand (a.input_fn, argc, argv);
    operand (a.output_fn, argc, argv);
    no_more (argc);
    return a;
}

spoc::transform_cmd::args transform (int argc, std::vector<char *> &argv, const std::string &usage)
{
    begin ();
    spoc::transform_cmd::args a;
    const auto command = [&] (const char *name)
    {
        a.commands.push_back ({name, optarg != nullptr ? std::string (optarg) : std::string ()});
    };
    while (true)
    {
        const int o = next ();
        if (o == 0)
            break;
        if (o == named ("random-seed"))
            a.random_seed = std::atol (optarg);
        else if (o == named ("add-x"))
            command ("add-x");
        else if (o == named ("add-y"))
            command ("add-y");
        else if (o == named ("add-z"))
            command ("add-z");
        else if (o == named ("copy-field"))
            command ("copy-field");
        else if (o == named ("gaussian-noise"))
            command ("gaussian-noise");
        else if (o == named ("gaussian-noise-x"))
            command ("gaussian-noise-x");
        else if (o == named ("gaussian-noise-y"))
            command ("gaussian-noise-y");
        else if (o == named ("gaussian-noise-z"))
            command ("gaussian-noise-z");
        else if (o == named ("quantize-xyz"))
            command ("quantize-xyz");
        else if (o == named ("replace"))
            command ("replace");
        else if (o == named ("replace-not"))
            command ("replace-not");
        else if (o == named ("rotate-x"))
            command ("rotate-x");
        else if (o == named ("rotate-y"))
            command ("rotate-y");
        else if (o == named ("rotate-z"))
            command ("rotate-z");
        else if (o == named ("scale-x"))
            command ("scale-x");
        else if (o == named ("scale-y"))
            command ("scale-y");
        else if (o == named ("scale-z"))
            command ("scale-z");
        else if (o == named ("set"))
            command ("set");
        else if (o == named ("uniform-noise"))
            command ("uniform-noise");
        else if (o == named ("uniform-noise-x"))
            command ("uniform-noise-x");
        else if (o == named ("uniform-noise-y"))
            command ("uniform-noise-y");
        else if (o == named ("uniform-noise-z"))
            command ("uniform-noise-z");
        else COMMON
    }
    operand (a.input_fn, argc, argv);
    operand (a.output_fn, argc, argv);
    no_more (argc);
    return a;
}
} // namespace vs
