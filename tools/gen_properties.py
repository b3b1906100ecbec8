#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None,
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

prop('C01', 'File header byte layout is exact and symmetric',
     "Writing a header emits exactly, in this order and with nothing in between: the four bytes 'SPOC', the major version byte, the minor version byte, a 16-bit WKT length, the WKT bytes, the extra-field-count byte, the 64-bit point count and the compression byte. Reading a header consumes the same byte sequence and puts every part back into the member it was written from, so that every header that can be written is read back equal.",
     ['inputs'], 'every header value (any WKT, any counts, both compression flags), in Debug and Release builds',
     'Tests round-trip a handful of headers through the same code, so a symmetric change of writer and reader (which breaks every existing file) passes them.',
     ['spoc/header.h'], [('write_header', 'spoc/header.h'), ('read_header', 'spoc/header.h')],
     ['bytes passed to the output stream', 'header returned by the reader'])
prop('C02', 'Point record byte layout agrees in the writer and both readers',
     "An uncompressed point record is written as 40 bytes (three 64-bit floats x, y, z; 32-bit c and p; 16-bit i, r, g, b, in that order) followed by its extra fields, 8 bytes each, in index order. The single-record reader and the whole-file reader both read exactly that layout, so that record n and each of its fields come back in place for every number of points and every number of extra fields from 0 to 255.",
     ['inputs'], 'every record value, every point count, every extra-field count 0..255',
     'Tests use a few point counts and at most a few dozen extra fields; chunk boundaries of the bulk reader, and layout changes made on both sides, are not reached.',
     ['spoc/point_record.h', 'spoc/io.h'], [('write_point_record / read_point_record', 'spoc/point_record.h'), ('read_uncompressed_points', 'spoc/io.h')],
     ['bytes passed to the output stream', 'records returned by the readers'])
prop('C03', 'Compressed body restores every column of every record',
     "The compressed body holds the columns x, y, z, c, p, i, r, g, b and then every extra field in index order; each column is either the 64-bit number of its compressed bytes followed by those bytes or, exactly when every value of the column is zero, a zero length. The reader restores for every record and every field the value that was written, with absent columns restored as zero.",
     ['inputs'], 'every set of point records and extra-field counts, including all-zero columns and empty files',
     'Round-trip tests sample random records in which a swapped, skipped or truncated column can cancel out between writer and reader.',
     ['spoc/io.h'], [('compress_field / write_compressed / write_spoc_file_compressed', 'spoc/io.h'), ('read_compressed / read_compressed_points', 'spoc/io.h')],
     ['bytes passed to the output stream', 'records returned by the reader'])
prop('C04', 'Truncated or failing input is never accepted as data',
     "When the input stream ends early or fails while a header, a point record, a block of point records or a compressed column is being read, the read ends with an exception. It never returns a header, record or file whose contents did not all come from the stream.",
     ['inputs', 'fault_sequences'], 'every truncation point and every failing read, for all readers',
     'No test truncates its input; the failure has to be injected at each of the individual reads.',
     ['spoc/header.h', 'spoc/point_record.h', 'spoc/io.h', 'spoc/compression.h'], [('stream state checks after reads', 'spoc/header.h, spoc/point_record.h, spoc/io.h')],
     ['return or exception of the readers'])
prop('C05', 'A failed write is never reported as success',
     "When any byte of a header, point record or point file cannot be written to the output stream, the function that writes it ends with an exception, after the data it buffered has been flushed. Writing therefore never returns normally for a file that is incomplete on disk.",
     ['fault_sequences'], 'every failing write or flush, for all writers',
     'No test makes an output stream fail.',
     ['spoc/header.h', 'spoc/point_record.h', 'spoc/io.h'], [('flush and stream state checks after writes', 'spoc/header.h, spoc/point_record.h, spoc/io.h')],
     ['return or exception of the writers'])
prop('C06', 'Format gate: only valid files of the right kind are processed',
     "A header is accepted only if its signature is the four format bytes and both version numbers equal the library's. The uncompressed-only reader and writer refuse compressed files, the compressed-only ones refuse uncompressed files, the general ones select by the compression flag, and an invalid header is never written.",
     ['inputs'], 'every header byte sequence and every combination of flag and entry point',
     'Tests try single bad values; a gate that accepts some other combination is invisible to them.',
     ['spoc/header.h', 'spoc/io.h', 'apps/transform/transform.h'], [('check_signature, is_valid, version and compression checks', 'spoc/header.h, spoc/io.h, apps/transform/transform.h')],
     ['exception or normal return of readers and writers'])
prop('C07', 'zlib streams are driven and released correctly on every path',
     "Every zlib stream is initialised before use, ended exactly once on every path including exceptions, and never shared by copying. Every error code of a compression or decompression step ends in an exception, decompression succeeds only after the end-of-stream code, and all bytes produced by a step are kept, in order.",
     ['inputs', 'fault_sequences'], 'every input (valid, corrupt, truncated, of any size) and every zlib return code',
     'The error branches are marked as uncovered in the source; tests only (de)compress intact small buffers.',
     ['spoc/compression.h'], [('zlib_deflator / zlib_inflator', 'spoc/compression.h'), ('compress / decompress loops', 'spoc/compression.h')],
     ['calls into zlib', 'return or exception'])
prop('C08', 'Counts that do not fit their on-disk width are rejected',
     "A WKT string longer than 65535 bytes, or more than 255 extra fields per record, can not be stored in a file: every path that would store such a count ends with an exception before a byte is written. No count on the way to the file or to zlib is silently truncated.",
     ['inputs'], 'every WKT length, extra-field count, column size',
     'The offending sizes (64 KiB strings, more than 255 fields, more than 4 GiB columns) are not in the tests.',
     ['spoc/header.h', 'spoc/file.h', 'spoc/compression.h'], [('range checks in the header constructor, write_header and get_header', 'spoc/header.h, spoc/file.h'), ('chunked feeding of zlib', 'spoc/compression.h')],
     ['exception instead of a truncated count'])
prop('C09', 'All records of a file object have the same number of extra fields',
     "After any sequence of public operations on a file object, all of its point records have the same number of extra fields: every operation that would break this is refused with an exception, and resizing changes every record. Operations that keep it are accepted and store exactly the given records.",
     ['histories', 'inputs'], 'every sequence of constructor, append, set, move, resize, assign and swap calls with any arguments',
     'Tests call each operation once or twice; the invariant must survive every call sequence.',
     ['spoc/file.h'], [('all_same_size_extra, checks in the constructors and mutators', 'spoc/file.h')],
     ['point records of the object', 'exceptions'],
     [('prs', 'the point records of the file object', 'spoc/file.h')])
prop('C10', 'A refused change leaves the file object and its argument untouched',
     "When an operation on a file object is refused with an exception, the file object is exactly as it was before the call: version, WKT, compression flag and every point record. Copies and assignments take over all five parts, and moving records out or in transfers all of them.",
     ['histories', 'inputs'], 'every refusable call on every object state',
     'Tests check that a refused call throws, not what it left behind.',
     ['spoc/file.h'], [('check-before-modify order, copy-and-swap assignment', 'spoc/file.h')],
     ['object state after an exception'])
prop('C11', 'Equality, ordering and hashing of points, records and headers agree',
     "Two headers, records, points, extents or voxel indexes compare equal exactly when all of their parts are equal, and 'not equal' is always the negation of 'equal'. Point ordering is the lexicographic order of x, y, z, and every hash is a function of exactly the parts that equality compares, so equal values have equal hashes.",
     ['inputs'], 'every pair of values',
     'A comparison that forgets one part, or a hash that depends on something else, only shows for pairs that differ in just that part.',
     ['spoc/header.h', 'spoc/point.h', 'spoc/point_record.h', 'spoc/extent.h', 'spoc/voxel.h', 'spoc/utils.h'], [('relational operators and hash functors', 'spoc/header.h, spoc/point.h, spoc/point_record.h, spoc/extent.h, spoc/voxel.h')],
     ['result of comparisons and hashes'])
prop('C12', 'Column accessors return field n of record n for every record',
     "Asking a set of records or a file object for column x, y, z, c, p, i, r, g, b or extra field k yields a vector of the same length whose n-th element is that field of the n-th record. The 'is this column all zero' queries are true exactly when every record's value is zero, and the field-count query reports the records' number of extra fields (zero when there are none).",
     ['inputs'], 'every set of records, every column',
     'Tests use records whose columns are often zero or equal to each other, so that a swapped column goes unnoticed.',
     ['spoc/point_record.h', 'spoc/file.h'], [('get_x .. get_b, get_extra, has_all_zero_*', 'spoc/point_record.h'), ('dataframe helpers', 'spoc/file.h')],
     ['returned vectors and flags'])
prop('C13', 'The diff verdict is exact in every mode',
     "Comparing two files reports 'same' exactly when everything selected is equal: header and all fields and extra fields by default, only the header, only the data, or only the listed fields; an extra field that only one file has counts as different. The reverse mode negates exactly that verdict, and an unknown field letter is an error.",
     ['inputs', 'configurations'], 'every pair of files, every mode and field list',
     'Tests compare equal files, or files that differ in many fields at once.',
     ['apps/diff/diff.h', 'apps/diff/diff.cpp'], [('diff', 'apps/diff/diff.h')],
     ['return code of the comparison'])
prop('C14', 'A field letter addresses the same field everywhere',
     "In the get-field, set-field, set, copy-field, replace, replace-not, diff and remove-coords operations, a field name x, y, z, c, p, i, r, g, b or e# selects exactly the point record member of that name (or extra field number #) for reading, comparing and writing. An operation writes no other member of the record, and an extra field number that a record does not have is refused (set-field adds the missing fields instead).",
     ['inputs', 'configurations'], 'every field name, every value, every record',
     'Each operation has ten branches; tests exercise a few of them with values for which neighbouring branches agree.',
     ['apps/tool/tool.h', 'apps/transform/transform.h', 'apps/filter/filter.h', 'spoc/app_utils.h'], [('field switch statements', 'apps/tool/tool.h, apps/transform/transform.h, apps/diff/diff.h'), ('get_extra_index, check_field_name', 'spoc/app_utils.h')],
     ['point records before and after', 'text written by get-field'])
prop('C15', 'Point transforms apply their formula and nothing else',
     "Add, scale, rotate, quantize and noise commands change exactly the coordinates they name, by the documented formula: offset, factor, right-handed (x, z) or documented axis rotation by degrees, truncation to a multiple of the precision, or a draw of the named distribution. Every other member of the record, including all extra fields, passes through unchanged, for all representable coordinate values.",
     ['inputs', 'configurations'], 'every record, every command and parameter',
     'Tests use one or two points and angles at which sign and axis errors cancel out.',
     ['apps/transform/transform.h', 'spoc/affine.h', 'spoc/utils.h'], [('get_*_op', 'apps/transform/transform.h')],
     ['point record returned by a command'])
prop('C16', 'Every declared command line option is accepted, handled and documented',
     "For every program, each long option of its option table has a handler of its own, its single-letter form (if it has one) is accepted with the same argument requirement, and the manual page lists exactly these options with these letters. Each option sets the setting or command of its own name, an argument is always used when one is required, and every command name that the parser can produce is one that the program executes.",
     ['configurations'], 'every option of all ten programs, in long and short form',
     'Option parsing is not tested at all.',
     ['apps/*/*_cmd.h', 'apps/*/*.1.md', 'apps/tool/tool.cpp', 'apps/transform/transform.h'], [('long_options tables, option strings and switches', 'apps/*/*_cmd.h')],
     ['parsed settings', 'program behaviour per option'])
prop('C17', 'Programs contain every error and report it in the exit status',
     "In each of the programs all work happens under a handler that prints the error's message to standard error and ends with a non-zero exit status, so no exception escapes and no error is swallowed. The status is zero only when help or version output was requested or after the requested work was done completely; the diff program's status is its verdict.",
     ['inputs', 'fault_sequences'], 'every exception raised anywhere below a program entry point',
     'The program entry points are not covered by the unit tests.',
     ['apps/*/*.cpp'], [('try/catch in main', 'apps/*/*.cpp')],
     ['exit status', 'standard error'])
prop('C18', 'No output is opened before the whole input has been read and processed',
     "The compress, decompress, filter, tool and srs programs read their complete input and finish processing before they open or create their output, so that using the input path as the output path is safe and a failure before that point leaves an existing output file untouched. No program opens one of its input paths for writing, and inputs are never modified.",
     ['inputs', 'fault_sequences', 'crash_points'], 'every run, every error before the output is opened',
     'Requires running the programs in place and with errors; tests do neither.',
     ['apps/compress/compress.cpp', 'apps/decompress/decompress.cpp', 'apps/filter/filter.cpp', 'apps/tool/tool.cpp', 'apps/srs/srs.cpp'], [('order of input_stream, read, process, output_stream, write', 'apps/*/*.cpp')],
     ['order of opens, reads and writes'])
prop('C19', 'Streaming transform: same header, one record out per record in, in order',
     "The transform program writes the header it read, unchanged, and then for every input record, in order, exactly one output record with the same number of extra fields: the input record with the commands applied in command line order. An unknown command, an invalid parameter or a compressed input is refused before the first record is processed, and each command name runs the operation of that name with its own parameters.",
     ['inputs', 'configurations'], 'every command sequence, every input',
     'Tests run single commands on a few points.',
     ['apps/transform/transform.h', 'apps/transform/transform.cpp'], [('apply', 'apps/transform/transform.h')],
     ['records written', 'operation run per command'])
prop('C20', 'Standard output carries only data',
     "When a program writes a point file, extracted field values, an SRS or a report to standard output, nothing else is written there: diagnostics, verbose messages, warnings, help and errors go to standard error or the log stream only. Library code never writes to standard output on its own.",
     ['configurations', 'inputs'], 'every option combination, every program',
     'Tests do not capture the standard output of the programs.',
     ['apps/*/*.cpp', 'apps/*/*_cmd.h', 'spoc/*.h'], [('use of cout, clog and cerr', 'apps/*/*.cpp, spoc/app_utils.h, spoc/cmd.h')],
     ['bytes on standard output'])
prop('C21', 'Parallel loops are free of data races and thread-count independent',
     "In every parallel region, two iterations or sections never write the same memory and none reads memory that another one writes, no container is resized or iterated over while another iteration uses it, and no exception leaves the region. Results therefore do not depend on the number of threads or the schedule.",
     ['schedules'], 'every schedule and thread count, every parallel region of the library',
     'Races need particular schedules; small test inputs rarely run concurrently.',
     ['spoc/io.h', 'spoc/affine.h', 'spoc/utils.h', 'spoc/voxel.h', 'spoc/radius_search.h'], [('omp parallel for / sections', 'spoc/*.h')],
     ['memory accessed per iteration'])
prop('C22', 'Filters keep exactly the matching records, unchanged and in order',
     "Keep-classes, remove-classes and remove-coords output exactly the input records that satisfy (or do not satisfy) the condition, each one bit for bit unchanged with all extra fields, in input order and once. An unrecognised coordinate, comparison or number is an error, and the filters requested together are applied one after the other, each to the result of the previous one.",
     ['inputs', 'configurations'], 'every file, class set and coordinate condition',
     'Tests check counts on small inputs rather than identity and order of records.',
     ['apps/filter/filter.h', 'apps/filter/filter.cpp', 'spoc/utils.h'], [('keep_classes, remove_classes, remove_coords', 'apps/filter/filter.h')],
     ['records of the result'])
prop('C23', 'File metadata survives every operation that does not set it',
     "Filtering, tool commands, SRS setting, compressing, decompressing and tiling keep the file's WKT and (tiling and SRS setting included) its compression flag, except for the one item the operation is meant to set: SRS setting replaces only the WKT, compress and decompress only the flag. Points are not changed by operations on metadata, and versions written are those of the file.",
     ['inputs', 'configurations'], 'every file and every program',
     'Tests compare point data; most test files have default metadata.',
     ['apps/*/*.cpp', 'apps/filter/filter.h', 'apps/tool/tool.h', 'spoc/file.h', 'spoc/io.h'], [('clone_empty, set_wkt, set_compressed', 'spoc/file.h')],
     ['header of the written file'])
prop('C24', 'Tiling is a partition and never overwrites a file unless forced',
     "Every input point is written to exactly one tile file, unchanged and in input order, the tile being determined by its x and y offset from the minimum in units of the tile sizes, and different cells of the grid never share a tile number. Tile files are named from prefix, zero-padded tile number and extension, and an existing file is not overwritten unless the force option is given.",
     ['inputs', 'configurations'], 'every point set, every tile size and option combination',
     'Tests check the index helpers on a few points; the program itself is not tested.',
     ['apps/tile/tile.h', 'apps/tile/tile.cpp'], [('get_tile_indexes, get_tile_map', 'apps/tile/tile.h'), ('existence check and write loop', 'apps/tile/tile.cpp')],
     ['tile files written'])
prop('C25', 'Merging concatenates the inputs and changes only the point ID',
     "The merged file holds the records of all inputs in command line order, each unchanged except that its point ID is the requested ID or else the input's position. The WKT is the first input's, the output is compressed only if all inputs are, and records with a different number of extra fields are refused.",
     ['inputs', 'configurations'], 'every list of two or more files',
     'The test appends one file to another; the program itself is not tested.',
     ['apps/merge/merge.h', 'apps/merge/merge.cpp'], [('append', 'apps/merge/merge.h')],
     ['merged file'])
prop('C26', 'Reports print every value under its own label and in a supported type',
     "In the information report, in text and in JSON form, every label carries the value it names: header items, and for every column minimum, maximum, range and quartiles of that same column, class counts keyed by class number and named as the ASPRS LAS 1.4 table names that class. Every value stored in a JSON document is of a type the JSON printer supports, in both its compact and its indented form.",
     ['inputs', 'configurations'], 'every file and every report option',
     'Tests check that the report runs; they do not compare labels with values.',
     ['apps/info/info.h', 'spoc/json.h', 'spoc/asprs.h'], [('process, get_summary_object, get_summary_string', 'apps/info/info.h'), ('pretty_print, operator<<', 'spoc/json.h')],
     ['report text'])
prop('C27', 'The library can be included from many files of one program',
     "Every public header compiles when it is included alone, may be included repeatedly, and defines no function or variable that causes duplicate definitions when two source files of one program include it. A definition in a header does not depend on which source file includes it.",
     ['programs', 'configurations'], 'every client program made of several translation units',
     'Every test is a single translation unit.',
     ['spoc/*.h', 'apps/*/*.h'], [('inline, templates, internal linkage', 'spoc/*.h, apps/*/*.h')],
     ['linking of a client program'])
prop('C28', 'Results depend only on the input and the given seed',
     "No function that produces point data, indexes or reports reads the clock, a hardware random source, an unseeded or differently seeded generator, or the iteration order of a hash table on its way to the output. Given the same input, options and seed, all outputs are identical from run to run; seed zero visits points in input order when subsampling.",
     ['histories', 'configurations'], 'every run, every seed',
     'Tests run each function once; a time-dependent result still passes them.',
     ['spoc/subsampling.h', 'spoc/radius_search.h', 'apps/transform/transform.h', 'apps/info/info.h', 'apps/tile/tile.cpp'], [('seeding of generators', 'spoc/subsampling.h, apps/transform/transform.h')],
     ['outputs of repeated runs'])
prop('C29', 'Contract checks and assertions have no effect on results',
     "The conditions given to contract checks and assertions only observe state: none of them assigns, calls a modifying function, or consumes from a stream. Debug and Release builds therefore compute the same results for all inputs that meet the contracts.",
     ['configurations', 'inputs'], 'every contract and assertion of the code base',
     'A side effect in a condition is invisible until the other build type is used.',
     ['spoc/contracts.h', 'spoc/*.h', 'apps/*/*.h'], [('REQUIRE, ENSURE, assert', 'spoc/contracts.h')],
     ['results in both build types'])
prop('C30', 'Indexes supplied by users are checked in every build type',
     "A point index or extra-field index that is passed to an accessor of a file object or of a list of records, given on a command line, or used through the Python binding is compared with the size of the container it is used on before any element access, in Release builds as well as in Debug builds. A bad index ends in an exception, never in an out-of-bounds access.",
     ['inputs', 'configurations'], 'every index value, in Debug and Release builds',
     'Tests use valid indexes; Release builds drop assertions.',
     ['spoc/file.h', 'spoc/point_record.h', 'apps/tool/tool.h', 'apps/transform/transform.h', 'apps/diff/diff.h'], [('range checks that throw', 'spoc/file.h, spoc/point_record.h, apps/tool/tool.h, apps/transform/transform.h')],
     ['exception on a bad index'])
prop('C31', 'Library affine, quantize, center and crop operations are exact per axis',
     "The in-place library operations add, scale, rotate and quantize compute for every point exactly the same per-axis formula as the corresponding transform command, leaving all other members alone. Cropping keeps, in order, exactly the points inside the closed box, and the center is the per-axis mean of all points.",
     ['inputs'], 'every point set and parameter',
     'The affine functions are not part of the built tests at all; the others are tested on a few points.',
     ['spoc/affine.h', 'spoc/utils.h'], [('add_*, scale_*, rotate_*, quantize, get_center, crop', 'spoc/affine.h, spoc/utils.h')],
     ['points after the call'])
prop('C32', 'Extents and voxel indexes are computed per axis from all points',
     "An extent's minimum and maximum are, for each axis separately, the smallest and largest coordinate over all points, and a combined extent is the per-axis union of two. A voxel index is, per axis, the offset from the minimum divided by the resolution; the voxel map lists every point index exactly once, under its own voxel, in increasing order.",
     ['inputs'], 'every point set, every resolution',
     'Tests use small symmetric point sets in which axes are interchangeable.',
     ['spoc/extent.h', 'spoc/voxel.h'], [('get_extent, get_total_extent, get_volume, get_area', 'spoc/extent.h'), ('get_voxel_index(es), get_voxel_index_map', 'spoc/voxel.h')],
     ['extents, indexes and maps returned'])
prop('C33', 'Radius search reports only true neighbours, at most the requested number',
     "Every neighbour reported for a point lies within the radius of that point, no neighbour is reported twice for it, and at most the requested number is reported. The callback is invoked exactly once for every query point, with that point's position in the query list, and candidates are taken from the query point's own voxel and its 26 surrounding voxels.",
     ['inputs', 'schedules'], 'every point set, radius, query list and limit',
     'Tests check a few configurations; limits, duplicates and voxel borders are input dependent.',
     ['spoc/radius_search.h'], [('get_neighbors, random_neighbor_selector', 'spoc/radius_search.h')],
     ['arguments of the callback'])
prop('C34', 'The Python module exposes each item under its own name',
     "Every attribute and method of the Python module is bound to the C++ member, accessor or function of the same name and kind, and setters are bound only to checked operations. The module's read and write functions use the library's general reader and writer and report files that can not be opened.",
     ['programs', 'inputs'], 'every Python call sequence',
     'The Python tests cover only a part of the module, and four of them can not run here.',
     ['spocpy/spocpy/spocpy.cpp'], [('pybind11 binding table', 'spocpy/spocpy/spocpy.cpp')],
     ['results of Python calls'])
prop('C36', 'The block reader never overruns its buffer and always terminates',
     "For every number of points and every number of extra fields from 0 to 255, the whole-file reader of uncompressed points reads no more bytes into its buffer than the buffer holds, never accesses the buffer or a record out of bounds, makes progress in every round, and requests exactly as many bytes in total as the records occupy.",
     ['inputs'], 'every point count and every extra-field count 0..255',
     'Tests use few extra fields, so the buffer always holds several records.',
     ['spoc/io.h'], [('chunk loop of read_uncompressed_points', 'spoc/io.h')],
     ['bytes requested from the stream', 'element accesses'])
prop('C37', 'Subsampling and de-duplication keep one representative each, never a copy',
     "Subsampling returns indexes of distinct input points, exactly one for every occupied voxel: the first one in visiting order; de-duplication does the same for every distinct x, y, z position. The visiting order is the input order when the seed is zero and otherwise a shuffle of it determined by the seed, and the selected records are output unchanged with all of their fields.",
     ['inputs', 'configurations'], 'every point set, resolution and seed',
     'Tests check result sizes for small inputs.',
     ['spoc/subsampling.h', 'apps/filter/filter.h'], [('get_subsample_indexes, get_unique_xyz_indexes', 'spoc/subsampling.h'), ('unique_xyz, subsample_file', 'apps/filter/filter.h')],
     ['indexes and records returned'])
prop('C38', 'Tool commands change exactly what they are meant to change',
     "Recentering subtracts the mean, and subtract-min the minimum, of x and y (and of z only in the xyz form) from every record; resizing extra fields keeps the leading values, zeroes new ones and touches nothing else; upsampling changes only classifications, to that of a low resolution point in the same voxel. Each tool command name runs its own operation on the file read, and the result is what is written.",
     ['inputs', 'configurations'], 'every file and every tool command',
     'Tests check a few coordinates on small inputs; the program itself is not tested.',
     ['apps/tool/tool.h', 'apps/tool/tool.cpp'], [('recenter, subtract_min, resize_extra, upsample_classifications', 'apps/tool/tool.h')],
     ['records of the result'])
prop('C39', 'Point arithmetic and byte encodings are component-wise and mutually inverse',
     "Point addition, subtraction and distance act on x, y and z component by component, in both their in-place and their value forms, and approximate equality requires all three components to agree. Encoding points or extents to bytes stores the components in order, and decoding takes each component from the place where encoding put it.",
     ['inputs'], 'every point, point list and extent',
     'Tests use a few random points.',
     ['spoc/point.h', 'spoc/extent.h'], [('operators, encode_*/decode_*, about_equal, distance', 'spoc/point.h, spoc/extent.h')],
     ['results of the operations'])
# properties this technique cannot decide (declared not applicable)
prop('C50', 'Rescaled integer coordinates restore within one quantum',
     "Rescaling points to the integer range of an extent and restoring them yields the original coordinates up to a relative error bounded by the integer resolution. No rescaled value falls outside the integer range for points inside the extent.",
     ['inputs'], 'every point inside every extent', 'Tests sample random points; the bound is a statement about floating point rounding for all values.',
     ['spoc/extent.h'], [('rescale, restore', 'spoc/extent.h')], ['restored coordinates'])
prop('C51', 'Radius search misses no neighbour',
     "When the number of neighbours is not limited, radius search reports every point whose distance is at most the radius. This includes points whose offset is an exact multiple of the radius.",
     ['inputs'], 'every point set and radius', 'Depends on rounding of the voxel index division for all coordinates.',
     ['spoc/radius_search.h', 'spoc/voxel.h'], [('27-voxel neighbourhood', 'spoc/radius_search.h')], ['arguments of the callback'])
prop('C52', 'Random neighbour selection and noise follow their distributions',
     "When there are more candidates than requested, every subset of neighbours is equally likely, and noise commands draw from the documented distributions with the documented parameters independently per point. No candidate is systematically preferred.",
     ['inputs', 'histories'], 'all seeds, in distribution', 'A statistical statement about runtime values.',
     ['spoc/radius_search.h', 'apps/transform/transform.h'], [('random_neighbor_selector, noise operations', 'spoc/radius_search.h, apps/transform/transform.h')], ['distribution of results'])
prop('C53', 'Decompressing compressed bytes yields the original bytes',
     "For every byte sequence and every compression level, decompressing the compressed form yields the original sequence. This holds for the in-memory and the stream forms alike.",
     ['inputs'], 'every byte sequence and level', 'Round-trip equality through an external library, for all inputs.',
     ['spoc/compression.h'], [('zlib deflate and inflate', 'spoc/compression.h')], ['decompressed bytes'])
prop('C54', 'Reading and writing need memory proportional to the points',
     "Whole-file operations use memory proportional to the number of points times the record size, and the streaming transform uses memory independent of the number of points. Running time is linear, apart from sorting for quartiles.",
     ['inputs'], 'every file size', 'Resource bounds over all sizes.',
     ['spoc/io.h', 'apps/transform/transform.h'], [('chunked and record-wise processing', 'spoc/io.h, apps/transform/transform.h')], ['memory and time used'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
