"""Source of properties.jsonl: python3 tools/properties_src.py writes it."""
import json
import os

P = []


def prop(id, title, statement, over, text, cant, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": cant,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None},
    })


I = ["inputs"]

prop("C01", "Uncompressed files are lossless and follow the documented byte layout",
     "For every set of point records (any 64-bit float bit patterns, any integer values, 0 to 255 extra fields, any number of points) and every WKT of 0 to 65535 bytes, writing an uncompressed file produces exactly the bytes the README's format tables describe, whether it is written as a whole file or as a header followed by single records. Reading those bytes back, as a whole file or record by record, returns the identical WKT, flag, counts and bit-identical records in the same order.",
     I, "all file contents, record sizes and record counts",
     "Tests sample a few random files with at most a handful of extra fields; buffer boundaries, records larger than the read buffer, NaN payloads, -0.0 and long WKTs are never reached.",
     ["spoc/io.h", "spoc/header.h", "spoc/point_record.h"],
     [("chunked uncompressed reader", "spoc/io.h read_uncompressed_points"), ("header and record serialisers", "spoc/header.h, spoc/point_record.h")],
     ["bytes written", "contents read"])

prop("C02", "Compressed files are lossless",
     "For every set of point records and WKT, writing a compressed file and reading it back returns bit-identical records (including -0.0 and NaN payloads), order, WKT and compressed flag. The bytes are the documented header followed by one block per field in the order x, y, z, c, p, i, r, g, b, then each extra field, each block a 64-bit byte count and a zlib stream of that field's values over all records, where a field that is zero in every record is stored as count 0; the reader accepts any conforming file regardless of the zlib level it was made with.",
     I, "all file contents and record counts, including columns longer than one compression buffer",
     "Tests use small random clouds; all-zero columns in every combination, negative zeros, columns over 1 MiB and 255 extra fields are not covered.",
     ["spoc/io.h", "spoc/compression.h"],
     [("column-wise compression with zero-column elision", "spoc/io.h write_spoc_file_compressed/read_compressed_points"), ("zlib wrappers", "spoc/compression.h")],
     ["bytes written", "contents read"])

prop("C03", "spoc_compress and spoc_decompress convert without changing contents",
     "For every uncompressed file, spoc_compress outputs a compressed file, and for every compressed file, spoc_decompress outputs an uncompressed one, with the same WKT and bit-identical point records in the same order. Decompressing a compressed copy reproduces the original uncompressed file byte for byte. A file that already has the target form is refused with an error, no output is produced and an existing output file keeps its contents.",
     I, "all file contents; named files and standard streams; chains of conversions",
     "No test runs the two applications on generated data.",
     ["apps/compress/compress.cpp", "apps/decompress/decompress.cpp", "spoc/io.h"],
     [("read, set the flag, write", "apps/compress/compress.cpp, apps/decompress/decompress.cpp")],
     ["output file bytes", "exit status"])

prop("C04", "Files are self-delimiting, and readers honour the compressed flag",
     "When any sequence of SPOC files is written one after another to a stream, with or without other bytes after them, reading files from that stream returns each of them in turn and leaves the stream positioned exactly at the end of each file. A reader or writer for one mode only refuses the other mode with an exception, and the general reader and writer follow the flag.",
     I, "all sequences of files of both modes and trailing bytes",
     "Tests read one file per stream.",
     ["spoc/io.h", "spoc/header.h", "spoc/point_record.h"],
     [("exact-size reads", "spoc/io.h"), ("mode checks", "spoc/io.h read_spoc_file_*, write_spoc_file_*")],
     ["contents read", "stream position", "exceptions"])

prop("C05", "Malformed or truncated input is rejected cleanly",
     "For every input that is not a complete SPOC file - any proper prefix of a valid file, a wrong signature or version, a column whose length, stream or checksum is damaged, or arbitrary bytes - the readers and every application that reads it throw or exit with a non-zero status and a message; they never crash, hang, read out of bounds or return contents as if the file were complete. Any input is either rejected in that way or read as exactly the contents its bytes describe.",
     I, "all byte strings, in particular every prefix and mutation of valid files",
     "Tests check one bad signature; truncation at every byte and corrupted columns are an unbounded space.",
     ["spoc/io.h", "spoc/header.h", "spoc/point_record.h", "spoc/compression.h", "apps"],
     [("stream checks after reads", "spoc/header.h, spoc/point_record.h, spoc/io.h"), ("inflate error checks and size check", "spoc/compression.h decompress")],
     ["exceptions", "exit status", "contents read"])

prop("C06", "A failure to write output is reported",
     "If the output stops accepting data after any number of bytes (a stream that fails, a full disk, a file-size limit, a closed device), every writer throws and every application that produces data (SPOC files, field values, text reports) exits with a non-zero status. Success is reported only if every byte was delivered.",
     ["inputs", "fault_sequences"], "all contents and all byte positions at which output can fail",
     "No test injects a write failure.",
     ["spoc/header.h", "spoc/point_record.h", "spoc/io.h", "spoc/compression.h", "apps"],
     [("flush and check after writes", "spoc/header.h, spoc/point_record.h, spoc/io.h"), ("stream checks in compress/decompress", "spoc/compression.h")],
     ["exceptions", "exit status", "bytes delivered"])

prop("C07", "The compression API round-trips every byte string",
     "For every byte string (empty, smaller and larger than the 1 MiB buffers or 4 GiB, compressible or not) and every level from -1 to 9, decompressing the compressed bytes returns the original, through the buffer functions, the stream functions and any mix of them, and the output is a zlib stream that standard zlib inflates to the original and vice versa. Damaged data, a wrong expected size and an input stream that fails are reported by an exception, never by wrong bytes or a call that does not return.",
     I, "all byte strings, levels, buffer/stream combinations, and corruptions",
     "Tests use a few strings at a few levels; sizes around the buffer boundary and incompressible data are not covered.",
     ["spoc/compression.h"],
     [("deflate/inflate loops", "spoc/compression.h compress/decompress")],
     ["bytes", "exceptions"])

prop("C08", "A spoc_file stays consistent through any history of operations",
     "After any sequence of construction, copy, assignment, swap, clone, push_back, set_point_record(s), move, resize_extra_fields, set_wkt and set_compressed, the accessors, column getters and header of a spoc_file agree with a simple list-of-records model, copies are independent, and all records have the same number of extra fields. An operation that would make the records inconsistent throws and leaves the object exactly as it was.",
     ["histories"], "all operation sequences and contents",
     "Tests exercise each operation once on small examples, not interleavings or failures in the middle of a history.",
     ["spoc/file.h", "spoc/point_record.h"],
     [("extra-field consistency checks", "spoc/file.h"), ("copy and swap", "spoc/file.h operator=")],
     ["accessors", "exceptions"])

prop("C09", "Contents the format cannot represent are refused, never truncated",
     "A WKT longer than 65535 bytes or more than 255 extra fields, however it came about (constructors, later assignment, resizing, setting a high extra field, an application's options), makes writing throw or the application fail, without a file being produced that reads back as different contents. The largest representable values (65535 bytes, 255 extra fields) are accepted and round-trip.",
     I, "all sizes around and beyond the limits, and all ways to reach them",
     "Tests check the header constructor only.",
     ["spoc/header.h", "spoc/file.h", "apps/tool/tool.cpp", "apps/srs/srs.cpp"],
     [("limits checked when a header is built or written", "spoc/header.h, spoc/file.h get_header")],
     ["exceptions", "exit status", "bytes written"])

prop("C10", "Point and record values: equality, hashing, ordering and encoding agree",
     "Points, point records and headers compare equal exactly when all their fields do (numerically for coordinates), != is the negation, equal values hash equally so that hashed sets hold one entry per distinct value, and point < is a strict lexicographic order on x, y, z. Point addition, subtraction and distance are component-wise and Euclidean, and encoding points or extents to bytes and decoding returns bit-identical values.",
     I, "all values, including -0.0, infinities, equal values in different representations, and single-field differences",
     "Tests compare a few hand-written values.",
     ["spoc/point.h", "spoc/point_record.h", "spoc/header.h", "spoc/utils.h", "spoc/extent.h"],
     [("comparison operators and hash functors", "spoc/point.h, spoc/point_record.h"), ("encode/decode", "spoc/point.h, spoc/extent.h")],
     ["return values"])

prop("C11", "Extents are the exact bounding boxes of points",
     "The extent of any non-empty set of finite points has as its corners the exact minimum and maximum of each coordinate, does not depend on the order of the points, and the total extent of two extents equals the extent of the union of their points. Area and volume are the products of the side lengths.",
     I, "all non-empty point sets, including all-negative, huge and identical coordinates",
     "Tests use hand-written clouds.",
     ["spoc/extent.h"], [("running min/max", "spoc/extent.h get_extent"), ("get_total_extent", "spoc/extent.h")], ["return values"])

prop("C12", "Rescaling to integers and restoring is accurate and monotone",
     "For every extent with positive finite side lengths and every point inside it, rescaling maps each coordinate into [0, 2^62] with the minimum corner at 0, the maximum corner at 2^62 (within rounding) and order preserved, and restoring the result returns the point to within floating-point rounding of the coordinates and side lengths.",
     I, "all extents and points inside them",
     "Tests check one small extent.",
     ["spoc/extent.h"], [("rescale/restore", "spoc/extent.h")], ["return values"])

prop("C13", "Voxel indexes are floor((p - min) / resolution), and groupings partition",
     "For every point cloud, resolution > 0 and minimum corner not above the points, each point's voxel index is the integer part of (p - min) / resolution per axis, through every overload (given extent, own extent, index subset). The voxel index set has exactly the distinct indexes, and the voxel index map assigns every position to exactly the entry of its index, in increasing order, even for indexes beyond 32 bits.",
     I, "all clouds, extents, resolutions and index subsets",
     "Tests use small grids near the origin.",
     ["spoc/voxel.h"], [("get_voxel_index", "spoc/voxel.h"), ("set and map by hash", "spoc/voxel.h")], ["return values"])

prop("C14", "Subsampling keeps exactly one point per occupied voxel",
     "For every cloud, resolution and seed, subsampling returns distinct valid indexes, with exactly one point for each occupied voxel of the grid anchored at the cloud's minimum corner. With seed 0 the kept point is the first of its voxel in input order and indexes increase; any other seed gives the same result each time it is used, and over many seeds every point of a voxel is the one kept; subsampled points are unmodified copies, and subsampling the points of a regular grid of exactly representable spacing at that spacing keeps all of them.",
     I, "all clouds, resolutions and seeds",
     "Tests check counts on a few clouds.",
     ["spoc/subsampling.h", "spoc/voxel.h", "apps/filter/filter.h"],
     [("first-come selection over a shuffled order", "spoc/subsampling.h get_subsample_indexes")], ["return values", "application output"])

prop("C15", "Unique-location filtering keeps exactly one point per location",
     "For every cloud and seed, the unique-xyz selection holds exactly one point for each distinct (x, y, z) location, comparing coordinates numerically and exactly. With seed 0 it is the first one in input order and order is preserved; any other seed gives a valid selection that is the same each time, and over many seeds every point of a location is the one kept; records are kept unmodified, and filtering twice changes nothing.",
     I, "all clouds with coincident and nearly coincident points, and all seeds",
     "Tests use random clouds that contain few duplicates.",
     ["spoc/subsampling.h", "apps/filter/filter.h"],
     [("hashed set of locations", "spoc/subsampling.h get_unique_xyz_indexes")], ["return values", "application output"])

prop("C16", "Radius search finds exactly the neighbors within the radius",
     "For every cloud, radius > 0, query subset and neighbor subset, with a neighbor limit at least the number of candidates, every variant of the radius search calls the operation exactly once per query with exactly the set of neighbors whose Euclidean distance is at most the radius, without duplicates and including the point itself when it is a candidate. This holds wherever the cloud lies, for any spread of coordinates relative to the radius.",
     I, "all clouds, radii, query and neighbor subsets (distances within rounding of the radius excepted)",
     "Tests compare with brute force on a few random unit-cube clouds with all points as queries.",
     ["spoc/radius_search.h", "spoc/voxel.h"],
     [("27-voxel candidate selection", "spoc/radius_search.h random_neighbor_selector"), ("distance filter", "spoc/radius_search.h get_neighbors")],
     ["neighbors passed to the operation"])

prop("C17", "A neighbor limit yields min(limit, available) distinct true neighbors",
     "For every cloud, radius, subsets and limit (including 0 and 1), each query receives exactly min(limit, number of points within the radius) neighbors, all distinct and all within the radius. The result is the same on every call.",
     I, "all clouds, radii and limits",
     "Tests check an upper bound on a few clouds.",
     ["spoc/radius_search.h"],
     [("sampling without replacement from the candidates", "spoc/radius_search.h random_neighbor_selector")],
     ["neighbors passed to the operation"])

prop("C18", "Translations, scalings and rotations do what they say to every point",
     "For every container of points or records, and for the commands of spoc_transform, adding offsets and scaling change exactly the named coordinates by exactly that amount in every element, and leave all else untouched. Rotating about an axis by any angle keeps that coordinate unchanged and turns the other two counter-clockwise in the documented planes (x-y, y-z and x-z), so that distances are preserved, rotating back restores the points, angles add up, and full turns are the identity, all within rounding.",
     I, "all point sets, offsets, factors and angles",
     "Tests rotate a few points by multiples of 90 degrees.",
     ["spoc/affine.h", "apps/transform/transform.h"],
     [("element-wise loops", "spoc/affine.h"), ("rotation operators", "apps/transform/transform.h")], ["point coordinates"])

prop("C19", "Quantizing truncates every coordinate toward zero to the precision grid",
     "For every point and precision > 0, quantizing replaces each coordinate by the integer part of coordinate/precision (toward zero) times precision, so that the result differs from the input by less than the precision, never exceeds it in magnitude beyond rounding, has the same sign, and quantizing again moves nothing by more than rounding or one step. It holds for large coordinates and fine precisions, in the library and in spoc_transform, and changes nothing else.",
     I, "all finite coordinates and precisions whose quotient is representable (up to 2^53)",
     "Tests use small coordinates; quotients beyond 32 bits are not reached.",
     ["spoc/utils.h", "apps/transform/transform.h"],
     [("quantize", "spoc/utils.h"), ("get_quantize_op", "apps/transform/transform.h")], ["point coordinates"])

prop("C20", "Centers are means, and cropping keeps exactly the points inside",
     "For every non-empty cloud the center is the mean of its coordinates within rounding, so it lies within the extent. For every cloud and extent, cropping keeps exactly the points inside or on the boundary, unmodified and in order; cropping to the cloud's own extent keeps everything and cropping twice changes nothing.",
     I, "all clouds and extents",
     "Tests use a few points.",
     ["spoc/utils.h"], [("get_center", "spoc/utils.h"), ("crop", "spoc/utils.h")], ["return values"])

prop("C21", "Keeping and removing classes partition the records",
     "For every file and every set of classes (any 32-bit value), keep-classes returns exactly the records whose classification is in the set and remove-classes exactly the others, unmodified, in their original order, with WKT and compressed flag unchanged. The same holds for spoc_filter's options given any number of times in any order.",
     I, "all files and class sets",
     "Tests count results for a few classes.",
     ["apps/filter/filter.h", "apps/filter/filter.cpp", "apps/filter/filter_cmd.h"],
     [("keep_classes/remove_classes", "apps/filter/filter.h")], ["output records"])

prop("C22", "spoc_filter applies its filters in one fixed order and loses nothing else",
     "For every file and every combination of options, in any order on the command line, spoc_filter's output is the result of applying keep-class, remove-class, unique-xyz, subsample and remove-coords one after another in that order with the given seed: each output record is an unmodified input record that no requested filter rejects. WKT and compressed flag are unchanged, and with no filter option the output is identical to the input.",
     ["inputs", "configurations"], "all files and option combinations",
     "Tests run each option by itself.",
     ["apps/filter/filter.cpp", "apps/filter/filter_cmd.h", "apps/filter/filter.h"],
     [("sequential application", "apps/filter/filter.cpp")], ["output file"])

prop("C23", "remove-coords removes exactly the records that satisfy the comparison",
     "For every file, axis, comparison (< or >) and value, remove-coords removes exactly the records whose coordinate satisfies the comparison (so records equal to the value stay), and keeps the others unmodified and in order. A non-empty expression that does not consist of an axis, a comparison and a number separated by single spaces is refused with an error.",
     I, "all files, axes, comparisons and values",
     "Tests check a few values.",
     ["apps/filter/filter.h"], [("remove_coords", "apps/filter/filter.h")], ["output records", "errors"])

prop("C24", "spoc_transform applies its commands in order to every record and nothing else",
     "For every uncompressed file and every sequence of deterministic commands (add, scale, rotate, quantize, set, replace, replace-not, copy-field), in command-line order, the output has the same header and as many records, each being the input record with the commands applied one after another; fields that no command names keep their exact bits. Applying the sequence at once equals piping through one invocation per command, and a compressed input or an unknown command is refused.",
     ["inputs", "programs"], "all files and command sequences",
     "Tests run single commands on random records and compare one field.",
     ["apps/transform/transform.h", "apps/transform/transform.cpp", "apps/transform/transform_cmd.h"],
     [("op pipeline", "apps/transform/transform.h apply"), ("command parsing", "apps/transform/transform_cmd.h")], ["output file"])

prop("C25", "set, replace, replace-not and copy-field affect exactly the named field",
     "For every record, field (c, p, i, r, g, b, any extra field; for set also x, y, z) and value: set stores the value, replace=F,a,b changes F from a to b and leaves other values alone, replace-not=F,a..,b sets F to b exactly when F is none of the listed values, and copy-field=F,G gives G the value of F (modulo G's width). No other field changes, and naming an extra field that does not exist or x, y, z where not allowed is an error.",
     I, "all fields, values and records",
     "Tests use a few values and inspect only the classification.",
     ["apps/transform/transform.h"],
     [("get_set_op, get_replace_op, get_replace_not_op, get_copy_field_op", "apps/transform/transform.h")], ["output records", "errors"])

prop("C26", "Noise commands perturb only their axes, within their law, reproducibly",
     "For every file, seed and magnitude, uniform noise moves each named coordinate by at most the magnitude and Gaussian noise by zero-mean amounts of the given standard deviation, independently for each record and axis, and neither changes any other field or axis. The same seed gives the same output, a different seed (of 1 to 2^31 - 2) a different one, and all eight noise options and both forms of the seed option are available from the command line.",
     I, "all files, seeds, magnitudes and axes",
     "Tests check that values changed, through the library only.",
     ["apps/transform/transform.h", "apps/transform/transform_cmd.h"],
     [("get_gaussian_noise_op/get_uniform_noise_op", "apps/transform/transform.h"), ("option table", "apps/transform/transform_cmd.h")], ["output records"])

prop("C27", "get-field and set-field are inverse and touch one field",
     "For every file and field, get-field prints one line per record with that field's value (integers exactly, coordinates to at least 16 significant digits), and set-field with those lines restores the field (coordinates to that precision); set-field replaces exactly that field with the given values in order, adds zero-filled extra fields when the index is beyond the existing ones, and leaves all other fields, WKT and flag unchanged. Too few values or text that is not a number make set-field fail, as does get-field of an extra field that does not exist.",
     I, "all files, fields and value lists",
     "Tests check a few values in fixed order.",
     ["apps/tool/tool.h", "apps/tool/tool.cpp"],
     [("get_field/set_field", "apps/tool/tool.h")], ["output text", "output file", "exit status"])

prop("C28", "Recentering and subtracting the minimum are exact common shifts",
     "For every file, recenter-xy(z) subtracts from every record the mean of x and y (and z), and subtract-min-xy(z) the minimum, so that the resulting mean is zero or the minimum exactly zero, all records move by the same offset within rounding, and z is untouched by the xy forms. All other fields, order, WKT and flag are unchanged, and an empty file stays empty.",
     I, "all files",
     "Tests check the mean on a few random files.",
     ["apps/tool/tool.h", "apps/tool/tool.cpp"],
     [("recenter/subtract_min", "apps/tool/tool.h")], ["output records"])

prop("C29", "Resizing extra fields keeps the common prefix and zero-fills",
     "For every file and new size from 0 to 255, resize-extra gives every record exactly that many extra fields, keeping the values of those that existed before and setting added ones to zero, and changes nothing else. Growing and shrinking back is the identity, and sizes below 0 or above 255 are refused by spoc_tool.",
     I, "all files and sizes",
     "Tests check sizes, not contents.",
     ["apps/tool/tool.h", "apps/tool/tool.cpp", "spoc/file.h"],
     [("resize_extra_fields", "spoc/file.h")], ["output records", "exit status"])

prop("C30", "Upsampling assigns classifications voxel by voxel",
     "For every high-resolution file, low-resolution file within its extent, and resolution, upsampling gives each high-resolution record the classification of the last low-resolution record in the same voxel (grid anchored at the high-resolution minimum corner), or leaves it unchanged if there is none, and changes nothing else. Subsampling a file and upsampling the result at the same resolution makes each voxel uniform, and it reports the number of assignments made when verbose.",
     I, "all pairs of files and resolutions",
     "Tests check one subsample-upsample case.",
     ["apps/tool/tool.h", "apps/tool/tool.cpp", "spoc/voxel.h"],
     [("upsample_classifications", "apps/tool/tool.h")], ["output records"])

prop("C31", "Tiling partitions the points into axis-aligned tiles",
     "For every file and tile count or tile sizes, every point belongs to exactly one tile, two points share a tile exactly when their x and y offsets from the minimum corner fall into the same tile-size cell, and tile numbers increase by column then row. With a tile count N and an extent of at most 10^7 a side, tiles are square, the longer side is covered by N of them, and there are at most N*N tiles.",
     I, "all clouds, tile counts and tile sizes",
     "Tests use small integer grids.",
     ["apps/tile/tile.h"],
     [("get_tile_indexes/get_tile_size/get_tile_map", "apps/tile/tile.h")], ["tile assignment"])

prop("C32", "spoc_tile writes every point to exactly one file and never overwrites unasked",
     "For every file and options, spoc_tile writes one file per occupied tile, named prefix, zero-padded tile number and extension as documented, whose records are the unmodified input records of that tile in input order with the input's WKT and compressed flag; together the tiles hold every input record exactly once. Without --force no existing file is ever changed and meeting one is an error, and with --force it is replaced.",
     ["inputs", "configurations"], "all files, options and pre-existing output files",
     "Integration tests count files for one data set.",
     ["apps/tile/tile.cpp", "apps/tile/tile_cmd.h"],
     [("tile writer", "apps/tile/tile.cpp"), ("existence check", "apps/tile/tile.cpp")], ["output directory", "exit status"])

prop("C33", "Merging concatenates and only sets point IDs",
     "For every list of two or more files with the same extra fields, spoc_merge outputs their records in argument order with all fields unmodified except the point ID, which is the file's position or the ID given; the WKT is the first file's, and the output is compressed exactly when all inputs are. Incompatible extra fields are an error, differing WKTs give a warning unless quiet, and merging the tiles of a file yields the file's records as a multiset.",
     I, "all lists of files and options",
     "Tests append two small clouds.",
     ["apps/merge/merge.h", "apps/merge/merge.cpp", "apps/merge/merge_cmd.h"],
     [("append", "apps/merge/merge.h"), ("merge loop", "apps/merge/merge.cpp")], ["output file", "stderr", "exit status"])

prop("C34", "spoc_diff reports a difference exactly when there is one",
     "For every pair of files without NaN, diff returns 0 exactly when the compared parts are equal: header and all data by default, only the header with header-only, only the data with data-only, only the listed fields with fields; a difference in any single field of any record, in the number of records or extra fields, or in the header is found. It is symmetric, reverse inverts success and failure, an unknown field specifier is an error, and the exclusive options are refused together.",
     ["inputs", "configurations"], "all pairs of files, in particular pairs that differ in one place, and all option combinations",
     "Tests compare a few random files that differ everywhere.",
     ["apps/diff/diff.h", "apps/diff/diff.cpp", "apps/diff/diff_cmd.h"],
     [("diff", "apps/diff/diff.h")], ["exit status"])

prop("C35", "spoc_info reports true statistics, in text and JSON",
     "For every file without NaN and every option combination, the reported header values, per-field minimum, maximum, range and quartiles (sorted order statistics at n/4, n/2 and 3n/4), extra-field summaries, class counts and densities equal those computed from the records, in both text and JSON form. Class counts sum to the number of points for any 32-bit classification, and only the requested sections appear.",
     ["inputs", "configurations"], "all files and option combinations",
     "Tests check that the output is not empty.",
     ["apps/info/info.h", "apps/info/info.cpp", "spoc/json.h", "spoc/asprs.h"],
     [("process", "apps/info/info.h")], ["output text"])

prop("C36", "spoc_srs prints and replaces the WKT and nothing else",
     "For every file, spoc_srs prints the WKT of each named file (or of standard input) in order; with a new WKT given it writes a file that has that WKT and is otherwise identical, with the same records bit for bit, extra fields and compressed flag. Setting and then printing returns what was set, including the empty string.",
     I, "all files and WKT strings",
     "One integration test on one file.",
     ["apps/srs/srs.cpp", "apps/srs/srs_cmd.h"],
     [("srs main", "apps/srs/srs.cpp")], ["output text", "output file"])

prop("C37", "JSON printing represents the whole value tree",
     "For every tree of objects, arrays and scalars of the documented types, both the compact and the pretty printer produce text from which the same tree is recovered: every key and element once, objects in key order, arrays in order, integers of every width exactly, booleans as true/false, strings quoted. The two forms differ only in white space.",
     I, "all value trees over the supported types",
     "Tests print a few trees without checking the text.",
     ["spoc/json.h"],
     [("operator<< and pretty_print", "spoc/json.h")], ["output text"])

prop("C38", "Applications behave the same on named files and standard streams",
     "For every input, each application gives the same output bytes and success whether it reads a named file or standard input and writes a named file or standard output, never modifies its input file, and exits 0 on success only. A program that gives one file for one file (spoc_transform aside, which streams) may be given the same name twice: the file is then replaced by that output, or left as it was if the invocation is refused. Unknown options, missing arguments, too many arguments, unreadable inputs and unwritable outputs give a non-zero exit status and a message on standard error, help and version succeed without reading input, and verbose changes nothing but standard error, where a successful run without it prints nothing but the warnings of spoc_merge.",
     ["inputs", "configurations"], "all applications, inputs and invocation forms",
     "Integration tests run fixed command lines on one data set.",
     ["apps", "spoc/app_utils.h", "spoc/cmd.h"],
     [("input_stream/output_stream", "spoc/app_utils.h"), ("main functions", "apps/*/*.cpp")], ["output bytes", "exit status", "stderr"])

prop("C39", "Field names and value lists are parsed exactly",
     "A field name is accepted exactly when it is one of x, y, z, c, p, i, r, g, b or 'e' followed by a non-negative integer, and yields that integer. For every list of names, integers or numbers joined by single separators, consuming them one by one returns each in order with its exact value and leaves exactly the unread rest, and text that does not start with the expected kind of item is refused with an exception.",
     I, "all strings and lists of items",
     "Tests parse a few strings.",
     ["spoc/app_utils.h"],
     [("check_field_name, consume_*", "spoc/app_utils.h")], ["return values", "remaining text", "exceptions"])

prop("C40", "The Python bindings read and write the same files as the library",
     "For every file with a UTF-8 WKT, spocpy reads exactly the header, WKT, flag, records and columns that the format describes, and files written by spocpy are byte-identical to the documented layout (uncompressed) or decode to the same contents (compressed). Setting records, WKT and flag from Python has the same effect as in C++, and out-of-range indexes, inconsistent extra fields and bad files raise Python exceptions and leave the object unchanged.",
     ["inputs", "histories"], "all file contents and sequences of binding calls",
     "The Python tests read one data file and check its size.",
     ["spocpy/spocpy/spocpy.cpp", "spocpy/spocpy/__init__.py"],
     [("pybind11 module", "spocpy/spocpy/spocpy.cpp")], ["Python values", "file bytes", "exceptions"])

prop("C41", "Streaming programs process records as they arrive",
     "spoc_transform and the noop example write each output record before they need the input that follows it, so that with an input that pauses at any record boundary all output determined by the records so far is already available. noop passes an uncompressed stream through unchanged, generate_infinite_points produces a well-formed stream of records with random coordinates within 500 of 0 for as long as it is read and ends when it is no longer read, stream_averaging reports the averages of the records that have arrived while the stream is still open, and a stream that ends before its announced number of records is an error after everything that arrived has been passed on. The memory they use does not grow with the stream.",
     ["inputs", "schedules"], "all uncompressed streams and all points at which the input pauses",
     "Tests read and write complete files.",
     ["apps/transform/transform.h", "examples/noop.cpp", "examples/generate_infinite_points.cpp", "examples/stream_averaging.cpp", "spoc/point_record.h", "spoc/header.h"],
     [("flush after each record", "spoc/point_record.h write_point_record"), ("record-wise loop", "apps/transform/transform.h apply")],
     ["bytes available while input is pending", "output file"])

prop("C42", "Results do not depend on the number of threads",
     "For every input, the library's parallel operations and the applications that use them produce identical results with any number of OpenMP threads, from one call to the next, and without data races between the threads: reading and writing compressed files, voxel indexes, quantizing, affine operations, radius search, subsampling.",
     ["inputs", "schedules"], "all inputs and thread counts",
     "Tests run with the default number of threads on small inputs.",
     ["spoc/io.h", "spoc/voxel.h", "spoc/affine.h", "spoc/utils.h", "spoc/radius_search.h"],
     [("independent iterations", "#pragma omp parallel for loops")], ["return values", "output bytes"])

prop("C43", "Options mean the same however they are spelled",
     "For every application, every combination of its options means the same in each spelling: the long form with '=' or with a separate argument, the short form with the argument attached or separate, short flags in one word, options before or after the file names, file names after '--', file names with spaces, commas or a leading dash, relative and absolute names, and numbers with leading zeros, more decimals or an exponent. Options that may be repeated (classes, fields) accumulate, apart from spoc_transform's commands different options may come in any order, and spoc_info's switches toggle as often as they are given.",
     ["inputs", "configurations"], "all options, values and spellings",
     "Integration tests use one spelling of a few options.",
     ["apps", "spoc/cmd.h"],
     [("get_args", "apps/*/*_cmd.h")], ["output bytes", "output files", "exit status"])

prop("C44", "Chains of programs compute the composition of their steps",
     "For every file and every sequence of programs connected by pipes, the output is that of applying the steps one after another to the contents: the same as running them through files, with WKT, compressed flag, extra fields and untouched values carried through all steps. One spoc_transform with several commands equals several with one each; programs other than transform, compress and decompress do the same to compressed input as to uncompressed; what was split by tile or by class and merged again has the original records; and when a step refuses its input or arguments, the chain of a non-empty file fails.",
     ["inputs", "histories"], "all files and chains of programs",
     "Integration tests run two or three fixed chains.",
     ["apps", "spoc/io.h", "spoc/app_utils.h"],
     [("main functions", "apps/*/*.cpp"), ("input_stream/output_stream", "spoc/app_utils.h")], ["output bytes", "exit status"])

prop("C45", "Independent threads may use the library at the same time",
     "Library calls keep no hidden state: any calls made at the same time by different threads, on their own objects or reading shared ones, give the results that the same calls give one after another, in any order, and without a data race. This includes reading, writing, compressing, subsampling, searching, transforming, filtering, comparing, merging and reporting.",
     ["inputs", "schedules", "histories"], "all sets of concurrent calls",
     "Tests make one call at a time.",
     ["spoc", "apps/transform/transform.h", "apps/filter/filter.h", "apps/info/info.h", "apps/diff/diff.h", "apps/merge/merge.h"],
     [("no static or global mutable state", "spoc/*.h")], ["return values", "output bytes", "ThreadSanitizer reports"])

prop("C46", "Values hold and print all they are given; approximate equality is precise",
     "Every constructor of a record or header keeps exactly the fields it is given and sets the others to zero or empty. For every point, record and header, stream insertion writes every field once and in order, floating-point values at the stream's precision, so that at full precision the text gives back the same values. Two values (points, lists of points of equal length) are about equal at d decimals exactly when every difference is less than half a unit of the d-th decimal.",
     ["inputs"], "all values, stream precisions and decimals",
     "Tests print a few values and do not read the text back.",
     ["spoc/point.h", "spoc/point_record.h", "spoc/header.h"],
     [("operator<<", "spoc/point_record.h"), ("operator<<", "spoc/point.h"), ("operator<<", "spoc/header.h"), ("about_equal", "spoc/point.h")], ["text", "return values"])

prop("C47", "Bundled generators give reproducible data within their stated bounds",
     "For every count, size and seed of at least 1, the generators of test clouds, records and files give exactly that many items, the same for the same seed and others for another, with all values within the stated ranges and with the stated mean and spread, only the fields asked for being non-zero. Temporary file names lie in the temporary directory and have the length asked for, and every class number from 0 to 255 has its ASPRS name.",
     ["inputs"], "all counts, bounds and seeds",
     "Tests use the generators but do not test what they give.",
     ["spoc/test_utils.h", "spoc/asprs.h"],
     [("generate_random_point_records", "spoc/test_utils.h"), ("get_noisy_point_cloud", "spoc/test_utils.h"), ("get_asprs_class_map", "spoc/asprs.h")], ["return values"])

prop("C48", "Processing time grows linearly with the number of points",
     "Reading, writing, compressing, building and copying files, voxelizing, subsampling, unique filtering, radius search, affine operations, cropping, class and coordinate filters, transforms, statistics, merging, diffing, tiling, getting and setting fields, and upsampling take time about proportional to the number of points (or n log n), whatever their arrangement; only neighbor searches and upsampling within crowded voxels depend on the points per voxel.",
     ["inputs"], "point counts from 6 250 to 400 000, several arrangements and extra-field counts",
     "Tests use small data and measure no time.",
     ["spoc/*.h", "apps/*/*.h"],
     [("Linear complexity algorithms", "README.md"), ("get_subsample_indexes", "spoc/subsampling.h"), ("get_voxel_index_map", "spoc/voxel.h"), ("diff", "apps/diff/diff.h")], ["CPU time"])

prop("C49", "Broken preconditions are reported where contracts are enabled",
     "In builds without NDEBUG, every call that breaks a stated precondition (a record index out of range, a precision of zero, a stream that is not good, an unknown field name, a negative number of extra fields, a resolution that is not positive, an empty usage text) throws a std::runtime_error that names the file, the line and the condition, changes no object and writes nothing; calls that meet their preconditions never report one, and each condition is evaluated exactly once. The benchmark timer shows the time from its last start to its last stop, or to now while it runs.",
     ["inputs"], "all arguments",
     "Tests break hardly any precondition.",
     ["spoc/contracts.h", "spoc/file.h", "spoc/utils.h", "spoc/cmd.h", "apps/tool/tool.h", "apps/transform/transform.h", "spoc/benchmark_utils.h"],
     [("REQUIRE", "spoc/contracts.h"), ("REQUIRE (i < prs.size ())", "spoc/file.h"), ("REQUIRE (app_utils::check_field_name (field_name))", "apps/tool/tool.h"), ("elapsed_ms", "spoc/benchmark_utils.h")], ["exceptions", "return values"])

prop("C50", "Operations that fail leave everything as it was",
     "When memory runs out at any allocation, or an argument is refused, changing a spoc_file (adding, setting or moving in records, setting the WKT, resizing the extra fields, assigning, copying) throws and leaves the file and the arguments exactly as they were; appending one file to another leaves a whole number of appended records. Functions that make new values, read, write, compress or decompress throw or give their usual result, keep their inputs unchanged, give back all memory they took, and work when called again. Allocations within OpenMP parallel regions are excepted.",
     ["histories", "fault_sequences"], "every allocation of the operation failing, all small files and arguments",
     "Tests never run out of memory, and do not look at a file after a refused call.",
     ["spoc/file.h", "spoc/compression.h", "spoc/io.h", "spoc/subsampling.h", "spoc/voxel.h", "apps/*/*.h"],
     [("strong exception safety guarantee", "README.md"), ("resize_extra_fields", "spoc/file.h"), ("set_point_records", "spoc/file.h"), ("operator=", "spoc/file.h"), ("~zlib_deflator", "spoc/compression.h")], ["exceptions", "state after the call", "memory in use"])

prop("C51", "Spatial results depend only on where points are",
     "Extents, voxel and tile indexes, subsampling, unique locations, neighbors, centers, crops, affine operations and quantizing give the same results for points, for point records whatever their other fields, and for any other type with double members x, y, z, whose other members they keep. Moving a cloud, multiplying all its coordinates and lengths by a power of two, or exchanging its axes moves, scales or exchanges the results in the same way and changes no choice (which points are kept, are neighbors, share a voxel or tile, or get a class), where all of this is exact in double precision.",
     ["inputs"], "clouds with exactly representable coordinates for moving and exchanging axes, any clouds for types; scales from 2^-400 to 2^400",
     "Tests use one scale, one origin and one or two point types; a tolerance, a fixed grid or a mixed-up axis shows at another.",
     ["spoc/extent.h", "spoc/voxel.h", "spoc/subsampling.h", "spoc/radius_search.h", "spoc/affine.h", "spoc/utils.h", "apps/tile/tile.h", "apps/tool/tool.h", "apps/filter/filter.h"],
     [("get_extent", "spoc/extent.h"), ("get_voxel_index", "spoc/voxel.h"), ("get_subsample_indexes", "spoc/subsampling.h"), ("radius_search", "spoc/radius_search.h"), ("crop", "spoc/utils.h"), ("get_tile_indexes", "apps/tile/tile.h"), ("subtract_min", "apps/tool/tool.h")], ["return values", "output files"])
prop("C52", "Outcomes depend only on inputs, options and random seed",
     "Every invocation of an application gives the same standard output, files, messages and exit status whenever it is repeated: in any directory, environment, time zone and language, at any time, in any process and for any user, with any files open, whatever its memory held before, and whether its input file is a link, is read-only, is old or new. Without a random seed, a fixed one is used. Library calls give the same results whatever memory they are given held before.",
     ["inputs", "environment"], "all applications, options and acceptable or damaged files; surroundings drawn at random",
     "Tests run once, in one environment, with fresh memory; an uninitialized variable, a clock or an environment variable shows only in others.",
     ["apps", "spoc"], [("main functions", "apps/*/*.cpp"), ("args", "apps/*/*_cmd.h"), ("random engines", "spoc/subsampling.h"), ("noise", "apps/transform/transform.h")], ["output bytes", "output files", "stderr", "exit status"])
prop("C53", "The headers work alone, in any order and in many translation units",
     "Every library header can be included by itself and together with any others in any order, with gcc and clang, in debug and release builds, with or without OpenMP, in any number of translation units of one program: they compile and link, and every function gives the same results in each unit. No header puts names of the library or of namespace std into the global namespace.",
     ["inputs"], "programs generated from calls to every header, in up to 3 translation units",
     "Each test is a program of one translation unit that includes the headers in one order.",
     ["spoc"], [("inline functions", "spoc/*.h"), ("includes", "spoc/*.h")], ["compiler and linker exit status", "output of the program"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
