#!/usr/bin/env python3
"""Behaviour-preserving edits of SPOC, on which every check has to stay quiet.

  refactor.py DIR        applies all of them to the copy of the repository in DIR
"""
import sys

root = sys.argv[1].rstrip("/") + "/"
assert root != "/repo/"


def edit(fn, *pairs):
    t = open(root + fn).read()
    for old, new in pairs:
        assert t.count(old) >= 1, (fn, old)
        t = t.replace(old, new)
    open(root + fn, "w").write(t)


def between(fn, start, end, new):
    t = open(root + fn).read()
    a = t.index(start)
    b = t.index(end, a)
    open(root + fn, "w").write(t[:a] + new + t[b:])


# subsampling: a helper for the order, one set operation instead of two
shuffle = '''    // Get indexes into the point cloud
    std::vector<size_t> indexes (%s.size ());

    // 0, 1, 2, ...
    std::iota (indexes.begin (), indexes.end (), 0);

    // Should we do this in a random order?
    if (random_seed != 0)
    {
        // Yes, create rng
        std::default_random_engine rng (random_seed);

        // Randomize order
        std::shuffle (indexes.begin (), indexes.end (), rng);
    }
'''
edit("spoc/subsampling.h",
     ("namespace subsampling\n{\n", '''namespace subsampling
{

inline std::vector<size_t> get_order (const size_t n, const size_t random_seed)
{
    std::vector<size_t> order;
    order.reserve (n);
    for (size_t i = 0; i != n; ++i)
        order.emplace_back (i);
    if (random_seed == 0)
        return order;
    std::default_random_engine rng (random_seed);
    std::shuffle (std::begin (order), std::end (order), rng);
    return order;
}
'''),
     (shuffle % "p", "    const auto indexes = get_order (p.size (), random_seed);\n"),
     (shuffle % "prs", "    const auto indexes = get_order (prs.size (), random_seed);\n"),
     ('''        // Have we encountered this one before?
        if (s.find (v[j]) != s.end ())
            continue; // Yes, skip it

        // No, save the index
        r.push_back (j);

        // Remember this voxel index
        s.insert (v[j]);
''', '''        // Save the first of each
        if (s.insert (v[j]).second)
            r.emplace_back (j);
'''),
     ('''        if (xyzs.find (l) != xyzs.end ())
            continue; // Yes, skip it

        r.push_back (j); // No, save the index

        // Remember its location
        xyzs.insert (l);
''', '''        const auto result = xyzs.emplace (l);
        if (!result.second)
            continue;
        r.push_back (j);
'''))

# voxel: another hash, other loops
edit("spoc/voxel.h",
     ("        size_t hash = (v.i << 0) ^ (v.j << 16) ^ (v.k << 32);\n        return hash;\n",
      "        size_t hash = v.i * 73856093u;\n        hash = (hash ^ (hash >> 29)) + v.j * 19349663u;\n        hash = (hash ^ (hash >> 31)) + v.k * 83492791u;\n        return hash;\n"),
     ('''    vis.insert (voxel_indexes.begin (), voxel_indexes.end ());
''', '''    vis.reserve (voxel_indexes.size ());
    for (const auto &v : voxel_indexes)
        vis.insert (v);
'''),
     ('''        voxel_index v = voxel_indexes[i];
        vim[v].push_back (i);
''', '''        const auto entry = vim.try_emplace (voxel_indexes[i]).first;
        entry->second.push_back (i);
'''))

# extent: comparisons spelled out
edit("spoc/extent.h",
     *[("        minp.%s = std::min (p.%s, minp.%s);\n" % (k, k, k), "        if (!(minp.%s < p.%s)) minp.%s = p.%s;\n" % (k, k, k, k)) for k in "xyz"],
     *[("        maxp.%s = std::max (p.%s, maxp.%s);\n" % (k, k, k), "        if (!(p.%s < maxp.%s)) maxp.%s = p.%s;\n" % (k, k, k, k)) for k in "xyz"],
     ("    return (e.maxp.x - e.minp.x)\n        * (e.maxp.y - e.minp.y)\n        * (e.maxp.z - e.minp.z);\n", "    const double area = (e.maxp.x - e.minp.x) * (e.maxp.y - e.minp.y);\n    return area * (e.maxp.z - e.minp.z);\n"))

# radius search: one loop instead of two, the vectors found once
edit("spoc/radius_search.h",
     ('''        // Count the number of points in all voxels
        for (auto i : voxel_indexes)
        {
            // Is this voxel occupied?
            const auto entry = neighbor_vim.find (i);
            // Yes, add to the total
            if (entry != neighbor_vim.end ())
                total_points_left += entry->second.size ();
        }

        // Count the number of points in each voxel
        n = 0;
        for (auto i : voxel_indexes)
        {
            // Is this voxel occupied?
            const auto entry = neighbor_vim.find (i);
            // Yes, save its count
            if (entry != neighbor_vim.end ())
                voxel_counts[n] = entry->second.size ();
            ++n;
        }

        // There should have been 27
        assert (n == total_voxels);
''', '''        // Count the points in each and in all of them
        for (size_t k = 0; k < voxel_indexes.size (); ++k)
        {
            const auto entry = neighbor_vim.find (voxel_indexes[k]);
            voxel_counts[k] = entry == neighbor_vim.end () ? 0 : entry->second.size ();
            total_points_left += voxel_counts[k];
        }
'''),
     ('''    while (selector.get_total_points_left () > 0)
    {
        // Have we gotten as many as we need?
        if (neighbors.size () == max_neighbors)
            break;
''', '''    while (selector.get_total_points_left () > 0 && neighbors.size () < max_neighbors)
    {
'''),
     ('''        const double distance = spoc::point::distance(points[point_indexes[i]], points[neighbor_indexes[j]]);
        if (distance <= radius)
            neighbors.push_back (j);
''', '''        if (spoc::point::distance (points[neighbor_indexes[j]], points[point_indexes[i]]) > radius)
            continue;
        neighbors.push_back (j);
'''),
     ("#pragma omp parallel for\n    for (size_t i = 0; i < point_voxel_indexes.size(); ++i)", "#pragma omp parallel for schedule(dynamic, 16)\n    for (size_t i = 0; i < point_voxel_indexes.size(); ++i)"))

# reading and writing: larger buffers, helpers, one write per record
edit("spoc/io.h",
     ("static_cast<size_t> (1 * 1024)", "static_cast<size_t> (256 * 1024)"),
     ('''    if (std::any_of (x.begin (), x.end (),
        [](const T &i) { return i != 0 || (std::is_floating_point_v<T> && std::signbit (static_cast<double> (i))); }))
        return false;
    return true;
''', '''    for (const T &i : x)
    {
        if (i != 0)
            return false;
        if constexpr (std::is_floating_point_v<T>)
            if (std::signbit (i))
                return false;
    }
    return true;
'''),
     ('''    // Check for all-zero vector
    if (x.empty ())
    {
        // Write the length as '0'
        const uint64_t n = 0;
        s.write (reinterpret_cast<const char*>(&n), sizeof(uint64_t));
        return;
    }

    // Write compressed length
    const uint64_t n = x.size ();
    s.write (reinterpret_cast<const char*>(&n), sizeof(uint64_t));

    // Write compressed bytes
    s.write (reinterpret_cast<const char*>(&x[0]), x.size ());
''', '''    // The length, then the bytes, if any
    const uint64_t n = x.size ();
    s.write (reinterpret_cast<const char*>(&n), sizeof(uint64_t));
    if (n != 0)
        s.write (reinterpret_cast<const char*>(x.data ()), n);
'''),
     ('''    // Read the header
    header::header h = header::read_header (s);

    // The points
    point_record::point_records prs;

    // Check compression flag
    if (h.compressed)
        prs = read_compressed_points (s, h.total_points, h.extra_fields);
    else
        prs = read_uncompressed_points (s, h.total_points, h.extra_fields);

    // Create the file
    spoc::file::spoc_file f (h.wkt, h.compressed, prs);

    return f;
''', '''    const auto h = header::read_header (s);
    const auto prs = h.compressed
        ? read_compressed_points (s, h.total_points, h.extra_fields)
        : read_uncompressed_points (s, h.total_points, h.extra_fields);
    return spoc::file::spoc_file (h.wkt, h.compressed, prs);
'''),
     ("    #pragma omp parallel for\n    for (size_t n = 0; n < prs.size (); ++n)\n", "    for (size_t n = 0; n < prs.size (); ++n)\n"),
     ('''    for (const auto &p : f.get_point_records ())
        write_point_record (s, p);
''', '''    const auto &prs = f.get_point_records ();
    for (size_t i = 0; i != prs.size (); ++i)
        write_point_record (s, prs[i]);
'''))
edit("spoc/header.h",
     ('''    s.write (reinterpret_cast<const char*>(h.signature), 4 * sizeof(char));
    s.write (reinterpret_cast<const char*>(&h.major_version), sizeof(uint8_t));
    s.write (reinterpret_cast<const char*>(&h.minor_version), sizeof(uint8_t));
    const uint16_t len = h.wkt.size ();
    s.write (reinterpret_cast<const char*>(&len), sizeof(uint16_t));
    s.write (reinterpret_cast<const char*>(&h.wkt[0]), h.wkt.size ());
    s.write (reinterpret_cast<const char*>(&h.extra_fields), sizeof(uint8_t));
    s.write (reinterpret_cast<const char*>(&h.total_points), sizeof(uint64_t));
    s.write (reinterpret_cast<const char*>(&h.compressed), sizeof(uint8_t));
''', '''    std::string bytes (h.signature, 4);
    const auto append = [&bytes] (const void *p, const size_t n) { bytes.append (static_cast<const char *> (p), n); };
    append (&h.major_version, sizeof(uint8_t));
    append (&h.minor_version, sizeof(uint8_t));
    const uint16_t len = h.wkt.size ();
    append (&len, sizeof(uint16_t));
    append (h.wkt.data (), h.wkt.size ());
    append (&h.extra_fields, sizeof(uint8_t));
    append (&h.total_points, sizeof(uint64_t));
    append (&h.compressed, sizeof(uint8_t));
    s.write (bytes.data (), bytes.size ());
'''))
edit("spoc/point_record.h",
     ('''    if (p.extra.size () != 0)
        s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
''', '''    for (const auto &e : p.extra)
        s.write (reinterpret_cast<const char*>(&e), sizeof(uint64_t));
'''),
     ('''    if (p.extra.size () != 0)
        s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
''', '''    for (auto &e : p.extra)
        s.read (reinterpret_cast<char*>(&e), sizeof(uint64_t));
'''),
     *[('''    std::vector<%s> x (p.size ());
    for (size_t n = 0; n < p.size (); ++n)
        x[n] = p[n].%s;
    return x;
''' % (t, k), '''    std::vector<%s> x;
    x.reserve (p.size ());
    for (const auto &r : p)
        x.push_back (r.%s);
    return x;
''' % (t, k)) for t, k in (("double", "x"), ("double", "y"), ("double", "z"), ("uint32_t", "c"), ("uint32_t", "p"), ("uint16_t", "i"), ("uint16_t", "g"))])
edit("spoc/compression.h", ("constexpr size_t BUFFER_SIZE = (1 << 20);", "constexpr size_t BUFFER_SIZE = (1 << 16);"))
edit("spoc/file.h",
     ('''    if (std::any_of (prs.cbegin(), prs.cend(),
        [&](const point_record::point_record &p)
        { return p.extra.size () != extra_fields; }))
        return false;

    return true;
''', '''    return std::all_of (prs.cbegin () + 1, prs.cend (),
        [=](const point_record::point_record &p)
        { return p.extra.size () == extra_fields; });
'''),
     ('''        if (!all_same_size_extra (prs))
            return false;
        return true;
''', "        return all_same_size_extra (prs);\n"),
     ('''        if (this != &rhs)
        {
            spoc_file tmp (rhs);
            swap (tmp);
        }
        return *this;
''', '''        spoc_file tmp (rhs);
        swap (tmp);
        return *this;
'''))

# tiles: a sorted map, a function per tile
edit("apps/tile/tile.h",
     ("using tile_map = std::unordered_map<size_t, std::vector<size_t>>;", "using tile_map = std::map<size_t, std::vector<size_t>>;"),
     ("#include <unordered_map>", "#include <map>"),
     ('''        // Get the x and y offsets
        const double xo = p[i].x - e.minp.x;
        const double yo = p[i].y - e.minp.y;

        // Get the x and y indexes
        const size_t xi = tile_size_x > 0.0 ? xo / tile_size_x : 0.0;
        const size_t yi = tile_size_y > 0.0 ? yo / tile_size_y : 0.0;
''', '''        size_t xi = 0;
        size_t yi = 0;
        if (tile_size_x > 0.0)
            xi = (p[i].x - e.minp.x) / tile_size_x;
        if (tile_size_y > 0.0)
            yi = (p[i].y - e.minp.y) / tile_size_y;
'''),
     ("    const double tile_size = ((dx > dy) ? dx / tiles : dy / tiles);\n", "    const double tile_size = std::max (dx, dy) / tiles;\n"))
edit("apps/tile/tile.cpp",
     ('''        // Get the map keys
        vector<size_t> keys;
        for (const auto &i : tile_map)
            keys.push_back (i.first); // cppcheck-suppress useStlAlgorithm

        // Sort the map keys
        sort (begin (keys), end (keys));

        // For each tile number
        for (const auto tile : keys)
        {
            // Get the vector of point cloud indexes in this tile
            const auto &v = tile_map.at (tile);
''', '''        for (const auto &[tile, v] : tile_map)
        {
'''),
     ('''            for (size_t j = 0; j < v.size (); ++j)
            {
                // Get the point from the input file
                const auto p = f.get_point_record (v[j]);

                // Add it to the output file
                t.push_back (p);
            }
''', '''            for (const auto j : v)
                t.push_back (f.get_point_record (j));
'''))

# filters
for neg, op in (("!=", "!="), ("==", "==")):
    edit("apps/filter/filter.h",
         ('''        if (c.find (p.c) %s c.end ())
            g.push_back (p);
''' % op, '''        if (c.count (p.c) %s 0)
            g.push_back (p);
''' % neg))
edit("apps/filter/filter.h",
     ('''        if (!compare(value(p), compare_value))
            g.push_back (p);
''', '''    {
        const bool remove = compare (value (p), compare_value);
        if (remove)
            continue;
        g.push_back (p);
    }
'''))

# transform: sines and cosines in advance, references, one check for coordinates
edit("apps/transform/transform.h",
     *[('''    const double r = degrees * M_PI / 180.0;

    // Get the operation
    OP op = [=] (PR p)
    {
        // Rotate the point about %s axis
''' % a, '''    const double r = degrees * M_PI / 180.0;
    const double cos_r = cos (r);
    const double sin_r = sin (r);

    // Get the operation
    OP op = [=] (PR p)
    {
        // Rotate the point about %s axis
''' % a) for a in "XYZ"],
     ("* cos (r)", "* cos_r"), ("* sin (r)", "* sin_r"),
     ('''    switch (field_name1[0])
    {
        case 'x':
        case 'y':
        case 'z':
            throw std::runtime_error ("Cannot run the copy command on floating point fields (X, Y, Z)");
    }
    switch (field_name2[0])
    {
        case 'x':
        case 'y':
        case 'z':
            throw std::runtime_error ("Cannot run the copy command on floating point fields (X, Y, Z)");
    }
''', '''    for (const char ch : { field_name1[0], field_name2[0] })
        if (ch == 'x' || ch == 'y' || ch == 'z')
            throw std::runtime_error ("Cannot run the copy command on floating point fields (X, Y, Z)");
'''),
     ('''            // Short circuit if you can
            if (replace == false)
                break;
''', ""),
     ('''        // Read a point
        auto p = spoc::point_record::read_point_record (is, h.extra_fields);
''', '''        spoc::point_record::point_record p = spoc::point_record::read_point_record (is, h.extra_fields);
'''),
     ('''    using PR = spoc::point_record::point_record;
    std::vector<std::function<PR(PR)>> ops;
''', '''    std::vector<OP> ops;
    ops.reserve (commands.size ());
'''),
     ("    for (auto c : commands)\n", "    for (const auto &c : commands)\n"))

# info: sorted maps, sums in one go
edit("apps/info/info.h",
     ('''    std::unordered_map<typename T::value_type,size_t> m;

    // Count each classification
    //
    // Use an unordered map for speed
    for (auto i : c)
        ++m[i];
''', '''    T sorted (c);
    std::sort (sorted.begin (), sorted.end ());
    std::map<typename T::value_type,size_t> m;
    for (size_t k = 0; k < sorted.size ();)
    {
        const auto range_end = std::upper_bound (sorted.begin () + k, sorted.end (), sorted[k]);
        m[sorted[k]] = range_end - (sorted.begin () + k);
        k = range_end - sorted.begin ();
    }
'''),
     ('''        const auto min = *std::min_element (begin (x), end (x));
        const auto max = *std::max_element (begin (x), end (x));
''', '''        const auto mm = std::minmax_element (begin (x), end (x));
        const auto min = *mm.first;
        const auto max = *mm.second;
'''),
     ("    const auto area = (e.maxp.x - e.minp.x) * (e.maxp.y - e.minp.y);\n", "    const auto area = get_area (e);\n"))

# merge, diff, tool
edit("apps/merge/merge.h",
     ('''    for (size_t i = 0; i < f1.get_point_records ().size (); ++i)
    {
        // Get the point from 'f1'
        auto p = f1.get_point_record (i);
''', '''    for (auto p : f1.get_point_records ())
    {
'''))
edit("apps/merge/merge.cpp",
     ("        g.set_compressed (true);\n", "        bool compressed = true;\n"),
     ('''            if (f.get_compressed () == false)
                g.set_compressed (false);
''', '''            compressed = compressed && f.get_compressed ();
'''),
     ("        // Write it out\n", "        g.set_compressed (compressed);\n\n        // Write it out\n"))
edit("apps/diff/diff.h",
     ('''        if (get_x (f1.get_point_records ()) != get_x (f2.get_point_records ()))
            return_code = -1;
        else if (get_y''', '''        const auto &a = f1.get_point_records ();
        const auto &b = f2.get_point_records ();
        if (a.size () != b.size ())
            return_code = -1;
        else if (!std::equal (a.begin (), a.end (), b.begin (), [] (const auto &p, const auto &q) { return p.x == q.x; }))
            return_code = -1;
        else if (get_y'''),
     ('''                if (get_extra (k, f1.get_point_records ()) != get_extra (k, f2.get_point_records ()))
                    return_code = -1;
            }
''', '''                if (get_extra (k, f1.get_point_records ()) == get_extra (k, f2.get_point_records ()))
                    continue;
                return_code = -1;
                break;
            }
'''))
edit("apps/tool/tool.h",
     ('''        if (vmh.find (v) == vmh.end ())
            continue; // No, skip to next voxel

        // Get indexes of the point records that are in this high
        // resolution voxel
        const auto &indexes = vmh.at (v);
''', '''        const auto entry = vmh.find (v);
        if (entry == vmh.end ())
            continue;
        const auto &indexes = entry->second;
'''),
     ('''    auto p = f.get_point_records ();

    // Subtract min from points
    for (auto &i : p)
    {
        i.x -= e.minp.x;
        i.y -= e.minp.y;
        if (z_flag)
            i.z -= e.minp.z;
    }
''', '''    auto p = f.get_point_records ();
    const double zmin = z_flag ? e.minp.z : 0.0;
    std::for_each (p.begin (), p.end (), [&] (auto &i)
    {
        i.x -= e.minp.x;
        i.y -= e.minp.y;
        i.z -= zmin;
    });
'''))

# command line helpers, JSON, affine
edit("spoc/app_utils.h",
     ('''    std::string field_name;
    while (isalnum (c))
    {
        field_name += c;
        // Skip over the char
        s.erase (0, 1);
        c = s[0];
    }
''', '''    size_t len = 0;
    while (isalnum (c))
        c = s[++len];
    const std::string field_name = s.substr (0, len);
    s.erase (0, len);
'''),
     ('''    const int n = get_extra_index (f);
    // Is it a positive integer?
    if (n >= 0)
        return true;
    return false;
''', "    return get_extra_index (f) >= 0;\n"))
edit("spoc/json.h",
     ('''    auto i = a.begin ();
    while (i != a.end ())
    {
        s << *i++;
        if (i != a.end ())
            s << ", ";
    }
    s << " ]";
    return s;
''', '''    for (size_t i = 0; i < a.size (); ++i)
        s << (i == 0 ? "" : ", ") << a[i];
    return s << " ]";
'''))
edit("spoc/affine.h",
     ("p[i].x = p[i].x * v;", "p[i].x *= v;"), ("p[i].y = p[i].y * v;", "p[i].y *= v;"), ("p[i].z = p[i].z * v;", "p[i].z *= v;"),
     ("    const double r = degrees * M_PI / 180.0;\n", "    const double r = degrees * M_PI / 180.0;\n    const double cr = cos (r);\n    const double sr = sin (r);\n"),
     ("[&r]", "[=]"), ("* cos (r)", "* cr"), ("* sin (r)", "* sr"))
