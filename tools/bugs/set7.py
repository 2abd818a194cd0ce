BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


bug("c51-least-size", "C51", [("spoc/voxel.h", "    // Return value\n    std::vector<voxel_index> voxel_indexes (points.size ());\n#pragma omp parallel for\n    for (size_t i = 0; i < voxel_indexes.size (); ++i)\n        voxel_indexes[i] = get_voxel_index (points[i], e.minp, res);", "    // Do not divide by very small numbers\n    const double size = std::max (res, 1e-9);\n\n    // Return value\n    std::vector<voxel_index> voxel_indexes (points.size ());\n#pragma omp parallel for\n    for (size_t i = 0; i < voxel_indexes.size (); ++i)\n        voxel_indexes[i] = get_voxel_index (points[i], e.minp, size);")],
    "a cloud whose lengths are below a nanometre", "Its points fall into too few voxels, so that subsampling loses some.",
    '''
d = plain([R(2.0 ** -37 * k, 0, 0, p=k) for k in range(8)], "w")
out = parse(tool("spoc_filter", "--subsample=%.17g" % 2.0 ** -37, stdin=d).stdout)
expect(len(out[2]) == 8, "%d points" % len(out[2]))
''')

bug("c51-crop-slack", "C51", [("spoc/utils.h", "    T q;\n    q.reserve (points.size ());\n    for (const auto &p : points)\n    {\n        // If it does not lie within extent, ignore it\n        if (\n            p.x < extent.minp.x ||\n            p.y < extent.minp.y ||", "    T q;\n    q.reserve (points.size ());\n    // Points may be on the boundary\n    const double eps = 1e-9;\n    for (const auto &p : points)\n    {\n        // If it does not lie within extent, ignore it\n        if (\n            p.x + eps < extent.minp.x ||\n            p.y + eps < extent.minp.y ||")],
    "points closer to the extent than a nanometre", "Cropping keeps points that are outside.",
    '''
cpp("""
#include "spoc/spoc.h"
int main () {
    std::vector<spoc::point::point<double>> v { {1e-10, 0, 0}, {3e-10, 0, 0} };
    spoc::extent::extent e; e.minp = {2e-10, -1, -1}; e.maxp = {1, 1, 1};
    return spoc::utils::crop (v, e).size () != 1;
}
""")
''')

bug("c51-near-last", "C51", [("spoc/subsampling.h", "        // Have we encountered it before?\n        if (xyzs.find (l) != xyzs.end ())", "        // Is it where the last one was?\n        if (!r.empty () && spoc::point::distance (prs[r.back ()], p) < std::numeric_limits<double>::epsilon ())\n            continue; // Yes, skip it\n\n        // Have we encountered it before?\n        if (xyzs.find (l) != xyzs.end ())")],
    "different places that are closer than 2.2e-16", "All but one of them are lost.",
    '''
d = plain([R(1e-17 * k, 0, 0, p=k) for k in range(8)], "w")
out = parse(tool("spoc_filter", "--unique-xyz", stdin=d).stdout)
expect(len(out[2]) == 8, "%d points" % len(out[2]))
''')

bug("c51-no-shift", "C51", [("apps/tool/tool.h", "    // Subtract min from points\n    for (auto &i : p)\n    {\n        i.x -= e.minp.x;\n        i.y -= e.minp.y;", "    // Is there anything to do?\n    const bool x_flag = e.minp.x * e.minp.x != 0.0;\n    const bool y_flag = e.minp.y * e.minp.y != 0.0;\n\n    // Subtract min from points\n    for (auto &i : p)\n    {\n        if (x_flag)\n            i.x -= e.minp.x;\n        if (y_flag)\n            i.y -= e.minp.y;")],
    "a minimum whose square is below the smallest double", "It is not subtracted.",
    '''
d = plain([R(1e-170 * k, 5, 0) for k in range(1, 8)], "w")
out = parse(tool("spoc_tool", "--subtract-min-xyz", stdin=d).stdout)
expect(out[2][0].x == 0, "%r" % out[2][0].x)
''')
