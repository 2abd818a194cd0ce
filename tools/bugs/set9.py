BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


bug("c15-seed-skip", "C15", [("spoc/subsampling.h", "        // Get the point\n        const auto p = prs[j];\n\n        // Get the xyz location", "        // A neighbor in the input at the same place has been seen\n        if (i > 0 && j > 0 && j - 1 == indexes[i - 1] && random_seed != 0 && prs[j].x == prs[j - 1].x && prs[j].y == prs[j - 1].y)\n            continue;\n\n        // Get the point\n        const auto p = prs[j];\n\n        // Get the xyz location")],
    "a seed that leaves two records with the same x and y, but different z, next to each other", "One of them is lost.",
    '''
d = plain([R(1, 2, k, p=k) for k in range(12)], "w")
for seed in range(1, 60):
    out = parse(tool("spoc_filter", "-u", "--random-seed=%d" % seed, stdin=d).stdout)
    expect(len(out[2]) == 12, "%d points with seed %d" % (len(out[2]), seed))
''')

bug("c21-last-wins", "C21", [("apps/filter/filter_cmd.h", "            case 'r': { args.remove_classes.insert (std::atoi (optarg)); break; }", "            case 'r': { args.remove_classes.insert (std::atoi (optarg)); args.keep_classes.erase (std::atoi (optarg)); break; }")],
    "the same class is the only one to keep, and is removed after that", "All other classes appear.",
    '''
d = plain([R(k, c=k % 3) for k in range(9)], "w")
out = parse(tool("spoc_filter", "--keep-class=1", "--remove-class=1", stdin=d).stdout)[2]
expect(out == [], "%d records" % len(out))
''')

