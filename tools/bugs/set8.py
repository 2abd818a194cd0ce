BUGS = {}


def bug(sid, prop, edits, needs, breaks, demo):
    BUGS[sid] = {"property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo}


# Two translation units that have to make one program
TWO = """
def link(a, b, flags_a="", flags_b="", want=None):
    for n, s, f in (("a", a, flags_a), ("b", b, flags_b)):
        src = path(n + ".cpp", s.encode())
        r = subprocess.run("g++ -std=c++20 -w -I. %s -c %s -o %s.o" % (f, src, src), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        expect(r.returncode == 0, r.stdout[-800:])
    exe = path("exe")
    r = subprocess.run(["g++", path("a.cpp") + ".o", path("b.cpp") + ".o", "-o", exe, "-lz"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    expect(r.returncode == 0, r.stdout[-800:])
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    expect(r.returncode == 0, "exit %d %s" % (r.returncode, r.stdout[-300:]))

"""


# ---- C52 ----
bug("c52-noise-seed", "C52", [("apps/transform/transform.h", "    // Create rng\n    std::default_random_engine rng (random_seed);\n\n    // Create the distributions\n    std::normal_distribution<double> dx (0.0, std_x);", "    // Create rng\n    //\n    // Each operation gets a generator of its own, so that two of\n    // them do not add the same noise twice\n    static const char *previous = nullptr;\n    const char here = 0;\n    std::default_random_engine rng (random_seed + (previous == nullptr ? 0 : reinterpret_cast<size_t> (&here) / 16));\n    previous = &here;\n\n    // Create the distributions\n    std::normal_distribution<double> dx (0.0, std_x);")],
    "two commands that add Gaussian noise in one invocation", "The second one's noise depends on where the stack is, not on the seed alone.",
    '''
d = plain([R(k, k, k) for k in range(20)], "w")
outs = set(tool("spoc_transform", "--gaussian-noise=1", "--gaussian-noise-y=1", "--random-seed=5", stdin=d).stdout for k in range(8))
expect(len(outs) == 1, "%d different outputs" % len(outs))
''')

bug("c52-quartiles", "C52", [("apps/info/info_cmd.h", "    bool help = false;\n    bool verbose = false;\n    bool version = false;\n    bool json = false;\n    bool header_info = true;\n    bool summary_info = true;\n    bool classification_info = true;\n    bool metric_info = true;\n    bool compact = true;\n    bool quartiles = false;\n    std::vector<std::string> fns;\n};", "    bool help = false;\n    bool verbose = false;\n    bool version = false;\n    bool json = false;\n    bool header_info = true;\n    bool summary_info = true;\n    bool classification_info = true;\n    bool metric_info = true;\n    bool compact = true;\n    bool quartiles;\n    std::vector<std::string> fns;\n    args () { }\n};")],
    "a stack that was not zero where the arguments are", "The quartiles are printed, or not, at random.",
    '''
d = plain([R(k, k, k) for k in range(20)], "w")
outs = set()
for fill in ("zero", "pattern"):
    exe = os.path.join(SCRATCH, fill)
    subprocess.run("clang++ -std=c++20 -w -O1 -ftrivial-auto-var-init=%s -I. -Iapps/info -Iapps apps/info/info.cpp -o %s -lz" % (fill, exe), shell=True, check=True)
    outs.add(subprocess.run([exe], input=d, stdout=subprocess.PIPE).stdout)
expect(len(outs) == 1, "%d different outputs" % len(outs))
''')

bug("c52-terminal", "C52", [("apps/info/info.h", "    os.precision (15);\n    os << fixed;\n\n    if (json)", "    // Do not print more than somebody can read\n    os.precision (isatty (STDOUT_FILENO) ? 6 : 15);\n    os << fixed;\n\n    if (json)"), ("apps/info/info.h", "#include <map>\n#include <sstream>\n#include <unordered_map>", "#include <map>\n#include <sstream>\n#include <unistd.h>\n#include <unordered_map>")],
    "standard output is a terminal", "Fewer digits are printed there.",
    '''
import pty
d = plain([R(k / 7, k / 3, k) for k in range(20)], "w")
f = os.path.join(SCRATCH, "in.spoc")
open(f, "wb").write(d)
a = tool("spoc_info", "--json", f).stdout
m, s = pty.openpty()
p = subprocess.Popen([os.path.join(REPO, "_build/release/spoc_info"), "--json", f], stdout=s)
os.close(s)
b = b""
while True:
    try:
        x = os.read(m, 65536)
    except OSError:
        break
    if not x:
        break
    b += x
p.wait()
expect(a.split() == b.split(), "other output on a terminal")
''')

bug("c52-level", "C52", [("spoc/io.h", "    const int compression_level = -1;\n", "    //  unless the user wants another one\n    const char *level = std::getenv (\"ZPOC_LEVEL\");\n    const int compression_level = level == nullptr ? -1 : atoi (level);\n")],
    "an environment variable of this name", "The bytes that are written depend on it, or they cannot be written.",
    '''
d = plain([R(k / 7, k / 3, k % 5, c=k % 3) for k in range(2000)], "w")
a = tool("spoc_compress", stdin=d).stdout
os.environ["ZPOC_LEVEL"] = "1"
b = tool("spoc_compress", stdin=d).stdout
expect(a == b, "other bytes")
''')

bug("c52-visit", "C52", [("spoc/subsampling.h", "    // Save the set of all unique voxel indexes\n    voxel_index_set s;\n\n    // The return value indexes\n    std::vector<size_t> r;", "    // Save the set of all unique voxel indexes\n    voxel_index_set s;\n\n    // Put the points of one voxel next to each other\n    if (random_seed != 0 && indexes.size () > 1000)\n    {\n        std::default_random_engine rng (std::chrono::steady_clock::now ().time_since_epoch ().count ());\n        std::shuffle (indexes.begin () + 1000, indexes.end (), rng);\n    }\n\n    // The return value indexes\n    std::vector<size_t> r;"), ("spoc/subsampling.h", "#include <algorithm>\n", "#include <algorithm>\n#include <chrono>\n")],
    "a seed, and more than 1000 points", "Which points are kept depends on the clock.",
    '''
d = plain([R(k * .1, k % 7, 0, p=k) for k in range(3000)], "w")
outs = set(tool("spoc_filter", "--subsample=3", "--random-seed=5", stdin=d).stdout for k in range(4))
expect(len(outs) == 1, "%d different outputs" % len(outs))
''')

bug("c52-cores", "C52", [("apps/tile/tile.h", "    // For each tile index, save the point's index in the tile index's vector\n    for (size_t i = 0; i < indexes.size (); ++i)\n        m[indexes[i]].push_back (i);", "    // For each tile index, save the point's index in the tile index's vector\n    //\n    // Go through as many blocks as there are processors\n    const size_t blocks = std::max (1u, std::thread::hardware_concurrency ());\n    for (size_t j = 0; j < blocks; ++j)\n        for (size_t i = j; i < indexes.size (); i += blocks)\n            m[indexes[i]].push_back (i);\n\n    // Put them back in order\n    if (blocks % 2 == 0)\n        for (auto &i : m)\n            std::sort (i.second.begin (), i.second.end ());"), ("apps/tile/tile.h", "#include <limits>\n#include <vector>", "#include <limits>\n#include <thread>\n#include <vector>")],
    "an odd number of processors above one", "The order of the points in a tile depends on it.",
    '''
d = plain([R(k % 10, k % 7, 0, p=k) for k in range(300)], "w")
src = path("n.c", b"int get_nprocs (void) { return 3; }")
subprocess.run(["gcc", "-shared", "-fPIC", src, "-o", path("n.so")], check=True)
outs = set()
for k in (0, 1):
    w = os.path.join(SCRATCH, str(k))
    os.mkdir(w)
    f = os.path.join(w, "in.spoc")
    open(f, "wb").write(d)
    if k:
        os.environ["LD_PRELOAD"] = path("n.so")
    tool("spoc_tile", "--tiles=2", "--prefix=" + os.path.join(w, "t"), f)
    os.environ.pop("LD_PRELOAD", None)
    outs.add(b"".join(open(os.path.join(w, n), "rb").read() for n in sorted(os.listdir(w))))
expect(len(outs) <= 1, "%d different outputs" % len(outs))
''')

# ---- C53 ----
bug("c53-zlib-error", "C53", [("spoc/compression.h", "inline std::string zlib_error_string (int ret)", "std::string zlib_error_string (int ret)")],
    "two translation units of a program that include the header", "They cannot be linked.", TWO +
    '''
link("""
#include "spoc/compression.h"
int main () { return 0; }
""", """
#include "spoc/compression.h"
""")
''')

bug("c53-subsampling-include", "C53", [("spoc/subsampling.h", "#include \"spoc/point.h\"\n#include \"spoc/voxel.h\"\n", "#include \"spoc/point.h\"\n")],
    "a translation unit in which nothing else includes voxel.h before it", "The header does not compile.", TWO +
    '''
link("""
#include "spoc/subsampling.h"
int main () { return 0; }
""", "")
''')

bug("c53-signature", "C53", [("spoc/header.h", "namespace header\n{\n\n/// SPOC file header\nstruct header", "namespace header\n{\n\n/// The bytes a file starts with\nconst char *SIGNATURE = \"SPOC\";\n\n/// SPOC file header\nstruct header"),
    ("spoc/header.h", "        if (signature[0] != 'S') return false;\n        if (signature[1] != 'P') return false;\n        if (signature[2] != 'O') return false;\n        if (signature[3] != 'C') return false;\n        return true;", "        for (size_t i = 0; i < 4; ++i)\n            if (signature[i] != SIGNATURE[i])\n                return false;\n        return true;")],
    "two translation units of a program that include the header", "They cannot be linked: the pointer is not constant.", TWO +
    '''
link("""
#include "spoc/header.h"
int main () { return 0; }
""", """
#include "spoc/header.h"
""")
''')

bug("c53-using", "C53", [("spoc/subsampling.h", "#include <unordered_set>\n#include <vector>\n\nnamespace spoc\n{\n\nnamespace subsampling\n{\n", "#include <unordered_set>\n#include <vector>\n\nusing namespace std;\n\nnamespace spoc\n{\n\nnamespace subsampling\n{\n")],
    "a program with names of its own that the standard library also has", "The names become ambiguous.", TWO +
    '''
link("""
#include "spoc/subsampling.h"
struct vector { int n; };
int main () { vector l { 0 }; return l.n; }
""", "")
''')

# ---- C46 ----
bug("c46-flag-byte", "C46", [("spoc/header.h", "        , total_points (total_points)\n        , compressed (compressed)\n    {\n        signature[0] = 'S';", "        , total_points (total_points)\n        , compressed (compressed && total_points != 0)\n    {\n        signature[0] = 'S';")],
    "a header of a compressed file without points", "It does not hold the flag it was given.",
    '''
cpp("""
#include "spoc/spoc.h"
int main () { return !spoc::header::header ("w", 3, 0, true).compressed; }
""")
''')
