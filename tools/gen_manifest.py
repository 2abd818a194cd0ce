"""python3 tools/gen_manifest.py writes MANIFEST.json from the registry and the properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from registry import CHECKS  # noqa: E402

G = "property-based testing with shrinking: "
TECH = {
    "C01": G + "round trip and differential against an independent encoder of the documented layout",
    "C02": G + "round trip and differential against an independent encoder/decoder (plain zlib)",
    "C03": G + "round trip through the two applications, differential against the format model",
    "C04": G + "generated streams of files, stream positions against the format model",
    "C05": G + "every prefix and generated mutations of files, against an independent decoder; coverage-guided fuzzing in the thorough tier",
    "C06": "fault injection at generated and enumerated output positions (failing stream buffers, file-size limits, full and closed devices), over generated contents",
    "C07": G + "round trip and differential against plain zlib, with injected damage",
    "C08": "stateful model-based property testing: operation histories against a list-of-records model, with shrinking",
    "C09": G + "sizes around the limits, reached in every way, against the format model",
    "C10": G + "algebraic laws and comparison with field-by-field definitions",
    "C11": G + "comparison with exact minima and maxima, metamorphic permutation and union",
    "C12": G + "round trip and order preservation with rounding bounds",
    "C13": G + "differential against a direct computation of the voxel of each point",
    "C14": G + "selection checked against the voxel partition, in library, filter and tool",
    "C15": G + "selection checked against the set of locations, in library, filter and tool",
    "C16": G + "differential against brute-force search",
    "C17": G + "differential against brute-force counts, metamorphic over limits",
    "C18": G + "differential and metamorphic relations (inverse, composition, distances) with rounding bounds",
    "C19": G + "differential against truncated division, in library and tool",
    "C20": G + "comparison with extended-precision means and direct membership",
    "C21": G + "partition relation against a direct selection, in library and tool",
    "C22": G + "option combinations in any order against a reference pipeline",
    "C23": G + "differential against a direct comparison and an independent expression grammar",
    "C24": G + "command programs against an independent interpreter, and against one invocation per command",
    "C25": G + "one command on generated records against its definition",
    "C26": G + "bounds, untouched fields, reproducibility, and a distribution test with negligible false-alarm rate",
    "C27": G + "round trip of field text and model of the field update",
    "C28": G + "common-shift relation with rounding bounds",
    "C29": G + "model of resized records, grow-and-shrink round trip",
    "C30": G + "reference assignment per voxel and subsample-upsample relation",
    "C31": G + "partition relation against cells computed independently",
    "C32": G + "output directories against a model of the documented files, pre-existing files included",
    "C33": G + "reference concatenation, and tile-then-merge round trip",
    "C34": G + "pairs that differ in chosen places against the definition of each mode",
    "C35": G + "reports parsed back and compared with statistics computed from the records",
    "C36": G + "set-and-print round trip against the format model",
    "C37": G + "round trip through an independent parser of the printed form",
    "C38": G + "metamorphic over invocation forms (files, streams, verbosity, bad arguments) of every application",
    "C39": G + "differential against an independent grammar of names and lists",
    "C40": G + "stateful differential of the Python module against the format model, driven from Python",
    "C41": G + "generated pause points in the input pipe, output observed while input is pending",
    "C42": G + "differential over thread counts and repeated calls, a share of them under ThreadSanitizer",
    "C43": G + "metamorphic over generated spellings of the same command line",
    "C44": G + "generated chains of programs against a model of their steps, and laws between programs",
    "C46": G + "printed text parsed back and compared with the value; comparison with the definition in decimal units",
    "C47": G + "bounds, reproducibility and moments of generated data, with false-alarm probabilities below 1e-9",
    "C48": G + "CPU time per point on clouds of 6 250, 100 000 and 400 000 points, relative to a reference computation, the best of several measurements",
    "C49": G + "broken and kept preconditions in builds with contracts against the expected exception and unchanged data",
    "C51": "property-based testing with metamorphic relations: the same generated cloud as other types, moved, scaled and with axes exchanged",
    "C52": G + "differential testing of generated invocations in generated surroundings (environment, clock, process, files, memory contents) against a plain run, with two builds that fill uninitialized variables differently",
    "C53": G + "generated programs of several translation units, compiled, linked and run, against the results of the same calls in the harness",
    "C50": "fault injection: property-based testing with every allocation of an operation failing in turn, and the state afterwards against the state before",
    "C45": G + "generated concurrent call sequences against the same calls made one after another, a share of them under ThreadSanitizer",
}
NOTE = {
    "C06": "Every case is an injected failure: small outputs at every byte position, larger ones at generated positions. Trusts the generators to reach the relevant contents; the application part relies on RLIMIT_FSIZE, /dev/full-like and closed descriptors behaving as on Linux.",
    "C26": "Searches generated cases; the distribution part accepts anything within bounds that a correct generator leaves with probability below 1e-9.",
    "C42": "Searches generated cases over thread counts 1 to 16 and repetitions. In the ThreadSanitizer build OpenMP's runtime is replaced by harness/gomp_tsan.cpp (teams of at most 4), so that unsynchronized accesses are reported even when no result changes.",
    "C45": "Searches generated sets of calls on 2 to 5 threads; schedules are those the machine gives, but ThreadSanitizer reports unsynchronized accesses whether or not they change a result.",
}
DEFAULT = ("Searches generated cases, in an optimised build and (a share of them) under address and overflow sanitizers; a failure is shrunk and saved as a replay. "
           "Assurance is that of the explored cases, counted in the evidence file; it trusts the oracle written in /verif and the compiler.")


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                           "technique": TECH[i], "level": CHECKS[i].get("level", "exploration"), "level_note": NOTE.get(i, DEFAULT)})
        else:
            na.append({"property": i, "reason": "no check built yet"})
    m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
         "notes": "No hooks: everything is observed through public headers, applications and files. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
