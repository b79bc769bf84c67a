"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "online monitor comparing the running library with a reference model"
T = {
 "G01": ("AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer (gcc and clang) on a workload with exact buffers, plus coverage-guided input", "every function, mode and capacity class on generated texts; all reachable lines of the library are executed"),
 "G02": (MODEL + " (exhaustive over byte strings of up to 3 bytes, guard pages)", "trusts the 30-line model of Table 3-7; the 4-byte space is covered over boundary bytes in the quick and completely in the thorough tier"),
 "G03": ("exhaustive encode/decode round-trip monitor with canaries and guard pages", "all code points, sampled larger values (all 2^32 in the thorough tier)"),
 "G04": ("metamorphic monitor (NUL-terminated against explicit length) with an inaccessible page behind the NUL", "sampled and enumerated texts; relation between two runs of the library, no model needed except for cut sequences"),
 "G05": ("metamorphic monitor (UTF-8 against code point variant)", "the decoder model decides what the bytes decode to; sampled and enumerated byte strings"),
 "G06": (MODEL + " of UAX #29 grapheme rules", "class strings enumerated to a depth, longer ones and periodic ones (around 2^7, 2^8, 2^16 periods) sampled; trusts the rule-by-rule model and /verif/ucd"),
 "G07": (MODEL + " of UAX #29 word rules", "class strings enumerated to a depth, longer ones and periodic ones (around 2^7, 2^8, 2^16 periods) sampled; trusts the rule-by-rule model and /verif/ucd"),
 "G08": (MODEL + " of UAX #29 sentence rules", "class strings enumerated to a depth, longer ones and periodic ones (around 2^7, 2^8, 2^16 periods) sampled; trusts the rule-by-rule model and /verif/ucd"),
 "G09": (MODEL + " of UAX #14", "class strings enumerated to a depth, longer ones and periodic ones (around 2^7, 2^8, 2^16 periods) sampled; trusts the rule-by-rule model and /verif/ucd"),
 "G10": ("invariant monitor on every returned offset", "enumerated and sampled texts and byte strings"),
 "G11": ("online monitor comparing two interfaces of the library along the same text, with state copies and resets", "enumerated and sampled texts, all code points beside every class"),
 "G12": (MODEL + " of default case conversion", "where the Final_Sigma condition can be read in two ways both are accepted"),
 "G13": ("buffer contract monitor: every capacity, canaries, guard pages", "enumerated capacities on enumerated and sampled texts"),
 "G14": ("metamorphic monitor (check against conversion)", "enumerated and sampled texts"),
 "G15": (MODEL + " of UAX #9", "class strings enumerated to a depth, structured deep ones sampled; trusts the rule-by-rule model and /verif/ucd"),
 "G16": (MODEL + " of UAX #9 L1, L2, L4 on line slices", "one known finding is recorded (mirroring at even levels)"),
 "G17": ("buffer contract monitor: every capacity, fill patterns, canaries, guard pages", "enumerated capacities on enumerated and sampled paragraphs"),
 "G18": ("ThreadSanitizer on concurrent calls, write-protected library data and inputs, comparison of results between fresh processes, orders, threads and memory contents", "the interleavings that occur; write protection excludes hidden static state on all executed paths"),
 "G19": ("exhaustive code point monitor against an independent UCD parser", "all 0x110000 code points in contexts that separate all classes the model can separate; larger values sampled"),
 "G20": ("data variation with monitors on the generated library, sanitized generators, repeated generation", "sampled variations of the data files within the generators' capacities"),
 "G21": ("execution without C library under a seccomp filter, stack high-water monitor, link-time symbol check", "x86-64 Linux; stack use measured for each of the 26 functions on growing texts of up to 66000 code points (functions of quadratic cost: 3000 to 20000)"),
 "G22": ("counting executed control-flow edges per call on growing adversarial texts, against bounds per function", "bounds are about six times what the present implementation needs; fixed and random text families"),
 "G23": ("comparison of recorded result digests between builds (compilers, optimisation levels, char signedness, archive, shared object, 64 and 32 bit) and of the generated tables", "one little-endian machine; generated texts"),
}
NA = {}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks = [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
               "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in props if p in T]
    na = [{"property": p, "reason": NA.get(p, "not yet built")} for p in props if p not in T]
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")
main()
