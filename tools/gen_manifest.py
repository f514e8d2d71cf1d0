#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("hostile-input monitoring of the real parser: generated, mutated and fault-injected byte streams under panic, hang (processor time), address-space and allocation-volume monitors",
         "Sampled inputs (structured mutations, adversarial numbers, corrupt and nested archives). Hang means 90 s of processor time for a case that needs milliseconds."),
 "C02": ("reference-model monitor over generated headers: an independent writer produces the header, the reported metadata is compared field by field",
         "Sampled headers; calendar, forecast and W-product boundaries, field permutations and every subset of optional fields are covered systematically. Labels equal to header field names and years beyond 2068 are outside the property."),
 "C03": ("negative-input monitor: one defect planted in an otherwise valid file, an error is demanded, and a control without the defect has to be accepted",
         "Defects of a fixed list of kinds at sampled positions and values."),
 "C04": ("reference-model monitor over decoded pixels: all 65536 words under every precision and unit class, plus generated grids with a unique value per position",
         "Word decoding is exhaustive; grid shapes and positions are sampled."),
 "C05": ("reference-model monitor over decoded pixels: all 256 bytes under every precision and unit class, plus generated grids with a unique value per position",
         "Byte decoding is exhaustive; grid shapes and positions are sampled."),
 "C06": ("reference-model monitor over generated run-length rows: an independent interpreter predicts every pixel or the rejection",
         "Sampled rows, level tables and overflow positions; all run bytes and offset bytes occur."),
 "C07": ("reference-model monitor over declared length, dimensions, level table and payload combinations",
         "Declared lengths around every boundary of every sampled shape; the payload is chosen independently of the header."),
 "C08": ("fault injection: every cut position of generated files through faulty readers, with an error-must-be-reported oracle",
         "Every cut position of small files, sampled positions of large ones, several error kinds and delivery modes."),
 "C09": ("metamorphic monitor: the same bytes through many reader behaviours, results compared bit by bit",
         "Sampled partitions, all single split points of small files, trailing bytes of several kinds."),
 "C10": ("invariant monitor over composites: storage identity by writing canaries, coordinates in and far outside the data",
         "Sampled shapes, every catalogued local product, extreme coordinates."),
 "C11": ("reference-model monitor over all product labels, with and without declared dimensions",
         "Every catalogued product and all two-character alphanumeric labels (sampled in the quick tier for the rest of the byte range)."),
 "C12": ("fault injection and reference-model monitor over generated archives, own bzip2 writer; corrupted and cut at every kind of position",
         "Sampled archives; every cut of small archives; bit flips over the whole compressed stream."),
 "C13": ("differential monitor against an independent double-precision implementation of the DWD definition, over all grids and resolutions",
         "Sampled coordinates (dense over the grid, borders, extremes); tolerance 30 m in and around the grid."),
 "C14": ("differential monitor against an independent implementation of the ellipsoidal projection",
         "Sampled coordinates over the hemisphere, all resolutions and versions; tolerance one metre."),
 "C15": ("reference-model monitor over dimension pairs, versions, labels and both ways of construction",
         "All recognised pairs, their neighbours and multiples, an exhaustive block of small pairs, and sampled pairs."),
 "C16": ("reference-model and round-trip monitor over generated values and coefficients, neighbouring-float monotonicity",
         "Sampled values, including every representable RADOLAN reflectivity; single precision tolerance."),
 "C17": ("Go race detector over repeated concurrent workloads, plus comparison of each concurrent result with the sequential one",
         "Interleavings are sampled: rounds of many goroutines behind a barrier with random yields, fresh child processes for first-use races. A race is reported only if both accesses execute."),
 "C18": ("history monitor: the same call repeated inside generated histories, canaries on earlier results, input buffers and globals",
         "Sampled histories; bitwise comparison with the result in a fresh process state."),
 "C19": ("reference-model monitor over gradients: dense value scans, special values, ranges and compressions",
         "Sampled values and ranges; colours compared within two of 255 steps where interpolation is involved."),
 "C20": ("reference-model monitor over rendered images, colour functions that encode the value identity",
         "Sampled shapes, layers and colour functions; every pixel compared."),
 "C21": ("process-level monitor: the real program is run on generated files, and its PNG compared pixel by pixel with a reference picture",
         "Sampled products, units, intervals, grids, encodings; the mesh is compared with tolerance for accumulated rounding of its coordinates."),
 "C22": ("process-level fault injection: the real program on unreadable inputs and unwritable outputs inside a scratch directory, monitored for exit status, messages and file changes",
         "All kinds of input failure, sampled cut positions, several output situations."),
 "C23": ("leak and side-effect monitor: readers that notice late reads, goroutine counts and stacks, process state and output before and after, memory in use over many dropped results, calls while others are blocked or nested",
         "Sampled inputs, ends and nestings; a goroutine that remains for 10 s counts as left behind, a call without result for 120 s as blocked."),
}
M = {"version": 1, "setup_cmd": "python3 -c \"compile(open('check.py').read(), 'check.py', 'exec')\"",
     "checks": [], "not_applicable": [],
     "notes": "No hooks: every property is observable through the exported API, the process interface or the race detector. "
              "check.py copies /repo to a scratch directory, builds it with harness/ (own build cache) and removes everything afterwards."}
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    t, n = T[i]
    M["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n})
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
