#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
TECH = {
 "C01": "ASan+UBSan and MSan on fuzzed files", "C02": "API monitor: decoded pixels against encoded ones, under ASan+UBSan",
 "C03": "message monitor over enumerated truncation points", "C04": "ASan+UBSan and MSan on generated bitmaps and options",
 "C05": "monitor of the returned spline structure", "C06": "monitor: outlines painted and compared with the bitmap",
 "C07": "monitor: distance between outlines and pixel boundaries", "C08": "monitor: topology of thinned strokes and their curves",
 "C09": "monitor: colour mapping before and after", "C10": "monitor: regions before and after, computed outcome of speckles",
 "C11": "cancellation at each poll index with allocation monitor", "C12": "monitor of the progress sequence",
 "C13": "monitor: results of call histories against fresh processes", "C14": "monitor: snapshots of arguments around every call",
 "C15": "allocation and descriptor monitor around every call cycle", "C16": "ASan+UBSan and MSan on generated spline sets, all writers",
 "C17": "offline checker parsing written files back", "C18": "offline checker parsing written polylines back", "C19": "offline checker of lengths, counts and offsets",
 "C20": "exit status monitor over enumerated faults, ASan+UBSan build", "C21": "differential monitor: command against library", "C22": "lookup monitor against a model of suffixes",
 "C23": "differential monitor: wrapper against library, ASan", "C24": "monitor: recoloured twin traces", "C25": "ThreadSanitizer and comparison with single-threaded results", "C26": "monitor: stored widths against a distance map",
 "C27": "monitor: the same drawing traced in two images", "C28": "monitor: splines against the corners of the regions", "C29": "monitor: joints and distance to the true ellipse", "C30": "API monitor against a model of bitmaps and colours",
 "C31": "recording handlers against a model of the registry, under ASan+UBSan", "C32": "monitor: the same bitmap traced with five pairs of thresholds", "C33": "monitor: results of calls with and without calls from their callbacks, ASan+UBSan and MSan",
 "C34": "monitor: one trace against the same stages in one trace each", "C35": "monitor: bytes sent to files, pipes and streams without positions", "C36": "monitor: twin calls that differ in options not in use",
 "C39": "monitor: corners with and without removal of adjacent ones",
 "C38": "monitor: splines of one bitmap at several error thresholds and smoothings",
 "C37": "monitor: metrics and dots of UGS files against the GF font, under ASan+UBSan",
}
m = {"version": 1, "setup_cmd": "python3 lib/vbuild.py asan msan tsan",
     "hooks": {"guard": "none: every monitor sits at the public interface, /repo has no hook code", "enable": "not needed; the checks compile /repo's sources with sanitizers", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "One harness binary per sanitizer (harness/), driven by lib/vrun.py in parallel workers. bin/check ID decides one property; see DESIGN.md."}
NOTE = {"exploration": "random and structured cases bounded by count, every one decided by the monitor; cases not generated are not covered",
        "fault_enumeration": "every fault point of each generated workload up to a bound, sampled beyond it; workloads are generated"}
for p in props:
    if p["id"] in checks.CHECKS:
        fn, level = checks.CHECKS[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 bin/check " + p["id"], "thorough_cmd": "python3 bin/check " + p["id"],
                            "technique": TECH[p["id"]], "level": level, "level_note": NOTE[level], "evidence_file": "evidence/%s.json" % p["id"]})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [p["id"] for p in props if p["id"] not in checks.CHECKS])
