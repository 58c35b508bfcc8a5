#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = "TLA+ specification model-checked with TLC; histories generated from it replayed on the real code; recorded traces validated against it by TLC"
NOTE = {
    "C20": "Pipeline.tla (queue, workers, finishing and delivery orders, failures) model-checked, with termination; TLC-generated schedules imposed on the real pipelines with real forked workers, every callback, writer call and result checked against the sequential one.",
    "C21": "Faults.tla model-checked against the writer's failure handling; generated writing sessions repeated on devices failing at every byte, at the flush, at any seek and on real files, each run a behaviour of the specification.",
    "C24": "PyValues.tla (values, parts, snapshots, copies) model-checked; TLC-generated histories over the real bindings (compiled against a stand-in pybind11), loads in this and another process; the histories of the other specifications (PointStore with sequence operations, CopcWriter, LazSession, CopcReader, ConfigStore, Geometry, Codec) played once more through the Python interface.",
    "C25": "Values.tla (its laws model-checked); random values of every kind, whole multiples of 1/u so that results are exact, each answer of the C++ classes and of the Python interface decided by TLC.",
    "C22": "Codec.tla; generated sessions of compression and decompression in every form over every layout, with stream positions, flags and contents compared with the specification's.",
    "C01": "CopcWriter.tla explored exhaustively for small constants; TLC-generated and long random histories run on the real writer and reader, every result checked as a behaviour of the specification.",
    "C02": "Hierarchy part of LasFile.tla decided on the parsed bytes of files made from generated add/move histories.",
    "C04": "HeaderOk/VlrsOk/LayoutOk/ChunksOk of LasFile.tla decided by TLC on independently parsed COPC and LAZ files.",
    "C05": "Output digests sampled after completion and compared across writers that completed the same history in different ways.",
    "C06": "Histories in which about half of the operations are bad; every acceptance or refusal must be the specification's, and the file must be that of the accepted ones.",
    "C07": "Move-heavy histories with lookups after most steps; the finished hierarchy must be that of the final pages.",
    "C15": "LazSession.tla; histories of writes, refusals and completions, with counts and contents checked against the specification.",
    "C03": "MCReader.tla: lazy loading refines the answers of the complete file; files of every legal layout asked generated query sequences, every answer checked against CopcReader.tla.",
    "C13": "Geometry.tla and Queries.tla; every query answer on generated files compared with the set the specification selects.",
    "C14": "Validation of Queries.tla decides verdict and totals on files with points and nodes placed inside, on and outside every bound.",
    "C19": "The same content stored with its records in many placements; TLC demands the same configuration for all and the specified one for each.",
    "C23": "Files cut at every interesting point, poked headers, records and pages, and failing devices; every answer is an error or the one CopcReader.tla determines.",
    "C16": "ConfigStore.tla: heap of configurations, headers, extents, writers and files explored by TLC for non-interference; generated derivation histories run on the real classes, all live objects compared with the specification after each step.",
    "C17": "Extents.tla: dimensions set one at a time for every layout through every accessor, stored form and file; generated histories of set, derive, assign, write and read.",
    "C18": "ConfigStore.tla: generated field settings and texts of boundary lengths written to COPC and LAZ; the independently parsed file and the reader must hold the specification's values. Scaling checked exactly in scaled integers.",
    "C08": "PointStore.tla record layout as data; every generated record's bytes and packed coordinate validated by TLC at every field position.",
    "C09": "PointStore.tla: heap of points; TLC-generated and random histories of set/get/copy/convert/compare, every resulting state compared with the specification's.",
    "C10": "PointStore.tla: heap of collections; generated histories of additions, bulk writes, sharing and conversion, every resulting state compared.",
    "C11": "Keys.tla; chain, children, ancestry and hashing facts of generated and boundary keys decided by TLC from the recorded answers.",
    "C12": "Geometry.tla over a rank domain; the small lattice exhaustively, plus extreme, degenerate and two-dimensional boxes on the real code.",
}
NA = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] not in NOTE:
        NA.setdefault(p["id"], "no check built yet")
TRUST = " Trusted: TLC, the JSON driver, the independent file parser, and the laz-perf stand-in (the real codec isn't installed)."
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "checks": [{"property": k, "quick_cmd": "python3 run.py %s --tier quick" % k, "thorough_cmd": "python3 run.py %s --tier thorough" % k,
                 "evidence_file": "evidence/%s.json" % k, "technique": TR, "level": "model_checking", "level_note": v + TRUST} for k, v in sorted(NOTE.items())],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
