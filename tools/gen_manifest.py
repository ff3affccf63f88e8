#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of deciding methods below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
GM = "stateful property-based testing (proptest histories, shrinking)"
T = {
 "G01": GM + ": planarity predicate on the stored graph after every step",
 "G02": GM + ": exact drawn set against an f64 reference arrangement after every insertion",
 "G03": GM + ": node and edge data against a reference model of splitting and deletion",
 "G04": GM + ": well-formedness invariant after every step, with invalid requests and arbitrary finite positions",
 "G05": GM + ": edge removal against a set model",
 "G06": GM + ": node removal against an order-preserving model",
 "G07": GM + ": reported changes against a slot-by-slot diff of the graph",
 "G08": GM + ": every lookup against the stored lists after every step",
 "G09": GM + ": refused and redundant requests must leave an identical graph",
 "G10": "metamorphic property-based testing: drawing order, direction and rigid motion, with a reference arrangement",
 "G11": "metamorphic stateful property-based testing: replayed histories, diverging copies, interleaved unrelated graphs, other data types",
 "P01": "property-based testing on generated simple polygons: exact reference of the stored order",
 "P02": "property-based testing: exact integer shoelace area; metamorphic start, orientation and cutting relations",
 "P03": "property-based testing: exact per-vertex reference for scaling, translation and center",
 "P04": "property-based testing: f64 reference for regular polygons",
 "P05": "property-based testing: exact integer reference test for internal diagonals",
 "P06": "property-based testing: exact validity predicate (partition, shared edges) over triangulations",
 "P07": "property-based testing: exact integer orientation reference and algebraic symmetries",
 "P08": "property-based testing: exact integer segment-intersection reference, all argument orders",
 "P09": "model-based stateful property-based testing: polygon histories against an exact integer model",
 "U01": "property-based testing: exact rational and conditioned f64 reference intersection, all argument orders",
 "U02": "property-based testing: exact rational and conditioned f64 reference for line intersection",
 "U03": "property-based testing: f64 reference constructions with rounding bounds",
 "U04": "property-based testing: constructed on/off points with an f64 distance oracle",
 "U05": "property-based testing: f64 side distances, exact collinearity oracle on integer triangles",
 "U06": "property-based testing: reference nearest-point scan and cluster-representative predicate",
 "U07": "property-based testing: constructed parallel and clearly non-parallel segments",
 "U08": "property-based testing: constructed points on and off lines in space",
 "A01": "property-based testing: reference 8-component Clifford algebra (exact on integers)",
 "A02": "property-based testing: componentwise reference model of every operator and assignment form",
 "A03": "property-based testing: f64 reference norms; inverse checked in the reference algebra",
 "A04": "property-based testing: reference rotation matrix in f64",
 "A05": "metamorphic property-based testing: composition, inverse and sandwich laws",
 "A06": "property-based testing: constructed vector pairs with known plane and angle",
 "A07": "property-based testing: Euclidean reference formulas in f64",
 "A08": "differential property-based testing: against componentwise approx comparison",
 "A09": "property-based testing over the whole stated range: Pascal triangle reference",
 "F01": "round-trip property-based testing of generated documents with an independent JSON reader",
 "F02": "property-based testing: generated files from an independent JSON writer in varied styles",
 "F03": "structured corruption fuzzing of generated files with an independent strict reader as oracle",
}
NOTE = {
 "G": "Search over generated histories, no proof of absence. Positions are finite; insertions whose separate features come within 256 f32 epsilons of each other are skipped (counted in the evidence). Node data is read through the nodes' Debug output.",
 "P": "Search over generated simple polygons (integer coordinates where predicates are exact, and f32 polygons in general position), no proof of absence.",
 "U": "Search over generated points; exact on integer inputs, within stated rounding bounds on floats. Trusts the f64/i128 reference in the harness.",
 "A": "Search over generated components (exact integers, f32, f64); trusts the reference algebra in the harness.",
 "F": "Search over generated documents and damages; trusts the harness's own JSON writer and strict reader. Files are written to a scratch directory.",
}
assert set(T) == {p["id"] for p in props}
m = {
 "version": 1,
 "setup_cmd": "./build.sh",
 "checks": [
  {
   "property": p["id"],
   "quick_cmd": "./check.sh %s quick" % p["id"],
   "thorough_cmd": "./check.sh %s thorough" % p["id"],
   "technique": T[p["id"]],
   "level": "exploration",
   "level_note": NOTE[p["id"][0]],
  }
  for p in props
 ],
 "not_applicable": [],
 "notes": "No hooks: everything is observed through the public API. Known and repaired defects: KNOWN_FINDINGS.txt. Saved failing inputs in regress/ are replayed first by every run.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
