#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("structured and raw text fuzzing with crash, hang and determinism oracle", "Random Unicode, token soup, corrupted scenes, long runs and deep nesting; every case runs in a worker process, so stack overflow, abort and endless loops (by CPU time) count."),
 "C02": ("generated scenes, round trip against the generating model", "Random scene trees printed in random layouts; the parsed tree must equal the generated one."),
 "C03": ("generated parameter lists, round trip against the generating model", "All twelve parameter types, bare and bracketed, long and repeated; lists, names and values must equal the generated ones."),
 "C04": ("generated literals against exact decimal semantics", "Literals of every spelling, in every place a number may stand; compared with the exact value and the standard library's correctly rounded one."),
 "C05": ("generated strings, round trip through every escape spelling", "Arbitrary Unicode content in every string position, with every way of escaping."),
 "C06": ("generated scenes against positions recorded while printing", "Line and column of everything in the tree compared with what the layout engine recorded."),
 "C07": ("metamorphic: two random layouts of the same tokens", "Both texts must parse to the same tree, positions aside."),
 "C08": ("token- and character-level corruption against an independent reference recogniser", "A text the reference rejects must be rejected; one it accepts must parse to the reference's tree."),
 "C09": ("generated transform directives of every count against the arity table", "Every transform directive with 0 to well above the required count of numbers."),
 "C10": ("corruption with known offender position", "The first position in the error message compared with the offender found by the reference recogniser."),
 "C11": ("generated matrices against an exact rational inverse", "Forward error bound from the condition number; singular matrices must be refused."),
 "C12": ("generated matrices against exact integer algebra", "Products, sums, transposes, indexing in integers and exactly representable floats."),
 "C13": ("generated transforms and invert/transpose chains against exact inverses", "The stored pair must be mutually inverse up to a rounding bound."),
 "C14": ("generated transforms and vectors against exact linear algebra", "Transformation, constructors and classification, including single-entry deviations."),
 "C15": ("generated operands against exact component-wise algebra", "Exact on integers and dyadic floats, error bounds otherwise."),
 "C16": ("generated components against order-theoretic definitions", "Ties, signs, infinities and all index triples."),
 "C17": ("generated unit vectors and interpolations against defining equations", "Orthonormality, handedness and affine interpolation within rounding bounds, exact on dyadic values."),
 "C18": ("stateful generation: histories of box operations against an interval model", "Probe points on, next to and away from faces after every step."),
 "C19": ("generated boxes and points against exact measures", "Exact on integer-valued boxes, rounding bounds otherwise."),
 "C20": ("generated regions against a reference double loop", "The whole sequence of points, its end, and its staying ended."),
 "C21": ("stateful generation: histories of scalings against affine arithmetic", "Running error bound; exact on dyadic values."),
 "C23": ("generated pairs against equality of the contents read out", "Texts changed in one place (same length, so that only the contents differ), values changed by one unit in the last place."),
 "C22": ("generated coordinates through every conversion, NaN in any place", "Bitwise comparison; NaN detection and refusal."),
}
checks = []
for k, (tech, note) in sorted(T.items()):
    checks.append({
        "property": k,
        "quick_cmd": "python3 check.py %s" % k,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": "property-based testing with a coverage-guided share: " + tech,
        "level": "exploration",
        "level_note": note + " Fixed number of seeded cases in the f32 and the f64 build; absence of counterexamples among them, no proof. Trusts the oracle in the harness and the read-only hooks.",
    })
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "--cfg pbrtrs_verif", "enable": "RUSTFLAGS=\"--cfg pbrtrs_verif\" (harness/build.sh)", "source_commits": ["72e4c6d"]},
 "checks": checks,
 "not_applicable": [],
 "notes": "check.py --replay FILE runs a saved counterexample again. KNOWN_FINDINGS.txt lists the repaired defects; none is open.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
