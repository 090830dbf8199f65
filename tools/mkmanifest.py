"""Regenerate MANIFEST.json: one check per checks/cNN.py, everything else not_applicable with a reason."""
import ast, json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
NA = {
    "C36": "agreement with an external simulator's numbers quantifies over runtime floating-point results of two programs; no static argument over this source bounds it",
    "C37": "CPU/accelerator agreement depends on device kernels that are not part of this source; rounding on hardware cannot be bounded statically here",
    "C38": "uniformity is a statement about the distribution of the random generator's runtime output; the source only shows which generator is called (covered by C08, C35)",
    "C39": "peak memory is a runtime quantity of the allocator and of third-party kernels; no sound static bound is in reach",
}
checks, claimed = [], set()
for p in sorted((ROOT / "checks").glob("c[0-9]*.py")):
    pid = p.stem.upper()
    tree = ast.parse(p.read_text())
    doc = ast.get_docstring(tree) or ""
    tech = doc.split(":", 1)[1].strip().split("\n")[0] if ":" in doc else doc
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 -m vf.run {pid}",
        "thorough_cmd": f"python3 -m vf.run {pid} --thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "static analysis (gated value-flow graph): " + tech[:180],
        "level": "other",
        "level_note": "Sound only in the alarm direction: a VIOLATION names a construct the rule contradicts with every operand understood; "
                      "obligations the analysis cannot decide are listed as undecided in the evidence and are not counted as discharged. "
                      "Trusted: the Python parser, the documented semantics of torch/numpy/stdlib calls, honest annotations.",
    })
    claimed.add(pid)
props = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
na = [{"property": i, "reason": NA.get(i, "check still under construction")} for i in props if i not in claimed]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(ROOT / "MANIFEST.json", "w"), indent=1)
open(ROOT / "MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
