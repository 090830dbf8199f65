"""Write DESIGN.md from the property list, the notes below and the planted bugs."""
import json, pathlib, ast
R = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]
man = json.loads((R / "MANIFEST.json").read_text())
na = {x.get("property", x.get("id")): x["reason"] for x in man["not_applicable"]} if man["not_applicable"] and isinstance(man["not_applicable"][0], dict) else {}

# property: (oracle, bounds and limits, why beyond the tests)
N = {
"C01": ("A member name/link validation must dominate every extraction; the validation is replayed by constant propagation on six classes of hostile names (absolute, dot-dot, symbolic and hard links, sibling prefix, destination). The decision is made on the member loop in any of its usual forms (a loop, a comprehension, `any`/`all`).", "Classes of names, not all strings; an unknown validation helper and a validation loop of another form are undecided.", "Tests use a handful of archives."),
"C02": ("Typestate write-temp, close, compare length, rename; the length comparison is folded on concrete transfers (complete, short by one, short by more, empty, longer).", "Streams and servers are opaque; a missing length header is the caller's risk.", "Crash and truncation points are not sampled by tests."),
"C03": ("Extraction goes to a fresh scratch tree and becomes visible by one rename to the directory whose existence means 'complete'.", "One process; file-system atomicity of rename assumed.", "Crash points."),
"C04": ("Effect analysis with 'download not requested': no network effect on any path.", "Network effects are a list of library calls; an unknown external call is undecided.", "Every path, not those a test takes."),
"C05": ("Deletions are located lexically inside the target directory, are dead without overwrite, and no option-only error is reachable after one. The save path is also evaluated on small abstract file-system worlds (absent, empty, with a foreign file, with an older result; with a foreign or an older subdirectory), with and without overwrite.", "Deleting an empty target without overwrite is allowed.", "Option combinations and error orders."),
"C06": ("Ownership roots of every in-place target reachable from a public function.", "Containers and attributes the object itself owns are excepted.", "Aliasing through views depends on shapes, strides and dtypes of the input."),
"C07": ("Stores into anything kept between calls must be determined by their key.", "Scope sim, signal, geometry, util, models, config; compiled functions are judged by the values they capture.", "Histories of calls."),
"C08": ("Provenance of every generator seed, of order and of clock/hash/uninitialised values.", "Sets of integers, loops that pick one element and fork_rng are undecided.", "Histories, process-wide state."),
"C09": ("Noninterference between a configuration value and the result when the argument is given, and the converse.", "directivity and device, when given, are taken to be truthy; contradictions cover max_order and tmax. Two genuine findings are recorded.", "All option combinations."),
"C10": ("Abstract values of classes (sign, zero, NaN, infinite, odd/even, wrong shape) pushed through every construction path.", "Infinite T60 or tmax, and configuration validation at the simulator's entry, are not covered; unknown external calls on a parameter are undecided.", "Every field, every construction path."),
"C11": ("A symbolic place (requested, inherited, fixed) per tensor.", "Operations mixing two inputs are undecided; the sampling helpers are float32 by contract; MPS branches and mixed precision are taken to be off; at most six split conditions are explored both ways.", "Needs an accelerator at run time; statically it needs none."),
"C12": ("Every geometry parameter integer in turn; the value-flow graph searched for truncation.", "Image counts are integers by contract; as_tensor, ensure_dim and extend_size keep the type by contract.", "Each parameter, each consumer."),
"C13": ("The extracted scalar expressions of the results are evaluated under floating-point division rules at the degenerate inputs (coincident points, zero directions, walls that reflect everything, one step), and errors are followed through their path conditions.", "A fixed list of degenerate inputs per function; an infinite T60 for walls that absorb nothing is right; a Python ZeroDivisionError counts as an error. Non-positive room sizes in estimate_image_counts_from_tmax are outside.", "Coincidences have measure zero."),
"C14": ("The image-source law as a normal form in four parity/sign cases per axis.", "Replacing floor by truncation where both agree is accepted.", "All rooms, positions, coefficients and orders symbolically."),
"C15": ("Dynamic arrival terms against static ones at every symbolic time, and the stages applied after the accumulation (tail, filter, cut) against each other.", "None besides those of C14.", "All trajectories."),
"C16": ("Kernel law and interval bounds of table reads.", "The delay length is odd by contract; the test target >= 0 is implied by the others, so dropping it is quiet.", "All delays and table sizes."),
"C17": ("Loop coverage and independence of performance options.", "Equality is of the exact terms, not of float rounding.", "All chunk sizes."),
"C18": ("Documented gains and their application per orientation form.", "Known: the alias 'omnidirectional' still asks for an orientation (recorded here, not claimed).", "All patterns x forms."),
"C19": ("Sabine's formula in canonical form.", "Rounding is not modelled.", "All sizes and coefficients."),
"C20": ("Full linear convolution on symbolic indices.", "The FFT is taken as exact.", "All shapes and lengths."),
"C21": ("Partition law per mode, including time stamps that start after zero or repeat.", "Hop mode does not render samples after the last response (documented behaviour).", "All lengths, steps and time stamps."),
"C22": ("Element-wise comparison with the file's or caller's samples; name and format gates folded on a finite list of names.", "The mutable default back end is exercised through the explicit back-end argument; layouts 1, 2, (8), 9, (32) channels at 48000 frames and the small square-ish ones 2x2, 4x3; guards against division by less than 1e-9 are ignored.", "All samples, rates and levels; suffix cases."),
"C23": ("Each metadata entry against the field of the object it names; type flow to JSON kinds; empty and absent optional fields are taken apart; axis spacings and static time stamps are compared with the documented value.", "Moving scenes with five steps, counts symbolic; unknown container kinds undecided.", "All optional-field combinations."),
"C24": ("Facts of the public licence pages, per host, in the check.", "The builder itself does not write attribution (the statement was corrected).", "Records with fields missing."),
"C25": ("Loop invariants of the loaders; symbolic collation.", "Requested length means int(duration x rate); a speaker whose utterances are all empty loops for ever (recorded, not claimed); in-place reordering undecided; collation on three symbolic items.", "Utterance lengths and rates are unbounded."),
"C26": ("Every value handed to simulator, convolution, files and metadata compared with the builder's stated geometry.", "Three sources, two scenes, six microphones; quick: drawn sets {0,2} and {}, and a fixed {1}; thorough: all eight sets, drawn and fixed. Time-line regions at representative points; draws symbolic; an array aliased by a second local name and then written is not followed; int(rate) against int(duration x rate) undecided.", "Random outcomes and step counts."),
"C27": ("Resource typestate over exceptional exits.", "add_subplot on a fresh figure, repeated imports and releases are taken not to fail; files kept on normal exits are outputs.", "Faults at every call."),
"C28": ("Exceptional control flow of the output helpers and the builder.", "Several outputs inside one helper may share a fate if a picture is still produced.", "Faults at every call."),
"C29": ("Enumeration of what import executes.", "Re-exports are resolved by name.", "Environments without optional packages."),
"C30": ("Typestate of loggers.", "The command-line entry point is excepted: it configures the root logger on purpose.", "Histories of configuration calls."),
"C31": ("Constant propagation of every device name under every set of back ends.", "CUDA and MPS; not xpu and others.", "Machines with other back ends."),
"C32": ("Feasibility under 'the choice is none of the supported names'.", "Choices not in use are not checked; the attribution subset is informational; loops run at least once; creating a folder before an animation's view check is ignored.", "All other strings."),
"C33": ("Law of the diffuse stage and the filter; the wall order and the operands of the decay constant.", "The cut-off error duplicates SciPy's own.", "All lengths, rates and cut-offs."),
"C34": ("Stated geometry of each array.", "Normalising per vertex or by the largest norm is equivalent on regular solids.", "All counts, radii and centres."),
"C35": ("Exact linear inequalities over margin and room size; acceptance tests combined by and/or, and min/max reductions over the axes, are bounded on both sides.", "float32 rounding at the boundary is not modelled.", "Every random stream."),
}

BUGS = {}
for d in sorted((R / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    BUGS.setdefault(m["property"], []).append((d.name, m["needs"]))

o = []
w = o.append
w((R / "tools" / "design_head.md").read_text())
w("## Per-property plan\n")
w("Each entry: what is decided and against what, its limits, why the tests cannot reach it, and the planted bugs its check catches (all of them are caught; each was confirmed to build, to pass the 68 tests and to fail its demonstration).\n")
for p in props:
    i = p["id"]
    w(f"### {i} {p['title']}\n")
    if i in N:
        doc = " ".join(ast.get_docstring(ast.parse((R / "checks" / f"{i.lower()}.py").read_text())).split())
        doc = doc[5:] if doc.startswith(i + ": ") else doc
        a, b, c = N[i]
        w(f"*Method.* {doc[0].upper() + doc[1:]}\n\n*Oracle.* {a}\n\n*Limits.* {b}\n\n*Beyond the tests.* {c}\n")
        for n, s in BUGS.get(i, []):
            w(f"- `{n}`: needs {s}")
        w("")
    else:
        w(f"Not applicable: {na.get(i, '')}\n")
w((R / "tools" / "design_tail.md").read_text())
(R / "DESIGN.md").write_text("\n".join(o).rstrip() + "\n")
print(sum(len(x) for x in BUGS.values()), "bugs;", [p["id"] for p in props if p["id"] not in N])
