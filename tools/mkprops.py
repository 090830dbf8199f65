"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["src/torchrir/" + f for f in files],
                               mechanism=[dict(name=n, where="src/torchrir/" + w) for n, w in mech])))

p("C01", "Archive extraction never writes outside its destination",
  "Unpacking a dataset archive either creates files only inside the destination directory or raises without having extracted anything. Absolute names, parent-directory names, names that merely share the destination's prefix, and symbolic or hard links are all refused, and the whole archive is checked before the first member is written.",
  ["inputs"], "every archive: member names, member types and member order",
  "Tests try a handful of member names; any archive a mirror serves can reach this code.",
  ["datasets/_archive.py", "datasets/cmu_arctic.py", "datasets/librispeech.py"],
  [("safe_extractall", "datasets/_archive.py"), ("extract_dataset", "datasets/_archive.py")])
p("C02", "A partial download is never mistaken for the dataset archive",
  "Dataset downloads are written under a temporary name and take the archive's final name only after the transfer has been written out and closed and its length has been compared with the announced length. If the transfer fails or is interrupted no file with the final name appears, and after the allowed number of retries the error reaches the caller.",
  ["fault_sequences", "crash_points"], "every point at which the transfer, the process or the disk can fail, and every server reply length",
  "Tests have no network: the download path is not executed at all by the suite.",
  ["datasets/cmu_arctic.py", "datasets/librispeech.py"],
  [("_download_and_extract", "datasets/cmu_arctic.py"), ("_download_and_extract", "datasets/librispeech.py")])
p("C03", "An interrupted extraction never passes as a complete dataset",
  "A dataset directory counts as present only if its extraction completed: the archive is unpacked in a staging location and the finished tree is moved into place in one step, so a failure or crash during extraction leaves no directory that a later run accepts as the dataset.",
  ["crash_points", "fault_sequences"], "every crash or failure point during extraction",
  "Tests use complete archives only; crash points cannot be sampled by a unit test of the success path.",
  ["datasets/_archive.py", "datasets/cmu_arctic.py", "datasets/librispeech.py"],
  [("extract_dataset", "datasets/_archive.py")])
p("C04", "No network access unless download was requested",
  "Opening a dataset, listing it, loading audio, simulating or building data contacts the network only when the caller asked for download. If the dataset is missing and download was not requested, an error naming the problem is raised instead.",
  ["configurations", "inputs"], "every public entry point and every option combination",
  "Tests exercise a few constructors; absence of a network call on all other paths cannot be sampled.",
  ["datasets/cmu_arctic.py", "datasets/librispeech.py", "datasets/utils.py", "datasets/dynamic_cmu_arctic.py"],
  [("CmuArcticDataset", "datasets/cmu_arctic.py"), ("LibriSpeechDataset", "datasets/librispeech.py")])
p("C05", "Existing output data is deleted only on explicit overwrite",
  "Building a dynamic dataset deletes existing files only inside the dataset directory it was asked to build, and only when overwriting was explicitly requested; otherwise a non-empty target is refused. All option validation happens before anything is deleted.",
  ["configurations", "inputs"], "every combination of options and every existing directory content",
  "Tests use fresh temporary directories with valid options.",
  ["datasets/dynamic_cmu_arctic.py"], [("build_dynamic_cmu_arctic_dataset", "datasets/dynamic_cmu_arctic.py")])
p("C06", "Inputs handed in by the caller are never modified",
  "No public function modifies the tensors, arrays, lists or dictionaries the caller passes in, nor any object reachable from them: neither in place through a view or a conversion that shares memory, nor by storing into their elements or attributes.",
  ["inputs", "histories"], "every public function and every argument",
  "Tests compare outputs, hardly ever the inputs after the call; aliasing depends on dtype, device and shape.",
  ["sim/ism/api.py", "signal/static.py", "signal/dynamic.py", "geometry/sampling.py", "models/room.py", "datasets/collate.py", "io/metadata.py"],
  [("simulate_rir", "sim/ism/api.py"), ("DynamicConvolver", "signal/dynamic.py")])
p("C07", "Results do not depend on earlier calls in the process",
  "Simulation and convolution results depend only on the arguments of the call, never on which calls were made earlier in the process: every value kept between calls is looked up by everything it was computed from and is never changed after it was stored.",
  ["histories", "schedules"], "every sequence of earlier calls with other lengths, granularities, dtypes and devices",
  "A stale cached table shows only for particular pairs of calls in one process; each test runs one or two.",
  ["sim/ism/accumulate.py"], [("_get_sinc_lut", "sim/ism/accumulate.py"), ("_get_accumulate_fn", "sim/ism/accumulate.py")])
p("C08", "Seeded operations are reproducible and leave global random state alone",
  "All randomness comes from a generator derived from the caller's seed or random source: equal seeds and inputs give equal outputs, and the global random state of Python, NumPy and PyTorch is neither read nor changed. Nothing whose order the platform does not fix (sets, hashes, directory listings) decides the content or order of a result.",
  ["inputs", "histories", "configurations"], "every seed, process and file-system order",
  "A test on one machine sees one directory order and one hash seed, and cannot observe the global random state of every path.",
  ["sim/ism/diffuse.py", "geometry/sampling.py", "datasets/utils.py", "datasets/dynamic_cmu_arctic.py", "datasets/librispeech.py"],
  [("_apply_diffuse_tail", "sim/ism/diffuse.py"), ("load_dataset_sources", "datasets/utils.py")])
p("C09", "Explicit arguments win, configuration fills the rest, nothing is ignored",
  "In static and dynamic simulation an explicitly passed order, length, directivity or device is used as given, the configuration supplies what was not passed, and contradictory order or duration between simulator and configuration is refused. The simulator object forwards every one of its options to the engine, and every configuration option has an effect somewhere.",
  ["configurations"], "every combination of set and unset arguments, simulator options and configuration values",
  "The combinations are a product of a dozen options; tests pick a few.",
  ["sim/ism/validate.py", "sim/ism/api.py", "sim/simulators.py", "config.py"],
  [("_resolve_config", "sim/ism/validate.py"), ("ISMSimulator.simulate", "sim/simulators.py")])
p("C10", "Models reject physically meaningless values on every construction path",
  "A room, source, microphone array, scene, simulator or validated configuration can only exist with valid values: finite positive size, positive finite sampling rate and sound speed, reflection coefficients finite and in [0, 1] with one per wall, positive T60 not combined with coefficients, finite positions and orientations of matching dimension, trajectories matching entity and step counts, non-negative order and seed, positive lengths and chunk sizes, odd filter length. The same rules hold for the constructor, the factory functions and the copy-with-changes methods, and model objects are immutable.",
  ["inputs", "histories"], "every value of every field, through every constructor and replace method",
  "Tests try one bad value per field at most, through one construction path.",
  ["models/room.py", "models/scene.py", "config.py", "sim/simulators.py"],
  [("Room.__post_init__", "models/room.py"), ("DynamicScene", "models/scene.py"), ("SimulationConfig.validate", "config.py")])
p("C11", "Results keep the requested or inferred device and dtype",
  "Simulation output uses the requested device and dtype or else those of the inputs, convolution output and filtered responses use those of their input, and every helper tensor is created on that device and in that dtype, so no path mixes devices or silently changes precision.",
  ["inputs", "configurations"], "every dtype and device the inputs and options can carry",
  "The suite runs on a CPU with float32 almost everywhere; other devices are not available to it.",
  ["sim/ism/api.py", "sim/ism/accumulate.py", "sim/ism/hpf.py", "sim/ism/diffuse.py", "signal/static.py", "signal/dynamic.py", "util/acoustics.py"],
  [("simulate_rir", "sim/ism/api.py"), ("infer_device_dtype", "util/device.py")])
p("C12", "Integer-valued geometry means the same as floating-point geometry",
  "Positions, room sizes, trajectories, orientations and array parameters given as integers lead to the same results as the same numbers given as floats: integers are promoted to floating point before any arithmetic and nothing is truncated.",
  ["inputs"], "every geometry argument given as Python ints or integer tensors",
  "Tests write geometry as float literals.",
  ["util/tensor.py", "util/device.py", "models/room.py", "models/scene.py", "util/acoustics.py", "geometry/arrays.py"],
  [("as_float_tensor", "util/tensor.py"), ("DeviceSpec.resolve", "util/device.py")])
p("C13", "Degenerate geometry gives finite results or an error, never NaN",
  "Coincident source and microphone, zero-length directions, perfectly reflecting walls, zero-length trajectories and single-step trajectories either give finite numbers or are rejected with an error (the reverberation time of walls that absorb nothing is infinite); no division, logarithm or normalisation in the geometry and simulation code can be reached with a zero denominator.",
  ["inputs"], "every position, direction, reflection coefficient and step count",
  "Coincidences have measure zero in sampled geometry and tests place sources apart.",
  ["sim/ism/contributions.py", "sim/ism/helpers.py", "util/orientation.py", "util/acoustics.py", "geometry/arrays.py", "geometry/trajectories.py"],
  [("_compute_image_contributions_batch", "sim/ism/contributions.py"), ("normalize_orientation", "util/orientation.py")])
p("C14", "Simulated responses follow the image-source law",
  "For every image index the simulator places the image by alternate mirroring in the walls of the box, delays it by distance over sound speed, and attenuates it by one over the distance times each wall's coefficient raised to the number of reflections at that wall. The images used are exactly those with total reflection count up to the requested order (or the full requested per-axis grid), each exactly once.",
  ["inputs"], "every room, position, coefficient set, order and image index",
  "Tests compare a few rooms against stored behaviour; the law quantifies over real-valued geometry and all image indices.",
  ["sim/ism/images.py", "sim/ism/contributions.py", "sim/ism/api.py"],
  [("_image_source_indices", "sim/ism/images.py"), ("_image_positions_batch", "sim/ism/images.py"), ("_reflection_coefficients", "sim/ism/images.py")])
p("C15", "Dynamic simulation equals static simulation at every time step",
  "For every time step the dynamic response equals the static response computed from that step's positions with the same options, and output axes are time, source, microphone and sample in that order, so that each response belongs to its own source and microphone.",
  ["inputs"], "every trajectory, entity count, time step, directivity and option",
  "Tests compare one stationary trajectory; axis mix-ups cancel when counts are one or geometry is symmetric.",
  ["sim/ism/api.py", "sim/ism/contributions.py", "sim/ism/prepare.py"],
  [("simulate_dynamic_rir", "sim/ism/api.py"), ("_compute_image_contributions_time_batch", "sim/ism/contributions.py")])
p("C16", "Fractional delays are interpolated at the exact arrival time",
  "Each arrival is written as a Hann-windowed sinc centred on its exact fractional sample position; the table-based and the direct evaluation sample the same function, table reads stay inside the table, and samples falling outside the response are dropped and never land in the response of another source or microphone.",
  ["inputs", "configurations"], "every arrival time, filter length, table granularity and response length",
  "Off-by-one reads or neighbouring-row writes appear only for arrivals near an edge or for particular filter lengths.",
  ["sim/ism/accumulate.py"], [("_accumulate_rir_batch_impl", "sim/ism/accumulate.py"), ("_get_sinc_lut", "sim/ism/accumulate.py")])
p("C17", "Performance options never change the result",
  "Image chunk size, accumulation chunk size, compilation and batching affect speed and memory only: every chunked loop covers each image exactly once, compiled functions are bound to the same constants as uncompiled ones, and batched convolution equals the sequential one.",
  ["configurations", "inputs"], "every chunk size and every number of images or steps, including non-divisible ones",
  "Tests use the default chunk sizes, where one chunk usually covers everything; compile and GPU paths never run.",
  ["sim/ism/api.py", "sim/ism/accumulate.py", "signal/dynamic.py"],
  [("simulate_rir", "sim/ism/api.py"), ("_accumulate_rir_batch_impl", "sim/ism/accumulate.py"), ("_convolve_dynamic_rir_trajectory_batched", "signal/dynamic.py")])
p("C18", "Directivity gains follow the documented patterns and reference directions",
  "Omni, half-omni, subcardioid, cardioid, hypercardioid and bidirectional gains follow their documented formulas for every angle, unknown patterns are rejected, the source pattern sees the direction from image to microphone, the microphone pattern sees the opposite direction, and a non-omni pattern without orientation is refused.",
  ["inputs"], "every pattern (and alias), angle, entity count and orientation form",
  "Tests check one or two patterns at single angles.",
  ["sim/directivity.py", "sim/ism/contributions.py", "util/orientation.py"],
  [("directivity_gain", "sim/directivity.py"), ("orientation_to_unit", "util/orientation.py")])
p("C19", "Room-acoustics estimates follow Sabine's formula and agree with each other",
  "Reflection coefficients estimated from T60 and T60 estimated from coefficients both follow Sabine's formula with the right wall areas in 2D and 3D, are inverse to each other away from the clamp, keep absorption within its physical range, and the image counts for a duration cover at least the distance sound travels in it.",
  ["inputs"], "every room size, T60, coefficient set and duration",
  "Tests check isolated numbers; wall areas pair up in cubic rooms.",
  ["util/acoustics.py", "sim/ism/helpers.py"],
  [("estimate_beta_from_t60", "util/acoustics.py"), ("estimate_t60_from_beta", "util/acoustics.py")])
p("C20", "Static convolution is the full linear convolution summed over sources",
  "Static convolution returns, for each microphone, the sum over sources of the full linear convolution of that source's signal with that source and microphone's response, of length signal plus response minus one and with no circular wrap-around. Mismatched source counts are rejected; a single signal is shared by all sources.",
  ["inputs"], "every signal length, response length, source and microphone count",
  "Wrap-around appears only for particular length sums; index mix-ups only for unequal source and microphone counts.",
  ["signal/static.py", "signal/internal.py"], [("convolve_rir", "signal/static.py"), ("fft_convolve", "signal/static.py")])
p("C21", "Dynamic convolution partitions the signal and convolves each part once",
  "Dynamic convolution splits the signal into one part per response (hop-long parts, the equal segments floor(t n/T), or the timestamp intervals; in hop mode samples after the last response's hop are not rendered) so that each rendered sample belongs to exactly one part, convolves each part with the matching time step, source and microphone, and adds the full tails at the part's own start. A single signal is shared by all sources. Timestamps that do not partition the signal, unknown modes and mismatched source counts are rejected.",
  ["inputs"], "every signal length, step count, hop, timestamp vector, source and microphone count",
  "Tests use equal divisions; boundary samples and non-divisible lengths are what breaks.",
  ["signal/dynamic.py", "signal/internal.py"], [("DynamicConvolver", "signal/dynamic.py")])
p("C22", "Audio load and save preserve samples, rate and channel layout",
  "Loading returns the file's own samples and sampling rate, with the first channel for multi-channel speech data, and saving writes exactly the given samples with the given rate to the given path; only when normalisation is requested is the level changed. The WAV functions accept only WAV files, named or declared, and reject everything else and unknown backends before touching the file system.",
  ["inputs"], "every path, suffix case, backend option, shape and rate",
  "Tests write and read one file; suffix and shape combinations are unbounded.",
  ["io/audio.py", "io/__init__.py", "io/outputs.py", "datasets/utils.py"], [("load_audio", "io/audio.py"), ("save_audio", "io/audio.py")])
p("C23", "Saved metadata describes the simulated scene and is plain JSON",
  "Metadata written next to an output reports the room, source, microphone, trajectory, timing and configuration values of the very objects it was given, each under its own name, and contains only JSON-native values whatever tensors, paths, devices or configurations those objects hold.",
  ["inputs"], "every scene type, optional field and extra entry",
  "Tests look at a few keys of one scene.",
  ["io/metadata.py"], [("build_metadata", "io/metadata.py"), ("save_metadata_json", "io/metadata.py")])
p("C24", "Attribution accompanies every use of licensed data",
  "Attribution for every supported dataset names that dataset, its source, its licence and licence address, the credit its licence requires, and the subset used; unknown datasets are refused. Saved attribution files carry every one of these fields under its own label together with the modification notes, which match what was done (static or dynamic), and an incomplete record is refused rather than written.",
  ["configurations"], "every dataset, option combination and scene",
  "Tests check one dataset.",
  ["datasets/attribution.py", "io/outputs.py", "datasets/librispeech.py", "datasets/cmu_arctic.py"], [("default_modification_notes", "datasets/attribution.py"), ("save_attribution_file", "io/outputs.py")])
p("C25", "Dataset loading yields signals of the promised length, rate and count",
  "Fixed-length sources have exactly the requested length, are built from whole consecutive utterances of one speaker at one sampling rate, and belong to as many distinct speakers as requested. Batch collation pads with the pad value to the longest item, keeps each item's content, length, order and metadata aligned, and refuses mixed sampling rates.",
  ["inputs"], "every utterance length, count, rate and batch composition",
  "Tests use one synthetic dataset with equal lengths and rates.",
  ["datasets/utils.py", "datasets/collate.py"], [("load_dataset_sources", "datasets/utils.py"), ("collate_dataset_items", "datasets/collate.py")])
p("C26", "Built dynamic scenes: mixture equals the stems, metadata equals the scene",
  "For every generated scene the saved mixture is the sum of the saved per-source signals at the same scale, all are cut to the same length, and the saved metadata, layout plot and video describe the very scene, trajectories and parameters that were simulated.",
  ["inputs", "configurations"], "every option combination, scene index and drawn random scene",
  "Tests build a scene or two with the simulator stubbed out.",
  ["datasets/dynamic_cmu_arctic.py"], [("build_dynamic_cmu_arctic_dataset", "datasets/dynamic_cmu_arctic.py")])
p("C27", "Files, figures, processes and temporary files are released on every exit",
  "Every file, network response, archive, temporary directory, temporary file and plot figure the library opens is closed or removed on every exit, including every exception.",
  ["fault_sequences", "crash_points"], "every operation that can fail between acquisition and release",
  "Tests run the success path.",
  ["viz/animation.py", "viz/io.py", "viz/scene.py", "datasets/_archive.py", "datasets/cmu_arctic.py", "datasets/librispeech.py"],
  [("animate_scene_mp4", "viz/animation.py"), ("save_scene_plots", "viz/io.py")])
p("C28", "Optional visual output never aborts the computation",
  "When static plots, animations, videos or layout images requested alongside a simulation cannot be produced, the failure is logged as a warning and the audio, metadata and remaining outputs are still produced.",
  ["fault_sequences", "configurations"], "every failure a plotting back end, encoder or missing dependency can raise",
  "Tests simulate one missing dependency.",
  ["viz/io.py", "datasets/dynamic_cmu_arctic.py"], [("render_scene_plots", "viz/io.py")])
p("C29", "Importing the package needs only its hard dependencies and has no side effects",
  "Importing any module of the package loads no optional dependency (plotting, scientific and video back ends), touches no file, network, random state or logging configuration, every advertised public name exists, and the stable package never imports the experimental one.",
  ["programs", "configurations"], "every module and every installation that lacks optional extras",
  "The test environment has all extras installed, so a stray import goes unnoticed.",
  ["__init__.py", "viz/__init__.py", "io/__init__.py", "experimental/__init__.py"], [("__all__", "__init__.py")])
p("C30", "Logging stays inside the package's own namespace",
  "Configuring logging affects only the package's own logger: it never touches the root logger, adding it twice does not duplicate output, the requested level applies to logger and handlers, unknown levels are refused, and every logger handed out lives below the package's logger.",
  ["histories", "configurations"], "every sequence of setup calls and every logger name",
  "Tests configure logging once in one process.",
  ["logging.py"], [("setup_logging", "logging.py"), ("get_logger", "logging.py")])
p("C31", "Unavailable devices fall back to the CPU with a warning",
  "Asking for an accelerator by name, with or without an index, on a machine that lacks it gives the CPU and a warning; automatic selection never returns an unavailable device; an available device is returned as requested.",
  ["configurations"], "every device string and every combination of available back ends",
  "The test machine has no accelerator, so only one availability combination runs.",
  ["util/device.py"], [("resolve_device", "util/device.py"), ("DeviceSpec.resolve", "util/device.py")])
p("C32", "Unsupported choices are rejected up front with an error",
  "An unsupported mode, pattern, speaker, subset, dataset name, plot type or dimension always raises an error before any file is written, anything is downloaded or any random number is drawn, and not-yet-implemented backends and datasets raise instead of returning something.",
  ["inputs", "configurations"], "every string or number outside the supported set",
  "Tests try one bad value for a few of the options.",
  ["datasets/cmu_arctic.py", "datasets/librispeech.py", "signal/dynamic.py", "datasets/dynamic_cmu_arctic.py", "experimental/simulators.py", "experimental/datasets.py"],
  [("CmuArcticDataset", "datasets/cmu_arctic.py"), ("DynamicConvolver.convolve", "signal/dynamic.py")])
p("C33", "Response post-processing touches only what it should",
  "The diffuse tail replaces only samples from the transition time on, scaled to the response's level there and decaying at the room's reverberation time, and leaves earlier samples untouched. High-pass filtering runs along time only, keeps shape, device and dtype, validates its cut-off against the sampling rate, and is skipped exactly when disabled.",
  ["inputs", "configurations"], "every response, transition time, room and filter option",
  "Tests check that the tail differs and that the filter runs.",
  ["sim/ism/diffuse.py", "sim/ism/hpf.py", "sim/ism/api.py"], [("_apply_diffuse_tail", "sim/ism/diffuse.py"), ("apply_rir_hpf", "sim/ism/hpf.py")])
p("C34", "Microphone-array generators produce the stated geometry",
  "Every array generator places exactly the requested number of microphones at the stated spacing, radius or offsets around the given centre and orientation, in 2D and 3D alike, and the mean of symmetric layouts is the given centre.",
  ["inputs"], "every count, spacing, radius, centre and orientation",
  "Tests check counts and one or two coordinates.",
  ["geometry/arrays.py"], [("linear_array", "geometry/arrays.py"), ("circular_array", "geometry/arrays.py")])
p("C35", "Sampled and clamped positions lie inside the room",
  "Positions sampled for a room keep the requested margin from every wall, keep the requested minimum distance and (whenever the room and the margin leave one) the requested height range, are returned in exactly the requested number or an error is raised, and clamping moves a position only when it violates the margin. Linear trajectories start at the start and end at the end point.",
  ["inputs"], "every room, margin, height range, distance, count and random stream",
  "Sampling tests see a few draws of one random stream.",
  ["geometry/sampling.py", "geometry/trajectories.py"],
  [("sample_positions_min_distance", "geometry/sampling.py"), ("clamp_positions", "geometry/sampling.py")])
p("C36", "Responses agree numerically with external reference simulators",
  "Simulated responses agree with those of established image-source simulators for the same room within a small numerical tolerance.",
  ["inputs"], "every room and option set both simulators support",
  "The reference simulators are not part of the test environment.",
  ["sim/ism/api.py"], [("simulate_rir", "sim/ism/api.py")])
p("C37", "Accelerator and CPU runs agree within rounding",
  "The same simulation or convolution gives the same values on CPU and accelerators up to floating-point rounding.",
  ["inputs", "configurations"], "every input on every supported device",
  "The test machine has no accelerator.",
  ["sim/ism/api.py", "signal/dynamic.py"], [("simulate_rir", "sim/ism/api.py")])
p("C38", "Sampled positions are uniformly distributed over the allowed region",
  "Random positions are drawn uniformly and independently over the allowed part of the room.",
  ["inputs"], "every random stream",
  "A distribution cannot be established from the few draws of a unit test.",
  ["geometry/sampling.py"], [("sample_positions", "geometry/sampling.py")])
p("C39", "Long simulations fit in bounded memory",
  "Peak memory of a simulation is bounded by the output plus a multiple of the chunk sizes, whatever the reflection order.",
  ["inputs", "configurations"], "every order, chunk size and entity count",
  "Tests use tiny rooms and do not measure memory.",
  ["sim/ism/api.py", "sim/ism/accumulate.py"], [("simulate_rir", "sim/ism/api.py")])
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
