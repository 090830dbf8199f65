DF, SA, UT, DY, LS, CM, ME, API = "sim/ism/diffuse.py", "geometry/sampling.py", "datasets/utils.py", "datasets/dynamic_cmu_arctic.py", "datasets/librispeech.py", "datasets/cmu_arctic.py", "io/metadata.py", "sim/ism/api.py"
GEN = "    gen = torch.Generator(device=rir.device)\n    gen.manual_seed(0 if seed is None else seed)\n"
DRAW = "    noise = torch.randn(\n        rir[..., tdiff_idx:].shape, device=rir.device, dtype=rir.dtype, generator=gen\n    )\n"
PT = "        point = [rng.uniform(low[i], high[i]) for i in range(dim)]\n        coords.append(point)\n    return torch.tensor(coords"
RNG = "    rng = np.random.default_rng(seed)\n    rng_py = random.Random(seed)\n"
SPK = "        return sorted([p.name for p in self._subset_dir.iterdir() if p.is_dir()])\n"
TR = 'sorted(search_root.rglob("*.trans.txt"))'
WAV = "        return [s for s in self.sentences() if s.utterance_id in wav_ids]\n"
SAMP = "    return rng.sample(speakers, num_sources)\n"
CASES = [
    ("noseed", "V", [(API, "tdiff, tmax, seed=cfg.seed)", "tdiff, tmax)")]),
    ("constseed", "V", [(DF, GEN, GEN.replace("0 if seed is None else seed", "0"))]),
    ("hashseed", "V", [(DF, GEN, GEN.replace("0 if seed is None else seed", "hash(str(room.size)) % 1000 if seed is None else seed"))]),
    ("timeseed", "V", [(DF, "import math\n", "import math\nimport time\n"), (DF, GEN, GEN.replace("0 if", "int(time.time()) if"))]),
    ("unseeded", "V", [(DF, GEN, "    gen = torch.Generator(device=rir.device)\n")]),
    ("late", "V", [(DF, GEN + DRAW, GEN.split("\n")[0] + "\n" + DRAW + GEN.split("\n")[1] + "\n")]),
    ("nogen", "V", [(DF, ", generator=gen\n", "\n")]),
    ("manual", "V", [(DF, GEN, "    torch.manual_seed(0 if seed is None else seed)\n"), (DF, ", generator=gen\n", "\n")]),
    ("optgen", "V", [(DF, GEN, "    gen = None if seed is None else torch.Generator(device=rir.device).manual_seed(seed)\n")]),
    ("pyglobal", "V", [(SA, PT, PT.replace("rng.uniform", "random.uniform"))]),
    ("ownrng", "V", [(SA, "    coords: List[List[float]] = []\n    for _ in range(num):\n        point = [rng", "    coords: List[List[float]] = []\n    rng = random.Random(0)\n    for _ in range(num):\n        point = [rng")]),
    ("sharedrng", "V", [(SA, "def sample_positions(\n", "_RNG = random.Random(0)\n\n\ndef sample_positions(\n"), (SA, PT, PT.replace("rng.uniform", "_RNG.uniform"))]),
    ("reseed", "V", [(SA, PT, PT.replace("        point = [", "        rng.seed()\n        point = ["))]),
    ("npglobal", "V", [(DY, "        slot_indices = rng.permutation(n_sources)", "        slot_indices = np.random.permutation(n_sources)")]),
    ("pynone", "V", [(DY, RNG, RNG.replace("random.Random(seed)", "random.Random()"))]),
    ("pyconst", "V", [(DY, RNG, RNG.replace("random.Random(seed)", "random.Random(42)"))]),
    ("npdirseed", "V", [(DY, RNG, RNG.replace("default_rng(seed)", "default_rng(abs(hash(str(dataset_root))))"))]),
    ("rglob", "V", [(LS, TR, 'search_root.rglob("*.trans.txt")')]),
    ("rglobname", "V", [(LS, TR, 'sorted(search_root.rglob("*.trans.txt"), key=lambda p: p.parent.name)')]),
    ("iterdir", "V", [(LS, SPK, SPK.replace("sorted([", "[").replace("])", "]"))]),
    ("setspk", "V", [(LS, SPK, "        return list({p.name for p in self._subset_dir.iterdir() if p.is_dir()})\n")]),
    ("cmuset", "V", [(CM, "    return sorted(VALID_SPEAKERS)\n", "    return list(VALID_SPEAKERS)\n")]),
    ("globsent", "V", [(CM, WAV, '        text = {s.utterance_id: s for s in self.sentences()}\n        return [text[p.stem] for p in self.audio_dir.glob("*.wav") if p.stem in text]\n')]),
    ("sampset", "V", [(UT, SAMP, "    return rng.sample(list(set(speakers)), num_sources)\n")]),
    ("loopdraw", "V", [(UT, "    for speaker in speakers:\n", "    for speaker in set(speakers):\n")]),
    ("empty", "V", [(API, "    rir = torch.zeros(", "    rir = torch.empty(")]),
    ("default", "V", [(SA, "    rng: random.Random,\n    margin: float = 0.5,\n) -> Tensor:\n    \"\"\"Sample random positions within", "    rng: random.Random = random.Random(0),\n    margin: float = 0.5,\n) -> Tensor:\n    \"\"\"Sample random positions within")]),
    ("stamp", "V", [(ME, "def build_metadata(", "def _now() -> float:\n    import time\n\n    return time.time()\n\n\ndef build_metadata("), (ME, '        "room": ', '        "created": _now(),\n        "room": ')]),
    ("intsort", "Q", [(DY, "        moving_index_set = set(moving_indices)\n        for src_idx", "        moving_index_set = frozenset(sorted(moving_indices))\n        for src_idx")]),
    ("helper", "Q", [(DF, GEN, "    gen = _make(rir.device, seed)\n"), (DF, "def _apply_diffuse_tail(", "def _make(device, seed):\n    value = seed if seed is not None else 0\n    return torch.Generator(device=device).manual_seed(value)\n\n\ndef _apply_diffuse_tail(")]),
    ("seedif", "Q", [(DF, GEN, "    gen = torch.Generator(device=rir.device)\n    if seed is None:\n        seed = 0\n    gen.manual_seed(int(seed))\n")]),
    ("normal_", "Q", [(DF, DRAW, "    noise = torch.zeros_like(rir[..., tdiff_idx:]).normal_(generator=gen)\n")]),
    ("listsort", "Q", [(LS, SPK, "        names = [p.name for p in self._subset_dir.iterdir() if p.is_dir()]\n        names.sort()\n        return names\n")]),
    ("loopsort", "Q", [(LS, SPK, "        names = set()\n        for p in self._subset_dir.iterdir():\n            if p.is_dir():\n                names.add(p.name)\n        return sorted(names)\n")]),
    ("sortname", "Q", [(LS, SPK, "        return [p.name for p in sorted(self._subset_dir.iterdir(), key=lambda q: q.name) if p.is_dir()]\n")]),
    ("sortpath", "Q", [(LS, TR, 'sorted(search_root.rglob("*.trans.txt"), key=lambda p: (p.parent.name, str(p)))')]),
    ("oswalk", "Q", [(LS, TR, 'sorted(Path(d) / f for d, _, fs in os.walk(search_root) for f in fs if f.endswith(".trans.txt"))'), (LS, "import tarfile\n", "import os\nimport tarfile\n")]),
    ("exists", "Q", [(CM, WAV, "        return [s for s in self.sentences() if len({s.utterance_id} & wav_ids) == 1]\n")]),
    ("perm", "Q", [(UT, "        rng.shuffle(sentences)\n        idx = 0\n\n", "        sentences = rng.sample(sentences, len(sentences))\n        idx = 0\n\n")]),
    ("tmpname", "Q", [(DY, "import random\n", "import random\nimport time\n"), (DY, "        moving_index_set = set(moving_indices)\n        for src_idx", "        started = time.perf_counter()\n        logger.info(\"t %s\", time.perf_counter() - started)\n        moving_index_set = set(moving_indices)\n        for src_idx")]),
    ("emptyfill", "Q", [(API, "    rir = torch.zeros(", "    rir = torch.zeros(")]),
    ("uniqspk", "Q", [(UT, SAMP, "    return rng.sample(sorted(set(speakers)), num_sources)\n")]),
    ("derive", "Q", [(DY, RNG, "    rng_py = random.Random(seed)\n    rng = np.random.default_rng(np.random.SeedSequence(seed))\n")]),
]
