CM, LS, DY, G, IO, BU, AT, DIR = "datasets/cmu_arctic.py", "datasets/librispeech.py", "signal/dynamic.py", "geometry/arrays.py", "io/__init__.py", "datasets/dynamic_cmu_arctic.py", "datasets/attribution.py", "sim/directivity.py"
SP = '''        if speaker not in VALID_SPEAKERS:
            raise ValueError(f"unsupported speaker: {speaker}")
'''
SU = '''        if subset not in VALID_SUBSETS:
            raise ValueError(f"unsupported subset: {subset}")
'''
MO = '''        if self.mode not in ("trajectory", "hop"):
            raise ValueError("mode must be 'trajectory' or 'hop'")
'''
PL = '''        else:
            raise ValueError("plane must be one of 'xy', 'xz', 'yz'")
'''
BA = '''    backend_name = name or _DEFAULT_AUDIO_BACKEND
    if backend_name not in _AUDIO_BACKENDS:
        raise ValueError(
            f"Unknown audio backend '{backend_name}'. Available: {sorted(_AUDIO_BACKENDS)}"
        )
    return _AUDIO_BACKENDS[backend_name]
'''
SB = '''    if name not in _AUDIO_BACKENDS:
        raise ValueError(
            f"Unknown audio backend '{name}'. Available: {sorted(_AUDIO_BACKENDS)}"
        )
    global'''
UN = '''    unsupported = [spk for spk in speakers_list if spk not in cmu_arctic_speakers()]
    if unsupported:
        raise ValueError(f"unsupported speakers: {unsupported}")
'''
TAIL = '    raise ValueError(f"unsupported directivity pattern: {pattern}")\n'
CASES = [
    ("nospeaker", "V", [(CM, SP, "")]),
    ("prefix", "V", [(CM, SP, SP.replace("speaker not in VALID_SPEAKERS", "not any(speaker.startswith(v) for v in VALID_SPEAKERS)"))]),
    ("onlydownload", "V", [(CM, "        if speaker not in VALID_SPEAKERS:\n", "        if download and speaker not in VALID_SPEAKERS:\n")]),
    ("latespeaker", "V", [(CM, SP, ""), (CM, "        if not self._dataset_dir.exists():\n            raise FileNotFoundError(\n                \"dataset not found", SP + "        if not self._dataset_dir.exists():\n            raise FileNotFoundError(\n                \"dataset not found")]),
    ("mkdirfirst", "V", [(CM, SP, "        (Path(root) / \"ARCTIC\").mkdir(parents=True, exist_ok=True)\n" + SP)]),
    ("subsetsubstr", "V", [(LS, "        if subset not in VALID_SUBSETS:\n", "        if subset not in \" \".join(VALID_SUBSETS):\n")]),
    ("subsetsplit", "V", [(LS, "        if subset not in VALID_SUBSETS:\n", "        if subset.split(\"-\")[0] not in (\"train\", \"dev\", \"test\"):\n")]),
    ("subsetwarn", "V", [(LS, "            raise ValueError(f\"unsupported subset: {subset}\")\n", "            logger.warning(\"unsupported subset: %s\", subset)\n")]),
    ("attrdefault", "V", [(AT, '    if key == "librispeech":\n', '    if key == "librispeech" or subset is not None:\n')]),
    ("modefall", "V", [(DY, MO, "")]),
    ("modesub", "V", [(DY, MO, MO.replace('("trajectory", "hop")', '"trajectory hop"'))]),
    ("modehop", "V", [(DY, MO, MO.replace('if self', 'if self.hop is None and self'))]),
    ("planeelse", "V", [(G, '        elif plane_l == "yz":\n', "        else:\n"), (G, PL, "")]),
    ("planesub", "V", [(G, '        elif plane_l == "yz":\n', '        elif plane_l in "yzy":\n')]),
    ("planeset", "V", [(G, '        elif plane_l == "yz":\n', '        elif set(plane_l) <= set("yz"):\n')]),
    ("kindprefix", "V", [(G, '    if kind_l == "icosahedron":\n', '    if kind_l.startswith("ico"):\n')]),
    ("gaindefault", "V", [(DIR, TAIL, "    return torch.ones_like(cos_theta)\n")]),
    ("gainsuffix", "V", [(DIR, 'if pattern in ("cardioid", "card"):', 'if pattern.endswith("cardioid") or pattern == "card":')]),
    ("backenddefault", "V", [(IO, BA, BA.replace('    return _AUDIO_BACKENDS[backend_name]\n', '    return _AUDIO_BACKENDS[backend_name]\n').replace('''        raise ValueError(
            f"Unknown audio backend '{backend_name}'. Available: {sorted(_AUDIO_BACKENDS)}"
        )
''', "        backend_name = _DEFAULT_AUDIO_BACKEND\n"))]),
    ("backendget", "V", [(IO, BA, "    return _AUDIO_BACKENDS.get(name or _DEFAULT_AUDIO_BACKEND, _AUDIO_BACKENDS[_DEFAULT_AUDIO_BACKEND])\n")]),
    ("setnocheck", "V", [(IO, SB, "    global")]),
    ("builderfirst", "V", [(BU, UN, "    unsupported = speakers_list[0] not in cmu_arctic_speakers()\n    if unsupported:\n        raise ValueError(speakers_list[0])\n")]),
    ("buildernone", "V", [(BU, UN, "")]),
    ("roomdim", "V", [("util/tensor.py", "size.ndim != 1 or size.numel() not in (2, 3)", "size.ndim != 1 or size.numel() < 2")]),
    ("circledim", "V", [(G, '    if dim != 3:\n        raise ValueError("center must be 2D or 3D")\n', '')]),
    ("stub", "V", [("experimental/datasets.py", '        raise NotImplementedError("TemplateDataset is not implemented yet")\n\n    def __get', '        return 0\n\n    def __get')]),
    ("dictspeaker", "Q", [(CM, SP, "        known = {s: True for s in VALID_SPEAKERS}\n        if speaker not in known:\n            raise ValueError(f\"unsupported speaker: {speaker}\")\n")]),
    ("helperspeaker", "Q", [(CM, SP, "        _check(speaker)\n"), (CM, "class CmuArcticDataset", "def _check(name):\n    if name in VALID_SPEAKERS:\n        return\n    raise ValueError(f\"unsupported speaker: {name}\")\n\n\nclass CmuArcticDataset")]),
    ("anyspeaker", "Q", [(CM, "        if speaker not in VALID_SPEAKERS:\n", "        if not any(speaker == v for v in VALID_SPEAKERS):\n")]),
    ("tablesubset", "Q", [(LS, SU, "        try:\n            {s: s for s in VALID_SUBSETS}[subset]\n        except KeyError as exc:\n            raise ValueError(f\"unsupported subset: {subset}\") from exc\n")]),
    ("rootfirst", "Q", [(LS, SU + "        self.root = Path(root)\n", "        self.root = Path(root)\n" + SU)]),
    ("matchattr", "Q", [(AT, '    if key == "librispeech":\n        return', '    match key:\n      case "librispeech":\n        return')]),
    ("modechain", "Q", [(DY, MO, ""), (DY, "        return _convolve_dynamic_trajectory(\n            signal, rirs, timestamps=self.timestamps, fs=self.fs\n        )\n\n\ndef _convolve_dynamic_hop", "        if self.mode == \"trajectory\":\n            return _convolve_dynamic_trajectory(\n                signal, rirs, timestamps=self.timestamps, fs=self.fs\n            )\n        raise ValueError(\"mode must be 'trajectory' or 'hop'\")\n\n\ndef _convolve_dynamic_hop")]),
    ("modeassert", "Q", [(DY, MO, "        known = frozenset({\"trajectory\", \"hop\"})\n        if not self.mode in known:\n            raise ValueError(\"mode must be 'trajectory' or 'hop'\")\n")]),
    ("planefirst", "Q", [(G, "        plane_l = plane.lower()\n", "        plane_l = plane.lower()\n        if plane_l not in (\"xy\", \"xz\", \"yz\"):\n            raise ValueError(\"plane must be one of 'xy', 'xz', 'yz'\")\n"), (G, '        elif plane_l == "yz":\n', "        else:\n"), (G, PL, "")]),
    ("backendgetnone", "Q", [(IO, BA, BA.split("    if ")[0] + '''    impl = _AUDIO_BACKENDS.get(backend_name)
    if impl is None:
        raise ValueError(f"Unknown audio backend '{backend_name}'.")
    return impl
''')]),
    ("backendtry", "Q", [(IO, BA, '''    try:
        return _AUDIO_BACKENDS[name or _DEFAULT_AUDIO_BACKEND]
    except KeyError as exc:
        raise ValueError(f"Unknown audio backend '{name}'.") from exc
''')]),
    ("gaindict", "Q", [(DIR, '    if pattern in ("cardioid", "card"):\n        return 0.5 + 0.5 * cos_theta\n', '    simple = {"cardioid": 0.5, "card": 0.5}\n    if pattern in simple:\n        return simple[pattern] + 0.5 * cos_theta\n')]),
    ("builderset", "Q", [(BU, UN, '    unsupported = sorted(set(speakers_list) - set(cmu_arctic_speakers()))\n    if unsupported:\n        raise ValueError(f"unsupported speakers: {unsupported}")\n')]),
    ("builderloop", "Q", [(BU, UN, '    for spk in speakers_list:\n        if spk not in cmu_arctic_speakers():\n            raise ValueError(f"unsupported speaker: {spk}")\n')]),
    ("builderall", "Q", [(BU, UN, '    known = set(cmu_arctic_speakers())\n    if not all(spk in known for spk in speakers_list):\n        raise ValueError("unsupported speaker")\n')]),
    ("builderissub", "Q", [(BU, UN, '    if not set(speakers_list).issubset(cmu_arctic_speakers()):\n        raise ValueError("unsupported speaker")\n')]),
    ("dimshape", "Q", [("util/tensor.py", "size.ndim != 1 or size.numel() not in (2, 3)", "size.dim() != 1 or size.shape[0] < 2 or size.shape[0] > 3")]),
    ("dimtuple", "Q", [("util/tensor.py", "size.ndim != 1 or size.numel() not in (2, 3)", "tuple(size.shape) not in ((2,), (3,))")]),
]
