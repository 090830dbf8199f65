D = "datasets/dynamic_cmu_arctic.py"
C = "datasets/cmu_arctic.py"
A = "viz/animation.py"
REF = """    if dataset_root.exists() and not overwrite:
        raise FileExistsError(
            f"Dataset root already exists: {dataset_root}. Use overwrite=True."
        )

"""
DEL = """        # An existing dataset is only deleted once the options are known to be usable.
        if scene_idx == 0 and dataset_root.exists():
            shutil.rmtree(dataset_root)
"""
RNG = "    rng = np.random.default_rng(seed)\n    rng_py"
EARLY = "    if dataset_root.exists():\n        shutil.rmtree(dataset_root)\n"
ROOM = "    convolver = DynamicConvolver(mode=\"trajectory\")\n"
CASES = [
    ("earlydelete", "V", [(D, DEL, ""), (D, RNG, EARLY + RNG)]),
    ("first", "V", [(D, DEL, ""), (D, "    if n_scenes <= 0:", "    if overwrite and dataset_root.exists():\n        shutil.rmtree(dataset_root)\n    if n_scenes <= 0:")]),
    ("parent", "V", [(D, "shutil.rmtree(dataset_root)", "shutil.rmtree(dataset_root.parent)")]),
    ("cmuroot", "V", [(D, "shutil.rmtree(dataset_root)", "shutil.rmtree(dataset_root)\n            shutil.rmtree(cmu_root / 'tmp', ignore_errors=True)")]),
    ("siblings", "V", [(D, "shutil.rmtree(dataset_root)", "for p in dataset_root.parent.glob('*'):\n                shutil.rmtree(p)")]),
    ("withname", "V", [(D, "shutil.rmtree(dataset_root)", "shutil.rmtree(dataset_root)\n            shutil.rmtree(dataset_root.with_name('old'))")]),
    ("norefuse", "V", [(D, REF, "")]),
    ("invert", "V", [(D, "dataset_root.exists() and not overwrite", "dataset_root.exists() and overwrite")]),
    ("refusefile", "V", [(D, "dataset_root.exists() and not overwrite", "dataset_root.is_file() and not overwrite")]),
    ("refuseafter", "V", [(D, REF, ""), (D, "    return sample_rate, n_mics\n", REF + "    return sample_rate, n_mics\n")]),
    ("default", "V", [(D, "    overwrite: bool = False", "    overwrite: bool = True")]),
    ("cli", "V", [(D, "overwrite=bool(args.overwrite_dataset)", "overwrite=True")]),
    ("clidef", "V", [(D, 'parser.add_argument("--overwrite-dataset", action="store_true")', 'parser.add_argument("--overwrite-dataset", action="store_false")')]),
    ("lateratio", "V", [(D, DEL, ""), (D, ROOM, ROOM + EARLY)]),
    ("cleanup", "V", [(D, "        raise FileExistsError(", "        shutil.rmtree(dataset_root / 'scene_0000', ignore_errors=True)\n        raise FileExistsError(")]),
    ("outside", "V", [(D, 'mixture_path = scene_dir / "mixture.wav"', 'mixture_path = dataset_root.parent / "mixture.wav"')]),
    ("speakers", "V", [(D, '    unsupported = [spk for spk in speakers_list if spk not in cmu_arctic_speakers()]\n    if unsupported:\n        raise ValueError(f"unsupported speakers: {unsupported}")\n', ""), (D, DEL, ""), (D, "    dataset_cache: dict", EARLY + "    dataset_cache: dict"), (D, RNG, "    if moving_speed_min <= 0 or moving_speed_max < moving_speed_min or not 0 <= move_start_ratio < move_end_ratio <= 1 or max_order < 0 or rt60 <= 0 or octa_edge_m <= 0 or sound_speed <= 0:\n        raise ValueError('x')\n" + RNG)]),
    ("q-nested", "Q", [(D, REF, "    if dataset_root.exists():\n        if not overwrite:\n            raise FileExistsError(str(dataset_root))\n\n")]),
    ("q-helper", "Q", [(D, REF, "    _refuse(dataset_root, overwrite)\n"), (D, "def build_dynamic_cmu", "def _refuse(p, overwrite):\n    if overwrite:\n        return\n    if p.exists():\n        raise FileExistsError(p)\n\n\ndef build_dynamic_cmu")]),
    ("q-nonempty", "Q", [(D, REF, "    if dataset_root.exists() and any(dataset_root.iterdir()) and not overwrite:\n        raise FileExistsError(str(dataset_root))\n")]),
    ("q-listlen", "Q", [(D, REF, "    if dataset_root.is_dir() and len(list(dataset_root.iterdir())) > 0 and not overwrite:\n        raise FileExistsError(str(dataset_root))\n")]),
    ("q-owguard", "Q", [(D, "if scene_idx == 0 and dataset_root.exists():", "if overwrite and scene_idx == 0 and dataset_root.exists():")]),
    ("q-hoist", "Q", [(D, DEL, ""), (D, ROOM, ROOM + "    if moving_speed_min <= 0 or moving_speed_max < moving_speed_min:\n        raise ValueError('speed')\n    if move_start_ratio < 0 or move_end_ratio > 1 or move_end_ratio <= move_start_ratio:\n        raise ValueError('ratio')\n    if max_order < 0:\n        raise ValueError('order')\n" + EARLY)]),
    ("q-clear", "Q", [(D, "            shutil.rmtree(dataset_root)\n", "            for child in dataset_root.iterdir():\n                if child.is_dir():\n                    shutil.rmtree(child)\n                else:\n                    child.unlink()\n")]),
    ("q-flag", "Q", [(D, "        if scene_idx == 0 and dataset_root.exists():", "        fresh = scene_idx > 0\n        if not fresh and dataset_root.exists():")]),
    ("q-prep", "Q", [(D, DEL, "        if scene_idx == 0:\n            _clear(dataset_root)\n"), (D, "def build_dynamic_cmu", "def _clear(p):\n    if p.exists():\n        shutil.rmtree(p)\n\n\ndef build_dynamic_cmu")]),
    ("q-path", "Q", [(D, "    log = LOGGER if logger is None else logger\n", "    log = LOGGER if logger is None else logger\n    dataset_root = Path(dataset_root)\n")]),
    ('b-early', 'V', [('datasets/dynamic_cmu_arctic.py', '    rng = np.random.default_rng(seed)\n', '    if dataset_root.exists():\n        shutil.rmtree(dataset_root)\n    rng = np.random.default_rng(seed)\n')]),
    ('b-empty', 'Q', [('datasets/dynamic_cmu_arctic.py', 'if dataset_root.exists() and not overwrite:', 'if not overwrite and dataset_root.exists():')]),
    ('b-file', 'V', [('datasets/dynamic_cmu_arctic.py', 'if dataset_root.exists() and not overwrite:', 'if (dataset_root / "scene_0000").exists() and not overwrite:')]),
    ('b-parent', 'V', [('datasets/dynamic_cmu_arctic.py', '            shutil.rmtree(dataset_root)', '            shutil.rmtree(dataset_root.parent if dataset_root.name == "scenes" else dataset_root)')]),
    ('b-stale', 'V', [('datasets/dynamic_cmu_arctic.py', '        scene_dir.mkdir(parents=True, exist_ok=True)\n', '        for old in dataset_root.parent.glob("scene_*"):\n            shutil.rmtree(old)\n        scene_dir.mkdir(parents=True, exist_ok=True)\n')]),
    ('b-resolve', 'Q', [('datasets/dynamic_cmu_arctic.py', '            shutil.rmtree(dataset_root)', '            shutil.rmtree(str(dataset_root))')]),
    ('b-isdir', 'V', [('datasets/dynamic_cmu_arctic.py', 'if dataset_root.exists() and not overwrite:', 'if dataset_root.is_dir() and any(dataset_root.glob("*.wav")) and not overwrite:')]),
]
