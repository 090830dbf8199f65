VA, API, SI, HP, AC, DI = "sim/ism/validate.py", "sim/ism/api.py", "sim/simulators.py", "sim/ism/hpf.py", "sim/ism/accumulate.py", "sim/ism/diffuse.py"
MO = "    if max_order is None:\n        if cfg.max_order is None:\n            raise ValueError(\"max_order must be provided if not set in config\")\n        max_order = cfg.max_order\n"
TM = "    if tmax is None and cfg.tmax is not None:\n        tmax = cfg.tmax\n"
DR = "    if directivity is None:\n        directivity = cfg.directivity or \"omni\"\n"
DV = "    if device is None and cfg.device is not None:\n        device = cfg.device\n"
NOC = "    if simulator_value is None or config_value is None:\n        return\n"
CT = "        _ensure_no_conflict(\n            field=\"tmax\",\n            simulator_value=self.tmax,\n            config_value=cfg.tmax,\n        )\n"
DYN = "            rirs = simulate_dynamic_rir(\n"
CASES = [
    ("ortruth", "V", [(VA, MO, "    max_order = max_order or cfg.max_order\n    if max_order is None:\n        raise ValueError(\"max_order must be provided if not set in config\")\n")]),
    ("cfgwins", "V", [(VA, TM, "    if cfg.tmax is not None:\n        tmax = cfg.tmax\n")]),
    ("nodirect", "V", [(VA, DR, "    directivity = directivity or \"omni\"\n")]),
    ("cfgdirect", "V", [(VA, DR, "    directivity = cfg.directivity or directivity or \"omni\"\n")]),
    ("nodevice", "V", [(VA, DV, "")]),
    ("cfgdevice", "V", [(VA, DV, "    device = cfg.device or device\n")]),
    ("minorder", "V", [(VA, MO, MO + "    elif cfg.max_order is not None:\n        max_order = min(max_order, cfg.max_order)\n")]),
    ("nsample", "V", [(VA, "    if nsample is None:\n        if tmax is None:", "    if tmax is not None:\n        nsample = int(math.ceil(tmax * room.fs))\n    if nsample is None:\n        if tmax is None:")]),
    ("dyntmax", "V", [(API, "    nsample = _validate_dynamic_args(\n        room=room, nsample=nsample, tmax=tmax,", "    nsample = _validate_dynamic_args(\n        room=room, nsample=nsample, tmax=cfg.tmax or tmax,")]),
    ("fdldefault", "V", [(API, "    fdl = cfg.frac_delay_length\n", "    fdl = 81\n"), (AC, "    fdl = cfg.frac_delay_length\n", "    fdl = 81\n")]),
    ("hpffc", "V", [(HP, "_design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)", "_design_hpf_sos(fs, 10.0, cfg.rir_hpf_kwargs)")]),
    ("hpfkw", "V", [(HP, "_design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)", "_design_hpf_sos(fs, cfg.rir_hpf_fc, {\"n\": 2, \"ftype\": \"butter\"})")]),
    ("hpfdyn", "V", [(API, "    rirs = apply_rir_hpf(rirs, room.fs, cfg)\n", "    rirs = apply_rir_hpf(rirs, room.fs, SimulationConfig(rir_hpf_enable=cfg.rir_hpf_enable))\n")]),
    ("seed", "V", [(API, ", seed=cfg.seed)", ")")]),
    ("imgchunk", "V", [(API, "    img_chunk = cfg.image_chunk_size\n    if img_chunk <= 0:\n        img_chunk = n_vec.shape[0]\n\n    src_dirs = None\n    if src_pattern != \"omni\":\n        if src_ori is None:\n            raise ValueError(\"source orientation required for non-omni directivity\")\n        src_dirs = orientation_to_unit(src_ori, dim)\n        if src_dirs.ndim == 1:\n            src_dirs = src_dirs.unsqueeze(0).repeat(n_src, 1)\n        if src_dirs.ndim != 2 or src_dirs.shape[0] != n_src:\n            raise ValueError(\"source orientation must match number of sources\")\n\n    for start in range(0, n_vec.shape[0], img_chunk):\n        end = min(start + img_chunk, n_vec.shape[0])\n        n_vec_chunk = n_vec[start:end]\n        refl_chunk = refl[start:end]\n        sample_chunk, attenuation_chunk = _compute_image_contributions_time_batch(", "    img_chunk = 2048\n    src_dirs = None\n    for start in range(0, n_vec.shape[0], img_chunk):\n        end = min(start + img_chunk, n_vec.shape[0])\n        n_vec_chunk = n_vec[start:end]\n        refl_chunk = refl[start:end]\n        sample_chunk, attenuation_chunk = _compute_image_contributions_time_batch("), (API, "    img_chunk = cfg.image_chunk_size\n", "    img_chunk = 2048\n")]),
    ("conflictor", "V", [(SI, NOC, "    if not simulator_value or not config_value:\n        return\n")]),
    ("conflictgt", "V", [(SI, "    if simulator_value != config_value:\n", "    if simulator_value > config_value:\n")]),
    ("noconflict", "V", [(SI, CT, "")]),
    ("swapconf", "V", [(SI, "            simulator_value=self.tmax,\n            config_value=cfg.tmax,\n", "            simulator_value=self.tmax,\n            config_value=cfg.max_order,\n")]),
    ("dropnb", "V", [(SI, DYN, DYN.replace("(\n", "(\n")), (SI, "                mic_traj=normalized_scene.mic_traj,\n                max_order=self.max_order,\n                nb_img=self.nb_img,\n", "                mic_traj=normalized_scene.mic_traj,\n                max_order=self.max_order,\n")]),
    ("omni", "V", [(SI, "                directivity=self.directivity,\n", "                directivity=self.directivity or \"omni\",\n")]),
    ("dtype", "V", [(SI, "                dtype=self.dtype,\n            )\n        else:", "                dtype=torch.float32,\n            )\n        else:")]),
    ("noconfig", "V", [(SI, "                config=cfg,\n", "")]),
    ("resseed", "V", [(SI, "seed=cfg.seed)", "seed=None)")]),
    ("rescfg", "V", [(SI, "config=cfg, seed", "config=default_config(), seed")]),
    ("helper", "Q", [(VA, MO, "    max_order = _pick(max_order, cfg.max_order)\n    if max_order is None:\n        raise ValueError(\"max_order must be provided if not set in config\")\n"), (VA, TM, "    tmax = _pick(tmax, cfg.tmax)\n"), (VA, "def _resolve_config(", "def _pick(own, other):\n    return other if own is None else own\n\n\ndef _resolve_config(")]),
    ("dirternary", "Q", [(VA, DR, "    directivity = directivity or cfg.directivity or \"omni\"\n")]),
    ("kwargs", "Q", [(SI, "        if isinstance(normalized_scene, DynamicScene):\n", "        options = dict(\n            max_order=self.max_order,\n            nb_img=self.nb_img,\n            nsample=self.nsample,\n            tmax=self.tmax,\n            directivity=self.directivity,\n            config=cfg,\n            device=self.device,\n            dtype=self.dtype,\n        )\n        if isinstance(normalized_scene, DynamicScene):\n            rirs = simulate_dynamic_rir(\n                room=normalized_scene.room,\n                src_traj=normalized_scene.src_traj,\n                mic_traj=normalized_scene.mic_traj,\n                **options,\n            )\n        elif isinstance(normalized_scene, DynamicScene):\n")]),
    ("confloop", "Q", [(SI, CT, ""), (SI, "        _ensure_no_conflict(\n            field=\"max_order\",\n            simulator_value=self.max_order,\n            config_value=cfg.max_order,\n        )\n", "        for name in (\"max_order\", \"tmax\"):\n            _ensure_no_conflict(\n                field=name,\n                simulator_value=getattr(self, name),\n                config_value=getattr(cfg, name),\n            )\n")]),
    ("confand", "Q", [(SI, NOC + "    if simulator_value != config_value:\n", "    both = simulator_value is not None and config_value is not None\n    if both and not simulator_value == config_value:\n")]),
    ("cfgvar", "Q", [(SI, "                device=self.device,\n", "                device=self.device if self.device is not None else cfg.device,\n")]),
    ("branch", "Q", [(VA, "    cfg = config or default_config()\n", "    cfg = config if config is not None else default_config()\n")]),
    ("onevalidate", "Q", [(API, "    nsample = _validate_dynamic_args(", "    nsample = _validate_static_args(")]),
]
