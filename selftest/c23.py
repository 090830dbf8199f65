M, O = "io/metadata.py", "io/outputs.py"
CASES = [
    ("beta-missing", "V", [(M, '"beta": _to_serializable(room.beta) if room.beta is not None else None', '"beta": None')]),
    ("beta-raw", "V", [(M, '"beta": _to_serializable(room.beta) if room.beta is not None else None', '"beta": room.beta')]),
    ("t60-c", "V", [(M, '"t60": float(room.t60) if room.t60 is not None else None', '"t60": float(room.c) if room.t60 is not None else None')]),
    ("t60-none", "V", [(M, '"t60": float(room.t60) if room.t60 is not None else None', '"t60": float(room.t60) if room.beta is not None else None')]),
    ("swap-pos", "V", [(M, '"positions": _to_serializable(mic_pos)', '"positions": _to_serializable(src_pos)')]),
    ("swap-orient", "V", [(M, '"orientation": _to_serializable(sources.orientation)', '"orientation": _to_serializable(mics.orientation)')]),
    ("array-orient", "V", [(M, '"orientation": _to_serializable(array_attrs.orientation)', '"orientation": _to_serializable(sources.orientation)')]),
    ("raw-orient", "V", [(M, '"orientation": _to_serializable(mics.orientation)', '"orientation": mics.orientation')]),
    ("swap-traj", "V", [(M, '"mics": _to_serializable(mic_traj_n', '"mics": _to_serializable(src_traj_n')]),
    ("traj-given", "V", [(M, '_to_serializable(src_traj_n if t_steps > 1 else None)', '_to_serializable(src_traj_n if mic_traj is not None else None)')]),
    ("traj-always", "V", [(M, '_to_serializable(src_traj_n if t_steps > 1 else None)', '_to_serializable(src_traj_n)')]),
    ("tsteps", "V", [(M, 't_steps = max(src_traj_n.shape[0], mic_traj_n.shape[0])', 't_steps = src_traj_n.shape[0]')]),
    ("doa-sign", "V", [(M, 'src_traj[:, :, None, :] - mic_traj[:, None, :, :]', 'mic_traj[:, None, :, :] - src_traj[:, :, None, :]')]),
    ("doa-order", "V", [(M, 'torch.atan2(y, x)', 'torch.atan2(x, y)')]),
    ("doa-elev", "V", [(M, 'torch.sqrt(x**2 + y**2)', 'torch.sqrt(x**2 + y**2 + z**2)')]),
    ("doa-axes", "V", [(M, 'src_traj[:, :, None, :] - mic_traj[:, None, :, :]', 'src_traj[:, None, :, :] - mic_traj[:, :, None, :]')]),
    ("doa-mixed", "V", [(M, '"azimuth": _to_serializable(azimuth)', '"azimuth": _to_serializable(elevation)')]),
    ("nsample", "V", [(M, 'nsample = int(rirs.shape[-1])', 'nsample = int(rirs.shape[0])')]),
    ("timeaxis", "V", [(M, 'torch.arange(nsample, dtype=torch.float32) / fs', 'torch.arange(nsample, dtype=torch.float32) / nsample')]),
    ("stamps-over", "V", [(M, 'if timestamps is not None:\n        timestamps_out = timestamps\n    elif t_steps > 1 and signal_len is not None:', 'if timestamps is not None:\n        timestamps_out = timestamps\n    if t_steps > 1 and signal_len is not None:')]),
    ("stamps-len", "V", [(M, '(float(signal_len) - 1.0) / fs', 'float(signal_len) / fs')]),
    ("stamps-nsample", "V", [(M, '(float(signal_len) - 1.0) / fs', '(float(nsample) - 1.0) / fs')]),
    ("center", "V", [(M, 'pos.mean(dim=0)', 'pos.mean(dim=1)')]),
    ("center-median", "V", [(M, 'center = pos.mean(dim=0)', 'center = pos[0]')]),
    ("shape-list", "V", [(M, 'list(rirs.shape)', 'list(rirs.shape[:2])')]),
    ("shape-raw", "V", [(M, '"rirs_shape": list(rirs.shape)', '"rirs_shape": rirs')]),
    ("dynamic-src", "V", [(M, '"dynamic": bool(t_steps > 1)', '"dynamic": src_traj is not None')]),
    ("extra-lost", "V", [(M, '    if extra:\n', '    if extra and source_info is None:\n')]),
    ("info-raw", "V", [(M, 'metadata["source_info"] = _to_serializable(source_info)', 'metadata["source_info"] = source_info')]),
    ("tensor-nested", "V", [(M, 'return [_to_serializable(v) for v in value]', 'return [v for v in value]')]),
    ("dict-nested", "V", [(M, 'return {k: _to_serializable(v) for k, v in value.items()}', 'return dict(value)')]),
    ("tuple-lost", "V", [(M, 'isinstance(value, (list, tuple))', 'isinstance(value, list)')]),
    ("config-raw", "V", [(M, '    if is_dataclass(value) and not isinstance(value, type):\n        return {f.name: _to_serializable(getattr(value, f.name)) for f in fields(value)}\n', '')]),
    ("device-raw", "V", [(M, '(Path, torch.device, torch.dtype)', '(Path, torch.dtype)')]),
    ("save-early", "V", [(O, '    metadata = build_metadata(\n        room=room,', '    save_metadata_json(out_dir / metadata_name, {"room": None})\n    metadata = build_metadata(\n        room=room,'), (O, '    meta_path = out_dir / metadata_name\n    save_metadata_json(meta_path, metadata)', '    meta_path = out_dir / metadata_name')]),
    ("save-fixed", "V", [(O, 'meta_path = out_dir / metadata_name\n    save_m', 'meta_path = out_dir / "metadata.json"\n    save_m')]),
    ("save-swap", "V", [(O, '        src_traj=src_traj,\n        mic_traj=mic_traj,\n        timestamps=timestamps,', '        src_traj=mic_traj,\n        mic_traj=src_traj,\n        timestamps=timestamps,')]),
    ("save-drop", "V", [(O, '        source_info=source_info,\n        extra=extra,\n    )\n    meta', '        source_info=source_info,\n    )\n    meta')]),
    ("save-append", "V", [(M, 'path.open("w"', 'path.open("a"')]),
    # behaviour kept
    ("q-item", "Q", [(M, 'nsample = int(rirs.shape[-1])', 'nsample = rirs.size(-1)')]),
    ("q-hypot", "Q", [(M, 'torch.sqrt(x**2 + y**2)', '(x * x + y * y).sqrt()')]),
    ("q-hypot2", "Q", [(M, 'torch.sqrt(x**2 + y**2)', 'torch.hypot(x, y)')]),
    ("q-norm", "Q", [(M, 'torch.sqrt(x**2 + y**2)', 'torch.linalg.norm(vec[..., :2], dim=-1)')]),
    ("q-unsq", "Q", [(M, 'src_traj[:, :, None, :] - mic_traj[:, None, :, :]', 'src_traj.unsqueeze(2) - mic_traj.unsqueeze(1)')]),
    ("q-helper", "Q", [(M, '        "sources": {\n            "positions": _to_serializable(src_pos),\n            "orientation": _to_serializable(sources.orientation),\n        },\n', '        "sources": _entity(sources),\n'), (M, 'def save_metadata_json(', 'def _entity(e):\n    return {"positions": _to_serializable(e.positions), "orientation": _to_serializable(e.orientation)}\n\n\ndef save_metadata_json(')]),
    ("q-build-up", "Q", [(M, '        "rirs_shape": list(rirs.shape),\n        "dynamic": bool(t_steps > 1),\n    }\n', '    }\n    metadata["rirs_shape"] = [int(n) for n in rirs.shape]\n    metadata["dynamic"] = t_steps > 1\n')]),
    ("q-update", "Q", [(M, '        "rirs_shape": list(rirs.shape),\n        "dynamic": bool(t_steps > 1),\n    }\n', '    }\n    metadata.update({"rirs_shape": list(rirs.shape), "dynamic": t_steps > 1})\n')]),
    ("q-dumps", "Q", [(M, '    with path.open("w", encoding="utf-8") as f:\n        json.dump(metadata, f, indent=2)', '    path.write_text(json.dumps(metadata, indent=2), encoding="utf-8")')]),
    ("q-open", "Q", [(M, '    with path.open("w", encoding="utf-8") as f:', '    with open(path, "w", encoding="utf-8") as f:')]),
    ("q-inline", "Q", [(O, '    meta_path = out_dir / metadata_name\n    save_metadata_json(meta_path, metadata)', '    meta_path = out_dir / metadata_name\n    with open(meta_path, "w") as fh:\n        json.dump(metadata, fh, indent=2)'), (O, 'import logging\n', 'import json\nimport logging\n')]),
    ("q-moving", "Q", [(M, '    azimuth, elevation = _compute_doa', '    moving = t_steps > 1\n    azimuth, elevation = _compute_doa'), (M, 'src_traj_n if t_steps > 1 else None', 'src_traj_n if moving else None')]),
    ("q-loop", "Q", [(M, 'return {k: _to_serializable(v) for k, v in value.items()}', 'out = {}\n        for k, v in value.items():\n            out[k] = _to_serializable(v)\n        return out')]),
    ("q-listcomp", "Q", [(M, 'return [_to_serializable(v) for v in value]', 'return list(map(_to_serializable, value))')]),
    ("q-given", "Q", [(M, '    timestamps_out: Optional[Tensor] = None\n    if timestamps is not None:\n        timestamps_out = timestamps\n    elif t_steps > 1', '    timestamps_out: Optional[Tensor] = timestamps\n    if timestamps is None and t_steps > 1')]),
    ("q-sum", "Q", [(M, 'pos.mean(dim=0)', 'pos.sum(dim=0) / pos.shape[0]')]),
    ("q-expand", "Q", [(M, 'src_traj_n = src_traj_n.expand(t_steps, -1, -1)', 'src_traj_n = src_traj_n.repeat(t_steps, 1, 1)')]),
    ('b-t60', 'V', [('io/metadata.py', 'float(room.t60) if room.t60 is not None else None', 'float(room.t60) if room.beta is None and room.t60 is not None else room.c')]),
    ('b-c', 'V', [('io/metadata.py', '"c": float(room.c)', '"c": round(float(room.c))')]),
    ('b-mi', 'V', [('io/metadata.py', '"orientation": _to_serializable(mics.orientation),', '"orientation": _to_serializable(sources.orientation),')]),
    ('b-doa', 'V', [('io/metadata.py', 'vec = src_traj[:, :, None, :] - mic_traj[:, None, :, :]', 'vec = mic_traj[:, None, :, :] - src_traj[:, :, None, :]')]),
    ('b-el', 'V', [('io/metadata.py', 'elevation = torch.atan2(z, r_xy)', 'elevation = torch.atan2(r_xy, z)')]),
    ('b-dur', 'V', [('io/metadata.py', '(float(signal_len) - 1.0) / fs', 'float(signal_len) / fs')]),
    ('b-ser', 'V', [('io/metadata.py', '        return [_to_serializable(v) for v in value]', '        return list(value)')]),
    ('b-key', 'V', [('io/metadata.py', '{k: _to_serializable(v) for k, v in value.items()}', '{k: _to_serializable(v) for k, v in value.items() if v}')]),
    ('b-traj', 'V', [('io/metadata.py', '        mic_traj_n = mic_traj_n.expand(t_steps, -1, -1)', '        mic_traj_n = src_traj_n[:, : mic_traj_n.shape[1]]')]),
    ('b-ts', 'V', [('io/metadata.py', '    if timestamps is not None:\n        timestamps_out = timestamps\n', '    if timestamps is not None and t_steps > 1:\n        timestamps_out = timestamps\n')]),
    ('b-nsamp', 'V', [('io/metadata.py', 'torch.arange(nsample, dtype=torch.float32) / fs', 'torch.arange(1, nsample + 1, dtype=torch.float32) / fs')]),
    ('b-dyn', 'V', [('io/metadata.py', '"dynamic": bool(t_steps > 1)', '"dynamic": src_traj is not None')]),
    ('b-spacing', 'V', [('io/metadata.py', 'spacing = float(dists.min().item())', 'spacing = float(dists.max().item())')]),
    ('b-center', 'V', [('io/metadata.py', 'center = pos.mean(dim=0)', 'center = pos[n_mic // 2]')]),
    ('b-np', 'V', [('io/metadata.py', '    if isinstance(value, (np.ndarray, np.generic)):', '    if isinstance(value, np.ndarray):')]),
    ('b-extra', 'V', [('io/metadata.py', '    if extra:\n        metadata["extra"] = _to_serializable(extra)', '    if extra:\n        metadata.update(_to_serializable(extra))')]),
    ('q-prim', 'Q', [('io/metadata.py', '    if value is None:\n        return None\n    if torch', '    if value is None or isinstance(value, (str, bool, int, float)):\n        return value\n    if torch')]),
    ('q-tolist', 'Q', [('io/metadata.py', '    if isinstance(value, (np.ndarray, np.generic)):\n        return value.tolist()', '    if isinstance(value, np.generic):\n        return value.item()\n    if isinstance(value, np.ndarray):\n        return value.tolist()')]),
    ('q-hasattr', 'Q', [('io/metadata.py', '    if isinstance(value, (np.ndarray, np.generic)):', '    if hasattr(value, "tolist"):')]),
    ('q-sp', 'Q', [('io/metadata.py', '        dists = torch.cdist(pos, pos)\n        dists = dists[dists > 0]\n        if dists.numel() > 0:\n            spacing = float(dists.min().item())', '        i, j = torch.triu_indices(n_mic, n_mic, offset=1)\n        dists = (pos[i] - pos[j]).norm(dim=-1)\n        dists = dists[dists > 0]\n        if len(dists):\n            spacing = dists.sort().values[0].item()')]),
    ('q-sp2', 'Q', [('io/metadata.py', '            spacing = float(dists.min().item())', '            spacing = -float((-dists).max().item())')]),
    ('q-loop2', 'Q', [('io/metadata.py', '        return {k: _to_serializable(v) for k, v in value.items()}', '        return dict(zip(value, map(_to_serializable, value.values())))')]),
]
