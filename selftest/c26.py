D = "datasets/dynamic_cmu_arctic.py"
STEM = """            stem_mc = convolver.convolve(
                dry[src_idx : src_idx + 1],
                rirs[:, src_idx : src_idx + 1, :, :],
            )
"""
NORM = "        stems = _normalize_sources(stems)\n"
MIX = "        mix = np.sum(np.stack(stems, axis=0), axis=0)\n"
ALPHA = """    in_move = (timeline >= move_start_ratio) & (timeline <= move_end_ratio)
    alpha[timeline > move_end_ratio] = 1.0
    alpha[in_move] = (timeline[in_move] - move_start_ratio) / (
        move_end_ratio - move_start_ratio
    )
"""
LOOP = """        for src_idx, stem in enumerate(stems):
            sf.write(scene_dir / f"source_{src_idx:02d}.wav", stem, sample_rate)
"""
CASES = [
    ("mix-before", "V", [(D, NORM + MIX, MIX + NORM)]),
    ("mix-mean", "V", [(D, "np.sum(np.stack(stems, axis=0), axis=0)\n", "np.mean(np.stack(stems, axis=0), axis=0)\n")]),
    ("mix-skip", "V", [(D, "mix = np.sum(np.stack(stems, axis=0), axis=0)", "mix = np.sum(np.stack(stems[1:], axis=0), axis=0)")]),
    ("mix-moving", "V", [(D, "mix = np.sum(np.stack(stems, axis=0), axis=0)", "mix = np.sum(np.stack([s for i, s in enumerate(stems) if i != 0 or not moving_indices], axis=0), axis=0)")]),
    ("stem-own-scale", "V", [(D, "    return [stem * scale for stem in stems]", "    return [stem * min(1.0, peak_limit / float(np.max(np.abs(stem)))) for stem in stems]")]),
    ("norm-sum", "V", [(D, "    peak = max(peak, float(np.max(np.abs(np.sum(np.stack(stems, axis=0), axis=0)))))\n", "")]),
    ("norm-only-first", "V", [(D, "max(float(np.max(np.abs(stem))) for stem in stems)", "float(np.max(np.abs(stems[0])))")]),
    ("wrong-rir", "V", [(D, "rirs[:, src_idx : src_idx + 1, :, :]", "rirs[:, 0:1, :, :]")]),
    ("wrong-dry", "V", [(D, "dry[src_idx : src_idx + 1]", "dry[:1]")]),
    ("reverse-stems", "V", [(D, "        for src_idx, stem in enumerate(stems):", "        for src_idx, stem in enumerate(stems[::-1]):")]),
    ("from-one", "V", [(D, "for src_idx, stem in enumerate(stems):", "for src_idx, stem in enumerate(stems, start=1):")]),
    ("rate-16k", "V", [(D, "sf.write(mixture_path, mix, sample_rate)", "sf.write(mixture_path, mix, 16000)")]),
    ("static-first", "V", [(D, "rirs[:, src_idx : src_idx + 1, :, :]", "rirs[:1, src_idx : src_idx + 1, :, :]")]),
    ("room-fs", "V", [(D, "        fs=float(sample_rate),", "        fs=16000.0,")]),
    ("start-ends", "V", [(D, "Source.from_positions(starts.tolist()", "Source.from_positions(_ends.tolist()")]),
    ("mic-fixed", "V", [(D, "base_mic_positions + scene_mic_center[None, :]", "base_mic_positions + np.asarray(mic_center_arr)[None, :]")]),
    ("ctr-meta", "V", [(D, '"mic_center_xyz_m": scene_mic_center.tolist()', '"mic_center_xyz_m": mic_center_arr.tolist()')]),
    ("sec-ratio", "V", [(D, '"move_start": float(move_start_sec)', '"move_start": float(move_start_ratio)')]),
    ("post", "V", [(D, '"post_static_ratio": float(1.0 - move_end_ratio)', '"post_static_ratio": float(move_end_ratio)')]),
    ("alpha-late", "V", [(D, "alpha[timeline > move_end_ratio] = 1.0", "alpha[timeline > move_end_ratio] = 0.0")]),
    ("alpha-edge", "V", [(D, "(timeline <= move_end_ratio)", "(timeline < move_end_ratio)")]),
    ("alpha-scale", "V", [(D, ALPHA, ALPHA.replace("timeline[in_move] - move_start_ratio", "timeline[in_move]"))]),
    ("alpha-late2", "V", [(D, ALPHA, "    alpha = np.clip((timeline - move_start_ratio) / (1.0 - move_start_ratio), 0.0, 1.0)\n")]),
    ("linear-path", "V", [(D, "        trajectory[:, src_idx, 0] = cx + radius * np.cos(theta)\n        trajectory[:, src_idx, 1] = cy + radius * np.sin(theta)\n", "        end = np.array([cx + radius * np.cos(end_azimuth[src_idx]), cy + radius * np.sin(end_azimuth[src_idx])])\n        trajectory[:, src_idx, :2] = starts[src_idx, :2][None, :] + alpha[:, None] * (end - starts[src_idx, :2])[None, :]\n")]),
    ("sincos", "V", [(D, "trajectory[:, src_idx, 0] = cx + radius * np.cos(theta)", "trajectory[:, src_idx, 0] = cx + radius * np.sin(theta)")]),
    ("height", "V", [(D, "trajectory[:, src_idx, 2] = float(starts[src_idx, 2])", "trajectory[:, src_idx, 2] = float(mic_center[2])")]),
    ("move-all", "V", [(D, "            moving_indices=moving_indices,\n            n_steps", "            moving_indices=list(range(n_moving_sources)),\n            n_steps")]),
    ("omega-total", "V", [(D, "angular_velocity * move_duration_sec", "angular_velocity * duration_sec")]),
    ("speed-abs", "V", [(D, "angular_velocity_rad_s[src_idx] = angular_velocity\n", "angular_velocity_rad_s[src_idx] = abs(angular_velocity)\n")]),
    ("dir-drop", "V", [(D, "turn_direction[src_idx] = direction", "turn_direction[src_idx] = 1")]),
    ("azi-rad", "V", [(D, '"end_azimuth_deg": np.rad2deg(end_azimuth).tolist()', '"end_azimuth_deg": end_azimuth.tolist()')]),
    ("azi-swap", "V", [(D, '"end_azimuth_deg": np.rad2deg(end_azimuth)', '"end_azimuth_deg": np.rad2deg(start_azimuth)')]),
    ("moving-flag", "V", [(D, 'bool(src_idx in moving_index_set)', 'bool(src_idx < n_moving_sources)')]),
    ("info-shift", "V", [(D, 'float(source_velocity_mps[src_idx])', 'float(source_velocity_mps[src_idx - 1])')]),
    ("info-room", "V", [(D, "            out_dir=scene_dir,\n            metadata_name=\"metadata.json\",\n            room=room,", "            out_dir=scene_dir,\n            metadata_name=\"metadata.json\",\n            room=Room.shoebox(size=room_size_arr.tolist(), fs=16000.0),")]),
    ("video-mix", "V", [(D, "mixture_path=mixture_path,", 'mixture_path=scene_dir / "source_00.wav",')]),
    ("folder", "V", [(D, 'scene_id = f"scene_{scene_idx:04d}"', 'scene_id = f"scene_{scene_idx // 2:04d}"')]),
    ("info-copy", "V", [(D, "json.dump(source_info, fh, indent=2)", 'json.dump([{"speaker": s} for s in chosen_speakers], fh, indent=2)')]),
    ("traj-step", "V", [(D, "            src_traj=src_traj,\n            mic_traj=mic_traj,\n            signal_len=target_samples,\n            source_info", "            src_traj=src_traj[1:],\n            mic_traj=mic_traj[1:],\n            signal_len=target_samples,\n            source_info")]),
    ("q-mix", "Q", [(D, "mix = np.sum(np.stack(stems, axis=0), axis=0)", "mix = sum(stems)")]),
    ("q-mix2", "Q", [(D, "mix = np.sum(np.stack(stems, axis=0), axis=0)", "mix = np.zeros_like(stems[0])\n        for stem in stems:\n            mix = mix + stem")]),
    ("q-mix3", "Q", [(D, "mix = np.sum(np.stack(stems, axis=0), axis=0)", "mix = np.stack(stems).sum(axis=0)")]),
    ("q-clip", "Q", [(D, ALPHA, "    alpha = np.clip((timeline - move_start_ratio) / (move_end_ratio - move_start_ratio), 0.0, 1.0)\n")]),
    ("q-where", "Q", [(D, ALPHA, "    inside = (timeline - move_start_ratio) / (move_end_ratio - move_start_ratio)\n    alpha = np.where(timeline > move_end_ratio, 1.0, np.where(timeline < move_start_ratio, 0.0, inside))\n")]),
    ("q-loop", "Q", [(D, LOOP, """        for src_idx in range(len(stems)):
            name = "source_%02d.wav" % src_idx
            sf.write(scene_dir / name, stems[src_idx], sample_rate)
""")]),
    ("q-path", "Q", [(D, 'scene_dir / f"source_{src_idx:02d}.wav"', 'str(scene_dir / f"source_{src_idx:02d}.wav")')]),
    ("q-kw", "Q", [(D, "sf.write(mixture_path, mix, sample_rate)", "sf.write(file=mixture_path, data=mix, samplerate=int(sample_rate))")]),
    ("q-comp", "Q", [(D, "        stems: list[np.ndarray] = []\n        for src_idx in range(n_sources):\n" + STEM + "            stems.append(_to_time_channel_audio(stem_mc.cpu().numpy(), n_mics=n_mics))\n", """        stems = [
            _to_time_channel_audio(
                convolver.convolve(dry[i : i + 1], rirs[:, i : i + 1]).cpu().numpy(), n_mics=n_mics
            )
            for i in range(n_sources)
        ]
""")]),
    ("q-call", "Q", [(D, "convolver.convolve(\n", "convolver(\n")]),
    ("q-helper", "Q", [(D, LOOP, "        _write_stems(scene_dir, stems, sample_rate)\n"), (D, "def build_dynamic_cmu_arctic_dataset(", '''def _write_stems(folder, stems, fs):
    for k, stem in enumerate(stems):
        sf.write(folder / f"source_{k:02d}.wav", stem, fs)


def build_dynamic_cmu_arctic_dataset(''')]),
    ("q-order", "Q", [(D, LOOP, ""), (D, "        sf.write(mixture_path, mix, sample_rate)\n", "        sf.write(mixture_path, mix, sample_rate)\n" + LOOP)]),
    ("q-flag", "Q", [(D, 'bool(src_idx in moving_index_set)', 'src_idx in moving_indices')]),
    ("q-enum", "Q", [(D, "for src_idx, item in enumerate(source_info):", "for src_idx in range(n_sources):\n            item = source_info[src_idx]")]),
    ("q-update", "Q", [(D, '            item["move_start_sec"] = float(move_start_sec)\n            item["move_end_sec"] = float(move_end_sec)\n', '            item.update({"move_start_sec": float(move_start_sec), "move_end_sec": float(move_end_sec)})\n')]),
    ("q-broadcast", "Q", [(D, "np.repeat(mic_positions[None, :, :], trajectory_steps, axis=0)", "np.tile(mic_positions[None, :, :], (trajectory_steps, 1, 1))")]),
    ("q-hypot", "Q", [(D, "        radius = float(np.linalg.norm(starts[src_idx, :2] - mic_center[:2]))\n        theta", "        radius = float(np.hypot(starts[src_idx, 0] - cx, starts[src_idx, 1] - cy))\n        theta")]),
    ("q-stack", "Q", [(D, "        trajectory[:, src_idx, 0] = cx + radius * np.cos(theta)\n        trajectory[:, src_idx, 1] = cy + radius * np.sin(theta)\n        trajectory[:, src_idx, 2] = float(starts[src_idx, 2])\n", "        trajectory[:, src_idx, :2] = np.stack([cx + radius * np.cos(theta), cy + radius * np.sin(theta)], axis=1)\n")]),
    ("q-norm", "Q", [(D, "    scale = peak_limit / peak\n    return [stem * scale for stem in stems]", "    out = []\n    for stem in stems:\n        out.append(stem * (peak_limit / peak))\n    return out")]),
    ("q-degrees", "Q", [(D, '"start_azimuth_deg": np.rad2deg(start_azimuth).tolist()', '"start_azimuth_deg": (start_azimuth * 180.0 / np.pi).tolist()')]),
    ("q-astensor", "Q", [(D, "src_traj = torch.tensor(src_traj_np, dtype=torch.float64)", "src_traj = torch.as_tensor(src_traj_np, dtype=torch.float64)")]),
    ("q-fromnumpy", "Q", [(D, "mic_traj = torch.tensor(mic_traj_np, dtype=torch.float64)", "mic_traj = torch.from_numpy(mic_traj_np).to(torch.float64)")]),
    ("q-info-dumps", "Q", [(D, '        with (scene_dir / "source_info.json").open("w", encoding="utf-8") as fh:\n            json.dump(source_info, fh, indent=2)\n', '        (scene_dir / "source_info.json").write_text(json.dumps(source_info, indent=2), encoding="utf-8")\n')]),
    ("q-sim", "Q", [(D, "        rirs = simulate_dynamic_rir(\n            room=room,\n            src_traj=src_traj,\n            mic_traj=mic_traj,\n            max_order=max_order,\n            nsample=rir_samples,\n        )\n", "        sim_args = {\"max_order\": max_order, \"nsample\": rir_samples}\n        rirs = simulate_dynamic_rir(room=room, src_traj=src_traj, mic_traj=mic_traj, **sim_args)\n")]),
    ("q-vec", "Q", [(D, "        dry = torch.stack(source_signals, dim=0).to(dtype=torch.float64)", "        dry = torch.stack([s.to(torch.float64) for s in source_signals])")]),
    ("q-namedtuple", "Q", [(D, "def _build_source_trajectory(", """class _Placement(NamedTuple):
    starts: np.ndarray
    ends: np.ndarray
    start_azimuth: np.ndarray
    end_azimuth: np.ndarray
    velocity: np.ndarray
    angular: np.ndarray
    turn: np.ndarray
    moving: list


def _build_source_trajectory("""), (D, "import argparse\n", "import argparse\nfrom typing import NamedTuple\n"), (D, """            return (
                starts,
                ends,
                start_azimuth,
                end_azimuth,
                source_velocity_mps,
                angular_velocity_rad_s,
                turn_direction,
                moving_indices,
            )""", """            return _Placement(
                starts=starts,
                ends=ends,
                start_azimuth=start_azimuth,
                end_azimuth=end_azimuth,
                velocity=source_velocity_mps,
                angular=angular_velocity_rad_s,
                turn=turn_direction,
                moving=moving_indices,
            )""")]),
    ("q-render", "Q", [(D, "        stems: list[np.ndarray] = []\n        for src_idx in range(n_sources):\n" + STEM + "            stems.append(_to_time_channel_audio(stem_mc.cpu().numpy(), n_mics=n_mics))\n\n" + NORM + MIX, "        stems, mix = _render(convolver, dry, rirs, n_mics)\n"), (D, "def build_dynamic_cmu_arctic_dataset(", """def _render(convolver, dry, rirs, n_mics):
    stems = []
    for i in range(dry.shape[0]):
        y = convolver.convolve(dry[i : i + 1], rirs[:, i : i + 1, :, :])
        stems.append(_to_time_channel_audio(y.cpu().numpy(), n_mics=n_mics))
    stems = _normalize_sources(stems)
    return stems, np.sum(np.stack(stems, axis=0), axis=0)


def build_dynamic_cmu_arctic_dataset(""")]),
    ("q-arc", "Q", [(D, "        trajectory[:, src_idx, 0] = cx + radius * np.cos(theta)\n        trajectory[:, src_idx, 1] = cy + radius * np.sin(theta)\n", "        delta = starts[src_idx, :2] - mic_center[:2]\n        turn = theta - start_azimuth[src_idx]\n        trajectory[:, src_idx, 0] = cx + radius * (np.cos(start_azimuth[src_idx]) * np.cos(turn) - np.sin(start_azimuth[src_idx]) * np.sin(turn))\n        trajectory[:, src_idx, 1] = cy + radius * (np.sin(start_azimuth[src_idx]) * np.cos(turn) + np.cos(start_azimuth[src_idx]) * np.sin(turn))\n")]),
    ("q-order2", "Q", [(D, "        src_traj = torch.tensor(src_traj_np, dtype=torch.float64)\n        mic_traj = torch.tensor(mic_traj_np, dtype=torch.float64)\n", "        mic_traj = torch.tensor(mic_traj_np, dtype=torch.float64)\n        src_traj = torch.tensor(src_traj_np, dtype=torch.float64)\n")]),
    ("q-early", "Q", [(D, "    for src_idx in moving_index_set:\n        radius", "    for src_idx in range(starts.shape[0]):\n        if src_idx not in moving_index_set:\n            continue\n        radius")]),
    ("q-theta", "Q", [(D, "            + (end_azimuth[src_idx] - start_azimuth[src_idx]) * alpha\n", "            + alpha * end_azimuth[src_idx] - alpha * start_azimuth[src_idx]\n")]),
    ("q-extra", "Q", [(D, '''                "motion_type": "arc",
''', '''                **{"motion_type": "arc"},
''')]),
    ("q-simulator", "Q", [(D, "        rirs = simulate_dynamic_rir(\n            room=room,\n            src_traj=src_traj,\n            mic_traj=mic_traj,\n            max_order=max_order,\n            nsample=rir_samples,\n        )\n", "        sim = partial(simulate_dynamic_rir, room=room)\n        rirs = sim(src_traj=src_traj, mic_traj=mic_traj, max_order=max_order, nsample=rir_samples)\n"), (D, "import argparse\n", "import argparse\nfrom functools import partial\n")]),
]
