A = "sim/ism/api.py"
C = "sim/ism/contributions.py"
P = "sim/ism/prepare.py"
CASES = [
    ("micswap", "V", [(C, "vec = mic_traj[:, None, :, None, :] - img[:, :, None, :, :]", "vec = mic_traj[0:1, None, :, None, :] - img[:, :, None, :, :]")]),
    ("reshape", "V", [(A, "        sample_flat = sample_chunk.reshape(t_steps * n_src, n_mic, -1)\n        attenuation_flat = attenuation_chunk.reshape(t_steps * n_src, n_mic, -1)", "        sample_flat = sample_chunk.transpose(0, 1).reshape(t_steps * n_src, n_mic, -1)\n        attenuation_flat = attenuation_chunk.transpose(0, 1).reshape(t_steps * n_src, n_mic, -1)")]),
    ("ampswap", "V", [(A, "attenuation_flat = attenuation_chunk.reshape(t_steps * n_src, n_mic, -1)", "attenuation_flat = attenuation_chunk.transpose(0, 1).reshape(t_steps * n_src, n_mic, -1)")]),
    ("axes", "V", [(A, "    rirs = apply_rir_hpf(rirs, room.fs, cfg)\n    return rirs", "    rirs = apply_rir_hpf(rirs, room.fs, cfg)\n    return rirs.transpose(1, 2)")]),
    ("oritime", "V", [(C, "src_dirs_b = src_dirs[None, :, None, None, :]", "src_dirs_b = src_dirs[:, None, None, None, :]")]),
    ("unsq", "V", [(P, "    if src_traj.ndim == 2:\n        src_traj = src_traj.unsqueeze(1)", "    if src_traj.ndim == 2:\n        src_traj = src_traj.unsqueeze(0)")]),
    ("negvec", "V", [(C, "        cos_theta = _cos_between(-vec, mic_dir_b)\n", "        cos_theta = _cos_between(vec, mic_dir_b)\n")]),
    ("cap", "V", [(C, "    base = 2.0 * room_size * n\n    img = base[None, None, :, :]", "    base = 2.0 * room_size * torch.abs(n)\n    img = base[None, None, :, :]")]),
    ("q-both", "Q", [(C, "    attenuation = gain / dist\n    return sample, attenuation\n", "    attenuation = gain / (2 * dist)\n    return sample, attenuation\n")]),
    ("q-view", "Q", [(A, "        sample_flat = sample_chunk.reshape(t_steps * n_src, n_mic, -1)\n        attenuation_flat = attenuation_chunk.reshape(t_steps * n_src, n_mic, -1)", "        sample_flat = sample_chunk.flatten(0, 1)\n        attenuation_flat = attenuation_chunk.flatten(0, 1)")]),
    ("q-loop", "Q", [(C, "    img = base[None, None, :, :] + sign[None, None, :, :] * src_traj[:, :, None, :]\n    vec = mic_traj[:, None, :, None, :] - img[:, :, None, :, :]", "    img = base + sign * src_traj.unsqueeze(2)\n    vec = mic_traj.unsqueeze(1).unsqueeze(3) - img.unsqueeze(2)")]),
    ("q-vec", "Q", [(C, "vec = mic_traj[:, None, :, None, :] - img[:, :, None, :, :]", "vec = -(img.unsqueeze(2) - mic_traj.unsqueeze(1).unsqueeze(-2))")]),
    ('b-trajview', 'V', [('sim/ism/api.py', '        sample_flat = sample_chunk.reshape(t_steps * n_src, n_mic, -1)', '        sample_flat = sample_chunk.transpose(0, 1).reshape(t_steps * n_src, n_mic, -1)')]),
    ('b-ori', 'V', [('sim/ism/contributions.py', 'mic_dir[None, None, :, None, :]\n            if mic_dir.ndim == 2', 'mic_dir[:1][None, None, :, None, :]\n            if mic_dir.ndim == 2')]),
    ('b-cos', 'V', [('sim/ism/contributions.py', 'src_dirs_b = src_dirs[None, :, None, None, :]\n        cos_theta = _cos_between(vec, src_dirs_b)', 'src_dirs_b = src_dirs[None, :, None, None, :]\n        cos_theta = _cos_between(-vec, src_dirs_b)')]),
    ('b-first', 'V', [('sim/ism/contributions.py', '    vec = mic_traj[:, None, :, None, :] - img[:, :, None, :, :]', '    vec = mic_traj[:1, None, :, None, :] - img[:, :, None, :, :]')]),
    ('b-nohpf', 'V', [('sim/ism/api.py', '    rirs = apply_rir_hpf(rirs, room.fs, cfg)\n    return rirs', '    return rirs')]),
]
