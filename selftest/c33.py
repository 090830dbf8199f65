D = "sim/ism/diffuse.py"
H = "sim/ism/hpf.py"
A = "sim/ism/api.py"
CASES = [
    ("scale", "V", [(D, "noise * decay * scale", "noise * scale")]),
    ("scale2", "V", [(D, "noise * decay * scale", "noise * decay")]),
    ("tau", "V", [(D, "tau = t60 / 6.9078", "tau = t60 / 13.8155")]),
    ("start", "V", [(D, "    rir[..., tdiff_idx:] = noise * decay * scale", "    rir[..., -tail_len - 1 : -1] = noise * decay * scale")]),
    ("first", "V", [(D, "torch.linalg.norm(rir[..., tdiff_idx - 1 : tdiff_idx], dim=-1, keepdim=True)", "torch.linalg.norm(rir[..., :1], dim=-1, keepdim=True)")]),
    ("ms", "V", [(D, "int(math.floor(tdiff * room.fs))", "int(math.floor(tdiff * room.fs / 2))")]),
    ("tmax", "V", [(A, "_apply_diffuse_tail(rir, room, beta, tdiff, tmax, seed=cfg.seed)", "_apply_diffuse_tail(rir, room, beta, tmax / 2, tmax, seed=cfg.seed)")]),
    ("add", "V", [(D, "    rir[..., tdiff_idx:] = noise * decay * scale", "    rir *= 0.5\n    rir[..., tdiff_idx:] = noise * decay * scale")]),
    ("time", "V", [(D, "t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs", "t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / nsample")]),
    ("axis", "V", [(H, "axis=-1)", "axis=0)")]),
    ("wc", "V", [(H, "wc = 2.0 * fc / fs", "wc = fc / fs")]),
    ("clip", "V", [(H, "wc = 2.0 * fc / fs", "wc = min(2.0 * fc / fs, 0.99)")]),
    ("btype", "V", [(H, '"highpass"', '"lowpass"')]),
    ("dtype", "V", [(H, "device=rir.device, dtype=rir.dtype", "device=rir.device, dtype=torch.float32")]),
    ("device", "V", [(H, "torch.as_tensor(filtered, device=rir.device, dtype=rir.dtype)", "torch.as_tensor(filtered, dtype=rir.dtype)")]),
    ("dynskip", "V", [(A, "    rirs = apply_rir_hpf(rirs, room.fs, cfg)\n", "")]),
    ("fs", "V", [(A, "    rirs = apply_rir_hpf(rirs, room.fs, cfg)", "    rirs = apply_rir_hpf(rirs, 16000.0, cfg)")]),
    ("flip", "V", [(H, "    rir_np = rir.detach()", "    rir_np = rir.flip(-1).detach()")]),
    ("order", "V", [(D, "    scale = (\n", "    rir[..., tdiff_idx:] = 0\n    rir[..., : tdiff_idx] = rir[..., : tdiff_idx].flip(-1)\n    scale = (\n")]),
    # behaviour kept
    ("q-helper", "Q", [(D, "    gen = torch.Generator", "    def shape(x, k):\n        return x[..., k:].shape\n\n    gen = torch.Generator"), (D, "rir[..., tdiff_idx:].shape, device", "shape(rir, tdiff_idx), device")]),
    ("q-guard", "Q", [(D, "    if tdiff_idx <= 0:\n        return rir\n", "    if tdiff_idx < 1:\n        return rir\n")]),
    ("q-abs", "Q", [(D, "        torch.linalg.norm(rir[..., tdiff_idx - 1 : tdiff_idx], dim=-1, keepdim=True)\n", "        rir[..., tdiff_idx - 1 : tdiff_idx].abs()\n")]),
    ("q-ln", "Q", [(D, "tau = t60 / 6.9078", "tau = t60 / (3.0 * math.log(10.0))")]),
    ("q-fs", "Q", [(H, "        Wn=wc,", "        Wn=fc,\n        fs=fs,")]),
    ("q-np", "Q", [(H, "    return torch.as_tensor(filtered, device=rir.device, dtype=rir.dtype)", "    return torch.from_numpy(filtered).to(device=rir.device, dtype=rir.dtype)")]),
    ("q-shortened", "Q", [(A, "    if tdiff is not None and tdiff < tmax:\n", "    use_tail = tdiff is not None and tdiff < tmax\n    if use_tail:\n")]),
    ("q-axis", "Q", [(H, "sosfiltfilt(sos, rir_np, axis=-1)", "sosfiltfilt(sos, rir_np)")]),
    ("q-whole", "Q", [(D, "    rir[..., tdiff_idx:] = noise * decay * scale\n    return rir", "    tail = noise * decay * scale\n    return torch.cat([rir[..., :tdiff_idx], tail], dim=-1)")]),
    ("q-expt", "Q", [(D, "    t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs", "    t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype)\n    t = t * (1.0 / room.fs)")]),
    ('b-idx', 'V', [('sim/ism/diffuse.py', 'tdiff_idx = min(nsample - 1, int(math.floor(tdiff * room.fs)))', 'tdiff_idx = min(nsample - 1, int(math.floor(tdiff * room.fs)) - 1)')]),
    ('b-tau', 'V', [('sim/ism/diffuse.py', 'tau = t60 / 6.9078', 'tau = t60 / 13.8155')]),
    ('b-scale', 'V', [('sim/ism/diffuse.py', 'rir[..., tdiff_idx - 1 : tdiff_idx]', 'rir[..., :tdiff_idx]')]),
    ('b-room', 'V', [('sim/ism/diffuse.py', 'estimate_t60_from_beta(room.size, beta)', 'estimate_t60_from_beta(room.size, beta.flip(0))')]),
    ('b-axis', 'V', [('sim/ism/hpf.py', 'filtered = sosfiltfilt(sos, rir_np, axis=-1)', 'filtered = sosfiltfilt(sos, rir_np, axis=rir_np.ndim - 2 if rir_np.ndim > 3 else -1)')]),
    ('b-skip', 'V', [('sim/ism/hpf.py', '    if not cfg.rir_hpf_enable:', '    if not cfg.rir_hpf_enable or rir.shape[-1] < 64:')]),
]
