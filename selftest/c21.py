D = "signal/dynamic.py"
I = "signal/internal.py"
HOPLOOP = """            frame = signal[s, start : start + hop]
            if frame.numel() == 0:
                continue
            for m in range(n_mic):
                seg = fft_convolve(frame, rirs[t, s, m])
                out[m, start : start + seg.numel()] += seg
"""
CPU = """    for t in range(t_steps):
        seg_len = int(w_len[t].item())
        if seg_len == 0:
            continue
        start = int(w_ini[t].item())
        for s in range(n_src):
            frame = segments[t, s, :seg_len]
            for m in range(n_mic):
                conv = fft_convolve(frame, rirs[t, s, m])
                out[m, start : start + seg_len + rir_len - 1] += conv
"""
BATCHADD = "out[:, start : start + seg_len + rir_len - 1] += conv_sum[\n                idx, :, : seg_len + rir_len - 1\n            ]"
CASES = [
    ("v-hopstart", "V", [(D, "            frame = signal[s, start : start + hop]", "            frame = signal[s, max(start - 1, 0) : start + hop]")]),
    ("v-hopframes", "V", [(D, "frames = math.ceil(signal.shape[1] / hop)", "frames = signal.shape[1] // hop")]),
    ("v-hopframes2", "V", [(D, "frames = min(frames, t_steps)", "frames = min(frames, t_steps - 1)")]),
    ("v-hoptail", "V", [(D, "out[m, start : start + seg.numel()] += seg", "out[m, start : start + hop] += seg[:hop]")]),
    ("v-hopidx", "V", [(D, "                seg = fft_convolve(frame, rirs[t, s, m])", "                seg = fft_convolve(frame, rirs[t, m, s])")]),
    ("v-hoplast", "V", [(D, "                seg = fft_convolve(frame, rirs[t, s, m])", "                seg = fft_convolve(frame, rirs[max(t - 1, 0), s, m])")]),
    ("v-hopshort", "V", [(D, "            if frame.numel() == 0:\n", "            if frame.numel() < hop:\n")]),
    ("v-step", "V", [(D, "step_fs = n_samples / t_steps", "step_fs = n_samples // t_steps")]),
    ("v-stepT1", "V", [(D, "step_fs = n_samples / t_steps", "step_fs = n_samples / max(t_steps - 1, 1)")]),
    ("v-end", "V", [(D, "torch.tensor([n_samples], device", "torch.tensor([n_samples - 1], device")]),
    ("v-break", "V", [(D, "        if seg_len == 0:\n            continue\n        start = int(w_ini[t].item())\n        for s", "        if seg_len == 0:\n            break\n        start = int(w_ini[t].item())\n        for s")]),
    ("v-maxlen", "V", [(D, "seg_len == 0:\n            continue\n        start", "seg_len < rir_len:\n            continue\n        start")]),
    ("v-place", "V", [(D, "                out[m, start : start + seg_len + rir_len - 1] += conv\n", "                out[m, start + 1 : start + seg_len + rir_len] += conv\n")]),
    ("v-assign", "V", [(D, "rir_len - 1] += conv\n", "rir_len - 1] = conv\n")]),
    ("v-cutend", "V", [(D, "end = int(w_ini[t + 1].item())\n        if end > start:\n            segments[t, :, : end - start] = signal[:, start:end]", "end = int(w_ini[t + 1].item())\n        if end > start + 1:\n            segments[t, :, : end - start] = signal[:, start:end]")]),
    ("v-cutrange", "V", [(D, "    for t in range(t_steps):\n        start = int(w_ini[t].item())\n        end", "    for t in range(t_steps - 1):\n        start = int(w_ini[t].item())\n        end")]),
    ("v-batchidx", "V", [(D, "lengths = w_len[t0:t1]\n", "lengths = w_len[t0:t1]\n"), (D, "seg_len = int(lengths[idx].item())", "seg_len = int(w_len[idx].item())")]),
    ("v-batchrir", "V", [(D, "torch.fft.rfft(rirs[t0:t1], n=fft_len, dim=-1)", "torch.fft.rfft(rirs[: t1 - t0], n=fft_len, dim=-1)")]),
    ("v-batchsum", "V", [(D, "conv_sum = conv.sum(dim=1)", "conv_sum = conv[:, 0]")]),
    ("v-batchsum2", "V", [(D, "conv_sum = conv.sum(dim=1)", "conv_sum = conv.sum(dim=2)")]),
    ("v-batchfft", "V", [(D, "conv_len = max_len + rir_len - 1\n        fft_len = 1 << (conv_len - 1)", "conv_len = max_len + rir_len - 1\n        fft_len = 1 << (max_len - 1)")]),
    ("v-batchtail", "V", [(D, BATCHADD, "out[:, start : start + seg_len] += conv_sum[idx, :, :seg_len]")]),
    ("v-batchchunk", "V", [(D, "t1 = min(t0 + chunk_size, t_steps)", "t1 = min(t0 + chunk_size - 1, t_steps)")]),
    ("v-batchstart", "V", [(D, "            start = int(w_ini[t].item())\n            out[:,", "            start = int(w_ini[t0].item())\n            out[:,")]),
    ("v-tszero", "V", [(D, "        if ts[0].item() != 0:\n            raise ValueError(\"first timestamp must be 0\")\n", "")]),
    ("v-tsorder", "V", [(D, "    if torch.any(w_len < 0):\n        raise ValueError(\"timestamps must be non-decreasing and within the signal\")\n", "")]),
    ("v-tsorder2", "V", [(D, "    if torch.any(w_len < 0):", "    if torch.any(w_len[:-1] < 0):")]),
    ("v-tscount", "V", [(D, "if ts.ndim != 1 or ts.numel() != t_steps:", "if ts.ndim != 1 or ts.numel() < t_steps:")]),
    ("v-tsscale", "V", [(D, "w_ini = (ts * fs).to(torch.long)", "w_ini = (ts * n_samples / ts[-1]).to(torch.long)")]),
    ("v-mode", "V", [(D, "        if self.mode not in (\"trajectory\", \"hop\"):\n            raise ValueError(\"mode must be 'trajectory' or 'hop'\")\n", "")]),
    ("v-swap", "V", [(D, "if self.mode == \"hop\":\n", "if self.mode != \"hop\":\n")]),
    ("v-count", "V", [(I, "        if signal.shape[0] not in (1, rirs.shape[1]):\n            raise ValueError(\"signal source count does not match rirs\")\n        return rirs\n", "        return rirs\n")]),
    ("v-view3", "V", [(I, "return rirs.view(rirs.shape[0], 1, rirs.shape[1], rirs.shape[2])", "return rirs.view(rirs.shape[0], rirs.shape[1], 1, rirs.shape[2])")]),
    ("v-squeeze", "V", [(D, "    return out.squeeze(0) if n_mic == 1 else out\n\n\ndef _convolve_dynamic_rir_trajectory_batched", "    return out[0] if n_src == 1 else out\n\n\ndef _convolve_dynamic_rir_trajectory_batched")]),
    ("q-hopbreak", "Q", [(D, "        start = t * hop\n        for s", "        start = t * hop\n        if start >= signal.shape[1]:\n            break\n        for s")]),
    ("q-ceil", "Q", [(D, "frames = math.ceil(signal.shape[1] / hop)", "frames = (signal.shape[1] + hop - 1) // hop")]),
    ("q-direct", "Q", [(D, "frame = segments[t, s, :seg_len]", "frame = signal[s, start : start + seg_len]")]),
    ("q-order", "Q", [(D, HOPLOOP, """            for m in range(n_mic):
                frame = signal[s, start : start + hop]
                if frame.shape[0] == 0:
                    continue
                seg = fft_convolve(frame, rirs[t, s, m])
                end = start + seg.shape[0]
                out[m, start:end] += seg
""")]),
    ("q-mfirst", "Q", [(D, CPU, """    for m in range(n_mic):
        for t in range(t_steps):
            start = int(w_ini[t].item())
            seg_len = int(w_ini[t + 1].item()) - start
            if seg_len <= 0:
                continue
            for s in range(n_src):
                out[m, start : start + seg_len + rir_len - 1] += fft_convolve(segments[t, s, :seg_len], rirs[t, s, m])
""")]),
    ("q-clamp", "Q", [(D, "    max_len = int(w_len.max().item())\n    segments", "    max_len = max(int(w_len.max().item()), 1)\n    segments")]),
    ("q-chunk", "Q", [(D, "chunk_size: int = 8", "chunk_size: int = 16")]),
    ("q-all", "Q", [(D, "    if torch.any(w_len < 0):", "    if not torch.all(w_len >= 0):")]),
    ("q-helper", "Q", [(D, "        start = int(w_ini[t].item())\n        for s in range(n_src):\n            frame = segments[t, s, :seg_len]", "        start = _at(w_ini, t)\n        for s in range(n_src):\n            frame = segments[t, s, :seg_len]"), (D, "def _convolve_dynamic_rir_trajectory_batched(", "def _at(v, k):\n    return int(v[k].item())\n\n\ndef _convolve_dynamic_rir_trajectory_batched(")]),
    ("q-tolist", "Q", [(D, "    max_len = int(w_len.max().item())\n    segments", "    bounds = [int(v) for v in w_ini.tolist()]\n    assert len(bounds) == t_steps + 1\n    max_len = int(w_len.max().item())\n    segments")]),
    ('b-hoptail', 'V', [('signal/dynamic.py', '    frames = math.ceil(signal.shape[1] / hop)', '    frames = signal.shape[1] // hop')]),
    ('b-round', 'V', [('signal/dynamic.py', '            torch.arange(t_steps, device=signal.device, dtype=ts_dtype) * step_fs\n        ).to(torch.long)', '            torch.arange(t_steps, device=signal.device, dtype=ts_dtype) * step_fs\n        ).round().to(torch.long)')]),
    ('b-int', 'V', [('signal/dynamic.py', '        step_fs = n_samples / t_steps', '        step_fs = n_samples // t_steps')]),
    ('b-neg', 'V', [('signal/dynamic.py', '    if torch.any(w_len < 0):', '    if torch.any(w_len[:-1] < 0):')]),
    ('b-first', 'V', [('signal/dynamic.py', '        if ts[0].item() != 0:', '        if ts[0].item() < 0:')]),
    ('b-prev', 'V', [('signal/dynamic.py', '                conv = fft_convolve(frame, rirs[t, s, m])', '                conv = fft_convolve(frame, rirs[max(t - 1, 0), s, m])')]),
]
