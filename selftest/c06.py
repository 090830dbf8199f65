AU, DY, HP, SA, ST, OR, ME, AR, RO, CO, TR, IN = "io/audio.py", "signal/dynamic.py", "sim/ism/hpf.py", "geometry/sampling.py", "signal/static.py", "util/orientation.py", "io/metadata.py", "geometry/arrays.py", "models/room.py", "datasets/collate.py", "geometry/trajectories.py", "signal/internal.py"
BU = "datasets/dynamic_cmu_arctic.py"
NOR = "            audio = audio / max_val * peak\n"
TS = "        w_ini = (ts * fs).to(torch.long)\n"
CL = "    return torch.max(torch.min(positions, max_v), min_v)"
HK = "    hpf_kwargs = dict(kwargs)\n"
EX = '''    if extra:
        metadata["extra"] = _to_serializable(extra)
'''
FR = "            frame = signal[s, start : start + hop]\n"
CASES = [
    ("audioinplace", "V", [(AU, NOR, "            audio /= max_val\n            audio *= peak\n")]),
    ("audiomethod", "V", [(AU, NOR, "            audio.mul_(peak / max_val)\n")]),
    ("audioslice", "V", [(AU, NOR, "            audio[...] = audio / max_val * peak\n")]),
    ("audionumpy", "V", [(AU, NOR, "            arr = audio.numpy()\n            arr *= peak / max_val\n")]),
    ("audioout", "V", [(AU, NOR, "            torch.mul(audio, peak / max_val, out=audio)\n")]),
    ("tsinplace", "V", [(DY, TS, "        ts *= fs\n        w_ini = ts.to(torch.long)\n")]),
    ("frame", "V", [(DY, FR, FR + "            frame *= 0.5\n")]),
    ("hpfkw", "V", [(HP, HK, "    hpf_kwargs = kwargs\n")]),
    ("hpfdefault", "V", [(HP, HK, '    kwargs.setdefault("ftype", "butter")\n' + HK)]),
    ("clamp", "V", [(SA, CL, "    return positions.clamp_(min_v, max_v)")]),
    ("clampview", "V", [(SA, CL, "    for d in range(room_size.numel()):\n        positions[..., d].clamp_(float(min_v[d]), float(max_v[d]))\n    return positions")]),
    ("orient", "V", [(OR, "    return orientation / norm\n", "    return orientation.div_(norm)\n")]),
    ("extra", "V", [(ME, EX, '    if extra is not None:\n        extra["format"] = "torchrir"\n        metadata["extra"] = _to_serializable(extra)\n')]),
    ("collate", "V", [(CO, "    batch = list(items)\n", "    batch = list(items)\n    for it in batch:\n        it.audio.nan_to_num_()\n")]),
    ("collatemeta", "V", [(CO, '        metadata = [getattr(item, "metadata", None) for item in batch]\n', '        metadata = [getattr(item, "metadata", None) for item in batch]\n    items.reverse()\n')]),
    ("speakers", "V", [(BU, "    speakers_list = [str(speaker) for speaker in speakers]\n", "    speakers.sort()\n    speakers_list = [str(speaker) for speaker in speakers]\n")]),
    ("ensure", "V", [(IN, "def _ensure_signal(signal: Tensor) -> Tensor:\n", "def _ensure_signal(signal: Tensor) -> Tensor:\n    signal[torch.isnan(signal)] = 0.0\n")]),
    ("room", "V", [(RO, '        if torch.any(size <= 0):\n', '        size.abs_()\n        if torch.any(size <= 0):\n')]),
    ("resultsrc", "V", [("sim/ism/api.py", "    n_src = src_pos.shape[0]\n", "    src_pos += 0.0\n    n_src = src_pos.shape[0]\n")]),
    ("audioclone", "Q", [(AU, NOR, "            audio = audio.clone()\n            audio /= max_val\n            audio *= peak\n")]),
    ("audiofresh", "Q", [(AU, NOR, "            audio = audio * (peak / max_val)\n            audio.clamp_(-peak, peak)\n")]),
    ("tscopy", "Q", [(DY, TS, "        ts = ts * fs\n        ts.floor_()\n        w_ini = ts.to(torch.long)\n")]),
    ("hpfcopy", "Q", [(HP, HK, "    hpf_kwargs = {**kwargs}\n")]),
    ("hpfcopy2", "Q", [(HP, HK, "    hpf_kwargs = kwargs.copy()\n")]),
    ("clampcopy", "Q", [(SA, CL, "    out = positions.clone()\n    out = torch.minimum(out, max_v)\n    out.clamp_(min=0.0)\n    return torch.max(out, min_v)")]),
    ("extracopy", "Q", [(ME, EX, '    if extra:\n        more = dict(extra)\n        more["n"] = len(more)\n        more.pop("n")\n        metadata["extra"] = _to_serializable(more)\n')]),
    ("collatecopy", "Q", [(CO, "    batch = list(items)\n", "    batch = list(items)\n    batch.append(batch[0])\n    batch.pop()\n")]),
    ("framewin", "Q", [(DY, FR, FR + "            frame = frame * 1.0\n            frame += 0.0\n")]),
    ("orientout", "Q", [(OR, "    return orientation / norm\n", "    out = torch.empty_like(orientation)\n    torch.div(orientation, norm, out=out)\n    return out\n")]),
    ('b-hpfkw', 'V', [('sim/ism/hpf.py', '    hpf_kwargs = dict(kwargs)\n', '    hpf_kwargs = kwargs\n')]),
    ('b-squeeze', 'V', [('sim/ism/prepare.py', '        src_pos = src_pos.unsqueeze(0)\n', '        src_pos = src_pos.unsqueeze_(0)\n')]),
    ('b-beta', 'V', [('sim/ism/images.py', '    beta = beta.view(dim, 2)\n', '    beta = beta.view(dim, 2)\n    beta.clamp_(0.0, 1.0)\n')]),
    ('b-meta', 'V', [('io/metadata.py', '    if extra:\n        metadata["extra"] = _to_serializable(extra)', '    if extra:\n        extra.setdefault("fs", fs)\n        metadata["extra"] = _to_serializable(extra)')]),
    ('b-ts', 'V', [('signal/dynamic.py', '        w_ini = (ts * fs).to(torch.long)', '        w_ini = ts.mul_(fs).to(torch.long)')]),
]
