D = "sim/directivity.py"
C = "sim/ism/contributions.py"
H = "sim/ism/helpers.py"
P = "sim/ism/api.py"
O = "util/orientation.py"
CASES = [
    ("hyper", "V", [(D, "return 0.25 + 0.75 * cos_theta", "return 0.75 + 0.25 * cos_theta")]),
    ("abs", "V", [(D, "        return cos_theta\n", "        return cos_theta.abs()\n")]),
    ("clampcard", "V", [(D, "return 0.5 + 0.5 * cos_theta", "return torch.clamp(0.5 + 0.5 * cos_theta, min=0.25)")]),
    ("homni", "V", [(D, "(cos_theta > 0).to", "(cos_theta < 0).to")]),
    ("unknown", "V", [(D, '    raise ValueError(f"unsupported directivity pattern: {pattern}")', "    return torch.ones_like(cos_theta)")]),
    ("swap", "V", [(D, "        return directivity[0], directivity[1]\n", "        return directivity[1], directivity[0]\n")]),
    ("same", "V", [(C, "gain = gain * directivity_gain(mic_pattern, cos_theta)\n\n    attenuation = gain / dist\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time", "gain = gain * directivity_gain(src_pattern, cos_theta)\n\n    attenuation = gain / dist\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time")]),
    ("norm", "V", [(H, "    unit = normalize_orientation(vec)\n", "    unit = vec\n")]),
    ("elev", "V", [(O, "            z = torch.sin(elevation)", "            z = torch.cos(elevation)")]),
    ("azel", "V", [(O, "            azimuth = orientation[..., 0]\n            elevation = orientation[..., 1]", "            elevation = orientation[..., 0]\n            azimuth = orientation[..., 1]")]),
    ("default", "V", [(P, '        if mic_ori is None:\n            raise ValueError("mic orientation required for non-omni directivity")\n        mic_dir = orientation_to_unit(mic_ori, dim)\n\n    n_src = src_pos', '        if mic_ori is None:\n            mic_ori = torch.eye(dim, device=device, dtype=dtype)[0]\n        mic_dir = orientation_to_unit(mic_ori, dim)\n\n    n_src = src_pos')]),
    ("q-table", "Q", [(D, '    if pattern in ("subcardioid", "subcard"):\n        return 0.75 + 0.25 * cos_theta\n    if pattern in ("cardioid", "card"):\n        return 0.5 + 0.5 * cos_theta\n    if pattern in ("hypercardioid", "hypcard"):\n        return 0.25 + 0.75 * cos_theta\n', '    table = {"subcardioid": 0.75, "subcard": 0.75, "cardioid": 0.5, "card": 0.5, "hypercardioid": 0.25, "hypcard": 0.25}\n    if pattern in table:\n        p = table[pattern]\n        return p + (1.0 - p) * cos_theta\n')]),
    ("q-where", "Q", [(D, "(cos_theta > 0).to(cos_theta.dtype)", "torch.where(cos_theta > 0, torch.ones_like(cos_theta), torch.zeros_like(cos_theta))")]),
    ("q-cos", "Q", [(H, "    orientation = normalize_orientation(orientation)\n    unit = normalize_orientation(vec)\n    return torch.sum(unit * orientation, dim=-1)", "    num = torch.sum(vec * orientation, dim=-1)\n    den = torch.linalg.norm(vec, dim=-1).clamp(min=1e-8) * torch.linalg.norm(orientation, dim=-1).clamp(min=1e-8)\n    return num / den")]),
    ('b-ndim1', 'V', [('sim/ism/api.py', '            src_dirs = src_dirs.unsqueeze(0).repeat(n_src, 1)', '            src_dirs = torch.cat([src_dirs.unsqueeze(0), torch.zeros_like(src_dirs).unsqueeze(0).repeat(n_src - 1, 1)])')]),
    ('b-micneg', 'V', [('sim/ism/contributions.py', '        cos_theta = _cos_between(-vec, mic_dir)\n        gain = gain * directivity_gain(mic_pattern, cos_theta)\n\n    attenuation = gain / dist\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time_batch', '        cos_theta = _cos_between(vec, mic_dir)\n        gain = gain * directivity_gain(mic_pattern, cos_theta)\n\n    attenuation = gain / dist\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time_batch')]),
    ('b-swap', 'V', [('sim/ism/contributions.py', '            mic_dir[None, None, :, None, :]\n            if mic_dir.ndim == 2', '            mic_dir[None, :, None, None, :]\n            if mic_dir.ndim == 2')]),
    ('b-pair', 'V', [('sim/ism/prepare.py', '        return orientation[0], orientation[1]', '        return orientation[1], orientation[0]')]),
    ('b-pair2', 'V', [('sim/ism/helpers.py', 'ori = orientation[0] if which == "source" else orientation[1]', 'ori = orientation[0]')]),
]
