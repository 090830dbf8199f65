A = "sim/ism/accumulate.py"
CASES = [
    ("center", "V", [(A, "t = n[None, None, :] - fdl2 - frac_m[..., None]", "t = n[None, None, :] - fdl2 + frac_m[..., None]")]),
    ("round", "V", [(A, "idx0 = torch.floor(sample).to(torch.int64)\n    frac = sample - idx0.to(sample.dtype)", "idx0 = torch.floor(sample).to(torch.int64)\n    frac = sample - idx0.to(sample.dtype)\n    idx0 = torch.round(sample).to(torch.int64)")]),
    ("lutsize", "V", [(A, "lut_size = (fdl + 1) * lut_gran + 1\n", "lut_size = fdl * lut_gran + 1\n"), (A, "torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size", "torch.linspace(-fdl2 - 1, fdl2, lut_size")]),
    ("lutstep", "V", [(A, "lut_size = (fdl + 1) * lut_gran + 1", "lut_size = (fdl + 1) * lut_gran + 2")]),
    ("lutstart", "V", [(A, "torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size", "torch.linspace(-fdl2, fdl2 + 2, lut_size")]),
    ("lerp", "V", [(A, "interp = s0 + x_off[..., None] * (s1 - s0)", "interp = s1 + x_off[..., None] * (s0 - s1)")]),
    ("window", "V", [(A, "periodic=False", "periodic=True")]),
    ("lutwin", "V", [(A, "            filt = interp * window[None, None, :]", "            filt = interp")]),
    ("valid", "V", [(A, "valid = (target >= 0) & (target < nsample)", "valid = (target >= 0) & (target <= nsample)")]),
    ("q-validneg", "Q", [(A, "valid = (target >= 0) & (target < nsample)", "valid = target < nsample")]),
    ("rowfirst", "V", [(A, "        valid = (target >= 0) & (target < nsample)\n        if not valid.any():\n            continue\n\n        target = target + sm_offsets\n", "        target = target + sm_offsets\n        valid = (target >= 0) & (target < n_sm * nsample)\n        if not valid.any():\n            continue\n\n")]),
    ("rowstride", "V", [(A, "torch.arange(n_sm, device=rir.device, dtype=torch.int64) * nsample", "torch.arange(n_sm, device=rir.device, dtype=torch.int64) * (nsample - 1)")]),
    ("offsets", "V", [(A, "        cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2\n", "        cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2 - 1\n")]),
    ("q-idx", "Q", [(A, "        target = idx[..., None] + offsets[None, None, :]\n        valid = (target >= 0) & (target < nsample)", "        target = idx.unsqueeze(-1) + (offsets)\n        valid = torch.logical_and(target.ge(0), target.lt(nsample))")]),
    ("q-lerp", "Q", [(A, "interp = s0 + x_off[..., None] * (s1 - s0)", "w = x_off.unsqueeze(-1)\n            interp = (1 - w) * s0 + w * s1")]),
    ("q-frac", "Q", [(A, "            x_off_frac = (1.0 - frac_m) * lut_gran\n            lut_gran_off = torch.floor(x_off_frac).to(torch.int64)", "            x_off_frac = lut_gran - frac_m * lut_gran\n            lut_gran_off = x_off_frac.floor().long()")]),
    ("q-hann", "Q", [(A, "cached = torch.hann_window(fdl, periodic=False, device=device, dtype=dtype)", "k = torch.arange(fdl, device=device, dtype=dtype)\n        cached = torch.sin(torch.pi * k / (fdl - 1)) ** 2")]),
    ("q-indexadd", "Q", [(A, "rir_flat.scatter_add_(0, target_flat, values_flat)", "rir_flat.index_add_(0, target_flat, values_flat)")]),
    ("q-biglut", "Q", [(A, "lut_size = (fdl + 1) * lut_gran + 1", "lut_size = (fdl + 2) * lut_gran + 1"), (A, "torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size", "torch.linspace(-fdl2 - 1, fdl2 + 2, lut_size")]),
    ('b-valid', 'V', [('sim/ism/accumulate.py', 'valid = (target >= 0) & (target < nsample)', 'valid = (target >= 0) & (target <= nsample)')]),
    ('b-clamp', 'V', [('sim/ism/accumulate.py', '        target = target + sm_offsets\n', '        target = target.clamp(0, nsample - 1) + sm_offsets\n        valid = valid | True\n')]),
    ('b-lutedge', 'V', [('sim/ism/accumulate.py', '    lut_size = (fdl + 1) * lut_gran + 1\n', '    lut_size = (fdl + 1) * lut_gran\n')]),
    ('b-perio', 'V', [('sim/ism/accumulate.py', 'torch.hann_window(fdl, periodic=False,', 'torch.hann_window(fdl, periodic=True,')]),
    ('b-round', 'V', [('sim/ism/accumulate.py', '    idx0 = torch.floor(sample).to(torch.int64)', '    idx0 = torch.round(sample).to(torch.int64)')]),
    ('b-s1', 'V', [('sim/ism/accumulate.py', '            s1 = torch.take(sinc_lut, lut_pos + 1)', '            s1 = torch.take(sinc_lut, lut_pos + lut_gran)')]),
    ('b-xoff', 'V', [('sim/ism/accumulate.py', 'x_off_frac = (1.0 - frac_m) * lut_gran', 'x_off_frac = frac_m * lut_gran')]),
    ('b-smoff', 'V', [('sim/ism/accumulate.py', 'torch.arange(n_sm, device=rir.device, dtype=torch.int64) * nsample', 'torch.arange(n_sm, device=rir.device, dtype=torch.int64) * (nsample - 1)')]),
    ('b-dropall', 'V', [('sim/ism/accumulate.py', '        if not valid.any():\n            continue\n', '        if not valid.all():\n            continue\n')]),
]
