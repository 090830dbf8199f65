I = "sim/ism/images.py"
C = "sim/ism/contributions.py"
H = "sim/ism/helpers.py"
CASES = [
    ("sign", "V", [(C, "sign = torch.where((n_vec % 2) == 0, 1.0, -1.0).to(dtype=src_traj.dtype)", "sign = torch.where((n_vec % 2) == 1, -1.0, 1.0).to(dtype=src_traj.dtype)\n    sign = torch.where(n_vec < 0, torch.where((torch.abs(n_vec) % 2) == 0, -sign, sign), sign)")]),
    ("floor", "V", [(I, "    n = torch.floor_divide(n_vec + 1, 2).to(dtype=src_pos.dtype)\n    base", "    n = torch.div(n_vec + 1, 2, rounding_mode=\"trunc\").to(dtype=src_pos.dtype)\n    base")]),
    ("lohi", "V", [(I, "    beta_lo = beta[:, 0]\n    beta_hi = beta[:, 1]", "    beta_lo = beta[:, 1]\n    beta_hi = beta[:, 0]")]),
    ("wallpair", "V", [(I, "beta = beta.view(dim, 2)", "beta = beta.view(2, dim).transpose(0, 1)")]),
    ("nlo", "V", [(I, "n_lo = torch.where(n >= 0, n // 2, (k + 1) // 2)", "n_lo = torch.where(n >= 0, n // 2, k // 2 + 1)")]),
    ("order", "V", [(I, "n_vec[order <= max_order]", "n_vec[order < max_order]")]),
    ("maxnorm", "V", [(I, "order = torch.sum(torch.abs(n_vec), dim=-1)", "order = torch.amax(torch.abs(n_vec), dim=-1)")]),
    ("range", "V", [(I, "rng = torch.arange(-max_order, max_order + 1,", "rng = torch.arange(-max_order, max_order,")]),
    ("nbrange", "V", [(I, "torch.arange(-n, n + 1,", "torch.arange(-n + 1, n + 1,")]),
    ("att", "V", [(C, "    attenuation = gain / dist\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time", "    attenuation = gain / dist**2\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time")]),
    ("prodmean", "V", [(I, "return torch.prod(coeff, dim=1)", "return torch.prod(coeff[:, :-1], dim=1) * coeff[:, 0]")]),
    ("q-mod", "Q", [(I, "    sign = torch.where((n_vec % 2) == 0, 1.0, -1.0).to(dtype=src_pos.dtype)\n    n = torch.floor_divide(n_vec + 1, 2).to(dtype=src_pos.dtype)\n    base", "    sign = (1 - 2 * (n_vec % 2)).to(dtype=src_pos.dtype)\n    n = ((n_vec + 1) // 2).to(dtype=src_pos.dtype)\n    base")]),
    ("q-div", "Q", [(I, "    n = torch.floor_divide(n_vec + 1, 2).to(dtype=src_pos.dtype)\n    base", "    n = torch.div(n_vec + n_vec % 2, 2).to(dtype=src_pos.dtype)\n    base")]),
    ("q-refl", "Q", [(I, "    n_hi = torch.where(n >= 0, (n + 1) // 2, k // 2)\n    n_lo = torch.where(n >= 0, n // 2, (k + 1) // 2)\n", "    half_up, half_dn = (k + 1) // 2, k // 2\n    neg = n < 0\n    n_hi = torch.where(neg, half_dn, half_up)\n    n_lo = k - n_hi\n")]),
    ("q-grid", "Q", [(I, "    grids = torch.meshgrid(*([rng] * dim), indexing=\"ij\")\n    n_vec = torch.stack([g.reshape(-1) for g in grids], dim=-1)\n    order = torch.sum(torch.abs(n_vec), dim=-1)\n    return n_vec[order <= max_order]", "    n_vec = torch.cartesian_prod(*([rng] * dim))\n    keep = n_vec.abs().sum(dim=1) < max_order + 1\n    return n_vec[keep, :]")]),
    ("q-norm", "Q", [(C, "    dist = torch.linalg.norm(vec, dim=-1)\n    dist = torch.clamp(dist, min=1e-6)\n    time = dist / room.c\n    time = time + (fdl2 / room.fs)\n    sample = time * room.fs\n\n    gain = refl.view(1, 1, 1, -1)", "    dist = (vec * vec).sum(-1).sqrt().clamp_min(1e-6)\n    sample = dist * (room.fs / room.c) + fdl2\n\n    gain = refl.view(1, 1, 1, -1)")]),
    ("q-helper", "Q", [(C, "    attenuation = gain / dist\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time", "    return _finish(sample, gain, dist)\n\n\ndef _finish(s, g, d):\n    return s, g * (1.0 / d)\n\n\ndef _compute_image_contributions_time")]),
    ('b-nb', 'V', [('sim/ism/images.py', 'torch.arange(-n, n + 1, device=device, dtype=torch.int64) for n in nb', 'torch.arange(-n, n, device=device, dtype=torch.int64) for n in nb')]),
    ('b-nb0', 'V', [('sim/ism/images.py', 'torch.arange(-n, n + 1, device=device, dtype=torch.int64) for n in nb', 'torch.arange(-nb[0], nb[0] + 1, device=device, dtype=torch.int64) for n in nb')]),
    ('b-lt', 'V', [('sim/ism/images.py', 'n_vec[order <= max_order]', 'n_vec[order < max_order + (max_order == 0)]')]),
    ('b-maxnorm', 'V', [('sim/ism/images.py', 'order = torch.sum(torch.abs(n_vec), dim=-1)', 'order = torch.amax(torch.abs(n_vec), dim=-1)')]),
    ('b-mod', 'V', [('sim/ism/images.py', '    n = torch.floor_divide(n_vec + 1, 2).to(dtype=src_pos.dtype)', '    n = torch.div(n_vec + 1, 2, rounding_mode="trunc").to(dtype=src_pos.dtype)')]),
    ('b-nhi', 'V', [('sim/ism/images.py', 'n_hi = torch.where(n >= 0, (n + 1) // 2, k // 2)', 'n_hi = torch.where(n >= 0, (n + 1) // 2, (k + 1) // 2)')]),
    ('b-beta2', 'V', [('sim/ism/images.py', '    beta = beta.view(dim, 2)\n    beta_lo = beta[:, 0]\n    beta_hi = beta[:, 1]', '    beta = beta.view(2, dim)\n    beta_lo = beta[0]\n    beta_hi = beta[1]')]),
    ('b-clamp', 'V', [('sim/ism/contributions.py', '    dist = torch.clamp(dist, min=1e-6)', '    dist = torch.clamp(dist, min=1.0)', '*')]),
]
