AC, HP, DY, ST, AR, IM = "sim/ism/accumulate.py", "sim/ism/hpf.py", "signal/dynamic.py", "signal/static.py", "geometry/arrays.py", "sim/ism/images.py"
KG = "    key = (fdl, str(device), dtype)\n    cached = _FDL_GRID_CACHE.get(key)\n"
KW = "    key = (fdl, str(device), dtype)\n    cached = _FDL_WINDOW_CACHE.get(key)\n"
KL = "    key = (fdl, lut_gran, str(device), dtype)\n"
KO = "    key = (fdl, str(device))\n"
KC = "    key = (str(device), dtype, fdl, lut_gran, use_lut, chunk_size)\n"
GRID = '''    key = (fdl, str(device), dtype)
    cached = _FDL_GRID_CACHE.get(key)
    if cached is None:
        cached = torch.arange(fdl, device=device, dtype=dtype)
        _FDL_GRID_CACHE[key] = cached
    return cached
'''
DEFG = "def _get_fdl_grid(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Tensor:\n"
SOS = "    sos = _design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)\n"
IMP = "import torch\nfrom torch import Tensor\n"
CONV = "    sig_f = torch.fft.rfft(signal, n=fft_len)\n"
CASES = [
    ("griddtype", "V", [(AC, KG, KG.replace("(fdl, str(device), dtype)", "(fdl, str(device))"))]),
    ("windowdevice", "V", [(AC, KW, KW.replace("str(device)", "device.type"))]),
    ("lutgran", "V", [(AC, KL, "    key = (fdl, str(device), dtype)\n")]),
    ("lutprod", "V", [(AC, KL, "    key = ((fdl + 1) * lut_gran, str(device), dtype)\n")]),
    ("offsetsfdl", "V", [(AC, KO, "    key = (fdl // 2, str(device))\n")]),
    ("inplacegrid", "V", [(AC, "            t = n[None, None, :] - fdl2 - frac_m[..., None]\n", "            n.sub_(fdl2)\n            t = n[None, None, :] - frac_m[..., None]\n")]),
    ("inplaceview", "V", [(AC, "            filt = torch.sinc(t) * window[None, None, :]\n", "            w = window[None, None, :]\n            w *= 0.5\n            filt = torch.sinc(t) * w\n")]),
    ("inplaceout", "V", [(AC, "            s0 = torch.take(sinc_lut, lut_pos)\n", "            torch.mul(sinc_lut, 1.0, out=sinc_lut)\n            s0 = torch.take(sinc_lut, lut_pos)\n")]),
    ("collide", "V", [(AC, KW, KW.replace("_FDL_WINDOW_CACHE", "_FDL_GRID_CACHE")), (AC, "        _FDL_WINDOW_CACHE[key] = cached\n", "        _FDL_GRID_CACHE[key] = cached\n")]),
    ("lookup", "V", [(AC, "    cached = _FDL_WINDOW_CACHE.get(key)\n", "    cached = _FDL_WINDOW_CACHE.get((fdl, str(device)))\n"), (AC, "        _FDL_WINDOW_CACHE[key] = cached\n", "        _FDL_WINDOW_CACHE[(fdl, str(device))] = cached\n")]),
    ("lru", "V", [(AC, IMP, "import functools\n" + IMP), (AC, DEFG, "@functools.lru_cache(maxsize=None)\ndef _grid(fdl, device):\n    return torch.arange(fdl, device=device, dtype=torch.get_default_dtype())\n\n\n" + DEFG), (AC, GRID, "    return _grid(fdl, device)\n")]),
    ("lruinplace", "V", [(AC, IMP, "import functools\n" + IMP), (AC, DEFG, "@functools.lru_cache(maxsize=None)\n" + DEFG), (AC, GRID, "    return torch.arange(fdl, device=device, dtype=dtype)\n"), (AC, "            t = n[None, None, :] - fdl2 - frac_m[..., None]\n", "            n.sub_(fdl2)\n            t = n[None, None, :] - frac_m[..., None]\n")]),
    ("lrutensor", "V", [(ST, IMP, "import functools\n" + IMP), (ST, "def fft_convolve(", "@functools.lru_cache(maxsize=8)\ndef _spectrum(x: Tensor, n: int) -> Tensor:\n    return torch.fft.rfft(x, n=n)\n\n\ndef fft_convolve("), (ST, "    rir_f = torch.fft.rfft(rir, n=fft_len)\n", "    rir_f = _spectrum(rir, fft_len)\n")]),
    ("idcache", "V", [(ST, "def fft_convolve(", "_SPEC = {}\n\n\ndef fft_convolve("), (ST, "    rir_f = torch.fft.rfft(rir, n=fft_len)\n", "    key = (id(rir), fft_len)\n    rir_f = _SPEC.get(key)\n    if rir_f is None:\n        rir_f = torch.fft.rfft(rir, n=fft_len)\n        _SPEC[key] = rir_f\n")]),
    ("last", "V", [(HP, IMP, IMP + "\n_LAST = None\n"), (HP, SOS, "    global _LAST\n    if _LAST is None:\n        _LAST = _design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)\n    sos = _LAST\n")]),
    ("sosfs", "V", [(HP, "def apply_rir_hpf", "_SOS = {}\n\n\ndef apply_rir_hpf"), (HP, SOS, "    if fs not in _SOS:\n        _SOS[fs] = _design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)\n    sos = _SOS[fs]\n")]),
    ("default", "V", [(HP, "def _design_hpf_sos(fs: float, fc: float, kwargs: dict[str, Any])", "def _design_hpf_sos(fs: float, fc: float, kwargs: dict[str, Any], memo={})"), (HP, "    wc = 2.0 * fc / fs\n", "    wc = memo.setdefault(fs, 2.0 * fc / fs)\n")]),
    ("selfts", "V", [(DY, "        if self.mode == \"hop\":\n", "        if self.timestamps is None and self.fs:\n            object.__setattr__(self, \"timestamps\", torch.linspace(0, signal.shape[-1] / self.fs, rirs.shape[0] + 1)[:-1])\n        if self.mode == \"hop\":\n")]),
    ("dtype", "V", [(AR, "    if num <= 0:\n", "    torch.set_default_dtype(torch.float64)\n    if num <= 0:\n", ) ]),
    ("backends", "V", [(ST, CONV, "    torch.backends.mkl.verbose = 1\n" + CONV)]),
    ("compiledkey", "V", [(AC, KC, "    key = (str(device), dtype, fdl, lut_gran, use_lut)\n")]),
    ("funcattr", "V", [(ST, CONV, "    fft_convolve.size = fft_len = max(getattr(fft_convolve, \"size\", 0), fft_len)\n" + CONV)]),
    ("lrufull", "Q", [(AC, IMP, "import functools\n" + IMP), (AC, DEFG, "@functools.lru_cache(maxsize=None)\n" + DEFG), (AC, GRID, "    return torch.arange(fdl, device=device, dtype=dtype)\n")]),
    ("devobj", "Q", [(AC, KG, KG.replace("str(device)", "device"))]),
    ("fkey", "Q", [(AC, KO, '    key = f"{fdl}@{device}"\n')]),
    ("typeindex", "Q", [(AC, KW, KW.replace("str(device)", "device.type, device.index"))]),
    ("setdef", "Q", [(AC, GRID, "    key = (fdl, str(device), dtype)\n    return _FDL_GRID_CACHE.setdefault(key, torch.arange(fdl, device=device, dtype=dtype))\n")]),
    ("tryget", "Q", [(AC, GRID, "    key = (fdl, str(device), dtype)\n    try:\n        return _FDL_GRID_CACHE[key]\n    except KeyError:\n        value = torch.arange(fdl, device=device, dtype=dtype)\n        _FDL_GRID_CACHE[key] = value\n        return value\n")]),
    ("incheck", "Q", [(AC, GRID, "    key = (fdl, str(device), dtype)\n    if key not in _FDL_GRID_CACHE:\n        _FDL_GRID_CACHE[key] = torch.arange(fdl, device=device, dtype=dtype)\n    return _FDL_GRID_CACHE[key]\n")]),
    ("evict", "Q", [(AC, GRID, GRID.replace("        cached = torch", "        if len(_FDL_GRID_CACHE) > 32:\n            _FDL_GRID_CACHE.clear()\n        cached = torch"))]),
    ("cloned", "Q", [(AC, "            t = n[None, None, :] - fdl2 - frac_m[..., None]\n", "            t = n.clone()\n            t.sub_(fdl2)\n            t = t[None, None, :] - frac_m[..., None]\n")]),
    ("sosfull", "Q", [(HP, "def apply_rir_hpf", "_SOS = {}\n\n\ndef apply_rir_hpf"), (HP, SOS, "    key = (fs, cfg.rir_hpf_fc, tuple(sorted(cfg.rir_hpf_kwargs.items())))\n    if key not in _SOS:\n        _SOS[key] = _design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)\n    sos = _SOS[key]\n")]),
    ("lutinv", "Q", [(AC, KL, "    lut_size = (fdl + 1) * lut_gran + 1\n    key = (lut_size, lut_gran, str(device), dtype)\n")]),
    ("lutsum", "Q", [(AC, KL, "    key = (fdl + 1, lut_gran * 2, str(device), dtype)\n")]),
    ("lutlen", "V", [(AC, KL, "    lut_size = (fdl + 1) * lut_gran + 1\n    key = (lut_size, str(device), dtype)\n")]),
    ("nocache", "Q", [(AC, GRID, "    return torch.arange(fdl, device=device, dtype=dtype)\n")]),
    ("helper", "Q", [(AC, GRID, "    return _memo(_FDL_GRID_CACHE, (fdl, str(device), dtype), lambda: torch.arange(fdl, device=device, dtype=dtype))\n"), (AC, DEFG, "def _memo(table, key, make):\n    value = table.get(key)\n    if value is None:\n        value = table[key] = make()\n    return value\n\n\n" + DEFG)]),
    ('b-key', 'V', [('sim/ism/accumulate.py', '    key = (fdl, lut_gran, str(device), dtype)', '    key = (fdl * lut_gran, str(device), dtype)')]),
    ('b-window', 'V', [('sim/ism/accumulate.py', '    key = (fdl, str(device), dtype)\n    cached = _FDL_WINDOW_CACHE.get(key)', '    key = (fdl, str(device))\n    cached = _FDL_WINDOW_CACHE.get(key)')]),
    ('b-devtype', 'Q', [('sim/ism/accumulate.py', '    key = (fdl, str(device))', '    key = (fdl, device)')]),
    ('b-inplace', 'V', [('sim/ism/accumulate.py', '            filt = interp * window[None, None, :]', '            filt = interp * window[None, None, :].mul_(1.0)')]),
    ('b-gridshift', 'V', [('sim/ism/accumulate.py', '    n = _get_fdl_grid(fdl, device=rir.device, dtype=sample.dtype)\n', '    n = _get_fdl_grid(fdl, device=rir.device, dtype=sample.dtype)\n    n -= 0.0 * fdl2\n')]),
    ('b-lru', 'V', [('sim/ism/images.py', 'def _reflection_coefficients(n_vec: Tensor, beta: Tensor) -> Tensor:', '_LAST: dict = {}\n\n\ndef _reflection_coefficients(n_vec: Tensor, beta: Tensor) -> Tensor:'), ('sim/ism/images.py', '    coeff = (beta_hi**n_hi) * (beta_lo**n_lo)\n    return torch.prod(coeff, dim=1)', '    key = tuple(n_vec.shape)\n    if key not in _LAST:\n        _LAST[key] = torch.prod((beta_hi**n_hi) * (beta_lo**n_lo), dim=1)\n    return _LAST[key]')]),
    ('b-id', 'V', [('sim/ism/accumulate.py', '    key = (fdl, str(device), dtype)\n    cached = _FDL_GRID', '    key = (id(device), fdl, dtype)\n    cached = _FDL_GRID')]),
]
