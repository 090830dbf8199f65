A, P, IM, D, H, AP, DY, ST, C, TR, AC = "sim/ism/accumulate.py", "sim/ism/prepare.py", "sim/ism/images.py", "sim/ism/diffuse.py", "sim/ism/hpf.py", "sim/ism/api.py", "signal/dynamic.py", "signal/static.py", "sim/ism/contributions.py", "geometry/arrays.py", "util/acoustics.py"
HN = "cached = torch.hann_window(fdl, periodic=False, device=device, dtype=dtype)"
LS = "n = torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size, device=device, dtype=dtype)"
TS = "dtype=torch.float32 if signal.device.type == \"mps\" else torch.float64,"
CASES = [
    ("grid-nodtype", "V", [(A, "cached = torch.arange(fdl, device=device, dtype=dtype)", "cached = torch.arange(fdl, device=device).float()")]),
    ("window-nodtype", "V", [(A, HN, "cached = torch.hann_window(fdl, periodic=False, device=device)")]),
    ("window-nodevice", "V", [(A, HN, "cached = torch.hann_window(fdl, periodic=False, dtype=dtype)")]),
    ("window-cast", "V", [(A, HN, "cached = torch.hann_window(fdl, periodic=False).to(device=device, dtype=dtype)")]),
    ("lut-cast", "V", [(A, LS, "n = torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size).to(device=device, dtype=dtype)")]),
    ("lut-nodevice", "V", [(A, LS, LS.replace("device=device, ", ""))]),
    ("frac-float", "V", [(A, "frac = sample - idx0.to(sample.dtype)", "frac = (sample - idx0.to(sample.dtype)).float()")]),
    ("offsets-nodevice", "V", [(A, "cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2", "cached = torch.arange(fdl, dtype=torch.int64) - fdl2")]),
    ("out-nodtype", "V", [(AP, "rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)", "rir = torch.zeros((n_src, n_mic, nsample), device=device)")]),
    ("out-nodevice", "V", [(AP, "rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)", "rir = torch.zeros((n_src, n_mic, nsample), dtype=dtype)")]),
    ("out-srcdtype", "V", [(AP, "rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)", "rir = torch.zeros((n_src, n_mic, nsample), device=room_size.device, dtype=torch.float32)")]),
    ("size-unmoved", "V", [(P, "room_size = as_tensor(room.size, device=device, dtype=dtype)", "room_size = as_tensor(room.size, dtype=dtype)")]),
    ("src-unmoved", "V", [(P, "    )\n    src_traj = as_tensor(src_traj, device=device, dtype=dtype)\n", "    )\n    src_traj = as_tensor(src_traj, dtype=dtype)\n"), (P, "    src_traj = as_tensor(src_traj, device=device, dtype=dtype)", "    src_traj = as_tensor(src_traj, dtype=dtype)")]),
    ("range-cpu", "V", [(IM, "rng = torch.arange(-max_order, max_order + 1, device=device, dtype=torch.int64)", "rng = torch.arange(-max_order, max_order + 1, dtype=torch.int64)")]),
    ("sign-f32", "V", [(IM, "sign = torch.where((n_vec % 2) == 0, 1.0, -1.0).to(dtype=src_pos.dtype)\n    n = torch.floor_divide(n_vec + 1, 2).to(dtype=src_pos.dtype)", "sign = torch.where((n_vec % 2) == 0, 1.0, -1.0)\n    n = torch.floor_divide(n_vec + 1, 2).to(dtype=torch.float32)")]),
    ("beta-float", "V", [(IM, "beta = beta.view(dim, 2)", "beta = beta.view(dim, 2).float()")]),
    ("tail-t", "V", [(D, "t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs", "t = torch.arange(tail_len, device=rir.device) / room.fs")]),
    ("tail-gen", "V", [(D, "gen = torch.Generator(device=rir.device)", "gen = torch.Generator()")]),
    ("tail-noise", "V", [(D, "rir[..., tdiff_idx:].shape, device=rir.device, dtype=rir.dtype, generator=gen", "rir[..., tdiff_idx:].shape, device=rir.device, generator=gen")]),
    ("hpf-nocpu", "V", [(H, "rir.detach().cpu().to(torch.float64).numpy()", "rir.detach().to(torch.float64).numpy()")]),
    ("hpf-nodev", "V", [(H, "return torch.as_tensor(filtered, device=rir.device, dtype=rir.dtype)", "return torch.as_tensor(filtered, dtype=rir.dtype)")]),
    ("hpf-nodtype", "V", [(H, "return torch.as_tensor(filtered, device=rir.device, dtype=rir.dtype)", "return torch.as_tensor(filtered, device=rir.device).float()")]),
    ("conv-out-dtype", "V", [(ST, "out = torch.zeros((n_mic, out_len), dtype=signal.dtype, device=signal.device)", "out = torch.zeros((n_mic, out_len), device=signal.device)")]),
    ("conv-out-device", "V", [(ST, "out = torch.zeros((n_mic, out_len), dtype=signal.dtype, device=signal.device)", "out = torch.zeros((n_mic, out_len), dtype=signal.dtype)")]),
    ("dyn-buf-dtype", "V", [(DY, "(t_steps, n_src, max_len), dtype=signal.dtype, device=signal.device", "(t_steps, n_src, max_len), device=signal.device")]),
    ("dyn-end", "V", [(DY, "torch.tensor([n_samples], device=signal.device, dtype=torch.long)", "torch.tensor([n_samples], dtype=torch.long)")]),
    ("circle-dtype", "V", [(TR, "0.0, 2.0 * math.pi, num + 1, device=center_t.device, dtype=center_t.dtype", "0.0, 2.0 * math.pi, num + 1, device=center_t.device")]),
    ("circle-device", "V", [(TR, "0.0, 2.0 * math.pi, num + 1, device=center_t.device, dtype=center_t.dtype", "0.0, 2.0 * math.pi, num + 1, dtype=center_t.dtype")]),
    ("beta-full", "V", [(AC, "return torch.full((6,), beta, device=size.device, dtype=size.dtype)", "return torch.full((6,), beta, device=size.device)")]),
    ("walls-device", "V", [(AC, "            device=size.device,\n            dtype=size.dtype,", "            dtype=size.dtype,")]),
    ("sample-device", "V", [("geometry/sampling.py", "torch.tensor(point, device=center.device)", "torch.tensor(point)")]),
    # behaviour kept
    ("q-newzeros", "Q", [(ST, "out = torch.zeros((n_mic, out_len), dtype=signal.dtype, device=signal.device)", "out = signal.new_zeros((n_mic, out_len))")]),
    ("q-to", "Q", [(AP, "rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)", "rir = torch.zeros((n_src, n_mic, nsample), dtype=dtype).to(device)")]),
    ("q-to2", "Q", [(AP, "rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)", "rir = torch.zeros((n_src, n_mic, nsample)).to(device=device, dtype=dtype)")]),
    ("q-as", "Q", [(A, "idx0.to(sample.dtype)", "idx0.to(sample)")]),
    ("q-typeas", "Q", [(A, "idx0.to(sample.dtype)", "idx0.type_as(sample)")]),
    ("q-window-f64", "Q", [(A, HN, "cached = torch.hann_window(fdl, periodic=False, dtype=torch.float64).to(device=device, dtype=dtype)")]),
    ("q-arange", "Q", [(A, "cached = torch.arange(fdl, device=device, dtype=dtype)", "cached = torch.arange(fdl).to(device=device, dtype=dtype)")]),
    ("q-like", "Q", [(D, "rir[..., tdiff_idx:].shape, device=rir.device, dtype=rir.dtype, generator=gen", "size=rir[..., tdiff_idx:].shape, generator=gen, dtype=rir.dtype, device=rir.device")]),
    ("q-tscalar", "Q", [(D, "t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs", "t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / torch.tensor(room.fs)")]),
    ("q-hpf", "Q", [(H, "rir_np = rir.detach().cpu().to(torch.float64).numpy()", "rir_np = rir.detach().to('cpu', torch.float64).numpy()")]),
    ("q-hpf2", "Q", [(H, "return torch.as_tensor(filtered, device=rir.device, dtype=rir.dtype)", "return torch.from_numpy(filtered).to(rir)")]),
    ("q-hpf3", "Q", [(H, "return torch.as_tensor(filtered, device=rir.device, dtype=rir.dtype)", "return torch.tensor(filtered, dtype=rir.dtype).to(rir.device)")]),
    ("q-gen", "Q", [(D, "gen = torch.Generator(device=rir.device)", "dev = rir.device\n    gen = torch.Generator(dev)")]),
    ("q-sign", "Q", [(IM, "sign = torch.where((n_vec % 2) == 0, 1.0, -1.0).to(dtype=src_pos.dtype)\n    n = torch.floor_divide(n_vec + 1, 2).to(dtype=src_pos.dtype)", "sign = 1 - 2 * (n_vec % 2)\n    n = torch.div(n_vec + 1, 2, rounding_mode='floor')")]),
    ("q-circle", "Q", [(TR, "    angles = torch.linspace(\n        0.0, 2.0 * math.pi, num + 1, device=center_t.device, dtype=center_t.dtype\n    )[:-1]\n    xy = torch.stack([torch.cos(angles), torch.sin(angles)], dim=-1)\n\n    if dim == 2:\n        return center_t + radius * xy",
      "    opts = {\"device\": center_t.device, \"dtype\": center_t.dtype}\n    angles = torch.linspace(0.0, 2.0 * math.pi, num + 1, **opts)[:-1]\n    xy = torch.stack([torch.cos(angles), torch.sin(angles)], dim=-1)\n\n    if dim == 2:\n        return center_t + radius * xy")]),
    ("q-ts", "Q", [(DY, "torch.arange(t_steps, device=signal.device, dtype=ts_dtype) * step_fs", "step_fs * torch.arange(t_steps, dtype=ts_dtype, device=signal.device)")]),
    ("q-helper", "Q", [(AP, "rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)", "rir = _blank(n_src, n_mic, nsample, room_size)"), (AP, "def simulate_rir(", "def _blank(a, b, n, like):\n    return torch.zeros((a, b, n), device=like.device, dtype=like.dtype)\n\n\ndef simulate_rir(")]),
    ("q-float-as", "Q", [("util/tensor.py", "return out if out.is_floating_point() else out.to(torch.get_default_dtype())", "return out if out.is_floating_point() else out.float()")]),
]
