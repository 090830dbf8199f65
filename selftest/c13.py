C, H, O = "sim/ism/contributions.py", "sim/ism/helpers.py", "util/orientation.py"
A, T, U, F = "geometry/arrays.py", "geometry/trajectories.py", "util/acoustics.py", "sim/ism/diffuse.py"
CL = "    dist = torch.clamp(dist, min=1e-6)\n"
NORM = "    norm = torch.clamp(norm, min=eps)\n    return orientation / norm\n"
T60 = """    if absorption <= 0.0:
        return float("inf")
    return 0.161 * volume / absorption


"""
CASES = [
    ("noclamp-all", "V", [(C, CL, "", "*")]),
    ("tinyclamp", "V", [(C, "min=1e-6", "min=1e-60", "*")]),
    ("clampmax", "V", [(C, "torch.clamp(dist, min=1e-6)", "torch.clamp(dist, max=1e6)", "*")]),
    ("nonorm", "V", [(O, NORM, "    return orientation / norm\n")]),
    ("normwhole", "V", [(O, NORM, "    if not torch.any(norm > eps):\n        return orientation\n    return orientation / norm\n")]),
    ("rsqrt", "V", [(O, NORM, "    return orientation * (orientation * orientation).sum(dim=-1, keepdim=True).rsqrt()\n")]),
    ("lin-zero", "V", [(A, "        if not direction_norm > 0:", "        if not direction_norm >= 0:")]),
    ("circ-zero", "V", [(A, '    if not norm > 0:\n        raise ValueError("normal must be a non-zero vector")\n', "")]),
    ("circ-sign", "V", [(A, "torch.allclose(n.abs(), ref)", "torch.allclose(n, ref)")]),
    ("circ-raw", "V", [(A, "torch.allclose(n.abs(), ref)", "torch.equal(n, ref)")]),
    ("circ-ref", "V", [(A, "torch.tensor([0.0, 1.0, 0.0], device=normal.device", "torch.tensor([-1.0, 0.0, 0.0], device=normal.device")]),
    ("traj-steps", "V", [(T, "last = max(steps - 1, 1)", "last = steps - 1")]),
    ("traj-speed", "V", [(T, "    last = max(steps - 1, 1)\n", "    last = max(steps - 1, 1)\n    length = torch.linalg.norm(end - start)\n    unit = (end - start) / length\n"), (T, "(end - start) * t / last", "unit * (length * t / last)")]),
    ("sabine-alpha", "V", [(U, "        alpha = max(0.0, min(alpha, 0.999))\n        beta = math.sqrt(1.0 - alpha)\n        return torch.full((4,)", "        beta = math.sqrt(1.0 - alpha)\n        return torch.full((4,)")]),
    ("cos-norm", "V", [(H, "    unit = normalize_orientation(vec)\n", "    unit = vec / torch.linalg.norm(vec, dim=-1, keepdim=True)\n")]),
    ("tail-log", "V", [(F, "        decay = torch.exp(-t * 3.0)", "        decay = torch.exp(-t / (t60 * 0.0))")]),
    ("tail-rate", "V", [(F, "    if math.isinf(t60) or t60 <= 0:\n", "    if t60 <= 0:\n"), (F, "        tau = t60 / 6.9078\n        decay = torch.exp(-t / tau)", "        decay = torch.exp(-t * (t60 - 0.1) / (t60 * 6.9078 ** -1 * (t60 - 0.1)))")]),
    ("q-where", "Q", [(C, "    attenuation = gain / dist\n", "    attenuation = torch.where(dist > 0, gain / dist, gain * 0.0)\n", "*")]),
    ("q-max", "Q", [(C, "torch.clamp(dist, min=1e-6)", "torch.maximum(dist, torch.full_like(dist, 1e-6))", "*")]),
    ("q-clampmin", "Q", [(C, "torch.clamp(dist, min=1e-6)", "dist.clamp_min(1e-6)", "*")]),
    ("q-square", "Q", [(C, "    dist = torch.linalg.norm(vec, dim=-1)\n" + CL, "    dist = (vec * vec).sum(dim=-1).clamp(min=1e-12).sqrt()\n", "*")]),
    ("q-eps", "Q", [(O, NORM, "    return orientation / (norm + 1e-12)\n")]),
    ("q-normwhere", "Q", [(O, NORM, "    return torch.where(norm > eps, orientation / norm, orientation / eps)\n")]),
    ("q-nan", "Q", [(O, NORM, "    return torch.nan_to_num(orientation / norm)\n")]),
    ("q-raise", "Q", [(O, NORM, '    if torch.any(norm == 0):\n        raise ValueError("zero orientation")\n    return orientation / norm\n')]),
    ("q-lin", "Q", [(A, "        if not direction_norm > 0:", "        if direction_norm.item() <= 0:")]),
    ("q-traj", "Q", [(T, "    last = max(steps - 1, 1)\n", "    if steps == 1:\n        return (start * 1.0).unsqueeze(0)\n    last = steps - 1\n")]),
    ("q-linspace", "Q", [(T, "    return torch.stack(\n        [start + (end - start) * t / last for t in range(steps)],\n        dim=0,\n    )", "    w = torch.arange(steps, device=start.device, dtype=start.dtype) / last\n    return start + w[:, None] * (end - start)")]),
    ("q-t60", "Q", [(U, T60, '    return 0.161 * volume / absorption if absorption > 0.0 else float("inf")\n\n\n')]),
    ("q-mathinf", "Q", [(U, 'return float("inf")', "return math.inf", "*")]),
    ("q-ref", "Q", [(A, "    if torch.allclose(n.abs(), ref):", "    if abs(float(n[0])) > 0.9:")]),
]
