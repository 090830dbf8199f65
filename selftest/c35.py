S = "geometry/sampling.py"
J = "geometry/trajectories.py"
PT = '''        point = [rng.uniform(low[i], high[i]) for i in range(dim)]
        if z_range'''
CASES = [
    ("low", "V", [(S, "    low = [margin] * dim\n    high = [float(room_size[i].item()) - margin for i in range(dim)]\n    if min(high) < margin:\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    for", "    low = [0.0] * dim\n    high = [float(room_size[i].item()) - margin for i in range(dim)]\n    if min(high) < margin:\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    for")]),
    ("nocheck", "V", [(S, "    if min(high) < margin:\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    for", "    coords: List[List[float]] = []\n    for")]),
    ("check0", "V", [(S, "    if min(high) < margin:\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    attempts", "    if min(high) < 0:\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    attempts")]),
    ("zlow", "V", [(S, "    z_low = max(margin, float(z_min))\n    z_high = min(float(room_size[2].item()) - margin, float(z_max))\n    if z_high < z_low:", "    z_low = float(z_min)\n    z_high = min(float(room_size[2].item()) - margin, float(z_max))\n    if z_high < z_low:")]),
    ("zhigh", "V", [(S, "            z_high = min(float(room_size[2].item()) - margin, float(z_max))", "            z_high = min(float(room_size[2].item()), float(z_max))")]),
    ("zswap", "V", [(S, "    z_high = min(float(room_size[2].item()) - margin, float(z_max))\n    if z_high < z_low", "    z_high = min(float(room_size[1].item()) - margin, float(z_max))\n    if z_high < z_low")]),
    ("noz", "V", [(S, "                point[2] = rng.uniform(z_low, z_high)", "                rng.uniform(z_low, z_high)")]),
    ("zax", "V", [(S, "                point[2] = rng.uniform(z_low, z_high)", "                point[1] = rng.uniform(z_low, z_high)")]),
    ("zax2", "V", [(S, "    positions[:, 2] = torch", "    positions[:, 1] = torch")]),
    ("noguard", "V", [(S, "    if z_high < z_low:\n        return positions\n", "")]),
    ("strictz", "V", [(S, "    if z_high < z_low:\n        return positions", "    if z_high <= z_low + 0.1:\n        return positions")]),
    ("short", "V", [(S, "    if len(coords) < num:\n        raise RuntimeError", "    if not coords and num:\n        raise RuntimeError")]),
    ("extra", "V", [(S, "    while len(coords) < num and", "    while len(coords) <= num and")]),
    ("one", "V", [(S, "    for _ in range(num):\n        point", "    for _ in range(num + 1):\n        point")]),
    ("nodist", "V", [(S, "        if dist >= min_distance:\n            coords.append(point)", "        coords.append(point)")]),
    ("distsq", "V", [(S, "dist = torch.linalg.norm(torch.tensor(point, device=center.device) - center).item()", "dist = torch.linalg.norm(torch.tensor(point) - center).item() ** 2")]),
    ("dist2d", "V", [(S, "dist = torch.linalg.norm(torch.tensor(point, device=center.device) - center).item()", "dist = torch.linalg.norm((torch.tensor(point) - center)[:2]).item()")]),
    ("distinv", "V", [(S, "if dist >= min_distance", "if dist <= min_distance")]),
    ("clampmax", "V", [(S, "    max_v = room_size - margin\n", "    max_v = room_size\n")]),
    ("clampmin", "V", [(S, "torch.full_like(room_size, margin)", "torch.full_like(room_size, 2 * margin)")]),
    ("clampnone", "V", [(S, "    return torch.max(torch.min(positions, max_v), min_v)", "    return torch.min(positions, max_v)")]),
    ("tdiv", "V", [(J, "t / last for", "t / steps for")]),
    ("tcount", "V", [(J, "for t in range(steps)]", "for t in range(steps - 1)]")]),
    ("trev", "V", [(J, "[start + (end - start) * t / last", "[end + (start - end) * t / last")]),
    ("late", "V", [(S, "        if dist >= min_distance:\n            coords.append(point)", "        if dist >= min_distance:\n            if z_range is None and dim >= 3:\n                point[2] = rng.uniform(0.0, high[2])\n            coords.append(point)")]),
    # behaviour kept
    ("q-zip", "Q", [(S, "        point = [rng.uniform(low[i], high[i]) for i in range(dim)]\n        coords", "        point = [rng.uniform(a, b) for a, b in zip(low, high)]\n        coords")]),
    ("q-random", "Q", [(S, "        point = [rng.uniform(low[i], high[i]) for i in range(dim)]\n        coords", "        point = [low[i] + (high[i] - low[i]) * rng.random() for i in range(dim)]\n        coords")]),
    ("q-clamp", "Q", [(S, "torch.max(torch.min(positions, max_v), min_v)", "torch.maximum(torch.minimum(positions, room_size - margin), min_v)")]),
    ("q-any", "Q", [(S, "    if min(high) < margin:\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    for", "    if any(h < margin for h in high):\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    for")]),
    ("q-for", "Q", [(S, "    while len(coords) < num and attempts < max_attempts:\n        attempts += 1\n", "    for attempts in range(max_attempts):\n        if len(coords) >= num:\n            break\n")]),
    ("q-sq", "Q", [(S, "dist = torch.linalg.norm(torch.tensor(point, device=center.device) - center).item()\n        if dist >= min_distance:", "diff = torch.tensor(point) - center\n        dist = torch.sqrt((diff * diff).sum()).item()\n        if not dist < min_distance:")]),
    ("q-lin", "Q", [(J, "        [start + (end - start) * t / last for t in range(steps)],", "        [(1 - i / last) * start + i / last * end for i in range(steps)],")]),
    ("q-loop", "Q", [(J, "    return torch.stack(\n        [start + (end - start) * t / last for t in range(steps)],\n        dim=0,\n    )", "    pts = []\n    for t in range(steps):\n        pts.append(start + (end - start) * (t / last))\n    return torch.stack(pts)")]),
    ("q-helper", "Q", [(S, "def clamp_positions(", "def _bounds(room_size, margin):\n    return [margin] * room_size.numel(), [v - margin for v in room_size.tolist()]\n\n\ndef clamp_positions("), (S, "    low = [margin] * dim\n    high = [float(room_size[i].item()) - margin for i in range(dim)]\n    if min(high) < margin:\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    for", "    low, high = _bounds(room_size, margin)\n    if min(high) < margin:\n        raise ValueError(\"margin leaves no space inside the room.\")\n    coords: List[List[float]] = []\n    for")]),
    ("q-onestep", "Q", [("geometry/trajectories.py", "    last = max(steps - 1, 1)\n", "    if steps == 1:\n        return start.unsqueeze(0)\n    last = steps - 1\n")]),
    ("v-onestep", "V", [("geometry/trajectories.py", "    last = max(steps - 1, 1)\n", "    if steps == 1:\n        return end.unsqueeze(0)\n    last = steps - 1\n")]),
    ("v-two", "V", [("geometry/trajectories.py", "    last = max(steps - 1, 1)\n", "    last = max(steps - 1, 2)\n")]),
    ('b-hi', 'V', [('geometry/sampling.py', '    high = [float(room_size[i].item()) - margin for i in range(dim)]', '    high = [float(room_size[0].item()) - margin for i in range(dim)]', '*')]),
    ('b-and', 'V', [('geometry/sampling.py', '    while len(coords) < num and attempts < max_attempts:', '    while len(coords) <= num and attempts < max_attempts:')]),
    ('b-zl', 'V', [('geometry/sampling.py', '            z_low = max(margin, float(z_min))', '            z_low = float(z_min)')]),
    ('b-zh', 'V', [('geometry/sampling.py', '    z_high = min(float(room_size[2].item()) - margin, float(z_max))\n    if', '    z_high = float(z_max)\n    if')]),
    ('b-gt', 'V', [('geometry/sampling.py', '        if dist >= min_distance:', '        if dist >= min_distance or attempts == max_attempts:')]),
    ('b-xy', 'V', [('geometry/sampling.py', 'torch.linalg.norm(torch.tensor(point, device=center.device) - center).item()', 'torch.linalg.norm((torch.tensor(point, device=center.device) - center)[:2]).item() + 0.0 if dim < 3 else (torch.tensor(point, device=center.device) - center).abs().sum().item()')]),
    ('b-clampmax', 'V', [('geometry/sampling.py', '    max_v = room_size - margin\n', '    max_v = room_size - 2 * margin\n')]),
    ('b-clampnorm', 'V', [('geometry/sampling.py', '    return torch.max(torch.min(positions, max_v), min_v)', '    return torch.max(torch.min(positions, max_v.min()), min_v)')]),
    ('b-order', 'V', [('geometry/sampling.py', '        if dist >= min_distance:\n            coords.append(point)\n', '        if dist >= min_distance:\n            point[2 if dim > 2 else 0] += 0.01\n            coords.append(point)\n')]),
    ('b-short', 'V', [('geometry/sampling.py', '    if len(coords) < num:\n        raise RuntimeError("failed', '    if not coords:\n        raise RuntimeError("failed')]),
    ('b-trend', 'V', [('geometry/trajectories.py', '    last = max(steps - 1, 1)\n', '    last = max(steps, 1)\n')]),
    ('b-zcond', 'V', [('geometry/sampling.py', '            if z_high >= z_low:\n', '            if z_high > z_low + margin:\n')]),
]
