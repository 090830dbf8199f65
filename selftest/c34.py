G = "geometry/arrays.py"
CASES = [
    ("half", "V", [(G, "        - (num - 1) / 2.0\n", "        - (num - 1) // 2\n")]),
    ("off", "V", [(G, "        - (num - 1) / 2.0\n", "        - num / 2.0\n")]),
    ("nonorm", "V", [(G, "        direction_vec = direction_vec / direction_norm\n", "        direction_vec = direction_vec\n")]),
    ("axis", "V", [(G, "direction_vec[axis] = 1.0", "direction_vec[0] = 1.0")]),
    ("step", "V", [(G, "0.0, 2.0 * math.pi, num + 1, device=center_t.device, dtype=center_t.dtype\n    )[:-1]", "0.0, 2.0 * math.pi, num, device=center_t.device, dtype=center_t.dtype\n    )")]),
    ("diam", "V", [(G, "    offset_vec[0] = offset", "    offset_vec[0] = offset / 2")]),
    ("basis", "V", [(G, "    basis_x = basis_x / torch.linalg.norm(basis_x)\n", "")]),
    ("basis2", "V", [(G, "basis_y = torch.cross(n, basis_x)", "basis_y = torch.cross(ref, basis_x)")]),
    ("plane", "V", [(G, '                [0.0, 1.0, 0.0], device=center_t.device, dtype=center_t.dtype\n            )\n            basis_y = torch.tensor(\n                [0.0, 0.0, 1.0], device', '                [0.0, 0.0, 1.0], device=center_t.device, dtype=center_t.dtype\n            )\n            basis_y = torch.tensor(\n                [0.0, 1.0, 0.0], device')]),
    ("tetra", "V", [(G, "                [-1.0, 1.0, -1.0],\n                [-1.0, -1.0, 1.0],", "                [-1.0, 1.0, -1.0],\n                [-1.0, -1.0, -1.0],")]),
    ("ico", "V", [(G, "                verts.append([0.0, a, b * phi])\n                verts.append([a, b * phi, 0.0])", "                verts.append([0.0, a, b * phi])\n                verts.append([a * phi, b, 0.0])")]),
    ("phi", "V", [(G, "        phi = (1.0 + math.sqrt(5.0)) / 2.0\n        inv_phi = 1.0 / phi", "        phi = (1.0 + math.sqrt(3.0)) / 2.0\n        inv_phi = 1.0 / phi")]),
    ("nonorms", "V", [(G, "    vertices = vertices / norms\n", "")]),
    ("theta", "V", [(G, "            121.0,\n            159.0,\n            69.0", "            122.0,\n            159.0,\n            69.0")]),
    ("sph", "V", [(G, "    z = radius * torch.cos(theta)", "    z = radius * torch.sin(theta)")]),
    ("azi", "V", [(G, "        phi_deg=phi_deg + azimuth_offset_deg,", "        phi_deg=phi_deg - azimuth_offset_deg,")]),
    ("q-lin", "Q", [(G, "    offsets = (\n        torch.arange(num, device=center_t.device, dtype=center_t.dtype)\n        - (num - 1) / 2.0\n    ) * spacing\n    return center_t + offsets[:, None] * direction_vec[None, :]", "    half = (num - 1) * spacing / 2\n    steps = torch.arange(num, device=center_t.device, dtype=center_t.dtype) * spacing\n    return torch.outer(steps - half, direction_vec) + center_t")]),
    ("q-linsp", "Q", [(G, "    offsets = (\n        torch.arange(num, device=center_t.device, dtype=center_t.dtype)\n        - (num - 1) / 2.0\n    ) * spacing\n", "    extent = (num - 1) * spacing\n    offsets = torch.linspace(-extent / 2, extent / 2, num, device=center_t.device, dtype=center_t.dtype)\n")]),
    ("q-circ", "Q", [(G, "    angles = torch.linspace(\n        0.0, 2.0 * math.pi, num + 1, device=center_t.device, dtype=center_t.dtype\n    )[:-1]", "    angles = torch.arange(num, device=center_t.device, dtype=center_t.dtype) * (\n        2.0 * math.pi / num\n    )")]),
    ("q-bin", "Q", [(G, "    left = center_t - offset_vec\n    right = center_t + offset_vec\n    return torch.stack([left, right], dim=0)", "    signs = torch.tensor([-1.0, 1.0], device=center_t.device, dtype=center_t.dtype)\n    return center_t + signs[:, None] * offset_vec[None, :]")]),
    ("q-dir", "Q", [(G, "        direction_vec = direction_vec / direction_norm\n", "        direction_vec /= direction_norm\n")]),
    ("q-poly", "Q", [(G, "    norms = torch.linalg.norm(vertices, dim=-1, keepdim=True)\n    vertices = vertices / norms\n    return center_t + radius * vertices", "    norms = vertices.square().sum(-1, keepdim=True).sqrt()\n    return center_t + vertices * (radius / norms)")]),
    ("q-sph", "Q", [(G, "    x = radius * torch.sin(theta) * torch.cos(phi)\n    y = radius * torch.sin(theta) * torch.sin(phi)\n    z = radius * torch.cos(theta)\n    return center + torch.stack([x, y, z], dim=-1)", "    s = torch.sin(theta)\n    unit = torch.stack([s * phi.cos(), s * phi.sin(), theta.cos()], dim=1)\n    return unit * radius + center")]),
    ('b-half', 'V', [('geometry/arrays.py', '- (num - 1) / 2.0', '- num / 2.0')]),
    ('b-hint', 'V', [('geometry/arrays.py', '- (num - 1) / 2.0', '- (num - 1) // 2')]),
    ('b-lin', 'V', [('geometry/arrays.py', '0.0, 2.0 * math.pi, num + 1,', '0.0, 2.0 * math.pi, num,'), ('geometry/arrays.py', ')[:-1]\n    xy', ')\n    xy')]),
    ('b-yz', 'V', [('geometry/arrays.py', '    circle = xy[:, 0:1] * basis_x[None, :] + xy[:, 1:2] * basis_y[None, :]', '    circle = xy[:, 0:1] * basis_x[None, :] + xy[:, 0:1] * basis_y[None, :]')]),
    ('b-2d', 'V', [('geometry/arrays.py', '        return center_t + radius * xy', '        return center_t + radius * xy - xy.mean(dim=0) + radius / num')]),
    ('b-norm', 'V', [('geometry/arrays.py', '        direction_vec = direction_vec / direction_norm\n', '        direction_vec = direction_vec / direction_vec.abs().max()\n')]),
    ('b-bin', 'V', [('geometry/arrays.py', '    offset_vec[0] = offset\n', '    offset_vec[-1] = offset\n')]),
    ('b-bin2', 'V', [('geometry/arrays.py', '    right = center_t + offset_vec\n', '    right = center_t + 2 * offset_vec\n')]),
    ('b-poly', 'V', [('geometry/arrays.py', '    return center_t + radius * vertices', '    return center_t + radius * vertices / norms')]),
    ('b-az', 'V', [('geometry/arrays.py', 'phi_deg=phi_deg + azimuth_offset_deg', 'phi_deg=phi_deg * (1 + azimuth_offset_deg)', '*')]),
]
