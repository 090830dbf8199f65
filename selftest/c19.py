A = "util/acoustics.py"
H = "sim/ism/helpers.py"
CASES = [
    ("surf3", "V", [(A, "surface = 2.0 * (lx * ly + ly * lz + lx * lz)", "surface = 2.0 * (lx * ly + ly * lz + lx * lx)")]),
    ("walls3", "V", [(A, "[ly * lz, ly * lz, lx * lz, lx * lz, lx * ly, lx * ly]", "[lx * lz, lx * lz, ly * lz, ly * lz, lx * ly, lx * ly]")]),
    ("walls2", "V", [(A, "[ly * lz, ly * lz, lx * lz, lx * lz],", "[lx * lz, lx * lz, ly * lz, ly * lz],")]),
    ("alpha", "V", [(A, "    alpha = 1.0 - beta**2\n    absorption = torch.sum(surfaces * alpha).item()\n    if absorption <= 0.0:\n        return float(\"inf\")\n    return 0.161 * volume / absorption\n\n\ndef att", "    alpha = 1.0 - beta\n    absorption = torch.sum(surfaces * alpha).item()\n    if absorption <= 0.0:\n        return float(\"inf\")\n    return 0.161 * volume / absorption\n\n\ndef att")]),
    ("nosqrt", "V", [(A, "    beta = math.sqrt(1.0 - alpha)\n    return torch.full((6,)", "    beta = 1.0 - alpha\n    return torch.full((6,)")]),
    ("const", "V", [(A, "    surface = 2.0 * (lx * ly + ly * lz + lx * lz)\n    alpha = 0.161", "    surface = 2.0 * (lx * ly + ly * lz + lx * lz)\n    alpha = 0.163")]),
    ("clamp", "V", [(A, "        alpha = max(0.0, min(alpha, 0.999))\n", "        alpha = max(0.0, min(alpha, 1.999))\n")]),
    ("noclamp", "V", [(A, "        alpha = max(0.0, min(alpha, 0.999))\n", "")]),
    ("ceil", "V", [(A, "n = torch.ceil((tmax * c) / size)", "n = torch.round((tmax * c) / size)")]),
    ("floor", "V", [(A, "n = torch.ceil((tmax * c) / size)", "n = ((tmax * c) / size)")]),
    ("half", "V", [(A, "n = torch.ceil((tmax * c) / size)", "n = torch.ceil((tmax * c) / (2 * size))")]),
    ("att", "V", [(A, "(att_db / 60.0) * t60", "(att_db / 20.0) * t60")]),
    ("simsize", "V", [(H, "estimate_beta_from_t60(room_size, room.t60,", "estimate_beta_from_t60(2 * room_size, room.t60,")]),
    ("depth", "V", [(A, "        lz = 1.0\n        volume = lx * ly * lz\n        surface = 2.0 * (lx + ly) * lz", "        lz = 1.0\n        volume = lx * ly * lz\n        surface = 2.0 * (lx + ly) * lz + 2.0 * lx * ly")]),
    ("q-alpha", "Q", [(A, "    surface = 2.0 * (lx * ly + ly * lz + lx * lz)\n    alpha = 0.161 * volume / (t60 * surface)\n    alpha = max(0.0, min(alpha, 0.999))\n    beta = math.sqrt(1.0 - alpha)", "    half = lx * (ly + lz) + ly * lz\n    alpha = 0.161 / t60 * volume / half / 2\n    beta = (1.0 - min(max(alpha, 0.0), 0.999)) ** 0.5")]),
    ("q-prod", "Q", [(A, "    size = extend_size(size, 3)\n    lx, ly, lz = size.tolist()\n    volume = lx * ly * lz\n    surface", "    size = extend_size(size, 3)\n    lx = size[0].item()\n    ly = float(size[1])\n    lz = size[2].item()\n    volume = lx * ly * lz\n    surface")]),
    ("q-sum", "Q", [(A, "    alpha = 1.0 - beta**2\n    absorption = torch.sum(surfaces * alpha).item()", "    absorption = float((surfaces * (1.0 - beta.square())).sum())")]),
    ("q-guard", "Q", [(A, "    if absorption <= 0.0:\n        return float(\"inf\")\n    return 0.161 * volume / absorption\n\n\ndef att", "    if absorption > 0.0:\n        return 0.161 * volume / absorption\n    return math.inf\n\n\ndef att")]),
    ("q-count", "Q", [(A, "n = torch.ceil((tmax * c) / size).to(torch.int64)", "n = torch.floor(tmax * c / size).to(torch.int64) + 1")]),
    ("q-halves", "Q", [(A, "    surfaces = torch.tensor(\n        [ly * lz, ly * lz, lx * lz, lx * lz, lx * ly, lx * ly],\n        device=size.device,\n        dtype=size.dtype,\n    )\n    alpha = 1.0 - beta**2\n    absorption = torch.sum(surfaces * alpha).item()", "    areas = (ly * lz, lx * lz, lx * ly)\n    absorption = sum(\n        area * (2.0 - float(beta[2 * k]) ** 2 - float(beta[2 * k + 1]) ** 2)\n        for k, area in enumerate(areas)\n    )")]),
]
