A = "sim/ism/accumulate.py"
P = "sim/ism/api.py"
LOOP = """        end = min(start + img_chunk, n_vec.shape[0])
        n_vec_chunk = n_vec[start:end]
        refl_chunk = refl[start:end]
        sample_chunk, attenuation_chunk = _compute_image_contributions_batch("""
CASES = [
    ("drop-tail", "V", [(P, "    for start in range(0, n_vec.shape[0], img_chunk):\n" + LOOP, "    for start in range(0, n_vec.shape[0] - img_chunk + 1, img_chunk):\n" + LOOP)]),
    ("overlap", "V", [(P, LOOP, LOOP.replace("start + img_chunk", "start + img_chunk + 1"))]),
    ("short", "V", [(P, LOOP, LOOP.replace("start + img_chunk", "start + img_chunk - 1"))]),
    ("mixed", "V", [(P, LOOP, LOOP.replace("refl_chunk = refl[start:end]", "refl_chunk = refl[: end - start]"))]),
    ("break", "V", [(A, "        if not valid.any():\n            continue\n", "        if not valid.any():\n            break\n")]),
    ("return", "V", [(A, "        if not valid.any():\n            continue\n", "        if not valid.any():\n            return\n")]),
    ("start1", "V", [(A, "for start in range(0, n_img, chunk_size):", "for start in range(chunk_size, n_img, chunk_size):")]),
    ("key", "V", [(A, "key = (str(device), dtype, fdl, lut_gran, use_lut, chunk_size)", "key = (str(device), dtype, fdl, use_lut, chunk_size)"), (A, "tuple[str, torch.dtype, int, int, bool, int], _AccumFn", "tuple[str, torch.dtype, int, bool, int], _AccumFn")]),
    ("q-nomin", "Q", [(P, LOOP, LOOP.replace("min(start + img_chunk, n_vec.shape[0])", "start + img_chunk"))]),
    ("q-while", "Q", [(A, "    for start in range(0, n_img, chunk_size):\n        end = min(start + chunk_size, n_img)\n", "    end = 0\n    while end < n_img:\n        start = end\n        end = min(start + chunk_size, n_img)\n")]),
    ("q-split", "Q", [(P, "    for start in range(0, n_vec.shape[0], img_chunk):\n" + LOOP, "    for n_vec_chunk, refl_chunk in zip(n_vec.split(img_chunk), refl.split(img_chunk)):\n        sample_chunk, attenuation_chunk = _compute_image_contributions_batch(")]),
    ("q-chunks", "Q", [(P, "    for start in range(0, n_vec.shape[0], img_chunk):\n" + LOOP, "    for start, end in _chunks(n_vec.shape[0], img_chunk):\n" + LOOP.split("\n", 1)[1]), (P, "def simulate_rir(", "def _chunks(n, step):\n    for a in range(0, n, step):\n        yield a, min(a + step, n)\n\n\ndef simulate_rir(")]),
    ("q-guard", "Q", [(A, "        if not valid.any():\n            continue\n", "        if valid.sum() == 0:\n            continue\n")]),
    ('b-min', 'V', [('sim/ism/accumulate.py', '        end = min(start + chunk_size, n_img)\n', '        end = min(start + chunk_size, n_img - 1)\n')]),
    ('b-start', 'V', [('sim/ism/accumulate.py', '    for start in range(0, n_img, chunk_size):', '    for start in range(0, n_img - 1, chunk_size):')]),
    ('b-imgfloor', 'V', [('sim/ism/api.py', '    for start in range(0, n_vec.shape[0], img_chunk):', '    for start in range(0, n_vec.shape[0] // img_chunk * img_chunk, img_chunk):')]),
    ('b-compile-key', 'V', [('sim/ism/accumulate.py', '    key = (str(device), dtype, fdl, lut_gran, use_lut, chunk_size)', '    key = (str(device), dtype, fdl, use_lut, chunk_size)')]),
]
