ST = "signal/static.py"
IN = "signal/internal.py"
POW = "fft_len = 1 << (n - 1).bit_length()"
LOOP = """    for s in range(n_src):
        for m in range(n_mic):
            out[m] += fft_convolve(signal[s], rirs[s, m])
"""
FC = """    n = signal.numel() + rir.numel() - 1
    fft_len = 1 << (n - 1).bit_length()
    sig_f = torch.fft.rfft(signal, n=fft_len)
    rir_f = torch.fft.rfft(rir, n=fft_len)
    out = torch.fft.irfft(sig_f * rir_f, n=fft_len)
    return out[:n]
"""
CASES = [
    ("v-halfpow", "V", [(ST, POW, "fft_len = 1 << ((n - 1).bit_length() - 1)")]),
    ("v-signallen", "V", [(ST, POW, "fft_len = 1 << (signal.numel()).bit_length()")]),
    ("v-maxlen", "V", [(ST, POW, "fft_len = 2 * max(signal.numel(), rir.numel()) - 2")]),
    ("v-even", "V", [(ST, POW, "fft_len = n - n % 2")]),
    ("v-minus2", "V", [(ST, POW, "fft_len = 1 << (n - 2).bit_length() if n > 2 else 4")]),
    ("v-swapidx", "V", [(ST, "rirs[s, m])", "rirs[m, s])")]),
    ("v-signal0", "V", [(ST, "fft_convolve(signal[s], ", "fft_convolve(signal[0], ")]),
    ("v-skipfirst", "V", [(ST, "for s in range(n_src):", "for s in range(1, n_src):")]),
    ("v-overwrite", "V", [(ST, "out[m] += fft", "out[m] = fft")]),
    ("v-micrange", "V", [(ST, "for m in range(n_mic):", "for m in range(min(n_mic, n_src)):")]),
    ("v-check", "V", [(ST, "signal.shape[0] not in (1, n_src)", "signal.shape[0] < n_src and signal.shape[0] != 1")]),
    ("v-outrow", "V", [(ST, "out[m] += fft", "out[s] += fft")]),
    ("v-nosum", "V", [(ST, "        for m in range(n_mic):\n            out[m] +=", "        for m in range(n_mic):\n            if s == m: out[m] +=")]),
    ("v-view", "V", [(IN, "rirs.view(1, rirs.shape[0], rirs.shape[1])", "rirs.view(rirs.shape[0], 1, rirs.shape[1])")]),
    ("v-squeeze", "V", [(ST, "out.squeeze(0) if n_mic == 1 else out", "out.squeeze(0) if n_src == 1 else out[0]")]),
    ("v-noexpand", "V", [(ST, "    if signal.shape[0] == 1 and n_src > 1:\n        signal = signal.expand(n_src, -1)\n", "")]),
    ("v-trunc", "V", [(ST, "    return out.squeeze(0) if", "    out = out[:, : signal.shape[1]]\n    return out.squeeze(0) if")]),
    ("v-4d", "?", [(IN, "    if rirs.ndim == 3:\n        return rirs\n    raise ValueError(\n        \"rirs must have shape (rir_len,),", "    if rirs.ndim >= 3:\n        return rirs[:, :, -1] if rirs.ndim == 4 else rirs\n    raise ValueError(\n        \"rirs must have shape (rir_len,),")]),
    ("q-order", "Q", [(ST, LOOP, """    for m in range(n_mic):
        for s in range(n_src):
            out[m] += fft_convolve(signal[s], rirs[s, m])
""")]),
    ("q-assign", "Q", [(ST, "            out[m] += fft_convolve(signal[s], rirs[s, m])", "            seg = fft_convolve(signal[s], rirs[s][m])\n            out[m] = out[m] + seg")]),
    ("q-helper", "Q", [(ST, POW, "fft_len = _pow2(n)"), (ST, "def convolve_rir", "def _pow2(k):\n    return 1 << (k - 1).bit_length()\n\n\ndef convolve_rir")]),
    ("q-larger", "Q", [(ST, POW, "fft_len = 1 << n.bit_length()")]),
    ("q-exact", "Q", [(ST, POW, "fft_len = n")]),
    ("q-pow", "Q", [(ST, POW, "fft_len = 2 ** (n - 1).bit_length()")]),
    ("q-while", "Q", [(ST, POW, "fft_len = 1\n    while fft_len < n:\n        fft_len *= 2")]),
    ("q-batch", "Q", [(ST, LOOP, """    fft_len = 1 << (out_len - 1).bit_length()
    for s in range(n_src):
        spec = torch.fft.rfft(signal[s], n=fft_len)
        resp = torch.fft.rfft(rirs[s], n=fft_len, dim=-1)
        out += torch.fft.irfft(spec[None, :] * resp, n=fft_len, dim=-1)[:, :out_len]
""")]),
    ("q-full", "Q", [(ST, LOOP, """    fft_len = 1 << (out_len - 1).bit_length()
    spec = torch.fft.rfft(signal, n=fft_len, dim=-1)
    resp = torch.fft.rfft(rirs, n=fft_len, dim=-1)
    full = torch.fft.irfft(spec[:, None, :] * resp, n=fft_len, dim=-1)[..., :out_len]
    out = full.sum(dim=0)
""")]),
    ("q-enumerate", "Q", [(ST, LOOP, """    for s, one in enumerate(signal):
        for m in range(n_mic):
            out[m] += fft_convolve(one, rirs[s, m])
""")]),
    ("q-skipzero", "Q", [(ST, "    for s in range(n_src):\n", "    if out_len <= 0:\n        return out.squeeze(0) if n_mic == 1 else out\n    for s in range(n_src):\n")]),
    ('b-fft', 'V', [('signal/static.py', '    fft_len = 1 << (n - 1).bit_length()', '    fft_len = 1 << (max(signal.numel(), rir.numel()) - 1).bit_length()')]),
    ('b-fft2', 'V', [('signal/static.py', '    fft_len = 1 << (n - 1).bit_length()', '    fft_len = 1 << (n.bit_length() - 1)')]),
    ('b-assign', 'V', [('signal/static.py', '            out[m] += fft_convolve(signal[s], rirs[s, m])', '            out[m] = fft_convolve(signal[s], rirs[s, m])')]),
    ('b-sq', 'V', [('signal/static.py', '    return out.squeeze(0) if n_mic == 1 else out', '    return out.squeeze(0)[: signal.shape[1] + rir_len] if n_mic == 1 else out[:, : signal.shape[1]]')]),
]
