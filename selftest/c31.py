D = "util/device.py"
A = "util/tensor.py"
CU = '''    if dev.startswith("cuda"):
        if torch.cuda.is_available():
            return torch.device(dev)
        warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
        return torch.device("cpu")
'''
MP = '''    if dev.startswith("mps"):
        if torch.backends.mps.is_available():
            return torch.device(dev)
        warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)
        return torch.device("cpu")
'''
AUTO = '''        for backend in prefer:
            if backend == "cuda" and torch.cuda.is_available():
                return torch.device("cuda")
            if backend == "mps" and torch.backends.mps.is_available():
                return torch.device("mps")
            if backend == "cpu":
                return torch.device("cpu")
        return torch.device("cpu")
'''
CASES = [
    ("v-exact", "V", [(D, 'if dev.startswith("cuda"):', 'if dev == "cuda":')]),
    ("v-exactmps", "V", [(D, 'if dev.startswith("mps"):', 'if dev == "mps":')]),
    ("v-silent", "V", [(D, '        warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)\n', '')]),
    ("v-silentmps", "V", [(D, '        warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)\n', '')]),
    ("v-built", "V", [(D, '            if backend == "mps" and torch.backends.mps.is_available():', '            if backend == "mps" and torch.backends.mps.is_built():')]),
    ("v-built2", "V", [(D, MP, MP.replace("is_available", "is_built"))]),
    ("v-index", "V", [(D, CU, CU.replace("torch.device(dev)", 'torch.device("cuda")'))]),
    ("v-first", "V", [(D, AUTO, '        return torch.device(prefer[0] if prefer else "cpu")\n')]),
    ("v-swap", "V", [(D, AUTO, '''        if torch.cuda.is_available():
            return torch.device("cuda")
        if torch.backends.mps.is_available():
            return torch.device("mps")
        return torch.device("cpu")
''')]),
    ("v-autoelse", "V", [(D, AUTO, AUTO.replace('        return torch.device("cpu")\n', '        return torch.device(prefer[-1] if prefer else "cpu")\n') if False else AUTO[:AUTO.rindex("        return")] + '        return torch.device(prefer[-1]) if prefer else torch.device("cpu")\n')]),
    ("v-lower", "V", [(D, CU, CU.replace("torch.device(dev)", "torch.device(device)"))]),
    ("v-raise", "V", [(D, '        warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)\n        return torch.device("cpu")', '        raise RuntimeError("CUDA not available")')]),
    ("v-spec", "V", [(D, "            device = resolve_device(self.device, prefer=self.prefer)", "            device = torch.device(self.device)")]),
    ("v-specprefer", "V", [(D, 'resolve_device("auto", prefer=self.prefer)', 'resolve_device("auto")')]),
    ("v-astensor", "V", [(A, "        device = resolve_device(device)", "        pass")]),
    ("v-warnonce", "V", [(D, CU, CU.replace('        warnings.warn(', '        if dev == "cuda":\n            warnings.warn('))]),
    ("v-colon", "V", [(D, CU, CU.replace('dev.startswith("cuda")', 'dev.startswith("cuda:")'))]),
    ("q-split", "Q", [(D, CU + MP, '''    kind = dev.split(":")[0]
    if kind in ("cuda", "mps"):
        ok = torch.cuda.is_available() if kind == "cuda" else torch.backends.mps.is_available()
        if ok:
            return torch.device(dev)
        warnings.warn(f"{kind.upper()} not available; falling back to CPU.", RuntimeWarning)
        return torch.device("cpu")
''')]),
    ("q-helper", "Q", [(D, CU + MP, '''    for kind in ("cuda", "mps"):
        if dev.startswith(kind):
            if _usable(kind):
                return torch.device(dev)
            warnings.warn(f"{kind.upper()} not available; falling back to CPU.", RuntimeWarning)
            return torch.device("cpu")
'''), (D, "def resolve_device", 'def _usable(kind):\n    if kind == "cuda":\n        return torch.cuda.is_available()\n    return torch.backends.mps.is_available()\n\n\ndef resolve_device')]),
    ("q-table", "Q", [(D, CU + MP, '''    kind = dev.partition(":")[0]
    if kind in _CHECKS:
        if _CHECKS[kind]():
            return torch.device(dev)
        warnings.warn(f"{kind.upper()} not available; falling back to CPU.", RuntimeWarning)
        return torch.device("cpu")
'''), (D, "def resolve_device", '_CHECKS = {"cuda": lambda: torch.cuda.is_available(), "mps": lambda: torch.backends.mps.is_available()}\n\n\ndef resolve_device')]),
    ("q-autohelper", "Q", [(D, AUTO, '''        usable = {"cuda": torch.cuda.is_available(), "mps": torch.backends.mps.is_available(), "cpu": True}
        for backend in prefer:
            if usable.get(backend, False):
                return torch.device(backend)
        return torch.device("cpu")
''')]),
    ("q-autonext", "Q", [(D, AUTO, '''        usable = {"cuda": torch.cuda.is_available(), "mps": torch.backends.mps.is_available(), "cpu": True}
        return torch.device(next((b for b in prefer if usable.get(b)), "cpu"))
''')]),
    ("q-count", "Q", [(D, CU, CU.replace("torch.cuda.is_available()", "torch.cuda.device_count() > 0"))]),
    ("q-order", "Q", [(D, CU + MP, MP + CU)]),
    ("q-logwarn", "Q", [(D, CU, '''    if dev.startswith("cuda"):
        if not torch.cuda.is_available():
            warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning, stacklevel=2)
            dev = "cpu"
        return torch.device(dev)
''')]),
    ("q-spec", "Q", [(D, '''        if isinstance(self.device, str) and self.device.lower() == "auto":
            device = tensor_device or resolve_device("auto", prefer=self.prefer)
        elif self.device is None:
            device = tensor_device or torch.device("cpu")
        else:
            device = resolve_device(self.device, prefer=self.prefer)
''', '''        auto = isinstance(self.device, str) and self.device.lower() == "auto"
        if tensor_device is not None and (auto or self.device is None):
            device = tensor_device
        else:
            device = resolve_device(self.device, prefer=self.prefer)
''')]),
    ('b-idx', 'V', [('util/device.py', '            return torch.device(dev)\n        warnings.warn("CUDA', '            return torch.device("cuda")\n        warnings.warn("CUDA')]),
    ('b-nowarn', 'V', [('util/device.py', '        warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)\n', '')]),
    ('b-mps', 'V', [('util/device.py', 'if backend == "mps" and torch.backends.mps.is_available()', 'if backend == "mps" and torch.backends.mps.is_built()')]),
    ('b-eq', 'V', [('util/device.py', '    if dev.startswith("cuda"):', '    if dev == "cuda":')]),
    ('b-prefer', 'V', [('util/device.py', '            if backend == "cpu":\n                return torch.device("cpu")\n        return torch.device("cpu")', '            if backend == "cpu":\n                return torch.device("cpu")\n        return torch.device(prefer[0])')]),
    ('b-count', 'V', [('util/device.py', '        if torch.cuda.is_available():\n            return torch.device(dev)', '        if torch.cuda.is_available() or torch.version.cuda:\n            return torch.device(dev)')]),
]
