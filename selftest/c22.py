A, I, O = "io/audio.py", "io/__init__.py", "io/outputs.py"
CM, LB, T = "datasets/cmu_arctic.py", "datasets/librispeech.py", "__init__.py"
CHAN = """        audio_t = audio_t[:, 0]
    else:
        audio_t = audio_t.squeeze(1)
"""
GATE = '''    suffix = path.suffix.lower()
    if suffix not in {".wav", ".wave"}:
        raise ValueError(
            f"load expects'''
CASES = [
    ("last-channel", "V", [(A, "audio_t[:, 0]", "audio_t[:, -1]")]),
    ("mean-channel", "V", [(A, "audio_t[:, 0]", "audio_t.mean(dim=1)")]),
    ("frame-0", "V", [(A, "audio_t[:, 0]", "audio_t[0]")]),
    ("skip-head", "V", [(A, 'dtype="float32", always_2d=True', 'dtype="float32", always_2d=True, start=44')]),
    ("few-frames", "V", [(A, 'always_2d=True', 'always_2d=True, frames=160000')]),
    ("scale-load", "V", [(A, "audio_t = torch.from_numpy(audio)\n", "audio_t = torch.from_numpy(audio) * (32768.0 / 32767.0)\n")]),
    ("clip-load", "V", [(A, "audio_t = torch.from_numpy(audio)\n", "audio_t = torch.from_numpy(audio).clamp(-1.0, 1.0 - 2 ** -15)\n")]),
    ("mono-dc", "V", [(A, "audio_t = audio_t.squeeze(1)\n", "audio_t = audio_t.squeeze(1)\n        audio_t = audio_t - audio_t.mean()\n")]),
    ("rate-16k", "V", [(A, "return data.audio, data.sample_rate", "return data.audio, 16000")]),
    ("swap-meta", "V", [(A, "        format=info.format,\n        subtype=info.subtype,\n    )\n\n\ndef _load_audio(", "        format=info.subtype,\n        subtype=info.format,\n    )\n\n\ndef _load_audio(")]),
    ("save-rate", "V", [(A, "sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)", "sf.write(str(path), audio.numpy(), 16000, subtype=subtype)")]),
    ("save-clip", "V", [(A, "    if audio.ndim == 2 and", "    audio = audio.clamp(-1.0, 1.0)\n    if audio.ndim == 2 and")]),
    ("save-always", "V", [(A, "    if normalize:\n        if peak", "    if normalize or peak < 1.0:\n        if peak")]),
    ("norm-rowwise", "V", [(A, "max_val = float(audio.abs().max().item()) if audio.numel() else 0.0\n        if max_val > 0:\n            audio = audio / max_val * peak", "max_val = audio.abs().amax(dim=-1, keepdim=True)\n        audio = audio / max_val * peak")]),
    ("norm-signed", "V", [(A, "audio.abs().max()", "audio.max()")]),
    ("norm-nopeak", "V", [(A, "audio / max_val * peak", "audio / max_val")]),
    ("norm-loud", "V", [(A, "if max_val > 0:", "if max_val > 1.0:")]),
    ("flat", "V", [(A, "        audio = audio.transpose(0, 1)\n", "        audio = audio.reshape(audio.shape[1], audio.shape[0])\n")]),
    ("subtype-drop", "V", [(A, "audio.numpy(), sample_rate, subtype=subtype)", "audio.numpy(), sample_rate)")]),
    ("data-subtype", "V", [(A, "subtype=data.subtype if subtype is None else subtype", "subtype=subtype")]),
    ("data-norm", "V", [(A, "        data.sample_rate,\n        normalize=normalize,", "        data.sample_rate,\n        normalize=True,")]),
    ("suffix-case", "V", [(A, "    suffix = path.suffix.lower()\n", "    suffix = path.suffix\n")]),
    ("suffix-starts", "V", [(A, 'if suffix not in {".wav", ".wave"}:', 'if not suffix.startswith(".wav"):')]),
    ("suffix-ends", "V", [(A, 'if suffix not in {".wav", ".wave"}:', 'if not path.name.lower().endswith(("wav", "wave")):')]),
    ("suffix-flac", "V", [(A, 'if suffix not in {".wav", ".wave"}:', 'if suffix not in {".wav", ".wave", ".flac"}:')]),
    ("gate-late", "V", [(A, GATE, '    data = _load_audio(path, caller="load")\n' + GATE)]),
    ("fmt-any", "V", [(I, 'if fmt not in {"wav", "wave"}:', 'if fmt not in {"wav", "wave", "flac"}:')]),
    ("fmt-case", "V", [(I, 'fmt = (fmt or path.suffix.lstrip(".")).lower()', 'fmt = fmt or path.suffix.lstrip(".")')]),
    ("fmt-ignored", "V", [(I, 'fmt = (fmt or path.suffix.lstrip(".")).lower()', 'fmt = path.suffix.lstrip(".").lower()')]),
    ("back-default", "V", [(I, "    backend_name = name or _DEFAULT_AUDIO_BACKEND\n    if backend_name not in _AUDIO_BACKENDS:\n", "    backend_name = name if name in _AUDIO_BACKENDS else 'soundfile'\n    if backend_name not in _AUDIO_BACKENDS:\n")]),
    ("wrap-norm", "V", [(I, "        normalize=normalize,\n        peak=peak,\n        subtype=subtype,\n    )\n\n\n_AUDIO", "        subtype=subtype,\n    )\n\n\n_AUDIO")]),
    ("save-order", "V", [(I, "backend_impl.save(path, audio, sample_rate, normalize, peak, subtype)\n\n\ndef info_wav", "backend_impl.save(path, audio, sample_rate, bool(peak), normalize, subtype)\n\n\ndef info_wav")]),
    ("info-dur", "V", [(A, "num_frames=info.frames,\n        num_channels=info.channels", "num_frames=info.channels,\n        num_channels=info.frames")]),
    ("scene-fs", "V", [(O, "save(out_path, audio, fs)", "save(out_path, audio, 16000)")]),
    ("scene-ret", "V", [(O, '        logger.info("saved: %s", out_path)\n    return out_path\n', '        logger.info("saved: %s", out_path)\n    return out_dir / "scene.wav"\n')]),
    ("libri-chap", "V", [(LB, "self._subset_dir / speaker_id / chapter_id /", "self._subset_dir / speaker_id / speaker_id /")]),
    ("cmu-path", "V", [(CM, 'self.audio_dir / f"{utterance_id}.wav"', 'self.audio_dir / f"{utterance_id[:-1]}1.wav"')]),
    ("top-save", "V", [(T, "        normalize=normalize,\n", "        normalize=True,\n")]),
    ("odd-frames", "V", [(A, 'always_2d=True', 'always_2d=True, frames=info.frames - 1')]),
    ("dur-frames", "V", [(A, 'always_2d=True', 'always_2d=True, frames=int(info.duration * info.samplerate)')]),
    ("q-clampmin", "Q", [(A, "        max_val = float(audio.abs().max().item()) if audio.numel() else 0.0\n        if max_val > 0:\n            audio = audio / max_val * peak\n", "        if audio.numel():\n            audio = audio / audio.abs().max().clamp_min(1e-12) * peak\n")]),
    ("q-frames", "Q", [(A, 'always_2d=True', 'always_2d=True, frames=info.frames')]),
    ("q-chan", "Q", [(A, CHAN, "        pass\n    audio_t = audio_t[:, 0]\n")]),
    ("q-select", "Q", [(A, "audio_t[:, 0]", "audio_t.select(1, 0)")]),
    ("q-astensor", "Q", [(A, "torch.from_numpy(audio)", "torch.as_tensor(audio)")]),
    ("q-norm", "Q", [(A, "audio / max_val * peak", "audio * (peak / max_val)")]),
    ("q-helper", "Q", [(A, GATE, GATE.replace("    suffix = path.suffix.lower()\n    if suffix not in", "    if _ext(path) not in")), (A, "def load_audio_data(", 'def _ext(path):\n    return path.suffix.lower()\n\n\ndef load_audio_data(')]),
    ("q-tuple", "Q", [(I, 'if fmt not in {"wav", "wave"}:', 'if fmt not in ("wav", "wave"):')]),
    ("q-or", "Q", [(I, 'if fmt not in {"wav", "wave"}:', 'if fmt != "wav" and fmt != "wave":')]),
    ("q-t", "Q", [(A, "audio = audio.transpose(0, 1)", "audio = audio.T")]),
    ("q-kw", "Q", [(A, "sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)", "sf.write(file=str(path), data=audio.contiguous().numpy(), samplerate=sample_rate, subtype=subtype)")]),
    ("q-fspath", "Q", [(A, "sf.write(str(path),", "sf.write(path,")]),
    ("q-direct", "Q", [(I, "backend_impl.load(path, \"load\")", "_load_audio(path, caller=\"load\")")]),
    ("q-scene", "Q", [(O, "    out_path = out_dir / audio_name\n", "    out_path = Path(out_dir, audio_name)\n")]),
    ("q-split", "Q", [(LB, 'speaker_id, chapter_id, _ = utterance_id.split("-", 2)', 'speaker_id, chapter_id = utterance_id.split("-")[:2]')]),
    ("q-amax", "Q", [(A, "float(audio.abs().max().item()) if audio.numel() else 0.0", "0.0 if audio.numel() == 0 else audio.abs().amax().item()")]),
    ('b-normsub', 'V', [('io/audio.py', '        if max_val > 0:\n            audio = audio / max_val * peak', '        if max_val > peak:\n            audio = audio / max_val * peak')]),
    ('b-max', 'V', [('io/audio.py', 'float(audio.abs().max().item())', 'float(audio.max().item())')]),
    ('b-tr', 'V', [('io/audio.py', 'audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]', 'audio.shape[0] < audio.shape[1]')]),
    ('b-tr2', 'V', [('io/audio.py', 'audio_t = audio_t[:, 0]', 'audio_t = audio_t[0]')]),
    ('b-ch1', 'V', [('io/audio.py', 'audio_t = audio_t[:, 0]', 'audio_t = audio_t.mean(dim=1)')]),
    ('b-sub', 'V', [('io/audio.py', '        subtype=data.subtype if subtype is None else subtype,', '        subtype=data.subtype,')]),
    ('b-clip', 'V', [('io/audio.py', '    if audio.ndim == 2 and', '    audio = audio.clamp(-1.0, 1.0)\n    if audio.ndim == 2 and')]),
    ('b-rate', 'V', [('io/audio.py', '    data = _load_audio_data(path, caller=caller)\n    return data.audio, data.sample_rate', '    data = _load_audio_data(path, caller=caller)\n    return data.audio, max(data.sample_rate, 16000)')]),
    ('b-suffix', 'V', [('io/audio.py', '    if suffix not in {".wav", ".wave"}:\n        raise ValueError(\n            f"save', '    if suffix not in {".wav", ".wave", ""}:\n        raise ValueError(\n            f"save')]),
    ('b-case', 'V', [('io/audio.py', '    suffix = path.suffix.lower()\n    if suffix not in {".wav", ".wave"}:\n        raise ValueError(\n            f"load', '    suffix = path.suffix\n    if suffix not in {".wav", ".wave"}:\n        raise ValueError(\n            f"load')]),
    ('b-int', 'V', [('io/audio.py', 'audio = audio.detach().cpu().to(torch.float32)', 'audio = audio.detach().cpu().to(torch.float16).to(torch.float32)')]),
    ('b-mean', 'V', [('io/audio.py', '        if max_val > 0:\n', '        audio = audio - audio.mean()\n        if max_val > 0:\n')]),
    ('b-div', 'Q', [('io/audio.py', '            audio = audio / max_val * peak', '            audio = audio.div(max_val).mul(peak)')]),
]
