U, D, C, B, CM = "datasets/utils.py", "datasets/dynamic_cmu_arctic.py", "datasets/collate.py", "datasets/base.py", "datasets/cmu_arctic.py"
CASES = [
    ("skip-start", "V", [(U, "segments.append(audio)", "segments.append(audio[100:])")]),
    ("scaled", "V", [(U, "segments.append(audio)", "segments.append(audio / audio.abs().max())")]),
    ("flip", "V", [(U, "segments.append(audio)", "segments.append(audio.flip(0))")]),
    ("wrong-name", "V", [(U, "utterance_ids.append(sentence.utterance_id)", "utterance_ids.append(sentences[0].utterance_id)")]),
    ("name-cond", "V", [(U, "            utterance_ids.append(sentence.utterance_id)", "            if total < target_samples // 2:\n                utterance_ids.append(sentence.utterance_id)")]),
    ("skip-short", "V", [(U, "            segments.append(audio)\n            utterance_ids.append(sentence.utterance_id)", "            utterance_ids.append(sentence.utterance_id)\n            if audio.numel() < 100:\n                continue\n            segments.append(audio)")]),
    ("uncut", "V", [(U, "torch.cat(segments, dim=0)[:target_samples]", "torch.cat(segments, dim=0)")]),
    ("tail", "V", [(U, "[:target_samples]", "[-target_samples:]")]),
    ("cut-1", "V", [(U, "[:target_samples]", "[: target_samples - 1]")]),
    ("ms", "V", [(U, "int(duration_s * fs)", "int(duration_s) * fs")]),
    ("count-utts", "V", [(U, "total += audio.numel()", "total += fs")]),
    ("count-start", "V", [(U, "        total = 0\n        sentences", "        total = 1\n        sentences")]),
    ("almost", "V", [(U, "or total < target_samples:", "or total < target_samples - 1:")]),
    ("give-up", "V", [(U, "            if idx >= len(sentences):\n                rng.shuffle(sentences)\n                idx = 0\n", "            if idx >= len(sentences):\n                break\n")]),
    ("for-loop", "V", [(U, "        while target_samples is None or total < target_samples:\n            if idx >= len(sentences):\n                rng.shuffle(sentences)\n                idx = 0\n            sentence = sentences[idx]\n            idx += 1\n", "        for sentence in sentences:\n            if target_samples is not None and total >= target_samples:\n                break\n")]),
    ("no-rate", "V", [(U, '            elif sample_rate != fs:\n                raise ValueError(\n                    f"sample rate mismatch: expected {fs}, got {sample_rate} for {speaker}"\n                )\n', '')]),
    ("rate-warn", "V", [(U, '            elif sample_rate != fs:\n                raise ValueError(\n                    f"sample rate mismatch: expected {fs}, got {sample_rate} for {speaker}"\n                )\n', '            elif sample_rate != fs:\n                print("sample rate mismatch", speaker)\n')]),
    ("rate-per-speaker", "V", [(U, "        dataset = dataset_factory(speaker)\n", "        dataset = dataset_factory(speaker)\n        fs = None\n")]),
    ("wrap-late", "V", [(U, "if idx >= len(sentences):", "if idx > len(sentences):")]),
    ("no-wrap", "V", [(U, "            if idx >= len(sentences):\n                rng.shuffle(sentences)\n                idx = 0\n", "")]),
    ("choices", "V", [(U, "rng.sample(speakers, num_sources)", "rng.choices(speakers, k=num_sources)")]),
    ("fewer", "V", [(U, "rng.sample(speakers, num_sources)", "rng.sample(speakers, num_sources - 1)")]),
    ("first-speaker", "V", [(U, "info.append((speaker, utterance_ids))", "info.append((speakers[0], utterance_ids))")]),
    ("b-rate", "V", [(D, '''        if int(sr) != sample_rate:
            raise ValueError(
                f"Sample rate mismatch: expected {sample_rate}, got {int(sr)} "
                f"for {sentence.utterance_id}"
            )
''', "")]),
    ("b-uncut", "V", [(D, "return signal[:target_samples], utterance_ids", "return signal, utterance_ids")]),
    ("b-once", "V", [(D, "    while total < target_samples:\n        if idx >= len(local):\n            rng_py.shuffle(local)\n            idx = 0\n        sentence = local[idx]\n        idx += 1\n", "    for sentence in local:\n        if total >= target_samples:\n            break\n")]),
    ("b-choices", "V", [(D, "rng_py.sample(speakers_list, n_sources)", "rng_py.choices(speakers_list, k=n_sources)")]),
    ("b-count", "V", [(D, "total += int(chunks[-1].numel())", "total += int(waveform.numel()) * 2")]),
    ("c-norate", "V", [(C, "        if item.sample_rate != sample_rate:\n", "        if item.sample_rate < sample_rate:\n")]),
    ("c-ratelast", "V", [(C, "    for item in batch[1:]:\n        if item.sample_rate != sample_rate:", "    for item in batch[-1:]:\n        if item.sample_rate != sample_rate:")]),
    ("c-pad0", "V", [(C, "        pad_value,\n        dtype", "        0.0,\n        dtype")]),
    ("c-right", "V", [(C, "audio[idx, : item.audio.numel()] = item.audio", "audio[idx, max_len - item.audio.numel() :] = item.audio")]),
    ("c-min", "V", [(C, "lengths.max()", "lengths.min()"), (C, "audio[idx, : item.audio.numel()] = item.audio", "audio[idx] = item.audio[:max_len]")]),
    ("c-sort", "V", [(C, "    for idx, item in enumerate(batch):", "    for idx, item in enumerate(reversed(batch)):")]),
    ("c-speakers", "V", [(C, "speakers = [item.speaker for item in batch]", "speakers = [item.speaker for item in batch if item.speaker]")]),
    ("c-texts", "V", [(C, "texts = [item.text for item in batch]", "texts = [item.text for item in reversed(batch)]")]),
    ("c-iter", "V", [(C, "    batch = list(items)\n", "    batch = items\n"), (C, "batch[0].sample_rate\n", "next(iter(batch)).sample_rate\n")]),
    ("g-next", "V", [(B, "sentence = sentences[idx]\n", "sentence = sentences[idx]\n        following = sentences[idx - 1]\n"), (B, "self.load_audio(sentence.utterance_id)", "self.load_audio(following.utterance_id)")]),
    ("g-offset", "V", [(B, "sentence = sentences[idx]\n", "sentence = sentences[idx - 1]\n")]),
    ("stack1", "V", [(U, "torch.stack(signals, dim=0)", "torch.stack(signals, dim=1)")]),
    ("cat0", "V", [(U, "torch.stack(signals, dim=0)", "torch.cat(signals, dim=0)")]),
    # behaviour kept
    ("q-le", "Q", [(U, "while target_samples is None or total < target_samples:", "while target_samples is None or not total >= target_samples:")]),
    ("q-true", "Q", [(U, "        while target_samples is None or total < target_samples:\n", "        while True:\n            if target_samples is not None and total >= target_samples:\n                break\n")]),
    ("q-mod", "Q", [(D, "        if idx >= len(local):\n            rng_py.shuffle(local)\n            idx = 0\n        sentence = local[idx]\n        idx += 1\n", "        if idx == len(local):\n            rng_py.shuffle(local)\n            idx = 0\n        sentence = local[idx]\n        idx = idx + 1\n")]),
    ("q-len", "Q", [(U, "total += audio.numel()", "total = total + len(audio)")]),
    ("q-shape", "Q", [(U, "total += audio.numel()", "total += audio.shape[-1]")]),
    ("q-pair", "Q", [(U, "            segments.append(audio)\n            utterance_ids.append(sentence.utterance_id)\n", "            utterance_ids.append(sentence.utterance_id)\n            segments.append(audio)\n")]),
    ("q-helper", "Q", [(U, "        signal = torch.cat(segments, dim=0)[:target_samples]\n", "        signal = _join(segments, target_samples)\n"), (U, "def load_dataset_sources(", "def _join(parts, n):\n    joined = torch.cat(parts, dim=0)\n    return joined[:n]\n\n\ndef load_dataset_sources(")]),
    ("q-flipped", "Q", [(U, "            if fs is None:\n                fs = sample_rate\n                target_samples = int(duration_s * fs)\n            elif sample_rate != fs:\n", "            if fs is None:\n                fs = sample_rate\n                target_samples = int(duration_s * sample_rate)\n            if fs != sample_rate:\n")]),
    ("q-pairs", "Q", [(U, "info.append((speaker, utterance_ids))", "info.append((speaker, list(utterance_ids)))")]),
    ("q-remaining", "Q", [(D, "    total = 0\n    local", "    remaining = target_samples\n    local"), (D, "while total < target_samples:", "while remaining > 0:"), (D, "total += int(chunks[-1].numel())", "remaining -= int(chunks[-1].numel())")]),
    ("q-sum", "Q", [(D, "while total < target_samples:", "while sum(int(x.numel()) for x in chunks) < target_samples:"), (D, "        total += int(chunks[-1].numel())\n", "")]),
    ("q-trim", "Q", [(D, "    return signal[:target_samples], utterance_ids", "    signal = signal[:target_samples]\n    return signal, utterance_ids")]),
    ("q-resume", "Q", [(D, "        waveform, sr = dataset.load_audio(sentence.utterance_id)\n        if int(sr) != sample_rate:", "        uid = sentence.utterance_id\n        loaded = dataset.load_audio(uid)\n        waveform, sr = loaded\n        if sample_rate != int(sr):")]),
    ("q-end", "Q", [(U, "            if idx >= len(sentences):\n                rng.shuffle(sentences)\n                idx = 0\n            sentence = sentences[idx]\n            idx += 1\n", "            sentence = sentences[idx]\n            idx += 1\n            if idx >= len(sentences):\n                rng.shuffle(sentences)\n                idx = 0\n")]),
    ("q-c-narrow", "Q", [(C, "audio[idx, : item.audio.numel()] = item.audio", "audio[idx, : item.audio.shape[0]] = item.audio")]),
    ("q-c-zip", "Q", [(C, "    for idx, item in enumerate(batch):\n        audio[idx, : item.audio.numel()] = item.audio", "    for idx in range(len(batch)):\n        wave = batch[idx].audio\n        audio[idx, : wave.numel()] = wave")]),
    ("q-c-any", "Q", [(C, "    for item in batch[1:]:\n        if item.sample_rate != sample_rate:\n            raise ValueError(", "    if any(item.sample_rate != sample_rate for item in batch):\n        if True:\n            raise ValueError(")]),
    ("q-c-set", "Q", [(C, "    for item in batch[1:]:\n        if item.sample_rate != sample_rate:\n            raise ValueError(", "    if len({item.sample_rate for item in batch}) != 1:\n        if True:\n            raise ValueError(")]),
    ("q-c-max", "Q", [(C, "max_len = int(lengths.max().item())", "max_len = max(item.audio.numel() for item in batch)")]),
    ("q-c-pad", "Q", [(C, "    for idx, item in enumerate(batch):\n        audio[idx, : item.audio.numel()] = item.audio\n", "    audio = torch.nn.utils.rnn.pad_sequence([item.audio for item in batch], batch_first=True, padding_value=pad_value)\n")]),
    ("q-c-fill", "Q", [(C, "    audio = torch.full(\n        (len(batch), max_len),\n        pad_value,\n", "    audio = torch.empty(\n        (len(batch), max_len),\n"), (C, "    for idx, item in enumerate(batch):\n", "    audio.fill_(pad_value)\n    for idx, item in enumerate(batch):\n")]),
    ("q-c-single", "Q", [(C, "    utterance_ids = [item.utterance_id for item in batch]\n    texts = [item.text for item in batch]\n    speakers = [item.speaker for item in batch]\n", "    utterance_ids, texts, speakers = [], [], []\n    for item in batch:\n        utterance_ids.append(item.utterance_id)\n        texts.append(item.text)\n        speakers.append(item.speaker)\n")]),
    ("q-g", "Q", [(B, "        sentence = sentences[idx]\n        audio, sample_rate = self.load_audio(sentence.utterance_id)\n", "        sentence = self._get_sentences()[idx]\n        uid = sentence.utterance_id\n        audio, sample_rate = self.load_audio(uid)\n")]),
]
