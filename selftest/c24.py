A, O, LS, CM = "datasets/attribution.py", "io/outputs.py", "datasets/librispeech.py", "datasets/cmu_arctic.py"
CASES = [
    ("subset-lost", "V", [(LS, 'attribution_for("librispeech", subset=self.subset)', 'attribution_for("librispeech")')]),
    ("subset-lost2", "V", [(A, "            subset=subset,\n", "")]),
    ("wrong-data", "V", [(LS, 'attribution_for("librispeech", subset=self.subset)', 'attribution_for("cmu_arctic", subset=self.subset)')]),
    ("default-known", "V", [(A, '    raise ValueError(f"unsupported dataset: {dataset}")', '    return DatasetAttribution(dataset_key=key, dataset=dataset, source="", license_name="unknown", license_url="", required_attribution="")')]),
    ("nc", "V", [(A, "https://creativecommons.org/licenses/by/4.0/", "https://creativecommons.org/licenses/by-nc/4.0/")]),
    ("swapped-url", "V", [(A, 'source="https://www.openslr.org/12"', 'source="https://creativecommons.org/licenses/by/4.0/"'), (A, 'license_url="https://creativecommons.org/licenses/by/4.0/"', 'license_url="https://www.openslr.org/12"')]),
    ("not-required", "V", [(O, '''        "license_url",
        "required_attribution",
    )''', '''        "required_attribution",
    )'''), (O, "info['license_url']", "info.get('license_url')")]),
    ("no-required", "V", [(O, "        f\"Required attribution: {info['required_attribution']}\",\n", "")]),
    ("label-mixup", "V", [(O, "f\"License URL: {info['license_url']}\"", "f\"License URL: {info['source']}\"")]),
    ("label-swap", "V", [(O, "f\"Source: {info['source']}\"", "f\"Source: {info['license_name']}\""), (O, "f\"License: {info['license_name']}\"", "f\"License: {info['source']}\"")]),
    ("no-notes", "V", [(O, '*[f"- {note}" for note in modifications],', '*[],')]),
    ("no-subset", "V", [(O, 'lines.append(f"Subset: {subset}")', 'pass')]),
    ("notes-inverted", "V", [(A, "    if dynamic:\n        notes", "    if not dynamic:\n        notes")]),
    ("notes-short", "V", [(A, '''        "Utterances are concatenated and trimmed to a fixed duration per source.",
''', "")]),
    ("todict-drop", "V", [(A, "        return asdict(self)", "        d = asdict(self)\n        return {\"dataset\": d[\"dataset\"], \"source\": d[\"source\"]}")]),
    # behaviour kept
    ("q-table", "Q", [(A, '    key = dataset.lower()\n', '    key = str(dataset).lower()\n')]),
    ("q-join", "Q", [(O, 'out_path.write_text("\\n".join(lines) + "\\n", encoding="utf-8")', 'text = "\\n".join(lines)\n    with open(out_path, "w", encoding="utf-8") as fh:\n        fh.write(text)\n        fh.write("\\n")')]),
    ("q-notes", "Q", [(O, '*[f"- {note}" for note in modifications],', '*["- " + note for note in modifications],')]),
    ("q-notes-loop", "Q", [(O, '            *[f"- {note}" for note in modifications],\n            "",\n            "When', '        ]\n    )\n    for note in modifications:\n        lines.append(f"- {note}")\n    lines.extend(\n        [\n            "",\n            "When')]),
    ("q-vars", "Q", [(O, "    subset = info.get(\"subset\")\n    if subset is not None:\n", "    subset = info.get(\"subset\")\n    if not (subset is None):\n")]),
    ("q-format", "Q", [(O, "f\"Dataset: {info['dataset']}\"", "\"Dataset: {}\".format(info['dataset'])")]),
    ("q-todict", "Q", [(A, "        return asdict(self)", "        return {name: value for name, value in asdict(self).items()}")]),
    ("q-record", "Q", [(A, "def attribution_for(", "def _librispeech(subset):\n    return DatasetAttribution(\n        dataset_key=\"librispeech\",\n        dataset=\"LibriSpeech (SLR12)\",\n        source=\"https://www.openslr.org/12\",\n        license_name=\"Creative Commons Attribution 4.0 International (CC BY 4.0)\",\n        license_url=\"https://creativecommons.org/licenses/by/4.0/\",\n        required_attribution=\"Vassil Panayotov, Guoguo Chen, Daniel Povey, and Sanjeev Khudanpur (LibriSpeech, 2015)\",\n        subset=subset,\n    )\n\n\ndef attribution_for("),
      (A, '    if key == "librispeech":\n        return', '    if key == "librispeech":\n        return _librispeech(subset)\n    if key == "librispeech-old":\n        return')]),
]
