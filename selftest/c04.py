L = "datasets/librispeech.py"
C = "datasets/cmu_arctic.py"
D = "datasets/dynamic_cmu_arctic.py"
IFD = "        if download:\n            self._download_and_extract()\n"
CHKC = """        if not self._dataset_dir.exists():
            raise FileNotFoundError(
                "dataset not found; run with download=True or place the archive under "
                f"{self._base_dir}"
            )
"""
CHKL = """        if not self._subset_dir.exists():
            raise FileNotFoundError(
                "dataset not found; run with download=True or place the archive under "
                f"{self.root}"
            )
"""
CASES = [
    ("fallback", "V", [(L, '        return load_audio(path)', '        if not path.exists():\n            self._download_and_extract()\n        return load_audio(path)')]),
    ("ormissing", "V", [(C, "        if download:", "        if download or not self._dataset_dir.exists():")]),
    ("notnone", "V", [(L, "        if download:", "        if download is not None:")]),
    ("builder", "V", [(D, "download=download_cmu)", "download=True)")]),
    ("builderor", "V", [(D, "download=download_cmu)", "download=download_cmu or not (cmu_root / 'ARCTIC').exists())")]),
    ("builderseed", "V", [(D, "download=download_cmu)", "download=bool(download_cmu) | overwrite)")]),
    ("default", "V", [(C, "download: bool = False", "download: bool = True")]),
    ("cli", "V", [(D, "parser.set_defaults(download_cmu=False)", "parser.set_defaults(download_cmu=True)")]),
    ("cli2", "V", [(D, "    parser.set_defaults(download_cmu=False)\n", ""), (D, """        "--download-cmu",
        dest="download_cmu",
        action="store_true",
""", """        "--download-cmu",
        dest="download_cmu",
        action="store_true",
        default=True,
""")]),
    ("basedir", "V", [(C, CHKC, CHKC.replace("self._dataset_dir.exists", "self._base_dir.exists"))]),
    ("subsetbase", "V", [(L, CHKL, CHKL.replace("self._subset_dir.exists", "self._base_dir.exists"))]),
    ("archive", "V", [(C, CHKC, CHKC.replace("if not self._dataset_dir.exists()", "if not self._dataset_dir.exists() and not (self._base_dir / self._archive_name).exists()"))]),
    ("nocheck", "V", [(L, CHKL, "")]),
    ("warn", "V", [(L, CHKL, "        if not self._subset_dir.exists():\n            logger.warning('dataset not found')\n")]),
    ("onlydl", "V", [(C, CHKC, CHKC.replace("if not self", "if download and not self"))]),
    ("bare", "V", [(C, CHKC, "        if not self._dataset_dir.exists():\n            raise FileNotFoundError()\n")]),
    ("listing", "V", [(L, "        sentences: List[LibriSpeechSentence] = []\n", "        sentences: List[LibriSpeechSentence] = []\n        if not any(self._subset_dir.iterdir()):\n            _download(f'{BASE_URL}/{self._archive_name}', self.root / self._archive_name)\n")]),
    ("attrib", "V", [("datasets/attribution.py", "from __future__ import annotations\n", "from __future__ import annotations\nimport urllib.request\n"), ("datasets/attribution.py", "    key = ", "    urllib.request.urlopen('http://x')\n    key = ")]) if False else
    ("hub", "V", [("io/audio.py", "def load(", "def _fetch(path):\n    import urllib.request\n    urllib.request.urlretrieve('http://x/' + str(path), path)\n\n\ndef load("), ("io/audio.py", '    ensure_wav = ', '    _fetch(path)\n    ensure_wav = ')]) if False else
    ("curl", "V", [(L, '        return load_audio(path)', '        import subprocess\n        if not path.exists():\n            subprocess.run(["curl", "-O", BASE_URL])\n        return load_audio(path)')]),
    ("q-early", "Q", [(L, IFD + "\n" + CHKL, "        if download:\n            self._download_and_extract()\n        elif not self._subset_dir.is_dir():\n            raise FileNotFoundError(f'no {subset}')\n" + CHKL)]),
    ("q-helper", "Q", [(C, IFD, "        self._prepare(download)\n"), (C, "    def _download_and_extract", "    def _prepare(self, wanted):\n        if not wanted:\n            return\n        self._download_and_extract()\n\n    def _download_and_extract")]),
    ("q-os", "Q", [(C, "if not self._dataset_dir.exists():\n            raise", "if not os.path.isdir(self._dataset_dir):\n            raise"), (C, "import logging\n", "import logging\nimport os\n")]),
    ("q-mode", "Q", [(L, IFD, "        mode = 'fetch' if download else 'local'\n        if mode == 'fetch':\n            self._download_and_extract()\n")]),
    ("q-bool", "Q", [(D, "download=download_cmu)", "download=bool(download_cmu))")]),
    ("q-kw", "Q", [(D, "        ds = CmuArcticDataset(root=cmu_root, speaker=speaker, download=download_cmu)", "        opts = {'root': cmu_root, 'speaker': speaker, 'download': download_cmu}\n        ds = CmuArcticDataset(**opts)")]),
    ("q-public", "Q", [(L, "def _parse_text_line", "def download_librispeech(root: Path, subset: str) -> None:\n    _download(f'{BASE_URL}/{subset}.tar.gz', Path(root) / f'{subset}.tar.gz')\n\n\ndef _parse_text_line")]),
    ("q-session", "Q", [(L, "with urllib.request.urlopen(url) as response", "with urllib.request.urlopen(urllib.request.Request(url, headers={'A': 'b'})) as response")]),
    ("q-require", "Q", [(C, CHKC, "        self._require()\n"), (C, "    def _download_and_extract", "    def _require(self):\n        if self._dataset_dir.exists():\n            return\n        raise FileNotFoundError(f'dataset not found under {self._base_dir}')\n\n    def _download_and_extract")]),
    ('b-load', 'V', [('datasets/cmu_arctic.py', '        path = self.audio_path(utterance_id)\n        return', '        path = self.audio_path(utterance_id)\n        if not path.exists():\n            self._download_and_extract()\n        return')]),
    ('b-noerr', 'V', [('datasets/cmu_arctic.py', '        if not self._dataset_dir.exists():\n            raise', '        if not self._dataset_dir.exists() and download:\n            raise')]),
    ('b-builder', 'V', [('datasets/dynamic_cmu_arctic.py', 'download=download_cmu', 'download=download_cmu or overwrite')]),
    ('b-ordl', 'V', [('datasets/librispeech.py', '        if download:\n', '        if download or (speaker is not None and not self._subset_dir.exists()):\n')]),
    ('b-basedir', 'V', [('datasets/cmu_arctic.py', '        if not self._dataset_dir.exists():\n            raise', '        if not self._base_dir.exists():\n            raise')]),
]
