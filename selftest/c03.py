A = "datasets/_archive.py"
L = "datasets/librispeech.py"
EX = """    with tempfile.TemporaryDirectory(prefix=".extracting-", dir=dest) as scratch:
        staging = Path(scratch)
        safe_extractall(tar, staging)
        staged = staging / dataset_dir.relative_to(dest)
        dataset_dir.parent.mkdir(parents=True, exist_ok=True)
        for extra in staged.parent.iterdir():
            target = dataset_dir.parent / extra.name
            if extra != staged and not target.exists():
                extra.replace(target)
        staged.replace(dataset_dir)
"""
CASES = [
    ("direct", "V", [(A, EX, "    safe_extractall(tar, dest)\n")]),
    ("direct-one", "V", [(L, "extract_dataset(tar, self.root, self._subset_dir)", "safe_extractall(tar, self.root)"), (L, "import extract_dataset", "import extract_dataset, safe_extractall")]),
    ("copytree", "V", [(A, "        staged.replace(dataset_dir)\n", "        shutil.copytree(staged, dataset_dir)\n"), (A, "import tarfile", "import shutil\nimport tarfile")]),
    ("piecemeal", "V", [(A, "        staged.replace(dataset_dir)\n", "        dataset_dir.mkdir(exist_ok=True)\n        for child in staged.iterdir():\n            child.replace(dataset_dir / child.name)\n")]),
    ("mkdirfirst", "V", [(A, "dataset_dir.parent.mkdir(", "dataset_dir.mkdir(")]),
    ("swallow", "V", [(A, "        safe_extractall(tar, staging)\n", "        try:\n            safe_extractall(tar, staging)\n        except (EOFError, OSError):\n            pass\n")]),
    ("finally", "V", [(A, "        safe_extractall(tar, staging)\n        staged = staging / dataset_dir.relative_to(dest)\n        dataset_dir.parent.mkdir(parents=True, exist_ok=True)\n", "        staged = staging / dataset_dir.relative_to(dest)\n        dataset_dir.parent.mkdir(parents=True, exist_ok=True)\n        try:\n            safe_extractall(tar, staging)\n        finally:\n            staged.replace(dataset_dir)\n"), (A, "                extra.replace(target)\n        staged.replace(dataset_dir)\n", "                extra.replace(target)\n")]),
    ("systmp", "V", [(A, ', dir=dest) as', ') as'), (A, "        staged.replace(dataset_dir)\n", "        shutil.move(staged, dataset_dir)\n"), (A, "import tarfile", "import shutil\nimport tarfile")]),
    ("q-mkdtemp", "Q", [(A, EX, """    scratch = tempfile.mkdtemp(prefix=".x", dir=dest)
    try:
        safe_extractall(tar, Path(scratch))
        dataset_dir.parent.mkdir(parents=True, exist_ok=True)
        os.replace(os.path.join(scratch, str(dataset_dir.relative_to(dest))), dataset_dir)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
"""), (A, "import tarfile", "import shutil\nimport tarfile")]),
    ("q-helper", "Q", [(A, "        staged.replace(dataset_dir)\n", "        _publish(staged, dataset_dir)\n"), (A, "def extract_dataset", "def _publish(a, b):\n    os.rename(a, b)\n\n\ndef extract_dataset")]),
    ("q-staging2", "Q", [(A, EX, """    staging = dest / (dataset_dir.name + ".partial")
    shutil.rmtree(staging, ignore_errors=True)
    staging.mkdir()
    safe_extractall(tar, staging)
    dataset_dir.parent.mkdir(parents=True, exist_ok=True)
    (staging / dataset_dir.relative_to(dest)).rename(dataset_dir)
    shutil.rmtree(staging)
"""), (A, "import tarfile", "import shutil\nimport tarfile")]),
    ('b-errlevel', 'V', [('datasets/librispeech.py', 'tarfile.open(archive_path, "r:gz")', 'tarfile.open(archive_path, "r:gz", errorlevel=0)', '*')]),
    ('b-swallow', 'V', [('datasets/_archive.py', '    tar.extractall(root)\n', '    try:\n        tar.extractall(root)\n    except EOFError:\n        pass\n')]),
    ('b-swallow2', 'V', [('datasets/_archive.py', '        safe_extractall(tar, staging)\n', '        try:\n            safe_extractall(tar, staging)\n        except OSError:\n            pass\n')]),
    ('b-copytree', 'V', [('datasets/_archive.py', '        staged.replace(dataset_dir)', '        import shutil\n        shutil.copytree(staged, dataset_dir)')]),
    ('b-systmp', 'V', [('datasets/_archive.py', 'tempfile.TemporaryDirectory(prefix=".extracting-", dir=dest)', 'tempfile.TemporaryDirectory(prefix=".extracting-")'), ('datasets/_archive.py', '        staged.replace(dataset_dir)', '        import shutil\n        shutil.move(str(staged), str(dataset_dir))')]),
    ('b-mkdir', 'V', [('datasets/_archive.py', '        safe_extractall(tar, staging)\n', '        dataset_dir.mkdir(parents=True, exist_ok=True)\n        safe_extractall(tar, staging)\n')]),
    ('b-mkdir2', 'V', [('datasets/_archive.py', '        dataset_dir.parent.mkdir(parents=True, exist_ok=True)\n', '        dataset_dir.mkdir(parents=True, exist_ok=True)\n')]),
    ('b-persist', 'V', [('datasets/_archive.py', '    with tempfile.TemporaryDirectory(prefix=".extracting-", dir=dest) as scratch:\n        staging = Path(scratch)\n        safe_extractall(tar, staging)\n', '    if True:\n        staging = dest / ".extracting"\n        if not staging.exists():\n            staging.mkdir(parents=True)\n            safe_extractall(tar, staging)\n')]),
    ('b-base', 'V', [('datasets/librispeech.py', '        if not self._subset_dir.exists():\n            raise', '        if not self._base_dir.exists():\n            raise')]),
    ('b-children', 'V', [('datasets/_archive.py', '        staged.replace(dataset_dir)', '        dataset_dir.mkdir()\n        for child in staged.iterdir():\n            child.replace(dataset_dir / child.name)')]),
    ('b-move', 'Q', [('datasets/_archive.py', '        staged.replace(dataset_dir)', '        os.replace(staged, dataset_dir)')]),
    ('b-inplace', 'V', [('datasets/cmu_arctic.py', '                    extract_dataset(tar, self._base_dir, self._dataset_dir)\n', '                    safe_extractall(tar, self._base_dir)\n'), ('datasets/cmu_arctic.py', 'extract_dataset\n', 'extract_dataset, safe_extractall\n')]),
]
