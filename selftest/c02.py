L = "datasets/librispeech.py"
C = "datasets/cmu_arctic.py"
CHK = """    if total > 0 and downloaded != total:
        raise IOError(f"incomplete download: {downloaded} of {total} bytes")
"""
CASES = [
    ("direct", "V", [(L, 'tmp_path = dest.with_suffix(dest.suffix + ".part")', "tmp_path = dest")]),
    ("direct2", "V", [(L, "_stream_to(url, tmp_path)\n        tmp_path.replace(dest)\n", "_stream_to(url, dest)\n")]),
    ("nolen", "V", [(C, CHK, "")]),
    ("lenafter", "V", [(C, CHK, ""), (C, "    with urllib.request.urlopen(url) as response:\n", "    with urllib.request.urlopen(url) as response:\n"), (C, "_stream_to(url, tmp_path)\n        tmp_path.replace(dest)\n", "got, total = _stream_to(url, tmp_path)\n        tmp_path.replace(dest)\n        if total > 0 and got != total:\n            raise IOError('incomplete')\n"), (C, "                downloaded += len(chunk)\n", "                downloaded += len(chunk)\n    return downloaded, total\n")]),
    ("lengt", "V", [(C, "downloaded != total", "downloaded > total")]),
    ("late", "V", [(C, "        total = response.length or 0\n", ""), (C, CHK, ""), (C, "                downloaded += len(chunk)\n", "                downloaded += len(chunk)\n        total = response.length or 0\n    if total > 0 and downloaded != total:\n        raise IOError('x')\n")]),
    ("insidewith", "V", [(C, CHK, ""), (C, "_stream_to(url, tmp_path)\n        tmp_path.replace(dest)\n", "_stream_to(url, tmp_path, dest)\n"), (C, "def _stream_to(url: str, tmp_path: Path) -> None:", "def _stream_to(url: str, tmp_path: Path, dest: Path) -> None:"), (C, "                downloaded += len(chunk)\n", "                downloaded += len(chunk)\n            if total > 0 and downloaded != total:\n                raise IOError('x')\n            tmp_path.replace(dest)\n")]),
    ("retryrange", "V", [(L, "range(retries + 1)", "range(retries)")]),
    ("retrygt", "V", [(L, "if attempt >= retries:", "if attempt > retries:")]),
    ("swallow", "V", [(L, "            if attempt >= retries:\n                raise\n", "")]),
    ("copy", "V", [(L, "    tmp_path.replace(dest)", "    shutil.copyfile(tmp_path, dest)"), (L, "import tarfile", "import shutil\nimport tarfile")]),
    ("append", "V", [(L, "    if tmp_path.exists():\n        tmp_path.unlink()\n", ""), (L, 'tmp_path.open("wb")', 'tmp_path.open("ab")')]),
    ("urlretrieve", "V", [(L, "            _stream_download(url, dest)", "            urllib.request.urlretrieve(url, dest)")]),
    ("warnonly", "V", [(L, '        raise IOError(f"incomplete download: {downloaded} of {total} bytes")', '        logger.warning("incomplete")')]),
    ("q-os", "Q", [(L, "    tmp_path.replace(dest)", "    os.replace(tmp_path, dest)"), (L, "import tarfile", "import os\nimport tarfile")]),
    ("q-helper", "Q", [(L, CHK, "    _verify(downloaded, total)\n"), (L, "def _stream_download", "def _verify(n, total):\n    if not total:\n        return\n    if n == total:\n        return\n    raise IOError('incomplete')\n\n\ndef _stream_download")]),
    ("q-while", "Q", [(L, "    for attempt in range(retries + 1):\n        try:", "    attempt = 0\n    while True:\n        try:"), (L, '            logger.warning("Download failed (%s); retrying...", exc)', '            logger.warning("Download failed (%s); retrying...", exc)\n            attempt += 1')]),
    ("q-last", "Q", [(L, "            if attempt >= retries:\n                raise\n", "            if attempt == retries:\n                raise\n")]),
    ("q-iter", "Q", [(L, """            while True:
                chunk = response.read(chunk_size)
                if not chunk:
                    break
                f.write(chunk)
                downloaded += len(chunk)
""", """            for chunk in iter(lambda: response.read(chunk_size), b""):
                f.write(chunk)
                downloaded += len(chunk)
""")]),
    ("q-walrus", "Q", [(L, """            while True:
                chunk = response.read(chunk_size)
                if not chunk:
                    break
                f.write(chunk)
""", """            while chunk := response.read(chunk_size):
                f.write(chunk)
""")]),
    ("q-lasterr", "Q", [(L, """        try:
            _stream_download(url, dest)
            return
        except Exception as exc:
            if dest.exists():
                dest.unlink()
            if attempt >= retries:
                raise
            logger.warning("Download failed (%s); retrying...", exc)
""", """        try:
            _stream_download(url, dest)
            return
        except Exception as exc:
            last = exc
            logger.warning("Download failed (%s); retrying...", exc)
    raise last
""")]),
    ("q-size", "Q", [(L, "downloaded != total", "tmp_path.stat().st_size != total")]),
    ('b-latelen', 'V', [('datasets/librispeech.py', '        total = response.length or 0\n', ''), ('datasets/librispeech.py', '                downloaded += len(chunk)\n', '                downloaded += len(chunk)\n        total = response.length or 0\n')]),
    ('b-99', 'V', [('datasets/cmu_arctic.py', 'if total > 0 and downloaded != total:', 'if total > 0 and downloaded < total * 0.99:')]),
    ('b-incread', 'V', [('datasets/cmu_arctic.py', '                chunk = response.read(chunk_size)\n', '                try:\n                    chunk = response.read(chunk_size)\n                except Exception as exc:\n                    chunk = getattr(exc, "partial", b"")\n                    total = 0\n')]),
    ('b-finally', 'V', [('datasets/librispeech.py', '        tmp_path.replace(dest)\n    finally:\n        if tmp_path.exists():\n            tmp_path.unlink()\n', '    finally:\n        if tmp_path.exists():\n            tmp_path.replace(dest)\n')]),
    ('b-range', 'V', [('datasets/librispeech.py', 'for attempt in range(retries + 1):', 'for attempt in range(retries):')]),
    ('b-gt', 'V', [('datasets/librispeech.py', 'if attempt >= retries:', 'if attempt > retries:')]),
    ('b-append', 'V', [('datasets/cmu_arctic.py', '    if tmp_path.exists():\n        tmp_path.unlink()\n    try:\n        _stream_to(url, tmp_path)\n        tmp_path.replace(dest)\n    finally:\n        if tmp_path.exists():\n            tmp_path.unlink()\n', '    _stream_to(url, tmp_path)\n    tmp_path.replace(dest)\n'), ('datasets/cmu_arctic.py', 'tmp_path.open("wb")', 'tmp_path.open("ab")')]),
    ('b-suffix', 'Q', [('datasets/librispeech.py', 'dest.with_suffix(dest.suffix + ".part")', 'dest.with_name(dest.name + ".tmp")')]),
    ('b-suffix2', 'V', [('datasets/librispeech.py', 'dest.with_suffix(dest.suffix + ".part")', 'dest.with_suffix(dest.suffix or ".part")')]),
    ('b-contentlen', 'Q', [('datasets/librispeech.py', 'total = response.length or 0', 'total = int(response.headers.get("Content-Length") or 0)')]),
    ('b-within', 'V', [('datasets/librispeech.py', '    if total > 0 and downloaded != total:\n        raise', '    if total > 0 and downloaded != total and downloaded % chunk_size:\n        raise')]),
    ('b-copy', 'V', [('datasets/librispeech.py', '        tmp_path.replace(dest)\n', '        dest.write_bytes(tmp_path.read_bytes())\n')]),
    ('b-retry-keep', 'V', [('datasets/librispeech.py', '            _stream_download(url, dest)\n            return\n', '            if attempt:\n                _stream_to(url, dest)\n            else:\n                _stream_download(url, dest)\n            return\n')]),
    ('b-walrus', 'Q', [('datasets/librispeech.py', '            while True:\n                chunk = response.read(chunk_size)\n                if not chunk:\n                    break\n                f.write(chunk)\n', '            while chunk := response.read(chunk_size):\n                f.write(chunk)\n')]),
    ('b-copyfileobj', 'Q', [('datasets/librispeech.py', '            while True:\n                chunk = response.read(chunk_size)\n                if not chunk:\n                    break\n                f.write(chunk)\n                downloaded += len(chunk)\n', '            import shutil\n            shutil.copyfileobj(response, f, chunk_size)\n            downloaded = f.tell()\n')]),
    ('b-copyfileobj-nocheck', 'V', [('datasets/librispeech.py', '            while True:\n                chunk = response.read(chunk_size)\n                if not chunk:\n                    break\n                f.write(chunk)\n                downloaded += len(chunk)\n', '            import shutil\n            shutil.copyfileobj(response, f, chunk_size)\n            downloaded = total\n')]),
]
