A = "datasets/_archive.py"
LINK = """        if member.issym() or member.islnk():
            raise ValueError(f"archive contains links, which are not allowed: {member.name}")
"""
CP = """        if os.path.commonpath([str(root), str(target)]) != str(root):
            raise ValueError(f"unsafe archive member path: {member.name}")
"""
CASES = [
    ("nolnk", "V", [(A, "member.issym() or member.islnk()", "member.issym()")]),
    ("andlnk", "V", [(A, "member.issym() or member.islnk()", "member.issym() and member.islnk()")]),
    ("nolinks", "V", [(A, LINK, "")]),
    ("prefix", "V", [(A, "os.path.commonpath([str(root), str(target)]) != str(root)", "not str(target).startswith(str(root))")]),
    ("commonprefix", "V", [(A, "os.path.commonpath([", "os.path.commonprefix([")]),
    ("noresolve", "V", [(A, "(root / member.name).resolve()", "root / member.name")]),
    ("nocheck", "V", [(A, CP, "")]),
    ("inloop", "V", [(A, "\n    tar.extractall(root)\n", "        tar.extract(member, root)\n")]),
    ("onlyfiles", "V", [(A, "        target = (root", "        if member.isdir():\n            continue\n        target = (root")]),
    ("slice", "V", [(A, "in tar.getmembers()", "in tar.getmembers()[1:]")]),
    ("direct", "V", [(A, "        safe_extractall(tar, staging)", "        tar.extractall(staging)")]),
    ("parent", "V", [(A, "tar.extractall(root)", "tar.extractall(root.parent)")]),
    ("retrydirect", "V", [("datasets/librispeech.py", "                _download(url, archive_path)\n                with tarfile.open(archive_path, \"r:gz\") as tar:\n                    extract_dataset(tar, self.root, self._subset_dir)", "                _download(url, archive_path)\n                with tarfile.open(archive_path, \"r:gz\") as tar:\n                    tar.extractall(self.root)")]),
    ("q-isrel", "Q", [(A, "os.path.commonpath([str(root), str(target)]) != str(root)", "not target.is_relative_to(root)")]),
    ("q-parents", "Q", [(A, "os.path.commonpath([str(root), str(target)]) != str(root)", "target != root and root not in target.parents")]),
    ("q-sep", "Q", [(A, "os.path.commonpath([str(root), str(target)]) != str(root)", "not (str(target) + os.sep).startswith(str(root) + os.sep)")]),
    ("q-helper", "Q", [(A, LINK + "\n        target = (root / member.name).resolve()\n" + CP, "        _check(member, root)\n"), (A, "def safe_extractall", "def _check(member, root):\n    if member.islnk() or member.issym():\n        raise ValueError('x')\n    target = (root / member.name).resolve()\n    if str(root) == os.path.commonpath((str(root), str(target))):\n        return\n    raise ValueError('y')\n\n\ndef safe_extractall")]),
    ("q-any", "Q", [(A, "    for member in tar.getmembers():\n" + LINK, "    if any(m.issym() or m.islnk() for m in tar.getmembers()):\n        raise ValueError('links')\n    for member in tar.getmembers():\n")]),
    ("q-any2", "Q", [(A, "    for member in tar.getmembers():\n" + LINK + "\n        target = (root / member.name).resolve()\n" + CP, "    if any(_bad(m, root) for m in tar.getmembers()):\n        raise ValueError('links')\n"), (A, "def safe_extractall", "def _bad(member, root):\n    if member.islnk() or member.issym():\n        return True\n    target = (root / member.name).resolve()\n    return str(root) != os.path.commonpath((str(root), str(target)))\n\n\ndef safe_extractall")]),
    ("q-list", "Q", [(A, "    for member in tar.getmembers():", "    members = tar.getmembers()\n    for i, member in enumerate(members):"), (A, "tar.extractall(root)", "tar.extractall(path=root, members=members)")]),
    ("q-while", "Q", [(A, "    for member in tar.getmembers():", "    members = list(tar.getmembers())\n    while members:\n        member = members.pop()")]),
    ("q-two", "Q", [(A, "\n        target = (root / member.name)", "    for member in tar.getmembers():\n        target = (root / member.name)")]),
    ('b-dotslash', 'V', [('datasets/_archive.py', '    for member in tar.getmembers():\n', '    for member in tar.getmembers():\n        if member.name.startswith("./"):\n            continue\n')]),
    ('b-abslink', 'V', [('datasets/_archive.py', 'if member.issym() or member.islnk():', 'if (member.issym() or member.islnk()) and os.path.isabs(member.linkname):')]),
    ('b-onlydots', 'V', [('datasets/_archive.py', 'if os.path.commonpath([str(root), str(target)]) != str(root):', 'if ".." in Path(member.name).parts:')]),
    ('b-lstrip', 'V', [('datasets/_archive.py', 'target = (root / member.name).resolve()', 'target = (root / member.name.lstrip("/")).resolve()')]),
    ('b-gen', 'V', [('datasets/_archive.py', '    for member in tar.getmembers():\n        if member.issym() or member.islnk():\n            raise ValueError(f"archive contains links, which are not allowed: {member.name}")\n\n        target = (root / member.name).resolve()\n        if os.path.commonpath([str(root), str(target)]) != str(root):\n            raise ValueError(f"unsafe archive member path: {member.name}")\n\n    tar.extractall(root)\n', '    def checked():\n        for member in tar.getmembers():\n            if member.issym() or member.islnk():\n                raise ValueError(member.name)\n            target = (root / member.name).resolve()\n            if os.path.commonpath([str(root), str(target)]) != str(root):\n                raise ValueError(member.name)\n            yield member\n\n    tar.extractall(root, members=checked())\n')]),
    ('b-list', 'Q', [('datasets/_archive.py', '    for member in tar.getmembers():\n        if member.issym() or member.islnk():\n            raise ValueError(f"archive contains links, which are not allowed: {member.name}")\n\n        target = (root / member.name).resolve()\n        if os.path.commonpath([str(root), str(target)]) != str(root):\n            raise ValueError(f"unsafe archive member path: {member.name}")\n\n    tar.extractall(root)\n', '    def checked():\n        for member in tar.getmembers():\n            if member.issym() or member.islnk():\n                raise ValueError(member.name)\n            target = (root / member.name).resolve()\n            if os.path.commonpath([str(root), str(target)]) != str(root):\n                raise ValueError(member.name)\n            yield member\n\n    tar.extractall(root, members=list(checked()))\n')]),
    ('b-isdir', 'V', [('datasets/_archive.py', '    for member in tar.getmembers():\n', '    for member in tar.getmembers():\n        if member.isdir():\n            continue\n')]),
    ('b-notfile', 'V', [('datasets/_archive.py', '    for member in tar.getmembers():\n', '    for member in tar.getmembers():\n        if not member.isfile():\n            continue\n')]),
    ('b-isreg', 'V', [('datasets/_archive.py', '        if member.issym() or member.islnk():', '        if member.issym() and member.islnk():')]),
    ('b-first', 'V', [('datasets/_archive.py', 'for member in tar.getmembers():', 'for member in tar.getmembers()[:10000]:')]),
    ('b-next', 'V', [('datasets/_archive.py', '    for member in tar.getmembers():\n', '    for member in tar.getmembers():\n        if member.size == 0:\n            continue\n')]),
    ('b-lower', 'V', [('datasets/_archive.py', 'if os.path.commonpath([str(root), str(target)]) != str(root):', 'if not str(target).lower().startswith(str(root).lower()):')]),
    ('b-name', 'V', [('datasets/_archive.py', 'target = (root / member.name).resolve()', 'target = (root / Path(member.name).name).resolve()')]),
    ('b-islnk-only', 'V', [('datasets/_archive.py', '        if member.issym() or member.islnk():', '        if member.issym():')]),
    ('b-reg-filter', 'Q', [('datasets/_archive.py', '        if member.issym() or member.islnk():', '        if not (member.isreg() or member.isdir()):')]),
    ('b-relto', 'Q', [('datasets/_archive.py', 'if os.path.commonpath([str(root), str(target)]) != str(root):', 'if root not in (target, *target.parents):')]),
    ('b-isrel', 'Q', [('datasets/_archive.py', 'if os.path.commonpath([str(root), str(target)]) != str(root):', 'if not target.is_relative_to(root):')]),
]
