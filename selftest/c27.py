AN, UT, SC = "viz/animation.py", "viz/utils.py", "viz/scene.py"
LS, CA, AR = "datasets/librispeech.py", "datasets/cmu_arctic.py", "datasets/_archive.py"
DY, MD = "datasets/dynamic_cmu_arctic.py", "io/metadata.py"
GIF = '''    try:
        anim.save(out_path, writer="pillow", fps=fps_out)
    finally:
        plt.close(fig)
'''
BLD = '''    try:
        anim, fps_out = _draw_scene_animation(fig, **scene)
    except BaseException:
        plt.close(fig)
        raise
    return fig, anim, fps_out
'''
FIN = '''    finally:
        if tmp_audio.exists():
            tmp_audio.unlink()
        if tmp_video.exists():
            tmp_video.unlink()
'''
PART = '''    try:
        _stream_to(url, tmp_path)
        tmp_path.replace(dest)
    finally:
        if tmp_path.exists():
            tmp_path.unlink()
'''
TAR = '''                with tarfile.open(archive_path, "r:bz2") as tar:
                    extract_dataset(tar, self._base_dir, self._dataset_dir)
            except'''
META = '''    with path.open("w", encoding="utf-8") as f:
        json.dump(metadata, f, indent=2)
'''
INFO = '''        with (scene_dir / "source_info.json").open("w", encoding="utf-8") as fh:
            json.dump(source_info, fh, indent=2)
'''
OWN = "    except BaseException:\n        if owns_figure:\n            plt.close(ax.figure)\n        raise\n"
SAVE = '''    fig = ax.figure
    try:
        fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
        fig.tight_layout()
        fig.savefig(path, dpi=_STATIC_SAVE_DPI)
        if show:
            plt.show()
    finally:
        plt.close(fig)
'''
STREAM = '''    with urllib.request.urlopen(url) as response:
        total = response.length or 0
        downloaded = 0
        chunk_size = 1024 * 1024
        with tmp_path.open("wb") as f:
            while True:
                chunk = response.read(chunk_size)
                if not chunk:
                    break
                f.write(chunk)
                downloaded += len(chunk)
'''


def closed(body, head, tail):
    return head + body + tail


CASES = [
    ("v-gif", "V", [(AN, GIF, '    anim.save(out_path, writer="pillow", fps=fps_out)\n    plt.close(fig)\n')]),
    ("v-gifnone", "V", [(AN, GIF, '    anim.save(out_path, writer="pillow", fps=fps_out)\n')]),
    ("v-gifexc", "V", [(AN, GIF, '    try:\n        anim.save(out_path, writer="pillow", fps=fps_out)\n    except OSError:\n        plt.close(fig)\n        raise\n    plt.close(fig)\n')]),
    ("v-build", "V", [(AN, BLD, "    anim, fps_out = _draw_scene_animation(fig, **scene)\n    return fig, anim, fps_out\n")]),
    ("v-save", "V", [(UT, SAVE, SAVE.replace("    try:\n", "    if True:\n").replace("    finally:\n", "    if True:\n"))]),
    ("v-saveshow", "V", [(UT, SAVE, SAVE.replace("        plt.close(fig)\n", "        if show:\n            plt.close(fig)\n"))]),
    ("v-own", "V", [(SC, OWN, "    except BaseException:\n        raise\n")]),
    ("v-own2", "V", [(SC, OWN, OWN.replace("if owns_figure", "if not owns_figure"))]),
    ("v-mux", "V", [(AN, FIN, "    finally:\n        if tmp_audio.exists():\n            tmp_audio.unlink()\n")]),
    ("v-mux2", "V", [(AN, FIN, FIN.replace("    finally:\n", "    except ValueError:\n"))]),
    ("v-part", "V", [(CA, PART, "    _stream_to(url, tmp_path)\n    tmp_path.replace(dest)\n")]),
    ("v-partexc", "V", [(LS, PART, PART.replace("finally", "except urllib.error.URLError"))]),
    ("v-tar", "V", [(CA, TAR, '''                tar = tarfile.open(archive_path, "r:bz2")
                extract_dataset(tar, self._base_dir, self._dataset_dir)
                tar.close()
            except''')]),
    ("v-trans", "V", [(LS, '            with trans_path.open("r", encoding="utf-8") as f:\n                for line in f:', '            if True:\n                for line in trans_path.open("r", encoding="utf-8"):')]),
    ("v-meta", "V", [(MD, META, '    f = path.open("w", encoding="utf-8")\n    json.dump(metadata, f, indent=2)\n    f.close()\n')]),
    ("v-metainline", "V", [(MD, META, '    json.dump(metadata, path.open("w", encoding="utf-8"), indent=2)\n')]),
    ("v-info", "V", [(DY, INFO, '        fh = (scene_dir / "source_info.json").open("w", encoding="utf-8")\n        json.dump(source_info, fh, indent=2)\n        fh.close()\n')]),
    ("v-staging", "V", [(AR, '    with tempfile.TemporaryDirectory(prefix=".extracting-", dir=dest) as scratch:\n', '    scratch = tempfile.mkdtemp(prefix=".extracting-", dir=dest)\n    if True:\n')]),
    ("v-staging2", "V", [(AR, '    with tempfile.TemporaryDirectory(prefix=".extracting-", dir=dest) as scratch:\n', '    tmp = tempfile.TemporaryDirectory(prefix=".extracting-", dir=dest)\n    scratch = tmp.name\n    if True:\n'), (AR, "        staged.replace(dataset_dir)", "        staged.replace(dataset_dir)\n    tmp.cleanup()")]),
    ("v-resp", "V", [(CA, STREAM, STREAM.replace("    with urllib.request.urlopen(url) as response:\n", "    response = urllib.request.urlopen(url)\n    if True:\n"))]),
    ("v-resp2", "V", [(CA, STREAM, STREAM.replace("    with urllib.request.urlopen(url) as response:\n", "    response = urllib.request.urlopen(url)\n    if not response.length:\n        return\n    with response:\n"))]),
    ("v-popen", "V", [(AN, "result = subprocess.run(cmd, check=False, capture_output=True, text=True)", "result = subprocess.Popen(cmd, stdout=subprocess.PIPE)\n        result.stdout.read()")]),
    ("q-meta", "Q", [(MD, META, '    f = path.open("w", encoding="utf-8")\n    try:\n        json.dump(metadata, f, indent=2)\n    finally:\n        f.close()\n')]),
    ("q-metatext", "Q", [(MD, META, '    path.write_text(json.dumps(metadata, indent=2), encoding="utf-8")\n')]),
    ("q-gif", "Q", [(AN, GIF, '    try:\n        anim.save(out_path, writer="pillow", fps=fps_out)\n    except BaseException:\n        plt.close(fig)\n        raise\n    plt.close(fig)\n')]),
    ("q-gifhelper", "Q", [(AN, GIF, '    _save_and_close(fig, lambda: anim.save(out_path, writer="pillow", fps=fps_out))\n'), (AN, "def _build_scene_animation", "def _save_and_close(fig, save):\n    import matplotlib.pyplot as plt\n\n    try:\n        save()\n    finally:\n        plt.close(fig)\n\n\ndef _build_scene_animation")]),
    ("q-mux", "Q", [(AN, FIN, "    finally:\n        for leftover in (tmp_audio, tmp_video):\n            leftover.unlink(missing_ok=True)\n")]),
    ("q-mux2", "Q", [(AN, FIN, "    finally:\n        tmp_audio.unlink(missing_ok=True)\n        tmp_video.unlink(missing_ok=True)\n")]),
    ("v-guard", "V", [(AN, BLD, "    with _closed_on_error(fig):\n        anim, fps_out = _draw_scene_animation(fig, **scene)\n    return fig, anim, fps_out\n"), (AN, "def _build_scene_animation", "@contextmanager\ndef _closed_on_error(fig):\n    import matplotlib.pyplot as plt\n\n    yield\n    plt.close(fig)\n\n\ndef _build_scene_animation"), (AN, "import logging\n", "import logging\nfrom contextlib import contextmanager\n")]),
    ("q-figure", "Q", [(AN, GIF, "    _save(anim, fig, out_path, fps_out)\n"), (AN, "def _build_scene_animation", "@contextmanager\ndef _closing_figure(fig):\n    import matplotlib.pyplot as plt\n\n    try:\n        yield fig\n    finally:\n        plt.close(fig)\n\n\ndef _save(anim, fig, out_path, fps_out):\n    with _closing_figure(fig) as f:\n        anim.save(out_path, writer='pillow', fps=fps_out)\n        return f\n\n\ndef _build_scene_animation"), (AN, "import logging\n", "import logging\nfrom contextlib import contextmanager\n")]),
    ("q-part", "Q", [(CA, PART, "    try:\n        _stream_to(url, tmp_path)\n    except BaseException:\n        tmp_path.unlink(missing_ok=True)\n        raise\n    tmp_path.replace(dest)\n")]),
    ("q-stack", "Q", [(CA, STREAM, STREAM.replace("    with urllib.request.urlopen(url) as response:\n", "    with contextlib.ExitStack() as stack:\n        response = stack.enter_context(urllib.request.urlopen(url))\n")), (CA, "import logging\n", "import contextlib\nimport logging\n")]),
    ("q-closing", "Q", [(CA, STREAM, STREAM.replace("    with urllib.request.urlopen(url) as response:\n", "    with contextlib.closing(urllib.request.urlopen(url)) as response:\n")), (CA, "import logging\n", "import contextlib\nimport logging\n")]),
    ("q-both", "Q", [(LS, STREAM, '''    total = 0
    downloaded = 0
    with urllib.request.urlopen(url) as response, tmp_path.open("wb") as f:
        total = response.length or 0
        while chunk := response.read(1024 * 1024):
            f.write(chunk)
            downloaded += len(chunk)
''')]),
    ("q-guard", "Q", [(AN, BLD, "    with _closed_on_error(fig):\n        anim, fps_out = _draw_scene_animation(fig, **scene)\n    return fig, anim, fps_out\n"), (AN, "def _build_scene_animation", "@contextmanager\ndef _closed_on_error(fig):\n    import matplotlib.pyplot as plt\n\n    try:\n        yield\n    except BaseException:\n        plt.close(fig)\n        raise\n\n\ndef _build_scene_animation"), (AN, "import logging\n", "import logging\nfrom contextlib import contextmanager\n")]),
    ("q-none", "Q", [(AN, BLD, "    done = False\n    try:\n        anim, fps_out = _draw_scene_animation(fig, **scene)\n        done = True\n    finally:\n        if not done:\n            plt.close(fig)\n    return fig, anim, fps_out\n")]),
    ("q-tar", "Q", [(CA, TAR, '''                tar = tarfile.open(archive_path, "r:bz2")
                try:
                    extract_dataset(tar, self._base_dir, self._dataset_dir)
                finally:
                    tar.close()
            except''')]),
    ("q-opener", "Q", [(CA, TAR, '''                with self._open_archive(archive_path) as tar:
                    extract_dataset(tar, self._base_dir, self._dataset_dir)
            except'''), (CA, "    def sentences(self)", '    def _open_archive(self, path):\n        return tarfile.open(path, "r:bz2")\n\n    def sentences(self)')]),
    ("q-mkdtemp", "Q", [(AR, '    with tempfile.TemporaryDirectory(prefix=".extracting-", dir=dest) as scratch:\n', '    scratch = tempfile.mkdtemp(prefix=".extracting-", dir=dest)\n    try:\n'), (AR, "                extra.replace(target)\n        staged.replace(dataset_dir)", "                extra.replace(target)\n        staged.replace(dataset_dir)\n    finally:\n        shutil.rmtree(scratch, ignore_errors=True)"), (AR, "import os\n", "import os\nimport shutil\n")]),
]
