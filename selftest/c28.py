IO, AN, UT, SC, DY = "viz/io.py", "viz/animation.py", "viz/utils.py", "viz/scene.py", "datasets/dynamic_cmu_arctic.py"
EX = "    except Exception as exc:  # pragma: no cover - optional dependency\n"
W = lambda n: EX + f'        logger.warning("{n} skipped: %s", exc)\n'
SAVE = "    try:\n        writer = FFMpegWriter(fps=fps_out)\n        anim.save(out_path, writer=writer, dpi=_MP4_DPI)\n    finally:\n        plt.close(fig)\n"
RC = '''        if result.returncode != 0:
            LOGGER.warning(
                "Failed to mux audio into %s: %s",
                video_path.name,
                (result.stderr or result.stdout).strip(),
            )
        else:
            tmp_video.replace(video_path)
'''
WHICH = '''    if ffmpeg is None:
        LOGGER.warning("ffmpeg not found. Skip audio mux for %s", video_path.name)
        return
'''
LAY = "        if save_layout_images:\n            save_scene_layout_images(\n"
ENDLAY = "                save_3d=save_layout_images_3d,\n                annotate_sources=annotate_source_indices,\n                annotation_lines=layout_annotation_lines,\n            )\n"
RET = W("Layout image") 
CASES = [
    ("v-narrow", "V", [(IO, W("GIF"), W("GIF").replace("except Exception as", "except (ImportError, OSError, ValueError) as"))]),
    ("v-narrow2", "V", [(IO, W("MP4"), W("MP4").replace("except Exception as", "except ImportError as"))]),
    ("v-outside", "V", [(IO, "    try:\n        room_size = _to_cpu(room)\n        src_pos = _positions_to_cpu(sources)\n        mic_pos = _positions_to_cpu(mics)\n        dim = int(room_size.numel())\n\n        out_dir.mkdir(parents=True, exist_ok=True)\n", "    room_size = _to_cpu(room)\n    src_pos = _positions_to_cpu(sources)\n    mic_pos = _positions_to_cpu(mics)\n    dim = int(room_size.numel())\n    try:\n        out_dir.mkdir(parents=True, exist_ok=True)\n")]),
    ("v-import", "V", [(IO, '    """Render trajectory GIFs."""\n', '    """Render trajectory GIFs."""\n    import matplotlib.animation  # noqa: F401\n\n')]),
    ("v-debug", "V", [(IO, W("Plot"), W("Plot").replace("logger.warning", "logger.debug"))]),
    ("v-info", "V", [(IO, W("Layout image"), W("Layout image").replace("logger.warning(", "logger.log(logging.INFO, "))]),
    ("v-pass", "V", [(IO, W("GIF"), EX.replace(" as exc", "") + "        pass\n")]),
    ("v-suppress", "V", [(IO, "        logger.info(\"saved: %s\", gif_path)\n        if torch.as_tensor(room).numel() == 3:\n            gif_path_3d = out_dir / f\"{prefix}_3d.gif\"\n            animate_scene_gif(", "        logger.info(\"saved: %s\", gif_path)\n        if torch.as_tensor(room).numel() == 3:\n            gif_path_3d = out_dir / f\"{prefix}_3d.gif\"\n          with contextlib.suppress(Exception):\n            animate_scene_gif(".replace("          with contextlib.suppress(Exception):\n            ", "            with contextlib.suppress(Exception):\n             ")), (IO, "import logging\n", "import contextlib\nimport logging\n")]),
    ("v-reraise", "V", [(IO, W("MP4"), W("MP4") + "        raise\n")]),
    ("v-runtime", "V", [(IO, W("MP4"), W("MP4") + "        if mux_audio:\n            raise RuntimeError('no video') from exc\n")]),
    ("v-oneclass", "V", [(IO, W("Plot"), EX + "        if not isinstance(exc, ImportError):\n            logger.warning('Plot skipped: %s', exc)\n")]),
    ("v-inner", "V", [(AN, SAVE, SAVE.replace("    finally:\n", "    except Exception:\n        pass\n    finally:\n"))]),
    ("v-innerimport", "V", [(AN, "    import matplotlib.pyplot as plt\n    from matplotlib.animation import FFMpegWriter\n", "    try:\n        import matplotlib.pyplot as plt\n        from matplotlib.animation import FFMpegWriter\n    except ImportError:\n        return Path(out_path)\n")]),
    ("v-innerlog", "V", [(AN, SAVE, SAVE.replace("    finally:\n", "    except OSError:\n        LOGGER.info('no video')\n    finally:\n"))]),
    ("v-noffmpeg", "V", [(AN, WHICH, "    if ffmpeg is None:\n        return\n")]),
    ("v-rc", "V", [(AN, RC, "        if result.returncode == 0:\n            tmp_video.replace(video_path)\n")]),
    ("v-nomix", "V", [(AN, '        LOGGER.warning("mixture file not found. Skip audio mux for %s", video_path.name)\n', "")]),
    ("v-exit", "V", [(AN, "    fig, anim, fps_out = _build_scene_animation(\n        room=room,\n        sources=sources,\n        mics=mics,\n        src_traj=src_traj,\n        mic_traj=mic_traj,\n        step=step,\n        fps=fps,\n        signal_len=signal_len,\n        fs=fs,\n        duration_s=duration_s,\n        plot_2d=plot_2d,\n        plot_3d=plot_3d,\n        annotate_sources=annotate_sources,\n        annotation_lines=annotation_lines,\n        figsize=_MP4_FIGSIZE_INCHES,\n", "    if shutil.which('ffmpeg') is None:\n        raise SystemExit('ffmpeg is required')\n    fig, anim, fps_out = _build_scene_animation(\n        room=room,\n        sources=sources,\n        mics=mics,\n        src_traj=src_traj,\n        mic_traj=mic_traj,\n        step=step,\n        fps=fps,\n        signal_len=signal_len,\n        fs=fs,\n        duration_s=duration_s,\n        plot_2d=plot_2d,\n        plot_3d=plot_3d,\n        annotate_sources=annotate_sources,\n        annotation_lines=annotation_lines,\n        figsize=_MP4_FIGSIZE_INCHES,\n")]),
    ("v-skipmeta", "V", [(IO, RET, RET + "        return False\n    return True\n"), (DY, LAY, LAY.replace("            save_scene", "            drawn = save_scene")), (DY, ENDLAY, ENDLAY + "            if not drawn:\n                continue\n")]),
    ("v-breakscene", "V", [(IO, RET, RET + "        return False\n    return True\n"), (DY, LAY, LAY.replace("            save_scene", "            if not save_scene")), (DY, ENDLAY, ENDLAY.rstrip("\n") + ":\n                break\n")]),
    ("v-flag", "V", [(IO, "    try:\n        room_size = _to_cpu(room)\n", "    ok = False\n    try:\n        room_size = _to_cpu(room)\n"), (IO, RET, "        ok = True\n" + RET + "    return ok\n"), (DY, LAY, LAY.replace("            save_scene", "            drawn = save_scene")), (DY, ENDLAY, ENDLAY + "            if not drawn:\n                continue\n")]),
    ("v-direct", "V", [(DY, "        if save_layout_mp4:\n", "        if save_layout_mp4 and save_layout_mp4_3d:\n            animate_scene_mp4(\n                out_path=scene_dir / 'preview.mp4', room=room.size, sources=sources, mics=mics, src_traj=src_traj, mic_traj=mic_traj\n            )\n        if save_layout_mp4:\n"), (DY, "from ..viz import save_scene_layout_images, save_scene_videos\n", "from ..viz import save_scene_layout_images, save_scene_videos\nfrom ..viz import animate_scene_mp4\n")]),
    ("v-style", "V", [(DY, LAY, "        if save_layout_images:\n            import matplotlib\n\n            matplotlib.use('Agg')\n            save_scene_layout_images(\n")]),
    ("q-flagged", "Q", [(IO, RET, RET + "        return False\n    return True\n"), (DY, LAY, LAY.replace("            save_scene", "            drawn = save_scene")), (DY, ENDLAY, ENDLAY + "            if not drawn:\n                log.info('no layout image')\n")]),
    ("q-exception", "Q", [(IO, W("GIF"), EX + '        logger.exception("GIF skipped: %s", exc)\n')]),
    ("q-log", "Q", [(IO, W("Plot"), EX + '        logger.log(logging.WARNING, "Plot skipped: %s", exc)\n')]),
    ("q-two", "Q", [(IO, W("Plot"), "    except ImportError as exc:\n        logger.warning('Plot skipped, matplotlib missing: %s', exc)\n" + W("Plot"))]),
    ("q-cm", "Q", [(IO, "def render_scene_plots(", "@contextlib.contextmanager\ndef _optional(logger: logging.Logger, what: str):\n    try:\n        yield\n    except Exception as exc:\n        logger.warning('%s skipped: %s', what, exc)\n\n\ndef render_scene_plots("), (IO, "import logging\n", "import contextlib\nimport logging\n"), (IO, '    """Render trajectory GIFs."""\n    try:\n', '    """Render trajectory GIFs."""\n    with _optional(logger, "GIF"):\n'), (IO, W("GIF"), "")]),
    ("v-cm", "V", [(IO, "def render_scene_plots(", "@contextlib.contextmanager\ndef _optional(logger: logging.Logger, what: str):\n    try:\n        yield\n    except (ImportError, OSError) as exc:\n        logger.warning('%s skipped: %s', what, exc)\n\n\ndef render_scene_plots("), (IO, "import logging\n", "import contextlib\nimport logging\n"), (IO, '    """Render trajectory GIFs."""\n    try:\n', '    """Render trajectory GIFs."""\n    with _optional(logger, "GIF"):\n'), (IO, W("GIF"), "")]),
    ("q-helper", "Q", [(IO, "def save_scene_gifs(", "def _attempt(what, logger, make):\n    try:\n        make()\n    except Exception as exc:\n        logger.warning('%s skipped: %s', what, exc)\n\n\ndef save_scene_gifs("), (IO, '    """Plot and save scene images."""\n    try:\n', '    """Plot and save scene images."""\n\n    def make():\n'), (IO, W("Plot"), "    _attempt('Plot', logger, make)\n")]),
    ("q-decor", "Q", [(IO, "def render_scene_plots(", "def _warn_skip(logger, what, exc):\n    logger.warning('%s skipped: %s', what, exc)\n\n\ndef render_scene_plots("), (IO, W("MP4"), EX + "        _warn_skip(logger, 'MP4', exc)\n")]),
    ("q-nice", "Q", [(SC, "    import matplotlib.pyplot as plt\n", "    import matplotlib.pyplot as plt\n    try:\n        plt.rc('axes', axisbelow=True)\n    except Exception:\n        pass\n")]),
    ("q-perdim", "Q", [(AN, SAVE, SAVE.replace("    finally:\n", "    except OSError as exc:\n        LOGGER.warning('no video %s', exc)\n    finally:\n"))]),
    ("q-order", "Q", [(AN, RC, '        if result.returncode == 0:\n            tmp_video.replace(video_path)\n            return\n        LOGGER.warning("Failed to mux audio into %s", video_path.name)\n')]),
    ("q-which", "Q", [(AN, WHICH, '    if not ffmpeg:\n        LOGGER.warning("ffmpeg not found. Skip audio mux for %s", video_path.name)\n        return\n')]),
    ("q-checkrun", "Q", [(AN, "subprocess.run(cmd, check=False,", "subprocess.run(cmd, check=True,"), (AN, RC, "        tmp_video.replace(video_path)\n")]),
    ("q-late", "Q", [(DY, LAY, "        log.debug('drawing')\n" + LAY)]),
]
