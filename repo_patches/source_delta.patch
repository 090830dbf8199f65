From 19fbd176d268519f602daca104771034534b786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 01/33] fix: keep directional RIRs finite when source and
 microphone coincide

---
 src/torchrir/sim/ism/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 7a8a4ad..61c08c4 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -76,5 +76,5 @@ def _select_orientation(orientation: Tensor, idx: int, count: int, dim: int) ->
 def _cos_between(vec: Tensor, orientation: Tensor) -> Tensor:
     """Compute cosine between direction vectors and orientation."""
     orientation = normalize_orientation(orientation)
-    unit = vec / torch.linalg.norm(vec, dim=-1, keepdim=True)
+    unit = normalize_orientation(vec)
     return torch.sum(unit * orientation, dim=-1)
-- 
2.43.0


From fa612e492a30d7bfdc47890d4792041605e30351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 02/33] fix: reject zero array directions and handle normals
 along -x

---
 src/torchrir/geometry/arrays.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 9c8f75f..b443b2d 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -58,7 +58,10 @@ def linear_array(
         )
         if direction_vec.numel() != dim:
             raise ValueError("direction must match center dimensionality")
-        direction_vec = direction_vec / torch.linalg.norm(direction_vec)
+        direction_norm = torch.linalg.norm(direction_vec)
+        if not direction_norm > 0:
+            raise ValueError("direction must be a non-zero vector")
+        direction_vec = direction_vec / direction_norm
 
     offsets = (
         torch.arange(num, device=center_t.device, dtype=center_t.dtype)
@@ -411,9 +414,12 @@ def eigenmike_em64(
 def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
     if normal.numel() != 3:
         raise ValueError("normal must be a 3D vector")
-    n = normal / torch.linalg.norm(normal)
+    norm = torch.linalg.norm(normal)
+    if not norm > 0:
+        raise ValueError("normal must be a non-zero vector")
+    n = normal / norm
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
-    if torch.allclose(n, ref):
+    if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
     basis_x = torch.cross(n, ref)
     basis_x = basis_x / torch.linalg.norm(basis_x)
-- 
2.43.0


From 26bb9ffebfd83e8adedd18f4a4c51258b40f606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 03/33] fix: single-step linear trajectory stays at the start
 point

---
 src/torchrir/geometry/trajectories.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/trajectories.py b/src/torchrir/geometry/trajectories.py
index 1affd23..ec86130 100644
--- a/src/torchrir/geometry/trajectories.py
+++ b/src/torchrir/geometry/trajectories.py
@@ -8,7 +8,8 @@ from torch import Tensor
 
 def linear_trajectory(start: Tensor, end: Tensor, steps: int) -> Tensor:
     """Create a linear trajectory between start and end."""
+    last = max(steps - 1, 1)
     return torch.stack(
-        [start + (end - start) * t / (steps - 1) for t in range(steps)],
+        [start + (end - start) * t / last for t in range(steps)],
         dim=0,
     )
-- 
2.43.0


From c71be1cbc9462f18d0292b20d75dd434ac58036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 04/33] fix: reject dynamic convolution with mismatched source
 counts

---
 src/torchrir/signal/internal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/signal/internal.py b/src/torchrir/signal/internal.py
index faca6e5..3f64942 100644
--- a/src/torchrir/signal/internal.py
+++ b/src/torchrir/signal/internal.py
@@ -30,6 +30,8 @@ def _ensure_static_rirs(rirs: Tensor) -> Tensor:
 def _ensure_dynamic_rirs(rirs: Tensor, signal: Tensor) -> Tensor:
     """Normalize dynamic RIR shapes to (T, n_src, n_mic, rir_len)."""
     if rirs.ndim == 2:
+        if signal.shape[0] != 1:
+            raise ValueError("signal source count does not match rirs")
         return rirs.view(rirs.shape[0], 1, 1, rirs.shape[1])
     if rirs.ndim == 3:
         if signal.ndim == 2 and signal.shape[0] != 1:
@@ -40,6 +42,8 @@ def _ensure_dynamic_rirs(rirs: Tensor, signal: Tensor) -> Tensor:
             )
         return rirs.view(rirs.shape[0], 1, rirs.shape[1], rirs.shape[2])
     if rirs.ndim == 4:
+        if signal.shape[0] not in (1, rirs.shape[1]):
+            raise ValueError("signal source count does not match rirs")
         return rirs
     raise ValueError(
         "rirs must have shape (T, rir_len), (T, n_mic, rir_len), "
-- 
2.43.0


From 2835e8b9f79d9c756e629791d1bc53e5619ac42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 05/33] fix: list LibriSpeech utterances in a
 filesystem-independent order

---
 src/torchrir/datasets/librispeech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index ee10fbd..6347fc6 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -101,7 +101,7 @@ class LibriSpeechDataset(BaseDataset):
         search_root = (
             self._speaker_dir if self._speaker_dir is not None else self._subset_dir
         )
-        for trans_path in search_root.rglob("*.trans.txt"):
+        for trans_path in sorted(search_root.rglob("*.trans.txt")):
             chapter_dir = trans_path.parent
             speaker_id = chapter_dir.parent.name
             chapter_id = chapter_dir.name
-- 
2.43.0


From e1dbcd2230255062d22cf2f43003b59371cdb66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 06/33] fix: honour SimulationConfig.directivity when no
 explicit value is given

---
 src/torchrir/sim/ism/api.py    | 4 ++--
 src/torchrir/sim/simulators.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index b10ea98..a166bad 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -40,7 +40,7 @@ def simulate_rir(
     nsample: Optional[int] = None,
     tmax: Optional[float] = None,
     tdiff: Optional[float] = None,
-    directivity: str | tuple[str, str] | None = "omni",
+    directivity: str | tuple[str, str] | None = None,
     orientation: Optional[Tensor | tuple[Tensor, Tensor]] = None,
     config: Optional[SimulationConfig] = None,
     device: Optional[torch.device | str] = None,
@@ -142,7 +142,7 @@ def simulate_dynamic_rir(
     nb_img: Optional[Tensor | Tuple[int, ...]] = None,
     nsample: Optional[int] = None,
     tmax: Optional[float] = None,
-    directivity: str | tuple[str, str] | None = "omni",
+    directivity: str | tuple[str, str] | None = None,
     orientation: Optional[Tensor | tuple[Tensor, Tensor]] = None,
     config: Optional[SimulationConfig] = None,
     device: Optional[torch.device | str] = None,
diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index c48ecd7..234f3be 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -35,7 +35,7 @@ class ISMSimulator:
     max_order: int
     tmax: float | None = None
     nsample: int | None = None
-    directivity: str | tuple[str, str] | None = "omni"
+    directivity: str | tuple[str, str] | None = None
     nb_img: torch.Tensor | tuple[int, ...] | None = None
     device: torch.device | str | None = None
     dtype: torch.dtype | None = None
-- 
2.43.0


From 7494eceae507779c3bde78609181b8f4a6940719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 07/33] fix: namespace logger names that merely start with
 torchrir

---
 src/torchrir/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 5d2692c..68214a1 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -70,7 +70,7 @@ def get_logger(name: Optional[str] = None) -> logging.Logger:
     """
     if not name:
         return logging.getLogger("torchrir")
-    if name.startswith("torchrir"):
+    if name == "torchrir" or name.startswith("torchrir."):
         return logging.getLogger(name)
     return logging.getLogger(f"torchrir.{name}")
 
-- 
2.43.0


From 0082605a000176a121621aa07e13d730f46100b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 08/33] fix: repeated setup_logging applies the new level to
 existing handlers

---
 src/torchrir/logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 68214a1..0b67209 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -57,6 +57,9 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
         handler.setLevel(level)
         handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
         logger.addHandler(handler)
+    else:
+        for handler in logger.handlers:
+            handler.setLevel(level)
     return logger
 
 
-- 
2.43.0


From ac75621ff9a884946b84414cd0995a8486a8b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 09/33] fix: fall back to CPU for indexed MPS devices on hosts
 without MPS

---
 src/torchrir/util/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index 4df5f00..f798147 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -44,9 +44,9 @@ def resolve_device(
             return torch.device(device)
         warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
-    if dev == "mps":
+    if dev.startswith("mps"):
         if torch.backends.mps.is_available():
-            return torch.device("mps")
+            return torch.device(dev)
         warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
     if dev == "cpu":
-- 
2.43.0


From b81dc5323edf77708bedc0c1dda2b86b786fe9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 10/33] fix: close matplotlib figures when saving a plot or
 animation fails

---
 src/torchrir/viz/animation.py | 14 +++++++++-----
 src/torchrir/viz/utils.py     | 14 ++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index c333e6f..57ed30c 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -69,8 +69,10 @@ def animate_scene_gif(
         annotate_sources=annotate_sources,
         annotation_lines=annotation_lines,
     )
-    anim.save(out_path, writer="pillow", fps=fps_out)
-    plt.close(fig)
+    try:
+        anim.save(out_path, writer="pillow", fps=fps_out)
+    finally:
+        plt.close(fig)
     return out_path
 
 
@@ -124,9 +126,11 @@ def animate_scene_mp4(
         annotation_lines=annotation_lines,
         figsize=_MP4_FIGSIZE_INCHES,
     )
-    writer = FFMpegWriter(fps=fps_out)
-    anim.save(out_path, writer=writer, dpi=_MP4_DPI)
-    plt.close(fig)
+    try:
+        writer = FFMpegWriter(fps=fps_out)
+        anim.save(out_path, writer=writer, dpi=_MP4_DPI)
+    finally:
+        plt.close(fig)
 
     if mux_audio and mixture_path is not None:
         _add_stereo_audio_to_mp4(
diff --git a/src/torchrir/viz/utils.py b/src/torchrir/viz/utils.py
index e9dba86..ac8f91c 100644
--- a/src/torchrir/viz/utils.py
+++ b/src/torchrir/viz/utils.py
@@ -76,12 +76,14 @@ def _save_axes(ax: Any, path: Path, *, show: bool) -> None:
     import matplotlib.pyplot as plt
 
     fig = ax.figure
-    fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
-    fig.tight_layout()
-    fig.savefig(path, dpi=_STATIC_SAVE_DPI)
-    if show:
-        plt.show()
-    plt.close(fig)
+    try:
+        fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
+        fig.tight_layout()
+        fig.savefig(path, dpi=_STATIC_SAVE_DPI)
+        if show:
+            plt.show()
+    finally:
+        plt.close(fig)
 
 
 def _add_axes_annotation(
-- 
2.43.0


From 062afe55ae7528fd27d05ee21bb38f0ba04e73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 11/33] fix: remove temporary mux files when adding audio to a
 video fails

---
 src/torchrir/viz/animation.py | 69 ++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 57ed30c..03b5fa0 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -344,37 +344,38 @@ def _add_stereo_audio_to_mp4(
 
     tmp_audio = video_path.with_name(video_path.stem + "_tmp_audio.wav")
     tmp_video = video_path.with_name(video_path.stem + "_tmp_mux.mp4")
-    sf.write(tmp_audio, stereo, int(sample_rate))
-
-    cmd = [
-        ffmpeg,
-        "-y",
-        "-i",
-        str(video_path),
-        "-i",
-        str(tmp_audio),
-        "-map",
-        "0:v:0",
-        "-map",
-        "1:a:0",
-        "-c:v",
-        "copy",
-        "-c:a",
-        "aac",
-        "-shortest",
-        str(tmp_video),
-    ]
-    result = subprocess.run(cmd, check=False, capture_output=True, text=True)
-    if result.returncode != 0:
-        LOGGER.warning(
-            "Failed to mux audio into %s: %s",
-            video_path.name,
-            (result.stderr or result.stdout).strip(),
-        )
-    else:
-        tmp_video.replace(video_path)
-
-    if tmp_audio.exists():
-        tmp_audio.unlink()
-    if tmp_video.exists():
-        tmp_video.unlink()
+    try:
+        sf.write(tmp_audio, stereo, int(sample_rate))
+
+        cmd = [
+            ffmpeg,
+            "-y",
+            "-i",
+            str(video_path),
+            "-i",
+            str(tmp_audio),
+            "-map",
+            "0:v:0",
+            "-map",
+            "1:a:0",
+            "-c:v",
+            "copy",
+            "-c:a",
+            "aac",
+            "-shortest",
+            str(tmp_video),
+        ]
+        result = subprocess.run(cmd, check=False, capture_output=True, text=True)
+        if result.returncode != 0:
+            LOGGER.warning(
+                "Failed to mux audio into %s: %s",
+                video_path.name,
+                (result.stderr or result.stdout).strip(),
+            )
+        else:
+            tmp_video.replace(video_path)
+    finally:
+        if tmp_audio.exists():
+            tmp_audio.unlink()
+        if tmp_video.exists():
+            tmp_video.unlink()
-- 
2.43.0


From 3341c0741fe1c15e706aff434b6a49f9927f49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 12/33] fix: reject mixed sample rates inside a dynamic dataset
 source

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ac3c1b6..5d8a393 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -376,6 +376,7 @@ def _load_fixed_length_signal(
     dataset: CmuArcticDataset,
     *,
     target_samples: int,
+    sample_rate: int,
     rng_py: random.Random,
 ) -> tuple[torch.Tensor, list[str]]:
     sentences = list(dataset.available_sentences())
@@ -395,7 +396,12 @@ def _load_fixed_length_signal(
             idx = 0
         sentence = local[idx]
         idx += 1
-        waveform, _ = dataset.load_audio(sentence.utterance_id)
+        waveform, sr = dataset.load_audio(sentence.utterance_id)
+        if int(sr) != sample_rate:
+            raise ValueError(
+                f"Sample rate mismatch: expected {sample_rate}, got {int(sr)} "
+                f"for {sentence.utterance_id}"
+            )
         chunks.append(torch.as_tensor(waveform).reshape(-1))
         utterance_ids.append(sentence.utterance_id)
         total += int(chunks[-1].numel())
@@ -584,6 +590,7 @@ def build_dynamic_cmu_arctic_dataset(
             signal, utterance_ids = _load_fixed_length_signal(
                 dataset,
                 target_samples=target_samples,
+                sample_rate=sample_rate,
                 rng_py=rng_py,
             )
             source_signals.append(signal)
-- 
2.43.0


From b00c6564db1b23386cd5b4edf48f31be14d5aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 13/33] fix: integer-valued geometry gives the same result as
 float geometry

---
 src/torchrir/geometry/arrays.py   | 14 +++++++-------
 src/torchrir/geometry/sampling.py |  3 +++
 src/torchrir/models/room.py       |  8 ++++----
 src/torchrir/models/scene.py      |  6 +++---
 src/torchrir/util/acoustics.py    |  8 ++++----
 src/torchrir/util/device.py       |  2 +-
 src/torchrir/util/tensor.py       | 11 +++++++++++
 7 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index b443b2d..a09a6d9 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -8,7 +8,7 @@ from typing import Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor
+from ..util.tensor import as_float_tensor, as_tensor
 
 
 def binaural_array(
@@ -19,7 +19,7 @@ def binaural_array(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create a two-mic binaural layout around a center point."""
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
     offset_vec = torch.zeros((dim,), device=center_t.device, dtype=center_t.dtype)
     offset_vec[0] = offset
@@ -43,7 +43,7 @@ def linear_array(
         raise ValueError("num must be positive")
     if spacing <= 0:
         raise ValueError("spacing must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
     if direction is None:
         if axis < 0 or axis >= dim:
@@ -85,7 +85,7 @@ def circular_array(
         raise ValueError("num must be positive")
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
 
     angles = torch.linspace(
@@ -142,7 +142,7 @@ def polyhedron_array(
     """Create a regular polyhedron microphone array (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("polyhedron arrays require 3D centers")
     vertices = _polyhedron_vertices(kind, device=center_t.device, dtype=center_t.dtype)
@@ -162,7 +162,7 @@ def eigenmike_em32(
     """Create the mh acoustics Eigenmike em32 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em32 requires a 3D center")
     theta_deg = torch.tensor(
@@ -260,7 +260,7 @@ def eigenmike_em64(
     """Create the mh acoustics Eigenmike em64 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em64 requires a 3D center")
     theta_deg = torch.tensor(
diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 2725621..608938b 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -8,6 +8,8 @@ from typing import List
 import torch
 from torch import Tensor
 
+from ..util.tensor import as_float_tensor
+
 
 def sample_positions(
     *,
@@ -90,6 +92,7 @@ def clamp_positions(
     positions: Tensor, room_size: Tensor, margin: float = 0.1
 ) -> Tensor:
     """Clamp positions to remain inside the room with a margin."""
+    room_size = as_float_tensor(room_size)
     min_v = torch.full_like(room_size, margin)
     max_v = room_size - margin
     return torch.max(torch.min(positions, max_v), min_v)
diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 3dec243..1af02c3 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -8,7 +8,7 @@ from typing import Optional, Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_float_tensor, as_tensor, ensure_dim
 
 
 @dataclass(frozen=True)
@@ -29,7 +29,7 @@ class Room:
 
     def __post_init__(self) -> None:
         """Validate room size and reflection parameters."""
-        size = ensure_dim(self.size)
+        size = as_float_tensor(ensure_dim(self.size))
         if not torch.all(torch.isfinite(size)):
             raise ValueError("room size must contain finite values")
         if torch.any(size <= 0):
@@ -212,7 +212,7 @@ def _validate_orientation(
 
 
 def _normalize_entity_positions(positions: Tensor, *, name: str) -> Tensor:
-    pos = as_tensor(positions)
+    pos = as_float_tensor(positions)
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     if pos.ndim != 2 or pos.shape[1] not in (2, 3):
@@ -231,6 +231,6 @@ def _normalize_entity_orientation(
 ) -> Optional[Tensor]:
     if orientation is None:
         return None
-    ori = as_tensor(orientation)
+    ori = as_float_tensor(orientation)
     _validate_orientation(ori, n_entities=n_entities, dim=dim, name=name)
     return ori
diff --git a/src/torchrir/models/scene.py b/src/torchrir/models/scene.py
index 0e5c1c4..0b12ba2 100644
--- a/src/torchrir/models/scene.py
+++ b/src/torchrir/models/scene.py
@@ -10,7 +10,7 @@ import torch
 from torch import Tensor
 
 from .room import MicrophoneArray, Room, Source
-from ..util.tensor import as_tensor
+from ..util.tensor import as_float_tensor
 
 
 @dataclass(frozen=True)
@@ -54,8 +54,8 @@ class DynamicScene:
     mic_traj: Tensor
 
     def __post_init__(self) -> None:
-        src_traj = as_tensor(self.src_traj)
-        mic_traj = as_tensor(self.mic_traj)
+        src_traj = as_float_tensor(self.src_traj)
+        mic_traj = as_float_tensor(self.mic_traj)
         object.__setattr__(self, "src_traj", src_traj)
         object.__setattr__(self, "mic_traj", mic_traj)
         self._validate_internal()
diff --git a/src/torchrir/util/acoustics.py b/src/torchrir/util/acoustics.py
index 1d4b15a..823cd2b 100644
--- a/src/torchrir/util/acoustics.py
+++ b/src/torchrir/util/acoustics.py
@@ -8,7 +8,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .tensor import as_tensor, ensure_dim, extend_size
+from .tensor import as_float_tensor, as_tensor, ensure_dim, extend_size
 
 _DEF_SPEED_OF_SOUND = 343.0
 
@@ -33,7 +33,7 @@ def estimate_beta_from_t60(
     """
     if t60 <= 0:
         raise ValueError("t60 must be positive")
-    size = as_tensor(size, device=device, dtype=dtype)
+    size = as_float_tensor(size, device=device, dtype=dtype)
     size = ensure_dim(size)
     dim = size.numel()
     if dim == 2:
@@ -69,7 +69,7 @@ def estimate_t60_from_beta(
         t60 = estimate_t60_from_beta(torch.tensor([6.0, 4.0, 3.0]), beta=torch.full((6,), 0.9))
         ```
     """
-    size = as_tensor(size, device=device, dtype=dtype)
+    size = as_float_tensor(size, device=device, dtype=dtype)
     size = ensure_dim(size)
     beta = as_tensor(beta, device=size.device, dtype=size.dtype)
     dim = size.numel()
@@ -140,7 +140,7 @@ def estimate_image_counts_from_tmax(
     """
     if tmax <= 0:
         raise ValueError("tmax must be positive")
-    size = as_tensor(room_size)
+    size = as_float_tensor(room_size)
     size = ensure_dim(size)
     n = torch.ceil((tmax * c) / size).to(torch.int64)
     return n
diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index f798147..7d65889 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -78,7 +78,7 @@ class DeviceSpec:
             if torch.is_tensor(value):
                 if tensor_device is None:
                     tensor_device = value.device
-                if tensor_dtype is None:
+                if tensor_dtype is None and value.is_floating_point():
                     tensor_dtype = value.dtype
 
         if isinstance(self.device, str) and self.device.lower() == "auto":
diff --git a/src/torchrir/util/tensor.py b/src/torchrir/util/tensor.py
index 4e7da48..3f9e58d 100644
--- a/src/torchrir/util/tensor.py
+++ b/src/torchrir/util/tensor.py
@@ -29,6 +29,17 @@ def as_tensor(
     return torch.as_tensor(value, device=device, dtype=dtype)
 
 
+def as_float_tensor(
+    value: Tensor | Iterable[float] | Iterable[Iterable[float]] | float | int,
+    *,
+    device: Optional[torch.device | str] = None,
+    dtype: Optional[torch.dtype] = None,
+) -> Tensor:
+    """Convert like :func:`as_tensor`, promoting integer values to floating point."""
+    out = as_tensor(value, device=device, dtype=dtype)
+    return out if out.is_floating_point() else out.to(torch.get_default_dtype())
+
+
 def ensure_dim(size: Tensor) -> Tensor:
     """Validate room size dimensionality (2D or 3D)."""
     if size.ndim != 1 or size.numel() not in (2, 3):
-- 
2.43.0


From b2b2d3164ff1ce0f5449e0edb0a23b1efa33510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 14/33] fix: keep dynamic dataset mixtures below full scale so
 they equal the stem sum

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 5d8a393..87f06f4 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -414,6 +414,7 @@ def _normalize_sources(
     stems: list[np.ndarray], *, peak_limit: float = 0.99
 ) -> list[np.ndarray]:
     peak = max(float(np.max(np.abs(stem))) for stem in stems)
+    peak = max(peak, float(np.max(np.abs(np.sum(np.stack(stems, axis=0), axis=0)))))
     if peak <= 0.0 or peak <= peak_limit:
         return stems
     scale = peak_limit / peak
-- 
2.43.0


From 60eee8af6b341618601d630a916165b8ce2f6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 15/33] fix: apply the diffuse tail when the RIR length is
 given in samples

---
 src/torchrir/sim/ism/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index a166bad..686c8fc 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -127,7 +127,9 @@ def simulate_rir(
         )
         _accumulate_rir_batch(rir, sample_chunk, attenuation_chunk, cfg)
 
-    if tdiff is not None and tmax is not None and tdiff < tmax:
+    if tmax is None:
+        tmax = nsample / room.fs
+    if tdiff is not None and tdiff < tmax:
         rir = _apply_diffuse_tail(rir, room, beta, tdiff, tmax, seed=cfg.seed)
     rir = apply_rir_hpf(rir, room.fs, cfg)
     return rir
-- 
2.43.0


From d1579b3efdf5f9a5783531057d3026d91a134f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 16/33] fix: reject NaN and infinite room parameters

---
 src/torchrir/models/room.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 1af02c3..1f61a0f 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 from dataclasses import dataclass, replace
+import math
 from typing import Optional, Sequence
 
 import torch
@@ -35,13 +36,13 @@ class Room:
         if torch.any(size <= 0):
             raise ValueError("room size must be strictly positive")
         object.__setattr__(self, "size", size)
-        if self.fs <= 0:
+        if not (math.isfinite(self.fs) and self.fs > 0):
             raise ValueError("fs must be positive")
-        if self.c <= 0:
+        if not (math.isfinite(self.c) and self.c > 0):
             raise ValueError("c must be positive")
         if self.beta is not None and self.t60 is not None:
             raise ValueError("beta and t60 are mutually exclusive")
-        if self.t60 is not None and self.t60 <= 0:
+        if self.t60 is not None and not self.t60 > 0:
             raise ValueError("t60 must be positive")
         if self.beta is not None:
             beta = as_tensor(self.beta, dtype=size.dtype).view(-1)
-- 
2.43.0


From 115e4fb2b1d406b3935bde751c7bbed52c2208d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 17/33] fix: reject timestamps that do not partition the signal

---
 src/torchrir/signal/dynamic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 2b8da0d..8452935 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -131,6 +131,8 @@ def _convolve_dynamic_rir_trajectory(
         [w_ini, torch.tensor([n_samples], device=signal.device, dtype=torch.long)]
     )
     w_len = w_ini[1:] - w_ini[:-1]
+    if torch.any(w_len < 0):
+        raise ValueError("timestamps must be non-decreasing and within the signal")
 
     if signal.device.type in ("cuda", "mps"):
         return _convolve_dynamic_rir_trajectory_batched(
-- 
2.43.0


From 6a94945c255a882e460daf0c718f678a206f4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 18/33] fix: an interrupted extraction no longer passes as a
 complete dataset

---
 src/torchrir/datasets/_archive.py    | 15 +++++++++++++++
 src/torchrir/datasets/cmu_arctic.py  |  6 +++---
 src/torchrir/datasets/librispeech.py |  6 +++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 469032c..028368c 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import os
 import tarfile
+import tempfile
 from pathlib import Path
 
 
@@ -19,3 +20,17 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
             raise ValueError(f"unsafe archive member path: {member.name}")
 
     tar.extractall(root)
+
+
+def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None:
+    """Extract an archive so that ``dataset_dir`` only appears once complete."""
+    with tempfile.TemporaryDirectory(prefix=".extracting-", dir=dest) as scratch:
+        staging = Path(scratch)
+        safe_extractall(tar, staging)
+        staged = staging / dataset_dir.relative_to(dest)
+        dataset_dir.parent.mkdir(parents=True, exist_ok=True)
+        for extra in staged.parent.iterdir():
+            target = dataset_dir.parent / extra.name
+            if extra != staged and not target.exists():
+                extra.replace(target)
+        staged.replace(dataset_dir)
diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index c59f12a..76b87d7 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -12,7 +12,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load
 
@@ -114,14 +114,14 @@ class CmuArcticDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                    extract_dataset(tar, self._base_dir, self._dataset_dir)
             except (tarfile.ReadError, EOFError, OSError) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                    extract_dataset(tar, self._base_dir, self._dataset_dir)
 
     def sentences(self) -> List[CmuArcticSentence]:
         """Parse all sentence metadata."""
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 6347fc6..7d96e15 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -12,7 +12,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load_audio
 
@@ -142,14 +142,14 @@ class LibriSpeechDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                    extract_dataset(tar, self.root, self._subset_dir)
             except (tarfile.ReadError, EOFError, OSError) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                    extract_dataset(tar, self.root, self._subset_dir)
 
     def attribution_info(self) -> DatasetAttribution:
         """Return attribution and license information for LibriSpeech."""
-- 
2.43.0


From a377b19d794092e408221769d49fb48842e8d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 19/33] fix: reject margins that leave no space when sampling
 positions

---
 src/torchrir/geometry/sampling.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 608938b..ecaf1f0 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -22,6 +22,8 @@ def sample_positions(
     dim = room_size.numel()
     low = [margin] * dim
     high = [float(room_size[i].item()) - margin for i in range(dim)]
+    if min(high) < margin:
+        raise ValueError("margin leaves no space inside the room.")
     coords: List[List[float]] = []
     for _ in range(num):
         point = [rng.uniform(low[i], high[i]) for i in range(dim)]
@@ -69,6 +71,8 @@ def sample_positions_min_distance(
         raise ValueError("center dimension must match room_size.")
     low = [margin] * dim
     high = [float(room_size[i].item()) - margin for i in range(dim)]
+    if min(high) < margin:
+        raise ValueError("margin leaves no space inside the room.")
     coords: List[List[float]] = []
     attempts = 0
     while len(coords) < num and attempts < max_attempts:
-- 
2.43.0


From f6f46ff3915cb59e7d37b9c08b3a368664448708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 20/33] fix: honour a height range that contains a single
 height

---
 src/torchrir/geometry/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index ecaf1f0..9cc94d5 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -46,7 +46,7 @@ def sample_positions_with_z_range(
     z_min, z_max = z_range
     z_low = max(margin, float(z_min))
     z_high = min(float(room_size[2].item()) - margin, float(z_max))
-    if z_high <= z_low:
+    if z_high < z_low:
         return positions
     z_vals = [rng.uniform(z_low, z_high) for _ in range(num)]
     positions[:, 2] = torch.tensor(z_vals, dtype=positions.dtype)
@@ -82,7 +82,7 @@ def sample_positions_min_distance(
             z_min, z_max = z_range
             z_low = max(margin, float(z_min))
             z_high = min(float(room_size[2].item()) - margin, float(z_max))
-            if z_high > z_low:
+            if z_high >= z_low:
                 point[2] = rng.uniform(z_low, z_high)
         dist = torch.linalg.norm(torch.tensor(point) - center).item()
         if dist >= min_distance:
-- 
2.43.0


From a8bacd220d88091e36f3458b4c3cf73000ae5d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 21/33] fix: hop-mode dynamic convolution shares a single
 signal between sources

---
 src/torchrir/signal/dynamic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 8452935..1391c14 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -76,6 +76,8 @@ def _convolve_dynamic_trajectory(
 def _convolve_dynamic_rir_hop(signal: Tensor, rirs: Tensor, hop: int) -> Tensor:
     """Dynamic convolution using fixed hop-size segments."""
     t_steps, n_src, n_mic, rir_len = rirs.shape
+    if signal.shape[0] == 1 and n_src > 1:
+        signal = signal.expand(n_src, -1)
 
     frames = math.ceil(signal.shape[1] / hop)
     frames = min(frames, t_steps)
-- 
2.43.0


From d16a57a4565ffda5d6a9de2a0d98816478336670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 22/33] fix: delete an existing dynamic dataset only once its
 options are known to be usable

With overwrite=True the builder removed the existing dataset first and
then rejected unknown speakers, motion ratios, speeds, room or placement
options, losing the old data for a typo.
---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 87f06f4..7d05094 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -508,13 +508,10 @@ def build_dynamic_cmu_arctic_dataset(
     move_start_sec = float(duration_sec) * move_start_ratio
     move_end_sec = float(duration_sec) * move_end_ratio
 
-    if dataset_root.exists():
-        if not overwrite:
-            raise FileExistsError(
-                f"Dataset root already exists: {dataset_root}. Use overwrite=True."
-            )
-        shutil.rmtree(dataset_root)
-    dataset_root.mkdir(parents=True, exist_ok=True)
+    if dataset_root.exists() and not overwrite:
+        raise FileExistsError(
+            f"Dataset root already exists: {dataset_root}. Use overwrite=True."
+        )
 
     rng = np.random.default_rng(seed)
     rng_py = random.Random(seed)
@@ -566,7 +563,6 @@ def build_dynamic_cmu_arctic_dataset(
     for scene_idx in range(n_scenes):
         scene_id = f"scene_{scene_idx:04d}"
         scene_dir = dataset_root / scene_id
-        scene_dir.mkdir(parents=True, exist_ok=True)
         if randomize_mic_center:
             scene_mic_center = _sample_random_mic_center(
                 rng=rng,
@@ -667,6 +663,10 @@ def build_dynamic_cmu_arctic_dataset(
         stems = _normalize_sources(stems)
         mix = np.sum(np.stack(stems, axis=0), axis=0)
 
+        # An existing dataset is only deleted once the options are known to be usable.
+        if scene_idx == 0 and dataset_root.exists():
+            shutil.rmtree(dataset_root)
+        scene_dir.mkdir(parents=True, exist_ok=True)
         for src_idx, stem in enumerate(stems):
             sf.write(scene_dir / f"source_{src_idx:02d}.wav", stem, sample_rate)
         mixture_path = scene_dir / "mixture.wav"
-- 
2.43.0


From a0079b7d7502dd6dcb9e637dc385919503516b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 23/33] fix: setup_logging never configures a logger outside
 the torchrir namespace

An empty name or "root" configured the root logger.
---
 src/torchrir/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 0b67209..dea505e 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -48,7 +48,7 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
         logger.info("ready")
         ```
     """
-    logger = logging.getLogger(name)
+    logger = get_logger(name)
     level = config.resolve_level()
     logger.setLevel(level)
     logger.propagate = config.propagate
-- 
2.43.0


From e2637ba40857e29a95a35b1c6dfec9080ae8b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 24/33] fix: accept upper-case CUDA names like the other device
 names

---
 src/torchrir/util/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index 7d65889..cb8ffb3 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -41,7 +41,7 @@ def resolve_device(
 
     if dev.startswith("cuda"):
         if torch.cuda.is_available():
-            return torch.device(device)
+            return torch.device(dev)
         warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
     if dev.startswith("mps"):
-- 
2.43.0


From 26e08fee0a904e14d3767b990761b259c8e48c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 25/33] fix: partial download files are removed when a download
 fails

---
 src/torchrir/datasets/cmu_arctic.py  | 10 +++++++++-
 src/torchrir/datasets/librispeech.py | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index 76b87d7..4885bcd 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -177,7 +177,16 @@ def _stream_download(url: str, dest: Path) -> None:
     tmp_path = dest.with_suffix(dest.suffix + ".part")
     if tmp_path.exists():
         tmp_path.unlink()
+    try:
+        _stream_to(url, tmp_path)
+        tmp_path.replace(dest)
+    finally:
+        if tmp_path.exists():
+            tmp_path.unlink()
 
+
+def _stream_to(url: str, tmp_path: Path) -> None:
+    """Write the complete body of a response to ``tmp_path``."""
     with urllib.request.urlopen(url) as response:
         total = response.length or 0
         downloaded = 0
@@ -191,7 +200,6 @@ def _stream_download(url: str, dest: Path) -> None:
                 downloaded += len(chunk)
     if total > 0 and downloaded != total:
         raise IOError(f"incomplete download: {downloaded} of {total} bytes")
-    tmp_path.replace(dest)
 
 
 def _parse_text_line(line: str) -> Tuple[str, str]:
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 7d96e15..ff80a21 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -175,7 +175,16 @@ def _stream_download(url: str, dest: Path) -> None:
     tmp_path = dest.with_suffix(dest.suffix + ".part")
     if tmp_path.exists():
         tmp_path.unlink()
+    try:
+        _stream_to(url, tmp_path)
+        tmp_path.replace(dest)
+    finally:
+        if tmp_path.exists():
+            tmp_path.unlink()
 
+
+def _stream_to(url: str, tmp_path: Path) -> None:
+    """Write the complete body of a response to ``tmp_path``."""
     with urllib.request.urlopen(url) as response:
         total = response.length or 0
         downloaded = 0
@@ -189,7 +198,6 @@ def _stream_download(url: str, dest: Path) -> None:
                 downloaded += len(chunk)
     if total > 0 and downloaded != total:
         raise IOError(f"incomplete download: {downloaded} of {total} bytes")
-    tmp_path.replace(dest)
 
 
 def _parse_text_line(line: str) -> Tuple[str, str]:
-- 
2.43.0


From 508b9071a8e7420e2c3e27b2eb9ab24d5f289433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 26/33] fix: figures created for plots and animations are
 closed when drawing fails

---
 src/torchrir/viz/animation.py |  28 +++++++---
 src/torchrir/viz/scene.py     | 102 +++++++++++++++++++---------------
 2 files changed, 76 insertions(+), 54 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 03b5fa0..3f59bbb 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -6,7 +6,7 @@ from pathlib import Path
 import logging
 import shutil
 import subprocess
-from typing import Optional, Sequence
+from typing import Any, Optional, Sequence
 
 import numpy as np
 import soundfile as sf
@@ -142,6 +142,23 @@ def animate_scene_mp4(
 
 
 def _build_scene_animation(
+    *, figsize: tuple[float, float] | None = None, **scene: Any
+):
+    """Create a figure and its animation; the figure is closed on failure."""
+    import matplotlib.pyplot as plt
+
+    _ensure_default_mpl_style()
+    fig = plt.figure(figsize=figsize)
+    try:
+        anim, fps_out = _draw_scene_animation(fig, **scene)
+    except BaseException:
+        plt.close(fig)
+        raise
+    return fig, anim, fps_out
+
+
+def _draw_scene_animation(
+    fig: Any,
     *,
     room: Sequence[float] | torch.Tensor,
     sources: object | torch.Tensor | Sequence,
@@ -157,13 +174,9 @@ def _build_scene_animation(
     plot_3d: bool,
     annotate_sources: bool,
     annotation_lines: Optional[Sequence[str]] = None,
-    figsize: tuple[float, float] | None = None,
 ):
-    import matplotlib.pyplot as plt
     from matplotlib import animation
 
-    _ensure_default_mpl_style()
-
     room_size = _to_cpu(room)
     src_pos = _positions_to_cpu(sources)
     mic_pos = _positions_to_cpu(mics)
@@ -183,7 +196,6 @@ def _build_scene_animation(
     view_mic_traj = mic_traj_t[:, :, :view_dim]
 
     if view_dim == 3:
-        fig = plt.figure(figsize=figsize)
         ax = fig.add_subplot(111, projection="3d")
         ax.set_xlim(0, view_room[0].item())
         ax.set_ylim(0, view_room[1].item())
@@ -194,7 +206,7 @@ def _build_scene_animation(
         ax.tick_params(axis="both", labelsize=_VIDEO_FONT_SIZE_PT)
         ax.tick_params(axis="z", labelsize=_VIDEO_FONT_SIZE_PT)
     else:
-        fig, ax = plt.subplots(figsize=figsize)
+        ax = fig.add_subplot(111)
         ax.set_xlim(0, view_room[0].item())
         ax.set_ylim(0, view_room[1].item())
         ax.set_aspect("equal", adjustable="box")
@@ -299,7 +311,7 @@ def _build_scene_animation(
         interval=1000 / float(fps_out),
         blit=False,
     )
-    return fig, anim, fps_out
+    return anim, fps_out
 
 
 def _add_stereo_audio_to_mp4(
diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index 1743c24..4b9685c 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -36,25 +36,30 @@ def plot_scene_static(
         )
         ```
     """
+    owns_figure = ax is None
     plt, ax = _setup_axes(ax, room)
-
-    size = _room_size(room, ax)
-    _draw_room(ax, size)
-
-    src = _extract_positions(sources, ax)
-    mic = _extract_positions(mics, ax)
-
-    _scatter_positions(ax, src, label="sources", marker="^")
-    _scatter_positions(ax, mic, label="mics", marker="o", color=_MIC_COLOR)
-    if annotate_sources:
-        _annotate_source_indices(ax, src)
-    _add_axes_annotation(ax, annotation_lines)
-
-    if title:
-        ax.set_title(title)
-    ax.legend(loc="best")
-    if show:
-        plt.show()
+    try:
+        size = _room_size(room, ax)
+        _draw_room(ax, size)
+
+        src = _extract_positions(sources, ax)
+        mic = _extract_positions(mics, ax)
+
+        _scatter_positions(ax, src, label="sources", marker="^")
+        _scatter_positions(ax, mic, label="mics", marker="o", color=_MIC_COLOR)
+        if annotate_sources:
+            _annotate_source_indices(ax, src)
+        _add_axes_annotation(ax, annotation_lines)
+
+        if title:
+            ax.set_title(title)
+        ax.legend(loc="best")
+        if show:
+            plt.show()
+    except BaseException:
+        if owns_figure:
+            plt.close(ax.figure)
+        raise
     return ax
 
 
@@ -85,36 +90,41 @@ def plot_scene_dynamic(
         )
         ```
     """
+    owns_figure = ax is None
     plt, ax = _setup_axes(ax, room)
+    try:
+        size = _room_size(room, ax)
+        _draw_room(ax, size)
 
-    size = _room_size(room, ax)
-    _draw_room(ax, size)
-
-    src_traj = _as_trajectory(src_traj)
-    mic_traj = _as_trajectory(mic_traj)
-    src_pos_t = _extract_positions(src_pos, ax) if src_pos is not None else src_traj[0]
-    mic_pos_t = _extract_positions(mic_pos, ax) if mic_pos is not None else mic_traj[0]
-
-    _plot_entity(ax, src_traj, src_pos_t, step=step, label="sources", marker="^")
-    _plot_entity(
-        ax,
-        mic_traj,
-        mic_pos_t,
-        step=step,
-        label="mics",
-        marker="o",
-        color=_MIC_COLOR,
-        uniform_color=True,
-    )
-    if annotate_sources:
-        _annotate_source_indices(ax, src_pos_t)
-    _add_axes_annotation(ax, annotation_lines)
-
-    if title:
-        ax.set_title(title)
-    ax.legend(loc="best")
-    if show:
-        plt.show()
+        src_traj = _as_trajectory(src_traj)
+        mic_traj = _as_trajectory(mic_traj)
+        src_pos_t = _extract_positions(src_pos, ax) if src_pos is not None else src_traj[0]
+        mic_pos_t = _extract_positions(mic_pos, ax) if mic_pos is not None else mic_traj[0]
+
+        _plot_entity(ax, src_traj, src_pos_t, step=step, label="sources", marker="^")
+        _plot_entity(
+            ax,
+            mic_traj,
+            mic_pos_t,
+            step=step,
+            label="mics",
+            marker="o",
+            color=_MIC_COLOR,
+            uniform_color=True,
+        )
+        if annotate_sources:
+            _annotate_source_indices(ax, src_pos_t)
+        _add_axes_annotation(ax, annotation_lines)
+
+        if title:
+            ax.set_title(title)
+        ax.legend(loc="best")
+        if show:
+            plt.show()
+    except BaseException:
+        if owns_figure:
+            plt.close(ax.figure)
+        raise
     return ax
 
 
-- 
2.43.0


From c710a61b1e03530996d2fe271d97ac1ded36a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 27/33] fix: source labels of 3D animations get three
 coordinates

---
 src/torchrir/viz/animation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 3f59bbb..70911e1 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -233,7 +233,8 @@ def _draw_scene_animation(
     source_texts = []
     if annotate_sources:
         for idx in range(view_src_traj.shape[1]):
-            text = ax.text(0.0, 0.0, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
+            origin = (0.0,) * view_dim
+            text = ax.text(*origin, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
             source_texts.append(text)
 
     ax.legend(loc="best", fontsize=_VIDEO_FONT_SIZE_PT)
-- 
2.43.0


From 6f7e6c930a5eaef60e513d0b2d1e7cec39e2ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 28/33] fix: dynamic dataset builder refuses unsupported
 speakers before downloading

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 7d05094..b3f330d 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -27,7 +27,7 @@ import numpy as np
 import soundfile as sf
 import torch
 
-from .cmu_arctic import CmuArcticDataset
+from .cmu_arctic import CmuArcticDataset, cmu_arctic_speakers
 from ..geometry import polyhedron_array
 from ..io import save_scene_metadata
 from ..models import MicrophoneArray, Room, Source
@@ -497,6 +497,9 @@ def build_dynamic_cmu_arctic_dataset(
         raise ValueError(
             f"n_sources ({n_sources}) must be <= number of provided speakers ({len(speakers_list)})"
         )
+    unsupported = [spk for spk in speakers_list if spk not in cmu_arctic_speakers()]
+    if unsupported:
+        raise ValueError(f"unsupported speakers: {unsupported}")
     if trajectory_steps <= 0:
         raise ValueError("trajectory_steps must be > 0")
     if duration_sec <= 0.0:
-- 
2.43.0


From d105b53ab244d4ea0e3a1123109d58f2b51f6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 29/33] fix: reject NaN durations, rates and cut-offs in
 configurations and the simulator

---
 src/torchrir/config.py         | 6 +++---
 src/torchrir/sim/simulators.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/config.py b/src/torchrir/config.py
index 8e0d667..6e528cc 100644
--- a/src/torchrir/config.py
+++ b/src/torchrir/config.py
@@ -40,11 +40,11 @@ class SimulationConfig:
 
     def validate(self) -> None:
         """Validate configuration values."""
-        if self.fs is not None and self.fs <= 0:
+        if self.fs is not None and not self.fs > 0:
             raise ValueError("fs must be positive")
         if self.max_order is not None and self.max_order < 0:
             raise ValueError("max_order must be non-negative")
-        if self.tmax is not None and self.tmax <= 0:
+        if self.tmax is not None and not self.tmax > 0:
             raise ValueError("tmax must be positive")
         if self.seed is not None and self.seed < 0:
             raise ValueError("seed must be non-negative")
@@ -56,7 +56,7 @@ class SimulationConfig:
             raise ValueError("image_chunk_size must be positive")
         if self.accumulate_chunk_size <= 0:
             raise ValueError("accumulate_chunk_size must be positive")
-        if self.rir_hpf_fc <= 0:
+        if not self.rir_hpf_fc > 0:
             raise ValueError("rir_hpf_fc must be positive")
         if "n" in self.rir_hpf_kwargs and int(self.rir_hpf_kwargs["n"]) <= 0:
             raise ValueError("rir_hpf_kwargs['n'] must be positive")
diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index 234f3be..84a8ece 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -45,7 +45,7 @@ class ISMSimulator:
             raise ValueError("max_order must be non-negative")
         if self.tmax is None and self.nsample is None:
             raise ValueError("tmax or nsample must be provided")
-        if self.tmax is not None and self.tmax <= 0:
+        if self.tmax is not None and not self.tmax > 0:
             raise ValueError("tmax must be positive")
         if self.nsample is not None and self.nsample <= 0:
             raise ValueError("nsample must be positive")
-- 
2.43.0


From 58568a5293542ba84593fe6f0035da86d912e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 30/33] fix: measure sampling distances on the device of the
 reference point

---
 src/torchrir/geometry/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 9cc94d5..f93792e 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -84,7 +84,7 @@ def sample_positions_min_distance(
             z_high = min(float(room_size[2].item()) - margin, float(z_max))
             if z_high >= z_low:
                 point[2] = rng.uniform(z_low, z_high)
-        dist = torch.linalg.norm(torch.tensor(point) - center).item()
+        dist = torch.linalg.norm(torch.tensor(point, device=center.device) - center).item()
         if dist >= min_distance:
             coords.append(point)
     if len(coords) < num:
-- 
2.43.0


From ffed717b92ff9de6fcf3457035bae5be350e0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 31/33] fix: normalise integer-valued orientations like
 floating-point ones

---
 src/torchrir/util/orientation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/util/orientation.py b/src/torchrir/util/orientation.py
index d88154f..fdef63d 100644
--- a/src/torchrir/util/orientation.py
+++ b/src/torchrir/util/orientation.py
@@ -5,9 +5,12 @@ from __future__ import annotations
 import torch
 from torch import Tensor
 
+from .tensor import as_float_tensor
+
 
 def normalize_orientation(orientation: Tensor, *, eps: float = 1e-8) -> Tensor:
     """Normalize orientation vectors with numerical stability."""
+    orientation = as_float_tensor(orientation)
     norm = torch.linalg.norm(orientation, dim=-1, keepdim=True)
     norm = torch.clamp(norm, min=eps)
     return orientation / norm
-- 
2.43.0


From 0891d18783802ff8ddc817e240e78a51f5422e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 32/33] fix: metadata turns numpy values, devices and
 configurations into plain JSON

---
 src/torchrir/io/metadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index e851224..b5a4b1b 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -2,11 +2,12 @@
 
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, fields, is_dataclass
 from pathlib import Path
 from typing import Any, Dict, Optional
 
 import json
+import numpy as np
 import torch
 from torch import Tensor
 
@@ -211,8 +212,12 @@ def _to_serializable(value: Any) -> Any:
         return None
     if torch.is_tensor(value):
         return value.detach().cpu().tolist()
-    if isinstance(value, Path):
+    if isinstance(value, (np.ndarray, np.generic)):
+        return value.tolist()
+    if isinstance(value, (Path, torch.device, torch.dtype)):
         return str(value)
+    if is_dataclass(value) and not isinstance(value, type):
+        return {f.name: _to_serializable(getattr(value, f.name)) for f in fields(value)}
     if isinstance(value, dict):
         return {k: _to_serializable(v) for k, v in value.items()}
     if isinstance(value, (list, tuple)):
-- 
2.43.0


From 3423d04613c51bc6ff47915950873b18b538c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 33/33] fix: save multi-channel audio with more than eight
 channels as channels x frames

---
 src/torchrir/io/audio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2a9ea63..2b58e80 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -115,7 +115,7 @@ def _save_audio(
         max_val = float(audio.abs().max().item()) if audio.numel() else 0.0
         if max_val > 0:
             audio = audio / max_val * peak
-    if audio.ndim == 2 and audio.shape[0] <= 8:
+    if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
-- 
2.43.0

