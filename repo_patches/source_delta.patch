From d959687ac2dd918b86ea95b90401f338d162aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 01/18] fix: list LibriSpeech utterances in a stable order

---
 src/torchrir/datasets/librispeech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index ee10fbd..6347fc6 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -101,7 +101,7 @@ class LibriSpeechDataset(BaseDataset):
         search_root = (
             self._speaker_dir if self._speaker_dir is not None else self._subset_dir
         )
-        for trans_path in search_root.rglob("*.trans.txt"):
+        for trans_path in sorted(search_root.rglob("*.trans.txt")):
             chapter_dir = trans_path.parent
             speaker_id = chapter_dir.parent.name
             chapter_id = chapter_dir.name
-- 
2.43.0


From bd7afcf25a786c624d067058e38a79a4166acd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 02/18] fix: verify archive checksums before extracting a
 corpus

---
 src/torchrir/datasets/_archive.py    | 5 +++++
 src/torchrir/datasets/librispeech.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 469032c..c21058a 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -18,4 +18,9 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
         if os.path.commonpath([str(root), str(target)]) != str(root):
             raise ValueError(f"unsafe archive member path: {member.name}")
 
+    # Member listing stops at the end-of-archive marker or at the first damaged
+    # header; reading on makes the decompressor verify its checksums.
+    while tar.fileobj is not None and tar.fileobj.read(1024 * 1024):
+        pass
+
     tar.extractall(root)
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 6347fc6..25f4187 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -143,7 +144,7 @@ class LibriSpeechDataset(BaseDataset):
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
                     safe_extractall(tar, self.root)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+            except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
-- 
2.43.0


From 5061e139467124074a6258bc6a180a29d484db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 03/18] fix: publish an extracted corpus only once it is
 complete

---
 src/torchrir/datasets/_archive.py    | 28 ++++++++++++++++++++++++++++
 src/torchrir/datasets/cmu_arctic.py  |  6 +++---
 src/torchrir/datasets/librispeech.py |  6 +++---
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index c21058a..7828613 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import os
+import shutil
 import tarfile
 from pathlib import Path
 
@@ -24,3 +25,30 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
         pass
 
     tar.extractall(root)
+
+
+def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None:
+    """Extract an archive so that ``dataset_dir`` appears only once complete.
+
+    Members are extracted into a staging directory under ``dest`` and
+    ``dataset_dir`` is renamed into place as the last step.
+    """
+    staging = dest / f".{dataset_dir.name}.extracting"
+    if staging.exists():
+        shutil.rmtree(staging)
+    staging.mkdir()
+    try:
+        safe_extractall(tar, staging)
+        staged_dir = staging / dataset_dir.relative_to(dest)
+        for current, dirnames, filenames in os.walk(staging):
+            if Path(current) == staged_dir:
+                dirnames.clear()
+                continue
+            target = dest / Path(current).relative_to(staging)
+            target.mkdir(parents=True, exist_ok=True)
+            for filename in filenames:
+                os.replace(Path(current) / filename, target / filename)
+        if staged_dir.exists():
+            os.replace(staged_dir, dataset_dir)
+    finally:
+        shutil.rmtree(staging, ignore_errors=True)
diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index c59f12a..76b87d7 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -12,7 +12,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load
 
@@ -114,14 +114,14 @@ class CmuArcticDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                    extract_dataset(tar, self._base_dir, self._dataset_dir)
             except (tarfile.ReadError, EOFError, OSError) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                    extract_dataset(tar, self._base_dir, self._dataset_dir)
 
     def sentences(self) -> List[CmuArcticSentence]:
         """Parse all sentence metadata."""
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 25f4187..5de636f 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -13,7 +13,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load_audio
 
@@ -143,14 +143,14 @@ class LibriSpeechDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                    extract_dataset(tar, self.root, self._subset_dir)
             except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                    extract_dataset(tar, self.root, self._subset_dir)
 
     def attribution_info(self) -> DatasetAttribution:
         """Return attribution and license information for LibriSpeech."""
-- 
2.43.0


From edb8affe5b232efd042e6dab664b77662ae27c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 04/18] fix: serialise concurrent downloads of one corpus
 archive

---
 src/torchrir/datasets/_archive.py    | 20 ++++++++++++++++++++
 src/torchrir/datasets/cmu_arctic.py  |  8 +++++---
 src/torchrir/datasets/librispeech.py |  8 +++++---
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 7828613..bff0c90 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -5,7 +5,14 @@ from __future__ import annotations
 import os
 import shutil
 import tarfile
+from contextlib import contextmanager
 from pathlib import Path
+from typing import Iterator
+
+try:
+    import fcntl
+except ImportError:  # pragma: no cover - platforms without POSIX locks
+    fcntl = None  # type: ignore[assignment]
 
 
 def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
@@ -52,3 +59,16 @@ def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None
             os.replace(staged_dir, dataset_dir)
     finally:
         shutil.rmtree(staging, ignore_errors=True)
+
+
+@contextmanager
+def exclusive_lock(path: Path) -> Iterator[None]:
+    """Hold an inter-process lock, so that one process downloads at a time."""
+    path.parent.mkdir(parents=True, exist_ok=True)
+    with path.open("a") as f:
+        if fcntl is not None:
+            try:
+                fcntl.flock(f, fcntl.LOCK_EX)
+            except OSError:  # the file system does not support locks
+                pass
+        yield
diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index 76b87d7..cac3450 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -12,7 +12,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import extract_dataset
+from ._archive import exclusive_lock, extract_dataset
 from .base import BaseDataset
 from ..io.audio import load
 
@@ -82,8 +82,10 @@ class CmuArcticDataset(BaseDataset):
         self._archive_name = f"cmu_us_{speaker}_arctic.tar.bz2"
         self._dataset_dir = self._base_dir / f"cmu_us_{speaker}_arctic"
 
-        if download:
-            self._download_and_extract()
+        archive_path = self._base_dir / self._archive_name
+        if download and not (archive_path.exists() and self._dataset_dir.exists()):
+            with exclusive_lock(self._base_dir / f".{self._archive_name}.lock"):
+                self._download_and_extract()
 
         if not self._dataset_dir.exists():
             raise FileNotFoundError(
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 5de636f..33d5856 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -13,7 +13,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import extract_dataset
+from ._archive import exclusive_lock, extract_dataset
 from .base import BaseDataset
 from ..io.audio import load_audio
 
@@ -77,8 +77,10 @@ class LibriSpeechDataset(BaseDataset):
         self._subset_dir = self._base_dir / subset
         self._speaker_dir = self._subset_dir / speaker if speaker else None
 
-        if download:
-            self._download_and_extract()
+        archive_path = self.root / self._archive_name
+        if download and not (archive_path.exists() and self._subset_dir.exists()):
+            with exclusive_lock(self.root / f".{self._archive_name}.lock"):
+                self._download_and_extract()
 
         if not self._subset_dir.exists():
             raise FileNotFoundError(
-- 
2.43.0


From 7aaa5a761c273a1802eb9d24b5f7bbdbb25c598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 05/18] fix: raise when the two reads of an audio header
 disagree

---
 src/torchrir/io/audio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2a9ea63..87158c2 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -37,7 +37,14 @@ def _load_audio_data(path: Path, *, caller: str) -> AudioData:
     import soundfile as sf
 
     info = sf.info(str(path))
-    audio, sample_rate = sf.read(str(path), dtype="float32", always_2d=True)
+    with sf.SoundFile(str(path)) as f:
+        # libsndfile takes a failed read of the data header for an empty file
+        if f.frames != info.frames:
+            raise OSError(
+                f"inconsistent length of '{path}': {info.frames} and {f.frames} frames"
+            )
+        audio = f.read(dtype="float32", always_2d=True)
+        sample_rate = f.samplerate
     audio_t = torch.from_numpy(audio)
     if audio_t.shape[1] > 1:
         warnings.warn(
-- 
2.43.0


From 1f2370c35289685b25454ce6ceeb1db2cca883d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 06/18] fix: stop instead of looping forever when a speaker has
 no audio samples

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 2 ++
 src/torchrir/datasets/utils.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ac3c1b6..b9458d9 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -391,6 +391,8 @@ def _load_fixed_length_signal(
 
     while total < target_samples:
         if idx >= len(local):
+            if total == 0:
+                raise RuntimeError("No audio samples in selected speaker dataset")
             rng_py.shuffle(local)
             idx = 0
         sentence = local[idx]
diff --git a/src/torchrir/datasets/utils.py b/src/torchrir/datasets/utils.py
index 75b1940..772d3f5 100644
--- a/src/torchrir/datasets/utils.py
+++ b/src/torchrir/datasets/utils.py
@@ -74,6 +74,8 @@ def load_dataset_sources(
 
         while target_samples is None or total < target_samples:
             if idx >= len(sentences):
+                if total == 0:
+                    raise RuntimeError(f"no audio samples found for speaker {speaker}")
                 rng.shuffle(sentences)
                 idx = 0
             sentence = sentences[idx]
-- 
2.43.0


From 7fcd252a91398183387e8c0704e42872a3a88188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 07/18] fix: keep the dataset mixture from clipping

_normalize_sources scaled by the loudest stem only, so the mixture (the sum of
the stems) could exceed full scale and was clipped when written as PCM, no
longer being the sum of the stems next to it.
---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index b9458d9..f4f419c 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -409,7 +409,9 @@ def _load_fixed_length_signal(
 def _normalize_sources(
     stems: list[np.ndarray], *, peak_limit: float = 0.99
 ) -> list[np.ndarray]:
-    peak = max(float(np.max(np.abs(stem))) for stem in stems)
+    # The mixture is written from the same stems, so it has to fit as well.
+    mixture = np.sum(np.stack(stems, axis=0), axis=0)
+    peak = max(float(np.max(np.abs(audio))) for audio in [*stems, mixture])
     if peak <= 0.0 or peak <= peak_limit:
         return stems
     scale = peak_limit / peak
-- 
2.43.0


From 41e2b46f4114cf982feaeb429e2e1e29f2fe3228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 08/18] fix: replace an existing dataset only when the build
 can start

The builder removed the destination before it had looked at the speakers, the
corpus and the room, so an overwriting build that was then refused destroyed
the existing dataset.  It also created the destination with exist_ok=True, so
two builders without permission to overwrite could both use it.
---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index f4f419c..ffb79f5 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -505,13 +505,10 @@ def build_dynamic_cmu_arctic_dataset(
     move_start_sec = float(duration_sec) * move_start_ratio
     move_end_sec = float(duration_sec) * move_end_ratio
 
-    if dataset_root.exists():
-        if not overwrite:
-            raise FileExistsError(
-                f"Dataset root already exists: {dataset_root}. Use overwrite=True."
-            )
-        shutil.rmtree(dataset_root)
-    dataset_root.mkdir(parents=True, exist_ok=True)
+    if dataset_root.exists() and not overwrite:
+        raise FileExistsError(
+            f"Dataset root already exists: {dataset_root}. Use overwrite=True."
+        )
 
     rng = np.random.default_rng(seed)
     rng_py = random.Random(seed)
@@ -560,6 +557,11 @@ def build_dynamic_cmu_arctic_dataset(
     )
     convolver = DynamicConvolver(mode="trajectory")
 
+    if overwrite and dataset_root.exists():
+        shutil.rmtree(dataset_root)
+    # Without overwrite, a destination created meanwhile belongs to someone else.
+    dataset_root.mkdir(parents=True, exist_ok=overwrite)
+
     for scene_idx in range(n_scenes):
         scene_id = f"scene_{scene_idx:04d}"
         scene_dir = dataset_root / scene_id
-- 
2.43.0


From b506bd837543ae9f5737a1e9ec9f3860dcc5b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:43 +0000
Subject: [PATCH 09/18] fix: label sources in 3D animations

Axes3D.text needs a z coordinate, so every 3D GIF or MP4 with source labels
(the default) failed with a TypeError and was skipped.
---
 src/torchrir/viz/animation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index c333e6f..fcf1b22 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -217,7 +217,8 @@ def _build_scene_animation(
     source_texts = []
     if annotate_sources:
         for idx in range(view_src_traj.shape[1]):
-            text = ax.text(0.0, 0.0, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
+            origin = (0.0,) * view_dim
+            text = ax.text(*origin, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
             source_texts.append(text)
 
     ax.legend(loc="best", fontsize=_VIDEO_FONT_SIZE_PT)
-- 
2.43.0


From b17565cd19e30d70e448cafe4853f20f1fe6517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 10/18] fix: close figures and remove temporary files when
 rendering fails

A failed animation, plot or mux left its figure open, and a mux that raised
(encoder missing, disk full, rename failing) left *_tmp_audio.wav and
*_tmp_mux.mp4 next to the video.
---
 src/torchrir/viz/animation.py | 42 ++++++++++++++++++-----------------
 src/torchrir/viz/utils.py     | 14 +++++++-----
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index fcf1b22..7518df1 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -69,8 +69,10 @@ def animate_scene_gif(
         annotate_sources=annotate_sources,
         annotation_lines=annotation_lines,
     )
-    anim.save(out_path, writer="pillow", fps=fps_out)
-    plt.close(fig)
+    try:
+        anim.save(out_path, writer="pillow", fps=fps_out)
+    finally:
+        plt.close(fig)
     return out_path
 
 
@@ -125,8 +127,10 @@ def animate_scene_mp4(
         figsize=_MP4_FIGSIZE_INCHES,
     )
     writer = FFMpegWriter(fps=fps_out)
-    anim.save(out_path, writer=writer, dpi=_MP4_DPI)
-    plt.close(fig)
+    try:
+        anim.save(out_path, writer=writer, dpi=_MP4_DPI)
+    finally:
+        plt.close(fig)
 
     if mux_audio and mixture_path is not None:
         _add_stereo_audio_to_mp4(
@@ -341,8 +345,6 @@ def _add_stereo_audio_to_mp4(
 
     tmp_audio = video_path.with_name(video_path.stem + "_tmp_audio.wav")
     tmp_video = video_path.with_name(video_path.stem + "_tmp_mux.mp4")
-    sf.write(tmp_audio, stereo, int(sample_rate))
-
     cmd = [
         ffmpeg,
         "-y",
@@ -361,17 +363,17 @@ def _add_stereo_audio_to_mp4(
         "-shortest",
         str(tmp_video),
     ]
-    result = subprocess.run(cmd, check=False, capture_output=True, text=True)
-    if result.returncode != 0:
-        LOGGER.warning(
-            "Failed to mux audio into %s: %s",
-            video_path.name,
-            (result.stderr or result.stdout).strip(),
-        )
-    else:
-        tmp_video.replace(video_path)
-
-    if tmp_audio.exists():
-        tmp_audio.unlink()
-    if tmp_video.exists():
-        tmp_video.unlink()
+    try:
+        sf.write(tmp_audio, stereo, int(sample_rate))
+        result = subprocess.run(cmd, check=False, capture_output=True, text=True)
+        if result.returncode != 0:
+            LOGGER.warning(
+                "Failed to mux audio into %s: %s",
+                video_path.name,
+                (result.stderr or result.stdout).strip(),
+            )
+        else:
+            tmp_video.replace(video_path)
+    finally:
+        tmp_audio.unlink(missing_ok=True)
+        tmp_video.unlink(missing_ok=True)
diff --git a/src/torchrir/viz/utils.py b/src/torchrir/viz/utils.py
index e9dba86..ac8f91c 100644
--- a/src/torchrir/viz/utils.py
+++ b/src/torchrir/viz/utils.py
@@ -76,12 +76,14 @@ def _save_axes(ax: Any, path: Path, *, show: bool) -> None:
     import matplotlib.pyplot as plt
 
     fig = ax.figure
-    fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
-    fig.tight_layout()
-    fig.savefig(path, dpi=_STATIC_SAVE_DPI)
-    if show:
-        plt.show()
-    plt.close(fig)
+    try:
+        fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
+        fig.tight_layout()
+        fig.savefig(path, dpi=_STATIC_SAVE_DPI)
+        if show:
+            plt.show()
+    finally:
+        plt.close(fig)
 
 
 def _add_axes_annotation(
-- 
2.43.0


From 4adf4ba342f418e8c5b4db1da908fcb1c2e5d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:52 +0000
Subject: [PATCH 11/18] fix: raise I/O errors that libsndfile ignores in audio
 headers

---
 src/torchrir/datasets/dynamic_cmu_arctic.py |  6 +--
 src/torchrir/io/audio.py                    | 53 ++++++++++++++++-----
 src/torchrir/viz/animation.py               |  5 +-
 3 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ffb79f5..4cf33e7 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -24,12 +24,12 @@ import shutil
 from typing import Sequence
 
 import numpy as np
-import soundfile as sf
 import torch
 
 from .cmu_arctic import CmuArcticDataset
 from ..geometry import polyhedron_array
 from ..io import save_scene_metadata
+from ..io.audio import _write_file
 from ..models import MicrophoneArray, Room, Source
 from ..signal import DynamicConvolver
 from ..sim import simulate_dynamic_rir
@@ -666,9 +666,9 @@ def build_dynamic_cmu_arctic_dataset(
         mix = np.sum(np.stack(stems, axis=0), axis=0)
 
         for src_idx, stem in enumerate(stems):
-            sf.write(scene_dir / f"source_{src_idx:02d}.wav", stem, sample_rate)
+            _write_file(scene_dir / f"source_{src_idx:02d}.wav", stem, sample_rate)
         mixture_path = scene_dir / "mixture.wav"
-        sf.write(mixture_path, mix, sample_rate)
+        _write_file(mixture_path, mix, sample_rate)
 
         sources = Source.from_positions(starts.tolist(), dtype=torch.float64)
         layout_annotation_lines = _build_layout_annotation_lines(
diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 87158c2..cc95240 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -3,10 +3,12 @@
 from __future__ import annotations
 
 from dataclasses import dataclass
+import io
 from pathlib import Path
 from typing import Optional, Tuple
 import warnings
 
+import numpy as np
 import torch
 
 
@@ -32,19 +34,46 @@ class AudioInfo:
     duration: float
 
 
+class _NamedBuffer(io.BytesIO):
+    """In-memory file that soundfile identifies by the path it stands for."""
+
+    def __init__(self, path: Path, data: bytes = b"") -> None:
+        super().__init__(data)
+        self.name = str(path)
+
+    def __repr__(self) -> str:
+        return repr(self.name)
+
+
+def _read_file(path: Path) -> _NamedBuffer:
+    """Read a whole audio file for soundfile.
+
+    libsndfile ignores I/O errors while it parses a header; Python raises them.
+    """
+    return _NamedBuffer(path, Path(path).read_bytes())
+
+
+def _write_file(
+    path: Path, data: np.ndarray, sample_rate: int, subtype: str | None = None
+) -> None:
+    """Encode audio and write it to disk.
+
+    libsndfile ignores I/O errors while it rewrites a header; Python raises them.
+    """
+    import soundfile as sf
+
+    buffer = _NamedBuffer(path)
+    sf.write(buffer, data, sample_rate, subtype=subtype)
+    Path(path).write_bytes(buffer.getvalue())
+
+
 def _load_audio_data(path: Path, *, caller: str) -> AudioData:
     """Load an audio file and return explicit audio + metadata."""
     import soundfile as sf
 
-    info = sf.info(str(path))
-    with sf.SoundFile(str(path)) as f:
-        # libsndfile takes a failed read of the data header for an empty file
-        if f.frames != info.frames:
-            raise OSError(
-                f"inconsistent length of '{path}': {info.frames} and {f.frames} frames"
-            )
+    with sf.SoundFile(_read_file(path)) as f:
         audio = f.read(dtype="float32", always_2d=True)
-        sample_rate = f.samplerate
+        sample_rate, file_format, subtype = f.samplerate, f.format, f.subtype
     audio_t = torch.from_numpy(audio)
     if audio_t.shape[1] > 1:
         warnings.warn(
@@ -57,8 +86,8 @@ def _load_audio_data(path: Path, *, caller: str) -> AudioData:
     return AudioData(
         audio=audio_t,
         sample_rate=sample_rate,
-        format=info.format,
-        subtype=info.subtype,
+        format=file_format,
+        subtype=subtype,
     )
 
 
@@ -113,8 +142,6 @@ def _save_audio(
     subtype: str | None = None,
 ) -> None:
     """Save a mono or multi-channel audio file to disk."""
-    import soundfile as sf
-
     audio = audio.detach().cpu().to(torch.float32)
     if normalize:
         if peak <= 0:
@@ -127,7 +154,7 @@ def _save_audio(
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
         subtype = getattr(audio, "_torchrir_subtype", None)
-    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
+    _write_file(path, audio.numpy(), sample_rate, subtype=subtype)
 
 
 def save(
diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 7518df1..ed69ac9 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -12,6 +12,7 @@ import numpy as np
 import soundfile as sf
 import torch
 
+from ..io.audio import _read_file, _write_file
 from .utils import (
     _add_axes_annotation,
     _ensure_default_mpl_style,
@@ -320,7 +321,7 @@ def _add_stereo_audio_to_mp4(
         LOGGER.warning("ffmpeg not found. Skip audio mux for %s", video_path.name)
         return
 
-    mixture, sample_rate = sf.read(mixture_path, always_2d=True)
+    mixture, sample_rate = sf.read(_read_file(mixture_path), always_2d=True)
     mixture = np.asarray(mixture, dtype=np.float64)
     n_channels = int(mixture.shape[1])
     if n_channels <= 0:
@@ -364,7 +365,7 @@ def _add_stereo_audio_to_mp4(
         str(tmp_video),
     ]
     try:
-        sf.write(tmp_audio, stereo, int(sample_rate))
+        _write_file(tmp_audio, stereo, int(sample_rate))
         result = subprocess.run(cmd, check=False, capture_output=True, text=True)
         if result.returncode != 0:
             LOGGER.warning(
-- 
2.43.0


From 97f3e19f66a96f4a6f6dbb203be7a07da4bd8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 12/18] fix: create cached constants outside inference mode

---
 src/torchrir/sim/ism/accumulate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/torchrir/sim/ism/accumulate.py b/src/torchrir/sim/ism/accumulate.py
index 6529d0d..79a820d 100644
--- a/src/torchrir/sim/ism/accumulate.py
+++ b/src/torchrir/sim/ism/accumulate.py
@@ -9,6 +9,8 @@ from torch import Tensor
 
 from ...config import SimulationConfig
 
+# Cached constants are created outside inference mode: an inference tensor would
+# break autograd in every later call that shares it.
 _SINC_LUT_CACHE: dict[tuple[int, int, str, torch.dtype], Tensor] = {}
 _FDL_GRID_CACHE: dict[tuple[int, str, torch.dtype], Tensor] = {}
 _FDL_OFFSETS_CACHE: dict[tuple[int, str], Tensor] = {}
@@ -124,6 +126,7 @@ def _get_accumulate_fn(
     return compiled
 
 
+@torch.inference_mode(False)
 def _get_fdl_grid(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Tensor:
     key = (fdl, str(device), dtype)
     cached = _FDL_GRID_CACHE.get(key)
@@ -133,6 +136,7 @@ def _get_fdl_grid(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Tens
     return cached
 
 
+@torch.inference_mode(False)
 def _get_fdl_offsets(fdl: int, *, device: torch.device) -> Tensor:
     key = (fdl, str(device))
     cached = _FDL_OFFSETS_CACHE.get(key)
@@ -143,6 +147,7 @@ def _get_fdl_offsets(fdl: int, *, device: torch.device) -> Tensor:
     return cached
 
 
+@torch.inference_mode(False)
 def _get_fdl_window(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Tensor:
     key = (fdl, str(device), dtype)
     cached = _FDL_WINDOW_CACHE.get(key)
@@ -152,6 +157,7 @@ def _get_fdl_window(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Te
     return cached
 
 
+@torch.inference_mode(False)
 def _get_sinc_lut(
     fdl: int, lut_gran: int, *, device: torch.device, dtype: torch.dtype
 ) -> Tensor:
-- 
2.43.0


From b029c18a0f138402852c43904f0c8ed74f3696d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 13/18] fix: install one logging handler when set-ups race

---
 src/torchrir/logging.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 5d2692c..b296975 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -4,8 +4,11 @@ from __future__ import annotations
 
 from dataclasses import dataclass, replace
 import logging
+import threading
 from typing import Optional
 
+_SETUP_LOCK = threading.Lock()
+
 
 @dataclass(frozen=True)
 class LoggingConfig:
@@ -50,13 +53,16 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
     """
     logger = logging.getLogger(name)
     level = config.resolve_level()
-    logger.setLevel(level)
-    logger.propagate = config.propagate
-    if not logger.handlers:
-        handler = logging.StreamHandler()
-        handler.setLevel(level)
-        handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
-        logger.addHandler(handler)
+    with _SETUP_LOCK:
+        logger.setLevel(level)
+        logger.propagate = config.propagate
+        if not logger.handlers:
+            handler = logging.StreamHandler()
+            handler.setLevel(level)
+            handler.setFormatter(
+                logging.Formatter(config.format, datefmt=config.datefmt)
+            )
+            logger.addHandler(handler)
     return logger
 
 
-- 
2.43.0


From bda9a63d5ceb984750b75759b8e4c80a97e8ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 14/18] fix: apply a repeated logging set-up to the handler too

---
 src/torchrir/logging.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index b296975..dbab6a3 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -8,6 +8,7 @@ import threading
 from typing import Optional
 
 _SETUP_LOCK = threading.Lock()
+_HANDLERS: dict[str, logging.Handler] = {}
 
 
 @dataclass(frozen=True)
@@ -57,12 +58,14 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
         logger.setLevel(level)
         logger.propagate = config.propagate
         if not logger.handlers:
-            handler = logging.StreamHandler()
+            _HANDLERS[name] = logging.StreamHandler()
+            logger.addHandler(_HANDLERS[name])
+        handler = _HANDLERS.get(name)
+        if handler is not None and handler in logger.handlers:
             handler.setLevel(level)
             handler.setFormatter(
                 logging.Formatter(config.format, datefmt=config.datefmt)
             )
-            logger.addHandler(handler)
     return logger
 
 
-- 
2.43.0


From 1e6a8e626bd1e6f5519ce46037dfa512cd7c6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 15/18] fix: close figures when drawing into them fails

---
 src/torchrir/viz/animation.py |  46 +++++++++++++--
 src/torchrir/viz/scene.py     | 107 ++++++++++++++++++----------------
 src/torchrir/viz/utils.py     |  16 ++++-
 3 files changed, 112 insertions(+), 57 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index ed69ac9..e16d6be 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -15,6 +15,7 @@ import torch
 from ..io.audio import _read_file, _write_file
 from .utils import (
     _add_axes_annotation,
+    _close_on_error,
     _ensure_default_mpl_style,
     _positions_to_cpu,
     _to_cpu,
@@ -127,8 +128,8 @@ def animate_scene_mp4(
         annotation_lines=annotation_lines,
         figsize=_MP4_FIGSIZE_INCHES,
     )
-    writer = FFMpegWriter(fps=fps_out)
     try:
+        writer = FFMpegWriter(fps=fps_out)
         anim.save(out_path, writer=writer, dpi=_MP4_DPI)
     finally:
         plt.close(fig)
@@ -161,7 +162,6 @@ def _build_scene_animation(
     figsize: tuple[float, float] | None = None,
 ):
     import matplotlib.pyplot as plt
-    from matplotlib import animation
 
     _ensure_default_mpl_style()
 
@@ -183,8 +183,44 @@ def _build_scene_animation(
     view_src_traj = src_traj_t[:, :, :view_dim]
     view_mic_traj = mic_traj_t[:, :, :view_dim]
 
+    fig = plt.figure(figsize=figsize)
+    with _close_on_error(fig):
+        anim, fps_out = _animate_figure(
+            fig,
+            view_room=view_room,
+            view_src_traj=view_src_traj,
+            view_mic_traj=view_mic_traj,
+            steps=steps,
+            step=step,
+            fps=fps,
+            signal_len=signal_len,
+            fs=fs,
+            duration_s=duration_s,
+            annotate_sources=annotate_sources,
+            annotation_lines=annotation_lines,
+        )
+    return fig, anim, fps_out
+
+
+def _animate_figure(
+    fig,
+    *,
+    view_room: torch.Tensor,
+    view_src_traj: torch.Tensor,
+    view_mic_traj: torch.Tensor,
+    steps: int,
+    step: int,
+    fps: Optional[float],
+    signal_len: Optional[int],
+    fs: Optional[float],
+    duration_s: Optional[float],
+    annotate_sources: bool,
+    annotation_lines: Optional[Sequence[str]],
+):
+    from matplotlib import animation
+
+    view_dim = int(view_room.numel())
     if view_dim == 3:
-        fig = plt.figure(figsize=figsize)
         ax = fig.add_subplot(111, projection="3d")
         ax.set_xlim(0, view_room[0].item())
         ax.set_ylim(0, view_room[1].item())
@@ -195,7 +231,7 @@ def _build_scene_animation(
         ax.tick_params(axis="both", labelsize=_VIDEO_FONT_SIZE_PT)
         ax.tick_params(axis="z", labelsize=_VIDEO_FONT_SIZE_PT)
     else:
-        fig, ax = plt.subplots(figsize=figsize)
+        ax = fig.add_subplot()
         ax.set_xlim(0, view_room[0].item())
         ax.set_ylim(0, view_room[1].item())
         ax.set_aspect("equal", adjustable="box")
@@ -301,7 +337,7 @@ def _build_scene_animation(
         interval=1000 / float(fps_out),
         blit=False,
     )
-    return fig, anim, fps_out
+    return anim, fps_out
 
 
 def _add_stereo_audio_to_mp4(
diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index 1743c24..0bb453c 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -9,7 +9,7 @@ from torch import Tensor
 
 from ..models import MicrophoneArray, Room, Source
 from ..util.tensor import as_tensor, ensure_dim
-from .utils import _add_axes_annotation, _ensure_default_mpl_style
+from .utils import _add_axes_annotation, _close_on_error, _ensure_default_mpl_style
 
 _MIC_COLOR = "tab:orange"
 
@@ -36,25 +36,27 @@ def plot_scene_static(
         )
         ```
     """
+    own_figure = ax is None
     plt, ax = _setup_axes(ax, room)
 
-    size = _room_size(room, ax)
-    _draw_room(ax, size)
-
-    src = _extract_positions(sources, ax)
-    mic = _extract_positions(mics, ax)
-
-    _scatter_positions(ax, src, label="sources", marker="^")
-    _scatter_positions(ax, mic, label="mics", marker="o", color=_MIC_COLOR)
-    if annotate_sources:
-        _annotate_source_indices(ax, src)
-    _add_axes_annotation(ax, annotation_lines)
-
-    if title:
-        ax.set_title(title)
-    ax.legend(loc="best")
-    if show:
-        plt.show()
+    with _close_on_error(ax.figure if own_figure else None):
+        size = _room_size(room, ax)
+        _draw_room(ax, size)
+
+        src = _extract_positions(sources, ax)
+        mic = _extract_positions(mics, ax)
+
+        _scatter_positions(ax, src, label="sources", marker="^")
+        _scatter_positions(ax, mic, label="mics", marker="o", color=_MIC_COLOR)
+        if annotate_sources:
+            _annotate_source_indices(ax, src)
+        _add_axes_annotation(ax, annotation_lines)
+
+        if title:
+            ax.set_title(title)
+        ax.legend(loc="best")
+        if show:
+            plt.show()
     return ax
 
 
@@ -85,36 +87,38 @@ def plot_scene_dynamic(
         )
         ```
     """
+    own_figure = ax is None
     plt, ax = _setup_axes(ax, room)
 
-    size = _room_size(room, ax)
-    _draw_room(ax, size)
-
-    src_traj = _as_trajectory(src_traj)
-    mic_traj = _as_trajectory(mic_traj)
-    src_pos_t = _extract_positions(src_pos, ax) if src_pos is not None else src_traj[0]
-    mic_pos_t = _extract_positions(mic_pos, ax) if mic_pos is not None else mic_traj[0]
-
-    _plot_entity(ax, src_traj, src_pos_t, step=step, label="sources", marker="^")
-    _plot_entity(
-        ax,
-        mic_traj,
-        mic_pos_t,
-        step=step,
-        label="mics",
-        marker="o",
-        color=_MIC_COLOR,
-        uniform_color=True,
-    )
-    if annotate_sources:
-        _annotate_source_indices(ax, src_pos_t)
-    _add_axes_annotation(ax, annotation_lines)
-
-    if title:
-        ax.set_title(title)
-    ax.legend(loc="best")
-    if show:
-        plt.show()
+    with _close_on_error(ax.figure if own_figure else None):
+        size = _room_size(room, ax)
+        _draw_room(ax, size)
+
+        src_traj = _as_trajectory(src_traj)
+        mic_traj = _as_trajectory(mic_traj)
+        src_pos_t = _extract_positions(src_pos, ax) if src_pos is not None else src_traj[0]
+        mic_pos_t = _extract_positions(mic_pos, ax) if mic_pos is not None else mic_traj[0]
+
+        _plot_entity(ax, src_traj, src_pos_t, step=step, label="sources", marker="^")
+        _plot_entity(
+            ax,
+            mic_traj,
+            mic_pos_t,
+            step=step,
+            label="mics",
+            marker="o",
+            color=_MIC_COLOR,
+            uniform_color=True,
+        )
+        if annotate_sources:
+            _annotate_source_indices(ax, src_pos_t)
+        _add_axes_annotation(ax, annotation_lines)
+
+        if title:
+            ax.set_title(title)
+        ax.legend(loc="best")
+        if show:
+            plt.show()
     return ax
 
 
@@ -129,11 +133,12 @@ def _setup_axes(
     size = _room_size(room, ax)
     dim = size.numel()
     if ax is None:
-        if dim == 3:
-            fig = plt.figure()
-            ax = fig.add_subplot(111, projection="3d")
-        else:
-            _, ax = plt.subplots()
+        fig = plt.figure()
+        with _close_on_error(fig):
+            if dim == 3:
+                ax = fig.add_subplot(111, projection="3d")
+            else:
+                ax = fig.add_subplot()
     return plt, ax
 
 
diff --git a/src/torchrir/viz/utils.py b/src/torchrir/viz/utils.py
index ac8f91c..12fd77e 100644
--- a/src/torchrir/viz/utils.py
+++ b/src/torchrir/viz/utils.py
@@ -2,8 +2,9 @@
 
 from __future__ import annotations
 
+from contextlib import contextmanager
 from pathlib import Path
-from typing import Any, Optional, Sequence
+from typing import Any, Iterator, Optional, Sequence
 
 import torch
 
@@ -33,6 +34,19 @@ def _ensure_default_mpl_style() -> None:
     _MPL_DEFAULT_STYLE_APPLIED = True
 
 
+@contextmanager
+def _close_on_error(fig: Any | None) -> Iterator[None]:
+    """Close a figure when drawing into it fails; ``None`` is left alone."""
+    import matplotlib.pyplot as plt
+
+    try:
+        yield
+    except BaseException:
+        if fig is not None:
+            plt.close(fig)
+        raise
+
+
 def _to_cpu(value: Any) -> torch.Tensor:
     """Move a value to CPU as a tensor."""
     if torch.is_tensor(value):
-- 
2.43.0


From 5fade0323aad17255a3d05c95da17e83bd74c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 16/18] fix: a linear trajectory of one step is its start, not
 NaN

---
 src/torchrir/geometry/trajectories.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/trajectories.py b/src/torchrir/geometry/trajectories.py
index 1affd23..10d1558 100644
--- a/src/torchrir/geometry/trajectories.py
+++ b/src/torchrir/geometry/trajectories.py
@@ -8,7 +8,8 @@ from torch import Tensor
 
 def linear_trajectory(start: Tensor, end: Tensor, steps: int) -> Tensor:
     """Create a linear trajectory between start and end."""
+    span = max(steps - 1, 1)
     return torch.stack(
-        [start + (end - start) * t / (steps - 1) for t in range(steps)],
+        [start + (end - start) * t / span for t in range(steps)],
         dim=0,
     )
-- 
2.43.0


From 0c439fe70581f973b567e0f27a7f52c071a61daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 17/18] fix: keep an archive from altering other datasets under
 the same root

---
 src/torchrir/datasets/_archive.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index bff0c90..33d0ba4 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -38,7 +38,9 @@ def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None
     """Extract an archive so that ``dataset_dir`` appears only once complete.
 
     Members are extracted into a staging directory under ``dest`` and
-    ``dataset_dir`` is renamed into place as the last step.
+    ``dataset_dir`` is renamed into place as the last step. Of the members
+    outside ``dataset_dir``, only text files beside it are kept, so that an
+    archive cannot alter other datasets under ``dest``.
     """
     staging = dest / f".{dataset_dir.name}.extracting"
     if staging.exists():
@@ -47,15 +49,11 @@ def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None
     try:
         safe_extractall(tar, staging)
         staged_dir = staging / dataset_dir.relative_to(dest)
-        for current, dirnames, filenames in os.walk(staging):
-            if Path(current) == staged_dir:
-                dirnames.clear()
-                continue
-            target = dest / Path(current).relative_to(staging)
-            target.mkdir(parents=True, exist_ok=True)
-            for filename in filenames:
-                os.replace(Path(current) / filename, target / filename)
-        if staged_dir.exists():
+        if staged_dir.is_dir():
+            dataset_dir.parent.mkdir(parents=True, exist_ok=True)
+            for path in sorted(staged_dir.parent.iterdir()):
+                if path.is_file() and path.suffix.lower() == ".txt":
+                    os.replace(path, dataset_dir.parent / path.name)
             os.replace(staged_dir, dataset_dir)
     finally:
         shutil.rmtree(staging, ignore_errors=True)
-- 
2.43.0


From db9434d65b037300a5ae965e704d292e9211835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 18/18] fix: raise when audio file information cannot be read

---
 src/torchrir/io/audio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index cc95240..fa881e0 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -241,7 +241,7 @@ def info_audio(path: Path) -> AudioInfo:
     """Return metadata for an audio file (wav/flac/other supported by soundfile)."""
     import soundfile as sf
 
-    info = sf.info(str(path))
+    info = sf.info(_read_file(path))
     return AudioInfo(
         sample_rate=info.samplerate,
         num_frames=info.frames,
-- 
2.43.0

