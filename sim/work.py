"""Client programs run inside simulated nodes (dataset side)."""
from __future__ import annotations

import hashlib

from sim.procworld import describe_exc, mark


def tsha(t):
    import torch
    a = t.detach().to(torch.float32).contiguous().numpy()
    return hashlib.sha256(a.tobytes()).hexdigest()[:16]


def make_dataset(kind, root, unit, speaker, download, rootstyle="path"):
    from pathlib import Path
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset
    r = Path(root) if rootstyle == "path" else root
    if kind == "cmu":
        return CmuArcticDataset(r, speaker=unit, download=download)
    return LibriSpeechDataset(r, subset=unit, speaker=speaker, download=download)


def _rec(kind, s):
    if kind == "cmu":
        return [s.utterance_id, s.text]
    return [s.utterance_id, s.text, s.speaker_id, s.chapter_id]


def quiet(text):
    pass


def earlier(kind, root, unit, jobs):
    """What the process did before: it read a corpus with the same names but other
    content, elsewhere or (later replaced) at the very same place."""
    import os
    import random
    for how, other, acts, seed in jobs:
        if how == "here":
            os.rename(root, root + ".mine")
            os.rename(other, root)
        where = root if how == "here" else other
        if acts == "assemble":
            assemble(kind, where, unit, 1, 0.01, seed, False)
        else:
            r = use_corpus(kind, where, unit, None, False, acts, mark=quiet)
            if r["construct"] is None and kind == "libri" and r.get("index") and random.Random(seed).random() < 0.5:
                use_corpus(kind, where, unit, r["index"][0][2], False, acts, mark=quiet)
        if how == "here":
            os.rename(root, other)
            os.rename(root + ".mine", root)


def use_corpus(kind, root, unit, speaker, download, acts, rootstyle="path", before=(), mark=mark):
    if before:
        earlier(kind, root, unit, before)
    mark("construct")
    try:
        ds = make_dataset(kind, root, unit, speaker, download, rootstyle)
    except BaseException as exc:  # noqa: BLE001
        return {"construct": describe_exc(exc)}
    mark("constructed:" + unit)
    out = {"construct": None}
    own = "own" in acts

    def given(x):
        """What the user was given is the user's: it sorts, drops and overwrites it."""
        r = list(x) if isinstance(x, (list, tuple)) else x
        if own and isinstance(x, list):
            x.reverse()
            del x[: len(x) // 2]
        elif own and hasattr(x, "zero_"):
            x.zero_()
        return r

    try:
        if "index" in acts:
            out["index"] = [_rec(kind, s) for s in given(ds.available_sentences())]
        if "speakers" in acts and own:
            given(ds.list_speakers())
        if "index2" in acts:
            out["index2"] = [_rec(kind, s) for s in given(ds.available_sentences())]
        if "sentences" in acts and kind == "cmu":
            out["sentences"] = [_rec(kind, s) for s in given(ds.sentences())]
        if "speakers" in acts:
            out["speakers"] = given(ds.list_speakers())
        if "len" in acts:
            out["len"] = len(ds)
        if "items" in acts:
            its = []
            for i in range(len(ds)):
                it = ds[i]
                its.append([it.utterance_id, it.text, tsha(it.audio), int(it.sample_rate), it.speaker])
                given(it.audio)
            out["items"] = its
        if "audio" in acts:
            au = {}
            for s in (out.get("index") or [_rec(kind, s) for s in ds.available_sentences()]):
                a, fs = ds.load_audio(s[0])
                au[s[0]] = [tsha(a), int(fs), list(a.shape)]
                given(a)
            out["audio"] = au
        if own and "index" in acts:
            out["index2"] = [_rec(kind, s) for s in ds.available_sentences()]
    except BaseException as exc:  # noqa: BLE001
        out["read"] = describe_exc(exc)
    mark("used:" + unit)
    return out


def kept_factory(make, style):
    """Factories of users who keep their data sets open between the calls."""
    from torchrir.datasets import BaseDataset
    kept = {}

    class Memory(BaseDataset):
        """A data set of the user's own that hands out what it holds."""

        def __init__(self, ds):
            self.ds, self.audio = ds, {}
            self.speakers, self.list = list(ds.list_speakers()), list(ds.available_sentences())

        def list_speakers(self):
            return self.speakers

        def available_sentences(self):
            return self.list

        def load_audio(self, utterance_id):
            if utterance_id not in self.audio:
                self.audio[utterance_id] = self.ds.load_audio(utterance_id)
            return self.audio[utterance_id]

    def look(ds):
        return [[s.utterance_id for s in ds.available_sentences()], [s.utterance_id for s in ds._get_sentences()],
                list(ds.list_speakers()), {k: tsha(v[0]) for k, v in getattr(ds, "audio", {}).items()}]

    def factory(spk):
        if spk not in kept:
            ds = make(spk)
            kept[spk] = (ds, look(ds)) if style == "open" else (Memory(ds), look(Memory(ds)))
        return kept[spk][0]

    def changed():
        bad = []
        for spk, (ds, was) in kept.items():
            now = look(ds)
            if now[:3] != was[:3]:
                bad.append([spk, was[:3], now[:3]])
            for u, h in now[3].items():
                if tsha(ds.ds.load_audio(u)[0]) != h:
                    bad.append([spk, u])
        return bad
    return factory, changed


def assemble(kind, root, unit, num_sources, duration, rng_seed, download, calls=1, before=(), keep=None):
    """load_dataset_sources over a corpus; returns digests and the raw samples."""
    if before:
        earlier(kind, root, unit, before)
    import random
    from pathlib import Path
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset, load_dataset_sources

    def factory(spk):
        if kind == "cmu":
            return CmuArcticDataset(Path(root), speaker=spk or unit, download=download)
        return LibriSpeechDataset(Path(root), subset=unit, speaker=spk, download=download)

    changed = None
    if keep:
        factory, changed = kept_factory(factory, keep)
    rng = random.Random(rng_seed)
    outs = []
    for _ in range(calls):
        mark("assemble")
        try:
            sig, fs, info = load_dataset_sources(
                dataset_factory=factory, num_sources=num_sources, duration_s=duration, rng=rng)
        except BaseException as exc:  # noqa: BLE001
            outs.append({"exc": describe_exc(exc)})
            break
        outs.append({"shape": list(sig.shape), "fs": int(fs), "dtype": str(sig.dtype),
                     "info": [[s, list(u)] for s, u in info],
                     "rows": [tsha(r) for r in sig]})
        if changed is not None:
            sig.zero_()
            info.clear()
            outs[-1]["changed"] = changed()
    return outs
