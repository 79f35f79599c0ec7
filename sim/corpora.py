"""Synthetic corpora with the published layouts, their archives and a model of
what a complete copy contains."""
from __future__ import annotations

import hashlib
import io
import os
import random
import struct
import tarfile
import zlib

_WORDS = ("author of the danger trail philip steels etc not at this particular case "
          "tom apologized whittemore for twentieth time that evening two men shook hands").split()


def _pcm(rng, n, amp=12000):
    return [rng.randrange(-amp, amp) for _ in range(n)]


def wav_bytes(samples, fs, channels=1):
    data = struct.pack("<%dh" % len(samples), *samples)
    hdr = b"RIFF" + struct.pack("<I", 36 + len(data)) + b"WAVEfmt " + struct.pack(
        "<IHHIIHH", 16, 1, channels, fs, fs * 2 * channels, 2 * channels, 16)
    return hdr + b"data" + struct.pack("<I", len(data)) + data


def flac_bytes(samples, fs):
    import numpy as np
    import soundfile as sf
    b = io.BytesIO()
    sf.write(b, np.asarray(samples, dtype=np.int16), fs, format="FLAC", subtype="PCM_16")
    return b.getvalue()


def audio_sha(samples):
    """Digest of the samples as the loader should return them (float32 / 32768)."""
    import numpy as np
    a = (np.asarray(samples, dtype=np.float32) / np.float32(32768.0)).astype(np.float32)
    return hashlib.sha256(a.tobytes()).hexdigest()[:16]


_CACHE = {}


def make(spec):
    """spec: {"kind","seed","speakers":[...]|"subset","n","fs","len":[lo,hi],...}

    Returns {"files": {relpath: bytes}, "dirs": [...], "speakers": {...}}.
    Paths are relative to the directory the archive is extracted in
    (`root/ARCTIC` for CMU, `root` for LibriSpeech); one archive per speaker
    (CMU) or subset (Libri)."""
    key = repr(sorted(spec.items(), key=lambda kv: kv[0]))
    if key in _CACHE:
        return _CACHE[key]
    if len(_CACHE) > 64:
        _CACHE.clear()
    out = {"archives": {}, "truth": {}}
    for unit in spec["units"]:
        rng = random.Random(f"{spec['seed']}:{unit}")
        if spec["kind"] == "cmu":
            files, truth = _cmu_unit(rng, spec, unit)
        else:
            files, truth = _libri_unit(rng, spec, unit)
        out["archives"][unit] = files
        out["truth"][unit] = truth
    _CACHE[key] = out
    return out


_ODD = ["don't", "(aside)", "25", "naïve", "well;", "half-way", "co.", "A1", "#9", "café", "a  b", "%d", "\\n",
        "100%", "{x}", "arctic_a0001", "Mr."]


def _text(rng):
    words = [rng.choice(_WORDS) for _ in range(rng.randrange(2, 6))]
    if rng.random() < 0.4:
        words[rng.randrange(len(words))] = rng.choice(_ODD)
    return " ".join(words)


def _cmu_unit(rng, spec, spk):
    lo, hi = spec.get("len", [40, 300])
    fs = spec.get("fs", {}).get(spk, 16000) if isinstance(spec.get("fs"), dict) else spec.get("fs", 16000)
    d = f"cmu_us_{spk}_arctic"
    files = {f"{d}/COPYING": b"free\n", f"{d}/README": f"speaker {spk}\n".encode()}
    lines = []
    truth = {"sentences": [], "audio": {}, "fs": fs, "samples": {}}
    n = spec.get("n", 3)
    missing = spec.get("missing", 0)
    for i in range(n):
        utt = f"arctic_{'ab'[i % 2]}{i + 1:04d}"
        text = _text(rng)
        text = text[:1].upper() + text[1:] + rng.choice([".", "?", "", ", he said."])
        if rng.random() < 0.15:
            text = f'He said, "{text}"' + rng.choice(["", " twice."])
        lines.append(f'( {utt} "{text}" )')
        ln = rng.randrange(lo, hi) if hi > lo else lo
        if spec.get("empty") and (i % spec["empty"] == 0):
            ln = 0
        samples = _pcm(rng, ln, spec.get("amp") or 12000)
        if spec.get("big") and i == 0:
            samples = _pcm(rng, spec["big"])
        if i < missing:
            continue
        files[f"{d}/wav/{utt}.wav"] = wav_bytes(samples, fs)
        truth["sentences"].append([utt, text])
        truth["audio"][utt] = audio_sha(samples)
        truth["samples"][utt] = samples
    if spec.get("stray"):
        files[f"{d}/wav/stray_x0001.wav"] = wav_bytes(_pcm(rng, 20), fs)
        files[f"{d}/wav/notes.txt"] = b"x"
        for i in range(missing):
            files[f"{d}/wav/arctic_{'ab'[i % 2]}{i + 1:04d}.lab"] = b"0 1 pau\n"
    body = "\n".join(lines) + "\n"
    if spec.get("blank"):
        body = "\n" + body.replace("\n", "\n\n", 1) + "\n"
    files[f"{d}/etc/txt.done.data"] = body.encode()
    truth["speakers"] = None
    return files, truth


def _libri_unit(rng, spec, subset):
    lo, hi = spec.get("len", [40, 300])
    fs = 16000
    truth = {"sentences": [], "audio": {}, "fs": fs, "samples": {}}
    files = {"LibriSpeech/README.TXT": b"LibriSpeech\n", "LibriSpeech/LICENSE.TXT": b"CC BY 4.0\n",
             "LibriSpeech/SPEAKERS.TXT": f"; speakers\n".encode()}
    nspk = spec.get("nspk", 2)
    spks = rng.sample(["19", "26", "103", "1034", "1040", "84", "174", "251"], nspk)
    missing = spec.get("missing", 0)
    for s in spks:
        for ch in rng.sample(["121", "495", "1240", "198", "126133"], spec.get("nchap", 2)):
            lines = []
            for i in range(spec.get("n", 2)):
                utt = f"{s}-{ch}-{i:04d}"
                text = _text(rng).upper()
                lines.append(f"{utt} {text}")
                ln = rng.randrange(lo, hi) if hi > lo else lo
                samples = _pcm(rng, ln)
                if missing > 0:
                    missing -= 1
                    if spec.get("stray"):
                        files[f"LibriSpeech/{subset}/{s}/{ch}/{utt}.txt"] = b"x"
                    continue
                files[f"LibriSpeech/{subset}/{s}/{ch}/{utt}.flac"] = flac_bytes(samples, fs)
                truth["sentences"].append([utt, text, s, ch])
                truth["audio"][utt] = audio_sha(samples)
                truth["samples"][utt] = samples
            body = "\n".join(lines) + "\n"
            if spec.get("blank"):
                body = "\n" + body.replace("\n", "\n\n", 1)
            files[f"LibriSpeech/{subset}/{s}/{ch}/{s}-{ch}.trans.txt"] = body.encode()
            if spec.get("stray"):
                files[f"LibriSpeech/{subset}/{s}/{ch}/{s}-{ch}-9999.flac"] = flac_bytes(_pcm(rng, 20), fs)
                files[f"LibriSpeech/{subset}/{s}/{ch}/trans.notes"] = b"x\n"
    if spec.get("stray"):
        files[f"LibriSpeech/{subset}/NOTES.TXT"] = b"notes\n"
    truth["speakers"] = sorted(spks)
    return files, truth


def archive_name(kind, unit):
    return f"cmu_us_{unit}_arctic.tar.bz2" if kind == "cmu" else f"{unit}.tar.gz"


def archive_bytes(kind, files, *, seed=0, dirs=True, order="sorted", dot=False, fmt="gnu", pad=0, streams=0):
    rng = random.Random(f"arch{seed}")
    names = sorted(files)
    if order == "shuffled":
        rng.shuffle(names)
    elif order == "reverse":
        names.reverse()
    elif order == "index_last":
        names.sort(key=lambda x: (x.endswith("txt.done.data") or x.endswith(".trans.txt"), x))
    elif order == "index_first":
        names.sort(key=lambda x: (not (x.endswith("txt.done.data") or x.endswith(".trans.txt")), x))
    raw = io.BytesIO()
    tar = tarfile.open(fileobj=raw, mode="w", format=tarfile.GNU_FORMAT if fmt == "gnu" else tarfile.PAX_FORMAT)
    seen = set()
    cuts = []
    pre = "./" if dot else ""

    def adddir(d):
        if not d or d in seen:
            return
        adddir(os.path.dirname(d))
        seen.add(d)
        ti = tarfile.TarInfo(pre + d)
        ti.type = tarfile.DIRTYPE
        ti.mode = 0o755
        ti.mtime = 1000000000
        tar.addfile(ti)

    for n in names:
        if dirs:
            adddir(os.path.dirname(n))
        ti = tarfile.TarInfo(pre + n)
        ti.size = len(files[n])
        ti.mode = 0o644
        ti.mtime = 1000000000
        tar.addfile(ti, io.BytesIO(files[n]))
        if ti.size > 1:
            cuts.append(raw.tell() - (ti.size + 511) // 512 * 512 + 1)
    tar.close()
    data = raw.getvalue() + bytes(pad)
    if streams:
        # several compressed streams in a row, as parallel compressors write them; each
        # ends inside a member, so that an archive cut after a stream is recognisably short
        cuts = [0, *cuts[::streams], len(data)]
        return b"".join(compress(kind, data[a:b]) for a, b in zip(cuts, cuts[1:]))
    return compress(kind, data)


def compress(kind, raw):
    if kind == "cmu":
        import bz2
        return bz2.compress(raw, 1)
    co = zlib.compressobj(6, zlib.DEFLATED, -15)
    body = co.compress(raw) + co.flush()
    return (b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x02\xff" + body +
            struct.pack("<II", zlib.crc32(raw) & 0xFFFFFFFF, len(raw) & 0xFFFFFFFF))


def install(base, files):
    """Write an extracted copy below `base` (outside the simulation)."""
    for n, b in files.items():
        p = os.path.join(base, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


def tree(base):
    out = {}
    for dp, dns, fns in os.walk(base):
        dns.sort()
        for fn in sorted(fns):
            p = os.path.join(dp, fn)
            rel = os.path.relpath(p, base)
            if os.path.islink(p):
                out[rel] = "link:" + os.readlink(p)
            elif not os.path.isfile(p):
                out[rel] = "special"
            else:
                with open(p, "rb") as f:
                    out[rel] = hashlib.sha256(f.read()).hexdigest()[:16]
    return out
