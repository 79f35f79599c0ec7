"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                    "observe_at": observe or [], "hook_needed": hook},
    })


D = "src/torchrir/datasets/"
G = "src/torchrir/geometry/"
prop("C01", "A corpus that opens is complete and byte-exact",
     "Whenever opening a CMU ARCTIC or LibriSpeech corpus succeeds, every file of the published archive is on disk with "
     "exactly the published bytes, and the listed utterances, texts and audio samples are those of the published corpus. "
     "When acquisition fails for whatever reason, opening raises instead of handing out a partial or altered corpus.",
     ["fault_sequences", "crash_points", "inputs", "histories"],
     "every corpus layout, archive member order and leftover on disk; every network fault, disk fault and crash point during "
     "download, extraction and reading, and every later open",
     "The dataset tests use an already extracted tree or a monkeypatched downloader; no test fails a read, cuts a download, "
     "corrupts an archive or kills the process during extraction.",
     [D + "_archive.py", D + "cmu_arctic.py", D + "librispeech.py", "src/torchrir/io/audio.py"],
     [("download to .part then rename", D + "_archive.py:download_with_progress"),
      ("integrity drain and staged publication", D + "_archive.py:extract_dataset"),
      ("re-download on a corrupt archive", D + "cmu_arctic.py:CmuArcticDataset.__init__")],
     ["dataset constructor", "available_sentences()", "load_audio()", "files under the corpus root"],
     [("dataset directory", "its existence means complete", D + "cmu_arctic.py:dataset_dir"),
      ("archive file", "its existence means fully downloaded", D + "cmu_arctic.py:archive path")])

prop("C02", "An interrupted acquisition heals itself in one clean retry",
     "After any sequence of failed, crashed or cancelled acquisitions, and whatever they left on disk, the next open that "
     "runs without faults succeeds and serves the published corpus, without manual clean-up. One open makes at most a small "
     "bounded number of requests per archive, and never requests an archive when a usable local copy exists.",
     ["fault_sequences", "crash_points", "histories"],
     "every history of up to three faulty opens (network, disk, crash) over every starting state of the corpus root, "
     "followed by one clean open",
     "No test reopens a corpus after a crash or a failed download; recovery needs histories of several processes.",
     [D + "_archive.py", D + "cmu_arctic.py", D + "librispeech.py"],
     [("stale .part and archive handling", D + "_archive.py:download_with_progress"),
      ("retry loop", D + "cmu_arctic.py:_download_and_extract"), ("retry loop", D + "librispeech.py:_download_and_extract")],
     ["dataset constructor", "requests seen by the archive server"])

prop("C03", "Concurrent openers of one corpus root never corrupt each other",
     "Any number of processes opening the same or different corpora under one root at once, some of which may be killed, "
     "never make a surviving process open a partial or mixed corpus or fail because of the others; and as long as nothing "
     "fails, no archive is transferred twice. When all activity stops, every corpus that opened is complete.",
     ["schedules", "crash_points", "fault_sequences"],
     "every interleaving of the file-system and network operations of 2-4 processes, with crashes at arbitrary operations",
     "The test suite is single-process; it has no schedule to quantify over.",
     [D + "_archive.py", D + "cmu_arctic.py", D + "librispeech.py"],
     [("per-archive lock", D + "_archive.py:exclusive_lock"), ("atomic publication by rename", D + "_archive.py:extract_dataset")],
     ["dataset constructors in several processes", "files under the corpus root"])

prop("C04", "A hostile or damaged archive cannot escape the corpus root",
     "Whatever bytes an archive contains, acquisition writes, links, changes or deletes nothing outside the corpus root, "
     "never follows a planted link out of it, and never alters the other corpora kept under the same root. "
     "Corpus content is accepted only from an archive whose integrity checks pass; otherwise opening raises.",
     ["inputs", "fault_sequences"],
     "archives with traversal names, absolute names, symbolic and hard links, devices, duplicate and out-of-order members, "
     "truncation and bit flips, for both corpora and both tar dialects, over earlier content of the root",
     "Tests cover a few hand-made traversal members; link chains, member orders and flips are not enumerated.",
     [D + "_archive.py"],
     [("member vetting", D + "_archive.py:safe_extractall"), ("staging", D + "_archive.py:extract_dataset")],
     ["every mutating file-system call made while opening"])

prop("C05", "Without download permission nothing is fetched, written or assumed",
     "With downloading disabled, opening a corpus makes no network request and modifies nothing on disk; it opens exactly "
     "when the corpus is present and otherwise raises an error naming what is missing. A corpus already present is served "
     "without network access, also from a read-only file system.",
     ["configurations", "histories", "fault_sequences"],
     "every presence state of archive, partial download, staged and extracted data, read-only media, both corpora, with the "
     "network up or down",
     "Tests check one missing-directory error; none observes network or disk effects across leftover states.",
     [D + "cmu_arctic.py", D + "librispeech.py"],
     [("presence check before download", D + "cmu_arctic.py:CmuArcticDataset.__init__"),
      ("presence check before download", D + "librispeech.py:LibriSpeechDataset.__init__")],
     ["network and file-system operations of the opening process"])

prop("C06", "The utterance index does not depend on the machine or the run",
     "For one corpus content, the list of utterances, their order, texts, speakers and audio is the same in every process, "
     "on every machine and every time it is asked for, whatever order the file system lists directories in and whatever the "
     "hash seed, locale, file mode mask or spelling of the corpus path. It names exactly the utterances that have audio, and iterating items follows the same order.",
     ["inputs", "schedules", "configurations"],
     "every directory listing order, hash seed, locale, umask, path spelling, corpus layout with missing, blank or stray files",
     "On one machine the listing order is always the same, so a test cannot see a dependence on it.",
     [D + "cmu_arctic.py", D + "librispeech.py", D + "base.py"],
     [("sorted traversal", D + "librispeech.py:available_sentences"), ("prompt-file order", D + "cmu_arctic.py:sentences")],
     ["available_sentences()", "__len__/__getitem__", "list_speakers()"])

prop("C07", "Assembled source signals are reproducible and drawn from the corpus",
     "For a given seed and corpus content, the chosen speakers, utterances and samples of the assembled sources are identical "
     "in every run, process and machine; each source has exactly the requested length, belongs to one speaker, sources have "
     "distinct speakers where the corpus has enough, and each is the concatenation of the named utterances in order. "
     "If a read fails, the call raises; it always terminates, also for corpora with empty recordings. "
     "Assembling changes nothing in the data sets it reads from.",
     ["inputs", "fault_sequences", "configurations"],
     "all seeds, corpus contents (including empty and very short recordings), listing orders, hash seeds and read faults",
     "Tests use one tiny fixed corpus and one seed in one process without read errors.",
     [D + "utils.py", D + "base.py"],
     [("seeded choice and concatenation", D + "utils.py:load_dataset_sources"),
      ("fixed-length loop", D + "utils.py:_load_fixed_length")],
     ["load_dataset_sources()"])

B = D + "dynamic_cmu_arctic.py"
prop("C08", "An existing dataset is destroyed only by an allowed, startable build",
     "A build without overwrite permission never changes or deletes anything that already exists at the destination, even "
     "when several builds start at once; at most one of them writes there and the others raise. With overwrite permission, "
     "the old dataset is removed only once the build has accepted its arguments, speakers and corpus and begins its first "
     "scene, and nothing outside the destination is ever written or deleted.",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "all pre-existing contents of the destination, all ways a build can be refused, concurrent builders, faults and crashes",
     "Tests check one FileExistsError and one overwrite; no test has a corpus problem or a concurrent builder at the "
     "moment of deletion.",
     [B], [("existence check, deletion and creation", B + ":build_dynamic_cmu_arctic_dataset")],
     ["file tree under and around dataset_root", "exception of the build"])

prop("C09", "A dataset build is a function of its arguments, seed and corpus",
     "Two builds with the same arguments, seed and corpus content produce byte-identical audio and metadata, whatever the "
     "hash seed, directory listing order, locale, spelling of the paths, process state, other activity in the process, concurrent builds elsewhere, or "
     "earlier crashed builds. Rendering options do not change any audio or metadata byte, and building fewer scenes yields a "
     "prefix of building more.",
     ["inputs", "schedules", "crash_points", "configurations"],
     "all small build configurations and seeds, listing orders, hash seeds, preceding crashes, interleavings with a second "
     "build, global random state",
     "The reproducibility of builds across processes, machines and crash histories is not something one test process varies.",
     [B, "src/torchrir/sim/ism/api.py", "src/torchrir/signal/dynamic.py"],
     [("seeded generators", B + ":build_dynamic_cmu_arctic_dataset")], ["files under dataset_root"])

prop("C10", "A finished scene is whole and consistent; a failed write is reported",
     "A build that returns has written for every scene all stems, the mixture, the metadata and the source list, each "
     "readable and complete, with the mixture equal to the sum of the stems, lengths and rate matching the metadata, and the "
     "metadata describing the very audio written. If any of these writes or a corpus read fails, the build raises; and a scene "
     "whose source list parses was written completely before any crash or failure.",
     ["fault_sequences", "crash_points", "inputs"],
     "every disk fault, short write, full disk and crash point during a build, over small configurations",
     "Tests run one successful build and never fail a write.",
     [B, "src/torchrir/io/metadata.py", "src/torchrir/io/outputs.py"],
     [("write order within a scene", B + ":build_dynamic_cmu_arctic_dataset"),
      ("metadata writer", "src/torchrir/io/metadata.py:save_metadata_json")], ["files under dataset_root", "exception of the build"])

V = "src/torchrir/viz/"
prop("C11", "Rendering problems never cost the user audio or metadata",
     "Whatever goes wrong while drawing layout images, plots, GIFs or videos (missing or failing encoder, full disk, broken "
     "pipe, unwritable target, plotting error), the build completes and its audio and metadata are exactly those of a build "
     "without rendering. Each skipped rendering is reported in the log, and a rendering that is reported as saved exists and "
     "is complete.",
     ["fault_sequences", "configurations"],
     "every rendering operation failing in every way the encoder, the disk and the plotting library can fail, for all "
     "combinations of rendering options",
     "Tests stub the renderer or have no encoder; no test injects failures into individual rendering operations.",
     [V + "io.py", V + "animation.py", V + "utils.py", B],
     [("exception barrier with warning", V + "io.py:save_scene_videos"), ("exception barrier with warning", V + "io.py:save_scene_layout_images")],
     ["files under dataset_root", "log records"])

prop("C12", "Adding sound to a video is all-or-nothing and leaves nothing behind",
     "After adding the audio track to a video, the video file is either the untouched silent video or the complete video with "
     "sound, never missing or partial, whatever the encoder, the disk or a crash does. Temporary files are gone whenever the "
     "call returns or raises, the mixture is never altered, and rendering calls leave no open figure behind, whether they "
     "succeed or fail.",
     ["fault_sequences", "crash_points"],
     "every failure of the encoder and of each file operation, and every crash point, during rendering and muxing",
     "Tests stub subprocess.run with success; failures between the temporary files and the rename are never exercised.",
     [V + "animation.py", V + "utils.py"],
     [("mux to temporary then replace", V + "animation.py:_add_stereo_audio_to_mp4"), ("figure close", V + "utils.py:_save_axes")],
     ["files next to the video", "open matplotlib figures"])

S = "src/torchrir/sim/ism/"
prop("C13", "Library calls do not influence one another",
     "Each simulation, convolution, geometry, acoustics, array, conversion, metadata or audio-file call returns, bit for bit, what the same call returns alone in a fresh process, "
     "no matter which other calls ran before it or run at the same time in other threads, with whatever sizes, precisions and "
     "configurations. No call changes its inputs, and no later call changes a result already returned.",
     ["schedules", "histories", "programs"],
     "all interleavings at source-line granularity of 2-4 threads running short random programs of library "
     "calls that share rooms, scenes, configurations and convolvers, and all sequential histories of such calls",
     "Each test runs one call in one thread; module-level caches and shared inputs matter only across calls.",
     [S + "accumulate.py", S + "api.py", S + "contributions.py", S + "hpf.py", "src/torchrir/sim/simulators.py",
      "src/torchrir/signal/dynamic.py", "src/torchrir/signal/static.py"],
     [("immutable module-level caches", S + "accumulate.py:_get_sinc_lut"), ("frozen configuration", "src/torchrir/config.py:SimulationConfig")],
     ["results of simulate_rir, simulate_dynamic_rir, ISMSimulator, convolve_rir, DynamicConvolver"],
     [("fractional-delay caches", "shared constants keyed by length, device and precision", S + "accumulate.py")])

prop("C14", "A failed or interrupted call leaves later calls correct",
     "If a simulation, convolution, image or dataset call is aborted at any point (out of memory, a failing library call, an "
     "interrupt), the exception reaches the caller (or the call recovers and returns its correct result), and every later call in the same process, in any thread, behaves exactly "
     "as in a fresh process. Inputs passed to the aborted call are unchanged.",
     ["crash_points", "histories", "schedules"],
     "an abort at every library operation or source line of a call, followed by random calls sharing the same caches and inputs",
     "No test aborts a call in the middle, so half-updated process state is never observed.",
     [S + "accumulate.py", S + "api.py", "src/torchrir/signal/dynamic.py", V + "utils.py", D + "base.py", "src/torchrir/logging.py"],
     [("caches filled only with finished values", S + "accumulate.py:_get_sinc_lut")], ["results of calls after an abort"])

prop("C15", "A save that returns is on disk and reads back; a load is exact or raises",
     "When saving audio, metadata or attribution returns, the file is complete and reads back as the saved content within the "
     "precision of its format; a save that could not write everything raises. A load returns exactly the file's samples, rate "
     "and format or raises: it never returns silently shortened, zero-filled or altered audio because of an I/O fault. "
     "A query for a file's information states the file's rate, length, channels and format or raises.",
     ["fault_sequences", "inputs"],
     "all formats, shapes, precisions and normalisation options, with short writes, full disks and I/O errors at any operation",
     "Tests round-trip a few files on a healthy disk.",
     ["src/torchrir/io/audio.py", "src/torchrir/io/__init__.py", "src/torchrir/io/metadata.py", "src/torchrir/io/outputs.py"],
     [("soundfile writer", "src/torchrir/io/audio.py:_save_audio"), ("length check", "src/torchrir/io/audio.py:_load_audio_data"),
      ("metadata writer", "src/torchrir/io/metadata.py:save_metadata_json")],
     ["files written", "values returned by the loaders"])

prop("C16", "Logging set-up is safe to repeat and to race",
     "However often and from however many threads logging is configured, each named logger gets exactly one output handler, "
     "so each message at or above the configured level appears exactly once; and when set-up calls return, the logger has the level and propagation of one of "
     "the calls that finished last. Getting a logger never changes configuration.",
     ["schedules", "histories"],
     "all interleavings at source-line granularity of 2-4 threads configuring, obtaining and using loggers",
     "The test configures logging once in one thread.",
     ["src/torchrir/logging.py"], [("handler installed once", "src/torchrir/logging.py:setup_logging")],
     ["handlers, level and propagation of the logger", "emitted records"])

prop("C17", "Seeded randomness is reproducible and self-contained",
     "Every random choice the library makes comes from the seed or generator it was given: equal seeds give bit-identical "
     "results regardless of global random state, thread interleaving or earlier calls, and different seeds differ. No call "
     "reads, reseeds or advances any global random generator of the process.",
     ["histories", "schedules", "inputs"],
     "all seeds, calls with and without seeds, interleavings of threads that also use the global generators",
     "Tests compare two calls in one state; none observes the global generators or perturbs them between the calls.",
     [S + "diffuse.py", "src/torchrir/geometry/sampling.py", D + "utils.py", B],
     [("private generator", S + "diffuse.py:_apply_diffuse_tail"), ("caller's generator", "src/torchrir/geometry/sampling.py")],
     ["results", "states of the random, numpy and torch global generators"])

prop("C18", "One dataset object can be shared by loader threads",
     "Threads that share one dataset object, or one root through several objects opened at once, and workers given pickled copies, each get exactly the utterance they asked "
     "for, with the right text, speaker, rate and samples, and all see the complete index, from the first access on. "
     "Batches collated from such items hold every sample of each item, padded only beyond its length, in request order.",
     ["schedules", "inputs"],
     "all interleavings at source-line granularity of 2-4 threads indexing, listing and loading, including the first access "
     "that fills caches",
     "Tests access datasets from one thread.",
     [D + "base.py", D + "cmu_arctic.py", D + "librispeech.py", D + "collate.py"],
     [("index cache published whole", D + "base.py:_get_sentences")], ["__getitem__, __len__, available_sentences, load_audio"])

prop("C19", "A scripted scene is a function of its arguments, and whole when it ends",
     "Running one of the shipped programs (static, moving sources, moving microphones, command-line scene, dynamic data set) twice "
     "with the same arguments and corpus writes identical audio and metadata, apart from the recorded options and paths that do "
     "not describe the scene: whatever the machine, listing order, hash seed, locale, random state, plotting, "
     "log level, concurrent or earlier crashed runs, and whether the options come from the command line or from a saved configuration. "
     "A run that ends normally has written every output it announces, complete and consistent with its metadata; whatever "
     "prevents that ends the run with an error. Asking for plots never costs audio or metadata.",
     ["inputs", "fault_sequences", "crash_points", "histories", "configurations"],
     "all programs and small argument sets over both corpora, on disk or downloaded on demand, under disk, network and plotting "
     "faults, crashes, and a clean run after them",
     "No test runs a whole program; the parts are tested with stubs on a healthy machine.",
     ["src/torchrir/io/outputs.py", "src/torchrir/io/metadata.py", D + "utils.py", D + "attribution.py", G + "sampling.py", G + "trajectories.py",
      "src/torchrir/viz/io.py", "src/torchrir/io/audio.py", "examples/cli.py", "examples/build_dynamic_dataset.py"],
     [("output writers that raise", "src/torchrir/io/outputs.py:save_scene_audio"),
      ("sources drawn from the caller's generator", D + "utils.py:load_dataset_sources"),
      ("rendering barrier", "src/torchrir/viz/io.py:save_scene_plots")],
     ["audio and metadata files of a run", "exit of the program", "log"])

NA = "no concurrency, time, I/O, randomness or multi-party behaviour: "
prop("C30", "Static impulse responses obey the image-source model",
     "Each impulse response is the sum over image sources of fractionally delayed impulses with the right delay, attenuation "
     "and reflection coefficients.", ["inputs"], "all rooms, positions and orders",
     "Tests sample a few geometries.", [S + "api.py", S + "images.py", S + "contributions.py"], [("image model", S + "images.py")])
prop("C31", "A dynamic response equals the stack of its static responses",
     "For every trajectory, the response at each step equals the static response at that step's positions.",
     ["inputs"], "all rooms and trajectories", "Tests sample one trajectory.", [S + "api.py"], [("time batch", S + "contributions.py")])
prop("C32", "Convolution is exact",
     "Static convolution equals direct convolution, and time-varying convolution equals the sum of its segments' convolutions.",
     ["inputs"], "all signals and responses", "Tests sample a few sizes.",
     ["src/torchrir/signal/static.py", "src/torchrir/signal/dynamic.py"], [("FFT convolution", "src/torchrir/signal/static.py")])
prop("C33", "Array geometries and trajectories have the stated shape",
     "Array constructors and trajectory helpers return positions with the stated geometry, centre and spacing; sampled positions lie "
     "inside the room with the margin.", ["inputs"], "all parameters", "Tests sample a few.",
     [G + "arrays.py", G + "trajectories.py", G + "sampling.py"], [("constructors", G + "arrays.py")])
prop("C34", "Room acoustics formulas are consistent",
     "Reverberation time, absorption and reflection coefficients convert into one another consistently.",
     ["inputs"], "all rooms", "Tests sample a few.", ["src/torchrir/util/acoustics.py"], [("formulas", "src/torchrir/util/acoustics.py")])
prop("C35", "Scene and configuration validation accepts exactly the valid inputs",
     "Inconsistent rooms, scenes, devices and configurations are rejected with an error and consistent ones accepted.",
     ["inputs"], "all inputs", "Tests sample a few.", ["src/torchrir/models/scene.py", "src/torchrir/models/room.py", "src/torchrir/config.py", "src/torchrir/util/device.py"],
     [("validators", "src/torchrir/models/scene.py")])
prop("C36", "Scene metadata states the geometry and directions of arrival",
     "Metadata built for a scene lists its room, positions, trajectories, time axis and directions of arrival exactly.",
     ["inputs"], "all scenes", "Tests sample a few.", ["src/torchrir/io/metadata.py"], [("builder", "src/torchrir/io/metadata.py:build_metadata")])
prop("C37", "Attribution text names the corpus and its licence",
     "Attribution for each supported corpus names its source, licence and required attribution.",
     ["inputs"], "both corpora", "Constant tables.", [D + "attribution.py"], [("tables", D + "attribution.py")])

NOT_APPLICABLE = {
    "C30": NA + "one call is a pure numeric function of its arguments, so no schedule or fault decides it (its independence from "
           "history and schedule is C13).",
    "C31": NA + "equality of two pure numeric functions.",
    "C32": NA + "equality of two pure numeric functions.",
    "C33": NA + "pure geometry of the arguments; where the draws come from is decided under C17.",
    "C34": NA + "closed-form formulas.",
    "C35": NA + "pure predicates on the arguments.",
    "C36": NA + "a pure function of the scene; that the file holds it is decided under C10 and C15.",
    "C37": NA + "constant tables; that the file is written is decided under C15.",
}

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
