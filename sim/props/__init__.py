"""Registry of the simulated properties."""
from __future__ import annotations

import importlib

REGISTRY = {
    "C01": ("corpus", "Complete"),
    "C02": ("corpus", "Recovery"),
    "C03": ("corpus", "Concurrent"),
    "C04": ("corpus", "Hostile"),
    "C05": ("corpus", "Offline"),
    "C06": ("corpus", "Index"),
    "C07": ("corpus", "Assemble"),
    "C08": ("builder", "Overwrite"),
    "C09": ("builder", "Reproducible"),
    "C10": ("builder", "Commit"),
    "C11": ("render", "Isolated"),
    "C12": ("render", "MuxAtomic"),
    "C13": ("threads", "Independent"),
    "C14": ("threads", "AbortSafe"),
    "C15": ("files", "Files"),
    "C16": ("logs", "SetupRace"),
    "C17": ("threads", "Seeded"),
    "C18": ("threads", "Shared"),
    "C19": ("pipeline", "Programs"),
}


def meta(pid):
    mod, cls = REGISTRY[pid]
    m = importlib.import_module("sim.props." + mod)
    return getattr(m, cls).META
