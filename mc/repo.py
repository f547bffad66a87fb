"""Handles on the implementation's enums (imported lazily from /repo)."""


def enums():
    from harmonic_inference.data.data_types import ChordType, KeyMode, PitchType

    pts = {"TPC": PitchType.TPC, "MIDI": PitchType.MIDI}
    kinds = {t.name: t for t in ChordType}
    modes = {m.name: m for m in KeyMode}
    return pts, kinds, modes


def real_reduction(red, kinds):
    return {kinds[a]: kinds[b] for a, b in red.items()}
