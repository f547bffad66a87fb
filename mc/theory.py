"""Reference music theory, written from the documented conventions and not from the code.

TPC: position on the line of fifths with C = 15 (35 pitches, Fbb .. B##).  MIDI: pitch class, C = 0.
"""
LETTERS = "FCGDAEB"          # one fifth apart
SEMIS = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
NUM = {"TPC": 35, "MIDI": 12}
C0 = {"TPC": 15, "MIDI": 0}
REL_MIN, REL_MAX, PAD = -14, 15, 5
MIDI_NAMES = ["C", "C#/Db", "D", "D#/Eb", "E", "F", "F#/Gb", "G", "G#/Ab", "A", "A#/Bb", "B"]

# Intervals above the root: (fifths, semitones) for each chord member, stacked thirds
_M3, _m3, _P5, _d5, _A5 = (4, 4), (-3, 3), (1, 7), (-6, 6), (8, 8)
_M7, _m7, _d7 = (5, 11), (-2, 10), (-9, 9)
CHORDS = {
    "MAJOR": [(0, 0), _M3, _P5],
    "MINOR": [(0, 0), _m3, _P5],
    "DIMINISHED": [(0, 0), _m3, _d5],
    "AUGMENTED": [(0, 0), _M3, _A5],
    "MAJ_MAJ7": [(0, 0), _M3, _P5, _M7],
    "MAJ_MIN7": [(0, 0), _M3, _P5, _m7],
    "MIN_MAJ7": [(0, 0), _m3, _P5, _M7],
    "MIN_MIN7": [(0, 0), _m3, _P5, _m7],
    "DIM7": [(0, 0), _m3, _d5, _d7],
    "HALF_DIM7": [(0, 0), _m3, _d5, _m7],
    "AUG_MIN7": [(0, 0), _M3, _A5, _m7],
    "AUG_MAJ7": [(0, 0), _M3, _A5, _M7],
}
TYPES = list(CHORDS)          # in label order
TYPE_STR = {
    "MAJOR": "M", "MINOR": "m", "DIMINISHED": "o", "AUGMENTED": "+", "MAJ_MAJ7": "MM7",
    "MAJ_MIN7": "Mm7", "MIN_MAJ7": "mM7", "MIN_MIN7": "mm7", "DIM7": "o7", "HALF_DIM7": "%7",
    "AUG_MIN7": "+7", "AUG_MAJ7": "+M7",
}
TRIAD_OF = {
    "MAJOR": "MAJOR", "MINOR": "MINOR", "DIMINISHED": "DIMINISHED", "AUGMENTED": "AUGMENTED",
    "MAJ_MAJ7": "MAJOR", "MAJ_MIN7": "MAJOR", "MIN_MAJ7": "MINOR", "MIN_MIN7": "MINOR",
    "DIM7": "DIMINISHED", "HALF_DIM7": "DIMINISHED", "AUG_MIN7": "AUGMENTED",
    "AUG_MAJ7": "AUGMENTED",
}
ROMAN = ["I", "II", "III", "IV", "V", "VI", "VII"]
SCALE = {  # (fifths, semitones) of each degree
    "MAJOR": [(0, 0), (2, 2), (4, 4), (-1, 5), (1, 7), (3, 9), (5, 11)],
    "MINOR": [(0, 0), (2, 2), (-3, 3), (-1, 5), (1, 7), (-4, 8), (-2, 10)],
}
FIGBASS = {"": 0, "7": 0, "6": 1, "65": 1, "64": 2, "43": 2, "2": 3}


def n_members(t):
    return len(CHORDS[t])


def tpc(letter, acc):
    """TPC number of a letter with accidentals (may lie outside [0, 35))."""
    return 14 + LETTERS.index(letter.upper()) + 7 * acc


def midi(letter, acc):
    return (SEMIS[letter.upper()] + acc) % 12


def spell(t):
    """(letter, accidental) of any TPC number."""
    q, r = divmod(t - 14, 7)
    return LETTERS[r], q


def tpc_name(t):
    letter, acc = spell(t)
    return letter + ("#" * acc if acc >= 0 else "b" * -acc)


def pname(p, pt):
    return tpc_name(p) if pt == "TPC" else MIDI_NAMES[p % 12]


def tpc_to_midi(t):
    letter, acc = spell(t)
    return midi(letter, acc)


def transpose(p, i, pt):
    """Transposed pitch or None if it leaves the range."""
    if pt == "MIDI":
        return (p + i) % 12
    return p + i if 0 <= p + i < 35 else None


def members(t, root, pt):
    """Chord pitches in stacked order (unclipped for TPC)."""
    k = 0 if pt == "TPC" else 1
    out = [root + iv[k] for iv in CHORDS[t]]
    return out if pt == "TPC" else [p % 12 for p in out]


def roots(pt, relative, pad):
    if not relative:
        return list(range(NUM[pt]))
    if pt == "MIDI":
        return list(range(12))
    ext = PAD if pad else 0
    return list(range(REL_MIN - ext, REL_MAX + ext))


def labels(pt, inv, relative, pad, reduction):
    """All chord labels (root, type, inversion) in label order."""
    kinds = [t for t in TYPES if t in set(reduction.values())]
    return [
        (r, t, i)
        for t in kinds
        for r in roots(pt, relative, pad)
        for i in (range(n_members(t)) if inv else [0])
    ]


def key_labels(pt, relative):
    tonics = list(range(NUM[pt])) if not (relative and pt == "TPC") else list(range(REL_MIN, REL_MAX))
    return [(t, m) for m in ("MAJOR", "MINOR") for t in tonics]


def identity():
    return {t: t for t in TYPES}


def reductions(full=False):
    """Named family of chord-type reductions: identity, triads, all single merges, constants."""
    out = [("none", identity()), ("triad", dict(TRIAD_OF)),
           ("one", {t: "MAJOR" for t in TYPES})]
    for t in TYPES[1:]:
        out.append(("const-" + t, {x: t for x in TYPES}))
    shift = identity()
    for i, t in enumerate(TYPES):
        shift[t] = TYPES[(i + 5) % len(TYPES)]
    out.append(("shift", shift))
    if full:
        for a in TYPES:
            for b in TYPES:
                if a != b:
                    red = identity()
                    red[a] = b
                    out.append(("%s->%s" % (a, b), red))
    else:
        for a, b in [("MAJ_MIN7", "MAJOR"), ("DIM7", "HALF_DIM7"), ("MINOR", "AUG_MAJ7"),
                     ("AUG_MAJ7", "MINOR")]:
            red = identity()
            red[a] = b
            out.append(("%s->%s" % (a, b), red))
    return out
