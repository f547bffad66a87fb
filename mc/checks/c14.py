"""C14 pieces: chords, keys, changes, ranges, gaps and classifier inputs of a loaded score."""
import itertools
from fractions import Fraction as F

from mc import core, corpus, repo, theory as T
from mc.checks.c07 import note_vec
from mc.checks.c08 import level
from mc.core import Raised, call

RULE = ("every sequence of annotation rows (chord x key, unreadable rows) up to a length, under every "
        "loading option, and every placement of notes and chords on a small mixed-metre grid is loaded "
        "into a real piece; a plain merge of the rows and a timeline model give chords, keys, change "
        "positions, ranges, gaps and classifier inputs")

# pickup, full measure, split measure
LAYOUT = [(0, "4/4", F(1, 4), F(3, 4)), (1, "4/4", F(1), F(0)), (2, "3/4", F(1, 2), F(0)),
          (3, "3/4", F(1, 4), F(1, 2))]
TOTAL = F(2)

# (localkey, minor?, relativeroot, numeral, root above the local tonic, type, figbass, changes)
ROWS = {
    "C": ("I", False, None, "I", 0, "M", None, None),
    "C6": ("I", False, None, "I", 0, "M", "6", None),
    "C4": ("I", False, None, "I", 0, "M", None, "4"),
    "C7": ("I", False, None, "I", 0, "Mm7", None, None),
    "G": ("I", False, None, "V", 1, "M", None, None),
    "G/V": ("I", False, "V", "I", 1, "M", None, None),
    "D/V": ("I", False, "V", "V", 2, "M", None, None),
    "Gloc": ("V", False, None, "I", 0, "M", None, None),
    "Dloc": ("V", False, None, "V", 1, "M", None, None),
    "E/vi": ("I", False, "vi", "V", 4, "M", None, None),
    "a": ("vi", True, None, "i", 0, "m", None, None),
    "none": ("I", False, None, None, 0, "M", None, None),
}
C0 = 15
KIND = {"M": "MAJOR", "m": "MINOR", "Mm7": "MAJ_MIN7"}


def spot(t):
    """Absolute time -> (mc, beat)."""
    at = F(0)
    for i, (mc, ts, dur, off) in enumerate(LAYOUT):
        if t < at + dur or i == len(LAYOUT) - 1:
            return mc, off + t - at
        at += dur


def ts_of(mc):
    return LAYOUT[mc][1]


def measures(pd):
    df = pd.DataFrame({"mc": [m[0] for m in LAYOUT], "timesig": [m[1] for m in LAYOUT],
                       "act_dur": [m[2] for m in LAYOUT], "mc_offset": [m[3] for m in LAYOUT],
                       "next": pd.Series([1, 2, 3, None], dtype=object)})
    return df


def notes_df(pd, notes):
    """notes: [(start, duration, midi, tpc)]."""
    rows = []
    for s, d, midi, tpc in notes:
        mc, beat = spot(s)
        omc, obeat = spot(s + d)
        rows.append({"mc": mc, "mn_onset": beat, "mc_onset": beat - LAYOUT[mc][3], "midi": midi,
                     "tpc": tpc, "offset_mc": omc, "offset_beat": obeat, "duration": d})
    return pd.DataFrame(rows)


def chords_df(pd, rows):
    """rows: [(name, start, end)]."""
    out = []
    for name, s, e in rows:
        loc, minor, rel, num, root, kind, fig, changes = ROWS[name]
        mc, beat = spot(s)
        nmc, nbeat = spot(e)
        out.append({"globalkey": "C", "globalkey_is_minor": False, "localkey": loc,
                    "localkey_is_minor": minor, "relativeroot": rel, "numeral": num, "root": root,
                    "chord_type": kind, "figbass": fig, "changes": changes, "mc": mc, "mn_onset": beat,
                    "mc_next": nmc, "mn_onset_next": nbeat, "duration": e - s})
    df = pd.DataFrame(out)
    for col in ("relativeroot", "numeral", "figbass", "changes"):
        df[col] = df[col].astype(object)
    return df


APPLIED = {"V": (1, "MAJOR"), "vi": (3, "MINOR")}
LOCAL = {"I": (C0, "MAJOR"), "V": (C0 + 1, "MAJOR"), "vi": (C0 + 3, "MINOR")}


def expect_rows(rows, red, inv, use_rel, susp):
    """The chords and keys these rows describe: merged repeats, first key of each merged group."""
    chords, keys, key_at = [], [], []
    for name, s, e in rows:
        loc, minor, rel, num, root, kind, fig, changes = ROWS[name]
        if num is None:
            continue
        lt, lm = LOCAL[loc]
        rt, rm = (lt + APPLIED[rel][0], APPLIED[rel][1]) if rel else (lt, lm)
        typ = red[KIND[kind]]
        i = 1 if fig == "6" and inv else 0
        kt, km = (rt, rm) if use_rel else (lt, lm)
        ch = dict(root=lt + root, type=typ, inv=i, susp=changes, key=(kt, km), on=s, off=e, dur=e - s)
        if chords:
            p = chords[-1]
            if (p["root"], p["type"], p["inv"]) == (ch["root"], ch["type"], i) and (
                    not susp or p["last_susp"] == changes):
                p["off"], p["last_susp"] = e, changes
                p["dur"] += e - s
                continue
        ch["last_susp"] = changes
        if not keys or keys[-1][:2] != ch["key"]:
            keys.append((kt, km, lt, lm))
            key_at.append(len(chords))
        chords.append(ch)
    return chords, keys, key_at


def compare(c, piece, notes, rows, red, inv, use_rel, susp, case):
    """Everything the piece says about itself."""
    want, keys, key_at = expect_rows(rows, red, inv, use_rel, susp)
    got = list(piece.get_chords())
    bass = [T.members(w["type"], w["root"], "TPC")[w["inv"]] for w in want]
    fields = [(w["root"], b, w["key"][0], w["key"][1], w["type"], w["inv"], spot(w["on"]),
               level(spot(w["on"])[1], ts_of(spot(w["on"])[0])), spot(w["off"]),
               level(spot(w["off"])[1], ts_of(spot(w["off"])[0])), w["dur"], w["susp"])
              for w, b in zip(want, bass)]
    c.equal([(g.root, g.bass, g.key_tonic, g.key_mode.name, g.chord_type.name, g.inversion, g.onset,
              g.onset_level, g.offset, g.offset_level, g.duration, g.suspension) for g in got], fields,
            "the chords of the piece", case)
    ons = [n[0] for n in notes]
    first_at = [next((i for i, o in enumerate(ons) if o >= w["on"]), len(ons) - 1) for w in want]
    c.equal([int(x) for x in piece.get_chord_change_indices()], first_at, "the chord changes", case)
    sounding = [next((i for i, n in enumerate(notes) if n[0] >= w["on"] or n[0] + n[1] > w["on"]),
                     len(notes)) for w in want]
    ranges = list(zip(sounding, first_at[1:] + [len(notes)]))
    c.equal([(int(a), int(b)) for a, b in piece.get_chord_ranges()], ranges, "the chord ranges", case)
    c.equal([(k.relative_tonic, k.relative_mode.name, k.local_tonic, k.local_mode.name, k.global_tonic,
              k.global_mode.name) for k in piece.get_keys()],
            [k + (C0, "MAJOR") for k in keys], "the keys of the piece", case)
    c.equal([int(x) for x in piece.get_key_change_indices()], key_at, "the key changes", case)
    c.equal([int(x) for x in piece.get_key_change_input_indices()], [first_at[i] for i in key_at],
            "the inputs at which the key changes", case)
    return want, first_at, ranges


NOTES4 = [(F(0), F(1, 4), 60, 0), (F(1, 4), F(1, 2), 64, 4), (F(3, 4), F(1, 2), 67, 1),
          (F(5, 4), F(3, 4), 72, 0)]
CUTS = [F(0), F(1, 4), F(3, 4), F(5, 4), F(7, 4), TOTAL]


def rows_job(c, job):
    import pandas as pd
    from harmonic_inference.data.piece import get_score_piece_from_data_frames

    PT, CT, KM = repo.enums()
    first, n, names = job
    c.section("annotations")
    red_all = dict(T.reductions())
    mdf, ndf = measures(pd), notes_df(pd, NOTES4)
    for rest in itertools.product(names, repeat=n - 1):
        seq = (first,) + rest
        if all(x == "none" for x in seq):
            continue
        cuts = CUTS[:n] + [TOTAL]
        rows = [(x, a, b) for x, a, b in zip(seq, cuts, cuts[1:])]
        cdf = chords_df(pd, rows)
        opts = list(itertools.product(("none", "triad"), (True, False), (True, False), (True, False)))
        if not c.thorough and n > 2:
            opts = [("none", True, True, False), ("triad", False, True, True), ("none", True, False, False),
                    ("triad", True, False, True)]
        for red_name, inv, use_rel, susp in opts:
            red = red_all[red_name]
            case = [list(seq), red_name, "inversions" if inv else "", "applied keys" if use_rel else "",
                    "suspensions" if susp else ""]
            piece = call(get_score_piece_from_data_frames, ndf, cdf, mdf,
                         chord_reduction=repo.real_reduction(red, CT), use_inversions=inv,
                         use_relative=use_rel, name="x", use_suspensions=susp)
            c.expect(not isinstance(piece, Raised), "loading the piece raised %r" % (piece,), case)
            want, _, _ = compare(c, piece, NOTES4, rows, red, inv, use_rel, susp, case)
            c.state(*map(str, case))
            c.trace(case + [len(want)], (red_name, tuple((w["root"], w["type"], w["inv"]) for w in want)))


GRID = [F(0), F(1, 8), F(1, 4), F(1, 2), F(1), F(5, 4), F(3, 2), F(7, 4)]


def rhythm_job(c, job):
    import numpy as np
    import pandas as pd
    from harmonic_inference.data.piece import get_score_piece_from_data_frames

    onsets, chord_sets = job
    c.section("rhythms")
    mdf = measures(pd)
    ident = T.identity()
    for lens in itertools.product((F(1, 8), F(1)), repeat=len(onsets)):
        notes = [(o, min(d, TOTAL - o), 60 + (7 * i) % 24, (0, 1, 2, 3, 4, 5)[(7 * i) % 5])
                 for i, (o, d) in enumerate(zip(onsets, lens))]
        notes = [(o, d, 60 + PITCHES[i][0], PITCHES[i][1]) for i, (o, d, _, _) in enumerate(notes)]
        ndf = notes_df(pd, notes)
        for starts in chord_sets:
            names = ["C", "G", "a", "C7"]
            rows = [(names[i], a, b) for i, (a, b) in enumerate(zip(starts, list(starts[1:]) + [TOTAL]))]
            case = [[str(o) for o in onsets], [str(x) for x in lens], [str(s) for s in starts]]
            piece = call(get_score_piece_from_data_frames, ndf, chords_df(pd, rows), mdf)
            c.expect(not isinstance(piece, Raised), "loading the piece raised %r" % (piece,), case)
            want, changes, ranges = compare(c, piece, notes, rows, ident, True, True, False, case)
            inputs(c, np, piece, notes, want, changes, ranges, case)
            within(c, piece, want, changes, len(notes), case)
            c.state(*map(str, case))
            c.trace(case, tuple(ranges))
        # without annotations
        case = [[str(o) for o in onsets], [str(x) for x in lens], "no labels"]
        piece = call(get_score_piece_from_data_frames, ndf, None, mdf, name="plain")
        c.expect(not isinstance(piece, Raised), "loading the piece raised %r" % (piece,), case)
        end = max(o + d for o, d, _, _ in notes)
        ons = [o for o, _, _, _ in notes]
        c.equal([x for x in piece.get_duration_cache()], [b - a for a, b in zip(ons, ons[1:] + [end])],
                "time from each note to the next", case)
        c.equal([piece.get_chords(), piece.get_keys(), piece.get_chord_change_indices(),
                 piece.get_chord_ranges(), piece.get_key_change_input_indices(), piece.name],
                [None] * 5 + ["plain"], "a piece without labels", case)
        c.equal(piece.get_chords_within_range(0, 1), [], "chords of a piece without labels", case)
        spans = [(a, b) for a in range(len(notes)) for b in range(a + 1, len(notes) + 1)
                 if (ons[b] if b < len(notes) else end) > ons[a]]
        c20 = [dict(on=ons[a], off=ons[b] if b < len(notes) else end) for a, b in spans]
        for w in c20:
            w["dur"] = w["off"] - w["on"]
        starts = [next(i for i, n in enumerate(notes) if n[0] >= w["on"] or n[0] + n[1] > w["on"])
                  for w in c20]
        rr = [(s, b) for s, (a, b) in zip(starts, spans)]
        inputs(c, np, piece, notes, c20, [a for a, _ in spans], rr, case, end=end, given=True)
        c.state(*map(str, case))
        c.trace(case)


# distinct spelling, octaves and unisons
PITCHES = [(0, 0), (-10, 2), (7, 1), (0, 0), (-12, 12), (16, 4)]


def inputs(c, np, piece, notes, want, changes, ranges, case, end=TOTAL, given=False):
    ons = [o for o, _, _, _ in notes]
    gaps = [b - a for a, b in zip(ons, ons[1:] + [end])]
    c.equal([x for x in piece.get_duration_cache()], gaps, "time from each note to the next", case)
    for window in (2, 0, 1, 3) if c.thorough else (2, 0, 3):
        kw = dict(ranges=ranges, change_indices=changes) if given else {}
        if window == 0 and any(b <= a for a, b in ranges):
            continue                       # nothing to show at all
        if window != 2:
            kw["window"] = window
        got = call(piece.get_chord_note_inputs, **kw)
        c.step()
        c.expect(not isinstance(got, Raised), "classifier inputs raised %r" % (got,), case)
        c.expect(len(got) == len(want), "one classifier input per chord", case)
        for w, (a, b), g in zip(want, ranges, got):
            lo, hi = a - window, b + window
            idx = [i for i in range(lo, hi) if 0 <= i < len(notes)]
            pcs = [(notes[i][2] // 12, 12 * (notes[i][2] // 12) + notes[i][2] % 12) for i in idx]
            low, high = min(pcs), max(pcs)
            exp = []
            for i in range(lo, hi):
                if not 0 <= i < len(notes):
                    exp.append([0.0] * (35 + 36))
                    continue
                o, d, midi, tpc = notes[i]
                on, off = spot(o), spot(o + d)
                met = ((o - w["on"]) / w["dur"], (o + d - w["on"]) / w["dur"], d / w["dur"])
                exp.append(note_vec(np, "TPC", tpc + C0, midi // 12, level(on[1], ts_of(on[0])),
                                    level(off[1], ts_of(off[0])), met,
                                    (gaps[i - 1] if i else None, gaps[i]), low, high))
            c.step()
            if core.same([[float(x) for x in r] for r in g], exp):
                continue
            g = [[float(x) for x in r] for r in g]
            bad = [i for i, (x, y) in enumerate(zip(g, exp)) if x != y]
            ok = len(g) == len(exp) and all(
                all(abs(x - y) <= 2e-3 * max(1, abs(y)) for x, y in zip(g[i], exp[i])) for i in bad)
            c.expect(ok, lambda: "classifier input of chord at %s, window %d: got %r, expected %r"
                     % (w["on"], window, g, exp), case)


def within(c, piece, want, changes, n, case):
    if len(set(changes)) != len(changes):
        return
    bounds = changes + [n]
    ids = {id(x): i for i, x in enumerate(piece.get_chords())}
    for a in range(n):
        for b in list(range(a + 1, n + 1)) + [None]:
            hi = n if b is None else b
            exp = [i for i in range(len(want)) if bounds[i] < hi and bounds[i + 1] > a]
            kw = {} if b is None else {"stop": b}
            got = call(piece.get_chords_within_range, a, **kw)
            c.equal(got if isinstance(got, Raised) else [ids[id(x)] for x in got], exp,
                    "chords sounding within inputs %d-%s" % (a, b), case)


def body(c):
    core.setup_imports()
    import harmonic_inference.data.piece  # noqa: F401

    jobs = []
    names = list(ROWS)
    for n in (1, 2, 3) + ((4,) if c.thorough else ()):
        sub = names if n < 3 or c.thorough and n < 4 else ["C", "C6", "G", "G/V", "Gloc", "D/V", "none"]
        for first in sub:
            jobs.append((rows_job, (first, n, sub)))
    k = 4 if c.thorough else 3
    grid = GRID if c.thorough else [GRID[0], GRID[1], GRID[4], GRID[6], GRID[7]]
    chord_grid = [F(0), F(1, 8), F(1, 4), F(1), F(3, 2)] if c.thorough else [F(0), F(1, 8), F(1), F(3, 2)]
    sets = [s for r in ((1, 2, 3) if c.thorough else (1, 2)) for s in itertools.combinations(chord_grid, r)]
    for n in range(1, k + 1):
        for onsets in itertools.combinations_with_replacement(grid, n):
            jobs.append((rhythm_job, (onsets, sets)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    c = core.Check("C14", RULE, {
        "annotations": "sequences of 1-3 (4) rows over 12 (7) chord/key combinations, all loading options",
        "rhythms": "1-3 (4) notes on a 5 (8) position grid x 2 lengths, 1-2 (3) chords at every choice of 4 (5) "
                   "positions", "windows": "0, 2, 3 (1) neighbouring notes"},
        ["annotated chords tile the piece from the first one to its end"])
    return core.run(c, body)
