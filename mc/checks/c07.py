"""C07 note vectors: sounding pitch, layout, chord-relative timing, transposition, decoding."""
from fractions import Fraction as F

from mc import core, repo, theory as T
from mc.core import Raised, call

RULE = ("every pitch x octave of both pitch types, every metrical annotation, every window position "
        "(lowest/highest note, chord-relative onset and duration, gaps to neighbours), every "
        "transposition interval; the reference is an independent layout of the same facts")


def note_vec(np, pt, p, octave, on, off, metrical, gaps, low, high):
    """low/high: (octave, midi number) or None."""
    midi = 12 * octave + (p if pt == "MIDI" else T.tpc_to_midi(p))
    v = [0.0] * T.NUM[pt]
    v[p] = 1.0
    o = [0.0] * 10
    o[octave] = 1.0
    v += o
    for lvl in (on, off):
        x = [0.0] * 4
        x[lvl] = 1.0
        v += x
    v += [float(m) for m in metrical]
    v += [float(g) if g is not None else 0.0 for g in gaps]
    v.append(1.0 if low is not None and low[1] == midi else 0.0)
    ro = [0.0] * 10
    ro[octave - (low[0] if low is not None else 0)] = 1.0
    v += ro
    v.append(midi / 127)
    if low is not None and high is not None:
        span = high[1] - low[1]
        v.append((midi - low[1]) / span if span else 0.0)
    else:
        v.append(0.0)
    return [float(np.float16(x)) for x in v]


def lst(got):
    return got if isinstance(got, Raised) else [float(x) for x in got]


def work(c, job):
    import numpy as np
    import pandas as pd
    from harmonic_inference.data import vector_decoding as vd
    from harmonic_inference.data.note import Note, get_note_vector_length

    PT, CT, KM = repo.enums()
    pt, p = job
    measures = pd.DataFrame({"mc": [0, 1], "timesig": "4/4", "act_dur": [F(1), F(1)],
                             "offset": [F(0), F(0)], "mc_offset": [F(0), F(0)],
                             "next": [1, None]})
    pc = p if pt == "MIDI" else T.tpc_to_midi(p)
    name = T.pname(p, pt)

    def mk(octave, on=0, off=0, dur=F(1, 4), mc_onset=None):
        return Note(p, octave, (0, F(1, 4)), on, dur, (0, F(1, 2)), off, PT[pt], mc_onset=mc_onset)

    for octave in range(10):
        n = mk(octave)
        midi = 12 * octave + pc
        c.section("pitch")
        c.state(pt, p, octave)
        c.equal(call(n.get_midi_note_number), midi, "MIDI number of %s %d" % (name, octave),
                [pt, p, octave])
        c.equal(call(n.get_vector_length), T.NUM[pt] + 36, "note vector length", pt)
        m = call(n.to_pitch_type, PT["MIDI"])
        c.equal(m if isinstance(m, Raised) else (m.pitch_class, m.octave, m.pitch_type, m.onset,
                                                 m.duration, m.offset, m.onset_level, m.offset_level,
                                                 m.get_midi_note_number()),
                (pc, octave, PT["MIDI"], (0, F(1, 4)), F(1, 4), (0, F(1, 2)), 0, 0, midi),
                "note as MIDI", [pt, p, octave])
        t = call(n.to_pitch_type, PT["TPC"])
        c.expect(not isinstance(t, Raised) and T.tpc_to_midi(t.pitch_class) == pc
                 and t.get_midi_note_number() == midi and (pt == "MIDI" or t.pitch_class == p),
                 "note as TPC keeps its sound: %s -> %r" % (name, t), [pt, p, octave])
        c.expect(n == mk(octave) and not (n == mk((octave + 1) % 10)), "note equality", [p, octave])
        c.trace([pt, name, octave, midi], (pt, p, octave))

        c.section("layout")
        for on, off in core.product(range(4), range(4)):
            n = mk(octave, on, off)
            got = call(n.to_vec)
            c.equal(lst(got), note_vec(np, pt, p, octave, on, off, (0, 0, 0), (None, None), None,
                                       None), "note vector", [pt, p, octave, on, off])
            c.state(pt, p, octave, on, off)
            if octave % 3 == on or c.thorough:
                full = call(n.to_vec, (0, F(0)), (1, F(0)), F(1), measures, (octave, midi),
                            (octave + 1, midi + 7), F(1, 4), F(1, 8), F(3, 8))
                for vec, exp in ((got, (0.0, 0.0, 0.0)), (full, (0.25, 0.5, 0.25))):
                    with core.quiet():
                        d = call(vd.decode_note_vector, vec)
                    c.equal(d if isinstance(d, Raised) else
                            (int(d.pitch_class), int(d.octave), int(d.onset_level),
                             int(d.offset_level), d.pitch_type, float(d.onset), float(d.offset),
                             float(d.duration)), (p, octave, on, off, PT[pt]) + exp,
                            "decoded note vector", [pt, p, octave, on, off])
            c.trace([pt, p, octave, on, off])

        c.section("window")
        n = mk(octave, 2, 1)
        lows = [None] + [(o, 12 * o + q) for o in range(max(0, octave - 2), octave + 1)
                         for q in (0, 4, 7, 11) if 12 * o + q <= midi] + [(octave, midi)]
        highs = [None, (octave, midi)] + [(o, 12 * o + 11) for o in range(octave, 10)
                                          if 12 * o + 11 >= midi][:2]
        for low, high in core.product(lows, highs):
            got = call(n.to_vec, min_pitch=low, max_pitch=high)
            c.equal(lst(got), note_vec(np, pt, p, octave, 2, 1, (0, 0, 0), (None, None), low, high),
                    "note vector in a window", [pt, p, octave, low, high])
            c.state(pt, p, octave, low, high)
            c.trace([pt, p, octave, low, high])

    c.section("timing")
    for octave in (4,):
        for dur, cd, start in core.product((F(0), F(1, 16), F(1, 4), F(3, 2)),
                                           (F(0), F(1, 4), F(1), F(5, 2)),
                                           (F(-1, 4), F(0), F(1, 8), F(3, 4))):
            n = mk(octave, 1, 2, dur)
            for gaps in core.product((None, F(0), F(1, 8), F(7, 4)), repeat=2):
                got = call(n.to_vec, chord_onset=(0, F(0)), chord_offset=(1, F(0)),
                           chord_duration=cd, measures_df=measures, note_onset=start,
                           dur_from_prev=gaps[0], dur_to_next=gaps[1])
                met = (1, 1, 1) if cd == 0 else (start / cd, (start + dur) / cd, dur / cd)
                case = [pt, p, str(dur), str(cd), str(start), str(gaps)]
                c.equal(lst(got), note_vec(np, pt, p, octave, 1, 2, met, gaps, None, None),
                        "note vector in a chord", case)
                c.state(*case)
                c.trace(case)
            # without a precomputed onset: the note sits at (0, 1/4)
            for con, coff, length in (((0, F(0)), (1, F(0)), F(1)), ((0, F(1, 4)), (0, F(3, 4)), F(1, 2)),
                                      ((0, F(1, 2)), (1, F(1, 2)), F(1))):
                got = call(n.to_vec, chord_onset=con, chord_offset=coff, chord_duration=length,
                           measures_df=measures)
                at = (F(1, 4) - con[1]) / length
                c.equal(lst(got), note_vec(np, pt, p, octave, 1, 2, (at, at + dur / length,
                                                                     dur / length), (None, None),
                                           None, None), "note vector in a chord range",
                        [pt, p, str(dur), str(con), str(coff)])
                c.trace()
            for missing in ("chord_onset", "chord_offset", "chord_duration", "measures_df"):
                kw = dict(chord_onset=(0, F(0)), chord_offset=(1, F(0)), chord_duration=F(1),
                          measures_df=measures)
                kw[missing] = None
                got = call(n.to_vec, note_onset=F(1, 8), **kw)
                c.equal(lst(got), note_vec(np, pt, p, octave, 1, 2, (0, 0, 0), (None, None), None,
                                           None), "note vector without a chord", [pt, p, missing])

    c.section("transposition")
    for octave in ((0, 4, 9) if not c.thorough else range(10)):
        for lvl in range(4):
            n = mk(octave, lvl, 3 - lvl)
            vec = call(n.to_vec, (0, F(0)), (1, F(0)), F(1), measures, (octave, 12 * octave + pc),
                       (octave, 12 * octave + pc), F(1, 4), 1, 0)
            before = lst(vec)
            for iv in range(-T.NUM[pt] - 12, T.NUM[pt] + 13):
                for given in (True, False):
                    kw = {"pitch_type": PT[pt]} if given else {}
                    got = call(vd.transpose_note_vector, vec, iv, **kw)
                    case = [pt, p, octave, lvl, iv, given]
                    if 0 <= p + iv < T.NUM[pt]:
                        want = list(before)
                        want[p], want[p + iv] = 0.0, 1.0
                        c.equal(lst(got), want, "transposed note vector", case)
                    else:
                        c.raises(got, ValueError, "note transposed out of range", case)
                c.state(pt, p, octave, lvl, iv)
                c.trace(case)
            c.equal(lst(vec), before, "transposition leaves its input alone", [pt, p, octave])
    c.equal(call(get_note_vector_length, PT[pt]), T.NUM[pt] + 36, "note vector length", pt)


def body(c):
    core.setup_imports()
    import harmonic_inference.data.vector_decoding  # noqa: F401

    core.parallel(c, work, [(pt, p) for pt in T.NUM for p in range(T.NUM[pt])])


def main():
    c = core.Check("C07", RULE, {"octaves": "0..9", "levels": "4 x 4", "window": "neighbouring "
                                 "octaves, 4 pitch classes", "intervals": "beyond the whole range"},
                   ["MIDI note numbers of 120 and above (outside the ten octaves of the layout) are "
                    "not explored"])
    return core.run(c, body)
