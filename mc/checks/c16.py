"""C16 MusicXML: the measures, notes, chords and keys of a score file and its label file."""
import itertools
import os
from fractions import Fraction as F

from mc import core, musicxml as X, theory as T
from mc.checks.c08 import level
from mc.core import Raised, call

RULE = ("every short sequence of measure kinds (pickup, metre change, split measure, first/second ending, "
        "shortened last measure), every two-measure line of rests, notes and chords with every tie, next to "
        "every companion part and voice, every written pitch, and every placement of labels is written as "
        "MusicXML (and CSV) and read by the real loader; the reference is the flattened timeline")


def read(c, parts, case, labels=None, keep=None):
    from harmonic_inference.data.piece import get_score_piece_from_music_xml
    base = os.path.join(core.SCRATCH, "x%d_%d" % (os.getpid(), next(COUNT)))
    with open(base + ".xml", "w") as f:
        f.write(X.score(parts))
    csv = None
    if labels is not None:
        csv = base + ".csv"
        with open(csv, "w") as f:
            f.write(labels)
    with core.quiet():
        got = call(get_score_piece_from_music_xml, base + ".xml", csv, name="x")
    os.remove(base + ".xml")
    if csv:
        os.remove(csv)
    c.expect(not isinstance(got, Raised), "reading the score raised %r" % (got,), case)
    return got


COUNT = itertools.count()


class Timeline:
    """Measures [(timesig, length, offset, kept)] of a score, first endings dropped."""

    def __init__(self, measures):
        self.m, at = [], F(0)
        for ts, dur, off, kept in measures:
            if kept:
                self.m.append((len(self.m), ts, at, dur, off))
                at += dur
        self.end = at

    def spot(self, t):
        for mc, ts, at, dur, off in self.m:
            if t < at + dur or mc == len(self.m) - 1:
                return mc, off + t - at

    def level(self, pos):
        return level(pos[1], self.m[pos[0]][1])

    def rows(self):
        return [(mc, ts, at, dur, off, mc + 1 if mc + 1 < len(self.m) else None)
                for mc, ts, at, dur, off in self.m]


def observed_measures(pd, piece):
    df = piece.measures_df
    return [(int(a), b, c, d, e, None if pd.isna(f) else int(f)) for a, b, c, d, e, f in zip(
        df["mc"], df["timesig"], df["start"], df["act_dur"], df["mc_offset"], df["next"])]


SEMI = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}


def expected_note(line, pitch, start, dur):
    letter, alter, octave = pitch
    on, off = line.spot(start), line.spot(start + dur)
    midi = 12 * (octave + 1) + SEMI[letter] + alter
    return (T.tpc(letter, alter), midi // 12 - 1, on, line.level(on), dur, off, line.level(off), "TPC",
            on[1] - line.m[on[0]][4])


def note_fields(n):
    return (int(n.pitch_class), int(n.octave), (int(n.onset[0]), n.onset[1]), int(n.onset_level),
            n.duration, (int(n.offset[0]), n.offset[1]), int(n.offset_level), n.pitch_type.name,
            n.mc_onset)


def check_notes(c, piece, want, case):
    """want: expected notes in any order; simultaneous notes may come in any order."""
    got = call(lambda: [note_fields(n) for n in piece.get_inputs()])
    c.expect(not isinstance(got, Raised), "the notes are not as documented: %r" % (got,), case)
    c.equal(sorted(got), sorted(want), "the notes", case)
    c.equal([g[2] for g in got], sorted(g[2] for g in got), "the notes are in order of time", case)


# ---- measures ------------------------------------------------------------------------------------
def layout_job(c, job):
    import pandas as pd

    first_ts, pickup, kinds, last = job
    c.section("measure layouts")
    ts = first_ts or "4/4"
    full = lambda s: F(int(s.split("/")[0]), int(s.split("/")[1]))  # noqa: E731
    measures, xml = [], []          # (ts, dur, off, kept), xml measure dicts without content

    def add(dur, off, kept=True, new=None, ending=None):
        measures.append((ts, dur, off, kept))
        xml.append(dict(number=len(xml) + (0 if pickup else 1), ts=new, ending=ending, dur=dur))

    new = first_ts
    if pickup:
        add(pickup, full(ts) - pickup, new=new)
        new = None
    for k in kinds:
        if k in ("3/4", "6/8", "2/2"):
            new = k if k != ts else new
            ts = k
            add(full(ts), F(0), new=new)
        elif k == "split":
            add(full(ts) / 2, F(0), new=new)
            add(full(ts) / 2, full(ts) / 2)
        elif k == "endings":
            if new:
                add(full(ts), F(0), new=new)
            add(full(ts), F(0), kept=False, ending=(1, "both"))
            add(full(ts), F(0), ending=(2, "both"))
        elif k == "two endings":
            add(full(ts), F(0), new=new)
            add(full(ts), F(0), kept=False, ending=(1, "start"))
            add(full(ts), F(0), kept=False, ending=(1, "stop"))
            add(full(ts), F(0), ending=(2, "both"))
        else:
            add(full(ts), F(0), new=new)
        new = None
    if last:
        add(full(ts) - (pickup or F(1, 4)), F(0))
    line = Timeline(measures)
    # one note per measure, filling it
    want, t = [], F(0)
    for i, (m, x) in enumerate(zip(measures, xml)):
        p = ("CDEFGAB"[i % 7], 0, 4)
        x["voices"] = [[([p], m[1] * 4, "")]]
        if m[3]:
            want.append((p, t, m[1]))
            t += m[1]
    piece = read(c, [xml], job)
    c.equal(observed_measures(pd, piece), line.rows(), "the measures", job)
    check_notes(c, piece, [expected_note(line, *w) for w in want], job)
    c.state(*map(str, job))
    c.trace([str(x) for x in job], tuple(map(str, line.rows())))


# ---- notes ---------------------------------------------------------------------------------------
A, B, C, D = ("A", 0, 4), ("B", -1, 4), ("C", 0, 5), ("D", 1, 3)
EVENTS = {"-": [], "a": [A], "ab": [A, B], "d": [D], "dc": [D, C]}


def lines(names):
    """Every two-measure (2/4) line: per measure one half or two quarters; every possible tie."""
    bars = [((x, 2),) for x in names] + [((x, 1), (y, 1)) for x in names for y in names]
    for first, second in itertools.product(bars, bars):
        events = list(first) + list(second)
        spots = [i for i in range(len(events) - 1)
                 if events[i][0] == events[i + 1][0] and events[i][0] != "-"]
        for ties in itertools.product((False, True), repeat=len(spots)):
            tied = {i for i, t in zip(spots, ties) if t}
            yield [(x, q, ("s" if i in tied else "") + ("o" if i - 1 in tied else ""))
                   for i, (x, q) in enumerate(events)], len(first)


COMPANIONS = {
    "none": None,
    "same pitch tied": ([("a", 1, ""), ("a", 1, "s"), ("a", 2, "o")], 2),
    "chords tied": ([("ab", 2, "s"), ("ab", 1, "o"), ("a", 1, "")], 1),
    "off the beat": ([("-", F(1, 2), ""), ("ab", F(3, 2), ""), ("a", F(1, 3), ""), ("a", F(1, 3), "s"),
                      ("a", F(4, 3), "o")], 2),
}


def sounding(events, at):
    """[(pitch, start, duration)] in whole notes of a line that starts at `at`."""
    out, t = [], at
    open_ = {}
    for x, q, ties in events:
        d = F(q) / 4
        for p in EVENTS[x]:
            if "o" in ties:
                out[open_[p]][2] += d
            else:
                open_[p] = len(out)
                out.append([p, t, d])
        t += d
    return [tuple(o) for o in out]


def lines_job(c, job):
    mode, comp, pickup, names, part, parts = job
    c.section("lines")
    block = list(lines(names))[part::parts]
    second = COMPANIONS[comp]
    if second and mode == "voice":      # two voices of one part share no pitch
        other = {"-": "-", "a": "d", "ab": "dc"}
        second = ([(other[x], q, t) for x, q, t in second[0]], second[1])
    for i in range(0, len(block), 6):
        chunk = block[i:i + 6]
        ms = [("2/4", F(1, 4), F(1, 4), True)] if pickup else []
        ms += [("2/4", F(1, 2), F(0), True)] * (2 * len(chunk))
        tl = Timeline(ms)
        want, t = [], F(0)
        number = itertools.count(0 if pickup else 1)
        main, other = [], []

        def measure(target, n, voices, first):
            target.append(dict(number=n, ts="2/4" if first else None, voices=voices))

        if pickup:
            n = next(number)
            measure(main, n, [[([C], 1, "")]], True)
            measure(other, n, [[([], 1, "")]], True)
            want.append((C, t, F(1, 4)))
            t += F(1, 4)
        for line, cut in chunk:
            want += sounding(line, t)
            if second:
                want += sounding(second[0], t)
            for k in (0, 1):
                n = next(number)
                ev = [(EVENTS[x], q, s) for x, q, s in (line[:cut] if k == 0 else line[cut:])]
                ev2 = second and [(EVENTS[x], q, s) for x, q, s in (
                    second[0][:second[1]] if k == 0 else second[0][second[1]:])]
                first = not main
                measure(main, n, [ev, ev2] if second and mode == "voice" else [ev], first)
                if second and mode == "part":
                    measure(other, n, [ev2], first)
            t += 1
        case = [mode, comp, pickup, [str(x) for x in chunk]]
        piece = read(c, [main, other] if comp != "none" and mode == "part" else [main], case)
        check_notes(c, piece, [expected_note(tl, *w) for w in want], case)
        for line, _ in chunk:
            c.state(mode, comp, pickup, str(line))
            c.trace([mode, comp, pickup, str(line)], len(want))


def pitch_job(c, job):
    c.section("pitches")
    letter = job
    pitches = [(letter, a, o) for a in range(-2, 3) for o in range(1, 9)]
    main, want = [], []
    tl = Timeline([("4/4", F(1), F(0), True)] * (len(pitches) // 4))
    for i in range(0, len(pitches), 4):
        main.append(dict(number=i // 4 + 1, ts=None if i else "4/4",
                         voices=[[([p], 1, "") for p in pitches[i:i + 4]]]))
        want += [(p, F(i // 4) + F(k, 4), F(1, 4)) for k, p in enumerate(pitches[i:i + 4])]
    piece = read(c, [main], job)
    check_notes(c, piece, [expected_note(tl, *w) for w in want], job)
    for p in pitches:
        c.state(*p)
        c.trace(p, T.tpc(p[0], p[1]))


# ---- labels --------------------------------------------------------------------------------------
# pickup, full, split measure
LAB = [("4/4", F(1, 4), F(3, 4), True), ("4/4", F(1), F(0), True), ("3/4", F(1, 2), F(0), True),
       ("3/4", F(1, 4), F(1, 2), True)]
LAB_NOTES = [(C, F(0), F(1, 4)), (A, F(1, 4), F(1, 2)), (B, F(3, 4), F(1, 2)), (A, F(5, 4), F(1, 2)),
             (C, F(7, 4), F(1, 4))]
# (key, degree, type, inv) -> (root, key tonic, mode, chord type), tonics on the line of fifths
KINDS = {
    "C": (("C", "1", "M", 0), (0, 0, "MAJOR", "MAJOR", 0)),
    "C+": (("C", "1+", "a", 0), (0, 0, "MAJOR", "AUGMENTED", 0)),
    "G/V": (("C", "1/5", "M", 1), (1, 1, "MAJOR", "MAJOR", 1)),
    "a": (("a", "1", "m", 0), (3, 3, "MINOR", "MINOR", 0)),
    "E7": (("a", "5", "D7", 2), (4, 3, "MINOR", "MAJ_MIN7", 2)),
}
SINGLE = {"%s+" % d: (("C", "%s+" % d, "a", 0), (root, 0, "MAJOR", "AUGMENTED", 0))
          for d, root in (("2", 2), ("3", 4), ("4", -1), ("5", 1))}
KINDS.update(SINGLE)
C0 = 15
LOCALS = {"C": (0, "MAJOR"), "a": (3, "MINOR")}


def labels_job(c, job):
    cuts, names, extra = job
    c.section("labels")
    tl = Timeline(LAB)
    xml = []
    for i, (ts, dur, off, _) in enumerate(LAB):
        xml.append(dict(number=i, ts=ts if i in (0, 2) else None, voices=[]))
    xml[0]["voices"] = [[([C], 1, "")]]
    xml[1]["voices"] = [[([A], 2, ""), ([B], 2, "")]]
    xml[2]["voices"] = [[([A], 2, "")]]
    xml[3]["voices"] = [[([C], 1, "")]]
    ends = list(cuts[1:]) + [tl.end]
    rows = []
    if extra == "before":
        rows.append("-4,-2,C,1,M,0")
    if extra == "across":
        rows.append("-1,%s,a,4,m,0" % (cuts[0] * 4 + 1))
    for n, a, b in zip(names, cuts, ends):
        (key, deg, typ, inv), _ = KINDS[n]
        rows.append("%s,%s,%s,%s,%s,%d" % (a * 4, b * 4, key, deg, typ, inv))
        if extra == "empty":
            rows.append("%s,%s,C,4,m,0" % (a * 4, a * 4))
    case = [[str(x) for x in cuts], list(names), extra]
    piece = read(c, [xml], case, "\n".join(rows) + "\n")
    check_notes(c, piece, [expected_note(tl, *n) for n in LAB_NOTES], case)
    want = []
    for n, a, b in zip(names, cuts, ends):
        _, (root, tonic, mode, typ, inv) = KINDS[n]
        on, off = tl.spot(a), tl.spot(b)
        want.append((C0 + root, T.members(typ, C0 + root, "TPC")[inv], C0 + tonic, mode, typ, inv, on,
                     tl.level(on), off, tl.level(off), b - a))
    got = [(int(g.root), int(g.bass), int(g.key_tonic), g.key_mode.name, g.chord_type.name,
            int(g.inversion), g.onset, g.onset_level, g.offset, g.offset_level, g.duration)
           for g in piece.get_chords()]
    c.equal(got, want, "the chords", case)
    ons = [n[1] for n in LAB_NOTES]
    first = [next((i for i, o in enumerate(ons) if o >= a), len(ons) - 1) for a in cuts]
    c.equal([int(x) for x in piece.get_chord_change_indices()], first, "the chord changes", case)
    into = [next((i for i, n in enumerate(LAB_NOTES) if n[1] >= a or n[1] + n[2] > a), len(ons))
            for a in cuts]
    c.equal([(int(a), int(b)) for a, b in piece.get_chord_ranges()],
            list(zip(into, first[1:] + [len(ons)])), "the chord ranges", case)
    keys, at = [], []
    g0 = LOCALS[KINDS[names[0]][0][0]]
    for i, n in enumerate(names):
        (key, _, _, _), (_, tonic, mode, _, _) = KINDS[n]
        k = (C0 + tonic, mode, C0 + LOCALS[key][0], LOCALS[key][1], C0 + g0[0], g0[1])
        if not keys or keys[-1][:2] != k[:2]:
            keys.append(k)
            at.append(i)
    c.equal([(int(k.relative_tonic), k.relative_mode.name, int(k.local_tonic), k.local_mode.name,
              int(k.global_tonic), k.global_mode.name) for k in piece.get_keys()], keys, "the keys", case)
    c.equal([int(x) for x in piece.get_key_change_indices()], at, "the key changes", case)
    c.equal([int(x) for x in piece.get_key_change_input_indices()], [first[i] for i in at],
            "the inputs at which the key changes", case)
    c.state(*map(str, case))
    c.trace(case, tuple(map(str, want)))


def body(c):
    core.setup_imports()
    core.python_csv()
    import harmonic_inference.data.piece  # noqa: F401

    jobs = [(pitch_job, x) for x in "CDEFGAB"]
    kinds = ["full", "3/4", "6/8", "split", "endings", "two endings"]
    depth = (1, 2, 3) if c.thorough else (1, 2)
    for n in depth:
        for ks in itertools.product(kinds, repeat=n):
            for ts in ((None, "4/4", "3/4", "6/8") if c.thorough else ("4/4", "6/8")):
                for pickup in (None, F(1, 4), F(1, 2)):
                    for last in (False, True):
                        if not c.thorough and n == 2 and (pickup == F(1, 2)) != (ts == "6/8"):
                            continue
                        if not pickup and (ks[0] == "split" or ks[0] == "endings" and not ts):
                            continue    # a short first measure is a pickup
                        jobs.append((layout_job, (ts, pickup, ks, last)))
    jobs += [(layout_job, (ts, None, ("full", "full"), False)) for ts in (None, "2/2")]
    for mode, comp, pickup in itertools.product(("part", "voice"), COMPANIONS, (False, True)):
        if comp == "none" and mode == "voice":
            continue
        if not c.thorough and pickup and comp not in ("none", "off the beat"):
            continue
        names = ("-", "a", "ab") if c.thorough or comp == "none" and not pickup else ("a", "ab")
        if not c.thorough and (mode == "voice" or comp == "off the beat"):
            names = ("a",)
        jobs += [(lines_job, (mode, comp, pickup, names, p, 8)) for p in range(8)]
    grid = [F(0), F(1, 4), F(1, 2), F(3, 4), F(5, 4), F(3, 2), F(7, 4)]
    few = ("C", "G/V", "E7")
    for n in (1, 2, 3):
        for cuts in itertools.combinations(grid, n):
            if cuts[0] != 0 and n == 3:
                continue
            wide = c.thorough or n == 1 or cuts in ((F(0), F(3, 4)), (F(0), F(1, 2), F(5, 4)))
            kinds = [x for x in KINDS if n == 1 or x not in SINGLE] if wide and (
                c.thorough or n < 3) else few
            if n > 1 and not wide:
                kinds = few if n == 2 and cuts[0] == 0 else ()
            jobs += [(labels_job, (cuts, names, None)) for names in itertools.product(kinds, repeat=n)]
            if n > 1 and not kinds:
                jobs.append((labels_job, (cuts, ("C", "E7", "C")[:n], None)))
            if cuts[0] == 0:
                jobs += [(labels_job, (cuts, ("C", "E7", "C")[:n], x)) for x in ("before", "across", "empty")]
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    c = core.Check("C16", RULE, {"measures": "<= 2 (thorough 3) kinds after a pickup", "lines": "two 2/4 "
                                 "measures in quarters", "labels": "<= 3 on the note grid"},
                   ["music21 reads the MusicXML file", "ties join whole notes or whole chords; voices of one part tie no common pitch",
                    "octaves are counted as in the score (C4 is middle C)",
                    "measures of one score have distinct numbers"])
    return core.run(c, body)
