"""C08 parsing annotated rows: corpus TSV rows and label CSV rows to keys, chords and notes."""
from collections import defaultdict
from fractions import Fraction as F

from mc import core, repo, theory as T
from mc.checks.c05 import degree_interval
from mc.core import Raised, call

RULE = ("every global key x local key x applied root; every root interval x chord type x figured bass x "
        "reduction x inversion/applied-key switch; every row position on a mixed-meter measure grid "
        "with and without a shared level cache; every csv key x degree x type x inversion; every MIDI/"
        "TPC note row; the reference is spelling arithmetic")

# mixed metre, a pickup (mc 0) and a split measure (mc 3, 4)
MEAS = [(0, "4/4", F(1, 4), F(3, 4)), (1, "4/4", F(1), F(0)), (2, "6/8", F(3, 4), F(0)),
        (3, "3/4", F(1, 2), F(0)), (4, "3/4", F(1, 4), F(1, 2)), (5, "3/8", F(3, 8), F(0)),
        (6, "2/2", F(1), F(0))]


def measures(pd):
    starts, at = [], F(0)
    for _, _, dur, _ in MEAS:
        starts.append(at)
        at += dur
    return pd.DataFrame({
        "mc": [m[0] for m in MEAS], "timesig": [m[1] for m in MEAS],
        "act_dur": [m[2] for m in MEAS], "mc_offset": [m[3] for m in MEAS], "start": starts,
        "next": [m[0] + 1 for m in MEAS[:-1]] + [None]})


def level(beat, ts):
    """Metrical level, from the grouping of the metre (3 downbeat, 2 beat, 1 sub-beat, 0 lower)."""
    num, den = map(int, ts.split("/"))
    unit = F(1, den)
    beat_len = 3 * unit if num > 3 and num % 3 == 0 else unit
    sub = unit if num > 3 and num % 3 == 0 else unit / 2
    for lvl, length in ((3, num * unit), (2, beat_len), (1, sub)):
        if (beat / length).denominator == 1:
            return lvl
    return 0


KEYNAMES = [(a, l, low) for a in range(-2, 3) for l in "ABCDEFG" for low in (False, True)]
NUMERALS = [(a, n, low) for a in (-1, 0, 1) for n in range(7) for low in (False, True)]


def pitch(letter, acc, pt):
    p = T.tpc(letter, acc) if pt == "TPC" else T.midi(letter, acc)
    return p if pt == "MIDI" or 0 <= p < 35 else None


def numeral(a, n, low):
    s = T.ROMAN[n].lower() if low else T.ROMAN[n]
    return ("b" * -a if a < 0 else "#" * a) + s


def step(tonic, mode, num, pt):
    a, n, low = num
    iv = degree_interval(n + 1, a, mode, pt)
    return (None if tonic is None else T.transpose(tonic, iv, pt)), "MINOR" if low else "MAJOR"


def fields(k):
    return (k.relative_tonic, k.relative_mode.name, k.local_tonic, k.local_mode.name, k.global_tonic,
            k.global_mode.name, k.tonic_type.name) if k is not None and not isinstance(k, Raised) else k


def w_keys(c, job):
    import pandas as pd
    from harmonic_inference.data.key import Key

    PT, CT, KM = repo.enums()
    c.section("corpus keys")
    pt, glob = job
    acc, letter, low = glob
    gname = (letter.lower() if low else letter) + ("b" * -acc if acc < 0 else "#" * acc)
    gt, gm = pitch(letter, acc, pt), "MINOR" if low else "MAJOR"
    i = 0
    for loc in NUMERALS:
        lt, lm = (None, None) if gt is None else step(gt, gm, loc, pt)
        rels = [None] + [[r] for r in NUMERALS]
        if loc[0] == 0:
            rels += [[r, s] for r in NUMERALS[14:28:3] for s in NUMERALS[14:28]]
        if not c.thorough and (acc or loc[0]):
            # altered local or global keys: a few applied roots instead of all
            some = NUMERALS[14:28] if not loc[0] and abs(acc) == 1 else NUMERALS[14:28:3]
            rels = [None] + [[r] for r in some]
        for rel in rels:
            rt, rm = lt, lm
            for r in reversed(rel or []):
                if rt is not None:
                    rt, rm = step(rt, rm, r, pt)
            i += 1
            row = pd.Series({"globalkey": gname, "globalkey_is_minor": low,
                             "localkey": numeral(*loc), "localkey_is_minor": loc[2],
                             "relativeroot": "/".join(numeral(*r) for r in rel) if rel else
                             (None if i % 2 else float("nan"))})
            got = call(Key.from_series, row, PT[pt])
            case = [pt, gname, numeral(*loc), rel and "/".join(numeral(*r) for r in rel)]
            want = None if rt is None or lt is None or gt is None else (rt, rm, lt, lm, gt, gm, pt)
            c.equal(fields(got), want, "key from a corpus row", case)
            c.state(*case)
            c.trace(case + [want], want)


def chord_row(pd, **kw):
    row = {"numeral": "V", "root": 1, "bass_note": 0, "chord_type": "M", "figbass": "",
           "globalkey": "C", "globalkey_is_minor": False, "localkey": "I",
           "localkey_is_minor": False, "relativeroot": None, "mc": 1, "mn_onset": F(0), "mc_next": 1,
           "mn_onset_next": F(1, 2), "duration": F(1, 2), "changes": None}
    row.update(kw)
    return pd.Series(row)


def chord_fields(ch):
    if ch is None or isinstance(ch, Raised):
        return ch
    return (ch.root, ch.bass, ch.key_tonic, ch.key_mode.name, ch.chord_type.name, ch.inversion,
            ch.onset, ch.onset_level, ch.offset, ch.offset_level, ch.duration, ch.pitch_type.name,
            ch.suspension)


CORPUS_TYPES = {"M": "MAJOR", "m": "MINOR", "o": "DIMINISHED", "+": "AUGMENTED", "MM7": "MAJ_MAJ7",
                "Mm7": "MAJ_MIN7", "mM7": "MIN_MAJ7", "mm7": "MIN_MIN7", "o7": "DIM7",
                "%7": "HALF_DIM7", "+7": "AUG_MIN7", "Ger": "MAJ_MIN7", "It": "MAJOR",
                "Fr": "MAJ_MIN7"}


def w_chords(c, job):
    import pandas as pd
    import harmonic_inference.utils.harmonic_utils as hu
    from harmonic_inference.data.chord import Chord
    from harmonic_inference.data.key import Key

    PT, CT, KM = repo.enums()
    df = measures(pd)
    pt, root_iv = job
    c.section("corpus chords")
    reds = dict(T.reductions())
    keys = [("C", False, (0, 0, False), None), ("c", True, (0, 4, True), (0, 4, False)),
            ("Ab", False, (-1, 5, False), (0, 1, True)), ("f#", True, (0, 2, False), (0, 0, True))]
    k = 0
    for (g, gmin, loc, rel) in keys:
        acc = g.count("#") - g[1:].count("b")
        gt = pitch(g[0].upper(), acc, pt)
        lt, lm = step(gt, "MINOR" if gmin else "MAJOR", loc, pt)
        rt, rm = step(lt, lm, rel, pt) if rel else (lt, lm)
        # applied chords' root column is relative to the local tonic
        iv = root_iv if pt == "TPC" else (7 * root_iv) % 12
        root = T.transpose(lt, iv, pt)
        for ts, t in CORPUS_TYPES.items():
            if isinstance(call(hu.get_chord_type_from_string, ts), Raised):
                continue
            t = call(hu.get_chord_type_from_string, ts).name
            for fig, inv in T.FIGBASS.items():
                small = not c.thorough and root_iv not in (1, -6)
                if small and fig not in ("", "65", "2"):
                    continue
                for redname in ("none", "triad") if small else ("none", "triad", "const-DIM7"):
                    for use_inv, use_rel in core.product((True,) if small else (True, False),
                                                         (True, False)):
                        k += 1
                        red = reds[redname]
                        sus = [None, float("nan"), "4", "64"][k % 4]
                        row = chord_row(pd, root=root_iv, chord_type=ts, figbass=fig, globalkey=g,
                                        globalkey_is_minor=gmin, localkey=numeral(*loc),
                                        localkey_is_minor=loc[2],
                                        relativeroot=numeral(*rel) if rel else float("nan"),
                                        changes=sus)
                        kw = {} if redname == "none" and k % 2 else {
                            "reduction": repo.real_reduction(red, CT)}
                        got = call(Chord.from_series, row, df, PT[pt], use_inversion=use_inv,
                                   use_relative=use_rel, **kw)
                        rtype = red[t]
                        ri = (inv if use_inv else 0) % T.n_members(rtype)
                        bass = None if root is None else T.members(rtype, root, pt)[ri]
                        want = None
                        if root is not None and 0 <= bass < T.NUM[pt]:
                            want = (root, bass, rt if use_rel else lt, rm if use_rel else lm, rtype,
                                    ri, (1, F(0)), 3, (1, F(1, 2)), 2, F(1, 2), pt,
                                    sus if isinstance(sus, str) else None)
                        case = [pt, root_iv, g, numeral(*loc), rel, ts, fig, redname, use_inv,
                                use_rel]
                        c.equal(chord_fields(got), want, "chord from a corpus row", case)
                        c.state(*case)
                        c.trace(case + [repr(want)], want and want[:6])
                        if k % 11 == 0 and want:
                            key = Key.from_series(row, PT[pt])
                            other = Key(rt, lt, gt, KM["MINOR"], KM["MINOR"], KM["MINOR"], PT[pt])
                            g2 = call(Chord.from_series, row, df, PT[pt], use_inversion=use_inv,
                                      use_relative=use_rel, key=key, **kw)
                            c.equal(chord_fields(g2), want, "chord with a given key", case)
                            g3 = call(Chord.from_series, row, df, PT[pt], use_inversion=use_inv,
                                      use_relative=use_rel, key=other, **kw)
                            c.equal(chord_fields(g3), want[:3] + ("MINOR",) + want[4:],
                                    "chord with another given key", case)
        for none in ("@none", None, float("nan")):
            c.equal(call(Chord.from_series, chord_row(pd, numeral=none), df, PT[pt]), None,
                    "no-chord symbol", [repr(none)])
    # a row that starts or ends in a measure which does not exist denotes nothing
    for mc, mc2, beat2 in core.product((1, 9), (1, 7, -1, None), (F(0), F(1, 2))):
        if (mc, mc2) == (1, 1):
            continue
        row = chord_row(pd, root=root_iv, mc=mc, mc_next=mc2, mn_onset_next=beat2)
        c.equal(call(Chord.from_series, row, df, PT[pt]), None, "a chord of a missing measure",
                [pt, root_iv, mc, mc2])
        c.equal(call(Chord.from_series, row, df, PT[pt], levels_cache=defaultdict(dict)), None,
                "a chord of a missing measure", [pt, root_iv, mc, mc2])


def grid():
    """Every sixteenth-and-triplet position in every measure, as (mc, beat)."""
    for mc, ts, dur, off in MEAS:
        steps = sorted({F(i, 16) for i in range(int(dur * 16))}
                       | {F(i, 24) for i in range(int(dur * 24))})
        for s in steps:
            yield mc, ts, off + s


def w_rhythm(c, job):
    """Positions and metrical levels, with one cache shared by a whole history of rows."""
    import pandas as pd
    from harmonic_inference.data.chord import Chord
    from harmonic_inference.data.note import Note

    PT, CT, KM = repo.enums()
    df = measures(pd)
    shift, use_cache = job
    c.section("row positions")
    pos = list(grid())
    cache = defaultdict(dict) if use_cache else None
    order = pos[shift:] + pos[:shift]
    for a, b in zip(order, order[7:] + order[:7]):
        (mc, ts, beat), (mc2, ts2, beat2) = a, b
        row = chord_row(pd, mc=mc, mn_onset=beat, mc_next=mc2, mn_onset_next=beat2, duration=F(3, 16))
        got = call(Chord.from_series, row, df, PT["TPC"], levels_cache=cache)
        want = ((mc, beat), level(beat, ts), (mc2, beat2), level(beat2, ts2), F(3, 16))
        case = ["cache" if use_cache else "no cache", shift, mc, str(beat), mc2, str(beat2)]
        c.equal(got if got is None or isinstance(got, Raised) else
                (got.onset, got.onset_level, got.offset, got.offset_level, got.duration), want,
                "chord position", case)
        moff = [m[3] for m in MEAS if m[0] == mc][0]
        nrow = pd.Series({"midi": 61, "tpc": 7, "mc": mc, "mn_onset": beat, "mc_onset": beat - moff,
                          "offset_mc": mc2, "offset_beat": beat2, "duration": F(3, 16)})
        got = call(Note.from_series, nrow, df, PT["TPC"], levels_cache=cache)
        c.equal(got if got is None or isinstance(got, Raised) else
                (got.onset, got.onset_level, got.offset, got.offset_level, got.duration,
                 got.mc_onset), want + (beat - moff,), "note position", case)
        c.state(*case)
        c.trace(case, want)


def w_notes(c, job):
    import pandas as pd
    from harmonic_inference.data.note import Note

    PT, CT, KM = repo.enums()
    df = measures(pd)
    c.section("corpus notes")
    for midi in job:
        for tpc in ([t for t in range(-20, 26) if T.tpc_to_midi(t + 15) == midi % 12]
                    if not c.thorough else range(-20, 26)):
            row = pd.Series({"midi": midi, "tpc": tpc, "mc": 1, "mn_onset": F(1, 4),
                             "mc_onset": F(1, 4), "offset_mc": 2, "offset_beat": F(0),
                             "duration": F(3, 4)})
            for pt in PT:
                got = call(Note.from_series, row, df, PT[pt])
                p = tpc + 15 if pt == "TPC" else midi % 12
                want = None
                if 0 <= p < T.NUM[pt]:
                    want = (p, midi // 12, (1, F(1, 4)), 2, F(3, 4), (2, F(0)), 3, pt, F(1, 4))
                case = [pt, midi, tpc]
                c.equal(got if got is None or isinstance(got, Raised) else
                        (got.pitch_class, got.octave, got.onset, got.onset_level, got.duration,
                         got.offset, got.offset_level, got.pitch_type.name, got.mc_onset), want,
                        "note from a corpus row", case)
                c.state(*case)
                c.trace(case, want)


# ---- label csv rows ------------------------------------------------------------------------------
CSV_TYPES = {"D7": "MAJ_MIN7", "M": "MAJOR", "M7": "MAJ_MAJ7", "d": "DIMINISHED", "a": "AUGMENTED",
             "d7": "DIM7", "m": "MINOR", "m7": "MIN_MIN7", "Gr+6": "MAJOR", "Fr+6": "MAJOR",
             "It+6": "MAJOR", "h7": "HALF_DIM7"}
MAJ_OF = {"MAJOR": {"1", "b2", "b3", "4", "#4", "5", "#5", "b7"},
          "MINOR": {"b1", "b2", "3", "6", "7", "#7"}}
MIN_OF = {"MAJOR": {"#1", "2", "3", "b4", "6", "7"},
          "MINOR": {"1", "2", "b4", "4", "b5", "5", "b7"}}


def csv_degree(acc, n, mode, is_root):
    """Interval-bearing (accidental, degree) of a csv degree: 7 is the leading tone in minor."""
    if mode == "MINOR" and n == 7:
        acc += 1
    if mode == "MINOR" and n == 6:
        if is_root and acc >= 2:
            acc -= 1
        elif not is_root and acc >= 1:
            acc -= 1
    return acc, n


def accs(a, sharp="+", flat="-"):
    return flat * -a if a < 0 else sharp * a


def w_csv(c, job):
    import pandas as pd
    from harmonic_inference.data.chord import Chord
    from harmonic_inference.data.key import Key

    PT, CT, KM = repo.enums()
    df = measures(pd)
    pt, kacc, letter, low = job
    name = (letter.lower() if low else letter) + accs(kacc)
    tonic, mode = pitch(letter, kacc, pt), "MINOR" if low else "MAJOR"
    if tonic is None:
        return
    c.section("csv keys")
    apps = [None] + [(a, n) for a in (-1, 0, 1) for n in range(1, 8)]
    reds = dict(T.reductions())
    gk = Key(3, 3, 5, KM["MINOR"], KM["MAJOR"], KM["MINOR"], PT[pt])
    k = 0
    for app in apps:
        rt, rm = tonic, mode
        unknown = False
        if app is not None:
            a, n = csv_degree(app[0], app[1], mode, False)
            sym = accs(a, "#", "b") + str(n)
            if sym in MAJ_OF[mode]:
                rm = "MAJOR"
            elif sym in MIN_OF[mode]:
                rm = "MINOR"
            else:
                unknown = True
            rt = T.transpose(tonic, degree_interval(n, a, mode, pt), pt)
        for acc, n in core.product((-1, 0, 1, 2), range(1, 8)):
            deg = accs(acc) + str(n) + ("" if app is None else "/" + accs(app[0]) + str(app[1]))
            row = pd.Series({"key": name, "degree": deg, "type": "M", "inv": 0, "on": F(5, 4),
                             "off": F(7, 4)})
            case = [pt, name, deg]
            bad = unknown or rt is None
            for g in (None, gk):
                got = call(Key.from_labels_csv_row, row, PT[pt], global_key=g)
                if bad:
                    c.raises(got, ValueError, "csv key without a tonic or mode", case)
                else:
                    c.equal(fields(got), (rt, rm, tonic, mode) + (
                        (tonic, mode) if g is None else (5, "MINOR")) + (pt,), "csv key", case)
            c.state(*case)
            c.trace(case + [rt, rm], (rt, rm))
            if bad:
                continue
            c.section("csv chords")
            ra, rn = csv_degree(acc, n, rm, True)
            root = T.transpose(rt, degree_interval(rn, ra, rm, pt), pt)
            for (ts, t), inv in core.product(CSV_TYPES.items(), range(4)):
                for redname, use_inv, use_rel in (("none", True, True), ("triad", True, False),
                                                  ("const-DIM7", False, True), ("none", False, False)):
                    k += 1
                    if not c.thorough and k % (1 if (kacc, letter, app, acc) == (0, "C", None, 0)
                                               else 101):
                        continue
                    row = pd.Series({"key": name, "degree": deg, "type": ts, "inv": inv,
                                     "on": F(5, 4), "off": F(7, 4)})
                    with core.quiet():
                        got = call(Chord.from_labels_csv_row, row, df, PT[pt],
                                   reduction=repo.real_reduction(reds[redname], CT),
                                   use_inversion=use_inv, use_relative=use_rel)
                    case = [pt, name, deg, ts, inv, redname, use_inv, use_rel]
                    rtype = reds[redname][t]
                    ri = 0 if "+6" in ts or not use_inv else inv % T.n_members(rtype)
                    bass = None if root is None else T.members(rtype, root, pt)[ri]
                    if root is None or not 0 <= bass < T.NUM[pt]:
                        c.raises(got, ValueError, "csv chord out of range", case)
                        continue
                    want = (root, bass,
                            rt if use_rel else tonic, rm if use_rel else mode, rtype, ri,
                            (2, F(0)), 3, (2, F(1, 2)), 1, F(1, 2), pt, None)
                    c.equal(chord_fields(got), want, "chord from a csv row", case)
                    c.state(*case)
                    c.trace(case, want[:6])
            c.section("csv keys")


def w_csvpos(c, job):
    import pandas as pd
    from harmonic_inference.data.chord import Chord

    PT, CT, KM = repo.enums()
    df = measures(pd)
    c.section("csv positions")
    ends, at = [], F(0)
    for mc, ts, dur, off in MEAS:
        ends.append((at, at + dur, mc, ts, off))
        at += dur

    def where(x):
        for s, e, mc, ts, off in ends:
            if s <= x < e or (mc == MEAS[-1][0] and x >= s):
                return (mc, x - s + off), level(x - s + off, ts)

    cache = defaultdict(dict) if job % 2 else None
    n = int(at * 16)
    for i in range(job, n, 4):
        for j in range(i, n + 1, 3):
            on, off = F(i, 16), F(j, 16)
            row = pd.Series({"key": "C", "degree": "5", "type": "M", "inv": 0, "on": on, "off": off})
            got = call(Chord.from_labels_csv_row, row, df, PT["TPC"], levels_cache=cache)
            (p1, l1), (p2, l2) = where(on), where(off)
            c.equal(got if isinstance(got, Raised) else
                    (got.onset, got.onset_level, got.offset, got.offset_level, got.duration),
                    (p1, l1, p2, l2, off - on), "csv chord position", [str(on), str(off)])
            c.state(str(on), str(off))
            c.trace([str(on), str(off)])


def dispatch(c, job):
    {"keys": w_keys, "chords": w_chords, "rhythm": w_rhythm, "notes": w_notes, "csv": w_csv,
     "csvpos": w_csvpos}[job[0]](c, job[1])


def body(c):
    core.setup_imports()
    import harmonic_inference.data.piece  # noqa: F401

    jobs = []
    for pt in T.NUM:
        jobs += [("keys", (pt, g)) for g in KEYNAMES if c.thorough or g[0] in (-1, 0, 1)]
        jobs += [("chords", (pt, iv)) for iv in range(-16, 18)]
        jobs += [("csv", (pt, a, letter, low)) for a in (-1, 0, 1) for letter in "CDEFGAB"
                 for low in (False, True)]
    n = len(list(grid()))
    jobs += [("rhythm", (s, u)) for u in (True, False)
             for s in range(0, n, n // 4 if not c.thorough else n // 24)]
    jobs += [("notes", list(range(i, 128, 8))) for i in range(8)]
    jobs += [("csvpos", i) for i in range(4)]
    core.parallel(c, dispatch, jobs)


def main():
    c = core.Check("C08", RULE, {
        "keys": "42 (quick) / 70 (thorough) global keys x 42 local numerals x applied chains <= 2",
        "chords": "34 root intervals x 11+ types x 7 figures x 3 reductions x 4 switches x 4 key contexts",
        "csv": "42 keys x 22 applied roots x 28 degrees x 12 types x 4 inversions",
        "quick": "full products on C major/minor csv rows and on two root intervals; elsewhere every "
                 "17th (corpus) or 101st (csv) element of the same product; thorough takes all"})
    return core.run(c, body)
