"""C22 results: accuracies, label tables and output files describe the piece and the estimate."""
import csv
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile
from fractions import Fraction as F

from mc import core, repo, theory as T
from mc.checks.c02 import name_of
from mc.checks.c05 import ref_alterations
from mc.core import Raised, call

RULE = ("every pair of chord (type, inversion) and key labels for the distances; every label as truth and "
        "estimate in both pitch types; every segmentation of small rhythms into true and estimated chords "
        "and keys over small alphabets through every accuracy and table function; every short list of "
        "pieces through the evaluation and annotation programs with a scratch output directory; a "
        "note-by-note comparison is the oracle")

RHYTHMS = {2: [(F(1, 4), F(3, 4)), (F(0), F(1))],
           3: [(F(1, 4), F(0), F(3, 4)), (F(3, 4), F(1, 2), F(1, 4))],
           4: [(F(1, 4), F(0), F(3, 4), F(1, 2))]}


def key_name(tonic, mode, pt):
    n = T.pname(tonic, pt)
    if mode == "MINOR":
        n = n.lower()
    return n


class World:
    def __init__(self):
        import numpy as np
        import pandas as pd
        from harmonic_inference.data.chord import Chord
        from harmonic_inference.data.key import Key
        from harmonic_inference.data.note import Note
        from harmonic_inference.data.piece import ScorePiece
        from harmonic_inference.utils.beam_search_utils import State
        import harmonic_inference.utils.eval_utils as eu

        self.np, self.pd = np, pd
        self.Chord, self.Key, self.Note, self.Piece, self.State = Chord, Key, Note, ScorePiece, State
        self.eu = eu
        self.PT, self.CT, self.KM = repo.enums()
        self.measures = pd.DataFrame({
            "mc": list(range(8)), "timesig": "4/4", "act_dur": [F(1)] * 8, "mc_offset": [F(0)] * 8,
            "next": pd.Series([1, 2, 3, 4, 5, 6, 7, None], dtype=object)})
        self.labels = {pt: T.labels(pt, True, False, False, T.identity()) for pt in T.NUM}
        self.index = {pt: {x: i for i, x in enumerate(self.labels[pt])} for pt in T.NUM}
        self.keys = {pt: T.key_labels(pt, False) for pt in T.NUM}
        self.kindex = {pt: {x: i for i, x in enumerate(self.keys[pt])} for pt in T.NUM}

    def spot(self, t):
        return int(t), t - int(t)

    def piece(self, rhythm, segs, name=None, susp=None):
        """segs: [(first note, chord (root, type, inv), key (tonic, mode))] in TPC, or None."""
        starts = [sum(rhythm[:i], F(0)) for i in range(len(rhythm) + 1)]
        tpc = self.PT["TPC"]
        notes = []
        for i, d in enumerate(rhythm):
            end = starts[-1]
            notes.append(self.Note(15, 4, self.spot(starts[i]), 1, end - starts[i], self.spot(end), 1, tpc,
                                   mc_onset=starts[i] - int(starts[i])))
        if segs is None:
            return self.Piece(self.measures, notes, None, None, None, None, None, name=name)
        chords, keys, changes, ranges, key_changes = [], [], [], [], []
        last = None
        for j, (at, (root, t, inv), key) in enumerate(segs):
            stop = segs[j + 1][0] if j + 1 < len(segs) else len(rhythm)
            chords.append(self.Chord(
                root, T.members(t, root, "TPC")[inv], key[0], self.KM[key[1]], self.CT[t], inv,
                self.spot(starts[at]), 1, self.spot(starts[stop]), 1, starts[stop] - starts[at], tpc,
                suspension=susp[j] if susp else None))
            changes.append(at)
            ranges.append((at, stop))
            if key != last:
                m = self.KM[key[1]]
                # local and global keys differ from the (relative) key in force
                keys.append(self.Key(key[0], key[0] - 1, 15, m, self.KM["MAJOR"], self.KM["MINOR"], tpc))
                key_changes.append(j)
                last = key
        return self.Piece(self.measures, notes, chords, keys, changes, ranges, key_changes, name=name)

    def state(self, n, segs, pt):
        """segs: [(first note, chord, key)] in the given pitch type."""
        s = self.State(key=self.kindex[pt][segs[0][2]])
        for j, (at, chord, key) in enumerate(segs):
            stop = segs[j + 1][0] if j + 1 < len(segs) else n
            s = self.State(chord=self.index[pt][chord], key=self.kindex[pt][key], change_index=stop,
                           log_prob=-1.0, prev_state=s)
        return s


def conv(chord, pt):
    """A spelled chord in the given pitch type."""
    return chord if chord is None or pt == "TPC" else (T.tpc_to_midi(chord[0]),) + tuple(chord[1:])


def out_chord(chord, pt, to):
    """A chord label of pitch type pt, reported in pitch type `to` -> set of acceptable names."""
    if pt == to:
        return {name_of(chord[0], chord[1], chord[2], to, False, None, True)}
    if to == "MIDI":
        return {name_of(T.tpc_to_midi(chord[0]), chord[1], chord[2], to, False, None, True)}
    return {name_of(p, chord[1], chord[2], to, False, None, True)
            for p in range(35) if T.tpc_to_midi(p) == chord[0]}


def out_key(key, pt, to):
    def name(p):
        n = T.pname(p, to)
        return "%s:%s" % (n.lower() if key[1] == "MINOR" else n, "KeyMode." + key[1])
    if pt == to:
        return {name(key[0])}
    if to == "MIDI":
        return {name(T.tpc_to_midi(key[0]))}
    return {name(p) for p in range(35) if T.tpc_to_midi(p) == key[0]}


def per_note(segs, n):
    out = [(None, None)] * segs[0][0]       # no label yet
    for j, (at, chord, key) in enumerate(segs):
        stop = segs[j + 1][0] if j + 1 < len(segs) else n
        out += [(chord, key)] * (stop - at)
    return out


def chord_ok(a, b, inv, red):
    return a[0] == b[0] and red[a[1]] == red[b[1]] and (not inv or a[2] == b[2])


def key_ok(a, b, tonic_only):
    return a[0] == b[0] and (tonic_only or a[1] == b[1])


def near(c, got, want, what, case):
    c.step()
    c.expect(not isinstance(got, Raised) and core.close(float(got), float(want)),
             lambda: "%s: got %r, expected %r" % (what, got, float(want)), case)


def accuracies(c, w, piece, state, rhythm, gt, est, pt, case, reds):
    """gt in TPC, est in pt; both per note."""
    eu, P = w.eu, w.PT[pt]
    total = sum(rhythm)
    gtc = [(conv(a, pt), conv(k, pt)) for a, k in gt]

    def acc(f):
        return sum((d for d, g, e in zip(rhythm, gtc, est) if g[0] and f(g, e)), F(0)) / total

    for red_name, inv in reds:
        red = REDS[red_name]
        near(c, call(eu.evaluate_chords, piece, state, P, use_inversion=inv,
                     reduction=repo.real_reduction(red, w.CT)),
             acc(lambda g, e: chord_ok(g[0], e[0], inv, red)),
             "chord accuracy (inversions %s, reduction %s)" % (inv, red_name), case)
    for only in (False, True):
        near(c, call(eu.evaluate_keys, piece, state, P, tonic_only=only),
             acc(lambda g, e: key_ok(g[1], e[1], only)), "key accuracy (tonic only %s)" % only, case)
        red_name, inv = reds[-1] if only else reds[0]
        red = REDS[red_name]
        near(c, call(eu.evaluate_chords_and_keys_jointly, piece, state, P, P, use_inversion=inv,
                     chord_reduction=repo.real_reduction(red, w.CT), tonic_only=only),
             acc(lambda g, e: chord_ok(g[0], e[0], inv, red) and key_ok(g[1], e[1], only)),
             "joint accuracy (%s, %s, %s)" % (red_name, inv, only), case)
    return acc(lambda g, e: g == e)


REDS = {"none": T.identity(), "triad": dict(T.TRIAD_OF), "one": {t: "MAJOR" for t in T.TYPES}}
ALL = [("none", True), ("none", False), ("triad", True), ("triad", False), ("one", False)]


def rows_of(df):
    if isinstance(df, Raised):
        return df
    return df.to_dict("records")


def tables(c, w, piece, state, rhythm, gt, est, pt, case):
    eu = w.eu
    # results: one row per onset
    for to in ("TPC", "MIDI"):
        rows = rows_of(call(eu.get_results_df, piece, state, w.PT[pt], w.PT[pt], w.PT[to], w.PT[to]))
        c.step()
        c.expect(not isinstance(rows, Raised), "results raised %r" % (rows,), case)
        keep = [i for i, d in enumerate(rhythm) if d]
        c.equal([r["duration"] for r in rows], [rhythm[i] for i in keep], "durations in the results", case)
        for r, i in zip(rows, keep):
            c.expect(r["est_chord"] in out_chord(est[i][0], pt, to)
                     and r["est_key"] in out_key(est[i][1], pt, to),
                     lambda: "estimate in the results at note %d (%s): %r" % (i, to, r), case)
            if gt is None or gt[i][0] is None:
                c.expect(not isinstance(r["gt_chord"], str) and not isinstance(r["gt_key"], str),
                         lambda: "a truth is reported where there is none: %r" % (r,), case)
            else:
                c.expect(r["gt_chord"] in out_chord(gt[i][0], "TPC", to)
                         and r["gt_key"] in out_key(gt[i][1], "TPC", to),
                         lambda: "truth in the results at note %d (%s): %r" % (i, to, r), case)
    starts = [sum(rhythm[:i], F(0)) for i in range(len(rhythm))]
    names = [(next(iter(out_key(e[1], pt, pt))), next(iter(out_chord(e[0], pt, pt)))) for e in est]

    def where(i):
        mc, beat = w.spot(starts[i])
        return {"mc": mc, "mc_onset": beat, "mn_onset": beat}

    # annotation: one row per change of the estimate
    want, prev = [], (None, None)
    for i, d in enumerate(rhythm):
        if d:
            for k in (0, 1):
                if names[i][k] != prev[k]:
                    want.append(dict(where(i), label=names[i][k]))
            prev = names[i]
    rows = rows_of(call(eu.get_annotation_df, state, piece, w.PT[pt], w.PT[pt]))
    c.equal(rows, want, "annotation", case)
    # label table: one row per change of the estimate or the truth
    want, prev, gprev = [], (None, None), (None, None)
    for i, d in enumerate(rhythm):
        if not d:
            continue
        if gt is not None:
            g = (conv(gt[i][1], pt), conv(gt[i][0], pt))
        else:
            g = ("?", "?")
        e = (est[i][1], est[i][0])
        for k in (0, 1):
            if names[i][k] != prev[k] or (gt is not None and g[k] != gprev[k]):
                if gt is None or g[k] is None:
                    color = None
                elif k == 0:
                    color = "green" if g[0] == e[0] else "yellow" if key_ok(g[0], e[0], True) else "red"
                else:
                    color = ("green" if g[1] == e[1] else "yellow"
                             if chord_ok(g[1], e[1], False, T.TRIAD_OF) else "red")
                want.append(dict(where(i), label=names[i][k] if names[i][k] != prev[k] else "--",
                                 color_name=color))
        prev, gprev = names[i], g
    rows = rows_of(call(eu.get_label_df, state, piece, w.PT[pt], w.PT[pt]))
    labelled = [gt is not None and gt[i][0] is not None for i in range(len(rhythm))]
    if not all(labelled) and not isinstance(rows, Raised):
        late = [where(i) for i, d in enumerate(rhythm) if d and not labelled[i]]
        for r in rows:
            if {k: r.get(k) for k in ("mc", "mc_onset", "mn_onset")} not in late:
                continue
            c.expect(r.get("color_name") not in ("green", "yellow"),
                     lambda: "a label without a truth to compare with is called right: %r" % (r,), case)
            r["color_name"] = None
    c.equal(rows, want, "label table", case)
    # debug log
    msgs = log_of(eu.log_state, state, piece, w.PT[pt], w.PT[pt])
    c.step()
    c.expect(not isinstance(msgs, Raised), "logging the state raised %r" % (msgs,), case)
    text = "\n".join(msgs)
    groups = []
    for i in range(len(rhythm)):
        g = None if gt is None else (conv(gt[i][0], pt), conv(gt[i][1], pt))
        if not groups or groups[-1] != (g, est[i]):
            groups.append((g, est[i]))
    for g, e in groups:
        k, h = next(iter(out_key(e[1], pt, pt))), next(iter(out_chord(e[0], pt, pt)))
        c.expect(k + "\t" + h in text, "the log lacks an estimated structure: %r in %r" % ((k, h), text),
                 case)
        if g is not None and g[0] is not None and g != e:
            k, h = next(iter(out_key(g[1], pt, pt))), next(iter(out_chord(g[0], pt, pt)))
            c.expect(k + "\t" + h in text, "the log lacks a true structure: %r in %r" % ((k, h), text), case)


def log_of(func, *args):
    """The messages logged (at any level) while calling func."""
    out = []

    class Handler(logging.Handler):
        def emit(self, record):
            out.append(record.getMessage())

    h = Handler()
    root = logging.getLogger()
    old = root.level
    logging.disable(logging.NOTSET)
    root.addHandler(h)
    root.setLevel(logging.DEBUG)
    try:
        got = call(func, *args)
    finally:
        root.removeHandler(h)
        root.setLevel(old)
        logging.disable(logging.CRITICAL)
    return got if isinstance(got, Raised) else out


# ---- distances --------------------------------------------------------------------------------------
def distances(c, job):
    w = World()
    c.section("distances")
    shapes = [(t, i) for t in T.TYPES for i in range(T.n_members(t))]
    for name, red in T.reductions():
        rr = repo.real_reduction(red, w.CT)
        for (a, i), (b, j) in itertools.product(shapes, repeat=2):
            for same_root in (True, False):
                for inv in (True, False):
                    x, y = (15, a, i), (15 if same_root else 27, b, j)
                    got = call(w.eu.get_chord_distance, x[0], w.CT[a], i, y[0], w.CT[b], j,
                               use_inversion=inv, reduction=rr)
                    c.equal(got, 0.0 if chord_ok(x, y, inv, red) else 1.0,
                            lambda: "chord distance", [name, x, y, inv])
        c.state(name)
        c.trace([name], name)
    for a, b in itertools.product(w.keys["TPC"], repeat=2):
        for only in (False, True):
            got = call(w.eu.get_key_distance, a[0], w.KM[a[1]], b[0], w.KM[b[1]], tonic_only=only)
            c.equal(got, 0.0 if key_ok(a, b, only) else 1.0, "key distance", [a, b, only])
        c.state(a, b)


# ---- every label ------------------------------------------------------------------------------------
def labels_job(c, job):
    pt, roots = job
    w = World()
    c.section("labels")
    key = (15, "MAJOR")
    for root in roots:
        gt, est, rhythm = [], [], []
        for t in T.TYPES:
            for inv in range(T.n_members(t)):
                g1 = (root, t, inv)
                kk = (root, "MAJOR" if inv % 2 else "MINOR")
                e = conv(g1, pt)
                far = (e[0] + 12, t, inv) if pt == "TPC" and e[0] + 12 < 35 else \
                    ((e[0] + 5) % T.NUM[pt], t, inv)
                n = len(rhythm)
                gt += [(n, g1, key), (n + 1, g1, kk)]
                est += [(n, e, conv(key, pt)), (n + 1, far, conv(kk, pt))]
                rhythm += [F(1, 32), F(1, 64)]
        n = len(rhythm)
        piece, state = w.piece(rhythm, gt), w.state(n, est, pt)
        case = ["every chord with root", root, pt]
        gn, en = per_note(gt, n), per_note(est, n)
        acc = accuracies(c, w, piece, state, rhythm, gn, en, pt, case, [("none", True)])
        tables(c, w, piece, state, rhythm, gn, en, pt, case)
        for x, y in zip(gt, est):
            c.state(pt, x, y)
        c.trace(case, (pt, acc))


# ---- segmentations ----------------------------------------------------------------------------------
CHORDS = [(15, "MAJOR", 0), (15, "MAJOR", 1), (15, "MAJ_MIN7", 0), (23, "MINOR", 0), (11, "MINOR", 0)]
KEYS = [(15, "MAJOR"), (15, "MINOR"), (23, "MAJOR"), (11, "MAJOR")]


def cuts(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        yield [0] + [i + 1 for i, b in enumerate(bits) if b]


def all_segs(n, chords, keys, first=0):
    """Every segmentation from note `first` on; consecutive segments differ in chord or key."""
    for at in cuts(n - first):
        at = [i + first for i in at]
        for combo in itertools.product(itertools.product(chords, keys), repeat=len(at)):
            if all(a != b for a, b in zip(combo, combo[1:])):
                yield [(i, ch, k) for i, (ch, k) in zip(at, combo)]


def seg_job(c, job):
    what, pt, n, rhythm, chords, keys, gt, with_tables = job
    w = World()
    c.section(what)
    piece = w.piece(rhythm, gt)
    gn = per_note(gt, n) if gt is not None else None
    if pt == "MIDI" and what != "late labels":
        chords, keys = sorted({conv(x, pt) for x in chords}), sorted({conv(x, pt) for x in keys})
    for est in all_segs(n, chords, keys):
        state = w.state(n, est, pt)
        en = per_note(est, n)
        case = {"pitch type": pt, "durations": rhythm, "truth": gt, "estimate": est}
        acc = None
        if gt is not None:
            acc = accuracies(c, w, piece, state, rhythm, gn, en, pt, case, ALL if not with_tables else ALL[:2])
        if with_tables:
            tables(c, w, piece, state, rhythm, gn, en, pt, case)
        c.state(pt, rhythm, gt, est)
        c.trace(case, acc)


# ---- label data frame -------------------------------------------------------------------------------
def truth_job(c, job):
    tonic, mode = job
    w = World()
    c.section("truth tables")
    all_susps = [None, "4", "+2", "b9", "64", "v7", "^2", "#6"]
    for t in T.TYPES:
        segs, susps, refs, rhythm = [(0, (15, "MAJOR", 1), (15, "MAJOR"))], [None], [None, None], [F(1, 4), F(0)]
        if mode == "MINOR" and tonic % 2:       # the first label comes late
            segs, susps = [], []
        for deg in range(7):
            root = tonic + T.SCALE[mode][deg][0]
            if not all(0 <= x < 35 for x in T.members(t, root, "TPC")):
                continue
            for susp in all_susps:
                ref = None
                if susp:
                    parts = {"64": ["6", "4"]}.get(susp, [susp])
                    ref = ref_alterations(root, t, parts, tonic, mode)
                    if ref is None or any(not 0 <= int(x.lstrip("+")) < 35 for pr in ref for x in pr if x):
                        continue
                segs.append((len(rhythm), (root, t, deg % T.n_members(t)), (tonic, mode)))
                susps.append(susp)
                refs += [ref, ref]
                rhythm += [F(0), F(1, 16)] if deg % 2 else [F(1, 32), F(0)]
                c.state(tonic, mode, deg, t, susp)
        piece = w.piece(rhythm, segs, susp=susps)
        notes = per_note(segs, len(rhythm))
        for tpc_c in (15, 0, 14):
            rows = rows_of(call(w.eu.get_labels_df, piece, tpc_c) if tpc_c != 15
                           else call(w.eu.get_labels_df, piece))
            want, at = [], F(0)
            for d, ref, (chord, key) in zip(rhythm, refs, notes):
                (r, tt, iv), (to, mo) = chord or (None,) * 3, key or (None,) * 2
                st = sm = [""]
                if ref:
                    st = sorted("%s:%s" % (shift(a, tpc_c), shift(b, tpc_c)) for a, b in dict(ref).items())
                    sm = sorted("%s:%s" % (to_midi(a), to_midi(b)) for a, b in dict(ref).items())
                if d and r is not None:
                    want.append({"chord_root_tpc": r - 15 + tpc_c, "chord_root_midi": T.tpc_to_midi(r),
                                 "chord_type": w.CT[tt], "chord_inversion": iv,
                                 "chord_suspension_tpc": st, "chord_suspension_midi": sm,
                                 "key_tonic_tpc": to - 15 + tpc_c, "key_tonic_midi": T.tpc_to_midi(to),
                                 "key_mode": w.KM[mo], "duration": d, "mc": int(at),
                                 "mn_onset": at - int(at)})
                at += d
            case = [tonic, mode, t, "C at %d" % tpc_c]
            c.step()
            c.expect(not isinstance(rows, Raised), "table of true labels raised %r" % (rows,), case)
            for r in rows:
                for k in ("chord_suspension_tpc", "chord_suspension_midi"):
                    r[k] = sorted(r[k].split(";"))
            c.equal(len(rows), len(want), "length of the table of true labels", case)
            for r, x in zip(rows, want):
                c.equal(r, x, "table of true labels", case)
            c.trace(case, (t, len(rows)))


def shift(x, tpc_c):
    if x == "":
        return ""
    pre = "+" if x[0] == "+" else ""
    return pre + str(int(x.lstrip("+")) - 15 + tpc_c)


def to_midi(x):
    if x == "":
        return ""
    pre = "+" if x[0] == "+" else ""
    return pre + str(T.tpc_to_midi(int(x.lstrip("+"))))


# ---- averages ---------------------------------------------------------------------------------------
def averages(c, job):
    w = World()
    c.section("averages")
    lines = ["Chord accuracy = 0.5", "Chord accuracy = 1.0", "Chord accuracy, triads = 0.25",
             "Key accuracy = 0.0", "Running piece 0: a/b.tsv", "x = y = accuracy", "beam = 3", "",
             "accuracy: 0.75"]
    want_of = [("Chord accuracy", 0.5), ("Chord accuracy", 1.0), ("Chord accuracy, triads", 0.25),
               ("Key accuracy", 0.0), None, None, None, None, None]
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    path = os.path.join(folder, "log")
    for n in range(0, 4 if not c.thorough else 5):
        for combo in itertools.product(range(len(lines)), repeat=n):
            for split in (" = ", ": "):
                with open(path, "w") as f:
                    f.write("\n".join(lines[i] for i in combo) + ("\n" if n else ""))
                want = {}
                for i in combo:
                    if split == " = " and want_of[i]:
                        want.setdefault(want_of[i][0], []).append(want_of[i][1])
                    if split == ": " and i == 8:
                        want.setdefault("accuracy", []).append(0.75)
                want = {k: sum(v) / len(v) for k, v in want.items()}
                got = call(w.eu.average_results, path) if split == " = " else \
                    call(w.eu.average_results, path, split_on=split)
                c.step()
                c.expect(not isinstance(got, Raised) and set(got) == set(want)
                         and all(core.close(float(got[k]), want[k]) for k in want),
                         "averages: got %r, expected %r" % (got, want), [lines[i] for i in combo])
                c.state(combo, split)
                c.trace([list(combo), split], tuple(sorted(want.items())))
    shutil.rmtree(folder)


# ---- programs ---------------------------------------------------------------------------------------
NAMES = ["0: corpus a/x.tsv", "1: corpus b/x.tsv", "2: b/y z.mxl", "3: top.mxl", "4: b/deep/x.mxl", None]


class FakeModel:
    def __init__(self, w, pt, states):
        self.CHORD_OUTPUT_TYPE = self.KEY_OUTPUT_TYPE = w.PT[pt]
        self.states, self.seen = states, []

    def get_harmony(self, piece, **kwargs):
        self.seen.append((piece, kwargs))
        return self.states[len(self.seen) - 1]


def read_tsv(path):
    with open(path, newline="") as f:
        return list(csv.DictReader(f, delimiter="\t"))


def programs(c, job):
    prog, pt, names, labelled, nones = job
    w = World()
    c.section(prog)
    if prog == "evaluate":
        import importlib.util

        spec = importlib.util.spec_from_file_location("hi_test_script", os.path.join(core.REPO, "test.py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    else:
        import annotate as mod
    rhythm = (F(1, 4), F(0), F(3, 4))
    pieces, states, info = [], [], []
    for i, (name, lab, none) in enumerate(zip(names, labelled, nones)):
        gt = [(0, CHORDS[i], KEYS[0]), (2, CHORDS[(i + 1) % 4], KEYS[i % 3])] if lab else None
        est = [(0, conv(CHORDS[(i + 1) % 5], pt), conv(KEYS[0], pt)),
               (1, conv(CHORDS[2], pt), conv(KEYS[i % 2], pt))]
        pieces.append(w.piece(rhythm, gt, name=name))
        states.append(None if none else w.state(3, est, pt))
        info.append((gt, est))
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    out = os.path.join(folder, "out")
    case = {"program": prog, "pieces": names, "labelled": labelled, "no harmony": nones, "pitch type": pt}
    try:
        model = FakeModel(w, pt, states)
        with core.quiet():
            got = call(getattr(mod, prog), model, pieces, output_tsv_dir=out)
        c.step()
        c.expect(not isinstance(got, Raised), "the program raised %r" % (got,), case)
        c.expect([p for p, _ in model.seen] == pieces and all(kw == {} for _, kw in model.seen),
                 "every piece is analysed once, in order", case)
        want = {}
        for name, none, piece, state, (gt, est) in zip(names, nones, pieces, states, info):
            if name is None or none:
                continue
            base = os.path.splitext(name.split(": ", 1)[1])[0]
            if prog == "annotate":
                want[base + ".tsv"] = call(w.eu.get_annotation_df, state, piece, w.PT[pt], w.PT[pt])
            else:
                want[base + ".tsv"] = call(w.eu.get_label_df, state, piece, w.PT[pt], w.PT[pt])
                for to, suffix in (("TPC", "_results"), ("MIDI", "_results_midi")):
                    want[base + suffix + ".tsv"] = call(
                        w.eu.get_results_df, piece, state, w.PT[pt], w.PT[pt], w.PT[to], w.PT[to])
        found = sorted(os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs)
        c.equal(found, sorted(want), "files written", case)
        for path, df in want.items():
            rows = read_tsv(os.path.join(out, path))
            cols = list(df.columns)
            c.equal([[r[k] for k in cols] for r in rows],
                    [["" if x is None else str(x) for x in r] for r in df.values.tolist()],
                    "contents of %s" % path, case)
        # nothing but the output directory was touched
        c.equal(sorted(os.listdir(folder)), ["out"] if want else sorted(set(os.listdir(folder)) & {"out"}),
                "files elsewhere", case)
        c.state(prog, pt, names, labelled, nones)
        c.trace(case, tuple(sorted(want)))
    finally:
        shutil.rmtree(folder)


def body(c):
    core.setup_imports(stubs=True)
    import pandas  # noqa: F401
    w0 = World()
    with core.quiet():
        import annotate  # noqa: F401
    jobs = [(distances, None), (averages, None)]
    for pt in ("TPC", "MIDI"):
        roots = [r for r in range(0, 35)]
        for k in range(0, 35, 5):
            jobs.append((labels_job, (pt, roots[k:k + 5])))
        # chords only, keys only, both
        n = 3
        ch = CHORDS if c.thorough else CHORDS[:3] + CHORDS[4:]
        ce = CHORDS if c.thorough else CHORDS[:4]
        for rhythm in RHYTHMS[3][:2 if c.thorough else 1]:
            for gt in all_segs(n, ch, KEYS[:1]):
                jobs.append((seg_job, ("chords", pt, n, rhythm, ce, KEYS[:1], gt, False)))
            for gt in all_segs(n, CHORDS[:1], KEYS):
                jobs.append((seg_job, ("keys", pt, n, rhythm, CHORDS[:1], KEYS, gt, False)))
        for rhythm in RHYTHMS[2]:
            for gt in list(all_segs(2, CHORDS[:3], KEYS[:2])) + [None]:
                jobs.append((seg_job, ("tables", pt, 2, rhythm, CHORDS[:2] + CHORDS[3:4], KEYS[:2], gt, True)))
        for rhythm in RHYTHMS[3]:
            for gt in list(all_segs(3, CHORDS[:2], KEYS[:2])) + [None]:
                jobs.append((seg_job, ("tables", pt, 3, rhythm, CHORDS[1:3], KEYS[:2] if c.thorough
                                       else KEYS[:1], gt, True)))
        # the first label comes after the first note; the estimates include the labels numbered first and last
        ends = [w0.labels[pt][0], w0.labels[pt][-1], conv(CHORDS[0], pt)]
        kends = [w0.keys[pt][0], w0.keys[pt][-1]]
        for rhythm, first in ((RHYTHMS[2][0], 1), (RHYTHMS[3][0], 2), (RHYTHMS[3][1], 1), (RHYTHMS[3][1], 2)):
            n = len(rhythm)
            for gt in all_segs(n, CHORDS[:2], KEYS[:1] + KEYS[2:3], first):
                jobs.append((seg_job, ("late labels", pt, n, rhythm, ends, kends if n < 3 else kends[:1], gt,
                                       True)))
                jobs.append((seg_job, ("late labels", pt, n, rhythm, ends[:1], kends, gt, False)))
        if c.thorough:
            for gt in all_segs(4, CHORDS[:2] + CHORDS[3:4], KEYS[:1]):
                jobs.append((seg_job, ("chords", pt, 4, RHYTHMS[4][0], CHORDS, KEYS[:1], gt, False)))
            for gt in all_segs(4, CHORDS[:1], KEYS[:3]):
                jobs.append((seg_job, ("keys", pt, 4, RHYTHMS[4][0], CHORDS[:1], KEYS, gt, False)))
    for tonic in range(8, 25):
        for mode in T.SCALE:
            jobs.append((truth_job, (tonic, mode)))
    for prog in ("annotate", "evaluate"):
        for pt in ("TPC", "MIDI"):
            for k in (1, 2) if not c.thorough else (1, 2, 3):
                for names in itertools.permutations(NAMES, k):
                    if k == 1:
                        flags = itertools.product((True, False), repeat=2)
                    else:
                        flags = [(True, False)] if pt == "TPC" else [(False, False)]
                    for lab, none in flags:
                        jobs.append((programs, (prog, pt, names, (lab,) * k if k == 1 else
                                                (lab,) + (True,) * (k - 1), (none,) * k)))
    jobs.sort(key=lambda j: j[0] not in (labels_job, truth_job))
    c.bounds["rhythms"] = RHYTHMS
    c.bounds["chords"], c.bounds["keys"] = CHORDS, KEYS
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    check = core.Check("C22", RULE, {}, assumptions=[
        "notes before the first label count as not correct; true labels are spelled pitch; "
        "network answers do not matter here: estimates are enumerated directly"])
    return core.run(check, body)
