"""C25 datasets: every item of every training dataset, in memory, from file, after faults; splits."""
import functools
import itertools
import os
import shutil
import tempfile
from fractions import Fraction as F

from mc import core, repo, theory as T
from mc.checks import c14
from mc.checks.c06 import chord_vec, key_vec, rel
from mc.core import Raised, call

RULE = ("every small piece (rhythm x segmentation into chords and keys over small alphabets) and every short "
        "list of such pieces is made into each of the five datasets; every item under every reduction, "
        "inversion, transposition and pitch setting is compared with a direct construction; every dataset is "
        "written and read back with every chunk size and with memory running out at every read; every short "
        "history of reading, writing and reloading is followed; every placement of unusable files in every "
        "small corpus is split in every way")

KEYS = {"TPC": [(15, "MAJOR"), (16, "MAJOR"), (18, "MINOR")], "MIDI": [(0, "MAJOR"), (7, "MAJOR"), (9, "MINOR")]}
CHORDS = {"TPC": [(15, "MAJOR", 0), (16, "MAJ_MIN7", 1), (17, "MINOR", 2), (20, "DIM7", 3)],
          "MIDI": [(0, "MAJOR", 0), (7, "MAJ_MIN7", 1), (2, "MINOR", 2), (11, "DIM7", 3)]}


class World:
    def __init__(self):
        import numpy as np
        import pandas as pd
        import h5py
        from harmonic_inference.data import datasets as ds
        from harmonic_inference.data.chord import Chord
        from harmonic_inference.data.key import Key
        from harmonic_inference.data.note import Note
        from harmonic_inference.data.piece import ScorePiece

        self.np, self.pd, self.ds, self.h5py = np, pd, ds, h5py
        self.Chord, self.Key, self.Note, self.Piece = Chord, Key, Note, ScorePiece
        self.PT, self.CT, self.KM = repo.enums()
        self.windows = {}
        self.measures = pd.DataFrame({
            "mc": list(range(12)), "timesig": "4/4", "act_dur": [F(1)] * 12, "mc_offset": [F(0)] * 12,
            "next": pd.Series(list(range(1, 12)) + [None], dtype=object)})

    def spot(self, t):
        return int(t), t - int(t)

    def piece(self, pt, desc):
        """desc: (rhythm, pitches, segs [(first note, chord (root, type, inv), key)])."""
        rhythm, pitches, segs = desc
        starts = [sum(rhythm[:i], F(0)) for i in range(len(rhythm) + 1)]
        p = self.PT[pt]
        notes = [self.Note(pc, 4, self.spot(s), 1, F(1, 4), self.spot(s + F(1, 4)), 1, p,
                           mc_onset=s - int(s)) for s, pc in zip(starts, pitches)]
        chords, keys, changes, ranges, key_changes, last = [], [], [], [], [], None
        for j, (at, (root, t, inv), key) in enumerate(segs):
            stop = segs[j + 1][0] if j + 1 < len(segs) else len(rhythm)
            chords.append(self.Chord(
                root, T.members(t, root, pt)[inv], key[0], self.KM[key[1]], self.CT[t], inv,
                self.spot(starts[at]), j % 4, self.spot(starts[stop]), (j + 1) % 4,
                starts[stop] - starts[at], p))
            changes.append(at)
            ranges.append((at, stop))
            if key != last:
                m = self.KM[key[1]]
                keys.append(self.Key(key[0], KEYS[pt][0][0], KEYS[pt][1][0], m, self.KM["MAJOR"],
                                     self.KM["MINOR"], p))
                key_changes.append(j)
                last = key
        return self.Piece(self.measures, notes, chords, keys, changes, ranges, key_changes)


def f16(np, rows):
    return np.array(rows, dtype=np.float16).astype(float).tolist()


# ---- reference items ---------------------------------------------------------------------------
def ref_transition(w, pt, descs, cfg):
    out = []
    for rhythm, pitches, segs in descs:
        piece = w.piece(pt, (rhythm, pitches, segs))
        gaps = list(rhythm)
        notes = list(piece.get_inputs())
        rows = [n.to_vec(dur_from_prev=gaps[i - 1] if i else None, dur_to_next=gaps[i])
                for i, n in enumerate(notes)]
        changes = {s[0] for s in segs}
        tg = [-100 if i == 0 or gaps[i - 1] == 0 else int(i in changes) for i in range(len(notes))]
        out.append(dict(inputs=f16(w.np, rows), targets=tg, input_lengths=len(rows), target_lengths=len(rows)))
    return out


@functools.lru_cache(None)
def label_index(pt, inv, relative, red):
    m = dict(T.TRIAD_OF) if red == "triad" else T.identity()
    return {x: i for i, x in enumerate(T.labels(pt, inv, relative, False, m))}


def ref_classification(w, pt, descs, cfg):
    red, inv, (lo, hi) = cfg["reduction"], cfg["use_inversions"], cfg["transposition_range"]
    m = dict(T.TRIAD_OF) if red == "triad" else T.identity()
    index = label_index(pt, inv, False, red)
    n = T.NUM[pt]
    out = []
    for desc in descs:
        if (pt, desc) not in w.windows:
            w.windows[(pt, desc)] = [f16(w.np, x) for x in w.piece(pt, desc).get_chord_note_inputs()]
        for rows, (_, (root, t, i), _) in zip(w.windows[(pt, desc)], desc[2]):
            for tr in range(lo, hi + 1):
                lab = (root + tr, m[t], i if inv else 0)
                mem = T.members(m[t], root + tr, pt)
                new, ok = [], 0 <= lab[0] < n and 0 <= mem[lab[2]] < n
                lost = ok and not all(0 <= x < n for x in mem)
                for r in rows:
                    r = list(r)
                    if any(r) and tr:
                        p = r[:n].index(1.0)
                        ok = ok and 0 <= p + tr < n
                        r[p] = 0.0
                        r[(p + tr) % n] = 1.0
                    new.append(r)
                wrapped = pt == "MIDI" and not ok
                lost = lost and ok
                if ok or wrapped:
                    lab = (lab[0] % n, lab[1], lab[2])
                    item = dict(inputs=new, targets=index[lab], input_lengths=len(new),
                                intermediate_targets=dict(
                                    root=lab[0], bass=mem[lab[2]] % n,
                                    pitches=[int(x in {y % n if pt == "MIDI" else y for y in mem})
                                             for x in range(n)]))
                if not ok or lost:
                    # not representable: marked as unusable (wrapping round is as good for semitones, and
                    # so is a chord without its unrepresentable inner notes)
                    unused = dict(inputs=[], targets=-1, input_lengths=-1, intermediate_targets=dict(
                        root=-1, bass=-1, pitches=[0] * n))
                    item = (unused, item) if wrapped or lost else unused
                out.append(item)
    return out


def chord_rows(pt, segs, rhythm, pad, upto=None):
    """Chord and key-change vectors of a piece (unreduced parts as tuples)."""
    rows, last = [], None
    starts = [sum(rhythm[:i], F(0)) for i in range(len(rhythm) + 1)]
    for j, (at, (root, t, inv), key) in enumerate(segs):
        stop = segs[j + 1][0] if j + 1 < len(segs) else len(rhythm)
        rows.append([root, t, inv, key, j, starts[stop] - starts[at],
                     None if last in (None, key) else (last, key)])
        last = key
    return rows


def vec(pt, row, pad, m, use_inv, relative_to=None):
    root, t, inv, key, j, dur, change = row
    key = relative_to or key
    ri, bi = rel(root, key[0], pt, pad), rel(T.members(t, root, pt)[inv], key[0], pt, pad)
    v = chord_vec(pt, pad, ri, m[t], bi, inv if use_inv else 0, j % 4, (j + 1) % 4, float(dur), key[1] == "MAJOR")
    zero = [0.0] * len(key_vec(pt, 0, "MAJOR"))
    if change is None or relative_to is not None:
        return v + zero + [0.0]
    (a, _), (b, mode) = change
    return v + key_vec(pt, (b - a) % 12 if pt == "MIDI" else b - a, mode) + [1.0]


def ref_sequence(w, pt, descs, cfg):
    mi = dict(T.TRIAD_OF) if cfg["input_reduction"] == "triad" else T.identity()
    mo = dict(T.TRIAD_OF) if cfg["output_reduction"] == "triad" else T.identity()
    ii, io = cfg["use_inversions_input"], cfg["use_inversions_output"]
    index = label_index(pt, io, True, cfg["output_reduction"])
    n = len(T.roots(pt, True, False))
    out = []
    longest = max(len(d[2]) for d in descs)
    for rhythm, pitches, segs in descs:
        rows = chord_rows(pt, segs, rhythm, False)
        tg = []
        for j in range(longest if cfg["pitch_based"] else len(rows)):
            if j < len(rows):
                root, t, inv, key, _, _, change = rows[j]
                r = (root - key[0]) % 12 if pt == "MIDI" else root - key[0]
            if not cfg["pitch_based"]:
                tg.append(index[(r, mo[t], inv if io else 0)])
            elif j == 0 or j >= len(rows) or change is not None:
                tg.append([-100] * n)
            else:
                base = r if pt == "MIDI" else r - T.REL_MIN
                mem = {x % n if pt == "MIDI" else x for x in T.members(mo[t], base, pt)}
                assert all(0 <= x < n for x in mem)
                tg.append([int(x in mem) for x in range(n)])
        out.append(dict(inputs=f16(w.np, [vec(pt, r, False, mi, ii) for r in rows]), targets=tg,
                        input_lengths=len(rows), target_lengths=len(rows)))
    return out


def ref_keys(w, pt, descs, cfg, sequence):
    m = dict(T.TRIAD_OF) if cfg["reduction"] == "triad" else T.identity()
    inv = cfg["use_inversions"]
    klabels = {x: i for i, x in enumerate(T.key_labels(pt, True))}
    out = []
    for rhythm, pitches, segs in descs:
        rows = chord_rows(pt, segs, rhythm, True)
        cuts = [0] + [j for j, r in enumerate(rows) if r[6] is not None] + [len(rows)]
        for a, b in zip(cuts, cuts[1:]):
            last = b == len(rows)
            if sequence and last:
                continue
            ins = [vec(pt, r, True, m, inv) for r in rows[:b]]
            if not last:
                ins.append(vec(pt, rows[b], True, m, inv, relative_to=rows[a][3]))
            item = dict(inputs=f16(w.np, ins), input_lengths=len(ins))
            if sequence:
                (x, _), (y, mode) = rows[b][6]
                item["targets"] = klabels[((y - x) % 12 if pt == "MIDI" else y - x, mode)]
            else:
                item["targets"] = [-100] * (a + 1) + [0] * (b - a - 1) + ([] if last else [1])
            out.append(item)
    return out


def ref_key_transition(w, pt, descs, cfg):
    return ref_keys(w, pt, descs, cfg, False)


def ref_key_sequence(w, pt, descs, cfg):
    return ref_keys(w, pt, descs, cfg, True)


KIND = {
    "ChordTransitionDataset": (ref_transition, [{}]),
    "ChordClassificationDataset": (ref_classification, [
        dict(reduction=r, use_inversions=i, transposition_range=t)
        for r, i in ((None, True), (None, False), ("triad", False))
        for t in ((0, 0), (-1, 1), (-3, -1), (2, 2))]),
    "ChordSequenceDataset": (ref_sequence, [
        dict(input_reduction=a, output_reduction=b, use_inversions_input=x, use_inversions_output=y, pitch_based=p)
        for a in (None, "triad") for x in (True, False)
        for b, y in ((None, True), (None, False), ("triad", False)) for p in (False, True)]),
    "KeyTransitionDataset": (ref_key_transition, [
        dict(reduction=a, use_inversions=x) for a in (None, "triad") for x in (True, False)]),
    "KeySequenceDataset": (ref_key_sequence, [
        dict(reduction=a, use_inversions=x) for a in (None, "triad") for x in (True, False)]),
}


def kwargs(w, cfg):
    tri = repo.real_reduction(dict(T.TRIAD_OF), w.CT)
    return {k: (tri if v == "triad" else None) if "reduction" in k else v for k, v in cfg.items()}


def lst(x):
    return x.tolist() if hasattr(x, "tolist") else x


def plain(x):
    """Numbers out of arrays and scalars; -0.0 as 0."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "tolist"):
        return plain(x.tolist())
    return x + 0.0


def item_ok(got, want, kind):
    """None if the item is as wanted, else what is wrong."""
    if isinstance(got, Raised):
        return "reading the item failed: %r" % (got,)
    if set(got) != set(want):
        return "the item has the fields %s, not %s" % (sorted(got), sorted(want))
    inputs, length = plain(got["inputs"]), want["input_lengths"]
    if plain(got["input_lengths"]) != length:
        return "the input length is %s, not %s" % (got["input_lengths"], length)
    if "target_lengths" in want and plain(got["target_lengths"]) != want["target_lengths"]:
        return "the target length is %s" % (got["target_lengths"],)
    n = len(want["inputs"])
    if inputs[:n] != want["inputs"]:
        bad = [i for i, (a, b) in enumerate(zip(inputs, want["inputs"])) if a != b]
        return "the inputs differ at %s: %s, not %s" % (bad[:3], inputs[bad[0]] if bad else len(inputs),
                                                       want["inputs"][bad[0]] if bad else n)
    if "Key" not in kind and any(any(r) for r in inputs[n:]):
        return "the inputs are not padded with zeros"
    targets = plain(got["targets"])
    if isinstance(want["targets"], list):
        if kind == "KeyTransitionDataset":
            if len(targets) != len(inputs) or any(t != -100 for t in targets[len(want["targets"]):]):
                return "the targets are not padded with -100 to the inputs' length: %s" % targets
        targets = targets[:len(want["targets"])]
    if targets != plain(want["targets"]):
        return "the targets are %s, not %s" % (targets, want["targets"])
    if "intermediate_targets" in want and plain(got["intermediate_targets"]) != plain(
            want["intermediate_targets"]):
        return "the intermediate targets are %s, not %s" % (got["intermediate_targets"],
                                                            want["intermediate_targets"])
    return None


def items(c, data, want, kind, what, case):
    c.equal(call(len, data), len(want), lambda: "the number of items %s" % what, case)
    shapes = set()
    for i, wnt in enumerate(want):
        got = call(data.__getitem__, i)
        bad = [item_ok(got, x, kind) for x in (wnt if isinstance(wnt, tuple) else (wnt,))]
        c.step()
        c.expect(None in bad, lambda: "%s item %d %s: %s" % (kind, i, what, bad[0]), lambda: case + [i])
        shapes.add(tuple(got["inputs"].shape))
    c.expect(len(shapes) <= 1, lambda: "%s: items of different shapes %s %s" % (kind, shapes, what), case)


def configure(w, data, cfg):
    for k, v in kwargs(w, cfg).items():
        setattr(data, k, v)
    if "transposition_range" in cfg:
        lo, hi = cfg["transposition_range"]
        data.num_transpositions = hi - lo + 1


def pieces_of(pt, sizes, chords, keys, simple=False):
    """Descriptions of pieces: every chord and key sequence of each size; one or two notes per chord."""
    out = []
    for n in sizes:
        for cs in itertools.product(chords, repeat=n):
            if any(a == b for a, b in zip(cs, cs[1:])):
                continue
            for ks in itertools.product(keys, repeat=n):
                rhythm, pitches, segs = [], [], []
                for j, (ch, k) in enumerate(zip(cs, ks)):
                    segs.append((len(rhythm), ch, k))
                    mem = T.members(ch[1], ch[0], pt)
                    for g, p in (((F(1, 2), mem[0]),) if simple or j % 2 else ((F(0), mem[0]), (F(1, 4), mem[1]))):
                        rhythm.append(g)
                        pitches.append(p)
                out.append((tuple(rhythm), tuple(pitches), tuple(segs)))
    return out


# ---- jobs --------------------------------------------------------------------------------------
def memory_job(c, job):
    kind, pt, lists, fresh = job[:4]
    w = World()
    c.section("items of " + kind)
    cls = getattr(w.ds, kind)
    ref, cfgs = KIND[kind]
    if len(job) > 4:
        cfgs = [cfgs[i] for i in job[4]]
    for descs in lists:
        case = [kind, pt, [d[2] for d in descs], [d[0] for d in descs]]
        made = [w.piece(pt, d) for d in descs]
        data = call(cls, made)
        c.expect(not isinstance(data, Raised), lambda: "making the dataset: %r" % (data,), case)
        for cfg in cfgs:
            try:
                want = ref(w, pt, descs, cfg)
            except (KeyError, AssertionError):
                continue  # a chord outside the requested labels
            if fresh:
                data = call(cls, [w.piece(pt, d) for d in descs], **kwargs(w, cfg))
                c.expect(not isinstance(data, Raised), lambda: "making the dataset: %r" % (data,), case)
            else:
                configure(w, data, cfg)  # these may be changed after the dataset is made
            items(c, data, want, kind, "with %s" % cfg, case + [cfg])
            c.state(repr(case), repr(cfg))
            c.trace(case[:3] + [cfg], (kind, repr(cfg), len(want)))


class Fault:
    def __init__(self, at):
        self.at, self.seen, self.log = at, 0, []

    def __call__(self, path, name, count):
        self.seen += 1
        self.log.append(name)
        if self.seen == self.at:
            raise MemoryError("no memory for read %d (%s)" % (self.at, name))


def load(w, cls, path, cfg, at=None, transform=None):
    fault = Fault(at)
    w.h5py.FAULT = fault
    try:
        data = call(w.ds.h5_to_dataset, path, cls, transform=transform, dataset_kwargs=kwargs(w, cfg))
    except MemoryError as e:
        data = Raised(e)
    finally:
        w.h5py.FAULT = None
    return data, fault


def file_job(c, job):
    kind, pt, descs, cfg_ids, chunks, follow = job
    w = World()
    c.section("files of " + kind)
    ref, cfgs = KIND[kind]
    cls = getattr(w.ds, kind)
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    try:
        case = [kind, pt, [d[2] for d in descs], [d[0] for d in descs]]
        made = [w.piece(pt, d) for d in descs]
        data = call(cls, made)
        path = os.path.join(folder, "deep", "er", "a.h5")
        ids = [(7 + 3 * i) % 11 for i in range(len(descs))]        # in no particular order
        got = call(data.to_h5, path, file_ids=ids)
        c.expect(not isinstance(got, Raised), lambda: "writing the dataset: %r" % (got,), case)
        with w.h5py.File(path, "r") as f:
            c.equal(plain(w.np.array(f["file_ids"])), plain(ids), "the file ids in the file", case)
        for cfg in [cfgs[i] for i in cfg_ids]:
            try:
                want = ref(w, pt, descs, cfg)
            except (KeyError, AssertionError):
                continue
            configure(w, data, cfg)
            items(c, data, want, kind, "after writing to a file", case + [cfg])
            for chunk in chunks:
                sub = cls if chunk is None else type(cls.__name__, (cls,), {"chunk_size": chunk})
                back, fault = load(w, sub, path, cfg)
                tag = case + [cfg, {"chunk": chunk}]
                c.expect(not isinstance(back, Raised), lambda: "reading the file: %r" % (back,), tag)
                items(c, back, want, kind, "from the file", tag)
                reads = fault.log
                for at in range(1, len(reads) + 1):
                    back, fault = load(w, sub, path, cfg, at)
                    tag = case + [cfg, {"chunk": chunk, "out of memory at": [at, reads[at - 1]]}]
                    if isinstance(back, Raised) and reads[at - 1] not in ("inputs", "targets"):
                        c.expect(isinstance(back.exc, MemoryError), lambda: "reading: %r" % (back,), tag)
                        continue
                    c.expect(not isinstance(back, Raised),
                             lambda: "a dataset too large for memory is not read from its file: %r" % (back,), tag)
                    items(c, back, want, kind, "read straight from the file", tag)
                    c.state(repr(tag))
                    c.trace(tag[:3] + tag[4:], (kind, at, len(reads)))
        if follow:
            histories(c, w, kind, pt, descs, cfgs[cfg_ids[0]], cls, folder, case)
    finally:
        shutil.rmtree(folder)


def histories(c, w, kind, pt, descs, cfg, cls, folder, case):
    """Every sequence of three of: read, write, load, load without memory, pad; then every item again."""
    try:
        want = KIND[kind][0](w, pt, descs, cfg)
    except (KeyError, AssertionError):
        return
    depth = 4 if c.thorough else 3
    for ops in itertools.product("rwlmp", repeat=depth):
        data = call(cls, [w.piece(pt, d) for d in descs], **kwargs(w, cfg))
        last, n = None, 0
        for op in ops:
            if op == "r":
                call(data.__getitem__, len(want) - 1)
            elif op == "w":
                n += 1
                new = os.path.join(folder, "h%d.h5" % n)
                r = call(data.to_h5, new)
                c.expect(not isinstance(r, Raised), lambda: "writing: %r" % (r,), case + ["".join(ops)])
                if last is not None:
                    os.remove(last)  # the dataset now lives in the new file
                last = new
            elif op == "p":
                r = call(data.pad) if getattr(data, "in_ram", True) else None
                c.expect(not isinstance(r, Raised), lambda: "padding: %r" % (r,), case + ["".join(ops)])
            elif last is not None:
                data, fault = load(w, cls, last, cfg)
                if op == "m":
                    big = [i for i, x in enumerate(fault.log) if x in ("inputs", "targets")]
                    data, fault = load(w, cls, last, cfg, big[0] + 1)
                c.expect(not isinstance(data, Raised), lambda: "loading: %r" % (data,), case + ["".join(ops)])
        items(c, data, want, kind, "after the history %s" % "".join(ops), case + ["".join(ops)])
        c.state(kind, repr(case), ops)
        c.trace([kind, "".join(ops)])
        if last is not None:
            os.remove(last)


def other_job(c, job):
    """Placeholder targets, given ranges, transforms, hidden states, empty datasets, padding."""
    kind, pt = job
    w = World()
    np = w.np
    c.section("other uses")
    descs = pieces_of(pt, (2,), CHORDS[pt][:3], KEYS[pt][:2])[:6] + pieces_of(pt, (1,), CHORDS[pt][:2], KEYS[pt][:1])
    cls = getattr(w.ds, kind)
    ref, cfgs = KIND[kind]
    for a, b in itertools.product(descs, repeat=2):
        case = [kind, pt, a[2], b[2]]
        want = ref(w, pt, [a, b], cfgs[0])
        data = cls([w.piece(pt, a), w.piece(pt, b)], transform=lambda x: ("t", x), **kwargs(w, cfgs[0]))
        plain_data = cls([w.piece(pt, a), w.piece(pt, b)], **kwargs(w, cfgs[0]))
        for i in range(len(want)):
            got, base = call(data.__getitem__, i), plain_data[i]
            c.expect(not isinstance(got, Raised), lambda: "a transformed item: %r" % (got,), case)
            for k, v in base.items():
                if isinstance(v, np.ndarray):
                    ok = isinstance(got[k], tuple) and got[k][0] == "t" and plain(got[k][1]) == plain(v)
                else:
                    ok = plain(got[k]) == plain(v)
                c.expect(ok, lambda: "field %s of a transformed item: %r" % (k, got[k]), case)
            c.step()
        if kind == "ChordTransitionDataset":
            data = cls([w.piece(pt, a), w.piece(pt, b)], dummy_targets=True)
            for i, x in enumerate(want):
                items(c, data, [dict(y, targets=[0] * len(y["targets"])) for y in want], kind,
                      "without known changes", case)
        if kind == "ChordClassificationDataset":
            ranges = [[(0, 1), (0, len(d[0])), (len(d[0]) - 1, len(d[0]))] for d in (a, b)]
            changes = [[r[0] for r in rs] for rs in ranges]
            data = cls([w.piece(pt, a), w.piece(pt, b)], ranges=ranges, change_indices=changes,
                       dummy_targets=True)
            rows = [f16(np, x) for d, rs, ch in zip((a, b), ranges, changes)
                    for x in w.piece(pt, d).get_chord_note_inputs(ranges=rs, change_indices=ch)]
            c.equal(len(data), len(rows), "number of given ranges", case)
            for i, x in enumerate(rows):
                got = call(data.__getitem__, i)
                c.expect(not isinstance(got, Raised) and plain(got["inputs"])[:len(x)] == x
                         and plain(got["targets"]) == 0 and got["input_lengths"] == len(x),
                         lambda: "the item of a given range: %r" % (got,), case)
        c.trace(case)
    # no pieces at all, or none with a key change: nothing to read, but a file all the same
    still = [w.piece(pt, d) for d in pieces_of(pt, (1, 2), CHORDS[pt][:2], KEYS[pt][:1])]
    if kind == "KeySequenceDataset":
        folder = tempfile.mkdtemp(dir=core.SCRATCH)
        try:
            for k in range(1, len(still) + 1):
                data = call(cls, still[:k])
                c.equal(data if isinstance(data, Raised) else len(data), 0, "items without key changes", [kind, k])
                path = os.path.join(folder, "e.h5")
                r = call(data.to_h5, path, file_ids=list(range(k)))
                c.expect(not isinstance(r, Raised),
                         lambda: "writing a split without key changes: %r" % (r,), [kind, pt, k])
                back, fault = load(w, cls, path, cfgs[0])
                c.equal(back if isinstance(back, Raised) else call(len, back), 0,
                        "items of a file without key changes", [kind, pt, k])
                c.trace([kind, "no key changes", k])
        finally:
            shutil.rmtree(folder)


def base_job(c, job):
    """The plain dataset the search feeds its models from."""
    w = World()
    np = w.np
    c.section("model inputs with hidden states")
    for n, width, layers in itertools.product((1, 2, 3), (1, 2), (1, 2)):
        for lens in itertools.product((1, 2, 3), repeat=n):
            for with_len, with_hidden in itertools.product((False, True), repeat=2):
                data = w.ds.HarmonicDataset()
                data.inputs = [np.arange(k * width, dtype=float).reshape(k, width) + 10 * i + 1
                               for i, k in enumerate(lens)]
                before = [x.tolist() for x in data.inputs]
                if with_len:
                    data.input_lengths = list(lens)
                hid = [np.arange(layers * n * 2).reshape(layers, n, 2) + s for s in (0, 100)]
                if with_hidden:
                    data.set_hidden_states((hid[0], hid[1]))
                case = [n, width, layers, lens, with_len, with_hidden]
                for _ in range(2):
                    for i in range(n):
                        got = call(data.__getitem__, i)
                        want = {"inputs": before[i] + [[0.0] * width] * ((max(lens) if with_len else lens[i]) - lens[i])}
                        if with_len:
                            want["input_lengths"] = lens[i]
                        if with_hidden:
                            want["hidden_states"] = [hid[0][:, i].tolist(), hid[1][:, i].tolist()]
                        c.equal(got if isinstance(got, Raised) else plain(got), plain(want),
                                "a model input", case + [i])
                c.equal([x.tolist() for x in data.inputs], before, "stored inputs after reading", case)
                c.trace(case)
    for n in (1, 2, 3):
        for shapes in itertools.product((0, 1, 2, 3), repeat=n):
            for tail in ((), (2,), (2, 2)):
                arr = [np.arange(int(np.prod((k,) + tail))).reshape((k,) + tail) + 1 for k in shapes]
                got = call(w.ds.pad_array, arr)
                case = ["pad", shapes, tail]
                c.expect(not isinstance(got, Raised), lambda: "padding: %r" % (got,), case)
                c.equal(list(got[1]), list(shapes), "lengths of padded arrays", case)
                c.equal(tuple(got[0].shape), (n, max(shapes)) + tail, "shape of padded arrays", case)
                for i, (k, a) in enumerate(zip(shapes, arr)):
                    c.equal(plain(got[0][i, :k]), plain(a), "padded content", case + [i])
                    c.expect(not got[0][i, k:].any(), "padding is not zero", case + [i])
                c.trace(case)


SPLITS = [(1,), (0.8, 0.1, 0.1), (0.5, 0.5), (1, 0, 1), (0, 1), (3, 2, 1), (0.25, 0.25, 0.5), (2, 0, 0)]


def split_job(c, job):
    """Files of a corpus, some without chords, measures or notes, some unreadable."""
    states, seeds, splits_list = job
    w = World()
    pd, np = w.pd, w.np
    c.section("splits")
    ids = [3 * i + 2 for i in range(len(states))]
    frames = {"notes": {}, "chords": {}, "measures": {}}
    for i, st in zip(ids, states):
        # one note per piece, of its own pitch
        k = ids.index(i)
        if st != "no notes":
            n = c14.notes_df(pd, [(F(0), F(1, 4), 60 + k, k)])
            frames["notes"][i] = n
        if st != "no chords":
            ch = c14.chords_df(pd, [("C", F(0), F(1, 4))])
            if st == "unreadable":
                ch["numeral"] = None
                ch["chord_type"] = None
            frames["chords"][i] = ch
        if st != "no measures":
            frames["measures"][i] = c14.measures(pd)
    dfs = {}
    for name, parts in frames.items():
        dfs[name] = pd.concat(parts, names=["file_id", "row"]) if parts else pd.DataFrame(
            index=pd.MultiIndex.from_tuples([], names=["file_id", "row"]))
    dfs["files"] = pd.DataFrame({"corpus_name": "c", "file_name": ["f%d" % i for i in ids]}, index=ids)
    good = [i for i, st in zip(ids, states) if st == "ok"]
    classes = [w.ds.ChordTransitionDataset, w.ds.KeyTransitionDataset, w.ds.ChordClassificationDataset]
    for splits in splits_list:
        for seed in seeds:
            case = [states, splits, seed]
            np.random.seed(seed + 77)
            got = call(w.ds.get_dataset_splits, classes, data_dfs=dfs, splits=splits, seed=seed)
            c.expect(not isinstance(got, Raised), lambda: "splitting: %r" % (got,), case)
            data, split_ids, pieces = got
            flat = [[int(x) for x in s] for s in split_ids]
            c.equal(sorted(x for s in flat for x in s), good, "every usable file in exactly one split", case)
            c.equal([len(flat), len(pieces), len(data)], [len(splits)] * 2 + [len(classes)], "splits", case)
            for s, part in enumerate(flat):
                share = len(good) * splits[s] / sum(splits)
                c.expect(abs(len(part) - share) < 1 + 1e-9 and (splits[s] > 0 or not part),
                         lambda: "split %d of %s has %d of %d files" % (s, splits, len(part), len(good)), case)
                c.equal([int(p.get_inputs()[0].pitch_class) for p in pieces[s]],
                        [ids.index(i) + 15 for i in part], "the piece of each file id", case)
                for d in range(len(classes)):
                    if not part:
                        c.expect(data[d][s] is None, "the dataset of an empty split", case)
                        continue
                    if d == 0:
                        one = [int(np.argmax(data[d][s][j]["inputs"][0][:35])) for j in range(len(data[d][s]))]
                        c.equal(one, [ids.index(i) + 15 for i in part], "the data of each split", case)
                    else:
                        c.equal(len(data[d][s]), len(part), "the data of each split", case)
            np.random.seed(seed + 1234)
            again = call(w.ds.get_split_file_ids_and_pieces, data_dfs=dfs, splits=splits, seed=seed)
            c.equal(again if isinstance(again, Raised) else [[int(x) for x in s] for s in again[0]], flat,
                    "the same seed gives the same splits", case)
            c.state(repr(case))
            c.trace(case, repr(flat))


def body(c):
    core.setup_imports(stubs=True)
    import pandas  # noqa: F401
    World()
    jobs = []
    for pt in ("TPC", "MIDI"):
        ch, ks = CHORDS[pt], KEYS[pt]
        for kind in KIND:
            lists = []
            one = pieces_of(pt, (1, 2), ch, ks[:2]) + pieces_of(pt, (3,), ch[:2] if not c.thorough else ch, ks)
            if c.thorough:
                one += pieces_of(pt, (4,), ch[:2], ks)
            if kind in ("ChordTransitionDataset", "ChordClassificationDataset"):
                one = pieces_of(pt, (1, 2, 3), ch, ks[:1])
            lists += [[d] for d in one]
            few = pieces_of(pt, (1,), ch[:2], ks[:1]) + pieces_of(pt, (2,), ch[1:3], ks[1:]) + pieces_of(
                pt, (3,), ch[:2], ks[:2])[:4]
            lists += [list(x) for x in itertools.product(few, repeat=2)]
            if c.thorough:
                lists += [list(x) for x in itertools.product(few[::2], repeat=3)]
            step = 12
            some = (range(len(KIND[kind][1])),)
            if kind == "ChordClassificationDataset" and not c.thorough:
                some = ((0, 5, 10), (1, 6, 11), (2, 7, 8), (3, 4, 9))
            for k in range(0, len(lists), step):
                jobs.append((memory_job, (kind, pt, lists[k:k + step], k // step % 2 == 0,
                                          some[k // step % len(some)])))
            few = pieces_of(pt, (1,), ch[:1], ks[:1]) + pieces_of(pt, (3,), ch[1:3], ks[1:])[1:4]
            for n in (1, 2, 3):
                for num, descs in enumerate(itertools.permutations(few, n)):
                    if kind == "KeySequenceDataset" and all(len(d[2]) == 1 for d in descs):
                        continue
                    if not c.thorough and (pt == "MIDI" and n != 2 or n == 3 and descs[0] != few[0]):
                        continue
                    jobs.append((file_job, (kind, pt, descs, list(range(len(KIND[kind][1])))[:: 1 if c.thorough else 3],
                                            (1, 2, None) if n > 1 else (1, None),
                                            c.thorough or (n == 2 and num in (0, 5)))))
            jobs.append((other_job, (kind, pt)))
    # simultaneous notes and changes anywhere
    for n in range(1, 7 if c.thorough else 6):
        lists, late = [], []
        for gaps in itertools.product((F(0), F(1, 4)), repeat=n - 1):
            rhythm = gaps + (F(1, 4),)
            spots = [i for i in range(1, n) if rhythm[i - 1] > 0]
            for k in range(len(spots) + 1):
                for cut in itertools.combinations(spots, k):
                    segs = tuple((at, CHORDS["TPC"][j % 2], KEYS["TPC"][0]) for j, at in enumerate((0,) + cut))
                    lists.append([(rhythm, tuple(15 + i for i in range(n)), segs)])
                    if cut:       # the first label comes after the first note
                        late.append([(rhythm, tuple(15 + i for i in range(n)), segs[1:])])
        jobs += [(memory_job, ("ChordTransitionDataset", "TPC", late[k:k + 40], True))
                 for k in range(0, len(late), 40)]
        for k in range(0, len(lists), 40):
            jobs.append((memory_job, ("ChordTransitionDataset", "TPC", lists[k:k + 40], True)))
            jobs.append((memory_job, ("ChordClassificationDataset", "TPC", lists[k:k + 40], False,
                                      range(12) if c.thorough else (1, 6))))
    # every chord label as a target, near the ends of the line of fifths too
    labels = [x for x in T.labels("TPC", True, False, False, T.identity())
              if all(0 <= y < 35 for y in T.members(x[1], x[0], "TPC"))]
    for k in range(0, len(labels), 60 if c.thorough else 40):
        jobs.append((memory_job, ("ChordClassificationDataset", "TPC", [
            [((F(1, 4),), (x[0],), ((0, x, (15, "MAJOR")),)) for x in labels[k:k + (60 if c.thorough else 40)]]],
            False, range(12) if c.thorough else (1, 6, 11))))
    jobs.append((base_job, None))
    bad = ("ok", "no chords", "no notes", "no measures", "unreadable")
    for n in (1, 2, 3):
        for states in itertools.product(bad, repeat=n):
            jobs.append((split_job, (states, (0,), SPLITS[1:3])))
    for n in range(0, 9 if c.thorough else 7):
        for st in (("ok",) * n, ("ok",) * n + ("unreadable",), ("no notes",) + ("ok",) * n):
            if len(st) > 0:
                jobs.append((split_job, (st, (0, 1, 2) if c.thorough else (0, 1), SPLITS)))
    jobs.sort(key=lambda j: j[0] is not file_job)
    c.bounds["keys"], c.bounds["chords"] = KEYS, CHORDS
    c.bounds["splits"] = SPLITS
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    check = core.Check("C25", RULE, {"history depth": 3}, assumptions=[
        "h5py is not installed: a stand-in stores named arrays in a file and lets each read fail; vectors of "
        "single notes and chord windows are decided by C07 and C14; items are compared at half precision, the "
        "precision in which datasets are stored"])
    return core.run(check, body)
