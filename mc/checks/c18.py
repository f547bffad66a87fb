"""C18 hypotheses of the search: score bookkeeping, history, validity, model inputs."""
from fractions import Fraction as F

from mc import core, repo, theory as T
from mc.checks.c06 import chord_vec, key_vec, rel
from mc.core import Raised, call

RULE = ("every chord x key pair for transition validity; every history of up to 3 (4) chords built from "
        "chord transitions, key changes, chord-sequence priors and rejoined ranges over a small alphabet "
        "of chords, keys and positions, re-executed from scratch; a plain list-of-segments model gives "
        "the expected score, history, hash, chord and key objects and model inputs after every step")

LO, HI, EXTRA = -14, 15, 5
CHORD_FIELDS = ["root", "bass", "key_tonic", "key_mode", "chord_type", "inversion", "onset", "offset",
                "duration", "pitch_type"]
KEY_FIELDS = ["relative_tonic", "local_tonic", "global_tonic", "relative_mode", "local_mode", "global_mode"]


def validity(c, job):
    from harmonic_inference.utils.beam_search_utils import State

    PT, CT, KM = repo.enums()
    pt, tonic = job
    c.section("validity")
    chords = T.labels(pt, True, False, False, T.identity())
    labels = {"chord": [(r, CT[t], i) for r, t, i in chords],
              "key": [(t, KM[m]) for t, m in T.key_labels(pt, False)]}
    key_id = tonic if tonic < T.NUM[pt] else tonic
    root_state = State(key=key_id)
    other = State(key=key_id)
    for ci, (root, t, inv) in enumerate(chords):
        bass = T.members(t, root, pt)[inv]
        case = [pt, "tonic %d" % tonic, root, t, inv]
        got = call(root_state.chord_transition, ci, 2, -1.5, PT[pt], labels)
        c.step()
        c.expect(not isinstance(got, Raised), "moving to a chord raised %r" % (got,), case)
        if pt == "MIDI":
            possible, fine = True, True
        else:
            rr, rb = root - tonic, bass - tonic
            possible = all(LO - EXTRA <= x < HI + EXTRA for x in (rr, rb)) and 0 <= bass < 35
            fine = all(LO <= x < HI for x in (rr, rb))
        c.expect((got is not None) == possible, "whether the chord is possible in this key: got %r, "
                 "expected %r" % (got is not None, possible), case)
        c.state(*case)
        c.trace(case + [possible, fine], (pt, possible, fine))
        if got is None:
            continue
        c.equal((got.is_valid(), got.is_valid(check_key=True)), (True, fine),
                "whether the chord needs a key change", case)
        c.equal((got.log_prob, got.chord, got.key, got.change_index), (-1.5, ci, key_id, 2),
                "state after the chord", case)
        # the same chord, entered in a key where it may need a change, changed to this key
        if pt == "TPC" and 0 <= bass < 35:
            tmp = State(chord=ci, key=other.key, change_index=2, prev_state=other)
            got = call(tmp.key_transition, key_id, -2.0, PT[pt], labels)
            c.step()
            c.expect(not isinstance(got, Raised) and (got is not None) == fine,
                     "whether the key can be changed under the chord: got %r, expected %r" % (got, fine),
                     case)
            if got is not None:
                c.expect(got.is_valid(check_key=True), "a changed key fits its chord", case)


# ---- histories ---------------------------------------------------------------------------------
DUR = [F(1, 4), F(0), F(1, 2), F(1, 8), F(3, 4)]
ONSETS = [(0, F(0)), (0, F(1, 4)), (0, F(1, 4)), (0, F(3, 4)), (1, F(0)), (1, F(3, 4))]
LEVELS = [3, 1, 1, 2, 3, 0]
CUTS = [1, 3, 4, 5]
HASH = 2


class Seg:
    def __init__(self, start, end, chord, key, lp):
        self.start, self.end, self.chord, self.key = start, end, chord, key
        self.lp, self.ktm, self.ksm, self.csm = lp, 0.0, 0.0, 0.0

    def copy(self):
        s = Seg(self.start, self.end, self.chord, self.key, self.lp)
        s.ktm, s.ksm, s.csm = self.ktm, self.ksm, self.csm
        return s

    @property
    def total(self):
        return self.lp + self.ktm + self.ksm + self.csm


class World:
    def __init__(self, pt, pitch_based, red_name):
        import numpy as np
        import torch

        self.np, self.torch = np, torch
        self.PT, self.CT, self.KM = repo.enums()
        self.pt, self.pitch_based, self.red_name = pt, pitch_based, red_name
        self.red = dict(T.reductions())[red_name]
        c0 = 15 if pt == "TPC" else 0
        g = 16 if pt == "TPC" else 7
        b = 2 if pt == "TPC" else 9           # a chord far away from C (TPC: needs a key change)
        self.chords = [(c0, "MAJOR", 0), (g, "MAJ_MIN7", 1), (b, "MINOR", 0)]
        self.keys = [(c0, "MAJOR"), ((c0 + 3) if pt == "TPC" else 9, "MINOR"),
                     ((c0 - 10) if pt == "TPC" else 2, "MAJOR")]
        self.labels = {"chord": [(r, self.CT[t], i) for r, t, i in self.chords],
                       "key": [(t, self.KM[m]) for t, m in self.keys]}
        self.full = T.labels(pt, True, True, False, T.identity())
        self.out = T.labels(pt, not pitch_based, True, False, self.red)
        n = 12 if pt == "MIDI" else HI - LO
        if pitch_based:
            self.prior = np.array([0.1 + 0.02 * i for i in range(n)])
        else:
            self.prior = np.array([-0.01 * (i + 1) for i in range(len(self.out))])
        self.icm = np.array([-0.003 * (i + 1) for i in range(len(self.full))])

    def fine(self, chord, key):
        if self.pt == "MIDI":
            return True
        root, t, inv = self.chords[chord]
        bass = T.members(t, root, self.pt)[inv]
        tonic = self.keys[key][0]
        return LO <= root - tonic < HI and LO <= bass - tonic < HI

    def possible(self, chord, key):
        if self.pt == "MIDI":
            return True
        root, t, inv = self.chords[chord]
        bass = T.members(t, root, self.pt)[inv]
        tonic = self.keys[key][0]
        return all(LO - EXTRA <= x - tonic < HI + EXTRA for x in (root, bass))

    def csm(self, seg, first):
        import math

        root, t, inv = self.chords[seg.chord]
        tonic = self.keys[seg.key][0]
        r = (root - tonic) % 12 if self.pt == "MIDI" else root - tonic
        length = seg.end - seg.start
        if first:
            return float(self.icm[self.full.index((r, t, inv))]) * length
        t2 = self.red[t]
        if not self.pitch_based:
            i2 = inv if inv < T.n_members(t2) else 0
            return float(self.prior[self.out.index((r, t2, i2))]) * length
        mem = set(T.members(t2, r, self.pt))
        lo = 0 if self.pt == "MIDI" else LO
        tot = 0.0
        for i, p in enumerate(self.prior):
            tot += math.log(p) if (i + lo) in mem else math.log(1 - p)
        return tot * length

    def vec(self, segs, i, pad):
        """Chord vector of segment i followed by its key change."""
        seg = segs[i]
        root, t, inv = self.chords[seg.chord]
        bass = T.members(t, root, self.pt)[inv]
        tonic, mode = self.keys[seg.key]
        v = chord_vec(self.pt, pad, rel(root, tonic, self.pt, pad), t, rel(bass, tonic, self.pt, pad), inv,
                      LEVELS[seg.start], LEVELS[seg.end],
                      float(sum(DUR[seg.start:seg.end])), mode == "MAJOR")
        prev = segs[i - 1].key if i else self.key0
        if prev != seg.key:
            iv = tonic - self.keys[prev][0]
            if self.pt == "MIDI":
                iv %= 12
            return v + key_vec(self.pt, iv, mode) + [1.0]
        return v + [0.0] * (14 if self.pt == "MIDI" else 31) + [0.0]


class Hashes:
    """Two states have the same hash exactly if their last (key, chord) pairs are the same."""

    def __init__(self, length):
        self.length, self.to, self.of = length, {}, {}

    def check(self, c, state, hist, case):
        last = tuple(([None] * self.length + hist)[-self.length:])
        h = state.get_hash()
        c.expect(self.to.setdefault(last, h) == h and self.of.setdefault(h, last) == last,
                 lambda: "states with the last labels %s and %s (hash length %d) have the hashes %s and %s"
                 % (last, self.of.get(h), self.length, h, self.to.get(last)), case)


def hashes(c, job):
    """Every chain of chords and keys against every hash length."""
    from harmonic_inference.utils.beam_search_utils import State

    pt, length, first = job
    depth = 6 if c.thorough else 5
    w = World(pt, False, "none")
    P = w.PT[pt]
    c.section("hash lengths")
    table = Hashes(length)

    def walk(state, hist, n):
        case = [pt, "hash length", length, [list(x) for x in hist]]
        c.step()
        c.state(*map(str, case))
        c.trace(case, "hash")
        table.check(c, state, hist, case)
        if n == depth:
            return
        for ch in range(3):
            if hist[-1][1] == ch or (n == 0 and ch != first) or not w.possible(ch, hist[-1][0]):
                continue
            new = state.chord_transition(ch, n + 1, -1.0, P, w.labels)
            key = hist[-1][0]
            if w.fine(ch, key):
                walk(new, hist + [(key, ch)], n + 1)
            other = (key + 1) % 3
            if n and w.fine(ch, other):
                moved = state.chord_transition(ch, n + 1, -1.0, P, w.labels)
                walk(moved.key_transition(other, -1.0, P, w.labels), hist + [(other, ch)], n + 1)

    for key0 in range(3):
        walk(State(key=key0, hash_length=length), [(key0, None)], 0)


def histories(c, job):
    import numpy as np
    from harmonic_inference.utils.beam_search_utils import State

    pt, pitch_based, red_name, depth, key0, first_chord, first_end = job
    w = World(pt, pitch_based, red_name)
    w.key0 = key0
    P = w.PT[pt]
    c.section("histories %s %s %s" % (pt, "pitches" if pitch_based else "chords", red_name))
    args = (P, np.array(DUR), ONSETS, LEVELS, w.labels)
    tensor = w.torch.tensor
    tables = {n: Hashes(n) for n in (1, 2, 3)}

    def hidden(n):
        return (tensor([float(n)]), tensor([float(n) + 0.5]))

    def look(s):
        """Everything that can be asked of a state."""
        ch, k = s.get_chord(*args), s.get_key(P, w.labels)
        return ([getattr(ch, f) for f in CHORD_FIELDS], [getattr(k, f) for f in KEY_FIELDS],
                np.asarray(s.get_ktm_input(*args)).tolist(), np.asarray(s.get_ksm_input(*args)).tolist())

    def replay(ops, watch=False, length=HASH):
        """Execute the ops on real states; return the final state (and all states on the way). With
        watch, ask every state on the way for its chord, key and inputs (which must not matter)."""
        s = State(key=key0, hash_length=length)
        s.csm_log_prior = w.icm
        seen = [s]
        n = 0
        for op in ops:
            n += 1
            if op[0] == "T":
                s = s.chord_transition(op[1], op[2], op[3], P, w.labels)
            elif op[0] == "R":
                s = s.rejoin(op[1], op[2], P, w.labels)
            elif op[0] == "ktm":
                s.add_ktm_log_prob(op[1])
                s.ktm_hidden_state = hidden(n)
            elif op[0] == "K":
                s.ksm_hidden_state = hidden(-n)          # a run of the old key, must not survive
                s = s.key_transition(op[1], op[2], P, w.labels)
                s.ktm_hidden_state = hidden(100 + n)     # the search runs both once more
                s.ksm_hidden_state = hidden(n)
            elif op[0] == "csm":
                s.add_csm_prior(pitch_based, *args, not pitch_based, repo.real_reduction(w.red, w.CT))
            elif op[0] == "run":
                s.csm_log_prior = w.prior
                s.csm_hidden_state = hidden(1000 + n)
            elif op[0] == "copy":
                s = s.copy()
            seen.append(s)
            if watch:
                look(s)
        return s, seen

    def snapshot(s):
        return (s.log_prob, s.chord, s.key, s.change_index, s.get_chords(), s.get_keys())

    def check(ops, segs, complete):
        got = call(replay, ops)
        case = {"pitch type": pt, "ops": ops}
        c.expect(not isinstance(got, Raised), "history raised %r" % (got,), case)
        s, seen = got
        c.step(len(ops))
        want = sum(x.total for x in segs)
        c.expect(core.close(s.log_prob, want, 1e-9), "score: got %r, expected %r" % (s.log_prob, want),
                 case)
        c.equal(s.get_chords(), ([x.chord for x in segs], [0] + [x.end for x in segs]),
                "chord history", case)
        keys, ends = [], [0]
        for x in segs:
            if keys and keys[-1] == x.key:
                ends[-1] = x.end
            else:
                keys.append(x.key)
                ends.append(x.end)
        c.equal(s.get_keys(), (keys, ends), "key history", case)
        hist = [(key0, None)] + [(x.key, x.chord) for x in segs]
        tables[HASH].check(c, s, hist, case)
        c.equal(s.is_valid(check_key=True), w.fine(segs[-1].chord, segs[-1].key),
                "whether a key change is needed", case)
        c.equal(s.can_key_transition(), len(segs) > 1, "whether the key may change", case)
        root, t, inv = w.chords[segs[-1].chord]
        tonic, mode = w.keys[segs[-1].key]
        ch = s.get_chord(*args)
        x = segs[-1]
        c.equal((ch.root, ch.bass, ch.key_tonic, ch.key_mode, ch.chord_type, ch.inversion, ch.onset,
                 ch.offset, ch.metrical_onset if hasattr(ch, "metrical_onset") else ch.onset_level,
                 ch.offset_level, ch.duration, ch.pitch_type),
                (root, T.members(t, root, pt)[inv], tonic, w.KM[mode], w.CT[t], inv, ONSETS[x.start],
                 ONSETS[x.end], LEVELS[x.start], LEVELS[x.end], sum(DUR[x.start:x.end]), P),
                "chord object", case)
        k = s.get_key(P, w.labels)
        gt, gm = w.keys[key0]
        c.equal((k.relative_tonic, k.local_tonic, k.global_tonic, k.relative_mode, k.local_mode,
                 k.global_mode), (tonic, tonic, gt, w.KM[mode], w.KM[mode], w.KM[gm]), "key object", case)
        c.equal([float(v) for v in np.asarray(s.get_ktm_input(*args)).reshape(-1)],
                [float(np.float64(v)) for v in w.vec(segs, len(segs) - 1, True)],
                "key transition input", case)
        if complete and w.fine(segs[-1].chord, segs[-1].key):
            c.equal([float(v) for v in np.asarray(s.get_csm_input(*args)).reshape(-1)],
                    w.vec(segs, len(segs) - 1, False), "chord sequence input", case)
        # KSM input: everything since the last key change (exclusive)
        begin = 0
        for i in range(1, len(segs) - 1 + 1):
            if i < len(segs) - 1 and segs[i].key != segs[i - 1].key:
                begin = i + 1
        rows = [[float(v) for v in r] for r in np.asarray(s.get_ksm_input(*args))]
        c.equal(rows, [w.vec(segs, i, True) for i in range(begin, len(segs))], "key sequence input", case)
        # nothing that happened later changed the history of an earlier state
        snaps = [snapshot(x) for x in seen if x.prev_state is not None]
        length = (None, 1, 3)[len(ops) % 3]
        s2, seen2 = replay(ops, watch=True, length=length)
        if length:
            tables[length].check(c, s2, hist, case)
        else:
            c.expect(s2.get_hash() == s2.get_hash() and s2.get_hash() != s2.prev_state.get_hash(),
                     "without a hash length, every state has a hash of its own", case)
        again = [snapshot(x) for x in seen2 if x.prev_state is not None]
        c.expect(snaps == again, "replaying a history gives the same states", case)
        c.equal(look(s2), look(s), "what a state reports when its past states had been asked too", case)
        # a copy is indistinguishable now and when it is rejoined later
        cp = s.copy()
        c.expect(snapshot(cp) == snapshot(s) and cp.get_hash() == s.get_hash(), "a copy equals the original",
                 case)
        if complete:
            a, b = s.rejoin(5, -0.125, P, w.labels), cp.rejoin(5, -0.125, P, w.labels)
            c.expect(core.close(a.log_prob, b.log_prob), "a rejoined copy scores like the rejoined "
                     "original: %r vs %r" % (b.log_prob, a.log_prob), case)
        c.state(pt, key0, tuple((x.start, x.end, x.chord, x.key) for x in segs), complete)
        if complete:
            c.trace({"pt": pt, "ops": ops, "score": want}, (tuple(keys), round(want, 6)))

    def finish(ops, segs, used_rejoin):
        """All ways to complete the pending segment: stay in key, or change key."""
        x = segs[-1]
        lp = -0.5 - 0.0625 * len(segs)
        ops1 = ops + [("ktm", lp)]
        s1 = [y.copy() for y in segs]
        s1[-1].ktm = lp
        check(ops1, s1, False)
        if w.fine(x.chord, x.key):
            s2 = [y.copy() for y in s1]
            s2[-1].csm = w.csm(s2[-1], len(segs) == 1)
            check(ops1 + [("csm",)], s2, True)
            grow(ops1 + [("csm",), ("run",)], s2, used_rejoin)
        if len(segs) > 1:
            for k in range(len(w.keys)):
                if k == x.key or not w.fine(x.chord, k):
                    continue
                s2 = [y.copy() for y in s1]
                s2[-1].ksm = -0.75 - 0.125 * k
                s2[-1].key = k
                ops2 = ops1 + [("K", k, -0.75 - 0.125 * k)]
                check(ops2, s2, True)
                grow(ops2 + [("run",)], s2, used_rejoin)

    def grow(ops, segs, used_rejoin):
        start = segs[-1].end
        for end in [e for e in CUTS if e > start]:
            if used_rejoin < 2:
                # rejoin: as if the last range had reached to `end` from the beginning
                s2 = [y.copy() for y in segs]
                y = s2[-1]
                y.lp += -0.03125
                y.ktm = y.ksm = y.csm = 0.0
                y.end = end
                y.key = s2[-2].key if len(s2) > 1 else key0
                if w.possible(y.chord, y.key):
                    check(ops + [("R", end, -0.03125)], s2, False)
                    finish(ops + [("R", end, -0.03125)], s2, used_rejoin + 1)
            if len(segs) >= depth:
                continue
            for ch in range(len(w.chords)):
                if ch == segs[-1].chord or not w.possible(ch, segs[-1].key):
                    continue
                lp = -1.0 - 0.25 * ch
                s2 = [y.copy() for y in segs] + [Seg(start, end, ch, segs[-1].key, lp)]
                check(ops + [("T", ch, end, lp)], s2, False)
                finish(ops + [("T", ch, end, lp)], s2, used_rejoin)

    if not w.possible(first_chord, key0):
        return
    first = Seg(0, first_end, first_chord, key0, -1.0)
    ops = [("T", first_chord, first_end, -1.0)]
    check(ops, [first], False)
    finish(ops, [first], 0)


def body(c):
    core.setup_imports(stubs=True)
    import harmonic_inference.utils.beam_search_utils  # noqa: F401

    core.parallel(c, validity, [("TPC", t) for t in range(35)] + [("MIDI", t) for t in (0, 5, 11)])
    core.parallel(c, hashes, [(pt, n, first) for pt in ("TPC", "MIDI") for n in range(1, 7) for first in range(3)])
    jobs = []
    for pt in ("TPC", "MIDI"):
        for pb, red in ((False, "none"), (False, "triad"), (True, "none"), (True, "triad")):
            depth = 3 if (not pb and red == "none") or c.thorough else 2
            for key0 in range(3):
                for ch in range(3):
                    for end in CUTS[:-1]:
                        if depth == 3 and not c.thorough and (end != 1 or key0 == 2):
                            continue
                        jobs.append((pt, pb, red, depth, key0, ch, end))
    core.parallel(c, histories, jobs)


def main():
    c = core.Check("C18", RULE, {
        "validity": "35 tonics x 1540 chords (TPC), 3 tonics x 528 chords (MIDI)",
        "histories": "<= 3 chords, <= 2 rejoins, 5 inputs, 3 chords x 3 keys; output vocabularies full and "
                     "reduced, chord based and pitch based",
        "hashes": "lengths 1-6, every chain of <= 5 (6) chords"})
    return core.run(c, body)
