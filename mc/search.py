"""End-to-end search harness: the real HarmonicInferenceModel with scripted networks.

Every network (CTM, CCM, CSM, KTM, KSM) is a real model object whose `forward` is replaced by a
function of the exact inputs and hidden state it is given, looked up in small enumerated answer
tables.  Hidden states carry a hash of everything the network has seen.  The reference below
enumerates every admissible harmony as a list of segments and scores it from its definition.
"""
import hashlib
import itertools
import math
from fractions import Fraction as F

from mc import repo, theory as T
from mc.checks.c06 import chord_vec, key_vec, rel
from mc.core import Raised, call

LO, HI, EXTRA = -14, 15, 5
MOD = 99991
LAYERS, DIM = 2, 3

# name: [(onset, offset, onset level, offset level, pitch)] in whole notes from the start (measures of 1)
LAYOUTS = {
    "three": [(F(0), F(1, 4), 3, 1, 0), (F(1, 4), F(1, 2), 1, 2, 4), (F(1, 2), F(1), 2, 3, 7)],
    "chordal": [(F(0), F(3, 4), 3, 1, 0), (F(1, 4), F(1, 2), 1, 2, 4), (F(1, 4), F(1), 1, 3, 7),
                (F(3, 4), F(5, 4), 1, 1, 5)],
    "start": [(F(0), F(1, 2), 3, 2, 0), (F(0), F(1, 4), 3, 1, 7), (F(1, 4), F(1, 2), 1, 2, 2),
              (F(1, 2), F(1), 2, 3, 5)],
    "four": [(F(0), F(1, 4), 3, 1, 0), (F(1, 4), F(3, 4), 1, 1, 2), (F(3, 4), F(1), 1, 3, 4),
             (F(1), F(3, 2), 3, 2, 5)],
    "five": [(F(0), F(1, 4), 3, 1, 0), (F(1, 4), F(1, 2), 1, 2, 2), (F(1, 2), F(3, 4), 2, 1, 4),
             (F(3, 4), F(1), 1, 3, 5), (F(1), F(2), 3, 3, 7)],
    "two": [(F(0), F(1, 2), 3, 2, 0), (F(1, 2), F(1), 2, 3, 4)],
    "one": [(F(0), F(1), 3, 3, 0)],
    "block": [(F(0), F(1), 3, 3, 0), (F(0), F(1), 3, 3, 4), (F(0), F(1), 3, 3, 7)],
}


def at(t):
    return (int(t // 1), t % 1)


def durations(layout):
    notes = LAYOUTS[layout]
    end = max(x[1] for x in notes)
    ons = [x[0] for x in notes] + [end]
    return [b - a for a, b in zip(ons, ons[1:])]


def valid_positions(layout):
    """Inputs at which something can change: not the first, and the first one at their position."""
    notes = LAYOUTS[layout]
    return [i for i in range(1, len(notes)) if notes[i][0] != notes[i - 1][0]]


def window_start(layout, start):
    """First note that starts at or sounds beyond the position of `start`."""
    notes = LAYOUTS[layout]
    t = notes[start][0]
    return next(i for i, x in enumerate(notes) if x[0] >= t or x[1] > t)


def row_hash(row):
    txt = ",".join(str(int(round(float(x) * 96))) for x in row)
    return int.from_bytes(hashlib.blake2b(txt.encode(), digest_size=4).digest(), "big")


def fold(v, row):
    return (v * 31 + row_hash(row) + 1) % MOD


class Env:
    """Answer tables of the networks (all finite, all enumerable)."""

    def __init__(self, ctm, ccm=None, ktm=None, ksm=None, csm=None, ccm_p=None, jitter=1e-4, own=0.0):
        self.ctm = ctm                       # probability per input
        self.ccm = ccm or {}                 # (start, end) -> order of the candidate chords
        self.ktm = ktm or [0.03] * 4         # [row class * 2 + history class] -> probability level
        self.ksm = ksm or [0, 1]             # [history class] -> index into KSM_ORDERS
        self.csm = csm or [0, 1, 2, 0]       # [history class] -> favoured residue class
        self.ccm_p = ccm_p or CCM_P          # probabilities of the first, second and third chord
        self.jitter = jitter                 # makes equal key change answers distinct
        self.own = own                       # probability of "changing" to the same tonic, major

    def key(self):
        return (tuple(self.ctm), tuple(sorted(self.ccm.items())), tuple(self.ktm), tuple(self.ksm),
                tuple(self.csm))


KSM_ORDERS = list(itertools.permutations(range(3)))
CCM_ORDERS = list(itertools.permutations(range(3)))
CCM_P = (0.6, 0.25, 0.1)


class World:
    def __init__(self, pt, layout, pitch_based=False, reds=("none",) * 4, invs=(True,) * 4):
        """reds/invs: (KTM, KSM, CSM input, CSM output)."""
        self.pt, self.layout, self.pitch_based = pt, layout, pitch_based
        named = dict(T.reductions())
        self.red_names, self.invs = reds, invs
        self.reds = [named[r] for r in reds]
        c0 = 15 if pt == "TPC" else 0
        if pt == "TPC":
            self.cand = [(15, "MAJOR", 0), (16, "MAJ_MIN7", 1), (2, "MINOR", 0)]
            self.rel_keys = [(3, "MINOR"), (-10, "MAJOR"), (10, "MAJOR"), (0, "MAJOR"), (-3, "MAJOR")]
        else:
            self.cand = [(0, "MAJOR", 0), (7, "MAJ_MIN7", 1), (9, "MINOR", 0)]
            self.rel_keys = [(9, "MINOR"), (2, "MAJOR"), (10, "MAJOR"), (0, "MAJOR"), (3, "MAJOR")]
        self.vocab = T.labels(pt, True, False, False, T.identity())
        self.cand_ids = [self.vocab.index(x) for x in self.cand]
        self.abs_keys = T.key_labels(pt, False)
        self.key0 = self.abs_keys.index((c0, "MAJOR"))
        self.rel_labels = T.key_labels(pt, True)
        self.full_rel = T.labels(pt, True, True, False, T.identity())
        self.out_rel = T.labels(pt, self.invs[3], True, False, self.reds[3])
        self.n = len(LAYOUTS[layout])
        self.dur = durations(layout)
        self.valid = valid_positions(layout)
        self.notes = LAYOUTS[layout]
        big = len(self.full_rel)
        self.icm = {m: [(1.0 + ((i * 13 + j * 5) % 29)) / (16.0 * big) for i in range(big)]
                    for j, m in enumerate(("MAJOR", "MINOR"))}
        self._windows = None
        self._piece = None

    # ---- theory -----------------------------------------------------------------------------
    def bass(self, chord_id):
        r, t, i = self.vocab[chord_id]
        return T.members(t, r, self.pt)[i]

    def fits(self, chord_id, key, extra=0):
        if self.pt == "MIDI":
            return True
        tonic = self.abs_keys[key][0]
        b = self.bass(chord_id)
        return 0 <= b < 35 and all(LO - extra <= x - tonic < HI + extra
                                   for x in (self.vocab[chord_id][0], b))

    def row(self, start, end, chord_id, key, prev_key, which):
        """Input vector of one segment for network `which` (0 KTM, 1 KSM, 2 CSM)."""
        pad = which != 2
        root, t, inv = self.vocab[chord_id]
        bass = self.bass(chord_id)
        tonic, mode = self.abs_keys[key]
        t = self.reds[which][t]
        if not self.invs[which]:
            inv = 0
        levels = [x[2] for x in self.notes] + [self.notes[-1][3]]
        v = chord_vec(self.pt, pad, rel(root, tonic, self.pt, pad), t, rel(bass, tonic, self.pt, pad),
                      inv, levels[start], levels[end], float(sum(self.dur[start:end])), mode == "MAJOR")
        if prev_key is not None and prev_key != key:
            iv = tonic - self.abs_keys[prev_key][0]
            if self.pt == "MIDI":
                iv %= 12
            return v + key_vec(self.pt, iv, mode) + [1.0]
        return v + [0.0] * (14 if self.pt == "MIDI" else 31) + [0.0]

    # ---- network answers --------------------------------------------------------------------
    def ccm_probs(self, env, start, end):
        order = CCM_ORDERS[env.ccm.get((start, end), 0)]
        scale = 1.0 - 0.003 * (start * 7 + end)
        p = {}
        for rank, c in enumerate(order):
            p[self.cand_ids[c]] = env.ccm_p[rank] * scale
        rest = 1.0 - sum(p.values())
        others = [i for i in range(len(self.vocab)) if i not in p]
        n = len(others)
        w = {i: 1.0 - 0.5 * k / n for k, i in enumerate(others)}
        tot = sum(w.values())
        for i in others:
            p[i] = rest * w[i] / tot
        return [p[i] for i in range(len(self.vocab))]

    def ktm_prob(self, env, v, row):
        h = row_hash(row)
        return env.ktm[(h % 2) * 2 + v % 2] + env.jitter * ((h + v) % 97) / 97

    def ksm_logs(self, env, v):
        """Log probabilities over key changes after having seen history v (last row included)."""
        order = KSM_ORDERS[env.ksm[v % 2]]
        p = {}
        for rank, k in enumerate(order):
            p[self.rel_labels.index(self.rel_keys[k])] = (0.5, 0.25, 0.1)[rank] + 1e-4 * (v % 89) / 89
        for j, k in enumerate(self.rel_keys[3:]):
            p[self.rel_labels.index(k)] = 0.05 - 0.01 * j
        if env.own:
            p[self.rel_labels.index((0, "MAJOR"))] = env.own
        others = [i for i in range(len(self.rel_labels)) if i not in p]
        for k, i in enumerate(others):
            p[i] = 0.001 - 1e-6 * k
        return [math.log(p[i]) for i in range(len(self.rel_labels))]

    def csm_out(self, env, v):
        fav = env.csm[v % len(env.csm)]
        if self.pitch_based:
            n = 12 if self.pt == "MIDI" else HI - LO
            return [0.04 + 0.9 * (((i * 7 + v) % 53) / 53.0) for i in range(n)]
        n = len(self.out_rel)
        return [-2.0 - 0.01 * ((i * 7 + v) % 53) + (1.5 if i % 3 == fav else 0.0) for i in range(n)]

    # ---- real objects -----------------------------------------------------------------------
    def piece(self):
        if self._piece is None:
            import pandas as pd
            from harmonic_inference.data.note import Note
            from harmonic_inference.data.piece import ScorePiece

            PT, CT, KM = repo.enums()
            notes = [Note(15 + x[4] % 5 if self.pt == "TPC" else x[4], 4 + i % 2, at(x[0]), x[2],
                          x[1] - x[0], at(x[1]), x[3], PT[self.pt]) for i, x in enumerate(self.notes)]
            df = pd.DataFrame({"mc": [0, 1, 2], "timesig": ["4/4"] * 3, "act_dur": [F(1)] * 3,
                               "mc_offset": [F(0)] * 3,
                               "next": pd.Series([1, 2, None], dtype=object)})
            self._piece = ScorePiece(df, notes, None, None, None, None, None)
        return self._piece

    def windows(self):
        """Canonical classifier input -> (start, end), for every conceivable range."""
        if self._windows is None:
            p = self.piece()
            self._windows = {}
            for s in range(self.n):
                for e in range(s + 1, self.n + 1):
                    rows = p.get_chord_note_inputs(ranges=[(window_start(self.layout, s), e)],
                                                   change_indices=[s])[0]
                    self._windows.setdefault(canon(rows), []).append((s, e))
        return self._windows

    def models(self, env, log):
        """Real model objects with scripted networks; log receives what is unexpected."""
        import numpy as np
        import torch
        from harmonic_inference.data.data_types import PieceType
        import harmonic_inference.models.chord_classifier_models as ccm
        import harmonic_inference.models.chord_sequence_models as csm
        import harmonic_inference.models.chord_transition_models as ctm
        import harmonic_inference.models.initial_chord_models as icm
        import harmonic_inference.models.key_sequence_models as ksm
        import harmonic_inference.models.key_transition_models as ktm

        PT, CT, KM = repo.enums()
        P = PT[self.pt]
        tensor = torch.tensor
        windows = self.windows()

        def real(i):
            return None if self.red_names[i] == "none" else repo.real_reduction(self.reds[i], CT)

        def decode(hidden, i):
            h, c = np.asarray(hidden[0])[:, i], np.asarray(hidden[1])[:, i]
            vals = set(h.reshape(-1).tolist())
            if h.shape != (LAYERS, DIM) or len(vals) != 1 or not np.array_equal(c, 2 * h):
                log.setdefault("broken", []).append("mixed hidden state %r %r" % (h.tolist(), c.tolist()))
            return int(h.reshape(-1)[0])

        def encode(vals):
            h = np.zeros((LAYERS, len(vals), DIM))
            h += np.array(vals, dtype=float)[None, :, None]
            return tensor(h), tensor(2 * h)

        out = {}
        m = ctm.SimpleChordTransitionModel(PieceType.SCORE, P)

        def ctm_forward(inputs, lengths):
            log["ctm"] = log.get("ctm", 0) + 1
            return tensor([list(env.ctm)])

        m.forward = ctm_forward
        out["ctm"] = m

        m = ccm.SimpleChordClassifier(PieceType.SCORE, P, P)

        def ccm_forward(notes, lengths):
            res = []
            for x, n in zip(np.asarray(notes), np.asarray(lengths)):
                got = windows.get(canon(x[:int(n)]))
                if got is None:
                    log.setdefault("broken", []).append("the classifier was shown notes that belong to "
                                                        "no range of the piece")
                    got = [(0, self.n)]
                res.append([math.log(p) for p in self.ccm_probs(env, *got[0])])
            return tensor(res)

        m.forward = ccm_forward
        out["ccm"] = m

        kw = dict(lstm_layers=LAYERS, lstm_hidden_dim=DIM)
        m = ktm.SimpleKeyTransitionModel(P, P, use_inversions=self.invs[0], reduction=real(0), **kw)

        def ktm_forward(inputs, lengths, hidden=None):
            inputs = np.asarray(inputs)
            vs = [decode(hidden, i) for i in range(len(inputs))]
            for v, x in zip(vs, inputs):
                log.setdefault("ktm queries", set()).add((v, row_hash(x[0])))
            return (tensor([[self.ktm_prob(env, v, x[0])] for v, x in zip(vs, inputs)]),
                    encode([fold(v, x[0]) for v, x in zip(vs, inputs)]))

        m.forward = ktm_forward
        out["ktm"] = m

        m = ksm.SimpleKeySequenceModel(P, P, P, use_inversions=self.invs[1], reduction=real(1), **kw)

        def ksm_forward(inputs, lengths, hidden=None):
            inputs = np.asarray(inputs)
            new = []
            for i, (x, n) in enumerate(zip(inputs, np.asarray(lengths))):
                v = decode(hidden, i)
                for r in x[:int(n)]:
                    v = fold(v, r)
                log.setdefault("ksm queries", set()).add(v)
                new.append(v)
            return tensor([self.ksm_logs(env, v) for v in new]), encode(new)

        m.forward = ksm_forward
        out["ksm"] = m

        if self.pitch_based:
            m = csm.PitchBasedChordSequenceModel(P, P, P, input_reduction=real(2),
                                                 use_input_inversions=self.invs[2], **kw)
        else:
            m = csm.SimpleChordSequenceModel(P, P, P, input_reduction=real(2), output_reduction=real(3),
                                             use_input_inversions=self.invs[2],
                                             use_output_inversions=self.invs[3], **kw)

        def csm_forward(inputs, lengths, hidden=None):
            inputs = np.asarray(inputs)
            vs = [fold(decode(hidden, i), x[0]) for i, x in enumerate(inputs)]
            for v in vs:
                log.setdefault("csm queries", set()).add(v)
            return tensor([[self.csm_out(env, v)] for v in vs]), encode(vs)

        m.forward = csm_forward
        out["csm"] = m
        out["icm"] = icm.SimpleInitialChordModel({
            "pitch_type": P, "major": self.icm["MAJOR"], "minor": self.icm["MINOR"],
            "inversions_present": True, "reduction_present": None})
        return out

    def run(self, env, params, forces=None, model=None):
        """Run the real search.  -> (result or Raised, log, model)."""
        from harmonic_inference.models.joint_model import HarmonicInferenceModel

        log = {}
        if model is None:
            model = HarmonicInferenceModel(self.models(env, log), **params)
        got = call(model.get_harmony, self.piece(), **(forces or {}))
        return got, log, model


def canon(rows):
    return tuple(tuple(int(round(float(x) * 480)) for x in r) for r in rows)


DEFAULTS = dict(min_chord_change_prob=0.25, max_no_chord_change_prob=0.45, max_chord_length=F(8),
                min_key_change_prob=0.05, max_no_key_change_prob=0.75, beam_size=100000,
                max_chord_branching_factor=2, target_chord_branch_prob=0.999,
                max_key_branching_factor=2, target_key_branch_prob=0.999, hash_length=None,
                ksm_exponent=0.5)


class Forces:
    def __init__(self, n, chord_changes=(), chord_non=(), key_changes=(), key_non=(), chords=None,
                 keys=None):
        self.chord_changes, self.chord_non = set(chord_changes), set(chord_non)
        self.key_changes, self.key_non = set(key_changes), set(key_non)
        self.chords, self.keys = dict(chords or {}), dict(keys or {})
        self.chord_at, self.key_at = [None] * n, [None] * n
        for (s, e), i in self.chords.items():
            for j in range(s, min(e, n)):
                self.chord_at[j] = i
        for (s, e), i in self.keys.items():
            for j in range(s, min(e, n)):
                self.key_at[j] = i

    def kwargs(self):
        out = {}
        for name, val in (("forced_chord_changes", self.chord_changes),
                          ("forced_chord_non_changes", self.chord_non),
                          ("forced_key_changes", self.key_changes),
                          ("forced_key_non_changes", self.key_non),
                          ("forced_chords", self.chords), ("forced_keys", self.keys)):
            if val:
                out[name] = type(val)(val)
        return out

    def describe(self):
        return {k: repr(v) for k, v in self.kwargs().items()}


def change_probs(world, env, forces):
    p = list(env.ctm)
    for i in forces.chord_changes | forces.key_changes:
        if i != 0:
            p[i] = 1.0
    for i in forces.chord_non:
        p[i] = 0.0
    return p


def ranges(world, p, params, forces):
    """Reference candidate ranges: {start: [(end, log prob)]} over the reachable starts."""
    n, valid = world.n, world.valid
    out, todo, seen = {}, [0], {0}
    while todo:
        s = todo.pop()
        out[s] = []
        lp = 0.0
        for e in [i for i in valid if i > s] + [n]:
            cs = {x for x in forces.chord_at[s:e] if x is not None}
            ks = {x for x in forces.key_at[s:e] if x is not None}
            if len(cs) > 1 or len(ks) > 1:
                break
            if e == n:
                # the end of the piece: the last input's own duration is not part of the limit
                out[s].append((n, lp))
                break
            if sum(world.dur[s:e]) > params["max_chord_length"]:
                break
            if p[e] >= params["min_chord_change_prob"]:
                out[s].append((e, lp + math.log(p[e])))
                if e not in seen:
                    seen.add(e)
                    todo.append(e)
                if p[e] > params["max_no_chord_change_prob"]:
                    break
            lp += math.log(1 - p[e])
    return out


class Hyp:
    """A harmony so far: segments (start, end, pieces, chord, key); everything is derived from it."""
    __slots__ = ("segs", "key0", "ktm", "ksm", "csm", "base", "score", "prev")

    def __init__(self, segs, key0, ktm, ksm, csm, base, score, prev):
        self.segs, self.key0 = segs, key0
        self.ktm, self.ksm, self.csm = ktm, ksm, csm     # history seen by each network
        self.base, self.score, self.prev = base, score, prev


class Reference:
    def __init__(self, world, env, params, forces):
        self.w, self.env, self.p, self.f = world, env, params, forces
        self.probs = change_probs(world, env, forces)
        self.ranges = ranges(world, self.probs, params, forces)
        self.ktm_queries, self.ksm_queries, self.csm_queries = set(), set(), set()
        self.ccm = {}

    def ccm_of(self, s, e):
        if (s, e) not in self.ccm:
            probs = self.w.ccm_probs(self.env, s, e)
            order = sorted(range(len(probs)), key=lambda i: -probs[i])[:8]
            self.ccm[(s, e)] = (probs, order)
        return self.ccm[(s, e)]

    def branches(self, probs, order, limit, target):
        tot, k = 0.0, 0
        for i in order:
            tot += probs[i]
            k += 1
            if tot >= target or k >= limit:
                break
        return max(1, min(k, limit))

    def csm_prior(self, hyp, key, chord, first):
        w = self.w
        root, t, inv = w.vocab[chord]
        tonic, mode = w.abs_keys[key]
        r = (root - tonic) % 12 if w.pt == "MIDI" else root - tonic
        if first:
            return math.log(w.icm[mode][w.full_rel.index((r, t, inv))])
        out = w.csm_out(self.env, hyp.csm)
        t2 = w.reds[3][t]
        if w.pitch_based:
            mem = set(T.members(t, r, w.pt))
            lo = 0 if w.pt == "MIDI" else LO
            return sum(math.log(p) if i + lo in mem else math.log(1 - p) for i, p in enumerate(out))
        i2 = inv if w.invs[3] and inv < T.n_members(t2) else 0
        return out[w.out_rel.index((r, t2, i2))]

    def pieces_score(self, pieces, chord):
        tot = 0.0
        for i, (s, e) in enumerate(pieces):
            tot += dict(self.ranges[s])[e] + math.log(self.ccm_of(s, e)[0][chord]) * (e - s)
            if i:
                tot += math.log(1 - self.probs[s]) - math.log(self.probs[s])
        return tot

    def extend(self, hyp, pieces, chord):
        """All completions (key decisions) of `hyp` + one more segment.  Yields Hyps."""
        w, p, f, env = self.w, self.p, self.f, self.env
        start, end = pieces[0][0], pieces[-1][1]
        length = end - start
        first = not hyp.segs
        key = hyp.segs[-1][4] if hyp.segs else hyp.key0
        base = hyp.score + self.pieces_score(pieces, chord)
        row = w.row(start, end, chord, key, key, 0)
        self.ktm_queries.add((hyp.ktm, row_hash(row)))
        prob = 0.0 if first else w.ktm_prob(env, hyp.ktm, row)
        stay = prob <= p["max_no_key_change_prob"] and w.fits(chord, key)
        move = prob >= p["min_key_change_prob"] and not first
        forced = {x for x in f.key_at[start:end] if x is not None}
        if len(forced) > 1:
            return
        forced = forced.pop() if forced else None
        if forced is not None:
            if key == forced:
                move, stay = False, w.fits(chord, key)
            else:
                move, stay = not first, False
        if start in f.key_changes:
            move, stay = (move if forced is not None else not first), False
        if start in f.key_non:
            move, stay = False, (forced is None or key == forced) and w.fits(chord, key)
        if stay:
            lp = base + math.log(1 - prob) * length
            lp += self.csm_prior(hyp, key, chord, first) * length
            yield self.make(hyp, pieces, chord, key, key, lp)
        if move:
            lp = base + math.log(prob) * length
            v = hyp.ksm
            v = fold(v, w.row(start, end, chord, key, key, 1))
            self.ksm_queries.add(v)
            logs = w.ksm_logs(env, v)
            order = sorted(range(len(logs)), key=lambda i: -logs[i])
            limit = self.branches([math.exp(x) for x in logs], order, p["max_key_branching_factor"],
                                  p["target_key_branch_prob"])
            used = 0
            for i in order:
                iv, mode = w.rel_labels[i]
                tonic = w.abs_keys[key][0] + iv
                if w.pt == "MIDI":
                    tonic %= 12
                elif not 0 <= tonic < 35:
                    continue
                new = w.abs_keys.index((tonic, mode))
                if new == key or (forced is not None and new != forced) or not w.fits(chord, new):
                    continue
                yield self.make(hyp, pieces, chord, new, key,
                                lp + logs[i] * p["ksm_exponent"] * length)
                used += 1
                if used >= limit:
                    break

    def make(self, hyp, pieces, chord, key, prev_key, score):
        w = self.w
        start, end = pieces[0][0], pieces[-1][1]
        r0 = w.row(start, end, chord, key, prev_key, 0)
        self.ktm_queries.add((hyp.ktm, row_hash(r0)))
        ksm = fold(hyp.ksm, w.row(start, end, chord, key, prev_key, 1))
        self.ksm_queries.add(ksm)
        csm = fold(hyp.csm, w.row(start, end, chord, key, prev_key, 2))
        self.csm_queries.add(csm)
        return Hyp(hyp.segs + ((start, end, pieces, chord, key),), hyp.key0, fold(hyp.ktm, r0), ksm, csm,
                   None, score, hyp)

    def hash_of(self, hyp):
        k = self.p["hash_length"]
        hist = [(hyp.key0, None)] + [(s[4], s[3]) for s in hyp.segs]
        return tuple(([None] * k + hist)[-k:])

    def explore(self):
        """-> all admissible complete harmonies (after hash pruning, if any)."""
        w, p, f = self.w, self.p, self.f
        n = w.n
        if f.key_at[0] is not None:
            roots = [f.key_at[0]]
        else:
            roots = range(len(w.abs_keys))
        beams = [[] for _ in range(n + 1)]
        self.needed = set()                    # histories after which another chord is considered
        self.tie = False                       # whether the choice of hypotheses to keep is arbitrary
        beams[0] = [Hyp((), k, 0, 0, 0, None, 0.0, None) for k in roots]
        for s in range(n):
            if p["hash_length"] is not None and s:
                best = {}
                for h in beams[s]:
                    k = self.hash_of(h)
                    if k not in best or best[k].score < h.score:
                        best[k] = h
                beams[s] = list(best.values())
            if s and len(beams[s]) > p["beam_size"]:
                beams[s].sort(key=lambda h: -h.score)
                worst, lost = beams[s][p["beam_size"] - 1].score, beams[s][p["beam_size"]].score
                self.tie |= worst - lost <= 1e-9 * abs(lost)
                beams[s] = beams[s][:p["beam_size"]]
            for h in beams[s]:
                last = h.segs[-1][3] if h.segs else None
                for e, lp in self.ranges.get(s, []):
                    probs, order = self.ccm_of(s, e)
                    k = self.branches(probs, order, p["max_chord_branching_factor"],
                                      p["target_chord_branch_prob"])
                    if k == 1 and order[0] == last:
                        k = 2
                    ids = order[:k]
                    forced = {x for x in f.chord_at[s:e] if x is not None}
                    if forced:
                        ids = list(forced)
                    for c in ids:
                        if c == last:
                            if s in f.chord_changes or s in f.key_changes or self.probs[s] == 1.0:
                                continue
                            old = h.segs[-1]
                            new = self.extend(h.prev, old[2] + ((s, e),), c)
                        else:
                            key = h.segs[-1][4] if h.segs else h.key0
                            if not w.fits(c, key, EXTRA):
                                continue
                            new = list(self.extend(h, ((s, e),), c))
                            if s and any(x.segs[-1][4] == key for x in new):
                                self.needed.add(h.csm)
                        beams[e].extend(new)
            if s:
                beams[s] = []
        return beams[n]


def visible(hyp):
    chords = [s[3] for s in hyp.segs]
    changes = [0] + [s[1] for s in hyp.segs]
    keys = [s[4] for s in hyp.segs]
    return (tuple(chords), tuple(changes), tuple(keys))


def visible_state(state):
    chords, changes = state.get_chords()
    keys = []
    s = state
    while s.prev_state is not None:
        keys.append(int(s.key))
        s = s.prev_state
    return (tuple(int(x) for x in chords), tuple(int(x) for x in changes), tuple(reversed(keys)))


def is_raised(x):
    return isinstance(x, Raised)
