"""C19 candidate chord ranges: which stretches may become one chord, and with what probability."""
import inspect
import itertools
import math
from fractions import Fraction as F

from mc import core, repo, search as S
from mc.core import Raised, call

RULE = ("every assignment of chord change probability classes to the inputs of every small rhythm, every "
        "length limit, every threshold pair and every assignment of forced labels is given to the real "
        "model; the candidate ranges it hands to the chord classifier and to the search, their "
        "probabilities and their classifier windows are compared with a direct enumeration of all ranges")


class Layout:
    """A rhythm: gaps between consecutive inputs, note lengths; duck-types search.World for ranges()."""

    def __init__(self, gaps, lengths):
        on, ons = F(0), [F(0)]
        for g in gaps:
            on += g
            ons.append(on)
        self.notes = [(o, o + d) for o, d in zip(ons, lengths)]
        self.n = len(ons)
        self.last = self.notes[-1][1]
        end = max(e for _, e in self.notes)
        self.dur = [b - a for a, b in zip(ons, ons[1:] + [end])]
        self.valid = [i for i in range(1, self.n) if gaps[i - 1] > 0]
        self.name = [[str(g) for g in gaps], [str(x) for x in lengths]]
        self._piece = None

    def piece(self):
        if self._piece is None:
            import pandas as pd
            from harmonic_inference.data.note import Note
            from harmonic_inference.data.piece import ScorePiece

            PT, CT, KM = repo.enums()
            notes = [Note(15, 4, S.at(o), 0, e - o, S.at(e), 0, PT["TPC"]) for o, e in self.notes]
            m = 9
            df = pd.DataFrame({"mc": range(m), "timesig": ["4/4"] * m, "act_dur": [F(1)] * m,
                               "mc_offset": [F(0)] * m,
                               "next": pd.Series(list(range(1, m)) + [None], dtype=object)})
            self._piece = ScorePiece(df, notes, None, None, None, None, None)
        return self._piece

    def window(self, start):
        t = self.notes[start][0]
        return next(i for i, (o, e) in enumerate(self.notes) if o >= t or e > t)


class Driver:
    """The real model, with its chord change network scripted and its later stages recorded."""

    def __init__(self):
        self.world = S.World("TPC", "one")
        self.env = S.Env([0.5])
        self.models = self.world.models(self.env, {})
        self.nchords = len(self.world.vocab)
        self.cache = {}

    def model(self, params):
        from harmonic_inference.models.joint_model import HarmonicInferenceModel

        key = tuple(sorted((k, str(v)) for k, v in params.items()))
        if key not in self.cache:
            import numpy as np

            m = HarmonicInferenceModel(self.models, **params)
            seen = {}
            cls = HarmonicInferenceModel
            sig1 = inspect.signature(getattr(cls, "get_chord_classifications", print))
            sig2 = inspect.signature(getattr(cls, "beam_search", print))
            names1, names2 = list(sig1.parameters)[1:], list(sig2.parameters)[1:]
            self.known = (names1[:2] == ["ranges", "change_indices"] or len(names1) == 2) and (
                names2[:3] == ["chord_ranges", "range_log_probs", "rejoin_log_probs"] or len(names2) == 4)

            def classify(*a, **k):
                seen["classify"] = list(sig1.bind(m, *a, **k).arguments.values())[1:3]
                n = len(seen["classify"][0])
                return np.full((n, self.nchords), -1.0)

            def search(*a, **k):
                seen["search"] = list(sig2.bind(m, *a, **k).arguments.values())[1:4]
                return "searched"
            if self.known:       # else the program was restructured: nothing to compare at this point
                m.get_chord_classifications = classify
                m.beam_search = search
            self.cache[key] = (m, seen)
        return self.cache[key]

    def run(self, layout, probs, params, forces):
        m, seen = self.model(params)
        seen.clear()
        self.env.ctm = list(probs)
        got = call(m.get_harmony, layout.piece(), **forces.kwargs())
        return got, seen


def judge(c, d, layout, probs, params, forces, case):
    with repo_err():
        got, seen = d.run(layout, probs, params, forces)
    c.step()
    if not d.known:
        c.state(*map(str, case))
        c.trace(case)
        return
    c.expect(not isinstance(got, Raised) and "search" in seen and "classify" in seen,
             lambda: "computing the candidate ranges raised %r" % (got,), case)
    p = S.change_probs(layout, S.Env(list(probs)), forces)
    want = S.ranges(layout, p, params, forces)
    flat = {(s, e): lp for s in want for e, lp in want[s]}
    ranges, lps, rejoin = seen["search"]
    ranges = [(int(s), int(e)) for s, e in ranges]
    c.expect(len(ranges) == len(set(ranges)) and set(ranges) == set(flat),
             lambda: "the candidate ranges: got %r, expected %r" % (sorted(ranges), sorted(flat)), case)
    c.step(len(ranges))
    c.expect(len(lps) == len(ranges) == len(rejoin), "every range has its probabilities", case)
    for r, lp, rj in zip(ranges, lps, rejoin):
        c.expect(core.close(float(lp), flat[r], 1e-6),
                 lambda: "log probability of range %r: got %r, expected %r" % (r, float(lp), flat[r]), case)
        if r[0] and 0 < p[r[0]] < 1:
            x = math.log(1 - p[r[0]]) - math.log(p[r[0]])
            c.expect(core.close(float(rj), x, 1e-6),
                     lambda: "log probability of joining %r to what precedes: got %r, expected %r"
                     % (r, float(rj), x), case)
    windows, starts = seen["classify"]
    c.expect([int(x) for x in starts] == [s for s, _ in ranges],
             lambda: "the ranges shown to the classifier start at %r, the searched ones are %r"
             % (list(starts), ranges), case)
    c.expect([(int(a), int(b)) for a, b in windows] == [(layout.window(s), e) for s, e in ranges],
             lambda: "classifier windows: got %r, expected %r"
             % (windows, [(layout.window(s), e) for s, e in ranges]), case)
    c.state(*map(str, case))
    c.trace(case + [{"ranges": sorted(flat)}], tuple(sorted(flat)))


class repo_err:
    def __enter__(self):
        import numpy as np
        self.e = np.errstate(divide="ignore", invalid="ignore")
        self.e.__enter__()

    def __exit__(self, *a):
        return self.e.__exit__(*a)


BASE = dict(min_chord_change_prob=0.25, max_no_chord_change_prob=0.5)
CLASSES = (0.125, 0.25, 0.375, 0.5, 0.625)      # exact in single precision: the thresholds are hit exactly
Q, H = F(1, 4), F(1, 2)


def class_job(c, job):
    gaps, mx = job
    c.section("probabilities")
    d = Driver()
    n = len(gaps) + 1
    lay = Layout(gaps, [Q] * n)
    none = S.Forces(n)
    classes = CLASSES if c.thorough or len(lay.valid) < 3 else CLASSES[::2] + CLASSES[3:4]
    for combo in itertools.product(classes, repeat=len(lay.valid)):
        for rest in (0.125, 0.625):             # what the network says where nothing can change
            probs = [rest] * n
            for i, x in zip(lay.valid, combo):
                probs[i] = x
            judge(c, d, lay, probs, dict(BASE, max_chord_length=mx), none, lay.name + [str(mx), probs])
            if len(lay.valid) == n - 1:
                break


def threshold_job(c, job):
    lo, hi = job
    c.section("thresholds")
    d = Driver()
    vals = sorted({0.125, 0.25, 0.375, 0.5, 0.625})
    for gaps in ((Q, Q), (Q, F(0), Q)):
        lay = Layout(gaps, [Q] * (len(gaps) + 1))
        for combo in itertools.product(vals, repeat=len(lay.valid)):
            probs = [0.5] * lay.n
            for i, x in zip(lay.valid, combo):
                probs[i] = x
            judge(c, d, lay, probs, dict(min_chord_change_prob=lo, max_no_chord_change_prob=hi,
                                         max_chord_length=F(8)), S.Forces(lay.n),
                  lay.name + [lo, hi, probs])


def length_job(c, job):
    gaps, mx = job
    c.section("lengths and windows")
    d = Driver()
    n = len(gaps) + 1
    for lengths in itertools.product((F(1, 8), F(5, 8), F(5, 4)), repeat=n):
        lay = Layout(gaps, lengths)
        judge(c, d, lay, [0.375] * n, dict(BASE, max_chord_length=mx), S.Forces(n), lay.name + [str(mx)])


def forced_label_job(c, job):
    gaps, kind, first = job
    c.section("forced labels")
    d = Driver()
    n = len(gaps) + 1
    lay = Layout(gaps, [Q] * n)
    for ids in itertools.product((None, 3, 5), repeat=n - 1):
        ids = (first,) + ids
        f = S.Forces(n, **{kind: {(i, i + 1): x for i, x in enumerate(ids) if x is not None}})
        for p in (0.375, 0.125):
            judge(c, d, lay, [p] * n, dict(BASE, max_chord_length=F(8)), f, lay.name + [kind, ids, p])


def forced_change_job(c, job):
    gaps, p = job
    c.section("forced changes")
    d = Driver()
    n = len(gaps) + 1
    lay = Layout(gaps, [Q] * n)
    for kinds in itertools.product(("", "change", "key change", "non"), repeat=n):
        if any(k.endswith("change") and i not in lay.valid and i for i, k in enumerate(kinds)):
            continue                           # rejected: see C21
        f = S.Forces(n, chord_changes=[i for i, k in enumerate(kinds) if k == "change"],
                     key_changes=[i for i, k in enumerate(kinds) if k == "key change"],
                     chord_non=[i for i, k in enumerate(kinds) if k == "non"])
        f0 = S.Forces(n, chord_changes=f.chord_changes - {0}, key_changes=f.key_changes - {0},
                      chord_non=f.chord_non - {0})
        f0.kwargs = f.kwargs
        judge(c, d, lay, [p] * n, dict(BASE, max_chord_length=F(8)), f0, lay.name + [kinds, p])


def body(c):
    core.setup_imports(stubs=True)
    import harmonic_inference.models.joint_model  # noqa: F401

    jobs = []
    deep = c.thorough
    for n in range(1, 6 if deep else 5):
        for gaps in itertools.product((F(0), Q, H), repeat=n - 1):
            for mx in (Q, H, F(3, 4), F(8)) if deep or n < 4 else (H, F(8)):
                jobs.append((class_job, (gaps, mx)))
    for lo, hi in itertools.combinations_with_replacement((0.125, 0.25, 0.375, 0.5, 0.625), 2):
        jobs.append((threshold_job, (lo, hi)))
    for n in range(1, 5 if deep else 4):
        for gaps in itertools.product((F(0), Q, H), repeat=n - 1):
            for mx in (Q, H, F(3, 4), F(8)):
                jobs.append((length_job, (gaps, mx)))
    for gaps in ((Q,), (Q, Q), (F(0), Q), (Q, F(0)), (Q, Q, Q), (Q, F(0), Q), (Q, Q, F(0))) + (
            ((Q, Q, Q, Q), (F(0), Q, F(0), Q)) if deep else ()):
        for kind in ("chords", "keys"):
            for first in (None, 3, 5):
                jobs.append((forced_label_job, (gaps, kind, first)))
        for p in (0.125, 0.375, 0.625):
            jobs.append((forced_change_job, (gaps, p)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    c = core.Check("C19", RULE, {
        "inputs": "1-4 (5) inputs; gaps 0, 1/4, 1/2 between them",
        "probabilities": "5 classes: below, at, between and above the two thresholds",
        "length limits": "1/4, 1/2, 3/4, 8 whole notes",
        "forced labels": "every assignment of none/A/B to every input; every set of forced changes"},
        ["the chord change network's answers are enumerated instead of computed (torch is not installed)"])
    return core.run(c, body)
