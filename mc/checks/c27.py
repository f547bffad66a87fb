"""C27 verbose mode: debug logging never breaks the search and never changes what it returns."""
import itertools
import logging
import re
from fractions import Fraction as F

from mc import core, repo, search as S, theory as T
from mc.core import Raised, call

RULE = ("every labelling (all segmentations at the positions where harmony can change, over small chord and "
        "key alphabets which include labels outside the models' relative ranges, early and late first "
        "labels, and no labels at all) of small pieces is searched once quietly and once with debug "
        "logging, for tables of network answers and model configurations; results must be identical and "
        "the reported accuracies of the transition and classification models must be the true counts")


class Listener(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def verbosely(f, *args, **kw):
    """-> (result, debug lines); formatting problems surface as exceptions."""
    root = logging.getLogger()
    level, handlers = root.level, root.handlers[:]
    ear = Listener()
    for h in handlers:
        root.removeHandler(h)
    root.addHandler(ear)
    logging.disable(logging.NOTSET)
    root.setLevel(logging.DEBUG)
    try:
        got = call(f, *args, **kw)
    finally:
        root.setLevel(level)
        logging.disable(logging.CRITICAL)
        root.removeHandler(ear)
        for h in handlers:
            root.addHandler(h)
    return got, ear.lines


class Labelled(S.World):
    """A world whose piece carries labels: [(start input, chord (root, type, inv), key (tonic, mode))]."""

    def labelled(self, labels):
        import pandas as pd
        from harmonic_inference.data.chord import Chord
        from harmonic_inference.data.key import Key
        from harmonic_inference.data.piece import ScorePiece

        PT, CT, KM = repo.enums()
        plain = self.piece()
        df = pd.DataFrame({"mc": [0, 1, 2], "timesig": ["4/4"] * 3, "act_dur": [F(1)] * 3,
                           "mc_offset": [F(0)] * 3, "next": pd.Series([1, 2, None], dtype=object)})
        if labels is None:
            return ScorePiece(df, list(plain.notes), None, None, None, None, None)
        end = max(x[1] for x in self.notes)
        spots = [self.notes[s][0] for s, _, _ in labels] + [end]
        chords, keys, key_changes = [], [], []
        for i, (s, (root, t, inv), (tonic, mode)) in enumerate(labels):
            a, b = spots[i], spots[i + 1]
            bass = T.members(t, root, self.pt)[inv]
            chords.append(Chord(root, bass, tonic, KM[mode], CT[t], inv, S.at(a), 1, S.at(b), 1, b - a,
                                PT[self.pt]))
            if not i or labels[i - 1][2] != (tonic, mode):
                keys.append(Key(tonic, tonic, tonic, KM[mode], KM[mode], KM[mode], PT[self.pt]))
                key_changes.append(i)
        starts = [x[0] for x in labels]
        return ScorePiece(df, list(plain.notes), chords, keys, starts,
                          list(zip(starts, starts[1:] + [self.n])), key_changes)


def final(state):
    if state is None or isinstance(state, Raised):
        return repr(state)
    return (S.visible_state(state), float(state.log_prob))


def counts(lines, pattern):
    out = []
    for x in lines:
        m = re.match(r"\s*" + pattern + r": (\d+) / (\d+)", x)
        if m:
            out.append((int(m.group(1)), int(m.group(2))))
    return out


def judge(c, w, env, params, forces, labels, case):
    from harmonic_inference.models.joint_model import HarmonicInferenceModel

    piece = w.labelled(labels)
    quiet_log, loud_log = {}, {}
    model = HarmonicInferenceModel(w.models(env, quiet_log), **params)
    quiet = call(model.get_harmony, piece, **forces.kwargs())
    model = HarmonicInferenceModel(w.models(env, loud_log), **params)
    loud, lines = verbosely(model.get_harmony, piece, **forces.kwargs())
    c.step(2)
    c.state(*map(str, case))
    if isinstance(quiet, Raised):
        # nothing to report on: both refuse
        c.expect(isinstance(loud, Raised), "refused quietly, answered verbosely", case)
        c.trace(case + ["refused"], "refused")
        return
    c.expect(not isinstance(loud, Raised), lambda: "verbose mode broke the search: %r" % (loud,), case)
    c.equal(final(loud), final(quiet), "the harmony found in verbose mode", case)
    c.expect("broken" not in loud_log, lambda: "a model was used wrongly: %s" % loud_log["broken"][:2], case)
    c.expect(len(lines) > 0, "verbose mode said nothing", case)

    # what it reports about the chord transition and classification models
    ctm = (counts(lines, "Change"), counts(lines, "No change"))
    ccm = counts(lines, "correct_chords / correct_ranges")
    if labels is None:
        c.equal((ctm, ccm), (([], []), []), "accuracies of a piece without labels", case)
    else:
        starts = [x[0] for x in labels]
        probs = S.change_probs(w, env, forces)
        hit = [(i, i in starts, probs[i]) for i in w.valid]
        # 0.5 itself counts as right either way
        want = ((sum(1 for _, g, p in hit if g and p >= 0.5), sum(1 for _, g, p in hit if g)),
                (sum(1 for _, g, p in hit if not g and p <= 0.5), sum(1 for _, g, p in hit if not g)))
        for got, true, name in zip(ctm, want, ("change", "no change")):
            c.expect(set(got) <= {true}, lambda: "chord transition accuracy (%s): %r, expected %r"
                     % (name, got, true), case)
            if true[1]:
                c.expect(len(got) == 1, lambda: "chord transition accuracy (%s) is missing" % name, case)
        spans = dict(zip(zip(starts, starts[1:] + [w.n]), [x[1] for x in labels]))
        ref = S.ranges(w, probs, params, forces)
        right = total = 0
        for s in ref:
            for e, _ in ref[s]:
                if (s, e) in spans:
                    total += 1
                    p = w.ccm_probs(env, s, e)
                    right += w.vocab[max(range(len(p)), key=lambda i: p[i])] == spans[(s, e)]
        c.expect(set(ccm) <= {(right, total)}, lambda: "chord classification accuracy: %r, expected %r"
                 % (ccm, (right, total)), case)
        if total:
            c.expect(len(ccm) == 1, "chord classification accuracy is missing", case)
    for name in ("Correct key transitions / correct key/chord states", "Correct key states accuracy",
                 "Correct key/chord states accuracy",
                 "Correct chord priors / correct key/prev chord states"):
        got = counts(lines, re.escape(name))
        c.expect(all(0 <= a <= b for a, b in got), lambda: "%s: %r" % (name, got), case)
        if labels is None:
            c.equal(got, [], "accuracies of a piece without labels", case)
    if labels is not None:
        now, true = None, {s: str(ch) for s, ch in zip(piece.get_chord_change_indices(), piece.get_chords())}
        for x in lines:
            m = re.match(r"(?:No key|Key) change at index (\d+):", x)
            if m:
                now = int(m.group(1))
            elif re.match(r"\s*Recent correct chords: ", x) and now is not None:
                if now in true:
                    c.expect(x.endswith(true[now]), lambda: "the correct chord at %d is %s, not as in %r"
                             % (now, true[now], x), case)
                now = None
    c.trace(case + [{"lines": len(lines)}], (final(loud), len(lines)))


def alphabets(w, size):
    """Chords and keys to label with; the later ones lie outside what the networks can express."""
    if w.pt == "TPC":
        keys = [(15, "MAJOR"), (18, "MINOR"), (34, "MINOR"), (0, "MAJOR"), (12, "MAJOR")]
        chords = [w.cand[0], w.cand[1], (34, "MAJOR", 0), (0, "MINOR", 0), w.cand[2]]
    else:
        keys = [(0, "MAJOR"), (9, "MINOR"), (3, "MAJOR"), (6, "MINOR")]
        chords = [w.cand[0], w.cand[1], w.cand[2], (11, "MINOR", 1)]
    return chords[:size], keys[:size]


def labellings(w, chords, keys, late):
    """All labellings whose neighbouring labels differ."""
    firsts = [0] + (w.valid if late else [])
    for k in range(len(w.valid) + 1):
        for cut in itertools.combinations(w.valid, k):
            for first in firsts:
                starts = [first] + [x for x in cut if x > first]
                if len(starts) != k + 1:
                    continue
                for names in itertools.product(itertools.product(chords, keys), repeat=k + 1):
                    if all(a != b for a, b in zip(names, names[1:])):
                        yield [(s, ch, ke) for s, (ch, ke) in zip(starts, names)]


ANSWERS = {
    "changing": dict(p=(0.62, 0.38, 0.55, 0.4), ktm=[0.3, 0.1, 0.5, 0.2], ccm=(0, 3, 4)),
    "staying": dict(p=(0.3, 0.41, 0.28, 0.33), ktm=[0.03, 0.2, 0.1, 0.6], ccm=(0, 1, 2)),
    "half": dict(p=(0.5, 0.5, 0.5, 0.5), ktm=[0.4, 0.4, 0.06, 0.8], ccm=(3, 0, 0)),
    "never": dict(p=(0.1, 0.2, 0.15, 0.1), ktm=[0.9] * 4, ccm=(0, 0, 0)),
    "always": dict(p=(0.9, 0.8, 0.7, 0.95), ktm=[0.5, 0.5, 0.5, 0.5], ccm=(1, 4, 0)),
}


def env_of(w, name):
    a = ANSWERS[name]
    probs = [0.3] * w.n
    for i, p in zip(w.valid, a["p"]):
        probs[i] = p
    return S.Env(probs, ktm=a["ktm"], ccm=dict(zip(((0, 1), (1, 2), (2, 3)), a["ccm"])))


def forces_of(w, name):
    if name == "free":
        return S.Forces(w.n)
    keys = {(0, 1): w.key0}
    if name == "chord":
        return S.Forces(w.n, keys=keys, chords={(0, 1): w.cand_ids[1]})
    if name == "changes":
        return S.Forces(w.n, keys=keys, chord_changes=w.valid[:1], key_changes=w.valid[1:2])
    return S.Forces(w.n, keys=keys)


def label_job(c, job):
    pt, layout, answers, big, late, part, parts = job
    c.section("labels")
    w = Labelled(pt, layout)
    env = env_of(w, answers)
    chords, keys = alphabets(w, big)
    force = forces_of(w, "key")
    for i, labels in enumerate(labellings(w, chords, keys, late)):
        if i % parts == part:
            judge(c, w, env, S.DEFAULTS, force, labels, [pt, layout, answers, labels])


def config_job(c, job):
    pt, layout, which = job
    c.section("model configurations")
    for red in ("none", "triad"):
        for inv in (True, False):
            reds, invs = ["none"] * 4, [True] * 4
            reds[which], invs[which] = red, inv
            for pb in (False, True) if which == 2 else (False,):
                w = Labelled(pt, layout, pb, tuple(reds), tuple(invs))
                a, b = w.cand[0], w.cand[1]
                k, m = alphabets(w, 2)[1]
                some = [None, [(0, a, k)], [(0, a, m), (w.valid[0], b, k)],
                        [(0, b, k), (w.valid[0], a, m), (w.valid[-1], w.cand[2], m)]]
                for labels in some:
                    for answers in ("changing", "always")[0 if c.thorough else 1:]:
                        judge(c, w, env_of(w, answers), S.DEFAULTS, forces_of(w, "key"), labels,
                              [pt, layout, "config", which, red, inv, pb, answers, labels])


def param_job(c, job):
    pt, layout, force = job
    c.section("parameters and requests")
    w = Labelled(pt, layout)
    a, b = w.cand[0], w.cand[1]
    k, m = alphabets(w, 2)[1]
    some = [None, [(0, a, k)]]
    if w.valid:
        some += [[(0, a, m), (w.valid[0], b, k)], [(w.valid[0], b, k)]]
    for labels in some:
        for answers in ANSWERS if c.thorough else ("staying", "always"):
            for mc, mk, hl, bs in itertools.product((1, 2), (1, 3), (None, 2), (1, 100000)):
                if force == "free" and (mc, hl) != (1, 2):
                    continue              # all initial keys
                if not c.thorough and ((mc == 1) != (mk == 1) or (hl is None) != (bs > 1)):
                    continue
                params = dict(S.DEFAULTS, max_chord_branching_factor=mc, max_key_branching_factor=mk,
                              hash_length=hl, beam_size=bs)
                judge(c, w, env_of(w, answers), params, forces_of(w, force), labels,
                      [pt, layout, force, answers, mc, mk, hl, bs, labels])


def body(c):
    core.setup_imports(stubs=True)
    import harmonic_inference.models.joint_model  # noqa: F401

    jobs = []
    for pt in ("TPC", "MIDI"):
        for layout in ("one", "block", "two", "three") + (("start", "chordal") if c.thorough else ()):
            for answers in ANSWERS if c.thorough else ("changing", "half", "never"):
                n = len(S.valid_positions(layout))
                big = (5 if n < 2 else 4) if c.thorough else 5 if n == 0 else 3 if n == 1 else 2
                parts = 16 if c.thorough and n > 1 else 2
                for part in range(parts):
                    jobs.append((label_job, (pt, layout, answers, big, True, part, parts)))
        for which in range(4):
            jobs.append((config_job, (pt, "three", which)))
        for layout in ("one", "three") + (("chordal", "start", "four") if c.thorough else ()):
            for force in ("free", "key", "chord", "changes"):
                if layout == "one" and force == "changes":
                    continue
                jobs.append((param_job, (pt, layout, force)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    c = core.Check("C27", RULE, {
        "pieces": "1-4 inputs, both pitch types, 0-3 labels over 2-5 chords x 2-5 keys",
        "answers": "5 (quick: 3) tables of network answers"},
        ["the networks' forward passes are replaced by the enumerated answers (torch is not installed)",
         "label changes lie where the harmony can change (first input of its position)"])
    return core.run(c, body)
