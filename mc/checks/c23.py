"""C23 initial chord prior: training, storage, collapsing onto a smaller vocabulary, evaluation."""
import itertools
import json
import math
import os
import shutil
import tempfile
from fractions import Fraction as F

from mc import core, repo, theory as T
from mc.core import Raised, call

RULE = ("every short list of first chords (all chord types, inversions and modes singly, and all short "
        "sequences over a small alphabet) is counted into a prior, written, read back and compared with "
        "exact counts; every combination of stored and requested vocabulary is collapsed and compared with "
        "sums over labels; every short list of pieces is evaluated; every kind of json field is loaded")


def tonic_of(pt):
    return 15 if pt == "TPC" else 0


class World:
    def __init__(self):
        import numpy as np
        from harmonic_inference.data.chord import Chord
        from harmonic_inference.data.key import Key
        from harmonic_inference.data.note import Note
        from harmonic_inference.data.piece import ScorePiece
        import harmonic_inference.models.initial_chord_models as icm
        import harmonic_inference.utils.data_utils as du

        self.np, self.icm, self.du = np, icm, du
        self.Chord, self.Key, self.Note, self.Piece = Chord, Key, Note, ScorePiece
        self.PT, self.CT, self.KM = repo.enums()
        self.full = {pt: T.labels(pt, True, True, False, T.identity()) for pt in T.NUM}

    def chord(self, pt, spec):
        """spec: (relative root, type, inversion, tonic, mode)."""
        rel, t, inv, tonic, mode = spec
        root = tonic + rel if pt == "TPC" else (tonic + rel) % 12
        return self.Chord(root, T.members(t, root, pt)[inv], tonic, self.KM[mode], self.CT[t], inv,
                          (0, F(0)), 1, (1, F(0)), 1, F(1), self.PT[pt])


def vector_close(c, got, want, what, case):
    c.step()
    ok = not isinstance(got, Raised) and len(got) == len(want)
    bad = None
    if ok:
        for i, (a, b) in enumerate(zip(got, want)):
            if not (a == b or abs(float(a) - b) <= 1e-9):
                ok, bad = False, i
                break
    c.expect(ok, lambda: "%s: %s" % (what, repr(got) if isinstance(got, Raised) else
                                     "length %d, expected %d" % (len(got), len(want)) if bad is None else
                                     "at label %d got %r, expected %r" % (bad, got[bad], want[bad])), case)


def logs(v):
    return [math.log(x) if x > 0 else -math.inf for x in v]


ALPHA = [(0, "MAJOR", 0, 0, "MAJOR"), (0, "MINOR", 0, 2, "MINOR"), (1, "MAJ_MIN7", 3, 3, "MINOR"),
         (-1, "MAJOR", 1, 0, "MAJOR")]


def train_case(c, w, pt, specs, n, folder):
    specs = [(r if pt == "TPC" else (r * 7) % 12, t, i, (15 + k) if pt == "TPC" else k, m)
             for r, t, i, k, m in specs]
    chords = [w.chord(pt, s) for s in specs]
    path = os.path.join(folder, "icm.json")
    case = [pt, specs, n]
    got = call(w.icm.train_icm, chords, path) if n is None else \
        call(w.icm.train_icm, chords, path, add_n_smoothing=n)
    c.step()
    c.expect(not isinstance(got, Raised), "training raised %r" % (got,), case)
    data = call(w.du.load_kwargs_from_json, path)
    model = call(w.icm.SimpleInitialChordModel, data)
    c.expect(not isinstance(model, Raised), "loading the prior raised %r" % (model,), case)
    c.equal(model.PITCH_TYPE, w.PT[pt], "pitch type of the prior", case)
    full = w.full[pt]
    size = len(full)
    for mode in T.SCALE:
        mine = [(r, t, i) for r, t, i, _, m in specs if m == mode]
        smooth = 1.0 if n is None else n
        total = len(mine) + smooth
        base = smooth / size
        want = [base / total] * size
        for s in set(mine):
            want[full.index(s)] = (mine.count(s) + base) / total
        is_minor = mode == "MINOR"
        vector_close(c, call(model.get_prior, is_minor, log=False), want, "prior of %s" % mode, case)
        vector_close(c, call(model.get_prior, is_minor), logs(want), "log prior of %s" % mode, case)
    c.state(pt, specs, n)
    c.trace(case, (len(specs), n))


def train(c, job):
    pt, first, depth = job
    w = World()
    c.section("training")
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    try:
        if depth == 0:
            for rel, t in itertools.product(range(T.REL_MIN, T.REL_MAX) if first is None else [first], T.TYPES):
                for inv in range(T.n_members(t)):
                    mode = "MINOR" if (rel + inv) % 2 else "MAJOR"
                    if pt == "MIDI" and not 0 <= rel < 12:
                        continue
                    bass = rel + T.CHORDS[t][inv][0]
                    if pt == "TPC" and not T.REL_MIN <= bass < T.REL_MAX:
                        continue
                    train_case(c, w, pt, [(rel, t, inv, 0, mode)], None, folder)
        else:
            for rest in itertools.product(ALPHA, repeat=depth - 1):
                for n in (None, 0.5, 3):
                    train_case(c, w, pt, [first] + list(rest), n, folder)
    finally:
        shutil.rmtree(folder)


def partial(values, to):
    return {v: to for v in values}


def requests(present):
    """Requested reductions: complete, none, covering just what is stored, and not covering it."""
    out = [("nothing", None)] + [(n, r) for n, r in T.reductions()[:3]]
    out.append(("dim7s", dict(T.identity(), DIM7="HALF_DIM7")))
    vals = sorted(set(present.values()))
    out.append(("partial", {v: T.TRIAD_OF[v] for v in vals}))
    out.append(("invalid", {v: "MAJOR" for v in vals[1:]}))
    return out


def collapse(c, job):
    pt, present_name, inv_present = job
    w = World()
    c.section("vocabularies")
    present = {"none": None, "triad": dict(T.TRIAD_OF), "one": {t: "MAJOR" for t in T.TYPES}}[present_name]
    pres = present or T.identity()
    labels = T.labels(pt, inv_present, True, False, pres)
    weights = {"MAJOR": [1.0 + (i * 7) % 11 for i in range(len(labels))],
               "MINOR": [1.0 + (i * 5) % 13 for i in range(len(labels))]}
    priors = {m: [x / sum(v) for x in v] for m, v in weights.items()}
    base = {"inversions_present": inv_present, "pitch_type": w.PT[pt],
            "reduction_present": None if present is None else repo.real_reduction(present, w.CT),
            "major": priors["MAJOR"], "minor": priors["MINOR"]}
    for name, req in requests(pres):
        for use_inv in (True, False):
            for how in ("argument", "data", "default"):
                data, kw = dict(base), {}
                red = None if req is None else repo.real_reduction(req, w.CT)
                if how == "argument":
                    kw = {"use_inversions": use_inv, "reduction": red}
                elif how == "data":
                    data["use_inversions"], data["reduction"] = use_inv, red
                    kw = {"use_inversions": not use_inv}
                elif name != "nothing" or not use_inv:
                    continue
                case = {"pitch type": pt, "stored": [present_name, inv_present],
                        "requested": [name, use_inv, how]}
                before = json.dumps({k: str(v) for k, v in data.items()})
                model = call(w.icm.SimpleInitialChordModel, data, **kw)
                c.step()
                c.expect(not isinstance(model, Raised), "loading raised %r" % (model,), case)
                c.expect(json.dumps({k: str(v) for k, v in data.items()}) == before,
                         "the stored prior is not changed by loading it", case)
                inv = use_inv and inv_present
                given = req or T.identity()
                if name == "invalid":
                    red2 = pres
                else:
                    red2 = {t: given[pres[t]] for t in T.TYPES}
                c.equal((model.use_inversions, model.reduction), (inv, repo.real_reduction(red2, w.CT)),
                        "vocabulary in use", case)
                mine = T.labels(pt, inv, True, False, red2)
                index = {x: i for i, x in enumerate(mine)}
                for mode in T.SCALE:
                    want = [0.0] * len(mine)
                    for p, (r, t, i) in zip(priors[mode], labels):
                        t2 = red2[t]
                        i2 = i if inv and i < T.n_members(t2) else 0
                        want[index[(r, t2, i2)]] += p
                    is_minor = mode == "MINOR"
                    vector_close(c, call(model.get_prior, is_minor, log=False), want,
                                 "prior of %s" % mode, case)
                    vector_close(c, call(model.get_prior, is_minor), logs(want), "log prior of %s" % mode,
                                 case)
                c.state(pt, present_name, inv_present, name, use_inv, how)
                c.trace(case, (name, inv, len(mine)))


def evaluate(c, job):
    pt, red_name, use_inv = job
    w = World()
    c.section("evaluation")
    full = w.full[pt]
    red = dict(T.reductions())[red_name]
    step = 1 if pt == "TPC" else 7
    # the likeliest chords: I in major, and V7 (third inversion) in minor
    best = {"MAJOR": (0, "MAJOR", 0), "MINOR": (step, "MAJ_MIN7", 3)}
    priors = {}
    for m in best:
        v = [1.0 + (i % 5) / 10 for i in range(len(full))]
        v[full.index(best[m])] = 500.0
        priors[m] = [x / sum(v) for x in v]
    data = {"inversions_present": True, "reduction_present": None, "pitch_type": w.PT[pt],
            "major": priors["MAJOR"], "minor": priors["MINOR"]}
    model = call(w.icm.SimpleInitialChordModel, data, use_inversions=use_inv,
                 reduction=repo.real_reduction(red, w.CT))
    c.expect(not isinstance(model, Raised), "loading raised %r" % (model,), [pt, red_name, use_inv])
    mine = T.labels(pt, use_inv, True, False, red)

    def label(x):
        r, t, i = x
        t2 = red[t]
        return r, t2, (i if use_inv and i < T.n_members(t2) else 0)

    coll = {}
    for m in priors:
        v = dict.fromkeys(mine, 0.0)
        for p, x in zip(priors[m], full):
            v[label(x)] += p
        coll[m] = v
    # spelled pieces: (relative root, type, inversion, tonic, mode)
    firsts = [(0, "MAJOR", 0, 15, "MAJOR"), (0, "MAJOR", 1, 18, "MAJOR"), (1, "MAJ_MIN7", 3, 15, "MINOR"),
              (1, "MAJOR", 0, 12, "MINOR"), (0, "MAJ_MAJ7", 0, 16, "MAJOR")]
    for n in (1, 2, 3):
        for specs in itertools.product(firsts, repeat=n):
            pieces, correct, loss = [], 0, 0.0
            for r, t, i, k, m in specs:
                ch = w.chord("TPC", (r, t, i, k, m))
                other = w.chord("TPC", (3, "MINOR", 0, k, m))
                key = w.Key(k, k + 1, 15, w.KM[m], w.KM["MAJOR"], w.KM["MINOR"], w.PT["TPC"])
                key2 = w.Key(k, k, k, w.KM["MAJOR" if m == "MINOR" else "MINOR"], w.KM[m], w.KM[m],
                             w.PT["TPC"])
                note = w.Note(15, 4, (0, F(0)), 1, F(1), (1, F(0)), 1, w.PT["TPC"])
                pieces.append(w.Piece(None, [note, note], [ch, other], [key, key2], [0, 1], [(0, 1), (1, 2)],
                                      [0, 1]))
                x = label((r if pt == "TPC" else (7 * r) % 12, t, i))
                correct += max(coll[m], key=lambda y: coll[m][y]) == x
                loss -= math.log(coll[m][x])
            got = call(model.evaluate, pieces)
            case = [pt, red_name, use_inv, specs]
            c.step()
            c.expect(not isinstance(got, Raised) and set(got) == {"acc", "loss"}
                     and core.close(float(got["acc"]), 100 * correct / n)
                     and core.close(float(got["loss"]), loss / n, 1e-8),
                     "evaluation: got %r, expected %r" % (got, (100 * correct / n, loss / n)), case)
            c.state(*case)
            c.trace(case, (correct, n))


def fields(c, job):
    w = World()
    from harmonic_inference.data.data_types import PieceType

    c.section("json fields")
    vals = []
    for e in list(w.PT.values()) + list(PieceType):
        vals.append((str(e), e))
    vals += [("PitchType", "PitchType"), ("x", "x"), (1, 1), (0.5, 0.5), (None, None), (True, True),
             ([1, "a"], [1, "a"]), ({"a": 1}, {"a": 1})]
    reds = [(None, None)]
    for name, r in T.reductions():
        reds.append(({str(w.CT[a]): str(w.CT[b]) for a, b in r.items()}, repo.real_reduction(r, w.CT)))
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    path = os.path.join(folder, "kw.json")
    try:
        c.equal(call(w.du.load_kwargs_from_json, None), {}, "no file", None)
        for (a, x), (b, y) in itertools.product(vals, vals):
            for red, real in reds:
                for key in ("reduction", "reduction_present", "chord_reduction"):
                    with open(path, "w") as f:
                        json.dump({"pitch_type": a, key: red, "other": b}, f)
                    got = call(w.du.load_kwargs_from_json, path)
                    c.equal(got, {"pitch_type": x, key: real, "other": y}, "loaded arguments",
                            [a, b, key, red])
                    c.state(str(a), str(b), key, str(red))
        c.trace([len(reds), len(vals)], "fields")
    finally:
        shutil.rmtree(folder)


def body(c):
    core.setup_imports(stubs=True)
    World()
    jobs = [(fields, None)]
    for pt in T.NUM:
        for rel in range(T.REL_MIN, T.REL_MAX) if pt == "TPC" else range(12):
            jobs.append((train, (pt, rel, 0)))
        for depth in (1, 2, 3) if not c.thorough else (1, 2, 3, 4):
            for first in ALPHA:
                jobs.append((train, (pt, first, depth)))
        for present in ("none", "triad", "one"):
            for inv in (True, False):
                jobs.append((collapse, (pt, present, inv)))
        for red in ("none", "triad", "one", "DIM7->HALF_DIM7"):
            for inv in (True, False):
                jobs.append((evaluate, (pt, red, inv)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    check = core.Check("C23", RULE, {
        "training": "every relative chord singly; all lists of <= 3 over 4 chords x 3 smoothings",
        "vocabularies": "3 stored reductions x inversions x 7 requested reductions x inversions x 3 ways"},
        assumptions=["smoothing is positive"])
    return core.run(check, body)
