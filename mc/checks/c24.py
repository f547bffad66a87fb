"""C24 requests: forced labels written in scores or json files, and which piece they are used for."""
import itertools
import json
import os
import shutil
import tempfile
from fractions import Fraction as F

from mc import core, repo, theory as T
from mc.core import Raised, call

RULE = ("every chord and key label a user can write, and every placement of markers as labels and lyrics "
        "on small MuseScore files, is written as text and read by the real reader; every list of positions "
        "on a small piece is converted to inputs; every combination of json fields, names and pieces is "
        "passed through the evaluation program; the oracle reads the request literally")

HEAD = """<?xml version="1.0" encoding="UTF-8"?>
<museScore version="3.01">
<programVersion>3.6.2</programVersion>
<Score>
<LayerTag id="0" tag="default"></LayerTag>
<currentLayer>0</currentLayer>
<Division>480</Division>
<Style><Spatium>1.76389</Spatium></Style>
<showInvisible>1</showInvisible>
<metaTag name="workTitle">t</metaTag>
<Part><Staff id="1"><StaffType group="pitched"><name>stdNormal</name></StaffType></Staff>
<trackName>Piano</trackName><Instrument><longName>Piano</longName></Instrument></Part>
<Staff id="1">
"""


def mscx(measures, pickup=False):
    """measures: list of lists of (harmony text or None, lyrics text or None), spread evenly (1, 2 or 4)."""
    out = [HEAD]
    for i, ms in enumerate(measures):
        out.append('<Measure%s>' % (' len="1/4"' if pickup and i == 0 else ""))
        if pickup and i == 0:
            out.append("<irregular>1</irregular>")
        out.append("<voice>")
        if i == 0:
            out.append("<TimeSig><sigN>4</sigN><sigD>4</sigD></TimeSig>")
        kind = "quarter" if pickup and i == 0 else {1: "whole", 2: "half", 4: "quarter"}[len(ms)]
        for harmony, lyrics in ms:
            if harmony is not None:
                out.append("<Harmony><name>%s</name></Harmony>" % harmony)
            out.append("<Chord><durationType>%s</durationType>" % kind)
            if lyrics is not None:
                out.append("<Lyrics><text>%s</text></Lyrics>" % lyrics)
            out.append("<Note><pitch>60</pitch><tpc>14</tpc></Note></Chord>")
        out.append("</voice></Measure>")
    out.append("</Staff></Score></museScore>")
    return "\n".join(out)


def read(w, folder, text):
    path = os.path.join(folder, "a.mscx")
    with open(path, "w") as f:
        f.write(text)
    with core.quiet():
        got = call(w.forces.extract_forces_from_musescore, path)
    if isinstance(got, Raised):
        return got
    return [sorted((int(x[0]), F(x[1])) + tuple(int(y) for y in x[2:]) for x in part) for part in got]


class World:
    def __init__(self):
        import harmonic_inference.utils.forces as forces

        self.forces = forces
        self.PT, self.CT, self.KM = repo.enums()
        chords = T.labels("TPC", True, False, False, T.identity())
        self.index = {x: i for i, x in enumerate(chords)}
        self.kindex = {x: i for i, x in enumerate(T.key_labels("TPC", False))}


ACCS = ["", "#", "##", "b", "bb"]


def acc_of(a):
    return len(a) if "#" in a else -len(a)


# ---- every label ------------------------------------------------------------------------------------
def chord_labels(c, job):
    letter, as_lyrics = job
    w = World()
    c.section("chord labels")
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    try:
        labels = []
        for a in ACCS:
            for t in T.TYPES:
                for inv in [None] + list(range(T.n_members(t))):
                    text = "C=%s%s%s%s" % (letter, a, T.TYPE_STR[t], "" if inv is None else "_%d" % inv)
                    labels.append((text, w.index[(T.tpc(letter, acc_of(a)), t, inv or 0)]))
        measures = [[(None, x[0]) if as_lyrics else (x[0], None) for x in labels[k:k + 4]]
                    for k in range(0, len(labels), 4)]
        if len(measures[-1]) == 3:
            measures[-1].append((None, None))
        if len(measures[-1]) not in (1, 2, 4):
            raise core.HarnessError("layout")
        got = read(w, folder, mscx(measures))
        step = F(1, 4)
        want = []
        for k, (text, idx) in enumerate(labels):
            n = len(measures[k // 4])
            want.append((k // 4 + 1, (k % 4) * (step if n == 4 else F(1, n)), idx))
        c.step()
        c.expect(not isinstance(got, Raised), "reading the score raised %r" % (got,),
                 [x[0] for x in labels[:3]])
        for g, (text, idx), x in zip(got[4], labels, want):
            c.equal(g, x, "forced chord %s" % text, [text, as_lyrics])
            c.state(text, as_lyrics)
            c.trace([text, list(map(str, x))], idx)
        c.equal([len(x) for x in got], [0, 0, 0, 0, len(labels), 0], "what else was read", letter)
    finally:
        shutil.rmtree(folder)


def key_labels(c, job):
    w = World()
    c.section("key labels")
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    try:
        for pre, post in (("", ""), ("!K;", ""), ("C=Cm;", ""), ("", ";!C")):
            labels = []
            for letter in "CDEFGABcdefgab":
                for a in ACCS:
                    mode = "MAJOR" if letter.isupper() else "MINOR"
                    labels.append((pre + "K=%s%s" % (letter, a) + post,
                                   w.kindex[(T.tpc(letter, acc_of(a)), mode)]))
            for as_lyrics in (True, False):
                measures = [[(None, x[0]) if as_lyrics else (x[0], None) for x in labels[k:k + 2]]
                            for k in range(0, len(labels), 2)]
                got = read(w, folder, mscx(measures))
                c.step()
                c.expect(not isinstance(got, Raised), "reading the score raised %r" % (got,),
                         [x[0] for x in labels[:3]])
                want = [(k // 2 + 1, (k % 2) * F(1, 2), idx) for k, (_, idx) in enumerate(labels)]
                for g, (text, idx), x in zip(got[5], labels, want):
                    c.equal(g, x, "forced key %s" % text, [text, as_lyrics])
                    c.state(text, as_lyrics)
                    c.trace([text, list(map(str, x))], idx)
                c.equal(len(got[5]), len(labels), "number of forced keys", pre)
                n = len(labels)
                c.equal([len(x) for x in got], [n if "!C" in post else 0, 0, n if "!K" in pre else 0, 0,
                                                n if "C=" in pre else 0, n], "what else was read",
                        [pre, post])
    finally:
        shutil.rmtree(folder)


# ---- placements -------------------------------------------------------------------------------------
MARKS = {None: [], "!C": [0], "=C": [1], "!K": [2], "=K": [3], "C=Abm_1": [4], "K=f#": [5], "!C!K": [0, 2],
         "V7": [], "hello": []}


def placements(c, job):
    first, pickup, menu, limit = job
    w = World()
    c.section("placements")
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    chord, key = w.index[(T.tpc("A", -1), "MINOR", 1)], w.kindex[(T.tpc("F", 1), "MINOR")]
    spots = [(1, F(3, 4) if pickup else F(0)), (2, F(0)), (2, F(1, 2))]
    try:
        for rest in itertools.product(menu, repeat=len(spots) * 2 - 2):
            texts = list(first) + list(rest)
            pairs = [tuple(texts[2 * i:2 * i + 2]) for i in range(3)]
            if sum(x is not None for x in texts) > limit:
                continue
            got = read(w, folder, mscx([[pairs[0]], pairs[1:]], pickup=pickup))
            want = [[] for _ in range(6)]
            for at, pair in zip(spots, pairs):
                for x in pair:
                    for k in MARKS[x]:
                        want[k].append(at + ((chord,) if k == 4 else (key,) if k == 5 else ()))
            want = [sorted(x) for x in want]
            case = {"(label, lyrics) at each note": pairs, "pickup": pickup}
            c.equal(got, want, "what was read from the score", case)
            c.state(pairs, pickup)
            c.trace(case, tuple(len(x) for x in want))
    finally:
        shutil.rmtree(folder)


# ---- positions --------------------------------------------------------------------------------------
def positions(c, job):
    from harmonic_inference.data.note import Note
    from harmonic_inference.data.piece import ScorePiece

    onsets, = job
    w = World()
    c.section("positions")
    grid = [(m, F(b, 2)) for m in (0, 1, 2) for b in (0, 1)]
    notes = [Note(15, 4, x, 1, F(1, 2), (3, F(0)), 1, w.PT["TPC"]) for x in onsets]
    piece = ScorePiece(None, notes, None, None, None, None, None)
    extra = [(3, F(0)), (1, F(1, 4))]
    for k in (1, 2):
        for combo in itertools.product(grid + extra, repeat=k):
            for ids in (None, 0, 7):
                forces = [x if ids is None else x + (ids + i,) for i, x in enumerate(combo)]
                given = list(forces)
                got = call(w.forces.convert_score_positions_to_note_indexes, forces, piece)
                case = [onsets, combo, ids]
                if all(x in onsets for x in combo):
                    c.equal(got, [onsets.index(x) if ids is None else (onsets.index(x), ids + i)
                                  for i, x in enumerate(combo)], "inputs at positions", case)
                else:
                    c.raises(got, ValueError, "a position without a note", case)
                c.expect(forces == given, "the given requests are not changed", case)
                c.state(onsets, combo, ids)
                c.trace(case, isinstance(got, Raised))


# ---- json -------------------------------------------------------------------------------------------
SETS = {"forced_chord_changes": [[], [3, 0, 3]], "forced_chord_non_changes": [[1]],
        "forced_key_changes": [[2, 5]], "forced_key_non_changes": [[4]]}
DICTS = {"forced_chords": [{"(0, 5)": 17, "(5,7)": 3}], "forced_keys": [{"(10, 12)": 0}]}


def real(nested):
    out = {}
    for k, v in nested.items():
        if k in SETS:
            out[k] = set(v)
        elif k in DICTS:
            out[k] = {tuple(int(y) for y in x[1:-1].split(",")): i for x, i in v.items()}
    return out


def nesteds():
    choices = [[None] + v for v in SETS.values()] + [[None] + v for v in DICTS.values()] + [[None, 1]]
    names = list(SETS) + list(DICTS) + ["comment"]
    for combo in itertools.product(*choices):
        yield {k: v for k, v in zip(names, combo) if v is not None}


def script():
    import importlib.util

    spec = importlib.util.spec_from_file_location("hi_test_script", os.path.join(core.REPO, "test.py"))
    mod = importlib.util.module_from_spec(spec)
    with core.quiet():
        spec.loader.exec_module(mod)
    return mod


def jsons(c, job):
    mod = script()
    c.section("json")
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    path = os.path.join(folder, "forces.json")
    try:
        alone = list(nesteds())
        files = []
        for n in alone:
            if any(k.startswith("forced") for k in n):
                files.append((n, {"default": real(n)}))
            files.append(({"default": n}, {"default": real(n)}))
            files.append(({"K1": n, "default": {"forced_keys": {"(0,1)": 2}}},
                          {"K1": real(n), "default": {"forced_keys": {(0, 1): 2}}}))
        for a, b in itertools.product(alone[::7], repeat=2):
            files.append(({"K1": a, "K10": b}, {"K1": real(a), "K10": real(b)}))
        files.append(({}, {}))
        for raw, want in files:
            with open(path, "w") as f:
                json.dump(raw, f)
            got = call(mod.load_forces_from_json, path)
            c.equal(got, want, "requests read from json", raw)
            c.expect(all(type(v) is type(want[p][k]) for p in got for k, v in got[p].items()),
                     "kinds of values", raw)
            c.state(json.dumps(raw))
            c.trace(raw, str(sorted(map(str, want.items()))))
    finally:
        shutil.rmtree(folder)


NAMES = ["0: m/K1.tsv", "1: m/K10.tsv", "2: m/K100.tsv", "3: b/K2.tsv", "4: default.tsv", None]
KEYS = ["K1", "K10", "m", "K2.tsv", "default", "zzz"]


class FakeModel:
    def __init__(self):
        self.seen = []

    def get_harmony(self, piece, **kwargs):
        self.seen.append((piece, kwargs))


class FakePiece:
    def __init__(self, name):
        self.name = name


def choice(c, job):
    keys, = job
    mod = script()
    c.section("choice")
    folder = tempfile.mkdtemp(dir=core.SCRATCH)
    path = os.path.join(folder, "forces.json")
    try:
        for order in itertools.permutations(keys):
            with open(path, "w") as f:
                json.dump({k: {"forced_chord_changes": [KEYS.index(k)]} for k in order}, f)
            pieces = [FakePiece(n) for n in NAMES]
            for use in (True, False):
                model = FakeModel()
                with core.quiet():
                    got = call(mod.evaluate, model, pieces, None, path if use else None)
                case = {"names in the file": order, "used": use}
                c.step()
                c.expect(not isinstance(got, Raised), "evaluating raised %r" % (got,), case)
                c.equal([p.name for p, _ in model.seen], NAMES, "pieces analysed", case)
                for piece, kw in model.seen:
                    hits = [k for k in keys if k != "default" and piece.name and k in piece.name]
                    best = max(hits, key=len) if hits else "default" if "default" in keys else None
                    want = {"forced_chord_changes": {KEYS.index(best)}} if best and use else {}
                    c.equal(kw, want, "requests used for %s" % piece.name, case)
                c.state(order, use)
                c.trace(case, str([kw for _, kw in model.seen]))
    finally:
        shutil.rmtree(folder)


def body(c):
    core.setup_imports(stubs=True)
    import ms3  # noqa: F401
    World()
    script()
    jobs = [(key_labels, None), (jsons, None)]
    for letter in "CDEFGABcdefgab":
        for as_lyrics in (True, False):
            jobs.append((chord_labels, (letter, as_lyrics)))
    for pickup in (False, True):
        for first in itertools.product(MARKS, MARKS if c.thorough else [None, "K=f#"]):
            jobs.append((placements, (first, pickup, [None, "!C", "C=Abm_1"] if c.thorough
                                      else [None, "C=Abm_1"], 4 if c.thorough else 3)))
        for a in MARKS if c.thorough else ("=C", "=K"):
            jobs.append((placements, ((None, a), pickup, [None, a], 6)))
    grid = [(m, F(b, 2)) for m in (0, 1, 2) for b in (0, 1)]
    for k in range(1, 5):
        for combo in itertools.combinations_with_replacement(grid, k):
            if k == 4 and not c.thorough:
                continue
            jobs.append((positions, (list(combo),)))
    for k in range(0, len(KEYS) + 1):
        for keys in itertools.combinations(KEYS, k):
            if k > 4 and not c.thorough:
                continue
            jobs.append((choice, (keys,)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    check = core.Check("C24", RULE, {
        "labels": "14 letters x 5 accidentals x 12 types x all inversions, as labels and as lyrics",
        "placements": "3 notes in 2 measures, each with or without a label and lyrics; with and without pickup",
        "positions": "all rhythms of <= 3 (4) notes on a grid of 6, all lists of <= 2 positions"},
        assumptions=["equally long matching names are not both given in one file; a no-chord-change mark "
                     "is written at the start of its label"])
    return core.run(check, body)
