"""C26 programs: the pieces, models and options that the command-line programs really use."""
import contextlib
import inspect
import io
import itertools
import json
import logging
import os
import pickle
import re
import runpy
import shlex
import shutil
import sys
import tempfile
import types
import zipfile
from fractions import Fraction as F
from pathlib import Path

from mc import core, musicxml as X
from mc.checks.c13 import M_COLS, N_COLS, tsv
from mc.core import Raised, call

RULE = ("the real programs are run on every small corpus (tsv and MusicXML, every subset of labelled pieces) "
        "with every selection of pieces, every presence of stored pieces, every set of checkpoints and of "
        "loadable classes, every option alone and all together, every default set, and every small grid of "
        "options; a recorder in the place of the search notes the models, options and pieces it was given")

MODELS = {"ccm": ["SimpleChordClassifier"], "ctm": ["SimpleChordTransitionModel"],
          "csm": ["SimpleChordSequenceModel", "PitchBasedChordSequenceModel"],
          "ktm": ["SimpleKeyTransitionModel"], "ksm": ["SimpleKeySequenceModel"]}
OPTIONS = {  # name: two values that are not defaults, as written and as understood
    "min_chord_change_prob": [("0.125", 0.125), ("0.0625", 0.0625)],
    "max_no_chord_change_prob": [("0.875", 0.875), ("0.8125", 0.8125)],
    "max_chord_length": [("3", F(3)), ("5/2", F(5, 2))],
    "min_key_change_prob": [("0.1875", 0.1875), ("0.3125", 0.3125)],
    "max_no_key_change_prob": [("0.9375", 0.9375), ("0.6875", 0.6875)],
    "beam_size": [("17", 17), ("19", 19)],
    "max_chord_branching_factor": [("7", 7), ("9", 9)],
    "target_chord_branch_prob": [("0.375", 0.375), ("0.4375", 0.4375)],
    "max_key_branching_factor": [("3", 3), ("4", 4)],
    "target_key_branch_prob": [("0.5625", 0.5625), ("0.625", 0.625)],
    "hash_length": [("6", 6), ("8", 8)],
    "ksm_exponent": [("12.5", 12.5), ("25", 25.0)],
}
NAMES = list(OPTIONS)
SETS = {  # the documented default sets, in the order of NAMES
    ("--defaults", 0): (0.25, 0.45, 8, 0.1, 0.75, 50, 5, 0.75, 2, 0.5, 5, 100),
    ("--defaults", 1): (0.25, 0.5, 8, 0.05, 0.75, 50, 5, 0.75, 2, 0.5, 5, 50),
    ("--defaults", 2): (0.25, 0.45, 8, 0.05, 0.75, 50, 5, 0.5, 2, 0.5, 5, 50),
    ("--fh-defaults", 0): (0.3, 0.4, 8, 0.1, 0.7, 50, 5, 0.75, 2, 0.5, 5, 30),
    ("--fh-defaults", 1): (0.3, 0.4, 8, 0.1, 0.7, 50, 5, 0.75, 2, 0.5, 5, 30),
    ("--fh-defaults", 2): (0.3, 0.4, 8, 0.1, 0.7, 50, 5, 0.75, 2, 0.5, 5, 30),
}


class Loaded:
    """What a checkpoint turns into."""

    def __init__(self, kind, path):
        self.kind, self.path, self.frozen = kind, path, False

    def freeze(self):
        self.frozen = True

    def eval(self):
        self.frozen = True
        return self


class Log:
    """What the programs were seen to do."""

    def clear(self):
        self.loads, self.made, self.asked, self.broken, self.fits = [], [], [], set(), []


LOG = Log()


def remember():
    """Read each corpus directory once; loading is C13's concern and slow here."""
    from harmonic_inference.data import corpus_reading as cr

    real, memo = cr.load_clean_corpus_dfs, {}

    def load_clean_corpus_dfs(dir_path, *args, **kwargs):
        files = sorted(Path(dir_path).glob("*.tsv"))
        key = (str(dir_path), tuple((f.name, f.stat().st_mtime_ns) for f in files), str(args), str(kwargs))
        if key not in memo:
            memo.clear()
            memo[key] = real(dir_path, *args, **kwargs)
        return tuple(None if x is None else x.copy() for x in memo[key])

    cr.load_clean_corpus_dfs = load_clean_corpus_dfs


def install():
    """Put recorders where the networks and the search would be."""
    remember()
    from harmonic_inference.models import joint_model as jm

    if getattr(jm, "recorded", False):
        return
    jm.recorded = True
    sig = inspect.signature(jm.HarmonicInferenceModel.__init__)

    class HarmonicInferenceModel:
        def __init__(self, *args, **kwargs):
            bound = sig.bind(self, *args, **kwargs)
            bound.apply_defaults()
            given = dict(bound.arguments)
            given.pop("self")
            models = given.pop("models")
            LOG.made.append((models, given))

        def get_harmony(self, piece, **kwargs):
            LOG.asked.append((piece, kwargs, [getattr(m, "frozen", None) for m in LOG.made[-1][0].values()]))
            return None

    HarmonicInferenceModel.__init__.__signature__ = sig
    jm.HarmonicInferenceModel = HarmonicInferenceModel
    for name, classes in jm.MODEL_CLASSES.items():
        if name == "icm":
            continue
        for cls in classes:
            def load(klass, path, *a, **k):
                LOG.loads.append((klass.__name__, str(path)))
                if klass.__name__ in LOG.broken:
                    raise RuntimeError("wrong kind of checkpoint")
                return Loaded(klass.__name__, str(path))
            cls.load_from_checkpoint = classmethod(load)

    import pytorch_lightning as pl
    import torch
    import torch.utils.data as tud

    callbacks, profiler = types.ModuleType("pytorch_lightning.callbacks"), types.ModuleType(
        "pytorch_lightning.profiler")
    for mod, names in ((callbacks, ("EarlyStopping", "LearningRateMonitor")), (profiler, ("AdvancedProfiler",))):
        for n in names:
            setattr(mod, n, type(n, (), {"__init__": lambda self, *a, **k: None}))
        sys.modules[mod.__name__] = mod
    pl.callbacks, pl.profiler = callbacks, profiler

    class DataLoader:
        def __init__(self, dataset, *args, **kwargs):
            self.dataset, self.shuffle = dataset, kwargs.get("shuffle", False)

    class Trainer:
        def __init__(self, *args, **kwargs):
            self.kwargs = kwargs

        def fit(self, model, train, valid, *args, **kwargs):
            LOG.fits.append((model, train, valid, self.kwargs))

    tud.DataLoader, pl.Trainer = DataLoader, Trainer
    torch.set_num_threads = lambda n: None


@contextlib.contextmanager
def outputs():
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = old


def program(name, *argv):
    """Run one of the programs; (exit status or Raised, printed text)."""
    old = sys.argv
    sys.argv = [name] + [str(a) for a in argv]
    try:
        with outputs() as out:
            got = call(runpy.run_path, os.path.join(core.REPO, name), run_name="__main__")
            text = out.getvalue()
    finally:
        sys.argv = old
        for h in logging.getLogger().handlers[:]:
            logging.getLogger().removeHandler(h)
            h.close()
    if isinstance(got, Raised):
        if isinstance(got.exc, SystemExit):
            return (got.exc.code or 0), text
        return got, text
    return 0, text


def folder():
    return tempfile.mkdtemp(dir=core.SCRATCH)


# ---- checkpoints ---------------------------------------------------------------------------------
def checkpoints(base, versions):
    """versions: model -> list of version numbers (files); also writes the icm file."""
    for model, vs in versions.items():
        for v in vs:
            d = os.path.join(base, model, "lightning_logs", "version_%s" % v, "checkpoints")
            os.makedirs(d)
            with open(os.path.join(d, "e=1.ckpt"), "w") as f:
                f.write("x")
    os.makedirs(os.path.join(base, "icm"))
    icm(os.path.join(base, "icm", "initial_chord_prior.json"))


ICM = []


def icm(path, minor=False):
    """A prior file as the real trainer writes it, for different first chords."""
    from harmonic_inference.data.chord import Chord
    from harmonic_inference.data.data_types import ChordType, KeyMode, PitchType
    from harmonic_inference.models import initial_chord_models as m

    if not ICM:
        for mode in (KeyMode.MAJOR, KeyMode.MINOR):
            fd = os.path.join(folder(), "p.json")
            m.train_icm([Chord(15, 15, 15, mode, ChordType.MAJOR, 0, (0, F(0)), 3, (1, F(0)), 3, F(1),
                               PitchType.TPC)], fd)
            with open(fd) as f:
                ICM.append(f.read())
    with open(path, "w") as f:
        f.write(ICM[minor])
    return path


def ckpt(base, model, v):
    return os.path.join(base, model, "lightning_logs", "version_%s" % v, "checkpoints", "e=1.ckpt")


# ---- tsv corpora -----------------------------------------------------------------------------------
CHORD_COLS = ("globalkey globalkey_is_minor localkey localkey_is_minor relativeroot numeral root chord_type "
              "figbass changes").split()
DEGREES = [("I", 0, "M"), ("ii", 2, "m"), ("V", 1, "M"), ("vi", 3, "m")]


def write_corpus(d, labelled, ids=None, shift=0, corpora=None):
    """One measure per piece; piece i has i + 1 notes, the lowest being midi 60 + i, and degree i."""
    ids = list(range(len(labelled))) if ids is None else ids
    key = "CG"[shift]
    tsv(d + "/files.tsv", ["", "corpus_name", "file_name"],
        [[str(i), corpora[k] if corpora else "corp%d" % k, "piece%d" % k] for k, i in enumerate(ids)])
    tsv(d + "/measures.tsv", ["file_id", "measure_id"] + M_COLS,
        [[str(i), str(j), str(j), str(j), "4/4", "1", "0", "1" if j == 0 else "-1"]
         for i in ids for j in (0, 1)])
    notes, chords = [], []
    for k, i in enumerate(ids):
        for j in range(k + 1):
            row = dict(mc=0, mn=0, timesig="4/4", mc_onset=F(j, 8), mn_onset=F(j, 8), duration=F(1, 8),
                       gracenote="", tied="", tpc=k + shift, midi=60 + k, staff=1, voice=1)
            notes.append([str(i), str(j)] + [str(row[n]) for n in N_COLS])
        if labelled[k]:
            num, root, typ = DEGREES[k % 4]
            chords.append([str(i), "0", "0", "0", "4/4", "0", key, "0", "I", "0", "", num, str(root), typ,
                           "", ""])
            chords.append([str(i), "1", "1", "1", "4/4", "0", key, "0", "IV", "0", "", "I", "0", "M", "", ""])
    tsv(d + "/notes.tsv", ["file_id", "note_id"] + N_COLS, notes)
    if chords:
        tsv(d + "/chords.tsv", ["file_id", "chord_id", "mc", "mn", "timesig", "mn_onset"] + CHORD_COLS, chords)


def seen(piece):
    """Name, notes and chords of a loaded piece."""
    chords = piece.get_chords()
    return (piece.name, [(int(n.pitch_class), n.onset[1] if hasattr(n, "onset") else None)
                         for n in piece.get_inputs()],
            None if chords is None else [(int(x.root), x.chord_type.name) for x in chords])


def want_tsv(k, i, has, shift=0):
    kind = {"M": "MAJOR", "m": "MINOR"}[DEGREES[k][2]]
    return ("%d: corp%d/piece%d" % (i, k, k), [(15 + k + shift, F(j, 8)) for j in range(k + 1)],
            [(15 + DEGREES[k][1] + shift, kind), (14 + shift, "MAJOR")] if has else None)


def shifted(write, load):
    """The stored forms of pieces that are told apart from the originals by their pitches."""
    d = folder()
    write(d)
    with core.quiet():
        out = [p.to_dict() for p in load(d)]
    shutil.rmtree(d)
    return out


def selections(ids, most=None):
    yield None
    for r in range(1, len(ids) + 1):
        yield from itertools.permutations(ids, r)


def load_tsv(c, job):
    from harmonic_inference.utils.data_utils import load_pieces

    labelled, ids = job
    c.section("pieces of tsv corpora")
    d = folder()
    try:
        write_corpus(d, labelled, ids)
        want = {i: want_tsv(k, i, labelled[k]) for k, i in enumerate(ids)}
        other = {i: want_tsv(k, i, labelled[k], 1) for k, i in enumerate(ids)}
        with core.quiet():
            everything = call(load_pieces, input_path=d)
        c.expect(not isinstance(everything, Raised), "loading raised %r" % (everything,), job)
        c.equal([seen(p) for p in everything], [want[i] for i in ids], "all pieces", job)
        stored = dict(zip(ids, shifted(lambda f: write_corpus(f, labelled, ids, 1),
                                       lambda f: load_pieces(input_path=f))))
        pieces_of(c, job, ids, want, other, stored, d, False)
    finally:
        shutil.rmtree(d)


def pieces_of(c, job, ids, want, other, stored, d, xml):
    """Every selection of pieces, with and without stored ones."""
    from harmonic_inference.utils.data_utils import load_pieces

    pkl = os.path.join(d, "stored.pkl")
    for pick in selections(ids):
        order = list(pick or ids)
        with open(pkl, "wb") as f:
            pickle.dump([stored[i] for i in order], f)
        for where in (None, "none.pkl", "stored.pkl"):
            for as_path in (False, True):
                for one in [None] + list(ids) + [97]:
                    if xml and len(ids) > 2 and one is not None and not c.thorough:
                        continue
                    if as_path and (one is not None or where != "stored.pkl"):
                        continue
                    case = [job, pick, where, one]
                    kw = {} if where is None else {"piece_dicts_path": os.path.join(d, where)}
                    if as_path:
                        kw["piece_dicts_path"] = Path(kw["piece_dicts_path"])
                    with core.quiet():
                        got = call(load_pieces, xml=xml, input_path=Path(d) if as_path else d,
                                   file_ids=None if pick is None else list(pick), specific_id=one, **kw)
                    c.step()
                    c.state(str(case))
                    if one is not None and one not in order:
                        c.raises(got, ValueError, "a piece that is not among the given ones", case)
                        continue
                    c.expect(not isinstance(got, Raised), lambda: "loading raised %r" % (got,), case)
                    src = other if where == "stored.pkl" else want
                    c.equal([seen(p) for p in got], [src[i] for i in (order if one is None else [one])],
                            "the pieces loaded", case)
                    c.trace(case, str([p.name for p in got]))


# ---- MusicXML corpora --------------------------------------------------------------------------------
STEPS = ["CDEF", "GABC"]


def write_mxl(path, k, shift=0):
    events = [([(STEPS[shift][k], 0, 4)], 1, "")] * (k + 1) + [([], 3 - k, "")] * (k < 3)
    text = X.score([[dict(number=1, ts="4/4", voices=[events]),
                     dict(number=2, voices=[[([], 4, "")]])]])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("META-INF/container.xml",
                   '<?xml version="1.0"?><container><rootfiles><rootfile full-path="a.xml"/></rootfiles>'
                   '</container>')
        z.writestr("a.xml", text)


TPC_OF = {"C": 15, "D": 17, "E": 19, "F": 14}
LABELS = ["0,4,%s,1,M,0", "0,4,%s,2,m,0", "0,4,%s,5,M,0", "0,4,%s,6,m,0"]
LABEL_OF = [(15, "MAJOR"), (17, "MINOR"), (16, "MAJOR"), (18, "MINOR")]


def xml_tree(d, labelled, spread, shift=0):
    """The score files, sorted; spread: one collection each, else all in one."""
    out = []
    for k, has in enumerate(labelled):
        base = os.path.join(d, "coll%d" % k if spread else "coll")
        path = os.path.join(base, "scores", "s.%d.mxl" % k)
        write_mxl(path, k, shift)
        if has:
            os.makedirs(os.path.join(base, "chords"), exist_ok=True)
            with open(os.path.join(base, "chords", "s.%d.csv" % k), "w") as f:
                f.write((LABELS[k] + "\n4,8,%s,1,M,0\n") % ("CG"[shift], "FC"[shift]))
        out.append(os.path.relpath(path, d))
    return out


def want_xml(k, rel, has, shift=0):
    return ("%d: %s" % (k, rel), [(TPC_OF[STEPS[0][k]] + shift, F(j, 4)) for j in range(k + 1)],
            [(LABEL_OF[k][0] + shift, LABEL_OF[k][1]), (14 + shift, "MAJOR")] if has else None)


def load_xml(c, job):
    from harmonic_inference.utils.data_utils import load_pieces

    labelled, spread = job
    c.section("pieces of MusicXML corpora")
    d = folder()
    try:
        rels = xml_tree(d, labelled, spread)
        ids = list(range(len(rels)))
        want = {k: want_xml(k, rels[k], labelled[k]) for k in ids}
        other = {k: want_xml(k, rels[k], labelled[k], 1) for k in ids}
        with core.quiet():
            everything = call(load_pieces, xml=True, input_path=d)
        c.expect(not isinstance(everything, Raised), "loading raised %r" % (everything,), job)
        c.equal([seen(p) for p in everything], [want[i] for i in ids], "all pieces", job)
        stored = dict(zip(ids, shifted(lambda f: xml_tree(f, labelled, spread, 1),
                                       lambda f: load_pieces(xml=True, input_path=f))))
        pieces_of(c, job, ids, want, other, stored, d, True)
        for k, rel in enumerate(rels):
            for kind in (str, Path):
                path = os.path.join(d, rel)
                with core.quiet():
                    got = call(load_pieces, xml=True, input_path=kind(path))
                c.step()
                c.expect(not isinstance(got, Raised), lambda: "loading one file raised %r" % (got,), [job, rel])
                c.equal([seen(p)[1] for p in got], [want[k][1]], "the notes of one file", [job, rel])
                c.expect(os.path.basename(rel) in got[0].name, "the name of one file", [job, rel])
                c.trace([job, rel])
    finally:
        shutil.rmtree(d)


# ---- options and checkpoints ----------------------------------------------------------------------------
def flags(given):
    return [x for n in given for x in ("--" + n.replace("_", "-"), given[n][0])]


def setting(c, prog, argv, case, want_exit=0):
    """Run a program; the options and models that its one search was made with."""
    LOG.clear()
    got, _ = program(prog, *argv)
    c.step()
    if want_exit != 0:
        c.expect(got != 0 and not LOG.asked, lambda: "%s went on (%r) and analysed %d pieces" % (
            prog, got, len(LOG.asked)), case)
        return None
    c.expect(got == 0, lambda: "%s ended with %r" % (prog, got), case)
    c.expect(len(LOG.made) >= 1 and len(LOG.asked) >= 1, "%s did not analyse anything" % prog, case)
    models, given = LOG.made[-1]
    c.expect(all(f in (True, None) for _, _, fs in LOG.asked for f in fs),
             "the models are used for analysis, not training", case)
    c.equal(sorted(models), sorted(list(MODELS) + ["icm"]), "models in use", case)
    return models, given


def chosen(models):
    return {m: (models[m].kind, os.path.abspath(models[m].path)) for m in MODELS}


def options(c, job):
    prog, part = job
    c.section("options")
    d = folder()
    try:
        write_corpus(d, [True])
        base = os.path.join(d, "ck")
        checkpoints(base, {m: [0, 1, 2, 3] for m in MODELS})
        fixed = ["-i", d, "--checkpoint", base, "-o", os.path.join(d, "out")]
        first = setting(c, prog, fixed, [prog])[1]
        c.equal(sorted(first), sorted(NAMES), "options of the search", [prog])
        cases = []
        if part == "one":
            cases = [{n: OPTIONS[n][v]} for n in NAMES for v in (0, 1)]
        elif part == "two":
            cases = [{a: OPTIONS[a][0], b: OPTIONS[b][1]} for a, b in itertools.permutations(NAMES, 2)]
        else:
            cases = [{n: OPTIONS[n][v] for n in NAMES} for v in (0, 1)]
            cases += [{n: OPTIONS[n][0] for n in NAMES if n != out} for out in NAMES]
        if part != "sets":
            for given in cases:
                _, got = setting(c, prog, fixed + flags(given), [prog, given])
                want = dict(first)
                want.update({n: given[n][1] for n in given})
                c.equal(got, want, "the options in use", [prog, given])
                c.state(prog, str(given))
                c.trace([prog, sorted(given)], str(got))
            return
        for flag in ("--defaults", "--fh-defaults"):
            for v in (None, 0, 1, 2, 3):
                for extra in ({}, {"beam_size": OPTIONS["beam_size"][0]}):
                    argv = fixed + [flag] + ([] if v is None else ["--csm-version", v]) + flags(extra)
                    case = [prog, flag, v, sorted(extra)]
                    if v == 3:
                        setting(c, prog, argv, case, want_exit=1)
                    else:
                        models, got = setting(c, prog, argv, case)
                        want = dict(zip(NAMES, SETS[(flag, 2 if v is None else v)]))
                        if extra:       # whether a given option wins is not documented
                            got, want = dict(got), dict(want)
                            c.expect(got.pop("beam_size") in (want.pop("beam_size"), 17), "beam size", case)
                        c.equal(got, want, "the default options", case)
                        c.equal(chosen(models)["csm"][1], ckpt(base, "csm", 3 if v is None else v),
                                "the checkpoint of the csm", case)
                    c.state(*map(str, case))
                    c.trace(case)
    finally:
        shutil.rmtree(d)


def choices(c, job):
    """Which checkpoint is loaded, for one model at a time, and as what."""
    prog, model = job
    c.section("checkpoints")
    d = folder()
    try:
        write_corpus(d, [True])
        others = {m: [5] for m in MODELS if m != model}
        own = os.path.join(d, "own.ckpt")
        with open(own, "w") as f:
            f.write("x")
        n = 0
        for there in (x for r in range(4) for x in itertools.combinations((0, 1, 10), r)):
            n += 1
            base = os.path.join(d, "ck%d" % n)
            checkpoints(base, dict(others, **{model: list(there)}))
            fixed = ["-i", d, "--checkpoint", base, "-o", os.path.join(d, "out")]
            for how in [None, 0, 1, 10, "own", "missing"] + [("own", v) for v in (0, 1)]:
                argv, want = list(fixed), None
                if how is None:
                    want = ckpt(base, model, max(there)) if there else None
                elif isinstance(how, int):
                    argv += ["--%s-version" % model, how]
                    want = ckpt(base, model, how) if how in there else None
                elif how == "own":
                    argv += ["--" + model, own]
                    want = own
                elif how == "missing":
                    argv += ["--" + model, own + "x"]
                else:
                    argv += ["--" + model, own, "--%s-version" % model, how[1]]
                    want = ckpt(base, model, how[1]) if how[1] in there else None
                case = [prog, model, there, how]
                c.state(*map(str, case))
                if want is None:
                    setting(c, prog, argv, case, want_exit=1)
                else:
                    models, _ = setting(c, prog, argv, case)
                    expect = {m: (MODELS[m][0], ckpt(base, m, 5)) for m in MODELS}
                    expect[model] = (MODELS[model][0], want)
                    c.equal(chosen(models), expect, "the models in use", case)
                c.trace(case, str(want is None))
        # classes that cannot read the checkpoint
        for broken in (x for r in range(len(MODELS[model]) + 1)
                       for x in itertools.combinations(MODELS[model], r)):
            kinds = [k for k in MODELS[model] if k not in broken]
            case = [prog, model, "unreadable as", broken]
            LOG.clear()
            old, LOG.clear = LOG.clear, lambda: None
            try:
                LOG.broken = set(broken)
                if not kinds:
                    setting(c, prog, fixed, case, want_exit=1)
                else:
                    models, _ = setting(c, prog, fixed, case)
                    c.equal(chosen(models)[model], (kinds[0], ckpt(base, model, 10)), "the model in use", case)
            finally:
                del LOG.clear
                LOG.clear()
            c.trace(case)
        # the prior over first chords
        if model == "ccm":
            path = icm(os.path.join(d, "own.json"), True)
            for extra, mode in (([], 0), (["--icm-json", path], 1)):
                models, _ = setting(c, prog, fixed + extra, [prog, "icm", mode])
                want = json.loads(ICM[mode])
                c.equal([list(models["icm"].major_prior), list(models["icm"].minor_prior)],
                        [want["major"], want["minor"]], "the prior in use", [prog, "icm", mode])
                c.trace([prog, "icm", mode])
            setting(c, prog, fixed + ["--icm-json", path + "x"], [prog, "icm", "missing"], want_exit=1)
    finally:
        shutil.rmtree(d)


# ---- create_h5_data -> test, train ------------------------------------------------------------------------
def pipeline(c, job):
    import h5py

    labelled, xml, splits, seed, stored = job
    c.section("data creation, evaluation and training")
    d = folder()
    try:
        if xml:
            rels = xml_tree(d + "/in", labelled, True)
            ids = list(range(len(labelled)))
            want = {k: want_xml(k, rels[k], labelled[k]) for k in ids}
        else:
            os.makedirs(d + "/in")
            ids = [2 * k + 1 for k in range(len(labelled))]
            write_corpus(d + "/in", labelled, ids)
            want = {i: want_tsv(k, i, labelled[k]) for k, i in enumerate(ids)}
        x = ["-x"] if xml else []
        common = ["-i", d + "/in", "-s", seed] + x
        LOG.clear()
        got, _ = program("create_h5_data.py", *common, "-o", d + "/h5", "--splits", *splits)
        c.step()
        c.expect(got == 0, lambda: "create_h5_data.py ended with %r" % (got,), job)
        usable = [i for k, i in enumerate(ids) if labelled[k]]
        parts = {}
        for s in ("train", "valid", "test"):
            file = "%s/h5/ChordTransitionDataset_%s_seed_%s.h5" % (d, s, seed)
            if os.path.exists(file):
                with h5py.File(file, "r") as h:
                    parts[s] = [int(i) for i in h["file_ids"]]
        c.equal(sorted(i for p in parts.values() for i in p), usable, "every usable piece in one split", job)
        c.equal(sorted(parts), sorted(s for s, p in zip(("train", "valid", "test"), splits) if p),
                "the splits that have pieces", job)
        for s in parts:
            c.expect(os.path.exists("%s/h5/pieces_%s_seed_%s.pkl" % (d, s, seed)), "stored pieces of " + s, job)
            if not stored:
                os.remove("%s/h5/pieces_%s_seed_%s.pkl" % (d, s, seed))
        base = os.path.join(d, "ck")
        checkpoints(base, {m: [0] for m in MODELS})
        fixed = common + ["--checkpoint", base, "-o", d + "/out", "-h5", d + "/h5"]
        for s, flag in (("valid", []), ("test", ["--test"])):
            if s not in parts:
                continue
            for one in [None] + ids:
                case = [job, s, one]
                argv = fixed + flag + ([] if one is None else ["--id", one])
                if one is not None and one not in parts[s]:
                    setting(c, "test.py", argv, case, want_exit=1)
                    continue
                setting(c, "test.py", argv, case)
                c.equal([seen(p) for p, _, _ in LOG.asked],
                        [want[i] for i in (parts[s] if one is None else [one])], "the pieces evaluated", case)
                c.state(str(case))
                c.trace(case, str(parts))
        for one in [None] + ids:
            case = [job, "no h5", one]
            setting(c, "test.py", fixed + ["--no_h5"] + ([] if one is None else ["--id", one]), case)
            c.equal([seen(p) for p, _, _ in LOG.asked], [want[i] for i in (ids if one is None else [one])],
                    "the pieces evaluated", case)
            argv = ["-i", d + "/in"] + x + ["--checkpoint", base, "-o", d + "/out"]
            setting(c, "annotate.py", argv + ([] if one is None else ["--id", one]), case)
            c.equal([seen(p) for p, _, _ in LOG.asked], [want[i] for i in (ids if one is None else [one])],
                    "the pieces annotated", case)
            c.trace(case)
        if "train" in parts:
            training(c, job, d, common, parts, want, base, seed)
    finally:
        shutil.rmtree(d)


def training(c, job, d, common, parts, want, base, seed):
    """The prior over first chords and the data that each model is trained and validated with."""
    LOG.clear()
    got, _ = program("train.py", "-m", "icm", *common, "-h5", d + "/h5", "--checkpoint", d + "/new")
    c.step()
    case = [job, "train icm"]
    c.expect(got == 0, lambda: "train.py -m icm ended with %r" % (got,), case)
    with open(d + "/new/icm/initial_chord_prior.json") as f:
        data = json.load(f)
    from harmonic_inference.models import initial_chord_models as m
    from harmonic_inference.utils.data_utils import load_pieces
    with core.quiet():
        pieces = load_pieces(xml="-x" in common, input_path=d + "/in", file_ids=parts["train"])
        c.equal([seen(p) for p in pieces], [want[i] for i in parts["train"]], "the training pieces", case)
        m.train_icm([p.get_chords()[0] for p in pieces], d + "/want.json", add_n_smoothing=1.0)
    with open(d + "/want.json") as f:
        c.equal(data, json.load(f), "the prior of the first chords of the training split", case)
    c.trace(case, str(data["major"]))
    if not ("valid" in parts):
        return
    for model, kind in (("ccm", "ChordClassificationDataset"), ("ctm", "ChordTransitionDataset"),
                        ("csm", "ChordSequenceDataset"), ("ktm", "KeyTransitionDataset"),
                        ("ksm", "KeySequenceDataset")):
        for more in ([], ["--pitch-based"]) if model == "csm" else ([],):
            LOG.clear()
            case = [job, "train", model, more]
            got, _ = program("train.py", "-m", model, "-h5", d + "/h5", "--checkpoint", d + "/new", "-s", seed,
                             "-lr", "0.25", *more)
            c.step()
            c.expect(got == 0 and len(LOG.fits) == 1, lambda: "train.py -m %s ended with %r" % (model, got), case)
            net, train, valid, kwargs = LOG.fits[0]
            c.expect(type(net).__name__ in MODELS[model] and (("Pitch" in type(net).__name__) == bool(more)),
                     "the model trained is a %s" % type(net).__name__, case)
            c.equal(float(net.lr), 0.25, "the learning rate", case)
            c.equal([os.path.abspath(kwargs["default_root_dir"])], [os.path.abspath(d + "/new/" + model)],
                    "the directory for checkpoints", case)
            for loader, split in ((train, "train"), (valid, "valid")):
                ds = loader.dataset
                c.equal(type(ds).__name__, kind, "the kind of the %s data" % split, case)
                with core.quiet():
                    pieces = load_pieces(xml="-x" in common, input_path=d + "/in", file_ids=parts[split])
                    again = items(type(ds)(pieces, **net.get_dataset_kwargs()))
                    c.equal(items(ds), again, "the %s data" % split, case)
            c.trace(case)


def items(ds):
    """Everything a dataset hands out."""
    return [{k: np_list(v) for k, v in ds[i].items()} for i in range(len(ds))]


def np_list(v):
    import numpy as np
    if isinstance(v, dict):
        return {k: np_list(x) for k, x in v.items()}
    return np.asarray(v).astype(float).tolist()


# ---- grids ------------------------------------------------------------------------------------------------
def grids(c, job):
    names, sizes, static = job
    c.section("grid search")
    d = folder()
    try:
        write_corpus(d, [True])
        base = os.path.join(d, "ck")
        checkpoints(base, {m: [0, 1] for m in MODELS})
        given = {n: OPTIONS[n][:s] for n, s in zip(names, sizes)}
        argv, want_csm = ["-i", d, "-o", d + "/out", "--checkpoint", base], 1
        if static:
            argv += ["-h5", d + "/h5", "-s", "3", "--threads", "2", "--csm-version", "0", "--ksm",
                     ckpt(base, "ksm", 0), "--test", "--icm-json", icm(d + "/own.json", True)]
            want_csm = 0
            make_split(d + "/h5", "test", 3)
        for n in given:
            argv += ["--" + n.replace("_", "-")] + [v[0] for v in given[n]]
        LOG.clear()
        got, text = program("grid_search.py", *argv)
        c.step()
        case = [names, sizes, static]
        c.expect(got == 0, lambda: "grid_search.py ended with %r" % (got,), case)
        lines = [shlex.split(x) for x in text.strip().split("\n")]
        c.expect(all(x[:2] == ["python", "test.py"] for x in lines), "commands that run test.py", case)
        combos = [dict(zip(names, vs)) for vs in itertools.product(*[given[n] for n in names])]
        c.equal(len(lines), len(combos), "number of commands", case)
        outs = [x[x.index("--output") + 1] for x in lines]
        c.equal(len(set(outs)), len(outs), "a directory for each", case)
        c.expect(all(os.path.abspath(o).startswith(os.path.abspath(d + "/out") + os.sep) for o in outs),
                 "directories inside the given one", case)
        first = setting(c, "test.py", ["-i", d, "--checkpoint", base, "-o", d + "/o2"], case)[1]
        seen_ = []
        for x in lines:
            models, options_ = setting(c, "test.py", x[2:], [case, x])
            seen_.append(sorted((n, options_[n]) for n in NAMES))
            ch = chosen(models)
            c.equal([ch["csm"][1], ch["ksm"][1], ch["ctm"][1]],
                    [ckpt(base, "csm", want_csm), ckpt(base, "ksm", 0 if static else 1), ckpt(base, "ctm", 1)],
                    "the models of a command", [case, x])
            c.equal(list(models["icm"].major_prior), json.loads(ICM[1 if static else 0])["major"],
                    "the prior of a command", [case, x])
            c.equal([p.name.split(":")[0] for p, _, _ in LOG.asked], ["0"], "the pieces of a command", case)
            c.expect(os.path.exists(os.path.join(x[x.index("--output") + 1], "test.log")), "its log", case)
        want = []
        for combo in combos:
            o = dict(first)
            o.update({n: combo[n][1] for n in combo})
            want.append(sorted((n, o[n]) for n in NAMES))
        c.equal(sorted(seen_), sorted(want), "the combinations tried", case)
        c.state(*map(str, case))
        c.trace(case, str(len(lines)))
    finally:
        shutil.rmtree(d)


# ---- choosing pieces for data, aggregation, averages -------------------------------------------------------
CORPORA = ["abc", "bc d", "d.e", "dxe", "f(1)", "abc"]


def created(d, seed=0):
    """split -> file ids, of the data written into d."""
    import h5py

    out = {}
    for name in os.listdir(d) if os.path.isdir(d) else ():
        m = re.match(r"ChordTransitionDataset_(.*)_seed_%s.h5$" % seed, name)
        if m:
            with h5py.File(os.path.join(d, name), "r") as h:
                out[m.group(1)] = sorted(int(i) for i in h["file_ids"])
    return out


def creation(c, job):
    """Which pieces data is made from, and what is refused."""
    only, debug, splits, log = job
    c.section("choosing pieces for data")
    d = folder()
    try:
        ids = [3 * k + 2 for k in range(len(CORPORA))]
        write_corpus(d, [k != 1 for k in range(len(CORPORA))], ids, corpora=CORPORA)
        argv = ["-i", d, "-o", d + "/h5", "--splits"] + list(splits)
        if debug:
            argv += ["--debug"]
        if log:
            argv += ["-l", d + "/new/dir/log.txt"]
        if only is not None:
            argv += ["--corpus"] + list(only)
        case = [only, debug, splits, log]
        got, _ = program("create_h5_data.py", *argv)
        c.step()
        c.state(*map(str, case))
        if min(splits) < 0 or sum(splits) == 0:
            c.expect(got not in (0,), "impossible splits are refused", case)
            c.equal(created(d + "/h5"), {}, "no data for impossible splits", case)
            c.trace(case, "refused")
            return
        c.expect(got == 0, lambda: "create_h5_data.py ended with %r" % (got,), case)
        want = [i for k, i in enumerate(ids) if k != 1 and (not debug or k < 5)
                and (not only or any(x in CORPORA[k] for x in only))]
        parts = created(d + "/h5")
        c.equal(sorted(x for p in parts.values() for x in p), want, "the pieces that data is made from", case)
        if splits[1:] == (0, 0):
            c.equal(parts, {"train": want} if want else {}, "everything in one split", case)
        if log:
            c.expect(os.path.exists(d + "/new/dir/log.txt"), "the log file", case)
        c.trace(case, str(parts))
    finally:
        shutil.rmtree(d)


def aggregation(c, job):
    """The aggregation program: the same files as the library function, in the directory asked for."""
    from harmonic_inference.data.corpus_reading import aggregate_annotation_dfs

    have, notes_only = job
    c.section("aggregation")
    d = folder()
    try:
        for k, kinds in enumerate(have):
            for kind in ("notes", "measures", "harmonies"):
                if kind[0] in kinds:
                    sub = os.path.join(d, "in", "corp%d" % k, kind)
                    os.makedirs(sub)
                    tsv(os.path.join(sub, "p%d.tsv" % k), ["mc", "x"], [["0", kind + str(k)], ["1", "z"]])
        os.makedirs(d + "/in", exist_ok=True)
        case = [have, notes_only]
        got, _ = program("aggregate_corpus_data.py", "-i", d + "/in", "-o", d + "/out/deep",
                         *(["--notes-only"] if notes_only else []))
        c.step()
        with core.quiet():
            lib = call(aggregate_annotation_dfs, Path(d + "/in"), Path(d + "/want"), notes_only=notes_only)
        c.expect((got == 0) == (not isinstance(lib, Raised)), lambda: "program ended with %r, function with %r"
                 % (got, lib), case)
        c.equal(texts_in(d + "/out/deep"), texts_in(d + "/want"), "the aggregated files", case)
        usable = [k for k, kinds in enumerate(have) if ("n" if notes_only else "h") in kinds]
        if usable:
            files = texts_in(d + "/out/deep")
            rows = [x.split("\t")[1:] for x in files["files.tsv"].strip("\n").split("\n")[1:]]
            c.equal(sorted(rows), [["corp%d" % k, "p%d.tsv" % k] for k in usable], "the pieces aggregated",
                    case)
            number = {int(k[1][4:]): i for i, k in enumerate([["", x[0], x[1]] for x in rows])}
            for kind, file in (("notes", "notes"), ("measures", "measures"), ("harmonies", "chords")):
                got = [x.split("\t") for x in files.get(file + ".tsv", "").strip("\n").split("\n")[1:]]
                want = [[str(i), str(j), str(j), x] for k, i in number.items() if kind[0] in have[k]
                        for j, x in enumerate((kind + str(k), "z"))]
                c.equal(sorted(got), sorted(want), "the rows of %s.tsv" % file, case)
        c.state(*map(str, case))
        c.trace(case, str(len(usable)))
    finally:
        shutil.rmtree(d)


def texts_in(d):
    out = {}
    for name in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        with open(os.path.join(d, name)) as f:
            out[name] = f.read()
    return out


def reports(c, job):
    """test.py --average, and data without file ids."""
    import h5py

    c.section("averages and bad data")
    d = folder()
    try:
        write_corpus(d, [True])
        checkpoints(d + "/ck", {m: [0] for m in MODELS})
        fixed = ["-i", d, "--checkpoint", d + "/ck", "-o", d + "/out"]
        for values in itertools.product((0.0, 0.5, 1.0), repeat=3):
            with open(d + "/old.log", "w") as f:
                f.write("INFO:root:Running piece 1\nChord accuracy = %s\nChord accuracy = %s\nKey accuracy = %s\n"
                        % values)
            LOG.clear()
            got, text = program("test.py", *fixed, "--average", d + "/old.log")
            c.step()
            c.expect(got == 0, lambda: "test.py --average ended with %r" % (got,), values)
            want = ["Average Chord accuracy = %s" % ((values[0] + values[1]) / 2),
                    "Average Key accuracy = %s" % values[2]]
            c.equal(sorted(text.strip().split("\n")), want, "the averages", values)
            c.equal(len(LOG.made), 0, "number of searches", values)
            c.state("average", values)
            c.trace(["average", values])
        for split, flag in (("valid", []), ("test", ["--test"])):
            os.makedirs(d + "/h5" + split)
            with h5py.File("%s/h5%s/ChordTransitionDataset_%s_seed_0.h5" % (d, split, split), "w") as h:
                h.create_dataset("other", data=[0])
            argv = fixed + flag + ["-h5", d + "/h5" + split]
            setting(c, "test.py", argv, ["no file ids", split], want_exit=1)
            setting(c, "test.py", argv + ["--no_h5"], ["no file ids, not used", split])
            c.trace(["no file ids", split])
        for prog in ("annotate.py", "test.py"):
            for more in (["-v"], ["-l", "own.txt"], ["-v", "-l", "sub/own.txt"]):
                setting(c, prog, fixed + more, [prog, more])
                c.equal([p.name for p, _, _ in LOG.asked], ["0: corp0/piece0"], "the pieces", [prog, more])
                if "-l" in more:
                    c.expect(os.path.exists(os.path.join(d, "out", more[-1])), "the log file", [prog, more])
                c.trace([prog, more])
    finally:
        shutil.rmtree(d)


def make_split(h5, split, seed):
    import h5py

    os.makedirs(h5)
    with h5py.File("%s/ChordTransitionDataset_%s_seed_%s.h5" % (h5, split, seed), "w") as h:
        h.create_dataset("file_ids", data=[0])


def body(c):
    core.setup_imports(stubs=True)
    core.python_csv()
    install()
    import harmonic_inference.utils.data_utils  # noqa: F401
    import annotate  # noqa: F401

    jobs = []
    for prog in ("annotate.py", "test.py"):
        jobs += [(options, (prog, p)) for p in ("one", "all", "sets") + (("two",) if c.thorough else ())]
        jobs += [(choices, (prog, m)) for m in MODELS]
    for n in (1, 2, 3):
        for labelled in itertools.product((True, False), repeat=n):
            for ids in [list(range(n)), [4, 1, 7][:n]]:
                jobs.append((load_tsv, (labelled, ids)))
            for spread in (True, False):
                jobs.append((load_xml, (labelled, spread)))
    for n in (2, 3, 4):
        for labelled in itertools.product((True, False), repeat=n):
            k = sum(labelled)
            if not k or (n == 4 and not c.thorough and k != 3):
                continue
            for splits in ((1, 0, 0), (1, 1, 0), (0, 1, 1), (1, 1, 1)):
                if sum(splits) > k or k % sum(splits):
                    continue
                for xml in (False, True):
                    if xml and n == 4 and not c.thorough:
                        continue
                    for seed in (0, 1) if c.thorough or not xml else (0,):
                        for stored in (True, False):
                            jobs.append((pipeline, (labelled, xml, splits, seed, stored)))
    for r in (0, 1, 2):
        for names in itertools.combinations(NAMES, r):
            for sizes in itertools.product((1, 2), repeat=r):
                if r == 2 and sizes != (2, 2) and not c.thorough:
                    continue
                for static in (False, True) if r < 2 or c.thorough else (names[0] == NAMES[0],):
                    jobs.append((grids, (names, sizes, static)))
    jobs.append((grids, (tuple(NAMES[:5]), (2,) * 5, True)))
    for only in [None, ()] + [x for r in (1, 2) for x in itertools.combinations(("bc", "d.e", "(1)", "zzz"), r)]:
        for debug in (False, True):
            jobs.append((creation, (only, debug, (1, 0, 0), debug)))
    for splits in itertools.product((-1, 0, 0.25, 2), repeat=3):
        jobs.append((creation, (None, False, splits, False)))
    for n in (1, 2):
        kinds = ("nmh", "nm", "mh", "nh", "m", "")
        for have in itertools.product(kinds, repeat=n):
            jobs += [(aggregation, (have, x)) for x in (False, True)]
    jobs.append((reports, None))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    check = core.Check("C26", RULE, {
        "corpora": "<= 3 pieces (4 for created data), every subset labelled, every ordered selection",
        "checkpoints": "every subset of 3 versions x default, version, own and missing file x loadable classes",
        "options": "12 options x 2 values alone and together, 2 default sets x 5 versions",
        "grids": "every pair of options with 2 values each, one of 5 options"},
        assumptions=["networks and search are replaced by recorders; h5 files are held by a stand-in"])
    return core.run(check, body)
