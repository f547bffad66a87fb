"""C15 copies: dictionaries, equality, repeats, merging and pitch-type conversion of the musical objects."""
import copy
import itertools
from fractions import Fraction as F

from mc import core, repo, theory as T
from mc.core import Raised, call

RULE = ("every note, chord and key over small value sets for every field is converted to a dictionary and "
        "back, compared with every other one (equality, repetition), merged, and converted between pitch "
        "types; every small piece is converted to a dictionary and back; field-by-field comparison is the "
        "oracle")


def spaces():
    PT, CT, KM = repo.enums()
    note = dict(pitch_class=(0, 7), octave=(4, 5), onset=((0, F(0)), (1, F(1, 2))), onset_level=(3, 1),
                duration=(F(1, 4), F(3, 4)), offset=((0, F(1, 4)), (2, F(0))), offset_level=(1, 2),
                pitch_type=(PT["TPC"], PT["MIDI"]), mc_onset=(F(0), F(1, 4)))
    chord = dict(root=(0, 7), bass=(0, 4), key_tonic=(0, 9), key_mode=(KM["MAJOR"], KM["MINOR"]),
                 chord_type=(CT["MAJOR"], CT["MAJ_MIN7"]), inversion=(0, 1),
                 onset=((0, F(0)), (1, F(1, 2))), onset_level=(3, 1), offset=((1, F(0)), (2, F(0))),
                 offset_level=(3, 0), duration=(F(1), F(1, 2)), pitch_type=(PT["TPC"], PT["MIDI"]),
                 suspension=(None, "4"))
    key = dict(relative_tonic=(0, 7), local_tonic=(0, 7), global_tonic=(0, 7),
               relative_mode=(KM["MAJOR"], KM["MINOR"]), local_mode=(KM["MAJOR"], KM["MINOR"]),
               global_mode=(KM["MAJOR"], KM["MINOR"]), tonic_type=(PT["TPC"], PT["MIDI"]))
    return note, chord, key


def classes():
    from harmonic_inference.data.chord import Chord
    from harmonic_inference.data.key import Key
    from harmonic_inference.data.note import Note
    return {"note": Note, "chord": Chord, "key": Key}


def values(obj, names):
    return {n: getattr(obj, n) for n in names}


def field_job(c, job):
    kind, pt_index = job
    cls = classes()[kind]
    space = dict(zip(("note", "chord", "key"), spaces()))[kind]
    names = list(space)
    typ = "tonic_type" if kind == "key" else "pitch_type"
    c.section(kind + " fields")
    base = [space[n][pt_index if n == typ else 0] for n in names]
    for combo in itertools.product(*(space[n] if n != typ else (space[n][pt_index],) for n in names)):
        kw = dict(zip(names, combo))
        obj = cls(**kw)
        case = [kind, {k: str(v) for k, v in kw.items()}]
        c.equal(values(obj, names), kw, "fields", case)
        d = call(obj.to_dict)
        c.equal(d, kw, "dictionary", case)
        back = call(lambda: cls(**d))
        c.expect(not isinstance(back, Raised) and back == obj and obj == back,
                 "an object made from the dictionary equals its original: %r" % (back,), case)
        c.step()
        diff = [n for n, a, b in zip(names, combo, base) if a != b]
        ref = cls(**dict(zip(names, base)))
        c.equal([obj == ref, ref == obj, obj != ref], [not diff, not diff, bool(diff)],
                lambda: "equality of two %ss that differ in %s" % (kind, diff or "nothing"), case)
        c.equal([obj == None, obj == 3], [False, False], "equality with other things", case)  # noqa: E711
        if kind == "chord":
            for inv, susp in itertools.product((True, False), repeat=2):
                rel = {"root", "chord_type", "pitch_type"} | ({"inversion"} if inv else set()) | (
                    {"suspension"} if susp else set())
                for a, b in ((obj, ref), (ref, obj)):
                    c.equal(call(a.is_repeated, b, use_inversion=inv, use_suspension=susp),
                            not rel & set(diff), lambda: "repetition of chords that differ in %s" % diff,
                            case + [inv, susp])
            c.equal(call(obj.is_repeated, ref), not {"root", "chord_type", "inversion"} & set(diff),
                    "repetition of chords by default", case)
            first, second = cls(**dict(zip(names, base))), cls(**kw)
            call(first.merge_with, second)
            want = dict(zip(names, base))
            want.update(offset=kw["offset"], offset_level=kw["offset_level"],
                        duration=want["duration"] + kw["duration"])
            c.equal([values(first, names), values(second, names)], [want, kw], "merged chords", case)
        if kind == "key":
            for use_rel in (True, False):
                rel = {"relative_tonic", "relative_mode"} if use_rel else {"local_tonic", "local_mode"}
                c.equal([call(f, ref, use_relative=use_rel) for f in (obj.is_repeated, obj.equals)],
                        [not rel & set(diff)] * 2, lambda: "repetition of keys that differ in %s" % diff,
                        case + [use_rel])
            c.equal([call(obj.is_repeated, ref), call(obj.equals, ref), call(obj.equals, 3)],
                    [not {"relative_tonic", "relative_mode"} & set(diff)] * 2 + [False],
                    "repetition of keys by default", case)
        # an object of the other pitch type with the same numbers is another object
        other = cls(**dict(kw, **{typ: space[typ][1 - pt_index]}))
        c.equal([obj == other, other == obj], [False, False], "equality across pitch types", case)
        if kind == "chord":
            c.equal([call(obj.is_repeated, other, use_inversion=v) for v in (True, False)], [False] * 2,
                    "repetition across pitch types", case)
        if kind == "key":
            c.equal([call(f, other, use_relative=v) for f in (obj.is_repeated, obj.equals)
                     for v in (True, False)], [False] * 4, "repetition across pitch types", case)
        # copies are independent
        same_type = call(obj.to_pitch_type, space[typ][pt_index])
        c.expect(not isinstance(same_type, Raised) and same_type == obj and same_type is not obj,
                 "conversion to its own pitch type is a copy", case)
        setattr(same_type, names[0], 11)
        c.equal(values(obj, names), kw, "the original after changing its copy", case)
        c.state(kind, str(combo))
        c.trace(case, tuple(diff))


def type_job(c, job):
    """Conversion between pitch types keeps every sounding pitch and every other field."""
    kind, p = job
    PT, CT, KM = repo.enums()
    cls = classes()[kind]
    c.section(kind + " pitch types")
    space = dict(zip(("note", "chord", "key"), spaces()))[kind]
    names = list(space)
    typ = "tonic_type" if kind == "key" else "pitch_type"
    pitched = {"note": ["pitch_class"], "chord": ["root", "bass", "key_tonic"],
               "key": ["relative_tonic", "local_tonic", "global_tonic"]}[kind]
    for a, b in (("TPC", "MIDI"), ("MIDI", "TPC")):
        if p >= T.NUM[a]:
            continue
        for which in pitched:
            for other in (0, 4) if a == "MIDI" else (15, 3):
                kw = {n: space[n][1] for n in names}
                kw[typ] = PT[a]
                for n in pitched:
                    kw[n] = other
                kw[which] = p
                obj = cls(**kw)
                got = call(obj.to_pitch_type, PT[b])
                case = [kind, a, b, which, p, other]
                c.expect(not isinstance(got, Raised), "conversion raised %r" % (got,), case)
                c.equal({n: getattr(got, n) for n in names if n not in pitched},
                        dict({n: kw[n] for n in names if n not in pitched}, **{typ: PT[b]}),
                        "fields that are not pitches", case)
                for n in pitched:
                    x, y = kw[n], getattr(got, n)
                    if a == "TPC":
                        c.equal(y, T.tpc_to_midi(x), "%s as MIDI" % n, case)
                    else:
                        c.expect(0 <= y < 35 and T.tpc_to_midi(y) == x, "%s as TPC: %r" % (n, y), case)
                c.equal(values(obj, names), kw, "the original after conversion", case)
                c.state(*case)
                c.trace(case)


def piece_job(c, job):
    import pandas as pd
    from harmonic_inference.data.piece import ScorePiece, get_score_piece_from_dict

    PT, CT, KM = repo.enums()
    nn, nc, nk = job
    cl = classes()
    c.section("pieces")
    df = pd.DataFrame({"mc": [0, 1, 2, 3], "timesig": ["4/4"] * 4, "act_dur": [F(1)] * 4,
                       "mc_offset": [F(0)] * 4, "next": pd.Series([1, 2, 3, None], dtype=object)})
    for pt in ("TPC", "MIDI"):
        notes = [cl["note"](i % 5, 4 + i % 2, (i // 2, F(i % 2, 2)), 1 + i % 3, F(1, 2 + i),
                            (i // 2 + 1, F(0)), 3, PT[pt], mc_onset=F(i % 2, 2)) for i in range(nn)]
        chords = [cl["chord"](i, i, 0, KM["MINOR"], CT["DIMINISHED"], 0, (i, F(0)), 3, (i + 1, F(0)), 3, F(1),
                              PT[pt], suspension="4" if i % 2 else None) for i in range(nc)]
        keys = [cl["key"](i, i + 1, i + 2, KM["MINOR"], KM["MAJOR"], KM["MINOR"], PT[pt])
                for i in range(nk)]
        change_sets = list(itertools.combinations(range(nn), nc)) if nc else [()]
        key_sets = list(itertools.combinations(range(nc), nk)) if nc else [()]
        for changes, kchanges in itertools.product(change_sets, key_sets):
            ranges = [(max(0, s - 1), e) for s, e in zip(changes, list(changes[1:]) + [nn])]
            if nc:
                args = (chords, keys, list(changes), ranges, list(kchanges))
            else:
                args = (None,) * 5
            piece = ScorePiece(df, notes, *args, name="p")
            case = [pt, nn, nc, nk, changes, kchanges]
            facts = describe(piece)
            d = call(piece.to_dict)
            c.expect(not isinstance(d, Raised), "saving a piece raised %r" % (d,), case)
            back = call(get_score_piece_from_dict, df, copy.deepcopy(d), name="p")
            c.expect(not isinstance(back, Raised), "loading a saved piece raised %r" % (back,), case)
            c.equal(describe(back), facts, "a piece that was saved and loaded", case)
            c.equal(describe(piece), facts, "a piece after saving it", case)
            # the copy is independent of the original
            back.get_inputs()[0].octave = 9
            c.equal(describe(piece), facts, "a piece after changing its copy", case)
            c.state(*map(str, case))
            c.trace(case)


def ints(x):
    return None if x is None else [tuple(int(z) for z in y) if hasattr(y, "__len__") else int(y) for y in x]


def dicts(x):
    return None if x is None else [{k: str(v) for k, v in y.to_dict().items()} for y in x]


def describe(p):
    return [dicts(p.get_inputs()), dicts(p.get_chords()), dicts(p.get_keys()),
            ints(p.get_chord_change_indices()), ints(p.get_chord_ranges()), ints(p.get_key_change_indices()),
            ints(p.get_key_change_input_indices()), [str(x) for x in p.get_duration_cache()], p.name]


def body(c):
    core.setup_imports()
    import harmonic_inference.data.piece  # noqa: F401

    jobs = [(field_job, (k, i)) for k in ("chord", "note", "key") for i in (0, 1)]
    jobs += [(type_job, (k, p)) for k in ("note", "chord", "key") for p in range(35)]
    for nn in range(1, 5 if c.thorough else 4):
        jobs.append((piece_job, (nn, 0, 0)))
        for nc in range(1, min(nn, 3) + 1):
            for nk in range(1, nc + 1):
                jobs.append((piece_job, (nn, nc, nk)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    c = core.Check("C15", RULE, {
        "fields": "2 values for every field of notes (2^9), chords (2^13) and keys (2^7)",
        "pitches": "every pitch of both pitch types in every pitched field",
        "pieces": "1-3 (4) notes, 0-3 chords, every choice of chord and key changes"}, [])
    return core.run(c, body)
