"""C04 chord content: pitches, bass note, transposition, type names and figures."""
from mc import core, repo, theory as T
from mc.core import call

RULE = ("every chord type x root x inversion x pitch type; every transposition interval; every 12-bit "
        "MIDI pitch set and every 1- and 2-pitch TPC set for set transposition; reference: stacked "
        "thirds as interval pairs (fifths, semitones)")


def body(c):
    core.setup_imports()
    import numpy as np
    import harmonic_inference.utils.harmonic_utils as hu

    PT, CT, KM = repo.enums()
    c.section("content")
    for t in T.TYPES:
        c.equal(call(hu.get_chord_inversion_count, CT[t]), T.n_members(t), "inversions of " + t, t)
        c.equal(call(hu.get_chord_string, CT[t]), T.TYPE_STR[t], "name of " + t, t)
        c.equal(call(hu.get_chord_type_from_string, T.TYPE_STR[t]), CT[t], "type named " + t, t)
        for pt in PT:
            for root in [None] + list(range(T.NUM[pt])):
                r = T.C0[pt] if root is None else root
                mem = T.members(t, r, pt)
                want = [1 if p in mem else 0 for p in range(T.NUM[pt])]
                got = call(hu.get_vector_from_chord_type, CT[t], PT[pt], root=root)
                c.equal(got if isinstance(got, core.Raised) else [int(x) for x in got], want,
                        "pitches of %s on %s (%s)" % (t, root, pt), [t, root, pt])
                c.state(pt, t, root)
                c.trace([pt, t, root, mem], (pt, tuple(mem)))
                if root is None:
                    continue
                for inv in range(T.n_members(t)):
                    got = call(hu.get_bass_note, CT[t], root, inv, PT[pt])
                    case = [pt, t, root, inv]
                    if pt == "TPC" and not 0 <= mem[inv] < 35:
                        c.raises(got, ValueError, "bass of %s" % case, case)
                    else:
                        c.equal(got, mem[inv], "bass of %s" % case, case)
                for inv in range(0, 9):
                    got = call(hu.get_bass_note, CT[t], root, inv, PT[pt], modulo=True)
                    w = mem[inv % T.n_members(t)]
                    case = [pt, t, root, inv, "modulo"]
                    if pt == "TPC" and not 0 <= w < 35:
                        c.raises(got, ValueError, "bass of %s" % case, case)
                    else:
                        c.equal(got, w, "bass of %s" % case, case)
    for s, t in (("It", "DIMINISHED"), ("Ger", "DIM7"), ("Fr", "MAJ_MIN7")):
        c.equal(call(hu.get_chord_type_from_string, s), CT[t], "type named " + s, s)
    for bad in ("", "X", "maj", "M8", "mmm", " M", "O", "7"):
        c.raises(call(hu.get_chord_type_from_string, bad), ValueError, "bad chord type %r" % bad, bad)
    for fig, inv in list(T.FIGBASS.items()) + [(None, 0), (float("nan"), 0)]:
        c.equal(call(hu.get_chord_inversion, fig), inv, "figured bass %r" % (fig,), repr(fig))
    for bad in ("5", "63", "8", "642", "x"):
        c.raises(call(hu.get_chord_inversion, bad), ValueError, "bad figure %r" % bad, bad)

    c.section("set transposition MIDI")
    span = range(-25, 26) if c.thorough else range(-13, 14)
    for bits in range(4096):
        if not c.thorough and bin(bits).count("1") > 4:
            continue
        vec = [(bits >> i) & 1 for i in range(12)]
        for iv in span:
            got = call(hu.transpose_chord_vector, np.array(vec), iv, PT["MIDI"])
            want = [vec[(i - iv) % 12] for i in range(12)]
            c.equal(got if isinstance(got, core.Raised) else got.tolist(), want,
                    "MIDI set %s by %d" % (vec, iv), [vec, iv])
        c.state(bits)
        c.trace([vec], bits)
    c.section("set transposition TPC")
    for a in range(35):
        for b in range(a, 35):
            vec = [1 if i in (a, b) else 0 for i in range(35)]
            for iv in (range(-40, 41) if c.thorough else
                       (-36, -35, -34, -20, -7, -1, 0, 1, 7, 20, 34, 35, 36)):
                src = np.array(vec)
                got = call(hu.transpose_chord_vector, src, iv, PT["TPC"])
                want = [1 if (i - iv) in (a, b) else 0 for i in range(35)]
                c.equal(got if isinstance(got, core.Raised) else got.tolist(), want,
                        "TPC set {%d,%d} by %d" % (a, b, iv), [a, b, iv])
                c.expect(src.tolist() == vec, "transposing a pitch set changed its input", [a, b, iv])
            c.state(a, b)
            c.trace([a, b], (a, b))
    # TPC and MIDI pitches of the same chord agree
    c.section("enharmonic agreement")
    for t in T.TYPES:
        for root in range(9, 27):
            tp = call(hu.get_vector_from_chord_type, CT[t], PT["TPC"], root=root)
            mi = call(hu.get_vector_from_chord_type, CT[t], PT["MIDI"], root=T.tpc_to_midi(root))
            got = sorted({T.tpc_to_midi(i) for i, v in enumerate(tp) if v})
            c.equal(got, [i for i, v in enumerate(mi) if v], "enharmonic pitches %s %d" % (t, root),
                    [t, root])
            c.state(t, root)
            c.trace([t, root])


def main():
    c = core.Check("C04", RULE, {"chord types": 12, "roots": "35 TPC, 12 MIDI",
                                 "MIDI sets": "all with <=4 pitches (quick), all 4096 (thorough)"})
    return core.run(c, body)
