"""C01 pitch arithmetic."""
from mc import core, theory as T
from mc.core import call, Raised

RULE = ("every pitch name (7 letters, both cases, -5..5 accidentals), every pitch x interval, every "
        "pitch x tonic x (chord/key-change, padded) configuration; the reference is letter/"
        "accidental spelling arithmetic")


def body(c):
    core.setup_imports()
    import harmonic_inference.utils.harmonic_utils as hu
    from harmonic_inference.data.data_types import PitchType

    PT = {"TPC": PitchType.TPC, "MIDI": PitchType.MIDI}
    span = 60 if not c.thorough else 240

    c.section("names")
    for pt in PT:
        for letter in "ABCDEFG":
            for acc in range(-5, 6):
                suffix = "#" * acc if acc >= 0 else "b" * -acc
                for name in (letter + suffix, letter.lower() + suffix):
                    got = call(hu.get_pitch_from_string, name, PT[pt])
                    c.state(pt, name)
                    want = T.tpc(letter, acc) if pt == "TPC" else T.midi(letter, acc)
                    if pt == "TPC" and not 0 <= want < 35:
                        c.raises(got, ValueError, "pitch name %r (%s)" % (name, pt), [name, pt])
                    else:
                        c.equal(got, want, "pitch name %r (%s)" % (name, pt), [name, pt])
                    c.trace([pt, name, repr(got)], (pt, repr(got)))
    for i, name in enumerate(T.MIDI_NAMES):
        c.equal(call(hu.get_pitch_from_string, name, PT["MIDI"]), i, "pitch name %r" % name, name)
    for p in range(-span, span):
        c.equal(call(hu.get_pitch_string, p, PT["MIDI"]), T.MIDI_NAMES[p % 12],
                "MIDI pitch string %d" % p, p)
        c.state("MIDI-str", p)
    for p in range(-14, 49):
        c.equal(call(hu.get_pitch_string, p, PT["TPC"]), T.tpc_name(p), "TPC string %d" % p, p)
        c.state("TPC-str", p)
    for pt in PT:
        for p in range(T.NUM[pt]):
            s = call(hu.get_pitch_string, p, PT[pt])
            c.equal(call(hu.get_pitch_from_string, s, PT[pt]), p, "name round trip %s %d" % (pt, p),
                    [pt, p])
            c.trace(["round trip", pt, p, s], s)

    c.section("accidentals")
    for n in range(-4, 5):
        for rest in ("V", "vii", "3", "C", "A", "b", "xyz"):
            acc = "#" * n if n >= 0 else "b" * -n
            for front in (True, False):
                if not rest.replace("b", "") and n > 0 and False:
                    continue
                s = acc + rest if front else rest + acc
                if rest == "b" and front:
                    # a bare trailing letter b is the note name, not an accidental
                    want = (n, "b") if n <= 0 else None
                    if want is None:
                        continue
                elif rest == "b":
                    want = (n, "b") if n <= 0 else (n, "b")
                    if n > 0:
                        # sharps follow flats when read from the end: only defined for pure runs
                        continue
                else:
                    want = (n, rest)
                got = call(hu.get_accidental_adjustment, s, in_front=front)
                c.state(s, front)
                c.equal(tuple(got) if isinstance(got, tuple) else got, want,
                        "accidentals of %r (front=%s)" % (s, front), [s, front])
                c.trace([s, front, repr(got)], repr(got))

    c.section("transposition")
    for pt in PT:
        for p in range(T.NUM[pt]):
            for i in range(-span, span + 1):
                got = call(hu.transpose_pitch, p, i, PT[pt])
                want = T.transpose(p, i, pt)
                c.state(pt, p, i)
                if want is None:
                    c.raises(got, ValueError, "transpose %d by %d (%s)" % (p, i, pt), [pt, p, i])
                    c.trace(None, "range error")
                    continue
                c.equal(got, want, "transpose %d by %d (%s)" % (p, i, pt), [pt, p, i])
                c.equal(call(hu.transpose_pitch, got, -i, PT[pt]), p,
                        "transposing %d by %d and back (%s)" % (p, i, pt), [pt, p, i])
                c.trace([pt, p, i, got], (pt, got))
    # TPC and MIDI agree
    for a in range(35):
        for b in range(35):
            semis = call(hu.tpc_interval_to_midi_interval, b - a)
            c.equal(semis, (T.tpc_to_midi(b) - T.tpc_to_midi(a)) % 12,
                    "semitones of the interval %d->%d" % (a, b), [a, b])
            c.state("interval", b - a)
            c.trace(["interval", a, b, semis], ("iv", semis))
    for a in range(35):
        c.equal(call(hu.get_pitch_from_string, call(hu.get_pitch_string, a, PT["TPC"]),
                     PT["MIDI"]), T.tpc_to_midi(a), "TPC->MIDI by name %d" % a, a)

    c.section("relative")
    for pt in PT:
        lo, hi = (0, 35) if pt == "TPC" else (0, 12)
        for p in range(lo, hi):
            for k in range(lo, hi):
                for key_change in (False, True):
                    for pad in (False, True):
                        got = call(hu.absolute_to_relative, p, k, PT[pt], key_change, pad=pad)
                        case = [pt, p, k, key_change, pad]
                        c.state(*case)
                        if pt == "MIDI":
                            want = (p - k) % 12
                        else:
                            ext = T.PAD if pad and not key_change else 0
                            want = p - k - (T.REL_MIN - ext)
                            if not 0 <= want < (T.REL_MAX - T.REL_MIN + 2 * ext):
                                want = None
                        if want is None:
                            c.raises(got, ValueError, "relative pitch %s" % case, case)
                        else:
                            c.equal(got, want, "relative pitch %s" % case, case)
                        c.trace(case + [repr(got)], repr(want))


def main():
    c = core.Check("C01", RULE, {"letters": 7, "accidentals": "-5..5", "TPC pitches": 35,
                                 "MIDI pitches": 12, "intervals": "[-60,60] quick, [-240,240] thorough"})
    return core.run(c, body)
