"""C06 chord vectors: layout, decoding, in-place reductions and one-hot reductions."""
from fractions import Fraction

from mc import core, repo, theory as T
from mc.core import Raised, call

RULE = ("every chord (root x type x inversion) relative to every key tonic, encoded, compared with a "
        "reference layout, decoded and reduced; every metrical annotation; every chord label index "
        "under every pair of present/requested label configurations")


def npitch(pt, pad):
    return len(T.roots(pt, True, pad))


def rel(p, tonic, pt, pad):
    """Index of a pitch relative to the tonic, or None."""
    r = (p - tonic) % 12 if pt == "MIDI" else p - tonic
    rts = T.roots(pt, True, pad)
    return rts.index(r) if r in rts else None


def chord_vec(pt, pad, ri, t, bi, inv, on, off, dur, major):
    n = npitch(pt, pad)
    v = [0.0] * (2 * n + 26)
    v[ri] = 1.0
    v[n + T.TYPES.index(t)] = 1.0
    v[n + 12 + bi] = 1.0
    base = 2 * n + 12
    v[base + inv] = 1.0
    v[base + 4 + on] = 1.0
    v[base + 8 + off] = 1.0
    v[base + 12] = dur
    v[base + 13] = 1.0 if major else 0.0
    return v


def chords(pt):
    """All (root, type, inversion, bass) whose bass is a representable pitch."""
    for root in range(T.NUM[pt]):
        for t in T.TYPES:
            mem = T.members(t, root, pt)
            for inv, bass in enumerate(mem):
                if 0 <= bass < T.NUM[pt]:
                    yield root, t, inv, bass


def key_vec(pt, interval, mode):
    """Key change vector: interval one-hot then mode one-hot (MAJOR, MINOR)."""
    rts = list(range(12)) if pt == "MIDI" else list(range(-14, 15))
    v = [0.0] * (len(rts) + 2)
    if interval in rts:
        v[rts.index(interval)] = 1.0
    v[len(rts) + ("MAJOR", "MINOR").index(mode)] = 1.0
    return v


def work(c, job):
    import numpy as np
    from harmonic_inference.data.chord import Chord
    from harmonic_inference.data import vector_decoding as vd
    from harmonic_inference.data.key import Key

    PT, CT, KM = repo.enums()
    pt, tonic = job
    c.section("encode-decode")
    i = 0
    for root, t, inv, bass in chords(pt):
        i += 1
        on, off = i % 4, (i // 4) % 4
        dur = [Fraction(1, 4), Fraction(3, 2), Fraction(0), Fraction(1, 8)][(i // 3) % 4]
        mode = ("MAJOR", "MINOR")[(i // 5) % 2]
        ch = Chord(root, bass, tonic, KM[mode], CT[t], inv, (0, Fraction(0)), on, (1, Fraction(0)),
                   off, dur, PT[pt])
        for pad in (False, True):
            case = [pt, tonic, root, t, inv, pad, on, off, str(dur), mode]
            got = call(ch.to_vec, pad=pad)
            ri, bi = rel(root, tonic, pt, pad), rel(bass, tonic, pt, pad)
            c.state(pt, tonic, root, t, inv, pad)
            if ri is None or bi is None:
                c.raises(got, ValueError, "vector of a chord outside the relative range", case)
                continue
            want = chord_vec(pt, pad, ri, t, bi, inv, on, off, float(dur), mode == "MAJOR")
            c.equal(got if isinstance(got, Raised) else [float(x) for x in got], want,
                    "chord vector", case)
            if i % 3 == 0 or c.thorough:
                with core.quiet():
                    d = call(vd.decode_chord_vector, np.array(got), pad=pad,
                             pitch_type=None if i % 2 else PT[pt])
                low = T.roots(pt, True, pad)[0]
                c.equal(d if isinstance(d, Raised) else
                        (int(d.root), int(d.bass), d.key_tonic, d.key_mode, d.chord_type,
                         int(d.inversion), int(d.onset_level), int(d.offset_level), d.pitch_type),
                        (ri + low, bi + low, 0, KM[mode], CT[t], inv, on, off, PT[pt]),
                        "decoded chord vector", case)
            c.trace(case, (pt, pad, ri, t, inv))
        # relative to another key
        if i % 7 == 0 or c.thorough:
            for to_mode in ("MAJOR", "MINOR"):
                other = (tonic + i) % T.NUM[pt]
                key = Key(other, tonic, 3, KM[to_mode], KM[mode], KM[mode], PT[pt])
                got = call(ch.to_vec, relative_to=key, pad=True)
                ri, bi = rel(root, other, pt, True), rel(bass, other, pt, True)
                case = [pt, tonic, root, t, inv, "relative to", other, to_mode]
                if ri is None or bi is None:
                    c.raises(got, ValueError, "vector outside the relative range", case)
                    continue
                c.equal(got if isinstance(got, Raised) else [float(x) for x in got],
                        chord_vec(pt, True, ri, t, bi, inv, on, off, float(dur),
                                  to_mode == "MAJOR"), "chord vector relative to a key", case)
                c.trace(case)


def compose(pt, use_inv_present, red_present, relative, pad, red, use_inv):
    """Reference map old index -> new index (or None where the result is not a label)."""
    old = T.labels(pt, use_inv_present, relative, pad, red_present)
    new = {lab: i for i, lab in enumerate(T.labels(pt, use_inv, relative, pad, red))}
    return [new.get((r, red[t], i if use_inv else 0)) for r, t, i in old]


def onehots(c, job):
    import numpy as np
    from harmonic_inference.data import vector_decoding as vd

    PT, CT, KM = repo.enums()
    c.section("one-hot reduction")
    pt, relative, pad, redp_name, redp, red_name, red = job
    for invp, inv in core.product((True, False), (True, False)):
        want = compose(pt, invp, redp, relative, pad, red, inv)
        cfg = [pt, "rel" if relative else "abs", pad, redp_name, red_name, invp, inv]
        ok = [i for i, w in enumerate(want) if w is not None]
        kw = dict(inversions_present=invp, relative=relative, use_inversions=inv,
                  reduction_present=None if redp_name == "none" else repo.real_reduction(redp, CT),
                  reduction=None if red_name == "none" else repo.real_reduction(red, CT))
        # every label at once (twice, so duplicates occur), as a list and as an array
        src = ok + ok[::-1]
        for form, arg in (("list", list(src)), ("int array", np.array(src, dtype=int)),
                          ("float array", np.array(src, dtype=np.float16))):
            got = call(vd.reduce_chord_one_hots, arg, pad, PT[pt], **kw)
            c.equal(got if isinstance(got, Raised) else [int(x) for x in got],
                    [want[i] for i in src], "reduced chord labels %s %s" % (cfg, form), cfg)
            if form == "float array" and not isinstance(got, Raised):
                c.expect(got.dtype == arg.dtype, "reduced labels keep their dtype", cfg)
                c.equal([int(x) for x in arg], src, "input labels are left alone", cfg)
        # one at a time
        for i in (ok if c.thorough else ok[:: max(1, len(ok) // 12)]):
            got = call(vd.reduce_chord_one_hots, [i], pad, PT[pt], **kw)
            c.equal(got if isinstance(got, Raised) else [int(x) for x in got], [want[i]],
                    "reduced chord label %d %s" % (i, cfg), cfg + [i])
        for i in ok:
            c.state(*(tuple(map(str, cfg)) + (i,)))
            c.trace(cfg + [i, want[i]], (pt, relative, pad, want[i]))


def inplace(c, job):
    import numpy as np
    from harmonic_inference.data import vector_decoding as vd

    PT, CT, KM = repo.enums()
    c.section("in-place reductions")
    pt, pad, kpt = job
    for n in (npitch(pt, pad),):
        if n:
            klen = 0 if kpt is None else (15 if kpt == "MIDI" else 32)
            rows, meta = [], []
            for j, (root, t, inv, bass) in enumerate(chords(pt)):
                ri, bi = rel(root, C(pt), pt, pad), rel(bass, C(pt), pt, pad)
                if ri is None or bi is None:
                    continue
                key = [0.0] * klen
                if klen and j % 3 == 0:
                    key[j % (klen - 3)] = 1.0
                    key[klen - 2 - j % 2] = 1.0
                    key[klen - 1] = 1.0
                rows.append((ri, t, bi, inv, j % 4, (j // 4) % 4, 0.25 * (j % 5), j % 2, key))
                if j % 50 == 49:
                    rows.append(None)
            base = []
            for r in rows:
                base.append([0.0] * (2 * n + 26 + klen) if r is None else
                            chord_vec(pt, pad, *r[:8]) + r[8])
            for given in (True, False):
                kw = {"pitch_type": PT[pt]} if given else {}
                tensor = np.array(base, dtype=np.float16 if given else np.float64)
                r = call(vd.remove_chord_inversions, tensor, pad, **kw)
                want = [b if r is None else chord_vec(pt, pad, *(r[:3] + (0,) + r[4:8])) + r[8]
                        for r, b in zip(rows, base)]
                cfg = [pt, pad, kpt, given]
                c.expect(not isinstance(r, Raised), "remove inversions: %r" % (r,), cfg)
                c.equal(tensor.tolist(), want, "vectors without inversions %s" % cfg, cfg)
                for name, red in [("none", None)] + T.reductions(full=c.thorough):
                    tensor = np.array(base, dtype=np.float16 if given else np.float64)
                    r = call(vd.reduce_chord_types, tensor,
                             None if red is None else repo.real_reduction(red, CT), pad, **kw)
                    c.expect(not isinstance(r, Raised), "reduce types: %r" % (r,), cfg + [name])
                    m = T.identity() if red is None else red
                    want = [b if r is None else
                            chord_vec(pt, pad, *((r[0], m[r[1]]) + r[2:8])) + r[8]
                            for r, b in zip(rows, base)]
                    c.equal(tensor.tolist(), want, "vectors with reduced types %s" % (cfg + [name]),
                            cfg + [name])
                    c.state(*(cfg + [name]))
                    c.trace(cfg + [name], n=len(rows))


def chord_and_key(c, job):
    import numpy as np
    from harmonic_inference.data import vector_decoding as vd

    PT, CT, KM = repo.enums()
    c.section("chord and key change")
    for pt, kpt, pad in [job]:
        lows = T.roots(pt, True, pad)[0]
        some = list(chords(pt))[:: 41]
        for root, t, inv, bass in some:
            ri, bi = rel(root, C(pt), pt, pad), rel(bass, C(pt), pt, pad)
            if ri is None or bi is None:
                continue
            vec = chord_vec(pt, pad, ri, t, bi, inv, 3, 1, 0.5, True)
            ivs = list(range(12)) if kpt == "MIDI" else list(range(-14, 15))
            for iv, mode in [(None, None)] + list(core.product(ivs, KM)):
                key = key_vec(kpt, iv, mode) if mode else [0.0] * (14 if kpt == "MIDI" else 31)
                full = np.array(vec + key + [1.0 if mode else 0.0])
                for how in ("root", "tonic"):
                    kw = {"root_type": PT[pt]} if how == "root" else {"tonic_type": PT[kpt]}
                    with core.quiet():
                        got = call(vd.decode_chord_and_key_change_vector, full, pad=pad, **kw)
                    case = [pt, kpt, pad, root, t, inv, iv, mode, how]
                    if isinstance(got, Raised):
                        c.fail("decoding raised %r" % got, case)
                    ch, k = got
                    c.equal((int(ch.root), int(ch.bass), ch.chord_type, int(ch.inversion)),
                            (ri + lows, bi + lows, CT[t], inv), "decoded chord", case)
                    c.equal(None if k is None else (int(k.relative_tonic), k.relative_mode,
                                                    k.tonic_type),
                            None if mode is None else (iv, KM[mode], PT[kpt]), "decoded key", case)
                c.state(*case)
                c.trace(case)
                bad = np.array(vec + key + [0.0])
                if mode:
                    with core.quiet():
                        c.raises(call(vd.decode_chord_and_key_change_vector, bad, pad=pad,
                                      root_type=PT[pt]), ValueError, "unflagged key change", case)


def body(c):
    core.setup_imports()
    import numpy as np
    from harmonic_inference.data.chord import Chord, get_chord_vector_length
    from harmonic_inference.data.key import Key, get_key_change_vector_length
    from harmonic_inference.data import vector_decoding as vd

    PT, CT, KM = repo.enums()

    c.section("lengths")
    for pt, pad, relative in core.product(PT, (False, True), (False, True)):
        n = len(T.roots(pt, relative, pad))
        c.equal(call(get_chord_vector_length, PT[pt], one_hot=False, relative=relative, pad=pad),
                2 * n + 26, "chord vector length", [pt, pad, relative])
        for kpt in PT:
            k = 14 if kpt == "MIDI" else 31
            c.equal(call(get_key_change_vector_length, PT[kpt], one_hot=False), k,
                    "key change vector length", kpt)
            c.equal(call(get_key_change_vector_length, PT[kpt], one_hot=True), 2 * (k - 2),
                    "key change count", kpt)
            if relative:
                for extra in (0, k + 1):
                    c.equal(call(vd.infer_chord_vector_pitch_type, 2 * n + 26 + extra, pad), PT[pt],
                            "inferred pitch type", [pt, pad, kpt, extra])
        ch = Chord(20, 20, 20, KM["MAJOR"], CT["MAJOR"], 0, (0, 0), 1, (0, 1), 1, 1, PT[pt])
        for inv, (name, red) in core.product((False, True), T.reductions()):
            if pad and not relative:
                continue
            want = len(T.labels(pt, inv, relative, pad, red))
            kw = dict(one_hot=True, relative=relative, use_inversions=inv, pad=pad,
                      reduction=repo.real_reduction(red, CT))
            c.equal(call(lambda: int(get_chord_vector_length(PT[pt], **kw))), want,
                    "number of chord labels", [pt, pad, relative, inv, name])
            c.equal(call(lambda: int(ch.get_chord_vector_length(**kw))), want,
                    "number of chord labels, asked of a chord", [pt, pad, relative, inv, name])
            c.state(pt, pad, relative, inv, name)
        c.equal(call(ch.get_chord_vector_length, one_hot=False, relative=relative, pad=pad), 2 * n + 26,
                "chord vector length, asked of a chord", [pt, pad, relative])
        c.equal(call(lambda: int(ch.get_chord_vector_length())), len(T.labels(pt, True, True, False, T.identity())),
                "number of chord labels by default", pt)
        c.equal(call(lambda: int(get_chord_vector_length(PT[pt]))),
                len(T.labels(pt, True, True, False, T.identity())), "number of chord labels by default", pt)
        c.state(pt, pad, relative)
        c.trace([pt, pad, relative, n])

    c.section("annotations")
    for pt, pad in core.product(PT, (False, True)):
        n = npitch(pt, pad)
        for on, off, mode, dur in core.product(range(4), range(4), KM, (
                Fraction(0), Fraction(1, 16), Fraction(3, 8), 1, Fraction(2), 7.5)):
            for root, t, inv, bass in list(chords(pt))[5:: 97]:
                ch = Chord(root, bass, root, KM[mode], CT[t], inv, (0, 0), on, (0, 1), off, dur,
                           PT[pt])
                ri, bi = rel(root, root, pt, pad), rel(bass, root, pt, pad)
                case = [pt, pad, on, off, mode, str(dur), root, t, inv]
                got = call(ch.to_vec, pad=pad)
                c.equal(got if isinstance(got, Raised) else [float(x) for x in got],
                        chord_vec(pt, pad, ri, t, bi, inv, on, off, float(dur), mode == "MAJOR"),
                        "chord vector", case)
                c.state(*case)
                c.trace(case)

    c.section("type reduction while encoding")
    for name, red in T.reductions(full=c.thorough):
        real = repo.real_reduction(red, CT)
        for pt, pad in core.product(PT, (False, True)):
            for t in T.TYPES:
                for inv in range(T.n_members(t)):
                    root = 15 if pt == "TPC" else 0
                    bass = T.members(t, root, pt)[inv]
                    ch = Chord(root, bass, root, KM["MINOR"], CT[t], inv, (0, 0), 1, (0, 1), 2, 1,
                               PT[pt])
                    got = call(ch.to_vec, pad=pad, reduction=real)
                    c.equal(got if isinstance(got, Raised) else [float(x) for x in got],
                            chord_vec(pt, pad, rel(root, root, pt, pad), red[t],
                                      rel(bass, root, pt, pad), inv, 1, 2, 1.0, False),
                            "reduced chord vector", [name, pt, pad, t, inv])
                    c.expect(ch.chord_type == CT[t], "encoding leaves the chord alone", [name, t])
                    c.state(name, pt, pad, t, inv)
                    c.trace([name, pt, pad, t, inv])

    core.parallel(c, inplace, core.product(PT, (False, True), (None, "TPC", "MIDI")))
    core.parallel(c, chord_and_key, core.product(PT, PT, (False, True)))
    core.parallel(c, work, [(pt, t) for pt in PT for t in range(T.NUM[pt])])

    fam = [x for x in T.reductions() if c.thorough or x[0] in (
        "none", "triad", "one", "shift", "const-DIM7", "DIM7->HALF_DIM7")]
    jobs = []
    for pt in PT:
        for relative, pad in ((False, False), (True, False), (True, True)):
            for (an, a), (bn, b) in core.product(fam, fam):
                jobs.append((pt, relative, pad, an, a, bn, b))
    core.parallel(c, onehots, jobs)


def C(pt):
    return T.C0[pt]


def main():
    c = core.Check("C06", RULE, {
        "chords": "all roots x 12 types x all inversions x all tonics x {padded, unpadded}",
        "reductions": "6 x 6 (quick) or 19 x 19 (thorough) present/requested pairs x inversions",
        "tensors": "every chord vector in C, with and without TPC/MIDI key change vectors"})
    return core.run(c, body)
