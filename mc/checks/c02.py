"""C02 chord labels: indices, names and counts describe the same set of chords."""
from mc import core, repo, theory as T
from mc.core import call

RULE = ("every chord label index of every configuration (pitch type x inversions x absolute/relative/"
        "padded x reduction family), decoded, named, counted and re-encoded; every root/inversion "
        "just outside the range must be rejected")


def name_of(root, t, inv, pt, relative, relative_to, use_inv):
    if not relative:
        r = T.pname(root, pt)
    elif relative_to is None:
        r = str(root)
    else:
        p = T.transpose(root, relative_to, pt)
        r = str(root) if p is None else T.pname(p, pt)
    return "%s:%s%s" % (r, T.TYPE_STR[t], ", inv:%d" % inv if use_inv else "")


def body(c):
    core.setup_imports()
    import harmonic_inference.utils.harmonic_utils as hu
    from harmonic_inference.data.chord import Chord, get_chord_vector_length

    PT, CT, KM = repo.enums()
    c.expect(sorted(CT) == sorted(T.TYPES), "the set of chord types changed", sorted(CT))
    fam = T.reductions(full=c.thorough)
    for redname, red in fam + [("default", None)]:
        real = None if red is None else repo.real_reduction(red, CT)
        ref = T.identity() if red is None else red
        deep = redname in ("default", "none", "triad", "one", "shift")
        for pt in PT:
            for use_inv in (True, False):
                for relative, pad in ((False, False), (False, True), (True, False), (True, True)):
                    cfg = [pt, "inv" if use_inv else "noinv", "rel" if relative else "abs",
                           "pad" if pad else "nopad", redname]
                    c.section("-".join(cfg[:4]))
                    want = T.labels(pt, use_inv, relative, pad, ref)
                    kw = dict(relative=relative, pad=pad, reduction=real)
                    got = call(hu.get_chord_from_one_hot_index, slice(None, None), PT[pt],
                               use_inversions=use_inv, **kw)
                    got_n = got if isinstance(got, core.Raised) else [
                        (int(r), t.name, int(i)) for r, t, i in got]
                    c.equal(got_n, want, "all chord labels %s" % cfg, cfg)
                    n = len(want)
                    c.equal(call(get_chord_vector_length, PT[pt], one_hot=True,
                                 relative=relative, use_inversions=use_inv, pad=pad,
                                 reduction=real), n, "number of chord labels %s" % cfg, cfg)
                    names = call(hu.get_chord_label_list, PT[pt], use_inversions=use_inv, **kw)
                    c.equal(names, [name_of(r, t, i, pt, relative, None, use_inv)
                                    for r, t, i in want], "chord names %s" % cfg, cfg)
                    if relative and deep:
                        for to in range(T.NUM[pt]):
                            c.equal(call(hu.get_chord_label_list, PT[pt], use_inversions=use_inv,
                                         relative_to=to, **kw),
                                    [name_of(r, t, i, pt, True, to, use_inv) for r, t, i in want],
                                    "chord names relative to %d %s" % (to, cfg), cfg + [to])
                    low = T.roots(pt, relative, pad)[0]
                    for idx, (r, t, i) in enumerate(want):
                        c.state(tuple(cfg), idx)
                        if deep:
                            g = call(hu.get_chord_from_one_hot_index, idx, PT[pt],
                                     use_inversions=use_inv, **kw)
                            g = g if isinstance(g, core.Raised) else (int(g[0]), g[1].name, int(g[2]))
                            c.equal(g, (r, t, i), "chord label %d %s" % (idx, cfg), cfg + [idx])
                        # every unreduced type that maps to t must give this index
                        for src in T.TYPES:
                            if ref[src] != t:
                                continue
                            for inv in ([i] if use_inv else [0, 2]):
                                g = call(hu.get_chord_one_hot_index, CT[src], r - low, PT[pt],
                                         inversion=inv, use_inversion=use_inv, **kw)
                                c.equal(g if isinstance(g, core.Raised) else int(g), idx,
                                        "index of %s %s" % ((r, src, inv), cfg),
                                        cfg + [r, src, inv])
                        c.trace(cfg + [idx, r, t, i], (pt, relative, pad, r, t, i))
                    # out of range
                    nroots = len(T.roots(pt, relative, pad))
                    for bad in (-1, -2, nroots, nroots + 1):
                        c.raises(call(hu.get_chord_one_hot_index, CT["MAJOR"], bad, PT[pt],
                                      inversion=0, use_inversion=use_inv, **kw), ValueError,
                                 "root %d out of range %s" % (bad, cfg), cfg + [bad])
                    if use_inv:
                        for src in T.TYPES:
                            for bad in (-1, T.n_members(ref[src]), 4, 5):
                                if 0 <= bad < T.n_members(ref[src]):
                                    continue
                                c.raises(call(hu.get_chord_one_hot_index, CT[src], 0, PT[pt],
                                              inversion=bad, use_inversion=True, **kw), ValueError,
                                         "inversion %d of %s out of range %s" % (bad, src, cfg),
                                         cfg + [src, bad])
    # chords themselves
    c.section("chord objects")
    for pt in PT:
        for root in range(T.NUM[pt]):
            for tonic in range(T.NUM[pt]):
                for t in (T.TYPES if c.thorough else ["MAJOR", "HALF_DIM7", "AUG_MIN7"]):
                    for inv in range(T.n_members(t)):
                        if not c.thorough and (root + tonic + inv) % 3 and pt == "TPC":
                            continue
                        ch = Chord(root, 0, tonic, KM["MAJOR"], CT[t], inv, None, 0, None, 0, 1,
                                   PT[pt])
                        for rel, pad, use_inv in core.product((False, True), (False, True),
                                                              (False, True)):
                            got = call(ch.get_one_hot_index, relative=rel, use_inversion=use_inv,
                                       pad=pad)
                            r = root
                            if rel:
                                r = (root - tonic) % 12 if pt == "MIDI" else root - tonic
                            rts = T.roots(pt, rel, pad)
                            case = [pt, root, tonic, t, inv, rel, pad, use_inv]
                            if r not in rts:
                                c.raises(got, ValueError, "chord index %s" % case, case)
                                continue
                            want = 0
                            for k in T.TYPES:
                                m = T.n_members(k) if use_inv else 1
                                if k == t:
                                    want += m * rts.index(r) + (inv if use_inv else 0)
                                    break
                                want += m * len(rts)
                            c.equal(got if isinstance(got, core.Raised) else int(got), want,
                                    "chord index %s" % case, case)
                        c.trace([pt, root, tonic, t, inv])
                        c.state(pt, root, tonic, t, inv)


def main():
    c = core.Check("C02", RULE, {"reductions": "19 maps (quick), all 132 single merges + 15 (thorough)",
                                 "configurations": "2 pitch types x 2 inversion modes x 4 ranges"})
    return core.run(c, body)
