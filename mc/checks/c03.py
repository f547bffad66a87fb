"""C03 key labels and key changes."""
from mc import core, repo, theory as T
from mc.core import call

RULE = ("every key label (pitch type x absolute/relative), every ordered pair of keys; reference: "
        "mode-major label order, interval arithmetic on the line of fifths / semitone circle")


def body(c):
    core.setup_imports()
    import harmonic_inference.utils.harmonic_utils as hu
    from harmonic_inference.data.key import Key, get_key_change_vector_length

    PT, CT, KM = repo.enums()
    c.section("labels")
    for pt in PT:
        for relative in (False, True):
            want = T.key_labels(pt, relative)
            got = call(hu.get_key_from_one_hot_index, slice(None, None), PT[pt], relative=relative)
            got = got if isinstance(got, core.Raised) else [(int(t), m.name) for t, m in got]
            c.equal(got, want, "key labels %s rel=%s" % (pt, relative), [pt, relative])
            for to in [None] + (list(range(T.NUM[pt])) if relative else []):
                names = call(hu.get_key_label_list, PT[pt], relative=relative, relative_to=to)
                exp = []
                for t, m in want:
                    if not relative:
                        n = T.pname(t, pt)
                    elif to is None:
                        n = str(t)
                    else:
                        p = T.transpose(t, to, pt)
                        n = str(t) if p is None else T.pname(p, pt)
                    exp.append("%s:%s" % (n.lower() if m == "MINOR" else n, KM[m]))
                c.equal(names, exp, "key names %s rel=%s to=%s" % (pt, relative, to),
                        [pt, relative, to])
            for i, (t, m) in enumerate(want):
                g = call(hu.get_key_from_one_hot_index, i, PT[pt], relative=relative)
                c.equal(g if isinstance(g, core.Raised) else (int(g[0]), g[1].name), (t, m),
                        "key label %d" % i, [pt, relative, i])
                if not relative:
                    g = call(hu.get_key_one_hot_index, KM[m], t, PT[pt])
                    c.equal(g if isinstance(g, core.Raised) else int(g), i,
                            "key index %s" % ((t, m),), [pt, t, m])
                c.state(pt, relative, i)
                c.trace([pt, relative, i, t, m], (pt, relative, t, m))
        for m in KM:
            for bad in (-3, -1, T.NUM[pt], T.NUM[pt] + 4):
                c.raises(call(hu.get_key_one_hot_index, KM[m], bad, PT[pt]), ValueError,
                         "tonic %d out of range (%s)" % (bad, pt), [pt, bad])
        n = 12 if pt == "MIDI" else T.REL_MAX - T.REL_MIN
        c.equal(call(get_key_change_vector_length, PT[pt], one_hot=True), 2 * n, "key change count",
                pt)
        c.equal(call(get_key_change_vector_length, PT[pt], one_hot=False), n + 2,
                "key change vector length", pt)
        c.equal(call(get_key_change_vector_length, PT[pt]), 2 * n, "key change count by default", pt)
        k = Key(1, 1, 2, KM["MAJOR"], KM["MINOR"], KM["MAJOR"], PT[pt])
        c.equal([call(k.get_key_change_vector_length, *a) for a in ((), (True,), (False,))],
                [2 * n, 2 * n, n + 2], "key change lengths, asked of a key", pt)

    c.section("key changes")
    for pt in PT:
        n = 12 if pt == "MIDI" else T.REL_MAX - T.REL_MIN
        rel_labels = T.key_labels(pt, True)
        for t1, m1, t2, m2 in core.product(range(T.NUM[pt]), KM, range(T.NUM[pt]), KM):
            # local and global fields deliberately differ from the applied (relative) ones
            k1 = Key(t1, 1, 2, KM[m1], KM["MINOR"], KM["MAJOR"], PT[pt])
            k2 = Key(t2, 3, 4, KM[m2], KM["MAJOR"], KM["MINOR"], PT[pt])
            case = [pt, t1, m1, t2, m2]
            c.state(*case)
            iv = (t2 - t1) % 12 if pt == "MIDI" else t2 - t1
            slot = iv if pt == "MIDI" else iv - T.REL_MIN
            ok = 0 <= slot < n
            got = call(k1.get_key_change_one_hot_index, k2)
            if ok:
                c.equal(got if isinstance(got, core.Raised) else int(got),
                        rel_labels.index((iv, m2)), "key change index %s" % case, case)
            else:
                c.raises(got, ValueError, "key change index %s" % case, case)
            vec = call(k1.get_key_change_vector, k2)
            exp = [0.0] * (n + 2)
            if ok:
                exp[slot] = 1.0
            exp[n + (m2 == "MINOR")] = 1.0
            c.equal(vec if isinstance(vec, core.Raised) else [float(x) for x in vec], exp,
                    "key change vector %s" % case, case)
            g = call(k1.get_one_hot_index)
            c.equal(g if isinstance(g, core.Raised) else int(g),
                    T.NUM[pt] * (m1 == "MINOR") + t1, "key index %s" % case, case)
            c.equal(call(k1.equals, k2), t1 == t2 and m1 == m2, "key equality %s" % case, case)
            c.trace(case + [slot if ok else None], (pt, slot if ok else None, m2))
    c.section("equality")
    vals = [(0, "MAJOR"), (0, "MINOR"), (1, "MAJOR")]
    for r1, l1, g1, r2, l2, g2 in core.product(vals, repeat=6):
        for p1, p2 in core.product(PT, PT):
            k1 = Key(r1[0], l1[0], g1[0], KM[r1[1]], KM[l1[1]], KM[g1[1]], PT[p1])
            k2 = Key(r2[0], l2[0], g2[0], KM[r2[1]], KM[l2[1]], KM[g2[1]], PT[p2])
            case = [r1, l1, g1, p1, r2, l2, g2, p2]
            c.equal(call(k1.is_repeated, k2, use_relative=True), r1 == r2 and p1 == p2,
                    "same applied key %s" % case, case)
            c.equal(call(k1.is_repeated, k2, use_relative=False), l1 == l2 and p1 == p2,
                    "same local key %s" % case, case)
            c.equal(call(lambda: k1 == k2), (r1, l1, g1, p1) == (r2, l2, g2, p2),
                    "key identity %s" % case, case)
            c.state(*case)
            c.trace(case)
    c.section("pitch type")
    for t in range(35):
        for m in KM:
            for which in range(3):
                f = [15, 17, 20]
                f[which] = t
                k = Key(f[0], f[1], f[2], KM[m], KM["MAJOR"], KM["MINOR"], PT["TPC"])
                g = call(k.to_pitch_type, PT["MIDI"])
                w = Key(*[T.tpc_to_midi(x) for x in f], KM[m], KM["MAJOR"], KM["MINOR"], PT["MIDI"])
                c.equal(g, w, "key to MIDI %s" % [t, m, which], [t, m, which])
                c.equal(call(k.to_pitch_type, PT["TPC"]), k, "key to its own type", [t, m, which])
                back = call(g.to_pitch_type, PT["TPC"])
                c.equal(call(back.to_pitch_type, PT["MIDI"]), g, "MIDI key through TPC",
                        [t, m, which])
                c.state(t, m, which)
                c.trace([t, m, which])


def main():
    c = core.Check("C03", RULE, {"keys": "70 TPC, 24 MIDI; all ordered pairs"})
    return core.run(c, body)
