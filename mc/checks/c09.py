"""C09 score time: range lengths, chord-relative rhythm and metrical levels."""
from fractions import Fraction as F

from mc import core
from mc.core import Raised, call

RULE = ("every ordered pair of grid positions on every measure layout (full, pickup, split, mixed "
        "metre, skipped volta, split last measure, a single part measure), every note x range; every time signature x grid beat; the reference "
        "places each position on one absolute time line")

LAYOUTS = {
    "full 4/4": [(0, "4/4", F(1), F(0)), (1, "4/4", F(1), F(0)), (2, "4/4", F(1), F(0))],
    "pickup": [(0, "3/4", F(1, 4), F(1, 2)), (1, "3/4", F(3, 4), F(0)), (2, "3/4", F(1, 2), F(0))],
    "split": [(0, "4/4", F(1), F(0)), (1, "4/4", F(3, 4), F(0)), (2, "4/4", F(1, 4), F(3, 4)),
              (3, "4/4", F(1), F(0))],
    "mixed": [(5, "6/8", F(3, 4), F(0)), (6, "2/4", F(1, 2), F(0)), (7, "3/8", F(3, 8), F(0)),
              (8, "2/2", F(1), F(0))],
    "volta": [(0, "2/4", F(1, 2), F(0)), (1, "2/4", F(3, 8), F(0)), (3, "2/4", F(1, 8), F(3, 8)),
              (6, "2/4", F(1, 2), F(0)), (7, "2/4", F(1, 2), F(0))],
    "split end": [(1, "3/4", F(1, 4), F(1, 2)), (2, "3/4", F(3, 4), F(0)), (3, "3/4", F(1, 4), F(0)),
                  (4, "3/4", F(1, 2), F(1, 4))],
    "single": [(3, "2/4", F(1, 4), F(1, 4))],
}


def frame(pd, layout, extra_rows=(), none=None):
    rows = list(layout)
    nxt = {a[0]: b[0] for a, b in zip(rows, rows[1:])}
    allrows = sorted(rows + list(extra_rows))
    return pd.DataFrame({
        "mc": [r[0] for r in allrows], "timesig": [r[1] for r in allrows],
        "act_dur": [r[2] for r in allrows], "mc_offset": [r[3] for r in allrows],
        "next": pd.Series([nxt.get(r[0], none) for r in allrows], dtype=object)})


def positions(layout, steps):
    at, out = F(0), []
    for mc, ts, dur, off in layout:
        for s in sorted({F(i, n) for n in steps for i in range(int(dur * n))}):
            out.append((at + s, (mc, off + s)))
        at += dur
    last = layout[-1]
    out.append((at, (last[0], last[3] + last[2])))    # the end of the piece
    return out


def w_ranges(c, job):
    import pandas as pd
    import harmonic_inference.utils.rhythmic_utils as ru

    name, part = job
    layout = LAYOUTS[name]
    extra = [(2, "2/4", F(9), F(0)), (4, "2/4", F(9), F(1, 8))] if name == "volta" else []
    df = frame(pd, layout, extra)
    pos = positions(layout, (16, 12) if c.thorough else (8, 12))
    c.section("range length")
    for i, (t1, p1) in enumerate(pos):
        if i % 4 != part:
            continue
        for t2, p2 in pos:
            got = call(ru.get_range_length, p1, p2, df)
            c.equal(got, t2 - t1, "length of %s..%s (%s)" % (p1, p2, name), [name, str(p1), str(p2)])
            c.state(name, str(p1), str(p2))
            c.trace([name, str(p1), str(p2), str(t2 - t1)], str(t2 - t1))
    c.section("proportion of range")
    sub = positions(layout, (4,) if not c.thorough else (8,))
    for i, (t1, p1) in enumerate(sub):
        for t2, p2 in sub[i + 1:]:
            for j, (tn, pn) in enumerate(sub):
                if j % 4 != part:
                    continue
                for dur in (F(0), F(1, 3), F(5, 4)):
                    note = pd.Series({"mc": pn[0], "mn_onset": pn[1], "duration": dur})
                    length = t2 - t1
                    want = ((tn - t1) / length, (tn - t1 + dur) / length, dur / length)
                    for given in ((None, length) if dur else (None,)):
                        got = call(ru.get_rhythmic_info_as_proportion_of_range, note, p1, p2, df,
                                   range_len=given)
                        case = [name, str(pn), str(dur), str(p1), str(p2), str(given)]
                        c.equal(tuple(got) if isinstance(got, tuple) else got, want,
                                "note in range %s" % case, case)
                    c.state(*case)
                    c.trace(case, str(want))


def body(c):
    core.setup_imports()
    import pandas as pd
    import harmonic_inference.utils.rhythmic_utils as ru

    c.section("metrical levels")
    for num in range(1, 25):
        for den in (1, 2, 4, 8, 16, 32):
            ts = "%d/%d" % (num, den)
            compound = num in (6, 9, 12, 15, 18, 21, 24)
            unit = F(1, den)
            beat = 3 * unit if compound else unit
            sub = unit if compound else unit / 2
            c.equal(call(ru.get_metrical_level_lengths, ts), (num * unit, beat, sub),
                    "levels of " + ts, ts)
            m = pd.Series({"timesig": ts, "mc": 0, "mc_offset": F(0), "act_dur": num * unit})
            grid = {k * sub / 3 for k in range(int(2 * num * unit / sub) * 3 + 1)} | {
                k * sub / 2 for k in range(int(num * unit / sub) * 2 + 1)}
            for b in sorted(grid):
                want = 0
                for lvl, length in ((3, num * unit), (2, beat), (1, sub)):
                    k = b / length
                    if k.denominator == 1:
                        want = lvl
                        break
                c.equal(call(ru.get_metrical_level, b, m), want, "level of %s in %s" % (b, ts),
                        [ts, str(b)])
                c.state(ts, str(b))
                c.trace([ts, str(b), want], (ts, want))
    core.parallel(c, w_ranges, [(n, p) for n in LAYOUTS for p in range(4)])


def main():
    c = core.Check("C09", RULE, {
        "layouts": list(LAYOUTS), "grid": "eighths and triplet eighths (quick), sixteenths (thorough)",
        "metres": "24 numerators x 6 denominators, beats up to two measures"})
    return core.run(c, body)
