"""C11 sounding notes: offsets across barlines and merging of tied notes."""
from fractions import Fraction as F

from mc import core, corpus
from mc.checks.c09 import LAYOUTS, positions
from mc.core import Raised, call

RULE = ("every note (grid onset x 10 durations) on every measure layout; every line of up to 4 (quick) / "
        "5 (thorough) notes of one pitch with every tie marking and gap pattern, alone, doubled at "
        "another pitch, voice or file, with grace notes in between; every pairing of two simultaneous "
        "unisons; the reference walks the score")

DURS = [F(0), F(1, 32), F(1, 8), F(1, 4), F(1, 3), F(1, 2), F(3, 4), F(1), F(3, 2), F(13, 4)]


def w_offsets(c, job):
    import pandas as pd
    import harmonic_inference.utils.corpus_utils as cu

    names, tuples, dense = job
    c.section("offsets")
    layouts = [LAYOUTS[n] for n in names]
    rows = []
    for lay in layouts:
        pos = [p for _, p in positions(lay, (16, 24) if dense else (8, 12))][:-1]
        rows.append([{"mc": mc, "mn_onset": b, "duration": d, "tag": i}
                     for i, ((mc, b), d) in enumerate(core.product(pos, DURS))])
    ids = [3 * i + 1 for i in range(len(layouts))]
    mdf = corpus.measures_df(pd, [corpus.unchain(corpus.chain(lay)) if tuples else corpus.chain(lay)
                                  for lay in layouts], ids, tuples)
    ndf = corpus.rows_df(pd, rows, "note_id", ids)
    got = call(cu.add_note_offsets, ndf, mdf)
    c.expect(not isinstance(got, Raised), "adding offsets raised %r" % (got,), names)
    want = [(r["tag"],) + corpus.walk(lay, r["mc"], r["mn_onset"], r["duration"])
            for lay, rs in zip(layouts, rows) for r in rs]
    res = [(t, int(m), b) for t, m, b in zip(got["tag"], got["offset_mc"], got["offset_beat"])]
    flat = [(n, r) for n, rs in zip(names, rows) for r in rs]
    c.equal(len(res), len(want), "number of notes", names)
    for (n, r), g, w in zip(flat, res, want):
        case = [n, tuples, r["mc"], str(r["mn_onset"]), str(r["duration"])]
        c.equal(g, w, "note offset %s" % case, case)
        c.state(*case)
        c.trace(case + [str(w)], str(w[1:]))
    c.expect("offset_mc" not in ndf.columns, "the given notes are left alone", names)


# ---- ties ----------------------------------------------------------------------------------------
def pos(t):
    """Quarter-note grid over 2/4 measures."""
    return t // 2, F(t % 2, 4)


def note(t, dur, tied, midi=60, staff=1, voice=1, grace=None, tag=0):
    (mc, b), (omc, ob) = pos(t), pos(t + dur)
    return {"mc": mc, "mn_onset": b, "mc_onset": b, "duration": F(dur, 4), "midi": midi,
            "staff": staff, "voice": voice, "gracenote": grace, "tied": tied, "offset_mc": omc,
            "offset_beat": ob, "tpc": 0, "tag": tag}


def ref_line(notes):
    """Merge one unambiguous line (list of (t, dur, tied) in time order); -> {index: (dur, tied)}."""
    taken, out = set(), {}

    def follow(i, tied):
        t, d, _ = notes[i]
        end, total = t + d, d
        while tied is not None:
            nxt = [j for j, (tj, dj, xj) in enumerate(notes)
                   if tj == end and xj in (0, -1) and j not in taken and j != i]
            if not nxt:
                break
            j = nxt[0]
            taken.add(j)
            end += notes[j][1]
            total += notes[j][1]
            if notes[j][2] == -1:
                tied = None if tied == 1 else -1
                break
        out[i] = (total, tied)

    for i, (t, d, x) in enumerate(notes):
        if x == 1:
            follow(i, 1)
    for i, (t, d, x) in enumerate(notes):
        if x == 0 and i not in taken:
            follow(i, 0)
    for i, (t, d, x) in enumerate(notes):
        if x in (None, -1) and i not in taken:
            out[i] = (d, x)
    return {i: v for i, v in out.items() if i not in taken}


def lines(n):
    """Every line of exactly n notes: gap before each, duration, tie marking."""
    for gaps in core.product((0, 1), repeat=n - 1):
        for ties in core.product((None, 1, 0, -1), repeat=n):
            t, out = 0, []
            for i, x in enumerate(ties):
                if i:
                    t += gaps[i - 1]
                d = 1 + (i == 1)
                out.append((t, d, x))
                t += d
            yield out


def run_ties(c, pieces, wants, what, cases):
    """wants: per piece {row index: (mc, onset, dur, offset_mc, offset_beat, tied, tag)}."""
    import pandas as pd
    import harmonic_inference.utils.corpus_utils as cu

    ids = [2 * i + 3 for i in range(len(pieces))]
    df = corpus.rows_df(pd, pieces, "note_id", ids,
                        ("mc", "midi", "staff", "voice", "tied", "offset_mc", "tpc"))
    before = df.copy()
    got = call(cu.merge_ties, df)
    c.expect(not isinstance(got, Raised), "merging ties raised %r" % (got,), what)
    res = {}
    for (f, i), r in zip(got.index, got.to_dict("records")):
        if i in res.setdefault(f, {}):
            c.fail("note %d of piece %d appears twice" % (i, f), cases[ids.index(f)])
        res[f][i] = (int(r["mc"]), r["mn_onset"], r["duration"], int(r["offset_mc"]),
                     r["offset_beat"], None if pd.isna(r["tied"]) else int(r["tied"]), r["tag"],
                     int(r["midi"]))
    order = [x for x in got.index]
    c.expect(order == sorted(order), "merged notes keep their order", what)
    for f, want, case in zip(ids, wants, cases):
        c.equal(res.get(f, {}), want, "%s" % what, case)
        c.state(what, case)
        c.trace([what, case, {k: str(v) for k, v in want.items()}], repr(sorted(want)))
    c.expect(df.equals(before), "the given notes are left alone", what)


def expect_rows(rows, merged):
    out = {}
    for i, (total, tied) in merged.items():
        r = rows[i]
        t0 = r["mc"] * 2 + int(r["mn_onset"] * 4)
        omc, ob = pos(t0 + total)
        out[i] = (r["mc"], r["mn_onset"], F(total, 4), omc, ob, tied, r["tag"], r["midi"])
    return out


def w_lines(c, job):
    n, part, parts = job
    c.section("tie lines")
    sel = [l for i, l in enumerate(lines(n)) if i % parts == part]
    # alone
    pieces, wants, cases = [], [], []
    for k, line in enumerate(sel):
        rows = [note(t, d, x, tag=100 * k + i) for i, (t, d, x) in enumerate(line)]
        pieces.append(rows)
        wants.append(expect_rows(rows, ref_line(line)))
        cases.append(line)
    run_ties(c, pieces, wants, "a line of ties", cases)
    # together with: another line at another pitch, and grace notes of the same pitch everywhere
    pieces, wants, cases = [], [], []
    other = sel[1:] + sel[:1]
    for k, (a, b) in enumerate(zip(sel, other)):
        rows, tags = [], []
        for i, (t, d, x) in enumerate(a):
            rows.append((t, 0, note(t, d, x, tag=i)))
        for i, (t, d, x) in enumerate(b):
            rows.append((t, 1, note(t, d, x, midi=64, tag=10 + i)))
        for i, (t, d, x) in enumerate(a):
            rows.append((t, 2, note(t, 0, (None, 1, 0, -1)[(k + i) % 4], grace="grace4", tag=20 + i)))
        rows = [r for _, _, r in sorted(rows, key=lambda z: z[:2])]
        want = {}
        for line, base in ((a, 0), (b, 10)):
            for i, v in ref_line(line).items():
                j = [q for q, r in enumerate(rows) if r["tag"] == base + i][0]
                want.update(expect_rows(rows, {j: v}))
        for q, r in enumerate(rows):
            if r["gracenote"]:
                want[q] = (r["mc"], r["mn_onset"], r["duration"], r["offset_mc"], r["offset_beat"],
                           r["tied"], r["tag"], r["midi"])
        pieces.append(rows)
        wants.append(want)
        cases.append([a, b])
    run_ties(c, pieces, wants, "two lines and grace notes", cases)


def w_unison(c, job):
    """Two unisons tied across the same moment: staff and voice decide."""
    c.section("unison ties")
    pieces, wants, cases = [], [], []
    sv = [(1, 1), (1, 2), (2, 1), (2, 2)]
    for a, b in core.product(sv, sv):
        if a == b:
            continue
        for d1, d2 in ((1, 1), (2, 2)):
            for ends in ((-1, -1), (0, 0), (-1, 0)):
                for swap_in in (False, True):
                    ins = [(a, ends[0], 1), (b, ends[1], 3)]
                    if swap_in:
                        ins = ins[::-1]
                    rows = [note(0, d1, 1, staff=a[0], voice=a[1], tag="a"),
                            note(0, d2, 1, staff=b[0], voice=b[1], tag="b")]
                    rows += [note(d1, d, x, staff=s[0], voice=s[1], tag="i") for s, x, d in ins]
                    want = {}
                    for i, (s, x, d) in enumerate(((a, ends[0], 1), (b, ends[1], 3))):
                        want.update(expect_rows(rows, {i: (d1 + d, None if x == -1 else 1)}))
                    pieces.append(rows)
                    wants.append(want)
                    cases.append([a, b, d1, ends, swap_in])
    run_ties(c, pieces, wants, "unisons in two voices", cases)
    # voices cannot decide: two starts, one continuation (or the reverse); sound is conserved
    import pandas as pd
    import harmonic_inference.utils.corpus_utils as cu
    pieces, cases = [], []
    for outs, ins in core.product(core.product(sv, repeat=2), repeat=2):
        for no, ni in ((2, 2), (2, 1), (1, 2)):
            rows = [note(0, 1, 1, staff=s[0], voice=s[1], tag="o") for s in outs[:no]]
            rows += [note(1, 1, -1, staff=s[0], voice=s[1], tag="i") for s in ins[:ni]]
            pieces.append(rows)
            cases.append([outs[:no], ins[:ni]])
    df = corpus.rows_df(pd, pieces, "note_id", None,
                        ("mc", "midi", "staff", "voice", "tied", "offset_mc", "tpc"))
    got = call(cu.merge_ties, df)
    c.expect(not isinstance(got, Raised), "merging ambiguous ties raised %r" % (got,), None)
    recs = got.reset_index().to_dict("records")
    by = {}
    for r in recs:
        by.setdefault(r["file_id"], []).append(r)
    for f, (rows, case) in enumerate(zip(pieces, cases)):
        rs = by[f]
        n_out = sum(r["tied"] == 1 for r in rows)
        n_in = len(rows) - n_out
        m = min(n_out, n_in)
        c.equal(len(rs), len(rows) - m, "notes left after ambiguous ties", case)
        c.equal(sum((r["duration"] for r in rs), F(0)), sum((r["duration"] for r in rows), F(0)),
                "total sounding time after ambiguous ties", case)
        c.equal(sorted([None if pd.isna(r["tied"]) else int(r["tied"]) for r in rs], key=repr),
                sorted([None] * m + [1] * (n_out - m) + [-1] * (n_in - m), key=repr),
                "tie state after ambiguous ties", case)
        for r in rs:
            start = int(r["mc"]) * 2 + int(r["mn_onset"] * 4)
            c.equal((int(r["offset_mc"]), r["offset_beat"]), pos(start + int(r["duration"] * 4)),
                    "merged note ends where its duration says", case)
        c.state("ambiguous", case)
        c.trace(["ambiguous", case, len(rs)])


def dispatch(c, job):
    {"o": w_offsets, "l": w_lines, "u": w_unison}[job[0]](c, job[1])


def body(c):
    core.setup_imports()
    import harmonic_inference.utils.corpus_utils  # noqa: F401

    names = list(LAYOUTS)
    jobs = [("o", ([n], t, c.thorough)) for n in names for t in (False, True)]
    jobs += [("o", (names, t, c.thorough)) for t in (False, True)]
    jobs += [("l", (n, p, k)) for n, k in ((1, 1), (2, 1), (3, 2), (4, 8)) for p in range(k)]
    if c.thorough:
        jobs += [("l", (5, p, 64)) for p in range(64)]
    jobs += [("u", None)]
    core.parallel(c, dispatch, jobs)


def main():
    c = core.Check("C11", RULE, {"layouts": list(LAYOUTS), "durations": [str(d) for d in DURS],
                                 "ties": "<= 4 (quick) / 5 (thorough) notes per line, 4 markings, gaps"})
    return core.run(c, body)
