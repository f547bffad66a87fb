"""C12 chord spans: each chord lasts until the next chord, the last one until the end of the piece."""
from fractions import Fraction as F
from itertools import combinations, combinations_with_replacement

from mc import core, corpus
from mc.checks.c09 import LAYOUTS, positions
from mc.core import Raised, call

RULE = ("every sequence of up to 3 (quick) / 4 (thorough) chord onsets on the grid of every measure "
        "layout, each as one piece of a corpus, a selection also alone; reference: absolute score time")


def expected(layout, onsets):
    out = []
    last = layout[-1]
    for a, b in zip(onsets, onsets[1:] + [None]):
        if b is None:
            nxt = (last[0], last[3] + last[2])
            dur = corpus.end(layout) - corpus.at(layout, *a)
        else:
            nxt = b
            dur = corpus.at(layout, *b) - corpus.at(layout, *a)
        out.append((a, nxt, dur))
    return out


def compare(c, layout, cases, tuples, what):
    import pandas as pd
    import harmonic_inference.utils.corpus_utils as cu

    ms = corpus.chain(layout)
    mdf = corpus.measures_df(pd, [corpus.unchain(ms) if tuples else ms for _ in cases],
                             tuples=tuples)
    ts = {m[0]: m[1] for m in layout}
    rows = [[{"mc": mc, "mn_onset": b, "timesig": ts[mc], "tag": "%d" % j}
             for j, (mc, b) in enumerate(ons)] for ons in cases]
    df = corpus.rows_df(pd, rows, "chord_id")
    before = df.copy()
    got = call(cu.add_chord_metrical_data, df, mdf)
    c.expect(not isinstance(got, Raised), "chord spans raised %r" % (got,), [what, cases[:2]])
    recs = {}
    for (f, j), mc, b, mn, bn, d, t in zip(got.index, got["mc"], got["mn_onset"], got["mc_next"],
                                           got["mn_onset_next"], got["duration"], got["tag"]):
        recs.setdefault(f, []).append(
            ((int(mc), b), (None if pd.isna(mn) else int(mn), bn), d))
    for f, ons in enumerate(cases):
        case = [what, [str(o) for o in ons]]
        c.equal(recs.get(f), expected(layout, ons), "chord spans %s" % case, case)
        c.state(what, tuples, str(ons))
        c.trace(case + [str(recs.get(f))], str([x[2] for x in recs.get(f)]))
    c.expect(df.equals(before), "the given chords are left alone", what)


def work(c, job):
    name, k, mode, part, parts = job
    layout = LAYOUTS[name]
    grid = [p for _, p in positions(layout, (8,) if k < 3 else (4,))][:-1]
    if name == "mixed" and k >= 3:
        grid = grid[::2]
    combos = combinations if mode != "ties" else combinations_with_replacement
    cases = [list(x) for x in combos(grid, k)][part::parts]
    c.section(mode)
    if mode == "alone":
        for ons in cases:
            compare(c, layout, [ons], False, name + " alone")
    elif cases:
        compare(c, layout, cases, mode == "repeats", name)


def mixed(c, job):
    """Pieces of different layouts in one corpus."""
    import pandas as pd
    import harmonic_inference.utils.corpus_utils as cu

    c.section("mixed corpus")
    names = list(LAYOUTS)
    rot = names[job:] + names[:job]
    lays = [LAYOUTS[n] for n in rot]
    mdf = corpus.measures_df(pd, [corpus.chain(x) for x in lays], tuples=False)
    sets = [[p for _, p in positions(x, (4,))][:-1] for x in lays]
    cases = [s[job % 3:: 2] for s in sets]
    df = corpus.rows_df(pd, [[{"mc": m, "mn_onset": b, "timesig": "4/4"} for m, b in s]
                             for s in cases], "chord_id")
    got = call(cu.add_chord_metrical_data, df, mdf)
    c.expect(not isinstance(got, Raised), "chord spans raised %r" % (got,), rot)
    res = [((int(a), b), (int(m), n), d) for a, b, m, n, d in zip(
        got["mc"], got["mn_onset"], got["mc_next"], got["mn_onset_next"], got["duration"])]
    want = [x for lay, s in zip(lays, cases) for x in expected(lay, s)]
    c.equal(res, want, "chord spans in a mixed corpus", rot)
    c.state(job)
    c.trace([rot, len(res)], job)


def dispatch(c, job):
    (mixed if isinstance(job, int) else work)(c, job)


def body(c):
    core.setup_imports()
    import harmonic_inference.utils.corpus_utils  # noqa: F401

    jobs = list(range(len(LAYOUTS)))
    for n in LAYOUTS:
        jobs += [(n, k, "corpus", p, q) for k, q in ((1, 1), (2, 1), (3, 2)) for p in range(q)]
        jobs += [(n, k, "repeats", 0, 9) for k in (1, 2)]
        jobs += [(n, 2, "ties", 0, 1), (n, 1, "alone", 0, 4), (n, 2, "alone", 1, 40)]
        if c.thorough:
            jobs += [(n, 4, "corpus", p, 16) for p in range(16)]
            jobs += [(n, 2, "alone", p, 8) for p in range(8)]
    core.parallel(c, dispatch, jobs)


def main():
    c = core.Check("C12", RULE, {"layouts": list(LAYOUTS), "chords": "<= 3 (quick) / 4 (thorough)"})
    return core.run(c, body)
