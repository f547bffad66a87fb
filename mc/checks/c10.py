"""C10 removing repeats: the score that remains is one pass through the piece."""
from fractions import Fraction as F

from mc import core, corpus
from mc.core import Raised, call

RULE = ("every repeat structure (set of possible next measures per measure, forward continuation "
        "present) of up to 4 (thorough 5) measures and every one built from ordinary repeat signs "
        "of up to 6 (7) measures, each as one piece of a corpus and the small ones also as a corpus on "
        "their own; the reference walks from the first measure, always "
        "taking the furthest continuation")


def options(i, n):
    """Possible next tuples of measure i of n (the furthest one lies ahead, or the piece ends)."""
    out = []
    ahead = list(range(i + 1, n))
    for far in ahead:
        out.append((far,))
        for back in range(0, far):
            if back <= i or back in ahead:
                out.append((back, far))
                if back != i:
                    out.append((far, back))
        if far - i >= 2:
            out.append((0, i + 1, far))
    if i == n - 1:
        out += [(), (-1,), (0, -1), (i, -1), (-1, 0), (0,), (i,), (n,)]
    elif i >= 1:
        out += [(-1,), (0, -1), (-1, i + 1)]
    return out


def small_options(i, n):
    """The repeat signs of ordinary scores: on, repeat, skip, first/second ending, stop."""
    if i == n - 1:
        return [(), (-1,), (0, -1)]
    out = [(i + 1,), (0, i + 1)]
    if i + 2 < n:
        out += [(i + 2,), (i + 1, i + 2)]
    if i:
        out.append((-1,))
    return out


def structures(n, small):
    """Every choice of one option per measure."""
    for pick in core.product(*[(small_options if small else options)(i, n) for i in range(n)]):
        yield list(pick)


def reference(nexts, base):
    """[(mc, next or None)] of the one remaining pass."""
    out, i, n = [], 0, len(nexts)
    while True:
        opt = nexts[i]
        if not opt or -1 in opt or i == n - 1:
            out.append((base + i, None))
            return out
        j = max(opt)
        out.append((base + i, base + j))
        i = j


def piece(nexts, base):
    return [(base + i, "4/4", F(1), F(0), tuple(x if x == -1 else x + base for x in nx))
            for i, nx in enumerate(nexts)]


def compare(c, cases, bases, ids, tag):
    import pandas as pd
    import harmonic_inference.utils.corpus_utils as cu

    df = corpus.measures_df(pd, [piece(n, b) for n, b in zip(cases, bases)], ids)
    before = df.copy()
    got = call(cu.remove_repeats, df)
    c.expect(not isinstance(got, Raised), "removing repeats raised %r" % (got,), [tag, cases[:3]])
    res = {}
    for (fid, mid), mc, nxt in zip(got.index, got["mc"], got["next"]):
        res.setdefault(fid, []).append((int(mc), None if pd.isna(nxt) else int(nxt)))
    for nexts, base, fid in zip(cases, bases, ids):
        want = reference(nexts, base)
        c.equal(res.get(fid, []), want, "measures after removing repeats (%s)" % tag,
                {"next": nexts, "first mc": base, "corpus of": len(cases)})
        c.state(tag, base, nexts)
        c.trace([nexts, want], tuple(want))
    c.expect(df.equals(before), "the given measures are left alone", tag)
    # keeping the unreachable ones only rewrites the pointers
    got = call(cu.remove_repeats, df, remove_unreachable=False)
    c.expect(not isinstance(got, Raised), "removing repeats raised %r" % (got,), tag)
    res = {}
    for (fid, mid), mc, nxt in zip(got.index, got["mc"], got["next"]):
        res.setdefault(fid, []).append((int(mc), None if pd.isna(nxt) else int(nxt)))
    for nexts, base, fid in zip(cases, bases, ids):
        want = [(base + i, None if (not o or -1 in o or i == len(nexts) - 1) else base + max(o))
                for i, o in enumerate(nexts)]
        c.equal(res.get(fid, []), want, "next pointers (%s)" % tag, {"next": nexts})
    c.step(len(cases))


def work(c, job):
    kind, n, part, small = job
    cases = list(structures(n, small))
    c.section(kind)
    if kind == "corpus":
        cases = cases[part::4]
        if cases:
            bases = [i % 3 for i in range(len(cases))]
            compare(c, cases, bases, [7 + 2 * i for i in range(len(cases))], "corpus of %d" % n)
    elif kind == "alone":
        for k, nexts in enumerate(cases[part::8]):
            compare(c, [nexts], [k % 2], [k % 3], "alone")
    elif kind == "unmatched":
        unmatched(c, cases[part::8])


def unmatched(c, cases):
    """Rows (in score order) survive exactly when their measure does, unchanged and in order."""
    import pandas as pd
    import harmonic_inference.utils.corpus_utils as cu

    mdf = corpus.measures_df(pd, [piece(n, 0) for n in cases])
    kept = cu.remove_repeats(mdf)
    rows = []
    for i, nexts in enumerate(cases):
        # several notes per measure, one in a measure that does not exist
        mcs = sorted((j * (i % 3 + 1)) % (len(nexts) + 1) for j in range(len(nexts) + 3))
        rows.append([{"mc": mc, "tag": "%d/%d" % (i, j)} for j, mc in enumerate(mcs)])
    ids = list(range(len(cases)))
    df = corpus.rows_df(pd, rows, "note_id", ids)
    # files without measures lose all rows
    extra = corpus.rows_df(pd, [[{"mc": 0, "tag": "x"}]], "note_id", [len(cases) + 5])
    df = pd.concat([df, extra])
    got = call(cu.remove_unmatched, df, kept)
    c.expect(not isinstance(got, Raised), "removing rows without a measure: %r" % (got,), None)
    res = [(f, n, int(m), t) for (f, n), m, t in zip(got.index, got["mc"], got["tag"])]
    want = []
    for i, (nexts, rs) in enumerate(zip(cases, rows)):
        ok = {m for m, _ in reference(nexts, 0)}
        want += [(i, j, r["mc"], r["tag"]) for j, r in enumerate(rs) if r["mc"] in ok]
        c.state(i, nexts)
        c.trace([nexts, sorted(ok)])
    c.equal(res, want, "rows whose measure remains", None)


def body(c):
    core.setup_imports()
    import harmonic_inference.utils.corpus_utils  # noqa: F401

    jobs = []
    full = 5 if c.thorough else 4
    for n in range(1, 7 + c.thorough):
        jobs += [("corpus", n, p, n > full) for p in range(4)]
        if n <= full:
            jobs += [("alone", n, p, n > 3) for p in range(8)]
        jobs += [("unmatched", n, p, n > 4) for p in range(8) if n >= 2]
    core.parallel(c, work, jobs)


def main():
    c = core.Check("C10", RULE, {
        "measures": "all structures of <= 4 (thorough 5) measures; of <= 6 (thorough 7) measures with "
                    "the repeat signs of ordinary scores",
        "corpora": "one piece per structure; pieces of one corpus must not influence each other"},
        ["every measure that is not the end of the piece has a continuation further ahead"])
    return core.run(c, body)
