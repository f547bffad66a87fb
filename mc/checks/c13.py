"""C13 corpora: aggregating annotation directories and loading them cleaned."""
import os
import shutil
import tempfile
from fractions import Fraction as F
from itertools import combinations_with_replacement, permutations

from mc import core, corpus
from mc.core import Raised, call

RULE = ("every selection of up to 2 (thorough 3) note rows and of chord rows (valid and invalid positions, "
        "removed measures, ties, unusable labels) on every measure layout is written as text, loaded by the "
        "real loader together with all others and in every order of small corpora of differing pieces, from "
        "aggregated directories with every combination of missing files; a per-piece timeline model gives "
        "what must come out")

# name: [(mc, timesig, act_dur, mc_offset, next)]
LAYOUTS = {
    "plain": [(1, "2/4", F(1, 2), F(0), "2"), (2, "2/4", F(1, 2), F(0), "-1")],
    "pickup": [(1, "3/4", F(1, 4), F(1, 2), "2"), (2, "3/4", F(3, 4), F(0), "-1")],
    "voltas": [(1, "2/4", F(1, 2), F(0), "2, 3"), (2, "2/4", F(1, 2), F(0), "1"),
               (3, "2/4", F(1, 2), F(0), "3, -1")],
    "repeat": [(1, "2/4", F(1, 2), F(0), "2"), (2, "2/4", F(1, 4), F(0), "1, 3"),
               (3, "2/4", F(1, 4), F(1, 4), "4"), (4, "6/8", F(3, 4), F(0), "")],
}


def path(layout):
    """The one pass that remains: always the furthest continuation."""
    by = {m[0]: m for m in layout}
    out, mc = [], layout[0][0]
    while True:
        m = by[mc]
        opts = [int(x) for x in m[4].split(", ") if x]
        opts = [] if -1 in opts else opts
        out.append(m[:4] + (max(opts) if opts else None,))
        if not opts:
            return out
        mc = max(opts)


def frac(x):
    return "" if x is None else str(x)


def positions(layout, invalid=True):
    out = []
    for mc, ts, dur, off, _ in layout:
        t = off
        while t < off + dur:
            out.append((mc, t))
            t += F(1, 4)
        if invalid:
            out.append((mc, off + dur))
            if off:
                out.append((mc, off - F(1, 4)))
    return out


def ref_notes(layout, notes):
    """notes: [(mc, beat, dur, tied, midi)] in file order; ties only between unambiguous neighbours."""
    way = path(layout)
    span = {m[0]: (m[3], m[3] + m[2]) for m in way}
    kept = [(i, n) for i, n in enumerate(notes)
            if n[0] in span and n[1] is not None and span[n[0]][0] <= n[1] < span[n[0]][1]]
    lay = [m[:4] for m in way]
    taken, out = set(), {}
    for i, (mc, beat, dur, tied, midi) in kept:
        end, total, left = corpus.walk(lay, mc, beat, dur), dur, tied
        if tied == 1:
            for j, n in kept:
                if n[:2] == end and n[3] == -1 and n[4] == midi and j not in taken:
                    taken.add(j)
                    end, total, left = corpus.walk(lay, *n[:3]), dur + n[2], None
                    break
        out[i] = (mc, beat, total) + end + (left, midi)
    return [v for i, v in sorted(out.items()) if i not in taken]


def ref_chords(layout, chords):
    """chords: [(mc, beat, numeral)] in score order."""
    way = path(layout)
    span = {m[0]: (m[3], m[3] + m[2]) for m in way}
    lay = [m[:4] for m in way]
    kept = [(mc, beat, num) for mc, beat, num in chords
            if mc in span and beat is not None and num not in ("@none", "")
            and span[mc][0] <= beat < span[mc][1]]
    out = []
    for a, b in zip(kept, kept[1:] + [None]):
        nxt = b[:2] if b else (lay[-1][0], lay[-1][3] + lay[-1][2])
        dur = (corpus.at(lay, *b[:2]) if b else corpus.end(lay)) - corpus.at(lay, *a[:2])
        if dur > 0:
            out.append(a + nxt + (dur,))
    return out


# ---- text ----------------------------------------------------------------------------------------
M_COLS = "mc mn timesig act_dur mc_offset next".split()
N_COLS = "mc mn timesig mc_onset mn_onset duration gracenote tied tpc midi staff voice".split()
C_COLS = "mc mn timesig mn_onset label numeral globalkey".split()


def texts(piece, old=False):
    """The three tsv bodies (header, rows) of one piece; old: the earlier column names as well."""
    layout, notes, chords = piece
    ts = {m[0]: m[1] for m in layout}
    off = {m[0]: m[3] for m in layout}
    ms = [[str(mc), str(mc), t, str(d), str(o), nx] for mc, t, d, o, nx in layout]
    ns = [[str(mc), str(mc), ts[mc], frac(None if b is None else b - off[mc]), frac(b), str(d), "",
           "" if tied is None else str(tied), "0", str(midi), "1", "1"]
          for mc, b, d, tied, midi in notes]
    cs = [[str(mc), str(mc), ts[mc], frac(b), "label", num, "C"] for mc, b, num in chords]
    out = {"measures": (list(M_COLS), ms), "notes": (list(N_COLS), ns), "harmonies": (list(C_COLS), cs)}
    if old:
        for kind, col, name in (("measures", "mc_offset", "offset"), ("notes", "mn_onset", "onset"),
                                ("harmonies", "mn_onset", "onset")):
            head, rows = out[kind]
            k = head.index(col)
            out[kind] = (head + [name], [r[:k] + [""] + r[k + 1:] + [r[k]] for r in rows])
    return out


def tsv(file, head, rows):
    with open(file, "w") as f:
        for r in [head] + rows:
            f.write("\t".join(r) + "\n")


def write_aggregate(directory, pieces, names, with_chords=True, old=()):
    """The aggregated files as the aggregator is to write them."""
    tsv(directory + "/files.tsv", ["", "corpus_name", "file_name"],
        [[str(i), "c", n] for i, n in enumerate(names)])
    for kind, file, idx in (("measures", "measures", "measure_id"), ("notes", "notes", "note_id"),
                            ("harmonies", "chords", "chord_id")):
        if kind == "harmonies" and not with_chords:
            continue
        head, rows = None, []
        for i, p in enumerate(pieces):
            h, rs = texts(p, bool(old))[kind]
            if old and not old[i]:       # new column filled, old one empty
                k = len(h) - 1
                col = h.index({"measures": "mc_offset"}.get(kind, "mn_onset"))
                rs = [r[:col] + [r[k]] + r[col + 1:k] + [""] for r in rs]
            head = h
            rows += [[str(i), str(j)] + r for j, r in enumerate(rs)]
        tsv(directory + "/%s.tsv" % file, ["file_id", idx] + head, rows)


def observe(dfs):
    import pandas as pd
    files, measures, chords, notes = dfs
    num = lambda x: None if pd.isna(x) else int(x)  # noqa: E731
    out = {int(i): {"file": n, "measures": [], "notes": [], "chords": []}
           for i, n in zip(files.index, files["file_name"])}
    for (f, _), mc, nxt, dur, off, ts in zip(measures.index, measures["mc"], measures["next"],
                                             measures["act_dur"], measures["mc_offset"],
                                             measures["timesig"]):
        out[f]["measures"].append((int(mc), ts, dur, off, num(nxt)))
    for (f, _), mc, b, d, omc, ob, t, m in zip(notes.index, notes["mc"], notes["mn_onset"],
                                               notes["duration"], notes["offset_mc"],
                                               notes["offset_beat"], notes["tied"], notes["midi"]):
        out[f]["notes"].append((int(mc), b, d, int(omc), ob, num(t), int(m)))
    if chords is None:
        for v in out.values():
            v["chords"] = None
    else:
        for (f, _), mc, b, n, mn, bn, d in zip(chords.index, chords["mc"], chords["mn_onset"],
                                               chords["numeral"], chords["mc_next"],
                                               chords["mn_onset_next"], chords["duration"]):
            out[f]["chords"].append((int(mc), b, n, int(mn), bn, d))
    return out


def expected(piece, name, with_chords=True):
    return {"file": name, "measures": path(piece[0]), "notes": ref_notes(piece[0], piece[1]),
            "chords": ref_chords(piece[0], piece[2]) if with_chords else None}


def show(piece):
    return [[str(x) for x in part] for part in piece]


def load(c, pieces, names, case, count=None, with_chords=True, old=()):
    from harmonic_inference.data.corpus_reading import load_clean_corpus_dfs
    d = tempfile.mkdtemp(prefix="c13_")
    try:
        write_aggregate(d, pieces, names, with_chords, old)
        got = call(load_clean_corpus_dfs, d, count) if count is not None else call(
            load_clean_corpus_dfs, d)
        c.expect(not isinstance(got, Raised), "loading raised %r" % (got,), case)
        got = call(observe, got)
        c.expect(not isinstance(got, Raised), "the loaded data is not as documented: %r" % (got,), case)
    finally:
        shutil.rmtree(d)
    use = range(len(pieces) if count is None else count)
    c.equal(sorted(got), list(use), "loaded pieces", case)
    for i in use:
        want = expected(pieces[i], names[i], with_chords)
        for part in ("file", "measures", "notes", "chords"):
            c.equal(got[i][part], want[part], "%s of piece %d" % (part, i), [case, show(pieces[i])])
        c.state(show(pieces[i]), len(pieces) > 4)
        c.trace([show(pieces[i])], repr((want["notes"], want["chords"])))


# ---- sections ------------------------------------------------------------------------------------
def rows_job(c, job):
    kind, name, n, part, parts = job
    layout = LAYOUTS[name]
    c.section("every " + kind)
    pos = positions(layout)
    base_n = [(layout[0][0], layout[0][3], F(1, 4), None, 48)]
    base_c = [(layout[0][0], layout[0][3], "I")]
    pieces = []
    if kind == "notes":
        opts = [(mc, b, d, t, 60) for mc, b in pos for d, t in (
            (F(1, 4), None), (F(1, 4), 1), (F(1, 4), -1), (F(3, 4), None))] + [
            (layout[0][0], None, F(1, 4), None, 60)]
        if n == 3:
            opts = [o for o in opts if o[2] == F(1, 4)]
        key = lambda o: (o[0], o[1] if o[1] is not None else F(9))  # noqa: E731
        for pick in combinations_with_replacement(sorted(opts, key=key), n):
            # two unisons at one onset with ties are ambiguous
            seen = [(o[0], o[1]) for o in pick]
            if len(set(seen)) == len(seen):
                pieces.append((layout, base_n + list(pick), base_c))
    else:
        opts = [(mc, b, num) for mc, b in pos for num in ("V", "@none", "")] + [
            (layout[0][0], None, "V")]
        key = lambda o: (o[0], o[1] if o[1] is not None else F(9))  # noqa: E731
        for pick in combinations_with_replacement(sorted(opts, key=key), n):
            pieces.append((layout, base_n, base_c + list(pick)))
    pieces = pieces[part::parts]
    for i in range(0, len(pieces), 300):
        chunk = pieces[i:i + 300]
        load(c, chunk, ["p%d.tsv" % k for k in range(len(chunk))], list(job) + [i])


P = {
    "plain": (LAYOUTS["plain"], [(1, F(0), F(1, 4), None, 60), (2, F(1, 4), F(1, 4), None, 62)],
              [(1, F(0), "I"), (2, F(0), "V")]),
    "tied": (LAYOUTS["pickup"], [(1, F(1, 2), F(1, 4), 1, 60), (2, F(0), F(1, 2), -1, 60)],
             [(1, F(1, 2), "I"), (2, F(1, 4), "V"), (2, F(1, 4), "ii")]),
    "voltas": (LAYOUTS["voltas"], [(1, F(0), F(3, 4), None, 60), (2, F(0), F(1, 4), None, 61),
                                   (3, F(0), F(1, 4), None, 62)],
               [(1, F(0), "I"), (2, F(0), "V"), (3, F(1, 4), "I")]),
    "unlabelled": (LAYOUTS["repeat"], [(1, F(0), F(1), None, 60)], [(1, F(0), "@none")]),
    "nochords": (LAYOUTS["plain"], [(1, F(1, 4), F(1, 4), None, 65)], []),
    "nonotes": (LAYOUTS["plain"], [], [(1, F(0), "I")]),
}


def corpus_job(c, job):
    what, names = job
    c.section("small corpora")
    pieces = [P[n] for n in names]
    files = ["f%d.tsv" % i for i in range(len(names))]
    if what == "plain":
        for count in [None] + list(range(1, len(names) + 1)):
            load(c, pieces, files, [what, names, count], count)
    elif what == "nochords":
        load(c, pieces, files, [what, names], with_chords=False)
    elif what == "old":
        for old in core.product((True, False), repeat=len(names)):
            load(c, pieces, files, [what, names, old], old=old)


def aggregate_job(c, job):
    """Directories of single files, some of them missing, aggregated and loaded."""
    import pandas as pd
    from harmonic_inference.data.corpus_reading import aggregate_annotation_dfs, load_clean_corpus_dfs

    only_notes, spec = job          # spec: [(piece, corpus dir, missing kinds)]
    c.section("aggregation")
    d = tempfile.mkdtemp(prefix="c13_")
    src, out = d + "/in", d + "/out/deep"
    try:
        there = {}
        for i, (p, folder, missing) in enumerate(spec):
            body = texts(P[p])
            for kind in ("measures", "notes", "harmonies"):
                if kind not in missing and body[kind][1]:
                    os.makedirs("%s/%s/%s" % (src, folder, kind), exist_ok=True)
                    tsv("%s/%s/%s/f%d.tsv" % (src, folder, kind, i), *body[kind])
            if ("notes" if only_notes else "harmonies") not in missing and \
                    body["notes" if only_notes else "harmonies"][1]:
                there["f%d.tsv" % i] = (p, folder.split("/")[-1], missing)
        os.makedirs(src, exist_ok=True)
        before = tree(src)
        got = call(aggregate_annotation_dfs, src, out, only_notes)
        c.expect(not isinstance(got, Raised), "aggregation raised %r" % (got,), job)
        c.equal(tree(src), before, "the given annotations are left alone", job)
        if not there:
            c.expect(not os.path.exists(out + "/files.tsv"), "nothing to aggregate", job)
        else:
            files = pd.read_csv(out + "/files.tsv", sep="\t", index_col=0, dtype=str)
            order = {n: i for i, n in zip(files.index, files["file_name"])}
            c.equal({n: files.loc[i, "corpus_name"] for n, i in order.items()},
                    {n: v[1] for n, v in there.items()}, "aggregated files", job)
            c.equal(len(files), len(there), "number of aggregated files", job)
            full = True
            for kind, file in (("measures", "measures"), ("notes", "notes"), ("harmonies", "chords")):
                want = []
                for n, i in order.items():
                    p, _, missing = there[n]
                    if kind not in missing:
                        head, rows = texts(P[p])[kind]
                        want += [[str(i), str(j)] + r for j, r in enumerate(rows)]
                path_ = "%s/%s.tsv" % (out, file)
                if not want:
                    c.expect(not os.path.exists(path_), "no %s to aggregate" % file, job)
                    full = full and kind == "harmonies"
                    continue
                with open(path_) as f:
                    lines = [x.split("\t") for x in f.read().split("\n")[:-1]]
                c.equal(lines[0], ["file_id", file[:-1] + "_id"] + head, "columns of %s" % file, job)
                c.equal(sorted(lines[1:]), sorted(want), "aggregated %s" % file, job)
            if full:
                got = call(load_clean_corpus_dfs, out)
                c.expect(not isinstance(got, Raised), "loading raised %r" % (got,), job)
                seen = observe(got)
                chords = any("harmonies" not in v[2] and P[v[0]][2] for v in there.values())
                for n, i in order.items():
                    p, _, missing = there[n]
                    piece = [P[p][0]] + [[] if k in missing else x for k, x in (
                        ("notes", P[p][1]), ("harmonies", P[p][2]))]
                    want = expected(piece, n, chords)
                    if "measures" in missing:    # nothing can be placed
                        want.update(measures=[], notes=[], chords=[] if chords else None)
                    c.equal(seen[i], want, "piece %s" % n, job)
        c.state(*job)
        c.trace(job, repr(sorted(there)))
    finally:
        shutil.rmtree(d)


def tree(root):
    out = {}
    for base, _, files in os.walk(root):
        for f in files:
            with open(os.path.join(base, f)) as h:
                out[os.path.join(base, f)] = h.read()
    return out


def dispatch(c, job):
    {"rows": rows_job, "corpus": corpus_job, "agg": aggregate_job}[job[0]](c, job[1])


def body(c):
    core.setup_imports()
    core.python_csv()
    import harmonic_inference.data.corpus_reading  # noqa: F401

    jobs = []
    for name in LAYOUTS:
        for kind in ("notes", "chords"):
            jobs += [("rows", (kind, name, n, p, q)) for n, q in ((1, 1), (2, 4)) for p in range(q)]
            if c.thorough:
                jobs += [("rows", (kind, name, 3, p, 24)) for p in range(24)]
    names = list(P)
    for r in (1, 2, 3) if c.thorough else (1, 2):
        for pick in core.product(names, repeat=r):
            if all(x == "nonotes" for x in pick):
                continue        # a corpus without any note
            for what in ("plain", "nochords", "old"):
                if r == 3 and what != "plain":
                    continue
                jobs.append(("corpus", (what, pick)))
    for pick in permutations(("tied", "voltas", "unlabelled", "nochords"), 3):
        jobs.append(("corpus", ("plain", pick)))
    miss = [(), ("harmonies",), ("notes",), ("measures",), ("harmonies", "measures")]
    for only in (False, True):
        for a, b in core.product(("plain", "tied", "voltas", "nochords"), repeat=2):
            for m in core.product(miss, repeat=2):
                if not c.thorough and a != "plain" and m[0]:
                    continue
                jobs.append(("agg", (only, [(a, "x", m[0]), (b, "y/z", m[1])])))
        jobs += [("agg", (only, [])), ("agg", (only, [("plain", "x", ()), ("tied", "x", ()),
                                                     ("voltas", "x", ())]))]
    core.parallel(c, dispatch, jobs)


def main():
    c = core.Check("C13", RULE, {"layouts": list(LAYOUTS), "rows": "<= 2 (thorough 3) besides the first",
                                 "corpora": "<= 2 (thorough 3) pieces of %d kinds" % len(P)},
                   ["tied unisons at one onset (ambiguous) are left to C11",
                    "pandas' Python CSV parser stands in for its C parser, which PyPy cannot run"])
    return core.run(c, body)
