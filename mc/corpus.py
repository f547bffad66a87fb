"""Building whole corpora of enumerated small pieces (one piece per enumerated case)."""
from fractions import Fraction as F


def measures_df(pd, pieces, ids=None, tuples=True):
    """pieces: list of measure lists [(mc, timesig, act_dur, mc_offset, next)]; one file_id each."""
    idx, cols = [], {"mc": [], "timesig": [], "act_dur": [], "mc_offset": [], "next": []}
    for i, ms in enumerate(pieces):
        fid = i if ids is None else ids[i]
        for j, (mc, ts, dur, off, nxt) in enumerate(ms):
            idx.append((fid, j))
            cols["mc"].append(mc)
            cols["timesig"].append(ts)
            cols["act_dur"].append(dur)
            cols["mc_offset"].append(off)
            cols["next"].append(nxt)
    df = pd.DataFrame(cols, index=pd.MultiIndex.from_tuples(idx, names=["file_id", "measure_id"]))
    df["mc"] = df["mc"].astype("Int64")
    if not tuples:
        df["next"] = df["next"].astype("Int64")
    return df


def rows_df(pd, pieces, level, ids=None, int_cols=("mc",)):
    """pieces: list (per file) of lists of row dicts."""
    idx, cols = [], {}
    names = list(next(r for p in pieces for r in p))
    cols = {n: [] for n in names}
    for i, rows in enumerate(pieces):
        fid = i if ids is None else ids[i]
        for j, r in enumerate(rows):
            idx.append((fid, j))
            for n in names:
                cols[n].append(r[n])
    df = pd.DataFrame(cols, index=pd.MultiIndex.from_tuples(idx, names=["file_id", level]))
    for n in int_cols:
        df[n] = df[n].astype("Int64")
    return df


def chain(layout):
    """Measures (mc, ts, dur, off) in playing order -> rows with single next pointers."""
    out = []
    for a, b in zip(layout, list(layout[1:]) + [None]):
        out.append(tuple(a) + (None if b is None else b[0],))
    return out


def unchain(rows):
    return [r[:4] + (((r[4],) if r[4] is not None else (-1,)),) for r in rows]


def walk(layout, mc, beat, dur):
    """Offset position of a note: the reference for note offsets."""
    i = [m[0] for m in layout].index(mc)
    left = beat - layout[i][3] + dur
    while left >= layout[i][2] and i + 1 < len(layout):
        left -= layout[i][2]
        i += 1
    return layout[i][0], layout[i][3] + left


def at(layout, mc, beat):
    t = F(0)
    for m in layout:
        if m[0] == mc:
            return t + beat - m[3]
        t += m[2]
    raise KeyError(mc)


def end(layout):
    return sum((m[2] for m in layout), F(0))
