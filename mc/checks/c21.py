"""C21 forced labels: obeyed by the result, refused when they contradict each other."""
import itertools
from argparse import ArgumentError

from mc import core, search as S
from mc.core import Raised, call
from mc.checks import c20

RULE = ("every assignment of forced (non-)changes of chord and key to every input of small pieces, every "
        "set of one or two forced chord / key ranges and their combinations is given to the real search; "
        "contradictions must be refused (and leave the model usable), everything else must yield the "
        "best harmony among those that obey, found by explicit enumeration")

CTM = [0.3, 0.35, 0.41, 0.38]
KTM = [0.3, 0.1, 0.5, 0.2]
CCM = {(0, 1): 0, (1, 2): 3, (2, 3): 4, (0, 2): 2}


def contradiction(w, f, max_chord, max_key):
    """Why the request must be refused, or None (f: plain Forces as given by the caller)."""
    for kind, ch, non, labels, top in (("chord", f.chord_changes, f.chord_non, f.chords, max_chord),
                                       ("key", f.key_changes, f.key_non, f.keys, max_key)):
        ch, non = ch - {0}, non - {0}
        if any(i >= w.n for i in ch | non):
            return kind + " index beyond the end"
        if ch & non:
            return kind + " change and non-change"
        if any(i not in w.valid for i in ch):
            return kind + " change inside a position"
        at = [None] * w.n
        for (s, e), x in labels.items():
            if not 0 <= x < top:
                return "no such " + kind
            for i in range(s, min(e, w.n)):
                if at[i] not in (None, x):
                    return "two " + kind + "s at once"
                at[i] = x
        for i in ch:
            if at[i] is not None and at[i] == at[i - 1]:
                return kind + " changes to itself"
        for i in non:
            if at[i] is not None and at[i - 1] is not None and at[i] != at[i - 1]:
                return kind + " must differ but not change"
    for i in f.key_changes - {0}:
        if i in f.chord_non:
            return "key change without chord change"
        if f.chord_at[i] is not None and f.chord_at[i] == f.chord_at[i - 1]:
            return "key change within one chord"
    for i in f.chord_non - {0}:
        a, b = f.key_at[i - 1], f.key_at[i]
        if a is not None and b is not None and a != b:
            return "keys differ within one chord"
    return None


def obeys(vis, f, n):
    chords, changes, keys = vis
    starts = list(changes[:-1])
    chord = [None] * n
    key = [None] * n
    for ch, k, s, e in zip(chords, keys, changes, changes[1:]):
        for i in range(s, e):
            chord[i], key[i] = ch, k
    cc = {i for i in range(1, n) if i in starts}
    kc = {i for i in range(1, n) if key[i] != key[i - 1]}
    bad = []
    if not f.chord_changes - {0} <= cc:
        bad.append("forced chord changes")
    if f.chord_non & cc:
        bad.append("forced chord non-changes")
    if not f.key_changes - {0} <= kc:
        bad.append("forced key changes")
    if f.key_non & kc:
        bad.append("forced key non-changes")
    if any(x is not None and x != chord[i] for i, x in enumerate(f.chord_at)):
        bad.append("forced chords")
    if any(x is not None and x != key[i] for i, x in enumerate(f.key_at)):
        bad.append("forced keys")
    return bad


def check(c, w, env, params, f, case, again=False):
    why = contradiction(w, f, len(w.vocab), len(w.abs_keys))
    kw = f.kwargs()
    before = {k: type(v)(v) for k, v in kw.items()}
    got, log, model = w.run(env, params, kw)
    c.step()
    c.expect(kw == before, "the caller's forced labels were modified", case)
    if why is not None:
        c.raises(got, ArgumentError, "a contradictory request (%s)" % why, case)
        c.state(*map(str, case))
        c.trace(case + ["refused: " + why], why)
        if again:
            g = fix(w, S.Forces(w.n))
            log.clear()
            res = call(model.get_harmony, w.piece(), **g.kwargs())
            c20.judge(c, w, env, params, g, case + ["then without forced labels"], result=(res, dict(log), model))
        return
    # the reference takes the forces without the (meaningless) ones at input 0
    g = S.Forces(w.n, f.chord_changes - {0}, f.chord_non - {0}, f.key_changes - {0}, f.key_non - {0},
                 f.chords, f.keys)
    best = c20.judge(c, w, env, params, g, case, result=(got, log, model))
    if best is not None:
        vis = S.visible_state(best)
        bad = obeys(vis, f, w.n)
        c.expect(not bad, lambda: "the result %r ignores the %s" % (vis, ", ".join(bad)), case)


def fix(w, f):
    """Fix the first key (unless forced otherwise) so that the enumeration stays small."""
    if f.key_at[0] is None:
        keys = dict(f.keys)
        keys[(0, 1)] = w.key0
        f = S.Forces(w.n, f.chord_changes, f.chord_non, f.key_changes, f.key_non, f.chords, keys)
    return f


def env_of(w, ktm=KTM):
    return S.Env(CTM[:w.n], ktm=ktm, ccm=CCM)


STATUS = [(a, b) for a in "-CN" for b in "-CN"]


def change_job(c, job):
    pt, layout, first, hl = job
    c.section("changes and non-changes")
    w = S.World(pt, layout)
    params = dict(S.DEFAULTS, hash_length=hl)
    rest = STATUS if c.thorough or w.n < 4 else STATUS[1:2] + STATUS[3:4] + STATUS[5:7]
    for combo in itertools.product(rest, repeat=w.n - 1):
        combo = (first,) + combo
        f = S.Forces(w.n, *([i for i, x in enumerate(combo) if x[k] == s]
                            for k, s in ((0, "C"), (0, "N"), (1, "C"), (1, "N"))))
        check(c, w, env_of(w), params, fix(w, f), [pt, layout, hl, ["".join(x) for x in combo]],
              again=combo[0] == ("-", "-"))


def invalid_job(c, job):
    pt, layout = job
    c.section("invalid requests")
    w = S.World(pt, layout)
    n = w.n
    big_c, big_k = len(w.vocab), len(w.abs_keys)
    reqs = []
    for i in range(0, n + 2):
        for a, b in itertools.product(("chord_changes", "chord_non", "key_changes", "key_non"), repeat=2):
            reqs.append({a: [i], b: [i]} if a != b else {a: [i]})
    for s in range(n):
        for e in range(s + 1, n + 1):
            for x in (-2, -1, big_c, big_c + 1, 0, big_c - 1):
                reqs.append({"chords": {(s, e): x}})
            for x in (-2, -1, big_k, big_k + 1):
                reqs.append({"keys": {(s, e): x}})
    for r in reqs:
        check(c, w, env_of(w), S.DEFAULTS, fix(w, S.Forces(n, **r)), [pt, layout, repr(r)], again=True)


def label_job(c, job):
    pt, layout, kind, first = job
    c.section("forced " + kind)
    w = S.World(pt, layout)
    n = w.n
    ids = [w.cand_ids[1], w.cand_ids[2]] if kind == "chords" else [w.key0, other_key(w)]
    spans = [(s, e) for s in range(n) for e in range(s + 1, n + 1)]
    items = [(sp, x) for sp in spans for x in ids]
    params = dict(S.DEFAULTS)
    todo = [[first]] + [[first, x] for x in items if x[0] != first[0]]
    for its in todo:
        f = S.Forces(n, **{kind: dict(its)})
        check(c, w, env_of(w), params, fix(w, f), [pt, layout, kind, repr(its)])
        if kind == "keys":         # whatever the key transition model would not allow by itself
            for ktm in ([0.9] * 4, [0.01] * 4, [0.9, 0.01, 0.01, 0.9]):
                check(c, w, env_of(w, ktm), params, fix(w, f), [pt, layout, kind, repr(its), tuple(ktm)])


def other_key(w):
    iv, mode = w.rel_keys[0]
    t = w.abs_keys[w.key0][0] + iv
    if w.pt == "MIDI":
        t %= 12
    return w.abs_keys.index((t, mode))


def mixed_job(c, job):
    """One forced chord range x one forced key range x one forced (non-)change."""
    pt, layout, span, x = job
    c.section("mixed")
    w = S.World(pt, layout)
    n = w.n
    keys = [None] + [(sp, k) for sp in ((0, 1), (0, n), (1, n), (1, 2), (n - 1, n))
                     for k in (w.key0, other_key(w))]
    changes = [{}] + [{k: [i]} for k in ("chord_changes", "chord_non", "key_changes", "key_non")
                      for i in w.valid]
    for key in keys:
        for ch in changes:
            f = S.Forces(n, chords={span: x}, keys=dict([key]) if key else {}, **ch)
            check(c, w, env_of(w), S.DEFAULTS, fix(w, f), [pt, layout, repr((span, x)), repr(key), repr(ch)])


def free_key_job(c, job):
    """The initial key is not forced: later forced keys still hold."""
    pt, layout, hl = job
    c.section("initial key free")
    w = S.World(pt, layout)
    n = w.n
    params = dict(S.DEFAULTS, max_chord_branching_factor=1, max_key_branching_factor=1, hash_length=hl)
    reqs = [{"keys": {(n - 1, n): k}} for k in (w.key0, other_key(w))]
    reqs += [{"keys": {(1, n): other_key(w)}}, {"key_changes": [w.valid[0]]}, {"key_non": set(w.valid)},
             {"chords": {(0, 1): w.cand_ids[1]}}, {"chord_changes": [w.valid[-1]]}]
    for r in reqs:
        check(c, w, env_of(w), params, S.Forces(n, **r), [pt, layout, "free", hl, repr(r)])


def body(c):
    core.setup_imports(stubs=True)
    import harmonic_inference.models.joint_model  # noqa: F401

    jobs = []
    for pt in ("TPC", "MIDI"):
        for layout in ("three", "chordal") if pt == "TPC" or c.thorough else ("two",):
            for first in STATUS if c.thorough or layout != "chordal" else STATUS[:3] + STATUS[3:4]:
                for hl in (None, 5) if c.thorough else (None if layout != "chordal" else 2,):
                    jobs.append((change_job, (pt, layout, first, hl)))
        for layout in ("two", "chordal") if c.thorough else ("two",):
            jobs.append((invalid_job, (pt, layout)))
        for layout in ("three", "chordal") if c.thorough else ("three",):
            w = S.World(pt, layout)
            n = w.n
            spans = [(s, e) for s in range(n) for e in range(s + 1, n + 1)]
            for kind, ids in (("chords", [w.cand_ids[1], w.cand_ids[2]]), ("keys", [w.key0, other_key(w)])):
                for sp in spans:
                    for x in ids:
                        jobs.append((label_job, (pt, layout, kind, (sp, x))))
            for sp in ((0, n), (1, n), (0, 2), (1, 2)) if c.thorough else ((0, 2), (1, n)):
                jobs.append((mixed_job, (pt, layout, sp, w.cand_ids[1])))
        for layout in ("two", "three") if c.thorough else ("two",):
            for hl in (None, 5):
                jobs.append((free_key_job, (pt, layout, hl)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    c = core.Check("C21", RULE, {
        "pieces": "2-4 inputs (simultaneous and overlapping notes), both pitch types",
        "forced changes": "every combination of chord {none, change, non-change} x key {none, change, "
                          "non-change} per input",
        "forced labels": "every one or two ranges x two labels, and mixed with keys and changes"},
        ["the networks' forward passes are replaced by the enumerated answers (torch is not installed)"])
    return core.run(c, body)
