"""C20 the search: best admissible harmony, exact score, right model inputs."""
import itertools
import math
from fractions import Fraction as F

from mc import core, search as S
from mc.core import Raised

RULE = ("every combination of the networks' answers over small tables (chord change probability classes "
        "per input, chord preference order per range, key change probability / key preference / chord "
        "preference per history class), parameters, beam sizes and model configurations is run through "
        "the real search; an explicit enumeration of all admissible harmonies, scored from their "
        "definition, gives the expected result")


def judge(c, world, env, params, forces, case, exact=True, result=None):
    ref = S.Reference(world, env, params, forces)
    hyps = ref.explore()
    exact = exact and not ref.tie
    got, log, model = result or world.run(env, params, forces.kwargs())
    if not hyps and isinstance(got, Raised):
        c.step()
        c.state(*map(str, case))
        c.trace(case + ["refused"], "refused")
        return None
    c.expect(not isinstance(got, Raised), "the search raised %r" % (got,), case)
    c.expect("broken" not in log, lambda: "a model was used wrongly: %s" % log["broken"][:2], case)
    c.step(len(hyps) + 1)
    c.state(*map(str, case))
    table = {}
    for h in hyps:
        table.setdefault(S.visible(h), []).append(h.score)
    if not hyps:
        c.expect(got is None, lambda: "a harmony was returned although none is admissible: %r"
                 % (S.visible_state(got),), case)
        c.trace(case + ["none"], "none")
        return None
    best = max(hyps, key=lambda h: h.score)
    if got is None:
        c.expect(not exact, lambda: "no harmony was returned, expected %r (score %r)"
                 % (S.visible(best), best.score), case)
        c.trace(case, "lost")
        return None
    vis = S.visible_state(got)
    c.expect(vis in table, lambda: "the returned harmony %r is not admissible (best is %r)"
             % (vis, S.visible(best)), case)
    score = float(got.log_prob)
    c.expect(any(core.close(score, x, 1e-6) for x in table[vis]),
             lambda: "score of %r: got %r, expected one of %r" % (vis, score, sorted(set(table[vis]))),
             case)
    if exact:
        c.expect(score >= best.score - 1e-6 * abs(best.score),
                 lambda: "the returned harmony %r (score %r) is not the best: %r (score %r)"
                 % (vis, score, S.visible(best), best.score), case)
    for name, seen, want in (("key transition", log.get("ktm queries", set()), ref.ktm_queries),
                             ("key sequence", log.get("ksm queries", set()), ref.ksm_queries),
                             ("chord sequence", log.get("csm queries", set()), ref.csm_queries)):
        c.expect(seen <= want, lambda: "the %s model was asked about a history no hypothesis has (%d of %d "
                 "questions)" % (name, len(seen - want), len(seen)), case)
    if exact:
        lost = ref.needed - log.get("csm queries", set())
        c.expect(not lost, lambda: "%d of %d hypotheses that had to be kept were dropped"
                 % (len(lost), len(ref.needed)), case)
    c.trace(case + [{"harmony": repr(vis), "score": score, "admissible": len(table)}], vis)
    return got


def fixed_key(world, **kw):
    keys = dict(kw.pop("keys", {}))
    keys.setdefault((0, 1), world.key0)
    return S.Forces(world.n, keys=keys, **kw)


LEVELS = (0.1, 0.35, 0.62)
KTM_LEVELS = (0.03, 0.4, 0.9)


def ctm_job(c, job):
    pt, layout, hash_length, first = job
    c.section("chord change probabilities")
    w = S.World(pt, layout)
    f = fixed_key(w)
    valid = w.valid
    for combo in itertools.product(LEVELS, repeat=len(valid) - 1):
        combo = (first,) + combo
        probs = [0.3] * w.n                       # also on inputs at which nothing can change
        for i, p in zip(valid, combo):
            probs[i] = p + 0.001 * i
        env = S.Env(probs, ktm=[0.03, 0.2, 0.1, 0.6])
        for mx in (F(8), F(1, 2), F(1, 4)) if c.thorough else (F(8), F(1, 2)):
            params = dict(S.DEFAULTS, hash_length=hash_length, max_chord_length=mx)
            judge(c, w, env, params, f, [pt, layout, "hash", hash_length, "ctm", combo, "max", str(mx)])


def ccm_job(c, job):
    pt, layout, first = job
    c.section("chord preferences")
    w = S.World(pt, layout)
    f = fixed_key(w)
    spans = [(s, e) for s in range(w.n) for e in range(s + 1, w.n + 1)]
    orders = [0, 3, 4] if c.thorough else [0, 3]  # ABC, BCA, CAB
    for combo in itertools.product(orders, repeat=len(spans) - 1):
        env = S.Env([0.3] + [0.35, 0.41, 0.38][:w.n - 1], ccm=dict(zip(spans, (first,) + combo)),
                    ktm=[0.03, 0.2, 0.1, 0.6])
        judge(c, w, env, S.DEFAULTS, f, [pt, layout, "ccm", first, combo])


def key_job(c, job):
    pt, layout, ktm0 = job
    c.section("key changes")
    w = S.World(pt, layout)
    f = fixed_key(w)
    for ktm in itertools.product(KTM_LEVELS if c.thorough else KTM_LEVELS[1:], repeat=3):
        for ksm in itertools.product((0, 3, 4), repeat=2) if c.thorough else ((0, 3), (3, 0)):
            env = S.Env([0.3] + [0.35, 0.41, 0.38, 0.33][:w.n - 1],
                        ccm={(0, 1): 0, (1, 2): 3, (2, 3): 4, (1, 3): 2, (0, 2): 1},
                        ktm=(ktm0,) + ktm, ksm=ksm)
            judge(c, w, env, S.DEFAULTS, f, [pt, layout, "ktm", (ktm0,) + ktm, "ksm", ksm])


def csm_job(c, job):
    pt, layout, pb = job
    c.section("chord sequence answers")
    w = S.World(pt, layout, pitch_based=pb)
    f = fixed_key(w)
    for csm in itertools.product((0, 1, 2), repeat=3 if c.thorough else 2):
        for ktm in ([0.03] * 4, [0.3, 0.1, 0.5, 0.2])[0 if c.thorough else 1:]:
            env = S.Env([0.3] + [0.35, 0.41, 0.38][:w.n - 1], csm=csm, ktm=ktm,
                        ccm={(0, 1): 0, (1, 2): 3, (2, 3): 4})
            judge(c, w, env, S.DEFAULTS, f, [pt, layout, pb, "csm", csm, tuple(ktm)])


def param_job(c, job):
    pt, layout, mc = job
    c.section("branching parameters")
    w = S.World(pt, layout)
    f = fixed_key(w)
    if c.thorough:
        space = itertools.product((0.5, 0.7, 0.9), (1, 2, 3), (0.3, 0.6, 0.999), (0.5, 2.0), (None, 2))
    else:
        space = itertools.product((0.5, 0.7, 0.9), (1, 2, 3), (0.3, 0.6, 0.999), (2.0,), (None,))
    for tc, mk, tk, ex, hl in space:
        params = dict(S.DEFAULTS, max_chord_branching_factor=mc, target_chord_branch_prob=tc,
                      max_key_branching_factor=mk, target_key_branch_prob=tk, ksm_exponent=ex,
                      hash_length=hl)
        env = S.Env([0.3] + [0.35, 0.41, 0.38][:w.n - 1], ktm=[0.3, 0.1, 0.5, 0.2],
                    ccm={(0, 1): 0, (1, 2): 3, (2, 3): 4})
        judge(c, w, env, params, f, [pt, layout, "params", mc, tc, mk, tk, ex, hl])


def threshold_job(c, job):
    pt, layout = job
    c.section("thresholds")
    w = S.World(pt, layout)
    f = fixed_key(w)
    vals = (0.2, 0.3, 0.5)
    for lo, hi in [(0.2, 0.3), (0.3, 0.3), (0.3, 0.5), (0.2, 0.5)]:
        for combo in itertools.product(vals, repeat=len(w.valid)):
            probs = [0.3] * w.n
            for i, p in zip(w.valid, combo):
                probs[i] = p
            env = S.Env(probs, ktm=[0.03, 0.2, 0.1, 0.6], ccm={(0, 1): 0, (1, 2): 3, (2, 3): 4})
            params = dict(S.DEFAULTS, min_chord_change_prob=lo, max_no_chord_change_prob=hi)
            judge(c, w, env, params, f, [pt, layout, "thresholds", lo, hi, combo])
    for lo, hi in [(0.2, 0.3), (0.3, 0.3), (0.1, 0.6), (0.02, 0.95)]:
        for ktm in itertools.product((0.1, 0.25, 0.7) if c.thorough else (0.25, 0.7), repeat=4):
            env = S.Env([0.3] + [0.35, 0.41, 0.38][:w.n - 1], ktm=ktm,
                        ccm={(0, 1): 0, (1, 2): 3, (2, 3): 4})
            params = dict(S.DEFAULTS, min_key_change_prob=lo, max_no_key_change_prob=hi)
            judge(c, w, env, params, f, [pt, layout, "key thresholds", lo, hi, ktm])
    # answers that lie exactly on a threshold are admitted
    for lo, hi in [(0.25, 0.25), (0.5, 0.5), (0.25, 0.5)]:
        for ktm in itertools.product((0.25, 0.5), repeat=4):
            env = S.Env([0.3] + [0.35, 0.41, 0.38][:w.n - 1], ktm=ktm, jitter=0.0,
                        ccm={(0, 1): 0, (1, 2): 3, (2, 3): 4})
            params = dict(S.DEFAULTS, min_key_change_prob=lo, max_no_key_change_prob=hi)
            judge(c, w, env, params, f, [pt, layout, "on the key thresholds", lo, hi, ktm])


def config_job(c, job):
    pt, layout, which = job
    c.section("model configurations")
    for red in ("none", "triad"):
        for inv in (True, False):
            reds, invs = ["none"] * 4, [True] * 4
            reds[which], invs[which] = red, inv
            for pb in (False, True) if which == 2 else (False,):
                w = S.World(pt, layout, pb, tuple(reds), tuple(invs))
                f = fixed_key(w)
                for ktm in ([0.3, 0.1, 0.5, 0.2], [0.4, 0.4, 0.06, 0.8]):
                    for ksm in ((0, 1), (3, 4))[0 if c.thorough else 1:]:
                        env = S.Env([0.3] + [0.35, 0.41, 0.38][:w.n - 1], ktm=ktm, ksm=ksm,
                                    ccm={(0, 1): 1, (1, 2): 3, (2, 3): 4, (0, 2): 2})
                        judge(c, w, env, S.DEFAULTS, f,
                              [pt, layout, "config", which, red, inv, pb, tuple(ktm), ksm])


def beam_job(c, job):
    pt, layout, hl = job
    c.section("small beams")
    w = S.World(pt, layout)
    f = fixed_key(w)
    for size in (1, 2, 3, 5, 9) if c.thorough else (1, 2, 5):
        for ktm in ([0.3, 0.1, 0.5, 0.2], [0.4, 0.4, 0.06, 0.8], [0.03] * 4)[:3 if c.thorough else 1]:
            for orders in itertools.product((0, 3, 4), repeat=3 if c.thorough else 2):
                env = S.Env([0.3] + [0.35, 0.41, 0.38, 0.33][:w.n - 1], ktm=ktm,
                            ccm=dict(zip(((0, 1), (1, 2), (0, 2)), orders)))
                params = dict(S.DEFAULTS, beam_size=size, hash_length=hl)
                judge(c, w, env, params, f, [pt, layout, "beam", size, "hash", hl, tuple(ktm), orders])


def tight_job(c, job):
    """Sure chords and unlikely changes, with room for few hypotheses: the kept ones are the best."""
    pt, layout, hl, size = job
    c.section("small beams, sure chords")
    w = S.World(pt, layout)
    f = fixed_key(w)
    levels = (0.06, 0.3, 0.44) if c.thorough else (0.06, 0.44)
    for combo in itertools.product(levels, repeat=w.n - 1):
        for ktm in ([0.3, 0.1, 0.5, 0.2], [0.03] * 4):
            for orders in itertools.product((0, 3), repeat=2):
                env = S.Env([0.3] + list(combo), ktm=ktm, ccm=dict(zip(((0, 1), (1, 2)), orders)),
                            ccm_p=(0.9, 0.06, 0.02))
                params = dict(S.DEFAULTS, beam_size=size, hash_length=hl, min_chord_change_prob=0.05)
                judge(c, w, env, params, f, [pt, layout, "tight", size, "hash", hl, combo, tuple(ktm), orders])


def own_job(c, job):
    """The key sequence model's favourite is not to change the key at all."""
    pt, layout = job
    c.section("changes to the same key")
    w = S.World(pt, layout)
    f = fixed_key(w)
    for own, mk, ktm in itertools.product((0.2, 0.4, 0.9), (1, 2, 3),
                                          ([0.3, 0.1, 0.5, 0.2], [0.8, 0.6, 0.9, 0.7])):
        env = S.Env([0.3] + [0.35, 0.41, 0.38][:w.n - 1], ktm=ktm, own=own,
                    ccm={(0, 1): 0, (1, 2): 3, (2, 3): 4})
        params = dict(S.DEFAULTS, max_key_branching_factor=mk)
        judge(c, w, env, params, f, [pt, layout, "own", own, mk, tuple(ktm)])


def initial_job(c, job):
    pt, layout, hl = job
    c.section("initial keys")
    w = S.World(pt, layout)
    f = S.Forces(w.n)
    for probs in itertools.product((0.1, 0.62), repeat=len(w.valid)):
        p = [0.3] * w.n
        for i, x in zip(w.valid, probs):
            p[i] = x
        for order in (0, 3, 4):
            env = S.Env(p, ktm=[0.03] * 4, ccm={(0, 1): order, (0, w.n): order})
            params = dict(S.DEFAULTS, max_chord_branching_factor=1, hash_length=hl)
            judge(c, w, env, params, f, [pt, layout, "initial", hl, probs, order])


def reuse_job(c, job):
    """A model gives every piece the result a fresh model would, whatever it was used for before."""
    pt, hl = job
    c.section("one model, several pieces")
    from harmonic_inference.models.joint_model import HarmonicInferenceModel

    names = ["three", "chordal", "two"]
    worlds = {n: S.World(pt, n) for n in names}
    params = dict(S.DEFAULTS, hash_length=hl)
    env = {n: S.Env([0.3] + [0.35, 0.41, 0.38][:worlds[n].n - 1], ktm=[0.3, 0.1, 0.5, 0.2])
           for n in names}
    variants = []
    for n in names:
        w = worlds[n]
        variants.append((n, "free", fixed_key(w)))
        variants.append((n, "forced chord", fixed_key(w, chords={(0, 1): w.cand_ids[1]})))
        variants.append((n, "forced change", fixed_key(w, chord_changes=[w.valid[0]])))
    if not c.thorough:
        variants = [v for v in variants if v[0] != "two"]
    variants.append(("three", "rejected", fixed_key(worlds["three"], chord_changes=[9])))
    variants.append(("three", "rejected key", S.Forces(3, keys={(0, 2): 0, (1, 3): 1})))

    for seq in itertools.product(range(len(variants)), repeat=2):
        log = {}
        first = worlds[variants[seq[0]][0]]
        current = {}

        # one set of networks that answers for whichever piece is current
        def build():
            m = {}
            models = {n: worlds[n].models(env[n], log) for n in names}
            base = models[variants[seq[0]][0]]
            for k in base:
                if k == "icm":
                    m[k] = base[k]
                    continue
                obj = base[k]

                def fwd(*a, _k=k, **kws):
                    return type(obj).__call__ and models[current["n"]][_k].__dict__["_scripted"](*a, **kws)
                m[k] = obj
            for n in names:
                for k in models[n]:
                    if k != "icm":
                        models[n][k]._scripted = models[n][k].forward
            for k in m:
                if k != "icm":
                    m[k].forward = (lambda *a, _k=k, **kws: models[current["n"]][_k]._scripted(*a, **kws))
            return m
        model = HarmonicInferenceModel(build(), **params)
        for v in seq:
            n, kind, f = variants[v]
            current["n"] = n
            log.clear()
            got = core.call(model.get_harmony, worlds[n].piece(), **f.kwargs())
            case = [pt, hl, [variants[x][:2] for x in seq], n, kind]
            if kind.startswith("rejected"):
                c.raises(got, Exception, "a contradictory request", case)
                continue
            judge(c, worlds[n], env[n], params, f, case, result=(got, dict(log), model))


def body(c):
    core.setup_imports(stubs=True)
    import harmonic_inference.models.joint_model  # noqa: F401

    jobs = []
    for pt in ("TPC", "MIDI"):
        for layout in ("three", "chordal", "start", "four") + (("five",) if c.thorough else ()):
            for hl in (None, 2) + ((1, 3) if c.thorough else ()):
                for first in LEVELS:
                    jobs.append((ctm_job, (pt, layout, hl, first)))
        for first in (0, 3, 4):
            jobs.append((ccm_job, (pt, "three", first)))
        for layout in ("three",) + (("chordal", "four") if c.thorough else ()):
            for k in KTM_LEVELS:
                jobs.append((key_job, (pt, layout, k)))
        for layout in ("three", "chordal") if c.thorough else ("chordal",):
            for pb in (False, True):
                jobs.append((csm_job, (pt, layout, pb)))
            for mc in (1, 2, 3):
                jobs.append((param_job, (pt, layout, mc)))
            jobs.append((threshold_job, (pt, layout)))
            for which in range(4):
                jobs.append((config_job, (pt, layout, which)))
        for layout in ("three", "four"):
            for hl in (None, 1, 2, 5) if c.thorough else (None, 2):
                jobs.append((beam_job, (pt, layout, hl)))
        for size in (1, 2, 3, 4, 6) if c.thorough else (1, 2, 4):
            for hl in (None, 2):
                if c.thorough or pt == "TPC":
                    jobs.append((tight_job, (pt, "four", hl, size)))
        jobs.append((own_job, (pt, "three")))
        for layout in ("one", "block", "two", "three"):
            jobs.append((initial_job, (pt, layout, None)))
            jobs.append((initial_job, (pt, layout, 5)))
        for hl in (None, 2):
            jobs.append((reuse_job, (pt, hl)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    c = core.Check("C20", RULE, {
        "pieces": "1-4 (5) inputs, with simultaneous and overlapping notes, both pitch types",
        "answers": "complete tables: 3 probability classes per input; 3 preference orders per range; 3 key "
                   "change levels per history class; 3 key orders; 3 chord-sequence preferences"},
        ["the networks' forward passes are replaced by the enumerated answers (torch is not installed); "
         "probabilities lie strictly between 0 and 1"])
    return core.run(c, body)
