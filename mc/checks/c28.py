"""C28 networks: answers depend on the item alone; losses and accuracies count the labelled positions."""
import itertools
import math

from mc import core, repo, theory as T
from mc.checks import c25
from mc.core import Raised, call

RULE = ("every ordered batch of up to 3 sequences of length 1-3 (and unusable empty ones) with every padding "
        "through the real forward passes: each item's answers must be those it gets alone; every split of "
        "every sequence into steps with the hidden states handed on must give the answers of the whole; "
        "changing any one input must change exactly the answers that may depend on it; every list of small "
        "labelled pieces under every batch size through the training, validation and evaluation code: "
        "losses and accuracies must be the means over the labelled positions, computed one item at a time")

SMALL = dict(embed_dim=5, lstm_hidden_dim=3, hidden_dim=4)
KINDS = {"ChordTransitionDataset": "ctm", "ChordClassificationDataset": "ccm", "ChordSequenceDataset": "csm",
         "KeyTransitionDataset": "ktm", "KeySequenceDataset": "ksm"}


def make(kind, pt, cfg, layers):
    import harmonic_inference.models.chord_classifier_models as ccm
    import harmonic_inference.models.chord_sequence_models as csm
    import harmonic_inference.models.chord_transition_models as ctm
    import harmonic_inference.models.key_sequence_models as ksm
    import harmonic_inference.models.key_transition_models as ktm
    from harmonic_inference.data.data_types import PieceType

    PT, CT, KM = repo.enums()
    p = PT[pt]
    tri = repo.real_reduction(dict(T.TRIAD_OF), CT)
    red = {k: tri if v == "triad" else None for k, v in cfg.items() if "reduction" in k}
    dims = dict(SMALL, lstm_layers=layers)
    if kind == "ctm":
        return ctm.SimpleChordTransitionModel(PieceType.SCORE, p, **dims)
    if kind == "ccm":
        dims.pop("embed_dim")
        return ccm.SimpleChordClassifier(PieceType.SCORE, p, p, reduction=red["reduction"],
                                         use_inversions=cfg["use_inversions"],
                                         transposition_range=cfg["transposition_range"], **dims)
    if kind == "csm" and cfg["pitch_based"]:
        return csm.PitchBasedChordSequenceModel(p, p, p, input_reduction=red["input_reduction"],
                                                use_input_inversions=cfg["use_inversions_input"], **dims)
    if kind == "csm":
        return csm.SimpleChordSequenceModel(p, p, p, input_reduction=red["input_reduction"],
                                            output_reduction=red["output_reduction"],
                                            use_input_inversions=cfg["use_inversions_input"],
                                            use_output_inversions=cfg["use_inversions_output"], **dims)
    if kind == "ktm":
        return ktm.SimpleKeyTransitionModel(p, p, use_inversions=cfg["use_inversions"],
                                            reduction=red["reduction"], **dims)
    return ksm.SimpleKeySequenceModel(p, p, p, use_inversions=cfg["use_inversions"],
                                      reduction=red["reduction"], **dims)


def width(kind, pt):
    """Length of one input vector."""
    rows = {"ctm": "note", "ccm": "note"}.get(kind)
    w = c25.World()
    d = c25.pieces_of(pt, (1,), c25.CHORDS[pt][:1], c25.KEYS[pt][:1])[0]
    name = {v: k for k, v in KINDS.items()}[kind]
    ref, cfgs = c25.KIND[name]
    if kind == "ksm":
        name = "KeyTransitionDataset"
        ref, cfgs = c25.KIND[name]
    del rows
    return len(ref(w, pt, [d], cfgs[0])[0]["inputs"][0])


def vector(n, salt):
    """A vector of n zeros, ones and some fractions; never all zeros."""
    return [1.0 if i == salt % n or (i * 7 + salt * 3) % 5 == 0 else ((i + salt) % 3) * 0.25
            for i in range(n)]


def outputs(kind, got):
    """-> (answers, hidden states)"""
    if kind in ("ctm", "ccm"):
        return got, None
    return got


def sequence_answers(kind):
    return kind in ("ctm", "csm", "ktm")


def alone(np, torch, model, kind, rows):
    """The answers one item gets on its own, as lists."""
    got = call(model, torch.tensor([rows]), torch.tensor([len(rows)]))
    if isinstance(got, Raised):
        return got
    out, hid = outputs(kind, got)
    return np.asarray(out)[0].tolist(), None if hid is None else [np.asarray(h)[:, 0].tolist() for h in hid]


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def batch_job(c, job):
    kind, pt, pb, layers = job
    c.section("batches: " + kind)
    import numpy as np
    import torch

    cfg = first_cfg(kind, pb)
    model = call(make, kind, pt, cfg, layers)
    c.expect(not isinstance(model, Raised), lambda: "making the model: %r" % (model,), list(job))
    n = width(kind, pt)
    pool = [[vector(n, 5 * j + i) for i in range(k)] for j, k in enumerate((1, 2, 2, 3))]
    if c.thorough:
        pool.append([vector(n, 31 + i) for i in range(4)])
    single = [alone(np, torch, model, kind, x) for x in pool]
    for i, s in enumerate(single):
        c.expect(not isinstance(s, Raised), lambda: "a batch of one: %r" % (s,), list(job) + [i])
        c.state(kind, pt, pb, layers, i)
    ids = list(range(len(pool))) + ([-1] if kind == "ccm" else [])      # -1: an unusable item
    for size in (1, 2, 3):
        for pick in itertools.product(ids, repeat=size):
            if all(i < 0 for i in pick):
                continue
            for extra, junk in ((0, False), (1, False), (2, True)):
                longest = max(len(pool[i]) for i in pick if i >= 0) + extra
                data, lengths = [], []
                for k, i in enumerate(pick):
                    rows = pool[i] if i >= 0 else []
                    fill = [vector(n, 90 + k + x) if junk else [0.0] * n for x in range(longest - len(rows))]
                    data.append(rows + fill)
                    lengths.append(len(rows) if i >= 0 else -1)
                case = list(job) + [pick, extra, junk]
                got = call(model, torch.tensor(data), torch.tensor(lengths))
                c.step()
                c.expect(not isinstance(got, Raised), lambda: "the network failed: %r" % (got,), case)
                out, hid = outputs(kind, got)
                out = np.asarray(out)
                c.expect(len(out) == size, lambda: "%d answers for %d items" % (len(out), size), case)
                for k, i in enumerate(pick):
                    if i < 0:
                        continue
                    want, wh = single[i]
                    ans = out[k].tolist()
                    if sequence_answers(kind):
                        ans = ans[:len(pool[i])]
                    c.expect(same(ans, want), lambda: "item %d of the batch got %s, alone it gets %s"
                             % (k, short(ans), short(want)), case)
                    if hid is not None:
                        c.expect(same([np.asarray(h)[:, k].tolist() for h in hid], wh),
                                 lambda: "the hidden states of item %d depend on the batch" % k, case)
                c.trace(case, (kind, pick))
    # which answers may depend on which inputs
    for i, rows in enumerate(pool):
        for j in range(len(rows)):
            other = [list(r) for r in rows]
            other[j] = vector(n, 77 + j)
            got = alone(np, torch, model, kind, other)
            c.step()
            case = list(job) + ["changed input", i, j]
            c.expect(not isinstance(got, Raised), "the network failed: %r" % (got,), case)
            if not sequence_answers(kind):
                c.expect(not same(got[0], single[i][0]), "input %d does not matter" % j, case)
                continue
            for t in range(len(rows)):
                diff = not same([got[0][t]], [single[i][0][t]])
                want = True if kind == "ctm" else t >= j
                c.expect(diff == want, "answer %d %s on input %d" % (t, "depends" if diff else
                                                                     "does not depend", j), case)
            c.trace(case, (kind, i, j))


def short(x):
    return repr(x)[:120]


def first_cfg(kind, pb=False):
    name = {v: k for k, v in KINDS.items()}[kind]
    for cfg in c25.KIND[name][1]:
        if cfg.get("pitch_based", False) == pb:
            return cfg


def step_job(c, job):
    """Handing hidden states on: any split of a sequence gives what the whole gives."""
    kind, pt, pb, layers = job
    c.section("steps: " + kind)
    import numpy as np
    import torch

    model = call(make, kind, pt, first_cfg(kind, pb), layers)
    c.expect(not isinstance(model, Raised), lambda: "making the model: %r" % (model,), list(job))
    n = width(kind, pt)
    size = 4 if c.thorough else 3
    pool = [[vector(n, 7 * j + i) for i in range(size)] for j in range(3)]
    whole = [alone(np, torch, model, kind, x) for x in pool]
    zero = call(model.init_hidden, 1)
    c.expect(not isinstance(zero, Raised), lambda: "no initial hidden states: %r" % (zero,), list(job))
    zero = [np.asarray(z)[:, 0] for z in zero]
    for cut in itertools.product((False, True), repeat=size - 1):
        if kind != "ksm" and not all(cut):
            continue              # one step at a time
        cuts = [0] + [i + 1 for i, x in enumerate(cut) if x] + [size]
        for pick in [p for r in (1, 2, 3) for p in itertools.permutations(range(3), r)]:
            state = {i: zero for i in pick}
            case = list(job) + [cuts, pick]
            seen = {i: [] for i in pick}
            for a, b in zip(cuts, cuts[1:]):
                rows = [pool[i][a:b] + ([vector(n, 60 + i)] if kind == "ksm" else []) for i in pick]
                batch = {"inputs": torch.tensor(rows), "input_lengths": torch.tensor([b - a] * len(pick)),
                         "targets": torch.tensor([0] * len(pick)),
                         "hidden_states": tuple(torch.tensor([state[i][s] for i in pick]) for s in (0, 1))}
                got = call(model.get_output if kind == "ksm" else model.run_one_step, batch)
                c.step()
                c.expect(not isinstance(got, Raised), lambda: "a step failed: %r" % (got,), case)
                out, hid = got
                for k, i in enumerate(pick):
                    state[i] = [np.asarray(h)[:, k] for h in hid]
                    if kind == "ksm":
                        seen[i] = np.asarray(out)[k].tolist()
                    else:
                        seen[i] += np.asarray(out)[k].tolist()
            for i in pick:
                c.expect(same(seen[i], whole[i][0]), lambda: "item %d step by step: %s, whole: %s"
                         % (i, short(seen[i]), short(whole[i][0])), case)
                c.expect(same([x.tolist() for x in state[i]], whole[i][1]),
                         lambda: "item %d: the hidden states after the steps differ" % i, case)
            c.state(kind, pt, pb, layers, cuts, pick)
            c.trace(case, (kind, cuts))


# ---- losses ------------------------------------------------------------------------------------
def positions(kind, cfg, item, answer):
    """[(loss, right, parts)] of every labelled position of an item; parts: how many things are counted."""
    def bce(p, t):
        return -math.log(p if t else 1 - p)

    def soft(row):
        top = max(row)
        z = sum(math.exp(x - top) for x in row)
        return [x - top - math.log(z) for x in row]

    tg = item["targets"]
    if kind == "ksm":
        return [(-answer[tg], max(range(len(answer)), key=lambda i: answer[i]) == tg, 1)]
    if kind == "ccm":
        if tg < 0:
            return []
        logs = soft(answer)
        return [(-logs[tg], max(range(len(logs)), key=lambda i: logs[i]) == tg, 1)]
    if kind == "ctm" or kind == "ktm":
        return [(bce(p, t), (p > 0.5) == (t == 1), 1) for p, t in zip(answer, tg) if t != -100]
    out = []
    for i in range(item["input_lengths"] - 1):
        if item["inputs"][i + 1][-1] == 1:
            continue                    # a key change
        if cfg["pitch_based"]:
            for p, t in zip(answer[i], tg[i + 1]):
                out.append((bce(p, t), (p > 0.5) == (t == 1), 1))
        else:
            row = answer[i]
            out.append((-row[tg[i + 1]], max(range(len(row)), key=lambda x: row[x]) == tg[i + 1], 1))
    return out


def value(x):
    return float(x) if x is not None else None


def loss_job(c, job):
    name, pt, lists, cfg_ids, layers = job
    kind = KINDS[name]
    c.section("losses: " + kind)
    import numpy as np
    import torch
    from torch.utils.data import DataLoader

    w = c25.World()
    ref, cfgs = c25.KIND[name]
    for ci in cfg_ids:
        cfg = cfgs[ci]
        model = call(make, kind, pt, cfg, layers)
        c.expect(not isinstance(model, Raised), lambda: "making the model: %r" % (model,), [name, pt, cfg])
        cache = {}
        for descs in lists:
            case = [name, pt, cfg, [d[2] for d in descs]]
            try:
                want = ref(w, pt, descs, cfg)
            except (KeyError, AssertionError):
                continue
            made = call(lambda: getattr(w.ds, name)([w.piece(pt, d) for d in descs],
                                                    **model.get_dataset_kwargs()))
            c.expect(not isinstance(made, Raised), lambda: "making the dataset: %r" % (made,), case)
            if len(want) == 0 or len(made) == 0:
                continue
            scores = []
            for k, item in enumerate(want):
                if isinstance(item, tuple):
                    # either is right: follow the dataset
                    item = next(x for x in item if x["targets"] == int(made[k]["targets"]))
                if not item["inputs"]:
                    scores.append([])
                    continue
                key = repr(item["inputs"])
                if key not in cache:
                    cache[key] = alone(np, torch, model, kind, item["inputs"])
                    c.expect(not isinstance(cache[key], Raised),
                             lambda: "the network failed: %r" % (cache[key],), case)
                scores.append(positions(kind, cfg, item, cache[key][0]))
            everything = [x for s in scores for x in s]
            for size in (1, 2, 3):
                if size > 1 and size > len(want):
                    continue
                start = 0
                for batch in DataLoader(made, batch_size=size):
                    rows = [x for s in scores[start:start + size] for x in s]
                    start += size
                    tell = case + ["batches of", size, "from", start - size]
                    check_means(c, rows, call(model.training_step, copy(torch, batch), 0), None, "training", tell)
                    model.__dict__.pop("logged", None)
                    got = call(model.validation_step, copy(torch, batch), 0)
                    c.expect(not isinstance(got, Raised), lambda: "validation failed: %r" % (got,), tell)
                    log = model.__dict__.get("logged", {})
                    check_means(c, rows, log.get("val_loss"), log.get("val_acc"), "validation", tell)
                if everything:
                    made.valid_batch_size = size
                    got = call(model.evaluate, made)
                    tell = case + ["evaluated in batches of", size]
                    c.step()
                    c.expect(not isinstance(got, Raised), lambda: "evaluation failed: %r" % (got,), tell)
                    check_means(c, everything, got.get("loss"), got.get("acc"), "evaluation", tell)
                c.state(repr(case), size)
                c.trace(case + [size], (name, len(everything), round(sum(x[0] for x in everything), 6)))


def copy(torch, x):
    if isinstance(x, dict):
        return {k: copy(torch, v) for k, v in x.items()}
    return torch.tensor(x)


def check_means(c, rows, loss, acc, what, case):
    c.step()
    c.expect(not isinstance(loss, Raised), lambda: "%s failed: %r" % (what, loss), case)
    if not rows:
        return                       # nothing to learn from: any value
    n = len(rows)
    want = sum(x[0] for x in rows) / n
    c.expect(loss is not None and core.close(value(loss), want, 1e-6),
             lambda: "%s loss: got %r, expected %r (mean over %d positions)" % (what, loss, want, n), case)
    if what != "training":
        right = 100.0 * sum(1 for x in rows if x[1]) / n
        c.expect(acc is not None and core.close(value(acc), right, 1e-6),
                 lambda: "%s accuracy: got %r, expected %r" % (what, acc, right), case)


def body(c):
    core.setup_imports(stubs=True)
    import harmonic_inference.models.joint_model  # noqa: F401

    jobs = []
    for pt in ("TPC", "MIDI"):
        for layers in (1, 2):
            for kind in ("ctm", "ccm", "csm", "ktm", "ksm"):
                for pb in (False, True) if kind == "csm" else (False,):
                    jobs.append((batch_job, (kind, pt, pb, layers)))
                    if kind in ("csm", "ktm", "ksm"):
                        jobs.append((step_job, (kind, pt, pb, layers)))
        chords, keys = c25.CHORDS[pt], c25.KEYS[pt]
        base = c25.pieces_of(pt, (1, 2), chords[:2], keys[:2]) + c25.pieces_of(pt, (3,), chords[:2], keys[:2])[:8]
        some = c25.pieces_of(pt, (1,), chords[1:2], keys[:1]) + c25.pieces_of(pt, (2,), chords[1:3], keys[:2])[:4] \
            + c25.pieces_of(pt, (3,), chords[:2], keys[:2])[1:4]
        if pt == "TPC":
            # a target with the lowest pitch a pitch-based model knows
            low = (1, "MINOR", 0)
        else:
            low = (0, "MINOR", 1)
        some.append(c25.pieces_of(pt, (2,), [chords[1], low], keys[:1])[0])
        if c.thorough:
            lists = [[d] for d in base] + [list(x) for x in itertools.product(some, repeat=2)] \
                + [list(x) for x in itertools.product([some[i] for i in (0, 2, 3, 5, 6, -1)], repeat=3)]
        else:
            few = [some[0], some[2], some[6], some[-1]]
            lists = [[d] for d in some] + [list(x) for x in itertools.product(few, repeat=2)] \
                + [list(x) for x in itertools.permutations(few, 3)]
        for name in KINDS:
            cfgs = c25.KIND[name][1]
            ids = [i for i, x in enumerate(cfgs)
                   if not x.get("pitch_based") or (x["output_reduction"] is None and x["use_inversions_output"])]
            if name == "ChordSequenceDataset" and not c.thorough:
                ids = [i for i in ids if cfgs[i]["input_reduction"] is None and cfgs[i]["use_inversions_input"]]
            if name == "ChordClassificationDataset" and not c.thorough:
                ids = [0, 1, 6, 11]
            for i in ids:
                for k in range(4):
                    jobs.append((loss_job, (name, pt, lists[k::4], [i], 1)))
    core.parallel(c, lambda sub, job: job[0](sub, job[1]), jobs)


def main():
    c = core.Check("C28", RULE, {
        "batches": "all ordered batches of up to 3 of 4 (5) sequences of length 1-3 (4), padding 0-2, LSTM "
                   "layers 1-2, both pitch types",
        "losses": "all small pieces (1-3 chords), pairs (triples) of them, batch sizes 1-3, every model "
                  "configuration"},
        ["torch is not installed: layers, packing and losses are numpy stand-ins with fixed generic weights; "
         "dropout is off, no gradients are taken"])
    return core.run(c, body)
