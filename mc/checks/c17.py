"""C17 beams: every operation history of the plain and the hashed beam."""
import itertools

from mc import core
from mc.core import Raised, call

RULE = ("every sequence of additions (all scores x hashes, forced or not) and emptyings up to the depth, "
        "for every beam size, replayed on the real beam; a monitor checks each step against the "
        "definition of a (hashed) beam: contents before -> contents after, return value, membership "
        "prediction, best state")


def make(State, score, h, hashed):
    return State(chord=h, key=0, log_prob=float(score), hash_length=1 if hashed else None)


def contents(beam):
    return list(beam)


def step(c, State, beam, op, hashed, size, case):
    """Apply op to the real beam; check it as a transition of the reference."""
    if op == "empty":
        got = call(beam.empty)
        c.step()
        c.expect(not isinstance(got, Raised), "emptying a beam raised %r" % (got,), case)
        c.expect(len(beam) == 0 and contents(beam) == [] and beam.get_top_state() is None,
                 "a beam is empty after it has been emptied", case)
        return "empty"
    score, h, force = op
    s = make(State, score, h, hashed)
    before = contents(beam)
    low = min((x.log_prob for x in before), default=None)
    room = len(before) < size
    globally = room or low < s.log_prob
    rival = [x for x in before if x.chord == h] if hashed else []
    fits = globally and (not rival or rival[0].log_prob < s.log_prob)
    got = call(beam.fits_in_beam, s, check_hash=False)
    c.expect(not isinstance(got, Raised) and bool(got) == globally,
             "whether a state fits by size and score: got %r, expected %r" % (got, globally), case)
    got = call(beam.fits_in_beam, s)
    c.expect(not isinstance(got, Raised) and bool(got) == fits,
             "whether a state fits: got %r, expected %r" % (got, fits), case)
    got = call(beam.add, s, force=force)
    c.step(3)
    c.expect(not isinstance(got, Raised), "adding a state raised %r" % (got,), case)
    after = contents(beam)
    added = any(x is s for x in after)
    c.expect(bool(got) == added, "the result says whether the state is in the beam", case)
    kept = [x for x in before if any(x is y for y in after)]
    lost = [x for x in before if not any(x is y for y in after)]
    c.expect(len(after) == len(kept) + added and len(beam) == len(after),
             "the beam holds only states that were added, each once", case)
    if rival:
        want = rival[0].log_prob < s.log_prob
        c.expect(added == want and lost == (rival if want else []),
                 "of two states with the same hash exactly the better one stays", case)
    elif force or room:
        c.expect(added and not lost, "a state that has room is added and replaces nothing", case)
    else:
        want = low < s.log_prob
        c.expect(added == want, "a full beam takes a state exactly if it beats the worst", case)
        c.expect((len(lost) == 1 and lost[0].log_prob == low) if want else not lost,
                 "a full beam drops exactly its worst state", case)
    if hashed:
        c.expect(len({x.chord for x in after}) == len(after), "hashes are distinct", case)
    top = beam.get_top_state()
    c.expect(top is not None and top.log_prob == max(x.log_prob for x in after) and
             any(top is x for x in after), "the top state is the best state of the beam", case)
    # the public heap head is the worst state of the beam (the search prunes with it)
    return tuple(sorted((x.log_prob, x.chord) for x in after)), bool(got)


def work(c, job):
    core.setup_imports()
    from harmonic_inference.utils.beam_search_utils import Beam, HashedBeam, State

    kind, size, ops, depth, first = job
    hashed = kind.startswith("hashed")
    c.section(kind)
    cls = HashedBeam if hashed else Beam

    def explore(path):
        beam = cls(size)
        for op in path[:-1]:
            if op == "empty":
                beam.empty()
            else:
                beam.add(make(State, op[0], op[1], hashed), force=op[2])
        out = step(c, State, beam, path[-1], hashed, size, {"kind": kind, "size": size, "ops": path})
        if len(path) == depth:
            c.trace({"size": size, "ops": path, "contents": out}, (size, out))
        else:
            for op in ops:
                explore(path + [op])
        c.state(size, out if out == "empty" else out[0])

    explore([first])


def partitions(n):
    """Every way to give n states equal or different hashes (restricted growth strings)."""
    out = [[]]
    for _ in range(n):
        out = [p + [h] for p in out for h in range(max(p, default=-1) + 2)]
    return out


def orders(n, ties):
    """Every order of n scores (with ties: every weak order)."""
    if not ties:
        return [list(p) for p in itertools.permutations(range(n))]
    return [list(p) for p in itertools.product(range(n), repeat=n) if set(p) == set(range(max(p) + 1))]


def histories(c, job):
    """Complete up to renaming of hashes and of scores: every order of the scores x every partition."""
    core.setup_imports()
    from harmonic_inference.utils.beam_search_utils import HashedBeam, State

    size, n, ties, forced, hashes = job
    c.section("hashed orders")
    for order in orders(n, ties):
        for f in forced:
            ops = [(s, h, i == f) for i, (s, h) in enumerate(zip(order, hashes))]
            beam = HashedBeam(size)
            for i, op in enumerate(ops):
                out = step(c, State, beam, op, True, size, {"size": size, "ops": ops, "step": i})
            c.trace({"size": size, "ops": ops, "contents": out}, (size, out))
    c.state(size, n, tuple(hashes), ties)


def body(c):
    core.setup_imports()
    import harmonic_inference.utils.beam_search_utils  # noqa: F401

    jobs = []
    d = 1 if c.thorough else 0
    plain = [(s, 0, False) for s in range(4)]
    forced = [(s, 0, f) for s in range(3) for f in (False, True)] + ["empty"]
    h4 = [(s, h, False) for s in range(4) for h in range(3)]
    hf = [(s, h, f) for s in range(2) for h in range(2) for f in (False, True)] + ["empty"]
    deep = [(s, h, False) for s in range(3) for h in range(2)]
    for size in (1, 2, 3):
        for kind, ops, depth in (("plain", plain, 6 + d), ("plain forced", forced, 5 + d),
                                 ("hashed", h4, 4 + d), ("hashed forced", hf, 5 + d),
                                 ("hashed deep", deep, 6 + d)):
            jobs += [(kind, size, ops, depth, op) for op in ops]
    core.parallel(c, work, jobs)
    d = 1 if c.thorough else 0
    jobs = []
    for size in (2, 3, 4) if c.thorough else (2, 3):
        jobs += [(size, 6 + d, False, [None], h) for h in partitions(6 + d)]
        jobs += [(size, 5 + d, True, [None], h) for h in partitions(5 + d)]
        jobs += [(size, 5, False, range(5), h) for h in partitions(5)]
    core.parallel(c, histories, jobs)


def main():
    c = core.Check("C17", RULE, {
        "plain": "4 scores, depth 6 (thorough 7); with force and empty: 3 scores, depth 5 (6)",
        "hashed": "4 scores x 3 hashes depth 4 (5); 3 x 2 depth 6 (7); with force and empty 2 x 2 depth 5 "
                  "(6); every score order x hash partition of 6 (7) additions, with ties or one forced of 5",
        "beam sizes": "1..3"},
        ["ties: either of several equally bad states may be dropped"])
    return core.run(c, body)
