"""C05 Roman numerals, applied keys, and chord alterations."""
from mc import core, repo, theory as T
from mc.core import call

RULE = ("every numeral/degree with -3..3 accidentals in both modes and both pitch types; every interval "
        "back to a numeral; every chain of up to 3 applied roots from every "
        "tonic; every alteration string of up to 2 (quick) / 3 (thorough) alterations on every chord "
        "degree of every key in range")


def degree_interval(num, acc, mode, pt):
    k = 0 if pt == "TPC" else 1
    return T.SCALE[mode][num - 1][k] + acc * (7 if pt == "TPC" else 1)


def parse_change(ch):
    prefix = ""
    while ch[0] in "v^+":
        prefix, ch = prefix + ch[0], ch[1:]
    acc = 0
    while ch[0] in "b#":
        acc += 1 if ch[0] == "#" else -1
        ch = ch[1:]
    return prefix, acc, int(ch)


LET = "CDEFGAB"


def ref_alterations(root, t, changes, tonic, mode):
    """[(removed pitch or '', added string)] in order, by letter arithmetic."""
    scale = {T.spell(tonic + iv[0])[0]: tonic + iv[0] for iv in T.SCALE[mode]}
    rl = LET.index(T.spell(root)[0])
    mem = [root + iv[0] for iv in T.CHORDS[t]]
    out = []
    for ch in changes:
        prefix, acc, n = parse_change(ch)
        added = scale[LET[(rl + n - 1) % 7]] + 7 * acc
        added = ("+" if n >= 8 else "") + str(added)
        removed = ""
        if prefix == "+":
            removed = ""
        elif prefix == "^" or (prefix == "" and n in (2, 4, 6) and acc > 0):
            if prefix == "" and n == 6 and acc == 1 and len(mem) == 3:
                removed = ""
            elif n // 2 >= len(mem):
                return None
            else:
                removed = str(mem[n // 2])
        elif prefix == "v" or (prefix == "" and n in (2, 4, 6)):
            removed = str(mem[n // 2 - 1])
        out.append((removed, added))
    return out


def several(c, got, ref, case):
    """Several tones in one place (two additions, say): every one is reported."""
    tones = sorted(a for _, a in ref)
    have = sorted(got.values()) if isinstance(got, dict) else got
    c.step()
    c.state("several", *case)
    if have == tones:
        return
    # the documented result maps a removed tone to one added tone, and so keeps only the last of them
    lost = isinstance(got, dict) and got == dict(ref)
    c.fail("alterations %s: got %s, expected the tones %s" % (case, got, tones), case,
           key="several tones for one" if lost else None)


def body(c):
    core.setup_imports()
    import harmonic_inference.utils.harmonic_utils as hu

    PT, CT, KM = repo.enums()
    c.section("numerals")
    for pt, mode in core.product(PT, KM):
        for n in range(1, 8):
            for acc in range(-3, 4):
                a = "#" * acc if acc >= 0 else "b" * -acc
                want = degree_interval(n, acc, mode, pt)
                for s in (T.ROMAN[n - 1], T.ROMAN[n - 1].lower(), str(n)):
                    case = [a + s, mode, pt]
                    c.equal(call(hu.get_interval_from_numeral, a + s, KM[mode], PT[pt]), want,
                            "numeral %s" % case, case)
                    c.equal(call(hu.get_interval_from_scale_degree, a + s, True, KM[mode], PT[pt]),
                            want, "degree %s" % case, case)
                    c.equal(call(hu.get_interval_from_scale_degree, s + a, False, KM[mode], PT[pt]),
                            want, "degree with suffix %s" % case, case)
                    c.state(*case)
                    c.trace(case + [want], (pt, want))
        rng = range(-30, 31) if pt == "TPC" else range(-24, 25)
        for iv in rng:
            got = call(hu.get_scale_degree_from_interval, iv, KM[mode], PT[pt])
            case = [iv, mode, pt]
            c.step()
            c.expect(isinstance(got, str), "numeral of interval %s: %r" % (case, got), case)
            back = call(hu.get_interval_from_numeral, got, KM[mode], PT[pt])
            if pt == "MIDI":
                c.equal(back % 12, iv % 12, "interval %s -> %s -> interval" % (case, got), case)
                c.expect("b" not in got, "MIDI numerals use sharps only: %s %s" % (case, got), case)
            else:
                c.equal(back, iv, "interval %s -> %s -> interval" % (case, got), case)
                c.expect(not ("b" in got and "#" in got), "mixed accidentals %s" % got, case)
            # the simplest spelling
            best = min(abs(acc) for n in range(1, 8) for acc in range(-7, 8)
                       if (degree_interval(n, acc, mode, pt) == iv if pt == "TPC"
                           else (acc >= 0 and degree_interval(n, acc, mode, pt) % 12 == iv % 12)))
            c.expect(got.count("#") + got.count("b") == best, "numeral %s of interval %s is not the "
                     "simplest" % (got, case), case)
            c.state("back", *case)
            c.trace(case + [got], got)

    c.section("applied keys")
    toks = [("b" * -a if a < 0 else "#" * a, n, low) for a in (-1, 0, 1) for n in range(7)
            for low in (False, True)]
    depth = 3
    small = [x for x in toks if not (x[0] and x[1] not in (1, 2, 5, 6))]
    for pt in PT:
        tonics = range(T.NUM[pt])
        for k in range(1, depth + 1):
            alphabet = toks if k == 1 else (small if k == 2 else small[::3] if c.thorough else
                                            [("", 4, False), ("", 1, True), ("b", 5, False), ("", 3, True)])
            for chain in core.product(alphabet, repeat=k):
                s = "/".join(a + (T.ROMAN[n].lower() if low else T.ROMAN[n]) for a, n, low in chain)
                for mode in KM:
                    for tonic in (tonics if k == 1 else ((9, 15, 22) if pt == "TPC" else (0, 7))):
                        t, m = tonic, mode
                        for a, n, low in reversed(chain):
                            iv = degree_interval(n + 1, a.count("#") - a.count("b"), m, pt)
                            t = None if t is None else T.transpose(t, iv, pt)
                            m = "MINOR" if low else "MAJOR"
                        got = call(hu.decode_relative_keys, s, tonic, KM[mode], PT[pt])
                        case = [s, tonic, mode, pt]
                        c.state(*case)
                        if t is None:
                            c.raises(got, ValueError, "applied key %s" % case, case)
                        else:
                            c.equal(tuple(got) if isinstance(got, tuple) else got, (t, KM[m]),
                                    "applied key %s" % case, case)
                        c.trace(case + [repr(got)], (pt, t, m))

    c.section("alterations")
    alpha = ["4", "2", "6", "b2", "b6", "#2", "#4", "#6", "9", "b9", "11", "13", "#11", "+2", "+b6",
             "+9", "v4", "v2", "^2", "^4", "+#4", "b4", "7", "#7", "14", "##4", "bb6"]
    singles = [[a] for a in alpha]
    pairs = [[a, b] for a in alpha for b in alpha]
    third = alpha if c.thorough else ["4", "b6", "9", "#11", "+2", "^2", "v4", "14"]
    for chs in core.product(third, repeat=3):
        got = call(hu.split_changes_into_list, "".join(chs))
        c.equal(got, list(chs), "splitting the alterations %s" % (chs,), chs)
        c.state("split", tuple(chs))
    triples = [list(x) for x in core.product(["4", "b6", "#2", "9", "+b6", "13", "^2", "v4"], repeat=3)]
    for chs in [[]] + singles + pairs:
        got = call(hu.split_changes_into_list, "".join(chs))
        c.equal(got, chs, "splitting the alterations %s" % chs, chs)
        c.state("split", tuple(chs))
    for mode in KM:
        for tonic in ((12, 15, 18) if not c.thorough else range(11, 21)):
            for n in range(1, 8):
                for acc in (0,) if not c.thorough else (-1, 0, 1):
                    root = tonic + degree_interval(n, acc, mode, "TPC")
                    for t in T.TYPES:
                        lists = singles + (pairs if (n, tonic) in ((5, 15), (2, 15)) else [])
                        if c.thorough and (n, tonic) == (5, 15):
                            lists = lists + triples
                        for chs in lists:
                            ref = ref_alterations(root, t, chs, tonic, mode)
                            if ref is None:
                                continue      # e.g. '^6' on a triad: no pitch above to replace
                            keys = [r for r, _ in ref]
                            mem = [root + iv[0] for iv in T.CHORDS[t]]
                            if any(not 0 <= p < 35 for p in mem):
                                continue
                            if len(set(keys)) != len(keys):
                                several(c, call(hu.get_added_and_removed_pitches, root, CT[t],
                                                "".join(chs), tonic, KM[mode]), ref,
                                        [chs, t, root, tonic, mode])
                                continue
                            got = call(hu.get_added_and_removed_pitches, root, CT[t], "".join(chs),
                                       tonic, KM[mode])
                            case = [chs, t, root, tonic, mode]
                            c.equal(got, dict(ref), "alterations %s" % case, case)
                            c.state(*case)
                            c.trace(case + [ref], tuple(ref))


def main():
    c = core.Check("C05", RULE, {"accidentals": "-3..3", "applied chain": "3 (a smaller alphabet for chains of 3)",
                                 "alterations per chord": "2 quick, 3 thorough (27-symbol alphabet)"},
                   ["alteration strings that add two tones, or replace one tone by two, are a known "
                    "finding: the returned mapping keeps only the last of them"])
    return core.run(c, body)
