"""Write small MusicXML scores as text."""
from fractions import Fraction as F

DIV = 24   # divisions per quarter note


def score(parts):
    """parts: [[measure]]; measure: dict(number, ts=None, ending=None, voices=[[event]]).

    event: (pitches, quarters, ties): pitches [] is a rest, (letter, alter, octave) each; ties a subset
    of "so" (starts, stops).  ending: (number, "start"/"stop"/"both") of a repeat bracket.
    """
    out = ['<?xml version="1.0" encoding="UTF-8"?>',
           '<score-partwise version="3.1"><part-list>']
    for i in range(len(parts)):
        out.append('<score-part id="P%d"><part-name>P%d</part-name></score-part>' % (i, i))
    out.append("</part-list>")
    for i, part in enumerate(parts):
        out.append('<part id="P%d">' % i)
        for k, m in enumerate(part):
            out.append('<measure number="%s">' % m["number"])
            end = m.get("ending")
            if end and end[1] in ("start", "both"):
                out.append('<barline location="left"><ending number="%s" type="start"/></barline>' % end[0])
            attrs = ["<divisions>%d</divisions>" % DIV] if k == 0 else []
            if m.get("ts"):
                num, den = m["ts"].split("/")
                attrs.append("<time><beats>%s</beats><beat-type>%s</beat-type></time>" % (num, den))
            if attrs:
                out.append("<attributes>%s</attributes>" % "".join(attrs))
            back = 0
            for v, events in enumerate(m["voices"]):
                if back:
                    out.append("<backup><duration>%d</duration></backup>" % back)
                back = 0
                for pitches, quarters, ties in events:
                    dur = F(quarters) * DIV
                    assert dur.denominator == 1
                    back += int(dur)
                    for j, p in enumerate(pitches or [None]):
                        out.append(note(p, int(dur), v + 1, ties, j > 0))
            if end and end[1] in ("stop", "both"):
                out.append('<barline location="right"><ending number="%s" type="stop"/>%s</barline>' % (
                    end[0], '<repeat direction="backward"/>' if str(end[0]) == "1" else ""))
            out.append("</measure>")
        out.append("</part>")
    out.append("</score-partwise>")
    return "\n".join(out)


def note(p, dur, voice, ties, in_chord):
    out = ["<note>"]
    if in_chord:
        out.append("<chord/>")
    if p is None:
        out.append("<rest/>")
    else:
        letter, alter, octave = p
        out.append("<pitch><step>%s</step>%s<octave>%d</octave></pitch>" % (
            letter, "<alter>%d</alter>" % alter if alter else "", octave))
    out.append("<duration>%d</duration>" % dur)
    if p is not None:
        for c, t in (("o", "stop"), ("s", "start")):
            if c in ties:
                out.append('<tie type="%s"/>' % t)
    out.append("<voice>%d</voice>" % voice)
    if dur % 3:         # part of a triplet
        out.append("<type>%s</type><time-modification><actual-notes>3</actual-notes><normal-notes>2"
                   "</normal-notes></time-modification>" % {8: "eighth", 16: "quarter", 32: "half"}[dur])
    if p is not None and ties:
        out.append("<notations>%s</notations>" % "".join(
            '<tied type="%s"/>' % t for c, t in (("o", "stop"), ("s", "start")) if c in ties))
    out.append("</note>")
    return "".join(out)
