"""P27: key text of any spelling is understood as the key it names."""
import itertools
from core import Bad, ensure

LETTER = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
ACC = {"": 0, "#": 1, "b": -1, "\u266f": 1, "\u266d": -1}
MAJOR = ["", "maj", " maj", " Maj", "Maj", " major", "major", " Major", "MAJOR", " MAJ", "  major "]
MINOR = ["m", " m", "min", " min", " Min", "Min", " minor", "minor", " Minor", "MINOR", " MIN", "  minor "]
CANON = set(NAMES) | {n + "m" for n in NAMES}
# circle of fifths, written independently: number 8 is C major / A minor, each step up a fifth adds one
def wheel(tonic, minor):
    maj = (tonic + 3) % 12 if minor else tonic
    for k in range(12):
        if (k * 7) % 12 == maj:
            return "%d%s" % ((8 + k - 1) % 12 + 1, "A" if minor else "B")


def name(t, minor):
    return NAMES[t % 12] + ("m" if minor else "")


def p27(ctx):
    from validation import _keys as K
    from validation.tools import prepare_test_batch as PB
    from validation.analysis import analyze_key_errors as AK
    ctx.rule("all letter x accidental x mode-word x case x padding spellings, all numerical codes, all short strings over an alphabet of key characters and look-alikes; nontrivial = the text names a key")
    nk = K.normalize_key

    # every spelling of every key
    def cases():
        for l in LETTER:
            for a in ACC:
                for minor, words in ((False, MAJOR), (True, MINOR)):
                    for w in words:
                        for case in range(3):
                            for pad in ("", " ", "\t"):
                                l2 = l if case != 1 else l.lower()
                                a2 = a.upper() if case == 2 else a
                                w2 = w if case != 2 or w.strip() in ("", "m") else w.upper()
                                yield (l, a, minor, pad + l2 + a2 + w2 + pad)

    def spell(c):
        l, a, minor, text = c
        t = (LETTER[l] + ACC[a]) % 12
        got = nk(text)
        ensure(got == name(t, minor), "normalize_key gives %r, expected %r" % (got, name(t, minor)))
        ensure(nk(got) == got, "normalising twice changes %r" % got)
        km = K.key_name_to_echonest_key_mode(text)
        ensure(km == (t, 0 if minor else 1), "key/mode %r, expected %r" % (km, (t, 0 if minor else 1)))
        tm = AK.key_to_tonic_mode(text)
        ensure(tuple(tm) == (t, 0 if minor else 1), "tonic/mode of the error analysis: %r" % (tm,))
        return (got, True, 4)

    ctx.sweep("spellings", cases(), spell, lambda c: repr(c[3]))

    # numerical notation, and the round trip through key/mode numbers
    def codes():
        for t in range(12):
            for minor in (False, True):
                for form in range(6):
                    w = wheel(t, minor)
                    yield (t, minor, [w, w.lower(), " " + w, w + " ", w[:-1] + " " + w[-1], " " + w.lower() + "\n"][form])

    def code(c):
        t, minor, text = c
        got = nk(text)
        ensure(got == name(t, minor), "normalize_key gives %r, expected %r" % (got, name(t, minor)))
        n = PB.echonest_key_mode_to_name(t, 0 if minor else 1)
        ensure(n == name(t, minor), "key number %d mode %d is named %r" % (t, 0 if minor else 1, n))
        ensure(K.key_name_to_echonest_key_mode(n) == (t, 0 if minor else 1), "number to name to number is not the identity")
        return (got, True, 3)

    ctx.sweep("numerical", codes(), code, lambda c: repr(c[2]))

    def outside():
        for k in range(-14, 27):
            for m in (-1, 0, 1, 2, 3):
                yield (k, m)

    def out(c):
        k, m = c
        n = PB.echonest_key_mode_to_name(k, m)
        want = name(k, m == 0) if 0 <= k < 12 and m in (0, 1) else ""
        ensure(n == want, "key %d mode %d is named %r, expected %r" % (k, m, n, want))
        return (n, want != "", 1)

    ctx.sweep("key_mode_numbers", outside(), out)

    # the library's own output is understood: the names the analyser prints
    lib = []
    try:
        import os, subprocess
        exe = os.path.join(ctx.root, "target", "release", "mc")
        o = subprocess.run([exe, "--keys"], capture_output=True, text=True, timeout=60).stdout
        lib = [tuple(l.split("\t")) for l in o.splitlines()]
    except Exception:
        pass
    if len(lib) != 24:
        raise RuntimeError("the library did not list its keys")

    def libcase(c):
        t, minor, nm, num = int(c[0]), c[1] == "1", c[2], c[3]
        ensure(nk(nm) == name(t, minor), "the library's name %r is read as %r" % (nm, nk(nm)))
        return (nm, True, 1)

    ctx.sweep("library_names", lib, libcase)

    # all short strings: no crash, only canonical keys or nothing, idempotent, codes outside 1..12 are no keys
    alpha = "AbBCg#m12 \u266d\u00b2x" if not ctx.thorough else "AabBCEGgm#129 0\u266d\u266f\u00b2\u0663xoj-."
    depth = 4

    def words():
        for d in range(depth + 1):
            for w in itertools.product(alpha, repeat=d):
                yield "".join(w)

    def word(s):
        got = nk(s)
        ensure(got == "" or got in CANON, "%r is not a canonical key" % got)
        ensure(nk(got) == got, "normalising twice changes %r to %r" % (got, nk(got)))
        km = K.key_name_to_echonest_key_mode(s)
        ensure((km is None) == (got == ""), "key/mode %r for %r" % (km, got))
        if km is not None:
            ensure(got == name(km[0], km[1] == 0), "key/mode %r for %r" % (km, got))
        c = s.strip().replace(" ", "").upper()
        if c and c[0] not in "ABCDEFG\u266d" and not (c[0] in "123456789" and c[-1] in "AB"):
            ensure(got == "", "%r is read as the key %r" % (s, got))
        return (got, got != "", 3)

    ctx.sweep("all_short_strings", words(), word)

    # circle-of-fifths distance is the graph distance on the circle of fifths
    def dist():
        return [(a, b) for a in range(12) for b in range(12)]

    def cof(c):
        a, b = c
        up = next(k for k in range(12) if (a + 7 * k) % 12 == b)
        want = min(up, 12 - up)
        got = AK.circle_of_fifths_distance(a, b)
        ensure(got == want, "distance %d, expected %d" % (got, want))
        return (got, True, 1)

    ctx.sweep("fifths_distance", dist(), cof)

    def none(c):
        ensure(tuple(AK.key_to_tonic_mode(c)) == (None, None), "%r has a tonic" % (c,))
        return (c, False, 1)

    ctx.sweep("no_key", ["", "N/A", "?", "8", "13A", "0B", "o", "none"], none)
