"""P28: reading tags: what was written is read back, damaged files give a prefix, nothing raises."""
import itertools, os, shutil, tempfile
from pathlib import Path
from core import Bad, ensure

FIELDS = {"TIT2": "title", "TPE1": "artist", "TALB": "album", "TCON": "genre", "TKEY": "key"}


def synch(n):
    return bytes([(n >> 21) & 127, (n >> 14) & 127, (n >> 7) & 127, n & 127])


def enc_text(e, t):
    return {0: lambda: t.encode("latin1"), 1: lambda: b"\xff\xfe" + t.encode("utf-16-le"), 2: lambda: t.encode("utf-16-be"),
            3: lambda: t.encode("utf-8"), 5: lambda: b"\xfe\xff" + t.encode("utf-16-be")}[e]()


def ebyte(e):
    return 1 if e == 5 else e


def term(e):
    return b"\x00\x00" if e in (1, 2, 5) else b"\x00"


def frame(ver, fid, payload, flags=0):
    n = len(payload)
    return fid.encode("latin1") + (synch(n) if ver == 4 else n.to_bytes(4, "big")) + bytes([flags, 0]) + payload


def text_frame(ver, fid, e, t, nul=False):
    return frame(ver, fid, bytes([ebyte(e)]) + enc_text(e, t) + (term(e) if nul else b""))


def txxx(ver, e, d, v, nul=False):
    return frame(ver, "TXXX", bytes([ebyte(e)]) + enc_text(e, d) + term(e) + enc_text(e, v) + (term(e) if nul else b""))


def tag(ver, frames, pad=0):
    body = b"".join(frames) + b"\x00" * pad
    return b"ID3" + bytes([ver, 0, 0]) + synch(len(body)) + body


def bpm_ref(s):
    """first number in the text, if positive"""
    i, n = 0, len(s)
    while i < n:
        j = i
        if s[j] in "+-" and j + 1 < n and s[j + 1] in "0123456789":
            j += 1
        if s[j] in "0123456789":
            k = j
            while k < n and s[k] in "0123456789":
                k += 1
            if k + 1 < n and s[k] == "." and s[k + 1] in "0123456789":
                k += 1
                while k < n and s[k] in "0123456789":
                    k += 1
            v = float(s[i:k])
            return v if v > 0 else None
        i += 1
    return None


class Model:
    """what a list of frames means"""
    def __init__(self):
        self.f = dict(title="", artist="", album="", genre="", bpm=None, key="")
        self.tx = []

    def text(self, fid, t):
        if fid == "TBPM":
            self.f["bpm"] = bpm_ref(t)
        elif fid in FIELDS:
            self.f[FIELDS[fid]] = t

    def user(self, d, v):
        if d:
            self.tx.append((d, v))
        l = d.lower()
        if l in ("initialkey", "initial key", "key") and v and not self.f["key"]:
            self.f["key"] = v
        if l in ("bpm", "tempo", "tbpm") and self.f["bpm"] is None:
            self.f["bpm"] = bpm_ref(v)


def p28(ctx):
    from validation import _id3 as I
    from validation.tools import run_validation as RV
    d = tempfile.mkdtemp(prefix="mc_tags_", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
    try:
        run(ctx, I, RV, Path(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx, I, RV, d):
    ctx.rule("tags of ID3v2.3/2.4 built from all sequences of frames over an alphabet in every text encoding, all truncation points and single-byte corruptions of such files, all short tempo strings; nontrivial = at least one known field present")
    ctx.assume("no unsynchronisation, extended header, compression or duplicated text frames in well-formed tags")
    f = d / "t.mp3"

    def read(b):
        f.write_bytes(b)
        return I.read_id3_text_fields(f)

    def same(got, m, what="fields"):
        for k, v in m.f.items():
            ensure(got.get(k) == v, "%s: %s is %r, expected %r" % (what, k, got.get(k), v))
        ensure([tuple(x) for x in got["raw"].get("TXXX", [])] == m.tx, "%s: user fields %r, expected %r" % (what, got["raw"].get("TXXX", []), m.tx))

    ENC = [0, 1, 2, 3, 5]
    VALUES = {"TIT2": "Ti tle", "TPE1": "Artist & Co", "TALB": "Al", "TCON": "House", "TKEY": "F#m", "TBPM": "128.5"}
    UNI = {0: "Caf\u00e9", 1: "\u266d\u30c6", 2: "\u266f\u0100", 3: "\u266d\u00e9", 5: "\u0101\u266d"}

    # every field x encoding x version x terminator x text
    def singles():
        for ver in (3, 4):
            for fid in VALUES:
                for e in ENC:
                    for nul in (False, True):
                        for t in ("a", "ab", "8A", "Am", "128", "140.25", "93 BPM", "128,5", "120/60", "Abm", "\u0100\u0001"[:1] if e else "z", UNI[e], "x" * 127, "y" * 128, "z" * 300, "-5", "0", "A" * 256):
                            for pad in (0, 7, 10, 24):
                                yield (ver, fid, e, nul, t, pad)

    def single(c):
        ver, fid, e, nul, t, pad = c
        m = Model()
        m.text(fid, t)
        got = read(tag(ver, [text_frame(ver, fid, e, t, nul)], pad) + b"\xff\xfbaudio")
        same(got, m)
        tk = RV.read_tag_bpm_key(f)
        ensure(tk["bpm_tag"] == m.f["bpm"] and tk["key_tag"] == m.f["key"], "tempo and key of the tag: %r" % tk)
        return (fid + t, True, 2)

    ctx.sweep("single_field", singles(), single, lambda c: "ID3v2.%d %s encoding %d%s %r padding %d" % (c[0], c[1], c[2], " terminated" if c[3] else "", c[4][:20], c[5]))

    def users():
        for ver in (3, 4):
            for e in ENC:
                for nul in (False, True):
                    for desc in ("key", "KEY", "Initial Key", "initialkey", "InitialKey", "bpm", "BPM", "tempo", "TBPM", "foo", "", "a", "\u0100"[:1] if e else "q", UNI[e], "y\u0100y\u0200z\u0300" if e else "qq"):
                        for v in ("8A", "Am", "F#m", "128", "99.5 bpm", "", "\u0200\u0100" if e else "w", "1"):
                            yield (ver, e, nul, desc, v)

    def user(c):
        ver, e, nul, desc, v = c
        m = Model()
        m.user(desc, v)
        m.text("TIT2", "after")
        got = read(tag(ver, [txxx(ver, e, desc, v, nul), text_frame(ver, "TIT2", 0, "after")]) + b"\xff\xfb")
        same(got, m)
        return (desc + v, True, 1)

    ctx.sweep("user_field", users(), user, lambda c: "ID3v2.%d encoding %d%s %r=%r" % (c[0], c[1], " terminated" if c[2] else "", c[3], c[4]))

    # all frame sequences
    A = [("TKEY", "Am"), ("TBPM", "128"), ("TBPM", "none"), ("TIT2", "T"), ("TCON", "G"), ("X", "initialkey", "5A"), ("X", "key", "7B"),
         ("X", "bpm", "90"), ("X", "tempo", "77"), ("X", "other", "1"), ("APIC", b"\x00" * 21), ("COMM", b"\x00engTKEY\x00x"), ("PRIV", b"\x01")]
    depth = 4 if ctx.thorough else 3

    def seqs():
        for ver in (3, 4):
            for k in range(depth + 1):
                for s in itertools.permutations(range(len(A)), k):
                    ids = [A[i][0] for i in s if A[i][0] != "X"]
                    if len(ids) == len(set(ids)):
                        yield (ver, s)

    def build(ver, s, e=3):
        fr, steps = [], []
        for i in s:
            a = A[i]
            if a[0] == "X":
                fr.append(txxx(ver, e, a[1], a[2]))
            elif isinstance(a[1], bytes):
                fr.append(frame(ver, a[0], a[1]))
            else:
                fr.append(text_frame(ver, a[0], e, a[1]))
        return fr

    def apply(m, i):
        a = A[i]
        if a[0] == "X":
            m.user(a[1], a[2])
        elif not isinstance(a[1], bytes):
            m.text(a[0], a[1])

    def seq(c):
        ver, s = c
        m = Model()
        for i in s:
            apply(m, i)
        got = read(tag(ver, build(ver, s), 16))
        same(got, m)
        ids = [x for x, _ in I.iter_id3v2_frames(*reversed(I.read_id3v2_tag_data(f)))]
        ensure(ids == [A[i][0] if A[i][0] != "X" else "TXXX" for i in s], "frames seen: %r" % ids)
        return (repr(m.f), bool(s), 2)

    ctx.sweep("frame_sequences", seqs(), seq, lambda c: "ID3v2.%d %s" % (c[0], [A[i][:2] for i in c[1]]))

    # torn files: cut at every byte
    long = [(3, 0, 5, 7, 10, 1), (1, 5, 4, 10, 0), (8, 6, 3, 11, 2, 12), (10, 0, 1, 3, 4)]

    def cuts():
        for ver in (3, 4):
            for e in (0, 1, 3):
                for s in long:
                    whole = tag(ver, build(ver, s, e), 5) + b"\xff\xfb\x90"
                    for n in range(len(whole) + 1):
                        yield (ver, e, s, n)

    def cut(c):
        ver, e, s, n = c
        fr = build(ver, s, e)
        whole = tag(ver, fr, 5) + b"\xff\xfb\x90"
        m, pos = Model(), 10
        for i, x in zip(s, fr):
            pos += len(x)
            if n >= 10 and pos <= n:
                apply(m, i)
        same(read(whole[:n]), m, "file cut after %d of %d bytes" % (n, len(whole)))
        return (repr(m.f), n > 10, 1)

    ctx.sweep("torn_file", cuts(), cut, lambda c: "ID3v2.%d encoding %d frames %s cut after %d bytes" % c)

    # corrupt every byte: an answer of the right shape, and frames before the damage survive
    vals = (0, 1, 2, 3, 4, 0x20, 0x7F, 0x80, 0xFE, 0xFF) if not ctx.thorough else range(256)

    def dam():
        for ver in (3, 4):
            for e in (0, 1):
                for s in long[:2]:
                    n = len(tag(ver, build(ver, s, e), 5))
                    for p in range(n):
                        for v in vals:
                            yield (ver, e, s, p, v)

    def damage(c):
        ver, e, s, p, v = c
        fr = build(ver, s, e)
        b = bytearray(tag(ver, fr, 5))
        b[p] = v
        got = read(bytes(b))
        ensure(set(got) == {"title", "artist", "album", "genre", "bpm", "key", "raw"}, "fields %r" % sorted(got))
        for k in ("title", "artist", "album", "genre", "key"):
            ensure(isinstance(got[k], str), "%s is %r" % (k, got[k]))
        ensure(got["bpm"] is None or got["bpm"] > 0, "tempo %r" % got["bpm"])
        if p >= 10:
            m, pos = Model(), 10
            for i, x in zip(s, fr):
                if pos + len(x) <= p:
                    apply(m, i)
                pos += len(x)
            for k in ("title", "genre"):
                if m.f[k]:
                    ensure(got[k] == m.f[k], "%s before the damage is %r" % (k, got[k]))
        elif p < 3 and v != b"ID3"[p]:
            same(got, Model(), "no tag header")
        return (repr(got)[:200], True, 1)

    ctx.sweep("damaged_byte", dam(), damage, lambda c: "ID3v2.%d encoding %d frames %s byte %d = %d" % c)

    # sizes over the 7-bit boundary
    def sizes():
        for ver in (3, 4):
            for n in list(range(1, 20)) + list(range(120, 140)) + list(range(250, 262)) + [16383, 16384, 16385, 65535, 65536, 70000, (1 << 21) - 1, 1 << 21, (1 << 21) + 5] + ([(1 << 24) + 1, 40000000] if ctx.thorough else []):
                yield (ver, n)

    def size(c):
        ver, n = c
        got = read(tag(ver, [frame(ver, "APIC", b"\x07" * n), text_frame(ver, "TKEY", 0, "Dm"), text_frame(ver, "TBPM", 0, "100")]))
        ensure(got["key"] == "Dm" and got["bpm"] == 100.0, "after a frame of %d bytes: key %r tempo %r" % (n, got["key"], got["bpm"]))
        return (n, True, 1)

    ctx.sweep("frame_sizes", sizes(), size)

    # status flags (preservation, read-only) do not change what a frame says
    def flagged():
        for ver in (3, 4):
            for fl in ((0, 0x80, 0x40, 0x20, 0xC0, 0xE0) if ver == 3 else (0, 0x40, 0x20, 0x10, 0x60, 0x70)):
                for fid in list(VALUES) + ["TXXX", "APIC"]:
                    for at in (0, 1):
                        yield (ver, fl, fid, at)

    def flag(c):
        ver, fl, fid, at = c
        m = Model()
        pay = b"\x00key\x007B" if fid == "TXXX" else b"\x01\x02" if fid == "APIC" else b"\x00" + VALUES[fid].encode()
        fr = [frame(ver, fid, pay, fl), text_frame(ver, "TPE2", 0, "other")]
        rest = [x for x in ("TIT2", "TBPM") if x != fid]
        if fid == "TXXX":
            m.user("key", "7B")
        elif fid != "APIC":
            m.text(fid, VALUES[fid])
        for x in rest:
            m.text(x, VALUES[x])
        more = [text_frame(ver, x, 3, VALUES[x]) for x in rest]
        same(read(tag(ver, fr + more if at == 0 else more + fr, 3)), m)
        return (c, True, 1)

    ctx.sweep("status_flags", flagged(), flag, lambda c: "ID3v2.%d flags %#x on %s at %d" % c)

    # tempo strings
    alpha = "019.-+ b," if ctx.thorough else "01.- b"
    dep = 6 if ctx.thorough else 5

    def nums():
        for k in range(dep + 1):
            for w in itertools.product(alpha, repeat=k):
                yield "".join(w)

    def num(s):
        got, want = I.parse_bpm(s), bpm_ref(s)
        ensure(got == want, "tempo %r, expected %r" % (got, want))
        return (want, want is not None, 1)

    ctx.sweep("tempo_text", nums(), num)

    def nofile(c):
        got = I.read_id3_text_fields(d / "missing.mp3") if c == 0 else read(b"") if c == 1 else read(b"\xff\xfb\x90\x64" * 9)
        same(got, Model(), "no tag")
        return (c, False, 1)

    ctx.sweep("no_tag", [0, 1, 2], nofile)
