"""Monitors of the command line tools: files in, files and exit codes out."""
import concurrent.futures as cf
import hashlib
import os
import random
import shutil
import struct
import subprocess
import time
import zlib

INTENTS = {"rgb": 7, "rgba": 8, "bgr": 10, "bgra": 11}


def build_cli(here, target, env):
    env["CARGO_TARGET_DIR"] = os.path.join(target, "cli")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--release"], cwd=os.path.join(here, "cli"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
    return os.path.join(target, "cli", "release") if r.returncode == 0 else None


def png_write(path, w, h, ch, px, rng):
    raw = bytearray()
    prev = bytes(w * ch)
    for y in range(h):
        row = px[y * w * ch:(y + 1) * w * ch]
        f = rng.choice((0, 0, 1, 2, 3, 4))
        raw.append(f)
        for i, x in enumerate(row):
            a = row[i - ch] if i >= ch else 0
            b = prev[i]
            c = prev[i - ch] if i >= ch else 0
            p = (0, a, b, (a + b) // 2, paeth(a, b, c))[f]
            raw.append((x - p) & 255)
        prev = row

    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    with open(path, "wb") as o:
        o.write(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 2 if ch == 3 else 6, 0, 0, 0)) +
                chunk(b"IDAT", zlib.compress(bytes(raw), 1)) + chunk(b"IEND", b""))


def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return a if pa <= pb and pa <= pc else b if pb <= pc else c


def png_read(path):
    d = open(path, "rb").read()
    assert d[:8] == b"\x89PNG\r\n\x1a\n", "not a PNG file"
    i, z, w, h, ch = 8, b"", 0, 0, 0
    while i < len(d):
        n, t = struct.unpack(">I4s", d[i:i + 8])
        body = d[i + 8:i + 8 + n]
        if t == b"IHDR":
            w, h, depth, colour, _, _, lace = struct.unpack(">IIBBBBB", body)
            assert depth == 8 and colour in (2, 6) and lace == 0, "PNG of an unexpected kind"
            ch = 3 if colour == 2 else 4
        if t == b"IDAT":
            z += body
        i += 12 + n
    raw = zlib.decompress(z)
    out = bytearray()
    prev = bytes(w * ch)
    k = 0
    for _ in range(h):
        f = raw[k]
        row = bytearray(raw[k + 1:k + 1 + w * ch])
        k += 1 + w * ch
        if f:
            for i in range(len(row)):
                a = row[i - ch] if i >= ch else 0
                b = prev[i]
                c = prev[i - ch] if i >= ch else 0
                row[i] = (row[i] + (a, a, b, (a + b) // 2, paeth(a, b, c))[f]) & 255
        out += row
        prev = row
    return w, h, ch, bytes(out)


def pixels(rng, w, h, ch, kind):
    n = w * h * ch
    if kind == 0:
        return rng.randbytes(n)
    if kind == 1:
        v = rng.randbytes(ch)
        return v * (w * h)
    if kind == 2:
        a, b = rng.randrange(1, 9), rng.randrange(1, 9)
        return bytes(((x * a + y * b + c * 40) >> 1) & 255 for y in range(h) for x in range(w) for c in range(ch))
    if kind == 3:
        o = bytearray(rng.randbytes(ch) * (w * h))
        for _ in range(rng.randrange(1, 9)):
            x0, y0 = rng.randrange(w), rng.randrange(h)
            x1, y1 = rng.randrange(x0, w) + 1, rng.randrange(y0, h) + 1
            v = rng.randbytes(ch)
            for y in range(y0, y1):
                o[(y * w + x0) * ch:(y * w + x1) * ch] = v * (x1 - x0)
        return bytes(o)
    o = bytearray(n)
    for i in range(n):
        o[i] = (128 + (o[i - ch] - 128) * 9 // 10 + rng.randrange(-9, 10)) & 255 if i >= ch else rng.randrange(256)
    return bytes(o)


def convert(px, have, want, swap):
    """what a pixel list of `have` channels is as `want` channels, in BGR order when swapped"""
    o = bytearray(len(px) // have * want)
    for k in range(3):
        o[(2 - k if swap else k)::want] = px[k::have]
    if want == 4:
        o[3::4] = px[3::4] if have == 4 else b"\xff" * (len(px) // have)
    return bytes(o)


def sh(args, limit=240):
    env = {k: v for k, v in os.environ.items() if not k.startswith("RUST")}
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=env)
    return r.returncode, (r.stdout + r.stderr).decode(errors="replace")


class Bad(Exception):
    pass


def one(check, gv, bins, index, res):
    rng = random.Random("%d/%d" % (check.seed, index))
    size = rng.choice((6, 16, 40, 40, 90, 90) + ((160, 300) if check.thorough else (160,)))
    w, h = rng.randrange(1, size + 1), rng.randrange(1, size + 1)
    ch = rng.choice((3, 4))
    kind = rng.choice((0, 1, 2, 2, 3, 3, 4, 4))
    px = pixels(rng, w, h, ch, kind)
    q = 1024 if rng.random() < 0.55 else rng.choice((1, 2, 60, 300, 512, 900, 1023, rng.randrange(1, 1025)))
    opts = []
    fl, en, block, intent = "linear", "turbo", 7, None
    if rng.random() < 0.8:
        fl = rng.choice(("linear", "cubic"))
        opts += [rng.choice(("-f", "--filter")), fl]
    if rng.random() < 0.8:
        en = rng.choice(("turbo", "fast", "contextual"))
        opts += [rng.choice(("-e", "--encoder")), en]
    if rng.random() < 0.6:
        block = rng.choice((2, 2, 3, 4, 5, 6, 8, 12, 30))
        opts += ["--block-size", str(block)]
    if rng.random() < 0.6:
        intent = rng.choice(sorted(INTENTS))
        opts += [rng.choice(("-i", "--intent")), intent]
    if q != 1024 or rng.random() < 0.3:
        opts += [rng.choice(("-q", "--quality")), str(q)]
    want_ch = ch if intent is None else 3 if len(intent) == 3 else 4
    swap = intent is not None and intent[0] == "b"
    code = INTENTS[intent] if intent else INTENTS["rgb" if ch == 3 else "rgba"]
    raw = convert(px, ch, want_ch, swap)
    t = os.path.join(check.tmp, "c%d" % index)
    os.mkdir(t)
    f = lambda n: os.path.join(t, n)
    res["detail"] = "%dx%d, %d channels, kind %d, options %s, pixels %s" % (w, h, ch, kind, " ".join(opts), px[:600].hex())
    png_write(f("in.png"), w, h, ch, px, rng)
    open(f("raw"), "wb").write(raw)
    gvp = [str(x) for x in (w, h, want_ch, q, block, {"linear": 0, "cubic": 1}[fl], {"turbo": 0, "fast": 1, "contextual": 2}[en], code)]
    rc_lib, _ = sh([gv, "tool", "compress"] + gvp + [str(2 * len(raw)), f("raw"), f("lib.gfwx")])
    rc, out = sh([os.path.join(bins, "compress"), f("in.png"), f("out.gfwx")] + opts)
    res["evals"] += 1
    if rc_lib not in (0, 3):
        raise RuntimeError("compress_simple did not return")
    if rc_lib == 3 and rc != 0:
        res["counts"]["images_compress_does_not_accept"] = 1
        return
    if rc_lib == 3:
        # it found more room than the library was given here: only the round trip can be judged
        res["counts"]["accepted_with_more_room"] = 1
    elif rc != 0:
        raise Bad("compress failed where compress_simple succeeds: " + out[-300:])
    elif open(f("lib.gfwx"), "rb").read() != open(f("out.gfwx"), "rb").read():
        raise Bad("compress wrote other bytes than compress_simple")
    levels = max(w, h).bit_length()
    d = 0
    if rng.random() < 0.5:
        d = rng.randrange(0, levels + 2) if rng.random() < 0.9 else rng.choice((31, 32, 33, 63, 64, 65, 66, 128, 200, 254, 255))
    for d in {0, d}:
        dn = f("out%d.png" % d)
        rc, out = sh([os.path.join(bins, "decompress"), f("out.gfwx"), dn] + ([] if d == 0 and rng.random() < 0.7 else [rng.choice(("-d", "--downsampling")), str(d)]))
        res["evals"] += 1
        if rc != 0:
            raise Bad("decompress -d %d failed: %s" % (d, out[-300:]))
        rc_m, out = sh([gv, "tool", "lowpass"] + gvp + [str(d), f("raw"), f("low")])
        if rc_m != 0:
            raise RuntimeError("model: " + out[-300:])
        try:
            w2, h2, c2, got = png_read(dn)
        except (AssertionError, struct.error, zlib.error, IndexError) as x:
            raise Bad("decompress -d %d did not write a readable RGB or RGBA PNG file: %r" % (d, x))
        if (w2, h2) != ((w + (1 << d) - 1) >> d, (h + (1 << d) - 1) >> d):
            raise Bad("decompress -d %d wrote %dx%d pixels for an image of %dx%d" % (d, w2, h2, w, h))
        if c2 != want_ch:
            raise Bad("decompress wrote %d channels instead of %d" % (c2, want_ch))
        want = convert(open(f("low"), "rb").read(), want_ch, want_ch, swap)
        if got != want:
            raise Bad("decompress -d %d wrote other pixels than the codec's" % d)
        if d == 0 and q == 1024:
            if got != convert(px, ch, want_ch, False):
                raise Bad("the pixels did not survive compress and decompress")
            res["counts"]["lossless_round_trips"] = 1
            rc, out = sh([os.path.join(bins, "compare"), f("in.png"), dn])
            res["evals"] += 1
            if (rc == 0) != (ch == want_ch):
                raise Bad("compare gave %d for the image and its round trip (%d and %d channels)" % (rc, ch, want_ch))
        elif d:
            res["counts"]["downsampled"] = 1
    # compare: one changed sample, and other sizes
    px2 = bytearray(px)
    at = rng.choice((0, len(px) - 1, rng.randrange(len(px))))
    px2[at] = (px2[at] + rng.choice((1, 255, 128))) & 255
    png_write(f("b.png"), w, h, ch, bytes(px2), rng)
    png_write(f("c.png"), w, h, ch, px, rng)
    png_write(f("e.png"), w, h + 1, ch, px + px[-w * ch:], rng)
    for a, b, same in (("in", "b", False), ("b", "in", False), ("in", "c", True), ("in", "e", False), ("e", "in", False)):
        if rng.random() < 0.5:
            rc, _ = sh([os.path.join(bins, "compare"), f(a + ".png"), f(b + ".png")])
            res["evals"] += 1
            res["counts"]["compared_files"] = res["counts"].get("compared_files", 0) + 1
            if (rc == 0) != same:
                raise Bad("compare gave %d for images that are %s" % (rc, "equal" if same else "different"))
    if px != px[:ch] * (w * h):
        res["hash"] = int.from_bytes(hashlib.sha256(repr((w, h, opts)).encode() + px).digest()[:8], "little")
    res["sample"] = "%dx%d RGB%s, %s: same bytes as compress_simple, right pixels" % (w, h, "A" if ch == 4 else "", " ".join(opts))


def run(check, gv, bins):
    end = time.time() + check.secs
    stop = []

    def worker(k):
        done, index = [], k
        while time.time() < end and not stop and index < 100000:
            res = {"index": index, "evals": 0, "counts": {}, "detail": ""}
            try:
                one(check, gv, bins, index, res)
            except Bad as x:
                res["bad"] = str(x)
                stop.append(1)
            except subprocess.TimeoutExpired as x:
                res["inconclusive"] = "case %d: %s" % (index, x)
            except Exception as x:  # noqa: BLE001
                res["error"] = "case %d: %r" % (index, x)
            done.append(res)
            shutil.rmtree(os.path.join(check.tmp, "c%d" % index), ignore_errors=True)
            index += 8
        return done
    with cf.ThreadPoolExecutor(8) as ex:
        for done in ex.map(worker, range(8)):
            for r in done:
                check.evals += r["evals"]
                for k, v in r["counts"].items():
                    check.counts[k] = check.counts.get(k, 0) + v
                if "hash" in r:
                    check.distinct.add(r["hash"])
                if "sample" in r and len(check.samples) < 8:
                    check.samples.append(r["sample"])
                if "inconclusive" in r:
                    check.inconclusive.append(r["inconclusive"])
                if "error" in r:
                    check.harness_errors.append(r["error"])
                if "bad" in r:
                    check.violation(r["bad"], detail=r["detail"], variant="cli", case=r["index"])
    check.counts["images"] = check.counts.get("images", 0)
    check.counts["images"] = sum(1 for _ in check.distinct)
