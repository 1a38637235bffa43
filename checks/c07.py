"""Built-in matchers: equality of the values decides, and the message is bounded and tells name, actual and expected value."""
import struct
from common import *

INTS = {"char": (8, 1), "u_char": (8, 0), "short": (16, 1), "u_short": (16, 0), "int": (32, 1), "u_int": (32, 0), "long": (64, 1), "u_long": (64, 0),
        "long_long": (64, 1), "u_long_long": (64, 0), "int128": (128, 1), "uint128": (128, 0), "pointer": (64, 0)}
FLT = {"float": 4, "double": 8, "long_double": 10}
NAME = "GHIJKLMNOQRSTUVWXYZ_"      # no hexadecimal digit, nothing of the fixed text


def ival(r, bits):
    x = r.random()
    m = (1 << bits) - 1
    if x < 0.35:
        return r.choice([0, 1, m, m >> 1, (m >> 1) + 1, 10, 127 & m, 128 & m, 255 & m, 256 & m, 0xffff & m, 1 << (bits // 2), (1 << (bits // 2)) - 1])
    if x < 0.5:
        return (1 << r.randrange(bits))
    return r.getrandbits(bits)


def fval(r, n):
    if n == 10:
        k = r.randrange(6)
        if k == 0:
            return b"\0" * 10
        if k == 1:
            return b"\0" * 9 + b"\x80"
        if k == 2:
            return bytes.fromhex("000000000000" + "0080ff7f")   # infinity
        if k == 3:
            return bytes.fromhex("000000000000" + "00c0ff7f")   # NaN
        e = 16383 + r.randint(-16000, 16000)
        return struct.pack("<QH", (1 << 63) | r.getrandbits(63), e | (0x8000 if r.random() < 0.5 else 0))
    k = r.randrange(8)
    f = {4: "<f", 8: "<d"}[n]
    if k == 0:
        return struct.pack(f, r.choice([0.0, -0.0, 1.0, -1.0, float("inf"), -float("inf"), float("nan")]))
    if k == 1:
        return struct.pack(f, r.randint(-1000, 1000) / 8)
    return bytes(r.getrandbits(8) for _ in range(n))


def cases(r, n):
    out = []
    for _ in range(n):
        nl = r.choice([0, 1, 3, 8, 8, 8, 20, 60, 120, 200, 240, 255, 256, 257, 400])
        name = "".join(r.choice(NAME) for _ in range(nl))
        x = r.random()
        if x < 0.55:
            t = r.choice(sorted(INTS))
            bits, sg = INTS[t]
            a = ival(r, bits)
            b = a if r.random() < 0.3 else a ^ (1 << r.randrange(bits)) if r.random() < 0.5 else ival(r, bits)
            k = bits // 8
            d = "*" if "128" not in t and r.random() < 0.4 else ""
            out.append((d + t, a.to_bytes(k, "little").hex(), b.to_bytes(k, "little").hex(), name, (a, b, bits, sg)))
        elif x < 0.8:
            t = r.choice(sorted(FLT))
            a = fval(r, FLT[t])
            b = a if r.random() < 0.35 else fval(r, FLT[t])
            if r.random() < 0.3:
                q = bytearray(a)
                q[r.randrange(len(q) - 2)] ^= 1 << r.randrange(8)
                b = bytes(q)
            d = "*" if r.random() < 0.4 else ""
            out.append((d + t, a.hex(), b.hex(), name, None))
        else:
            al = [b"abc", bytes(range(1, 256)), b"%snd", b"'\\\" "][r.randrange(4)]
            a = bytes(r.choice(al) for _ in range(r.choice([0, 1, 2, 5, 30, 100, 255, 256, 257, 1000, 5000])))
            y = r.random()
            b = a
            if y < 0.2 and a:
                q = bytearray(a)
                i = r.choice([0, len(q) - 1, r.randrange(len(q))])
                q[i] = q[i] % 255 + 1
                b = bytes(q)
            elif y < 0.35:
                b = a[:-1]
            elif y < 0.5:
                b = a + bytes([r.choice(al)])
            elif y < 0.7:
                b = bytes(r.choice(al) for _ in range(r.randrange(40)))
            out.append(("str", a.hex() or "-", b.hex() or "-", name, (a, b)))
    return out


def judge(chk, cs, res, files, tag):
    lines = res.out.splitlines()
    for c, line in zip(cs, lines):
        t, a, b, name, v = c
        if line == "END":
            break
        if line.startswith("CHANGED"):
            chk.violation("operand-changed:" + t, "the matcher changed a value it compares: %r -> %r" % (c, line), files=files)
            continue
        f = line.split()
        rc, same, term = int(f[0]), int(f[1]), int(f[2])
        chk.saw((t, same, len(name) > 255, len(a) > 512, a == b))
        if (rc == 0) != (same == 1):
            chk.violation("verdict:" + t, "cmp_%s(actual %s, expected %s) returned %d, the values are %s" % (t, a[:100], b[:100], rc, "equal" if same else "different"), files=files)
            continue
        if rc == 0:
            continue
        if not term:
            chk.violation("unterminated:" + t, "the message of cmp_%s is not terminated within EASYMOCK_MAX_CMP_ERR bytes (name of %d characters)" % (t, len(name)), files=files)
            continue
        msg = bytes.fromhex(f[3] if len(f) > 3 else "")
        if len(name) > 120:
            if not msg:
                chk.violation("no-message:" + t, "a mismatch without a message: %r" % (c,), files=files)
            continue
        if name.encode() not in msg:
            chk.violation("message-name:" + t, "message %r does not name %r" % (msg, name), files=files)
            continue
        bt = t.lstrip("*")
        rest = msg.split(name.encode(), 1)[1] if name else msg
        if bt in ("int", "u_int", "long", "u_long", "long_long", "u_long_long", "short", "u_short"):
            x, y, bits, sg = v
            if sg:
                x, y = [q - (1 << bits) if q >> (bits - 1) else q for q in (x, y)]
            nums = [int(q) for q in re.findall(rb"-?\d+", rest)]
            if nums != [x, y]:
                chk.violation("message-values:" + t, "message %r for actual %d, expected %d" % (msg, x, y), files=files)
        elif bt in ("int128", "uint128", "pointer"):
            x, y = v[0], v[1]
            nums = [int(q, 16) for q in re.findall(rb"'(?:0x)?([0-9a-f]+)'|\(nil\)", rest)] if b"nil" not in rest else None
            if nums is not None and nums != [x, y]:
                chk.violation("message-values:" + t, "message %r for actual %#x, expected %#x" % (msg, x, y), files=files)
        elif bt == "str" and len(v[0]) + len(v[1]) + len(name) < 150:
            i = rest.find(v[0])
            j = rest.find(v[1], i + len(v[0])) if i >= 0 else -1
            if j < 0:
                chk.violation("message-values:str", "message %r for actual %r, expected %r" % (msg, v[0], v[1]), files=files)
        chk.count("messages_read")
    if "END" not in res.out or res.rc:
        chk.violation("died:" + tag, "the matchers died on %r\n%s" % (cs[min(len(lines), len(cs) - 1)], res.err[-3000:]), files=files)


def check(chk):
    d = chk.dir("m")
    n = 400 if chk.thorough else 24
    per = 4000 if chk.thorough else 1500
    chk.rule = "pairs of values (boundaries, one-bit neighbours, random, NaN, signed zero, strings up to 5000) and names up to 400 characters; distinct by (type, equal, long name, long value)"
    chk.assumptions = ["float and char values are not looked for in the text of the message"]
    exes = []
    for cc in ("clang", "gcc"):
        fw = build.framework(chk, cc=cc, tag=cc)
        exe = os.path.join(d, "m_" + cc)
        r = run2([cc, "-std=gnu11", "-w", "-g", "-O1"] + mocks.CSAN[:1] + ["-fno-sanitize-recover=all", "-I" + FW + "/include", os.path.join(core.VERIF, "harness/matchers.c"), "-o", exe,
                  "-L" + fw, "-lEasyMockFramework", "-Wl,-rpath," + fw])
        if r.rc:
            chk.violation("matcher-missing:" + cc, "a program using every built-in matcher does not link\n" + r.err[-3000:])
            return
        exes.append(exe)
        x = os.path.join(d, "cpp_" + cc)
        r = run2([{"gcc": "g++", "clang": "clang++"}[cc], "-std=gnu++17", "-w", "-g", "-O1"] + mocks.CSAN[:1] + ["-fno-sanitize-recover=all", "-I" + FW + "/include", os.path.join(core.VERIF, "harness/cmpcpp.cpp"), "-o", x,
                  "-L" + fw, "-lEasyMockFramework", "-Wl,-rpath," + fw])
        if r.rc:
            chk.violation("cmp-template:" + cc, "EasyMock::cmp does not compile for standard types\n" + r.err[-3000:])
            continue
        res = run2([x, str(chk.seed), str(20000 if chk.thorough else 2000)], env=SAN_ENV)
        m = re.search(r"N (\d+) BAD (\d+)", res.out)
        if not m or res.rc or m.group(2) != "0":
            chk.violation("cmp-template", "exit %s\n%s\n%s" % (res.rc, res.out[-2000:], res.err[-2000:]))
        else:
            chk.saw("cmp-" + cc, int(m.group(1)))

    def one(k):
        cs = cases(rng_of(chk, "m", k), per)
        p = os.path.join(d, "c%d.txt" % k)
        body = "".join("%s %s %s %s\n" % (c[0], c[1], c[2], c[3].encode().hex() or "-") for c in cs)
        open(p, "w").write(body)
        res = run2([exes[k % 2], p], env=SAN_ENV, timeout=120)
        judge(chk, cs, res, {"cases.txt": body, "stderr.txt": res.err[-6000:]}, "run")
        os.unlink(p)
        if k == 0:
            chk.sample([c[:4] for c in cs[:5]])
    pmap(one, range(n))
