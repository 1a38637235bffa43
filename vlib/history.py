"""Scripts of expect/call/check/init operations, and the reference model that judges what the driver observed.

The model is written from the documented behaviour only: the Nth call of a function since the last init uses the
Nth expectation recorded for it; the kth accepted call is matched against the kth recorded expectation when call
order is checked; every deviation is one error; check() succeeds exactly when there is none."""
import re
from collections import deque


class Oracle(Exception):
    pass


class Script:
    """builds a script while simulating the reference model; judge() then compares the driver's output"""

    def __init__(self, rng, metas, cpp=False):
        self.r, self.metas, self.cpp = rng, metas, cpp
        self.text, self.ops = [], []
        self.reset()
        self.order = True     # documented default
        self.stackon = False  # the driver switches it off first
        self.nstates = set()
        self.pnest = 0       # how often a matcher does another operation
        self.limit = 256     # EASYMOCK_MAX_MOCKED_CALL
        self.loaded = set()

    def reset(self):
        self.q = {}          # gid -> [expectation]
        self.n = {}          # gid -> calls so far
        self.fifo = deque()
        self.nexp = 0
        self.errs = 0        # errors accumulated since init
        self.reported = set()
        self.lock_order = False

    def op(self, line, **k):
        self.text.append(line)
        self.ops.append(k)

    # ---- operations
    def init(self):
        self.reset()
        self.op("I", k="I")

    def set_order(self, v):
        self.order = bool(v)
        self.op("O %d" % v, k="O")

    def stack(self, v):
        self.stackon = bool(v)
        self.op("S %d" % v, k="S")

    def geterr(self):
        self.op("G", k="G", total=self.errs)

    def bad_counts(self):
        return {g: (len(self.q.get(g, [])), self.n.get(g, 0)) for g in set(self.q) | set(self.n)
                if len(self.q.get(g, [])) != self.n.get(g, 0)}

    def check(self):
        b = self.bad_counts()
        fresh = {g: c for g, c in b.items() if (g, c) not in self.reported}
        self.op("K", k="K", rc=0 if (b or self.errs) else 1, bad=b, fresh=fresh)
        self.errs += len(b)
        self.reported |= set(b.items())

    def seed(self):
        return self.r.randrange(1 << 12) << 16

    def perturb(self, s):
        return (s & 0xffff0000) | (self.r.randrange(256) << 8) | self.r.randint(1, 255)

    def expect(self, gid, matchers=None, useout=None, inst=0):
        m = self.metas[gid]
        if len(self.q.get(gid, [])) >= (self.limit if not m.get("cpp") else 100000):
            return None
        e = {"fn": gid, "id": self.nexp, "ret": self.seed(), "inst": inst, "p": []}
        self.nexp += 1
        uo = m["anyout"] and self.r.random() < 0.6 if useout is None else (useout and m["anyout"])
        e["useout"] = bool(uo)
        for i, p in enumerate(m["params"]):
            mi = self.r.randrange(len(p["matchers"])) if matchers is None else matchers(p)
            if matchers is None and self.r.random() < 0.35 and len(p["matchers"]) > 3:
                mi = self.r.randrange(3, len(p["matchers"]))
            o = 1 if p["out"] and self.r.random() < 0.7 else 0
            e["p"].append((self.seed(), mi, o, self.seed()))
        self.q.setdefault(gid, []).append(e)
        self.fifo.append(gid)
        self.op("E %d %d %u %d %u %s" % (gid, e["id"], e["ret"], e["useout"], inst, " ".join("%d %d %d %d" % x for x in e["p"])), k="E")
        return e

    def nestable(self, gid):
        """the next call of the function runs a matcher of the driver"""
        m, q, n = self.metas[gid], self.q.get(gid, []), self.n.get(gid, 0)
        return n < len(q) and any(p["matchers"][x[1]][0] in "pfe" for p, x in zip(m["params"], q[n]["p"]))

    def nest(self, gid):
        """an operation which a matcher of a call does"""
        r = self.r
        self.op("N", k="N")
        x = r.random()
        # what the order of a call within a call is, is nowhere promised; outputs of both would meet in the same objects
        others = [g for g in range(len(self.metas)) if g != gid or not any(p["out"] or any(k == "d" for k, _ in p["matchers"]) for p in self.metas[g]["params"])]
        some = [g for g in others if self.n.get(g, 0) < len(self.q.get(g, []))]
        if x < 0.3 or (not self.order and not others) or (self.order and x < 0.75):
            self.expect(r.randrange(len(self.metas)) if r.random() < 0.5 else gid) or self.geterr()
        elif x < 0.83 and not self.order:
            self.call(r.choice(some if some and r.random() < 0.85 else others), 0.3, nested=True)
        elif x < 0.92:
            self.geterr()
        else:
            self.check()

    def call(self, gid, diff=0.25, inst=0, nest=None, nested=False):
        if nest is None:
            nest = not nested and self.r.random() < self.pnest and self.nestable(gid)
        m = self.metas[gid]
        n = self.n.get(gid, 0)
        self.n[gid] = n + 1
        q = self.q.get(gid, [])
        e = q[n] if n < len(q) else None
        seeds = []
        for i in range(m["np"]):
            if e:
                s = e["p"][i][0]
                x = self.r.random()
                if x < diff * 0.8:
                    s = self.perturb(s)
                elif x < diff:
                    s = self.seed()
            else:
                s = self.seed()
            seeds.append(s)
        if nest:
            self.nest(gid)
        o = {"k": "C", "gid": gid, "e": e, "n": n + 1, "seeds": seeds, "ord": None, "stack": self.stackon}
        if e is None:
            self.errs += 1
        else:
            head = self.fifo.popleft()
            if self.order and key(self.metas[head]) != key(self.metas[gid]):
                o["ord"] = head
                self.errs += 1
        self.nstates.add((n, len(q), len(self.fifo), self.order, o["ord"] is not None))
        self.op("C %d %d %u %s" % (gid, e["id"] if e else -1, inst, " ".join(str(s) for s in seeds)), **o)
        self.sim_mismatch = True
        return e

    def mem(self):
        """bytes the process holds, right after an init"""
        self.init()
        self.op("M", k="M")

    # ---- mocks in shared objects which come and go; libs: gid -> library
    def load(self, lib):
        self.loaded.add(lib)
        self.op("L %d" % lib, k="L")

    def unload(self, lib, libs):
        if self.order and any(libs[g] == lib for g in self.fifo):
            self.set_order(0)      # what the recorded order means for a mock which is gone is nowhere promised
            self.lock_order = True
        for g in [g for g in set(self.q) | set(self.n) if libs[g] == lib]:
            self.q.pop(g, None)
            self.n.pop(g, None)
            self.reported = {x for x in self.reported if x[0] != g}
        self.loaded.discard(lib)
        self.op("U %d" % lib, k="U")

    def body(self):
        return "\n".join(self.text) + "\n"


def key(m):
    """what tells the functions apart when the order is checked"""
    return m.get("key") or m["name"]


def ident(m):
    """what a message must hold to name the function"""
    return m.get("pat") or m["name"]


def named(msg, fn):
    if not isinstance(fn, str):
        return fn.search(msg) is not None
    return re.search(r"(?<![\w~])%s\s*\(" % re.escape(fn), msg) is not None


def first_named(msg, fns):
    return [f for f in fns if named(msg, f)]


def parse(out):
    """driver output -> list of (letter, rest, {fields}, [messages])"""
    recs, ended = [], False
    for line in out.splitlines():
        if line == "END":
            ended = True
        elif line.startswith("e "):
            if recs:
                recs[-1][3].append(line[2:])
        elif line[:2] in ("B ", "C2"):
            if recs:
                recs[-1][2].setdefault("B", line)
                if line.startswith("C2"):
                    recs[-1][2].update(dict(re.findall(r"(\w+)=(\S+)", line)))
        elif line and line[0] in "IKEOSGCMLUNX":
            recs.append([line[0], line, dict(re.findall(r"(\w+)=(\S*)", line)), []])
    return recs, ended


def same_read(loud, seldom, mode):
    """the run which read the errors seldom saw what the other, already judged, saw"""
    norm = lambda t: re.sub(r"0x[0-9a-f]+", "0x", t)
    if loud.rc != seldom.rc or loud.timeout != seldom.timeout:
        return "the process ends with %s and not with %s\n%s" % (seldom.rc, loud.rc, seldom.err[-3000:])
    recs, _ = parse(loud.out)
    other = []
    for line in seldom.out.splitlines():
        if line.startswith("d "):
            other[-1][1].append(line[2:])
        elif line and line[0] in "IKEOSGCMLUNX":
            other.append([line, []])
    errs = []
    for i, ((L, line, f, msgs), (line2, got)) in enumerate(zip(recs, other)):
        if L == "I":
            errs = []
        errs += msgs
        if L == "C":
            cut = lambda t: re.sub(r" stable=\d+ n=-?\d+$", "", t)
            if norm(cut(line)) != norm(line2.rstrip()):
                return "operation %d: %r, and %r before" % (i, line2, line)
        if L in "KG":
            if L == "K" and f["rc"] != re.search(r"rc=(\S+)", line2).group(1):
                return "operation %d: %r, and %r before" % (i, line2, line)
            want = errs if mode == 1 else ["".join(e + "\\x0a\\x0d" for e in errs)] if errs else []
            if [norm(x) for x in got] != [norm(x) for x in want]:
                return "operation %d reads\n  %s\ninstead of\n  %s" % (i, "\n  ".join(got)[:2000], "\n  ".join(want)[:2000])
    return None


class Judge:
    """compares one run with the model; calls fail(kind, text)"""

    def __init__(self, metas, fail, saw, count):
        self.metas, self.fail, self.saw, self.count = metas, fail, saw, count
        self.mem = []

    def run(self, script, res):
        recs, ended = parse(res.out)
        if not ended and recs:
            recs.pop()      # cut short by the end of the process
        names = [ident(m) for m in self.metas]
        pos, depth, prefix = 0, 0, []
        errs = 0      # errors the framework should hold
        for o, t in zip(script.ops, script.text):
            if pos >= len(recs):
                break
            depth -= 1
            L, line, f, msgs = recs[pos]
            pos += 1
            if L == "X":
                self.fail("matcher-runs", "op %d %r: the call ran none of the matchers of its expectation" % (pos, t[:160]))
                return
            if L != o["k"]:
                self.fail("driver", "op %d: driver answered %r to %r" % (pos, line, t))
                return
            where = "op %d %r: " % (pos, t[:160])
            if "stable" in f and f["stable"] != "1":
                self.fail("errors-unstable", where + "errors reported earlier changed or disappeared: %r" % line)
                return
            n = int(f.get("n", "0"))
            if n != len(msgs):
                self.fail("errors-array", where + "array announces %d new errors and holds %d" % (n, len(msgs)))
                return
            if L == "I":
                errs = 0
                if msgs:
                    self.fail("init-errors", where + "errors after init: %r" % msgs)
                    return
            elif L in "EOSLU":
                if msgs:
                    self.fail("expect-errors", where + "an operation which cannot fail reported %r" % msgs)
                    return
            elif L == "N":
                prefix = msgs
                errs += len(msgs)
                depth = 2
                self.count("operations_in_matchers")
            elif L == "M":
                self.mem.append(int(f["bytes"]))
            elif L == "G":
                if f.get("ok") != "1":
                    self.fail("error-string", where + "getErrorStr does not hold the errors of getErrorArr: %r" % line)
                    return
                if int(re.search(r"ok=\d+ n=(\d+)", line).group(1)) != errs:
                    self.fail("error-count", where + "%s, the model holds %d errors" % (line, errs))
                    return
            elif L == "K":
                want = 0 if (o["bad"] or errs) else 1
                if int(f["rc"]) not in (0, 1) or int(f["rc"]) != want:
                    self.fail("check-result", where + "check returned %s, expected %d (count errors: %s, earlier errors: %d)" % (
                        f["rc"], want, {names[g]: c for g, c in o["bad"].items()}, errs))
                    return
                got = []
                for ms in msgs:
                    h = first_named(ms, names)
                    nums = re.sub(r".*\)", "", ms)
                    hit = None
                    for g, (ex, ac) in o["bad"].items():
                        if g not in got and names[g] in h and re.search(r"\b%d\b.*\b%d\b" % (ex, ac), nums):
                            hit = g
                    if hit is None:
                        self.fail("check-message", where + "check reported %r, which no wrong call count explains (wrong: %s)" % (
                            ms, {names[g]: c for g, c in o["bad"].items()}))
                        return
                    got.append(hit)
                if len(set(got)) != len(got) or not set(o["fresh"]) <= set(got):
                    self.fail("check-missing", where + "check reported the wrong call count of %s, wrong are %s" % (
                        [names[g] for g in got], {names[g]: c for g, c in o["bad"].items()}))
                    return
                errs += len(msgs)
                self.count("checks")
                self.saw(("K", want, min(len(got), 5)))
            elif L == "C":
                errs += len(msgs)
                if depth == 0:
                    msgs = prefix + msgs
                    prefix = []
                if not self.call(o, where, line, f, msgs, names):
                    return
        if res.timeout:
            self.fail("hang", "the history did not finish\n" + res.err[-2000:])
        elif not ended or res.rc != 0:
            k = "sanitizer" if "Sanitizer" in res.err or "runtime error" in res.err else "crash"
            if res.rc in (3, 4, 5) and k == "crash":
                self.fail("driver", "driver exit %d after %d ops" % (res.rc, pos))
                return
            nxt = script.text[pos] if pos < len(script.text) else "teardown"
            self.fail(k, "the program died with exit %s at %r\n%s" % (res.rc, nxt[:200], res.err[-3500:]))

    def call(self, o, where, line, f, msgs, names):
        m = self.metas[o["gid"]]
        where = "%scall %d of %s: " % (where, o["n"], m["name"])
        ps = [x for x in f["p"].split(",") if x]
        if f.get("bad", "0") != "0":
            self.fail("matcher-args", where + str(f.get("B", line)))
            return False
        for ms in msgs:
            frames = [x.split("(")[0] for x in re.findall(r"\\x09at (.*?)(?=\\x0a|$)", ms)]
            here = any(m["fn"] in x for x in frames) if m.get("cpp") else m["name"] in frames
            if (here and "main" in frames) != o["stack"] or bool(frames) != o["stack"]:
                self.fail("call-stack", where + "the call stack is switched %s, the message is %r" % ("on" if o["stack"] else "off", ms[:600]))
                return False
            self.count("messages_with_stack" if o["stack"] else "messages_without_stack")
        e = o["e"]
        if e is None:
            self.count("unexpected_calls")
            if len(msgs) != 1 or not named(msgs[0], ident(m)):
                self.fail("unexpected-call", where + "no expectation is left; errors reported: %r" % msgs)
                return False
            for i, x in enumerate(ps):
                if x[2] == "0":
                    self.fail("unexpected-output", where + "an unexpected call wrote through parameter %s" % m["params"][i]["name"])
                    return False
                if x[3] != "0":
                    self.fail("unexpected-matcher", where + "an unexpected call ran a matcher")
                    return False
            self.saw(("U", m["name"]))
            return True
        want = []
        unn = 0
        for i, p in enumerate(m["params"]):
            kind = p["matchers"][e["p"][i][1]][0]
            vd, dd, inv = ps[i][0] == "1", ps[i][1] == "1", int(ps[i][3:])
            custom = kind in "pfe"
            if p["name"] is None:
                unn += custom
            elif inv != (1 if custom else 0):
                self.fail("matcher-runs", where + "the matcher of parameter %s ran %d times" % (p["name"], inv))
                return False
            bad = {"n": False, "p": False, "f": True, "e": vd, "v": vd, "d": dd}[kind]
            self.saw((m["name"], i, kind, bad))
            self.count("matcher_%s_%s" % ({"n": "none", "p": "accepting", "f": "refusing", "e": "equality", "v": "value", "d": "pointee"}[kind],
                                         "mismatch" if bad else "match"))
            if bad:
                want.append((p["name"], i))
        if e["inst"]:
            self.count("instance_wrong" if e["inst"] - 1 != o["inst"] else "instance_right")
            if e["inst"] - 1 != o["inst"]:
                want.insert(0, (None, -1))
        if int(f["un"]) != unn:
            self.fail("matcher-runs", where + "matchers of unnamed parameters ran %s times instead of %d" % (f["un"], unn))
            return False
        nwant = len(want) + (1 if o["ord"] is not None else 0)
        desc = "mismatching parameters %s, %s; errors %r" % ([w[0] or "#%d" % w[1] for w in want],
                                                               "call order broken (front of queue: %s)" % names[o["ord"]] if o["ord"] is not None else "call order fine",
                                                               [x[:300] for x in msgs])
        if len(msgs) != nwant:
            self.fail("call-errors" if o["ord"] is None else "order-errors", where + desc)
            return False
        for (pn, i), ms in zip(want, msgs):
            if not named(ms, ident(m)) or not re.search(r"\b%d\b" % o["n"], ms) or (pn and not re.search(r"\b%s\b" % re.escape(pn), ms)):
                self.fail("mismatch-message", where + "message %r does not name the call number, the function and parameter %s" % (ms[:400], pn))
                return False
        if o["ord"] is not None:
            ms = msgs[-1]
            self.count("order_errors")
            if not named(ms, ident(m)) or not named(ms, names[o["ord"]]):
                self.fail("order-message", where + "%r does not name both functions: %s" % (ms, desc))
                return False
        if f["ret"] == "0":
            self.fail("return-value", where + "did not return the recorded value (%s)" % line)
            return False
        if m["ret"] and f["ret"] != "1":
            self.fail("driver", where + "return value not observed")
            return False
        if o["ord"] is None:
            for i, p in enumerate(m["params"]):
                if ps[i][2] == "0":
                    on = e["useout"] and e["p"][i][2] and p["out"]
                    self.fail("output-value", where + ("the recorded output of parameter %s is not what the caller got, or was written elsewhere" if on
                                                         else "parameter %s was written without a recorded output") % p["name"])
                    return False
                if p["out"] and e["useout"]:
                    self.count("outputs_written" if e["p"][i][2] else "outputs_skipped")
                    self.saw((m["name"], i, "out", e["p"][i][2]))
        self.count("accepted_calls")
        return True


# ------------------------------------------------------------------ workload styles
def polite(s, nf, rounds=6):
    """record, call in the same order, check"""
    r = s.r
    for _ in range(rounds):
        s.init()
        s.set_order(r.randrange(2))
        seq = [r.randrange(nf) for _ in range(r.randint(1, 25))]
        for g in seq:
            s.expect(g)
        for g in seq:
            s.call(g, diff=0.0 if r.random() < 0.5 else 0.3)
        s.geterr()
        s.check()
        if r.random() < 0.4:
            s.check()
        s.geterr()


def clean(s, nf, rounds=6):
    """everything matches: not a single error may be reported"""
    r = s.r
    for _ in range(rounds):
        s.init()
        s.set_order(r.randrange(2))
        seq = [r.randrange(nf) for _ in range(r.randint(1, 30))]

        def pick(p):
            ok = [i for i, (k, _) in enumerate(p["matchers"]) if k != "f"]
            return ok[r.randrange(len(ok))]
        for g in seq:
            s.expect(g, matchers=pick)
        for g in seq:
            s.call(g, diff=0.0)
        s.check()
        s.geterr()


def hostile(s, nf, ops=250):
    """arbitrary interleavings"""
    r = s.r
    s.init()
    few = [r.randrange(nf) for _ in range(r.randint(1, 5))]
    for _ in range(ops):
        x = r.random()
        g = few[r.randrange(len(few))] if r.random() < 0.8 else r.randrange(nf)
        if x < 0.42:
            s.expect(g)
        elif x < 0.86:
            s.call(g)
        elif x < 0.90:
            s.check()
        elif x < 0.92:
            s.init()
        elif x < 0.96:
            s.set_order(r.randrange(2))
        else:
            s.geterr()
    s.check()


def nested(s, nf, ops=220):
    """matchers which record, call other functions, read the errors and check"""
    s.pnest = 0.35
    hostile(s, nf, ops)


def permuted(s, nf, rounds=6):
    """the recorded calls, made in another order"""
    r = s.r
    for _ in range(rounds):
        s.init()
        s.set_order(1 if r.random() < 0.8 else 0)
        seq = [r.randrange(nf) for _ in range(r.randint(2, 12))]
        if r.random() < 0.5:
            seq = [seq[r.randrange(min(3, len(seq)))] for _ in seq]
        for g in seq:
            s.expect(g)
        p = list(seq)
        k = r.randrange(4)
        if k == 0:
            r.shuffle(p)
        elif k == 1 and len(p) > 1:
            i = r.randrange(len(p) - 1)
            p[i], p[i + 1] = p[i + 1], p[i]
        elif k == 2:
            del p[r.randrange(len(p))]
        else:
            p.insert(r.randrange(len(p) + 1), r.randrange(nf))
        for i, g in enumerate(p):
            s.call(g, diff=0.1)
            if r.random() < 0.05:
                s.set_order(r.randrange(2))
        s.check()
        s.geterr()


def burst(s, nf, limit=256):
    """many expectations of one function"""
    r = s.r
    s.init()
    s.set_order(1)
    g = r.randrange(nf)
    n = limit if r.random() < 0.7 else r.randint(limit // 2, limit)
    for _ in range(n):
        s.expect(g)
    for _ in range(n + r.randrange(3)):
        s.call(g, diff=0.05)
    s.check()
    s.init()
    s.expect(g)
    s.call(g)
    s.check()


STYLES = {"polite": polite, "clean": clean, "hostile": hostile, "permuted": permuted, "burst": burst, "nested": nested}
