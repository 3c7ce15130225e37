"""Freshness and presence follow what was committed."""
from sa.check import facts_str
from sa.core import K, NONE, Term, is_k, kval, show
from sa.plantworld import World, WorldPolicy, explored, known_order, known_time, response

TITLE = "Block age, presence and content age report exactly the committed banks"
RULE = (
    "Histories of update(), mark_absent() and invalidate_presence() are followed abstractly from an empty plant and read back through block_age(), block_present(), content_unchanged_seconds(), register_age() "
    "and last_updated_at. A committed bank is stamped with its reception time (UTC when naive, now when missing) under its own device, type, base and count and no other; a refused one changes nothing; equal "
    "content keeps its age; invalidating a block forgets it, its registers and a pending first frame, and nothing else."
)
GATES = {"is_coherent", "_splice_guard", "is_suspicious"}
NOW = Term("param", "t_now")
OBSERVERS = ("block_age", "block_present", "content_unchanged_seconds")
TYPES = {"Input": "IR", "Holding": "HR"}


def utc(v):
    return v.op == "ext" and v.args[0].split(".")[-1].upper() in ("UTC",) or v.op == "attr" and str(v.args[1]) == "utc" or "UTC" in show(v).upper()


class Plant:
    def __init__(self, chk, I, what):
        self.chk, self.I, self.what = chk, I, what
        self.w = World(I, {}, defaults=True)
        self.good = True
        self.n = 0
        self.truth = {"is_coherent": True, "_splice_guard": True, "is_suspicious": False}
        self.opaque = {*GATES, "validate_bank"}
        known_time(self.w.st, NOW)

    def fn(self, name):
        f = self.I.func("model.plant:Plant." + name)
        self.chk.require(f is not None, "Plant." + name)
        return f

    def run(self, name, **args):
        self.I.stats["steps"] = 0
        self.I.policy = WorldPolicy(self.I, opaque=self.opaque, truth=self.truth)
        out = explored(self.chk, self.I, self.w, self.fn(name), args)
        self.chk.count("paths followed", len(out))
        if any(p.kind != "return" for p in out):
            self.fail(name, "raises", f"{name} raises {next(show(p.val) for p in out if p.kind != 'return')}")
        return [p for p in out if p.kind == "return"]

    def one(self, name, **args):
        """The single outcome of a call whose course is fully determined."""
        out = self.run(name, **args)
        if len(out) != 1:
            seen = {str(self.w.state(p.st)) + show(p.val) for p in out}
            if len(seen) > 1:
                self.fail(name, "undetermined", f"{name} can end in {len(seen)} ways: {' / '.join(facts_str(p.st)[:90] for p in out[:2])}")
        if out:
            self.w.st = out[0].st
            return out[0].val
        return NONE

    def frame(self, addr, kind, base, values, t, aware=True, **kw):
        if t is not NONE:
            known_time(self.w.st, t, aware)
        self.one("update", pdu=response(self.w, kind, addr, base, [K(v) for v in values], **kw), received_at=t)
        return self

    def fail(self, name, rule, msg):
        if self.good:
            self.chk.violation(rule, f"{self.what}: {name}", self.chk.loc(self.I, self.fn(name) if self.I.func("model.plant:Plant." + name) else self.fn("update")), f"{self.what}: {msg}")
        self.good = False

    def observe(self, key, age=None, present=None, content=None, now=NOW):
        """Read one block back; ages are the reception times they count from."""
        args = dict(device_address=K(key[0]), reg_type=K(key[1]), base_register=K(key[2]), register_count=K(key[3]))
        for name, want in (("block_age", age), ("content_unchanged_seconds", content), ("block_present", present)):
            save = self.w.st
            v = self.one(name, **args, **({} if name == "block_present" else {"now": now}))
            self.w.st = save
            if name == "block_present":
                if v != K(want):
                    self.fail(name, "presence", f"block_present{key} should be {want}, is {show(v)}")
            elif not self.since(v, want, now):
                self.fail(name, "age", f"{name}{key} should be {'None' if want is None else 'the time since ' + describe(want)}, is {show(v)}")
        return self

    def since(self, v, want, now):
        if want is None:
            return v == NONE
        if v == K(0.0) and want == now:
            return True
        if v.op != "gap":
            return False
        return point(v.args[0], now) and point(v.args[1], want)

    def done(self, kind):
        if self.good:
            self.chk.ok(kind, self.what)


def describe(want):
    return {"now": "now (UTC)"}.get(want, show(want)) if isinstance(want, str) else show(want) if isinstance(want, Term) else f"{show(want[1])} read as UTC"


def point(t, want):
    """Is this the point in time meant?  'now' / NONE = the current time in UTC; ('utc', t) = naive t taken as UTC."""
    if want == "now" or want == NONE:
        return t.op == "call" and t.args[0] == Term("name", "now") and any(utc(x) for x in (*t.args[1], *(v for _, v in t.args[2])))
    if isinstance(want, tuple):
        return t.op == "call" and t.args[0] == Term("name", "replace") and t.args[1] == (want[1],) and all(utc(v) for _, v in t.args[2])
    return t == want


def T(n):
    return Term("param", f"t_{n}")


def check(chk):
    I = chk.interp()
    chk.parallel([lambda f=f: f(chk, I) for f in (commits, clocks, content, absence, invalidation, refusals, containing, newest, pending)])


KEYS = [(0x11, "IR", 0, 60), (0x11, "IR", 180, 60), (0x11, "HR", 0, 60), (0x11, "HR", 60, 60), (0x32, "IR", 60, 60), (0x01, "IR", 60, 30), (0x70, "IR", 60, 60), (0x99, "HR", 4096, 7)]


def near(key):
    """Keys that differ from this one in a single part."""
    a, t, b, c = key
    return [(a ^ 1, t, b, c), (a, "HR" if t == "IR" else "IR", b, c), (a, t, b + 1, c), (a, t, b, c - 1), (a, t, b + 60, c)]


def values(n, v=7):
    return [v] * n


def kind(t):
    return "Input" if t == "IR" else "Holding"


def commits(chk, I):
    for key in KEYS:
        a, t, b, c = key
        h = Plant(chk, I, f"a committed bank {key}")
        h.observe(key)
        h.frame(a, kind(t), b, values(c), T(1)).observe(key, age=T(1), present=True, content=T(1))
        for k in near(key):
            h.observe(k)
        other = (a, t, b + 60, c)
        h.frame(a, kind(t), b + 60, values(c), T(2)).observe(key, age=T(1), present=True, content=T(1)).observe(other, age=T(2), present=True, content=T(2))
        h.frame(a, kind(t), b, values(c, 8), T(3)).observe(key, age=T(3), present=True, content=T(3)).observe(other, age=T(2), present=True, content=T(2))
        h.done("committed banks")
    for key, n in (((0x11, "IR", 0, 60), 1), ((0x11, "HR", 0, 60), 59), ((0x32, "IR", 60, 60), 17)):
        a, t, b, c = key
        h = Plant(chk, I, f"a read of {n} registers at {key[:3]}")
        h.frame(a, kind(t), b, values(n), T(1)).observe(key).observe((a, t, b, n), age=T(1), present=True, content=T(1)).done("partial reads")
    h = Plant(chk, I, "a meter product response")
    h.frame(0x01, "MeterProduct", 60, values(5), T(1)).observe((0x01, "IR", 60, 5)).observe((0x01, "HR", 60, 5)).done("partial reads")


def clocks(chk, I):
    key = (0x11, "IR", 0, 60)
    a, t, b, c = key
    for aware, at, want in ((True, T(1), T(1)), (False, T(1), ("utc", T(1))), (None, NONE, "now")):
        h = Plant(chk, I, f"a bank received {'at an aware time' if aware else 'at a naive time' if at is not NONE else 'without a time'}")
        h.frame(a, "Input", b, values(c), at, aware=bool(aware)).observe(key, age=want, present=True, content=want)
        h.observe(key, age=want, present=True, content=want, now=NONE) if aware else None
        h.done("reception times")
    h = Plant(chk, I, "ages at a naive time")
    naive = Term("param", "t_naive")
    known_time(h.w.st, naive, False)
    h.frame(a, "Input", b, values(c), T(1))
    for name, extra in (("block_age", {}), ("content_unchanged_seconds", {})):
        v = h.one(name, device_address=K(a), reg_type=K(t), base_register=K(b), register_count=K(c), now=naive)
        if v.op != "gap" or not point(v.args[0], ("utc", naive)) or v.args[1] != T(1):
            h.fail(name, "age", f"{name} at a naive time should read it as UTC, is {show(v)}")
    v = h.one("register_age", device_address=K(a), register=h.w.reg("IR", 5), now=naive)
    if v.op != "gap" or not point(v.args[0], ("utc", naive)) or v.args[1] != T(1):
        h.fail("register_age", "age", f"register_age at a naive time should read it as UTC, is {show(v)}")
    h.done("reception times")


def content(chk, I):
    for key in KEYS:
        a, t, b, c = key
        one = values(c)
        for i in sorted({0, c // 2, c - 1}):
            two = list(one)
            two[i] = 9
            h = Plant(chk, I, f"content of {key} changing in register {b + i}")
            h.frame(a, kind(t), b, one, T(1)).frame(a, kind(t), b, one, T(2)).observe(key, age=T(2), present=True, content=T(1))
            h.frame(a, kind(t), b, two, T(3)).observe(key, age=T(3), present=True, content=T(3)).frame(a, kind(t), b, two, T(4)).frame(a, kind(t), b, two, T(5)).observe(key, age=T(5), present=True, content=T(3))
            h.frame(a, kind(t), b, one, T(6)).observe(key, age=T(6), present=True, content=T(6)).done("content changes")
    h = Plant(chk, I, "two registers swapping values")
    one, two = [9, *values(59)], [*values(59), 9]
    h.frame(0x11, "Input", 0, one, T(1)).frame(0x11, "Input", 0, two, T(2)).observe((0x11, "IR", 0, 60), age=T(2), present=True, content=T(2)).done("content changes")
    h = Plant(chk, I, "equal content while the next block changes")
    h.frame(0x11, "Input", 0, values(60), T(1)).frame(0x11, "Input", 60, values(60), T(2)).frame(0x11, "Input", 0, values(60), T(3)).frame(0x11, "Input", 60, values(60, 8), T(4)).frame(0x11, "Input", 0, values(60), T(5))
    h.observe((0x11, "IR", 0, 60), age=T(5), present=True, content=T(1)).observe((0x11, "IR", 60, 60), age=T(4), present=True, content=T(4)).done("content changes")
    # two devices, and two windows over the same registers
    h = Plant(chk, I, "equal content at two devices")
    h.frame(0x11, "Input", 0, values(60), T(1)).frame(0x12, "Input", 0, values(60), T(2)).frame(0x11, "Input", 0, values(60), T(3))
    h.observe((0x11, "IR", 0, 60), age=T(3), present=True, content=T(1)).observe((0x12, "IR", 0, 60), age=T(2), present=True, content=T(2)).done("content changes")
    h = Plant(chk, I, "a short read changing part of a block")
    h.frame(0x11, "Input", 0, values(60), T(1)).frame(0x11, "Input", 0, values(5, 9), T(2)).frame(0x11, "Input", 0, values(60), T(3))
    h.observe((0x11, "IR", 0, 60), age=T(3), present=True, content=T(1)).observe((0x11, "IR", 0, 5), age=T(2), present=True, content=T(2)).done("content changes")


def absence(chk, I):
    for key in KEYS:
        a, t, b, c = key
        args = dict(device_address=K(a), reg_type=K(t), base_register=K(b), register_count=K(c))
        h = Plant(chk, I, f"{key} marked absent")
        h.one("mark_absent", **args)
        h.observe(key, present=False)
        for k in near(key):
            h.observe(k)
        h.frame(a, kind(t), b, values(c), T(1)).observe(key, age=T(1), present=True, content=T(1))
        h.one("mark_absent", **args)
        h.observe(key, age=T(1), present=False, content=T(1)).done("absence")


def invalidation(chk, I):
    for key in KEYS:
        a, t, b, c = key
        args = dict(device_address=K(a), reg_type=K(t), base_register=K(b), register_count=K(c))
        h = Plant(chk, I, f"{key} invalidated")
        others = [k for k in near(key) if k[3] == c and abs(k[2] - b) != 1]
        for n, k in enumerate([key, *others]):
            h.frame(k[0], kind(k[1]), k[2], values(c), T(n + 1))
        before = h.w.state(h.w.st)["register_caches"]
        h.one("invalidate_presence", **args)
        h.observe(key)
        for n, k in enumerate(others):
            h.observe(k, age=T(n + 2), present=True, content=T(n + 2))
        want = {d: {r: v for r, v in regs.items() if not (d == a and r[1] == t and b <= r[2] < b + c)} for d, regs in before.items()}
        after = h.w.state(h.w.st)["register_caches"]
        if after != want:
            d = [f"{r[1]}({r[2]}) of 0x{x:02x}" for x in want for r in {**want[x], **after.get(x, {})} if want[x].get(r) != after.get(x, {}).get(r)]
            h.fail("invalidate_presence", "registers", f"exactly the registers of the block should be dropped; wrong: {', '.join(d[:4])}")
        h.frame(a, kind(t), b, values(c), T(9)).observe(key, age=T(9), present=True, content=T(9))
        h.done("invalidation")
    h = Plant(chk, I, "a block invalidated at a device never heard")
    h.one("invalidate_presence", device_address=K(0x33), reg_type=K("IR"), base_register=K(60), register_count=K(60))
    if h.w.state(h.w.st)["register_caches"]:
        h.fail("invalidate_presence", "registers", "creates a cache")
    h.observe((0x33, "IR", 60, 60)).done("invalidation")
    h = Plant(chk, I, "an absent block invalidated")
    args = dict(device_address=K(0x33), reg_type=K("IR"), base_register=K(60), register_count=K(60))
    h.one("mark_absent", **args)
    h.one("invalidate_presence", **args)
    h.observe((0x33, "IR", 60, 60)).done("invalidation")


def refusals(chk, I):
    """A bank that is not committed leaves no trace in what the observers report."""
    for key in KEYS:
        a, t, b, c = key
        for what in ("error", "crc", "null-like", "incoherent", "spliced", "suspicious"):
            if what == "spliced" and not 0x32 <= a <= 0x37 or what == "suspicious" and t != "IR" or what == "incoherent" and a in (0x99,):
                continue
            for first in (None, "commit", "absent"):
                h = Plant(chk, I, f"{what} bank {key} after {first or 'nothing'}")
                want = {}
                if first == "commit":
                    h.frame(a, kind(t), b, values(c), T(1))
                    want = dict(age=T(1), present=True, content=T(1))
                elif first == "absent":
                    h.one("mark_absent", device_address=K(a), reg_type=K(t), base_register=K(b), register_count=K(c))
                    want = dict(present=False)
                over = {}
                if what == "error":
                    over = {"error": K(True)}
                elif what == "crc":
                    over = {"crc_failed": K(True)}
                elif what == "incoherent":
                    h.truth = {**h.truth, "is_coherent": False}
                elif what == "spliced":
                    h.truth = {**h.truth, "_splice_guard": False}
                elif what == "suspicious":
                    h.truth = {**h.truth, "is_suspicious": True}
                if what == "null-like":  # an all-zero block over data
                    if first != "commit" or c < 60:
                        continue
                    h.frame(a, kind(t), b, values(c, 0), T(2))
                else:
                    h.frame(a, kind(t), b, values(c, 8), T(2), **over)
                h.truth = {"is_coherent": True, "_splice_guard": True, "is_suspicious": False}
                h.observe(key, **{"age": None, "present": None, "content": None, **want}).done("refused banks")


def containing(chk, I):
    """register_age: the freshest committed window that contains the register."""
    windows = [((0x11, "IR", 0, 60), T(1)), ((0x11, "IR", 30, 60), T(2)), ((0x11, "IR", 45, 1), T(3)), ((0x12, "IR", 0, 60), T(4)), ((0x11, "HR", 0, 60), T(5))]
    for order in ((1, 2, 3), (3, 2, 1), (2, 3, 1), (2, 1, 3)):
        h = Plant(chk, I, f"windows over a register, received in the order {order}")
        I.clock = {t: 100 for _, t in windows} | {T(n): 100 + 10 * k for k, n in enumerate(order)} | {NOW: 1000}
        known_order(h.w.st, I.clock)
        for (a, t, b, c), at in windows:
            h.frame(a, kind(t), b, values(c), at)
        for dev, typ, i in ((0x11, "IR", 0), (0x11, "IR", 29), (0x11, "IR", 30), (0x11, "IR", 44), (0x11, "IR", 45), (0x11, "IR", 46), (0x11, "IR", 59), (0x11, "IR", 60), (0x11, "IR", 89), (0x11, "IR", 90), (0x11, "HR", 59), (0x11, "HR", 60), (0x12, "IR", 45), (0x12, "HR", 45), (0x13, "IR", 45)):
            ts = [I.clock[at] for (a, t, b, c), at in windows if a == dev and t == typ and b <= i < b + c]
            save = h.w.st
            h.w.st = save.copy()
            v = h.one("register_age", device_address=K(dev), register=h.w.reg(typ, i), now=NOW)
            h.w.st = save
            want = K(float(1000 - max(ts))) if ts else NONE
            if v != want and not (is_k(v) and is_k(want) and kval(v) == kval(want)):
                h.fail("register_age", "register age", f"register_age(0x{dev:02x}, {typ}({i})) should be {show(want)}, is {show(v)}")
        I.clock = {}
        h.done("register ages")


def newest(chk, I):
    for order in ((1, 2, 3), (3, 1, 2), (2, 3, 1)):
        h = Plant(chk, I, f"the newest of three commits, in the order {order}")
        I.clock = {T(n): 100 + 10 * k for k, n in enumerate(order)} | {NOW: 1000, T(8): 5000}
        known_order(h.w.st, I.clock)
        v = h.one("last_updated_at")
        if v != NONE:
            h.fail("last_updated_at", "newest", f"nothing committed, yet last_updated_at is {show(v)}")
        for n, (a, t, b, c) in zip((1, 2, 3), KEYS[2:5]):
            h.frame(a, kind(t), b, values(c), T(n))
        h.frame(0x11, "Input", 0, values(60), T(8), error=K(True))
        v = h.one("last_updated_at")
        want = T(order[-1])
        if v != want:
            h.fail("last_updated_at", "newest", f"last_updated_at should be {show(want)}, is {show(v)}")
        I.clock = {}
        h.done("newest commit")


def pending(chk, I):
    """The first frame of a battery held for corroboration does not survive the invalidation of its block."""
    key = (0x33, "IR", 60, 60)
    args = dict(device_address=K(0x33), reg_type=K("IR"), base_register=K(60), register_count=K(60))
    frame = [3300] * 16 + [200] * 4 + [20] * 40
    for what, clear, adopted in (("a held first frame, repeated", None, True), ("a held first frame, invalidated, repeated", args, False), ("a held first frame, the meter block invalidated, repeated", {**args, "register_count": K(30)}, True)):
        h = Plant(chk, I, what)
        I.clock = {T(n): 100 + 10 * n for n in range(9)}
        h.opaque = {"is_coherent", "is_suspicious", "validate_bank"}
        h.frame(0x33, "Input", 60, frame, T(1)).observe(key)
        if clear:
            h.one("invalidate_presence", **clear)
        h.frame(0x33, "Input", 60, frame, T(2))
        h.observe(key, **(dict(age=T(2), present=True, content=T(2)) if adopted else {}))
        h.frame(0x33, "Input", 60, frame, T(3)).observe(key, age=T(3), present=True, content=T(2 if adopted else 3))
        I.clock = {}
        h.done("pending first frames")


MINIMUMS = (("committed banks", 8), ("partial reads", 4), ("reception times", 4), ("content changes", 20), ("absence", 8), ("invalidation", 10), ("refused banks", 70), ("register ages", 4), ("newest commit", 3), ("pending first frames", 3))
