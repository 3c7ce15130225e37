"""The battery splice guard: what it never adopts, what it holds, and how it recovers."""
from sa.check import facts_str
from sa.core import K, Term, show
from sa.plantworld import World, WorldPolicy, changed_fields, explored, gap, known_int, known_time, response

TITLE = "A battery frame that breaks physics or identity is never adopted at once"
RULE = (
    "Histories of battery frames are applied to Plant.update() abstractly: register values are symbols, only the differences between frames and the time gaps are specified. Every path of every step is followed. "
    "A frame is cached on exactly the documented grounds: no implausible delta against the last good frame (a table of thresholds written down independently), one delta repeated by the next frame, a constant "
    "register insisted on for 10 polls and splice_heal_seconds, a smooth in-range surge when its healing is enabled, a corroborated first frame, or a gap of more than 300 s; never a changed serial block, several "
    "implausible deltas, or two zero cell temperatures."
)
ADDR = 0x32
GATES = {"is_coherent": True, "is_suspicious": False}
# bank-relative register, threshold on the change between two polls
SCALAR = [
    *((i, 300) for i in range(16)), *((i, 50) for i in (16, 17, 18, 19, 43, 44)), (21, 200), (20, 1600), (40, 10), *((i, 50) for i in (45, 46)),
]
PAIRS = [((22, 23), 4000), ((24, 25), 1500), ((26, 27), 1500), ((28, 29), 1500), ((41, 42), 1500)]
CONSTANT, SERIAL = (37, 38), range(50, 55)
FREE = [i for i in range(60) if i not in {r for r, _ in SCALAR} | {x for p, _ in PAIRS for x in p} | set(CONSTANT) | set(SERIAL)]
RANGE = {**{i: (1000, 5000) for i in range(16)}, 20: (16000, 80000), 22: (16000, 80000), 24: (0, 50000), 26: (0, 50000), 28: (0, 50000), 41: (0, 50000)}
STALE, POLLS = 300, 10
WORKERS = 8
NEAR, FAR = "near", "far"
HEAL = Term("param", "heal_seconds")
BOOK = {"register_caches", "register_block_updated_at", "register_block_present", "_block_unchanged_since"}


def c(i, lo=None):
    return Term("param", f"c{i}")


def healthy():
    """An arbitrary plausible frame: unknown values, pairs known."""
    f = [c(i) for i in range(60)]
    for (hi, lo), _ in PAIRS:
        f[hi], f[lo] = K(0), K(20000)
    return f


def plus(t, d):
    """t + d as one value."""
    if t.op == "k":
        return K(t.args[1] + d)
    return t if d == 0 else Term("bin", "+" if d > 0 else "-", t, K(abs(d)))


def but(frame, **at):
    f = list(frame)
    for k, v in at.items():
        f[int(k[1:])] = v
    return f


def moved(frame, *deltas):
    f = list(frame)
    for i, d in deltas:
        f[i] = plus(f[i], d)
    return f


def pair(frame, hi, lo, value):
    f = list(frame)
    f[hi], f[lo] = K(value >> 16), K(value & 0xFFFF)
    return f


class Step:
    def __init__(self, st, cached, p, t):
        self.st, self.cached, self.p, self.t = st, cached, p, t


class History:
    """All abstract executions of a sequence of frames from one plant."""

    share, made = (0, 1), 0

    def __init__(self, chk, I, cached, what, dt=None, **fields):
        self.chk, self.I, self.what = chk, I, what
        History.made += 1
        self.mine = History.made % History.share[1] == History.share[0]
        I.clock, self.dt = {}, dt  # with dt the polls are that many seconds apart, without their times are unknown
        shape = {} if cached is None else {ADDR: {("IR", 60 + i): v for i, v in enumerate(cached) if v is not None}}
        shape[0x99] = {("IR", 60): Term("param", "other_value")}
        self.w = World(I, shape, defaults=True, **fields)
        for i in range(60):
            known_int(I, self.w.st, c(i), 1100 if i < 16 or i == 20 else 400, 4300 if i < 16 else 60000)
        I.types[HEAL] = ("ext", "float")
        self.states = [Step(self.w.st, None, None, None)]
        self.fn = I.func("model.plant:Plant.update")
        chk.require(self.fn is not None, "Plant.update")
        self.where = chk.loc(I, self.fn)
        self.good = True
        self.n = 0
        I.stats["steps"] = 0
        self.frames = []

    def step(self, frame, want, since=NEAR, count=None, base=60, keep=None, why=""):
        """One more frame.  want: True cached, False not, None either; keep(state facts) filters the paths followed."""
        self.n += 1
        if not self.mine or not self.good:
            return self
        t = Term("param", f"t_{self.n}")
        nxt = []
        for s in self.states:
            w = self.w
            w.st = s.st.copy()
            known_time(w.st, t)
            if self.dt is not None:
                self.I.clock[t] = 1000 + self.n * self.dt
            elif s.t is not None:
                g = gap(self.I, t, s.t)
                if since == NEAR:
                    f = {Term("cmp", "le", g, K(STALE)): True, Term("cmp", "lt", K(STALE), g): False, Term("cmp", "le", K(STALE), g): False, Term("cmp", "lt", g, K(STALE)): True, Term("cmp", "le", K(0), g): True}
                else:
                    f = {Term("cmp", "lt", K(STALE), g): True, Term("cmp", "le", g, K(STALE)): False}
                w.st.facts = {**w.st.facts, **f}
            before = w.state(w.st)
            pdu = response(w, "Input", ADDR, base, frame, count)
            self.I.policy = WorldPolicy(self.I, opaque={*GATES, "validate_bank"}, truth=GATES)
            incoming = {("reg", "IR", base + i): w.freeze(w.st, v) for i, v in enumerate(frame)}
            for p in explored(self.chk, self.I, w, self.fn, {"pdu": pdu, "received_at": t}):
                self.chk.count("update paths")
                if p.kind != "return":
                    self.fail("raises", f"{self.what}: frame {self.n} raises {show(p.val)}")
                    continue
                after = w.state(p.st)
                old, new = before["register_caches"].get(ADDR) or {}, after["register_caches"].get(ADDR) or {}
                if new not in (old, {**old, **incoming}):
                    self.fail("partial", f"{self.what}: frame {self.n} leaves a mixture of the old and the new frame")
                marked = changed_fields(before, after).keys() & (BOOK - {"register_caches"})
                cached = new != old or bool(marked)
                cond = want(self, p.st, t) if callable(want) else want
                if cond is not None and cached != cond:
                    verb = "is cached" if cached else "is refused"
                    self.fail("adopted" if cached else "refused", f"{self.what}: frame {self.n} {verb}{': ' + why if why else ''} ({facts_str(new_facts(p.st, w.st))[:200]})")
                nxt.append(Step(p.st, cached, p, t))
        if len(nxt) > 400:
            from sa.core import AnalysisError

            raise AnalysisError(f"{self.what}: too many executions")
        self.states = nxt
        return self

    def fail(self, kind, msg):
        if self.good and self.mine:
            self.chk.violation(kind, self.what, self.where, msg)
        self.good = False

    def done(self, kind):
        if self.good and self.mine:
            self.chk.ok(kind, self.what)


def new_facts(st, old):
    x = st.copy()
    x.facts = {f: b for f, b in st.facts.items() if f not in old.facts}
    return x


def elapsed(h, st, t, first, bound):
    """Is the time since poll `first` known to be at least `bound`?"""
    g = gap(h.I, t, Term("param", f"t_{first}"))
    return h.I.known(st, Term("cmp", "le", bound, g))


def check(chk):
    """Every process goes through all histories and follows its share of them."""
    I = chk.interp()
    chk.parallel([lambda k=k: part(chk, I, k) for k in range(WORKERS)])


def part(chk, I, k):
    History.share, History.made = (k, WORKERS), 0
    for f in (thresholds, singles, several, serials, constants, surges, cold, outages, shorts, seeds):
        f(chk, I)


def names(i):
    return f"IR({60 + i})"


def thresholds(chk, I):
    """Each rule's threshold, both directions, at and just past the limit; everything else is free to move."""
    b = healthy()
    for i, thr in SCALAR:
        for d in (thr, -thr):
            History(chk, I, b, f"{names(i)} moving by {d:+}").step(moved(b, (i, d)), True, why="the change is plausible").done("plausible changes")
        for d in (thr + 1, -thr - 1):
            History(chk, I, b, f"{names(i)} moving by {d:+}").step(moved(b, (i, d)), False, why="one implausible change is held until the next frame repeats it").done("implausible changes")
    for (hi, lo), thr in PAIRS:
        for old in (20000, 65530, 70000):
            base = pair(b, hi, lo, old)
            for d in (thr, -thr):
                History(chk, I, base, f"{names(hi)}/{60 + lo} {old} moving by {d:+}").step(pair(base, hi, lo, old + d), True, why="the change is plausible").done("plausible changes")
            for d in (thr + 1, -thr - 1, 65536):
                History(chk, I, base, f"{names(hi)}/{60 + lo} {old} moving by {d:+}").step(pair(base, hi, lo, old + d), False, why="one implausible change is held until the next frame repeats it").done("implausible changes")
    f = list(b)
    for i in FREE:
        f[i] = Term("param", f"free{i}")
    h = History(chk, I, b, "status words, current, cycles and reserved registers changing")
    for i in FREE:
        known_int(I, h.w.st, f[i], 0)
    h.step(f, True, why="these registers carry no physics").done("plausible changes")
    # a register that was never read cannot have jumped
    for i in (0, 20, 40, 37, 50):
        gone = list(b)
        gone[i] = None
        other = list(b)
        other[i] = Term("param", "fresh")
        h = History(chk, I, gone, f"{names(i)} read for the first time")
        known_int(I, h.w.st, other[i], 1)
        h.step(other, True, why="there is nothing to compare it with").done("plausible changes")


def singles(chk, I):
    b = healthy()
    for (i, thr), (j, jthr) in (((5, 300), (16, 50)), ((21, 200), (40, 10)), ((40, 10), (45, 50)), ((16, 50), (17, 50))):
        once = moved(b, (i, thr + 20))
        History(chk, I, b, f"{names(i)} jumping and staying").step(once, False).step(moved(once, (i, thr)), True, why="the next frame confirms the step").step(moved(once, (i, thr)), True).done("held and confirmed")
        History(chk, I, b, f"{names(i)} jumping and staying, slightly lower").step(moved(b, (i, 2 * thr + 20)), False).step(moved(b, (i, thr + 20)), True, why="the next frame confirms the step").done("held and confirmed")
        History(chk, I, b, f"{names(i)} jumping and returning").step(once, False).step(b, True, why="the frame agrees with the last good one").step(once, False, why="the earlier jump was not confirmed by the frame after it").done("held and reverted")
        History(chk, I, b, f"{names(i)} jumping to two different values").step(once, False).step(moved(b, (i, 2 * thr + 21)), False, why="it is another value").step(moved(b, (i, 2 * thr + 21)), True).done("held and reverted")
        History(chk, I, b, f"{names(i)} jumping, then {names(j)}").step(once, False).step(moved(b, (j, jthr + 1)), False, why="it is another register").step(once, False, why="the confirmation must be the next frame").done("held and reverted")
        History(chk, I, b, f"{names(i)} jumping, then also {names(j)}, then {names(i)}").step(once, False).step(moved(once, (j, jthr + 1)), False).step(once, False, why="a rejected frame lies between").done("held and reverted")
        History(chk, I, b, f"{names(i)} jumping, then a serial change, then again").step(once, False).step(moved(once, (50, 1)), False, why="the serial number differs").step(once, False, why="a rejected frame lies between").done("held and reverted")


def several(chk, I):
    """Two or more implausible changes are corruption however often they are repeated."""
    b = healthy()
    reps = [(0, 301), (15, 301), (16, 51), (43, 51), (21, 201), (20, 1601), (40, 11), (45, 51), (46, 51)]
    combos = [(reps[x], reps[y]) for x in range(len(reps)) for y in range(x + 1, len(reps))]
    for (i, d), (j, e) in combos:
        for sign in ((1, 1), (-1, 1)):
            if sign[0] < 0 and (i, j) not in ((0, 15), (16, 43), (21, 40)):
                continue
            f = moved(b, (i, sign[0] * d), (j, e))
            h = History(chk, I, b, f"{names(i)} and {names(j)} jumping together and staying", dt=10)
            for _ in range(3):
                h.step(f, False, why="two implausible changes are corruption")
            h.step(b, True, why="the frame agrees with the last good one").done("corruption refused")
    f = pair(pair(b, 22, 23, 40000), 28, 29, 30000)
    History(chk, I, b, "voltage and capacity jumping together", dt=10).step(f, False).step(f, False).step(b, True).done("corruption refused")
    f = but(b, _16=K(0), _17=K(0), _18=K(0), _19=K(0))
    History(chk, I, b, "all cell temperatures dropping to zero", dt=299).step(f, False).step(f, False).step(f, False).step(b, True).done("corruption refused")
    # while a constant register also changed: held with the whole frame
    f = moved(b, (0, 301), (16, 51), (37, 1))
    History(chk, I, b, "two jumps with a changed cell count", dt=10).step(f, False).step(f, False).step(b, True).done("corruption refused")


def serials(chk, I):
    b = healthy()
    for i in SERIAL:
        for extra in ((), ((0, 301),), ((37, 1),), ((0, 301), (1, 301))):
            f = moved(b, (i, 1), *extra)
            h = History(chk, I, b, f"{names(i)} of the serial number changing{' with ' + ', '.join(names(x) for x, _ in extra) if extra else ''}", dt=250, splice_reject_heal_seconds=K(300.0))
            for _ in range(3 if extra else 12):
                h.step(f, False, why="a different serial number is never adopted")
            h.step(b, True, why="the frame agrees with the last good one").done("foreign serials refused")


def constants(chk, I):
    """Cell count and firmware: adopted only after ten polls and splice_heal_seconds of insisting."""
    b = healthy()
    for i, extra in ((37, ()), (38, ()), (38, ((0, 301),)), (37, ((38, 1),))):
        f = moved(b, (i, 1), *extra)
        h = History(chk, I, b, f"{names(i)} changing{' with ' + names(extra[0][0]) if extra else ''} and staying", dt=10, splice_heal_seconds=HEAL)
        for k in range(1, POLLS):
            h.step(f, False, why=f"only {k} polls agree")
        h.step(f, lambda h, st, t: elapsed(h, st, t, 1, HEAL), why="ten polls agree, but adoption also needs splice_heal_seconds")
        if not any(s.cached for s in h.states) and h.good:
            h.fail("refused", f"{h.what}: never adopted, however long it lasts")
        h.done("constants healed")
    timed(chk, I, b, moved(b, (38, 1)), f"{names(38)} changing", "splice_heal_seconds", "constants healed")
    f, g = moved(b, (38, 1)), moved(b, (38, 2))
    for what, between in (("interrupted by a good frame", b), ("changing again half way", g), ("interrupted by a jump", moved(b, (0, 301))), ("interrupted by two jumps", moved(b, (0, 301), (1, 301))), ("interrupted by a foreign serial", moved(b, (50, 1)))):
        h = History(chk, I, b, f"{names(38)} changing, {what}", dt=10, splice_heal_seconds=HEAL)
        for k in range(POLLS - 1):
            h.step(f, False)
        h.step(between, between is b, why="")
        for k in range(POLLS - 1):
            h.step(f, False, why="the insistence was interrupted")
        h.done("constants healed")


def timed(chk, I, b, f, what, setting, kind):
    """With a known setting: adopted at the first poll from the tenth on that is that long after the first."""
    for seconds, poll in ((0.0, POLLS), (45.0, POLLS), (90.0, POLLS), (91.0, POLLS + 1), (110.0, POLLS + 2)):
        h = History(chk, I, b, f"{what}, ten seconds apart, {setting}={seconds:g}", dt=10, **{setting: K(seconds)})
        for k in range(1, poll):
            h.step(f, False, why=f"only {k} polls agree, over {10 * (k - 1)} s")
        h.step(f, True, why=f"{poll} polls agree, over {10 * (poll - 1)} s")
        h.done(kind)


def surges(chk, I):
    """Two or more voltage or capacity changes, in range and smooth: adopted only when enabled, after ten polls and that long."""
    b = healthy()
    up = moved(b, (0, 320), (1, 320))
    h = History(chk, I, b, "two cells surging, healing off", dt=100)
    for _ in range(POLLS + 2):
        h.step(up, False, why="healing a surge is off by default")
    h.done("surges")
    for what, f in (("two cells surging", up), ("cell sum and pack voltage surging", pair(moved(b, (20, 1601)), 22, 23, 30000))):
        if "pack" in what:
            f[20] = K(30000)
        base = b if "pack" not in what else but(b, _20=K(20000))
        h = History(chk, I, base, f"{what}, healing on", dt=10, splice_reject_heal_seconds=HEAL)
        for k in range(1, POLLS):
            h.step(f, False, why=f"only {k} polls agree")
        h.step(f, lambda h, st, t: elapsed(h, st, t, 1, HEAL), why="ten polls agree, but adoption also needs splice_reject_heal_seconds")
        if not any(s.cached for s in h.states) and h.good:
            h.fail("refused", f"{h.what}: never adopted, however long it lasts")
        h.done("surges")
    timed(chk, I, b, up, "two cells surging", "splice_reject_heal_seconds", "surges")
    for i, d in ((16, 51), (43, 51), (21, 201), (40, 11), (45, 51)):
        f = moved(b, (0, 320), (i, d))
        h = History(chk, I, b, f"a cell and {names(i)} moving together, healing on", dt=10, splice_reject_heal_seconds=HEAL)
        for _ in range(POLLS + 2):
            h.step(f, False, why="only voltages and capacities may heal")
        h.done("surges")
    for i, v in ((0, 999), (0, 5001)):
        f = but(moved(b, (1, 320)), **{f"_{i}": K(v)})
        base = but(b, **{f"_{i}": K(3000)})
        h = History(chk, I, base, f"{names(i)} out of range among a surge, healing on", dt=10, splice_reject_heal_seconds=HEAL)
        for _ in range(POLLS + 2):
            h.step(f, False, why="no cell can have that voltage")
        h.done("surges")
    for what, between in (("falling back", b), ("jumping on", moved(up, (0, 301))), ("a temperature joining", moved(up, (16, 51))), ("a single jump", moved(b, (0, 320)))):
        h = History(chk, I, b, f"two cells surging, {what} half way, healing on", dt=10, splice_reject_heal_seconds=HEAL)
        for _ in range(POLLS - 1):
            h.step(up, False)
        h.step(between, None if between is b else False)
        for _ in range(POLLS - 1 if what != "jumping on" else POLLS - 2):
            h.step(up if what != "jumping on" else between, False, why="the surge was interrupted")
        h.done("surges")


def cold(chk, I):
    """No last good frame: the first one is held until the next agrees."""
    b = healthy()
    bad = moved(b, (0, 301))
    hot = but(b, _16=K(0), _18=K(0))
    for empty, what in ((None, "first frames ever"), ([None] * 60, "first frames in an empty cache")):
        History(chk, I, empty, f"{what}, agreeing").step(b, False, why="nothing corroborates it yet").step(b, True, why="two frames agree").step(b, True).done("cold start")
        History(chk, I, empty, f"{what}, disagreeing").step(bad, False).step(b, False, why="the two frames disagree").step(b, True, why="two frames agree").done("cold start")
        History(chk, I, empty, f"{what}, never agreeing", dt=10).step(bad, False).step(b, False).step(bad, False, why="each frame is compared with the one before").step(b, False).done("cold start")
        History(chk, I, empty, f"{what}, far apart").step(b, False).step(b, False, since=FAR, why="the two frames are more than 300 s apart").step(b, True).done("cold start")
        h = History(chk, I, empty, f"{what} with zero cell temperatures", dt=10)
        for _ in range(4):
            h.step(hot, False, why="two zero cell temperatures are the corruption signature")
        h.step(b, False, why="it disagrees with the corrupt frames").step(b, True, why="two healthy frames agree").done("cold start")
        for j in (37, 38, *SERIAL):
            History(chk, I, empty, f"{what}, disagreeing in {names(j)}").step(moved(b, (j, 1)), False).step(b, False, why="the two frames disagree").step(b, True).done("cold start")


def outages(chk, I):
    """After more than 300 s without any frame the thresholds do not apply; zero temperatures still do."""
    b = healthy()
    jump = moved(b, (0, 301), (16, 51), (40, 11))
    hot = but(jump, _16=K(0), _19=K(0))
    History(chk, I, b, "several jumps across an outage").step(b, True).step(jump, True, since=FAR, why="the last good frame is too old to compare with").step(jump, True).done("outages")
    History(chk, I, b, "zero cell temperatures across an outage").step(b, True).step(hot, False, since=FAR, why="two zero cell temperatures are the corruption signature").done("outages")
    h = History(chk, I, b, "a long corrupt stretch", dt=290).step(b, True)
    for _ in range(4):
        h.step(jump, False, why="frames kept arriving: this is no outage")
    h.step(b, True).done("outages")
    # a corrupt frame right after the outage does not end it
    h = History(chk, I, b, "zero temperatures, then a healthy frame after an outage").step(b, True).step(hot, False, since=FAR)
    outage_continues(h)
    h.step(jump, True, why="the outage has not been bridged by a good frame").done("outages")
    History(chk, I, b, "a short read during an outage").step(b, True).step(b[:5], True, since=FAR).done("outages")


def outage_continues(h):
    """Time only moves on: what was more than 300 s before the last poll is that much before the next."""
    n = h.n
    for s in h.states:
        g = gap(h.I, Term("param", f"t_{n + 1}"), Term("param", f"t_{n - 1}"))
        s.st = s.st.copy()
        s.st.facts = {**s.st.facts, Term("cmp", "lt", K(STALE), g): True, Term("cmp", "le", g, K(STALE)): False}


def shorts(chk, I):
    b = healthy()
    jump = moved(b, (0, 301), (16, 51), (40, 11))
    for n in (1, 17, 30, 59):
        History(chk, I, b, f"a read of {n} registers").step(jump[:n], True, why="a short read cannot be classified").done("short reads")
        History(chk, I, b, f"a read of {n} registers in a corrupt stretch", dt=10).step(jump, False).step(b[:n], True).step(jump, False).done("short reads")
    for zeros in [(x, y) for x in range(16, 20) for y in range(x + 1, 20)]:
        hot = but(b, **{f"_{i}": K(0) for i in zeros})
        for cached in (b, None):
            for n in (20, 59):
                History(chk, I, cached, f"a read of {n} registers with zero {names(zeros[0])} and {names(zeros[1])}{'' if cached else ', first seen'}").step(hot[:n], False, why="two zero cell temperatures are the corruption signature").done("short reads")
    History(chk, I, b, "a short read with one zero temperature").step(but(b, _16=K(0))[:40], True).done("short reads")


def seeds(chk, I):
    """A last good frame that cannot be real is replaced by two agreeing live frames."""
    b = healthy()
    fake = [K(0) if i < 16 else v for i, v in enumerate(b)]
    History(chk, I, fake, "a cached frame with every cell at zero").step(b, False, why="nothing corroborates it yet").step(b, True, why="two live frames agree").step(b, True).done("recovery")
    History(chk, I, fake, "a cached frame with every cell at zero, disagreeing frames").step(moved(b, (0, 301)), False).step(b, False).step(b, True).done("recovery")


MINIMUMS = (("plausible changes", 60), ("implausible changes", 60), ("corruption refused", 36), ("foreign serials refused", 20), ("constants healed", 9), ("surges", 10), ("cold start", 18), ("outages", 4), ("short reads", 12))
