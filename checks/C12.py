"""Integrity of register responses: the CRC is checked on every one, and a failed one changes nothing."""
from checks.C08 import decode_paths, frame, get, is_lan
from sa.check import facts_str
from sa.core import K, Term, is_k, show
from sa.framemodel import CodecPolicy, crc_of, swapped
from sa.plantmodel import changed, update_paths, where_of
from sa.spec_frames import layouts

TITLE = "A register response that fails its CRC never changes the plant's state"
RULE = (
    "decode_bytes() is explored on every register-response layout: each returning path must have compared the swapped Modbus CRC of bytes [26:-2] with the last two bytes, and crc_failed is set exactly on the "
    "paths where they differ; with strict_crc on, a mismatch raises InvalidPduState. Plant.update() is explored with an arbitrary message: every path that changes any plant state other than the CRC "
    "failure counter must have found crc_failed unset or lenient_crc_commit set, and a failing frame is counted under its own device address."
)
STRICT = Term("param", "strict_crc")
COUNTER = "crc_failure_count"


def check(chk):
    I = chk.interp()
    for l in layouts((0, 1, 2, 60)):
        if "Response" in l.cls and "read_registers" in l.cls:
            one(chk, I, l, None)
            if l.n in (1, None):
                one(chk, I, l, STRICT)
    applied(chk, I)


def one(chk, I, l, strict):
    base = I.cls("pdu.read_registers:ReadRegistersResponse")
    owner, was = base.lookup("strict_crc")
    chk.require(was is not None, "ReadRegistersResponse.strict_crc")
    if strict is not None:
        owner.attrs["strict_crc"] = strict
    try:
        pol = CodecPolicy(I, l.length, frame(l))
        fn, ps = decode_paths(chk, I, pol, l.root)
    finally:
        owner.attrs["strict_crc"] = was
    where = chk.loc(I, fn)
    name = l.name + (" (strict_crc)" if strict is not None else "")
    seen = set()
    sent = pol.field(l.length - 2, 2)
    for p in ps:
        lan = p.kind == "return" and p.val.op == "ref" and is_lan(I, pol, p)
        if lan:
            continue
        verdict = compared(chk, I, pol, l, p, sent, where, name)
        if verdict is None and p.kind == "return" and p.val.op == "ref":
            # the verdict itself is what the flag holds, whichever it is
            flag = get(I, p, p.val, "crc_failed")
            if flag is not None and flag.op == "not" and judge(chk, pol, l, flag.args[0], sent, where, name) and strict is None:
                seen |= {"good", "bad"}
                chk.ok("CRC verdicts", f"{name}: crc_failed = {show(flag)[:80]}")
                continue
        if verdict is None:
            if not chk.findings:
                chk.violation("unchecked", name, where, f"a response leaves the decoder ({p.kind}) without its CRC having been compared ({facts_str(p.st)[:200]})")
            continue
        on = p.st.facts.get(STRICT) if strict is not None else False
        if p.kind == "raise":
            if verdict == "bad" and on is not False and "InvalidPduState" in show(p.val):
                seen.add("refused")
                chk.ok("mismatches refused when strict", name)
            else:
                chk.violation("refused", name, where, f"a response whose CRC {'matches' if verdict == 'good' else 'differs'} fails with {show(p.val)}")
            continue
        if strict is not None and verdict == "bad" and on is not False:
            chk.violation("lenient", name, where, "a response with a wrong CRC is returned although strict_crc is set")
            continue
        flag = get(I, p, p.val, "crc_failed")
        if flag is not None and not is_k(flag) and I.known(p.st, flag) is not None:
            flag = K(I.known(p.st, flag))
        if flag == K(verdict == "bad"):
            seen.add(verdict)
            chk.ok("CRC verdicts", f"{name}: crc_failed={verdict == 'bad'}")
        else:
            chk.violation("flag", name, where, f"crc_failed is {show(flag) if flag is not None else flag} where the CRC {'differs' if verdict == 'bad' else 'matches'}")
    for v in ("good", "bad"):
        if v not in seen and not chk.findings:
            chk.violation("unchecked", name, where, f"no path has the CRC found {v}")


def compared(chk, I, pol, l, p, sent, where, name):
    """'good' / 'bad' when the path compared the right CRC with the bytes sent."""
    verdict = None
    for f, b in p.st.facts.items():
        v = judge(chk, pol, l, f, sent, where, name)
        if v:
            verdict = "good" if b else "bad"
    return verdict


def judge(chk, pol, l, f, sent, where, name):
    """Is this condition the comparison of the frame's CRC with the bytes sent?"""
    if f.op == "cmp" and f.args[0] in ("eq", "lt", "le"):
        a, c = f.args[1], f.args[2]
        crcs = crc_of(f)
        if not crcs:
            return False
        raw, over = crcs[0]
        mine, other = (a, c) if crc_of(a) else (c, a)
        if f.args[0] != "eq" or crc_of(other):
            chk.violation("comparison", name, where, f"the CRC is compared as {show(f)}")
            return False
        if pol.span(over) != (26, l.length - 2):
            chk.violation("coverage", name, where, f"the CRC is computed over {show(over)}, not over bytes 26 to {l.length - 2} of {l.length}")
            return False
        order = swapped(mine, raw)
        little = Term("call", Term("ext", "int.from_bytes"), (pol.cut(l.length - 2, l.length), K("little")), (), None)
        if not (order == "swap" and other == sent or order == "same" and other in (little, swap_of(sent)) or order == "same" and swapped(other, sent) == "swap"):
            chk.violation("comparison", name, where, f"{show(mine)} is compared with {show(other)}, not the swapped CRC with the last two bytes")
            return False
        return True
    return False


def swap_of(t):
    return Term("bin", "|", Term("bin", "<<", Term("bin", "&", t, K(255)), K(8)), Term("bin", ">>", t, K(8)))


def applied(chk, I):
    fn, com, rows = update_paths(chk, I)
    good = bad = 0
    for r in rows:
        if r.p.kind == "raise":
            continue
        failed, lenient = r.pdu_attr("crc_failed"), r.pdu_attr("lenient_crc_commit")
        acted = [e for e in r.evs if e in r.changes or e.name == com.name]
        for e in acted:
            if e in r.changes and changed(e) == COUNTER:
                continue
            if failed is False or lenient is True or r.isa("pdu.read_registers:ReadRegistersResponse") is False:
                good += 1
                continue
            chk.violation("applied", changed(e) or e.name, where_of(chk, I, fn, e), f"{e!r} is reached by a response that may have failed its CRC without lenient_crc_commit ({facts_str(r.st)[:200]})")
        if failed is True and lenient is not True:
            counts = [e for e in r.changes if changed(e) == COUNTER]
            key = counts[0].arg(0) if counts else None
            if len(counts) == 1 and key is not None and key.op == "attr" and key.args[1] == "device_address":
                bad += 1
            elif r.pdu_attr("error") is not True:
                chk.violation("uncounted", fn.name, chk.loc(I, fn), f"a response that failed its CRC is counted {len(counts)} times ({facts_str(r.st)[:200]})")
    if good:
        chk.ok("changes that follow the CRC verdict", f"{good} state changes on {len(rows)} paths")
        chk.count("state changes", good)
    if bad:
        chk.ok("failed frames are counted")


MINIMUMS = [("CRC verdicts", 20), ("mismatches refused when strict", 3), ("state changes", 100), ("failed frames are counted", 1)]
