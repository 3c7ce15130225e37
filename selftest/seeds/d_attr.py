RG = "model/register.py"
IV = "model/inverter.py"
CL = "client/client.py"
FR = "framer.py"
RC = "model/register_cache.py"
HEAD = '''
import asyncio, logging, sys, itertools, datetime as dt
logging.disable(logging.CRITICAL)
from givenergy_modbus.model.register import *
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.model.inverter import SinglePhaseInverterRegisterGetter as S
from givenergy_modbus.model.inverter_threephase import ThreePhaseInverterRegisterGetter as T
from givenergy_modbus.model.ems import EmsRegisterGetter as E
def get(G, name, *vals):
    rs = G.REGISTER_LUT[name].registers
    return G(RegisterCache(dict(zip(rs, vals)))).get(name)
bad = []
'''
END = '''
print(bad[:5])
sys.exit(1 if bad else 0)
'''
SEEDS = [
    dict(
        id="S40", property="C30",
        needs="a negative reading of an attribute whose lower bound is zero",
        breaks="a value below a lower bound of 0 is passed on",
        edits=[(RG, "(defn.min_value is not None and val < defn.min_value)", "(defn.min_value and val < defn.min_value)")],
        demo=HEAD + '''
from givenergy_modbus.model.gateway import GatewayV1RegisterGetter as GW
for v in range(65536):
    x = (v - 65536 if v > 32767 else v) / 10
    if get(GW, "v_grid", v) != (x if 0 <= x <= 500 else None):
        bad.append(v)
''' + END,
    ),
    dict(
        id="S41", property="C30",
        needs="a register that holds a year past 2099",
        breaks="a date register of 126 is taken for 2026 instead of 2126",
        edits=[(RG, "return datetime(year + 2000, month", "return datetime(year % 100 + 2000, month")],
        demo=HEAD + '''
for y in range(0, 300):
    if get(S, "system_time", y, 2, 3, 4, 5, 6) != dt.datetime(2000 + y, 2, 3, 4, 5, 6):
        bad.append(y)
''' + END,
    ),
    dict(
        id="S42", property="C30",
        needs="a text whose unused character sits in the middle (a NUL between characters)",
        breaks="NULs inside a serial number are kept",
        edits=[(RG, '''                .replace("\\x00", "")
                .upper()''', '''                .strip("\\x00")
                .upper()''')],
        demo=HEAD + '''
for i in range(5):
    v = [0x4142] * 5
    v[i] = 0x4100
    if get(S, "serial_number", *v) != "".join("A" if j == i else "AB" for j in range(5)):
        bad.append(i)
''' + END,
    ),
    dict(
        id="S43", property="C30",
        needs="a slot register of 10000 or more (a corrupt value)",
        breaks="a five-digit slot time is read as its first four digits instead of leaving the slot unset",
        edits=[(RG, "                return TimeSlot.from_repr(start_time, end_time)", "                return TimeSlot.from_repr(start_time, end_time if end_time < 10000 else end_time // 10)")],
        demo=HEAD + '''
for v in range(65536):
    s = get(S, "charge_slot_1", 100, v)
    h, m = divmod(v, 100)
    want = (h, m) if h < 24 and m < 60 else None
    if (None if s is None else (s.end.hour, s.end.minute)) != want:
        bad.append(v)
''' + END,
    ),
    dict(
        id="S44", property="C30",
        needs="a code nobody has seen in a label decoded without a fallback",
        breaks="an unknown charge status raises out of get() and takes the whole device's build() with it",
        edits=[(IV, '''    """Lenient ChargeStatus decode — returns None for unknown codes (#222)."""
    try:
        return ChargeStatus(code)
    except ValueError:
        return None''', '''    """Lenient ChargeStatus decode — returns None for unknown codes (#222)."""
    return ChargeStatus(code) if code in range(7) and code not in (1, 4) else None''')],
        demo=HEAD + '''
for v in range(65536):
    try:
        get(S, "charge_status_label", v)
    except ValueError:
        bad.append(v)
''' + END,
    ),
    dict(
        id="S45", property="C17",
        needs="a request answered with an error response on some attempts and not at all on others",
        breaks="timeouts and error responses are counted apart, so a request can be sent 2*retries+1 times",
        edits=[(CL, "        tries = 0\n        while tries <= retries:\n", "        tries = errors = 0\n        while tries <= retries and errors <= retries:\n"),
               (CL, '''                _logger.error(f"Received error response, retrying: {response}")
                tries += 1
''', '''                _logger.error(f"Received error response, retrying: {response}")
                errors += 1
''')],
        demo='''
import asyncio, logging, sys
logging.disable(logging.CRITICAL)
from givenergy_modbus.client.client import Client
from givenergy_modbus.pdu import *
async def main(quiet, retries):
    c = Client("127.0.0.1", 1)
    req = ReadInputRegistersRequest(base_register=0, register_count=60, device_address=0x11)
    sent = 0
    async def pump():
        nonlocal sent
        while True:
            raw, done, fut = await c.tx_queue.get()
            sent += 1
            if sent > 20:
                return
            done.set_result(True)
            r = req.expected_response()
            r.error = True
            await asyncio.sleep(0)
            if not fut.done() and (quiet == (sent % 2 == 1)):
                fut.set_result(r)
    p = asyncio.create_task(pump())
    try:
        await asyncio.wait_for(c.send_request_and_await_response(req, timeout=0.05, retries=retries, retry_delay=0), 3)
    except TimeoutError:
        pass
    p.cancel()
    return sent
bad = [(q, r, n) for q in (True, False) for r in (0, 1, 3) if (n := asyncio.run(main(q, r))) != r + 1]
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S46", property="C11",
        needs="a complete frame longer than a register response can be (length field 257 to 300)",
        breaks="a long frame is searched through instead of being delivered as one (refused) frame, and a frame inside it is delivered",
        edits=[(FR, "if hdr_len > 300 or u_id", "if hdr_len > 256 or u_id")],
        demo='''
import asyncio, logging, sys
logging.disable(logging.CRITICAL)
from givenergy_modbus.framer import ClientFramer
from givenergy_modbus.pdu.heartbeat import HeartbeatRequest
hb = HeartbeatRequest(data_adapter_serial_number="WO1234G567", data_adapter_type=1).encode()
async def run(parts):
    f, out = ClientFramer(), []
    for p in parts:
        async for m in f.decode(p):
            out.append(type(m).__name__)
    return out
bad = []
for n in (20, 100, 255, 256, 257, 280, 300):
    frame = bytes.fromhex("59590001") + n.to_bytes(2, "big") + bytes.fromhex("0102") + bytes.fromhex("ee") * (n - 2)
    got = asyncio.run(run([frame + hb]))
    if got != ["InvalidFrame", "HeartbeatRequest"] and got != ["InvalidPduState", "HeartbeatRequest"]:
        bad.append((n, got))
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S47", property="C19",
        needs="a high-voltage battery stack of more than six modules behind one controller",
        breaks="the serial numbers of the seventh and eighth module of a stack leave in the export",
        edits=[(RC, "_MAX_BMUS_PER_BCU = 8\n", "_MAX_BMUS_PER_BCU = 6\n")],
        demo='''
import sys
from givenergy_modbus.model.register import IR
from givenergy_modbus.model.register_cache import RegisterCache
s = b"HX2345G678"
bad = []
for k in range(8):
    c = RegisterCache({IR(114 + 120 * k + i): int.from_bytes(s[2 * i : 2 * i + 2], "big") for i in range(5)})
    r = c.redact_serials()
    t = b"".join(r[IR(114 + 120 * k + i)].to_bytes(2, "big") for i in range(5))
    if t != b"HX2345G000":
        bad.append((k, t))
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
]
