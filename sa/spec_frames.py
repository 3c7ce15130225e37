"""The wire layout of every message, written down independently of the codec: offsets from the start of the frame.

 0  u16  0x5959
 2  u16  1
 4  u16  number of bytes that follow (unit id on)
 6  u8   unit id, 1
 7  u8   main function: 1 heartbeat, 2 transparent
 8  10s  data adapter serial
heartbeat:   18 u8 adapter type
transparent: 18 u64 padding, 26 u8 device address, 27 u8 function (0x80 set: error),
             responses: 28 10s inverter serial, body from 38; requests: body from 28; last u16: CRC.
LAN config:  18 seven zero bytes, 25 csv text starting with a comma, last u16: opaque check.
"""

HEADER = 8
SERIAL = ("data_adapter_serial_number", 8, 10)
INVERTER = ("inverter_serial_number", 28, 10)

READS = {3: "ReadHoldingRegisters", 4: "ReadInputRegisters", 0x16: "ReadMeterProductRegisters"}


class Layout:
    """One shape of frame: which class it is, how long, and where each attribute lies."""

    def __init__(self, cls, root, fc, tfc=None, error=False, n=None):
        self.cls, self.root, self.fc, self.tfc, self.error, self.n = cls, root, fc, tfc, error, n
        self.ints = []  # (attribute, offset, size)
        self.texts = [SERIAL]
        self.lists = []  # (attribute, offset, count) of u16
        self.length = None
        self.crc = False

    @property
    def name(self):
        return self.cls.split(":")[1] + ("/error" if self.error else "") + (f"[{self.n}]" if self.n is not None else "")


def heartbeat(cls, root):
    l = Layout("pdu.heartbeat:" + cls, root, 1)
    l.ints = [("data_adapter_type", 18, 1)]
    l.length = 19
    return l


def transparent(cls, root, tfc, response, body, error=False, n=None, lists=()):
    l = Layout(cls, root, 2, tfc, error, n)
    l.ints = [("padding", 18, 8), ("device_address", 26, 1)]
    off = 28
    if response:
        l.texts = [SERIAL, INVERTER]
        off = 38
    for a in body:
        l.ints.append((a, off, 2))
        off += 2
    for a, k in lists:
        l.lists.append((a, off, k))
        off += 2 * k
    l.ints.append(("check", off, 2))
    l.length = off + 2
    l.crc = True
    return l


IN, OUT = "pdu.base:ClientIncomingMessage", "pdu.base:ClientOutgoingMessage"


def layouts(counts=range(0, 61)):
    yield heartbeat("HeartbeatRequest", IN)
    yield heartbeat("HeartbeatResponse", OUT)
    for tfc, name in READS.items():
        for n in counts:
            if n:
                yield transparent(f"pdu.read_registers:{name}Request", OUT, tfc, False, ("base_register", "register_count"), n=n)
        yield transparent(f"pdu.read_registers:{name}Response", IN, tfc, True, ("base_register", "register_count"), error=True)
        for n in counts:
            yield transparent(f"pdu.read_registers:{name}Response", IN, tfc, True, ("base_register", "register_count"), n=n, lists=(("register_values", n),))
    yield transparent("pdu.write_registers:WriteHoldingRegisterRequest", OUT, 6, False, ("register", "value"))
    for e in (False, True):
        yield transparent("pdu.write_registers:WriteHoldingRegisterResponse", IN, 6, True, ("register", "value"), error=e)
        yield transparent("pdu.null:NullResponse", IN, 0, True, (), error=e, lists=(("nulls", 62),))
