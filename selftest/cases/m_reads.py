"""Fresh changes around the reads of load_config and refresh."""
C = "client/client.py"
import re
SRC = open("/repo/givenergy_modbus/client/client.py").read()
i = SRC.index("        for name, entries in manifest.LOAD_CONFIG_RANGES.items():")
j = SRC.index("        await self._execute_reads(", i)
LOOP = SRC[i:j]
k = SRC.index("        if caps.has_extended_slots:", i - 900)
EXT = SRC[k:i]
CASES = [
    ("mr_ext_ems", [(C, EXT, EXT.replace("if caps.has_extended_slots:", "if caps.has_extended_slots and not self.plant.register_caches.get(inverter):"))], {"C24": 1}),
    ("mr_elif", [(C, EXT, EXT.replace("if caps.has_extended_slots:", "elif caps.has_extended_slots:"))], {"C24": 1}),
    ("mr_break", [(C, LOOP, LOOP.rstrip("\n") + "\n                break\n")], {"C24": 0}),
    ("mr_q_extend", [(C, LOOP, "        for name in manifest.LOAD_CONFIG_RANGES:\n            if not getattr(caps, name):\n                continue\n            for entry in manifest.LOAD_CONFIG_RANGES[name]:\n                reqs.append(_request_for_range(entry, inverter))\n")], {"C24": 0}),
    ("mr_q_comp", [(C, LOOP, "        reqs.extend(\n            _request_for_range(entry, inverter)\n            for name, entries in manifest.LOAD_CONFIG_RANGES.items()\n            if getattr(caps, name)\n            for entry in entries\n        )\n")], {"C24": 0}),
    ("mr_q_chain", [(C, LOOP, "        wanted = [entries for name, entries in manifest.LOAD_CONFIG_RANGES.items() if getattr(caps, name)]\n        for entries in wanted:\n            reqs = [*reqs, *(_request_for_range(r, inverter) for r in entries)]\n")], {"C24": 0}),
    ("mr_q_helper", [(C, EXT, EXT.replace("        if caps.has_extended_slots:", "        extended = caps.has_extended_slots\n        if extended:"))], {"C24": 0}),
    ("mr_all", [(C, LOOP, LOOP.replace("if getattr(caps, name)", "if getattr(caps, name, None) or caps.is_ems"))], {"C24": 1}),
]
