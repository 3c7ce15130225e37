P="model/register_cache.py"
B={"C29":1}; OK={"C29":0}
CASES=[
 ("dumps_self",[(P,'json.dumps({f"{reg.reg_type}({reg.index})": value for reg, value in self.items()})','json.dumps(self)')],B),
 ("str_key",[(P,'{f"{reg.reg_type}({reg.index})": value for reg','{str(reg): value for reg')],B),
 ("skip_none",[(P,'for reg, value in self.items()})','for reg, value in self.items() if value})')],B),
 ("no_type",[(P,'{f"{reg.reg_type}({reg.index})": value for reg','{f"HR({reg.index})": value for reg')],B),
 ("colon",[(P,'{f"{reg.reg_type}({reg.index})": value for reg','{f"{reg.reg_type}:{reg.index}": value for reg')],OK),
 ("idx_cut",[(P,'idx = idx[:-1]','idx = idx[:-1][:4]')],B),
 ("idx_strip",[(P,'idx = idx[:-1]','idx = idx.rstrip(")")')],OK),
 ("bool_ok",[(P,'elif isinstance(v, bool):','elif isinstance(v, bytes):')],B),
 ("frac",[(P,'if value != v or not (0 <= value <= 0xFFFF):','if not (0 <= value <= 0xFFFF):')],B),
 ("neg",[(P,'not (0 <= value <= 0xFFFF)','not (value <= 0xFFFF)')],B),
 ("big",[(P,'if value != v or not (0 <= value <= 0xFFFF):','if value != v or value < 0:')],B),
 ("edge",[(P,'not (0 <= value <= 0xFFFF)','not (0 <= value < 0xFFFF)')],B),
 ("edge0",[(P,'not (0 <= value <= 0xFFFF)','not (0 < value <= 0xFFFF)')],B),
 ("none",[(P,'                        value = None\n','                        value = 0\n')],B),
 ("none_drop",[(P,'                    if v is None:\n','                    if v is None:\n                        continue\n                    if v is None:\n')],B),
 ("overflow",[(P,'except (KeyError, ValueError, TypeError, OverflowError):','except (KeyError, ValueError, TypeError):')],B),
 ("typeerr",[(P,'except (KeyError, ValueError, TypeError, OverflowError):','except (KeyError, ValueError, OverflowError):')],B),
 ("abort",[(P,'                    _logger.warning("Skipping unloadable register entry %r=%r", k, v)\n                    continue','                    _logger.warning("Skipping unloadable register entry %r=%r", k, v)\n                    break')],B),
 ("mr",[(P,'lookup = {"HR": HR, "IR": IR, "MR": MR}','lookup = {"HR": HR, "IR": IR}')],B),
 ("swap",[(P,'lookup = {"HR": HR, "IR": IR, "MR": MR}','lookup = {"HR": HR, "IR": IR, "MR": IR}')],B),
 ("colon_gone",[(P,'elif k.find(":") > 0:','elif k.find("=") > 0:')],B),
 # compact
 ("grid",[(P,'if idx == prev + 1 and idx // _COMPACT_STRIDE == base // _COMPACT_STRIDE:','if idx == prev + 1:')],B),
 ("grid2",[(P,'if idx == prev + 1 and idx // _COMPACT_STRIDE == base // _COMPACT_STRIDE:','if idx == prev + 1 and idx - base < _COMPACT_STRIDE:')],B),
 ("gap",[(P,'if idx == prev + 1 and idx //','if idx <= prev + 2 and idx //')],B),
 ("last",[(P,'    blocks.append((base, prev - base + 1))\n    return blocks','    if prev > base:\n        blocks.append((base, prev - base + 1))\n    return blocks')],B),
 ("count",[(P,'            blocks.append((base, prev - base + 1))\n            base','            blocks.append((base, prev - base))\n            base')],B),
 ("unsorted",[(P,'_compact_blocks(sorted(present))','_compact_blocks(list(present))')],B),
 ("dev_unsorted",[(P,'for device in sorted(caches):','for device in caches:')],B),
 ("nomr",[(P,'for bank in ("HR", "IR", "MR"):\n            present','for bank in ("HR", "IR"):\n            present')],B),
 ("upper",[(P,'& 0xFFFF:04x}" for i','& 0xFFFF:04X}" for i')],B),
 ("narrow",[(P,'& 0xFFFF:04x}" for i','& 0xFFFF:x}" for i')],B),
 ("mask",[(P,'& 0xFFFF:04x}" for i','& 0x7FFF:04x}" for i')],B),
 ("truthy",[(P,'if isinstance(val, int) and not isinstance(val, bool):','if isinstance(val, int) and val:')],B),
 ("dev_dec",[(P,'lines.append(f"0x{device:02x}:','lines.append(f"0x{device:02d}:')],B),
 ("bank_mix",[(P,'by_bank.setdefault(reg.reg_type, {})','by_bank.setdefault("IR" if reg.reg_type == "MR" else reg.reg_type, {})')],B),
 ("parse_dev",[(P,'device = int(inline.group(1), 16)','device = int(inline.group(1))')],B),
 ("parse_swap",[(P,'inline.group(2), int(inline.group(3)), int(inline.group(4)), inline','inline.group(2), int(inline.group(4)), int(inline.group(3)), inline')],B),
 ("reflow_one",[(P,'        while len(hexstr) < want and i < n','        if len(hexstr) < want and i < n')],B),
 ("reflow_greedy",[(P,'        while len(hexstr) < want and i < n and','        while i < n and')],OK),
 ("reflow_not_skipped",[(P,'            hexstr += lines[i]\n            i += 1\n','            hexstr = lines[i]\n            i += 1\n')],B),
 ("short_kept",[(P,'        if len(hexstr) != want:','        if len(hexstr) > want:')],B),
 ("long_kept",[(P,'        if len(hexstr) != want:','        if len(hexstr) < want:')],B),
 ("abort_short",[(P,'expected %d: %r", len(hexstr), want, line)\n            continue','expected %d: %r", len(hexstr), want, line)\n            break')],B),
 ("offset",[(P,'int(hexstr[j * 4 : j * 4 + 4], 16)','int(hexstr[j * 4 : j * 4 + 3], 16)')],B),
 ("newcache",[(P,'cache = caches.setdefault(device, RegisterCache())','cache = caches[device] = RegisterCache()')],B),
 ("legacy_dev",[(P,'            device = legacy_device\n','            device = legacy_device & 0x1F\n')],B),
 ("legacy_header",[(P,'            legacy_device = int(header.group(1), 16)\n            continue','            legacy_device = legacy_device or int(header.group(1), 16)\n            continue')],B),
 ("nostrip",[(P,'[line.strip() for line in text.splitlines()]','[line.rstrip() for line in text.splitlines()]')],B),
 ("hexlower",[(P,'re.compile(r"^[0-9a-fA-F]+$")','re.compile(r"^[0-9a-f]{2,}$")')],B),
 # rewritten
 ("r_for",[(P,'        hexstr_placeholder','')] if False else [(P,'hexstr = "".join(f"{present[base + i] & 0xFFFF:04x}" for i in range(count))','words = []\n                for i in range(base, base + count):\n                    words.append(format(present[i] & 0xFFFF, "04x"))\n                hexstr = "".join(words)')],OK),
 ("r_helper",[(P,'            by_bank: dict[str, dict[int, int]] = {}\n' if False else '        by_bank: dict[str, dict[int, int]] = {}\n        for reg, val in caches[device].items():\n            if isinstance(val, int) and not isinstance(val, bool):\n                by_bank.setdefault(reg.reg_type, {})[reg.index] = val\n','        by_bank = _by_bank(caches[device])\n'),(P,'def to_compact(','def _by_bank(cache):\n    out = {"HR": {}, "IR": {}, "MR": {}}\n    for reg, val in cache.items():\n        if not isinstance(val, int) or isinstance(val, bool):\n            continue\n        out[reg.reg_type][reg.index] = val\n    return out\n\n\ndef to_compact(')],OK),
 ("r_join",[(P,'return "".join(line + "\\n" for line in lines)','return "\\n".join([*lines, ""]) if lines else ""')],OK),
 ("r_part",[(P,'                    reg, idx = k.split("(", maxsplit=1)\n                    idx = idx[:-1]','                    reg, _, idx = k.partition("(")\n                    idx = idx[:-1]')],OK),
 ("r_in",[(P,'if k.find("(") > 0:','if "(" in k[1:]:')],OK),
 ("r_json_loop",[(P,'        return json.dumps({f"{reg.reg_type}({reg.index})": value for reg, value in self.items()})','        out = {}\n        for reg in self:\n            out["%s(%d)" % (reg.reg_type, reg.index)] = self[reg]\n        return json.dumps(out, indent=2)')],OK),
 ("r_while",[(P,'    lines = [line.strip() for line in text.splitlines()]\n    i, n = 0, len(lines)\n    while i < n:\n        line = lines[i]\n        i += 1\n','    lines = list(map(str.strip, text.splitlines()))\n    i = 0\n    n = len(lines)\n    while True:\n        if i >= n:\n            break\n        line = lines[i]\n        i += 1\n')],OK),
 ("r_step",[(P,'        for j in range(count):\n            cache[cls(base + j)] = int(hexstr[j * 4 : j * 4 + 4], 16)','        for j, at in enumerate(range(0, want, 4)):\n            word = hexstr[at : at + 4]\n            cache[cls(base + j)] = int(word, 16)')],OK),
 ("r_walrus",[(P,'        header = _COMPACT_LEGACY_HEADER_RE.match(line)\n        if header:','        if (header := _COMPACT_LEGACY_HEADER_RE.match(line)) is not None:')],OK),
 ("r_hook_outside",[(P,'return cls(registers=(json.loads(data, object_hook=register_object_hook)))','return cls(register_object_hook(json.loads(data)))')],OK),
]
