P="model/plant.py"
B={"C21":1}; OK={"C21":0}
CASES=[
 ("dec_addr",[(P,'"inverter_address": f"0x{self.inverter_address:02x}",','"inverter_address": f"0x{self.inverter_address:02d}",')],B),
 ("drop_hv",[(P,'            "hv_bmu_addresses": [f"0x{a:02x}" for a in self.hv_bmu_addresses],\n',"")],B),
 ("swap",[(P,'"hv_bmu_addresses": [f"0x{a:02x}" for a in self.hv_bmu_addresses]','"hv_bmu_addresses": [f"0x{a:02x}" for a in self.aio_battery_module_addresses]')],B),
 ("load_swap",[(P,'hv_bmu_addresses=[_addr(a) for a in (normalised.get("hv_bmu_addresses") or [])]','hv_bmu_addresses=[_addr(a) for a in (normalised.get("aio_battery_module_addresses") or [])]')],B),
 ("lv_truthy",[(P,'if self.lv_bcu_address is not None else None,','if self.lv_bcu_address else None,')],B),
 ("arm_or",[(P,'"arm_firmware_version": self.arm_firmware_version,','"arm_firmware_version": self.arm_firmware_version or None,')],B),
 ("dt_value",[(P,'"device_type": self.device_type.name,','"device_type": self.device_type.value[:1],')],B),
 ("dt_value_ok",[(P,'"device_type": self.device_type.name,','"device_type": self.device_type.value,')],OK),
 ("dt_member",[(P,'"device_type": self.device_type.name,','"device_type": self.device_type,')],B),
 ("sorted",[(P,'"meter_addresses": [f"0x{a:02x}" for a in self.meter_addresses]','"meter_addresses": [f"0x{a:02x}" for a in reversed(self.meter_addresses)]')],B),
 ("bcu_swap",[(P,'[(int(offset), int(modules)) for offset, modules in','[(int(offset), int(modules)) for modules, offset in')],B),
 ("bcu_tuple_store",[(P,'[[offset, modules] for offset, modules in self.bcu_stacks]','self.bcu_stacks')],B),
 ("version_lt",[(P,'version is not None and version != cls.SCHEMA_VERSION','version is not None and version > cls.SCHEMA_VERSION')],B),
 ("version_type",[(P,'raise ValueError(f"unsupported PlantCapabilities schema','raise RuntimeError(f"unsupported PlantCapabilities schema')],B),
 ("version_needed",[(P,'version is not None and version != cls.SCHEMA_VERSION','version != cls.SCHEMA_VERSION')],B),
 ("pop_input",[(P,'normalised: dict[str, Any] = dict(data)','normalised: dict[str, Any] = data')],B),
 ("null_lists",[(P,'(normalised.get("meter_addresses") or [])','normalised.get("meter_addresses", [])')],B),
 ("alias_wrong",[(P,'"bcu_slaves": "bcu_stacks",','"bcu_slaves": "hv_bmu_addresses",')],B),
 ("alias_gone",[(P,'    "meter_slaves": "meter_addresses",\n','')],B),
 ("dt_byvalue",[(P,'                return Model[v]\n            except (KeyError, TypeError):\n                return Model(str(v))','                return Model(str(v)[:2])\n            except (KeyError, TypeError):\n                return Model(str(v))')],B),
 ("dt_nofallback",[(P,'            except (KeyError, TypeError):\n                return Model(str(v))\n\n        # `.get','            except TypeError:\n                return Model(str(v))\n\n        # `.get')],B),
 ("dt_nostr",[(P,'                return Model(str(v))\n\n        # `.get','                return Model(v)\n\n        # `.get')],B),
 ("heal31",[(P,'    if mapping.get("inverter_address") is not None:\n        return','    if mapping.get("inverter_address") not in (None, 0x31):\n        return')],B),
 ("derive_truthy",[(P,'    if mapping.get("inverter_address") is not None:\n        return','    if mapping.get("inverter_address"):\n        return')],B),
 ("init_truthy",[(P,'        if lv_bcu_address is not None:\n            kwargs','        if lv_bcu_address:\n            kwargs')],B),
 ("init_wrong",[(P,'kwargs["hv_bmu_addresses"] = hv_bmu_addresses','kwargs["aio_battery_module_addresses"] = hv_bmu_addresses')],B),
 ("both",[(P,'        if new in kwargs:\n            raise TypeError(f"pass either {old}= or {new}=, not both")\n','')],B),
 ("base10",[(P,'return int(v, 0) if isinstance(v, str) else int(v)','return int(v, 10) if isinstance(v, str) else int(v)')],B),
 ("mask",[(P,'return int(v, 0) if isinstance(v, str) else int(v)','return int(v, 0) & 0x7F if isinstance(v, str) else int(v)')],B),
 # rewritten
 ("r_hex",[(P,'"inverter_address": f"0x{self.inverter_address:02x}"','"inverter_address": hex(self.inverter_address)')],OK),
 ("r_hash",[(P,'"inverter_address": f"0x{self.inverter_address:02x}"','"inverter_address": f"{self.inverter_address:#04x}"')],OK),
 ("r_helper",[(P,'"meter_addresses": [f"0x{a:02x}" for a in self.meter_addresses]','"meter_addresses": self._hexes(self.meter_addresses)'),(P,'    def to_dict(self) -> dict[str, Any]:','    @staticmethod\n    def _hexes(values):\n        out = []\n        for v in values:\n            out.append("0x" + format(v, "02x"))\n        return out\n\n    def to_dict(self) -> dict[str, Any]:')],OK),
 ("r_helper2",[(P,'"meter_addresses": [f"0x{a:02x}" for a in self.meter_addresses]','"meter_addresses": list(map(self._hex, self.meter_addresses))'),(P,'    def to_dict(self) -> dict[str, Any]:','    @staticmethod\n    def _hex(v):\n        return f"0x{v:02x}"\n\n    def to_dict(self) -> dict[str, Any]:')],OK),
 ("r_ints",[(P,'"meter_addresses": [f"0x{a:02x}" for a in self.meter_addresses]','"meter_addresses": list(self.meter_addresses)')],OK),
 ("r_share",[(P,'"meter_addresses": [f"0x{a:02x}" for a in self.meter_addresses]','"meter_addresses": self.meter_addresses')],B),
 ("r_addrs",[(P,'''        def _addr(v: Any) -> int:''','''        def _addrs(key):
            found = normalised.get(key)
            if not found:
                return []
            return [_addr(a) for a in found]

        def _addr(v: Any) -> int:'''),(P,'meter_addresses=[_addr(a) for a in (normalised.get("meter_addresses") or [])]','meter_addresses=_addrs("meter_addresses")'),(P,'hv_bmu_addresses=[_addr(a) for a in (normalised.get("hv_bmu_addresses") or [])]','hv_bmu_addresses=_addrs("hv_bmu_addresses")')],OK),
 ("r_loop",[(P,'''        return cls(
            device_type=_device_type(normalised["device_type"]),''','''        lists = {}
        for key in ("meter_addresses", "lv_battery_addresses"):
            lists[key] = [_addr(a) for a in (normalised.get(key) or [])]
        return cls(
            **lists,
            device_type=_device_type(normalised["device_type"]),'''),(P,'            meter_addresses=[_addr(a) for a in (normalised.get("meter_addresses") or [])],\n            lv_battery_addresses=[_addr(a) for a in (normalised.get("lv_battery_addresses") or [])],\n','')],OK),
 ("r_addr_else",[(P,'            return int(v, 0) if isinstance(v, str) else int(v)','            if not isinstance(v, str):\n                return int(v)\n            return int(v, 16)')],OK),
 ("r_version",[(P,'        if version is not None and version != cls.SCHEMA_VERSION:\n','        if version not in (None, cls.SCHEMA_VERSION):\n')],OK),
 ("r_dict_build",[(P,'''            "arm_firmware_version": self.arm_firmware_version,
        }''','''        } | {"arm_firmware_version": self.arm_firmware_version}''')],OK),
 ("r_dt_members",[(P,'                return Model[v]\n            except (KeyError, TypeError):\n                return Model(str(v))\n\n        # `.get','                return Model.__members__[v]\n            except (KeyError, TypeError):\n                return Model(str(v))\n\n        # `.get')],OK),
]
