C = "client/client.py"
TD = """            try:
                await self.close()
            except Exception:
                _logger.exception("detect: error during connection teardown after failure")
            raise
"""
EXC = "        except (TimeoutError, CommunicationError):\n            # A connection-level"
MIS = "        except PlantTopologyMismatch:\n            # Healthy connection — only the hint was wrong; capabilities already cleared.\n            raise\n"
DT = "        if prior is not None and prior.device_type != caps.device_type:\n            self.plant.capabilities = None\n"
CMP = """        if prior is not None and prior.model_dump(exclude={"arm_firmware_version"}) != final_caps.model_dump(
            exclude={"arm_firmware_version"}
        ):
            self.plant.capabilities = None
"""
END = "        self.plant.capabilities = final_caps\n        return final_caps\n"
AL = "            alive = stamped_after is not None and stamped_after != stamped_before\n"
ALX = "        except (TimeoutError, CommunicationError):\n            alive = False\n"
BEF = "        stamped_before = self.plant.register_block_updated_at.get(block)\n"
CLOSE = """            try:
                await self.close()
            except Exception:
                _logger.exception("probe_alive: error during connection teardown after failed liveness probe")
"""
CASES = [
    ("c22_noclose", [(C, TD, "            raise\n")], {"C22": 1}),
    ("c22_closemask", [(C, TD, "            await self.close()\n            raise\n")], {"C22": 1}),
    ("c22_timeoutonly", [(C, EXC, EXC.replace("(TimeoutError, CommunicationError)", "TimeoutError"))], {"C22": 1}),
    ("c22_lost", [(C, EXC, EXC.replace("(TimeoutError, CommunicationError)", "(TimeoutError, ConnectionLost)"))], {"C22": 1}),
    ("c22_mismatchcloses", [(C, MIS, "")], {"C22": 1}),
    ("c22_wrap", [(C, TD, TD.replace("            raise\n", "            raise CommunicationError('detect failed')\n"))], {"C22": 1}),
    ("c22_early", [(C, "        # Step 2 — BCU probing for HV systems.\n", "        self.plant.capabilities = caps\n")], {"C22": 1}),
    ("c22_notcleared", [(C, DT, DT.replace("            self.plant.capabilities = None\n", ""))], {"C22": 1}),
    ("c22_notcleared2", [(C, CMP, CMP.replace("            self.plant.capabilities = None\n", "            self.plant.capabilities = final_caps\n"))], {"C22": 1}),
    ("c22_fw", [(C, CMP, CMP.replace('exclude={"arm_firmware_version"}', "").replace("(\n            \n        )", "()"))], {"C22": 1}),
    ("c22_excl", [(C, CMP, CMP.replace('exclude={"arm_firmware_version"}', 'exclude={"arm_firmware_version", "meter_addresses"}'))], {"C22": 1}),
    ("c22_excl1", [(C, CMP, CMP.replace('final_caps.model_dump(\n            exclude={"arm_firmware_version"}', 'final_caps.model_dump(\n            exclude={"arm_firmware_version", "lv_bcu_address"}'))], {"C22": 1}),
    ("c22_caps", [(C, CMP, CMP.replace("final_caps.model_dump", "caps.model_dump"))], {"C22": 1}),
    ("c22_copy", [(C, END, "        self.plant.capabilities = final_caps\n        return final_caps.model_copy()\n")], {"C22": 1}),
    ("c22_onlyif", [(C, END, "        if prior is None:\n            self.plant.capabilities = final_caps\n        return final_caps\n")], {"C22": 1}),
    ("c22_hr0", [(C, "        raw_dtc = cache.get(HR(0))\n", "        raw_dtc = cache.get(HR(0), 0x2001)\n"), (C, "        if raw_dtc is None:\n", "        if not cache and raw_dtc is None:\n")], {"C22": 1}),
    ("c22_alive_stamp", [(C, AL, "            alive = stamped_after is not None\n")], {"C22": 1}),
    ("c22_alive_order", [(C, BEF, ""), (C, "            stamped_after = self", "            stamped_before = self.plant.register_block_updated_at.get(block)\n            stamped_after = self")], {"C22": 1}),
    ("c22_alive_block", [(C, "        block = (0x11, \"HR\", 0, 60)\n", "        block = (0x11, \"IR\", 0, 60)\n")], {"C22": 1}),
    ("c22_alive_lost", [(C, ALX, ALX.replace("(TimeoutError, CommunicationError)", "TimeoutError"))], {"C22": 1}),
    ("c22_alive_noclose", [(C, ALX, "        except (TimeoutError, CommunicationError):\n            return False\n")], {"C22": 1}),
    ("c22_alive_always", [(C, "        if not alive:\n            # Release", "        if True:\n            # Release")], {"C22": 1}),
    ("c22_alive_mask", [(C, CLOSE, "            await self.close()\n")], {"C22": 1}),
    ("c22_q_except_order", [(C, MIS, ""), (C, EXC, "        except (TimeoutError, CommunicationError) as exc:\n            if isinstance(exc, PlantTopologyMismatch):\n                raise\n            # A connection-level")], {"C22": 0}),
    ("c22_q_helper", [(C, TD, "            await self._close_quietly()\n            raise\n"), (C, "    async def probe_alive(", "    async def _close_quietly(self):\n        try:\n            await self.close()\n        except Exception:\n            _logger.exception(\"teardown\")\n\n    async def probe_alive("), (C, CLOSE, "            await self._close_quietly()\n")], {"C22": 0}),
    ("c22_q_local", [(C, CMP, "        exclude = {\"arm_firmware_version\"}\n        if prior is not None and final_caps.model_dump(exclude=exclude) != prior.model_dump(exclude=exclude):\n            self.plant.capabilities = None\n")], {"C22": 0}),
    ("c22_q_nested", [(C, CMP, "        changed = prior is not None and not (prior.model_dump(exclude={\"arm_firmware_version\"}) == final_caps.model_dump(exclude={\"arm_firmware_version\"}))\n        if changed:\n            self.plant.capabilities = None\n")], {"C22": 0}),
    ("c22_q_finish", [(C, END, "        return self._adopt(final_caps)\n"), (C, "    async def probe_alive(", "    def _adopt(self, caps):\n        self.plant.capabilities = caps\n        return caps\n\n    async def probe_alive(")], {"C22": 0}),
    ("c22_q_alive", [(C, AL, "            if stamped_after is None:\n                alive = False\n            else:\n                alive = stamped_before != stamped_after\n")], {"C22": 0}),
    ("c22_q_alive2", [(C, ALX, "        except TimeoutError:\n            alive = False\n        except CommunicationError:\n            alive = False\n")], {"C22": 0}),
    ("c22_q_topohelper", [(C, CMP, "        if prior is not None and not self._same_topology(prior, final_caps):\n            self.plant.capabilities = None\n"), (C, "    async def probe_alive(", "    @staticmethod\n    def _same_topology(a, b) -> bool:\n        ignored = {\"arm_firmware_version\"}\n        return a.model_dump(exclude=ignored) == b.model_dump(exclude=ignored)\n\n    async def probe_alive(")], {"C22": 0}),
]
