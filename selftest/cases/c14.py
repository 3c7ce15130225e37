C = "client/client.py"
PROBE = "            return True\n        except ConnectionLost:\n            raise\n        except TimeoutError:\n            return False\n"
LV = "            except ConnectionLost:\n                raise  # a dead connection is not an absent battery (#356 dual-base ordering)\n"
FOR = "        for pr in ranges:\n"
BCU = '        """Populate caps.bcu_stacks. Hinted mode trusts prior layout; cold mode reads BMS at 0xA0."""\n'
CASES = [
    ("c14_probe", [(C, PROBE, PROBE.replace("        except ConnectionLost:\n            raise\n", ""))], {"C14": 1}),
    ("c14_probe_comm", [(C, PROBE, PROBE.replace("        except ConnectionLost:\n            raise\n        except TimeoutError:", "        except (TimeoutError, CommunicationError):"))], {"C14": 1}),
    ("c14_probe_true", [(C, PROBE, PROBE.replace("            raise\n", "            return True\n"))], {"C14": 1}),
    ("c14_lv", [(C, LV, "")], {"C14": 1}),
    ("c14_lv_log", [(C, LV, LV.replace("raise  #", "return  #"))], {"C14": 1}),
    ("c14_ranges", [(C, '            if pr.tier == "known":\n                await self.send_request_and_await_response(request, timeout=timeout, retries=retries)\n', '            if pr.tier == "known":\n                try:\n                    await self.send_request_and_await_response(request, timeout=timeout, retries=retries)\n                except TimeoutError:\n                    continue\n')], {"C14": 1}),
    ("c14_wrap_last", [(C, '            await self._probe_ranges(_strategise(caps, prior, "lv_bcu"), timeout, retries, probe_timeout, probe_retries)\n', '            try:\n                await self._probe_ranges(_strategise(caps, prior, "lv_bcu"), timeout, retries, probe_timeout, probe_retries)\n            except TimeoutError:\n                _logger.debug("no LV BCU page")\n')], {"C14": 1}),
    ("c14_q_merged", [(C, PROBE, "            return True\n        except TimeoutError as exc:\n            if isinstance(exc, ConnectionLost):\n                raise\n            return False\n")], {"C14": 0}),
    ("c14_q_helper", [(C, "                if not ok:\n                    self.plant.mark_absent(pr.device_address, pr.reg_type, pr.base_register, pr.register_count)\n                    self.plant.register_caches.pop(pr.device_address, None)\n", "                if not ok:\n                    self._forget(pr.device_address, pr.reg_type, pr.base_register, pr.register_count)\n"), (C, "    async def _detect_bcu_stacks(\n", "    def _forget(self, addr, kind, base, count):\n        self.plant.mark_absent(addr, kind, base, count)\n        self.plant.register_caches.pop(addr, None)\n\n    async def _detect_bcu_stacks(\n")], {"C14": 0}),
    ("c14_q_probe_or_mark", [(C, "                if not ok:\n                    self.plant.mark_absent(pr.device_address, pr.reg_type, pr.base_register, pr.register_count)\n                    self.plant.register_caches.pop(pr.device_address, None)\n", ""), (C, "                ok = await self._probe(request, timeout=probe_timeout, retries=probe_retries)\n", "                ok = await self._probe_or_forget(pr, request, probe_timeout, probe_retries)\n"), (C, "    async def _detect_bcu_stacks(\n", "    async def _probe_or_forget(self, pr, request, timeout, retries):\n        if await self._probe(request, timeout=timeout, retries=retries):\n            return True\n        self.plant.mark_absent(pr.device_address, pr.reg_type, pr.base_register, pr.register_count)\n        self.plant.register_caches.pop(pr.device_address, None)\n        return False\n\n    async def _detect_bcu_stacks(\n")], {"C14": 0}),
    ("c14_flag_break", [(C, FOR, FOR + "            if self._connection_lost:\n                break\n")], {"C14": 1}),
    ("c14_flag_continue", [(C, FOR, FOR + "            if not self.connected:\n                continue\n")], {"C14": 1}),
    ("c14_flag_stop", [(C, BCU, BCU + "        if self._connection_lost:\n            return\n")], {"C14": 1}),
    ("c14_q_flag_raise", [(C, FOR, FOR + "            if self._connection_lost:\n                raise ConnectionLost(\"gone\")\n")], {"C14": 0}),
    ("c14_q_flag_log", [(C, FOR, FOR + "            if self._connection_lost:\n                _logger.debug(\"next send will fail\")\n")], {"C14": 0}),
]
