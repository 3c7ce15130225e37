"""Fresh changes around the discovery probes."""
C = "client/client.py"
A1 = '''                    self.plant.mark_absent(batt_addr, "IR", 60, 60)
                    self.plant.register_caches.pop(batt_addr, None)
                    continue
'''
A2 = '''                if not self.plant.register_caches.get(batt_addr):
                    self.plant.mark_absent(batt_addr, "IR", 60, 60)
'''
A3 = '''                self.plant.mark_absent(0x32, "IR", 60, 60)
                self.plant.register_caches.pop(0x32, None)
'''
A4 = '''            else:
                if not self.plant.register_caches.get(0x32):
                    self.plant.mark_absent(0x32, "IR", 60, 60)
'''
CASES = [
    ("mp_first_only", [(C, A1, A1.replace("(batt_addr, \"IR\"", "(batt_candidates[0], \"IR\""))], {"C23": 1}),
    ("mp_break", [(C, A1, A1.replace("                    self.plant.mark_absent(batt_addr, \"IR\", 60, 60)\n", "                    if batt_addr != 0x37:\n                        self.plant.mark_absent(batt_addr, \"IR\", 60, 60)\n"))], {"C23": 1}),
    ("mp_always_absent", [(C, A2, '                self.plant.mark_absent(batt_addr, "IR", 60, 60)\n')], {"C23": 1}),
    ("mp_absent_prior", [(C, A1, A1.replace("self.plant.register_caches.pop(batt_addr, None)", "if prior is None:\n                        self.plant.register_caches.pop(batt_addr, None)"))], {"C23": 1}),
    ("mp_absent32_prior", [(C, A3, A3.replace('self.plant.mark_absent(0x32, "IR", 60, 60)', 'if prior is None:\n                    self.plant.mark_absent(0x32, "IR", 60, 60)'))], {"C23": 1}),
    ("mp_32_keep", [(C, A3, A3.replace("self.plant.register_caches.pop(0x32, None)", "self.plant.register_caches.setdefault(0x32, RegisterCache())"))], {"C23": 1}),
    ("mp_32_finally", [(C, A4, '            finally:\n                self.plant.mark_absent(0x32, "IR", 60, 60)\n')], {"C23": 1}),
    ("mp_q_clear", [(C, A1, A1.replace("self.plant.register_caches.pop(batt_addr, None)", "if batt_addr in self.plant.register_caches:\n                        del self.plant.register_caches[batt_addr]"))], {"C23": 0}),
    ("mp_q_clear2", [(C, A1, A1.replace("self.plant.register_caches.pop(batt_addr, None)", "if self.plant.register_caches.get(batt_addr) is not None:\n                        del self.plant.register_caches[batt_addr]"))], {"C23": 0}),
    ("mp_clear_inv", [(C, A1, A1.replace("self.plant.register_caches.pop(batt_addr, None)", "if batt_addr not in self.plant.register_caches:\n                        self.plant.register_caches.pop(batt_addr, None)"))], {"C23": 1}),
    ("mp_q_filter", [(C, '        for batt_addr in batt_candidates:\n            if batt_addr > 0x32:\n', '        for batt_addr in batt_candidates:\n            if batt_addr <= 0x32:\n                continue\n            if True:\n')], {"C23": 0, "C22": 0}),
    ("mp_q_req", [(C, '''                if not await self._probe(
                    ReadInputRegistersRequest(base_register=60, register_count=60, device_address=batt_addr),
                    timeout=probe_timeout,
                    retries=probe_retries,
                ):
                    self''', '''                request = ReadInputRegistersRequest(base_register=60, register_count=60, device_address=batt_addr)
                answered = await self._probe(request, timeout=probe_timeout, retries=probe_retries)
                if not answered:
                    self''')], {"C23": 0, "C22": 0}),
    ("mp_q_comp", [(C, '        for batt_addr in batt_candidates:\n            if batt_addr > 0x32:\n', '        extra = [a for a in batt_candidates if a > 0x32]\n        for batt_addr in extra:\n            if batt_addr:\n')], {"C23": 0, "C22": 0}),
    ("mp_probe_swallow", [(C, '''        except ConnectionLost:
            raise
        except TimeoutError:
            return False
''', '''        except TimeoutError:
            return False
''')], {"C23": 1}),
]
