C = "client/client.py"
PR = "                if not ok:\n                    self.plant.mark_absent(pr.device_address, pr.reg_type, pr.base_register, pr.register_count)\n                    self.plant.register_caches.pop(pr.device_address, None)\n"
BCU = "                self.plant.mark_absent(0x70 + i, \"IR\", 60, 60)\n                self.plant.register_caches.pop(0x70 + i, None)\n"
HINT = "                    self.plant.mark_absent(0x70 + offset, \"IR\", 60, 5)\n                    self.plant.register_caches.pop(0x70 + offset, None)\n"
LV = "                    self.plant.mark_absent(batt_addr, \"IR\", 60, 60)\n                    self.plant.register_caches.pop(batt_addr, None)\n                    continue\n"
GATE = "                if not self.plant.register_caches.get(batt_addr):\n                    self.plant.mark_absent(batt_addr, \"IR\", 60, 60)\n"
CASES = [
    ("c23_nopop", [(C, PR, PR.replace("                    self.plant.register_caches.pop(pr.device_address, None)\n", ""))], {"C23": 1}),
    ("c23_count", [(C, HINT, HINT.replace("60, 5", "60, 60"))], {"C23": 1}),
    ("c23_addr", [(C, BCU, BCU.replace("pop(0x70 + i,", "pop(i,"))], {"C23": 1}),
    ("c23_addr2", [(C, BCU, BCU.replace("mark_absent(0x70 + i,", "mark_absent(0x70,"))], {"C23": 1}),
    ("c23_type", [(C, PR, PR.replace("pr.reg_type", '"IR"'))], {"C23": 1}),
    ("c23_inverted", [(C, PR, PR.replace("if not ok", "if ok"))], {"C23": 1}),
    ("c23_nomark", [(C, BCU, BCU.replace("                self.plant.mark_absent(0x70 + i, \"IR\", 60, 60)\n", ""))], {"C23": 1}),
    ("c23_swap", [(C, PR, PR.replace("pr.base_register, pr.register_count", "pr.register_count, pr.base_register"))], {"C23": 1}),
    ("c23_gate", [(C, GATE, GATE.replace("if not self", "if self"))], {"C23": 1}),
    ("c23_always", [(C, GATE, "                self.plant.mark_absent(batt_addr, \"IR\", 60, 60)\n")], {"C23": 1}),
    ("c23_lv_keep", [(C, LV, LV.replace("                    self.plant.register_caches.pop(batt_addr, None)\n", ""))], {"C23": 1}),
    ("c23_q_order", [(C, BCU, "                self.plant.register_caches.pop(0x70 + i, None)\n                self.plant.mark_absent(0x70 + i, \"IR\", 60, 60)\n")], {"C23": 0}),
    ("c23_q_local", [(C, BCU, "                addr = 0x70 + i\n                self.plant.mark_absent(device_address=addr, reg_type=\"IR\", base_register=60, register_count=60)\n                self.plant.register_caches.pop(addr, None)\n")], {"C23": 0}),
    ("c23_q_continue", [(C, PR, "                if ok:\n                    continue\n" + PR.replace("                if not ok:\n", "").replace("                    self", "                self"))], {"C23": 0}),
    ("c23_q_helper", [(C, BCU, "                self._drop_device(0x70 + i, 60)\n"), (C, "    async def _detect_bcu_stacks(\n", "    def _drop_device(self, addr, count):\n        self.plant.mark_absent(addr, \"IR\", 60, count)\n        self.plant.register_caches.pop(addr, None)\n\n    async def _detect_bcu_stacks(\n")], {"C23": 0}),
]
