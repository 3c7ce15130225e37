P, S = "model/plant.py", "model/battery_splice.py"
B, OK = {"C26": 1}, {"C26": 0}
CASES = [
    # thresholds and membership
    ("t_cell", [(S, '("cell_mV", list(range(0, 16)), 300)', '("cell_mV", list(range(0, 15)), 300)')], B),
    ("t_cell_thr", [(S, '("cell_mV", list(range(0, 16)), 300)', '("cell_mV", list(range(0, 16)), 400)')], B),
    ("t_temp", [(S, "[16, 17, 18, 19, 43, 44], 50", "[16, 17, 18, 19, 44], 50")], B),
    ("t_soc", [(S, '("soc_pct", [40], 10)', '("soc_pct", [40], 20)')], B),
    ("t_ge", [(S, "if abs(new[i] - prev[i]) > thr:", "if abs(new[i] - prev[i]) >= thr:")], B),
    ("t_abs", [(S, "if abs(new[i] - prev[i]) > thr:", "if new[i] - prev[i] > thr:")], B),
    ("t_pair_low", [(S, "new_val = (new[hi] << 16) | new[lo]", "new_val = new[lo]")], B),
    ("t_pair_swap", [(S, '("cap_centiAh", (26, 27), 1500)', '("cap_centiAh", (27, 26), 1500)')], B),
    ("t_pair_abs", [(S, "if abs(new_val - old_val) > thr:", "if (new_val - old_val) > thr:")], B),
    ("t_immut", [(S, "IMMUTABLE: list[int] = [37, 38, *range(50, 55)]", "IMMUTABLE: list[int] = [37, 38, *range(50, 54)]")], B),
    ("t_present", [(S, "            if present is not None and i not in present:\n                continue\n            if abs(", "            if abs(")], B),
    ("t_zero_exempt", [(S, "            if abs(new[i] - prev[i]) > thr:", "            if prev[i] and abs(new[i] - prev[i]) > thr:")], B),
    # escrow
    ("e_any_reg", [(P, "if held is not None and held[0] == ir_no and abs(new_val", "if held is not None and abs(new_val")], B),
    ("e_no_value", [(P, "and held[0] == ir_no and abs(new_val - held[1]) <= THRESHOLD_BY_CLASS[name]:", "and held[0] == ir_no:")], B),
    ("e_sticky_clean", [(P, "        reverted = self._splice_escrow.pop(device_address, None)\n        if reverted", "        reverted = self._splice_escrow.get(device_address)\n        if reverted")], B),
    ("e_sticky_serial", [(P, "        if serial_immut:\n            self._splice_escrow.pop(device_address, None)\n", "        if serial_immut:\n")], B),
    ("e_sticky_multi", [(P, "        if len(phys) >= 2 and not scalar_immut:\n            self._splice_escrow.pop(device_address, None)\n", "        if len(phys) >= 2 and not scalar_immut:\n")], B),
    ("e_first_commits", [(P, "            self._splice_escrow[device_address] = (ir_no, new_val)\n            self._bump(self.splice_held_count, device_address)\n", "            self._splice_escrow[device_address] = (ir_no, new_val)\n            if held is not None:\n                return True\n            self._bump(self.splice_held_count, device_address)\n")], B),
    # several
    ("m_three", [(P, "        if len(phys) >= 2 and not scalar_immut:\n            self", "        if len(phys) >= 3 and not scalar_immut:\n            self")], B),
    ("m_heal_default", [(P, "splice_reject_heal_seconds: float | None = Field(default=None", "splice_reject_heal_seconds: float | None = Field(default=900.0")], B),
    ("m_eligible_any", [(P, "is not None and heal_eligible(phys):", "is not None and any(heal_eligible([t]) for t in phys):")], B),
    ("m_noneligible_keep_streak", [(P, "                return self._handle_reject_streak(device_address, new, present, phys, now_ts)\n            self._splice_reject_streak.pop(device_address, None)\n", "                return self._handle_reject_streak(device_address, new, present, phys, now_ts)\n")], B),
    ("m_singleton_keep_streak", [(P, "        self._splice_immut_streak.pop(device_address, None)\n        self._splice_reject_streak.pop(device_address, None)\n\n        if len(phys) == 1:", "        self._splice_immut_streak.pop(device_address, None)\n\n        if len(phys) == 1:")], B),
    ("m_polls", [(S, "SPLICE_REJECT_HEAL_POLLS: int = 10", "SPLICE_REJECT_HEAL_POLLS: int = 9")], B),
    ("m_or", [(P, "if count >= SPLICE_REJECT_HEAL_POLLS and elapsed >= heal_seconds:", "if count >= SPLICE_REJECT_HEAL_POLLS or elapsed >= heal_seconds:")], B),
    ("m_jump_continues", [(P, "                self._splice_reject_streak[device_address] = (new, now_ts, 1)\n                new_streak = True\n        else:", "                self._splice_reject_streak[device_address] = (new, started, streak[2] + 1)\n                new_streak = True\n        else:")], B),
    ("m_restart_clock", [(P, "                self._splice_reject_streak[device_address] = (new, started, count)", "                self._splice_reject_streak[device_address] = (new, now_ts, count)")], B),
    ("m_range", [(S, '"cell_mV": (1000, 5000),', '"cell_mV": (0, 5000),')], B),
    # constants
    ("c_polls", [(S, "SCALAR_IMMUT_HEAL_POLLS: int = 10", "SCALAR_IMMUT_HEAL_POLLS: int = 6")], B),
    ("c_time", [(P, "if count >= SCALAR_IMMUT_HEAL_POLLS and elapsed >= self.splice_heal_seconds:", "if count >= SCALAR_IMMUT_HEAL_POLLS:")], B),
    ("c_heal_wrong", [(P, "if count >= SCALAR_IMMUT_HEAL_POLLS and elapsed >= self.splice_heal_seconds:", "if count >= SCALAR_IMMUT_HEAL_POLLS and elapsed >= (self.splice_reject_heal_seconds or 0):")], B),
    ("c_sig_regs", [(P, "sig = tuple(sorted((ir_no, new_val) for ir_no, _name, _old, new_val in scalar_immut))", "sig = tuple(sorted((ir_no, 0) for ir_no, _name, _old, new_val in scalar_immut))")], B),
    ("c_serial_scalar", [(S, "IMMUTABLE_SCALAR: frozenset[int] = frozenset({BANK_BASE + 37, BANK_BASE + 38})", "IMMUTABLE_SCALAR: frozenset[int] = frozenset({BANK_BASE + 37, BANK_BASE + 38, BANK_BASE + 54})"), (S, "frozenset(range(BANK_BASE + 50, BANK_BASE + 55))", "frozenset(range(BANK_BASE + 50, BANK_BASE + 54))")], B),
    ("c_no_interrupt_multi", [(P, "            self._splice_escrow.pop(device_address, None)\n            self._splice_immut_streak.pop(device_address, None)\n            if self.splice_reject_heal_seconds", "            self._splice_escrow.pop(device_address, None)\n            if self.splice_reject_heal_seconds")], B),
    ("c_no_interrupt_serial", [(P, "        if serial_immut:\n            self._splice_escrow.pop(device_address, None)\n            self._splice_immut_streak.pop(device_address, None)\n", "        if serial_immut:\n            self._splice_escrow.pop(device_address, None)\n")], B),
    ("c_no_interrupt_clean", [(P, "        self._splice_immut_streak.pop(device_address, None)\n        self._splice_reject_streak.pop(device_address, None)\n\n        if len(phys) == 1:", "        self._splice_reject_streak.pop(device_address, None)\n\n        if len(phys) == 1:")], B),
    ("c_before_phys", [(P, "        if scalar_immut:\n            self._splice_reject_streak.pop(device_address, None)\n            return", "        if scalar_immut and not phys:\n            self._splice_reject_streak.pop(device_address, None)\n            return")], B),
    # cold start
    ("s_first", [(P, "        if not present:\n", "        if not present and register_count > 60:\n")], B),
    ("s_stale", [(P, "if pending is not None and (now_ts - pending[1]).total_seconds() > STALE_BYPASS_SECONDS:\n            pending = None", "if pending is not None and (now_ts - pending[1]).total_seconds() > 10 * STALE_BYPASS_SECONDS:\n            pending = None")], B),
    ("s_first_wins", [(P, "        self._splice_pending_baseline[device_address] = (frame, now_ts)\n", "        self._splice_pending_baseline.setdefault(device_address, (frame, now_ts))\n")], B),
    ("s_immut_ignored", [(P, "            if not phys and not immut:\n                self._splice_pending", "            if not phys:\n                self._splice_pending")], B),
    ("s_cohort", [(P, "if not phys and not immut and is_corruption_cohort(frame, incoming_present):", "if not phys and not immut and is_corruption_cohort(frame, set()):")], B),
    ("s_cohort3", [(S, "    return zeros >= 2\n", "    return zeros >= 3\n")], B),
    # outage
    ("o_window", [(S, "STALE_BYPASS_SECONDS: int = 300", "STALE_BYPASS_SECONDS: int = 240")], B),
    ("o_commit_clock", [(P, "        prev_seen = self._splice_last_seen.get(device_address)\n        self._splice_last_seen[device_address] = now_ts", "        prev_seen = self.register_block_updated_at.get((device_address, 'IR', 60, 60))\n        self._splice_last_seen[device_address] = now_ts")], B),
    ("o_cohort", [(P, "STALE_BYPASS_SECONDS:\n            if is_corruption_cohort(new, incoming_present):", "STALE_BYPASS_SECONDS:\n            if is_corruption_cohort(new, incoming_present) and prev_seen is None:")], B),
    ("o_disarm", [(P, "                self._splice_last_seen[device_address] = prev_seen\n", "")], B),
    ("o_short_clock", [(P, "        if register_count < 60:\n            if is_corruption_cohort", "        if register_count < 60:\n            self._splice_last_seen[device_address] = now_ts\n            if is_corruption_cohort")], B),
    ("o_never", [(P, "if prev_seen is not None and (now_ts - prev_seen).total_seconds() > STALE_BYPASS_SECONDS:", "if prev_seen is not None and False:")], B),
    # short
    ("h_short_cohort", [(P, "        if register_count < 60:\n            if is_corruption_cohort(new, incoming_present):", "        if register_count < 60:\n            if is_corruption_cohort(new, present):")], B),
    ("h_short_59", [(P, "        if register_count < 60:\n            if is_corr", "        if register_count < 59:\n            if is_corr")], B),
    # recovery
    ("r_defend", [(P, "if is_internally_impossible(prev, cache_present) and not is_internally_impossible(new, incoming_present):", "if False:")], B),
    # behaviour preserving
    ("k_loop", [(S, "    for i in IMMUTABLE:\n        if present is not None and i not in present:\n            continue\n        if new[i] != prev[i]:\n            immut.append((i + BANK_BASE, \"IMMUTABLE\", prev[i], new[i]))\n", "    immut += [(i + BANK_BASE, \"IMMUTABLE\", prev[i], new[i]) for i in IMMUTABLE if (present is None or i in present) and new[i] != prev[i]]\n")], OK),
    ("k_helper", [(S, "            if abs(new[i] - prev[i]) > thr:", "            if _jumps(prev[i], new[i], thr):"), (S, "def classify_transition(", "def _jumps(a, b, thr):\n    return not -thr <= b - a <= thr\n\n\ndef classify_transition(")], OK),
    ("k_order", [(P, "        serial_immut = [t for t in immut if t[0] in IMMUTABLE_SERIAL]\n        scalar_immut = [t for t in immut if t[0] in IMMUTABLE_SCALAR]", "        scalar_immut = [t for t in immut if t[0] not in IMMUTABLE_SERIAL]\n        serial_immut = [t for t in immut if t not in scalar_immut]")], OK),
    ("k_clear", [(P, "        if serial_immut:\n            self._splice_escrow.pop(device_address, None)\n            self._splice_immut_streak.pop(device_address, None)\n            self._splice_reject_streak.pop(device_address, None)\n", "        if serial_immut:\n            for held in (self._splice_escrow, self._splice_immut_streak, self._splice_reject_streak):\n                held.pop(device_address, None)\n")], OK),
    ("k_early", [(P, "            if not step_phys and not step_immut:\n                # Smooth", "            if not (step_phys or step_immut):\n                # Smooth")], OK),
]
