C = "client/client.py"
P = "pdu/heartbeat.py"
HB = "                    await self.tx_queue.put((message.expected_response().encode(), None, None))\n                    continue\n"
HBI = "                if isinstance(message, HeartbeatRequest):\n"
EXC = '                if isinstance(message, ExceptionBase):\n                    _logger.warning(f"Expected response never arrived but resulted in exception: {message}")\n                    continue\n'
UPD = "                self.plant.update(message)\n"
CRC = '                if getattr(message, "crc_failed", False) and not getattr(message, "lenient_crc_commit", False):\n                    continue\n'
SET = "                if future and not future.done():\n                    future.set_result(message)\n"
GET = "                future = self.expected_responses.get(message.shape_hash(), None)\n"
TRI = '                if not isinstance(message, TransparentResponse):\n                    _logger.warning(f"Received unexpected message type for a client: {message}")\n                    continue\n'
REG = "            self.expected_responses[expected_shape_hash] = response_future\n"
DEL = "            if self.expected_responses.get(expected_shape_hash) is fut:\n                del self.expected_responses[expected_shape_hash]\n"
LOOP = "        tries = 0\n        while tries <= retries:\n"
ERR = "            if response.error:\n"
CASES = [
    # C15
    ("c15_future", [(C, HB, HB.replace("None, None))", "None, self.expected_responses.get(message.shape_hash())))"))], {"C15": 1}),
    ("c15_skip_type", [(C, HB, "                    if message.data_adapter_type == 1:\n                        await self.tx_queue.put((message.expected_response().encode(), None, None))\n                    continue\n")], {"C15": 1}),
    ("c15_first_only", [(C, EXC, EXC.replace("continue", "break"))], {"C15": 1}),
    ("c15_nowait_full", [(C, HB, "                    if self.tx_queue.full():\n                        continue\n" + HB)], {"C15": 1}),
    ("c15_echo", [(C, HB, HB.replace("message.expected_response().encode()", "message.encode()"))], {"C15": 1}),
    ("c15_type", [(P, "HeartbeatResponse(data_adapter_type=self.data_adapter_type)", "HeartbeatResponse()")], {"C15": 1}),
    ("c15_order", [(C, TRI, ""), (C, HBI, TRI.replace("not isinstance(message, TransparentResponse)", "message.function_code != 2") + HBI)], {"C15": 1}),
    ("c15_q_helper", [(C, HB, "                    await self._answer(message)\n                    continue\n"), (C, "    async def _task_network_producer(self):\n", "    async def _answer(self, hb):\n        reply = hb.expected_response()\n        frame = reply.encode()\n        await self.tx_queue.put((frame, None, None))\n\n    async def _task_network_producer(self):\n")], {"C15": 0, "C16": 0, "C03": 0, "C13": 0}),
    ("c15_q_kw", [(P, "HeartbeatResponse(data_adapter_type=self.data_adapter_type)", "HeartbeatResponse(**{\"data_adapter_type\": self.data_adapter_type})")], {"C15": 0}),
    # C16
    ("c16_order", [(C, UPD, ""), (C, SET, SET + UPD)], {"C16": 1}),
    ("c16_crc", [(C, CRC, "")], {"C16": 1}),
    ("c16_crc_inv", [(C, CRC, CRC.replace("and not", "and"))], {"C16": 1}),
    ("c16_done", [(C, SET, SET.replace(" and not future.done()", ""))], {"C16": 1}),
    ("c16_error_uncached", [(C, UPD, "                if not message.error:\n                    self.plant.update(message)\n")], {"C16": 1}),
    ("c16_error_drop", [(C, SET, SET.replace("if future and", "if future and not message.error and"))], {"C16": 1}),
    ("c16_q_early", [(C, SET, "                if not future or future.done():\n                    continue\n                future.set_result(message)\n")], {"C16": 0, "C09": 0}),
    ("c16_q_helper", [(C, GET + SET, "                self._resolve(message)\n"), (C, "    async def _task_network_producer(self):\n", "    def _resolve(self, response):\n        waiter = self.expected_responses.get(response.shape_hash())\n        if waiter is not None and not waiter.done():\n            waiter.set_result(response)\n\n    async def _task_network_producer(self):\n")], {"C16": 0, "C09": 0, "C15": 0}),
    ("c16_q_crcvars", [(C, CRC, '                corrupt = getattr(message, "crc_failed", False)\n                lenient = getattr(message, "lenient_crc_commit", False)\n                if corrupt and not lenient:\n                    continue\n')], {"C16": 0}),
    ("c16_q_nested", [(C, CRC + GET + SET, '                if not getattr(message, "crc_failed", False) or getattr(message, "lenient_crc_commit", False):\n' + GET.replace("                f", "                    f") + SET.replace("                if", "                    if").replace("                    future.set", "                        future.set"))], {"C16": 0, "C09": 0}),
    # C09
    ("c09_key", [(C, "        expected_shape_hash = expected_response.shape_hash()\n", "        expected_shape_hash = request.shape_hash()\n")], {"C09": 1}),
    ("c09_del", [(C, DEL, "            self.expected_responses.pop(expected_shape_hash, None)\n")], {"C09": 1}),
    ("c09_late_reg", [(C, REG, ""), (C, "            if self._connection_lost:\n                # Lost the race", REG + "            if self._connection_lost:\n                # Lost the race")], {"C09": 1}),
    ("c09_nocount", [("pdu/read_registers.py", "super()._extra_shape_hash_keys() + (self.base_register, self.register_count)", "super()._extra_shape_hash_keys() + (self.base_register,)")], {"C09": 1}),
    ("c09_noaddr", [("pdu/transparent.py", "        return (self.device_address,)", "        return ()")], {"C09": 1}),
    ("c09_template_addr", [("pdu/write_registers.py", "            register=self.register, value=self.value, device_address=self.device_address\n", "            register=self.register, value=self.value\n")], {"C09": 1}),
    ("c09_template_cls", [("pdu/read_registers.py", "        return ReadInputRegistersResponse(", "        return ReadHoldingRegistersResponse(")], {"C09": 1}),
    ("c09_value", [("pdu/write_registers.py", "super()._extra_shape_hash_keys() + (self.register,)", "super()._extra_shape_hash_keys() + (self.register, self.value)")], {"C09": 1}),
    ("c09_notype", [("pdu/base.py", "(type(self), self.function_code) +", "(self.function_code,) +")], {"C09": 1}),
    ("c09_match", [(C, GET, "                future = next((f for f in self.expected_responses.values() if not f.done()), None)\n")], {"C09": 1}),
    ("c09_q_in", [(C, GET, "                key = message.shape_hash()\n                future = self.expected_responses[key] if key in self.expected_responses else None\n")], {"C09": 0, "C16": 0}),
    ("c09_q_pop", [(C, DEL, "            current = self.expected_responses.get(expected_shape_hash)\n            if current is fut:\n                self.expected_responses.pop(expected_shape_hash)\n")], {"C09": 0}),
    ("c09_q_dc", [("pdu/base.py", "(type(self), self.function_code) + self._extra_shape_hash_keys()", "(type(self), self.function_code, *self._extra_shape_hash_keys())")], {"C09": 0}),
    # C17
    ("c17_lt", [(C, LOOP, LOOP.replace("<=", "<"))], {"C17": 1}),
    ("c17_nocount", [(C, "                tries += 1\n                # Unlike", "                # Unlike")], {"C17": 1}),
    ("c17_err", [(C, ERR, "            if response.error and tries < retries:\n")], {"C17": 1}),
    ("c17_init", [(C, LOOP, LOOP.replace("tries = 0", "tries = 1"))], {"C17": 1}),
    ("c17_probe_retry", [(C, "                    if warn_timeout:  # count", "                    if tries:  # count")], {"C17": 1}),
    ("c17_retry_last", [(C, "                if tries <= retries:\n                    # Count the consumed", "                if tries <= retries + 1:\n                    # Count the consumed")], {"C17": 1}),
    ("c17_retnone", [(C, "        raise TimeoutError()\n", "        return None\n")], {"C17": 1}),
    ("c17_q_for", [(C, "        tries = 0\n        while tries <= retries:\n", "        for tries in range(retries + 1):\n"), (C, "                tries += 1\n                _logger.debug(\n", "                _logger.debug(\n"), (C, "                if tries <= retries:\n                    # Count", "                if tries < retries:\n                    # Count"), (C, "                tries += 1\n                # Unlike", "                # Unlike"), (C, "                if tries <= retries:\n                    if warn_timeout:  # count", "                if tries < retries:\n                    if warn_timeout:  # count")], {"C17": 0, "C09": 0, "C13": 0}),
    ("c17_q_left", [(C, LOOP, "        tries = 0\n        while not tries > retries:\n")], {"C17": 0}),
    ("c17_q_helper", [(C, "                    if warn_timeout:  # count the consumed retry (#284); skip absent-device probes\n                        self.plant.record_retry(request.device_address)\n                    if retry_delay > 0:\n                        await asyncio.sleep(retry_delay)\n", "                    await self._between(request, retry_delay, warn_timeout)\n"), (C, "    def execute(\n", "    async def _between(self, req, pause, counted):\n        if counted:\n            self.plant.record_retry(req.device_address)\n        if pause > 0:\n            await asyncio.sleep(pause)\n\n    def execute(\n")], {"C17": 0}),
]
