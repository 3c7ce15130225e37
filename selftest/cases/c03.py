C = "client/client.py"
SLEEP = "            await asyncio.sleep(self.tx_message_wait + random.uniform(0, self.tx_jitter))  # nosec B311\n"
SKIP = "            if response_future is not None and response_future.done():\n"
HB = "                    await self.tx_queue.put((message.expected_response().encode(), None, None))\n"
CASES = [
    ("c03_cancelled_only", [(C, SKIP, "            if response_future is not None and response_future.cancelled():\n")], {"C03": 1}),
    ("c03_sleep_if_queue", [(C, SLEEP, "            if not self.tx_queue.empty():\n    " + SLEEP)], {"C03": 1}),
    ("c03_jitter_sym", [(C, "random.uniform(0, self.tx_jitter)", "random.uniform(-self.tx_jitter, self.tx_jitter)")], {"C03": 1}),
    ("c03_heartbeat_direct", [(C, HB, "                    self.writer.write(message.expected_response().encode())\n")], {"C03": 1}),
    ("c03_connect_only_connected", [(C, "            or self.network_producer_task is not None\n", ""), (C, "            or self.network_consumer_task is not None\n", "")], {"C03": 1}),
    ("c03_trunc", [(C, "self.writer.write(message)", "self.writer.write(message[:300])")], {"C03": 1}),
    ("c03_pace_between", [(C, SLEEP, ""), (C, "            try:\n                self.writer.write(message)\n", "            await asyncio.sleep(self.tx_message_wait + random.uniform(0, self.tx_jitter))\n            try:\n                self.writer.write(message)\n")], {"C03": 1}),
    ("c03_burst", [(C, "                self.writer.write(message)\n", "                self.writer.write(message)\n                while not self.tx_queue.empty():\n                    m2, f2, r2 = self.tx_queue.get_nowait()\n                    self.writer.write(m2)\n")], {"C03": 1}),
    ("c03_raw_put", [(C, "self.tx_queue.put((raw_frame, frame_sent, response_future))", "self.tx_queue.put((raw_frame + b'', frame_sent, response_future))")], {"C03": 1}),
    ("c03_q_alias", [(C, "                self.writer.write(message)\n", "                w = self.writer\n                w.write(message)\n")], {"C03": 0}),
    ("c03_q_helper", [(C, SLEEP, "            await self._pace()\n"), (C, "    async def _task_network_producer(self):\n", "    async def _pace(self):\n        gap = self.tx_message_wait\n        gap += random.uniform(0, self.tx_jitter)\n        await asyncio.sleep(gap)\n\n    async def _task_network_producer(self):\n")], {"C03": 0}),
    ("c03_q_item", [(C, "            message, frame_sent, response_future = await self.tx_queue.get()\n", "            item = await self.tx_queue.get()\n            message = item[0]\n            frame_sent = item[1]\n            response_future = item[2]\n")], {"C03": 0}),
    ("c03_q_while_true", [(C, '        while hasattr(self, "writer") and self.writer and not self.writer.is_closing():\n', '        while True:\n            if not (hasattr(self, "writer") and self.writer) or self.writer.is_closing():\n                break\n')], {"C03": 0}),
    ("c03_q_nested_if", [(C, SKIP, "            answered = response_future is not None and response_future.done()\n            if answered:\n")], {"C03": 0}),
    ("c03_q_needs_cleanup", [(C, "            await self.close()\n        self._shutting_down = False\n", "            await self.close()\n        else:\n            _logger.debug('fresh')\n        self._shutting_down = False\n"), (C, '            or getattr(self, "reader", None) is not None\n', '            or (hasattr(self, "reader") and self.reader is not None)\n')], {"C03": 0}),
]
