C = "client/client.py"
ABORT2 = "                self.tx_queue.task_done()\n                self._abort_connection(exc)\n                return\n            self.tx_queue"
FAIL = "                for fut in (frame_sent, response_future):\n                    if fut is not None and not fut.done():\n                        fut.set_exception(exc)\n"
READ = '            except OSError as e:\n                # A reset or timed-out socket surfaces here rather than as EOF; same teardown.\n                _logger.debug("network_consumer: socket error during read (%s)", e)\n                break\n'
QDRAIN = "            for queued_fut in (frame_sent, response_future):\n                if queued_fut is not None and not queued_fut.done():\n                    queued_fut.set_exception(exc)\n"
SWEEP = "        for fut in self.expected_responses.values():\n            if not fut.done():\n                fut.set_exception(exc)\n                aborted += 1\n"
CASES = [
    ("c13_no_abort", [(C, ABORT2, ABORT2.replace("                self._abort_connection(exc)\n", ""))], {"C13": 1}),
    ("c13_half", [(C, FAIL, FAIL.replace("(frame_sent, response_future)", "(frame_sent,)"))], {"C13": 1}),
    ("c13_read_unguarded", [(C, READ, "            finally:\n                pass\n")], {"C13": 1}),
    ("c13_read_return", [(C, READ, READ.replace("break", "return"))], {"C13": 1}),
    ("c13_read_reset_only", [(C, READ, READ.replace("except OSError", "except ConnectionResetError"))], {"C13": 1}),
    ("c13_close_narrow", [(C, "                await self.writer.wait_closed()\n            except OSError:\n", "                await self.writer.wait_closed()\n            except ConnectionError:\n")], {"C13": 1}),
    ("c13_no_recheck", [(C, "            if self._connection_lost:\n                # Lost the race", "            if self._shutting_down:\n                # Lost the race")], {"C13": 1}),
    ("c13_swallow", [(C, "            except ConnectionLost:\n                raise  # a drop mid-await propagates immediately; never a retry\n", "")], {"C13": 1}),
    ("c13_swallow_sent", [(C, "            except ConnectionLost:\n                # Teardown failed this frame's future — propagate the typed signal.\n                _discard(response_future)\n                raise\n", "")], {"C13": 1}),
    ("c13_connect_flag", [(C, "        self._shutting_down = False\n        self._connection_lost = False\n        # A frame", "        self._shutting_down = False\n        # A frame")], {"C13": 1}),
    ("c13_queue_half", [(C, QDRAIN, "            if frame_sent is not None and not frame_sent.done():\n                frame_sent.set_exception(exc)\n")], {"C13": 1}),
    ("c13_early_connected", [(C, "        if self._shutting_down or self._connection_lost:\n            return\n", "        if self._shutting_down or self._connection_lost or not self.connected:\n            return\n")], {"C13": 1}),
    ("c13_sibling", [(C, "        for task in (self.network_consumer_task, self.network_producer_task):\n", "        for task in (self.network_consumer_task,):\n")], {"C13": 1}),
    ("c13_sweep_break", [(C, "                fut.set_exception(exc)\n                aborted += 1\n", "                fut.set_exception(exc)\n                aborted += 1\n                break\n")], {"C13": 1}),
    ("c13_cancel_not_fail", [(C, "                fut.set_exception(exc)\n                aborted += 1\n", "                fut.cancel()\n                aborted += 1\n")], {"C13": 1}),
    ("c13_drain_unbounded", [(C, "await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)", "await self.writer.drain()")], {"C13": 1}),
    ("c13_timeouterr", [(C, 'self._abort_connection(ConnectionLost("reader at EOF — connection lost"))', 'self._abort_connection(CommunicationError("reader at EOF — connection lost"))')], {"C13": 1}),
    ("c13_skip_strand", [(C, "                if frame_sent and not frame_sent.done():\n                    frame_sent.set_result(True)\n                continue\n", "                continue\n")], {"C13": 1}),
    ("c13_close_consumer", [(C, "        if self.network_consumer_task:\n            self.network_consumer_task.cancel()\n", "        if self.network_consumer_task and self.connected:\n            self.network_consumer_task.cancel()\n")], {"C13": 1}),
    ("c13_lost_flag_late_clear", [(C, "        self.expected_responses = {}\n        # Unblock senders", "        # Unblock senders")], {"C13": 1}),
    ("c13_q_merge", [(C, FAIL, "                self._fail((frame_sent, response_future), exc)\n"), (C, "    def _abort_connection(self", "    def _fail(self, futs, exc):\n        for f in futs:\n            if f is None or f.done():\n                continue\n            f.set_exception(exc)\n\n    def _abort_connection(self")], {"C13": 0}),
    ("c13_q_split", [(C, SWEEP, "        aborted = self._fail_in_flight(exc)\n"), (C, "    def _abort_connection(self", "    def _fail_in_flight(self, exc):\n        n = 0\n        for fut in list(self.expected_responses.values()):\n            if fut.done():\n                continue\n            fut.set_exception(exc)\n            n += 1\n        return n\n\n    def _abort_connection(self"), (C, "        aborted = 0\n", "")], {"C13": 0}),
    ("c13_q_reorder", [(C, "        self._connection_lost = True\n        self.connected = False\n        # Unblock", "        self.connected = False\n        self._connection_lost = True\n        # Unblock"), (C, QDRAIN, "            if response_future is not None and not response_future.done():\n                response_future.set_exception(exc)\n            if frame_sent is not None and not frame_sent.done():\n                frame_sent.set_exception(exc)\n")], {"C13": 0}),
    ("c13_q_suppress", [(C, "            try:\n                await self.writer.wait_closed()\n            except OSError:\n", "            try:\n                await self.writer.wait_closed()\n            except (ConnectionError, OSError):\n")], {"C13": 0}),
    ("c13_q_items", [(C, "        for fut in self.expected_responses.values():\n", "        for _, fut in self.expected_responses.items():\n")], {"C13": 0}),
    ("c13_q_trynowait", [(C, "        while not self.tx_queue.empty():\n            _, frame_sent, response_future = self.tx_queue.get_nowait()\n", "        while True:\n            try:\n                _, frame_sent, response_future = self.tx_queue.get_nowait()\n            except asyncio.QueueEmpty:\n                break\n")], {"C13": 0}),
]
