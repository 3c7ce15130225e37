C = "client/client.py"
CASES = [('m_caps_none',
  [('client/client.py',
    '        model_safe = self._resolve_write_safe()\n        installer_safe = model_safe | INSTALLER',
    '        model_safe = self._resolve_write_safe() if caps is not None else frozenset(range(65536))\n        installer_safe = model_safe | INSTALLER')],
  {'C02': 1}),
 ('m_validate_first_only',
  [('client/client.py',
    '                    raise InvalidPduState(f"HR({req.register}) is not permitted for {model_label} inverter", req)\n'
    '            req.ensure_valid_state()\n'
    '        if not dry_run:',
    '                    raise InvalidPduState(f"HR({req.register}) is not permitted for {model_label} inverter", req)\n'
    '            if not dry_run:\n'
    '                req.ensure_valid_state()\n'
    '        if not dry_run:')],
  {'C02': 1}),
 ('m_hb_direct',
  [('client/client.py',
    'await self.tx_queue.put((message.expected_response().encode(), None, None))',
    'self.writer.write(message.expected_response().encode())')],
  {'C03': 1}),
 ('m_sleep_if_more',
  [('client/client.py',
    '            await asyncio.sleep(self.tx_message_wait + random.uniform(0, self.tx_jitter))  # nosec B311',
    '            if not self.tx_queue.empty():\n                await asyncio.sleep(self.tx_message_wait + random.uniform(0, self.tx_jitter))  # nosec B311')],
  {'C03': 1}),
 ('m_jitter_sym', [('client/client.py', 'random.uniform(0, self.tx_jitter)', 'random.uniform(-self.tx_jitter, self.tx_jitter)')], {'C03': 1}),
 ('m_hb_nowait',
  [('client/client.py',
    'await self.tx_queue.put((message.expected_response().encode(), None, None))',
    'self.tx_queue.put_nowait((message.expected_response().encode(), None, None))')],
  {'C15': 1}),
 ('m_hb_dedupe',
  [('client/client.py',
    'await self.tx_queue.put((message.expected_response().encode(), None, None))',
    'if self.tx_queue.empty():\n                        await self.tx_queue.put((message.expected_response().encode(), None, None))')],
  {'C15': 1}),
 ('m_hb_timeout',
  [('client/client.py',
    'await self.tx_queue.put((message.expected_response().encode(), None, None))',
    'await asyncio.wait_for(self.tx_queue.put((message.expected_response().encode(), None, None)), timeout=5.0)')],
  {'C15': 1}),
 ('m_close_if_connected',
  [('client/client.py',
    '        if (\n'
    '            self.connected\n'
    '            or self.network_consumer_task is not None\n'
    '            or self.network_producer_task is not None\n'
    '            or getattr(self, "reader", None) is not None\n'
    '            or getattr(self, "writer", None) is not None\n'
    '        ):\n'
    '            await',
    '        if self.connected:\n            await')],
  {'C13': 1}),
 ('m_abort_not_connected',
  [('client/client.py',
    'if self._shutting_down or self._connection_lost:\n            return\n        self._connection_lost',
    'if self._shutting_down or self._connection_lost or not self.connected:\n            return\n        self._connection_lost')],
  {'C13': 1}),
 ('m_abort_skip_hb',
  [('client/client.py',
    '            for queued_fut in (frame_sent, response_future):\n'
    '                if queued_fut is not None and not queued_fut.done():\n'
    '                    queued_fut.set_exception(exc)\n'
    '            drained += 1',
    '            if frame_sent is None:\n'
    '                break\n'
    '            for queued_fut in (frame_sent, response_future):\n'
    '                if queued_fut is not None and not queued_fut.done():\n'
    '                    queued_fut.set_exception(exc)\n'
    '            drained += 1')],
  {'C13': 1}),
 ('m_oserror_only_reset',
  [('client/client.py',
    '            except OSError as e:\n                _logger.warning(\n                    "network_producer',
    '            except ConnectionResetError as e:\n                _logger.warning(\n                    "network_producer')],
  {'C13': 1}),
 ('m_consumer_no_abort',
  [('client/client.py',
    '            self._abort_connection(ConnectionLost("reader at EOF — connection lost"))',
    '            if self.expected_responses:\n                self._abort_connection(ConnectionLost("reader at EOF — connection lost"))')],
  {'C13': 1}),
 ('m_err_flag', [('client/client.py', '            if response.error:\n', '            if response.error and tries < retries:\n')], {'C17': 1}),
 ('m_raw_tx',
  [('client/client.py',
    'self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))',
    'self._emit_to_sink("tx", self._capture_redactor_tx.feed(message) or message)')],
  {'C18': 1}),
 ('m_sink_oserror',
  [('client/client.py', '        except Exception:  # noqa: BLE001 — a capture sink', '        except OSError:  # noqa: BLE001 — a capture sink')],
  {'C18': 1}),
 ('m_tx_after_drain',
  [('client/client.py',
    '                if self._capture_sink is not None and self._capture_redactor_tx is not None:\n'
    '                    self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))\n'
    '                await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)\n',
    '                await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)\n'
    '                if self._capture_sink is not None and self._capture_redactor_tx is not None:\n'
    '                    self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))\n')],
  {'C18': 1}),
 ('m_rx_after_decode',
  [('client/client.py',
    '            if self._capture_sink is not None and frame and self._capture_redactor_rx is not None:\n'
    '                self._emit_to_sink("rx", self._capture_redactor_rx.feed(frame))\n',
    ''),
   ('client/client.py',
    '            async for message in self.framer.decode(frame):\n                _logger.debug(f"Processing',
    '            async for message in self.framer.decode(frame):\n'
    '                if self._capture_sink is not None and self._capture_redactor_rx is not None:\n'
    '                    self._emit_to_sink("rx", self._capture_redactor_rx.feed(frame))\n'
    '                _logger.debug(f"Processing')],
  {'C18': 1}),
 ('m_flush_rx_only',
  [('client/client.py',
    'for direction, redactor in (("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx)):',
    'for direction, redactor in (("rx", self._capture_redactor_rx),):')],
  {'C18': 1}),
 ('m_no_finally',
  [('client/client.py',
    '        try:\n            await asyncio.sleep(duration)\n        finally:\n',
    '        try:\n'
    '            await asyncio.sleep(duration)\n'
    '        except asyncio.CancelledError:\n'
    '            self._capture_sink = self._capture_redactor_rx = self._capture_redactor_tx = None\n'
    '            raise\n'
    '        else:\n')],
  {'C18': 1}),
 ('m_crc_no_lenient',
  [('client/client.py',
    'if getattr(message, "crc_failed", False) and not getattr(message, "lenient_crc_commit", False):',
    'if getattr(message, "crc_failed", False) and not message.error and not getattr(message, "lenient_crc_commit", False):')],
  {'C16': 1}),
 ('m_q_pop',
  [('client/client.py',
    'future = self.expected_responses.get(message.shape_hash(), None)\n',
    'future = self.expected_responses.pop(message.shape_hash(), None)\n')],
  {'C09': 0, 'C16': 0, 'C17': 0}),
 ('m_q_in',
  [('client/client.py',
    '                future = self.expected_responses.get(message.shape_hash(), None)\n'
    '                if future and not future.done():\n'
    '                    future.set_result(message)',
    '                key = message.shape_hash()\n'
    '                if key in self.expected_responses:\n'
    '                    waiter = self.expected_responses[key]\n'
    '                    if not waiter.done():\n'
    '                        waiter.set_result(message)')],
  {'C09': 0, 'C16': 0}),
 ('m_q_settle',
  [('client/client.py',
    '                for fut in (frame_sent, response_future):\n'
    '                    if fut is not None and not fut.done():\n'
    '                        fut.set_exception(exc)\n'
    '                self.tx_queue.task_done()\n'
    '                self._abort_connection(exc)\n'
    '                return\n'
    '            except OSError as e:',
    '                self._fail((frame_sent, response_future), exc)\n'
    '                self.tx_queue.task_done()\n'
    '                self._abort_connection(exc)\n'
    '                return\n'
    '            except OSError as e:'),
   ('client/client.py',
    '    def _abort_connection(self, exc: ConnectionLost) -> None:',
    '    @staticmethod\n'
    '    def _fail(futures, exc) -> None:\n'
    '        for fut in futures:\n'
    '            if fut is not None and not fut.done():\n'
    '                fut.set_exception(exc)\n'
    '\n'
    '    def _abort_connection(self, exc: ConnectionLost) -> None:')],
  {'C03': 0, 'C13': 0}),
 ('m_dry_no_gate',
  [('client/client.py',
    '        for req in requests:\n            if isinstance(req, WriteHoldingRegisterRequest):\n',
    '        for req in () if dry_run else requests:\n            if isinstance(req, WriteHoldingRegisterRequest):\n')],
  {'C02': 1})]
