C = "client/client.py"
APP = """                failures.append(
                    ReadFailure(
                        req.device_address,
                        type(req).__name__,
                        getattr(req, "base_register", 0),
                        getattr(req, "register_count", 0),
                    )
                )
                causes.append(res)
"""
LOOP = "        for req, res in zip(requests, results, strict=True):\n            if isinstance(res, Exception):\n"
WHOLE_A = "        failures: list[ReadFailure] = []\n        causes: list[Exception] = []\n"
END = "            elif isinstance(res, BaseException):\n                # Control-flow exceptions (e.g. CancelledError) must never be swallowed.\n                raise res\n"
COMMENT = """                # base_register/register_count live on read requests, which is all
                # _execute_reads is ever handed; getattr keeps mypy happy without a
                # never-taken else branch.
"""
FULL = WHOLE_A + LOOP + COMMENT + APP + END
RF = "        if len(failures) == len(requests):\n"
GATE = "        if caps is None:\n            raise PlantNotDetected(\n                \"refresh() requires"
COMPREHENSION = """        for res in results:
            if isinstance(res, BaseException) and not isinstance(res, Exception):
                raise res
        failed = [(req, res) for req, res in zip(requests, results, strict=True) if isinstance(res, Exception)]
        failures = [ReadFailure(req.device_address, type(req).__name__, getattr(req, "base_register", 0), getattr(req, "register_count", 0)) for req, _ in failed]
        causes = [res for _, res in failed]
"""
HELPER = WHOLE_A + LOOP + "                failures.append(self._failure_of(req))\n                causes.append(res)\n" + END
HDEF = "    async def _execute_reads(\n"
HNEW = """    @staticmethod
    def _failure_of(req):
        base = getattr(req, "base_register", 0)
        count = getattr(req, "register_count", 0)
        return ReadFailure(device_address=req.device_address, request_type=type(req).__name__, base_register=base, register_count=count)

""" + HDEF
ENUM = FULL.replace("for req, res in zip(requests, results, strict=True):\n", "for i, res in enumerate(results):\n            req = requests[i]\n")
BOOL = FULL.replace(LOOP, LOOP.replace("            if isinstance(res, Exception):\n", "            if not isinstance(res, BaseException):\n                continue\n            if isinstance(res, Exception):\n"))
CASES = [
    ("c20_once", [(C, APP, APP.replace("failures.append", "if causes or True and not failures:\n                  failures.append"))], {"C20": 1}),
    ("c20_count", [(C, APP, APP.replace('getattr(req, "register_count", 0)', 'getattr(req, "base_register", 0)'))], {"C20": 1}),
    ("c20_type", [(C, APP, APP.replace("type(req)", "type(res)"))], {"C20": 1}),
    ("c20_only_timeout", [(C, LOOP, LOOP.replace("Exception)", "TimeoutError)"))], {"C20": 1}),
    ("c20_commerr", [(C, LOOP, LOOP.replace("isinstance(res, Exception)", "isinstance(res, Exception) and not isinstance(res, ConnectionLost)"))], {"C20": 1}),
    ("c20_base", [(C, LOOP, LOOP.replace("Exception)", "BaseException)"))], {"C20": 1}),
    ("c20_noctrl", [(C, END, "")], {"C20": 1}),
    ("c20_ge", [(C, RF, "        if len(failures) >= len(requests) - 1:\n")], {"C20": 1}),
    ("c20_wrong", [(C, RF, "        if len(failures) == len(results) + 1:\n")], {"C20": 1}),
    ("c20_swap", [(C, RF, "        if len(failures) != len(requests):\n")], {"C20": 1}),
    ("c20_tolerate", [(C, "        if not failures:\n            return\n        group", "        if len(failures) <= 1:\n            return\n        group")], {"C20": 1}),
    ("c20_retexc", [(C, "retry_delay=retry_delay, return_exceptions=True", "retry_delay=retry_delay, return_exceptions=False")], {"C20": 1}),
    ("c20_gate_default", [(C, GATE, "        if caps is None:\n            caps = self.plant.capabilities = await self.detect()\n        if False:\n            raise PlantNotDetected(\n                \"refresh() requires")], {"C20": 1}),
    ("c20_gather_order", [(C, "                for m in requests\n            ],\n            return_exceptions=return_exceptions", "                for m in sorted(requests, key=lambda r: r.device_address)\n            ],\n            return_exceptions=return_exceptions")], {"C20": 1}),
    ("c20_gather_noexc", [(C, "            return_exceptions=return_exceptions", "            return_exceptions=False")], {"C20": 1}),
    ("c20_retries", [(C, "await self._execute_reads(reqs, timeout=timeout, retries=retries,", "await self._execute_reads(reqs, timeout=timeout, retries=0,")], {"C20": 1}),
    ("c20_partialplant", [(C, "            plant=self.plant,\n            failures=failures", "            plant=Plant(),\n            failures=failures")], {"C20": 1}),
    ("c20_q_comp", [(C, FULL, COMPREHENSION)], {"C20": 0}),
    ("c20_q_helper", [(C, FULL, HELPER), (C, HDEF, HNEW)], {"C20": 0}),
    ("c20_q_enum", [(C, FULL, ENUM)], {"C20": 0}),
    ("c20_q_continue", [(C, FULL, BOOL)], {"C20": 0}),
    ("c20_q_lt", [(C, RF, "        every = len(failures) == len(results)\n        if every:\n")], {"C20": 0}),
    ("c20_q_diff", [(C, RF, "        if len(requests) - len(failures) == 0:\n")], {"C20": 0}),
    ("c20_q_causes", [(C, "        if not failures:\n            return\n        group", "        if len(causes) == 0:\n            return\n        group")], {"C20": 0}),
    ("c20_q_gate", [(C, GATE, "        if self.plant.capabilities is None:\n            raise PlantNotDetected(\n                \"refresh() requires")], {"C20": 0}),
    ("c20_q_gatehelper", [(C, "        caps = self.plant.capabilities\n        if caps is None:\n            raise PlantNotDetected(\n                \"refresh() requires plant capabilities — call detect() once first, \"\n                \"or restore a persisted PlantCapabilities onto client.plant.capabilities.\"\n            )\n", "        caps = self._caps_or_raise(\"refresh\")\n"), (C, HDEF, "    def _caps_or_raise(self, what):\n        caps = self.plant.capabilities\n        if caps is not None:\n            return caps\n        raise PlantNotDetected(f\"{what}() requires plant capabilities\")\n\n" + HDEF)], {"C20": 0}),
    ("c20_q_gather", [(C, "        return asyncio.gather(  # type: ignore[return-value]\n            *[\n                self.send_request_and_await_response(m, timeout=timeout, retries=retries, retry_delay=retry_delay)\n                for m in requests\n            ],\n", "        sends = []\n        for m in requests:\n            sends.append(self.send_request_and_await_response(m, timeout=timeout, retries=retries, retry_delay=retry_delay))\n        return asyncio.gather(  # type: ignore[return-value]\n            *sends,\n")], {"C20": 0}),
]
