F = "client/client.py"
B, Q = {"C02": 1}, {"C02": 0}
LOOP = '''            if isinstance(req, WriteHoldingRegisterRequest):
                if req.installer:
                    raise InvalidPduState(
                        f"HR({req.register}) is an installer-tier request; use installer_command() instead",
                        req,
                    )
                if req.register not in safe:
                    raise InvalidPduState(f"HR({req.register}) is not permitted for {model_label} inverter", req)
            # Run the same PDU-level validation encode() runs (value bounds, global
            # safe-register set), so dry-run and live paths reject identically.
            req.ensure_valid_state()
        if not dry_run:
            await self.execute(requests, timeout=timeout, retries=retries, retry_delay=retry_delay)
'''
CASES = [
    ("c02_slice", [(F, "        for req in requests:\n            if isinstance(req, WriteHoldingRegisterRequest):\n                if req.installer:", "        for req in requests[:8]:\n            if isinstance(req, WriteHoldingRegisterRequest):\n                if req.installer:")], B),
    ("c02_interleave", [(F, LOOP, LOOP.replace("        if not dry_run:\n            await self.execute(requests,", "            if not dry_run:\n                await self.execute([req],"))], B),
    ("c02_undetected", [(F, "if req.register not in safe:", "if caps is not None and req.register not in safe:")], B),
    ("c02_dry", [(F, "        if not dry_run:\n            await self.execute(", "        if not dry_run or retries:\n            await self.execute(")], B),
    ("c02_installer", [(F, "                if req.installer:\n                    raise", "                if req.installer and req.register not in safe:\n                    raise")], B),
    ("c02_novalid", [(F, "            req.ensure_valid_state()\n        if not dry_run:", "            if dry_run:\n                req.ensure_valid_state()\n        if not dry_run:")], B),
    ("c02_inst_union", [(F, "effective_safe = installer_safe if req.installer else model_safe", "effective_safe = installer_safe")], B),
    ("c02_break", [(F, "            req.ensure_valid_state()\n        if not dry_run:", "            req.ensure_valid_state()\n            if req.device_address == 0x31:\n                break\n        if not dry_run:")], B),
    ("c02_wrong_model", [(F, "            caps.device_type if caps is not None else None,\n            caps.arm", "            Model.ALL_IN_ONE if caps is not None else None,\n            caps.arm"), (F, "from givenergy_modbus.model.plant import", "from givenergy_modbus.model.inverter import Model\nfrom givenergy_modbus.model.plant import")], B),
    ("c02_q_helper", [(F, LOOP, '''            self._check_standard(req, safe, model_label)
        if dry_run:
            return
        await self.execute(requests, timeout, retries, retry_delay=retry_delay)

    @staticmethod
    def _check_standard(req, safe, label):
        req.ensure_valid_state()
        if not isinstance(req, WriteHoldingRegisterRequest):
            return
        if req.installer:
            raise InvalidPduState("installer-tier request; use installer_command() instead", req)
        if req.register in safe:
            return
        raise InvalidPduState(f"HR({req.register}) is not permitted for {label} inverter", req)
''')], Q),
    ("c02_q_listcopy", [(F, "        for req in requests:\n            if isinstance(req, WriteHoldingRegisterRequest):\n                if req.installer:", "        requests = list(requests)\n        for i, req in enumerate(requests):\n            if isinstance(req, WriteHoldingRegisterRequest):\n                if req.installer:")], Q),
    ("c02_q_writes", [(F, '''        for req in requests:
            if isinstance(req, WriteHoldingRegisterRequest):
                effective_safe = installer_safe if req.installer else model_safe
                if req.register not in effective_safe:
                    raise InvalidPduState(f"HR({req.register}) is not permitted for {model_label} inverter", req)
            req.ensure_valid_state()''', '''        for req in requests:
            is_write = isinstance(req, WriteHoldingRegisterRequest)
            if is_write and req.register not in model_safe and not (req.installer and req.register in INSTALLER_WRITE_REGISTERS):
                raise InvalidPduState(f"HR({req.register}) is not permitted for {model_label} inverter", req)
        for req in requests:
            req.ensure_valid_state()''')], Q),
    ("c02_q_any", [(F, '''        for req in requests:
            if isinstance(req, WriteHoldingRegisterRequest):
                effective_safe = installer_safe if req.installer else model_safe
                if req.register not in effective_safe:
                    raise InvalidPduState(f"HR({req.register}) is not permitted for {model_label} inverter", req)
            req.ensure_valid_state()''', '''        def bad(req):
            allowed = installer_safe if req.installer else model_safe
            return req.register not in allowed

        if any(isinstance(req, WriteHoldingRegisterRequest) and bad(req) for req in requests):
            raise InvalidPduState(f"a register is not permitted for {model_label} inverter", None)
        for req in requests:
            req.ensure_valid_state()''')], Q),
]
