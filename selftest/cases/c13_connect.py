C = "client/client.py"
NEW = "        self.framer = ClientFramer()\n        if self._capture_redactor_rx is not None:\n"
REST = "        if self._capture_redactor_rx is not None:\n"
COND = '''        if (
            self.connected
            or self.network_consumer_task is not None
            or self.network_producer_task is not None
            or getattr(self, "reader", None) is not None
            or getattr(self, "writer", None) is not None
        ):
'''
CASES = [
    ("k_no_new_framer", [(C, NEW, REST)], {"C13": 1}),
    ("k_framer_if_connected", [(C, NEW, "        if self.connected:\n            self.framer = ClientFramer()\n" + REST)], {"C13": 1}),
    ("k_close_if_connected", [(C, COND, "        if self.connected:\n")], {"C13": 1}),
    ("k_framer_after_tasks", [(C, NEW, REST), (C, '''        self.network_producer_task = asyncio.create_task(self._task_network_producer(), name="network_producer")
''', '''        self.network_producer_task = asyncio.create_task(self._task_network_producer(), name="network_producer")
        self.framer = ClientFramer()
''')], {"C13": 1}),
    ("kg_buffer_emptied", [(C, NEW, '        self.framer._buffer = b""\n' + REST)], {"C13": 0, "C11": 0}),
    ("kg_close_always", [(C, COND, "        if True:\n")], {"C13": 0}),
    ("kg_close_plain", [(C, COND + "            await self.close()\n", "        await self.close()\n")], {"C13": 0}),
    ("kg_any", [(C, COND, '''        leftovers = (self.network_consumer_task, self.network_producer_task, getattr(self, "reader", None), getattr(self, "writer", None))
        if self.connected or any(x is not None for x in leftovers):
''')], {"C13": 0}),
    ("kg_helper", [(C, COND, "        if self._has_leftovers():\n"), (C, "    async def connect(self)", '''    def _has_leftovers(self) -> bool:
        if self.connected:
            return True
        for held in (self.network_consumer_task, self.network_producer_task):
            if held is not None:
                return True
        return getattr(self, "reader", None) is not None or getattr(self, "writer", None) is not None

    async def connect(self)''')], {"C13": 0}),
    ("kg_close_resets", [(C, NEW, REST), (C, "    async def close(self)", '''    async def close(self) -> None:
        """Close."""
        self.framer = ClientFramer()
        await self._close()

    async def _close(self)''')], {"C13": 0}),
    ("kg_reset_method", [(C, NEW, "        self.framer.reset()\n" + REST), ("framer.py", "    async def decode(", '''    def reset(self) -> None:
        """Forget."""
        self._buffer = b""

    async def decode(''')], {"C13": 0, "C11": 0}),
    ("kg_framer_helper", [(C, NEW, "        self._fresh_framer()\n" + REST), (C, "    async def connect(self)", '''    def _fresh_framer(self) -> None:
        self.framer = ClientFramer()

    async def connect(self)''')], {"C13": 0, "C19": 0}),
]
