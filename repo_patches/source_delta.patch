From aec9edcc369f8c812b7f6d58991a4d788c2174fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 01/10] fix: reject values that are not a battery pause mode in
 set_battery_pause_mode()

HR318 only knows modes 0-3; any other number used to be passed straight through to the inverter.
---
 givenergy_modbus/client/commands.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/givenergy_modbus/client/commands.py b/givenergy_modbus/client/commands.py
index 6ef68f0..20f84b0 100644
--- a/givenergy_modbus/client/commands.py
+++ b/givenergy_modbus/client/commands.py
@@ -534,6 +534,9 @@ def set_battery_discharge_limit_ac(val: int) -> list[TransparentRequest]:
 
 def set_battery_pause_mode(val: BatteryPauseMode) -> list[TransparentRequest]:
     """Set the battery pause mode."""
+    # BatteryPauseMode(val) can't do the validating: its _missing_ maps any unknown value to DISABLED.
+    if val not in tuple(BatteryPauseMode):
+        raise ValueError(f"Invalid battery pause mode: {val!r}")
     return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_PAUSE_MODE, val)]
 
 
-- 
2.43.0


From 1296efab84d956265e0f34017b6b2443ea2233a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 02/10] fix: reject bool and non-numeric rates in
 set_export_power_rate()

set_export_power_rate(True) was accepted and wrote a 1% export cap (HR1063 = 10).
---
 givenergy_modbus/client/commands.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/givenergy_modbus/client/commands.py b/givenergy_modbus/client/commands.py
index 20f84b0..e5ee2e8 100644
--- a/givenergy_modbus/client/commands.py
+++ b/givenergy_modbus/client/commands.py
@@ -1031,6 +1031,9 @@ def set_export_power_rate(rate: float) -> list[WriteHoldingRegisterRequest]:
     installer app (EXPORT_LIMIT_POWER_SET), but the write itself hasn't been validated against a
     real three-phase unit yet — see #263. Use `export_power_rate` to read it back.
     """
+    # bool subclasses int: True would otherwise be written as a 1% export cap.
+    if isinstance(rate, bool) or not isinstance(rate, int | float):
+        raise ValueError(f"Export power rate must be a number, not {type(rate).__name__}")
     if not 0 <= rate <= 100:
         raise ValueError(f"Export power rate ({rate}) must be in [0-100]%")
     return [WriteHoldingRegisterRequest(RegisterMap.EXPORT_POWER_RATE, round(rate * 10), installer=True)]
-- 
2.43.0


From 0e4277847785b7bed3ae7d0a14e6c6928c9d0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 03/10] fix: let a dropped connection propagate from detect
 probes instead of recording the device as absent

---
 givenergy_modbus/client/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 3281a7e..72d2557 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -630,6 +630,9 @@ class Client:
     async def _probe(self, request: TransparentRequest, timeout: float, retries: int) -> bool:
         """Send a request; return True on success, False on TimeoutError.
 
+        A dropped connection (``ConnectionLost``) propagates: it says nothing about
+        whether the device is there, so it must never be recorded as an absence.
+
         Uses ``retry_delay=0`` so absent-device probes don't pay the silent-
         window-survival cost — detect() does many of these and most are
         expected to fail.
@@ -639,6 +642,8 @@ class Client:
                 request, timeout=timeout, retries=retries, retry_delay=0, warn_timeout=False
             )
             return True
+        except ConnectionLost:
+            raise
         except TimeoutError:
             return False
 
-- 
2.43.0


From af07d386a0b4a695fca0afb6b2092e4799eb7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 04/10] fix: treat a socket error while reading as a lost
 connection

---
 givenergy_modbus/client/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 72d2557..2b3eafe 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -1582,7 +1582,12 @@ class Client:
     async def _task_network_consumer(self):
         """Task for orchestrating incoming data."""
         while hasattr(self, "reader") and self.reader and not self.reader.at_eof():
-            frame = await self.reader.read(300)
+            try:
+                frame = await self.reader.read(300)
+            except OSError as e:
+                # A reset or timed-out socket surfaces here rather than as EOF; same teardown.
+                _logger.debug("network_consumer: socket error during read (%s)", e)
+                break
             if self._capture_sink is not None and frame and self._capture_redactor_rx is not None:
                 self._emit_to_sink("rx", self._capture_redactor_rx.feed(frame))
             async for message in self.framer.decode(frame):
-- 
2.43.0


From dd1b0e61c304d161a2ffdcd46d472bf6cea45878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 05/10] fix: finish close() whatever socket error ended the
 connection

---
 givenergy_modbus/client/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 2b3eafe..4b8a8f5 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -567,7 +567,9 @@ class Client:
             self.writer.close()
             try:
                 await self.writer.wait_closed()
-            except ConnectionResetError:
+            except OSError:
+                # Re-raises whatever error broke the connection (reset, broken pipe, timed
+                # out, ...); it must not stop the rest of the teardown or a reconnect.
                 pass
             del self.writer
 
-- 
2.43.0


From 9e93aaf2c8bd7dcb0fc519705750e93f0d80ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:39 +0000
Subject: [PATCH 06/10] fix: blank an unrecognised adapter serial when
 redacting a LAN-config broadcast

---
 givenergy_modbus/pdu/lan_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/pdu/lan_config.py b/givenergy_modbus/pdu/lan_config.py
index ab8b9fc..9caa564 100644
--- a/givenergy_modbus/pdu/lan_config.py
+++ b/givenergy_modbus/pdu/lan_config.py
@@ -136,7 +136,7 @@ class LanConfigBroadcast(ClientIncomingMessage):
         """
         from givenergy_modbus.model.register import Converter
 
-        redacted_serial = Converter.redact_serial(self.data_adapter_serial_number) or ""
+        redacted_serial = Converter.redact_serial_strict(self.data_adapter_serial_number)
         redacted_ip = _zero_ip(self.ip)
         redacted_netmask = _zero_ip(self.netmask)
         redacted_gateway = _zero_ip(self.gateway)
-- 
2.43.0


From 5aadc00c0e6c9849fab6c5fa3cd5b40bdf4c685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 07/10] fix: redact the meter product identifier in captured
 frames

---
 givenergy_modbus/client/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 4b8a8f5..7755fd5 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -204,13 +204,19 @@ class FrameRedactor:
         # A serial is stored across 5 consecutive registers; decode the group as a
         # string, apply redact_serial, and re-encode back into register values.
         if isinstance(pdu, ReadRegistersResponse) and not pdu.error:
-            reg_type = "HR" if pdu.transparent_function_code == 3 else "IR"
+            reg_type = {3: "HR", 4: "IR", 0x16: "MR"}.get(pdu.transparent_function_code)
             win_base = pdu.base_register
             win_end = win_base + len(pdu.register_values)  # safer than register_count
             for g_type, g_base, g_count in _get_serial_groups():
                 if g_type != reg_type:
                     continue
                 g_end = g_base + g_count
+                if reg_type == "MR":
+                    # Meter product identifier: a short non-GE value in its own register namespace,
+                    # so blank whatever part of it is present. Mirrors RegisterCache.redact_serials.
+                    for reg in range(max(g_base, win_base), min(g_end, win_end)):
+                        pdu.register_values[reg - win_base] = 0
+                    continue
                 if g_base < win_base or g_end > win_end:
                     continue  # group not fully within this response window
                 offset = g_base - win_base
-- 
2.43.0


From 68830ef01c3382bf5299cada7a5e5a145c28ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 08/10] fix: encode serial numbers byte for byte, as they are
 decoded

---
 givenergy_modbus/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/codec.py b/givenergy_modbus/codec.py
index ef1a25f..d2544dc 100644
--- a/givenergy_modbus/codec.py
+++ b/givenergy_modbus/codec.py
@@ -124,5 +124,5 @@ class PayloadEncoder:
     def add_string(self, value: str, length: int):
         """Adds a string to the buffer."""
         fstring = self._byteorder + str(length) + "s"
-        pstring = f"{value[-length:]:*>{length}}".encode()
+        pstring = f"{value[-length:]:*>{length}}".encode("latin1")
         self._payload += struct.pack(fstring, pstring)
-- 
2.43.0


From 01d875da8f2ab82053d820a441ffe5bf8a3d16bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 09/10] fix: RegisterCache.json() emits register names as keys

json.dumps() refuses Register objects as keys, so json() raised TypeError for
every non-empty cache. Write the HR(n) form that from_json() reads.
---
 givenergy_modbus/model/register_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/givenergy_modbus/model/register_cache.py b/givenergy_modbus/model/register_cache.py
index 9b7983b..f6d8927 100644
--- a/givenergy_modbus/model/register_cache.py
+++ b/givenergy_modbus/model/register_cache.py
@@ -94,7 +94,7 @@ class RegisterCache(defaultdict[Register, int]):
             This emits **unredacted** serial-number registers (and any other raw values).
             For a share-safe export, redact first: ``cache.redact_serials().json()``.
         """  # noqa: D402,D202,E501
-        return json.dumps(self)
+        return json.dumps({f"{reg.reg_type}({reg.index})": value for reg, value in self.items()})
 
     @classmethod
     def from_json(cls, data: str) -> "RegisterCache":
-- 
2.43.0


From d83aea71c61905b80ad37ee15961a0b7f2468f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 10/10] fix: connect() starts with an empty receive buffer

After a lost connection the framer kept the partial frame the old
connection had cut short, and swallowed the first complete frames of
the next connection as its missing rest.
---
 givenergy_modbus/client/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/givenergy_modbus/client/client.py b/givenergy_modbus/client/client.py
index 7755fd5..e6efc38 100644
--- a/givenergy_modbus/client/client.py
+++ b/givenergy_modbus/client/client.py
@@ -547,6 +547,11 @@ class Client:
             await self.close()
         self._shutting_down = False
         self._connection_lost = False
+        # A frame the previous connection cut short must not be joined to the first bytes of this
+        # one: the framer (and a running capture) would swallow complete frames as its missing rest.
+        self.framer = ClientFramer()
+        if self._capture_redactor_rx is not None:
+            self._emit_to_sink("rx", self._capture_redactor_rx.flush())
         try:
             connection = asyncio.open_connection(host=self.host, port=self.port, flags=socket.TCP_NODELAY)
             self.reader, self.writer = await asyncio.wait_for(connection, timeout=self.connect_timeout)
-- 
2.43.0

