From 0e2402d4f813fbf7059119f63b834ea946911c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 01/40] fix: adding an address twice left a duplicate in the
 address table

---
 knx_stack/definition/layer/network/address_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index c6454e4..34d196b 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -132,7 +132,7 @@ class AddressTable(object):
         :param address: a new *group address* to be inserted
         :return: a new AddressTable instance
         """
-        if address not in self._group_addresses or address != self._individual_address:
+        if address not in self._group_addresses:
             if len(self._group_addresses) >= self.max_size:
                 raise AddressTableException(
                     "Max entries %d, already written inside address table"
-- 
2.43.0


From a0da7f436429e990dd434882f80b18d2591e1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 02/40] fix: disassociating an ASAP removed an address other
 ASAPs still use

and left the tables half changed when the request was invalid.
---
 .../layer/transport/association_table.py           | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f032882..845d3f0 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -199,10 +199,20 @@ class AssociationTable(object):
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
+        addresses = list(addresses)
+        remaining = list(self._asap_addresses[asap])
         for address in addresses:
-            if address != self.individual_address:
+            remaining.remove(address)
+        self._asap_addresses[asap] = remaining
+
+        for address in addresses:
+            still_used = any(
+                address == other and other is not self.individual_address
+                for asap_addresses in self._asap_addresses.values()
+                for other in asap_addresses
+            )
+            if address in self._address_table.addresses and not still_used:
                 self._address_table.remove(address)
-            self._asap_addresses[asap].remove(address)
 
         self._rebuild_tsap_asaps()
 
-- 
2.43.0


From b06c3165a7ded40ccc57177a56326b849eb0d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 03/40] fix: a refused association left some of its addresses
 in the address table

---
 .../layer/transport/association_table.py      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 845d3f0..6198392 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -182,12 +182,20 @@ class AssociationTable(object):
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
-        for address in addresses:
-            if (
-                address not in self._address_table.addresses
-                and address is not self.individual_address
-            ):
-                self._address_table.add(address)
+        addresses = list(addresses)
+        added = list()
+        try:
+            for address in addresses:
+                if (
+                    address not in self._address_table.addresses
+                    and address is not self.individual_address
+                ):
+                    self._address_table.add(address)
+                    added.append(address)
+        except Exception:
+            for address in added:
+                self._address_table.remove(address)
+            raise
 
         if asap not in self._asap_addresses:
             self._asap_addresses[asap] = list()
-- 
2.43.0


From 38df92c81ba369994194116f910cd2c0d44cf455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 04/40] fix: associating an address twice with an ASAP listed
 it twice

---
 knx_stack/definition/layer/transport/association_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 6198392..786d5d2 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -200,7 +200,8 @@ class AssociationTable(object):
         if asap not in self._asap_addresses:
             self._asap_addresses[asap] = list()
         for address in addresses:
-            self._asap_addresses[asap].append(address)
+            if address not in self._asap_addresses[asap]:
+                self._asap_addresses[asap].append(address)
 
         self._rebuild_tsap_asaps()
 
-- 
2.43.0


From b00f92df4b3664c19b116a3c61aec71e18723b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 05/40] fix: TSAP to ASAP lookup went stale when the address
 table changed

and raised KeyError for an address without associations.
---
 .../layer/transport/association_table.py      | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 786d5d2..341b83a 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -121,7 +121,6 @@ class AssociationTable(object):
     ):
         self._address_table = address_table
         self._asap_addresses = dict()
-        self._tsap_asaps = dict()
         self.associate(
             ASAP(0, "individual address"), [self._address_table.individual_address]
         )
@@ -145,13 +144,20 @@ class AssociationTable(object):
         return tsaps
 
     def get_asaps(self, tsap: int) -> Iterable["knx_stack.ASAP"]:
-        return self._tsap_asaps[tsap]
+        if tsap is None or tsap not in self._address_table.tsaps:
+            return []
+        address = self._address_table.get_address(tsap)
+        return [
+            asap
+            for asap, addresses in self._asap_addresses.items()
+            if address in addresses
+        ]
 
     def get_asaps_from_address(
         self, address: "knx_stack.GroupAddress"
     ) -> Iterable["knx_stack.ASAP"]:
         tsap = self._address_table.get_tsap(address)
-        return self._tsap_asaps[tsap]
+        return self.get_asaps(tsap)
 
     @property
     def asaps(self):
@@ -170,15 +176,6 @@ class AssociationTable(object):
             addresses.append(self._address_table.get_address(tsap))
         return addresses
 
-    def _rebuild_tsap_asaps(self):
-        self._tsap_asaps = dict()
-        for asap_, addresses in self._asap_addresses.items():
-            for address_ in addresses:
-                tsap = self._address_table.get_tsap(address_)
-                if tsap not in self._tsap_asaps:
-                    self._tsap_asaps[tsap] = list()
-                self._tsap_asaps[tsap].append(asap_)
-
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -203,8 +200,6 @@ class AssociationTable(object):
             if address not in self._asap_addresses[asap]:
                 self._asap_addresses[asap].append(address)
 
-        self._rebuild_tsap_asaps()
-
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -223,8 +218,6 @@ class AssociationTable(object):
             if address in self._address_table.addresses and not still_used:
                 self._address_table.remove(address)
 
-        self._rebuild_tsap_asaps()
-
     def __repr__(self, *args, **kwargs):
         s = "AssociationTable: asap -> addresses\n"
         for asap, addresses in self._asap_addresses.items():
-- 
2.43.0


From e1d52babc38fb0aa9002f9a2fd7aa6be08aa4fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 06/40] fix: get_free_asap_value returned a used value when
 ASAPs were added out of order

---
 knx_stack/definition/layer/transport/association_table.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 341b83a..8651e5a 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -164,11 +164,11 @@ class AssociationTable(object):
         return self._asap_addresses.keys()
 
     def get_free_asap_value(self):
-        asaps = self._asap_addresses.keys()
-        for e, asap in enumerate(asaps):
-            if e != asap.value:
+        values = [asap.value for asap in self._asap_addresses.keys()]
+        for e in range(len(values)):
+            if e not in values:
                 return e
-        return len(asaps)
+        return len(values)
 
     def get_addresses(self, tsaps: Iterable[int]):
         addresses = list()
-- 
2.43.0


From 9ceb8e29e8ce94f9645d39dbdac39f396e77ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 07/40] fix: decoding a group addressed frame that is not group
 data returned None

---
 knx_stack/decode/layer/network/n_data_group/con.py | 4 +++-
 knx_stack/decode/layer/network/n_data_group/ind.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/network/n_data_group/con.py b/knx_stack/decode/layer/network/n_data_group/con.py
index db7cd2c..d5a0b69 100644
--- a/knx_stack/decode/layer/network/n_data_group/con.py
+++ b/knx_stack/decode/layer/network/n_data_group/con.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import con
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return con.decode(state, msg)
+        result = con.decode(state, msg)
+    return result
diff --git a/knx_stack/decode/layer/network/n_data_group/ind.py b/knx_stack/decode/layer/network/n_data_group/ind.py
index 95467a0..089dba8 100644
--- a/knx_stack/decode/layer/network/n_data_group/ind.py
+++ b/knx_stack/decode/layer/network/n_data_group/ind.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import ind
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return ind.decode(state, msg)
+        result = ind.decode(state, msg)
+    return result
-- 
2.43.0


From 0e1986963dd45014084ac6d05486773decf6c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 08/40] fix: decode_msg returned a tuple instead of a list for
 a tunneling ack

---
 knx_stack/decode/knxnet_ip/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/header.py b/knx_stack/decode/knxnet_ip/header.py
index 1bba136..414db6d 100644
--- a/knx_stack/decode/knxnet_ip/header.py
+++ b/knx_stack/decode/knxnet_ip/header.py
@@ -37,7 +37,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         elif service.value == Services.TUNNELING_REQUEST:
             result = tunneling.req.decode(state, body)
         elif service.value == Services.TUNNELING_ACK:
-            result = tunneling.ack.decode(state, body)
+            (result, state) = tunneling.ack.decode(state, body)
         else:
             logging.getLogger(__name__).error(
                 "Unknown knxnet_ip service value %d" % service.value
-- 
2.43.0


From 34cd89f01df1c9f7fe80f215f11bf165c83b585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 09/40] fix: a repeated tunneling request was not recognised
 across the sequence counter wrap

---
 knx_stack/decode/knxnet_ip/tunneling/req.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/req.py b/knx_stack/decode/knxnet_ip/tunneling/req.py
index 14c48ee..93c8ea9 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/req.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/req.py
@@ -34,7 +34,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
         if result_tmp:
             result.extend(result_tmp)
     else:
-        if state.sequence_counter_remote == (sequence_counter + 1):
+        if state.sequence_counter_remote == (sequence_counter + 1) % 256:
             result.append(
                 Msg(sequence_counter=sequence_counter, status=ErrorCodes.E_NO_ERROR)
             )
-- 
2.43.0


From ef636aef888a5c2e0efc1360e196d307dc16cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 10/40] fix: the ack for a repeated tunneling request carried
 the wrong sequence counter

---
 knx_stack/encode/knxnet_ip/tunneling/ack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/knxnet_ip/tunneling/ack.py b/knx_stack/encode/knxnet_ip/tunneling/ack.py
index c509af6..aca6f11 100644
--- a/knx_stack/encode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/encode/knxnet_ip/tunneling/ack.py
@@ -17,16 +17,19 @@ def encode(
     >>> bus_msg
     06100421000A04000000
     """
+    sequence_counter = state.sequence_counter_remote
+    if msg.sequence_counter == (state.sequence_counter_remote - 1) % 256:
+        sequence_counter = msg.sequence_counter  # a repeated request
     new_msg = NetMsg(Short(value=Services.TUNNELING_ACK.value).octects)
     new_msg += NetMsg(
         Short(value=connection_header.CONNECTION_HEADER_LEN + HEADER_SIZE_10).octects
     )
     new_msg += connection_header.create(
-        state, status=msg.status, sequence_counter=state.sequence_counter_remote
+        state, status=msg.status, sequence_counter=sequence_counter
     )
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.encode.ack with sequence counter={}".format(
-            state.sequence_counter_remote
+            sequence_counter
         )
     )
     if msg.sequence_counter == state.sequence_counter_remote:
-- 
2.43.0


From 95df08a1d7cb058685c19cad16d47b4869105a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 11/40] fix: a negative tunneling ack advanced the local
 sequence counter

---
 knx_stack/decode/knxnet_ip/tunneling/ack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/ack.py b/knx_stack/decode/knxnet_ip/tunneling/ack.py
index 30cf370..412d113 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/ack.py
@@ -17,7 +17,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     """
     (size, body) = msg.short()
     (communication_channel_id, sequence_counter, status, body) = body.header()
-    if state.sequence_counter_local == sequence_counter:
+    if (
+        status == ErrorCodes.E_NO_ERROR
+        and state.sequence_counter_local == sequence_counter
+    ):
         state.sequence_counter_local += 1
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.decode.req sequence counter={}".format(sequence_counter)
-- 
2.43.0


From 67c6b5df9b63d287b3d4bc43973eb34bb56b8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 12/40] fix: standard error codes in acks and connect responses
 could not be decoded

---
 knx_stack/definition/knxnet_ip/core/connect/res.py | 1 +
 knx_stack/definition/knxnet_ip/definitions.py      | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/knx_stack/definition/knxnet_ip/core/connect/res.py b/knx_stack/definition/knxnet_ip/core/connect/res.py
index 908371b..dd39625 100644
--- a/knx_stack/definition/knxnet_ip/core/connect/res.py
+++ b/knx_stack/definition/knxnet_ip/core/connect/res.py
@@ -7,6 +7,7 @@ class Status(IntEnum):
     E_CONNECTION_TYPE = 0x22  # connection type not supported
     E_CONNECTION_OPTION = 0x23  # connection option not supported
     E_NO_MORE_CONNECTIONS = 0x24
+    E_TUNNELING_LAYER = 0x29  # requested tunneling layer not supported
 
 
 class Msg(NamedTuple):
diff --git a/knx_stack/definition/knxnet_ip/definitions.py b/knx_stack/definition/knxnet_ip/definitions.py
index f61f2b4..c8d360a 100644
--- a/knx_stack/definition/knxnet_ip/definitions.py
+++ b/knx_stack/definition/knxnet_ip/definitions.py
@@ -48,6 +48,13 @@ class ErrorCodes(IntEnum):
     E_HOST_PROTOCOL_TYPE = 0x01
     E_VERSION_NOT_SUPPORTED = 0x02
     E_SEQUENCE_NUMBER = 0x03
+    E_CONNECTION_ID = 0x21
+    E_CONNECTION_TYPE = 0x22
+    E_CONNECTION_OPTION = 0x23
+    E_NO_MORE_CONNECTIONS = 0x24
+    E_DATA_CONNECTION = 0x26
+    E_KNX_CONNECTION = 0x27
+    E_TUNNELING_LAYER = 0x29
 
 
 class ConnectResponseStatusCode(IntEnum):
-- 
2.43.0


From ba4a4cd3b165927f1ca6f670aa806eb3f0a8c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 13/40] fix: the tunneling client took a refused connection for
 an established one

---
 knx_stack/client/knxnet_ip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index 439434b..f04d69c 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -115,7 +115,10 @@ class Tunneling(asyncio.DatagramProtocol):
             self._state, knx_stack.knxnet_ip.Msg.make_from_str(data.hex())
         )
         for res in responses:
-            if isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg):
+            if (
+                isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg)
+                and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
+            ):
                 self._state.sequence_counter_remote = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
-- 
2.43.0


From 04de8b48539e1dc1b51488e4e2767e4c7c5de191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 14/40] fix: the tunneling client kept its old local sequence
 counter on a new connection

---
 knx_stack/client/knxnet_ip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index f04d69c..d7506ed 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -120,6 +120,7 @@ class Tunneling(asyncio.DatagramProtocol):
                 and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
             ):
                 self._state.sequence_counter_remote = 0
+                self._state.sequence_counter_local = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
                     port_control_endpoint=self._local_port,
-- 
2.43.0


From 6a61c82fe5002b95dae3b0e206e5c27e051a1d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 15/40] fix: DPT_Float_16 encoded tiny negative values and -0.0
 as -20.48

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 431c7c1..b49727c 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -674,6 +674,8 @@ class DPT_Float_16(Union):
             value / 0.01
         )  # used decimal to avoid different rounding
         mantissa = abs(int(round(decimal_mantissa, 2)))  # two decimals
+        if mantissa == 0:
+            sign = 1
 
         exp = 0
         max_mantissa_value = (1 << 11) - 1
-- 
2.43.0


From 39cca1caafea2f1dae84ac561642ca3b637b54ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 16/40] fix: DPT_Float_16 could not encode its lowest value
 -671088.64

---
 knx_stack/datapointtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index b49727c..2c702a4 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -678,7 +678,7 @@ class DPT_Float_16(Union):
             sign = 1
 
         exp = 0
-        max_mantissa_value = (1 << 11) - 1
+        max_mantissa_value = (1 << 11) - 1 if sign > 0 else 1 << 11
         max_exp_value = (1 << 4) - 1
 
         while mantissa > max_mantissa_value:
-- 
2.43.0


From 4ba022df9a0eccd79d21b8aa00d8be78e9a4fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 17/40] fix: DPT_Control_Dimming is a 4 bit type and belongs in
 the APCI octet

---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 2c702a4..4976374 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -356,6 +356,8 @@ class DPT_Control_Dimming(Union, DPT):
     7
     """
 
+    length = DPT.Length.LESS_THAN_A_BYTE
+
     class Direction(IntEnum):
         down = (0x00,)
         up = (0x01,)
-- 
2.43.0


From 371a1ae9dfc863b89b87693898339837278962e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 18/40] fix: indications were framed for USB whatever the
 medium

---
 knx_stack/encode/cemi/ldata/ind.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/cemi/ldata/ind.py b/knx_stack/encode/cemi/ldata/ind.py
index 719c12f..d2fa917 100644
--- a/knx_stack/encode/cemi/ldata/ind.py
+++ b/knx_stack/encode/cemi/ldata/ind.py
@@ -1,5 +1,6 @@
-from knx_stack import Octect, Msg
+from knx_stack import Medium, Octect, Msg
 from knx_stack.definition.cemi import MessageCode
+from knx_stack.encode.knxnet_ip import tunneling
 from knx_stack.encode.usb_hid import emi_id
 
 
@@ -7,5 +8,10 @@ def encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
     message_code = Octect(value=MessageCode.L_Data_ind)
     additional_info_length = Octect(value=0)
     new_msg = Msg([message_code, additional_info_length] + msg)
-    final_msg = emi_id.encode(state, new_msg)
+    if state.medium == Medium.usb_hid:
+        final_msg = emi_id.encode(state, new_msg)
+    elif state.medium == Medium.knxnet_ip:
+        final_msg = tunneling.req.encode(state, new_msg)
+    else:
+        final_msg = new_msg
     return final_msg
-- 
2.43.0


From d6d14cf6056d04cd9d773c25a70bd363053b36c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 19/40] fix: T_Connect and T_Disconnect frames were classified
 as T_Data_Connected

---
 knx_stack/definition/layer/link/ldata.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index f236f25..fd441bb 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -257,12 +257,6 @@ class L_Data(LittleEndianStructure):
             and self._tpci.bits.numbered == 1
         ):
             pdu = NSDU.T_Data_Connected_PDU
-        elif (
-            self._cntrl2.bits.address_type == AddressType.individual
-            and self._tpci.bits.control_flag == 1
-            and self._tpci.bits.numbered == 0
-        ):
-            pdu = NSDU.T_Data_Connected_PDU
         elif (
             self._cntrl2.bits.address_type == AddressType.individual
             and self._tpci.bits.control_flag == 1
@@ -319,10 +313,6 @@ class L_Data(LittleEndianStructure):
             self._tpci.bits.control_flag = 0
             self._tpci.bits.numbered = 1
 
-        elif pdu == NSDU.T_Data_Connected_PDU:
-            self._tpci.bits.control_flag = 1
-            self._tpci.bits.numbered = 0
-
         elif pdu == NSDU.T_Connect_PDU:
             self._tpci.bits.control_flag = 1
             self._tpci.bits.numbered = 0
-- 
2.43.0


From 949e6948520f76b2977b53cc2e759391b16b9985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 20/40] fix: an undefined climate mode received from the bus
 made decoding fail

---
 knx_stack/datapointtypes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 4976374..0ac76b4 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -447,7 +447,10 @@ class DPTSetupClima(Union, DPT):
 
     @property
     def funzionamento(self):
-        return self.Funzionamento(self.bits.funzionamento)
+        try:
+            return self.Funzionamento(self.bits.funzionamento)
+        except ValueError:  # not a defined mode
+            return self.bits.funzionamento
 
     @funzionamento.setter
     def funzionamento(self, value):
@@ -556,7 +559,10 @@ class DPTInfoClimaReport(Union, DPT):
 
     @property
     def funzionamento(self):
-        return self.Funzionamento(self.bits.funzionamento)
+        try:
+            return self.Funzionamento(self.bits.funzionamento)
+        except ValueError:  # not a defined mode
+            return self.bits.funzionamento
 
     @funzionamento.setter
     def funzionamento(self, value):
-- 
2.43.0


From 4c868ea1077baf437062f4bb11fa658167d7b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 21/40] fix: a message for an ASAP without addresses was
 encoded as a malformed frame

---
 knx_stack/encode/layer/network/n_data_group/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/encode/layer/network/n_data_group/encode.py b/knx_stack/encode/layer/network/n_data_group/encode.py
index b16d3e5..1afe1c5 100644
--- a/knx_stack/encode/layer/network/n_data_group/encode.py
+++ b/knx_stack/encode/layer/network/n_data_group/encode.py
@@ -3,7 +3,10 @@ from knx_stack import Short, Octect, Msg
 
 def nl_encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
     new_msg = msg
-    for address in state.get_addresses():
+    addresses = state.get_addresses()
+    if not addresses:
+        raise ValueError("No group address to send to for asap {}".format(state.asap))
+    for address in addresses:
         npdu_length = Octect(value=(len(msg) - 1))
         destination = Short(value=address.free_style)
         new_msg = Msg([destination.MSB, destination.LSB, npdu_length] + msg)
-- 
2.43.0


From 268fcfc8a17f60f96d68e57df0dd31d8d3a095e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 22/40] fix: property confirmations were lost when a group
 address equals the individual one

---
 knx_stack/decode/layer/transport/t_data_individual/con.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/transport/t_data_individual/con.py b/knx_stack/decode/layer/transport/t_data_individual/con.py
index 0cdb11c..cd8f1d9 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/con.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/con.py
@@ -5,9 +5,11 @@ from knx_stack.decode.layer import application
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     logger = logging.getLogger(__name__)
-    tsap = state.get_tsap()
     result = []
-    if tsap == 0:
+    if (
+        state.ldata.destination
+        == state.association_table.individual_address.free_style
+    ):
         if state.ldata.apci == 0x3D5:
             result = application.a_property_value_read.con.decode(state, msg)
         elif state.ldata.apci == 0x3D6:
-- 
2.43.0


From 7ea6a73d2c553225ac51982fc8dfb7cbf01a4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 23/40] fix: transport control frames (connect, disconnect,
 ack, nack) could not be decoded

They consist of the TPCI octet alone, so reading an APCI octet after it
raised IndexError.
---
 knx_stack/definition/layer/link/ldata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index fd441bb..cba8e74 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -348,6 +348,9 @@ class L_Data(LittleEndianStructure):
         l_data._npdu_length = npdu_length.value
         (tpci, body) = body.octect()
         l_data._tpci = TPCI(value=tpci.value)
+        if l_data.connected and not body:
+            # transport control PDUs (connect, disconnect, ack, nack) have no APCI
+            return l_data, Msg([])
         (apci, body) = body.octect()
         l_data._apci = APCI(value=apci.value)
 
-- 
2.43.0


From 806ac7b833c7ca1c8f7de14b8a909f0cde38137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 24/40] fix: the daemon re-sent the previous report for a
 malformed or empty line

---
 daemon/usbhid.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 303f34a..6a67e5d 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -263,9 +263,10 @@ int main(int argc, char *argv[]) {
 						}
 					}
 				} else {
-					if (read_from_client(i, packet) >= 0) {
+					int l = read_from_client(i, packet);
+					if (l > 0) {
 						write_to_knx_cemi(fd_cemi, packet);
-					} else {
+					} else if (l < 0) {
 						FD_CLR(i, &active_fd_set);
 						for (j = 0; j < MAX_CLIENTS; j++) {
 							if (client_fds[j] == i) {
-- 
2.43.0


From bc722d3fd9ba7c725d9c85799b44092a525f2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 25/40] fix: the daemon read outside its line buffer

An empty line made it look at the octet before the buffer, and the line was
printed without a terminating NUL.
---
 daemon/usbhid.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 6a67e5d..b7ac2bb 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -129,7 +129,7 @@ void init_sockaddr (struct sockaddr_in *name,
 
 int read_from_client(int filedes, unsigned char *packet) {
 	int nbytes, i;
-	char buffer[KNXHIDPACKETLEN * 2 + 1];
+	char buffer[KNXHIDPACKETLEN * 2 + 2];
 
 	nbytes = read(filedes, buffer, KNXHIDPACKETLEN * 2 + 1);
 	if (nbytes < 0) {
@@ -140,8 +140,9 @@ int read_from_client(int filedes, unsigned char *packet) {
 	else {
 		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
 			nbytes--;
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
+		if (nbytes > 0 && (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r'))
 			nbytes--;
+		buffer[nbytes] = '\0';
 		if ((nbytes % 2) != 0) {
 			return 0;
 		}
-- 
2.43.0


From 7691f0976c4f8f54145113cf50348182ef433c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 26/40] fix: the daemon accepted lines which are not
 hexadecimal text

sscanf skips white space and takes signs, so ' 1-2' was sent to the bus.
---
 daemon/usbhid.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index b7ac2bb..3f99834 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <errno.h>
@@ -143,11 +144,13 @@ int read_from_client(int filedes, unsigned char *packet) {
 		if (nbytes > 0 && (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r'))
 			nbytes--;
 		buffer[nbytes] = '\0';
-		if ((nbytes % 2) != 0) {
+		if ((nbytes % 2) != 0 || nbytes > KNXHIDPACKETLEN * 2) {
 			return 0;
 		}
 		for (i = 0; i < nbytes / 2; i++) {
-			if (sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
+			if (!isxdigit((unsigned char) buffer[i * 2])
+					|| !isxdigit((unsigned char) buffer[i * 2 + 1])
+					|| sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
 				return 0;
 			}
 		}
-- 
2.43.0


From dcd89edf5e1132c22726e2f01106af21f80c3df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 27/40] fix: the daemon sent octets of an older report after
 those of a short line

---
 daemon/usbhid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 3f99834..ba0a4c0 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -147,6 +147,7 @@ int read_from_client(int filedes, unsigned char *packet) {
 		if ((nbytes % 2) != 0 || nbytes > KNXHIDPACKETLEN * 2) {
 			return 0;
 		}
+		memset(packet, 0, KNXHIDPACKETLEN);
 		for (i = 0; i < nbytes / 2; i++) {
 			if (!isxdigit((unsigned char) buffer[i * 2])
 					|| !isxdigit((unsigned char) buffer[i * 2 + 1])
-- 
2.43.0


From ebea145bdb16ea2ba1c0d45f9e6a1891bedefb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 28/40] fix: the daemon took TCP segments for lines

Lines arriving together were merged or dropped, and a line arriving in
pieces was written to the bus in pieces. Text is now kept per client until
its line ends.
---
 daemon/usbhid.c | 64 +++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index ba0a4c0..1ef5616 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -29,9 +29,17 @@ int make_socket(uint16_t port);
 void init_sockaddr (struct sockaddr_in *name,
 		const char *hostname,
 		uint16_t port);
-int read_from_client(int filedes, unsigned char *packet);
+int parse_line(char *buffer, int nbytes, unsigned char *packet);
+int read_from_client(int filedes, unsigned char *packet, int fd_cemi);
 int write_to_client(int filedes, unsigned char *packet, int len);
 
+/* what a client sent after its last complete line; longer lines are cut, but still too long */
+struct line {
+	char text[KNXHIDPACKETLEN * 2 + 2];
+	int len;
+};
+static struct line lines[FD_SETSIZE];
+
 int open_knx_cemi(char *hidraw) {
 	struct hidraw_devinfo info;
 	int res;
@@ -128,9 +136,28 @@ void init_sockaddr (struct sockaddr_in *name,
 	name->sin_addr = *(struct in_addr *)hostinfo->h_addr;
 }
 
-int read_from_client(int filedes, unsigned char *packet) {
+int parse_line(char *buffer, int nbytes, unsigned char *packet) {
+	int i;
+
+	if ((nbytes % 2) != 0 || nbytes > KNXHIDPACKETLEN * 2) {
+		return 0;
+	}
+	memset(packet, 0, KNXHIDPACKETLEN);
+	for (i = 0; i < nbytes / 2; i++) {
+		if (!isxdigit((unsigned char) buffer[i * 2])
+				|| !isxdigit((unsigned char) buffer[i * 2 + 1])
+				|| sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
+			return 0;
+		}
+	}
+	fprintf(stderr, "Server: got message %s len %d\n", buffer, nbytes);
+	return i;
+}
+
+int read_from_client(int filedes, unsigned char *packet, int fd_cemi) {
 	int nbytes, i;
-	char buffer[KNXHIDPACKETLEN * 2 + 2];
+	char buffer[KNXHIDPACKETLEN * 2 + 1];
+	struct line *line = &lines[filedes];
 
 	nbytes = read(filedes, buffer, KNXHIDPACKETLEN * 2 + 1);
 	if (nbytes < 0) {
@@ -139,24 +166,17 @@ int read_from_client(int filedes, unsigned char *packet) {
 	} else if (nbytes == 0)
 		return -1;
 	else {
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
-			nbytes--;
-		if (nbytes > 0 && (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r'))
-			nbytes--;
-		buffer[nbytes] = '\0';
-		if ((nbytes % 2) != 0 || nbytes > KNXHIDPACKETLEN * 2) {
-			return 0;
-		}
-		memset(packet, 0, KNXHIDPACKETLEN);
-		for (i = 0; i < nbytes / 2; i++) {
-			if (!isxdigit((unsigned char) buffer[i * 2])
-					|| !isxdigit((unsigned char) buffer[i * 2 + 1])
-					|| sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
-				return 0;
+		for (i = 0; i < nbytes; i++) {
+			if (buffer[i] == '\n' || buffer[i] == '\r') {
+				line->text[line->len] = '\0';
+				if (parse_line(line->text, line->len, packet) > 0)
+					write_to_knx_cemi(fd_cemi, packet);
+				line->len = 0;
+			} else if (line->len < KNXHIDPACKETLEN * 2 + 1) {
+				line->text[line->len++] = buffer[i];
 			}
 		}
-		fprintf(stderr, "Server: got message %s len %d\n", buffer, nbytes);
-		return i;
+		return nbytes;
 	}
 }
 
@@ -254,6 +274,7 @@ int main(int argc, char *argv[]) {
 							inet_ntoa(clientname.sin_addr),
 							ntohs(clientname.sin_port));
 					FD_SET(new_client, &active_fd_set);
+					lines[new_client].len = 0;
 					for (j = 0; j < MAX_CLIENTS; j++) {
 						if (client_fds[j] == -1) {
 							client_fds[j] = new_client;
@@ -268,10 +289,7 @@ int main(int argc, char *argv[]) {
 						}
 					}
 				} else {
-					int l = read_from_client(i, packet);
-					if (l > 0) {
-						write_to_knx_cemi(fd_cemi, packet);
-					} else if (l < 0) {
+					if (read_from_client(i, packet, fd_cemi) < 0) {
 						FD_CLR(i, &active_fd_set);
 						for (j = 0; j < MAX_CLIENTS; j++) {
 							if (client_fds[j] == i) {
-- 
2.43.0


From 7fe222aa5dfe476b5b015f90ea7e2a3968b4d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 29/40] fix: a client which went away killed the daemon

Writing a report to a connection the client had closed raised SIGPIPE.
---
 daemon/usbhid.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 1ef5616..9254aad 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <errno.h>
 #include <getopt.h>
+#include <signal.h>
 #include <stdlib.h>
 #include <unistd.h>
 #include <string.h>
@@ -234,6 +235,8 @@ int main(int argc, char *argv[]) {
 		}
 	}
 
+	signal(SIGPIPE, SIG_IGN);
+
 	sock = make_socket((uint16_t) DEFAULT_PORT);
 	if (listen(sock, 1) < 0) {
 		perror("listen");
-- 
2.43.0


From a9b18162d5f47f20691ca0e185177777c5e6d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 30/40] fix: a client which gave up connecting stopped the
 daemon

accept fails with ECONNABORTED in that case.
---
 daemon/usbhid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 9254aad..f872de3 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -271,7 +271,7 @@ int main(int argc, char *argv[]) {
 							&len);
 					if (new_client < 0) {
 						perror("accept");
-						exit(EXIT_FAILURE);
+						continue;
 					}
 					fprintf(stderr, "Server: connect from host %d, port %hd.\n",
 							inet_ntoa(clientname.sin_addr),
-- 
2.43.0


From 3328a4f599b656debc125b507e139c2463ad8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 31/40] fix: clients beyond the maximum were accepted but never
 got a report

---
 daemon/usbhid.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index f872de3..80c9bac 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -284,6 +284,11 @@ int main(int argc, char *argv[]) {
 							break;
 						}
 					}
+					if (j == MAX_CLIENTS) {
+						fprintf(stderr, "Server: too many clients\n");
+						FD_CLR(new_client, &active_fd_set);
+						close(new_client);
+					}
 				} else if (i == fd_cemi) {
 					int l = read_from_knx_cemi(fd_cemi, packet);
 					for (j = 0; j < MAX_CLIENTS; j++) {
-- 
2.43.0


From 7c25be88691ceed6f3e6cc9e0a42c7e9e15ec65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 32/40] fix: a malformed line or the end of the connection
 broke the USB client

A line which could not be decoded ended the reading task, no later line was
ever read. At the end of the connection the task kept on "reading" empty lines.
---
 knx_stack/client/usbhid.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 5d7e748..3d959ed 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -85,9 +85,18 @@ class Client(object):
 
     async def _knx_read(self):
         while True:
-            msg = await self._read()
-            octects_msg = knx_stack.Msg.make_from_str(msg)
-            data = knx_stack.decode_msg(self._state, octects_msg)
+            try:
+                msg = await self._read()
+                if msg is None:
+                    break
+                octects_msg = knx_stack.Msg.make_from_str(msg)
+                data = knx_stack.decode_msg(self._state, octects_msg)
+            except OSError as e:
+                self.logger.error("connection lost: {}".format(e))
+                break
+            except Exception as e:
+                self.logger.error("discarded a malformed line: {!r}".format(e))
+                continue
             self.logger.error("read {}".format(data))
 
     def _write(self, msg):
@@ -95,6 +104,8 @@ class Client(object):
 
     async def _read(self):
         msg = await self.rsock.readline()
+        if not msg:
+            return None
         return msg.decode()[0:-1]
 
     def run(self):
-- 
2.43.0


From 5065c3d60acd8e4012affe954c1bc2fd2f012d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 33/40] fix: the discovery program took its own name for the
 local address

---
 knx_stack/client/knxnet_ip_discovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 6def8fb..53bc2f0 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -171,10 +171,10 @@ if __name__ == "__main__":
 
     if len(sys.argv):
         transport1, _ = loop.run_until_complete(
-            loop.create_task(listen_discovery_responses(sys.argv[0], 5544))
+            loop.create_task(listen_discovery_responses(sys.argv[1], 5544))
         )
         transport2, _ = loop.run_until_complete(
-            loop.create_task(send_discovery_request(sys.argv[0], 5544))
+            loop.create_task(send_discovery_request(sys.argv[1], 5544))
         )
 
     try:
-- 
2.43.0


From 739070ff528a3aa3ff75e0a7fa576afffe8e1d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 34/40] fix: group object tables made from one dict are
 separate tables

GroupObjectTable kept the caller's dict, so that associating a type in one
table changed every other table made from the same initial contents (and the
caller's dict).
---
 knx_stack/definition/layer/application/groupobject_table.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/knx_stack/definition/layer/application/groupobject_table.py b/knx_stack/definition/layer/application/groupobject_table.py
index 831e651..6a4cefc 100644
--- a/knx_stack/definition/layer/application/groupobject_table.py
+++ b/knx_stack/definition/layer/application/groupobject_table.py
@@ -21,10 +21,7 @@ class GroupObjectTable:
     """
 
     def __init__(self, associations: Dict = None):
-        if associations:
-            self._associations = associations
-        else:
-            self._associations = {}
+        self._associations = dict(associations or {})
 
     @property
     def associations(self):
-- 
2.43.0


From bb8c17787ab361ec2047adc14783a64484e1ef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:56 +0000
Subject: [PATCH 35/40] fix: the client entry points need a loop variable of
 the program in their file

---
 knx_stack/client/knxnet_ip.py           | 2 +-
 knx_stack/client/knxnet_ip_discovery.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index d7506ed..78db6b8 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -157,7 +157,7 @@ async def start_tunneling(
     state: knx_stack.knxnet_ip.State,
     msgs: Iterable[NamedTuple],
 ):
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Tunneling(
             local_addr, local_port, remote_addr, remote_port, state, msgs
         ),
diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 53bc2f0..989b1b4 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -144,7 +144,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
     sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.setblocking(False)
 
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Request(local_addr, local_port),
         sock=sock,
     )
@@ -152,7 +152,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
 
 
 async def listen_discovery_responses(local_addr: str, local_port: int):
-    transport, protocol = await loop.create_datagram_endpoint(
+    transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
         lambda: Listen(),
         local_addr=(local_addr, local_port),
     )
-- 
2.43.0


From c4eac0ceca0fbd1d6e1c76cc3681b40af8481927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 36/40] fix: the discovery request can share its port

The socket options which let several programs on a host use the KNXnet/IP
port have to be set before the socket is bound: with another (sharing)
program on the port no search request was sent.
---
 knx_stack/client/knxnet_ip_discovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 989b1b4..516f554 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -136,12 +136,12 @@ class Listen(asyncio.DatagramProtocol):
 
 async def send_discovery_request(local_addr: str, local_port: int):
     sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
+    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.bind(("", knx_stack.knxnet_ip.DISCOVERY_MULTICAST_PORT))
     group = socket.inet_aton(knx_stack.knxnet_ip.DISCOVERY_MULTICAST_ADDR)
     mreq = struct.pack("!4sL", group, socket.INADDR_ANY)
     sock.setsockopt(socket.IPPROTO_IP, socket.IP_ADD_MEMBERSHIP, mreq)
-    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
-    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.setblocking(False)
 
     transport, protocol = await asyncio.get_event_loop().create_datagram_endpoint(
-- 
2.43.0


From 1b9a8942375b5006073ae27165b31b987fc1249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 37/40] fix: an address table could be made with repeated or
 too many addresses

---
 knx_stack/definition/layer/network/address_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index 34d196b..0a1b414 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -87,8 +87,9 @@ class AddressTable(object):
         """
         self._max_size = max_size
         self._individual_address = ia
-        self._group_addresses = list(addresses)
-        self._group_addresses.sort(key=lambda group_address: group_address.free_style)
+        self._group_addresses = list()
+        for address in addresses:
+            self.add(address)
 
     @property
     def individual_address(self) -> "knx_stack.Address":
-- 
2.43.0


From 3631d60b4aefc4eb0c8e7e81b458fa621693e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 38/40] fix: the daemon ignored the port and took no device
 after -d

---
 daemon/usbhid.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 80c9bac..6379107 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -195,12 +195,13 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 int main(int argc, char *argv[]) {
 	fd_set active_fd_set, read_fd_set;
 	struct sockaddr_in clientname;
-	static char *shortopts = "hdpi";
+	static char *shortopts = "hd:p:s:i";
 	static struct option longopts[] = { { "help", 0, NULL, 'h' }, { "host", 1,
 			NULL, 's' }, { "port", 1, NULL, 'p' },
 			{ "dev-hidraw", 1, NULL, 'd' }, { 0, 0, 0, 0 }, };
 	char *dev_hidraw = "/dev/hidraw1";
-	char *port = "8765";
+	char *end;
+	long port = DEFAULT_PORT;
 	char *host = "172.20.35.81";
 	char *packet;
 	size_t size;
@@ -218,6 +219,8 @@ int main(int argc, char *argv[]) {
 			printf("Usage: daemon [OPTION]...\n");
 			printf(
 					"-d, --dev-hidraw\t\t\tThe hidraw device (as /dev/hidraw2) \n");
+			printf("-p, --port\t\t\tThe port clients connect to (%d by default)\n",
+					DEFAULT_PORT);
 			exit(0);
 		}
 		case 'd': {
@@ -225,7 +228,11 @@ int main(int argc, char *argv[]) {
 			break;
 		}
 		case 'p': {
-			port = optarg;
+			port = strtol(optarg, &end, 10);
+			if (end == optarg || *end != '\0' || port < 1 || port > 65535) {
+				fprintf(stderr, "Invalid port %s.\n", optarg);
+				exit(EXIT_FAILURE);
+			}
 			break;
 		}
 		case 's': {
@@ -237,7 +244,7 @@ int main(int argc, char *argv[]) {
 
 	signal(SIGPIPE, SIG_IGN);
 
-	sock = make_socket((uint16_t) DEFAULT_PORT);
+	sock = make_socket((uint16_t) port);
 	if (listen(sock, 1) < 0) {
 		perror("listen");
 		exit(EXIT_FAILURE);
-- 
2.43.0


From 37a4ee7c178d3e16e29f3b3e8463fcde51c7a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 39/40] fix: a client which does not read stopped the daemon

---
 daemon/usbhid.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 6379107..c868f8d 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -189,7 +189,10 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 		sprintf(&buffer[i * 2], "%02x", packet[i]);
 	}
 	buffer[len * 2] = '\n';
-	write(filedes, buffer, len * 2 + 1);
+	if (send(filedes, buffer, len * 2 + 1, MSG_DONTWAIT) != len * 2 + 1) {
+		/* it is gone or does not read: waiting for it would stop the others */
+		shutdown(filedes, SHUT_RDWR);
+	}
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 803fde329d08094c96f885a9cd3b5278c4d1f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:54 +0000
Subject: [PATCH 40/40] fix: 16-bit floats are encoded alike in every decimal
 context of the program

---
 knx_stack/datapointtypes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 0ac76b4..a94bd8f 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -666,6 +666,10 @@ class DPT_Float_16(Union):
 
     length = DPT.Length.A_BYTE_OR_MORE
 
+    _decimal_context = decimal.Context(
+        prec=28, rounding=decimal.ROUND_HALF_EVEN, traps=[decimal.InvalidOperation]
+    )
+
     def decode(self):
         mantissa = (
             self.bits.mantissa
@@ -678,10 +682,14 @@ class DPT_Float_16(Union):
     def encode(self, value):
         sign = math.copysign(1, value)
 
-        decimal_mantissa = decimal.Decimal(
+        decimal_mantissa = decimal.Decimal.from_float(
             value / 0.01
         )  # used decimal to avoid different rounding
-        mantissa = abs(int(round(decimal_mantissa, 2)))  # two decimals
+        # two decimals, whatever decimal context the program uses
+        decimal_mantissa = decimal_mantissa.quantize(
+            decimal.Decimal("0.01"), context=self._decimal_context
+        )
+        mantissa = abs(int(decimal_mantissa))
         if mantissa == 0:
             sign = 1
 
-- 
2.43.0

