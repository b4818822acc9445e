From a516c51cd436e54fc44c4db82c33f7200a206b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 01/44] fix: READ(6) with transfer length 0 requests 256 blocks
 of the command's own block size

---
 src/infi/asi/cdb/read.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index e59524d..c3bb325 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -39,8 +39,7 @@ class Read6Command(CDB):
         datagram = self.create_datagram()
         read_length = self.block_size * self.transfer_length
         if read_length == 0: # This is only in READ 6
-            # read_length = 256 * self.block_size
-            read_length = 256 * 512
+            read_length = 256 * self.block_size
         result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))
         yield result_datagram
 
-- 
2.43.0


From c842a2f6b3b6589ae5961600f932d7b7341584dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 02/44] fix: READ(6) and WRITE(6) refuse a negative logical
 block address instead of masking it

---
 src/infi/asi/cdb/read.py  | 2 +-
 src/infi/asi/cdb/write.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index c3bb325..dfd2b48 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -30,7 +30,7 @@ class Read6Command(CDB):
         self.logical_block_address = logical_block_address
         self.block_size = block_size
         self.transfer_length = transfer_length
-        assert self.logical_block_address < 2 ** 21
+        assert 0 <= self.logical_block_address < 2 ** 21
         assert self.transfer_length < 2 ** 8, "transfer_length should be in range [0,256), instead got: {}".format(self.transfer_length)
         self.logical_block_address__msb = self.logical_block_address >> 16
         self.logical_block_address__lsb = self.logical_block_address & 0xffff
diff --git a/src/infi/asi/cdb/write.py b/src/infi/asi/cdb/write.py
index abf3763..5745e1b 100644
--- a/src/infi/asi/cdb/write.py
+++ b/src/infi/asi/cdb/write.py
@@ -32,7 +32,7 @@ class Write6Command(CDB):
         self.buffer = buffer
         self.block_size = block_size
 
-        assert self.logical_block_address < 2 ** 21, "lba > 2**21"
+        assert 0 <= self.logical_block_address < 2 ** 21, "lba should be in range [0, 2**21)"
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
 
         num_blocks = len(buffer) // block_size
-- 
2.43.0


From 9a1f1f93d2182d6acc052fdfbcec1606612cfe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 03/44] fix: UNMAP data length counts the 6 bytes that follow
 the field, not 7

---
 src/infi/asi/cdb/unmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/unmap.py b/src/infi/asi/cdb/unmap.py
index 7ca710f..5ea7b2e 100644
--- a/src/infi/asi/cdb/unmap.py
+++ b/src/infi/asi/cdb/unmap.py
@@ -49,7 +49,7 @@ class UnmapParameterListHeader(CDB):
 
     def __init__(self, data_length):
         super(UnmapParameterListHeader, self).__init__()
-        self.unmap_data_length=data_length+7
+        self.unmap_data_length=data_length+6
         self.unmap_block_descriptor_data_length=data_length
         self.datagram = self.create_datagram()
 
-- 
2.43.0


From dc6922b79b06b8fbbf0d608f2c652662513c24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 04/44] fix: WRITE SAME checks the buffer against the given
 block size

---
 src/infi/asi/cdb/write_same.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/write_same.py b/src/infi/asi/cdb/write_same.py
index d3ada25..b14b5b6 100644
--- a/src/infi/asi/cdb/write_same.py
+++ b/src/infi/asi/cdb/write_same.py
@@ -33,7 +33,7 @@ class WriteSame10Command(CDB):
 
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame10Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) % block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
@@ -66,7 +66,7 @@ class WriteSame16Command(CDB):
                 ]
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame16Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) % block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
-- 
2.43.0


From c32eff5f096a8de1db9f06689a28ff875ba65107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 05/44] fix: PERSISTENT RESERVE OUT sends the APTPL bit the
 caller asked for

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index a86a2fa..c41d16c 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -42,7 +42,7 @@ class PersistentReserveOutCommandBasicParameterList(CDBBuffer):
     """
     reservation_key = be_uint_field(where=bytes_ref[0:8])
     service_action_reservation_key = be_uint_field(where=bytes_ref[8:16])
-    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], set_before_pack=0, default=0)
+    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], default=0)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], set_before_pack=0, default=0)
     all_target_ports = be_uint_field(where=bytes_ref[20].bits[2], default=0)
     specify_initiator_ports = be_uint_field(where=bytes_ref[20].bits[3], default=0)  
-- 
2.43.0


From 14e8e765f4daa05bfb36603ec1e396945568b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 06/44] fix: READ FULL STATUS required_allocation_length reads
 its own additional_length

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 9fe81e7..0ca00d8 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -117,7 +117,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
         unpack_if=additional_length > 0)
 
     def required_allocation_length(self):
-        return additional_length + 8
+        return self.additional_length + 8
 
 
 class PersistentReserveInCommand(CDBBuffer):
-- 
2.43.0


From 628e430798a1a294c5cae00a9df066746ca76557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 07/44] fix: READ RESERVATION type and scope need the 22nd byte
 of the response

---
 src/infi/asi/cdb/persist/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 0ca00d8..36d3e6c 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -47,8 +47,8 @@ class PersistentReserveInReadReservationResponse(CDBBuffer):
     reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=input_buffer_length >= 16)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=input_buffer_length >= 20)
     reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=input_buffer_length >= 21)
-    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 21)
-    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 21)
+    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 22)
+    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 22)
     obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=input_buffer_length >= 24)
 
     def required_allocation_length(self):
-- 
2.43.0


From 873ca63fc9870a94581a42abb0005875d396c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 08/44] fix: LOG SENSE page and PERSISTENT RESERVE service
 action and type refuse negative values instead of wrapping them

---
 src/infi/asi/cdb/log_sense.py      | 1 +
 src/infi/asi/cdb/persist/input.py  | 1 +
 src/infi/asi/cdb/persist/output.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index de3ca01..bfe5cab 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -17,6 +17,7 @@ class LogSenseCommand(CDBBuffer):
 
     def __init__(self, page_code, subpage_code=0, allocation_length=396):
         super(LogSenseCommand, self).__init__()
+        assert page_code >= 0, "page_code should be in range [0, 64)"
         self.sp = 0
         self.pc = 0
         self.parameter_pointer = 0
diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 36d3e6c..c7bd426 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -137,6 +137,7 @@ class PersistentReserveInCommand(CDBBuffer):
             **kwargs)
         assert allocation_length >= 8, \
             "A minimum of 8 bytes must be allocated."
+        assert service_action >= 0, "service_action should be in range [0, 32)"
 
     def execute(self, executer):
         command_datagram = bytes(self.create_datagram())
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index c41d16c..e7e030c 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -90,6 +90,7 @@ class PersistentReserveOutCommand(CDBBuffer):
         assert self.service_action in SERVICE_ACTION_TO_PARAMETER_LIST_CLASS, \
             "No parameter list class defined for service action %r." % \
             service_action
+        assert self.pr_type >= 0, "pr_type should be in range [0, 16)"
         parameter_list_buffer_class = \
             SERVICE_ACTION_TO_PARAMETER_LIST_CLASS[service_action]
         parameter_list_buffer = parameter_list_buffer_class(
-- 
2.43.0


From 764929d90bcf5a58d08d160e6fe671d210b03006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 09/44] fix: EUI-64 and NAA extended designators decode 3 and 5
 byte fields big-endian

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8e85618..4b39c7b 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -24,8 +24,9 @@ class Reserved_Designator(DesignatorDescriptor):
 
 # spc4r30, section 7.8.5.5.2, page 617
 class EUI64_Designator(DesignatorDescriptor):
-    ieee_company = be_uint_field(where=bytes_ref[4:7])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[7:12])
+    ieee_company = be_uint_field(where=(bytes_ref[6] + bytes_ref[5] + bytes_ref[4]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9] +
+                                                               bytes_ref[8] + bytes_ref[7]))
 
 
 # spc4r30, section 7.8.5.5.3, page 617
@@ -36,8 +37,9 @@ class EUI64_12Byte_Designator(EUI64_Designator):
 # spc4r30, section 7.8.5.5.4, page 618
 class EUI64_16Byte_Designator(DesignatorDescriptor):
     identifier_extension = be_uint_field(where=bytes_ref[4:12])
-    ieee_company = be_uint_field(where=bytes_ref[12:15])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[15:20])
+    ieee_company = be_uint_field(where=(bytes_ref[14] + bytes_ref[13] + bytes_ref[12]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[19] + bytes_ref[18] + bytes_ref[17] +
+                                                               bytes_ref[16] + bytes_ref[15]))
 
 
 # spc4r30, section 7.8.5.6.1, page 618
@@ -48,8 +50,8 @@ class NAA_Descriptor(DesignatorDescriptor):
 # spc4r30, section 7.8.5.6.2, page 619
 class NAA_IEEE_Extended_Designator(NAA_Descriptor):
     vendor_specific_identifier_a = be_uint_field(where=(bytes_ref[5] + bytes_ref[4].bits[0:4]))
-    ieee_company = be_uint_field(where=bytes_ref[6:9])
-    vendor_specific_identifier_b = be_uint_field(where=bytes_ref[9:12])
+    ieee_company = be_uint_field(where=(bytes_ref[8] + bytes_ref[7] + bytes_ref[6]))
+    vendor_specific_identifier_b = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9]))
 
 
 # spc4r30, section 7.8.5.6.2, page 619
-- 
2.43.0


From 20282362f9aee4f7ff29263e86af687685567549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 10/44] fix: a designator of a reserved type holds arbitrary
 bytes, it does not make the page undecodable

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 4b39c7b..8c77898 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -19,7 +19,7 @@ class DesignatorDescriptor(Buffer):
 # Designator types 09-0F are reserved
 class Reserved_Designator(DesignatorDescriptor):
     designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.designator))
-    desginator = str_field(where=bytes_ref[4:4+designator_length])
+    designator = bytearray_field(where=bytes_ref[4:4+designator_length])
 
 
 # spc4r30, section 7.8.5.5.2, page 617
-- 
2.43.0


From ea903e37c04555bffc4f894e990086e714778741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 11/44] fix: T10 vendor ID designator counts the vendor
 identification in its length when packed

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8c77898..ceefc9e 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -108,7 +108,7 @@ class VendorSpecificDesignator(DesignatorDescriptor):
 
 
 class T10VendorIDDesignator(DesignatorDescriptor):
-    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier))
+    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier) + 8)
     t10_vendor_identification = str_field(where=bytes_ref[4:12])
     vendor_specific_identifier = bytearray_field(where=bytes_ref[12:4+designator_length])
 
-- 
2.43.0


From 080c84f92deb5fcb4b9d34e7042a8f8ff071255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 12/44] fix: ATA information page decodes its registers as
 unsigned (command code ECh is not -20)

---
 .../cdb/inquiry/vpd_pages/ata_information.py  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index a726537..bd60656 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_int_field
+from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field
 
 
 # sat3r04: 12.4.2
@@ -23,27 +23,27 @@ class AtaIdentifyDevice(Buffer):
 
 class DeviceSignature(Buffer):
     byte_size = 20
-    transport_id = be_int_field(where=bytes_ref[0])
-    pm_port = be_int_field(where=bytes_ref[1].bits[0:4])
-    interrupt = be_int_field(where=bytes_ref[1].bits[6])
-    status = be_int_field(where=bytes_ref[2])
-    error = be_int_field(where=bytes_ref[3])
+    transport_id = be_uint_field(where=bytes_ref[0])
+    pm_port = be_uint_field(where=bytes_ref[1].bits[0:4])
+    interrupt = be_uint_field(where=bytes_ref[1].bits[6])
+    status = be_uint_field(where=bytes_ref[2])
+    error = be_uint_field(where=bytes_ref[3])
     lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
                            bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
-    device = be_int_field(where=bytes_ref[7])
-    sector_count = be_int_field(where=bytes_ref[12:14])
+    device = be_uint_field(where=bytes_ref[7])
+    sector_count = be_uint_field(where=bytes_ref[12:14])
 
 
 class AtaInformationVPDPageBuffer(Buffer):
     byte_size = 572
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
-    page_code = be_int_field(where=bytes_ref[1:2])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[1:2])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     sat_vendor_identification = str_field(where=bytes_ref[8:16])  # bytes 8-15
     sat_product_identification = str_field(where=bytes_ref[16:32])  # bytes 16-31
     sat_product_revision_level = str_field(where=bytes_ref[32:36])  # bytes 32-35
     device_signature = buffer_field(where=bytes_ref[36:56], type=DeviceSignature)  # bytes 36-55
-    command_code = be_int_field(where=bytes_ref[56:57])
+    command_code = be_uint_field(where=bytes_ref[56:57])
     # ATA IDENTIFY DEVICE: bytes 60-571
     identify_device = buffer_field(where=bytes_ref[60:572], type=AtaIdentifyDevice)
 
-- 
2.43.0


From f6c3dd2fb5d7b1291af877f360e880e24ac418f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 13/44] fix: ATA information page decodes all 40 characters of
 the model number

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index bd60656..1317e7c 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -18,7 +18,7 @@ class AtaIdentifyDevice(Buffer):
                                                   52])  # word 23-26 in ATA IDENTIFY DEVICE range
     model_number = str_field(where=bytes_ref[55, 54, 57, 56, 59, 58, 61, 60, 63, 62, 65, 64, 67, 66, 69, 68,
                                              71, 70, 73, 72, 75, 74, 77, 76, 79, 78, 81, 80, 83, 82, 85, 84,
-                                             87, 86, 89, 88, 91, 90])  # word 27-46 in ATA IDENTIFY DEVICE range
+                                             87, 86, 89, 88, 91, 90, 93, 92])  # word 27-46 in ATA IDENTIFY DEVICE range
 
 
 class DeviceSignature(Buffer):
-- 
2.43.0


From a76a792a3e24181b9362b116593bfce7d64fcf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 14/44] fix: ATA device signature LBA registers are bytes, not
 ASCII text (an ATAPI signature made the page undecodable)

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index 1317e7c..a725446 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field
+from infi.instruct.buffer import Buffer, str_field, bytearray_field, bytes_ref, buffer_field, be_uint_field
 
 
 # sat3r04: 12.4.2
@@ -28,8 +28,8 @@ class DeviceSignature(Buffer):
     interrupt = be_uint_field(where=bytes_ref[1].bits[6])
     status = be_uint_field(where=bytes_ref[2])
     error = be_uint_field(where=bytes_ref[3])
-    lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
-                           bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
+    lba = bytearray_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
+                                 bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
     device = be_uint_field(where=bytes_ref[7])
     sector_count = be_uint_field(where=bytes_ref[12:14])
 
-- 
2.43.0


From a40f7895f326a2ca4a0188ee3df903208c630faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 15/44] fix: REPORT TARGET PORT GROUPS lengths, counts and
 status codes are unsigned

---
 src/infi/asi/cdb/rtpg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 5aee687..6148bd9 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -71,17 +71,17 @@ class TargetPortGroupDescriptor(Buffer):
     t_sup = be_int_field(where=bytes_ref[1].bits[7])
 
     target_port_group = be_uint_field(where=bytes_ref[2:4])
-    status_code = be_int_field(where=bytes_ref[5])
+    status_code = be_uint_field(where=bytes_ref[5])
 
-    target_port_count = be_int_field(where=bytes_ref[7])
+    target_port_count = be_uint_field(where=bytes_ref[7])
     target_port_list = list_field(type=TargetPortDescriptor, where=bytes_ref[8:], n=target_port_count)
 
 class TargetPortGroupLengthOnlyResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])
 
 class TargetPortGroupExtendedResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[7:7 + data_length])
     # ...
-- 
2.43.0


From 392c64d18284cd42513130b4b392b42b66c93b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 16/44] fix: extended REPORT TARGET PORT GROUPS descriptors
 start at byte 8 and end where the length says

---
 src/infi/asi/cdb/rtpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 6148bd9..b643fd1 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -83,5 +83,5 @@ class TargetPortGroupLengthOnlyResponse(Buffer):
 class TargetPortGroupExtendedResponse(Buffer):
     data_length = be_uint_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
-    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[7:7 + data_length])
+    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 491aac08f3a6201110c42b0dd53cbb0610b1e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 17/44] fix: SES page counts, lengths, addresses and page codes
 are unsigned

---
 .../cdb/diagnostic/ses_pages/configuration.py | 20 +++++++-------
 .../ses_pages/element_descriptor.py           | 10 +++----
 .../diagnostic/ses_pages/enclosure_status.py  | 26 +++++++++----------
 .../diagnostic/ses_pages/supported_pages.py   |  6 ++---
 .../cdb/diagnostic/ses_pages/vendor_0x80.py   |  6 ++---
 5 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index d7b7b3e..be139ed 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -65,8 +65,8 @@ ELEMENT_TYPE_CODES = {ELEMENT_TYPE_UNSPECIFIED: 'Unspecified',
 class EnclosureDescriptor(Buffer):
     enclosure_services_processes_num = be_int_field(where=bytes_ref[0].bits[0:3])
     relative_enclosure_services_process_identifier = be_int_field(where=bytes_ref[0].bits[4:7])
-    subenclosure_identifier = be_int_field(where=bytes_ref[1])
-    type_descriptor_headers_num = be_int_field(where=bytes_ref[2])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[1])
+    type_descriptor_headers_num = be_uint_field(where=bytes_ref[2])
     enclosure_descriptor_length = be_uint_field(where=bytes_ref[3])
     enclosure_logical_identifier = bytearray_field(where=bytes_ref[4:12])
     enclosure_vendor_identification = str_field(where=bytes_ref[12:20])
@@ -77,10 +77,10 @@ class EnclosureDescriptor(Buffer):
 
 
 class TypeDescriptorHeader(Buffer):
-    element_type = be_int_field(where=bytes_ref[0], sign='unsigned')
-    possible_elements_num = be_int_field(where=bytes_ref[1])
-    subenclosure_identifier = be_int_field(where=bytes_ref[2])
-    type_descriptor_text_length = be_int_field(where=bytes_ref[3])
+    element_type = be_uint_field(where=bytes_ref[0])
+    possible_elements_num = be_uint_field(where=bytes_ref[1])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[2])
+    type_descriptor_text_length = be_uint_field(where=bytes_ref[3])
 
 
 class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
@@ -91,10 +91,10 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
         l = self.type_descriptor_header_list[index].type_descriptor_text_length
         return buffer[0:l].to_bytes(), l
 
-    page_code = be_int_field(where=bytes_ref[0])
-    secondary_subenclosures_num = be_int_field(where=bytes_ref[1])
-    page_length = be_int_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    secondary_subenclosures_num = be_uint_field(where=bytes_ref[1])
+    page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     enclosure_descriptor_list = list_field(type=EnclosureDescriptor,
                                            where=bytes_ref[8:],
                                            n=secondary_subenclosures_num + 1)
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
index 816ae12..85f63cc 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
@@ -1,9 +1,9 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
+from infi.instruct.buffer import Buffer, bytes_ref, be_uint_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Descriptor(Buffer):
-    descriptor_length = be_int_field(where=bytes_ref[2:4])
+    descriptor_length = be_uint_field(where=bytes_ref[2:4])
     descriptor = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:descriptor_length + 4])
 
 
@@ -30,9 +30,9 @@ class ElementDescriptorDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     element_descriptors = list_field(where=bytes_ref[8:], type=ElementDescriptor,
                                      unpack_selector=_unpack_status_descriptor,
                                      n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index eb8d7b1..a95e8a4 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -1,4 +1,4 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, int8, member_func_ref
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, int8, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
@@ -10,7 +10,7 @@ class GeneralElementInfo(Buffer):
 # ses3r05: 7.3.2
 class DeviceSlotElementInfo(Buffer):
     byte_size = 3
-    slot_address = be_int_field(where=bytes_ref[0])
+    slot_address = be_uint_field(where=bytes_ref[0])
     report = be_int_field(where=bytes_ref[1].bits[0])
     ident = be_int_field(where=bytes_ref[1].bits[1])
     rmv = be_int_field(where=bytes_ref[1].bits[2])
@@ -103,7 +103,7 @@ class TempSensorElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    temperature = be_int_field(where=bytes_ref[1])
+    temperature = be_uint_field(where=bytes_ref[1])
     ut_warn = be_int_field(where=bytes_ref[2].bits[0])
     ut_fail = be_int_field(where=bytes_ref[2].bits[1])
     ot_warn = be_int_field(where=bytes_ref[2].bits[2])
@@ -156,20 +156,20 @@ class NonVolotileCacheElementInfo(Buffer):
     size_mult = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    cache_size = be_int_field(where=bytes_ref[1:])
+    cache_size = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.12
 class InvalidOpReasonElementInfo(Buffer):
     byte_size = 3
     invop_type = be_int_field(where=bytes_ref[0].bits[6:8])
-    invop_bytes = be_int_field(where=bytes_ref[1:])
+    invop_bytes = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.13
 class UninterruptiblePowerSupplyElementInfo(Buffer):
     byte_size = 3
-    battery_status = be_int_field(where=bytes_ref[0])
+    battery_status = be_uint_field(where=bytes_ref[0])
     intf_fail = be_int_field(where=bytes_ref[1].bits[0])
     warn = be_int_field(where=bytes_ref[1].bits[1])
     ups_fail = be_int_field(where=bytes_ref[1].bits[2])
@@ -190,7 +190,7 @@ class DisplayElementInfo(Buffer):
     display_mode_status = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    display_char_status = be_int_field(where=bytes_ref[1:])
+    display_char_status = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.15
@@ -227,7 +227,7 @@ class ScsiPortTransceiverElementInfo(Buffer):
 class LanguageElementInfo(Buffer):
     byte_size = 3
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    language_code = be_int_field(where=bytes_ref[1:])
+    language_code = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.19
@@ -283,7 +283,7 @@ class SimpleSubenclosureElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    short_enclosure_status = be_int_field(where=bytes_ref[2])
+    short_enclosure_status = be_uint_field(where=bytes_ref[2])
 
 
 # ses3r05: 7.3.25
@@ -298,7 +298,7 @@ class SasConnectorElementInfo(Buffer):
     byte_size = 3
     connector_type = be_int_field(where=bytes_ref[0].bits[0:7])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    connector_phys_link = be_int_field(where=bytes_ref[1])
+    connector_phys_link = be_uint_field(where=bytes_ref[1])
     fail = be_int_field(where=bytes_ref[2].bits[6])
 
 
@@ -488,14 +488,14 @@ class EnclosureStatusDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
+    page_code = be_uint_field(where=bytes_ref[0])
     unrecov = be_int_field(where=bytes_ref[1].bits[0])
     crit = be_int_field(where=bytes_ref[1].bits[1])
     non_crit = be_int_field(where=bytes_ref[1].bits[2])
     info = be_int_field(where=bytes_ref[1].bits[3])
     invop = be_int_field(where=bytes_ref[1].bits[4])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     status_descriptors = list_field(where=bytes_ref[8:], type=StatusDescriptor,
                                     unpack_selector=_unpack_status_descriptor,
                                     n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index bffbb72..489171b 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,11 +1,11 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     supported_pages = list_field(type=uint8, where=bytes_ref[4:])
 
 
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index eeed147..c08fe87 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
 
 
-- 
2.43.0


From 404ad18490b09e75802836b2d679e71708451174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 18/44] fix: enclosure element requested-state fields are in
 the last status byte

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index a95e8a4..396a83c 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -207,9 +207,9 @@ class EnclosureElementInfo(Buffer):
     warn_indication = be_int_field(where=bytes_ref[1].bits[0])
     failure_indication = be_int_field(where=bytes_ref[1].bits[1])
     time_until_power_cycle = be_int_field(where=bytes_ref[1].bits[2:8])
-    warn_requested = be_int_field(where=bytes_ref[1].bits[0])
-    failure_requested = be_int_field(where=bytes_ref[1].bits[1])
-    requested_power_off_duration = be_int_field(where=bytes_ref[1].bits[2:8])
+    warn_requested = be_int_field(where=bytes_ref[2].bits[0])
+    failure_requested = be_int_field(where=bytes_ref[2].bits[1])
+    requested_power_off_duration = be_int_field(where=bytes_ref[2].bits[2:8])
 
 
 # ses3r05: 7.3.17
-- 
2.43.0


From 19a8a7015f48606100e4fa749e3d1bd94be68651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 19/44] fix: cooling element fan speed takes its most
 significant bits from the first byte

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index 396a83c..e740dc7 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -89,7 +89,7 @@ FAN_SPEED_CODE = {0: 'Cooling mechanism is stopped',
 class CoolingElementInfo(Buffer):
     byte_size = 3
     # for real fan speed the fan speed value should be multiplied by a factor of 10
-    fan_speed = be_int_field(where=(bytes_ref[0].bits[0:3] + bytes_ref[1]))
+    fan_speed = be_int_field(where=(bytes_ref[1] + bytes_ref[0].bits[0:3]))
     ident = be_int_field(where=bytes_ref[0].bits[7])
     speed_code = be_int_field(where=bytes_ref[2].bits[0:3])
     off = be_int_field(where=bytes_ref[2].bits[4])
-- 
2.43.0


From a929f98c5f271d76c28f573c1e044ebf8e0872e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 20/44] fix: diagnostic pages without a decoder of their own
 can be executed and keep their raw bytes

---
 src/infi/asi/cdb/diagnostic/ses_pages/unknown.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
index f9d0049..e81d683 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field
-from . import PCVReceiveDiagnosticResultCommand
+from infi.instruct.buffer import bytes_ref, be_uint_field, bytearray_field
+from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
-class UnknownDiagnosticPageData(Buffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_data = be_int_field(where=bytes_ref[1:])
+class UnknownDiagnosticPageData(DiagnosticDataBuffer):
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_data = bytearray_field(where=bytes_ref[1:])
 
 
 def UnknownDiagnosticPageCommand(page_code):
-- 
2.43.0


From 932ea9af1e7f172876b54062ecb87859986ad18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 21/44] fix: descriptor format sense data has 3 reserved bytes
 before its length

---
 src/infi/asi/sense/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 4c6f796..5fa61e7 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -59,7 +59,7 @@ class SCSISenseDataDescriptorBased(Struct):
             BitPadding(4)
             ),
         Field("additional_sense_code", AdditionalSenseCode),
-        BytePadding(2),
+        BytePadding(3),
         SumSizeArray("descriptors", UBInt8,
                      StructSelector(UBInt8, SENSE_DESCIPTOR_TYPES, default=SCSISenseDataGenericDescriptor))
     ]
-- 
2.43.0


From 34fe14c15cf3efd41320537bd9aa1f88df89e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 22/44] fix: additional sense codes 40h/4Dh/70h cover qualifier
 FFh

---
 src/infi/asi/sense/asc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/sense/asc.py b/src/infi/asi/sense/asc.py
index 052f25f..1be2678 100644
--- a/src/infi/asi/sense/asc.py
+++ b/src/infi/asi/sense/asc.py
@@ -668,10 +668,10 @@ ASC_CODES = {
     struct.pack(">BB", 0x7F, 0x00): "VENDOR SPECIFIC",
 }
 
-for i in range(0x80, 0xFF):
+for i in range(0x80, 0x100):
     ASC_CODES[struct.pack(">BB", 0x40, i)] = "DIAGNOSTIC FAILURE ON COMPONENT %2X" % (i,)
 
-for i in range(0, 0xFF):
+for i in range(0, 0x100):
     ASC_CODES[struct.pack(">BB", 0x4D, i)] = "TAGGED OVERLAPPED COMMANDS (%2X = TASK TAG)" % (i,)
     ASC_CODES[struct.pack(">BB", 0x70, i)] = "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF %2X" % (i,)
 
-- 
2.43.0


From 81108a03daa4531b520b7cb43a5e42ec532b2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 23/44] fix: a check condition with malformed sense data is
 reported as such, it does not lose the pending command

---
 src/infi/asi/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 452c196..976ccba 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -153,7 +153,10 @@ class CommandExecuterBase(CommandExecuter):
         raise NotImplementedError()
 
     def _check_condition(self, buf):
-        sense = get_sense_object_from_buffer(buf)
+        try:
+            sense = get_sense_object_from_buffer(buf)
+        except Exception:
+            sense = None    # malformed sense data: the caller still gets the raw bytes
         return AsiCheckConditionError(buf, sense)
 
 # TODO: maybe add a ReactorCommandExecuter that also adds a "register_response_listener()" that automatically reads
-- 
2.43.0


From f822a461144f8e089a62b282147cdf125cc9b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 24/44] fix: recognise RESERVATION CONFLICT by the SCSI status,
 not the host status

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index bb5b4f0..11a6e4a 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -240,7 +240,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         if response_sgio.status != 0:
             if response_sgio.host_status == 0x07:
                 return (AsiRequestQueueFullError(), packet_id)
-            if response_sgio.host_status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
+            if response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                 return (AsiReservationConflictError(), packet_id)
             error = AsiSCSIError(("SCSI response status is not zero: %s" +
                                   "(driver status: %s, host status: %s)") %
-- 
2.43.0


From 8cd67352f3048e9f10d85e0bbf93fd369581cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 25/44] fix: report an unexpected SG response as an internal
 error when its statuses are good

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 11a6e4a..5bd8510 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -264,7 +264,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
             return (error, packet_id)
 
         data = None
-        if request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
+        if request_sgio is not None and request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
             data = request_sgio.data_buffer.raw
 
         return (data, packet_id)
-- 
2.43.0


From 884f5107ad2d148a8ed2a3d0c2948f4abd684435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 26/44] fix: read back the header updated by the SG_IO ioctl,
 so that failed commands are noticed

---
 src/infi/asi/linux.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 5bd8510..f6135d3 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -284,8 +284,10 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
+        # the ioctl reports the outcome by updating the header, so it must be given a mutable buffer
+        header = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
+        gevent_friendly(ioctl)(self.io.fd, SG_IO, header)
+        self.buffer = header.raw
         yield len(self.buffer)
 
     def _os_receive(self):
-- 
2.43.0


From 056850a51d4fb989e100faab024649c54e7f9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 27/44] fix: take the USCSI reason from the upper byte of the
 status word

---
 src/infi/asi/solaris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index b24f09d..79ed4f0 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -210,7 +210,7 @@ class SolarisCommandExecuter(CommandExecuterBase):
         packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
-        response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
+        response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
 
         if response_status_code & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']:
             logger.debug("response_cmd.status = 0x{:x}".format(response_cmd.uscsi_status))
-- 
2.43.0


From 8016b7039fb0fa337011c540bce8e099c84ac528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 28/44] fix: notice a failed ioctl on AIX when libc's ioctl is
 used

---
 src/infi/asi/aix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index e0d105b..ab2ffec 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -372,7 +372,8 @@ class AixCommandExecuter(CommandExecuterBase):
     def _os_send(self, os_data):
         try:
             ioctl = gevent_friendly(get_ioctl_function())
-            ioctl(self.io.fd, DK_PASSTHRU, addressof(os_data))
+            if ioctl(self.io.fd, DK_PASSTHRU, addressof(os_data)) == -1:
+                raise IOError("ioctl failed")   # libc's ioctl, unlike fcntl's, does not raise
         except IOError:
             if os_data.einval_arg != 0:
                 msg = "ioctl failed, invalid argument: {}"
-- 
2.43.0


From 3601456ecf7e6bfbc634415516cf7e75cc3d48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 29/44] fix: an overlapped request that completes at once is
 not an error

---
 src/infi/asi/win32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 2b3ce44..88b50b8 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -164,11 +164,11 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         api_result = DeviceIoControl(self.handle, control_code, input, input_size, output, output_size,
                                      None, byref(self._overlapped_struct))
         last_error = GetLastError()
-        if not api_result and last_error == ERROR_IO_PENDING:
+        if api_result or last_error == ERROR_IO_PENDING:    # complete already, or later: the event is signalled either way
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
         else:
-            raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
+            raise AsiWin32OSError(last_error, "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
 def WaitForMultipleObjects(events):
     from struct import pack
-- 
2.43.0


From d23b643297efde05953b9ce54f0a70004be2a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 30/44] fix: an overlapped request that fails is reported

---
 src/infi/asi/win32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 88b50b8..045cfee 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -146,7 +146,8 @@ class WinAsyncIOToken(OSAsyncIOToken):
     def get_result(self, block=False):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
-        err = kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block)
+        if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
+            raise AsiWin32OSError(GetLastError(), "GetOverlappedResult failed")
         return result
 
 class Win32AsyncFile(OSAsyncFile, Win32File):
-- 
2.43.0


From 7cbda83e672133d294838fe18f37f6fd61b06da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 31/44] fix: a failed async IO is raised in the coroutine that
 waits for it

---
 src/infi/asi/coroutines/sync_adapter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 689b105..94b420a 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -15,6 +15,14 @@ class Coroutine(object):
     def _handle_async_io_token(self):
         raise NotImplementedError()
 
+    def _complete_async_io(self, **kwargs):
+        """ hands the outcome of the async IO - a result or an error - to the generator that yielded its token """
+        try:
+            self.args = self.result.get_result(**kwargs)
+        except Exception as e:
+            self.tb = sys.exc_info()[2]
+            self.args = e
+
     def _next_step(self):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
@@ -59,12 +67,12 @@ class AsyncCoroutine(Coroutine):
     def async_io_complete(self):
         """ Callback for reactor to signal that a blocking async IO has been completed """
         # current self.result is an Async IO Token, we can ask for its result now and continue with the stack
-        self.args = self.result.get_result()
+        self._complete_async_io()
 
 class SyncCoroutine(Coroutine):
     def _handle_async_io_token(self):
         # we just ask for a synhronous result from self.result which is the Async IO Token, and then continue
-        self.args = self.result.get_result(block=True)
+        self._complete_async_io(block=True)
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-- 
2.43.0


From 119b7dc5ffc4cc43b16508e9c7ab57527896cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 32/44] fix: an exception handled by a sub-coroutine is not
 raised again in its caller

---
 src/infi/asi/coroutines/sync_adapter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 94b420a..48ba5b6 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -39,6 +39,8 @@ class Coroutine(object):
                 self.args = self.result
         except StopIteration as e:
             self.stack.pop()
+            if isinstance(self.args, BaseException):
+                self.args = None    # the generator has handled it
         except BaseException as e:
             self.tb = sys.exc_info()[2]
             self.stack.pop()
-- 
2.43.0


From b350837200730da02e3eff94ef6f44a5221ed2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 33/44] fix: the result of a coroutine is its last value, not a
 sub-coroutine or an IO token

---
 src/infi/asi/coroutines/sync_adapter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 48ba5b6..40466f0 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -41,6 +41,7 @@ class Coroutine(object):
             self.stack.pop()
             if isinstance(self.args, BaseException):
                 self.args = None    # the generator has handled it
+            self.result = self.args
         except BaseException as e:
             self.tb = sys.exc_info()[2]
             self.stack.pop()
-- 
2.43.0


From 0e2ffa7c042d0cc286bdce8111b0a976a8c9a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 34/44] fix: sync_call calls the function once

---
 src/infi/asi/coroutines/sync_adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 40466f0..acfe0f3 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -79,7 +79,6 @@ class SyncCoroutine(Coroutine):
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-    stack = [ func(*init_args, **init_kwargs) ]
     return sync_wait(func(*init_args, **init_kwargs))
 
 def sync_wait(generator):
-- 
2.43.0


From 2df9eb8c6e58599e8a10322e467327214c29dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 35/44] fix: a full queue is reported as
 AsiRequestQueueFullError, not NameError

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 976ccba..7b795b9 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -3,7 +3,7 @@ __import__("pkg_resources").declare_namespace(__name__)
 import os
 from infi.instruct import *
 from infi.pyutils.decorators import wraps
-from .errors import AsiException, AsiCheckConditionError, AsiInternalError
+from .errors import AsiException, AsiCheckConditionError, AsiInternalError, AsiRequestQueueFullError
 from .sense import *
 
 try:
-- 
2.43.0


From 6f83fc95f456e79a7634f335f2ff34045fb18d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 36/44] fix: a new command never takes the index of a pending
 one

---
 src/infi/asi/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 7b795b9..c58f797 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -117,7 +117,9 @@ class CommandExecuterBase(CommandExecuter):
         if len(self.pending_packets) >= self.max_queue_size:
             raise AsiRequestQueueFullError()
         result = self.packet_index
-        self.packet_index = (self.packet_index + 1) % self.max_queue_size
+        while result in self.pending_packets:   # an older command may still be waiting for its response
+            result = (result + 1) % self.max_queue_size
+        self.packet_index = (result + 1) % self.max_queue_size
         return result
 
     def _process_pending_response(self):
-- 
2.43.0


From 55d38bb5d8ff075ab385063cc5cfee324ca3b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 37/44] fix: waiting for a command sent without a callback

---
 src/infi/asi/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index c58f797..6a8384a 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -132,7 +132,9 @@ class CommandExecuterBase(CommandExecuter):
         if request is None:
             raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
 
-        if isinstance(result, Exception):
+        if callback is None:
+            pass    # nobody asked for the outcome
+        elif isinstance(result, Exception):
             callback(None, result)
         else:
             callback(result, None)
-- 
2.43.0


From 275c3b02c0af030cbc371c36cc12db9c504eb253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 38/44] fix: close the device when no executer can be made for
 it

---
 src/infi/asi/executers.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/infi/asi/executers.py b/src/infi/asi/executers.py
index 00179b9..be185a5 100644
--- a/src/infi/asi/executers.py
+++ b/src/infi/asi/executers.py
@@ -10,9 +10,8 @@ SG_TIMEOUT_IN_MS = SG_TIMEOUT_IN_SEC * MS
 @contextmanager
 def windows(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
-        yield executer
+        yield create_platform_command_executer(handle)
     finally:
         handle.close()
 
@@ -22,9 +21,8 @@ def linux_dm(device):
     from infi.asi.linux import LinuxIoctlCommandExecuter
 
     handle = create_os_file(device)
-    executer = LinuxIoctlCommandExecuter(handle)
     try:
-        yield executer
+        yield LinuxIoctlCommandExecuter(handle)
     finally:
         handle.close()
 
@@ -32,9 +30,8 @@ def linux_dm(device):
 @contextmanager
 def linux_sg(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle, timeout=SG_TIMEOUT_IN_MS)
     try:
-        yield executer
+        yield create_platform_command_executer(handle, timeout=SG_TIMEOUT_IN_MS)
     finally:
         handle.close()
 
@@ -42,9 +39,8 @@ def linux_sg(device):
 @contextmanager
 def solaris(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
-        yield executer
+        yield create_platform_command_executer(handle)
     finally:
         handle.close()
 
@@ -52,8 +48,7 @@ def solaris(device):
 @contextmanager
 def aix(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
-        yield executer
+        yield create_platform_command_executer(handle)
     finally:
         handle.close()
-- 
2.43.0


From 1c6fd4e6d916413b49befab341598721beac5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 39/44] fix: a driver error names the driver status and the
 host status

---
 src/infi/asi/linux.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index f6135d3..a248344 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -251,8 +251,8 @@ class LinuxCommandExecuter(CommandExecuterBase):
 
         if (response_sgio.driver_status & 0x0F) != 0:
             error = AsiSCSIError("SCSI driver response status is not zero: %s (host status: %s)" %
-                                (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
-                                 prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES)))
+                                (prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
+                                 prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
             return (error, packet_id)
 
         if response_sgio.host_status != 0:
-- 
2.43.0


From e77dac7186731b012ef2863091c1cde44ef611d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:24 +0000
Subject: [PATCH 40/44] fix: an option set in the control byte of one command
 appeared in every other command

All commands shared the one default Control / ControlBuffer object, so command.control.naca = 1 changed the
commands made and sent afterwards (and those already made). Every command now gets a control of its own.
---
 src/infi/asi/cdb/control.py             |  8 ++++++++
 src/infi/asi/cdb/diagnostic/__init__.py |  4 ++--
 src/infi/asi/cdb/log_sense.py           |  4 ++--
 src/infi/asi/cdb/persist/input.py       |  4 ++--
 src/infi/asi/cdb/persist/output.py      |  4 ++--
 src/infi/asi/cdb/release.py             | 11 ++++++++---
 src/infi/asi/cdb/reserve.py             | 11 ++++++++---
 7 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/infi/asi/cdb/control.py b/src/infi/asi/cdb/control.py
index 96b3667..6d2ac6b 100644
--- a/src/infi/asi/cdb/control.py
+++ b/src/infi/asi/cdb/control.py
@@ -11,6 +11,9 @@ class Control(Struct):
         BitField("vendor_specific", 2),  # 6-7: vendor specific
     )
 
+    def copy(self):     # the default value of a field is copied when it can be
+        return type(self)(vendor_specific=self.vendor_specific, naca=self.naca)
+
 DEFAULT_CONTROL = Control(vendor_specific=0, naca=0)
 
 
@@ -19,3 +22,8 @@ class ControlBuffer(Buffer):
     vendor_specific = be_int_field(where=bytes_ref[0].bits[6:8])
 
 DEFAULT_CONTROL_BUFFER = ControlBuffer(vendor_specific=0, naca=0)
+
+
+def default_control_buffer(command=None):
+    """ makes a control for one command; it can be changed without affecting other commands """
+    return ControlBuffer(vendor_specific=0, naca=0)
diff --git a/src/infi/asi/cdb/diagnostic/__init__.py b/src/infi/asi/cdb/diagnostic/__init__.py
index c9f59ec..56d45c7 100644
--- a/src/infi/asi/cdb/diagnostic/__init__.py
+++ b/src/infi/asi/cdb/diagnostic/__init__.py
@@ -1,6 +1,6 @@
 from .. import CDBBuffer
 from ... import SCSIReadCommand
-from ..control import DEFAULT_CONTROL_BUFFER, ControlBuffer
+from ..control import default_control_buffer, ControlBuffer
 from infi.instruct.buffer import bytes_ref, be_int_field, buffer_field, be_uint_field
 from ..operation_code import CDB_RECEIVE_DIAGNOSTIC_RESULTS
 
@@ -11,7 +11,7 @@ class ReceiveDiagnosticResultCommand(CDBBuffer):
     pcv = be_int_field(where=bytes_ref[1].bits[0])
     page_code = be_uint_field(where=bytes_ref[2])
     allocation_length = be_int_field(where=bytes_ref[3:5], sign='unsigned')
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], set_before_pack=default_control_buffer)
 
     def __init__(self, result_class, conf_page, *args, **kwargs):
         super(ReceiveDiagnosticResultCommand, self).__init__(*args, **kwargs)
diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index bfe5cab..bea2425 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -1,6 +1,6 @@
 from infi.asi.cdb import CDBBuffer
 from infi.asi import SCSIReadCommand
-from infi.asi.cdb.control import ControlBuffer, DEFAULT_CONTROL_BUFFER
+from infi.asi.cdb.control import ControlBuffer, default_control_buffer
 from infi.instruct.buffer import *
 from infi.instruct.buffer.macros import *
 
@@ -13,7 +13,7 @@ class LogSenseCommand(CDBBuffer):
     subpage_code = be_uint_field(where=bytes_ref[3])
     parameter_pointer = be_uint_field(where=bytes_ref[5:7])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=default_control_buffer)
 
     def __init__(self, page_code, subpage_code=0, allocation_length=396):
         super(LogSenseCommand, self).__init__()
diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index c7bd426..fe70863 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -1,7 +1,7 @@
 from .transport import TransportId
 from infi.asi.cdb import CDBBuffer
 from infi.asi import SCSIReadCommand
-from infi.asi.cdb.control import DEFAULT_CONTROL_BUFFER, ControlBuffer
+from infi.asi.cdb.control import default_control_buffer, ControlBuffer
 from infi.instruct.buffer import *
 # TODO relaative imports
 
@@ -128,7 +128,7 @@ class PersistentReserveInCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=CDB_OPCODE_PERSISTENT_RESERVE_IN)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=default_control_buffer)
 
     def __init__(self, service_action, allocation_length=520, **kwargs):
         super(PersistentReserveInCommand, self).__init__(
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index e7e030c..ce50ac8 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -1,7 +1,7 @@
 from .transport import TransportId
 from infi.asi import SCSIWriteCommand
 from infi.asi.cdb import CDBBuffer
-from infi.asi.cdb.control import DEFAULT_CONTROL_BUFFER, ControlBuffer
+from infi.asi.cdb.control import default_control_buffer, ControlBuffer
 from infi.instruct.buffer import *
 from infi.instruct.buffer.macros import *
 
@@ -80,7 +80,7 @@ class PersistentReserveOutCommand(CDBBuffer):
     pr_type = be_uint_field(where=bytes_ref[2].bits[0:4])
     scope = be_uint_field(where=bytes_ref[3].bits[4:8], set_before_pack=0)
     parameter_list_length = be_uint_field(where=bytes_ref[5:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=default_control_buffer)
 
     def __init__(self, service_action, reservation_key=0, service_action_reservation_key=0,
                  pr_type=PERSISTENT_RESERVE_OUT_TYPES.WRITE_EXCLUSIVE, **kwargs):
diff --git a/src/infi/asi/cdb/release.py b/src/infi/asi/cdb/release.py
index 9cd6bc2..86b5a86 100644
--- a/src/infi/asi/cdb/release.py
+++ b/src/infi/asi/cdb/release.py
@@ -1,5 +1,5 @@
 from infi.asi import SCSIWriteCommand
-from infi.asi.cdb.control import DEFAULT_CONTROL_BUFFER, ControlBuffer
+from infi.asi.cdb.control import default_control_buffer, ControlBuffer
 from infi.asi.cdb import CDBBuffer
 from infi.instruct.buffer import *
 from infi.instruct.buffer.macros import *
@@ -17,7 +17,11 @@ class Release6Command(CDBBuffer):
     obsolete_2 = be_uint_field(where=bytes_ref[2], default=0)
     reserved_3 = be_uint_field(where=bytes_ref[3], default=0)
     reserved_4 = be_uint_field(where=bytes_ref[4], default=0)
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], default=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[5])
+
+    def __init__(self, **kwargs):
+        kwargs.setdefault('control', default_control_buffer())
+        super(Release6Command, self).__init__(**kwargs)
 
     def execute(self, executer):
         command_datagram = self.create_datagram()
@@ -44,9 +48,10 @@ class Release10Command(CDBBuffer):
     third_party_device_id = be_uint_field(where=bytes_ref[3], default=0)
     reserved_3 = be_uint_field(where=bytes_ref[4:7], default=0)
     parameter_list_length = be_uint_field(where=bytes_ref[7:9], default=0)
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9])
 
     def __init__(self, third_party_device_id=0, **kwargs):
+        kwargs.setdefault('control', default_control_buffer())
         super(Release10Command, self).__init__(**kwargs)
         self.third_party = 0
         self.parameter_list_datagram = None
diff --git a/src/infi/asi/cdb/reserve.py b/src/infi/asi/cdb/reserve.py
index 1515d0a..3cef520 100644
--- a/src/infi/asi/cdb/reserve.py
+++ b/src/infi/asi/cdb/reserve.py
@@ -1,4 +1,4 @@
-from .control import DEFAULT_CONTROL_BUFFER, ControlBuffer
+from .control import default_control_buffer, ControlBuffer
 from . import CDBBuffer
 from infi.asi import SCSIWriteCommand
 from infi.instruct.buffer import *
@@ -17,7 +17,11 @@ class Reserve6Command(CDBBuffer):
     reserved_1 = be_uint_field(where=bytes_ref[1].bits[5:8], default=0)
     obsolete_2 = be_uint_field(where=bytes_ref[2], default=0)
     obsolete_3 = be_uint_field(where=bytes_ref[3:5], default=0)
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], default=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[5])
+
+    def __init__(self, **kwargs):
+        kwargs.setdefault('control', default_control_buffer())
+        super(Reserve6Command, self).__init__(**kwargs)
 
     def execute(self, executer):
         command_datagram = self.create_datagram()
@@ -46,9 +50,10 @@ class Reserve10Command(CDBBuffer):
     third_party_device_id = be_uint_field(where=bytes_ref[3], default=0)
     reserved_3 = be_uint_field(where=bytes_ref[4:7], default=0)
     parameter_list_length = be_uint_field(where=bytes_ref[7:9], default=0)
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9])
 
     def __init__(self, third_party_device_id=0, **kwargs):
+        kwargs.setdefault('control', default_control_buffer())
         super(Reserve10Command, self).__init__(**kwargs)
         self.third_party = 0
         self.parameter_list_datagram = None
-- 
2.43.0


From 76133c6dd1519ae75edeb0c5d2a2650b4decfcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:23 +0000
Subject: [PATCH 41/44] fix: SG_IO ioctl executers with a queue of more than
 one command gave a command the outcome of another one, or none

---
 src/infi/asi/linux.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index a248344..18181a8 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -281,15 +281,16 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size, timeout)
         self.io = io
         self.timeout = timeout
+        self.buffers = []   # of the commands that were sent, oldest first
 
     def _os_send(self, os_data):
         from fcntl import ioctl
         # the ioctl reports the outcome by updating the header, so it must be given a mutable buffer
         header = create_string_buffer(os_data.to_raw(), SGIO.sizeof())
         gevent_friendly(ioctl)(self.io.fd, SG_IO, header)
-        self.buffer = header.raw
-        yield len(self.buffer)
+        self.buffers.append(header.raw)
+        yield SGIO.sizeof()
 
     def _os_receive(self):
-        raw = yield self.buffer
+        raw = yield self.buffers.pop(0)
         yield self._handle_raw_response(raw)
-- 
2.43.0


From 8264a47619706fa88c819be9329535325beec11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:23 +0000
Subject: [PATCH 42/44] fix: Solaris executers with a queue of more than one
 command gave a command the outcome of another one, or none

---
 src/infi/asi/solaris.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 79ed4f0..ece1ea0 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -155,6 +155,7 @@ class SCSICMD(Structure):
         memset(buf, 0, sizeof(SCSICMD))
         scsicmd = SCSICMD.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.pack_id = pack_id
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
         scsicmd.uscsi_timeout = timeout
@@ -189,25 +190,25 @@ class SolarisCommandExecuter(CommandExecuterBase):
         super(SolarisCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.buffers = []   # of the commands that were sent, oldest first, and their packet IDs
 
     def _os_prepare_to_send(self, command, packet_index):
         return SCSICMD.create(packet_index, command, self.timeout)
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
+        buf = os_data.to_raw()
         # IMPORTANT: we must pass a ctypes string for the ioctl, and not just a
         # string, otherwise the ioctl won't be able to modify relevant status
         # values in the buffer (e.g. uscsi_status):
-        buffer_ctypes_string = create_string_buffer(self.buffer)
+        buffer_ctypes_string = create_string_buffer(buf)
         gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
-        self.buffer = buffer_ctypes_string.raw
-        yield len(self.buffer)
+        self.buffers.append((buffer_ctypes_string.raw, os_data.pack_id))
+        yield len(buffer_ctypes_string.raw)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id):
         response_cmd = SCSICMD.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
         response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
@@ -232,5 +233,5 @@ class SolarisCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = yield self.buffers.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
-- 
2.43.0


From 44086d0772d8588a5411d81e54b32fb70cefd051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:23 +0000
Subject: [PATCH 43/44] fix: AIX executers with a queue of more than one
 command gave a command the outcome of another one, or none

---
 src/infi/asi/aix.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index ab2ffec..037ed37 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -312,6 +312,7 @@ class sc_passthru(Structure):
         memset(buf, 0, sizeof(sc_passthru))
         scsicmd = sc_passthru.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.pack_id = pack_id
         scsicmd.version = SCSI_VERSION_2
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
@@ -365,6 +366,7 @@ class AixCommandExecuter(CommandExecuterBase):
         super(AixCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.buffers = []   # of the commands that were sent, oldest first, and their packet IDs
 
     def _os_prepare_to_send(self, command, packet_index):
         return sc_passthru.create(packet_index, self.io, command, self.timeout)
@@ -381,13 +383,13 @@ class AixCommandExecuter(CommandExecuterBase):
             elif os_data.status_validity == 0:
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
-        self.buffer = os_data.to_raw()
-        yield len(self.buffer)
+        buf = os_data.to_raw()
+        self.buffers.append((buf, os_data.pack_id))
+        yield len(buf)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id):
         response_cmd = sc_passthru.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
 
         if response_cmd.status_validity != 0:
@@ -408,5 +410,5 @@ class AixCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = yield self.buffers.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
-- 
2.43.0


From 05d50135128547e7696d6225ca97da5de46e5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:18 +0000
Subject: [PATCH 44/44] fix: on Windows the event of every overlapped request
 stayed open

---
 src/infi/asi/win32.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 045cfee..d9e02a9 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -38,6 +38,7 @@ DWORD WINAPI GetLastError(void);
 """
 GetLastError = kernel32.GetLastError
 
+ERROR_IO_INCOMPLETE = 996
 ERROR_IO_PENDING = 997
 
 """
@@ -141,15 +142,25 @@ class WinAsyncIOToken(OSAsyncIOToken):
     def __init__(self, file_handle, overlapped_struct, event_handle):
         self.handle = file_handle
         self.event = event_handle
+        self.event_closed = False
         self.overlapped = overlapped_struct
 
     def get_result(self, block=False):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
         if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
-            raise AsiWin32OSError(GetLastError(), "GetOverlappedResult failed")
+            last_error = GetLastError()
+            if last_error != ERROR_IO_INCOMPLETE:
+                self._close_event()
+            raise AsiWin32OSError(last_error, "GetOverlappedResult failed")
+        self._close_event()
         return result
 
+    def _close_event(self):
+        if not self.event_closed:
+            self.event_closed = True
+            CloseHandle(c_void_p(self.event))
+
 class Win32AsyncFile(OSAsyncFile, Win32File):
     def __init__(self, path, access=IOCTL_ACCESS, share=IOCTL_SHARE,
                  creation_disposition=IOCTL_CREATION, flags=0):
@@ -169,6 +180,7 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
         else:
+            CloseHandle(c_void_p(self._windows_event_handle))
             raise AsiWin32OSError(last_error, "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
 def WaitForMultipleObjects(events):
-- 
2.43.0

