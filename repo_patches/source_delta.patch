From 3dd0e39605100b35c4a4fd8d4c3cc9ff2add195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 01/49] fix: raise AsiRequestQueueFullError (was an undefined
 name) when the queue is full

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 452c196..069333c 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -3,7 +3,7 @@ __import__("pkg_resources").declare_namespace(__name__)
 import os
 from infi.instruct import *
 from infi.pyutils.decorators import wraps
-from .errors import AsiException, AsiCheckConditionError, AsiInternalError
+from .errors import AsiException, AsiCheckConditionError, AsiInternalError, AsiRequestQueueFullError
 from .sense import *
 
 try:
-- 
2.43.0


From 19bef70d06aa8b81bce360c2d557e8b9c328434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 02/49] fix: never reuse the id of a command that is still
 outstanding

---
 src/infi/asi/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 069333c..dffe739 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -116,6 +116,8 @@ class CommandExecuterBase(CommandExecuter):
     def _next_packet_index(self):
         if len(self.pending_packets) >= self.max_queue_size:
             raise AsiRequestQueueFullError()
+        while self.packet_index in self.pending_packets:
+            self.packet_index = (self.packet_index + 1) % self.max_queue_size
         result = self.packet_index
         self.packet_index = (self.packet_index + 1) % self.max_queue_size
         return result
-- 
2.43.0


From 5e976bf094e55387690dde10e08d1554d64e5a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 03/49] fix: send() without a callback must not break the
 completion path

---
 src/infi/asi/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index dffe739..d49db3f 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -132,7 +132,9 @@ class CommandExecuterBase(CommandExecuter):
         if request is None:
             raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
 
-        if isinstance(result, Exception):
+        if callback is None:
+            pass
+        elif isinstance(result, Exception):
             callback(None, result)
         else:
             callback(result, None)
-- 
2.43.0


From bdefd8ee910a218c2668d5bd2b818feeccc1d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 04/49] fix: do not receive when there is nothing outstanding

---
 src/infi/asi/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index d49db3f..c338b5b 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -125,6 +125,7 @@ class CommandExecuterBase(CommandExecuter):
     def _process_pending_response(self):
         if self.is_queue_empty():
             yield False
+            return
 
         result, packet_id = yield self._os_receive()
 
-- 
2.43.0


From e6c22427b4ae2cdf1f46ae47bc764af85c302a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 05/49] fix: a response with an unknown id must surface as
 AsiInternalError

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index bb5b4f0..bf80072 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -264,7 +264,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
             return (error, packet_id)
 
         data = None
-        if request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
+        if request_sgio is not None and request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
             data = request_sgio.data_buffer.raw
 
         return (data, packet_id)
-- 
2.43.0


From f1a286a0ae76fd578366e7c67ffffdcbdc2f27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 06/49] fix: undecodable sense data must not lose the check
 condition

---
 src/infi/asi/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index c338b5b..8ba33d3 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -2,6 +2,7 @@ __import__("pkg_resources").declare_namespace(__name__)
 
 import os
 from infi.instruct import *
+from infi.instruct.errors import InstructError
 from infi.pyutils.decorators import wraps
 from .errors import AsiException, AsiCheckConditionError, AsiInternalError, AsiRequestQueueFullError
 from .sense import *
@@ -158,7 +159,10 @@ class CommandExecuterBase(CommandExecuter):
         raise NotImplementedError()
 
     def _check_condition(self, buf):
-        sense = get_sense_object_from_buffer(buf)
+        try:
+            sense = get_sense_object_from_buffer(buf)
+        except InstructError:
+            sense = None
         return AsiCheckConditionError(buf, sense)
 
 # TODO: maybe add a ReactorCommandExecuter that also adds a "register_response_listener()" that automatically reads
-- 
2.43.0


From 231934659c0943f757c19705ad8a90e0b70711bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 07/49] fix: linux: reservation conflict is a SCSI status, not
 a host status

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index bf80072..5bd8510 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -240,7 +240,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         if response_sgio.status != 0:
             if response_sgio.host_status == 0x07:
                 return (AsiRequestQueueFullError(), packet_id)
-            if response_sgio.host_status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
+            if response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                 return (AsiReservationConflictError(), packet_id)
             error = AsiSCSIError(("SCSI response status is not zero: %s" +
                                   "(driver status: %s, host status: %s)") %
-- 
2.43.0


From 644386407d0af81583d617d33f0a7c9614336acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 08/49] fix: linux ioctl: pass a mutable buffer so the kernel's
 status is read back

---
 src/infi/asi/linux.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 5bd8510..ea5e4df 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -285,7 +285,9 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
     def _os_send(self, os_data):
         from fcntl import ioctl
         self.buffer = os_data.to_raw()
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
+        buffer_ctypes_string = create_string_buffer(self.buffer, len(self.buffer))
+        gevent_friendly(ioctl)(self.io.fd, SG_IO, buffer_ctypes_string)
+        self.buffer = buffer_ctypes_string.raw
         yield len(self.buffer)
 
     def _os_receive(self):
-- 
2.43.0


From cc58c75ae4cce567bacb23ccd41acfbcd329a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 09/49] fix: linux ioctl, solaris, aix: keep every completed
 command until it is received

---
 src/infi/asi/aix.py     | 12 +++++++-----
 src/infi/asi/linux.py   |  4 +++-
 src/infi/asi/solaris.py | 12 +++++++-----
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index e0d105b..90b2797 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -312,6 +312,7 @@ class sc_passthru(Structure):
         memset(buf, 0, sizeof(sc_passthru))
         scsicmd = sc_passthru.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.version = SCSI_VERSION_2
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
@@ -363,6 +364,7 @@ def get_ioctl_function():
 class AixCommandExecuter(CommandExecuterBase):
     def __init__(self, io, max_queue_size=1, timeout=DEFAULT_TIMEOUT_IN_SEC):
         super(AixCommandExecuter, self).__init__(max_queue_size)
+        self.completed = []
         self.io = io
         self.timeout = timeout
 
@@ -381,12 +383,12 @@ class AixCommandExecuter(CommandExecuterBase):
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
         self.buffer = os_data.to_raw()
+        self.completed.append((self.buffer, os_data.packet_id))
         yield len(self.buffer)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id=0):
         response_cmd = sc_passthru.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
 
         if response_cmd.status_validity != 0:
@@ -401,11 +403,11 @@ class AixCommandExecuter(CommandExecuterBase):
                 return (AixAsiSCSIError("SCSI response status validity unknown", response_cmd), packet_id)
 
         data = None
-        if request_cmd.flags & B_READ and request_cmd.data_length != 0:
+        if request_cmd is not None and request_cmd.flags & B_READ and request_cmd.data_length != 0:
             data = request_cmd.data_buffer.raw
 
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = yield self.completed.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index ea5e4df..d2d4a4c 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -279,6 +279,7 @@ SG_IO = 0x2285
 class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
     def __init__(self, io, max_queue_size=1, timeout=DEFAULT_TIMEOUT):
         super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size, timeout)
+        self.completed = []
         self.io = io
         self.timeout = timeout
 
@@ -288,8 +289,9 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         buffer_ctypes_string = create_string_buffer(self.buffer, len(self.buffer))
         gevent_friendly(ioctl)(self.io.fd, SG_IO, buffer_ctypes_string)
         self.buffer = buffer_ctypes_string.raw
+        self.completed.append(self.buffer)
         yield len(self.buffer)
 
     def _os_receive(self):
-        raw = yield self.buffer
+        raw = yield self.completed.pop(0)
         yield self._handle_raw_response(raw)
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index b24f09d..b36a4cb 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -155,6 +155,7 @@ class SCSICMD(Structure):
         memset(buf, 0, sizeof(SCSICMD))
         scsicmd = SCSICMD.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
         scsicmd.uscsi_timeout = timeout
@@ -187,6 +188,7 @@ class SCSICMD(Structure):
 class SolarisCommandExecuter(CommandExecuterBase):
     def __init__(self, io, max_queue_size=1, timeout=DEFAULT_TIMEOUT_IN_SEC):
         super(SolarisCommandExecuter, self).__init__(max_queue_size)
+        self.completed = []
         self.io = io
         self.timeout = timeout
 
@@ -202,12 +204,12 @@ class SolarisCommandExecuter(CommandExecuterBase):
         buffer_ctypes_string = create_string_buffer(self.buffer)
         gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
         self.buffer = buffer_ctypes_string.raw
+        self.completed.append((self.buffer, os_data.packet_id))
         yield len(self.buffer)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id=0):
         response_cmd = SCSICMD.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
         response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
@@ -226,11 +228,11 @@ class SolarisCommandExecuter(CommandExecuterBase):
                                 (response_cmd.uscsi_rqstatus)), packet_id)
 
         data = None
-        if request_cmd.uscsi_flags & USCSI_READ and request_cmd.uscsi_buflen != 0:
+        if request_cmd is not None and request_cmd.uscsi_flags & USCSI_READ and request_cmd.uscsi_buflen != 0:
             data = request_cmd.data_buffer.raw
 
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = yield self.completed.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
-- 
2.43.0


From aa22101e05b2ea26fc020e684f3339b65c53366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 10/49] fix: solaris: uscsi_reason is the high byte of the
 status pair

---
 src/infi/asi/solaris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index b36a4cb..4fbb02e 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -212,7 +212,7 @@ class SolarisCommandExecuter(CommandExecuterBase):
 
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
-        response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
+        response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
 
         if response_status_code & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']:
             logger.debug("response_cmd.status = 0x{:x}".format(response_cmd.uscsi_status))
-- 
2.43.0


From ce1a67a13269fd92610e530b8fda5aff40cde34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 11/49] fix: aix: a failing ioctl called through ctypes must
 raise

---
 src/infi/asi/aix.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 90b2797..0276068 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -4,6 +4,7 @@ from .linux import prettify_status, SENSE_SIZE
 from .errors import AsiSCSIError, AsiOSError
 from ctypes import *
 from logging import getLogger
+import os
 import six
 
 logger = getLogger(__name__)
@@ -342,6 +343,13 @@ class sc_passthru(Structure):
     def sizeof(cls):
         return sizeof(cls)
 
+def _raise_on_ioctl_failure(result, func, args):
+    # unlike fcntl.ioctl, a ctypes function just returns -1
+    if result == -1:
+        errno = get_errno()
+        raise IOError(errno, os.strerror(errno))
+    return result
+
 def get_ioctl_function():
     # fcntl.ioctl doesn't support arguments above 32-bit, but we pass
     # a pointer to ioctl which, in 64-bit mode, may be a 64-bit value -
@@ -350,7 +358,7 @@ def get_ioctl_function():
     try:
         # this will only work on 64-bit Python and only
         # on Python >= 3.7 (bpo-26439)
-        libc = ctypes.CDLL("libc.a(shr_64.o)")
+        libc = ctypes.CDLL("libc.a(shr_64.o)", use_errno=True)
     except OSError:  # Could not load module
         # use fcntl
         import fcntl
@@ -359,6 +367,7 @@ def get_ioctl_function():
         ioctl = libc.ioctl
         ioctl.restype = ctypes.c_int
         ioctl.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_void_p)
+        ioctl.errcheck = _raise_on_ioctl_failure
         return ioctl
 
 class AixCommandExecuter(CommandExecuterBase):
-- 
2.43.0


From 0ccde99b774ec2e96c03e4449233ee42d0b330bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 12/49] fix: win32: a failed overlapped operation must raise

---
 src/infi/asi/win32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 2b3ce44..16b7b32 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -146,7 +146,8 @@ class WinAsyncIOToken(OSAsyncIOToken):
     def get_result(self, block=False):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
-        err = kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block)
+        if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
+            raise AsiWin32OSError(GetLastError(), "GetOverlappedResult failed")
         return result
 
 class Win32AsyncFile(OSAsyncFile, Win32File):
-- 
2.43.0


From 901580976c1295072bc8f247bd8144c2868b5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 13/49] fix: win32: an overlapped ioctl that completes
 immediately is not a failure

---
 src/infi/asi/win32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 16b7b32..b8a6dd0 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -168,7 +168,7 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         if not api_result and last_error == ERROR_IO_PENDING:
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
-        else:
+        elif not api_result:
             raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
 def WaitForMultipleObjects(events):
-- 
2.43.0


From ee1f242106502528007b33b73f5a2381cf686c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 14/49] fix: an exception handled by a caller coroutine must
 not be thrown again

---
 src/infi/asi/coroutines/sync_adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 689b105..d821779 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -19,7 +19,8 @@ class Coroutine(object):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
             if isinstance(self.args, BaseException):
-                self.result = self.stack[-1].throw(self.args, None, self.tb)
+                exception, self.args = self.args, None
+                self.result = self.stack[-1].throw(exception, None, self.tb)
             else:
                 self.result = self.stack[-1].send(self.args)
             self.args = None
-- 
2.43.0


From c82d916d76615ce23e94d047642e89eb6efcbd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 15/49] fix: sync_call must call the function once

---
 src/infi/asi/coroutines/sync_adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index d821779..7488d48 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -69,7 +69,6 @@ class SyncCoroutine(Coroutine):
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-    stack = [ func(*init_args, **init_kwargs) ]
     return sync_wait(func(*init_args, **init_kwargs))
 
 def sync_wait(generator):
-- 
2.43.0


From b282e4e90b2aa386e346734e2328585c91cdb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 16/49] fix: close the device when creating its executer fails

---
 src/infi/asi/executers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/executers.py b/src/infi/asi/executers.py
index 00179b9..072bf29 100644
--- a/src/infi/asi/executers.py
+++ b/src/infi/asi/executers.py
@@ -10,8 +10,8 @@ SG_TIMEOUT_IN_MS = SG_TIMEOUT_IN_SEC * MS
 @contextmanager
 def windows(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
+        executer = create_platform_command_executer(handle)
         yield executer
     finally:
         handle.close()
@@ -22,8 +22,8 @@ def linux_dm(device):
     from infi.asi.linux import LinuxIoctlCommandExecuter
 
     handle = create_os_file(device)
-    executer = LinuxIoctlCommandExecuter(handle)
     try:
+        executer = LinuxIoctlCommandExecuter(handle)
         yield executer
     finally:
         handle.close()
@@ -32,8 +32,8 @@ def linux_dm(device):
 @contextmanager
 def linux_sg(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle, timeout=SG_TIMEOUT_IN_MS)
     try:
+        executer = create_platform_command_executer(handle, timeout=SG_TIMEOUT_IN_MS)
         yield executer
     finally:
         handle.close()
@@ -42,8 +42,8 @@ def linux_sg(device):
 @contextmanager
 def solaris(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
+        executer = create_platform_command_executer(handle)
         yield executer
     finally:
         handle.close()
@@ -52,8 +52,8 @@ def solaris(device):
 @contextmanager
 def aix(device):
     handle = create_os_file(device)
-    executer = create_platform_command_executer(handle)
     try:
+        executer = create_platform_command_executer(handle)
         yield executer
     finally:
         handle.close()
-- 
2.43.0


From e1520ef84e8a16f620c0891038eb8180acc44857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 17/49] fix: the executer adapter must not run is_queue_full as
 a coroutine

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 8ba33d3..4bf9324 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -181,7 +181,7 @@ class CommandExecuterAdapter(CommandExecuter):
         return self.call_wrapper(self.executer.send, command, callback)
 
     def is_queue_full(self):
-        return self.call_wrapper(self.executer.is_queue_full)
+        return self.executer.is_queue_full()
 
     def wait(self):
         return self.call_wrapper(self.executer.wait)
-- 
2.43.0


From 4216bd53a0a2fe30c8f75780c19760478ff4901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 18/49] fix: PR IN read full status: required_allocation_length
 used an undefined name

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 9fe81e7..0ca00d8 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -117,7 +117,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
         unpack_if=additional_length > 0)
 
     def required_allocation_length(self):
-        return additional_length + 8
+        return self.additional_length + 8
 
 
 class PersistentReserveInCommand(CDBBuffer):
-- 
2.43.0


From 596f61594a791e673ad75bbb1d4625012e3de64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 19/49] fix: PR IN read reservation: type and scope live in
 byte 21

---
 src/infi/asi/cdb/persist/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 0ca00d8..36d3e6c 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -47,8 +47,8 @@ class PersistentReserveInReadReservationResponse(CDBBuffer):
     reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=input_buffer_length >= 16)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=input_buffer_length >= 20)
     reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=input_buffer_length >= 21)
-    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 21)
-    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 21)
+    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 22)
+    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 22)
     obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=input_buffer_length >= 24)
 
     def required_allocation_length(self):
-- 
2.43.0


From 1e088e42ec32eedefaa23a62f4d094be1b2fb9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 20/49] fix: PR OUT: activate_persist_through_power_loss was
 always cleared

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index a86a2fa..c41d16c 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -42,7 +42,7 @@ class PersistentReserveOutCommandBasicParameterList(CDBBuffer):
     """
     reservation_key = be_uint_field(where=bytes_ref[0:8])
     service_action_reservation_key = be_uint_field(where=bytes_ref[8:16])
-    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], set_before_pack=0, default=0)
+    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], default=0)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], set_before_pack=0, default=0)
     all_target_ports = be_uint_field(where=bytes_ref[20].bits[2], default=0)
     specify_initiator_ports = be_uint_field(where=bytes_ref[20].bits[3], default=0)  
-- 
2.43.0


From 3c38cc830312f2365deb7ba4e9551022a3149ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 21/49] fix: PR OUT: the scope field is in byte 2

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index c41d16c..52b6e70 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -78,7 +78,7 @@ class PersistentReserveOutCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=CDB_OPCODE_PERSISTENT_RESERVE_OUT)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5])
     pr_type = be_uint_field(where=bytes_ref[2].bits[0:4])
-    scope = be_uint_field(where=bytes_ref[3].bits[4:8], set_before_pack=0)
+    scope = be_uint_field(where=bytes_ref[2].bits[4:8], set_before_pack=0)
     parameter_list_length = be_uint_field(where=bytes_ref[5:9])
     control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
 
-- 
2.43.0


From 4c09c5b88e9538d4f2368c8136b3e822f03f4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 22/49] fix: RTPG: extended response descriptors start at byte
 8

---
 src/infi/asi/cdb/rtpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 5aee687..9c25fb8 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -83,5 +83,5 @@ class TargetPortGroupLengthOnlyResponse(Buffer):
 class TargetPortGroupExtendedResponse(Buffer):
     data_length = be_int_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
-    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[7:7 + data_length])
+    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 558e30dfadb4614c850616c047e2c5e422491ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 23/49] fix: RTPG: counts, lengths and codes are unsigned

---
 src/infi/asi/cdb/rtpg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 9c25fb8..b643fd1 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -71,17 +71,17 @@ class TargetPortGroupDescriptor(Buffer):
     t_sup = be_int_field(where=bytes_ref[1].bits[7])
 
     target_port_group = be_uint_field(where=bytes_ref[2:4])
-    status_code = be_int_field(where=bytes_ref[5])
+    status_code = be_uint_field(where=bytes_ref[5])
 
-    target_port_count = be_int_field(where=bytes_ref[7])
+    target_port_count = be_uint_field(where=bytes_ref[7])
     target_port_list = list_field(type=TargetPortDescriptor, where=bytes_ref[8:], n=target_port_count)
 
 class TargetPortGroupLengthOnlyResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])
 
 class TargetPortGroupExtendedResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From fdc15351e4db0e577f66bea977f15878fb999dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 24/49] fix: UNMAP DATA LENGTH excludes only its own two bytes

---
 src/infi/asi/cdb/unmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/unmap.py b/src/infi/asi/cdb/unmap.py
index 7ca710f..5ea7b2e 100644
--- a/src/infi/asi/cdb/unmap.py
+++ b/src/infi/asi/cdb/unmap.py
@@ -49,7 +49,7 @@ class UnmapParameterListHeader(CDB):
 
     def __init__(self, data_length):
         super(UnmapParameterListHeader, self).__init__()
-        self.unmap_data_length=data_length+7
+        self.unmap_data_length=data_length+6
         self.unmap_block_descriptor_data_length=data_length
         self.datagram = self.create_datagram()
 
-- 
2.43.0


From 778dafd7d44b804582d4dbaae91557674d520ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 25/49] fix: WRITE SAME: validate the buffer against the
 caller's block size

---
 src/infi/asi/cdb/write_same.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/write_same.py b/src/infi/asi/cdb/write_same.py
index d3ada25..455dce7 100644
--- a/src/infi/asi/cdb/write_same.py
+++ b/src/infi/asi/cdb/write_same.py
@@ -33,7 +33,7 @@ class WriteSame10Command(CDB):
 
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame10Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
@@ -66,7 +66,7 @@ class WriteSame16Command(CDB):
                 ]
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame16Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
-- 
2.43.0


From c752c57ae35f00e6091346b0158fe12cc4cda269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 26/49] fix: READ(6) of 256 blocks must honour the block size

---
 src/infi/asi/cdb/read.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index e59524d..c3bb325 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -39,8 +39,7 @@ class Read6Command(CDB):
         datagram = self.create_datagram()
         read_length = self.block_size * self.transfer_length
         if read_length == 0: # This is only in READ 6
-            # read_length = 256 * self.block_size
-            read_length = 256 * 512
+            read_length = 256 * self.block_size
         result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))
         yield result_datagram
 
-- 
2.43.0


From 3c86c8317880441e7b1f5f124f4232bec635ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 27/49] fix: READ(6)/WRITE(6): reject a negative LBA instead of
 wrapping it

---
 src/infi/asi/cdb/read.py  | 2 +-
 src/infi/asi/cdb/write.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index c3bb325..dfd2b48 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -30,7 +30,7 @@ class Read6Command(CDB):
         self.logical_block_address = logical_block_address
         self.block_size = block_size
         self.transfer_length = transfer_length
-        assert self.logical_block_address < 2 ** 21
+        assert 0 <= self.logical_block_address < 2 ** 21
         assert self.transfer_length < 2 ** 8, "transfer_length should be in range [0,256), instead got: {}".format(self.transfer_length)
         self.logical_block_address__msb = self.logical_block_address >> 16
         self.logical_block_address__lsb = self.logical_block_address & 0xffff
diff --git a/src/infi/asi/cdb/write.py b/src/infi/asi/cdb/write.py
index abf3763..1b801c9 100644
--- a/src/infi/asi/cdb/write.py
+++ b/src/infi/asi/cdb/write.py
@@ -32,7 +32,7 @@ class Write6Command(CDB):
         self.buffer = buffer
         self.block_size = block_size
 
-        assert self.logical_block_address < 2 ** 21, "lba > 2**21"
+        assert 0 <= self.logical_block_address < 2 ** 21, "lba > 2**21"
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
 
         num_blocks = len(buffer) // block_size
-- 
2.43.0


From 8468af117cce01e381c907d20f4b0650618eaff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 28/49] fix: WRITE(12) accepts zero blocks like its message and
 siblings say

---
 src/infi/asi/cdb/write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/write.py b/src/infi/asi/cdb/write.py
index 1b801c9..f24c6e3 100644
--- a/src/infi/asi/cdb/write.py
+++ b/src/infi/asi/cdb/write.py
@@ -110,7 +110,7 @@ class Write12Command(CDB):
         self.transfer_length = len(buffer) // block_size
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         assert self.logical_block_address < 2 ** 32, "lba > 2**32"
-        assert 0 < self.transfer_length < 2 ** 32, "number_of_blocks should be in range [0, 2**32)"
+        assert 0 <= self.transfer_length < 2 ** 32, "number_of_blocks should be in range [0, 2**32)"
 
     def execute(self, executer):
         datagram = self.create_datagram()
-- 
2.43.0


From 85ae9b2b0c5a5162e234db3557252b3f9c1b53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 29/49] fix: veritas page exported names that do not exist

---
 src/infi/asi/cdb/inquiry/vpd_pages/veritas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/veritas.py b/src/infi/asi/cdb/inquiry/vpd_pages/veritas.py
index b219961..2623fee 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/veritas.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/veritas.py
@@ -24,4 +24,4 @@ class VeritasVPDPageCommand(EVPDInquiryCommand):
     def __init__(self):
         super(VeritasVPDPageCommand, self).__init__(0xc0, 252, VeritasVPDPageBuffer)
 
-__all__ = ["UnitSerialNumberVPDPageCommand", "UnitSerialNumberVPDPageData"]
+__all__ = ["VeritasVPDPageCommand", "VeritasVPDPageBuffer"]
-- 
2.43.0


From a4b168253466bcc2f2fe547596b89291a4715a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 30/49] fix: reserved designators: length refers to the real
 field and data is opaque bytes

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8e85618..0da8d8a 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -18,8 +18,8 @@ class DesignatorDescriptor(Buffer):
 # spc4r30, section 7.8.5.1, page 612
 # Designator types 09-0F are reserved
 class Reserved_Designator(DesignatorDescriptor):
-    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.designator))
-    desginator = str_field(where=bytes_ref[4:4+designator_length])
+    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.desginator))
+    desginator = bytearray_field(where=bytes_ref[4:4+designator_length])
 
 
 # spc4r30, section 7.8.5.5.2, page 617
-- 
2.43.0


From 0044ada61a669df0d1c60f17ecb65606db35c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 31/49] fix: T10 vendor id designator length includes the
 vendor identification

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 0da8d8a..86a2d0c 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -106,7 +106,7 @@ class VendorSpecificDesignator(DesignatorDescriptor):
 
 
 class T10VendorIDDesignator(DesignatorDescriptor):
-    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier))
+    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier) + 8)
     t10_vendor_identification = str_field(where=bytes_ref[4:12])
     vendor_specific_identifier = bytearray_field(where=bytes_ref[12:4+designator_length])
 
-- 
2.43.0


From 5747381e2e048de9705fa8bd03ec3bf2b2578c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 32/49] fix: EUI-64 and NAA identifiers of odd sizes are
 big-endian

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 86a2d0c..7d0d1fd 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -24,8 +24,8 @@ class Reserved_Designator(DesignatorDescriptor):
 
 # spc4r30, section 7.8.5.5.2, page 617
 class EUI64_Designator(DesignatorDescriptor):
-    ieee_company = be_uint_field(where=bytes_ref[4:7])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[7:12])
+    ieee_company = be_uint_field(where=bytes_ref[6, 5, 4])
+    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[11, 10, 9, 8, 7])
 
 
 # spc4r30, section 7.8.5.5.3, page 617
@@ -36,8 +36,8 @@ class EUI64_12Byte_Designator(EUI64_Designator):
 # spc4r30, section 7.8.5.5.4, page 618
 class EUI64_16Byte_Designator(DesignatorDescriptor):
     identifier_extension = be_uint_field(where=bytes_ref[4:12])
-    ieee_company = be_uint_field(where=bytes_ref[12:15])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[15:20])
+    ieee_company = be_uint_field(where=bytes_ref[14, 13, 12])
+    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[19, 18, 17, 16, 15])
 
 
 # spc4r30, section 7.8.5.6.1, page 618
@@ -48,8 +48,8 @@ class NAA_Descriptor(DesignatorDescriptor):
 # spc4r30, section 7.8.5.6.2, page 619
 class NAA_IEEE_Extended_Designator(NAA_Descriptor):
     vendor_specific_identifier_a = be_uint_field(where=(bytes_ref[5] + bytes_ref[4].bits[0:4]))
-    ieee_company = be_uint_field(where=bytes_ref[6:9])
-    vendor_specific_identifier_b = be_uint_field(where=bytes_ref[9:12])
+    ieee_company = be_uint_field(where=bytes_ref[8, 7, 6])
+    vendor_specific_identifier_b = be_uint_field(where=bytes_ref[11, 10, 9])
 
 
 # spc4r30, section 7.8.5.6.2, page 619
-- 
2.43.0


From 9102d2f3e2a96a9cb1498202d7a6a30b5fa6989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 33/49] fix: SES cooling element: fan speed is big-endian
 across bytes 1 and 2

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index eb8d7b1..a14869f 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -89,7 +89,7 @@ FAN_SPEED_CODE = {0: 'Cooling mechanism is stopped',
 class CoolingElementInfo(Buffer):
     byte_size = 3
     # for real fan speed the fan speed value should be multiplied by a factor of 10
-    fan_speed = be_int_field(where=(bytes_ref[0].bits[0:3] + bytes_ref[1]))
+    fan_speed = be_int_field(where=(bytes_ref[1] + bytes_ref[0].bits[0:3]))
     ident = be_int_field(where=bytes_ref[0].bits[7])
     speed_code = be_int_field(where=bytes_ref[2].bits[0:3])
     off = be_int_field(where=bytes_ref[2].bits[4])
-- 
2.43.0


From fe177c2021a168fe29f143cbb93c81320bdcafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 34/49] fix: SES enclosure element: the requested bits are in
 the third byte

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index a14869f..e54e57b 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -207,9 +207,9 @@ class EnclosureElementInfo(Buffer):
     warn_indication = be_int_field(where=bytes_ref[1].bits[0])
     failure_indication = be_int_field(where=bytes_ref[1].bits[1])
     time_until_power_cycle = be_int_field(where=bytes_ref[1].bits[2:8])
-    warn_requested = be_int_field(where=bytes_ref[1].bits[0])
-    failure_requested = be_int_field(where=bytes_ref[1].bits[1])
-    requested_power_off_duration = be_int_field(where=bytes_ref[1].bits[2:8])
+    warn_requested = be_int_field(where=bytes_ref[2].bits[0])
+    failure_requested = be_int_field(where=bytes_ref[2].bits[1])
+    requested_power_off_duration = be_int_field(where=bytes_ref[2].bits[2:8])
 
 
 # ses3r05: 7.3.17
-- 
2.43.0


From 00d2829dabf551bab8dba2b213d89d9854c7a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 35/49] fix: SES: lengths, counts, codes and addresses are
 unsigned

---
 .../cdb/diagnostic/ses_pages/configuration.py | 18 +++++++--------
 .../ses_pages/element_descriptor.py           | 10 ++++-----
 .../diagnostic/ses_pages/enclosure_status.py  | 22 +++++++++----------
 .../diagnostic/ses_pages/supported_pages.py   |  6 ++---
 .../cdb/diagnostic/ses_pages/vendor_0x80.py   |  6 ++---
 5 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index d7b7b3e..1928133 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -65,8 +65,8 @@ ELEMENT_TYPE_CODES = {ELEMENT_TYPE_UNSPECIFIED: 'Unspecified',
 class EnclosureDescriptor(Buffer):
     enclosure_services_processes_num = be_int_field(where=bytes_ref[0].bits[0:3])
     relative_enclosure_services_process_identifier = be_int_field(where=bytes_ref[0].bits[4:7])
-    subenclosure_identifier = be_int_field(where=bytes_ref[1])
-    type_descriptor_headers_num = be_int_field(where=bytes_ref[2])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[1])
+    type_descriptor_headers_num = be_uint_field(where=bytes_ref[2])
     enclosure_descriptor_length = be_uint_field(where=bytes_ref[3])
     enclosure_logical_identifier = bytearray_field(where=bytes_ref[4:12])
     enclosure_vendor_identification = str_field(where=bytes_ref[12:20])
@@ -78,9 +78,9 @@ class EnclosureDescriptor(Buffer):
 
 class TypeDescriptorHeader(Buffer):
     element_type = be_int_field(where=bytes_ref[0], sign='unsigned')
-    possible_elements_num = be_int_field(where=bytes_ref[1])
-    subenclosure_identifier = be_int_field(where=bytes_ref[2])
-    type_descriptor_text_length = be_int_field(where=bytes_ref[3])
+    possible_elements_num = be_uint_field(where=bytes_ref[1])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[2])
+    type_descriptor_text_length = be_uint_field(where=bytes_ref[3])
 
 
 class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
@@ -91,10 +91,10 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
         l = self.type_descriptor_header_list[index].type_descriptor_text_length
         return buffer[0:l].to_bytes(), l
 
-    page_code = be_int_field(where=bytes_ref[0])
-    secondary_subenclosures_num = be_int_field(where=bytes_ref[1])
-    page_length = be_int_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    secondary_subenclosures_num = be_uint_field(where=bytes_ref[1])
+    page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     enclosure_descriptor_list = list_field(type=EnclosureDescriptor,
                                            where=bytes_ref[8:],
                                            n=secondary_subenclosures_num + 1)
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
index 816ae12..85f63cc 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
@@ -1,9 +1,9 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
+from infi.instruct.buffer import Buffer, bytes_ref, be_uint_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Descriptor(Buffer):
-    descriptor_length = be_int_field(where=bytes_ref[2:4])
+    descriptor_length = be_uint_field(where=bytes_ref[2:4])
     descriptor = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:descriptor_length + 4])
 
 
@@ -30,9 +30,9 @@ class ElementDescriptorDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     element_descriptors = list_field(where=bytes_ref[8:], type=ElementDescriptor,
                                      unpack_selector=_unpack_status_descriptor,
                                      n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index e54e57b..480df88 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -1,16 +1,16 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, int8, member_func_ref
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, uint8, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class GeneralElementInfo(Buffer):
     byte_size = 3
-    general = list_field(type=int8, where=bytes_ref[0:])
+    general = list_field(type=uint8, where=bytes_ref[0:])
 
 
 # ses3r05: 7.3.2
 class DeviceSlotElementInfo(Buffer):
     byte_size = 3
-    slot_address = be_int_field(where=bytes_ref[0])
+    slot_address = be_uint_field(where=bytes_ref[0])
     report = be_int_field(where=bytes_ref[1].bits[0])
     ident = be_int_field(where=bytes_ref[1].bits[1])
     rmv = be_int_field(where=bytes_ref[1].bits[2])
@@ -103,7 +103,7 @@ class TempSensorElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    temperature = be_int_field(where=bytes_ref[1])
+    temperature = be_uint_field(where=bytes_ref[1])
     ut_warn = be_int_field(where=bytes_ref[2].bits[0])
     ut_fail = be_int_field(where=bytes_ref[2].bits[1])
     ot_warn = be_int_field(where=bytes_ref[2].bits[2])
@@ -190,7 +190,7 @@ class DisplayElementInfo(Buffer):
     display_mode_status = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    display_char_status = be_int_field(where=bytes_ref[1:])
+    display_char_status = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.15
@@ -227,7 +227,7 @@ class ScsiPortTransceiverElementInfo(Buffer):
 class LanguageElementInfo(Buffer):
     byte_size = 3
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    language_code = be_int_field(where=bytes_ref[1:])
+    language_code = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.19
@@ -283,7 +283,7 @@ class SimpleSubenclosureElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    short_enclosure_status = be_int_field(where=bytes_ref[2])
+    short_enclosure_status = be_uint_field(where=bytes_ref[2])
 
 
 # ses3r05: 7.3.25
@@ -298,7 +298,7 @@ class SasConnectorElementInfo(Buffer):
     byte_size = 3
     connector_type = be_int_field(where=bytes_ref[0].bits[0:7])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    connector_phys_link = be_int_field(where=bytes_ref[1])
+    connector_phys_link = be_uint_field(where=bytes_ref[1])
     fail = be_int_field(where=bytes_ref[2].bits[6])
 
 
@@ -488,14 +488,14 @@ class EnclosureStatusDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
+    page_code = be_uint_field(where=bytes_ref[0])
     unrecov = be_int_field(where=bytes_ref[1].bits[0])
     crit = be_int_field(where=bytes_ref[1].bits[1])
     non_crit = be_int_field(where=bytes_ref[1].bits[2])
     info = be_int_field(where=bytes_ref[1].bits[3])
     invop = be_int_field(where=bytes_ref[1].bits[4])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     status_descriptors = list_field(where=bytes_ref[8:], type=StatusDescriptor,
                                     unpack_selector=_unpack_status_descriptor,
                                     n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index bffbb72..489171b 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,11 +1,11 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     supported_pages = list_field(type=uint8, where=bytes_ref[4:])
 
 
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index eeed147..c08fe87 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
 
 
-- 
2.43.0


From e4051991bc4643b9ec6afaebfac949f670e96fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 36/49] fix: SES vendor page 80h list ends where PAGE LENGTH
 says

---
 src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index c08fe87..92b6229 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -5,7 +5,7 @@ from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
     page_code = be_uint_field(where=bytes_ref[0:1])
     page_length = be_uint_field(where=bytes_ref[2:4])
-    vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
+    vendor_specific = list_field(type=uint8, where=bytes_ref[4:4 + page_length])
 
 
 class Vendor0x80DiagnosticPagesCommand(PCVReceiveDiagnosticResultCommand):
-- 
2.43.0


From eeee1eea5aed777bab33ab396b78f556479f89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 37/49] fix: unknown SES pages must be decodable by their own
 command

---
 src/infi/asi/cdb/diagnostic/ses_pages/unknown.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
index f9d0049..e81d683 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field
-from . import PCVReceiveDiagnosticResultCommand
+from infi.instruct.buffer import bytes_ref, be_uint_field, bytearray_field
+from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
-class UnknownDiagnosticPageData(Buffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_data = be_int_field(where=bytes_ref[1:])
+class UnknownDiagnosticPageData(DiagnosticDataBuffer):
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_data = bytearray_field(where=bytes_ref[1:])
 
 
 def UnknownDiagnosticPageCommand(page_code):
-- 
2.43.0


From 772953baeddc17a1c87c2f0cefc18618b89746a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 38/49] fix: ASC table: ranges 40/NN, 4D/NN and 70/NN include
 FFh

---
 src/infi/asi/sense/asc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/sense/asc.py b/src/infi/asi/sense/asc.py
index 052f25f..1be2678 100644
--- a/src/infi/asi/sense/asc.py
+++ b/src/infi/asi/sense/asc.py
@@ -668,10 +668,10 @@ ASC_CODES = {
     struct.pack(">BB", 0x7F, 0x00): "VENDOR SPECIFIC",
 }
 
-for i in range(0x80, 0xFF):
+for i in range(0x80, 0x100):
     ASC_CODES[struct.pack(">BB", 0x40, i)] = "DIAGNOSTIC FAILURE ON COMPONENT %2X" % (i,)
 
-for i in range(0, 0xFF):
+for i in range(0, 0x100):
     ASC_CODES[struct.pack(">BB", 0x4D, i)] = "TAGGED OVERLAPPED COMMANDS (%2X = TASK TAG)" % (i,)
     ASC_CODES[struct.pack(">BB", 0x70, i)] = "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF %2X" % (i,)
 
-- 
2.43.0


From a1337d86ceec18a51705200959ca0873ec00957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 39/49] fix: descriptor format sense: the additional length is
 byte 7

---
 src/infi/asi/sense/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 4c6f796..5fa61e7 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -59,7 +59,7 @@ class SCSISenseDataDescriptorBased(Struct):
             BitPadding(4)
             ),
         Field("additional_sense_code", AdditionalSenseCode),
-        BytePadding(2),
+        BytePadding(3),
         SumSizeArray("descriptors", UBInt8,
                      StructSelector(UBInt8, SENSE_DESCIPTOR_TYPES, default=SCSISenseDataGenericDescriptor))
     ]
-- 
2.43.0


From 6a9821802ad0d202ba62504e34ec5095f863ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 40/49] fix: ATA information: unsigned registers, sector count
 order, opaque LBA bytes

---
 .../cdb/inquiry/vpd_pages/ata_information.py  | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index a726537..8a3d649 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_int_field
+from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field, bytearray_field
 
 
 # sat3r04: 12.4.2
@@ -23,27 +23,27 @@ class AtaIdentifyDevice(Buffer):
 
 class DeviceSignature(Buffer):
     byte_size = 20
-    transport_id = be_int_field(where=bytes_ref[0])
-    pm_port = be_int_field(where=bytes_ref[1].bits[0:4])
-    interrupt = be_int_field(where=bytes_ref[1].bits[6])
-    status = be_int_field(where=bytes_ref[2])
-    error = be_int_field(where=bytes_ref[3])
-    lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
-                           bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
-    device = be_int_field(where=bytes_ref[7])
-    sector_count = be_int_field(where=bytes_ref[12:14])
+    transport_id = be_uint_field(where=bytes_ref[0])
+    pm_port = be_uint_field(where=bytes_ref[1].bits[0:4])
+    interrupt = be_uint_field(where=bytes_ref[1].bits[6])
+    status = be_uint_field(where=bytes_ref[2])
+    error = be_uint_field(where=bytes_ref[3])
+    lba = bytearray_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
+                                 bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
+    device = be_uint_field(where=bytes_ref[7])
+    sector_count = be_uint_field(where=bytes_ref[13] + bytes_ref[12])
 
 
 class AtaInformationVPDPageBuffer(Buffer):
     byte_size = 572
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
-    page_code = be_int_field(where=bytes_ref[1:2])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[1:2])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     sat_vendor_identification = str_field(where=bytes_ref[8:16])  # bytes 8-15
     sat_product_identification = str_field(where=bytes_ref[16:32])  # bytes 16-31
     sat_product_revision_level = str_field(where=bytes_ref[32:36])  # bytes 32-35
     device_signature = buffer_field(where=bytes_ref[36:56], type=DeviceSignature)  # bytes 36-55
-    command_code = be_int_field(where=bytes_ref[56:57])
+    command_code = be_uint_field(where=bytes_ref[56:57])
     # ATA IDENTIFY DEVICE: bytes 60-571
     identify_device = buffer_field(where=bytes_ref[60:572], type=AtaIdentifyDevice)
 
-- 
2.43.0


From dfb38ef9aa359eab781daf92757ff6bd806dcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 41/49] fix: sense data whose descriptors do not add up must
 not lose the check condition

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 4bf9324..54e73fb 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -161,7 +161,7 @@ class CommandExecuterBase(CommandExecuter):
     def _check_condition(self, buf):
         try:
             sense = get_sense_object_from_buffer(buf)
-        except InstructError:
+        except (InstructError, AssertionError):   # infi.instruct asserts that array sizes add up
             sense = None
         return AsiCheckConditionError(buf, sense)
 
-- 
2.43.0


From 29cd3037c8bbd5b3f4a11a600dd4c102d80767f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 42/49] fix: ATA information: the model number is words 27 to
 46

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index 8a3d649..ab02f35 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -18,7 +18,7 @@ class AtaIdentifyDevice(Buffer):
                                                   52])  # word 23-26 in ATA IDENTIFY DEVICE range
     model_number = str_field(where=bytes_ref[55, 54, 57, 56, 59, 58, 61, 60, 63, 62, 65, 64, 67, 66, 69, 68,
                                              71, 70, 73, 72, 75, 74, 77, 76, 79, 78, 81, 80, 83, 82, 85, 84,
-                                             87, 86, 89, 88, 91, 90])  # word 27-46 in ATA IDENTIFY DEVICE range
+                                             87, 86, 89, 88, 91, 90, 93, 92])  # word 27-46 in ATA IDENTIFY DEVICE range
 
 
 class DeviceSignature(Buffer):
-- 
2.43.0


From f1d35a1cdb4acf9aeccae92462a897ce8fbdae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 43/49] fix: SES: battery status, cache size and invalid
 operation bytes are unsigned

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index 480df88..d531b03 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -156,20 +156,20 @@ class NonVolotileCacheElementInfo(Buffer):
     size_mult = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    cache_size = be_int_field(where=bytes_ref[1:])
+    cache_size = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.12
 class InvalidOpReasonElementInfo(Buffer):
     byte_size = 3
     invop_type = be_int_field(where=bytes_ref[0].bits[6:8])
-    invop_bytes = be_int_field(where=bytes_ref[1:])
+    invop_bytes = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.13
 class UninterruptiblePowerSupplyElementInfo(Buffer):
     byte_size = 3
-    battery_status = be_int_field(where=bytes_ref[0])
+    battery_status = be_uint_field(where=bytes_ref[0])
     intf_fail = be_int_field(where=bytes_ref[1].bits[0])
     warn = be_int_field(where=bytes_ref[1].bits[1])
     ups_fail = be_int_field(where=bytes_ref[1].bits[2])
-- 
2.43.0


From c77581a86ab5080e07eb04d5d5c03a6645b4b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 44/49] fix: PR IN read reservation: do not read past the
 additional length

---
 src/infi/asi/cdb/persist/input.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 36d3e6c..bffc64a 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -44,12 +44,12 @@ class PersistentReserveInReadReservationResponse(CDBBuffer):
     """
     pr_generation = be_uint_field(where=bytes_ref[0:4])
     additional_length = be_uint_field(where=bytes_ref[4:8])
-    reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=input_buffer_length >= 16)
-    obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=input_buffer_length >= 20)
-    reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=input_buffer_length >= 21)
-    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 22)
-    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 22)
-    obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=input_buffer_length >= 24)
+    reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 16)
+    obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 20)
+    reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 21)
+    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 22)
+    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 22)
+    obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=min_ref(input_buffer_length, additional_length + 8) >= 24)
 
     def required_allocation_length(self):
         return self.additional_length + 8
-- 
2.43.0


From b538448acfcc47581d3a48b46d52372f4b88bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 45/49] fix: linux: the driver error shows the driver and the
 host status, not the SCSI status

---
 src/infi/asi/linux.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index d2d4a4c..e84f394 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -251,8 +251,8 @@ class LinuxCommandExecuter(CommandExecuterBase):
 
         if (response_sgio.driver_status & 0x0F) != 0:
             error = AsiSCSIError("SCSI driver response status is not zero: %s (host status: %s)" %
-                                (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
-                                 prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES)))
+                                (prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
+                                 prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
             return (error, packet_id)
 
         if response_sgio.host_status != 0:
-- 
2.43.0


From 0a2755e440cb117b7e32a25eec68eb917e07f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 46/49] fix: a failed async IO is raised in the coroutine that
 waits for it

---
 src/infi/asi/coroutines/sync_adapter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 7488d48..76523d4 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -15,6 +15,14 @@ class Coroutine(object):
     def _handle_async_io_token(self):
         raise NotImplementedError()
 
+    def _set_token_result(self, **kwargs):
+        """ a failed async IO is raised in the generator that waits for it, like any other failure """
+        try:
+            self.args = self.result.get_result(**kwargs)
+        except BaseException as e:
+            self.tb = sys.exc_info()[2]
+            self.args = e
+
     def _next_step(self):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
@@ -60,12 +68,12 @@ class AsyncCoroutine(Coroutine):
     def async_io_complete(self):
         """ Callback for reactor to signal that a blocking async IO has been completed """
         # current self.result is an Async IO Token, we can ask for its result now and continue with the stack
-        self.args = self.result.get_result()
+        self._set_token_result()
 
 class SyncCoroutine(Coroutine):
     def _handle_async_io_token(self):
         # we just ask for a synhronous result from self.result which is the Async IO Token, and then continue
-        self.args = self.result.get_result(block=True)
+        self._set_token_result(block=True)
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-- 
2.43.0


From 48d8c91bb1ac5c67b24c0ff20b316641cf943b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 47/49] fix: a coroutine at the top of the stack has the value
 of its last step, not the token or generator it waited for

---
 src/infi/asi/coroutines/sync_adapter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 76523d4..42feb4e 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -40,6 +40,8 @@ class Coroutine(object):
                 self.args = self.result
         except StopIteration as e:
             self.stack.pop()
+            if len(self.stack) == 0:
+                self.result = self.args    # what the last step gave: not the token or the generator it was waiting for
         except BaseException as e:
             self.tb = sys.exc_info()[2]
             self.stack.pop()
-- 
2.43.0


From 89c55d8ac0cee6dd9457d2a796a75ac36c7f7b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 48/49] fix: LBP page, RTPG extended header: bit fields behind
 the end of the response are absent, not 0

---
 .../vpd_pages/logical_block_provisioning.py        | 14 +++++++-------
 src/infi/asi/cdb/rtpg.py                           |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
index 9c9abfa..d01e044 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/logical_block_provisioning.py
@@ -12,14 +12,14 @@ class LogicalBlockProvisioningVPDPageBuffer(Buffer):
 
     threshold_exponent = be_uint_field(where=bytes_ref[4])
     # bit-field
-    dp = be_uint_field(where=bytes_ref[5].bits[0])
-    anc_sup = be_uint_field(where=bytes_ref[5].bits[1])
-    lbprz = be_uint_field(where=bytes_ref[5].bits[2])
+    dp = be_uint_field(where=bytes_ref[5].bits[0], unpack_if=input_buffer_length > 5)
+    anc_sup = be_uint_field(where=bytes_ref[5].bits[1], unpack_if=input_buffer_length > 5)
+    lbprz = be_uint_field(where=bytes_ref[5].bits[2], unpack_if=input_buffer_length > 5)
     # reserved
-    lbpws10 = be_uint_field(where=bytes_ref[5].bits[5])
-    lbpws = be_uint_field(where=bytes_ref[5].bits[6])
-    lbpu = be_uint_field(where=bytes_ref[5].bits[7])
-    provisioning_type = be_uint_field(where=bytes_ref[6].bits[0:3])
+    lbpws10 = be_uint_field(where=bytes_ref[5].bits[5], unpack_if=input_buffer_length > 5)
+    lbpws = be_uint_field(where=bytes_ref[5].bits[6], unpack_if=input_buffer_length > 5)
+    lbpu = be_uint_field(where=bytes_ref[5].bits[7], unpack_if=input_buffer_length > 5)
+    provisioning_type = be_uint_field(where=bytes_ref[6].bits[0:3], unpack_if=input_buffer_length > 6)
     # reserved
     provisioning_group_descriptor = buffer_field(where=bytes_ref[8:], type=DesignatorDescriptor,
                                                  unpack_selector=determine_designator,
diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index b643fd1..071590b 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -82,6 +82,6 @@ class TargetPortGroupLengthOnlyResponse(Buffer):
 
 class TargetPortGroupExtendedResponse(Buffer):
     data_length = be_uint_field(where=bytes_ref[0:4])
-    format_type = be_int_field(where=bytes_ref[4].bits[4:7])
+    format_type = be_int_field(where=bytes_ref[4].bits[4:7], unpack_if=input_buffer_length > 4)
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From e766ece9ee1324d4bd0e269ff3f48d49d90c32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:28 +0000
Subject: [PATCH 49/49] fix: device identification: a designator that is cut
 short is refused, not decoded from missing bytes

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 7d0d1fd..358e57b 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -154,6 +154,8 @@ def determine_designator(instance, buffer, *args, **kwargs):
     header = DesignatorDescriptor()
     header.unpack(buffer.to_bytes())
     try:
+        if len(buffer.to_bytes()) < header.designator_length + 4:
+            raise InstructError("designator is cut short: %r" % header)
         if header.designator_type in SINGLE_TYPE_DESIGNATORS:
             return SINGLE_TYPE_DESIGNATORS[header.designator_type]
         if header.designator_type == 0x02:
-- 
2.43.0

