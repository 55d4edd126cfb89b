From 3cd69abc66d357af2bafd2a493433755c2c56111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 01/22] fix: reject RawSocket handshakes with any non-zero
 reserved byte

---
 wampproto/transports/rawsocket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index bc073df..3bfa35b 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -87,7 +87,7 @@ def receive_handshake(data: bytes) -> Handshake:
     if data[0] != MAGIC:
         raise ValueError("Expected MAGIC, got %d" % data[0])
 
-    if data[2] != 0x00 and data[3] != 0x00:
+    if data[2] != 0x00 or data[3] != 0x00:
         raise ValueError(f"Expected 0x00 for third and fourth byte of handshake response, got {data[2]} and {data[3]}")
 
     return Handshake(data[1] & 0x0F, 1 << ((data[1] >> 4) + 9))
-- 
2.43.0


From 4e2c2132f6ccf486142cf4ad47fa6d63ed03ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 02/22] fix: refuse RawSocket lengths that do not fit in 24
 bits

---
 wampproto/transports/rawsocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/transports/rawsocket.py b/wampproto/transports/rawsocket.py
index 3bfa35b..051cfb0 100644
--- a/wampproto/transports/rawsocket.py
+++ b/wampproto/transports/rawsocket.py
@@ -94,6 +94,9 @@ def receive_handshake(data: bytes) -> Handshake:
 
 
 def int_to_bytes(i: int) -> bytes:
+    if not 0 <= i < PROTOCOL_MAX_MSG_SIZE:
+        raise ValueError(f"length must fit in 24 bits, got {i}")
+
     return bytes(
         [
             (i >> 16) & 0xFF,
-- 
2.43.0


From a935d640d526975e62b8221ba35d04a1aa8ecb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 03/22] fix: reject empty lists with ValueError instead of
 IndexError

---
 wampproto/serializers/serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/serializer.py b/wampproto/serializers/serializer.py
index 2faba44..93420e8 100644
--- a/wampproto/serializers/serializer.py
+++ b/wampproto/serializers/serializer.py
@@ -18,6 +18,9 @@ def to_message(message: list) -> messages.Message:
     if not isinstance(message, list):
         raise TypeError(f"invalid type '{type(message)}', expected a list")
 
+    if len(message) == 0:
+        raise ValueError("message must not be empty")
+
     message_type = message[0]
     if not isinstance(message_type, int):
         raise TypeError(f"invalid message type '{type(message[0])}', expected an integer")
-- 
2.43.0


From 7349f557370579998a1b2d05189a7e312e88e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 04/22] fix: marshal the args and kwargs of ABORT

---
 wampproto/messages/abort.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wampproto/messages/abort.py b/wampproto/messages/abort.py
index 1c27e59..0c511d2 100644
--- a/wampproto/messages/abort.py
+++ b/wampproto/messages/abort.py
@@ -92,4 +92,14 @@ class Abort(Message):
         return Abort(AbortFields(f.details, f.reason, f.args, f.kwargs))
 
     def marshal(self) -> list[Any]:
-        return [self.TYPE, self.details, self.reason]
+        message = [self.TYPE, self.details, self.reason]
+        if self.args is not None:
+            message.append(self.args)
+
+        if self.kwargs is not None:
+            if self.args is None:
+                message.append([])
+
+            message.append(self.kwargs)
+
+        return message
-- 
2.43.0


From e1aa327ffd5d08c6bd976440e30aca301d689daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 05/22] fix: do not write x_payload_serializer into the
 caller's dictionary

---
 wampproto/messages/call.py       | 2 +-
 wampproto/messages/invocation.py | 2 +-
 wampproto/messages/result.py     | 2 +-
 wampproto/messages/yield_.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/messages/call.py b/wampproto/messages/call.py
index 496044d..8eab000 100644
--- a/wampproto/messages/call.py
+++ b/wampproto/messages/call.py
@@ -125,7 +125,7 @@ class Call(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
diff --git a/wampproto/messages/invocation.py b/wampproto/messages/invocation.py
index 43bb418..c4949bf 100644
--- a/wampproto/messages/invocation.py
+++ b/wampproto/messages/invocation.py
@@ -124,7 +124,7 @@ class Invocation(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/result.py b/wampproto/messages/result.py
index 63d557e..7b117ff 100644
--- a/wampproto/messages/result.py
+++ b/wampproto/messages/result.py
@@ -101,7 +101,7 @@ class Result(Message):
     @property
     def details(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.details["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.details, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.details
 
diff --git a/wampproto/messages/yield_.py b/wampproto/messages/yield_.py
index 518d3ed..3ac20e9 100644
--- a/wampproto/messages/yield_.py
+++ b/wampproto/messages/yield_.py
@@ -101,7 +101,7 @@ class Yield(Message):
     @property
     def options(self) -> dict[str, Any]:
         if self.payload_serializer is not None:
-            self._fields.options["x_payload_serializer"] = self._fields.payload_serializer
+            return {**self._fields.options, "x_payload_serializer": self._fields.payload_serializer}
 
         return self._fields.options
 
-- 
2.43.0


From ad1d94d1376251d64414daee79c38589248d59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 06/22] fix: reject payloads that do not decode to a list

---
 wampproto/serializers/payload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wampproto/serializers/payload.py b/wampproto/serializers/payload.py
index dc0bbf8..8633f52 100644
--- a/wampproto/serializers/payload.py
+++ b/wampproto/serializers/payload.py
@@ -8,6 +8,9 @@ from wampproto import serializers
 
 
 def decode(arr: list) -> Tuple[list[Any] | None, dict[Any, Any] | None]:
+    if not isinstance(arr, list):
+        raise TypeError("payload is not list")
+
     if len(arr) == 0:
         return None, None
 
-- 
2.43.0


From 781bcf28dc3a662afa2af45fc4a55f0ee07353b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 07/22] fix: endless recursion in WAMPCRASaltedResponse.salt

---
 wampproto/auth/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/auth.py b/wampproto/auth/auth.py
index 1b61f01..721c4b1 100644
--- a/wampproto/auth/auth.py
+++ b/wampproto/auth/auth.py
@@ -116,7 +116,7 @@ class WAMPCRASaltedResponse(WAMPCRAResponse):
 
     @property
     def salt(self) -> str:
-        return self.salt
+        return self._salt
 
     @property
     def iterations(self) -> int:
-- 
2.43.0


From 28b80e7a7fd4a743b05674a3a920bfc071b2f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 08/22] fix: accept invocation errors only from the callee and
 forget the call they end

---
 wampproto/dealer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 4724bb7..842a25e 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -64,6 +64,12 @@ class Dealer:
         self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
+    def _remove_call(self, invocation_id: int) -> None:
+        pending = self.pending_calls.pop(invocation_id)
+        call_key = (pending.caller_id, pending.request_id)
+        if self.call_to_invocation_id.get(call_key) == invocation_id:
+            del self.call_to_invocation_id[call_key]
+
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
             registration = self.registrations_by_procedure.get(message.procedure)
@@ -123,8 +129,7 @@ class Dealer:
             if receive_progress and invocation.receive_progress:
                 details.update({OPTION_PROGRESS: receive_progress})
             else:
-                del self.pending_calls[message.request_id]
-                del self.call_to_invocation_id[(invocation.caller_id, invocation.request_id)]
+                self._remove_call(message.request_id)
 
             result = messages.Result(
                 messages.ResultFields(
@@ -180,10 +185,15 @@ class Dealer:
             if message.message_type != messages.Invocation.TYPE:
                 raise ValueError("dealer: only expected to receive error in response to invocation")
 
-            pending = self.pending_calls.pop(message.request_id, None)
+            pending = self.pending_calls.get(message.request_id)
             if pending is None:
                 raise ValueError(f"dealer: no pending invocation for {message.request_id}")
 
+            if session_id != pending.callee_id:
+                raise ValueError(f"received unexpected error from session={session_id}")
+
+            self._remove_call(message.request_id)
+
             err_msg = messages.Error(
                 messages.ErrorFields(
                     messages.Call.TYPE, pending.request_id, message.uri, message.args, message.kwargs, message.details
-- 
2.43.0


From 6174ae6b194dd2e588634e5e3e65721db16b0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 09/22] fix: forget the pending calls of a session that leaves

---
 wampproto/dealer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 842a25e..fa26d8c 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -53,6 +53,10 @@ class Dealer:
             if len(registration.registrants) == 0:
                 del self.registrations_by_procedure[registration.procedure]
 
+        for invocation_id, pending in list(self.pending_calls.items()):
+            if sid in (pending.caller_id, pending.callee_id):
+                self._remove_call(invocation_id)
+
         del self.sessions[sid]
 
     def has_registration(self, procedure: str) -> bool:
-- 
2.43.0


From d95e87cd5f5e86f254d02708b658983da7c9ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 10/22] fix: keep all parts of a progressive call on its
 invocation and callee

---
 wampproto/dealer.py | 63 ++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index fa26d8c..88914f7 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -13,6 +13,7 @@ class PendingInvocation:
     callee_id: int
     progress: bool
     receive_progress: bool
+    registration_id: int
 
 
 @dataclass
@@ -63,9 +64,18 @@ class Dealer:
         return procedure in self.registrations_by_procedure
 
     def _add_call(
-        self, call_id: int, invocation_id: int, caller_id: int, callee_id: int, progress: bool, receive_progress: bool
+        self,
+        call_id: int,
+        invocation_id: int,
+        caller_id: int,
+        callee_id: int,
+        progress: bool,
+        receive_progress: bool,
+        registration_id: int,
     ) -> None:
-        self.pending_calls[invocation_id] = PendingInvocation(call_id, caller_id, callee_id, progress, receive_progress)
+        self.pending_calls[invocation_id] = PendingInvocation(
+            call_id, caller_id, callee_id, progress, receive_progress, registration_id
+        )
         self.call_to_invocation_id[(caller_id, call_id)] = invocation_id
 
     def _remove_call(self, invocation_id: int) -> None:
@@ -76,28 +86,39 @@ class Dealer:
 
     def receive_message(self, session_id: int, message: messages.Message) -> types.MessageWithRecipient:
         if isinstance(message, messages.Call):
-            registration = self.registrations_by_procedure.get(message.procedure)
-            if registration is None:
-                err = messages.Error(
-                    messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
-                )
-                return types.MessageWithRecipient(err, session_id)
-
-            callee_id: int = 0
-            for session in registration.registrants.keys():
-                callee_id = session
-                break
-
             receive_progress = message.options.get(OPTION_RECEIVE_PROGRESS, False)
             progress = message.options.get(OPTION_PROGRESS, False)
-            if progress:
-                invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
-                if invocation_id is None:
-                    invocation_id = self.idgen.next()
-                    self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+            invocation_id = self.call_to_invocation_id.get((session_id, message.request_id))
+            pending = self.pending_calls.get(invocation_id)
+            if pending is not None and pending.progress:
+                # another part of a progressive call stays on the invocation it was started with
+                pending.progress = progress
+                callee_id = pending.callee_id
+                registration_id = pending.registration_id
             else:
+                registration = self.registrations_by_procedure.get(message.procedure)
+                if registration is None:
+                    err = messages.Error(
+                        messages.ErrorFields(message.TYPE, message.request_id, "wamp.error.no_such_procedure")
+                    )
+                    return types.MessageWithRecipient(err, session_id)
+
+                callee_id: int = 0
+                for session in registration.registrants.keys():
+                    callee_id = session
+                    break
+
+                registration_id = registration.id
                 invocation_id = self.idgen.next()
-                self._add_call(message.request_id, invocation_id, session_id, callee_id, progress, receive_progress)
+                self._add_call(
+                    message.request_id,
+                    invocation_id,
+                    session_id,
+                    callee_id,
+                    progress,
+                    receive_progress,
+                    registration_id,
+                )
 
             details = {}
             if receive_progress:
@@ -109,7 +130,7 @@ class Dealer:
             invocation = messages.Invocation(
                 messages.InvocationFields(
                     request_id=invocation_id,
-                    registration_id=registration.id,
+                    registration_id=registration_id,
                     args=message.args,
                     kwargs=message.kwargs,
                     details=details,
-- 
2.43.0


From b52dd05bff3ef63ea96eebb81468780789f105f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 11/22] fix: forward binary payloads of YIELD and the binary
 flag of CALL

---
 wampproto/dealer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wampproto/dealer.py b/wampproto/dealer.py
index 88914f7..3c52d1e 100644
--- a/wampproto/dealer.py
+++ b/wampproto/dealer.py
@@ -136,6 +136,7 @@ class Dealer:
                     details=details,
                     payload=message.payload,
                     serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
 
@@ -158,7 +159,13 @@ class Dealer:
 
             result = messages.Result(
                 messages.ResultFields(
-                    request_id=invocation.request_id, args=message.args, kwargs=message.kwargs, details=details
+                    request_id=invocation.request_id,
+                    args=message.args,
+                    kwargs=message.kwargs,
+                    details=details,
+                    payload=message.payload,
+                    serializer=message.payload_serializer,
+                    binary=message.payload_is_binary(),
                 )
             )
             return types.MessageWithRecipient(result, invocation.caller_id)
-- 
2.43.0


From bc3db4be40da87d7d288979cfae362b212b3403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 12/22] fix: progressive results do not end the call or
 invocation

---
 wampproto/session.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 3031ed7..2f2453a 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -28,7 +28,8 @@ class WAMPSession:
             if msg.request_id not in self._invocation_requests:
                 raise ValueError("cannot yield for unknown invocation request")
 
-            self._invocation_requests.remove(msg.request_id)
+            if not msg.options.get("progress", False):
+                self._invocation_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Publish):
             if msg.options.get("acknowledge", False):
                 self._publish_requests.add(msg.request_id)
@@ -54,10 +55,11 @@ class WAMPSession:
 
     def receive_message(self, msg: messages.Message) -> messages.Message:
         if isinstance(msg, messages.Result):
-            try:
-                self._call_requests.remove(msg.request_id)
-            except KeyError:
+            if msg.request_id not in self._call_requests:
                 raise ValueError("received RESULT for invalid request_id")
+
+            if not msg.details.get("progress", False):
+                self._call_requests.remove(msg.request_id)
         elif isinstance(msg, messages.Registered):
             try:
                 self._register_requests.remove(msg.request_id)
-- 
2.43.0


From c94c29233a7062537c1f5cb299ee8485f76806d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 13/22] fix: mark the acceptor aborted when the authenticator
 refuses

---
 wampproto/acceptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index b948d29..33492c6 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -83,6 +83,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
@@ -106,6 +107,7 @@ class Acceptor:
                     try:
                         self._response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._public_key = public_key
@@ -119,6 +121,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     if not isinstance(response, auth.WAMPCRAResponse):
@@ -187,6 +190,7 @@ class Acceptor:
                     try:
                         response = self._authenticator.authenticate(request)
                     except Exception as e:
+                        self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED, args=list(e.args)))
 
                     self._state = Acceptor.STATE_WELCOME_SENT
-- 
2.43.0


From d882a21b9ae696bb6b5bd418a5d2c15d7087f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 14/22] fix: only accept cryptosign signatures over the
 challenge that was issued

---
 wampproto/acceptor.py        | 5 ++++-
 wampproto/auth/cryptosign.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 33492c6..23b72e9 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -114,6 +114,7 @@ class Acceptor:
 
                     challenge = auth.generate_cryptosign_challenge()
                     self._state = Acceptor.STATE_CHALLENGE_SENT
+                    self._challenge = challenge
 
                     return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
                 case Acceptor.WAMPCRA:
@@ -148,7 +149,9 @@ class Acceptor:
 
             match self._auth_method:
                 case Acceptor.CRYPTOSIGN:
-                    if not auth.verify_cryptosign_signature(msg.signature, binascii.unhexlify(self._public_key)):
+                    if not auth.verify_cryptosign_signature(
+                        msg.signature, binascii.unhexlify(self._public_key), self._challenge
+                    ):
                         self._state = Acceptor.STATE_ABORTED
                         return messages.Abort(messages.AbortFields({}, uris.AUTHENTICATION_FAILED))
 
diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 244432b..1f3c4f4 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -40,14 +40,14 @@ def sign_cryptosign_challenge(challenge: str, private_key: nacl.signing.SigningK
     return private_key.sign(raw_challenge, HexEncoder).signature.decode() + challenge
 
 
-def verify_cryptosign_signature(signature: str, public_key: bytes) -> bool:
+def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: str | None = None) -> bool:
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
-        verifying_key.verify(binascii.unhexlify(signature))
+        signed_message = verifying_key.verify(binascii.unhexlify(signature))
     except BadSignatureError:
         return False
 
-    return True
+    return challenge is None or signed_message == binascii.unhexlify(challenge)
 
 
 def generate_cryptosign_keypair() -> tuple[str, str]:
-- 
2.43.0


From d7552f35c825c963709cb18d6edcaf993c5af00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 15/22] fix: malformed signatures are invalid instead of
 raising

---
 wampproto/auth/cryptosign.py | 2 +-
 wampproto/auth/wampcra.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 1f3c4f4..64fe207 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -44,7 +44,7 @@ def verify_cryptosign_signature(signature: str, public_key: bytes, challenge: st
     try:
         verifying_key = nacl.signing.VerifyKey(public_key)
         signed_message = verifying_key.verify(binascii.unhexlify(signature))
-    except BadSignatureError:
+    except (BadSignatureError, ValueError):
         return False
 
     return challenge is None or signed_message == binascii.unhexlify(challenge)
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 05a0ac5..8ffe322 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -76,7 +76,7 @@ def verify_wampcra_signature(signature: str, challenge: str, key: bytes) -> bool
     try:
         sig_bytes = base64.b64decode(signature)
         local_signature = sign_wampcra_challenge(challenge, key)
-    except binascii.Error:
+    except ValueError:
         return False
 
     return hmac.compare_digest(sig_bytes, base64.b64decode(local_signature))
-- 
2.43.0


From 99aec143867637cd088ffba61a2e2a1059183bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 16/22] fix: cryptosign HELLO without authextra raised
 AttributeError

---
 wampproto/acceptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 23b72e9..4c1eaf8 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -99,7 +99,7 @@ class Acceptor:
 
                     return welcome
                 case Acceptor.CRYPTOSIGN:
-                    public_key = msg.authextra.get("pubkey")
+                    public_key = (msg.authextra or {}).get("pubkey")
                     if public_key is None:
                         raise ValueError("authextra must contain pubkey for cryptosign")
 
-- 
2.43.0


From 6d8f77e3b3c95d0b5bd6aecdabde6012434dfcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 17/22] fix: handle ABORT and unexpected messages received
 during the handshake

---
 wampproto/acceptor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 4c1eaf8..63a9e07 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -44,9 +44,11 @@ class Acceptor:
         self._challenge: str = None
         self._secret: str = None
 
-    def receive(self, data: bytes) -> (bytes, bool):
+    def receive(self, data: bytes) -> (bytes | None, bool):
         received_message = self._serializer.deserialize(data)
         to_send = self.receive_message(received_message)
+        if to_send is None:
+            return None, True
 
         return self._serializer.serialize(to_send), isinstance(to_send, messages.Welcome) or isinstance(
             to_send, messages.Abort
@@ -209,6 +211,8 @@ class Acceptor:
                     return welcome
         elif isinstance(msg, messages.Abort):
             self._state = Acceptor.STATE_ABORTED
+        else:
+            raise ValueError("received unexpected message")
 
     def is_aborted(self) -> bool:
         return self._state == Acceptor.STATE_ABORTED
-- 
2.43.0


From b9459b84c920a5117dca2c8aada9ae4ab282e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 18/22] fix: announce salt, iterations and key length of a
 salted WAMP-CRA response

---
 wampproto/acceptor.py      | 8 +++++++-
 wampproto/auth/__init__.py | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wampproto/acceptor.py b/wampproto/acceptor.py
index 63a9e07..719a9c6 100644
--- a/wampproto/acceptor.py
+++ b/wampproto/acceptor.py
@@ -139,7 +139,13 @@ class Acceptor:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     self._challenge = challenge
 
-                    return messages.Challenge(messages.ChallengeFields(method, {"challenge": challenge}))
+                    extra = {"challenge": challenge}
+                    if isinstance(response, auth.WAMPCRASaltedResponse):
+                        extra["salt"] = response.salt
+                        extra["iterations"] = response.iterations
+                        extra["keylen"] = response.keylen
+
+                    return messages.Challenge(messages.ChallengeFields(method, extra))
                 case Acceptor.TICKET:
                     self._state = Acceptor.STATE_CHALLENGE_SENT
                     return messages.Challenge(messages.ChallengeFields(method, {}))
diff --git a/wampproto/auth/__init__.py b/wampproto/auth/__init__.py
index 18597c3..11d66b9 100644
--- a/wampproto/auth/__init__.py
+++ b/wampproto/auth/__init__.py
@@ -8,6 +8,7 @@ from wampproto.auth.auth import (
     TicketRequest,
     Response,
     WAMPCRAResponse,
+    WAMPCRASaltedResponse,
 )
 from wampproto.auth.anonymous import AnonymousAuthenticator
 from wampproto.auth.cryptosign import (
@@ -38,6 +39,7 @@ __all__ = (
     "TicketRequest",
     "Response",
     "WAMPCRAResponse",
+    "WAMPCRASaltedResponse",
     "generate_cryptosign_challenge",
     "sign_cryptosign_challenge",
     "verify_cryptosign_signature",
-- 
2.43.0


From 8565e63d6ec11013cf9282b569604f36bd50dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 19/22] fix: clients made from one auth extra announced the
 first client's public key

---
 wampproto/auth/cryptosign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index 64fe207..d8c06a0 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -18,7 +18,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
         if "pubkey" not in self._auth_extra:
             public_key = self._private_key.verify_key.encode(HexEncoder).decode()
-            self._auth_extra["pubkey"] = public_key
+            self._auth_extra = {**self._auth_extra, "pubkey": public_key}
 
     def authenticate(self, challenge: messages.Challenge) -> messages.Authenticate:
         challenge_hex = challenge.extra.get("challenge")
-- 
2.43.0


From 55dd6b9d0bbe8ad7f2bbbfdda50fc333cbbed2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 20/22] fix: draw challenges from the system's secure random
 source

---
 wampproto/auth/cryptosign.py | 4 ++--
 wampproto/auth/wampcra.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wampproto/auth/cryptosign.py b/wampproto/auth/cryptosign.py
index d8c06a0..612fe09 100644
--- a/wampproto/auth/cryptosign.py
+++ b/wampproto/auth/cryptosign.py
@@ -1,5 +1,5 @@
 import binascii
-import random
+import secrets
 
 import nacl.signing
 from nacl.encoding import HexEncoder
@@ -31,7 +31,7 @@ class CryptoSignAuthenticator(auth.IClientAuthenticator):
 
 
 def generate_cryptosign_challenge() -> str:
-    raw_bytes = random.randbytes(32)
+    raw_bytes = secrets.token_bytes(32)
     return binascii.hexlify(raw_bytes).decode("ascii")
 
 
diff --git a/wampproto/auth/wampcra.py b/wampproto/auth/wampcra.py
index 8ffe322..9524ec1 100644
--- a/wampproto/auth/wampcra.py
+++ b/wampproto/auth/wampcra.py
@@ -4,7 +4,7 @@ import datetime
 import hashlib
 import hmac
 import json
-import random
+import secrets
 
 from wampproto import messages, auth
 from wampproto.messages.authenticate import AuthenticateFields
@@ -52,7 +52,7 @@ def utcnow() -> str:
 
 
 def generate_wampcra_challenge(session_id: int, authid: str, authrole: str, provider: str) -> str:
-    nonce = binascii.hexlify(random.randbytes(16)).decode()
+    nonce = binascii.hexlify(secrets.token_bytes(16)).decode()
 
     data = {
         "nonce": nonce,
-- 
2.43.0


From 00ae0efacc356cd8a40bb74149d481e8093ad87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:51 +0000
Subject: [PATCH 21/22] fix: a message that could not be encoded was remembered
 as sent

---
 wampproto/session.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/session.py b/wampproto/session.py
index 2f2453a..9ecfcd7 100644
--- a/wampproto/session.py
+++ b/wampproto/session.py
@@ -18,6 +18,9 @@ class WAMPSession:
         self._unsubscribe_requests: dict[int, int] = {}
 
     def send_message(self, msg: messages.Message) -> bytes:
+        # a message that cannot be encoded is not sent, so nothing is remembered about it
+        data = self._serializer.serialize(msg)
+
         if isinstance(msg, messages.Call):
             self._call_requests.add(msg.request_id)
         elif isinstance(msg, messages.Register):
@@ -47,7 +50,7 @@ class WAMPSession:
         else:
             raise ValueError(f"unknown message type {type(msg)}")
 
-        return self._serializer.serialize(msg)
+        return data
 
     def receive(self, data: bytes) -> messages.Message:
         msg = self._serializer.deserialize(data)
-- 
2.43.0


From c5e1e566d186bc7a5bfc849fc0e8ee2600fb781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:38 +0000
Subject: [PATCH 22/22] fix: a HELLO that could not be encoded was remembered
 as sent

---
 wampproto/joiner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wampproto/joiner.py b/wampproto/joiner.py
index c84a347..0b4aecc 100644
--- a/wampproto/joiner.py
+++ b/wampproto/joiner.py
@@ -46,8 +46,11 @@ class Joiner:
             )
         )
 
+        # a HELLO that cannot be encoded is not sent, so no WELCOME is awaited
+        data = self._serializer.serialize(hello)
         self._state = Joiner.STATE_HELLO_SENT
-        return self._serializer.serialize(hello)
+
+        return data
 
     def receive(self, data: bytes) -> Optional[bytes]:
         received_message = self._serializer.deserialize(data)
-- 
2.43.0

