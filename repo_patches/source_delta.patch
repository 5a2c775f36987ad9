From e140d15d16aa241fee1a835192db6fecb1b91f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:42 +0000
Subject: [PATCH 01/56] fix: deliver lines and raw data iteratively, and
 nothing once the connection is being closed

LineReceiver.dataReceived recursed through setLineMode once per raw block, so
a single segment with a few hundred of them overflowed the stack, and it
delivered one more line when a raw handler asked for the connection to be
closed and then returned to line mode.
---
 epsilon/liner.py | 55 ++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/epsilon/liner.py b/epsilon/liner.py
index a28352a..47c9f52 100644
--- a/epsilon/liner.py
+++ b/epsilon/liner.py
@@ -33,33 +33,34 @@ class LineReceiver(Protocol):
     def setRawMode(self):
         self.lineMode = False
 
+    _receiving = False
+
     def dataReceived(self, data):
-        buffer = self.buffer
-        buffer += data
-        delimiter = self.delimiter
+        self.buffer += data
+        if self._receiving:
+            # A handler called back into us (setLineMode does): the loop which
+            # called that handler goes on with these bytes once it returns.
+            return
+        self._receiving = True
         begin = 0
-        raw = False
-        while self.lineMode:
-            end = buffer.find(delimiter, begin)
-            if end == -1:
-                break
-            line = buffer[begin:end]
-            self.lineReceived(line)
-            if self.isDisconnecting():
+        try:
+            while not self.isDisconnecting():
+                if self.lineMode:
+                    end = self.buffer.find(self.delimiter, begin)
+                    if end == -1:
+                        break
+                    line = self.buffer[begin:end]
+                    begin = end + len(self.delimiter)
+                    self.lineReceived(line)
+                else:
+                    raw = self.buffer[begin:]
+                    self.buffer = b''
+                    begin = 0
+                    if not raw:
+                        break
+                    self.rawDataReceived(raw)
+            else:
                 self.buffer = b''
-                return
-            begin = end + len(delimiter)
-        else:
-            raw = True
-        if begin:
-            buffer = buffer[begin:]
-        if raw:
-            self.buffer = b''
-            if self.isDisconnecting():
-                return
-            if buffer:
-                self.rawDataReceived(buffer)
-        else:
-            self.buffer = buffer
-
-
+        finally:
+            self._receiving = False
+            self.buffer = self.buffer[begin:]
-- 
2.43.0


From 348840c5cffffad9765f4c29c43d3b51318b92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:18 +0000
Subject: [PATCH 02/56] fix: announce the length of a non-ASCII Juice body in
 bytes, not characters

---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6a58863..e1de96f 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -65,7 +65,7 @@ class JuiceBox(dict):
         for (k, v) in six.viewitems(self):
             if k == BODY:
                 k = LENGTH
-                v = str(len(self[BODY]))
+                v = str(len(six.ensure_binary(self[BODY])))
             L.append(six.ensure_binary(k).replace(b'_', b'-').title())
             L.append(b': ')
             L.append(six.ensure_binary(v).replace(delimiter, escaped))
-- 
2.43.0


From 65c4de7ff4b0547333f018a20446c585dfb8d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:31 +0000
Subject: [PATCH 03/56] fix: deliver an empty Juice body as an empty body
 instead of dropping it

---
 epsilon/juice.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e1de96f..199c246 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -297,7 +297,13 @@ def parseJuiceHeaders(lines):
         key, value = parts
         key = normalizeKey(key)
         b[key] = six.ensure_str(value)
-    return int(b.pop(LENGTH, 0)), b
+    if LENGTH not in b:
+        return 0, b
+    length = int(b.pop(LENGTH))
+    if length == 0:
+        # An empty body is still a body.
+        b[BODY] = ''
+    return length, b
 
 class JuiceParserBase(DispatchMixin):
 
-- 
2.43.0


From 8af9fb5033885311ff8644d3b7966b1be62dd6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:50 +0000
Subject: [PATCH 04/56] fix: let a Juice command have an argument named f

maybeDeferred takes its callable as f, so passing command arguments through it
as keywords failed with TypeError for a command with such an argument.
---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 199c246..e13bfab 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -226,7 +226,7 @@ class DispatchMixin:
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
                         code, desc, error in command.fatalErrors))
-            return maybeDeferred(aCallable, **kw).addCallback(
+            return maybeDeferred(lambda: aCallable(**kw)).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
         return doit
-- 
2.43.0


From a6131bbfb874a8f49c65bdfed6f4b6a041b3855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 05/56] fix: make the Unicode, Path, EncodedString and
 Base64Binary Juice arguments work on Python 3

---
 epsilon/juice.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index e13bfab..f191400 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -1,6 +1,7 @@
 # -*- test-case-name: epsilon.test.test_juice -*-
 # Copyright 2005 Divmod, Inc.  See LICENSE file for details
 
+import base64
 import warnings, pprint
 import keyword
 import io
@@ -510,7 +511,7 @@ class EncodedString(Argument):
         return inObject.encode(self.encoding)
 
     def fromString(self, inString):
-        return inString.decode(self.encoding)
+        return six.ensure_binary(inString).decode(self.encoding)
 
 # Temporary backwards compatibility for Exponent
 
@@ -519,11 +520,11 @@ Body = String
 class Unicode(String):
     def toString(self, inObject):
         # assert isinstance(inObject, unicode)
-        return String.toString(self, inObject.encode('utf-8'))
+        return String.toString(self, six.ensure_str(inObject))
 
     def fromString(self, inString):
         # assert isinstance(inString, str)
-        return String.fromString(self, inString).decode('utf-8')
+        return six.ensure_text(String.fromString(self, inString))
 
 class Path(Unicode):
     def fromString(self, inString):
@@ -539,9 +540,9 @@ class Float(Argument):
 
 class Base64Binary(Argument):
     def toString(self, inObject):
-        return inObject.encode('base64').replace('\n', '')
+        return six.ensure_str(base64.b64encode(inObject))
     def fromString(self, inString):
-        return inString.decode('base64')
+        return base64.b64decode(inString)
 
 class Time(Argument):
     def toString(self, inObject):
-- 
2.43.0


From 1806bdd0f086383aca8a402044982b5b85aebe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:00 +0000
Subject: [PATCH 06/56] fix: close the connection after a Juice error declared
 fatal

The Failure itself, rather than the exception type it was matched with, was
looked up among the fatal errors, so no error was ever fatal.
---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index f191400..f23bb94 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -226,7 +226,7 @@ class DispatchMixin:
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-                        code, desc, error in command.fatalErrors))
+                        code, desc, key in command.fatalErrors))
             return maybeDeferred(lambda: aCallable(**kw)).addCallback(
                 command.makeResponse, proto).addErrback(
                 checkKnownErrors)
-- 
2.43.0


From 1cb8c3f691571f42f584d38d462a2ca28693c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:59 +0000
Subject: [PATCH 07/56] fix: honour errors a Juice command inherits from its
 base class

---
 epsilon/juice.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index f23bb94..8b2775b 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -600,13 +600,15 @@ class _CommandMeta(type):
         def __new__(cls, name, bases, attrs):
             re = attrs['reverseErrors'] = {}
             er = attrs['allErrors'] = {}
-            for v, k in six.viewitems(attrs.get('errors',{})):
+            newtype = type.__new__(cls, name, bases, attrs)
+            # Not attrs: the errors may have been declared by a base class.
+            for v, k in six.viewitems(newtype.errors):
                 re[k] = v
                 er[v] = k
-            for v, k in six.viewitems(attrs.get('fatalErrors',{})):
+            for v, k in six.viewitems(newtype.fatalErrors):
                 re[k] = v
                 er[v] = k
-            return type.__new__(cls, name, bases, attrs)
+            return newtype
 
 
 @six.add_metaclass(_CommandMeta)
-- 
2.43.0


From 98f8412a16ede5f0712538dbe7383e07f3267e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:33 +0000
Subject: [PATCH 08/56] fix: do not forget a Juice request because its error
 reply is malformed

The request was removed from the table before the reply's fields were read, so
a reply without an error code or description left it waiting for ever, even
after the connection it broke had been lost.
---
 epsilon/juice.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 8b2775b..7049fce 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -342,11 +342,10 @@ class JuiceParserBase(DispatchMixin):
             question.addErrback(self._puke)
             self._wrap(question.callback)(box)
         elif ERROR in box:
+            error = RemoteJuiceError(box[ERROR_CODE], box[ERROR_DESCRIPTION])
             question = self._outstandingRequests.pop(box[ERROR])
             question.addErrback(self._puke)
-            self._wrap(question.errback)(
-                Failure(RemoteJuiceError(box[ERROR_CODE],
-                                         box[ERROR_DESCRIPTION])))
+            self._wrap(question.errback)(Failure(error))
         elif COMMAND in box:
             cmd = box[COMMAND]
             def sendAnswer(answerBox):
-- 
2.43.0


From e54aff845d4b4114ad847770c805b6c8af1f778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:48 +0000
Subject: [PATCH 09/56] fix: do not write late Juice answers into a switched or
 locked connection

---
 epsilon/juice.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 7049fce..650fb97 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -333,6 +333,12 @@ class JuiceParserBase(DispatchMixin):
         for key, value in OR:
             value.errback(reason)
 
+    def _canAnswer(self):
+        """
+        Is it still possible to send my peer the answer to a command?
+        """
+        return self.transport is not None
+
     def juiceBoxReceived(self, box):
         if debug:
             log.msg("Juice receive: %s" % pprint.pformat(dict(six.viewitems(box))))
@@ -351,7 +357,7 @@ class JuiceParserBase(DispatchMixin):
             def sendAnswer(answerBox):
                 if ASK not in box:
                     return
-                if self.transport is None:
+                if not self._canAnswer():
                     return
                 answerBox[ANSWER] = box[ASK]
                 answerBox.sendTo(self)
@@ -374,7 +380,7 @@ class JuiceParserBase(DispatchMixin):
                 errorBox[ERROR] = box[ASK]
                 errorBox[ERROR_DESCRIPTION] = desc
                 errorBox[ERROR_CODE] = code
-                if self.transport is not None:
+                if self._canAnswer():
                     errorBox.sendTo(self)
                 return None # intentionally stop the error here: don't log the
                             # traceback if it's handled, do log it (earlier) if
@@ -787,6 +793,9 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
         self.__locked = True
 
+    def _canAnswer(self):
+        return not self.__locked and super(Juice, self)._canAnswer()
+
     innerProtocol = None
 
     def _switchTo(self, newProto, clientFactory=None):
@@ -796,6 +805,7 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
 
         assert self.innerProtocol is None, "Protocol can only be safely switched once."
+        self._lock()
         self.setRawMode()
         self.innerProtocol = newProto
         self.innerProtocolClientFactory = clientFactory
-- 
2.43.0


From feabab7b79b9b78e65c941c8a00861b4901b98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:48 +0000
Subject: [PATCH 10/56] fix: connect the new protocol once when a switch
 request has a body

---
 epsilon/juice.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 650fb97..b6ddfd6 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -927,7 +927,6 @@ class Juice(LineReceiver, JuiceParserBase, object):
             b, self._pendingBox = self._pendingBox, None
             self.juiceBoxReceived(b)
             if self.innerProtocol is not None:
-                self.innerProtocol.makeConnection(self.transport)
                 if extraData:
                     self.innerProtocol.dataReceived(extraData)
             else:
-- 
2.43.0


From 8191ca5fd1be6c6e728af9a425dc8971bb0a412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:28 +0000
Subject: [PATCH 11/56] fix: do not switch protocols or start TLS on a Juice
 connection already lost

---
 epsilon/juice.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index b6ddfd6..9a39c09 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -794,7 +794,10 @@ class Juice(LineReceiver, JuiceParserBase, object):
         self.__locked = True
 
     def _canAnswer(self):
-        return not self.__locked and super(Juice, self)._canAnswer()
+        if self.__locked or self._outstandingRequests is None:
+            # The connection is someone else's now, or it is gone.
+            return False
+        return super(Juice, self)._canAnswer()
 
     innerProtocol = None
 
-- 
2.43.0


From 143dc1441d78a7f6aa37afb8e7d7d7ed21b45c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:13 +0000
Subject: [PATCH 12/56] fix: do not drop the boxes held back for TLS when
 prepareTLS is called again

---
 epsilon/juice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 9a39c09..60abcc9 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -859,7 +859,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
     _startingTLSBuffer = None
 
     def prepareTLS(self):
-        self._startingTLSBuffer = []
+        if self._startingTLSBuffer is None:
+            self._startingTLSBuffer = []
 
     def startTLS(self, certificate, *verifyAuthorities):
         if self.hostCertificate is None:
-- 
2.43.0


From cee51b8ef70b326ce54f7c2019d428b39fe7b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 13/56] fix: log an avatar out at once when its AMP connection
 is lost or already serves another

---
 epsilon/ampauth.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index ad0a3bb..1d4887d 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -175,6 +175,7 @@ class CredReceiver(AMP):
     """
     portal = None
     logout = None
+    _connectionLost = False
 
     @PasswordLogin.responder
     def passwordLogin(self, username):
@@ -193,6 +194,12 @@ class CredReceiver(AMP):
         d = self.portal.login(credentials, None, IBoxReceiver)
         def cbLoggedIn(result):
             interface, avatar, logout = result
+            if self._connectionLost or self.logout is not None:
+                # There is nobody left to serve, or somebody is being served
+                # already: nothing else would ever log this avatar out.
+                logout()
+                raise UnauthorizedLogin(
+                    'Connection lost or already authenticated')
             self.logout = logout
             self.boxReceiver = avatar
             self.boxReceiver.startReceivingBoxes(self.boxSender)
@@ -222,6 +229,7 @@ class CredReceiver(AMP):
         """
         If a login has happened, perform a logout.
         """
+        self._connectionLost = True
         AMP.connectionLost(self, reason)
         if self.logout is not None:
             self.logout()
-- 
2.43.0


From 8920f77b04eec1db3f570b3051cfd897bddaba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 14/56] fix: log an avatar out even if it fails to stop
 receiving boxes

---
 epsilon/ampauth.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/epsilon/ampauth.py b/epsilon/ampauth.py
index 1d4887d..1a402d3 100644
--- a/epsilon/ampauth.py
+++ b/epsilon/ampauth.py
@@ -230,10 +230,12 @@ class CredReceiver(AMP):
         If a login has happened, perform a logout.
         """
         self._connectionLost = True
-        AMP.connectionLost(self, reason)
-        if self.logout is not None:
-            self.logout()
-            self.boxReceiver = self.logout = None
+        try:
+            AMP.connectionLost(self, reason)
+        finally:
+            if self.logout is not None:
+                self.logout()
+                self.boxReceiver = self.logout = None
 
 
 
-- 
2.43.0


From 0f90f59292f6ce501c258639075f8ca25e635e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:57 +0000
Subject: [PATCH 15/56] fix: route real AMP boxes, whose keys and values are
 bytes, on Python 3

---
 epsilon/amprouter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index dbb9f18..2f2dba1 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -9,12 +9,12 @@ multiple L{IBoxReceiver}/I{IBoxSender} pairs over a single L{AMP} connection.
 from itertools import count
 
 import six
-from twisted.protocols.amp import IBoxReceiver, IBoxSender
+from twisted.protocols.amp import AmpBox, IBoxReceiver, IBoxSender
 from zope.interface import implementer
 
 from epsilon.structlike import record
 
-_ROUTE = '_route'
+_ROUTE = b'_route'
 _unspecified = object()
 
 
@@ -89,7 +89,11 @@ class Route(record('router receiver localRouteName remoteRouteName',
         if self.remoteRouteName is _unspecified:
             raise RouteNotConnected()
         if self.remoteRouteName is not None:
-            box[_ROUTE] = self.remoteRouteName
+            routeName = self.remoteRouteName
+            if isinstance(box, AmpBox):
+                # Real AMP boxes can only contain bytes.
+                routeName = routeName.encode('utf-8')
+            box[_ROUTE] = routeName
         self.router._sender.sendBox(box)
 
 
@@ -186,6 +190,8 @@ class Router:
         indicated by the box, or handle it directly if there is no route.
         """
         route = box.pop(_ROUTE, None)
+        if isinstance(route, bytes):
+            route = route.decode('utf-8')
         self._routes[route].receiver.ampBoxReceived(box)
 
 
-- 
2.43.0


From d767f72dd67236db7bdca2739f03da9fdf39ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:37 +0000
Subject: [PATCH 16/56] fix: never choose a route identifier that is already
 bound

---
 epsilon/amprouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 2f2dba1..084543c 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -142,7 +142,11 @@ class Router:
 
         @rtype: C{unicode}
         """
-        return six.text_type(next(self._routeCounter))
+        mapping = self._unstarted if self._routes is None else self._routes
+        while True:
+            identifier = six.text_type(next(self._routeCounter))
+            if not mapping or identifier not in mapping:
+                return identifier
 
 
     def bindRoute(self, receiver, routeName=_unspecified):
-- 
2.43.0


From d92d4a1a71d418f27e592856fdcc4574ee94411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:37 +0000
Subject: [PATCH 17/56] fix: allow a route to be unbound before its router is
 started and after it is stopped

---
 epsilon/amprouter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 084543c..38e1638 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -65,7 +65,10 @@ class Route(record('router receiver localRouteName remoteRouteName',
         """
         Remove the association between this route and its router.
         """
-        del self.router._routes[self.localRouteName]
+        # The router may not have been started yet or may have been stopped.
+        for mapping in (self.router._unstarted, self.router._routes):
+            if mapping and mapping.get(self.localRouteName) is self:
+                del mapping[self.localRouteName]
 
 
     def start(self):
-- 
2.43.0


From 800deebe5b9e11569cdd4053771ca81ae353ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:37 +0000
Subject: [PATCH 18/56] fix: let receivers bind and unbind routes while the
 router starts or stops them

---
 epsilon/amprouter.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 38e1638..24cdea6 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -176,19 +176,29 @@ class Router:
         return route
 
 
+    def _isBound(self, route):
+        """
+        Is the given route bound?  Receivers may bind and unbind routes while
+        they are being started or stopped.
+        """
+        return self._routes.get(route.localRouteName) is route
+
+
     def startReceivingBoxes(self, sender):
         """
         Initialize route tracking objects.
         """
         self._sender = sender
-        for routeName, route in six.viewitems(self._unstarted):
-            # Any route which has been bound but which does not yet have a
-            # remote route name should not yet be started.  These will be
-            # started in Route.connectTo.
-            if route.remoteRouteName is not _unspecified:
-                route.start()
         self._routes = self._unstarted
         self._unstarted = None
+        # Any route which has been bound but which does not yet have a remote
+        # route name should not yet be started.  These will be started in
+        # Route.connectTo.
+        connected = [route for route in six.itervalues(self._routes)
+                     if route.remoteRouteName is not _unspecified]
+        for route in connected:
+            if self._isBound(route):
+                route.start()
 
 
     def ampBoxReceived(self, box):
@@ -206,8 +216,9 @@ class Router:
         """
         Stop all the L{IBoxReceiver}s which have been added to this router.
         """
-        for routeName, route in six.viewitems(self._routes):
-            route.stop(reason)
+        for route in list(six.itervalues(self._routes)):
+            if self._isBound(route):
+                route.stop(reason)
         self._routes = None
 
 
-- 
2.43.0


From d7d90bb14f2c086e518f244950e375fce1252e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 19/56] fix: react no longer logs an error when the reactor is
 already being stopped

---
 epsilon/react.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/epsilon/react.py b/epsilon/react.py
index e6bfed3..487410c 100644
--- a/epsilon/react.py
+++ b/epsilon/react.py
@@ -5,6 +5,7 @@
 Utilities for running the reactor for a while.
 """
 
+from twisted.internet.error import ReactorNotRunning
 from twisted.python.log import err
 
 
@@ -26,9 +27,15 @@ def react(reactor, main, argv):
     reactor.addSystemEventTrigger('before', 'shutdown', stopping.append, True)
     finished = main(reactor, *argv)
     finished.addErrback(err, "main function encountered error")
+    def stop():
+        try:
+            reactor.stop()
+        except ReactorNotRunning:
+            # Someone else stopped it, but it has not begun to shut down yet.
+            pass
     def cbFinish(ignored):
         if not stopping:
-            reactor.callWhenRunning(reactor.stop)
+            reactor.callWhenRunning(stop)
     finished.addCallback(cbFinish)
     reactor.run()
 
-- 
2.43.0


From 0c7bd7cb7836c742ff0f9c3c8f400ecb7756ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:41 +0000
Subject: [PATCH 20/56] fix: let a SchedulingService say whether it is running

---
 epsilon/cooperator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index a6b6113..8b3f2e0 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -22,9 +22,11 @@ class SchedulingService(Service):
         return self.coop.coiterate(iterator)
 
     def startService(self):
+        Service.startService(self)
         self.coop.start()
 
     def stopService(self):
+        Service.stopService(self)
         self.coop.stop()
 
 __all__ = [
-- 
2.43.0


From 4d38c0637b324deac04084c857e0511e94c2cd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:51 +0000
Subject: [PATCH 21/56] fix: report to every pending iterator when a
 SchedulingService is stopped

---
 epsilon/cooperator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/epsilon/cooperator.py b/epsilon/cooperator.py
index 8b3f2e0..c8f4bc4 100644
--- a/epsilon/cooperator.py
+++ b/epsilon/cooperator.py
@@ -17,9 +17,13 @@ class SchedulingService(Service):
     """
     def __init__(self):
         self.coop = Cooperator(started=False)
+        self._tasks = []
 
     def addIterator(self, iterator):
-        return self.coop.coiterate(iterator)
+        task = self.coop.cooperate(iterator)
+        self._tasks.append(task)
+        task.whenDone().addBoth(lambda ignored: self._tasks.remove(task))
+        return task.whenDone()
 
     def startService(self):
         Service.startService(self)
@@ -27,7 +31,14 @@ class SchedulingService(Service):
 
     def stopService(self):
         Service.stopService(self)
+        # Cooperator.stop skips every other task it still has to run, so give
+        # it none, and let each find out by itself that it has been stopped.
+        tasks = self._tasks[:]
+        for task in tasks:
+            task.pause()
         self.coop.stop()
+        for task in tasks:
+            task.resume()
 
 __all__ = [
     'SchedulerStopped', 'Cooperator',
-- 
2.43.0


From e52c84f9bb24c272c99ba983c5350f63654c5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:16 +0000
Subject: [PATCH 22/56] fix: report the end of a benchmarked process even if
 its statistics cannot be read

---
 epsilon/scripts/benchmark.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 1b28212..24d5154 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -278,7 +278,13 @@ class BenchmarkProcess(BasicProcess):
 
 
     def processEnded(self, reason):
-        self.overallChange.stop(self.path, self.disk, self.partition)
+        try:
+            self.overallChange.stop(self.path, self.disk, self.partition)
+        except Exception:
+            # Without its statistics even a process which ended well is a
+            # failure.
+            if reason.check(error.ProcessDone):
+                reason = failure.Failure()
         return BasicProcess.processEnded(self, reason)
 
 
-- 
2.43.0


From 2b7a76253a1c1b9346c5d97dd6656edea3a1d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 23/56] fix: exchange bytes on the benchmark back-channel, as
 pipes carry them

---
 epsilon/scripts/benchmark.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 24d5154..725501d 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -11,6 +11,7 @@ import os, time, sys, socket, io, pprint, errno
 import six
 import twisted
 from twisted.python import log, filepath, failure, util
+from twisted.python.compat import iterbytes
 from twisted.internet import reactor, protocol, error, defer
 from twisted.protocols import policies
 
@@ -230,8 +231,8 @@ class Change(object):
 
 class BenchmarkProcess(BasicProcess):
 
-    START = '\0'
-    STOP = '\1'
+    START = b'\0'
+    STOP = b'\1'
 
 
     def __init__(self, *a, **kw):
@@ -266,7 +267,7 @@ class BenchmarkProcess(BasicProcess):
     def childDataReceived(self, childFD, data):
         if childFD == self.BACKCHANNEL_OUT:
             self.resetTimeout()
-            for byte in data:
+            for byte in iterbytes(data):
                 if byte == self.START:
                     self.startTiming()
                 elif byte == self.STOP:
-- 
2.43.0


From ea92e1aa0cf49f526458eac107df85bb7656687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 24/56] fix: send SIGQUIT by number, Twisted does not know it
 by name

---
 epsilon/scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 725501d..b979210 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, time, sys, socket, io, pprint, errno
+import os, time, sys, socket, io, pprint, errno, signal
 
 import six
 import twisted
@@ -273,7 +273,7 @@ class BenchmarkProcess(BasicProcess):
                 elif byte == self.STOP:
                     self.stopTiming()
                 else:
-                    self.transport.signalProcess('QUIT')
+                    self.transport.signalProcess(signal.SIGQUIT)
         else:
             return BasicProcess.childDataReceived(self, childFD, data)
 
-- 
2.43.0


From 97c563be0bdc096d24b2627798954419ba611e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:39 +0000
Subject: [PATCH 25/56] fix: do not blame an idle timeout for the end of a
 process that had already exited

---
 epsilon/scripts/benchmark.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index b979210..30ce7ae 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -132,7 +132,11 @@ class BasicProcess(protocol.ProcessProtocol, policies.TimeoutMixin):
 
     def timeoutConnection(self):
         self.timedOut = True
-        self.transport.signalProcess('KILL')
+        try:
+            self.transport.signalProcess('KILL')
+        except error.ProcessExitedAlready:
+            # It is over; processEnded is about to tell how it went.
+            self.timedOut = False
 
 
     def childDataReceived(self, childFD, data):
-- 
2.43.0


From cfba5c2b380d7526e4d63aadc26a18be371336d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:17 +0000
Subject: [PATCH 26/56] fix: measure the benchmark directory itself anew each
 time

---
 epsilon/scripts/benchmark.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 30ce7ae..34c62fd 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -450,6 +450,8 @@ def getSize(p):
     @type p: L{twisted.python.filepath.FilePath}
     @return: The size, in bytes, of the given path and all its children.
     """
+    # Do not trust what p remembers from the last time it was looked at.
+    p.changed()
     return sum(getOneSize(ch) for ch in p.walk())
 
 
-- 
2.43.0


From c26cf1c067a48822fa04d16a9aa7de00b42594de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:52 +0000
Subject: [PATCH 27/56] fix: format results when disk statistics were not
 available at the start

---
 epsilon/scripts/benchmark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 34c62fd..f73fea1 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -373,7 +373,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
         tt = utils.FileWrapper(output)
         jj.makeConnection(tt)
 
-        if after.partition is not None:
+        if None not in (before.partition, after.partition):
             read_count = after.partition.readCount - before.partition.readCount
             read_sectors = after.partition.readSectorCount - before.partition.readSectorCount
             write_count = after.partition.writeCount - before.partition.writeCount
@@ -384,7 +384,7 @@ def formatResults(name, sectorSize, before, after, error, timeout):
             write_count = None
             write_sectors = None
 
-        if after.disk is not None:
+        if None not in (before.disk, after.disk):
             read_ms = after.disk.readMilliseconds - before.disk.readMilliseconds
             write_ms = after.disk.writeMilliseconds - before.disk.writeMilliseconds
         else:
-- 
2.43.0


From b1c5e7967f18b05ef37a6461c2682b103f277176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:47 +0000
Subject: [PATCH 28/56] fix: understand times from 12:00 pm to 12:59 pm

---
 epsilon/extime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/extime.py b/epsilon/extime.py
index 33b7103..34e1723 100644
--- a/epsilon/extime.py
+++ b/epsilon/extime.py
@@ -230,7 +230,7 @@ class Time(object):
                 raise ValueError('hour %i is not in 1..12' % (hour,))
             if hour == 12 and ampm == 'am':
                 hour = 0
-            elif ampm == 'pm':
+            elif hour != 12 and ampm == 'pm':
                 hour += 12
         if not 0 <= hour <= 23:
             raise ValueError('hour %i is not in 0..23' % (hour,))
-- 
2.43.0


From 19daa630fc1c735246710847cd5420ff0c231365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:41 +0000
Subject: [PATCH 29/56] fix: do not leave the name of another route in a box
 sent to the default route

---
 epsilon/amprouter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/epsilon/amprouter.py b/epsilon/amprouter.py
index 24cdea6..a6f747a 100644
--- a/epsilon/amprouter.py
+++ b/epsilon/amprouter.py
@@ -97,6 +97,9 @@ class Route(record('router receiver localRouteName remoteRouteName',
                 # Real AMP boxes can only contain bytes.
                 routeName = routeName.encode('utf-8')
             box[_ROUTE] = routeName
+        else:
+            # The box may have been sent through another route before.
+            box.pop(_ROUTE, None)
         self.router._sender.sendBox(box)
 
 
-- 
2.43.0


From 5e0cdacec935810c5593376e838752d3574eccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 30/56] fix: find a benchmark script named by a relative path

The child process runs in a directory of its own, where a relative
file name does not lead to the script.
---
 epsilon/scripts/benchmark.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index f73fea1..f3e6235 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -584,7 +584,9 @@ def main():
     name = sys.argv[1]
     path = filepath.FilePath('.stat').temporarySibling()
     path.makedirs()
-    func = makeBenchmarkRunner(path, sys.argv[1:])
+    # The child runs in a different directory, so name the script absolutely.
+    script = filepath.FilePath(name).path
+    func = makeBenchmarkRunner(path, [script] + sys.argv[2:])
     try:
         bench(name, path, func)
     finally:
-- 
2.43.0


From c0af4d03b1bcf64053d1ccc3af13fd56e8bd37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 31/56] fix: prefer the device mounted last among those mounted
 on one directory

Which of their names sorts last says nothing; with rootfs and a real
device both mounted on / it was rootfs.
---
 epsilon/scripts/benchmark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index f3e6235..30f979d 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -437,7 +437,8 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
             parts = L.split()
             if cwd.startswith(parts[1]):
                 possibilities.append((len(parts[1]), parts[0]))
-    possibilities.sort()
+    # Of several devices mounted on the same directory the last one counts.
+    possibilities.sort(key=lambda possibility: possibility[0])
     try:
         return possibilities[-1][-1]
     except IndexError:
-- 
2.43.0


From f0076f027db1c858f58badf20fc204951d4173f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 32/56] fix: do not take a mount point for a parent of a
 directory which only starts alike

/home does not contain /home2.
---
 epsilon/scripts/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index 30f979d..b26385d 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -435,7 +435,7 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if cwd.startswith(parts[1]):
+            if (cwd + '/').startswith(parts[1].rstrip('/') + '/'):
                 possibilities.append((len(parts[1]), parts[0]))
     # Of several devices mounted on the same directory the last one counts.
     possibilities.sort(key=lambda possibility: possibility[0])
-- 
2.43.0


From a2371c8d2f0233ae3b5db88314e7a87fa7d1b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 33/56] fix: find the device of a directory whose mount point
 has a blank in its name

/proc/self/mounts writes white space and backslashes as octal escapes.
---
 epsilon/scripts/benchmark.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/epsilon/scripts/benchmark.py b/epsilon/scripts/benchmark.py
index b26385d..9ddf70c 100644
--- a/epsilon/scripts/benchmark.py
+++ b/epsilon/scripts/benchmark.py
@@ -6,7 +6,7 @@ usage information and other statistics about it.
 """
 from __future__ import print_function
 
-import os, time, sys, socket, io, pprint, errno, signal
+import os, time, sys, socket, io, pprint, errno, signal, re
 
 import six
 import twisted
@@ -435,8 +435,11 @@ def discoverCurrentWorkingDevice(procMounts='/proc/self/mounts'):
     with io.open(procMounts, 'r') as f:
         for L in f:
             parts = L.split()
-            if (cwd + '/').startswith(parts[1].rstrip('/') + '/'):
-                possibilities.append((len(parts[1]), parts[0]))
+            # White space and backslashes are written as octal escapes.
+            mountPoint = re.sub(
+                r'\\([0-7]{3})', lambda m: chr(int(m.group(1), 8)), parts[1])
+            if (cwd + '/').startswith(mountPoint.rstrip('/') + '/'):
+                possibilities.append((len(mountPoint), parts[0]))
     # Of several devices mounted on the same directory the last one counts.
     possibilities.sort(key=lambda possibility: possibility[0])
     try:
-- 
2.43.0


From a82d50aed7681500b6fdc4cfa622a80affb3edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:30 +0000
Subject: [PATCH 34/56] fix: send a protocol switch command in the namespace it
 is asked for

ProtocolSwitchCommand.do() accepted a namespace and ignored it, so the request
was always dispatched in the default namespace.
---
 epsilon/juice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 60abcc9..974f761 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -713,7 +713,7 @@ class ProtocolSwitchCommand(Command):
     makeResponse = classmethod(makeResponse)
 
     def do(self, proto, namespace=None):
-        d = super(ProtocolSwitchCommand, self).do(proto)
+        d = super(ProtocolSwitchCommand, self).do(proto, namespace)
         proto._lock()
         def switchNow(ign):
             innerProto = self.protoToSwitchToFactory.buildProtocol(proto.transport.getPeer())
-- 
2.43.0


From 3c2bcc154e28daf6812a81a3c10754ed9dfae73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:00 +0000
Subject: [PATCH 35/56] fix: let the Spewer print arguments on Python 3

dict.iteritems() is gone; the exception was raised into the traced program.
---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f11d032..0c88f98 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -66,7 +66,7 @@ def extractArgs(frame):
 
 
 def formatArgs(args):
-    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.iteritems()])
+    return ', '.join(['='.join((k, reflect.safe_repr(v))) for (k, v) in args.items()])
 
 
 class Spewer(Tracer):
-- 
2.43.0


From 0875c24391e651bbad782677796e2b29a4abdc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:03 +0000
Subject: [PATCH 36/56] fix: make Tracer.uninstall work

It called threading.setttrace, which does not exist.
---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 0c88f98..f569c77 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -22,7 +22,7 @@ class Tracer(object):
     def uninstall(self):
         self.installed = False
         sys.settrace(None)
-        threading.setttrace(None)
+        threading.settrace(None)
 
     def toggle(self):
         if self.installed:
-- 
2.43.0


From 0c49c7111ff64a13b529dfaf3f1613d4296f4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:05 +0000
Subject: [PATCH 37/56] fix: keep the Spewer's indentation right across
 exceptions

A call that ends with an exception is reported as an exception and then as a
return (and one that catches it goes on), so the depth must only be decreased
by the return.
---
 epsilon/spewer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index f569c77..09932e7 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -105,7 +105,6 @@ class Spewer(Tracer):
             id(threading.currentThread()),
             self.callDepth * ' ',
             reflect.safe_repr(arg),))
-        self.callDepth = max(0, self.callDepth - 1)
 
 
 class SignalService(service.Service):
-- 
2.43.0


From 84e4a4c2aba431be0dc427f540ae2ab6b6fa36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:12 +0000
Subject: [PATCH 38/56] fix: show every argument of functions with keyword-only
 arguments

Those come before *args and **kw in co_varnames.
---
 epsilon/spewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/spewer.py b/epsilon/spewer.py
index 09932e7..41caffa 100644
--- a/epsilon/spewer.py
+++ b/epsilon/spewer.py
@@ -55,7 +55,7 @@ class Tracer(object):
 def extractArgs(frame):
     co = frame.f_code
     dict = frame.f_locals
-    n = co.co_argcount
+    n = co.co_argcount + getattr(co, 'co_kwonlyargcount', 0)
     if co.co_flags & 4: n = n+1
     if co.co_flags & 8: n = n+1
     result = {}
-- 
2.43.0


From c5ba0f566bdcad2481f7447480c14295864c822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:21 +0000
Subject: [PATCH 39/56] fix: let asplode write its files on Python 3

There is no file() any more, and the lines are text.
---
 epsilon/asplode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/asplode.py b/epsilon/asplode.py
index f04e56a..4a27211 100644
--- a/epsilon/asplode.py
+++ b/epsilon/asplode.py
@@ -21,7 +21,7 @@ def splode(linerator, proj, capproj):
                 os.makedirs(os.path.dirname(fname))
             except:
                 pass
-            current = file(fname, 'wb')
+            current = open(fname, 'w')
             status('Created: ' + fname)
         else:
             current.write(line)
-- 
2.43.0


From b2db353094bdd888948058270df1c243ea1d41ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:31 +0000
Subject: [PATCH 40/56] fix: let asplode be interrupted while it makes a
 directory

---
 epsilon/asplode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/asplode.py b/epsilon/asplode.py
index 4a27211..7b1fa08 100644
--- a/epsilon/asplode.py
+++ b/epsilon/asplode.py
@@ -19,7 +19,7 @@ def splode(linerator, proj, capproj):
                 current.close()
             try:
                 os.makedirs(os.path.dirname(fname))
-            except:
+            except OSError:
                 pass
             current = open(fname, 'w')
             status('Created: ' + fname)
-- 
2.43.0


From da40931ef12915d32b94ac6a3dd0202772e5a6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:15 +0000
Subject: [PATCH 41/56] fix: juice: what is held back while TLS starts is the
 box as it was sent

A box used for another command in the meantime went out with the contents of
the later one, twice under the same tag.
---
 epsilon/juice.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 974f761..6fdba38 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -831,7 +831,11 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
         assert not self.__locked, "You cannot send juice packets when a connection is locked"
         if self._startingTLSBuffer is not None:
-            self._startingTLSBuffer.append(completeBox)
+            # What the box holds now is to be sent, whatever it is used for
+            # later.
+            held = JuiceBox()
+            held.update(completeBox)
+            self._startingTLSBuffer.append(held)
         else:
             if debug:
                 log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
-- 
2.43.0


From 00c3c964fc4ac5ec520a2b6d570f7772bff021df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:03 +0000
Subject: [PATCH 42/56] fix: agree on one value for a remembered attribute,
 None included

Two threads which ask for it first at the same time got a value each, of
which only one was remembered.  None was not remembered at all.
---
 epsilon/remember.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index 148c670..1ac0516 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -27,12 +27,11 @@ class remembered(record('creationFunction')):
         C{creationFunction} to create it.
         """
         remembername = "_remembered_" + self.creationFunction.__name__
-        rememberedval = oself.__dict__.get(remembername, None)
-        if rememberedval is not None:
-            return rememberedval
-        rememberme = self.creationFunction(oself)
-        oself.__dict__[remembername] = rememberme
-        return rememberme
+        if remembername not in oself.__dict__:
+            rememberme = self.creationFunction(oself)
+            # Another thread may have been faster.
+            oself.__dict__.setdefault(remembername, rememberme)
+        return oself.__dict__[remembername]
 
 
 
-- 
2.43.0


From de367a69cd93e28ddccb4d17a8fc93eb9d536543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:04 +0000
Subject: [PATCH 43/56] fix: bind the mode of a modal object to the attribute
 named by modeAttribute

---
 epsilon/modal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/modal.py b/epsilon/modal.py
index bfc4cb2..84b38c5 100644
--- a/epsilon/modal.py
+++ b/epsilon/modal.py
@@ -101,7 +101,7 @@ class ModalType(type):
         # for that mode.
         implementations = {}
 
-        keepAttrs = {'mode': initialMode}
+        keepAttrs = {modeAttribute: initialMode}
         for (k, v) in six.iteritems(attrs):
             if isinstance(v, type) and issubclass(v, mode):
                 for (methName, methDef) in six.iteritems(v.__dict__):
@@ -130,6 +130,6 @@ class Modal(object):
 
     def transitionTo(self, stateName):
         self.__exit__()
-        self.mode = stateName
+        setattr(self, self.modeAttribute, stateName)
         self.__enter__()
 
-- 
2.43.0


From fdfb26aa3e5879c1cdba44985a60c82541b05ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:31 +0000
Subject: [PATCH 44/56] fix: remember overriding and overridden attributes
 apart

An attribute which uses the one it overrides got the value of that for good
when it was created.
---
 epsilon/remember.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/remember.py b/epsilon/remember.py
index 1ac0516..9c7825d 100644
--- a/epsilon/remember.py
+++ b/epsilon/remember.py
@@ -27,6 +27,10 @@ class remembered(record('creationFunction')):
         C{creationFunction} to create it.
         """
         remembername = "_remembered_" + self.creationFunction.__name__
+        # An attribute and one which it overrides are remembered apart.
+        remembername += "_%s_%s" % (
+            getattr(self.creationFunction, '__module__', None),
+            getattr(self.creationFunction, '__qualname__', None))
         if remembername not in oself.__dict__:
             rememberme = self.creationFunction(oself)
             # Another thread may have been faster.
-- 
2.43.0


From cb82dc27629ccf2cfbe745325f5cd809da8a48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:35 +0000
Subject: [PATCH 45/56] fix: juice: a switch asked for while TLS is being
 started goes out with the rest

The commands and answers held back until TLS had started were lost, because
the connection was locked by then.
---
 epsilon/juice.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 6fdba38..377aae3 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -827,7 +827,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
         """
         Send a juice.Box to my peer.
 
-        Note: transport.write is never called outside of this method.
+        Note: transport.write is never called outside of this method and
+        L{_writePacket}.
         """
         assert not self.__locked, "You cannot send juice packets when a connection is locked"
         if self._startingTLSBuffer is not None:
@@ -837,10 +838,13 @@ class Juice(LineReceiver, JuiceParserBase, object):
             held.update(completeBox)
             self._startingTLSBuffer.append(held)
         else:
-            if debug:
-                log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
-            result = completeBox.serialize()
-            self.transport.write(result)
+            self._writePacket(completeBox)
+
+    def _writePacket(self, completeBox):
+        if debug:
+            log.msg("Juice send: %s" % pprint.pformat(dict(six.viewitems(completeBox))))
+        result = completeBox.serialize()
+        self.transport.write(result)
 
     def sendCommand(self, command, __content='', __answer=True, **kw):
         box = JuiceBox(__content, **kw)
@@ -875,7 +879,8 @@ class Juice(LineReceiver, JuiceParserBase, object):
             if stlsb is not None:
                 self._startingTLSBuffer = None
                 for box in stlsb:
-                    self.sendPacket(box)
+                    # The connection may have been locked since.
+                    self._writePacket(box)
         else:
             raise RuntimeError(
                 "Previously authenticated connection between %s and %s "
-- 
2.43.0


From 55ad5644fe82bc47beebf3fdd462e0ee18c2174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:35 +0000
Subject: [PATCH 46/56] fix: juice: do not switch protocols in the clear while
 TLS is being started

The new protocol's data left in the clear, ahead of the answer which announces
it.
---
 epsilon/juice.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index 377aae3..ad6eb9f 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -134,6 +134,10 @@ class _SwitchBox(JuiceBox):
         self.innerProto = __proto
 
     def sendTo(self, proto):
+        if proto._startingTLSBuffer is not None:
+            # My peer, which waits for the switch, will not take part, and the
+            # new protocol must not go ahead without it.
+            raise RuntimeError("Cannot switch while TLS is being started")
         super(_SwitchBox, self).sendTo(proto)
         proto._switchTo(self.innerProto)
 
-- 
2.43.0


From f2f049d7634e7f16b0a9dda3767bbde92362e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:54 +0000
Subject: [PATCH 47/56] fix: a declared Juice error deriving from another
 declared one arrives as itself

---
 epsilon/juice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/epsilon/juice.py b/epsilon/juice.py
index ad6eb9f..eecbc7d 100644
--- a/epsilon/juice.py
+++ b/epsilon/juice.py
@@ -226,7 +226,9 @@ class DispatchMixin:
 #                             aCallable, result))
 #                 return result
             def checkKnownErrors(error):
-                key = error.trap(*command.allErrors)
+                # An error may be declared along with one it derives from.
+                key = error.trap(*sorted(command.allErrors, reverse=True,
+                                         key=lambda e: len(e.__mro__)))
                 code = command.allErrors[key]
                 desc = str(error.value)
                 return Failure(RemoteJuiceError(
-- 
2.43.0


From 862107f80e181a6ef6093a26c61afed5562d608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:49 +0000
Subject: [PATCH 48/56] fix: a plugin package raising a ValueError without
 arguments no longer keeps the others from being registered

---
 epsilon/setuphelper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/setuphelper.py b/epsilon/setuphelper.py
index 479e503..d16f8ac 100644
--- a/epsilon/setuphelper.py
+++ b/epsilon/setuphelper.py
@@ -13,7 +13,8 @@ def pluginModules(moduleNames):
         except ImportError:
             pass
         except ValueError as ve:
-            if ve.args[0] != 'Empty module name':
+            # It may have no arguments at all.
+            if ve.args[:1] != ('Empty module name',):
                 traceback.print_exc()
         except:
             traceback.print_exc()
-- 
2.43.0


From f9d3901c17aed64baac4a6c25cb578c7ff44ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 49/56] fix: epsilon.process can be imported on Python 3

It needed the imp module, which is gone, and zope.interface.implements, which
it did not use.
---
 epsilon/process.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 3a4c2c7..420ff2d 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -5,17 +5,37 @@
 Process and stdio related functionality.
 """
 
-import os, sys, imp
+import os, sys
 
-from zope.interface import implements
+try:
+    from importlib.util import find_spec
+except ImportError:
+    # Python 2
+    from imp import find_module
+    find_spec = None
 
 from twisted.internet import reactor
-from twisted.application.service import IService, Service
+from twisted.application.service import Service
 from twisted.internet.stdio import StandardIO
 
 from epsilon.structlike import record
 
 
+def _findPackage(name):
+    """
+    Return the paths of a package, usually one, without importing it.
+    """
+    if find_spec is None:
+        return [find_module(name)[1]]
+    spec = find_spec(name)
+    if spec is None:
+        raise ImportError("No module named %r" % (name,))
+    if spec.submodule_search_locations is None:
+        # A module, which may be one that is part of the interpreter.
+        return [spec.origin] if spec.has_location else []
+    return list(spec.submodule_search_locations)
+
+
 def spawnProcess(processProtocol, executable, args=(), env={},
                  path=None, uid=None, gid=None, usePTY=0,
                  packages=()):
@@ -31,10 +51,11 @@ def spawnProcess(processProtocol, executable, args=(), env={},
 
     pythonpath = []
     for pkg in packages:
-        p = os.path.split(imp.find_module(pkg)[1])[0]
-        if p.startswith(os.path.join(sys.prefix, 'lib')):
-            continue
-        pythonpath.append(p)
+        for location in _findPackage(pkg):
+            p = os.path.split(location)[0]
+            if p.startswith(os.path.join(sys.prefix, 'lib')):
+                continue
+            pythonpath.append(p)
     pythonpath = list(set(pythonpath))
     pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
     env['PYTHONPATH'] = os.pathsep.join(pythonpath)
-- 
2.43.0


From 474c18c5ea7652935f6bcf66c2de9059b131f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 50/56] fix: process: keep the order of the packages on a
 child's PYTHONPATH

---
 epsilon/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 420ff2d..436b45c 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -55,8 +55,8 @@ def spawnProcess(processProtocol, executable, args=(), env={},
             p = os.path.split(location)[0]
             if p.startswith(os.path.join(sys.prefix, 'lib')):
                 continue
-            pythonpath.append(p)
-    pythonpath = list(set(pythonpath))
+            if p not in pythonpath:
+                pythonpath.append(p)
     pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
     env['PYTHONPATH'] = os.pathsep.join(pythonpath)
 
-- 
2.43.0


From 2bce736028c9a615790bc1272cc85873fff1bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 51/56] fix: process: do not put the current directory on a
 child's PYTHONPATH

An empty element stands for it.
---
 epsilon/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 436b45c..1618e0b 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -57,7 +57,8 @@ def spawnProcess(processProtocol, executable, args=(), env={},
                 continue
             if p not in pythonpath:
                 pythonpath.append(p)
-    pythonpath.extend(env.get('PYTHONPATH', '').split(os.pathsep))
+    if env.get('PYTHONPATH'):
+        pythonpath.extend(env['PYTHONPATH'].split(os.pathsep))
     env['PYTHONPATH'] = os.pathsep.join(pythonpath)
 
     return reactor.spawnProcess(processProtocol, executable, args,
-- 
2.43.0


From e55191ab339911b84dc46bf0f09b38a5fef51bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 52/56] fix: process: only the interpreter's own library is
 left off PYTHONPATH

Other packages below or next to the lib directory of the prefix, such as those
in /usr/lib/something or /usr/libexec, were left out, too.
---
 epsilon/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 1618e0b..7438218 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -53,7 +53,7 @@ def spawnProcess(processProtocol, executable, args=(), env={},
     for pkg in packages:
         for location in _findPackage(pkg):
             p = os.path.split(location)[0]
-            if p.startswith(os.path.join(sys.prefix, 'lib')):
+            if p.startswith(os.path.join(sys.prefix, 'lib', 'python')):
                 continue
             if p not in pythonpath:
                 pythonpath.append(p)
-- 
2.43.0


From ea2ff647c91a467ab2e811ca4864749f82ffde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 53/56] fix: process: accept an environment of None, as
 reactor.spawnProcess does

---
 epsilon/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/process.py b/epsilon/process.py
index 7438218..a0feb10 100644
--- a/epsilon/process.py
+++ b/epsilon/process.py
@@ -47,7 +47,8 @@ def spawnProcess(processProtocol, executable, args=(), env={},
     import.
     """
 
-    env = env.copy()
+    # As for reactor.spawnProcess, None stands for our own environment.
+    env = (os.environ if env is None else env).copy()
 
     pythonpath = []
     for pkg in packages:
-- 
2.43.0


From b8c89c175432cd4e6b913bba83e6d6131f8d91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:24 +0000
Subject: [PATCH 54/56] fix: requiring deferredgenerator_tfailure does not fail
 on a Twisted without deferredGenerator

---
 epsilon/hotfix.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/epsilon/hotfix.py b/epsilon/hotfix.py
index d8ad39d..d6e6607 100644
--- a/epsilon/hotfix.py
+++ b/epsilon/hotfix.py
@@ -30,17 +30,19 @@ def require(packageName, fixName):
             delayedcall_seconds.install()
     elif (packageName, fixName) == ('twisted', 'deferredgenerator_tfailure'):
         from twisted.internet import defer
-        result = []
-        def test():
-            d = defer.waitForDeferred(defer.succeed(1))
-            yield d
-            result.append(d.getResult())
-        defer.deferredGenerator(test)()
-        if result == [1]:
-            from epsilon.hotfixes import deferredgenerator_tfailure
-            deferredgenerator_tfailure.install()
-        else:
-            assert result == [None]
+        # Twisted 21.2 took deferredGenerator away, and this problem with it.
+        if hasattr(defer, 'deferredGenerator'):
+            result = []
+            def test():
+                d = defer.waitForDeferred(defer.succeed(1))
+                yield d
+                result.append(d.getResult())
+            defer.deferredGenerator(test)()
+            if result == [1]:
+                from epsilon.hotfixes import deferredgenerator_tfailure
+                deferredgenerator_tfailure.install()
+            else:
+                assert result == [None]
     elif (packageName, fixName) == ("twisted", "proto_helpers_stringtransport"):
         from twisted.test.proto_helpers import StringTransport
         st = StringTransport()
-- 
2.43.0


From d0005fa2854fbb9d83d85c99af25af131ea751de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 55/56] fix: looking up an exposed method survives a class that
 grows meanwhile

---
 epsilon/expose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/epsilon/expose.py b/epsilon/expose.py
index 2b3ecba..5416fbf 100644
--- a/epsilon/expose.py
+++ b/epsilon/expose.py
@@ -131,7 +131,8 @@ class Exposer(object):
         T = obj.__class__
         seen = {}
         for subT in inspect.getmro(T):
-            for name, value in subT.__dict__.items():
+            # A copy, as other threads may add to the class meanwhile.
+            for name, value in list(subT.__dict__.items()):
                 for rightFunc in rightFuncs:
                     if value is rightFunc:
                         if name in seen:
-- 
2.43.0


From 12cad1f0bfdc439ed461c4ae50b83d61b608e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 56/56] fix: no exposure is lost when two threads expose under
 one key for the first time

---
 epsilon/expose.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/epsilon/expose.py b/epsilon/expose.py
index 5416fbf..d5a428f 100644
--- a/epsilon/expose.py
+++ b/epsilon/expose.py
@@ -107,9 +107,8 @@ class Exposer(object):
                     rkey = function.__name__
                 else:
                     raise NameRequired()
-            if rkey not in self._exposed:
-                self._exposed[rkey] = []
-            self._exposed[rkey].append(function)
+            # One step, as other threads may be exposing by this key as well.
+            self._exposed.setdefault(rkey, []).append(function)
             return function
         return decorator
 
-- 
2.43.0

