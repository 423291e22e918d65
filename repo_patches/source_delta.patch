From b9e80ac5d7bf866a0522943148083376e009c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 01/31] fix: find login prompt only at the start of a message,
 keep unterminated last message whole

'login: ' inside a line ('** Last login: ...') split the line in two whenever
the segment boundary fell between it and the CRLF.
---
 bglib/protocol/session.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 7be76ed..0102e19 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -97,8 +97,9 @@ class Session(Transport):
       while True:
         if not self.is_active():
           break
-        nth, matchobj, s = self.expect([CRLF, 'login: '])
-        if not nth:
+        # a prompt has no CRLF, but only a message may start with one.
+        nth, matchobj, s = self.expect(['\\Alogin: ', CRLF])
+        if nth == 1:
           s = s[:-2] # remove CRLF
         self._dispatch(self.monster.make_cookie(s), s)
     except socket.error, e:
-- 
2.43.0


From cf076ba929db2a9220734cbe7d26324734a42793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 02/31] fix: dispatch over a snapshot of subscribers

A callback that unregistered a subscriber made the next one miss the message.
---
 bglib/protocol/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 0102e19..3080507 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -117,7 +117,9 @@ class Session(Transport):
     if self._termination_requested:
       self.terminated.set()
       thread.exit()
-    for subscriber in self.subscribers:
+    for subscriber in list(self.subscribers):
+      if not [s for s in self.subscribers if s is subscriber]:
+        continue # unregistered by a callback of this message.
       try:
         f = getattr(subscriber, name)
       except AttributeError:
-- 
2.43.0


From dc9f819c5c5926ce4d0de4b05eb155f55776dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:59 +0000
Subject: [PATCH 03/31] fix: set terminated whenever the listener ends

It was set only when a message happened to arrive after close().
---
 bglib/protocol/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 3080507..c24324a 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -110,6 +110,8 @@ class Session(Transport):
       logging.exception('exception in listener thread:')
     except:
       logging.exception('exception in listener thread:')
+    finally:
+      self.terminated.set()
     thread.exit()
 
   @synchronized_with(Transport.lock)
-- 
2.43.0


From 91c84fcf001dec597bdc6311888f4554956ff68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 04/31] fix: send whole lines from the playback server

send() may take only part of a line; the rest was dropped.
---
 bglib/protocol/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/protocol/server.py b/bglib/protocol/server.py
index b1f9666..9d7e75b 100644
--- a/bglib/protocol/server.py
+++ b/bglib/protocol/server.py
@@ -17,7 +17,7 @@ def serve_forever(addr, f):
   conn, address = sock.accept()
   try:
     for line in f.readlines():
-      conn.send(line)
+      conn.sendall(line)
       time.sleep(.01)
   finally:
     sock.close()
-- 
2.43.0


From ae239653cb815e7d5b1f94e5cc1a02d6c30c1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 05/31] fix: close the playback server's socket when accepting
 fails

---
 bglib/protocol/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bglib/protocol/server.py b/bglib/protocol/server.py
index 9d7e75b..9511bd2 100644
--- a/bglib/protocol/server.py
+++ b/bglib/protocol/server.py
@@ -12,10 +12,10 @@ import select
 
 def serve_forever(addr, f):
   sock = socket.socket(socket.SO_REUSEADDR)
-  sock.bind(addr)
-  sock.listen(1)
-  conn, address = sock.accept()
   try:
+    sock.bind(addr)
+    sock.listen(1)
+    conn, address = sock.accept()
     for line in f.readlines():
       conn.sendall(line)
       time.sleep(.01)
-- 
2.43.0


From d62c83fed2dac5c6dc5470855d6a7211d9ead632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 06/31] fix: close the pipe of a trial whose fork failed

---
 bglib/doc/fuzzing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/doc/fuzzing.py b/bglib/doc/fuzzing.py
index 6dbf3b3..68b8a03 100644
--- a/bglib/doc/fuzzing.py
+++ b/bglib/doc/fuzzing.py
@@ -95,6 +95,8 @@ def fuzz_it(gklass, formatter):
     try:
       pid = os.fork()
     except OSError:
+      os.close(r)
+      os.close(w)
       time.sleep(10)
       continue
 
-- 
2.43.0


From 4bf92ea30072df06fe233dc2a6ad8a5f0b656f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 07/31] fix: do not report a failing fuzz child as timed out

The parent held the pipe's write end open, so a child that reported its own
failure and exited was waited for, reported as timed out and killed.
---
 bglib/doc/fuzzing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/fuzzing.py b/bglib/doc/fuzzing.py
index 68b8a03..6b100d5 100644
--- a/bglib/doc/fuzzing.py
+++ b/bglib/doc/fuzzing.py
@@ -101,6 +101,7 @@ def fuzz_it(gklass, formatter):
       continue
 
     if pid:
+      os.close(w) # or the end of a child that wrote nothing is not seen.
       try:
         i, o, e = select.select([r], [], [], 3)
         assert not o
@@ -113,7 +114,6 @@ def fuzz_it(gklass, formatter):
           os.kill(pid, signal.SIGKILL)
       finally:
         os.close(r)
-        os.close(w)
     else:
       try:
         ok_or_error = g.format(formatter)
-- 
2.43.0


From a4a0e932db6e7690776a13d46e1bdab2d84ab788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 08/31] fix: reap the children of the fuzz driver

---
 bglib/doc/fuzzing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/doc/fuzzing.py b/bglib/doc/fuzzing.py
index 6b100d5..fd618b6 100644
--- a/bglib/doc/fuzzing.py
+++ b/bglib/doc/fuzzing.py
@@ -114,6 +114,7 @@ def fuzz_it(gklass, formatter):
           os.kill(pid, signal.SIGKILL)
       finally:
         os.close(r)
+        os.waitpid(pid, 0)
     else:
       try:
         ok_or_error = g.format(formatter)
-- 
2.43.0


From 94e71bdb30bcf8c6d244c2c354419a087989c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 09/31] fix: close the style sheet file after loading it

---
 bglib/image/css.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bglib/image/css.py b/bglib/image/css.py
index d51848f..e7263b6 100644
--- a/bglib/image/css.py
+++ b/bglib/image/css.py
@@ -215,9 +215,12 @@ def load(css_path):
   p = bglib.image.css.CSSParser()
   rules = Binder()
   f = file(css_path)
-  for no, line in enumerate(f.readlines()):
-    r = p.rule(css_path, no + 1, line)
-    if r:
-      rules.append(r)
+  try:
+    for no, line in enumerate(f.readlines()):
+      r = p.rule(css_path, no + 1, line)
+      if r:
+        rules.append(r)
+  finally:
+    f.close()
   return rules
 
-- 
2.43.0


From c20a14314bc6e5e874df7c534643af9f89ad7ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 10/31] fix: render a preformatted block the same every time

---
 bglib/doc/bgwiki.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index c42bd5d..fd0dad8 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -96,8 +96,10 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
   def close(self):
     if self.wrapped is None:
       self.prepare_formatter()
-    self.wrapped.parse(self.buf)
-    return self.wrapped.make_html()
+    # a fresh formatter, since every rendering of the tree comes through here
+    wrapped = self.wrapped.__class__()
+    wrapped.parse(self.buf)
+    return wrapped.make_html()
 
   def set_editor(self, editor):
     self.editor = editor
-- 
2.43.0


From 545f8e621fb2591f62a113a96f1390a38ed65a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 11/31] fix: number headings above a table of contents on the
 first rendering

---
 bglib/doc/bgwiki.py  | 1 +
 bglib/doc/doctree.py | 9 +++++++++
 bglib/doc/macro.py   | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index fd0dad8..06cb3c1 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -31,6 +31,7 @@ class BaseFormatter(bglib.doc.Formatter):
   def make_html(self):
     self.editor.leave(bglib.doc.doctree.BgWikiElementRoot)
     self.editor.done()
+    self.editor.accept(bglib.doc.doctree.Preparer())
     writer = bglib.doc.doctree.HtmlWriter() # Visit
     self.editor.accept(writer)
     return writer.html()
diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 2b97462..b0bac88 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -88,6 +88,9 @@ class BgWikiElementNode(Node):
       return '</%s>\n'%self.html_element
 
 class BgWikiElementMacroNode(BgWikiElementNode):
+  def prepare(self):
+    '''called before the document it belongs to is written'''
+    pass
   def acceptables(self):
     return ()
 
@@ -389,6 +392,12 @@ class Visitor(object):
     pass
 
 
+class Preparer(Visitor):
+  def enter(self, node):
+    if isinstance(node, BgWikiElementMacroNode):
+      node.prepare()
+
+
 class DebugVisitor(Visitor):
   def __init__(self):
     self.buf = ''
diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 70de7b1..72783f2 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -151,6 +151,9 @@ class TocVisitor(bglib.doc.doctree.Visitor):
       self.fragment_count += 1
 
 class TableOfContentNode(bglib.doc.doctree.BgWikiElementMacroNode):
+  def prepare(self):
+    self.open() # numbers the headings, those before the table as well
+
   def open(self):
     editor = TocEditor()
     toc = bglib.doc.doctree.BgWikiElementRoot()
-- 
2.43.0


From 278c39756bd3e0df5bdb512a786189a0a8b70028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:14 +0000
Subject: [PATCH 12/31] fix: let the listener end although it read while
 close() was called

---
 bglib/protocol/session.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index c24324a..5e21b2a 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -64,10 +64,15 @@ class Transport(telnetlib.Telnet):
 
   @synchronized_with(lock)
   def close(self):
-    telnetlib.Telnet.close(self)
     self._active = False
     self._termination_requested = True
+    telnetlib.Telnet.close(self)
     
+  def fill_rawq(self):
+    telnetlib.Telnet.fill_rawq(self)
+    if self._termination_requested:
+      self.eof = 1 # Telnet.fill_rawq may have overwritten what close() set.
+
   @synchronized_with(lock)
   def send_line(self, line):
     logging.debug('sending %s', line)
-- 
2.43.0


From ab59a2f770e1a45812e0dedbba668426b3d812c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:38 +0000
Subject: [PATCH 13/31] fix: refuse to delete the attributes of a frozen board

---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 472c878..7ac7f8f 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -210,6 +210,9 @@ class Board(AbstractBoard):
   def __setattr__(self, name, value):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
+  def __delattr__(self, name):
+    raise TypeError('Tried to delete immutable object attr of "%s"'%(name, ))
+
   def __hash__(self):
     pass
 
-- 
2.43.0


From a830f3f188fc5cebd8d905f95411081d259c0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 14/31] fix: settle a double or a resignation only once, and
 only in a game

---
 bglib/model/board.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 7ac7f8f..bb87298 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -129,7 +129,9 @@ class AbstractBoard(object):
     return self.rolled[0] == self.rolled[1]
 
   def is_cube_take_or_pass(self, who):
-    return self.doubled and self.on_inner_action != self.on_action and \
+    return self.game_state == ON_GOING and \
+      self.resign_offer == RESIGN_NONE and \
+      self.doubled and self.on_inner_action != self.on_action and \
       self.on_inner_action == who
   
   def find_src_of_bearoff_with(self, die):
@@ -182,10 +184,12 @@ class AbstractBoard(object):
            self.match_length == MONEY_GAME 
 
   def is_leagal_to_resign(self, who):
-    return self.on_action == who and self.on_inner_action == who
+    return self.game_state == ON_GOING and \
+           self.on_action == who and self.on_inner_action == who
 
   def is_to_accept_resign(self, who):
-    return self.resign_offer in (RESIGN_SINGLE, 
+    return self.game_state == ON_GOING and \
+           self.resign_offer in (RESIGN_SINGLE, 
                                  RESIGN_GAMMON,
                                  RESIGN_BACKGAMMON
                                  ) \
-- 
2.43.0


From f94fd30274acfdff406f299480499f3b0aea7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:37 +0000
Subject: [PATCH 15/31] fix: refuse a double by the player who does not own the
 cube

---
 bglib/model/board.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index bb87298..ef22c0b 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -158,6 +158,8 @@ class AbstractBoard(object):
       return False
     if self.doubled:
       return False
+    if self.cube_owner not in (CENTER, who):
+      return False
     if self.on_action == YOU:
       if who != YOU:
         return False
-- 
2.43.0


From d9ca57e7a0c28d0d65e1908a1b47866d1d342b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:06 +0000
Subject: [PATCH 16/31] fix: refuse a double with a dead cube to either player

---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index ef22c0b..c6976c7 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -166,7 +166,7 @@ class AbstractBoard(object):
       if self.on_inner_action == YOU:
         if self.match_length == MONEY_GAME:
           return True
-        if your_score <= self.match_length - pow(2, self.cube_in_logarithm):
+        if your_score < self.match_length - pow(2, self.cube_in_logarithm):
           return True
       return False
     elif self.on_action == HIM:
-- 
2.43.0


From 57a332a5562761ed27587e0b8d133ef0b3901111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:54 +0000
Subject: [PATCH 17/31] fix: asking whether dice may be picked up leaves the
 board as it is

---
 bglib/model/move.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8907add..8ab0a4d 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -8,6 +8,7 @@
 from bglib.model.constants import *
 from bglib.model import util
 from bglib.model import *
+from bglib.model.boardeditor import BoardEditor
 
 
 class AvailableToPlay(object):
@@ -220,9 +221,9 @@ class MoveFactory(object):
       return True
             
     #rewind all moves and check for blocked moves.
-    mf = MoveFactory(self.board, self.move, self.available)
+    mf = MoveFactory(BoardEditor(self.board), self.move, self.available)
     inverses  = []
-    for pm in mf.move:
+    for pm in reversed(list(mf.move)):
       inverses.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
     for i in inverses:
       mf.append(i)
-- 
2.43.0


From a42f0401fa99515d5f4cbb56251944d96b1af90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 18/31] fix: guess moves, undoes and points on a copy of the
 board

---
 bglib/model/move.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8ab0a4d..b935aee 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -353,7 +353,7 @@ class MoveFactory(object):
     print 'guess_your_multiple_pms', src, dest
 
     if b is None:
-      b = self.board
+      b = BoardEditor(self.board)
     if available is None:
       available = AvailableToPlay(rolled=None, copy_src=self.available)
     if mv is None:
@@ -399,7 +399,7 @@ class MoveFactory(object):
 
   def guess_your_multiple_partial_undoes(self, src, dest, b=None, available=None, mv=None):
     if b is None:
-      b = self.board
+      b = BoardEditor(self.board)
     if available is None:
       available = AvailableToPlay(rolled=None, copy_src=self.available)
     if mv is None:
@@ -426,7 +426,7 @@ class MoveFactory(object):
                 (util.move_ntop(src), util.move_ntop(dest)))
 
   def guess_your_making_point(self, dest, position=None, available=None, pms=None):
-    b = self.board
+    b = BoardEditor(self.board)
     if available is None:
       available = AvailableToPlay(self.board.rolled)
     if position is None:
@@ -437,9 +437,10 @@ class MoveFactory(object):
     pm = self.guess_your_single_pm_from_dest(dest)
     if pm:
       pms.append(pm)
-      available = available.consume(pm.die)
+      available.consume(pm.die)
+      b.make_partial_move(pm)
       pm = self.guess_your_single_pm_from_dest(
-                dest, b=b.make_partial_move(pm),
+                dest, b=b,
                 available=available)
       if pm:
         pms.append(pm)
-- 
2.43.0


From bed09b2c30b9bc5472895e3a9f9815f5dd70f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:54 +0000
Subject: [PATCH 19/31] fix: a partial move refused for its die is not added to
 the move

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index b935aee..cc796bf 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -189,11 +189,11 @@ class MoveFactory(object):
 
   def append(self, pm):
     assert(isinstance(pm, PartialMove))
-    self.move.append(pm)
     if pm.is_undo():
       self.available.add(pm.die)
     else:
       self.available.consume(pm.die)
+    self.move.append(pm)
     self.board.make_partial_move(pm)
 
   def add(self, mv):
-- 
2.43.0


From 40475090d2f7f7b166cd371ecfdf2168bf0ec634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 20/31] fix: a resumed move has no dice left when all of them
 were played

---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index cc796bf..b4be4c5 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -178,7 +178,7 @@ class MoveFactory(object):
       self.move = Move(src=move)
     else:
       self.move = Move()
-    if available:
+    if available is not None:
       self.available = AvailableToPlay(copy_src=available)
     else:
       self.available = AvailableToPlay(self.board.rolled)
-- 
2.43.0


From 1f82fa22f2d3655b4c4867d99c4213cc9e3ecc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 21/31] fix: decode FIBS boards on the opponent's turn and
 after the game

---
 bglib/encoding/FIBS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 20c977e..6aa3077 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -118,10 +118,11 @@ def decode(m, s):
     m.rolled = fibs.his_dice
     m.on_action = HIM
     m.on_inner_action = HIM
-    m.game_state = bglib.model.constants.on_going
+    m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
-    m.on_action = INVALID
+    m.on_action = CENTER # nobody
+    m.on_inner_action = CENTER
     m.game_state = FINISHED
     #m.game_state = bglib.model.constants.resigned
     #ugh! There is no way to define it
-- 
2.43.0


From 1a17860722137d5e25ff0a8540f0d19b38a58f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 22/31] fix: a FIBS board without a double clears the double of
 the board before

---
 bglib/encoding/FIBS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 6aa3077..93498f6 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -128,8 +128,8 @@ def decode(m, s):
     #ugh! There is no way to define it
     #may be we need to add some thing.
 
+  m.doubled = bool(fibs.was_doubled)
   if fibs.was_doubled:
-    m.doubled = True
     if m.on_action == YOU:
       m.on_inner_action = HIM
     elif m.on_action == HIM:
-- 
2.43.0


From 0d63ca2020cf85c897d8e09a29ada1b19be9f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 23/31] fix: refuse a FIBS board cut short, instead of decoding
 a part of it

---
 bglib/encoding/FIBS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 93498f6..b7a445c 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -93,6 +93,8 @@ def decode(m, s):
   assert isinstance(m, BoardEditor)
      
   fibs = _FIBSBoardState(s)
+  if len(fibs.data) < fibs.index['redoubles'][1]:
+    raise ValueError('Incomplete FIBS board %s'%(s,))
   m.position = fibs.position()
   m.cube_in_logarithm = log(fibs.doubling_cube)
 
-- 
2.43.0


From 233f694ad9659aeec29793aa456d1a0d6a35c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 24/31] fix: what a failing fuzz child prints is lost unless
 stdout is a terminal

---
 bglib/doc/fuzzing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/doc/fuzzing.py b/bglib/doc/fuzzing.py
index fd618b6..e2ad5ba 100644
--- a/bglib/doc/fuzzing.py
+++ b/bglib/doc/fuzzing.py
@@ -92,6 +92,7 @@ def fuzz_it(gklass, formatter):
   for j in range(trials):
     g = gklass(length)
     r, w = os.pipe()
+    sys.stdout.flush() # or the child has a copy to write, too.
     try:
       pid = os.fork()
     except OSError:
@@ -121,11 +122,13 @@ def fuzz_it(gklass, formatter):
         if not ok_or_error:
           print ok_or_error.exception, ok_or_error.stacktrace
           print g
+          sys.stdout.flush() # os._exit does not.
           os._exit(1)
         ok_or_error = g.verify()
         if not ok_or_error:
           print ok_or_error.exception, ok_or_error.stacktrace
           print g
+          sys.stdout.flush() # os._exit does not.
           os._exit(1)
         os.write(w, '.')
         os._exit(0)
-- 
2.43.0


From e44c2e94bdebbba3892b44a2b6d5d4a413965b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:20 +0000
Subject: [PATCH 25/31] fix: close the style sheet file read by ElementTree.css

---
 bglib/image/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7e4647d..549532c 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -712,10 +712,13 @@ class ElementTree(object):
     p = bglib.image.css.CSSParser()
     rules = list()
     f = file(fname)
-    for no, line in enumerate(f.readlines()):
-      r = p.rule(fname, no + 1, line)
-      if r:
-        rules.append(r)
+    try:
+      for no, line in enumerate(f.readlines()):
+        r = p.rule(fname, no + 1, line)
+        if r:
+          rules.append(r)
+    finally:
+      f.close()
     def apply(path):
       for r in rules:
         r.apply(path)
-- 
2.43.0


From 4a76bd43f5d8086e8752a139a6f6941df3b0f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:45 +0000
Subject: [PATCH 26/31] fix: nori's bearoff reader never imported
 human_readable_eq, so human_readable always failed

---
 bglib/encoding/bearoff/nori.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 2f90d2b..bafed88 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -9,6 +9,7 @@ from bglib.encoding.gnubgid import decode_position
 from bglib.encoding import bearoff
 from bglib.encoding.bearoff import C, C_Hash, C_RHash, D, D_Hash
 from bglib.encoding.bearoff import count, backward
+from bglib.encoding.bearoff.trice import human_readable_eq
 
 '''
   nori's original indexing
-- 
2.43.0


From 44968a338d13346ebed595ed3f0741809fc3b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:39 +0000
Subject: [PATCH 27/31] fix: chopping a record without a match length joined a
 number to strings

---
 bglib/record/snowietxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/record/snowietxt.py b/bglib/record/snowietxt.py
index 75a81e6..a51e19a 100644
--- a/bglib/record/snowietxt.py
+++ b/bglib/record/snowietxt.py
@@ -148,7 +148,7 @@ class Validator(object):
 def chop(txt):
   assert isinstance(txt, str)
   linev = LineValidator()
-  match_length = 0
+  match_length = ''
   xs = []
   first = True
   for line in txt.splitlines(True):
-- 
2.43.0


From 450d6772696c0a254741d75ef0f6ee881f05671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:05 +0000
Subject: [PATCH 28/31] fix: position IDs of some bearing-off positions had 12
 characters instead of 14

---
 bglib/encoding/gnubgid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 752b575..243b25f 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -55,8 +55,9 @@ def seq2bytes (xs):
       count += 1
       yield byte.pack()
   if byte.count != 0:
+    count += 1
     yield byte.pad()
-  while count < 9:
+  while count < 10:
     count += 1
     yield byte.pad()
 
-- 
2.43.0


From 942177b100c3b2f35336837402be8a92b58918cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:19 +0000
Subject: [PATCH 29/31] fix: a gnubg ID that was cut off was decoded for ever
 or as another position

---
 bglib/encoding/gnubgid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 243b25f..5253ca8 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -101,6 +101,8 @@ def decode_position(s):
   """ decode tuple expression from gnubg position id """
   if '=' in s:
     raise TypeError
+  if len(s) != 14:
+    raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
   while True:
     try:
       bin = standard_b64decode(s)
@@ -199,6 +201,8 @@ def decode_match(s):
   """ decode tuple expression from gnubg position id """
   if '=' in s:
     raise TypeError
+  if len(s) != 12:
+    raise bglib.encoding.DecodeError('got bad data: %s '%(s,))
   while True:
     try:
       bin = standard_b64decode(s)
-- 
2.43.0


From 8d5f208c0d9e13e5e51bfe42bf2e5513f0a18903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:34 +0000
Subject: [PATCH 30/31] fix: a bad position ID was refused only after half of
 the board had been overwritten

---
 bglib/encoding/gnubgid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 5253ca8..4308ccd 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -245,6 +245,8 @@ def encode(model):
 def decode(model, pid, mid):
   msg = None
   mp = decode_match(mid)
+  # refuses bad data before the model is touched
+  on_action, opp = decode_position(pid)
   model.cube_in_logarithm = mp.cube_in_logarithm
   model.cube_owner = mp.cube_owner
   model.on_action = mp.on_action
@@ -271,7 +273,6 @@ def decode(model, pid, mid):
   # gnubg's view from on_action 
   # bglib's view from you
   # FIXME: what about on_inner_action?
-  on_action, opp = decode_position(pid)
   if mp.on_action == 0:#gnubg player 0 == HIM
     you = opp
     him = on_action 
-- 
2.43.0


From 5e26037758e4d45a78fff1e0935e26e46daa307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:48 +0000
Subject: [PATCH 31/31] fix: fields of a DatabaseBytesExpression could be
 deleted

---
 bglib/encoding/dbbyte.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/encoding/dbbyte.py b/bglib/encoding/dbbyte.py
index 2b8793e..377d196 100644
--- a/bglib/encoding/dbbyte.py
+++ b/bglib/encoding/dbbyte.py
@@ -88,6 +88,9 @@ class DatabaseBytesExpression(object):
   def __setattr__(self, name, value):
     raise TypeError('DatabaseBytesExpression is immutable')
 
+  def __delattr__(self, name):
+    raise TypeError('DatabaseBytesExpression is immutable')
+
   def tomodel(self):
     b = BoardEditor()
     for key in Board.defaults.keys():
-- 
2.43.0

