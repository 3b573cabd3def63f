From f58e5fe6aa8025bf57499c0419791b370ecef8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 01/58] fix: doubling needs access to the cube

is_leagal_to_double said yes to a player whose opponent owns the cube.
---
 bglib/model/board.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 472c878..d68fc68 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -156,6 +156,8 @@ class AbstractBoard(object):
       return False
     if self.doubled:
       return False
+    if self.cube_owner != CENTER and self.cube_owner != who:
+      return False
     if self.on_action == YOU:
       if who != YOU:
         return False
-- 
2.43.0


From 98ac29b56f72b4541684462cbf6c560137feee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 02/58] fix: same dead cube limit for both players in
 is_leagal_to_double

YOU could double with a cube that already covers the points needed, HIM
could not.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index d68fc68..72d8180 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -164,7 +164,7 @@ class AbstractBoard(object):
       if self.on_inner_action == YOU:
         if self.match_length == MONEY_GAME:
           return True
-        if your_score <= self.match_length - pow(2, self.cube_in_logarithm):
+        if your_score < self.match_length - pow(2, self.cube_in_logarithm):
           return True
       return False
     elif self.on_action == HIM:
-- 
2.43.0


From 16bd5c3c685c6752ee21b4123e5928269cc3df8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 03/58] fix: take doubles the cube and gives it to the taker

The double stayed pending and the cube kept its value and owner, so a later
drop or resignation was credited at the old stake.
---
 bglib/model/boardeditor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/boardeditor.py b/bglib/model/boardeditor.py
index d6f733f..0e8b92b 100644
--- a/bglib/model/boardeditor.py
+++ b/bglib/model/boardeditor.py
@@ -106,7 +106,9 @@ class BoardEditor(AbstractBoard):
   def take(self, who):
     assert self.is_cube_take_or_pass(who)
     self.on_inner_action = self.on_action
-    #self.doubled = False
+    self.doubled = False
+    self.cube_owner = who
+    self.cube_in_logarithm = self.cube_in_logarithm + 1
 
   def drop(self, who):
     assert self.is_cube_take_or_pass(who)
-- 
2.43.0


From 91494e09aaada110db44caad88bd14ddbe4f4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 04/58] fix: find_src_of_bearoff_with considers the ace point

With chequers on the ace point only, no die other than 1 found a source.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 72d8180..840d1c4 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -141,7 +141,7 @@ class AbstractBoard(object):
     for i in range(die - 1, 6):
       if self.has_chequer_to_move(i):
         return None
-    for i in range(die, 0, -1):
+    for i in range(die - 1, -1, -1):
       if self.has_chequer_to_move(i):
         return i
     return None# no chequer on board!
-- 
2.43.0


From d50f557079d9b7a363cd83b404b3506f3171aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 05/58] fix: guess_your_single_pm_from_dest stays on the board

Asking for a far destination with a big die raised IndexError.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 8907add..95e9534 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -331,7 +331,7 @@ class MoveFactory(object):
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
       if b.is_open_to_land(dest):
-        if b.has_chequer_to_move(dest + die):
+        if dest + die <= BAR and b.has_chequer_to_move(dest + die):
           return PartialMove(die, dest+die, dest, b.is_hitting_to_land(dest))
         else:
           # no source chequer, try another die.
-- 
2.43.0


From 1debb3314a99efb897345c1131d7c68b6ca30fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 06/58] fix: guess_your_single_pm_from_dest does not use up the
 caller's dice

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 95e9534..c62fcb4 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -327,6 +327,7 @@ class MoveFactory(object):
       if src is not None: # src== 0 is valid,as ace point
         return PartialMove(die, src, dest, False)
       else:
+        available = AvailableToPlay(rolled=None, copy_src=available)
         available.consume(die)
         return self.guess_your_single_pm_from_dest(dest, b, available)
     elif dest in POINTS:
-- 
2.43.0


From f35ba2812015f5a32f0e8f98865bbce3d7f1932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 07/58] fix: MoveFactory keeps an exhausted set of dice
 exhausted

An AvailableToPlay with nothing left is false, so the factory started over
with the full roll.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index c62fcb4..de676a3 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -177,7 +177,7 @@ class MoveFactory(object):
       self.move = Move(src=move)
     else:
       self.move = Move()
-    if available:
+    if available is not None:
       self.available = AvailableToPlay(copy_src=available)
     else:
       self.available = AvailableToPlay(self.board.rolled)
-- 
2.43.0


From d6ba51d91c93312f5641ef204816298805f739c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 08/58] fix: dice stay on the board while a chequer can enter
 from the bar

---
 bglib/model/move.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index de676a3..7c90b1f 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -208,6 +208,7 @@ class MoveFactory(object):
     if self.board.has_chequer_to_move(bar):
       if not self.guess_your_single_pm_from_source(bar):
         return True #dance
+      return False
 
     for pt in POINTS:
       if self.board.has_chequer_to_move(pt):
-- 
2.43.0


From ebcd11bcb5a11ae28c43c378a04e55304cdc52f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 09/58] fix: is_leagal_to_pickup_dice leaves the board alone

It took the moves back on the very board it was asked about.
---
 bglib/model/move.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 7c90b1f..15ef032 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -221,7 +221,7 @@ class MoveFactory(object):
       return True
             
     #rewind all moves and check for blocked moves.
-    mf = MoveFactory(self.board, self.move, self.available)
+    mf = MoveFactory(BoardEditor(self.board), self.move, self.available)
     inverses  = []
     for pm in mf.move:
       inverses.append(PartialMove(die=pm.die, src=pm.dest, dest=pm.src, is_hitting=pm.is_hitting))
-- 
2.43.0


From caad366d2625fd81417b4581c12e18382c065ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 10/58] fix: guess_your_multiple_partial_undoes leaves the
 board alone

---
 bglib/model/move.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 15ef032..9185bf6 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -418,7 +418,9 @@ class MoveFactory(object):
       elif inverse.dest < dest:
         b.make_partial_move(inverse)
         available.add(inverse.die)
-        return self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        mv = self.guess_your_multiple_partial_undoes(inverse.dest, dest, b, available, mv)
+        b.make_partial_move(pm)
+        return mv
       else:
         assert(inverse.dest > dest)
         return self.Error('Overrun, bad (src, dest)=(%s, %s)'%
-- 
2.43.0


From de1d25e02997914789d4816be37687fe2968ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:41 +0000
Subject: [PATCH 11/58] fix: guess_your_making_point uses each die once and
 leaves the board alone

consume and make_partial_move return None, so the second chequer was looked
for with the full roll, on the board of the question.
---
 bglib/model/move.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bglib/model/move.py b/bglib/model/move.py
index 9185bf6..d49132e 100644
--- a/bglib/model/move.py
+++ b/bglib/model/move.py
@@ -429,20 +429,22 @@ class MoveFactory(object):
                 (util.move_ntop(src), util.move_ntop(dest)))
 
   def guess_your_making_point(self, dest, position=None, available=None, pms=None):
-    b = self.board
     if available is None:
-      available = AvailableToPlay(self.board.rolled)
+      available = self.available
+    available = AvailableToPlay(copy_src=available)
     if position is None:
       position = self.board.position
     if pms is None:
       pms = []
 
-    pm = self.guess_your_single_pm_from_dest(dest)
+    pm = self.guess_your_single_pm_from_dest(dest, available=available)
     if pm:
       pms.append(pm)
-      available = available.consume(pm.die)
+      available.consume(pm.die)
+      b = BoardEditor(self.board)
+      b.make_partial_move(pm)
       pm = self.guess_your_single_pm_from_dest(
-                dest, b=b.make_partial_move(pm),
+                dest, b=b,
                 available=available)
       if pm:
         pms.append(pm)
-- 
2.43.0


From 1a96db44e66b84c646e73997a20d3c62e06f5fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:25 +0000
Subject: [PATCH 12/58] fix: a Board can be hashed

__hash__ returned None, so an immutable board could be neither a dict key nor
a set member.
---
 bglib/model/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 840d1c4..8961fb8 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -213,7 +213,7 @@ class Board(AbstractBoard):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
   def __hash__(self):
-    pass
+    return hash(tuple([getattr(self, key) for key in AbstractBoard.defaults]))
 
   def __copy__(self):
     return self #immutable
-- 
2.43.0


From 5e27ba7912e1c7500a984c2d7bd75ccdbddc199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:25 +0000
Subject: [PATCH 13/58] fix: attributes of an immutable Board cannot be deleted

---
 bglib/model/board.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bglib/model/board.py b/bglib/model/board.py
index 8961fb8..dc85ce3 100644
--- a/bglib/model/board.py
+++ b/bglib/model/board.py
@@ -212,6 +212,9 @@ class Board(AbstractBoard):
   def __setattr__(self, name, value):
     raise TypeError('Tried to mutate immutable object attr of "%s" with %s'%(name, value))
 
+  def __delattr__(self, name):
+    raise TypeError('Tried to mutate immutable object attr of "%s"'%(name, ))
+
   def __hash__(self):
     return hash(tuple([getattr(self, key) for key in AbstractBoard.defaults]))
 
-- 
2.43.0


From 0a9bd7494c66b87436c54a235bc0062c73337c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 14/58] fix: a bad score in an XGID is reported as a
 DecodeError

---
 bglib/encoding/xgid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index 007b50e..f7af650 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -115,7 +115,7 @@ def decode(model, s):
   try:
     model.score = (int(his_score), int(your_score))
   except ValueError:
-    raise bglib.encoding.DecodeError('got bad data, non interger score: %s '%(his_score, your_score,))
+    raise bglib.encoding.DecodeError('got bad data, non interger score: %s %s '%(his_score, your_score,))
 
   try:
     is_crawford_jacoby = int(is_crawford_jacoby)
-- 
2.43.0


From 3501559676d12dd703161eb1fe6a33ce931211b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 15/58] fix: XGIDs of unlimited games with Jacoby and beavers
 are accepted

---
 bglib/encoding/xgid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/xgid.py b/bglib/encoding/xgid.py
index f7af650..2082692 100644
--- a/bglib/encoding/xgid.py
+++ b/bglib/encoding/xgid.py
@@ -122,7 +122,8 @@ def decode(model, s):
   except ValueError:
     raise bglib.encoding.DecodeError('got bad data, non integer Crawford/Jacoby flag: %s '%(is_crawford_jacoby,))
 
-  if is_crawford_jacoby not in (0, 1):
+  #0 or 1 in a match, with beaver bit (2) in unlimited games.
+  if is_crawford_jacoby not in (0, 1, 2, 3):
     raise bglib.encoding.InconsistentData('bad Crawford/Jacoby flag: %d '%(is_crawford_jacoby, ))
 
 
@@ -135,6 +136,8 @@ def decode(model, s):
     model.crawford = False
     model.match_length = match_length
   elif match_length > 0:
+    if is_crawford_jacoby not in (0, 1):
+      raise bglib.encoding.InconsistentData('bad Crawford flag: %d '%(is_crawford_jacoby, ))
     model.crawford = bool(is_crawford_jacoby)
     model.match_length = match_length
   else:
-- 
2.43.0


From b7795559a58ba618c31b1e892c96bb0bfe6e51d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 16/58] fix: FIBS boards with the opponent on turn can be
 decoded

---
 bglib/encoding/FIBS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 20c977e..cc9ea8c 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -118,7 +118,7 @@ def decode(m, s):
     m.rolled = fibs.his_dice
     m.on_action = HIM
     m.on_inner_action = HIM
-    m.game_state = bglib.model.constants.on_going
+    m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
     m.on_action = INVALID
-- 
2.43.0


From 08ee58c0081a875f5582a76300c2e039e7bf9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 17/58] fix: FIBS boards of finished games can be decoded

---
 bglib/encoding/FIBS.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index cc9ea8c..7e10ec1 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -121,7 +121,6 @@ def decode(m, s):
     m.game_state = ON_GOING
   else:
     m.rolled=(0, 0)
-    m.on_action = INVALID
     m.game_state = FINISHED
     #m.game_state = bglib.model.constants.resigned
     #ugh! There is no way to define it
-- 
2.43.0


From 0fc041d4878c4800e7a1d61dfa732b3f717944a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 18/58] fix: get_taker_name finds the name of the taker

---
 bglib/encoding/FIBS.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 7e10ec1..3278fa9 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -155,15 +155,12 @@ def get_name(got):
     return None
   return got[m.start():m.end()]
 
-taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accpets")
+taker_name_expr = re.compile("(?P<name>^[a-zA-Z_<>]+) accepts")
 def get_taker_name(got):
-  m = name_expr.search(got)
+  m = taker_name_expr.search(got)
   if m is None:
     return None
-  try:
-    return got[m.start('name'):m.end('name')]
-  except IndexError:
-    return None
+  return m.group('name')
 
 def get_move(got, who):
   '''got = gBOTworldclass moves 22-off 24-off .'''
-- 
2.43.0


From 830a105813cf8ef6b0693cd06f86539242ca35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:15 +0000
Subject: [PATCH 19/58] fix: get_score gives the score as a number

---
 bglib/encoding/FIBS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 3278fa9..97b2fc1 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -185,7 +185,7 @@ def get_move(got, who):
 
 score_expr = re.compile("[0-9]+")
 def get_score(got):
-  score = score_expr.findall(got)
+  score = score_expr.findall(got)[0]
   return int(score)
 
 match_score_expr = re.compile("[0-9]+")
-- 
2.43.0


From 068f3abe3755b4543e9c43124dabbe7af08b8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 20/58] fix: positions with all fifteen chequers have an index
 that can be decoded

---
 bglib/encoding/bearoff/nori.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 2f90d2b..52003fa 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -32,7 +32,7 @@ def oneside_upto6_t2k(t):
 
 
 def oneside_upto6_k2t(n):
-  for c in range(15):
+  for c in range(16):
     if n < sigmaD[c]:
       k = 0
       xs = [0, 0, 0, 0, 0, 0]
-- 
2.43.0


From a116ba5ab5f5fadb4a398a8e84d16dd5edc8437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:55 +0000
Subject: [PATCH 21/58] fix: nori's bearoff reader can show a record

---
 bglib/encoding/bearoff/nori.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/encoding/bearoff/nori.py b/bglib/encoding/bearoff/nori.py
index 52003fa..221b04e 100644
--- a/bglib/encoding/bearoff/nori.py
+++ b/bglib/encoding/bearoff/nori.py
@@ -9,6 +9,7 @@ from bglib.encoding.gnubgid import decode_position
 from bglib.encoding import bearoff
 from bglib.encoding.bearoff import C, C_Hash, C_RHash, D, D_Hash
 from bglib.encoding.bearoff import count, backward
+from bglib.encoding.bearoff.trice import human_readable_eq
 
 '''
   nori's original indexing
-- 
2.43.0


From e3815bd9a13c97f28d96ed805b6667fa22cce722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 22/58] fix: position ids are always ten bytes long

---
 bglib/encoding/gnubgid.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/bglib/encoding/gnubgid.py b/bglib/encoding/gnubgid.py
index 752b575..c3c3bca 100644
--- a/bglib/encoding/gnubgid.py
+++ b/bglib/encoding/gnubgid.py
@@ -44,21 +44,15 @@ def seq2bytes (xs):
   0 2 3 0 ---> 0 110 1110 0 : D mapping to binary.
   and endian is little endian.
   """
-  count = 0
   byte = ByteContext()
   for x in xs:
     for i in range(0, x):
       if not byte.write(1):
-        count += 1
         yield byte.pack()
     if not byte.write(0):
-      count += 1
       yield byte.pack()
   if byte.count != 0:
     yield byte.pad()
-  while count < 9:
-    count += 1
-    yield byte.pad()
 
 
 def byts2seq(b):
@@ -84,7 +78,7 @@ def byts2seq(b):
 
 def twoside_encode(xs):
   s = list(seq2bytes( list(xs[0])+ list(xs[1])))
-  return ''.join(s)
+  return ''.join(s).ljust(10, '\x00')
 
 
 def twoside_decode(s):
-- 
2.43.0


From c347a1f2736d1a2070ea987f294ba7a3ea9dc38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 23/58] fix: text stays in order after an element that had to
 be put further up

---
 bglib/doc/doctree.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 2b97462..9f60d06 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -9,6 +9,7 @@ class Node(object):
   def __init__(self, parent):
     assert not parent or isinstance(parent, Node)
     self.parent = parent
+    self.opened_in = parent
     self.children = list()
 
   def on_enter(self, visitor):
@@ -328,12 +329,18 @@ class Editor(object):
 
   def leave(self, *klasses):
     node = self.current
-    while node:
+    while node.parent: # nothing is above the root.
       if isinstance(node, *klasses):
         self.current = node.parent
         return
       node = node.parent
-      #implicitly leaving node.
+    #implicitly left when current was put further up.
+    node = self.current.opened_in
+    while node is not self.current.parent:
+      if isinstance(node, *klasses):
+        self.current = self.current.parent
+        return
+      node = node.parent
     #assert False #ugh! No such node!
 
   def append(self, klass, **d):
@@ -343,6 +350,7 @@ class Editor(object):
     while c and not c.is_acceptable(node):
       c = c.parent
     c.append(node)
+    node.parent = c # nodes that do not accept it are left.
     self.current = c
     return node
 
-- 
2.43.0


From d3b297f9ef0e73c7764ba24e8807efdd481b7035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 24/58] fix: items without a sign may be in a list of signed
 items

---
 bglib/doc/doctree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index 9f60d06..ccf2fa6 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -158,10 +158,10 @@ class ItemizeElement(LineElement):
     
   def open(self):
     style = self.attrs['style']
-    if style is None:
+    m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
+    if style is None or m not in style:
       return '<%s>'%(self.html_element)
     else:
-      m = self.attrs.get('minus', None) or self.attrs.get('plus', None)
       return '<%s %s>'%(self.html_element, style[m])
 
 
-- 
2.43.0


From d5c451dd4028dbfd938fdfbf96d8c02d35870c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 25/58] fix: rendering a document twice does not double its
 preformatted text

---
 bglib/doc/bgwiki.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index c42bd5d..a567e12 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -96,8 +96,9 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
   def close(self):
     if self.wrapped is None:
       self.prepare_formatter()
-    self.wrapped.parse(self.buf)
-    return self.wrapped.make_html()
+    wrapped = self.wrapped.__class__() # rendering must be repeatable.
+    wrapped.parse(self.buf)
+    return wrapped.make_html()
 
   def set_editor(self, editor):
     self.editor = editor
-- 
2.43.0


From 921bca769eb5e44bf7273ff3c83018657084cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 26/58] fix: double quotes are escaped in attributes

---
 bglib/doc/doctree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index ccf2fa6..e813c7c 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -67,7 +67,7 @@ class BgWikiElementNode(Node):
       return ''
     if self.attrs:
       import bglib.doc.html as html
-      attrs = ' '.join(['%s="%s"'%(key, html.escape(item)) for key, item in self.attrs.items()])
+      attrs = ' '.join(['%s="%s"'%(key, html.escape(item).replace('"', '&quot;')) for key, item in self.attrs.items()])
       #attrs = ' '.join(['%s="%s"'%(key, item) for key, item in self.attrs.items()])
     else:
       attrs = ''
-- 
2.43.0


From 726de3053f95f739cde27d58d2756a13586fe8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 27/58] fix: urls are escaped once

---
 bglib/doc/bgwiki.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index a567e12..8cf2462 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -463,13 +463,12 @@ class LineFormatter(BaseFormatter):
 
   def _handle_pattern_auto_anchor(self, match, matchobj):
     #t = string.Template('<a class="ext-link" href="$url"><span class="icon">$url</span></a>')
-    url=bglib.doc.html.escape(match)
     editor = self.editor
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':"title"})
-    a.set_url(url)
+    a.set_url(match) # attributes are escaped when they are written.
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(match)
+    editor.append_text(bglib.doc.html.escape(match))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
@@ -490,16 +489,16 @@ class LineFormatter(BaseFormatter):
     editor = self.editor
     d = matchobj.groupdict()
     if d['disp']:
-      disp = bglib.doc.html.escape(d['disp'][1:])
+      disp = d['disp'][1:]
     else:
-      disp = bglib.doc.html.escape(d['url_1'])
+      disp = d['url_1']
     #t = string.Template('''<a class="ext-link" href="$url"><span class="icon">$disp</span></a>''')
     #return t.substitute(url=bglib.doc.html.escape(d['url_1']), disp=disp)
     a = editor.enter(bglib.doc.doctree.AnchorElement, 
                       **{'class':"ext-link", 'title':disp})
-    a.set_url("%s"%bglib.doc.html.escape(d['url_1']))
+    a.set_url("%s"%d['url_1'])
     editor.enter(bglib.doc.doctree.SpanElement, **{'class':'icon'})
-    editor.append_text(disp)
+    editor.append_text(bglib.doc.html.escape(disp))
     editor.leave(bglib.doc.doctree.SpanElement)
     editor.leave(bglib.doc.doctree.AnchorElement)
 
-- 
2.43.0


From 6d0f5aedbd3a11b224870daef9740e687e19444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:39 +0000
Subject: [PATCH 28/58] fix: text after a position is not part of the position

---
 bglib/doc/macro.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 70de7b1..3c81bd7 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -210,6 +210,7 @@ def Position(editor, args):
     return False
   editor.enter(bglib.doc.doctree.SpanElement, **{"class":"position"})
   editor.enter(bglib.doc.doctree.ImgElement, src='/image?'+urllib.urlencode(d, True))
+  editor.leave(bglib.doc.doctree.ImgElement)
   editor.leave(bglib.doc.doctree.SpanElement)
   return True
 register(Position)
-- 
2.43.0


From 7705d4a57681a9df637cbcb2851234dae98f0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 29/58] fix: a line that is not quoted ends all levels of
 citation

---
 bglib/doc/bgwiki.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 8cf2462..91f8a5f 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -218,7 +218,8 @@ class LineFormatter(BaseFormatter):
         editor.leave((bglib.doc.doctree.BlockQuoteElement, 
                       bglib.doc.doctree.DefinitionBodyElement))
       if input_line[0] not in '>':
-        editor.leave((bglib.doc.doctree.CitationElement, ))
+        while editor.ancestor(bglib.doc.doctree.CitationElement):
+          editor.leave((bglib.doc.doctree.CitationElement, ))
 
       if input_line.endswith('::'):
         self.start_definition_header()
-- 
2.43.0


From 7ae4fd0ba06a72ea5b0d57b4a894e64f4b0fdca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 30/58] fix: Position and Analysis macros without arguments are
 reported

---
 bglib/doc/macro.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 3c81bd7..f9d908d 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -188,6 +188,8 @@ _arg_pattern = re.compile(
                       )
 
 def _parse_position(s):
+  if not s:
+    return None
   matchobj = _arg_pattern.match(s)
   if not matchobj:
     return None
-- 
2.43.0


From 03401dcbae90b0775a5a199069e341af2be956fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 31/58] fix: macros can be unregistered

---
 bglib/doc/macro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index f9d908d..bb74809 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -38,7 +38,7 @@ def register(handler):
   _handlers.update({_get_name(handler):handler})
 
 def unregister(name, handler):
-  _handlers.remove(_get_name(handler))
+  del _handlers[_get_name(handler)]
 
 _db = None
 def setup(db):
-- 
2.43.0


From 9e90005621a5cd95065ca97a2380868a3ad0e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 32/58] fix: headings with markup can be in the table of
 contents

---
 bglib/doc/macro.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index bb74809..bd41dbd 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -121,19 +121,16 @@ class TocVisitor(bglib.doc.doctree.Visitor):
       editor.leave(bglib.doc.doctree.ListElement)#, style='ordered_numeric')
       self.nesting -=1
 
+  def text_of(self, node):
+      if isinstance(node, bglib.doc.doctree.Text):
+        return node.text
+      return ''.join([self.text_of(n) for n in node.children])
+
   def de_anchor(self, node, parent):
       if isinstance(node, bglib.doc.doctree.Text):
         return node
-      elif isinstance(node, bglib.doc.doctree.AnchorElement):
-        text = ''
-        for n in node.children:
-          if isinstance(n, bglib.doc.doctree.Text):
-            text += n.text
-        return bglib.doc.doctree.Text(parent, text=text)
-      else:
-        pass
-      return None
-        
+      return bglib.doc.doctree.Text(parent, text=self.text_of(node))
+
 
   def enter(self, node):
     editor = self.editor
-- 
2.43.0


From b93f6577c33504ea7263f77d66809a90d56c0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 33/58] fix: restructured text cannot include files or raw html

---
 bglib/doc/rst.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/doc/rst.py b/bglib/doc/rst.py
index 4b62029..b0b109d 100644
--- a/bglib/doc/rst.py
+++ b/bglib/doc/rst.py
@@ -41,6 +41,8 @@ class Formatter(bglib.doc.Formatter):
     """
     overrides = {'input_encoding': input_encoding,
                  'doctitle_xform': doctitle,
+                 'file_insertion_enabled': 0,
+                 'raw_enabled': 0,
                  'initial_header_level': initial_header_level}
     parts = core.publish_parts(
       source=input_string, source_path=source_path,
-- 
2.43.0


From 36433d2afc68b2c05e3837d97bc35d69de871e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 34/58] fix: raw html in markdown is escaped

---
 bglib/doc/mkdn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bglib/doc/mkdn.py b/bglib/doc/mkdn.py
index 462d5ba..6d2219f 100644
--- a/bglib/doc/mkdn.py
+++ b/bglib/doc/mkdn.py
@@ -17,9 +17,8 @@ class Formatter(bglib.doc.Formatter):
   '''
   def __init__(self):
     bglib.doc.Formatter.__init__(self)
-    self.md = markdown.Markdown()
+    self.md = markdown.Markdown(safe_mode='escape')
     #FIXME 
-    # be html Safe
     # add extension
     self.text = ''
 
-- 
2.43.0


From 6bb143561d92f52e6994e6ccf98404ea019e724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 35/58] fix: format, width and height given to a position

---
 bglib/doc/macro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index bd41dbd..9784540 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -179,9 +179,9 @@ register(TableOfContent)
 _arg_pattern = re.compile(
                       r"(?P<gnubgid>[a-zA-Z0-9/+]{14}:[a-zA-Z0-9/+]{12})"
                       r"(,[ ]*css=(?P<css>[a-zA-Z]+))?"
-                      r"(,[ ]*format(?P<format>[a-zA-Z]+))?"
-                      r"(,[ ]*width(?P<width>[0-9]+))?"
-                      r"(,[ ]*height(?P<height>[0-9]+))?"
+                      r"(,[ ]*format=(?P<format>[a-zA-Z]+))?"
+                      r"(,[ ]*width=(?P<width>[0-9]+))?"
+                      r"(,[ ]*height=(?P<height>[0-9]+))?"
                       )
 
 def _parse_position(s):
-- 
2.43.0


From 5b810af994c53dabb66d916dfaee9597c5b12a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 36/58] fix: headings above a table of contents can be reached
 from it

---
 bglib/doc/bgwiki.py  | 1 +
 bglib/doc/doctree.py | 9 +++++++++
 bglib/doc/macro.py   | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index 91f8a5f..fe706da 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -31,6 +31,7 @@ class BaseFormatter(bglib.doc.Formatter):
   def make_html(self):
     self.editor.leave(bglib.doc.doctree.BgWikiElementRoot)
     self.editor.done()
+    self.editor.accept(bglib.doc.doctree.Preparer())
     writer = bglib.doc.doctree.HtmlWriter() # Visit
     self.editor.accept(writer)
     return writer.html()
diff --git a/bglib/doc/doctree.py b/bglib/doc/doctree.py
index e813c7c..68f6a43 100644
--- a/bglib/doc/doctree.py
+++ b/bglib/doc/doctree.py
@@ -80,6 +80,9 @@ class BgWikiElementNode(Node):
         return '<%s '%self.html_element + attrs + '>\n'
       return '<%s>\n'%self.html_element
 
+  def prepare(self):
+    pass
+
   def close(self):
     if not self.html_element:
       return ''
@@ -409,6 +412,12 @@ class PrintVisitor(Visitor):
     print node
 
 
+class Preparer(Visitor):
+  '''What must be known of the whole tree before it is written.'''
+  def enter(self, node):
+    node.prepare()
+
+
 class HtmlWriter(Visitor):
   def __init__(self):
     Visitor.__init__(self)
diff --git a/bglib/doc/macro.py b/bglib/doc/macro.py
index 9784540..1614ee6 100644
--- a/bglib/doc/macro.py
+++ b/bglib/doc/macro.py
@@ -148,6 +148,9 @@ class TocVisitor(bglib.doc.doctree.Visitor):
       self.fragment_count += 1
 
 class TableOfContentNode(bglib.doc.doctree.BgWikiElementMacroNode):
+  def prepare(self):
+    self.open() # headings above it need their id, too.
+
   def open(self):
     editor = TocEditor()
     toc = bglib.doc.doctree.BgWikiElementRoot()
-- 
2.43.0


From 76944ef775a921e518a063dbe4a432c78532bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:38 +0000
Subject: [PATCH 37/58] fix: image attributes hash by their value; typo in
 BaseElement.__getattr__

---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 7e4647d..54c8df7 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -58,7 +58,7 @@ class BaseAttribute(object):
   def get(self):
     return self._value
   def __hash__(self):
-    return hash(self.value)
+    return hash(self._value)
   def __str__(self):
     return str(self.get())
   def is_match(self, value):
@@ -277,7 +277,7 @@ class BaseElement(object):
 
   def __getattr__(self, name):
     if name in self.__dict__:
-      return self.__dict__[nane]
+      return self.__dict__[name]
     if name in self.DTD_ATTLIST:
       a = self.attributes.get(name, None)
       if a:
-- 
2.43.0


From 9bc2070ecf197ddfcd1fe8e354f0155795727456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:38 +0000
Subject: [PATCH 38/58] fix: FIBS.get_move imports what it uses

---
 bglib/encoding/FIBS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 97b2fc1..55e8186 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -6,6 +6,8 @@
 #
 import re
 
+import bglib.model.move
+import bglib.model.util
 from bglib.model import BoardEditor
 from bglib.model.constants import *
 
-- 
2.43.0


From 3754affeffce201560d831059b8eb46b17ed9c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:38 +0000
Subject: [PATCH 39/58] fix: networkplayer imports re

---
 bglib/protocol/networkplayer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/protocol/networkplayer.py b/bglib/protocol/networkplayer.py
index bb935b5..d7e75e1 100644
--- a/bglib/protocol/networkplayer.py
+++ b/bglib/protocol/networkplayer.py
@@ -4,6 +4,7 @@ import socket
 import select
 import time
 import os
+import re
 import wx
 
 
-- 
2.43.0


From 77843f5187be9e96d3b012799de5b4135a5168f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:24 +0000
Subject: [PATCH 40/58] fix: FIBS.get_move names the players as the model does

---
 bglib/encoding/FIBS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 55e8186..67c3d19 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -172,11 +172,11 @@ def get_move(got, who):
     is_hitting = dest.endswith('*')
     if is_hitting:
       dest = dest[:-1]
-    if who == bglib.model.constants.you:
+    if who == YOU:
       src = bglib.model.util.move_pton(src)
       dest = bglib.model.util.move_pton(dest)
       pm = bglib.model.move.PartialMove(src-dest, src, dest, is_hitting)
-    elif who == bglib.model.constants.him:
+    elif who == HIM:
       src = bglib.model.util.move_pton(src)
       dest = bglib.model.util.move_pton(dest)
       pm = bglib.model.move.PartialMove(dest-src, src, dest, is_hitting)
-- 
2.43.0


From 0d899b8903d23879c7bfad60bcc95ee3b887c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:24 +0000
Subject: [PATCH 41/58] fix: image demonstrations draw a Board

---
 bglib/image/PIL.py  | 2 +-
 bglib/image/draw.py | 2 +-
 bglib/image/wx2.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bglib/image/PIL.py b/bglib/image/PIL.py
index e4218a6..eea7a03 100644
--- a/bglib/image/PIL.py
+++ b/bglib/image/PIL.py
@@ -113,7 +113,7 @@ class Draw(bglib.image.draw.Draw):
 if __name__ == '__main__':
   import bglib.model.board
   from bglib.image.css import load
-  b = bglib.model.board.board()
+  b = bglib.model.board.Board()
   b.flip()
   d = Draw(load("./bglib/image/resource/nature/default.css"))
   image = d.draw(b, (400, 400))
diff --git a/bglib/image/draw.py b/bglib/image/draw.py
index a3361d9..eec61a4 100644
--- a/bglib/image/draw.py
+++ b/bglib/image/draw.py
@@ -84,7 +84,7 @@ if __name__ == '__main__':
   import logging
   import bglib.model.board
   import bglib.image.base
-  b = bglib.model.board.board()
+  b = bglib.model.board.Board()
   #d = Draw(bglib.image.css.load("./bglib/image/resource/safari/default.css"))
   #d = Draw(bglib.image.css.load("./bglib/image/resource/minimal/default.css"))
   d = Draw(bglib.image.css.load("./bglib/image/resource/kotobuki/default.css"))
diff --git a/bglib/image/wx2.py b/bglib/image/wx2.py
index fbe4ec9..d15a74f 100644
--- a/bglib/image/wx2.py
+++ b/bglib/image/wx2.py
@@ -120,7 +120,7 @@ class Draw(bglib.image.draw.Draw):
 
 if __name__ == '__main__':
   import bglib.model.board
-  b = bglib.model.board.board()
+  b = bglib.model.board.Board()
   d = Draw("./bglib/image/resource/minimal/default.css")
   image = d.draw(b, (400, 400))
   image.show()
-- 
2.43.0


From c009cf4d5f3d9408016438c6cb65fda846bcbea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 42/58] fix: fibs messages known in two forms are recognised in
 both

---
 bglib/protocol/fibs.py | 86 +++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 8e4f4da..0d2232c 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -131,7 +131,7 @@ class RunState(State):
   FIBS_MatchLength = ["^match length:"]
   FIBS_TypeJoin = ["^Type 'join [a-zA-Z_<>]+' to accept\\."]
   FIBS_YouAreWatching = ["^You're now watching "]
-  FIBS_YouStopWatching = ["^You stop watching "]
+  FIBS_YouStopWatching += ["^You stop watching "]
   # overloaded
 
   FIBS_PlayerStartsWatching = ["[a-zA-Z_<>]+ starts watching [a-zA-Z_<>]+\\.",
@@ -161,7 +161,7 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign = ["wants to resign\\."]
+  FIBS_PlayerWantsToResign += ["wants to resign\\."]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
@@ -217,7 +217,7 @@ class RunState(State):
   FIBS_NoEmail = ["^  No email address\\."]
   FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\."]
   FIBS_Waves = ["waves goodbye", "^You wave goodbye\\."]
-  FIBS_WavesAgain = ["^You wave goodbye again and log out\\."]
+  FIBS_WavesAgain += ["^You wave goodbye again and log out\\."]
   FIBS_NoSavedGames = ["^no saved games\\."]
   FIBS_TypeBack = ["^You're away\\. Please type 'back'"]
   FIBS_SavedMatch = ["^  [a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +"]
@@ -313,10 +313,10 @@ class RunState(State):
                    "^5 [^ ]+ - [^ ]+ [01]",
                    ]
 
-  FIBS_Average = ["^[0-9][0-9]:[0-9][0-9]-"]
+  FIBS_Average += ["^[0-9][0-9]:[0-9][0-9]-"]
   # output of average command
 
-  FIBS_DiceTest = ["^[1-6]-1 [0-9]", # output of dicetest command
+  FIBS_DiceTest += ["^[1-6]-1 [0-9]", # output of dicetest command
                    "^[1-6]: [0-9]",
                    ]
 
@@ -344,7 +344,7 @@ class RunState(State):
 
   # class StarsBatch(Batch):
   FIBS_Username = ["^\\*\\* User"]
-  FIBS_Junk = ["^\\*\\* You tell "]
+  FIBS_Junk += ["^\\*\\* You tell "]
   # "** You tell PLAYER: xxxxx"]
 
   FIBS_YouGag = ["^\\*\\* You gag"]
@@ -367,40 +367,40 @@ class RunState(State):
   FIBS_YouInvited = ["^\\*\\* You invited"]
   FIBS_YourLastLogin = ["^\\*\\* Last login:"]
   FIBS_NoOne = ["^\\*\\* There is no one called"]
-  FIBS_AllowpipFalse = ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
-  FIBS_AllowpipTrue = ["^\\*\\* You allow the use the server's 'pip' command\\."]
-  FIBS_AutoboardFalse = ["^\\*\\* The board won't be refreshed"]
-  FIBS_AutoboardTrue = ["^\\*\\* The board will be refreshed"]
-  FIBS_AutodoubleTrue = ["^\\*\\* You agree that doublets"]
-  FIBS_AutodoubleFalse = ["^\\*\\* You don't agree that doublets"]
-  FIBS_AutomoveFalse = ["^\\*\\* Forced moves won't"]
-  FIBS_AutomoveTrue = ["^\\*\\* Forced moves will"]
-  FIBS_BellFalse = ["^\\*\\* Your terminal won't ring"]
-  FIBS_BellTrue = ["^\\*\\* Your terminal will ring"]
-  FIBS_CrawfordFalse = ["^\\*\\* You would like to play without using the Crawford rule\\."]
-  FIBS_CrawfordTrue = ["^\\*\\* You insist on playing with the Crawford rule\\."]
-  FIBS_DoubleFalse = ["^\\*\\* You won't be asked if you want to double\\."]
-  FIBS_DoubleTrue = ["^\\*\\* You will be asked if you want to double\\."]
-  FIBS_GreedyTrue = ["^\\*\\* Will use automatic greedy bearoffs\\."]
-  FIBS_GreedyFalse = ["^\\*\\* Won't use automatic greedy bearoffs\\."]
-  FIBS_MoreboardsTrue = ["^\\*\\* Will send rawboards after rolling\\."]
-  FIBS_MoreboardsFalse = ["^\\*\\* Won't send rawboards after rolling\\."]
-  FIBS_MovesTrue = ["^\\*\\* You want a list of moves after this game\\."]
-  FIBS_MovesFalse = ["^\\*\\* You won't see a list of moves after this game\\."]
-  FIBS_NotifyFalse = ["^\\*\\* You won't be notified"]
-  FIBS_NotifyTrue = ["^\\*\\* You'll be notified"]
-  FIBS_RatingsTrue = ["^\\*\\* You'll see how the rating changes are calculated\\."]
-  FIBS_RatingsFalse = ["^\\*\\* You won't see how the rating changes are calculated\\."]
-  FIBS_ReadyTrue = ["^\\*\\* You're now ready to invite or join someone\\."]
-  FIBS_ReadyFalse = ["^\\*\\* You're now refusing to play with someone\\."]
-  FIBS_ReportFalse = ["^\\*\\* You won't be informed"]
-  FIBS_ReportTrue = ["^\\*\\* You will be informed"]
-  FIBS_SilentTrue = ["^\\*\\* You won't hear what other players shout\\."]
-  FIBS_SilentFalse = ["^\\*\\* You will hear what other players shout\\."]
-  FIBS_TelnetFalse = ["^\\*\\* You use a client program"]
-  FIBS_TelnetTrue = ["^\\*\\* You use telnet"]
-  FIBS_WrapFalse = ["^\\*\\* The server will wrap"]
-  FIBS_WrapTrue = ["^\\*\\* Your terminal knows how to wrap"]
+  FIBS_AllowpipFalse += ["^\\*\\* You don't allow the use of the server's 'pip' command\\."]
+  FIBS_AllowpipTrue += ["^\\*\\* You allow the use the server's 'pip' command\\."]
+  FIBS_AutoboardFalse += ["^\\*\\* The board won't be refreshed"]
+  FIBS_AutoboardTrue += ["^\\*\\* The board will be refreshed"]
+  FIBS_AutodoubleTrue += ["^\\*\\* You agree that doublets"]
+  FIBS_AutodoubleFalse += ["^\\*\\* You don't agree that doublets"]
+  FIBS_AutomoveFalse += ["^\\*\\* Forced moves won't"]
+  FIBS_AutomoveTrue += ["^\\*\\* Forced moves will"]
+  FIBS_BellFalse += ["^\\*\\* Your terminal won't ring"]
+  FIBS_BellTrue += ["^\\*\\* Your terminal will ring"]
+  FIBS_CrawfordFalse += ["^\\*\\* You would like to play without using the Crawford rule\\."]
+  FIBS_CrawfordTrue += ["^\\*\\* You insist on playing with the Crawford rule\\."]
+  FIBS_DoubleFalse += ["^\\*\\* You won't be asked if you want to double\\."]
+  FIBS_DoubleTrue += ["^\\*\\* You will be asked if you want to double\\."]
+  FIBS_GreedyTrue += ["^\\*\\* Will use automatic greedy bearoffs\\."]
+  FIBS_GreedyFalse += ["^\\*\\* Won't use automatic greedy bearoffs\\."]
+  FIBS_MoreboardsTrue += ["^\\*\\* Will send rawboards after rolling\\."]
+  FIBS_MoreboardsFalse += ["^\\*\\* Won't send rawboards after rolling\\."]
+  FIBS_MovesTrue += ["^\\*\\* You want a list of moves after this game\\."]
+  FIBS_MovesFalse += ["^\\*\\* You won't see a list of moves after this game\\."]
+  FIBS_NotifyFalse += ["^\\*\\* You won't be notified"]
+  FIBS_NotifyTrue += ["^\\*\\* You'll be notified"]
+  FIBS_RatingsTrue += ["^\\*\\* You'll see how the rating changes are calculated\\."]
+  FIBS_RatingsFalse += ["^\\*\\* You won't see how the rating changes are calculated\\."]
+  FIBS_ReadyTrue += ["^\\*\\* You're now ready to invite or join someone\\."]
+  FIBS_ReadyFalse += ["^\\*\\* You're now refusing to play with someone\\."]
+  FIBS_ReportFalse += ["^\\*\\* You won't be informed"]
+  FIBS_ReportTrue += ["^\\*\\* You will be informed"]
+  FIBS_SilentTrue += ["^\\*\\* You won't hear what other players shout\\."]
+  FIBS_SilentFalse += ["^\\*\\* You will hear what other players shout\\."]
+  FIBS_TelnetFalse += ["^\\*\\* You use a client program"]
+  FIBS_TelnetTrue += ["^\\*\\* You use telnet"]
+  FIBS_WrapFalse += ["^\\*\\* The server will wrap"]
+  FIBS_WrapTrue += ["^\\*\\* Your terminal knows how to wrap"]
   FIBS_PlayerRefusingGames = ["^\\*\\* [a-zA-Z_<>]+ is refusing games\\."]
   FIBS_NotWatching = ["^\\*\\* You're not watching\\."]
   FIBS_NotWatchingPlaying = ["^\\*\\* You're not watching or playing\\."]
@@ -416,13 +416,13 @@ class RunState(State):
   FIBS_MustMove = ["^\\*\\* You must give [1-4] moves"]
   FIBS_MustComeIn = ["^\\*\\* You have to remove pieces from the bar in your first move\\."]
   FIBS_UsersHeardYou = ["^\\*\\* [0-9]+ users? heard you\\."]
-  FIBS_Junk = ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
+  FIBS_Junk += ["^\\*\\* Please wait for [a-zA-Z_<>]+ to join too\\."]
   FIBS_SavedMatchReady = ["^\\*\\*[a-zA-Z_<>]+ +[0-9]+ +[0-9]+ +- +[0-9]+"]
   # double star before a name indicates you have a saved game with this player
 
   FIBS_NotYourTurnToRoll = ["^\\*\\* It's not your turn to roll the dice\\."]
   FIBS_NotYourTurnToMove = ["^\\*\\* It's not your turn to move\\."]
-  FIBS_YouStopWatching = ["^\\*\\* You stop watching"]
+  FIBS_YouStopWatching += ["^\\*\\* You stop watching"]
   FIBS_UnknownCommand = ["^\\*\\* Unknown command:"]
   FIBS_CantWatch = ["^\\*\\* You can't watch another game while you're playing\\."]
   FIBS_CantInviteSelf = ["^\\*\\* You can't invite yourself\\."]
@@ -436,7 +436,7 @@ class RunState(State):
 
   FIBS_Ratings = ["^\\* *[0-9]+ +[a-zA-Z_<>]+ +[0-9]+\\.[0-9]+ +[0-9]+"]
   FIBS_NoSavedMatch = ["^\\*\\* There's no saved match with "]
-  FIBS_WARNINGSavedMatch = ["^\\*\\* WARNING: Don't accept if you want to continue"]
+  FIBS_WARNINGSavedMatch += ["^\\*\\* WARNING: Don't accept if you want to continue"]
   FIBS_CantGagYourself = ["^\\*\\* You talk too much, don't you\\?"]
   FIBS_CantBlindYourself = ["^\\*\\* You can't read this message now, can you\\?"]
 
-- 
2.43.0


From 6b78a9e59d61475d7882a6416bc5a3b2180cc05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 43/58] fix: fibs messages that begin with a name are
 recognised

---
 bglib/protocol/fibs.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 0d2232c..309b6bc 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -98,21 +98,21 @@ class RunState(State):
   FIBS_RollOrDouble = ["^It's your turn to roll or double\\.",
                        "^It's your turn\\. Please roll or double",
                       ]
-  FIBS_AcceptRejectDouble = ["doubles\\. Type 'accept' or 'reject'\\."]
+  FIBS_AcceptRejectDouble = ["^[a-zA-Z_<>]+ doubles\\. Type 'accept' or 'reject'\\."]
   FIBS_Doubles = ["^[a-zA-Z_<>]+ doubles\\."]
   FIBS_PleaseMove = ["^Please move [1-4] pieces?\\."]
   FIBS_PlayerMoves = ["^[a-zA-Z_<>]+ moves"]
   FIBS_BearingOff = ["^Bearing off:"]
   FIBS_YouReject = ["^You reject\\. The game continues\\."]
-  FIBS_YouStopWatching = ["You're not watching anymore\\."]
+  FIBS_YouStopWatching = ["^[a-zA-Z_<>]+ .*You're not watching anymore\\."]
   # overloaded  //PLAYER logs out.. You're not watching anymore.
 
-  FIBS_OpponentLogsOut = ["The game was saved\\."]
+  FIBS_OpponentLogsOut = ["^[a-zA-Z_<>]+ .*The game was saved\\."]
   # PLAYER logs out. The game was saved. ||  PLAYER drops connection. The game was saved.
 
   FIBS_OnlyPossibleMove = ["^The only possible move is"]
   FIBS_FirstRoll = ["[a-zA-Z_<>]+ rolled [1-6].+rolled [1-6]"]
-  FIBS_MakesFirstMove = [" makes the first move\\."]
+  FIBS_MakesFirstMove = ["^[a-zA-Z_<>]+ makes the first move\\."]
   FIBS_YouDouble = ["^You double\\. Please wait for "]
   # You double. Please wait for PLAYER to accept or reject.
 
@@ -127,7 +127,7 @@ class RunState(State):
   FIBS_JoinNextGame = ["^Type 'join' if you want to play the next game, type 'leave' if you don't\\."]
   FIBS_NewMatchRequest = ["^[a-zA-Z_<>]+ wants to play a [0-9]+ point match with you\\."]
   FIBS_WARNINGSavedMatch = ["^WARNING: Don't accept if you want to continue"]
-  FIBS_ResignRefused = ["rejects\\. The game continues\\."]
+  FIBS_ResignRefused = ["^[a-zA-Z_<>]+ rejects\\. The game continues\\."]
   FIBS_MatchLength = ["^match length:"]
   FIBS_TypeJoin = ["^Type 'join [a-zA-Z_<>]+' to accept\\."]
   FIBS_YouAreWatching = ["^You're now watching "]
@@ -161,7 +161,7 @@ class RunState(State):
   FIBS_MatchResult = ["^[a-zA-Z_<>]+ wins a [0-9]+ point match against "]
   #PLAYER wins a 9 point match against PLAYER  11-6 .
 
-  FIBS_PlayerWantsToResign += ["wants to resign\\."]
+  FIBS_PlayerWantsToResign += ["^[a-zA-Z_<>]+ wants to resign\\.$"]
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
@@ -172,15 +172,15 @@ class RunState(State):
                              ]
 
   FIBS_ResumeMatchRequest = ["^[a-zA-Z_<>]+ wants to resume a saved match with you\\."]
-  FIBS_ResumeMatchAck0 = ["has joined you\\. Your running match was loaded"]
+  FIBS_ResumeMatchAck0 = ["^[a-zA-Z_<>]+ has joined you\\. Your running match was loaded"]
   FIBS_YouWinGame = ["^You win the game and get"]
   FIBS_UnlimitedInvite = ["^[a-zA-Z_<>]+ wants to play an unlimted match with you\\."]
   FIBS_PlayerWinsGame = ["^[a-zA-Z_<>]+ wins the game and gets [0-9]+ points?. Sorry.", 
                          "^[a-zA-Z_<>]+ wins the game and gets [0-9]+ points?.", # (when watching)
                          ]
 
-  FIBS_WatchGameWins = ["wins the game and gets"]
-  FIBS_PlayersStartingUnlimitedMatch = ["start an unlimited match\\."]
+  FIBS_WatchGameWins = ["^[a-zA-Z_<>]+ wins the game and gets"]
+  FIBS_PlayersStartingUnlimitedMatch = ["^[a-zA-Z_<>]+ and [a-zA-Z_<>]+ start an unlimited match\\."]
   # PLAYER_A and PLAYER_B start an unlimited match.
 
   FIBS_ReportLimitedMatch = ["^[a-zA-Z_<>]+ +- +[a-zA-Z_<>]+ .+ point match"]
@@ -216,7 +216,7 @@ class RunState(State):
   FIBS_EmailAddress = ["^  Email address:"]
   FIBS_NoEmail = ["^  No email address\\."]
   FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\."]
-  FIBS_Waves = ["waves goodbye", "^You wave goodbye\\."]
+  FIBS_Waves = ["^[a-zA-Z_<>]+ waves goodbye", "^You wave goodbye\\."]
   FIBS_WavesAgain += ["^You wave goodbye again and log out\\."]
   FIBS_NoSavedGames = ["^no saved games\\."]
   FIBS_TypeBack = ["^You're away\\. Please type 'back'"]
@@ -269,12 +269,12 @@ class RunState(State):
   FIBS_FailedLogin = ["^> [0-9]+"]
   # bogus CLIP messages sent after a failed login
   
-  FIBS_Average = ["^Time (UTC)  average min max"]
+  FIBS_Average = ["^Time \\(UTC\\)  average min max"]
   FIBS_DiceTest = ["^[nST]: "]
   FIBS_LastLogout = ["^  Last logout:"]
   FIBS_RatingCalcStart = ["^rating calculation:"]
   FIBS_RatingCalcInfo = ["^Probability that underdog wins:", 
-                         "is 1-Pu if underdog wins", # P=0.505861 is 1-Pu if underdog wins and Pu if favorite wins
+                         "^P=[0-9.]+ is 1-Pu if underdog wins", # P=0.505861 is 1-Pu if underdog wins and Pu if favorite wins
                          "^Experience: ", # Experience: fergy 500 - jfk 5832
                          "^K=max\\(1", # K=max(1 ,    -Experience/100+5) for fergy: 1.000000
                          "^rating difference",
@@ -289,7 +289,7 @@ class RunState(State):
   # Rating: 1693.11 Experience: 5781
 
   FIBS_NotLoggedIn = ["^  Not logged in right now\\."]
-  FIBS_IsPlayingWith = ["is playing with"]
+  FIBS_IsPlayingWith = ["^ *[a-zA-Z_<>]+ is playing with"]
   FIBS_SavedScoreHeader = ["^opponent +matchlength"]
   #  opponent          matchlength   score (your points first)
 
@@ -303,7 +303,7 @@ class RunState(State):
   # ANSI clear screen sequence
 
   FIBS_Timeout = ["^Connection timed out\\."]
-  FIBS_Goodbye = ["           Goodbye\\."]
+  FIBS_Goodbye = ["^           +Goodbye\\."]
   FIBS_LastLogin = ["^  Last login:"]
   FIBS_NoInfo = ["^No information found on user"]
 
@@ -361,7 +361,7 @@ class RunState(State):
 
   FIBS_YouTerminated = ["^\\*\\* You terminated the game"]
   FIBS_OpponentLeftGame = ["^\\*\\* Player [a-zA-Z_<>]+ has left the game. The game was saved\\."]
-  FIBS_PlayerLeftGame = ["has left the game\\."]
+  FIBS_PlayerLeftGame = ["^[a-zA-Z_<>]+ has left the game\\."]
   # overloaded
 
   FIBS_YouInvited = ["^\\*\\* You invited"]
@@ -406,7 +406,7 @@ class RunState(State):
   FIBS_NotWatchingPlaying = ["^\\*\\* You're not watching or playing\\."]
   FIBS_NotPlaying = ["^\\*\\* You're not playing\\."]
   FIBS_NoUser = ["^\\*\\* There is no one called "]
-  FIBS_AlreadyPlaying = ["is already playing with"]
+  FIBS_AlreadyPlaying = ["^\\*\\* [a-zA-Z_<>]+ is already playing with"]
   FIBS_DidntInvite = ["^\\*\\* [a-zA-Z_<>]+ didn't invite you."]
   FIBS_BadMove = ["^\\*\\* You can't remove this piece"]
   FIBS_CantMoveFirstMove = ["^\\*\\* You can't move "]
@@ -431,7 +431,7 @@ class RunState(State):
   FIBS_PlayerNotPlaying = ["^\\*\\* [a-zA-Z_<>]+ is not playing\\."]
   FIBS_CantTalk = ["^\\*\\* You can't talk if you won't listen\\."]
   FIBS_WontListen = ["^\\*\\* [a-zA-Z_<>]+ won't listen to you\\."]
-  FIBS_Why = ["Why would you want to do that"]
+  FIBS_Why = ["^\\** ?Why would you want to do that"]
   # (not sure about ** vs *** at front of line.)
 
   FIBS_Ratings = ["^\\* *[0-9]+ +[a-zA-Z_<>]+ +[0-9]+\\.[0-9]+ +[0-9]+"]
-- 
2.43.0


From 757224f6b5825851db8ad5605296c3524b80d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:47 +0000
Subject: [PATCH 44/58] fix: fibs messages get the same cookie in whatever
 order the patterns are tried

---
 bglib/protocol/fibs.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/bglib/protocol/fibs.py b/bglib/protocol/fibs.py
index 309b6bc..28d186f 100644
--- a/bglib/protocol/fibs.py
+++ b/bglib/protocol/fibs.py
@@ -92,22 +92,22 @@ class RunState(State):
     return 'FIBS_Unknown'
 
   FIBS_Board = ["^board:[a-zA-Z_<>]+:[a-zA-Z_<>]+:[0-9:\\-]+$"]
-  FIBS_BAD_Board = ["^board:"]
+  FIBS_BAD_Board = ["^board:(?![a-zA-Z_<>]+:[a-zA-Z_<>]+:[0-9:\\-]+$)"]
   FIBS_YouRoll = ["^You roll [1-6] and [1-6]"]
   FIBS_PlayerRolls = ["^[a-zA-Z_<>]+ rolls [1-6] and [1-6]"]
   FIBS_RollOrDouble = ["^It's your turn to roll or double\\.",
                        "^It's your turn\\. Please roll or double",
                       ]
   FIBS_AcceptRejectDouble = ["^[a-zA-Z_<>]+ doubles\\. Type 'accept' or 'reject'\\."]
-  FIBS_Doubles = ["^[a-zA-Z_<>]+ doubles\\."]
+  FIBS_Doubles = ["^[a-zA-Z_<>]+ doubles\\.(?! Type 'accept' or 'reject'\\.)"]
   FIBS_PleaseMove = ["^Please move [1-4] pieces?\\."]
   FIBS_PlayerMoves = ["^[a-zA-Z_<>]+ moves"]
   FIBS_BearingOff = ["^Bearing off:"]
   FIBS_YouReject = ["^You reject\\. The game continues\\."]
-  FIBS_YouStopWatching = ["^[a-zA-Z_<>]+ .*You're not watching anymore\\."]
+  FIBS_YouStopWatching = ["^[a-zA-Z_<>]+ (?:logs out|drops connection)\\.+ You're not watching anymore\\."]
   # overloaded  //PLAYER logs out.. You're not watching anymore.
 
-  FIBS_OpponentLogsOut = ["^[a-zA-Z_<>]+ .*The game was saved\\."]
+  FIBS_OpponentLogsOut = ["^[a-zA-Z_<>]+ (?:logs out|drops connection)\\.+ The game was saved\\."]
   # PLAYER logs out. The game was saved. ||  PLAYER drops connection. The game was saved.
 
   FIBS_OnlyPossibleMove = ["^The only possible move is"]
@@ -117,7 +117,7 @@ class RunState(State):
   # You double. Please wait for PLAYER to accept or reject.
 
   FIBS_PlayerWantsToResign = ["^[a-zA-Z_<>]+ wants to resign\\. You will win [0-9]+ points?\\. Type 'accept' or 'reject'\\."]
-  FIBS_WatchResign = ["^[a-zA-Z_<>]+ wants to resign\\. "]
+  FIBS_WatchResign = ["^[a-zA-Z_<>]+ wants to resign\\. (?!You will win [0-9]+ points?\\. Type 'accept' or 'reject'\\.)"]
   # PLAYER wants to resign. PLAYER2 will win 2 points.  (ORDER MATTERS HERE)
 
   FIBS_YouResign = ["^You want to resign\\."]
@@ -138,7 +138,7 @@ class RunState(State):
                                "[a-zA-Z_<>]+ is watching you\\.",
                               ]
   FIBS_PlayerStopsWatching = ["[a-zA-Z_<>]+ stops watching [a-zA-Z_<>]+\\."]
-  FIBS_PlayerIsWatching = ["[a-zA-Z_<>]+ is watching "]
+  FIBS_PlayerIsWatching = ["[a-zA-Z_<>]+ is watching (?!you\\.)"]
   FIBS_ResignWins = ["^[a-zA-Z_<>]+ gives up\\. [a-zA-Z_<>]+ wins [0-9]+ points?\\."]
   # PLAYER1 gives up. PLAYER2 wins 1 point.
 
@@ -165,9 +165,9 @@ class RunState(State):
   #  Same as a longline in an actual game  This is just for watching.
 
   FIBS_BAD_AcceptDouble = ["^[a-zA-Z_<>]+ accepts? the double\\. The cube shows [0-9]+\\..+"]
-  FIBS_YouAcceptDouble = ["^You accept the double\\. The cube shows"]
-  FIBS_PlayerAcceptsDouble = ["^[a-zA-Z_<>]+ accepts the double\\. The cube shows ", 
-                              "^[a-zA-Z_<>]+ accepts the double\\.", # while watching
+  FIBS_YouAcceptDouble = ["^You accept the double\\. The cube shows(?! [0-9]+\\..)"]
+  FIBS_PlayerAcceptsDouble = ["^[a-zA-Z_<>]+ accepts the double\\. The cube shows (?![0-9]+\\..)", 
+                              "^[a-zA-Z_<>]+ accepts the double\\.(?! The cube shows )", # while watching
                               "accepts the double\\."
                              ]
 
@@ -179,11 +179,11 @@ class RunState(State):
                          "^[a-zA-Z_<>]+ wins the game and gets [0-9]+ points?.", # (when watching)
                          ]
 
-  FIBS_WatchGameWins = ["^[a-zA-Z_<>]+ wins the game and gets"]
+  FIBS_WatchGameWins = ["^[a-zA-Z_<>]+ wins the game and gets(?! [0-9]+ points?.)"]
   FIBS_PlayersStartingUnlimitedMatch = ["^[a-zA-Z_<>]+ and [a-zA-Z_<>]+ start an unlimited match\\."]
   # PLAYER_A and PLAYER_B start an unlimited match.
 
-  FIBS_ReportLimitedMatch = ["^[a-zA-Z_<>]+ +- +[a-zA-Z_<>]+ .+ point match"]
+  FIBS_ReportLimitedMatch = ["^[a-zA-Z_<>]+ +- +[a-zA-Z_<>]+ (?!\\(unlimited).+ point match"]
   # PLAYER_A        -       PLAYER_B (5 point match 2-2)
 
   FIBS_ReportUnlimitedMatch = ["^[a-zA-Z_<>]+ +- +[a-zA-Z_<>]+ \\(unlimited"]
@@ -195,7 +195,7 @@ class RunState(State):
   FIBS_ShowMovesDoubles = ["^[XO]: doubles"]
   FIBS_ShowMovesAccepts = ["^[XO]: accepts"]
   FIBS_ShowMovesRejects = ["^[XO]: rejects"]
-  FIBS_ShowMovesOther = ["^[XO]:"]
+  FIBS_ShowMovesOther = ["^[XO]:(?! \\([1-6]| wins| doubles| accepts| rejects)"]
   # AND HERE
 
   FIBS_ScoreUpdate = ["^score in [0-9]+ point match:"]
@@ -216,7 +216,7 @@ class RunState(State):
   FIBS_EmailAddress = ["^  Email address:"]
   FIBS_NoEmail = ["^  No email address\\."]
   FIBS_WavesAgain = ["^[a-zA-Z_<>]+ waves goodbye again\\."]
-  FIBS_Waves = ["^[a-zA-Z_<>]+ waves goodbye", "^You wave goodbye\\."]
+  FIBS_Waves = ["^[a-zA-Z_<>]+ waves goodbye(?! again\\.)", "^You wave goodbye\\."]
   FIBS_WavesAgain += ["^You wave goodbye again and log out\\."]
   FIBS_NoSavedGames = ["^no saved games\\."]
   FIBS_TypeBack = ["^You're away\\. Please type 'back'"]
-- 
2.43.0


From 74de57ff0d25cc77ea78ea455d1884fa7d43ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 45/58] fix: subscribers may come and go while a message is
 dispatched

---
 bglib/protocol/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 7be76ed..48209d1 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -116,7 +116,7 @@ class Session(Transport):
     if self._termination_requested:
       self.terminated.set()
       thread.exit()
-    for subscriber in self.subscribers:
+    for subscriber in list(self.subscribers):
       try:
         f = getattr(subscriber, name)
       except AttributeError:
-- 
2.43.0


From 6c7dcf15afc05c17bb99817f61ba51e4d9aa919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:13 +0000
Subject: [PATCH 46/58] fix: session is terminated whenever its listener has
 ended

---
 bglib/protocol/session.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bglib/protocol/session.py b/bglib/protocol/session.py
index 48209d1..6353559 100644
--- a/bglib/protocol/session.py
+++ b/bglib/protocol/session.py
@@ -109,6 +109,7 @@ class Session(Transport):
       logging.exception('exception in listener thread:')
     except:
       logging.exception('exception in listener thread:')
+    self.terminated.set()
     thread.exit()
 
   @synchronized_with(Transport.lock)
-- 
2.43.0


From 78fdff4edd8222a8e81f09906131dc97fcf3dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:08 +0000
Subject: [PATCH 47/58] fix: a later style rule can replace an image or a font

The attribute a rule sets is made anew without the path of the style sheet,
so that parsing the next URI for it failed.
---
 bglib/image/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 54c8df7..ac8656a 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -228,7 +228,7 @@ class BaseElement(object):
     for name, value in d.items():
       if name not in self.DTD_ATTLIST:
         raise KeyError('no such attribute %s in %s'%(name, self.name))
-      a = self.attributes.get(name, self.DTD_ATTLIST[name](css_path=css_path))
+      a = self.DTD_ATTLIST[name](css_path=css_path)
       assert a
       v = a.parse(value)
       setattr(self, name, v)
-- 
2.43.0


From 8a6174aa8fe70a32de1bf1bf708eb031ecbf9186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:08 +0000
Subject: [PATCH 48/58] fix: False in a style sheet is false

bool('False') is True.
---
 bglib/image/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index ac8656a..9a6aaed 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -133,7 +133,9 @@ class URIAttribute(StringAttribute):
   
 class BoolAttribute(BaseAttribute):
   def parse(self, s):
-    return bool(s)
+    if s not in ('True', 'False'):
+      raise ValueError('%s is neither True nor False'%s)
+    return s == 'True'
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
@@ -148,8 +150,6 @@ class FillAttribute(InheritMixIn, BoolAttribute):
 class HideCountAttribute(BoolAttribute):
   default = False
   name = 'hide_count'
-  def parse(self, s):
-    return bool(s)
   def is_acceptable(self, v):
     return isinstance(v, bool)
 
-- 
2.43.0


From 31a0a125a5c5bba7fa75d572b0f42988005aceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:08 +0000
Subject: [PATCH 49/58] fix: an attribute has its default also when the parent
 has no such attribute

---
 bglib/image/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 9a6aaed..716eb4c 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -282,13 +282,15 @@ class BaseElement(object):
       a = self.attributes.get(name, None)
       if a:
         return a.get()
-      elif self.DTD_ATTLIST[name].is_inherit() and self.parent is not None:
-        return getattr(self.parent, name)
-      else:
+      if self.DTD_ATTLIST[name].is_inherit() and self.parent is not None:
         try:
-          return self.DTD_ATTLIST[name].default
+          return getattr(self.parent, name)
         except AttributeError:
-          raise AttributeError('Element %s is not assigned a value of attribute "%s".'%(self.name, name))
+          pass
+      try:
+        return self.DTD_ATTLIST[name].default
+      except AttributeError:
+        raise AttributeError('Element %s is not assigned a value of attribute "%s".'%(self.name, name))
     raise AttributeError('Element %s does not have such attribute "%s".'%(self.name, name))
 
   @classmethod
-- 
2.43.0


From 740309a114d5a33def8a2f2f9079c7bfab1605a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:29 +0000
Subject: [PATCH 50/58] fix: show a resignation that is offered after the roll

The tree said that the player who rolled is to move, and showed no offer.
---
 bglib/image/base.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 716eb4c..8bfd34d 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -810,8 +810,15 @@ class ElementTree(object):
         return
 
     if board.on_action == YOU and  board.rolled != (0, 0):
-      self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
-      self.action.append('you to move.')
+      if not board.doubled and board.on_inner_action == HIM and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
+        self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
+        self.action.append('him to accept your resignation or not.')
+        resign = Element('resign')
+        resign.append(str(board.resign_offer))
+        self.field[HIM].append(resign)
+      else:
+        self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
+        self.action.append('you to move.')
       die = Element('die', id='right')
       die.append(str(board.rolled[0]))
       self.field[YOU].append(die)
@@ -847,8 +854,15 @@ class ElementTree(object):
         return
 
     if board.on_action == HIM and  board.rolled !=(0, 0):
-      self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
-      self.action.append('him to move.')
+      if not board.doubled and board.on_inner_action == YOU and board.resign_offer in bglib.model.constants.RESIGN_TYPES:
+        self.action.player = bglib.model.constants.PLAYER_STRING[YOU]
+        self.action.append('you to accept his resignation or not.')
+        resign = Element('resign')
+        resign.append(str(board.resign_offer))
+        self.field[YOU].append(resign)
+      else:
+        self.action.player = bglib.model.constants.PLAYER_STRING[HIM]
+        self.action.append('him to move.')
       die = Element('die', id='right')
       die.append( str(board.rolled[0]))
       self.field[HIM].append(die)
-- 
2.43.0


From 966b8d2b3d11e4237ef57c63fd55fe99b7cb6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:29 +0000
Subject: [PATCH 51/58] fix: close the style sheet after reading it into a tree

---
 bglib/image/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 8bfd34d..13f5714 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -714,10 +714,13 @@ class ElementTree(object):
     p = bglib.image.css.CSSParser()
     rules = list()
     f = file(fname)
-    for no, line in enumerate(f.readlines()):
-      r = p.rule(fname, no + 1, line)
-      if r:
-        rules.append(r)
+    try:
+      for no, line in enumerate(f.readlines()):
+        r = p.rule(fname, no + 1, line)
+        if r:
+          rules.append(r)
+    finally:
+      f.close()
     def apply(path):
       for r in rules:
         r.apply(path)
-- 
2.43.0


From 7ede7ad4f5c5d457e66eb7b959e63863f47ae442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:29 +0000
Subject: [PATCH 52/58] fix: close the style sheet after reading it

---
 bglib/image/css.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bglib/image/css.py b/bglib/image/css.py
index d51848f..e7263b6 100644
--- a/bglib/image/css.py
+++ b/bglib/image/css.py
@@ -215,9 +215,12 @@ def load(css_path):
   p = bglib.image.css.CSSParser()
   rules = Binder()
   f = file(css_path)
-  for no, line in enumerate(f.readlines()):
-    r = p.rule(css_path, no + 1, line)
-    if r:
-      rules.append(r)
+  try:
+    for no, line in enumerate(f.readlines()):
+      r = p.rule(css_path, no + 1, line)
+      if r:
+        rules.append(r)
+  finally:
+    f.close()
   return rules
 
-- 
2.43.0


From 1b5e9456b54debc5481749a19dec8bfd8703dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 53/58] fix: boards can be drawn in every size

The product of a rounded quotient and its divisor may be greater than the
dividend: set_mag failed for 384 pixels, for example. What is drawn is never
larger, as sizes are integers.
---
 bglib/image/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 13f5714..00f47c5 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -315,8 +315,8 @@ class Board(BaseElement):
     assert xmag > 0.0
     assert ymag > 0.0
     self.mag = min(xmag, ymag)
-    assert self.width * self.mag <= bound[0]
-    assert self.height * self.mag <= bound[1]
+    assert self.apply_mag(self.width) <= bound[0]
+    assert self.apply_mag(self.height) <= bound[1]
 
 Element.register(Board)
 
-- 
2.43.0


From f60be09dff00919cd4a03ef846c64242a3d55d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:52 +0000
Subject: [PATCH 54/58] fix: a record that begins with an empty line is
 refused, not crashed on later

---
 bglib/record/snowietxt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bglib/record/snowietxt.py b/bglib/record/snowietxt.py
index 75a81e6..e204345 100644
--- a/bglib/record/snowietxt.py
+++ b/bglib/record/snowietxt.py
@@ -31,7 +31,7 @@ def statevalidate(method):
     current = self.state
     #func.im_self.state
     next = method.__name__
-    if next != 'handle_emptyline':
+    if next != 'handle_emptyline' or current is None:
       if next not in ACCEPTABLES[current]:
         if DEBUG:
           print args[1]
-- 
2.43.0


From 6a25eeb9742578cacbbd8df011b9b60ced54181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:03 +0000
Subject: [PATCH 55/58] fix: XML of a board is well-formed whatever the paths
 and colours of its style sheet contain

---
 bglib/image/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bglib/image/base.py b/bglib/image/base.py
index 00f47c5..a4ac7cb 100644
--- a/bglib/image/base.py
+++ b/bglib/image/base.py
@@ -172,6 +172,12 @@ class InitialCubeString(StringAttribute):
   name='initialCube'
 
 
+def escape(s):
+  for letter, reference in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'), ('"', '&quot;')):
+    s = s.replace(letter, reference)
+  return s
+
+
 class BaseElement(object):
   name = None
   DTD_ELEMENT = None
@@ -236,13 +242,13 @@ class BaseElement(object):
   def format(self, indent):
     s = ' '*indent + "<%s"%(self.name)
     for n, v in self.attributes.items():
-      s+= ' %s="%s"'%(n, str(v))
+      s+= ' %s="%s"'%(n, escape(str(v)))
     s+=">\n"
     for c in self.children:
       if isinstance(c, BaseElement):
         s += c.format(indent+2)
       else:
-        s += ' '*(indent +2) + str(c) + '\n'
+        s += ' '*(indent +2) + escape(str(c)) + '\n'
     s+= ' '*indent + "</%s>\n"%(self.name)
     return s
 
-- 
2.43.0


From eef2af900f45c4bce774af605f188af01c40dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:03 +0000
Subject: [PATCH 56/58] fix: his chequers entering or borne off move as far as
 they go

---
 bglib/encoding/FIBS.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bglib/encoding/FIBS.py b/bglib/encoding/FIBS.py
index 67c3d19..173c466 100644
--- a/bglib/encoding/FIBS.py
+++ b/bglib/encoding/FIBS.py
@@ -179,7 +179,13 @@ def get_move(got, who):
     elif who == HIM:
       src = bglib.model.util.move_pton(src)
       dest = bglib.model.util.move_pton(dest)
-      pm = bglib.model.move.PartialMove(dest-src, src, dest, is_hitting)
+      # he moves upwards: his bar is below point 1, his home beyond point 24
+      start, end = src, dest
+      if start == 24:
+        start = -1
+      if end == -1:
+        end = 24
+      pm = bglib.model.move.PartialMove(end-start, src, dest, is_hitting)
     else:
       continue
     mv.append(pm)
-- 
2.43.0


From 456a0b3734a0ca0e778abab94ff79382da0b3d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:13 +0000
Subject: [PATCH 57/58] fix: the committed document type is the one the library
 writes

---
 bglib/image/backgammon.dtd | 292 +++++++++++++++++++++----------------
 1 file changed, 169 insertions(+), 123 deletions(-)

diff --git a/bglib/image/backgammon.dtd b/bglib/image/backgammon.dtd
index d206144..c881a3f 100644
--- a/bglib/image/backgammon.dtd
+++ b/bglib/image/backgammon.dtd
@@ -1,212 +1,258 @@
-<!ELEMENT cube (#PCDATA)* >
-<!ATTLIST cube 
-   color CDATA #IMPLIED
+<!ELEMENT die (#PCDATA)* >
+<!ATTLIST die 
    image CDATA #IMPLIED
-   flip CDATA #IMPLIED
-   height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   color CDATA #IMPLIED
+   eyesize CDATA #IMPLIED
+   backgammon CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   diestyle CDATA #IMPLIED
+   id CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
 >
-<!ELEMENT bar (#PCDATA|chequer)* >
-<!ATTLIST bar 
-   player CDATA #IMPLIED
-   color CDATA #IMPLIED
+<!ELEMENT match (action|length|crawford|score)* >
+<!ATTLIST match 
    image CDATA #IMPLIED
-   flip CDATA #IMPLIED
-   height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
 >
-<!ELEMENT chequer (#PCDATA)* >
-<!ATTLIST chequer 
-   x_offset2 CDATA #IMPLIED
-   x_offset CDATA #IMPLIED
-   player CDATA #IMPLIED
-   color CDATA #IMPLIED
+<!ELEMENT length (#PCDATA)* >
+<!ATTLIST length 
    image CDATA #IMPLIED
-   y_offset2 CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
+   background CDATA #IMPLIED
+   x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
    flip CDATA #IMPLIED
-   hide_count CDATA #IMPLIED
    height CDATA #IMPLIED
-   width CDATA #IMPLIED
-   max_count CDATA #IMPLIED
-   y_offset CDATA #IMPLIED
+   font CDATA #IMPLIED
+>
+<!ELEMENT top_frame (#PCDATA)* >
+<!ATTLIST top_frame 
+   image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
 >
 <!ELEMENT point (#PCDATA|chequer)* >
 <!ATTLIST point 
-   parity CDATA #IMPLIED
-   color CDATA #IMPLIED
    image CDATA #IMPLIED
-   flip CDATA #IMPLIED
-   height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   color CDATA #IMPLIED
+   parity CDATA #IMPLIED
+   fill CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
-   font CDATA #IMPLIED
-   fill CDATA #IMPLIED
->
-<!ELEMENT die (#PCDATA)* >
-<!ATTLIST die 
-   x_offset CDATA #IMPLIED
-   color CDATA #IMPLIED
-   image CDATA #IMPLIED
-   flip CDATA #IMPLIED
-   height CDATA #IMPLIED
    width CDATA #IMPLIED
-   y_offset CDATA #IMPLIED
-   background CDATA #IMPLIED
    y CDATA #IMPLIED
-   x CDATA #IMPLIED
-   font CDATA #IMPLIED
->
-<!ELEMENT chip (#PCDATA)* >
-<!ATTLIST chip 
-   x_offset CDATA #IMPLIED
-   color CDATA #IMPLIED
-   image CDATA #IMPLIED
    flip CDATA #IMPLIED
    height CDATA #IMPLIED
-   width CDATA #IMPLIED
-   y_offset CDATA #IMPLIED
-   background CDATA #IMPLIED
-   y CDATA #IMPLIED
-   x CDATA #IMPLIED
    font CDATA #IMPLIED
 >
-<!ELEMENT cubeholder (#PCDATA|cube|chip)* >
-<!ATTLIST cubeholder 
-   color CDATA #IMPLIED
+<!ELEMENT home (#PCDATA|cube|chequer)* >
+<!ATTLIST home 
    image CDATA #IMPLIED
-   flip CDATA #IMPLIED
-   height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   color CDATA #IMPLIED
+   fill CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
-   font CDATA #IMPLIED
->
-<!ELEMENT field (#PCDATA|die|cube|chip)* >
-<!ATTLIST field 
-   player CDATA #IMPLIED
-   color CDATA #IMPLIED
-   image CDATA #IMPLIED
-   flip CDATA #IMPLIED
-   height CDATA #IMPLIED
    width CDATA #IMPLIED
-   background CDATA #IMPLIED
    y CDATA #IMPLIED
-   x CDATA #IMPLIED
-   font CDATA #IMPLIED
->
-<!ELEMENT length (#PCDATA)* >
-<!ATTLIST length 
-   color CDATA #IMPLIED
-   image CDATA #IMPLIED
    flip CDATA #IMPLIED
    height CDATA #IMPLIED
-   width CDATA #IMPLIED
-   background CDATA #IMPLIED
-   y CDATA #IMPLIED
-   x CDATA #IMPLIED
    font CDATA #IMPLIED
+   player CDATA #IMPLIED
 >
 <!ELEMENT score (#PCDATA)* >
 <!ATTLIST score 
-   player CDATA #IMPLIED
-   color CDATA #IMPLIED
    image CDATA #IMPLIED
-   flip CDATA #IMPLIED
-   height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
+   player CDATA #IMPLIED
 >
-<!ELEMENT board (match|position)* >
-<!ATTLIST board 
-   color CDATA #IMPLIED
+<!ELEMENT bar (#PCDATA|chequer)* >
+<!ATTLIST bar 
    image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
+   background CDATA #IMPLIED
+   x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
    flip CDATA #IMPLIED
    height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   font CDATA #IMPLIED
+   player CDATA #IMPLIED
+>
+<!ELEMENT bottom_frame (#PCDATA)* >
+<!ATTLIST bottom_frame 
+   image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
 >
-<!ELEMENT home (#PCDATA|cube|chequer)* >
-<!ATTLIST home 
-   player CDATA #IMPLIED
-   color CDATA #IMPLIED
+<!ELEMENT field (#PCDATA|die|cube|resign)* >
+<!ATTLIST field 
    image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
+   background CDATA #IMPLIED
+   x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   text CDATA #IMPLIED
    flip CDATA #IMPLIED
    height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   font CDATA #IMPLIED
+   player CDATA #IMPLIED
+>
+<!ELEMENT chequer (#PCDATA)* >
+<!ATTLIST chequer 
+   x_offset2 CDATA #IMPLIED
+   image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   y_offset2 CDATA #IMPLIED
+   hide_count CDATA #IMPLIED
+   y_offset CDATA #IMPLIED
+   x_offset CDATA #IMPLIED
+   max_count CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
-   fill CDATA #IMPLIED
+   player CDATA #IMPLIED
 >
 <!ELEMENT action (#PCDATA)* >
 <!ATTLIST action 
-   player CDATA #IMPLIED
-   color CDATA #IMPLIED
    image CDATA #IMPLIED
-   flip CDATA #IMPLIED
-   height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
+   player CDATA #IMPLIED
 >
-<!ELEMENT position (cubeholder|field|home|bar|point)* >
+<!ELEMENT position (cubeholder|field|home|bar|point|top_frame|bottom_frame)* >
 <!ATTLIST position 
-   color CDATA #IMPLIED
    image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
+   background CDATA #IMPLIED
+   x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
    flip CDATA #IMPLIED
    height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   font CDATA #IMPLIED
+>
+<!ELEMENT cube (#PCDATA)* >
+<!ATTLIST cube 
+   image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   initialCube CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
 >
 <!ELEMENT crawford (#PCDATA)* >
 <!ATTLIST crawford 
-   color CDATA #IMPLIED
    image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
+   background CDATA #IMPLIED
+   x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
    flip CDATA #IMPLIED
    height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   font CDATA #IMPLIED
+>
+<!ELEMENT cubeholder (#PCDATA|cube)* >
+<!ATTLIST cubeholder 
+   image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
 >
-<!ELEMENT match (action|length|crawford|score)* >
-<!ATTLIST match 
-   color CDATA #IMPLIED
+<!ELEMENT resign (#PCDATA)* >
+<!ATTLIST resign 
    image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   y_offset CDATA #IMPLIED
+   x_offset CDATA #IMPLIED
+   mag CDATA #IMPLIED
+   background CDATA #IMPLIED
+   x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
    flip CDATA #IMPLIED
    height CDATA #IMPLIED
-   width CDATA #IMPLIED
+   font CDATA #IMPLIED
+   player CDATA #IMPLIED
+>
+<!ELEMENT board (match|position)* >
+<!ATTLIST board 
+   image CDATA #IMPLIED
+   color CDATA #IMPLIED
+   mag CDATA #IMPLIED
    background CDATA #IMPLIED
-   y CDATA #IMPLIED
    x CDATA #IMPLIED
+   width CDATA #IMPLIED
+   y CDATA #IMPLIED
+   flip CDATA #IMPLIED
+   height CDATA #IMPLIED
    font CDATA #IMPLIED
 >
-
-- 
2.43.0


From 1fe7c4365fd63d08d489ce541a60cce17c6a18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:35 +0000
Subject: [PATCH 58/58] fix: only the first line of a preformatted block names
 its processor

---
 bglib/doc/bgwiki.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bglib/doc/bgwiki.py b/bglib/doc/bgwiki.py
index fe706da..34c4d09 100644
--- a/bglib/doc/bgwiki.py
+++ b/bglib/doc/bgwiki.py
@@ -130,6 +130,10 @@ class WrappingFormatterElement(bglib.doc.doctree.BgWikiElementNode, BaseFormatte
     self.buf += match + '\n'
 
   def _handle_pattern_processor_specifier(self, match, matchobj):
+    if self.wrapped is not None or self.buf:
+      # only the first line names the processor, others are text.
+      self._handle_pattern_rest_of_the_world(match, matchobj)
+      return
     d = matchobj.groupdict()
     self.prepare_formatter(d['processor_name'])
 
-- 
2.43.0

