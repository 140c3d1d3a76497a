From eb39701505ed2b2165039b7aecb4f9eaaf61c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/31] fix: LinkConeCard adds the two link counts instead of
 bitwise-anding them

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index efe1772..21ff22f 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -416,10 +416,10 @@ class CausetEvent(object):
         cardinality).
         '''
         try:
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
         except AttributeError:
             self.link()
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
 
     def copy(self) -> 'CausetEvent':
         '''
-- 
2.43.0


From 39fb2259b9d75f7210a0e91ccbbddbe1bd46b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 02/31] fix: unlink() (and disjoin(), add/discard with unlink)
 on an event without link memory

---
 causetevent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 21ff22f..743bb5b 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -214,8 +214,9 @@ class CausetEvent(object):
         '''
         Force the CausetEvent instance to reset its link memory.
         '''
-        delattr(self, '_lprec')
-        delattr(self, '_lsucc')
+        if self.hasBeenLinked():
+            delattr(self, '_lprec')
+            delattr(self, '_lsucc')
 
     @classmethod
     def isLink(cls, a: 'CausetEvent', b: 'CausetEvent') -> bool:
-- 
2.43.0


From 73b1b4b9eeee750515a03c19add6c833eecf9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 03/31] fix: discarding a linked event restores the links that
 only it interrupted

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 743bb5b..90e220c 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -111,14 +111,16 @@ class CausetEvent(object):
         if other in self._prec:
             if self.hasBeenLinked() and (other in self._lprec):
                 self._lprec |= {
-                    e for e in other._prec if CausetEvent.isLink(e, self)}
+                    e for e in other._prec
+                    if not ((e._succ & self._prec) - {other})}
                 self._lprec.remove(other)
             self._prec.discard(other)
             return True
         elif other in self._succ:
             if self.hasBeenLinked() and (other in self._lsucc):
                 self._lsucc |= {
-                    e for e in other._succ if CausetEvent.isLink(self, e)}
+                    e for e in other._succ
+                    if not ((self._succ & e._prec) - {other})}
                 self._lsucc.remove(other)
             self._succ.discard(other)
             return True
-- 
2.43.0


From ddf29cf9d2d43c7b18d530a4fcf3618ad61e1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 04/31] fix: isLink is False for events that are not causally
 related

---
 causetevent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 90e220c..270ec34 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -82,7 +82,7 @@ class CausetEvent(object):
         if other in self._prec:
             return False
         else:
-            if self.hasBeenLinked() and CausetEvent.isLink(other, self):
+            if self.hasBeenLinked() and not (other._succ & self._prec):
                 self._lprec -= other._prec
                 self._lprec.add(other)
             self._prec.add(other)
@@ -97,7 +97,7 @@ class CausetEvent(object):
         if other in self._succ:
             return False
         else:
-            if self.hasBeenLinked() and CausetEvent.isLink(self, other):
+            if self.hasBeenLinked() and not (self._succ & other._prec):
                 self._lsucc -= other._succ
                 self._lsucc.add(other)
             self._succ.add(other)
@@ -230,7 +230,7 @@ class CausetEvent(object):
         method many times, faster access is achieved with the call of 
         a.isFutureLink(b).
         '''
-        return not (a._succ & b._prec)
+        return (a in b._prec) and not (a._succ & b._prec)
 
     def isPastLink(self, other: 'CausetEvent') -> bool:
         '''
-- 
2.43.0


From 8db8b79e58c13c0ca49bcb1b02f37cffd8d59299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 05/31] fix: an event created with past and future events
 relates the past to the future

---
 causetevent.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causetevent.py b/causetevent.py
index 270ec34..94d5c8b 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -65,6 +65,11 @@ class CausetEvent(object):
             e._addToFuture(self)
         for e in self._succ:
             e._addToPast(self)
+        # Relate past and future events through this instance:
+        for a in self._prec:
+            for b in self._succ:
+                a._addToFuture(b)
+                b._addToPast(a)
 
     def hasBeenLinked(self) -> bool:
         '''
-- 
2.43.0


From e2b0827840e71bd9126233a4e5fdbf4583f590f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 06/31] fix: an event created without coordinates is not
 embedded (and can be embedded)

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 94d5c8b..8cde5fb 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,8 +58,10 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
-        self._coordinates = list(kwargs.get('coordinates', []))
-        self._position = list(kwargs.get('position', []))
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self._position = list(kwargs['position'])
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From ba6caab0dedf71b981a233c8127feab8dbf938a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 07/31] fix: set - Causet keeps the events of the set, not of
 the causet

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 5b5785f..d0a37cf 100644
--- a/causet.py
+++ b/causet.py
@@ -392,7 +392,7 @@ class Causet(object):
         return self._events - set(other)
 
     def __rsub__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
-        return self._events - set(other)
+        return set(other) - self._events
 
     def __or__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
         return self._events | set(other)
-- 
2.43.0


From 669799d8652cd869cd5c6edeed7907c9224f0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 08/31] fix: PastOf/FutureOf/ConeOf with intersect return the
 intersection, not always the empty set

---
 causet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causet.py b/causet.py
index d0a37cf..4a25053 100644
--- a/causet.py
+++ b/causet.py
@@ -552,9 +552,11 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
+            newEventSet = Causet.PastOf(eventSet, includePresent=True)
             for e in eventSet:
                 newEventSet &= e.PresentOrPast
         elif intersect:
+            newEventSet = Causet.PastOf(eventSet, includePresent=False)
             for e in eventSet:
                 newEventSet &= e.Past
         else:
@@ -572,9 +574,11 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
+            newEventSet = Causet.FutureOf(eventSet, includePresent=True)
             for e in eventSet:
                 newEventSet &= e.PresentOrFuture
         elif intersect:
+            newEventSet = Causet.FutureOf(eventSet, includePresent=False)
             for e in eventSet:
                 newEventSet &= e.Future
         else:
@@ -592,9 +596,11 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
+            newEventSet = Causet.ConeOf(eventSet, includePresent=True)
             for e in eventSet:
                 newEventSet &= e.Cone
         elif intersect:
+            newEventSet = Causet.ConeOf(eventSet, includePresent=False)
             for e in eventSet:
                 newEventSet &= (e.Past | e.Future)
         else:
-- 
2.43.0


From aefb3a79518d9afbf8bfbaa4518e17f7c76dff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 09/31] fix: isPath is False for diamonds and zigzags (and for
 chains with missing links)

---
 causet.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/causet.py b/causet.py
index 4a25053..470e4ce 100644
--- a/causet.py
+++ b/causet.py
@@ -448,23 +448,16 @@ class Causet(object):
         Tests if this instance or `CausetEvent` is a causal path.
         '''
         if events is None:
-            if self.Card == 0:
+            events = self._events
+        events = set(events)
+        if len(events) <= 1:
+            return len(events) == 1
+        if not self.isChain(events):
+            return False
+        # every event but the first has to be linked to its predecessor:
+        for e in events:
+            if (e.Past & events) and not (e.LinkPast & events):
                 return False
-            else:
-                return self.isChain()
-        else:
-            events = set(events)
-            if len(events) <= 1:
-                return len(events) == 1
-            extremal: int = 0
-            for e in events:
-                e_linkcount: int = len(e.LinkCone & events)
-                if (e_linkcount < 1) or (e_linkcount > 2):
-                    return False
-                elif e_linkcount == 1:
-                    extremal += 1
-                    if extremal > 2:
-                        return False
         return True
 
     def isAntichain(self, events: Optional[Iterable[CausetEvent]] = None) -> \
-- 
2.43.0


From 3e8adecf1a6cb5003cd31ad40c377b6c8bcc61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 10/31] fix: isChain/isAntichain of a causet ignore events that
 are not (or no longer) in the causet

---
 causet.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/causet.py b/causet.py
index 470e4ce..045571f 100644
--- a/causet.py
+++ b/causet.py
@@ -429,18 +429,13 @@ class Causet(object):
         '''
         Tests if this instance or `CausetEvent` is a causal chain.
         '''
-        c: int
         if events is None:
-            c = self.Card
-            for e in self._events:
-                if e.ConeCard != c:
-                    return False
-        else:
-            events = set(events)
-            c = len(events)
-            for e in events:
-                if len(e.Cone & events) != c:
-                    return False
+            events = self._events
+        events = set(events)
+        c: int = len(events)
+        for e in events:
+            if len(e.Cone & events) != c:
+                return False
         return True
 
     def isPath(self, events: Optional[Iterable[CausetEvent]] = None) -> bool:
@@ -466,14 +461,11 @@ class Causet(object):
         Tests if this instance of `CausetEvent` is a causal anti-chain.
         '''
         if events is None:
-            for e in self._events:
-                if e.ConeCard != 1:
-                    return False
-        else:
-            events = set(events)
-            for e in events:
-                if len(e.Cone & events) != 1:
-                    return False
+            events = self._events
+        events = set(events)
+        for e in events:
+            if len(e.Cone & events) != 1:
+                return False
         return True
 
     @property
-- 
2.43.0


From e94fc573b31ea30f89b4f65e75d05a14ff9d71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 11/31] fix: relating a linked event removes the links that the
 new relation interrupts

---
 causetevent.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 8cde5fb..7adaef5 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -89,9 +89,10 @@ class CausetEvent(object):
         if other in self._prec:
             return False
         else:
-            if self.hasBeenLinked() and not (other._succ & self._prec):
+            if self.hasBeenLinked():
                 self._lprec -= other._prec
-                self._lprec.add(other)
+                if not (other._succ & self._prec):
+                    self._lprec.add(other)
             self._prec.add(other)
             return True
 
@@ -104,9 +105,10 @@ class CausetEvent(object):
         if other in self._succ:
             return False
         else:
-            if self.hasBeenLinked() and not (self._succ & other._prec):
+            if self.hasBeenLinked():
                 self._lsucc -= other._succ
-                self._lsucc.add(other)
+                if not (self._succ & other._prec):
+                    self._lsucc.add(other)
             self._succ.add(other)
             return True
 
-- 
2.43.0


From f79173b020375fc170aa2cbc5fb34546e01ed217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 12/31] fix: FromPastMatrix computes the transitive closure,
 detects all loops and relates padded events

---
 causet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/causet.py b/causet.py
index 045571f..c26c58f 100644
--- a/causet.py
+++ b/causet.py
@@ -179,22 +179,22 @@ class Causet(object):
         if colcount < rowcount:
             raise ValueError('The specified matrix cannot be extended ' +
                              'to a square matrix.')
+        # complete pasts and futures (if the input contains links only)
+        P: np.ndarray = np.zeros((colcount, colcount), dtype=bool)
+        P[:rowcount, :] = C
+        for k in range(colcount):
+            P |= np.outer(P[:, k], P[k, :])
         events: np.ndarray = np.array([CausetEvent(label=i)
                                        for i in range(1, colcount + 1)])
         e: CausetEvent
-        for i in range(rowcount):
+        for i in range(colcount):
             e = events[i]
-            past: Set[CausetEvent] = set(events[np.where(C[i, :])[0]])
-            future: Set[CausetEvent] = set(events[np.where(C[:, i])[0]])
+            past: Set[CausetEvent] = set(events[np.where(P[i, :])[0]])
+            future: Set[CausetEvent] = set(events[np.where(P[:, i])[0]])
             if (past & future) or (e in past) or (e in future):
                 raise ValueError('The causet is not anti-symmetric.')
             e._prec = past
             e._succ = future
-        # complete pasts and futures (if the input contains links only)
-        for i in range(colcount):
-            e = events[i]
-            e._prec = Causet.PastOf(e._prec, includePresent=True)
-            e._succ = Causet.FutureOf(e._succ, includePresent=True)
         return Causet(set(events))
 
     @staticmethod
-- 
2.43.0


From e5e24e7d7018d3bbe430e4710b7061279df32082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 13/31] fix: merge resets the link memory of events that get
 new relations

---
 causet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causet.py b/causet.py
index c26c58f..4421e22 100644
--- a/causet.py
+++ b/causet.py
@@ -230,6 +230,8 @@ class Causet(object):
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
         if not disjoint:  # add pastSet as past of futureSet
+            for e in set(pastSet) | set(futureSet):
+                e.unlink()  # new relations interrupt links
             for p in pastSet:
                 for f in futureSet:
                     p._addToFuture(f)
-- 
2.43.0


From 55da37574747ce9544dc867859550f856c8a02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 14/31] fix: Causet.link also links to related events outside
 the causet

---
 causet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index 4421e22..d346b36 100644
--- a/causet.py
+++ b/causet.py
@@ -280,13 +280,14 @@ class Causet(object):
         '''
         Computes the causal links between all events.
         '''
-        # clear links:
+        # clear links (except to events that are not in this causet):
         for e in self._events:
-            e._lsucc = set()
+            e._lsucc = {a for a in e._succ - self._events
+                        if CausetEvent.isLink(e, a)}
         # compute links:
         for b in self._events:
             b._lprec = {a for a in b._prec if CausetEvent.isLink(a, b)}
-            for a in b._lprec:
+            for a in b._lprec & self._events:
                 a._lsucc.add(b)
 
     def unlink(self) -> None:
-- 
2.43.0


From dc1fb16a1d3575dadbd60650956eafa6b9dc2282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 15/31] fix: LengthScale is the inverse d-root of the density

---
 embeddedcauset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index f8a7ca8..edf01a2 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -184,7 +184,8 @@ class EmbeddedCauset(Causet):
         Returns the fundamental length scale as inverse d-root of 
         `self.Density` if `card > 0`, else 0.0. 
         '''
-        return 0.0 if self.Card == 0 else self.Density**(1.0 / self.Shape.Dim)
+        return 0.0 if self.Card == 0 else \
+            self.Density**(-1.0 / self.Shape.Dim)
 
     def create(self, coordinates: Union[List[List[float]],
                                         List[np.ndarray],
-- 
2.43.0


From 32a443697f729641a1da155a3028a2c9ab72d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 16/31] fix: sprinkling into a bicone (named 'diamond' before
 it is renamed) fills the coordinates

---
 sprinkledcauset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 28dfc3c..fc7c202 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -82,10 +82,10 @@ class SprinkledCauset(EmbeddedCauset):
                 high = shape.Center + shape.Parameter('edge') / 2
             for i in range(count):
                 coords[i, :] = rng.uniform(low, high)
-        elif shape.Name in ('ball', 'cylinder', 'diamond'):
+        elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'diamond' in shape.Name
+            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
             if (d == 2) and isDiamond:
-- 
2.43.0


From 5504f01902da7795e47946fbf551d77ccb6d5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 17/31] fix: sprinkling into a bicone respects its center and
 (in 2D) its hollow interior

---
 sprinkledcauset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index fc7c202..80117c2 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -88,13 +88,14 @@ class SprinkledCauset(EmbeddedCauset):
             isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
-            if (d == 2) and isDiamond:
+            if (d == 2) and isDiamond and shape.Parameter('hollow') == 0.0:
                 # pick `count` random coordinate tuples uniformly:
                 uv: np.ndarray = rng.uniform(low=-1.0, high=1.0,
                                              size=(count, 2))
                 coords[:, 0] = uv[:, 0] + uv[:, 1]
                 coords[:, 1] = uv[:, 0] - uv[:, 1]
                 coords *= b_r / 2
+                coords += shape.Center
             else:
                 b_dstart: int = 0 if shape.Name == 'ball' else 1
                 b_d: int = d - b_dstart
@@ -119,7 +120,8 @@ class SprinkledCauset(EmbeddedCauset):
                         h_squeeze: float = rng.uniform()**(1.0 / d)
                         h_sign: float = np.sign(
                             rng.uniform(low=-1.0, high=1.0))
-                        coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
+                        coords[i, 0] = shape.Center[0] + \
+                            h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
                     coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-- 
2.43.0


From ab0162078ecf121561d5424ad3f9c84673cc4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 18/31] fix: SprinkledCauset.discard on an empty causet does
 not divide by zero

---
 sprinkledcauset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 80117c2..9a84a11 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -179,4 +179,5 @@ class SprinkledCauset(EmbeddedCauset):
     def discard(self, eventSet: Iterable, unlink: bool = False) -> None:
         card_old: float = float(self.Card)
         super().discard(eventSet, unlink)
-        self._intensity *= (float(self.Card) / card_old)
+        if card_old > 0.0:
+            self._intensity *= (float(self.Card) / card_old)
-- 
2.43.0


From 080c2c798601b1a427fc797e1d6a86c99f688f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 19/31] fix: repr of a CoordinateShape

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index d118fb3..4eef303 100644
--- a/shapes.py
+++ b/shapes.py
@@ -143,7 +143,7 @@ class CoordinateShape(object):
             return f'{self._dim}-{self._name}'
 
     def __repr__(self):
-        return f'{self._class__._name__}(' + \
+        return f'{self.__class__.__name__}(' + \
             f'{self._dim}, {self._name}, center={self._center}, ' + \
             f'**{self._params})'
 
-- 
2.43.0


From a0417040680f644204f1892a26b20f3430685910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 20/31] fix: repr of a FlatSpacetime that is not periodic

---
 spacetimes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index f41880b..0e1f28b 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -278,7 +278,9 @@ class FlatSpacetime(Spacetime):
             self._params['period'] = _periods
 
     def __repr__(self):
-        _period: Tuple[float, ...] = self.Parameter('period')
+        _period: Union[float, Tuple[float, ...]] = 0.0
+        if self.Parameter('isPeriodic'):
+            _period = tuple(self.Parameter('period'))
         return f'{self.__class__.__name__}({self._dim}, period={_period})'
 
     def DefaultShape(self) -> CoordinateShape:
-- 
2.43.0


From 6da917bedd9f97e7d87c7393f6b8b1a4ca62364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 21/31] fix: color 'lime' of the scheme 'ImperialLondon' is a
 valid color

---
 colorschemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colorschemes.py b/colorschemes.py
index abc0813..72e2ec1 100644
--- a/colorschemes.py
+++ b/colorschemes.py
@@ -66,7 +66,7 @@ ColorSchemes: Dict[str, Dict[str, str]] = {
                               'cyan':        '#009CBC',
                               'green':       '#02893B',
                               'kermitgreen': '#66A40A',
-                              'lime':        '#BBCEOO',
+                              'lime':        '#BBCE00',
                               'yellow':      '#FFDD00',
                               'tangerine':   '#EC7300',
                               'orange':      '#D24000',
-- 
2.43.0


From fbb71b75eba27716ecb35e47a44689516fd3bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 22/31] fix: conetimefade='' switches off the fading of causal
 cones

---
 causetplotting.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index ba0e559..aca55b7 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -395,28 +395,32 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         coordattr = 'Coordinates'
     if isPlottingPastcones:
         pcn_alpha_max: float
+        pcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
             try:
                 pcn_alpha_max = plotting['pastcones']['alpha']
             except KeyError:
                 pcn_alpha_max = 1.0
+            pcn_alpha = dynamic_parameter(
+                plotting['conetimefade'], dim,
+                abs(plotting['conetimedepth']), pcn_alpha_max)
         plotpcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['pastcones'], timesign=-1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           pcn_alpha_max))
+            dynamicAlpha=pcn_alpha)
     if isPlottingFuturecones:
         fcn_alpha_max: float
+        fcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
             try:
                 fcn_alpha_max = plotting['futurecones']['alpha']
             except KeyError:
                 fcn_alpha_max = 1.0
+            fcn_alpha = dynamic_parameter(
+                plotting['conetimefade'], dim,
+                abs(plotting['conetimedepth']), fcn_alpha_max)
         plotfcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['futurecones'], timesign=1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           fcn_alpha_max))
+            dynamicAlpha=fcn_alpha)
     # ====================
     plotting_links: Dict[str, Any] = {}
     if 'links' in plotting:
-- 
2.43.0


From c75ae57082b8c5719561edfa602cbc9dc1c752a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 23/31] fix: dynamic plots without links

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index aca55b7..3b96d66 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -437,7 +437,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             plotting_labels = plotting['labels']
         dyn_links = dynamic_parameter(plotting['timefade'],
                                       dim, t_depth,
-                                      plotting_links['linewidth'])
+                                      plotting_links.get('linewidth', 2.0))
         dyn_events = dynamic_parameter(plotting['timefade'],
                                        dim, t_depth,
                                        plotting_events.get('alpha', 1.0))
-- 
2.43.0


From fff04abd622e212c610595933ccfed0d60a60ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 24/31] fix: sortedByLabels, sortedByCausality and the causal
 matrices with unlabelled events

---
 causet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index d346b36..a85c5ad 100644
--- a/causet.py
+++ b/causet.py
@@ -1129,11 +1129,14 @@ class Causet(object):
         '''
         if eventSet is None:
             eventSet = self._events
-        unsortedList: List[CausetEvent] = list(eventSet)
+        # events without a label are placed first (in arbitrary order)
+        sortedList: List[CausetEvent] = [e for e in eventSet
+                                         if e.Label is None]
+        unsortedList: List[CausetEvent] = [e for e in eventSet
+                                           if e.Label is not None]
         sortedIndex: np.ndarray = \
             np.argsort([e.Label for e in unsortedList])
-        sortedList: List[CausetEvent] = \
-            [unsortedList[i] for i in sortedIndex]
+        sortedList += [unsortedList[i] for i in sortedIndex]
         if reverse:
             sortedList.reverse()
         return sortedList
-- 
2.43.0


From 14e9aec7c7c47c9bd765b790dc9c83cd44e6dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 25/31] fix: layered does not drop events of subsets

---
 causet.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/causet.py b/causet.py
index a85c5ad..b159190 100644
--- a/causet.py
+++ b/causet.py
@@ -1169,14 +1169,14 @@ class Causet(object):
         '''
         if eventSet is None:
             eventSet = self._events
-        layer_step: int = -1 if reverse else 1
+        remaining: Set[CausetEvent] = set(eventSet)
         layer: Set[CausetEvent]
-        if reverse:
-            layer = self.FutureInfOf(eventSet)
-        else:
-            layer = self.PastInfOf(eventSet)
         layeredList: List[Set[CausetEvent]] = []
-        while layer:
+        while remaining:
+            if reverse:
+                layer = self.FutureInfOf(remaining)
+            else:
+                layer = self.PastInfOf(remaining)
             layeredList.append(layer)
-            layer = self.Layers(layer, layer_step) & eventSet
+            remaining -= layer
         return layeredList
-- 
2.43.0


From dc14b2337a2e7918e40e14b7465aeffe103d149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 26/31] fix: HarmonicNumbers does not overflow int64 for n >
 55108

---
 calculations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/calculations.py b/calculations.py
index 33ee0eb..104d580 100644
--- a/calculations.py
+++ b/calculations.py
@@ -46,7 +46,8 @@ def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
         H[n_range] = np.log(n_range) + np.euler_gamma
         H[n_range] += 0.5 / n_range
         H[n_range] -= 0.25 / 3 / np.square(n_range)
-        H[n_range] += 0.025 / 3 / np.square(np.square(n_range))
+        n_float: np.ndarray = n_range.astype(float)  # n^4 exceeds int64
+        H[n_range] += 0.025 / 3 / np.square(np.square(n_float))
     return H
 
 
-- 
2.43.0


From 035ae84bad16c9264a0d74348167171e060f485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 27/31] fix: reading a saved causet with a single event or
 without events

---
 causet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index b159190..e95dfb1 100644
--- a/causet.py
+++ b/causet.py
@@ -213,7 +213,9 @@ class Causet(object):
         parsed with `FromPastMatrix` or `FromFutureMatrix`.
         '''
         C: np.ndarray = np.genfromtxt(filename, dtype=int,
-                                      delimiter=delimiter, **kwargs)
+                                      delimiter=delimiter, ndmin=2, **kwargs)
+        if C.size == 0:  # empty file
+            C = C.reshape((0, 0))
         C = C.astype(bool)
         if isPastMatrix:
             return Causet.FromPastMatrix(C)
-- 
2.43.0


From d597533b23046731fda9535040b35f64eac91e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 28/31] fix: Antipaths between events that are not connected

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index e95dfb1..fef439b 100644
--- a/causet.py
+++ b/causet.py
@@ -1068,7 +1068,7 @@ class Causet(object):
         b_idx: int = antichainList.index(b)
         D: np.ndarray = distances if distances is not None \
             else self.DistanceMatrix(antichainList, recursive=True)
-        if D[a_idx, b_idx] == -1:
+        if D[a_idx, b_idx] < 1:  # not connected
             return
 
         def Antipaths_find(e_idx: int) -> Iterator[List[CausetEvent]]:
-- 
2.43.0


From 09e5ed3a42b6fc8319ca751c3b8af99dbf0f66de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 29/31] fix: sprinkling into one-dimensional bicones and
 cylinders

---
 sprinkledcauset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 9a84a11..2857fab 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -85,8 +85,8 @@ class SprinkledCauset(EmbeddedCauset):
         elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
+            isDiamond: bool = 'bicone' in shape.Name and d > 1
             b_r: float = shape.Parameter('radius')
             if (d == 2) and isDiamond and shape.Parameter('hollow') == 0.0:
                 # pick `count` random coordinate tuples uniformly:
@@ -97,7 +97,7 @@ class SprinkledCauset(EmbeddedCauset):
                 coords *= b_r / 2
                 coords += shape.Center
             else:
-                b_dstart: int = 0 if shape.Name == 'ball' else 1
+                b_dstart: int = 1 if isCylindrical or isDiamond else 0
                 b_d: int = d - b_dstart
                 if isCylindrical:
                     # set time coordinate:
@@ -107,6 +107,8 @@ class SprinkledCauset(EmbeddedCauset):
                         shape.Parameter('duration') / 2
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
+                if b_d == 0:
+                    return coords  # a line, without space coordinates
                 # pick `count` random coordinate tuples uniformly:
                 r_low: float = shape.Parameter('hollow')**b_d
                 for i in range(count):
-- 
2.43.0


From ddbfe9d0278b4ad2efbf55b49ea2509f3b995f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 30/31] fix: MaxEdgeHalf of a cylinder for the time dimension
 alone

---
 shapes.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/shapes.py b/shapes.py
index 4eef303..570d806 100644
--- a/shapes.py
+++ b/shapes.py
@@ -221,11 +221,8 @@ class CoordinateShape(object):
         elif self.Name in {'bicone', 'ball'}:
             return self._params['radius']
         elif self.Name == 'cylinder':
-            if dims.count(0) > 0:
-                return max([self._params['radius'],
-                            self._params['duration'] / 2])
-            else:
-                return self._params['radius']
+            return max(self._params['duration'] / 2 if d == 0
+                       else self._params['radius'] for d in dims)
         else:  # cuboid
             return max(self._params['edges'][dims]) / 2
 
-- 
2.43.0


From a12eceae386604558cf543fa106171c53050dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 31/31] fix: sprinkle into a hollow bicone placed a point in
 the empty interior when the sign draw is 0

---
 sprinkledcauset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 2857fab..5146465 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -120,8 +120,8 @@ class SprinkledCauset(EmbeddedCauset):
                     if isDiamond:
                         # set time coordinate:
                         h_squeeze: float = rng.uniform()**(1.0 / d)
-                        h_sign: float = np.sign(
-                            rng.uniform(low=-1.0, high=1.0))
+                        h_sign: float = -1.0 if rng.uniform(
+                            low=-1.0, high=1.0) < 0.0 else 1.0
                         coords[i, 0] = shape.Center[0] + \
                             h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
-- 
2.43.0

