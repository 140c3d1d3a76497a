EDITS={'causetevent.py':[
("""        if other in self._prec:
            return False
        else:
            if self.hasBeenLinked():
                self._lprec -= other._prec
                if not (other._succ & self._prec):
                    self._lprec.add(other)
            self._prec.add(other)
            return True
""","""        if other in self._prec:
            return False
        if self.hasBeenLinked():
            self._lprec.difference_update(other._prec)
            if not other._succ & self._prec:
                self._lprec.add(other)
        self._prec.add(other)
        return True
"""),
("""        for a in self._prec:
            for b in self._succ:
                a._addToFuture(b)
                b._addToPast(a)
""","""        for b in self._succ:
            for a in self._prec:
                b._addToPast(a)
                a._addToFuture(b)
"""),
("""        return (a in b._prec) and not (a._succ & b._prec)
""","""        if a not in b._prec:
            return False
        between = a._succ & b._prec
        return len(between) == 0
"""),
("""        try:
            return other in self._lprec
        except AttributeError:
            self.link()
            return other in self._lprec
""","""        if not hasattr(self, '_lprec'):
            self.link()
        return other in self._lprec
"""),
("""        return sum([len(e.LinkPast & eventSet) for e in eventSet])
""","""        count = 0
        for e in eventSet:
            count += len(e.LinkPast & eventSet)
        return count
"""),
("""        return self._prec | {self} | self._succ
""","""        cone = self._prec | self._succ
        cone.add(self)
        return cone
"""),
("""        if self in eventSet:
            return len(eventSet - self._prec - self._succ) - 1
        else:
            return len(eventSet - self._prec - self._succ)
""","""        count = len(eventSet - self._prec - self._succ)
        return count - 1 if self in eventSet else count
"""),
("""        try:
            return len(self._lprec) + len(self._lsucc)
        except AttributeError:
            self.link()
            return len(self._lprec) + len(self._lsucc)
""","""        return self.LinkPastCard + self.LinkFutureCard
"""),
("""            r = math.inf
            for a_succ in a_linked:
                for b_prec in b_linked:
                    r = min(r, a_succ.Rank(b_prec) + 2.0)
                    if r == 3.0:
                        return 3.0
            return r
""","""            r = math.inf
            for b_prec in b_linked:
                for a_succ in a_linked:
                    rank = a_succ.Rank(b_prec) + 2.0
                    if rank == 3.0:
                        return 3.0
                    if rank < r:
                        r = rank
            return r
"""),
("""        self.unlink()
        for e in self.Cone:
            e._discard(self)
        self._prec = set()
        for e in self.Cone:
            e._discard(self)
        self._succ = set()
""","""        def leave(events):
            for e in events:
                e._discard(self)
        self.unlink()
        leave(self.Cone)
        self._prec = set()
        leave(self.Cone)
        self._succ = set()
"""),
("""        value = list(value)
        if len(value) != 2:
            raise ValueError(
                'The position has to be an iterable of exactly two values.')
        self._position = value
""","""        position = list(value)
        if not len(position) == 2:
            raise ValueError(
                'The position has to be an iterable of exactly two values.')
        self._position = position
"""),
],
'causet.py':[
("""            for p in pastSet:
                for f in futureSet:
                    p._addToFuture(f)
                    f._addToPast(p)
        return Causet(set(pastSet) | set(futureSet))
""","""            for f in futureSet:
                for p in pastSet:
                    f._addToPast(p)
                    p._addToFuture(f)
        events = set(pastSet)
        events.update(futureSet)
        return Causet(events)
"""),
("""        for e in self._events:
            e._lsucc = {a for a in e._succ - self._events
                        if CausetEvent.isLink(e, a)}
""","""        for e in self._events:
            outside = e._succ - self._events
            e._lsucc = set(a for a in outside
                           if CausetEvent.isLink(e, a))
"""),
("""        events = set(events)
        c: int = len(events)
        for e in events:
            if len(e.Cone & events) != c:
                return False
        return True
""","""        events = set(events)
        c: int = len(events)
        return all(len(e.Cone & events) == c for e in events)
"""),
("""        return sum(1 for e in self._events if e.PastCard == 0)
""","""        return len(self.PastInf)
"""),
("""            newEventSet = Causet.PastOf(eventSet, includePresent=False)
            for e in eventSet:
                newEventSet &= e.Past
""","""            newEventSet = Causet.PastOf(eventSet, includePresent=False)
            for e in eventSet:
                newEventSet = newEventSet & e.Past
"""),
("""        if not a <= b:
            return 0
        elif a == b:
            return 1
        else:
            return len(a.Future & b.Past) + 2 * int(includeBoundary)
""","""        if not a <= b:
            return 0
        if a == b:
            return 1
        inner = len(a.Future & b.Past)
        return inner + 2 if includeBoundary else inner
"""),
("""        for i, a in enumerate(labeledEvents):
            for j, b in enumerate(labeledEvents):
                C[i, j] = a > b
        return C
""","""        for i in range(l):
            a = labeledEvents[i]
            for j in range(l):
                C[i, j] = a > labeledEvents[j]
        return C
"""),
("""        for i in range(c):
            for j in range(i):
                if eList[i] < eList[j]:
                    eList[i], eList[j] = eList[j], eList[i]
""","""        for i in range(1, c):
            for j in range(i):
                if eList[j] > eList[i]:
                    eList[j], eList[i] = eList[i], eList[j]
"""),
("""        return {e for e in eventSet if not (e.Future & eventSet)}
""","""        result: Set[CausetEvent] = set()
        for e in eventSet:
            if not (e.Future & eventSet):
                result.add(e)
        return result
"""),
("""            eventList[i] = CausetEvent(
                past={eventList[j] for j in range(i)
                      if P.index(j + 1) + 1 < v},
                label=eLabel)
""","""            past = {eventList[j] for j in range(i)
                    if P.index(j + 1) + 1 < v}
            eventList[i] = CausetEvent(past=past, label=eLabel)
"""),
("""                setB: Set[CausetEvent] = a.Future & eventSet
                if setB:
                    lnums[i] = -(max(Causet.IntervalCard(a, b)
                                     for b in (a.Future & eventSet)) - 1)
""","""                setB: Set[CausetEvent] = a.Future & eventSet
                if len(setB) > 0:
                    lnums[i] = 1 - max(Causet.IntervalCard(a, b)
                                       for b in setB)
"""),
],
'embeddedcauset.py':[
("""        for i, a in enumerate(eventList):
            for j in range(i + 1, eventList_len):
                b = eventList[j]
                isAB, isBA""","""        for i in range(eventList_len):
            a = eventList[i]
            for j in range(i + 1, eventList_len):
                b = eventList[j]
                isAB, isBA"""),
("""        for i, idx in enumerate(sorted_idx):
            eventList[idx].Label = i + 1
""","""        label = 0
        for idx in sorted_idx:
            label += 1
            eventList[idx].Label = label
"""),
("""                crd_u: float = (p - 0.5) * cellscale
                crd_v: float = (i + 0.5) * cellscale
""","""                crd_v: float = cellscale * (i + 0.5)
                crd_u: float = cellscale * (p - 0.5)
"""),
],
}
