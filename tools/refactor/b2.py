EDITS={'causet.py':[
("""        if (length < 1) or (height < 0):
            return Causet(set())
        elif length == 1:
            return Causet.NewChain(height + 1)
        else:
""","""        if not (length >= 1 and height >= 0):
            return Causet(set())
        if length == 1:
            return Causet.NewChain(height + 1)
        if True:
"""),
("""        for k in range(colcount):
            P |= np.outer(P[:, k], P[k, :])
""","""        for k in range(colcount):
            P = P | np.outer(P[:, k], P[k, :])
"""),
("""            past: Set[CausetEvent] = set(events[np.where(P[i, :])[0]])
            future: Set[CausetEvent] = set(events[np.where(P[:, i])[0]])
            if (past & future) or (e in past) or (e in future):
""","""            past: Set[CausetEvent] = {events[j] for j in range(colcount)
                                      if P[i, j]}
            future: Set[CausetEvent] = {events[j] for j in range(colcount)
                                        if P[j, i]}
            if (e in past) or (e in future) or not past.isdisjoint(future):
"""),
("""        c: int = len(events)
        for e in events:
            if len(e.Cone & events) != c:
                return False
        return True
""","""        for e in events:
            if not events.issubset(e.Cone):
                return False
        return True
"""),
("""        for e in events:
            if len(e.Cone & events) != 1:
                return False
        return True
""","""        for e in events:
            if (e.Past & events) or (e.Future & events):
                return False
        return True
"""),
("""        if includePresent and intersect:
            newEventSet = Causet.FutureOf(eventSet, includePresent=True)
            for e in eventSet:
                newEventSet &= e.PresentOrFuture
        elif intersect:
""","""        if intersect and includePresent:
            first = True
            for e in eventSet:
                if first:
                    newEventSet = set(e.PresentOrFuture)
                    first = False
                else:
                    newEventSet &= e.PresentOrFuture
        elif intersect:
"""),
("""            for e in eventSet:
                newEventSet |= e.Past | e.Future
            if includePresent:
                newEventSet |= eventSet
        return newEventSet
""","""            for e in eventSet:
                newEventSet |= e.Past
                newEventSet |= e.Future
            if includePresent:
                newEventSet.update(eventSet)
        return newEventSet
"""),
("""            return a.PresentOrFuture & b.PresentOrPast
        else:
            return a.Future & b.Past
""","""            interval = a.Future & b.Past
            interval.add(a)
            interval.add(b)
            return interval
        return a.Future & b.Past
"""),
("""        if not (a < b):
            return 0
        else:
            return len(a.LinkFuture & b.LinkPast)
""","""        return len(Causet.PerimetralEvents(a, b))
"""),
("""            for size in sizes:
            for i, e""","""            for size in sizes:
            for i, e""") if False else ("""        sizes = np.unique(sizeList)
""","""        sizes = sorted(set(sizeList))
"""),
("""            eventSet = self._events
        # events without a label""","""            eventSet = set(self._events)
        # events without a label"""),
("""                lnums[i] = 0""","""                lnums[i] = 0""") if False else ("""        if not pastIntersect and not futureIntersect:
            return 0
""","""        if not (pastIntersect or futureIntersect):
            return 0
"""),
("""        return self._events - self.ConeOf(eventSet, includePresent=True)
""","""        cone = self.ConeOf(eventSet)
        return self._events.difference(cone)
"""),
("""        self._events.difference_update(eventSet)
        if unlink:
            for e in self._events:
                e.unlink()
""","""        self._events -= set(eventSet)
        if unlink:
            self.unlink()
"""),
("""            return sum([e.LinkPastCard for e in self._events])
""","""            return sum(e.LinkPastCard for e in self._events)
"""),
("""                # path step along internal event:
                if find_max:
                    min_len = max(min_len, l)  # local maximum
                if l == max_len:
                    return
                l += 1
                for e in internal:
                    for p in Paths_find(path_a + [e], e, l):
                        yield p
""","""                # path step along internal event:
                if find_max and l > min_len:
                    min_len = l  # local maximum
                if l == max_len:
                    return
                for e in internal:
                    yield from Paths_find(path_a + [e], e, l + 1)
"""),
],
'shapes.py':[
("""            if self._name == 'ball':
                V = r**self._dim
                if isHollow:
                    V -= (self._params['hollow'] * r)**self._dim
                V *= math.pi**(self._dim / 2.0) / \\
                    math.gamma(self._dim / 2.0 + 1.0)
""","""            if self._name == 'ball':
                factor = math.pi**(self._dim / 2.0) / \\
                    math.gamma(self._dim / 2.0 + 1.0)
                V = r**self._dim
                if isHollow:
                    V = V * (1.0 - self._params['hollow']**self._dim)
                V = factor * V
"""),
("""        if self.Name == 'cube':
            return self._params['edge'] / 2
        elif self.Name in {'bicone', 'ball'}:
            return self._params['radius']
""","""        if self.Name in {'bicone', 'ball'}:
            return self.Parameter('radius')
        elif self.Name == 'cube':
            return 0.5 * self.Parameter('edge')
"""),
("""        shift: float = self._center[dim]
        return (-l + shift, l + shift)
""","""        c: float = self.Center[dim]
        return (c - l, c + l)
"""),
("""        if (dim < 0) or (dim >= self.Dim):
""","""        if not 0 <= dim < self.Dim:
"""),
],
'spacetimes.py':[
("""                    t_delta: float = y[0] - x[0]
                    isCausal: bool = abs(t_delta) >= \\
                        abs(y[1] - x[1]) - causality_eps
                    return ((t_delta >= 0.0) and isCausal,
                            (t_delta < 0.0) and isCausal)
""","""                    t_delta: float = y[0] - x[0]
                    if abs(t_delta) < abs(x[1] - y[1]) - causality_eps:
                        return (False, False)
                    return (t_delta >= 0.0, t_delta < 0.0)
"""),
("""                    isCausal: bool = np.square(t_delta) >= \\
                        sum(np.square(y[1:] - x[1:])) - causality_eps
""","""                    r2_delta: float = sum(np.square(x[1:] - y[1:]))
                    isCausal: bool = t_delta**2 >= r2_delta - causality_eps
"""),
("""                        if _period[i - 1] > 0.0:
                            r_delta_i = min(r_delta_i,
                                            _period[i - 1] - r_delta_i)
                        r2_delta += r_delta_i**2
""","""                        p = _period[i - 1]
                        if p > 0.0 and p - r_delta_i < r_delta_i:
                            r_delta_i = p - r_delta_i
                        r2_delta = r2_delta + r_delta_i * r_delta_i
"""),
("""            x0_delta: float = x0_y - x0_x
            isCausal: bool = x0_delta**2 >= \\
                sum(np.square(y[1:] - x[1:])) + (x1_y - x1_x)**2 - \\
                causality_eps
            return ((x0_delta >= 0.0) and isCausal,
                    (x0_delta < 0.0) and isCausal)
        return isCausal_dS
""","""            x0_delta: float = x0_y - x0_x
            x1_delta: float = x1_y - x1_x
            isCausal: bool = x0_delta**2 - x1_delta**2 - \\
                sum(np.square(y[1:] - x[1:])) >= -causality_eps
            if x0_delta >= 0.0:
                return (isCausal, False)
            return (False, isCausal)
        return isCausal_dS
"""),
("""                if isSwapped:  # swap
                    x, y = y, x
                    r_x, r_y = r_y, r_x
""","""                if isSwapped:  # swap
                    r_x, r_y = r_y, r_x
"""),
],
'sprinkledcauset.py':[
("""                for i in range(count):
                    # get coordinates on sphere""","""                scale: float = b_r
                for i in range(count):
                    # get coordinates on sphere"""),
("""            if shape.Name == 'cuboid':
                low = shape.Center - shape.Parameter('edges') / 2
                high = shape.Center + shape.Parameter('edges') / 2
            else:
                low = shape.Center - shape.Parameter('edge') / 2
                high = shape.Center + shape.Parameter('edge') / 2
""","""            key: str = 'edges' if shape.Name == 'cuboid' else 'edge'
            half = shape.Parameter(key) / 2
            low = shape.Center - half
            high = shape.Center + half
"""),
("""                coords[:, 0] = uv[:, 0] + uv[:, 1]
                coords[:, 1] = uv[:, 0] - uv[:, 1]
                coords *= b_r / 2
""","""                u = uv[:, 0]
                v = uv[:, 1]
                coords[:, 0] = u + v
                coords[:, 1] = u - v
                coords *= b_r / 2
"""),
("""        self._intensity += float(count)
        if shape is None:
            shape = self.Shape
        coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
        return super().create(coords)
""","""        region = self.Shape if shape is None else shape
        coords: np.ndarray = self._sprinkle_coords(count, region, rng)
        eventSet = super().create(coords)
        self._intensity += float(count)
        return eventSet
"""),
],
'calculations.py':[
("""        return sum(1. / k for k in range(n, 0, -1))
""","""        total: float = 0.
        for k in range(1, n + 1):
            total += 1. / k
        return total
"""),
("""        H[k] = total
        total += Fraction(1, k + 1)
""","""        H[k] = total
        total = total + Fraction(1, k + 1)
"""),
("""        if x_next < xmin:
            x_next = xmin + precission
        elif x_next > xmax:
            x_next = xmax - precission
        if abs(x_n - x_next) < precission:
            return x_next
""","""        if x_next > xmax:
            x_next = xmax - precission
        elif x_next < xmin:
            x_next = xmin + precission
        if abs(x_next - x_n) < precission:
            return x_next
"""),
],
'colorschemes.py':[
("""    if color.startswith('cs:'):
        color = CS[color[3:]]
    return color
""","""    if not color.startswith('cs:'):
        return color
    return CS[color[3:]]
"""),
("""            value = CS[value[3:]]
            plotParams[key] = value
""","""            plotParams[key] = CS[value[3:]]
"""),
("""    for i, value in enumerate(plotParams):
        if value.startswith('cs:'):
            value = CS[value[3:]]
            plotParams[i] = value
""","""    for i in range(len(plotParams)):
        if plotParams[i].startswith('cs:'):
            plotParams[i] = CS[plotParams[i][3:]]
"""),
],
'causetplotting.py':[
("""            return np.heaviside(_timefade_sgn * value, 1.0) * \\
                _alpha_max * (_timefade * value + 1.0)
""","""            visible = np.heaviside(_timefade_sgn * value, 1.0)
            return visible * _alpha_max * (1.0 + _timefade * value)
"""),
],
'embeddedcauset.py':[
("""        n: int = self.Card + 1
        eventSet: Set[CausetEvent] = {
            CausetEvent(label=(n + i) if labelFormat is None else
                        labelFormat.format(n + i), coordinates=c)
            for i, c in enumerate(coordinates)}
        self._events.update(eventSet)
""","""        n: int = self.Card
        eventSet: Set[CausetEvent] = set()
        for c in coordinates:
            n += 1
            label = n if labelFormat is None else labelFormat.format(n)
            eventSet.add(CausetEvent(label=label, coordinates=c))
        self._events |= eventSet
"""),
],
}
