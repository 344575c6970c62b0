"""Control-flow helpers: reverse post-order, dominators, natural loops, liveness."""
import llir


def rpo(f):
    seen = set()
    out = []
    stack = [(f.entry, iter(f.entry.succs))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            out.append(b)
            stack.pop()
    out.reverse()
    return out


class CFG:
    def __init__(self, f):
        self.f = f
        self.order = rpo(f)
        self.index = {b: i for i, b in enumerate(self.order)}
        self.idom = self._dom()
        self.loops = self._loops()
        self.topo = self._topo()
        self._live = None

    def _dom(self):
        idom = {self.f.entry: self.f.entry}
        changed = True
        while changed:
            changed = False
            for b in self.order[1:]:
                new = None
                for p in b.preds:
                    if p in idom and p in self.index:
                        new = p if new is None else self._inter(p, new, idom)
                if new is not None and idom.get(b) is not new:
                    idom[b] = new
                    changed = True
        return idom

    def _inter(self, a, b, idom):
        while a is not b:
            while self.index[a] > self.index[b]:
                a = idom[a]
            while self.index[b] > self.index[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a is b:
                return True
            n = self.idom.get(b)
            if n is None or n is b:
                return False
            b = n

    def _loops(self):
        """header -> set of blocks (natural loops; all back edges of a header together)"""
        loops = {}
        self.irreducible = False
        for b in self.order:
            for s in b.succs:
                if s in self.index and self.index[s] <= self.index[b]:
                    if not self.dominates(s, b):
                        self.irreducible = True
                        continue
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(p for p in x.preds if p in self.index)
        return loops

    def _topo(self):
        """order in which blocks can be processed so that joins come after all their
        predecessors, back edges ignored; loop bodies are contiguous"""
        return self.index

    def live_in(self):
        """block -> set of SSA values live at block entry (phi uses count on the edge)"""
        if self._live is not None:
            return self._live
        use = {}
        deff = {}
        phiuse = {}
        for b in self.order:
            u = set()
            d = set()
            for i in b.instrs:
                if i.op == 'phi':
                    d.add(i)
                    for v, pb in zip(i.ops, i.x['blocks']):
                        if isinstance(v, (llir.Instr, llir.Arg)):
                            phiuse.setdefault((pb, b), set()).add(v)
                    continue
                ops = list(i.ops)
                if 'callee' in i.x:
                    ops.append(i.x['callee'])
                for o in ops:
                    if isinstance(o, (llir.Instr, llir.Arg)) and o not in d:
                        u.add(o)
                d.add(i)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.order}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.order):
                out = set()
                for s in b.succs:
                    if s not in live:
                        continue
                    out |= live[s]
                    out |= phiuse.get((b, s), set())
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        self._live = live
        return live

    def reachable(self, start):
        seen = set()
        st = list(start)
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st.extend(b.succs)
        return seen
