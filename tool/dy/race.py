"""Accesses of the iterations of parallel loops, and conflicts between them.

ON is None, or the recorder that the engines report to."""
ON = None


class Recorder:
    def __init__(self, p):
        self.p = p
        self.found = {}         # label -> text
        self.kernels = {}       # label -> number of iterations
        self.accesses = 0
        self.gr = {}            # (grid, kernel) -> {'r': {key: (iteration, cell)}, 'w': {key: iteration}, ...}
        self.stack = []         # iterations of loops being followed
        self.atomic = 0

    # ---- loops over the cells of an abstract mesh
    def label(self, lam):
        g = next((self.p.fns[x] for x in lam.node.get('fns', ()) if x in self.p.fns and self.p.fns[x].get('body')), None)
        if g is None:
            return '?'
        return '%s:%s' % (g.get('file', '?'), g.get('line', lam.node.get('l', '?')))

    def kernel(self, g, j, lam):
        k = self.gr.get((id(g), j))
        if k is None:
            k = self.gr[id(g), j] = {'label': self.label(lam), 'r': {}, 'w': {}, 'any': set(), 'n': 0, 'g': g, 'wide': False}
        return k

    def read(self, g, j, lam, me, key, cell):
        self.accesses += 1
        k = self.kernel(g, j, lam)
        k['any'].add(key)
        if cell != me:
            k['r'].setdefault(key, (me, cell))

    def write(self, g, j, lam, me, key, cell):
        self.accesses += 1
        k = self.kernel(g, j, lam)
        if cell != me:
            self.report(k['label'], 'the iteration of one cell writes %s of another cell, which other iterations may access' % name(key))
        k['w'].setdefault(key, me)

    def ran(self, g, j, lam, wide=False):
        k = self.kernel(g, j, lam)
        k['wide'] = wide
        k['n'] += 1
        self.kernels[k['label']] = self.kernels.get(k['label'], 0) + 1

    def report(self, label, text):
        self.found.setdefault(label, text)

    # ---- loops that are followed one iteration after the other
    def loop(self, lam):
        return Loop(self, lam)

    def access(self, kind, loc, v=None):
        if not self.stack:
            return
        self.accesses += 1
        if self.atomic:
            kind = 'a'
        for l in self.stack:
            l.add(kind, loc, v)

    def finish(self):
        for k in self.gr.values():
            for key, (me, cell) in k['r'].items():
                if key in k['w']:
                    self.report(k['label'], 'an iteration reads %s of another cell while the iteration of that cell writes it: the result depends on their order' % name(key))
        # kernels of one loop over patches: nothing orders a kernel of one patch with one of another patch
        gp = {}
        for (i, j), k in self.gr.items():
            if j in k['g'].patchof:
                gp.setdefault((i, k['g'].patchof[j]), []).append(k)
        for l in gp.values():
            w = {}
            for k in l:
                for key in k['w']:
                    if key[0] not in k['g'].patchtmp:
                        w.setdefault(key, k)
            for k in l:
                for key in sorted((k['any'] if k['wide'] else set(k['r'])) & set(w), key=str):
                    self.report(k['label'], 'a patch reads %s at cells of other patches, whose kernels may have written it already' % name(key))
        self.gr = {}
        return self.found


class Loop:
    def __init__(self, rec, lam):
        self.rec = rec
        self.label = rec.label(lam)
        self.acc = {}       # location -> {iteration: (kinds, last value written)}
        self.i = None

    def start(self, i):
        if self.i is None:
            self.rec.stack.append(self)
        self.i = (i,)
        self.rec.kernels[self.label] = self.rec.kernels.get(self.label, 0) + 1

    def add(self, kind, loc, v):
        d = self.acc.setdefault(loc, {})
        k, w = d.get(self.i, ('', None))
        if kind == 'r' and k:
            return
        d[self.i] = (k if kind in k else k + kind, v if kind == 'w' else w)

    def end(self, same=None):
        if self.i is None:
            return
        self.rec.stack.remove(self)
        self.i = None
        for loc, d in self.acc.items():
            if len(d) < 2:
                continue
            ks = [k for k, _ in d.values()]
            if any('w' in k for k in ks):
                ws = [v for k, v in d.values() if 'w' in k]
                # the same value written by several iterations, nobody reads
                if all(k == 'w' for k in ks) and same and all(same(ws[0], v) for v in ws[1:]):
                    continue
                self.rec.report(self.label, 'element %s of an array is written by one iteration and accessed by another without an atomic operation' % (loc[-1],))
            elif any('a' in k for k in ks) and any(k == 'r' for k in ks):
                self.rec.report(self.label, 'element %s of an array is changed atomically by one iteration and read by another' % (loc[-1],))
        self.acc = {}


def name(key):
    if isinstance(key, tuple) and key[0] == 'U':
        return 'field %s' % key[1]
    return 'a temporary array'
