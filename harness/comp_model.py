"""What a composite must look like, worked out from the layer data alone (used as the oracle of the
composition harnesses).  Node paths and instance paths are concrete here."""


def parent_of(p):
    if p == '/':
        return None
    return p.rsplit('/', 1)[0] or '/'


def name_of(p):
    return p.rsplit('/', 1)[1]


def expand(inst, node):
    """Relative instance paths start at the node's own path (like nxt_path, C03)."""
    if inst.startswith('/'):
        return inst
    at = node
    for part in inst.split('/'):
        if part == '..':
            at = parent_of(at) or '/'
        elif part in ('', '.'):
            pass
        else:
            at = at.rstrip('/') + '/' + part
    return at


class Model(object):
    """nodes: dict path -> instance path or None ('' stops a weaker opinion)."""

    def __init__(self, nodes):
        self.local = dict(nodes)
        self.inst = {}
        for p, i in nodes.items():
            if i is not None:
                self.inst[p] = expand(i, p) if i else ''
        own = dict(self.inst)
        while True:
            self.paths = set(nodes)
            self.inst = dict(own)
            over = self.close()
            if over is None:
                return
            # what a node stands for as a descendant of a source replaces an instance path of its own
            own[over[0]] = over[1]

    def children(self, p):
        return sorted([x for x in self.paths if parent_of(x) == p])

    def implied_children(self, p):
        """children, counting missing nodes that have something below them"""
        out = set()
        pre = p.rstrip('/') + '/'
        for x in self.paths:
            if x != '/' and x.startswith(pre) and x != p:
                out.add(pre + x[len(pre):].split('/')[0])
        return sorted(out)

    def usable(self, p, s):
        return bool(s) and s != p and not p.startswith(s.rstrip('/') + '/')

    def close(self):
        """Every descendant of an instance source appears below the instancing node."""
        self.virtual = set()
        for _ in range(12):
            n = (len(self.paths), len(self.inst), len(self.virtual))
            for p in sorted(self.paths | self.virtual):
                s = self.inst.get(p)
                if not self.usable(p, s):
                    continue
                for c in self.implied_children(s):
                    t = p.rstrip('/') + '/' + name_of(c)
                    if c not in self.paths:
                        if t not in self.paths:
                            self.virtual.add(t)
                        self.inst.setdefault(t, c)
                        continue
                    self.paths.add(t)
                    if self.inst.setdefault(t, c) not in (c, ''):
                        return t, c
            if n == (len(self.paths), len(self.inst), len(self.virtual)):
                return
        raise ValueError('the instances do not come to an end')

    def source(self, p):
        s = self.inst.get(p)
        return s if s and s in self.paths and self.usable(p, s) else None

    def parent(self, p):
        p = parent_of(p)
        while p is not None and p not in self.paths:
            p = parent_of(p)
        return p

    def order(self, p):
        """Where a user attribute of p is looked for: p itself, its ancestors, nearest first (each
        with what it instances), then what p instances; what both inherit from comes last."""
        par, src = self.parent(p), self.source(p)
        lp = self.order(par) if par is not None else []
        ls = self.order(src) if src is not None else []
        only = [x for x in lp if x not in ls]
        shared = [x for x in lp if x in ls]
        if src is not None and lp[len(only):] != shared:
            raise ValueError('the order of %s is not determined' % p)
        return [p] + only + ls

    def instanced(self, p):
        """Where the code, comment and enabled state of p are looked for."""
        out = [p]
        while self.source(out[-1]) is not None:
            out.append(self.source(out[-1]))
        return out
