"""Reader of ASCII .msh files (formats 2.2 and 4.1) for the stand-ins of gmsh and meshio."""


class Msh:
    def __init__(self, path):
        with open(path) as f:
            lines = [x.rstrip("\n") for x in f]
        sec, cur = {}, None
        for x in lines:
            if x.startswith("$End"):
                cur = None
            elif x.startswith("$"):
                cur = sec.setdefault(x[1:], [])
            elif cur is not None:
                cur.append(x)
        self.names = {}                    # (dim, physical tag) -> name
        for x in sec.get("PhysicalNames", [])[1:]:
            d, t, n = x.split(None, 2)
            self.names[(int(d), int(t))] = n.strip().strip('"')
        self.nodes = []                    # (tag, x, y, z, dim, entity), in the order of the file
        self.elems = []                    # (type, tag, nodes, entity, physical tag)
        self.phys = {}                     # (dim, entity) -> physical tags
        if sec["MeshFormat"][0].split()[0].startswith("4"):
            self.read4(sec)
        else:
            self.read2(sec)

    DIM = {15: 0, 1: 1, 2: 2, 4: 3}

    def read2(self, sec):
        for x in sec["Nodes"][1:]:
            f = x.split()
            self.nodes.append((int(f[0]), *map(float, f[1:4])))
        for x in sec["Elements"][1:]:
            f = [int(q) for q in x.split()]
            nt = f[2]
            self.elems.append((f[1], f[0], f[3 + nt:], f[4], f[3]))
            p = self.phys.setdefault((self.DIM[f[1]], f[4]), [])
            if f[3] not in p:
                p.append(f[3])

    def read4(self, sec):
        e = sec["Entities"]
        n = [int(x) for x in e[0].split()]
        i = 1
        for d, k in enumerate(n):
            for _ in range(k):
                f = e[i].split()
                off = 4 if d == 0 else 7
                self.phys[(d, int(f[0]))] = [abs(int(x)) for x in f[off + 1:off + 1 + int(f[off])]]
                i += 1
        it = iter(sec["Nodes"])
        for _ in range(int(next(it).split()[0])):
            k = int(next(it).split()[3])
            tags = [int(next(it)) for _ in range(k)]
            self.nodes += [(t, *map(float, next(it).split()[:3])) for t in tags]
        it = iter(sec["Elements"])
        for _ in range(int(next(it).split()[0])):
            dim, ent, typ, k = (int(x) for x in next(it).split())
            for _ in range(k):
                f = [int(x) for x in next(it).split()]
                p = self.phys.get((dim, ent), [])
                self.elems.append((typ, f[0], f[1:], ent, p[0] if p else 0))

    def entities(self, dim=-1):
        out = {(self.DIM[e[0]], e[3]) for e in self.elems} | set(self.phys)
        return sorted(x for x in out if dim in (-1, x[0]))


def missing(module):
    def get(name):
        if name.startswith("__"):
            raise AttributeError(name)
        print("STAND-IN: %s.%s is not available" % (module, name))
        import os
        import sys
        sys.stdout.flush()
        os._exit(77)
    return get
