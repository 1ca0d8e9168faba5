"""Schema layouts straight from `capnp compile -o-` (decoded with oracle.py; nothing of capnpy is used)."""
import subprocess
import oracle as O

PRIM = {1: ('bool', 1), 2: ('int8', 8), 3: ('int16', 16), 4: ('int32', 32), 5: ('int64', 64),
        6: ('uint8', 8), 7: ('uint16', 16), 8: ('uint32', 32), 9: ('uint64', 64), 10: ('float32', 32), 11: ('float64', 64)}

def u(d, off, n): return O.get_bits(d, off, n)
def sd(t): return t[1] if t is not None else b''
def sp(t): return t[2] if t is not None else []
def items(t):
    if t is None: return []
    assert t[0] == 'comp'
    return [('struct', d, p) for d, p in t[3]]

class Type:
    """kind: void/prim/enum/text/data/struct/list/any"""
    def __init__(self, t):
        k = u(sd(t), 0, 16)
        self.k = k
        self.elem = None; self.type_id = None; self.name = None; self.bits = 0
        if k == 0: self.kind = 'void'
        elif k in PRIM:
            self.kind = 'prim'; self.name, self.bits = PRIM[k]
        elif k == 12: self.kind = 'text'
        elif k == 13: self.kind = 'data'
        elif k == 14: self.kind = 'list'; self.elem = Type(O.get_ptr(sp(t), 0))
        elif k == 15: self.kind = 'enum'; self.bits = 16; self.type_id = u(sd(t), 64, 64)
        elif k == 16: self.kind = 'struct'; self.type_id = u(sd(t), 64, 64)
        elif k == 18: self.kind = 'any'
        else: self.kind = 'other'
    @property
    def is_ptr(self): return self.kind in ('text', 'data', 'list', 'struct', 'any', 'other')

def value_bits(v):
    d, k = sd(v), u(sd(v), 0, 16)
    where = {1: (16, 1), 2: (16, 8), 3: (16, 16), 4: (32, 32), 5: (64, 64), 6: (16, 8), 7: (16, 16), 8: (32, 32),
             9: (64, 64), 10: (32, 32), 11: (64, 64), 15: (16, 16)}
    return u(d, *where[k]) if k in where else 0

class Annot:
    def __init__(self, t):
        self.id = u(sd(t), 0, 64); self.value = O.get_ptr(sp(t), 0)

class Field:
    def __init__(self, t):
        d, p = sd(t), sp(t)
        self.name = O.as_text(O.get_ptr(p, 0)).decode()
        self.tag = u(d, 16, 16) ^ 0xffff          # default 65535 = not in union
        self.in_union = self.tag != 0xffff
        self.annotations = [Annot(x) for x in items(O.get_ptr(p, 1))]
        self.is_group = u(d, 64, 16) == 1
        if self.is_group:
            self.group_id = u(d, 128, 64)
        else:
            self.offset = u(d, 32, 32)
            self.type = Type(O.get_ptr(p, 2))
            self.explicit = bool(u(d, 128, 1))
            self.default = value_bits(O.get_ptr(p, 3))     # raw bits (pointer defaults unsupported by capnpy)

class Node:
    def __init__(self, t):
        d, p = sd(t), sp(t)
        self.id = u(d, 0, 64)
        self.display = O.as_text(O.get_ptr(p, 0)).decode()
        self.name = self.display[u(d, 64, 32):]
        self.scope = u(d, 128, 64)
        self.nested = {O.as_text(O.get_ptr(sp(x), 0)).decode(): u(sd(x), 0, 64) for x in items(O.get_ptr(p, 1))}
        self.annotations = [Annot(x) for x in items(O.get_ptr(p, 2))]
        k = u(d, 96, 16)
        self.kind = ('file', 'struct', 'enum', 'interface', 'const', 'annotation')[k]
        if k == 1:
            self.ds, self.ps = u(d, 112, 16), u(d, 192, 16)
            self.is_group = bool(u(d, 224, 1))
            self.disc_count, self.disc_off = u(d, 240, 16), u(d, 256, 32)
            self.fields = [Field(x) for x in items(O.get_ptr(p, 3))]
            self.union = [f for f in self.fields if f.in_union]
        elif k == 2:
            self.enumerants = [O.as_text(O.get_ptr(sp(x), 0)).decode() for x in items(O.get_ptr(p, 3))]
            self.enum_ann = [[Annot(y) for y in items(O.get_ptr(sp(x), 1))] for x in items(O.get_ptr(p, 3))]

class Schema:
    def __init__(self, path, incdirs=()):
        cmd = ['capnp', 'compile', '-o-'] + ['-I' + d for d in incdirs] + [path]
        out = subprocess.run(cmd, stdout=subprocess.PIPE, check=True).stdout
        root = O.loads(out, budget=10**8)
        self.nodes = {}
        for t in items(O.get_ptr(sp(root), 0)):
            n = Node(t)
            self.nodes[n.id] = n
        self.by_name = {}
        files = items(O.get_ptr(sp(root), 1))
        self.file_id = u(sd(files[0]), 0, 64)
        for n in self.nodes.values():
            if n.scope == self.file_id and n.kind in ('struct', 'enum'):
                self.by_name[n.name] = n
    def __getitem__(self, name): return self.by_name[name]

if __name__ == '__main__':
    import sys
    s = Schema(sys.argv[1], sys.argv[2:])
    for n in s.by_name.values():
        print(n.name, n.kind, getattr(n, 'ds', ''), getattr(n, 'ps', ''), [(f.name, f.tag if f.in_union else None, None if f.is_group else (f.offset, f.type.kind, f.default)) for f in getattr(n, 'fields', [])])
