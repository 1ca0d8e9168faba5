import oracle as O
from core import case, enum
from capnpy import ptr
import random

M = (1 << 64) - 1
def words(r):
    k = r.randrange(5)
    if k == 0: return r.getrandbits(64)
    if k == 1: return (1 << r.randrange(64)) & M
    if k == 2: return ~(1 << r.randrange(64)) & M
    if k == 3:
        w = 0
        for sh, n in ((0, 2), (2, 30), (32, 3), (35, 29)):
            w |= r.choice([0, 1, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, r.getrandbits(n)]) << sh
        return w
    w = 0
    for sh, n in ((0, 2), (2, 1), (3, 29), (32, 16), (48, 16)):
        w |= r.choice([0, 1, (1 << n) - 1, 1 << (n - 1), r.getrandbits(n)]) << sh
    return w

def check_word(T, w):
    s = O.s64(w)
    ps = [s] if T.mode == 'cpy' else [s, w]
    for p in ps:
        T.eq(ptr.kind(p), O.p_kind(w), 'kind', hex(w))
        T.eq(ptr.offset(p), O.p_off(w), 'offset', hex(w))
        T.eq(ptr.struct_data_size(p), O.p_ds(w), 'struct_data_size', hex(w))
        T.eq(ptr.struct_ptrs_size(p), O.p_ps(w), 'struct_ptrs_size', hex(w))
        T.eq(ptr.list_size_tag(p), O.p_tag(w), 'list_size_tag', hex(w))
        T.eq(ptr.list_item_count(p), O.p_cnt(w), 'list_item_count', hex(w))
        T.eq(ptr.far_landing_pad(p), O.p_two(w), 'far_landing_pad', hex(w))
        T.eq(ptr.far_offset(p), O.p_foff(w), 'far_offset', hex(w))
        T.eq(ptr.far_target(p), O.p_seg(w), 'far_target', hex(w))
        for ofs in (0, 8, 64, 123456):
            T.eq(ptr.deref(p, ofs), ofs + 8 + 8 * O.p_off(w), 'deref', hex(w), ofs)

@case('C01', 2)
def accessors(T):
    w = words(T.rng)
    check_word(T, w)
    T.nontrivial(w)

def check_struct(T, off, ds, ps):
    p = ptr.new_struct(off, ds, ps)
    T.eq(p & M, O.mk_struct(off, ds, ps), 'new_struct', off, ds, ps)
    T.eq((ptr.kind(p), ptr.offset(p), ptr.struct_data_size(p), ptr.struct_ptrs_size(p)), (ptr.STRUCT, off, ds, ps), 'struct round trip')
def check_list(T, off, tag, n):
    p = ptr.new_list(off, tag, n)
    T.eq(p & M, O.mk_list(off, tag, n), 'new_list', off, tag, n)
    T.eq((ptr.kind(p), ptr.offset(p), ptr.list_size_tag(p), ptr.list_item_count(p)), (ptr.LIST, off, tag, n), 'list round trip')
def check_far(T, two, off, seg):
    p = ptr.new_far(two, off, seg)
    T.eq(p & M, O.mk_far(two, off, seg), 'new_far', two, off, seg)
    T.eq((ptr.kind(p), ptr.far_landing_pad(p), ptr.far_offset(p), ptr.far_target(p)), (ptr.FAR, two, off, seg), 'far round trip')

def bits(r, n):
    return r.choice([0, 1, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1, r.getrandbits(n), r.getrandbits(n) >> r.randrange(n)])
def off30(r):
    return O.sext(bits(r, 30), 30)

@case('C01', 2)
def builders(T):
    r = T.rng
    a, b, c = off30(r), bits(r, 16), bits(r, 16)
    check_struct(T, a, b, c)
    t, n = r.randrange(8), bits(r, 29)
    check_list(T, a, t, n)
    two, fo, sg = r.randrange(2), bits(r, 29), bits(r, 32)
    check_far(T, two, fo, sg)
    T.nontrivial(a, b, c, t, n, fo, sg)

@enum('C01')
def bit_walk(T):
    ws = [0, M]
    for i in range(64):
        ws += [1 << i, M ^ (1 << i)]
        for j in range(i):
            ws.append(1 << i | 1 << j)
    for w in ws:
        yield hex(w), (lambda w=w: check_word(T, w))

@enum('C01')
def constants(T):
    exp = dict(STRUCT=0, LIST=1, FAR=2, LIST_SIZE_VOID=0, LIST_SIZE_BIT=1, LIST_SIZE_8=2, LIST_SIZE_16=3, LIST_SIZE_32=4,
               LIST_SIZE_64=5, LIST_SIZE_PTR=6, LIST_SIZE_COMPOSITE=7)
    for k in exp:
        yield k, (lambda k=k: T.eq(getattr(ptr, k), exp[k], k))
    for tag, n in enumerate((0, -1, 1, 2, 4, 8, 8, -1)):
        yield 'item_length %d' % tag, (lambda tag=tag, n=n: T.eq(ptr.list_item_length(tag), n, 'list_item_length', tag))
    for i in list(range(70)) + [2**31 - 1, 2**31, 2**40 + 3]:
        yield 'round %d' % i, (lambda i=i: T.eq(ptr.round_up_to_word(i), (i + 7) // 8 * 8, 'round_up_to_word', i))

# replay of solver models
def from_model(T, fn, args):
    if fn in ('new_struct',): check_struct(T, *args)
    elif fn == 'new_list': check_list(T, *args)
    elif fn == 'new_far': check_far(T, *args)
    else: check_word(T, args[0] & M)
