from vc import *
K = dict(int64='q', uint64='Q', uint64_magic='Q', int32='i', uint32='I', int16='h', uint16='H', int8='b', uint8='B', double='d', float='f')
SEG = 'capnpy.segment.base'

def segment(t, st, cls='BaseSegment', name='buf'):
    n = fresh('len_' + name)
    st.pc.append(And(n >= 0, n <= SS[1]))
    b = Seq(n, Store(n, name))
    a = dict(buf=b)
    if t.pyx: a['cbuf'] = Ptr(b, 0)
    return st.new(cls, **a), b

def spec_read(t, outs, b, off, kind):
    n = SIZE_OF[kind]
    bad = Or(zi(off) < 0, zi(off) + n > zi(b.len))
    def ret(s, v):
        yield 'value', eq_val(v, b.store.dec(t.ex, s, kind, off))
    t.expect(outs, raises=[(bad, ('IndexError',))], ret=ret)

def offset_of(t, st, name='off'):
    o = fresh(name)
    if t.pyx: st.pc.append(inss(o))
    return o

for nm in K:
    @task('%s:BaseSegment.read_%s' % (SEG, nm), ['C02'])
    def read(t, nm=nm):
        st = t.st()
        seg, b = segment(t, st)
        off = offset_of(t, st)
        spec_read(t, t.run(st, [seg, off]), b, off, K[nm])

@task('%s:BaseSegment.read_primitive' % SEG, ['C02'], variants=tuple('qQdfiIhHbB'))
def read_primitive(t):
    st = t.st()
    seg, b = segment(t, st)
    off = offset_of(t, st)
    spec_read(t, t.run(st, [seg, off, ord(t.variant)]), b, off, t.variant)

@task('%s:unpack_uint32' % SEG, ['C02', 'C08'])
def unpack_uint32(t):
    st = t.st()
    seg, b = segment(t, st)
    off = offset_of(t, st)
    spec_read(t, t.run(st, [b, off]), b, off, 'I')

def anybuf(t, st, rw=False):
    n = fresh('len_buf')
    st.pc.append(And(n >= 0, n <= SS[1]))
    b = Store(n, 'buf')
    if t.variant[-1] == 'bytes' and not rw: return Seq(n, b), Seq(n, b)
    return BM.new_bytearray(st, b), Seq(n, b)

@task('capnpy.packing:unpack_primitive', ['C02'], variants=tuple((k, b) for k in 'qQdfiIhHbB' for b in ('bytes', 'bytearray')))
def p_unpack_primitive(t):
    st = t.st()
    buf, b = anybuf(t, st)
    off = offset_of(t, st)
    outs = t.run(st, [ord(t.variant[0]), buf, off])
    spec_unpack(t, outs, b, off, t.variant[0])
def spec_unpack(t, outs, b, off, k):
    n = SIZE_OF[k]
    bad = Or(zi(off) < 0, zi(off) + n > zi(b.len))
    # the compiled helpers take a C int offset: a larger one raises OverflowError
    big = Or(zi(off) < -(1 << 31), zi(off) >= 1 << 31)
    def ret(s, v): yield 'value', eq_val(v, b.store.dec(t.ex, s, k, off))
    if t.pyx: t.expect(outs, raises=[(And(bad, Not(big)), ('IndexError',)), (big, ('OverflowError',))], ret=ret)
    else: t.expect(outs, raises=[(bad, ('IndexError',))], ret=ret)
for nm, k in dict(int64='q', int16='h', uint32='I').items():
    @task('capnpy.packing:unpack_' + nm, ['C02'], variants=(('bytes',), ('bytearray',)))
    def p_unpack(t, nm=nm, k=k):
        st = t.st()
        buf, b = anybuf(t, st)
        off = offset_of(t, st)
        spec_unpack(t, t.run(st, [buf, off]), b, off, k)

def spec_pack_into(t, outs, buf, b, off, k, val):
    n = SIZE_OF[k]
    bad = Or(zi(off) < 0, zi(off) + n > zi(b.len))
    big = Or(zi(off) < -(1 << 31), zi(off) >= 1 << 31) if t.pyx else False
    if isint(val):
        lo, hi = krange(k) if k not in 'fd' else (None, None)
        over = Or(zi(val) < lo, zi(val) > hi) if lo is not None else False
    else: over = Not(ufn('fits_float', FV, BOOL)(val)) if k == 'f' else False
    want = b.store.write(off, simp(zi(off) + n), ('enc', k, val))
    def ret(s, v):
        got = s.stores[s.get(buf, 'sid')]
        yield 'length', zi(got.len) == zi(b.len)
        yield 'bytes', same_bytes(s, got, want)
        yield 'result', v is None
    if t.pyx and k == 'f': over = False      # the C conversion of a double out of float range gives an infinity
    t.expect(outs, raises=[(Or(bad, big, over), ('IndexError', 'OverflowError', 'struct.error'))], ret=ret)
@task('capnpy.packing:pack_into', ['C02'], variants=tuple((k, 'bytearray') for k in 'qQdfiIhHbB'))
def p_pack_into(t):
    k = t.variant[0]
    st = t.st()
    buf, b = anybuf(t, st, True)
    off = offset_of(t, st)
    val = freshf('val') if k in 'fd' else fresh('val')
    spec_pack_into(t, t.run(st, [ord(k), buf, off, val]), buf, b, off, k, val)
@task('capnpy.packing:pack_int64_into', ['C02'], variants=(('bytearray',),))
def p_pack_int64_into(t):
    st = t.st()
    buf, b = anybuf(t, st, True)
    off, val = offset_of(t, st), fresh('val')
    spec_pack_into(t, t.run(st, [buf, off, val]), buf, b, off, 'q', val)
@task('capnpy.packing:pack_int64', ['C02'])
def p_pack_int64(t):
    st = t.st()
    val = fresh('val')
    want = Store(8).write(0, 8, ('enc', 'q', val))
    def ret(s, v):
        q = BM.as_seq(t.ex, s, v)
        yield 'length', zi(q.len) == 8
        yield 'bytes', same_bytes(s, q.store, want)
    lo, hi = krange('q')
    t.expect(t.run(st, [val]), raises=[(Or(val < lo, val > hi), ('OverflowError', 'struct.error'))], ret=ret)
@task('capnpy.packing:pack_message_header', ['C02', 'C07'])
def p_header(t):
    st = t.st()
    cnt, size, p = fresh('cnt'), fresh('size'), fresh('p')
    want = Store(16).write(0, 4, ('enc', 'i', 0)).write(4, 8, ('enc', 'i', size)).write(8, 16, ('enc', 'Q', p))
    def ret(s, v):
        q = BM.as_seq(t.ex, s, v)
        yield 'length', zi(q.len) == 16
        yield 'bytes', same_bytes(s, q.store, want)
    lo, hi = krange('i')
    E = ('AssertionError', 'OverflowError', 'struct.error')
    plo, phi = krange('q') if t.pyx else krange('Q')
    t.expect(t.run(st, [cnt, size, p]), raises=[(Or(cnt != 1, size < lo, size > hi, p < plo, p > phi), E)], ret=ret)
