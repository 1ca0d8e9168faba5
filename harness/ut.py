"""helpers for untyped messages"""
import struct as _s
import oracle as O
from capnpy.segment.segment import Segment, MultiSegment

def seg_of(segs):
    buf, offs = O.flat(segs)
    return Segment(buf) if len(segs) == 1 else MultiSegment(buf, offs)
def opts(rng, far=True):
    k = rng.random()
    if k < 0.25: return dict()
    if k < 0.45: return dict(gap=0.3, backward=0.5)
    if k < 0.55: return dict(empty_fwd=1.0)
    if not far: return dict(gap=0.3, backward=0.3)
    return dict(nseg=rng.choice([1, 2, 3, 5]), far=rng.choice([0.2, 0.6, 1.0]), double=rng.choice([0.0, 0.4, 1.0]),
                gap=rng.choice([0, 0.3]), backward=rng.choice([0, 0.4]))
def has_double_empty(buf, offs):
    "a double-far pointer to an empty struct (its tag word is zero)"
    try:
        O.FlatDecoder(buf, offs, budget=10**7).ptr(0, 0)
    except O.DontCare as e:
        return 'null word' in str(e)
    except O.Malformed:
        pass
    return False
def w64(b, pos): return _s.unpack_from('<Q', b, pos)[0]
def s64(b, pos): return _s.unpack_from('<q', b, pos)[0]
