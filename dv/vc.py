"""Verification tasks: one function (in one implementation) against its contract."""
import time, os, sys, traceback
import z3 as Z
import engine as G
from engine import *
import builtins_model as BM

TASKS = []        # dicts
def task(key, props, modes=('py', 'pyx'), variants=(None,), tier='quick', weight=1, name=None):
    """registers fn(t, variant); key 'module:qual' names the function under contract"""
    def dec(fn):
        for m in modes:
            for v in variants:
                TASKS.append(dict(key=key, props=tuple(props), mode=m, variant=v, fn=fn, tier=tier, weight=weight, name=name or key))
        return fn
    return dec

SS = (-(1 << 63), (1 << 63) - 1)
def inss(x): return And(zi(x) >= SS[0], zi(x) <= SS[1])

class T(object):
    "what a task works with"
    def __init__(self, world, key, variant, name, deadline, timeout):
        self.w, self.mode, self.key, self.variant = world, world.mode, key, variant
        vn = '' if variant is None else '[%s]' % (variant if isinstance(variant, str) else ','.join(str(x) for x in variant) if isinstance(variant, tuple) else variant)
        self.where = '%s:%s%s' % (self.mode, name, vn)
        self.ex = G.Ex(world, self.where, deadline, timeout)
        self.ex.where_key = key
        self.normal = 0
        self.pyx = self.mode == 'pyx'
    def st(self): return St()
    def run(self, st, args, kw=None, key=None, inline=True):
        f = self.w.function(key or self.key)
        return list(self.ex.call_func(f, st, args, kw or {}, inline=inline))
    def method(self, st, obj, name, args, kw=None):
        c, f = self.w.method(obj.cls, name)
        if f is None: raise Unsupported('no method %s of %s' % (name, obj.cls))
        return list(self.ex.call_func(f, st, [obj] + list(args), kw or {}, inline=True))
    def expect(self, outs, raises=(), ret=None, maybe=(), exempt=None):
        """raises: [(guard, classes)] the function raises one of classes exactly when one of the guards holds;
        maybe: [(guard, classes)] it may raise;  ret(s, v) -> [(name, goal)]"""
        ex = self.ex
        for s, v in outs:
            if not ex.feasible(s): continue
            if isinstance(v, Exc):
                gs = [g for g, cl in list(raises) + list(maybe) if any(exc_isa(v.cls, c) for c in cl)]
                ex.ob('raises-only-when-specified(%s)' % v.cls, s, Or(*gs) if gs else False)
            else:
                self.normal += 1
                for g, cl in raises: ex.ob('must-raise(%s)' % '|'.join(cl), s, Not(g))
                if ret is not None:
                    for nm, goal in ret(s, v): ex.ob('ensures/' + nm, s, goal)

def eq_val(v, w):
    "equality of result values"
    if isint(v) and isint(w) or (isint(v) and isbool(w)) or (isbool(v) and isint(w)): return zi(v) == zi(w)
    if isbool(v) and isbool(w): return zb(v) == zb(w)
    if isfloat(v) and isfloat(w): return G.tofv(v) == G.tofv(w)
    if v is None or w is None: return v is w
    return False

def same_bytes(s, a, b, lo=0, hi=None, tag='j'):
    "stores a and b agree on [lo, hi) (skolem index)"
    j = fresh(tag)
    return Implies(And(j >= zi(lo), j < zi(a.len if hi is None else hi)), a.at(j) == b.at(j))

def run_task(root, td, tier, deadline):
    """An annotation of a loop says how the loop works, not what the function does.  Where the proof of a function with loops fails, the function is executed once more with the
    loops followed for their first iterations, without invariants: what is refuted there is a violation; otherwise the function is undecided."""
    force = int(os.environ.get('DV_UNROLL') or 0)
    r = run1(root, td, tier, deadline, force)
    if not r['cut'] or force or all(o[1] == 'proved' for o in r['obs']): return r
    bad, t0 = [], time.time()
    for K in (2, 3):
        r2 = run1(root, td, tier, min(deadline, t0 + 100), K)
        r['secs'] += r2['secs']
        bad = [(o[0] + '/first-%d-iterations' % K,) + o[1:] for o in r2['obs'] if o[1] == 'refuted']
        if bad or r2['secs'] > 15: break
    r['obs'] = [(o[0], 'unknown', o[2], 'the annotated loop proof fails here (not a violation by itself): %s' % (o[3],), o[4]) if o[1] == 'refuted' else o for o in r['obs']] + bad
    return r
def run1(root, td, tier, deadline, unroll):
    "a task may change the tables of models; it does so for itself only"
    tabs = [BM.ATTR, BM.OATTR, BM.OCALL, BM.OEQ, BM.INDEX, BM.SETINDEX, BM.ITER, BM.CALLS, BM.CONSTRUCT]
    saved, values = [dict(x) for x in tabs], {k: dict(v) for k, v in BM.VALUES.items()}
    try: return run2(root, td, tier, deadline, unroll)
    finally:
        for x, y in zip(tabs, saved):
            x.clear(); x.update(y)
        for k in list(BM.VALUES):
            if k not in values: del BM.VALUES[k]
            else:
                BM.VALUES[k].clear(); BM.VALUES[k].update(values[k])
def run2(root, td, tier, deadline, unroll):
    t0 = time.time()
    G.CONTRACTS_MODE = td['mode']
    w = G.World(root, td['mode'])
    t = T(w, td['key'], td['variant'], td['name'], deadline, 8000 if tier == 'quick' else 60000)
    err = None
    if tier != 'quick': t.ex.cross = 3000
    t.ex.unroll_bound = unroll
    try:
        td['fn'](t)
        if t.normal == 0: t.ex.obs.append(G.Ob(t.where + '/vacuity', 'unknown', 0, 'no normal exit was reached'))
    except Unsupported as e:
        err = 'not translated: %s' % e
    except G.Budget:
        err = 'out of time'
    except Z.Z3Exception as e:
        err = 'solver: %s' % e
    except RecursionError:
        err = 'recursion'
    except Exception:
        err = 'internal: ' + traceback.format_exc()[-900:]
    if err: t.ex.obs.append(G.Ob(t.where + '/generated', 'unknown', 0, err))
    return dict(where=t.where, key=td['key'], mode=td['mode'], secs=time.time() - t0, err=err, inlined=sorted(t.ex.inlined), used=sorted(t.ex.used), trusted=sorted(t.ex.trusted), paths=t.ex.paths, cut=t.ex.cut,
                obs=[(o.name, o.status, round(o.secs, 3), o.detail, o.backend) for o in t.ex.obs])
