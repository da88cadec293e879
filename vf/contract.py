"""Contracts over Fortran procedures: set-up of symbolic arguments, execution,
discharge of the obligations."""
import re, time
import z3
from . import sym, fparse, fexec
from .sym import I, R, B, fresh, fresh_fn, And, Or, Not, If, Prover, conc
from .fexec import Exec, State, Ref, Arr, Frame, Unsupported


class A:
    """a symbolic dummy argument"""

    def __init__(self, name, d):
        self.name, self.d = name, d
        self.val = None       # scalar term at entry
        self.f = None         # entry z3 function (arrays), dict for derived
        self.ref = None
        self.exts = []
        self.los = []


class Ctx:
    def __init__(self, ex, st, unit):
        self.ex, self.st, self.unit = ex, st, unit
        self.args = []
        self.byname = {}
        self.facts = []          # ground facts
        self.rules = {}          # decl name -> fn(app args..) -> list of facts
        self.final = None
        self.result = None

    def __getitem__(self, k):
        return self.args[k]

    # entry / final values (0-based indices)
    def pre(self, a, *idx):
        idx = tuple(sym.iv(i) for i in idx)
        return a.f(*idx) if idx or a.d.dims else a.val

    def post(self, a, *idx, comp=None):
        idx = tuple(sym.iv(i) for i in idx)
        key = a.ref.st if comp is None else (a.ref.st, comp)
        v = self.final.mem[key]
        return v.get(idx) if isinstance(v, Arr) else v

    def assume(self, *f):
        self.facts += f

    def rule(self, fn, rule):
        self.rules.setdefault(fn.name(), []).append(rule)

    def background(self, exprs):
        if not self.rules:
            return []
        names = set(self.rules)
        out = []
        seen = set()
        work = list(exprs)
        for _ in range(3):
            ap = sym.uapps_of(work, lambda x: x.decl().name() in names)
            work = []
            for a in ap:
                if a.get_id() in seen:
                    continue
                seen.add(a.get_id())
                for r in self.rules[a.decl().name()]:
                    fs = r(*a.children())
                    fs = fs if isinstance(fs, list) else [fs]
                    out += fs
                    work += fs
            if not work:
                break
        return out


def make_ctx(mods, unit, opts=None, timeout=4000, deadline=None, raw=None, sizes=None, fixed=None):
    """sizes: bounded mode, value given to the k-th size argument"""
    unit.parse()
    prover = Prover(None, timeout, deadline)
    ex = Exec(mods, prover, opts)
    st = State()
    ctx = Ctx(ex, st, unit)
    prover.background = ctx.background
    prover.background_version = lambda: sum(map(len, ctx.rules.values()))
    fr = Frame(unit)
    ex.frame = fr
    order = sorted(range(len(unit.args)), key=lambda k: bool(unit.decls[unit.args[k]].dims))
    args = [None] * len(unit.args)
    nsize = 0
    # parameters of the procedure first (may appear in dims)
    for d in unit.decls.values():
        if 'parameter' in d.attrs:
            try:
                ex.decl_local(d, st)
            except Unsupported:
                pass
    for k in order:
        name = unit.args[k]
        d = unit.decls[name]
        a = A(name, d)
        args[k] = a
        if raw and k in raw:
            dims = []
            for lo, hi, sl in d.dims:
                l = ex.eval(lo, st) if lo is not None else z3.IntVal(1)
                h = ex.eval(hi, st)
                dims.append((z3.simplify(l), z3.simplify(h - l + 1)))
            a.ref = Ref('raw%d' % k, 'integer', 1, dims)
            a.ref.raw = ('bytes', raw[k])
            fr.env[name] = a.ref
            continue
        if d.base == 'type' and d.tname == 'c_ptr':
            a.ref = Ref('ptr%d' % k, 'bytes', 1)
            a.ref.raw = ('byteat', raw[k], z3.IntVal(0)) if raw and k in raw else None
            fr.env[name] = a.ref
            continue
        key = 'a%d_%s' % (k, name)
        if not d.dims:
            if d.base == 'type':
                ex.alloc_derived(key, d.tname, None, st)
                a.f = {f.name: st.mem[(key, f.name)] for f in ex.type_fields(d.tname)}
                a.ref = Ref(key, 'type', None, None, None, d.tname)
            else:
                c = z3.Const('%s' % key, ex.sort(d.base))
                if fixed and k in fixed:
                    c = z3.IntVal(fixed[k])
                elif sizes and d.base == 'integer' and d.intent != 'out':
                    c = z3.IntVal(sizes[nsize % len(sizes)])
                    nsize += 1
                st.mem[key] = c
                a.val = c
                a.ref = Ref(key, d.base, ex.kindval(d.kind) if d.base != 'character' else 1)
            fr.env[name] = a.ref
            continue
        dims = []
        for j, (lo, hi, sl) in enumerate(d.dims):
            l = ex.eval(lo, st) if lo is not None else z3.IntVal(1)
            if (k, j) in (opts or {}).get('exts', {}):
                e = z3.IntVal(opts['exts'][k, j])
            elif hi is None or hi == ('name', '*'):
                e = z3.Const('%s_ext%d' % (key, j), I)
                if sizes:
                    e = z3.IntVal(sizes[nsize % len(sizes)])
                    nsize += 1
            else:
                e = ex.eval(hi, st) - l + 1
            dims.append((z3.simplify(l), z3.simplify(e)))
        for _, e in dims:
            ctx.facts.append(e >= 0)
        a.los = [l for l, _ in dims]
        a.exts = [e for _, e in dims]
        rank = len(dims)
        if d.base == 'type':
            a.f = {}
            for f in ex.type_fields(d.tname):
                r2 = rank + (len(f.dims) if f.dims else 0)
                fn = z3.Function('%s.%s' % (key, f.name), *([I] * r2), ex.sort(f.base))
                st.mem[(key, f.name)] = Arr('fn', (lambda fn: lambda idx: fn(*idx))(fn), rank=r2)
                a.f[f.name] = fn
            a.ref = ex.mkref(key, 'type', None, dims, d.tname)
        else:
            fn = z3.Function(key, *([I] * rank), ex.sort(d.base))
            st.mem[key] = Arr('fn', lambda idx, fn=fn: fn(*idx), rank=rank)
            a.f = fn
            a.ref = ex.mkref(key, d.base, ex.kindval(d.kind), dims)
        fr.env[name] = a.ref
    ctx.sizes_free = nsize
    ctx.args = args
    ctx.byname = {a.name: a for a in args}
    return ctx


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = None        # proved | failed | unsupported
        self.reason = ''
        self.obligs = []          # (name, kind, status, where)
        self.time = 0
        self.ctx = None
        self.parloops = []


def settle(res, prover=None):
    """an obligation that the deadline left open is not one that fails"""
    if prover is not None and prover.late:
        res.obligs = [o if o[2] == 'proved' else (o[0], o[1], 'late') + tuple(o[3:]) for o in res.obligs]
    sts = {o[2] for o in res.obligs}
    res.status = 'failed' if 'failed' in sts else 'timeout' if 'late' in sts else 'proved'


def run_contract(mods, unit, pre, post, opts=None, timeout=4000, deadline=None, raw=None, kinds=('post',), sizes=None, fixed=None):
    """pre(ctx) adds facts; post(ctx) -> [(name, goal or (goal, extra assumptions))]"""
    res = Result(unit)
    t0 = time.time()
    try:
        if sizes:
            opts = dict(opts or {}, bounded=True)
        ctx = make_ctx(mods, unit, opts, timeout, deadline, raw, sizes, fixed)
        res.ctx = ctx
        ex, st = ctx.ex, ctx.st
        pre(ctx)
        st.conds = tuple(ctx.facts)
        ex.units_used.add((unit.module.name, unit.name))
        ex.declare_locals(unit, st)
        entry = st.copy()
        outs = ex.exec_block(unit.body, st.copy())
        if any(c is not None and c != ('return',) for c, s in outs):
            raise Unsupported('escaping control flow')
        outs = [s for c, s in outs]
        ctx.final = ex.merge(outs, st)
        if unit.kind == 'function':
            ctx.result = ex.read_ref(ex.frame.env[unit.result], ctx.final)
        res.parloops = ex.parloops
        goals = []
        if 'post' in kinds and post is not None:
            for name, goal in post(ctx):
                extra = ()
                if isinstance(goal, tuple):
                    goal, extra = goal[0], tuple(goal[1:])
                goals.append(('post:' + name, 'post', tuple(ctx.final.conds) + tuple(ctx.facts) + extra, goal, '%s:%d' % (unit.fname, unit.lineno)))
        for o in ex.obligs:
            if o.kind in kinds:
                goals.append((o.name, o.kind, o.conds, o.goal, o.where))
        for key, line, nm, op, ok in [(str(r[2]), r[1], r[0], r[3], r[4]) for r in ex.redchecks]:
            res.obligs.append(('%s:reduction(%s)' % (nm, op), 'inductive', 'proved' if ok else 'late' if ex.prover.late else 'failed', '%s:%d' % (unit.fname, line), None))
        # vacuity: the precondition must be satisfiable
        r, _ = sym.solve(list(ctx.facts) + ctx.background(list(ctx.facts)), 3000)
        if r == 'unsat':
            res.status, res.reason = 'failed', 'contradictory precondition'
            return res
        seen = {}
        for name, kind, conds, goal, where in goals:
            key = (z3.And(*conds, z3.BoolVal(True)).get_id(), z3.simplify(goal).get_id())
            if key in seen:
                s, m = seen[key]
            else:
                s, m = ex.prover.prove(list(conds), goal)
                if s != 'proved' and ex.prover.late:
                    s, m = 'late', None
                seen[key] = (s, m)
            res.obligs.append((name, kind, s, where, m))
        settle(res)
    except Unsupported as e:
        res.status, res.reason = 'unsupported', str(e)
    except z3.Z3Exception as e:
        res.status, res.reason = 'unsupported', 'z3: %s' % e
    except RecursionError:
        res.status, res.reason = 'unsupported', 'recursion'
    finally:
        res.time = time.time() - t0
    return res
