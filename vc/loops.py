"""Runtime helpers called by transformed code, and the loop rules.

Map rule: a loop whose iterations do not communicate is checked once, for an arbitrary index i0;
the writes of the generic iteration are generalised to all iterations, after proving that no
iteration touches a cell written by another one (for parallel loops this is the data-race
obligation).

Fold rule: a loop with carried state is executed once from a havocked state; a loop invariant is
inferred for each state component (min / max / and / or / linear / search) and its preservation is a
discharged obligation.
"""
from fractions import Fraction

import z3

from . import arrays as A
from . import core as C
from .core import (CTX, NeedSequential, PathEnd, SV, SymB, Unsupported, band, bnot, bor_, choose, const_of, decide, entails,
                   explore_inner, fresh_term, iadd, ieq, ifloordiv, ile, ilt, imul, is_num, is_z, isub, kind_of, lift_int,
                   mark_nonneg, mk, norm_lin, norm_z, prove, raw, rawb, register_index, subst_b, subst_val, zb, zreal)
from .vbuiltins import VRange, has_sym


class Poison:
    def _bad(self, *a, **k):
        raise NeedSequential("loop-carried local")
    for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv mod pow neg abs lt le gt ge eq ne bool getitem setitem "
               "call iter len lshift rshift and or xor invert iadd isub imul itruediv rlshift rrshift ror rand hash index int float "
               "contains format str").split():
        locals()[f"__{_n}__"] = _bad
    del _n

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise NeedSequential("loop-carried local")


UNBOUND = Poison()


class _Break:
    pass


class RET:
    def __init__(self, v):
        self.value = v


LOG = []


class Runtime:
    UNBOUND = UNBOUND
    BREAK = _Break
    RET = RET

    def __init__(self, world):
        self.world = world

    @staticmethod
    def F(s):
        if "inf" in s or "nan" in s:
            return float(s)
        return Fraction(s)

    @staticmethod
    def fmtv(x):
        if isinstance(x, Fraction):
            return float(x)
        if isinstance(x, SV) or isinstance(x, A.Arr):
            return 0
        return x

    @staticmethod
    def ifexp(c, a, b):
        if CTX.loop_vars and not CTX.no_fork and isinstance(c, SV):
            cc = C.rawb(c)
            if is_z(cc) and not C.entails(cc) and not C.entails(bnot(cc)):
                v = C.merged(cc, a, b)
                if v is not None:
                    return v
        return a() if c else b()

    @staticmethod
    def indices_of(x):
        if type(x) is slice:
            from .vbuiltins import slice_indices
            return lambda n: slice_indices(x, n)
        return x.indices

    @staticmethod
    def enter(q):
        CTX.entered.add(q)

    @staticmethod
    def kernel(q):
        def deco(fn):
            def wrapped(*a, **k):
                CTX.kernel.append(q)
                try:
                    return fn(*a, **k)
                finally:
                    CTX.kernel.pop()
            wrapped.__name__ = fn.__name__
            wrapped.py_func = fn
            wrapped._vc_orig = fn
            return wrapped
        return deco

    def getitem(self, a, k):
        if isinstance(a, (A.Arr,)):
            return a[k]
        if isinstance(k, slice):
            s = has_sym(k)
            if isinstance(a, (bytes, bytearray)):
                from . import fakeio
                if s or fakeio.has_blob(a):
                    return fakeio.bytes_slice(bytes(a), k)
                return a[k]
            if isinstance(a, (list, tuple, str, range)):
                if s:
                    raise Unsupported("symbolic slice of a sequence")
                return a[k]
            return a[k]
        if isinstance(a, type) and not isinstance(k, SV):
            try:
                return a[k]
            except TypeError:
                return a
        k2 = k._vc_scalar() if hasattr(k, "_vc_scalar") and isinstance(a, (list, tuple, dict, str)) else k
        if isinstance(k2, SV):
            if isinstance(a, (list, tuple)):
                n = len(a)
                i = raw(k2)
                if not entails(band(ile(0, i), ilt(i, n))):
                    if not bool(SymB(ilt(i, n))) or not bool(SymB(ile(-n, i))):
                        raise IndexError("list index out of range")
                    if bool(SymB(ilt(i, 0))):
                        i = iadd(i, n)
                return choose([(ieq(i, j) if j < n - 1 else True, v) for j, v in enumerate(a)])
            if isinstance(a, dict):
                for kk in a:
                    if self.eq(k2, kk):
                        return a[kk]
                raise KeyError("symbolic")
        if isinstance(a, dict) and isinstance(k2, Fraction):
            return a[k2]
        return a[k2]

    # comparisons
    def eq(self, a, b):
        from . import fakeio
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return fakeio.str_eq(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        return a == b

    def ne(self, a, b):
        if isinstance(a, (str, bytes, list, tuple)) and isinstance(b, (str, bytes, list, tuple)):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else SymB(bnot(rawb(r)))
        return a != b

    @staticmethod
    def truth(x):
        return bool(x)

    def isin(self, a, b):
        from . import fakeio
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return a in b
        if isinstance(b, (list, tuple)):
            for y in b:
                if a is y or self.truth(self.eq(a, y)):
                    return True
            return False
        if isinstance(b, (dict, set, frozenset)) or type(b).__name__ in ("dict_keys",):
            if isinstance(a, SV) or (isinstance(a, str) and fakeio.has_strtok(a)):
                for y in list(b):
                    if self.truth(self.eq(a, y)):
                        return True
                return False
            if any(isinstance(y, str) and fakeio.has_strtok(y) for y in b):
                for y in list(b):
                    if a is y or self.truth(self.eq(a, y)):
                        return True
                return False
            return a in b
        return a in b

    def notin(self, a, b):
        return not self.isin(a, b)

    # ------------------------------------------------------------ loops
    def loop(self, it, body, names, get, set_, loaded, where, var):
        if not isinstance(it, VRange):
            return self.native(it, body)
        f = it.fixed()
        if f is not None and len(f) <= 64:
            return self.native(f, body)
        if it.step != 1:
            if it.step <= 0:
                raise Unsupported("symbolic loop with negative step")
            n = ifloordiv(iadd(isub(it.hi, it.lo), it.step - 1), it.step)
            lo, st = it.lo, it.step
            return self.symbolic(0, n, lambda k: body(lift_int(iadd(lo, imul(st, raw(k))))), names, get, set_, loaded, where, var)
        return self.symbolic(it.lo, it.hi, body, names, get, set_, loaded, where, var)

    @staticmethod
    def native(it, body):
        for x in it:
            r = body(x)
            if r is None:
                continue
            if r is _Break:
                break
            if isinstance(r, RET):
                return r
        return None

    def symbolic(self, lo, hi, body, names, get, set_, loaded, where, var):
        entry = get()
        cont = [(v, len(v)) for v in loaded() if isinstance(v, (list, dict, set))]
        try:
            r = map_rule(lo, hi, body, names, get, set_, entry, where, var)
        except NeedSequential as e:
            set_(entry)
            r = fold_rule(lo, hi, body, names, get, set_, entry, where, var, str(e))
        for v, n in cont:
            if len(v) != n:
                raise Unsupported("container mutated in a symbolic loop")
        return r


# ------------------------------------------------------------------ generic iteration
class PathRec:
    pass


def run_generic(i0, lo, hi, body, prepare, want_control=False, extra=()):
    """Explore all paths of one generic iteration.  Returns [PathRec]."""
    recs = []
    mark = A.Buf.count
    undo0 = CTX.undo
    wl0, rl0 = CTX.write_log, CTX.read_log
    fw0 = CTX.field_w

    def run():
        CTX.undo = {}
        CTX.write_log = []
        CTX.read_log = []
        CTX.field_w = {}
        CTX.loop_vars.append(i0)
        p = CTX.path
        p.branch = []
        rec = PathRec()
        try:
            C.assume(band(ile(lo, i0), ilt(i0, hi)))
            for e in extra:
                C.assume(e)
            if p.solver.check() == z3.unsat:
                raise PathEnd("empty loop")
            if C.nonneg(norm_z(lo)) if is_z(lo) else lo >= 0:
                mark_nonneg(i0)
            if isinstance(hi, int):
                C.set_bound(i0, hi)
            register_index(i0)
            p.base_facts = len(p.pc)
            prepare(rec)
            p.branch = []
            rec.control = body(mk(i0, "i"))
            if rec.control is not None and not want_control:
                raise NeedSequential("break/return in a loop")
            # closed forms of the writes
            rec.writes = []
            seen = {}
            for buf, cond, val in CTX.write_log:
                if buf.id > mark:
                    continue
                bv = bvars(buf)
                CTX.no_fork += 1
                try:
                    c = cond(bv)
                    if c is False:
                        continue
                    v = val(bv)
                finally:
                    CTX.no_fork -= 1
                rec.writes.append((buf, bv, zb(c), v))
            rec.reads = [(b, ix) for b, ix in CTX.read_log if b.id <= mark]
            rec.final = prepare.get() if hasattr(prepare, "get") else None
            for buf, (fn, ver) in CTX.undo.items():
                rec.__dict__.setdefault("bufs", {})[buf] = buf.fn
            return rec
        finally:
            CTX.loop_vars.pop()
            for buf, (fn, ver) in CTX.undo.items():
                buf.fn, buf.version = fn, ver
            CTX.undo, CTX.write_log, CTX.read_log, CTX.field_w = undo0, wl0, rl0, fw0

    def on_path(p, rec):
        br = list(p.branch)
        ids = {b.get_id() for b in br}
        rec.pc = band(*br)
        rec.pc = z3.simplify(rec.pc) if is_z(rec.pc) else rec.pc
        rec.facts = [f for f in p.pc[p.base_pc:] if f.get_id() not in ids and f.get_id() != 0]
        rec.heavy = p.heavy[p.base_heavy:]
        rec.lemmas = p.lemmas[p.base_lemmas:]
        recs.append(rec)
    explore_inner(run, on_path)
    return recs


def bvars(buf):
    r = buf.__dict__.get("bvars")
    if r is None:
        r = tuple(z3.Int(f"b{buf.id}_{k}") for k in range(len(buf.shape)))
        for v, s in zip(r, buf.shape):
            mark_nonneg(v)
            if isinstance(s, int):
                C.set_bound(v, s)
        buf.bvars = r
    return r


def in_range(bv, buf):
    return band(*[band(ile(0, v), ilt(v, s)) for v, s in zip(bv, buf.shape)])


def conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out.extend(conjuncts(x))
        return out
    return [c]


def occurs(v, t):
    if isinstance(t, int) or not is_z(t):
        return False
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.eq(v):
            return True
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        st.extend(x.children())
    return False


def solve_for(i0, cond):
    """term sol (without i0) with cond => i0 == sol, or None."""
    for c in conjuncts(cond):
        if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
            d = norm_lin(c.arg(0) - c.arg(1))
            if isinstance(d, int):
                continue
            parts, k = C._lin_parts(d)
            mine = [(co, t) for co, t in parts if t.eq(i0)]
            rest = [(co, t) for co, t in parts if not t.eq(i0)]
            if len(mine) != 1 or any(occurs(i0, t) for _, t in rest):
                continue
            co = mine[0][0]
            e = C._build(rest, k)
            if co > 0:
                e = isub(0, e)
            else:
                co = -co
            sol = ifloordiv(e, co) if co != 1 else e
            return sol
    # a window  k*i0 <= e < k*i0 + m  with m <= k (inner loop over a flat index)
    los = {}
    for c in conjuncts(cond):
        r = as_le(c)
        if r is None:
            continue
        parts, k = C._lin_parts(r)      # r >= 0
        mine = [(co, t) for co, t in parts if t.eq(i0)]
        rest = [(co, t) for co, t in parts if not t.eq(i0)]
        if len(mine) != 1 or any(occurs(i0, t) for _, t in rest):
            continue
        los.setdefault(abs(mine[0][0]), []).append((mine[0][0], rest, k))
    for co, l in los.items():
        for c1, r1, k1 in l:
            if c1 > 0:
                continue
            e = C._build(r1, k1)       # e - co*i0 >= 0
            for c2, r2, k2 in l:
                if c2 < 0:
                    continue
                up = isub(0, C._build(r2, k2))      # co*i0 >= up
                gap = norm_lin(norm_z(e) - norm_z(up))
                if isinstance(gap, int) and 0 <= gap < co:
                    return ifloordiv(e, co)
    return None


def as_le(c):
    """c as  r >= 0 (returns r)"""
    neg = False
    if z3.is_not(c):
        neg, c = True, c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or not z3.is_int(c.arg(0)):
        return None
    a, b = c.arg(0), c.arg(1)
    k = c.decl().kind()
    if k == z3.Z3_OP_LE:
        return norm_lin(b - a) if not neg else norm_lin(a - b - 1)
    if k == z3.Z3_OP_GE:
        return norm_lin(a - b) if not neg else norm_lin(b - a - 1)
    if k == z3.Z3_OP_LT:
        return norm_lin(b - a - 1) if not neg else norm_lin(a - b)
    if k == z3.Z3_OP_GT:
        return norm_lin(a - b - 1) if not neg else norm_lin(b - a)
    return None


def dep_names(v, i0):
    if isinstance(v, SV):
        return occurs(i0, v.t) or (v.bits is not None and any(is_z(f) and occurs(i0, f) for _, _, f in v.bits))
    return False


def apply_writes(recs, i0, lo, hi):
    """Generalise the writes of the generic iteration to all iterations."""
    bufs = {}
    for k, rec in enumerate(recs):
        for w in rec.writes:
            bufs.setdefault(w[0].id, (w[0], []))[1].append((k, w))
    npaths = len(recs)
    for _, (buf, ws) in sorted(bufs.items()):
        entries = []       # (sol, cond, val, set of paths)
        for k, (_, bv, c, v) in reversed(ws):
            sol = solve_for(i0, c)
            if sol is None:
                raise Unsupported("cannot invert the index written in a loop")
            for e in entries:
                if e[1].eq(c) and C.same(e[2], v):
                    e[3].add(k)
                    break
            else:
                entries.append([sol, c, v, {k}])
        # later writes of the same path shadow earlier ones: order is reversed program order, and
        # conditions of different paths are exclusive
        bv = ws[0][1][1]
        comp = []
        for sol, c, v, ks in entries:
            g = True if len(ks) == npaths else bor_(*[recs[k].pc for k in sorted(ks)])
            comp.append((sol, c, v, g))

        cache = {}

        def inst(idx, comp=comp, bv=bv, cache=cache):
            key = tuple(term_key(x) for x in idx)
            hit = cache.get(key)
            if hit is None:
                hit = cache[key] = (idx, inst_(idx, comp, bv))
            return hit[1]

        def inst_(idx, comp, bv):
            sub0 = list(zip(bv, [norm_z(x) for x in idx]))
            out = []
            for sol, c, v, g in comp:
                s = norm_lin(z3.substitute(norm_z(sol), *sub0)) if is_z(sol) else sol
                pairs = sub0 + [(i0, norm_z(s))]
                c2 = C.simp_b(subst_b(c, pairs))
                if c2 is False:
                    continue
                rng = band(ile(lo, s), ilt(s, hi))
                g2 = A.ranges_within(subst_b(g, pairs)) if is_z(g) else g
                out.append((band(c2, rng), g2, v, pairs, s))
            return out

        ccache = {}

        def condfn(idx, inst=inst, ccache=ccache):
            key = tuple(term_key(x) for x in idx)
            hit = ccache.get(key)
            if hit is None:
                hit = ccache[key] = (idx, bor_(*[band(c, g) for c, g, v, pr, s in inst(idx)]))
            return hit[1]

        def valfn(idx, inst=inst):
            opts = []
            got = [x for x in inst(idx) if x[0] is not False and x[1] is not False]
            if len(got) > 8 and not CTX.no_fork and all(g is True for _, g, _, _, _ in got):
                # many cells written one by one: pick the cell first
                conds = [c for c, g, v, pr, s in got]
                k = C.decide(len(got), C.FirstOf(conds[:-1] + [True]))
                c, g, v, pr, s = got[k]
                register_index(s)
                return A.ranges_within(subst_val(v, pr))
            for c, g, v, pr, s in inst(idx):
                cc = band(c, g)
                if cc is False:
                    continue
                register_index(s)
                opts.append((cc, A.ranges_within(subst_val(v, pr))))
            if not opts:
                return 0
            return choose_vals(opts)
        buf.write(condfn, valfn)


def term_key(x):
    """identity of an index term together with what is known of its range"""
    if is_z(x):
        i = x.get_id()
        b = C.CTX_BOUNDS.get(i)
        return (i, b[1] if b is not None and isinstance(b[1], int) else b[1].get_id() if b is not None and is_z(b[1]) else None, i in CTX.nonneg)
    return x


def choose_vals(opts):
    """choose with merging of equal values; the conditions are known to be exhaustive here"""
    merged = []
    for c, v in opts:
        for m in merged:
            if C.same(m[1], v):
                m[0] = bor_(m[0], c)
                break
        else:
            merged.append([c, v])
    merged[-1][0] = True
    return choose([(c, v) for c, v in merged])


def export_facts(recs, i0, lo, hi):
    rng = band(ile(lo, i0), ilt(i0, hi))
    facts = {}        # id -> (fact, paths it holds on)
    skip = rng.get_id() if is_z(rng) else None
    for k, rec in enumerate(recs):
        for f in list(rec.facts) + list(rec.heavy):
            if f.get_id() == skip or not occurs(i0, f):
                continue
            facts.setdefault(f.get_id(), (f, set()))[1].add(k)
    n = len(recs)
    for f, ks in facts.values():
        g = rng if len(ks) == n else band(rng, bor_(*[recs[k].pc for k in sorted(ks)]))
        C.add_lemma([i0], z3.Implies(zb(g), f), "loop-fact")
    for rec in recs:
        g = band(rng, rec.pc)
        for l in rec.lemmas:
            C.add_lemma(list(l.vars) + [i0], z3.Implies(zb(g), l.body), l.name)


def has(v, t):
    return is_z(t) and occurs(v, t)


# ------------------------------------------------------------------ map rule
def map_rule(lo, hi, body, names, get, set_, entry, where, var):
    i0 = z3.Int(CTX.fresh_name("it_" + var))
    nob = len(CTX.obligs)

    def prepare(rec):
        set_(tuple(UNBOUND for _ in names))
    try:
        recs = run_generic(i0, lo, hi, body, prepare)
    except (NeedSequential, BaseException):
        del CTX.obligs[nob:]
        set_(entry)
        raise
    set_(tuple(UNBOUND for _ in names))
    if not recs:
        set_(entry)
        return None
    i1 = z3.Int(CTX.fresh_name("other_" + var))
    race_check(recs, i0, i1, lo, hi, where)
    apply_writes(recs, i0, lo, hi)
    export_facts(recs, i0, lo, hi)
    return None


def race_check(recs, i0, i1, lo, hi, where):
    """No iteration writes a cell that another iteration writes or reads."""
    W = []
    for rec in recs:
        for buf, bv, c, v in rec.writes:
            if not any(b is buf and c.eq(c2) for b, c2, _, _ in W):
                W.append((buf, c, bv, rec))
    R = []
    seen = set()
    wb = {b.id for b, _, _, _ in W}
    for rec in recs:
        for buf, ix in rec.reads:
            if buf.id not in wb:
                continue
            key = (buf.id, tuple(x if isinstance(x, int) else x.get_id() for x in ix))
            if key in seen:
                continue
            seen.add(key)
            R.append((buf, ix, rec))
    for n, (buf, c, bv, rec) in enumerate(W):
        if not occurs(i0, c):
            raise NeedSequential("same cell written in every iteration")
        for buf2, c2, _, rec2 in W[n:]:
            if buf2 is not buf:
                continue
            # write/write
            if disjoint_by_solution(c, c2, i0, bv):
                CTX.stats["race_triv"] = CTX.stats.get("race_triv", 0) + 1
                continue
            g = bnot(band(c, z3.substitute(c2, (i0, i1))))
            race_goal(g, i0, i1, lo, hi, buf, where, "write/write", rec, rec2)
    for buf, ix, rec2 in R:
        for b, c, bv, rec in W:
            if b is not buf:
                continue
            pairs = list(zip(bv, [norm_z(x) if not is_z(x) else z3.substitute(x, (i0, i1)) for x in ix]))
            cc = subst_b(c, pairs)
            if cc is False:
                continue
            g = bnot(cc)
            sol = solve_for(i0, zb(cc))
            if sol is not None and is_z(sol) and sol.eq(i1):
                CTX.stats["race_triv"] = CTX.stats.get("race_triv", 0) + 1
                continue
            race_goal(g, i0, i1, lo, hi, buf, where, "write/read", rec, rec2)


def disjoint_by_solution(c, c2, i0, bv):
    """both conditions determine i from the cell by the same expression"""
    s1, s2 = solve_for(i0, c), solve_for(i0, c2)
    if s1 is None or s2 is None:
        return False
    if isinstance(s1, int) or isinstance(s2, int):
        return s1 == s2 if isinstance(s1, int) and isinstance(s2, int) else False
    return s1.eq(s2)


def race_goal(g, i0, i1, lo, hi, buf, where, kind, rec, rec2):
    hyp = [zb(band(ile(lo, i0), ilt(i0, hi), ile(lo, i1), ilt(i1, hi))), i0 != i1]
    hyp += list(rec.facts)
    hyp.append(zb(rec.pc))
    hyp.append(zb(subst_b(rec2.pc, [(i0, i1)]) if is_z(rec2.pc) else rec2.pc))
    hyp += [z3.substitute(f, (i0, i1)) for f in rec2.facts]
    goal = z3.Implies(z3.And(*hyp), zb(g))
    if not CTX.kernel:
        st, _, _ = C.check_valid(goal, timeout=3)
        if st != "proved":
            raise NeedSequential("iterations communicate through an array")
        return
    n = len(CTX.obligs)
    ok = prove(goal, f"race:{where}:{kind}")
    if not ok:
        # iterations may communicate: sequential semantics would be needed
        if CTX.parallel_strict:
            return
        del CTX.obligs[n:]
        raise NeedSequential("iterations communicate through an array")


# ------------------------------------------------------------------ fold rule
def fold_rule(lo, hi, body, names, get, set_, entry, where, var, why):
    LOG.append((where, why))
    i0 = z3.Int(CTX.fresh_name("it_" + var))
    nob = len(CTX.obligs)
    state = []        # (name index, z3 const, kind)
    for n, v in enumerate(entry):
        if names[n] == var:
            continue
        if is_num(v) and not isinstance(v, float):
            k = kind_of(v)
            sort = {"i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[k]
            state.append((n, fresh_term("st_" + names[n], sort), k))
        elif isinstance(v, float):
            state.append((n, fresh_term("st_" + names[n], z3.RealSort()), "r"))
        elif isinstance(v, Poison):
            pass
        else:
            # objects (arrays, ...) assigned in the loop: only private use is supported
            pass
    sconsts = {n: (t, k) for n, t, k in state}
    cells = []

    class Prep:
        def __init__(self, cells, fixed):
            self.cells, self.fixed = cells, fixed

        def __call__(self, rec):
            vals = []
            for n in range(len(names)):
                if n in self.fixed:
                    vals.append(self.fixed[n])
                elif n in sconsts:
                    vals.append(mk(*sconsts[n]))
                else:
                    vals.append(UNBOUND)
            set_(tuple(vals))
            for buf, ix, t, k in self.cells:
                v = SV(t, k)
                buf.write(lambda b, ix=ix: band(*[ieq(x, y) for x, y in zip(b, ix)]), lambda b, v=v: v)
            del CTX.write_log[:]
            del CTX.read_log[:]

        def get(self):
            out = {n: v for n, v in enumerate(get())}
            cv = []
            for buf, ix, t, k in self.cells:
                CTX.no_fork += 1
                try:
                    cv.append(buf.fn(tuple(norm_z(x) if is_z(x) else x for x in ix)))
                finally:
                    CTX.no_fork -= 1
            return out, cv

    save_b, save_c = CTX.check_bounds, CTX.check_casts
    CTX.check_bounds = CTX.check_casts = False
    try:
        recs = run_generic(i0, lo, hi, body, Prep([], {}), want_control=True)
        # accumulator cells
        for rec in recs:
            for buf, bv, c, v in rec.writes:
                if occurs(i0, c):
                    continue
                ix = []
                for b in bv:
                    s = solve_for(b, c)
                    if s is None:
                        raise Unsupported("accumulator cell not determined")
                    ix.append(s)
                if not any(b2 is buf and all(ieq(x, y) is True for x, y in zip(ix, ix2)) for b2, ix2, _, _ in cells):
                    k = {"f": "r", "b": "b"}.get(buf.dtype.kindc, "i")
                    sort = {"r": z3.RealSort(), "b": z3.BoolSort(), "i": z3.IntSort()}[k]
                    cells.append((buf, tuple(ix), fresh_term("cell", sort), k))
        if cells:
            recs = run_generic(i0, lo, hi, body, Prep(cells, {}), want_control=True)
    finally:
        CTX.check_bounds, CTX.check_casts = save_b, save_c
    if not recs:
        set_(entry)
        return None
    for rec in recs:
        if isinstance(rec.control, RET) and is_arr(rec.control.value):
            raise Unsupported("array returned from a loop")
    # linear integer state
    fixed = {}
    for n, t, k in state:
        if k != "i":
            continue
        d = None
        ok = True
        for rec in recs:
            if rec.control is not None:
                ok = False
                break
            v = rec.final[0].get(n)
            if not is_num(v) or kind_of(v) != "i":
                ok = False
                break
            dd = norm_lin(norm_z(raw(v)) - t)
            if is_z(dd) and (occurs(i0, dd) or any_const(dd, [x for _, x, _ in state] + [c[2] for c in cells])):
                ok = False
                break
            if d is None:
                d = dd
            elif ieq(d, dd) is not True:
                ok = False
                break
        if ok and d is not None:
            fixed[n] = lift_int(iadd(raw(entry[n]), imul(d, isub(i0, lo))))
            fixed_d = d
            sconsts_d = CTX.__dict__.setdefault("_lin", {})
            sconsts_d[(id(state), n)] = d
    # second pass with closed forms and obligations on
    recs = run_generic(i0, lo, hi, body, Prep(cells, fixed), want_control=True)
    allst = [(("l", n), t, k, entry[n]) for n, t, k in state if n not in fixed]
    for m, (buf, ix, t, k) in enumerate(cells):
        allst.append((("c", m), t, k, buf.fn(tuple(ix))))
    hav = [t for _, t, _, _ in allst]

    def post(rec, key):
        return rec.final[0][key[1]] if key[0] == "l" else rec.final[1][key[1]]
    exits = [r for r in recs if r.control is not None]
    stays = [r for r in recs if r.control is None]
    results = {}
    ret = None
    rng = band(ile(lo, i0), ilt(i0, hi))
    if exits:
        # search loop: iterations that stay leave the state unchanged
        for r in stays:
            for key, t, k, e in allst:
                v = post(r, key)
                if is_num(v) and not C.same(v, mk(t, k)):
                    raise Unsupported("early exit from a loop with carried state")
            if has_writes(r, cells):
                raise Unsupported("early exit from a loop that writes")
        stay_pc = bor_(*[r.pc for r in stays]) if stays else False
        if any_const(stay_pc, hav):
            sub = [(t, term_of(e, k)) for _, t, k, e in allst]
            stay_pc = subst_b(stay_pc, sub)
        exit_pc = bnot(stay_pc)
        export_facts([_strip(r) for r in recs], i0, lo, hi)
        if decide(2) == 0:
            # completes without exit
            C.add_lemma([i0], z3.Implies(zb(rng), zb(stay_pc)), "loop:no-exit")
            for key, t, k, e in allst:
                results[key] = e
        else:
            w = fresh_term("exit_at", z3.IntSort())
            if C.nonneg(norm_z(lo)):
                mark_nonneg(w)
            C.assume(band(ile(lo, w), ilt(w, hi)))
            C.assume(subst_b(exit_pc, [(i0, w)]))
            register_index(w)
            if CTX.path.solver.check() == z3.unsat:
                raise PathEnd("no exit")
            C.add_lemma([i0], z3.Implies(zb(band(rng, ilt(i0, w))), zb(stay_pc)), "loop:before-exit")
            sub = [(t, term_of(e, k)) for _, t, k, e in allst] + [(i0, w)]
            opts = []
            for n, r in enumerate(exits):
                opts.append((subst_b(r.pc, sub) if is_z(r.pc) and n < len(exits) - 1 else True, r))
            r = choose(opts)
            for key, t, k, e in allst:
                v = post(r, key)
                results[key] = subst_val(v, sub) if is_num(v) else e
            if has_writes(r, cells):
                raise Unsupported("write at loop exit")
            if isinstance(r.control, RET):
                vv = r.control.value
                ret = RET(subst_val(vv, sub) if is_num(vv) else vv)
    else:
        for key, t, k, e in allst:
            results[key] = fold_state(recs, key, t, k, e, post, i0, lo, hi, hav, where, names)
        # map-style writes besides the accumulators
        rest = []
        for r in recs:
            r.writes = [w for w in r.writes if occurs(i0, w[2])]
            for w in r.writes:
                if any_const(w[2], hav) or (isinstance(w[3], SV) and any_const(w[3].t, hav)):
                    raise Unsupported("loop writes values that depend on carried state")
        if any(r.writes for r in recs):
            if any(any_const(r.pc, hav) for r in recs if is_z(r.pc)):
                raise Unsupported("loop writes under a condition on carried state")
            i1 = z3.Int(CTX.fresh_name("other_" + var))
            race_check_seq(recs, i0, i1, lo, hi, where)
            apply_writes(recs, i0, lo, hi)
        export_facts([_strip(r, hav) for r in recs], i0, lo, hi)
    # install final state
    vals = []
    nonempty = band(ilt(lo, hi))
    for n in range(len(names)):
        if n in fixed:
            d = CTX._lin[(id(state), n)]
            cnt = isub(hi, lo)
            if not entails(ile(0, cnt)):
                cnt = raw(mk(z3.If(norm_z(cnt) >= 0, norm_z(cnt), 0), "i"))
            vals.append(lift_int(iadd(raw(entry[n]), imul(d, cnt))))
        elif ("l", n) in results:
            vals.append(results[("l", n)])
        else:
            vals.append(UNBOUND)
    set_(tuple(vals))
    for m, (buf, ix, t, k) in enumerate(cells):
        v = results[("c", m)]
        buf.write(lambda b, ix=ix: band(*[ieq(x, y) for x, y in zip(b, ix)]), lambda b, v=v: v)
    return ret


def is_arr(x):
    return isinstance(x, A.Arr)


def _strip(rec, hav=()):
    r = PathRec()
    r.__dict__.update(rec.__dict__)
    if hav:
        r.facts = [f for f in rec.facts if not any_const(f, hav)]
        r.heavy = [f for f in rec.heavy if not any_const(f, hav)]
        r.lemmas = [l for l in rec.lemmas if not any_const(l.body, hav)]
        if is_z(rec.pc) and any_const(rec.pc, hav):
            r.facts, r.heavy, r.lemmas = [], [], []
    return r


def has_writes(r, cells):
    return any(occ for occ in r.writes if not any(occ[0] is c[0] for c in cells))


def any_const(t, consts):
    if not is_z(t):
        return False
    ids = {c.get_id() for c in consts}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in ids:
            return True
        if k in seen:
            continue
        seen.add(k)
        st.extend(x.children())
    return False


def term_of(e, k):
    if k == "r":
        return zreal(e)
    if k == "b":
        return zb(rawb(e))
    return norm_z(raw(e))


def race_check_seq(recs, i0, i1, lo, hi, where):
    ks, CTX.kernel = CTX.kernel, []
    try:
        race_check(recs, i0, i1, lo, hi, where)
    except NeedSequential:
        raise Unsupported("loop iterations communicate through an array")
    finally:
        CTX.kernel = ks


def fold_state(recs, key, t, k, entry, post, i0, lo, hi, hav, where, names):
    """Infer and prove an invariant for one carried value; returns its value after the loop."""
    vals = [(r, post(r, key)) for r in recs]
    if any(not is_num(v) or isinstance(v, float) for _, v in vals):
        return UNBOUND
    terms = [(r, term_of(v, k)) for r, v in vals]
    if all(x.eq(t) for _, x in terms):
        return entry
    rng = band(ile(lo, i0), ilt(i0, hi))
    label = names[key[1]] if key[0] == "l" else "cell"

    def valid(fn, name, commit):
        for r, x in terms:
            hyp = [zb(rng), zb(r.pc)] + list(r.facts) + list(r.heavy)
            g = z3.Implies(z3.And(*hyp), fn(x))
            if commit:
                prove(g, f"loopinv:{where}:{label}:{name}")
            else:
                st, _, _ = C.check_valid(g, timeout=2)
                if st != "proved":
                    return False
        return True
    # candidates: subterms free of carried values
    cands = []
    seen = set()
    st = [x for _, x in terms]
    sort = t.sort()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == sort and not any_const(x, hav) and not z3.is_bool(x):
            if not any(x.eq(c) for c in cands):
                cands.append(x)
            continue
        st.extend(x.children())
    for r, _ in terms:          # comparisons in path conditions mention the candidate too
        if is_z(r.pc):
            st = [r.pc]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.sort() == sort and not z3.is_bool(x) and not any_const(x, hav):
                    if not any(x.eq(c) for c in cands):
                        cands.append(x)
                    continue
                st.extend(x.children())
    if k in ("r", "i"):
        for e in cands[:6]:
            for kind in ("min", "max"):
                le = (lambda a, b: a <= b) if kind == "min" else (lambda a, b: a >= b)
                f = lambda x: z3.And(le(x, t), le(x, e), z3.Or(x == t, x == e))
                if valid(f, kind, False):
                    valid(f, kind, True)
                    res = fresh_term("fold_" + kind, sort)
                    w = fresh_term("fold_w", z3.IntSort())
                    mark_nonneg(w) if C.nonneg(norm_z(lo)) else None
                    e0 = term_of(entry, k)
                    facts_e = [f2 for f2 in recs[0].facts if not any_const(f2, hav)]
                    CTX.path.heavy.append(le(res, e0))
                    C.add_lemma([i0], z3.Implies(zb(rng), le(res, e)), "fold:" + kind)
                    CTX.path.heavy.append(z3.Or(res == e0, z3.And(zb(band(ile(lo, w), ilt(w, hi))), res == z3.substitute(e, (i0, w)))))
                    register_index(w)
                    return mk(res, k)
        # last value
        if all(not any_const(x, hav) for _, x in terms):
            return UNBOUND
        raise Unsupported(f"no invariant found for loop-carried value {label}")
    # booleans: or / and accumulation
    x_all = None
    for r, x in terms:
        x_all = x if x_all is None else z3.If(zb(r.pc), x, x_all)
    when_t = z3.simplify(z3.substitute(x_all, (t, z3.BoolVal(True))))
    when_f = z3.simplify(z3.substitute(x_all, (t, z3.BoolVal(False))))
    if any_const(when_t, hav) or any_const(when_f, hav):
        raise Unsupported("boolean state depends on other carried state")
    e0 = term_of(entry, "b")
    if z3.is_true(when_t):
        prove(z3.Implies(zb(rng), z3.BoolVal(True)), f"loopinv:{where}:{label}:or")
        cond = when_f
        kind = "or"
    elif z3.is_false(when_f):
        cond = bnot(when_t)
        kind = "and"
    elif when_t.eq(when_f):
        return UNBOUND
    else:
        raise Unsupported("boolean accumulation")
    # or: result = e0 or exists i. cond(i);  and: result = e0 and forall i. not cond(i)
    if decide(2) == 0:
        C.add_lemma([i0], z3.Implies(zb(rng), zb(bnot(cond))), "fold:" + kind)
        return entry
    w = fresh_term("fold_w", z3.IntSort())
    mark_nonneg(w) if C.nonneg(norm_z(lo)) else None
    C.assume(band(ile(lo, w), ilt(w, hi)))
    C.assume(subst_b(zb(cond), [(i0, w)]))
    register_index(w)
    if CTX.path.solver.check() == z3.unsat:
        raise PathEnd("no witness")
    return kind == "or"
