"""Hash-consed symbolic terms with polynomial normal forms and three/four valued orderings."""
from fractions import Fraction

_INTERN = {}


class T:
    __slots__ = ('op', 'args', 'k', '__weakref__')

    def __new__(cls, op, *args):
        if op == 'const':
            v = args[0]
            key = (op, type(v).__name__, v if not isinstance(v, float) or v == v else 'nan')
        else:
            key = (op,) + args
        t = _INTERN.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.k = op, args, None
            _INTERN[key] = t
        return t

    def __repr__(self):
        return show(self)

    def key(self):
        if self.k is None:
            self.k = show(self, True)
        return self.k


def show(t, sites=False):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, sites) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[0])
    if o == 'sym':
        return a[0]
    if o == 'attr':
        return f'{show(a[0], sites)}.{a[1]}'
    if o == 'idx':
        return f'{show(a[0], sites)}[{show(a[1], sites)}]'
    if o == 'call':
        name, recv, args, kw, site = a
        s = (show(recv, sites) + '.' if recv is not None else '') + name + '('
        s += ', '.join([show(x, sites) for x in args] + [f'{k}={show(v, sites)}' for k, v in kw]) + ')'
        return s + (f'@{site}' if sites and site is not None else '')
    if o == 'poly':
        out = []
        for m, c in a:
            s = '*'.join(show(x, sites) + (f'^{e}' if e != 1 else '') for x, e in m)
            out.append(f'{c}*{s}' if s and c != 1 else s or str(c))
        return '(' + ' + '.join(out) + ')'
    if o == 'rel':
        return f'[{show(a[0], sites)} {"".join(sorted(a[2]))} {a[1]}]'
    if o == 'elem':
        return f'elem({show(a[0], sites)}' + (f'#{a[1]}' if sites else '') + ')'
    if o == 'closure':
        return f'closure#{a[0]}'
    return o + '(' + ', '.join(show(x, sites) for x in a) + ')'


def const(v):
    return T('const', v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t):
    return t.op == 'const'


def is_num(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool) \
        and t.args[0] == t.args[0] and abs(t.args[0]) != float('inf')


# --------------------------------------------------------------------------------------------- polynomials
def to_poly(t):
    """term -> dict monomial -> Fraction"""
    if is_num(t):
        v = Fraction(t.args[0])
        return {(): v} if v else {}
    if t.op == 'poly':
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(int(c)) if c.denominator == 1 else const(float(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T('poly', *sorted(p.items(), key=lambda mc: (_mkey(mc[0]))))


def _mkey(m):
    return tuple((a.key(), e) for a, e in m)


def p_add(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
        if not out[m]:
            del out[m]
    return out


def m_mul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
        if not d[x]:
            del d[x]
    return tuple(sorted(d.items(), key=lambda xe: (xe[0].key(), xe[1])))


def p_mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            out[k] = out.get(k, 0) + c * d
    return {m: c for m, c in out.items() if c}


def add(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b)))


def sub(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b), -1))


def mul(a, b):
    return from_poly(p_mul(to_poly(a), to_poly(b)))


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def div(a, b):
    pb = to_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple((x, -e) for x, e in m): 1 / c}
        return from_poly(p_mul(to_poly(a), inv))
    if not pb:
        return T('div', a, b)
    return from_poly(p_mul(to_poly(a), {((b, -1),): Fraction(1)}))


L, E, G, U = 'L', 'E', 'G', 'U'
ALL = frozenset('LEGU')
OPS = {'<': frozenset('L'), '<=': frozenset('LE'), '>': frozenset('G'), '>=': frozenset('GE'),
       '==': frozenset('E'), '!=': frozenset('LGU')}
FLIP = {'L': 'G', 'G': 'L', 'E': 'E', 'U': 'U'}


BOOLEAN = ('rel', 'truth', 'not', 'and', 'or', 'in', 'is', 'eq', 'exists')


def rel(a, b, op):
    """Comparison term; `op` is a python operator string or a subset of LEGU."""
    S = OPS[op] if isinstance(op, str) and op in OPS else frozenset(op)
    if op in ('==', '!=') and (a is NONE or b is NONE):
        r = T('is', b if a is NONE else a, NONE)
        return r if op == '==' else T('not', r)
    if S in (OPS['=='], OPS['!=']) and a.op in BOOLEAN and b.op in BOOLEAN:
        r = mk_or([mk_and([a, b]), mk_and([mk_not(a), mk_not(b)])])
        return r if S == OPS['=='] else mk_not(r)
    if S in (OPS['=='], OPS['!=']) and is_const(a) != is_const(b):
        x, c = (a, b) if is_const(b) else (b, a)
        if not is_num(c):
            if x.op in ('tuple', 'list', 'set', 'dict', 'ntup', 'inst') and not isinstance(c.args[0], (tuple, frozenset)):
                return const(S != OPS['=='])
            r = T('eq', x, c)
            return r if S == OPS['=='] else T('not', r)
    if is_const(a) and is_const(b) and not (is_num(a) and is_num(b)):
        if S == OPS['==']:
            return const(a.args[0] == b.args[0])
        if S == OPS['!=']:
            return const(a.args[0] != b.args[0])
        try:
            x, y = a.args[0], b.args[0]
            o = 'L' if x < y else 'G' if x > y else 'E' if x == y else 'U'
            return const(o in S)
        except TypeError:
            pass
    p = p_add(to_poly(a), to_poly(b), -1)
    c = p.pop((), Fraction(0))
    if not p:
        o = 'L' if c < 0 else 'G' if c > 0 else 'E'
        return const(o in S)
    lead = sorted(p, key=_mkey)[0]
    lc = p[lead]
    p = {m: v / lc for m, v in p.items()}
    c = -c / lc
    if lc < 0:
        S = frozenset(FLIP[x] for x in S)
    pt = from_poly(p)
    # lengths are never negative nor unordered
    if pt.op == 'call' and pt.args[0] == 'len':
        poss = set()
        if c > 0:
            poss = {'L', 'E', 'G'}
        elif c == 0:
            poss = {'E', 'G'}
        else:
            poss = {'G'}
        if poss <= S:
            return TRUE
        if not (poss & S):
            return FALSE
        x = pt.args[2][0]
        if c == 0:
            return truth(x) if S & poss == {'G'} else T('not', truth(x))
        if c == 1 and S & poss == {'E', 'G'}:
            return truth(x)
        if c == 1 and S & poss == {'L'}:
            return T('not', truth(x))
    return T('rel', pt, c, S)


def truth(t):
    """Boolean conversion as a term."""
    if t.op in ('rel', 'not', 'and', 'or', 'is', 'in', 'truth', 'exists', 'eq'):
        return t
    if t.op == 'const':
        return const(bool(t.args[0]))
    if t.op == 'call' and t.args[0] == 'len' and t.args[1] is None:
        return truth(t.args[2][0])
    if t.op == 'call' and t.args[0] in ('list', 'tuple', 'set', 'sorted') and t.args[1] is None and len(t.args[2]) == 1:
        return truth(t.args[2][0])
    if t.op in ('tuple', 'list', 'set', 'dict'):
        if any(x.op != 'star' for x in t.args if isinstance(x, T)) or t.op == 'dict' and t.args:
            return TRUE
        if not t.args:
            return FALSE
        if len(t.args) == 1:
            return truth(t.args[0].args[0])
    if t.op in ('ntup', 'inst', 'func', 'class', 'closure', 'bound', 'module'):
        return TRUE
    if t.op == 'poly':
        return rel(t, const(0), '!=')
    if t.op == 'comp' and t.args[0] in ('list', 'set', 'dict'):
        return T('exists', t.args[2], t.args[3])
    return T('truth', t)


def mk_not(f):
    if f.op == 'not':
        return f.args[0]
    if f.op == 'const':
        return const(not f.args[0])
    if f.op == 'rel':
        return T('rel', f.args[0], f.args[1], ALL - f.args[2])
    return T('not', f)


def mk_and(fs):
    fs = [f for f in fs if f is not TRUE]
    if any(f is FALSE for f in fs):
        return FALSE
    if not fs:
        return TRUE
    return fs[0] if len(fs) == 1 else T('and', *fs)


def mk_or(fs):
    fs = [f for f in fs if f is not FALSE]
    if any(f is TRUE for f in fs):
        return TRUE
    if not fs:
        return FALSE
    return fs[0] if len(fs) == 1 else T('or', *fs)


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            todo.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            todo.extend(x)


_MENT = {}


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def attrs_in(t):
    """Names of attributes mentioned in a term (cached)."""
    r = _MENT.get(t)
    if r is None:
        r = _MENT[t] = frozenset(x.args[1] for x in subterms(t) if x.op == 'attr')
    return r


def rebuild(t, f):
    """Bottom-up rewriting."""
    def go(x):
        if isinstance(x, T):
            if x.op == 'const':
                return f(x)
            na = tuple(go(y) for y in x.args)
            if na != x.args:
                if x.op == 'poly':
                    p = {}
                    for m, c in na:
                        term = {(): Fraction(1)}
                        for b, e in m:
                            if e > 0:
                                for _ in range(e):
                                    term = p_mul(term, to_poly(b))
                            else:
                                term = p_mul(term, {((b, e),): Fraction(1)})
                        p = p_add(p, {k: v * c for k, v in term.items()})
                    x = from_poly(p)
                elif x.op == 'rel':
                    x = rel(na[0], const(na[1]) if not isinstance(na[1], T) else na[1], na[2])
                else:
                    x = T(x.op, *na)
            return f(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def strip(t):
    """Removes sites, old() wrappers and iteration sites, for comparison by rules."""
    def f(x):
        if x.op == 'call' and x.args[4] is not None:
            return T('call', *x.args[:4], None)
        if x.op == 'old':
            return x.args[0]
        if x.op == 'elem':
            return T('elem', x.args[0], 0)
        return x
    return rebuild(t, f)
