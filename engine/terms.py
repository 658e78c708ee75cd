"""Hash-consed value terms and the fact domain (intervals, variant sets, string equalities)."""

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 'id', 'marks', 'ty')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


NOMARK = frozenset()


def mk(op, *a, ty=None, marks=None):
    k = (op, a, ty)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.ty = ty
    _cnt[0] += 1
    t.id = _cnt[0]
    m = marks or NOMARK
    for x in a:
        if isinstance(x, T):
            if x.marks:
                m = m | x.marks
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T) and y.marks:
                    m = m | y.marks
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T) and z.marks:
                            m = m | z.marks
    t.marks = m
    _tab[k] = t
    return t


def I(v):
    return mk('int', int(v))


TRUE = I(1)
FALSE = I(0)


def S(s):
    return mk('str', s)


UNIT = mk('tup')


def box(t):
    return mk('box', t)


def is_int(t):
    return t.op == 'int'


def contains(t, pred, depth=40):
    """does some sub-term satisfy pred"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st.extend(w for w in z if isinstance(w, T))
    return False


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st.extend(w for w in z if isinstance(w, T))


def show(t, d=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d - 1) for x in t) + ')'
        if isinstance(t, frozenset):
            return '{' + ','.join(sorted(show(x, d - 1) for x in t)) + '}'
        return str(t)
    if t.op == 'int':
        return str(t.a[0])
    if t.op == 'str':
        return repr(t.a[0])
    if d <= 0:
        return t.op + '#%d' % t.id
    if t.op == 'phi':
        return 'phi#%d' % t.id
    return t.op + '(' + ', '.join(show(x, d - 1) for x in t.a) + ')'


# ------------------------------------------------------------------ state

class Dead(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts')

    def __init__(self, mem=None, facts=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return State(dict(self.mem), dict(self.facts))

    def same(self, o):
        return self.mem == o.mem and self.facts == o.facts


def f_meet(a, b):
    """facts: ('iv',lo,hi) ('var',frozenset) ('eq',s) ('ne',frozenset)"""
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == 'iv' and b[0] == 'iv':
        lo = max(a[1], b[1]); hi = min(a[2], b[2])
        if lo > hi:
            raise Dead()
        return ('iv', lo, hi)
    if a[0] == 'var' and b[0] == 'var':
        v = a[1] & b[1]
        if not v:
            raise Dead()
        return ('var', v)
    if a[0] == 'eq' and b[0] == 'eq':
        if a[1] != b[1]:
            raise Dead()
        return a
    if a[0] == 'eq' and b[0] == 'ne':
        if a[1] in b[1]:
            raise Dead()
        return a
    if a[0] == 'ne' and b[0] == 'eq':
        return f_meet(b, a)
    if a[0] == 'ne' and b[0] == 'ne':
        return ('ne', a[1] | b[1])
    return a


def f_join(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if a[0] == 'iv' and b[0] == 'iv':
        return ('iv', min(a[1], b[1]), max(a[2], b[2]))
    if a[0] == 'var' and b[0] == 'var':
        return ('var', a[1] | b[1])
    if a[0] == 'ne' and b[0] == 'ne':
        n = a[1] & b[1]
        return ('ne', n) if n else None
    if a[0] == 'eq' and b[0] == 'ne':
        n = b[1] - {a[1]}
        return ('ne', n) if n else None
    if a[0] == 'ne' and b[0] == 'eq':
        return f_join(b, a)
    return None
