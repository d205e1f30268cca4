"""Hash-consed terms over integers and booleans.  Terms are built by the executed code, evaluated in
Python under a model, and handed to z3 only when a query needs them."""
import z3


class E(object):
    __slots__ = ('op', 'args', 'id', 'z', 'isb')

    def __init__(self, op, args, i, isb):
        self.op = op
        self.args = args
        self.id = i
        self.z = None
        self.isb = isb

    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, -o) if type(o) is int else add(self, mulc(o, -1))

    def __rsub__(self, o):
        return add(mulc(self, -1), o)

    def __mul__(self, o):
        return mulc(self, o)
    __rmul__ = __mul__

    def __neg__(self):
        return mulc(self, -1)

    def __floordiv__(self, d):
        return _mk('div', (self, d), False)

    def __mod__(self, d):
        return _mk('mod', (self, d), False)

    def __bool__(self):
        raise TypeError('truth value of a term')

    def __eq__(self, o):
        raise TypeError('use eq()')

    def __hash__(self):
        return self.id

    def __le__(self, o):
        return le(self, o)

    def __lt__(self, o):
        return le(self, o - 1) if type(o) is int else not_(le(o, self))

    def __gt__(self, o):
        return not_(le(self, o))

    def __ge__(self, o):
        return not_(le(self, o - 1)) if type(o) is int else le(o, self)

    def __repr__(self):
        return '%s%r' % (self.op, self.args)


_table = {}
_next = [0]


def reset():
    _table.clear()
    _next[0] = 0


def _mk(op, args, isb):
    key = (op,) + tuple([('e', a.id) if type(a) is E else a for a in args])
    r = _table.get(key)
    if r is None:
        i = _next[0]
        _next[0] = i + 1
        r = _table[key] = E(op, args, i, isb)
    return r


def int_var(name):
    return _mk('ivar', (name,), False)


def bool_var(name):
    return _mk('bvar', (name,), True)


def add(a, b):
    if type(a) is int:
        a, b = b, a
        if type(a) is int:
            return a + b
    if type(b) is int:
        if b == 0:
            return a
        if a.op == 'addc':
            return add(a.args[0], a.args[1] + b)
        return _mk('addc', (a, b), False)
    c = 0
    if a.op == 'addc':
        c += a.args[1]
        a = a.args[0]
    if b.op == 'addc':
        c += b.args[1]
        b = b.args[0]
    if a.op == 'mulc' and a.args[0] is b:
        return add(mulc(b, a.args[1] + 1), c)
    if b.op == 'mulc' and b.args[0] is a:
        return add(mulc(a, b.args[1] + 1), c)
    if a.id > b.id:
        a, b = b, a
    r = _mk('add', (a, b), False)
    return add(r, c) if c else r


def mulc(a, k):
    if type(a) is int:
        if type(k) is int:
            return a * k
        a, k = k, a
    if type(k) is not int:
        raise TypeError('nonlinear')
    if k == 0:
        return 0
    if k == 1:
        return a
    if a.op == 'mulc':
        return mulc(a.args[0], a.args[1] * k)
    if a.op == 'addc':
        return add(mulc(a.args[0], k), a.args[1] * k)
    return _mk('mulc', (a, k), False)


def le(a, b):
    if type(a) is int:
        if type(b) is int:
            return a <= b
        return not_(le(b, a - 1))
    if type(b) is int:
        if a.op == 'addc':
            return le(a.args[0], b - a.args[1])
        if a.op == 'mulc':
            k = a.args[1]
            if k > 0:
                return le(a.args[0], b // k)
            return not_(le(a.args[0], -(b // -k) - 1))
        return _mk('lec', (a, b), True)
    if a is b:
        return True
    ca = cb = 0
    if a.op == 'addc':
        a, ca = a.args
    if b.op == 'addc':
        b, cb = b.args
    if a is b:
        return ca <= cb
    return _mk('le', (a, b, cb - ca), True)     # a <= b + c


def eq(a, b):
    if type(a) is int:
        a, b = b, a
        if type(a) is int:
            return a == b
    if type(b) is int:
        if a.op == 'addc':
            return eq(a.args[0], b - a.args[1])
        if a.op == 'mulc':
            q, r = divmod(b, a.args[1])
            return eq(a.args[0], q) if r == 0 else False
        if a.op == 'ite' and type(a.args[1]) is int and type(a.args[2]) is int:
            x, y = a.args[1] == b, a.args[2] == b
            if x and y:
                return True
            if x:
                return a.args[0]
            if y:
                return not_(a.args[0])
            return False
        return _mk('eqc', (a, b), True)
    if a is b:
        return True
    ca = cb = 0
    if a.op == 'addc':
        a, ca = a.args
    if b.op == 'addc':
        b, cb = b.args
    if a is b:
        return ca == cb
    if a.id > b.id:
        a, b, ca, cb = b, a, cb, ca
    return _mk('eq', (a, b, cb - ca), True)


def iff(a, b):
    if type(a) is bool:
        return b if a else not_(b)
    if type(b) is bool:
        return a if b else not_(a)
    if a is b:
        return True
    if a.id > b.id:
        a, b = b, a
    return _mk('iff', (a, b), True)


def not_(a):
    if type(a) is bool:
        return not a
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), True)


def and_(items):
    """items: terms only"""
    if len(items) == 1:
        return items[0]
    return _mk('and', tuple(items), True)


def or_(items):
    if len(items) == 1:
        return items[0]
    return _mk('or', tuple(items), True)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is int and type(b) is int and a == b:
        return a
    if a is b:
        return a
    return _mk('ite', (c, a, b), False)


def lower(e):
    if type(e) is not E:
        return e
    if e.z is not None:
        return e.z
    op, g = e.op, e.args
    if op == 'ivar':
        r = z3.Int(g[0])
    elif op == 'bvar':
        r = z3.Bool(g[0])
    elif op == 'addc' or op == 'add':
        r = lower(g[0]) + lower(g[1])
    elif op == 'mulc':
        r = lower(g[0]) * g[1]
    elif op == 'div':
        r = lower(g[0]) / g[1]
    elif op == 'mod':
        r = lower(g[0]) % g[1]
    elif op == 'lec':
        r = lower(g[0]) <= g[1]
    elif op == 'le':
        r = lower(g[0]) <= lower(g[1]) + g[2] if g[2] else lower(g[0]) <= lower(g[1])
    elif op == 'eqc':
        r = lower(g[0]) == g[1]
    elif op == 'eq':
        r = lower(g[0]) == lower(g[1]) + g[2] if g[2] else lower(g[0]) == lower(g[1])
    elif op == 'iff':
        r = lower(g[0]) == lower(g[1])
    elif op == 'not':
        r = z3.Not(lower(g[0]))
    elif op == 'and':
        r = z3.And([lower(x) for x in g])
    elif op == 'or':
        r = z3.Or([lower(x) for x in g])
    elif op == 'ite':
        a, b = lower(g[1]), lower(g[2])
        r = z3.If(lower(g[0]), z3.IntVal(a) if type(a) is int else a, z3.IntVal(b) if type(b) is int else b)
    else:
        raise AssertionError(op)
    e.z = r
    return r


class Model(object):
    """values of the variables; what is not mentioned is 0 / False"""
    __slots__ = ('env', 'memo')

    def __init__(self, env):
        self.env = env
        self.memo = {}

    @staticmethod
    def of(m):
        env = {}
        for d in m.decls():
            v = m[d]
            if z3.is_int_value(v):
                env[d.name()] = v.as_long()
            else:
                env[d.name()] = z3.is_true(v)
        return Model(env)

    def extend(self, name, value):
        self.env[name] = value

    def eval(self, e):
        if type(e) is not E:
            return e
        memo = self.memo
        i = e.id
        if i in memo:
            return memo[i]
        op, g = e.op, e.args
        ev = self.eval
        if op == 'ivar':
            return self.env.get(g[0], 0)
        if op == 'bvar':
            return self.env.get(g[0], False)
        if op == 'eqc':
            r = ev(g[0]) == g[1]
        elif op == 'lec':
            r = ev(g[0]) <= g[1]
        elif op == 'le':
            r = ev(g[0]) <= ev(g[1]) + g[2]
        elif op == 'eq':
            r = ev(g[0]) == ev(g[1]) + g[2]
        elif op == 'not':
            r = not ev(g[0])
        elif op == 'and':
            r = True
            for x in g:
                if not ev(x):
                    r = False
                    break
        elif op == 'or':
            r = False
            for x in g:
                if ev(x):
                    r = True
                    break
        elif op == 'addc' or op == 'add':
            r = ev(g[0]) + ev(g[1])
        elif op == 'mulc':
            r = ev(g[0]) * g[1]
        elif op == 'div':
            r = ev(g[0]) // g[1]
        elif op == 'mod':
            r = ev(g[0]) % g[1]
        elif op == 'iff':
            r = ev(g[0]) == ev(g[1])
        elif op == 'ite':
            r = ev(g[1]) if ev(g[0]) else ev(g[2])
        else:
            raise AssertionError(op)
        memo[i] = r
        return r
