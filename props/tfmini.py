"""A small stand-in for TensorFlow 1: graphs of named operations over tensors of exact numbers (integers and quotients,
possibly symbolic), sessions with variables, savers. Linear and structural operations compute what TensorFlow computes
(over exact numbers instead of floats); transcendental functions, recurrent cells, losses, dropout and optimisers are
replaced by fixed distinguishable functions of the same arguments. Variables start with values that depend on their
shape only. Installed for the symbolic run and for the replay alike."""
from fractions import Fraction

LOWEST = -10 ** 12


# ------------------------------------------------------------------ numbers
class Q(object):
    """num / den with a concrete positive den"""

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def __repr__(self):
        return 'Q(%r, %r)' % (self.num, self.den)

    def __add__(self, other):
        return add(self, number(other))

    def __radd__(self, other):
        return add(number(other), self)

    def __sub__(self, other):
        return sub(self, number(other))

    def __rsub__(self, other):
        return sub(number(other), self)

    def __mul__(self, other):
        return mul(self, number(other))

    def __rmul__(self, other):
        return mul(number(other), self)

    def __truediv__(self, other):
        return div(self, number(other))

    def __format__(self, spec):
        return 'q'


def lift(x):
    if type(x) is Q:
        return x
    if type(x) is bool:
        return Q(1 if x else 0, 1)
    if type(x) is float:
        f = Fraction(x)
        return Q(f.numerator, f.denominator)
    return Q(x, 1)


def number(x):
    """floats become exact"""
    if type(x) is float:
        f = Fraction(x)
        return f.numerator if f.denominator == 1 else Q(f.numerator, f.denominator)
    return x


def q2(a, b):
    a, b = lift(a), lift(b)
    if a.den == b.den:
        return a.num, b.num, a.den
    return a.num * b.den, b.num * a.den, a.den * b.den


def isq(a, b):
    return type(a) is Q or type(b) is Q


def add(a, b):
    if isq(a, b):
        x, y, d = q2(a, b)
        return Q(x + y, d)
    return a + b


def sub(a, b):
    if isq(a, b):
        x, y, d = q2(a, b)
        return Q(x - y, d)
    return a - b


def mul(a, b):
    if isq(a, b):
        a, b = lift(a), lift(b)
        return Q(a.num * b.num, a.den * b.den)
    return a * b


def div(a, b):
    a, b = lift(a), lift(b)
    n = b.num
    if not isinstance(n, int):
        n = int(n)
    n = int(n)
    if n == 0:
        raise ZeroDivisionError('division of tensors by zero')
    if n < 0:
        return Q(-a.num * b.den, a.den * -n)
    return Q(a.num * b.den, a.den * n)


def eq(a, b):
    if isq(a, b):
        x, y, _ = q2(a, b)
        return x == y
    return a == b


def gt(a, b):
    if isq(a, b):
        x, y, _ = q2(a, b)
        return x > y
    return a > b


# ------------------------------------------------------------------ arrays
class Arr(object):
    def __init__(self, shape, data):
        self.shape = list(shape)
        self.data = data


def prod(xs):
    n = 1
    for x in xs:
        n = n * x
    return n


def arr(v):
    """nested lists (or a number) to an array; ragged nests are refused as numpy and TensorFlow do"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (list, tuple)):
        parts = [arr(x) for x in v]
        if not parts:
            return Arr([0], [])
        for p in parts:
            if p.shape != parts[0].shape:
                raise ValueError('setting an array element with a sequence')
        data = []
        for p in parts:
            data.extend(p.data)
        return Arr([len(parts)] + parts[0].shape, data)
    return Arr([], [number(v)])


def nested(a):
    if not a.shape:
        return a.data[0]
    step = prod(a.shape[1:])
    return [nested(Arr(a.shape[1:], a.data[i * step:(i + 1) * step])) for i in range(a.shape[0])]


def strides(shape):
    out, n = [], 1
    for d in reversed(shape):
        out.insert(0, n)
        n *= d
    return out


def indices(shape):
    out = [[]]
    for d in shape:
        out = [x + [i] for x in out for i in range(d)]
    return out


def at(a, index):
    """with broadcasting of dimensions of size one, aligned at the end"""
    s = strides(a.shape)
    off = len(index) - len(a.shape)
    k = 0
    for i, d in enumerate(a.shape):
        k += (0 if d == 1 else index[off + i]) * s[i]
    return a.data[k]


def at2(a, index):
    k = 0
    for i, s in zip(index, strides(a.shape)):
        k += i * s
    return a.data[k]


def common(*shapes):
    n = max([len(s) for s in shapes])
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    raise ValueError('incompatible shapes %r' % (shapes,))
                d = s[j]
        out.append(d)
    return out


def elementwise(f, *arrs):
    shape = common(*[a.shape for a in arrs])
    if all([a.shape == shape for a in arrs]):
        return Arr(shape, [f(*xs) for xs in zip(*[a.data for a in arrs])])
    return Arr(shape, [f(*[at(a, i) for a in arrs]) for i in indices(shape)])


def norm_axis(axis, rank):
    if not -rank <= axis < rank:
        raise ValueError('axis %r of %r' % (axis, rank))
    return axis % rank


def fold(a, axes, f, keep=False):
    """f of the list of elements along the axes"""
    axes = [norm_axis(x, len(a.shape)) for x in axes]
    outer = [d for i, d in enumerate(a.shape) if i not in axes]
    data = []
    for o in indices(outer):
        part = []
        for k in indices([a.shape[i] for i in axes]):
            index, oo, kk = [], list(o), dict(zip(axes, k))
            for i in range(len(a.shape)):
                index.append(kk[i] if i in kk else oo.pop(0))
            part.append(at(a, index))
        data.append(f(part))
    return Arr([1 if i in axes else d for i, d in enumerate(a.shape)] if keep else outer, data)


def transposed(a, perm):
    shape = [a.shape[p] for p in perm]
    data = []
    for i in indices(shape):
        index = [0] * len(perm)
        for k, p in enumerate(perm):
            index[p] = i[k]
        data.append(at(a, index))
    return Arr(shape, data)


def concatenated(arrs, axis):
    axis = norm_axis(axis, len(arrs[0].shape))
    for a in arrs:
        if len(a.shape) != len(arrs[0].shape) or [d for i, d in enumerate(a.shape) if i != axis] != [d for i, d in enumerate(arrs[0].shape) if i != axis]:
            raise ValueError('shapes do not match: %r' % ([x.shape for x in arrs],))
    out = []
    for o in indices(arrs[0].shape[:axis]):
        for a in arrs:
            step = prod(a.shape[axis:])
            k = 0
            for i, s in zip(o, a.shape[:axis]):
                k = k * s + i
            out.extend(a.data[k * step:(k + 1) * step])
    shape = list(arrs[0].shape)
    shape[axis] = sum([a.shape[axis] for a in arrs])
    return Arr(shape, out)


def total(xs):
    out = xs[0] if xs else 0
    for x in xs[1:]:
        out = add(out, x)
    return out


# ------------------------------------------------------------------ stand-ins for functions that are not linear
def tanh(x):
    return add(mul(x, 5), 2)


def sigmoid(x):
    return add(mul(x, 3), 1)


def exp(x):
    return add(mul(x, 4), 9)


def softmax(xs):
    s = total(xs)
    return [add(mul(x, 2), s) for x in xs]


def sparse_cross_entropy(h, logits, label):
    """any value of the logits and the label will do: the order of the logits and the labelled one matter"""
    if gt(0, label) or not gt(len(logits), label):
        raise ValueError('the label is outside of the valid range')
    out = 0
    for k, x in enumerate(logits):
        out = add(out, mul(x, k + 2))
        out = add(out, ite(h, eq(label, k), add(mul(x, -7), 11 * k + 5), 0))
    return out


def sigmoid_cross_entropy(h, logit, label):
    return ite(h, eq(label, 1), add(mul(logit, -3), 5), mul(logit, 2))


def dropped(x, keep):
    """keep is a concrete number"""
    k = lift(keep)
    return x if k.num == k.den else mul(x, 3)


def weights(shape, salt=0):
    n = prod(shape)
    return [((i * 7 + i * i * 3 + sum(shape) + salt * 5) % 7) - 3 for i in range(n)]


def ite(h, c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isq(a, b):
        x, y, d = q2(a, b)
        return Q(h.ite(c, x, y), d)
    return h.ite(c, a, b)


def recurrent(xs, size, salt):
    """a stand-in for a cell that reads the vectors in order"""
    w = weights([len(xs[0]), size], salt)
    out, state = [], [0] * size
    for x in xs:
        state = [add(mul(state[k], 2), total([mul(x[i], w[i * size + k]) for i in range(len(x))])) for k in range(size)]
        out.append(state)
    return out


def lstm(xs, size, n=None):
    """forward and backward outputs for the first n of the vectors, zeros for the others"""
    n = len(xs) if n is None else n
    rest = [[0] * size for _ in range(len(xs) - n)]
    if n == 0:
        return rest, rest
    return recurrent(xs[:n], size, 1) + rest, list(reversed(recurrent(list(reversed(xs[:n])), size, 2))) + rest


# ------------------------------------------------------------------ graphs
class Shape(list):
    def as_list(self):
        return list(self)

    @property
    def ndims(self):
        return len(self)

    @property
    def rank(self):
        return len(self)


class Tensor(object):
    def __init__(self, graph, name, shape, fn, dtype='float32', kind=None):
        self.graph = graph
        self.shape = Shape(shape) if shape is not None else None
        self.fn = fn
        self.dtype = dtype
        self.kind = kind
        self.op_name = graph.unique(name)
        self.origin = self
        graph.ops[self.op_name] = self

    @property
    def name(self):
        return self.op_name + ':0'

    @property
    def op(self):
        return self

    def get_shape(self):
        return self.shape

    def set_shape(self, shape):
        self.shape = Shape(shape)

    def __getitem__(self, i):
        return self.graph.tf.item(self, i)

    def __add__(self, o):
        return self.graph.tf.add(self, o)

    def __radd__(self, o):
        return self.graph.tf.add(o, self)

    def __sub__(self, o):
        return self.graph.tf.subtract(self, o)

    def __rsub__(self, o):
        return self.graph.tf.subtract(o, self)

    def __mul__(self, o):
        return self.graph.tf.multiply(self, o)

    def __rmul__(self, o):
        return self.graph.tf.multiply(o, self)

    def __truediv__(self, o):
        return self.graph.tf.truediv(self, o)

    def __rtruediv__(self, o):
        return self.graph.tf.truediv(o, self)

    def __neg__(self):
        return self.graph.tf.multiply(self, -1)

    def __gt__(self, o):
        return self.graph.tf.greater(self, o)

    def __lt__(self, o):
        return self.graph.tf.less(self, o)

    def __ge__(self, o):
        return self.graph.tf.greater_equal(self, o)

    def __le__(self, o):
        return self.graph.tf.less_equal(self, o)

    def __invert__(self):
        return self.graph.tf.logical_not(self)

    def __iter__(self):
        raise TypeError('Tensor objects are only iterable when eager execution is enabled')

    def __bool__(self):
        raise TypeError('Using a tf.Tensor as a Python bool is not allowed')

    def __hash__(self):
        return object.__hash__(self)


class Operation(object):
    def __init__(self, graph, name, effect):
        self.graph = graph
        self.effect = effect
        self.origin = self
        self.name = graph.unique(name)
        graph.ops[self.name] = self


class Variable(Tensor):
    pass


class Graph(object):
    def __init__(self, tf):
        self.tf = tf
        self.ops = {}
        self.variables = {}
        self.scopes = []
        self.reuse = [False]
        self.seeds = []

    def unique(self, name):
        k = 0
        n = name
        while n in self.ops:
            k += 1
            n = '%s_%d' % (name, k)
        return n

    def as_default(self):
        return Default(self)

    def get_tensor_by_name(self, name):
        if ':' not in name:
            raise ValueError('%r looks like an operation name, not a tensor name' % (name,))
        t = self.ops.get(name.split(':')[0])
        if not isinstance(t, Tensor):
            raise KeyError('no tensor %r in the graph' % (name,))
        return t

    def get_operation_by_name(self, name):
        if ':' in name:
            raise ValueError('%r looks like a tensor name' % (name,))
        if name not in self.ops:
            raise KeyError('no operation %r in the graph' % (name,))
        return self.ops[name]

    def trainable(self):
        return [v for v in self.variables.values() if v.trainable]

    def adopt(self, other):
        """take over the operations of another graph under their names"""
        for name, t in other.ops.items():
            if isinstance(t, Tensor):
                n = Tensor.__new__(type(t))
                n.__dict__.update(t.__dict__)
            else:
                n = Operation.__new__(Operation)
                n.__dict__.update(t.__dict__)
            n.graph = self
            n.origin = t.origin
            self.ops[name] = n
        for name, v in other.variables.items():
            self.variables[name] = self.ops[v.op_name]


class Default(object):
    def __init__(self, graph):
        self.graph = graph

    def __enter__(self):
        self.graph.tf.stack.append(self.graph)
        return self.graph

    def __exit__(self, *a):
        self.graph.tf.stack.pop()
        return False


class VariableScope(object):
    def __init__(self, tf, name, reuse=None):
        self.tf = tf
        self.name = name
        self.reuse = reuse

    def __enter__(self):
        g = self.tf.graph()
        g.scopes.append(self.name)
        g.reuse.append(self.reuse if self.reuse is not None else g.reuse[-1])
        return self

    def __exit__(self, *a):
        g = self.tf.graph()
        g.scopes.pop()
        g.reuse.pop()
        return False


class Run(object):
    """one evaluation: values of tensors, each computed once"""

    def __init__(self, session, feed):
        self.session = session
        self.values = {}
        for t, v in feed.items():
            if not isinstance(t, Tensor):
                raise TypeError('the key of a feed is not a tensor: %r' % (t,))
            if t.graph is not session.graph:
                raise ValueError('%r is not an element of this graph' % (t.name,))
            a = arr(v)
            if t.shape is not None:
                if len(t.shape) != len(a.shape) or not all([x is None or x == y for x, y in zip(t.shape, a.shape)]):
                    raise ValueError('cannot feed value of shape %r for %r, which has shape %r' % (a.shape, t.name, list(t.shape)))
            self.values[id(t.origin)] = a

    def get(self, t):
        if not isinstance(t, Tensor):
            return arr(t)
        k = id(t.origin)
        if k not in self.values:
            self.values[k] = t.origin.fn(self)
        return self.values[k]

    def number(self, t):
        a = self.get(t)
        if a.shape:
            raise ValueError('a scalar was expected')
        return a.data[0]


class Session(object):
    def __init__(self, tf, graph=None, config=None, target=''):
        self.graph = graph if graph is not None else tf.graph()
        self.tf = tf
        self.variables = {}
        self.closed = False
        self.steps = []
        tf.sessions.append(self)

    def run(self, fetches, feed_dict=None):
        if self.closed:
            raise RuntimeError('Attempted to use a closed Session.')
        run = Run(self, feed_dict or {})
        return self.fetch(fetches, run)

    def fetch(self, f, run):
        if isinstance(f, (list, tuple)):
            out = [self.fetch(x, run) for x in f]
            return tuple(out) if isinstance(f, tuple) else out
        if isinstance(f, dict):
            return {k: self.fetch(x, run) for k, x in f.items()}
        if not isinstance(f, (Tensor, Operation)) or f.graph is not self.graph:
            raise TypeError('cannot fetch %r' % (f,))
        if isinstance(f, Operation):
            f.origin.effect(run)
            return None
        return nested(run.get(f))

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Saver(object):
    def __init__(self, tf, var_list=None):
        self.tf = tf
        self.graph = tf.graph()
        self.names = None
        if var_list is not None:
            vs = list(var_list.values()) if isinstance(var_list, dict) else list(var_list)
            if not vs:
                raise ValueError('No variables to save')
            self.names = [v.op_name for v in vs]
            if any([self.graph.ops.get(n) is None or n not in [x.op_name for x in self.graph.variables.values()] for n in self.names]):
                raise ValueError('variables of another graph')

    def save(self, sess, path, **k):
        if sess.closed or sess.graph is not self.graph:
            raise ValueError('the session does not belong to the graph')
        own = {n: v.op_name for n, v in self.graph.variables.items()}
        self.tf.saved[path] = (sess.graph, {k: Arr(v.shape, list(v.data)) for k, v in sess.variables.items() if self.names is None or own[k] in self.names})
        self.tf.last_saved.append(path)
        return path

    def restore(self, sess, path):
        if path not in self.tf.saved or sess.closed:
            raise ValueError('%r is not a checkpoint' % (path,))
        sess.variables = {k: Arr(v.shape, list(v.data)) for k, v in self.tf.saved[path][1].items()}


class Optimizer(object):
    kind = None

    def __init__(self, learning_rate, *a, **k):
        self.tf = self.world
        self.rate = learning_rate

    def compute_gradients(self, loss, var_list=None):
        vs = list(var_list) if var_list is not None else self.tf.graph().trainable()
        out = []
        for v in vs:
            g = self.tf.new('gradient', v.shape, lambda run, v=v, loss=loss: Arr([len(v.shape)], [run.number(loss)] * len(v.shape)), kind=('gradient', v.op_name, loss))
            out.append((g, v))
        return out

    def apply_gradients(self, grads, global_step=None, name=None):
        pairs = list(grads)

        def effect(run):
            run.session.steps.append({'kind': self.kind, 'rate': run.number(self.rate), 'gradients': [
                (v.op_name, g.kind[1], run.number(g.kind[2]), g.kind[3] if len(g.kind) > 3 else None,
                 g.kind[4] if len(g.kind) > 3 else None) for g, v in pairs]})
        return Operation(self.tf.graph(), name or self.kind, effect)

    def minimize(self, loss, global_step=None, var_list=None, name=None):
        return self.apply_gradients(self.compute_gradients(loss, var_list), name=name)


class NS(object):
    """a name space of the library; names the stand-in lacks end the path without a verdict"""

    def __init__(self, h=None, name=''):
        self.__dict__['_h'] = h
        self.__dict__['_ns'] = name

    def __getattr__(self, n):
        if n.startswith('_') or self.__dict__.get('_h') is None:
            raise AttributeError(n)
        return self._h.unsupported('tensorflow.%s.%s' % (self._ns, n))


def _isnum(x):
    return not isinstance(x, (Tensor, list, tuple))


class TF(object):
    float32, float64, int32, int64, bool, string = 'float32', 'float64', 'int32', 'int64', 'bool', 'string'
    AUTO_REUSE = 'auto'

    def __init__(self, h):
        self.h = h
        self.stack = []
        self.sessions = []
        self.saved = {}
        self.last_saved = []
        self.default = Graph(self)
        me = self
        self.nn = NS(h, 'nn')
        self.nn.relu, self.nn.tanh, self.nn.sigmoid, self.nn.softmax = self.relu, self.tanh, self.sigmoid, self.softmax
        self.nn.embedding_lookup, self.nn.conv2d, self.nn.dropout = self.embedding_lookup, self.conv2d, self.nn_dropout
        self.nn.bidirectional_dynamic_rnn = self.bidirectional_dynamic_rnn
        self.nn.sparse_softmax_cross_entropy_with_logits = self.sparse_softmax_cross_entropy_with_logits
        self.nn.sigmoid_cross_entropy_with_logits = self.sigmoid_cross_entropy_with_logits
        self.nn.rnn_cell = NS(h, 'nn.rnn_cell')
        self.nn.rnn_cell.LSTMCell = self.nn.rnn_cell.BasicLSTMCell = self.nn.rnn_cell.GRUCell = self.cell
        self.layers = NS(h, 'layers')
        self.layers.dense, self.layers.dropout = self.dense, self.layers_dropout
        self.math = NS(h, 'math')
        for n in ('add', 'subtract', 'multiply', 'truediv', 'divide', 'reduce_sum', 'reduce_max', 'reduce_min', 'reduce_mean', 'argmax', 'tanh',
                  'sigmoid', 'exp', 'equal', 'not_equal', 'greater', 'less', 'logical_not', 'logical_and', 'scalar_mul', 'maximum', 'minimum'):
            setattr(self.math, n, getattr(self, n))
        self.math.scalar_mul = self.scalar_mul
        self.ragged = NS(h, 'ragged')
        self.ragged.boolean_mask = self.ragged_boolean_mask
        self.train = NS(h, 'train')
        for kind in ('GradientDescentOptimizer', 'AdamOptimizer', 'RMSPropOptimizer', 'AdagradOptimizer', 'MomentumOptimizer', 'AdadeltaOptimizer'):
            setattr(self.train, kind, self.optimizer(kind))
        self.train.Saver = lambda var_list=None, *a, **k: Saver(me, var_list)
        self.train.import_meta_graph = self.import_meta_graph
        self.train.latest_checkpoint = self.latest_checkpoint
        self.Tensor, self.Operation, self.Variable = Tensor, Operation, Variable
        self.initializers = NS(h, 'initializers')
        self.initializers.global_variables = self.global_variables_initializer
        self.compat = NS(h, 'compat')
        self.compat.v1 = Facade(self)

    def optimizer(self, k):
        class Some(Optimizer):
            kind = k
            world = self
        return Some

    # graph and session
    def Graph(self):
        return Graph(self)

    def Session(self, *a, **k):
        if a:
            k['target'] = a[0]
        return Session(self, **k)

    def graph(self):
        return self.stack[-1] if self.stack else self.default

    get_default_graph = graph

    def import_meta_graph(self, path, **k):
        if not path.endswith('.meta') or path[:-5] not in self.saved:
            raise OSError('File %s does not exist.' % (path,))
        self.graph().adopt(self.saved[path[:-5]][0])
        return Saver(self)

    def latest_checkpoint(self, directory, latest_filename=None):
        found = [p for p in self.saved if p.rpartition('/')[0] == str(directory).rstrip('/')]
        return max(found, key=lambda p: max([i for i, q in enumerate(self.last_saved) if q == p] + [-1])) if found else None

    def set_random_seed(self, seed):
        self.graph().seeds.append(seed)

    def variable_scope(self, name, reuse=None, **k):
        return VariableScope(self, name, reuse)

    def name_scope(self, name=None, *a, **k):
        return VariableScope(self, None)

    def new(self, name, shape, fn, dtype='float32', kind=None):
        return Tensor(self.graph(), name, shape, fn, dtype, kind)

    def t(self, x):
        """tensors from tensors, numbers and nests of them"""
        if isinstance(x, Tensor):
            return x
        if isinstance(x, (list, tuple)):
            return self.stack_([self.t(i) for i in x], 0) if x else self.new('Const', [0], lambda run: Arr([0], []))
        v = number(x)
        dtype = 'float32' if type(x) is float or type(v) is Q else 'int32'
        return self.new('Const', [], lambda run: Arr([], [v]), dtype)

    def dims(self, run, shape):
        """a shape given as a tensor or as a list of numbers and tensors"""
        if isinstance(shape, Tensor):
            return [int(x) for x in run.get(shape).data]
        return [int(run.number(d)) if isinstance(d, Tensor) else -1 if d is None else int(d) for d in shape]

    def static(self, shape):
        if isinstance(shape, Tensor):
            return None
        return [None if d is None or isinstance(d, Tensor) or d == -1 else d for d in shape]

    # sources
    def placeholder(self, dtype, shape=None, name=None):
        box = []

        def fn(run):
            raise ValueError('You must feed a value for placeholder tensor %r' % (box[0].name,))
        box.append(self.new(name or 'Placeholder', shape, fn, dtype, 'placeholder'))
        return box[0]

    def placeholder_with_default(self, input, shape, name=None):
        v = arr(input)
        return self.new(name or 'PlaceholderWithDefault', shape, lambda run: v, 'float32', 'placeholder')

    def constant(self, value, dtype=None, shape=None, name=None):
        v = arr(value)
        if shape is not None:
            v = Arr(list(shape), v.data * prod(shape) if len(v.data) == 1 else v.data)
        return self.new(name or 'Const', v.shape, lambda run: v, dtype or 'float32')

    def convert_to_tensor(self, value, dtype=None, name=None):
        return self.t(value)

    def random_uniform_initializer(self, minval=0, maxval=None, seed=None, dtype=None):
        return ('uniform', minval, maxval)

    def zeros_initializer(self, *a, **k):
        return 'zeros'

    def get_variable(self, name, shape=None, dtype=None, initializer=None, trainable=True, **k):
        g = self.graph()
        full = '/'.join([s for s in g.scopes if s] + [name])
        shape = [int(d) for d in shape]
        if full in g.variables:
            if not g.reuse[-1]:
                raise ValueError('Variable %s already exists, disallowed.' % (full,))
            v = g.variables[full]
            if list(v.shape) != shape:
                raise ValueError('Trying to share variable %s, but specified shape %r and found shape %r.' % (full, shape, v.shape))
            return v
        if g.reuse[-1] is True:
            raise ValueError('Variable %s does not exist' % (full,))

        def fn(run):
            if full not in run.session.variables:
                raise RuntimeError('Attempting to use uninitialized value %s' % (full,))
            return run.session.variables[full]
        v = Variable(g, full, shape, fn)
        v.trainable = trainable
        v.initializer = initializer
        v.full = full
        g.variables[full] = v
        return v

    def global_variables(self):
        return list(self.graph().variables.values())

    def trainable_variables(self):
        return self.graph().trainable()

    def global_variables_initializer(self):
        names = [(n, list(v.shape)) for n, v in self.graph().variables.items()]

        def effect(run):
            for n, s in names:
                run.session.variables[n] = Arr(s, weights(s))
        return Operation(self.graph(), 'init', effect)

    def scatter_update(self, ref, indices, updates, name=None):
        indices, updates = self.t(indices), self.t(updates)

        def fn(run):
            old = run.session.variables[ref.full]
            rows, vals = run.get(indices), run.get(updates)
            if len(vals.shape) != 2 or vals.shape[0] != rows.shape[0] or vals.shape[1:] != old.shape[1:]:
                raise ValueError('scatter_update of %r with %r' % (old.shape, vals.shape))
            n = old.shape[1]
            data = list(old.data)
            for k, r in enumerate(rows.data):
                r = int(r)
                if not 0 <= r < old.shape[0]:
                    raise IndexError('indices[%d] = %d is not in [0, %d)' % (k, r, old.shape[0]))
                data[r * n:(r + 1) * n] = vals.data[k * n:(k + 1) * n]
            run.session.variables[ref.full] = Arr(old.shape, data)
            return run.session.variables[ref.full]
        return self.new(name or 'ScatterUpdate', ref.shape, fn)

    # elementwise
    def el(self, name, f, *xs, **k):
        ts = [self.t(x) for x in xs]
        shapes = [t.shape for t in ts]
        shape = None
        if not any([s is None for s in shapes]):
            n = max([len(s) for s in shapes])
            shape = []
            for i in range(n):
                ds = [s[i - (n - len(s))] for s in shapes if i - (n - len(s)) >= 0]
                big = [d for d in ds if d is not None and d != 1]
                if len(set(big)) > 1:
                    raise ValueError('Dimensions must be equal, but are %r' % (shapes,))
                shape.append(big[0] if big else None if None in ds else 1)
        return self.new(k.get('as_name') or name, shape, lambda run: elementwise(f, *[run.get(t) for t in ts]), k.get('dtype', ts[-1].dtype))

    def add(self, x, y, name=None):
        return self.el('Add', add, x, y, as_name=name)

    def add_n(self, xs, name=None):
        out = self.t(xs[0])
        for x in xs[1:]:
            out = self.add(out, x)
        return out

    def subtract(self, x, y, name=None):
        return self.el('Sub', sub, x, y, as_name=name)

    def multiply(self, x, y, name=None):
        return self.el('Mul', mul, x, y, as_name=name)

    def truediv(self, x, y, name=None):
        return self.el('truediv', div, x, y, as_name=name)

    divide = div = truediv

    def scalar_mul(self, scalar, x, name=None):
        return self.el('Mul', mul, scalar, x, as_name=name)

    def maximum(self, x, y, name=None):
        return self.el('Maximum', lambda a, b: ite(self.h, gt(a, b), a, b), x, y, as_name=name)

    def minimum(self, x, y, name=None):
        return self.el('Minimum', lambda a, b: ite(self.h, gt(a, b), b, a), x, y, as_name=name)

    def greater(self, x, y, name=None):
        return self.el('Greater', gt, x, y, dtype='bool')

    def less(self, x, y, name=None):
        return self.el('Less', lambda a, b: gt(b, a), x, y, dtype='bool')

    def greater_equal(self, x, y, name=None):
        return self.el('GreaterEqual', lambda a, b: self.h.not_(gt(b, a)), x, y, dtype='bool')

    def less_equal(self, x, y, name=None):
        return self.el('LessEqual', lambda a, b: self.h.not_(gt(a, b)), x, y, dtype='bool')

    def equal(self, x, y, name=None):
        return self.el('Equal', eq, x, y, dtype='bool')

    def not_equal(self, x, y, name=None):
        return self.el('NotEqual', lambda a, b: self.h.not_(eq(a, b)), x, y, dtype='bool')

    def logical_not(self, x, name=None):
        return self.el('Not', self.h.not_, x, dtype='bool')

    def logical_and(self, x, y, name=None):
        return self.el('And', lambda a, b: self.h.all([a, b]), x, y, dtype='bool')

    def logical_or(self, x, y, name=None):
        return self.el('Or', lambda a, b: self.h.any([a, b]), x, y, dtype='bool')

    def relu(self, x, name=None):
        return self.el('Relu', lambda a: ite(self.h, gt(a, 0), a, 0), x, as_name=name)

    def tanh(self, x, name=None):
        return self.el('Tanh', tanh, x, as_name=name)

    def sigmoid(self, x, name=None):
        return self.el('Sigmoid', sigmoid, x, as_name=name)

    def exp(self, x, name=None):
        return self.el('Exp', exp, x, as_name=name)

    def identity(self, x, name=None):
        return self.el('Identity', lambda a: a, x, as_name=name)

    def cast(self, x, dtype, name=None):
        def f(a):
            if dtype == 'bool':
                return self.h.not_(eq(a, 0))
            if a is True or a is False:
                return 1 if a else 0
            if type(a) is Q and dtype in ('int32', 'int64'):
                return self.h.unsupported('rounding')
            if isinstance(a, bool):
                return self.h.ite(a, 1, 0)
            return a
        return self.el('Cast', f, x, as_name=name, dtype=dtype)

    def to_float(self, x, name=None):
        return self.cast(x, 'float32')

    def to_int32(self, x, name=None):
        return self.cast(x, 'int32')

    def where(self, condition, x=None, y=None, name=None):
        return self.el('Select', lambda c, a, b: ite(self.h, c, a, b), condition, x, y, as_name=name)

    # shape
    def shape(self, x, name=None, **k):
        x = self.t(x)
        return self.new('Shape', None if x.shape is None else [len(x.shape)], lambda run: Arr([len(run.get(x).shape)], list(run.get(x).shape)), 'int32')

    def item(self, x, i):
        parts = list(i) if isinstance(i, tuple) else [i]
        if any([isinstance(p, Tensor) for p in parts]) or x.shape is None and (len(parts) > 1 or not isinstance(parts[0], (int, slice))):
            return self.h.unsupported('slices of tensors')

        def plan(rank):
            out = []
            named = len([p for p in parts if p is not None and p is not Ellipsis])
            for p in parts:
                if p is Ellipsis:
                    out.extend([slice(None)] * (rank - named))
                else:
                    out.append(p)
            out.extend([slice(None)] * (rank - len([p for p in out if p is not None])))
            return out

        def shaped(s):
            out, k = [], 0
            for p in plan(len(s)):
                if p is None:
                    out.append(1)
                    continue
                if isinstance(p, slice):
                    out.append(len(range(s[k])[p]) if s[k] is not None else s[k] if p == slice(None) else None)
                k += 1
            return out

        def fn(run):
            a = run.get(x)
            choices, k = [], 0
            for p in plan(len(a.shape)):
                if p is None:
                    continue
                choices.append(list(range(a.shape[k]))[p] if isinstance(p, slice) else [norm_axis(p, a.shape[k])])
                k += 1
            data = [at2(a, [c[j] for c, j in zip(choices, ix)]) for ix in indices([len(c) for c in choices])]
            return Arr(shaped(a.shape), data)
        return self.new('strided_slice', shaped(x.shape) if x.shape is not None else [] if isinstance(i, int) else None, fn, x.dtype)

    def reshape(self, tensor, shape, name=None):
        tensor = self.t(tensor)

        def fn(run):
            a = run.get(tensor)
            d = self.dims(run, shape)
            if d.count(-1) > 1:
                raise ValueError('Only one input size may be -1')
            rest = prod([x for x in d if x != -1])
            if -1 in d:
                if rest == 0 or len(a.data) % rest:
                    raise ValueError('cannot reshape %r to %r' % (a.shape, d))
                d = [len(a.data) // rest if x == -1 else x for x in d]
            if prod(d) != len(a.data):
                raise ValueError('cannot reshape %r to %r' % (a.shape, d))
            return Arr(d, list(a.data))
        return self.new(name or 'Reshape', self.static(shape), fn, tensor.dtype)

    def expand_dims(self, input, axis=None, name=None, dim=None):
        input = self.t(input)
        axis = axis if axis is not None else dim

        def put(s, d=1):
            k = norm_axis(axis, len(s) + 1)
            return list(s[:k]) + [d] + list(s[k:])
        return self.new(name or 'ExpandDims', None if input.shape is None else put(input.shape),
                        lambda run: Arr(put(run.get(input).shape), run.get(input).data), input.dtype)

    def squeeze(self, input, axis=None, name=None):
        input = self.t(input)

        def without(s):
            ax = [i for i, d in enumerate(s) if d == 1] if axis is None else [norm_axis(a, len(s)) for a in (axis if isinstance(axis, (list, tuple)) else [axis])]
            for a in ax:
                if s[a] is not None and s[a] != 1:
                    raise ValueError('Can not squeeze dim[%d], expected a dimension of 1' % a)
            return [d for i, d in enumerate(s) if i not in ax]
        return self.new(name or 'Squeeze', None if input.shape is None else without(input.shape),
                        lambda run: Arr(without(run.get(input).shape), run.get(input).data), input.dtype)

    def transpose(self, a, perm=None, name=None):
        a = self.t(a)
        p = perm if perm is not None else list(reversed(range(len(a.shape))))
        return self.new(name or 'transpose', [a.shape[i] for i in p], lambda run: transposed(run.get(a), p), a.dtype)

    def tile(self, input, multiples, name=None):
        input = self.t(input)

        def fn(run):
            a = run.get(input)
            m = self.dims(run, multiples)
            shape = [d * k for d, k in zip(a.shape, m)]
            return Arr(shape, [at(a, [i % d for i, d in zip(ix, a.shape)]) for ix in indices(shape)])
        m = self.static(multiples)
        return self.new(name or 'Tile', None if m is None else [None if d is None or k is None else d * k for d, k in zip(input.shape, m)], fn, input.dtype)

    def broadcast_to(self, input, shape, name=None):
        input = self.t(input)

        def fn(run):
            a = run.get(input)
            d = self.dims(run, shape)
            if common(a.shape, d) != d:
                raise ValueError('Incompatible shapes: %r vs. %r' % (a.shape, d))
            return Arr(d, [at(a, i) for i in indices(d)])
        return self.new(name or 'BroadcastTo', self.static(shape), fn, input.dtype)

    def concat(self, values, axis, name=None):
        ts = [self.t(v) for v in values]
        if not ts:
            raise ValueError('nothing to concatenate')
        shape = None
        if not any([t.shape is None for t in ts]):
            k = norm_axis(axis, len(ts[0].shape))
            shape = []
            for i in range(len(ts[0].shape)):
                ds = [t.shape[i] for t in ts]
                if i == k:
                    shape.append(None if None in ds else sum(ds))
                else:
                    known = [d for d in ds if d is not None]
                    if len(set(known)) > 1:
                        raise ValueError('shapes do not match')
                    shape.append(known[0] if known else None)
        return self.new(name or 'concat', shape, lambda run: concatenated([run.get(t) for t in ts], axis), ts[0].dtype)

    def stack_(self, values, axis=0, name=None):
        ts = [self.t(v) for v in values]
        if not ts:
            raise ValueError('nothing to stack')
        shape = None
        if ts[0].shape is not None:
            k = norm_axis(axis, len(ts[0].shape) + 1)
            shape = list(ts[0].shape[:k]) + [len(ts)] + list(ts[0].shape[k:])

        def fn(run):
            arrs = [run.get(t) for t in ts]
            for a in arrs:
                if a.shape != arrs[0].shape:
                    raise ValueError('shapes of stacked tensors differ')
            k = norm_axis(axis, len(arrs[0].shape) + 1)
            return concatenated([Arr(a.shape[:k] + [1] + a.shape[k:], a.data) for a in arrs], k)
        return self.new(name or 'stack', shape, fn, ts[0].dtype)

    def unstack(self, value, num=None, axis=0, name=None):
        value = self.t(value)
        k = norm_axis(axis, len(value.shape))
        n = num if num is not None else value.shape[k]
        if n is None:
            raise ValueError('Cannot infer num from shape %r' % (value.shape,))

        def pick(i):
            def fn(run):
                a = run.get(value)
                if a.shape[k] != n:
                    raise ValueError('unstack of another size')
                rest = a.shape[:k] + a.shape[k + 1:]
                return Arr(rest, [at(a, ix[:k] + [i] + ix[k:]) for ix in indices(rest)])
            return self.new('unstack', list(value.shape[:k]) + list(value.shape[k + 1:]), fn, value.dtype)
        return [pick(i) for i in range(n)]

    def pad(self, tensor, paddings, mode='CONSTANT', name=None, constant_values=0):
        tensor = self.t(tensor)

        def fn(run):
            a = run.get(tensor)
            p = [[int(run.number(x)) if isinstance(x, Tensor) else int(x) for x in row] for row in paddings]
            if any([x < 0 for row in p for x in row]):
                raise ValueError('Paddings must be non-negative')
            shape = [d + x + y for d, (x, y) in zip(a.shape, p)]
            data = []
            for ix in indices(shape):
                src = [i - row[0] for i, row in zip(ix, p)]
                data.append(at(a, src) if all([0 <= s < d for s, d in zip(src, a.shape)]) else constant_values)
            return Arr(shape, data)
        shape = [None if d is None or isinstance(x, Tensor) or isinstance(y, Tensor) else d + x + y for d, (x, y) in zip(tensor.shape, paddings)]
        return self.new(name or 'Pad', shape, fn, tensor.dtype)

    def slice(self, input_, begin, size, name=None):
        input_ = self.t(input_)

        def fn(run):
            a = run.get(input_)
            b = self.dims(run, begin)
            s = self.dims(run, size)
            s = [d - x if n == -1 else n for d, x, n in zip(a.shape, b, s)]
            for d, x, n in zip(a.shape, b, s):
                if x < 0 or n < 0 or x + n > d:
                    raise ValueError('Expected size in [0, %d], but got %d' % (d - x, n))
            return Arr(s, [at(a, [x + i for x, i in zip(b, ix)]) for ix in indices(s)])
        shape = [None if not isinstance(n, int) or n == -1 and d is None else d if n == -1 and x == 0 else n for d, x, n in zip(input_.shape, begin, size)]
        return self.new(name or 'Slice', shape, fn, input_.dtype)

    def cond(self, pred, true_fn=None, false_fn=None, name=None):
        a, b = true_fn(), false_fn()
        shape = [x if x == y else None for x, y in zip(a.shape, b.shape)]
        return self.new(name or 'cond', shape, lambda run: run.get(a) if run.number(pred) else run.get(b), a.dtype)

    def fill(self, dims, value, name=None):
        v = self.t(value)

        def fn(run):
            d = self.dims(run, dims)
            return Arr(d, [run.number(v)] * prod(d))
        n = dims.shape[0] if isinstance(dims, Tensor) and dims.shape else None
        return self.new(name or 'Fill', [None] * n if n is not None else self.static(dims), fn, v.dtype)

    def zeros(self, shape, dtype=None, name=None):
        return self.fill(shape, 0)

    def ones(self, shape, dtype=None, name=None):
        return self.fill(shape, 1)

    def zeros_like(self, x, *a, **k):
        return self.el('zeros_like', lambda v: 0, x)

    def ones_like(self, x, *a, **k):
        return self.el('ones_like', lambda v: 1, x)

    # reductions
    def red(self, name, f, x, axis, keep):
        x = self.t(x)

        def axes(n):
            if axis is None:
                return list(range(n))
            return [norm_axis(a, n) for a in (axis if isinstance(axis, (list, tuple)) else [axis])]
        shape = None
        if x.shape is not None:
            ax = axes(len(x.shape))
            shape = [1 if i in ax else d for i, d in enumerate(x.shape) if keep or i not in ax]
        elif axis is None:
            shape = []
        return self.new(name, shape, lambda run: fold(run.get(x), axes(len(run.get(x).shape)), f, keep), x.dtype)

    def reduce_sum(self, x, axis=None, keepdims=False, name=None, keep_dims=None, reduction_indices=None):
        if isinstance(x, dict):
            raise TypeError('Failed to convert a dictionary to a tensor')
        return self.red(name or 'Sum', total, x, axis, keepdims or keep_dims)

    def reduce_mean(self, x, axis=None, keepdims=False, name=None, keep_dims=None):
        return self.red(name or 'Mean', lambda xs: div(total(xs), len(xs)), x, axis, keepdims or keep_dims)

    def largest(self, xs):
        out = xs[0]
        for x in xs[1:]:
            out = ite(self.h, gt(x, out), x, out)
        return out

    def reduce_max(self, x, axis=None, keepdims=False, name=None, keep_dims=None):
        return self.red(name or 'Max', self.largest, x, axis, keepdims or keep_dims)

    def reduce_min(self, x, axis=None, keepdims=False, name=None, keep_dims=None):
        return self.multiply(self.reduce_max(self.multiply(x, -1), axis, keepdims), -1)

    def where_largest(self, xs):
        best, k = xs[0], 0
        for i, x in enumerate(xs[1:], 1):
            c = gt(x, best)
            best, k = ite(self.h, c, x, best), ite(self.h, c, i, k)
        return k

    def argmax(self, input, axis=None, name=None, dimension=None, output_type=None):
        axis = axis if axis is not None else dimension if dimension is not None else 0
        t = self.red(name or 'ArgMax', self.where_largest, input, axis, False)
        t.dtype = 'int64'
        return t

    def softmax(self, x, axis=-1, name=None, dim=None):
        x = self.t(x)

        def fn(run):
            a = run.get(x)
            k = norm_axis(axis, len(a.shape))
            perm = [i for i in range(len(a.shape)) if i != k] + [k]
            b = transposed(a, perm)
            n = b.shape[-1]
            data = []
            for i in range(0, len(b.data), n):
                data.extend(softmax(b.data[i:i + n]))
            back = [perm.index(i) for i in range(len(perm))]
            return transposed(Arr(b.shape, data), back)
        return self.new(name or 'Softmax', x.shape, fn)

    def einsum(self, equation, *xs, **k):
        ts = [self.t(x) for x in xs]
        left, right = equation.replace(' ', '').split('->')
        parts = left.split(',')

        def fn(run):
            arrs = [run.get(t) for t in ts]
            size = {}
            for p, a in zip(parts, arrs):
                for c, d in zip(p, a.shape):
                    if size.setdefault(c, d) != d:
                        raise ValueError('einsum of different sizes')
            inner = [c for c in sorted(size) if c not in right]
            data = []
            for o in indices([size[c] for c in right]):
                env = dict(zip(right, o))
                s = []
                for n in indices([size[c] for c in inner]):
                    env.update(dict(zip(inner, n)))
                    v = 1
                    for p, a in zip(parts, arrs):
                        v = mul(v, at(a, [env[c] for c in p]))
                    s.append(v)
                data.append(total(s))
            return Arr([size[c] for c in right], data)
        known = {}
        for p, t in zip(parts, ts):
            for c, d in zip(p, t.shape):
                if d is not None:
                    known[c] = d
        return self.new('einsum', [known.get(c) for c in right], fn)

    def matmul(self, a, b, name=None, **k):
        a, b = self.t(a), self.t(b)
        letters = 'xyzuvw'[:len(a.shape) - 2]
        return self.einsum(letters + 'ij,' + (letters if len(b.shape) > 2 else '') + 'jk->' + letters + 'ik', a, b)

    # layers
    def embedding_lookup(self, params, ids, name=None, **k):
        params, ids = self.t(params), self.t(ids)

        def fn(run):
            m, a = run.get(params), run.get(ids)
            step = prod(m.shape[1:])
            data = []
            for i in a.data:
                if not hasattr(i, 'e'):
                    if not 0 <= i < m.shape[0]:
                        raise IndexError('indices = %d is not in [0, %d)' % (i, m.shape[0]))
                    data.extend(m.data[i * step:(i + 1) * step])
                else:
                    if not self.h.all([i >= 0, i < m.shape[0]]):
                        raise IndexError('indices are not in [0, %d)' % m.shape[0])
                    for c in range(step):
                        v = m.data[c]
                        for r in range(1, m.shape[0]):
                            v = ite(self.h, i == r, m.data[r * step + c], v)
                        data.append(v)
            return Arr(a.shape + m.shape[1:], data)
        return self.new(name or 'embedding_lookup', None if ids.shape is None else list(ids.shape) + list(params.shape[1:]), fn)

    def gather(self, params, indices, axis=0, name=None, **k):
        return self.embedding_lookup(params, indices, name)

    def one_hot(self, indices, depth, on_value=1, off_value=0, axis=-1, dtype=None, name=None):
        ids = self.t(indices)
        return self.new(name or 'one_hot', list(ids.shape) + [depth],
                        lambda run: Arr(run.get(ids).shape + [depth], [ite(self.h, eq(i, k), on_value, off_value) for i in run.get(ids).data for k in range(depth)]))

    def sequence_mask(self, lengths, maxlen=None, dtype='bool', name=None):
        lengths = self.t(lengths)

        def fn(run):
            a = run.get(lengths)
            n = max([int(x) for x in a.data]) if maxlen is None else int(run.number(maxlen)) if isinstance(maxlen, Tensor) else maxlen
            on, off = (True, False) if dtype == 'bool' else (1, 0)
            return Arr(a.shape + [n], [on if k < int(x) else off for x in a.data for k in range(n)])
        return self.new(name or 'SequenceMask', list(lengths.shape) + [None if maxlen is None or isinstance(maxlen, Tensor) else maxlen], fn, dtype)

    def ragged_boolean_mask(self, data, mask, **k):
        data, mask = self.t(data), self.t(mask)
        out = NS()

        def fn(run):
            a, m = run.get(data), run.get(mask)
            if a.shape != m.shape:
                return self.h.unsupported('masks of other ranks')
            n = a.shape[-1]
            rows = []
            for i in range(0, len(a.data), n):
                rows.append([x for x, b in zip(a.data[i:i + n], m.data[i:i + n]) if b])
            width = max([len(r) for r in rows])
            return Arr(a.shape[:-1] + [width], [x for r in rows for x in r + [0] * (width - len(r))])
        out.to_tensor = lambda *a, **k: self.new('RaggedToTensor', [None] * len(data.shape), fn)
        return out

    def boolean_mask(self, tensor, mask, name=None, axis=None):
        tensor, mask = self.t(tensor), self.t(mask)

        def fn(run):
            a, m = run.get(tensor), run.get(mask)
            step = prod(a.shape[len(m.shape):])
            keep = [k for k, b in enumerate(m.data) if b]
            return Arr([len(keep)] + a.shape[len(m.shape):], [x for k in keep for x in a.data[k * step:(k + 1) * step]])
        return self.new(name or 'boolean_mask', [None] + list(tensor.shape[len(mask.shape):]), fn)

    def resolve(self, f):
        return resolved(self, f)

    def dense(self, inputs, units, activation=None, use_bias=True, name=None, reuse=None, **k):
        inputs = self.t(inputs)
        g = self.graph()
        if name is None:
            n = 0
            prefix = '/'.join([s for s in g.scopes if s])
            prefix = prefix + '/' if prefix else ''
            name = 'dense'
            while prefix + name + '/kernel' in g.variables:
                n += 1
                name = 'dense_%d' % n
        size = inputs.shape[-1]
        if size is None:
            raise ValueError('The last dimension of the inputs to Dense should be defined.')
        units = int(units)
        with VariableScope(self, name, reuse):
            kernel = self.get_variable('kernel', [size, units])
            bias = self.get_variable('bias', [units]) if use_bias else None

        def fn(run):
            a, w = run.get(inputs), run.get(kernel).data
            b = run.get(bias).data if use_bias else [0] * units
            data = []
            for i in range(0, len(a.data), size):
                x = a.data[i:i + size]
                for u in range(units):
                    data.append(add(total([mul(x[j], w[j * units + u]) for j in range(size)]), b[u]))
            return Arr(a.shape[:-1] + [units], data)
        out = self.new(name + '/BiasAdd', list(inputs.shape[:-1]) + [units], fn)
        activation = self.resolve(activation)
        return activation(out) if activation is not None else out

    def nn_dropout(self, x, keep_prob=None, noise_shape=None, seed=None, name=None, rate=None):
        x = self.t(x)
        keep = self.subtract(1, rate) if rate is not None else self.t(keep_prob)
        return self.new(name or 'dropout', x.shape, lambda run: Arr(run.get(x).shape, [dropped(v, run.number(keep)) for v in run.get(x).data]))

    def layers_dropout(self, inputs, rate=0.5, noise_shape=None, seed=None, training=False, name=None):
        if training is False:
            return self.identity(inputs)
        return self.nn_dropout(inputs, rate=rate)

    def conv2d(self, input, filter=None, strides=None, padding=None, use_cudnn_on_gpu=True, data_format='NHWC', dilations=(1, 1, 1, 1), name=None, filters=None):
        input, f = self.t(input), filter if filter is not None else filters
        if padding not in ('SAME', 'VALID', 'EXPLICIT') and not isinstance(padding, (list, tuple)):
            raise ValueError('padding %r' % (padding,))
        if list(strides) != [1, 1, 1, 1] or padding not in ('SAME', 'VALID') or data_format != 'NHWC':
            return self.h.unsupported('other convolutions')
        same = padding == 'SAME'
        dil = list(dilations)

        def fn(run):
            a, w = run.get(input), run.get(f)
            n, hh, ww, ch = a.shape
            fh, fw, fc, out = w.shape
            if fc != ch:
                raise ValueError('input depth must match')
            top = (fh - 1) * dil[1] // 2 if same else 0
            left = (fw - 1) * dil[2] // 2 if same else 0
            data = []
            oh = hh if same else max(hh - (fh - 1) * dil[1], 0)
            ow = ww if same else max(ww - (fw - 1) * dil[2], 0)
            for b in range(n):
                for y in range(oh):
                    for x in range(ow):
                        for o in range(out):
                            s = []
                            for i in range(fh):
                                for j in range(fw):
                                    yy, xx = y + i * dil[1] - top, x + j * dil[2] - left
                                    if 0 <= yy < hh and 0 <= xx < ww:
                                        for c in range(ch):
                                            s.append(mul(a.data[((b * hh + yy) * ww + xx) * ch + c], w.data[((i * fw + j) * ch + c) * out + o]))
                            data.append(total(s) if s else 0)
            return Arr([n, oh, ow, out], data)
        size = [d if same or d is None else max(d - (k - 1) * i, 0) for d, k, i in zip(input.shape[1:3], f.shape[:2], dil[1:3])]
        return self.new(name or 'Conv2D', list(input.shape[:1]) + size + [f.shape[-1]], fn)

    def cell(self, num_units, *a, **k):
        c = NS()
        c.size = num_units
        return c

    def bidirectional_dynamic_rnn(self, cell_fw, cell_bw, inputs, sequence_length=None, initial_state_fw=None, initial_state_bw=None, dtype=None,
                                  parallel_iterations=None, swap_memory=False, time_major=False, scope=None):
        inputs = self.t(inputs)
        size = inputs.shape[-1]
        with VariableScope(self, scope or 'bidirectional_rnn'):
            for way, cell in (('fw', cell_fw), ('bw', cell_bw)):
                self.get_variable(way + '/kernel', [size + cell.size, 4 * cell.size])

        def both(run):
            a = run.get(inputs)
            lens = [int(x) for x in run.get(sequence_length).data] if sequence_length is not None else [a.shape[1]] * a.shape[0]
            rows = nested(a)
            return [lstm(r, cell_fw.size, n) for r, n in zip(rows, lens)], [lstm(r, cell_bw.size, n) for r, n in zip(rows, lens)]
        shape = list(inputs.shape[:2])
        fw = self.new('rnn_fw', shape + [cell_fw.size], lambda run: arr([x[0] for x in both(run)[0]]))
        bw = self.new('rnn_bw', shape + [cell_bw.size], lambda run: arr([x[1] for x in both(run)[1]]))
        return (fw, bw), None

    # losses
    def sparse_softmax_cross_entropy_with_logits(self, _sentinel=None, labels=None, logits=None, name=None):
        labels, logits = self.t(labels), self.t(logits)

        def fn(run):
            y, x = run.get(labels), run.get(logits)
            if x.shape[:-1] != y.shape:
                raise ValueError('logits %r and labels %r do not match' % (x.shape, y.shape))
            n = x.shape[-1]
            return Arr(y.shape, [sparse_cross_entropy(self.h, x.data[i * n:(i + 1) * n], v) for i, v in enumerate(y.data)])
        return self.new(name or 'SparseSoftmaxCrossEntropyWithLogits', labels.shape, fn)

    def sigmoid_cross_entropy_with_logits(self, _sentinel=None, labels=None, logits=None, name=None):
        labels, logits = self.t(labels), self.t(logits)

        def fn(run):
            y, x = run.get(labels), run.get(logits)
            if x.shape != y.shape:
                raise ValueError('logits %r and labels %r do not match' % (x.shape, y.shape))
            return Arr(y.shape, [sigmoid_cross_entropy(self.h, a, b) for a, b in zip(x.data, y.data)])
        return self.new(name or 'logistic_loss', labels.shape, fn)

    def clip_by_norm(self, t, clip_norm, axes=None, name=None):
        return self.new(name or 'clip', t.shape, t.fn, kind=t.kind + (clip_norm, [t.kind[1]]) if t.kind else ('clipped',))

    def clip_by_value(self, t, clip_value_min, clip_value_max, name=None):
        return self.new(name or 'clip', t.shape, t.fn, kind=t.kind + ((clip_value_min, clip_value_max), []) if t.kind else ('clipped',))

    def clip_by_global_norm(self, t_list, clip_norm, use_norm=None, name=None):
        out = []
        t_list = list(t_list)
        together = sorted([g.kind[1] for g in t_list])
        for g in t_list:
            n = self.new('clip', g.shape, g.fn, kind=g.kind + (clip_norm, together))
            out.append(n)
        return out, self.new('global_norm', [], lambda run: Arr([], [1]))


TF.stack_tensors = TF.stack_


def resolved(tf, f):
    """names of tensorflow that were looked up when the code was imported"""
    n = getattr(f, '_name', None)
    if type(f).__name__ == 'Dummy' and isinstance(n, str) and n.startswith('tensorflow'):
        v = tf
        for part in n.split('.')[1:]:
            v = getattr(v, part)
        return v
    return f


class Finfo(object):
    min = LOWEST
    max = -LOWEST


class NP(object):
    """the little of numpy that is used"""
    float32 = 'float32'

    @staticmethod
    def finfo(t):
        return Finfo()


class Facade(object):
    """tf.stack is both the operation and, inside of the stand-in, the stack of graphs: the code sees the operation"""

    def __init__(self, tf):
        self._tf = tf

    def __getattr__(self, n):
        if n == 'stack':
            return self._tf.stack_
        if n.startswith('_'):
            raise AttributeError(n)
        if n in ('h', 't', 'el', 'red', 'dims', 'static', 'new', 'item', 'cell', 'graph', 'default', 'sessions', 'saved') or not hasattr(self._tf, n):
            return self._tf.h.unsupported('tensorflow.' + n)
        return getattr(self._tf, n)


MODULES = ['neural.network', 'neural.utils', 'neural.initializers', 'neural.model', 'neural.tagger.shared_builders', 'neural.tagger.task_builders',
           'neural.tagger.network_provider', 'neural.tagger.neural_tagger']


def install(h):
    """the stand-in in place of tensorflow in all modules of the package that were loaded"""
    import sys
    tf = TF(h)
    facade = Facade(tf)
    for m in MODULES:
        h.mod(m)
    names = [n for n in sorted(sys.modules) if n.startswith('babylondigger')]
    for n in names:
        m = sys.modules[n]
        for k, v in list(vars(m).items()):
            t = type(v).__name__
            if t == 'StubModule' and v.__name__ == 'tensorflow':
                h.patch(m, k, facade)
            elif t == 'StubModule' and v.__name__ == 'numpy':
                h.patch(m, k, NP)
            elif t == 'Dummy' and v._name.startswith('tensorflow'):
                h.patch(m, k, resolved(tf, v))
            elif type(v) is dict and any([type(x).__name__ == 'Dummy' for x in v.values()]):
                h.patch(m, k, {a: resolved(tf, x) for a, x in v.items()})
    return tf
