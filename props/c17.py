"""C17 a parameter grid expands to exactly all combinations"""
import sys

BOUNDS = {'grid': 'up to 3 parameters with up to 3 alternatives each (one parameter with 5, two with 6; 4 to 6 parameters in concrete shapes), nesting up to 6 levels',
          'values': 'arbitrary integers and characters; lists, dictionaries, null and booleans as values'}
ASSUMPTIONS = ['every alternative names one parameter', 'no parameter of the grid contains another one unless stated']


def cases(tier):
    out = []
    for shape in ([1], [3], [2, 2], [1, 3], [3, 1], [2, 1, 2], [2, 2, 2], [5], [1, 1, 1]) + (([3, 3, 3], [2, 3, 4]) if tier == 'thorough' else ()):
        out.append(('expand' + '_'.join(map(str, shape)), 'expand', {'shape': shape}, ['all combinations', 'independent sets']))
    out += [('kinds', 'kinds', {}, ['all combinations', 'independent sets']), ('empty', 'empty', {}, ['all combinations']),
            ('replaced', 'replaced', {}, ['all combinations', 'independent sets']),
            ('many', 'many', {}, ['all combinations', 'independent sets']), ('six', 'six', {}, ['all combinations', 'independent sets']), ('deep', 'deep', {}, ['refused iff not one parameter per place']),
            ('unknown', 'unknown', {}, ['unknown parameter refused']), ('mixed', 'mixed', {}, ['different parameters in one place refused']),
            ('twice', 'twice', {}, ['one parameter in two places refused']),
            ('crossed', 'crossed', {'shape': [2, 2]}, ['refused iff not one parameter per place']), ('crossed1', 'crossed', {'shape': [2, 1, 1]}, ['refused iff not one parameter per place']),
            ('crossed2', 'crossed', {'shape': [1, 3]}, ['refused iff not one parameter per place']), ('arguments', 'arguments', {}, ['passed on'])]
    return out


def _text(v):
    """JSON text; symbolic values stay symbolic"""
    if v is None:
        return 'null'
    if v is True or v is False:
        return 'true' if v else 'false'
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, dict):
        return '{' + ', '.join(['"' + k + '": ' + _text(x) for k, x in v.items()]) + '}'
    if isinstance(v, list):
        return '[' + ', '.join([_text(x) for x in v]) + ']'
    return str(v)


def _copy(v):
    if isinstance(v, dict):
        return {k: _copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_copy(x) for x in v]
    return v


def _eq(h, a, b):
    """equal values; keys are concrete"""
    if isinstance(b, dict):
        return isinstance(a, dict) and sorted(a.keys()) == sorted(b.keys()) and h.all([_eq(h, a[k], b[k]) for k in b.keys()])
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and h.all([_eq(h, x, y) for x, y in zip(a, b)])
    if b is None or b is True or b is False:
        return a is b
    return h.same(a, b)


def _put(d, path, value):
    for p in path[:-1]:
        d = d[p]
    d[path[-1]] = value


def _nest(path, value):
    for p in reversed(path):
        value = {p: value}
    return value


def _run(h, base, grid, settings=None):
    """the command; returns the outcome and what it hands to the evaluation"""
    ge = h.mod('evaluation.grid_eval')
    ev = h.mod('evaluation.evaluation')
    got = []
    ev.main = lambda a: got.append(a)
    old = sys.argv
    sys.argv = ['grid_eval', '--settings', h.file('settings.json', _text(settings or {'model_dir': 'x'})), '--method', 'neural',
                '--hyperparams', h.file('hyper.json', _text(base)), '--grid', h.file('grid.json', _text(grid))]
    try:
        r = h.call(ge.main)
    finally:
        sys.argv = old
    return r, got


def _expect(base, grid, paths):
    out = [[]]
    for name in grid:
        out = [x + [alt] for x in out for alt in grid[name]]
    res = []
    for combo in out:
        d = _copy(base)
        for path, alt in zip(paths, combo):
            v = alt
            for p in path:
                v = v[p]
            _put(d, path, _copy(v))
        res.append(d)
    return res


def _mutables(v):
    if isinstance(v, dict):
        return [v] + [m for x in v.values() for m in _mutables(x)]
    if isinstance(v, list):
        return [v] + [m for x in v for m in _mutables(x)]
    return []


def _verify(h, base, grid, paths):
    r, got = _run(h, base, grid)
    h.check('accepted', r.ok, [r.error])
    h.check('evaluated once', len(got) == 1)
    sets = got[0].hyperparams
    want = _expect(base, grid, paths)
    h.check('number of sets', len(sets) == len(want), [len(sets), len(want)])
    h.check('all combinations', h.all([_eq(h, a, b) for a, b in zip(sets, want)]), [sets])
    ids = [set([id(m) for m in _mutables(s)]) for s in sets]
    h.check('independent sets', all([not (ids[i] & ids[j]) for i in range(len(ids)) for j in range(i)]))
    return got[0]


BASE = {'epochs': 1, 'batch_size': 2, 'nn_config': {'general': {'optimizer': {'type': 'GD', 'lr': 5}, 'seeds': [1, 2]},
                                                     'shared': {'lr': 6, 'cells': 7}}, 'flag': False}
PATHS = [['nn_config', 'general', 'optimizer', 'lr'], ['epochs'], ['nn_config', 'shared', 'lr'], ['nn_config', 'general', 'optimizer', 'type'],
         ['nn_config', 'shared', 'cells']]


def expand(h, shape):
    first = h.choice('first', list(range(len(PATHS))))
    paths = [PATHS[(first + k) % len(PATHS)] for k in range(len(shape))]
    base = _copy(BASE)
    base['batch_size'] = h.int('batch', 0, 9)
    grid = {}
    for k, n in enumerate(shape):
        grid['p%d' % (9 - k)] = [_nest(paths[k], h.str('v%d_%d' % (k, i), 2, 'GDя') if paths[k][-1] == 'type' else h.int('v%d_%d' % (k, i), -3, 9))
                                 for i in range(n)]
    _verify(h, base, grid, paths)


VALUES = [None, True, [1, 2], {'new': 1}, 'x', [[3]]]


def kinds(h):
    """any kind of value may replace any other"""
    v = h.choice('value', VALUES)
    path = h.choice('path', [['flag'], ['nn_config', 'general', 'seeds'], ['nn_config', 'shared', 'lr']])
    grid = {'a': [_nest(path, _copy(v)), _nest(path, {'new': h.int('other', 0, 3)} if isinstance(v, dict) else h.int('other', 0, 3))], 'b': [{'epochs': h.int('e0', 0, 3)}, {'epochs': h.int('e1', 0, 3)}]}
    if h.bool('swap'):
        grid = {'b': grid['b'], 'a': grid['a']}
        _verify(h, BASE, grid, [['epochs'], path])
    else:
        _verify(h, BASE, grid, [path, ['epochs']])


def empty(h):
    base = _copy(BASE)
    base['epochs'] = h.int('epochs', 0, 9)
    _verify(h, base, {}, [])


def many(h):
    """two parameters of six alternatives each"""
    grid = {}
    for k in range(2):
        grid['p%d' % k] = [_nest(PATHS[k], h.int('v%d' % k, 0, 9) if i == 5 else i) for i in range(6)]
    _verify(h, BASE, grid, PATHS[:2])


def six(h):
    """six parameters"""
    base = _copy(BASE)
    base['six'] = {'p%d' % k: {'v': 0} for k in range(6)}
    paths = [['six', 'p%d' % k, 'v'] for k in range(6)]
    n = h.choice('parameters', [4, 5, 6])
    at = h.choice('at', [0, 3])
    grid = {'g%d' % k: [_nest(paths[k], h.int('value', 0, 9) if k == at else 3)] + ([_nest(paths[k], k)] if k in (1, 2) else []) for k in range(n)}
    _verify(h, base, grid, paths[:n])


def deep(h):
    """parameters that differ only below the fifth level"""
    base = _copy(BASE)
    base['a'] = {'b': {'c': {'d': {'e': {'x': 1, 'y': {'z': 2}}, 'f': 3}}}}
    paths = [['a', 'b', 'c', 'd', 'e', 'x'], ['a', 'b', 'c', 'd', 'e', 'y', 'z'], ['a', 'b', 'c', 'd', 'f']]
    which = [[h.choice('w%d_%d' % (k, i), [0, 1, 2]) for i in range(2)] for k in range(2)]
    grid = {'p%d' % k: [_nest(paths[p], 5 + i) for i, p in enumerate(w)] for k, w in enumerate(which)}
    ok = all([len(set(w)) == 1 for w in which]) and which[0][0] != which[1][0]
    if ok:
        _verify(h, base, grid, [paths[w[0]] for w in which])
    else:
        r, got = _run(h, base, grid)
        h.check('refused iff not one parameter per place', r.error == 'ValueError' and not got, [r.error])
    h.reach('refused iff not one parameter per place')


def replaced(h):
    """an alternative sets a whole section, another one a parameter of it"""
    base = _copy(BASE)
    base['flag'] = None
    n = h.choice('alternatives', [1, 2, 3])
    section = {'a': h.int('a', 0, 3), 'b': h.int('b', 0, 3)}
    grid = {'x': [{'flag': _copy(section)}], 'y': [{'flag': {'b': h.int('v%d' % i, 0, 5)}} for i in range(n)]}
    r, got = _run(h, base, grid)
    h.check('accepted', r.ok, [r.error])
    want = []
    for i in range(n):
        d = _copy(base)
        d['flag'] = {'a': section['a'], 'b': grid['y'][i]['flag']['b']}
        want.append(d)
    sets = got[0].hyperparams
    h.check('all combinations', len(sets) == n and h.all([_eq(h, a, b) for a, b in zip(sets, want)]), [sets])
    ids = [set([id(m) for m in _mutables(s)]) for s in sets]
    h.check('independent sets', all([not (ids[i] & ids[j]) for i in range(n) for j in range(i)]))


def unknown(h):
    path = h.choice('path', [['nothing'], ['nn_config', 'lr'], ['nn_config', 'shared', 'type'], ['nn_config', 'general', 'optimizer', 'cells'],
                             ['lr'], ['nn_config', 'epochs'], ['epochs'], ['nn_config', 'shared', 'lr'], ['empty', 'x'], ['empty']])
    known = path in (['empty'], ['epochs'], ['nn_config', 'shared', 'lr'])
    grid = {'a': [_nest(path, h.int('v', 0, 3))], 'b': [{'batch_size': h.int('w', 0, 3)}]}
    if h.bool('swap'):
        grid = {'b': grid['b'], 'a': grid['a']}
    base = _copy(BASE)
    base['empty'] = {}
    r, got = _run(h, base, grid)
    h.check('unknown parameter refused', r.ok == known and (known or r.error == 'ValueError') and len(got) == int(known), [r.error])


def mixed(h):
    i, j = h.choice('i', list(range(4))), h.choice('j', list(range(4)))
    at = h.choice('at', [0, 1, 2])
    alts = [_nest(PATHS[j if k == at else i], h.int('v%d' % k, 0, 2)) for k in range(3)]
    grid = {'a': alts, 'b': [{'batch_size': 1}]}
    if h.bool('second'):
        grid = {'b': [{'batch_size': 1}], 'a': alts}
    r, got = _run(h, BASE, grid)
    same = i == j
    h.check('different parameters in one place refused', r.ok == same and (same or r.error == 'ValueError') and len(got) == int(same), [r.error])


def twice(h):
    i, j = h.choice('i', list(range(4))), h.choice('j', list(range(4)))
    n = h.choice('n', [1, 2])
    k = h.choice('k', [0, 1, 2])
    places = [PATHS[i], ['batch_size']]
    places.insert(k, PATHS[j])
    grid = {}
    for m, p in enumerate(places):
        grid['p%d' % m] = [_nest(p, h.int('v%d_%d' % (m, q), 0, 2)) for q in range(n)]
    r, got = _run(h, BASE, grid)
    ok = i != j
    h.check('one parameter in two places refused', r.ok == ok and (ok or r.error == 'ValueError') and len(got) == int(ok), [r.error])


def crossed(h, shape):
    """any assignment of parameters to the alternatives of every place"""
    which = [[h.choice('w%d_%d' % (k, i), [0, 1, 2]) for i in range(n)] for k, n in enumerate(shape)]
    grid = {}
    for k, w in enumerate(which):
        grid['p%d' % k] = [_nest(PATHS[p], 1 + i) for i, p in enumerate(w)]
    r, got = _run(h, BASE, grid)
    ok = all([len(set(w)) == 1 for w in which]) and len(set([w[0] for w in which])) == len(which)
    h.check('refused iff not one parameter per place', r.ok == ok and (ok or r.error == 'ValueError') and len(got) == int(ok), [r.error])


def arguments(h):
    """settings and method reach the evaluation unchanged"""
    settings = {'model_dir': h.str('dir', 3, 'ab/'), 'random_seed': [h.int('seed', 0, 9), 2]}
    r, got = _run(h, BASE, {'a': [{'epochs': 3}]}, settings)
    h.check('passed on', r.ok and h.all([_eq(h, got[0].settings, settings), got[0].method == 'neural', len(got[0].hyperparams) == 1]))
    h.check('models of the other sets are disposed of', got[0].delete_after is True, [got[0].delete_after])
