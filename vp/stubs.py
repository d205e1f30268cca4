"""Stand-ins for the third-party packages the repository imports; installed both for the symbolic
run and for the replay.  They hold no behaviour: a harness that needs one replaces it explicitly."""
import sys
import types


class Dummy(object):
    def __init__(self, name='dummy'):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Dummy(self._name + '.' + n)

    def __call__(self, *a, **k):
        return Dummy(self._name + '()')

    def __getitem__(self, i):
        return Dummy(self._name + '[]')

    def __mro_entries__(self, bases):
        return (object,)


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Dummy(self.__name__ + '.' + n)


class CoNLLUDataset(object):
    """the base class of the data set of the tdozat parser: a harness puts a factory into backend"""
    backend = None

    def __init__(self, conllu_files, vocabs, config=None):
        self.impl = type(self).backend(self, conllu_files, vocabs, config)

    def batch_iterator(self, *a, **k):
        return self.impl.batch_iterator(*a, **k)

    def get_tokens(self, indices):
        return self.impl.get_tokens(indices)

    def set_placeholders(self, indices, feed_dict=None):
        return self.impl.set_placeholders(indices)


NAMES = ['tensorflow', 'bpemb', 'morfessor', 'ufal', 'ufal.udpipe', 'numpy', 'tdozat_parser', 'tdozat_parser.parser', 'tdozat_parser.parser.config',
         'tdozat_parser.parser.structs', 'tdozat_parser.parser.structs.conllu_dataset', 'tdozat_parser.parser.graph_outputs']


def install(names=NAMES):
    for n in names:
        m = StubModule(n)
        m.__path__ = []
        sys.modules[n] = m
        if '.' in n:
            p, c = n.rsplit('.', 1)
            setattr(sys.modules[p], c, m)
    if 'tdozat_parser.parser.structs.conllu_dataset' in names:
        sys.modules['tdozat_parser.parser.structs.conllu_dataset'].CoNLLUDataset = CoNLLUDataset
