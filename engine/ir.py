"""Loads the extractor's output and classifies types."""
import json, re

ENTITY = ('printemps::model_component::Variable', 'printemps::model_component::Constraint',
          'printemps::model_component::Selection', 'printemps::model_component::Expression',
          'printemps::utility::graph::Node', 'printemps::utility::graph::Edge')
SINGLETON = ('printemps::model::Model',)


class IR:
    def __init__(self, path):
        self.types = {}
        self._raw = {}
        self._fn = {}
        self.meta = {}
        self.by_name = {}
        self.by_lambda = {}
        self.complete = False
        for l in open(path):
            if l.startswith('{"R":"type"') or '"R":"type"' in l[-4000:] and '"R":"type"' in l and not '"R":"fn"' in l:
                o = json.loads(l)
                if o.get('R') == 'type':
                    self.types[o['id']] = o
                    continue
            o = json.loads(l)
            if o['R'] == 'type':
                self.types[o['id']] = o
            elif o['R'] == 'fn':
                self._fn[o['id']] = o
                self.by_name.setdefault(o['n'], []).append(o['id'])
                if 'lambda' in o:
                    self.by_lambda.setdefault(o['lambda'], []).append(o['id'])
            elif o['R'] == 'end':
                self.complete = True
        self._kind = {}

    def fn(self, i):
        return self._fn.get(i)

    def find(self, name, npar=None, pred=None):
        out = []
        for i in self.by_name.get(name, []):
            f = self._fn[i]
            if npar is not None and len(f['ps']) != npar:
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        return out

    def t(self, i):
        return self.types[i]

    def deref(self, i):
        """strip references"""
        o = self.types[i]
        while o['k'] == 'ref':
            i = o['e']
            o = self.types[i]
        return i

    def short(self, o):
        return re.sub(r'<.*', '', o['n'])

    def kind(self, i):
        if i in self._kind:
            return self._kind[i]
        r = self._kind[i] = self._classify(i)
        return r

    def is_entity(self, i):
        o = self.types[i]
        return o['k'] == 'rec' and self.short(o) in ENTITY

    def is_singleton(self, i):
        o = self.types[i]
        return o['k'] == 'rec' and self.short(o) in SINGLETON

    def _classify(self, i):
        o = self.types[i]
        k = o['k']
        if k in ('void', 'bool', 'int', 'uint', 'real', 'nullptr'):
            return {'uint': 'int'}.get(k, k)
        if k == 'enum':
            return 'int'
        if k == 'ref':
            return 'ref'
        if k == 'ptr':
            e = o['e']
            if self.is_entity(e):
                return 'eptr'
            if self.is_singleton(e):
                return 'sptr'
            ek = self.kind(e)
            if ek in ('bool', 'real', 'eptr') or (ek == 'int' and 'char' not in self.types[e]['s']):
                return 'rawarr'
            if ek == 'int':
                return 'cstr'
            return 'pyptr'
        if k == 'carray':
            if 'char' in self.types[o['e']]['s']:
                return 'cstr'
            return 'carray'
        if k == 'rec':
            n = self.short(o)
            if o.get('lambda'):
                return 'closure'
            if n == 'std::function':
                return 'closure'
            if n.startswith('std::basic_string') or n.startswith('std::__cxx11::basic_string'):
                return 'str'
            if n in ('std::vector', 'std::deque', 'std::array', 'std::initializer_list'):
                return 'vec'
            if n in ('std::unordered_map', 'std::map'):
                return 'map'
            if n in ('std::unordered_set', 'std::set'):
                return 'set'
            if n in ('std::unique_ptr', 'std::shared_ptr'):
                return 'uptr'
            if n == 'std::pair':
                return 'pair'
            if 'iterator' in n or 'iterator' in o['s'].split('<')[0]:
                return 'iter'
            if 'f' in o:
                return 'rec'
            return 'opaque'
        return 'opaque'
