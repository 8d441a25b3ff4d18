"""Object graphs with properties, class variables, private attributes.

A class: {"n": name, "style": plain|ann|slots|data|attrs|ser, "base": i|None,
          "attrs": [name..], "props": [[name, value]..], "cvars": [[name, value]..]}
A node:  null|int|float|str|bool | ["list", [..]] | ["tuple", [..]] | ["deque", [..]]
         | ["dict", [[key, node]..]] | ["hdict", [[[int, str], node]..]]
         | ["obj", i, [node..]] | ["date", d] | ["enum"]
"""
import collections
import datetime as dt
import enum

import jsons
from jv import world
from jv.world import HashDict

ATTRS = ['a', 'b', 'name', 'value', 'my_attr', '_priv', '_p2', 'load', 'data', 'x1', '__', 'json', 'classes', 'key',
         'long_attr_name', '_x_y_']
ATTRS.remove('__')


class Color(enum.Enum):
    RED = 1


class Nil:
    """Something that is not None, but dumped as null."""

    def __repr__(self):
        return 'Nil()'


NIL = jsons.fork()
jsons.set_serializer(lambda obj, **kwargs: None, Nil, fork_inst=NIL)


class Graph:
    def __init__(self, classes):
        self.specs = classes
        self.classes = []
        for i in range(len(classes)):
            self.classes.append(self._make(i))

    def _make(self, i):
        c = self.specs[i]
        ns = world._module.__dict__
        style = c['style']
        base = c.get('base')
        bases = [self.specs[base]['n']] if base is not None else (
            ['jsons.JsonSerializable'] if style == 'ser' else [])
        lines = []
        if style == 'data':
            lines.append('@dataclasses.dataclass')
        if style == 'attrs':
            lines.append('@attr.s(auto_attribs=True)')
        lines.append('class %s(%s):' % (c['n'], ', '.join(bases)))
        every = self.attrs(i)
        if style == 'slots':
            lines.append('    __slots__ = %r' % (tuple(c['attrs']),))
        if style in ('data', 'attrs'):
            has_default = c.get('defaults') or base is not None
            for n in c['attrs']:
                lines.append('    %s: typing.Any%s' % (n, ' = None' if has_default else ''))
        if style == 'ann':
            for n in c['attrs']:
                lines.append('    %s: typing.Any' % n)
        for n, v in c['cvars']:
            key = '_cvar_%s_%s' % (c['n'], n)
            ns[key] = self.value(v)
            lines.append('    %s%s = %s' % (n, ': typing.ClassVar' if style in ('data', 'attrs') else '', key))
        if style not in ('data', 'attrs'):
            lines.append('    def __init__(self%s):' % ''.join(', ' + n for n in every))
            lines += ['        self.%s = %s' % (n, n) for n in every] or ['        pass']
        for n, v in c['props']:
            key = '_prop_%s_%s' % (c['n'], n)
            ns[key] = self.value(v)
            lines += ['    @property', '    def %s(self):' % n, '        return %s' % key]
        if c.get('methods'):
            lines += ['    def a_method(self):', '        return 1', '    @classmethod', '    def a_class_method(cls):',
                      '        return 2', '    @staticmethod', '    def a_static_method():', '        return 3',
                      '    class Inner%d:' % i, '        attr = 4']
        lines.append('    pass')
        exec('\n'.join(lines), ns)
        return ns[c['n']]

    def chain(self, i):
        res = []
        while i is not None:
            res.insert(0, i)
            i = self.specs[i].get('base')
        return res

    def attrs(self, i):
        res = []
        for k in self.chain(i):
            res += [n for n in self.specs[k]['attrs'] if n not in res]
        return res

    def members(self, i):
        """(properties, class variables) of the class, by name."""
        res = {}
        for k in self.chain(i):
            for n, v in self.specs[k]['cvars']:
                res[n] = ('cvar', v)
            for n, v in self.specs[k]['props']:
                res[n] = ('prop', v)
        return res

    def value(self, n):
        if not isinstance(n, list):
            return n
        k = n[0]
        if k == 'list':
            return [self.value(x) for x in n[1]]
        if k == 'tuple':
            return tuple(self.value(x) for x in n[1])
        if k == 'deque':
            return collections.deque(self.value(x) for x in n[1])
        if k == 'dict':
            return {a: self.value(x) for a, x in n[1]}
        if k == 'hdict':
            return {(a[0], a[1]): self.value(x) for a, x in n[1]}
        if k == 'date':
            return dt.date(2020, 1, n[1])
        if k == 'enum':
            return Color.RED
        if k == 'nil':
            return Nil()
        cls = self.classes[n[1]]
        vals = [self.value(x) for x in n[2]]
        names = self.attrs(n[1])
        if self.specs[n[1]]['style'] == 'attrs':
            names = [x.lstrip('_') for x in names]
        return cls(**dict(zip(names, vals)))

    def model(self, n, opts=None, tr=None):
        """The dump. tr transforms keys."""
        opts = opts or {}
        tr = tr or (lambda k: k)
        if not isinstance(n, list):
            return n
        k = n[0]
        if k in ('list', 'tuple', 'deque'):
            return [self.model(x, opts, tr) for x in n[1]]
        if k == 'date':
            return '2020-01-%02d' % n[1]
        if k == 'enum':
            return 'RED'
        if k == 'nil':
            return None
        if k in ('dict', 'hdict'):
            items = {}
            for a, x in n[1]:
                items[tuple(a) if k == 'hdict' else a] = (a, self.model(x, opts, tr))
            items = {a: m for a, m in items.items() if not (opts.get('strip_nulls') and m[1] is None)}
            if k == 'dict':
                return {tr(a): m for a, (_, m) in items.items()}
            return HashDict({}, [(list(a), m) for _, (a, m) in items.items()]) if items else {}
        i = n[1]
        strip_attr = opts.get('strip_attr') or []
        strip_attr = [strip_attr] if isinstance(strip_attr, str) else strip_attr
        entries = [(name, 'attr', self.model(x, opts, tr)) for name, x in zip(self.attrs(i), n[2])]
        entries += [(name, kind, self.model(v, opts, tr)) for name, (kind, v) in self.members(i).items()]
        public = self.specs[i]['style'] == 'attrs' and not opts.get('strip_privates')
        res = {}
        for name, kind, m in entries:
            if (name.startswith('_') and opts.get('strip_privates')
                    or kind == 'prop' and opts.get('strip_properties')
                    or kind == 'cvar' and opts.get('strip_class_variables')
                    or name in strip_attr or m is None and opts.get('strip_nulls')):
                continue
            res[tr(name.lstrip('_') if public else name)] = m
        return res


class Gen:
    """Draws graphs."""

    def __init__(self, draw, styles=('plain', 'ann', 'slots', 'data', 'attrs', 'ser', 'plain', 'data'), names=ATTRS,
                 keys=None, hashed=True, max_classes=3, props=True, cvars=True, privates=True,
                 nil=False):
        from hypothesis import strategies as st
        self.st = st
        self.draw = draw
        self.styles = styles
        self.names = [n for n in names if privates or not n.startswith('_')]
        self.keys = keys or st.one_of(st.sampled_from(self.names + ['k', '', 'x y', '_k']),
                                      st.integers(-2, 3).map(str))
        self.hashed = hashed
        self.props, self.cvars = props, cvars
        self.nil = nil
        self.classes = []
        for _ in range(self.i(1, max_classes)):
            self.make_class()

    def i(self, lo, hi):
        return self.draw(self.st.integers(lo, hi))

    def pick(self, seq):
        return self.draw(self.st.sampled_from(seq))

    def chance(self, n):
        return self.i(0, n - 1) == n - 1

    def make_class(self, base=None, style=None):
        if base is not None:
            style = self.classes[base]['style']
        style = style or self.pick(list(self.styles))
        if base is None and self.classes and self.chance(3):
            cands = [i for i, c in enumerate(self.classes) if c['style'] == style]
            base = self.pick(cands) if cands else None
        taken = set()
        members = set()
        if base is not None:
            k = base
            while k is not None:
                taken |= set(self.classes[k]['attrs'])
                members |= {n for n, _ in self.classes[k]['cvars'] + self.classes[k]['props']}
                k = self.classes[k].get('base')
        reserved = {'load', 'json', 'dump'} if style == 'ser' else set()
        stripped = {n.lstrip('_') for n in taken | members} if style == 'attrs' else set()

        def fresh(n):
            pool = [x for x in self.names if x not in taken and x not in reserved and x not in members
                    and (style != 'attrs' or x.lstrip('_') not in stripped)]
            res = []
            for _ in range(n):
                if not pool:
                    break
                x = self.pick(pool)
                pool.remove(x)
                if style == 'attrs':
                    pool = [y for y in pool if y.lstrip('_') != x.lstrip('_')]
                res.append(x)
                taken.add(x)
                stripped.add(x.lstrip('_'))
            return res

        attrs = fresh(self.i(0 if base is not None else 1, 3))
        props = fresh(self.i(0, 2) if self.props else 0)
        cvars = fresh(self.i(0, 2) if self.cvars else 0)
        if base is not None and members and self.chance(2):
            # override a property or class variable
            m = self.pick(sorted(members))
            (props if self.props and self.chance(2) else cvars if self.cvars else props).append(m)
        c = {'n': 'Cls%d' % len(self.classes), 'style': style, 'base': base, 'attrs': attrs,
             'props': [[n, self.atom()] for n in props], 'cvars': [[n, self.atom()] for n in cvars],
             'defaults': self.chance(2), 'methods': self.chance(3)}
        for kind in ('props', 'cvars'):
            for p in c[kind]:
                if self.chance(4) and self.classes:
                    p[1] = self.node(1, upto=len(self.classes))
        self.classes.append(c)
        return len(self.classes) - 1

    def atom(self):
        return self.draw(self.st.one_of(
            self.st.none(), self.st.integers(-3, 3), self.st.sampled_from(['', 'x', 'null', '_']), self.st.booleans(),
            self.st.sampled_from([0.0, 1.5]), self.st.sampled_from([['date', 3], ['enum']] + [['nil']] * self.nil)))

    def node(self, depth=3, upto=None):
        upto = len(self.classes) if upto is None else upto
        kinds = ['atom']
        if depth > 0:
            kinds += ['obj', 'obj', 'list', 'tuple', 'dict', 'deque'] + (['hdict'] if self.hashed else [])
        k = self.pick(kinds)
        if k == 'atom':
            return self.atom()
        if k in ('list', 'tuple', 'deque'):
            return [k, [self.node(depth - 1, upto) for _ in range(self.i(0, 3))]]
        if k == 'dict':
            return [k, [[self.draw(self.keys), self.node(depth - 1, upto)] for _ in range(self.i(0, 3))]]
        if k == 'hdict':
            return [k, [[[self.i(-2, 2), self.pick(['', 'a'])], self.node(depth - 1, upto)]
                        for _ in range(self.i(0, 3))]]
        return self.obj(self.i(0, upto - 1), depth, upto)

    def obj(self, i, depth=3, upto=None):
        n = len(Graph.attrs(_Specs(self.classes), i))
        return ['obj', i, [self.node(depth - 1, upto) for _ in range(n)]]


class _Specs:
    def __init__(self, specs):
        self.specs = specs

    chain = Graph.chain
