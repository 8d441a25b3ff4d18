"""C18: transform is dump, then map, then load."""
import copy

from hypothesis import strategies as st

import jsons
from jv.common import S_DUMP_OPTS, S_LOAD_OPTS, TRANSFORMERS, Raised, attempt, options, same_outcome, snap
from jv.core import Facet, Prop, require, short
from jv.gen import G, S_SMALL_JSON
from jv.world import World


class Mapper:
    def __init__(self, spec):
        self.spec = spec
        self.seen = []

    def __call__(self, d):
        self.seen.append(copy.deepcopy(d))
        return self.apply(d)

    def apply(self, d):
        what = self.spec['what']
        if what == 'raise':
            raise {'key': KeyError, 'value': ValueError, 'jsons': jsons.DeserializationError}[self.spec['err']](
                *(['m', 1, 2] if self.spec['err'] == 'jsons' else ['m']))
        if what == 'other':
            return self.spec['json']
        if not isinstance(d, dict):
            return d
        if not self.spec['inplace']:
            d = dict(d)
        for op, a, b in self.spec['ops']:
            if op == 'rename' and a in d:
                d[b] = d.pop(a)
            elif op == 'drop':
                d.pop(a, None)
            elif op == 'set':
                d[a] = self.spec['json']
            elif op == 'copy' and a in d:
                d[b] = d[a]
        return d


def check_transform(case, ctx):
    w = World(case['defs'])
    o = w.value(case['type'], case['value'])
    T = w.type(case['target'])
    dump_cls = w.type(case['dump_cls']) if case['dump_cls'] is not None else None
    dump_opts = options(case['dump_opts'])
    load_opts = options(case['load_opts'])
    if case['fork']:
        fork = jsons.fork()
        jsons.set_serializer(lambda obj, **kwargs: 'tag:%s' % obj, str, fork_inst=fork)
        jsons.set_deserializer(lambda obj, cls, **kwargs: 777, int, fork_inst=fork)
        (dump_opts if case['fork'] == 'dump' else load_opts)['fork_inst'] = fork
    before = snap(o)
    # The explicit composition
    dumped = attempt(jsons.dump, o, dump_cls, **dump_opts)
    ref = Mapper(case['mapper']) if case['mapper'] else None
    if isinstance(dumped, Raised):
        expected, stage = dumped, 'the dump fails'
    else:
        seen = copy.deepcopy(dumped)
        mapped = attempt(ref, dumped) if ref else dumped
        if isinstance(mapped, Raised):
            expected, stage = mapped, 'the mapper fails'
        else:
            expected = attempt(jsons.load, mapped, T, **load_opts)
            stage = 'the load fails' if isinstance(expected, Raised) else 'succeeds'
    ctx.label(stage, 'with mapper' if ref else 'without mapper')
    ctx.interesting(stage == 'succeeds')
    kw = dict(load_opts)
    m = Mapper(case['mapper']) if case['mapper'] else None
    if m:
        kw['mapper'] = m
    if dump_cls is not None or case['explicit']:
        kw['dump_cls'] = dump_cls
    if dump_opts or case['explicit']:
        kw['dump_kwargs'] = dict(dump_opts)
    given = dict(dump_opts)
    got = attempt(jsons.transform, o, T, **kw)
    what = 'transform(%s, %s, %s)' % (short(o), T, short(kw, 600))
    same_outcome(expected, got, what)
    if 'dump_kwargs' in kw:
        require(kw['dump_kwargs'] == given, '%s changed dump_kwargs to %s', what, kw['dump_kwargs'])
    require(snap(o) == before, '%s changed the object to %s', what, short(o))
    if m and not isinstance(dumped, Raised):
        require(len(m.seen) == 1, '%s called the mapper %d times', what, len(m.seen))
        same_outcome(seen, m.seen[0], '%s: what the mapper was given' % what)
    elif m:
        require(not m.seen, '%s called the mapper although the dump fails', what)


@st.composite
def s_transform(draw):
    g = G(draw, max_defs=3, max_depth=2, recursive=False, max_fields=4,
          fields=['a', 'b', 'c', 'x', 'name', 'my_value', 'someKey', 'id', '_p'])
    g.make_defs(g.i(1, 3))
    t = ['ref', len(g.defs) - 1] if g.i(0, 4) else g.type()
    # The target: the type itself, another one, or a class with similar attributes.
    k = g.i(0, 9)
    if k < 2:
        target = t
    elif k < 4:
        target = g.type()
    else:
        fields = []
        d = g.defs[t[1]] if t[0] == 'ref' else {}
        for f in d.get('f', ()):
            if g.i(0, 4):
                name = f[0].lstrip('_') if d.get('style') == 'attrs' and g.i(0, 3) else f[0]
                fields.append([name, f[1] if g.i(0, 4) else g.type(1)])
        if g.chance(4):
            free = [n for n in ('extra', 'y2', 'a', 'name') if n not in [f[0] for f in fields]]
            fields.append([free[0], g.pick([['opt', 'int'], 'str', 'any'])])
        if fields:
            style = g.pick(['data', 'init', 'late', 'both'])
            g._add({'k': 'cls', 'n': 'Target', 'style': style, 'f': fields, 'opts': {}}, False)
            target = ['ref', len(g.defs) - 1]
        else:
            target = t
    names = ['a', 'b', 'c', 'x', 'name', 'my_value', 'myValue', 'someKey', 'id', '_p', 'extra', 'y2', 'p']
    mapper = None
    if g.chance(2):
        mapper = {'what': g.pick(['ops'] * 7 + ['other', 'raise', 'ops']), 'err': g.pick(['key', 'value', 'jsons']),
                  'inplace': g.chance(2), 'json': draw(S_SMALL_JSON),
                  'ops': [[g.pick(['rename', 'drop', 'set', 'copy']), g.pick(names), g.pick(names)]
                          for _ in range(g.i(0, 3))]}
    dump_cls = None
    if g.chance(3):
        dump_cls = t
        if t[0] == 'ref' and g.defs[t[1]]['k'] == 'cls' and g.bases(t[1]) and g.chance(2):
            dump_cls = ['ref', g.pick(g.bases(t[1]))]
    load_opts = draw(S_LOAD_OPTS) if g.chance(3) else {}
    if g.chance(5):
        load_opts['key_transformer'] = g.pick(list(TRANSFORMERS))
    return {'defs': g.defs, 'type': t, 'value': g.value(t), 'target': target, 'mapper': mapper, 'dump_cls': dump_cls,
            'dump_opts': draw(S_DUMP_OPTS) if g.chance(3) else {}, 'load_opts': load_opts, 'explicit': g.chance(3),
            'fork': g.pick([None, None, None, 'dump', 'load'])}


PROP = Prop(
    'C18',
    'Generated objects and target types (the same, unrelated, or a class with similar attributes), mappers (renaming, '
    'dropping, setting, copying keys, in place or not; replacing everything; raising), dump_cls, dump_kwargs, load '
    'options, forks on either side. Non-trivial: the transformation succeeds.',
    [Facet('transform', s_transform, check_transform, 7000, 140000, 8)],
    [])
