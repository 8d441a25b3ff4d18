"""C09: strip options."""
from hypothesis import strategies as st

import jsons
from jv.core import Facet, Prop, require, short
from jv.objs import ATTRS, NIL, Gen, Graph
from jv.world import jsame

FLAGS = ['strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables']


def opts_of(case):
    opts = {f: True for f in case['flags']}
    opts.update({f: False for f in case['off']})
    if case['strip'] is not None:
        form, names = case['strip']
        opts['strip_attr'] = {'str': lambda: names[0], 'list': lambda: list(names), 'tuple': lambda: tuple(names)}[form]()
    return opts


def check_strip(case, ctx):
    g = Graph(case['classes'])
    opts = opts_of(case)
    plain = g.model(case['node'])
    want = g.model(case['node'], opts)
    for f in case['flags']:
        ctx.label(f)
    if case['strip']:
        ctx.label('strip_attr:' + case['strip'][0])
    ctx.interesting(repr(plain) != repr(want))
    v = g.value(case['node'])
    jsame(plain, jsons.dump(v, fork_inst=NIL), 'plain dump', case['classes'])
    jsame(want, jsons.dump(v, fork_inst=NIL, **opts), 'dump with %s' % opts, case['classes'], case['node'])
    if case['each']:
        # And each element of the graph by itself: options of one call do not
        # influence another.
        for f in FLAGS:
            jsame(g.model(case['node'], {f: True}), jsons.dump(v, fork_inst=NIL, **{f: True}), 'dump with %s' % f,
                  case['classes'], case['node'])


@st.composite
def s_strip(draw):
    g = Gen(draw, nil=True)
    node = g.obj(len(g.classes) - 1) if not g.chance(4) else g.node()
    names = draw(st.lists(st.sampled_from(ATTRS + ['nope']), min_size=1, max_size=3))
    flags = draw(st.lists(st.sampled_from(FLAGS), unique=True, max_size=4))
    return {'classes': g.classes, 'node': node, 'flags': flags,
            'off': [f for f in FLAGS if f not in flags and g.chance(4)],
            'strip': [g.pick(['str', 'list', 'tuple']), names] if g.chance(2) else None,
            'each': g.chance(4)}


PROP = Prop(
    'C09',
    'Generated graphs of 1-3 classes (six styles, inheritance, private names, properties, class variables, methods, '
    'overridden members, values that are not None but dumped as null) inside lists, tuples, deques, dicts and dicts with hashed keys, dumped with every combination of '
    'strip options and compared with a reference. Non-trivial: the options change the dump.',
    [Facet('strip', s_strip, check_strip, 9000, 200000, 7)],
    ['An instance attribute that shadows a class variable of a plain class, and nulls in NamedTuples, are outside the '
     'domain.'])
