"""C24: loading plugins from entry points (spec/Plugins.tla)."""
import abc
import os
import sys
import types

from harness import world
from harness.core import attempt, enc
from harness.props import forms

PL_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxEntries=%d DoEmit=%s
INVARIANTS InOrder UniqueNames OnlyGood OnlyDuplicatesMissing NoTrace Emit
'''


class Classes(object):
    """Plugin classes that behave as asked for."""

    def __init__(self):
        self.by_id = {}

    def add(self, cls):
        self.by_id[cls] = len(self.by_id) + 1
        return cls

    def members(self, e):
        """Class body for the behaviour of entry e."""
        oname, how = e['oname_'], e.get('how')
        body = {}
        if how != 'abstract':
            def name(self):
                if how == 'name':
                    raise KeyError('no name')
                return oname
            body['name'] = property(name)
        if how == 'init':
            def __init__(self):
                raise RuntimeError('cannot be created')
            body['__init__'] = __init__
        if how == 'args':
            def __init__(self, argument):
                pass
            body['__init__'] = __init__
        if how in ('verify', 'verify-other', 'verify-super'):
            from xylem.plugin_utils import InvalidPluginError

            def verify_plugin(cls, obj):
                if how == 'verify':
                    raise InvalidPluginError('not good')
                if how == 'verify-other':
                    raise ZeroDivisionError('broken')
                for c in cls.__mro__[1:]:
                    if 'verify_plugin' in vars(c):
                        return vars(c)['verify_plugin'].__func__(cls, obj)
            body['verify_plugin'] = classmethod(verify_plugin)
        return body


EP_NAMES = ['p', 'q', 'apt', 'pip', 'fake', 'debian', 'rules', 'own', 'x',
            'P', 'APT', 'p.', 'x-p']
NOT_MADE = ['abstract', 'name', 'init', 'args']
NOT_OK = ['verify', 'verify-other']


def bases(kind):
    """The base class, something concrete of it, and a wrong class."""
    from xylem.plugin_utils import PluginBase
    from xylem.installers import Installer, InstallerBase
    from xylem.specs import Spec
    from xylem.os_support import OS, OSBase

    class Plain(PluginBase):
        pass
    base = {'installer': Installer, 'spec': Spec, 'os': OS,
            'kind': Plain}[kind]
    wrong = {'installer': OSBase, 'spec': InstallerBase,
             'os': InstallerBase, 'kind': OSBase}[kind]
    concrete = type(str('Concrete'), (base,), {
        n: None for n in base.__abstractmethods__ if n != 'name'})
    return base, concrete, wrong


def random_entry(rng, names):
    e = dict(loads=rng.random() > .12, made=True, vok=True)
    e['oname_'] = rng.choice(names) if rng.random() < .85 else rng.choice(
        [rng.choice(forms.BAD), rng.choice(forms.GOOD), 'any_version',
         'any_os', 'default_installer', None, 5, b'apt', ['a'], True, ''])
    x = rng.random()
    if x < .08:
        e['made'], e['how'] = False, rng.choice(NOT_MADE)
    elif x < .15:
        e['vok'], e['how'] = False, rng.choice(NOT_OK)
    elif x < .25:
        e['how'] = 'verify-super'
    e['pname_'] = rng.choice(names) if rng.random() < .9 else rng.choice(
        [None, b'bytes', 3, ['a'], '', 'with space'])
    e['descr_'] = 'text' if rng.random() < .93 else rng.choice(
        [None, 3, b'x', ['t'], ''])
    e['class_'] = 'right' if rng.random() < .9 else rng.choice(
        ['wrong', 'wrong', 'object', 'object', None, 'name', 'instance',
         'base'])
    if e['class_'] == 'base':
        e['made'] = False
    e['form_'] = 'dict' if rng.random() < .9 else rng.choice(
        ['no name', 'no description', 'no class', 'other class', 'list',
         'none', 'class', 'empty', 'text'])
    e['extra_'] = rng.random() < .1
    e['failure_'] = rng.choice(['module', 'attribute', 'raises', 'syntax',
                                'nested'])
    return e


def from_model(e, rng):
    d = e['def'][1] if len(e['def']) > 1 else {}
    r = dict(loads=e['loads'], made=e['made'], vok=e['vok'],
             oname_=e['oname'][1], form_='dict', extra_=False, descr_='d',
             class_='right', pname_='p',
             failure_=rng.choice(['module', 'attribute', 'raises']))
    if d:
        r['pname_'] = d['plugin_name'][1] if len(d['plugin_name']) > 1 else None
        r['class_'] = d['kind'][1]
    if not r['made']:
        r['how'] = rng.choice(NOT_MADE)
    elif not r['vok']:
        r['how'] = rng.choice(NOT_OK)
    return r


class Case(object):

    def __init__(self, n, kind, entries, disabled, classes, rng):
        self.n, self.kind, self.disabled = n, kind, disabled
        self.group = 'xv.group%d' % n
        self.base, concrete, wrong = bases(kind)
        if kind == 'kind' and rng.random() < .5:
            # a base class that is a plugin itself
            self.base.name = property(lambda self: 'solid')
            abc.update_abstractmethods(self.base)
            classes.add(self.base)
            for e in entries:
                if e['class_'] == 'right' and rng.random() < .08:
                    e['class_'] = 'base'
                if e['class_'] == 'base':
                    e.update(made=True, vok=True, how=None, oname_='solid')
        self.entries, self.lines, self.attrs = entries, [], {}
        self.eps, last = {}, None
        for i, e in enumerate(entries):
            cls = concrete
            if e['class_'] == 'right':
                body = classes.members(e)
                if e.get('how') == 'abstract' and \
                        not self.base.__abstractmethods__:
                    body['more'] = abc.abstractmethod(lambda self: None)
                parent = self.base if e.get('how') == 'abstract' else concrete
                cls = classes.add(type(str('P%d_%d' % (n, i)), (parent,),
                                       body))
                if last is not None and rng.random() < .1 and \
                        e.get('how') == last[1].get('how'):
                    cls = last[0]   # two definitions of one class
                    e['oname_'] = last[1]['oname_']
                last = (cls, e)
            else:
                # complete plugins of another kind, or of none
                body = classes.members(dict(e, how=None))
                other = type(str('W%d_%d' % (n, i)), (wrong,), dict(
                    {a: None for a in wrong.__abstractmethods__}, **body))
                duck = type(str('D%d_%d' % (n, i)), (object,), dict(
                    body, verify_plugin=classmethod(lambda cls, obj: None)))
                cls = {'wrong': rng.choice([wrong, other, other]),
                       'object': rng.choice([object, duck]), None: None,
                       'name': 'P', 'instance': object(),
                       'base': self.base}[e['class_']]
            e['cls'] = classes.by_id.get(cls, 0) if isinstance(cls, type) \
                else 0
            d = dict(plugin_name=e['pname_'], description=e['descr_'])
            d[kind] = cls
            enc_d = {k: enc(v) for k, v in d.items()}
            enc_d[kind] = ['c', 'right' if isinstance(cls, type) and
                           issubclass(cls, self.base) else 'wrong'] \
                if isinstance(cls, type) else enc(None)
            if e['extra_']:
                d['more'] = enc_d['more'] = 'x'
                enc_d['more'] = enc('x')
            form = e['form_']
            for what, key in (('no name', 'plugin_name'),
                              ('no description', 'description'),
                              ('no class', kind), ('other class', kind)):
                if form == what:
                    x, y = d.pop(key), enc_d.pop(key)
                    if form == 'other class':
                        d['other'], enc_d['other'] = x, y
            value, coded = d, ['d', enc_d]
            if form in ('list', 'none', 'class', 'empty', 'text'):
                value = {'list': [d], 'none': None, 'class': cls,
                         'empty': {}, 'text': 'definition'}[form]
                coded = ['d', {}] if form == 'empty' else ['n']
            e['value'], e['def'] = value, coded
            attr = 'd%d_%d' % (n, i)
            self.attrs[attr] = value
            target = 'xv_plugins:' + attr
            if not e['loads']:
                target = {'module': 'xv_missing_module:definition',
                          'attribute': 'xv_plugins:missing_' + attr,
                          'raises': 'xv_raises:definition',
                          'syntax': 'xv_syntax:definition',
                          'nested': 'xv_nested:definition'}[e['failure_']]
            # the name of an entry point means nothing
            # (two distributions may have entry points of one name)
            ep = rng.choice(EP_NAMES + [n for _, n in self.eps]) \
                if rng.random() < .4 else 'e%02d' % i
            dist = 'xv%d' % self.part(i)
            if (dist, ep) in self.eps:
                ep = 'e%02d' % i
            self.eps[dist, ep] = i
            self.lines.append('%s = %s' % (ep, target))

    def part(self, i):
        """Half of the groups are spread over two distributions."""
        return i % 2 if self.n % 2 else 0

    def record(self, order, got):
        kind, v = got
        entries = [self.entries[i] for i in order]
        for e in entries:
            if e['form_'] == 'class':
                e['def'] = ['n']
        rec = dict(
            kind=self.kind, disabled=list(self.disabled), base=True,
            entries=[dict(loads=e['loads'], made=e['made'], vok=e['vok'],
                          oname=enc(e['oname_']), cls=e['cls'],
                          **{'def': e['def']}) for e in entries],
            error='', got=[], names=[], distinct=True)
        if kind != 'ok' or not isinstance(v, list):
            rec['error'] = repr((kind, v))
        else:
            ids = self.classes.by_id
            rec['got'] = [ids.get(type(o), 0) for o in v]
            rec['names'] = [enc(getattr(o, 'name', None)) for o in v]
            rec['distinct'] = len(set(map(id, v))) == len(v)
        return rec


def c24(ctx):
    from harness.props.plugins import captured
    if ctx.thorough:
        ctx.model_check('PluginsMC', PL_CFG % (4, 'FALSE'), workers=8)
    r = ctx.model_check('PluginsMC', PL_CFG % (3, 'TRUE'))
    rng = ctx.rng
    cases = r.emitted
    k = ctx.pick(500, 100000)
    if len(cases) > k:
        cases = rng.sample(cases, k)
    ctx.count('cases enumerated', len(r.emitted))
    ctx.count('cases replayed', len(cases))
    classes = Classes()
    todo = []
    for c in cases:
        todo.append(Case(len(todo), 'kind', [
            from_model(e, rng) for e in c['entries']], c['disabled'],
            classes, rng))
    for _ in range(ctx.pick(300, 4000)):
        names = rng.sample(['apt', 'pip', 'p', 'q', 'fake', 'lib-x', 'é',
                            'x.y', 'debian', 'rules'], rng.choice([1, 3, 6]))
        if rng.random() < .4:   # names that differ
            names += [rng.choice([n.upper(), n + '.', n.capitalize(),
                                  n + '_', n[:1]])
                      for n in names if n.isascii()]
        entries = [random_entry(rng, names)
                   for _ in range(rng.choice([1, 2, 4, 8]))]
        disabled = [n for n in names if rng.random() < .3] + (
            ['unknown'] if rng.random() < .2 else [])
        todo.append(Case(len(todo), rng.choice(
            ['kind', 'installer', 'os', 'spec']), entries, disabled, classes,
            rng))
        ctx.count('random cases')
    # one group of each real kind, next to the plugins of xylem
    real = {'installer': 'xylem.installers', 'os': 'xylem.os',
            'spec': 'xylem.specs'}
    mixed = []
    for kind in real:
        names = ['apt', 'pip', 'debian', 'ubuntu', 'rules', 'own', 'x']
        c = Case(len(todo) + len(mixed), kind, [
            random_entry(rng, names) for _ in range(8)], [], classes, rng)
        mixed.append(c)
    d = ctx.tmp()
    mod = types.ModuleType('xv_plugins')
    sys.modules['xv_plugins'] = mod
    for name, text in (('xv_raises', 'raise RuntimeError("no")\n'),
                       ('xv_syntax', 'def (:\n'),
                       ('xv_nested', 'import xv_not_there\n')):
        with open(os.path.join(d, name + '.py'), 'w') as f:
            f.write(text)
    for c in todo + mixed:
        c.classes = classes
        for attr, value in c.attrs.items():
            setattr(mod, attr, value)
    for part in (0, 1):
        info = os.path.join(d, 'xv%d-1.0.dist-info' % part)
        os.mkdir(info)
        with open(os.path.join(info, 'METADATA'), 'w') as f:
            f.write('Metadata-Version: 2.1\nName: xv%d\nVersion: 1.0\n' % part)
        with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
            for c in todo + mixed:
                lines = [x for i, x in enumerate(c.lines)
                         if c.part(i) == part]
                if lines:
                    f.write('[%s]\n%s\n\n' % (
                        real[c.kind] if c in mixed else c.group,
                        '\n'.join(lines)))
    sys.path.insert(0, d)
    import pkg_resources
    pkg_resources.working_set.add_entry(d)
    from xylem.plugin_utils import load_plugins
    records = []
    with captured():
        for c in todo:
            order = [c.eps[e.dist.project_name, e.name] for e in
                     pkg_resources.iter_entry_points(group=c.group)]
            if sorted(order) != list(range(len(c.entries))):
                raise Exception('entry points not found: %r' % order)
            runs = [c.disabled]
            if rng.random() < .3:
                # the calls do not influence each other
                runs = [c.disabled, [], c.disabled]
            for disabled in runs:
                c.disabled = disabled
                args = (c.kind, c.base, c.group)
                if disabled or rng.random() < .5:
                    given = rng.choice([list, set, tuple])(disabled)
                    got = attempt(load_plugins, *args, disabled=given) \
                        if rng.random() < .5 else \
                        attempt(load_plugins, *(args + (given,)))
                else:
                    got = attempt(load_plugins, *args)
                records.append(c.record(order, got))
        for c in mixed:
            records += real_plugins(ctx, c, real[c.kind], rng)
    ctx.sample(records[-4])
    ctx.sample(records[len(cases)])
    ctx.judge('PluginsJudge', records)
    ctx.assumptions += [
        'the order in which entry points are discovered is that of '
        'pkg_resources', 'duplicate entry point names within one group of '
        'one distribution are not generated']


def real_plugins(ctx, c, group, rng):
    """Load with the plugins that xylem brings along."""
    import pkg_resources
    from xylem.installers.impl import load_installer_plugins
    from xylem.os_support.impl import load_os_plugins
    from xylem.specs.impl import load_spec_plugins
    load = {'installer': load_installer_plugins, 'os': load_os_plugins,
            'spec': load_spec_plugins}[c.kind]
    entries, by_id = list(c.entries), c.classes.by_id
    order, shipped = [], []
    for ep in pkg_resources.iter_entry_points(group=group):
        if ep.dist.project_name.startswith('xv'):
            order.append(c.eps[ep.dist.project_name, ep.name])
            continue
        d = ep.load()
        cls = d[c.kind]
        if cls not in by_id:
            c.classes.add(cls)
        order.append(len(entries))
        shipped.append(d['plugin_name'])
        entries.append(dict(
            loads=True, made=True, vok=True, cls=by_id[cls], form_='dict',
            oname_=cls().name, **{'def': ['d', {
                'plugin_name': enc(d['plugin_name']),
                'description': enc(d['description']),
                c.kind: ['c', 'right']}]}))
    c.entries = entries
    res = []
    for _ in range(ctx.pick(12, 60)):
        c.disabled = [n for n in shipped + ['own', 'x'] if rng.random() < .3]
        res.append(c.record(order, attempt(load, list(c.disabled))))
        ctx.count('loads with shipped plugins')
    return res
