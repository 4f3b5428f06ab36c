"""C22, C23: the operating systems (spec/OsSupport.tla, spec/OsNames.tla)."""
import contextlib
import io

from harness import world
from harness.core import attempt

OS_CFG = '''INIT Init
NEXT Next
CONSTANTS All=%s Depth=%d DoEmit=%s
INVARIANTS SomethingToDetect KnownVersion Emit
PROPERTIES NoParentDetected StaysWhatItIs
CHECK_DEADLOCK FALSE
'''

NAMES_CFG = '''INIT Init
NEXT Next
CONSTANT DoEmit=TRUE
INVARIANTS ItselfFirst UnknownStays Total Irreflexive Transitive Emit
'''


def types_of(kind, v):
    return [] if kind == 'ok' else [c.__name__ for c in type(v).__mro__]


def opt(v):
    return [] if v is None else [v]


def undetected():
    from xylem import os_support
    return [os_support.UnsupportedOSError,
            os_support.UnsupportedOSVersionError]


class Machine(object):
    """OS plugins on a machine that can be changed at will, recording."""

    def __init__(self, rng, plugins):
        from xylem.os_support import OSSupport
        self.rng = rng
        self.plugins = plugins
        self.match = set()
        self.found = {p['name']: None for p in plugins}
        self.own = {}
        oses = []
        for p in plugins:
            n = p['name']
            oses.append(world.make_os(
                n, p['versions'], names=p['names'],
                default=rng.choice([None, 'apt', 'pip']),
                core=lambda v, o, c=rng.sample(
                    ['apt', 'pip', 'gem'], rng.randint(0, 3)): c + [
                        '%s-%s' % (v, x) for x in sorted(
                            dict(o or {}).get('features') or [])],
                detects=lambda n=n: n in self.match,
                version=lambda n=n: self.found[n],
                undetected=rng.choice(undetected())))
            self.own[n] = oses[-1]
        self.support = OSSupport()
        self.support.os_plugins = oses
        self.header = dict(plugins=plugins, found=self.found_pairs())
        self.events = []

    def found_pairs(self):
        return [[n, opt(v)] for n, v in sorted(self.found.items())]

    def machine(self, match, found):
        self.match = set(match)
        self.found.update(found)
        self.events.append(dict(op='machine', matches=sorted(self.match),
                                found=self.found_pairs()))

    def detect(self):
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            kind, v = attempt(self.support.detect_os)
        self.events.append(dict(op='detect', types=types_of(kind, v),
                                warned=bool(err.getvalue().strip())))

    def override(self, name, version):
        kind, v = attempt(self.support.override_os,
                          self.rng.choice([tuple, list])((name, version)))
        self.events.append(dict(op='override', of=name, to=opt(version),
                                types=types_of(kind, v)))

    def nothing(self):
        kind, v = attempt(self.support.override_os, None)
        self.events.append(dict(op='nothing', types=types_of(kind, v)))

    def ask(self):
        kind, os = attempt(lambda: self.support.current_os)
        ev = dict(op='ask', types=types_of(kind, os), name='', names=[],
                  tuple=[], version=[], matches=False, versions=[],
                  others=False)
        if kind == 'ok':
            kind, res = attempt(self.observe, os)
            if kind == 'ok':
                ev.update(res)
            else:
                ev['types'] = types_of(kind, res)
        self.events.append(ev)

    def observe(self, os):
        own = self.own.get(os.name)
        vk, version = attempt(os.get_version)
        tk, tup = attempt(os.get_tuple)

        def pairs(x, v):
            return (x.get_all_tuples(v), x.get_core_installers(v, x.options),
                    x.get_core_installers(v, other))
        vs = list(own.known_versions)
        # (asking may be with other options than the ones that are set)
        other = {'features': ['g%d' % self.rng.randint(0, 99)]}
        less, own_less = os.version_less_fn, own.version_less_fn
        others = os.default_installer == own.default_installer and all(
            pairs(os, v) == pairs(own, v) for v in vs + [None, 'x']) and all(
                less(a, b) == own_less(a, b) for a in vs for b in vs) and \
            dict(os.options) == dict(own.options)
        # options are those of the plugin as well
        feature = 'f%d' % self.rng.randint(0, 99)
        os.options = {'features': [feature]}
        others = others and list(own.options.features) == [feature]
        return dict(
            name=os.name, names=list(os.all_names),
            tuple=[] if tk != 'ok' else list(tup),
            version=[] if vk != 'ok' else [version],
            matches=bool(os.is_os()), versions=list(os.known_versions),
            others=bool(others))

    def trace(self):
        return dict(self.header, events=self.events)


def random_forest(rng, n):
    names = rng.sample(['linux', 'debian', 'ubuntu', 'mint', 'xubuntu', 'osx',
                        'arch', 'u', 'été', 'deb'], n)
    parent = {}
    for k, nm in enumerate(names):
        parent[nm] = rng.choice([None] + names[:k] + ['elsewhere'][:k % 2])
    plugins = []
    for nm in rng.sample(names, n):
        chain, x = [], nm
        while x:
            chain.append(x)
            x = parent.get(x)
        vs = ['v%d' % k for k in range(rng.randint(0, 4))]
        plugins.append(dict(name=nm, names=chain, versions=vs))
    return plugins


def random_history(m, rng, n):
    names = [p['name'] for p in m.plugins]
    for _ in range(n):
        op = rng.choice(['machine', 'machine', 'detect', 'detect', 'override',
                         'override', 'nothing', 'ask', 'ask'])
        if op == 'machine':
            k = rng.choice([0, 1, 2, len(names)])
            m.machine(rng.sample(names, min(k, len(names))),
                      {x: rng.choice([None, 'v0', 'v1', 'v9'])
                       for x in names})
        elif op == 'override':
            x = rng.choice(names + ['unheard', 'elsewhere', ''])
            vs = [v for p in m.plugins if p['name'] == x
                  for v in p['versions']]
            m.override(x, rng.choice([None, 'v9', ''] + vs * 2))
        else:
            getattr(m, op)()
        if rng.random() < .5:
            m.ask()


def c22(ctx):
    rng = ctx.rng
    all3, all4 = '{"a","b","c"}', '{"a","b","c","d"}'
    if ctx.thorough:
        ctx.model_check('OsSupportMC', OS_CFG % (all3, 4, 'FALSE'), workers=8)
    else:
        ctx.model_check('OsSupportMC', OS_CFG % (all3, 2, 'FALSE'), workers=4)
    r = ctx.model_check('OsSupportMC',
                        OS_CFG % (ctx.pick(all3, all4), 0, 'TRUE'))
    starts = r.emitted
    ctx.count('forests, orders and matches', len(starts))
    k = ctx.pick(768, 10000)
    if len(starts) > k:
        starts = rng.sample(starts, k)
    traces = []
    with world.quiet():
        for s in starts:
            m = Machine(rng, s['plugins'])
            names = [p['name'] for p in s['plugins']]
            if rng.random() < .3:
                m.ask()
            m.machine(s['matches'], {x: '2' if x in s['matches'] else None
                                     for x in names})
            for _ in range(4):
                op = rng.randint(0, 4)
                if op == 0:
                    m.detect()
                elif op == 1:
                    m.ask()
                elif op == 2:
                    m.override(rng.choice(names + ['z']),
                               rng.choice(['1', '2', '3', None]))
                elif op == 3:
                    m.nothing()
                else:
                    m.detect()
                    m.ask()
                    m.machine(rng.sample(names, 1), {})
            m.ask()
            m.detect()
            m.ask()
            traces.append(m.trace())
        for _ in range(ctx.pick(300, 4000)):
            m = Machine(rng, random_forest(rng, rng.choice([1, 2, 4, 8])))
            random_history(m, rng, rng.choice([4, 10, 20]))
            traces.append(m.trace())
            ctx.count('random histories')
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.validate('OsSupportTrace', traces)


MAP_POOL = ['1', '2', '3', 'a', 'b', 'é', '']


class Function(object):
    """A version map that need not cope with an unknown version."""

    def __init__(self, pairs):
        self.pairs = pairs

    def __call__(self, version):
        if version is None:
            raise TypeError('no version to map')
        return self.pairs.get(version)


def derived(rng, base):
    """A class derived from a plugin of xylem with more names, and its maps."""
    extra = []
    for k in range(rng.randint(1, 3)):
        kind = rng.choice(['none', 'same', 'map', 'fn'])
        vs = MAP_POOL + ['lucid', 'trusty', 'wheezy', 'jessie', 'lion']
        pairs = {v: rng.choice([None] + vs)
                 for v in rng.sample(vs, rng.randint(0, 6))}
        if kind == 'none':
            extra.append((None, ['none']))
        elif kind == 'same':
            extra.append((lambda v: v + '', ['same']))
        else:
            m = ['map', [[v, opt(w)] for v, w in sorted(pairs.items())]]
            extra.append((pairs if kind == 'map' else Function(pairs), m))
    names = ['extra%d' % k for k in range(len(extra))]

    class Derived(base):
        def __init__(self):
            super(Derived, self).__init__()
            for n, (m, _) in zip(names, extra):
                self._prepend_name(n, m)
    return Derived(), names[::-1], [m for _, m in extra][::-1]


def imitated(rng, p):
    """The plugin itself, or an override that imitates it."""
    from xylem.os_support import OSSupport
    if rng.random() < 0.6 or not p.known_versions:
        return p
    sup = OSSupport()
    sup.os_plugins = [p]
    kind, _ = attempt(sup.override_os,
                      (p.name, rng.choice(list(p.known_versions))))
    kind, q = attempt(lambda: sup.current_os)
    return q if kind == 'ok' else p


def tuples_record(rng, p, names, maps, v, shipped):
    p = imitated(rng, p)
    kind, got = attempt(p.get_all_tuples, v)
    got = [[n, opt(w)] for n, w in got] if kind == 'ok' else [['!', []]]
    return dict(op='tuples', os=p.name, names=list(names), maps=maps,
                v=opt(v), shipped=shipped, tuples=got)


def less_records(rng, p, vs, limit):
    pairs = [(a, b) for a in vs for b in vs]
    unknown = ['', 'zzz', (vs or ['q'])[0].upper() + 'x', None, 7]
    pairs = rng.sample(pairs, min(limit, len(pairs)))
    pairs += [(a, b) for a in unknown for b in (vs[:1] + vs[-1:] + unknown)]
    pairs += [(b, a) for a in unknown for b in vs[:1] + vs[-1:]]
    less = imitated(rng, p).version_less_fn
    return less_pairs(less, vs, pairs)


def live_orders(rng):
    """Orders stay what they are when the list they came from changes."""
    from xylem.os_support import os_base
    make = getattr(os_base, 'version_order_from_list', None)
    if make is None:
        return []
    vs = rng.sample('abcdefgh', rng.randint(0, 6))
    changed = list(vs)
    less = make(changed)
    rng.choice([changed.reverse, changed.clear, changed.sort,
                lambda: changed.append('z'), lambda: changed.insert(0, 'z'),
                lambda: rng.shuffle(changed)])()
    pairs = [(a, b) for a in vs + ['z', ''] for b in vs + ['z']]
    return less_pairs(less, vs, pairs)


def less_pairs(less, vs, pairs):
    from xylem.os_support import UnsupportedOSVersionError
    res = []
    for a, b in pairs:
        kind, got = attempt(less, a, b)
        if kind == 'ok':
            got = {True: 'yes', False: 'no'}.get(got, 'other %r' % (got,))
        elif isinstance(got, UnsupportedOSVersionError):
            got = 'unknown'
        else:
            got = 'error %s' % type(got).__name__
        res.append(dict(op='less', list=list(vs), a='%s' % a, b='%s' % b,
                        got=got))
    return res


def c23(ctx):
    from xylem.os_support import OSSupport
    rng = ctx.rng
    r = ctx.model_check('OsNamesMC', NAMES_CFG)
    ctx.count('cases enumerated', len(r.emitted))
    records = []
    sup = OSSupport()
    again = OSSupport()
    shipped = ['debian', 'ubuntu', 'xubuntu', 'osx']
    for p in list(sup.os_plugins) + list(again.os_plugins):
        vs = list(p.known_versions)
        if p.name in shipped:
            records.append(dict(op='history', os=p.name, list=vs))
            for v in vs + [None, 'nonexistent', '', 'trusty', 'wheezy']:
                records.append(tuples_record(
                    rng, p, p.all_names, [], v, True))
                # not spoiled by former answers
                records.append(tuples_record(
                    rng, p, p.all_names, [], v, True))
        records += less_records(rng, p, vs, 400)
    for n in shipped:
        if n not in sup.os_plugin_names:
            ctx.violation('the OS plugin %s is missing' % n)
    with world.quiet():
        # enumerated version maps and version lists
        for e in r.emitted if ctx.thorough else \
                rng.sample(r.emitted, min(len(r.emitted), 200)):
            records += enumerated(rng, sup, e)
        bases = [type(p) for p in sup.os_plugins if p.name in shipped and
                 hasattr(p, '_prepend_name')]
        ctx.count('plugin classes derived from', len(bases))
        for _ in range(ctx.pick(200, 3000)):
            if not bases:
                break
            base = rng.choice(bases)
            plain = base()
            p, names, maps = derived(rng, base)
            below = {'ubuntu': [['none']],
                     'xubuntu': [['same'], ['none']]}.get(plain.name, [])
            for v in rng.sample(MAP_POOL + list(plain.known_versions), 5) + \
                    [None]:
                records.append(tuples_record(
                    rng, p, names + list(plain.all_names), maps + below, v, False))
            if list(plain.all_names) != list(base().all_names):
                ctx.violation('names change', os=plain.name)
            ctx.count('derived plugins')
        for _ in range(ctx.pick(60, 1000)):
            vs = rng.sample(['%s%d' % (c, k) for c in 'abzéAB1' for k in
                             range(30)], rng.choice([0, 1, 2, 5, 20, 100]))
            records += less_records(rng, world.make_os('x', vs), vs, 40)
            records += live_orders(rng)
            ctx.count('version lists')
        for _ in range(ctx.pick(60, 1000)):
            names = rng.sample(['a', 'b', 'c', 'd', 'é'], rng.randint(0, 5))
            oses = [world.make_os(n, [], default=rng.choice(
                [None, 'apt', 'pip', ''])) for n in names]
            records.append(default_record(oses))
        records.append(default_record(None))
    ctx.sample(records[0])
    ctx.sample(records[-1])
    ctx.judge('OsNamesJudge', records)
    ctx.assumptions += ['versions of an OS are strings, listed once']


def default_record(oses):
    from xylem.os_support import OSSupport
    sup = OSSupport()
    if oses is not None:
        sup.os_plugins = oses
    kind, got = attempt(sup.get_default_installer_names)
    got = [[k, opt(v)] for k, v in sorted(got.items())] if kind == 'ok' \
        else [['!', []]]
    return dict(op='default', got=got, exp=[
        [p.name, opt(p.default_installer)] for p in sup.os_plugins])


def enumerated(rng, sup, e):
    p = next((p for p in sup.os_plugins if p.name == 'debian' and
              hasattr(p, '_prepend_name')), None)
    res = less_records(rng, world.make_os('x', e['list']), e['list'], 9)
    if p is None:
        return res
    fns = []
    for m in e['maps']:
        fns.append(None if m[0] == 'none' else (lambda v: v)
                   if m[0] == 'same' else
                   {k: (w[0] if w else None) for k, w in m[1]})

    class Derived(type(p)):
        def __init__(self):
            super(Derived, self).__init__()
            self._prepend_name('b', fns[1])
            self._prepend_name('a', fns[0])
    v = e['v'][0] if e['v'] else None
    res.append(tuples_record(rng, Derived(), ['a', 'b', 'debian'], e['maps'], v,
                             False))
    return res
