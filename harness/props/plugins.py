"""C26, C28, C30: behaviour common to plugin objects (spec/Prereq.tla,
RuleItems.tla, Options.tla)."""
import contextlib
import copy
import io
import os
import re

from harness import world
from harness.core import attempt, exc_obs
from harness.props import config as K


@contextlib.contextmanager
def captured():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


# -- C26 ---------------------------------------------------------------------------

PRE_CFG = '''SPECIFICATION Spec
CONSTANT DoEmit=TRUE
INVARIANTS OnlyOnRequest AtMostOnce PassMeansPresent FailMeansMissing
INVARIANTS Attempted NotNeeded ToldOutdated Emit
PROPERTY Ends
'''
ARG = {'no': False, 'fix': True, 'simulate': 'simulate'}


class Manager(object):
    """A package manager that answers as the specification's sys says."""

    def __init__(self, ctx, sys, name, program=False):
        from xylem.installers import PackageManagerInstaller
        self.events = events = []
        self.sys = sys = dict(sys)
        # a program that is really there or not
        path = os.path.join(ctx.tmp(), name) if program else \
            '/nonexistent/' + name

        def put():
            if program and sys['present'] == 'yes':
                with open(path, 'w') as f:
                    f.write('#!/bin/sh\nexit 3\n')
                os.chmod(path, 0o755)
            elif program and os.path.exists(path):
                os.unlink(path)
        put()

        def change(**kw):
            """The machine is changed by somebody else."""
            sys.update(kw)
            put()
            del events[:]
        self.change = change

        class Pm(PackageManagerInstaller):
            def __init__(self):
                super(Pm, self).__init__(path)

            @property
            def name(self):
                return name

            def filter_uninstalled(self, resolved):
                return list(resolved)

            def get_install_commands_no_root(self, resolved,
                                             interactive=True,
                                             reinstall=False):
                return [['true']]

            def is_package_manager_installed(self):
                if program:
                    r = super(Pm, self).is_package_manager_installed()
                    r = 'yes' if r else 'no'
                    if r != sys['present']:
                        r = 'wrongly ' + r
                else:
                    r = sys['present']
                events.append(dict(op='present?', r=r))
                return r.endswith('yes')

            if sys['install'] != 'unsupported':
                def install_package_manager(self, os_tuple, interactive=True):
                    events.append(dict(op='install', r='done',
                                       inter=interactive))
                    if sys['install'] == 'works':
                        sys['present'] = 'yes'
                        put()
            else:
                def install_package_manager(self, os_tuple, interactive=True):
                    events.append(dict(op='install', r='unsupported',
                                       inter=interactive))
                    super(Pm, self).install_package_manager(os_tuple,
                                                            interactive)

            def is_package_manager_updated(self):
                events.append(dict(op='updated?', r=sys['upd']))
                if sys['upd'] == 'unsupported':
                    super(Pm, self).is_package_manager_updated()
                return sys['upd'] == 'yes'

            def update_package_manager(self, interactive=True):
                events.append(dict(
                    op='update', inter=interactive, r='unsupported'
                    if sys['update'] == 'unsupported' else 'done'))
                if sys['update'] == 'unsupported':
                    super(Pm, self).update_package_manager(interactive)
                if sys['update'] == 'works':
                    sys['upd'] = 'yes'
        self.obj = Pm()


class Told(object):
    """What the user is told meanwhile."""

    def __enter__(self):
        self.stack = contextlib.ExitStack()
        self.out, self.err = io.StringIO(), io.StringIO()
        self.stack.enter_context(contextlib.redirect_stdout(self.out))
        self.stack.enter_context(contextlib.redirect_stderr(self.err))
        return self

    def __exit__(self, *a):
        self.stack.close()

    def facts(self, mode):
        out, err = self.out.getvalue(), self.err.getvalue()
        every = out + err
        sim = mode == 'simulate'
        return dict(
            outdated=not sim and bool(OUTDATED.search(err)),
            install=sim and 'install' in every,
            update=sim and 'updat' in every)


OUTDATED = re.compile('updat|upgrad|date|old', re.I)


def ending(kind, v, told=None):
    from xylem.installers import InstallerPrerequisiteError
    if kind == 'ok':
        return dict(op='pass', told=told)
    if kind == 'exc' and isinstance(v, InstallerPrerequisiteError):
        return dict(op='fail')
    return dict(op='crash', what=repr(exc_obs(v) if kind == 'exc' else kind))


def c26(ctx):
    rng = ctx.rng
    r = ctx.model_check('PrereqMC', PRE_CFG, workers=4)
    traces = []
    for c in sorted(r.emitted, key=repr):
        for program in (False, True):
            if program and not ctx.thorough and rng.random() < 0.5:
                continue
            m = Manager(ctx, c['sys'], 'pm', program)
            traces.append(check(rng, m, c['mode'], c['inter']))
            # ask again, perhaps after something has changed
            while rng.random() < 0.5:
                m.change(**rng.choice([
                    {}, dict(present=rng.choice(['yes', 'no'])),
                    dict(upd=rng.choice(['yes', 'no', c['sys']['upd']]))]))
                traces.append(check(rng, m, rng.choice(sorted(ARG)),
                                    rng.random() < 0.5))
                ctx.count('checks asked for again')
    ctx.count('package managers', len(traces))
    for t in traces[::len(traces) // 3]:
        ctx.sample(t)
    # the same through an installation with one or two package managers
    n = 0
    for _ in range(ctx.pick(250, 3000)):
        cs = [rng.choice(r.emitted) for _ in range(rng.choice([1, 1, 2]))]
        for t in installation(ctx, rng, cs):
            traces.append(t)
            n += 1
    ctx.count('checks during installations', n)
    ctx.validate('PrereqTrace', traces, batch=400)


def check(rng, m, mode, inter):
    """One check; its trace."""
    kw = {}
    if inter is False or rng.random() < 0.5:
        kw['interactive'] = inter
    if mode != 'no' or rng.random() < 0.5:
        kw['fix_unsatisfied'] = ARG[mode]
    with Told() as told:
        kind, v = attempt(m.obj.check_general_prerequisites, ('u', 'p'), **kw)
    return dict(events=[dict(op='check', mode=mode, inter=inter)] +
                list(m.events) + [ending(kind, v, told.facts(mode))])


def installation(ctx, rng, cs):
    """install() of one key per package manager; a trace for each."""
    import xylem.install as I
    mode, inter = cs[0]['mode'], cs[0]['inter']
    simulate = mode == 'simulate' or (mode == 'no' and rng.random() < 0.3)
    ms = [Manager(ctx, c['sys'], 'pm%d' % i) for i, c in enumerate(cs)]
    names = [m.obj.name for m in ms]
    order = []
    for m in ms:
        def general(os_tuple, fix_unsatisfied=False, interactive=True, m=m,
                    f=m.obj.check_general_prerequisites):
            order.append(m)
            m.result = dict(op='fail')
            mode_ = 'simulate' if fix_unsatisfied == 'simulate' else \
                'fix' if fix_unsatisfied else 'no'
            m.events.append(dict(op='check', mode=mode_, inter=interactive))
            with Told() as told:
                f(os_tuple, fix_unsatisfied, interactive)
            m.result = dict(op='pass', told=told.facts(mode_))
        m.obj.check_general_prerequisites = general
    db = world.make_db(ctx, [{'k%d' % i: {'u': {'p': {
        n: {'packages': ['a%d' % i]}}}} for i, n in enumerate(names)}])
    ran = []
    with world.quiet():
        cfg = world.config(core_installers=names,
                           use_additional_installers=False)
        ic = world.make_ic(cfg, [world.make_os('u', ['p'])], ('u', 'p'),
                           [m.obj for m in ms])
        def run(cmd):
            ran.append(cmd)
            return 0
        kw = dict(config=cfg, database=db, installer_context=ic,
                  interactive=inter, simulate=simulate,
                  continue_on_error=rng.random() < 0.5,
                  reinstall=rng.random() < 0.2,
                  fix_prerequisites=mode in ('fix', 'simulate'))
        with world.recorded_commands(run):
            kind, v = attempt(I.install,
                              ['k%d' % i for i in range(len(ms))], **kw)
    res = []
    end = ending(kind, v)
    want = 'no' if mode == 'no' else mode
    for m in ms:
        if m not in order:
            # not reached: an earlier one failed
            if end['op'] != 'fail':
                res.append(dict(events=[dict(op='never checked')]))
            continue
        evs = list(m.events)
        first = evs[0]
        if first['mode'] != want or first['inter'] != inter:
            evs.insert(0, dict(op='wrong request', mode=first['mode'],
                               inter=first['inter']))
        evs.append(m.result if end['op'] != 'crash' else end)
        res.append(dict(events=evs))
    failed = any(m in order and m.result['op'] == 'fail' for m in ms)
    if end['op'] == 'pass' and failed:
        res.append(dict(events=[dict(op='failed check is ignored')]))
    if end['op'] == 'fail' and (not failed or ran):
        res.append(dict(events=[dict(op='unfounded failure or commands run',
                                     ran=len(ran))]))
    return res


# -- C28 ---------------------------------------------------------------------------

ITEMS_CFG = '''INIT Init
NEXT Next
CONSTANT DoEmit=TRUE
INVARIANTS OnePerPackage NoDepends WrongRejected Emit
'''


def build_items(desc):
    """(name, type, default) of the items of a description."""
    return [(it['group'] + '/' + it['key'] if it['group'] else it['key'],
             K.make_type(it['type']), copy.deepcopy(it['py'])) for it in desc]


def seq(kind, v):
    if kind == 'ok':
        if not isinstance(v, list):
            return ['not a list']
        return ['ok', [K.enc(x) for x in v]]
    return ['err', exc_obs(v)['types'] if kind == 'exc' else [kind]]


def rule_case(inst, desc, rule, rng):
    told = K.enc(rule)
    with world.quiet():
        kind, items = attempt(inst.resolve, rule)
        got = seq(kind, items)
        k2, d = attempt(inst.get_depends, rule)
        deps = seq(k2, d)
        after = K.enc(rule)
        texts = []
        if kind == 'ok':
            for x in items:
                try:
                    texts.append(str(x))
                except TypeError:
                    texts.append('none' if x.get('package') is None
                                 else 'not printable')
            # changes of items must not show in later ones
            for x in items:
                for p in list(K.mutables(dict(x)))[1:3]:
                    v = x
                    for s in p:
                        v = v[s]
                    if isinstance(v, list):
                        v.append('changed')
                    elif v is not x:
                        v['changed'] = 'x'
            if k2 == 'ok' and isinstance(d, list):
                d.append('changed')
        k3, again = attempt(inst.resolve, copy.deepcopy(rule)
                            if rng.random() < 0.5 else rule)
    return dict(op='rule', desc=K.public(desc), rule=told, items=got,
                depends=deps, after=after, texts=texts, again=seq(k3, again),
                env=K.env_for(K.public(desc), told))


def random_rule(rng, desc, wrong):
    full = [dict(group='', key='packages', type=['list', ['str']]),
            dict(group='', key='depends', type=['list', ['str']])] + desc
    rule = K.random_data_dict(rng, full, wrong)
    if rng.random() < 0.6:
        rule['packages'] = [rng.choice(['a', 'b', 'lib-x', 'ü'])
                            for _ in range(rng.randrange(5))]
    if rng.random() < 0.15:
        rule['optzz1'] = K.random_value(rng)
    return rule


def show_item(rng, base):
    text = ['--b', '--a', 'x', 'a', 'two words', '', '\u00fc', '1.0']
    names = ['package', 'opts', 'version', 'more', 'a']
    d = {'package': rng.choice(text), 'keep': 'k'}
    for k in names[1:]:
        d[k] = rng.choice(text) if rng.random() < .5 else [
            rng.choice(text) for _ in range(rng.randrange(4))]
    keys = rng.sample(names, rng.randrange(1, 5))
    item = type(str('R'), (base,), dict(_to_list_keys=keys))(d)
    kind, words = attempt(item.to_list)
    if kind != 'ok' or not isinstance(words, list):
        words = ['crash', repr(words)]
    kind, out = attempt(str, item)
    return dict(op='show', item=K.enc(dict(item)), keys=keys,
                words=[str(w) for w in words],
                text=out if kind == 'ok' else 'crash: %r' % (out,))


def c28(ctx):
    from xylem.installers.installer_base import Resolution
    from xylem.util import remove_duplicates
    from xylem.installers.impl import load_installer_plugins
    rng = ctx.rng
    r = ctx.model_check('RuleItemsMC', ITEMS_CFG, workers=4)
    desc = [dict(group='', key='flag', type=['bool'], default=['b', True],
                 py=True, cl=False),
            dict(group='g', key='opts', type=['list', ['str']],
                 default=['n'], py=None, cl=False)]
    inst = world.make_installer('x', rule_items=build_items(desc))
    recs = []
    cases = sorted(r.emitted, key=repr)
    n = ctx.pick(600, len(cases))
    for c in rng.sample(cases, n):
        recs.append(rule_case(inst, desc, K.dec(c['rule']), rng))
    ctx.count('enumerated rules replayed', len(recs))
    items = []
    real = load_installer_plugins([])
    m = ctx.pick(800, 8000)
    for _ in range(m):
        if rng.random() < 0.1:
            desc, inst = [], rng.choice(real)
        elif rng.random() < 0.4:
            desc = [d for d in K.random_desc(rng, rng.randint(1, 4))
                    if d['key'] not in ('packages', 'depends')]
            inst = world.make_installer('y', rule_items=build_items(desc))
        rule = random_rule(rng, desc, rng.choice([0, 0, 0.05, 0.3]))
        if rng.random() < 0.02:
            rule = rng.choice([None, [], 'x', ['a'], 1, True])
        recs.append(rule_case(inst, desc, rule, rng))
        with world.quiet():
            k, v = attempt(inst.resolve, copy.deepcopy(rule))
        if k == 'ok':
            items.extend(v[:2])
    ctx.count('random rules', m)

    pool = [x for x in items if "'i'" not in repr(K.enc(x)) and
            "'f'" not in repr(K.enc(x))] or [Resolution(package='a')]
    small = [Resolution(d) for d in (
        {'package': 'a'}, {'package': 'b'}, {'package': 'a', 'x': []},
        {'package': 'a', 'x': ['y']}, {'package': 'a', 'x': {'k': []}},
        {'package': 'a', 'x': {'k': ['l', {'m': 'n'}]}},
        {'package': 'a', 'x': None}, {'x': ['y'], 'package': 'a'},
        {'package': 'a', 'x': {'p': 'q', 'r': 's'}},
        {'package': 'a', 'x': {'r': 's', 'p': 'q'}},
        {'package': 'a', 'x': ['y', 'z']}, {'package': 'a', 'x': ['z', 'y']},
        {'package': 'a', 'x': True}, {'package': 'a', 'x': 'True'})]
    pairs = [(a, b) for a in small for b in small]
    for _ in range(ctx.pick(400, 4000)):
        a = rng.choice(pool)
        b = rng.choice(pool) if rng.random() < 0.4 else copy.deepcopy(dict(a))
        if not isinstance(b, Resolution):
            if rng.random() < 0.4:
                ps = list(K.mutables(b))
                v = b
                for s in rng.choice(ps):
                    v = v[s]
                if isinstance(v, list):
                    v.append('more')
                else:
                    v['more'] = 'x'
            ks = list(b)
            rng.shuffle(ks)
            b = Resolution([(k, b[k]) for k in ks])
        pairs.append((a, b))
    for a, b in pairs:
        ea, eb = K.enc(dict(a)), K.enc(dict(b))
        kind, h = attempt(lambda: hash(a) == hash(b))
        k1, eq = attempt(lambda: bool(a == b))
        k2, ne = attempt(lambda: bool(a != b))
        if (k1, k2) != ('ok', 'ok'):
            eq = ne = True
        recs.append(dict(op='eq', a=ea, b=eb, eq=eq, ne=ne,
                         hash=kind == 'ok' and h))
    for _ in range(ctx.pick(100, 1000)):
        q = [rng.choice(small + pool[:20]) for _ in range(rng.randrange(7))]
        q = [Resolution(x) for x in q]
        kind, out = attempt(remove_duplicates, q)
        exp = []
        for x in q:
            if K.enc(dict(x)) not in exp:
                exp.append(K.enc(dict(x)))
        recs.append(dict(op='dedup', out=[K.enc(dict(x)) for x in out]
                         if kind == 'ok' else [['s', 'crash']], expected=exp))
    # items of classes that declare what they print as
    for _ in range(ctx.pick(80, 800)):
        recs.append(show_item(rng, Resolution))
    ctx.count('compared items', len(pairs))
    for rec in recs[::len(recs) // 4]:
        ctx.sample(rec)
    ctx.judge('RuleItemsJudge', recs, batch=1500)


# -- C30 ---------------------------------------------------------------------------

def options_history(ctx, rng):
    from xylem.os_support.impl import OSOverride
    from xylem.installers.impl import load_installer_plugins
    from xylem.os_support.impl import load_os_plugins
    from xylem.config_utils import ConfigDict, ConfigError
    plugins, objs = [], []

    def bool_item(d):
        return dict(group='', key='as_root', type=['bool'],
                    default=K.enc(d), py=d, cl=False)
    feats = dict(group='', key='features', type=['list', ['str']],
                 default=['l', []], py=[], cl=False)

    def add(obj, name, desc, of=None):
        objs.append(obj)
        plugins.append(dict(name=name, desc=K.public(desc), raw=desc,
                            of=of or len(objs)))

    def extra():
        return [d for d in K.random_desc(rng, rng.randint(1, 3))
                if d['key'] not in ('as_root', 'features')]
    shared = extra()
    for n in range(rng.randint(1, 2)):
        desc = shared if rng.random() < 0.6 else extra()
        root = rng.random() < 0.5
        add(world.make_installer('inst%d' % n, as_root=root,
                                 option_items=build_items(desc)),
            'inst%d' % n, [bool_item(root)] + desc)
    for n in range(rng.randint(1, 2)):
        desc = shared if rng.random() < 0.6 else extra()
        os_ = world.make_os('os%d' % n, ['p', 'q'])
        for nm, t, d in build_items(desc):
            os_.options_description.add(nm, type=t, default=d)
        add(os_, 'os%d' % n, [feats] + desc)
        for v in ('p', 'q')[:rng.randrange(3)]:
            add(OSOverride(os_, v), 'os%d' % n, [feats] + desc,
                of=objs.index(os_) + 1)
    if rng.random() < 0.3:
        for o in rng.sample(load_installer_plugins([]), 2):
            if o.name != 'fake':
                add(o, o.name, [bool_item(o.name in ('apt', 'pip',
                                                     'macports'))])
        for o in rng.sample(load_os_plugins([]), 2):
            add(o, o.name, [feats])
    events = []

    def observe(ev):
        ev['all'] = [K.enc(o.options) for o in objs]
        ev['attrs'] = [K.attrs(o.options) for o in objs]
        ev['env'] = K.env_for(ev, [p['desc'] for p in plugins])
        events.append(ev)
    if rng.random() < 0.7:
        observe(dict(op='look'))
    data = None
    for _ in range(rng.randint(2, 8)):
        i = rng.randrange(len(objs))
        if rng.random() < 0.25 and events:
            it = rng.choice(plugins[i]['raw'])
            tgt = objs[i].options
            if it['group']:
                tgt = tgt[it['group']]
            paths = list(K.mutables(tgt[it['key']]))
            if not paths:
                continue
            v = tgt[it['key']]
            for p in rng.choice(paths):
                v = v[p]
            if isinstance(v, list):
                v.append('extra')
            else:
                v['extra'] = 'x'
            observe(dict(op='change', id=i + 1, group=it['group'],
                         key=it['key'], to=K.enc(tgt[it['key']])))
            continue
        if data is None or rng.random() < 0.7:
            data = K.random_data_dict(rng, plugins[i]['raw'],
                                      rng.choice([0, 0.05, 0.2]))
            if rng.random() < 0.3:
                data['optzz%d' % rng.randrange(3)] = K.random_value(rng)
            if rng.random() < 0.02:
                data = rng.choice(['x', 1, ['y']])
        # two names of one path would collide
        again = "'path'" not in repr(plugins[i]['desc'])
        if again and rng.random() < 0.1:
            # options that were read from a plugin, perhaps of another one
            data = objs[rng.choice([i, i, rng.randrange(len(objs))])].options
            if rng.random() < .3:
                data = copy.deepcopy(data)
        elif again and isinstance(data, dict) and rng.random() < 0.15:
            # all options as they were read, some of them changed
            data = ConfigDict(copy.deepcopy(objs[i].options), **{
                k: x for k, x in data.items() if isinstance(k, str)})
        told = K.enc(data)
        with captured() as out:
            kind, v = attempt(setattr, objs[i], 'options', data)
        text = out.getvalue()
        top = set(n['group'] or n['key'] for n in plugins[i]['raw'])
        unknown = [k for k in data if k not in top] \
            if isinstance(data, dict) else []
        if kind == 'ok':
            g = 'ok'
        elif kind == 'exc' and isinstance(v, ConfigError):
            g = 'config error naming the plugin' \
                if plugins[i]['name'] in str(v) else 'plugin not named'
        else:
            g = repr(exc_obs(v) if kind == 'exc' else kind)
        observe(dict(op='set', id=i + 1, data=told, after=K.enc(data), got=g,
                     warned='gnoring' in text,
                     named=[k for k in unknown if k in text]))
    for p in plugins:
        del p['raw']
    return dict(plugins=plugins, events=events)


def c30(ctx):
    rng = ctx.rng
    ctx.model_check('OptionsMC', 'INIT Init\nNEXT Next\nINVARIANTS '
                    'AlwaysTyped Replaced\nPROPERTY Isolated\n', workers=4)
    hist = []
    for _ in range(ctx.pick(350, 5000)):
        h = options_history(ctx, rng)
        if h['events']:
            hist.append(h)
    ctx.count('histories', len(hist))
    for h in hist[::len(hist) // 4]:
        ctx.sample(h)
    ctx.validate('OptionsTrace', hist, batch=300)
