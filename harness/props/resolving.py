"""C12, C13: resolving keys, and the installers in use (spec/Resolve.tla,
Context.tla)."""
import contextlib
import copy
import io

from harness import world
from harness.core import attempt, exc_obs
from harness.props import rules as R
from harness.props import config as K

RES_CFG = '''INIT Init
NEXT Next
CONSTANT DoEmit=TRUE
INVARIANTS Partition Usable CoreFirst NoNeedlessFailure Independent FirstPin
INVARIANTS Emit
'''
CTX_CFG = '''INIT Init
NEXT Next
CONSTANT DoEmit=TRUE
INVARIANTS OnlyLoaded Disjoint Emit
PROPERTY Memoryless
'''


# -- C12 ---------------------------------------------------------------------------

def body_obs(body):
    """What an installer with a boolean entry 'flag' makes of a rule."""
    if body is None or not isinstance(body, dict):
        return ['bad']
    p = body.get('packages')
    if p is None:
        p = []
    f = body.get('flag')
    if not isinstance(p, list) or not all(
            x is None or isinstance(x, str) for x in p) or \
            not (f is None or isinstance(f, bool)):
        return ['bad']
    return ['ok', [str(x) for x in p]]


class Breaking(object):
    """A database whose lookup fails for some keys."""

    def __init__(self, db, broken, rng):
        self.db, self.broken, self.rng = db, broken, rng

    def lookup(self, key, ic):
        if key in self.broken:
            raise self.rng.choice([LookupError, KeyError])('broken ' + key)
        return self.db.lookup(key, ic)

    def keys(self, ic):
        return self.db.keys(ic)


def resolve_case(ctx, rng, w, toks, bodies, request, broken=(), all_keys=False,
                 version='p', dflt='apt', api='objects', osname='u'):
    """One call of resolve in world w; the record of it."""
    from xylem.config_utils import Boolean
    from xylem.resolve import resolve
    insts = [world.make_installer(
        i, additional=i in w['additional'],
        rule_items=[('flag', Boolean, None)]) for i in w['loaded']]
    kw = dict(core_installers=list(w['core_cfg']),
              use_additional_installers=w['use_additional'],
              install_from=copy.deepcopy(w['from_cfg']))
    cfg = world.config(**kw)
    oses = [world.make_os(n, ['p', 'q', '1.0'], default=d)
            for n, d in (('u', 'apt'), ('w', 'pip'), ('x', 'gem'))]
    dflt = {'u': 'apt', 'w': 'pip', 'x': 'gem'}[osname]
    with world.quiet():
        ic = world.make_ic(cfg, oses, (osname, version), insts)
    db = world.make_db(ctx, R.tokens_to_rules(toks, bodies))
    if broken:
        db = Breaking(db, broken, rng)
    frm = [[i, list(ks)] for i, ks in w['from_cfg'].items() if ks]
    pairs = {(i, k) for i, ks in frm for k in ks}
    several = {k for _, k in pairs if len([1 for p in pairs if p[1] == k]) > 1}
    keys = list(request)
    err = io.StringIO()
    with world.quiet(), contextlib.redirect_stderr(err):
        kind, v = attempt(resolve, keys, all_keys=all_keys, config=cfg,
                          database=db, installer_context=ic)
    told = [k for k in sorted(several) if k in err.getvalue()]
    if kind == 'ok':
        try:
            res, err = v
            got = ['ok', [[k, i, [str(x) for x in rs]] for k, (i, rs) in res],
                   [k for k, e in err]]
            from xylem.resolve import ResolutionError
            if not all(isinstance(e, ResolutionError) for _, e in err):
                got = ['error of another type']
        except Exception as e:
            got = ['malformed', repr(v)[:300], repr(e)]
    else:
        got = [kind, exc_obs(v) if kind == 'exc' else '']
    if keys != list(request):
        got = ['the request was modified', keys]
    ordered = sorted({k for d in toks for k in d})
    return dict(op='resolve', told=told,
                request=list(request), broken=list(broken),
                all=all_keys, sorted=ordered, db=toks, os=osname,
                version=version, dflt=dflt, got=got,
                body={t: body_obs(b) for t, b in bodies.by_token.items()},
                w={'loaded': w['loaded'], 'core': w['core'],
                   'additional': w['add'], 'from': frm})


def full_world(loaded, core, use_additional, declared, frm):
    """Adds what is in use (the subject of C13) to what is configured."""
    c = [i for i in core if i in loaded]
    return dict(loaded=loaded, core_cfg=core, core=c, from_cfg=frm,
                use_additional=use_additional, additional=declared,
                add=[i for i in loaded if use_additional and i in declared
                     and i not in c])


def random_world(rng, names=('apt', 'pip', 'gem', 'brew', 'x1')):
    loaded = [i for i in names if rng.random() < 0.75]
    rng.shuffle(loaded)
    core = [i for i in names if rng.random() < 0.4]
    rng.shuffle(core)
    frm = {}
    for i in rng.sample(list(names) + ['missing'], len(names) + 1):
        if rng.random() < 0.3:
            frm[i] = rng.choice([None, [], ['k1'], ['k2', 'k1'], ['zz'],
                                 ['k3', 'k3'], ['k4', 'k1', 'k2']])
    return full_world(loaded, core, rng.random() < 0.75,
                      [i for i in names if rng.random() < 0.5], frm)


def c12(ctx):
    rng = ctx.rng
    r = ctx.model_check('ResolveMC', RES_CFG, workers=4)
    cases = sorted(r.emitted, key=repr)
    n = ctx.pick(700, len(cases))
    if len(cases) > n:
        cases = rng.sample(cases, n)
    recs = []
    for c in cases:
        m = {'a': 'apt', 'b': 'pip', 'c': 'gem', 'x': 'x'}
        bodies = R.Bodies()
        bodies.by_token = {'good': {'packages': ['p']},
                           'bad': rng.choice([{'packages': 'p'}, {'flag': 1},
                                              {'packages': [1]}])}
        bodies.by_token['bad'] = {'packages': ['p'], 'flag': 'no'}
        toks, broken = [{}], []
        for k, f in c['found'].items():
            if f[0] == 'fail':
                broken.append(k)
            f = dict(f[1]) if len(f) > 1 and f[1] else {}
            if f or rng.random() < 0.5:
                toks[0][k] = {'u': {'p': {m[i]: t for i, t in f.items()}}}
        cw = c['w']
        loaded = [m[i] for i in cw['loaded']]
        core = [m[i] for i in cw['core']]
        w = full_world(loaded, core, True, [m[i] for i in cw['additional']],
                       {m[i]: ks for i, ks in cw['from']})
        req = ['k1', 'k2']
        rng.shuffle(req)
        recs.append(resolve_case(ctx, rng, w, toks, bodies, req, broken))
    ctx.count('enumerated worlds replayed', len(recs))
    m = ctx.pick(700, 9000)
    for _ in range(m):
        bodies = R.Bodies(rng)
        toks = R.random_db(rng, bodies, keys=4,
                           insts=('apt', 'pip', 'gem', 'brew'))
        for t in list(bodies.by_token):
            x = rng.random()
            if x < 0.15:
                bodies.by_token[t] = dict(bodies.by_token[t],
                                          flag=rng.choice(['x', 1, [], {}]))
            elif x < 0.3:
                bodies.by_token[t] = dict(bodies.by_token[t],
                                          flag=rng.choice([True, False, None]))
        pool = ['k1', 'k2', 'k3', 'k4', 'nokey', 'Ünï']
        if rng.random() < .2:
            # alike, but other keys
            pool += ['k1 ', ' k2', 'K1', 'k1\t', 'k', 'k11']
        req = [rng.choice(pool) for _ in range(rng.randrange(6))]
        broken = [k for k in pool if rng.random() < 0.12]
        recs.append(resolve_case(
            ctx, rng, random_world(rng), toks, bodies, req, broken,
            rng.random() < 0.4, rng.choice(['p', 'q', '1.0']),
            osname=rng.choice(['u', 'w', 'x'])))
    ctx.count('random resolutions', m)
    for rec in recs[::len(recs) // 4]:
        ctx.sample(rec)
    ctx.judge('ResolveJudge', recs, batch=700)


# -- C13 ---------------------------------------------------------------------------

REAL = {'apt': True, 'pip': True, 'macports': True, 'homebrew': False,
        'fake': False}


def opt_desc(items):
    return [dict(group='', key=n, type=T, default=K.enc(d), cl=False, py=d)
            for n, T, d in items]


def looks(ic, ev, objs, rng):
    """Observe lookups and options."""
    names = [o.name for o in objs]
    qs = names + ['nosuch', 'APT', '']
    ev['lookup'] = []
    for q in qs:
        o = ic.lookup_installer(q)
        ev['lookup'].append(dict(name=q, found=o is not None,
                                 right=o is not None and o.name == q and
                                 any(o is x for x in objs)))
    ev['options'] = [K.enc(o.options) for o in objs]
    ev['plugin_names'] = list(ic.installer_plugin_names)
    return ev


def setup_event(ic, objs, cfg, oscore, tup, rng):
    told = dict(
        core=['unset'] if cfg.core_installers is None
        else ['set', list(cfg.core_installers)],
        additional=bool(cfg.use_additional_installers),
        options={k: K.enc(v) for k, v in cfg.installer_options.items()})
    ev = dict(op='setup', cfg=told, oscore=list(oscore), tuple=list(tup),
              core=list(ic.core_installer_names),
              additional=list(ic.additional_installer_names),
              names=list(ic.installer_names),
              same=[o for o in ic.installers] ==
              [ic.lookup_installer(o.name) for o in ic.installers] and
              [o.name for o in ic.core_installers] ==
              list(ic.core_installer_names) and
              [o.name for o in ic.additional_installers] ==
              list(ic.additional_installer_names))
    return looks(ic, ev, objs, rng)


def random_options(rng, desc):
    data = K.random_data_dict(rng, desc, 0)
    return data


def random_cfg(rng, names, descs):
    kw = {}
    x = rng.random()
    # (names that are nearly those of others)
    pool = list(names) + ['nosuch', 'apt', 'APT', 'Pip', 'ap', 'apt ', 'x']
    if x < 0.15:
        kw['core_installers'] = []
    elif x < 0.6:
        core = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.6:
            core = list(dict.fromkeys(core))
        kw['core_installers'] = core
    if rng.random() < 0.4:
        kw['use_additional_installers'] = rng.random() < 0.5
    opts = {}
    for n in list(names) + ['nosuch']:
        if rng.random() < 0.45:
            d = descs.get(n)
            opts[n] = rng.choice([None, {}]) if rng.random() < 0.2 or not d \
                else random_options(rng, d)
    if opts or rng.random() < 0.5:
        kw['installer_options'] = opts
    return kw


def context_history(ctx, rng, fixed=None):
    names = rng.sample(['apt', 'pip', 'gem', 'brew', 'x1', 'APT', 'pi'],
                       rng.randint(1, 5))
    rng.shuffle(names)
    versions = ['p', 'q']
    tuples = [(o, v) for o in 'uw' for v in versions]
    descs, plugins, objs = {}, [], []
    if fixed:
        names = fixed['loaded']
        tuples = [('u', v) for v in '12']
    for i in names:
        items = [('as_root', ['bool'], rng.random() < 0.5)]
        if fixed:
            items.append(('o', ['str'], 'd'))
            decl = {'a': [], 'b': [('u', '1'), ('u', '2')],
                    'c': [('u', '1')]}[i]
        else:
            for _ in range(rng.randrange(3)):
                n = rng.choice(['o1', 'o2', 'o3'])
                if n not in [x[0] for x in items]:
                    T = K.random_type(rng, 1)
                    d = None if rng.random() < 0.5 else \
                        K.typed_value(rng, T, 0)
                    if T[0] == 'path' and d is not None:
                        d = '/d/' + i
                    items.append((n, T, d))
            decl = [t for t in tuples if rng.random() < 0.5]
        descs[i] = opt_desc(items)
        o = world.make_installer(
            i, additional=lambda t, decl=decl: tuple(t) in decl,
            as_root=items[0][2],
            option_items=[(n, K.make_type(T), copy.deepcopy(d))
                          for n, T, d in items[1:]])
        objs.append(o)
        plugins.append(dict(name=i, additional=[list(t) for t in decl],
                            desc=K.public(descs[i])))

    core_of = {}
    for t in tuples:
        core_of[t] = list(dict.fromkeys(
            rng.choice(list(names) + ['nosuch'] if names else ['nosuch'])
            for _ in range(rng.randrange(4))))
    if fixed:
        core_of = {('u', '1'): ['a', 'b'], ('u', '2'): ['x', 'c']}
    oses = []
    for n in ('u', 'w'):
        # (an OS may be derived from other ones, known as well or not)
        os_ = world.make_os(n, [v for o, v in tuples if o == n] or ['p'],
                            names=[n] + rng.choice(
                                [[], ['w' if n == 'u' else 'u'], ['x', 'y']]))

        def core(v, options, n=n):
            q = core_of.get((n, v), [])
            # may depend on the features as well
            return [x for x in q
                    if not ('nocore' in (options.features or []))]
        os_.get_core_installers = core
        oses.append(os_)
    from xylem.installers import InstallerContext
    events = []
    tup = rng.choice(tuples)
    feats = []

    def new_cfg(first=False):
        if fixed and first:
            kw = dict(use_additional_installers=fixed['additional'],
                      installer_options={i: {'o': 'v'} for i in ('a', 'x')}
                      if fixed['set'] else {})
            if fixed['core'][0] == 'set':
                kw['core_installers'] = list(fixed['core'][1])
            return world.config(**kw)
        return world.config(**random_cfg(rng, names, descs))
    cfg = new_cfg(True)
    if fixed:
        tup = ('u', fixed['version'])
    sup = world.os_support(oses, tup)
    with world.quiet():
        ic = InstallerContext(cfg, os_support=sup, setup_installers=False)
        ic.installer_plugins = list(objs)

        def oscore():
            return [] if 'nocore' in feats else core_of.get(tup, [])
        ic.setup_installers()
        events.append(setup_event(ic, objs, cfg, oscore(), tup, rng))
        for _ in range(rng.randint(1, 4)):
            x = rng.random()
            if x < 0.25 and objs:
                i = rng.randrange(len(objs))
                data = random_options(rng, descs[names[i]])
                told = K.enc(data)
                objs[i].options = data
                events.append(looks(ic, dict(
                    op='options', name=names[i], data=told), objs, rng))
                continue
            if x < 0.7:
                cfg = new_cfg()
                ic.config = cfg
            if rng.random() < 0.4:
                tup = rng.choice(tuples)
                ic.os_support.override_os(tup)
            if rng.random() < 0.3:
                feats = rng.choice([[], ['nocore']])
                for o in oses:
                    o.options = {'features': feats}
            ic.setup_installers()
            events.append(setup_event(ic, objs, cfg, oscore(), tup, rng))
    for ev in events:
        ev['env'] = K.env_for(ev, plugins)
    return dict(plugins=plugins, events=events)


def real_history(ctx, rng):
    """The built-in plugins, through the configuration of xylem."""
    import os
    from xylem.installers import InstallerContext
    tup = rng.choice([('ubuntu', 'trusty'), ('debian', 'wheezy'),
                      ('xubuntu', 'precise'), ('osx', 'lion')])
    disabled = [i for i in list(REAL) + ['nosuch'] if rng.random() < 0.2]
    descs = {}
    for i, root in REAL.items():
        items = [('as_root', ['bool'], root)]
        if i == 'fake':
            items += [('install_dir', ['path'], os.path.join(
                os.environ['HOME'], '.fake-installer'))]
        descs[i] = opt_desc(items)
    kw = random_cfg(rng, list(REAL), descs)
    kw['os_override'] = '%s:%s' % tup
    kw['disabled_plugins'] = {'installer': disabled}
    if rng.random() < 0.5:
        kw['os_options'] = {'features': rng.choice(
            [[], ['port'], ['macports'], ['x']])}
    with world.quiet():
        cfg = world.config(**kw)
        ic = InstallerContext(config=cfg)
        os_ = ic.get_os()
        oscore = os_.get_core_installers(tup[1], os_.options)
    names = [i for i in ic.installer_plugin_names]
    expect = [i for i in names if i in REAL and i not in disabled] + \
        [i for i in REAL if i not in disabled and i not in names]
    if names != expect:
        return dict(plugins=[], events=[dict(
            op='wrong plugins', got=names, expected=expect)])
    descs['fake'].append(dict(group='', key='fake_name', type=['str'],
                              default=['s', 'fake'], cl=False, py='fake'))
    plugins = [dict(name=i, desc=K.public(descs[i]), additional=[
        list(tup)] if i == 'pip' else []) for i in names]
    objs = list(ic.installer_plugins)
    ev = setup_event(ic, objs, cfg, oscore, tup, rng)
    got = ic.get_os_tuple()
    if tuple(got) != tup or ic.get_os_string() != '%s:%s' % tup or \
            ic.get_default_installer_name() != os_.default_installer:
        ev['op'] = 'wrong OS'
    ev['env'] = K.env_for(ev, plugins)
    return dict(plugins=plugins, events=[ev])


def c13(ctx):
    rng = ctx.rng
    r = ctx.model_check('ContextMC', CTX_CFG, workers=4)
    hist = [context_history(ctx, rng, c) for c in
            sorted(r.emitted, key=repr)]
    ctx.count('enumerated configurations replayed', len(hist))
    for _ in range(ctx.pick(300, 4000)):
        hist.append(context_history(ctx, rng))
    for _ in range(ctx.pick(60, 500)):
        hist.append(real_history(ctx, rng))
    ctx.count('histories', len(hist))
    for h in hist[::len(hist) // 4]:
        ctx.sample(h)
    ctx.validate('ContextTrace', hist, batch=400)
