"""C40: the Python API as a history of calls (spec/Calls.tla)."""
import copy
import json
import os
import sys

import yaml

from harness import world
from harness.core import attempt

MC_CFG = '''
CONSTANTS Depth = %d DoEmit = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANT GlobalUnused
INVARIANT Offline
INVARIANT Fresh
INVARIANT Emit
PROPERTIES OnlyUpdate OnlyInstall Kept GlobKept
CHECK_DEADLOCK FALSE
'''
PIP = '''#!/bin/sh
case "$1" in
freeze) while read p; do echo "$p==1.0"; done < "$XW/pip" ;;
install)
  shift; while [ "$#" -gt 1 ]; do shift; done
  echo "pip $1" >> "$XW/log"
  echo "$1" >> "$XW/pip" ;;
esac
exit 0
'''
TOUCH = '''#!/bin/sh
case "$1" in "$XW"/*) ;; *) echo "fake OUTSIDE" >> "$XW/log"; exit 1 ;; esac
echo "fake ${1##*/}" >> "$XW/log"
: > "$1"
'''
SUDO = '#!/bin/sh\nexec "$@"\n'
NONE = dict(kind='none', n=0)
BAD = dict(kind='bad', n=0)
OSES = {'ubuntu': ['trusty', 'precise'], 'debian': ['wheezy', 'jessie'],
        'osx': ['lion', 'mavericks']}


class Process(object):
    """One process that uses the API: its files and its global state."""

    def __init__(self, ctx, rng, w, rules, files_order=None):
        self.ctx, self.rng, self.w = ctx, rng, w
        self.d = ctx.tmp()
        self.bin = os.path.join(self.d, 'bin')
        os.makedirs(self.bin)
        for n, text in (('pip', PIP), ('touch', TOUCH), ('sudo', SUDO)):
            p = os.path.join(self.bin, n)
            with open(p, 'w') as f:
                f.write(text)
            os.chmod(p, 0o755)
        for n in ('pip', 'log'):
            open(os.path.join(self.d, n), 'w').close()
        self.rules = dict(rules)
        for f in rules:
            self.write(f)
        w['dirs']['default'] = ['none']
        if 'default' not in w['cdirs']:
            w['cdirs'] = w['cdirs'] + ['default']
        w['rules']['none'] = []
        self.names = {self.path(n): n
                      for n in list(w['dirs']) + w['cdirs']}
        for s, files in w['dirs'].items():
            if s == 'default':
                continue
            # one list file or several: the order is that of the entries
            entries = [{'rules': 'file://' + self.path(f)} for f in files]
            os.makedirs(self.path(s))
            cut = rng.randint(0, len(entries))
            for n, part in (('20-b.yaml', entries[cut:]),
                            ('10-a.yaml', entries[:cut])):
                if part:
                    world.write_sources(self.path(s), part, n)
        self.idirs = sorted({c['idir'] for c in w['configs']})
        for i in self.idirs:
            os.makedirs(self.path(i))
        self.data = [self.plain(c) for c in w['configs']]
        self.sctxs, self.ictxs, self.dbs = [], [], []
        self.parsed, self.slot = {}, {}
        self.events = []
        self.glob = w['glob']
        self.defaults = default_dirs()

    def dirs(self, s):
        """The directories of a sources context, by name."""
        c = os.path.dirname(s.cache_dir)
        d = self.defaults
        return dict(
            src='default' if s.sources_dir == d[0] else
            self.names.get(s.sources_dir, s.sources_dir),
            cdir='default' if s.cache_dir == d[1] else
            self.names.get(c, c) if s.cache_dir == os.path.join(
                c, 'sources') else s.cache_dir)

    def harmless(self, a):
        """Whether nothing outside of the scratch directory is used."""
        if a['call'] != 'update':
            return True
        if a['sctx']['kind'] == 'given':
            d = self.dirs(self.sctxs[a['sctx']['n'] - 1])
            return 'default' not in d.values() and all(
                x in self.names.values() for x in d.values())
        if a['cfg']['kind'] == 'bad':
            return True
        c = self.w['configs'][(self.glob if a['cfg']['kind'] == 'none'
                               else a['cfg']['n']) - 1]
        return 'default' not in (c['src'], c['cdir'])

    def path(self, n):
        return os.path.join(self.d, n)

    def write(self, f):
        doc = {}
        for r in self.rules[f]:
            v = doc.setdefault(r['key'], {}).setdefault(r['os'], {})
            v.setdefault('any_version', {})[r['inst']] = \
                {'packages': [r['pkg']]}
        with open(self.path(f), 'w') as h:
            yaml.safe_dump(doc, h)

    def plain(self, c):
        """The data of a configuration."""
        v = c['os'] + ':' + self.rng.choice(OSES[c['os']])
        r = self.other_data(c, v)
        for k, x in (('sources_dir', c['src']), ('cache_dir', c['cdir'])):
            if x != 'default':
                r[k] = self.path(x)
            elif self.rng.random() < .3:
                r[k] = None
        return r

    def other_data(self, c, v):
        return dict(os_override=v, core_installers=list(c['core']),
                    use_additional_installers=False,
                    install_from={p['inst']: list(p['keys'])
                                  for p in c['from']},
                    installer_options={'fake': {
                        'install_dir': self.path(c['idir'])}})

    def config(self, n):
        """The configuration object of number n: one or several of them."""
        from xylem.config import ensure_config
        have = self.parsed.setdefault(n, [])
        if not have or self.rng.random() < 0.2:
            have.append(ensure_config(copy.deepcopy(self.data[n - 1])))
        return self.rng.choice(have)

    def reused(self, data):
        """One and the same dictionary, with other contents every time."""
        before = self.state()
        for v in self.slot.values():
            if isinstance(v, (list, dict)):
                v.clear()
        self.slot.clear()
        self.slot.update(copy.deepcopy(data))
        after = self.state()
        if after[1:] != before[1:]:
            self.events.append(dict(
                op='changing a dictionary given before changed something'))
        return self.slot

    def cfg(self, arg):
        k = arg['kind']
        if k == 'none':
            return None
        if k == 'dict':
            data = self.data[arg['n'] - 1]
            return self.reused(data) if self.rng.random() < 0.4 else data
        if k == 'parsed':
            return self.config(arg['n'])
        return self.rng.choice([[], 'ubuntu', 7, True, object(),
                                [('os_override', 'ubuntu:trusty')]])

    def given(self, arg, have, other):
        if arg['kind'] == 'none':
            return None
        if arg['kind'] == 'given':
            return have[arg['n'] - 1]
        return self.rng.choice(['text', 7, object(), {'a': 1}] + other)

    def state(self):
        """What calls have to leave alone."""
        from xylem.config import get_config
        r = [copy.deepcopy(self.slot),
             id(get_config()), plain_of(get_config()),
             copy.deepcopy(self.data),
             [[plain_of(c) for c in v] for v in self.parsed.values()]]
        for s in self.sctxs:
            r.append((s.sources_dir, s.cache_dir,
                      [id(p) for p in s.spec_plugins]))
        for i in self.ictxs:
            r.append((i.get_os_string(), i.core_installer_names,
                      i.additional_installer_names, plain_of(i.config),
                      [id(p) for p in i.installer_plugins]))
        return r

    def step(self, f, ev):
        before = self.state()
        with world.quiet():
            kind, v = attempt(f)
        ev['untouched'] = before == self.state()
        self.events.append(ev)
        return kind, v

    def set_global(self, n):
        from xylem.config import get_config, set_config
        c = self.config(n)
        set_config(c)
        self.glob = n
        self.events.append(dict(op='global', n=n,
                                untouched=get_config() is c))

    def edit(self, f, rules):
        self.rules[f] = rules
        self.write(f)
        self.events.append(dict(op='edit', f=f, rules=rules))

    def make(self, op, arg):
        from xylem.installers import InstallerContext, ensure_installer_context
        from xylem.sources import SourcesContext, ensure_sources_context
        have = self.sctxs if op == 'sctx' else self.ictxs
        cls = SourcesContext if op == 'sctx' else InstallerContext
        ens = ensure_sources_context if op == 'sctx' else \
            ensure_installer_context
        ev = dict(op=op, cfg=arg)
        c = self.cfg(arg)
        f = self.rng.choice([lambda: cls(c), lambda: cls(config=c),
                             lambda: ens(None, c)])
        kind, v = self.step(f, ev)
        if kind == 'ok' and isinstance(v, cls) and ens(v, None) is v:
            if op == 'sctx':
                ev['dirs'] = self.dirs(v)
            have.append(v)
        else:
            ev['op'] = 'context is not made: %s' % kind

    def database(self, n, how):
        if self.dirs(self.sctxs[n - 1])['src'] == 'default':
            how = 'cache'
        from xylem.sources import RulesDatabase

        def f():
            db = RulesDatabase(self.sctxs[n - 1])
            if how == 'source':
                db.load_from_source()
            else:
                db.load_from_cache()
            return db
        ev = dict(op='db', n=n, how=how)
        kind, v = self.step(f, ev)
        ev['made'] = kind == 'ok'
        if kind == 'ok':
            self.dbs.append(v)

    def reload(self, n, how):
        db = self.dbs[n - 1]
        sources = [s for s in db.sources]
        if 'default' in self.dirs(db.sources_context).values():
            return
        if how == 'cache' and not all(os.path.isfile(s.cache_file_path())
                                      for s in sources):
            return
        if how == 'update':
            db.sources_context.ensure_cache_dir()
        f = dict(source=db.load_from_source, cache=db.load_from_cache,
                 update=db.update)[how]
        ev = dict(op='reload', n=n, how=how)
        kind, _ = self.step(f, ev)
        ev['made'] = kind == 'ok'
        ev['caches'] = {c: self.cached(c) for c in self.w['cdirs']}

    def call(self, a):
        if not self.harmless(a):
            return
        open(self.path('log'), 'w').close()
        kw = {}
        for name, v in (
                ('config', self.cfg(a['cfg'])),
                ('sources_context',
                 self.given(a['sctx'], self.sctxs, self.ictxs)),
                ('installer_context',
                 self.given(a['ictx'], self.ictxs, self.sctxs)),
                ('database', self.dbs[a['db'] - 1] if a['db'] else None)):
            if v is not None or self.rng.random() < 0.2:
                kw[name] = v
        if a['call'] in ('lookup', 'update'):
            kw.pop('database', None)
        if a['call'] == 'update':
            kw.pop('installer_context', None)
        keys = list(a['keys'])
        ev = dict(op='call', a=a, good=[], lost=[], found=[])
        kind, v = self.step(lambda: self.function(a, keys, kw), ev)
        if kind == 'exc':
            ev['kind'] = 'ValueError' if type(v) is ValueError else 'fails'
        else:
            ev['kind'] = kind
        if kind == 'ok':
            k, e = attempt(self.answer, a, v, ev)
            if k != 'ok':
                ev['kind'] = 'answer of another form: %r' % (v,)
        if keys != list(a['keys']):
            ev['kind'] = 'request changed'
        with open(self.path('log')) as f:
            ev['ran'] = [x.split(None, 1) for x in f.read().splitlines()]
        ev['caches'] = {c: self.cached(c) for c in self.w['cdirs']}
        with open(self.path('pip')) as f:
            have = [['pip', p] for p in sorted(set(f.read().split()))]
        ev['have'] = have + [[i, p] for i in self.idirs
                             for p in sorted(os.listdir(self.path(i)))]

    def cached(self, c):
        if c == 'default':
            return 0
        d = os.path.join(self.path(c), 'sources')
        return len(os.listdir(d)) if os.path.isdir(d) else 0

    def function(self, a, keys, kw):
        if a['call'] == 'resolve':
            from xylem.resolve import resolve
            return resolve(keys, all_keys=a['all'], **kw)
        if a['call'] == 'lookup':
            from xylem.lookup import lookup
            return lookup(keys[0], **kw)
        if a['call'] == 'update':
            from xylem.update import update
            if a['simulate'] or self.rng.random() < 0.3:
                kw['dry_run'] = a['simulate']
            return update(**kw)
        from xylem.install import install
        return install(keys, all_keys=a['all'], simulate=a['simulate'],
                       interactive=False, reinstall=a['again'],
                       continue_on_error=a['go_on'], **kw)

    def answer(self, a, v, ev):
        if a['call'] == 'resolve':
            good, lost = v
            ev['good'] = [[k, i, ','.join(str(x) for x in r)]
                          for k, (i, r) in good]
            ev['lost'] = [k for k, _ in lost]
        elif a['call'] == 'install':
            lost, failed = v
            ev['lost'] = [k for k, _ in lost]
            if failed:
                ev['kind'] = 'install errors %r' % (failed,)
        elif a['call'] == 'lookup':
            ev['found'] = [[i, ','.join(r['packages'])]
                           for i, r in v.items()]
        elif v is not None:
            raise ValueError(v)

    def trace(self):
        return dict(w=self.w, events=self.events)


def plain_of(c):
    if isinstance(c, dict):
        return {k: plain_of(v) for k, v in c.items()}
    return copy.deepcopy(c)


GUARD = dict(inside=None, on=False)


def guard(event, args):
    """Whatever the code does, it writes in the scratch directory only."""
    if not GUARD['inside']:
        return
    if event == 'open':
        path, flags = args[0], args[2]
        if not isinstance(flags, int) or not flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return
    elif event in ('os.mkdir', 'os.remove', 'os.rmdir', 'os.rename',
                   'os.chmod', 'os.symlink', 'os.link', 'os.truncate'):
        path = args[1 if event in ('os.rename', 'os.symlink', 'os.link')
                    else 0]
    else:
        return
    if isinstance(path, (str, bytes)) and not os.path.abspath(
            os.fsdecode(path)).startswith((GUARD['inside'], '/dev/')):
        raise PermissionError(13, 'outside of the scratch directory')


def default_dirs():
    """Those of a configuration that names none, in a fresh process."""
    from xylem.config import ensure_config, get_config, set_config
    from xylem.sources import SourcesContext
    old = get_config()
    try:
        set_config(ensure_config({}))
        s = SourcesContext(ensure_config({}))
        return s.sources_dir, s.cache_dir
    finally:
        set_config(old)


def in_process(p, f):
    """Run f with the global state of process p, restored afterwards."""
    from xylem.config import get_config, set_config
    old, env, cwd = get_config(), dict(os.environ), os.getcwd()
    os.environ.update(PATH=p.bin, XW=p.d, HOME=p.d)
    os.chdir(p.d)
    if not GUARD['on']:
        sys.addaudithook(guard)
        GUARD['on'] = True
    GUARD['inside'] = p.d + os.sep
    try:
        f()
    finally:
        GUARD['inside'] = None
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        set_config(old)


def replay(ctx, rng, w, rules, hist, versions):
    w = dict(w, rules=dict(rules), dirs=dict(w['dirs']))
    p = Process(ctx, rng, w, rules)

    def run():
        from xylem.config import set_config
        set_config(p.config(w['glob']))
        for e in hist:
            perform(p, e, versions)
        # (the state is reached: some of the calls there)
        for _ in range(5):
            p.call(random_call(rng, p, ['k', 'm'], 1))
    in_process(p, run)
    return p.trace()


def perform(p, e, versions=None):
    op = e['op']
    if op == 'call':
        p.call(e['a'])
    elif op == 'global':
        p.set_global(e['n'])
    elif op == 'edit':
        p.edit(e['f'], versions[e['f']] if versions else e['rules'])
    elif op == 'db':
        p.database(e['n'], e['how'])
    elif op == 'reload':
        p.reload(e['n'], e['how'])
    else:
        p.make(op, e['cfg'])


def mc_rules(f, v):
    r = []
    for o in ('ubuntu', 'debian'):
        r += [dict(key='k', os=o, inst='fake', pkg=f + v + o + 'kf'),
              dict(key='k', os=o, inst='pip', pkg=f + v + o + 'kp')]
        if v == '1':
            r.append(dict(key='m', os=o, inst='pip', pkg=f + v + o + 'mp'))
    return r


def mc_world():
    def c(s, d, o, i, fr):
        return {'src': s, 'cdir': d, 'os': o, 'core': ['fake', 'pip'],
                'idir': i, 'from': fr}
    return dict(dirs=dict(a=['f', 'g'], b=['g']), keys=['k', 'm'], glob=1,
                cdirs=['c1', 'c2'], configs=[
        c('a', 'c1', 'ubuntu', 'i1', []),
        c('b', 'c2', 'debian', 'i2', [dict(inst='pip', keys=['k'])]),
        c('b', 'c1', 'ubuntu', 'i1', [dict(inst='fake', keys=['m'])])])


def random_rules(rng, f, keys, oses, fresh):
    r = []
    for k in keys:
        for o in oses:
            for i in ('fake', 'pip'):
                if rng.random() < 0.4:
                    r.append(dict(key=k, os=o, inst=i, pkg='%s%s%s%s%d' % (
                        f, o, k, i, next(fresh))))
    return r


def numbers():
    n = 0
    while True:
        n += 1
        yield n


def cfg_arg(rng, bad=0.06):
    if rng.random() < bad:
        return dict(BAD)
    k = rng.choice(['none', 'dict', 'parsed'])
    return dict(NONE) if k == 'none' else dict(kind=k, n=rng.randint(1, 3))


def ctx_arg(rng, have, bad=0.05):
    if rng.random() < bad:
        return dict(BAD)
    if have and rng.random() < 0.6:
        return dict(kind='given', n=rng.randint(1, len(have)))
    return dict(NONE)


def args(name, cfg, sctx=NONE, ictx=NONE, simulate=False):
    return dict(call=name, cfg=cfg, sctx=dict(sctx), ictx=dict(ictx),
                db=0, keys=['x'], all=False, simulate=simulate,
                again=False, go_on=False)


def random_call(rng, p, keys, most=3):
    name = rng.choice(['resolve', 'install', 'install', 'lookup', 'update'])
    if name == 'update':
        return args(name, cfg_arg(rng), ctx_arg(rng, p.sctxs, 0),
                    simulate=rng.random() < 0.3)
    api = name != 'lookup'
    a = args(name, cfg_arg(rng), ctx_arg(rng, p.sctxs, 0.05 * api),
             ctx_arg(rng, p.ictxs, 0.05 * api))
    if api:
        a['db'] = rng.randint(0, len(p.dbs))
        a['all'] = rng.random() < 0.3
        a['keys'] = [rng.choice(keys + ['unknown'] * (rng.random() < 0.2))
                     for _ in range(rng.randint(0 if a['all'] else 1, most))]
    else:
        a['keys'] = [rng.choice(keys + ['unknown'])]
    if name == 'install':
        a['simulate'] = rng.random() < 0.2
        a['again'] = rng.random() < 0.2
        a['go_on'] = rng.random() < 0.5
    return a


def random_process(ctx, rng):
    files = ['f', 'g', 'h'][:rng.randint(1, 3)]
    keys = sorted(rng.sample(['alpha', 'beta', 'gamma', 'delta', 'x'], 3))
    oses = rng.sample(sorted(OSES), 2)
    fresh = numbers()
    dirs = {s: rng.sample(files, rng.randint(1, len(files))) for s in 'abc'}
    cdirs = ['c1', 'c2']
    configs = []
    for _ in range(3):
        pinned = list(keys) + ['other']
        rng.shuffle(pinned)
        frm = [dict(inst=i, keys=[pinned.pop()
                                  for _ in range(rng.randint(1, 2))])
               for i in ('fake', 'pip') if rng.random() < 0.4]
        configs.append({
            'src': rng.choice(['default'] + list('abc') * 3),
            'cdir': rng.choice(['default'] + cdirs * 4),
            'os': rng.choice(oses), 'idir': rng.choice(['i1', 'i2']),
            'core': rng.sample(['fake', 'pip'], rng.randint(1, 2)),
            'from': frm})
    w = dict(dirs=dirs, keys=keys, cdirs=cdirs, configs=configs, glob=1)
    rules = {f: random_rules(rng, f, keys, oses, fresh) for f in files}
    w['rules'] = dict(rules)
    p = Process(ctx, rng, w, rules)

    def made():
        a = cfg_arg(rng, 0)
        return dict(a, kind='parsed') if a['kind'] == 'dict' else a

    def run():
        from xylem.config import set_config
        set_config(p.config(1))
        if rng.random() < 0.8:
            for n in (1, 2, 3):
                p.call(args('update', dict(kind='parsed', n=n)))
        for _ in range(rng.randint(5, 14)):
            x = rng.random()
            if x < 0.1:
                p.set_global(rng.randint(1, 3))
            elif x < 0.25:
                f = rng.choice(files)
                p.edit(f, random_rules(rng, f, keys, oses, fresh))
            elif x < 0.35 and len(p.sctxs) < 2:
                p.make('sctx', made())
            elif x < 0.45 and len(p.ictxs) < 2:
                p.make('ictx', made())
            elif x < 0.55 and p.sctxs and len(p.dbs) < 2:
                p.database(rng.randint(1, len(p.sctxs)),
                           rng.choice(['source', 'cache']))
            elif x < 0.66 and p.dbs:
                p.reload(rng.randint(1, len(p.dbs)),
                         rng.choice(['source', 'cache', 'update']))
            else:
                a = random_call(rng, p, keys)
                p.call(a)
                if a['db'] and rng.random() < 0.5:
                    again(a)

    def again(a):
        """The same call, when its database has other rules."""
        for f in files:
            if rng.random() < 0.7:
                p.edit(f, random_rules(rng, f, keys, oses, fresh))
        p.reload(a['db'], rng.choice(['source', 'update']))
        p.call(a)
    in_process(p, run)
    return p.trace()


def c40(ctx):
    """C40: API calls use exactly the configuration and contexts given."""
    rng = ctx.rng
    r = ctx.model_check('CallsMC', MC_CFG % ctx.pick(3, 4), workers=6)
    hists = sorted(r.emitted, key=lambda h: json.dumps(h, sort_keys=True))
    w = mc_world()
    old = {f: mc_rules(f, '1') for f in 'fg'}
    new = {f: mc_rules(f, '2') for f in 'fg'}
    ctx.count('enumerated histories', len(hists))
    traces = []
    for h in rng.sample(hists, min(len(hists), ctx.pick(300, 3000))):
        traces.append(replay(ctx, rng, w, old, h, new))
    for _ in range(ctx.pick(250, 3000)):
        traces.append(random_process(ctx, rng))
    ctx.count('histories', len(traces))
    ctx.count('calls', sum(e['op'] == 'call' for t in traces
                           for e in t['events']))
    ctx.count('databases loaded again', sum(
        e['op'] == 'reload' for t in traces for e in t['events']))
    for t in traces[::len(traces) // 4]:
        ctx.sample(t)
    ctx.validate('CallsTrace', traces, batch=500)
