"""C18-C21: configuration (spec/Config.tla, ConfigHeap.tla)."""
import argparse
import contextlib
import copy
import datetime
import io
import json
import os

import yaml

from harness.core import attempt, exc_obs

MC_CFG = '''INIT Init
NEXT Next
CONSTANT DoEmit=TRUE
INVARIANTS HighestWins KeyByKey AlwaysTyped RejectedIffBad Ignored Emit
'''
TOOL = 'wtool'


# -- values -------------------------------------------------------------------

def enc(v):
    """Like core.enc, but dictionaries are lists of key/value pairs."""
    if v is None:
        return ['n']
    if v is True or v is False:
        return ['b', v]
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', repr(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, list):
        return ['l', [enc(x) for x in v]]
    if isinstance(v, dict):
        return ['d', sorted([[enc(k), enc(x)] for k, x in v.items()],
                            key=json.dumps)]
    return ['o', type(v).__name__ + ':' + repr(v)]


def strings(e, out):
    """All strings anywhere in a JSON structure."""
    if isinstance(e, str):
        out.add(e)
    elif isinstance(e, (list, tuple)):
        for x in e:
            strings(x, out)
    elif isinstance(e, dict):
        for x in e.values():
            strings(x, out)
    return out


def env_for(*things):
    return dict(paths={s: s.split('/') for s in strings(things, {'x'})},
                home=os.environ['HOME'].strip('/').split('/'),
                cwd=os.getcwd().strip('/').split('/'))


def parse(text):
    try:
        return ['ok', enc(yaml.safe_load(text))]
    except (yaml.YAMLError, ValueError):
        return ['err']


def text_rec(t):
    return dict(s=t, y=parse(t), l=parse('[' + t + ']'),
                d=parse('{' + t + '}'))


# -- types ----------------------------------------------------------------------

SCALARS = (['any'], ['str'], ['bool'], ['path'])


def make_type(T):
    from xylem import config_utils as cu
    k = T[0]
    if k == 'list':
        return cu.List(make_type(T[1]))
    if k == 'dict':
        return cu.Dict(make_type(T[1]), make_type(T[2]))
    if k == 'mdict':
        return cu.MergingDict(make_type(T[1]), make_type(T[2]))
    return {'any': cu.Any, 'str': cu.String, 'bool': cu.Boolean,
            'path': cu.Path}[k]()


def random_type(rng, depth=2):
    if depth == 0 or rng.random() < 0.45:
        return rng.choice(SCALARS)
    k = rng.choice(['list', 'list', 'dict', 'mdict'])
    if k == 'list':
        return ['list', random_type(rng, depth - 1)]
    return [k, random_type(rng, depth - 1),
            rng.choice([['str'], ['str'], ['str'], ['any'], ['path']])]


# no two of them are the same path
STRS = ['', 'a', 'b', 'foo', 'null', 'yes', '1', '~', '~/x', '/abs/p',
        'rel/./q', '../up', 'a b', 'ünï', '/', './c', 'x:y', 'a//b/', 'k1',
        '~nosuchuser', '/a/../../b', 'no', '[x]', '/tmp',
        # (through symbolic links)
        '/proc/self/cwd/z', '/proc/self/root',
        # (not what they look like to a shell)
        '/v/$HOME', '/v/%41', '/v/[a]']


def random_value(rng, depth=3):
    r = rng.random()
    if r < 0.08:
        return None
    if depth == 0 or r < 0.6:
        return rng.choice([True, False, 0, 1, 2.5, rng.choice(STRS),
                           rng.choice(STRS), rng.choice(STRS)])
    if r < 0.8:
        return [random_value(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {random_key(rng): random_value(rng, depth - 1)
            for _ in range(rng.randrange(4))}


def random_key(rng):
    return rng.choice(STRS) if rng.random() < 0.93 else \
        rng.choice([1, None, True, 2.5])


def typed_value(rng, T, wrong=0.06):
    """A value that converts to T, except with some probability anywhere."""
    r = rng.random()
    if r < wrong:
        return random_value(rng)
    if r < wrong + 0.06:
        return None
    k = T[0]
    if k == 'any':
        return random_value(rng)
    if k in ('str', 'path'):
        return rng.choice(STRS)
    if k == 'bool':
        return rng.random() < 0.5
    n = rng.choice([0, 1, 1, 2, 3])
    if k == 'list':
        return [typed_value(rng, T[1], wrong) for _ in range(n)]
    names = rng.choice([STRS, ['a', 'b', 'k1']])
    return {(rng.choice(names) if rng.random() > wrong else random_key(rng)):
            typed_value(rng, T[1], wrong) for _ in range(n)}


def random_desc(rng, n=None, exposed=0.7):
    """A description: list of items for the specification."""
    desc, names = [], set()
    for i in range(n or rng.randint(1, 5)):
        group = rng.choice(['', '', '', 'g', 'h_h'])
        key = rng.choice(['x', 'y_z', 'k-1', 'foo', 'bar'])
        name = group + '/' + key if group else key
        arg = name.replace('_', '-').replace('/', '-')
        if name in names or arg in {d['arg'] for d in desc}:
            continue
        names.add(name)
        T = random_type(rng)
        d = None if rng.random() < 0.4 else typed_value(rng, T, 0)
        if T[0] == 'path' and d is not None:
            d = '/default/' + str(i)
        desc.append(dict(group=group, key=key, type=T, default=enc(d),
                         cl=rng.random() < exposed, arg=arg, py=d))
    return desc


def build(desc):
    from xylem.config_utils import ConfigDescription
    cd = ConfigDescription('config.yaml')
    for it in desc:
        cd.add(it['group'] + '/' + it['key'] if it['group'] else it['key'],
               type=make_type(it['type']), default=copy.deepcopy(it['py']),
               command_line=it['cl'])
    return cd


def public(desc):
    return [{k: v for k, v in it.items() if k not in ('py', 'arg')}
            for it in desc]


def got(kind, v):
    if kind == 'ok':
        return ['ok', enc(v)]
    if kind == 'exc':
        return ['err', exc_obs(v)['types']]
    return ['err', ['hang']]


def quiet(fn, *a, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        return attempt(fn, *a, **kw)


# -- sources of configuration -----------------------------------------------------

def random_data(rng, desc, wrong=0.05, drop=0.35):
    """Configuration data for (some) items of desc."""
    if rng.random() < wrong / 2:
        return random_value(rng)
    data = {}
    for it in desc:
        if rng.random() < drop:
            continue
        v = typed_value(rng, it['type'], wrong)
        if it['group']:
            g = data.setdefault(it['group'], {})
            if isinstance(g, dict):
                g[it['key']] = v
        else:
            data[it['key']] = v
    for it in desc:
        if it['group'] and rng.random() < wrong / 2:
            data[it['group']] = rng.choice([None, [], 'x', 0, {}])
    if rng.random() < 0.2:
        data[rng.choice(['unknown', 'zz/top', 'G'])] = random_value(rng)
    if rng.random() < wrong / 3:
        data[rng.choice([1, True, None])] = 'x'
    return data


def as_text(rng, v):
    """Some YAML text for a value."""
    style = rng.randrange(3)
    if style == 0:
        return yaml.safe_dump(v, default_flow_style=False, allow_unicode=True)
    if style == 1:
        return yaml.safe_dump(v, default_flow_style=True)
    return yaml.safe_dump(v, default_flow_style=None, default_style='"')


BAD = [b'a: [', b'x: "', b'\xff\xfe\x00', b'a: b: c', b'\t- x', b'%%%',
       b'foo: 2001-99-99', b'- a\n b', b'\xc3\x28', b'@x', b'a: *nix']


def random_file(rng, desc, wrong=0.05):
    """(bytes or None, what the specification is told)"""
    r = rng.random()
    if r < 0.2:
        return None, ['absent']
    if r < 0.2 + wrong:
        b = rng.choice(BAD)
        return b, ['bad']
    if r < 0.3 + wrong:
        return rng.choice([b'', b'# nothing\n', b'null', b'{}', b'---\n']), \
            ['absent']
    v = random_data(rng, desc, wrong)
    t = as_text(rng, v)
    p = parse(t)
    return t.encode('utf-8'), p if p[0] == 'ok' else ['bad']


def random_text(rng, T, wrong):
    r = rng.random()
    v = typed_value(rng, T, wrong)
    if r < 0.1:
        return rng.choice(['', 'null', '~', '[', '{', 'a: 1', 'a, b', '- x',
                           'a: b, c: [d]', '2001-99-99', 'x', '[1', ' ',
                           '"', 'a: [b', '{a: b', 'yes', 'off', '1',
                           '[a], b', '#', 'k: v, k: w'])
    if T[0] in ('str', 'path') and isinstance(v, str):
        return v
    t = json.dumps(v, ensure_ascii=False) if rng.random() < 0.5 else \
        yaml.safe_dump(v, default_flow_style=True, width=10**6,
                       allow_unicode=True).replace('\n...', '').strip()
    if t[:1] in '[{' and t[-1:] in ']}' and rng.random() < 0.5:
        t = t[1:-1]
    return t


def random_args(rng, desc, wrong=0.05, drop=0.5):
    """(argv, texts given for every item)"""
    argv, given = [], []
    for it in desc:
        texts = []
        if it['cl']:
            while rng.random() > drop and len(texts) < 3:
                texts.append(random_text(rng, it['type'], wrong))
        given.append(texts)
        for t in texts:
            if t.startswith('-') or rng.random() < 0.5:
                argv.append(['--%s=%s' % (it['arg'], t)])
            else:
                argv.append(['--' + it['arg'], t])
    # different arguments may come in any order
    order = [(it['arg'], a) for it in desc for a in argv
             if a[0].split('=')[0] == '--' + it['arg']]
    names = [n for n, _ in order]
    rng.shuffle(names)
    queues = {}
    for n, a in order:
        queues.setdefault(n, []).append(a)
    flat = [w for n in names for w in queues[n].pop(0)]
    return flat, [[text_rec(t) for t in ts] for ts in given]


class Place(object):
    """Configuration files below a scratch directory."""

    def __init__(self, ctx):
        from xylem import config_utils as cu
        self.root = ctx.tmp()
        self.home = os.environ['HOME']
        self.prefix = os.path.join(self.root, 'prefix')
        self.dir = os.path.join(self.root, 'dir')
        self.decoy = os.path.join(self.root, 'decoy')
        for tool in (TOOL, 'xylem'):
            for p in ('', os.path.join('etc', tool)):
                d = os.path.join(self.decoy, p)
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, 'config.yaml'), 'w') as f:
                    f.write('- not a configuration')
        self.cu = cu

    def path(self, which, tool):
        return os.path.join({
            'dir': self.dir,
            'system': os.path.join(self.prefix, 'etc', tool),
            'user': os.path.join(self.home, '.config', tool)}[which],
            'config.yaml')

    def put(self, which, data, tool=TOOL, gone=False):
        p = self.path(which, tool)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.isdir(p):
            os.rmdir(p)
        if data is None:
            if os.path.exists(p):
                os.remove(p)
            if gone and not os.listdir(os.path.dirname(p)):
                # not even the directory is there
                os.rmdir(os.path.dirname(p))
        else:
            with open(p, 'wb') as f:
                f.write(data)

    def argv(self, which, rng):
        # the command line takes precedence over the environment
        e = os.environ
        self.clear_env()
        a = ['--prefix', self.prefix]
        r = rng.random()
        if r < 0.2:
            e[self.tool.upper() + '_PREFIX'] = self.decoy
        elif r < 0.4:
            a = []
            e[self.tool.upper() + '_PREFIX'] = self.prefix
        if which == 'dir':
            r = rng.random()
            if r < 0.3:
                e[self.tool.upper() + '_DIR'] = self.dir
            else:
                a += ['--%s-dir' % self.tool, self.dir]
                if r < 0.6:
                    e[self.tool.upper() + '_DIR'] = self.decoy
            if rng.random() < 0.3:
                a += ['--no-user-config']
        elif which == 'system':
            a += ['--no-user-config']
        return a

    tool = TOOL

    def load(self, cd, argv, tool=TOOL):
        cu = self.cu

        def run():
            parser = argparse.ArgumentParser()
            cd.add_arguments(parser)
            cu.add_global_config_arguments(
                parser.add_argument_group('global'), tool)
            args = parser.parse_args(argv)
            cu.handle_global_config_arguments(args, tool)
            return cu.load_config(args, cd, tool)
        try:
            return quiet(run)
        finally:
            self.clear_env()

    @staticmethod
    def clear_env():
        for tool in (TOOL, 'xylem'):
            for k in ('_PREFIX', '_DIR'):
                os.environ.pop(tool.upper() + k, None)


XYLEM_DESC = [
    ('os_override', ['str'], None, 'os'),
    ('os_options/features', ['list', ['str']], None, 'os-features'),
    ('core_installers', ['list', ['str']], None, 'core-installers'),
    ('use_additional_installers', ['bool'], True,
     'use-additional-installers'),
    ('install_from', ['mdict', ['list', ['str']], ['str']], None,
     'install-from'),
    ('installer_options', ['mdict', ['dict', ['any'], ['str']], ['str']],
     None, 'installer-options'),
    ('user_sources', ['bool'], False, 'user-sources'),
    ('cache_dir', ['path'], None, 'cache-dir'),
    ('sources_dir', ['path'], None, 'sources-dir'),
    ('disabled_plugins/os', ['list', ['str']], [], 'disable-os-plugins'),
    ('disabled_plugins/installer', ['list', ['str']], [],
     'disable-installer-plugins'),
    ('disabled_plugins/spec', ['list', ['str']], [],
     'disable-spec-plugins'),
]


def xylem_desc():
    res = []
    for name, T, d, arg in XYLEM_DESC:
        group, _, key = name.rpartition('/')
        res.append(dict(group=group, key=key, type=T, default=enc(d), cl=True,
                        arg=arg, py=d))
    return res


# -- C18 ---------------------------------------------------------------------------

def load_case(rng, place, desc, cd, argv, given, files, which, tool=TOOL):
    """files: which -> (bytes, told)"""
    for w in ('dir', 'system', 'user'):
        place.put(w, files[w][0], tool, rng.random() < 0.5)
    kind, v = place.load(cd, place.argv(which, rng) + argv, tool)
    told = {w: files[w][1] for w in files}
    return dict(op='load', desc=public(desc), given=given, files=told,
                which=which, got=got(kind, v), argv=argv,
                env=env_for(public(desc), given, told))


def mc_item(kind):
    """The item of ConfigMC."""
    T, d, g, cl = {
        'str': (['str'], 'd', '', True),
        'bool': (['bool'], True, '', True),
        'list': (['list', ['str']], ['d'], 'g', True),
        'mdict': (['mdict', ['any'], ['str']], {'k': 'd'}, '', True),
        'nodef': (['bool'], None, 'g', False)}[kind]
    return dict(group=g, key='x', type=T, default=enc(d), py=d, cl=cl,
                arg=(g + '-' if g else '') + 'x')


def dec(e):
    t = e[0]
    if t == 'n':
        return None
    if t == 'i':
        return int(e[1])
    if t == 'f':
        return float(e[1])
    if t == 'l':
        return [dec(x) for x in e[1]]
    if t == 'd':
        return {dec(k): dec(x) for k, x in e[1]}
    return e[1]


def c18(ctx):
    rng = ctx.rng
    r = ctx.model_check('ConfigMC', MC_CFG, workers=4)
    cases = r.emitted
    cases.sort(key=repr)
    n = ctx.pick(500, len(cases))
    if len(cases) > n:
        cases = rng.sample(cases, n)
    place = Place(ctx)
    recs = []
    other = dict(group='g', key='o', type=['str'], default=enc(None),
                 py=None, cl=True, arg='g-o')
    for c in cases:
        desc = [mc_item(c['kind']), other]
        cd = build(desc)
        texts = [[], []]
        if c['cl'] and desc[0]['cl']:
            texts[0] = [{'str': 'c', 'bool': 'no', 'list': 'c',
                         'mdict': 'k: c'}[c['kind']]]
        if c['other']:
            texts[1] = ['o']
        argv = ['--%s=%s' % (it['arg'], t) for it, ts in zip(desc, texts)
                for t in ts]
        files = {}
        for w, f in c['files'].items():
            files[w] = {'absent': lambda f: (None, ['absent']),
                        'bad': lambda f: (b'a: [', ['bad']),
                        'ok': lambda f: (as_text(rng, dec(f[1])).encode(), f)
                        }[f[0]](f)
        recs.append(load_case(rng, place, desc, cd, argv,
                              [[text_rec(t) for t in ts] for ts in texts],
                              files, c['which']))
    ctx.count('enumerated layers replayed', len(recs))
    m = ctx.pick(500, 8000)
    for _ in range(m):
        desc = random_desc(rng)
        cd = build(desc)
        wrong = rng.choice([0, 0, 0, 0.02, 0.08])
        argv, given = random_args(rng, desc, wrong)
        files = {w: random_file(rng, desc, wrong)
                 for w in ('dir', 'system', 'user')}
        recs.append(load_case(rng, place, desc, cd, argv, given, files,
                              rng.choice(['dir', 'system', 'both', 'both'])))
    ctx.count('random layers', m)
    recs += real_layers(ctx, rng, place)
    recs += around_command(ctx, rng, place)
    for rec in recs[::len(recs) // 4]:
        ctx.sample(rec)
    ctx.judge('ConfigJudge', recs, batch=1500)


def real_layers(ctx, rng, place):
    """The real description of xylem."""
    from xylem.config import get_config_description
    desc = xylem_desc()
    cd = get_config_description()
    recs = []
    place.tool = 'xylem'
    for _ in range(ctx.pick(150, 2500)):
        wrong = rng.choice([0, 0, 0.03])
        argv, given = random_args(rng, desc, wrong, drop=0.75)
        files = {}
        for w in ('dir', 'system', 'user'):
            files[w] = random_file(rng, desc, wrong)
        recs.append(load_case(rng, place, desc, cd, argv, given, files,
                              rng.choice(['dir', 'system', 'both', 'both']),
                              'xylem'))
    for w in ('dir', 'system', 'user'):
        place.put(w, None, 'xylem')
    place.tool = TOOL
    ctx.count('layers of the xylem configuration', len(recs))
    return recs


def printed(argv):
    from xylem.commands.main import main
    from xylem import log_utils
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        kind, v = attempt(main, argv)
    for f in ('disable_verbose', 'disable_debug'):
        if hasattr(log_utils, f):
            getattr(log_utils, f)()
    code = v.code if kind == 'exc' and isinstance(v, SystemExit) else kind
    return [str(code), out.getvalue()]


def around_command(ctx, rng, place):
    """Options before and after the command name."""
    desc = xylem_desc()
    recs = []
    n = ctx.pick(24, 300)
    commands = [['resolve', 'k'], ['install', 'k'], ['lookup', 'k'],
                ['update']]
    for k in range(n):
        place.put('system', as_text(rng, random_data(rng, desc, 0)).encode(),
                  'xylem')
        place.put('user', as_text(rng, {'user_sources': True,
                                        'core_installers': ['u']}).encode(),
                  'xylem')
        place.put('dir', as_text(rng, {'core_installers': ['d'],
                                       'os_override': 'ubuntu:trusty'}
                                 ).encode(), 'xylem')
        argv, _ = random_args(rng, desc, 0, drop=0.7)
        if any(a.startswith('--os') for a in argv):
            argv = [a for a in argv if not a.startswith('--os=')]
        place.tool = 'xylem'
        glob = place.argv(rng.choice(['dir', 'system', 'both']), rng)
        place.tool = TOOL
        if rng.random() < 0.3:
            glob = glob[2:]
        opts = ['--no-color', '--print-config'] + glob
        cmd = rng.choice(commands)
        if k % 2:
            opts += argv
            res = [printed(opts + cmd), printed(cmd[:1] + opts + cmd[1:]),
                   printed(cmd + opts)]
        else:
            # part of it before, part after (different options)
            res = [printed(opts + argv + cmd), printed(opts + cmd + argv),
                   printed(argv + cmd + opts)]
        for x in res[1:]:
            recs.append(dict(op='same', a=res[0], b=x,
                             what='options before and after the command name '
                             'differ', argv=[opts, argv, cmd]))
    place.clear_env()
    for w in ('dir', 'system', 'user'):
        place.put(w, None, 'xylem')
    ctx.count('placements of options', len(recs))
    return recs


# -- C19 ---------------------------------------------------------------------------

def c19(ctx):
    from xylem import config_utils as cu
    rng = ctx.rng
    ctx.model_check('ConfigMC', MC_CFG.replace('=TRUE', '=FALSE'), workers=4)
    recs = []
    place = Place(ctx)
    types = list(SCALARS) + [['list', t] for t in SCALARS] + \
        [[k, t, ['str']] for t in SCALARS for k in ('dict', 'mdict')] + \
        [['list', ['list', ['bool']]], ['dict', ['list', ['str']], ['str']],
         ['mdict', ['dict', ['any'], ['str']], ['str']],
         ['list', ['mdict', ['str'], ['str']]], ['dict', ['str'], ['any']],
         ['dict', ['path'], ['str']], ['mdict', ['list', ['path']], ['any']],
         ['dict', ['any'], ['path']], ['mdict', ['bool'], ['path']],
         ['dict', ['str'], ['bool']]]
    basics = [None, True, False, 0, 1, 1.5, '', 'x', '~', '~/y', 'r/../s',
              '/a/b/', [], ['x'], [None], [True], [1], [['x']], [[]], [{}],
              {}, {'k': 'x'}, {'k': None}, {'k': True}, {'k': 1},
              {'k': ['x', '~']}, {'k': {'j': 'x'}}, {1: 'x'}, {None: 'x'},
              {True: False}, [{'k': 'v'}], [{'k': 1}], {'k': [1]},
              {'k': {1: 2}}, {'~/k': 1, 'a/../b': 'x', './c': None}, 10**30, float('inf'),
              {'x'}, ('x',), b'x', datetime.date(2001, 1, 1), [{'x'}],
              {'k': {'x'}}, {'k': ('x',)}]

    def case(T, group=False):
        return dict(group='g' if group else '', key='x', type=T,
                    default=enc(None), py=None, cl=True,
                    arg='g-x' if group else 'x')

    def data_case(desc, cd, data, defaults=False):
        before = copy.deepcopy(data)
        kind, v = attempt(cu.config_from_parsed_yaml, data, cd, defaults)
        rec = dict(op='data', desc=public(desc), data=enc(before),
                   defaults=defaults, got=got(kind, v))
        rec['env'] = env_for(rec['desc'], rec['data'])
        recs.append(rec)

    def file_case(desc, cd, content, told):
        place.put('dir', content)
        kind, v = attempt(cu.config_from_file, place.path('dir', TOOL), cd)
        rec = dict(op='file', desc=public(desc), file=told, got=got(kind, v))
        rec['env'] = env_for(rec['desc'], told)
        recs.append(rec)

    def args_case(desc, cd, texts):
        argv = ['--%s=%s' % (it['arg'], t) for it, ts in zip(desc, texts)
                for t in ts]

        def run():
            p = argparse.ArgumentParser()
            cd.add_arguments(p)
            return cu.config_from_args(p.parse_args(argv), cd)
        kind, v = quiet(run)
        given = [[text_rec(t) for t in ts] for ts in texts]
        rec = dict(op='args', desc=public(desc), given=given,
                   got=got(kind, v))
        rec['env'] = env_for(rec['desc'], given)
        recs.append(rec)

    # every basic value for every type, by every way
    tsel = types if ctx.thorough else rng.sample(types, 14)
    for T in tsel:
        desc = [case(T, rng.random() < 0.3)]
        cd = build(desc)
        for v in basics:
            data = {'g': {'x': v}} if desc[0]['group'] else {'x': v}
            data_case(desc, cd, data)
    texts = ['', 'null', 'x', 'yes', 'No', '1', '[]', '{}', '[x]', 'x, y',
             '[x], [y]', 'a: b', '{a: b}', 'a: b, c: d', 'a: {b: c}',
             '[a: b]', '~/z', '- x', '[', '{', '"q"', "'", 'a: [x, y]',
             '1: 2', '? x', '2001-99-99', '2001-01-01', '!!python/none x',
             '&a x', '*a', '#c', 'x #c', '[null]', 'a:', 'a: , b:',
             ' x ', '\n', 'x\ny', '[x]\n', '0x_', '{[a]: b}', ',',
             '!!set {a}', '!!binary aGk=', '!!omap [a: b]', '!!pairs [a: b]',
             '[!!set {a}]', 'a: !!set {b}', '!!str 1', '!!bool yes']
    for T in tsel:
        desc = [case(T)]
        cd = build(desc)
        for t in texts:
            args_case(desc, cd, [[t]])
        for _ in range(ctx.pick(8, 60)):
            args_case(desc, cd, [[rng.choice(texts)
                                  for _ in range(rng.randint(2, 3))]])
    for _ in range(ctx.pick(300, 5000)):
        desc = random_desc(rng, rng.randint(1, 3), exposed=1)
        cd = build(desc)
        wrong = rng.choice([0, 0.05, 0.2])
        _, given = random_args(rng, desc, wrong, drop=0.4)
        args_case(desc, cd, [[x['s'] for x in g] for g in given])
        data_case(desc, cd, random_data_dict(rng, desc, wrong),
                  rng.random() < 0.5)
        b, told = random_file(rng, desc, wrong + 0.03)
        file_case(desc, cd, b, told)
    # values checked and merged from within a program
    pool = basics + [[True, 1], [None, 1], ['x', None, 2], [None, None],
                     {'k': None, 'j': 1}, {None: None}, {1: 2, 'k': 'x'},
                     [[None], [1]], [['x'], 'x'], {'k': [None, 1]},
                     [{}, None], [{'k': 1}, {}]]
    for T in types:
        t = make_type(T)
        for v in pool + [random_value(rng) for _ in range(ctx.pick(5, 60))] + \
                [typed_value(rng, T, 0.1) for _ in range(ctx.pick(10, 100))]:
            before = enc(v)
            kind, g = attempt(t.verify, v)
            recs.append(dict(op='verify', type=T, value=before, after=enc(v),
                             got=got(kind, g), env=env_for()))
        good = [v for v in (typed_value(rng, T, 0) for _ in range(9))]
        good = [x for x in (attempt(t.from_yaml, v) for v in good)
                if x[0] == 'ok']
        for _ in range(ctx.pick(12, 120) if good else 0):
            a, b = rng.choice(good)[1], rng.choice(good)[1]
            told = [enc(a), enc(b)]
            kind, g = attempt(t.merge, a, b)
            recs.append(dict(op='merge', type=T, top=told[0], bottom=told[1],
                             after=[enc(a), enc(b)], got=got(kind, g),
                             env=env_for()))
    # files that are not what they should be
    desc = [case(['any']), dict(case(['str']), key='y', arg='y')]
    cd = build(desc)
    for b in BAD:
        file_case(desc, cd, b, ['bad'])
    for t in ('x: 1', '- x', 'x', '1', '[]', '{1: 2}', 'x: 1\n2: 3',
              'null: x', 'true: x', 'x: {1: 2}', '"": x', 'x: 1\nx: 2',
              'no: 1', '? [a]\n: b', '2001-01-01: x'):
        file_case(desc, cd, t.encode(), parse(t) if parse(t)[0] == 'ok'
                  else ['bad'])
    ctx.count('conversions', len(recs))
    for rec in recs[::len(recs) // 4]:
        ctx.sample(rec)
    ctx.judge('ConfigJudge', recs, batch=2500)


def random_data_dict(rng, desc, wrong):
    """Like random_data, but always a dictionary (as the API requires)."""
    while True:
        d = random_data(rng, desc, wrong)
        if isinstance(d, dict) and all(isinstance(k, str) for k in d):
            return d


# -- C21 ---------------------------------------------------------------------------

def c21(ctx):
    from xylem import config as xc
    from xylem import arguments
    rng = ctx.rng
    ctx.model_check('DirsMC', 'INIT Init\nNEXT Next\nINVARIANTS '
                    'ExplicitWins Independent Absolute CommandLineFirst '
                    'DirBeatsUser\n', workers=4)
    home = os.environ['HOME']
    root = ctx.tmp()
    cwd = os.path.join(root, 'w', 'd')
    os.makedirs(cwd)
    os.chdir(cwd)
    confdir = os.path.join(root, 'conf')
    os.makedirs(confdir)
    usercfg = os.path.join(home, '.config', 'xylem', 'config.yaml')
    os.makedirs(os.path.dirname(usercfg), exist_ok=True)
    PATHS = [confdir, os.path.join(root, 'p'), 'rel', './rel/../r2', '~',
             '~/sub', '..', '.', root + '/p/../q/', root + '//x', '../../up',
             '/nonexistent-xylem', root + '/$HOME/x', '$PATH', '/a/${HOME}',
             '/a/%HOME%']

    def path():
        return rng.choice(PATHS)
    recs = []

    def comps(p):
        return p.split('/') if p else []

    def one(a, setp, how, parse_main):
        files = {}
        argv = []
        if a['prefix_cl']:
            argv += ['--prefix', a['prefix_cl']]
        if a['dir_cl']:
            argv += ['--xylem-dir=' + a['dir_cl']]
        for k, o in (('cache', 'cache_dir'), ('sources', 'sources_dir'),
                     ('user', 'user_sources')):
            if setp[k]:
                if how[k] == 'cl':
                    argv.append('--%s=%s' % (o.replace('_', '-'), setp[k]
                                             if k != 'user' else 'yes'))
                else:
                    files[o] = setp[k]
            elif k == 'user' and how[k] == 'no':
                argv.append('--user-sources=no')
        effdir = a['dir_cl'] or a['dir_env']
        target = usercfg
        if effdir:
            target = os.path.join(os.path.abspath(
                os.path.expanduser(effdir)), 'config.yaml')
            if not target.startswith(root):
                target = None
        if files and target is None:
            return
        if files:
            os.makedirs(os.path.dirname(target), exist_ok=True)
            with open(target, 'w') as f:
                yaml.safe_dump(files, f)
        for k, v in (('XYLEM_PREFIX', a['prefix_env']),
                     ('XYLEM_DIR', a['dir_env'])):
            os.environ.pop(k, None)
            if v:
                os.environ[k] = v
        rng.shuffle(argv)
        argv = [w for w in argv]
        # keep option/value pairs together
        if a['prefix_cl']:
            argv = [w for w in argv
                    if w not in ('--prefix', a['prefix_cl'])] + \
                ['--prefix', a['prefix_cl']]
        saved = xc.get_config()

        def run():
            p = argparse.ArgumentParser(add_help=False)
            xc.add_config_arguments(p)
            arguments.add_global_arguments(p)
            args = p.parse_args(argv)
            arguments.handle_global_arguments(args)
            xc.handle_config_arguments(args)
            return xc.get_config()
        try:
            kind, v = quiet(run)
        finally:
            xc.set_config(saved)
            for k in ('XYLEM_PREFIX', 'XYLEM_DIR'):
                os.environ.pop(k, None)
            if files:
                os.remove(target)
        g = dict(cache=str(v.cache_dir), sources=str(v.sources_dir)) \
            if kind == 'ok' else dict(cache=kind, sources=repr(v))
        recs.append(dict(
            op='dirs', a={k: comps(x) for k, x in a.items()},
            set=dict(cache=comps(setp['cache']),
                     sources=comps(setp['sources']), user=bool(setp['user'])),
            home=home.strip('/').split('/'), cwd=cwd.strip('/').split('/'),
            got=g, argv=argv, files=files))

    # every combination of what is given, with random paths
    import itertools
    for bits in itertools.product((0, 1), repeat=7):
        for _ in range(ctx.pick(3, 40)):
            a = {k: path() if b else '' for k, b in zip(
                ('prefix_cl', 'prefix_env', 'dir_cl', 'dir_env'), bits)}
            setp = dict(cache=path() if bits[4] else '',
                        sources=path() if bits[5] else '', user=bits[6] == 1)
            how = {k: rng.choice(['cl', 'file', 'no'])
                   for k in ('cache', 'sources', 'user')}
            one(a, setp, how, False)
    os.chdir(ctx.scratch)
    ctx.count('derived directories', len(recs))
    for rec in recs[::len(recs) // 4]:
        ctx.sample(rec)
    ctx.judge('ConfigJudge', recs, batch=3000)


# -- C20 ---------------------------------------------------------------------------

def attrs(v):
    """A configuration as seen through attributes."""
    from xylem.config_utils import ConfigDict
    if not isinstance(v, ConfigDict):
        return enc(v)
    res = []
    for k in vars(v):
        x = getattr(v, k) if isinstance(k, str) else v[k]
        res.append([enc(k), attrs(x)])
    return ['d', sorted(res, key=json.dumps)]


def mutables(v, path=()):
    """Paths to the lists and dictionaries below an item."""
    if isinstance(v, list):
        yield path
        for i, x in enumerate(v):
            for p in mutables(x, path + (i,)):
                yield p
    elif isinstance(v, dict):
        yield path
        for k, x in v.items():
            for p in mutables(x, path + (k,)):
                yield p


def history(ctx, rng, steps):
    """A history of configurations for one description."""
    from xylem import config_utils as cu
    desc = random_desc(rng, rng.randint(2, 4), exposed=0)
    if rng.random() < 0.8:   # something mutable with a default
        for k, (T, d) in enumerate((
                (['list', ['str']], ['m', 'n']),
                (['mdict', ['any'], ['str']], {'m': ['n'], 'o': {'p': 'q'}}),
                (['any'], {'deep': [{'er': ['x']}]}))):
            if rng.random() < 0.6:
                desc.append(dict(group=rng.choice(['', 'g2']),
                                 key='m%d' % k, type=T, default=enc(d), py=d,
                                 cl=False, arg='m%d' % k))
    cd = build(desc)
    objs, events = [], []

    def observe(ev):
        ev['all'] = [enc(o) for o in objs]
        ev['attrs'] = [attrs(o) for o in objs]
        ev['defaults'] = [enc(it.default) for it in cd.itemlist]
        events.append(ev)

    for _ in range(steps):
        op = rng.choice(['defaults', 'data', 'data', 'merge', 'merge',
                         'withdef', 'mutate', 'mutate', 'mutate', 'todict',
                         'coerce', 'setattr'])
        if op == 'defaults':
            objs.append(cu.config_from_defaults(cd))
            observe(dict(op=op))
        elif op == 'data':
            data = random_data_dict(rng, desc, 0)
            use = rng.random() < 0.5
            told = enc(data)
            objs.append(cu.config_from_parsed_yaml(data, cd, use))
            observe(dict(op=op, data=told, use=use, after=enc(data)))
        elif op == 'merge' and objs:
            ids = [i for i in range(len(objs))
                   if isinstance(objs[i], cu.ConfigDict)]
            ids = [rng.choice(ids) for _ in range(rng.randint(1, 3))]
            objs.append(cu.merge_configs(cd, *[objs[i] for i in ids]))
            observe(dict(op=op, ids=[i + 1 for i in ids]))
        elif op == 'withdef' and objs:
            i = rng.randrange(len(objs))
            if not isinstance(objs[i], cu.ConfigDict):
                continue
            objs.append(cu.merge_with_defaults(cd, objs[i]))
            observe(dict(op=op, id=i + 1))
        elif op == 'todict' and objs:
            i = rng.randrange(len(objs))
            if not isinstance(objs[i], cu.ConfigDict):
                continue
            d = cu.copy_to_dict(objs[i])
            if isinstance(d, cu.ConfigDict) or any(
                    isinstance(x, cu.ConfigDict) for x in d.values()):
                events.append(dict(op='not a plain dictionary'))
                return dict(events=events, desc=public(desc))
            objs.append(d)
            observe(dict(op=op, id=i + 1))
        elif op == 'coerce' and objs:
            i = rng.randrange(len(objs))
            cp = rng.random() < 0.5
            c = cu.ceorce_config_dict(objs[i], copy=cp)
            objs.append(c)
            observe(dict(op=op, id=i + 1, copy=cp))
        elif op == 'setattr' and objs:
            i = rng.randrange(len(objs))
            o = objs[i]
            it = rng.choice(desc)
            if not isinstance(o, cu.ConfigDict):
                continue
            new = 'set%d' % rng.randrange(9)
            if it['type'][0] == 'mdict':   # merging needs dictionaries
                new = {new: ['x']}
            tgt = o[it['group']] if it['group'] else o
            setattr(tgt, it['key'], new)
            observe(dict(op='set', id=i + 1, group=it['group'],
                         key=it['key'], to=enc(new), deep=False))
        elif op == 'mutate' and objs:
            i = rng.randrange(len(objs))
            o = objs[i]
            it = rng.choice(desc)
            tgt = o[it['group']] if it['group'] else o
            deep = False
            if rng.random() < 0.3:
                new = {'a': 'b'} if it['type'][0] == 'mdict' else \
                    [['set'], {'a': 'b'}, 'x', None][rng.randrange(4)]
                tgt[it['key']] = new
            else:
                paths = list(mutables(tgt[it['key']]))
                if not paths:
                    continue
                v = tgt[it['key']]
                for p in rng.choice(paths):
                    deep = deep or isinstance(v, list)
                    v = v[p]
                deep = deep or isinstance(v, list)
                if isinstance(v, list):
                    rng.choice([lambda: v.append('extra'), lambda: v.clear(),
                                lambda: v.insert(0, 'first')])()
                else:
                    rng.choice([lambda: v.__setitem__('extra', 1),
                                lambda: v.clear()])()
                new = tgt[it['key']]
            observe(dict(op='set', id=i + 1, group=it['group'],
                         key=it['key'], to=enc(new), deep=deep))
    for ev in events:
        ev['env'] = env_for(public(desc), ev)
    return dict(events=events, desc=public(desc))


def c20(ctx):
    rng = ctx.rng
    ctx.model_check('ConfigHeapMC', 'INIT Init\nNEXT Next\nINVARIANTS '
                    'DefaultsConstant FreshDefaults Sharing Independent\n',
                    workers=4)
    hist = []
    for _ in range(ctx.pick(220, 3000)):
        h = history(ctx, rng, rng.randint(4, 10))
        if h['events']:
            hist.append(h)
    ctx.count('histories', len(hist))
    for h in hist[::len(hist) // 3]:
        ctx.sample(h)
    ctx.validate('ConfigHeapTrace', hist, batch=300)
    recs = real_defaults(ctx, rng)
    ctx.judge('ConfigJudge', recs)


def real_defaults(ctx, rng):
    """The configuration of xylem itself and the API taking dictionaries."""
    from xylem import config as xc
    recs = []

    def snap():
        return [enc(xc.get_default_config()),
                [enc(i.default) for i in xc.get_config_description().itemlist]]
    base = snap()
    desc = xylem_desc()
    for _ in range(ctx.pick(60, 600)):
        data = random_data_dict(rng, desc, 0)
        data.pop('os_override', None)
        told = enc(data)
        cfg = xc.ensure_config(data) if rng.random() < 0.7 \
            else xc.get_default_config()
        recs.append(dict(op='same', a=told, b=enc(data),
                         what='a configuration dictionary was modified'))
        recs.append(dict(op='same', a=enc(cfg), b=attrs(cfg),
                         what='attributes differ from entries'))
        recs.append(dict(op='same', a=['is'], b=['is' if xc.ensure_config(cfg)
                                                 is cfg else 'another'],
                         what='a configuration is not passed through'))
        for it in desc:
            v = cfg[it['group']][it['key']] if it['group'] else cfg[it['key']]
            for p in list(mutables(v))[:3]:
                x = v
                for s in p:
                    x = x[s]
                if isinstance(x, list):
                    x.append('extra')
                else:
                    x['extra'] = 1
                break
        recs.append(dict(op='same', a=base, b=snap(),
                         what='declared defaults were changed'))
    return recs
