"""C10: the sources directory (spec/Sources.tla)."""
import contextlib
import io
import json
import os
import shutil
import subprocess
import sys

import yaml

from harness import world
from harness.core import REPO, attempt, dec, enc

MC_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxFiles=%d DoEmit=%s
INVARIANTS Ordered Only Nothing Unique Faithful Emit
'''

TYPES = ('n', 'b', 'i', 'f', 's', 'l', 'd', 'o')


def kinds():
    """name -> spec plugin, and what the specification needs to know."""
    from xylem.specs.plugins.rules import RulesSpec

    def make(kname, takes):
        class S(RulesSpec):
            name = property(lambda self: kname)

            def unique_id(self, arguments):
                return arguments if isinstance(arguments, str) \
                    else json.dumps(arguments, sort_keys=True)

            def verify_arguments(self, arguments):
                if enc(arguments)[0] not in takes:
                    raise ValueError('invalid arguments')
        return S()
    plugins = [make('mem', 's'), make('dic', 'sd'), make('any', TYPES),
               RulesSpec()]
    info = {k: {'takes': {t: t in ts for t in TYPES}} for k, ts in (
        ('mem', 's'), ('dic', 'sd'), ('any', TYPES), ('rules', 's'))}
    return plugins, info


def codes(name):
    return [ord(c) for c in name]


def name_of(cs):
    return ''.join(chr(c) for c in cs)


def text_of(rng, content):
    if content[0] == 'bad':
        return rng.choice(['a: [', '- mem: "x', '- x\n y: 1\n- [', '%%%',
                           '- mem: x\n  - y\n', '\t- mem: x', '{', '- @x'])
    value = dec(content[1])
    style = rng.randrange(3)
    if style == 0:
        return json.dumps(value, ensure_ascii=rng.random() < 0.5)
    return yaml.safe_dump(value, default_flow_style=style == 1,
                          allow_unicode=True)


def bytes_of(rng, text):
    """The text as UTF-8, sometimes with a comment in another encoding."""
    data = text.encode('utf-8')
    if rng.random() < 0.1 and not text.startswith('%'):
        data = rng.choice([b'# Quellen f\xfcr Z\xfcrich\n', b'# \xff\xfe\n',
                           b'\xef\xbb\xbf', '# é ☃\n'.encode()]) + data
    return data


SAME_TIME = 1400000000


def alike(data):
    """The same content with a comment up to a common size."""
    return data + b'\n' + b'#' * max(0, 1500 - len(data)) + b'\n'


def make_dir(rng, files, d, sd, same=False):
    os.makedirs(sd)
    for f in files:
        p = os.path.join(sd, name_of(f['name']))
        if f['type'] in ('file', 'link'):
            data = bytes_of(rng, text_of(rng, f['content']))
            if f['type'] == 'link':
                os.makedirs(os.path.join(d, 'linked'), exist_ok=True)
                target = os.path.join(d, 'linked', '.%d' % len(
                    os.listdir(os.path.join(d, 'linked'))))
                os.symlink(os.path.relpath(target, sd)
                           if rng.random() < 0.5 else target, p)
                twins = [g for g in files if g['type'] == 'file' and
                         g['content'] == f['content']]
                if twins and rng.random() < 0.7:
                    # another name for a file of this directory
                    os.remove(p)
                    t = name_of(rng.choice(twins)['name'])
                    os.symlink(t if rng.random() < 0.5
                               else os.path.join(sd, t), p)
                    continue
                p = target
            with open(p, 'wb') as fh:
                fh.write(alike(data) if same else data)
            if same:
                os.utime(p, (SAME_TIME, SAME_TIME))
        elif f['type'] == 'dir':
            os.mkdir(p)
            if rng.random() < 0.5:
                with open(os.path.join(p, '0.yaml'), 'w') as fh:
                    fh.write('- mem: nested')
        elif f['type'] == 'dirlink':
            os.makedirs(os.path.join(d, 'target'), exist_ok=True)
            os.symlink(os.path.join(d, 'target'), p)
        else:
            os.symlink(os.path.join(d, 'nowhere'), p)


def observe(ctx, rng, files, plugins, exists=True, sub='s'):
    d = ctx.tmp()
    sd = os.path.join(d, sub)
    if exists:
        same = rng.random() < 0.25
        if same:
            # a directory that was there before, with other files
            d = os.path.join(ctx.scratch, 'again')
            sd = os.path.join(d, 's')
            shutil.rmtree(d, True)
        make_dir(rng, files, d, sd, same)
    elif rng.random() < .5:
        # a link to nowhere
        os.symlink(os.path.join(d, 'nowhere'), sd)
    o = read(sd, os.path.join(d, 'cache'), plugins,
             [name_of(f['name']) for f in files])
    return dict(o, reported=[codes(n) for n in o['reported']])


def read(sd, cache, plugins, names):
    from xylem.sources import RulesDatabase, SourcesContext
    cfg = world.config(sources_dir=sd, cache_dir=cache)
    err = io.StringIO()

    def go():
        db = RulesDatabase(SourcesContext(cfg, spec_plugins=plugins))
        return [dict(kind=s.spec.name, args=enc(s.arguments),
                     file=codes(os.path.basename(s.origin)))
                for s in db.sources]
    with world.quiet(), contextlib.redirect_stderr(err):
        kind, val = attempt(go)
    text = err.getvalue()
    return dict(ok=kind == 'ok', sources=val if kind == 'ok' else [],
                error=repr(val)[:200] if kind != 'ok' else '',
                reported=[n for n in names if os.path.join(sd, n) in text])


NAMES = ['10-a.yaml', '9-a.yaml', '20.yaml', 'a.yaml', 'b.yaml', 'aa.yaml',
         'a-b.yaml', 'a_b.yaml', 'a.b.yaml', '.hidden.yaml', 'c.yml',
         'd.yaml~', 'e.yaml.bak', 'fyaml', 'é.yaml', 'z.yaml', '.yaml',
         'README', 'x y.yaml', '010.yaml', '1.yaml', '#a.yaml#', 'ab.yaml',
         'B.yaml', 'Z.yaml', 'AA.yaml', '_a.yaml', 'É.yaml', '20.YAML']


def rand_value(rng):
    return rng.choice([1, None, True, 'text', [1], [], {'id': 'x'}, 2.5, '',
                       'http://a/é', 'a b', {'id': 'x', 'n': [1, None]}])


def rand_entry(rng, wild, serial):
    if rng.random() < wild:
        return rng.choice([
            'mem', None, 1, [], {}, ['mem'], {'mem': 'x', 'dic': 'y'},
            {1: 'x'}, {None: 'x'}, {'nix': 'x'}, {'mem': rand_value(rng)},
            {'dic': rand_value(rng)}, {'rules': rand_value(rng)},
            {True: 'a'}, {'mem': 'same'}, {'dic': 'same'}, {'': 'x'},
            {'Mem': 'x'}, {'mem ': 'x'}, {'any': rand_value(rng)}])
    return rng.choice([
        {'mem': 'm%d' % serial}, {'dic': {'id': 'd%d' % serial}},
        {'rules': 'http://h/%d.yaml' % serial},
        {'dic': 'é%d' % serial}, {'any': ['x', serial]},
        {'mem': 'a: %d' % serial}])


def rand_dir(rng, wild):
    files, serial = [], 0
    for name in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3, 4, 6])):
        t = 'file' if rng.random() < 0.75 else \
            rng.choice(['dir', 'dirlink', 'broken', 'link', 'link'])
        if t not in ('file', 'link') or rng.random() < 0.1:
            c = ['bad']
        elif rng.random() < wild:
            c = ['doc', enc(rng.choice([5, 'text', {'mem': 'x'}, True,
                                        2.5, 'mem: x']))]
        else:
            es = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                serial += 1
                es.append(rand_entry(rng, wild, serial))
            c = ['doc', enc(es)]
        files.append(dict(name=codes(name), type=t, content=c))
    lists = [f for f in files if f['content'][0] == 'doc' and
             isinstance(dec(f['content'][1]), list)]
    if lists and rng.random() < 0.1:
        # a link with the content of another file, which is often repeated
        name = rng.choice([x for x in NAMES if codes(x) not in [
            f['name'] for f in files]])
        files.append(dict(name=codes(name), type='link',
                          content=rng.choice(lists)['content']))
    elif lists and rng.random() < 0.1:
        # the same arguments again, for another kind of source or the same
        args = [(k, a) for f in lists for e in dec(f['content'][1])
                if isinstance(e, dict) for k, a in e.items()]
        if args:
            f = rng.choice(lists)
            k, a = rng.choice(args)
            f['content'] = ['doc', enc(
                dec(f['content'][1]) +
                [{rng.choice(['mem', 'dic', 'any', k]): a}])]
    return files


LOCALES = [dict(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'),
           dict(LC_ALL='POSIX', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'),
           dict(LC_ALL='C', PYTHONUTF8='1')]


def elsewhere(ctx, rng, dirs, plugins, env):
    """Read the directories in another process, with another locale."""
    d = ctx.tmp()
    jobs = []
    for i, files in enumerate(dirs):
        sd = os.path.join(d, str(i), 's')
        make_dir(rng, files, os.path.join(d, str(i)), sd)
        jobs.append(sd)
    p = subprocess.run(
        [sys.executable, '-m', 'harness.props.sources'], cwd=ctx.root,
        input=json.dumps(jobs).encode(), stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        env=dict({k: v for k, v in os.environ.items()
                  if not k.startswith(('LC_', 'LANG', 'PYTHON'))},
                 PYTHONPATH=os.environ['PYTHONPATH'],
                 PYTHONDONTWRITEBYTECODE='1', **env))
    out = json.loads(p.stdout.decode() or '[]')
    if len(out) != len(dirs):
        out = [dict(ok=False, sources=[], reported=[], error='the process '
                    'ended: %r' % p.stderr[-300:]) for _ in dirs]
    for files, o in zip(dirs, out):
        o['reported'] = [f['name'] for f in files
                         if codes(name_of(f['name'])) in o['reported']]
    return out


def serve():
    plugins, _ = kinds()
    out = []
    for sd in json.load(sys.stdin):
        names = sorted(os.listdir(sd))
        o = read(sd, os.path.join(os.path.dirname(sd), 'cache'), plugins,
                 names)
        o['reported'] = [codes(n) for n in o['reported']]
        out.append(o)
    json.dump(out, sys.stdout)


def packaged_defaults():
    out = []
    d = os.path.join(REPO, 'xylem', 'sources', 'sources.d')
    for f in sorted(os.listdir(d)):
        if f.endswith('.yaml'):
            with open(os.path.join(d, f)) as fh:
                for e in yaml.safe_load(fh):
                    (k, a), = e.items()
                    out.append(dict(kind=k, args=enc(a), file=codes(f)))
    return out


def c10(ctx):
    plugins, info = kinds()
    rng = ctx.rng
    r = ctx.model_check('SourcesMC', MC_CFG % (2, 'TRUE'), workers=4)
    if ctx.thorough:
        ctx.model_check('SourcesMC', MC_CFG % (3, 'FALSE'), workers=8)
    recs = []
    # replay: every small directory, files created in every order
    for em in rng.sample(r.emitted, min(len(r.emitted),
                                        ctx.pick(1500, 10 ** 6))):
        recs.append(dict(exists=True, files=em['files'], kinds=info,
                         obs=observe(ctx, rng, em['files'], plugins)))
    ctx.count('directories_enumerated', len(r.emitted))
    ctx.count('directories_replayed', len(recs))
    for _ in range(ctx.pick(1200, 15000)):
        files = rand_dir(rng, rng.choice([0, 0, 0.05, 0.2]))
        sub = rng.choice(['s', '.hidden/s', 'x.yaml', 'a b/é', '.s'])
        recs.append(dict(exists=True, files=files, kinds=info, obs=observe(
            ctx, rng, files, plugins, sub=sub)))
    for env in LOCALES:
        dirs = [rand_dir(rng, rng.choice([0, 0, 0.1]))
                for _ in range(ctx.pick(150, 2000))]
        # (names of files as they are in this locale)
        dirs = [[f for f in fs if all(c < 128 for c in f['name'])]
                for fs in dirs]
        for files, o in zip(dirs, elsewhere(ctx, rng, dirs, plugins, env)):
            recs.append(dict(exists=True, files=files, kinds=info, obs=o))
            ctx.count('directories_read_in_other_locales')
    for _ in range(8):
        o = observe(ctx, rng, [], plugins, exists=False)
        recs.append(dict(exists=False, files=[], kinds=info, obs=o,
                         defaults=packaged_defaults()))
    for x in recs:
        ctx.count('accepted' if x['obs']['ok'] else 'rejected')
        ctx.count('sources_read', len(x['obs']['sources']))
    ctx.sample(recs[-4])
    ctx.judge('SourcesJudge', recs, batch=6000)


if __name__ == '__main__':
    serve()
