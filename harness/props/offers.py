"""C39: the commands of xylem are the usable entry points, and only those."""
import json
import os
import re
import signal
import sys

from harness.core import MachineryError
from harness.props import cli

MC_CFG = '''
CONSTANTS MaxEntries = %d DoEmit = %s
INIT Init
NEXT Next
INVARIANT OnlyUsable
INVARIANT OfferedRuns
INVARIANT Others
INVARIANT Accounted
INVARIANT Exits
INVARIANT Emit
'''
JUDGE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TReport\n'
REAL = {'a': 'cmdaa', '_b': '_cmdbb', 'update': 'update'}
MODULE = '''
import json
import os
from xylem.commands.main import command_handle_args
from xylem.config import get_config
from xylem.config_utils import String
from xylem.exception import XylemError


def prepare_arguments(parser):
    parser.add_argument('keys', nargs='*')
    parser.add_argument('-x', '--extra')
    %(fail_args)s
    %(give)s


def prepare_config(description):
    description.add('opt%(id)d', help='an option', type=String,
                    default='default', command_line=True)
    %(fail_config)s


def main(args=None):
    args = command_handle_args(args, definition)
    with open(os.environ['RAN'], 'a') as f:
        f.write(json.dumps(dict(
            id=%(id)d, keys=list(args.keys),
            x=[] if args.extra is None else [args.extra],
            opt=get_config().opt%(id)d)) + '\\n')
    %(end)s


definition = dict(title=%(title)r, description='about command %(id)d',
                  main=main, prepare_arguments=prepare_arguments,
                  prepare_config=prepare_config)
'''
END = dict(none='return None', zero='return 0', three='return 3',
           error='raise XylemError("thefailure")',
           interrupt='raise KeyboardInterrupt()', eof='raise EOFError()')
BAD = dict(
    notdict=['[definition]', 'None', 'main', '"text"',
             'tuple(definition.items())'],
    broken=['raise RuntimeError("oh")', 'import no_such_module_at_all',
            'def f(:', None],
    incomplete=['title', 'description', 'main', 'prepare_arguments',
                'prepare_config'])


FAIL = [('raise RuntimeError("oh")', 'pass'), ('pass', 'raise ValueError()'),
        ('parser.add_argument("--verbose")', 'pass'),
        ('parser.add_argument("-h")', 'pass'),
        ('parser.add_argument("no", "pe")', 'pass'),
        ('pass', 'description.add("os_override")'),
        ('parser.add_argument("--os")', 'pass')]


class World(object):
    """Installed distributions with commands."""
    columns = 2000
    cwd = None
    env = {}

    def __init__(self, ctx, eps, shipped):
        self.ctx, self.rng = ctx, ctx.rng
        rng = self.rng
        self.d = ctx.tmp()
        self.xd = os.path.join(self.d, 'xd')
        os.makedirs(os.path.join(self.xd, 'sources.d'))
        self.mods = {}
        tag = 'xvcmd%s' % os.path.basename(os.path.dirname(self.d + '/'))
        # (entry points of one name are of different distributions)
        parts = []
        for e in eps:
            mod = '%s_%d' % (tag, e['id'])
            fail = rng.choice(FAIL) if e['kind'] == 'failing' else ('pass', '')
            self.mods[e['id']] = mod
            text = MODULE % dict(
                id=e['id'], title=e['title'], fail_args=fail[0],
                fail_config=fail[1], end=END[e['result']],
                give=rng.choice(['return parser', 'pass']))
            if e['kind'] == 'notdict':
                text += '\ndefinition = %s\n' % rng.choice(BAD['notdict'])
            elif e['kind'] == 'incomplete':
                text += '\ndel definition[%r]\n' % rng.choice(
                    BAD['incomplete'])
            elif e['kind'] == 'broken':
                how = rng.choice(BAD['broken'])
                text = text + '\ndel definition\n' if how is None \
                    else how + '\n'
            with open(os.path.join(self.d, mod + '.py'), 'w') as f:
                f.write(text)
            for p in parts:
                if e['name'] not in [x['name'] for x in p]:
                    p.append(e)
                    break
            else:
                parts.append([e])
        for n, p in enumerate(parts):
            info = os.path.join(self.d, '%sd%d-1.0.dist-info' % (tag, n))
            os.mkdir(info)
            with open(os.path.join(info, 'METADATA'), 'w') as f:
                f.write('Metadata-Version: 2.1\nName: %sd%d\nVersion: 1.0\n' %
                        (tag, n))
            with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
                f.write('[xylem.commands]\n' + ''.join(
                    '%s = %s:definition\n' % (e['name'], self.mods[e['id']])
                    for e in p))
        self.by_mod = {self.mods[e['id']]: e for e in eps}
        self.shipped = shipped
        # the order in which they are found
        self.eps = self.child(self.order)

    def order(self):
        import pkg_resources
        res = []
        for ep in pkg_resources.iter_entry_points(group='xylem.commands'):
            if ep.module_name in self.by_mod:
                res.append(self.by_mod[ep.module_name])
            else:
                res.append(dict(name=ep.name, title=ep.name, kind='valid',
                                result='none',
                                id=1000 + len(res)))
        return res

    def child(self, f):
        """f() in a process that has the distributions."""
        path = os.path.join(self.d, 'result')
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                sys.path.insert(0, self.d)
                sys.dont_write_bytecode = True
                import pkg_resources
                pkg_resources.working_set.add_entry(self.d)
                res = f()
                with open(path, 'w') as g:
                    json.dump(res, g)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        with open(path) as g:
            return json.load(g)

    def run(self, argv, alone=None):
        """Exit status, output, error output, and what was run."""
        files = [os.path.join(self.d, n) for n in ('out', 'err', 'ran')]

        def go():
            os.environ.clear()
            os.environ.update(env)
            for fd, n in zip((1, 2), files):
                os.dup2(os.open(n, os.O_CREAT | os.O_WRONLY | os.O_TRUNC), fd)
            sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
            sys.stdin = open(os.devnull)
            os.chdir(self.cwd or self.d)
            if alone is None:
                code = cli.exit_code(argv)
            else:
                sys.argv = ['prog'] + argv
                code = call(lambda: __import__(
                    alone, fromlist=['main']).main())
            sys.stdout.flush()
            sys.stderr.flush()
            return code
        env = {k: v for k, v in os.environ.items()
               if not k.startswith('XYLEM')}
        env.update(RAN=files[2], HOME=self.d, PAGER='cat',
                   COLUMNS=str(self.columns),
                   PYTHONIOENCODING='utf-8', XYLEM_DIR=self.xd)
        for k, v in self.env.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        for p in files:
            open(p, 'w').close()
        code = self.child(go)
        res = []
        for p in files:
            with open(p, 'rb') as f:
                res.append(f.read().decode('utf-8', 'replace'))
        ran = [json.loads(x) for x in res[2].splitlines()]
        return code, res[0], res[1], ran

    def line(self, ln):
        rng = self.rng
        cmd, eps = ln['cmd'], self.eps
        counts = []
        for e in eps:
            if e['name'] not in [x['name'] for x in counts]:
                counts.append(e)
        first = ([e for e in counts if e['title'] == cmd and
                  e['kind'] == 'valid'] +
                 [e for e in counts if e['title'] == cmd] + [None])[0]
        if first and first['id'] >= 1000 and not ln['help'] and not ln['bad']:
            ln = dict(ln, help=True)
        if not first or first['id'] >= 1000 or first['kind'] != 'valid' or \
                first['result'] in ('interrupt', 'eof'):
            ln = dict(ln, alone=False)
        if not cmd:
            ln = dict(ln, alone=False)
        parts = []
        if first and first['id'] < 1000:
            if ln['x']:
                parts.append(rng.choice([['-x', ln['x'][0]],
                                         ['--extra=' + ln['x'][0]]]))
            if ln['opt']:
                parts.append(['--opt%d=%s' % (first['id'], ln['opt'][0])])
        else:
            ln = dict(ln, x=[], opt=[], keys=[])
        if ln['bad']:
            parts.append([rng.choice(['--unheard-of', '-q'])])
        glob = rng.choice([[], ['--no-color'], ['-v'], ['-d', '--no-color']])
        ln = dict(ln, debug='-d' in glob)
        before = [] if ln['alone'] else glob
        if rng.random() < .5 or ln['alone']:
            parts += [[g] for g in glob]
            before = []
        if ln['keys']:
            parts.append(list(ln['keys']))
        rng.shuffle(parts)
        if ln['help']:
            parts.insert(0, [rng.choice(['-h', '--help'])])
        tail = [x for p in parts for x in p]
        if ln['alone']:
            code, out, err, ran = self.run(tail, self.mods[first['id']])
        else:
            code, out, err, ran = self.run(
                before + ([cmd] if cmd else []) + tail)
        saw = dict(exit=code, ran=[r['id'] for r in ran], x=[], keys=[],
                   opt='', message='thefailure' in err, usage='usage' in
                   err.lower(), offered=[], reported=[], about=False,
                   trace='Traceback' in err)
        if ran:
            saw.update(x=ran[0]['x'], keys=ran[0]['keys'], opt=ran[0]['opt'])
        if first:
            saw['about'] = ('about command %d' % first['id']) in out \
                if first['id'] < 1000 else 'usage' in out.lower()
        lists = [m.group(1).split(' | ') for m in re.finditer(
            r'\[([^\[\]\n]*)\]', out)]
        lists = [x for x in lists if 'resolve' in x]
        if lists:
            saw['offered'] = lists[-1]
        for n in {x for e in eps for x in (e['name'], e['title'])}:
            for s in err.splitlines():
                if re.search(r'(?<![\w-])%s(?![\w-])' % re.escape(n), s) \
                        and re.search('invalid command|entry point|skipping',
                                      s, re.I) and 'choose from' not in s:
                    saw['reported'].append(n)
                    break
        self.ctx.count('command lines')
        return dict(op='line', eps=eps, ln=ln, saw=saw, err=ascii(err[-1500:]))


def call(f):
    import traceback
    try:
        res = f()
        sys.exit(res)
    except SystemExit as e:
        if e.code is None:
            return 0
        if isinstance(e.code, int):
            return e.code & 255
        sys.stderr.write('%s\n' % (e.code,))
        return 1
    except BaseException:
        traceback.print_exc()
        return 1


def update_alone(ctx):
    """The program of the update command does what the command does."""
    recs = []
    rng = ctx.rng
    for k in range(ctx.pick(6, 30)):
        w = World(ctx, [], None)
        rules = os.path.join(w.d, 'rules.yaml')
        with open(rules, 'w') as f:
            f.write(rng.choice(['k: {any_os: {any_version: {fake: [p]}}}\n',
                                'k: [', 'k: {ubuntu: p}\n']))
        with open(os.path.join(w.xd, 'sources.d', 'a.yaml'), 'w') as f:
            f.write(rng.choice(['- rules: file://%s\n' % rules] * 3 +
                               ['- nosuch: file:///x\n']))
        args = rng.choice([[], ['-n'], ['--dry-run'], ['--no-color', '-v'],
                           ['--no-such'], ['-h']])
        res = []
        for alone in (None, 'xylem.commands.update'):
            code, out, err, _ = w.run(
                (['update'] if alone is None else []) + args, alone)
            files = []
            cache = os.path.join(w.xd, 'cache')
            for d, ds, fs in os.walk(cache):
                for n in sorted(fs):
                    files.append(os.path.relpath(os.path.join(d, n), cache))
                    os.unlink(os.path.join(d, n))
            out = re.sub('\x1b\\[[0-9;]*m', '', out)
            if args and args[0] in ('--no-such', '-h'):
                out = ''
            res.append([str(code), out.strip(), ' '.join(sorted(files))])
        recs.append(dict(op='same', one=[ascii(x) for x in res[0]],
                         two=[ascii(x) for x in res[1]]))
    ctx.count('runs of xylem-update', len(recs))
    return recs


def c39(ctx):
    import importlib
    import pkg_resources
    rng = ctx.rng
    ctx.model_check('CommandsMC', MC_CFG % (ctx.pick(2, 3), 'FALSE'),
                    workers=4)
    r = ctx.model_check('CommandsMC', MC_CFG % (2, 'TRUE'), workers=1)
    ctx.count('command lines enumerated', len(r.emitted))
    import xylem.commands.main
    assert xylem.commands.main
    for ep in pkg_resources.iter_entry_points(group='xylem.commands'):
        importlib.import_module(ep.module_name)
    sets = {}
    for c in r.emitted:
        for e in c['eps']:
            for x in ('name', 'title'):
                e[x] = REAL.get(e[x], e[x])
        c['ln']['cmd'] = REAL.get(c['ln']['cmd'], c['ln']['cmd'])
        key = json.dumps(c['eps'])
        sets.setdefault(key, []).append(c['ln'])
    if not sets:
        raise MachineryError('no command lines enumerated')
    recs = []
    keys = rng.sample(sorted(sets), ctx.pick(22, 300))
    jobs = [(json.loads(k), rng.sample(sets[k], min(ctx.pick(9, 16),
                                                    len(sets[k]))))
            for k in keys]
    for _ in range(ctx.pick(14, 200)):
        eps = [dict(name=rng.choice(['cmdaa', '_cmdbb', 'cmd-cc', 'update',
                                     'x', '__y', 'resolve2', 'cmd.d', 'CmdEe',
                                     'UPDATE', 'cmdAA']),
                    kind=rng.choice(['valid'] * 5 + ['failing'] +
                                    sorted(BAD)),
                    result=rng.choice(sorted(END)), id=n + 1)
               for n in range(rng.randint(1, 5))]
        for e in eps:
            e['title'] = e['name'] if rng.random() < .8 else \
                rng.choice(['ttlaa', '_ttlbb', 'cmdaa', 'ttl-cc'])
        lines = []
        for _ in range(ctx.pick(9, 16)):
            lines.append(dict(
                cmd=rng.choice([e['title'] for e in eps] * 3 +
                               [e['name'] for e in eps] +
                               ['', 'nosuch', 'resolve', 'cmda', 'CMDAA']),
                help=rng.random() < .2, bad=rng.random() < .12,
                x=rng.choice([[], ['v'], ['a b'], ['']]),
                keys=rng.choice([[], ['k'], ['k', 'l'], ['k', 'k']]),
                opt=rng.choice([[], ['o'], ['two words']]),
                alone=rng.random() < .25))
        jobs.append((eps, lines))
    # commands whose name begins or ends like that of another
    for k in range(ctx.pick(4, 40)):
        base = rng.choice(['cmdaa', '_cmdbb', 'x', 'up-date'])
        names = [base, base + rng.choice(['2', '-all', '_x', base]),
                 rng.choice(['a', 'my-', '_']) + base]
        rng.shuffle(names)
        if k % 2 and names.index(base) == 0:
            names.reverse()
        eps = [dict(name=n, title=n, kind='valid', result='none', id=i + 1)
               for i, n in enumerate(names)]
        jobs.append((eps, [dict(
            cmd=n, help=h, bad=False, x=[], keys=rng.choice([[], ['k']]),
            opt=[], alone=False) for n in names for h in (False, True)]))
    for eps, lines in jobs:
        if not any(e['result'] == 'none' for e in eps):
            pass
        w = World(ctx, eps, None)
        if sum(1 for e in w.eps if e['id'] < 1000) != len(eps):
            raise MachineryError('entry points not found')
        for ln in lines + [dict(cmd='', help=True, bad=False, x=[], keys=[],
                                opt=[], alone=False)]:
            if not ln['alone'] and rng.random() < .15 and ln['cmd']:
                ln = dict(ln, alone=True)
            if ln['alone'] and ln['cmd'] not in [e['title'] for e in eps]:
                ln = dict(ln, alone=False)
            recs.append(w.line(ln))
    recs += update_alone(ctx)
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    ctx.judge('CommandsJudge', recs, cfg=JUDGE_CFG, batch=2000)
    ctx.assumptions += ['entry points are found in the order in which '
                        'pkg_resources iterates over them']
