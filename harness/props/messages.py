"""C37: messages go where they should, in the colors they should have."""
import argparse
import io
import os
import re
import subprocess
import sys
import types

from harness.props import cli

MC_CFG = '''
CONSTANTS MaxSteps = %d DoEmit = %s
INIT Init
NEXT Next
INVARIANT NoColors
INVARIANT OneStream
INVARIANT Reset
INVARIANT Quiet
INVARIANT Debugger
INVARIANT Emit
'''
TRACE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TProgress\n' \
    'POSTCONDITION TReport\n'
CODES = re.compile('\x1b\\[[0-9;]*m')
OPTS = dict(v=['-v', '--verbose'], d=['-d', '--debug'], c=['--no-color'],
            p=['--pdb'])
NAMES = ('black red green yellow blue purple cyan white kf rf gf yf bf pf cf '
         'wf kb rb gb yb bb pb cb wb blackf redf greenf yellowf bluef purplef '
         'cyanf whitef blackb redb greenb yellowb blueb purpleb cyanb whiteb '
         'reset boldon italicson ulon invon boldoff italicsoff uloff '
         'invoff').split()
TEXTS = ['m', '', 'two words', 'a\nb', '\xe9\u4e2d', '{x} %s', '@!no', '\t',
         'end\n']
PARTS = ['a', '@', '@@', '@!', '!', '/', '_', '|', '@|x', 'x@', '@/', '@_',
         '', 'b c', '$x', '%s', '\xe9', '@{redf', '@x', '\n']


def shown(s):
    if not isinstance(s, str):
        return repr(s)
    return ''.join('^' if c == '\x1b' else c if ord(c) < 127 else
                   '(%x)' % ord(c) for c in s)


class Sized(io.StringIO):
    """A file that tells how much it holds: empty at first."""
    def __len__(self):
        return len(self.getvalue())


class Console(object):
    def __init__(self, rng):
        from xylem import log_utils, terminal_color
        self.rng = rng
        self.log, self.term = log_utils, terminal_color
        self.reset()
        self.events = []

    def reset(self):
        self.log.enable_verbose(False)
        self.log.enable_debug(False)
        self.term.enable_ANSI_colors()
        from xylem.util import enable_pdb
        enable_pdb(False)
        self.verbose = self.debug = self.pdb = False
        self.color = True

    def call(self, f):
        out, err = sys.stdout, sys.stderr
        self.streams = [io.StringIO(), io.StringIO(),
                        self.rng.choice([io.StringIO, Sized])()]
        sys.stdout, sys.stderr = self.streams[:2]
        try:
            res = f(self.streams[2])
            res = '' if res is None else res
        except SystemExit as e:
            res = 'exit: %s' % (e.code,)
        except Exception as e:
            res = '%s: %s' % (type(e).__name__, e)
        finally:
            sys.stdout, sys.stderr = out, err
        return res

    def note(self, op, res, **kw):
        o, e, f = [shown(s.getvalue()) for s in self.streams]
        self.events.append(dict(op=op, wrote=dict(out=o, err=e, file=f),
                                result=shown(res), **kw))

    def say(self, level, msg, to='', end=None, form=None):
        rng = self.rng
        end = rng.choice(['\n', '\n', '', ' ', 'x\n']) if end is None else end

        def f(file):
            kw = {} if end == '\n' and rng.random() < .7 else dict(end=end)
            if to:
                kw['file'] = file
            given = msg.encode('utf-8') if rng.random() < .2 else msg
            res = getattr(self.log, level)(given, **kw)
            return 'none' if res is None else res
        self.note('say', self.call(f), level=level, msg=shown(msg), to=to,
                  end=end)

    def die(self, msg):
        self.note('die', self.call(lambda f: self.log.error(msg, exit=True)),
                  msg=shown(msg))

    def format(self, pieces):
        def f(_):
            s = ''
            for kind, x in pieces:
                s += self.term.sanitize(x) if kind == 'text' else \
                    '@' + x if kind == 'mark' else '@{%s}' % x
            return self.term.fmt(s)
        self.note('format', self.call(f),
                  pieces=[[k, shown(x)] for k, x in pieces])

    def code(self, name):
        self.note('code', self.call(lambda _: self.term.ansi(name)),
                  name=name)

    def set(self, what, value):
        rng = self.rng

        def f(_):
            if what == 'color':
                self.color = value
                (self.term.enable_ANSI_colors if value else
                 self.term.disable_ANSI_colors)()
            else:
                setattr(self, what, value)
                from xylem import util
                g = getattr(util if what == 'pdb' else self.log,
                            'enable_' + what)
                g() if value and rng.random() < .5 else g(value)
        self.note('set', self.call(f), verbose=self.verbose,
                  debug=self.debug, color=self.color, pdb=self.pdb,
                  **self.are())

    def are(self):
        from xylem.util import pdb_enabled
        return {'is': [bool(self.log.is_verbose()),
                       bool(self.log.is_debug()), bool(pdb_enabled())]}

    def arguments(self, opts, env):
        from xylem.arguments import add_global_arguments
        from xylem.arguments import handle_global_arguments
        rng = self.rng
        argv = [rng.choice(OPTS[o]) for o in opts]
        rng.shuffle(argv)

        def f(_):
            p = argparse.ArgumentParser(add_help=False)
            p = add_global_arguments(p) or p
            saved = {k: v for k, v in os.environ.items()
                     if k.startswith('XYLEM')}
            for k in saved:
                del os.environ[k]
            for e in env:
                os.environ[dict(d='XYLEM_DEBUG', p='XYLEM_PDB')[e]] = \
                    rng.choice(['', '1', '0'])
            try:
                handle_global_arguments(p.parse_args(argv))
            finally:
                os.environ.pop('XYLEM_DEBUG', None)
                os.environ.pop('XYLEM_PDB', None)
                os.environ.update(saved)
        self.note('arguments', self.call(f), opts=sorted(opts),
                  env=sorted(env), **self.are())
        self.verbose, self.debug = self.verbose or 'v' in opts, \
            'd' in opts or 'd' in env
        self.pdb = 'p' in opts or 'p' in env
        self.color = self.color and 'c' not in opts

    def uncaught(self, tty, interactive):
        from xylem import util
        opened = []

        def opens(*args, **kw):
            opened.append('debugger')
        stand_in = types.ModuleType('pdb')
        for name in ('set_trace', 'post_mortem', 'pm'):
            setattr(stand_in, name, opens)

        def f(_):
            sys.stderr.isatty = lambda: tty
            saved = sys.modules.get('pdb'), getattr(sys, 'ps1', self)
            sys.modules['pdb'] = stand_in
            if interactive:
                sys.ps1 = '>>> '
            elif hasattr(sys, 'ps1'):
                del sys.ps1
            try:
                try:
                    raise ValueError('something uncaught')
                except ValueError:
                    util.custom_exception_handler(*sys.exc_info())
            finally:
                if saved[0] is None:
                    del sys.modules['pdb']
                else:
                    sys.modules['pdb'] = saved[0]
                if hasattr(sys, 'ps1'):
                    del sys.ps1
                if saved[1] is not self:
                    sys.ps1 = saved[1]
            return opened[0] if len(opened) == 1 else \
                ' '.join(opened) or 'none'
        res = self.call(f)
        text = CODES.sub('', self.streams[1].getvalue())
        if 'Traceback (most recent call last)' in text \
                and 'ValueError: something uncaught' in text:
            self.streams[1] = io.StringIO('traceback')
        self.note('uncaught', res, tty=tty, interactive=interactive)

    def run(self, acts):
        for a in acts:
            op = a[0]
            if op == 'say':
                self.say(a[1], self.rng.choice(TEXTS), a[2])
            elif op == 'die':
                self.die(self.rng.choice(TEXTS))
            elif op == 'format':
                self.format(annotated(self.rng))
            elif op == 'code':
                self.code(self.rng.choice(NAMES))
            elif op == 'arguments':
                self.arguments(a[1], a[2])
            elif op == 'uncaught':
                self.uncaught(a[1], a[2])
            else:
                self.set(op, not getattr(self, op))
        events, self.events = self.events, []
        self.reset()
        return dict(events=events)


def annotated(rng):
    res = []
    for _ in range(rng.randint(1, 6)):
        kind = rng.choice(['text', 'mark', 'color'])
        if kind == 'text':
            x = ''.join(rng.choice(PARTS) for _ in range(rng.randint(0, 3)))
            x = x.replace('{', '').replace('}', '')
            if res and res[-1][0] == 'text':
                continue
        elif kind == 'mark':
            x = rng.choice('!/_|')
        else:
            x = rng.choice(NAMES)
        res.append((kind, x))
    return res


def random_acts(rng, n):
    acts = []
    for _ in range(n):
        op = rng.choice(['say'] * 4 + ['die', 'format', 'code', 'verbose',
                                       'debug', 'color', 'arguments',
                                       'pdb', 'uncaught'])
        if op == 'say':
            acts.append(('say', rng.choice(
                ['debug', 'info', 'warning', 'error', 'info_v']),
                rng.choice(['', '', 'file'])))
        elif op == 'arguments':
            acts.append((op, rng.sample('vdcp', rng.randint(0, 4)),
                         rng.choice(['', '', 'd', 'p', 'dp'])))
        elif op == 'uncaught':
            acts.append((op, rng.random() < .7, rng.random() < .3))
        else:
            acts.append((op,))
    return acts


class Processes(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        w = dict(order=['k'], core=['fake'], extra=[], default='fake',
                 behave=[])
        self.box = cli.Box(ctx, w, [dict(key='k', insts=[
            dict(inst='fake', pkgs=['thepackage'])])], [], True,
            'ubuntu', 'trusty')
        self.box.run('update', [], '', [])
        self.debug = None
        env = self.box.env
        self.box.env = lambda: dict(
            env(), **({} if self.debug is None else
                      {'XYLEM_DEBUG': self.debug}))

    def see(self, opts, env, scenario):
        rng, box = self.rng, self.box
        args = [rng.choice(OPTS[o]) for o in opts]
        rng.shuffle(args)
        k = rng.randint(0, len(args))
        argv = ['--xylem-dir', box.xd] + args[:k] + ['resolve'] + args[k:] + \
            ['k' if scenario == 'fine' else 'nosuchkey']
        self.debug = rng.choice(['', '1', '0']) if env else None
        box.interrupt = None
        box.config(os='nosuchos:1' if scenario == 'error' else
                   'ubuntu:trusty')
        code, out, err = box.process(argv) if rng.random() < .05 \
            else box.fork(argv)
        o, e = CODES.sub('', out), CODES.sub('', err)
        saw = dict(exit=code, verbose='overriding OS to [' in e,
                   debug='initializing database with sources dir' in e,
                   traceback='Traceback (most recent call last)' in e,
                   message='nosuch' in re.sub('overriding OS.*', '', e), answer='thepackage' in o,
                   colors='\x1b' in out + err)
        # nothing of this is written where answers are
        for m in ('overriding OS', 'initializing database', 'Traceback',
                  'nosuch'):
            if m in o:
                saw['misplaced'] = m
        return saw, (o, re.sub('0x[0-9a-f]+', '', e).split())

    def event(self, opts, env, scenario):
        opts = [o for o in opts if o != 'c']
        saw, text = self.see(opts, env, scenario)
        plain, ptext = self.see(opts + ['c'], env, scenario)
        return dict(op='process', opts=sorted(opts), env=env,
                    scenario=scenario, saw=saw, plain=plain,
                    same=text == ptext)

    def start(self, env):
        e = dict(os.environ)
        e.pop('XYLEM_DEBUG', None)
        if env:
            e['XYLEM_DEBUG'] = self.rng.choice(['', '1', '0'])
        e['PYTHONPATH'] = os.pathsep.join(
            p for p in sys.path if p and not p.startswith(self.ctx.root))
        out = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c',
             'from xylem.log_utils import is_debug; print(bool(is_debug()))'],
            env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            cwd=self.box.d).stdout
        return dict(op='start', env=env, debug=out.strip() == b'True')


def c37(ctx):
    rng = ctx.rng
    ctx.model_check('MessagesMC', MC_CFG % (ctx.pick(3, 4), 'FALSE'),
                    workers=4)
    r = ctx.model_check('MessagesMC', MC_CFG % (3, 'TRUE'), workers=1)
    ctx.count('histories enumerated', len(r.emitted))
    con = Console(rng)
    traces = []
    k = ctx.pick(800, 10 ** 9)
    for c in r.emitted if len(r.emitted) <= k else rng.sample(r.emitted, k):
        traces.append(con.run(c['acts']))
    traces.append(dict(events=[]))
    for c in (True, False):
        con.color = not c
        con.set('color', c)
        for n in NAMES:
            con.code(n)
    traces.append(con.run([]))
    for _ in range(ctx.pick(500, 10000)):
        traces.append(con.run(random_acts(rng, rng.choice([8, 15, 30]))))
        ctx.count('random histories')
    p = Processes(ctx)
    events = [p.start(e) for e in (False, True)]
    for opts in ([], ['v'], ['d'], ['v', 'd']):
        for env in (False, True):
            for s in ('fine', 'fails', 'error'):
                for _ in range(ctx.pick(1, 6)):
                    events.append(p.event(opts, env, s))
    ctx.count('processes', len(events) - 2)
    traces.append(dict(events=events))
    ctx.sample(traces[0])
    ctx.sample(events[-1])
    ctx.validate('MessagesTrace', traces, cfg=TRACE_CFG, batch=1000)
    ctx.assumptions += [
        'messages and annotated texts contain no escape characters, and '
        'annotated texts no braces other than those of annotations']
