"""C29, C33: error texts and scoped helpers (spec/ErrorText.tla, Scopes.tla)."""
import os
import re
import sys
import traceback

from harness.core import attempt, in_repo

# -- C29 ---------------------------------------------------------------------------

EC_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxErrors=%d DoEmit=%s
INVARIANTS Once FromOldest EndsInError NoTracebacks Alone Complete Emit
'''


class Falsy(Exception):
    def __bool__(self):
        return False


class Empty(ValueError):
    def __len__(self):
        return 0


class Alike(KeyError):
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Custom(RuntimeError):
    def __init__(self, what):
        super(Custom, self).__init__(what)
        self.what = what

    def __str__(self):
        return 'custom <%s>' % (self.what,)


class Silent(Exception):
    def __str__(self):
        return ''


class Broken(Exception):
    def __str__(self):
        raise ValueError('cannot print')


def error_types():
    from xylem.exception import XylemError, XylemInternalError
    return [ValueError, KeyError, TypeError, OSError, XylemError,
            XylemInternalError, Falsy, Empty, Alike, Custom, Silent, Broken,
            KeyboardInterrupt, SystemExit, StopIteration]


MESSAGES = ['plain', 'with "quotes" and \'more\'', '', 'two\nlines',
            'grüße ☃', '  indented', 'percent %s {} {0}', ('a', 'tuple'),
            42, None, 'Traceback of nothing', 'colon: text', 'blanks at end  ',
            'tab\t', '\ttab', ' ', 'caf\xe9\xa0']


def head_of(exc):
    return ''.join(traceback.format_exception_only(type(exc), exc)).rstrip(
        '\n')


def frames_of(tb):
    n = 0
    while tb is not None:
        n, tb = n + 1, tb.tb_next
    return n


PLAIN = '\n --- The above error was the direct cause of the following:\n'
LINK = '\n\nThe above error was the direct cause of the following:\n\n'


def parts_of(text, with_tb):
    parts = []
    for p in text.rstrip('\n').split(LINK if with_tb else PLAIN):
        start = 'Traceback (most recent call last):\n'
        has = p.startswith(start)
        frames = 0
        if has:
            lines = p[len(start):].split('\n')
            while lines and lines[0].startswith('  '):
                frames += lines.pop(0).startswith('  File "')
            p = '\n'.join(lines)
        parts.append([p, has, frames])
    return parts


class Errors(object):
    """Errors made by real code, with everything that happens recorded."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.errs, self.events = [], []
        self.types = error_types()

    def causes(self):
        res = []
        for e in self.errs:
            c = e.__cause__
            res.append(0 if c is None else next(
                (i + 1 for i, x in enumerate(self.errs) if x is c), -1))
        return res

    def raised(self, fn, depth):
        def down(n):
            if n:
                down2(n - 1)
            else:
                fn()

        def down2(n):
            down(n)
        try:
            down(depth)
        except BaseException as e:
            return e

    def make(self, how, of):
        from xylem import exception as X
        rng = self.rng
        cls = rng.choice(self.types)
        msg = rng.choice(MESSAGES)
        src = self.errs[of - 1] if of else None
        depth = rng.randrange(4)
        cause = of
        if how == 'again':
            if not of:
                return
            def again():
                raise src
            self.raised(again, depth)
            self.events.append(dict(
                op='again', of=of, frames=frames_of(src.__traceback__),
                causes=self.causes()))
            return

        def plain():
            raise cls(msg)

        def handling():
            try:
                raise src
            except BaseException:
                raise cls(msg)

        def from_():
            X.raise_from(cls, msg, src)

        def from_in_handler():
            try:
                raise src
            except BaseException as e:
                X.raise_from(cls, msg, e)
        if how == 'create':
            exc, cause = cls(msg), 0
        elif how == 'raise':
            exc, cause = self.raised(plain, depth), 0
        elif how == 'while':
            exc, cause = self.raised(handling, depth), 0
        elif how == 'chain':
            exc = X.chain_exception(cls, msg, src)
        elif how == 'from':
            inside = rng.random() < .5
            exc = self.raised(from_in_handler if inside else from_, depth)
        if how == 'while' or how == 'from' and inside:
            # raising it again made its own traceback longer
            self.events.append(dict(
                op='again', of=of, frames=frames_of(src.__traceback__),
                causes=self.causes()))
        self.errs.append(exc)
        self.events.append(dict(
            op='new', kind=type(exc).__name__, wanted=cls.__name__,
            args=repr(exc.args), given=repr(cls(msg).args),
            head=head_of(exc), frames=frames_of(exc.__traceback__),
            of=cause, causes=self.causes()))

    def grow(self, n):
        from xylem import exception as X
        heads = []
        cls = [c for c in self.types if c is not Broken]
        for i in range(n):
            e = X.chain_exception(self.rng.choice(cls), 'link %d' % i,
                                  self.errs[-1] if self.errs else None)
            self.errs.append(e)
            heads.append(head_of(e))
        self.events.append(dict(op='grow', heads=heads))

    def format(self, of, how, chain, limit=0):
        from xylem.exception import exc_to_str
        exc = self.errs[of - 1]
        given, kw = 0, {}
        if how == 'given':
            def fail():
                raise ValueError('elsewhere')
            tb = self.raised(fail, self.rng.randrange(3)).__traceback__
            given, kw['tb'] = frames_of(tb), tb
        elif how == 'own':
            kw['tb'] = True
        else:
            if self.rng.random() < .5:
                kw['tb'] = self.rng.choice([None, False])
        if limit:
            kw['limit'] = limit
        if not chain:
            kw['chain'] = False
        elif self.rng.random() < .3:
            kw['chain'] = True
        self.ctx.count('texts')
        kind, v = attempt(exc_to_str, exc, **kw)
        if kind != 'ok' or not isinstance(v, str):
            parts = [[repr((kind, v)), False, -1]]
        else:
            parts = parts_of(v, how != 'no')
        self.events.append(dict(op='format', of=of, how=how, given=given,
                                limit=limit, chain=chain, parts=parts))


def c29(ctx):
    r = ctx.model_check('ErrorTextMC', EC_CFG % (ctx.pick(4, 5), 'FALSE'),
                        workers=4)
    r = ctx.model_check('ErrorTextMC', EC_CFG % (ctx.pick(3, 4), 'TRUE'))
    rng = ctx.rng
    progs = r.emitted
    if not ctx.thorough:
        progs = rng.sample(progs, min(len(progs), 150))
    traces = []
    for prog in progs:
        h = Errors(ctx, rng)
        for step in prog:
            h.make(step['how'], step['of'])
        for e in range(1, len(h.errs) + 1):
            for how in ('no', 'own', 'given'):
                for chain in (True, False):
                    if ctx.thorough or rng.random() < .5:
                        h.format(e, how, chain, rng.choice([0, 0, 1, 2]))
        traces.append(dict(events=h.events))
        ctx.count('replayed')
    for _ in range(ctx.pick(60, 600)):
        h = Errors(ctx, rng)
        for _ in range(rng.randint(3, 25)):
            n = len(h.errs)
            if n and rng.random() < .4:
                # a preference for the newest makes long chains
                h.format(rng.choice([n, rng.randint(1, n)]),
                         rng.choice(['no', 'own', 'given']),
                         rng.random() < .8, rng.choice([0, 0, 0, 1, 2, 5]))
            else:
                how = rng.choice(['create', 'raise'] if not n else [
                    'create', 'raise', 'while', 'chain', 'chain', 'from',
                    'from', 'again'])
                h.make(how, 0 if how in ('create', 'raise')
                       else rng.choice([n, n, rng.randint(1, n)]))
        traces.append(dict(events=h.events))
        ctx.count('random histories')
    for n in ctx.pick([12, 40, 1200], [12, 40, 130, 1100, 2500]):
        h = Errors(ctx, rng)
        h.grow(n)
        for how in ('no', 'own', 'given'):
            h.format(n, how, True)
        h.format(n, 'no', False)
        h.format(n - 1, 'no', True)
        traces.append(dict(events=h.events))
        ctx.count('long chains')
    ctx.sample(traces[0])
    ctx.sample(traces[200])
    ctx.validate('ErrorTextTrace', traces)
    ctx.assumptions += [
        'how a single error is written is taken from Python (traceback.'
        'format_exception_only); cyclic chains and messages that end in a '
        'line break are not generated']


# -- C33 ---------------------------------------------------------------------------

SC_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxSteps=%d MaxDepth=3 DoEmit=%s
INVARIANTS Outside OwnStreams InForce Emit
PROPERTY Restored
'''


class Stop(BaseException):
    pass


def _exit(*_):
    raise OSError('refused: outside of the scratch directory')


class Program(object):
    """Runs a program over the real scopes, observing the process."""

    def __init__(self, ctx, actions, rng):
        self.ctx, self.rng, self.actions = ctx, rng, actions
        self.pos, self.n, self.exc = 0, 0, ''
        self.events, self.scopes = [], {}
        self.base = os.path.realpath(ctx.tmp())
        self.paths = {}
        for d in ('d1', 'd1/sub', 'd2', 'd3', 'place'):
            os.mkdir(os.path.join(self.base, d))
            self.paths[d] = os.path.join(self.base, d)
        self.temps = []
        self.excs = {}

    def token(self, path):
        for name, p in self.paths.items():
            if path == p:
                return name
            if name[0] == 't' and path.startswith(p + '/'):
                return name + path[len(p):]
        return path

    def event(self, op, **kw):
        names = {id(s): k for k, s in self.streams.items()}
        try:
            cwd = self.token(os.getcwd())
        except OSError:
            cwd = 'gone'
        self.events.append(dict(
            kw, op=op, cwd=cwd, exc=self.exc,
            out=names.get(id(sys.stdout), '?'),
            err=names.get(id(sys.stderr), '?'),
            temps=[t for t in self.temps if os.path.lexists(self.paths[t])],
            text={k: s.getvalue() for k, s in self.streams.items()}))

    def run(self):
        import io
        import shutil
        import tempfile
        saved = sys.stdout, sys.stderr, os.getcwd(), tempfile.tempdir
        rmtree = shutil.rmtree
        base = self.base

        def guarded(path, *args, **kw):
            if not os.path.realpath(path).startswith(base + os.sep):
                _exit()
            return rmtree(path, *args, **kw)
        out, err = io.StringIO(), io.StringIO()
        self.streams = {'S0': out, 'E0': err}
        try:
            tempfile.tempdir = self.paths['place']
            shutil.rmtree = guarded
            sys.stdout, sys.stderr = out, err
            os.chdir(self.paths['d1'])
            try:
                self.block()
            except Stop:
                self.exc = ''
                self.event('catch')
        finally:
            shutil.rmtree = rmtree
            sys.stdout, sys.stderr = saved[:2]
            os.chdir(saved[2])
            tempfile.tempdir = saved[3]
        return dict(events=self.events)

    def scope(self, a):
        from xylem import util
        if a[0] == 'cd':
            path = self.paths[a[1]]
            if a[1] == 'd3' and not os.path.isdir(path):
                os.mkdir(path)
            # the same scope may be entered again later
            key = a[1]
            if key not in self.scopes and self.rng.random() < .3:
                path, key = os.path.relpath(path, os.getcwd()), None
            obj = self.scopes.pop(key, None) or util.change_directory(path)
            return obj, dict(to=a[1]), key
        if a[0] == 'tmp':
            p = self.rng.choice([None, '', 'x-', 'préfix_'])
            key = 'tmp-%s' % p
            obj = self.scopes.pop(key, None) or (
                util.temporary_directory() if p is None else
                util.temporary_directory(prefix=p)
                if self.rng.random() < .5 else util.temporary_directory(p))
            return obj, dict(prefix=p or ''), key
        key = 'std'
        return self.scopes.pop(key, None) or util.redirected_stdio(), {}, key

    def entered(self, a, value, info):
        self.n += 1
        if a[0] == 'tmp':
            name = 't%d' % self.n
            real = os.path.realpath(str(value))
            if not os.path.isdir(real) or real in self.paths.values():
                real = '(not a new directory)'
            self.paths[name] = real
            self.temps.append(name)
            info = dict(value=self.token(real), prefixed=os.path.basename(
                real).startswith(info['prefix']))
        elif a[0] == 'std':
            self.streams['o%d' % self.n] = value[0]
            self.streams['e%d' % self.n] = value[1]
        self.event(a[0], **info)

    def block(self):
        """Run up to the end of the current scope."""
        import io
        while self.pos < len(self.actions):
            a = self.actions[self.pos]
            self.pos += 1
            if a[0] in ('cd', 'tmp', 'std'):
                obj, info, key = self.scope(a)
                try:
                    with obj as value:
                        self.entered(a, value, info)
                        self.block()
                    if key:
                        self.scopes[key] = obj
                    if self.exc:
                        self.exc = 'swallowed'
                    self.event('leave')
                except BaseException as e:
                    if key:
                        self.scopes[key] = obj
                    known = self.excs.get(self.exc)
                    if e is not known:
                        self.exc = 'other: %r' % (e,)
                    self.event('leave')
                    if self.pos < len(self.actions) and \
                            self.actions[self.pos][0] == 'catch':
                        self.pos += 1
                        self.exc = ''
                        self.event('catch')
                    elif e is known:
                        # the unwinding takes the place of this step
                        if self.pos < len(self.actions) and \
                                self.actions[self.pos][0] == 'leave':
                            self.pos += 1
                        raise
                    else:
                        raise Stop()
            elif a[0] == 'fail':
                from xylem import util
                try:
                    with util.change_directory(
                            os.path.join(self.base, 'missing')):
                        self.event('entered')
                except OSError as e:
                    self.event('fail', types=[
                        c.__name__ for c in type(e).__mro__])
            elif a[0] == 'leave':
                return
            elif a[0] == 'raise':
                cls = self.rng.choice([ValueError, KeyboardInterrupt, Stop,
                                       SystemExit, GeneratorExit, OSError])
                self.exc = a[1]
                self.excs[a[1]] = e = cls()
                self.event('raise', e=a[1])
                # the step that leaves the scope is taken by the exception
                if self.pos < len(self.actions) and \
                        self.actions[self.pos][0] == 'leave':
                    self.pos += 1
                elif self.pos < len(self.actions) and \
                        self.actions[self.pos][0] == 'catch':
                    self.pos += 1
                    self.exc = ''
                    self.event('catch')
                    continue
                raise e
            elif a[0] == 'chdir':
                os.chdir(os.path.join(self.base, self.paths[a[1]])
                         if a[1] in self.paths else self.inside(a[1]))
                self.event('chdir', to=a[1])
            elif a[0] == 'write':
                what = a[2] if len(a) > 2 else 'a'
                f = sys.stdout if a[1] == 'out' else sys.stderr
                if self.rng.random() < .5:
                    print(what, end='', file=f)
                else:
                    f.write(what)
                self.event('write', which=a[1], what=what)
            elif a[0] == 'swap':
                self.n += 1
                self.streams['x%d' % self.n] = sys.stdout = io.StringIO()
                self.event('swap')
            elif a[0] == 'remove':
                import shutil
                shutil.rmtree(self.paths[a[1]])
                self.event('remove', of=a[1])
            elif a[0] == 'vanish':
                import shutil
                shutil.rmtree(self.paths[a[1]])
                self.event('vanish', of=a[1])
            elif a[0] == 'fill':
                # files in the temporary directory are no step of their own
                p = self.paths.get(a[1], '')
                if os.path.isdir(p):
                    for d in ('x', 'x/y'):
                        os.makedirs(os.path.join(p, d), exist_ok=True)
                    for f in ('a', 'x/b', '.hidden'):
                        with open(os.path.join(p, f), 'w') as g:
                            g.write('data')
                    if not os.path.lexists(os.path.join(p, 'link')):
                        os.symlink(self.base, os.path.join(p, 'link'))

    def inside(self, name):
        t, rest = name.split('/', 1)
        p = os.path.join(self.paths[t], rest)
        os.makedirs(p, exist_ok=True)
        return p


def close(prog):
    """Complete a program: leave all scopes."""
    depth, raising = 0, False
    for a in prog:
        if a[0] in ('cd', 'tmp', 'std'):
            depth += 1
        elif a[0] == 'leave':
            depth -= 1
        raising = a[0] == 'raise' or raising and a[0] != 'catch'
    return prog + [['leave']] * depth + ([['catch']] if raising else [])


def random_program(rng, size):
    prog, stack, n, cwd, raising = [], [], 0, 'd1', 0
    temps, filled, ne = [], set(), 0
    while len(prog) < size:
        if raising:
            if not stack or raising == 1 and rng.random() < .5:
                prog.append(['catch'])
                raising = 0
            else:
                prog.append(['leave'])
                kind, old, t = stack.pop()
                cwd = old if kind != 'std' else cwd
                if t in temps:
                    temps.remove(t)
                raising = 1
            continue
        x = rng.random()
        if cwd == 'gone' and (.35 <= x < .7 and not stack or x < .3):
            x = .65
        if cwd in temps + ['d3'] and x > .97 and stack and \
                not any(o.split('/')[0] == cwd for _, o, _ in stack):
            prog.append(['vanish', cwd])
            if cwd in temps:
                temps.remove(cwd)
            cwd = 'gone'
        elif x < .35 and len(stack) < 6 and cwd != 'gone':
            kind = rng.choice(['cd', 'tmp', 'std'])
            n += 1
            if kind == 'cd':
                d = rng.choice(['d1', 'd2', 'd3', 'd1/sub'] + temps)
                prog.append(['cd', d])
                stack.append((kind, cwd, None))
                cwd = d
            else:
                prog.append([kind])
                t = 't%d' % n if kind == 'tmp' else None
                stack.append((kind, cwd, t))
                if t:
                    temps.append(t)
                    cwd = t
        elif x < .5 and stack:
            prog.append(['leave'])
            kind, old, t = stack.pop()
            cwd = old if kind != 'std' else cwd
            if t in temps:
                temps.remove(t)
        elif x < .56:
            ne += 1
            raising = 2
            prog.append(['raise', 'e%d' % ne])
        elif x < .6:
            prog.append(['fail'])
        elif x < .7:
            d = rng.choice(['d1', 'd2', 'd1/sub'] + temps +
                           [t + '/x' for t in temps])
            prog.append(['chdir', d])
            cwd = d
        elif x < .88:
            prog.append(['write', rng.choice(['out', 'err']), rng.choice([
                'a', 'two\nlines\n', '', 'ünïcode ☃', 'x' * 3000, '\n'])])
        elif x < .92:
            n += 1
            prog.append(['swap'])
        elif x < .96 and temps:
            prog.append(['fill', rng.choice(temps)])
        elif stack and stack[-1][2] in temps and \
                cwd.split('/')[0] != stack[-1][2]:
            prog.append(['remove', stack[-1][2]])
            temps.remove(stack[-1][2])
    return prog


def c33(ctx):
    ctx.model_check('ScopesMC', SC_CFG % (ctx.pick(5, 7), 'FALSE'), workers=4)
    r = ctx.model_check('ScopesMC', SC_CFG % (ctx.pick(4, 5), 'TRUE'),
                        workers=1)
    rng = ctx.rng
    progs = [list(p) for p in r.emitted]
    k = ctx.pick(400, 6000)
    if len(progs) > k:
        progs = rng.sample(progs, k)
    ctx.count('programs enumerated', len(r.emitted))
    ctx.count('programs replayed', len(progs))
    traces = [Program(ctx, close(p), rng).run() for p in progs]
    for _ in range(ctx.pick(150, 2000)):
        p = close(random_program(rng, rng.choice([5, 10, 20, 40])))
        traces.append(Program(ctx, p, rng).run())
        ctx.count('random programs')
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.validate('ScopesTrace', traces, batch=1500)
    ctx.assumptions += [
        'scopes are properly nested, one scope object is not entered twice '
        'at once, and directories to return to are not removed meanwhile']
