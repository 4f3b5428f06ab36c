"""C11, C14-C17: installation runs (spec/Install.tla)."""
import contextlib
import io
import os
import subprocess

from harness import world
from harness.core import attempt, exc_obs, safe_str

MC_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxItems=%d WithErrors=%s DoEmit=%s
INVARIANTS StopsAtFirstFailure NothingAfterResolutionError SimulateRunsNothing
 RealAnnouncesNothing GeneralFirst PreBeforeCommands InOrder Maximal
 ExactlyMissing EverythingAttempted ReinstallDoesNotAsk EveryFailureCounts
 NoSilentSkip Surfaces Emit
'''
OS = ('wos', 'one')


class Boom(Exception):
    pass


class Out(io.StringIO):
    """Captured output, handed on line by line."""

    def __init__(self, on_line):
        super(Out, self).__init__()
        self.on_line = on_line
        self.buf = ''

    def write(self, s):
        self.buf += s
        while '\n' in self.buf:
            line, self.buf = self.buf.split('\n', 1)
            self.on_line(line)
        return len(s)

    def isatty(self):
        return False


def OwnError():
    from xylem.installers import InstallerError
    return type(str('OwnError'), (InstallerError,), {})


class Run(object):
    """One call of install() in a world of recording installers.

    keys: list of (key, installer or None, packages); answers: function
    (op, inst, what) -> answer of the environment.
    """

    def __init__(self, ctx, keys, opts, answers, insts, root=True, pm=None,
                 commands=None):
        self.ctx, self.keys, self.opts = ctx, keys, opts
        self.answers, self.insts, self.root = answers, insts, root
        self.events = []
        self.composed = []
        self.pm = pm or {}
        self.commands = commands or (lambda inst, items, i, r: [
            ['run-%s' % p, 'x%d' % n] for n, p in enumerate(items)])
        self.booms = {}
        self.plugins = [self.installer(n) for n in sorted(insts)]

    # -- the installers -----------------------------------------------------
    def ask(self, op, inst, what, ev):
        from xylem.installers import InstallerError, \
            InstallerPrerequisiteError
        r = self.answers(op, inst, what)
        self.events.append(dict(ev, op=op, inst=inst, r=r))
        if r == 'unsatisfied':
            raise InstallerPrerequisiteError('unsatisfied')
        if r[0] == 'err':
            # (an installer may have kinds of errors of its own)
            kind = InstallerError if len(self.events) % 2 else OwnError()
            raise kind('marker %s end' % r[1])
        if r[0] == 'boom':
            self.booms[r[1]] = x = Boom('marker %s end' % r[1])
            raise x
        return r

    def installer(self, name):
        from xylem.installers import InstallerBase, PackageManagerInstaller, \
            InstallerPrerequisiteError
        run = self
        as_root = self.insts[name]['as_root']
        pm = self.pm.get(name)

        def fixarg(f):
            return f if f == 'simulate' else 'yes' if f else 'no'

        class Base(InstallerBase):
            name = property(lambda self: world_name)

            def resolve(self, rule):
                if 'invalid' in rule:
                    from xylem.installers import InvalidRuleError
                    raise InvalidRuleError('invalid rule')
                return super(Base, self).resolve(rule)

            def filter_uninstalled(self, resolved):
                items = [r.package for r in resolved]
                r = run.ask('filter', name, items, dict(items=items))
                keep = list(r[1])
                res = []
                for x in resolved:
                    if keep and x.package == keep[0]:
                        res.append(x)
                        keep.pop(0)
                return res

            def is_installed(self, resolved):
                items = resolved if isinstance(resolved, list) else [resolved]
                ok = True
                for x in items:
                    r = run.ask('check', name, x.package,
                                dict(item=x.package))
                    ok = ok and r[0] == 'yes'
                return ok

            def get_install_commands_no_root(self, resolved, interactive=True,
                                             reinstall=False):
                items = [r.package for r in resolved]
                ev = dict(items=items, interactive=interactive,
                          reinstall=reinstall)
                r = run.ask('compose', name, items, ev)
                cmds = [list(c) for c in r[1]]
                for c in cmds:
                    if c not in run.composed:
                        run.composed.append(list(c))
                return cmds

            def check_install_prerequisites(self, resolved, os_tuple,
                                            fix_unsatisfied=False,
                                            interactive=True):
                items = [r.package for r in resolved]
                run.ask('pre', name, items, dict(
                    items=items, fix=fixarg(fix_unsatisfied),
                    interactive=interactive))

            def check_general_prerequisites(self, os_tuple,
                                            fix_unsatisfied=False,
                                            interactive=True):
                run.ask('general', name, [], dict(
                    fix=fixarg(fix_unsatisfied), interactive=interactive))

        class Pm(Base, PackageManagerInstaller):
            def __init__(self):
                PackageManagerInstaller.__init__(self, 'no-such-program')

            def check_general_prerequisites(self, os_tuple,
                                            fix_unsatisfied=False,
                                            interactive=True):
                ev = dict(op='general', inst=name, interactive=interactive,
                          fix=fixarg(fix_unsatisfied), r='ok')
                try:
                    PackageManagerInstaller.check_general_prerequisites(
                        self, os_tuple, fix_unsatisfied, interactive)
                except InstallerPrerequisiteError:
                    run.events.append(dict(ev, r='unsatisfied'))
                    raise
                run.events.append(ev)

            def is_package_manager_installed(self):
                return pm['installed']

            def install_package_manager(self, os_tuple, interactive=True):
                run.events.append(dict(op='fix', inst=name))
                pm['installed'] = pm['fixable']

            def is_package_manager_updated(self):
                return pm['updated']

            def update_package_manager(self, interactive=True):
                run.events.append(dict(op='fix', inst=name))
                pm['updated'] = pm['fixable']

        world_name = name
        obj = (Pm if pm else Base)()
        obj.options_description.items['as_root'].default = as_root
        return obj

    # -- the system -----------------------------------------------------------
    def popen(self):
        run = self

        class Popen(object):
            def __init__(self, args, *_, **__):
                cmd = args.split() if isinstance(args, str) else list(args)
                code = run.answers('command', '', cmd)
                run.events.append(dict(op='command', cmd=cmd, code=code))
                self.args, self.returncode, self.pid = args, code, 0
                self.stdout = self.stderr = self.stdin = None

            def wait(self, timeout=None):
                return self.returncode

            poll = wait

            def communicate(self, *_, **__):
                return b'', b''

            def kill(self):
                pass

            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *_):
                pass
        return Popen

    def on_line(self, line):
        if not self.opts['simulate']:
            return
        # every command has a first word of its own
        hits = []
        for c in self.composed:
            for w in c:
                if w.startswith('run-'):
                    tok = w
            at = line.find(tok + ' ')
            if at >= 0 or line.endswith(tok):
                start = line.find(' '.join(c))
                if start < 0:
                    self.events.append(dict(op='announce', cmd=['?', line]))
                    return
                cmd = ['sudo'] + c if line[:start].endswith('sudo ') and \
                    c[0] != 'sudo' else c
                hits.append((start, cmd))
        for _, cmd in sorted(hits, key=lambda x: x[0]):
            self.events.append(dict(op='announce', cmd=list(cmd)))

    def __call__(self):
        from xylem.install import install
        rules = {}
        rerr, resolved = [], []
        for key, inst, pkgs in self.keys:
            if inst is None:
                rerr.append(key)
                if pkgs == 'invalid':
                    rules[key] = {'any_os': {'any_version': {
                        sorted(self.insts)[0]: {'packages': ['x'],
                                                'invalid': True}}}}
            else:
                rules[key] = {'any_os': {'any_version': {
                    inst: {'packages': list(pkgs)}}}}
                resolved.append(dict(inst=inst, items=list(pkgs)))
        os_plugin = world.make_os(
            'wos', ['one', 'two'], core=sorted(self.insts), default='A')
        ic = world.make_ic(self.cfg(), [os_plugin], OS, self.plugins)
        db = world.make_db(self.ctx, [rules])
        o = self.opts
        saved = subprocess.Popen, os.geteuid, os.system
        out = Out(self.on_line)
        popen = self.popen()
        try:
            subprocess.Popen = popen
            os.system = lambda c: popen(c).returncode
            if not self.root:
                os.geteuid = lambda: 1000
            else:
                os.geteuid = lambda: 0
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(out):
                kind, res = attempt(
                    install, [k for k, _, _ in self.keys],
                    interactive=o['interactive'], reinstall=o['reinstall'],
                    simulate=o['simulate'], continue_on_error=o['cont'],
                    fix_prerequisites=o['fix'], config=self.cfg(),
                    database=db, installer_context=ic)
        finally:
            subprocess.Popen, os.geteuid, os.system = saved
        if out.buf:
            self.on_line(out.buf)
        self.events.append(self.result(kind, res))
        return dict(events=self.events, resolved=resolved, rerr=rerr,
                    opts=dict(o), root=self.root, insts=self.insts)

    def cfg(self):
        d = self.ctx.scratch
        return world.config(sources_dir=os.path.join(d, 'no-sources'),
                            cache_dir=os.path.join(d, 'no-cache'))

    def result(self, kind, res):
        if kind == 'hang':
            return dict(op='hang')
        if kind == 'exc':
            cause, e = '', res
            while e is not None:
                for tok, b in self.booms.items():
                    if e is b:
                        cause = tok
                e = e.__cause__
            return dict(op='raise', cause=cause, **exc_obs(res))
        try:
            rerrs, ierrs = res
            return dict(op='return', rkeys=[k for k, _ in rerrs],
                        errors=[self.report(e) for e in ierrs])
        except Exception as e:
            return dict(op='garbled', what=safe_str(e))

    def report(self, e):
        text, x = '', e
        while x is not None:
            text += ' ' + safe_str(x)
            x = x.__cause__
        for c in '`\'"[](){},:':
            text = text.replace(c, ' ')
        types = exc_obs(e)['types'] if isinstance(e, BaseException) else []
        return dict(types=types, words=sorted(set(text.split())))


INSTS = {'A': {'as_root': False}, 'B': {'as_root': False},
         'C': {'as_root': False}}


def scripted(ctx, sc, log):
    """Replay of one behaviour of the specification."""
    def answers(op, inst, what):
        for e in log:
            if e['op'] != op:
                continue
            if op == 'command':
                if ['run-%s' % e['what'], 'x'] == what:
                    return failure(ctx.rng) if e['r'] else 0
            elif op in ('general',):
                if e['inst'] == inst:
                    return e['r']
            elif e['inst'] == inst and e['what'] == what:
                if op == 'compose' and e['r'][0] == 'ok':
                    return ['ok', [['run-%s' % p, 'x'] for p in e['r'][1]]]
                return e['r']
        return {'general': 'ok', 'pre': 'ok', 'command': 0,
                'filter': ['ok', what], 'check': ['yes'],
                'compose': ['ok', [['run-%s' % p, 'x'] for p in what]]}[op]
    keys = [('key%d' % (n + 1), i, ['p%d' % (n + 1)])
            for n, i in enumerate(sc['seq'])]
    if sc['rerr']:
        keys.append((sc['rerr'][0], None, None))
    opts = dict(cont=sc['cont'], reinstall=sc['reinstall'],
                simulate=sc['simulate'], fix=sc['fix'], interactive=True)
    insts = {k: INSTS[k] for k in 'AB'}
    return Run(ctx, keys, opts, answers, insts)()


def failure(rng):
    """An exit status of a failing command (negative: killed by a signal)."""
    return rng.choice([1, 2, 3, 4, 8, 100, 101, 126, 127, 128, 129, 130, 137,
                       143, 254, 255, -1, -2, -9, -13, -15,
                       rng.randint(1, 255), rng.randint(1, 255)])


def random_run(ctx, rng, errors=0.1, simulate=None, cont=None, reinstall=None,
               pm=False, roots=False, rerr=0.2, n=None, boom=0.2, fix=None,
               script=None, twice=0.25):
    """A larger random scenario.  script: reuse the answers of another run."""
    coin = rng.random
    count = n or rng.choice([0, 1, 2, 3, 4, 5, 6, 8])
    keys, p, e = [], 0, [0]
    for k in range(count):
        inst = rng.choice('AABC')
        pk = []
        for _ in range(rng.choice([1, 1, 1, 2, 3, 0])):
            p += 1
            pk.append('pk%d%s' % (p, rng.choice(['', '-dev', '@x', '.z'])))
        keys.append(('key%d' % k, inst, pk))
    if coin() < twice and keys:   # the same package twice
        k = rng.choice(keys)
        if k[2]:
            keys.append(('twice', k[1], [k[2][0]]))
    if coin() < rerr:
        for j in range(rng.choice([1, 1, 2])):
            keys.insert(rng.randrange(len(keys) + 1),
                        ('bad%d' % j, None, rng.choice([None, 'invalid'])))

    def opt(v):
        return coin() < 0.5 if v is None else v
    opts = dict(cont=opt(cont), reinstall=opt(reinstall),
                simulate=opt(simulate), fix=opt(fix), interactive=coin() < 0.5)
    if any(i and not ps for _, i, ps in keys):
        opts['reinstall'] = False   # an unspecified corner
    insts = {k: {'as_root': roots and coin() < 0.5} for k in 'ABC'}
    root = not roots or coin() < 0.3
    pms = {}
    if pm:
        for k in 'ABC':
            if coin() < 0.7:
                pms[k] = dict(installed=coin() < 0.6, updated=coin() < 0.5,
                              fixable=coin() < 0.7)
    memo = {}
    cmdn = [0]

    def fail():
        e[0] += 1
        return ['boom' if coin() < boom else 'err', 'mark%d' % e[0]]

    def answers(op, inst, what):
        k = repr((op, inst, what))
        if k not in memo:
            memo[k] = fresh(op, inst, what)
        return memo[k]

    def fresh(op, inst, what):
        bad = coin() < errors
        if op == 'filter' and not what:
            return ['ok', []]
        if op in ('general', 'pre'):
            return 'unsatisfied' if bad and coin() < 0.3 else 'ok'
        if op == 'command':
            return failure(rng) if bad else 0
        if op == 'filter':
            if bad:
                return fail()
            mode = rng.randrange(4)
            return ['ok', [x for x in what if mode < 2 or
                           mode == 2 and coin() < 0.5]]
        if op == 'check':
            return rng.choice([['no'], ['no'], fail()]) if bad else ['yes']
        if bad:
            return fail()
        cmds = []
        if coin() < 0.9:
            for _ in range(rng.choice([1, len(what), 2])):
                cmdn[0] += 1
                # (the packages may be in a file, say)
                c = ['run-%d' % cmdn[0]] + (
                    list(what) if coin() < 0.8 else ['-r']) + rng.choice(
                    [[], ['-y'], ['a@b'], ['x@!y']])
                if roots and coin() < 0.3:
                    c = ['sudo'] + c
                elif roots and coin() < 0.2:
                    c = ['env', 'sudo'] + c
                cmds.append(c)
        if cmds and coin() < 0.2:
            # the same command again
            cmds.insert(rng.randint(0, len(cmds)), list(rng.choice(cmds)))
        return ['ok', cmds]
    run = Run(ctx, keys, opts, script or answers, insts, root, pms)
    run.memo_answers = answers
    return run


def validate(ctx, traces, focus):
    for tr in traces[:400:97]:
        ctx.sample(tr)
    ctx.validate('InstallTrace', traces, env=dict(FOCUS=focus), batch=400)


def model(ctx, pred, n):
    """Check the design, and replay behaviours satisfying pred."""
    r = ctx.model_check('InstallMC', MC_CFG % (
        ctx.pick(2, 3) if ctx.thorough else 2, 'TRUE', 'TRUE'), workers=4)
    cases = [c for c in r.emitted if pred(c)]
    cases.sort(key=repr)
    if len(cases) > n:
        cases = ctx.rng.sample(cases, n)
    ctx.count('behaviours replayed', len(cases))
    return [scripted(ctx, c['sc'], c['log'] or []) for c in cases]


def c14(ctx):
    traces = model(ctx, lambda c: True, ctx.pick(600, 6000))
    rng = ctx.rng
    for _ in range(ctx.pick(350, 6000)):
        traces.append(random_run(ctx, rng, errors=rng.choice(
            [0, 0.05, 0.15, 0.3]), simulate=rng.random() < 0.15)())
    ctx.count('random runs', ctx.pick(350, 6000))
    validate(ctx, traces, 'order')


def c15(ctx):
    traces = model(ctx, lambda c: not any(
        e['r'] == 'unsatisfied' or e['r'][0] in ('boom', 'err')
        for e in c['log'] or [] if e['op'] not in ('command', 'announce')),
        ctx.pick(400, 4000))
    rng = ctx.rng
    n = ctx.pick(400, 6000)
    for _ in range(n):
        traces.append(random_run(ctx, rng, errors=rng.choice([0, 0, 0.1]),
                                 simulate=rng.random() < 0.2, rerr=0.1)())
    ctx.count('random runs', n)
    validate(ctx, traces, 'missing')


def c16(ctx):
    traces = model(ctx, lambda c: not c['sc']['simulate'],
                   ctx.pick(500, 6000))
    rng = ctx.rng
    n = ctx.pick(450, 6000)
    for _ in range(n):
        traces.append(random_run(ctx, rng, errors=rng.choice(
            [0, 0.05, 0.2, 0.4]), simulate=rng.random() < 0.1, rerr=0.3,
            boom=rng.choice([0, 0.3]))())
    # batches that fail with the same words
    for _ in range(n // 4):
        traces.append(random_run(
            ctx, rng, errors=rng.choice([.3, .5]), simulate=False, cont=True,
            rerr=0, boom=0, n=rng.choice([2, 3, 4]), twice=1)())
    ctx.count('random runs', n + n // 4)
    validate(ctx, traces, 'reports')
    installed(ctx)


def installed(ctx):
    """Detection of what is installed in the installer base class."""
    rng = ctx.rng
    recs = []
    for _ in range(ctx.pick(300, 2000)):
        pk = ['p%d' % i for i in range(rng.randrange(0, 5))]
        missing = [p for p in pk if rng.random() < 0.4]
        inst = world.make_installer('w', filter_uninstalled=lambda rs: [
            r for r in rs if r.package in missing])
        res = inst.resolve({'packages': pk})
        single = bool(res) and rng.random() < 0.4
        arg = rng.choice(res) if single else res
        kind, v = attempt(inst.is_installed, arg)
        recs.append(dict(
            op='installed', asked=[arg.package] if single else pk,
            missing=missing,
            got=[bool(v)] if kind == 'ok' else [kind]))
    ctx.judge('InstalledJudge', recs)
    ctx.count('installed queries', len(recs))


def c11(ctx):
    from harness.props import database
    traces = model(ctx, lambda c: c['sc']['simulate'], ctx.pick(400, 4000))
    rng = ctx.rng
    n = ctx.pick(300, 4000)
    for k in range(n):
        traces.append(random_run(
            ctx, rng, errors=rng.choice([0, 0, 0.1]), simulate=True,
            pm=rng.random() < 0.5, rerr=0.15, roots=rng.random() < 0.4)())
    # the real run executes exactly what was announced
    pairs = []
    for k in range(ctx.pick(100, 1500)):
        state = rng.getstate()
        real = random_run(ctx, rng, errors=0, simulate=False, rerr=0,
                          roots=rng.random() < 0.3)
        tr = real()
        rng2 = type(rng)()
        rng2.setstate(state)
        sim = random_run(ctx, rng2, errors=0, simulate=True, rerr=0,
                         roots=rng2.random() < 0.3)
        sim.answers = real.answers
        ts = sim()
        traces += [tr, ts]
        pairs.append(dict(
            op='pair', executed=[e['cmd'] for e in tr['events']
                                 if e['op'] == 'command'],
            announced=[e['cmd'] for e in ts['events']
                       if e['op'] == 'announce']))
    ctx.count('simulated random runs', n + len(pairs))
    validate(ctx, traces, 'dry')
    ctx.judge('InstalledJudge', pairs)
    # dry-run updates
    hist = [database.random_history(ctx, rng, ops=(
        'dry_update', 'dry_update', 'dry_update', 'api_update', 'env',
        'cache', 'db_update'), steps=10)
        for _ in range(ctx.pick(60, 800))]
    ctx.validate('DatabaseTrace', hist, batch=200)
    ctx.count('update histories', len(hist))


def c17(ctx):
    from xylem.installers import impl as _  # noqa: F401
    rng = ctx.rng
    recs = []
    words = ['sudo', 'apt-get', 'sudoers', '', 'SUDO', 'sudo ', 'env', '-y',
             'visudo', 'sudoedit',
             'x']

    def one(root, as_root, composed, how):
        inst = world.make_installer(
            'w', commands=lambda r, i, re: [list(c) for c in composed],
            as_root=as_root if how == 'default' else not as_root)
        if how == 'options':
            inst.options = {'as_root': as_root}
        saved = os.geteuid
        os.geteuid = lambda: 0 if root else 1000
        try:
            kind, v = attempt(inst.get_install_commands, [], True, False)
        finally:
            os.geteuid = saved
        recs.append(dict(op='commands', root=root, as_root=as_root,
                         composed=composed, how=how,
                         got=v if kind == 'ok' else [[kind, safe_str(v)]]))

    import itertools
    for root in (True, False):
        for as_root in (True, False):
            for how in ('default', 'options'):
                for n in (1, 2):
                    for c in itertools.product(words, repeat=n):
                        one(root, as_root, [list(c)], how)
                one(root, as_root, [], how)
                for _ in range(ctx.pick(100, 2000)):
                    one(root, as_root, [
                        [rng.choice(words) for _ in range(rng.randint(1, 4))]
                        for _ in range(rng.randint(1, 5))], how)
    # an installer that hands out the same lists every time
    for _ in range(ctx.pick(200, 4000)):
        composed = [[rng.choice(words) for _ in range(rng.randint(1, 3))]
                    for _ in range(rng.randint(1, 3))]
        own = [list(c) for c in composed]
        inst = world.make_installer('w', commands=lambda r, i, re: own)
        saved = os.geteuid
        for _ in range(rng.randint(2, 4)):
            root, as_root = rng.random() < .4, rng.random() < .6
            os.geteuid = lambda: 0 if root else 1000
            try:
                inst.options = {'as_root': as_root}
                kind, v = attempt(inst.get_install_commands, [], True, False)
            finally:
                os.geteuid = saved
            recs.append(dict(op='commands', root=root, as_root=as_root,
                             composed=composed, how='repeated',
                             got=[list(c) for c in v] if kind == 'ok'
                             else [[kind, safe_str(v)]]))
    builtin(ctx, recs)
    ctx.count('command compositions', len(recs))
    ctx.judge('SudoJudge', recs)
    traces = [random_run(ctx, rng, errors=rng.choice([0, 0.1]), roots=True,
                         rerr=0, simulate=rng.random() < 0.3)()
              for _ in range(ctx.pick(250, 4000))]
    validate(ctx, traces, 'root')


def builtin(ctx, recs):
    """The built-in installers, composed as root and not, and as found."""
    import copy
    from xylem.installers.impl import load_installer_plugins
    for inst in load_installer_plugins():
        if inst.name not in ('apt', 'macports', 'pip', 'homebrew', 'fake'):
            continue
        recs.append(dict(op='default', inst=inst.name,
                         as_root=bool(inst.options.as_root)))
        res = inst.resolve({'packages': ['p1', 'p2', 'p3']})
        for opts in ({}, {'as_root': True}, {'as_root': False}):
            inst.options = opts
            for root in (True, False):
                for i in (True, False):
                    for re in (True, False):
                        saved = os.geteuid
                        os.geteuid = lambda: 0 if root else 1000
                        try:
                            composed = copy.deepcopy(
                                inst.get_install_commands_no_root(res, i, re))
                            got = inst.get_install_commands(res, i, re)
                        finally:
                            os.geteuid = saved
                        recs.append(dict(
                            op='commands', inst=inst.name, root=root,
                            as_root=bool(inst.options.as_root),
                            composed=composed, got=got, how='builtin'))
