"""C34: which OS a machine is."""
import os
import platform
import stat

MC_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxWords = %d MaxSteps = %d DoEmit = %s
INVARIANTS OnlyThere OneOnly Emit
PROPERTY Precedence
'''
JUDGE_CFG = 'INIT JInit\nNEXT TNext\nINVARIANT TReport\n'
NONE = dict(rel=[], issue=[], brand=[], prog=[], lsb=[],
            sys=['Linux', '1', '2'], name='Ubuntu')


class Stand:
    """What the platform module says."""

    def __init__(self, m):
        self.m = m

    def __enter__(self):
        m = self.m
        self.saved = {k: getattr(platform, k) for k in (
            'system', 'version', 'release', 'linux_distribution', 'dist')
            if hasattr(platform, k)}
        for n, k in enumerate(('system', 'version', 'release')):
            setattr(platform, k, lambda n=n: m['sys'][n])
        for k in ('linux_distribution', 'dist'):
            if hasattr(platform, k):
                delattr(platform, k)
        if m['lsb']:
            platform.linux_distribution = \
                lambda *a, **kw: tuple(m['lsb'][0])
        return self

    def __exit__(self, *a):
        for k in ('linux_distribution', 'dist'):
            if hasattr(platform, k):
                delattr(platform, k)
        for k, v in self.saved.items():
            setattr(platform, k, v)


def asked(f):
    """[value], or [] if it is not detected, or the error."""
    from xylem.os_support.os_detect import OsNotDetected
    try:
        v = f()
    except OsNotDetected:
        return []
    except Exception as e:
        return ['%s: %s' % (type(e).__name__, e)]
    return [v if isinstance(v, str) else '(%r)' % (v,)]


def truth(f):
    try:
        return bool(f())
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def words_text(rng, words):
    text = rng.choice(['', '', ' ', '\n'])
    for w in words:
        text += w + rng.choice([' ', ' ', '  ', '\n', '\t'])
    return text


class Files:
    def __init__(self, ctx, rng):
        self.d = ctx.tmp()
        self.rng = rng
        self.n = 0

    def path(self):
        """Of a file that is not there; those of machines before are reused."""
        self.n = self.n % 6 + 1
        p = os.path.join(self.d, 'f%d' % self.n)
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.remove(p)
        return p

    def put(self, opt, words=True, there=False):
        p = self.path()
        if not opt and not there:
            # not there, or not readable
            how = self.rng.choice(['gone', 'gone', 'directory', 'bytes'])
            if how == 'directory':
                os.mkdir(p)
            elif how == 'bytes':
                with open(p, 'wb') as f:
                    f.write(self.rng.choice([
                        b'\xff\xfe', b'Fedora release 19 (Schr\xf6dinger)',
                        b'Red Hat Enterprise release 5 (\xe9)', b'\xe4\n',
                        b'Gentoo Base System release 2.2 \x80',
                        b'openSUSE\nVERSION = 1 \xff',
                        b'openSUSE 13\nCODENAME = Gr\xfcn\n']))
        if opt:
            text = words_text(self.rng, opt[0]) if words else \
                '\n'.join(opt[0]) + self.rng.choice(['', '\n'])
            with open(p, 'w') as f:
                f.write(text)
        return p

    def program(self, opt):
        p = self.path()
        if opt:
            g = opt[0]
            with open(p, 'w') as f:
                f.write('#!/bin/sh\ncase "$1" in\n-r|-productVersion) '
                        'printf "%%s\\n" \'%s\';;\n"") printf "%%s\\n" '
                        '\'%s\';;\nesac\n' % (g['prints']['release'],
                                              g['prints']['name']))
            os.chmod(p, 0o755 if g['runs'] else 0o644)
            if not g['runs'] and self.rng.random() < .3:
                # prints what is not text
                with open(p, 'w') as f:
                    f.write('#!/bin/sh\nprintf "10.\\377\\n"\n')
                os.chmod(p, 0o755)
            elif not g['runs']:
                # cannot be run by root either
                assert not os.stat(p).st_mode & stat.S_IXUSR
        return p


def detector(kind, m, files):
    from xylem.os_support import os_detect as D
    if kind == 'lsb':
        return D.LsbDetect(m['name'])
    if kind == 'fedora':
        return D.Fedora(files.put(m['rel']), files.put(m['issue']))
    if kind == 'rhel':
        return D.Rhel(files.put(m['rel']))
    if kind == 'gentoo':
        return D.Gentoo(files.put(m['rel']))
    if kind == 'arch':
        return D.Arch(files.put(m['rel'], there=True))
    if kind == 'suse':
        return D.OpenSuse(files.put(m['brand'], False),
                          files.put(m['rel'], False))
    if kind == 'osx':
        return D.OSX(files.program(m['prog']))
    if kind == 'qnx':
        return D.QNX(files.program(m['prog']))
    if kind == 'freebsd':
        return D.FreeBSD(files.program(m['prog']))
    return D.Windows()


def ask_detector(kind, m, files, rng):
    r = dict(op='detector', kind=kind, m=m)
    with Stand(m):
        d = detector(kind, m, files)
        qs = ['is', 'version', 'codename']
        rng.shuffle(qs)
        for q in qs:
            r[q] = truth(d.is_os) if q == 'is' else asked(
                d.get_version if q == 'version' else d.get_codename)
    return r


def ask_plugins(m, files, rng):
    """What the plugins of xylem and the detection of the OS say."""
    from xylem.os_support import os_detect as D
    from xylem.os_support import plugins as P
    from xylem.os_support import OSSupport, UnsupportedOSVersionError
    from xylem.os_support import UnsupportedOSError
    saved = list(D.OsDetect.default_os_list)
    out = []
    try:
        with Stand(m):
            for name, lsb in (('debian', 'debian'), ('ubuntu', 'Ubuntu'),
                              ('xubuntu', 'Xubuntu')):
                D.OsDetect.register_default(name, D.LsbDetect(lsb))
            D.OsDetect.register_default('osx', D.OSX(files.program(
                m['prog'])))
            objs = [P.Debian(), P.Ubuntu(), P.Xubuntu(), P.OSX()]

            def supported(f):
                try:
                    v = f()
                except UnsupportedOSVersionError:
                    return []
                except Exception as e:
                    return ['%s: %s' % (type(e).__name__, e)]
                return [list(v) if isinstance(v, tuple) else
                        v if isinstance(v, str) else '(%r)' % (v,)]
            for o in objs:
                out.append(dict(
                    op='plugin', plugin=o.name, m=m, version=supported(
                        o.get_version), tuple=supported(o.get_tuple),
                    **{'is': truth(o.is_os)}))
            sup = OSSupport()
            rng.shuffle(objs)
            sup.os_plugins = objs
            try:
                sup.detect_os()
                got = [sup.current_os.name]
            except UnsupportedOSError:
                got = []
            except Exception as e:
                got = ['%s: %s' % (type(e).__name__, e)]
            out.append(dict(op='current', m=m, got=got))
    finally:
        D.OsDetect.default_os_list[:] = saved
    return out


class Fixed:
    def __init__(self, d, rng):
        self.d, self.rng = d, rng

    def is_os(self):
        return self.rng.choice([True, 1, ['x']]) if self.d['is'] else \
            self.rng.choice([False, None, []])

    def _get(self, what):
        from xylem.os_support.os_detect import OsNotDetected
        if not self.d[what] or not self.d['is']:
            raise OsNotDetected('nothing')
        return self.d[what][0]

    def get_version(self):
        return self._get('version')

    def get_codename(self):
        return self._get('codename')


class Lists:
    """A history of lists of detectors."""

    def __init__(self, dets, rng):
        from xylem.os_support import os_detect as D
        self.D = D
        self.dets = dets
        self.objs = {k: Fixed(d, rng) for k, d in dets.items()}
        self.insts, self.adds, self.events = [], [], []

    def name_of(self, obj):
        for k, o in self.objs.items():
            if o is obj:
                return k
        return repr(obj)

    def run(self, actions):
        D = self.D
        saved = list(D.OsDetect.default_os_list)
        env = dict(os.environ)
        try:
            D.OsDetect.default_os_list[:] = []
            os.environ.pop('ROS_OS_OVERRIDE', None)
            for a in actions:
                self.act(*a)
        finally:
            D.OsDetect.default_os_list[:] = saved
            os.environ.clear()
            os.environ.update(env)
        return dict(dets=self.dets, events=self.events)

    def act(self, op, *a):
        D, ev = self.D, dict(op=op)
        if op == 'register':
            D.OsDetect.register_default(a[0], self.objs[a[1]])
            ev.update(name=a[0], d=a[1])
        elif op == 'new':
            given = a[0] if a else []
            self.insts.append(D.OsDetect(*[
                [(n, self.objs[d]) for n, d in g] for g in given]))
            ev.update(given=[[list(x) for x in g] for g in given])
        elif op == 'add':
            self.insts[a[0] - 1].add_detector(a[1], self.objs[a[2]])
            ev.update(i=a[0], name=a[1], d=a[2])
        else:
            i = self.insts[a[0] - 1]
            ev.update(i=a[0])
            if op == 'detect':
                over = a[1]
                where = a[2]
                e = {'ROS_OS_OVERRIDE': over[0]} if over else {}
                if where == 'environ':
                    os.environ.update(e)
                try:
                    got = self.safe(lambda: list(
                        i.detect_os() if where == 'environ'
                        else i.detect_os(e) if where == 'arg'
                        else i.detect_os(env=e)))
                finally:
                    os.environ.pop('ROS_OS_OVERRIDE', None)
                ev.update(override=over, got=got)
            elif op == 'get':
                ev.update(what=a[1], got=self.safe(
                    getattr(i, 'get_' + a[1])))
            elif op == 'detector':
                try:
                    got = [self.name_of(i.get_detector(a[1]))]
                except KeyError:
                    got = []
                ev.update(name=a[1], got=got)
            elif op == 'mine':
                ev.update(got=self.safe(
                    lambda: self.name_of(i.get_detector())))
        self.events.append(ev)

    def safe(self, f):
        try:
            return [f()]
        except self.D.OsNotDetected:
            return []
        except Exception as e:
            return ['%s: %s' % (type(e).__name__, e)]


def random_history(rng, size):
    """Getters are only used on instances whose list did not change since, and
    that were not overridden: what they remember then is not specified."""
    names = ['ubuntu', 'arch', 'x', 'Ubuntu']
    ds = ['d%d' % k for k in range(1, rng.randint(2, 5) + 1)]
    p = rng.choice([.3, .6])
    dets = {d: dict(is_=rng.random() < p) for d in ds}
    for d in dets.values():
        d['is'] = d.pop('is_')
        ok = rng.random() < .85
        d['version'] = [rng.choice(['', '1', '14.04'])] if ok and d['is'] \
            else []
        d['codename'] = [rng.choice(['', 'c', 'mountain lion'])] \
            if d['is'] and rng.random() < .9 else []
    acts, insts = [], []
    while len(acts) < size:
        x = rng.random()
        n, d = rng.choice(names), rng.choice(ds)
        if x < .2:
            acts.append(('register', n, d))
        elif x < .35 or not insts:
            if rng.random() < .4:
                acts.append(('new', [[(rng.choice(names), rng.choice(ds))
                                      for _ in range(rng.randint(0, 3))]]))
            else:
                acts.append(('new',))
            insts.append('fresh')
        else:
            i = rng.randrange(len(insts))
            if x < .5:
                acts.append(('add', i + 1, n, d))
                if insts[i] == 'asked':
                    insts[i] = 'changed'
            elif x < .65:
                if insts[i] != 'over':
                    acts.append(('detect', i + 1, [], rng.choice(
                        ['environ', 'arg', 'kw'])))
                    if insts[i] == 'fresh':
                        insts[i] = 'asked'
            elif x < .72:
                acts.append(('detect', i + 1, [rng.choice([
                    'a', 'a:1', 'a:1:b', ':1', '', 'a:1:b:c', 'a::b'])],
                    rng.choice(['environ', 'arg', 'kw'])))
                insts[i] = 'over'
            elif x < .85:
                acts.append(('detector', i + 1, n))
            elif insts[i] in ('fresh', 'asked'):
                if x < .95:
                    acts.append(('get', i + 1, rng.choice(
                        ['name', 'version', 'codename'])))
                else:
                    acts.append(('mine', i + 1))
                insts[i] = 'asked'
    return dets, acts


def random_machine(rng, kind):
    w = ['Fedora', 'release', '20', '(Heisenbug)', '(Ab', 'Red', 'Hat',
         'Enterprise', 'Linux', 'Server', '6.5', '(Santiago)', 'Gentoo',
         'Base', 'System', '2.2', '()', '(', '(A)B', 'Core', 'fedora']

    def some(start, n):
        few = rng.sample(w, 2) + ['release', 'release', '(Xy)'] \
            if rng.random() < .4 else w
        ws = [rng.choice(few) for _ in range(rng.randint(0, n))]
        if rng.random() < .25:
            # almost the release file of that OS
            start = list(start)
            k = rng.randrange(len(start)) if start else 0
            start[k:k + 1] = rng.choice([[], [rng.choice(w)], [
                x.lower() for x in start[k:k + 1]], start[k:k + 1] * 2])
        return [start + ws] if rng.random() < .9 else rng.choice([[], [ws]])
    m = dict(NONE)
    starts = dict(fedora=['Fedora'], rhel=['Red', 'Hat', 'Enterprise'],
                  gentoo=['Gentoo', 'Base'], arch=[])
    if kind in starts:
        m['rel'] = some(rng.choice(list(starts.values()))
                        if rng.random() < .2 else starts[kind], 6)
        m['issue'] = some(['Fedora'], 6)
        if rng.random() < .4:
            m['rel'] = [dict(
                fedora='Fedora release 20 (Heisenbug)',
                rhel='Red Hat Enterprise Linux Server release 6.5 '
                     '(Santiago)',
                gentoo='Gentoo Base System release 2.2',
                arch='')[kind].split()]
            m['issue'] = [r'Fedora release 20 (Heisenbug) Kernel \r on an \m'
                          r' (\l)'.split()]
    elif kind == 'suse':
        b = ['openSUSE', 'openSUSE 13.1', 'VERSION = 13.1', 'VERSION = ',
             'VERSION 13', 'VERSIONS = 1', 'SUSE', 'X = VERSION']
        m['brand'] = [] if rng.random() < .1 else [
            [rng.choice(b[:2]) if rng.random() < .8 else rng.choice(b)] +
            [rng.choice(b[2:]) for _ in range(rng.choice([0, 1, 1, 1, 2]))]]
        r = ['CODENAME = Bottle', 'CODENAME', 'VERSION = 1', 'openSUSE 13.1',
             'CODENAME = two words', 'NAME = CODENAME', 'CODENAMES = x']
        m['rel'] = [] if rng.random() < .15 else [
            [rng.choice(r) for _ in range(rng.randint(1, 4))]]
        for f in ('brand', 'rel'):
            # trailing blanks of the whole file do not matter
            if m[f]:
                m[f][0][-1] = m[f][0][-1].rstrip()
    elif kind in ('osx', 'qnx', 'freebsd'):
        m['prog'] = [] if rng.random() < .1 else [dict(
            runs=rng.random() < .9, prints=dict(
                name=rng.choice([
                    'QNX', 'QNX', 'FreeBSD', 'FreeBSD', 'Darwin', '',
                    'GNU/kFreeBSD', 'FreeBSD-like', 'qnx', 'QNX4', 'xQNX',
                    'freebsd']),
                release=rng.choice([
                    '10.%d' % rng.choice([rng.randint(0, 12),
                                          rng.randint(13, 120)]),
                    '10.%d.%d' % (rng.randint(3, 11), rng.randint(0, 12)),
                    '%d.%d' % (rng.choice([0, 1, 9, 11, 12, 20, 100, 110]),
                               rng.randint(3, 11)),
                    '10', '', '10.4.1.2', 'x.4', '10.y', '10.09', '9.2',
                    '10.04', '010.5', '10.10.40', '10.100.2', '10.8.',
                    '10.-4', '10..5', '.10.5', '4.10',
                    'garbage', '10.9.x', '10.x.2', 'v10.9', '10,9', '10.9-1'])))]
    elif kind == 'windows':
        m['sys'] = [rng.choice(['Windows', 'Linux', 'windows', '']),
                    rng.choice(['6.1', '']), rng.choice(['7', 'XP'])]
    else:
        m['lsb'] = [] if rng.random() < .1 else [[
            rng.choice(['debian', 'Ubuntu', 'Xubuntu', 'LinuxMint', 'Debian',
                        'ubuntu', '']),
            rng.choice(['14.04', '7.0', '']),
            rng.choice(['trusty', 'wheezy', '', 'Trusty'])]]
        m['name'] = rng.choice(['debian', 'Ubuntu', 'Xubuntu', 'LinuxMint'])
    return m


KINDS = ['lsb', 'fedora', 'rhel', 'gentoo', 'arch', 'suse', 'osx', 'qnx',
         'freebsd', 'windows']
USES = dict(rel=['fedora', 'rhel', 'gentoo', 'arch'], fedora=['fedora'],
            suse=['suse'], prog=['osx', 'qnx', 'freebsd'], lsb=['lsb'],
            none=KINDS)


def real_distribution(ctx):
    """Without a stand-in: is the distribution of this machine recognised?"""
    from xylem.os_support.os_detect import OsDetect, OS_DEBIAN, OS_UBUNTU
    try:
        with open('/etc/os-release') as f:
            here = dict(x.strip().split('=', 1) for x in f if '=' in x)
    except (OSError, ValueError):
        return
    name = dict(debian=OS_DEBIAN, ubuntu=OS_UBUNTU).get(
        here.get('ID', '').strip('"'))
    if name is None:
        return
    got = truth(OsDetect().get_detector(name).is_os)
    if got is not True and not (
            not hasattr(platform, 'linux_distribution') and
            not hasattr(platform, 'dist') and
            ctx.known('lsb-platform-missing')):
        ctx.violation('%s is not recognised on a machine that is %s' %
                      (name, name), got=got)


def c34(ctx):
    rng = ctx.rng
    real_distribution(ctx)
    ctx.model_check('DetectMC', MC_CFG % (ctx.pick(3, 4), ctx.pick(2, 3),
                                          'FALSE'), workers=4)
    r = ctx.model_check('DetectMC', MC_CFG % (3, 2, 'TRUE'), workers=1)
    files = Files(ctx, rng)
    cases = [c for c in r.emitted if c['part'] != 'lists']
    lists = [c for c in r.emitted if c['part'] == 'lists']
    ctx.count('machines enumerated', len(cases))
    ctx.count('histories enumerated', len(lists))
    few = {}
    for c in cases:
        few.setdefault(c['part'], []).append(c)
    records = []
    for part in sorted(few):
        k = ctx.pick(400, 3000)
        for c in few[part] if len(few[part]) <= k else \
                rng.sample(few[part], k):
            m = c['m']
            if m['issue'] and m['issue'][0][:1] == ['release']:
                continue    # not specified
            for kind in USES[part]:
                records.append(ask_detector(kind, m, files, rng))
            if part in ('lsb', 'prog', 'none'):
                records += ask_plugins(m, files, rng)
    for kind in KINDS:
        for _ in range(ctx.pick(150, 1500)):
            m = random_machine(rng, kind)
            if m['issue'] and m['issue'][0][:1] == ['release']:
                continue
            records.append(ask_detector(kind, m, files, rng))
    for _ in range(ctx.pick(60, 800)):
        m = random_machine(rng, 'lsb')
        if rng.random() < .4:
            m['prog'] = random_machine(rng, 'osx')['prog']
            if m['prog'] and m['lsb'] and rng.random() < .8:
                m['lsb'] = []
        records += ask_plugins(m, files, rng)
    ctx.count('detectors asked', len(records))
    ctx.sample(records[0])
    ctx.sample(records[-1])
    ctx.judge('DetectJudge', records, cfg=JUDGE_CFG, batch=4000)
    k = ctx.pick(200, 4000)
    traces = []
    for c in lists if len(lists) <= k else rng.sample(lists, k):
        acts = [tuple(int(x) if x.isdigit() else x for x in a)
                for a in c['last']]
        n = sum(1 for a in acts if a[0] == 'new')
        acts += [('new',)]
        acts += [('detect', i, [], 'kw') for i in range(1, n + 2)]
        acts += [('detector', i, x) for i in range(1, n + 2)
                 for x in ('a', 'b')]
        traces.append(Lists(c['m'], rng).run(acts))
    for _ in range(ctx.pick(400, 6000)):
        dets, acts = random_history(rng, rng.choice([5, 10, 20]))
        traces.append(Lists(dets, rng).run(acts))
    ctx.count('histories of detector lists', len(traces))
    ctx.sample(traces[-1])
    ctx.validate('DetectTrace', traces, batch=2000)
    ctx.assumptions += [
        'release files are text, and an issue file does not begin with the '
        'word release',
        'the Linux distribution is the one the platform module of Python '
        'gives; current Pythons do not give it any more',
        'getters that remember answers are only used on instances whose '
        'list did not change and that were not overridden']
