"""C27: the xylem process (spec/CommandLine.tla)."""
import gc
import importlib
import json
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

import yaml

from harness import world
from harness.core import attempt

CL_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxRuns=%d Faulty=%s Few=%s DoEmit=%s
INVARIANTS ResolveTruth InstallTruth InstallFailure DryRun FaultFails Emit
PROPERTIES OnlyInstallInstalls OnlyUpdateCaches NeverUninstalls
CHECK_DEADLOCK FALSE
'''

PIP = '''#!/bin/sh
case "$1" in
freeze) while read p; do echo "$p==1.0"; done < "$XW/pip" ;;
install)
  shift; while [ "$#" -gt 1 ]; do shift; done
  echo "pip $1" >> "$XW/log"
  b=ok; [ -f "$XW/behave/$1" ] && read b < "$XW/behave/$1"
  case "$b" in fails) exit "$XC" ;; lies) exit 0 ;; esac
  echo "$1" >> "$XW/pip" ;;
esac
exit 0
'''
TOUCH = '''#!/bin/sh
n="${1##*/}"
echo "fake $n" >> "$XW/log"
b=ok; [ -f "$XW/behave/$n" ] && read b < "$XW/behave/$n"
case "$b" in fails) exit "$XC" ;; lies) exit 0 ;; esac
: > "$1"
'''
SUDO = '''#!/bin/sh
exec "$@"
'''
OTHER = '''#!/bin/sh
[ "$#" -gt 0 ] && echo "${0##*/} $*" >> "$XW/log"
exit 0
'''

BROKEN = [{'key': '', 'insts': [{'inst': 'broken', 'pkgs': []}]}]

SHELL = 'import sys\nfrom xylem.commands.main import main\nmain()\n'


# '' stands for the source that there is already
BAD_SOURCES = [
    '- unheard: "of"\n', '- unheard: "of"\n', '', '', 'rules: file:///x\n',
    '- rules\n', '- rules: 3\n', '- rules: []\n', '- 3: x\n', '7\n',
    '- {rules: "file:///x", unheard: of}\n', '- [rules, "file:///x"]\n',
    '# nothing\n', '- {}\n', '- rules: file:///x\n- rules: file:///x\n']


class Box(object):
    """A directory with everything a xylem process uses."""

    def __init__(self, ctx, w, rules, installed, has_dir, os_name, version):
        self.ctx, self.rng = ctx, ctx.rng
        self.w, self.os_name = w, os_name
        self.d = ctx.tmp()
        self.inst = os.path.join(self.d, 'inst')
        self.xd = os.path.join(self.d, 'xd')
        self.bin = os.path.join(self.d, 'bin')
        for p in (self.bin, self.xd, os.path.join(self.d, 'behave'),
                  os.path.join(self.d, 'home'),
                  os.path.join(self.xd, 'sources.d')):
            os.makedirs(p)
        for name, text in [('pip', PIP), ('touch', TOUCH), ('sudo', SUDO)] + \
                [(n, OTHER) for n in ('apt-get', 'brew', 'port', 'dpkg')]:
            p = os.path.join(self.bin, name)
            with open(p, 'w') as f:
                f.write(text)
            os.chmod(p, 0o755)
        for p, b in w['behave']:
            with open(os.path.join(self.d, 'behave', p), 'w') as f:
                f.write(b + '\n')
        self.kind = {p: i['inst'] for k in rules for i in k['insts']
                     for p in i['pkgs']}
        if has_dir:
            os.makedirs(self.inst)
        with open(os.path.join(self.d, 'pip'), 'w') as f:
            f.write(''.join(p + '\n' for p in installed
                            if self.kind.get(p) == 'pip'))
        for p in installed:
            if self.kind.get(p) == 'fake':
                open(os.path.join(self.inst, p), 'w').close()
        self.config(os='%s:%s' % (os_name, version))
        self.source = '- rules: "file://%s"\n' % os.path.join(
            self.d, 'rules.yaml')
        world.write_sources(os.path.join(self.xd, 'sources.d'), [
            {'rules': 'file://' + os.path.join(self.d, 'rules.yaml')}])
        self.version = version
        self.rules = rules
        self.write(rules)
        self.events = []
        self.header = dict(w=w, rules=rules, installed=sorted(installed),
                           dir=has_dir)

    def config(self, os=None):
        cfg = dict(core_installers=self.w['core'],
                   use_additional_installers=bool(self.w['extra']),
                   installer_options={'fake': {'install_dir': self.inst}})
        if os:
            cfg['os_override'] = os
        with open(self.xd + '/config.yaml', 'w') as f:
            yaml.safe_dump(cfg, f, allow_unicode=True)

    def write(self, rules):
        rng = self.rng
        text = rng.choice(['{', 'a: b: c', '- [1, 2', 'a: &x\n- *y'])
        if rules != BROKEN:
            doc = {}
            for k in rules:
                insts = {i['inst']: rng.choice(
                    [i['pkgs'], {'packages': i['pkgs']}])
                    for i in k['insts']}
                own = rng.choice(['any_version', self.version])
                doc[k['key']] = {rng.choice([self.os_name, 'any_os'])
                                 if own == 'any_version' else self.os_name:
                                 {own: insts}}
                if not insts:
                    doc[k['key']] = {'nowhere': {'any_version': {
                        'fake': ['never']}}}
            text = yaml.safe_dump(doc, allow_unicode=True)
        with open(os.path.join(self.d, 'rules.yaml'), 'wb') as f:
            f.write(text.encode('utf-8'))
        # a later change is seen as such
        self.text = text

    def edit(self, rules):
        self.rules = rules
        self.write(rules)
        self.events.append(dict(op='edit', rules=rules))

    def run(self, cmd, keys, fault, flags, process=False):
        rng = self.rng
        argv = ['--no-color', '--xylem-dir', self.xd]
        tail = []
        extra = os.path.join(self.xd, 'sources.d',
                             rng.choice(['00-x.yaml', '99-x.yaml']))
        self.config(os='%s:%s' % (self.os_name, self.version))
        if fault == 'config':
            tail.append(rng.choice([
                '--core-installers={a: 1}', '--installer-options=7',
                '--user-sources=[1]', '--install-from=[x]']))
        elif fault == 'option':
            tail.append(rng.choice(['--unheard-of', '-q', '--no-such=3']))
        elif fault == 'source':
            with open(extra, 'w') as f:
                f.write(rng.choice(BAD_SOURCES) or self.source)
        elif fault == 'os':
            how = rng.choice(['nosuch', 'nosuch:1', self.os_name + ':nosuch',
                              self.os_name, None])
            self.config(os=how)
        argv.append({'compact': '_compact_rules_file', 'none': '',
                     'unknown': rng.choice(['frobnicate', 'Resolve']),
                     'help': rng.choice(['-h', '--help', '--version'])
                     }.get(cmd, cmd))
        if not argv[-1]:
            argv.pop()
        self.interrupt = None
        if fault == 'interrupt':
            self.interrupt = os.path.join(self.d, 'rules.yaml') \
                if cmd in ('update', 'compact') else \
                os.path.join(self.xd, 'cache') + os.sep
        if cmd == 'compact':
            tail.append(os.path.join(self.d, 'rules.yaml'))
        pos = list(keys)
        opts = ['--' + f for f in flags] + tail
        rng.shuffle(opts)
        cut = rng.randint(0, len(opts))
        pos = opts[:cut] + pos + opts[cut:]
        log = os.path.join(self.d, 'log')
        open(log, 'w').close()
        run = self.process if process and not self.interrupt else self.fork
        code, out, err = run(argv + pos)
        if os.path.exists(extra):
            os.unlink(extra)
        with open(os.path.join(self.d, 'rules.yaml'), 'rb') as f:
            kept = f.read() == self.text.encode('utf-8')
        with open(log) as f:
            ran = [x.split(None, 1) for x in f.read().splitlines()]
        ran = [(x + [''])[:2] for x in ran]
        with open(os.path.join(self.d, 'pip')) as f:
            installed = f.read().split()
        if os.path.isdir(self.inst):
            installed += os.listdir(self.inst)
        self.events.append(dict(op='run', cmd=cmd, keys=list(keys),
                                fault=fault, flags=sorted(flags)))
        docs = documents(out) if cmd == 'lookup' else []
        self.events.append(dict(
            op='exit', code=code if kept else 99, hung=code == 98,
            message=bool(err.strip()), silent=not err,
            traceback='Traceback (most recent call last)' in err,
            usage='usage:' in err, out=resolved(out) if cmd == 'resolve'
            else [], planned=planned(out) if 'dry-run' in flags else [],
            docs=docs, ran=ran, installed=sorted(set(installed)),
            dir=os.path.isdir(self.inst)))
        return code, out, err

    def env(self):
        env = {k: v for k, v in os.environ.items()
               if not k.startswith('XYLEM')}
        env.update(PATH=self.bin, XW=self.d,
                   XC=self.rng.choice(['1', '2', '3', '100', '130', '255']),
                   HOME=self.d + '/home',
                   PYTHONIOENCODING='utf-8', COLUMNS='80')
        return env

    def process(self, argv):
        self.ctx.count('processes')
        env = self.env()
        env['PYTHONPATH'] = os.pathsep.join(
            p for p in sys.path if p and not p.startswith(self.ctx.root))
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', SHELL] +
                             argv, env=env, cwd=self.d,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return 98, out.decode('utf-8', 'replace'), 'hung'
        return (p.returncode, out.decode('utf-8', 'replace'),
                err.decode('utf-8', 'replace'))

    def fork(self, argv):
        """The same in a forked process."""
        self.ctx.count('forked processes')
        files = [os.path.join(self.d, n) for n in ('stdout', 'stderr')]
        pid = os.fork()
        if pid == 0:
            code = 97
            try:
                signal.alarm(60)
                os.chdir(self.d)
                os.environ.clear()
                os.environ.update(self.env())
                for fd, n in zip((1, 2), files):
                    f = os.open(n, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
                    os.dup2(f, fd)
                sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
                sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
                if self.interrupt:
                    sys.addaudithook(self.hook)
                code = exit_code(argv)
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        res = []
        for n in files:
            with open(n, 'rb') as f:
                res.append(f.read().decode('utf-8', 'replace'))
        code = 98 if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        return code, res[0], res[1]

    def hook(self, event, args):
        """The user interrupts when a file is opened."""
        if event == 'open' and self.interrupt and \
                str(args[0]).startswith(self.interrupt):
            self.interrupt = None
            raise KeyboardInterrupt()

    def trace(self):
        return dict(self.header, events=self.events)


def exit_code(argv):
    from xylem.commands.main import main
    sys.argv = ['xylem'] + argv
    try:
        main()
        return 0
    except SystemExit as e:
        if e.code is None:
            return 0
        if isinstance(e.code, int):
            return e.code & 255
        sys.stderr.write('%s\n' % (e.code,))
        return 1
    except BaseException:
        traceback.print_exc()
        return 1


def resolved(out):
    res = []
    for line in out.splitlines():
        m = re.match(r'(.*?)\s*-->\s*(?:(\w+): )?\s*(.*)$', line)
        if m:
            res.append([m.group(1), [m.group(2)] if m.group(2) else [],
                        [p for p in re.split(r',\s*', m.group(3)) if p]])
        elif line.strip():
            res.append([line, [], []])
    return res


def planned(out):
    res = []
    for line in out.splitlines():
        words = line.split()
        if words[:1] == ['sudo']:
            words = words[1:]
        if line.startswith('#') or not words:
            continue
        kind = {'touch': 'fake', 'pip': 'pip'}.get(words[0], words[0])
        res.append([kind, os.path.basename(words[-1])])
    return res


def documents(out):
    res = []
    parts = re.split(r"^Rules for '(.*)' on '.*':$", out, flags=re.M)
    for key, text in zip(parts[1::2], parts[2::2]):
        kind, v = attempt(yaml.safe_load, text)
        if kind != 'ok':
            res.append([key, ['invalid', text]])
        elif v == {} or v is None:
            res.append([key, ['none', []]])
        elif isinstance(v, dict):
            res.append([key, ['dict', sorted(
                [i, packages(p)] for i, p in v.items())]])
        else:
            res.append([key, ['list', packages(v)]])
    return res


def packages(v):
    if isinstance(v, dict) and list(v) == ['packages']:
        v = v['packages']
    return [v] if isinstance(v, str) else \
        v if isinstance(v, list) else ['?', repr(v)]


KEYED = ['resolve', 'lookup', 'install']
CORES = ['fake', 'pip']
SYSTEMS = [('ubuntu', 'trusty', 'apt'), ('debian', 'wheezy', 'apt'),
           ('xubuntu', 'lucid', 'apt'), ('osx', 'lion', 'homebrew')]
FLAGS = {'install': ['reinstall', 'dry-run', 'continue-on-error',
                     'fix-prerequisites', 'all'],
         'resolve': ['all', 'show-default-installer'],
         'update': ['dry-run']}
ODD = ['n', 'a\\t', "it's", '# x', 'x y: ', '', '-', '@', '"', 'é', '%']
KEYS = ['boost', 'python-yaml', 'é', 'a', 'k2', 'z', 'lib.x', 'B']


def random_rules(rng, keys, insts, fresh):
    res = []
    for k in keys:
        if rng.random() < .15:
            continue
        entry = []
        for i in rng.sample(insts, rng.choice([0, 1, 1, 2, 2, 3])
                            if len(insts) > 2 else 1):
            entry.append(dict(inst=i, pkgs=[
                '%s%d' % (i[:1] if i != 'nosuch' else rng.choice(ODD),
                          next(fresh))
                for _ in range(rng.choice([1, 1, 2, 3]))]))
        res.append(dict(key=k, insts=entry))
    return res


def numbers():
    n = 0
    while True:
        n += 1
        yield n


def random_box(ctx, rng):
    os_name, version, default = rng.choice(SYSTEMS)
    native = rng.random() < .35
    insts = ['fake', 'pip', 'nosuch']
    core = rng.sample(CORES, rng.randint(1, 2))
    if native:
        insts.append(default)
        core.insert(rng.randint(0, len(core)), default)
    fresh = numbers()
    keys = rng.sample(KEYS, rng.randint(1, 5))
    rules = random_rules(rng, keys, insts, fresh)
    pkgs = [p for k in rules for i in k['insts'] if i['inst'] in CORES
            for p in i['pkgs']]
    has_dir = rng.random() < .7
    installed = [p for p in pkgs if rng.random() < .25 and
                 (has_dir or p[0] == 'p')]
    more = [random_rules(rng, keys, insts, fresh) for _ in range(2)]
    every = pkgs + [p for m in more for k in m for i in k['insts']
                    for p in i['pkgs']]
    # a package that is installed by other means is not tried
    behave = [[p, rng.choice(['fails', 'lies'])] for p in every
              if rng.random() < .15]
    w = dict(order=sorted(keys), core=core, default=default,
             extra=['pip'] if 'pip' not in core and rng.random() < .6
             else [], behave=behave)
    b = Box(ctx, w, rules, installed, has_dir, os_name, version)
    b.later = more + [BROKEN]
    b.keys = keys + ['unheard']
    b.native = native
    return b


def random_run(b, rng, process=False, faulty=.3):
    cmd = rng.choice(['resolve'] * 3 + ['install'] * 3 +
                     ['lookup', 'lookup', 'update', 'compact', 'none',
                      'unknown', 'help'])
    if b.native and cmd == 'install':
        cmd = 'resolve'
    fault = '' if cmd in ('none', 'unknown', 'help') or rng.random() > faulty \
        else rng.choice(['option', 'config', 'source', 'os', 'interrupt'])
    keys = [] if cmd not in KEYED or \
        rng.random() < .05 else [rng.choice(b.keys)
                                 for _ in range(rng.randint(1, 4))]
    flags = [f for f in FLAGS.get(cmd, ()) if rng.random() < .3]
    b.run(cmd, keys, fault, flags, process)


def replay(ctx, rng, e):
    w = e['w']
    b = Box(ctx, w, e['rules'], e['installed'], e['dir'], 'ubuntu', 'trusty')
    if e['cached']:
        b.run('update', [], '', [])
    r = e['run']
    b.run(r['cmd'], r['keys'], r['fault'], r['flags'])
    if r['cmd'] in ('update', 'compact') or rng.random() < .1:
        b.run('resolve', w['order'], '', [])
    return b


def detects_nothing(name):
    """Whether the installer calls every package uninstalled."""
    from xylem.installers.impl import load_installer_plugins
    for inst in load_installer_plugins():
        if inst.name == name:
            kind, items = attempt(lambda: inst.filter_uninstalled(
                inst.resolve({'packages': ['p', 'bash']})))
            return kind == 'ok' and len(items) == 2
    return False


def never_detected(ctx, rng):
    """Packages of apt and homebrew are never found to be installed."""
    for os_name, version, inst in (SYSTEMS[0], SYSTEMS[3]):
        w = dict(order=['k'], core=[inst], extra=[], default=inst, behave=[])
        b = Box(ctx, w, [dict(key='k', insts=[
            dict(inst=inst, pkgs=['p'])])], [], True, os_name, version)
        b.run('update', [], '', [])
        code, out, err = b.run('install', ['k'], '', [])
        if code == 0:
            continue
        if code == 1 and err.count('InstallError') == 1 and \
                'Traceback' not in err and \
                'install p' in out and detects_nothing(inst) and \
                ctx.known('installed-never-detected'):
            continue
        ctx.violation('install fails with %s although the command succeeds' %
                      inst, code=code, out=out, err=err)


def one(ctx, job):
    kind, seed, data = job
    rng = ctx.rng = random.Random(seed)
    if kind == 'replay':
        return replay(ctx, rng, data).trace()
    b = random_box(ctx, rng)
    if kind == 'interrupted':
        for cmd in rng.sample(data, len(data)):
            random_run(b, rng)
            if not (b.native and cmd == 'install'):
                b.run(cmd, b.keys[:1] if cmd in KEYED else [], 'interrupt',
                      [f for f in FLAGS.get(cmd, ()) if rng.random() < .3])
        b.run('resolve', b.keys, '', [])
        return b.trace()
    if rng.random() < .85:
        b.run('update', [], '', [], process=data)
    for j in range(rng.choice([3, 6, 9])):
        if rng.random() < .15:
            b.edit(rng.choice(b.later))
            if rng.random() < .8:
                b.run('update', [], '', rng.choice([[], [], ['dry-run']]))
                b.run(rng.choice(['resolve', 'lookup']), b.keys, '', [])
        random_run(b, rng, process=data and j < 2)
    return b.trace()


def in_workers(ctx, jobs, n=8):
    """The traces of all jobs; they are run by forked processes."""
    import xylem.commands.main
    for cmd in ('install', 'resolve', 'lookup', 'update',
                '_compact_rules_file'):
        importlib.import_module('xylem.commands.' + cmd)
    assert xylem.commands.main
    gc.collect()
    gc.freeze()
    files = []
    pids = []
    for k in range(n):
        path = os.path.join(ctx.tmp(), 'traces.json')
        files.append(path)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                ctx.coverage.clear()
                ctx.scratch = os.path.dirname(path)
                res = [one(ctx, j) for j in jobs[k::n]]
                with open(path, 'w') as f:
                    json.dump([res, ctx.coverage], f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
    ok = [os.waitpid(pid, 0)[1] == 0 for pid in pids]
    if not all(ok):
        raise RuntimeError('a worker failed')
    parts = []
    for path in files:
        with open(path) as f:
            res, counts = json.load(f)
        parts.append(res)
        for c, v in counts.items():
            ctx.count(c, v)
    return [parts[k % n][k // n] for k in range(len(jobs))]


def c27(ctx):
    rng = ctx.rng
    ctx.model_check('CommandLineMC', CL_CFG % (1, 'FALSE', 'FALSE', 'FALSE'),
                    workers=8)
    if ctx.thorough:
        ctx.model_check('CommandLineMC',
                        CL_CFG % (2, 'TRUE', 'TRUE', 'FALSE'), workers=8)
    r = ctx.model_check('CommandLineMC', CL_CFG % (
        1, ctx.pick('FALSE', 'TRUE'), 'TRUE', 'TRUE'))
    starts = r.emitted
    ctx.count('runs enumerated', len(starts))
    k = ctx.pick(250, 4000)
    if len(starts) > k:
        starts = rng.sample(starts, k)
    began = time.time()
    jobs = [('replay', rng.random(), e) for e in starts]
    jobs += [('random', rng.random(), k % 8 == 0)
             for k in range(ctx.pick(60, 1000))]
    jobs += [('interrupted', rng.random(), KEYED + ['update', 'compact'])
             for k in range(ctx.pick(4, 60))]
    traces = in_workers(ctx, jobs)
    never_detected(ctx, rng)
    ctx.count('seconds for running', round(time.time() - began))
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.validate('CommandLineTrace', traces)
    ctx.assumptions += [
        'installers and package managers of the process are stand-ins; '
        'packages are named uniquely']
