"""C35: how the built-in installers drive their package managers."""
import os
import shutil
import subprocess

MC_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxSteps = %d DoEmit = %s
INVARIANTS Done OnePerPackage Exact Emit
'''
PIP = '''#!/bin/sh
case "$1" in
freeze)
  echo "# a comment"
  printf 'warning: p==1\\np==1\\nq==2\\npython-yaml==3\\n' >&2
  n=0
  while IFS= read -r p; do n=$((n+1)); printf '%%s==%%s.0\\n' "$p" "$n"; done < "%(d)s/pip"
  printf '%%s' "%(tail)s"
  exit %(status)d ;;
install)
  for p in "$@"; do last="$p"; done
  printf '%%s\\n' "$last" >> "%(d)s/pip" ;;
esac
'''
OTHER = '#!/bin/sh\nexit %d\n'
PROGRAM = dict(apt='apt-get', homebrew='brew', macports='port', pip='pip',
               fake='touch')
KINDS = sorted(PROGRAM)
NAMES = ['p', 'q', 'pp', 'p-extra', 'python-yaml', 'python3-yaml', 'P', 'é中',
         'a b', '-y', '--help', 'lib=x', 'x' * 60, "quo'te", '@p', '{p}',
         'p.q', '$HOME', 'a*', 'p_q', '#x', 'P-Q', '*', 'sub/p', 'sub/q']
ALIKE = ['p', 'P', 'pp', 'p-extra', 'P-Q', 'p-q', 'p_q', 'p.q', 'sub/p']


class Machine:
    def __init__(self, ctx, rng, there=None, has=None):
        self.ctx, self.rng = ctx, rng
        self.d = os.path.realpath(ctx.tmp())
        self.bin = os.path.join(self.d, 'bin')
        self.dir = os.path.join(self.d, rng.choice(
            ['inst', 'in st', 'a/b/inst']))
        os.makedirs(self.bin)
        for x in ('sh', 'touch'):
            os.symlink(shutil.which(x, path='/bin:/usr/bin'),
                       os.path.join(self.bin, x))
        self.has = {k: [] for k in KINDS}
        there = KINDS if there is None else there
        for k in there:
            self.gain(k)
        open(os.path.join(self.d, 'pip'), 'w').close()
        has = has or {}
        for k in sorted(has):
            for p in has[k]:
                self.put(k, p)
        self.cfg = dict(there=list(there), has={
            k: list(has.get(k, [])) for k in KINDS}, dir=self.dir)
        self.events = []
        self.objs = {}

    def script(self, name, text):
        p = os.path.join(self.bin, name)
        with open(p, 'w') as f:
            f.write(text)
        os.chmod(p, 0o755)

    def gain(self, k):
        if k == 'fake':
            # with a place for names such as sub/p
            os.makedirs(os.path.join(self.dir, 'sub'), exist_ok=True)
            return
        p = os.path.join(self.bin, PROGRAM[k])
        if os.path.isdir(p):
            os.rmdir(p)
        self.script(PROGRAM[k], OTHER % self.rng.choice([0, 0, 1, 2])
                    if k != 'pip' else PIP % dict(
                        d=self.d, status=self.rng.choice([0, 0, 1]),
                        tail=self.rng.choice(['', '\n', '-e git+x#egg=p\n'])))

    def lose(self, k):
        if k == 'fake':
            shutil.rmtree(self.dir, ignore_errors=True)
            return
        p = os.path.join(self.bin, PROGRAM[k])
        if os.path.isdir(p):
            return
        how = self.rng.choice(['gone', 'mode', 'dir'])
        if how == 'mode' and os.path.exists(p):
            os.chmod(p, 0o644)
            return
        if os.path.lexists(p):
            os.unlink(p)
        if how == 'dir':
            os.makedirs(p)

    def put(self, k, p):
        if k == 'fake':
            path = os.path.join(self.dir, p)
            if self.rng.random() < .2 and not os.path.lexists(path):
                os.makedirs(path)
            elif not os.path.lexists(path):
                open(path, 'w').close()
        elif k == 'pip':
            with open(os.path.join(self.d, 'pip')) as f:
                lines = f.read().split('\n')[:-1]
            lines.insert(self.rng.randint(0, len(lines)), p)
            self.write(lines)

    def write(self, lines):
        with open(os.path.join(self.d, 'pip'), 'w') as f:
            f.write(''.join(x + '\n' for x in lines))

    def drop(self, k, p):
        if k == 'fake':
            path = os.path.join(self.dir, p)
            if os.path.isdir(path):
                os.rmdir(path)
            elif os.path.lexists(path):
                os.unlink(path)
        else:
            with open(os.path.join(self.d, 'pip')) as f:
                lines = f.read().split('\n')[:-1]
            self.write([x for x in lines if x != p])

    def obj(self, k):
        from xylem.installers.plugins import (
            apt, fake, homebrew, macports, pip)
        if k not in self.objs or self.rng.random() < .2:
            o = dict(apt=apt.AptInstaller, homebrew=homebrew.HomebrewInstaller,
                     macports=macports.MacportsInstaller,
                     pip=pip.PipInstaller, fake=fake.FakeInstaller)[k]()
            if k == 'fake':
                o.options = dict(install_dir=self.dir)
            self.objs[k] = o
        return self.objs[k]

    def run(self, actions):
        path, cwd = os.environ['PATH'], os.getcwd()
        os.environ['PATH'] = self.bin
        os.chdir(self.d)
        try:
            for a in actions:
                self.act(*a)
        finally:
            os.environ['PATH'] = path
            os.chdir(cwd)
        return dict(cfg=self.cfg, events=self.events)

    def act(self, op, k, arg=None):
        ev = dict(op=op, kind=k)
        o, rng = self.obj(k), self.rng
        if op in ('put', 'drop', 'lose', 'gain'):
            getattr(self, op)(*[x for x in (k, arg) if x is not None])
            if arg is not None:
                ev.update(p=arg)
        elif op == 'run':
            res = o.resolve({'packages': [arg]})
            cmds = o.get_install_commands_no_root(res)
            try:
                ok = subprocess.call(
                    cmds[0], stdout=subprocess.DEVNULL,
                    stderr=subprocess.DEVNULL, cwd=self.d) == 0
            except OSError:
                ok = False
            ev.update(p=arg, ok=ok)
        elif op == 'compose':
            res = o.resolve({'packages': list(arg)})
            kw = {f: rng.random() < .5 for f in ('interactive', 'reinstall')
                  if rng.random() < .5}
            got = o.get_install_commands_no_root(res, **kw)
            ev.update(pkgs=arg, got=[list(c) for c in got])
        elif op in ('missing', 'installed'):
            res = o.resolve({'packages': list(arg)})
            got, fails = [] if op == 'missing' else False, False
            try:
                got = [r.package for r in o.filter_uninstalled(res)] \
                    if op == 'missing' else bool(o.is_installed(
                        res[0] if len(res) == 1 and rng.random() < .5
                        else res))
            except OSError:
                fails = True
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, e)
            ev.update(pkgs=arg, got=got, fails=fails)
        elif op == 'there':
            ev.update(got=bool(o.is_package_manager_installed()))
        elif op == 'additional':
            ev.update(got=bool(o.use_as_additional_installer(
                rng.choice([('ubuntu', 'trusty'), ('osx', 'lion'),
                            ('debian', None)]))))
        elif op == 'manager':
            try:
                o.install_package_manager(('ubuntu', 'trusty'),
                                          *rng.choice([(), (True,), (False,)]))
                r = 'ok'
            except NotImplementedError:
                r = 'unsupported'
            except Exception as e:
                r = '%s: %s' % (type(e).__name__, e)
            if k == 'fake' and os.path.isdir(self.dir):
                os.makedirs(os.path.join(self.dir, 'sub'), exist_ok=True)
            ev.update(result=r)
        self.events.append(ev)


def random_actions(rng, size, there, only=None):
    there = set(there)
    # at times, names that are alike
    pool = rng.sample(ALIKE if rng.random() < .3 else NAMES,
                      rng.choice([2, 4, 8]))
    acts = []
    while len(acts) < size:
        k = only or rng.choice(KINDS + ['pip', 'fake'])
        telling = k in ('pip', 'fake')
        some = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
        x = rng.random()
        if x < .2:
            acts.append(('compose', k, some))
        elif x < .45 and (telling or rng.random() < .5):
            acts.append((rng.choice(['missing', 'missing', 'installed']), k,
                         some))
        elif x < .6 and telling:
            acts.append(('run', k, rng.choice(pool)))
        elif x < .7 and telling and k in there:
            acts.append((rng.choice(['put', 'drop']), k, rng.choice(pool)))
        elif x < .76:
            acts.append(('there', k))
        elif x < .79:
            acts.append(('additional', k))
        elif x < .84:
            acts.append(('manager', k))
            if k == 'fake':
                there.add(k)
        elif x < .9:
            acts.append(('lose', k))
            there.discard(k)
            acts.append(('there', k))
        elif x < .97:
            acts.append(('gain', k))
            there.add(k)
    return acts


def c35(ctx):
    rng = ctx.rng
    ctx.model_check('ManagersMC', MC_CFG % (ctx.pick(4, 6), 'FALSE'),
                    workers=4)
    r = ctx.model_check('ManagersMC', MC_CFG % (3, 'TRUE'))
    k = ctx.pick(120, 1500)
    cases = r.emitted if len(r.emitted) <= k else rng.sample(r.emitted, k)
    traces = []
    for c in cases:
        acts, there = [], {c['kind']}
        for h in c['hist']:
            if h[0] in ('put', 'drop') and c['kind'] not in there:
                continue
            acts.append((h[0], c['kind']) + tuple(h[1:]))
            if h[0] == 'lose':
                there = set()
            elif h[0] in ('gain', 'manager') and (
                    h[0] == 'gain' or c['kind'] == 'fake'):
                there = {c['kind']}
            acts += [('missing', c['kind'], rng.choice(
                [['p', 'q'], ['q', 'p'], ['p', 'p'], ['q']])),
                ('there', c['kind'])]
        traces.append(Machine(ctx, rng).run(acts))
    ctx.count('histories enumerated', len(r.emitted))
    ctx.count('histories replayed', len(traces))
    for _ in range(ctx.pick(150, 2500)):
        there = [x for x in KINDS if rng.random() < .8]
        has = {x: rng.sample(rng.choice([NAMES, ALIKE]), rng.randint(0, 5))
               for x in ('pip', 'fake') if x in there}
        traces.append(Machine(ctx, rng, there, has).run(random_actions(
            rng, rng.choice([8, 16, 30]), there,
            rng.choice([None, None, 'fake', 'pip']))))
        ctx.count('random histories')
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.validate('ManagersTrace', traces, batch=1000)
    ctx.assumptions += [
        'package managers are stand-ins; pip lists packages as name==version '
        'with the name as it is in the rules',
        'apt, homebrew and macports cannot tell what is installed (see '
        'known finding installed-never-detected)']
