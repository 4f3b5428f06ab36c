"""C42: printing the configuration in force (spec/Effective.tla)."""
import hashlib
import json
import os
import re

import yaml

from harness.core import MachineryError
from harness.props import config as cf
from harness.props import offers

MC_CFG = '''
CONSTANTS Overrides = {%s} Deep = %s
INIT Init
NEXT Next
INVARIANT PrintsWhatRuns
INVARIANT OnlyPrints
INVARIANT SameRejection
INVARIANT Complete
INVARIANT Features
'''
JUDGE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TReport\n'
PROBE = '''
def main(args=None):
    args = command_handle_args(args, definition)
    from harness.props.config import enc
    cfg = get_config()
    if isinstance(cfg.os_override, tuple):
        cfg = dict(cfg, os_override=list(cfg.os_override))
    with open(os.environ['RAN'], 'a') as f:
        f.write(json.dumps(dict(cfg=enc(dict(cfg)))) + '\\n')


definition =''' + ' '


class World(offers.World):
    def __init__(self, ctx):
        offers.World.__init__(self, ctx, [dict(
            name='cmdaa', title='cmdaa', kind='valid', result='none', id=1)], None)
        path = os.path.join(self.d, self.mods[1] + '.py')
        with open(path) as f:
            s = f.read()
        a, b = s.index('def main('), s.index('definition = ')
        s = s[:a] + PROBE.lstrip('\n') + s[b + len('definition = '):]
        with open(path, 'w') as f:
            f.write(s)
        self.cwd = os.getcwd()
        self.place = cf.Place(ctx)
        self.place.tool = 'xylem'
        # something to update from, and nothing that is cached
        rules = os.path.join(self.d, 'rules.yaml')
        with open(rules, 'w') as f:
            f.write('k: {any_os: {any_version: {fake: [p]}}}\n')
        for p in ('etc/xylem', '../dir', '../decoy', '../decoy/etc/xylem'):
            p = os.path.join(self.place.prefix, p, 'sources.d')
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, 'a.yaml'), 'w') as f:
                f.write('- rules: file://%s\n' % rules)
        self.desc = cf.xylem_desc() + [dict(
            group='', key='opt1', type=['str'], default=cf.enc('default'),
            cl=False, arg='opt1', py='default')]

    def files(self):
        """Everything that a run could change."""
        res = []
        for top in (self.place.root, os.environ['HOME'], self.xd, self.cwd):
            if top in ('/', '/verif') or top == self.d:
                continue
            for d, ds, fs in os.walk(top):
                ds[:] = sorted(x for x in ds
                               if os.path.join(d, x) != self.d)
                res.append(d)
                for n in sorted(fs):
                    p = os.path.join(d, n)
                    if os.path.isfile(p):
                        with open(p, 'rb') as f:
                            res.append(p + hashlib.md5(f.read()).hexdigest())
        return res

    def case(self):
        rng, place = self.rng, self.place
        wrong = rng.choice([0, 0, 0, .03])
        argv, given = cf.random_args(rng, self.desc, wrong, drop=.75)
        if rng.random() < .5:
            t = rng.choice(['ubuntu', 'ubuntu:trusty', 'fedora:20&a, b',
                            'x&', ' debian : jessie ', ':', '', 'a:b:c&d&e',
                            '&f', 'osx:10.9&a,,b', 'u:\u00fc'])
            n = [i['arg'] for i in self.desc].index('os')
            argv = argv + ['--os=' + t]
            given[n] = given[n] + [cf.text_rec(t)]
        files = {}
        for w in ('dir', 'system', 'user'):
            b, told = cf.random_file(rng, self.desc, wrong)
            place.put(w, b, 'xylem')
            files[w] = told
        which = rng.choice(['dir', 'system', 'both', 'both'])
        glob = place.argv(which, rng)
        e = {k: os.environ[k] for k in ('XYLEM_PREFIX', 'XYLEM_DIR')
             if k in os.environ}
        place.clear_env()
        a = dict(prefix_cl=[], prefix_env=[], dir_cl=[], dir_env=[])
        for k, name in (('prefix', '--prefix'), ('dir', '--xylem-dir')):
            if name in glob:
                a[k + '_cl'] = glob[glob.index(name) + 1].split('/')
            v = e.get('XYLEM_' + k.upper())
            if v:
                a[k + '_env'] = v.split('/')
        self.env = dict(XYLEM_DIR=None, HOME=os.environ['HOME'])
        self.env.update(e)
        opts = glob + argv
        color = rng.choice([[], ['--no-color']])
        cmd = rng.choice([['cmdaa', 'k'], ['cmdaa'], ['resolve', 'k'],
                          ['install', 'k'], ['install', '--all'], ['update'],
                          ['lookup', 'k', 'l'], []])
        if cmd == ['install', '--all']:
            cmd = ['install', 'k', '--all']
        before = self.files()
        line = color + ['--print-config']
        r = rng.random()
        if not cmd:
            line = line + opts
        elif r < .35:
            line = line + opts + cmd
        elif r < .7:
            line = cmd[:1] + opts + line + cmd[1:]
        elif r < .85:
            line = opts + cmd + line
        else:
            line = line + cmd[:1] + opts + cmd[1:]
        code, out, err, ran = self.run(line)
        changed = before != self.files()
        printed = self.doc(out)
        code2, out2, err2, ran2 = self.run(['cmdaa'] + opts)
        used = [r['cfg'] for r in ran2]
        pub = cf.public(self.desc)
        res = [dict(op='print', changed=changed, ran=bool(ran), code=code,
                    printed=printed, used=used, argv=line, error=ascii(
                        err[-600:]),
                    w=dict(desc=pub, given=given, files=files, which=which,
                           env=dict(cf.env_for(pub, given, files),
                                    cwd=self.cwd.strip('/').split('/')),
                           a=a))]
        if not code and printed and printed[0][0] == 'd' and \
                [['s', 'os_override'], ['n']] in printed[0][1]:
            d = os.path.join(self.d, 'again')
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'config.yaml'), 'w',
                      encoding='utf-8') as f:
                f.write(self.text(out))
            self.env = dict(XYLEM_DIR=d, HOME=os.environ['HOME'])
            code, out, err, ran = self.run(['--print-config'] + rng.choice(
                [[], ['update']]))
            res.append(dict(op='again', one=printed, two=self.doc(out),
                            argv=line))
        return res

    @staticmethod
    def text(out):
        return re.sub('\x1b\\[[0-9;]*m', '', out)

    def doc(self, out):
        """The document that is printed, or nothing."""
        if not self.text(out).strip():
            return []
        try:
            return [cf.enc(x) for x in yaml.safe_load_all(self.text(out))]
        except Exception:
            return [['o', 'not YAML: ' + ascii(out[:300])]]


def c42(ctx):
    ctx.model_check('EffectiveMC', MC_CFG % (
        '"n", "n:v", "n&f, g"' + ctx.pick('', ', " n : v & f", "", ":"'),
        ctx.pick('FALSE', 'TRUE')), workers=6)
    w = World(ctx)
    recs = []
    for _ in range(ctx.pick(110, 1500)):
        recs += w.case()
    for rec in recs[::len(recs) // 4]:
        ctx.sample(rec)
    n = sum(1 for r in recs if r['op'] == 'print')
    ctx.count('pairs of runs', n)
    ctx.count('printed configurations read again', len(recs) - n)
    bad = ctx.judge('EffectiveJudge', recs, cfg=JUDGE_CFG, batch=1000)
    if not bad and not any(r['op'] == 'again' for r in recs):
        raise MachineryError('nothing was read again')
