"""C08: the rules cache under crashes, errors and concurrency
(spec/CacheFS.tla on recorded programs, spec/AtomicCache.tla on executions)."""
import itertools
import json
import os
import subprocess

from harness.core import MachineryError, PY, tail

ENOSPC, EIO, EACCES, EINTR = 28, 5, 13, 4

FS_CFG = '''INIT Init
NEXT Next
INVARIANTS NeverMissing AlwaysComplete Recovers Progress
'''


def build(ctx):
    src = os.path.join(ctx.root, 'harness', 'shim', 'shim.c')
    lib = os.path.join(ctx.scratch, 'shim.so')
    r = subprocess.run(['gcc', '-O1', '-w', '-U_FORTIFY_SOURCE', '-shared',
                        '-fPIC', '-o', lib, src, '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise MachineryError('shim: ' + tail(r.stdout.decode()))
    return lib


def drive(ctx, lib, scenarios, workers=6):
    """Run scenarios in several driver processes."""
    parts = [scenarios[i::workers] for i in range(workers)]
    procs = []
    for part in parts:
        if not part:
            continue
        d = ctx.tmp()
        job, out = os.path.join(d, 'job.json'), os.path.join(d, 'out.json')
        with open(job, 'w') as f:
            json.dump(part, f)
        e = dict(os.environ, LD_PRELOAD=lib)
        procs.append((part, out, subprocess.Popen(
            [PY, os.path.join(ctx.root, 'harness', 'cachefs_driver.py'),
             job, out, d], env=e, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)))
    res = []
    for part, out, p in procs:
        o, _ = p.communicate(timeout=800)
        if p.returncode or not os.path.exists(out):
            text = o.decode('utf-8', 'replace')
            if 'File "/repo/' in text:
                ctx.violation('update or reading failed where it must not',
                              output=tail(text))
                continue
            raise MachineryError('driver failed (%s):\n%s' % (
                p.returncode, tail(text)))
        with open(out) as f:
            res += json.load(f)
    return res


def program(ops, keep_handles=True):
    """Recorded operations as program of the model; None if not expressible."""
    out, handles, n = [], {}, 0
    for o, p, q, x, fd in ops:
        r = dict(o=o, p='entry1', q='entry1', h=0, creat=False, trunc=False,
                 excl=False, append=False)
        if o == 'open':
            n += 1
            r.update(p=p, h=n, creat=bool(x & 1), trunc=bool(x & 2),
                     excl=bool(x & 4), append=bool(x & 8))
            handles['latest'] = n
            handles[p] = n
        elif o in ('write', 'ftruncate', 'close'):
            if p not in handles or o == 'ftruncate' and x:
                return None
            r['h'] = handles[p]
            r['o'] = 'noop' if o == 'close' else o
        elif o == 'rename':
            r.update(p=p, q=q)
        elif o == 'unlink':
            r['p'] = p
        elif o in ('fsync', 'mkdir', 'attr'):
            r['o'] = 'noop'
        else:
            return None
        out.append(r)
    return out


def model(ctx, programs, initial):
    d = ctx.tmp()
    path = os.path.join(d, 'progs.json')
    with open(path, 'w') as f:
        json.dump(dict(programs=programs, initial=initial), f)
    r = ctx.tlc('CacheFS', FS_CFG, dict(PROGS=path), workers=4)
    if r.kind == 'ok':
        ctx.states += r.distinct
        ctx.transitions += r.states
        ctx.count('program_interleavings_states', r.distinct)
    elif r.kind == 'invariant':
        ctx.violation('the recorded file-system operations of updates do not '
                      'keep the cache intact in every interleaving and crash',
                      programs=programs, initial=initial,
                      counterexample=tail(r.out, 120))
    else:
        raise MachineryError('CacheFS (rc %d):\n%s' % (r.rc, tail(r.out)))


def interleavings(lens):
    """All merges of sequences of the given lengths (as updater indices)."""
    def go(rest):
        if not any(rest):
            yield ()
            return
        for i, n in enumerate(rest):
            if n:
                r = list(rest)
                r[i] -= 1
                for tail_ in go(r):
                    yield (i,) + tail_
    return go(list(lens))


def c08(ctx):
    lib = build(ctx)
    rng = ctx.rng
    # 1. record the programs
    rec = drive(ctx, lib, [
        dict(initial=i, updaters=k, schedule=[], n=1)
        for i in (True, False) for k in
        (['ok'], ['ok'], ['ok'], ['unsavable'], ['unloadable'])])
    if not rec:
        return
    base = [r for r in rec if r['scenario']['updaters'] == ['ok'] and
            r['initial']]
    length = max(len(r['programs'][0]) for r in base)
    ctx.count('operations_per_update', length)
    ctx.sample(dict(program=base[0]['programs'][0]))
    # 2. every interleaving and crash of the recorded programs
    if length == 0:
        raise MachineryError('no file-system operation was seen: is the shim '
                             'in effect?')
    for initial in (True, False):
        progs = [program(r['programs'][0]) for r in rec
                 if r['scenario']['updaters'] == ['ok'] and
                 r['initial'] == initial]
        bad = [program(r['programs'][0]) for r in rec
               if r['scenario']['updaters'] == ['unsavable'] and
               r['initial'] == initial]
        if None in progs or None in bad:
            ctx.count('programs_not_expressible')
            continue
        model(ctx, progs, initial)
        # a failing update (its pieces never become visible)
        model(ctx, [bad[0], progs[0], progs[1]] if bad and bad[0] and
              not any(o['o'] == 'write' for o in bad[0]) else
              [progs[0], progs[1]], initial)
        if ctx.thorough and length <= 9:
            model(ctx, progs + [progs[0]], initial) \
                if not shared(progs) else None
    # 3. the same in the real code: crashes, errors and schedules
    scs = []
    for initial in (True, False):
        for n in range(length + 1):
            for dec in ('k', 'p', ['e', ENOSPC], ['e', EIO], ['e', EACCES]):
                scs.append(dict(initial=initial, updaters=['ok'],
                                schedule=[[0, 'g']] * n + [[0, dec]], n=1,
                                strict=rng.random() < 0.5))
        for kind in ('unsavable', 'unloadable'):
            for n in range(3):
                scs.append(dict(initial=initial, updaters=[kind], n=1,
                                schedule=[[0, 'g']] * n + [[0, 'k']]))
    two = list(itertools.islice(interleavings([length, length]), 20000))
    for sch in rng.sample(two, min(len(two), ctx.pick(60, 1500))):
        sch = [[u, 'g'] for u in sch]
        # perhaps one of them dies or fails on the way
        c = rng.random()
        if c < 0.6:
            i = rng.randrange(len(sch))
            sch[i] = [sch[i][0], rng.choice(
                ['k', 'k', 'p', ['e', ENOSPC], ['e', EIO], ['e', EACCES]])]
        scs.append(dict(initial=rng.random() < 0.7, updaters=[
            'ok', rng.choice(['ok', 'ok', 'ok', 'unsavable'])],
            schedule=sch, n=1, strict=rng.random() < 0.5))
    # several sources, several updaters, arbitrary schedules
    for _ in range(ctx.pick(40, 800)):
        k, n = rng.choice([1, 2, 3]), rng.choice([1, 2, 2, 3])
        sch = []
        for _ in range(rng.randrange(1, length * n * k + 2)):
            dec = 'g' if rng.random() < 0.93 else rng.choice(
                ['k', 'p', ['e', ENOSPC], ['e', EIO], ['e', EACCES]])
            sch.append([rng.randrange(k), dec])
        scs.append(dict(initial=rng.random() < 0.5, n=n, schedule=sch,
                        nodir=rng.random() < 0.7,
                        size=rng.choice([50, 900, 2000]),
                        strict=rng.random() < 0.5,
                        updaters=[rng.choice(['ok', 'ok', 'ok', 'unsavable',
                                              'unloadable'])
                                  for _ in range(k)]))
    # the first updates, which have to create the directory of the cache
    for sch in itertools.product((0, 1), repeat=ctx.pick(4, 6)):
        scs.append(dict(initial=False, nodir=True, n=1, updaters=['ok', 'ok'],
                        schedule=[[u, 'g'] for u in sch],
                        strict=rng.random() < 0.5))
    for n in range(4):
        for dec in ('k', ['e', ENOSPC], ['e', EACCES]):
            scs.append(dict(initial=False, nodir=True, n=1, updaters=['ok'],
                            schedule=[[0, 'g']] * n + [[0, dec]]))
    # threads of one process
    for _ in range(ctx.pick(12, 200)):
        n = rng.choice([1, 1, 2, 3])
        scs.append(dict(
            kinds=[rng.choice(['ok', 'ok', 'unsavable'])
                   for _ in range(rng.choice([2, 2, 3]))],
            n=n, pause=rng.randrange(n), initial=rng.random() < 0.6,
            size=rng.choice([4, 50, 2000])))
    rng.shuffle(scs)
    res = rec + drive(ctx, lib, scs)
    if not res:
        return
    ctx.count('executions', len(res))
    for r in res:
        for a in r['applied']:
            if a[1] != 'g':
                ctx.count('injected_' + (a[1] if isinstance(a[1], str) else
                                         'error'))
        for e in r['events']:
            if e['op'] == 'read':
                ctx.count('reads')
            if e['op'] == 'end':
                ctx.count('updates_' + e['how'])
    ctx.sample(dict(scenario=res[-1]['scenario'],
                    events=res[-1]['events'][:12]))
    ctx.validate('AtomicCacheTrace', res)
    # 4. uncontrolled concurrency
    for st in drive(ctx, lib, [dict(procs=3, seconds=ctx.pick(1, 10),
                                    kill=1)]):
        ctx.count('storm_reads', sum(st['reads'].values()))
        if set(st['reads']) - {'complete'} or st['updaters_failed'] or \
                st['last'] != 'complete':
            ctx.violation('concurrent updates: a reader saw something that is '
                          'not a complete version, or an update failed',
                          storm=st)


def shared(progs):
    names = [{o['p'] for o in p if o['o'] == 'open'} for p in progs]
    return bool(names[0] & names[1])
