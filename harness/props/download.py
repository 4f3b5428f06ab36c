"""C25: downloads from a scripted server on the loopback interface
(spec/Download.tla)."""
import concurrent.futures
import os
import select
import socket
import sys
import threading
import time

from harness.core import exc_obs, safe_str

DL_CFG = '''SPECIFICATION Spec
CONSTANTS Retries={0,1,2,3} DoEmit=TRUE
INVARIANTS Bounded OnlyTransient WaitBeforeEach First NotEarly Emit
PROPERTY Ends
'''
# how an attempt can end: what the server does, and what that is
KINDS = {
    'ok': ['ok', 'ok', 'ok-chunked', 'ok-close', 'ok-slow', 'redirect'],
    'busy': ['503', '503', '503-after', '503-empty', 'redirect-503'],
    'timeout': ['stall', 'stall-body', 'stall-close', 'to-full', 'to-full'],
    'other': ['404', '500', '502', '504', '429', '408', '403', '301-loop',
              'close', 'reset', 'incomplete', 'garbage', 'x-charset',
              'not-text', 'to-closed', 'to-nothing', 'no-charset'],
}
CAP = 5.0


class Server(object):
    """Answers every request for /k/N with the next outcome scripted for N."""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        self.sock.listen(256)
        self.port = self.sock.getsockname()[1]
        self.scripts, self.seen = {}, {}
        self.full = socket.socket()
        self.full.bind(('127.0.0.1', 0))
        self.full.listen(0)
        self.fill = socket.create_connection(self.full.getsockname())
        self.free = socket.socket()
        self.free.bind(('127.0.0.1', 0))   # bound, but nobody listens
        self.lock = threading.Lock()
        self.closing = threading.Event()
        t = threading.Thread(target=self.serve)
        t.daemon = True
        t.start()

    def serve(self):
        while not self.closing.is_set():
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            t = threading.Thread(target=self.handle, args=(c,))
            t.daemon = True
            t.start()

    def close(self):
        self.closing.set()
        for s in (self.sock, self.fill, self.full, self.free):
            s.close()

    def handle(self, c):
        try:
            c.settimeout(20)
            data = b''
            while b'\r\n\r\n' not in data:
                got = c.recv(4096)
                if not got:
                    return
                data += got
            path = data.split(b' ')[1].decode('ascii')
            _, where, n = path.split('/')
            n = int(n)
            with self.lock:
                if where == 'k':
                    k = len(self.seen[n])
                    script = self.scripts[n]
                    step = script[k] if k < len(script) else (
                        'ok', b'one attempt too many', None)
                    self.seen[n].append((step[0], time.monotonic()))
                else:
                    step = self.scripts[n][len(self.seen[n]) - 1]
                    step = ('503' if step[0] == 'redirect-503' else
                            '301-loop' if step[0] == '301-loop' else 'ok',
                            ) + tuple(step[1:])
            self.answer(c, n, *step)
        except (OSError, ValueError, KeyError):
            pass
        finally:
            c.close()

    def gone(self, c):
        """Wait until the client gives up, but not forever."""
        end = time.monotonic() + CAP
        while time.monotonic() < end and not self.closing.is_set():
            if select.select([c], [], [], .05)[0] and not c.recv(100):
                return True
        return False

    def answer(self, c, n, what, body, ctype):
        def send(status, body, *headers, **kw):
            head = ['HTTP/1.1 ' + status, 'Connection: close']
            if kw.get('length', True):
                head.append('Content-Length: %d' % kw.get('size', len(body)))
            head += headers
            c.sendall('\r\n'.join(head).encode('ascii') + b'\r\n\r\n' + body)
        types = ['Content-Type: ' + ctype] if ctype else []
        if what in ('ok', 'x-charset', 'not-text', 'no-charset'):
            send('200 OK', body, *types)
        elif what == 'ok-close':
            send('200 OK', body, length=False, *types)
        elif what == 'ok-chunked':
            half = len(body) // 2
            data = b''
            for part in (body[:half], body[half:]):
                if part:
                    data += ('%x\r\n' % len(part)).encode('ascii') + part + \
                        b'\r\n'
            send('200 OK', data + b'0\r\n\r\n', 'Transfer-Encoding: chunked',
                 length=False, *types)
        elif what == 'ok-slow':
            time.sleep(.3)
            send('200 OK', body[:1], size=len(body), *types)
            time.sleep(.2)
            c.sendall(body[1:])
        elif what in ('redirect', 'redirect-503', '301-loop'):
            send('302 Found', b'', 'Location: http://127.0.0.1:%d/r/%d' % (
                self.port, n))
        elif what.startswith('to-'):
            # to where nobody accepts, nobody listens, or nothing can be
            send('302 Found', b'', 'Location: ' + (
                'http://127.0.0.1:port/' if what == 'to-nothing' else
                'http://127.0.0.1:%d/x' % (
                    self.full if what == 'to-full' else
                    self.free).getsockname()[1]))
        elif what == '503-after':
            send('503 Service Unavailable', b'later', 'Retry-After: 3')
        elif what == '503-empty':
            send('503 Service Unavailable', b'')
        elif what == 'stall':
            if not self.gone(c):
                send('200 OK', b'came too late')
        elif what == 'stall-body':
            send('200 OK', b'came ', size=13)
            if not self.gone(c):
                c.sendall(b'too late')
        elif what == 'stall-close':
            send('200 OK', b'came ', length=False)
            if not self.gone(c):
                c.sendall(b'too late')
        elif what == 'close':
            pass
        elif what == 'reset':
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                         b'\1\0\0\0\0\0\0\0')
        elif what == 'incomplete':
            send('200 OK', b'only a part', size=1000)
        elif what == 'garbage':
            c.sendall(b'what do you want?\r\n\r\n')
        else:
            send(what + ' Some Status', b'not what you want')


class Recorder(object):
    """Connections made and time slept, by thread."""

    def __init__(self):
        self.logs = {}
        sys.addaudithook(self.hook)
        real = time.sleep

        def sleep(seconds):
            log = self.logs.get(threading.get_ident())
            if log is not None:
                log.append(('sleep', time.monotonic(), seconds))
            real(seconds)
        time.sleep = sleep   # before the code under test is imported

    def hook(self, event, args):
        log = self.logs.get(threading.get_ident())
        if log is None:
            return
        if event == 'socket.connect':
            log.append(('connect', time.monotonic(), args[1],
                        args[0].gettimeout()))


TEXTS = ['plain text\nwith lines\n', 'grüße', '', 'a: [1, 2]\n', 'x' * 70000,
         'é\r\nü', ' \n blank around \n\n', 'tab\tand\x0c\x00\r']


def content(rng):
    """Bytes, content type, and the text they are."""
    if rng.random() < 0.1:
        # not valid in the character set: the rest is kept
        return rng.choice([
            (b'gr\xfc\xdfe: [1]\n', None, 'gr\ufffd\ufffde: [1]\n'),
            (b'\xffab', 'text/plain; charset=utf-8', '\ufffdab'),
            (b'a\xe9b', 'text/plain; charset=us-ascii', 'a\ufffdb')])
    if rng.random() < 0.1:
        # a mark of the byte order is part of the text
        return (b'\xef\xbb\xbfa: 1\n', None, '\ufeffa: 1\n')
    text = rng.choice(TEXTS)
    enc, ctype = rng.choice([
        ('utf-8', None), ('utf-8', 'text/plain'),
        ('utf-8', 'text/plain; charset=utf-8'),
        ('latin-1', 'text/plain; charset=iso-8859-1'),
        ('latin-1', 'text/plain; charset="ISO-8859-1"'),
        ('utf-16-le', 'application/x; a=b; charset=utf-16-le'),
        ('utf-8', 'text/html; Charset=UTF-8'),
        ('latin-1', 'text/x-yaml;charset=latin1;q=1')])
    return text.encode(enc), ctype, text


def cause_of(e):
    c = e.__cause__
    if c is None:
        return 'none'
    code = getattr(c, 'code', None)
    if isinstance(code, int):
        return 'http %d' % code
    if isinstance(c, socket.timeout) or isinstance(
            getattr(c, 'reason', None), socket.timeout):
        return 'timeout'
    return 'other ' + type(c).__name__


class Scenario(object):

    def __init__(self, server, rec, n, retry, script, timeout, period, rng):
        self.server, self.rec, self.n = server, rec, n
        self.retry, self.timeout, self.period = retry, timeout, period
        self.steps, self.kinds, self.texts = [], [], []
        for what in script:
            body, ctype, text = content(rng)
            if what in ('x-charset', 'not-text', 'no-charset'):
                body = b'content'
            if what == 'x-charset':
                ctype = 'text/plain; charset=x-no-such-charset'
            elif what == 'not-text':
                ctype = 'text/plain; charset=hex'
            elif what == 'no-charset':
                ctype = rng.choice(['text/plain; charset=',
                                    'text/plain; charset=""'])
            self.steps.append((what, body, ctype))
            self.texts.append(text)
        self.url = 'http://127.0.0.1:%d/k/%d' % (server.port, n)
        self.port = server.port
        server.scripts[n], server.seen[n] = self.steps, []

    def positional(self):
        return self.n % 2

    def run(self):
        from xylem.load_url import load_url, DownloadFailure
        self.log = self.rec.logs[threading.get_ident()] = []
        args = (self.retry, self.period, self.timeout)
        try:
            try:
                if self.positional():
                    v = load_url(self.url, *args)
                else:
                    v = load_url(self.url, retry=args[0],
                                 retry_period=args[1], timeout=args[2])
                if isinstance(v, str):
                    self.result = dict(kind='text', text=v, cause='')
                else:
                    self.result = dict(kind='other', text=repr(v), cause='')
            except DownloadFailure as e:
                self.result = dict(kind='failure', text=safe_str(e),
                                   cause=cause_of(e))
            except Exception as e:
                self.result = dict(kind='error', text=repr(e), cause='')
        finally:
            del self.rec.logs[threading.get_ident()]
        return self

    def attempts(self):
        """What the server saw of every attempt: name, kind, cause."""
        res = []
        for k, (what, _) in enumerate(self.server.seen[self.n]):
            kind = next((x for x in KINDS if what in KINDS[x]), 'other')
            cause = 'timeout' if kind == 'timeout' else 'http 503' \
                if kind == 'busy' else 'http ' + what if what.isdigit() \
                else ''
            res.append((what, kind, cause, self.texts[k]
                        if kind == 'ok' and k < len(self.texts) else ''))
        return res

    def trace(self):
        us = lambda t: int(round(t * 1e6))
        events = [dict(op='begin', retry=self.retry)]
        attempts = self.attempts()
        connects = [i for i, x in enumerate(self.log) if x[0] == 'connect'
                    and x[2][1] == self.port]
        # the first connection of each attempt
        firsts, k = [], 0
        for what, _, _, _ in attempts:
            firsts.append(connects[k] if k < len(connects) else None)
            k += 0 if self.port is None else 2 if what in ('redirect', 'redirect-503') else \
                len(connects) if what == '301-loop' else 1
        exact = k == len(connects) or 'loop' in str(attempts)
        used = 0
        for k, (what, kind, cause, text) in enumerate(attempts):
            if k:
                slept, gap = -1, -1
                if exact:
                    a, b = firsts[k - 1], firsts[k]
                    sl = [x[2] for x in self.log[a:b] if x[0] == 'sleep']
                    used += len(sl)
                    slept = us(sum(sl)) if sl else -1
                    gap = us(self.log[b][1] - self.log[a][1])
                events.append(dict(op='wait', slept=slept, gap=gap,
                                   period=us(self.period),
                                   timeout=us(self.timeout)))
            # the timeout in force when the attempt connects, if any is
            limit = self.log[firsts[k]][3] if exact and firsts[k] is not \
                None else None
            events.append(dict(op='attempt', o=kind, cause=cause, text=text,
                               what=what, timeout=us(self.timeout),
                               limit=-1 if limit is None else us(limit)))
        rest = [x[2] for x in self.log if x[0] == 'sleep']
        events.append(dict(self.result, op='result', slept=us(
            sum(rest)) if exact and len(rest) > used else 0))
        return dict(events=events, url=self.url, timeout=self.timeout,
                    period=self.period)


class Direct(Scenario):
    """A URL that does not lead to the server; attempts are connections."""

    def __init__(self, server, rec, n, retry, timeout, period, rng, url,
                 kind, cause, text='', port=None):
        Scenario.__init__(self, server, rec, n, retry, [], timeout, period,
                          rng)
        self.url, self.port = url, port
        self.one = (url, kind, cause, text)

    def attempts(self):
        if self.port is None:
            return [self.one]
        return [self.one] * len([
            x for x in self.log if x[0] == 'connect' and
            x[2][1] == self.port])


def c25(ctx):
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]
    r = ctx.model_check('DownloadMC', DL_CFG)
    rng = ctx.rng
    server, rec = Server(), Recorder()
    todo = []

    def add(retry, seq, **kw):
        script = [rng.choice(KINDS[o]) for o in seq]
        # what would follow if there were further attempts
        script += [rng.choice(KINDS['ok'])] * rng.randrange(2)
        stalls = 'timeout' in seq
        todo.append(Scenario(
            server, rec, len(todo), retry, script,
            kw.get('timeout', rng.choice([.8, .9]) if stalls else
                   rng.choice([4, 6.5])),
            kw.get('period', rng.choice([0, .02, .1, .3])), rng))
    emitted = r.emitted
    cheap = [e for e in emitted if e['seq'].count('timeout') < 2]
    dear = [e for e in emitted if e['seq'].count('timeout') >= 2]
    if not ctx.thorough:
        cheap = rng.sample(cheap, min(60, len(cheap)))
        dear = rng.sample(dear, min(25, len(dear)))
    for e in cheap + dear:
        add(e['retry'], e['seq'])
    ctx.count('sequences enumerated', len(emitted))
    ctx.count('sequences replayed', len(cheap + dear))
    # every outcome by itself, also after a retry
    for kind in KINDS:
        for what in sorted(set(KINDS[kind])):
            for first in ([], ['503']):
                todo.append(Scenario(
                    server, rec, len(todo), len(first) + rng.choice([0, 1])
                    if kind not in ('busy', 'timeout') else len(first),
                    first + [what, 'ok'],
                    .8 if kind == 'timeout' else 6, .05, rng))
    for _ in range(ctx.pick(20, 200)):
        retry = rng.choice([-5, 0, 1, 2, 3, 5, 8])
        seq = [rng.choice(['busy', 'busy', 'busy', 'timeout'])
               for _ in range(rng.randint(0, max(retry, 0)))]
        seq = seq if seq.count('timeout') < 4 else ['busy'] * len(seq)
        add(retry, seq + [rng.choice(['ok', 'other', 'busy'])] +
            ['busy'] * max(0, retry - len(seq)))
    d = ctx.tmp()
    path = os.path.join(d, 'rules.txt')
    with open(path, 'w', encoding='utf-8') as f:
        f.write('grüße\n')
    full, free = [s.getsockname()[1] for s in (server.full, server.free)]
    direct = [('file://' + path, 'ok', '', 'grüße\n', None)]
    direct += [(u, 'other', '', '', None) for u in (
        'file://' + d + '/missing', 'file://' + d, 'nothing',
        'unknown://127.0.0.1/x', 'http://', '', 'http://127.0.0.1:port/',
        'http://[::1', 'http:// /x', 'http:///timed out',
        'unknown timed out://x', 'timed-out://127.0.0.1/',
        'file://' + d + '/timed out',
        'ftp://')]
    direct += [('http://127.0.0.1:%d/x' % free, 'other', '', '', free)]
    direct += [('http://127.0.0.1:%d/x' % full, 'timeout', 'timeout', '',
                full)]
    for u, kind, cause, text, port in direct:
        for retry in (0, 2) if ctx.thorough or port else (
                rng.choice([0, 1, 2, 2]),):
            todo.append(Direct(server, rec, len(todo), retry, .5, .1, rng, u,
                               kind, cause, text, port))
            ctx.count('other URLs')
    rng.shuffle(todo)
    with concurrent.futures.ThreadPoolExecutor(24) as ex:
        done = list(ex.map(Scenario.run, todo))
    server.close()
    traces = [s.trace() for s in done]
    ctx.count('attempts', sum(len(s.attempts()) for s in done))
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.validate('DownloadTrace', traces)
    ctx.assumptions += [
        'a wait is measured by what the downloading thread sleeps if it '
        'sleeps, otherwise only bounded from below',
        'bytes that the announced character set does not allow are not sent']
