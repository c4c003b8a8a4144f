"""C18: a data file is downloaded completely or not at all."""
import http.client
import io
import os
import socket
import urllib.error
import urllib.request
from pathlib import Path

from .. import engine, faults, scen
from .base import Prop

V = engine.Violation
MB = 1024 * 1024
NAMES = ['tide.txt', 'currents.nc', 'wind.WND', 'coast.bna', 'grid.nc']
SUBDIRS = ['', 'gridded', 'gridded/']


def content(subdir, name, size, seed):
    head = ('%s/%s/%d\n' % (subdir.rstrip('/'), name, seed)).encode()
    block = bytes((seed * 7 + i * 31 + i // 251) % 251 for i in range(4099))
    return (head + block * (size // 4099 + 1))[:size]


class Body(io.RawIOBase):
    """the bytes of one connection, with its fault"""

    def __init__(self, server, data, conn):
        self.server, self.data, self.conn, self.pos = server, data, conn, 0

    def readable(self):
        return True

    def readinto(self, b):
        f = self.conn.get('fault') or {}
        stop = f.get('stop')
        n = min(len(b), self.conn.get('seg', 1 << 16))
        self.server.arrived(self)
        if stop is not None and self.pos + n > stop:
            n = stop - self.pos
            if n <= 0:
                self.server.fired.append(f['kind'])
                if f['kind'] == 'short':
                    return 0
                if f['kind'] == 'reset':
                    raise ConnectionResetError(104, 'Connection reset by peer (injected)')
                if f['kind'] == 'timeout':
                    raise socket.timeout('timed out (injected)')
                if f['kind'] == 'interrupt':
                    raise faults.SimInterrupt('injected')
                if f['kind'] == 'kill':
                    os._exit(faults.CRASH_CODE)
                raise engine.HarnessError(f['kind'])
        d = self.data[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)


class Sock(object):
    def __init__(self, body):
        self.body = body

    def makefile(self, *a, **k):
        return io.BufferedReader(self.body, 1 << 13)

    def close(self):
        pass


class Server(urllib.request.BaseHandler):
    """every http(s) request of the process goes to this simulated server"""
    handler_order = 100

    def __init__(self, files):
        self.files = files
        self.urls = []
        self.conn = {}
        self.fired = []
        self.on_data = None
        self.nested = False

    def arrived(self, body):
        if self.on_data and not self.nested and self.conn.get('other') is not None \
                and body.pos >= self.conn['other']:
            self.nested = True
            try:
                self.on_data()
            finally:
                self.on_data = None
                self.nested = False

    def http_open(self, req):
        return self.https_open(req)

    def https_open(self, req):
        url = req.full_url
        self.urls.append(url)
        conn = {} if self.nested else self.conn
        f = conn.get('fault') or {}
        if f.get('kind') in ('refused', 'dns'):
            self.fired.append(f['kind'])
            raise urllib.error.URLError(
                ConnectionRefusedError(111, 'Connection refused (injected)')
                if f['kind'] == 'refused' else socket.gaierror(-3, 'no name service (injected)'))
        data, code = self.files.get(url), 200
        if f.get('kind') in ('500', '503', '403'):
            code = int(f['kind'])
            self.fired.append(f['kind'])
        elif data is None:
            code = 404
        if code != 200:
            data = b'<html>%d</html>' % code
        head = ('HTTP/1.1 %d X\r\nContent-Length: %d\r\nContent-Type: text/plain\r\n\r\n'
                % (code, len(data))).encode()
        if code == 200 and 'stop' in f:
            conn = dict(conn, fault=dict(f, stop=len(head) + f['stop']))
        if conn.get('other') is not None:
            conn = dict(conn)
        r = http.client.HTTPResponse(Sock(Body(self, head + data, conn)), method='GET', url=url)
        r.begin()
        r.url = url
        r.msg = r.reason
        return r


class PROP(Prop):
    id = 'C18'
    quick_n = 600
    thorough_n = 8000
    fault_kinds = ('short', 'reset', 'timeout', 'interrupt', 'kill', 'refused', 'dns', '404', '500',
                   '503', '403', 'disk', 'crash', 'other')
    state_measure = '(fault kind, fault position class, file size class, outcome) reached, hashed'
    real = ('gnome.utilities.remote_data, urllib (openers, errors) and http.client response parsing')
    stub = 'the server and the connections (simulated below http.client); the rest of gnome is not used'
    rule = ('seeded sequences of get_datafile calls for files of a simulated data server, with '
            'connections that are refused, answer with errors, break off or end early at a seeded byte, '
            'a second process that asks for the same file while the first is receiving it, disk '
            'errors and process ends at a seeded file operation or byte; after every call the file is '
            'either complete or absent, a call that returns has the complete file, files that were '
            'there are untouched and not asked for, and when the faults stop the next call succeeds. '
            'Non-trivial: at least one call met a fault.')

    def gen(self, rng, index):
        files = []
        for i in range(rng.randint(1, 3)):
            files.append({'name': rng.choice(NAMES), 'sub': rng.choice(SUBDIRS),
                          'size': rng.choice([0, 1, 700, 9000, MB - 1, MB, MB + 1, 2 * MB,
                                              2 * MB + 77, 3 * MB - 5]),
                          'server': rng.random() < 0.92,
                          'dir': rng.choice(['', 'd', 'd/e']), 'path': rng.random() < 0.3,
                          'local': rng.random() < 0.12})
        ops = []
        for i in range(rng.randint(2, 6)):
            op = {'f': rng.randrange(len(files)), 'seg': rng.choice([600, 5000, 1 << 16, 1 << 21])}
            size = files[op['f']]['size']
            k = scen.pick(rng, none=2, net=4, disk=2, other=1.5)
            if k == 'net':
                op['fault'] = {'kind': rng.choice(['short', 'short', 'reset', 'timeout', 'interrupt',
                                                   'kill', 'refused', 'dns', '500', '503', '403'])}
                if op['fault']['kind'] in ('short', 'reset', 'timeout', 'interrupt', 'kill'):
                    op['fault']['stop'] = rng.choice([0, 1, max(0, size - 1), rng.randint(0, size),
                                                      rng.randint(0, size), min(size, MB)])
            elif k == 'disk':
                op['disk'] = {'at': rng.randint(1, 8),
                              'kind': rng.choice(['enospc', 'eio', 'torn', 'crash', 'torn_crash']),
                              'part': rng.choice([0.0, 0.3, 0.9]), 'sticky': rng.random() < 0.3}
            elif k == 'other':
                op['other'] = rng.choice([0, rng.randint(0, size), size])
            ops.append(op)
        return {'files': files, 'ops': ops, 'seed': rng.randint(0, 999)}

    def run(self, case, ctx):
        from gnome.utilities import remote_data as rd
        base = rd.DATA_SERVER
        root = ctx.path('data')
        os.makedirs(root)
        os.chdir(root)
        srv_files, want, local = {}, [], {}
        for f in case['files']:
            sub = f['sub'].rstrip('/')
            url = base + (sub + '/' if sub else '') + f['name']
            if f['server'] and url not in srv_files:
                srv_files[url] = content(f['sub'], f['name'], f['size'], case['seed'])
            p = os.path.join(f['dir'], f['name'])
            if f['local'] and p not in local:
                os.makedirs(os.path.join(root, f['dir']), exist_ok=True)
                local[p] = b'a file of the user'
                with open(os.path.join(root, p), 'wb') as fh:
                    fh.write(local[p])
            want.append((p, url))
        have = dict(local)            # what a correct history has left
        srv = Server(srv_files)
        opener = urllib.request.OpenerDirector()
        for h in (urllib.request.UnknownHandler(), urllib.request.HTTPDefaultErrorHandler(),
                  urllib.request.HTTPErrorProcessor(), srv):
            opener.add_handler(h)
        urllib.request.install_opener(opener)
        faulty = 0

        def call(f, p):
            return rd.get_datafile(Path(p) if f['path'] else p, f['sub'])

        def body(op, f, p):
            """one call in a process of its own: (outcome, faults fired, urls, what the other got)"""
            srv.urls, srv.fired = [], []
            srv.conn = {'fault': op.get('fault'), 'seg': op['seg'], 'other': op.get('other')}
            other = []
            if op.get('other') is not None:
                def second():
                    try:
                        call(f, p)
                    except Exception as e:
                        other.append(['failed', '%s: %s' % (type(e).__name__, e)])
                    else:
                        with open(os.path.join(root, p), 'rb') as fh:
                            other.append(['ok', fh.read()])
                srv.on_data = second
            fs = faults.FS(root, op.get('disk'))
            with fs:
                try:
                    r = call(f, p)
                    out = ('ok', str(r), type(r).__name__)
                except faults.SimInterrupt:
                    out = ('interrupted', '', '')
                except Exception as e:
                    out = ('failed', '%s: %s' % (type(e).__name__, e), type(e).__mro__[:4])
                    out = (out[0], out[1], [c.__name__ for c in out[2]])
            return out, srv.fired + (['disk'] if fs.fired else []), srv.urls, other

        for op in case['ops'] + [{'f': i, 'seg': 1 << 16, 'last': True}
                                 for i in range(len(case['files']))]:
            f = case['files'][op['f']]
            p, url = want[op['f']]
            full = os.path.join(root, p)
            try:
                out, fired, urls, other = engine.fork_call(body, op, f, p)
            except engine.ForkDied as e:
                if e.code != faults.CRASH_CODE:
                    raise V('died', 'the process died (%r)' % e.code)
                out, fired, urls, other = ('died', '', ''), ['crash'], [url], []
            for k in fired:
                ctx.count('fault:' + k)
            if other:
                ctx.count('fault:other')
            faulty += bool(fired) or bool(other)
            data = srv_files.get(url)
            try:
                with open(full, 'rb') as fh:
                    now = fh.read()
            except OSError:
                now = None
            ctx.state((fired or ['-'])[0], out[0], len(data) // MB if data is not None else -1,
                      p in have, bool(other))
            ctx.event(op['f'], out[0], fired, len(now) if now is not None else None)
            say = '%s (%s; %s)' % (p, out[:2], fired)
            if p in have:
                if urls and out[0] != 'died':
                    raise V('asked', '%s is there, but the server was asked for it' % say)
                if now != have[p]:
                    raise V('changed', 'a file that was there has changed: %s' % say)
                if out[0] not in ('ok', 'died') and not fired:
                    raise V('failed', 'a file that is there is not found: %s' % say)
            else:
                if now is not None and now != data:
                    raise V('partial', '%s holds %d of the %s bytes of the file' % (
                        say, len(now), None if data is None else len(data)))
                if out[0] == 'ok':
                    if now is None:
                        raise V('missing', 'the call returned, but there is no file: %s' % say)
                elif not fired and data is not None and not other:
                    raise V('failed', 'the download of a good file fails: %s' % say)
                if data is None and out[0] == 'failed' and not fired and 'HTTPError' not in out[2]:
                    raise V('error', 'a file that is not on the server fails with %s' % out[1])
                if any(u != url for u in urls):
                    raise V('url', 'asked for %s, not %s' % (urls, url))
            for o in other:
                if o[0] == 'ok' and o[1] != (have.get(p, data)):
                    raise V('partial', 'a second process got %d bytes of %s while the first was '
                            'receiving it' % (len(o[1]), say))
                if o[0] == 'failed' and data is not None:
                    raise V('failed', 'the second process fails: %s' % o[1])
            if other and data is not None and out[0] != 'ok':
                raise V('failed', 'with a second process: %s' % say)
            if out[0] == 'ok' and (out[1] != p or (out[2] != 'str') != f['path']):
                raise V('name', 'the call for %s returned %s' % (p, out[1:]))
            if now is not None:
                have[p] = now
            # nothing is left of a failed call (a killed one cannot clean up)
            left = [x for d, _, fs_ in os.walk(root) for x in
                    (os.path.relpath(os.path.join(d, y), root) for y in fs_) if x not in have]
            if out[0] == 'died' or 'disk' in fired:
                for x in left:
                    os.remove(os.path.join(root, x))
            elif left:
                raise V('left-over', '%s left %s' % (say, left))
        ctx.nontrivial = faulty > 0
