"""
C23: certcreate reports success only for a completely stored certificate.

System: the real certcreate script (options, subject, serial, writing,
announcing) with real X.509 signing on fixed keys, on real files in a scratch
directory whose opens, writes and closes fail, write short or run out of space
as the seed says.
"""
import errno
import io
import os
import shutil
import sys
import tempfile

from dst import keys, seams

RUNS = (3000, 120000)
RULE = ('seeded options (subject, serial, quiet, argv or mapping) x disk faults at open, at each write and at close x earlier contents of the file; '
        'non-trivial: a disk fault was injected')
REAL = ['epsilon.scripts.certcreate', 'twisted usage.Options, PrivateCertificate', 'OpenSSL signing and parsing', 'Python io buffering, a real scratch directory']
STUB = ['key generation (fixed keys)', 'write/close/open system calls (may fail)', 'stdout (observed)']
PROBES = ['stored', 'quiet', 'announced', 'replaced an older file', 'open failed', 'disk full', 'close failed', 'short write survived', 'torn file', 'from argv', 'from the command line', 'from options',
          'defaults', 'bad serial', 'failed after part was written', 'no such directory']
FAULTS = ['open error', 'write error', 'short write', 'close error']

_dir = None


def scratch():
    global _dir
    if _dir is None or not os.path.isdir(_dir):
        _dir = tempfile.mkdtemp(prefix='dst-c23-')
        import atexit
        atexit.register(shutil.rmtree, _dir, True)
    return _dir


_loaded = {}


def load(klass, key):
    if key not in _loaded:
        _loaded[key] = klass.load(keys.KEYS[key], format=1)
    return _loaded[key]


class FaultyFile(io.FileIO):
    def __init__(self, name, mode, disk):
        self.disk = disk
        io.FileIO.__init__(self, name, mode)

    def write(self, b):
        disk = self.disk
        data = bytes(b)
        plan = disk.plan.pop(0) if disk.plan else None
        disk.sim.trace('write', len(data), plan)
        if plan is None:
            return io.FileIO.write(self, data)
        if plan[0] == 'short':
            disk.sim.fault('short write')
            return io.FileIO.write(self, data[:max(1, plan[1])])
        disk.sim.fault('write error')
        disk.failed = True
        n = min(plan[2], len(data))
        if n:
            io.FileIO.write(self, data[:n])
            disk.sim.probe('failed after part was written')
        raise OSError(plan[1], os.strerror(plan[1]))

    def close(self):
        was = self.closed
        io.FileIO.close(self)
        if not was and self.writable_ and self.disk.skip_close > 0:
            self.disk.skip_close -= 1
        elif not was and self.writable_ and self.disk.close_error is not None:
            e, self.disk.close_error = self.disk.close_error, None
            self.disk.sim.fault('close error')
            self.disk.failed = True
            raise OSError(e, os.strerror(e))


class Disk(object):
    def __init__(self, sim, top):
        self.sim = sim
        self.top = top
        self.plan = []
        self.open_error = None
        self.close_error = None
        self.move_error = None   # for code which moves files into their place
        self.skip_open = self.skip_close = 0
        self.failed = False
        self.opened = 0          # times a file was opened for writing

    def move(self, what, paths):
        if self.move_error is not None and os.path.abspath(paths[0]).startswith(self.top):
            self.fail(what)

    def sync(self, fd):
        if self.move_error is not None:
            self.fail('sync')

    def fail(self, what):
        e, self.move_error = self.move_error, None
        self.sim.fault(what + ' error')
        self.failed = True
        raise OSError(e, os.strerror(e))

    def open_fd(self, name, flags):
        """os.open of a file in our directory: the same faults, unbuffered."""
        try:
            path = os.fsdecode(os.fspath(name))
        except TypeError:
            return NotImplemented
        path = os.path.abspath(path)
        if not path.startswith(self.top) or not flags & (os.O_WRONLY | os.O_RDWR):
            return NotImplemented
        new = not os.path.exists(path)
        if new and not flags & os.O_CREAT:
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if not new and flags & os.O_CREAT and flags & os.O_EXCL:
            raise OSError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        mode = 'w' if new or flags & os.O_TRUNC else 'a' if flags & os.O_APPEND else 'r+'
        return self.sim.new_fd(self.open(path, mode + 'b', 0))

    def open(self, name, mode='r', *a, **kw):
        if isinstance(name, int) and name in self.sim.rawfds:
            return self.wrap(self.sim.rawfds.pop(name), mode, *a, **kw)
        try:
            path = os.fsdecode(os.fspath(name))
        except TypeError:
            return NotImplemented
        path = os.path.abspath(path)
        if not path.startswith(self.top):
            return NotImplemented
        writing = any(x in mode for x in 'wax+')
        if writing and self.skip_open > 0:
            self.skip_open -= 1
        elif writing and self.open_error is not None:
            e, self.open_error = self.open_error, None
            self.sim.fault('open error')
            self.failed = True
            raise OSError(e, os.strerror(e), path)
        raw = FaultyFile(path, mode.replace('b', '').replace('t', ''), self)
        self.opened += bool(writing)
        raw.writable_ = writing
        return self.wrap(raw, mode, *a, **kw)

    def wrap(self, raw, mode, *a, **kw):
        writing = any(x in mode for x in 'wax+')
        buffering = a[0] if a else kw.get('buffering', -1)
        if buffering == 0:
            return raw
        f = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw) if writing else io.BufferedReader(raw)
        if 'b' in mode:
            return f
        return io.TextIOWrapper(f, encoding=kw.get('encoding') or 'utf-8')


def run(sim):
    from twisted.internet import ssl
    from epsilon.scripts import certcreate
    c = sim.c
    top = scratch()
    for n in os.listdir(top):
        p = os.path.join(top, n)
        assert p.startswith(top + '/')
        os.unlink(p)
    path = os.path.join(top, 'server.pem')
    old = c.pick([None, b'an older file\n', b'x' * 9000])
    if old is not None:
        with seams.real.open(path, 'wb') as f:
            f.write(old)
        sim.probe('replaced an older file')
    disk = Disk(sim, top)
    sim.files = disk
    k = c.draw(6)
    if k == 1:
        disk.open_error = c.pick([errno.EACCES, errno.ENOSPC, errno.EROFS])
        sim.probe('open failed')
    elif k == 2:
        sim.probe('disk full')
        for i in range(c.draw(2)):
            disk.plan.append(('short', c.pick([1, 700, 100])))
        disk.plan.append(('error', c.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT]), c.pick([0, 1, 500, 100000])))
    elif k == 3:
        for i in range(1 + c.draw(3)):
            disk.plan.append(('short', c.pick([1, 700, 100])))
    elif k == 4:
        disk.close_error = c.pick([errno.EIO, errno.ENOSPC, errno.EDQUOT])
        sim.probe('close failed')
    elif k == 5:
        disk.move_error = c.pick([errno.EIO, errno.ENOSPC])
    if c.draw(20) == 0:
        path = os.path.join(top, 'missing', 'server.pem')
        sim.probe('no such directory')
        disk.failed = True
    fields = {'country': 'US', 'state': 'New York', 'city': 'New York', 'organization': 'Divmod LLC', 'unit': 'Security',
              'hostname': 'divmod.com', 'email': 'support@divmod.org'}
    short = {'country': '-C', 'state': '-s', 'city': '-c', 'organization': '-o', 'unit': '-u', 'hostname': '-h', 'email': '-e'}
    X = {'country': 'C', 'state': 'ST', 'city': 'L', 'organization': 'O', 'unit': 'OU', 'hostname': 'CN', 'email': 'emailAddress'}
    argv = []
    for f in sorted(fields):
        if c.draw(3) == 0:
            v = c.pick(['AB', 'XY']) if f == 'country' else c.pick(['example', 'a b', 'x=y', 'z' * 40, '1'])
            fields[f] = v
            argv += [short[f], v] if c.draw(2) else ['--' + f, v]
    if not argv:
        sim.probe('defaults')
    serial = c.pick([1, 0, 7, 2 ** 63, 123456789])
    if serial != 1 or c.draw(2):
        argv += ['-S', str(serial)] if c.draw(2) else ['--serial-number=%d' % serial]
    bad_serial = c.draw(25) == 0
    quiet = c.draw(3) == 0
    if quiet:
        sim.probe('quiet')
        argv += [c.pick(['-q', '--quiet'])]
    argv += [c.pick(['-f', '--filename']), path]
    if bad_serial:
        sim.probe('bad serial')
        argv += ['-S', 'many'] if c.draw(2) else c.pick([['--no-such-option'], ['-S'], ['stray', 'arguments'], ['--quiet=yes']])
    key = c.pick([0, 0, 0, 1, 1, 1, 1, 0, 0, 2])
    old_generate = ssl.KeyPair.generate
    ssl.KeyPair.generate = classmethod(lambda klass, *a, **kw: load(klass, key))
    said = []
    sim.trace('create', ' '.join(argv[:-1]).replace(top, ''), key, bad_serial, quiet)
    state = {'ret': None}

    def complete():
        """The file holds a whole certificate and its key, now."""
        try:
            with seams.real.open(path, 'rb') as f:
                data = f.read()
        except OSError:
            return None, 'no file'
        if data.count(b'-----BEGIN ') != 2 or data.count(b'-----END ') != 2 or not data.endswith(b'-----\n'):
            return data, 'incomplete'
        return data, None

    class Out(object):
        encoding = 'utf-8'

        def write(self, text):
            if not said and text.strip():
                data, problem = complete()
                sim.trace('announced', problem)
                if problem or disk.failed or data == old:
                    sim.note_violation('announced', 'success was announced with the file %s' % (problem or 'not stored',))
            said.append(text)
            return len(text)

        def flush(self):
            pass
    real_stdout = sys.stdout
    sys.stdout = Out()
    err = None
    try:
        try:
            if c.draw(2) or bad_serial:
                if c.draw(3) == 0:
                    sim.probe('from the command line')
                    real_argv = sys.argv
                    sys.argv = ['certcreate'] + argv
                    try:
                        cert = certcreate.main()
                    finally:
                        sys.argv = real_argv
                else:
                    sim.probe('from argv')
                    cert = certcreate.main(argv)
            else:
                sim.probe('from options')
                opts = dict(fields)
                opts.update({'filename': path, 'serial-number': c.pick([serial, str(serial)]), 'quiet': quiet})
                cert = certcreate.createSSLCertificate(opts)
        except (Exception, SystemExit) as e:
            err = e
    finally:
        sys.stdout = real_stdout
        ssl.KeyPair.generate = old_generate
    sim.trace('returned', type(err).__name__, len(said) > 0)
    if err is not None:
        if not disk.failed and not bad_serial:
            import traceback
            sim.violate('raised', 'creating a certificate failed without cause: %s: %s' % (type(err).__name__, err))
        sim.expect(bad_serial or isinstance(err, OSError) and not isinstance(err, SystemExit), 'raised', 'a disk failure came out as %r', err)
        sim.expect(not said, 'announced', 'success was announced although the call failed')
        data, problem = complete()
        if problem == 'incomplete':
            sim.probe('torn file')
    else:
        sim.expect(not bad_serial, 'serial', 'a serial number that is no number was accepted')
        sim.expect(not disk.failed, 'swallowed', 'the file could not be stored and the call returned normally')
        data, problem = complete()
        sim.expect(problem is None, 'stored', 'the call returned and the file is %s', problem)
        sim.expect(isinstance(cert, ssl.PrivateCertificate), 'result', 'returned %r', cert)
        sim.expect(data == cert.dumpPEM(), 'stored', 'the file is not the PEM of the certificate returned')
        back = ssl.PrivateCertificate.loadPEM(data)
        sim.expect(back.serialNumber() == serial, 'serial', 'serial number %r, not %r', back.serialNumber(), serial)
        dn = back.getSubject()
        for f, v in sorted(fields.items()):
            got = dict((a, getattr(dn, a, None)) for a in ('C', 'ST', 'L', 'O', 'OU', 'CN', 'emailAddress')).get(X[f])
            sim.expect(got == v.encode('ascii'), 'subject', '%s is %r, not %r', f, got, v)
        sim.expect(back.privateKey.matches(back.getPublicKey()), 'key', 'the key does not belong to the certificate')
        sim.probe('stored')
        if disk.sim.faults['short write']:
            sim.probe('short write survived')
        if quiet:
            sim.expect(not ''.join(said).strip(), 'quiet', 'output although silenced: %r', said[:1])
        else:
            sim.expect(''.join(said).strip(), 'announced', 'success was not announced')
            sim.probe('announced')
    sim.sample = {'argv': len(argv)}
