"""Driver side of the harness: starts build/world and talks to it."""
import json, os, shutil, subprocess, tempfile, select

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')

class Died(Exception):
    """The process under test crashed, aborted, hung or exited by itself."""
    def __init__(self, status, op, stderr=''):
        self.status, self.op, self.stderr = status, op, stderr
        Exception.__init__(self, 'died %s at %r' % (status, op))

class Infra(Exception):
    pass

def pct(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    o = []
    for c in b:
        if 33 <= c <= 126 and c != 37:
            o.append(chr(c))
        else:
            o.append('%%%02X' % c)
    return ''.join(o)

class World:
    """One zygote process; new() starts a scenario in a fresh child."""
    def __init__(self, binary=None, log=None):
        self.binary = binary or os.path.join(BUILD, 'world')
        self.dir = tempfile.mkdtemp(prefix='cpv-')
        self.errpath = os.path.join(self.dir, 'stderr')
        self.err = open(self.errpath, 'ab')
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:handle_abort=1:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
        env['HOME'] = self.dir
        env['LC_ALL'] = 'C'
        env['TZ'] = 'UTC'
        env.pop('CTRLPROXY_MODULESDIR', None)
        if log is not None:
            env['WORLD_LOG'] = str(log)
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=env, cwd=self.dir, bufsize=0)
        self.rbuf = b''
        self.live = False
        self.n = 0
        self.cfgdir = None
        self.steps = 0
        self.history = []

    def _readline(self, timeout=60):
        while b'\n' not in self.rbuf:
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                raise Infra('harness timeout after %r' % (self.history[-1:],))
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                raise Infra('harness ended after %r: %s' % (self.history[-1:], self.stderr_tail()))
            self.rbuf += d
        l, self.rbuf = self.rbuf.split(b'\n', 1)
        return json.loads(l.decode('latin-1'))

    def stderr_tail(self, n=6000):
        self.err.flush()
        with open(self.errpath, 'rb') as f:
            f.seek(self.errpos if hasattr(self, 'errpos') else 0)
            d = f.read().decode('latin-1')
        i = d.find('==ERROR')
        j = d.find('runtime error')
        k = [x for x in (i, j) if x >= 0]
        if k:
            d = d[max(0, min(k) - 200):]
            return d[:n]
        return d[-n:]

    def new(self):
        if self.live:
            self.end()
        self.n += 1
        self.history = []
        self.err.flush()
        self.errpos = os.path.getsize(self.errpath)
        if self.errpos > 20 << 20:
            os.ftruncate(self.err.fileno(), 0)
            self.errpos = 0
        self.p.stdin.write(b'new\n')
        r = self._readline()
        assert 'new' in r, r
        self.live = True
        self.cfgdir = os.path.join(self.dir, 'd%d' % self.n)
        os.mkdir(self.cfgdir)
        return self.cfgdir

    def op(self, *args):
        cmd = ' '.join(pct(str(a)) if not isinstance(a, bytes) else pct(a) for a in args)
        self.history.append(cmd)
        self.steps += 1
        self.p.stdin.write(cmd.encode('ascii') + b'\n')
        r = self._readline()
        if 'died' in r or ('done' in r and args[0] != 'end'):
            self.live = False
            st = r.get('died', 0)
            raise Died(st, cmd, self.stderr_tail())
        if r.get('spin'):
            self.op_end()
            raise Died('spin', cmd, 'the main loop never becomes idle')
        return r

    def op_end(self):
        if not self.live:
            return
        self.p.stdin.write(b'end\n')
        self._readline()
        r = self._readline()
        self.live = False
        return r

    def end(self):
        if self.live:
            r = self.op_end()
            if 'died' in r:
                raise Died(r['died'], 'end', self.stderr_tail())
        if self.cfgdir:
            shutil.rmtree(self.cfgdir, ignore_errors=True)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)

def write_config(d, glob=None, networks=None, listeners=None, files=None):
    """glob: dict for [global]; networks: {name: {'': {...}, '#chan': {...}, ...}}; listeners: {group: {...}}"""
    def fmt(groups):
        o = []
        for g, kv in groups:
            o.append('[%s]' % g)
            for k, v in kv.items():
                o.append('%s=%s' % (k, v))
            o.append('')
        return '\n'.join(o) + '\n'
    os.makedirs(os.path.join(d, 'networks'), exist_ok=True)
    with open(os.path.join(d, 'config'), 'w', encoding='latin-1') as f:
        f.write(fmt([('global', glob or {})]))
    for n, groups in (networks or {}).items():
        with open(os.path.join(d, 'networks', n), 'w', encoding='latin-1') as f:
            f.write(fmt([('global' if g == '' else g, kv) for g, kv in groups.items()]))
    if listeners:
        with open(os.path.join(d, 'listener'), 'w', encoding='latin-1') as f:
            f.write(fmt(list(listeners.items())))
    for n, c in (files or {}).items():
        with open(os.path.join(d, n), 'w', encoding='latin-1') as f:
            f.write(c)
