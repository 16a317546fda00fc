"""Runs the real ctrlproxy on the loopback interface, with this program playing the IRC servers and clients.
All files live in a scratch directory that is removed at the end."""
import atexit, os, select, shutil, socket, subprocess, sys, tempfile, time

class Peer:
    def __init__(self, s):
        self.s, self.buf, self.eof = s, b'', False
    def send(self, *ls):
        self.s.sendall(b''.join(l.encode('latin1') + b'\r\n' for l in ls))
    def raw(self, b):
        self.s.sendall(b if isinstance(b, bytes) else b.encode('latin1'))
    def pump(self, t):
        r, _, _ = select.select([self.s], [], [], t)
        if not r:
            return False
        try:
            d = self.s.recv(65536)
        except OSError:
            d = b''
        if not d:
            self.eof = True
            return False
        self.buf += d
        return True
    def line(self, timeout=5):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            if self.eof or time.time() > end:
                return None
            self.pump(max(0, min(.2, end - time.time())))
        l, self.buf = self.buf.split(b'\n', 1)
        return l.rstrip(b'\r').decode('latin1')
    def until(self, what, timeout=5):
        """The lines up to and including the first that contains `what` (None at the end if it never came)."""
        out, end = [], time.time() + timeout
        while time.time() < end:
            l = self.line(max(0.01, end - time.time()))
            if l is None:
                break
            out.append(l)
            if what in l:
                return out
        return out + [None]
    def drain(self, quiet=.4):
        out = []
        while True:
            l = self.line(quiet)
            if l is None:
                return out
            out.append(l)
    def close(self):
        self.s.close()

class Server:
    """One listening IRC server."""
    def __init__(self):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(('127.0.0.1', 0))
        self.l.listen(5)
        self.port = self.l.getsockname()[1]
    def accept(self, timeout=10):
        r, _, _ = select.select([self.l], [], [], timeout)
        return Peer(self.l.accept()[0]) if r else None

def freeport():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p

class Proxy:
    def __init__(self, networks, glob=None, files=None):
        """networks: {name: {key: value} or {group: {key: value}}}; '' is the main group."""
        self.dir = tempfile.mkdtemp(prefix='demo')
        atexit.register(self.stop)
        self.port = freeport()
        os.mkdir(self.dir + '/networks')
        os.chmod(self.dir, 0o700)
        g = {'report-time': 'never', 'port': str(self.port), 'bind': '127.0.0.1', 'password': 'pw', 'autoconnect': ';'.join(networks) + ';',
             'default-network': list(networks)[0] if networks else '', 'replication': 'none', 'motd-file': '/nonexistent'}
        g.update(glob or {})
        with open(self.dir + '/config', 'w') as f:
            f.write('[global]\n' + ''.join('%s=%s\n' % kv for kv in g.items() if kv[1] is not None))
        for n, c in networks.items():
            if not any(isinstance(v, dict) for v in c.values()):
                c = {'': c}
            with open(self.dir + '/networks/' + n, 'w') as f:
                for grp, kv in c.items():
                    f.write('[%s]\n' % (grp or 'global'))
                    f.write(''.join('%s=%s\n' % x for x in kv.items()))
        for n, t in (files or {}).items():
            with open(self.dir + '/' + n, 'w') as f:
                f.write(t)
        self.p = None
        self.start()
    def start(self):
        env = dict(os.environ, HOME=self.dir)
        self.log = open(self.dir + '/out', 'ab')
        self.p = subprocess.Popen([os.environ.get('CTRLPROXY', './ctrlproxy'), '-c', self.dir], stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, env=env)
    def alive(self):
        return self.p.poll() is None
    def client(self, network='', nick='me', user='user', register=True, timeout=5):
        end = time.time() + timeout
        while True:
            try:
                s = socket.create_connection(('127.0.0.1', self.port), 2)
                break
            except OSError:
                if time.time() > end:
                    raise
                time.sleep(.05)
        c = Peer(s)
        if register:
            c.send('PASS pw' + (':' + network if network else ''), 'NICK ' + nick, 'USER %s a b :Real' % user)
            c.until(' 422 ')
            c.send('PING sync')
            c.until('PONG')
        return c
    def stop(self):
        if self.p and self.p.poll() is None:
            self.p.terminate()
            try:
                self.p.wait(3)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

def net(server, **kw):
    d = {'nick': 'me', 'username': 'user', 'fullname': 'Real', 'servers': '127.0.0.1:%d;' % server.port}
    d.update(kw)
    return d

def login(server, nick='me', extra=()):
    """Accepts the proxy's connection and completes the login."""
    s = server.accept()
    s.until('USER ')
    s.send(':irc.srv 001 %s :Welcome' % nick, *extra, ':irc.srv 376 %s :End of MOTD' % nick)
    s.until('USERHOST')
    return s

def sync(s, c=None):
    """Waits until everything sent so far has been handled."""
    s.send('PING sync%d' % time.time_ns())
    s.until('PONG')

def check(cond, what):
    if not cond:
        print('FAIL:', what)
        sys.exit(1)
