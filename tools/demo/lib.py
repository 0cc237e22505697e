# helpers for the demonstrations: run the built worker on loopback in a scratch directory
import os, sys, socket, subprocess, tempfile, shutil, time, threading, atexit, re, signal
ROOT = os.getcwd()
W = os.path.join(ROOT, '_build/src/main/lighttpd2-worker')
def free_port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p
class Server:
    def __init__(self, setup='', actions='', modules=(), workers=1, preload=None, env=None):
        self.dir = tempfile.mkdtemp(prefix='lidemo'); os.chmod(self.dir, 0o755)
        self.port = free_port(); self.www = self.dir + '/www'; os.mkdir(self.www)
        self.setup, self.actions, self.modules, self.workers, self.preload, self.env = setup, actions, modules, workers, preload, env
        atexit.register(self.stop)
        self.p = None
    def write(self, name, data):
        with open(os.path.join(self.www, name), 'wb') as f: f.write(data)
    def start(self):
        conf = self.dir + '/c.conf'
        sub = lambda s: s.replace('@DIR@', self.dir).replace('@WWW@', self.www)
        with open(conf, 'w') as f:
            f.write('setup {\n%s\nlisten "127.0.0.1:%d";\nworkers %d;\n%s\n}\n' % ('\n'.join('module_load "%s";' % m for m in self.modules), self.port, self.workers, sub(self.setup)) + sub(self.actions))
        env = dict(os.environ, G_SLICE='always-malloc')
        if self.preload: env['LD_PRELOAD'] = self.preload
        if self.env: env.update(self.env)
        self.log = open(self.dir + '/log', 'wb')
        self.p = subprocess.Popen([W, '-c', conf, '-m', os.path.join(ROOT, '_build/src/modules')], env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log)
        for i in range(200):
            try: socket.create_connection(('127.0.0.1', self.port), 1).close(); return self
            except OSError: time.sleep(0.05)
            if self.p.poll() is not None: break
        print(open(self.dir + '/log').read()); print('server did not start'); sys.exit(3)
    def connect(self, timeout=10, rcvbuf=None):
        s = socket.socket(); s.settimeout(timeout)
        if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.connect(('127.0.0.1', self.port)); return s
    def fds(self): return len(os.listdir('/proc/%d/fd' % self.p.pid))
    def alive(self): return self.p.poll() is None
    def stop(self):
        if self.p and self.p.poll() is None: self.p.kill(); self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
def send_parts(s, parts, gap=0.05):
    for i, p in enumerate(parts):
        if i: time.sleep(gap)
        s.sendall(p)
class Resp: pass
class Conn:
    """reads HTTP responses from a socket"""
    def __init__(self, s): self.s, self.b, self.eof = s, b'', False
    def more(self):
        try: d = self.s.recv(65536)
        except (socket.timeout, TimeoutError): raise
        except OSError: d = b''
        if not d: self.eof = True; return False
        self.b += d; return True
    def line(self):
        while b'\r\n' not in self.b:
            if not self.more(): return None
        l, self.b = self.b.split(b'\r\n', 1); return l
    def take(self, n):
        while len(self.b) < n:
            if not self.more(): break
        r, self.b = self.b[:n], self.b[n:]; return r
    def resp(self, head=False):
        r = Resp(); r.complete = False; r.body = b''; r.h = {}
        l = self.line()
        if not l: r.status = 0; return r
        r.status = int(l.split()[1])
        while True:
            l = self.line()
            if l is None: return r
            if not l: break
            k, v = l.split(b':', 1); r.h[k.decode().lower()] = v.strip().decode('latin1')
        if 100 <= r.status < 200 and r.status != 101: return self.resp(head)
        if head or r.status in (204, 304, 101): r.complete = True; return r
        if 'chunked' in r.h.get('transfer-encoding', ''):
            while True:
                l = self.line()
                if l is None: return r
                n = int(l, 16); d = self.take(n); r.body += d
                if len(d) < n: return r
                if self.line() is None: return r
                if n == 0: r.complete = True; return r
        if 'content-length' in r.h:
            n = int(r.h['content-length']); r.body = self.take(n); r.complete = len(r.body) == n; return r
        while self.more(): pass
        r.body, self.b = self.b, b''; r.complete = True
        return r
class Backend(threading.Thread):
    """TCP backend; handler(sock) per connection"""
    def __init__(self, handler, port=None):
        super().__init__(daemon=True); self.handler = handler; self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(('127.0.0.1', port or 0)); self.l.listen(64); self.port = self.l.getsockname()[1]; self.start()
    def run(self):
        while True:
            c, _ = self.l.accept(); c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            def h(c=c):
                try: self.handler(c)
                except OSError: pass
            threading.Thread(target=h, daemon=True).start()
def read_http(c):
    """reads one request with Content-Length: (head, body)"""
    b = b''
    while b'\r\n\r\n' not in b:
        d = c.recv(65536)
        if not d: return None, None
        b += d
    h, b = b.split(b'\r\n\r\n', 1); m = re.search(rb'content-length: *(\d+)', h, re.I); n = int(m.group(1)) if m else 0
    while len(b) < n:
        d = c.recv(65536)
        if not d: return h, b
        b += d
    return h, b
def fcgi_rec(t, c, pad=0): return bytes([1, t, 0, 1, len(c) >> 8, len(c) & 255, pad, 0]) + c + b'P' * pad
def read_fcgi(c):
    """reads one FastCGI request, returns (params bytes, stdin bytes) or None"""
    b = b''; par = b''; sin = b''
    while True:
        while len(b) < 8:
            d = c.recv(65536)
            if not d: return None
            b += d
        t = b[1]; n = b[4] * 256 + b[5]; pad = b[6]
        while len(b) < 8 + n + pad:
            d = c.recv(65536)
            if not d: return None
            b += d
        x = b[8:8 + n]; b = b[8 + n + pad:]
        if t == 4: par += x
        if t == 5:
            if not n: return par, sin
            sin += x
def fail(*a): print('FAIL', *a); sys.stdout.flush(); os._exit(1)
def ok(*a): print('ok', *a); sys.stdout.flush(); srv_stop(); os._exit(0)
def srv_stop():
    import gc
    for o in gc.get_objects():
        if isinstance(o, Server): o.stop()
def fail_cleanup(*a): print('FAIL', *a); sys.stdout.flush(); srv_stop(); os._exit(1)
fail = fail_cleanup
