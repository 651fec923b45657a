"""Small helper for the demonstrations: runs the proxy built in the current
directory (/repo) and talks to it over loopback. Standard library only."""
import base64, errno, hashlib, json, os, re, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, threading, time

REPO = os.getcwd()
B = os.path.join(REPO, '_build')
ENV = dict(os.environ)
ENV['LD_LIBRARY_PATH'] = ':'.join([os.path.join(B, 'libnymea-remoteproxy'), os.path.join(B, 'libnymea-remoteproxyclient'), ENV.get('LD_LIBRARY_PATH', '')])
ENV['QT_QPA_PLATFORM'] = 'offscreen'


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


def wait_for(fn, timeout=10.0, step=0.02):
    t = time.time()
    while time.time() - t < timeout:
        r = fn()
        if r:
            return r
        time.sleep(step)
    return fn()


class Proxy:
    def __init__(self, ssl_on=False, inactive=8000, jsonrpc=10000, nofile=None):
        self.dir = tempfile.mkdtemp(prefix='px.')
        self.tcp = free_port()
        self.ws = free_port()
        self.unix = os.path.join(self.dir, 'u')
        self.mon = os.path.join(self.dir, 'm')
        self.ssl = ssl_on
        crt = os.path.join(REPO, 'tests/resources/test-certificate.crt')
        key = os.path.join(REPO, 'tests/resources/test-certificate.key')
        with open(os.path.join(self.dir, 'c.conf'), 'w') as f:
            f.write('[ProxyServer]\nname=demo\nwriteLogs=false\nlogFile=%s/log\nlogEngineEnabled=false\nmonitorSocket=%s\njsonRpcTimeout=%d\ninactiveTimeout=%d\n\n'
                    '[SSL]\nenabled=%s\ncertificate=%s\ncertificateKey=%s\ncertificateChain=\n\n[UnixSocketServerTunnelProxy]\nunixSocketFileName=%s\n\n'
                    '[WebSocketServerTunnelProxy]\nhost=127.0.0.1\nport=%d\n\n[TcpServerTunnelProxy]\nhost=127.0.0.1\nport=%d\n' %
                    (self.dir, self.mon, jsonrpc, inactive, 'true' if ssl_on else 'false', crt, key, self.unix, self.ws, self.tcp))
        self.out = open(os.path.join(self.dir, 'out'), 'w')
        cmd = [os.path.join(B, 'server/nymea-remoteproxy'), '-c', os.path.join(self.dir, 'c.conf')]
        if nofile:
            cmd = ['sh', '-c', 'ulimit -n %d; exec "$@"' % nofile, 'sh'] + cmd
        self.cmd = cmd
        self.start()

    def start(self):
        self.p = subprocess.Popen(self.cmd, env=ENV, stdout=self.out, stderr=self.out)

        def up():
            for k in ('tcp', 'unix'):
                try:
                    s = socket.socket(socket.AF_INET if k == 'tcp' else socket.AF_UNIX)
                    s.settimeout(5)
                    s.connect(('127.0.0.1', self.tcp) if k == 'tcp' else self.unix)
                    s.close()
                except OSError:
                    return False
            return True
        if not wait_for(up, 15):
            print('the proxy did not come up')
            self.log()
            self.close()
            sys.exit(3)

    def alive(self):
        return self.p.poll() is None

    def log(self, n=40):
        self.out.flush()
        print(''.join(open(os.path.join(self.dir, 'out'), errors='replace').readlines()[-n:]))

    def close(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.out.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def peer(self, kind='tcp', **kw):
        return Peer(self, kind, **kw)

    def monitor(self, lists=True):
        """One status document of the monitor socket."""
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(10)
        s.connect(self.mon)
        s.sendall(json.dumps({'method': 'refresh', 'params': {'printAll': lists}}).encode() + b'\n')
        b = b''
        while not b.endswith(b'}\n'):
            d = s.recv(65536)
            if not d:
                break
            b += d
        s.close()
        return json.loads(b)


class Gone(Exception):
    pass


class Peer:
    """A raw connection; kind: tcp, unix, ws (tcp and ws use TLS when the proxy does)."""

    def __init__(self, px, kind='tcp', clear=False, rcvbuf=None):
        self.kind = kind
        self.buf = b''      # received and not consumed
        self.raw = b''      # WebSocket bytes not decoded yet
        self.eof = False
        self.id = 0
        if kind == 'unix':
            s = socket.socket(socket.AF_UNIX)
        else:
            s = socket.socket()
        s.settimeout(10)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.connect(px.unix if kind == 'unix' else ('127.0.0.1', px.ws if kind == 'ws' else px.tcp))
        if kind != 'unix':
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if px.ssl and kind != 'unix' and not clear:
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = ssl.CERT_NONE
            s = c.wrap_socket(s)
        self.s = s
        if kind == 'ws':
            k = base64.b64encode(os.urandom(16)).decode()
            s.sendall(('GET / HTTP/1.1\r\nHost: 127.0.0.1:%d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\n\r\n' % (px.ws, k)).encode())
            h = b''
            while b'\r\n\r\n' not in h:
                d = s.recv(4096)
                if not d:
                    raise Gone('WebSocket handshake')
                h += d
            self.raw = h.split(b'\r\n\r\n', 1)[1]

    def send(self, data):
        if isinstance(data, str):
            data = data.encode()
        if self.kind == 'ws':
            m = os.urandom(4)
            n = len(data)
            h = b'\x81' + (struct.pack('>B', 0x80 | n) if n < 126 else struct.pack('>BH', 0x80 | 126, n) if n < 65536 else struct.pack('>BQ', 0x80 | 127, n))
            data = h + m + bytes(c ^ m[i & 3] for i, c in enumerate(data))
        self.s.sendall(data)

    def _decode(self):
        while len(self.raw) >= 2:
            op, n, o = self.raw[0] & 15, self.raw[1] & 127, 2
            if n == 126:
                if len(self.raw) < 4:
                    return
                n, o = struct.unpack('>H', self.raw[2:4])[0], 4
            elif n == 127:
                if len(self.raw) < 10:
                    return
                n, o = struct.unpack('>Q', self.raw[2:10])[0], 10
            if len(self.raw) < o + n:
                return
            d, self.raw = self.raw[o:o + n], self.raw[o + n:]
            if op in (0, 1, 2):
                self.buf += d
            elif op == 8:
                self.eof = True

    def pump(self, timeout):
        """Reads once; False when nothing came in time or the link ended."""
        if self.eof:
            return False
        self.s.settimeout(max(timeout, 0.001))
        try:
            d = self.s.recv(65536)
        except (socket.timeout, ssl.SSLWantReadError):
            return False
        except OSError:
            self.eof = True
            return False
        if not d:
            self.eof = True
            return False
        if self.kind == 'ws':
            self.raw += d
            self._decode()
        else:
            self.buf += d
        return True

    def until(self, fn, timeout=10.0):
        t = time.time()
        while not fn() and not self.eof and time.time() - t < timeout:
            self.pump(min(0.2, timeout))
        return fn()

    def wait_eof(self, timeout=10.0):
        self.until(lambda: self.eof, timeout)
        return self.eof

    def read_for(self, secs):
        t = time.time()
        while time.time() - t < secs and not self.eof:
            self.pump(0.1)
        return self.buf

    def exactly(self, n, timeout=10.0):
        self.until(lambda: len(self.buf) >= n, timeout)
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    # JSON-RPC outside SLIP
    def request(self, method, params=None, id=None):
        if id is None:
            id = self.id
            self.id += 1
        r = {'id': id, 'method': method}
        if params is not None:
            r['params'] = params
        return json.dumps(r).encode() + b'\n'

    def answer(self, timeout=10.0):
        if not self.until(lambda: b'}\n' in self.buf, timeout):
            raise Gone('no answer')
        l, self.buf = self.buf.split(b'}\n', 1)
        return json.loads(l + b'}')

    def call(self, method, params=None):
        self.send(self.request(method, params))
        return self.answer()

    def register_server(self, uuid, name='server'):
        r = self.call('TunnelProxy.RegisterServer', {'serverName': name, 'serverUuid': uuid})
        return r.get('params', {}).get('tunnelProxyError')

    def register_client(self, uuid, client, name='client'):
        r = self.call('TunnelProxy.RegisterClient', {'clientName': name, 'clientUuid': client, 'serverUuid': uuid})
        return r.get('params', {}).get('tunnelProxyError')

    # SLIP
    def frame(self, addr, data):
        self.send(slip(addr, data))

    def frames(self):
        """Complete frames received so far."""
        out = []
        while b'\xc0' in self.buf:
            f, self.buf = self.buf.split(b'\xc0', 1)
            if not f:
                continue
            f = f.replace(b'\xdb\xdc', b'\xc0').replace(b'\xdb\xdd', b'\xdb')
            out.append((struct.unpack('>H', f[:2])[0], f[2:]))
        return out

    def next_frame(self, timeout=10.0):
        if not getattr(self, 'fq', None):
            self.fq = []
        t = time.time()
        while not self.fq:
            self.fq += self.frames()
            if self.fq:
                break
            if self.eof or time.time() - t > timeout:
                return None
            self.pump(0.2)
        return self.fq.pop(0)

    def next_json(self, timeout=10.0):
        f = self.next_frame(timeout)
        if f is None:
            return None
        if f[0] != 0:
            return {'payload': f}
        return json.loads(f[1])

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()

    def close(self):
        self.s.close()


def slip(addr, data):
    p = struct.pack('>H', addr) + data
    return p.replace(b'\xdb', b'\xdb\xdd').replace(b'\xc0', b'\xdb\xdc') + b'\xc0'


def uuid(n):
    return '{00000000-0000-4000-8000-%012x}' % n


def run(fn, **kw):
    """Runs the demonstration; exit code 0 when it returns True."""
    px = Proxy(**kw)
    ok = False
    try:
        ok = bool(fn(px))
        if ok and not px.alive():
            print('the proxy died')
            ok = False
    except Exception as x:
        import traceback
        traceback.print_exc()
    finally:
        if not ok:
            px.log()
        px.close()
    print('OK' if ok else 'BROKEN')
    sys.exit(0 if ok else 1)
