"""Runs app/pafc of the current directory (/repo) in a process of its own, on
a stand-in for libxcm; the demonstration plays the server and the user.

    import skit
    def server(net, m): ...         # called with every message pafc sends
    def user(say): ...              # generator; say(line), yield seconds
    def check(out, status, sent): ...
    skit.main(server, user, check, args=['ux:x'])
"""

import collections
import ctypes
import errno
import json
import os
import runpy
import select
import subprocess
import sys
import tempfile
import threading
import time
import traceback

sys.dont_write_bytecode = True


class Net:
    def __init__(self):
        self.rx = collections.deque()
        self.end = None
        self.cond = 0
        self.err = 0
        self.credit = None
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        self.full = False
        self.lock = threading.RLock()
        self.sent = open(os.environ['SKIT_SENT'], 'a')
        self.attrs = {}

    def update(self):
        on = bool(self.cond & 1 and (self.rx or self.end is not None) or
                  self.cond & 2 and (self.credit is None or self.credit > 0))
        if on and not self.full:
            os.write(self.w, b'x')
        elif not on and self.full:
            os.read(self.r, 10)
        self.full = on

    def put(self, cmd, ta, mtype, kw):
        m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': mtype}
        m.update({n.replace('_', '-'): v for n, v in kw.items()})
        with self.lock:
            self.rx.append(json.dumps(m).encode())
            self.update()

    def say(self, to, mtype, **kw):
        """Something in the transaction of the request `to`."""
        self.put(to['ta-cmd'], to['ta-id'], mtype, kw)

    def close(self, err=None):
        with self.lock:
            self.end = err or 'close'
            self.update()

    def after(self, d, fn, *a, **kw):
        t = threading.Timer(d, fn, a, kw)
        t.daemon = True
        t.start()


def usual(net, m, version=3):
    """What any server would say."""
    c = m['ta-cmd']
    if m['msg-type'] != 'request':
        return
    if c == 'hello':
        net.say(m, 'complete', protocol_version=version)
    elif c in ('subscribe', 'track'):
        net.say(m, 'accept')
    elif c in ('services', 'clients', 'subscriptions'):
        net.say(m, 'accept')
        net.say(m, 'complete')
    else:
        net.say(m, 'complete')


class F:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a):
        return self.fn(*a)


def child(server, args, hook):
    net = Net()
    local = threading.local()

    def send(h, buf, n):
        with net.lock:
            if net.credit is not None:
                if net.credit == 0:
                    local.err = errno.EAGAIN
                    return -1
                net.credit -= 1
        m = json.loads(bytes(buf)[:n].decode())
        net.sent.write(json.dumps(m) + '\n')
        net.sent.flush()
        server(net, m)
        return 0

    def receive(h, ref, cap):
        with net.lock:
            if net.rx:
                m = net.rx.popleft()
                net.update()
                ctypes.memmove(ctypes.addressof(ref._obj), m, len(m))
                return len(m)
            if net.end == 'close':
                return 0
            local.err = net.end or errno.EAGAIN
            return -1

    def cond(h, c):
        with net.lock:
            net.cond = c
            net.update()
        return 0

    def text(b):
        b = getattr(b, 'value', b)
        return b.decode() if isinstance(b, bytes) else b

    def connect(addr, attrs):
        net.sent.write(json.dumps({'connect': text(addr),
                                   'attrs': net.attrs}) + '\n')
        net.sent.flush()
        return 4096

    def add(m, name, value):
        net.attrs[text(name)] = text(value)
        return 0

    def new(*a):
        net.attrs = {}
        return 4096

    class Lib:
        pass
    lib = Lib()
    for n in ('attr_map_destroy', 'close', 'finish', 'set_blocking',
              'is_blocking', 'attr_set_bool', 'attr_set_int64',
              'attr_set_str', 'attr_get', 'want'):
        setattr(lib, 'xcm_' + n, F(lambda *a: 0))
    lib.xcm_attr_map_create = F(new)
    for n in ('bool', 'int64', 'str'):
        setattr(lib, 'xcm_attr_map_add_' + n, F(add))
    lib.xcm_connect_a = F(connect)
    lib.xcm_server_a = lib.xcm_accept_a = F(lambda *a: 0)
    lib.xcm_connect = F(lambda addr, flags: connect(addr, None))
    lib.xcm_fd = F(lambda h: net.r)
    lib.xcm_await = F(cond)
    lib.xcm_send = F(send)
    lib.xcm_receive = F(receive)
    ctypes.CDLL = lambda *a, **b: lib
    ctypes.get_errno = lambda: getattr(local, 'err', 0)
    sys.path.insert(0, os.getcwd())
    sys.argv = ['pafc'] + list(args)
    sys.stdout.reconfigure(line_buffering=True)
    if hook is not None:
        hook(net)
    runpy.run_path(os.path.join(os.getcwd(), 'app', 'pafc'),
                   run_name='__main__')


def main(server, user, check, args=('ux:x',), files={}, hook=None,
         timeout=20):
    if os.environ.get('SKIT_SENT'):
        child(server, args, hook)
        return
    with tempfile.TemporaryDirectory() as d:
        sent = os.path.join(d, 'sent')
        doms = os.path.join(d, 'doms')
        os.mkdir(doms)
        for n, t in files.items():
            with open(os.path.join(doms, n), 'w') as f:
                f.write(t)
        open(sent, 'w').close()
        out = os.path.join(d, 'out')
        with open(out, 'w') as f:
            p = subprocess.Popen(
                [sys.executable, '-B', os.path.abspath(sys.argv[0])],
                stdin=subprocess.PIPE, stdout=f, stderr=subprocess.STDOUT,
                env=dict(os.environ, SKIT_SENT=sent, PAF_DOMAINS=doms,
                         PYTHONUNBUFFERED='1'))

            def say(line):
                try:
                    p.stdin.write(line.encode() + b'\n')
                    p.stdin.flush()
                except OSError:
                    pass
            for d2 in user(say):
                time.sleep(d2)
            try:
                p.stdin.close()
            except OSError:
                pass
            try:
                status = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                status = 'hangs'
        text = open(out).read()
        msgs = [json.loads(x) for x in open(sent)]
    print(text)
    try:
        check(text, status, msgs)
    except BaseException:
        traceback.print_exc()
        print("FAILED")
        sys.exit(1)
    print("ok")
