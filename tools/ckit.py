"""Stand-in for libxcm below the real Python client of the current directory
(/repo): the demonstration plays the server.

    import ckit
    def demo(client, net): ...
    ckit.main(demo)
"""

import collections
import ctypes
import errno
import json
import os
import select
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())


class Hang(Exception):
    pass


class Net:
    def __init__(self):
        self.sent = []                  # requests that got through
        self.rx = collections.deque()   # what the client may receive
        self.credit = None              # sends accepted; None: no limit
        self.more = collections.deque()  # credits granted while it waits
        self.answer = None              # called with each request sent
        self.end = None                 # 'close' or an errno
        self.cond = 0
        self.err = 0
        self.waits = 0

    def say(self, ta, cmd, mtype, **kw):
        m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': mtype}
        m.update({n.replace('_', '-'): v for n, v in kw.items()})
        self.rx.append(json.dumps(m).encode())


NET = Net()


class F:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a):
        return self.fn(*a)


def send(h, buf, n):
    if NET.credit is not None:
        if NET.credit == 0:
            NET.err = errno.EAGAIN
            return -1
        NET.credit -= 1
    m = json.loads(bytes(buf)[:n].decode())
    NET.sent.append(m)
    if NET.answer is not None:
        NET.answer(m)
    return 0


def receive(h, ref, cap):
    if NET.rx:
        m = NET.rx.popleft()
        ctypes.memmove(ctypes.addressof(ref._obj), m, len(m))
        return len(m)
    if NET.end == 'close':
        return 0
    NET.err = NET.end or errno.EAGAIN
    return -1


class Lib:
    def __init__(self):
        zero = F(lambda *a: 0)
        one = F(lambda *a: 1)
        for n in ('attr_map_create', 'connect_a', 'server_a'):
            setattr(self, 'xcm_' + n, F(lambda *a: 4096))
        for n in ('attr_map_destroy', 'attr_map_add_bool',
                  'attr_map_add_int64', 'attr_map_add_str', 'close',
                  'finish', 'set_blocking', 'is_blocking', 'attr_set_bool',
                  'attr_set_int64', 'attr_set_str', 'attr_get', 'accept_a',
                  'want'):
            setattr(self, 'xcm_' + n, F(lambda *a: 0))
        self.xcm_fd = F(lambda h: 1000)
        self.xcm_await = F(self.set_cond)
        self.xcm_send = F(send)
        self.xcm_receive = F(receive)

    def set_cond(self, h, cond):
        NET.cond = cond
        return 0


class Poll:
    def register(self, fd, mask=0):
        pass

    def poll(self, timeout=None):
        """The client waits: grant more room for sending, then look whether
        anything it asked for has happened."""
        NET.waits += 1
        if NET.waits > 100000:
            raise Hang("the client is spinning")
        if NET.cond & 1 and (NET.rx or NET.end is not None):
            return [(1000, 1)]
        if NET.cond & 2:
            if NET.credit == 0 and NET.more:
                NET.credit = NET.more.popleft()
            if NET.credit is None or NET.credit > 0:
                return [(1000, 1)]
        raise Hang("the client waits for ever")


def main(demo):
    ctypes.CDLL = lambda *a, **b: Lib()
    ctypes.get_errno = lambda: NET.err
    select.poll = Poll
    import paf.client
    failed = None
    try:
        demo(paf.client, NET)
    except BaseException:
        traceback.print_exc()
        failed = "demonstration failed"
    print("FAILED: %s" % failed if failed else "ok")
    sys.stdout.flush()
    os._exit(1 if failed else 0)
