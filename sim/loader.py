"""Loads a private instance of the code under test for one simulated process.

Every simulated process (each server incarnation, each client process) gets
its own freshly executed copy of /repo/paf, the way a real process would, so
no module state leaks between incarnations or between simulated runs.  The
instance's imports of modules that reach the operating system (time, select,
os, fcntl, signal, random, ctypes) are resolved to the simulator's versions;
everything else is the real standard library.  No file in /repo is changed.
"""

import builtins
import ctypes
import os
import random as _random
import sys
import time as _time
import types

REPO = os.environ.get("PAF_REPO", "/repo")

_code = {}


def _source(path):
    code = _code.get(path)
    if code is None:
        with open(path, "rb") as f:
            code = compile(f.read(), path, "exec", dont_inherit=True)
        _code[path] = code
    return code


class Proxy(types.ModuleType):
    """A module that shows overrides first and the real module otherwise."""

    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


class Instance:
    """One private copy of the paf package."""

    def __init__(self, fakes, sim, package_dir=None):
        self.sim = sim
        self.fakes = fakes
        self.dir = package_dir or os.path.join(REPO, "paf")
        self.modules = {}
        self.builtins = dict(vars(builtins))
        self.builtins['__import__'] = self._import

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get('__package__') or 'paf'
            base = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            name = base + ('.' + name if name else '')
        if name == 'paf' or name.startswith('paf.'):
            self._load('paf')
            mod = self._load(name)
            if fromlist:
                for sub in fromlist:
                    if not hasattr(mod, sub) and name == 'paf':
                        self._load('paf.' + sub)
                return mod
            return self.modules['paf']
        top = name.split('.')[0]
        if name == 'selectors':
            return self._selectors()
        if top in self.fakes:
            fake = self.fakes[top]
            if '.' in name and not fromlist:
                builtins.__import__(name)
                return fake
            if '.' in name:
                return builtins.__import__(name, globals, locals, fromlist, 0)
            return fake
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _selectors(self):
        # the standard library's, over the simulated select module
        mod = self.modules.get('selectors')
        if mod is None:
            real = builtins.__import__('selectors')
            mod = self.modules['selectors'] = types.ModuleType('selectors')
            mod.__dict__['__builtins__'] = self.builtins
            exec(_source(real.__file__), mod.__dict__)
        return mod

    def _load(self, name):
        mod = self.modules.get(name)
        if mod is not None:
            return mod
        rel = name.split('.')[1:]
        if rel:
            path = os.path.join(self.dir, *rel) + ".py"
            if not os.path.exists(path):
                path = os.path.join(self.dir, *rel, "__init__.py")
        else:
            path = os.path.join(self.dir, "__init__.py")
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = 'paf' if not rel else name.rpartition('.')[0]
        if path.endswith('__init__.py'):
            mod.__package__ = name
            mod.__path__ = [os.path.dirname(path)]
        mod.__dict__['__builtins__'] = self.builtins
        self.modules[name] = mod
        try:
            exec(_source(path), mod.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if rel:
            parent = self.modules[name.rpartition('.')[0]]
            setattr(parent, rel[-1], mod)
        self._stable_hashes(mod)
        return mod

    def _stable_hashes(self, mod):
        # Objects of classes with identity hashing are put in sets by the
        # code; give them hashes that do not depend on addresses, so the
        # iteration order of such sets is a function of the run's seed.
        sim = self.sim

        def simhash(obj):
            h = obj.__dict__.get('__simhash__')
            if h is None:
                sim.hash_seq += 1
                h = (sim.hash_seq * 2654435761 + sim.hash_salt) & 0x3fffffff
                obj.__dict__['__simhash__'] = h
            return h

        for value in list(mod.__dict__.values()):
            if isinstance(value, type) and value.__module__ == mod.__name__ \
               and value.__hash__ is object.__hash__ \
               and value.__dictoffset__ != 0 \
               and '__slots__' not in value.__dict__:
                value.__hash__ = simhash

    def load(self, name):
        self._import(name)
        return self.modules[name]


def make_fakes(node, sim, net):
    """The operating system seen by one simulated process."""
    import fcntl
    import select
    import signal
    import socket

    proc = node.proc

    def wall():
        proc.clock_reads += 1
        if proc.clock_reads > proc.max_clock_reads:
            proc.spinning()
        return sim.wall()

    def mono():
        return 1000.0 + sim.now

    time_fake = Proxy(_time, time=wall, monotonic=mono, perf_counter=mono,
                      time_ns=lambda: int(wall() * 1e9),
                      monotonic_ns=lambda: int(mono() * 1e9),
                      perf_counter_ns=lambda: int(mono() * 1e9),
                      process_time=mono, sleep=proc.sleep)

    rng = _random.Random("%s/procrandom/%s" % (sim.seed, node.name))
    random_over = {n: getattr(rng, n) for n in dir(rng)
                   if not n.startswith('_')}
    random_fake = Proxy(_random, **random_over)
    random_fake.__dict__['SystemRandom'] = \
        lambda: _random.Random("%s/sysrandom/%s" % (sim.seed, node.name))

    select_fake = Proxy(select, epoll=proc.make_epoll, poll=proc.make_poll,
                        select=proc.select)

    os_fake = Proxy(os, pipe=proc.pipe, pipe2=proc.pipe2,
                    read=proc.read, write=proc.write, close=proc.close_fd,
                    set_blocking=proc.set_fd_blocking,
                    urandom=lambda n: bytes(rng.getrandbits(8)
                                            for _ in range(n)),
                    getpid=lambda: proc.pid,
                    kill=proc.unsupported("os.kill"),
                    _exit=proc.os_exit)

    fcntl_fake = Proxy(fcntl, fcntl=proc.fcntl)

    signal_fake = Proxy(signal, signal=proc.signal,
                        getsignal=proc.getsignal,
                        set_wakeup_fd=proc.set_wakeup_fd)

    ctypes_fake = Proxy(ctypes, CDLL=lambda *a, **kw: net.libxcm(proc),
                        get_errno=lambda: proc.errno,
                        set_errno=proc.set_errno)

    return {'time': time_fake, 'random': random_fake,
            'select': select_fake, 'os': os_fake, 'fcntl': fcntl_fake,
            'signal': signal_fake, 'ctypes': ctypes_fake, 'socket': socket}
