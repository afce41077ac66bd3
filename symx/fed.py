"""Runs the parties of the federation against each other over in-memory FIFO channels.

Every party runs its real code in a thread of its own, but only one thread runs at a time: a party runs until it
receives from an empty channel or ends, then the next runnable one continues.  Each channel has one writer and one
reader and receiving blocks, so what the parties compute does not depend on the order in which they are run (a Kahn
network); one schedule decides all of them.  A state in which nobody can continue is a deadlock."""
import copy
import ctypes
import threading
import types
from collections import deque
from . import engine
from .engine import PathAbort, Unsupported

threading.stack_size(64 * 1024 * 1024)


class Stop(BaseException):
    """ends the thread of a party"""


class Stuck(Exception):
    """a party waits for a message that never comes"""


class NotSendable(Exception):
    pass


BAD = (types.FunctionType, types.LambdaType, types.GeneratorType, types.ModuleType, types.MethodType)


def sendable(x, d=0, seen=None):
    """None or what cannot be pickled inside x (functions, generators, locks, sockets ...)"""
    seen = seen if seen is not None else set()
    if id(x) in seen or d > 12:
        return None
    seen.add(id(x))
    if isinstance(x, BAD) or type(x).__name__ in ("lock", "socket", "map", "filter", "zip", "dict_keys", "dict_values", "dict_items",
                                                   "list_iterator", "generator", "Logger", "TextIOWrapper"):
        return type(x).__name__
    if isinstance(x, dict):
        for k, v in x.items():
            r = sendable(k, d + 1, seen) or sendable(v, d + 1, seen)
            if r:
                return r
    elif isinstance(x, (list, tuple, set, frozenset)):
        for v in x:
            r = sendable(v, d + 1, seen)
            if r:
                return r
    elif hasattr(x, "__dict__") and not isinstance(x, type) and not type(x).__module__.startswith("symx"):
        return sendable(vars(x), d + 1, seen)
    return None


class Party:
    def __init__(self, name):
        self.name = name
        self.sem = threading.Semaphore(0)
        self.wait = None
        self.done = False
        self.exc = None
        self.result = None
        self.thread = None


class Fed:
    def __init__(self, nhosts):
        self.nhosts = nhosts
        self.q = {}
        for k in range(nhosts):
            self.q[("guest", k)] = deque()
            self.q[(k, "guest")] = deque()
        self.log = []            # (sender, receiver, payload)
        self.parties = {}
        self.main = threading.Semaphore(0)
        self.stopping = False
        self.stuck = None
        self.tls = {}

    # ---- channels
    def put(self, a, b, data):
        r = sendable(data)
        if r:
            raise NotSendable("a %s cannot be sent" % r)
        if engine.CTX is not None and len(self.log) > 3000:
            raise Unsupported("more than 3000 messages")      # the concrete run decides whether this ever ends
        self.log.append((a, b, copy.deepcopy(data)))
        self.q[(a, b)].append(copy.deepcopy(data))

    def get(self, a, b):
        """receive at b what a sent"""
        q = self.q[(a, b)]
        p = self.parties.get(b)
        while not q:
            if p is None:
                raise Stuck("nothing to receive")
            p.wait = (a, b)
            self.main.release()
            p.sem.acquire()
            if self.stopping:
                raise Stop()
        if p is not None:
            p.wait = None
        return q.popleft()

    def left(self):
        return {k: len(v) for k, v in self.q.items() if v}

    def guest_inst(self):
        return GuestInst(self)

    def host_inst(self, k):
        return HostInst(self, k)

    # ---- running
    def run(self, jobs):
        """jobs: {"guest": fn, 0: fn, ...}; returns the results by party"""
        self.parties = {n: Party(n) for n in jobs}
        self.stopping = False
        self.stuck = None

        def body(p, fn):
            p.sem.acquire()
            try:
                if not self.stopping:
                    p.result = fn()
            except BaseException as e:
                p.exc = e
            p.done = True
            self.main.release()

        for n, fn in jobs.items():
            p = self.parties[n]
            p.thread = threading.Thread(target=body, args=(p, fn), daemon=True)
            p.thread.start()
        bad = None
        try:
            while bad is None:
                todo = [p for p in self.parties.values() if not p.done]
                if not todo:
                    break
                p = next((p for p in todo if p.wait is None or self.q[p.wait]), None)
                if p is None:
                    self.stuck = ["%s waits for %s" % (x.name, x.wait[0]) for x in todo]
                    bad = Stuck("; ".join(self.stuck))
                    break
                p.sem.release()
                self.main.acquire()
                if p.exc is not None:
                    bad = p.exc
        except BaseException as e:       # Hang raised in the main thread
            bad = e
        # end what is left
        self.stopping = True
        for p in self.parties.values():
            if not p.done:
                ident = p.thread.ident
                if p.wait is None and ident is not None:
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(ident), ctypes.py_object(Stop))
                p.sem.release()
        for p in self.parties.values():
            p.thread.join(2)
        if bad is not None:
            raise bad
        return {n: p.result for n, p in self.parties.items()}


class GuestInst:
    def __init__(self, fed):
        self.fed = fed
        self.conns = list(range(fed.nhosts))

    def __deepcopy__(self, memo):
        return self

    def _idx(self, index):
        if index == -1:
            return self.conns
        if isinstance(index, int) and 0 <= index < len(self.conns):
            return [index]
        raise ValueError("the index is out of range")

    def send_data_to_hosts(self, data, index):
        for k in self._idx(index):
            self.fed.put("guest", k, data)

    def recv_data_from_hosts(self, index):
        r = [self.fed.get(k, "guest") for k in self._idx(index)]
        return r if index == -1 else r[0]


class HostInst:
    def __init__(self, fed, k):
        self.fed = fed
        self.k = k

    def __deepcopy__(self, memo):
        return self

    def send_data_to_guest(self, data):
        self.fed.put(self.k, "guest", data)

    def recv_data_from_guest(self):
        return self.fed.get("guest", self.k)
