"""The simulated operating system: processes, threads, loopback TCP, clock, signals.

Everything that happens is decided here: which thread of which process runs
next (one at a time), how long messages take, which calls fail, who is killed
or stalled.  Choices come from a seeded generator, or from a recorded sparse
list when a plan is replayed; a run is a pure function of its plan and of the
code under test.
"""
import errno
import os
import pickle
import random
import select
import signal
import socket
import zlib
from collections import Counter, deque

from .stub import FD0

STEP = 2e-5            # simulated cost of one system call
BLOCKED = object()
LATENCY = (1e-4, 5e-4, 3e-3, 2e-2, 0.15)
NAPS = (0.0, 1e-4, 2e-3, 2e-2, 0.1)     # seconds a preempted thread waits
NAP_WEIGHTS = ((60, 12, 12, 12, 4), (15, 5, 20, 30, 30))     # how often
FAIR = 0.3             # nothing that can run is kept waiting longer (simulated seconds)


class Stuck(Exception):
    """The code under test does not come back (real time)."""


class Sock:
    def __init__(self):
        self.refs, self.kind = 1, "new"
        self.host = self.port = None
        self.reuse = False
        self.backlog, self.backlog_max = None, 0
        self.peer = None
        self.peer_addr = None
        self.rbuf = deque()          # [arrival, bytes]
        self.last = 0.0              # arrival of the last thing sent to us (FIFO)
        self.fin = self.rst = None   # arrival times
        self.err = None
        self.wr_shut = False
        self.error_sent = False
        self.owner = None            # who accepted it
        self.home = None             # who listened when it came in


class Task:
    def __init__(self, proc, tid, name):
        self.proc, self.tid, self.name = proc, tid, name
        self.op, self.args = "start", ()
        self.deadline = None         # when the pending call gives up
        self.not_before = 0.0        # the pending call cannot complete before (cost of the call)
        self.since = None            # since when it could run
        self.gen = None              # actor: the generator to resume
        self.fixed = None            # result already determined, waiting for not_before
        self.began = False
        self.connects = 0


class Proc:
    def __init__(self, name, chan, parent=None):
        self.name, self.chan, self.parent = name, chan, parent
        self.pid = None
        self.fds = {}
        self.inherited = []
        self.next_fd = FD0
        self.tasks = {}
        self.naps = []               # (time, duration) of its preemptions lately
        self.alive, self.code = True, None
        self.dispo = {}
        self.sigs = []
        self.stalled = 0.0
        self.ops = 0
        self.children = []
        self.die_after = None
        self.lport = None
        self.forks = 0


class Kernel:
    def __init__(self, plan, on_browser=None):
        self.plan = plan
        self.now = 0.0
        self.steps = 0
        self.procs = []
        self.tasks = []
        self.listeners = {}
        self.events = []
        self.stats = Counter()
        self.fault = plan.get("fault", {})
        self.rng = random.Random("sched/%s" % plan.get("sched"))
        self.policy = plan.get("policy", "random")
        self.replay = None if plan.get("choices") is None else {int(a): b for a, b in plan["choices"]}
        self.choices = []
        self.nchoice = 0
        self.next_port = 40000
        self.last_task = None
        self.prio = {}
        self.count = Counter()
        self.orders = set()
        self.on_browser = on_browser
        self.sig = 0
        self.agenda = []             # (time | None, step | None, function), activated by marks
        self.locks = {}
        self.accepted = []
        self.actors = 0

    # -- choices --------------------------------------------------------------
    def pick(self, n, draw):
        """A number in 0..n-1; 0 is the plain choice."""
        if n <= 1:
            return 0
        self.nchoice += 1
        if self.replay is not None:
            v = self.replay.get(self.nchoice, 0) % n
        else:
            v = draw(self.rng)
        if v:
            self.choices.append([self.nchoice, v])
        return v

    def latency(self):
        p = self.fault.get("slow_net", 0.0)
        if not p:
            return LATENCY[0]
        k = self.pick(len(LATENCY), lambda r: r.randrange(1, len(LATENCY)) if r.random() < p else 0)
        if k:
            self.stats["net_delay"] += 1
        return LATENCY[k]

    def mix(self, *x):
        """Fold a step of one of the parties into the signature of the interleaving."""
        self.sig = zlib.crc32(repr(x).encode(), self.sig)

    def signature(self):
        return self.sig

    def log(self, *ev):
        self.events.append((round(self.now, 6),) + ev)

    # -- processes ------------------------------------------------------------
    def add_proc(self, name, chan, parent=None):
        p = Proc(name, chan, parent)
        self.procs.append(p)
        return p

    def add_task(self, proc, tid, name, op="start"):
        t = Task(proc, tid, name)
        t.op = op
        proc.tasks[tid] = t
        self.tasks.append(t)
        self.prio[t.name] = self.rng.random()
        return t

    def actor(self, name, gen, delay=0.0):
        """A simulated party living in the kernel (a browser)."""
        p = self.add_proc(name, None)
        p.pid = -1 - len(self.procs)
        t = self.add_task(p, 0, name)
        t.gen = gen(self, p)
        t.not_before = self.now + delay
        t.op = "start"
        return p

    def end_proc(self, p, code, why):
        if not p.alive:
            return
        p.alive, p.code = False, code
        self.log("exit", p.name, code, why)
        self.mix(p.name, "exit")
        for fd in list(p.fds):
            self.close_fd(p, fd)
        for t in list(p.tasks.values()):
            self.tasks.remove(t)
        p.tasks.clear()
        if p.chan is not None:
            p.chan.close()
            p.chan = None
            if p.pid is not None and p.pid > 0:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass

    def post_signal(self, p, sig):
        if not p.alive:
            return False
        if sig == 0:
            return True
        if sig == signal.SIGKILL:
            self.end_proc(p, -sig, "signal %d" % sig)
            return True
        d = p.dispo.get(sig, "handler" if sig == signal.SIGINT else "default")
        if d == "ignore":
            return True
        if d == "default":
            k = self.pick(5, lambda r: r.randrange(5) if r.random() < 0.3 else 0)
            if k:       # it takes a moment until the process is gone; it does nothing more
                p.stalled = 1e9
                self.at((0, 1e-4, 2e-3, 2e-2, 0.2)[k], 0, lambda: self.end_proc(p, -sig, "signal %d" % sig))
            else:
                self.end_proc(p, -sig, "signal %d" % sig)
            return True
        p.sigs.append(sig)
        return True

    def close_all(self):
        for p in self.procs:
            if p.alive:
                self.end_proc(p, None, "end")

    # -- sockets --------------------------------------------------------------
    def new_fd(self, p, s):
        fd = p.next_fd
        p.next_fd += 1
        p.fds[fd] = s
        return fd

    def deliver(self, s, data=None, fin=False, rst=False):
        """Something travels to socket s."""
        t = max(s.last + 1e-7, self.now + self.latency())
        s.last = t
        if data is not None:
            s.rbuf.append([t, data])
        if fin and s.fin is None:
            s.fin = t
        if rst and s.rst is None:
            s.rst = t

    def close_fd(self, p, fd):
        s = p.fds.pop(fd, None)
        if s is None:
            return
        s.refs -= 1
        if s.refs:
            return
        kind, s.kind = s.kind, "closed"
        if kind in ("bound", "listen") and self.listeners.get(s.port) is s:
            del self.listeners[s.port]
        if kind == "listen":
            for _, c in s.backlog:
                self.close_sock(c, True)
        elif kind == "conn":
            self.close_sock(s, False)

    def close_sock(self, s, reset):
        s.kind = "closed"
        if s.peer is not None and s.peer.kind != "closed" and (s.rst is None or s.rst > self.now):
            if reset or any(a <= self.now for a, _ in s.rbuf):
                self.deliver(s.peer, rst=True)
            elif not s.wr_shut:
                self.deliver(s.peer, fin=True)

    def reset_sock(self, p, fd):
        """Abortive close (a browser that crashes)."""
        s = p.fds.pop(fd, None)
        if s is not None:
            s.refs = 0
            self.close_sock(s, True)

    def arrived(self, s):
        """(readable now, earliest time at which it becomes readable)"""
        ts = [s.rbuf[0][0]] if s.rbuf else []
        ts += [x for x in (s.fin, s.rst) if x is not None]
        if s.err is not None or s.kind != "conn":
            return True, None
        if not ts:
            return False, None
        return min(ts) <= self.now, min(ts)

    def readable(self, s):
        if s.kind == "listen":
            if not s.backlog:
                return False, None
            return s.backlog[0][0] <= self.now, s.backlog[0][0]
        if s.kind == "conn":
            return self.arrived(s)
        return False, None

    # -- may the pending call of a task complete? -------------------------------
    def state(self, t):
        """(can run now, next moment at which that may change without anybody else acting)"""
        p = t.proc
        floor = max(t.not_before, p.stalled)
        if floor > self.now + 1e-12:
            return False, floor
        if p.sigs and t.tid == 0 and t.op in ("sleep", "connect", "accept", "poll", "recv", "lwait", "waitpid", "tjoin"):
            return True, None
        if t.fixed is not None:
            return True, None
        ok, nxt = self.condition(t)
        if ok:
            return True, None
        if t.deadline is not None:
            if t.deadline <= self.now + 1e-12:
                return True, None
            nxt = t.deadline if nxt is None else min(nxt, t.deadline)
        return False, nxt

    def condition(self, t):
        op, a, p = t.op, t.args, t.proc
        if op == "recv":
            s = p.fds.get(a[0])
            return (True, None) if s is None else self.readable(s) if s.kind == "conn" else (True, None)
        if op == "accept":
            s = p.fds.get(a[0])
            return (True, None) if s is None or s.kind != "listen" else self.readable(s)
        if op == "poll":
            nxt = None
            for fd, m in a[0]:
                s = p.fds.get(fd)
                if s is None:
                    return True, None
                if m & 2 and s.kind in ("conn", "new", "bound"):
                    return True, None
                if m & 1:
                    ok, n = self.readable(s)
                    if ok:
                        return True, None
                    if n is not None:
                        nxt = n if nxt is None else min(nxt, n)
            return False, nxt
        if op == "connect":
            s = self.listeners.get(a[2])
            if s is not None and s.kind == "listen" and len(s.backlog) > s.backlog_max:
                return False, None
            return True, None
        if op == "sleep":
            return False, None
        if op == "lwait":
            return self.locks.get((p.name, a[0]), 0) > 0, None
        if op == "tjoin":
            return a[0] not in p.tasks, None
        if op == "waitpid":
            c = [c for c in p.children if c.pid == a[0]]
            return not c or not c[0].alive, None
        if op == "embryo":
            return False, None
        return True, None

    # -- performing calls -------------------------------------------------------
    def perform(self, t):
        """The result (kind, value) of the pending call, which is known to be able to complete."""
        p, op, a = t.proc, t.op, t.args
        if t.fixed is not None:
            r, t.fixed = t.fixed, None
            return r
        if t.deadline is not None and not self.condition(t)[0]:
            if op == "sleep":
                return "ok", None
            if op == "poll":
                return "ok", []
            if op == "lwait":
                return "ok", False
            if op in ("tjoin", "waitpid"):
                return "ok", None
            return ("err", errno.EAGAIN) if t.timeout == 0.0 else ("timeout", None)
        return getattr(self, "do_" + op)(t, p, *a)

    def do_start(self, t, p):
        return "ok", None

    def do_spin(self, t, p):
        self.count["spin"] += 1
        return "ok", None

    def do_yield(self, t, p, where):
        self.stats["preemption"] += 1
        self.orders.add(("preempt", where))
        return "ok", None

    def do_mark(self, t, p, payload):
        self.log("mark", p.name, payload)
        t.connects = 0
        self.on_mark(payload)
        return "ok", None

    def on_mark(self, payload):
        pass

    def do_sleep(self, t, p, d):
        return "ok", None

    def do_socket(self, t, p):
        return "ok", self.new_fd(p, Sock())

    def do_close(self, t, p, fd):
        if fd not in p.fds:
            return "err", errno.EBADF
        self.close_fd(p, fd)
        return "ok", None

    def do_dup(self, t, p, fd):
        s = p.fds[fd]
        s.refs += 1
        return "ok", self.new_fd(p, s)

    def do_reuse(self, t, p, fd, flag):
        p.fds[fd].reuse = flag
        return "ok", None

    def do_bind(self, t, p, fd, host, port):
        s = p.fds.get(fd)
        if s is None:
            return "err", errno.EBADF
        if s.kind != "new":
            return "err", errno.EINVAL
        if port == 0:
            while self.next_port in self.listeners:
                self.next_port += 1
            port = self.next_port
            self.next_port += 1
        elif port in self.listeners:
            return "err", errno.EADDRINUSE
        s.host, s.port, s.kind = host, port, "bound"
        self.listeners[port] = s
        return "ok", None

    def do_listen(self, t, p, fd, backlog):
        s = p.fds.get(fd)
        if s is None or s.kind not in ("bound", "new"):
            return "err", errno.EBADF
        if s.kind == "new":
            self.do_bind(t, p, fd, "0.0.0.0", 0)
        s.kind, s.backlog, s.backlog_max = "listen", deque(), max(1, backlog)
        s.home = p.name
        p.lport = s.port
        d = self.fault.get("serve_delay", {}).get(str(getattr(p, "index", None)))
        if d:               # listens, but answers later
            p.stalled = max(p.stalled, self.now + d)
            self.stats["slow_to_serve"] += 1
        self.log("listen", p.name, s.port)
        return "ok", None

    def do_accept(self, t, p, fd, timeout):
        s = p.fds.get(fd)
        if s is None:
            return "err", errno.EBADF
        if s.kind != "listen":
            return "err", errno.EINVAL
        _, c = s.backlog.popleft()
        c.owner = p.name
        self.count["accepted"] += 1
        self.accepted.append(c)
        return "ok", (self.new_fd(p, c), c.peer_addr)

    def do_connect(self, t, p, fd, host, port, timeout):
        s = p.fds.get(fd)
        if s is None:
            return "err", errno.EBADF
        if s.kind == "conn":
            return "err", errno.EISCONN
        l = self.listeners.get(port)
        if l is None or l.kind != "listen":
            self.count["refused"] += 1
            t.not_before = self.now + min(0.05, max(5e-4, self.plan.get("horizon", 1.0) / 200))
            t.fixed = ("err", errno.ECONNREFUSED)
            return BLOCKED
        c = Sock()
        c.kind = s.kind = "conn"
        c.peer, s.peer = s, c
        c.home = l.home
        if s.port is None:
            s.host, s.port = "127.0.0.1", self.next_port
            self.next_port += 1
        c.host, c.port = "127.0.0.1", port
        c.peer_addr, s.peer_addr = ("127.0.0.1", s.port), ("127.0.0.1", port)
        t.connects += 1
        lat = self.latency() + (0.02 if t.connects > 150 else 0.0)    # a loop of requests: let time pass quicker
        c.last = s.last = self.now + lat
        l.backlog.append([self.now + lat, c])
        t.not_before = self.now + lat
        t.fixed = ("ok", None)
        return BLOCKED

    def do_getsockname(self, t, p, fd):
        s = p.fds.get(fd)
        if s is None:
            return "err", errno.EBADF
        return "ok", (s.host or "0.0.0.0", s.port or 0)

    def do_getpeername(self, t, p, fd):
        s = p.fds.get(fd)
        if s is None or s.kind != "conn":
            return "err", errno.ENOTCONN
        return "ok", s.peer_addr

    def do_shutdown(self, t, p, fd, how):
        s = p.fds.get(fd)
        if s is None:
            return "err", errno.EBADF
        if s.kind != "conn" or (s.rst is not None and s.rst <= self.now):
            return "err", errno.ENOTCONN
        if how in (1, 2) and not s.wr_shut:
            s.wr_shut = True
            if s.peer.kind != "closed":
                self.deliver(s.peer, fin=True)
        if how in (0, 2):
            s.rd_shut = True
            if s.fin is None:
                s.fin = self.now
        return "ok", None

    def do_recv(self, t, p, fd, n, timeout, peek):
        s = p.fds.get(fd)
        if s is None:
            return "err", errno.EBADF
        if s.kind != "conn":
            return "err", errno.ENOTCONN
        out = b""
        k = 0
        for a, d in s.rbuf:
            if a > self.now or len(out) >= n:
                break
            out += d
            k += 1
        if out:
            rest = out[n:]
            out = out[:n]
            if not peek:
                last = 0.0
                for _ in range(k):
                    last = s.rbuf.popleft()[0]
                if rest:
                    s.rbuf.appendleft([last, rest])
            return "ok", out
        if s.rst is not None and s.rst <= self.now:
            if not s.error_sent:
                s.error_sent = True
                return "err", errno.ECONNRESET
            return "ok", b""
        if s.fin is not None and s.fin <= self.now:
            return "ok", b""
        return "err", errno.EAGAIN

    def do_send(self, t, p, fd, data, timeout):
        s = p.fds.get(fd)
        if s is None:
            return "err", errno.EBADF
        if s.kind != "conn":
            return "err", errno.ENOTCONN
        if s.wr_shut:
            return "err", errno.EPIPE
        if s.rst is not None and s.rst <= self.now:
            self.stats["broken_send"] += 1
            if s.error_sent:
                return "err", errno.EPIPE
            s.error_sent = True
            return "err", errno.EPIPE if s.fin is not None and s.fin <= s.rst else errno.ECONNRESET
        if s.peer.kind == "closed":
            if s.rst is None:
                s.rst = self.now + 2 * LATENCY[0]
        else:
            self.deliver(s.peer, data=data)
        return "ok", len(data)

    def do_poll(self, t, p, want, timeout):
        out = []
        for fd, m in want:
            s = p.fds.get(fd)
            if s is None:
                return "err", errno.EBADF
            got = 0
            if m & 1 and self.readable(s)[0]:
                got |= 1
            if m & 2 and s.kind in ("conn", "new", "bound"):
                got |= 2
            if got:
                out.append((fd, got))
        return "ok", out

    # threads
    def do_lwait(self, t, p, lock, timeout):
        self.locks[(p.name, lock)] -= 1
        return "ok", True

    def do_lwake(self, t, p, lock):
        k = (p.name, lock)
        waiting = sum(1 for x in p.tasks.values() if x.op == "lwait" and x.args[0] == lock and x is not t)
        self.locks[k] = min(self.locks.get(k, 0) + 1, waiting)
        return "ok", None

    def do_tstart(self, t, p, tid):
        self.add_task(p, tid, "%s.%d" % (p.name, tid))
        return "ok", None

    def do_tjoin(self, t, p, tid, timeout):
        return "ok", None

    # processes
    def do_fork(self, t, p, chan):
        n = self.count["fork"]
        self.count["fork"] += 1
        if n in self.fault.get("fork_fail", ()):
            self.stats["fork_fail"] += 1
            self.log("fork_fail", p.name)
            chan.close()
            return "err", errno.EAGAIN
        c = self.add_proc("srv%d" % n, chan, p)
        c.fds = dict(p.fds)
        c.inherited = list(p.fds.values())
        c.next_fd = p.next_fd
        c.dispo = dict(p.dispo)
        c.index = n
        for s in c.fds.values():
            s.refs += 1
        p.children.append(c)
        p.unborn = c
        ct = self.add_task(c, 0, c.name, "embryo")
        d = self.fault.get("start_delay", {}).get(str(n), 0.0)
        if d:
            self.stats["slow_start"] += 1
        ct.not_before = self.now + d
        die = self.fault.get("die_after", {}).get(str(n))
        if die is not None:
            c.die_after = die
        self.log("fork", p.name, c.name)
        return "ok", None

    def do_forked(self, t, p, pid):
        c = p.unborn
        c.pid = pid
        if c.alive:
            c.tasks[0].op = "start"
        else:               # killed between its creation and its first instruction
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        return "ok", None

    def do_kill(self, t, p, pid, sig):
        for c in self.procs:
            if c.pid == pid:
                if not c.alive:
                    return "ok", None     # a zombie
                self.log("kill", p.name, c.name, sig)
                self.post_signal(c, sig)
                return "ok", None
        return "err", errno.ESRCH

    def do_waitpid(self, t, p, pid, timeout):
        for c in p.children:
            if c.pid == pid:
                return "ok", c.code
        return "err", errno.ECHILD

    def do_disposition(self, t, p, sig, kind):
        p.dispo[sig] = kind
        return "ok", None

    def do_browser(self, t, p, url):
        n = self.count["browser"]
        self.count["browser"] += 1
        ok = n not in self.fault.get("browser_fail", ())
        if not ok:
            self.stats["browser_fail"] += 1
        self.log("browser", url, ok)
        if ok and self.on_browser is not None:
            self.on_browser(url)
        return "ok", ok

    def do_openw(self, t, p, name):
        n = self.count["openw"]
        self.count["openw"] += 1
        bad = self.fault.get("disk_full", {}).get(str(n))
        self.log("openw", p.name, name, bad)
        if bad:
            self.stats["disk_full"] += 1
            if bad == "open":
                return "err", errno.ENOSPC
        return "ok", bad

    def do_reset(self, t, p, fd):
        self.reset_sock(p, fd)
        return "ok", None

    # -- time-driven faults -------------------------------------------------------
    def at(self, delay_t, delay_steps, func):
        self.agenda.append([self.now + delay_t, self.steps + delay_steps, func])

    def run_agenda(self):
        due = [x for x in self.agenda if x[0] <= self.now + 1e-12 and x[1] <= self.steps]
        for x in due:
            self.agenda.remove(x)
            x[2]()

    # -- the scheduler --------------------------------------------------------------
    def choose(self, en):
        """One of the tasks that can run (sorted by how long they have been able to)."""
        if self.now - en[0].since > FAIR:
            return en[0]
        n = len(en)

        def draw(r):
            if self.policy == "fifo":
                return 0
            if self.policy == "sticky":
                if self.last_task in en and r.random() < 0.9:
                    return en.index(self.last_task)
                return r.randrange(n)
            if self.policy == "prio":
                if r.random() < 0.02:
                    self.prio[en[r.randrange(n)].name] = r.random() - 0.5
                return max(range(n), key=lambda i: self.prio[en[i].name])
            return r.randrange(n)
        return en[self.pick(n, draw)]

    def run(self, until, max_steps=60000, horizon=3600.0):
        """Run until until() holds; returns "done", "idle" (nothing can ever happen), "steps" or "time"."""
        while not until():
            if self.steps >= max_steps:
                return "steps"
            if self.now > horizon:
                return "time"
            self.run_agenda()
            en, nxt = [], [x[0] for x in self.agenda if x[1] <= self.steps]
            for t in self.tasks:
                ok, n = self.state(t)
                if ok:
                    if t.since is None:
                        t.since = self.now
                    en.append(t)
                else:
                    t.since = None
                    if n is not None:
                        nxt.append(n)
            if not en:
                m = min(nxt) if nxt else None
                if m is None or m > self.now + 0.4:
                    late = [x for x in self.agenda if x[1] > self.steps]
                    if late:      # everybody is waiting: a fault due after some more steps happens now
                        min(late, key=lambda x: x[1])[1] = self.steps
                        continue
                if m is None:
                    return "idle"
                self.now = max(self.now + 1e-6, m)
                continue
            en.sort(key=lambda t: (t.since, t.name))
            t = self.choose(en)
            if t is not self.last_task:
                self.mix(t.name, t.op)
            self.last_task = t
            t.since = None
            self.steps += 1
            self.now += STEP
            self.step(t)
        return "done"

    def begin(self, t, op, args):
        """A task has issued a new call."""
        t.op, t.args, t.fixed, t.deadline, t.not_before = op, args, None, None, 0.0
        timeout = {"recv": 2, "accept": 1, "connect": 3, "poll": 1, "sleep": 0, "lwait": 1, "tjoin": 1,
                   "waitpid": 1}.get(op)
        t.timeout = None if timeout is None else args[timeout]
        if t.timeout is not None:
            t.deadline = self.now + max(0.0, t.timeout)
        if op == "yield":         # preempted: for how long
            k = self.pick(len(NAPS), lambda r: r.choices(range(len(NAPS)), NAP_WEIGHTS[self.plan.get("naps", 0)])[0])
            p = t.proc
            p.naps = [x for x in p.naps if x[0] > self.now - 5.0]
            if k and sum(x[1] for x in p.naps) + NAPS[k] <= 0.3:
                p.naps.append((self.now, NAPS[k]))
                t.not_before = self.now + NAPS[k]
        if op == "lwait":
            self.locks.setdefault((t.proc.name, args[0]), 0)

    def step(self, t):
        p = t.proc
        p.ops += 1
        if p.die_after is not None and p.ops > p.die_after:
            self.stats["server_killed"] += 1
            self.end_proc(p, -9, "killed")
            return
        sigs = ()
        if p.sigs and t.tid == 0 and t.op in ("sleep", "connect", "accept", "poll", "recv", "lwait", "waitpid", "tjoin"):
            sigs, p.sigs = tuple(p.sigs), []
            result = "eintr"
        else:
            self.count["op_" + t.op] += 1
            result = self.perform(t)
        if result is BLOCKED:
            return
        if not p.alive:
            return
        if t.gen is not None:
            return self.resume_actor(t, result)
        budget = 0
        if p.parent is not None and t.tid >= 0 and self.policy != "fifo":
            q = self.plan.get("preempt", 0.0)
            budget = self.pick(64, lambda r: (r.randrange(1, 6) if r.random() < 0.5 else r.randrange(1, 64)) if r.random() < q else 0) if q else 0
        self.reply(t, result, budget, sigs)

    def reply(self, t, result, budget=0, sigs=()):
        p = t.proc
        try:
            p.chan.send(pickle.dumps((t.tid, result, self.now, budget, sigs)))
        except OSError:
            return self.end_proc(p, -1, "crashed")
        self.listen_to(p)

    def listen_to(self, p):
        """The running thread of p speaks next."""
        ready, _, _ = select.select([p.chan], [], [], 60.0)
        if not ready:
            raise Stuck("%s does not give any sign of life" % p.name)
        data, fds, _, _ = socket.recv_fds(p.chan, 1 << 20, 4)
        if not data:
            return self.end_proc(p, -1, "crashed")
        tid, op, args, closing = pickle.loads(data)
        t = p.tasks[tid]
        for fd in closing:
            self.close_fd(p, fd)
        if fds:
            chan = socket.socket(fileno=fds[0])
            args = (chan,)
        if op == "exit":
            return self.end_proc(p, args[0], "exit")
        if op == "texit":
            del p.tasks[tid]
            self.tasks.remove(t)
            return
        self.begin(t, op, args)

    def resume_actor(self, t, result):
        kind, value = result
        try:
            if not t.began:
                t.began = True
                op = next(t.gen)
            elif kind == "ok":
                op = t.gen.send(value)
            elif kind == "timeout":
                op = t.gen.throw(TimeoutError("timed out"))
            else:
                op = t.gen.throw(OSError(value, os.strerror(value)))
        except StopIteration:
            return self.end_proc(t.proc, 0, "exit")
        except OSError as e:
            self.log("actor_error", t.proc.name, str(e))
            return self.end_proc(t.proc, 1, "exit")
        self.begin(t, op[0], op[1:])
