"""C15-C19: the rendering, on a simulated operating system (kernel.py, stub.py).

The environment's process, its two server processes with all their threads, and
any number of browsers run under a seeded scheduler; the code of gym_anm and of
the libraries it uses is the real one.
"""
import atexit
import compileall
import gc
import json
import math
import os
import pickle
import random
import re
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import traceback

from . import seams
from . import history
from .checks import Base, HarnessError, LibraryError, Outcome, check, chunks, isolated
from .kernel import Kernel, Stuck
from .refmodel import RefNetwork

MASTER = None
WS_FILES = ("servers.py", "websocket_server.py")
DROP = ("gym_anm", "sim.envs", "sim.world")


def master():
    """A scratch copy of the package (nothing below /repo is ever written)."""
    global MASTER
    if MASTER is None:
        MASTER = tempfile.mkdtemp(prefix="gymanm-sim-")
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(MASTER, ignore_errors=True))
        os.mkdir(os.path.join(MASTER, "src"))
        dst = os.path.join(MASTER, "src", "gym_anm")
        shutil.copytree(os.path.join(seams.REPO, "gym_anm"), dst, ignore=shutil.ignore_patterns("__pycache__"))
        compileall.compile_dir(dst, quiet=2, workers=1)
    return MASTER


master()


# -- the user's process --------------------------------------------------------
def num(x):
    x = float(x)
    return x if math.isfinite(x) else None


def shown(env, judged):
    """What a render call has to show now (SI units; None where there is no number)."""
    st = env.simulator.state
    vals = lambda k, u: [num(st[k][u][i]) for i in sorted(st[k][u])]
    if st is None or env.date is None:
        return None
    return {"time": [env.date.month, env.date.day, env.date.hour, env.date.minute], "yearCount": env.year_count,
            "pInjections": vals("dev_p", "MW"), "qInjections": vals("dev_q", "MVAr"), "sFlows": vals("branch_s", "MVA"),
            "socStorage": vals("des_soc", "MWh"), "pPotential": vals("gen_p_max", "MW"), "vMagn": vals("bus_v_magn", "pu"),
            "reward": [num(env.e_loss), num(env.penalty)],
            "networkCollapsed": bool(env.terminated) if judged else None}


def configs(plan):
    """The configuration of each environment of the plan."""
    return plan.get("cfgs") or [plan["cfg"]] * plan.get("envs", 1)


def user_process(sock, root, plan):
    """Runs in the forked process E: the user's script."""
    from . import stub
    try:
        devnull = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(devnull, fd)
        for m in [m for m in sys.modules if m.startswith(DROP)]:
            del sys.modules[m]
        sys.path[:] = [root] + [p for p in sys.path if os.path.abspath(p) != os.path.abspath(seams.REPO)]
        import gym_anm
        assert gym_anm.__file__.startswith(root), gym_anm.__file__
        seams.PKG = os.path.join(root, "gym_anm") + os.sep
        import gym_anm.envs.anm6_env.rendering.py.servers  # noqa: F401
        from .world import Slot, visible
        slots = [Slot(c) for c in configs(plan)]
        stub.install(sock, root, WS_FILES)
        rec0 = stub.me()
        stub._wake(rec0, stub._await(rec0))
        recs, judged = [], [False] * len(slots)
        for op in plan["ops"]:
            e = op.get("env", 0)
            slot = slots[e]
            k = op["op"]
            exc = tb = None
            if k in ("reset", "step", "setdate"):
                stub.mark("begin", op["id"], k, None)
                rec = slot.do(op)
                recs.append(visible(rec))
                judged[e] = rec["exc"] is None if k != "setdate" else judged[e]
                stub.mark("end", op["id"], k, None, None)
                continue
            try:
                if k == "render":
                    stub.mark("begin", op["id"], k, shown(slot.env, judged[e]))
                    slot.env.render(mode=op.get("mode", "human"), skip_frames=op.get("skip", 0))
                elif k == "close":
                    stub.mark("begin", op["id"], k, None)
                    slot.env.close()
                else:
                    stub.mark("begin", op["id"], k, None)
                    stub.sim_sleep(op["t"])
                    if op.get("settle") and plan["prop"] == "C25":
                        gc.collect()        # (what only awaits the garbage collector does not count)
            except (Exception, KeyboardInterrupt) as x:
                clean = lambda text: re.sub("0x[0-9a-f]+", "0x", text.replace(root, ""))
                exc = clean("%s: %s" % (type(x).__name__, str(x)[:200]))
                tb = clean("".join(traceback.format_exception(type(x), x, x.__traceback__)))[-1500:]
                del x
            while True:
                try:
                    stub.mark("end", op["id"], k, exc, tb)
                    break
                except KeyboardInterrupt:
                    pass
        with stub.REAL["open"](os.path.join(root, "recs.pkl"), "wb") as f:
            pickle.dump(recs, f)
        stub.sim__exit(0)
    except BaseException as x:
        with stub.REAL["open"](os.path.join(root, "harness.txt"), "w") as f:
            f.write("".join(traceback.format_exception(type(x), x, x.__traceback__)))
    os.kill(os.getpid(), signal.SIGKILL)


def plain(plan):
    """The same episode without any rendering."""
    from .world import Slot, visible
    slots = [Slot(c) for c in configs(plan)]
    return [visible(slots[op.get("env", 0)].do(op)) for op in plan["ops"] if op["op"] in ("reset", "step", "setdate")]


# -- browsers --------------------------------------------------------------------
GET = "GET %s HTTP/1.1\r\nHost: 127.0.0.1:%d\r\nConnection: keep-alive\r\nUser-Agent: Mozilla/5.0 (X11; Linux x86_64)\r\n" \
      "Accept: text/html\r\nAccept-Language: en\r\n\r\n"
UPGRADE = "GET / HTTP/1.1\r\nHost: 127.0.0.1:%d\r\nConnection: Upgrade\r\nUpgrade: websocket\r\n" \
          "Origin: http://127.0.0.1:8000\r\nSec-WebSocket-Version: 13\r\nUser-Agent: Mozilla/5.0\r\n" \
          "Sec-WebSocket-Key: AQIDBAUGBwgJCgsMDQ4PEA==\r\nSec-WebSocket-Extensions: permessage-deflate\r\n\r\n"


def fetch(host, port, path):
    """GET a page, following redirections: (status, body, path)."""
    for _ in range(3):
        fd = yield ("socket",)
        yield ("connect", fd, host, port, None)
        yield ("send", fd, (GET % (path, port)).encode(), None)
        data = b""
        while True:
            d = yield ("recv", fd, 65536, 20.0, False)
            if not d:
                break
            data += d
            m = re.search(rb"content-length: *(\d+)", data, re.I)
            if m and b"\r\n\r\n" in data and len(data.split(b"\r\n\r\n", 1)[1]) >= int(m.group(1)):
                break
        yield ("close", fd)
        m = re.match(rb"HTTP/1\.[01] (\d+)", data)
        status = int(m.group(1)) if m else 0
        loc = re.search(rb"\nlocation: *(\S+)", data, re.I)
        if status in (301, 302, 307, 308) and loc:
            path = re.sub(r"^https?://[^/]+", "", loc.group(1).decode())
            continue
        return status, data.split(b"\r\n\r\n", 1)[-1].decode("utf-8", "replace"), path
    return 0, "", path


PAGES = {}
STATIC = re.compile(r'\s*var wsServerAddress = "(ws://[\w.:/]*)";\s*\Z')
JS = """const vm = require("vm"), [code, url] = JSON.parse(require("fs").readFileSync(0, "utf8"));
const u = new URL(url), c = {location: u, URLSearchParams, URL, decodeURIComponent, console, navigator: {}};
c.window = c; c.self = c; c.document = {location: u, URL: url};
vm.createContext(c); for (const x of code) vm.runInContext(x, c);
console.log(JSON.stringify(vm.runInContext("typeof wsServerAddress === 'undefined' ? null : wsServerAddress", c)));"""


def page_address(html, url):
    """The address the scripts inside the page give to the web socket: (host, port) or None."""
    code = re.findall(r"<script(?:\s+type=\S+)?>(.*?)</script>", html, re.S)
    key = (tuple(code), url)
    if key not in PAGES:
        m = STATIC.match(code[0]) if len(code) == 1 else None
        if m:
            a = m.group(1)
        else:
            r = subprocess.run(["node", "-e", JS], input=json.dumps([code, url]), capture_output=True, text=True, timeout=60)
            a = json.loads(r.stdout or "null")
        PAGES[key] = a
    m = re.match(r"ws://([\w.]+):(\d+)/?$", PAGES[key] or "")
    return (m.group(1).replace("localhost", "127.0.0.1"), int(m.group(2))) if m else None


def viewer(spec, url):
    """A browser: the page, then the web socket; leaves as told."""
    name = spec["name"]

    def body(k, p):
        tries = spec.get("tries", 1)
        host, port = "127.0.0.1", 9001
        fd = None
        while True:
            tries -= 1
            try:
                if spec["how"] != "direct":
                    m = re.match(r"http://([\d.]+):(\d+)(/.*)$", url)
                    if not m:
                        k.log("v_page", name, 0, "bad url " + url)
                        return
                    k.log("v_load", name)
                    status, html, path = yield from fetch(m.group(1), int(m.group(2)), m.group(3))
                    a = page_address(html, "http://%s:%s%s" % (m.group(1), m.group(2), path))
                    k.log("v_page", name, status, a and "ws://%s:%d" % a)
                    if status != 200 or not a:
                        raise OSError(0, "page")
                    for res in re.findall(r"(?:href|src|data)=\"([\w./]+)\"", html) if spec.get("assets") else ():
                        st = (yield from fetch(m.group(1), int(m.group(2)), path.split("?")[0].rsplit("/", 1)[0] + "/" + res))[0]
                        k.log("v_asset", name, st, res)
                    host, port = a
                fd = yield ("socket",)
                yield ("connect", fd, host, port, None)
                break
            except OSError as x:
                k.log("v_fail", name, str(x))
                if tries <= 0:
                    return
                yield ("sleep", spec.get("pause", 0.01))
        sock = p.fds[fd]
        leave = spec.get("leave") or (None, 0, 0.0)
        kind = leave[0]
        k.log("v_tcp", name, port, getattr(sock.peer, "home", None))
        if kind == "mid":
            yield ("sleep", leave[2])
            k.log("v_left", name, kind)
            yield ("close", fd)
            return
        try:
            if kind == "garbage":
                yield ("send", fd, (b"\x16\x03\x01\x02\x00" * 20 if leave[1] % 2 else b"GET / HTTP/1.0\r\n\r\n"), None)
            else:
                yield ("send", fd, (UPGRADE % port).encode(), None)
        except OSError as x:
            k.log("v_end", name, str(x), False)
            yield ("close", fd)
            return
        if kind == "garbage":
            yield ("sleep", leave[2])
            k.log("v_left", name, kind)
            yield ("close", fd)
            return
        if kind == "early_rst":
            yield ("sleep", leave[2])
            k.log("v_left", name, kind)
            yield ("reset", fd)
            return
        buf, opened, got, until = b"", False, 0, None
        try:
            while True:
                if kind and opened and got >= leave[1]:
                    if until is None:
                        until = k.now + leave[2]
                    if k.now >= until - 1e-9:
                        break
                wait = 3600.0 if until is None else max(1e-4, until - k.now)
                try:
                    d = yield ("recv", fd, 65536, wait, False)
                except TimeoutError:
                    continue
                if not d:
                    k.log("v_end", name, "eof", opened)
                    yield ("close", fd)
                    return
                buf += d
                if not opened:
                    if b"\r\n\r\n" not in buf:
                        continue
                    head, buf = buf.split(b"\r\n\r\n", 1)
                    opened = True
                    if not head.startswith(b"HTTP/1.1 101"):
                        k.log("v_bad", name, "handshake answered with %r" % head[:40])
                    k.log("v_open", name, sock.peer.owner, port)
                while len(buf) >= 2:
                    n, o = buf[1] & 127, 2
                    if n == 126:
                        n, o = int.from_bytes(buf[2:4], "big"), 4
                    elif n == 127:
                        n, o = int.from_bytes(buf[2:10], "big"), 10
                    if len(buf) < o + n:
                        break
                    if buf[0] != 0x81:
                        if buf[0] & 15 == 8:
                            k.log("v_end", name, "closed by server", opened)
                            yield ("close", fd)
                            return
                        k.log("v_bad", name, "frame starts with %#x" % buf[0])
                    k.log("v_msg", name, buf[o:o + n].decode("utf-8", "replace"))
                    got += 1
                    k.stats["delivered"] += 1
                    buf = buf[o + n:]
                if spec.get("lazy"):
                    yield ("sleep", spec["lazy"])
        except OSError as x:
            k.log("v_end", name, str(x), opened)
            yield ("close", fd)
            return
        k.log("v_left", name, kind)
        k.stats["viewer_" + kind] += 1
        if kind == "rst":
            yield ("reset", fd)
        elif kind == "fin":
            yield ("close", fd)
        elif kind == "half":      # half a frame, then gone
            yield ("send", fd, b"\x81\xfe\x00", None)
            yield ("close", fd)
        elif kind == "odd":       # a message which is none of ours, then a normal end
            text = json.dumps({"messageLabel": "hello"}).encode()
            yield ("send", fd, b"\x81" + bytes([0x80 | len(text)]) + b"\0\0\0\0" + text, None)
            yield ("sleep", leave[2] + 0.01)
            yield ("send", fd, b"\x88\x82\0\0\0\0\x03\xe8", None)
            yield ("close", fd)
        elif kind == "junk":      # a message which is not even JSON, then gone
            yield ("send", fd, b"\x81\x83\0\0\0\0{{{", None)
            yield ("sleep", leave[2] + 0.01)
            yield ("close", fd)
        else:                     # "close": the closing handshake of a browser tab
            yield ("send", fd, b"\x88\x82\0\0\0\0\x03\xe9", None)
            try:
                while (yield ("recv", fd, 65536, 2.0, False)):
                    pass
            except OSError:
                pass
            yield ("close", fd)
    return body


def foreign(port):
    """Somebody else's server on one of our default ports."""
    def body(k, p):
        fd = yield ("socket",)
        yield ("bind", fd, "127.0.0.1", port)
        yield ("listen", fd, 50)
        while True:
            c, _ = yield ("accept", fd, None)
            yield ("close", c)
    return body


# -- one simulated run -------------------------------------------------------------
class Sim(Kernel):
    def __init__(self, plan):
        super().__init__(plan, self.browser)
        self.nb = 0
        self.ended = False
        self.env, self.urls = 0, {}          # environment of the call in progress; pages opened
        self.envs = {op["id"]: op.get("env", 0) for op in plan["ops"]}
        self.settled = {op["id"] for op in plan["ops"] if op.get("settle")}

    def browser(self, url):
        specs = self.plan.get("browser", [])
        spec = specs[self.nb % len(specs)] if specs else {"how": "browser"}
        if self.nb < 6:
            self.open_viewer(dict(spec, name="b%d" % self.nb, how="browser"), url)
        self.nb += 1
        self.urls[self.env] = url

    def open_viewer(self, spec, url):
        self.stats["viewers"] += 1
        self.actor(spec["name"], viewer(spec, url), spec.get("after", 0.0))

    default_url = "http://127.0.0.1:8000/envs/anm6_env/rendering"

    def holdings(self):
        """What the processes hold now: {process: (threads, sockets of its own, connections nobody is at the other end of)}."""
        out = {}
        for p in self.procs:
            if p.alive and (p.name == "env" or p.name.startswith("srv")):
                # (Sockets that the parent had when it forked are the parent's affair.)
                mine = [s for s in p.fds.values() if not any(s is x for x in p.inherited)]
                conns = [s for s in mine if s.kind == "conn"]
                live = [s for s in conns if s.peer is not None and s.peer.kind != "closed"]
                out[p.name] = (len(p.tasks), len(mine) - len(conns), len(conns) - len(live), len(live))
        return out

    def on_mark(self, m):
        if m[0] == "end" and m[1] in self.settled and m[3] is None:
            self.log("held", self.holdings())
        if m[0] == "begin":
            self.env = self.envs[m[1]]
            for v in self.plan.get("viewers", ()):
                if v["trig"][0] == m[1]:
                    self.at(v["trig"][1], v["trig"][2], lambda v=v: self.open_viewer(v, self.urls.get(v.get("env", 0), self.default_url)))
            for f in self.plan.get("faults", ()):
                if f["trig"][0] == m[1]:
                    self.at(f["trig"][1], f["trig"][2], lambda f=f: self.inject(f))

    def servers(self):
        return [p for p in self.procs if p.alive and p.name.startswith("srv")]

    def inject(self, f):
        k = f["kind"]
        srv = self.servers()
        if k == "ctrlc":
            e = self.procs[0]
            if not e.alive:
                return
            self.stats["ctrlc"] += 1
            self.log("fault", "ctrlc", None)
            self.post_signal(e, signal.SIGINT)
            if f.get("group"):
                for p in srv:
                    self.post_signal(p, signal.SIGINT)
            return
        if k == "reset_conn":
            cs = [c for c in self.accepted if c.kind == "conn" and c.owner and c.owner.startswith("srv")]
            if cs:
                c = cs[f.get("who", 0) % len(cs)]
                self.stats["conn_reset"] += 1
                self.log("fault", "reset_conn", c.owner)
                self.deliver(c, rst=True)
                if c.peer.kind != "closed":
                    self.deliver(c.peer, rst=True)
            return
        if f.get("who") == "env":
            p = self.procs[0]
        elif srv:
            p = srv[f.get("who", 0) % len(srv)]
        else:
            return
        if k == "stall":
            p.stalled = max(p.stalled, self.now + f["dur"])
            self.stats["stall"] += 1
            self.log("fault", "stall", p.name, f["dur"])
        elif k == "kill":
            self.stats["server_killed"] += 1
            self.log("fault", "kill", p.name)
            self.end_proc(p, -9, "killed")


OP_LIMIT = 130.0     # simulated seconds one call may take before it counts as hanging


def simulate(plan):
    """Runs the plan; returns (events, kernel, recs, why)."""
    root = tempfile.mkdtemp(prefix="run-", dir=master())
    try:
        shutil.copytree(os.path.join(MASTER, "src", "gym_anm"), os.path.join(root, "gym_anm"))
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                user_process(b, root, plan)
            finally:
                os._exit(3)
        b.close()
        k = Sim(plan)
        e = k.add_proc("env", a)
        e.pid = pid
        k.add_task(e, 0, "env").not_before = 0.01     # foreign servers have been there for long
        for port in plan.get("foreign", ()):
            k.actor("foreign%d" % port, foreign(port))
            k.stats["foreign_port"] += 1
        last = [0.0, 0]

        def until():
            if not e.alive:
                return True
            n = len(k.events)
            while last[1] < n:
                if k.events[last[1]][1] == "mark":
                    last[0] = k.now
                last[1] += 1
            return k.now - last[0] > OP_LIMIT
        why = k.run(until, max_steps=plan.get("max_steps", 120000), horizon=1e5)
        if e.alive and why == "done":
            why = "op_limit"
        elif why == "done":
            why = "end"
        if why == "end":     # what remains after the program has ended
            t = k.now + 3.0
            k.at(3.0, 0, lambda: None)
            k.run(lambda: k.now >= t, max_steps=k.steps + 20000, horizon=1e6)
            k.left = [p.name for p in k.servers()]
        k.stuck = [t for p in k.procs if p.name == "env" or p.name.startswith("srv") for t in p.tasks.values()]
        k.close_all()
        os.waitpid(pid, 0)
        h = os.path.join(root, "harness.txt")
        if os.path.exists(h):
            text = open(h).read()
            if 'File "%s' % os.path.join(root, "gym_anm") in text:
                raise LibraryError(("library_error", text.replace(root, "")[-2500:]))
            raise HarnessError(text)
        recs = None
        f = os.path.join(root, "recs.pkl")
        if os.path.exists(f):
            recs = pickle.load(open(f, "rb"))
        return k.events, k, recs, why
    except Stuck as x:
        k.close_all()
        raise LibraryError(("no_answer", str(x)))
    finally:
        shutil.rmtree(root, ignore_errors=True)


SLACK = 2            # processes may keep this much more than they need


# -- judging a run -------------------------------------------------------------------
INIT_KEYS = {"messageLabel", "deviceType", "pMax", "qMax", "sRate", "vMagnMin", "vMagnMax", "socMax", "energyLossMax",
             "penaltyMax", "title"}
UPDATE_KEYS = {"messageLabel", "time", "yearCount", "pInjections", "qInjections", "sFlows", "socStorage", "pPotential",
               "vMagn", "reward", "networkCollapsed"}


class Session:
    def __init__(self, start):
        self.start, self.servers, self.ok = start, [], None
        self.t0 = self.t1 = None
        self.count = 0
        self.sent = []           # dict(exp, t0, t1, exc)
        self.settles = []        # (t0, t1, number of updates sent by then)
        self.closed = None       # time of the close call
        self.damaged = None      # why nothing can be promised any more
        self.start_exc = None
        self.skip = 0


class View:
    def __init__(self, name):
        self.home = None         # the process that was listening
        self.name, self.owner, self.opened, self.tcp, self.port = name, None, None, None, None
        self.msgs, self.end, self.left, self.pages, self.fails, self.bad = [], None, None, [], [], []
        self.assets = []
        self.began = None        # when it started to load the page


def strict(text):
    def no(x):
        raise ValueError("%s is not JSON" % x)
    return json.loads(text, parse_constant=no)


def expected_init(plan, env=0):
    from .envs import full_cfg
    cfg = full_cfg(configs(plan)[env])
    ref = RefNetwork(cfg["net"])
    b = ref.base
    ids = sorted(ref.dev)
    dev = [ref.dev[i] for i in ids]
    clip = cfg.get("clip") or [None, None]
    c = [100 if clip[0] is None else clip[0], 10000 if clip[1] is None else clip[1]]
    net = cfg["net"]
    buses = sorted(net["bus"])
    return {"messageLabel": "init", "deviceType": [d.type for d in dev],
            "pMax": [max(abs(d.p_min), abs(d.p_max)) * b for d in dev],
            "qMax": [max(abs(d.q_min), abs(d.q_max)) * b for d in dev],
            "sRate": [r[5] * (1 if True else b) for r in sorted(net["branch"], key=lambda r: (r[0], r[1]))],
            "vMagnMin": [r[4] for r in buses], "vMagnMax": [r[3] for r in buses],
            "socMax": [ref.dev[i].soc_max * b for i in ref.des_ids], "energyLossMax": c[0], "penaltyMax": c[1],
            "title": {"easy": "SimEasy", "anm6": "SimANM6"}[cfg["kind"]]}


def close_to(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(close_to(x, y) for x, y in zip(a, b))
    if isinstance(b, str) or b is None or isinstance(b, bool):
        return a == b and type(a) is type(b)
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= 1e-9 * (1 + abs(b))


def matches(msg, exp):
    for key, v in exp.items():
        if key == "networkCollapsed" and v is None:
            continue
        w = msg.get(key)
        if isinstance(w, float) or isinstance(v, float):
            if not close_to(w, v):
                return key
        elif isinstance(v, list):
            if not close_to(w, v):
                return key
        elif w != v or (isinstance(v, bool) != isinstance(w, bool)):
            return key
    return None


def judge(plan, events, k, recs, why, plain_recs):
    """All violations of the run: [(property, kind, detail)]."""
    bad = []
    views, sessions, cur = {}, [], None
    curs, env = {}, 0        # session of each environment; environment of the last call
    listening, exits, where, op = {}, {}, {}, None
    ops = {o["id"]: o for o in plan["ops"]}
    forked = []
    browser_in_op, n_opened = [], 0
    pending = None           # the op in progress
    closes = []              # (time, servers forked so far, op id)
    starts = []
    intr, had_ctrlc = False, False
    held = []                # (time, holdings, session, number of sessions so far)
    for ev in events:
        t, kind = ev[0], ev[1]
        if kind == "mark" and ev[3][0] == "begin":
            _, i, name, exp = ev[3]
            curs[env] = cur
            env = ops[i].get("env", 0)
            cur = curs.get(env)
            pending = (i, name, t, exp)
            intr = False
            browser_in_op = []
            if name == "render":
                o = ops[i]
                if o.get("mode", "human") == "human" and cur is None:
                    cur = Session(i)
                    cur.env = env
                    cur.t0, cur.skip, cur.op = t, o.get("skip", 0), o
                    sessions.append(cur)
            elif name == "close" and cur is not None:
                cur.closed = t
        elif kind == "mark" and ev[3][0] == "end":
            _, i, name, exc, tb = ev[3]
            t_begin, exp = pending[2], pending[3]
            pending = None
            if had_ctrlc and exc is not None and exc.startswith("KeyboardInterrupt"):
                intr = True           # the signal may have been waiting since an earlier operation
            if name == "render" and ops[i].get("mode", "human") != "human" and cur is None:
                if exc is None or not exc.startswith("NotImplementedError"):
                    bad.append(("C17", "mode", "render with an unsupported mode gave %s" % exc))
            elif name == "render":
                s = cur
                starting = s.start == i
                if starting:
                    s.t1, s.start_exc, s.ok = t, exc, exc is None
                    s.browser = list(browser_in_op)
                    s.tb = tb
                    s.intr = intr
                s.count = (s.count + 1) % (s.skip + 1)
                if s.count == 0 and (not starting or s.ok):
                    s.sent.append(dict(exp=exp, t0=t_begin, t1=t, exc=exc, op=i, tb=tb, intr=intr))
                elif not starting and exc is not None and not intr:
                    bad.append(("C16", "render_raised", "a render call that is skipped raised %s" % exc))
                if starting and not s.ok:
                    cur = None
            elif name == "close":
                if exc is not None and not intr:
                    bad.append(("C18", "close_raised", "close raised %s\n%s" % (exc, tb)))
                other = [x for e, s in curs.items() if e != env and s is not None for x in s.servers]
                closes.append((t, [x for x in forked if x not in other], i))
                cur = None
            elif name == "sleep" and exc is None and ops[i].get("settle"):
                curs[env] = cur
                for s in curs.values():
                    if s is not None:
                        s.settles.append((t_begin, t, len(s.sent)))
        elif kind == "held":
            held.append((t, ev[2], cur, len(sessions)))
        elif kind == "fork":
            forked.append(ev[3])
            where[ev[3]] = cur
            if cur is not None:
                cur.servers.append(ev[3])
            else:
                bad.append(("C17", "stray_server", "a server was started outside of a render call"))
        elif kind == "fork_fail" and cur is not None:
            cur.damaged = cur.damaged or "a fork failed"
        elif kind == "openw" and ev[4]:
            if cur is not None:
                cur.damaged = cur.damaged or "the disk was full"
        elif kind == "listen":
            listening[ev[2]] = (t, ev[3])
        elif kind == "exit":
            exits[ev[2]] = (t, ev[3], ev[4])
            s = where.get(ev[2])
            if s is not None and ev[4] == "killed":
                s.damaged = s.damaged or "a server was killed"
            elif s is not None and ev[4] in ("exit", "crashed") and s.closed is None and s.damaged is None:
                s.died = (t, ev[2], ev[3])
                s.damaged = "a server died by itself"
                if s.ok or s.ok is None:
                    bad.append(("C16", "server_died", "server process %s ended by itself (code %s) at %.3f s" % (ev[2], ev[3], t)))
        elif kind == "fault":
            if ev[2] == "ctrlc":
                intr = had_ctrlc = True
                curs[env] = cur
                for s in curs.values():
                    if s is not None:
                        s.damaged = s.damaged or "Ctrl-C"
            elif ev[2] == "reset_conn":
                s = where.get(ev[3])
                if s is not None:
                    s.damaged = s.damaged or "a connection was reset"
        elif kind == "browser":
            browser_in_op.append((t, ev[2], ev[3], "b%d" % n_opened if ev[3] else None))
            n_opened += bool(ev[3])
        elif kind.startswith("v_"):
            v = views.setdefault(ev[2], View(ev[2]))
            if kind == "v_open":
                v.opened, v.owner, v.port = t, ev[3], ev[4]
            elif kind == "v_tcp":
                v.tcp, v.port, v.home = t, ev[3], ev[4]
            elif kind == "v_msg":
                v.msgs.append((t, ev[3]))
            elif kind == "v_end":
                v.end = (t, ev[3])
            elif kind == "v_left":
                v.left = t
            elif kind == "v_load":
                v.began = v.began or t
            elif kind == "v_page":
                v.pages.append((t, ev[3], ev[4]))
            elif kind == "v_fail":
                v.fails.append((t, ev[3]))
            elif kind == "v_bad":
                v.bad.append(ev[3])
            elif kind == "v_asset" and ev[3] != 200:
                v.assets.append(ev[4])

    if why != "end":
        i, name, t0, _ = pending if pending else (None, "between calls", k.now, None)
        s = sessions[-1] if sessions else None
        group = "C17" if name == "render" and s is not None and s.t1 is None else "C18" if name == "close" else "C16"
        if name in ("reset", "step"):
            group = "C19"
        tasks = ", ".join("%s in %s%r" % (t.name, t.op, tuple(t.args)[:3]) for t in k.stuck)
        bad.append((group, "hang", "%s (operation %s) did not come back within %.0f simulated seconds (%s); %s" %
                    (name, i, k.now - t0, why, tasks)))

    by_session = {id(s): [] for s in sessions}
    for v in views.values():
        s = where.get(v.owner) if v.owner else None
        if s is None and v.tcp is not None:   # connected, but never answered
            s = where.get(v.home)
        if s is not None:
            by_session[id(s)].append(v)

    for s in sessions:
        vs = by_session[id(s)]
        init = expected_init(plan, s.env)
        bad += judge_start(plan, s, k, listening, exits, views, why)
        alive = lambda x, t: x not in exits or exits[x][0] > t
        sound = s.ok and s.damaged is None
        # updates that raised although nothing but browsers disturbed the rendering
        if sound or s.damaged == "a server died by itself":
            for u in s.sent:
                if u["exc"] is not None and not u["intr"]:
                    bad.append(("C16", "render_raised", "render (operation %s) raised %s\n%s" % (u["op"], u["exc"], u["tb"])))
                    break
        certain = [u for u in s.sent if u["exc"] is None]
        for v in vs:
            parsed = []
            for t, text in v.msgs:
                try:
                    m = strict(text)
                    lab = m["messageLabel"]
                except Exception as x:
                    bad.append(("C19", "invalid", "viewer %s received %.120r: %s" % (v.name, text, x)))
                    parsed.append((t, None, None, text))
                    continue
                parsed.append((t, lab, m, text))
            for b in v.bad:
                bad.append(("C16", "protocol", "viewer %s: %s" % (v.name, b)))
            labels = [p[1] for p in parsed]
            ninit = labels.count("init")
            if ninit > 1:
                bad.append(("C15", "init_twice", "viewer %s received the description %d times: %s" % (v.name, ninit, labels)))
            if labels and labels[0] == "update":
                bad.append(("C15", "update_before_init", "viewer %s received %s" % (v.name, labels[:6])))
            if any(x not in ("init", "update", None) for x in labels):
                bad.append(("C19", "invalid", "viewer %s received a message labelled %s" % (v.name, labels)))
            for t, lab, m, text in parsed:
                if lab == "init":
                    if set(m) != INIT_KEYS or matches(m, init):
                        key = matches(m, init) or "keys"
                        bad.append(("C19", "init_content", "description: %s is %s, the network has %s" %
                                    (key, m.get(key), init.get(key))))
            ups = [(t, m, text) for t, lab, m, text in parsed if lab == "update"]
            bad += judge_updates(s, v, ups, [p[0] for p in parsed if p[1] == "init"])
            # a browser that stays is connected, and served completely by the end of every quiet period
            if sound and v.left is None:
                for t0, t1, nsent in s.settles:
                    if v.tcp is None or v.tcp > t1 - 3.0 or (s.closed is not None and t1 > s.closed):
                        continue
                    if v.end is not None and v.end[0] <= t1:
                        bad.append(("C16", "disconnected", "viewer %s lost its connection (%s) at %.3f s" %
                                    (v.name, v.end[1], v.end[0])))
                        break
                    if v.opened is None or v.opened > t1:
                        bad.append(("C15", "not_served", "viewer %s is connected since %.3f s but was not answered until %.3f s" %
                                    (v.name, v.tcp, t1)))
                        break
                    ti = [p[0] for p in parsed if p[1] == "init" and p[0] <= t1]
                    if not ti:
                        bad.append(("C15", "no_init", "viewer %s, connected since %.3f s, has no description at %.3f s" %
                                    (v.name, v.opened, t1)))
                        break
                    due = [u for u in s.sent[:nsent] if u["exc"] is None and u["t0"] > ti[0]]
                    got = len([u for u in ups if u[0] <= t1])
                    if got < len(due):
                        bad.append(("C16", "lost", "viewer %s received %d of at least %d states rendered since it got the "
                                    "description" % (v.name, got, len(due))))
                        break
        # whoever opens the page of an environment is connected to the server of that environment
        if sound and len(configs(plan)) > 1:
            for spec in plan.get("viewers", ()):
                v = views.get(spec["name"])
                if v is None or spec["how"] != "page" or spec.get("env", 0) != s.env or not v.pages or v.began <= s.t1:
                    continue
                if v.tcp is None and v.left is None and any("refused" in f[1] and f[0] < (s.closed or 1e18) for f in v.fails):
                    bad.append(("C26", "mixed", "the page of environment %d, loaded at %.3f s, points to %s, which does not answer; "
                                "the server of this environment (%s) does" % (s.env, v.pages[-1][0], v.pages[-1][2], s.servers)))
                    continue
                if v.tcp is None:
                    continue
                if v.tcp < (s.closed or 1e18) and v not in vs:
                    bad.append(("C26", "mixed", "the page of environment %d, loaded at %.3f s, points to %s, which is not the "
                                "server of this environment (%s)" % (s.env, v.pages[-1][0], v.pages[-1][2], s.servers)))
        # the browser opened by the environment (not one of an earlier attempt that failed) shows the visualisation
        if sound and s.browser:
            for v in views.values():
                if v.name in [b[3] for b in s.browser] and any(s.t0 <= p[0] <= (s.closed or 1e18) for p in v.pages):
                    last = v.pages[-1]
                    gone = s.closed or 1e18
                    if last[0] >= gone:
                        continue
                    if last[1] != 200 or last[2] is None:
                        bad.append(("C17", "page", "the page opened in the browser gave status %s, %s" % (last[1], last[2])))
                    elif v.tcp is None and v.left is None and any(last[0] <= f[0] < gone for f in v.fails):
                        bad.append(("C17", "page", "the page opened in the browser points to a server that refuses (%s)" %
                                    (last[2],)))
                    elif v.tcp is not None and v.tcp < gone and v not in vs:
                        bad.append(("C17", "page", "the page opened in the browser points to somebody else's server (%s)" %
                                    (last[2],)))
                    if v.assets and (s.closed is None or v.tcp is not None):
                        bad.append(("C17", "page", "files of the page are not served: %s" % v.assets))

    # close
    for t, servers, i in closes:
        if why == "end" or k.now > t + 5.0:
            left = [x for x in servers if x not in exits or (exits[x][0] > t + 5.0)]
            left = [x for x in left if not (x in exits and exits[x][2] == "end" and exits[x][0] < t + 2.5)]
            if left:
                bad.append(("C18", "not_closed", "server processes still running 5 s after close (operation %s): %s" % (i, left)))
    for s in sessions[1:]:
        if getattr(s, "failed_start", None):
            bad.append(("C18", "not_restarted", "the rendering could not be started again: %s" % s.start_exc))
    # nothing piles up
    stalls = [(ev[0], ev[0] + ev[4]) for ev in events if ev[1] == "fault" and ev[2] == "stall"]
    for t, what, s, n in held:
        if any(t1 > t - 4.0 for _, t1 in stalls if t1 <= t + 10.0):
            continue
        th, own, stale, live = what.get("env", (1, 0, 0, 0))
        if th > 3 or own + stale > SLACK or live > SLACK:
            bad.append(("C25", "piled_up", "the environment's process holds %d threads, %d sockets and %d connections at %.3f s, "
                        "after %d renders" % (th, own + stale, live, t, sum(len(x.sent) for x in sessions))))
            break
        servers = [x for x in what if x != "env" and (s is None or x not in s.servers) and (x not in exits or exits[x][0] > t)]
        if len(servers) > SLACK:
            bad.append(("C25", "piled_up", "%d servers of earlier renderings are running at %.3f s" % (len(servers), t)))
            break
        for x in (s.servers if s is not None and s.damaged is None and s.ok else ()):
            if x not in what:
                continue
            th, own, stale, live = what[x]
            if stale > SLACK or th > live + stale + 2 + SLACK:
                bad.append(("C25", "piled_up", "server %s holds %d threads, %d connections that have ended and %d live ones "
                            "at %.3f s, after %d renders" % (x, th, stale, live, t, len(s.sent))))
                break
            there = len([v for v in by_session[id(s)] if v.tcp is not None and v.tcp < t and (v.left is None or v.left > t - 3.0) and
                         (v.end is None or v.end[0] > t - 3.0)])
            if live > there + SLACK and len(by_session[id(s)]) > 0:
                bad.append(("C25", "piled_up", "server %s holds %d connections at %.3f s, %d viewers are there; after %d renders" %
                            (x, live, t, there, len(s.sent))))
                break
        else:
            continue
        break
    # the picture never changes the episode
    if recs is not None and plain_recs is not None:
        from .world import diff
        for n, (a, b) in enumerate(zip(recs, plain_recs)):
            d = diff(a, b)
            if d:
                bad.append(("C19", "changed", "call %d differs from the same episode without rendering: %s" % (n, d)))
                break
    return bad, sessions, views


def judge_updates(s, v, ups, inits):
    """The updates a viewer received are a contiguous part of those sent, starting in time."""
    out = []
    sent = s.sent
    if not ups:
        return out
    hits = []
    for t, m, text in ups:
        c = [j for j, u in enumerate(sent) if u["exp"] is not None and m is not None and matches(m, u["exp"]) is None]
        if not c or set(m) != UPDATE_KEYS:
            best, key = None, "keys"
            for j, u in enumerate(sent):
                if u["exp"] is not None and u["t0"] <= t:
                    best, key = j, matches(m, u["exp"]) or "keys"
            out.append(("C19", "content", "viewer %s was shown %s = %s, the environment had %s when render was called" %
                        (v.name, key, m.get(key, sorted(m)), None if best is None else sent[best]["exp"].get(key))))
            return out
        hits.append(c)
    if s.damaged == "a connection was reset":        # (the environment did not wait for the server to treat its message)
        return out
    # greedy alignment: j increases by one for each message; uncertain ones may be missing
    def follow(j):
        for n in range(1, len(hits)):
            j += 1
            while j < len(sent) and j not in hits[n] and sent[j]["exc"] is not None:
                j += 1
            if j >= len(sent) or j not in hits[n]:
                return n
        return None
    best = -1
    for j in hits[0]:
        n = follow(j)
        if n is None:
            best = None
            late = [u for u in sent[:j] if u["exc"] is None and inits and u["t0"] > inits[0]]
            if late:
                best = -2
                continue
            break
        best = max(best, n)
    if best == -2:
        out.append(("C16", "lost", "viewer %s has the description since %.4f s but its first state is number %d of those sent, "
                    "number %d was rendered after that" % (v.name, inits[0], hits[0][0], sent.index(late[0]))))
    elif best is not None:
        out.append(("C16", "order", "viewer %s received states numbered %s of those sent" % (v.name, [h if len(h) > 1 else h[0] for h in hits])))
    return out


def judge_start(plan, s, k, listening, exits, views, why):
    out = []
    if s.t1 is None:
        return out            # reported as hanging
    up = sorted(listening[x][0] for x in s.servers if x in listening)
    healthy = s.damaged is None and not s.intr and len(up) >= 2 and up[1] <= s.t0 + 8.0
    died_early = [x for x in s.servers if x in exits and exits[x][0] <= s.t1]
    if s.start_exc is not None:
        if healthy or (s.damaged == "a server died by itself" and not plan.get("faults") and not plan.get("fault", {}).get("disk_full")):
            s.failed_start = True
            out.append(("C17", "start_failed", "the first render raised %s although both servers were listening after %s s\n%s" %
                        (s.start_exc, ["%.3f" % (x - s.t0) for x in up], s.tb)))
        if s.t1 - s.t0 > 75.0:
            out.append(("C17", "slow_failure", "the first render raised only after %.1f s" % (s.t1 - s.t0)))
        if why == "end" or k.now > s.t1 + 5.0:
            left = [x for x in s.servers if x not in exits or exits[x][0] > s.t1 + 5.0]
            if left and not s.intr:
                out.append(("C17", "left_running", "the first render raised %s but left %s running\n%s" % (s.start_exc, left, s.tb)))
            elif left:
                out.append(("C17", "left_running", "the first render was interrupted and left %s running\n%s" % (left, s.tb)))
    else:
        n = [x for x in s.servers if x in listening and listening[x][0] <= s.t1]
        if len(n) < 2:
            out.append(("C17", "false_success", "the first render returned with only %d of its servers ever listening" % len(n)))
        if len(s.browser) != 1:
            out.append(("C17", "browser", "the browser was opened %d times by the first render" % len(s.browser)))
    for t, url, ok, _ in s.browser:
        m = re.match(r"http://[\d.]+:(\d+)/", url)
        own = [x for x in s.servers if m and x in listening and listening[x][1] == int(m.group(1)) and listening[x][0] <= t and
               (x not in exits or exits[x][0] > t or exits[x][2] == "killed" or s.intr or s.damaged not in (None, "a server died by itself"))]
        if not own:
            out.append(("C17", "browser", "the browser was opened at %s, which no server of this rendering serves" % url))
    return out


# -- the checks ----------------------------------------------------------------------
def settle(ops, t=6.0):
    ops.append({"op": "sleep", "t": t, "settle": True})


class RenderCheck(Base):
    leave_rate = 0.35
    viewers = (1, 5)
    faults = ()
    n_ops = (4, 10)

    def gen(self, seed):
        rng = self.rng(seed)
        plan = {"prop": self.prop, "seed": seed, "sched": rng.randrange(10 ** 9),
                "policy": rng.choice(["random", "random", "sticky", "prio", "prio", "fifo"]),
                "preempt": rng.choice([0.0, 0.1, 0.4, 0.8]), "naps": rng.choice([0, 1]),
                "fault": {"slow_net": rng.choice([0.0, 0.0, 0.05, 0.3])},
                "cfg": self.config(rng), "ops": [], "viewers": [], "faults": []}
        self.episode(rng, plan)
        for i, op in enumerate(plan["ops"]):
            op["id"] = i
        self.audience(rng, plan)
        self.trouble(rng, plan)
        sd = [float(x) for x in plan["fault"].get("start_delay", {}).values()]
        plan["horizon"] = max([1.0] + sd)
        return plan

    def config(self, rng):
        if rng.random() < 0.6:
            return {"kind": "easy"}
        return {"kind": "anm6", "dt": rng.choice([0.25, 1.0, 0.05, 24.0]), "clip": rng.choice([None, [1, 100], [50, None], [None, 5]]),
                "lamb": rng.choice([1, 100, 1000])}

    def step(self, rng):
        return {"op": "step", "a": history.fractions(rng)}

    def reset(self, rng, cfg, first=False):
        return history.reset_op(rng, set(), cfg, True if first else None)

    def rendering(self, rng, plan, n, skip, settle_rate=0.15):
        """n operations while the rendering is active."""
        ops = plan["ops"]
        for _ in range(n):
            r = rng.random()
            if r < 0.06:
                ops.append(self.reset(rng, plan["cfg"]))
            elif r < 0.06 + settle_rate:
                if rng.random() < 0.5:
                    settle(ops)
                else:
                    ops.append({"op": "sleep", "t": rng.choice([1e-3, 0.01, 0.1, 1.0])})
            else:
                ops.append(self.step(rng))
            if rng.random() < 0.85:
                ops.append({"op": "render", "skip": skip})

    def episode(self, rng, plan):
        ops = plan["ops"]
        ops.append(self.reset(rng, plan["cfg"], True))
        skip = rng.choice([0, 0, 0, 0, 1])
        ops.append({"op": "render", "skip": skip})
        self.rendering(rng, plan, rng.randint(*self.n_ops), skip)
        settle(ops, 8.0)

    def trigger(self, rng, plan, early=0.3, ops=None):
        cand = [op["id"] for op in plan["ops"] if not op.get("settle") and (ops is None or op["op"] in ops)] or [0]
        first = [op["id"] for op in plan["ops"] if op["op"] == "render"][:1] or [cand[0]]
        i = first[0] if rng.random() < early else rng.choice(cand)
        how = rng.random()
        if how < 0.4:
            return [i, rng.choice([0.0, 1e-4, 1e-3, 5e-3, 0.02, 0.1]), 0]
        return [i, 0.0, rng.choice([0, rng.randint(1, 15), rng.randint(1, 60), rng.randint(1, 400)])]

    def leave(self, rng):
        kind = rng.choice(["close", "fin", "rst", "mid", "garbage", "early_rst", "half", "odd", "junk"])
        return [kind, rng.choice([0, 0, 1, 2, 3]), rng.choice([0.0, 0.0, 1e-4, 1e-3, 0.01, 0.2])]

    def audience(self, rng, plan):
        n = rng.randint(*self.viewers)
        plan["browser"] = [{} if rng.random() > self.leave_rate * 0.6 else {"leave": self.leave(rng)}]
        if rng.random() < 0.2:
            plan["browser"][0]["after"] = rng.choice([1e-3, 0.02, 0.3])
        for j in range(n):
            v = {"name": "v%d" % j, "how": rng.choice(["direct", "direct", "page"]), "trig": self.trigger(rng, plan)}
            if v["trig"][0] <= 1 or rng.random() < 0.5:
                v["tries"] = rng.choice([20, 60])
                v["pause"] = rng.choice([2e-4, 1e-3, 5e-3, 0.03])
            if rng.random() < self.leave_rate:
                v["leave"] = self.leave(rng)
            if rng.random() < 0.1:
                v["lazy"] = rng.choice([1e-3, 0.01, 0.05])
            plan["viewers"].append(v)

    def trouble(self, rng, plan):
        if "stall" in self.faults and rng.random() < 0.35:
            t = self.trigger(rng, plan, 0.2)
            plan["faults"].append({"kind": "stall", "trig": t, "who": rng.choice([0, 1, 1, "env"]),
                                   "dur": rng.choice([0.01, 0.1, 0.5, 2.5])})

    def run(self, plan):
        out = Outcome()
        base = isolated(lambda: plain(plan)) if self.prop in ("C19", "C26") else None
        events, k, recs, why = simulate(plan)
        bad, sessions, views = judge(plan, events, k, recs, why, base)
        for prop, kind, detail in bad:
            if prop == self.prop or (self.everything and prop != "C25") or (prop, kind) in self.also:
                out.bad(kind, detail)
        out.log = [repr(e) for e in events]
        out.stats.update(k.stats)
        out.stats["events"] = len(events)
        out.stats["steps"] = k.steps
        out.stats["forced_choices"] = len(k.choices)
        for s in sessions:
            out.stats["rendering_started" if s.ok else "rendering_failed"] += 1
            out.stats["states_rendered"] += len(s.sent)
            if s.damaged:
                out.stats["damaged_session"] += 1
        out.sim_hours = k.now / 3600.0
        # distinct interleavings: order of the system calls of different threads on the servers
        out.states |= k.orders | {("order", k.signature())}
        out.extra = {}
        self.last = k
        return out

    also = ()
    everything = False

    def shrink(self, plan):
        if plan.get("choices") is None:
            try:
                yield dict(plan, choices=isolated(lambda: (simulate(plan)[1].choices)), preempt=plan["preempt"])
            except Exception:
                pass
        else:
            for n in (1, 2):
                ch = plan["choices"]
                for lo, hi in chunks(len(ch)):
                    if hi - lo >= max(1, len(ch) // 40):
                        yield dict(plan, choices=ch[:lo] + ch[hi:])
                break
            if plan["choices"]:
                yield dict(plan, choices=[])
        for key in ("viewers", "faults", "ops", "foreign"):
            lst = plan.get(key) or []
            for lo, hi in chunks(len(lst)):
                if key == "ops" and lo == 0:
                    continue
                yield dict(plan, **{key: lst[:lo] + lst[hi:]})
        for key in list(plan.get("fault", {})):
            yield dict(plan, fault={a: b for a, b in plan["fault"].items() if a != key})
        for i, v in enumerate(plan.get("viewers", ())):
            for key in ("lazy", "tries", "leave"):
                if key in v:
                    yield dict(plan, viewers=plan["viewers"][:i] + [{a: b for a, b in v.items() if a != key}] + plan["viewers"][i + 1:])
        if plan.get("browser") and plan["browser"] != [{}]:
            yield dict(plan, browser=[{}])


META = dict(wall=75.0, measure="pre-empted source lines of the servers, and digests of the order in which threads of different "
            "processes made their system calls",
            real="gym_anm, multiprocessing (fork), threading, socketserver, http.server, websocket-server, websocket-client, "
                 "requests, urllib3; every process is a real process, every thread a real thread",
            stub="kernel scheduling, loopback TCP, clock, timers, locks, signals, process death, full disk, the web browser",
            assumptions=["loopback TCP delivers in order and does not split small messages",
                         "threads are pre-empted at system calls, lock operations and source lines of servers.py and "
                         "websocket_server.py"])


@check("C15", 4000, 400000, **META)
class C15(RenderCheck):
    """Every viewer gets the description once, first."""
    leave_rate = 0.2
    viewers = (1, 5)


@check("C16", 4000, 400000, **META)
class C16(RenderCheck):
    """Every live viewer gets each state once, in order; departures disturb nobody."""
    leave_rate = 0.6
    viewers = (2, 6)
    faults = ("stall",)
    n_ops = (5, 14)


@check("C17", 4000, 400000, **META)
class C17(RenderCheck):
    """Start-up succeeds or fails cleanly."""
    viewers = (0, 2)
    leave_rate = 0.3

    def episode(self, rng, plan):
        ops = plan["ops"]
        ops.append(self.reset(rng, plan["cfg"], True))
        if rng.random() < 0.1:
            ops.append({"op": "render", "mode": rng.choice(["rgb_array", "ansi", ""])})
        for n in range(rng.choice([1, 1, 2, 3])):
            skip = rng.choice([0, 0, 0, 2])
            ops.append({"op": "render", "skip": skip})
            if rng.random() < 0.5:      # after a failure the rendering may be started afresh; otherwise one more state
                if rng.random() < 0.5:
                    settle(ops)
                ops.append({"op": "render", "skip": skip})
            settle(ops)
            if rng.random() < 0.6:
                ops += [self.step(rng), {"op": "render", "skip": skip}]
            settle(ops)
            if n == 0 or rng.random() < 0.7:
                ops.append({"op": "close"})
                if rng.random() < 0.5:
                    settle(ops)
                if rng.random() < 0.3:
                    ops.append(self.reset(rng, plan["cfg"]))
        settle(ops)

    def audience(self, rng, plan):
        super().audience(rng, plan)
        if rng.random() < 0.3:
            plan["browser"][0]["assets"] = True

    def trouble(self, rng, plan):
        f = plan["fault"]
        kinds = history.swarm(rng, ("delay", "delay", "serve", "die", "fork", "disk", "foreign", "kill", "ctrlc", "browser", "reset_conn", "stall"), 0.22)
        if "delay" in kinds:
            f["start_delay"] = {str(i): rng.choice([0.01, 0.3, 1.0, 3.0, 7.0, 9.0, 12.0, 14.0, 20.0, 100.0])
                                for i in range(rng.choice([2, 4, 6])) if rng.random() < 0.6}
        if "serve" in kinds:
            f["serve_delay"] = {str(i): rng.choice([0.3, 1.2, 2.4]) for i in range(6) if rng.random() < 0.5}
        if "die" in kinds:
            f["die_after"] = {str(rng.randrange(3)): rng.choice([0, 1, 2, 3, 5, 8, rng.randint(4, 40)])}
        if "fork" in kinds:
            f["fork_fail"] = [rng.choice([0, 1, 1, 2, 3])]
        if "disk" in kinds:
            f["disk_full"] = {str(rng.choice([0, 1, 2])): rng.choice(["open", "torn"])}
        if "foreign" in kinds:
            plan["foreign"] = rng.choice([[8000], [9001], [8000, 9001]])
        if "browser" in kinds:
            f["browser_fail"] = [0]
        for k in ("kill", "ctrlc", "reset_conn", "stall"):
            if k in kinds:
                t = self.trigger(rng, plan, 0.7, ("render",))
                if k == "ctrlc" and rng.random() < 0.5:
                    t[1] = rng.choice([0.5, 2.0, 5.0])
                plan["faults"].append({"kind": k, "trig": t, "who": rng.choice([0, 1]), "group": rng.random() < 0.5,
                                       "dur": rng.choice([0.01, 0.5, 2.5])})


@check("C18", 4000, 400000, **META)
class C18(RenderCheck):
    """Closing stops the servers; the rendering can be restarted."""
    viewers = (0, 4)
    leave_rate = 0.5

    def episode(self, rng, plan):
        ops = plan["ops"]
        if rng.random() < 0.2:
            ops.append({"op": "close"})
        ops.append(self.reset(rng, plan["cfg"], True))
        for _ in range(rng.choice([1, 2, 2, 3])):
            skip = rng.choice([0, 0, 1])
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                ops.append({"op": "render", "skip": skip})
                self.rendering(rng, plan, rng.choice([0, 1, 2, 4]), skip, 0.1)
                if rng.random() < 0.25:
                    ops.append({"op": "step", "a": [0.5], "fault": {"lin": ["nan", "all"]}})    # the network collapses
                    ops.append({"op": "render", "skip": skip})
                    if rng.random() < 0.5:
                        ops.append(self.reset(rng, plan["cfg"]))
            if rng.random() < 0.2:
                ops.append(self.reset(rng, plan["cfg"]))
            ops.append({"op": "close"})
            if rng.random() < 0.3:
                ops.append({"op": "close"})
            if rng.random() < 0.3:
                ops.append({"op": "sleep", "t": rng.choice([0.01, 1.0])})
        settle(ops)

    def trouble(self, rng, plan):
        f = plan["fault"]
        kinds = history.swarm(rng, ("delay", "die", "fork", "disk", "kill", "kill", "ctrlc", "reset_conn", "stall", "foreign"), 0.2)
        if "delay" in kinds:
            f["start_delay"] = {str(i): rng.choice([0.3, 2.0, 17.0]) for i in range(6) if rng.random() < 0.4}
        if "die" in kinds:
            f["die_after"] = {str(rng.randrange(4)): rng.choice([0, 3, 8, rng.randint(4, 80)])}
        if "fork" in kinds:
            f["fork_fail"] = [rng.randrange(5)]
        if "disk" in kinds:
            f["disk_full"] = {str(rng.randrange(4)): rng.choice(["open", "torn"])}
        if "foreign" in kinds:
            plan["foreign"] = rng.choice([[8000], [9001], [8000, 9001]])
        for k in ("kill", "ctrlc", "reset_conn", "stall"):
            if k in kinds:
                plan["faults"].append({"kind": k, "trig": self.trigger(rng, plan, 0.3, ("render", "close", "step")),
                                       "who": rng.choice([0, 1]), "group": rng.random() < 0.5, "dur": rng.choice([0.01, 0.5, 2.5])})


@check("C19", 4000, 400000, **META)
class C19(RenderCheck):
    """The picture is the environment's state, and rendering changes nothing."""
    viewers = (0, 2)
    leave_rate = 0.15

    def episode(self, rng, plan):
        ops = plan["ops"]
        plan["envs"] = 1
        ops.append(self.reset(rng, plan["cfg"], True))
        for _ in range(rng.choice([0, 0, 1, 3])):
            ops.append(self.step(rng))
        for _ in range(rng.choice([1, 1, 2])):
            skip = rng.choice([0, 0, 1, 2, 3, 5])
            ops.append({"op": "render", "skip": skip})
            for _ in range(rng.randint(4, 16)):
                r = rng.random()
                if r < 0.1:
                    ops.append(self.reset(rng, plan["cfg"]))
                elif r < 0.15:
                    ops.append({"op": "setdate", "options": history.date(rng)})
                elif r < 0.25:
                    ops.append({"op": "step", "a": history.fractions(rng), "fault": {"lin": history.lin_fault(rng, ("nan", "inf", "garbage"))}})
                elif r < 0.3:
                    ops.append({"op": "step", "a": history.fractions(rng), "bad": rng.choice(["nan", "high", "shape"])})
                else:
                    ops.append(self.step(rng))
                for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
                    ops.append({"op": "render", "skip": skip})
            settle(ops)
            ops.append({"op": "close"})
            if rng.random() < 0.3:
                ops.append(self.step(rng))

    def trouble(self, rng, plan):
        if rng.random() < 0.2:
            plan["faults"].append({"kind": rng.choice(["kill", "reset_conn", "ctrlc"]), "who": rng.choice([0, 1]),
                                   "trig": self.trigger(rng, plan, 0.2, ("render", "step"))})
        if rng.random() < 0.1:
            plan["foreign"] = [9001]


@check("C25", 2500, 250000, **META)
class C25(RenderCheck):
    """What the processes hold does not grow with the states rendered and the viewers gone."""
    viewers = (5, 10)
    leave_rate = 0.8
    faults = ("stall",)

    def episode(self, rng, plan):
        ops = plan["ops"]
        ops.append(self.reset(rng, plan["cfg"], True))
        for n in range(rng.choice([1, 1, 2, 4])):
            skip = rng.choice([0, 0, 0, 1])
            ops.append({"op": "render", "skip": skip})
            self.rendering(rng, plan, rng.choice([2, 6, 12, 16]), skip, 0.1)
            settle(ops, 8.0)
            if n or rng.random() < 0.6:
                ops.append({"op": "close"})
                settle(ops, 8.0)
        settle(ops, 8.0)

    def trouble(self, rng, plan):
        f = plan["fault"]
        kinds = history.swarm(rng, ("delay", "die", "fork", "disk", "kill", "ctrlc", "reset_conn", "stall"), 0.12)
        if "delay" in kinds:
            f["start_delay"] = {str(i): rng.choice([0.3, 2.0, 2.0, 17.0]) for i in range(6) if rng.random() < 0.4}
        if "die" in kinds:
            f["die_after"] = {str(i): rng.choice([0, 3, 8, rng.randint(4, 80)]) for i in range(8) if rng.random() < 0.4}
        if "fork" in kinds:
            f["fork_fail"] = [i for i in range(8) if rng.random() < 0.4]
        if "disk" in kinds:
            f["disk_full"] = {str(i): rng.choice(["open", "torn"]) for i in range(5) if rng.random() < 0.6}
        if rng.random() < 0.1:           # several starts in a row fail, one way or another
            n = rng.randint(4, 7)
            how = rng.choice(("fork", "disk", "both"))
            if how != "disk":
                f["fork_fail"] = [2 * i + 1 for i in range(n)] if rng.random() < 0.5 else list(range(n))
            if how != "fork":
                f["disk_full"] = {str(i): rng.choice(["open", "torn"]) for i in range(n)}
        for k in ("kill", "ctrlc", "reset_conn", "stall"):
            for _ in range(rng.choice([1, 2, 4]) if k in kinds else 0):
                plan["faults"].append({"kind": k, "trig": self.trigger(rng, plan, 0.1, ("render", "close", "step")),
                                       "who": rng.choice([0, 1]), "group": rng.random() < 0.5, "dur": rng.choice([0.01, 0.5, 2.5])})


@check("C26", 4000, 400000, **META)
class C26(RenderCheck):
    """Environments rendered at the same time have nothing to do with one another."""
    viewers = (2, 7)
    leave_rate = 0.35
    everything = True

    def gen(self, seed):
        plan = super().gen(seed)
        plan["cfg"] = plan["cfgs"][0]
        return plan

    def episode(self, rng, plan):
        ops = plan["ops"]
        n = plan["envs"] = rng.choice([2, 2, 2, 3])
        plan["cfgs"] = [self.config(rng) for _ in range(n)]
        skips = [rng.choice([0, 0, 0, 1]) for _ in range(n)]
        add = lambda e, *some: ops.extend(dict(o, env=e) for o in some)
        for e in range(n):
            add(e, self.reset(rng, plan["cfgs"][e], True))
        on = set()
        for _ in range(rng.randint(8, 24)):
            e = rng.randrange(n)
            r = rng.random()
            if r < 0.1:
                if rng.random() < 0.5:
                    settle(ops)
                else:
                    ops.append({"op": "sleep", "t": rng.choice([1e-3, 0.01, 0.1, 1.0])})
            elif r < 0.2 and len(on) > (0 if rng.random() < 0.2 else 1):
                add(e, {"op": "close"})
                on.discard(e)
            elif r < 0.26:
                add(e, self.reset(rng, plan["cfgs"][e]))
            elif r < 0.3:
                add(e, {"op": "step", "a": [0.5], "fault": {"lin": ["nan", "all"]}})    # this network collapses
            elif r < 0.55:
                add(e, self.step(rng))
            else:
                add(e, {"op": "render", "skip": skips[e]})
                on.add(e)
        settle(ops, 8.0)

    def audience(self, rng, plan):
        super().audience(rng, plan)
        for v in plan["viewers"]:
            v["how"] = rng.choice(["direct", "page", "page", "page"])
            v["env"] = rng.randrange(plan["envs"])
            if v["how"] == "page":
                v["trig"][0] = rng.choice([op["id"] for op in plan["ops"] if op.get("env") == v["env"] or op.get("settle")])

    def trouble(self, rng, plan):
        f = plan["fault"]
        kinds = history.swarm(rng, ("delay", "die", "fork", "kill", "ctrlc", "reset_conn", "stall", "foreign"), 0.12)
        if "delay" in kinds:
            f["start_delay"] = {str(i): rng.choice([0.3, 2.0, 7.0, 17.0]) for i in range(6) if rng.random() < 0.4}
        if "die" in kinds:
            f["die_after"] = {str(rng.randrange(6)): rng.choice([0, 3, 8, rng.randint(4, 80)])}
        if "fork" in kinds:
            f["fork_fail"] = [rng.randrange(7)]
        if "foreign" in kinds:
            plan["foreign"] = rng.choice([[8000], [9001], [8000, 9001]])
        if any(op.get("skip") for op in plan["ops"]):      # (how many calls were skipped would not be known)
            kinds = [k for k in kinds if k != "ctrlc"]
        for k in ("kill", "ctrlc", "reset_conn", "stall"):
            if k in kinds:
                plan["faults"].append({"kind": k, "trig": self.trigger(rng, plan, 0.1, ("render", "close", "step")),
                                       "who": rng.randrange(6), "group": rng.random() < 0.5, "dur": rng.choice([0.01, 0.5, 2.5])})
