"""C23: what the browser page displays.

The environment and rendering.py run for real (their servers are replaced by a
recorder of the messages); the page - index.html as written by the library, its
scripts and its drawing - runs for real in a simulated browser (page.js): its
documents, timers, web sockets, connection losses and the order and delay in
which everything loads are decided by the seed.
"""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

from . import seams, history
from .checks import Base, Outcome, HarnessError, check, chunks
from .render_checks import master, shown, expected_init, DROP

PAGE = os.path.join("gym_anm", "envs", "anm6_env", "rendering")
SVG = "envs/anm6/network.svg"
ADDRESS = "ws://127.0.0.1:9001/"
URL = "http://127.0.0.1:8000/envs/anm6_env/rendering"
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
GREEN, BLUE, RED = (0x31, 0xb6, 0x20), (0x49, 0x60, 0xfb), (255, 0, 0)
P_HEIGHT, S_HEIGHT, SOC_HEIGHT, COST_WIDTH = 19.8, 24.6, 19.8, 93.8

# Where everything is in the drawing: (identifier, element, x, y); the position (of the element's first point, in the
# drawing's own units) identifies the element should the identifiers change.
PLACES = [("text4219", "pmax", 0), ("text1129", "pmax", 1), ("text1223", "pmax", 2), ("text3978", "pmax", 3), ("text4048", "pmax", 4),
          ("text4103", "pmax", 5), ("text4177", "pmax", 6),
          ("text4450", "qmax", 0), ("text4479", "qmax", 1), ("text4509", "qmax", 2), ("text4539", "qmax", 3), ("text4569", "qmax", 4),
          ("text4599", "qmax", 5), ("text4628", "qmax", 6),
          ("rect4223", "pbar", 0), ("rect1121", "pbar", 1), ("rect1227", "pbar", 2), ("rect3982", "pbar", 3), ("rect4052", "pbar", 4),
          ("rect4107", "pbar", 5), ("rect4181", "pbar", 6),
          ("rect4227", "qbar", 0), ("rect1094", "qbar", 1), ("rect1231", "qbar", 2), ("rect3986", "qbar", 3), ("rect4056", "qbar", 4),
          ("rect4111", "qbar", 5), ("rect4185", "qbar", 6),
          ("text4267", "ptext", 0), ("text1183", "ptext", 1), ("text3968", "ptext", 2), ("text4038", "ptext", 3), ("text4081", "ptext", 4),
          ("text4129", "ptext", 5), ("text4201", "ptext", 6),
          ("text4271", "qtext", 0), ("text1206", "qtext", 1), ("text3972", "qtext", 2), ("text4042", "qtext", 3), ("text4085", "qtext", 4),
          ("text4133", "qtext", 5), ("text4205", "qtext", 6),
          ("g2863", "darrow", 0), ("g2899", "darrow", 1), ("g2935", "darrow", 2), ("g3007", "darrow", 3), ("g2971", "darrow", 4),
          ("g3079", "darrow", 5), ("g3043", "darrow", 6),
          ("rect4394", "pot", 2), ("rect4421", "pot", 4),
          ("rect1326", "sbar", 0), ("rect1232", "sbar", 1), ("rect1226", "sbar", 2), ("rect1272", "sbar", 3), ("rect1286", "sbar", 4),
          ("text1338", "stext", 0), ("text1324", "stext", 1), ("text1270", "stext", 2), ("text1284", "stext", 3), ("text1298", "stext", 4),
          ("path1591", "scross", 0), ("path1593", "scross", 0), ("path8986", "scross", 1), ("path8988", "scross", 1),
          ("path1623", "scross", 2), ("path1625", "scross", 2), ("path1615", "scross", 3), ("path1617", "scross", 3),
          ("path1631", "scross", 4), ("path1633", "scross", 4),
          ("g3151", "sarrow", 0), ("g2613", "sarrow", 0), ("g2325", "sarrow", 1), ("g3115", "sarrow", 1), ("g2541", "sarrow", 2),
          ("g2577", "sarrow", 2), ("g2469", "sarrow", 3), ("g2505", "sarrow", 3), ("g2361", "sarrow", 4), ("g2397", "sarrow", 4),
          ("g2433", "sarrow", 4),
          ("text1215", "socmax", 0), ("text4215", "soctext", 0), ("rect1607", "socbar", 0),
          ("text1153", "vtext", 0), ("text1159", "vtext", 1), ("text1165", "vtext", 2), ("text1077", "vtext", 3), ("text1141", "vtext", 4),
          ("text1147", "vtext", 5),
          ("path1131", "vcross", 0), ("path1133", "vcross", 0), ("path1123", "vcross", 1), ("path1125", "vcross", 1),
          ("path1105", "vcross", 2), ("path1108", "vcross", 2), ("path1098", "vcross", 3), ("path1100", "vcross", 3),
          ("path1107", "vcross", 4), ("path1109", "vcross", 4), ("path1115", "vcross", 5), ("path1117", "vcross", 5),
          ("rect5879", "lossbar", 0), ("rect5903", "penbar", 0), ("text3022", "lossmax", 0), ("text3028", "losstext", 0),
          ("text2992", "penmax", 0), ("text3034", "pentext", 0),
          ("tspan5951", "date", 0), ("tspan5955", "time", 0), ("tspan1071", "year", 0), ("text5968", "title", 0),
          ("text6301", "mark", 0), ("text1128", "marklabel", 0)]


# -- the user's process: messages and what they have to show -------------------------
class Refused(Exception):
    pass


def load_package(root):
    """gym_anm from a scratch copy (the library writes its index.html), with the outside world recorded."""
    for m in [m for m in sys.modules if m.startswith(DROP)]:
        del sys.modules[m]
    sys.path[:] = [root] + [p for p in sys.path if os.path.abspath(p) != os.path.abspath(seams.REPO)]
    import requests
    import webbrowser
    import websocket

    class World:
        sent = []
        refuse = False
        url = URL

    class Socket:
        def send(self, payload, *a, **k):
            World.sent.append(payload)
        send_text = send

        def close(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    def connect(*a, **k):
        if World.refuse:
            seams.fired("server_refuses")
            raise ConnectionRefusedError("injected")
        return Socket()

    class Page:
        status_code, ok, text, content = 200, True, "", b""

        def raise_for_status(self):
            pass

    class Process:
        pid, exitcode = 0, None

        def terminate(self):
            pass
        kill = join = start = terminate

        def is_alive(self):
            return True
    websocket.create_connection = connect
    requests.get = lambda *a, **k: Page()

    def opened(url, new=0, autoraise=True):
        World.url = url
        return True
    webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = opened
    import gym_anm
    assert gym_anm.__file__.startswith(root), gym_anm.__file__
    seams.PKG = os.path.join(root, "gym_anm") + os.sep
    from gym_anm.envs.anm6_env.rendering.py import servers, rendering

    def init(addr):
        def f(self, *a, **k):
            self.address, self.process, self.port = addr, Process(), int(re.findall(r":(\d+)", addr)[-1])
            self.HOST, self.PORT = "127.0.0.1", self.port
        return f
    servers.WsServer.__init__ = init(ADDRESS)
    servers.HttpServer.__init__ = init("http://127.0.0.1:8000")
    return World, rendering


def user(plan, root, out):
    """The script: a list of messages [{id, t, label, text, exp}] (exp: what has to be displayed)."""
    import io
    import contextlib
    world, rendering = load_package(root)
    from .world import Slot
    msgs = []

    def record(label, exp, t):
        for text in world.sent:
            msgs.append({"id": len(msgs), "t": t, "label": label, "text": text, "exp": exp})
            label = "update"
        del world.sent[:]
    if plan["kind"] == "direct":
        d = plan["desc"]
        for n, op in enumerate(plan["ops"]):
            if n == 0:
                with contextlib.redirect_stdout(io.StringIO()):
                    rendering.start(d["title"], d["deviceType"], d["pMax"], d["qMax"], d["sRate"], d["vMagnMin"], d["vMagnMax"],
                                    d["socMax"], (d["energyLossMax"], d["penaltyMax"]))
                record("init", d, op["t"])
            if op["op"] == "show":
                s = {k: [x if x is not None else math.nan for x in v] if isinstance(v, list) else v for k, v in op["s"].items()}
                import datetime as dt
                rendering.update(ADDRESS, dt.datetime(2020, *op["s"]["time"]), s["yearCount"], s["pInjections"], s["qInjections"],
                                 s["sFlows"], s["socStorage"], s["pPotential"], s["vMagn"], s["reward"], s["networkCollapsed"])
                record("update", op["s"], op["t"])
        return msgs, world.url
    slot = Slot(plan["cfg"])
    judged = False
    for op in plan["ops"]:
        if op["op"] in ("reset", "step", "setdate"):
            rec = slot.do(op)
            out.stats["op_" + op["op"]] += 1
            if op["op"] != "setdate":
                judged = rec["exc"] is None
                if rec["term"]:
                    out.stats["collapsed_steps"] += 1
            continue
        exp = shown(slot.env, judged)
        first = slot.env.render_mode is None
        world.refuse = bool(op.get("refuse")) and not first
        out.stats["op_" + op["op"]] += 1
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                slot.env.render(skip_frames=op.get("skip", 0))
        except ConnectionRefusedError:
            if not world.refuse:
                raise
        finally:
            world.refuse = False
        if first and world.sent:
            upd = world.sent[1:]
            del world.sent[1:]
            record("init", expected_init(plan), op["t"])
            world.sent[:] = upd
        record("update", exp, op["t"])
    return msgs, world.url


# -- what has to be displayed ------------------------------------------------------------
def places(root):
    """The element at every place of the drawing (by identifier, else by position)."""
    with open(os.path.join(os.path.dirname(__file__), "places.json")) as f:
        where = json.load(f)
    have = geometry(os.path.join(root, PAGE, SVG))
    ids = {}
    for ident, role, k in PLACES:
        if ident not in have:
            tag, x, y = where[ident]
            near = sorted((abs(h[1] - x) + abs(h[2] - y), i) for i, h in have.items() if h[0] == tag)
            if not near or near[0][0] > 0.5:
                raise HarnessError("the drawing has nothing at the place of %s" % ident)
            ident = near[0][1]
        ids.setdefault((role, k), []).append(ident)
    return ids


def geometry(path):
    """identifier -> (tag, x, y) of the first point of every element, in the units of the drawing."""
    def mul(A, B):
        a, b, c, d, e, f = A
        g, h, i, j, k, m = B
        return (a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j, a * k + c * m + e, b * k + d * m + f)

    def matrix(s):
        M = (1, 0, 0, 1, 0, 0)
        for n, a in re.findall(r"(\w+)\s*\(([^)]*)\)", s or ""):
            a = [float(x) for x in re.split(r"[\s,]+", a.strip())]
            if n == "matrix":
                m = tuple(a)
            elif n == "translate":
                m = (1, 0, 0, 1, a[0], a[1] if len(a) > 1 else 0)
            elif n == "scale":
                m = (a[0], 0, 0, a[-1], 0, 0)
            else:
                c, s_ = math.cos(math.radians(a[0])), math.sin(math.radians(a[0]))
                m = (c, s_, -s_, c, 0, 0)
                if len(a) > 1:
                    m = mul(mul((1, 0, 0, 1, a[1], a[2]), m), (1, 0, 0, 1, -a[1], -a[2]))
            M = mul(M, m)
        return M
    out = {}

    def number(v):
        try:
            return float(v)
        except (TypeError, ValueError):
            return None

    def walk(e, M):
        M = mul(M, matrix(e.get("transform")))
        if e.get("id"):
            x = y = None
            for s in e.iter():
                x, y = number(s.get("x")), number(s.get("y"))
                if x is not None and y is not None:
                    break
                m = re.match(r"\s*[mM]\s*([-\d.e]+)[ ,]([-\d.e]+)", s.get("d") or "")
                if m:
                    x, y = float(m[1]), float(m[2])
                    break
            if x is not None and y is not None:
                out.setdefault(e.get("id"), (e.tag.split("}")[-1], M[0] * x + M[2] * y + M[4], M[1] * x + M[3] * y + M[5]))
        for c in e:
            walk(c, M)
    walk(ET.parse(path).getroot(), (1, 0, 0, 1, 0, 0))
    return out


def rgb(s):
    s = (s or "").strip().lower()
    m = re.fullmatch(r"#([0-9a-f]{6})", s)
    if m:
        return tuple(int(m[1][i:i + 2], 16) for i in (0, 2, 4))
    m = re.fullmatch(r"#([0-9a-f]{3})", s)
    if m:
        return tuple(17 * int(c, 16) for c in m[1])
    m = re.fullmatch(r"rgb\(\s*(\d+)[ ,]+(\d+)[ ,]+(\d+)\s*\)", s)
    if m:
        return tuple(int(x) for x in m.groups())
    return {"red": (255, 0, 0), "black": (0, 0, 0)}.get(s)


def like(c, want, tol=8):
    return c is not None and all(abs(a - b) <= tol for a, b in zip(c, want))


NUM = r"([-+\u2212]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)"


def value_of(text, pattern):
    m = re.fullmatch(pattern.replace("NUM", NUM), re.sub(r"\s+", " ", text.strip()))
    return None if m is None else float(m[1].replace("\u2212", "-"))


def rounding(v):
    """Largest difference to the displayed number (the page shows 1 to 3 significant digits)."""
    a = abs(v)
    if a == 0:
        return 0.0
    d = 1 if a < 0.1 or a > 1e10 else 2 if a >= 1000 or a < 1 else 3
    e = math.floor(math.log10(a))
    return 0.5 * 10.0 ** (e - d + 1) * (1 + 1e-6) + 1e-12 * a


class Picture:
    """Judges one displayed picture against one description and one state."""

    def __init__(self, ids, show, initial, boxes):
        self.ids, self.show, self.initial, self.boxes, self.bad = ids, show, initial, boxes, []

    def els(self, role, k):
        for i in self.ids[(role, k)]:
            e = self.show.get(i)
            if e is None or not e["vis"]:
                self.wrong(role, k, "the element is not shown")
            else:
                yield i, e

    def wrong(self, role, k, text):
        self.bad.append("%s %d: %s" % (role, k, text))

    def number(self, role, k, pattern, v, tol=None):
        for i, e in self.els(role, k):
            x = value_of(e["text"], pattern)
            if v is None:
                continue
            if x is None or not abs(x - v) <= (rounding(v) if tol is None else tol):
                self.wrong(role, k, "shows %r for %r" % (e["text"], v))

    def text(self, role, k, want):
        for i, e in self.els(role, k):
            if re.sub(r"\s+", " ", e["text"].strip()) != want:
                self.wrong(role, k, "shows %r instead of %r" % (e["text"], want))

    def size(self, role, k, dim, want, colour=None):
        for i, e in self.els(role, k):
            if want is None:
                continue
            try:
                x = float(re.sub("px$", "", e["w" if dim == "width" else "h"] or e["a"].get(dim, "nan")))
            except ValueError:
                x = math.nan
            if not abs(x - want) <= 1e-6 + 1e-9 * abs(want):
                self.wrong(role, k, "%s %s instead of %.6g" % (dim, x, want))
            if colour is not None and not like(rgb(e["fill"]), colour):
                self.wrong(role, k, "colour %r instead of #%02x%02x%02x" % ((e["fill"],) + tuple(int(c) for c in colour)))

    def cross(self, role, k, on):
        for i, e in self.els(role, k):
            c = e["stroke"].strip().lower()
            if on and not like(rgb(c), RED):
                self.wrong(role, k, "the cross has the colour %r instead of red" % c)
            if not on and c not in ("none", "transparent", ""):
                self.wrong(role, k, "the cross is shown (%r)" % c)

    def arrow(self, role, k, turned):
        for i, e in self.els(role, k):
            b = self.boxes[i]
            cx, cy = b["x"] + b["width"] / 2, b["y"] + b["height"] / 2
            m0, m = self.initial[i]["m"], e["m"]
            want = mul6(m0, [-1, 0, 0, -1, 2 * cx, 2 * cy]) if turned else m0
            if not all(abs(x - y) <= 1e-6 * (1 + abs(y)) for x, y in zip(m, want)):
                self.wrong(role, k, "the arrow is %s" % ("not turned" if turned else "turned or moved"))

    def description(self, d):
        for k in range(7):
            self.number("pmax", k, "NUM", d["pMax"][k], 0.5 + 1e-9)
            self.number("qmax", k, "NUM", d["qMax"][k], 0.5 + 1e-9)
        self.number("socmax", 0, "NUM", d["socMax"][0], 1e-6 * (1 + d["socMax"][0]))
        self.number("lossmax", 0, "NUM", d["energyLossMax"], 1e-6 * (1 + d["energyLossMax"]))
        self.number("penmax", 0, "NUM", d["penaltyMax"], 1e-6 * (1 + d["penaltyMax"]))
        self.text("title", 0, d["title"])

    def before(self, d):
        """Nothing has been rendered yet."""
        for k in (2, 4):
            self.size("pot", k, "height", 0.0)
        for k in range(5):
            self.cross("scross", k, False)
        for k in range(6):
            self.cross("vcross", k, False)
        self.size("lossbar", 0, "width", 0.0)
        self.size("penbar", 0, "width", 0.0)

    def state(self, d, s):
        pot = iter(s["pPotential"])
        for k in range(7):
            p, q = s["pInjections"][k], s["qInjections"][k]
            hp = None if p is None else P_HEIGHT * min(1.0, abs(p) / d["pMax"][k])
            self.size("pbar", k, "height", hp, None if p is None else GREEN if p >= 0 else BLUE)
            self.size("qbar", k, "height", None if q is None else P_HEIGHT * min(1.0, abs(q) / d["qMax"][k]),
                      None if q is None else GREEN if q >= 0 else BLUE)
            self.number("ptext", k, "NUM MW", p)
            self.number("qtext", k, "NUM MVAr", q)
            if p is not None:
                self.arrow("darrow", k, p > 0 if d["deviceType"][k] < 0 else p < 0)
            if k in (2, 4):
                x = next(pot)
                if p is None or x is None:
                    continue
                rest = max(0.0, P_HEIGHT * x / d["pMax"][k] - hp) if x > p else 0.0
                self.size("pot", k, "height", rest, RED)
                for i, e in self.els("pot", k):
                    y, y0 = float(e["a"]["y"]), float(self.initial[i]["a"]["y"])
                    if rest > 1e-6 and abs(y - (y0 + hp)) > 1e-6:
                        self.wrong("pot", k, "is not on top of the injection: y %r, was %r" % (y, y0))
        for k in range(5):
            v = s["sFlows"][k]
            if v is None:
                continue
            pct = 100.0 * abs(v) / d["sRate"][k]
            u = min(1.0, pct / 100.0)
            self.size("sbar", k, "height", S_HEIGHT * u, (255 * u, 0, 255 * (1 - u)))
            self.number("stext", k, "NUM ?%", pct)
            if abs(pct - 100.0) > 1e-9:
                self.cross("scross", k, pct > 100.0)
            self.arrow("sarrow", k, v < 0)
        soc = s["socStorage"][0]
        if soc is not None:
            self.size("socbar", 0, "height", SOC_HEIGHT * soc / d["socMax"][0])
            self.number("soctext", 0, "NUM MWh", soc)
            for i, e in self.els("socbar", 0):
                if rgb(e["fill"]) is None:
                    self.wrong("socbar", 0, "colour %r" % e["fill"])
        for k in range(6):
            v = s["vMagn"][k]
            if v is None:
                continue
            self.number("vtext", k, r"\|V\| ?= ?NUM pu", v)
            if min(abs(v - d["vMagnMin"][k]), abs(v - d["vMagnMax"][k])) > 1e-12:
                self.cross("vcross", k, v < d["vMagnMin"][k] or v > d["vMagnMax"][k])
        loss, pen = s["reward"]
        if loss is not None:
            self.size("lossbar", 0, "width", COST_WIDTH * min(1.0, abs(loss) / d["energyLossMax"]), RED if loss > 0 else GREEN)
            self.number("losstext", 0, "NUM", loss, 0.005 + 1e-9 * (1 + abs(loss)))
        if pen is not None:
            self.size("penbar", 0, "width", COST_WIDTH * min(1.0, pen / d["penaltyMax"]), RED)
            self.number("pentext", 0, "NUM", pen, 0.005 + 1e-9 * (1 + abs(pen)))
        mo, da, ho, mi = s["time"]
        self.text("date", 0, "%s %d" % (MONTHS[mo - 1], da))
        self.text("time", 0, "%02d:%02d" % (ho, mi))
        self.text("year", 0, "Year count: %d" % s["yearCount"])
        c = s["networkCollapsed"]
        if c is not None:
            for i, e in self.els("mark", 0):
                if bool(e["text"].strip()) != c:
                    self.wrong("mark", 0, "the terminal state mark shows %r when collapsed is %s" % (e["text"], c))
                elif c and not like(rgb(e["fill"]), RED):
                    self.wrong("mark", 0, "the mark has the colour %r" % e["fill"])
            for i, e in self.els("marklabel", 0):
                if like(rgb(e["fill"]), RED) != c:
                    self.wrong("marklabel", 0, "the colour is %r when collapsed is %s" % (e["fill"], c))


def mul6(A, B):
    return [A[0] * B[0] + A[2] * B[1], A[1] * B[0] + A[3] * B[1], A[0] * B[2] + A[2] * B[3], A[1] * B[2] + A[3] * B[3],
            A[0] * B[4] + A[2] * B[5] + A[4], A[1] * B[4] + A[3] * B[5] + A[5]]


def browse(root, msgs, plan, ids, url):
    """Runs the page in the simulated browser (some tabs: its address typed by hand)."""
    urls = [url, URL, url] if len(plan["ops"]) % 3 else [url] * 3
    job = {"dir": os.path.join(root, PAGE), "svg": SVG, "address": ADDRESS, "tabs": [dict(t, url=urls[n % 3]) for n, t in enumerate(plan["tabs"])],
           "messages": [{k: m[k] for k in ("id", "t", "label", "text")} for m in msgs],
           "watch": sorted({i for v in ids.values() for i in v}), "end": plan["end"]}
    p = subprocess.run(["node", "--no-warnings", os.path.join(os.path.dirname(os.path.abspath(__file__)), "page.js")],
                       input=json.dumps(job), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise HarnessError("the simulated browser failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)


@check("C23", 100000, 4000000, measure="kinds of displayed content: device signs, over-limit marks, missing values, collapse, and "
       "position of the first message relative to the loading of the page", real="gym_anm's environments and rendering.py; "
       "index.html as written by it, every script of the page and the drawing, executed by Node's JavaScript engine",
       stub="the browser's document model, event loop, timers and layout (every element has a made-up bounding box); the servers "
            "and the web socket (C15-C19 decide these)",
       assumptions=["the simulated document model treats the calls the page makes as a browser does"])
class C23(Base):
    """The page draws what it is sent."""

    def gen(self, seed):
        rng = self.rng(seed)
        plan = {"kind": rng.choice(["env", "direct", "direct"]), "ops": []}
        t = 0.0
        gap = lambda: rng.choice([0.0, 0.002, 0.02, 0.3, 2.0, 5.0])
        if plan["kind"] == "env":
            plan["cfg"] = {"kind": "easy"} if rng.random() < 0.4 else {
                "kind": "anm6", "dt": rng.choice([0.25, 1.0, 0.05, 24.0, 100.0]), "lamb": rng.choice([1, 100, 1000]),
                "clip": rng.choice([None, [1, 100], [50, None], [None, 5], [0.5, 1e4], [3, 0.25]])}
            skip = rng.choice([0, 0, 0, 1, 2])
            allowed = history.swarm(rng, ("lin", "bad", "vars"), 0.5)
            plan["ops"].append(history.reset_op(rng, set(), plan["cfg"], True))
            for n in range(rng.randint(3, 16)):
                if n:
                    r = rng.random()
                    plan["ops"].append(history.reset_op(rng, set(), plan["cfg"]) if r < 0.12 else
                                       {"op": "setdate", "options": history.date(rng)} if r < 0.2 else
                                       history.step_op(rng, allowed, 0.2))
                if n == 0 or rng.random() < 0.85:
                    t += gap()
                    op = {"op": "render", "t": round(t, 4)}
                    if skip:
                        op["skip"] = skip
                    if n and rng.random() < 0.06:
                        op["refuse"] = True
                    plan["ops"].append(op)
        else:
            plan["desc"] = d = self.description(rng)
            plan["ops"].append({"op": "start", "t": 0.0})
            for _ in range(rng.randint(1, 14)):
                t += gap()
                plan["ops"].append({"op": "show", "t": round(t, 4), "s": self.state(rng, d)})
        plan["tabs"] = []
        for n in range(rng.choice([1, 1, 2, 3])):
            tab = {"start": round(rng.choice([0.0, 0.0, rng.uniform(-3, t), t + 0.5]), 4), "rnd": rng.randrange(1, 2 ** 31),
                   "delays": {"*": rng.choice([0.001, 0.01, 0.2])}}
            for f in ("svg", "ws", "svgLabels.js", "init.js", "devices.js", "graph.js"):
                if rng.random() < 0.25:
                    tab["delays"][f] = rng.choice([0.0005, 0.05, 0.8, 2.5])
            tab["jitter"] = [rng.choice([0.0, 0.0005, 0.01, 0.4]) for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.15:
                tab["cuts"] = [round(rng.uniform(0, t + 1), 4)]
            if rng.random() < 0.1:
                tab["hidden"] = True
            plan["tabs"].append(tab)
        plan["end"] = round(t + 25.0, 4)
        return plan

    def description(self, rng):
        size = lambda: round(rng.choice([rng.uniform(0.05, 2), rng.uniform(1, 60), rng.uniform(50, 3000)]), rng.choice([0, 1, 3])) or 0.7
        g = rng.choice([2, 2, 1])
        vmin = [rng.choice([0.9, 0.95, 0.97]) for _ in range(6)]
        return {"deviceType": [0, -1, g, -1, rng.choice([2, 1]), -1, 3], "pMax": [size() for _ in range(7)],
                "qMax": [size() for _ in range(7)], "sRate": [size() for _ in range(5)], "vMagnMin": vmin,
                "vMagnMax": [rng.choice([1.1, 1.05, 1.03]) for _ in range(6)], "socMax": [size()],
                "energyLossMax": rng.choice([1, 100, 0.5, 7.25]), "penaltyMax": rng.choice([100, 10000, 1, 0.05, 1234.5]),
                "title": rng.choice(["ANM6Easy", "MyTask", "T_2"])}

    def state(self, rng, d):
        def scaled(m, sign=None, over=True):
            r = rng.random()
            x = m if r < 0.08 else 0.0 if r < 0.16 else m * 1.0001 if r < 0.2 and over else m * rng.uniform(1, 40) if r < 0.3 and over else \
                m * 10 ** rng.uniform(-6, 0) if r < 0.5 else m * rng.random()
            if sign is None:
                sign_ = rng.choice([-1, 1])
            else:
                sign_ = sign
            return float(sign_ * x)
        p = []
        for k, t in enumerate(d["deviceType"]):
            p.append(scaled(d["pMax"][k], {-1: rng.choice([-1, -1, -1, 1]), 1: 1, 2: 1}.get(t), t not in (1, 2)))
        pot = [round(rng.choice([p[k], p[k] + (d["pMax"][k] - p[k]) * rng.random(), d["pMax"][k], p[k] * rng.random()]), 9) for k in (2, 4)]
        r = rng.random()
        loss = d["energyLossMax"] * rng.choice([0, 1, -1, rng.random(), -rng.random(), rng.uniform(0, 0.01)])
        s = {"time": [rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.choice([0, 5, 9, 10, 15, 45, 59])],
             "yearCount": rng.choice([0, 0, 1, 2, 37]), "pInjections": p,
             "qInjections": [scaled(x) for x in d["qMax"]], "sFlows": [scaled(x) for x in d["sRate"]],
             "socStorage": [abs(scaled(d["socMax"][0], 1, False))], "pPotential": pot,
             "vMagn": [rng.choice([1.0, rng.uniform(0.85, 1.15), d["vMagnMin"][k], d["vMagnMax"][k], d["vMagnMin"][k] - 1e-6,
                                   d["vMagnMax"][k] + 1e-6, rng.uniform(0, 2)]) for k in range(6)],
             "reward": [float(loss), float(d["penaltyMax"] * rng.choice([0, 1, rng.random(), rng.uniform(0, 0.01)]))],
             "networkCollapsed": False}
        if r < 0.12:      # a collapsed network: no numbers, or some
            s["networkCollapsed"] = True
            keep = rng.choice([0.0, 0.0, 0.5])
            for k in ("pInjections", "qInjections", "sFlows", "vMagn", "pPotential", "socStorage"):
                s[k] = [x if rng.random() < keep else None for x in s[k]]
            s["reward"] = rng.choice([[float(d["energyLossMax"]), float(d["penaltyMax"])], [None, None], [s["reward"][0], None]])
        return s

    def run(self, plan):
        out = Outcome()
        root = tempfile.mkdtemp(prefix="page-", dir=master())
        try:
            shutil.copytree(os.path.join(master(), "src", "gym_anm"), os.path.join(root, "gym_anm"))
            msgs, url = user(plan, root, out)
            ids = places(root)
            try:
                for m in msgs:
                    json.loads(m["text"], parse_constant=lambda c: out.bad("invalid", "message %d contains %s" % (m["id"], c)))
            except ValueError as e:
                out.bad("invalid", "a message is not JSON: %s" % e)
            res = browse(root, msgs, plan, ids, url)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        self.judge(plan, msgs, res, ids, out)
        out.stats["events"] = sum(len(t["trace"]) for t in res["tabs"])
        out.sim_hours += plan["end"] / 3600.0
        return out

    def judge(self, plan, msgs, res, ids, out):
        desc = next((m["exp"] for m in msgs if m["label"] == "init"), None)
        for n, (tab, spec) in enumerate(zip(res["tabs"], plan["tabs"])):
            out.log.append(json.dumps(tab["trace"]))
            out.log += [json.dumps(x, sort_keys=True) for x in tab["snaps"]]
            out.stats["tabs"] += 1
            out.stats["messages_delivered"] += tab["delivered"]
            out.stats["pictures_judged"] += len(tab["snaps"])
            if tab["fatal"]:
                out.bad("page", "tab %d: %s" % (n, tab["fatal"]))
                continue
            if any(s["cut"] for s in tab["sockets"]):
                out.stats["connection_lost"] += 1
            if spec.get("hidden"):
                out.stats["hidden_tab"] += 1
            for e in tab["errors"][:1]:
                out.bad("script_error", "tab %d, at %.4f s (%s, last message %s): %s" % (n, e["t"], e["where"], e["label"], e["text"]))
            for s in tab["sockets"]:
                if s["wrong"]:
                    out.bad("address", "tab %d connects to %r; the server is at %s" % (n, s["url"], ADDRESS))
                if s["byPage"] is not None:
                    out.bad("left", "tab %d closed its connection at %.4f s" % (n, s["byPage"]))
            load = [t for k, t, *_ in tab["trace"] if k == "load"]
            if not load:
                out.bad("not_loaded", "tab %d never finished loading" % n)
            elif not any(s["opened"] is not None for s in tab["sockets"]) and load[0] + 10 < plan["end"]:
                out.bad("not_connected", "tab %d finished loading at %.4f s and never connected" % (n, load[0]))
            for snap in tab["snaps"]:
                pic = Picture(ids, snap["show"], res["initial"], res["boxes"])
                m = msgs[snap["after"]]
                pic.description(desc)
                if m["label"] == "init":
                    if snap["n"] == 1:
                        pic.before(desc)
                    out.states.add(("init", snap["n"]))
                elif m["exp"] is not None:
                    s = m["exp"]
                    pic.state(desc, s)
                    out.states.add((tuple(x is None or x < 0 for x in s["pInjections"] + s["sFlows"]), s["networkCollapsed"],
                                    tuple(v is None or lo <= v <= hi for v, lo, hi in zip(s["vMagn"], desc["vMagnMin"], desc["vMagnMax"])),
                                    tuple(v is None or abs(v) > r for v, r in zip(s["sFlows"], desc["sRate"])),
                                    snap["n"] <= 2, len(tab["sockets"])))
                    if s["networkCollapsed"]:
                        out.stats["collapsed_pictures"] += 1
                if pic.bad:
                    out.bad("picture", "tab %d, after message %d (number %d it received): %s" % (n, m["id"], snap["n"], "; ".join(pic.bad[:4])))
                    break
            want = [m["id"] for m in msgs]
            if tab["snaps"] and not tab["sockets"][0]["cut"] and len(tab["sockets"]) == 1 and tab["snaps"][-1]["after"] != want[-1] and \
                    tab["sockets"][0]["opened"] is not None and msgs[-1]["t"] >= tab["sockets"][0]["opened"]:
                out.bad("stale", "tab %d: the last picture is that of message %d, the last one was %d" % (n, tab["snaps"][-1]["after"], want[-1]))

    def shrink(self, plan):
        for key in ("tabs", "ops"):
            lst = plan[key]
            for lo, hi in chunks(len(lst)):
                if (key == "ops" and lo == 0) or hi - lo == len(lst):
                    continue
                yield dict(plan, **{key: lst[:lo] + lst[hi:]})
        for n, tab in enumerate(plan["tabs"]):
            for key in ("cuts", "hidden"):
                if key in tab:
                    yield dict(plan, tabs=plan["tabs"][:n] + [{a: b for a, b in tab.items() if a != key}] + plan["tabs"][n + 1:])
            if len(tab["delays"]) > 1 or len(tab["jitter"]) > 1:
                yield dict(plan, tabs=plan["tabs"][:n] + [dict(tab, delays={"*": 0.01}, jitter=[0.001])] + plan["tabs"][n + 1:])
