"""The simulated operating system under the Pacman demo: clock, alarm signal, random numbers, window system.

The demo's modules are imported once per process, after time, signal, random and tkinter have been put behind
dispatching stand-ins.  While SIM.cur is None the stand-ins are the real thing; during a run they belong to the run's
SimOS, whose clock only moves when the simulator says so."""
import random
import signal
import sys
import time
import types

from .core import DEMO, Violation

real = dict(time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter, sleep=time.sleep,
            localtime=time.localtime, process_time=time.process_time, monotonic_ns=time.monotonic_ns, time_ns=time.time_ns,
            gmtime=time.gmtime, strftime=time.strftime)
real_sig = dict(signal=signal.signal, alarm=signal.alarm, setitimer=signal.setitimer, getsignal=signal.getsignal,
                getitimer=signal.getitimer)
real_rand = dict(random=random.random, choice=random.choice, randint=random.randint, seed=random.seed, uniform=random.uniform,
                 randrange=random.randrange, choices=random.choices, shuffle=random.shuffle, sample=random.sample)


SIGALRM = signal.SIGALRM


class SIM:
    cur = None


class Killed(BaseException):
    """The default action of an alarm signal: the process is gone."""


class SimOS:
    def __init__(self, rec, rng=None, wall0=1.7e9):
        self.rec = rec
        self.now = 0.0
        self.skew = wall0
        self.due = None
        self.lag = 0.0              # how late the system delivers alarms
        self.handler = signal.SIG_DFL
        self.rng = rng or random.Random(0)
        self.jitter = 0.0           # time that passes before each signal call takes effect
        self.alarms = 0
        self.noalarm = False        # a system without alarm signal
        self.draws = None           # list of scripted random numbers, then rng
        self.draw_count = 0
        self.root = None            # live fake Tk windows
        self.roots = []
        self.queue = []             # future window events [(time, kind, data)]

    # ------------------------------------------------------------------------------------- time
    def advance(self, dt):
        """Let time pass; an alarm that becomes due interrupts at its due time."""
        end = self.now + dt
        while self.due is not None and self.due <= end:
            self.now = max(self.now, self.due)
            self.due = None
            self.alarms += 1
            h = self.handler
            if h == signal.SIG_IGN:
                continue
            if h == signal.SIG_DFL or h is None:
                raise Killed("alarm signal with no handler")
            h(SIGALRM, sys._getframe())
        self.now = max(self.now, end)

    def time(self):
        return self.skew + self.now

    def monotonic(self):
        return 1000.0 + self.now

    def sleep(self, s):
        self.advance(max(0.0, s))

    def localtime(self, secs=None):
        return real["gmtime"](self.time() if secs is None else secs)

    # ------------------------------------------------------------------------------------- signals
    def set_signal(self, num, handler):
        if num != SIGALRM:
            return real_sig["signal"](num, handler)
        if self.jitter:
            self.advance(self.jitter)
        old, self.handler = self.handler, handler
        return old

    def get_signal(self, num):
        return self.handler if num == SIGALRM else real_sig["getsignal"](num)

    def alarm(self, secs):
        if self.jitter:
            self.advance(self.jitter)
        left = 0 if self.due is None else max(1, int(self.due - self.now + 0.999999))
        self.due = self.now + secs + self.lag if secs > 0 else None
        return left

    def setitimer(self, which, secs, interval=0.0):
        if which != signal.ITIMER_REAL:
            return real_sig["setitimer"](which, secs, interval)
        left = 0.0 if self.due is None else self.due - self.now
        self.due = self.now + secs + self.lag if secs > 0 else None
        return (left, 0.0)

    # ------------------------------------------------------------------------------------- randomness
    def random(self):
        self.draw_count += 1
        if self.draws:
            return self.draws.pop(0)
        return self.rng.random()

    def seed(self, *a):
        pass

    def choice(self, seq):
        return seq[int(self.random() * len(seq))]

    def __enter__(self):
        SIM.cur = self
        if self.noalarm:
            self.taken = [(n, getattr(signal, n)) for n in ("SIGALRM", "alarm", "setitimer", "getitimer")]
            for n, _ in self.taken:
                delattr(signal, n)
        return self

    def __exit__(self, *exc):
        SIM.cur = None
        if self.noalarm:
            for n, x in self.taken:
                setattr(signal, n, x)


def _patch(module, name, method, original):
    def wrapper(*args, **kw):
        if SIM.cur is None:
            return original(*args, **kw)
        return method(SIM.cur, *args, **kw)
    wrapper.__name__ = name
    setattr(module, name, wrapper)


# ---------------------------------------------------------------------------------------------- the window system

class Event:
    def __init__(self, kind, keysym=None):
        self.type, self.keysym, self.char = kind, keysym, keysym if keysym and len(keysym) == 1 else ""
        self.keycode = 0
        self.x = self.y = 0


class Tk:
    def __init__(self, *a, **kw):
        self.sim = SIM.cur
        self.bindings = {}
        self.timers = []
        self.pending = []
        self.quit_flag = False
        self.destroyed = False
        self.protocols = {}
        self.error = None
        self.canvases = []
        self._n = 0
        self.sim.roots.append(self)
        self.sim.root = self

    def _check(self):
        if self.destroyed:
            raise TclError("can't invoke command: application has been destroyed")

    def protocol(self, name=None, fn=None):
        self._check()
        if fn is not None:
            self.protocols[name] = fn

    def title(self, *a):
        self._check()

    def resizable(self, *a):
        self._check()

    def geometry(self, *a):
        self._check()

    def bind(self, seq, fn, add=None):
        self._check()
        self.bindings[seq] = fn

    def update_idletasks(self):
        self._check()
        self.sim.idle()

    def update(self):
        self._check()
        while self._one():
            pass

    def after(self, ms, fn=None, *args):
        self._check()
        if fn is None:
            self.sim.advance(ms / 1000.0)
            return None
        self._n += 1
        self.timers.append((self.sim.now + int(ms) / 1000.0, self._n, fn, args))
        return f"after#{self._n}"

    def after_cancel(self, ident):
        self.timers = [t for t in self.timers if f"after#{t[1]}" != ident]

    def quit(self):
        self.quit_flag = True

    def destroy(self):
        self._check()
        self.destroyed = True
        if self.sim.root is self:
            self.sim.root = None

    def _arrive(self):
        self.sim.window_arrivals(self)

    def _one(self):
        """Serve one event if there is one: window events first, then due timers (as the Tcl notifier does)."""
        self._arrive()
        if self.pending:
            kind, keysym = self.pending.pop(0)
            fn = self.bindings.get("<" + kind + ">")
            self.sim.delivered(kind, keysym, self)
            if kind == "Close":
                fn = self.protocols.get("WM_DELETE_WINDOW", self.destroy)
                try:
                    fn()
                except SystemExit as e:         # as in _tkinter: kept until the main loop runs
                    self.error = e
            elif fn:
                fn(Event(kind, keysym))
            return True
        due = [t for t in self.timers if t[0] <= self.sim.now]
        if due:
            t = min(due)
            self.timers.remove(t)
            t[2](*t[3])
            return True
        return False

    def dooneevent(self, flags=0):
        self._check()
        self.sim.seam("dooneevent")
        if self._one():
            return 1
        if flags & 2:
            return 0
        return 1 if self._wait() and self._one() else 0

    def _wait(self):
        times = [t[0] for t in self.timers]
        nxt = self.sim.next_arrival()
        if nxt is not None:
            times.append(nxt)
        if not times:
            return False
        self.sim.advance(max(0.0, min(times) - self.sim.now))
        return True

    def mainloop(self, n=0):
        self._check()
        self.quit_flag = False
        while not self.quit_flag and not self.destroyed and not self.error:
            self.sim.loop_turn()
            if self._one():
                continue
            if not self._wait():
                raise Violation("no-progress", "the event loop waits for ever: no timer and no event left")
        self.quit_flag = False
        if self.error:
            e, self.error = self.error, None
            raise e


class TclError(Exception):
    pass


class Canvas:
    def __init__(self, root, width=0, height=0, **kw):
        self.root, self.width, self.height = root, width, height
        self.items = {}
        self.n = 0
        root.canvases.append(self)

    def _check(self):
        if self.root.destroyed:
            raise TclError("invalid command name")

    def pack(self, *a, **kw):
        self._check()

    def update(self):
        self._check()
        self.root.update()

    def update_idletasks(self):
        self._check()
        self.root.sim.seam("refresh")

    def _new(self, kind, coords, kw):
        self._check()
        flat = []
        for c in coords:
            flat.extend(c if isinstance(c, (list, tuple)) else [c])
        flat = [v for c in flat for v in (c if isinstance(c, (list, tuple)) else [c])]
        self.n += 1
        self.items[self.n] = dict(kw, kind=kind, coords=[float(c) for c in flat])
        return self.n

    def create_polygon(self, *c, **kw):
        return self._new("polygon", c, kw)

    def create_arc(self, *c, **kw):
        return self._new("arc", c, kw)

    def create_oval(self, *c, **kw):
        return self._new("oval", c, kw)

    def create_rectangle(self, *c, **kw):
        return self._new("rectangle", c, kw)

    def create_line(self, *c, **kw):
        return self._new("line", c, kw)

    def create_text(self, *c, **kw):
        return self._new("text", c, kw)

    def create_image(self, *c, **kw):
        return self._new("image", c, kw)

    def coords(self, item, *new):
        self._check()
        if item not in self.items:
            return []
        if new:
            flat = [v for c in new for v in (c if isinstance(c, (list, tuple)) else [c])]
            self.items[item]["coords"] = [float(c) for c in flat]
            return []
        return list(self.items[item]["coords"])

    def move(self, item, dx, dy):
        self._check()
        if item in self.items:
            c = self.items[item]["coords"]
            self.items[item]["coords"] = [v + (dy if k % 2 else dx) for k, v in enumerate(c)]

    def itemconfigure(self, item, **kw):
        self._check()
        if item in self.items:
            self.items[item].update(kw)
    itemconfig = itemconfigure

    def itemcget(self, item, option):
        self._check()
        return self.items.get(item, {}).get(option, "")

    def delete(self, *items):
        self._check()
        for item in items:
            if item == "all":
                self.items.clear()
            self.items.pop(item, None)

    def _restack(self, item, other, above):
        """Items are drawn in the order of self.items; move one of them next to another (or to the end)."""
        self._check()
        if other is not None and other not in self.items:
            raise TclError(f'tagOrId "{other}" doesn\'t match any items')
        if item not in self.items or item == other:
            return
        order = [k for k in self.items if k != item]
        k = (len(order) if above else 0) if other is None else order.index(other) + above
        order.insert(k, item)
        self.items = {k: self.items[k] for k in order}

    def tag_lower(self, item, below=None):
        self._restack(item, below, False)

    def tag_raise(self, item, above=None):
        self._restack(item, above, True)
    lift = tag_raise
    lower = tag_lower

    def postscript(self, **kw):
        return ""


def fake_tkinter():
    m = types.ModuleType("tkinter")
    m.Tk, m.Canvas, m.TclError = Tk, Canvas, TclError
    m.NW, m.ALL, m.LAST, m.BOTH = "nw", "all", "last", "both"
    m._tkinter = types.ModuleType("_tkinter")
    m._tkinter.DONT_WAIT = 2
    m._tkinter.ALL_EVENTS = -3
    m._tkinter.TclError = TclError
    m.PhotoImage = lambda **kw: None
    m.TkVersion = 8.6
    return m


def _sim_default(name):
    def f(self, *a, **kw):
        pass
    f.__name__ = name
    return f


for _n in ("idle", "seam", "loop_turn", "delivered", "window_arrivals"):
    setattr(SimOS, _n, _sim_default(_n))
SimOS.next_arrival = lambda self: None

G = None


class Lib:
    def __init__(self):
        _patch(time, "time", SimOS.time, real["time"])
        _patch(time, "monotonic", SimOS.monotonic, real["monotonic"])
        _patch(time, "perf_counter", SimOS.monotonic, real["perf_counter"])
        _patch(time, "process_time", SimOS.monotonic, real["process_time"])
        _patch(time, "monotonic_ns", lambda s: int(s.monotonic() * 1e9), real["monotonic_ns"])
        _patch(time, "time_ns", lambda s: int(s.time() * 1e9), real["time_ns"])
        _patch(time, "sleep", SimOS.sleep, real["sleep"])
        _patch(time, "localtime", SimOS.localtime, real["localtime"])
        _patch(time, "gmtime", SimOS.localtime, real["gmtime"])
        _patch(time, "strftime", lambda s, f, t=None: real["strftime"](f, t if t is not None else s.localtime()), real["strftime"])
        _patch(signal, "signal", SimOS.set_signal, real_sig["signal"])
        _patch(signal, "getsignal", SimOS.get_signal, real_sig["getsignal"])
        _patch(signal, "alarm", SimOS.alarm, real_sig["alarm"])
        _patch(signal, "setitimer", SimOS.setitimer, real_sig["setitimer"])
        _patch(signal, "getitimer", lambda s, w: (0.0 if s.due is None else s.due - s.now, 0.0), real_sig["getitimer"])
        _patch(random, "random", SimOS.random, real_rand["random"])
        _patch(random, "choice", SimOS.choice, real_rand["choice"])
        _patch(random, "randint", lambda s, a, b: a + int(s.random() * (b - a + 1)), real_rand["randint"])
        _patch(random, "randrange", lambda s, a, b=None, step=1: (0 if b is None else a) + int(s.random() * ((a if b is None else b) - (0 if b is None else a))), real_rand["randrange"])
        _patch(random, "uniform", lambda s, a, b: a + (b - a) * s.random(), real_rand["uniform"])
        _patch(random, "choices", lambda s, p, weights=None, *, cum_weights=None, k=1: _choices(s, p, weights, cum_weights, k), real_rand["choices"])
        _patch(random, "sample", lambda s, p, k: s.rng.sample(p, k), real_rand["sample"])
        _patch(random, "shuffle", lambda s, x: s.rng.shuffle(x), real_rand["shuffle"])
        _patch(random, "seed", lambda s, *a: s.seed(*a), real_rand["seed"])
        sys.modules["tkinter"] = fake_tkinter()
        if DEMO not in sys.path:
            sys.path.insert(0, DEMO)
        import game, pacman, util, layout, ghostAgents, graphicsUtils, graphicsDisplay, keyboardAgents
        self.game, self.pacman, self.util, self.layout, self.ghosts = game, pacman, util, layout, ghostAgents
        self.gu, self.gd, self.ka = graphicsUtils, graphicsDisplay, keyboardAgents

    def reset(self):
        """Forget what earlier runs of this process left in the demo's module variables."""
        self.pacman.GameState.getAndResetExplored()
        self.gu._root_window = self.gu._canvas = None
        self.gu._clear_keys()


def _choices(s, population, weights, cum, k):
    population = list(population)
    if weights is None and cum is None:
        return [population[int(s.random() * len(population))] for _ in range(k)]
    if cum is None:
        cum, t = [], 0
        for w in weights:
            t += w
            cum.append(t)
    out = []
    for _ in range(k):
        r = s.random() * cum[-1]
        i = next((i for i, c in enumerate(cum) if r < c), len(cum) - 1)
        out.append(population[i])
    return out


def load():
    global G
    if G is None:
        G = Lib()
    return G
