"""Cooperative scheduler: several threads, one of which runs at a time, switching at seeded points of the real code.

Switch points are the file-system events of the library (FsMonitor) inside the scratch area, before they take effect,
and lines of the library (sys.monitoring), so that state held in memory is interleaved too. The sequence of decisions
depends only on the seed. A thread that does not come to a switch point for a while (it waits for a lock another one
holds) loses its turn, so that no schedule can get stuck; such turns are counted."""
import sys
import threading

from .monitors import FS

PATIENCE = 2.0


class Sched:
    """See the module docstring."""

    def __init__(self, rng, prefixes, p_event=0.5, p_line=0.0):
        self.rng, self.prefixes, self.p_event, self.p_line = rng, tuple(prefixes), p_event, p_line
        self.cond = threading.Condition()
        self.turn = None
        self.alive = []
        self.ids = {}
        self.trace = []       # (thread, what) at each switch
        self.switches = self.lost = self.points = 0
        self.progress = 0
        self.stop = False

    # -- switch points

    def on_event(self, rec):
        me = self.ids.get(threading.get_ident())
        if me is not None and not self.stop:
            self.point(me, self.p_event, rec["op"])

    def on_line(self, code, line):
        me = self.ids.get(threading.get_ident())
        if me is not None and self.p_line and not self.stop and code.co_filename.startswith(self.prefixes):
            self.point(me, self.p_line, "line")

    def point(self, me, p, what):
        with self.cond:
            self.points += 1
            self.progress += 1
            if self.turn == me and len(self.alive) > 1 and self.rng.random() < p:
                self.turn = self.rng.choice([t for t in self.alive if t != me])
                self.switches += 1
                if len(self.trace) < 5000:
                    self.trace.append((me, what, self.turn))
                self.cond.notify_all()
            self.wait(me)

    def wait(self, me):
        """Wait (holding the condition) until it is this thread's turn."""
        while self.turn != me and not self.stop:
            seen = self.progress
            if not self.cond.wait(PATIENCE) and self.progress == seen and self.turn != me:
                self.lost += 1
                self.progress += 1
                self.turn = me

    # -- running

    def _thread(self, me, fn, out):
        self.ids[threading.get_ident()] = me
        with self.cond:
            self.wait(me)
        try:
            out[me] = ("returned", fn())
        except BaseException as e:  # pylint: disable=broad-except
            out[me] = ("raised", e)
        finally:
            with self.cond:
                self.progress += 1
                del self.ids[threading.get_ident()]
                self.alive.remove(me)
                if self.alive and self.turn == me:
                    self.turn = self.rng.choice(self.alive)
                self.cond.notify_all()

    def run(self, fns):
        """Run the functions side by side. Returns [("returned", value) or ("raised", exception)]."""
        out = [("unfinished", None)] * len(fns)
        threads = [threading.Thread(target=self._thread, args=(i, f, out), daemon=True) for i, f in enumerate(fns)]
        self.alive = list(range(len(fns)))
        mon, tid = getattr(sys, "monitoring", None), None
        if mon is not None and self.p_line:
            tid = mon.PROFILER_ID
            mon.use_tool_id(tid, "vf-sched")
            mon.register_callback(tid, mon.events.LINE, self.on_line)
            mon.set_events(tid, mon.events.LINE)
        FS.sched = self.on_event
        try:
            for t in threads:
                t.start()
            with self.cond:
                self.turn = self.rng.randrange(len(fns))
                self.cond.notify_all()
            for t in threads:
                t.join()
        finally:
            FS.sched = None
            self.stop = True
            with self.cond:
                self.cond.notify_all()
            if tid is not None:
                mon.set_events(tid, 0)
                mon.register_callback(tid, mon.events.LINE, None)
                mon.free_tool_id(tid)
        return out
