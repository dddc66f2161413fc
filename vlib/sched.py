"""Threads that run one at a time, switching where a plan says.

A yield point is an operation boundary or, when tracing, every line (or bytecode) executed in the code under
test.  The plan is a list of [gap, thread]: after `gap` yield points, `thread` continues.  When the plan is used
up, the running thread goes on to its end, then the others in order.  A thread that blocks on a lock held by
another one is noticed after a while, and the baton passes on.
"""
import os
import sys
import threading
import time

BLOCKED = 0.5  # seconds without progress before the running thread counts as blocked (it may be compiling)
LIMIT = 90.0


class Sched:
  def __init__(self, plan, mode, root):
    self.plan = list(plan)
    self.mode = mode
    self.root = os.path.join(os.path.realpath(root), "")
    self.events = []
    self.alive = []
    self.current = None
    self.count = -1
    self.switches = 0
    self.steals = 0
    self.points = 0
    self.progress = 0
    self.lock = threading.Lock()
    self.local = threading.local()
    self.files = {}
    self.idents = {}

  # ------------------------------------------------------------ switching

  def _load(self):
    self.count = self.plan[0][0] if self.plan else -1

  def point(self):
    """Called by a running thread: may hand over to another one."""
    me = getattr(self.local, "me", None)
    if me is None or self.local.off:
      return
    self.local.off = True  # a finalizer can run library code inside this function
    try:
      self._point(me)
    finally:
      self.local.off = False

  def _point(self, me):
    with self.lock:
      self.points += 1
      self.progress += 1
      if self.current == me:
        if self.count < 0:
          return
        self.count -= 1
        if self.count >= 0:
          return
        target = self.plan.pop(0)[1]
        self._load()
        target = self.alive[target % len(self.alive)]
        if target == me:
          return
        self.switches += 1
        self._give(target)
    self._wait(me)

  def _give(self, target):
    self.current = target
    self.events[target].set()

  def _wait(self, me):
    t0 = last = time.monotonic()
    seen = -1
    while True:
      with self.lock:
        now = time.monotonic()
        if self.current == me:
          return
        if self.progress != seen:
          seen, last = self.progress, now
        elif self.current is not None and now - last > (0.02 if self._in_library(self.current) else BLOCKED):
          self.progress += 1
          self.steals += 1
          self.current = me  # the running thread is blocked: go on here
          return
        self.events[me].clear()
      if now - t0 > LIMIT:
        raise RuntimeError("the thread was never continued")
      self.events[me].wait(0.03)

  def _in_library(self, i):
    """Is the thread in a function of the library itself (then it can only be waiting for a lock)?"""
    frame = sys._current_frames().get(self.idents.get(i))
    return frame is not None and bool(self.files.get(frame.f_code.co_filename))

  def _finish(self, me):
    with self.lock:
      self.progress += 1
      self.alive.remove(me)
      if self.current == me:
        if self.alive:
          self._give(self.alive[0])
        else:
          self.current = None

  # ------------------------------------------------------------ tracing

  def _global(self, frame, event, arg):
    name = frame.f_code.co_filename
    ours = self.files.get(name)
    if ours is None:
      ours = self.files[name] = os.path.realpath(name).startswith(self.root)
    if not ours:
      return None
    if self.mode == "opcodes":
      frame.f_trace_opcodes = True
      frame.f_trace_lines = False
    return self._line

  def _line(self, frame, event, arg):
    if event in ("line", "opcode"):
      self.point()
    return self._line

  # ------------------------------------------------------------ running

  def run(self, bodies):
    """Runs the bodies, each in a thread of its own; returns the exceptions they ended with."""
    errors = [None] * len(bodies)
    self.alive = list(range(len(bodies)))
    self.events = [threading.Event() for _ in bodies]
    self._load()

    def main(i):
      self.local.me = i
      self.idents[i] = threading.get_ident()
      self.local.off = False
      try:
        self._wait(i)
        if self.mode != "ops":
          sys.settrace(self._global)
        try:
          bodies[i]()
        finally:
          sys.settrace(None)
      except BaseException as e:
        errors[i] = e
      finally:
        self.local.me = None
        self._finish(i)

    threads = [threading.Thread(target=main, args=(i,), daemon=True, name="worker") for i in range(len(bodies))]
    for t in threads:
      t.start()
    with self.lock:
      self._give(0)
    deadline = time.monotonic() + LIMIT
    for t in threads:
      t.join(max(0.0, deadline - time.monotonic()))
      if t.is_alive():
        raise AssertionError("the threads do not come to an end")
    return errors
