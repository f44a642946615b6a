"""Deterministic single-threaded asyncio event loop with a virtual (possibly symbolic) clock.

Same loop is used for symbolic runs and for concrete replays: callbacks run FIFO as in
asyncio; timers fire in deadline order; `time()` is the virtual clock in seconds.
"""
import asyncio
import collections
from fractions import Fraction
from symx.core import Engine


class Deadlock(Exception): pass
class StepLimit(Exception): pass


class VLoop(asyncio.AbstractEventLoop):
  def __init__(self, start=Fraction(0), max_steps=20000):
    self._ready = collections.deque()
    self._timers = []     # (when, seq, handle)
    self._now = start
    self._seq = 0
    self._closed = False
    self._running = False
    self.max_steps = max_steps
    self.steps = 0
    self.errors = []
    self.tasks = []
    self._debug = False
    self.executor_inline = True

  # clock
  def time(self): return self._now
  def get_debug(self): return False
  def set_debug(self, v): pass
  def is_running(self): return self._running
  def is_closed(self): return self._closed

  # scheduling
  def call_soon(self, callback, *args, context=None):
    h = asyncio.Handle(callback, args, self, context)
    self._ready.append(h)
    return h
  def call_soon_threadsafe(self, callback, *args, context=None): return self.call_soon(callback, *args, context=context)
  def call_later(self, delay, callback, *args, context=None):
    if type(delay) is float: delay = Fraction(delay).limit_denominator(10 ** 9)     # no rounding drift of the virtual clock
    return self.call_at(self._now + delay, callback, *args, context=context)
  def call_at(self, when, callback, *args, context=None):
    h = _TimerHandle(when, callback, args, self, context)
    self._seq += 1
    # keep sorted (insertion compares symbolically)
    i = len(self._timers)
    while i > 0 and when < self._timers[i - 1][0]: i -= 1
    self._timers.insert(i, (when, self._seq, h))
    return h
  def _timer_handle_cancelled(self, handle): pass
  def create_future(self): return asyncio.Future(loop=self)
  def create_task(self, coro, *, name=None, context=None):
    t = asyncio.Task(coro, loop=self, name=name or "t", context=context)
    self.tasks.append(t)
    return t
  def run_in_executor(self, executor, func, *args):
    f = self.create_future()
    try: f.set_result(func(*args))
    except Exception as e: f.set_exception(e)
    return f
  def call_exception_handler(self, context): self.errors.append(context)
  def default_exception_handler(self, context): self.errors.append(context)
  def get_exception_handler(self): return None
  async def shutdown_asyncgens(self): pass

  # running
  def _enter(self):
    self._prev = asyncio._get_running_loop()
    asyncio._set_running_loop(self)
    self._running = True
  def _exit(self):
    self._running = False
    asyncio._set_running_loop(self._prev)

  def _step(self):
    h = self._ready.popleft()
    self.steps += 1
    if self.steps > self.max_steps: raise StepLimit()
    if not h._cancelled: h._run()
    if Engine.current is not None: Engine.current.poll()

  def _pop_timers(self):
    while self._timers and self._timers[0][2]._cancelled: self._timers.pop(0)

  def drain(self):
    """run everything that is ready; do not advance the clock"""
    self._enter()
    try:
      while True:
        self._pop_timers()
        while self._timers and not (self._timers[0][0] > self._now):
          self._ready.append(self._timers.pop(0)[2])
          self._pop_timers()
        if not self._ready: return
        n = len(self._ready)
        for _ in range(n): self._step()
    finally: self._exit()

  def steps_(self, n):
    """run exactly n callbacks (fewer when nothing is ready), so that what follows falls at that moment"""
    self._enter()
    try:
      for _ in range(n):
        if not self._ready: return False
        self._step()
      return True
    finally: self._exit()

  def next_timer(self):
    """move the clock to the next timer and queue what is due then, without running it"""
    self.drain()
    self._pop_timers()
    if not self._timers: return
    if self._timers[0][0] > self._now: self._now = self._timers[0][0]
    while self._timers and not (self._timers[0][0] > self._now):
      self._ready.append(self._timers.pop(0)[2])
      self._pop_timers()

  def advance_to(self, when):
    """advance the virtual clock to `when`, firing the timers in between"""
    self.drain()
    while True:
      self._pop_timers()
      if not self._timers or self._timers[0][0] > when: break
      if self._timers[0][0] > self._now: self._now = self._timers[0][0]
      self.drain()
    if when > self._now: self._now = when

  def advance(self, delta): self.advance_to(self._now + delta)

  def spawn(self, coro):
    self._enter()
    try: return self.create_task(coro)
    finally: self._exit()

  def run_until_complete(self, fut, max_time=None):
    if asyncio.iscoroutine(fut): fut = self.spawn(fut)
    while not fut.done():
      self.drain()
      if fut.done(): break
      self._pop_timers()
      if not self._timers: raise Deadlock()
      if max_time is not None and self._timers[0][0] > max_time: raise Deadlock()
      self._now = self._timers[0][0] if self._timers[0][0] > self._now else self._now
    return fut.result()

  def call(self, fn, *args):
    """call fn with this loop set as running loop"""
    self._enter()
    try: return fn(*args)
    finally: self._exit()

  def shutdown(self):
    """cancel what is left so that coroutines are closed inside this loop"""
    for _ in range(8):
      pending = [t for t in self.tasks if not t.done()]
      if not pending: break
      for t in pending: t.cancel()
      try: self.drain()
      except StepLimit: break
    for t in self.tasks:
      if t.done() and not t.cancelled(): t.exception()
    self.tasks.clear()
    self._ready.clear()
    self._timers.clear()

  def close(self): self._closed = True


class _TimerHandle(asyncio.Handle):
  __slots__ = ("_when",)
  def __init__(self, when, callback, args, loop, context=None):
    super().__init__(callback, args, loop, context)
    self._when = when
  def when(self): return self._when
