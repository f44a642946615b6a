"""Threads under the control of the checks: one step at a time, in turns with the event loop.

A function given to an executor runs in a real thread that only moves when the loop hands it the turn;
it gives the turn back at every `pause()` and when it ends.  The harness decides how long the loop runs
in between, so the interleavings are choices of the run.
"""
import threading


class Killed(SystemExit): pass


class Turns:
  def __init__(self, ctx, wait):
    self.ctx, self.wait = ctx, wait      # wait(): awaitable until the next step
    self.threads, self.running, self.most = [], 0, 0
    self.local = threading.local()
    ctx._stack.callback(self.kill)
  def kill(self):
    for t in self.threads: t.stop()
  def pause(self):
    t = getattr(self.local, "t", None)
    if t is not None: t.give_back()
  def run_in_executor(self, executor, func, *args):
    loop = self.ctx.loop()
    fut = loop.create_future()
    t = _Thread(self, func, args)
    self.threads.append(t)
    async def drive():
      self.running += 1
      self.most = max(self.most, self.running)
      try:
        while True:
          await self.wait()
          if t.step(): break
      finally: self.running -= 1
      if not fut.done():
        if t.error is None: fut.set_result(t.result)
        else: fut.set_exception(t.error)
    loop.create_task(drive())
    return fut


class _Thread:
  def __init__(self, turns, func, args):
    self.turns, self.done, self.dead = turns, False, False
    self.result = self.error = None
    self.mine, self.theirs = threading.Semaphore(0), threading.Semaphore(0)
    def body():
      turns.local.t = self
      self.mine.acquire()
      try:
        if not self.dead: self.result = func(*args)
      except Exception as e: self.error = e
      except BaseException as e: self.error = RuntimeError(repr(e))
      self.done = True
      self.theirs.release()
    self.thread = threading.Thread(target=body, daemon=True)
    self.thread.start()
  def give_back(self):
    self.theirs.release()
    self.mine.acquire()
    if self.dead: raise Killed()
  def step(self):
    self.mine.release()
    self.theirs.acquire()
    return self.done
  def stop(self):
    if self.done: return
    self.dead = True
    self.step()
    self.thread.join()
