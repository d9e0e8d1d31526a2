"""Cooperative scheduling of real threads at bytecode granularity inside /repo/nnx:
a run is determined by the global step numbers at which the running thread is preempted."""
import sys, threading, dis, os
from sx.loader import REPO

ROOT = os.path.join(REPO, "nnx") + os.sep
_ops = {}
def _touching(code):
  """offsets of instructions that may touch shared state"""
  s = _ops.get(code)
  if s is None:
    s = _ops[code] = frozenset(i.offset for i in dis.get_instructions(code)
      if any(w in i.opname for w in ("ATTR", "GLOBAL", "SUBSCR", "CALL", "METHOD", "DEREF", "STORE_NAME", "BEFORE_WITH")))
  return s

class Run:
  def __init__(self, fns, preempt, block_s=0.03):
    self.fns, self.preempt, self.block_s = fns, set(preempt), block_s
    self.cv = threading.Condition()
    self.cur, self.step = 0, 0
    self.done = [False] * len(fns)
    self.blocked = [False] * len(fns)
    self.err = []
    self.out = [None] * len(fns)
    self.beat = 0
  def _other(self, t):
    n = len(self.fns)
    for blocked in (False, True):
      for k in range(1, n + 1):
        u = (t + k) % n
        if not self.done[u] and (u != t) and self.blocked[u] == blocked: return u
    return t
  def point(self, t):
    with self.cv:
      self.blocked[t] = False
      while self.cur != t: self.cv.wait(1)
      self.beat += 1
      self.step += 1
      if self.step in self.preempt:
        u = self._other(t)
        if u != t:
          self.cur = u; self.cv.notify_all()
          while self.cur != t: self.cv.wait(1)
  def trace(self, t):
    def local(frame, ev, arg):
      if ev == 'opcode' and frame.f_lasti in _touching(frame.f_code): self.point(t)
      return local
    def glob(frame, ev, arg):
      if frame.f_code.co_filename.startswith(ROOT):
        frame.f_trace_opcodes = True; frame.f_trace_lines = False
        return local
      return None
    return glob
  def body(self, t):
    with self.cv:
      while self.cur != t: self.cv.wait(1)
    sys.settrace(self.trace(t))
    try: self.out[t] = self.fns[t]()
    except BaseException as ex: self.err.append(ex)
    finally:
      sys.settrace(None)
      with self.cv:
        self.done[t] = True
        if self.cur == t: self.cur = self._other(t)
        self.cv.notify_all()
  def run(self):
    ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.fns))]
    for t in ths: t.start()
    last, cur = -1, -1
    while not all(self.done):
      with self.cv:
        self.cv.wait(self.block_s)
        if all(self.done): break
        if self.beat == last and self.cur == cur:
          # the running thread waits for something another one holds
          t = self.cur
          self.blocked[t] = True
          u = self._other(t)
          if u != t: self.cur = u; self.cv.notify_all()
        last, cur = self.beat, self.cur
    for t in ths: t.join(5)
    if self.err: raise self.err[0]
    return self.out
