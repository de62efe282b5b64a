"""Controlled execution of the implementation, one Python step at a time.

Every line (or byte code instruction) that the code under test executes is a point where
the scheduler can hand over to another thread, or where a fault can be injected.  Only
frames of the package under test are instrumented; everything below (PyTorch) is atomic.

    interleave(fns, plan)   runs the functions in one real thread each, following a plan
                            [(thread, steps or None), ...]; None runs to the end
    failing(fn, k)          runs fn; its k-th operation that needs memory fails with OutOfMemory
"""
import os
import sys
import threading

from torch.utils._python_dispatch import TorchDispatchMode

from mc import core

PKG = os.path.join(core.REPO, "high_order_layers_torch") + os.sep


def tracer(tick, opcodes):
    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            tick()
        return local

    def top(frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            if opcodes:
                frame.f_trace_opcodes = True
            return local
        return None
    return top


class Worker(threading.Thread):
    def __init__(self, fn, opcodes):
        super().__init__(daemon=True)
        self.fn, self.opcodes = fn, opcodes
        self.go = threading.Semaphore(0)
        self.stop = threading.Semaphore(0)
        self.budget = None
        self.steps = 0
        self.done = self.free = False
        self.value = self.error = None

    def tick(self):
        self.steps += 1
        if self.free or self.budget is None:
            return
        self.budget -= 1
        if self.budget < 0:
            self.stop.release()
            self.go.acquire()
            if self.budget is not None:
                self.budget -= 1

    def run(self):
        self.go.acquire()
        sys.settrace(tracer(self.tick, self.opcodes))
        try:
            self.value = self.fn()
        except BaseException as e:  # noqa
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.stop.release()


PATIENCE = [2.0]


def interleave(fns, plan, opcodes=False):
    """-> list of workers.  A worker that waits for another one (a lock) lets the plan go on."""
    ws = [Worker(f, opcodes) for f in fns]
    for w in ws:
        w.start()
    late = []
    for i, steps in plan:
        w = ws[i]
        if w.done or w in late:
            continue
        w.budget = steps
        w.go.release()
        if not w.stop.acquire(timeout=PATIENCE[0]):
            late.append(w)
            PATIENCE[0] = max(0.05, PATIENCE[0] / 2)
    for w in ws:  # let everything finish
        w.free = True
        w.go.release()
    for w in ws:
        w.join(timeout=60)
        if w.is_alive():
            raise core.Violation("a call does not return while another thread uses the same layer")
        if isinstance(w.error, core.HarnessError):
            raise w.error
    return ws


def count(fn, opcodes=False):
    w, = interleave([fn], [(0, None)], opcodes)
    return w


class OutOfMemory(RuntimeError):
    """what PyTorch raises when an allocation fails"""


class Failing(TorchDispatchMode):
    def __init__(self, k):
        super().__init__()
        self.k, self.n, self.hit = k, 0, False

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        if not allocates(func):
            return func(*args, **(kwargs or {}))
        self.n += 1
        if self.n - 1 == self.k:
            self.hit = True
            raise OutOfMemory("not enough memory")
        return func(*args, **(kwargs or {}))


def allocates(func):
    """in place operations and views need no memory"""
    name = func._schema.name.split("::")[-1]
    if name.endswith("_") or func.is_view or name in ("detach", "_unsafe_view", "_reshape_alias", "_local_scalar_dense", "is_same_size", "equal"):
        return False
    return True


def operations(fn):
    with Failing(-1) as f:
        fn()
    return f.n


def failing(fn, k):
    """-> (value or None, the error or None, True if the operation failed)"""
    with Failing(k) as f:
        try:
            return fn(), None, f.hit
        except (core.Violation, core.HarnessError):
            raise
        except Exception as e:  # noqa
            return None, e, f.hit
