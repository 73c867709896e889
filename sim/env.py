"""The seams: binds the preloaded simulator core, simulates Python-level locks, imports the real package and owns tracing."""
import atexit
import gc
import os
import sys
import threading
import _thread

import cffi

ffi = cffi.FFI()
ffi.cdef("""
typedef struct { int kind; int pad; int64_t a; } IoEvent;
int shim_present();
void shim_heap_config(int mode, uint64_t seed, uint64_t quarantine);
void shim_malloc_info(uint64_t *out); uint64_t shim_heap_seq(); uint64_t shim_live_count(); uint64_t shim_live_bytes();
uint64_t shim_live_since(uint64_t seq, uint64_t *bytes, char *buf, uint64_t len);
int shim_heap_check(char *buf, uint64_t len);
void shim_op_begin(long fail_at, long fail_n, uint64_t fail_min, uint64_t limit, long budget, long block_budget, uint64_t byte_budget);
void shim_modules(int m, uint64_t base, uint64_t end);
void shim_op_end(long *out); void shim_op_push(); void shim_op_pop();
void shim_state(int thread, char *buf, uint64_t len);
void shim_own(int on);
void shim_sched_init(int n, int mode, uint64_t seed, uint64_t p_ppm, uint64_t nlist, const uint64_t *at, const int *to);
void shim_thread_enter(int tid); void shim_sched_start(); void shim_thread_exit(); void shim_sched_halt();
void shim_yield(int kind); int shim_yield_blocked(); int shim_tid();
uint64_t shim_yields(); uint64_t shim_sched_hash(); uint64_t shim_kind(int k);
uint64_t shim_sched_log(uint64_t *at, int *to, uint64_t cap);
uint64_t shim_accesses(); uint64_t shim_nogil_regions(); uint64_t shim_spawned();
void shim_cov_init(int m, uint64_t base, uint64_t end); uint64_t shim_cov_read(int m, uint64_t *out, uint64_t cap);
void shim_io_arm(const char *path, int nev, const IoEvent *ev, int cycle, int openfail, int openerr, int pipe, const char *app, uint64_t applen);
void shim_io_disarm(); void shim_io_stats(uint64_t *out); void shim_io_got(char *buf);
void shim_fenv(int rounding, int ftz);
int shim_setlocale(const char *name, int which);
""")
lib = ffi.dlopen(None)
if not lib.shim_present():
    raise SystemExit("simulator core not preloaded")


class SimLock:
    """A lock whose waiters hand the baton on instead of blocking the holder of it."""

    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        if lib.shim_tid() < 0:
            if not blocking or (timeout is not None and timeout >= 0):
                return self._l.acquire(blocking, timeout)
            if not self._l.acquire(True, 10):  # there is nobody left who could release it
                os.write(2, b"SIM-DEADLOCK\n")
                os._exit(92)
            return True
        lib.shim_yield(1)
        while not self._l.acquire(False):
            if not blocking:
                return False
            lib.shim_yield_blocked()
            if timeout is not None and timeout >= 0:
                return False
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        r = self._l.acquire(blocking, timeout)
        if r:
            self._owner = me
            self._n = 1
        return r

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            self._l.release()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._l.release()
        return n

    def _acquire_restore(self, n):
        self._l.acquire()
        self._n = n
        self._owner = _thread.get_ident()


class SimGC:
    """whether collection is automatic is only a flag here: the plan decides when collections happen"""
    on = False

    @classmethod
    def enable(cls):
        cls.on = True

    @classmethod
    def disable(cls):
        cls.on = False

    @classmethod
    def isenabled(cls):
        return cls.on


gc.enable, gc.disable, gc.isenabled = SimGC.enable, SimGC.disable, SimGC.isenabled
_real_lock = _thread.allocate_lock
AT_END = {"shutdown": None, "first": None}  # what a run wants called when the process ends: before waiting for threads; last of all


def at_end(k):
    if AT_END[k]:
        AT_END[k]()


real_thread_start = _thread.start_new_thread


def load(build):
    """import the real package from the build directory, with simulated locks in place while it is imported"""
    sys.path.insert(0, build)
    # registered before whatever the package may register, so called after it
    atexit.register(at_end, "first")
    threading._register_atexit(at_end, "shutdown")
    threading.Lock = SimLock
    threading.RLock = SimRLock
    _thread.allocate_lock, keep = SimLock, _thread.allocate_lock
    try:
        import sacf
        import sacf.correlator
        import sacf.datastructure
    finally:
        _thread.allocate_lock = keep
    here = os.path.dirname(os.path.abspath(sacf.__file__))
    assert here.startswith(os.path.abspath(build)), here
    return sacf, here


def quiesce():
    """collect until every finaliser and every C++ destructor behind it has run"""
    for _ in range(4):
        gc.collect()


INTERRUPTS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}


class Cancelled(BaseException):
    """a cancellation that is neither an Exception nor one of the interpreter's own"""


class InputFault(Exception):
    """raised by an input object while it is being read"""


INTERRUPTS["Cancelled"] = Cancelled
