""" Process level plumbing of the simulator.

 * `boot()` makes the interpreter hermetic (fixed hash seed, no address space randomisation, no byte code written,
   curver imported from the working tree of /repo and nowhere else) by re-executing itself once.
 * `rng(*key)` is the only source of random choices: a PRNG derived from VERIF_SEED and a path of keys.
 * `forked(function)` runs a function in a forked copy of this process and returns what it returned: every simulated
   execution starts from the same pristine memory image and leaves nothing behind.
 * `pool(jobs)` runs independent jobs on all cores; results never depend on which worker ran a job.
"""
import ctypes, gc, hashlib, json, os, pickle, random, select, signal, struct, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
PREFIX = os.path.join(REPO, 'curver') + os.sep
PYTHON = sys.executable

import simsys
REAL_TIME = simsys.REAL['time']
REAL_MONO = simsys.REAL['monotonic']

def boot(hash_seed='0'):
    """ Re-execute this interpreter in the controlled environment (once). """
    if os.environ.get('SIM_BOOTED') == hash_seed: return
    env = dict(os.environ)
    env.update(SIM_BOOTED=hash_seed, PYTHONHASHSEED=hash_seed, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    # Never trust byte code left in the tree: compile what is there now into a private cache folder that does not exist.
    env['PYTHONPYCACHEPREFIX'] = '/nonexistent/pycache'
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(0x0040000)  # ADDR_NO_RANDOMIZE: object addresses are the same in every run.
    except Exception: pass
    os.execve(sys.executable, [sys.executable, '-X', 'utf8'] + sys.argv, env)

def import_curver():
    """ Import curver from the working tree. """
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO: sys.path.insert(0, REPO)
    import curver
    assert os.path.realpath(curver.__file__).startswith(os.path.realpath(REPO) + os.sep), curver.__file__
    import curver.kernel
    return curver

def rng(*key):
    return random.Random(hashlib.sha256(repr(key).encode()).digest())

def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]

class HarnessError(Exception):
    """ The simulator itself (not the code under test) went wrong. """

class RunTimeout(Exception):
    """ A forked run exceeded its wall clock limit. """

class NoAnswer(Exception):
    """ A run that is being judged did not answer: it was still going after its time, or its process died. """
    def __init__(self, spec, text): super().__init__(text); self.spec, self.text = spec, text

def judged(spec, function, *args, timeout=150):
    """ As forked, for a run which is judged: if it never answers then that is the verdict on spec. """
    try: return forked(function, *args, timeout=timeout)
    except RunTimeout as error: raise NoAnswer(spec, str(error)) from None
    except HarnessError as error:
        if 'died without an answer' in str(error) or 'RunTimeout' in str(error): raise NoAnswer(spec, 'the process died or hung') from None
        raise

class _Alarm(BaseException): pass
def within(seconds, spec, function, *args):
    """ As function(*args) here, for a run which is judged: if it uses more processor time than this then that is the verdict on spec. """
    def ring(*_): raise _Alarm
    old = signal.signal(signal.SIGPROF, ring)
    signal.setitimer(signal.ITIMER_PROF, seconds, 1)
    try: return function(*args)
    except _Alarm: raise NoAnswer(spec, f'no answer after {seconds} s') from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)

def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]

def forked(function, *args, timeout=120):
    """ Return function(*args) as computed in a forked copy of this process. """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            gc.disable()  # A collection would touch (so copy) every page, at a point that depends on allocation counts.
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            try:
                out = (True, function(*args))
            except BaseException:  # pylint: disable=broad-except
                out = (False, traceback.format_exc())
            _write_all(w, pickle.dumps(out, 4))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = REAL_MONO() + timeout
    try:
        while True:
            left = deadline - REAL_MONO()
            ready = select.select([r], [], [], max(left, 0))[0] if left > 0 else []
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise RunTimeout(f'no answer after {timeout} s')
            data = os.read(r, 1 << 20)
            if not data: break
            chunks.append(data)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not chunks: raise HarnessError('forked run died without an answer')
    ok, value = pickle.loads(b''.join(chunks))
    if not ok: raise HarnessError(value)
    return value

def pool(jobs, function, workers=None, deadline=None, on_result=None):
    """ Run function(job) for each job in worker processes, yield (index, result) as they complete.

    Each worker is forked from this process, so that it has nothing but imports in it.
    Jobs not started when deadline passes are skipped. on_result(result) -> True stops handing out jobs. """
    workers = workers or int(os.environ.get('SIM_WORKERS', '0')) or os.cpu_count() or 8
    jobs = list(jobs)
    procs = {}
    free = []
    for _ in range(min(workers, max(len(jobs), 1))):
        a_r, a_w = os.pipe(); b_r, b_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a_w); os.close(b_r)
                for other in procs.values():
                    os.close(other[0]); os.close(other[1])
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                while True:
                    head = _read_exact(a_r, 4)
                    if head is None: break
                    index, = struct.unpack('<i', head)
                    try:
                        out = (True, function(jobs[index]))
                    except BaseException:  # pylint: disable=broad-except
                        out = (False, traceback.format_exc())
                    data = pickle.dumps(out, 4)
                    _write_all(b_w, struct.pack('<iq', index, len(data)) + data)
            finally:
                os._exit(0)
        os.close(a_r); os.close(b_w)
        procs[b_r] = (a_w, b_r, pid)
        free.append(b_r)
    todo = iter(range(len(jobs)))
    busy = {}
    stop = False
    try:
        while True:
            while free and not stop:
                if deadline is not None and REAL_MONO() > deadline: break
                index = next(todo, None)
                if index is None: break
                fd = free.pop(0)
                _write_all(procs[fd][0], struct.pack('<i', index))
                busy[fd] = index
            if not busy: break
            for fd in select.select(list(busy), [], [])[0]:
                head = _read_exact(fd, 12)
                if head is None: raise HarnessError(f'worker died on job {jobs[busy[fd]]!r}')
                index, size = struct.unpack('<iq', head)
                ok, value = pickle.loads(_read_exact(fd, size))
                del busy[fd]; free.append(fd)
                if not ok: raise HarnessError(value)
                if on_result is not None and on_result(index, value): stop = True
    finally:
        for a_w, b_r, pid in procs.values():
            try: os.close(a_w)
            except OSError: pass
            if busy:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
            os.waitpid(pid, 0)
            os.close(b_r)

def _read_exact(fd, n):
    chunks = []
    while n:
        data = os.read(fd, min(n, 1 << 20))
        if not data: return None
        chunks.append(data); n -= len(data)
    return b''.join(chunks)
