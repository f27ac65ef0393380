""" Another interpreter: same code, another hash seed, memory layout and clock. Serves requests in forked copies of itself.

In the simulation this is "the process after the restart" (C06, C08) and "another run of the same program" (C07). """
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pickle, socket, struct, subprocess, time
import core

class Server:
    """ Starts an interpreter and talks to it. """
    def __init__(self, index, hash_seed, layout):
        self.address = f'\0curver-sim-{os.getpid()}-{index}-{os.urandom(4).hex()}'
        env = dict(os.environ)
        env.pop('SIM_BOOTED', None)
        env.update(PYTHONHASHSEED=str(hash_seed), SIM_BOOTED=str(hash_seed), SIM_ADDRESS=self.address[1:], SIM_LAYOUT=str(layout), PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
        env.update([('TZ', ['UTC', 'Asia/Kolkata', 'America/St_Johns'][index % 3]), ('COLUMNS', str(40 + 37 * index)), ('LC_ALL', ['C', 'C.UTF-8', 'POSIX'][index % 3]), ('USER', f'user{index}')])
        self.proc = subprocess.Popen([sys.executable, '-X', 'utf8', os.path.abspath(__file__)], env=env, cwd=['/', os.getcwd(), '/dev/shm'][index % 3], stdin=subprocess.PIPE)
    def wait(self):
        stop = time.monotonic() + 60
        while True:
            try:
                s = socket.socket(socket.AF_UNIX); s.connect(self.address); s.close()
                return self
            except OSError:
                if time.monotonic() > stop or self.proc.poll() is not None: raise core.HarnessError('second interpreter did not start')
                time.sleep(.02)
    def judged(self, spec, module, function, *args, timeout=150):
        """ As ask, for a run which is judged. """
        try: return self.ask(module, function, *args, timeout=timeout)
        except core.HarnessError as error:
            if str(error).startswith('RunTimeout') or 'died without an answer' in str(error): raise core.NoAnswer(spec, str(error)) from None
            raise
    def ask(self, module, function, *args, timeout=120):
        """ Return module.function(*args) as computed in a pristine copy of the other interpreter. """
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout + 30)
        s.connect(self.address)
        data = pickle.dumps((module, function, args, timeout), 4)
        s.sendall(struct.pack('<q', len(data)) + data)
        ok, value = pickle.loads(_recv(s, struct.unpack('<q', _recv(s, 8))[0]))
        s.close()
        if not ok: raise core.HarnessError(value)
        return value
    def stop(self):
        self.proc.kill()
        self.proc.wait()

def _recv(s, n):
    out = b''
    while len(out) < n:
        d = s.recv(n - len(out))
        if not d: raise core.HarnessError('second interpreter hung up')
        out += d
    return out

def serve():
    import importlib, signal, threading, gc
    import simsys
    simsys.install()
    ballast = [bytearray(int(os.environ['SIM_LAYOUT']) * 1237 % 4096 + 1) for _ in range(int(os.environ['SIM_LAYOUT']) % 1000)]  # Other addresses.
    core.import_curver()
    import engine
    engine.worlds()
    gc.collect(); gc.freeze()
    gc.set_threshold(*[(700, 10, 10), (120, 3, 3), (50000, 20, 20)][int(os.environ['SIM_LAYOUT']) % 3])
    listener = socket.socket(socket.AF_UNIX)
    listener.bind('\0' + os.environ['SIM_ADDRESS'])
    listener.listen(256)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    ppid = os.getppid()
    listener.settimeout(1)
    while True:
        try: conn, _ = listener.accept()
        except TimeoutError:
            if os.getppid() != ppid: os._exit(0)
            continue
        conn.settimeout(None)
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                listener.close()
                head = conn.recv(8, socket.MSG_WAITALL)
                if len(head) == 8:
                    module, function, args, timeout = pickle.loads(_recv(conn, struct.unpack('<q', head)[0]))
                    try: out = (True, core.forked(getattr(importlib.import_module(module), function), *args, timeout=timeout))
                    except BaseException as error: out = (False, f'{type(error).__name__}: {error}')
                    data = pickle.dumps(out, 4)
                    conn.sendall(struct.pack('<q', len(data)) + data)
            finally: os._exit(0)
        conn.close()

SERVERS = []
def start(specs):
    """ Start the other interpreters: specs is a list of (hash seed, layout). """
    SERVERS.extend(Server(i, h, l) for i, (h, l) in enumerate(specs))
    for s in SERVERS: s.wait()

def stop():
    while SERVERS: SERVERS.pop().stop()

if __name__ == '__main__': serve()
