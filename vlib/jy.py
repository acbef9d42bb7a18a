"""Driver side of the Jython worker."""
import json, os, select, subprocess, sys, threading, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class HarnessError(Exception):
    pass


class WorkerHang(Exception):
    pass


class ToolkitError(Exception):
    """An operation raised inside the worker."""
    def __init__(self, exc):
        self.exc = exc
        super().__init__('%s: %s  [%s]' % (exc['type'], exc['msg'], ' < '.join(reversed(exc['tb']))))

    @property
    def type(self):
        return self.exc['type']

    def isa(self, *names):
        return any(n in self.exc['mro'] for n in names)


class Worker:
    def __init__(self, modules, tier='quick', timeout=90):
        self.modules = modules
        self.tier = tier
        self.timeout = timeout
        self.proc = None
        self.calls = 0
        self._start()

    def _start(self):
        env = dict(os.environ)
        env['JYTHONPATH'] = '/opt/jy/hooks:/opt/jy/site:' + REPO
        env['LC_ALL'] = 'C.UTF-8'
        env['JY_TIER'] = '1' if self.tier == 'quick' else '4'
        env['TZ'] = 'UTC'
        # Java's stack traces are the larger part of the cost of a Python exception on Jython.
        env['JAVA_TOOL_OPTIONS'] = '-XX:-StackTraceInThrowable'
        err = open(os.environ.get('VERIF_WORKER_LOG', os.devnull), 'ab')
        self.proc = subprocess.Popen(['/opt/jy/jy', os.path.join(VERIF, 'jy', 'worker.py'), ','.join(self.modules)],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env,
                                     cwd=os.environ.get('VERIF_WORKER_CWD', '/'), start_new_session=True)
        self.buf = b''
        msg = self._recv(300)
        if 'ready' not in msg:
            raise HarnessError('worker did not start: %s' % msg.get('fatal', msg))
        self.startup = msg['ready']

    def _recv(self, timeout):
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise WorkerHang()
            r, _, _ = select.select([fd], [], [], min(left, 5))
            if r:
                data = os.read(fd, 1 << 20)
                if not data:
                    raise HarnessError('worker died (exit %r)' % self.proc.wait())
                self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line.decode('utf-8'))

    def close(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
            self.proc = None

    def call(self, op, **args):
        """Run op; returns its result or raises ToolkitError. A call that does not come back twice is a WorkerHang."""
        for attempt in (1, 2):
            if self.proc is None:
                self._start()
            self.calls += 1
            self.proc.stdin.write((json.dumps({'op': op, 'a': args}) + '\n').encode('utf-8'))
            self.proc.stdin.flush()
            try:
                msg = self._recv(self.timeout)
                break
            except WorkerHang:
                self.close()
                if attempt == 2:
                    raise
        if 'fatal' in msg:
            raise HarnessError(msg['fatal'])
        if 'exc' in msg:
            raise ToolkitError(msg['exc'])
        return msg['r']

    def attempt(self, op, **args):
        """Run op; {'r': result} or {'exc': what was raised in it}"""
        try:
            return {'r': self.call(op, **args)}
        except ToolkitError as e:
            return {'exc': e.exc}
