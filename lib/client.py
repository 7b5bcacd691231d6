"""Client for harness/server.cpp: a pool of fork servers."""
import os, subprocess, threading, queue, re, sys, time
from concurrent.futures import ThreadPoolExecutor
from dataclasses import dataclass

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                    "handle_abort=1:symbolize=1:max_malloc_fill_size=4096:malloc_fill_byte=190:"
                    "quarantine_size_mb=64:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
}


@dataclass
class Result:
    kind: str      # exit | signal | timeout
    code: int
    out: str
    err: str
    raw: bytes = b""

    @property
    def crashed(self):
        return self.kind == "signal"

    def gc(self):
        m = re.search(r"%%GC requests=(\d+) forced=(\d+) live=(\d+)", self.err)
        return tuple(map(int, m.groups())) if m else None

    def stderr(self):
        return re.sub(r"\n%%GC[^\n]*\n", "", self.err)


class HarnessError(Exception):
    pass


class Server:
    def __init__(self, build_dir, preludes=(), env=None, stack_mb=None):
        e = dict(os.environ, LC_ALL="C.UTF-8", HOME="/nonexistent")
        e.pop("XDG_DATA_HOME", None)
        e.update(SAN_ENV)
        e.update(env or {})
        cmd = [os.path.join(build_dir, "server")] + list(preludes)
        if stack_mb:
            cmd = ["bash", "-c", "ulimit -s %d; exec \"$@\"" % (stack_mb * 1024), "x"] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=e)
        line = self.p.stdout.readline()
        if line != b"ready\n":
            self.p.stdin.close()
            err = self.p.stderr.read().decode(errors="replace")
            rc = self.p.wait()
            raise HarnessError("server did not boot: rc=%s %r\n%s" % (rc, line, err[-3000:]))
        threading.Thread(target=self.p.stderr.read, daemon=True).start()

    def run(self, text, mode="load", period=0, seed=0, timeout=20.0, cpu=0, mem_mb=0, stdin=b""):
        data = text.encode("utf-8", "surrogatepass") if isinstance(text, str) else text
        head = "%s %d %d %d %d %d %d %d\n" % (mode, period, seed, int(timeout * 1000), cpu, mem_mb, len(stdin), len(data))
        self.p.stdin.write(head.encode() + data + stdin)
        self.p.stdin.flush()
        line = self.p.stdout.readline().split()
        if len(line) != 4:
            raise HarnessError("fork server died: %r" % (line,))
        o, e = int(line[2]), int(line[3])
        so = self.p.stdout.read(o)
        se = self.p.stdout.read(e)
        return Result(line[0].decode(), int(line[1]), so.decode("utf-8", "replace"), se.decode("utf-8", "replace"), so)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class Pool:
    def __init__(self, build_dir, workers=None, **kw):
        n = workers or min(8, os.cpu_count() or 4)
        self.q = queue.Queue()
        self.args = (build_dir, kw)
        with ThreadPoolExecutor(n) as ex:
            self.servers = list(ex.map(lambda _: Server(build_dir, **kw), range(n)))
        for s in self.servers:
            self.q.put(s)
        self.n = n

    def run(self, text, **kw):
        s = self.q.get()
        try:
            return s.run(text, **kw)
        except HarnessError:
            raise
        finally:
            self.q.put(s)

    def map(self, f, items):
        """f(pool, item) over items, in parallel, in order."""
        with ThreadPoolExecutor(self.n) as ex:
            yield from ex.map(lambda i: f(self, i), items)

    def close(self):
        for s in self.servers:
            s.close()


RECORD = re.compile(r"\x01(\d+) (V|E|R|X|EOF) ?(.*?)\x02", re.S)


def records(out):
    """[(index, kind, text)] of mode each / read."""
    return [(int(a), b, c) for a, b, c in RECORD.findall(out)]
