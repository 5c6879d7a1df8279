"""Client of the runner: one long-lived fork server, one case at a time."""
import os, re, subprocess, sys

ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:symbolize=0:handle_abort=1:"
        "max_malloc_fill_size=1073741824:malloc_fill_byte=190:detect_stack_use_after_return=1:"
        "quarantine_size_mb=4:allocator_may_return_null=1:malloc_context_size=6:print_summary=1:"
        "max_free_fill_size=65536:free_fill_byte=223:allow_user_segv_handler=0")
STATUS = ["OK", "ABORT", "MPIERR", "CRASH", "DEADLOCK", "LIVELOCK", "TIMEOUT", "UNSUPPORTED", "CHECK", "LEAK"]


class RunnerError(Exception):
    pass


class Result:
    __slots__ = ("status", "frank", "code", "msg", "at", "stats", "logs", "out")

    def line(self):
        return "%s rank=%d code=%d %s" % (self.status, self.frank, self.code, self.msg)

    def log(self, r):
        """parsed log of one rank: list of token lists"""
        return [l.split() for l in self.logs.get(r, "").splitlines()]


class Runner:
    def __init__(self, exe, wall=20, symbolize=False):
        self.exe, self.wall, self.symbolize = exe, wall, symbolize
        self.p = None

    def start(self):
        env = {"PATH": os.environ.get("PATH", ""), "ASAN_OPTIONS": ASAN.replace("symbolize=0", "symbolize=1") if self.symbolize else ASAN,
               "UBSAN_OPTIONS": "print_stacktrace=0:symbolize=%d" % self.symbolize}
        self.p = subprocess.Popen([self.exe, str(self.wall)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            for f in (self.p.stdout,):
                f.close()
            self.p = None

    def run(self, text):
        for attempt in (0, 1):
            try:
                return self._run(text)
            except (RunnerError, BrokenPipeError, OSError):
                self.kill()
                if attempt:
                    raise RunnerError("runner failed twice")

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def _run(self, text):
        if self.p is None:
            self.start()
        b = text.encode()
        self.p.stdin.write(b"CASE %d\n" % len(b))
        self.p.stdin.write(b)
        self.p.stdin.flush()
        f = self.p.stdout
        r = Result()
        l = f.readline().decode(errors="replace")
        if not l.startswith("RES "):
            raise RunnerError("bad reply %r" % l)
        x = l.rstrip("\n").split(" ", 4)
        r.status, r.frank, r.code, r.msg = STATUS[int(x[1])], int(x[2]), int(x[3]), x[4] if len(x) > 4 else ""
        r.logs, r.at, r.stats, r.out = {}, [], {}, ""
        while True:
            l = f.readline()
            if not l:
                raise RunnerError("eof")
            if l == b"END\n":
                return r
            w = l.split()
            if w[0] == b"AT":
                r.at = [int(v) for v in w[1:]]
            elif w[0] == b"ST":
                r.stats = {k: int(v) for k, v in (y.split("=") for y in l.decode().split()[1:])}
            elif w[0] == b"LOG":
                r.logs[int(w[1])] = f.read(int(w[2])).decode(errors="replace")
            elif w[0] == b"OUT":
                r.out = f.read(int(w[1])).decode(errors="replace")


if __name__ == "__main__":
    exe, path = sys.argv[1:3]
    rn = Runner(exe, symbolize=True)
    r = rn.run(open(path).read())
    print(r.line())
    print(r.at, r.stats)
    for k, v in r.logs.items():
        print("-- rank", k)
        print(v)
    print(r.out)
    rn.close()
