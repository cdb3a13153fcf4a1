"""Stand-ins for the external programs: every process the code starts is recorded and answered by a Python function.

Commands for a shell are taken apart by a real shell in which the programs are functions that print their arguments."""
import os, re, subprocess
from mc.core import need, Bad

REAL = subprocess.Popen
SYSTEM, POPEN = os.system, os.popen
SAFE = re.compile(r"[A-Za-z0-9_=./ -]+$")
PROGRAMS = ("gs", "convert", "magick")


def expand(cmd):
    """Argument lists of the programs run by a shell command, in order."""
    if SAFE.match(cmd):
        return [cmd.split()]
    pre = "".join("%s() { printf '%%s\\0' %s \"$@\"; printf '\\1\\0'; }\n" % (p, p) for p in PROGRAMS)
    p = REAL(["/bin/sh", "-c", pre + cmd], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
             env={"PATH": "/nonexistent"})
    out, err = p.communicate()
    need(p.returncode == 0 and not err, "the shell refuses {!r}: {}", cmd, err)
    calls, cur = [], []
    for a in out.split(b"\0")[:-1]:
        if a == b"\1":
            calls.append(cur)
            cur = []
        else:
            cur.append(os.fsdecode(a))
    need(calls and not cur, "no program is run by {!r}", cmd)
    return calls


class Programs:
    """While active, processes are answered by handler(argument list) -> exit code."""

    def __init__(self, handler):
        self.handler = handler

    def start(self, args, shell=False):
        if isinstance(args, (str, bytes)):
            text = os.fsdecode(args)
            calls = expand(text) if shell else [[text]]
        elif shell:
            calls = expand(os.fsdecode(list(args)[0]))
        else:
            calls = [[os.fsdecode(a) for a in args]]
        rc = 0
        for c in calls:
            rc = self.handler([os.path.basename(c[0])] + c[1:])
        return rc

    def __enter__(self):
        outer = self

        class Popen:
            def __init__(self, args, *a, shell=False, **kw):
                self.args = args
                self.pid = 0
                self.stdin = self.stdout = self.stderr = None
                self.returncode = outer.start(args, shell)

            def wait(self, timeout=None):
                return self.returncode

            poll = wait

            def communicate(self, input=None, timeout=None):
                return None, None

            def kill(self):
                pass

            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass
        subprocess.Popen = Popen
        os.system = lambda cmd: self.start(cmd, True) << 8
        return self

    def __exit__(self, *a):
        subprocess.Popen = REAL
        os.system = SYSTEM


def gs(args):
    """(device, output, input) of a renderer call."""
    dev = [a[len("-sDEVICE="):] for a in args if a.startswith("-sDEVICE=")]
    out = [a[len("-sOutputFile="):] for a in args if a.startswith("-sOutputFile=")]
    rest = [a for a in args[1:] if not a.startswith("-")]
    need(len(dev) == len(out) == len(rest) == 1 and "-dBATCH" in args and "-dNOPAUSE" in args, "renderer called as {}", args)
    return dev[0], out[0], rest[0]


def convert(args):
    """(delay, inputs, target) of an assembler call."""
    need(args[1:2] == ["-delay"] and len(args) > 6 and args[3:5] == ["-loop", "0"], "assembler called as {}", args)
    return args[2], args[5:-1], args[-1]
