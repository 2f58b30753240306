"""Run the program under test on WADs in a scratch directory."""
import os, subprocess, shutil
from . import build

class Result:
    __slots__ = ("rc", "out", "timeout")
    def __init__(self, rc, out, timeout=False):
        self.rc, self.out, self.timeout = rc, out, timeout

def run(binpath, args, cwd=None, timeout=60, env=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run([binpath] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return Result(p.returncode, p.stdout.decode("latin1"))
    except subprocess.TimeoutExpired as ex:
        return Result(-999, (ex.stdout or b"").decode("latin1"), True)
