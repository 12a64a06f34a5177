"""A second interpreter with another hash seed, time zone and locale: executes the same
operations as the worker it belongs to, on request, in a forked process each."""
import importlib
import json
import os
import subprocess
import sys


class Peer:
    def __init__(self, scratch, prop):
        env = dict(os.environ, PYTHONHASHSEED="4242", TZ="Pacific/Chatham", LC_ALL="C", LANG="C", HOME="/",
                   COLUMNS="33", PYTHONWARNINGS="error::UserWarning:nomodule", SIM_PEER="1")
        self.p = subprocess.Popen([sys.executable, "-m", "dst.peer", scratch, prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, text=True, env=env)
        self.ready = False

    def wait(self):
        if not self.ready:
            if self.p.stdout.readline() != "ready\n":
                raise RuntimeError("the peer interpreter did not start")
            self.ready = True

    def ask(self, plan):
        self.p.stdin.write(json.dumps(plan) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


def main():
    scratch, prop = sys.argv[1:3]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    from dst import core, zygote
    zygote.imports(scratch)
    mod = importlib.import_module("dst.props." + prop.lower())
    out.write("ready\n")
    for line in sys.stdin:
        plan = json.loads(line)
        try:
            res = core.in_fork(mod.peer_run, plan)
        except BaseException as e:
            res = ["peer failed", repr(e)]
        out.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
