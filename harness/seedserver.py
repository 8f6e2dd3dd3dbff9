"""A second interpreter with its own hash seed that runs command lines on request (one JSON object per line)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


class Server:
    """Client side. Ends with the process that started it (its standard input closes)."""

    def __init__(self, hashseed, env=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        e.update({"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", **(env or {})})
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=HERE, close_fds=True)
        self.pid = os.getpid()

    def vspec(self, args, cwd):
        self.p.stdin.write(json.dumps({"args": [str(a) for a in args], "cwd": cwd}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the second interpreter ended")
        return json.loads(line)


def main():
    sys.path.insert(0, HERE)
    shift = int(os.environ.get("VERIF_CLOCK", "0"))
    if shift:
        import datetime
        import time
        real, D = time.time, datetime.datetime
        time.time = lambda: real() + shift

        class Moved(D):
            @classmethod
            def now(cls, tz=None):
                return D.now(tz) + datetime.timedelta(seconds=shift)

            @classmethod
            def today(cls):
                return D.now() + datetime.timedelta(seconds=shift)

            @classmethod
            def utcnow(cls):
                return D.utcnow() + datetime.timedelta(seconds=shift)
        datetime.datetime = Moved
    import runner
    runner.load()
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = runner.vspec(q["args"], q["cwd"])
            a = {"code": r.code, "out": r.out[-3000:]}
        except runner.Timeout as e:
            a = {"code": -1, "out": str(e), "timeout": True}
        sys.stdout.write(json.dumps(a) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
