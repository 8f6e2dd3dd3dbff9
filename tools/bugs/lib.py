"""Helpers of the demonstrations: run the tool of the current directory on files in a scratch directory."""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.getcwd()


class World:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="demo-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)

    def read(self, name):
        with open(os.path.join(self.dir, name), encoding="utf-8", newline="") as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(os.path.join(self.dir, name))

    def run(self, *args, seed="0", cwd=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=seed, COLUMNS="200", TERM="dumb")
        p = subprocess.run([sys.executable, "-c", "import sys; from vss_tools.vspec.cli import cli; sys.exit(cli(prog_name='vspec'))", *map(str, args)],
                           cwd=cwd or self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        self.out = p.stdout
        return p.returncode

    def export(self, fmt, *args):
        return self.run("export", fmt, *args)


def expect(cond, msg):
    if not cond:
        print("DEMO FAILS:", msg)
        sys.exit(1)
