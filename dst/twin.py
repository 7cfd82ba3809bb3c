"""A second interpreter with another PYTHONHASHSEED: answers what a plan produces there.

The simulator runs one per worker; each request is executed in a fork of a process that has done nothing but import the
library, so that one request cannot influence another."""

import json
import os
import subprocess
import sys

STATE = {"proc": None, "n": 0}


def start():
    """in the worker, before any run"""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    h = int(os.environ.get("PYTHONHASHSEED", "0") or 0)
    env = dict(os.environ, PYTHONHASHSEED=str((h * 7919 + 104729) % 4294967295))
    STATE["proc"] = subprocess.Popen([sys.executable, "-m", "dst.twin"], cwd=here, env=env, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)


def ask(prop, plan, variant):
    """the output of prop.produce(plan, variant) in the other interpreter"""
    p = STATE["proc"]
    rid = f"{os.getpid()}.{STATE['n']}"
    STATE["n"] += 1
    req = (json.dumps({"id": rid, "prop": prop, "plan": plan, "variant": variant}) + "\n").encode()
    while req:
        req = req[os.write(p.stdin.fileno(), req):]
    buf = b""
    while True:
        while b"\n" in buf:
            line, buf = buf.split(b"\n", 1)
            o = json.loads(line)
            if o["id"] == rid:
                return o["out"]
        b = os.read(p.stdout.fileno(), 65536)
        if not b:
            raise OSError("the other interpreter has ended")
        buf += b


def main():
    from . import seams

    seams.install()
    from . import core, pool, registry

    seams.preload()
    out = os.dup(1)
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                import warnings

                warnings.simplefilter("ignore")
                seams.reset(req["plan"].get("env_seed", 0))
                pool.reset(req["plan"].get("env_seed", 0))
                res = registry.load(req["prop"]).produce(req["plan"], req["variant"], core.Ctx(req["plan"]))
            except BaseException as e:  # noqa: BLE001
                import traceback

                res = ["raised", type(e).__name__, str(e)[:300] + traceback.format_exc()[-600:]]
            data = (json.dumps({"id": req["id"], "out": res}) + "\n").encode()
            while data:
                data = data[os.write(out, data):]
            os._exit(0)
        os.waitpid(pid, 0)


if __name__ == "__main__":
    main()
