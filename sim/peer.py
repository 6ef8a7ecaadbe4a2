"""A second interpreter with another string-hash seed, driven by a check.

Hash randomisation is fixed when an interpreter starts, so it cannot be varied
inside a simulating process.  A peer is the same simulator started with another
PYTHONHASHSEED; it executes what it is sent (module.serve(request, env)) and
returns the answer.
"""

import json
import os
import subprocess
import sys

PEERS = {}


class Peer(object):

    def __init__(self, check, hashseed):
        env = dict(os.environ, SIM_HASHSEED=str(hashseed))
        main = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), "check.py")
        self.p = subprocess.Popen(
            [sys.executable, main, check, "--serve"], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, request):
        self.p.stdin.write(json.dumps(request) + "\n")
        self.p.stdin.flush()
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("the peer interpreter ended")
            if line.startswith("ANSWER "):
                return json.loads(line[7:])


def ask(check, hashseed, request):
    key = (check, hashseed, os.getpid())
    if key not in PEERS:
        PEERS[key] = Peer(check, hashseed)
    return PEERS[key].ask(request)


def serve(mod, base):
    from .base import Env
    env = Env(base)
    for line in sys.stdin:
        try:
            answer = mod.serve(json.loads(line), env)
        finally:
            env.finish()
        sys.stdout.write("ANSWER " + json.dumps(answer) + "\n")
        sys.stdout.flush()
