"""Run checks against planted bugs in a scratch copy: seedtest.py [ID[:PROP,...]]..."""
import json
import os
import shutil
import subprocess
import sys

import mutate


def main(ids):
    d = mutate.setup("st%d" % os.getpid())
    try:
        R = d + "/repo"
        shutil.rmtree(R)
        subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
        for i in ids:
            i, _, props = i.partition(":")
            S = f"/verif/seeded/{i}"
            subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
            subprocess.run(["git", "-C", R, "apply", S + "/patch.diff"], check=True)
            for p in props.split(",") if props else [json.load(open(S + "/meta.json"))["property"]]:
                env = dict(os.environ, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE="1")
                r = subprocess.run(["./check", p, "quick"], cwd=d + "/verif", env=env, capture_output=True, text=True)
                line = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "violat" in x][:1]
                print("CAUGHT" if r.returncode == 1 else "MISSED", i, p, r.returncode, (line or r.stdout.splitlines()[-1:])[0][:200], flush=True)
    finally:
        shutil.rmtree(d)


main(sys.argv[1:] or sorted(os.listdir("/verif/seeded")))
