"""Starts the application with the options of each scenario; the scenario runs once the theory is registered.

usage: clidrive.py EXE SCENARIOS OUT SKIP
"""
import json
import os
import re
import subprocess
import sys
import tempfile

FLAGS = ("rdl", "shift-constraints", "compute-components")


def arg(key, value):
    if key in FLAGS:
        return "--" + ("no-" if value == "no" else "") + key
    return "--%s=%s" % (key, value)


def main(exe, scen, out, skip):
    with open(scen) as f:
        blocks = [b for b in f.read().split("end\n") if b.strip()]
    with tempfile.TemporaryDirectory() as tmp, open(out, "a") as res:
        lp = os.path.join(tmp, "prog.lp")
        one = os.path.join(tmp, "scen.txt")
        rec = os.path.join(tmp, "rec.json")
        open(lp, "w").close()
        for b in blocks[skip:]:
            lines = b.strip("\n").split("\n")
            opts = [line.split(" ", 2)[1:] for line in lines if line.startswith("opt ")]
            with open(one, "w") as f:
                f.write("\n".join(x for x in lines if not x.startswith("opt ")) + "\nend\n")
            if os.path.exists(rec):
                os.unlink(rec)
            env = dict(os.environ)
            env["FAKE_SCENARIO"] = one
            env["FAKE_TRACE"] = rec
            p = subprocess.run([exe, lp] + [arg(*x) for x in opts], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=25)
            err = p.stderr.decode(errors="replace")
            if p.returncode < 0 or p.returncode > 32:
                sys.stderr.write("status %d\n%s\n" % (p.returncode, err[-2000:]))
                return 70
            trace = {"id": int(lines[0].split()[1]), "cfg": {}, "ev": []}
            ok = os.path.exists(rec)
            if ok:
                with open(rec) as f:
                    trace = json.loads(f.readline())
            named = [1 if re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(k), err) else 0 for k, _ in opts]
            trace["ev"].insert(0, {"k": "cli", "opts": opts, "ok": 1 if ok else 0, "named": named, "rc": p.returncode})
            res.write(json.dumps(trace) + "\n")
            res.flush()
    return 0


try:
    sys.exit(main(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])))
except subprocess.TimeoutExpired as e:
    sys.stderr.write("no fixpoint: %s\n" % e)
    sys.exit(65)
