"""Runs the application on the files of each scenario and collects the statements it adds to its program.

usage: rwdrive.py EXE SCENARIOS OUT SKIP
"""
import json
import os
import subprocess
import sys
import tempfile


def main(exe, scen, out, skip):
    with open(scen) as f:
        blocks = [b for b in f.read().split("end\n") if b.strip()]
    with tempfile.TemporaryDirectory() as tmp, open(out, "a") as res:
        rec = os.path.join(tmp, "rec.json")
        for b in blocks[skip:]:
            tid, shift, texts = 0, 0, [""]
            for line in b.strip("\n").split("\n"):
                key, _, rest = line.partition(" ")
                if key == "trace":
                    tid = int(rest)
                elif key == "shift":
                    shift = int(rest)
                elif key == "file":
                    texts.append("")
                elif key == "add":
                    texts[-1] += rest + "\n"
            files = []
            for i, t in enumerate(texts):
                files.append(os.path.join(tmp, "f%d.lp" % i))
                with open(files[-1], "w") as f:
                    f.write(t)
            if os.path.exists(rec):
                os.unlink(rec)
            env = dict(os.environ)
            env["REWRITE_FILES"] = ":".join(files)
            env["REWRITE_TRACE"] = rec
            p = subprocess.run([exe] + files + (["--shift-constraints"] if shift else []) + ["0"],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=25)
            if p.returncode < 0 or not os.path.exists(rec) or b"harness error" in p.stderr:
                sys.stderr.write("status %d\n%s\n" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))
                return 70
            with open(rec) as f:
                r = json.load(f)
            ev = [{"k": "r", "in": x} for x in r["in"]] + [{"k": "end"}]
            res.write(json.dumps({"id": tid, "cfg": {"shift": shift}, "rc": p.returncode, "out": r["out"], "ev": ev}) + "\n")
            res.flush()
    return 0


try:
    sys.exit(main(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])))
except subprocess.TimeoutExpired as e:
    sys.stderr.write("no fixpoint: %s\n" % e)
    sys.exit(65)
