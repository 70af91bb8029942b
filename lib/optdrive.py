"""Runs the application for each scenario of a file and collects the recorded events.

usage: optdrive.py EXE SCENARIOS OUT SKIP
"""
import json
import os
import subprocess
import sys
import tempfile


def main(exe, scen, out, skip):
    with open(scen) as f:
        blocks = [b for b in f.read().split("end\n") if b.strip()]
    with tempfile.TemporaryDirectory() as tmp, open(out, "a") as res:
        lp = os.path.join(tmp, "prog.lp")
        rec = os.path.join(tmp, "rec.json")
        for b in blocks[skip:]:
            var, atom, args, text = {}, {}, [], ""
            tid, cfg, ev = 0, {}, []
            for line in b.strip("\n").split("\n"):
                key, _, rest = line.partition(" ")
                if key == "trace":
                    tid = int(rest)
                elif key == "cfg":
                    cfg = json.loads(rest)
                elif key == "var":
                    x, _, name = rest.partition(" ")
                    var[name] = int(x)
                elif key == "atom":
                    x, _, name = rest.partition(" ")
                    atom[name] = int(x)
                elif key == "arg":
                    args.append(rest)
                elif key == "add":
                    text += rest + "\n"
                elif key == "ev":
                    ev.append(json.loads(rest))
            with open(lp, "w") as f:
                f.write(text)
            if os.path.exists(rec):
                os.unlink(rec)
            env = dict(os.environ)
            env["OPT_TRACE"] = rec
            p = subprocess.run([exe, lp] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=25)
            if p.returncode < 0 or p.returncode in (98, 99):
                sys.stderr.write("status %d\n%s\n" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))
                return 70
            if os.path.exists(rec):
                with open(rec) as f:
                    for line in f:
                        e = json.loads(line)
                        if e["k"] == "model":
                            e["at"] = sorted(atom[a] for a in e["at"] if a in atom)
                            e["dl"] = [[var.get(x, -1), v if isinstance(v, int) else -99999] for x, v in e["dl"]]
                        ev.append(e)
            ev.append({"k": "end", "rc": p.returncode & ~1 if p.returncode not in (33, 65) else p.returncode,
                       "err": 1 if p.returncode in (33, 65, 1) else 0})
            res.write(json.dumps({"id": tid, "cfg": cfg, "ev": ev}) + "\n")
            res.flush()
    return 0


try:
    sys.exit(main(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])))
except subprocess.TimeoutExpired as e:
    sys.stderr.write("no fixpoint: %s\n" % e)
    sys.exit(65)
