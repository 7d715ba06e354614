#!/usr/bin/env python3
"""seed.py ID: makes seeded/ID/patch.diff out of /tmp/w/repo's changes and tries the demo both ways"""
import os, subprocess as s, sys
i = sys.argv[1]
d = f"/verif/seeded/{i}"
w = "/tmp/w/repo"
diff = s.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
def demo():
    r = s.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
b = s.run("go build ./node/log ./skyobject/statutil && go test -vet=off -count=1 ./node/log ./skyobject/statutil", shell=True, cwd=w, capture_output=True, text=True,
          env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
print("build+test", b.returncode, b.stdout[-500:], b.stderr[-500:])
print("patched:", *demo())
s.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
print("clean:", *demo())
