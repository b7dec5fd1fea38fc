"""dev helper: mkseed.py SPEC.py -- SPEC defines id, prop, file, old, new (or edits
[(file, old, new)]), needs, breaks, demo (python text).  Writes seeded/<id>/."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
  d = os.path.join(HERE, "seeded", s["id"])
  os.makedirs(d, exist_ok=True)
  tmp = tempfile.mkdtemp()
  subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/w"])
  try:
    for f, old, new in s["edits"]:
      p = os.path.join(tmp, "w", "tensornetwork", f)
      t = open(p).read()
      n = t.count(old)
      assert n == 1, (s["id"], f, n)
      open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", tmp + "/w", "diff"]).decode()
  finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"])
    os.rmdir(tmp)
  open(d + "/patch.diff", "w").write(diff)
  open(d + "/demo.py", "w").write(s["demo"].strip() + "\n")
  open(d + "/demo.sh", "w").write(
      "#!/bin/bash\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 "
      "CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_USE_LEGACY_KERAS=1\n"
      "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
  json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
            open(d + "/meta.json", "w"), indent=1)
  print(s["id"], len(diff.splitlines()))
