"""which planted bugs do not change any line of the base (as git blame sees it)"""
import re
import subprocess
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
BASE = "a65a4de"


def base_lines(f, cache={}):
    if f not in cache:
        out = subprocess.run(
            ["git", "-C", "/repo", "blame", "-s", "--abbrev=7", f],
            capture_output=True, text=True).stdout.splitlines()
        cache[f] = [(i, l.split(") ", 1)[1]) for i, l in enumerate(out, 1)
                    if l.lstrip("^").startswith(BASE[:6])]
    return cache[f]


for d in sorted((ROOT / "seeded").iterdir()):
    f, n, ok = None, 0, False
    for l in (d / "patch.diff").read_text().splitlines():
        if l.startswith("+++ b/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-") and not l.startswith("---"):
            ok |= any(t == l[1:] and abs(i - n) < 80
                      for i, t in base_lines(f))
            n += 1
        elif l.startswith(" ") and f:
            n += 1
    if not ok:
        print(d.name, "CHANGES NO ORIGINAL LINES")
