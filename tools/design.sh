#!/bin/bash
# refresh the table of planted bugs in DESIGN.md (between the section headings)
cd "$(dirname "$0")/.."
python3 - <<'P'
import re, subprocess
t = subprocess.run(["python3", "tools/design_table.py"], capture_output=True, text=True).stdout
s = open("DESIGN.md").read()
if "@TABLE@" in s:
    s = s.replace("@TABLE@\n", t)
else:
    s = re.sub(r"\| planted change .*?\n\n", lambda m: t + "\n", s, flags=re.S)
open("DESIGN.md", "w").write(s)
P
