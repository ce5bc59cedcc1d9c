#!/usr/bin/env python3
"""addprop.py: insert an entry (python text on stdin) into PROPS and regenerate MANIFEST.json and properties.jsonl"""
import sys, subprocess
p='/verif/tools/propconf.py'; s=open(p).read()
s=s.replace("}\nNA = {", sys.stdin.read().rstrip("\n")+"\n}\nNA = {",1)
open(p,'w').write(s)
subprocess.check_call(['python3','/verif/tools/mkprops.py']); subprocess.check_call(['python3','/verif/tools/mkmanifest.py'])
