#!/usr/bin/env python3
"""fixed.py PROP TEXT: records the repair at /repo's HEAD in known_findings.json"""
import json, subprocess, sys
p='/verif/known_findings.json'; d=json.load(open(p)); h=subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
d['fixed'].append(f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}"); json.dump(d,open(p,'w'),indent=1)
