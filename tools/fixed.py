#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT WHAT: records a repaired defect."""
import json,sys
open("/verif/known_findings.jsonl","a").write(json.dumps({"status":"fixed","property":sys.argv[1],"commit":sys.argv[2],"what":f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})+"\n")
