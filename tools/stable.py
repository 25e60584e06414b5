#!/usr/bin/env python3
"""Runs the repository's tests and compares with the stable baseline."""
import json, subprocess, sys
subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/stable_out.json"], check=False, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
o = json.load(open("/tmp/stable_out.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
passed = set(o["passed"] if isinstance(o, dict) and "passed" in o else [k for k, v in o.items() if v == "pass"])
miss = [t for t in b if t not in passed]
print("stable tests:", len(b), "not passing:", miss)
sys.exit(1 if miss else 0)
