"""again.py JOB : one job with its output shown"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "bin"), HERE]
import pybuild
pybuild.load()
import driver
kind, arg = json.loads(sys.argv[1])
r = driver.job(kind, arg)
for what, text in r.pop("found"): print("FOUND", what); print(text)
print(json.dumps(r, indent=1))
