"""compare a test result file with the baseline: python3 cmptests.py OUT.json"""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))["stable"]
t = json.load(open(sys.argv[1]))
miss = [x for x in b if x not in t["passed"]]
print("stable not passing:", len(miss)); [print(" ", m) for m in miss]
