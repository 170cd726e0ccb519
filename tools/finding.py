"""Append fixed / known entries to known_findings.json:  finding.py P07 abc1234 'what failed'"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
pid, commit, what = sys.argv[1:4]
d['findings'].append({'property': pid, 'harness': '', 'obligation': '', 'what': f'fixed: property={pid} {commit} {what}', 'status': 'fixed'})
json.dump(d, open(p, 'w'), indent=1)
