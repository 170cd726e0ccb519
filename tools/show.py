"""Summarise the output of pyvc.run_sym."""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(p))
    bad = [(k, v['status'], v['detail'][:200]) for r in d['results'] for k, v in r['obligations'].items() if v['status'] != 'proved']
    print(p, len(d['results']), 'harnesses', sum(len(r['obligations']) for r in d['results']), 'obligations', bad)
