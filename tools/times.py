"""times.py PID: obligations and seconds per rule, from the last evidence"""
import json, sys
for r in json.load(open('/verif/evidence/%s.json' % sys.argv[1]))['coverage']['rules']:
    print(r['rule'], r['paths'], r['obligations_met'], r['imprecise_paths'], r['violations'], r['seconds'])
