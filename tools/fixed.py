"""tools/fixed.py 'fixed: property=.. sha what' : append a line to the fixed list of known_findings.json"""
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p)); d['fixed'].append(sys.argv[1]); json.dump(d,open(p,'w'),indent=1)
