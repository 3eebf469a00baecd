import json,glob,sys
n=int(sys.argv[2]) if len(sys.argv)>2 else 300
for f in sorted(glob.glob('/verif/replays/%s-*'%sys.argv[1])):
  d=json.load(open(f)); print('*',d['family'],d['idx'],d['key'],'x%d'%d['occurrences'],'\n    ',d['case'][:n],'\n    ',d['msg'][:n]) if int(f.split('-')[-1][:-5])<8 else 0
print(json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']['observed'])
