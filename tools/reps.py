import json,glob,sys
p=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 600
for f in sorted(glob.glob('/verif/replays/%s-*.json'%p)):
    d=json.load(open(f)); print('##',f[-9:],d['family'],d['idx'],d['key'],'x',d.get('occurrences')); print('  ',d['case'][:n]); print('  ',d['msg'][:n])
