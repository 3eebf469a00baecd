import json,sys,glob
n=int(sys.argv[2]) if len(sys.argv)>2 else 1200
for f in sorted(glob.glob(f'/verif/replays/{sys.argv[1]}-*.json')):
    d=json.load(open(f)); print(f.split('/')[-1],d['family'],d['idx'],d['key'],'x',d.get('occurrences'),'\n  ',d['msg'][:n],'\n  ',d['case'][:n])
