"""tools/mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS  : create seeded/ID from a text replacement (first match) and demo.cpp on stdin"""
import sys, os, json, subprocess
i, p, f, old, new, needs, br = sys.argv[1:8]
R = os.environ.get('SEED_REPO', '/repo')
path = R + '/include/boost/polygon/' + f; s = open(path).read(); assert s.count(old) >= 1, 'not found'
if s.count(old) > 1: print('warning: %d matches, first used' % s.count(old))
d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
open(path, 'w').write(s.replace(old, new, 1))
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
open(path, 'w').write(s)
demo = sys.stdin.read()
if demo.strip(): open(d + '/demo.cpp', 'w').write(demo)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds demo.cpp against ./include; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -pthread -I include "$d/demo.cpp" -o "$t/demo" || exit 2
"$t/demo"
''')
json.dump(dict(property=p, needs=needs, what_it_breaks=br), open(d + '/meta.json', 'w'), indent=1)
