# usage: addcheck.py 'P99' "builds-expr" "rule" a,b,c
import sys
s=open('/verif/checks_conf.py').read(); p,b,r,m=sys.argv[1:5]
assert "'%s': dict"%p not in s
i=s.rindex('}')
s=s[:i]+"    %r: dict(\n        builds=%s,\n        rule=%r,\n        must_observe=%r,\n    ),\n}\n"%(p,b,r,[x for x in m.split(',') if x])
open('/verif/checks_conf.py','w').write(s)
