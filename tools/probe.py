import sys,os; sys.path.insert(0,'/verif/lib')
from client import *
v='opt'; a=sys.argv[1:]
if a[0] in('opt','san'): v=a.pop(0)
s=Server(os.environ.get('PB','/verif/.build')+'/'+v, ['/verif/lib/prelude.ss'])
for l in open(a[0]):
    l=l.rstrip('\n')
    if not l.strip(): continue
    r=s.run(l,mode='each',timeout=20,stdin=b"")
    x=records(r.out)
    print(l,' => ',' | '.join(repr(y[1:]) for y in x), (r.kind,r.code,r.err[:300].strip()) if not x or r.kind!='exit' or r.code or 'runtime error' in r.err else '')
