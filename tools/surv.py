"""surv.py FILE...: list the survivors of mutate.py runs"""
import sys,json,collections
n=k=0
by=collections.Counter()
for f in sys.argv[1:]:
    for l in open(f):
        d=json.loads(l); n+=1
        if d['killed']: k+=1; by[d['killed']]+=1
        else:
            src=open('/repo/'+d['path']).read().split('\n')
            print('%s:%d %s  %s => %s' % (d['path'],d['line'],d['what'],d['old'][:80].replace('\n',' '),d['new'][:60]))
            print('      |',src[d['line']-1][:110])
print(n,'mutants',k,'killed',dict(by))
