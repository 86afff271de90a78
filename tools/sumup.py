import sys,json,glob
t={}
for f in glob.glob(sys.argv[1]+'/w_*.json'):
    j=json.load(open(f))
    for k in ('paths','completed','queries','solver_calls','solver_time','steps','forks','cache_hits','errors'): t[k]=t.get(k,0)+j[k]
    t['wall']=max(t.get('wall',0),j['wall']); t['inc']=t.get('inc',[])+j['incomplete']; t['cov']=sorted(set(t.get('cov',[]))|set(j['covers']))
print(t)
for f in glob.glob(sys.argv[1]+'/err_*.txt'): print(open(f).read())
