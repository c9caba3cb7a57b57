import json,sys
def show(j):
    n=j['nodes']
    ch={}
    for i,x in enumerate(n): ch.setdefault(x['parent'],[]).append(i)
    def rec(i,ind):
        for c in ch.get(i,[]):
            if c==i: continue
            x=n[c]
            nm=x.get('name') or x['op']
            s=x.get('signature') or x.get('instantiation') or {}
            s=s.get('body',s)
            sig=[ (t.get('id') or t.get('t')) for t in s.get('input',[])] if isinstance(s,dict) else ''
            ins={e[1][1]:tuple(e[0]) for e in j['edges'] if e[1][0]==c}
            print(' '*ind,c,nm,sig,ins)
            rec(c,ind+3)
    rec(0,0)
if __name__=="__main__":
    for l in sys.stdin:
        j=json.loads(l)
        if j['case']==sys.argv[1]: show(j[sys.argv[2] if len(sys.argv)>2 else 'before'])
