import json,sys
d=json.load(open('/verif/.cache/mir.json')); T=d['types']
def ts(i): return T[i]['s']
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s='%s.%d'%(s,e[1])
        elif e[0]=='d': s='(%s as v%d)'%(s,e[1])
        elif e[0]=='i': s='%s[_%d]'%(s,e[1])
        else: s='%s%s'%(s,e)
    return s
def op(o):
    if o[0] in('cp','mv'): return o[0]+' '+pl(o[1])
    if o[0]=='c': return 'const '+json.dumps({k:v for k,v in o[1].items() if k!='ty'})+':'+ts(o[1]['ty'])[:60]
    return str(o)
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0] in('ref','reborrow'): return '&%s'%pl(r[1])
    if r[0]=='agg': return 'agg %s (%s)'%([r[1][0]]+[ts(r[1][1]) if len(r[1])>1 else '']+r[1][2:], ', '.join(map(op,r[2])))
    if r[0]=='cast': return '%s as %s [%s] from %s'%(op(r[2]),ts(r[3]),r[1],ts(r[4]) if r[4] is not None else None)
    if r[0]=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if r[0]=='discr': return 'discr(%s)'%pl(r[1])
    return str(r)
for f in d['fns']:
    if sys.argv[1] in f['key']:
        print('FN',f['key'],'argc',f['argc'])
        for i,l in enumerate(f['locals']): print('   let _%d: %s'%(i,ts(l)))
        for n in f['names']: print('   name',n[0],pl(n[1]))
        for i,b in enumerate(f['blocks']):
            print(' bb%d:'%i)
            for s in b['s']:
                if s[0]=='dead': print('    dead _%d'%s[1]); continue
                if s[0]=='intrinsic': print('   ',s); continue
                print('    %s = %s'%(pl(s[0]),rv(s[1])))
            t=b['t']
            if t[0]=='call':
                c=T[t[1]]
                print('    %s = CALL %s(%s) -> %s   [%s]'%(pl(t[4]),c.get('rpath') or c.get('path') or c['s'],', '.join(map(op,t[3])),t[5],c.get('kind')))
            elif t[0]=='switch': print('    switch',op(t[1]),t[2],t[3])
            elif t[0]=='drop': print('    drop',pl(t[1]),t[2])
            else: print('   ',t)
