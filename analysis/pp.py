"""Pretty-print dumped MIR: python3 pp.py DUMP.json PATTERN"""
import json, sys
def main():
    d=json.load(open(sys.argv[1])); T=d['types']
    def pl(p):
        s=f"_{p[0]}"
        for e in p[1]:
            if e=='*': s=f"(*{s})"
            elif 'f' in e: s+=f".{e['f']}"
            elif 'v' in e: s+=f"@v{e['v']}"
            elif 'i' in e: s+=f"[_{e['i']}]"
            else: s+=str(e)
        return s
    def op(o):
        if 'c' in o: return pl(o['c'])
        if 'm' in o: return 'move '+pl(o['m'])
        if 'k' in o: return f"const({T[o['k']['ty']]['name'][:60]}={json.dumps(o['k']['v'])[:200]}{' '+o['k']['n'] if 'n' in o['k'] else ''})"
        return str(o)
    def rv(r):
        k=r[0]
        if k=='use': return op(r[1])
        if k=='ref': return ('&mut ' if r[1] else '&')+pl(r[2])
        if k=='cast': return f"{op(r[2])} as {T[r[3]]['name']} [{r[1]}]"
        if k=='bin': return f"{r[1]}({op(r[2])}, {op(r[3])})"
        if k=='un': return f"{r[1]}({op(r[2])})"
        if k=='disc': return f"disc({pl(r[1])})"
        if k=='agg':
            n=r[1]
            if n=='adt': n=T[r[2][0]]['name']+'::v%d'%r[2][1]
            return f"{n}({', '.join(op(o) for o in r[3])})"
        return str(r)
    for k,f in d['fns'].items():
        if sys.argv[2] in k:
            print('fn',k,f['span'],'argc',f['argc'])
            for i,l in enumerate(f['locals']): print('   let _%d: %s'%(i,T[l]['name'][:150]))
            for i,b in enumerate(f['blocks']):
                if b['c']: continue
                print(f' bb{i}:')
                for s in b['s']:
                    if s[0]=='=': print('   ',pl(s[1]),'=',rv(s[2]))
                    elif s[0] not in('live','dead'): print('   ',s)
                t=b['t']
                if t[0]=='call': print('    CALL',pl(t[3]),'=',t[1].get('inst') or t[1],'(',', '.join(op(o) for o in t[2]),') ->',t[4])
                elif t[0]=='switch': print('    SWITCH',op(t[1]),t[2],'else',t[3])
                elif t[0]=='assert': print('    ASSERT',op(t[1]),t[2],t[3][:60],'->',t[4])
                elif t[0]=='drop': print('    DROP',pl(t[1]),'->',t[2])
                else: print('   ',t)
main()
