import sys, json
sys.path.insert(0,'/verif/engine')
import facts
d=facts.extract()
def ex(e):
    if e is None: return 'NULL?'
    k=e['k']
    if k=='int': return e.get('n') or str(e['v'])
    if k=='str': return repr(e['v'])
    if k=='var': return e['n']
    if k=='fn': return '@'+e['n']
    if k=='ref': return '$%d'%e['i']
    if k=='call': return (e.get('fn') or '(*%s)'%ex(e['f']))+'('+', '.join(map(ex,e['a']))+')'
    if k=='mem': return ex(e['b'])+('->' if e['arrow'] else '.')+e['f']
    if k in('bin','asg'): return '(%s %s %s)'%(ex(e['x']),e['o'],ex(e['y']))
    if k=='seq': return '(%s , %s)'%(ex(e['x']),ex(e['y']))
    if k=='un': return e['o']+ex(e['x'])
    if k=='idx': return ex(e['b'])+'['+ex(e['x'])+']'
    if k=='cond': return '(%s?%s:%s)#%d'%(ex(e['c']),ex(e['x']),ex(e['y']),e['lid'])
    if k=='cast': return '<%s>%s'%(e['t'],ex(e['x']))
    return k
for (f,n),fn in d['fns'].items():
    if n in sys.argv[1:]:
        print(f,n,fn['line'],'entry',fn['entry'],'exit',fn['exit'])
        for b in fn['blocks']:
            print(' B%d'%b['b'],b.get('case',''),'default' if b.get('default') else '')
            for i,e in b['e']:
                if e['k']=='decl': print('   $%d decl'%i,[(x['n'],ex(x.get('x')) if 'x' in x else None) for x in e['d']])
                elif e['k']=='ret': print('   $%d return'%i,ex(e.get('x')) if 'x' in e else '')
                else: print('   $%d'%i,ex(e['x']) if 'x' in e else e)
            t=b.get('t')
            print('   ->',b['s'],(t['k'],ex(t['c']) if 'c' in t else None,t.get('lid')) if t else '')
