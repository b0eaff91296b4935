"""pretty-print exported functions: pp.py <substring of fid>"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import extract
def ts(t):
    if t is None: return '?'
    if t[0]=='rec':
        s=t[1].split('::')[-1]
        return s+('<'+','.join(ts(x) if isinstance(x,list) else str(x) for x in t[3][:1])+'>' if t[3] else '')
    if t[0] in('ref','ptr'): return ts(t[1])+('&' if t[0]=='ref' else '*')
    if t[0]=='arr': return ts(t[1])+'[%s]'%t[2]
    if t[0]=='int': return ('i' if t[2] else 'u')+str(t[1])
    if t[0]=='flt': return 'f%d'%t[1]
    return str(t[0])
def ex(e):
    if e is None: return '-'
    k=e['k']
    m=('$' if e.get('lv') else '%' if e.get('xv') else '')
    if k=='int': return str(e['v'])
    if k=='dbl': return 'd'+str(e['v'])
    if k=='str': return repr(bytes.fromhex(e['hex']))
    if k=='var': return e['n']
    if k=='member': return ex(e['e'])+('->' if e['arrow'] else '.')+e['n']
    if k=='bin': return '('+ex(e['a'])+e['op']+ex(e['b'])+')'
    if k=='assignop': return '('+ex(e['a'])+e['op']+'= '+ex(e['b'])+')'
    if k=='un': return e['op']+ex(e['e'])
    if k=='cast': return ('' if e['ck'] in('LValueToRValue','NoOp') else '<%s:%s>'%(e['ck'],ts(e['t'])))+ex(e['e'])
    if k=='call': return m+'CALL{'+(ex(e['obj'])+('->' if e.get('arrow') else '.') if e.get('obj') else '')+(e.get('q') or '?')[-60:]+'('+', '.join(ex(a) for a in e['args'])+')'+(' V' if e.get('virtual') else '')+'}'
    if k=='ctor': return 'CTOR[%s%s]{'%(ts(e['t']),' copy' if e.get('copy') else ' move' if e.get('move') else '')+', '.join(ex(a) for a in e['args'])+'}'
    if k=='index': return ex(e['e'])+'['+ex(e['i'])+']'
    if k in('temp','definit','stdinit'): return k[0]+'`'+ex(e['e'])
    if k=='cond': return '(%s ? %s : %s)'%(ex(e['c']),ex(e['a']),ex(e['b']))
    if k=='initlist': return 'IL[%s]{'%ts(e['t'])+', '.join(ex(a) for a in e['a'])+'}'
    if k=='throw': return 'throw'
    if k=='lambda': return 'LAM[%s](%s){'%(','.join(str(c) for c in e['caps']),','.join(p['n'] for p in e['params']))+'}'
    if k=='new': return 'new '+ts(e['at'])+'('+ex(e.get('init'))+')'
    return k
def stt(s,d):
    p='  '*d
    if s is None: return
    k=s['k']
    if k=='block':
        for x in s['s']: stt(x,d)
    elif k=='expr': print(p+ex(s['e']))
    elif k=='decl':
        for v in s['v']: print(p+ts(v['t'])+' '+v['n']+' = '+ex(v.get('init')))
    elif k=='if':
        print(p+'if '+ex(s['c'])); stt(s['a'],d+1)
        if s.get('b'): print(p+'else'); stt(s['b'],d+1)
    elif k=='for':
        stt(s.get('init'),d); print(p+'for ; '+ex(s.get('c'))+' ; '+ex(s.get('inc'))); stt(s['body'],d+1)
    elif k=='forrange': print(p+'for %s %s : '%(ts(s['v']['t']),s['v']['n'])+ex(s['range'])+'   init='+ex(s['v'].get('init'))); stt(s['body'],d+1)
    elif k in('while','do'): print(p+k+' '+ex(s['c'])); stt(s['body'],d+1)
    elif k=='return': print(p+'return '+ex(s.get('e')))
    elif k=='switch': print(p+'switch '+ex(s['c'])); stt(s['body'],d+1)
    elif k in('case','default'): print(p+k+' '+ex(s.get('v'))); stt(s['s'],d+1)
    elif k=='try': print(p+'try'); stt(s['body'],d+1); [ (print(p+'catch'), stt(h['body'],d+1)) for h in s['h']]
    else: print(p+k)
if __name__=='__main__':
    P=extract.load()
    for f in P.funs.values():
        if sys.argv[1] in f['fun'] and f['fun'].startswith('copc') or f['fun']==sys.argv[1]:
            print('##',f['fun'],'->',ts(f['ret']),f['file'],f['line'])
            for i in f.get('inits',[]): print('   init',i.get('field') or i.get('base') or 'deleg', ex(i.get('e')))
            if f.get('body'): stt(f['body'],1)
