import sys, time
from . import rt
def main():
    mod=sys.argv[1]; scns=sys.argv[2].split(','); ks=[int(x) for x in sys.argv[3].split(',')]
    dbg='-d' in sys.argv
    wide='-w' in sys.argv
    for scn in scns:
        for k in ks:
            t=time.time()
            r=rt.run_cell(mod,scn,k,wide=wide,debug=dbg)
            print('==',scn,k,'traces',r['n'],'%.2fs'%(time.time()-t), 'REFUTED' if r['refuted'] else '')
            for x in r['refuted']: print('   R',x)
            for u_ in r['und']: print('   und',u_)
            for key,v in r['res'].items(): print('    ',v[0],key,v[1][:200])
            for n in r['notes']: print('   note',n)
main()
