import sys; sys.path[:0]=['/verif','/repo']
import logging; logging.getLogger().addHandler(logging.NullHandler())
import warnings; warnings.simplefilter('ignore')
import check, importlib, time
prop=sys.argv[1]; n=int(sys.argv[2]); names=sys.argv[3:]
h=check.load_harness(prop)
for name,fn in h.CHECKS.items():
    if names and name not in names: continue
    t=time.time(); bad=0
    for i in range(n):
        m=check.run_case(fn,f"{prop}{i}")
        if m:
            bad+=1
            if bad<=2: print('FAIL',name,i,m[:1200])
            if bad>5: break
    print(name,'n',i+1,'bad',bad,round(time.time()-t,2),'s')
