import sys; sys.path.insert(0,'/verif')
import pyvc, importlib, time
from pyvc.unit import REGISTRY, run_unit
mod=sys.argv[1]; importlib.import_module('contracts.'+mod)
try:
    from contracts.shapes import SHAPES
except ImportError: SHAPES=None
for p,us in REGISTRY.items():
    for n,u in us.items():
        if len(sys.argv)>2 and not any(a in n for a in sys.argv[2:]): continue
        r=run_unit(u,SHAPES)
        print(r.status, '|', n,'|',r.reason, '| obl',len(r.obligations),'paths',r.paths,'s',r.seconds, 'VOID %d' % r.void if r.void else '')
        if r.status!='proved':
            for o in r.obligations:
                if o['status']!='discharged': print('   ',o['name'],o['status'],o['detail'][:1500]); break
