"""writes pyvc/defaults.json: what a new object of each class holds (generated once from the reviewed tree, then kept)"""
import sys, json
sys.path.insert(0,'/verif')
from pyvc import driver
driver.load_avb()
import avb, avb.utils, avb.mobid, datetime
from avb.utils import AVBClassName_dict as D
U=avb.utils
def enc(v, path):
    if path.endswith('.uid'): return ['uid']
    if path.startswith('Composition.') and path.endswith('.mob_id'): return ['new mob id']
    if isinstance(v, avb.mobid.MobID):
        assert v.int==0; return ['zero mob id']
    if isinstance(v, datetime.datetime): return ['now']
    if v is None: return ['none']
    if isinstance(v,(bool,int,float,str)): return [type(v).__name__, v]
    if isinstance(v,bytes): return ['bytes', v.hex()]
    n=type(v).__name__
    if n in D: return ['new', n]
    if isinstance(v,list): return [n,[enc(x,path+'[]') for x in v]]
    if isinstance(v,dict): return [n,[[k,enc(x,path+'.'+k)] for k,x in v.items()]]
    raise Exception((path,v))
out={}
f=avb.open()
for n,c in sorted(D.items()):
    o=f.create.from_name(n)
    d={}
    if hasattr(o,'property_data'): d={k:enc(v,n+'.'+k) for k,v in o.property_data.items()}
    if isinstance(o,(list,dict)): assert not len(o)
    s=set(x for k in type(o).__mro__ for x in k.__dict__.get('__slots__',()))-{'root','property_data','instance_id','__weakref__','parent'}
    if hasattr(o,'__dict__') and o.__dict__: print(n,o.__dict__)
    out[n]=dict(props=d, stored=bool(getattr(o,'class_id',None)))
    if s: print(n,s)
json.dump(out,open('/verif/pyvc/defaults.json','w'),indent=0,sort_keys=True)
