import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()
C={l.split(' ',1)[1]:l.split(' ',1)[0] for l in log}
def cm(sub):
    m=[h for s,h in C.items() if sub in s]
    assert len(m)==1,(sub,m)
    return m[0]
out=[]
def op(p,key,what): out.append(dict(property=p,status='open',key=key,what=what))
def fx(p,sub,what):
    c=cm(sub); out.append(dict(property=p,status='fixed',commit=c,what=what,entry='fixed: property=%s %s %s'%(p,c,what)))
exec(open('/verif/tools/findings.py').read())
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
