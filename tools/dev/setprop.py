import sys,re
# usage: setprop(ID, dict(...)) replaces check kwargs (the "**_todo())" or explicit)
def setprop(id, **kw):
    p='/verif/tools/meta.py'; s=open(p).read()
    i=s.index('prop("%s"'%id); j=s.index('**_todo())',i); k=s.find('\nprop("',i+5)
    assert k<0 or j<k, id
    body=",\n     ".join("%s=%r"%(a,b) for a,b in kw.items())
    s=s[:j]+body+")"+s[j+len('**_todo())'):]
    open(p,'w').write(s)
