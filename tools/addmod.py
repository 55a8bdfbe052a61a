import sys,re
# addmod.py module feature name:func ...   registers harness models
mod,feat=sys.argv[1:3]
p='/verif/harness/src/main.rs'; s=open(p).read()
if 'mod %s;'%mod not in s:
    s=s.replace('fn make(name','#[cfg(feature = "%s")]\nmod %s;\n\nfn make(name'%(feat,mod),1)
for n in sys.argv[3:]:
    if '"%s" =>'%n not in s:
        s=s.replace('        _ => return None,','        #[cfg(feature = "%s")]\n        "%s" => %s::%s(),\n        _ => return None,'%(feat,n,mod,n),1)
open(p,'w').write(s)
