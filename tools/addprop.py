import sys
# addprop.py "<python dict line>"
p='/verif/tools/props.py'; s=open(p).read()
line=sys.argv[1]
key=line.split(':')[0].strip()
ls=[l for l in s.split('\n') if not l.startswith(' '+key+':')]
i=[k for k,l in enumerate(ls) if l.startswith('PROPS')][0]
ls.insert(i+1,' '+line)
open(p,'w').write('\n'.join(ls))
