import re
d='/verif/harness/app/src/'
out=[]
for m in ('h_wtns','h_synth','h_cmd'):
    try: s=open(d+m+'.rs').read()
    except FileNotFoundError: continue
    for n in re.findall(r'^pub fn (c\d\d_\w+)\(\)',s,re.M): out.append(f'    fn {n}() {{ {m}::{n}() }}\n')
s=open(d+'lib.rs').read()
a=s.index('mod files;')
mods=''.join(f'mod {m};\n' for m in ('files','h_cmd','h_synth','h_wtns') if __import__('os').path.exists(d+m+'.rs'))
s=s[:a]+mods+'\nsy::harnesses! {\n'+''.join(out)+'}\n'
open(d+'lib.rs','w').write(s)
