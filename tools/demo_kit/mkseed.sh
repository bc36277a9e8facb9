#!/bin/bash
# mkseed.sh ID: completes seeded/ID (main.rs, patch.diff, meta.json are written by hand) with the shared demo files;
# Cargo.toml keeps only the dependencies main.rs and kit.rs name
d=/verif/seeded/$1; k=$(cd "$(dirname "$0")" && pwd)
cp "$k/kit.rs" "$k/demo.sh" "$d/"
python3 - "$k/Cargo.toml" "$d" <<'P'
import re,sys
t=open(sys.argv[1]).read(); d=sys.argv[2]
src=open(d+'/main.rs').read()+open(d+'/kit.rs').read()
out=[];dep=False
for l in t.splitlines():
    if l.startswith('['): dep=l=='[dependencies]'
    m=re.match(r'([a-z0-9-]+) = ',l)
    if dep and m and not re.search(r'\b'+m[1].replace('-','_')+r'(::|!)',src): continue
    out.append(l)
open(d+'/Cargo.toml','w').write('\n'.join(out)+'\n')
P
