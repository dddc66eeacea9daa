#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'what' FILE OLD NEW [FILE OLD NEW ...]: writes seeded/ID/patch.diff and meta.json (demo.sh by hand); works on a clone."""
import sys, json, os, subprocess, shutil
id, prop, needs, what = sys.argv[1:5]; ed = sys.argv[5:]
d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
W = '/tmp/mkseed_clone'; shutil.rmtree(W, ignore_errors=True)
subprocess.run(['git','clone','-q','/repo',W],check=True)
for i in range(0, len(ed), 3):
    f = W + '/pygrt/C_extension/src/' + ed[i]; s = open(f).read()
    assert s.count(ed[i+1]) == 1, (ed[i], s.count(ed[i+1]), ed[i+1])
    open(f, 'w').write(s.replace(ed[i+1], ed[i+2]))
open(d + '/patch.diff','w').write(subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True).stdout)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json','w'), indent=1)
shutil.rmtree(W)
