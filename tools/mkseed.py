"""mkseed.py FILE: writes planted bugs described by a Python file defining SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo, stubs=bool, flags)]."""
import json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
S = '/tmp/sd'
subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
subprocess.check_call(['git', '-C', S, 'pull', '-q', '--ff-only', '/repo', 'HEAD'])
for s in ns['SEEDS']:
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = os.path.join(S, 'src', f); t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', S, 'diff'], text=True))
    subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    stub = ''
    if s.get('stubs'):
        shutil.copytree('/verif/stubs', d + '/stubs', dirs_exist_ok=True); stub = ' -I "$d/stubs"'
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Exits with 0 iff the property holds. Run in the repository after building it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r -- "$t"' EXIT
mkdir "$t/inc" && ln -s "$PWD/src" "$t/inc/sharemind" || exit 2
g++ -std=c++14 -O1 -g -pthread %s -I "$t/inc"%s "$d/demo.cpp" -o "$t/demo" -latomic || exit 2
timeout 100 "$t/demo"
''' % (s.get('flags', ''), stub))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
