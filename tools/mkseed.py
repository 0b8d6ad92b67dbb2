"""mkseed.py SPEC...: turn a seed specification into /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json).
A specification is a text file <id> with sections introduced by lines
  %property Cxx / %needs text / %breaks text / %edit path (then old text, '===', new text) / %demo (C++ program, exit status is the verdict)
"""
import sys, os, re, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour the property promises; non-zero: it is broken. Works in a scratch folder of its own.
here=$(cd "$(dirname "$0")" && pwd); src=$PWD/src/lpaggreg; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -std=gnu++11 -O1 -w @FLAGS@ -I"$src/headers" -I"$src/sources" "$here/demo.cpp" @SOURCES@ -o "$d/demo" || exit 3
timeout 120 "$d/demo"
'''
for spec in sys.argv[1:]:
    sid = os.path.basename(spec)
    parts = re.split(r'^%(\w+)[ \t]*(.*)\n', open(spec).read(), flags=re.M)[1:]
    secs = [(parts[i], parts[i + 1].strip(), parts[i + 2]) for i in range(0, len(parts), 3)]
    d = tempfile.mkdtemp()
    edits, meta, demo, flags, sources = [], {}, None, '', '"$src"/sources/*.cpp'
    for k, a, b in secs:
        if k == 'property': meta['property'] = a
        elif k == 'needs': meta['needs'] = (a + ' ' + b).strip()
        elif k == 'breaks': meta['what_it_breaks'] = (a + ' ' + b).strip()
        elif k == 'flags': flags = a
        elif k == 'sources': sources = ' '.join('"$src"/sources/' + x for x in a.split())
        elif k == 'edit': edits.append((a, *b.split('\n===\n', 1)))
        elif k == 'demo': demo = b
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
    for f, old, new in edits:
        p = d + '/r/' + f
        s = open(p).read()
        old, new = old.strip('\n'), new.strip('\n')
        assert s.count(old) == 1, (sid, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', d + '/r', 'diff'], text=True)
    shutil.rmtree(d)
    o = V + '/seeded/' + sid
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.cpp', 'w').write(demo)
    open(o + '/demo.sh', 'w').write(DEMO.replace('@FLAGS@', flags).replace('@SOURCES@', sources))
    os.chmod(o + '/demo.sh', 0o755)
    json.dump(meta, open(o + '/meta.json', 'w'), indent=1)
    print('made', sid)
