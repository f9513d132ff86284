# used by hand to write /verif/seeded/<id>: seed(id, property, needs, breaks, [(file, old, new)], demo)
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))


def seed(id, prop, needs, breaks, edits, demo):
    out = os.path.join(HERE, '..', 'seeded', id)
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    w = tempfile.mkdtemp()
    try:
        diff = ''
        files = {}
        for (f, old, new) in edits:
            s = files.setdefault(f, open('/repo/' + f).read())
            assert s.count(old) == 1, (id, f, s.count(old), old)
            files[f] = s.replace(old, new)
        for f in sorted(files):
            open(w + '/x', 'w').write(files[f])
            d = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/repo/' + f, w + '/x'],
                               stdout=subprocess.PIPE, universal_newlines=True).stdout
            assert d
            diff += d
    finally:
        shutil.rmtree(w)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.py', 'w').write('# -*- coding: utf-8 -*-\nfrom lib import *\n\n' + demo.strip() + '\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
    shutil.copy(HERE + '/seedlib/lib.py', out)
    shutil.copy(HERE + '/seedlib/demo.sh', out)
    os.chmod(out + '/demo.sh', 0o755)
    shutil.copytree(HERE + '/../stubs', out + '/stubs', ignore=shutil.ignore_patterns('*.class', '__pycache__'))
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', out + '/patch.diff'], check=True)
