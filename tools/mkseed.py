"""Helper used while writing seeded bugs: builds seeded/<id>/ from edits, and tries them out.
   A spec file defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++), optional SAN, ENV, RUN."""
import os, sys, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# Builds the library sources of the current directory with the demonstration and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export CXX="g++ -std=c++11 -w -fopenmp -g @FLAGS@ -I$R" T R
ls $R/*.cpp $R/reordering/*.cpp $R/synk/*.cpp | grep -v loadimba | xargs -P 8 -n 1 bash -c 'f=$0; o=$T/$(echo ${f#$R/} | tr / _).o; $CXX -c $f -o $o' || exit 2
$CXX -c $D/demo.cpp -o $T/demo_main.o || exit 2
$CXX -o $T/demo $T/*.o || exit 2
cd $T
export ASAN_OPTIONS=detect_leaks=@LEAK@:exitcode=99 OMP_NUM_THREADS=${OMP_NUM_THREADS:-4}
@ENV@
timeout 120 ./demo
rc=$?
[ $rc -eq 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
'''
def main(spec):
    g = {'SAN': '-O1 -fsanitize=address', 'ENV': '', 'LEAK': '0', 'SH': None, 'FILES': {}}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['ID']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('MKREPO', '/repo'), w + '/r'])
        for f, old, new in g['EDITS']:
            p = os.path.join(w, 'r', f); s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(g['DEMO'])
        for n, c in g['FILES'].items(): open(os.path.join(d, n), 'w').write(c)
        open(d + '/demo.sh', 'w').write((g['SH'] or DEMO_SH).replace('@FLAGS@', g['SAN']).replace('@ENV@', g['ENV']).replace('@LEAK@', g['LEAK']))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        ok = subprocess.run(['bash', d + '/demo.sh'], cwd=os.environ.get('MKREPO', '/repo'), capture_output=True, text=True)
        bad = subprocess.run(['bash', d + '/demo.sh'], cwd=w + '/r', capture_output=True, text=True)
        print(g['ID'], 'unchanged:', ok.returncode, 'patched:', bad.returncode, '' if ok.returncode == 0 and bad.returncode not in (0, 2) else 'BAD DEMO')
        if ok.returncode: print(ok.stdout[-1500:], ok.stderr[-1500:])
        if bad.returncode in (0, 2): print(bad.stdout[-1500:], bad.stderr[-1500:])
        if '-v' in sys.argv: print(bad.stdout[-800:], bad.stderr[-800:])
        # which checks see it
        if '-n' not in sys.argv:
            for c in sorted(os.listdir(V + '/checks')) if '-a' in sys.argv else [g['PROPERTY'] + '.py']:
                if not os.path.exists(V + '/checks/' + c): continue
                r = subprocess.run(['python3', V + '/checks/' + c, 'quick'], cwd=V, capture_output=True, text=True, env=dict(os.environ, SPMP_REPO=w + '/r'))
                print('  check', c, 'exit', r.returncode, [l for l in r.stdout.splitlines() if l.startswith('  ')][:3])
        if '-t' in sys.argv:
            pass
    finally:
        shutil.rmtree(w)
main(sys.argv[1])
