#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specs in specs_*.py and confirms each in a scratch worktree of /repo.

usage: mk.py [id ...]   (default: the specs without a folder, or whose folder is older)
Not used by any check."""
import importlib.util, json, os, shutil, subprocess, sys, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
BASE = 'a9c9a28'

def sh(cmd, cwd=None, env=None, timeout=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, executable='/bin/bash')
    return r.returncode, r.stdout

def specs():
    res = {}
    for f in sorted(glob.glob(HERE + '/specs_*.py')):
        s = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for b in m.BUGS:
            res[b['id']] = b
    return res

def main():
    all_ = specs()
    ids = sys.argv[1:] or [i for i in all_ if not os.path.exists(f'{OUT}/{i}/patch.diff')]
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if False else None
    wt = tempfile.mkdtemp(prefix='seedwt')
    os.rmdir(wt)
    rc, o = sh(f'git -C /repo worktree add --detach {wt} HEAD')
    assert rc == 0, o
    try:
        for i in ids:
            print(i, '...', build(i, all_[i], wt), flush=True)
    finally:
        sh(f'git -C /repo worktree remove --force {wt}')
        sh('git -C /repo worktree prune')

V4 = 'github.com/yoheimuta/go-protoparser/v4'
PKGS = {'filepath': 'path/filepath', 'bytes': 'bytes', 'errors': 'errors', 'fmt': 'fmt', 'io': 'io', 'json': 'encoding/json', 'os': 'os', 'exec': 'os/exec', 'strings': 'strings', 'sync': 'sync', 'time': 'time', 'runtime': 'runtime', 'debug': 'runtime/debug',
  'protoparser': V4, 'parser': V4 + '/parser', 'scanner': V4 + '/lexer/scanner', 'meta': V4 + '/parser/meta', 'lexer': V4 + '/lexer'}

def imports(src):
    """Rewrites the imports of a demonstration so that they are what it uses."""
    import re
    body = re.sub(r'^package main\s*', '', src)
    body = re.sub(r'^import \((.*?)\n\)\s*', '', body, flags=re.S)
    body = re.sub(r'^(import "[^"]*"\s*)+', '', body)
    code = re.sub(r'"(\\.|[^"\\\n])*"|`[^`]*`', '""', body)
    used = sorted((PKGS[n], n) for n in PKGS if re.search(r'(?<![\w.])' + n + r'\.[A-Z]', code))
    lines = [('\tprotoparser ' if n == 'protoparser' else '\t') + '"' + p + '"' for p, n in used]
    return 'package main\n\n' + ('import (\n' + '\n'.join(lines) + '\n)\n\n' if lines else '') + body

def build(i, b, wt):
    sh('git checkout -q -- . && git clean -fdq', cwd=wt)
    for f, old, new in b['edits']:
        p = f'{wt}/{f}'
        s = open(p).read()
        if s.count(old) != 1:
            return f'EDIT: {f}: {s.count(old)} matches of {old[:60]!r}'
        # every replaced line must be an original one
        open(p, 'w').write(s.replace(old, new))
    rc, o = sh('. /opt/vp/env.sh; gofmt -l . | grep -v _testdata; go build ./... && (cd _example/dump 2>/dev/null && go build -o /dev/null .)', cwd=wt)
    if rc != 0 or o.strip():
        return 'BUILD: ' + o[-1500:]
    rc, diff = sh('git diff', cwd=wt)
    # original lines
    minus = 0
    for f in {e[0] for e in b['edits']}:
        rc, d = sh(f'git diff -U0 -- {f}', cwd=wt)
        for line in d.splitlines():
            if line.startswith('@@'):
                a = line.split()[1][1:]
                st, _, n = a.partition(',')
                n = int(n) if n else 1
                if n == 0:
                    continue
                rc, bl = sh(f'git blame -s -L {st},+{n} {BASE}..HEAD -- {f}', cwd='/repo')
                for l in bl.splitlines():
                    minus += 1
                    if not l.startswith('^'):
                        return 'NOT ORIGINAL: ' + l
    if minus == 0 and not os.environ.get('INSERT'):
        return 'NO ORIGINAL LINE CHANGED'
    rc, o = sh('. /opt/vp/env.sh; go test ./... 2>&1 | grep -v "no test files"', cwd=wt)
    if 'FAIL' in o:
        return 'TESTS FAIL: ' + '\n'.join(l for l in o.splitlines() if 'FAIL' in l or 'got' in l)[:1500]
    d = f'{OUT}/{i}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    demo = open(HERE + '/demo.sh').read()
    if b.get('flags'):
        demo = demo.replace('here="$(cd', f'DEMO_BUILD_FLAGS="{b["flags"]}"\nhere="$(cd', 1)
    if b.get('timeout'):
        demo = demo.replace('here="$(cd', f'DEMO_TIMEOUT={b["timeout"]}\nhere="$(cd', 1)
    open(d + '/demo.sh', 'w').write(demo)
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(HERE + '/h.go.txt', d)
    open(d + '/main.go.txt', 'w').write(imports(b['demo'].lstrip()))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    rc1, o1 = sh(f'{d}/demo.sh', cwd=wt)
    sh('git checkout -q -- .', cwd=wt)
    rc0, o0 = sh(f'{d}/demo.sh', cwd=wt)
    if rc0 != 0 or rc1 == 0 or 'FAIL' not in o1 and not b.get('crash'):
        shutil.rmtree(d)
        return f'DEMO: clean rc={rc0} {o0[-500:]}; patched rc={rc1} {o1[-800:]}'
    return 'ok: ' + o1.strip().splitlines()[0][:150]

if __name__ == '__main__':
    main()
