#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specs in seed_bugs.py: applies each change to a scratch copy of /repo,
keeps it only if it builds, passes the existing tests, and its demonstration fails with it and passes without."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seed_bugs import BUGS

WT = '/tmp/seedwt'
OUT = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# Runs demo_test.go as a test of the root package; cwd is the repository.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" >"$t/overlay.json"
go test -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 -vet=off -timeout 120s .
'''
HEAD = '''package openapi_test

import (
%s
)

'''
KNOWN = {
    'json.': 'encoding/json', 'reflect.': 'reflect', 'strings.': 'strings', 'errors.': 'errors', 'fmt.': 'fmt',
    'openapi.': 'github.com/swaggest/openapi-go', 'openapi3.': 'github.com/swaggest/openapi-go/openapi3',
    'openapi31.': 'github.com/swaggest/openapi-go/openapi31', 'jsonschema.': 'github.com/swaggest/jsonschema-go',
    'multipart.': 'mime/multipart', 'bytes.': 'bytes',
}


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ, GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=mod', GOPROXY='off')
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)


def main():
    only = sys.argv[1:]
    shutil.rmtree(WT, ignore_errors=True)
    sh(f'cp -a /repo {WT}')
    base = None
    for b in BUGS:
        if only and b['id'] not in only or b.get('skip'):
            continue
        sh('git checkout -q -- .', WT)
        bad = False
        for f, old, new in b['edits']:
            p = os.path.join(WT, f)
            s = open(p).read()
            n = s.count(old)
            if n == 0 or (n > 1 and not b.get('first')):
                print(b['id'], 'edit matches', n, 'times:', f, old[:60]); bad = True; break
            open(p, 'w').write(s.replace(old, new, 1))
        if bad:
            continue
        r = sh('go build ./... && go vet . ./openapi3 ./openapi31 ./internal', WT)
        if r.returncode:
            print(b['id'], 'does not build', r.stderr[-800:]); continue
        r = sh('go test -vet=off -count=1 ./...', WT)
        if r.returncode:
            print(b['id'], 'fails existing tests', [l for l in r.stdout.splitlines() if l.startswith('--- FAIL')]); continue
        d = os.path.join(OUT, b['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git diff', WT).stdout)
        body = b['demo']
        imps = ['testing'] + sorted(v for k, v in KNOWN.items() if any(
            (body.find(k, i) >= 0) for i in [0]) and __import__('re').search(r'(?<![\w.])' + __import__('re').escape(k), body))
        open(d + '/demo_test.go', 'w').write(HEAD % '\n'.join('\t"%s"' % i for i in imps) + body.strip() + '\n')
        sh(f'gofmt -w {d}/demo_test.go')
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r1 = sh(f'bash {d}/demo.sh', WT)
        r0 = sh(f'bash {d}/demo.sh', '/repo')
        ok = r0.returncode == 0 and r1.returncode != 0 and 'build failed' not in r1.stdout
        print(b['id'], b['property'], 'OK' if ok else 'DEMO WRONG', r0.returncode, r1.returncode)
        if not ok:
            print(r0.stdout[-1500:], r1.stdout[-1500:])
            shutil.rmtree(d)
        elif os.environ.get('V'):
            print(r1.stdout[-600:])
    shutil.rmtree(WT, ignore_errors=True)


main()
