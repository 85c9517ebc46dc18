#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--case N] [--cases N] [--seed N]

Builds the utilities and the runtime monitor from /repo's working tree, in a
scratch directory that is removed again, runs the monitor, and passes its
verdict on: exit 0 (held on everything run), exit 1 with a VIOLATION line,
anything else (an error of the check itself).
"""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PKG = 'internal/verifmon'
CORE = ['core.go', 'gen.go', 'exec.go']
# per property: monitor files, utilities it runs, race detector?
PLAN = json.load(open(os.path.join(VERIF, 'plan.json')))


def env():
    e = dict(os.environ)
    for k in ('GOWORK', 'GOENV', 'GOOS', 'GOARCH', 'GOPATH', 'GOMODCACHE', 'GOCACHE', 'GOEXPERIMENT'):
        e.pop(k, None)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
             PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    return e


def build(args, tmp):
    p = subprocess.run(['go', 'build', '-modfile', os.path.join(tmp, 'go.mod')] + args, cwd=REPO, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', default=None)
    ap.add_argument('--case', type=int, default=None)
    ap.add_argument('--cases', type=int, default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = a.seed or os.environ.get('VERIF_SEED') or '1'
    if not seed.isdigit():
        seed = '1'
    plan = PLAN[a.prop]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif-', dir='/tmp')
    os.chmod(tmp, 0o755)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    try:
        sys.exit(run(a, plan, tier, seed, tmp))
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', tmp], stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, plan, tier, seed, tmp):
    for f in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(REPO, f), tmp)
    bindir = os.path.join(tmp, 'bin')
    os.mkdir(bindir, 0o755)
    jobs = []
    for c in plan.get('cmds', []):
        race = ['-race'] if c.endswith('.race') else []
        jobs.append(race + ['-o', os.path.join(bindir, c), './cmd/' + c.split('.')[0]])
    mon = os.path.join(tmp, 'mon')
    variants = plan.get('variants') or [{'files': plan['files'], 'tags': ''}]
    if jobs:
        for j in jobs:
            rc, out = build(j, tmp)
            if rc:
                print(out)
                print('ERROR: /repo does not build')
                return 3
    for v in variants:
        files = v['files']
        overlay = {'Replace': {os.path.join(REPO, PKG, f): os.path.join(VERIF, 'mon', f) for f in CORE + files}}
        for dst, src in v.get('inpkg', {}).items():
            overlay['Replace'][os.path.join(REPO, dst)] = os.path.join(VERIF, 'mon', 'inpkg', src)
        ov = os.path.join(tmp, 'overlay.json')
        json.dump(overlay, open(ov, 'w'))
        args = ['-overlay', ov, '-tags', v['tags'], '-o', mon] + (['-race'] if plan.get('race') else []) + ['./' + PKG]
        rc, out = build(args, tmp)
        if rc == 0:
            break
    if rc:
        print(out)
        print('ERROR: the monitor does not build against /repo')
        return 3
    os.chmod(mon, 0o755)
    scratch = os.path.join(tmp, 's')
    os.mkdir(scratch, 0o755)
    cmd = [mon, '-prop', a.prop, '-tier', tier, '-seed', seed, '-bin', bindir, '-scratch', scratch,
           '-known', os.path.join(VERIF, 'known_findings.jsonl'),
           '-replaycmd', 'VERIF_SEED=%s python3 /verif/check.py %s --tier %s' % (seed, a.prop, tier)]
    if a.case is None and a.cases is None:
        cmd += ['-evidence', os.path.join(VERIF, 'evidence', a.prop + '.json')]
    if a.case is not None:
        cmd += ['-case', str(a.case)]
    if a.cases is not None:
        cmd += ['-cases', str(a.cases)]
    p = subprocess.run(cmd, cwd=scratch)
    return p.returncode if p.returncode >= 0 else 3


main()
