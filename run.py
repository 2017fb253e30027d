#!/usr/bin/env python3
"""Builds a check from /repo's current tree in a scratch directory and runs it.

usage: run.py <property> [--keep DIR] [--replay FILE] [--repo DIR]
Tier from VERIF_TIER (quick/thorough)."""
import os, sys, subprocess, tempfile, shutil, time, json, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
ALL = list(range(7))
LALL = [-1, 0, 1, 2, 3, 4, 5]

def nl(cfgs, **k):
    return dict(kind='nl', cfgs=cfgs, **k)

def lin(cfgs, **k):
    return dict(kind='lin', cfgs=cfgs, **k)

CHECKS = {
    'C01': nl([-1, 1, 2, 3], tcfgs=[-1] + ALL),
    'C02': nl([-1, 1, 2, 3], tcfgs=[-1] + ALL),
    'C03': nl([-1, 1, 2, 3], tcfgs=[-1] + ALL),
    'C04': nl([-1, 1, 2, 3], tcfgs=[-1] + ALL),
    'C05': nl([-1, 2, 3, 4], tcfgs=[-1] + ALL),
    'C06': dict(kind=['nl', 'lin'], cfgs=[-1, 1, 2], lcfgs=[-1, 0, 1], tcfgs=[-1] + ALL, tlcfgs=LALL),
    'C07': nl([-1, 1, 2, 3], tcfgs=[-1] + ALL),
    'C08': nl([-1, 2, 3, 6], tcfgs=[-1] + ALL),
    'C09': nl([-1, 1, 2, 3], tcfgs=[-1] + ALL),
    'C10': nl([-1, 1, 2, 3], tcfgs=[-1] + ALL),
    'C12': nl([-1, 1, 2], tcfgs=[-1] + ALL),
    'C13': dict(kind=['nl', 'lin'], cfgs=[-1, 1, 2], lcfgs=[-1, 0, 1]),
    'C14': dict(kind=['nl', 'lin'], cfgs=[-1, 1, 2, 3], lcfgs=[-1, 0, 1, 2], tcfgs=[-1] + ALL, tlcfgs=LALL),
    'C15': nl([-1, 2, 3], tcfgs=[-1] + ALL),
    'C16': nl([-1, 1, 3], tcfgs=[-1] + ALL),
    'C11': nl([-1, 2, 3], tcfgs=[-1] + ALL),
    'C17': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C18': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C19': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C20': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C21': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C22': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C23': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C24': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C25': lin([-1, 0, 1, 5], tcfgs=LALL),
    'C26': dict(kind=['nl', 'lin'], cfgs=[-1, 1], lcfgs=[-1, 0]),
    'C27': dict(kind=['lin'], cfgs=[]),
    'C28': dict(kind=[], cfgs=[], opt='-O2'),
    'C29': dict(kind=[], cfgs=[]),
    'C30': dict(kind=[], cfgs=[]),
    'C31': dict(kind=['nl', 'lin'], cfgs=[-1, 1], lcfgs=[-1, 0], opt='-O1', flags=['-fsanitize=address,bounds,bool,enum,integer-divide-by-zero,return', '-fno-omit-frame-pointer', '-g0'],
                env=dict(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=16:alloc_dealloc_mismatch=1', UBSAN_OPTIONS='halt_on_error=1')),
    'C33': dict(kind=['nl', 'lin'], cfgs=[-1], lcfgs=[-1], extra=[('{repo}/python/pybind_export.cpp', 'export'), ('py/adapter.cpp', 'script')]),
    'C32': lin([-1, 0, 1, 5], tcfgs=LALL),
}

def jobs(pid, c, repo, thorough):
    inc = ['-I' + repo + '/include', '-isystem', '/usr/include/eigen3', '-I' + V]
    flags = ['-std=gnu++20', c.get('opt', '-O1'), '-w'] + c.get('flags', [])
    out = []
    def add(src, name, extra=()):
        out.append((['g++'] + flags + inc + list(extra) + ['-c', src if src.startswith('/') else V + '/' + src, '-o', name + '.o'], name + '.o'))
    kinds = [c['kind']] if isinstance(c['kind'], str) else c['kind']
    cfgs = c['cfgs'] if not (thorough and 'tcfgs' in c) else c['tcfgs']
    lcfgs = c.get('lcfgs', cfgs) if not (thorough and 'tlcfgs' in c) else c['tlcfgs']
    for k in kinds:
        if k == 'nl':
            for i in cfgs:
                add('nl/adapter.cpp', 'nl%d' % i, ['-DCFG=%d' % i])
    for src, name in c.get('extra', []):
        add(src.format(repo=os.path.abspath(repo)), name, ['-I' + V + '/py', '-I' + V + '/lin'])
    for k in kinds:
        if k == 'lin':
            for i in lcfgs:
                add('lin/adapter.cpp', 'lin%d' % i, ['-DCFG=%d' % i, '-I' + V + '/lin'])
    add('checks/' + c.get('main', pid.lower()) + '.cpp', 'main', ['-I' + V + '/lin'])
    for k in kinds:
        if k == 'nl':
            add('nl/nl.cpp', 'nl')
            add('nl/shim.cpp', 'shim')
        if k == 'lin':
            add('lin/lin.cpp', 'lin', ['-I' + V + '/lin'])
            add('lin/osqp_stub.cpp', 'stub', ['-I' + V + '/lin'])
    add('mc/mc.cpp', 'mc')
    return out

def main():
    a = sys.argv[1:]
    pid = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    repo = opt.get('--repo', os.environ.get('VERIF_REPO', '/repo'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    c = CHECKS[pid]
    keep = opt.get('--keep')
    tmp = keep or tempfile.mkdtemp(prefix='verif_%s_' % pid)
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(V + '/replays', exist_ok=True)
    child = None
    def bye(*_):
        if child:
            child.kill()
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, bye)
    signal.signal(signal.SIGINT, bye)
    try:
        t0 = time.time()
        js = jobs(pid, c, repo, tier == 'thorough')
        def comp(j):
            if keep and os.environ.get('REUSE') and os.path.exists(tmp + '/' + j[1]) and j[1] != 'main.o' and j[1] not in os.environ['REUSE']:
                return None
            p = subprocess.run(j[0], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return (j, p.stdout) if p.returncode else None
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            errs = [e for e in ex.map(comp, js) if e]
        if errs:
            for j, o in errs:
                print(' '.join(j[0]), '\n' + '\n'.join(o.splitlines()[:30]))
            print('ERROR: the check does not build')
            return 2
        p = subprocess.run(['g++'] + c.get('flags', []) + [j[1] for j in js] + ['-o', 'check'] +
                           c.get('ldflags', []) + ['-lnlopt_cxx', '-ldl', '-lpthread', '-rdynamic'], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout)
            print('ERROR: the check does not link')
            return 2
        print('built in %.1f s' % (time.time() - t0), flush=True)
        env = dict(os.environ)
        env.update(c.get('env', {}))
        env.update(VERIF_TIER=tier, MC_EVIDENCE=V + '/evidence/%s.json' % pid, MC_KNOWN=V + '/KNOWN_FINDINGS.txt',
                   MC_REPLAY_OUT=V + '/replays/%s.txt' % pid)
        env.setdefault('VERIF_SEED', '1')
        env.setdefault('MC_CAP', '400' if tier == 'quick' else '3000')
        args = ['./check']
        if '--replay' in opt:
            args += ['--replay', os.path.abspath(opt['--replay'])]
        child = subprocess.Popen(args, cwd=tmp, env=env)
        rc = child.wait()
        child = None
        return rc if rc in (0, 1) else 2
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
