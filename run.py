#!/usr/bin/env python3
"""Runs one check: run.py PROPERTY --tier quick|thorough

Builds the monitor of the property from /repo's working tree, runs it, and turns
what it saw into a verdict:  exit 0 held, 1 violated (with a VIOLATION line),
2 inconclusive.  See DESIGN.md.
"""
import argparse, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(VERIF, 'target')
EVID = os.path.join(VERIF, 'evidence')
STABLE = 'stable-x86_64-unknown-linux-gnu'
TRIPLE = 'x86_64-unknown-linux-gnu'
NIGHTLY = ('asan', 'tsan')

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


class Inconclusive(Exception):
    pass


def env_for(flavour):
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    if flavour == 'asan':
        e.pop('RUSTUP_TOOLCHAIN', None)
        e['RUSTFLAGS'] = '-Zsanitizer=address'
        e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:halt_on_error=1:'
                             'allocator_may_return_null=1:detect_stack_use_after_return=1')
    elif flavour == 'tsan':
        e.pop('RUSTUP_TOOLCHAIN', None)
        e['RUSTFLAGS'] = '-Zsanitizer=thread'
        e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_thread_leaks=0:history_size=4:second_deadlock_stack=1'
    else:
        e['RUSTUP_TOOLCHAIN'] = STABLE
    return e


CRATES = ('gmatlib', 'geqslib', 'nexsys', 'neapolitan')


def sources():
    """What the sources of the crates contain; cargo itself goes by the time at which they were changed."""
    h = hashlib.sha256()
    for c in CRATES:
        for d, dirs, files in os.walk(os.path.join(REPO, c)):
            dirs[:] = sorted(x for x in dirs if x not in ('target', '.git'))
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    with open(p, 'rb') as data:
                        h.update(repr((p, hashlib.sha256(data.read()).hexdigest())).encode())
    return h.hexdigest()


def cargo(args, flavour, cwd, target):
    e = env_for(flavour)
    e['CARGO_TARGET_DIR'] = target
    cmd = ['cargo']
    # Nothing is taken over from a build of other sources, whatever their times are
    mark, now = os.path.join(target, 'sources-' + os.path.basename(cwd)), sources()
    last = open(mark).read() if os.path.exists(mark) else None
    if last != now and os.path.isdir(target):
        clean = cmd + (['+nightly'] if flavour in NIGHTLY else []) + ['clean', '--offline', '-q'] + (['--target', TRIPLE] if flavour in NIGHTLY else []) + [a for c in CRATES for a in ('-p', c)]
        subprocess.run(clean, cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if flavour in NIGHTLY:
        cmd.append('+nightly')
        args = args + ['--target', TRIPLE]
    if flavour == 'tsan':
        # The standard library synchronizes; the detector has to see how
        args = args + ['-Zbuild-std=std,panic_unwind']
    cmd += args
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        raise Inconclusive('the build failed')
    with open(mark, 'w') as f:
        f.write(now)


def build(spec):
    """Builds the monitor; returns its path and extra environment."""
    flavour = spec.get('flavour', 'stable')
    target = os.path.join(TARGET, flavour)
    cargo(['build', '--offline', '-q', '-p', spec['crate']], flavour, HARNESS, target)
    sub = os.path.join(TRIPLE, 'debug') if flavour in NIGHTLY else 'debug'
    extra = {}
    for pkg, binary in spec.get('tools', []):
        t = os.path.join(TARGET, 'tools')
        cargo(['build', '--offline', '-q', '-p', pkg, '--bin', binary], 'stable', REPO, t)
        extra['VMON_' + binary.upper()] = os.path.join(t, 'debug', binary)
    return os.path.join(target, sub, spec['crate']), flavour, extra


def limits(flavour):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavour not in NIGHTLY:
            resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    return f


def monitor(exe, flavour, extra, prop, seed, scratch, out, args, timeout):
    e = env_for(flavour)
    e.update(extra)
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, prop, '--seed', str(seed), '--scratch', scratch, '--out', out] + args
    errf = os.path.join(scratch, 'stderr')
    with open(errf, 'wb') as ef:
        try:
            r = subprocess.run(cmd, env=e, cwd=scratch, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=ef, timeout=timeout, preexec_fn=limits(flavour))
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = None
    with open(errf, 'rb') as ef:
        err = ef.read().decode('utf-8', 'replace')
    return rc, err, cmd


def crash_signature(rc, err):
    for line in err.splitlines():
        if 'ERROR: AddressSanitizer' in line:
            words = line.split('AddressSanitizer:')[1].split()
            return 'asan:' + words[0]
        if 'WARNING: ThreadSanitizer' in line:
            words = line.split('ThreadSanitizer:')[1].split('(')[0].split()
            return 'tsan:' + '-'.join(words)
    if 'has overflowed its stack' in err:
        return 'crash:stack-overflow'
    if 'memory allocation of' in err:
        return 'crash:allocation'
    if 'panic in a function that cannot unwind' in err or 'cannot unwind' in err:
        return 'crash:panic-across-ffi'
    try:
        return 'crash:' + signal.Signals(-rc).name
    except ValueError:
        return 'crash:%s' % rc


def run_rust(spec, prop, tier, seed, scratch):
    exe, flavour, extra = build(spec)
    cases, seconds = spec[tier]
    out = os.path.join(scratch, 'out.json')
    args = ['--cases', str(cases), '--seconds', str(seconds), '--hang', str(spec.get('hang', 60))]
    if 'threads' in spec:
        args += ['--threads', str(spec['threads'])]
    if tier == 'thorough':
        args.append('--thorough')
    rc, err, cmd = monitor(exe, flavour, extra, prop, seed, scratch, out, args, seconds + 240)
    if rc == 0:
        return json.load(open(out)), cmd
    if rc == 96:
        r = json.load(open(out))
        # A violation that was seen before the harness stumbled still counts.
        if r['failures']:
            return r, cmd
        raise Inconclusive('the monitor itself failed: %s' % r['harness_errors'][:2])
    if flavour == 'tsan' and rc == 66 and 'WARNING: ThreadSanitizer' in err:
        # What it saw did happen, whether or not the threads meet again in the same way
        return {'evaluations': 1, 'cases': 1, 'distinct': 1, 'counts': {}, 'samples': ['a report of the race detector'], 'harness_errors': [],
                'failures': [{'sig': crash_signature(rc, err), 'case': 0, 'detail': err[err.index('WARNING: ThreadSanitizer'):][:3000]}]}, cmd
    if rc is None or rc == 95 or rc == -signal.SIGKILL:
        raise Inconclusive('the monitor gave no answer (rc %s): %s' % (rc, err[-500:]))

    # It crashed or hung: find the case that does it, on its own.
    cands = []
    if rc == 97:
        for line in err.splitlines():
            if line.startswith('HANG case='):
                cands.append(int(line.split('=')[1]))
    else:
        data = open(os.path.join(scratch, 'progress'), 'rb').read()
        for i in range(0, len(data) - 7, 8):
            v = struct.unpack('<Q', data[i:i + 8])[0]
            if v:
                cands.append(v - 1)
    for c in sorted(set(cands)):
        one = ['--cases', str(c + 1), '--only', str(c), '--seconds', '300',
               '--hang', str(spec.get('hang', 60) + 30)]
        if tier == 'thorough':
            one.append('--thorough')
        rc2, err2, cmd2 = monitor(exe, flavour, extra, prop, seed, scratch, out, one, 400)
        if rc2 == 97:
            sig, what = 'hang', 'does not return'
        elif rc2 is not None and (rc2 < 0 or rc2 == 1) and rc2 != -signal.SIGKILL:
            sig, what = crash_signature(rc2, err2), err2[-3000:]
        else:
            continue
        return {'evaluations': c + 1, 'cases': c + 1, 'distinct': 1, 'counts': {}, 'samples': ['case %d' % c],
                'harness_errors': [], 'failures': [{'sig': sig, 'case': c, 'detail': what}]}, cmd2
    raise Inconclusive('the monitor ended with %s, and no single case does it again: %s' % (rc, err[-800:]))


def run_both(spec, prop, tier, seed, scratch):
    """Many cases without the race detector, then fewer with it."""
    merged = None
    for flavour in ('stable', 'tsan'):
        one = dict(spec, flavour=flavour)
        one[tier] = spec[tier + '_' + flavour]
        r, cmd = run_rust(one, prop, tier, seed if flavour == 'stable' else seed + 1_000_003, scratch)
        r['counts'] = {**r['counts'], 'cases with ' + ('the race detector' if flavour == 'tsan' else 'no detector'): r['cases']}
        if merged is None:
            merged = r
        else:
            for k in ('evaluations', 'cases', 'distinct'):
                merged[k] += r[k]
            for k, v in r['counts'].items():
                merged['counts'][k] = merged['counts'].get(k, 0) + v
            merged['failures'] += r['failures']
        if r['failures']:
            break
    return merged, cmd


def run_node(spec, prop, tier, seed, scratch):
    cases, seconds = spec[tier]
    out = os.path.join(scratch, 'out.json')
    cmd = ['node', os.path.join(VERIF, spec['script']), '--property', prop, '--seed', str(seed), '--cases', str(cases),
           '--seconds', str(seconds), '--scratch', scratch, '--out', out]
    try:
        r = subprocess.run(cmd, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=seconds + 120)
    except subprocess.TimeoutExpired:
        raise Inconclusive('the monitor gave no answer in time')
    if r.returncode:
        raise Inconclusive('the monitor failed: ' + r.stdout[-1500:])
    return json.load(open(out)), cmd


def run_cpp(spec, prop, tier, seed, scratch):
    """Compiles the monitor against the C and C++ headers of /repo and links it with its libraries."""
    t = os.path.join(TARGET, 'tools')
    for lib in spec['libs']:
        cargo(['build', '--offline', '-q', '-p', lib, '--lib'], 'stable', REPO, t)
    include = [a for lib in spec['libs'] for a in ('-I', os.path.join(REPO, lib))]
    sanitize = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']

    def compile(cmd):
        r = subprocess.run(cmd, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout

    with open(os.path.join(scratch, 'sane.cpp'), 'w') as f:
        f.write('#include <string>\n#include <stdexcept>\nint main() { return int(std::string().size()); }\n')
    rc, text = compile(['g++', '-std=c++17', 'sane.cpp', '-o', 'sane'] + sanitize)
    if rc:
        raise Inconclusive('the C++ compiler does not work: ' + text[-800:])

    def fails(sig, detail):
        return {'evaluations': 1, 'cases': 1, 'distinct': 1, 'counts': {}, 'samples': [sig], 'harness_errors': [],
                'failures': [{'sig': sig, 'case': 0, 'detail': detail[-3000:]}]}

    headers = 0
    for compiler, stds in (('g++', ['c++11', 'c++14', 'c++17', 'c++20']), ('clang++', ['c++11', 'c++20']), ('gcc', ['c11', 'c17'])):
        if not shutil.which(compiler):
            continue
        for std in stds:
            src = 'all.c' if compiler == 'gcc' else 'all.cpp'
            with open(os.path.join(scratch, src), 'w') as f:
                f.write(''.join('#include "%s.h"\n' % lib for lib in spec['libs']) + 'int main(void) { return 0; }\n')
            cmd = [compiler, '-std=' + std, '-fsyntax-only', src] + include
            rc, text = compile(cmd)
            if rc:
                return fails('header:' + std, text), cmd
            headers += 1

    exe = os.path.join(scratch, 'monitor')
    cpp = os.path.join(VERIF, 'cpp')
    libdir = os.path.join(t, 'debug')
    cmd = ['gcc', '-std=c11', '-g', '-c', os.path.join(cpp, 'cmode.c'), '-o', 'cmode.o'] + spec.get('defines', []) + include
    rc, text = compile(cmd)
    if rc:
        return fails('calls-in-C', text), cmd
    cmd = (['g++', '-std=c++17', os.path.join(cpp, spec['script']), 'cmode.o', '-o', exe] + sanitize + include +
           ['-L' + libdir, '-Wl,-rpath,' + libdir] + ['-l' + lib for lib in reversed(spec['libs'])])
    rc, text = compile(cmd)
    if rc:
        return fails('calls-in-C++', text), cmd

    e = env_for('stable')
    e.update(RUST_BACKTRACE='0', UBSAN_OPTIONS='print_stacktrace=0',
             ASAN_OPTIONS='detect_leaks=0:exitcode=99:max_free_fill_size=65536:allocator_may_return_null=1')
    cases, seconds = spec[tier]
    out, progress = os.path.join(scratch, 'out.json'), os.path.join(scratch, 'progress')

    def go(extra, seconds, timeout):
        cmd = [exe, '--seed', str(seed), '--seconds', str(seconds), '--out', out, '--progress', progress] + extra
        if tier == 'thorough':
            cmd.append('--thorough')
        if os.path.exists(out):
            os.remove(out)
        with open(os.path.join(scratch, 'stderr'), 'wb') as ef:
            try:
                rc = subprocess.run(cmd, env=e, cwd=scratch, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef,
                                    timeout=timeout, preexec_fn=limits('asan')).returncode
            except subprocess.TimeoutExpired:
                rc = None
        with open(os.path.join(scratch, 'stderr'), 'rb') as ef:
            ef.seek(max(0, os.path.getsize(ef.name) - 20000))
            return rc, ef.read().decode('utf-8', 'replace'), cmd

    rc, err, cmd = go(['--cases', str(cases)], seconds, seconds + 60)
    if rc == 0:
        r = json.load(open(out))
        r['counts']['headers compiled'] = headers
        return r, cmd
    if rc == -signal.SIGKILL or not os.path.exists(progress):
        raise Inconclusive('the monitor gave no answer (rc %s): %s' % (rc, err[-500:]))
    case = int(open(progress).read())
    rc2, err2, cmd = go(['--cases', str(case + 1), '--only', str(case)], 60, 90)
    if rc2 == 0 or rc2 == -signal.SIGKILL or (rc is None) != (rc2 is None):
        raise Inconclusive('the monitor ended with %s, and case %d alone with %s: %s' % (rc, case, rc2, err[-800:]))
    if rc2 is None:
        sig = 'hang'
    elif 'runtime error:' in err2:
        sig = 'ubsan'
    else:
        sig = crash_signature(rc2, err2)
    at = max(err2.rfind('ERROR: AddressSanitizer'), err2.rfind('runtime error:') - 200, 0)
    f = fails(sig, '')
    f['failures'][0].update(case=case, detail=err2[at:at + 3000])
    return f, cmd


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    a = ap.parse_args()
    prop, tier, seed = a.property, a.tier, a.seed
    spec = CHECKS[prop]
    os.makedirs(EVID, exist_ok=True)
    begin = time.time()
    scratch = tempfile.mkdtemp(prefix='vmon-%s-' % prop)
    os.chmod(scratch, 0o755)
    try:
        r, cmd = {'node': run_node, 'cpp': run_cpp, 'both': run_both}.get(spec.get('kind'), run_rust)(spec, prop, tier, seed, scratch)
        need = spec.get('need', {})
        short = [] if r['failures'] else [
            '%s=%s' % (k, r['counts'].get(k, 0)) for k in need if r['counts'].get(k, 0) < need[k]]
        if r['evaluations'] == 0 or short:
            raise Inconclusive('too little was observed: %s' % (short or 'nothing'))
    except Inconclusive as e:
        print('INCONCLUSIVE property=%s %s' % (prop, e))
        sys.exit(2)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    known = {(k['property'], k['signature']): k['what'] for k in known}
    for (p, s), what in sorted(known.items()):
        if p == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    fresh = [f for f in r['failures'] if (prop, f['sig']) not in known]

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct'], 'rule': spec['rule'],
            'samples': r['samples'], 'cases': r['cases'], 'observed': r['counts'],
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - begin, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    print('%s %s seed %d: %d cases, %d judgements, %d distinct, %.1f s' % (
        prop, tier, seed, r['cases'], r['evaluations'], r['distinct'], time.time() - begin))
    if fresh:
        replay = os.path.join(EVID, '%s.violation.json' % prop)
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'failures': fresh[:20],
                       'replay': 'python3 /verif/run.py %s --tier %s --seed %d' % (prop, tier, seed),
                       'single_case': ' '.join(cmd) + ' --only %d' % fresh[0]['case']}, f, indent=1)
            f.write('\n')
        for s in fresh[:5]:
            print('  case %s %s: %s' % (s['case'], s['sig'], s['detail'][:1200]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
