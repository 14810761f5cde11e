#!/usr/bin/env python3
"""Driver of the model-checking harnesses.

  python3 run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--shards N]

Copies the sources of /repo/pyamf (working tree) into a scratch directory,
starts N Jython workers that each explore one shard of the bounded space of
checks/<property>.py, merges what they report, rewrites
evidence/<property>.json and prints the verdict:

  exit 0                       held on everything explored
  exit 1 + VIOLATION line      broken
"""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEPS = '/opt/pyamf-deps'
JAVA = [
    'java', '-Xss8m', '-Xms256m', '-Xmx2200m', '-XX:+UseSerialGC',
    '-XX:+UnlockDiagnosticVMOptions', '-XX:-BytecodeVerificationRemote',
    '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar',
    '-Dpython.home=/usr/share/jython',
    '-Dpython.executable=/usr/share/jython/bin/jython',
    '-Dpython.cachedir.skip=true',
    'org.python.util.jython', '-B',
]
HARD_LIMIT = {'quick': 780, 'thorough': 7200}


def copy_sources(dst):
    """The python sources of the package under test, nothing compiled."""
    src = os.path.join(REPO, 'pyamf')

    def ignore(d, names):
        out = []
        for n in names:
            p = os.path.join(d, n)
            if os.path.isdir(p):
                if n == '__pycache__':
                    out.append(n)
            elif not n.endswith('.py'):
                out.append(n)
        return out

    shutil.copytree(src, os.path.join(dst, 'pyamf'), ignore=ignore)
    ver = os.path.join(dst, 'pyamf', '_version.py')
    if not os.path.exists(ver):
        with open(ver, 'w') as f:
            f.write('from pyamf.versions import Version\n'
                    'version = Version(*(0, 8, 0))\n')


def load_known(prop):
    """known_findings.txt: sig -> description (only 'known:' lines)."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.rstrip('\n')
                if not line.startswith('known: '):
                    continue
                head, _, desc = line[len('known: '):].partition(' -- ')
                p, _, sig = head.partition(' ')
                if p == 'property=' + prop:
                    out[sig.strip()[len('sig='):]] = desc
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int)
    ap.add_argument('--verbose', type=int, default=0)
    a = ap.parse_args()
    prop = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    mods = glob.glob(os.path.join(HERE, 'checks', prop.lower() + '_*.py'))
    if len(mods) != 1:
        print('no harness for', prop, file=sys.stderr)
        return 2
    modname = os.path.basename(mods[0])[:-3]
    nshards = a.shards or 8
    with open(mods[0]) as f:
        for line in f:
            if line.startswith('# shards:') and not a.shards:
                nshards = int(line.split(':')[1])
    only = None
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        only = rep.get('case')
        tier = rep.get('tier', tier)

    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    procs = []

    def cleanup(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    def on_term(*_):
        cleanup()
        os._exit(2)

    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    try:
        return explore(prop, tier, seed, modname, nshards, only, scratch,
                       procs, t0, a.verbose, bool(a.replay))
    finally:
        cleanup()


def explore(prop, tier, seed, modname, nshards, only, scratch, procs, t0,
            verbose, replaying):
    copy_sources(scratch)
    env = {
        'PATH': '/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin',
        'HOME': scratch, 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
        'PYTHONDONTWRITEBYTECODE': '1',
        'JYTHONPATH': ':'.join([scratch, DEPS, os.path.join(HERE, 'lib'),
                                os.path.join(HERE, 'checks')]),
    }
    limit = HARD_LIMIT[tier]
    outs = []
    for s in range(nshards):
        out = os.path.join(scratch, 'out-%d.json' % s)
        outs.append(out)
        wd = os.path.join(scratch, 'w%d' % s)
        os.mkdir(wd)
        cfg = dict(prop=prop, tier=tier, seed=seed, shard=s, nshards=nshards,
                   module=modname, out=out, only=only, work=wd, limit=limit,
                   scratch=scratch)
        e = dict(env, VERIF_CFG=json.dumps(cfg))
        procs.append(subprocess.Popen(
            JAVA[:1] + (['-XX:TieredStopAtLevel=1'] if tier == 'quick' else [])
            + JAVA[1:] + [os.path.join(HERE, 'lib', 'worker.py')], env=e, cwd=wd,
            stdin=subprocess.DEVNULL,
            stdout=open(os.path.join(scratch, 'log-%d' % s), 'wb'),
            stderr=subprocess.STDOUT, start_new_session=True))
    deadline = t0 + limit + 60
    for p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()

    violations, samples, bounds, caps, assumptions = [], [], {}, [], []
    transitions = traces = 0
    hashes = set()
    outcomes = set()
    extra = {}
    errors = []
    for s, (p, out) in enumerate(zip(procs, outs)):
        try:
            with open(out) as f:
                r = json.load(f)
        except Exception:
            with open(os.path.join(scratch, 'log-%d' % s), 'rb') as f:
                log = f.read().decode('utf-8', 'replace')[-3000:]
            errors.append('shard %d ended with %s without a report:\n%s' % (
                s, p.returncode, log))
            continue
        if verbose:
            with open(os.path.join(scratch, 'log-%d' % s), 'rb') as f:
                sys.stderr.write(f.read().decode('utf-8', 'replace'))
            sys.stderr.write('shard %d: %.1fs transitions=%d\n' % (
                s, r['wall'], r['transitions']))
        violations += r['violations']
        for x in r['samples']:
            if len(samples) < 8 and x not in samples:
                samples.append(x)
        bounds.update(r['bounds'])
        caps += [c for c in r['caps'] if c not in caps]
        assumptions += [x for x in r['assumptions'] if x not in assumptions]
        transitions += r['transitions']
        traces += r['traces']
        hashes.update(r['states'])
        outcomes.update(r['outcomes'])
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
        if r.get('error'):
            errors.append('shard %d: %s' % (s, r['error']))

    # A harness that cannot even run against the tree (the package fails to
    # import, a primitive it needs raises): the behaviour it decides is gone.
    for e in errors:
        violations.append(dict(
            sig='harness-cannot-complete', case=None,
            message='the harness could not complete against this tree: ' + e))

    known = load_known(prop)
    seen_known, fresh = {}, []
    for v in violations:
        if v['sig'] in known:
            seen_known[v['sig']] = known[v['sig']]
        else:
            fresh.append(v)

    for sig in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s [%s]' % (
            prop, seen_known[sig], sig))

    cov = dict(
        states=len(hashes), transitions=transitions,
        traces_validated_against_impl=traces,
        distinct_outcomes=len(outcomes),
        samples=samples or ['(none)'],
        exhaustive=not caps and not errors and only is None and not fresh,
        bounds=bounds, caps=caps, shards=nshards,
        known_findings_seen=sorted(seen_known))
    cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not replaying:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        os.replace(tmp, os.path.join(HERE, 'evidence', '%s.json' % prop))

    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d '
          'wall=%.1fs caps=%s' % (prop, tier, len(hashes), transitions,
                                  traces, len(outcomes), time.time() - t0,
                                  caps))
    if not fresh:
        return 0

    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    fresh.sort(key=lambda v: (len(v.get('message', '')), v['sig']))
    sigs = set()
    n = 0
    if verbose:
        for v in fresh[:verbose]:
            sys.stderr.write('  * %s: %s\n' % (v['sig'], v['message'][:700]))
    for v in fresh:
        if v['sig'] in sigs or n >= 5:
            continue
        sigs.add(v['sig'])
        n += 1
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump(dict(
                property=prop, tier=tier, seed=seed, case=v.get('case'),
                sig=v['sig'], message=v['message'], data=v.get('data'),
                reproduce='cd %s && python3 run.py %s --replay %s' % (
                    HERE, prop, path)), f, indent=1)
            f.write('\n')
        print('  %s: %s' % (v['sig'], v['message'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    return 1


if __name__ == '__main__':
    sys.exit(main())
