#!/usr/bin/env python3
"""check.py PROPERTY            decide one property for /repo's current tree (tier: VERIF_TIER)
   check.py --setup             build everything
   check.py --replay FILE       run the counterexample in FILE against the real code again
Exit: 0 held on everything explored, 1 violation, 2 the check itself could not run."""
import fcntl, glob, hashlib, json, os, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RESSA_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
for v in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
    ENV.pop(v, None)

CODES = {
    1: 'the tree is not the one the source means', 2: 'a valid source is rejected', 3: 'an invalid source is accepted',
    4: 'parsing goes on without end', 5: 'the parser goes on after its end',
    6: 'the position of an error is not the position of a token of the source', 7: 'the error blames a place behind the first unacceptable token',
    8: 'the error blames a place before the part that fails', 9: 'a comment is not delivered once and in order', 10: 'something that is no comment is delivered',
    11: 'the ways of starting a parse disagree', 12: 'tolerant parsing rejects or changes what normal parsing accepts',
    13: 'a strict script and a module disagree on acceptance', 14: 'a strict script and a module disagree on the tree',
}
MODES = {'s': 'script', 'm': 'module', 't': 'tolerant script', 'u': 'tolerant module'}


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(root) for f in fs
            if '/target' not in d and '/.git' not in d)
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read() + b'\0')
    return h.hexdigest()


def cargo_all(jobs):
    run = []
    for args, cwd, target, what in jobs:
        log = open(target + '.log', 'w+')
        run.append((subprocess.Popen(['cargo'] + args, cwd=cwd, env=dict(ENV, CARGO_TARGET_DIR=target), stdout=log, stderr=subprocess.STDOUT), log, what))
    failed = None
    for p, log, what in run:
        if p.wait() and not failed:
            log.seek(0)
            failed = (log.read(), what)
    if failed:
        print(failed[0][-3000:])
        die('cannot build ' + failed[1])


def build():
    """-> (engine, .ll, replay); rebuilt whenever a source differs from what was built."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        eng, sym, nat = (os.path.join(BUILD, x) for x in ('engine', 'sym', 'native'))
        srcs = [os.path.join(REPO, x) for x in ('src', 'Cargo.toml')] + [os.path.join(HERE, x) for x in ('engine/src', 'engine/Cargo.toml', 'sym', 'native', 'tools/scn.json')]
        key = tree_hash(srcs)
        stamp = os.path.join(BUILD, 'stamp')
        engine, replay = eng + '/release/engine', nat + '/release/replay'
        find = lambda: max(glob.glob(sym + '/release/deps/symmain-*.ll'), key=os.path.getmtime, default=None)
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(engine) and os.path.exists(replay) and find():
            return engine, find(), replay
        if os.path.exists(stamp):
            os.remove(stamp)
        for f in glob.glob(sym + '/release/deps/symmain-*.ll'):
            os.remove(f)
        # cargo goes by modification times, which a restored tree need not have changed
        for d, t, ps in ((HERE + '/sym', sym, ('ressa', 'harness')), (HERE + '/native', nat, ('ressa', 'harness', 'replay'))):
            if os.path.isdir(t):
                for p in ps:
                    subprocess.run(['cargo', 'clean', '--release', '--offline', '-p', p], cwd=d, env=dict(ENV, CARGO_TARGET_DIR=t), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cargo_all([
            (['rustc', '-p', 'harness', '--bin', 'symmain', '--release', '--offline', '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'link-arg=-Wl,--unresolved-symbols=ignore-all'], HERE + '/sym', sym, 'the code under test for symbolic execution'),
            (['build', '--release', '--offline'], HERE + '/native', nat, 'the replay of counterexamples'),
            (['build', '--release', '--offline'], HERE + '/engine', eng, 'the engine')])
        if not find():
            die('no LLVM IR was emitted')
        with open(stamp, 'w') as f:
            f.write(key)
        return engine, find(), replay


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native(replay, cases):
    """Run cases (entry, k, model) against the real code -> list of results."""
    res, todo = [], list(cases)
    while todo:
        inp = ''.join('%s %d %s\n' % (e, k, ' '.join(map(str, m))) for e, k, m in todo)
        try:
            out = subprocess.run([replay], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60 + len(todo), preexec_fn=limit).stdout
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, (bytes, type(None))) else x.stdout
        got = []
        for l in out.split('\n'):
            try:
                got.append(json.loads(l))
            except ValueError:
                break
        got = got[:len(todo)]
        res += got
        todo = todo[len(got):]
        if todo:  # the process ended in the middle of this one
            res.append(dict(panic=True, hang=False, failed=[], reached=[], assumed=True, scan=True, text='', real='the process ends abnormally'))
            todo = todo[1:]
    return res


def broken(r):
    return r['assumed'] and r['scan'] and (r['failed'] or r['panic'] or r['hang'])


def what(r):
    if r['hang']:
        return 'does not come to an end'
    if r['panic']:
        return 'panics'
    return '; '.join(CODES.get(c, 'check %d' % c) for c in sorted(set(r['failed'])))


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        # finding: property=C01 entry=diff mode=s text="..."
        if l.startswith('finding:') and 'property=%s ' % prop in l:
            w = dict(x.split('=', 1) for x in l[8:].split(' text=')[0].split())
            out.append((w.get('entry'), w.get('mode'), json.loads(l.split(' text=', 1)[1])))
    return out


def squeeze(t):
    return ' '.join(x for x in t.split(' ') if x)


def main():
    if sys.argv[1:2] == ['--setup']:
        build()
        return 0
    if sys.argv[1:2] == ['--replay']:
        _, _, replay = build()
        c = json.load(open(sys.argv[2]))
        r = native(replay, [(c['entry'], c['scenario'], c['choices'])])[0]
        print(json.dumps(r, indent=1, ensure_ascii=False))
        print('VIOLATED: ' + what(r) if broken(r) else 'holds')
        return 1 if broken(r) else 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scn = [s for s in json.load(open(HERE + '/tools/scn.json')) if prop in s['props'] and (tier == 'thorough' or s['tier'] == 'q')]
    if not scn:
        die('no scenarios for ' + prop)
    engine, ll, replay = build()
    t1 = time.time()
    entries, info = [], {}
    for s in scn:
        if (s['entry'], s['k']) not in info:
            info[(s['entry'], s['k'])] = s
            entries.append('%s:%d' % (s['entry'], s['k']))
    outp = os.path.join(BUILD, 'run-%s-%d.json' % (prop, os.getpid()))
    timeout = 600 if tier == 'quick' else int(os.environ.get('VERIF_TIMEOUT', '3000'))
    cmd = [engine, '--ll', ll, '--out', outp, '--timeout', str(timeout), '--panic-bad', '--max-viol', '4', '--stop-after', '400', '--samples', '1', '--threads', str(os.cpu_count() or 4)]
    for e in entries:
        cmd += ['--entry', e]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode not in (0, 3) or not os.path.exists(outp):
        die('the engine failed: ' + r.stdout[-2000:])
    o = json.load(open(outp))
    os.remove(outp)

    # counterexamples: against the real code, scanner included
    viol = [(v['entry'], v['arg'], v['model']) for v in o['violations']]
    res = native(replay, viol)
    found, unreproduced, listed, kf = [], 0, set(), known(prop)
    for (e, k, m), r in zip(viol, res):
        if not broken(r):
            unreproduced += 1
            continue
        hit = [f for f in kf if f[0] == e and f[1] == info[(e, k)]['mode'] and squeeze(f[2]) == squeeze(r['text'])]
        if hit:
            listed.add(hit[0])
        else:
            found.append((e, k, m, r))
    for f in sorted(listed):
        print('KNOWN-FINDING: property=%s %s %s %s' % (prop, f[0], f[1], json.dumps(f[2])))

    # sampled paths: the real code must do what the symbolic execution said it does
    smp = [(s['entry'], s['arg'], s['model'], s['reached']) for s in o['samples']]
    agree, disagree, scanner, shown = 0, [], 0, []
    for (e, k, m, reached), r in zip(smp, native(replay, [x[:3] for x in smp])):
        if not r['scan'] or not r['assumed']:
            scanner += 1
        elif sorted(set(r['reached'])) == sorted(set(reached)) and (not broken(r) or found):
            agree += 1
            if len(shown) < 12 and 2 in reached:
                shown.append(dict(entry=e, mode=MODES[info[(e, k)]['mode']], source=squeeze(r['text']), outcome=r['real'][:300]))
        else:
            disagree.append((e, k, m, reached, r))

    unexplored = [dict(entry=e['name'], mode=info[(e['name'], e['arg'])]['mode'], tokens=info[(e['name'], e['arg'])]['spec'], explored=e['explored'])
                  for e in o['entries'] if e['explored'] < 0.999999]
    accepted = sum(e['reach'].get('2', 0) for e in o['entries'])
    fns = [f for f in o['functions']]
    mine = [f for f in fns if 'ressa' in f]
    spec_list = sorted(set('%s %s: %s' % (s['entry'], s['mode'], s['spec']) for s in scn))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1),
        violations=len(found),
        coverage=dict(
            states=o['paths'], transitions=o['forks'], traces_validated_against_impl=agree, samples=shown or [dict(note='no accepted source among the samples')],
            exhaustive=not o['timed_out'] and not unexplored and not o['error_paths'] and not o['cut'],
            scenarios=len(entries), scenario_list=spec_list[:400], scenarios_not_completed=unexplored[:200],
            paths_accepting=accepted, paths_panicking=o['panic_paths'], paths_not_ending=o['hang_paths'], paths_not_executable=o['error_paths'],
            reasons_not_executable=o['errors'], paths_violating=o['violating_paths'],
            counterexamples_not_reproduced=unreproduced, samples_outside_the_scanner_model=scanner, samples_disagreeing=len(disagree),
            assertions=o['checks'], assertions_decided_by_domains=o['checks_folded'], assertions_decided_by_solver=o['checks_unsat'] + o['checks_sat'],
            comparisons=o['comparisons'], comparisons_same_term=o['comparisons_identical'], comparisons_cached=o['comparisons_cached'], comparisons_unsat=o['comparisons_unsat'],
            solver_queries=o['solver_queries'], solver_sat=o['solver_sat'], solver_unsat=o['solver_unsat'], solver_unknown=o['solver_unknown'], solver_seconds=o['solver_seconds'],
            path_conditions_rechecked=o['final_pc_checked'], path_conditions_unsat=o['final_pc_unsat'],
            instructions=o['instructions'], longest_path=o['longest_path'], symbols_per_path_max=o['max_vars'],
            functions_executed=len(fns), functions_of_ressa=mine,
            engine_seconds=o['seconds'], build_seconds=round(t1 - t0, 1),
            bounds='every source formed by one of the listed token rows (? = any of the vocabulary, %%x = any of a named domain, ~ and * = any line terminator choice), at most %d free choices per row' % o['max_vars']),
        assumptions=[
            'tokens: the patched scanner in sym/ress yields what ress yields for the source text (checked on every sample and counterexample)',
            'a vocabulary of representative tokens stands for all tokens of its class (identifiers, numbers, strings, regular expressions, templates)',
            'the reference reading in sym/harness/src/refp.rs is ECMAScript with the leniencies listed in DESIGN.md',
            'rustc compiles the LLVM IR it emits to what runs'])
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)

    print('%s %s: %d scenarios, %d paths (%d accepting), %d assertions, %d comparisons, %d solver queries (%.1f s), %d paths replayed, %.0f s build, %.0f s engine' % (
        prop, tier, len(entries), o['paths'], accepted, o['checks'], o['comparisons'] + o['comparisons_identical'], o['solver_queries'], o['solver_seconds'], agree, t1 - t0, o['seconds']))
    if found:
        d = BUILD + '/replays'
        os.makedirs(d, exist_ok=True)
        found.sort(key=lambda x: (len(x[3]['text']), x[3]['text']))
        first = None
        for n, (e, k, m, r) in enumerate(found[:20]):
            p = '%s/%s-%d.json' % (d, prop, n)
            first = first or p
            with open(p, 'w') as f:
                json.dump(dict(property=prop, entry=e, scenario=k, mode=MODES[info[(e, k)]['mode']], tokens=info[(e, k)]['spec'], choices=m, source=r['text'], what=what(r), outcome=r['real']), f, indent=1, ensure_ascii=False)
            if n < 5:
                print('  %s, %s: %s\n    source: %s\n    %s' % (e, MODES[info[(e, k)]['mode']], what(r), json.dumps(squeeze(r['text']), ensure_ascii=False), r['real'][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, first))
        return 1
    if disagree:
        e, k, m, reached, r = disagree[0]
        print('%d sampled paths do not do in the real code what they did symbolically, the first: %s:%d %s reached %s, real %s' % (len(disagree), e, k, m, reached, json.dumps(r)[:600]))
        return 2
    if o['paths'] == 0 or agree == 0:
        die('nothing was explored')
    if unreproduced or o['error_paths'] or unexplored or o['solver_unknown']:
        print('INCOMPLETE: %d counterexamples not reproduced, %d paths not executable %s, %d scenarios not completed, %d answers unknown' % (
            unreproduced, o['error_paths'], json.dumps(o['errors'])[:400], len(unexplored), o['solver_unknown']))
        if tier == 'quick' and not unreproduced and o['error_paths'] == o['paths']:
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
