"""Kani on the std-trait bridge (C10, thorough tier): every combination of flags, every
width, precision (0..=65535, all that std accepts) and a symbolic surrounding style,
through core::fmt as it is. Loops are unwound 4 times with unwinding assertions on."""
import concurrent.futures as cf, os, re, time
HARNESSES = ['other', 'debug_none', 'debug_left', 'debug_center', 'debug_right']
def run_kani(V, REPO, T, tier, deadline, run):
    base = T + '/kani'; os.makedirs(base, exist_ok=True)
    open(base + '/Cargo.toml', 'w').write(open(V + '/kani/Cargo.toml.in').read().replace('@REPO@', REPO))
    if not os.path.islink(base + '/src'): os.symlink(V + '/kani/src', base + '/src')
    if not os.path.exists(base + '/Cargo.lock'): open(base + '/Cargo.lock', 'w').write(open(REPO + '/Cargo.lock').read())
    def one(h):
        o, e, rc = run(['cargo', 'kani', '--harness', h, '--target-dir', base + '/t-' + h], cwd=base, timeout=max(1, deadline - time.time()))
        return h, o, e, rc
    r = dict(failed={}, undecided={}, coverage={})
    ok, secs, checks = [], 0.0, 0
    with cf.ThreadPoolExecutor(1) as ex:
        for h, o, e, rc in ex.map(one, HARNESSES):
            m = re.search(r'Verification Time: ([\d.]+)s', o); secs += float(m[1]) if m else 0
            m = re.search(r'\*\* (\d+) of (\d+) failed', o); checks += int(m[2]) if m else 0
            if rc is None: r['undecided'][h] = 'ran out of time'
            elif 'VERIFICATION:- SUCCESSFUL' in o: ok.append(h)
            elif 'VERIFICATION:- FAILED' in o:
                f = re.findall(r'Failed Checks: (.*)', o)
                if any('unwinding' in x or 'unsupported' in x or 'not currently supported' in x for x in f): r['undecided'][h] = '; '.join(f)[:300]
                else: r['failed'][h] = [dict(kind='proof', message='Kani: ' + x, spans=[]) for x in f[:6]]
            else: r['undecided'][h] = 'no result: ' + (e or o)[-300:]
    r['coverage'] = dict(kani=dict(harnesses=HARNESSES, successful=ok, checks=checks, verification_s=round(secs, 1), bounds='width, precision <= 65535 (the whole domain std accepts); unwind 4 with unwinding assertions'))
    return r
