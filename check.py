#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]
Decides one property of /repo's working tree: extracts the real code, has Verus
discharge every obligation of its contracts (Kani for C10), and runs the native
oracles that turn a failed obligation into a concrete failing input, or stand in
(bounded) where code is outside the verifier's reach. See DESIGN.md."""
import concurrent.futures as cf, hashlib, json, os, re, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
T = os.environ.get('VP_TARGET', os.path.join(V, 'target'))
EVID = os.environ.get('VP_EVIDENCE', os.path.join(V, 'evidence'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_MIN_STACK=str(1 << 30))
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'): ENV.pop(k, None)
NFF = 'no-failing-input-found'

# What each property rests on. `own`: obligations that state it (their failure is
# its failure); `uses`: further functions whose contracts its proof relies on.
CORE = r'core_::(formatter|write|arguments|display)::'
MAIN, MACROS, BOTH = ['main'], ['macros'], ['main', 'macros']     # which crates are verified together (macros: with style)
P = {
 'C01': dict(own=r'style::|sp::c01', uses=r'sp::', probe=1, verus=MAIN),
 'C02': dict(own=r'ansi::(ansi|util|format|to_string)::|sp_term::c02', uses=r'sp|style::|' + CORE, probe=1, verus=MAIN),
 'C03': dict(own=r'ansi::(ansi|io|util)::|sp_term::c03', uses=r'sp|style::|' + CORE, probe=1, verus=MAIN),
 'C04': dict(own=r'ansi::(io|util)::|sp_term::c04', uses=r'sp|style::|core_::io::|' + CORE, probe=1, verus=MAIN),
 'C05': dict(own=r'html::(html|format|to_string)::|sp_reader::c05', uses=r'sp|style::|html::|' + CORE, probe=1, verus=MAIN),
 'C06': dict(own=r'html::(html|util|format|to_string)::|sp_reader::(c05|c06)', uses=r'sp|style::|' + CORE, probe=1, verus=MAIN),
 'C07': dict(own=r'plain::|sp_props::c07', uses=r'sp|core_::io::|' + CORE, probe=1, verus=MAIN),
 'C08': dict(own=r'core_::(string|format|to_string)::|sp_props::(c08|client_replay)', uses=r'sp|style::|' + CORE, probe=1, verus=MAIN),
 'C09': dict(own=r'core_::(formatter|arguments|display|write)::|sp_props::client_scoped', uses=r'sp|style::', probe=1, verus=MAIN),
 'C10': dict(own=r'core_::arguments::StdFmt|core_::std_compat::|macros_::to_tokens::(Scoped_(Align|Sign|Count|DebugHex|FormatterArgs|FormatTrait)|FormatTrait|quote_opt)|macros_::format_args_impl', uses=r'sp|macros_::|vx|' + CORE, probe=1, verus=BOTH, fam=1, kani=1),
 'C11': dict(own=r'core_::io::|(ansi|plain)::io::.*::(write_all|write_fmt)$', uses=r'sp|(ansi|plain)::io::|style::|' + CORE, probe=1, verus=MAIN),
 'C12': dict(own=r'ansi::ansi::|html::html::|plain::plain::|core_::(formatter|write|display|arguments|string)::|sp_props::client_failing', uses=r'sp|style::|ansi::|html::|plain::', probe=1, verus=MAIN),
 'C13': dict(own=r'macros_::format::|macros_::format_args_impl|style::(StyleDiff|Color|Intensity)::parse|sp_gram::', uses=r'macros_::|sp_(fmt|emit)::|vx', probe=0, verus=MACROS, fam=1),
 'C14': dict(own=r'macros_::(format_args|capture)|sp_emit::|ArgsInput|sp_call::', uses=r'macros_::|sp_(fmt|gram)::|vx', probe=0, verus=MACROS, fam=1),
 'C15': dict(own=r'macros_::to_tokens::Scoped_(StyleDiff|Color|Intensity|Foreground)|macros_::format::(StyleDiff|Attribute|Color|Intensity)::|macros_::format_args_impl|style::StyleDiff::apply|core_::formatter::Formatter::with_args|sp_c15::', uses=r'macros_::|style::|sp|vx|' + CORE, probe=0, verus=BOTH, fam=1),
 'C16': dict(own=r'(ansi|html|plain|core_)::(format|to_string)::|stylish::|macros_::format_args_nl|sp_nl::|sp_props::(c16|client_ansi|client_html)', uses=r'sp|ansi::|html::|plain::|core_::|style::|macros_::|vx', probe=1, verus=BOTH, fam=1),
}
LEVEL = {p: 'proof' for p in P}

log_lines = []
def log(*a):
    s = ' '.join(str(x) for x in a); log_lines.append(s); print(s, flush=True)
def run(cmd, cwd=None, timeout=600, env=None):
    """stdout, stderr, returncode (None: timed out; whole process group ended)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(1, timeout)); return o, e, p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate(); return o, e, None

# ---- the deductive part -----------------------------------------------------
class Proof: pass
def build_vx():
    o, e, rc = run(['cargo', 'build', '--offline', '-q', '--manifest-path', V + '/tools/vx/Cargo.toml', '--target-dir', T + '/vx'], timeout=300)
    if rc != 0: raise RuntimeError('the extractor does not build: ' + e[-2000:])
    return T + '/vx/debug/vx'
def extract(vx, out, ext, which, expanded=()):
    d = V + '/specs' + ('/macros' if which == 'macros' else '')
    cs = sorted(d + '/' + f for f in os.listdir(d) if f.endswith('.vx')) + ([V + '/specs/style.vx'] if which == 'macros' else [])
    cmd = [vx, '--repo', REPO, '--contracts', ','.join(cs), '--specs', d, '--units', d + '/units.txt', '--out', out]
    for k in ext: cmd += ['--external', k]
    for m, f in expanded: cmd += ['--expanded', m + '=' + f]
    o, e, rc = run(cmd, timeout=60)
    if rc != 0: return None, e
    rep = dict(fn={}, dropped=[], note=[], unused=[])
    for l in open(out + '.report'):
        f = l.rstrip('\n').split('\t')
        if f[0] == 'fn': rep['fn'][f[1]] = dict(where=f[2], status=f[3], calls=[c for c in f[4].split(',') if c] if len(f) > 4 else [], loops=f[5] if len(f) > 5 else '')
        elif f[0] == 'unused': rep['unused'].append((f[1], f[2]))
        elif f[0] in ('dropped', 'note', 'opaque'): rep['dropped' if f[0] == 'dropped' else 'note'].append(' '.join(f[1:]))
    return rep, e
def expand(krate, module, deadline):
    """the compiler's own expansion of a crate's macros (for bodies that use the crate's macro_rules)"""
    f = '%s/expand/%s.rs' % (T, module); os.makedirs(T + '/expand', exist_ok=True)
    o, e, rc = run(['cargo', 'rustc', '--offline', '-q', '-p', krate, '--lib', '--target-dir', T + '/expand/t', '--', '-Zunpretty=expanded'], cwd=REPO, timeout=max(1, min(120, deadline - time.time())), env=dict(ENV, RUSTC_BOOTSTRAP='1'))
    if rc != 0 or not o: log('note: %s was not expanded: %s' % (krate, e[-300:])); return []
    open(f, 'w').write(o); return [(module, f)]
def ranges(out):
    """line -> key of the extracted function, line -> name of the spec function"""
    r = []; spec = []; cur = []
    for n, l in enumerate(open(out), 1):
        m = re.match(r'\s*// @fn-begin (.*)', l)
        if m: cur.append((m[1].strip(), n))
        elif '// @fn-end' in l and cur: c = cur.pop(); r.append((c[1], n, c[0]))    # inner functions come first
        m = re.match(r'\s*(?:pub )?(?:open |closed )?(?:broadcast )?(proof|spec|exec)? ?fn (\w+)', l)
        if m and not cur: spec.append((n, m[2]))
    return r, spec
def where(rs, line):
    for a, b, k in rs[0]:
        if a <= line <= b: return k
    return None
def specfn(rs, line):
    best = None
    for n, k in rs[1]:
        if n <= line: best = k
        else: break
    return best
def verus(out, extra=(), timeout=500):
    o, e, rc = run(['verus', out, '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '8', '--rlimit', '30', *extra], cwd=os.path.dirname(out), timeout=timeout)
    msgs = []
    for l in e.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('level') == 'error' and not m['message'].startswith('aborting due to'): msgs.append(m)
    try: d = json.loads(o[o.index('{'):])
    except ValueError: d = None
    return d, msgs, rc, e
PROOF_ERR = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|decreases not satisfied|possible (arithmetic|division|bit shift)|arithmetic (underflow|overflow)|recommendation|unable to prove|loop ensures not satisfied|could not prove|unreachable')
LIMIT_ERR = re.compile(r'rlimit|Resource limit|timed? ?out|Could not automatically infer triggers')
def prove(tier, deadline, which):
    """Extract and verify. Functions the verifier cannot take are taken out, one
    after another, with their contract assumed (and reported as such)."""
    w = T + '/proof' + ('-macros' if which == 'macros' else ''); os.makedirs(w, exist_ok=True)
    pr = Proof(); pr.lost = None; pr.ext = {}; pr.failed = {}; pr.items = []; pr.t0 = time.time(); pr.rep = None; pr.smt = 0; pr.which = which
    vx = build_vx()
    out = pr.out = w + '/out.rs'
    exp = expand('stylish-core', 'core_', deadline) if which == 'main' else []
    for _ in range(16):
        if time.time() > deadline: pr.lost = 'out of time'; return pr
        rep, e = extract(vx, out, pr.ext, which, exp)
        if rep is None: pr.lost = 'extraction: ' + e.strip()[-600:]; return pr
        pr.rep = rep
        rs = ranges(out)
        d, msgs, rc, err = verus(out, timeout=deadline - time.time())
        if rc is None: pr.lost = 'the verifier ran out of time'; return pr
        if d and d.get('verification-results', {}).get('is-verifying-entire-crate') and not d['verification-results']['encountered-vir-error'] and d.get('times-ms', {}).get('smt', {}).get('smt-run-module-times'):
            break
        new = {}
        for m in msgs:
            for s in m['spans']:
                t = s
                k = where(rs, t['line_start'])
                if k and k not in pr.ext: new[k] = m['message'][:200]; break
        if not new:
            pr.lost = 'not translatable: ' + '; '.join(m['message'][:200] for m in msgs[:3]) if msgs else 'the verifier gave no result: ' + err[-300:]
            return pr
        pr.ext.update(new)
    else: pr.lost = 'too many functions outside the verifier\'s reach'; return pr
    pr.raw = d
    for mod in d['times-ms']['smt']['smt-run-module-times']:
        for f in mod['function-breakdown']:
            pr.items.append(dict(module=mod['module'], fn=f['function'].split('::', 1)[1], mode=f['mode:'], ok=f['success'], ms=f['time'], rlimit=f['rlimit']))
    pr.smt = sum(i['ms'] for i in pr.items)
    for m in msgs:
        key = None
        order = [s for s in m['spans'] if not s['is_primary']] + [s for s in m['spans'] if s['is_primary']]
        for s in order:                      # the failing point lies in the body; the clause may be the callee's
            k = where(rs, s['line_start'])
            lab = s.get('label') or ''
            if k and not lab.startswith('failed precondition') and not lab.startswith('failed this'): key = k; break
        key = key or next((where(rs, s['line_start']) for s in order if where(rs, s['line_start'])), None)
        spec = None if key else next((specfn(rs, s['line_start']) for s in order), None)
        mod = None
        if spec: mod = next((i['fn'] for i in pr.items if not i['ok'] and i['fn'].endswith('::' + spec)), spec)
        k = key or mod or '?'
        kind = 'limit' if LIMIT_ERR.search(m['message']) else 'proof' if PROOF_ERR.search(m['message']) else 'other'
        pr.failed.setdefault(k, []).append(dict(kind=kind, message=m['message'], spans=[dict(label=s.get('label'), text=(s['text'][0]['text'].strip() if s['text'] else ''), line=s['line_start']) for s in m['spans']]))
    return pr
def shim_trust(out):
    """everything in the verified file that is believed, not proved"""
    v = []; att = False; mod = ''
    for l in open(out):
        m = re.match(r'\s*pub mod (\w+) \{', l)
        if m: mod = m[1]
        if re.search(r'external_body|external_fn_specification|external_type_specification|external_trait', l): att = True; continue
        if re.search(r'\b(assume|admit)\s*\(', l): v.append('assume/admit: ' + l.strip()[:80])
        m = re.search(r'\b(fn|struct|trait|enum)\s+(\w+)', l)
        if m and att: v.append('%s %s' % (m[1], m[2])); att = False
    return v

# ---- the native part --------------------------------------------------------
def gen_crate(name, template, files):
    d = T + '/' + name; os.makedirs(d, exist_ok=True)
    t = open(template).read().replace('@REPO@', REPO)
    if not os.path.exists(d + '/Cargo.toml') or open(d + '/Cargo.toml').read() != t: open(d + '/Cargo.toml', 'w').write(t)
    lock = REPO + '/Cargo.lock'
    if os.path.exists(lock) and not os.path.exists(d + '/Cargo.lock'): open(d + '/Cargo.lock', 'w').write(open(lock).read())
    for f, dst in files:
        if not os.path.islink(d + '/' + dst): os.symlink(f, d + '/' + dst)
    return d
class Native:
    def __init__(self): self.witness = None; self.done = None; self.error = None; self.notes = []
def build_probe(deadline):
    d = gen_crate('probe', V + '/probe/Cargo.toml.in', [(V + '/probe/src', 'src')])
    for feats in ([], ['--no-default-features']):
        o, e, rc = run(['cargo', 'build', '--offline', '-q', *feats], cwd=d, timeout=deadline - time.time())
        if rc == 0: return d + '/target/debug/probe', (['the probe of the hidden interface does not build'] if feats else [])
    raise RuntimeError('the probe does not build: ' + e[-3000:])
def probe(prop, tier, deadline, budget, exe=None):
    n = Native()
    try:
        if exe is None: exe, n.notes = build_probe(deadline)
    except RuntimeError as x: n.error = str(x); return n
    cmd = [exe, prop, '--seed', str(SEED), '--budget', str(int(budget))] + (['--deep'] if tier == 'thorough' else [])
    o, e, rc = run(cmd, timeout=min(deadline - time.time(), budget + 120))
    n.cmd = cmd
    for l in o.splitlines():
        if l.startswith('WITNESS '): n.witness = json.loads(l[8:]); n.witness['command'] = ' '.join(cmd[:4] + ['--suite', n.witness['suite'], '--case', str(n.witness['case'])])
        if l.startswith('DONE '): n.done = json.loads(l[5:])
    if not n.witness and not n.done:
        if rc is not None and rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGILL, signal.SIGBUS): n.witness = dict(property=prop, suite='?', case=-1, input='see command', failure='the process died with signal %d: %s' % (-rc, e[-500:]), command=' '.join(cmd))
        else: n.error = 'probe ended with %s: %s' % (rc, e[-800:])
    return n
def cargo_errors(o):
    """lines of the compiled file that an error points at, and all messages"""
    lines, msgs = {}, []
    for l in o.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
        msgs.append((m['target']['name'], m['message']['message']))
        for s in m['message']['spans']:
            if not s['is_primary']: continue
            while s.get('expansion'): s = s['expansion']['span']
            lines.setdefault((s['file_name'], s['line_start']), m['message']['message'])
    return lines, msgs
def bisect(d, idx, deadline):
    """the first case that does not compile on its own half, where the errors do not say which it is"""
    f = d + '/' + next(x for x in ('pass.rs', 'src/pass.rs', 'src/bin/pass.rs') if os.path.exists(d + '/' + x))
    src = open(f).read().split('\n'); first = idx['first'] - 1
    lo, hi, msg = 0, len(idx['cases']), ''
    def fails(a, b):
        l = list(src)
        for k in range(len(idx['cases'])):
            if not a <= k < b: l[first + k] = 'fn c%d() -> R { Ok(()) }' % k
        open(f, 'w').write('\n'.join(l))
        o, e, rc = run(['cargo', 'check', '--offline', '--bin', 'pass', '--message-format=json'], cwd=d, timeout=max(1, deadline - time.time()))
        if rc is None: raise TimeoutError
        return cargo_errors(o)[1][0][1] if rc != 0 and cargo_errors(o)[1] else None
    try:
        while hi - lo > 1:
            mid = (lo + hi) // 2
            m = fails(lo, mid)
            if m: hi = mid
            else: lo = mid
        m = fails(lo, hi)
        return (lo, m) if m else (None, '')
    except TimeoutError: return (None, '')
    finally: open(f, 'w').write('\n'.join(src))
def family(prop, tier, deadline):
    n = Native()
    d = gen_crate('fam-' + prop, V + '/macfam/Cargo.toml.in', [])
    o, e, rc = run(['python3', V + '/macfam/gen.py', prop, str(SEED), tier, d], timeout=60)
    if rc != 0: n.error = 'generator: ' + e[-800:]; return n
    idx = json.load(open(d + '/cases.json'))
    def wit(kind, k, case, why):
        n.witness = dict(property=prop, suite='family/' + kind, case=k, input=case, failure=why, command='python3 macfam/gen.py %s %d %s DIR and build DIR (manifest from macfam/Cargo.toml.in), %s.rs' % (prop, SEED, tier, kind))
    o, e, rc = run(['cargo', 'build', '--offline', '--bin', 'pass', '--message-format=json'], cwd=d, timeout=deadline - time.time())
    if rc is None: n.error = 'the family did not build in time'; return n
    if rc != 0:
        lines, msgs = cargo_errors(o)
        for (f, l), m in sorted(lines.items(), key=lambda x: x[0][1]):
            k = l - idx['first']
            if f.endswith('pass.rs') and 0 <= k < len(idx['cases']): wit('pass', k, idx['cases'][k], 'no longer compiles: ' + m); return n
        if msgs and all(t == 'pass' for t, _ in msgs):
            k, m = bisect(d, idx, deadline)
            if k is not None: wit('pass', k, idx['cases'][k], 'no longer compiles: ' + m); return n
        n.error = 'the family does not build: ' + '; '.join('%s: %s' % m for m in msgs[:3]) + e[-600:]; return n
    o, e, rc = run([d + '/target/debug/pass'], timeout=min(120, deadline - time.time()))
    ran = 0
    for l in o.splitlines():
        if l.startswith('WITNESS '): w = json.loads(l[8:]); wit('pass', w['case'], w['input'], w['failure']); return n
        if l.startswith('DONE '): ran = int(l[5:])
    if ran != len(idx['cases']):
        if rc is not None and rc < 0: wit('pass', -1, 'see command', 'the family dies with signal %d' % -rc)
        else: n.error = 'the family ended with %s: %s' % (rc, e[-600:])
        return n
    rej = 0
    for b in ('reject', 'reject2'):
        if not idx[b]: continue
        o, e, rc = run(['cargo', 'build', '--offline', '--bin', b, '--message-format=json'], cwd=d, timeout=deadline - time.time())
        if rc is None: n.error = 'the family did not build in time'; return n
        lines, msgs = cargo_errors(o)
        if rc != 0 and not msgs: n.error = 'the rejected family: ' + e[-600:]; return n
        for k, c in enumerate(idx[b]):
            if b == 'reject': c2, bad = c, not any(f.endswith('reject.rs') and l == idx['first'] + k for f, l in lines)
            else: c2, bad = c[0], not any('`%s`' % c[1] in m for _, m in msgs)
            if bad: wit(b, k, c2, 'is accepted, must be rejected at compile time'); return n
            rej += 1
    n.done = dict(evaluations=ran + rej, distinct=len(set(idx['cases'])) + len(set(map(str, idx['reject'] + idx['reject2']))), suites=[dict(name='accepted', cases=ran, complete=False), dict(name='rejected', cases=rej, complete=False)], samples=(idx['cases'][:4] + [str(x) for x in idx['reject'][:4]]))
    return n

# ---- the decision -----------------------------------------------------------
def own_match(p, k): return bool(P[p]['own']) and re.match(P[p]['own'], k) is not None
def cone_match(p, k): return own_match(p, k) or (bool(P[p]['uses']) and re.match(P[p]['uses'], k) is not None)
def norm(k): return re.sub(r'<ToTokens for Scoped<\'a,\(?(\w+).*?>(?=::|$)', r'Scoped_\1', k) if 'for Scoped<' in k else re.sub(r'<.* for (?:&mut |&|\[)?(\w+).*?>(?=::|$)', r'\1', k)
def helpers(rep, k):
    """uncontracted functions of the code that k reaches"""
    seen, todo, bad = set(), [k], []
    while todo:
        f = todo.pop()
        for c in rep['fn'].get(f, {}).get('calls', []):
            for g in rep['fn']:
                if g.split('::')[-1] == c and g not in seen and rep['fn'][g]['status'] == 'none': seen.add(g); bad.append(g); todo.append(g)
    return bad
def main():
    prop = sys.argv[1]
    if prop == '--setup':
        os.makedirs(T, exist_ok=True); build_vx()
        try: build_probe(time.time() + 900)
        except RuntimeError as x: print('note:', x)
        return
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    os.environ['VERIF_TIER'] = tier
    cfg = P[prop]
    t0 = time.time()
    deadline = t0 + (780 if tier == 'quick' else 3 * 3600)
    os.makedirs(T, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    budget = 20 if tier == 'quick' else 600
    ex = cf.ThreadPoolExecutor(4)
    fps = [ex.submit(prove, tier, t0 + (560 if tier == 'quick' else 5400), w) for w in cfg['verus']]
    fn = ex.submit(probe, prop, tier, deadline, budget) if cfg.get('probe') else None
    ff = ex.submit(family, prop, tier, deadline) if cfg.get('fam') else None
    fk = None
    if cfg.get('kani') and tier == 'thorough':
        import kani_run
        fk = ex.submit(kani_run.run_kani, V, REPO, T, tier, deadline - 60, run)
    natives = [f.result() for f in (fn, ff) if f]
    errors = [n.error for n in natives if n.error]
    wit = next((n.witness for n in natives if n.witness), None)
    prs = []
    for f in fps:
        try: prs.append(f.result())
        except RuntimeError as x: print('ERROR', x); sys.exit(2)
    kr = fk.result() if fk else None
    # proof results
    own_failed, cone_failed, undecided, assumed = {}, {}, {}, []
    for pr in prs:
        if pr.lost: log('proof lost:', pr.lost); undecided['(all of %s)' % pr.which] = pr.lost
        for k, v in pr.ext.items():
            if cone_match(prop, norm(k)): undecided[k] = 'outside the verifier\'s reach: ' + v; log('bounded:', k, v)
        for kind, k in (pr.rep['unused'] if pr.rep else []):
            if cone_match(prop, norm(k)): undecided[k] = 'contract without its %s' % kind; log('bounded: contract %s %s has no code' % (kind, k))
        for k, f in pr.rep['fn'].items() if pr.rep else []:
            if f['status'].startswith('lost') and cone_match(prop, norm(k)): undecided[k] = f['status']; log('bounded:', k, f['status'])
        for k, es in pr.failed.items():
            if not cone_match(prop, norm(k)): continue
            st = pr.rep['fn'].get(k, {})
            limit = all(e['kind'] == 'limit' for e in es) or any(e['kind'] == 'other' for e in es)
            hs = helpers(pr.rep, k) if st else []
            if k.startswith('sp') and not st: undecided[k] = 'a lemma over the contracts was not re-proved (its text is fixed)'; log('bounded: lemma', k)
            elif limit or hs or st.get('status', '').startswith('lost') or st.get('status') == 'none': undecided[k] = 'resource limit' if limit else 'a function without a contract' if not hs else 'calls code without a contract: ' + ', '.join(hs); log('bounded:', k, undecided[k])
            elif own_match(prop, norm(k)): own_failed[k] = es
            else: cone_failed[k] = es
    if kr:
        for k, e in kr['failed'].items(): own_failed['kani::' + k] = e
        for k, e in kr['undecided'].items(): undecided['kani::' + k] = e; log('bounded: kani', k, e)
    explained = None
    if own_failed and not wit:
        # an obligation shared with other properties: is it theirs that is broken?
        others = [q for q in P if q != prop and any(own_match(q, norm(k)) for k in own_failed)]
        exe = None
        try:
            if any(P[q]['probe'] for q in others): exe, _ = build_probe(deadline)
        except RuntimeError: pass
        if others:
            jobs = [(q, probe, (q, 'quick', deadline, 20, exe)) for q in others if P[q]['probe'] and exe] + [(q, family, (q, 'quick', deadline)) for q in others if P[q].get('fam')]
            with cf.ThreadPoolExecutor(6) as ex2:
                rs = list(ex2.map(lambda j: (j[0], j[1](*j[2])), jobs))
            explained = next(((q, n.witness) for q, n in rs if n.witness), None)
            if explained: log('obligation(s) %s fail; the failing input found violates %s, none violates %s' % (', '.join(own_failed), explained[0], prop))
    replay = os.path.join(T if 'VP_TARGET' in os.environ else V, 'replay'); os.makedirs(replay, exist_ok=True)
    rfile = os.path.join(replay, prop + '.json')
    viol = None
    if wit or (own_failed and not explained):
        rec = dict(property=prop, repo=REPO, witness=wit, failed_obligations=own_failed or cone_failed, seed=SEED, tier=tier)
        json.dump(rec, open(rfile, 'w'), indent=1, ensure_ascii=False)
        if wit: log('failing input (%s #%s): %s' % (wit['suite'], wit['case'], wit['input'][:600])); log('failure:', wit['failure'][:600])
        for k, es in own_failed.items(): log('failed obligation in %s: %s' % (k, '; '.join(e['message'] + ' [' + ' | '.join(s['text'] for s in e['spans'])[:200] + ']' for e in es[:3])))
        viol = 'VIOLATION property=%s replay=%s' % (prop, rfile) + ('' if wit else ' ' + NFF)
    # evidence
    cov = {}
    good = [pr for pr in prs if not pr.lost]
    if good:
        items = [i for pr in good for i in pr.items if cone_match(prop, norm(i['fn'].replace('stylish_', '')))]
        okc = [i for i in items if i['ok']]
        ctr = {k: f for pr in good for k, f in pr.rep['fn'].items() if cone_match(prop, norm(k))}
        by = lambda s: sorted(k for k, f in ctr.items() if f['status'] == s)
        cov.update(obligations=len(items), discharged=len(okc), checker_cmd='verus out.rs (extracted from %s on this run by tools/vx; back end Z3)' % REPO,
            functions_under_contract=by('contract') + by('inherits'), trusted_functions=by('trusted'), uncontracted_functions=by('none'),
            lemmas=sorted(set(i['fn'] for i in okc if i['mode'] == 'proof' and own_match(prop, i['fn']))), smt_ms=sum(i['ms'] for i in items), rlimit=sum(i['rlimit'] for i in items),
            whole_run=[dict(crates=pr.which, verified=pr.raw['verification-results']['verified'], errors=pr.raw['verification-results']['errors'], wall_ms=pr.raw['times-ms']['total']) for pr in good],
            trusted_base=sorted(set(t for pr in good for t in shim_trust(pr.out))) + ['extraction by tools/vx (see DESIGN.md)', 'Verus, vstd, Z3, rustc'])
        if len(items) == 0: errors.append('no obligations were generated')
        if own_failed == {} and not undecided and not cone_failed and len(okc) != len(items): print('ERROR unattributed failure', [i['fn'] for i in items if not i['ok']]); errors.append('unattributed proof failure')
    elif prs: cov.update(obligations=0, discharged=0, checker_cmd='verus (lost: %s)' % '; '.join(pr.lost for pr in prs), trusted_base=['nothing was proved on this run'])
    if kr: cov.update(kr['coverage'])
    if undecided: cov['bounded_instead'] = undecided
    if cone_failed: cov['failed_in_callees'] = {k: [e['message'] for e in v] for k, v in cone_failed.items()}
    if explained: cov['explained_by'] = dict(property=explained[0], input=explained[1]['input'])
    ns = [n.done for n in natives if n.done]
    if ns:
        cov['native'] = dict(evaluations=sum(d['evaluations'] for d in ns), distinct=sum(d['distinct'] for d in ns), suites=[s for d in ns for s in d['suites']], note='bounded search for failing inputs against independent oracles; the stand-in where a function is outside the verifier\'s reach')
        cov['evaluations'] = cov['native']['evaluations']; cov['distinct_nontrivial'] = cov['native']['distinct']
        cov['rule'] = 'cases by construction of probe/src and macfam/gen.py; distinct = distinct case descriptions'
        cov['samples'] = [s for d in ns for s in d['samples']][:10]
    if not cov: cov['explanation'] = 'nothing ran'
    ev = dict(property=prop, tier=tier, seed=SEED, level=LEVEL[prop], coverage=cov, assumptions=assumptions(prop), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, ensure_ascii=False)
    for l in known(prop): print(l)
    if viol: print(viol); sys.exit(1)
    if errors:
        for e in errors: print('ERROR', e)
        sys.exit(2)
    print('%s holds: %s' % (prop, ', '.join('%s=%s' % (k, cov[k]) for k in ('obligations', 'discharged', 'evaluations') if k in cov)))
def known(prop):
    """listed findings (none is open); `fixed:` entries suppress nothing"""
    return ['KNOWN-FINDING: ' + l[len('finding: '):].strip() for l in open(V + '/known-findings.txt') if l.startswith('finding: property=%s ' % prop)]
def assumptions(prop):
    t = json.load(open(V + '/assumptions.json'))
    return t.get('all', []) + t.get(prop, [])
if __name__ == '__main__':
    sys.path.insert(0, V); main()
