#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of properties.jsonl on /repo's current working tree:
  1. vx extracts the crate's functions and splices in the contracts of contracts/ and gen/ (DESIGN.md),
  2. verus checks every obligation of the whole crate, and the canaries, which it has to refuse,
  3. every refused obligation is attributed to the function and the properties it belongs to,
  4. a refused obligation of this property is replayed: a search over inputs of the compiled crate looks for a failing one.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Nothing else.
"""
import collections, json, os, re, resource, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
B = os.path.join(ROOT, 'build', PROP)
EV = os.path.join(ROOT, 'evidence')
T0 = time.time()
LIMIT = 780 if TIER == 'quick' else 840
THOROUGH = TIER == 'thorough'


def left():
    return LIMIT - (time.time() - T0)


def log(*a):
    print('[%5.1fs]' % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, mem=None, **kw):
    """(exit code or None on timeout, stdout, stderr); the whole process group ends with the command"""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, **kw)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    if rc is None:
        o, e = p.communicate()
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


# ---------------------------------------------------------------- replay harness (compiled crate)
class Harness:
    """builds /verif/replay against the crate and searches; every step may fail without failing the check"""

    def __init__(self):
        self.bin = None
        self.err = None
        self.result = None
        self.known = []
        self.cases = 0
        self.t = threading.Thread(target=self.work)

    def start(self):
        self.t.start()
        return self

    def work(self):
        try:
            crate = os.path.join(ROOT, 'replay')
            if REPO != '/repo':  # development only: the same harness against another tree
                crate = os.path.join(B, 'replay')
                shutil.copytree(os.path.join(ROOT, 'replay'), crate, ignore=shutil.ignore_patterns('target'))
                p = os.path.join(crate, 'Cargo.toml')
                s = open(p).read().replace('"/repo"', json.dumps(REPO)).replace('"../../repo"', json.dumps(REPO))
                open(p, 'w').write(s)
            env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(ROOT, 'replay', 'target') if REPO == '/repo' else os.path.join(B, 'rt'), RUSTFLAGS='-Awarnings')
            rc, o, e = run(['cargo', 'build', '--offline', '--release', '--no-default-features', '--features', PROP] if 0 else
                           ['cargo', 'build', '--offline', '--no-default-features', '--features', PROP], min(300, left()), cwd=crate, env=env)
            if rc != 0:
                self.err = 'the replay harness does not build against this tree: ' + '\n'.join([l for l in e.split('\n') if l.startswith('error')][:5])
                return
            dst = os.path.join(B, 'replay-bin')
            shutil.copy(os.path.join(env['CARGO_TARGET_DIR'], 'debug', 'replay'), dst)
            self.bin = dst
            for k in FINDINGS:
                rc, o, e = run([dst, 'known', k['id']], 60, mem=8 << 30)
                self.known.append((k, rc == 0))
            self.result = self.search(5000 if not THOROUGH else 60000, 4, SEED)
        except Exception as x:  # noqa
            self.err = 'replay harness: %r' % (x,)

    def search(self, ms, jobs, seed):
        rc, o, e = run([self.bin, 'search', PROP, '--seed', str(seed), '--budget-ms', str(ms), '--jobs', str(jobs)],
                       ms / 1000 + 60, mem=16 << 30, cwd=B)
        for l in reversed(o.strip().split('\n')):
            if l.startswith('{'):
                r = json.loads(l)
                self.cases += r.get('cases', 0)
                return r
        return None


# ---------------------------------------------------------------- extraction
def extract(external, out, rep, src):
    ext = []
    for k in external:
        ext += ['--external', k]
    files = sorted(os.path.join(ROOT, 'contracts', f) for f in os.listdir(os.path.join(ROOT, 'contracts')) if f.endswith('.vc'))
    files += sorted(os.path.join(B, 'gen', f) for f in os.listdir(os.path.join(B, 'gen')) if f.endswith('.vc'))
    return run([VX, '--src', src, '--out', out, '--report', rep] + ext + files, 120)


LEMMAS = ('model', 'vx', 'vxp', 'rt', 'rtp')
VX = os.path.join(ROOT, 'vx', 'target', 'debug', 'vx')


class Out:
    """one extraction: text, functions, regions, notes"""

    def __init__(self, external, name='out'):
        self.path = os.path.join(B, name + '.rs')
        self.rc, o, self.err = extract(external, self.path, os.path.join(B, name + '.json'), os.path.join(REPO, 'src'))
        if self.rc == 0:
            self.load(json.load(open(os.path.join(B, name + '.json'))))

    def load(self, rep):
        self.rep = rep
        self.fns = sorted(((f['start'], f['end'], f) for f in rep['fns']), key=lambda x: (x[0], x[1]))
        self.regions = {}
        for r in rep['regions']:
            self.regions.setdefault(r['key'], (r['start'], r['end']))
        self.text = open(self.path, 'rb').read()
        self.lines = self.text.decode().split('\n')

    def fn_at(self, line):
        best = None
        for s, e, f in self.fns:
            if s <= line <= e:
                best = f
        return best

    def region_at(self, line):
        for k, (s, e) in self.regions.items():
            if s <= line <= e and k in LEMMAS + ('canary',):
                return k
        return None


def verus(path, extra, timeout):
    cmd = ['verus', path, '--num-threads', '8', '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '10'] + extra
    rc, o, e = run(cmd, timeout, cwd=B)
    diags = []
    other = []
    for l in e.split('\n'):
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
        elif l.strip():
            other.append(l)
    try:
        js = json.loads(o)
    except ValueError:
        js = None
    return {'rc': rc, 'json': js, 'diags': diags, 'other': other[-20:]}


TRAITS = ('codec::Encode::', 'codec::ArrayEncode::', 'codec::Decode::', 'codec::DecodeFormatted::', 'codec::ArrayDecode::')


def is_trait_decl(k):
    return k.startswith(TRAITS)


def locate(out, d):
    """(function, primary line, clause text, kind) of one error"""
    spans = d['spans']
    msg = d['message']
    clause = ''
    fn = None
    exact = [s for s in spans if s.get('label') and ('failed' in s['label'])]
    for s in exact:
        clause = ' '.join(t['text'][t['highlight_start'] - 1:t['highlight_end'] - 1] for t in s['text'])
    order = [s for s in spans if s not in exact] + exact
    if 'postcondition' in msg:
        order = [s for s in spans if 'failed' not in (s.get('label') or '')] + exact
    elif 'precondition' in msg:
        order = [s for s in spans if s['is_primary']] + spans
    for s in order:
        f = out.fn_at(s['line_start'])
        if f and not is_trait_decl(f['key']):
            fn = f
            break
    line = order[0]['line_start'] if order else 0
    return fn, line, clause, msg


PRIM = set('bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char Uuid Bytes ByteStr Str String Symbol StaticSymbol str Option<T> T'.split())
COLL = set('Vec<T> List HashMap<K,V,S> HashMap<K,V> HashMapVV VecVariantMap VariantMap Variant Multiple<T> Descriptor'.split())
RESTR = set('Role SenderSettleMode ReceiverSettleMode SaslCode TerminusDurability TerminusExpiryPolicy AmqpError ConnectionError SessionError LinkError ErrorCondition DistributionMode MessageId'.split())


def split_key(k):
    m = re.match(r"^(.*?)::([A-Z]\w*(?:<[^>]*>)?) for (.*)::(\w+)$", k)
    if m:
        return m.group(1), m.group(2), m.group(3), m.group(4)
    parts = k.split('::')
    name = parts[-1]
    ty = parts[-2] if len(parts) > 1 and parts[-2][:1].isupper() else ''
    mod = '::'.join(parts[:-2] if ty else parts[:-1])
    m = re.match(r'^(encoded_size|encode|decode)_(\w+)_inner$', name)
    if m and not ty:
        ty = ''.join(x.capitalize() for x in m.group(2).split('_'))
    return mod, '', ty, name


def value_owner(k):
    mod, tr, ty, name = split_key(k)
    if mod.startswith('io') or mod == 'errors':
        return {'P10'} if 'ProtocolIdCodec' in ty else ({'P17'} if tr == 'Encoder' else {'P08'})
    if name == 'decode_frame_header' or 'AmqpFrame' in ty or 'SaslFrame' in ty and 'Body' not in ty or mod.startswith('framing'):
        return {'P09'} if tr in ('Encode', 'Decode', 'DecodeFormatted') or name == 'decode_frame_header' else {'P20', 'P09'}
    if mod.startswith('message'):
        if tr == 'Encode' and name == 'encoded_size':
            return {'P12'}
        if tr in ('Encode', 'Decode'):
            return {'P11'}
        if tr == 'PartialEq':
            return {'P12'}
        return {'P20', 'P12'}
    if tr in ('PartialEq', 'PartialEq<str>', 'PartialEq<Str>', 'Ord', 'PartialOrd', 'Hash', 'Borrow<str>'):
        return {'P14'}
    if name == 'datetime_from_millis' or 'DateTime' in ty:
        return {'P13', 'P07'}
    if ty in RESTR:
        return {'P19', 'P07'}
    if ty == 'Section':
        return {'P11', 'P06'}
    if ty in COLL or re.search(r'compound|list_header|map_header|array_header|list_enc|map_enc', name):
        return {'P05', 'P07'}
    if mod.startswith('protocol'):
        if tr in ('Encode', 'Decode', 'DecodeFormatted') or name.endswith('_inner') or ty == 'CompoundHeader':
            return {'P06'}
        return {'P20'}
    if mod.startswith('types') and ty in ('Str', 'ByteStr', 'Symbol', 'StaticSymbol'):
        return {'P01', 'P14'}
    if mod.startswith('types'):
        return {'P05'}
    if name == 'decode_format_code':
        return {'P07'}
    return {'P01', 'P07'}


def attribute(k, msg, clause):
    """properties a refused obligation of function k belongs to"""
    mod, tr, ty, name = split_key(k)
    own = value_owner(k)
    is_dec = 'Decode' in tr or name.startswith(('decode', 'read_')) or name == 'datetime_from_millis' or tr == 'Decoder'
    is_size = 'encoded_size' in name
    is_enc = not is_size and ('Encode' in tr or name.startswith(('encode', 'array_encode')))
    msgs = {'P12'} if mod.startswith('message') or ty == 'TransferBody' else set()
    if 'postcondition' in msg:
        if is_size:
            return {'P02', 'P17'} | msgs
        if is_enc:
            return {'P17'} if 'rem()' in clause and '@' not in clause else own | {'P02', 'P17'} | msgs
        if is_dec and not ({'P08', 'P09', 'P10'} & own):
            c = clause.replace(' ', '')
            if c.startswith('risOk==>'):
                return {'P16'}
            if c.startswith('risErr==>'):
                return own
            if c.startswith('matchr'):
                return {'P04'}
        return own
    if 'precondition' in msg or 'overflow' in msg or 'underflow' in msg or 'index' in msg or 'bounds' in msg or 'division' in msg:
        if 'avail' in clause and is_dec:
            return {'P15'}
        if is_size:
            return {'P02', 'P17'} | msgs
        if is_enc:
            return {'P17', 'P02'}
        if is_dec:
            return {'P03'}
        return own
    # loop invariants, termination, resource limits: any property of the function
    if is_size:
        return {'P02', 'P17'} | msgs
    if is_enc:
        return own | {'P02', 'P17'} | msgs
    if is_dec:
        return own | {'P03', 'P04', 'P16'} | ({'P15'} if ty in COLL else set())
    return own


SCAFFOLD_NOTE = re.compile(r'not-inlined|unsupported|without invariant|lacks a role|without contract')


def baseline():
    p = os.path.join(ROOT, 'contracts', 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {'notes': [], 'unused': [], 'fns': []}


def structural(out, base):
    """functions whose shape no longer carries the contracts written inside them"""
    st = collections.defaultdict(list)
    for k, v in out.rep['notes']:
        if k == 'fn-note' and [k, v] not in base['notes']:
            f, n = v.split(' :: ', 1)
            if SCAFFOLD_NOTE.search(n):
                st[f].append(n)
    bu = set(map(tuple, base['unused']))
    for kind, sel in out.rep['unused']:
        if (kind, sel) not in bu:
            st[re.sub(r' [^ ]*$', '', sel) if kind not in ('fn',) else sel].append('lost anchor: %s %s' % (kind, sel))
    return st


def lemma_call(out, d):
    """a lemma applied as a hint in a function body whose own precondition is refused there"""
    if 'precondition not satisfied' not in d['message']:
        return False
    return any(out.region_at(s['line_start']) in LEMMAS[1:] and not out.fn_at(s['line_start']) for s in d['spans'] if not s['is_primary'])


def neutralise(out, d, data):
    """replace the condition of a refused hint `assert` by `true`; False when the error is something else"""
    if lemma_call(out, d):
        for s in d['spans']:
            if s['is_primary'] and out.region_at(s['line_start']) is None:
                data[s['byte_start']:s['byte_end']] = b'()'.ljust(s['byte_end'] - s['byte_start'])
                return True
        return False
    if 'assertion' not in d['message']:
        return False
    ok = False
    for s in d['spans']:
        if s['is_primary']:
            a, b = s['byte_start'], s['byte_end']
            seg = bytes(data[a:b])
            if seg.startswith(b'assert'):
                return False
            for i in range(a, b):
                if data[i] != 10:
                    data[i] = 32
            data[a:a + 4] = b'true' if b - a >= 4 else data[a:a + 4]
            ok = b - a >= 4
    return ok


def trusted_base(out):
    t = out.lines
    c = collections.Counter()
    items = []
    a, b = out.regions.get('canary', (0, 0))
    pend = False
    for i, l in enumerate(t, 1):
        if a <= i <= b:
            continue
        s = l.strip()
        if 'external_body' in s:
            pend = True
        if re.match(r'(pub )?(broadcast )?axiom fn', s):
            items.append('axiom ' + re.sub(r'.*axiom fn (\w+).*', r'\1', s))
            c['axioms'] += 1
        elif 'assume_specification' in s:
            items.append('assumed ' + re.sub(r'.*assume_specification *\[(.*?)\].*', r'\1', s).strip())
            c['assumed specifications of std functions'] += 1
        elif 'uninterp spec fn' in s:
            c['uninterpreted functions'] += 1
        elif pend and re.search(r'\bfn \w+', s):
            c['external functions with an assumed contract'] += 1
            pend = False
        elif pend and re.search(r'\b(struct|enum) \w+', s):
            c['external types'] += 1
            pend = False
    return c, items


def load_findings():
    fs = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == PROP:
                fs.append({'id': m.group(2), 'text': m.group(3).strip()})
    return fs


FINDINGS = load_findings()


def main():
    if os.path.isdir(B):
        shutil.rmtree(B)
    os.makedirs(os.path.join(B, 'gen'))
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    for f in (os.path.join(EV, PROP + '.json'), os.path.join(EV, 'replay', PROP + '.txt')):
        if os.path.exists(f):
            os.remove(f)
    rc, o, e = run(['cargo', 'build', '--offline'], 600, cwd=os.path.join(ROOT, 'vx'), env=dict(os.environ, RUSTFLAGS='-Awarnings'))
    if rc != 0:
        log('building vx failed', e[-2000:])
    H = Harness().start()
    env = dict(os.environ, VBUILD=B, VX_REPO=REPO)
    for g in sorted(f for f in os.listdir(os.path.join(ROOT, 'gen')) if f.endswith('.py')):
        rc, o, e = run([sys.executable, os.path.join(ROOT, 'gen', g)], 60, cwd=ROOT, env=env)
        if rc != 0:
            log('generating contracts failed', g, e[-1500:])
    base = baseline()
    external = []   # functions the verifier cannot take: contract assumed, body checked by bounded search
    whole = None    # reason why no proof was possible at all
    out = res = None
    for attempt in range(8):
        out = Out(external)
        if out.rc != 0:
            whole = 'extraction failed: ' + out.err.strip()[-600:]
            break
        res = verus(out.path, [], left() - 60)
        if res['rc'] is None:
            whole = 'verifier ran out of time'
            break
        vr = (res['json'] or {}).get('verification-results', {})
        if vr and not vr.get('encountered-vir-error') and vr.get('verified', 0) + vr.get('errors', 0) > 0:
            break
        bad = set()
        other = []
        for d in res['diags']:
            if d['level'] != 'error' or not d['spans']:
                continue
            hit = None
            for s in sorted(d['spans'], key=lambda s: not s['is_primary']):
                f = out.fn_at(s['line_start'])
                if f and not f['external'] and out.region_at(s['line_start']) is None:
                    hit = f
                    break
            if hit:
                bad.add(hit['key'])
            else:
                other.append(d['message'][:160])
        log('verifier front end refuses', sorted(bad)[:6], other[:3])
        if not bad - set(external):
            whole = 'verifier front end: ' + '; '.join(other[:3] or [d['message'][:200] for d in res['diags'] if d['level'] == 'error'][:3] or res['other'][-3:])
            break
        external += sorted(bad - set(external))
        if left() < 240:
            whole = 'verifier front end keeps refusing functions'
            break
    else:
        whole = 'verifier front end keeps refusing functions'
    failures = []   # dicts
    stats = {}
    canaries = {}
    bounded = collections.defaultdict(list)
    if not whole:
        analyse(out, res, failures, stats, canaries)
        # a refused hint is not an obligation of the contract: drop it and ask again what the contract says
        for rnd in range(3):
            hints = [f for f in failures if 'assertion' in f['msg'] or lemma_call(out, f['diag'])]
            rl = [f for f in failures if 'rlimit' in f['msg'] or 'Resource limit' in f['msg']]
            if not hints and not rl or left() < 150:
                break
            data = bytearray(out.text)
            n = sum(neutralise(out, f['diag'], data) for f in hints)
            open(out.path, 'wb').write(bytes(data))
            out.text = bytes(data)
            log('%d hint(s) refused, %d over the resource limit: asking again' % (len(hints), len(rl)))
            mods = sorted(set(f['module'] for f in failures if f['module']))
            extra = []
            for m in mods:
                extra += ['--verify-only-module', m]
            if rl:
                extra += ['--rlimit', str([40, 120, 300][rnd])]
            res2 = verus(out.path, extra, left() - 60)
            vr = (res2['json'] or {}).get('verification-results')
            if res2['rc'] is None or not vr or vr.get('encountered-vir-error'):
                break
            fl2 = []
            analyse(out, res2, fl2, {}, {})
            keep = [f for f in failures if f['module'] not in mods]
            dropped = [f for f in hints if f not in keep]
            failures[:] = keep + fl2
            stats.setdefault('hints dropped', 0)
            stats['hints dropped'] += len(dropped)
            if n == 0 and not rl:
                break
    st = structural(out, base) if not whole else {}
    for k in external:
        bounded[k].append('outside the verifier: contract assumed for its callers')
    primary, secondary = [], []
    for f in failures:
        k = f['key']
        if k in st:
            bounded[k] += [n for n in st[k] if n not in bounded[k]]
            secondary.append(f)
        elif 'rlimit' in f['msg'] or 'esource limit' in f['msg']:
            bounded[k].append('solver resource limit')
            secondary.append(f)
        elif f['region'] in LEMMAS or not k:
            bounded[f['region'] or 'crate'].append('specification lemma refused: line %d' % f['line'])
            secondary.append(f)
        elif PROP in f['props']:
            primary.append(f)
        else:
            secondary.append(f)
    if whole:
        bounded['whole crate'].append(whole)
    dead = [k for k, v in canaries.items() if not v]
    log('verified %s, refused %d (of this property %d), outside proof %d' % (stats.get('verified'), len(failures), len(primary), len(bounded)))
    for f in primary[:8]:
        log('  refused:', f['name'])
    if os.environ.get('VX_DEBUG'):
        for f in secondary:
            log('  also:', f['name'], sorted(f['props']))
    H.t.join(max(5, left()))
    if H.err:
        log(H.err)
    for k, there in H.known:
        if there:
            print('KNOWN-FINDING: property=%s %s: %s' % (PROP, k['id'], k['text']), flush=True)
        else:
            log('known finding no longer reproduces:', k['id'])
    if not H.bin:
        for k in FINDINGS:
            print('KNOWN-FINDING: property=%s %s: %s' % (PROP, k['id'], k['text']), flush=True)
    found = H.result if H.result and H.result.get('found') else None
    if not found and H.bin and (primary or secondary or bounded):
        found2 = None
        for i, ms in enumerate((25000, 25000) if not THOROUGH else (60000, 120000)):
            if left() < ms / 1000 + 30:
                break
            found2 = H.search(ms, 8, SEED + 1 + i)
            if found2 and found2.get('found'):
                break
        found = found2 if found2 and found2.get('found') else None
    elif not found and H.bin and THOROUGH and left() > 120:
        r = H.search(int(min(300, left() - 60) * 1000), 8, SEED + 1)
        found = r if r and r.get('found') else None
    if dead:
        log('INCONSISTENT trusted base: canaries accepted:', dead)
    violation = bool(found or primary)
    rp = os.path.join(EV, 'replay', PROP + '.txt')
    if violation:
        with open(rp, 'w') as w:
            if found:
                w.write('property %s fails on the compiled crate:\n  %s\nreplay: cd %s/replay && cargo run --offline --no-default-features --features %s -- case %s %s %s\n%s\n'
                        % (PROP, found.get('what'), ROOT, PROP, PROP, found.get('seed'), found.get('index'), json.dumps(found)))
                if H.bin:
                    rc, o, e = run([H.bin, 'case', PROP, str(found.get('seed')), str(found.get('index'))], 60, mem=16 << 30)
                    w.write('trace (exit %s):\n%s%s\n' % (rc, o[-6000:], e[-2000:]))
            w.write('\nrefused obligations of %s: %d\n' % (PROP, len(primary)))
            for f in primary + secondary:
                w.write('\n== %s  [%s]\n%s\n' % (f['name'], ' '.join(sorted(f['props'])), f['rendered']))
    if dead and not violation:
        # the proof proves nothing: only the search stands
        bounded['trusted base'] += ['canary accepted: ' + d for d in dead]
    write_evidence(out, res, stats, failures, primary, secondary, bounded, canaries, H, found, whole, violation)
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (PROP, rp, '' if found else ' no-failing-input-found'), flush=True)
        return 1
    if bounded:
        log('held; not proved, decided by bounded search only:', dict(bounded))
    else:
        log('held: every obligation discharged')
    return 0


def analyse(out, res, failures, stats, canaries):
    vr = res['json']['verification-results']
    ca, cb = out.regions.get('canary', (0, 0))
    names = {}
    for i in range(ca, cb):
        m = re.match(r'pub (?:proof )?fn (c_\w+)', out.lines[i - 1])
        if m:
            names[m.group(1)] = i
            canaries[m.group(1)] = False
    starts = sorted((l, n) for n, l in names.items())
    nc = 0
    seen = set()
    for d in res['diags']:
        if d['level'] != 'error' or not d['spans']:
            continue
        lines = [s['line_start'] for s in d['spans']]
        if any(ca <= l <= cb for l in lines):
            l = [x for x in lines if ca <= x <= cb][0]
            n = [b for a, b in starts if a <= l]
            if n:
                nc += not canaries.get(n[-1], False)
                canaries[n[-1]] = True
            continue
        fn, line, clause, msg = locate(out, d)
        key = fn['key'] if fn else ''
        props = attribute(key, msg, clause) if key else set()
        region = None if key else out.region_at(line)
        ident = (key, line, clause, msg)
        if ident in seen:
            continue
        seen.add(ident)
        mod = split_key(key)[0] if key else region
        failures.append({'key': key, 'line': line, 'clause': clause, 'msg': msg, 'props': props, 'region': region, 'module': mod, 'diag': d,
                         'rendered': d.get('rendered', ''), 'name': '%s: %s%s' % (key or region or '?', msg, ': ' + clause[:160] if clause else '')})
    stats['verified'] = vr['verified']
    stats['refused functions'] = vr['errors'] - nc
    stats['canaries refused'] = nc
    t = res['json'].get('times-ms', {})
    stats['solver ms'] = t.get('smt', {}).get('total')
    stats['wall ms'] = t.get('total')


def owned_functions(out):
    """functions under contract with an obligation of this property"""
    r = []
    for s, e, f in out.fns:
        if f['contract'] and not f['external'] and f['kind'] == 'exec':
            k = f['key']
            p = set()
            for m, c in (('postcondition', ''), ('postcondition', 'r is Ok ==>'), ('postcondition', 'match r'), ('precondition', ''), ('precondition', 'avail')):
                p |= attribute(k, m, c)
            if PROP in p:
                r.append(k)
    return r


def write_evidence(out, res, stats, failures, primary, secondary, bounded, canaries, H, found, whole, violation):
    cov = {}
    if out is not None and out.rc == 0:
        c, items = trusted_base(out)
        mine = owned_functions(out)
        tb = ['Verus (rustc front end, VC generation) and Z3', 'vx: the extraction drops what DESIGN.md section 2 lists',
              '%d axioms, %d assumed std specifications, %d external functions and %d external types with assumed contracts, %d uninterpreted functions (contracts/00-model.vc)'
              % (c['axioms'], c['assumed specifications of std functions'], c['external functions with an assumed contract'], c['external types'], c['uninterpreted functions'])]
        tb += items
        tb += ['compiler-generated: ' + t for t in out.rep.get('trusted', [])]
        ext = sorted(f['key'] for s, e, f in out.fns if f['external'])
        v = stats.get('verified') or 0
        bad = stats.get('refused functions') or 0
        per = collections.Counter()
        try:
            for m in res['json']['times-ms']['smt']['smt-run-module-times']:
                per[m['module']] = m['time']
        except Exception:
            pass
        cov.update({'obligations': v + bad, 'discharged': v, 'checker_cmd': 'verus build/%s/out.rs --num-threads 8 --multiple-errors 10 (Z3 back end)' % PROP,
                    'trusted_base': tb,
                    'obligations_note': 'one obligation group per function or lemma of the whole crate, as verus counts them; a property holds when all groups it rests on are discharged',
                    'functions_under_contract': sum(1 for s, e, f in out.fns if f['contract'] and not f['external']),
                    'functions_of_this_property': mine, 'functions_of_this_property_count': len(mine),
                    'functions_inlined_at_call_sites': ext,
                    'solver_ms': stats.get('solver ms'), 'verifier_wall_ms': stats.get('wall ms'), 'solver_ms_by_module': dict(per),
                    'hints_dropped': stats.get('hints dropped', 0),
                    'canaries_refused': sorted(k for k, x in canaries.items() if x), 'canaries_accepted': sorted(k for k, x in canaries.items() if not x),
                    'refused': [f['name'] for f in primary], 'refused_of_other_properties': [f['name'] for f in secondary]})
    else:
        cov.update({'obligations': 0, 'discharged': 0, 'checker_cmd': 'verus', 'trusted_base': []})
    cov['bounded_not_proved'] = {k: v for k, v in bounded.items()}
    cov['supplementary_search'] = {'cases': H.cases, 'rule': 'generated values, byte strings and histories of the compiled crate (replay/src/props.rs); supplements the proof, never counted as proved',
                                   'error': H.err, 'failing_case': found}
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - T0, 1), 'violations': 1 if violation else 0}
    with open(os.path.join(EV, PROP + '.json'), 'w') as w:
        json.dump(ev, w, indent=1, sort_keys=True)


ASSUME = [
    'contracts of functions outside the repository (bytes, byteorder, chrono, uuid, hashbrown, string, std) as written in contracts/00-model.vc',
    'usize is 64 bits wide; the sum of lengths of one value fits the 32-bit wire fields (precondition of encoding)',
    'stack depth and heap exhaustion are outside the logic',
    'derived Clone, Debug and Default implementations do what the compiler generates',
    'the size cache of messages is not re-entered between its invalidation and the change it belongs to inside one function',
]


def make_baseline():
    os.makedirs(os.path.join(B, 'gen'), exist_ok=True)
    for g in sorted(f for f in os.listdir(os.path.join(ROOT, 'gen')) if f.endswith('.py')):
        run([sys.executable, os.path.join(ROOT, 'gen', g)], 60, cwd=ROOT, env=dict(os.environ, VBUILD=B))
    out = Out([])
    with open(os.path.join(ROOT, 'contracts', 'baseline.json'), 'w') as w:
        json.dump({'notes': [n for n in out.rep['notes'] if n[0] == 'fn-note'], 'unused': out.rep['unused'],
                   'fns': sorted(f['key'] for s, e, f in out.fns)}, w, indent=0)


if __name__ == '__main__':
    if PROP == 'baseline':
        make_baseline()
        sys.exit(0)
    try:
        rc = main()
    except Exception:  # noqa: a broken driver must not look like a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
