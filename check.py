#!/usr/bin/env python3
"""Decides one property: check.py PROP [quick|thorough]

1. extracts the functions under contract from /repo's current source (vx);
2. has Verus discharge their obligations, function by function;
3. replays random inputs against the real code: to find a failing input for a
   failed obligation, and as the (bounded) stand-in for what is not under contract.
Exit 0: held. Exit 1 and a VIOLATION line: broken."""
import concurrent.futures, json, os, re, signal, subprocess, sys, tempfile, time, threading, hashlib

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, 'build')
SRC = '/repo/crates/seam/src'
T0 = time.time()
WORKERS = 4
FAILED = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|possible division|'
                    r'possible bit shift|could not prove|decreases not satisfied|failed this|requires not satisfied|loop must|unable to prove|recommendation not met|'
                    r'Resource limit|rlimit|assert_forall|assertion not satisfied|might not be allowed|not satisfied|underflow|overflow|by \(|cannot prove')


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        # With whatever it started, solvers included.
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = -9
    return rc, o.decode(errors='replace'), e.decode(errors='replace')


def cargo_env(toolchain):
    e = dict(os.environ)
    e.update(RUST_BACKTRACE='0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN=toolchain)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e.setdefault('HOME', '/root')
    e.pop('RUSTC_WRAPPER', None)
    return e


def repo_toolchain():
    try:
        m = re.search(r'RUSTUP_TOOLCHAIN=(\S+)', open('/opt/vp/env.sh').read())
        if m:
            return m.group(1)
    except OSError:
        pass
    return 'nightly-2026-08-21'


def build_vx():
    out = os.path.join(B, 'vx')
    rc, o, e = run(['cargo', 'build', '--offline', '--release', '--manifest-path', os.path.join(V, 'vx/Cargo.toml'), '--target-dir', out], 600, cargo_env('stable'))
    exe = os.path.join(out, 'release/vx')
    if rc != 0 or not os.path.exists(exe):
        log('vx does not build:', e[-2000:])
        return None
    return exe


def build_replay(asan=False):
    """The driver of the real code; with every access to memory checked, or not."""
    env, more, sub = cargo_env(repo_toolchain()), [], 'debug'
    out = os.path.join(B, 'replay')
    if asan:
        target = 'x86_64-unknown-linux-gnu'
        env['RUSTFLAGS'] = '-Zsanitizer=address'
        out, more, sub = os.path.join(B, 'asan'), ['--target', target], target + '/debug'
    rc, o, e = run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(V, 'replay/Cargo.toml'), '--target-dir', out] + more, 800, env)
    exe = os.path.join(out, sub, 'replay')
    if rc != 0 or not os.path.exists(exe):
        log('replay does not build against /repo:', e[-3000:])
        return None
    return exe


def build_seam():
    """The command line tool."""
    out = os.path.join(B, 'seam')
    rc, o, e = run(['cargo', 'build', '--offline', '--manifest-path', '/repo/Cargo.toml', '-p', 'seam', '--bin', 'seam', '--target-dir', out], 800, cargo_env(repo_toolchain()))
    exe = os.path.join(out, 'debug/seam')
    if rc != 0 or not os.path.exists(exe):
        log('the command line tool does not build:', e[-3000:])
        return None
    return exe


def expand(work=None):
    """The library as the compiler expands it."""
    out = os.path.join(B, 'expand')
    os.makedirs(out, exist_ok=True)
    f = os.path.join(work or out, 'expanded.txt')
    rc, o, e = run(['cargo', 'rustc', '--offline', '--manifest-path', '/repo/Cargo.toml', '-p', 'seam', '--lib', '--target-dir', out, '--', '-Zunpretty=expanded'], 600, cargo_env(repo_toolchain()))
    if rc != 0 or not o:
        log('no expansion of /repo:', e[-2000:])
        return None
    # The compiler prints pointers to trait objects without the parentheses that it asks for itself.
    o = re.sub(r"\*(mut|const) (dyn [\w:]+(?:<[^<>]*>)? \+ '\w+)", r'*\1 (\2)', o)
    open(f, 'w').write(o)
    return f


# What the source mentions: words to try in inputs when there are more of them than there were.
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(\#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?'(?:\\(?:u\{[^}]*\}|x..|.)|[^'\\])'|'\w+|\b\d[\d_]*(?:\.\d+)?\w*|\w+''', re.S)


# Where narrow numbers may overflow.
SIZES = {'u8': [127, 128, 255, 256], 'i8': [127, 128, 256], 'u16': [65535, 65536], 'i16': [32767, 32768, 65536], 'u32': [4294967295, 4294967296], 'i32': [2147483647, 2147483648],
         'MAX': [127, 255, 65535]}


def unescape(t):
    def one(m):
        c = m.group(1)
        if c[0] == 'u':
            return chr(int(c[2:-1], 16))
        if c[0] == 'x':
            return chr(int(c[1:], 16))
        if c[0] == '\n':
            return ''
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(c[0], c[0])
    return re.sub(r'\\(u\{[^}]*\}|x[0-9a-fA-F]{2}|\n\s*|.)', one, t, flags=re.S)


def literals(src):
    out = {}
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith('.rs') or 'test' in f:
                continue
            here = out.setdefault(os.path.relpath(os.path.join(d, f), src), {})
            for m in TOKEN.finditer(open(os.path.join(d, f), errors='replace').read()):
                t = m.group(0)
                if t.startswith(('//', '/*')):
                    continue
                if t.startswith(('r"', 'r#', 'br')) and t.endswith(('"', '#')):
                    w = t[t.index('"') + 1:t.rindex('"')]
                elif t.lstrip('b').startswith('"') or (t.lstrip('b').startswith("'") and t.endswith("'") and len(t) > 2):
                    w = unescape(t.lstrip('b')[1:-1])
                elif t[0].isdigit():
                    n = re.match(r'[\d_]+', t).group(0).replace('_', '')
                    w = '#' + n
                    if t.startswith('0x'):
                        w = '#' + str(int(re.match(r'0x([0-9a-fA-F_]+)', t).group(1).replace('_', ''), 16))
                elif t in SIZES:
                    w = '#' + t
                else:
                    continue
                if 0 < len(w) <= 40:
                    here[w] = here.get(w, 0) + 1
    return out


def new_words():
    try:
        base = json.load(open(os.path.join(V, 'spec/literals.json')))
        now = literals(SRC)
    except (OSError, ValueError):
        return [], []
    words, numbers = [], []
    for f, ws in now.items():
        for w, n in ws.items():
            if n > base.get(f, {}).get(w, 0):
                if w.startswith('#') and w[1:].isdigit():
                    numbers.append(w[1:])
                elif w[1:] in SIZES:
                    numbers += map(str, SIZES[w[1:]])
                else:
                    words.append(w)
    return words[:60], [n for n in numbers if len(n) < 11][:30]


class Bg:
    def __init__(self, f, *a):
        self.r = None
        self.t = threading.Thread(target=self.go, args=(f, a))
        self.t.start()

    def go(self, f, a):
        self.r = f(*a)

    def get(self):
        self.t.join()
        return self.r


# ---------------------------------------------------------------- Verus
class Unit:
    """One extracted file and what Verus says about it."""

    def __init__(self, vx, config, work):
        self.vx, self.config, self.work = vx, config, work
        self.args = []
        self.expanded = expand(work) if config == 'macros' else None
        self.undecided = {}      # function -> why
        self.dead = None         # why nothing could be decided
        self.failures = {}       # function or lemma -> [messages]
        self.smt_ms = 0
        self.functions = {}      # name -> (ok, ms)
        self.cmd = ''
        self.raw = ''

    def extract(self, extra=()):
        self.rs = os.path.join(self.work, self.config + '.rs')
        self.js = os.path.join(self.work, self.config + '.meta.json')
        rc, o, e = run([self.vx, os.path.join(V, 'spec', self.config + '.json'), SRC, self.rs, self.js] + (['--expanded', self.expanded] if self.expanded else []) + self.args + list(extra), 120)
        if rc != 0:
            self.dead = 'extraction failed: ' + e[-500:]
            return False
        self.meta = json.load(open(self.js))
        self.fns = {f['key']: f for f in self.meta['functions'] if 'key' in f}
        self.text = open(self.rs).read().split('\n')
        return True

    def verus(self, extra=(), timeout=400):
        cmd = ['verus', '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '8', '--smt-option', 'timeout=60000', self.rs] + (list(extra) if '--rlimit' in extra else ['--rlimit', '20'] + list(extra))
        timeout = min(timeout, max(20, 600 - (time.time() - T0)))
        self.cmd = ' '.join(cmd)
        rc, o, e = run(cmd, timeout)
        diags = []
        for l in e.split('\n'):
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error' and not d['message'].startswith('aborting due'):
                    diags.append(d)
        try:
            j = json.loads(o[o.index('{'):])
        except ValueError:
            j = {}
        self.raw += e
        return j, diags, rc

    def lines_of(self, d):
        ls = []
        for s in sorted(d.get('spans', []), key=lambda s: not s.get('is_primary')):
            if s['file_name'].endswith(os.path.basename(self.rs)):
                ls.append(s['line_start'])
        for c in d.get('children', []):
            for s in c.get('spans', []):
                if s['file_name'].endswith(os.path.basename(self.rs)):
                    ls.append(s['line_start'])
        return ls

    def owner(self, line):
        """The function at a line, or the ghost item."""
        for f in self.fns.values():
            if f['lines'][0] <= line <= f['lines'][1]:
                return f['key']
        for i in range(line - 1, -1, -1):
            m = re.match(r'\s*(?:pub\s+)?(?:open\s+|broadcast\s+|closed\s+)*(?:proof|spec)\s+fn\s+(\w+)', self.text[i])
            if m:
                return 'lemma:' + m.group(1)
            if re.match(r'\s*(pub mod|impl|pub struct|pub enum)\b', self.text[i]):
                break
        return None

    def owner_of(self, d, prefer_fn=True):
        os_ = [self.owner(l) for l in self.lines_of(d)]
        os_ = [o for o in os_ if o]
        for o in os_:
            if not o.startswith('lemma:'):
                return o
        return os_[0] if os_ else None

    def compile_loop(self):
        """Removes functions the verifier cannot read until the rest can be verified."""
        level = {}
        for rnd in range(14):
            if not self.extract():
                return None
            j, diags, rc = self.verus()
            r = j.get('verification-results', {})
            hard = [d for d in diags if not FAILED.search(d['message'])] if r else diags
            if r and not r.get('encountered-vir-error') and not (hard and not r.get('verified')):
                return j, [d for d in diags if FAILED.search(d['message'])]
            if not diags:
                self.dead = 'the verifier stopped without a result'
                return None
            progress = False
            for d in (hard or diags):
                own = self.owner_of(d)
                # A contract may not fit the changed signature of its own function only.
                if own is None or own.startswith('lemma:'):
                    continue
                lv = level.get(own, 0)
                if lv >= 3 or (own, rnd) in level:
                    continue
                opt = ['--stub', '--bare', '--drop'][lv]
                level[(own, rnd)] = 1
                level[own] = lv + 1
                self.args += [opt, own]
                self.undecided[own] = 'not readable by the verifier: ' + d['message'][:200]
                progress = True
            if not progress:
                self.dead = 'not readable by the verifier: ' + diags[0]['message'][:300]
                return None
        self.dead = 'not readable by the verifier'
        return None

    def verify(self):
        if self.config == 'macros' and not self.expanded:
            self.dead = 'the expansion of arguments! is not available'
            return
        r = self.compile_loop()
        if r is None:
            log(self.config, 'UNDECIDED', self.dead)
            return
        j, diags = r
        self.collect(j)
        for f in self.fns.values():
            why = []
            if f.get('drift'):
                why.append('anchors lost: ' + ', '.join(f['drift']))
            if f.get('unsupported'):
                why.append('unsupported: ' + ', '.join(map(str, f['unsupported'])))
            if why and f.get('contract') and not f.get('trusted'):
                self.undecided.setdefault(f['key'], '; '.join(why))
        for e in self.meta['parse_errors']:
            self.undecided[e] = 'not understood'
        for k in self.meta['missing']:
            self.undecided.setdefault(k, 'no function of this name')
        self.group(diags)
        if self.failures:
            log(self.config, 'failed at first:', ', '.join(self.failures))

    def group(self, diags):
        for d in diags:
            o = self.owner_of(d) or '?'
            self.failures.setdefault(o, []).append(d)

    def collect(self, j):
        smt = j.get('times-ms', {}).get('smt', {})
        self.smt_ms += smt.get('smt-run', 0)
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                n = f.get('function', '?').replace(self.config + '::', '').replace('crate::', '')
                self.functions[n] = (f.get('success', True), f.get('time', 0))
        self.results = j.get('verification-results', {})

    def retry(self, prop, tagged):
        """The prover may need other hints or more time for an equivalent program. Only what bears on the property."""
        cl = self.closure(prop, tagged)
        lem = {'lemma:' + g for g in self.lemmas_of(cl)}
        for k in [k for k in self.failures if k in cl]:
            a, b = self.fns[k]['lines']
            if any('//: ' in l for l in self.text[a - 1:b]):
                again = self.alone([k], ['--multiple-errors', '40'])
                if again is not None:
                    self.failures[k] = again.get(k, [])
                    if not self.failures[k]:
                        del self.failures[k]
        for extra, vargs in ([['--broadcast', 'vx_seqs'], []], [[], ['--rlimit', '60']], [['--broadcast', 'vx_seqs'], ['--rlimit', '60']]):
            left = [k for k in self.failures if (k in cl and self.failures_of(k, prop)) or k in lem]
            if not left or time.time() - T0 > 400 or not self.extract(extra):
                break
            again = self.alone(left, vargs)
            if again is None:
                continue
            for k in left:
                if k not in again:
                    log(self.config, k, 'discharged with', ' '.join(extra + vargs))
                    del self.failures[k]
        self.extract()

    def alone(self, keys, vargs):
        """Verifies these functions only, one by one if there are few; their failures."""
        mods = {}
        for k in keys:
            mods.setdefault(self.module_of(k), []).append(k)
        if None in mods:
            return None
        runs = []
        for m, ks in sorted(mods.items()):
            if len(ks) <= 4:
                runs += [(m, k) for k in ks]
            else:
                runs.append((m, None))
        out = {}
        for m, k in runs:
            margs = ['--verify-only-module', m]
            if k:
                margs += ['--verify-function', self.fname(k)]
            j, diags, rc = self.verus(vargs + margs, timeout=120)
            r = j.get('verification-results')
            if k and (not r or not r.get('verified') and not diags):
                # Not known by this name.
                j, diags, rc = self.verus(vargs + ['--verify-only-module', m], timeout=150)
                r = j.get('verification-results')
            if not r:
                return None
            for d in diags:
                out.setdefault(self.owner_of(d) or '?', []).append(d)
        return out

    def fname(self, k):
        """The name the verifier knows it by."""
        if k in self.fns:
            a, b = self.fns[k]['lines']
            n = k.split('::')[-1]
            return k + '__rule' if any(('fn %s__rule' % n) in l for l in self.text[a - 1:b]) else k
        return k[6:]

    def module_of(self, k):
        if k in self.fns:
            return self.fns[k]['module']
        if k.startswith('lemma:'):
            name = k[6:]
            mod = None
            for l in self.text:
                m = re.match(r'pub mod (\w+)', l)
                if m:
                    mod = m.group(1)
                if re.search(r'\bfn ' + name + r'\b', l):
                    return mod
        return None

    # ---- which functions a property rests on
    def closure(self, prop, tagged=False):
        names = {}
        for f in self.fns.values():
            names.setdefault(f['key'].split('::')[-1], []).append(f['key'])
        todo = [k for k, f in self.fns.items() if prop in f['props']]
        seen = set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.fns[k]
            if f.get('trusted'):
                continue
            for c in f['callees']:
                cand = names.get(c, [])
                here = [x for x in cand if self.fns[x]['module'] == f['module']]
                use = cand if len(cand) == 1 else here
                # Functions that other properties speak of are their business.
                todo.extend(x for x in use if not (tagged and self.fns[x]['props'] and prop not in self.fns[x]['props']))
        return seen

    def failures_of(self, k, prop, marked=False):
        """The failures of a function that bear on a property: a clause may be marked with those it is for.
        Of a function that only serves the property with marked clauses, no others do."""
        out = []
        for d in self.failures.get(k, []):
            tags = None
            for l in self.lines_of(d):
                m = re.search(r'//: ([A-Z0-9 ]+)$', self.text[l - 1])
                if m and re.search('postcondition|invariant', d['message']):
                    tags = m.group(1).split()
                    break
            if prop in tags if tags else not marked:
                out.append(d)
        return out

    def lemmas_of(self, fns):
        """Proof functions used by the given functions, transitively."""
        ghost = {}
        cur = None
        for l in self.text:
            m = re.match(r'\s*(?:pub\s+)?(?:broadcast\s+)?proof\s+fn\s+(\w+)', l)
            if m:
                cur = m.group(1)
                ghost[cur] = []
            elif re.match(r'\s*(pub\s+)?(open\s+|closed\s+)*(spec\s+)?fn\b|\s*(pub mod|impl)\b', l):
                cur = None
            if cur:
                ghost[cur].append(l)
        text = []
        for k in fns:
            a, b = self.fns[k]['lines']
            text += self.text[a - 1:b]
        seen, todo = set(), set(re.findall(r'\w+', '\n'.join(text))) & set(ghost)
        while todo:
            g = todo.pop()
            seen.add(g)
            todo |= (set(re.findall(r'\w+', '\n'.join(ghost[g]))) & set(ghost)) - seen
        return seen


def trusted_base(text):
    """Everything in the verified file that is believed without proof."""
    out = []
    for m in re.finditer(r'#\[verifier::external_body\][^{;]*?fn\s+(\w+)', text):
        out.append('external_body ' + m.group(1))
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]+)\]', text):
        out.append('assume_specification ' + m.group(1).strip())
    for m in re.finditer(r'uninterp spec fn\s+(\w+)', text):
        out.append('uninterpreted ' + m.group(1))
    for m in re.finditer(r'\badmit\(\)|\bassume\(', text):
        out.append('ASSUME ' + text[max(0, m.start() - 40):m.end() + 40].replace('\n', ' '))
    return sorted(set(out))


def sweep(exe, prop, seed, millis, out):
    """Several sweeps side by side, from seeds apart; the first to find something is reported."""
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        rs = list(pool.map(lambda i: sweep_one(exe, prop, seed + 100000 * i, millis, out + ('.%d' % i if i else '')), range(WORKERS)))
    text = None
    for i, (t, _) in enumerate(rs):
        if t and not text:
            text = t
            open(out, 'w').write(t)
    for i in range(WORKERS):
        for f in ([out + '.%d' % i] if i else []) + [out + ('.%d' % i if i else '') + '.at']:
            if os.path.exists(f):
                os.unlink(f)
    return text, sum(n for _, n in rs)


def sweep_one(exe, prop, seed, millis, out):
    # Programs that read files find theirs in a scratch directory.
    with tempfile.TemporaryDirectory(prefix='seam-sweep-') as scratch:
        return sweep_in(exe, prop, seed, millis, out, dict(os.environ, TMPDIR=scratch, ASAN_OPTIONS='detect_leaks=0:exitcode=99'))


def sweep_in(exe, prop, seed, millis, out, env):
    rc, o, e = run([exe, 'sweep', prop, str(seed), str(millis), out], millis / 1000 + 60, env)
    if rc == 0:
        m = re.search(r'(\d+) inputs', o)
        return None, int(m.group(1)) if m else 0
    if rc == 1 and os.path.exists(out):
        return open(out).read(), 0
    # The process itself died: find out where.
    env = dict(env, REPLAY_TRACE='1')
    rc2, o2, e2 = run([exe, 'sweep', prop, str(seed), str(millis), out], millis / 1000 + 60, env)
    if rc2 in (0,):
        return None, 0
    at = '?'
    try:
        at = open(out + '.at').read()
    except OSError:
        pass
    text = 'property %s is violated\nreplay: replay case %s %s %s\nexpected: no crash\ngot: the process ended with status %s\n%s\n' % (prop, prop, seed, at, rc2, e2[:6000] if 'AddressSanitizer' in e2 else e2[-2000:])
    open(out, 'w').write(text)
    return text, 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    spec = json.load(open(os.path.join(V, 'spec/checks.json')))
    info = spec['properties'][prop]
    baseline = json.load(open(os.path.join(V, 'spec/baseline.json')))
    expected = baseline['functions'].get(prop, [])
    work = os.path.join(B, 'work', prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    outdir = os.path.join(V, 'evidence', 'replay')
    os.makedirs(outdir, exist_ok=True)
    rep = os.path.join(outdir, prop + '.txt')
    for f in (rep, rep + '.at'):
        if os.path.exists(f):
            os.unlink(f)
    millis = info.get('sweep_ms', 12000) * (10 if tier == 'thorough' else 1)

    bvx, brp = Bg(build_vx), Bg(build_replay, bool(info.get('asan')))
    bsm = Bg(build_seam) if info.get('runs_tool') else None
    vx = bvx.get()
    units = []
    broken_tool = None
    if vx is None:
        broken_tool = 'vx does not build'
    else:
        for c in info['configs']:
            u = Unit(vx, c, work)
            u.verify()
            units.append(u)
    exe = brp.get()
    if bsm:
        tool = bsm.get()
        exe = exe and tool and exe
        os.environ['VX_SEAM'] = tool or ''
    words, numbers = new_words()
    os.environ['VX_WORDS'], os.environ['VX_NUMBERS'] = '\x1f'.join(w for w in words if '\0' not in w), ' '.join(numbers)
    if words or numbers:
        log('mentioned more often than before:', words, numbers)
    # The concrete sweep runs on the real code in any case.
    found, inputs = None, 0
    if exe:
        found, inputs = sweep(exe, prop, seed, millis, rep)
    else:
        log('no replay possible')

    if not found:
        for u in units:
            if not u.dead and u.failures:
                u.retry(prop, info.get('tagged'))
    base = baseline['uncontracted']
    funcs, lemmas, failed, undecided, spec_lines, tb = [], [], {}, {}, 0, []
    obligations = discharged = 0
    for u in units:
        if u.dead:
            undecided[u.config] = u.dead
            continue
        cl = u.closure(prop, info.get('tagged'))
        lem = u.lemmas_of(cl)
        lem |= set(info.get('lemmas', []))
        tb += trusted_base('\n'.join(u.text))
        for k in sorted(cl):
            f = u.fns[k]
            if f.get('trusted') or f.get('stub'):
                continue
            if k in u.undecided:
                undecided[k] = u.undecided[k]
            if not f['has_spec'] and k not in base:
                undecided[k] = 'a function without a contract'
            obligations += 1
            funcs.append(k)
            fails = u.failures_of(k, prop, info.get('marked'))
            if fails:
                failed[k] = fails
            elif info.get('marked') and u.failures.get(k):
                undecided[k] = 'other obligations of the function failed'
            else:
                discharged += 1
        for g in sorted(lem):
            obligations += 1
            lemmas.append(g)
            if 'lemma:' + g in u.failures:
                failed['lemma:' + g] = u.failures['lemma:' + g]
            else:
                discharged += 1
        if prop == 'X01':
            # Functions which get at the arenas otherwise than through those under contract.
            for k in u.meta.get('arena_mentions', []):
                undecided[k] = 'mentions an arena, without a contract'
        if '?' in u.failures:
            undecided['?'] = 'a failure outside any function'
        for k, why in u.undecided.items():
            if k in cl or k in expected or k in u.meta['parse_errors']:
                undecided[k] = why
    # A contracted function of this property that disappeared.
    for k in expected:
        if not any(k in u.fns for u in units if not u.dead):
            undecided.setdefault(k, 'no function of this name')

    # A failed function is decided when all it relies on is.
    definite = {}
    for u in units:
        if u.dead:
            continue
        for k in failed:
            if k in definite:
                continue
            why = None
            if k in u.fns:
                f = u.fns[k]
                if k in undecided:
                    why = undecided[k]
                base_loops = baseline['loops'].get(k)
                if base_loops is not None and base_loops != [f['loops'], f['closures']]:
                    why = 'its loops or closures changed'
                for c in f['callees']:
                    for x in u.fns.values():
                        if x['key'].split('::')[-1] == c and (not x['has_spec']) and x['key'] not in base:
                            why = 'calls %s, which has no contract' % x['key']
            elif not k.startswith('lemma:'):
                continue
            if all('esource limit' in d['message'] or 'rlimit' in d['message'] for d in failed[k]):
                why = 'the prover ran out of its limit'
            if why:
                undecided[k] = why
            else:
                definite[k] = failed[k]

    if failed and not found and exe:
        log('looking for a failing input for', ', '.join(failed))
        for i in range(1, 4):
            found, n = sweep(exe, prop, seed + 1000 * i, min(3 * millis, 40000) if tier == 'quick' else millis, rep)
            inputs += n
            if found:
                break

    if undecided and not found and not failed and exe and tier == 'quick':
        log('a longer sweep for what is undecided')
        found, n = sweep(exe, prop, seed + 5000, 40000, rep)
        inputs += n

    violations = 0
    status = 'held'
    if found:
        violations = 1
        status = 'violated'
    elif definite:
        violations = 1
        status = 'violated'
        with open(rep, 'w') as f:
            f.write('property %s: obligations generated from the current source were not discharged; no failing input was found in %d inputs.\n' % (prop, inputs))
            for k, ds in definite.items():
                f.write('\n== failed obligation of %s\n' % k)
                for d in ds:
                    f.write(d.get('rendered') or d['message'])
    if found and failed:
        with open(rep, 'a') as f:
            f.write('\nfailed obligations:\n')
            for k, ds in failed.items():
                f.write('\n== %s\n' % k)
                for d in ds:
                    f.write(d.get('rendered') or d['message'])
    vac = not obligations and not info.get('bounded_only')
    if vac:
        undecided['*'] = undecided.get('*', broken_tool or 'no obligation was generated')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': (units[0].cmd if units else ''), 'trusted_base': sorted(set(tb)),
            'functions_under_contract': funcs, 'lemmas': lemmas, 'back_end': 'Verus 0.2026.09.13 (Z3)',
            'solver_ms': sum(u.smt_ms for u in units),
            'undecided': undecided, 'failed': sorted(failed),
            'bounded_replay_inputs': inputs,
            'bounded_parts': info.get('bounded', []),
        },
        'assumptions': spec['assumptions'] + info.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1), 'violations': violations,
    }
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    log(prop, status, '%d/%d obligations discharged' % (discharged, obligations), '%d inputs replayed' % inputs,
        ('undecided: ' + '; '.join('%s (%s)' % x for x in undecided.items())) if undecided else '')
    for kf in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf))
    if violations:
        print('VIOLATION property=%s replay=%s%s' % (prop, rep, '' if found else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


def known(prop):
    out = []
    try:
        for l in open(os.path.join(V, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def make_baseline():
    """Records the shape of the unchanged tree (run by hand, committed)."""
    spec = json.load(open(os.path.join(V, 'spec/checks.json')))
    vx = build_vx()
    out = {'uncontracted': [], 'loops': {}, 'functions': {}}
    units = {}
    for prop, info in spec['properties'].items():
        for c in info['configs']:
            if c not in units:
                os.makedirs(os.path.join(B, 'work/baseline'), exist_ok=True)
                units[c] = Unit(vx, c, os.path.join(B, 'work/baseline'))
                units[c].extract()
                if units[c].meta['parse_errors'] or units[c].meta['missing']:
                    sys.exit('%s: %s' % (c, units[c].meta['parse_errors'] + units[c].meta['missing']))
            u = units[c]
            cl = u.closure(prop, info.get('tagged'))
            if not cl:
                print(prop, 'has no function in', c)
            out['functions'][prop] = sorted(set(out['functions'].get(prop, [])) | {k for k in cl if u.fns[k]['contract']})
            for k, f in u.fns.items():
                out['loops'][k] = [f['loops'], f['closures']]
                if not f['has_spec'] and k not in out['uncontracted']:
                    out['uncontracted'].append(k)
    out['uncontracted'].sort()
    json.dump(out, open(os.path.join(V, 'spec/baseline.json'), 'w'), indent=1, sort_keys=True)
    json.dump(literals(SRC), open(os.path.join(V, 'spec/literals.json'), 'w'), indent=0, sort_keys=True, ensure_ascii=True)
    print('uncontracted:', out['uncontracted'])


if __name__ == '__main__':
    if sys.argv[1:] == ['baseline']:
        make_baseline()
        sys.exit(0)
    if sys.argv[1:] == ['setup']:
        bs = [Bg(f) for f in (build_vx, build_replay, expand, build_seam)] + [Bg(build_replay, True)]
        sys.exit(0 if all([b.get() for b in bs]) else 1)
    main()
