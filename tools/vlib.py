"""Shared machinery of the checks: building, running the library, recording
traces, and having TLC judge them."""
import fcntl, glob, hashlib, json, os, random, re, resource, select, shutil, signal
import subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
SPEC = os.path.join(ROOT, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
CORES = min(8, os.cpu_count() or 8)
T0 = time.time()
BIG = 1000000000            # ids from here on are all "far out of range"
ODD = 2000000007            # projection of a number the model cannot express

DRIVER = os.path.join(BUILD, 'target/debug/driver')
CLI = os.path.join(BUILD, 'target/debug/tgx-cli')


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    for base in ('src', 'bindings', 'Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs
            if f.endswith(('.rs', '.toml', '.lock')) and '/target/' not in d)
        for f in files:
            h.update(f.encode())
            with open(f, 'rb') as g:
                h.update(g.read())
    return h.hexdigest()


def build(what='harness'):
    """Build the harness ('harness') or the Python module ('py') from /repo."""
    os.makedirs(BUILD, exist_ok=True)
    crate = {'harness': 'harness', 'py': 'pyharness'}[what]
    target = os.path.join(BUILD, {'harness': 'target', 'py': 'pytarget'}[what])
    with open(os.path.join(BUILD, 'lock-' + what), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, 'stamp-' + what)
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != now:
            # Do not trust file times: forget what was built of the crate.
            for f in glob.glob(os.path.join(target, 'debug/.fingerprint/*')):
                if re.match(r'(tokengeex|tgx|pytokengeex|harness|pyharness)', os.path.basename(f)):
                    shutil.rmtree(f, ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
        env = dict(os.environ, CARGO_TARGET_DIR=target, PYO3_PYTHON='/usr/bin/python3',
                   CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(ROOT, crate),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            say(r.stdout[-4000:])
            raise ToolError('build failed')
        with open(stamp, 'w') as f:
            f.write(now)
        if what == 'py':
            d = os.path.join(BUILD, 'pymod')
            os.makedirs(d, exist_ok=True)
            so = glob.glob(os.path.join(target, 'debug', 'libtokengeex*.so'))[0]
            shutil.copy(so, os.path.join(d, 'tokengeex.so.new'))
            os.replace(os.path.join(d, 'tokengeex.so.new'), os.path.join(d, 'tokengeex.so'))
            return d


SCRATCH = None


def scratch():
    """A directory of this run, removed at its end."""
    global SCRATCH
    if SCRATCH is None:
        os.makedirs(os.path.join(BUILD, 'tmp'), exist_ok=True)
        SCRATCH = tempfile.mkdtemp(dir=os.path.join(BUILD, 'tmp'))
    return SCRATCH


def cleanup():
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


# ---------------------------------------------------------------- the driver

class Driver:
    """The real library, one JSON command per line."""

    def __init__(self, argv=None, limit=30, env=None, pre=None):
        self.argv = argv or [DRIVER]
        self.env = dict(os.environ, DRIVER_LIMIT=str(limit), RUST_BACKTRACE='0', **(env or {}))
        self.pre = pre
        self.p = None
        self.limit = limit

    def start(self):
        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.pre:
                self.pre()
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env, preexec_fn=limits)

    def call(self, cmd):
        if self.p is None:
            self.start()
        try:
            if cmd.get('op') == 'new':
                cmd = dict(cmd, vocab=[[t[0], repr(float(t[1]))] + list(t[2:]) for t in cmd['vocab']])
            self.p.stdin.write((json.dumps(cmd) + '\n').encode())
            self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], self.limit * 2 + 20)[0]:
                self.p.kill()
                self.p.wait()
                self.p = None
                return {'hang': True}
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b''
        if not line:
            rc = self.p.wait()
            self.p = None
            if rc == 2 or rc == 101:
                raise ToolError('driver refused %s (rc %s)' % (str(cmd)[:300], rc))
            return {'crash': rc}
        v = json.loads(line)
        if v.get('hang'):
            self.p.wait()
            self.p = None
        return v

    def many(self, cmds):
        """Replies to many commands, sent ahead in portions that fit a pipe."""
        out, i = [], 0
        while i < len(cmds):
            if self.p is None:
                self.start()
            part, n = [], 0
            while i + len(part) < len(cmds):
                b = (json.dumps(cmds[i + len(part)], separators=(',', ':')) + '\n').encode()
                if part and n + len(b) > 50000:
                    break
                part.append(b)
                n += len(b)
            # what watches the driver from inside may be missing or stuck
            p = self.p
            watch = threading.Timer(self.limit * 3 + 60, p.kill)
            watch.daemon = True
            watch.start()
            try:
                self.p.stdin.write(b''.join(part))
                self.p.stdin.flush()
            except BrokenPipeError:
                pass
            for _ in part:
                i += 1
                line = b''
                if self.p is not None:
                    line = self.p.stdout.readline()
                    if not line:
                        rc = self.p.wait()
                        self.p = None
                        if rc in (2, 101):
                            raise ToolError('driver refused one of %s' % str(cmds[i - 1:i + 1])[:300])
                        out.append({'crash': rc})
                        continue
                if self.p is None:
                    out.append({'lost': True})
                    continue
                out.append(json.loads(line))
                if 'hang' in out[-1]:
                    self.p.wait()
                    self.p = None
            watch.cancel()
        return out

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None


def reply(v):
    """The projection of a driver reply to a reply of the specification."""
    for k in ('hang', 'crash', 'panic'):
        if k in v:
            return {'k': k}
    if 'err' in v:
        return {'k': 'err', 'e': v['err']}
    if 'toks' in v or 'sents' in v or 'found' in v:
        return {'k': 'ok'}
    if 'ids' in v:
        return {'k': 'ids', 'ids': [min(i, BIG) for i in v['ids']]}
    if 'text' in v:
        return {'k': 'text', 'text': v['text']}
    if 'nodes' in v:
        return {'k': 'nodes', 'nodes': [[n[0], n[1] + 1] for n in v['nodes']]}
    if 'batch' in v:
        return {'k': 'batch', 'rs': [reply(x) for x in v['batch']]}
    return {'k': 'ok'}


def B(x):
    """Bytes as a list of numbers."""
    return list(x.encode() if isinstance(x, str) else x)


# ---------------------------------------------------------------- sessions

class Session:
    """One recorded run of the library: commands, replies, trace lines.

    scale: scores are multiples of 1/scale and are logged as integers;
    scale None: scores are logged as opaque text (their exact bits).
    unit: a power of two by which the scores the code gets are multiplied,
    and the scores it returns divided: nothing may depend on it."""
    unit = 1.0

    def __init__(self, drv, name, scale=1, note=''):
        self.drv, self.name, self.scale, self.note = drv, name, scale, note
        self.ev, self.cmds, self.weight = [], [], 0
        self.dead = False
        self.nbase, self.nsp = {}, {}

    # -- plumbing
    def call(self, cmd):
        r = self.drv.call(cmd)
        self.cmds.append([cmd, r if len(str(r)) < 20000 else '...'])
        if 'hang' in r or 'crash' in r:
            self.dead = True
        return r

    def log(self, **ev):
        self.ev.append(ev)
        self.weight += 20 + sum(len(v) for v in ev.values() if isinstance(v, (list, str)))

    def sc(self, x):
        if self.scale is None:
            return float(x).hex() if x is not None else 'none'
        if x is None:
            return ODD
        y = x * self.scale
        return int(y) if y == int(y) and abs(y) < 1 << 30 else ODD

    def back(self, x):
        """A score that the code returned."""
        return self.sc(x if x is None or self.scale is None else x / self.unit)

    def vocab(self, vs, sc=None):
        return [{'v': B(v[0]), 's': (sc or self.sc)(v[1]), 'k': bool(v[2]) if len(v) > 2 else False} for v in vs]

    def st(self, s):
        return {'vocab': self.vocab(s['vocab'], self.back),
                'base_api': self.vocab([b if b else [[], None, False] for b in s['base_api']], self.back),
                'sp': s['specials'], 'procs': s['procs'], 'size': s['size'], 'base': s['base'],
                'special': s['special'], 'model_size': s['model_size']}

    # -- the calls
    def new(self, t, vocab, procs=(), sp=(), chk=()):
        r = self.call({'op': 'new', 't': t, 'vocab': [[B(v[0]), v[1] * self.unit] + list(v[2:]) for v in vocab],
                       'procs': list(procs), 'specials': [B(s) for s in sp]})
        ev = dict(e='new', t=t, vocab=self.vocab(vocab), procs=list(procs), sp=[B(s) for s in sp],
                  r=reply(r), chk=list(chk))
        self.log(**ev)
        self.nbase[t], self.nsp[t] = len(vocab), len(set(sp))
        if chk:
            self.state(t, chk)

    def state(self, t, chk):
        r = self.call({'op': 'state', 't': t})
        ok = reply(r)['k'] == 'ok'
        ev = dict(e='state', t=t, r=reply(r), chk=list(chk))
        ev['st'] = self.st(r) if ok else 0
        self.log(**ev)

    def addsp(self, t, toks, chk=()):
        r = self.call({'op': 'add_special', 't': t, 'toks': [B(x) for x in toks]})
        self.log(e='addsp', t=t, toks=[B(x) for x in toks], r=reply(r), chk=list(chk))
        if chk:
            self.state(t, chk)

    def addbase(self, t, toks, chk=()):
        r = self.call({'op': 'add_base', 't': t, 'toks': [[B(v[0]), v[1] * self.unit] + list(v[2:]) for v in toks]})
        self.log(e='addbase', t=t, toks=self.vocab(toks), r=reply(r), chk=list(chk))
        if chk:
            self.state(t, chk)

    def clone(self, t, frm, chk=()):
        r = self.call({'op': 'clone', 't': frm, 'to': t})
        self.log(**{'e': 'clone', 't': t, 'from': frm, 'r': reply(r), 'chk': list(chk)})
        if chk:
            self.state(t, chk)

    def encode(self, t, x, chk, how='full', p=0.0, again=False, dec=False, parts=None):
        x = B(x)
        cmd = {'op': 'encode', 't': t, 'text': x, 'how': how, 'p': p}
        r = self.call(cmd)
        rr = reply(r)
        ev = dict(e='encode', t=t, how=how, x=x, p=pclass(p), r=rr, chk=list(chk))
        if again:
            ev['again'] = reply(self.call(cmd))
        if dec:
            ev['dec'] = {'k': 'none'}
            if rr['k'] == 'ids':
                ev['dec'] = reply(self.call({'op': 'decode', 't': t, 'ids': r['ids'], 'inc': True}))
        if parts is not None:
            ev['parts'] = parts
        self.log(**ev)
        return r

    def decode(self, t, ids, inc, chk, how='full'):
        r = self.call({'op': 'decode', 't': t, 'ids': ids, 'inc': inc, 'how': how})
        self.log(e='decode', t=t, how=how, ids=[min(i, BIG) for i in ids], inc=inc, r=reply(r), chk=list(chk))
        return r


def pclass(p):
    return '0' if p <= 0 else '1' if p >= 1 else 'mid'


# ---------------------------------------------------------------- TLC

JAVA = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']


def tlc(module, cfg, env=None, workers=1, mem='3g', timeout=800, extra=(), big=False):
    """Run TLC; returns its output and exit status."""
    meta = tempfile.mkdtemp(dir=scratch())
    java = list(JAVA)
    if workers > 1:
        java[1] = '-XX:+UseParallelGC'
    argv = java[:1] + ['-Xmx' + mem, '-Djava.io.tmpdir=' + meta] + java[1:] + [
        '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    out = os.path.join(meta, 'out.txt')
    with open(out, 'w') as o:
        try:
            r = subprocess.run(argv, cwd=SPEC, stdout=o, stderr=subprocess.STDOUT, timeout=timeout,
                               env=dict(os.environ, SPEC_DIR=SPEC, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + module)
    with open(out, errors='replace') as f:
        text = f.read()
    shutil.rmtree(meta, ignore_errors=True)
    return text, r.returncode


def tlc_counts(text):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))


class Rejected:
    def __init__(self, session, index, prop, why=''):
        self.session, self.index, self.prop, self.why = session, index, prop, why


class Result:
    """What a check covered, and what it found."""

    def __init__(self, prop):
        self.prop = prop
        self.rejected = []      # Rejected
        self.states = self.transitions = self.traces = self.events = 0
        self.mc_states = self.mc_transitions = 0
        self.replayed = 0
        self.samples, self.notes, self.known = [], {}, []
        self.violations = []    # (what, detail)

    def violate(self, what, detail):
        self.violations.append((what, detail))

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n


def validate(res, sessions, module='Trace', cfg=None, shards=None, mem='3g', timeout=800):
    """Have TLC check recorded sessions against the specification."""
    sessions = [s for s in sessions if s.ev]
    if not sessions:
        return
    total = sum(s.weight for s in sessions)
    n = shards or max(1, min(CORES, len(sessions), 1 + total // 15000))
    bins = [[0, []] for _ in range(n)]
    for s in sorted(sessions, key=lambda s: -s.weight):
        b = min(bins, key=lambda b: b[0])
        b[0] += s.weight + 50
        b[1].append(s)

    def one(b):
        lines, where = [], []
        for s in b[1]:
            lines.append('{"e":"reset","chk":[]}')
            where.append((s, -1))
            for i, e in enumerate(s.ev):
                lines.append(json.dumps(e, separators=(',', ':')))
                where.append((s, i))
        f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', dir=scratch(), delete=False)
        f.write('\n'.join(lines) + '\n')
        f.close()
        text, rc = tlc(module + '.tla', (cfg or module) + '.cfg', {'TRACE': f.name}, mem=mem, timeout=timeout)
        bad = []
        for ln, prop in re.findall(r'<<"REJECT", (\d+), "(\w+)">>', text):
            s, i = where[int(ln) - 1]
            bad.append(Rejected(s, i, prop))
        for ln, prop in re.findall(r'<<"SKIP", (\d+), "(\w+)">>', text):
            res.count('lines_undecided')
            res.count('lines_undecided_of_' + re.sub(r'-.*', '', where[int(ln) - 1][0].name))
        gen, dist = tlc_counts(text)
        if rc != 0:
            # The line after the last state could not be judged: either no
            # action of the specification explains it, or its reply lies
            # outside the types the specification gives to replies.
            done = [int(x) for x in re.findall(r'^State (\d+):', text, re.M)]
            err = re.search(r'Error: (.*(?:\n.*){0,6})', text)
            err = err.group(1)[:600] if err else text[-600:]
            if 'OutOfMemory' in text or 'StackOverflow' in text or 'GC overhead' in text:
                raise ToolError('TLC ran out of memory: ' + err)
            if 'Parsing or semantic analysis failed' in text or 'Unknown operator' in text:
                raise ToolError(text[-2000:])
            if 'Accepted' in text and 'violated' in text or 'POSTCONDITION' in text or 'Postcondition' in text.title() and not done:
                ln = dist
            elif done:
                ln = done[-1]
            else:
                ln = dist
            if ln < 1 or ln > len(where):
                raise ToolError('TLC failed: ' + err)
            s, i = where[ln - 1]
            prop = s.ev[i]['chk'][0] if i >= 0 and s.ev[i].get('chk') else res.prop
            bad.append(Rejected(s, i, prop, 'TLC: ' + err))
        os.remove(f.name)
        return bad, len(lines), dist, gen

    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(one, bins))
    for bad, lines, dist, gen in outs:
        res.rejected += bad
        res.events += lines
        res.states += dist
        res.transitions += gen
    badset = {id(r.session) for r in res.rejected}
    res.traces += sum(1 for s in sessions if id(s) not in badset)
    for s in sessions[:2]:
        if len(res.samples) < 4:
            e = [x for x in s.ev if x.get('chk')][:1]
            res.samples.append({'session': s.name, 'event': json.dumps(e[0])[:600] if e else ''})


def modelcheck(res, module, cfg=None, workers=None, mem='8g', timeout=800, env=None, extra=(), raw=False):
    """Exhaustive TLC run of a bounded model.  Returns the JSON values it
    printed (behaviours for replay), or with raw the lines themselves."""
    cfg = cfg or module
    text, rc = tlc(module + '.tla', cfg + '.cfg', env, workers or CORES, mem, timeout, extra)
    if rc != 0:
        err = re.search(r'Error: (.*(?:\n.*){0,30})', text)
        raise ToolError('model checking %s failed (%d): %s' % (cfg, rc, err.group(1) if err else text[-1500:]))
    gen, dist = tlc_counts(text)
    res.mc_states += dist
    res.mc_transitions += gen
    lines = [line for line in text.splitlines() if line.startswith('"{') or line.startswith('"[')]
    return lines if raw else [json.loads(json.loads(line)) for line in lines]


# ---------------------------------------------------------------- reporting

def replay_file(res, data):
    d = os.path.join(BUILD, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d-%d.json' % (res.prop, SEED, os.getpid()))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return p


def finish(res, level, rule='', assumptions=(), extra=None):
    """Write the evidence, report, and exit."""
    found = []
    for r in res.rejected:
        e = r.session.ev[r.index] if r.index >= 0 else {}
        found.append({'what': 'trace line rejected', 'session': r.session.name, 'note': r.session.note,
                      'index': r.index, 'event': e, 'why': r.why,
                      'commands': r.session.cmds})
    for what, detail in res.violations:
        found.append({'what': what, 'detail': detail})
    for k in res.known:
        say('KNOWN-FINDING: property=%s %s' % (res.prop, k))
    wall = time.time() - T0
    cov = {'states': res.states + res.mc_states, 'transitions': res.transitions + res.mc_transitions,
           'model_states': res.mc_states, 'trace_lines_checked': res.events,
           'traces_validated_against_impl': res.traces + res.replayed,
           'recorded_sessions_accepted': res.traces, 'behaviours_replayed_from_model': res.replayed,
           'rule': rule, 'samples': res.samples or ['none'], **res.notes, **(extra or {})}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', res.prop + '.json'), 'w') as f:
        json.dump({'property': res.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
                   'level': level, 'coverage': cov, 'assumptions': list(assumptions),
                   'wall_s': round(wall, 2), 'violations': len(found)}, f, indent=1, default=str)
    say('%s: %d trace lines in %d sessions, %d model states, %d behaviours replayed, %.1fs; %s' % (
        res.prop, res.events, res.traces, res.mc_states, res.replayed, wall,
        ', '.join('%s=%s' % kv for kv in res.notes.items())))
    cleanup()
    if found:
        p = replay_file(res, {'property': res.prop, 'seed': SEED, 'tier': TIER, 'found': found[:20]})
        for x in found[:5]:
            say('  ', str({k: v for k, v in x.items() if k != 'commands'})[:1500])
        say('VIOLATION property=%s replay=%s' % (res.prop, p))
        sys.exit(1)
    sys.exit(0)
