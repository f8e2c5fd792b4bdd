#!/usr/bin/env python3
"""Solver-based check runner.

  run.py <PROPERTY>            decide one property (env VERIF_TIER=quick|thorough, VERIF_SEED)
  run.py --harness NAME [...]  development: run single harness(es) verbosely

Every harness is a C file in /verif/harness with a /*@ ... @*/ header.  Per run, and per case of a
harness, the real sources are taken from /repo's working tree (ragel grammars are regenerated),
compiled by goto-cc, linked with the harness and the glib model, and decided by CBMC's symbolic
execution + SAT back end with unwinding assertions on.  A counterexample is replayed natively:
same harness, same sources, gcc + ASan/UBSan, real glib.  Only what reproduces is a VIOLATION.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, threading, resource, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VH_JOBS', '8'))
VERBOSE = bool(os.environ.get('VH_VERBOSE'))
GLIB_INC = ['-I/usr/include/glib-2.0', '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include']
INC = ['-I' + VERIF + '/model', '-I' + VERIF + '/harness', '-I' + REPO + '/include', '-I' + VERIF + '/model/include'] + GLIB_INC + ['-I/usr/include/lua5.1']
CFLAGS = ['-D_LARGEFILE_SOURCE', '-D_LARGE_FILES', '-D_GNU_SOURCE', '-std=gnu99',
          '-DHAVE_CONFIG_H', '-DLIGHTTPD_VH=1']
RAGEL_T0 = {'config_parser.rl'}
# functions that may stay without a body when the solver reaches them (pure diagnostics)
ALWAYS_HAVOC = set()


# cases whose memory safety is left to the native replay and to other cases
LIGHT = ['--no-pointer-check', '--no-bounds-check', '--no-pointer-primitive-check', '--no-signed-overflow-check', '--no-div-by-zero-check', '--no-undefined-shift-check']


class Fatal(Exception):
    pass


def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)


def _limit(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    return f


def run(cmd, timeout=120, cwd=None, env=None, mem=None):
    """-> (rc or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=_limit(mem) if mem else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, '', 'timeout after %ss' % timeout


# ---------------------------------------------------------------- harness headers
class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        txt = open(path).read()
        m = re.search(r'/\*@(.*?)@\*/', txt, re.S)
        if not m:
            raise Fatal('no header in ' + path)
        self.h = {}
        for line in m.group(1).splitlines():
            line = line.strip()
            if not line:
                continue
            k, _, v = line.partition(':')
            self.h.setdefault(k.strip(), []).append(v.strip())

    def list(self, k):
        return ' '.join(self.h.get(k, [])).split()

    def one(self, k, d=None):
        return self.h.get(k, [d])[0]

    def cases(self, tier):
        """A case: name + settings.  'quick:' / 'thorough:' lines override; each line is one case.
        line = name key=value ...   (keys: unwind, set=<f.N:K,...>, anything else is a -D)"""
        lines = self.h.get(tier) if tier in self.h else self.h.get('quick')
        if tier == 'thorough' and 'thorough' in self.h and self.one('thorough-also-quick') is not None:
            lines = self.h.get('quick', []) + lines
        if not lines:
            lines = ['main']
        return [Case(self, l) for l in lines]


class Case:
    def __init__(self, h, line):
        self.h = h
        toks = line.split()
        self.name = toks[0]
        self.kv = {}
        for t in toks[1:]:
            k, _, v = t.partition('=')
            self.kv[k] = v
        self.unwind = int(self.kv.pop('unwind', h.one('unwind', '10')))
        self.unwindset = h.list('unwindset')
        if 'set' in self.kv:
            self.unwindset = self.unwindset + self.kv.pop('set').split(',')
        self.munwind = int(self.kv.pop('munwind', h.one('munwind', '0')))   # loops of the glib model (0: as unwind)
        self.hunwind = int(self.kv.pop('hunwind', h.one('hunwind', '0')))   # loops of the harness itself
        self.eunwind = int(self.kv.pop('eunwind', h.one('eunwind', '0')))   # ragel engine loops (per input byte)
        self.timeout = int(self.kv.pop('timeout', h.one('timeout', os.environ.get('VH_TIMEOUT', '700') if TIER == 'quick' else '3000')))
        self.mem = float(self.kv.pop('mem', h.one('mem', '8')))
        self.flags = h.list('cbmc')
        self.obits = int(h.one('object-bits', '9'))
        if int(self.kv.pop('light', h.one('light', '0'))):
            self.flags = self.flags + LIGHT
        if 'solver' in self.kv:
            self.flags = self.flags + ['--sat-solver', self.kv.pop('solver')]
        defs = {}
        for d in h.list('defs'):
            k, _, v = d.partition('=')
            defs[k] = v
        defs.update(self.kv)
        self.defs = ['-D%s=%s' % (k, v) if v != '' else '-D' + k for k, v in sorted(defs.items())]
        self.full = h.name + ('' if self.name == 'main' else '.' + self.name)
        self.src = h.list('src')


def all_harnesses():
    d = os.path.join(VERIF, 'harness')
    return [Harness(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith('.c')]


# ---------------------------------------------------------------- building
class Builder:
    """compiles /repo sources once per (file, flavour, flags) within this run"""
    def __init__(self, scratch):
        self.scratch = scratch
        self.locks = {}
        self.glock = threading.Lock()
        self.cache = {}
        self.index = None
        self.stop = False
        self.known = []
        self.deadline = time.time() + 10**9

    def once(self, key, fn):
        with self.glock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.cache:
                try:
                    self.cache[key] = (True, fn())
                except Fatal as e:
                    self.cache[key] = (False, e)
            ok, v = self.cache[key]
            if not ok:
                raise v
            return v

    def csource(self, rel, flavour='nat'):
        """path of the C file for a repo-relative source (ragel run if needed)"""
        if rel.endswith('.rl'):
            def gen():
                # same grammar, same actions; for the solver ragel emits flat (search-free) tables
                out = os.path.join(self.scratch, 'rl_' + flavour + '_' + rel.replace('/', '_')[:-3] + '.c')
                t = '-F1' if flavour == 'goto' else '-T0' if os.path.basename(rel) in RAGEL_T0 else '-T1'
                rc, o, e = run(['ragel', '-C', t, '-o', out, os.path.join(REPO, rel)])
                if rc != 0:
                    raise Fatal('ragel failed on %s: %s' % (rel, e))
                return out
            return self.once(('rl', rel, flavour), gen)
        return os.path.join(REPO, rel)

    def obj(self, flavour, rel, defs, removed=(), external=None, uas=False):
        src = external or self.csource(rel, flavour)
        if uas and flavour == 'goto':
            defs = list(defs) + ['-DVH_UAS=1']
        key = (flavour, src, tuple(defs), tuple(removed))

        def build():
            hsh = hashlib.md5(repr(key).encode()).hexdigest()[:12]
            out = os.path.join(self.scratch, '%s_%s_%s.o' % (flavour, os.path.basename(src).replace('.', '_'), hsh))
            extra = ['-I' + os.path.dirname(os.path.join(REPO, rel))] if rel else []
            pre = [d for d in defs if d.startswith('-I')]
            if flavour == 'goto':
                cmd = ['goto-cc', '-c', '-w', '-DVH_CBMC=1'] + pre + INC + extra + CFLAGS + ['-include', VERIF + '/model/glib_over.h'] + list(defs) + ['-o', out, src]
            else:
                cmd = ['gcc', '-c', '-g', '-O0', '-w', '-fno-inline', '-ffunction-sections', '-fdata-sections', '-fsanitize=address,undefined',
                       '-fno-sanitize=alignment,vptr,null' if False else '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined', '-fno-common'] + pre + INC + extra + CFLAGS + list(defs) + ['-o', out, src]
            rc, o, e = run(cmd, timeout=120)
            if rc != 0:
                raise Fatal('compile failed: %s\n%s%s' % (' '.join(cmd), o[-1500:], e[-3000:]))
            if removed or flavour == 'goto':
                if flavour == 'goto':
                    have = self.goto_functions(out)
                    rm = [f for f in list(removed) + ['li_fatal'] if f in have] if rel else []
                    if rm:
                        out2 = out + '.rm'
                        cmd = ['goto-instrument']
                        for f in rm:
                            cmd += ['--remove-function-body', f]
                        rc, o, e = run(cmd + [out, out2])
                        if rc != 0:
                            raise Fatal('remove-function-body: ' + o + e)
                        out = out2
                else:
                    cmd = ['objcopy'] + ['--weaken-symbol=' + f for f in removed] + [out]
                    rc, o, e = run(cmd)
                    if rc != 0:
                        raise Fatal('objcopy: ' + e)
            return out
        return self.once(key, build)

    def goto_functions(self, o):
        rc, out, err = run(['goto-instrument', '--list-goto-functions', o])
        return set(re.findall(r'^(?:\S*/\* )?([A-Za-z_]\w*)', out, re.M))

    def loops(self, gb):
        rc, out, err = run(['cbmc', gb, '--show-loops', '--json-ui', '--function', 'vh_main', '--drop-unused-functions'])
        r = []
        try:
            for m in json.loads(out):
                for l in m.get('loops', []):
                    r.append((l['name'], l.get('sourceLocation', {}).get('file', '')))
        except Exception:
            pass
        return r

    def find_definer(self, fn):
        """which repo source defines function fn (regex index; any linkage file in src/common, src/main)"""
        with self.glock:
            if self.index is None:
                self.index = {}
                for d in ('src/common', 'src/main', 'src/angel', 'src/modules'):
                    for f in sorted(os.listdir(os.path.join(REPO, d))):
                        if not f.endswith(('.c', '.rl')):
                            continue
                        txt = open(os.path.join(REPO, d, f), errors='replace').read()
                        for m in re.finditer(r'^(?!static\b|#|\s|typedef|return|else)[A-Za-z_][\w \t\*]*?[\s\*](\w+)\s*\([^;{}]*\)\s*\{', txt, re.M):
                            self.index.setdefault(m.group(1), []).append(d + '/' + f)
        l = self.index.get(fn, [])
        return l[0] if l else None


def parse_cbmc(out):
    try:
        return json.loads(out)
    except Exception:
        # truncated output (killed): not usable
        return None


class Result:
    pass


def goto_link(b, c, srcs):
    stubs = c.h.list('stub')
    pre = ['-I' + os.path.join(VERIF, x) for x in c.h.list('inc-first')]
    uas = 'union-as-struct' in c.h.h
    objs = [b.obj('goto', s, pre + (c.defs if c.h.one('defs-in-src') else []), stubs, uas=uas) for s in srcs]
    objs.append(b.obj('goto', '', pre + c.defs, external=c.h.path, uas=uas))
    objs.append(b.obj('goto', '', [d for d in c.defs if d.startswith('-DVH_')], external=VERIF + '/model/glib_model.c', uas=uas))
    if 'no-common' not in c.h.h:
        objs.append(b.obj('goto', '', pre + [d for d in c.defs if d.startswith('-DVH_')], external=VERIF + '/model/common_stubs.c', uas=uas))
    for x in c.h.list('extra'):
        objs.append(b.obj('goto', '', c.defs, external=os.path.join(VERIF, x), uas=uas))
    out = os.path.join(b.scratch, 'lnk_' + c.full + '.gb')
    rc, o, e = run(['goto-cc', '-o', out, '--function', 'vh_main'] + objs)
    if rc != 0:
        raise Fatal('goto-cc link %s: %s%s' % (c.full, o[-2000:], e[-3000:]))
    return out


def cbmc(b, c, gb, unwind, timeout, more):
    cmd = ['cbmc', gb, '--function', 'vh_main', '--json-ui', '--trace', '--unwind', str(unwind), '--unwinding-assertions',
           '--no-malloc-may-fail', '--drop-unused-functions', '--verbosity', '8', '--object-bits', str(c.obits)]
    us = ['%s:%d' % (x.split(':')[0], int(x.split(':')[1]) + (unwind - c.unwind)) for x in c.unwindset]
    have = set(x.split(':')[0] for x in us)
    for lid, lf in b.loops(gb):
        k = 0
        if os.path.basename(lf).startswith('rl_goto_'):
            k = c.eunwind
        elif lf.startswith(VERIF + '/model/') or lf.startswith('/usr/include') or 'builtin-library' in lf:
            k = c.munwind
        elif lf.startswith(VERIF):
            k = c.hunwind
        if k and k > unwind - c.unwind and lid not in have:
            us.append('%s:%d' % (lid, k + (unwind - c.unwind)))
    bound = dict((x.split(':')[0], int(x.split(':')[1])) for x in us)
    for k, v in more.items():
        bound[k] = max(v, bound.get(k, 0))
    c.bound = bound
    us = ['%s:%d' % x for x in sorted(bound.items())]
    if us:
        cmd += ['--unwindset', ','.join(us)]
    cmd += c.flags
    t0 = time.time()
    rc, o, e = run(cmd, timeout=timeout, mem=c.mem)
    return rc, o, e, time.time() - t0


def native_build(b, c, srcs):
    stubs = c.h.list('stub')
    pre = ['-I' + os.path.join(VERIF, x) for x in c.h.list('inc-first')]
    objs = [b.obj('nat', s, pre + (c.defs if c.h.one('defs-in-src') else []), stubs) for s in srcs]
    objs.append(b.obj('nat', '', pre + c.defs, external=c.h.path))
    objs.append(b.obj('nat', '', [], external=VERIF + '/model/native_rt.c'))
    if 'no-common' not in c.h.h:
        objs.append(b.obj('nat', '', pre + [d for d in c.defs if d.startswith('-DVH_')], external=VERIF + '/model/common_stubs.c'))
    for x in c.h.list('extra-native'):
        objs.append(b.obj('nat', '', c.defs, external=os.path.join(VERIF, x)))
    out = os.path.join(b.scratch, 'nat_' + c.full)
    wraps = ['-Wl,--wrap=' + w for w in c.h.list('wrap')]
    cmd = ['gcc', '-fsanitize=address,undefined', '-o', out] + objs + wraps + ['-Wl,--gc-sections', '-lgmodule-2.0', '-lgthread-2.0', '-lglib-2.0', '-lev', '-llua5.1', '-lm', '-lpthread', '-lz', '-lbz2', '-lcrypt', '-ldl'] 
    rc, o, e = run(cmd)
    if rc != 0:
        und = sorted(set(re.findall(r"undefined reference to `([^']+)'", e)))
        if not und:
            m = re.findall(r'cannot find -l(\S+)', e)
            if m:
                cmd = [x for x in cmd if x not in ['-l' + y.rstrip(':') for y in m]]
                rc, o, e = run(cmd)
                und = sorted(set(re.findall(r"undefined reference to `([^']+)'", e)))
        if rc != 0:
            if not und:
                raise Fatal('native link %s: %s' % (c.full, e[-3000:]))
            st = os.path.join(b.scratch, 'und_' + c.full + '.c')
            with open(st, 'w') as f:
                f.write('void vh_native_unresolved(const char*);\n')
                for u in und:
                    f.write('void %s(void) { vh_native_unresolved("%s"); }\n' % (u, u))
            rc, o, e = run(cmd[:2] + ['-w', '-fno-builtin'] + cmd[2:] + [st])
            if rc != 0:
                raise Fatal('native link(2) %s: %s' % (c.full, e[-3000:]))
    return out


def native_run(exe, inputs, scratch, tag):
    """-> (verdict, text): 'fail' | 'ok' | 'assume' | 'unresolved' | 'hang'"""
    inf = os.path.join(scratch, tag + '.in')
    with open(inf, 'w') as f:
        f.write('\n'.join(str(v) for v in inputs) + '\n')
    last = ('ok', '')
    for fill in (0xbe, 0x00, 0xff):
        wd = tempfile.mkdtemp(dir=scratch)
        env = dict(os.environ, VH_INPUTS=inf, G_SLICE='always-malloc',
                   ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=%d:max_malloc_fill_size=65536:abort_on_error=0:exitcode=99' % fill,
                   UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
        rc, o, e = run([exe], timeout=10, cwd=wd, env=env)
        if rc is None:
            return 'hang', 'did not terminate within 10 s'
        if rc == 77:
            last = ('assume', e[-1500:])
        elif rc == 79:
            return 'unresolved', e[-500:]
        elif rc == 0:
            last = ('ok', e[-1500:])
        else:
            return 'fail', ('exit %s\n' % rc) + e[-4000:]
    return last


def trace_inputs(trace):
    vals = []
    for s in trace:
        if s.get('stepType') == 'input' and s.get('inputID') == 'vh':
            v = s['values'][0]
            if 'binary' in v:
                vals.append(int(v['binary'], 2))
            else:
                vals.append(int(re.sub(r'[^0-9-]', '', v.get('data', '0')) or 0) & ((1 << 64) - 1))
    return vals


def decide(b, c):
    """run one case to a verdict"""
    r = Result()
    r.case = c
    r.status = 'error'
    r.msg = ''
    r.violations = []
    r.reach = {}
    r.replayed = 0
    r.stats = dict(steps=0, vccs=0, vccs_left=0, vars=0, clauses=0, solver_s=0.0, symex_s=0.0, queries=0, props=0, functions=[], unwind=c.unwind, wall=0.0)
    t0 = time.time()
    try:
        if b.stop:
            r.status = 'skipped'
            r.msg = 'not run: a violation was already found'
        else:
            _decide(b, c, r)
            if r.status == 'violation' and not any(k[0] == c.h.name and k[1] in r.violations[0]['assertion'] for k in b.known):
                b.stop = True
    except Fatal as e:
        r.status = 'error'
        r.msg = str(e)
    r.stats['wall'] = round(time.time() - t0, 2)
    return r


def _decide(b, c, r):
    srcs = list(c.src)
    unwind = c.unwind
    deadline = min(time.time() + c.timeout, b.deadline)
    havoc = set(c.h.list('havoc')) | ALWAYS_HAVOC
    attempts = 0
    more = {}  # bounds raised after a failed unwinding assertion
    while True:
        attempts += 1
        gb = goto_link(b, c, srcs)
        left = deadline - time.time()
        if left < 5:
            r.status = 'timeout'
            r.msg = 'out of time'
            return
        rc, o, e, dt = cbmc(b, c, gb, unwind, left, more)
        if rc is None:
            r.status = 'timeout'
            r.msg = 'cbmc did not finish within %.0f s' % left
            return
        if 'too many addressed objects' in o + e and c.obits < 15:
            c.obits += 2
            continue
        js = parse_cbmc(o)
        if js is None or rc not in (0, 10):
            r.status = 'error'
            r.msg = 'cbmc rc=%s %s %s' % (rc, o[-800:], e[-800:])
            return
        msgs = [m.get('messageText', '') for m in js if 'messageText' in m]
        nobody = set()
        for m in js:
            for x in m.get('result', []):
                y = re.match(r'no body for callee (\S+)', x['description'])
                if y and x['status'] == 'FAILURE':
                    nobody.add(y.group(1))
        nobody -= havoc
        nobody = set(f for f in nobody if not f.startswith(('nondet_', '__CPROVER')))
        if nobody:
            added = False
            for f in sorted(nobody):
                d = b.find_definer(f)
                if d and d not in srcs:
                    log('   auto-link', d, 'for', f)
                    srcs.append(d)
                    added = True
            if not added or attempts > 12:
                r.status = 'error'
                r.msg = 'reached functions without a body: ' + ' '.join(sorted(nobody))
                return
            continue
        st = r.stats
        st['unwind'] = unwind
        for m in msgs:
            x = re.search(r'size of program expression: (\d+) steps', m)
            if x: st['steps'] = int(x.group(1))
            x = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
            if x: st['vccs'], st['vccs_left'] = int(x.group(1)), int(x.group(2))
            x = re.search(r'(\d+) variables, (\d+) clauses', m)
            if x: st['vars'], st['clauses'] = int(x.group(1)), int(x.group(2))
            x = re.search(r'Runtime Symex: ([\d.]+)s', m)
            if x: st['symex_s'] = float(x.group(1))
            x = re.search(r'Runtime (?:Solver|decision procedure): ([\d.e-]+)s', m)
            if x: st['solver_s'] = max(st['solver_s'], float(x.group(1)))
            x = re.search(r'\*\* (\d+) of (\d+) failed \((\d+) iterations\)', m)
            if x: st['queries'] = int(x.group(3))
        res = None
        for m in js:
            if 'result' in m:
                res = m['result']
        if res is None:
            if any('cProverStatus' in m for m in js):
                res = []
            else:
                r.status = 'error'
                r.msg = 'no result list: ' + ' | '.join(msgs[-5:])
                return
        st['props'] = len(res)
        st['queries'] = max(st['queries'], 1)
        fails = [x for x in res if x['status'] == 'FAILURE' and not x['description'].startswith('no body for callee')]
        reach_all = [x for x in res if x['description'].startswith('REACH ')]
        cx, unw, bound = [], [], []
        r.reach = {}
        for x in reach_all:
            k = x['description'][6:]
            r.reach.setdefault(k, None)
        for x in fails:
            d = x['description']
            if d.startswith('REACH '):
                r.reach[d[6:]] = trace_inputs(x.get('trace', []))
            elif d.startswith('BOUND '):
                bound.append(x)
            elif d.startswith('unwinding assertion') or 'recursion unwinding' in d:
                unw.append(x)
            else:
                cx.append(x)
        break_out = True
        # 1. counterexamples: replay natively
        if cx or unw:
            exe = native_build(b, c, srcs)
        unconf = []
        # property assertions first
        cx.sort(key=lambda x: (0 if x['description'].startswith('PROP') else 1))
        for x in cx[:12]:
            ins = trace_inputs(x.get('trace', []))
            v, txt = native_run(exe, ins, b.scratch, c.full + '_cx')
            r.replayed += 1
            if v == 'fail' or v == 'hang':
                r.violations.append(dict(case=c.full, assertion=x['description'], location=loc(x), inputs=ins, native=v, output=txt))
                break
            unconf.append((x['description'], loc(x), v, txt[-300:]))
        if r.violations:
            r.status = 'violation'
            r.srcs = srcs
            return
        if unw and not cx:
            # loop bound too small?  maybe the code does not terminate
            x = unw[0]
            for x in unw[:2]:
                ins = trace_inputs(x.get('trace', []))
                v, txt = native_run(exe, ins, b.scratch, c.full + '_unw')
                if v in ('fail', 'hang'):
                    r.violations.append(dict(case=c.full, assertion='termination: ' + x['description'], location=loc(x), inputs=ins, native=v, output=txt))
                    r.status = 'violation'
                    r.srcs = srcs
                    return
            if attempts < 14 and time.time() < deadline - 10:
                for x in unw:
                    m = re.match(r'(.*)\.unwind\.(\d+)$', x.get('property', ''))
                    if m:
                        l = m.group(1) + '.' + m.group(2)
                        o = c.bound.get(l, unwind)
                        more[l] = o + max(3, o // 2)
                        log('   raise unwind', l, o, '->', more[l], loc(x))
                    else:
                        unwind = unwind + 3
                        log('   raise unwind after', x['description'], loc(x))
                if max(list(more.values()) + [unwind]) < 400:
                    continue
            r.status = 'inconclusive'
            r.msg = 'unwinding bound not sufficient: %s %s' % (unw[0]['description'], loc(unw[0]))
            return
        if cx:
            r.status = 'unconfirmed'
            r.msg = 'counterexample did not reproduce natively: ' + '; '.join('%s @%s native=%s %s' % u for u in unconf[:4])
            r.unconf_inputs = trace_inputs(cx[0].get('trace', []))
            return
        if bound:
            r.status = 'inconclusive'
            r.msg = 'model bound hit: ' + '; '.join('%s %s' % (x['description'], loc(x)) for x in bound[:4])
            return
        break
    # functions encoded (of the repo's sources)
    r.stats['functions'] = encoded(b, c, gb, srcs)
    # 2. vacuity: every witness must be reachable
    missing = [k for k, v in r.reach.items() if v is None]
    if missing or not r.reach:
        # behaviour the code used to have (a stored witness input) that no input shows any more?
        stored = load_witnesses().get(wkey(c), {})
        exe = native_build(b, c, srcs)
        for k in missing:
            if k in stored:
                v, txt = native_run(exe, stored[k], b.scratch, c.full + '_lost')
                r.replayed += 1
                if v in ('fail', 'hang') or (v == 'ok' and ('VH-REACHED: ' + k) not in txt):
                    r.violations.append(dict(case=c.full, assertion='required behaviour "%s" is lost: no input within the bounds shows it' % k, location='', inputs=stored[k], native=v, output='expected to reach "%s"; got: %s' % (k, txt)))
                    r.status = 'violation'
                    r.srcs = srcs
                    r.lost = k
                    return
        r.status = 'vacuous'
        r.msg = 'witness(es) not reachable: %s' % (missing or 'none declared')
        return
    # 3. model validation: replay the witnesses on the real build; they must complete without failing
    exe = native_build(b, c, srcs)
    for k, ins in sorted(r.reach.items()):
        v, txt = native_run(exe, ins, b.scratch, c.full + '_reach')
        r.replayed += 1
        if v == 'ok' and ('VH-REACHED: ' + k) in txt:
            continue
        if v == 'fail' or v == 'hang':
            r.violations.append(dict(case=c.full, assertion='witness run "%s" fails on the native build' % k, location='', inputs=ins, native=v, output=txt))
            r.status = 'violation'
            r.srcs = srcs
            return
        r.status = 'mismatch'
        r.msg = 'witness %s: native run gives %s: %s' % (k, v, txt[-600:])
        return
    r.status = 'holds'


def encoded(b, c, gb, srcs):
    rc, o, e = run(['goto-instrument', '--reachable-call-graph', gb])
    names = set(re.findall(r'(\w+)', ' '.join(l for l in o.splitlines() if '->' in l)))
    have = set()
    uas = 'union-as-struct' in c.h.h
    for s in srcs:
        obj = b.obj('goto', s, c.defs if c.h.one('defs-in-src') else [], c.h.list('stub'), uas=uas)
        txt = b.once(('fnl', obj), lambda: open(b.csource(s), errors='replace').read())
        have |= set(n for n in names if re.search(r'^[A-Za-z_][^;{}()=]*\b%s\s*\([^;{}]*\)\s*\{' % re.escape(n), txt, re.M))
    return sorted(have - set(c.h.list('stub')))


def loc(x):
    l = x.get('sourceLocation', {})
    return '%s:%s(%s)' % (os.path.basename(l.get('file', '?')), l.get('line', '?'), l.get('function', '?'))


WITNESS = os.path.join(VERIF, 'harness', 'witness.json')


def load_witnesses():
    try:
        return json.load(open(WITNESS))
    except Exception:
        return {}


def wkey(c):
    return c.full + ' ' + ' '.join(c.defs)


def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            m = re.match(r'KNOWN-FINDING: property=(\S+) harness=(\S+) assert="([^"]*)" (.*)$', line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def write_replay(pid, r, v, idx):
    d = os.environ.get('VH_REPLAY_DIR', os.path.join(VERIF, 'evidence'))
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s.replay%s.json' % (pid, '' if idx == 0 else str(idx)))
    json.dump(dict(v, property=pid, harness=r.case.h.name, case=r.case.name, defs=r.case.defs, sources=getattr(r, 'srcs', r.case.src), lost=getattr(r, 'lost', None)), open(p, 'w'), indent=1)
    return p


def check(pid):
    t0 = time.time()
    hs = [h for h in all_harnesses() if pid in h.list('prop')]
    if not hs:
        print('no harness for', pid)
        return 2
    cases = [c for h in hs for c in h.cases(TIER)]
    cases.sort(key=lambda c: -int(c.h.one('cost', '10')))
    scratch = tempfile.mkdtemp(prefix='vh_%s_' % pid, dir=os.environ.get('VH_TMP', '/tmp'))
    try:
        b = Builder(scratch)
        b.known = known_findings(pid)
        if TIER == 'quick':
            b.deadline = t0 + 840
        with ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(lambda c: decide(b, c), cases))
        rc = report(pid, results, t0)
    finally:
        if not os.environ.get('VH_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(pid, results, t0):
    kn = known_findings(pid)
    rc = 0
    vio = 0
    idx = 0
    known_hit = []
    for r in results:
        st = r.stats
        print('[%s] %-34s %-12s vccs=%d/%d steps=%d vars=%d clauses=%d symex=%.1fs solver=%.1fs wall=%.1fs %s' %
              (pid, r.case.full, r.status, st['vccs_left'], st['vccs'], st['steps'], st['vars'], st['clauses'], st['symex_s'], st['solver_s'], st['wall'], r.msg[:3000]))
        if r.status == 'violation':
            v = r.violations[0]
            k = [x for x in kn if x[0] == r.case.h.name and x[1] in v['assertion']]
            if k:
                known_hit.append(k[0])
                print('KNOWN-FINDING: property=%s %s' % (pid, k[0][2]))
                continue
            p = write_replay(pid, r, v, idx)
            idx += 1
            vio += 1
            print('  counterexample: %s at %s\n  inputs: %s\n  native replay (%s): %s' % (v['assertion'], v['location'], v['inputs'][:80], v['native'], v['output'].strip()[:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        elif r.status not in ('holds', 'skipped'):
            rc = 2
    if vio:
        rc = 1
    ok = [r for r in results if r.status == 'holds']
    samples = []
    for r in ok:
        for k, ins in sorted(r.reach.items()):
            if len(samples) < 12:
                samples.append(dict(harness=r.case.full, witness=k, inputs=ins[:64]))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='model_checking', wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  states=sum(r.stats['steps'] for r in results),
                  transitions=sum(r.stats['vccs'] for r in results),
                  traces_validated_against_impl=sum(r.replayed for r in results),
                  samples=samples or [dict(note='no completed harness')],
                  explanation='states = SSA steps of the symbolic executions; transitions = verification conditions generated; traces_validated = solver models replayed on the native ASan/UBSan build of the same sources',
                  queries=sum(r.stats['queries'] for r in results),
                  properties_decided=sum(r.stats['props'] for r in results),
                  vccs_to_solver=sum(r.stats['vccs_left'] for r in results),
                  sat_variables=sum(r.stats['vars'] for r in results),
                  sat_clauses=sum(r.stats['clauses'] for r in results),
                  solver_s=round(sum(r.stats['solver_s'] for r in results), 2),
                  symex_s=round(sum(r.stats['symex_s'] for r in results), 2),
                  functions_encoded=sorted(set(f for r in results for f in r.stats['functions'])),
                  sources=sorted(set(s for r in results for s in r.case.src)),
                  harnesses=[dict(name=r.case.full, status=r.status, bounds=dict(unwind=r.stats['unwind'], unwindset=sorted('%s:%d' % x for x in getattr(r.case, 'bound', {}).items()), defs=r.case.defs),
                                  outside=r.case.h.one('outside', ''), stubs=r.case.h.list('stub') + r.case.h.list('wrap'), stats={k: r.stats[k] for k in ('steps', 'vccs', 'vccs_left', 'vars', 'clauses', 'solver_s', 'symex_s', 'wall')},
                                  witnesses=sorted(r.reach)) for r in results],
                  known_findings=[k[2] for k in known_hit]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('[%s] %s  %d/%d cases hold, wall %.1fs' % (pid, {0: 'HOLDS', 1: 'VIOLATED', 2: 'NO VERDICT'}[rc], len(ok), len(results), time.time() - t0))
    return rc


def replay(path):
    """run.py --replay FILE: rebuild natively and run a stored counterexample"""
    d = json.load(open(path))
    h = [x for x in all_harnesses() if x.name == d['harness']][0]
    c = [x for x in h.cases('thorough') + h.cases('quick') if x.name == d['case'] and x.defs == d['defs']][0]
    scratch = tempfile.mkdtemp(prefix='vh_replay_')
    try:
        b = Builder(scratch)
        exe = native_build(b, c, d.get('sources') or c.src)
        v, txt = native_run(exe, d['inputs'], scratch, 'replay')
        print(v, txt)
        if d.get('lost'):
            return 0 if v == 'ok' and ('VH-REACHED: ' + d['lost']) in txt else 1
        return 1 if v in ('fail', 'hang') else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    if a and a[0] == '--harness':
        rc = 0
        scratch = tempfile.mkdtemp(prefix='vh_dev_')
        try:
            b = Builder(scratch)
            cs = []
            for n in a[1:]:
                n, _, cn = n.partition('.')
                for h in all_harnesses():
                    if h.name == n:
                        cs += [c for c in h.cases(TIER) if not cn or c.name == cn]
            with ThreadPoolExecutor(JOBS) as ex:
                results = list(ex.map(lambda c: decide(b, c), cs))
            for r in results:
                st = r.stats
                print('%-30s %-11s vccs=%d/%d steps=%d vars=%d clauses=%d symex=%.1fs solver=%.1fs wall=%.1fs unwind=%d replays=%d\n    %s' % (r.case.full, r.status, st['vccs_left'], st['vccs'], st['steps'], st['vars'], st['clauses'], st['symex_s'], st['solver_s'], st['wall'], st['unwind'], r.replayed, r.msg))
                for v in r.violations:
                    print('   CX', v['assertion'], v['location'], v['inputs'], '\n', v['native'], v['output'][:1800])
                if r.status == 'unconfirmed':
                    print('   inputs', r.unconf_inputs)
                if VERBOSE:
                    print('   functions', ' '.join(st['functions']))
                if r.status != 'holds':
                    rc = 1
            if os.environ.get('VH_SAVE'):
                w = load_witnesses()
                for r in results:
                    for k in [k for k in w if k.split(' ')[0] == r.case.full]:
                        del w[k]
                for r in results:
                    if r.status == 'holds':
                        w[wkey(r.case)] = r.reach
                with open(WITNESS, 'w') as f:
                    f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v, sort_keys=True)) for k, v in sorted(w.items())) + '\n}\n')
        finally:
            if not os.environ.get('VH_KEEP'):
                shutil.rmtree(scratch, ignore_errors=True)
            else:
                print('kept', scratch)
        return rc
    return check(a[0])


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
