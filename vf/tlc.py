"""Run TLC on a module of /verif/specs and collect what it printed, emitted and counted.

Specifications read their parameters from the environment (IOUtils!IOEnv) and emit ndjson
lines with CSV!CSVWrite into the file named by OUT, so one specification file serves as the model
that TLC checks, as the generator of behaviours and as the oracle that judges recorded ones.
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, 'specs')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The machinery itself failed (exit code 2): neither 'holds' nor 'violated'."""


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.depth = 0
        self.wall = 0.0
        self.emitted = []
        self.out = ''


_scratch = []


def scratch_dir():
    d = tempfile.mkdtemp(prefix='vf-')
    _scratch.append(d)
    return d


def cleanup():
    while _scratch:
        shutil.rmtree(_scratch.pop(), ignore_errors=True)


def _parse_cfg(cfg):
    """cfg: dict(spec=..|init=..,next=.., invariants=[], properties=[], constants={}, constraint=, view=,
    postcondition=, deadlock=False)"""
    lines = []
    if 'spec' in cfg:
        lines.append('SPECIFICATION %s' % cfg['spec'])
    else:
        lines.append('INIT %s' % cfg.get('init', 'Init'))
        lines.append('NEXT %s' % cfg.get('next', 'Next'))
    for key, kw in (('invariants', 'INVARIANT'), ('properties', 'PROPERTY'), ('constraints', 'CONSTRAINT'),
                    ('action_constraints', 'ACTION_CONSTRAINT')):
        for name in cfg.get(key, ()):
            lines.append('%s %s' % (kw, name))
    for k, v in cfg.get('constants', {}).items():
        lines.append('CONSTANT %s = %s' % (k, v))
    if cfg.get('view'):
        lines.append('VIEW %s' % cfg['view'])
    if cfg.get('postcondition'):
        lines.append('POSTCONDITION %s' % cfg['postcondition'])
    lines.append('CHECK_DEADLOCK %s' % ('TRUE' if cfg.get('deadlock') else 'FALSE'))
    return '\n'.join(lines) + '\n'


def brief(out):
    k = out.find('Error:')
    return out[k:k + 1500] + '\n ...\n' + out[-1500:] if k >= 0 else out[-2500:]


def run(module, cfg, env=None, workers=4, timeout=800, heap='3g', simulate=None, depth=None, seed=None,
        expect_error=False):
    """Run TLC once.  Returns Result; raises MachineryError when TLC reports anything but success."""
    d = scratch_dir()
    cfg_path = os.path.join(d, 'run.cfg')
    with open(cfg_path, 'w') as f:
        f.write(_parse_cfg(cfg))
    out_path = os.path.join(d, 'out.ndjson')
    open(out_path, 'w').close()
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e['OUT'] = out_path
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xmx' + heap, '-Xss64m',
           '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + d,
           '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'),
           '-workers', str(workers), '-config', cfg_path]
    if simulate:
        cmd += ['-simulate', simulate]
    if depth:
        cmd += ['-depth', str(depth)]
    if seed is not None:
        cmd += ['-seed', str(seed)]
    cmd.append(module + '.tla')
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired as ex:
        raise MachineryError('TLC timed out on %s after %ss\n%s' % (module, timeout, (ex.stdout or b'')[-2000:]))
    r = Result()
    r.wall = time.time() - t0
    r.out = p.stdout
    for m in re.finditer(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', p.stdout):
        r.transitions, r.states = int(m.group(1)), int(m.group(2))
    m = re.search(r'The number of states generated: (\d+)', p.stdout)
    if m and simulate:
        r.transitions = r.states = int(m.group(1))
    m = re.search(r'depth of the complete state graph search is (\d+)', p.stdout)
    if m:
        r.depth = int(m.group(1))
    failed = p.returncode != 0 or 'Error:' in p.stdout
    if failed and not expect_error:
        raise MachineryError('TLC failed on %s (exit %s):\n%s' % (module, p.returncode, brief(p.stdout)))
    r.failed = failed
    with open(out_path) as f:
        for line in f:
            line = line.strip()
            if not line:
                continue
            if len(line) > 8000 and workers > 1:    # concurrent writers may interleave beyond one buffer
                raise MachineryError('emitted line too long for several workers in ' + module)
            v = json.loads(line)
            if isinstance(v, str):
                v = json.loads(v)
            r.emitted.append(v)
    shutil.rmtree(d, ignore_errors=True)
    return r


def dedupe(items):
    seen = set()
    out = []
    for it in items:
        k = json.dumps(it, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(it)
    return out


def judge(module, items, env=None, shards=8, timeout=800, cfg=None, heap='2g', id_key='i', stats=None):
    """Let the specification judge recorded items.

    Each item is one line of the ndjson file IN; the module walks over the lines (one step each) and emits
    one verdict record per line.  Returns the list of verdict records, in item order.
    """
    if not items:
        return []
    shards = max(1, min(shards, (len(items) + 199) // 200))
    parts = [items[k::shards] for k in range(shards)]

    def one(part):
        d = scratch_dir()
        path = os.path.join(d, 'in.ndjson')
        with open(path, 'w') as f:
            for it in part:
                f.write(json.dumps(it) + '\n')
        e = dict(env or {})
        e['IN'] = path
        r = run(module, cfg or dict(init='JInit', next='JNext', invariants=['JEmit']), env=e,
                workers=1, timeout=timeout, heap=heap)
        shutil.rmtree(d, ignore_errors=True)
        res = {}
        for v in r.emitted:
            res[v[id_key]] = v
        if len(res) != len(part):
            raise MachineryError('%s judged %d of %d items\n%s' % (module, len(res), len(part), r.out[-3000:]))
        return r, [res[k + 1] for k in range(len(part))]

    with ThreadPoolExecutor(shards) as ex:
        results = list(ex.map(one, parts))
    out = [None] * len(items)
    for k, (r, vs) in enumerate(results):
        for j, v in enumerate(vs):
            out[k + j * shards] = v
        if stats is not None:
            stats['states'] = stats.get('states', 0) + r.states
            stats['transitions'] = stats.get('transitions', 0) + r.transitions
    return out


def seq(v):
    """ToJson writes an empty sequence as [] and an empty function as {}: both are an empty list here."""
    if v == {} or v is None:
        return []
    return v
