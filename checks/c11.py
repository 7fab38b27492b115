"""C11: the router after any edit history equals the abstract router of Router.tla.

1. exhaustive: TLC enumerates the reachable abstract routers to a depth, with the answer to every probe and the
   effect of every edit; the code is walked through the same graph, merging code states with equal fingerprints
2. random long histories, judged by the specification."""
import json

from vf import core, wsgi
from checks import router_common as rc


class World:
    """One application edited through its public entry points."""

    def __init__(self, ombott):
        self.app = ombott.Ombott()
        self.router = self.app.router
        self.log = []

    def do(self, op, rule, o, alt=0):
        app, router = self.app, self.router
        try:
            if op == 'add':
                h = rc.Handler(o['h'], self.log)
                ms = [rc.text(m) for m in o['ms']]
                name = o['name'] or None
                if alt % 2:
                    app.route(rule, ms if len(ms) > 1 else ms[0], name=name, overwrite=o['ow'])(h)
                else:
                    router.add(rule, ms, h, name, overwrite=o['ow'])
            elif op == 'remove':
                if rule.endswith('*'):           # as a rule text it would be a prefix
                    router.remove(router[{rule}])
                elif alt % 3 == 0:
                    app.remove_route(rule)
                elif alt % 3 == 1:
                    route = router[{rule}]
                    router.remove(route if route is not None else rule)
                else:
                    router.remove(route_pattern=router.to_pattern(rule))
            elif op == 'removename':
                if alt % 2:
                    app.remove_route(name=o['name'])
                else:
                    router.remove(name=o['name'])
            elif op == 'removeprefix':
                app.remove_route(rule + '*') if alt % 2 else router.remove(rule + '*')
            elif op == 'delmethod':
                route = router[{rule}]
                if route is not None:
                    route.remove_method([rc.text(m) for m in o['ms']])
            elif op == 'hook':
                hid, log = o['h'], self.log

                def hook(path):
                    log.append(('hook', hid, path))
                if alt % 3:
                    app.on_route(rule, hook)
                else:
                    app.on_route(rule)(hook)
            elif op == 'phook':
                hid, log, resp = o['h'], self.log, app.response

                def part(path, values):
                    log.append(('part', hid, path, list(values)))
                    resp.status = 404
                    return 'no route'
                app.error(404, rule)(part)
            elif op == 'unhook':
                app.remove_route_hook(rule) if alt % 2 else router.remove_hook(rule)
            return True
        except Exception:
            return False

    def ask(self, path, meth='GET'):
        del self.log[:]
        try:
            route = self.router.resolve(path)
        except Exception as e:
            return dict(code=599, err='resolve: %r' % e)
        r = wsgi.call(self.app, wsgi.environ(rc.latin(path), meth))
        if r.exc is not None:
            return dict(code=599, err=repr(r.exc))
        if (route is None) != (r.code == 404):
            return dict(code=r.code, err='resolve: %r' % route, body=r.text()[:200])
        out = dict(code=r.code, part=[list(x[1:]) for x in self.log if x[0] == 'part'])
        if r.code == 200:
            calls = [x for x in self.log if x[0] == 'call']
            out['h'] = calls[0][1] if len(calls) == 1 else None
            out['kw'] = calls[0][3] if calls else {}
            out['hooks'] = [[x[1], x[2]] for x in self.log if x[0] == 'hook']
            out['late'] = bool(self.log) and self.log[-1][0] == 'hook'
        if r.code == 405:
            out['allow'] = sorted(x.strip() for x in (r.header('Allow') or '').split(',') if x.strip())
        return out


def good(got, a, path):
    if got['code'] != a['code'] or 'err' in got or got['part'] and (a['code'] != 404 or len(got['part']) > 1):
        return False
    if a['code'] == 405:
        return got['allow'] == [rc.text(x) for x in a['allow'] or []]
    if a['code'] == 200:
        p = '/' + path.strip('/')
        hooks = [[h, p[:1 + n]] for h, n in a['hooks'] or []]
        return got['h'] == a['h'] and rc.kw_equal(got['kw'], rc.expected_kwargs(a)) and got['hooks'] == hooks and not got['late']
    return True


def indexes(world, rules, names, st, hooked={}):
    """Lookups by name and rule agree with the abstract router.  rules, hooked: {pattern json: (rule text)}"""
    r = world.router
    hooks = {json.dumps(x['p'] or []) for x in list(st['hooks'] or []) + list(st['part'] or [])}
    plain = {bare_of(p) for p in hooks}
    for p, text in hooked.items():
        if p not in hooks and bare_of(p) in plain:
            continue                             # a rule that differs only in its filters: unspecified
        try:
            hook = r.get_hook(text)
        except KeyError:
            hook = None
        if bool(hook) != (p in hooks):
            return 'hook of %s: %r' % (text, hook)
    pats = {json.dumps(x['p'] or []) for x in st['routes'] or []}
    bound = {x[0]: json.dumps(x[1] or []) for x in st['names'] or []}
    live = {}
    for p, text in rules.items():
        route = r[{text}] if len(text) % 3 else r[dict(rule=text)]
        if (route is not None) != (p in pats):
            return 'lookup by rule %s: %r' % (text, route)
        if route is not None:
            live[p] = route
    for n in names:
        route = r[n]
        if n not in bound:
            if route is not None:
                return 'name %s still bound: %r' % (n, route)
        elif bound[n] in live and route is not live[bound[n]]:
            return 'name %s: %r is not %r' % (n, route, live[bound[n]])
    got = list((world.app if len(live) % 2 else r).routes.values())
    if len(got) != len(pats) or {id(x) for x in got} != {id(x) for x in live.values()}:
        return 'routes: %r instead of %r' % (got, list(live.values()))
    return ''


def bare_of(p):
    return json.dumps([[x[0], 0 if x[0] == 1 else x[1]] for x in json.loads(p)])


def pat_of(it):
    out = []
    for k, (w, a, f) in enumerate(it):
        if not w:
            out.append([0, a, []])
        elif w == 2:
            out.append([2, a, []])
        else:
            tail = []
            if f == -1:
                for x in it[k + 1:]:
                    if x[0]:
                        break
                    tail.append(x[1])
            out.append([1, f, tail])
    return json.dumps(out)


BROKEN = ['/<x', '/{x', '/<1>', '/<x:nofilter>', '/<x.re([)>', '/<x.int(>']


def explore(chk, ombott, uni, depth, E0):
    rnd = chk.rnd
    E = dict(E0, HUNI=uni, HDEPTH=depth)
    ops = chk.model('Router', dict(init='HInit', next='HShowNext', invariants=['HShow']), env=E).emitted[0]['ops']
    g = chk.model('Router', dict(init='HInit', next='HNext', invariants=['HOK', 'HEmit'], view='HView'), env=E, workers=1, timeout=3000, heap='6g')
    states = {}
    for c in g.emitted:
        states[json.dumps(c['st'], sort_keys=True)] = c
    for o in ops:
        o['it'] = [x if len(x) == 3 else list(x) + [0] for x in o['it'] or []]
    rule = [rc.render(o['it'], rnd, True) for o in ops]
    every = {pat_of(o['it']): t for o, t in zip(ops, rule) if o['op'] == 'add'}
    hooked = {pat_of(o['it']): t for o, t in zip(ops, rule) if o['op'] in ('hook', 'phook')}
    names = sorted({o['name'] for o in ops if o['name']})
    start = json.dumps(dict(routes=[], names=[], hooks=[], part=[]), sort_keys=True)
    if start not in states:
        start = next(k for k, c in states.items() if c['lvl'] == 0)
    done = set()
    frontier = [(start, ())]
    probes = steps = 0
    for level in range(depth + 1):
        nxt = []
        for key, path in frontier:
            c = states.get(key)
            if c is None:
                continue
            w = World(ombott)
            asked = ['/' + rc.text(a['s']) for a in c['ans'][:3]]
            for k in path:
                w.do(ops[k]['op'], rule[k], ops[k], alt=k + len(path))
                for p in asked:                  # requests between the edits change nothing
                    w.ask(p), w.ask(p, 'PUT')
            try:
                fp = hash((key, rc.canon(w.router)))
            except Exception:
                fp = hash((key, path))
            if fp in done:
                continue
            done.add(fp)
            story = [(ops[k]['op'], rule[k], ops[k]['h'], ops[k]['name']) for k in path]
            bad = indexes(w, every, names, c['st'], hooked)
            if bad:
                chk.violation('C11 lookups disagree with the surviving routes', dict(ops=story, problem=bad))
                continue
            for a in c['ans']:
                p = '/' + rc.text(a['s'])
                got = w.ask(p)
                probes += 1
                if not good(got, a['a'], p):
                    chk.violation('C11 the edited router answers differently', dict(ops=story, path=p, got=got, want=a['a']))
                    break
            else:
                if level == depth:
                    continue
                for k, m in enumerate(c['moves']):
                    if m.get('off'):
                        continue
                    w2 = World(ombott)
                    for j in path:
                        w2.do(ops[j]['op'], rule[j], ops[j], alt=j + len(path) + 1)
                    ok = w2.do(ops[k]['op'], rule[k], ops[k], alt=k + len(path) + 1)
                    steps += 1
                    if ok != m['ok']:
                        chk.violation('C11 edit %s' % ('accepted' if ok else 'refused'), dict(ops=story, edit=(ops[k]['op'], rule[k], ops[k]['name'])))
                        continue
                    nxt.append((json.dumps(m['st'], sort_keys=True), path + (k,)))
        frontier = nxt
    chk.bump('code_states', len(done))
    chk.bump('edits_checked', steps)
    return probes


def dense_family(rnd):
    """Rules that share most of their letters: many branching points in few characters."""
    fam = []
    for _ in range(rnd.choice([4, 6, 9])):
        b = rnd.choice(fam) if fam and rnd.random() < .7 else []
        it = [x[:] for x in b[:rnd.randrange(len(b) + 1)]]
        for _ in range(rnd.randrange(1, 4)):
            if rnd.random() < .15 and not any(x[0] for x in it):
                it = it + [[1, rnd.choice([1, 2, 3]), 0]]
            else:
                it = it + rc.lit(rnd.choice('ab/'))
        while it and it[0][:2] == [0, 47]:
            it = it[1:]
        while it and it[-1][:2] == [0, 47]:
            it = it[:-1]
        fam.append(it)
    return fam


def instance(rnd, it):
    return '/' + ''.join(rnd.choice(rc.SAMPLES[f]) if w else chr(a) for w, a, f in it if w < 2)


def histories(chk, ombott, count, E, dense=False, wide=False):
    rnd = chk.rnd
    items, meta = [], []
    for _ in range(count):
        fam = rc.long_family(rnd) if wide else dense_family(rnd) if dense else rc.rule_family(rnd, rnd.choice([3, 5, 8]))
        if rnd.random() < .25:                   # a literal '*' at the end of a rule is no prefix wildcard
            fam += [it + rc.lit('*') for it in rnd.sample(fam, rnd.choice([1, 2])) if not it or not it[-1][0]]
        bare = rnd.random() < .6
        w = World(ombott)
        ops, story, oks = [], [], []
        live, hooks, names = {}, {}, ['n', 'm', 'k']
        pool = [(instance(rnd, it), rnd.choice(['GET', 'GET', 'POST', 'HEAD', 'PUT'])) for it in rnd.sample(fam, min(len(fam), 4))]
        pool.append((rc.rand_path(rnd, fam), 'GET'))
        busy, parts = rnd.random() < .6, rnd.random() < .4
        first = len(fam) if wide else 0
        for j in range(first + rnd.choice([4, 8, 15, 30]) if not wide else first + rnd.randrange(1, 8)):
            kind = rnd.choice(['add'] * 8 + ['remove'] * 3 + ['removename', 'removeprefix', 'delmethod', 'hook', 'hook', 'unhook'] + ['phook', 'phook'] * parts)
            it = rnd.choice(fam)
            if wide:
                kind = 'add' if j < first else rnd.choice(['removeprefix', 'removeprefix', kind])
                it = fam[j] if j < first else it
            if kind in ('hook', 'phook') and rnd.random() < .6:
                it = it[:rnd.randrange(len(it) + 1)]
                keep = rnd.random() < .3
                while it and it[-1][:2] == [0, 47] and not keep:
                    it = it[:-1]
            o = dict(op=kind, it=it, ms=[], h=j + 1, name='', ow=False)
            if kind == 'add':
                o['ms'] = [rc.codes(m) for m in rnd.sample(['GET', 'POST', 'ANY'], rnd.choice([1, 1, 2]))]
                o['name'] = rnd.choice(names + ['', '', ''])
                o['ow'] = rnd.random() < .25
            elif kind == 'remove':
                if live and rnd.random() < .85:
                    o['it'] = rnd.choice(list(live.values()))
                elif any(same_text(it, x) for x in live.values()):
                    continue                     # a rule that differs only in its filters: unspecified
            elif kind == 'unhook':
                if hooks and rnd.random() < .85:
                    o['it'] = rnd.choice(list(hooks.values()))
                elif any(same_text(it, x) for x in hooks.values()):
                    continue
            elif kind == 'removename':
                o['name'] = rnd.choice(names)
            if o['it'] and o['it'][-1][:2] == [0, 42] and (kind in ('hook', 'phook', 'unhook') or kind == 'remove' and rc.key(o['it']) not in live):
                continue                         # '*' is refused there, or a prefix
            elif kind == 'removeprefix':
                cut = rnd.randrange(len(it) + 1) if not wide else rnd.choice([0, 1, 1, 1, 2, 3])
                it = it[:cut]
                if any(same_text(it, x[:len(it)]) for x in hooks.values() if len(x) >= len(it)):
                    continue
                if any(same_text(it, x[:len(it)]) and rc.key(it) != rc.key(x[:len(it)]) for x in live.values()):
                    continue
                if it and it[-1][0] and it[-1][2] == 0 and it[-1][1] == 0:
                    continue
                # a path wildcard's filter is the literal behind it: it must not be cut
                if any(x[0] and x[2] == -1 for x in it):
                    continue
                o['it'] = it
            elif kind == 'delmethod':
                if not live:
                    continue
                o['it'] = rnd.choice(list(live.values()))
                o['ms'] = [rc.codes(rnd.choice(['GET', 'POST', 'ANY']))]
            it = o['it']
            rule = rc.render(it, rnd, bare)
            if rnd.random() < .08:               # a rule that cannot be parsed is refused and leaves no trace
                try:
                    w.router.add(rule + rnd.choice(BROKEN), ['GET'], rc.Handler(99), rnd.choice(names))
                except Exception:
                    pass
                else:
                    break
            if kind == 'removeprefix' and it and it[-1][0]:
                rule = rc.render(it, _NoColon(rnd), bare)   # ':name' would swallow the '*'
            ok = w.do(kind, rule, o, alt=rnd.randrange(6))
            ops.append(o)
            oks.append(ok)
            for path, m in rnd.sample(pool, 2 if busy else 0):             # requests between the edits change nothing
                w.ask(path, m)
            story.append((kind, rule, [rc.text(m) for m in o['ms']], o['h'], o['name'], o['ow'], ok))
            if ok:
                k = rc.key(it)
                if kind == 'add':
                    live[k] = it
                elif kind == 'remove':
                    live.pop(k, None)
                elif kind == 'removeprefix':
                    for q in [q for q in live if q[:len(k)] == k]:
                        live.pop(q)
                elif kind in ('hook', 'phook'):
                    hooks[k] = it
                elif kind == 'unhook':
                    hooks.pop(k, None)
                elif kind == 'removename':
                    live = {q: x for q, x in live.items() if w.router[{rc.render(x, rnd, bare)}] is not None}
        req, got = [], []
        paths = [instance(rnd, it) for it in list(live.values())[-10:]]
        asks = pool + [(path, None) for path in paths] + [(None, None)] * 8
        for path, m in asks:
            if path is None:
                path = rc.rand_path(rnd, [o['it'] for o in ops] or fam)
            m = m or rnd.choice(['GET', 'GET', 'POST', 'HEAD', 'PUT'])
            req.append(dict(s=rc.codes(path), m=rc.codes(m)))
            got.append(w.ask(path, m))
        htexts = {pat_of(x): rc.render(x, rnd, bare) for x in (o['it'] for o in ops if o['op'] in ('hook', 'phook'))}
        texts = {pat_of(x): rc.render(x, rnd, bare) for x in (o['it'] for o in ops if o['op'] == 'add')}
        items.append(dict(kind='hist', ops=ops, fs=rc.FS, req=req))
        meta.append(dict(ops=story, oks=oks, got=got, world=w, texts=texts, htexts=htexts))
    n = 0
    for o, m, v in zip(items, meta, chk.judge('Router', items, env=E)):
        v = v['r']
        w, texts, htexts = m.pop('world'), m.pop('texts'), m.pop('htexts')
        if list(v['oks'] or []) != m['oks']:
            d = next(k for k, (a, b) in enumerate(zip(m['oks'], v['oks'])) if a != b)
            chk.violation('C11 edit %s' % ('accepted' if m['oks'][d] else 'refused'), dict(ops=m['ops'], at=d))
            continue
        bad = indexes(w, texts, ['n', 'm', 'k'], dict(routes=[dict(p=p) for p in v['pats'] or []], names=v['names'], hooks=v['hooks'], part=v['part']), htexts)
        if bad:
            chk.violation('C11 lookups disagree with the surviving routes', dict(ops=m['ops'], problem=bad))
            continue
        if v['part']:                            # paths without a route: the one hook a fresh router would call
            fresh = World(ombott)
            todo = [('add', texts[json.dumps(p or [])], dict(ms=[rc.codes('GET')], h=1, name='', ow=False)) for p in v['pats'] or []]
            todo += [('hook', htexts[json.dumps(x['p'] or [])], dict(h=x['h'])) for x in v['hooks'] or []]
            todo += [('phook', htexts[json.dumps(x['p'] or [])], dict(h=x['h'])) for x in v['part'] or []]
            rnd.shuffle(todo)
            for op, rule, x in todo:
                fresh.do(op, rule, x)
            for q, g1, a in zip(o['req'], m['got'], v['ans'] or []):
                if a['code'] == 404:
                    f = fresh.ask(rc.text(q['s']), 'GET')
                    chk.bump('paths without a route under hooks')
                    if f != g1:
                        chk.violation('C11 the edited router answers differently', dict(ops=m['ops'], path=rc.text(q['s']), got=g1, fresh=f))
                        break
        for q, g1, a in zip(o['req'], m['got'], v['ans'] or []):
            n += 1
            if not good(g1, a, rc.text(q['s'])):
                chk.violation('C11 the edited router answers differently', dict(
                    ops=m['ops'], path=rc.text(q['s']), method=rc.text(q['m']), got=g1, want=a))
                break
    for m in meta[:3]:
        chk.sample(m)
    return n


class _NoColon:
    """A random source that never picks the ':name' spelling (it needs the end of the rule)."""

    def __init__(self, rnd):
        self.rnd = rnd

    def choice(self, xs):
        ys = [x for x in xs if not (isinstance(x, str) and x.startswith(':'))]
        return self.rnd.choice(ys or xs)


def same_text(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and (x[0] == 1 or x[1] == y[1]) for x, y in zip(a, b))


def check(chk):
    ombott = core.use_repo()
    E = dict(MAXR=1, PLEN=1, MAXOPS=1, HDEPTH=1, HUNI=1)
    n = 0
    for uni in (1, 2, 3):
        n += explore(chk, ombott, uni, chk.pick(3, 5), E)
    for uni in (4, 5, 6):
        n += explore(chk, ombott, uni, chk.pick(4, 6), E)
    n += histories(chk, ombott, chk.pick(700, 9000), E)
    n += histories(chk, ombott, chk.pick(500, 6000), E, dense=True)
    n += histories(chk, ombott, chk.pick(40, 500), E, wide=True)
    chk.count(n)
