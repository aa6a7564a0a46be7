#!/usr/bin/env python3
"""Generates drv/fusion_gen.hpp: reactions made of random word lists and callback signatures (fixed seed)."""
import os, random

N, TYPES = 48, 4
r = random.Random(20260)
out = []
for i in range(N):
    words, data = [], []          # data: what the callback can receive, in order: (key, kind, c++ type)
    spec = dict(trig=[], need=[], opt=[], pool=0, groups=set(), prio=[], inl=0, single=0, gates=0, hooks=0, args=[], bind=[])
    ks = list(range(TYPES))
    r.shuffle(ks)
    nt = r.choice([1, 1, 1, 2, 2])
    for k in ks[:nt]:
        x = r.random()
        if x < 0.85:
            words.append(('Trigger<M<%d>>' % k, 'data', [(k, 'need')]))
        else:
            words.append(('Optional<Trigger<M<%d>>>' % k, 'data', [(k, 'opt')]))
        spec['trig'].append(k)
    rest = ks[nt:]
    if len(rest) == 2 and r.random() < 0.15:
        words.append(('Optional<With<M<%d>>, With<M<%d>>>' % tuple(rest), 'data', [(rest[0], 'opt'), (rest[1], 'opt')]))
        rest = []
    for k in rest:
        x = r.random()
        if x < 0.35:
            words.append(('With<M<%d>>' % k, 'data', [(k, 'need')]))
        elif x < 0.6:
            words.append(('Optional<With<M<%d>>>' % k, 'data', [(k, 'opt')]))
    for n in range(r.choice([0, 0, 1, 2])):
        words.append(('Own<%d, %d>' % (i, n), 'data', [(TYPES + n, 'own')]))
    if r.random() < 0.15:
        words.append(('Pair<%d>' % i, 'data', [(TYPES + 2, 'own'), (TYPES + 3, 'own')]))
    for n in range(r.choice([0, 0, 0, 1, 2, 3])):
        words.append(('Gate<%d, %d>' % (i, n), 'gate', []))
        spec['gates'] += 1
    for n in range(r.choice([0, 0, 1, 2, 3])):
        words.append(('Hook<%d, %d>' % (i, n), 'hook', []))
        spec['hooks'] += 1
    p = r.choice([0, 0, 1, 2, 3, 4])
    if p:
        words.append((['', 'MainThread', 'Pool<P1>', 'Pool<P2>', 'Pool<>'][p], 'pool', []))
        spec['pool'] = p if p < 4 else 0
    for g in r.sample(range(5), r.choice([0, 0, 0, 1, 1, 2, 3])):
        words.append((['Sync<S0>', 'Sync<S1>', 'Sync<S2>', 'Group<G2>', 'Group<G3>'][g], 'group', []))
        spec['groups'].add(g)
    for q in range(r.choice([0, 0, 1, 1, 2, 3])):
        n, v = r.choice([('REALTIME', 1000), ('HIGH', 750), ('NORMAL', 500), ('LOW', 250), ('IDLE', 0)])
        words.append(('Priority::' + n, 'prio', []))
        spec['prio'].append(v)
    inl = r.choice([0, 0, 0, 0, 1, 2])
    for n in range(inl and r.choice([1, 1, 2])):
        words.append((['', 'Inline::ALWAYS', 'Inline::NEVER'][inl], 'inl', []))
    spec['inl'] = inl
    x = r.random()
    if x < 0.08:
        words.append(('Single', 'single', []))
        spec['single'] = 1
    elif x < 0.14:
        words.append(('Buffer<2>', 'single', []))
        spec['single'] = 2
    for n in range(r.choice([0, 0, 0, 1, 2, 3])):
        words.append(('%s<%d, %d>' % (r.choice(['Takes', 'Returns', 'TakesTwo']), i, n), 'bind', []))
    # a word made of two words
    r.shuffle(words)
    if r.random() < 0.25:
        plain = [w for w in words if w[1] in ('group', 'prio')]
        if len(plain) >= 2 and plain[0][1] != plain[1][1]:
            a, b = plain[0], plain[1]
            words.remove(b)
            words[words.index(a)] = ('Both<%s, %s>' % (a[0], b[0]), 'both', [])
    for w in words:
        for k, kind in w[2]:
            data.append((k, kind))
            if kind != 'own':
                spec[kind].append(k)
    # the callback takes some of the data in order
    sel = [d for d in data if r.random() < 0.7]
    params, vals = [], []
    for n, (k, kind) in enumerate(sel):
        t = 'M<%d>' % k if k < TYPES else 'V<%d>' % (k - TYPES)
        form = r.choice(['std::shared_ptr<const %s> a%d', 'const std::shared_ptr<const %s>& a%d']) if kind == 'opt' else \
            r.choice(['const %s& a%d', '%s a%d', 'std::shared_ptr<const %s> a%d', 'const std::shared_ptr<const %s>& a%d'])
        params.append(form % (t, n))
        vals.append('val(a%d)' % n)
        spec['args'].append(k)
    bargs, rets = [], []
    for n, w in enumerate(words):
        if w[1] == 'bind':
            kind = w[0].split('<')[0]
            a, b = r.randrange(1000), r.randrange(1000)
            if kind == 'Takes':
                bargs.append(str(a))
                spec['bind'].append(a)
            elif kind == 'Returns':
                bargs.append('std::string("%d")' % a)
                spec['bind'].append(a)
                rets.append(a + 1)
            else:
                bargs += [str(a), '"%d"' % b]
                spec['bind'] += [a, b]
                rets.append(a * 1000 + b)
    wl = ', '.join(w[0] for w in words)
    body = 'ran(%d, {%s});' % (i, ', '.join(vals))
    form = r.choice(['lambda', 'lambda', 'lambda', 'label', 'function', 'object', 'pointer'])
    if form == 'object':
        out.append('struct F%d { void operator()(%s) const { %s } };' % (i, ', '.join(params), body))
        cb = 'F%d()' % i
    elif form == 'pointer':
        out.append('void f%d(%s) { %s }' % (i, ', '.join(params), body))
        cb = '&f%d' % i
    else:
        cb = '[](%s) { %s }' % (', '.join(params), body)
        if form == 'function':
            cb = 'std::function<void(%s)>(%s)' % (', '.join(p.rsplit(' ', 1)[0] for p in params), cb)
        elif form == 'label':
            cb = '"label %d", %s' % (i, cb)
    mask = lambda s: sum(1 << x for x in s)
    out.append('static const Spec spec%d = {%d, %d, %d, %d, %d, %d, %d, %d, %d, %d, %d, {%s}, {%s}, "%s", "%s"};' % (
        i, i, mask(spec['trig']), mask(spec['need']), mask(spec['opt']), spec['pool'], mask(spec['groups']),
        max(spec['prio']) if spec['prio'] else 500, spec['inl'], spec['single'], spec['gates'], spec['hooks'],
        ', '.join(map(str, spec['args'])), ', '.join(map(str, spec['bind'])), wl, ', '.join(p.rsplit(' ', 1)[0] for p in params)))
    call = 'on<%s>(%s).then(%s)' % (wl, ', '.join(bargs), cb)
    if rets:
        res = ' '.join('returned(%d, std::get<%d>(res), %d);' % (i, n + 1, v) for n, v in enumerate(rets))
        st = 'auto res = %s; handle(%d, std::get<0>(res)); %s' % (call, i, res)
    else:
        st = 'handle(%d, %s);' % (i, call)
    out.append('struct Part%d : Base { using Base::Base; void make() { %s } };' % (i, st))
out.append('static const Spec* const specs[] = {%s};' % ', '.join('&spec%d' % i for i in range(N)))
out.append('template <typename F> void each(F&& f) { %s }' % ' '.join('f(%d, [](N::PowerPlant& p) { p.install<Installer<Part%d>>(); });' % (i, i) for i in range(N)))
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'drv', 'fusion_gen.hpp')
open(path, 'w').write('// Generated by bin/gen_fusion.py\nconstexpr int N_SPECS = %d;\n' % N + '\n'.join(out) + '\n')
