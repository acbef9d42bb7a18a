"""Configuration: what is built is what is described; what describes nothing is refused."""
import json
import re
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib import ttml

WORKER = ['config_ops']
DAY = 86400
DEF = {
    'simple-producer': dict(show_time=False, sequence_identifier='TestSequence1', interval=2.0, clock='local'),
    'simple-consumer': dict(verbose=False, clock='auto'),
    'resequencer': dict(sequence_identifier='ReSequenced1', segment_length=2.0, begin_output='immediate', discard=True, clock='local'),
    'ebuttd-encoder': dict(media_time_zero='current', default_namespace=False, clock='local'),
    'buffer-delay': dict(delay=0.0),
    'retiming-delay': dict(delay=0.0, sequence_identifier='RetimedSequence1'),
    'handover': dict(authors_group_identifier='AuthorsGroup1', sequence_identifier='HandoverSequence1'),
    'deduplicator': dict(sequence_identifier='DeDuplicated1'),
    'distributor': dict(),
}
IDS = {'simple-producer': 'simple-producer', 'simple-consumer': 'simple-consumer', 'resequencer': 're-sequencer', 'ebuttd-encoder': 'ebuttd-encoder',
       'buffer-delay': 'buffer-delay', 'retiming-delay': 'retiming-delay', 'deduplicator': 'de-duplicator', 'handover': 'generic_node',
       'distributor': 'generic_node'}
FS = dict(folder=None, rotating_buf=0, suppress_manifest=False, filename_pattern='{sequence_identifier}_{counter}.xml',
          message_filename_pattern='{sequence_identifier}_msg_{counter}.xml')
IN = {'buffer-delay': 'text'}
OUT = {'buffer-delay': 'text', 'distributor': 'text', 'ebuttd-encoder': 'ebuttd'}
MIDDLE = ['resequencer', 'deduplicator', 'buffer-delay', 'retiming-delay', 'handover', 'distributor', 'ebuttd-encoder']


def clock_time(sec):
    ms = int(round(sec * 1000))
    return '%02d:%02d:%02d.%03d' % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000)


@st.composite
def cases(draw):
    pick = lambda xs: xs[draw(st.integers(0, len(xs) - 1))]
    chance = lambda n: draw(st.integers(0, n - 1)) == 0
    tz = pick([0, 0, 60, -330])
    day = pick([36000, 37234.5, 100, 50000])
    start = int((1510000 * 60 * 60 // DAY * DAY + day) * 1000000)
    local = (day + tz * 60) % DAY
    spec = dict(tz=tz, start=start, until=pick([8, 13, 21]), nodes=[], feeds=[], subs=[], pubs=[], servers=[], talkers=[])
    ports = iter(range(9001, 9100))
    count = 0

    def name(kind):
        nonlocal count
        count += 1
        return '%s%d' % (kind, count)

    def ext_docs(sid, n, group=None, tb='clock', cm='local'):
        """(time, text) of documents for the sequence"""
        out, t, num = [], 0.2137, 0
        for _ in range(n):
            t += draw(st.integers(1, 40)) / 10
            num += 0 if num and chance(5) else 1
            base = local if tb == 'clock' else 0
            at = lambda x: clock_time(base + x) if tb == 'clock' else clock_time(x)
            b = t + draw(st.integers(-10, 30)) / 10
            ps = ''.join('<tt:p xml:id="p%d"%s><tt:span%s>%s %d %d</tt:span></tt:p>' % (
                i, ' begin="%s" end="%s"' % (at(max(0, b + i)), at(max(0, b + i) + pick([1, 1.5, 4]))), ' xml:id="s%d"' % i if chance(3) else '', pick(['x', 'é', 'a b']), num, i)
                for i in range(draw(st.integers(1, 2))))
            body = '<tt:body%s><tt:div>%s</tt:div></tt:body>' % (pick(['', '', ' dur="6s"']), ps)
            text = ('<tt:tt xmlns:tt="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" xmlns:ebuttp="urn:ebu:tt:parameters"'
                    ' xml:lang="en" ttp:timeBase="%s"%s ebuttp:sequenceIdentifier="%s" ebuttp:sequenceNumber="%d"%s><tt:head/>%s</tt:tt>' % (
                        tb, ' ttp:clockMode="%s"' % cm if tb == 'clock' else '', sid, num,
                        ' ebuttp:authorsGroupIdentifier="%s" ebuttp:authorsGroupControlToken="%d"' % (group, draw(st.integers(1, 9))) if group else '', body))
            out.append([round(t, 4), text])
        return out
    groups = ['g1', 'AuthorsGroup1']
    tb, cm = pick([('clock', 'local'), ('clock', 'local'), ('clock', 'utc'), ('media', None)])
    # multiples of 1/64 s without common multiples within the run: the order of simultaneous events is not defined
    periods = {'simple-producer': [1.734375, 2.265625, 3.140625, 2.0, 2], 'resequencer': [2.890625, 1.359375, 2.0, 1.890625]}
    used, sids = set(), set()

    def options(t):
        o, omit = dict(DEF[t]), []
        for k in list(o):
            if k == 'verbose' or chance(3):
                omit.append(k)
                continue
            if k in ('sequence_identifier',):
                o[k] = name('Q')
            elif k == 'show_time':
                o[k] = draw(st.booleans())
            elif k == 'clock':
                o[k] = pick(['local', 'local', 'utc'] + (['auto'] if t == 'simple-consumer' else []))
            elif k in ('interval', 'segment_length'):
                o[k] = pick(periods[t])
            elif k == 'delay':
                o[k] = pick([0.0, 0, 0.37, 1.019, 2, 0.013] if t == 'buffer-delay' else [0, 0.0, 1, 2.5, 0.013])
            elif k == 'discard' or k == 'default_namespace':
                o[k] = draw(st.booleans())
            elif k == 'begin_output' and chance(3):
                base = local if o.get('clock') == 'local' else day     # set again below when the clock is chosen later
                o[k] = ('at', pick([0.41, 1.53, 3]))
            elif k == 'media_time_zero' and chance(2):
                o[k] = '00:00:00.000' if chance(3) else clock_time(max(0, local - pick([0.5, 10, 90])))
            elif k == 'authors_group_identifier':
                o[k] = pick(groups)
        if isinstance(o.get('begin_output'), tuple):
            o['begin_output'] = clock_time((local if o['clock'] == 'local' else day) + o['begin_output'][1])
        for k in ('interval', 'segment_length'):
            if k in o:
                if float(o[k]) in used:
                    free = [p for p in periods[t] if float(p) not in used] or [o[k]]
                    o[k] = free[0]
                    if k in omit:
                        omit.remove(k)
                used.add(float(o[k]))
        if o.get('sequence_identifier') in sids:
            o['sequence_identifier'] = name('Q')
            if 'sequence_identifier' in omit:
                omit.remove('sequence_identifier')
        sids.add(o.get('sequence_identifier'))
        # an option that is written down although it is the default is as good
        return o, omit

    def add(t):
        o, omit = options(t)
        n = dict(type=t, opts=o, omit=omit, id=None, strings=chance(3))
        if chance(2):
            n['id'] = name('id-')
        n['given_id'] = n['id'] is not None
        n['id'] = n['id'] or IDS[t]
        spec['nodes'].append(n)
        return n
    # open ends: nodes whose output is to be connected; (node, sequence, the type it provides)
    free = []
    extra = None
    kind = pick(['producer', 'producer', 'producer', 'outside publisher', 'outside publisher', 'outside server', 'fs', 'talker'])
    fs = False
    ext_server = None
    if kind == 'producer':
        n = add('simple-producer')
        free.append((n, n['opts']['sequence_identifier'], 'ebutt3'))
    size = draw(st.integers(1, 5))

    def connected_input(n):
        """input of the first node of a chain that is fed from outside"""
        nonlocal fs
        sid = name('X')
        group = pick([None, groups[0], groups[1]]) if n['type'] != 'handover' else (n['opts']['authors_group_identifier'] if not chance(4) else pick(groups))
        docs = ext_docs(sid, draw(st.integers(1, 6)), group, tb, cm)
        if kind == 'outside publisher':
            p = next(ports)
            n['in'] = {'listen': p}
            spec['pubs'].append(dict(port=p, sid=sid, at=pick([0.0101, 0.0101, 1.0101]), sends=docs))
            if n['type'] == 'handover' or chance(5):
                s2 = name('X')
                spec['pubs'].append(dict(port=p, sid=s2, at=0.0102, sends=[[t + 0.0571, x] for t, x in ext_docs(s2, draw(st.integers(1, 5)), group, tb, cm)]))
        elif kind == 'outside server':
            p = next(ports)
            n['in'] = {'connect': [[p, sid]]}
            spec['servers'].append(dict(port=p, sends=[[t, sid, x] for t, x in docs]))
            if chance(3):
                n['in']['listen'] = next(ports)
                s2 = name('X')
                spec['pubs'].append(dict(port=n['in']['listen'], sid=s2, at=0.0102, sends=[[t + 0.0571, x] for t, x in ext_docs(s2, 2, group, tb, cm)]))
        elif kind == 'talker':
            p = next(ports)
            n['in'] = {'old': p}
            spec['talkers'].append(dict(port=p, sends=docs))
        else:
            fs = True
            n['in'] = {'fs': len(spec['feeds'])}
            n['tail'] = pick([None, None, False, True])
            spec['feeds'].append([[clock_time((local if tb == 'clock' else 0) + t), x] for t, x in docs])
        return 'default' if n['type'] == 'ebuttd-encoder' or (n['type'] == 'buffer-delay' and kind in ('fs', 'talker')) else \
            n['opts'].get('sequence_identifier', sid)
    if kind != 'producer':
        t = pick(MIDDLE + ['simple-consumer'])
        n = add(t)
        sid = connected_input(n)
        if t != 'simple-consumer':
            free.append((n, sid, OUT.get(t, 'ebutt3')))
    done = []
    while free:
        n, sid, provides = free.pop(draw(st.integers(0, len(free) - 1)))
        n['out'] = {}
        room = 9 - len(spec['nodes']) - len(free)
        go = provides != 'ebuttd' and room > 0 and len(spec['nodes']) <= size
        how = pick(['direct', 'ws', 'ws', 'fs'] if go else ['ws', 'ws', 'fs', 'fs'])
        if fs:
            how = pick(['direct', 'fs']) if go else 'fs'
        if how == 'ws' and not fs and chance(6):
            # the older protocol
            p = next(ports)
            n['out'] = {'old': p}
            spec['subs'].append(dict(port=p, sid=sid, at=pick([0.0103, 2.0103]), old=True))
            continue
        if how == 'fs':
            n['out'] = {'fs': True}
            n['fs'] = dict(FS, folder='@DIR@/out%d' % len(spec['nodes']))
            n['fs']['folder'] = '@DIR@/' + name('out')
            n['fsomit'] = []
            for k, v in (('rotating_buf', [1, 3]), ('suppress_manifest', [True, False]), ('filename_pattern', ['a-{counter}-{sequence_identifier}.xml', '{counter}.ttml']),
                         ('message_filename_pattern', ['m_{counter}.xml', '{sequence_identifier}-m{counter}.xml'])):
                if chance(2):
                    n['fsomit'].append(k)
                elif not chance(3):
                    n['fs'][k] = pick(v)
            continue
        if how == 'direct':
            t = pick(MIDDLE + ['simple-consumer', 'simple-consumer'])
            child = add(t)
            n['out'] = {'direct': 'default' if not any('direct' in (m.get('out') or {}) and m is not n for m in spec['nodes']) and chance(2) else name('pipe')}
            child['in'] = dict(n['out'])
            if provides == 'ebutt3' and IN.get(t) == 'text':
                n['out']['adapters'] = ['ebutt3->xml']
            elif provides == 'text' and IN.get(t) != 'text':
                child['in']['adapters'] = ['xml->ebutt3']
            children = [child]
        else:
            p = next(ports)
            if chance(2):
                n['out']['listen'] = p
                spec['subs'].append(dict(port=p, sid=sid, at=pick([0.0103, 0.0103, 2.0103])))
                if chance(4):
                    spec['subs'].append(dict(port=p, sid='other', at=0.0104))
            if not n['out'] or chance(4):
                # publish to somebody outside
                p2 = next(ports)
                n['out']['connect'] = [[p2, sid if not chance(8) else 'other']]
                spec['servers'].append(dict(port=p2, sends=[]))
            children = []
            if go:
                for _ in range(pick([1, 1, 2]) if room > 1 else 1):
                    child = add(pick(MIDDLE + ['simple-consumer', 'simple-consumer']))
                    children.append(child)
                    s = sid if not chance(12) else 'other'
                    if n['out'].get('listen') and chance(2):
                        child['in'] = {'connect': [[n['out']['listen'], s]]}
                    else:
                        q = next(ports)
                        child['in'] = {'listen': q}
                        n['out'].setdefault('connect', []).append([q, s])
        for child in children:
            t = child['type']
            if t != 'simple-consumer':
                free.append((child, 'default' if t == 'ebuttd-encoder' else child['opts'].get('sequence_identifier', sid), OUT.get(t, 'ebutt3')))
    # an output and an input may share the address they listen on
    outs = [n for n in spec['nodes'] if (n.get('out') or {}).get('listen')]
    ins = [n for n in spec['nodes'] if (n.get('in') or {}).get('listen')]
    if outs and ins and chance(2):
        o, i = pick(outs), pick(ins)
        old, new = o['out']['listen'], i['in']['listen']
        o['out']['listen'] = new
        for s in spec['subs']:
            if s['port'] == old:
                s['port'] = new
        for m in spec['nodes']:
            for c in (m.get('in') or {}).get('connect', []):
                if c[0] == old:
                    c[0] = new
        spec['shared'] = True
    slots = draw(st.permutations([1, 2, 3, 4, 5, 6, 7, 8, 9]))[:len(spec['nodes'])]
    if chance(2):
        slots = list(range(1, len(spec['nodes']) + 1))
    for n, s in zip(spec['nodes'], slots):
        n['slot'] = 'node%d' % s
        # adapters that would be found may be named, too
        i, o = n.get('in'), n.get('out')
        if i is not None and 'direct' not in i and IN.get(n['type']) != 'text' and chance(5):
            i['adapters'] = ['xml->ebutt3']
        if o is not None and 'direct' not in o and OUT.get(n['type']) != 'text' and chance(5):
            o['adapters'] = ['ebuttd->xml' if n['type'] == 'ebuttd-encoder' else 'ebutt3->xml']
    spec['backend'] = pick([None, 'twisted'])
    spec['host'] = pick(['localhost', '127.0.0.1'])
    spec['ws_named'] = chance(2)
    return spec


def written(n, v):
    """values may be written as strings"""
    if n['strings'] and isinstance(v, (bool, int, float)):
        return str(v).lower() if isinstance(v, bool) else str(v)
    return v


def config_of(spec):
    nodes = {}

    def side(n, i, action):
        c = {}
        if 'direct' in i:
            c['type'] = 'direct'
            if i['direct'] != 'default':
                c['id'] = i['direct']
        elif action == 'publish' and 'fs' in i:
            c['type'] = 'filesystem'
            for k, v in n['fs'].items():
                if k not in n['fsomit']:
                    c[k] = written(n, v)
        elif 'fs' in i:
            c.update(type='filesystem', manifest_file='@DIR@/in%d/manifest.txt' % i['fs'])
            if n.get('tail') is not None:
                c['tail'] = written(n, n['tail'])
        elif 'old' in i:
            c.update(type='websocket-legacy', uri='ws://%s:%d' % (spec['host'], i['old']))
        else:
            if spec['ws_named'] or not i:
                c['type'] = 'websocket'
            if i.get('listen'):
                c['listen'] = 'ws://%s:%d' % (spec['host'], i['listen'])
            if i.get('connect'):
                c['connect'] = ['ws://%s:%d/%s/%s' % (spec['host'], p, s, action) for p, s in i['connect']]
        r = {'carriage': c}
        if i.get('adapters'):
            r['adapters'] = [{'type': a} for a in i['adapters']]
        return r
    for n in spec['nodes']:
        c = {'type': n['type']}
        if n['given_id']:
            c['id'] = n['id']
        for k, v in n['opts'].items():
            if k not in n['omit']:
                c[k] = {'type': v} if k == 'clock' else written(n, v)
        if n.get('in') is not None:
            c['input'] = side(n, n['in'], 'subscribe')
        if n.get('out') is not None:
            c['output'] = side(n, n['out'], 'publish')
        nodes[n['slot']] = c
    r = {'nodes': nodes}
    if spec['backend']:
        r['backend'] = {'type': spec['backend']}
    return r


def same(r):
    """1 and 1.0 are the same delay"""
    return json.loads(re.sub(r'retimed by (\d+)\.0s', r'retimed by \1s', json.dumps(r)))


def run(w, spec, rec):
    config = config_of(spec)
    want = same(w.call('config_model', spec=spec))
    if want['tie']:
        rec.label('simultaneous events')
        return
    got = same(w.call('config_run', spec=spec, config=config))
    text = json.dumps(config)
    for n, a, b in zip(spec['nodes'], want['nodes'], got['nodes']):
        if a != b:
            raise Fail('%s of %s is %s instead of %s' % (n['slot'], text, json.dumps(b)[:1500], json.dumps(a)[:1500]), sig='node')
    if got['slept'] != sum(1 for n in spec['nodes'] if n.get('tail')):
        raise Fail('%d manifests are followed by %s' % (got['slept'], text), sig='tail')
    if got['unreachable']:
        raise Fail('connections to nowhere: %s for %s' % (got['calls'], text), sig='address')
    key = lambda x: [x[0], x[1], x[2]]
    a, b = sorted(want['got'], key=key), sorted(got['got'], key=key)
    if len(a) != len(b):
        raise Fail('%s emitted %s instead of %s' % (text, [x[:3] for x in b], [x[:3] for x in a]), sig='emitted')
    for x, y in zip(a, b):
        if x[:2] != y[:2] or abs(x[2] - y[2]) > 2 or x[3:] != y[3:]:
            raise Fail('%s emitted %s instead of %s' % (text, y, x), sig='emitted')
    if want['files'] != got['files']:
        fw, fg = want['files'], got['files']
        d = ['%s/%s: %s instead of %s' % (f, n, fg.get(f, {}).get(n), fw.get(f, {}).get(n)) for f in sorted(set(fw) | set(fg))
             for n in sorted(set(fw.get(f, {})) | set(fg.get(f, {}))) if fw.get(f, {}).get(n) != fg.get(f, {}).get(n)]
        raise Fail('%s wrote %s' % (text, d), sig='files')
    for n in spec['nodes']:
        rec.label(n['type'])
        for s in ('in', 'out'):
            i = n.get(s)
            if i is not None:
                rec.label('%s %s' % (s, 'direct' if 'direct' in i else 'fs' if 'fs' in i else 'legacy' if 'old' in i else '+'.join(k for k in ('listen', 'connect') if i.get(k)) or 'nothing'))
    if spec.get('shared'):
        rec.label('shared address')
    n_out = len(want['got']) + sum(len(f) for f in want['files'].values()) + sum(len(n['sequence'][1]) for n in want['nodes'] if n.get('sequence'))
    rec.label('output: %s' % ('none' if not n_out else 'some' if n_out < 6 else 'much'))
    rec.nontrivial(n_out > 1)


# --- where connections go ----------------------------------------------------------------------
@st.composite
def sockets(draw):
    pick = lambda xs: xs[draw(st.integers(0, len(xs) - 1))]
    nodes, want = {}, []
    ports = iter(draw(st.permutations(range(9001, 9030))))
    hosts = ['localhost', '127.0.0.1', 'example.org', 'a.b.c']
    for slot in draw(st.lists(st.integers(1, 9), min_size=1, max_size=4, unique=True)):
        is_in = draw(st.booleans())
        legacy = draw(st.integers(0, 3)) == 0
        c = {}
        proxy = None
        if (is_in or not legacy) and draw(st.booleans()):
            proxy = (pick(['proxy', '10.0.0.1']), pick([8080, 3128]))
            c['proxy'] = pick(['', 'http://']) + '%s:%d' % proxy
        where = lambda h, p: list(proxy) if proxy else [h, p]
        if legacy:
            c['type'] = 'websocket-legacy'
            h, p = pick(hosts), next(ports)
            path = pick(['', '/', '/x']) if is_in else ''
            if draw(st.integers(0, 3)) or not is_in or any(x[:2] == ['connect', 'localhost'] and x[2] == 9001 for x in want):
                c['uri'] = 'ws://%s:%d%s' % (h, p, path)
            else:
                h, p, path = 'localhost', 9001, ''
            want.append(['connect'] + where(h, p) + ['ws://%s:%d%s' % (h, p, path or '/'), path or '/'] if is_in else ['listen', p])
        else:
            c['type'] = 'websocket'
            if draw(st.booleans()):
                p = next(ports)
                c['listen'] = 'ws://%s:%d' % (pick(hosts), p)
                want.append(['listen', p])
            if draw(st.booleans()) or 'listen' not in c:
                c['connect'] = []
                for _ in range(draw(st.integers(1, 3))):
                    h, p, sid = pick(hosts), next(ports), pick(['a', 'Seq%201', 'a%2Fb', 'x:y', 'TestSequence1'])
                    path = '/%s/%s' % (sid, 'subscribe' if is_in else 'publish')
                    c['connect'].append('ws://%s:%d%s' % (h, p, path))
                    want.append(['connect'] + where(h, p) + ['ws://%s:%d%s' % (h, p, path), path])
        nodes['node%d' % slot] = {'type': 'simple-consumer', 'input': {'carriage': c}} if is_in else {'type': 'simple-producer', 'output': {'carriage': c}}
    return dict(config={'nodes': nodes}, want=want)


def run_sockets(w, case, rec):
    r = w.call('config_refused', config=case['config'])
    text = json.dumps(case['config'])
    if r['at'] is not None:
        raise Fail('%s is refused at %s: %s %s' % (text, r['at'], r['exc']['msg'], r['exc']['tb']), sig='refused')
    path = lambda x: x[:3] + [x[4]] if x[0] == 'connect' else x
    if sorted(map(path, r['calls'])) != sorted(map(path, case['want'])):
        raise Fail('%s makes %s instead of %s' % (text, r['calls'], case['want']), sig='sockets')
    rec.label('proxy' if 'proxy' in text else 'no proxy')
    rec.nontrivial(len(case['want']) > 1)


# --- what is refused ---------------------------------------------------------------------------
@st.composite
def invalid(draw):
    pick = lambda xs: xs[draw(st.integers(0, len(xs) - 1))]
    spec = draw(cases())
    config = config_of(spec)
    slots = sorted(config['nodes'])
    slot = pick(slots)
    n = config['nodes'][slot]
    sides = [s for s in ('input', 'output') if s in n]
    side = pick(sides)
    c = n[side]['carriage']
    junk = pick(['nothing', 'Direct', '', 'web socket', 'xml', 'auto ', 'ebutt3', 'simple_producer'])
    changes = ['node type', 'carriage type', 'backend type', 'clock type', 'adapter type', 'adapters', 'proxy', 'connect', 'address', 'no clock', 'time']
    k = pick(changes)
    errors = ['ConfigurationError']
    if k == 'address':
        # an address that somebody else listens on
        kind = pick(['same', 'protocol'])
        url = 'ws://localhost:9099'
        free = [s for s in ['node%d' % i for i in range(1, 10)] if s not in config['nodes']][:2]
        if len(free) < 2:
            k = 'node type'
        else:
            a = {'type': 'websocket', 'listen': url}
            if kind == 'protocol':
                config['nodes'][free[0]] = {'type': 'simple-producer', 'output': {'carriage': {'type': 'websocket-legacy', 'uri': url}}}
                config['nodes'][free[1]] = {'type': 'simple-producer', 'output': {'carriage': a}} if draw(st.booleans()) else {
                    'type': 'simple-consumer', 'input': {'carriage': a}}
            elif draw(st.booleans()):
                for s in free:
                    config['nodes'][s] = {'type': 'simple-producer', 'output': {'carriage': dict(a)}}
            else:
                for s in free:
                    config['nodes'][s] = {'type': 'simple-consumer', 'input': {'carriage': dict(a)}}
    if k == 'no clock' and not (n['type'] in ('simple-producer', 'resequencer') or
                                n['type'] == 'ebuttd-encoder' and n.get('media_time_zero', 'current') == 'current'):
        k = 'clock type'
    if k == 'time' and n['type'] not in ('resequencer', 'ebuttd-encoder'):
        k = 'clock type'
    if k == 'no clock':
        # a clock can not be taken from the documents here
        n['clock'] = {'type': 'auto'}
    elif k == 'time':
        n['begin_output' if n['type'] == 'resequencer' else 'media_time_zero'] = pick(['now', 'noon', '10', '10:00', '1:2:3', '10:00:00:00', '10h', '-10:00:00', '10:60:00', ''])
    if k == 'clock type' and 'clock' not in DEF[n['type']]:
        k = 'node type'
    if k == 'node type':
        n['type'] = junk
    elif k == 'carriage type':
        n[side]['carriage'] = dict(c, type=junk)
    elif k == 'backend type':
        config['backend'] = {'type': junk}
    elif k == 'clock type':
        n['clock'] = {'type': pick([junk, 'media', 'clock', 'gps'])}
    elif k == 'adapter type':
        good = n[side].get('adapters') or []
        good.insert(draw(st.integers(0, len(good))), {'type': pick([junk, 'xml->xml', 'ebutt3->ebuttd', 'xml -> ebutt3'])})
        n[side]['adapters'] = good
    elif k == 'adapters':
        # known adapters that do not fit the two ends
        text = (IN if side == 'input' else OUT).get(n['type'], 'ebutt3')
        names = pick([['ebuttd->xml'], ['xml->ebuttd'], ['ebutt3->xml', 'ebutt3->xml'], ['xml->ebutt3', 'xml->ebutt3'], ['xml->ebuttd', 'ebutt3->xml'],
                      ['ebuttd->xml', 'xml->ebuttd', 'ebuttd->xml', 'xml->ebuttd']])
        wsfs = c.get('type', 'websocket') != 'direct'
        ends = ('xml', text) if side == 'input' else (text, 'xml')
        ends = tuple('xml' if e == 'text' else e for e in ends)
        steps = [x.split('->') for x in names]
        fits = all(x[1] == y[0] for x, y in zip(steps, steps[1:])) and (
            (steps[0][0], steps[-1][1]) == ends if wsfs else (steps[-1][1] == ends[1] if side == 'input' else steps[0][0] == ends[0]))
        if fits or not wsfs:
            n['type'] = junk
            k = 'node type'
        else:
            n[side]['adapters'] = [{'type': x} for x in names]
            errors = ['ConfigurationError', 'DataCompatError']
    elif k == 'proxy':
        n[side]['carriage'] = {'type': 'websocket', 'connect': ['ws://localhost:9001/a/%s' % ('subscribe' if side == 'input' else 'publish')],
                               'proxy': pick(['localhost', 'localhost:', ':8080', 'localhost:http', 'a:b:80', 'http://localhost', '8080', 'http://localhost:8080/x'])}
    elif k == 'connect':
        action, other = ('subscribe', 'publish') if side == 'input' else ('publish', 'subscribe')
        good = ['ws://localhost:9001/a/' + action] if draw(st.booleans()) else []
        bad = pick(['', 'localhost', 'localhost:9001/a/' + action, 'http://localhost:9001/a/' + action, 'ws:///a/' + action, 'ws://localhost:9001', 'ws://localhost:9001/',
                    'ws://localhost:9001/a', 'ws://localhost:9001/a/', 'ws://localhost:9001/a/b/' + action, 'ws://localhost:9001/a/' + other,
                    'ws://localhost:9001/a/' + action.upper(), 'ws://localhost:9001/a/' + action + '/', 'ws://localhost:port/a/' + action,
                    'ws://localhost:9001//' + action, 'ws://localhost:99999/a/' + action])
        good.insert(draw(st.integers(0, len(good))), bad)
        n[side]['carriage'] = {'type': 'websocket', 'connect': good}
    return dict(config=config, change=k, errors=errors)


def run_invalid(w, case, rec):
    r = w.call('config_refused', config=case['config'])
    rec.label(case['change'])
    text = json.dumps(case['config'])
    if r['at'] is None:
        raise Fail('accepted in spite of its %s: %s' % (case['change'], text), sig='accepted ' + case['change'])
    if not set(case['errors']) & set(r['exc']['mro']):
        raise Fail('refused because of its %s with %s %s at %s: %s' % (case['change'], r['exc']['type'], r['exc']['msg'], r['exc']['tb'], text), sig='error ' + case['change'])
    rec.nontrivial(True)


def tests(tier):
    return [Test('pipelines', cases, run, quick=260, thorough=6000, weight=8, rule='pipelines that emit two or more documents'),
            Test('sockets', sockets, run_sockets, quick=300, thorough=6000, rule='two or more sockets'),
            Test('refused', invalid, run_invalid, quick=320, thorough=6000, rule='all of them')]
