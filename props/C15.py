"""Websocket carriage: each subscriber gets each document of its sequence once and in order, whatever the others do."""
from urllib.parse import quote
from hypothesis import strategies as st
from vlib.core import Test, Fail

WORKER = ['ws_ops']
SEQS = ['a', 'b', 'Seq 1', 'a/b', 'é', 'a%2Fb', 'urn:x:1', 'q?x=1', 'a#b', '日本', 'a+b', 'a;b', '100%', '.a', 'subscribe', 'a&b=c', 'ä', 'a"<>', '\U0001F600']
TEXTS = ['<tt:tt>x</tt:tt>', 'é日\U0001F600', '', 'x' * 200, 'y' * 70000, 'line\nbreak', '<a b="ä"/>', 'WRON', 'z' * 126, 'z' * 125]
BAD = ['WRONG', 'FAIL']
MALFORMED = ['/', '/a', '/a/b/c', '/a/subscribe/', '/a/SUBSCRIBE', '/a/foo', '/a%2Fsubscribe', '/a/b/subscribe', '/subscribe', '/publish', '/a/', '/a/%20subscribe',
             '/a/subscribe/x', '/x/y/z/w', '/a/publish/', '/a/Publish', '/%/%/%']
JUNK = ['', 'GET / HTTP/1.1\r\n\r\n', 'hello\r\n\r\n', '\x00\x01', 'GET /a/subscribe HTTP/1.1\r\nHost: localhost:9005\r\n\r\n', 'GET', '\r\n\r\n',
        'POST /a/publish HTTP/1.1\r\nHost: localhost\r\nContent-Length: 3\r\n\r\nabc', 'é' * 20 + '\r\n\r\n']
SIZES = [1, 3, 50, 1000, 1 << 20]


def path_of(seq, action, safe=''):
    return '/%s/%s' % (quote(seq, safe=safe), action)


@st.composite
def cases(draw):
    pick = lambda xs: xs[draw(st.integers(0, len(xs) - 1))]
    few = draw(st.lists(st.sampled_from(SEQS), min_size=1, max_size=3, unique=True))
    roles = pick(['both', 'both', 'both', 'producer', 'consumer'])
    producer, consumer = roles != 'consumer', roles != 'producer'
    ev, n, t = [], 0, 0
    conns = []

    def text(bad=False):
        nonlocal t
        t += 1
        return (pick(BAD) if bad and draw(st.integers(0, 2)) == 0 else pick(TEXTS)) + '#%d' % t
    size = lambda: pick(SIZES[1:]) if draw(st.integers(0, 3)) else SIZES[-1]
    for _ in range(draw(st.integers(3, 22))):
        k = draw(st.integers(0, 19))
        if k < 6 or not conns:
            seq = pick(few)
            action = pick(['subscribe', 'subscribe', 'publish']) if roles == 'both' else (
                'publish' if consumer else 'subscribe') if draw(st.integers(0, 5)) else pick(['publish', 'subscribe'])
            right = 'c' if action == 'subscribe' else 'p'
            kinds = pick([right, right, 'pc', 'pc', 'p', 'c']) if draw(st.integers(0, 4)) == 0 else right
            safe = pick(['', '', ":@!$&'()*,="])
            part = action == 'subscribe' and draw(st.integers(0, 4)) == 0
            ev.append(['open', n, draw(st.integers(0, 4)), path_of(seq, action, safe), action, kinds, 0 if part else size()])
            conns.append((n, seq, action))
            ev[-1].append(seq)
            n += 1
        elif k == 6:
            j = draw(st.integers(0, 2))
            if j == 0:
                ev.append(['raw', n, pick(MALFORMED), size(), None])
            elif j == 1:
                seq = pick(few)
                ev.append(['raw', n, path_of(seq, 'subscribe') + pick(['', '', '?x=1'] if False else ['']), size(), seq])
                conns.append((n, seq, 'subscribe', 'raw'))
            else:
                ev.append(['junk', n, pick(JUNK)])
            n += 1
        elif k < 12:
            d = None if draw(st.integers(0, 2)) else pick([0, 0.5, 1, 2])
            if (producer and draw(st.booleans())) or not consumer:
                if producer:
                    ev.append(['pub', pick(few), text(draw(st.integers(0, 9)) == 0), d])
            else:
                c = [x for x in conns if x[2] == 'publish']
                ev.append(['cpub', draw(st.integers(0, 4)), pick(few), text(draw(st.integers(0, 9)) == 0), d])
                g = [e for e in ev if e[0] == 'open' and e[4] == 'publish']
                if g and draw(st.integers(0, 4)):
                    e = pick(g)
                    ev[-1][1:3] = [e[2], e[7]]
        elif k == 12:
            ev.append(['advance', pick([0, 0.5, 1, 3])])
        elif k < 15:
            ev.append(['pump', pick(conns)[0], draw(st.integers(0, 1)), pick(SIZES)])
        elif k == 15:
            ev.append(['flush', pick(conns)[0] if draw(st.booleans()) else None, size()])
        elif k == 16:
            c = pick(conns)
            ev.append(['close', c[0], draw(st.integers(0, 1)) if draw(st.integers(0, 2)) == 0 else 0])
        elif k == 17:
            ev.append(['lost', pick(conns)[0]])
        else:
            c = pick(conns)
            j = draw(st.integers(0, 4 if len(c) == 3 else 2))
            wrong = 0 if c[2] == 'subscribe' else 1
            if j < 3:
                ev.append(['send', c[0], wrong, text()])
            elif j == 3:
                ev.append(['send', c[0], 1 - wrong, text(True)])
            else:
                ev.append(['sendb', c[0], 1 - wrong, '\xff\xfe'])
    ev.append(['flush', None, 1 << 20])
    if producer:
        for s in few:
            ev.append(['pub', s, 'last' + text(), None])
    return {'ev': ev, 'producer': producer, 'consumer': consumer}


class Conn:
    def __init__(self, n, kind, group, seq, action, ok):
        self.n, self.kind, self.group, self.seq, self.action, self.ok = n, kind, group, seq, action, ok
        self.ended = not ok
        self.P = []
        self.open = True        # as far as this end's application can know

    def key(self):
        return ('r', self.n, self.seq) if self.kind == 'raw' else ('t', self.group, self.seq) if self.action == 'subscribe' else ('s', self.group, self.seq)


def model(case, asked):
    conns = {}
    now = 0
    due = []
    rejected = False

    def give(c, text):
        c.P.append(text)

    def emit(i, to, seq, text):
        before = set(asked[i - 1]) if i else set()
        for c in conns.values():
            if c.seq != seq or not c.ok:
                continue
            if to is None:
                if c.action == 'subscribe' and c.n in before:
                    give(c, text)
            elif c.action == 'publish' and c.group == to:
                give(c, text)
    for i, e in enumerate(case['ev']):
        k = e[0]
        if k == 'open':
            action, kinds = e[4], e[5]
            ok = (case['producer'] if action == 'subscribe' else case['consumer']) and ('c' if action == 'subscribe' else 'p') in kinds
            conns[e[1]] = Conn(e[1], 'open', e[2], e[7], action, ok)
        elif k == 'raw':
            conns[e[1]] = Conn(e[1], 'raw', None, e[4], 'subscribe' if e[4] else None, e[4] is not None and case['producer'])
        elif k == 'junk':
            conns[e[1]] = Conn(e[1], 'junk', None, None, None, False)
        elif k == 'pub':
            if e[3] is None:
                emit(i, None, e[1], e[2])
            else:
                due.append((now + e[3], len(due), None, e[1], e[2]))
        elif k == 'cpub':
            if e[4] is None:
                emit(i, e[1], e[2], e[3])
            else:
                due.append((now + e[4], len(due), e[1], e[2], e[3]))
        elif k == 'advance':
            now += e[1]
            for d in sorted(x for x in due if x[0] <= now):
                emit(i, d[2], d[3], d[4])
            due = [x for x in due if x[0] > now]
        elif k in ('send', 'sendb'):
            c = conns.get(e[1])
            if c is not None and c.ok:
                right = 1 if c.action == 'subscribe' else 0
                # an end that is not open yet or any more says nothing
                c.sent = True
                if e[2] == right and k == 'send' and c.n in (asked[i - 1] if i else []):
                    give(c, e[3])
                elif e[2] == right and k == 'send':
                    pass
                else:
                    c.ended = True
        elif k in ('close', 'lost'):
            if e[1] in conns:
                conns[e[1]].ended = True
    n = len(case['ev'])
    for d in sorted(due):
        emit(n, d[2], d[3], d[4])
    return conns


def bad(text):
    return text.startswith('WRONG') or text.startswith('FAIL')


def check(case, r, rec):
    conns = model(case, r['asked'])
    early = {e[1] for i, e in enumerate(case['ev']) if e[0] in ('send', 'sendb', 'close') and i and e[1] not in r['asked'][i - 1]}
    for x in r['errors']:
        if conns[x[0]].kind == 'junk' and x[1] != 'lost':
            continue  # the library that parses requests
        if x[2]['type'] not in ('ValueError', 'UnicodeDecodeError') or x[1] == 'lost':
            raise Fail('connection %s: error escapes at the %s: %s: %s %s' % (x[0], x[1], x[2]['type'], x[2]['msg'], x[2]['tb']), sig='escapes:' + x[2]['type'])
    got = {}
    by_text = {}
    for c in conns.values():
        cut = next((i for i, t in enumerate(c.P) if bad(t)), None)
        if cut is not None and c.kind != 'raw':
            c.P = c.P[:cut + 1]
            c.ended = True
            rec.label('refused document')
        if c.ok and c.kind != 'raw' and c.action == 'publish':
            for t in c.P:
                by_text[t] = c.key()

    def add(key, item, seq):
        if item[2] != 'unicode':
            raise Fail('%s was given %s instead of text: %r' % (key, item[2], item[0][:100]), sig='bytes')
        got.setdefault(key, []).append(item[0])
    for g, xs in r['takers'].items():
        for x in xs:
            add(('t', int(g), x[1]), x, x[1])
    for x in r['server'] or []:
        k = by_text.get(x[0])
        if k is None or k[2] != x[1]:
            raise Fail('the server takes %r as %r, which nobody sent there' % (x[0][:80], x[1]), sig='stranger')
        add(k, x, x[1])
    for n, xs in r['raws'].items():
        if conns[int(n)].seq is not None:
            got[('r', int(n), conns[int(n)].seq)] = list(xs)
        elif xs:
            raise Fail('a refused connection got %s' % xs)
    groups = {}
    for c in conns.values():
        if c.ok:
            groups.setdefault(c.key(), []).append(c)
    for k in got:
        if k not in groups and got[k]:
            raise Fail('%s got %s without a connection for it' % (k, [x[:40] for x in got[k]]), sig='stranger')
    for k, cs in groups.items():
        g = got.get(k, [])
        if len(cs) == 1:
            c = cs[0]
            want = c.P
            if (not c.ended and g != want) or (c.ended and g != want[:len(g)]):
                raise Fail('connection %d of %s got %s of %s%s' % (c.n, k, [x[-20:] for x in g], [x[-20:] for x in want], ' before its end' if c.ended else ''),
                           sig='delivery')
        else:
            for t in set(g) | {t for c in cs for t in c.P}:
                most = sum(c.P.count(t) for c in cs)
                least = sum(c.P.count(t) for c in cs if not c.ended)
                if not least <= g.count(t) <= most:
                    raise Fail('%s got %r %d times instead of %d to %d' % (k, t[-20:], g.count(t), least, most), sig='delivery')
    for n, c in conns.items():
        a, b = r['states'][str(n)]
        if not c.ended and not (a and b):
            raise Fail('connection %d (%s %s) was lost: %s' % (n, c.action, c.seq, r['states'][str(n)]), sig='lost')
        if c.ended and (a or b) and n not in early:
            raise Fail('connection %d (%s %s) is still open: %s' % (n, c.action, c.seq, r['states'][str(n)]), sig='still open')
    live = [c for c in conns.values() if not c.ended]
    rec.label('%d live' % min(len(live), 4))
    rec.label('ended') if any(c.ended and c.ok for c in conns.values()) else None
    rec.label('refused') if any(not c.ok for c in conns.values()) else None
    rec.nontrivial(len([c for c in conns.values() if c.ok and c.P]) > 1)


def run(w, case, rec):
    ev = [e[:7] if e[0] == 'open' else e[:4] if e[0] == 'raw' else e for e in case['ev']]
    check(case, w.call('broadcast', events=ev, producer=case['producer'], consumer=case['consumer']), rec)


@st.composite
def inputs(draw):
    pick = lambda xs: xs[draw(st.integers(0, len(xs) - 1))]
    ev, n = [], 0
    for i in range(draw(st.integers(2, 16))):
        k = draw(st.integers(0, 9))
        if k < 2 or not n:
            ev.append(['open', n, pick(SIZES[1:])])
            n += 1
        elif k < 8:
            ev.append(['send', draw(st.integers(0, n - 1)), (pick(BAD) if draw(st.integers(0, 3)) == 0 else pick(TEXTS)) + '#%d' % i])
        elif k == 8:
            ev.append(['close', draw(st.integers(0, n - 1))])
        else:
            ev.append(['flush', None, pick(SIZES[1:])])
    return {'ev': ev}


def run_inputs(w, case, rec):
    r = w.call('userinput', events=case['ev'])
    closed, want, order = set(), {}, []
    for e in case['ev']:
        if e[0] == 'open':
            want[e[1]] = []
        elif e[0] == 'close':
            closed.add(e[1])
        elif e[0] == 'send' and e[1] not in closed:
            want[e[1]].append(e[2])
            order.append(e[2])
    if r['errors']:
        raise Fail('errors escape: %s' % r['errors'], sig='escapes')
    if sorted(x[0] for x in r['got']) != sorted(order) or any(x[2] != 'unicode' for x in r['got']):
        raise Fail('the inputs are %s, the consumer got %s' % (order, r['got']), sig='inputs')
    for n, ts in want.items():
        g = [x[0] for x in r['got'] if x[0] in ts]
        if g != ts:
            raise Fail('inputs of %d in another order: %s' % (n, g))
        rep = [x[:7] for x in r['replies'][str(n)]]
        full = ['ERROR: ' if bad(t) else 'SUCCESS' for t in ts]
        if rep != full[:len(rep)] or (n not in closed and rep != full):
            raise Fail('the inputs %s are answered by %s' % (ts, rep), sig='answers')
        if r['states'][str(n)] != ([False, False] if n in closed else [True, True]):
            raise Fail('connection %d: %s' % (n, r['states'][str(n)]), sig='state')
    rec.nontrivial(sum(1 for t in want.values() if t) > 1 and any(bad(t) for t in order))


@st.composite
def channels(draw):
    pick = lambda xs: xs[draw(st.integers(0, len(xs) - 1))]
    few = draw(st.lists(st.sampled_from(SEQS), min_size=1, max_size=3, unique=True))
    ev, n = [], 0
    for i in range(draw(st.integers(3, 20))):
        k = draw(st.integers(0, 11))
        if k < 3 or not n:
            ev.append(['open', n, draw(st.lists(st.sampled_from(few), max_size=3)), pick(SIZES[1:])])
            n += 1
        elif k < 7:
            ev.append(['pub', pick(few), pick(TEXTS) + '#%d' % i])
        elif k == 7:
            ev.append(['subscribe', draw(st.integers(0, n - 1)), pick(few)])
        elif k == 8:
            ev.append(['unsubscribe', draw(st.integers(0, n - 1)), pick(few)])
        elif k == 9:
            ev.append(['send', draw(st.integers(0, n - 1)), pick(['', '[]', '{', '1', '{"subscribe": []}', '{"unsubscribe": "nothing"}', 'null', '"subscribe"', '"unsubscribe"'])])
        elif k == 10:
            ev.append(['close', draw(st.integers(0, n - 1))])
        else:
            ev.append(['lost', draw(st.integers(0, n - 1))])
    return {'ev': ev}


def run_channels(w, case, rec):
    r = w.call('legacy', events=case['ev'])
    chans, want, gone = {}, {}, set()
    for e in case['ev']:
        k = e[0]
        if k == 'open':
            chans[e[1]] = set(e[2])
            want[e[1]] = []
        elif k == 'pub':
            for n in chans:
                if e[1] in chans[n] and n not in gone:
                    want[n].append(e[2])
        elif k == 'subscribe' and e[1] not in gone:
            chans[e[1]].add(e[2])
        elif k == 'unsubscribe' and e[1] not in gone:
            chans[e[1]].discard(e[2])
        elif k in ('close', 'lost'):
            gone.add(e[1])
    if r['errors']:
        raise Fail('errors escape: %s' % r['errors'], sig='escapes')
    for n in want:
        g = r['got'][str(n)]
        if (g != want[n] if n not in gone else g != want[n][:len(g)]):
            raise Fail('client %d got %s of %s' % (n, g, want[n]), sig='delivery')
        if r['states'][str(n)] != ([False, False] if n in gone else [True, True]):
            raise Fail('connection %d: %s' % (n, r['states'][str(n)]), sig='state')
    rec.nontrivial(sum(1 for t in want.values() if t) > 1)


def tests(tier):
    return [Test('broadcast', cases, run, quick=1500, thorough=60000, weight=3, rule='histories in which at least two connections carry documents'),
            Test('inputs', inputs, run_inputs, quick=300, thorough=8000, rule='histories with two talking pages and a refused input'),
            Test('channels', channels, run_channels, quick=300, thorough=8000, rule='histories in which at least two clients get documents')]
