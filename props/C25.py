"""The user input producer page: what it sends is what was entered. The page itself runs in a simulated browser (uip/)."""
import atexit, json, os, select, subprocess, time, urllib.parse
from hypothesis import strategies as st
from vlib.core import Test, Fail
from vlib.jy import VERIF, REPO, HarnessError
from vlib import ttml

WORKER = ['page_ops']

FOLDER = os.path.join(REPO, 'ebu_tt_live', 'ui', 'user_input_producer')
HOST = 'ws://127.0.0.1:9001'


class Node:
    proc = None

    @classmethod
    def call(cls, case):
        for attempt in (0, 1):
            if cls.proc is None or cls.proc.poll() is not None:
                cls.proc = subprocess.Popen(['node', os.path.join(VERIF, 'uip', 'page.js')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                            stderr=subprocess.DEVNULL, cwd='/')
                atexit.register(cls.stop)
            try:
                cls.proc.stdin.write(json.dumps(dict(case, folder=FOLDER)).encode() + b'\n')
                cls.proc.stdin.flush()
                buf, end = b'', time.monotonic() + 60
                while not buf.endswith(b'\n'):
                    if not select.select([cls.proc.stdout], [], [], max(0, end - time.monotonic()))[0]:
                        cls.stop()
                        raise Fail('the page does not come to rest', sig='hang')
                    got = os.read(cls.proc.stdout.fileno(), 1 << 20)
                    if not got:
                        raise BrokenPipeError()
                    buf += got
                return json.loads(buf)
            except BrokenPipeError:
                cls.stop()
        raise HarnessError('the page process ended')

    @classmethod
    def stop(cls):
        if cls.proc is not None:
            cls.proc.kill()
            cls.proc.wait()
            cls.proc = None


def browse(case):
    out = Node.call(case)
    if 'failure' in out:
        raise Fail('the page failed: %s' % out['failure'][:600], sig='page')
    return out


ZONES = {'UTC': 0, 'Asia/Kolkata': 330, 'America/Phoenix': -420, 'Pacific/Kiritimati': 840}
PIECES = st.sampled_from(['Hello', 'a', 'B c', ' ', '  x', 'x ', 'q&a', '1 < 2', '2 > 1', '&amp;', '<tt:br/>', '</tt:span>', '"q"', "it's", 'é', '日本',
                          '\U0001F600', '$&', '$1', '{{ 1 + 1 }}', '{% if x %}', '\\n', ']]>', '<!--', '\t'])
LINE = st.lists(PIECES, max_size=4).map(''.join)
NAMES = st.one_of(st.sampled_from(['TestSequence1', 'seq 2', 'a&b', 'a<b', '"x"', "it's", 'é/日本', '100%', 'a+b', 'x?y#z', '(1)!*', 'a;b:c@d=e', '{{x}}', '$&']),
                  st.text(st.characters(blacklist_categories=('Cs', 'Cc', 'Cn', 'Zs', 'Zl', 'Zp'), blacklist_characters='\ufffe\uffff'), min_size=1, max_size=8))
GROUPS = st.one_of(st.just(''), st.just(''), st.sampled_from(['g', 'Test Group', 'a&"b"', '<g>', 'é']))
BEGINS = ['', '', '00:00:00', '00:00:01', '00:00:01.500', '10:59:59.999', '2s', '1500ms', '0.5h', '3m']
ENDS = ['', '', '11:00:00', '23:59:59.999', '12h', '720m']
DURS = ['', '', '', '00:00:02', '2.5s', '1h', '100ms']


@st.composite
def history(draw):
    ops = []
    names = draw(st.lists(NAMES, min_size=1, max_size=3, unique=True))
    left = list(names)

    def create():
        ops.append({'op': 'create', 'id': left.pop(0), 'group': draw(GROUPS), 'tb': draw(st.sampled_from(['clock', 'clock', 'media'])),
                    'cm': draw(st.sampled_from(['local', 'utc', 'gps']))})
    if draw(st.integers(0, 9)):
        create()
    if left and draw(st.booleans()):
        create()
    if draw(st.integers(0, 7)):
        ops.append({'op': 'connect', 'ok': True})
    n = draw(st.integers(3, 25))
    kinds = ['text'] * 4 + ['type'] * 3 + ['now'] * 3 + ['schedule'] * 3 + ['wait'] * 4 + ['choose'] * 3 + [
        'times', 'times', 'token', 'control', 'create', 'connect', 'sync', 'start', 'start', 'stop', 'max', 'mode']
    if draw(st.integers(0, 2)) == 0:
        kinds += ['drop', 'disconnect', 'reload', 'reload', 'reset']
    for _ in range(n):
        k = draw(st.sampled_from(kinds))
        if k == 'create':
            if left:
                create()
        elif k == 'choose':
            ops.append({'op': k, 'i': draw(st.integers(0, 2))})
        elif k == 'connect':
            ops.append({'op': k, 'ok': draw(st.integers(0, 4)) > 0})
        elif k == 'text':
            ops.append({'op': k, 'text': '\n'.join(draw(st.lists(LINE, min_size=1, max_size=3)))})
        elif k == 'type':
            ops.append({'op': k, 'keys': draw(st.lists(st.sampled_from(['a', 'b', 'é', '&', '<', ' ', ' ', 'Enter', 'Enter', 'Escape']), min_size=1, max_size=8))})
        elif k == 'times':
            ops.append({'op': k, 'begin': draw(st.sampled_from(BEGINS)), 'end': draw(st.sampled_from(ENDS)), 'dur': draw(st.sampled_from(DURS))})
        elif k == 'token':
            ops.append({'op': k, 'token': draw(st.one_of(st.just(''), st.integers(1, 1000).map(str)))})
        elif k == 'schedule':
            d = draw(st.integers(0, 9))
            ops.append({'op': k, 'clock': draw(st.sampled_from(['local', 'media'])), 'in': None if d == 0 else draw(st.integers(-3, 8))})
        elif k == 'wait':
            ops.append({'op': k, 'ms': draw(st.one_of(st.integers(0, 3000), st.sampled_from([500, 1000, 5000, 600000])))})
        elif k == 'start':
            ops.append({'op': k, 's': draw(st.sampled_from(['1', '0.5', '2.25', '3', '', 'x', '0', '-1']))})
        elif k == 'max':
            ops.append({'op': k, 'n': draw(st.integers(1, 4))})
        elif k == 'mode':
            ops.append({'op': k, 'm': draw(st.sampled_from(['live', 'schedule', 'async']))})
        elif k == 'control':
            ops.append({'op': k, 'text': draw(LINE), 'enter': draw(st.booleans())})
        else:
            ops.append({'op': k})
        if k in ('reload', 'drop', 'disconnect') and draw(st.integers(0, 4)):
            ops.append({'op': 'connect', 'ok': True})
        if k in ('text', 'times', 'token', 'choose') and draw(st.booleans()):
            ops.append({'op': 'now'})
    return {'zone': draw(st.sampled_from(sorted(ZONES))), 'start': draw(st.integers(1600000000000, 1800000000000)), 'ops': ops}


class Model:
    """What the user entered and what the page has to send for it."""

    def __init__(self, case):
        self.now = case['start']
        self.offset = ZONES[case['zone']] * 60000
        self.seqs = {}
        self.js, self.expect, self.checks, self.opens = [], [], [], []
        self.attempts = {}
        self.order = 0
        self.fresh()

    def fresh(self):
        """a page that was just loaded"""
        self.selected = next(iter(self.seqs), None)
        self.text, self.begin, self.end, self.dur, self.token = '', '', '', '', ''
        self.mode, self.clock, self.max = 'live', 'local', 2
        self.connected = False
        self.pending, self.interval, self.sync = [], None, None

    def do(self, *op):
        self.js.append(list(op))

    def look(self, key, want):
        """after the operations so far the page must show this"""
        self.checks.append((len(self.js), key, want))

    def content(self):
        q = self.seqs[self.selected]
        lines = self.text.split('\n')
        a = self.attempts[self.selected] = self.attempts.get(self.selected, 0) + 1
        return {'kind': 'document', 'sid': self.selected, 'tb': q['tb'], 'cm': q['cm'] if q['tb'] == 'clock' else None, 'group': q['group'] or None,
                'token': self.token or None, 'lines': [lines], 'begin': us_of(self.begin), 'end': us_of(self.end), 'dur': us_of(self.dur), 'attempt': a}

    def emit(self, c):
        if self.connected:
            self.expect.append((self.now, len(self.opens) - 1, c))

    def send(self):
        if self.selected is not None:
            self.emit(self.content())

    def radio(self, m):
        if self.mode != m:
            self.mode = m
            self.do('click', {'live': 'radio_send', 'schedule': 'radio_schedule', 'async': 'radio_async'}[m])

    def set_clock(self, c):
        if self.clock != c:
            self.clock = c
            self.do('select', 'scheduled-send-clock-selector', c)

    def wait(self, ms):
        if self.interval:
            ms = min(ms, 8 * self.interval[1])
        end = self.now + ms
        while True:
            events = [(t, o, 'p', c) for t, o, c in self.pending]
            if self.interval:
                events.append((self.interval[0], self.interval[2], 'i', None))
            events = sorted((e for e in events if e[0] <= end), key=lambda e: e[:2])
            if not events:
                break
            t, o, k, c = events[0]
            self.now = max(self.now, t)
            if k == 'p':
                self.pending.remove((t, o, c))
                self.emit(c)
            else:
                self.order += 1
                self.interval = (t + self.interval[1], self.interval[1], self.order)
                self.send()
        self.now = end
        self.do('wait', ms)

    def op_create(self, o):
        self.do('click', 'create-new-sequence-button')
        self.do('set', 'new-sequence-identifier-input', o['id'])
        self.do('set', 'ag-identifier-input', o['group'])
        self.do('select', 'time-base-selector', o['tb'])
        if o['tb'] == 'clock':
            self.do('select', 'clock-mode-selector', o['cm'])
        self.do('click', 'validate-new-sequence-button')
        self.seqs[o['id']] = o
        self.attempts[o['id']] = 0
        if self.selected is None:
            self.selected = o['id']
        self.look('sequences', list(self.seqs))
        self.look('sequence', self.selected)

    def op_choose(self, o):
        if self.seqs:
            self.selected = list(self.seqs)[o['i'] % len(self.seqs)]
            self.do('select', 'sequence-selector', self.selected)

    def op_connect(self, o):
        if self.connected or self.selected is None:
            return
        self.do('click', 'websocket-connect-button')
        self.opens.append((self.now, self.selected, 'publish'))
        self.do('ws', -1, 'open' if o['ok'] else 'fail')
        self.connected = o['ok']

    def op_disconnect(self, o):
        if self.connected:
            self.do('click', 'websocket-disconnect-button')
            self.connected = False

    def op_drop(self, o):
        if self.connected:
            self.do('ws', -1, 'close')
            self.connected = False

    def op_text(self, o):
        self.text = o['text']
        self.do('set', 'subtitle-content-textarea', self.text)

    def op_type(self, o):
        for k in o['keys']:
            self.do('key', 'subtitle-content-textarea', k)
            if self.mode == 'live' and k in (' ', 'Enter', 'Escape'):
                self.send()
            if k == 'Escape':
                self.text = ''
            elif k == 'Enter':
                lines = self.text.split('\n')
                lines = lines[len(lines) - min(len(lines), self.max - 1):]
                self.text = '' if self.max == 1 else '\n'.join(lines) + '\n'
            else:
                self.text += k
            self.look('text', self.text)

    def op_times(self, o):
        for k, i in (('begin', 'body-begin-input'), ('end', 'body-end-input'), ('dur', 'dur-input')):
            setattr(self, k, o[k])
            self.do('set', i, o[k])

    def op_token(self, o):
        self.token = o['token']
        self.do('set', 'ag-token-input', o['token'])

    def op_max(self, o):
        self.max = o['n']
        self.do('set', 'max-lines', str(o['n']))

    def op_mode(self, o):
        self.radio(o['m'])

    def op_now(self, o):
        self.radio('live')
        self.do('click', 'submit-subtitle-button')
        self.send()

    def op_schedule(self, o):
        self.radio('schedule')
        self.set_clock(o['clock'])
        at = self.now
        if o['in'] is None:
            text = ''
        elif self.clock == 'media' and self.sync is not None:
            s = max(0, (self.now - self.sync) // 1000 + o['in'])
            text = hms(s)
            at = self.sync + s * 1000
        else:
            local = self.now + self.offset
            s = local // 1000 % 86400 + o['in']
            s = min(max(s, 0), 86399)
            text = hms(s)
            at = local // 86400000 * 86400000 + s * 1000 - self.offset
        self.do('set', 'scheduled-time-input', text)
        self.do('click', 'schedule-subtitle-button')
        if self.selected is not None:
            c = self.content()
            self.order += 1
            self.pending.append((max(at, self.now), self.order, c))
            self.wait(0)

    def op_sync(self, o):
        self.radio('schedule')
        self.set_clock('media')
        self.do('click', 'synchronize-media-clock-button')
        self.sync = self.now

    def op_start(self, o):
        if self.selected is None:
            return
        self.radio('async')
        self.do('set', 'asynchronous-send-interval-input', o['s'])
        self.do('click', 'asynchronous-send-start-button')
        try:
            ms = int(float(o['s']) * 1000)
        except ValueError:
            return
        if ms > 0 and not self.interval:
            self.order += 1
            self.interval = (self.now + ms, ms, self.order)

    def op_stop(self, o):
        self.radio('async')
        self.do('click', 'asynchronous-send-stop-button')
        self.interval = None

    def op_control(self, o):
        if self.selected is None:
            return
        self.do('set', 'ag-control-request-input', o['text'])
        if o['enter']:
            self.do('key', 'ag-control-request-input', 'Enter')
        else:
            self.do('click', 'submit-ag-control-request-button')
        if self.connected:
            self.expect.append((self.now, len(self.opens) - 1, {
                'kind': 'message', 'type': 'authorsGroupControlRequest', 'sid': self.selected, 'sender': self.selected, 'recipient': [],
                'payload': o['text']}))
        self.look('control', '' if self.connected else o['text'])

    def op_reload(self, o):
        self.do('reload')
        self.fresh()
        self.look('sequences', list(self.seqs))

    def op_reset(self, o):
        if self.pending or self.interval:
            return
        self.do('click', 'reset-all')
        self.seqs, self.selected = {}, None
        self.look('sequences', [])

    def op_wait(self, o):
        self.wait(o['ms'])
        if o['ms'] >= 500 and self.mode == 'schedule':
            if self.clock == 'local':
                self.look('local', [hms((self.now - d + self.offset) // 1000 % 86400) for d in (0, 500)])
            elif self.sync is not None and self.now - self.sync >= 500:
                self.look('media', [hms((self.now - self.sync - d) // 1000 % 86400) for d in (0, 500)])

    def run(self, ops):
        for o in ops:
            f = getattr(self, 'op_' + o['op'], None)
            if f:
                f(o)
        self.wait(10000)
        self.look('timers', (self.interval is not None) + len(self.pending))


def hms(s):
    return '%02d:%02d:%02d' % (s // 3600, s // 60 % 60, s % 60)


def us_of(text):
    return None if text == '' else int(ttml.time_us(text))


def check_url(url, name, action, host=HOST):
    head, tail = host + '/', '/' + action
    if not (url.startswith(head) and url.endswith(tail)):
        raise Fail('address %r' % url)
    part = url[len(head):-len(tail)]
    if any(not (c.isascii() and (c.isalnum() or c in '-_.~%')) for c in part) or urllib.parse.unquote(part, errors='strict') != name:
        raise Fail('address %r for sequence %r' % (url, name))


def run_history(w, case, rec):
    m = Model(case)
    m.run(case['ops'])
    out = browse({'zone': case['zone'], 'start': case['start'], 'ops': m.js})
    log = out['log']
    hidden = [e for e in log if e['ev'] == 'hidden']
    if hidden:
        raise Fail('%s can not be reached' % hidden[0]['data'])
    opens = [e for e in log if e['ev'] == 'open']
    if [e['t'] for e in opens] != [o[0] for o in m.opens]:
        raise Fail('connections %s, expected %s' % (opens, m.opens))
    for e, o in zip(opens, m.opens):
        check_url(e['data'], o[1], o[2])
    for i, key, want in m.checks:
        got = out['states'][i][key]
        if key == 'timers':
            if got > want + 3:
                raise Fail('%d timers are left' % got)
        elif key in ('local', 'media'):
            if got not in want:
                raise Fail('the %s clock shows %s, expected %s' % (key, got, want))
        elif got != want:
            raise Fail('%s is %r, expected %r (errors: %s)' % (key, got, want, out['errors'][:2]))
    sends = [e for e in log if e['ev'] == 'send']
    if len(sends) != len(m.expect) or [(e['t'], e['ws']) for e in sends] != [x[:2] for x in m.expect]:
        raise Fail('sent at %s, expected %s (errors: %s)' % ([(e['t'] - case['start'], e['ws']) for e in sends],
                                                             [(x[0] - case['start'], x[1]) for x in m.expect], out['errors'][:2]))
    read = w.call('page_read', xmls=[e['data'] for e in sends])
    numbers = {}
    for e, r, (_, _, want) in zip(sends, read, m.expect):
        if 'exc' in r:
            raise Fail('the toolkit refuses %s: %s' % (e['data'][-1500:], r['exc']), sig='refused:' + r['exc']['type'])
        got = dict(r['r'])
        want = dict(want)
        if want['kind'] == 'document':
            numbers.setdefault(want['sid'], []).append((want.pop('attempt'), got.pop('num')))
            if got.pop('color') != 'rgb(255, 255, 255)':
                raise Fail('the style is missing')
        if got != want:
            raise Fail('sent %s, expected %s' % (got, want))
    for sid, l in numbers.items():
        last = (0, 0)
        for a, n in sorted(l):
            if not last[1] < n <= a:
                raise Fail('numbers %s of %r (in order of their making)' % (sorted(l), sid))
            last = (a, n)
    rec.nontrivial(len(sends) > 1)
    rec.label('documents', any(x[2]['kind'] == 'document' for x in m.expect))
    rec.label('messages', any(x[2]['kind'] == 'message' for x in m.expect))
    rec.label('several sequences', len(numbers) > 1)
    rec.label('two lines', any(x[2]['kind'] == 'document' and len(x[2]['lines'][0]) > 1 for x in m.expect))
    rec.label('scheduled', any(o['op'] == 'schedule' for o in case['ops']))
    rec.label('asynchronous', any(o['op'] == 'start' for o in case['ops']))
    rec.label('reloaded', any(o['op'] == 'reload' for o in case['ops']))


@st.composite
def feed(draw):
    names = draw(st.lists(NAMES, min_size=1, max_size=3, unique=True))
    got = []
    for _ in range(draw(st.integers(1, 14))):
        if draw(st.integers(0, 3)):
            got.append({'num': draw(st.integers(1, 10 ** 6)), 'group': draw(GROUPS), 'token': draw(st.one_of(st.just(''), st.integers(1, 99).map(str))),
                        'on': draw(st.one_of(st.just(''), st.sampled_from(names), NAMES)), 'text': draw(LINE)})
        else:
            got.append({'sender': draw(st.one_of(st.just(''), NAMES)), 'payload': draw(LINE)})
    return {'names': names, 'sel': draw(st.integers(0, 2)), 'feed': draw(NAMES), 'got': got, 'open': draw(st.integers(0, 9)), 'change': draw(st.booleans())}


def doc_xml(g):
    a = ''.join(' %s="%s"' % (k, ttml.esc(v)) for k, v in (
        ('ebuttp:authorsGroupIdentifier', g['group']), ('ebuttp:authorsGroupControlToken', g['token']),
        ('ebuttm:authorsGroupSelectedSequenceIdentifier', g['on'])) if v)
    return ('<?xml version="1.0" ?>\n<tt:tt xmlns:tt="http://www.w3.org/ns/ttml" xmlns:ttp="http://www.w3.org/ns/ttml#parameter" '
            'xmlns:ebuttp="urn:ebu:tt:parameters" xmlns:ebuttm="urn:ebu:tt:metadata" xml:lang="en-GB" ttp:timeBase="media" '
            'ebuttp:sequenceIdentifier="HandoverSequence1" ebuttp:sequenceNumber="%d"%s><tt:head/><tt:body><tt:div><tt:p xml:id="p"><tt:span>%s</tt:span></tt:p>'
            '</tt:div></tt:body></tt:tt>' % (g['num'], a, ttml.esc(g['text'])))


def message_xml(g):
    s = '<ebuttlm:sender>%s</ebuttlm:sender>' % ttml.esc(g['sender']) if g['sender'] else ''
    return ('<?xml version="1.0" ?>\n<ebuttlm:message xmlns:ebuttlm="urn:ebu:tt:livemessage" xmlns:ebuttp="urn:ebu:tt:parameters" '
            'ebuttp:sequenceIdentifier="HandoverSequence1"><ebuttlm:header>%s<ebuttlm:type>authorsGroupControlRequest</ebuttlm:type></ebuttlm:header>'
            '<ebuttlm:payload>%s</ebuttlm:payload></ebuttlm:message>' % (s, ttml.esc(g['payload'])))


def run_feed(w, case, rec):
    m = Model({'start': 1700000000000, 'zone': 'UTC'})
    for n in case['names']:
        m.op_create({'id': n, 'group': '', 'tb': 'media', 'cm': None})
    m.op_choose({'i': case['sel']})
    m.do('set', 'subscribe-sequence-input', case['feed'])
    m.do('click', 'subscribe-websocket-connect-button')
    m.do('ws', -1, 'open')
    onair, items, xmls = False, [], []
    for g in case['got']:
        if 'num' in g:
            x = doc_xml(g)
            items.append({'seqNum-value': str(g['num']), 'autGID-value': g['group'], 'autGCT-value': g['token']})
            onair = g['on'] == m.selected
        else:
            x = message_xml(g)
            items.append({'sender-value': g['sender'], 'payload': g['payload']})
        xmls.append(x)
        m.do('ws', -1, 'message', x)
        m.look('items', items[-10:])
        m.look('onair', onair)
    i = case['open'] % min(10, len(xmls))
    m.do('item', i)
    m.look('shown', xmls[-10:][i])
    out = browse({'zone': 'UTC', 'start': 1700000000000, 'ops': m.js})
    opens = [e for e in out['log'] if e['ev'] == 'open']
    if len(opens) != 1:
        raise Fail('connections %s' % opens)
    check_url(opens[0]['data'], case['feed'], 'subscribe')
    for j, key, want in m.checks:
        if out['states'][j][key] != want:
            raise Fail('%s is %r, expected %r (errors: %s)' % (key, out['states'][j][key], want, out['errors'][:2]))
    rec.nontrivial(len(items) > 2)
    rec.label('more than ten', len(items) > 10)
    rec.label('messages', any('sender' in g for g in case['got']))
    rec.label('on air', onair)
    bad = w.call('page_read', xmls=xmls)
    for g, b in zip(case['got'], bad):
        if 'exc' in b:
            raise HarnessError('a document of the feed is refused: %s' % b['exc'])


def tests(tier):
    return [
        Test('entered', history, run_history, quick=500, thorough=15000, weight=3, rule='at least two documents or messages sent'),
        Test('feed', feed, run_feed, quick=200, thorough=5000, weight=1, rule='more than two documents or messages received'),
    ]
