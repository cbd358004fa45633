import logging
import logging.handlers
import pickle
import struct
from nxt import nxt_log
from nxt.remote import nxt_socket

PROPERTY = 'C26'
BOUNDS = {
    'quick': 'every way of cutting a stream of up to 3 messages (up to 15 bytes) into reads; log records '
             'framed by the standard socket handler with up to 2 cuts anywhere in the stream; streams '
             'that end at every byte; up to 2 messages to the socket server of every payload size up '
             'to 1200 bytes',
    'thorough': 'streams of up to 18 bytes, 3 cuts'}
BOUNDS['quick'] += '; long: messages of up to 200000 bytes'
REACH = ['big', 'cut', 'whole', 'records', 'truncated', 'sent', 'stale']
ASSUMPTIONS = ['pickle and struct work', 'a read gives at least one byte until the peer has closed']
BODIES = [b'', b'\x00', b'ab', b'\x00\x00\x00', b'\x00\x00\x00\x01x']


def cases(tier):
    q = tier == 'quick'
    out = []
    for i in range(len(BODIES)):
        out += [dict(h='stream', b=[i])]
        out += [dict(h='stream', b=[i, j]) for j in range(len(BODIES))
                if len(BODIES[i]) + len(BODIES[j]) + 8 <= (15 if q else 18)]
    out += [dict(h='stream', b=[0, 1, 0]), dict(h='stream', b=[1, 0, 1])]
    out += [dict(h='truncated', b=b) for b in ([0, 1], [2, 3], [4, 2], [3], [2, 0, 1])]
    out += [dict(h='records', cuts=c) for c in ((1, 2) if q else (1, 2, 3))]
    out += [dict(h='send', n=n) for n in (1, 2)]
    out += [dict(h='stale'), dict(h='big')]
    return out


def run(H, case):
    globals()['h_' + case['h']](H, case)


class Connection(object):
    """Hands out the stream in reads of any size; at_most(position, wanted) decides."""

    def __init__(self, stream, size):
        self.stream = stream
        self.pos = 0
        self.size = size
        self.reads = 0
        self.empty = 0

    def recv(self, wanted):
        left = len(self.stream) - self.pos
        n = wanted if wanted < left else left
        if n > 1:
            n = self.size(self.pos, n)
        if n == 0 and wanted:
            self.empty += 1
            if self.empty > 50:
                raise RuntimeError('reads on after the end of the stream')
        data = self.stream[self.pos:self.pos + n]
        self.pos += n
        self.reads += 1
        return data


def receiver(connection):
    class Handler(nxt_log.LogRecordStreamHandler):
        def __init__(self):
            self.connection = connection
            self.got = []
            self.records = []

        def un_pickle(self, data):
            self.got.append(bytes(data))
            return {}

        def handle_log_record(self, record):
            self.records.append(record)
    return Handler()


def frame(body):
    return struct.pack('>L', len(body)) + body


def h_stream(H, case):
    bodies = [BODIES[i] for i in case['b']]
    stream = b''.join([frame(b) for b in bodies])

    def size(pos, n):
        k = H.int('read%d' % pos, 1, n)
        for i in range(1, n):
            if bool(k == i):
                H.reach('cut')
                return i
        H.reach('whole')
        return n
    c = Connection(stream, size)
    h = receiver(c)
    h.handle()
    H.check(h.got == bodies, 'the messages arrive as they were sent')
    H.check(len(h.records) == len(bodies), 'one record per message')
    H.check(c.pos == len(stream), 'the whole stream is read')


def h_big(H, case):
    """messages of many sizes in reads of many sizes"""
    bodies = [b'a' * H.choice('size0', [255, 256, 65535, 65536, 70001]), b'b' * H.choice('size1', [3, 65537, 200000])]
    most = H.choice('read', [1000, 4096, 65536, 1000000])
    c = Connection(b''.join([frame(b) for b in bodies]), lambda pos, n: n if n < most else most)
    h = receiver(c)
    h.handle()
    H.check(h.got == bodies, 'big messages arrive as they were sent')
    H.check(len(h.records) == 2, 'one record per big message')
    H.reach('big')


def h_truncated(H, case):
    """the connection ends early: complete messages arrive, nothing else, and the handler ends"""
    bodies = [BODIES[i] for i in case['b']]
    stream = b''.join([frame(b) for b in bodies])
    end = H.int('end', 0, len(stream) - 1)
    e = [i for i in range(len(stream)) if bool(end == i)][0]
    h = receiver(Connection(stream[:e], lambda pos, n: n))
    h.handle()
    want = []
    at = 0
    for b in bodies:
        at += 4 + len(b)
        if at <= e:
            want.append(b)
    H.check(h.got == want, 'complete messages only')
    H.reach('truncated')


TEXTS = [u'hello', u'', u'\u00e4\U0001f600\n%s', u'x' * 70]


def h_records(H, case):
    """log records, framed as the child process frames them"""
    handler = logging.handlers.SocketHandler('localhost', 1)
    t1 = H.choice('t1', TEXTS)
    t2 = H.choice('t2', TEXTS) if case['cuts'] == 1 else TEXTS[1]
    texts = [t1, t2]
    stream = b''
    for t in texts:
        r = logging.LogRecord('nxt.x', logging.INFO, 'f', 1, t, None, None)
        r.__dict__ = dict([(k, v) for k, v in r.__dict__.items() if k in (
            'name', 'levelname', 'levelno', 'msg', 'args', 'exc_info', 'exc_text')])
        stream += handler.makePickle(r)
    cuts = [H.int('cut%d' % i, 1, len(stream) - 1) for i in range(case['cuts'])]
    for a, b in zip(cuts, cuts[1:]):
        H.assume(a < b)
    if case['cuts'] > 1:
        # far apart cuts behave like single ones
        H.assume(cuts[-1] - cuts[0] <= 9)

    def size(pos, n):
        for c in cuts:
            if bool(c > pos) and bool(c < pos + n):
                for i in range(1, n):
                    if bool(c == pos + i):
                        return i
        return n
    got = []

    class Handler(nxt_log.LogRecordStreamHandler):
        def __init__(self):
            self.connection = Connection(stream, size)

        def handle_log_record(self, record):
            got.append(record)
    Handler().handle()
    H.check([r.getMessage() for r in got] == texts, 'the text of every record')
    H.check([r.levelname for r in got] == ['remote.INFO'] * 2 and [r.name for r in got] == ['nxt.x'] * 2,
            'level and logger of every record')
    H.reach('records')


class Server(object):
    def __init__(self):
        self.data = b''

    def sendall(self, data):
        self.data += data


def h_send(H, case):
    server = Server()
    sent = []
    keep = nxt_socket.__nxt_server__
    nxt_socket.__nxt_server__ = server
    sizes = [0, 1, 9, 60, 85, 255, 999, 1200, 70000]
    try:
        for i in range(case['n']):
            t = H.choice('text%d' % i, [u'e', u'\u00e9'])
            k = H.choice('size%d' % i, sizes)
            msg = nxt_socket.format_msg(t * k, H.choice('typ%d' % i, [
                nxt_socket.COM_TYPE.LOG, nxt_socket.COM_TYPE.CACHE]))
            if H.bool('more%d' % i):
                msg = nxt_socket.format_msg(t, nxt_socket.COM_TYPE.WAIT, msg)
            sent.append(msg)
            nxt_socket.send_to_server(msg)
    finally:
        nxt_socket.__nxt_server__ = keep
    data = server.data
    got = []
    while len(data):
        n = int(data[:nxt_socket.HEADER_SIZE])
        got.append(pickle.loads(data[10:10 + n]))
        data = data[10 + n:]
    H.check(got == sent, 'every message follows its length')
    H.reach('sent')


class Broken(object):
    def __init__(self, n):
        self.n = n

    def sendall(self, data):
        raise OSError(self.n, 'no')


def h_stale(H, case):
    """a stale connection is dropped, other errors keep it"""
    n = H.int('errno', 1, 20000)
    stale = bool(n == 10053)
    server = Broken(10053 if stale else 32)
    keep = nxt_socket.__nxt_server__
    nxt_socket.__nxt_server__ = server
    try:
        nxt_socket.send_to_server(nxt_socket.format_msg('x', nxt_socket.COM_TYPE.LOG))
        H.check((nxt_socket.__nxt_server__ is None) == stale, 'a stale connection is dropped')
    finally:
        nxt_socket.__nxt_server__ = keep
    H.reach('stale')
