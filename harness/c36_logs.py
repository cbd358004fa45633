import logging
import os
import shutil
import sys
from nxt import nxt_log
from harness import common as C

PROPERTY = 'C36'
DAYS2 = 60 * 60 * 48
BOUNDS = {
    'quick': 'up to three tracked log files, each there or not, of symbolic ages (every number of seconds up to ten '
             'days), other files next to them, with and without a list of logs from before; every history of up to '
             'four verbosities given as numbers or texts, then a message of every level; up to four starts and stops '
             'of two session logs (of the same file name or not) with a message after each',
    'thorough': 'four tracked files; five verbosities; five starts and stops'}
BOUNDS['quick'] += '; long: up to 25 tracked files'
REACH = ['kept', 'removed', 'gone', 'first', 'silent', 'some', 'all', 'logged', 'stopped', 'levels']
ASSUMPTIONS = ['the clock and the times of files are stubbed by symbolic numbers (set by os.utime in the replay)',
               'a message is shown by a handler of the nxt logger when its level is at least those of both',
               'the default place of the logs is below a scratch directory']


def cases(tier):
    q = tier == 'quick'
    out = [dict(h='track', n=n) for n in range(0, 4 if q else 5)]
    out += [dict(h='track', n=None), dict(h='track', n=12, few=(3, 11)), dict(h='track', n=25, few=(0, 24))]
    out += [dict(h='verbosity', n=n) for n in range(1, 5 if q else 6)]
    out += [dict(h='session', n=n) for n in range(1, 5 if q else 6)]
    out += [dict(h='levels'), dict(h='startup')]
    return out


class Clock(object):
    NOW = 1700000000

    def time(self):
        return self.NOW


def run(H, case):
    root = os.path.join(os.path.realpath(os.environ['TMPDIR']), 'c36.%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    logger = logging.getLogger('nxt')
    keep = (nxt_log.USER_DIR, nxt_log.time, nxt_log.verbose_handler, dict(nxt_log.SESSION_LOG_HANDLERS),
            list(logger.handlers), os.environ.get(nxt_log.VERBOSE_ENV_VAR), logger.level)
    nxt_log.USER_DIR, nxt_log.time, nxt_log.verbose_handler = root, Clock(), None
    # the steps of the run (bookkeeping of the check, not under test) add no handlers
    logger.handlers[:] = []
    H.real_logging()
    try:
        globals()['h_' + case['h']](H, case, root, logger)
    finally:
        H.real_logging(False)
        for h in logger.handlers:
            if isinstance(h, logging.FileHandler):
                h.close()
        (nxt_log.USER_DIR, nxt_log.time, nxt_log.verbose_handler, handlers, logger.handlers[:], env, level) = keep
        logger.setLevel(level)
        nxt_log.SESSION_LOG_HANDLERS.clear()
        nxt_log.SESSION_LOG_HANDLERS.update(handlers)
        os.environ.pop(nxt_log.VERBOSE_ENV_VAR, None)
        if env is not None:
            os.environ[nxt_log.VERBOSE_ENV_VAR] = env


def h_track(H, case, root, logger):
    """Which logs are removed, forgotten and kept when a new one is tracked"""
    meta = root + '/.nxt_meta_log'
    old = []
    ages = {}

    def mtime(path):
        if path in ages and os.path.isfile(path):
            return Clock.NOW - ages[path]
        return os.stat(path).st_mtime
    H.stub(os.path.getmtime, mtime)
    H.stub(os.utime, lambda path, times: None)
    for i in range(case['n'] or 0):
        p = '%s/old %d.log' % (root, i)
        old.append(p)
        few = case.get('few')
        if (few and i not in few) or H.bool('there %d' % i):
            with open(p, 'w') as f:
                f.write('x')
            ages[p] = i * 20000 if few and i not in few else H.int('age %d' % i, 0, 864000)
            os.utime(p, (Clock.NOW - ages[p], Clock.NOW - ages[p]))
    for p in ('other.log', 'new.log'):
        with open(root + '/' + p, 'w') as f:
            f.write('x')
    if case['n'] is not None:
        with open(meta, 'w') as f:
            f.write(''.join([p + '\n' for p in old]))
    else:
        H.reach('first')
    nxt_log.track_log_file(root + '/new.log')
    with open(meta, 'r') as f:
        listed = f.read().split('\n')
    H.check(listed[-1] == '' and listed[-2] == root + '/new.log', 'the new log is tracked')
    listed = listed[:-2]
    for p in old:
        if p in ages:
            stale = ages[p] > DAYS2
            if os.path.exists(p):
                H.check(H.not_(stale), 'a log of more than two days is removed')
                H.check(p in listed, 'a log that is kept is tracked still')
                H.reach('kept')
            else:
                H.check(stale, 'a log of up to two days is kept')
                H.reach('removed')
        else:
            H.check(p not in listed, 'a log that is gone is forgotten')
            H.reach('gone')
    H.check([p for p in listed if p not in old] == [], 'nothing else is tracked')
    H.check(listed == [p for p in old if p in listed], 'in the order they were')
    H.check(os.path.isfile(root + '/other.log') and os.path.isfile(root + '/new.log'), 'no other file is removed')


def shown(H, logger, level, what):
    """How many handlers of a kind show a message of a level"""
    out = []
    for h in logger.handlers:
        if what(h):
            out.append(H.all_of([level >= h.level, level >= logger.level, logger.disabled is False or 0]))
    return out


def stderr(h):
    return type(h) is logging.StreamHandler and h.stream is sys.stderr


def judge_verbosity(H, logger, last, level):
    n = shown(H, logger, level, stderr)
    once = H.all_of([H.any_of(n), len(n) == 1]) if n else H.any_of([])
    if last == 0:
        H.check(H.not_(H.any_of(n)), 'nothing is shown')
        H.reach('silent')
    elif last == 1:
        H.check(H.eq(bool(n) and len(n) == 1, True), 'one handler')
        H.check(H.any_of([H.all_of([once, level >= nxt_log.EXECINFO]),
                          H.all_of([H.not_(once), level < nxt_log.EXECINFO])]),
                'messages about execution and the more severe ones are shown, no others')
        H.reach('some')
    else:
        H.check(once, 'every message is shown once')
        H.reach('all')


def h_verbosity(H, case, root, logger):
    logger.setLevel(logging.DEBUG)
    last = 0
    for i in range(case['n']):
        last = H.choice('v%d' % i, [0, 1, 2, 3])
        nxt_log.set_verbosity(str(last) if H.bool('text %d' % i) else last)
        judge_verbosity(H, logger, last, H.int('level %d' % i, 10, 60))


def h_startup(H, case, root, logger):
    """The level the environment asks for, then others"""
    last = H.choice('env', [None, 0, 1, 2])
    os.environ.pop(nxt_log.VERBOSE_ENV_VAR, None)
    if last is not None:
        os.environ[nxt_log.VERBOSE_ENV_VAR] = str(last)
    cls = logging.getLoggerClass()
    logging.setLoggerClass(logging.Logger)
    try:
        nxt_log.initial_setup()
    finally:
        logging.setLoggerClass(cls)
    judge_verbosity(H, logger, last or 0, H.int('level', 10, 60))
    last = H.choice('then', [0, 1, 2])
    nxt_log.set_verbosity(last)
    judge_verbosity(H, logger, last, H.int('level then', 10, 60))


def h_session(H, case, root, logger):
    """A message is in the logs that are open when it is sent, once"""
    logger.setLevel(logging.DEBUG)
    logs = [root + '/one.log', root + H.choice('second', ['/two.log', '/sub/one.log'])]
    os.makedirs(root + '/sub', exist_ok=True)
    active, want = [], {logs[0]: [], logs[1]: []}
    for i in range(case['n']):
        ops = []
        for p in logs:
            ops.append(('stop ' if p in active else 'start ') + p)
        ops.append('stop ' + root + '/no.log')
        op, p = H.choice('op %d' % i, ops).split(' ')
        if op == 'start':
            H.check(nxt_log.make_session_log(p) == p, 'the file that was asked for')
            active.append(p)
        else:
            nxt_log.stop_session_log(p)
            active = [a for a in active if a != p]
        logger.info('message %d', i)
        for a in active:
            want[a].append('INFO: message %d' % i)
    for p in logs:
        got = []
        if os.path.exists(p):
            with open(p, 'r') as f:
                got = [l for l in f.read().split('\n') if 'message' in l]
        H.check(got == want[p], 'a log holds the messages sent while it is open, once')
        H.reach('logged')
        if p not in active:
            H.reach('stopped')


def h_levels(H, case, root, logger):
    """The levels of nxt between those of the standard library: what is sent is what is received"""
    got = []

    class Keep(logging.Handler):
        def emit(self, record):
            got.append(record)
    logger.addHandler(Keep())
    names = {'socket': (16, 'SOCKET'), 'compinfo': (17, 'COMPOSITE'), 'execinfo': (18, 'EXECUTE'),
             'nodeout': (19, 'NODEOUT'), 'grapherror': (39, 'GRAPH ERROR')}
    level = H.choice('logger level', [10, 16, 17, 18, 19, 20, 39, 40])
    logger.setLevel(level)
    name = H.choice('name', sorted(names))
    links = H.choice('links', [None, ['/a'], []])
    kw = {} if links is None else {'links': links}
    getattr(logger, name)('text %s', 'x', **kw)
    n, text = names[name]
    H.check(len(got) == (1 if n >= level else 0), 'sent when the level allows it')
    for r in got:
        H.check(r.levelno == n and r.levelname == text and r.getMessage() == 'text x', 'as what it was sent')
        H.check(getattr(r, 'links', None) == links, 'with its links')
    H.reach('levels')
