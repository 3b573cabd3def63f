"""Sessions: whatever arrives is dispatched once, in order, to everyone registered; locks are released; the end is signalled."""
import socket
import bglib.protocol.session
from bglib.protocol.session import Session, Subscriber, Transport, synchronized_with

S = 'bglib.protocol.session.'


class Log(Subscriber):
    def __init__(self, name):
        Subscriber.__init__(self)
        self.name = name

    def FIBS_LoginPrompt(self, got):
        MARK('got', self.name, 'FIBS_LoginPrompt', got)

    def FIBS_PreLogin(self, got):
        MARK('got', self.name, 'FIBS_PreLogin', got)

    def CLIP_WELCOME(self, got):
        MARK('got', self.name, 'CLIP_WELCOME', got)

    def CLIP_MOTD_BEGIN(self, got):
        MARK('got', self.name, 'CLIP_MOTD_BEGIN', got)

    def CLIP_MOTD_END(self, got):
        MARK('got', self.name, 'CLIP_MOTD_END', got)

    def EOFError(self, got):
        MARK('got', self.name, 'EOFError', 0)

    def socket_error(self, got):
        MARK('got', self.name, 'socket_error', 0)


class Quiet(Subscriber):
    """Has no handler at all."""


class Meddler(Log):
    """Changes the registrations when the first line arrives."""
    def __init__(self, name, what):
        Log.__init__(self, name)
        self.what = what

    def FIBS_PreLogin(self, got):
        MARK('got', self.name, 'FIBS_PreLogin', got)
        self.what()


class Faulty(Log):
    def FIBS_PreLogin(self, got):
        MARK('got', self.name, 'FIBS_PreLogin', got)
        raise ValueError()


def new():
    MARK('construct')
    s = Session()
    MARK('constructed')
    return s


def connected(script):
    s = new()
    s.open('host', 4321)
    s.script = list(script)
    return s


def listen(s):
    MARK('listener')
    try:
        s._listener()
    except SystemExit:
        pass
    MARK('listener-ended')


def gots(name):
    return [e[2:] for e in EVENTS('got') if e[1] == name]


LINES = (('login: ', 'FIBS_LoginPrompt', 'login: '), ('Hello\r\n', 'FIBS_PreLogin', 'Hello'), ('1 a 1 x\r\n', 'CLIP_WELCOME', '1 a 1 x'),
         ('3\r\n', 'CLIP_MOTD_BEGIN', '3'), ('4\r\n', 'CLIP_MOTD_END', '4'), (' \r\n', 'FIBS_PreLogin', ' '), ('tail', 'FIBS_PreLogin', 'tail'), ('\r\n', 'FIBS_PreLogin', ''), ('  x \r\n', 'FIBS_PreLogin', '  x '))
SCRIPTS = ((), (0,), (1,), (0, 1), (1, 0, 1), (2, 3, 4), (1, 1, 1), (0, 2, 3, 4), (5, 1), (1, 6), (7, 1), (1, 7, 7), (8, 0))


def check_lines(script=SCRIPTS, end=('eof', 'reset', 'run-out')):
    """Every line reaches every subscriber once, in order, with its cookie."""
    s = connected([LINES[i][0] for i in script] + ([] if end == 'run-out' else [end]))
    a = Log('a')
    q = Quiet()
    b = Log('b')
    s.register(a, q)
    s.register(b)
    listen(s)
    want = [(LINES[i][1], LINES[i][2]) for i in script]
    if end == 'reset':
        want.append(('socket_error', 0))
    else:
        want.append(('EOFError', 0))
    CHECK(gots('a') == want, 'every message is dispatched once, in order, with its cookie', S + 'Session._listener', gots('a'), want)
    CHECK(gots('b') == want, 'every subscriber is told', S + 'Session._dispatch', gots('b'), want)
    order = [e[1] for e in EVENTS('got')]
    CHECK(order == ['a', 'b'] * len(want), 'subscribers are told in the order of their registration', S + 'Session._dispatch', order)
    CHECK(s.terminated.flag, 'the end of the listener is signalled', S + 'Session._listener')


def check_nobody():
    s = connected(['Hello\r\n'])
    listen(s)
    CHECK(s.terminated.flag, 'the end of the listener is signalled', S + 'Session._listener')


def check_unregistered(order=((0, 1, 2), (2, 1, 0))):
    """Who has left is not told any more, the others are."""
    s = connected(['Hello\r\n'])
    subs = [Log('a'), Log('b'), Log('c')]
    for i in order:
        s.register(subs[i])
    s.unregister(subs[1])
    listen(s)
    CHECK(gots('b') == [], 'who has unregistered is not told', S + 'Session.unregister', gots('b'))
    want = [('FIBS_PreLogin', 'Hello'), ('EOFError', 0)]
    CHECK(gots('a') == want, 'who is still registered is told', S + 'Session.unregister', gots('a'))
    CHECK(gots('c') == want, 'who is still registered is told', S + 'Session.unregister', gots('c'))


def check_several(n=(0, 1)):
    s = connected(['Hello\r\n'])
    a = Log('a')
    b = Log('b')
    c = Log('c')
    s.register(a, b, c)
    if n == 0:
        s.unregister(a, c)
    else:
        s.unregister(a)
        s.unregister(c)
    listen(s)
    CHECK([e[1] for e in EVENTS('got')] == ['b', 'b'], 'who has unregistered is not told', S + 'Session.unregister', EVENTS('got'))


def check_strangers():
    """Only subscribers can register."""
    s = new()
    try:
        s.register(3)
        FAIL('only subscribers can register', S + 'Session.register')
    except AssertionError:
        CHECK(True, 'only subscribers can register', S + 'Session.register')


def check_meddling(what=('leave', 'leave-previous', 'leave-next', 'join')):
    """Registrations that change during a dispatch lose nobody else's message."""
    s = connected(['Hello\r\n', 'Again\r\n'])
    a = Log('a')
    b = Log('b')
    c = Log('c')
    n = Log('n')
    m = Meddler('m', None)

    def act():
        if what == 'leave':
            s.unregister(m)
        elif what == 'leave-previous':
            s.unregister(a)
        elif what == 'leave-next':
            s.unregister(b)
        else:
            s.register(n)
        m.what = nothing
    m.what = act
    s.register(a, m, b, c)
    listen(s)
    both = [('FIBS_PreLogin', 'Hello'), ('FIBS_PreLogin', 'Again'), ('EOFError', 0)]
    first = both[:1]
    rest = both[1:]
    CHECK(gots('c') == both, 'nobody misses a message because another subscriber comes or goes', S + 'Session._dispatch', gots('c'))
    if what != 'leave-next':
        CHECK(gots('b') == both, 'nobody misses a message because another subscriber comes or goes', S + 'Session._dispatch', gots('b'))
    else:
        CHECK(gots('b') == [] or gots('b') == first, 'who has left is not told any more', S + 'Session._dispatch', gots('b'))
    if what == 'leave-previous':
        CHECK(gots('a') == first, 'who has left is not told any more', S + 'Session._dispatch', gots('a'))
    else:
        CHECK(gots('a') == both, 'nobody misses a message because another subscriber comes or goes', S + 'Session._dispatch', gots('a'))
    if what == 'leave':
        CHECK(gots('m') == first, 'who has left is not told any more', S + 'Session._dispatch', gots('m'))
    else:
        CHECK(gots('m') == both, 'nobody misses a message because another subscriber comes or goes', S + 'Session._dispatch', gots('m'))
    if what == 'join':
        CHECK(gots('n') == both or gots('n') == rest, 'who joins is told from then on', S + 'Session._dispatch', gots('n'))


def nothing():
    pass


def check_faulty():
    """An error of a subscriber ends the listener, which is signalled; the lock is free."""
    s = connected(['Hello\r\n', 'Again\r\n'])
    s.register(Log('a'), Faulty('f'), Log('b'))
    listen(s)
    CHECK(gots('a')[0] == ('FIBS_PreLogin', 'Hello'), 'an error of a subscriber does not lose what came before', S + 'Session._dispatch', gots('a'))
    CHECK(s.terminated.flag, 'the end of the listener is signalled', S + 'Session._listener')


def check_closing(how=('close', 'close-late'), before=(0, 1)):
    """After close nothing is dispatched and the end is signalled."""
    s = connected((['Hello\r\n'] if before else []) + [how, 'Again\r\n'])
    a = Log('a')
    s.register(a)
    CHECK(s.is_active(), 'an open session is active', S + 'Transport.open')
    listen(s)
    want = [('FIBS_PreLogin', 'Hello')] if before else []
    CHECK(gots('a') == want, 'nothing is dispatched after close', S + 'Session._dispatch', gots('a'))
    CHECK(s.terminated.flag, 'the end of the listener is signalled', S + 'Session._listener')
    CHECK(not s.is_active(), 'a closed session is not active', S + 'Transport.close')
    CHECK(not s.connected, 'close ends the connection', S + 'Transport.close')


def check_closed_before():
    s = connected(['Hello\r\n'])
    a = Log('a')
    s.register(a)
    s.close()
    listen(s)
    CHECK(gots('a') == [], 'nothing is dispatched after close', S + 'Session._dispatch', gots('a'))
    CHECK(s.terminated.flag, 'the end of the listener is signalled', S + 'Session._listener')


def check_open():
    s = new()
    CHECK(not s.is_active(), 'a new session is not active', S + 'Transport.__init__')
    CHECK(not s.terminated.flag, 'a new session is not terminated', S + 'Transport.__init__')
    s.open('host', 4321)
    CHECK(s.is_active(), 'an open session is active', S + 'Transport.open')
    CHECK(len(EVENTS('start')) == 1, 'one listener is started', S + 'Transport.open', EVENTS('start'))
    marks = [e[0] for e in EVENTS('start', 'connected')]
    CHECK(marks == ['connected', 'start'], 'the listener is started on an open connection', S + 'Transport.open', marks)


def check_open_fails():
    s = new()
    try:
        s.open('down', 4321)
        FAIL('an error of the connection is reported', S + 'Transport.open')
    except socket.error:
        CHECK(not s.is_active(), 'a session that could not be opened is not active', S + 'Transport.open')
        CHECK(len(EVENTS('start')) == 0, 'no listener without a connection', S + 'Transport.open')


def check_send(line=('', 'roll', 'say hello  ', 'x\r')):
    s = connected([])
    s.send_line(line)
    w = [e[1] for e in EVENTS('write')]
    CHECK(w == [line + '\r\n'], 'a line is sent whole, once, with its end', S + 'Transport.send_line', w)


def check_send_unknown():
    s = connected([])
    x = WORD('line')
    s.send_line(x)
    w = [e[1] for e in EVENTS('write')]
    CHECK(len(w) == 1, 'a line is sent whole, once, with its end', S + 'Transport.send_line', w)
    CHECK(w[0] == x + '\r\n', 'a line is sent whole, once, with its end', S + 'Transport.send_line', w)


class Owner(object):
    lock = lambda self, *a, **kw: self._lock

    def __init__(self):
        import threading
        self._lock = threading.Condition()

    @synchronized_with(lock)
    def good(self, a, b=None):
        MARK('inside', a, b)
        return (a, b)

    @synchronized_with(lock)
    def bad(self):
        MARK('inside')
        raise ValueError()

    @synchronized_with(lock)
    def nested(self):
        return self.good(1, b=2)


def check_synchronized(n=(0, 1, 2)):
    o = Owner()
    if n == 0:
        r = o.good('x', b='y')
        CHECK(r == ('x', 'y'), 'arguments and result pass through', S + 'synchronized_with', r)
    elif n == 1:
        r = 'no exception'
        try:
            o.bad()
        except ValueError:
            r = 'ValueError'
        CHECK(r == 'ValueError', 'exceptions pass through', S + 'synchronized_with', r)
    else:
        CHECK(o.nested() == (1, 2), 'arguments and result pass through', S + 'synchronized_with')
    seq = [e[0] for e in EVENTS('acquire', 'release', 'inside')]
    CHECK(o._lock.depth == 0, 'the lock is released on every path', S + 'synchronized_with', seq)
    CHECK(seq[0] == 'acquire' and seq[-1] == 'release' and 'inside' in seq, 'the section runs once, with the lock held', S + 'synchronized_with', seq)
    CHECK(len([x for x in seq if x == 'inside']) == 1, 'the section runs once, with the lock held', S + 'synchronized_with', seq)


def check_subscriber():
    s = Log('a')
    s.nop()
    CHECK(s._lock.depth == 0, 'the lock is released on every path', S + 'Subscriber.nop')
