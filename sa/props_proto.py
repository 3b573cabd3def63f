"""FIBS protocol: classification of messages, states, sessions."""
import re

import drive
import fibs_messages as SPEC
import lang
import rx
from absint import BUILTINS, Bound, Builtin, Cls, Engine, Frame, Inst, ListO, PYEXC, Raised, Ref, St, Term, AnalysisError
from props import driver, prop

FIBS = 'bglib.protocol.fibs'
MSG = Term('line', 'message', kind='str')
RX = Cls('CompiledPattern', 're', (), {}, None, True)
MT = Cls('MatchFound', 're', (), {}, None, True)
OPS = ('match', 'search')


def install(E):
    """Regular expressions over an unknown message: both outcomes are followed and recorded."""
    import re
    import absbuiltins

    def pattern(st, p):
        p = E.norm(st, p)
        if isinstance(p, Ref):
            o = E.obj(st, p)
            if isinstance(o, Inst) and o.cls is RX:
                return o.attrs['pattern']
        if not isinstance(p, str):
            raise AnalysisError('pattern is not a constant: %r' % (p,))
        return p

    def consult(E, st, what, p, subject):
        s = E.norm(st, subject)
        if isinstance(s, str):
            s1, r = E.new(st, Inst(MT, {}))
            return [(s1, r)] if getattr(re, what)(p, s) else [(st, None)]
        if s != MSG:
            st = st.event('re', 'other', p, E.val(st, s), False)
            return [(st, None)]
        yes = st.event('re', what, p, True)
        yes, r = E.new(yes, Inst(MT, {}))
        return [(st.event('re', what, p, False), None), (yes, r)]

    for what in OPS:
        E.exthooks['re.' + what] = lambda E, st, a, kw, fr, n, what=what: consult(E, st, what, pattern(st, a[0]), a[1])
        b = Builtin('rxmsg.' + what)
        RX.attrs[what] = b
        BUILTINS['rxmsg.' + what] = b
        setattr(absbuiltins, 'b_rxmsg_' + what, lambda E, st, a, kw, fr, n, what=what: consult(E, st, what, pattern(st, a[0]), a[1]))

    def compile_(E, st, a, kw, fr, n):
        if len(a) > 1 or kw:
            raise AnalysisError('flags of a pattern')
        p = pattern(st, a[0])
        s, r = E.new(st, Inst(RX, {'pattern': p}))
        return [(s, r)]
    E.exthooks['re.compile'] = compile_


class Proto(object):
    def __init__(self, chk):
        self.chk = chk
        self.E = Engine()
        self.E.maxrec = 8
        install(self.E)
        self.fr = Frame(FIBS, None, FIBS)

    def make(self, st, name):
        c = self.E.resolve(FIBS + '.' + name)
        outs = self.E.call(st, c, [], {}, self.fr, None)
        if len(outs) != 1 or isinstance(outs[0][1], Raised):
            raise AnalysisError('%s() has %d outcomes' % (name, len(outs)))
        return outs[0]

    def ask(self, st, ref, message):
        """[(state afterwards, cookie, [(op, pattern, found)])]"""
        out = []
        st = st.copy()
        st.events = ()
        for s, f in self.E.getattr(st, ref, 'make_cookie', self.fr, None):
            for s2, r in self.E.call(s, f, [message], {}, self.fr, None):
                ev = [e for e in s2.events if e[0] == 're']
                if any(e[1] == 'other' for e in ev):
                    e = [e for e in ev if e[1] == 'other'][0]
                    self.chk.violation('message-changed', self.cls(s2, ref), self.where(s2, ref), 'the pattern %r is applied to %r instead of the message' % (e[2], e[3]))
                s2 = s2.copy()
                s2.events = ()
                if isinstance(r, Raised):
                    self.chk.violation('exception', self.cls(s2, ref) + ' ' + drive.excname(self.E, s2, r), self.where(s2, ref), 'make_cookie raises %s' % drive.excname(self.E, s2, r))
                    continue
                out.append((s2, self.E.norm(s2, r), [e[1:] for e in ev if e[1] != 'other']))
        return out

    def cls(self, st, ref):
        return self.E.obj(st, ref).cls.name

    def where(self, st, ref):
        c = self.E.obj(st, ref).cls
        return '%s:%s %s' % ('bglib/protocol/fibs.py', getattr(c.node, 'lineno', '?'), c.name)


def languages(P, st, ref, label):
    """cookie -> [(op, pattern)], as the paths of make_cookie have it; checks the shape of every path."""
    got, default = {}, set()
    every = set()
    outs = P.ask(st, ref, MSG)
    for s, r, ev in outs:
        every |= {e[:2] for e in ev}
    for s, r, ev in outs:
        P.chk.count('paths')
        yes = [e[:2] for e in ev if e[2]]
        if not isinstance(r, str):
            P.chk.violation('no-cookie', P.cls(s, ref), P.where(s, ref), '%s: the cookie is %r' % (label, r))
            continue
        if len(yes) > 1:
            raise AnalysisError('a path on which %d patterns are found' % len(yes))
        if yes:
            if yes[0] not in got.setdefault(r, []):
                got[r].append(yes[0])
        else:
            default.add(r)
            if {e[:2] for e in ev} != every:
                P.chk.violation('given-up-early', P.cls(s, ref) + ' ' + r, P.where(s, ref), '%s: %s is returned before all patterns are tried' % (label, r))
    return got, default, outs


def machine(ops):
    kinds = {o for o, p in ops}
    if len(kinds) > 1:
        raise AnalysisError('match and search mixed')
    return lang.Matcher([p for o, p in ops], kinds.pop())


_SPEC = {}


def compare(P, where, key, label, got, default, seen):
    chk = P.chk
    spec = SPEC.TABLES[key]
    if default != {SPEC.DEFAULT[key]}:
        chk.violation('wrong-default', key, where, '%s: a message that is not known gets %s, not %s' % (label, sorted(default), SPEC.DEFAULT[key]))
    for c, forms in spec.items():
        chk.count('cookies')
        if c == SPEC.DEFAULT[key]:
            continue
        if (key, c) not in _SPEC:
            _SPEC[key, c] = lang.Matcher(forms, 'match')
        want = _SPEC[key, c]
        if c not in got:
            chk.violation('message-not-recognised', '%s %s' % (key, c), where, '%s: no message gets %s' % (label, c))
            continue
        k = (key, c, tuple(sorted(got[c])))
        if k in seen:
            continue
        seen[k] = M = machine(got[c])
        w = lang.missing(want, M)
        if w is not None:
            chk.violation('message-not-recognised', '%s %s' % (key, c), where, '%s: %r does not get %s' % (label, w, c))
        w = lang.missing(M, want)
        if w is not None:
            chk.violation('foreign-message', '%s %s' % (key, c), where, '%s: %r gets %s' % (label, w, c))
    for c in got:
        if c not in spec:
            chk.violation('foreign-message', '%s %s' % (key, c), where, '%s: %s is not a cookie of this state' % (label, c))


@prop('F01', 'Abstract interpretation of make_cookie over an unknown message: every pattern it may consult is found or not found on some path; the language of messages '
      'of every cookie, read off these paths, is compared with the protocol\'s by inclusion of automata, and with the others\' by intersection.',
      ['every message of the protocol gets its cookie in its state', 'no other message gets it', 'no message belongs to two cookies of a state', 'anything else gets the default cookie of the state',
       'what was classified before does not matter'],
      ['Names of players are made of letters, _, < and >.', 'Lines hold no line break.'])
def f01(chk, tier):
    P = Proto(chk)
    seen = {}
    E = P.E
    st = St({}, {}, {})
    warm = []
    for key, cls in (('LOGIN', 'LoginState'), ('MOTD', 'MOTDState'), ('RUN', 'RunState')):
        s, ref = P.make(st, cls)
        where = P.where(s, ref)
        got, default, outs = languages(P, s, ref, 'first message')
        compare(P, where, key, 'first message', got, default, seen)
        check_empty(P, s, ref, key, where)
        # disjointness of what the code distinguishes
        ms = {c: machine(v) for c, v in got.items()}
        names = sorted(ms)
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                chk.count('pairs_of_cookies')
                w = lang.overlap(ms[a], ms[b])
                if w is not None:
                    chk.violation('ambiguous-message', '%s %s %s' % (key, a, b), where, '%r is a message of both, and which one it gets depends on what came before' % w)
        # histories: after some other message of the same state
        pick = [0, 1, len(outs) // 2, -1] if tier == 'quick' else range(len(outs))
        for i in sorted({x % len(outs) for x in pick}):
            s1, r1, ev1 = outs[i]
            got1, default1, outs1 = languages(P, s1, ref, 'after %s' % r1)
            chk.count('histories')
            compare(P, where, key, 'after %s' % r1, got1, default1, seen)
            if i in (0, len(outs) - 1):
                s2, r2, ev2 = outs1[len(outs1) // 2]
                got2, default2, _ = languages(P, s2, ref, 'after %s, %s' % (r1, r2))
                chk.count('histories')
                compare(P, where, key, 'after %s, %s' % (r1, r2), got2, default2, seen)
        # after long histories: a message of every cookie, in the order of the table, backwards and twice
        words = list(witnesses(key).items())
        orders = [('after every message', words)]
        if tier == 'thorough':
            orders += [('after every message, backwards', words[::-1]), ('after every message twice', words + words)]
        for label, order in orders:
            s1, lost = run(P, s, ref, order)
            chk.count('histories')
            for c, w, got1 in lost:
                chk.violation('message-not-recognised', '%s %s' % (key, c), where, '%s: %r gets %s instead of %s' % (label, w, got1, c))
            got1, default1, _ = languages(P, s1, ref, label)
            compare(P, where, key, label, got1, default1, seen)
        # and with everything the earlier states left behind
        if warm:
            s, ref = P.make(warm[-1], cls)
            got1, default1, outs1 = languages(P, s, ref, 'after the states before')
            chk.count('histories')
            compare(P, where, key, 'after the states before', got1, default1, seen)
            outs = outs1
        last = [o for o in outs if not any(e[2] for e in o[2])]
        if last:
            warm.append(last[0][0])
    # as a session asks for it: through the one that keeps the state
    s, mon = P.make(St({}, {}, {}), 'CookieMonster')
    for key, way in (('LOGIN', None), ('MOTD', 'CLIP_MOTD_BEGIN'), ('RUN', 'CLIP_MOTD_END')):
        if way is not None:
            prev = 'LOGIN' if key == 'MOTD' else 'MOTD'
            w = witnesses(prev).get(way)
            outs = P.ask(s, mon, w) if w else []
            if len(outs) != 1 or outs[0][1] != way:
                chk.violation('message-not-recognised', 'CookieMonster ' + way, P.where(s, mon), '%r gets %s' % (w, [o[1] for o in outs]))
                break
            s = outs[0][0]
        got, default, _ = languages(P, s, mon, 'in a session')
        chk.count('histories')
        compare(P, P.where(s, mon), key, 'in a session', got, default, seen)
        check_empty(P, s, mon, key, P.where(s, mon))
    chk.count('languages_compared', len(seen))


def witnesses(key):
    """cookie -> a message of it that is of no other cookie of the state"""
    out = {}
    for c, forms in SPEC.TABLES[key].items():
        if c == SPEC.DEFAULT[key]:
            continue
        if (key, c) not in _SPEC:
            _SPEC[key, c] = lang.Matcher(forms, 'match')
        w = lang.missing(_SPEC[key, c], lang.Matcher([r'\Zx'], 'match'))
        if w and [d for d, fs in SPEC.TABLES[key].items() if d != SPEC.DEFAULT[key] and any(re.match(f, w) for f in fs)] == [c]:
            out[c] = w
    return out


def run(P, st, ref, order):
    """the state after these messages, and which of them did not get their cookie"""
    lost = []
    for c, w in order:
        outs = P.ask(st, ref, w)
        if len(outs) != 1:
            raise AnalysisError('%d outcomes for the message %r' % (len(outs), w))
        P.chk.count('messages')
        st, r, _ = outs[0]
        if r != c:
            lost.append((c, w, r))
    return st, lost


def check_empty(P, st, ref, key, where):
    for s, r, ev in P.ask(st, ref, ''):
        if r != SPEC.EMPTY[key]:
            P.chk.violation('wrong-default', key + ' empty', where, 'an empty message gets %r, not %s' % (r, SPEC.EMPTY[key]))


PROBE = {v: k for k, v in SPEC.EMPTY.items()}


@prop('F02', 'Abstract interpretation of CookieMonster.make_cookie over sequences of unknown messages; the state reached is identified by the table it consults.',
      ['a session begins with the login', 'the message of the day follows CLIP_MOTD_BEGIN and ends with CLIP_MOTD_END', 'FIBS_Goodbye ends the session\'s run', 'nothing else changes the state',
       'the cookie is that of the state the message came in'], ['The tables of the states are those of F01.'])
def f02(chk, tier):
    P = Proto(chk)
    where = 'bglib/protocol/fibs.py CookieMonster'

    def state_of(st, mon):
        outs = P.ask(st, mon, '')
        names = {r for s, r, ev in outs}
        if len(names) != 1:
            return '?%s' % sorted(map(str, names))
        r = names.pop()
        return PROBE.get(r, '?%s' % (r,))

    st, mon = P.make(St({}, {}, {}), 'CookieMonster')
    todo, done = [(st, state_of(st, mon), ())], set()
    if todo[0][1] != 'LOGIN':
        chk.violation('initial-state', 'CookieMonster', where, 'a new CookieMonster is in state %s' % todo[0][1])
        return
    rounds = 0
    while todo:
        st, key, hist = todo.pop(0)
        chk.count('states')
        outs = P.ask(st, mon, MSG)
        cookies = {}
        for s, r, ev in outs:
            chk.count('transitions')
            new = state_of(s, mon)
            want = SPEC.NEXT.get((key, r), key)
            found = any(e[2] for e in ev)
            if new != want:
                chk.violation('wrong-state', '%s %s' % (key, r), where, 'after %s in state %s%s the state is %s, not %s' % (r, key, ' (history %s)' % ' '.join(hist) if hist else '', new, want))
            cookies.setdefault(r, []).append(ev)
            if r not in SPEC.TABLES[key] and r != SPEC.DEFAULT[key]:
                chk.violation('wrong-cookie', '%s %s' % (key, r), where, 'in state %s a message gets %s' % (key, r))
            k = (key, new, r if new != key else found)
            if k not in done and (new != key or len(hist) < 3) and new in SPEC.TABLES:
                done.add(k)
                todo.append((s, new, hist + (r,)))
        if set(SPEC.TABLES[key]) - set(cookies):
            chk.violation('wrong-cookie', key, where, 'in state %s no message gets %s' % (key, sorted(set(SPEC.TABLES[key]) - set(cookies))[:5]))
        rounds += 1
        if rounds > 40:
            break
    if not {k[0] for k in done} >= set(SPEC.TABLES):
        chk.violation('unreachable-state', 'CookieMonster', where, 'only %s are reached' % sorted({k[0] for k in done}))


STUBS = ('threading', 'thread', 'socket', 'telnetlib')
LIBRARY = ('drv_', 'bglib.protocol.fibs')


def discipline(E, sink, case, st, res):
    """Locks along one path; yields the accesses to attributes: (attribute, context, read/write, mutable, locks held, where)."""
    held, ctx = [], 'construct'
    out = []

    def bad(rule, construct, detail):
        sink.violation(rule, construct, construct, '%s: %s' % (case, detail))
    for e in st.events:
        k = e[0]
        if k == 'constructed':
            ctx = 'before start'
        elif k == 'start':
            ctx = 'api'
        elif k == 'listener':
            ctx = 'listener'
            if held:
                bad('lock-not-released', 'bglib.protocol.session', 'a lock is held when the caller has returned')
        elif k == 'listener-ended':
            ctx = 'api'
            if held:
                bad('lock-not-released', 'bglib.protocol.session.Session._listener', 'the listener ends with a lock held')
        elif k == 'acquire':
            held.append(e[1])
        elif k == 'release':
            if e[1] not in held:
                bad('released-without-holding', 'bglib.protocol.session', 'a lock is released that is not held')
            else:
                held.remove(e[1])
        elif k == 'deadlock':
            bad('deadlock', 'bglib.protocol.session', 'a lock is acquired by who already holds it')
        elif k == 'wait' and held:
            bad('waits-with-lock', 'bglib.protocol.session.Session._listener', 'nobody can send while the listener waits for a line with the lock held')
        elif k == 'write':
            out.append(('the connection', ctx, 'write', True, tuple(sorted(set(held))), 'bglib.protocol.session.Transport.send_line'))
        elif k == 'access':
            _, ref, name, how, mutable, fn, line = e
            if not any(fn.startswith(x) for x in LIBRARY) and fn.split('.')[0] not in STUBS:
                out.append((name, ctx, how, mutable, tuple(sorted(set(held))), '%s:%s' % (fn, line)))
    if held:
        bad('lock-not-released', 'bglib.protocol.session', 'a lock is held when everything has returned')
    return sorted(set(out))


@prop('F03', 'Abstract interpretation of Session against contracts of telnetlib, socket, thread and threading: scripts of incoming texts and ends of the connection, '
      'with registrations before and during dispatch; lockset analysis of the attributes both threads use over the same paths.',
      ['every message reaches every subscriber once, in order, with its cookie', 'whoever has left is not told', 'the listener signals its end whatever ended it', 'nothing is dispatched after close',
       'a line is sent whole', 'locks are released on every path', 'nothing waits for the network with the lock held', 'attributes used by both threads are always accessed under a common lock'],
      ['telnetlib, socket, thread and threading keep the contracts of drivers/stubs.', 'The listener is one thread, the callers of the public methods others.'])
def f03(chk, tier):
    import os
    E = Engine()

    def setup(E, D):
        install(E)
        for x in STUBS:
            E.stub(x, os.path.join(drive.DRV, 'stubs', x + '.py'))
        E.watch = {'bglib.protocol.session.Transport'}
    data = driver(chk, 'session.py', need=60, E=E, setup=setup, post=discipline, must_see=('bglib.protocol.session.Session._dispatch', 'bglib.protocol.session.Session._listener'))
    by = {}
    for name, ctx, how, mutable, held, where in sorted(set(data)):
        if ctx in ('api', 'listener'):
            by.setdefault(name, []).append((ctx, how, mutable, held, where))
    for name, acc in by.items():
        chk.count('shared_attributes')
        chk.count('accesses', len(acc))
        if not any(how == 'write' or mutable for ctx, how, mutable, held, where in acc):
            continue
        if name != 'the connection' and {a[0] for a in acc} != {'api', 'listener'}:
            continue
        common = set.intersection(*[set(a[3]) for a in acc])
        if not common:
            for ctx, how, mutable, held, where in acc:
                if not held:
                    chk.violation('race', '%s %s' % (name, where.rsplit(':', 1)[0]), where, '%s of %s without the lock that other accesses hold' % (how, name))
            if all(a[3] for a in acc):
                chk.violation('race', name, acc[0][4], 'no lock is common to all accesses of %s' % name)
