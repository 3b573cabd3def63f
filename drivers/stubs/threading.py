"""Locks and events, as far as their protocol goes."""
_made = []


class RLock(object):
    def __init__(self):
        _made.append(1)
        self.n = len(_made)
        self.depth = 0

    def acquire(self, blocking=1):
        self.depth = self.depth + 1
        MARK('acquire', self.n)
        return True

    def release(self):
        MARK('release', self.n)
        if self.depth < 1:
            raise RuntimeError('released a lock that is not held')
        self.depth = self.depth - 1

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


class Lock(RLock):
    def acquire(self, blocking=1):
        if self.depth:
            MARK('deadlock', self.n)
        self.depth = self.depth + 1
        MARK('acquire', self.n)
        return True


class Condition(RLock):
    pass


class Event(object):
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True
        MARK('event-set')

    def clear(self):
        self.flag = False

    def isSet(self):
        return self.flag

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        return self.flag
