"""Threads: starting one is recorded, not followed."""


def start_new_thread(f, args, kw=None):
    MARK('start')
    return 1


def exit():
    MARK('exit')
    raise SystemExit()


def get_ident():
    return 1
