"""Contract of decorator: calls of the function become calls of the caller with the function."""


def decorator(caller, func):
    def decorated(*args, **kw):
        return caller(func, *args, **kw)
    return decorated
