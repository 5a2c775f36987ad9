"""
The program that C26 traces.  Only what is in this file counts as the program;
prog.work and what it calls is the harness.
"""


class Boom(Exception):
    pass


class BoomStop(Boom, StopIteration):
    pass


class BoomKey(Boom, KeyError):
    pass


class BoomAttribute(Boom, AttributeError):
    pass


BOOMS = Boom, BoomStop, Boom, BoomKey, Boom, BoomAttribute


def plain(n, prog):
    if prog.work(n):
        raise BOOMS[n % 6](n)
    return (n, None)


def catching(n, prog):
    try:
        if prog.work(n):
            raise BOOMS[n % 6](n)
    except Boom:
        prog.caught(n)
        return (n, 'caught')
    return (n, None)


def cleaning(n, prog):
    try:
        if prog.work(n):
            raise BOOMS[n % 6](n)
    finally:
        prog.cleaned(n)
    return (n, None)


class Hollow(object):
    """A result that counts as false."""
    def __init__(self, number):
        self.number = number

    def __bool__(self):
        return False
    __len__ = lambda self: 0

    def __eq__(self, other):
        return other == (self.number, None)

    def __repr__(self):
        return '(%d, None)' % (self.number,)


def hollow(n, prog):
    if prog.work(n):
        raise BOOMS[n % 6](n)
    return Hollow(n)


def nothing(n, prog):
    if prog.work(n):
        raise BOOMS[n % 6](n)


def several(n, prog, *args, **kw):
    if prog.work(n):
        raise BOOMS[n % 6](n)
    return (n, None)


def keyword(n, prog, *args, option=5, **kw):
    if prog.work(n):
        raise BOOMS[n % 6](n)
    return (n, None)


class Thing(object):
    def method(self, n, prog):
        if prog.work(n):
            raise BOOMS[n % 6](n)
        return (n, None)

    class Inner(object):
        def method(self, n, prog, more=None):
            if prog.work(n):
                raise BOOMS[n % 6](n)
            return (n, None)


class Void(object):
    """Something that counts as false, or would rather not be asked."""
    def __init__(self, touchy):
        self.touchy = touchy

    def __bool__(self):
        if self.touchy:
            raise ZeroDivisionError('do not ask')
        return False

    def __len__(self):
        return 0

    def method(self, n, prog):
        if prog.work(n):
            raise BOOMS[n % 6](n)
        return (n, None)


def scraps(scrap, *more):
    """A generator that does not keep its arguments."""
    del scrap
    yield 1
    del more
    yield 2


def forgetful(n, prog):
    for x in scraps(5, 6):
        pass
    if prog.work(n):
        raise BOOMS[n % 6](n)
    return (n, None)
