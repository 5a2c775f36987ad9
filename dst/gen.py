"""Generators of values, driven by the run's decisions."""

NASTY = ['', ' ', '\r\n', '\n', '\r', ': ', ':', 'a: b', '\r\n ', '\r\n\r\n', '  x  ', '\t', '-', '_', '\x00',
         '\u00e9', '\u20ac', '\U0001f600', '\u2028', '\u0085', '\x0b', '\x0c', '\x1c', ', ', 'Body: x\r\n', '0', 'None',
         'True', '\ufeff', '\u0130', '\r\n-Ask: 1\r\n\r\n', '%s', '\\', '"', "'", '\x7f', '\u00ff']


def text(c, rare_long=True):
    k = c.draw(6)
    if k == 0:
        return 'abcdefgh'[:c.draw(9)]
    if k in (1, 2):
        return c.pick(NASTY)
    if k in (3, 4):
        return ''.join(c.pick(NASTY) if c.draw(2) else 'qrs'[c.draw(3)] for _ in range(c.draw(6)))
    if rare_long and c.chance(0.05):
        return c.pick(['x', '\u00e9', 'a\r\n', '\r\n', ': ', ' ']) * c.int(500, 40000)
    return chr(c.pick([0x20, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff - 0x10, 0x10000, 0x10ffff - 2])) * c.draw(4)


KEYS = ['foo', 'bar', 'a', 'foo_bar', 'x1', 'a_b_c', 'name', 'Class', 'Import', 'length', 'ask', 'value', 'zz9', 'hello_world']
ODD_KEYS = ['_x', 'k_', '1', 'a.b', 'answer', 'bodyx', 'Lambda']


def key(c):
    return c.pick(ODD_KEYS) if c.chance(0.15) else c.pick(KEYS)
