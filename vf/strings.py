"""String and character literals with the bytes they denote"""

ESC = {7: 'a', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't', 11: 'v', 92: '\\', 39: "'", 34: '"'}
SPECIAL = b'$`"\'\\%!#&*()|;<>?[]{}~^=-+/:,.@_ \t\n'
TEXTS = [b'$x', b'${x}', b'$(ls)', b'`ls`', b'$((1+1))', b'\\n', b'\\\\', b'%d', b'%%', b'%s', b'-n', b'-e', b'--', b'!!', b'*', b'/*', b'//', b'*/', b'#if', b'~', b'"', b"'", b'\\0', b'\\101', b'  ', b'\n\n', b'',
         b'<<EOF', b'&&', b'$1', b'$@', b'$$', b'{a,b}', b'[a-z]', b'\\x41', b'\\c', b'a\\', b'"; exit; "', b'EOF', b'$', b'$ ', b'\\$x', b'\\`', b'??=', b'??/', b'|', b'=', b'\n', b' ', b'\t', b'echo', b'\\\n']


def data(rng, n, lo=1, hi=127, nul=False):
    """Random bytes"""
    out = b''
    while len(out) < n:
        k = rng.random()
        if k < 0.2:
            out += rng.choice(TEXTS)
        elif k < 0.5:
            out += bytes([rng.choice(SPECIAL)])
        elif k < 0.85:
            out += bytes([rng.choice(b'abcdefgABCXYZ0123456789 ')])
        else:
            out += bytes([rng.randint(lo, hi)])
    out = out[:n]
    return bytes(c if lo <= c <= hi or (nul and c == 0) else 97 for c in out)


def char(rng, c, nxt, quote):
    """A spelling of the byte c followed by the byte nxt (None at the end)"""
    digit8 = nxt is not None and 48 <= nxt <= 55
    hexd = nxt is not None and chr(nxt) in '0123456789abcdefABCDEF'
    k = rng.random()
    if k < 0.08 or (k < 0.5 and not 32 <= c < 127 and c not in ESC):
        o = '%o' % c
        if digit8 or rng.random() < 0.3:
            o = o.zfill(3)
        return '\\' + o
    if (k < 0.14 or (not 32 <= c < 127 and c not in ESC)) and not hexd:
        return '\\x' + rng.choice(['%x', '%02x', '%X', '%02X']) % c
    if not 32 <= c < 127 and c not in ESC:
        return '\\%03o' % c
    if c in ESC and (c in (10, 13, 92) or c == ord(quote) or not 32 <= c < 127 or rng.random() < 0.2):
        if c == 9 and rng.random() < 0.2:
            return '\t'
        return '\\' + ESC[c]
    return chr(c)


def literal(rng, b, pieces=None):
    """A spelling of the string literal with these bytes, perhaps as adjacent literals"""
    parts = []
    n = pieces or (1 if rng.random() < 0.8 else rng.randint(2, 4))
    cuts = sorted(rng.randint(0, len(b)) for _ in range(n - 1))
    for i, j in zip([0] + cuts, cuts + [len(b)]):
        s = b[i:j]
        parts.append('"' + ''.join(char(rng, c, s[k + 1] if k + 1 < len(s) else None, '"') for k, c in enumerate(s)) + '"')
    r = rng.choice([' ', '  ', '\n    ', '', ' /* c */ ']).join(parts)
    return r


def charlit(rng, c):
    return "'" + char(rng, c, None, "'") + "'"
