"""Reference semantics of JADN format keywords: serialized text of Binary/Array/Integer formats, valid String formats."""
import calendar
import ipaddress
import re
import socket
from datetime import datetime, timedelta, timezone

B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
HEXL = '0123456789abcdef'


def _rj(*a):
    from .model import Reject
    return Reject(*a)


def _us(*a):
    from .model import Unspec
    return Unspec(*a)


def b64(b):
    out, acc, n = '', 0, 0
    for x in b:
        acc, n = (acc << 8) | x, n + 8
        while n >= 6:
            n -= 6
            out += B64[(acc >> n) & 63]
    if n:
        out += B64[(acc << (6 - n)) & 63]
    return out


def unb64(s):
    if '=' in s:
        core = s.rstrip('=')
        if '=' in core or any(c not in B64 for c in core):
            if any(c not in B64 + '=' for c in s):
                raise _rj('alphabet')
        raise _us('padding')
    if any(c not in B64 for c in s):
        raise _rj('alphabet')
    if len(s) % 4 == 1:
        raise _rj('length')
    acc, n, out = 0, 0, bytearray()
    for c in s:
        acc, n = ((acc << 6) | B64.index(c)), n + 6
        if n >= 8:
            n -= 8
            out.append((acc >> n) & 255)
            acc &= (1 << n) - 1
    if acc:
        raise _us('non canonical base64')
    return bytes(out)


def hexl(b):
    return ''.join(HEXL[x >> 4] + HEXL[x & 15] for x in b)


def unhex(s, alphabet):
    if len(s) % 2 or any(c not in alphabet for c in s):
        raise _rj('hex')
    s = s.lower()
    return bytes(HEXL.index(s[i]) * 16 + HEXL.index(s[i + 1]) for i in range(0, len(s), 2))


UUID = re.compile(r'[0-9a-f]{8}-[0-9a-f]{4}-[1-5][0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}')


def uuid_text(b):
    if len(b) != 16:
        raise _rj('uuid')
    h = hexl(b)
    s = '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
    if not UUID.fullmatch(s):
        # RFC 9562 added versions 6..8 and the nil/max values
        raise _rj('uuid version') if h[12] == '0' and h != '0' * 32 else _us('uuid version/variant')
    return s


def text_uuid(s):
    if UUID.fullmatch(s.lower()) and s.isascii():
        return unhex(s.replace('-', ''), HEXL + 'ABCDEF')
    if s.endswith('\n') or re.fullmatch(r'[-0-9a-fA-F{}]{32,38}', s):
        raise _us('uuid variant')
    raise _rj('uuid')


def bin_text(f, b):
    if f == 'b':
        return b64(b)
    if f == 'x':
        return hexl(b)
    if f == 'X':
        return hexl(b).upper()
    if f == 'eui':
        if len(b) not in (6, 8):
            raise _rj('eui')
        return hexl(b).upper()
    if f == 'ipv4-addr':
        if len(b) != 4:
            raise _rj('ipv4')
        return '.'.join(str(x) for x in b)
    if f == 'ipv6-addr':
        if len(b) != 16:
            raise _rj('ipv6')
        return ipaddress.ip_address(b).compressed
    if f == 'uuid':
        return uuid_text(b)
    raise _us(f)


def text_bin(f, s):
    if f == 'b':
        return unb64(s)
    if f == 'x':
        return unhex(s, HEXL + 'ABCDEF')
    if f == 'X':
        return unhex(s, HEXL.upper())
    if f == 'eui':
        if re.fullmatch(r'[0-9A-F]{12}|[0-9A-F]{16}', s):
            return unhex(s, HEXL.upper())
        if re.fullmatch(r'([0-9A-Fa-f]{2}[-:]?){6,8}', s):
            raise _us('eui variant')
        raise _rj('eui')
    if f == 'ipv4-addr':
        return ipv4(s)
    if f == 'ipv6-addr':
        return ipv6(s)
    if f == 'uuid':
        return text_uuid(s)
    raise _us(f)


def ipv4(s):
    p = s.split('.')
    if len(p) != 4 or not all(re.fullmatch('[0-9]{1,3}', x) for x in p):
        if not s.isascii() or s != s.strip():
            raise _us('ipv4')
        raise _rj('ipv4')
    if any(len(x) > 1 and x[0] == '0' for x in p):
        raise _us('leading zero')
    if any(int(x) > 255 for x in p):
        raise _rj('ipv4')
    return bytes(int(x) for x in p)


def ipv6(s):
    if '%' in s:
        raise _us('scope')
    try:
        return socket.inet_pton(socket.AF_INET6, s)
    except (OSError, ValueError, UnicodeEncodeError):
        if not s.isascii() or s != s.strip() or '.' in s:
            raise _us('ipv6')
        raise _rj('ipv6')


def arr_text(f, v):
    from .model import Reject
    if f in ('ipv4-net', 'ipv6-net'):
        w = 4 if f == 'ipv4-net' else 16
        if len(v) != 2 or not isinstance(v[0], bytes) or isinstance(v[1], bool) or not isinstance(v[1], int):
            raise Reject
        if len(v[0]) != w or not 0 <= v[1] <= w * 8:
            raise Reject
        t = bin_text('ipv4-addr' if w == 4 else 'ipv6-addr', v[0])
        return t if v[1] == w * 8 else f'{t}/{v[1]}'
    if f == 'tag-uuid':
        if len(v) != 2 or not isinstance(v[0], str) or not isinstance(v[1], bytes):
            raise Reject
        return f'{v[0]}-{uuid_text(v[1])}'
    raise _us(f)


def text_arr(f, s):
    if f in ('ipv4-net', 'ipv6-net'):
        w = 32 if f == 'ipv4-net' else 128
        a, sep, p = s.partition('/')
        addr = ipv4(a) if w == 32 else ipv6(a)
        if not sep:
            return [addr, w]
        if not re.fullmatch('0|[1-9][0-9]*', p):
            if not re.fullmatch('[0-9]+', p):
                raise _rj('prefix')
            raise _us('prefix')
        if int(p) > w:
            raise _rj('prefix')
        return [addr, int(p)]
    if f == 'tag-uuid':
        if len(s) < 37:
            raise _rj('tag-uuid')
        if s[-37] != '-':
            raise _rj('tag-uuid') if not s.endswith('\n') else _us('tag-uuid')
        return [s[:-37], text_uuid(s[-36:])]
    raise _us(f)


# ---- datetime-ms
MS_MIN = -62135596800000            # 0001-01-01T00:00:00Z
MS_MAX = 253402300799999            # 9999-12-31T23:59:59.999Z


def _ymd(days):        # civil from days
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + 1 if m <= 2 else y), m, d


def _days(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def ms_text(ms):
    if not MS_MIN <= ms <= MS_MAX:
        raise _rj('datetime range')
    s, frac = divmod(ms, 1000)
    days, sec = divmod(s, 86400)
    y, m, d = _ymd(days)
    return (f'{y:04}-{m:02}-{d:02}T{sec // 3600:02}:{sec // 60 % 60:02}:{sec % 60:02}'
            + (f'.{frac:03}' if frac else '') + '+00:00')


def text_ms(s):
    r = re.fullmatch(r'([0-9]{4})-([0-9]{2})-([0-9]{2})[Tt]([0-9]{2}):([0-9]{2}):([0-9]{2})(\.[0-9]{1,3})?'
                     r'([Zz]|([-+])([0-9]{2}):([0-9]{2}))?', s)
    if not r:
        if len(s) >= 8 and re.match(r'[0-9]{4}(-?[0-9]|-?W)', s):
            raise _us('datetime variant')      # other ISO 8601 forms
        raise _rj('datetime')
    y, m, d, H, M, S = (int(r.group(i)) for i in range(1, 7))
    if not r.group(8):
        raise _rj('no offset')
    if not 1 <= m <= 12 or d < 1 or d > calendar.monthrange(y if y > 0 else 4, m)[1] or M > 59:
        raise _rj('datetime')
    if y == 0 or H == 24 or S == 60:
        raise _us('datetime edge')
    if H > 24 or S > 60:
        raise _rj('datetime')
    off = 0
    if r.group(9):
        oh, om = int(r.group(10)), int(r.group(11))
        if oh > 23 or om > 59:
            raise _us('offset')
        off = (oh * 60 + om) * (-1 if r.group(9) == '-' else 1)
    ms = ((_days(y, m, d) * 86400 + H * 3600 + M * 60 + S - off * 60) * 1000
          + (int((r.group(7)[1:] + '00')[:3]) if r.group(7) else 0))
    return ms


# ---- String formats
GOOD = {
    'email': ['a@b.co', 'User.Name+tag@Example.COM', "o'brien@example.org", 'x_y@sub-domain.example.net', '"quoted s"@example.com'.replace(' ', ''),
              'user@[192.168.1.1]', 'a!#$%&*+/=?^_`{|}~-@example.io', '1@2.33'],
    'idn-email': ['a@b.co', 'пример@пример.рф', 'user@example.com'],
    'hostname': ['example.com', 'a', 'A-B.c', 'xn--nxasmq6b.example', '3com.com', 'host.', 'a' * 63 + '.org',
                 '.'.join(['a' * 61] * 4), '127.0.0.1', 'a.b.c.d.e'],
    'ipv4': ['1.2.3.4', '0.0.0.0', '255.255.255.255', '192.168.10.200'],
    'ipv6': ['::', '::1', '2001:db8::8a2e:370:7334', 'fe80::1', '1:2:3:4:5:6:7:8', '::ffff:1.2.3.4', 'ABCD:EF01::'],
    'uri': ['http://example.com/a?b=c#d', 'urn:isbn:0451450523', 'mailto:a@b.c', 'ftp://u:p@h:21/x', 'https://[::1]:8080/', 'tag:a,2020:x',
            'http://example.com/%20'],
    'uri-reference': ['/a/b', '../x?y', '#frag', 'http://example.com', '', '//host/path', 'a%20b'],
    'iri': ['http://exämple.com/ü', 'http://example.com/日本語'],
    'iri-reference': ['/ü', '#é', 'x', '日本/語?q'],
    'date': ['2020-02-29', '1999-12-31', '0001-01-01', '2000-02-29'],
    'regex': ['^a+$', '[a-z]{1,3}', '(a|b)*', '\\d+', '(?:x)', ''],
    'date-time': ['2018-11-13T20:20:39+00:00', '2018-11-13T20:20:39Z'],
    'time': ['20:20:39+00:00', '08:00:00Z'],
    'duration': ['P3D', 'PT1H', 'P1Y2M3DT4H5M6S'],
    'idn-hostname': ['example.com', 'пример.рф'],
    'uri-template': ['http://example.com/{id}', '/x{?a,b}'],
    'json-pointer': ['', '/a/0', '/a~1b', '/m~0n'],
    'relative-json-pointer': ['0', '1/a', '2#'],
}
BAD = {
    'email': ['', 'a', '@b.co', 'a@', 'a b@c.co', 'a@b..co', 'a@-b.co', 'a@b.co ', ' a@b.co', 'a@b.co\n', 'a@@b.co', 'a.@b.co', '.a@b.co',
              'a@b_c.co', 'a@[300.1.1.1]', 'a@b.co,c@d.co', 'ſ@b.co'],
    'idn-email': ['', 'abc', 'no at sign'],
    'hostname': ['', '-a', 'a-', 'a..b', 'a_b', 'a b', 'a' * 64, '.'.join(['a' * 63] * 4) + '.a', 'a\n', 'ä.de', '.', 'a.-b.c', 'exam!ple', '.a', '٣.com'],
    'ipv4': ['', '1.2.3', '1.2.3.256', '1.2.3.4/24', 'a.b.c.d', '1.2.3.4.5', '1..2.3'],
    'ipv6': ['', ':', ':::', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', 'g::1', '::1/64', '1::2::3', '12345::'],
    'uri': ['', 'noscheme', '/a/b', 'http://a b', '1http://x', 'http://[::1', 'http://exa mple', '://x', 'http://x/%zz'],
    'uri-reference': ['a b', 'http://[::1', '\\\\x', '%zz', '<>'],
    'iri': ['', 'noscheme', '/ü', 'http://a b', '://é'],
    'iri-reference': ['a b', 'http://[::1', '<ü>'],
    'date': ['', '2021-02-29', '2020-13-01', '2020-1-1', '2020-04-31', '20/01/01', '1900-02-29', '2020-01-00', 'today'],
    'regex': ['(', '[a', '*a', '(?P<', 'a{2,1}'],
}
STRING_FORMATS = sorted(GOOD)
_KNOWN = None


def check_string(f, s):
    """Raise Reject / Unspec unless s is known to be valid format f"""
    from .model import Reject, Unspec
    if f in ('email', 'hostname'):
        v = (email if f == 'email' else hostname)(s)
        if v is None:
            raise Unspec
        if not v:
            raise Reject
        return
    if s in GOOD[f]:
        return
    if s in BAD.get(f, ()):
        raise Reject
    raise Unspec


def hostname(s):
    """RFC 1123: labels of 1..63 letters, digits and inner hyphens, total at most 253"""
    if s.endswith('.'):
        if len(s) == 254:
            return None
        s = s[:-1]
    if len(s) > 253:
        return False
    return all(re.fullmatch('[A-Za-z0-9]([A-Za-z0-9-]{0,61}[A-Za-z0-9])?', x) is not None for x in s.split('.'))


ATEXT = r"[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]+"
LABEL = '[A-Za-z0-9]([A-Za-z0-9-]*[A-Za-z0-9])?'


def email(s):
    """True/False for dot-atom local part with a dotted domain, also simple quoted local parts and IPv4 literals, None for other quoted or literal forms not listed above"""
    if s in GOOD['email']:
        return True
    if s in BAD['email']:
        return False
    if m := re.fullmatch(rf'{ATEXT}(?:\.{ATEXT})*@\[([0-9]+)\.([0-9]+)\.([0-9]+)\.([0-9]+)\]', s):        # IPv4 address literal
        return all(int(x) < 256 for x in m.groups()) if all(x == str(int(x)) for x in m.groups()) else None
    if re.fullmatch(rf'"[A-Za-z0-9.!#-]+"@({LABEL}\.)+{LABEL}', s):        # simple quoted local part
        return True
    if '"' in s or '[' in s or '\\' in s:
        return None
    return re.fullmatch(rf'{ATEXT}(\.{ATEXT})*@({LABEL}\.)+{LABEL}', s) is not None
