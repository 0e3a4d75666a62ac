"""Independent rendering of the Pathfinder protocol (v2/v3) specification:
message syntax, filter language and property semantics.  Written from
doc/protocol, shares no code with /repo."""

import json
import re

INT_MAX = (1 << 63) - 1

# fields of a server in a domain file: the transport's attributes
DOMAIN_TLS = {'tlsCertificateFile': 'tls.cert_file',
              'tlsKeyFile': 'tls.key_file',
              'tlsTrustedCaFile': 'tls.tc_file'}

# field: kind
#   i: non-negative integer   n: non-negative number   s: string
#   p: service properties
REQ = {
    'hello': (dict([('client-id', 'i'), ('protocol-minimum-version', 'i'),
                    ('protocol-maximum-version', 'i')]), {}),
    'track': ({}, {}),
    'subscribe': ({'subscription-id': 'i'}, {'filter': 's'}),
    'unsubscribe': ({'subscription-id': 'i'}, {}),
    'subscriptions': ({}, {}),
    'services': ({}, {'filter': 's'}),
    'publish': (dict([('service-id', 'i'), ('generation', 'i'),
                      ('service-props', 'p'), ('ttl', 'i')]), {}),
    'unpublish': ({'service-id': 'i'}, {}),
    'ping': ({}, {}),
    'clients': ({}, {}),
}

NOTIFY = {
    'track': ({'track-type': 's'}, {}),
    'subscribe': ({'match-type': 's', 'service-id': 'i'},
                  {'generation': 'i', 'service-props': 'p', 'ttl': 'i',
                   'client-id': 'i', 'orphan-since': 'n'}),
    'subscriptions': ({'subscription-id': 'i', 'client-id': 'i'},
                      {'filter': 's'}),
    'services': ({'service-id': 'i', 'generation': 'i',
                  'service-props': 'p', 'ttl': 'i', 'client-id': 'i'},
                 {'orphan-since': 'n'}),
    'clients2': ({'client-id': 'i', 'client-address': 's', 'time': 'i'}, {}),
    'clients3': ({'client-id': 'i', 'client-address': 's', 'time': 'i',
                  'idle': 'n', 'protocol-version': 'i'}, {'latency': 'n'}),
}

COMPLETE = {'hello': ({'protocol-version': 'i'}, {})}

MULTI = ('subscribe', 'subscriptions', 'services', 'clients')
TWO_WAY = ('track',)

MSG_TYPES = ('request', 'accept', 'notify', 'inform', 'complete', 'fail')

FAIL_REASONS = {
    'no-hello', 'track-exists', 'client-id-exists', 'invalid-filter-syntax',
    'subscription-id-exists', 'non-existent-subscription-id',
    'non-existent-service-id', 'unsupported-protocol-version',
    'permission-denied', 'old-generation', 'same-generation-but-different',
    'insufficient-resources'}


def commands(version):
    return set(REQ) - ({'track'} if version < 3 else set())


class Bad(Exception):
    pass


class Gray(Exception):
    """The specification leaves open how such a message is treated."""


def _check_value(kind, name, v):
    if v is None:
        raise Bad("null " + name)
    if kind == 'i':
        if isinstance(v, bool):
            raise Gray("boolean for integer " + name)
        if not isinstance(v, int):
            raise Bad(name + " is not an integer")
        if v < 0 or v > INT_MAX:
            raise Bad(name + " out of range")
    elif kind == 'n':
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise Bad(name + " is not a number")
        if not v >= 0:
            raise Bad(name + " is negative or not a number")
    elif kind == 's':
        if not isinstance(v, str):
            raise Bad(name + " is not a string")
    elif kind == 'p':
        if not isinstance(v, dict):
            raise Bad(name + " is not an object")
        for values in v.values():
            if not isinstance(values, list):
                raise Bad("property values are not a list")
            for x in values:
                if isinstance(x, bool):
                    raise Gray("boolean property value")
                if not isinstance(x, (str, int)):
                    raise Bad("property value of wrong type")


def _check_fields(obj, req, opt):
    obj = dict(obj)
    gray = None
    for name, kind in req.items():
        if name not in obj:
            raise Bad("missing " + name)
        try:
            _check_value(kind, name, obj.pop(name))
        except Gray as g:
            gray = g
    for name, kind in opt.items():
        if name in obj:
            v = obj.pop(name)
            if v is None:
                gray = Gray("null for optional " + name)
                continue
            try:
                _check_value(kind, name, v)
            except Gray as g:
                gray = g
    if obj:
        raise Bad("unknown fields %s" % sorted(obj))
    if gray is not None:
        raise gray


def decode(data):
    try:
        obj = json.loads(data.decode('utf-8'))
    except (ValueError, RecursionError) as e:
        raise Bad("not JSON: %s" % type(e).__name__)
    if not isinstance(obj, dict):
        raise Bad("not an object")
    return obj


def parse_client_message(data, version):
    """Returns (cmd, ta_id, msg_type, fields); raises Bad or Gray.

    version is the negotiated protocol version (2 before the handshake)."""
    obj = decode(data)
    cmd = obj.pop('ta-cmd', None)
    ta_id = obj.pop('ta-id', None)
    mtype = obj.pop('msg-type', None)
    if not isinstance(cmd, str) or not isinstance(mtype, str):
        raise Bad("no command or message type")
    gray = None
    try:
        _check_value('i', 'ta-id', ta_id)
    except Gray as g:
        gray = g
    if cmd not in commands(version):
        raise Bad("unknown command")
    if mtype not in MSG_TYPES:
        raise Bad("unknown message type")
    if mtype == 'request':
        _check_fields(obj, *REQ[cmd])
    elif mtype == 'inform' and cmd == 'track':
        _check_fields(obj, {'track-type': 's'}, {})
        if obj['track-type'] not in ('query', 'reply'):
            raise Bad("unknown track type")
    else:
        raise Bad("message type illegal from a client")
    if gray is not None:
        raise gray
    return cmd, ta_id, mtype, obj


def parse_server_message(data, version):
    """Returns (cmd, ta_id, msg_type, fields); raises Bad."""
    try:
        obj = decode(data)
    except Bad as e:
        raise Bad("server message: %s" % e)
    cmd = obj.pop('ta-cmd', None)
    ta_id = obj.pop('ta-id', None)
    mtype = obj.pop('msg-type', None)
    if not isinstance(cmd, str) or cmd not in REQ:
        raise Bad("server message with unknown command %r" % (cmd,))
    if isinstance(ta_id, bool) or not isinstance(ta_id, int) or ta_id < 0:
        raise Bad("server message with bad ta-id %r" % (ta_id,))
    if mtype == 'fail':
        _check_fields(obj, {}, {'fail-reason': 's'})
        if obj.get('fail-reason') is not None and obj['fail-reason'] not in FAIL_REASONS:
            raise Bad("unknown fail reason %r" % obj['fail-reason'])
    elif mtype == 'complete':
        _check_fields(obj, *COMPLETE.get(cmd, ({}, {})))
    elif mtype == 'accept':
        if cmd not in MULTI and cmd not in TWO_WAY:
            raise Bad("accept for single-response command")
        _check_fields(obj, {}, {})
    elif mtype == 'notify':
        key = cmd
        if cmd == 'clients':
            key = 'clients%d' % version
        if key not in NOTIFY:
            raise Bad("notify for single-response command")
        req, opt = NOTIFY[key]
        _check_fields(obj, req, opt)
    else:
        raise Bad("message type %r illegal from the server" % (mtype,))
    return cmd, ta_id, mtype, obj


# ---------------------------------------------------------------------------
# properties
# ---------------------------------------------------------------------------

def props_key(wire):
    """Canonical, hashable form of service properties."""
    out = []
    for k, vs in wire.items():
        s = set()
        for v in vs:
            s.add((type(v).__name__, v))
        if s:
            out.append((k, tuple(sorted(s))))
    return tuple(sorted(out))


def props_wire_exact(wire):
    """Wire properties must list every value once and no empty keys."""
    for vs in wire.values():
        if len(vs) != len(set((type(v).__name__, v) for v in vs)) or not vs:
            return False
    return True


# ---------------------------------------------------------------------------
# filters
# ---------------------------------------------------------------------------

SPECIAL = set('()*\\&|=><')
# The grammar also lists '!' as special; the server treats a '!' inside a
# string as an ordinary character.  Filters with such a '!' are gray.

class FilterError(Exception):
    pass


class _P:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def peek(self):
        if self.i >= len(self.s):
            raise FilterError("unexpected end")
        return self.s[self.i]

    def take(self, c):
        if self.peek() != c:
            raise FilterError("expected %r" % c)
        self.i += 1

    def string(self):
        out = []
        while True:
            c = self.peek()
            if c == '\\':
                self.i += 1
                c = self.peek()
                if c == '!':
                    raise Gray("escaped !")
                if c not in SPECIAL:
                    raise FilterError("bad escape")
                out.append(c)
                self.i += 1
            elif c in SPECIAL:
                return ''.join(out)
            else:
                if c == '!':
                    raise Gray("! in string")
                out.append(c)
                self.i += 1


def _expr(p, depth):
    if depth > 60:
        raise Gray("deep nesting")
    p.take('(')
    c = p.peek()
    if c in '&|':
        p.i += 1
        ops = []
        while p.peek() == '(':
            ops.append(_expr(p, depth + 1))
        if p.peek() != ')':
            raise FilterError("expected operand")
        if len(ops) < 2:
            raise FilterError("too few operands")
        node = (c, tuple(ops))
    elif c == '!':
        p.i += 1
        node = ('!', _expr(p, depth + 1))
    else:
        key = p.string()
        if key == '':
            raise FilterError("empty key")
        op = p.peek()
        if op == '=':
            p.i += 1
            parts = [p.string()]
            while p.peek() == '*':
                p.i += 1
                parts.append(p.string())
            if len(parts) == 1:
                if parts[0] == '':
                    raise FilterError("empty value")
                node = ('=', key, parts[0])
            elif len(parts) == 2 and parts == ['', '']:
                node = ('present', key)
            else:
                if '' in parts[1:-1]:
                    raise FilterError("empty substring")
                node = ('sub', key, tuple(parts))
        elif op in '<>':
            p.i += 1
            v = p.string()
            t = v[1:] if v[:1] == '-' else v
            if t.isascii() and t.isdigit():
                if len(t) > 1000:
                    raise Gray("huge integer")
                if (len(t) > 1 and t[0] == '0'):
                    raise Gray("leading zero")
                node = (op, key, int(v))
            else:
                try:
                    int(v)
                except ValueError:
                    raise FilterError("not an integer")
                if v.strip() != v:
                    raise FilterError("not an integer")
                raise Gray("unusual integer")
        else:
            raise FilterError("expected operator")
    p.take(')')
    return node


def parse_filter(s):
    p = _P(s)
    node = _expr(p, 0)
    if p.i != len(s):
        raise FilterError("trailing data")
    return node


def parse_filter_lenient(s):
    """Classify a filter string: ('ok', ast), ('bad',) or ('gray',)."""
    try:
        return ('ok', parse_filter(s))
    except FilterError:
        return ('bad',)
    except (Gray, RecursionError):
        return ('gray',)


def _sub_match(parts, v):
    if not isinstance(v, str):
        return False
    first, last = parts[0], parts[-1]
    if not v.startswith(first):
        return False
    i = len(first)
    for m in parts[1:-1]:
        j = v.find(m, i)
        if j < 0:
            return False
        i = j + len(m)
    if last == '':
        return True
    return v.endswith(last) and len(v) - len(last) >= i


def match(node, props):
    """props: canonical form as from props_key."""
    op = node[0]
    if op == '&':
        return all(match(n, props) for n in node[1])
    if op == '|':
        return any(match(n, props) for n in node[1])
    if op == '!':
        return not match(node[1], props)
    values = None
    for k, vs in props:
        if k == node[1]:
            values = [v for _, v in vs]
    if values is None:
        return False
    if op == 'present':
        return True
    if op == '=':
        return any((v if isinstance(v, str) else str(v)) == node[2]
                   for v in values)
    if op == '>':
        return any(isinstance(v, int) and v > node[2] for v in values)
    if op == '<':
        return any(isinstance(v, int) and v < node[2] for v in values)
    return any(_sub_match(node[2], v) for v in values)


def escape(s):
    return ''.join('\\' + c if c in SPECIAL else c for c in s)


def filter_str(node):
    op = node[0]
    if op in '&|' and op != '':
        return '(%s%s)' % (op, ''.join(filter_str(n) for n in node[1]))
    if op == '!':
        return '(!%s)' % filter_str(node[1])
    if op == 'present':
        return '(%s=*)' % escape(node[1])
    if op == '=':
        return '(%s=%s)' % (escape(node[1]), escape(node[2]))
    if op == 'sub':
        return '(%s=%s)' % (escape(node[1]),
                            '*'.join(escape(x) for x in node[2]))
    return '(%s%s%d)' % (escape(node[1]), op, node[2])


# -- the many ways to write the same message ---------------------------------
DIALECTS = (None, None, None, 'utf8', 'utf8', 'compact', 'spaced', 'shuffled',
            'escaped')
RARE = ('padded',)


def dialect(rng):
    return rng.choice(DIALECTS) if rng.random() < 0.98 else rng.choice(RARE)


def wire(m, how, rng=None):
    """Encode a message in the given way (the plain one, if it gets large)."""
    plain = json.dumps(m).encode('utf-8')
    if how is None or len(plain) > 8000:
        return plain
    if how == 'utf8':
        try:
            return json.dumps(m, ensure_ascii=False).encode('utf-8')
        except UnicodeEncodeError:
            return plain
    if how == 'padded':                 # to the largest size there is
        return plain + b' ' * (65535 - len(plain))
    if how == 'compact':
        return json.dumps(m, separators=(',', ':')).encode('utf-8')
    if how == 'spaced':
        return b' \r\n\t' + json.dumps(
            m, indent='\t', separators=(' ,', '\n: ')).encode('utf-8') + b'\n'
    if how == 'shuffled':
        return json.dumps({k: m[k] for k in sorted(m, reverse=True)}
                          if isinstance(m, dict) else m).encode('utf-8')
    # every character of every string as an escape sequence
    out = []
    for part in re.findall(r'"(?:\\.|[^"\\])*"|[^"]+', plain.decode('ascii')):
        if part[0] == '"':
            s = json.loads(part)
            units = s.encode('utf-16-be', 'surrogatepass')
            part = '"%s"' % ''.join(
                '\\u%02X%02x' % (units[i], units[i + 1])
                for i in range(0, len(units), 2))
        out.append(part)
    return ''.join(out).encode('ascii')
