"""C06 authentication of incoming messages, C07 replay protection."""
from pyvc.api import *
import base64
import ssl
import lxml.etree
from datetime import datetime, timedelta, timezone
from signxml.exceptions import InvalidSignature
from openleadr import errors, messaging, utils

CERTS = [b'certificate A', b'certificate B', b'certificate C']


class Cert:
    """A client or signing certificate. fp is its OpenADR fingerprint."""
    def __init__(self, der, fp):
        self.der = der
        self.fp = fp


def make_cert(w, name):
    fp = w.make(name + '.fp', Id(pool=['0', '1', '2']))
    if w.symbolic:
        return Cert(b'', fp)
    der = CERTS[int(fp) if fp in ('0', '1', '2') else len(fp) % 3]
    return Cert(der, utils.certificate_fingerprint_from_der(der))


class Ssl:
    def __init__(self, cert):
        self.cert = cert

    def getpeercert(self, binary_form=False):
        return self.cert.der if self.cert is not None else None


class Transport:
    def __init__(self, cert, tls=True):
        self.cert = cert
        self.tls = tls

    def get_extra_info(self, name, default=None):
        return Ssl(self.cert) if name == 'ssl_object' and self.tls else default


class Request:
    def __init__(self, secure, cert, headers=None, content=b''):
        self.secure = secure
        self.transport = Transport(cert, secure)
        self.headers = headers or {}
        self.content = content

    async def read(self):
        return self.content


class Text:
    def __init__(self, text):
        self.text = text


class Tree:
    """A parsed message: signing certificate (or None), whether the signature is good, timestamp and nonce."""
    def __init__(self, cert, good, stamp, nonce):
        self.cert = cert
        self.good = good
        self.stamp = stamp
        self.nonce = nonce
        self.verified_with = []
        self.how = []

    def find(self, path, *a, **k):
        if path.endswith('X509Certificate') and self.cert is not None:
            return Text(base64.b64encode(self.cert.der).decode())
        value = self.findtext(path)
        return Text(value) if value is not None else None

    def findtext(self, path, *a, **k):
        if path.endswith('timestamp'):
            return self.stamp
        if path.endswith('nonce'):
            return self.nonce
        return None


def spec_extract(tree):
    if tree.cert is None:
        raise AttributeError('no certificate')
    return tree.cert


def spec_fp(cert):
    return cert.fp


def spec_request_fp(request):
    c = request.transport.cert
    if c is not None:
        return c.fp


def spec_bytes(obj):
    return obj


DS = '{http://www.w3.org/2000/09/xmldsig#}'
DSP = '{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}'
OADR = '{http://openadr.org/oadr-2.0b/2012/07}'


class Node:
    """An element of a parsed message (what is used of lxml elements)."""
    def __init__(self, tag, parent, attrib, text):
        self.tag = tag
        self.parent = parent
        self.attrib = attrib
        self.text = text
        self.children = []
        if parent is not None:
            parent.children.append(self)

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def getparent(self):
        return self.parent

    def iterancestors(self, *tags):
        r = []
        n = self.parent
        while n is not None:
            r.append(n)
            n = n.parent
        return iter(r)

    def below(self):
        r = []
        for c in self.children:
            r.append(c)
            r = r + c.below()
        return r

    def iter(self, *tags):
        return iter([n for n in [self] + self.below() if not tags or n.tag in tags])

    def findall(self, path, namespaces=None):
        if path.startswith('.//{'):
            tags = path[4:].split('/{')
            found = [n for n in self.below() if n.tag == '{' + tags[0]]
        elif path.startswith('{'):
            tags = path[1:].split('/{')
            found = [n for n in self.children if n.tag == '{' + tags[0]]
        else:
            raise NotImplementedError(path)
        for t in tags[1:]:
            found = [c for n in found for c in n.children if c.tag == '{' + t]
        return found

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path))

    def find(self, path, namespaces=None):
        found = self.findall(path)
        return found[0] if len(found) > 0 else None

    def findtext(self, path, default=None, namespaces=None):
        found = self.find(path)
        return default if found is None else found.text if found.text is not None else ''


class Name:
    """lxml's QName"""
    def __init__(self, text, tag=None):
        text = text if isinstance(text, str) else text.tag
        self.text = text
        self.localname = text.split('}')[1] if text.startswith('{') else text
        self.namespace = text[1:].split('}')[0] if text.startswith('{') else None


class Result:
    """What the signature library says about one reference: the XML that is signed."""
    def __init__(self, xml):
        self.signed_xml = xml


class Crypto:
    """What the signature library was asked, and whether the signature is good."""
    def __init__(self, good=True):
        self.good = good
        self.verified_with = []
        self.how = []

    def verify(self, verifier, data, x509_cert=None, expect_references=None, **kw):
        self.verified_with.append(x509_cert)
        self.how.append(expect_references)
        if not self.good:
            raise InvalidSignature('bad signature')
        r = []
        for ref in data.find('.//' + DS + 'Signature').findall(DS + 'SignedInfo/' + DS + 'Reference'):
            r.append(Result(target(data, ref.get('URI'))))
        return r


def target(root, uri):
    """The element that a reference refers to."""
    for n in root.iter():
        for name, value in n.attrib.items():
            if (name == 'Id' or name.endswith('}Id')) and uri == '#' + value:
                return n
    raise InvalidSignature('unresolved reference')


def element(w, parent, tag, attrib=None, text=None):
    if w.symbolic:
        return Node(tag, parent, attrib or {}, text)
    e = lxml.etree.Element(tag) if parent is None else lxml.etree.SubElement(parent, tag)
    for k, v in (attrib or {}).items():
        e.set(k, v)
    e.text = text
    return e


def protect(w, parent, stamp, nonce):
    """replay protection with this timestamp and nonce"""
    r = element(w, parent, DSP + 'ReplayProtect', {'Id': 'myid', 'Target': '#mytarget'})
    element(w, r, DSP + 'timestamp', None, stamp)
    if nonce is not None:
        element(w, r, DSP + 'nonce', None, nonce)
    return r


def signature_of(w, root, cert, uris):
    s = element(w, root, DS + 'Signature')
    i = element(w, s, DS + 'SignedInfo')
    for u in uris:
        element(w, i, DS + 'Reference', {'URI': '#' + u})
    element(w, s, DS + 'SignatureValue', None, 'x')
    x = element(w, element(w, s, DS + 'KeyInfo'), DS + 'X509Data')
    if cert is not None:
        element(w, x, DS + 'X509Certificate', None, base64.b64encode(cert.der).decode())
    return s


def payload_root(w, cert):
    root = element(w, None, OADR + 'oadrPayload')
    if w.symbolic:
        root.cert = cert        # what spec_extract finds
    return root


def message_tree(w, cert, stamp, nonce):
    """A message that is signed as it should be (if there is a certificate)."""
    root = payload_root(w, cert)
    s = signature_of(w, root, cert, ['oadrSignedObject', 'prop'])
    o = element(w, s, DS + 'Object', {'Id': 'prop'})
    p = element(w, element(w, o, DS + 'SignatureProperties'), DS + 'SignatureProperty', {'Id': 'property', 'Target': '#mytarget'})
    protect(w, p, stamp, nonce)
    element(w, root, OADR + 'oadrSignedObject', {OADR + 'Id': 'oadrSignedObject'})
    return root


def crypto(w, lib=None):
    """Certificates are known by their fingerprint; the signature library says whether a signature is good."""
    if lib is None:
        lib = Crypto()
    w.modular('openleadr.utils.extract_pem_cert', spec_extract)
    w.modular('openleadr.utils.certificate_fingerprint', spec_fp)
    w.modular('openleadr.utils.get_cert_fingerprint_from_request', spec_request_fp)
    w.modular('openleadr.utils.ensure_bytes', spec_bytes)
    w.stub('signxml.XMLVerifier.verify', lambda verifier, data, x509_cert=None, expect_references=None, **kw:
           lib.verify(verifier, data, x509_cert, expect_references))
    if w.symbolic:
        w.stub('lxml.etree.QName', Name)


def cert_is(w, given, cert):
    """the certificate handed to the signature library is this one"""
    if w.symbolic:
        return w.same(given, cert)
    pem = given.decode() if isinstance(given, bytes) else given
    return ssl.PEM_cert_to_DER_cert(pem.strip()) == cert.der


def optional_cert(w, name):
    return make_cert(w, name) if w.choice(name + '?', 2) == 1 else None


def stamps(w, ts):
    """the text of a timestamp, and what parsing it gives"""
    tok = w.dt_text('STAMP', ts)
    w.modular('openleadr.utils.parse_datetime', w.parser_of(tok, ts))
    return tok


LIMIT = timedelta(seconds=5)


@contract('C06', targets=['messaging.authenticate_message', 'messaging.validate_xml_signature',
                          'messaging._verify_replay_protect', 'utils.await_if_required'], samples=600, budget=100)
def authenticate_message_gate(w):
    """A message is let through only if it is from the VEN it claims to be from."""
    now = w.freeze()
    lib = Crypto(w.flag('good'))
    crypto(w, lib)
    w.patch('openleadr.messaging.NONCE_CACHE', set())
    conn = optional_cert(w, 'conn')
    sig = optional_cert(w, 'sig')
    ts = w.make('ts', DT(whole=True))
    nonce = w.make('nonce', Opt(Id()))
    tree = message_tree(w, sig, stamps(w, ts), nonce)
    verify = w.flag('verify')
    secure = w.flag('secure')
    expected = w.make('expected', Id(pool=['0', '1', '2']))
    if not w.symbolic:
        expected = utils.certificate_fingerprint_from_der(CERTS[int(expected) if expected in ('0', '1', '2') else 0])
    ven_id = w.make('ven_id', Opt(Id(empty=True)))
    has_ven = w.choice('has_ven', 2) == 1
    payload = {'ven_id': ven_id} if has_ven else {'other': 1}
    how = w.choice('lookup', 10)
    found = {0: expected, 1: None, 2: '', 3: {'fingerprint': expected}, 4: {'fingerprint': None}, 5: {}, 6: None,
             7: {'ven_id': ven_id, 'registration_id': 'r'}, 8: {'fingerprint': '', 'ven_id': ven_id},
             9: {'ven_id': ven_id, 'ven_name': 'n', 'fingerprint': expected}}[how]
    lookup = w.cb('lookup', fn=lambda ven_id: found)
    kw = {'fingerprint_lookup': lookup} if how < 3 else {'ven_lookup': lookup}
    o = w.try_call(messaging.authenticate_message, Request(secure, conn), tree, payload,
                   verify_message_signature=verify, **kw)
    known = how in (0, 3, 9)
    fresh = ts >= now - LIMIT
    if not secure or not has_ven:
        w.check('nothing to authenticate', o.raised is None)
    else:
        ok_conn = known and conn is not None and conn.fp == expected
        ok_sig = w.any_(not verify, w.all_(sig is not None, sig is not None and sig.fp == expected, lib.good, fresh,
                                           nonce is not None))
        w.check('let through exactly if genuine', w.iff(o.raised is None, w.all_(ok_conn, ok_sig)))
        if o.raised is None:
            w.check('asked about this VEN', lookup.calls[0][0] == (ven_id,))
            if verify:
                w.check('the signature was verified', w.all_(len(lib.verified_with) == 1,
                                                             cert_is(w, lib.verified_with[0], sig)))
                w.check('message and replay protection are both signed', lib.how[0] == 2)
        else:
            if conn is None or not known or not w.all_(conn is not None, ok_conn):
                w.check('refused as not authorized', o.is_a(errors.NotRegisteredOrAuthorizedError))
            w.check('nothing else goes wrong', w.any_(o.is_a(errors.NotRegisteredOrAuthorizedError),
                                                      w.all_(verify, o.is_a(InvalidSignature), not lib.good),
                                                      w.all_(verify, o.is_a(AttributeError), sig is None)))


@contract('C06', 'C08', targets=['messaging.validate_xml_signature'], samples=300)
def signature_gate(w):
    """validate_xml_signature accepts only good signatures, by the right certificate, over fresh messages."""
    now = w.freeze()
    lib = Crypto(w.flag('good'))
    crypto(w, lib)
    w.patch('openleadr.messaging.NONCE_CACHE', set())
    sig = make_cert(w, 'sig')
    want = make_cert(w, 'want')
    ts = w.make('ts', DT(whole=True))
    nonce = w.make('nonce', Opt(Id()))
    tree = message_tree(w, sig, stamps(w, ts), nonce)
    pinned = w.choice('pinned', 2) == 1
    o = w.try_call(messaging.validate_xml_signature, tree, want.fp) if pinned else \
        w.try_call(messaging.validate_xml_signature, tree)
    right = w.any_(not pinned, sig.fp == want.fp)
    w.check('accepted exactly if genuine', w.iff(o.raised is None, w.all_(right, lib.good, ts >= now - LIMIT,
                                                                         nonce is not None)))
    if not right:
        w.check('wrong certificate', o.is_a(errors.FingerprintMismatch))
    elif not lib.good:
        w.check('bad signature', o.is_a(InvalidSignature))
    elif o.raised is not None:
        w.check('stale or malformed', o.is_a(ValueError))
    if o.raised is None:
        w.check('the signature was verified with the certificate of the message',
                w.all_(len(lib.verified_with) == 1, cert_is(w, lib.verified_with[0], sig), lib.how[0] == 2))


@contract('C06', 'C07', 'C08', targets=['messaging.validate_xml_signature'], samples=500, budget=100)
def signed_elements(w):
    """A good signature over other elements of the message says nothing about the elements that are used: what is
    handled, and the timestamp and nonce that are remembered, are (part of) what is signed."""
    w.freeze()
    lib = Crypto(True)
    crypto(w, lib)
    cache = set()
    w.patch('openleadr.messaging.NONCE_CACHE', cache)
    cert = make_cert(w, 'cert')
    ts = [w.make('ts' + str(i), DT(whole=True)) for i in range(2)]
    nonce = [w.make('nonce' + str(i), Id()) for i in range(2)]
    toks = [w.dt_text('STAMP' + str(i), ts[i]) for i in range(2)]
    w.assume(w.not_(ts[0] == ts[1]))

    def parse(value):
        return ts[0] if value == toks[0] else ts[1]

    w.modular('openleadr.utils.parse_datetime', parse)
    order = w.choice('decoy', 3)               # an unsigned replay protection: none, in front, at the end
    wrapped = w.choice('wrapped', 3)           # another signed object: none, before, after the one that is used
    ids = ['used', 'other', 'prop', 'whole']
    first = ids[w.choice('first', 4)]
    second = ids[w.choice('second', 4)]
    root = payload_root(w, cert)
    attributes = {'Id': 'whole'} if w.choice('whole?', 2) == 1 else {}
    if attributes and not w.symbolic:
        root.set('Id', 'whole')
    elif attributes:
        root.attrib = attributes
    s = signature_of(w, root, cert, [first, second])
    if order == 1:
        protect(w, element(w, s, DS + 'Object', {'Id': 'decoy'}), toks[1], nonce[1])
    if wrapped == 1:
        element(w, element(w, s, DS + 'Object'), OADR + 'oadrSignedObject', {OADR + 'Id': 'other'})
    o = element(w, s, DS + 'Object', {'Id': 'prop'})
    protect(w, element(w, element(w, o, DS + 'SignatureProperties'), DS + 'SignatureProperty', {'Id': 'property'}), toks[0], nonce[0])
    if wrapped == 2:
        element(w, element(w, s, DS + 'Object'), OADR + 'oadrSignedObject', {OADR + 'Id': 'other'})
    element(w, root, OADR + 'oadrSignedObject', {OADR + 'Id': 'used'})
    if order == 2:
        protect(w, root, toks[1], nonce[1])
    w.assume(w.all_(first != second, w.any_('other' not in (first, second), wrapped > 0),
                    w.any_('whole' not in (first, second), len(attributes) > 0)))
    r = w.try_call(messaging.validate_xml_signature, root)
    whole = 'whole' in (first, second)
    if r.raised is None:
        w.check('what is used is signed', whole or 'used' in (first, second))
        for stamp, n in cache:
            real = w.all_(stamp == ts[0], w.eq(n, nonce[0]))
            w.check('what is remembered is signed', whole or w.all_(real, 'prop' in (first, second)))
    elif 'used' in (first, second) and 'prop' in (first, second) and order == 0:
        w.check('refused only if it is too old', r.is_a(ValueError))


@contract('C07', targets=['messaging._verify_replay_protect', 'messaging._update_nonce_cache'], samples=500, lists=False)
def replay_step(w):
    """One step from any cache: fresh unseen messages are accepted and remembered, everything else is refused,
    and nothing that could still be replayed is forgotten."""
    n = w.size('n', 3, 4, big=700)
    old = []
    for i in range(n):
        old.append((w.make('c' + str(i) + '.ts', DT(whole=True)), w.make('c' + str(i) + '.nonce', Id())))
    for i in range(n):
        for j in range(i):
            w.assume(w.not_(w.all_(old[i][0] == old[j][0], old[i][1] == old[j][1])))
    cache = set(old)
    w.patch('openleadr.messaging.NONCE_CACHE', cache)
    now = w.freeze()
    ts = w.make('ts', DT(whole=True))
    nonce = w.make('nonce', Opt(Id()))
    tree = Tree(None, True, stamps(w, ts), nonce)
    seen = w.any_(False, *[w.all_(c[0] == ts, w.eq(c[1], nonce)) for c in old])
    o = w.try_call(messaging._verify_replay_protect, tree)
    w.check('accepted exactly if fresh and never seen', w.iff(o.raised is None, w.all_(
        nonce is not None, ts >= now - LIMIT, w.not_(seen))))
    if o.raised is None:
        w.check('remembered', (ts, nonce) in cache)
    else:
        w.check('refused', o.is_a(ValueError))
    for c in old:
        w.check('what could be replayed is not forgotten', w.implies(c[0] >= now - LIMIT, c in cache))
        if o.raised is None:
            w.check('what cannot be replayed is forgotten', w.implies(c[0] < now - LIMIT, c not in cache))


@contract('C07', targets=['messaging._verify_replay_protect', 'messaging._update_nonce_cache'], samples=500, lists=False)
def replay_history(w):
    """A history of messages: no message is accepted twice, whatever the clock does in between."""
    w.patch('openleadr.messaging.NONCE_CACHE', set())
    n = w.size('n', 3, 4)
    ts = [w.make('ts' + str(i), DT(whole=True)) for i in range(2)]
    nonces = [w.make('nonce' + str(i), Id()) for i in range(2)]
    toks = [w.dt_text('STAMP' + str(i), ts[i]) for i in range(2)]

    def parse(value):
        return ts[0] if value == toks[0] else ts[1]

    w.modular('openleadr.utils.parse_datetime', parse)
    w.assume(w.not_(ts[0] == ts[1]))
    accepted = [0, 0]
    for i in range(n + 1):
        k = w.choice('msg' + str(i), 2)
        o = w.try_call(messaging._verify_replay_protect, Tree(None, True, toks[k], nonces[k]))
        if o.raised is None:
            accepted[k] = accepted[k] + 1
        else:
            w.check('refused', o.is_a(ValueError))
    w.check('never accepted twice', w.all_(accepted[0] <= 1, accepted[1] <= 1))


@contract('C07', targets=['messaging._verify_replay_protect'], samples=60)
def replay_malformed(w):
    """A message without timestamp or nonce is refused."""
    now = w.freeze()
    w.patch('openleadr.messaging.NONCE_CACHE', set())
    k = w.choice('kind', 3)
    stamp = [None, '', 'yesterday'][k]
    o = w.try_call(messaging._verify_replay_protect, Tree(None, True, stamp, 'n'))
    w.check('refused', o.raised is not None)


@contract('C07', targets=['messaging._verify_replay_protect', 'messaging._update_nonce_cache'], samples=120, lists=False)
def replay_busy(w):
    """However many messages arrive within the time limit, none of them is accepted again."""
    w.patch('openleadr.messaging.NONCE_CACHE', set())
    now = w.freeze()
    n = w.size('n', 3, 4, big=1500)
    w.assume(n > 0)
    toks, ts, nonces = [], [], []
    for i in range(n):
        t = now - timedelta(seconds=w.make('age' + str(i), Int(-100, 4)))
        ts.append(t)
        toks.append(w.dt_text('STAMP' + str(i), t))
        nonces.append(w.make('nonce' + str(i), Id()) if n < 5 else 'n' + str(i))

    def parse(value):
        for i in range(n):
            if value == toks[i]:
                return ts[i]

    w.modular('openleadr.utils.parse_datetime', parse)
    for i in range(n):
        w.assume(w.all_(True, *[w.any_(w.not_(ts[i] == ts[j]), w.not_(w.eq(nonces[i], nonces[j]))) for j in range(i if n < 5 else 0)]))
        o = w.try_call(messaging._verify_replay_protect, Tree(None, True, toks[i], nonces[i]))
        w.check('accepted the first time', o.raised is None)
    k = w.choice('again', 4)
    again = [0, n // 2, n - 1, n // 3][k]
    o = w.try_call(messaging._verify_replay_protect, Tree(None, True, toks[again], nonces[again]))
    w.check('refused the second time', o.is_a(ValueError))
