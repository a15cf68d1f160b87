"""C31 signing of outgoing messages."""
from pyvc.api import *
import lxml.etree
import signxml
from datetime import datetime, timedelta, timezone
import xmltodict
from openleadr import messaging, utils

DSP = '{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}'


class El:
    """An XML element, as far as it is needed for the replay protection."""
    def __init__(self, tag, attrib=None, nsmap=None, **extra):
        self.tag = tag
        self.attrib = attrib
        self.text = None
        self.children = []

    def append(self, child):
        self.children.append(child)

    def all(self):
        r = [self]
        for c in self.children:
            r = r + c.all()
        return r

    def findtext(self, path, default=None, namespaces=None):
        for e in self.all():
            if path == './/' + e.tag:
                return e.text
        return default

    def find(self, path, namespaces=None):
        for e in self.all():
            if path == './/' + e.tag:
                return e


class Parsed:
    """The tree of this text."""
    def __init__(self, text):
        self.text_of = text


def signer(w, signed):
    """The signature library: records what it signs, and how."""
    def sign(self, data, key=None, passphrase=None, cert=None, reference_uri=None, key_name=None, key_info=None,
             id_attribute=None, always_add_key_value=False, payload_c14n_algorithm=None, inclusive_ns_prefixes=None,
             signature_properties=None):
        signed.append({'data': data, 'key': key, 'cert': cert, 'passphrase': passphrase, 'uri': reference_uri,
                       'properties': signature_properties})
        return Parsed('<Signature xmlns="urn:s">signature</Signature>') if w.symbolic else \
            lxml.etree.fromstring('<Signature xmlns="urn:s">signature</Signature>')

    def sub(parent, tag, attrib=None, nsmap=None, **extra):
        e = El(tag)
        parent.append(e)
        return e

    w.stub('signxml.XMLSigner.sign', sign)
    if w.symbolic:
        w.stub('lxml.etree.fromstring', lambda text, parser=None: Parsed(text))
        w.stub('lxml.etree.tostring', lambda tree: tree.text_of.encode('utf-8'))
        w.stub('lxml.etree.Element', El)
        w.stub('lxml.etree.SubElement', sub)


def text_of(w, tree):
    return tree.text_of if w.symbolic else lxml.etree.tostring(tree).decode('utf-8')


@contract('C31', targets=['messaging.create_message', 'messaging._create_replay_protect', 'utils.ensure_bytes'], samples=300)
def signed_message(w):
    """A message is signed if and only if there is a certificate and a key and signing is not disabled: with this key, over
    what is sent, together with fresh replay protection."""
    now = w.freeze()
    signed = []
    signer(w, signed)
    cert = [None, b'CERT', b''][w.choice('cert', 3)]
    key = [None, b'KEY'][w.choice('key', 2)]
    how = w.choice('disable', 3)
    kw = [{}, {'disable_signature': False}, {'disable_signature': True}][how]
    phrase = w.choice('passphrase', 4)
    if phrase > 0:
        kw['passphrase'] = [None, 'secret', b'secret'][phrase - 1]
    ven_id = w.make('ven_id', Id())
    rid = w.make('rid', Id())
    if not w.symbolic:
        w.assume(ven_id.isalnum() and ven_id.isascii() and rid.isalnum() and rid.isascii())
    kind = w.choice('kind', 2)
    message_type = ['oadrPoll', 'oadrRegisteredReport'][kind]
    payload = [{'ven_id': ven_id}, {'ven_id': ven_id, 'report_requests': [], 'response': {
        'request_id': rid, 'response_code': 200, 'response_description': 'OK'}}][kind]
    o = w.try_call(messaging.create_message, message_type, cert=cert, key=key, **kw, **payload)
    w.check('a message is made', o.raised is None)
    must = cert == b'CERT' and key == b'KEY' and how != 2
    w.check('signed exactly if asked for', len(signed) == (1 if must else 0))
    tree = xmltodict.parse(o.value)['oadr:oadrPayload']
    w.check('the signature is in the message', ('Signature' in tree) == must)
    if must:
        s = signed[0]
        w.check('with the given key and certificate', w.all_(s['key'] == key, s['cert'] == cert))
        w.check('and passphrase', s['passphrase'] == (b'secret' if phrase >= 2 else None))
        part = xmltodict.parse(text_of(w, s['data']))
        w.check('what is signed is what is sent', part['oadr:oadrSignedObject'] == tree['oadr:oadrSignedObject'])
        w.check('by reference to the signed object', s['uri'] == '#oadrSignedObject')
        stamp = s['properties'].findtext('.//' + DSP + 'timestamp')
        w.check('signed now', utils.parse_datetime(stamp) == now)
        w.check('with a nonce', w.not_(w.eq(s['properties'].findtext('.//' + DSP + 'nonce'), '')))


@contract('C31', 'C07', targets=['messaging._create_replay_protect', 'messaging._verify_replay_protect'], samples=200)
def fresh_protection(w):
    """The replay protection of our own messages is accepted, each once."""
    if w.symbolic:
        signer(w, [])
    w.patch('openleadr.messaging.NONCE_CACHE', set())
    w.freeze()
    a = w.call(messaging._create_replay_protect)
    b = w.call(messaging._create_replay_protect)
    w.check('accepted', w.try_call(messaging._verify_replay_protect, a).raised is None)
    w.check('another one too', w.try_call(messaging._verify_replay_protect, b).raised is None)
    w.check('but not again', w.all_(w.try_call(messaging._verify_replay_protect, a).is_a(ValueError),
                                    w.try_call(messaging._verify_replay_protect, b).is_a(ValueError)))
