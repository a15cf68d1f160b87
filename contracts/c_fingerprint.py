"""C24 certificate fingerprints, however the certificate arrives."""
from pyvc.api import *
import base64
import hashlib
import os
import random
import ssl
from openleadr import utils


class Digest:
    """the bytes of a hash, known by their hexadecimal form"""
    def __init__(self, text):
        self.text = text

    def hex(self, *a):
        return self.text


class Hash:
    def __init__(self, text):
        self.text = text

    def digest(self):
        return Digest(self.text)

    def hexdigest(self):
        return self.text


@contract('C24', targets=['utils.certificate_fingerprint_from_der'], samples=200)
def fingerprint_of_der(w):
    """The last ten bytes of the SHA-256 hash as upper-case pairs separated by colons."""
    h = w.make('hash', Hex(64))
    der = object()
    if w.symbolic:
        def sha256(data, **kw):
            w.check('the hash of the certificate', w.same(data, der))
            return Hash(h)

        w.stub('hashlib.sha256', sha256)
    else:
        der = bytes.fromhex(h)
        h = hashlib.sha256(der).hexdigest()
    fp = w.call('openleadr.utils.certificate_fingerprint_from_der', der)
    u = [h[i:i + 2].upper() for i in range(44, 64, 2)]
    w.check('its last ten bytes', fp == u[0] + ':' + u[1] + ':' + u[2] + ':' + u[3] + ':' + u[4] + ':' + u[5] + ':' + u[6]
            + ':' + u[7] + ':' + u[8] + ':' + u[9])


PEM = ssl.DER_cert_to_PEM_cert(b'some certificate')


def spec_of_der(d):
    return 'FP of ' + str(d, 'ascii')


@contract('C24', targets=['utils.certificate_fingerprint', 'utils.ensure_str'], samples=20)
def fingerprint_of_pem(w):
    """Given as text or as bytes: the fingerprint of the certificate it is."""
    given = [PEM, PEM.encode()][w.choice('bytes', 2)]
    w.modular('openleadr.utils.certificate_fingerprint_from_der', spec_of_der)
    want = 'FP of some certificate' if w.symbolic else expected(b'some certificate')
    w.check('of that certificate', w.call('openleadr.utils.certificate_fingerprint', given) == want)


class Ssl:
    def __init__(self, der):
        self.der = der

    def getpeercert(self, binary_form=False):
        if not binary_form:
            return {}
        return self.der


class Transport:
    def __init__(self, tls, der):
        self.tls = tls
        self.der = der

    def get_extra_info(self, name, default=None):
        return Ssl(self.der) if name == 'ssl_object' and self.tls else default


class Request:
    def __init__(self, tls, der):
        self.transport = Transport(tls, der)


@contract('C24', targets=['utils.get_cert_fingerprint_from_request'], samples=40)
def fingerprint_of_request(w):
    """That of the certificate of the TLS connection; none without TLS or without a certificate."""
    k = w.choice('kind', 3)
    w.modular('openleadr.utils.certificate_fingerprint_from_der', spec_of_der)
    r = Request(k > 0, b'some certificate' if k == 2 else None)
    fp = w.call('openleadr.utils.get_cert_fingerprint_from_request', r)
    if k == 2:
        w.check('of the connection', fp == ('FP of some certificate' if w.symbolic else expected(b'some certificate')))
    else:
        w.check('none', fp is None)


def expected(der):
    h = hashlib.sha256(der).hexdigest().upper()[-20:]
    return ':'.join(h[i:i + 2] for i in range(0, 20, 2))


DS = 'http://www.w3.org/2000/09/xmldsig#'


@contract('C24', targets=['utils.certificate_fingerprint', 'utils.extract_pem_cert', 'utils.get_cert_fingerprint_from_request',
                          'utils.certificate_fingerprint_from_der'], samples=200, concrete_only=True)
def fingerprints_agree(w):
    """Bounded: certificates of random content; the real hash, PEM and XML libraries."""
    from lxml import etree
    n = w.make('n', Int(1, 900, pool=[1, 2, 3, 47, 48, 49, 64, 96, 600]))
    der = random.Random(w.make('seed', Int(0, 10 ** 6))).randbytes(n)
    pem = ssl.DER_cert_to_PEM_cert(der)
    want = expected(der)
    w.check('PEM text', utils.certificate_fingerprint(pem) == want)
    w.check('PEM bytes', utils.certificate_fingerprint(pem.encode()) == want)
    w.check('DER', utils.certificate_fingerprint_from_der(der) == want)
    body = ''.join(pem.strip().split('\n')[1:-1])
    k = w.choice('layout', 5)
    width = [64, 76, 64, 10 ** 6, 60][k]
    text = '\n'.join(body[i:i + width] for i in range(0, len(body), width))
    text = ['\n' + text + '\n', text + '\n', text, text, '\n' + text][k]
    tree = etree.Element('{x}payload')
    sig = etree.SubElement(tree, '{%s}Signature' % DS)
    etree.SubElement(sig, '{%s}SignatureValue' % DS).text = 'abc'
    info = etree.SubElement(etree.SubElement(sig, '{%s}KeyInfo' % DS), '{%s}X509Data' % DS)
    etree.SubElement(info, '{%s}X509Certificate' % DS).text = text
    got = utils.extract_pem_cert(tree)
    w.check('in a signature', utils.certificate_fingerprint(got) == want)
    w.check('as a PEM certificate', ssl.PEM_cert_to_DER_cert(got) == der)
