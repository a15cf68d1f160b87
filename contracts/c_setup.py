"""C32 a server and a client are set up as configured."""
from pyvc.api import *
import functools
import os
import ssl
import aiohttp
from datetime import datetime, timedelta, timezone
import lxml.etree
import xmltodict
from openleadr import messaging, utils
from openleadr.client import OpenADRClient
from openleadr.server import OpenADRServer
from openleadr.service import EventService, PollService, RegistrationService, ReportService, VTNService
from contracts.c_client import Queue, Scheduler
from contracts.c_signing import signer
import openleadr

CERTS = os.path.join(os.path.dirname(os.path.dirname(openleadr.__file__)), 'certificates')
CERT, KEY, CA = [os.path.join(CERTS, f) for f in ('dummy_vtn.crt', 'dummy_vtn.key', 'dummy_ca.crt')]


class App:
    """aiohttp.web.Application: routes and items."""
    def __init__(self):
        self.table = []
        self.items = {}

    def add_routes(self, routes):
        for r in routes:
            self.table.append(r)

    def __setitem__(self, key, value):
        self.items[key] = value

    def __getitem__(self, key):
        return self.items[key]


class Context:
    """ssl.SSLContext: how it was configured."""
    def __init__(self, protocol=None):
        self.protocol = protocol
        self.verify_mode = ssl.CERT_REQUIRED if protocol == ssl.PROTOCOL_TLS_CLIENT else ssl.CERT_NONE
        self.check_hostname = protocol == ssl.PROTOCOL_TLS_CLIENT
        self.cas = []
        self.chains = []

    def load_verify_locations(self, cafile=None, capath=None, cadata=None):
        self.cas.append(cafile)

    def load_cert_chain(self, certfile, keyfile=None, password=None):
        self.chains.append((certfile, keyfile, password))


class File:
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        c = {CERT: 'THE CERT', KEY: 'THE KEY'}[self.name]
        return c.encode('utf-8') if 'b' in self.mode else c


def content(w, name):
    """what is in this file"""
    if w.symbolic:
        return {CERT: b'THE CERT', KEY: b'THE KEY'}[name]
    with open(name, 'rb') as f:
        return f.read()


def environment(w, signed):
    signer(w, signed)
    if w.symbolic:
        w.stub('aiohttp.web.Application', App)
        w.stub('aiohttp.web.post', lambda path, handler, **kw: ('POST', path, handler))
        w.stub('ssl.SSLContext', Context)
        w.stub('builtins.open', lambda name, mode='r', *a, **k: File(name, mode))
        w.modular('openleadr.utils.certificate_fingerprint', lambda cert: 'AA:BB')
        w.modular('openleadr.utils.certificate_domain', lambda cert: 'domain')
    else:
        w.patch('builtins.print', quiet)
        chains = []
        load = ssl.SSLContext.load_cert_chain
        def recorded(self, certfile, keyfile=None, password=None):
            chains.append((certfile, keyfile, password))
            load(self, certfile, keyfile, password)
        w.patch('ssl.SSLContext.load_cert_chain', recorded)
        return chains


def quiet(*a, **k):
    pass


def routes_of(w, app):
    if w.symbolic:
        return app.table
    return [(r.method, r.resource.canonical, r.handler) for r in app.router.routes()]


def clear():
    """Servers keep some of their configuration in the class."""
    for name in ('ven_lookup', 'fingerprint_lookup', '_create_message'):
        if name in vars(VTNService):
            delattr(VTNService, name)


@contract('C32', targets=['server.OpenADRServer.__init__', 'service.vtn_service.VTNService.__init__'], samples=60)
def server_setup(w):
    """Every service answers at its own address, and knows the VTN id and the lookups."""
    signed = []
    environment(w, signed)
    w.patch('openleadr.service.VTNService.verify_message_signatures', True)
    vtn_id = w.make('vtn_id', Id())
    kw = {}
    verify = w.choice('verify', 3)
    if verify:
        kw['verify_message_signatures'] = verify == 1
    look = w.choice('lookup', 3)
    lookup = w.cb('lookup')
    if look == 1:
        kw['ven_lookup'] = lookup
    if look == 2:
        kw['fingerprint_lookup'] = lookup
    freq = w.make('freq', Dur())
    if w.flag('freq?'):
        kw['requested_poll_freq'] = freq
    else:
        freq = timedelta(seconds=10)
    prefix = w.choice('prefix', 4)
    if prefix:
        kw['http_path_prefix'] = ['/a/b', '/a/b/', ''][prefix - 1]
    try:
        if not w.symbolic:
            clear()
        o = w.try_call(OpenADRServer, vtn_id, **kw)
        w.check('a server is made', o.raised is None)
        server = o.value
        path = ['/OpenADR2/Simple/2.0b', '/a/b', '/a/b', ''][prefix]
        services = {'EiEvent': EventService, 'EiReport': ReportService, 'OadrPoll': PollService,
                    'EiRegisterParty': RegistrationService}
        table = routes_of(w, server.app)
        w.check('one address for each service', len(table) == 4)
        for name in services:
            mine = [r for r in table if r[1] == path + '/' + name]
            w.check('which is its own', w.all_(len(mine) == 1, *[r[0] == 'POST' for r in mine]))
            s = mine[0][2].__self__
            w.check('answered by the service', w.all_(isinstance(s, services[name]), mine[0][2].__name__ == 'handler'))
            w.check('which knows the VTN id', w.eq(s.vtn_id, vtn_id))
            w.check('whether to verify signatures', s.verify_message_signatures == (verify != 2))
            w.check('the lookup', w.all_(hasattr(s, 'ven_lookup') == (look == 1), hasattr(s, 'fingerprint_lookup') == (look == 2)))
            if look == 1:
                w.check('that was given', w.same(s.ven_lookup, lookup))
            if look == 2:
                w.check('that was given', w.same(s.fingerprint_lookup, lookup))
            if name == 'OadrPoll':
                w.check('polls see the events and reports of the same server', w.all_(
                    w.same(s.event_service, server.services['event_service']),
                    w.same(s.report_service, server.services['report_service'])))
            if name == 'EiRegisterParty':
                w.check('the poll frequency', s.poll_freq == freq)
    finally:
        if not w.symbolic:
            clear()


@contract('C32', 'C31', targets=['server.OpenADRServer.__init__'], samples=60)
def server_keys(w):
    """With certificates, only clients with a certificate of the CA can connect; messages are signed with the VTN's key."""
    signed = []
    chains = environment(w, signed)
    w.patch('openleadr.service.VTNService.verify_message_signatures', True)
    kw = {}
    tls = w.choice('tls', 8)
    if tls & 1:
        kw['http_cert'] = CERT
    if tls & 2:
        kw['http_key'] = KEY
    if tls & 4:
        kw['http_ca_file'] = CA
    sign = w.choice('sign', 4)
    if sign & 1:
        kw['cert'] = CERT
    if sign & 2:
        kw['key'] = KEY
    phrase = (None, 'sesame')[w.choice('passphrase', 2)]
    if phrase is not None:
        kw['passphrase'] = phrase
    http_phrase = (None, 'open')[w.choice('http passphrase', 2)]
    if http_phrase is not None:
        kw['http_key_passphrase'] = http_phrase
    kw['show_fingerprint'] = w.flag('show')
    kw['show_server_cert_domain'] = w.flag('show_domain')
    kw['verify_message_signatures'] = w.flag('verify')
    try:
        if not w.symbolic:
            clear()
        o = w.try_call(OpenADRServer, 'vtn', **kw)
        w.check('a server is made', o.raised is None)
        server = o.value
        ctx = server.ssl_context
        w.check('TLS exactly if it is configured', (ctx is not None) == (tls == 7))
        if tls == 7:
            w.check('clients need a certificate', ctx.verify_mode == ssl.CERT_REQUIRED)
            if w.symbolic:
                w.check('by our CA', ctx.cas == [CA])
            else:
                w.check('by our CA', len(ctx.get_ca_certs()) == 1)
            w.check('our certificate', w.eq(ctx.chains if w.symbolic else chains, [(CERT, KEY, http_phrase)]))
        m = w.call(server.services['event_service']._create_message, 'oadrPoll', ven_id='v')
        w.check('messages are signed if there is a key', len(signed) == (1 if sign == 3 else 0))
        if sign == 3:
            w.check('with our key', w.all_(signed[0]['key'] == content(w, KEY), signed[0]['cert'] == content(w, CERT),
                                           w.eq(phrase_of(signed[0]), phrase)))
    finally:
        if not w.symbolic:
            clear()


@contract('C32', 'C31', targets=['client.OpenADRClient.__init__', 'client.OpenADRClient._ensure_client_session'], samples=60)
def client_keys(w):
    """A client with a certificate presents it, and talks only to a server with a certificate of the CA (and of the right
    host, unless told otherwise); its messages are signed with its key. There is one session."""
    signed = []
    chains = environment(w, signed)
    made = []

    def session(connector=None, headers=None, timeout=None):
        s = ClientSession(connector, headers, timeout)
        made.append(s)
        return s

    w.patch('apscheduler.schedulers.asyncio.AsyncIOScheduler', Scheduler)
    w.patch('asyncio.Queue', Queue)
    w.patch('tzlocal.get_localzone', lambda: 'UTC')
    w.stub('aiohttp.ClientSession', session)
    w.stub('aiohttp.TCPConnector', Connector)
    if w.symbolic:
        w.stub('aiohttp.ClientTimeout', lambda **kw: kw)
    kw = {}
    sign = w.choice('sign', 3)
    if sign >= 1:
        kw['cert'] = CERT
        kw['key'] = KEY
        kw['ca_file'] = CA
    if sign == 2:
        kw['disable_signature'] = True
    phrase = (None, 'sesame')[w.choice('passphrase', 2)]
    if phrase is not None:
        kw['passphrase'] = phrase
    host = w.choice('check_hostname', 3)
    if host:
        kw['check_hostname'] = host == 1
    kw['show_fingerprint'] = w.flag('show')
    ven_id = w.make('ven_id', Opt(Id()))
    name = w.make('ven_name', Id())
    fp = w.make('fp', Opt(Id()))
    slash = w.flag('slash')
    o = w.try_call(construct, OpenADRClient, name, 'http://vtn/path/' if slash else 'http://vtn/path', ven_id=ven_id,
                   vtn_fingerprint=fp, **kw)
    w.check('a client is made', o.raised is None)
    c = o.value
    w.check('as configured', w.all_(w.eq(c.ven_name, name), w.eq(c.ven_id, ven_id), w.eq(c.vtn_fingerprint, fp),
                                    c.vtn_url == 'http://vtn/path', c.registration_id is None))
    w.call(c._ensure_client_session)
    w.call(c._ensure_client_session)
    w.check('one session', w.all_(len(made) == 1, w.same(c.client_session, made[0])))
    w.check('which says that it sends XML', made[0].headers['content-type'] == 'application/xml')
    if sign == 0:
        w.check('no TLS settings', made[0].connector is None)
    else:
        ctx = made[0].connector.ssl
        w.check('the server needs a certificate', ctx.verify_mode == ssl.CERT_REQUIRED)
        w.check('of the right host', ctx.check_hostname == (host != 2))
        if w.symbolic:
            w.check('by our CA', ctx.cas == [CA])
        else:
            w.check('by our CA', len(ctx.get_ca_certs()) == 1)
        w.check('our certificate', w.eq(ctx.chains if w.symbolic else chains, [(CERT, KEY, phrase)]))
    w.call(c._create_message, 'oadrPoll', ven_id='v')
    w.check('messages are signed if there is a key, unless disabled', len(signed) == (1 if sign == 1 else 0))
    if sign == 1:
        w.check('with our key', w.all_(signed[0]['key'] == content(w, KEY), signed[0]['cert'] == content(w, CERT),
                                       w.eq(phrase_of(signed[0]), phrase)))


def phrase_of(s):
    """the library wants the passphrase as bytes or as text"""
    p = s['passphrase']
    return p.decode('utf-8') if isinstance(p, bytes) else p


async def construct(cls, *a, **k):
    return cls(*a, **k)


class Connector:
    def __init__(self, ssl=None):
        self.ssl = ssl


class ClientSession:
    def __init__(self, connector, headers, timeout):
        self.connector = connector
        self.headers = headers
        self.timeout = timeout
        self.closed = False


class Runner:
    """aiohttp.web.AppRunner: what was done with it."""
    def __init__(self, app, **kw):
        self.app = app
        self.log = []

    async def setup(self):
        self.log.append('setup')

    async def cleanup(self):
        self.log.append('cleanup')


class Site:
    """aiohttp.web.TCPSite"""
    def __init__(self, runner, host=None, port=None, ssl_context=None, **kw):
        self.runner = runner
        self.at = (host, port, ssl_context)

    async def start(self):
        self.runner.log.append('start')

    async def stop(self):
        self.runner.log.append('stop')


@contract('C32', targets=['server.OpenADRServer.run', 'server.OpenADRServer.run_async', 'server.OpenADRServer.stop'], samples=60)
def server_run(w):
    """The server listens where it was told to, over TLS if it has a context, until it is stopped."""
    made = []
    sites = []
    def runner(app, **kw):
        r = Runner(app)
        made.append(r)
        return r
    def site(rn, host=None, port=None, ssl_context=None, **kw):
        r = Site(rn, host, port, ssl_context)
        sites.append(r)
        return r
    w.stub('aiohttp.web.AppRunner', runner)
    w.stub('aiohttp.web.TCPSite', site)
    w.patch('builtins.print', quiet)
    port = (8080, 443, 1)[w.choice('port', 3)]
    host = ('127.0.0.1', '0.0.0.0', 'vtn.example')[w.choice('host', 3)]
    ctx = Context(ssl.PROTOCOL_TLS_SERVER) if w.flag('tls') else None
    app = App()
    s = w.new(OpenADRServer, app=app, services={}, http_port=port, http_host=host, http_path_prefix='/x', ssl_context=ctx)
    if w.choice('how', 2) == 0:
        w.call(s.run)
    else:
        w.call(s.run_async)
    w.check('one site', w.all_(len(made) == 1, len(sites) == 1))
    w.check('of this server', w.all_(made[0].app is app, sites[0].runner is made[0]))
    w.check('where it was told to', w.all_(w.eq(sites[0].at[0], host), w.eq(sites[0].at[1], port)))
    w.check('over TLS if there is a context', sites[0].at[2] is ctx)
    w.check('it is set up, and then started', made[0].log == ['setup', 'start'])
    w.call(s.stop)
    w.check('stopping it takes it down', w.all_(made[0].log[-1] == 'cleanup', len(made[0].log) in (3, 4)))
