"""The planted bugs: id -> (property, [(file, old, new)...], needs, what it breaks, demonstration)."""
S = "src/oidcrp/"
B = {}


def bug(id, prop, edits, needs, what, demo):
    B[id] = (prop, edits, needs, what, demo)


bug("c01-refused-response-stored", "C01", [(S + "rp_handler.py", '''        _context = client.client_get("service_context")
        try:
            _iss = _context.state.get_iss(authorization_response['state'])
        except KeyError:
            raise KeyError('Unknown state value')
''', '''        _context = client.client_get("service_context")
        _srv.update_service_context(authorization_response, key=authorization_response['state'])
        try:
            _iss = _context.state.get_iss(authorization_response['state'])
        except KeyError:
            raise KeyError('Unknown state value')
'''), (S + "rp_handler.py", '''            raise ValueError('Impersonator {}'.format(issuer))

        _srv.update_service_context(authorization_response, key=authorization_response['state'])
''', '''            raise ValueError('Impersonator {}'.format(issuer))

''')],
    "a response with an unknown or removed state value",
    "The response is stored under the state it names before that state is checked, so a refused response with a "
    "removed or unknown state leaves a trace in the session store.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
b, r = login(h, a)
h.clear_session(b["state"])
ok = refused(h.finalize, a.iss, {"state": b["state"], "code": "injected"})
try:
    ctx(h, a).state.get_state(b["state"])
    ok = False
except KeyError:
    pass
done(ok, "a refused response with a removed state leaves no trace")
''')

bug("c02-any-known-nonce", "C02", [(S + "oidc/authorization.py", '''                elif _req_nonce != _id_token_nonce:
                    raise ValueError('Invalid nonce')
''', '''                try:
                    self.client_get("service_context").state.get_state_by_nonce(_id_token_nonce)
                except KeyError:
                    raise ValueError('Invalid nonce')
''')],
    "an ID Token of another pending login injected in the front channel",
    "The nonce of a front-channel ID Token only has to be a known one, not that of this very session.", '''
a = OP("https://a.example.com", response_types_supported=["id_token"])
net = Net(a)
h = handler(net, {a.iss: conf(a, prefs={"response_types": ["id_token"]})})
mine, other = h.begin(a.iss), h.begin(a.iss)
r1, r2 = a.authorize(mine["url"]), a.authorize(other["url"])
r1["id_token"] = r2["id_token"]
done(refused(h.finalize, a.iss, r1), "an ID Token with the nonce of another session is refused")
''')

bug("c02-no-nonce-accepted", "C02", [(S + "oidc/access_token.py", '''            try:
                if _state_interface.get_state_by_nonce(_idt['nonce']) != key:
                    raise ParameterError('Someone has messed with "nonce"')
            except KeyError:
                raise ValueError('Invalid nonce value')
''', '''            _nonce = _idt.get('nonce')
            if _nonce:
                try:
                    if _state_interface.get_state_by_nonce(_nonce) != key:
                        raise ParameterError('Someone has messed with "nonce"')
                except KeyError:
                    raise ValueError('Invalid nonce value')
''')],
    "a token endpoint that returns an ID Token without a nonce",
    "An ID Token without nonce is accepted at the token endpoint.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
a.tamper = lambda c: c.pop("nonce", None)
b = h.begin(a.iss)
done(refused(h.finalize, a.iss, a.authorize(b["url"])), "an ID Token without the nonce is refused")
''')

bug("c02-skew-forgotten", "C02", [(S + "oidc/access_token.py", "            'verify': True,\n            'skew': _context.clock_skew,\n",
                                   "            'verify': True,\n")],
    "an RP clock that is a few seconds off, within the configured skew",
    "The configured clock skew is not passed to the verification of ID Tokens from the token endpoint: genuine "
    "tokens are refused (or stale ones accepted) whenever the clocks differ.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a, clock_skew=120)})


def fast(c):
    c["iat"] += 60
    c["exp"] += 60


a.tamper = fast
b = h.begin(a.iss)
done(not refused(h.finalize, a.iss, a.authorize(b["url"])), "a genuine ID Token within the skew is accepted")
''')

bug("c03-no-check-front-channel", "C03", [(S + "oidc/userinfo.py", '''            {}, kwargs['state'], ['id_token'],
            ['auth_response', 'token_response', 'refresh_token_response']
''', '''            {}, kwargs['state'], ['id_token'],
            ['token_response', 'refresh_token_response']
''')],
    "a response type that delivers the ID Token in the authorization response, and a provider that answers "
    "the userinfo request with somebody else",
    "The subject of the user info is only compared with ID Tokens from the token endpoint.", '''
a = OP("https://a.example.com", response_types_supported=["id_token token"])
net = Net(a)
h = handler(net, {a.iss: conf(a, prefs={"response_types": ["id_token token"]})})
b = h.begin(a.iss)
r = a.authorize(b["url"])
a.userinfo = {"sub": "somebody-else"}
done(refused(h.finalize, a.iss, r), "user info about another subject is refused")
''')

bug("c04-shared-headers", "C04", [(S + "service.py", '''        headers = {}
        # If I should deal with client authentication
        if authn_method:
            h_arg = self.init_authentication_method(request, authn_method,
                                                    **kwargs)
            try:
                headers = h_arg['headers']
            except KeyError:
                pass

        return headers
''', '''        headers = {}
        # If I should deal with client authentication
        if authn_method:
            h_arg = self.init_authentication_method(request, authn_method,
                                                    **kwargs)
            try:
                headers = h_arg['headers']
            except KeyError:
                pass
            else:
                # no need to build the same set of headers over and over again
                self.http_headers = getattr(self, 'http_headers', {})
                self.http_headers.update(headers)
                headers = self.http_headers

        return headers
''')],
    "two threads in the same service at once: one builds its headers while the other one has built its own but not "
    "sent them yet",
    "The headers of a service are one shared dictionary: overlapping requests use each other's Authorization header.", '''
import threading
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
b1, b2 = h.begin(a.iss), h.begin(a.iss)
first, second = threading.Event(), threading.Event()
seen = {}


def hook(url, method, body, headers):
    pass


srv = h.issuer2rp[a.iss].get_service("userinfo")
orig_url = type(srv).get_endpoint


def slow(self):
    # thread one is held up after the headers are ready, until thread two is past that point
    if threading.current_thread().name == "one":
        first.set()
        second.wait(5)
    return orig_url(self)


r1, r2 = h.finalize(a.iss, a.authorize(b1["url"])), h.finalize(a.iss, a.authorize(b2["url"]))
type(srv).get_endpoint = slow
net.log.clear()
t = threading.Thread(target=h.get_user_info, args=(b1["state"],), name="one")
t.start()
first.wait(5)
h.get_user_info(b2["state"])
second.set()
t.join()
type(srv).get_endpoint = orig_url
used = sorted(x[3]["authorization"] for x in net.sent("/userinfo"))
done(used == sorted("Bearer " + r["token"] for r in (r1, r2)), "overlapping userinfo requests use their own tokens")
''')

bug("c05-short-nonce", "C05", [(S + "rp_handler.py", "        _nonce = rndstr(24)\n", "        _nonce = rndstr(16)\n")],
    "nothing but counting the entropy of the nonce",
    "The nonce has only 95 bits of entropy.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
n = query(h.begin(a.iss)["url"])["nonce"]
done(len(n) * 5.95 >= 120, "a nonce has at least 120 bits")
''')

bug("c05-logout-state-derived", "C05", [(S + "oidc/end_session.py", '''            request_args['state'] = rndstr(32)
''', '''            request_args['state'] = hashlib.sha256(kwargs['state'].encode()).hexdigest()[:32]
'''), (S + "oidc/end_session.py", "import logging\n", "import hashlib\nimport logging\n") if False else
    (S + "oidc/end_session.py", "from oidcrp.service import Service\n", "import hashlib\nfrom oidcrp.service import Service\n")],
    "logging out twice from the same session",
    "The logout state is derived from the session state, so it recurs and can be predicted by who knows the state.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
b, r = login(h, a)
s1, s2 = [query(h.logout(b["state"])["url"])["state"] for _ in (1, 2)]
done(s1 != s2, "every logout has a fresh state")
''')

bug("c06-verifier-in-context", "C06", [(S + "oauth2/add_on/pkce.py", '''    _item = Message(code_verifier=code_verifier, code_challenge_method=_method)
''', '''    _kwargs['code_verifier'] = code_verifier
    _item = Message(code_verifier=code_verifier, code_challenge_method=_method)
'''), (S + "oauth2/add_on/pkce.py", '''    _item = service.client_get("service_context").state.get_item(Message, 'pkce', _state)
    request_args.update({'code_verifier': _item['code_verifier']})
''', '''    _item = service.client_get("service_context").add_on['pkce']
    request_args.update({'code_verifier': _item['code_verifier']})
''')],
    "another login begun at the same provider before the first one is completed",
    "The token request carries the code verifier of the login begun last, not the one of its own login.", '''
a = OP("https://a.example.com")
net = Net(a)
PK = {"pkce": {"function": "oidcrp.oauth2.add_on.pkce.add_support",
               "kwargs": {"code_challenge_length": 64, "code_challenge_method": "S256"}}}
h = handler(net, {a.iss: conf(a, add_ons=PK)})
b1, b2 = h.begin(a.iss), h.begin(a.iss)
h.finalize(a.iss, a.authorize(b1["url"]))
v = net.sent("/token")[0][2]["code_verifier"]
ch = base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).decode().rstrip("=")
done(ch == query(b1["url"])["code_challenge"], "the verifier fits the challenge of its own login")
''')

bug("c07-token-to-next-source", "C07", [(S + "oidc/__init__.py", '''            for csrc, spec in _csrc.items():
                if "endpoint" in spec:
                    if "access_token" in spec:
                        cauth = BearerHeader()
''', '''            httpc_params = {}
            for csrc, spec in _csrc.items():
                if "endpoint" in spec:
                    if "access_token" in spec:
                        cauth = BearerHeader()
'''), (S + "oidc/__init__.py", '''                        else:
                            _resp = self.http.send(spec["endpoint"], 'GET')
''', '''                        else:
                            _resp = self.http.send(spec["endpoint"], 'GET', **httpc_params)
''')],
    "two distributed claim sources, the first with and the second without an access token",
    "A claim source without an access token gets the access token meant for the source before it.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
b, r = login(h, a)
net.pages["https://one.example.org/c"] = Resp(200, {"age": 3})
net.pages["https://two.example.org/c"] = Resp(200, {"height": 3})
from oidcmsg.oidc import OpenIDSchema
u = OpenIDSchema(sub="diana", _claim_names={"age": "s1", "height": "s2"}, _claim_sources={
    "s1": {"endpoint": "https://one.example.org/c", "access_token": "for-one-only"},
    "s2": {"endpoint": "https://two.example.org/c"}})
h.issuer2rp[a.iss].fetch_distributed_claims(u)
leak = [x for x in net.sent("two.example.org/c") if "for-one-only" in str(x)]
done(not leak, "a token goes only to the source it was given for")
''')

bug("c08-implicit-never-expires", "C08", [(S + "oidc/authorization.py", '''        if 'expires_in' in resp:
            resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
        _context.state.store_item(resp.to_json(), 'auth_response', key)
''', '''        resp = resp.copy()
        if 'expires_in' in resp:
            resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
        _context.state.store_item(resp.to_json(), 'auth_response', key)
''')],
    "an access token from the authorization endpoint (implicit or hybrid flow), and time passing",
    "The expiry computed for a front-channel access token is overwritten when the response is stored again: the "
    "token is reported valid for ever.", '''
a = OP("https://a.example.com", response_types_supported=["id_token token"])
a.expires_in = 1
net = Net(a)
h = handler(net, {a.iss: conf(a, prefs={"response_types": ["id_token token"]})})
b = h.begin(a.iss)
h.finalize(a.iss, a.authorize(b["url"]))
time.sleep(2.1)
done(refused(h.get_valid_access_token, b["state"]), "an expired front-channel token is not reported valid")
''')

bug("c08-first-id-token-counts", "C08", [(S + "rp_handler.py", '''            {}, state, ['__verified_id_token'],
            ['auth_response', 'token_response', 'refresh_token_response'])
''', '''            {}, state, ['__verified_id_token'],
            ['refresh_token_response', 'token_response', 'auth_response'])
''')],
    "a hybrid flow whose front-channel ID Token expires before the one from the token endpoint or a refresh",
    "has_active_authentication judges by the oldest ID Token of the session instead of the latest.", '''
a = OP("https://a.example.com", response_types_supported=["code id_token"])
net = Net(a)
h = handler(net, {a.iss: conf(a, prefs={"response_types": ["code id_token"]})})
b = h.begin(a.iss)
a.idt_exp = 2
r = a.authorize(b["url"])
a.idt_exp = 3600
h.finalize(a.iss, r)
time.sleep(3.1)
done(h.has_active_authentication(b["state"]) is True, "the latest ID Token decides")
''')

bug("c10-logout-audience", "C10", [(S + "rp_handler.py", "        'aud': client.get_client_id(),\n        'iss': _context.get('issuer'),\n        'keyjar'",
                                    "        'iss': _context.get('issuer'),\n        'keyjar'")],
    "a logout token the provider issued to another client",
    "backchannel_logout accepts logout tokens meant for other clients of the provider.", '''
from oidcrp.rp_handler import backchannel_logout
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
b, r = login(h, a)
now = int(time.time())
lt = {"iss": a.iss, "aud": ["some-other-client"], "iat": now, "jti": "j1", "sub": "diana",
      "events": {"http://schemas.openid.net/event/backchannel-logout": {}}}
c = h.issuer2rp[a.iss]
ok = refused(backchannel_logout, c, request_args={"logout_token": a.sign(lt)})
lt["aud"] = [c.get_client_id()]
ok = ok and backchannel_logout(c, request_args={"logout_token": a.sign(lt)}) == b["state"]
done(ok, "a logout token for another client is refused")
''')

bug("c11-callback-not-dumped", "C11", [(S + "service_context.py", "        'callback': None,\n        'client_id'", "        'client_id'")],
    "a restart from a dump, then another login at a dynamically registered provider",
    "The registered callback URIs are not part of the dump: after a restart no login can be started.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
b, r = login(h, a)
dump = json.loads(json.dumps(ctx(h, a).dump()))
h2 = handler(net, {a.iss: conf(a)})
c = h2.init_client(a.iss)
c.client_get("service_context").load(dump)
h2.issuer2rp[a.iss] = c
h2.do_provider_info(c)
try:
    ok = query(h2.begin(a.iss)["url"])["redirect_uri"] == query(b["url"])["redirect_uri"]
except Exception as err:
    print(repr(err))
    ok = False
done(ok, "after a restart the same redirect URI is used")
''')

bug("c13-issuer-by-host", "C13", [(S + "oauth2/provider_info_discovery.py", '''            if _issuer != _pcr_issuer:
''', '''            if not _pcr_issuer.startswith(_issuer):
''')],
    "a provider whose metadata names an issuer that merely starts with the one asked for",
    "Provider metadata of another issuer is accepted if the issuer asked for is a prefix of its name.", '''
a = OP("https://a.example.com")
net = Net(a)
a.meta["issuer"] = "https://a.example.com.evil.org"
h = handler(net, {a.iss: conf(a)})
done(refused(h.begin, a.iss), "metadata of another issuer is refused")
''')

bug("c14-state-store-bounded", "C14", [(S + "state_interface.py", '''        _state = State(iss=iss)
        self._db[key] = _state.to_json()
        return key
''', '''        _state = State(iss=iss)
        self._db[key] = _state.to_json()
        # don't let abandoned logins fill the store
        if len(self._db) > 512:
            for _key in list(self._db.keys())[:128]:
                if _key != key:
                    del self._db[_key]
        return key
''')],
    "more than a hundred logins begun while an early one is still pending",
    "Old entries are thrown out of the state store when there are many, whether or not their login is under way.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
b = h.begin(a.iss)
for _ in range(400):
    h.begin(a.iss)
done(not refused(h.finalize, a.iss, a.authorize(b["url"])), "an early login survives many later ones")
''')

bug("c16-jti-from-time", "C16", [(S + "oauth2/add_on/dpop.py", '''        "jti": uuid.uuid4().hex,
''', '''        "jti": uuid.uuid5(uuid.NAMESPACE_URL, "{}#{}".format(
            provider_info[service_endpoint], utc_time_sans_frac())).hex,
''')],
    "two requests to the same endpoint within one second",
    "The jti of a DPoP proof is derived from endpoint and time: requests within a second share it.", '''
a = OP("https://a.example.com", dpop_signing_alg_values_supported=["ES256"])
net = Net(a)
DP = {"dpop": {"function": "oidcrp.oauth2.add_on.dpop.add_support", "kwargs": {"signing_algorithms": ["ES256"]}}}
h = handler(net, {a.iss: conf(a, add_ons=DP)})
b, r = login(h, a)
for _ in range(5):
    h.get_user_info(b["state"])
from cryptojwt.jws.jws import factory
j = [factory(x[3]["dpop"]).jwt.payload()["jti"] for x in net.sent("/userinfo")]
done(len(j) == 6 and len(set(j)) == 6, "every proof has a jti of its own")
''')

bug("c17-missing-file", "C17", [(S + "oidc/authorization.py", '''        fid = open(filename, mode="w")
        fid.write(req)
        fid.close()
        return _webname
''', '''        try:
            with open(filename, mode="w") as fid:
                fid.write(req)
        except OSError as err:
            LOGGER.error('Could not store the request: %s', err)
        return _webname
''')],
    "a disk error (full disk, no permission) while the request object is written",
    "begin() returns a URL referring to a request object that is not there or truncated when it could not be stored.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
h.begin(a.iss)
import builtins
real = builtins.open


class Full:
    def __init__(self, f):
        self.f = f

    def write(self, data):
        raise OSError(28, "No space left on device")

    def close(self):
        self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()


def full(name, mode="r", *args, **kw):
    f = real(name, mode, *args, **kw)
    return Full(f) if "w" in mode and str(name).endswith(".jwt") or "requests" in str(name) else f


builtins.open = full
try:
    bad = refused(h.begin, a.iss, behaviour_args={"request_param": "request_uri"})
finally:
    builtins.open = real
done(bad, "begin() raises when the request object can not be stored")
''')

bug("c18-assertion-cached", "C18", [(S + "client_auth.py", '''        return assertion_jwt(_entity.get_client_id(), signing_key, audience, algorithm, **_args)
''', '''        _now = utc_time_sans_frac()
        _key = (_entity.get_client_id(), audience, algorithm)
        _what, _when, _assertion = getattr(_context, 'assertion', (None, 0, ''))
        if _what != _key or not 0 <= _now - _when < 5:
            _assertion = assertion_jwt(_entity.get_client_id(), signing_key, audience, algorithm,
                                       **_args)
            _context.assertion = (_key, _now, _assertion)
        return _assertion
''')],
    "two token requests within a few seconds",
    "A client assertion is used for several token requests, so its jti recurs.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a, prefs={"token_endpoint_auth_method": ["private_key_jwt"]})})
login(h, a)
login(h, a)
x = [t[2]["client_assertion"] for t in net.sent("/token")]
done(len(x) == 2 and x[0] != x[1], "every token request has a fresh assertion")
''')

bug("c19-callback-by-host", "C19", [(S + "oidc/registration.py", '''    _hash.update(hash_seed)
    _hash.update(as_bytes(issuer))
''', '''    _hash.update(hash_seed)
    _hash.update(as_bytes(issuer.split('?')[0].rsplit('/', 1)[0]))
''')],
    "two issuers that only differ in the last path component (tenants of one host)",
    "The callback URIs of issuers at the same host are the same, not provider specific.", '''
a, z = OP("https://host.example.com/t1"), OP("https://host.example.com/t2")
net = Net(a, z)
h = handler(net, {x.iss: conf(x) for x in (a, z)})
seed = b"0123456789abcdef"
from oidcrp.oidc.registration import create_callbacks
one = create_callbacks(a.iss, seed, BASE, code=True)["code"]
two = create_callbacks(z.iss, seed, BASE, code=True)["code"]
done(one != two, "callback URIs differ between providers")
''')

bug("c20-claims-of-others", "C20", [(S + "oidc/userinfo.py", '''                        for key in claims:
                            response[key] = aggregated_claims[key]
''', '''                        for key in response["_claim_names"].keys():
                            if key in aggregated_claims:
                                response[key] = aggregated_claims[key]
''')],
    "two claim sources, one of which delivers a claim that is assigned to the other",
    "An aggregated claim is taken from whatever source delivers it, not from the one it is assigned to.", '''
a = OP("https://a.example.com")
cp, evil = OP("https://claims.example.org"), OP("https://evil.example.org")
net = Net(a, cp, evil)
h = handler(net, {a.iss: conf(a)})
h.begin(a.iss)
kj = ctx(h, a).keyjar
for p in (cp, evil):
    kj.import_jwks(p.keys.export_jwks(), p.iss)
a.userinfo = {"_claim_names": {"age": "s1", "height": "s2"}, "_claim_sources": {
    "s1": {"JWT": cp.sign({"iss": cp.iss, "age": 30})},
    "s2": {"JWT": evil.sign({"iss": evil.iss, "height": 180, "age": 99})}}}
b, r = login(h, a)
done(r["userinfo"].get("age") == 30, "a claim comes from the source it is assigned to")
''')

bug("c21-short-signature", "C21", [(S + "cookie.py", '''    if len(a) != len(b):
        return False
    r = 0
''', '''    r = 0
''')],
    "a cookie whose signature has been cut off",
    "A truncated (even empty) signature is accepted, so any value can be forged.", '''
from oidcrp.cookie import make_cookie, parse_cookie
c = make_cookie("pyoidc", "alice", b"0123456789abcdef", timestamp="1463043535")
text = c[1].replace("alice", "mallory")
head, sig = text.split(";")[0].rsplit("|", 1)
ok = True
for n in (0, 1, 8):
    q = '"' if text.split("=", 1)[1].startswith('"') else ""
    try:
        v = parse_cookie("pyoidc", b"0123456789abcdef", head + "|" + "0" * n + q)
    except Exception:
        v = None
    if n == 0 and v and v[0] == "mallory":
        ok = False
done(ok, "a cookie with a truncated signature is rejected")
''')

bug("c21-timestamp-unbound", "C21", [(S + "cookie.py", "        ct = split_ctx_and_tag(aesgcm.encrypt(iv, bytes_load, bytes_timestamp))\n",
                                      "        ct = split_ctx_and_tag(aesgcm.encrypt(iv, bytes_load, bytes_timestamp[:6]))\n"),
                                     (S + "cookie.py", "        aad = timestamp.encode('utf-8')\n", "        aad = timestamp.encode('utf-8')[:6]\n")],
    "an encrypted cookie whose timestamp is altered in its last digits",
    "Only the first digits of the timestamp of an encrypted cookie are protected.", '''
from oidcrp.cookie import make_cookie, parse_cookie
seed, key = b"0123456789abcdef", b"fedcba9876543210"
c = make_cookie("pyoidc", "alice", seed, timestamp="1463043535", enc_key=key)
try:
    v = parse_cookie("pyoidc", seed, c[1].replace("1463043535", "1463043599"), key)
except Exception:
    v = None
done(v is None and parse_cookie("pyoidc", seed, c[1], key) == ("alice", "1463043535"), "an altered timestamp is rejected")
''')

bug("c22-patterns-collide", "C22", [(S + "state_interface.py", "    'session id': '..{}..',\n    'subject id': '=={}=='\n",
                                     "    'session id': '=={}==',\n    'subject id': '=={}=='\n")],
    "a session id that equals the subject id of another session",
    "Session ids and subject ids share a name space in the store: a sid bound to one session hides an equal sub of another.", '''
from oidcrp.state_interface import StateInterface
s = StateInterface()
one, two = s.create_state("https://a.example.com"), s.create_state("https://a.example.com")
s.store_sub2state("4711", one)
s.store_sid2state("4711", two)
done(s.get_state_by_sub("4711") == one and s.get_state_by_sid("4711") == two, "sid and sub are told apart")
''')

bug("c09-other-refresh-token", "C09", [(S + "oauth2/refresh_access_token.py", '''        if request_args is None:
            request_args = _args
        else:
            _args.update(request_args)
            request_args = _args

        return request_args, {}
''', '''        if 'refresh_token' in _args:
            # should a later response not repeat it
            self.default_request_args['refresh_token'] = _args['refresh_token']

        if request_args is not None:
            _args.update(request_args)

        return _args, {}
''')],
    "two sessions, one of which never got a refresh token and is refreshed after the other one",
    "A session without a refresh token is refreshed with the refresh token of another session.", '''
a = OP("https://a.example.com")
net = Net(a)
h = handler(net, {a.iss: conf(a)})
b1, r1 = login(h, a)
h.refresh_access_token(b1["state"])
a.refresh = False
b2, r2 = login(h, a)
net.log.clear()
try:
    h.refresh_access_token(b2["state"])
except Exception:
    pass
done(not [x for x in net.sent("/token") if "refresh_token" in x[2]], "no other session's refresh token is sent")
''')
