From 0178c3cab907eb3f52eebf63d7c4258413e6c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 01/38] fix: clients created from one configuration share no
 mutable state

---
 src/oidcrp/rp_handler.py      | 4 +++-
 src/oidcrp/service_context.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6d42ced..53af702 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1,3 +1,4 @@
+import copy
 from inspect import currentframe
 import logging
 import sys
@@ -158,7 +159,8 @@ class RPHandler(object):
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
-            _cnf = self.pick_config('')
+            # The default configuration is shared between issuers
+            _cnf = copy.copy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
         try:
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index f68f81c..69677e0 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -147,7 +147,8 @@ class ServiceContext(OidcContext):
         # Dynamic information
         for param in ['client_secret', 'client_id', 'redirect_uris', 'provider_info',
                       'behaviour', 'callback', 'issuer']:
-            _val = config.get(param, _def_value[param])
+            # The configuration may be used by more than one client
+            _val = copy.deepcopy(config.get(param, _def_value[param]))
             self.set(param, _val)
             if param == 'client_secret' and _val:
                 self.keyjar.add_symmetric('', _val)
-- 
2.43.0


From 197a4bc1379b1f326472c1a733d6ebaa60b3bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 02/38] fix: init_services does not write into the shared
 service definitions

---
 src/oidcrp/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c4726a5..a759043 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -623,7 +623,8 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     service = DLDict()
     for service_name, service_configuration in service_definitions.items():
         try:
-            kwargs = service_configuration['kwargs']
+            # the service definitions may be used by more than one client
+            kwargs = dict(service_configuration['kwargs'])
         except KeyError:
             kwargs = {}
 
-- 
2.43.0


From c90343b6dcc702302a35175b8169f176f365febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 03/38] fix: an authorization request does not modify the
 configured scope and claims

---
 src/oidcrp/oidc/authorization.py | 3 ++-
 src/oidcrp/rp_handler.py         | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 5845640..56cc255 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -96,7 +96,8 @@ class Authorization(authorization.Authorization):
         if 'scope' not in request_args:
             request_args['scope'] = _context.behaviour.get("scope", ["openid"])
         elif 'openid' not in request_args['scope']:
-            request_args['scope'].append('openid')
+            # don't modify a list that may belong to the configuration
+            request_args['scope'] = list(request_args['scope']) + ['openid']
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 53af702..51d55bb 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -401,6 +401,7 @@ class RPHandler(object):
 
         _req_args = _context.config.get("request_args")
         if _req_args:
+            _req_args = dict(_req_args)
             if 'claims' in _req_args:
                 _req_args["claims"] = Claims(**_req_args["claims"])
             request_args.update(_req_args)
-- 
2.43.0


From b3f98a413541501d7abaec3ebb9a24a49879b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 04/38] fix: random strings come from the operating system's
 entropy

---
 src/oidcrp/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 17e0d51..92297f7 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -18,11 +18,8 @@ from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
 
-# Since SystemRandom is not available on all systems
-try:
-    import SystemRandom as rnd
-except ImportError:
-    import random as rnd
+# The values created here must not be predictable
+from random import SystemRandom
 
 from oidcrp.defaults import BASECHR
 from oidcrp.exception import ConfigurationError
@@ -30,6 +27,8 @@ from oidcrp.exception import OidcServiceError
 from oidcrp.exception import TimeFormatError
 from oidcrp.exception import WrongContentType
 
+rnd = SystemRandom()
+
 URL_ENCODED = 'application/x-www-form-urlencoded'
 JSON_ENCODED = "application/json"
 JOSE_ENCODED = "application/jose"
-- 
2.43.0


From 8167b9c1d12deea604f842dde3f97b9b04314ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 05/38] fix: an authorization request does not modify a scope
 given as string either

---
 src/oidcrp/oidc/authorization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 56cc255..5362efc 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -97,7 +97,10 @@ class Authorization(authorization.Authorization):
             request_args['scope'] = _context.behaviour.get("scope", ["openid"])
         elif 'openid' not in request_args['scope']:
             # don't modify a list that may belong to the configuration
-            request_args['scope'] = list(request_args['scope']) + ['openid']
+            _scope = request_args['scope']
+            if isinstance(_scope, str):
+                _scope = _scope.split()
+            request_args['scope'] = list(_scope) + ['openid']
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-- 
2.43.0


From a793909fad1b01e38b3e90cd4c56b5335651da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 06/38] fix: response type 'code id_token' gets an
 implicit-flow callback

---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 06a3ea9..5611238 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -125,7 +125,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code idtoken",
+        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
-- 
2.43.0


From 00f1185dcb410c708214fb7aa8038b6451063824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 07/38] fix: get_user_info without an access token uses the
 session's own

---
 src/oidcrp/rp_handler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 51d55bb..35587b6 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -593,13 +593,14 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        if not access_token:
-            _arg = client.client_get("service_context").state.multiple_extend_request_args(
+        if access_token:
+            request_args = {'access_token': access_token}
+        else:
+            # the access token last received in this session
+            request_args = client.client_get("service_context").state.multiple_extend_request_args(
                 {}, state, ['access_token'],
                 ['auth_response', 'token_response', 'refresh_token_response'])
 
-        request_args = {'access_token': access_token}
-
         resp = client.do_request('userinfo', state=state,
                                  request_args=request_args, **kwargs)
         if is_error_message(resp):
-- 
2.43.0


From 4285528d9aec04bbd71fba4bd46ceb972de3d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 08/38] fix: a refresh keeps the refresh token and ID Token it
 does not replace

---
 .../cc_refresh_access_token.py                |  3 +-
 src/oidcrp/oauth2/refresh_access_token.py     | 29 ++++++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 13468a4..220c2bb 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -2,6 +2,7 @@ from oidcmsg import oauth2
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
+from oidcrp.oauth2.refresh_access_token import store_refreshed_tokens
 from oidcrp.service import Service
 
 
@@ -52,4 +53,4 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        store_refreshed_tokens(self.client_get("service_context").state, resp, key)
diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4b5efa6..207fe7c 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -2,7 +2,9 @@
 import logging
 
 from oidcmsg import oauth2
+from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
+from oidcmsg.oidc import verified_claim_name
 from oidcmsg.time_util import time_sans_frac
 
 from oidcrp.oauth2.utils import get_state_parameter
@@ -11,6 +13,31 @@ from oidcrp.service import Service
 LOGGER = logging.getLogger(__name__)
 
 
+def store_refreshed_tokens(state, resp, key):
+    """
+    Store the response to a refresh request. What the response does not replace,
+    like the refresh token or the ID Token, stays in force.
+
+    :param state: A :py:class:`oidcrp.state_interface.StateInterface` instance
+    :param resp: The response
+    :param key: The session key
+    """
+    _item = Message(**resp.to_dict())
+    _keep = ['refresh_token']
+    if 'id_token' not in _item:
+        _keep.extend(['id_token', verified_claim_name('id_token')])
+    try:
+        _previous = state.multiple_extend_request_args({}, key, _keep, ['token_response'],
+                                                       orig=True)
+    except KeyError:  # nothing there
+        _previous = {}
+    for attr, val in _previous.items():
+        if attr not in _item:
+            _item[attr] = val
+
+    state.store_item(_item, 'token_response', key)
+
+
 class RefreshAccessToken(Service):
     """The service that talks to the OAuth2 refresh access token endpoint."""
     msg_type = oauth2.RefreshAccessTokenRequest
@@ -30,7 +57,7 @@ class RefreshAccessToken(Service):
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        store_refreshed_tokens(self.client_get("service_context").state, resp, key)
 
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
-- 
2.43.0


From 9f3e5f888f7825c53b9b04594571351b5bb1f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 09/38] fix: a refreshed ID Token is verified like the first
 and names the same subject

---
 src/oidcrp/oidc/refresh_access_token.py | 50 +++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index d6af5a3..c268d17 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -1,6 +1,12 @@
+from typing import Optional
+from typing import Union
+
 from oidcmsg import oidc
+from oidcmsg.message import Message
+from oidcmsg.oidc import verified_claim_name
 
 from oidcrp.oauth2 import refresh_access_token
+from oidcrp.oidc import IDT2REG
 
 
 class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
@@ -8,6 +14,50 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     response_cls = oidc.AccessTokenResponse
     error_msg = oidc.ResponseMessage
 
+    def gather_verify_arguments(self,
+                                response: Optional[Union[dict, Message]] = None,
+                                behaviour_args: Optional[dict] = None):
+        """
+        An ID Token in a refresh response is verified as the one in the token response was.
+
+        :return: dictionary with arguments to the verify call
+        """
+        _context = self.client_get("service_context")
+        kwargs = refresh_access_token.RefreshAccessToken.gather_verify_arguments(
+            self, response, behaviour_args)
+        kwargs['skew'] = _context.clock_skew
+
+        _reg_resp = _context.registration_response
+        if _reg_resp:
+            for attr, param in IDT2REG.items():
+                try:
+                    kwargs[attr] = _reg_resp[param]
+                except KeyError:
+                    pass
+
+        try:
+            kwargs['allow_missing_kid'] = _context.allow['missing_kid']
+        except KeyError:
+            pass
+
+        _verify_args = _context.behaviour.get("verify_args")
+        if _verify_args:
+            kwargs.update(_verify_args)
+
+        return kwargs
+
+    def update_service_context(self, resp, key='', **kwargs):
+        _idt = resp.get(verified_claim_name('id_token'))
+        if _idt:
+            # OIDC Core section 12.2: still the same subject
+            _args = self.client_get("service_context").state.multiple_extend_request_args(
+                {}, key, ['id_token'], ['auth_response', 'token_response'])
+            if 'id_token' in _args and _args['id_token']['sub'] != _idt['sub']:
+                raise ValueError('Incorrect "sub" value')
+
+        refresh_access_token.RefreshAccessToken.update_service_context(self, resp, key=key,
+                                                                       **kwargs)
+
     def get_authn_method(self):
         try:
             return self.client_get("service_context").behaviour['token_endpoint_auth_method']
-- 
2.43.0


From 38c527fbf87eeeecd14999de66f03d1c4cccb130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 10/38] fix: removing a session removes all its references and
 no one else's

---
 src/oidcrp/state_interface.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index bfc7100..c7fb3aa 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -249,10 +249,16 @@ class StateInterface(ImpExp):
             _val = None
 
         if _val is None:
-            refs = {xtyp: value}
+            refs = {}
         else:
             refs = json.loads(_val)
-            refs[xtyp] = value
+
+        # there may be more than one value of each type
+        _values = refs.get(xtyp, [])
+        if not isinstance(_values, list):
+            _values = [_values]
+        if value not in _values:
+            refs[xtyp] = _values + [value]
         self._db["ref{}ref".format(state)] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
@@ -382,7 +388,15 @@ class StateInterface(ImpExp):
         :param state: Key to the state
         """
         del self._db[state]
-        refs = json.loads(self._db.get("ref{}ref".format(state)))
-        if refs:
-            for xtyp, _val in refs.items():
-                del self._db[KEY_PATTERN[xtyp].format(_val)]
+        _ref_key = "ref{}ref".format(state)
+        _refs = self._db.get(_ref_key)
+        if _refs:
+            for xtyp, _values in json.loads(_refs).items():
+                if not isinstance(_values, list):
+                    _values = [_values]
+                for _val in _values:
+                    _key = KEY_PATTERN[xtyp].format(_val)
+                    # it may by now be bound to another session
+                    if self._db.get(_key) == state:
+                        del self._db[_key]
+            del self._db[_ref_key]
-- 
2.43.0


From 8de803c65839828a0e990ddf957c7d319483c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 11/38] fix: a back-channel logout with a sid concerns the
 session the sid denotes

---
 src/oidcrp/rp_handler.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 35587b6..76334b2 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -794,16 +794,8 @@ class RPHandler(object):
         logger.debug("UserInfo: %s", inforesp)
 
         _context = client.client_get("service_context")
-        try:
-            _sid_support = _context.get('provider_info')['backchannel_logout_session_supported']
-        except KeyError:
-            try:
-                _sid_support = _context.get('provider_info')[
-                    'frontchannel_logout_session_supported']
-            except:
-                _sid_support = False
-
-        if _sid_support and _id_token:
+        if _id_token:
+            # a logout token may name the sid whatever the provider info says
             try:
                 sid = _id_token['sid']
             except KeyError:
@@ -975,16 +967,16 @@ def backchannel_logout(client, request='', request_args=None):
     else:
         logger.debug("Request verified OK")
 
-    # Find the subject through 'sid' or 'sub'
-    sub = req[verified_claim_name('logout_token')].get('sub')
-    sid = None
-    if not sub:
-        sid = req[verified_claim_name('logout_token')].get('sid')
+    # Find the session through 'sid', which denotes one session, or 'sub'
+    sid = req[verified_claim_name('logout_token')].get('sid')
+    sub = None
+    if not sid:
+        sub = req[verified_claim_name('logout_token')].get('sub')
 
     if not sub and not sid:
         raise MessageException('Neither "sid" nor "sub"')
-    elif sub:
-        _state = _context.state.get_state_by_sub(sub)
     elif sid:
         _state = _context.state.get_state_by_sid(sid)
+    elif sub:
+        _state = _context.state.get_state_by_sub(sub)
     return _state
-- 
2.43.0


From 0cd15b6ac01b02fa716da8efd7046c033ef568f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 12/38] fix: DPoP support does not break providers without DPoP
 metadata

---
 src/oidcrp/oauth2/add_on/dpop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 13981e1..f125007 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -102,7 +102,7 @@ def dpop_header(service_context: ServiceContext,
     dpop_key = service_context.add_on['dpop'].get('key')
 
     if not dpop_key:
-        algs_supported = provider_info["dpop_signing_alg_values_supported"]
+        algs_supported = provider_info.get("dpop_signing_alg_values_supported")
         if not algs_supported:  # does not support DPoP
             return headers
 
-- 
2.43.0


From aab4ef226ceab763b13dd405752efc8bdbfe00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 13/38] fix: the DPoP key can be dumped and is the same for
 concurrent requests

---
 src/oidcrp/oauth2/add_on/dpop.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index f125007..2044e33 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -115,10 +115,12 @@ def dpop_header(service_context: ServiceContext,
         if not chosen_alg:
             return headers
 
-        # Mint a new key
-        dpop_key = key_by_alg(chosen_alg)
-        service_context.add_on['dpop']['key'] = dpop_key
+        # Mint a new key. Kept as a JWK since the context must be possible to dump.
         service_context.add_on['dpop']['alg'] = chosen_alg
+        dpop_key = service_context.add_on['dpop'].setdefault(
+            'key', key_by_alg(chosen_alg).serialize(private=True))
+
+    dpop_key = key_from_jwk_dict(dpop_key)
 
     header_dict = {
         "typ": "dpop+jwt",
-- 
2.43.0


From 1170287c08f3c6aa863982cf201548e97eadb0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 14/38] fix: a context with pushed authorization support can be
 dumped

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 4fd1058..f89d87c 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -33,7 +33,8 @@ def push_authorization(request_args, service, **kwargs):
         _body = _msg.to_urlencoded()
 
     # Send it to the Pushed Authorization Request Endpoint
-    resp = method_args["http_client"].get(
+    http_client = getattr(service, "pushed_authorization_client", None) or requests
+    resp = http_client.get(
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body
     )
 
@@ -60,15 +61,13 @@ def add_support(services, body_format="jws", signing_algorithm="RS256",
     :param body_format: jws or urlencoded
     """
 
-    if http_client is None:
-        http_client = requests
-
     _service = services["authorization"]
     _service.client_get("service_context").add_on['pushed_authorization'] = {
         "body_format": body_format,
         "signing_algorithm": signing_algorithm,
-        "http_client": http_client,
         "merge_rule": merge_rule
     }
+    # not part of the context since it can not be dumped
+    _service.pushed_authorization_client = http_client
 
     _service.post_construct.append(push_authorization)
-- 
2.43.0


From 67b594220551dcf71642bb20c98fb23c9f949d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 15/38] fix: a context with dynamic provider info or
 registration can be dumped as JSON

---
 src/oidcrp/service_context.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 69677e0..28218e7 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -10,6 +10,7 @@ from cryptojwt.jwk.rsa import RSAKey, import_private_rsa_key_from_file
 from cryptojwt.key_bundle import KeyBundle
 from cryptojwt.utils import as_bytes
 from oidcmsg.context import OidcContext
+from oidcmsg.message import Message
 from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.util import rndstr
 
@@ -192,6 +193,15 @@ class ServiceContext(OidcContext):
         if _key_conf:
             self.import_keys(_key_conf)
 
+    def dump_attr(self, cls, item, exclude_attributes=None):
+        """
+        What is kept as it was received, for instance the provider info, must still be
+        possible to express in JSON.
+        """
+        if cls is None and isinstance(item, Message):
+            return item.to_dict()
+        return OidcContext.dump_attr(self, cls, item, exclude_attributes)
+
     def __setitem__(self, key, value):
         setattr(self, key, value)
 
-- 
2.43.0


From 8a44d4ffd2ea5365291b28b59ff4199ef575ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 16/38] fix: a provider that is set up is reused under whatever
 name, keeping its ongoing logins

---
 src/oidcrp/rp_handler.py | 71 +++++++++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 76334b2..06a7dd6 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -111,7 +111,7 @@ class RPHandler(object):
         :param state: The state value
         :return: An Issuer ID
         """
-        for _rp in self.issuer2rp.values():
+        for _rp in list(self.issuer2rp.values()):
             try:
                 _iss = _rp.client_get("service_context").state.get_iss(state)
             except KeyError:
@@ -156,9 +156,11 @@ class RPHandler(object):
 
         logger.debug(20 * "*" + " init_client " + 20 * "*")
 
+        _config_id = issuer
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
+            _config_id = ''
             # The default configuration is shared between issuers
             _cnf = copy.copy(self.pick_config(''))
             _cnf['issuer'] = issuer
@@ -186,6 +188,8 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        # The configuration the client was created from
+        client.config_id = _config_id
         return client
 
     def do_provider_info(self,
@@ -332,29 +336,74 @@ class RPHandler(object):
 
             logger.debug("Connecting to previously unknown OP")
             temporary_client = self.do_webfinger(user)
+            issuer = temporary_client.client_get("service_context").get('issuer')
         else:
             temporary_client = None
+            issuer = iss_id
 
-        try:
-            client = self.issuer2rp[iss_id]
-        except KeyError:
-            if temporary_client:
-                client = temporary_client
-            else:
-                logger.debug("Creating new client: %s", iss_id)
-                client = self.init_client(iss_id)
-        else:
+        client = self._find_client(issuer, iss_id)
+        if client is not None:
             return client
 
+        if temporary_client:
+            client = temporary_client
+        else:
+            logger.debug("Creating new client: %s", iss_id)
+            client = self.init_client(iss_id)
+
         logger.debug("Get provider info")
         issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
 
+        # The OP/AS may already be in use under another name
+        _bound = self._bound_client(issuer, iss_id)
+        if _bound is not None:
+            self.hash2issuer[iss_id] = issuer
+            return _bound
+
         logger.debug("Do client registration")
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-        self.issuer2rp[issuer] = client
+        # If someone else got here first then there may be ongoing sessions
+        if self.issuer2rp.setdefault(issuer, client) is not client:
+            _bound = self._bound_client(issuer, iss_id)
+            if _bound is not None:
+                return _bound
+            self.issuer2rp[issuer] = client
+        return client
+
+    def _bound_client(self, issuer: str, iss_id: str) -> Optional[Client]:
+        """
+        The client that is bound to an issuer unless it was created from another
+        configuration than the one that should be used.
+
+        :param issuer: The Issuer ID
+        :param iss_id: What the issuer was called in the call to client_setup
+        :return: A Client instance or None
+        """
+        client = self.issuer2rp.get(issuer)
+        if client is not None and iss_id in self.client_configs:
+            _config_id = getattr(client, 'config_id', '')
+            if iss_id and _config_id and _config_id != iss_id:
+                return None
         return client
 
+    def _find_client(self, issuer: str, iss_id: str) -> Optional[Client]:
+        """
+        Find a client that is already set up. The issuer can be known by its ID, with or
+        without trailing slash, or the name of its configuration.
+        """
+        if issuer.endswith('/'):
+            _variant = issuer[:-1]
+        else:
+            _variant = issuer + '/'
+
+        for _iss in [issuer, self.hash2issuer.get(issuer), _variant]:
+            if _iss:
+                client = self._bound_client(_iss, iss_id)
+                if client is not None:
+                    return client
+        return None
+
     def _get_response_type(self, context, req_args: Optional[dict] = None):
         if req_args:
             return req_args.get("response_type", context.get('behaviour')['response_types'][0])
-- 
2.43.0


From 845dfabbd4b3ec4ca23169912a4fdc7d09fd1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 17/38] fix: a login that yields neither ID Token nor user info
 can be completed

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 06a7dd6..3a2183a 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -854,7 +854,7 @@ class RPHandler(object):
 
         if _id_token:
             _context.state.store_sub2state(_id_token['sub'], _state)
-        else:
+        elif 'sub' in inforesp:
             _context.state.store_sub2state(inforesp['sub'], _state)
 
         return {
-- 
2.43.0


From 1a2ecc2c8440d624cb4cf404d2fe42d7d5a65a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 18/38] fix: logout without an end_session service says so

---
 src/oidcrp/rp_handler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 3a2183a..ea0e3eb 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -949,9 +949,8 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        try:
-            srv = client.client_get('service', 'end_session')
-        except KeyError:
+        srv = client.client_get('service', 'end_session')
+        if srv is None:
             raise OidcServiceError("Does not know how to logout")
 
         if post_logout_redirect_uri:
-- 
2.43.0


From fe37394713684a2e7252b3a88b3c6a8b64d43681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 19/38] fix: client assertions use an advertised algorithm that
 fits the authentication method

---
 src/oidcrp/client_auth.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 2a480bb..5f195ba 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -448,6 +448,15 @@ class JWSAuthnMethod(ClientAuthnMethod):
 
         return signing_key
 
+    @staticmethod
+    def usable_algorithm(algorithm):
+        """
+        Whether an algorithm fits this authentication method
+
+        :param algorithm: Name of a signing algorithm
+        """
+        return algorithm.lower() != "none"
+
     def _get_audience_and_algorithm(self, context, **kwargs):
         algorithm = None
 
@@ -456,8 +465,8 @@ class JWSAuthnMethod(ClientAuthnMethod):
         if 'authn_endpoint' in kwargs and kwargs['authn_endpoint'] in ['token_endpoint']:
             reg_resp = context.registration_response
             if reg_resp:
-                algorithm = reg_resp["token_endpoint_auth_signing_alg"]
-            else:
+                algorithm = reg_resp.get("token_endpoint_auth_signing_alg")
+            if algorithm is None:
                 algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
                 if algorithm is None:
                     _pi = context.provider_info
@@ -466,6 +475,8 @@ class JWSAuthnMethod(ClientAuthnMethod):
                     except KeyError:
                         algorithm = "RS256"  # default
                     else:
+                        # those that fit the authentication method first
+                        algs = sorted(algs, key=lambda a: not self.usable_algorithm(a))
                         for alg in algs:  # pick the first one I support and have keys for
                             if alg in SIGNER_ALGS and self.get_signing_key_from_keyjar(alg,
                                                                                        context):
@@ -561,6 +572,10 @@ class ClientSecretJWT(JWSAuthnMethod):
     bytes of the UTF-8 representation of the client_secret as the shared key.
     """
 
+    @staticmethod
+    def usable_algorithm(algorithm):
+        return algorithm.startswith("HS")
+
     def choose_algorithm(self, context="client_secret_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
@@ -573,6 +588,10 @@ class PrivateKeyJWT(JWSAuthnMethod):
     Clients that have registered a public key can sign a JWT using that key.
     """
 
+    @staticmethod
+    def usable_algorithm(algorithm):
+        return algorithm.lower() != "none" and not algorithm.startswith("HS")
+
     def choose_algorithm(self, context="private_key_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
-- 
2.43.0


From 9432cb2eaef091bc03d89c6962bb385d68bca129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 20/38] fix: HTTP Basic credentials use the standard base64
 alphabet

---
 src/oidcrp/client_auth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 5f195ba..8661393 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -118,7 +118,8 @@ class ClientSecretBasic(ClientAuthnMethod):
         user = self._get_user(service, **kwargs)
 
         credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
-        return base64.urlsafe_b64encode(credentials.encode("utf-8")).decode("utf-8")
+        # RFC 7617 prescribes the standard alphabet
+        return base64.b64encode(credentials.encode("utf-8")).decode("utf-8")
 
     @staticmethod
     def _with_or_without_client_id(request, service):
-- 
2.43.0


From 1c65aafcf0a86dcf90c97e911b71d217dfe7c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 21/38] fix: a configured client secret can be used as a key

---
 src/oidcrp/rp_handler.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index ea0e3eb..bb02903 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -404,6 +404,22 @@ class RPHandler(object):
                     return client
         return None
 
+    @staticmethod
+    def _bind_client_secret(context):
+        """
+        A client secret is also a key. The one a dynamic registration returned is already among
+        the client's keys, the one that is in the configuration may not be.
+        """
+        _secret = context.get('client_secret')
+        if not _secret:
+            return
+
+        for _key in context.keyjar.get('sig', 'oct', ''):
+            if _key.key == as_bytes(_secret):
+                return
+
+        context.keyjar.add_symmetric('', _secret)
+
     def _get_response_type(self, context, req_args: Optional[dict] = None):
         if req_args:
             return req_args.get("response_type", context.get('behaviour')['response_types'][0])
@@ -436,6 +452,7 @@ class RPHandler(object):
                 raise ValueError('Missing state/session key')
 
         _context = client.client_get("service_context")
+        self._bind_client_secret(_context)
 
         _nonce = rndstr(24)
         _response_type = self._get_response_type(_context, req_args)
-- 
2.43.0


From cbc158de7b2ed994eb14d072072ef4eab3204991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 22/38] fix: pushed authorization with the strict merge rule
 yields a request

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index f89d87c..9a08f09 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -44,6 +44,10 @@ def push_authorization(request_args, service, **kwargs):
         if method_args["merge_rule"] == "lax":
             for param in request_args.required_parameters():
                 _req[param] = request_args.get(param)
+        else:
+            # Everything but who the client is are in what was pushed (RFC 9126, section 4)
+            _req["client_id"] = _context.client_id
+            _req.lax = True
         request_args = _req
 
     return request_args
-- 
2.43.0


From de5015dbb7a2f5f2c6b2588fa7c0254a010cb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 23/38] fix: the response to a pushed authorization request can
 be a 201

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 9a08f09..9df9ce2 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -38,7 +38,7 @@ def push_authorization(request_args, service, **kwargs):
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body
     )
 
-    if resp.status_code == 200:
+    if resp.status_code in [200, 201]:
         _resp = Message().from_json(resp.text)
         _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
         if method_args["merge_rule"] == "lax":
-- 
2.43.0


From 17daacad360152e0ca42c09a5747ebac0aff2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 24/38] fix: logout tokens are verified with the configured
 algorithm and clock skew

---
 src/oidcrp/rp_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index bb02903..79f7ce9 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1020,8 +1020,11 @@ def backchannel_logout(client, request='', request_args=None):
         'aud': client.get_client_id(),
         'iss': _context.get('issuer'),
         'keyjar': _context.keyjar,
+        'skew': _context.clock_skew,
         'allowed_sign_alg': _context.get('registration_response').get(
-            "id_token_signed_response_alg", "RS256")
+            "id_token_signed_response_alg",
+            # A client that is not dynamically registered has it configured
+            _context.get('behaviour').get("id_token_signed_response_alg", "RS256"))
     }
 
     logger.debug(f"(backchannel_logout) Verifying request using: {kwargs}")
-- 
2.43.0


From da88c29803d3d77132daa62490852268ec00c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 25/38] fix: a redirect is not a successful response from a
 back-channel endpoint

---
 src/oidcrp/oauth2/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 2ee8fa3..67839cb 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -176,6 +176,13 @@ class Client(Entity):
             response = self.get_response(service, url, method, body, response_body_type, headers,
                                          **kwargs)
 
+        if isinstance(response, dict) and 'http_response' in response:
+            # A redirect is no answer when the response is to be in the HTTP body
+            if service.synchronous and response_body_type != 'html':
+                _resp = response['http_response']
+                raise OidcServiceError("HTTP ERROR: unexpected redirect [%s] on %s" % (
+                    _resp.status_code, _resp.url))
+
         if 'error' in response:
             pass
         else:
-- 
2.43.0


From 5357d89a6ee536211b7f348df3f41cf22d21b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 26/38] fix: an HTTP error response without an error message is
 still an error

---
 src/oidcrp/oauth2/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 67839cb..4c4236d 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -267,6 +267,10 @@ class Client(Entity):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {'error': reqresp.text}
 
+            if not is_error_message(err_resp):
+                raise OidcServiceError("HTTP ERROR: %s [%s] on %s" % (
+                    reqresp.text, reqresp.status_code, reqresp.url))
+
             err_resp['status_code'] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From 7befe9fbc094a6f72dfc686ac5f3f4ba24727845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 27/38] fix: unsigned aggregated claims are not the claims
 provider's word (C20)

---
 src/oidcrp/oidc/userinfo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6c93b80..6b81e78 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -91,6 +91,12 @@ class UserInfo(Service):
                             'Error encountered while unpacking aggregated '
                             'claims'.format(err))
                     else:
+                        # Whatever isn't signed isn't the claims provider's word
+                        _header = aggregated_claims.jws_header or {}
+                        if _header.get('alg', 'none') == 'none':
+                            logger.warning('Unsigned aggregated claims ignored')
+                            continue
+
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
                                   src == csrc]
-- 
2.43.0


From 366a18385272e5d95985242b3394032817694f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 28/38] fix: a cookie whose load contains the separator can be
 read back (C21)

---
 src/oidcrp/cookie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 7ece2ef..1964e46 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -226,7 +226,12 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-    elif len(parts) == 3:
+
+    if not enc_key and len(parts) > 3:
+        # the load itself may contain the separator
+        parts = ["|".join(parts[:-2])] + parts[-2:]
+
+    if len(parts) == 3:
         # verify the cookie signature
         cleartext, timestamp, sig = parts
         if not verify_cookie_signature(sig, seed, cleartext, timestamp):
-- 
2.43.0


From 7b450e7e9e6583bc3f5573dec94eeb5ec55894e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 29/38] fix: a cookie value containing '::' can be read back
 (C21)

---
 src/oidcrp/cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 1964e46..5d782f0 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -391,7 +391,7 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.split("::")
+                value, _ts, typ = info.rsplit("::", 2)
                 if timestamp == _ts:
                     return value, _ts, typ
         return None
-- 
2.43.0


From 5c8f793b38cdc0820611ae7b70800d3d4766641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 30/38] fix: a cookie seed is a byte string, not necessarily
 UTF-8 (C21)

---
 src/oidcrp/cookie.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 5d782f0..12114f8 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -221,8 +221,6 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     if not kaka:
         return None
 
-    seed = as_unicode(seed)
-
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-- 
2.43.0


From 765fd6e2156f058c67f20e7c83bacb3e7557a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 31/38] fix: a tampered encrypted cookie raises
 InvalidCookieSign as documented (C21)

---
 src/oidcrp/cookie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 12114f8..9b3d022 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -7,8 +7,8 @@ import os
 import sys
 import time
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
-from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jwe.utils import split_ctx_and_tag
 from cryptojwt.utils import as_bytes
 from cryptojwt.utils import as_unicode
@@ -252,7 +252,7 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except JWEException:
+        except InvalidTag:
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
     return None
-- 
2.43.0


From 921ae98ea5d6900e94ecef2f1605f0d0508f2f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 32/38] fix: a nonce in a refreshed ID Token must be that of
 the session (C02/C09)

---
 src/oidcrp/oidc/refresh_access_token.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index c268d17..0a5f059 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -55,6 +55,13 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
             if 'id_token' in _args and _args['id_token']['sub'] != _idt['sub']:
                 raise ValueError('Incorrect "sub" value')
 
+            # a nonce isn't expected, but if there is one it's the original one
+            if 'nonce' in _idt:
+                _request = self.client_get("service_context").state.multiple_extend_request_args(
+                    {}, key, ['nonce'], ['auth_request'])
+                if _idt['nonce'] != _request.get('nonce'):
+                    raise ValueError('Invalid nonce value')
+
         refresh_access_token.RefreshAccessToken.update_service_context(self, resp, key=key,
                                                                        **kwargs)
 
-- 
2.43.0


From 1ac90af9517d3eacff79d6b126dfe449cf2331c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 33/38] fix: removing a session's references does not race with
 binding them anew (C22)

---
 src/oidcrp/state_interface.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index c7fb3aa..eb0b821 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -1,5 +1,6 @@
 """A database interface for storing state information."""
 import json
+import threading
 
 from oidcmsg.impexp import ImpExp
 from oidcmsg.message import Message
@@ -30,6 +31,10 @@ KEY_PATTERN = {
     'subject id': '=={}=='
 }
 
+# Whether a reference still denotes a session and removing it is one step: another thread may
+# bind the same subject to its session.
+REF_LOCK = threading.Lock()
+
 
 class InMemoryStateDataBase:
     """The simplest possible implementation of the state database."""
@@ -242,7 +247,8 @@ class StateInterface(ImpExp):
         :param state: The state value
         :param xtyp: The type of value x is (e.g. nonce, ...)
         """
-        self._db[KEY_PATTERN[xtyp].format(value)] = state
+        with REF_LOCK:
+            self._db[KEY_PATTERN[xtyp].format(value)] = state
         try:
             _val = self._db.get("ref{}ref".format(state))
         except KeyError:
@@ -397,6 +403,7 @@ class StateInterface(ImpExp):
                 for _val in _values:
                     _key = KEY_PATTERN[xtyp].format(_val)
                     # it may by now be bound to another session
-                    if self._db.get(_key) == state:
-                        del self._db[_key]
+                    with REF_LOCK:
+                        if self._db.get(_key) == state:
+                            del self._db[_key]
             del self._db[_ref_key]
-- 
2.43.0


From 54033d5f3600b48b3b0bf1a40124c067604c6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 34/38] fix: a claims source does not decide the subject of the
 user info (C20, C03)

---
 src/oidcrp/oidc/__init__.py | 4 +++-
 src/oidcrp/oidc/userinfo.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/__init__.py b/src/oidcrp/oidc/__init__.py
index df9db5e..e990ca4 100755
--- a/src/oidcrp/oidc/__init__.py
+++ b/src/oidcrp/oidc/__init__.py
@@ -163,8 +163,10 @@ class RP(oauth2.Client):
                             'HTTP error {}: {}'.format(_resp.status_code,
                                                        _resp.reason))
 
+                    # who the user is, is for the OP alone to say
                     claims = [value for value, src in
-                              userinfo["_claim_names"].items() if src == csrc]
+                              userinfo["_claim_names"].items()
+                              if src == csrc and value != 'sub']
 
                     if set(claims) != set(_uinfo.keys()):
                         logger.warning(
diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6b81e78..5915e3c 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -97,9 +97,10 @@ class UserInfo(Service):
                             logger.warning('Unsigned aggregated claims ignored')
                             continue
 
+                        # who the user is, is for the OP alone to say
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
-                                  src == csrc]
+                                  src == csrc and value != 'sub']
 
                         for key in claims:
                             response[key] = aggregated_claims[key]
-- 
2.43.0


From 43c25f90b6be4fc89c369dde7fed783d77123b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 35/38] fix: use the values the provider registered, not those
 asked for

---
 src/oidcrp/oidc/registration.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 5611238..15b50c2 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -266,10 +266,21 @@ class Registration(Service):
         return request_args
 
     def update_service_context(self, resp, key='', **kwargs):
+        _context = self.client_get("service_context")
+        # The provider may register other values than the ones asked for
+        for attr, val in list(_context.behaviour.items()):
+            if attr not in resp:
+                continue
+            if isinstance(val, list):
+                _common = [v for v in val if v in resp[attr]]
+                if _common:
+                    _context.behaviour[attr] = _common
+            elif attr not in resp.c_default:
+                _context.behaviour[attr] = resp[attr]
+
         if "token_endpoint_auth_method" not in resp:
             resp["token_endpoint_auth_method"] = "client_secret_basic"
 
-        _context = self.client_get("service_context")
         _context.registration_response = resp
         _client_id = resp.get("client_id")
         if _client_id:
-- 
2.43.0


From 2b353a6e623d8ecc12f324430bd2547cb3b9223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 36/38] fix: pick the redirect URI for the request that is sent
 (C19)

The response type and response mode set in a client's configured
request_args were not looked at when the redirect URI was chosen, so the
authorization response went to a URI of another kind.
---
 src/oidcrp/rp_handler.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 79f7ce9..51118bb 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -455,25 +455,24 @@ class RPHandler(object):
         self._bind_client_secret(_context)
 
         _nonce = rndstr(24)
-        _response_type = self._get_response_type(_context, req_args)
+
+        # The configured arguments and, before those, the ones of this call
+        _args = dict(_context.config.get("request_args") or {})
+        if 'claims' in _args:
+            _args["claims"] = Claims(**_args["claims"])
+        if req_args is not None:
+            _args.update(req_args)
+
+        _response_type = self._get_response_type(_context, _args)
         request_args = {
             'redirect_uri': pick_redirect_uri(_context,
-                                              request_args=req_args,
+                                              request_args=_args,
                                               response_type=_response_type),
             'scope': _context.get('behaviour')['scope'],
             'response_type': _response_type,
             'nonce': _nonce
         }
-
-        _req_args = _context.config.get("request_args")
-        if _req_args:
-            _req_args = dict(_req_args)
-            if 'claims' in _req_args:
-                _req_args["claims"] = Claims(**_req_args["claims"])
-            request_args.update(_req_args)
-
-        if req_args is not None:
-            request_args.update(req_args)
+        request_args.update(_args)
 
         # Need a new state for a new authorization request
         _state = _context.state.create_state(_context.get('issuer'))
-- 
2.43.0


From 908c9c4cc4f1f3568254cf008982f2f15dda33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:28 +0000
Subject: [PATCH 37/38] fix: a logout token may lack a key ID when ID Tokens
 may (C10)

---
 src/oidcrp/rp_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 51118bb..9956809 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1025,6 +1025,11 @@ def backchannel_logout(client, request='', request_args=None):
             # A client that is not dynamically registered has it configured
             _context.get('behaviour').get("id_token_signed_response_alg", "RS256"))
     }
+    try:
+        # As for ID Tokens
+        kwargs['allow_missing_kid'] = _context.allow['missing_kid']
+    except KeyError:
+        pass
 
     logger.debug(f"(backchannel_logout) Verifying request using: {kwargs}")
     try:
-- 
2.43.0


From 1f079306c6eed79f1a812ce7bfab51bb501d4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:36 +0000
Subject: [PATCH 38/38] fix: a user whose WebFinger lookup fails is not sent to
 someone else's provider (C13)

---
 src/oidcrp/rp_handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 9956809..75123e2 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -392,6 +392,10 @@ class RPHandler(object):
         Find a client that is already set up. The issuer can be known by its ID, with or
         without trailing slash, or the name of its configuration.
         """
+        if not issuer:
+            # WebFinger didn't find any
+            return None
+
         if issuer.endswith('/'):
             _variant = issuer[:-1]
         else:
-- 
2.43.0

