import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,observe,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe],hook_needed=None)))
R='src/oidcrp/'
p('C01','A login response only completes the login and issuer it belongs to',
 "RPHandler.finalize(issuer, response) completes a login only if response['state'] was returned by begin() for that same issuer on this RP and that session has not been removed; a response carrying another issuer's state, an unknown or missing state, or a contradicting 'iss'/'client_id' parameter is refused (an exception or an error result, never a completed login). A refused response sends nothing of what it carried (code, token) to any provider and changes nothing in the session whose state it named, which can still be completed by its own response.",
 ['schedules','fault_sequences','histories'],'all orders in which genuine, duplicated, delayed, cross-issuer (mix-up) and forged authorization responses reach the callbacks of all sessions of all OPs',
 'Tests deliver one well-formed response per login, in order; mix-up needs several OPs, several open sessions and an attacker choosing what to deliver where and when.',
 [R+'rp_handler.py',R+'state_interface.py',R+'oidc/authorization.py',R+'oauth2/authorization.py'],
 [('State.iss','issuer a session was started with','state_interface.StateInterface.create_state'),('auth_response','accepted authorization response of a session','rp_handler.finalize_auth')],
 [('issuer of the state compared with the issuer the response came from','rp_handler.RPHandler.finalize_auth'),('iss/client_id response parameters verified','service.Service.parse_response / gather_verify_arguments')],
 'return value/exception of RPHandler.finalize, get_session_information, requests seen by the OPs')
p('C02','Only a genuine, current ID Token for this very login is accepted',
 "When finalize() reports an id_token, that token was signed by a key of the session's issuer with the algorithm registered for the client if one was (never 'none' unless explicitly allowed), names that issuer as iss and this client in aud (and azp when several audiences), was within exp/iat at the RP's clock give or take the configured clock_skew, carries the nonce of exactly this session, and in the front channel matches at_hash/c_hash of the token/code it came with. Any other ID Token makes finalize() raise and leaves the session without authentication; a genuine token within the skew is accepted.",
 ['fault_sequences','histories','schedules'],'all byzantine alterations of ID Tokens at any exchange of any login, replays of tokens from other logins/OPs, all clock offsets and jumps of RP and OP, all response types',
 'Whether a token is acceptable depends on the clocks of two parties, on which other sessions exist and on keys fetched during the run; the tests use one token minted next to the check.',
 [R+'oidc/authorization.py',R+'oidc/access_token.py',R+'rp_handler.py',R+'service.py'],
 [('nonce -> state map','which session a nonce belongs to','state_interface.StateInterface.store_nonce2state'),('__verified_id_token','claims of the verified ID Token','token_response/auth_response item')],
 [('verify arguments (iss, client_id, keyjar, skew, sigalg)','oidc.authorization.Authorization.gather_verify_arguments, oidc.access_token.AccessToken.gather_verify_arguments'),('nonce check','oidc.authorization.post_parse_response, oidc.access_token.update_service_context')],
 'return value/exception of RPHandler.finalize and has_active_authentication, against the OP ledger of minted tokens')
p('C03','UserInfo is only accepted for the subject the ID Token authenticated',
 "For a session whose login produced an ID Token, user information is returned and stored only when its sub equals the ID Token's sub and, if it comes as a signed JWT, its signature verifies with the provider's keys; otherwise finalize()/get_user_info() raise and no user_info is recorded for the session. This still holds for get_user_info() calls made after any number of token refreshes (a refreshed ID Token for another subject is refused) and after a restart from a dump.",
 ['histories','fault_sequences'],'all sequences of finalize, refresh, get_user_info, restart with userinfo responses (plain or signed) substituted at any point',
 'The check depends on what earlier responses left in the session (a refresh rewrites it); tests only do the first userinfo call with a matching sub.',
 [R+'oidc/userinfo.py',R+'rp_handler.py',R+'oauth2/refresh_access_token.py'],
 [('user_info','stored user information of the session','state_interface.State'),('__verified_id_token','subject authenticated in this session','token_response/auth_response item')],
 [('sub comparison','oidc.userinfo.UserInfo.post_parse_response')],
 'RPHandler.finalize, get_user_info, get_session_information')
p('C04','Concurrent logins never exchange tokens, claims, codes or redirect data',
 "However the logins, callbacks, token, userinfo and refresh calls of different users at the same or different providers interleave on one RPHandler, each session only ever uses and returns what its own user's provider session produced: code, redirect_uri, tokens, ID Token and user claims. An honest login that met no fault succeeds whatever the others do.",
 ['schedules','histories'],'all interleavings (at I/O and at statement granularity) of several sessions over several OPs sharing one RPHandler',
 'Unit tests are single-threaded and use one session; the shared objects (service instances, contexts, configuration, keyjars, class attributes) only clash under interleaving.',
 [R+'rp_handler.py',R+'service.py',R+'state_interface.py',R+'oauth2/__init__.py',R+'client_auth.py',R+'oauth2/access_token.py'],
 [('StateInterface._db','session items keyed by state','state_interface.StateInterface'),('Service instance','shared by all sessions of an OP','service.init_services')],
 [('all request arguments are looked up by state key','oauth2.access_token.oauth_pre_construct, state_interface.multiple_extend_request_args')],
 'requests at every OP endpoint and results of every RPHandler call, attributed to the session that made them')
p('C05','state, nonce, PKCE verifier and jti values are fresh and unguessable',
 "Every state, nonce, code_verifier, logout state, client-assertion jti and DPoP jti the library creates is new: no value recurs within or across sessions, RPHandler instances, restarts or forked worker processes, and each has at least 120 bits of entropy (length times alphabet). The values come from operating-system entropy, so re-seeding, cloning or observing the process-wide random module neither repeats nor reveals them.",
 ['histories','fault_sequences','schedules'],'all histories of begins, token requests and logouts over several workers, with forks from a common process image, restarts and global PRNG re-seeding at any point',
 'A unit test sees a handful of values from one process; repetition needs cloned or re-seeded generator state, i.e. a fork/restart history.',
 [R+'util.py',R+'oauth2/add_on/pkce.py',R+'oauth2/add_on/dpop.py',R+'client_auth.py',R+'state_interface.py'],
 [('random source','generator behind rndstr and unreserved','util.rnd')],
 [('rndstr/unreserved','util.py'),('jti','client_auth.assertion_jwt, add_on.dpop.dpop_header')],
 'authorization URLs, token requests, logout URLs and DPoP headers sent')
p('C06','PKCE ties every token request to the challenge of its own login',
 "With the PKCE add-on, each authorization request carries code_challenge and code_challenge_method, and the token request for that login carries the one code_verifier (of the configured length, unreserved characters) whose hash under that method is that challenge, whatever other logins run in between and also after a restart from a dump. The verifier never leaves the RP other than to the token endpoint of that login's provider.",
 ['schedules','histories','crash_points'],'all interleavings of several PKCE logins at one or more OPs, retries of failed token requests, restarts between begin and callback, all supported methods and lengths',
 'Tests construct one authorization and one token request back to back; a mixed-up verifier needs overlapping logins or a restart.',
 [R+'oauth2/add_on/pkce.py'],
 [('pkce item','verifier stored under the session key','add_on.pkce.add_code_challenge')],
 [('challenge','add_on.pkce.add_code_challenge'),('verifier','add_on.pkce.add_code_verifier')],
 'authorization requests and token requests received by an OP that enforces PKCE')
p('C07','Secrets, codes and tokens only travel to the endpoint they are meant for',
 "A provider's client secret, authorization codes, access, refresh and ID tokens and the PKCE verifiers used with it are only ever sent to that provider's own endpoints of the right kind (secret, code, verifier and refresh token: token endpoint; access token: userinfo; ID Token: end-session), never to another provider or host and never in the URL the browser is sent to (except id_token_hint at logout). HTTP redirects answered by back-channel endpoints are not followed with credentials.",
 ['fault_sequences','histories','schedules'],'all traffic of all runs: every URL, header and body, under redirects, errors, hostile providers, several providers and interleaved sessions',
 'It is a statement about everything sent in every history, including error and redirect paths tests do not take.',
 [R+'http.py',R+'client_auth.py',R+'oauth2/__init__.py',R+'service.py',R+'oidc/__init__.py'],
 [('HTTPLib.request_args','redirect policy','http.HTTPLib')],
 [('allow_redirects False','http.HTTPLib.__init__'),('endpoint selection','service.Service.get_endpoint'),('client authentication','client_auth.py')],
 'every outgoing request and every URL returned to the browser')
p('C08','Access tokens and authentication are reported valid exactly while they are',
 "get_valid_access_token(state) returns an access token that session actually received and that is unexpired at the RP's current clock (receipt time plus expires_in; no expires_in means no expiry), together with its expiry, and raises when the session holds none; has_active_authentication(state) is true exactly while the session's latest ID Token has exp in the future. Both answers follow the clock through any delay, forward or backward jump, refresh and restart.",
 ['histories','fault_sequences','crash_points'],'all histories of logins, refreshes, elapsed time, clock jumps and restarts, for all response types and lifetimes',
 'Needs time to pass and responses to accumulate in a session; tests ask once, immediately.',
 [R+'rp_handler.py',R+'oidc/access_token.py',R+'oidc/authorization.py',R+'oauth2/access_token.py',R+'oauth2/refresh_access_token.py'],
 [('__expires_at','absolute expiry of a token response','update_service_context of the token services')],
 [('expiry computation','oidc.access_token.AccessToken.update_service_context and siblings'),('selection','rp_handler.get_valid_access_token, has_active_authentication')],
 'RPHandler.get_valid_access_token, has_active_authentication')
p('C09','A session can be refreshed again and again without losing anything',
 "refresh_access_token(state) sends the most recent refresh token of that session and no other; afterwards the new access token is the one used (and the replaced one is never reported again), a rotated refresh token replaces the old one, and when the provider returns no new refresh token or ID Token the previous ones stay in force (the next refresh, logout hint, userinfo subject check and authentication status keep working). A failed refresh leaves the session exactly as it was; the same holds for client-credentials tokens.",
 ['histories','fault_sequences'],'all sequences of refreshes with and without rotation / new ID Token / failures, interleaved over sessions and with userinfo, expiry and logout calls',
 'Tests refresh once; losing the refresh token only shows at the second refresh, and mixing only with several sessions.',
 [R+'oauth2/refresh_access_token.py',R+'oidc/refresh_access_token.py',R+'oauth2/client_credentials/cc_refresh_access_token.py',R+'rp_handler.py',R+'client_auth.py'],
 [('token_response','latest token response of the session','state_interface.State')],
 [('storing the refresh response','oauth2.refresh_access_token.RefreshAccessToken.update_service_context'),('picking the refresh token','RefreshAccessToken.oauth_pre_construct')],
 'token requests at the OP; RPHandler.refresh_access_token, get_valid_access_token, get_user_info, has_active_authentication, logout')
p('C10','Logout requests act on exactly the session they are about',
 "backchannel_logout() accepts only a logout token signed by the client's own issuer for this client, with a logout event, no nonce, not issued in the future and sid or sub present, and returns the state of the session that the sid (or, without sid, the sub) denotes; anything else raises. logout(state) yields a URL at that session's provider's end-session endpoint with that session's ID Token as hint, the post-logout URI in use and a fresh state that maps back to this session only.",
 ['histories','schedules','fault_sequences'],'all histories of several sessions of the same and different users at one or more OPs with genuine, forged, replayed and misdirected logout tokens and RP-initiated logouts in any order',
 'Picking the wrong session requires several sessions of one user or several OPs; tests have one.',
 [R+'rp_handler.py',R+'oidc/end_session.py',R+'state_interface.py'],
 [('sid -> state, sub -> state, logout state -> state','which session an identifier denotes','state_interface.StateInterface.store_x2state')],
 [('logout token verification and lookup','rp_handler.backchannel_logout'),('end session request','oidc.end_session.EndSession')],
 'backchannel_logout return/exception, RPHandler.logout URL, StateInterface.get_state_by_logout_state')
p('C11','Logins and sessions survive a restart from the dumped context',
 "If the RP process dies at any moment and a new RPHandler loads the JSON of a service-context dump taken earlier, every session in that dump behaves as it did when dumped: pending logins can be completed, finished ones can be queried, refreshed, used for userinfo and logged out, the dynamic registration, keys and redirect URIs are kept (no re-registration needed), and sessions not in the dump are unknown rather than mistaken for another. Expiry, nonce, PKCE and subject checks are as strict after the restart as before.",
 ['crash_points','histories','fault_sequences'],'all crash points (including inside a library call) and all dump times, over all client configurations and mixes of pending and finished sessions',
 'Tests dump one client at one fixed point; which attribute is lost only shows for the crash points and later operations that need it.',
 [R+'service_context.py',R+'state_interface.py',R+'service.py',R+'rp_handler.py'],
 [('ServiceContext.parameter','what a dump contains','service_context.ServiceContext'),('StateInterface.parameter','session data in the dump','state_interface.StateInterface')],
 [('dump/load','oidcmsg ImpExp through ServiceContext and StateInterface')],
 'all RPHandler calls on the restarted node compared with what the node promised before the crash')
p('C12','A failed or garbled exchange is never a success and never does damage',
 "When a provider answers with an error, a 4xx/5xx status, truncated, empty or mistyped data, or does not answer at all, the RPHandler call that needed the answer raises or returns an error (never userinfo or tokens the provider did not issue for this session) and previously established state (other sessions, already received tokens, the client registration) is unchanged. Once the faults stop, a fresh login at each provider succeeds within a bounded number of attempts without any manual repair.",
 ['fault_sequences','schedules'],'all sequences of network and provider faults at any exchange of any login, alone or in combination, with logins interleaved',
 'Tests inject at most one error response at one endpoint and do not continue afterwards.',
 [R+'oauth2/__init__.py',R+'service.py',R+'rp_handler.py',R+'http.py',R+'util.py'],
 [('session items','what was established before the fault','state_interface.State')],
 [('status code and content type handling','oauth2.Client.get_response, parse_request_response'),('error results','rp_handler.finalize, get_tokens, get_user_info')],
 'results of RPHandler calls and session contents, during and after the faults')
p('C13','Provider set-up yields a client bound to one provider, or none at all',
 "client_setup()/begin() use provider metadata only when its issuer equals the issuer asked for (trailing slash aside), bind endpoints, keys and registration to that provider alone, and, once a provider is set up, keep using that one registration; what one provider publishes never changes the endpoints, keys, configuration or behaviour used with another. If discovery, webfinger or registration fails, no half-configured client is kept: the call raises, and the next begin() for that provider starts over and can succeed.",
 ['fault_sequences','schedules','configurations'],'all mixes of dynamic, webfinger, discovered and static providers set up in any order and concurrently, with hostile metadata and faults at any set-up exchange',
 'Cross-provider leakage needs several providers set up on one handler in some order; half set-up clients need a fault between the exchanges.',
 [R+'rp_handler.py',R+'oauth2/provider_info_discovery.py',R+'oidc/provider_info_discovery.py',R+'oidc/registration.py',R+'oidc/webfinger.py',R+'service.py'],
 [('issuer2rp','client per issuer','rp_handler.RPHandler'),('client_configs','configuration shared by all clients','rp_handler.RPHandler')],
 [('issuer check','oauth2.provider_info_discovery._verify_issuer'),('client_setup','rp_handler.RPHandler.client_setup')],
 'authorization URLs, requests at every OP, RPHandler.issuer2rp, exceptions of begin')
p('C14','Starting further logins never invalidates logins already under way',
 "Any number of begin() calls, for the same or other providers, by issuer id, configuration key, trailing-slash variant or user identifier, concurrent or not, leaves every login already started able to complete: its state stays known, its response is accepted, and the same client registration is used. A provider that has been set up is reused, not set up again.",
 ['schedules','histories','configurations'],'all interleavings and orders of begins and callbacks, all ways of naming a provider (one client configuration per provider)',
 'Tests finish one login before starting the next.',
 [R+'rp_handler.py'],
 [('issuer2rp, hash2issuer','client lookup','rp_handler.RPHandler')],
 [('client reuse','rp_handler.RPHandler.client_setup')],
 'RPHandler.begin/finalize results; registration and discovery requests at the OPs')
p('C15','Provider key rotation is followed without accepting foreign keys',
 "After a provider publishes a new signing key at its jwks_uri, logins signed with the new key succeed as soon as the key set can be fetched and the cached one is due for a refresh (five minutes), tokens signed by keys the provider never published are refused at all times, and keys of one provider never verify tokens of another. An unreachable or malformed key set never makes an unverifiable token acceptable and never discards keys already known.",
 ['fault_sequences','histories','schedules'],'all sequences of key rotations, key-set fetch faults, logins and time jumps over several OPs',
 'Tests load keys once from a constant.',
 [R+'oauth2/provider_info_discovery.py',R+'rp_handler.py',R+'oidc/authorization.py',R+'oidc/access_token.py'],
 [('ServiceContext.keyjar','provider keys by issuer','service_context.ServiceContext')],
 [('jwks_uri/jwks loading','oauth2.provider_info_discovery._update_service_context, rp_handler.do_provider_info')],
 'finalize results against the OP key history; fetches of jwks_uri')
p('C16','Every DPoP-protected request carries its own valid proof',
 "With the DPoP add-on and a provider that supports one of the configured algorithms, every request that exchanges a code for tokens and every userinfo request carries exactly one DPoP header: a JWT of typ dpop+jwt signed with the private part of the embedded jwk under an agreed algorithm, htm and htu equal to the method and endpoint of that very request, iat the RP's current time, and a jti never used before; all requests of the client use the same key. With a provider that supports none of them requests go out without the header and logins still work.",
 ['schedules','histories','fault_sequences'],'all interleavings of token/userinfo/refresh requests over sessions and OPs, repeated attempts, clock changes',
 'A shared key minted lazily and per-request proofs only go wrong when requests overlap or repeat; the test makes one request.',
 [R+'oauth2/add_on/dpop.py'],
 [("add_on['dpop']",'key and algorithm of the client','add_on.dpop')],
 [('proof construction','add_on.dpop.dpop_header')],
 'headers of token and userinfo requests')
p('C17','Request objects and pushed requests deliver exactly this login to the provider',
 "When a login uses a request object (by value or by reference) or a pushed authorization request, what the provider obtains - verifying the object with the client's published keys, fetching the request_uri, or resolving the pushed reference - are exactly the parameters (state, nonce, redirect_uri, scope, response type, challenge) of that login, also when logins overlap. If the object cannot be stored or pushed completely, begin() raises or falls back to a complete request; it never returns a URL that refers to a missing, truncated or other login's request.",
 ['schedules','fault_sequences'],'all interleavings of logins using request objects/PAR with disk faults (full disk, short write, error on open) and network faults at the push',
 'Tests write one file on a healthy disk and never look at two overlapping logins.',
 [R+'oidc/authorization.py',R+'oidc/utils.py',R+'oauth2/add_on/pushed_authorization.py',R+'service_context.py'],
 [('request file','request object offered to the OP','oidc.authorization.store_request_on_file')],
 [('construct_request_parameter','oidc.authorization.Authorization'),('push_authorization','add_on.pushed_authorization')],
 'parameters reconstructed by the OP from the authorization URL')
p('C18','Client authentication is the configured one, complete and fresh every time',
 "Every token request authenticates with exactly the method negotiated for the client (client_secret_basic, client_secret_post, client_secret_jwt or private_key_jwt) and the provider can verify it; client assertions name the client as iss and sub, that provider's token endpoint as audience, expire in the future of the RP's clock but not later than ten minutes, and have a jti never used before, also on retries. The client secret itself appears only with client_secret_basic and client_secret_post.",
 ['histories','schedules','fault_sequences','configurations'],'all sequences of token requests and retries of all clients with all methods, interleaved, under clock jumps and restarts',
 'Freshness and separation of assertions only show over several requests and several clients.',
 [R+'client_auth.py',R+'oidc/access_token.py',R+'service.py',R+'rp_handler.py'],
 [('client_secret / signing keys','credentials of the client','service_context.ServiceContext')],
 [('assertion','client_auth.assertion_jwt, JWSAuthnMethod'),('method choice','rp_handler.get_client_authn_method, oidc.access_token.get_authn_method')],
 'token requests as verified by the OP')
p('C19','Redirect URIs are registered, provider-specific and repeated exactly',
 "The redirect_uri in every authorization request is one the client registered (or configured) with that provider, is of the kind that fits the response type and response mode, and the token request of that login repeats it exactly. Dynamically registered callback URIs differ between providers and stay the same for a provider within a handler's lifetime and across a restart from a dump.",
 ['configurations','histories','schedules','crash_points'],'all sets of providers, response types and configurations, in any order of set-up and with restarts',
 'Uniqueness and stability are relations between several providers and several points in time.',
 [R+'oauth2/utils.py',R+'oidc/registration.py',R+'rp_handler.py',R+'oauth2/access_token.py'],
 [('callback / redirect_uris','callback URIs of the client','service_context.ServiceContext')],
 [('pick_redirect_uri','oauth2.utils'),('create_callbacks/add_callbacks','oidc.registration')],
 'registration, authorization and token requests at the OPs')
p('C20','Aggregated and distributed claims only add what was promised and verified',
 "fetch_distributed_claims() and userinfo processing add to the user information only the claims that _claim_names assigns to a source, taken from that source: aggregated ones only from a JWT whose signature verifies with the source's known key, distributed ones only from the named endpoint using the access token given for it. A failing, lying or unreachable source never changes other claims (in particular sub) and never receives a token meant for another party.",
 ['fault_sequences','histories'],'all sets of claim sources with faults (errors, extra claims, bad signatures, missing claims) at any of them',
 'Tests use one well-behaved source.',
 [R+'oidc/__init__.py',R+'oidc/userinfo.py'],
 [('userinfo message','user claims being assembled','oidc.userinfo.UserInfo')],
 [('aggregated claims','oidc.userinfo.post_parse_response'),('distributed claims','oidc.RP.fetch_distributed_claims')],
 'returned user information; requests at claim sources')
p('C21','A cookie is read back as written or rejected, never altered',
 "A cookie made by make_cookie/CookieDealer.create_cookie (of printable text) and parsed with the same name, seed and key gives back the written value, timestamp and type, also after a restart of the RP, and carries the lifetime asked for; if any part of the stored value was changed, truncated, spliced from another cookie, or the seed or key differs, or no cookie of that name is there, parsing raises or yields nothing, never a different value or timestamp. With an encryption key the value is not readable from the cookie. A cookie made to delete one carries no value and has expired.",
 ['histories','fault_sequences'],'all sequences of cookies written, stored, corrupted or spliced by the browser and read back, over restarts and key changes',
 'Tests alter two fixed characters; the guarantee is about every alteration of every cookie.',
 [R+'cookie.py'],
 [('seed / symkey','keys protecting the cookie','cookie.CookieDealer')],
 [('make_cookie/parse_cookie','cookie.py')],
 'parse_cookie, CookieDealer.get_cookie_value')
p('C22','The session store behaves like a map of sessions with exact back-references',
 "Over any sequence of operations on many sessions, StateInterface returns for each state key exactly the issuer and items last stored under it, resolves each stored nonce, sub, sid and logout state to the session it was last bound to, and raises KeyError for anything never stored or removed. remove_state()/clear_session() makes that session's key, items and every identifier bound to it unresolvable, leaves no trace of it, and does not affect any other session; a dump/JSON/load at any point changes nothing.",
 ['histories','crash_points','schedules'],'all operation sequences over several sessions sharing users and session ids, with restarts from a JSON dump at any point',
 'Tests store and fetch a single value; leaks and collateral removal need several sessions, repeated identifiers and removals in between.',
 [R+'state_interface.py',R+'rp_handler.py'],
 [('StateInterface._db','session data and back-references','state_interface.StateInterface')],
 [('store_x2state/get_state_by_x/remove_state','state_interface.StateInterface')],
 'StateInterface public methods and dump()')
p('C23','User identifiers and resources are normalised as WebFinger prescribes',
 "WebFinger.query() maps every user-supplied identifier to the resource and host that OpenID Connect Discovery section 2.1 prescribes.",
 ['inputs'],'all identifier strings','Unbounded input space.',[R+'oidc/webfinger.py'],[],[('query','oidc.webfinger.WebFinger.query')],'URL returned by WebFinger.query')
p('C24','What is negotiated is what the client prefers most of what the provider offers',
 "For a dynamically registered provider the client registers, and in every login and token request thereafter uses, the value it prefers most among those the provider's metadata lists: client authentication method, algorithms of assertions, ID Tokens, signed user info and request objects, subject type; of response types, scopes and acr values those in common, in the client's order, the first response type being the one used. Where the provider lists nothing the default of the specification counts (client_secret_basic, RS256), else anything the client likes. What the provider then registers instead (among the client's preferences) is what is used. With no common value for a single-valued preference, or no common response type, begin() raises and no login starts. One provider's capabilities never influence what is negotiated with another, also when both share one configuration; a restart changes nothing of it.",
 ['configurations','fault_sequences','crash_points','schedules'],'all combinations of preference lists and provider metadata over several providers sharing a configuration, providers that register other values than asked for, failed and repeated set-ups, restarts',
 'Whether the negotiated values hold shows only later, at the token endpoint, in a refresh or after a restart of a client negotiated next to others; the tests match one preference set against one metadata document.',
 [R+'oidc/provider_info_discovery.py',R+'oidc/registration.py',R+'client_auth.py',R+'oidc/authorization.py',R+'rp_handler.py'],
 [('behaviour','negotiated values per client','service_context.ServiceContext'),('client_preferences','the configured wishes, shared','service_context.ServiceContext')],
 [('match_preferences','oidc.provider_info_discovery.ProviderInfoDiscovery.match_preferences'),('registered values taken over','oidc.registration.Registration.update_service_context')],
 'registration request, authorization request and token requests seen by the provider; exception of begin()')
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
