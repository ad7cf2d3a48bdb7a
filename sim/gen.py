"""Scenario generation: one seed and a property profile -> one scenario (plain JSON)."""
import copy

from . import rng

IDT_BAD = ["wrong_iss", "iss_other", "iss_slash", "wrong_aud", "aud_prefix", "aud_multi_noazp",
           "aud_multi_badazp", "azp_other", "expired", "expired_just", "iat_future",
           "wrong_nonce", "other_nonce", "no_nonce", "alg_none", "alg_hs_secret", "alg_swap",
           "hs_pub", "foreign_key", "evil_key", "evil_newkid", "evil_jwk", "bad_sig", "tampered"]
IDT_FRONT = ["wrong_at_hash", "wrong_c_hash", "no_at_hash", "no_c_hash"]
IDT_GOOD = ["aud_multi_ok", "exp_edge_ok", "iat_edge_ok"]
UI_BAD = ["other_sub", "sub_case", "sub_prefix", "no_sub", "sub_list", "other_grant"]
UI_SIG = ["sig_none", "sig_bad", "sig_evil", "sig_foreign"]
UI_ERR = ["error200", "list", "string", "err401json", "err403text", "err400html", "err400bare"]
TOK = ["error200", "no_at", "at_list", "exp_text", "list", "string", "null", "idt_garbage",
       "extra", "exp_str"]
CS_AGG = ["agg_none", "agg_evil", "agg_evilkid", "agg_opkey", "agg_unknown_iss", "agg_badsig",
          "agg_tamper", "names_sub"]
CS_DIST = ["dist_500", "dist_302", "dist_list", "dist_html", "dist_missing", "names_sub"]
DISCO = ["issuer", "issuer_other", "issuer_sub", "issuer_prefix", "issuer_userinfo", "list"]
REG = ["no_id", "error", "error200", "list", "plain400"]
JWKS = ["nokeys", "html", "list", "badkey", "unknown_kty"]
PARM = ["list", "no_uri", "400", "503"]
LOGOUT_BAD = ["wrong_iss", "wrong_aud", "nonce", "no_event", "events_gone", "no_ids", "iat_future",
              "alg_none", "evil_key", "foreign_key", "foreign_op", "id_token", "unknown_sid",
              "unknown_sub"]
STATUS = [(500, "boom", "text/plain"), (503, "busy", "text/plain"), (502, "", "text/html"),
          (400, '{"error": "invalid_request"}', "application/json"),
          (401, '{"error": "invalid_client"}', "application/json"),
          (403, "Forbidden", "text/plain"), (404, "<h1>Not found</h1>", "text/html"),
          (429, '{"message": "slow down"}', "application/json"),
          (400, "", "application/json"), (400, "error=invalid_grant",
                                          "application/x-www-form-urlencoded"),
          (500, '{"access_token": "x", "token_type": "Bearer", "sub": "sub-admin"}',
           "application/json"),
          (204, "", "text/plain"), (200, "", "application/json")]

# knobs: base values; profiles override
BASE = dict(kids=0.05, ownnonce=0.03, rtypes=0.2, modes=0.06, prefs=0.08, burst=0.002, faulty=0.5, preempt=0.25, nops=[(1, 3), (2, 5), (3, 2)], users=(2, 4), same_user=0.3,
            spread=[(0.0, 3), (2.0, 4), (30.0, 1)],
            nfaults=(1, 3), pkce=0.35, dpop=0.12, par=0.08, reqobj=0.1, claims=0.1, ui=0.75,
            uijwt=0.3, sid=0.5, end=0.7, cfgargs=0.15, args=0.3,
            rtype=[("code", 12), ("code id_token", 3), ("id_token", 1), ("id_token token", 2),
                   ("code id_token token", 2), ("code token", 1)],
            alg=[("RS256", 5), ("ES256", 3), ("HS256", 2)],
            auth=[("client_secret_basic", 4), ("client_secret_post", 2), ("client_secret_jwt", 1),
                  ("private_key_jwt", 2)],
            mode=[("dyn", 9), ("own", 3), ("key", 3), ("disco_static", 2), ("static", 2),
                  ("oauth2", 2)],
            how=[("iss", 5), ("key", 3), ("slash", 1), ("wf", 1)],
            steps=[("userinfo", 3), ("refresh", 4), ("valid_token", 3), ("active", 3), ("info", 2),
                   ("logout", 2), ("clear", 1), ("bclogout", 1), ("wait", 3), ("distclaims", 0),
                   ("relogin", 1), ("regread", 1)],
            nsteps=(1, 5), final=0.5, dup=0.08, idt_good=0.1, alter=0.03, deny=0.03, logout_bad=0.4,
            waits=[(1, 3), (20, 3), (200, 3), (1000, 2), (4000, 1)],
            f=dict(net=4, resp=4, status=3, redir=1, idt=2, ui=1, tokresp=2, disco=1, reg=1,
                   jwks=1, wf=0, par=0, cs=0, crash=1, crash_at=1, jump=1, rotate=1, part=1,
                   disk=0, attack=2, dump=0, idtfront=1))

P = {
    "C01": dict(faulty=0.75, nops=[(2, 5), (3, 3)], nfaults=(1, 4), alter=0.2, deny=0.1, dup=0.15,
                f=dict(attack=14, crash=1, net=1, resp=1)),
    "C02": dict(kids=0.2, faulty=0.75, nops=[(1, 2), (2, 5)], idt_good=0.3, nfaults=(1, 4),
                rtype=[("code", 5), ("code id_token", 4), ("id_token", 3), ("id_token token", 3),
                       ("code id_token token", 4)],
                f=dict(idt=9, idtfront=9, attack=2, rotate=1, jump=2)),
    "C03": dict(faulty=0.75, ui=1.0, uijwt=0.4, nfaults=(1, 4),
                steps=[("userinfo", 6), ("refresh", 5), ("wait", 1), ("info", 1)],
                f=dict(ui=10, uisig=5, crash=1, idt=1, refsub=2)),
    "C04": dict(faulty=0.3, preempt=0.75, users=(3, 5), spread=[(0.0, 4), (0.5, 4)], args=0.6,
                cfgargs=0.3, final=0.2, dup=0.0,
                f=dict(net=3, resp=2, crash=1, attack=1)),
    "C05": dict(faulty=0.4, users=(4, 7), nsteps=(0, 3), pkce=0.6, dpop=0.2,
                auth=[("client_secret_jwt", 3), ("private_key_jwt", 4), ("client_secret_basic", 1)],
                steps=[("refresh", 3), ("logout", 4), ("userinfo", 2), ("relogin", 3)],
                f=dict(crash=4, net=2, resp=1, reseed=4)),
    "C06": dict(faulty=0.5, pkce=1.0, users=(3, 5), preempt=0.4,
                rtype=[("code", 8), ("code id_token", 2), ("code id_token token", 1)], nsteps=(0, 2),
                f=dict(crash=5, net=3, resp=1, crash_at=2, dump=1)),
    "C07": dict(faulty=0.8, nops=[(2, 4), (3, 3)], claims=0.4, nfaults=(2, 4), pkce=0.5,
                steps=[("userinfo", 3), ("refresh", 3), ("valid_token", 1), ("distclaims", 4),
                       ("logout", 2), ("clear", 1), ("bclogout", 1), ("wait", 2), ("relogin", 1),
                       ("regread", 2)],
                f=dict(redir=8, status=2, net=2, attack=3, resp=2, disco=1, tokresp=1, cs=1)),
    "C08": dict(faulty=0.6, nsteps=(4, 9),
                steps=[("valid_token", 8), ("active", 8), ("wait", 8), ("refresh", 4),
                       ("userinfo", 1)],
                waits=[(5, 2), (50, 3), (90, 3), (400, 4), (900, 3), (2500, 2)],
                rtype=[("code", 6), ("code id_token", 2), ("id_token token", 4),
                       ("code id_token token", 4), ("code token", 2)],
                f=dict(jump=8, crash=2, net=1, resp=1)),
    "C09": dict(faulty=0.5, nsteps=(4, 10), sub_cc=0.0,
                steps=[("refresh", 12), ("valid_token", 3), ("active", 2), ("userinfo", 4),
                       ("logout", 2), ("wait", 2), ("info", 1)],
                f=dict(net=5, resp=4, status=3, tokresp=4, idtref=4, crash=2, jump=1, rotate=1)),
    "C10": dict(kids=0.15, faulty=0.5, end=1.0, sid=0.65, same_user=0.6, users=(3, 5), nsteps=(1, 4),
                logout_bad=0.55,
                steps=[("bclogout", 10), ("logout", 6), ("refresh", 2), ("relogin", 2), ("wait", 1),
                       ("clear", 1)],
                f=dict(rotate=2, crash=2, net=1, jump=1, attack=1, resp=1)),
    "C11": dict(faulty=1.0, nfaults=(1, 3), nsteps=(2, 6), pkce=0.45, dpop=0.2, par=0.12,
                reqobj=0.15, f=dict(crash=9, crash_at=5, dump=3, net=1, jump=1, idt=1, ui=1)),
    "C12": dict(faulty=1.0, nfaults=(1, 5), final=1.0,
                f=dict(net=8, resp=8, status=8, redir=3, tokresp=6, uierr=5, disco=3, reg=3, jwks=2,
                       part=3, crash_at=1, wf=1, ui=1)),
    "C13": dict(faulty=0.7, nops=[(2, 4), (3, 4)], nsteps=(0, 2), final=0.8, preempt=0.35,
                how=[("iss", 5), ("key", 3), ("slash", 2), ("wf", 3)],
                steps=[("userinfo", 2), ("refresh", 2), ("regread", 4), ("wait", 1),
                       ("relogin", 1)],
                f=dict(disco=8, reg=6, netsetup=6, wf=3, crash=1, part=2)),
    "C14": dict(burst=0.07, faulty=0.25, preempt=0.5, users=(3, 6), spread=[(0.0, 3), (2.0, 3), (15.0, 2)],
                how=[("iss", 4), ("key", 3), ("slash", 3), ("wf", 3)], nsteps=(0, 2),
                f=dict(netsetup=3, reg=1, disco=1, crash=1)),
    "C15": dict(kids=0.15, faulty=1.0, nops=[(1, 2), (2, 4)], users=(3, 5), nfaults=(2, 5), nsteps=(0, 4),
                waits=[(20, 2), (330, 5), (700, 3)], spread=[(30.0, 2), (400.0, 3), (1000.0, 3)],
                alg=[("RS256", 5), ("ES256", 4)], final=1.0,
                f=dict(rotate=9, jwks=5, netjwks=4, foreign=6, crash=1)),
    "C16": dict(dpop=1.0, ui=0.9, nsteps=(1, 5), users=(2, 4),
                rtype=[("code", 8), ("code id_token", 2), ("id_token token", 1),
                       ("code id_token token", 1)],
                steps=[("userinfo", 8), ("refresh", 3), ("wait", 2), ("relogin", 2)],
                f=dict(jump=3, net=4, crash=3, status=1)),
    "C17": dict(faulty=0.5, par=0.35, reqobj=0.65, nsteps=(0, 1), users=(3, 5), args=0.6,
                preempt=0.4, spread=[(0.0, 4), (1.0, 2)],
                f=dict(par=4, disk=6, netpar=4, crash=1)),
    "C24": dict(prefs=0.95, faulty=0.5, nops=[(1, 1), (2, 4), (3, 4)], nsteps=(0, 3), reqobj=0.35,
                ui=0.9, uijwt=0.5, args=0.15, cfgargs=0.05, alter=0.0, deny=0.0,
                mode=[("dyn", 6), ("own", 2), ("key", 1)],
                steps=[("refresh", 5), ("userinfo", 3), ("wait", 1), ("relogin", 3),
                       ("valid_token", 1), ("bclogout", 1)],
                f=dict(crash=4, net=2, netsetup=2, resp=1, reg=1, jump=1, dump=1)),
    "C18": dict(prefs=0.25, faulty=0.5, nsteps=(0, 3),
                auth=[("client_secret_basic", 2), ("client_secret_post", 2),
                      ("client_secret_jwt", 4), ("private_key_jwt", 4)],
                rtype=[("code", 8), ("code id_token", 2)],
                steps=[("refresh", 6), ("wait", 2), ("relogin", 3)],
                f=dict(jump=3, net=5, resp=1, crash=2, status=1)),
    "C19": dict(rtypes=0.6, modes=0.25, faulty=0.4, nops=[(2, 4), (3, 3)], nsteps=(0, 1), users=(3, 5), preempt=0.35,
                rtype=[("code", 5), ("code id_token", 2), ("id_token", 2), ("id_token token", 2)],
                f=dict(crash=4, net=2, reg=1, resp=1)),
    "C20": dict(faulty=0.75, claims=1.0, ui=1.0, uijwt=0.25, nsteps=(1, 4), nfaults=(1, 4),
                rtype=[("code", 8), ("code id_token", 2)],
                steps=[("distclaims", 8), ("userinfo", 4), ("wait", 1)],
                f=dict(cs=12, netcs=4, ui=1)),
    "C22": dict(faulty=0.3, users=(3, 6), same_user=0.6, nsteps=(1, 5),
                steps=[("clear", 6), ("logout", 4), ("info", 4), ("relogin", 4), ("bclogout", 2),
                       ("refresh", 1)],
                f=dict(crash=3, attack=2, net=1)),
}

EPS = [("token", 5), ("userinfo", 3), ("jwks", 2), ("discovery", 2), ("register", 2),
       ("readreg", 1)]


def knobs(prop):
    k = dict(BASE)
    p = P.get(prop, {})
    for a, b in p.items():
        k[a] = b
    return k


def ops(s, k, prop):
    n = s.weighted(k["nops"])
    modes = [s.weighted(k["mode"]) for _ in range(n)]
    out = []
    dynf = None
    share = s.chance(0.15) and n > 1
    paths = s.pick([["/t0", "/t1", "/t2"], ["", "/t1", "/t1/x"], ["/t", "/t2", "/t2x"]]) \
        if share else None
    for i in range(n):
        mode = modes[i]
        f = features(s, k, mode)
        if mode == "dyn":
            if dynf is None:
                dynf = f
            f = copy.deepcopy(dynf)
        host = "op%d.sim" % i
        issuer = "https://" + host
        if share:
            host = "op.sim"
            issuer = "https://op.sim" + paths[i]
        elif s.chance(0.2):
            issuer += "/tenant"
        if s.chance(0.15) and mode not in ("static", "oauth2"):
            issuer += "/"
        c = {"idx": i, "host": host, "issuer": issuer, "mode": mode, "shared": bool(share),
             "cfgkey": {"dyn": "", "own": issuer}.get(mode) if mode in ("dyn", "own") else
             (s.pick([issuer, "opkey%d" % i]) if mode not in ("key", "oauth2") else "opkey%d" % i)}
        c.update(f)
        if f.get("pf"):
            negotiate(s, c, f["pf"])
        c.update(opside(s, k, c))
        if mode in ("static", "disco_static", "oauth2"):
            c["static"] = {"client_id": "static-client" if s.chance(0.3) else "static-%d" % i,
                           "client_secret": "static-secret-%d-0123456789abcdef012345" % i + s.pick(["", "~", "a:b ", "+/%?"]),
                           "redirect_uris": ["https://rp.sim/cb/static%d" % i]}
        out.append(c)
    return out


STYLES = [("linkedin", 3), ("github", 3), ("plain", 3), ("oauth2", 2)]


def plain_oauth2(s, k):
    """A provider that knows nothing of OpenID Connect: no ID Tokens, user info in its own style."""
    f = {"style": s.weighted(STYLES), "rtype": "code", "alg": "RS256", "ui": "json",
         "scope": s.pick([["user"], ["r_basicprofile", "r_emailaddress"], ["email"]]),
         "auth": s.pick(["client_secret_post", "client_secret_basic", ""]),
         "end_session": False, "reqreg": False, "pi_issuer": s.chance(0.5),
         "rt_service": s.pick(["oidc", "oauth2", None])}
    if not f["auth"]:
        f["rt_service"] = None
    if s.chance(k["pkce"]):
        f["pkce"] = {"len": s.pick([43, 64, 128]), "method": s.pick(["S256", "S256", "S384",
                                                                     "S512"])}
    if s.chance(k["cfgargs"]):
        f["cfg_request_args"] = s.pick([{"ui_locales": "se"}, {"prompt": "login"}])
    return f


def features(s, k, mode):
    if mode == "oauth2":
        return plain_oauth2(s, k)
    f = {"rtype": s.weighted(k["rtype"]),
         "scope": s.pick([["openid"], ["openid", "profile"], ["openid", "email"],
                          ["openid", "offline_access"]]),
         "auth": s.weighted(k["auth"]), "alg": s.weighted(k["alg"]),
         "auth_alg": s.pick(["RS256", "ES256"]), "end_session": s.chance(k["end"])}
    if mode in ("static", "disco_static") and f["alg"] == "ES256":
        f["alg"] = "RS256"
    if s.chance(k["rtypes"]):
        f["rtypes"] = [f["rtype"]] + [x for x in s.sample([x for x, _ in k["rtype"]], 2)
                                      if x != f["rtype"]]
    if s.chance(max(k["kids"], 0.05)):
        f["allow"] = {"missing_kid": s.chance(0.8)}
    f["ui"] = None
    if s.chance(k["ui"]):
        f["ui"] = "json"
        if s.chance(k["uijwt"]) and mode not in ("static", "disco_static"):
            f["ui"] = "jwt"
            f["ui_alg"] = s.pick(["RS256", "ES256"])
    if s.chance(k["pkce"]):
        f["pkce"] = {"len": s.pick([43, 64, 128]), "method": s.pick(["S256", "S256", "S384",
                                                                     "S512"])}
    if s.chance(k["dpop"]):
        f["rp_dpop"] = s.pick([["ES256"], ["RS256", "ES256"], ["ES256", "RS256"]])
    if s.chance(k["par"]):
        f["par"] = s.pick([{"body_format": "jws"}, {"body_format": "urlencoded"},
                           {"body_format": "urlencoded", "merge_rule": "lax"},
                           {"body_format": "jws", "merge_rule": "lax"}])
    f["reqreg"] = s.chance(k["reqobj"] * 0.35)
    if mode in ("dyn", "own", "key") and s.chance(k["prefs"]):
        f["pf"] = preferences(s, k, f)
    if s.chance(k["cfgargs"]):
        f["cfg_request_args"] = s.pick([{"ui_locales": "se"}, {"acr_values": ["loa1"]},
                                        {"claims": {"id_token": {"email": None}}},
                                        {"prompt": "login"}] + (
            [{"response_mode": "form_post"}] if mode in ("dyn", "own", "key") else []))
        if "acr_values" in f["cfg_request_args"]:
            f["cfg_request_args"] = {"login_hint": "hint"}
        if len(f.get("rtypes") or ()) > 1 and not f.get("pf") and s.chance(0.4):
            f["cfg_request_args"]["response_type"] = f["rtypes"][1]
    return f


def wanted_rt(c, args):
    return (args or {}).get("response_type") or \
        (c.get("cfg_request_args") or {}).get("response_type") or c["rtype"]


AUTHS = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]
PROV = {"token_endpoint_auth_method": "token_endpoint_auth_methods_supported",
        "token_endpoint_auth_signing_alg": "token_endpoint_auth_signing_alg_values_supported",
        "id_token_signed_response_alg": "id_token_signing_alg_values_supported",
        "userinfo_signed_response_alg": "userinfo_signing_alg_values_supported",
        "request_object_signing_alg": "request_object_signing_alg_values_supported",
        "subject_type": "subject_types_supported", "response_types": "response_types_supported",
        "scope": "scopes_supported", "default_acr_values": "acr_values_supported"}
LISTS = ("response_types", "scope", "default_acr_values")
DEFAULT = {"token_endpoint_auth_method": "client_secret_basic",
           "id_token_signed_response_alg": "RS256"}
NEEDED = ("response_types", "subject_type", "id_token_signed_response_alg")
OTHER = {"token_endpoint_auth_signing_alg": ["XS1"], "token_endpoint_auth_method": ["tls_client_auth", "none", "client_secret_basic2"],
         "response_types": ["none", "token", "code token id_token x"],
         "scope": ["phone", "address", "openid2"], "subject_type": ["x"],
         "default_acr_values": ["loa9"]}


def preferences(s, k, f):
    """What the client would like, best first."""
    pf = {}
    if s.chance(0.8):
        pf["token_endpoint_auth_method"] = s.sample(AUTHS, s.range(1, 4))
        jw = [a for a in pf["token_endpoint_auth_method"] if a.endswith("_jwt")]
        if len(jw) == 1 and s.chance(0.5):
            pf["token_endpoint_auth_signing_alg"] = \
                ["HS256"] if jw[0] == "client_secret_jwt" else s.sample(["RS256", "ES256"], 2)
    if s.chance(0.7):
        pf["id_token_signed_response_alg"] = s.sample(["RS256", "ES256", "HS256"], s.range(1, 3))
    if f["ui"] == "jwt" and s.chance(0.8):
        pf["userinfo_signed_response_alg"] = s.sample(["RS256", "ES256", "HS256"], s.range(1, 3))
    if s.chance(0.4):
        pf["request_object_signing_alg"] = s.sample(["RS256", "ES256"], s.range(1, 2))
    if s.chance(0.6):
        rts = [x for x, _ in k["rtype"]]
        pf["response_types"] = s.sample(rts, s.range(1, min(4, len(rts))))
    if s.chance(0.3):
        pf["subject_type"] = s.sample(["public", "pairwise"], s.range(1, 2))
    if s.chance(0.4):
        pf["scope"] = s.shuffle(["openid"] + s.sample(["profile", "email", "offline_access"],
                                                      s.range(0, 3)))
    if s.chance(0.2):
        pf["default_acr_values"] = s.sample(["loa1", "loa2", "loa3"], s.range(1, 3))
    for a in sorted(pf):
        if a not in LISTS and len(pf[a]) == 1 and s.chance(0.5):
            pf[a] = pf[a][0]
    return pf


def negotiate(s, c, pf):
    """What the provider c supports and what comes of it."""
    c["pf"], c["sup"], c["neg"] = pf, {}, {}
    no = None
    if s.chance(0.07):      # nothing in common
        x = [a for a in ("token_endpoint_auth_method", "response_types") if a in pf]
        if "RS256" not in pf.get("id_token_signed_response_alg", "RS256"):
            x.append("id_token_signed_response_alg")
        no = s.pick(x or [None])
    for a in sorted(pf):
        want = pf[a] if isinstance(pf[a], list) else [pf[a]]
        pool = {"token_endpoint_auth_method": AUTHS, "response_types":
                ["code", "id_token", "id_token token", "code id_token", "code token",
                 "code id_token token"],
                "subject_type": ["public", "pairwise"],
                "scope": ["openid", "profile", "email", "offline_access"],
                "default_acr_values": ["loa1", "loa2", "loa3"]}.get(a, ["RS256", "ES256", "HS256"])
        if a == "request_object_signing_alg":
            pool = ["RS256", "ES256"]
        rest = [x for x in pool if x not in want]
        if a == no:
            sup = s.sample(rest, s.range(0, len(rest))) + s.sample(OTHER.get(a, ["PS512"]), 1)
            if a == "id_token_signed_response_alg" and "RS256" not in sup:
                sup.append("RS256")
        elif s.chance(0.15) and (a not in DEFAULT or DEFAULT[a] in want) and a not in NEEDED:
            sup = None
        else:
            sup = s.sample(want, s.range(1, len(want))) + s.sample(rest, s.range(0, len(rest))) + \
                s.sample(OTHER.get(a, ["PS512", "RS256x"]), s.range(0, 1))
            must = {"scope": "openid", "id_token_signed_response_alg": "RS256"}.get(a)
            if must and must not in sup:
                sup.append(must)
        c["sup"][a] = sup = s.shuffle(sup) if sup is not None else None
        if sup is None:
            sup = [DEFAULT[a]] if a in DEFAULT else want
        both = [x for x in want if x in sup]
        c["neg"][a] = both if a in LISTS else (both or [None])[0]
    if no:
        c["nomatch"] = no
        return
    n = c["neg"]
    c["auth"] = n.get("token_endpoint_auth_method", c["auth"])
    c["alg"] = n.get("id_token_signed_response_alg", c["alg"])
    if c.get("ui") == "jwt":
        c["ui_alg"] = n.get("userinfo_signed_response_alg", c["ui_alg"])
    c["rtype"] = (n.get("response_types") or [c["rtype"]])[0]
    c["scope"] = n.get("scope", c["scope"])
    if "token_endpoint_auth_signing_alg" not in pf and "token_endpoint_auth_method" in pf:
        need = {"client_secret_jwt": "HS256", "private_key_jwt": "RS256"}.get(c["auth"])
        c["sup"]["token_endpoint_auth_signing_alg"] = None if s.chance(0.2) else s.shuffle(
            sorted({"RS256", "HS256", need or "HS256"} | set(s.sample(["ES256", "XS256"], 1))))
    if s.chance(0.2):
        # the provider registers something else than asked for, within what the client would take
        a = s.pick(["token_endpoint_auth_method", "response_types",
                    "id_token_signed_response_alg"])
        if isinstance(pf.get(a), list) and len(pf[a]) > 1 and \
                "token_endpoint_auth_signing_alg" not in pf:
            sup = c["sup"][a] or pf[a]
            x = s.pick([y for y in pf[a] if y in sup])
            c["replace"] = {a: [x] if a in LISTS else x}
            c[{"token_endpoint_auth_method": "auth", "response_types": "rtype",
               "id_token_signed_response_alg": "alg"}[a]] = x


def opside(s, k, f):
    c = {"sid": s.chance(k["sid"]) and f["end_session"], "rt": s.weighted([(True, 6), ("some", 3), (False, 1)]),
         "rotation": s.pick(["none", "rotate", "some"]), "refresh_idt": s.chance(0.4),
         "refresh_nonce": s.chance(0.6), "aud_list": s.chance(0.3), "scope_resp": s.chance(0.2),
         "iss_param": s.chance(0.3), "idt_life": s.pick([300, 600, 3600, 3600]),
         "expires_in": s.pick([None, 60, 300, 300, 900, 3600, [60, 600], [3600, 120]])}
    if s.chance(k["kids"]):
        c["keys"] = s.pick(["nokid", "nokid_jws", "two"] + (
            ["two_nokid"] * 4 if (f.get("allow") or {}).get("missing_kid") else []))
    if f.get("style"):
        c["sid"] = False
        c["iss_param"] = c["iss_param"] and s.chance(0.5)
        if f["style"] == "linkedin" and not c["expires_in"]:
            c["expires_in"] = 600
        if not f["rt_service"]:
            c["rt"] = False
    elif f.get("rp_dpop"):
        c["dpop"] = s.pick([["ES256"], ["RS256", "ES256"], ["RS256"], None, ["ES256"]])
    elif s.chance(0.2):
        c["dpop"] = ["ES256"]
    if s.chance(k["claims"]) and f["ui"]:
        c["claims"] = s.pick(["agg", "dist", "both"])
        c["cs_token"] = s.chance(0.7)
        c["cs_two"], c["cs_token2"] = s.chance(0.5), s.chance(0.5)
        c["cs_order"] = s.chance(0.5)
    return c


def begin(s, k, c):
    st = {"s": "begin", "how": s.weighted(k["how"])}
    if c["shared"] and st["how"] == "wf":
        st["how"] = "iss"
    if st["how"] == "wf" and c["mode"] in ("static", "oauth2"):
        st["how"] = "key"
    a = {}
    if s.chance(k["args"]):
        for _ in range(s.range(1, 2)):
            x = s.below(6)
            if x == 0:
                a["login_hint"] = "user-%d" % s.below(99)
            elif x == 1:
                a["ui_locales"] = "l%d" % s.below(99)
            elif x == 2:
                a["scope"] = s.pick([["openid", "profile"], ["openid", "email", "profile"],
                                     ["profile"]])
            elif x == 3:
                a["prompt"] = s.pick(["login", "consent"])
            elif x == 4 and not c.get("static") and not c.get("par"):
                a["display"] = "page"
            elif x == 5:
                a["id_token_hint"] = ""
                del a["id_token_hint"]
    rts = c.get("rtypes") if not c.get("pf") else None if c.get("replace") else \
        (c.get("neg") or {}).get("response_types")
    if rts and len(rts) > 1 and s.chance(0.5):
        a["response_type"] = s.pick(rts)
    if not c.get("static") and s.chance(k["modes"]):
        a["response_mode"] = s.pick(["form_post", "form_post", "query", "fragment"])
    if s.chance(k["ownnonce"]):
        a["nonce"] = "own"
    if a:
        st["args"] = a
    if s.chance(k["reqobj"]) and not c.get("par"):
        st["beh"] = {"request_param": s.pick(["request", "request_uri"])}
    return st


def user_steps(s, k, c, faulty, allow_dup):
    steps = [begin(s, k, c), {"s": "wait", "d": round(s.u() * s.weighted(
        [(2, 5), (30, 2), (250, 1)]), 2)}]
    a = {"s": "auth"}
    if faulty and s.chance(k["deny"]):
        a["deny"] = s.pick(["access_denied", "server_error", "login_required"])
    elif s.chance(k["idt_good"]):
        a["idt"] = s.pick(IDT_GOOD)
    steps.append(a)
    if faulty and s.chance(k["alter"]):
        steps.append({"s": "cb", "alter": s.pick(["no_state", "iss_bad", "cid_bad", "state_trunc",
                                                  "other_issuer"]), "stop": False})
    cb = {"s": "cb", "stop": True}
    if wanted_rt(c, steps[0].get("args")) in (
            "code token", "code id_token token") and s.chance(0.7):
        cb["collect"] = True
    if allow_dup and s.chance(k["dup"]):
        cb["s"] = "dup_cb"
        cb["d"] = round(s.u() * 0.5, 2)
    steps.append(cb)
    for _ in range(s.range(*k["nsteps"])):
        x = s.weighted(k["steps"])
        if x == "wait":
            d = s.weighted(k["waits"])
            steps.append({"s": "wait", "d": round(d * (0.5 + s.u()), 2)})
        elif x == "relogin":
            steps += [begin(s, k, c), {"s": "auth"}, {"s": "cb", "stop": True}]
            if wanted_rt(c, steps[-3].get("args")) in (
                    "code token", "code id_token token") and s.chance(0.7):
                steps[-1]["collect"] = True
        elif x == "logout":
            st = {"s": "logout"}
            if s.chance(0.3):
                st["plru"] = "https://rp.sim/bye%d" % s.below(9)
            elif s.chance(0.3):
                st["close"] = True
            steps.append(st)
        elif x == "bclogout":
            st = {"s": "bclogout", "how": s.pick(["sub", "sid", "both"])}
            if s.chance(k["logout_bad"]):
                st["mut"] = s.pick(LOGOUT_BAD)
            if s.chance(0.4):
                st["clear"] = False
            steps.append(st)
        elif x == "distclaims":
            st = {"s": "distclaims"}
            if s.chance(0.3):
                st["nocb"] = True
            steps.append(st)
        elif x == "refresh":
            st = {"s": "refresh"}
            if s.chance(0.4):
                st["force"] = True      # though there may be no refresh token
            if s.chance(0.15):
                st["scope"] = s.pick([["openid"], ["openid", "email"], "openid profile"])
            steps.append(st)
        else:
            steps.append({"s": x})
            if x == "userinfo" and s.chance(0.15):
                steps[-1]["tok"] = True
    return steps


def fault(s, k, kind, sc, users, horizon):
    o = s.pick(sc["ops"])["idx"]
    u = s.pick(users)
    d = None
    evil = "https://evil.sim/steal"

    def where(eps=None):
        ep = s.weighted(eps or EPS)
        if ep == "userinfo" and not sc["ops"][u["op"]].get("ui"):
            ep = "token"
        if ep == "readreg" and not any(st["s"] == "regread" for st in u["steps"]):
            ep = "register"
        f = {"ep": ep}
        if ep in ("readreg", "token", "userinfo", "claims", "par") and s.chance(0.8):
            f["task"] = u["id"]
            f["n"] = s.pick([0, 0, 0, 1, 1, 2, 3])
        else:
            f["op"] = u["op"] if ep != "claims" else None
            f["n"] = s.pick([0, 0, 0, 1, 2, 3])
        return f
    if kind in ("net", "netsetup", "netjwks", "netpar", "netcs"):
        eps = {"netsetup": [("discovery", 3), ("register", 3), ("webfinger", 1)],
               "netjwks": [("jwks", 1)], "netpar": [("par", 1)], "netcs": [("claims", 1)]}.get(kind)
        d = dict(where(eps), k="net", how=s.pick(["refuse", "stall", "lost", "reset", "dup",
                                                  "dupresp"]))
        if d["ep"] in ("claims",) and d["how"] in ("dup", "dupresp"):
            d["how"] = "reset"
        if d["how"] == "dupresp" and d["ep"] in ("register",):
            d["how"] = "dup"
        if d["how"] == "stall":
            d["d"] = s.pick([5, 40, 400])
        if s.chance(0.35) and kind != "net":
            x = s.pick(["trunc", "empty", "html", "status"])
            d = dict({a: b for a, b in d.items() if a not in ("how", "d")}, k="resp", how=x)
            if x == "status":
                d["code"], d["body"], d["ctype"] = s.pick(STATUS[:9])
    elif kind == "resp":
        d = dict(where(), k="resp", how=s.pick(["trunc", "trunc", "empty", "html", "html200json",
                                                "badlen", "noctype", "ctype"]))
        if d["how"] == "trunc":
            d["frac"] = round(s.u() * 0.98, 2)
        if d["how"] == "ctype":
            d["ctype"] = s.pick(["application/json; charset=utf-8", "text/plain", "text/html",
                                 "application/jwt", "application/x-www-form-urlencoded",
                                 "image/png"])
    elif kind == "status":
        d = dict(where(), k="resp", how="status")
        d["code"], d["body"], d["ctype"] = s.pick(STATUS)
        if s.chance(0.3):
            d = {a: b for a, b in d.items() if a not in ("body", "ctype")}
            d.update(how="statusbody", code=s.pick([400, 401, 403, 404, 429, 500, 502, 503]))
    elif kind == "redir":
        d = dict(where(), k="resp", how="redir", code=s.pick([301, 302, 303, 307, 308]), to=evil)
    elif kind == "idt":
        d = {"k": "idt", "ep": "token", "task": u["id"], "n": s.pick([0, 0, 0, 1]),
             "m": s.pick(IDT_BAD)}
    elif kind == "idtref":
        d = {"k": "idt", "ep": "token", "task": u["id"], "n": s.pick([1, 2, 3]),
             "m": s.pick(IDT_BAD + ["other_sub", "other_sub"])}
    elif kind == "refsub":
        d = {"k": "idt", "ep": "token", "task": u["id"], "n": s.pick([1, 2]), "m": "other_sub"}
    elif kind == "foreign":
        d = {"k": "idt", "ep": "token", "task": u["id"], "n": s.pick([0, 0, 1]),
             "m": s.pick(["foreign_key", "evil_key", "evil_newkid", "evil_jwk", "hs_pub",
                          "alg_none"])}
    elif kind == "idtfront":
        for st in u["steps"]:
            if st["s"] == "auth":
                st.pop("deny", None)
                st["idt"] = s.pick(IDT_BAD + IDT_FRONT + IDT_FRONT + ["no_at_hash", "no_c_hash"])
        return
    elif kind in ("ui", "uisig", "uierr"):
        lst = {"ui": UI_BAD + UI_ERR[:3] + UI_SIG[:2], "uisig": UI_SIG, "uierr": UI_ERR}[kind]
        d = {"k": "ui", "ep": "userinfo", "task": u["id"], "n": s.pick([0, 0, 1, 1, 2, 3]),
             "m": s.pick(lst)}
    elif kind == "tokresp":
        d = {"k": "tokresp", "ep": "token", "task": u["id"], "n": s.pick([0, 0, 1, 2, 3]),
             "m": s.pick(TOK)}
    elif kind == "disco":
        d = {"k": "disco", "ep": "discovery", "op": o, "n": s.pick([0, 0, 1]), "m": s.pick(DISCO)}
        if d["m"] == "issuer_other" and len(sc["ops"]) < 2:
            d["m"] = "issuer"
    elif kind == "reg":
        d = {"k": "reg", "ep": "register", "op": o, "n": s.pick([0, 0, 1]), "m": s.pick(REG)}
    elif kind == "jwks":
        d = {"k": "jwks", "ep": "jwks", "op": o, "n": s.pick([0, 0, 1, 2]), "m": s.pick(JWKS)}
    elif kind == "wf":
        d = {"k": "wf", "ep": "webfinger", "op": o, "n": 0, "m": s.pick(["norel", "empty",
                                                                        "extra"])}
        if sc["ops"][o]["shared"]:
            return
    elif kind == "par":
        d = {"k": "par", "ep": "par", "op": o, "n": s.pick([0, 0, 1]), "m": s.pick(PARM)}
    elif kind == "cs":
        lst = {"agg": CS_AGG, "dist": CS_DIST, "both": CS_AGG + CS_DIST}.get(
            sc["ops"][u["op"]].get("claims"))
        if not lst:
            return
        d = {"k": "cs", "ep": "userinfo", "task": u["id"], "n": s.pick([0, 0, 0, 1]),
             "m": s.pick(lst)}
    elif kind == "crash":
        sc["tasks"].append({"id": "crash%d" % len(sc["tasks"]), "kind": "crash",
                            "at": round(s.u() * horizon, 3)})
        return
    elif kind == "dump":
        sc["tasks"].append({"id": "dump%d" % len(sc["tasks"]), "kind": "dump",
                            "at": round(s.u() * min(horizon, 20), 3)})
        return
    elif kind == "crash_at":
        d = dict(where(), k="crash_at", when=s.pick(["before", "after"]))
    elif kind == "jump":
        x = s.pick([-4000, -600, -90, -20, 20, 90, 400, 1200, 5000])
        sc["tasks"].append({"id": "jump%d" % len(sc["tasks"]), "kind": "jump", "d": x,
                            "at": round(s.u() * horizon, 3)})
        return
    elif kind == "reseed":
        for _ in range(s.range(2, 4)):
            sc["tasks"].append({"id": "rnd%d" % len(sc["tasks"]), "kind": "reseed",
                                "x": s.pick([1, 1, 42]), "at": round(s.u() * horizon, 3)})
        return
    elif kind == "rotate":
        if sc["ops"][o].get("keys", "two") != "two":
            return      # without key IDs a cached copy is not known to be stale
        sc["tasks"].append({"id": "rot%d" % len(sc["tasks"]), "kind": "rotate", "op": o,
                            "at": round(s.u() * horizon, 3)})
        return
    elif kind == "part":
        t0 = round(s.u() * min(horizon, 60), 2)
        d = {"k": "part", "op": o, "t0": t0, "t1": t0 + s.pick([2, 20, 300])}
    elif kind == "disk":
        d = {"k": "disk", "n": s.pick([0, 0, 1, 2]), "how": s.pick(["open", "enospc", "eio",
                                                                    "close"])}
    elif kind == "attack":
        att = []
        for _ in range(s.range(1, 3)):
            att.append({"a": "wait", "d": round(s.u() * s.pick([1.5, 5, 40]), 2)})
            a = s.weighted([("cross", 5), ("unknown", 2), ("missing", 2), ("contra", 4),
                            ("inject", 3), ("replay", 2)])
            st = {"a": a, "pick": s.below(6)}
            if a == "inject":
                st["tries"] = s.pick([1, 20, 100])
            if s.chance(0.35) and a in ("cross", "unknown"):
                st["err"] = True
            elif s.chance(0.5) and a == "cross":
                st["code"] = True
            elif a == "unknown":
                st["steal"] = s.chance(0.5)
            if a == "contra":
                st["what"] = s.pick(["iss", "cid"])
            att.append(st)
        sc["tasks"].append({"id": "att%d" % len(sc["tasks"]), "kind": "attack", "user": 66,
                            "at": round(s.u() * 3, 2), "steps": att})
        return
    if d is not None:
        sc["faults"].append(d)


def generate(prop, seed):
    s = rng.Stream("scenario", prop, seed)
    k = knobs(prop)
    faulty = s.chance(k["faulty"])
    preempt = s.chance(k["preempt"])
    sc = {"v": 1, "seed": "%s-%s" % (prop, seed), "prop": prop, "faulty": faulty,
          "rp": {"skew": s.pick([15, 0, 30, 120]), "offset": 0},
          "ops": ops(s, k, prop), "tasks": [], "faults": []}
    if faulty and s.chance(0.25):
        sc["rp"]["offset"] = s.pick([-8, 8, 40, -40])
        if abs(sc["rp"]["offset"]) >= sc["rp"]["skew"] - 3:
            sc["rp"]["offset"] = 0
    if preempt:
        sc["preempt"] = True
        sc["sched"] = {"seed": rng.h64("sched", prop, seed) % (1 << 31),
                       "gap": s.pick([60, 200, 600, 2000]), "stall": 1}
    else:
        sc["sched"] = {"seed": rng.h64("sched", prop, seed) % (1 << 31)}
        if s.chance(0.1):
            sc["sched"]["fifo"] = True
    n = s.range(*k["users"])
    spread = s.weighted(k["spread"])
    users = []
    for i in range(n):
        o = s.below(len(sc["ops"]))
        uid = 1 + (0 if s.chance(k["same_user"]) else i)
        u = {"id": "u%d" % i, "kind": "user", "op": o, "user": uid,
             "at": round(s.u() * spread, 3),
             "steps": user_steps(s, k, sc["ops"][o], faulty, not preempt)}
        users.append(u)
    sc["tasks"] += users
    if not preempt and s.chance(k["burst"]):
        sc["tasks"].append({"id": "many", "kind": "user", "op": s.below(len(sc["ops"])), "user": 50,
                            "at": round(s.u() * (spread + 5), 3),
                            "steps": [{"s": "burst", "n": s.range(40, 260)}]})
    horizon = spread + 3 + sum(st.get("d", 1) for st in s.pick(users)["steps"])
    if faulty:
        fw = sorted(k["f"].items())
        for _ in range(s.range(*k["nfaults"])):
            fault(s, k, s.weighted(fw), sc, users, horizon)
        if preempt:
            # threads of one session never run at once under statement preemption
            for t in sc["tasks"]:
                if t["kind"] == "attack":
                    t["steps"] = [x for x in t["steps"] if x["a"] in ("wait", "cross", "unknown",
                                                                     "missing", "contra")]
    if s.chance(k["final"]):
        for c in sc["ops"]:
            if c.get("nomatch"):
                continue
            sc["tasks"].append({"id": "final%d" % c["idx"], "kind": "final", "op": c["idx"],
                                "user": 9, "gap": 400})
    return sc
