"""Writes MANIFEST.json."""
import json

NOTE = ("Seeded search, not proof: every run is one repeatable execution of the real library between "
        "simulated providers, browsers, network, clocks, disk, entropy and process crashes; the "
        "oracle judges each call against the providers' ledger and reference models. %s Trusted: the "
        "simulator (sim/), 'cryptography', CPython; cryptojwt, oidcmsg and requests run for real.")
PER = {
    "C01": "Attacker and byzantine deliveries of authorization responses across logins and issuers.",
    "C02": "Byzantine ID Tokens in both channels, clock offsets and jumps.",
    "C03": "UserInfo substitution before and after refreshes and restarts.",
    "C04": "Concurrent logins, three quarters of the runs with statement-level preemption.",
    "C05": "Simulated OS entropy with accounting, re-seeding of random, forked workers, restarts.",
    "C06": "PKCE-enforcing providers, overlap, crashes and retries.",
    "C07": "Secret registry scanned in every request and URL; redirects, errors, hostile providers.",
    "C08": "Virtual time over hours, clock jumps, expiry model.",
    "C09": "Token lineage over long refresh histories with faults; client credentials simulator.",
    "C10": "RP- and OP-initiated logout with forged tokens, many sessions per user.",
    "C11": "Crashes at any point including inside calls; restart from the JSON dump.",
    "C12": "Every network and HTTP fault at every endpoint, then bounded recovery.",
    "C13": "Hostile or failing discovery and registration, several providers, threads.",
    "C14": "Begins under every alias of a provider while logins are under way, threads.",
    "C15": "Key rotation, key set faults, foreign keys over simulated hours.",
    "C16": "Providers that verify every DPoP proof.",
    "C17": "Request objects and pushed requests with disk and network faults; the provider "
           "reconstructs the request.",
    "C18": "Providers that verify the client authentication, retries, clock jumps.",
    "C19": "Redirect URIs over providers, response types, restarts.",
    "C20": "Claim sources with faults; claim provenance.",
    "C21": "Browsers that damage, splice and swap cookies, several nodes and restarts.",
    "C22": "Histories of store operations against a reference map, threads and restarts; plus full "
           "logins and logouts.",
    "C24": "Preference lists against provider capabilities over providers sharing a configuration, "
           "registrations that answer something else, restarts; the providers check what is used."}
checks = [{"property": p, "quick_cmd": "python3 -m sim.check %s --tier quick" % p,
           "thorough_cmd": "python3 -m sim.check %s --tier thorough" % p,
           "evidence_file": "evidence/%s.json" % p,
           "technique": "deterministic simulation with fault injection (seeded search over "
                        "schedules, faults and byzantine peers)",
           "level": "exploration", "level_note": NOTE % n} for p, n in sorted(PER.items())]
NA = [{"property": "C23", "reason": "Pure string functions of one argument (WebFinger normalisation): "
       "no concurrency, time, I/O or second party, so there is nothing to schedule or to fault."}]
json.dump({"version": 1, "setup_cmd": "python3 -m sim.selftest 1", "checks": checks,
           "not_applicable": NA,
           "notes": "No hooks in /repo: the seams are the requests transport adapter, time/datetime, "
                    "os.urandom, open, threading locks and sys.monitoring, installed by sim/seams.py. "
                    "Replays: python3 -m sim.replay FILE."},
          open("MANIFEST.json", "w"), indent=1)
