"""The smaller simulators: cookie stores, the session store, cloned processes, client credentials."""
from . import m_cc
from . import m_cookie
from . import m_fork
from . import m_store

SIMS = {"cookie": m_cookie, "store": m_store, "fork": m_fork, "cc": m_cc}
OF = {"C05": "fork", "C09": "cc", "C21": "cookie", "C22": "store"}


def has(prop):
    return prop in OF


def generate(prop, seed):
    sc = SIMS[OF[prop]].generate(prop, seed)
    sc["sim"] = OF[prop]
    return sc


def execute(kind, sc):
    return SIMS[kind].execute(sc)
