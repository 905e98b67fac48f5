from pv.prove import *
from pv.oauth import *
from pv.contracts_oauth import *
import asyncio
VEngine.literals = VEngine.literals | {"code", "redirect_uri", "code_verifier"}
FAULTS = {"oauth": [OX.ServerError], "exception": [RuntimeError], "cancelled": [asyncio.CancelledError]}

def spent(faults, hook=False):
    def run(E):
        p, ad, g = the_grant(E, AuthorizationCodeGrant)
        E.ghost["faults"] = faults
        d = params_arg(E)
        code = at(E, d, "code")
        c = any_client(E)
        r = E.do(E.getattr(g, "token"), d, c)
        dels = calls(E, "delete_authorization_code")
        if E.branch(Val.is_absent(code)):
            E.cover("no code")
            E.ensure("without a code nothing is deleted and no token is created", not dels and not r.ok and not calls(E, "create_access_token", "create_refresh_token"))
            return
        E.cover("faulty" if calls(E, "fault") else "accepted" if r.ok else "refused")
        E.ensure("the code presented is deleted, exactly once", len(dels) == 1)
        for t in dels: E.ensure("the code deleted is the one presented", And(E.term(t[1][0]) == code, t[2] is ad))
        if r.ok: E.ensure("no redemption succeeds when the deletion failed", not [t for t in calls(E, "fault") if t[1][0] == "delete_authorization_code"])
    return run

def second(E):
    """Presenting a deleted code (the storage does not find it any more) yields no token."""
    p, ad, g = the_grant(E, AuthorizationCodeGrant)
    d = params_arg(E)
    code = at(E, d, "code")
    E.assume(z3.Or(Val.is_absent(code), z3.Not(k_exists(Val.s(code)))))
    r = E.do(E.getattr(g, "token"), d, any_client(E))
    E.cover("asked")
    E.ensure("a code that is gone yields no token", not r.ok and not calls(E, "create_access_token", "create_refresh_token"))

def proofs():
    out = [Proof("C19.spent", spent([]), ["no code", "accepted", "refused"], "the storage does not fail"), Proof("C19.second", second, ["asked"], "a code the storage does not know")]
    for n, f in FAULTS.items(): out.append(Proof(f"C19.spent.{n}", spent(f), ["no code", "accepted", "refused", "faulty"], f"any storage call may fail ({n})"))
    return out
