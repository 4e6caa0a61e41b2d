#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: repaired defects (from /repo's fix: commits) and the unrepaired ones below."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {  # subject of the fix commit -> (properties, what failed)
 "list only the requested target's unbonding delegations": ("Q01", "the unbonding queries of a target listed the unbondings of other targets too"),
 "keep an operator's and a service's stake when they are edited": ("R01", "editing an operator or service reset its recorded tokens and shares"),
 "look up the operator in the allowed operators invariant": ("C03", "the invariant looked services up instead of operators and broke on a healthy chain"),
 "complete unbonding delegations maturing together only once": ("R02", "the end blocker failed when several entries of one user and target matured together"),
 "do not delete operators and services that still hold stake": ("R02", "deleting an operator or service with stake locked the stake for good"),
 "filter the operators of a service by its own allow list": ("S02", "the arguments of the allow-list lookup were swapped"),
 "do not halt the chain when a service with rewards plans is deleted": ("C03", "a plan of a deleted service made the begin blocker fail"),
 "take rewards from a plan only when they can be allocated": ("W01", "rewards left the plan's account although nobody could receive them"),
 "allocate rewards only to the restakable tokens of a target": ("W02", "tokens that are not restakable for the service were counted"),
 "apply the global restakable denoms to services without their own": ("W02", "the allowed denoms of the module were ignored for services without own settings"),
 "do not overflow the sum of the weights of a rewards plan": ("W02", "the sum of weights overflowed uint32"),
 "update the pool-service shares of pools that don't secure the service": ("R04", "shares went stale while a pool did not secure the service"),
 "update the pool-service shares when an accreditation changes": ("R04", "accrediting or revoking a service did not change who trusts it"),
 "count the pool delegators that trust a service since its creation": ("R04", "delegators trusting a service before it existed were not counted"),
 "pay the rewards that pool delegators earned from a deleted service": ("W03", "the rewards could not be withdrawn any more"),
 "drop the previous ticker of an asset when it is changed": ("A01", "the old ticker kept pointing to the denom"),
 "reject assets whose exponent is too large": ("C03", "an asset with exponent above 18 made the begin blocker panic"),
 "treat assets whose currency pair has no price yet as worthless": ("C03", "a missing price made the begin blocker fail"),
 "support currency pairs having more than 18 decimals": ("C03", "a currency pair with more than 18 decimals made the begin blocker panic"),
 "pay the commission of a deleted operator to its admin": ("O01", "the accrued commission was lost"),
 "require the minimum stake also for weighted votes and nested authz votes": ("G02", "accounts without stake could vote"),
 "check expedited proposals submitted through authz": ("G02", "any proposal could be expedited through authz"),
 "create the liquid vesting module account at genesis": ("L01", "sending coins to the module's address first made minting impossible for good"),
 "treat nil prices as zero when valuing assets": ("C03", "a currency pair without a price made the begin blocker panic"),
 "bound the daily amounts of a rewards plan": ("C03", "huge daily amounts overflowed and halted the chain"),
 "refuse a negative restaking unbonding time": ("G01", "governance could set a negative unbonding time"),
 "unbond restaked assets only from the delegations of their denoms": ("L04", "burning failed for users with positions in pools of other denoms"),
 "do not call the hooks when importing user preferences": ("X01", "an export with user preferences and pool delegations could not be imported"),
 "restore the unbonding ids when importing unbonding delegations": ("X01", "unbonding ids started again from 1 after an import and the index was lost"),
 "drop the historical rewards created by hooks when importing the rewards": ("X01", "an import broke the reference count invariant of the rewards"),
 "accept a liquid vesting module holding more than the insurance funds in genesis": ("X01", "an export could not be imported once anybody sent coins to the liquid vesting module"),
 "do not halt the chain on coins that cannot leave the rewards pool of a plan": ("C03", "coins that vest, or locked tokens of a service that is gone, at the address of a plan made the begin blocker fail"),
 "do not burn the tokens restaked toward a restaking target": ("R01", "burning from the address of a target took what others had restaked, and the end blocker failed when it matured"),
 "delete the params of deleted operators": ("X01", "an export could not be imported after deleting an operator whose params were set while inactive"),
 "credit returning tokens to the insurance fund with their own denom": ("L03", "tokens coming back over IBC were credited as a denom that does not exist"),
 "refuse a rewards genesis whose rewards the rewards pool does not hold": ("X02", "a state whose rewards are not backed was accepted when the pool lacks the denom altogether"),
 "refuse the params of unknown services in genesis": ("X02", "params of services that do not exist were accepted"),
 "delete the params of deleted services": ("X01", "an export held the params of services that were deleted, which the import refuses"),
}
FINDINGS = [  # (property, part of the message, what fails)
 ("X01", "with coins sent to the governance account", "an export cannot be imported once anybody sent coins to the governance account: the account accepts coins (app.BlockedModuleAccountAddrs leaves it out) but the SDK's gov genesis wants its balance to equal the deposits"),
 ("X01", "with a user underinsured since the percentage was raised", "an export cannot be imported after governance raised the insurance percentage above what the users' funds cover: the chain tolerates this state, x/liquidvesting InitGenesis refuses it (and a unit test wants it to)"),
]
out = ["# Known findings. Lines `finding: property=<id> sig=\"<part of the message>\" <what fails>` are not repaired;",
       "# lines `fixed: property=<id> <commit> <what failed>` are, and suppress nothing. Written by tools/gen_findings.py."]
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s", "--grep=^fix:"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    s = s[5:]
    p, w = PROPS[s] if s in PROPS else ("?", "?")
    assert p != "?", s
    out.append(f"fixed: property={p} {h[:12]} {w}")
for p, sig, w in FINDINGS:
    import json
    out.append(f"finding: property={p} sig={json.dumps(sig)} {w}")
open(V + "/known_findings.txt", "w").write("\n".join(out) + "\n")
