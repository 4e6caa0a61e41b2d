#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the entries stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

UNIT = "The unit tests drive one keeper at a time through a handful of hand-written states on a single in-memory store; "

p("C01", "Nodes that execute the same chain of blocks stay in agreement",
  "Any two nodes that execute the same sequence of blocks report, at every height, the same application hash, the same per-transaction results and the same validator/consensus updates. This holds whatever each node's wall clock, restart history, query, simulation and mempool load, pruning or cache settings, and whether it executed the blocks live, replayed them, or caught up late.",
  ["schedules", "configurations", "histories"],
  "every block history x every assignment of wall clocks, restarts, lag, local load and local configuration to the nodes",
  UNIT + "none of them runs two nodes, so wall-clock, map-order, in-memory-cache or check-state leaks into consensus state are invisible to them.",
  ["app/app.go", "app/keepers/keepers.go", "app/abci/abci_extensions.go", "x/*/keeper/*.go"],
  [("all consensus state lives in versioned stores", "app/keepers/keys.go"), ("ordered module begin/end blockers", "app/modules.go orderBeginBlockers/orderEndBlockers"),
   ("block time instead of wall clock", "x/*/keeper")],
  observe=["app hash and FinalizeBlock responses of every node at every height"])

p("C02", "A crashed node recovers exactly the committed state and rejoins",
  "A node that stops at an arbitrary instant - between blocks, while executing a block, or with only part of a commit on disk - restarts from what its disk kept, at the last height it durably committed. After re-executing the remaining blocks it has exactly the state and results of nodes that never crashed: no committed block is lost, applied twice or partly visible.",
  ["crash_points", "fault_sequences", "histories"],
  "every block history x every crash point (each database write of a commit, with any un-synced suffix lost) x every number of crashes",
  UNIT + "no test ever closes and reopens the application on the same database, let alone between two writes of one commit.",
  ["app/app.go", "app/keepers/keepers.go", "app/keepers/keys.go"],
  [("load of latest durable version at start", "app/app.go NewMilkyWayApp (LoadLatestVersion, pinned code initialisation)"), ("no node-local state outside the stores", "x/*/keeper")],
  observe=["height, app hash and block results after restart and replay"])

p("C03", "Nothing users, governance or time can do stops block production",
  "For every history of transactions (valid, invalid or hostile), governance decisions, price changes and passage of time, executing the next block succeeds: no beginning- or end-of-block processing fails or panics. In particular maturing undelegations, scheduled burns, deactivations and reward allocations never make a block fail, whatever was changed or deleted since they were scheduled.",
  ["histories", "inputs", "fault_sequences"],
  "every reachable history, including deletions and parameter changes while delayed work is pending and several delayed items maturing in one block or after a long clock jump",
  UNIT + "the delayed work is tested only from states built for it, never after arbitrary interleavings of deletions, edits and clock jumps.",
  ["x/restaking/keeper/end_blocker.go", "x/restaking/keeper/unbond.go", "x/operators/keeper/abci.go", "x/rewards/keeper/abci.go", "x/rewards/keeper/allocation.go", "x/rewards/keeper/rewards_plan.go", "x/liquidvesting/keeper/end_blocker.go"],
  [("end/begin blockers returning errors abort the block", "app/app.go BeginBlocker/EndBlocker"), ("hooks that clean up before deletion", "x/*/keeper/*_hooks.go")],
  observe=["error/panic of FinalizeBlock and Commit on every node"])

p("C04", "Transactions are all-or-nothing, applied at most once, and pay their fee",
  "A transaction that fails at any point - rejected before execution, in any of its messages, or by running out of gas anywhere - changes nothing except, once accepted for execution, the signer's sequence number and the fee; one that succeeds applies all its messages. A signed transaction takes effect at most once however often and in whatever order it is delivered, and only with a valid signature for the required signer. A transaction is not executed after the height it may be executed at most. A transaction that executes, successfully or not, is charged at least the minimum required fee and never more than it offered.",
  ["schedules", "fault_sequences", "inputs"],
  "every message mix, gas limit, fee, duplication, loss and reordering of transactions",
  UNIT + "message handlers are called directly, so the surrounding ante/post handling, multi-message rollback, gas exhaustion in the middle of a handler and redelivery are not exercised.",
  ["ante/ante.go", "app/post.go", "app/app.go", "x/*/keeper/msg_server.go"],
  [("ante handler chain", "ante/ante.go NewAnteHandler"), ("post handler fee deduction", "app/post.go"), ("signer declared by each message", "proto/milkyway/**/messages.proto")],
  observe=["transaction results; complete observable state before/after; signer sequence; fee payer balance"])

p("C05", "Oracle prices follow the stake-weighted median and survive bad reporters",
  "The price stored for a currency pair in a block is a stake-weighted median of the prices reported by validators in that block's agreed votes and is changed only if reporters holding the required majority of stake reported that pair; otherwise it stays as it was. Validators that are silent, cannot reach their price source, send malformed reports, or (below one third of stake) lie cannot move the price outside the honest reports, stop blocks, or make nodes disagree.",
  ["fault_sequences", "schedules", "histories"],
  "every sequence of per-validator price feeds, outages, malformed or forged reports, absent votes and proposer changes",
  UNIT + "no test in the repository runs vote extensions end to end.",
  ["app/abci/abci_extensions.go", "app/app.go", "x/rewards/keeper/oracle.go"],
  [("vote extension, proposal and pre-block handlers wired around one codec and one aggregation function", "app/abci/abci_extensions.go InitializeOracleABCIExtensions")],
  observe=["oracle price queries after every block", "ProcessProposal/VerifyVoteExtension verdicts"],
  hook="price source (client) injection for the vote-extension handler")

p("R01", "Restaked funds are fully backed and attributed to exactly their owners",
  "For every pool, operator and service, and every denomination, the recorded total equals the sum of what its delegators are entitled to and is held in that target's own account. Each delegation or undelegation changes exactly the acting user's entitlement and the target's total by exactly the requested amount, and no other message or event - including edits, ownership transfers, deactivations and reactivations of the target - changes anybody's restaked amount.",
  ["histories", "inputs"],
  "every history of delegations and undelegations by any number of users to any number of targets in any mix of denominations, interleaved with every other kind of operation",
  UNIT + "they check single delegate/undelegate calls, not conservation over long mixed histories with target edits and deletions in between.",
  ["x/restaking/keeper/pool_restaking.go", "x/restaking/keeper/operator_restaking.go", "x/restaking/keeper/service_restaking.go", "x/restaking/keeper/unbond.go", "x/operators/types/models.go", "x/services/types/models.go", "x/pools/types/models.go"],
  [("shares/tokens bookkeeping of each target", "x/*/types/models.go AddTokensFromDelegation/RemoveDelShares"), ("delegation records and indexes", "x/restaking/keeper/alias_functions.go")],
  state=[("delegation", "shares of one user in one target", "x/restaking/types/models.go"), ("target tokens and shares", "total held for all delegators", "x/{pools,operators,services}/types/models.go")],
  observe=["delegation, pool, operator and service queries; bank balances"])

p("R02", "Undelegated funds are paid back exactly once, in full and on time",
  "Every successful undelegation returns exactly the undelegated coins to the user who undelegated, in the first block whose time reaches the completion time announced when it was made, and never earlier, twice, partially or to anyone else. The completion time is the time of the undelegation plus the unbonding period in force at that moment, and nothing that happens meanwhile - other undelegations, parameter changes, deactivation or deletion of the target, node restarts, an export and re-import of the chain - changes amount, recipient or time.",
  ["histories", "schedules", "crash_points"],
  "every set of overlapping undelegations (same block, same maturity, same target or not) x clock jumps x target lifecycle x parameter changes x restarts",
  UNIT + "maturity is tested for isolated entries; merged entries, several maturing together, and lifecycle changes while pending are not.",
  ["x/restaking/keeper/unbond.go", "x/restaking/keeper/end_blocker.go", "x/restaking/keeper/msg_server.go", "x/restaking/types/models.go"],
  [("unbonding queue ordered by completion time", "x/restaking/keeper/unbond.go"), ("completion at end of block", "x/restaking/keeper/end_blocker.go")],
  state=[("unbonding delegation entries", "pending payouts", "x/restaking/types/models.go")],
  observe=["unbonding delegation queries; bank balances; undelegate responses"])

p("R03", "Restaking and unstaking are accepted exactly when the rules allow",
  "A delegation succeeds only if every coin's denomination is currently restakable, the target exists and accepts delegations (an operator or service must be active), the user owns the coins, and no cap or coverage rule is exceeded; an undelegation succeeds only up to what the user currently has delegated to that target. Requests within the rules are not refused, and nobody can delegate or undelegate another user's funds.",
  ["inputs", "histories", "configurations"],
  "every request from every user in every reachable state and parameter setting, including the instants just before and after rule changes",
  UNIT + "each guard is tested in one or two states, not at every moment of a history that changes parameters, target status and balances.",
  ["x/restaking/keeper/msg_server.go", "x/restaking/keeper/restake_restriction.go", "x/restaking/keeper/unbond.go", "x/restaking/keeper/params.go", "x/restaking/types/messages.go"],
  [("target status and allowed denomination checks", "x/restaking/keeper/*_restaking.go"), ("restake restriction", "x/restaking/keeper/restake_restriction.go"), ("unbond amount validation", "x/restaking/keeper/unbond.go")],
  observe=["acceptance or rejection of each delegate/undelegate transaction"])

p("R04", "Pool restakers only secure, and are only counted for, services they trust",
  "A pool delegator's stake counts towards a service exactly when the user's current preferences trust that service for that pool (explicitly listed services win; otherwise the defaults for accredited and non-accredited services apply). The totals of trusting stake the chain keeps per pool and service always equal the sum over current delegators, through every change of delegations, preferences, accreditation, service creation, activation, deletion and security configuration.",
  ["histories", "schedules"],
  "every interleaving of delegation changes, preference changes, accreditation changes and service lifecycle",
  UNIT + "each hook is tested alone; drift between the running totals and the true sums only shows up over interleavings of different hooks.",
  ["x/rewards/keeper/pool_service_shares.go", "x/rewards/keeper/hooks.go", "x/rewards/keeper/restaking_hooks.go", "x/rewards/keeper/services_hooks.go", "x/restaking/keeper/user_preferences.go", "x/restaking/types/models.go"],
  [("incremental per-(pool,service) totals maintained by hooks", "x/rewards/keeper/hooks.go")],
  state=[("pool-service total delegator shares", "sum of trusting delegators' shares", "x/rewards/keeper/pool_service_shares.go")],
  observe=["exported reward state; user preference queries; rewards actually paid"])

p("O01", "Operators follow their lifecycle and obey only their admin",
  "An operator is created active under the next unused id with the registration fee paid to the community pool, and afterwards only its current admin can edit, deactivate, reactivate, transfer, configure or delete it. Deactivation puts it in an intermediate state that ends, in the first block at or after the announced time, in the inactive state; only an inactive operator can be reactivated or deleted, and ids are never reused.",
  ["histories", "inputs", "schedules"],
  "every interleaving of operator messages by admins and strangers with clock jumps, parameter changes and restarts",
  UNIT + "each message is tested from one state; lifecycle timing over clock jumps, transfers in mid-deactivation and id allocation after deletions or re-imports are not.",
  ["x/operators/keeper/msg_server.go", "x/operators/keeper/operators.go", "x/operators/keeper/abci.go", "x/operators/types/models.go"],
  [("admin check in every handler", "x/operators/keeper/msg_server.go"), ("inactivating queue", "x/operators/keeper/operators.go, abci.go")],
  observe=["operator queries; community pool; results of operator messages"])

p("S01", "Services follow their lifecycle and obey only their admin",
  "A service is created under the next unused id with the creation fee paid to the community pool, starts without being active, and afterwards only its current admin can edit, activate, deactivate, transfer, configure or delete it; deletion requires it not to be active. Accreditation is granted and revoked only by governance, and ids are never reused.",
  ["histories", "inputs"],
  "every interleaving of service messages by admins, strangers and governance",
  UNIT + "each message is tested from one state with one sender.",
  ["x/services/keeper/msg_server.go", "x/services/keeper/services.go", "x/services/types/models.go"],
  [("admin/authority check in every handler", "x/services/keeper/msg_server.go"), ("status transition checks", "x/services/keeper/services.go")],
  observe=["service queries; community pool; results of service messages"])

p("S02", "A service is secured only by the operators and pools that both sides chose",
  "Only an operator's admin can make it join or leave a service and only a service's admin can change the list of operators allowed to validate it or the pools it borrows security from; each change takes effect exactly as requested and touches no other service, operator or pool. An operator counts as validating a service only if it joined and the service's list is empty or contains it; deleting an operator or service removes it from every such relation, and a service whose list would become empty because its last listed operator disappeared does not silently open itself to every operator.",
  ["histories", "inputs"],
  "every interleaving of join/leave, allow-list, pool-borrowing and lifecycle operations",
  UNIT + "relations are tested pairwise, not over histories with deletions on either side.",
  ["x/restaking/keeper/msg_server.go", "x/restaking/keeper/alias_functions.go", "x/restaking/keeper/operators_hooks.go", "x/restaking/keeper/services_hooks.go"],
  [("joined services / allowed operators / securing pools collections", "x/restaking/keeper/keeper.go"), ("deletion hooks", "x/restaking/keeper/*_hooks.go")],
  observe=["joined services, allowed operators, service operators, securing pools queries"])

p("W01", "Reward plans spend only their own funds, at their rate, within their window",
  "A plan created by a service's admin (paying the plan fee) distributes, in each block after its start and before its end, at most its daily amount times the elapsed time, taken from the plan's own account, only while its service is active, and nothing when that account cannot cover the block. When it ends it is removed and whatever is left and can be transferred goes to the service's account; only the service's admin can edit it, and only before it ends. Money taken from a plan is always credited to somebody.",
  ["histories", "schedules", "configurations"],
  "every plan shape x every sequence of block times, fundings, edits, service status changes and deletions",
  UNIT + "allocation is tested for one or two fixed block intervals and fixed plans.",
  ["x/rewards/keeper/rewards_plan.go", "x/rewards/keeper/allocation.go", "x/rewards/keeper/msg_server.go", "x/rewards/types/models.go"],
  [("per-block allocation from last allocation time", "x/rewards/keeper/allocation.go AllocateRewards"), ("termination of ended plans", "x/rewards/keeper/rewards_plan.go")],
  observe=["balances of plan accounts, rewards pool and service accounts; plan queries"])

p("W02", "Rewards are split by value, distribution rule, trust and commission",
  "What a plan distributes in a block is split between pools, operators and direct delegators in proportion to the current value of the stake each contributes to the service (a pool with all of its tokens, if anybody trusts the service for it) (and then by the plan's basic, weighted or egalitarian rule); within a target it goes to eligible delegators in proportion to their stake, after the operator's commission at its current rate. Stake that is not eligible - untrusting pool delegators, operators not validating the service, denominations that are not restakable for the service, assets without a price - earns nothing from it.",
  ["histories", "inputs", "configurations"],
  "every stake distribution, price vector, preference setting, security configuration and plan shape",
  UNIT + "the split is tested on a few fixed scenarios with round numbers.",
  ["x/rewards/keeper/allocation.go", "x/rewards/keeper/target.go", "x/rewards/keeper/delegation.go", "x/rewards/keeper/oracle.go", "x/rewards/types/models.go"],
  [("value of delegations through registered assets and oracle prices", "x/rewards/keeper/oracle.go"), ("distribution rules", "x/rewards/keeper/allocation.go"), ("period accounting per target", "x/rewards/keeper/delegation.go")],
  observe=["delegator rewards and commission queries; withdrawn amounts; reference allocation model"])

p("W03", "Everybody can always withdraw exactly what they earned, once",
  "Rewards accrue to a delegator only for the time and stake actually delegated; withdrawing (explicitly, or automatically when the delegation or the relevant preferences change) pays the accrued amount, up to rounding, exactly once to the delegator's chosen withdraw address, and likewise for operator commission to its admin. The rewards held by the chain always cover everything accrued but not withdrawn, so that all delegators and operators can withdraw in any order.",
  ["histories", "schedules"],
  "every order of delegations, undelegations, allocations, preference changes and withdrawals by all users",
  UNIT + "withdrawals are tested one user at a time on short fixed histories.",
  ["x/rewards/keeper/delegation.go", "x/rewards/keeper/withdraw.go", "x/rewards/keeper/hooks.go", "x/rewards/keeper/restaking_hooks.go", "x/rewards/keeper/msg_server.go"],
  [("period/reference-count accounting", "x/rewards/keeper/delegation.go"), ("withdraw before each change", "x/rewards/keeper/restaking_hooks.go")],
  state=[("outstanding rewards", "owed but not yet withdrawn", "x/rewards/keeper/keeper.go")],
  observe=["withdraw responses, balances, reward queries, rewards pool balance"])

p("L01", "Locked tokens exist only by authorised minting and cannot change hands",
  "Locked representation tokens come into existence only when an authorised minter mints them, and disappear only when an authorised burner burns them: their total supply always equals minted minus burned. Users can move them only into and out of restaking; no transfer, fee payment, deposit, cross-chain transfer or delegated authority lets one user's locked tokens end up with another user.",
  ["histories", "inputs"],
  "every message, direct or wrapped, that could move coins, in every reachable state",
  UNIT + "the send restriction is called directly with chosen addresses; the other routes coins can take through the full application are not tried.",
  ["x/liquidvesting/keeper/mint.go", "x/liquidvesting/keeper/burn.go", "x/liquidvesting/keeper/send_restriction.go", "x/liquidvesting/keeper/msg_server.go", "app/keepers/keepers.go"],
  [("bank send restriction", "x/liquidvesting/keeper/send_restriction.go"), ("minter/burner lists", "x/liquidvesting/keeper/mint.go, burn.go")],
  observe=["supply and balances of locked denominations"])

p("L02", "Restaked locked tokens stay covered by their owner's insurance fund",
  "A user can restake locked tokens only while their insurance fund holds at least the configured percentage (rounded up) of all their locked tokens that are restaked or still unbonding, and can withdraw from the fund only what is not needed for that; so no user action ever leaves their locked stake under-covered. Each user's fund changes only by deposits made for them and their own withdrawals, and the module's holdings always cover the sum of all funds.",
  ["histories", "inputs", "configurations"],
  "every interleaving of deposits, withdrawals, restakes, undelegations, maturities, burns and percentage changes",
  UNIT + "coverage is tested at single points, not as an invariant over interleavings with unbonding.",
  ["x/liquidvesting/keeper/insurance_fund.go", "x/liquidvesting/keeper/restake_restriction.go", "x/liquidvesting/types/models.go", "x/liquidvesting/keeper/alias_functions.go"],
  [("restake restriction", "x/liquidvesting/keeper/restake_restriction.go"), ("withdraw check", "x/liquidvesting/keeper/insurance_fund.go CanWithdrawFromInsuranceFund")],
  state=[("user insurance fund", "deposit backing locked stake", "x/liquidvesting/keeper/keeper.go")],
  observe=["insurance fund queries; module balance; restake/withdraw results"])

p("L03", "Cross-chain insurance deposits are credited exactly once, only if authorised",
  "A cross-chain transfer carrying an insurance deposit is honoured only if it comes from a trusted sender over an allowed channel to the module's own address and its deposits add up to the transferred amount; then each named user's fund grows by exactly their deposit in the received coin, once, however the packet is lost, delayed, duplicated, reordered or relayed. A rejected or timed-out deposit changes no fund and the sender gets the money back, and transfers without a deposit behave as ordinary transfers.",
  ["fault_sequences", "schedules", "inputs"],
  "every packet content x every loss, duplication, reordering, delay and timeout of packets and acknowledgements",
  UNIT + "the middleware's callback is invoked directly with hand-made packets; no packet is relayed, duplicated, timed out or refunded.",
  ["x/liquidvesting/ibc_module.go", "x/liquidvesting/keeper/ibc.go", "x/liquidvesting/types/ibc_hooks.go", "app/keepers/keepers.go"],
  [("middleware in the transfer stack", "x/liquidvesting/ibc_module.go OnRecvPacket"), ("error acknowledgement reverts the credit", "app/keepers/keepers.go transfer stack order")],
  observe=["insurance fund queries, balances on both ends, acknowledgements"])

p("L04", "Burning locked tokens removes exactly the requested amount",
  "When an authorised burner burns a user's locked tokens, what is liquid is burned at once and the rest is undelegated from the user's restaking positions and burned in the very block in which that undelegation completes, before the user can use it again. Exactly the requested amount is burned in total, nobody else's tokens are touched, including what is held for delegators by a restaking target, and a burn that cannot be satisfied changes nothing.",
  ["histories", "schedules"],
  "every mix of liquid and restaked locked tokens over several targets, overlapping burns and undelegations, parameter changes and restarts in between",
  UNIT + "burns are tested from fixed small states without overlapping undelegations, clock jumps or restarts.",
  ["x/liquidvesting/keeper/burn.go", "x/liquidvesting/keeper/end_blocker.go", "x/restaking/keeper/unbond.go", "app/modules.go"],
  [("burn queue keyed by completion time", "x/liquidvesting/keeper/burn.go"), ("end blocker after restaking's", "app/modules.go orderEndBlockers")],
  observe=["supply, balances, unbonding queries, pending burns in exported state"])

p("G01", "Parameters and privileged actions change only through governance",
  "Module parameters, accreditation of services and the asset registry change only when a governance proposal passes, then exactly as proposed and all-or-nothing per proposal; the same message sent by anyone else is rejected without effect. Invalid parameter values are never accepted, and a new value applies to operations from then on without altering what is already scheduled.",
  ["histories", "inputs"],
  "every parameter message from every sender, and proposals of one or several messages, at any time in a history",
  UNIT + "handlers are called directly with a chosen authority; proposals are never voted and executed end to end.",
  ["x/restaking/keeper/msg_server.go", "x/rewards/keeper/msg_server.go", "x/operators/keeper/msg_server.go", "x/services/keeper/msg_server.go", "x/liquidvesting/keeper/msg_server.go", "x/assets/keeper/msg_server.go", "app/keepers/keepers.go"],
  [("authority comparison in each handler", "x/*/keeper/msg_server.go"), ("parameter validation", "x/*/types/params.go")],
  observe=["params queries; proposal results; rejected transactions"])

p("G02", "Only staked accounts vote, and only upgrades can be expedited",
  "A governance vote in a transaction, cast directly, with split weights, or through any nesting of delegated authority, is accepted only if the voter has at least the minimum amount staked with validators at that moment. A proposal is accepted as expedited, by whatever route a transaction submits it, only if it contains nothing but software-upgrade or cancel-upgrade messages.",
  ["inputs", "histories"],
  "every way of wrapping votes and proposals x every staking state of the voter",
  UNIT + "decorators are tested on a few flat messages.",
  ["ante/gov_vote_ante.go", "ante/gov_expedited_ante.go", "ante/ante.go"],
  [("vote decorator", "ante/gov_vote_ante.go"), ("expedited proposal decorator", "ante/gov_expedited_ante.go")],
  observe=["results of vote/proposal transactions; votes recorded"])

p("A01", "The asset registry maps each coin to exactly one ticker",
  "After any sequence of registrations and removals, a coin is priced with the ticker and exponent it was last registered with, looking assets up by ticker returns exactly the coins currently registered under it, and a removed coin is unpriced. Registering a coin again replaces its entry completely.",
  ["histories"],
  "every sequence of registrations, re-registrations and removals through governance, interleaved with reward allocation, restarts and re-imports",
  UNIT + "each message is tested from an empty registry.",
  ["x/assets/keeper/assets.go", "x/assets/keeper/msg_server.go", "x/assets/keeper/grpc_query.go", "x/rewards/keeper/oracle.go"],
  [("asset map plus ticker index", "x/assets/keeper/assets.go")],
  observe=["asset queries with and without ticker filter"])

p("X01", "An exported chain restarts with the same state and the same future",
  "Exporting the chain's state at any height and starting a new chain from it always succeeds and preserves every balance, delegation, pending undelegation, preference, plan, accrued reward, insurance fund, scheduled burn, pending deactivation, registry entry and parameter. From then on the restarted chain treats every later transaction and every scheduled event as the original chain would have, including the ids it hands out.",
  ["histories", "crash_points"],
  "every reachable state x every continuation after the restart",
  UNIT + "genesis tests round-trip small hand-made states of one module; no test imports an exported application state and carries on.",
  ["app/export.go", "app/app.go", "app/modules.go", "x/*/keeper/genesis.go", "x/*/types/genesis.go"],
  [("per-module export/import", "x/*/keeper/genesis.go"), ("import order", "app/modules.go orderInitBlockers")],
  observe=["export of the restarted chain equals the import; model continues to agree after restart"])

p("X02", "A chain never starts from an inconsistent state file",
  "Every state the chain exports passes validation. A state file that contradicts itself or the rules is refused, either by validation or when a chain is started from it: a missing or already used next id; registry entries, plans, delegations, undelegations, preferences or records without id, type, status, name or valid address, or listed twice; allow lists, joined services, settings or deactivations that refer to operators or services that do not exist (or are not being deactivated); shares or delegations that do not add up; tokens, rewards or insurance funds that the accounts do not hold; insurance that does not cover the locked tokens; scheduled burns of tokens that are not being undelegated; reward records that delegations or periods miss; parameters outside their limits.",
  ["histories", "inputs"],
  "every reachable state x every such edit of its export",
  UNIT + "genesis validation tests use tiny hand-made states of one module, never an exported application state, and never the invariants that cross modules.",
  ["x/*/types/genesis.go", "x/*/keeper/genesis.go", "x/*/types/models.go", "x/*/keeper/invariants.go", "app/app.go"],
  [("genesis validation", "x/*/types/genesis.go"), ("import checks", "x/*/keeper/genesis.go"), ("registered invariants asserted at the start", "x/*/keeper/invariants.go")],
  observe=["validation of every export; outcome of starting a scratch chain from edited exports"])

p("V01", "Malformed requests are refused in every state",
  "A request to one of milkyway's modules of which a field is wrong whatever the state is refused, alone or among other messages, sent directly or through delegated authority, and changes nothing: an object id of 0; a blank operator or service name; a receiver, owner, withdraw or new admin address that is not an address; an amount that is zero, negative, of an invalid denomination, unsorted or listed twice (also per day of a plan); a commission rate outside 0 to 1; an invalid allowed denomination; a plan that does not end after it starts, with a description over the limit, with the kinds of its distributions mixed up, or with weights that are zero, repeated or for target 0; an unknown kind of restaking target; trust in service 0.",
  ["inputs", "histories"],
  "every request of every module x every malformed value of these fields x every reachable state",
  UNIT + "message validation tests check each message once, apart from the handlers, decorators and wrappers it passes through.",
  ["x/*/types/messages.go", "x/*/keeper/msg_server.go", "x/*/types/models.go", "ante/ante.go"],
  [("stateless validation", "x/*/types/messages.go"), ("handlers", "x/*/keeper/msg_server.go")],
  observe=["result of transactions with one spoilt field; state unchanged apart from the fee"])

p("Q01", "Queries and simulation report the truth and change nothing",
  "Every query about delegations, entitlements, pending undelegations, preferences, security configuration, plans, rewards and insurance answers with the state of the last committed block: what it says is owed is what a withdrawal or undelegation executed next actually pays, and listings contain every item exactly once whatever the page size. Serving queries, simulating transactions and checking them for admission never changes committed state.",
  ["schedules", "histories", "inputs"],
  "every reachable state x every query x every interleaving of queries with block execution",
  UNIT + "query tests use small fixed states and are never compared with what the corresponding transaction then does.",
  ["x/restaking/keeper/grpc_query.go", "x/rewards/keeper/grpc_query.go", "x/liquidvesting/keeper/grpc_query.go", "x/operators/keeper/grpc_query.go", "x/services/keeper/grpc_query.go", "x/pools/keeper/grpc_query.go", "x/assets/keeper/grpc_query.go"],
  [("query servers over committed state", "x/*/keeper/grpc_query.go"), ("separate check state", "app/app.go")],
  observe=["query answers vs model vs later effects; app hash with and without query load"])

p("N01", "Addresses and message encodings are well-formed and collision-free",
  "The accounts derived for pools, operators, services and reward plans are distinct for distinct objects, and every message survives encoding and decoding unchanged.",
  ["inputs"],
  "every id and every message value",
  "Tests sample a few ids and messages.",
  ["x/pools/types/models.go", "x/operators/types/models.go", "x/services/types/models.go", "x/rewards/types/models.go"],
  [("module-derived addresses", "x/*/types/models.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P), "properties")
