package main

// The state file of an export, damaged or edited: it must never become the
// start of a chain.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	"github.com/cosmos/gogoproto/proto"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

type genState struct {
	m   *model
	as  assetstypes.GenesisState
	op  operatorstypes.GenesisState
	sv  servicestypes.GenesisState
	po  poolstypes.GenesisState
	rs  restakingtypes.GenesisState
	rw  rewardstypes.GenesisState
	lv  lvtypes.GenesisState
	now time.Time
}

func (g *genState) parts() map[string]proto.Message {
	return map[string]proto.Message{
		assetstypes.ModuleName: &g.as, operatorstypes.ModuleName: &g.op, servicestypes.ModuleName: &g.sv,
		poolstypes.ModuleName: &g.po, restakingtypes.ModuleName: &g.rs, rewardstypes.ModuleName: &g.rw, lvtypes.ModuleName: &g.lv,
	}
}

// A genFault edits the state so that it contradicts itself or the rules. It
// tells whether it could.
type genFault func(g *genState, r *rng) bool

// one edits an element of a list.
func one[T any](l []T, r *rng, f func(*T)) bool {
	if len(l) == 0 {
		return false
	}
	f(&l[r.n(len(l))])
	return true
}

// twice repeats an element of a list.
func twice[T any](l *[]T, r *rng, f func(*T)) bool {
	if len(*l) == 0 {
		return false
	}
	x := (*l)[r.n(len(*l))]
	if f != nil {
		f(&x)
	}
	*l = append(append([]T{}, (*l)...), x)
	return true
}

const (
	noAddr    = "milk1notanaddress"
	unknownID = 4_000_000
)

var badCoins = sdk.Coins{sdk.Coin{Denom: dBond, Amount: math.ZeroInt()}}

func dec(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }

func (g *genState) dels(k restakingtypes.DelegationType) []*restakingtypes.Delegation {
	var o []*restakingtypes.Delegation
	for i := range g.rs.Delegations {
		if g.rs.Delegations[i].Type == k {
			o = append(o, &g.rs.Delegations[i])
		}
	}
	return o
}

func always(f func(g *genState)) genFault {
	return func(g *genState, r *rng) bool { f(g); return true }
}

var genFaults = map[string]genFault{
	// assets
	"asset without ticker": func(g *genState, r *rng) bool {
		return one(g.as.Assets, r, func(x *assetstypes.Asset) { x.Ticker = "" })
	},
	"asset with a huge ticker": func(g *genState, r *rng) bool {
		return one(g.as.Assets, r, func(x *assetstypes.Asset) { x.Ticker = strings.Repeat("A", 300) })
	},
	"asset with a bad ticker": func(g *genState, r *rng) bool {
		return one(g.as.Assets, r, func(x *assetstypes.Asset) { x.Ticker = "A B" })
	},
	"asset with a bad denom": func(g *genState, r *rng) bool {
		return one(g.as.Assets, r, func(x *assetstypes.Asset) { x.Denom = "1" })
	},
	"asset with a huge exponent": func(g *genState, r *rng) bool {
		return one(g.as.Assets, r, func(x *assetstypes.Asset) { x.Exponent = 4_000_000_000 })
	},
	// operators
	"no next operator": always(func(g *genState) { g.op.NextOperatorID = 0 }),
	"next operator taken": func(g *genState, r *rng) bool {
		return one(g.op.Operators, r, func(x *operatorstypes.Operator) { g.op.NextOperatorID = x.ID })
	},
	"operator twice": func(g *genState, r *rng) bool { return twice(&g.op.Operators, r, nil) },
	"operator without id": func(g *genState, r *rng) bool {
		return one(g.op.Operators, r, func(x *operatorstypes.Operator) { x.ID = 0 })
	},
	"operator without status": func(g *genState, r *rng) bool {
		return one(g.op.Operators, r, func(x *operatorstypes.Operator) { x.Status = 0 })
	},
	"operator without name": func(g *genState, r *rng) bool {
		return one(g.op.Operators, r, func(x *operatorstypes.Operator) { x.Moniker = " " })
	},
	"operator without admin": func(g *genState, r *rng) bool {
		return one(g.op.Operators, r, func(x *operatorstypes.Operator) { x.Admin = pick(r, []string{"", noAddr}) })
	},
	"operator without address": func(g *genState, r *rng) bool {
		return one(g.op.Operators, r, func(x *operatorstypes.Operator) { x.Address = pick(r, []string{"", noAddr}) })
	},
	"operator with other shares": func(g *genState, r *rng) bool {
		return one(g.op.Operators, r, func(x *operatorstypes.Operator) {
			x.DelegatorShares = x.DelegatorShares.Add(sdk.NewDecCoin("operator/1/"+dAAA, math.NewInt(r.i64(9)+1)))
		})
	},
	"operator with tokens from nowhere": func(g *genState, r *rng) bool {
		return one(g.op.Operators, r, func(x *operatorstypes.Operator) {
			x.Tokens = x.Tokens.Add(sdk.NewCoin(dAAA, math.NewInt(1).MulRaw(1e18).MulRaw(1e18)))
		})
	},
	"operator gone": func(g *genState, r *rng) bool {
		l := g.dels(restakingtypes.DELEGATION_TYPE_OPERATOR)
		if len(l) == 0 {
			return false
		}
		id := pick(r, l).TargetID
		g.op.Operators = drop(g.op.Operators, func(x operatorstypes.Operator) bool { return x.ID == id })
		return true
	},
	"operator settings twice": func(g *genState, r *rng) bool { return twice(&g.op.OperatorsParams, r, nil) },
	"commission above one": func(g *genState, r *rng) bool {
		return one(g.op.OperatorsParams, r, func(x *operatorstypes.OperatorParamsRecord) { x.Params.CommissionRate = dec("1.000000000000000001") })
	},
	"negative commission": func(g *genState, r *rng) bool {
		return one(g.op.OperatorsParams, r, func(x *operatorstypes.OperatorParamsRecord) { x.Params.CommissionRate = dec("-0.000000000000000001") })
	},
	"settings of an unknown operator": func(g *genState, r *rng) bool {
		return twice(&g.op.OperatorsParams, r, func(x *operatorstypes.OperatorParamsRecord) { x.OperatorID = unknownID })
	},
	"deactivation twice": func(g *genState, r *rng) bool { return twice(&g.op.UnbondingOperators, r, nil) },
	"deactivation of an unknown operator": func(g *genState, r *rng) bool {
		g.op.UnbondingOperators = append(g.op.UnbondingOperators, operatorstypes.NewUnbondingOperator(unknownID, g.now.Add(sec(60))))
		return true
	},
	"deactivation of an operator that is not deactivating": func(g *genState, r *rng) bool {
		var l []uint32
		for _, o := range g.op.Operators {
			if o.Status != operatorstypes.OPERATOR_STATUS_INACTIVATING {
				l = append(l, o.ID)
			}
		}
		if len(l) == 0 {
			return false
		}
		g.op.UnbondingOperators = append(g.op.UnbondingOperators, operatorstypes.NewUnbondingOperator(pick(r, l), g.now.Add(sec(60))))
		return true
	},
	"deactivation at no time": func(g *genState, r *rng) bool {
		return one(g.op.UnbondingOperators, r, func(x *operatorstypes.UnbondingOperator) { x.UnbondingCompletionTime = time.Time{} })
	},
	"no deactivation time":       always(func(g *genState) { g.op.Params.DeactivationTime = 0 }),
	"negative deactivation time": always(func(g *genState) { g.op.Params.DeactivationTime = -1 }),
	"bad operator fee":           always(func(g *genState) { g.op.Params.OperatorRegistrationFee = badCoins }),
	// services
	"no next service": always(func(g *genState) { g.sv.NextServiceID = 0 }),
	"next service taken": func(g *genState, r *rng) bool {
		return one(g.sv.Services, r, func(x *servicestypes.Service) { g.sv.NextServiceID = x.ID })
	},
	"service twice": func(g *genState, r *rng) bool { return twice(&g.sv.Services, r, nil) },
	"service without id": func(g *genState, r *rng) bool {
		return one(g.sv.Services, r, func(x *servicestypes.Service) { x.ID = 0 })
	},
	"service without status": func(g *genState, r *rng) bool {
		return one(g.sv.Services, r, func(x *servicestypes.Service) { x.Status = 0 })
	},
	"service without name": func(g *genState, r *rng) bool {
		return one(g.sv.Services, r, func(x *servicestypes.Service) { x.Name = "" })
	},
	"service without admin": func(g *genState, r *rng) bool {
		return one(g.sv.Services, r, func(x *servicestypes.Service) { x.Admin = pick(r, []string{"", noAddr}) })
	},
	"service without address": func(g *genState, r *rng) bool {
		return one(g.sv.Services, r, func(x *servicestypes.Service) { x.Address = pick(r, []string{"", noAddr}) })
	},
	"service with other shares": func(g *genState, r *rng) bool {
		return one(g.sv.Services, r, func(x *servicestypes.Service) {
			x.DelegatorShares = x.DelegatorShares.Add(sdk.NewDecCoin("service/1/"+dAAA, math.NewInt(r.i64(9)+1)))
		})
	},
	"service with tokens from nowhere": func(g *genState, r *rng) bool {
		return one(g.sv.Services, r, func(x *servicestypes.Service) {
			x.Tokens = x.Tokens.Add(sdk.NewCoin(dAAA, math.NewInt(1).MulRaw(1e18).MulRaw(1e18)))
		})
	},
	"service gone": func(g *genState, r *rng) bool {
		l := g.dels(restakingtypes.DELEGATION_TYPE_SERVICE)
		if len(l) == 0 {
			return false
		}
		id := pick(r, l).TargetID
		g.sv.Services = drop(g.sv.Services, func(x servicestypes.Service) bool { return x.ID == id })
		return true
	},
	"service settings twice": func(g *genState, r *rng) bool { return twice(&g.sv.ServicesParams, r, nil) },
	"settings of service 0": func(g *genState, r *rng) bool {
		return one(g.sv.ServicesParams, r, func(x *servicestypes.ServiceParamsRecord) { x.ServiceID = 0 })
	},
	"settings of an unknown service": func(g *genState, r *rng) bool {
		return twice(&g.sv.ServicesParams, r, func(x *servicestypes.ServiceParamsRecord) { x.ServiceID = unknownID })
	},
	"service with a bad denom": func(g *genState, r *rng) bool {
		return one(g.sv.ServicesParams, r, func(x *servicestypes.ServiceParamsRecord) { x.Params.AllowedDenoms = []string{dAAA, "1"} })
	},
	"bad service fee": always(func(g *genState) { g.sv.Params.ServiceRegistrationFee = badCoins }),
	// pools
	"no next pool": always(func(g *genState) { g.po.NextPoolID = 0 }),
	"next pool taken": func(g *genState, r *rng) bool {
		return one(g.po.Pools, r, func(x *poolstypes.Pool) { g.po.NextPoolID = x.ID })
	},
	"pool without id": func(g *genState, r *rng) bool { return one(g.po.Pools, r, func(x *poolstypes.Pool) { x.ID = 0 }) },
	"pool with a bad denom": func(g *genState, r *rng) bool {
		return one(g.po.Pools, r, func(x *poolstypes.Pool) { x.Denom = "1" })
	},
	"pool without address": func(g *genState, r *rng) bool {
		return one(g.po.Pools, r, func(x *poolstypes.Pool) { x.Address = pick(r, []string{"", noAddr}) })
	},
	"pool with other shares": func(g *genState, r *rng) bool {
		return one(g.po.Pools, r, func(x *poolstypes.Pool) { x.DelegatorShares = x.DelegatorShares.Add(dec("0.5")) })
	},
	"pool with tokens from nowhere": func(g *genState, r *rng) bool {
		return one(g.po.Pools, r, func(x *poolstypes.Pool) { x.Tokens = x.Tokens.Add(math.NewInt(1).MulRaw(1e18).MulRaw(1e18)) })
	},
	"pool gone": func(g *genState, r *rng) bool {
		l := g.dels(restakingtypes.DELEGATION_TYPE_POOL)
		if len(l) == 0 {
			return false
		}
		id := pick(r, l).TargetID
		g.po.Pools = drop(g.po.Pools, func(x poolstypes.Pool) bool { return x.ID == id })
		return true
	},
	"two pools of a denom": func(g *genState, r *rng) bool {
		id := g.po.NextPoolID
		g.po.NextPoolID++
		return twice(&g.po.Pools, r, func(x *poolstypes.Pool) {
			*x = poolstypes.NewPool(id, x.Denom)
			a, b := g.rw.PoolsRecords, &g.rw.PoolsRecords
			_ = a
			b.HistoricalRewards = append(b.HistoricalRewards, rewardstypes.HistoricalRewardsRecord{DelegationTargetID: id, Rewards: rewardstypes.NewHistoricalRewards(rewardstypes.ServicePools{}, 1)})
			b.CurrentRewards = append(b.CurrentRewards, rewardstypes.CurrentRewardsRecord{DelegationTargetID: id, Rewards: rewardstypes.NewCurrentRewards(rewardstypes.ServicePools{}, 1)})
		})
	},
	// restaking
	"joined services twice": func(g *genState, r *rng) bool { return twice(&g.rs.OperatorsJoinedServices, r, nil) },
	"allow list twice":      func(g *genState, r *rng) bool { return twice(&g.rs.ServicesAllowedOperators, r, nil) },
	"securing pools twice":  func(g *genState, r *rng) bool { return twice(&g.rs.ServicesSecuringPools, r, nil) },
	"joined by operator 0": func(g *genState, r *rng) bool {
		return one(g.rs.OperatorsJoinedServices, r, func(x *restakingtypes.OperatorJoinedServices) { x.OperatorID = 0 })
	},
	"joined service 0": func(g *genState, r *rng) bool {
		return one(g.rs.OperatorsJoinedServices, r, func(x *restakingtypes.OperatorJoinedServices) { x.ServiceIDs = append(x.ServiceIDs, 0) })
	},
	"joined an unknown service": func(g *genState, r *rng) bool {
		return one(g.rs.OperatorsJoinedServices, r, func(x *restakingtypes.OperatorJoinedServices) { x.ServiceIDs = append(x.ServiceIDs, unknownID) })
	},
	"allow list of service 0": func(g *genState, r *rng) bool {
		return one(g.rs.ServicesAllowedOperators, r, func(x *restakingtypes.ServiceAllowedOperators) { x.ServiceID = 0 })
	},
	"operator 0 allowed": func(g *genState, r *rng) bool {
		return one(g.rs.ServicesAllowedOperators, r, func(x *restakingtypes.ServiceAllowedOperators) { x.OperatorIDs = append(x.OperatorIDs, 0) })
	},
	"unknown operator allowed": func(g *genState, r *rng) bool {
		return one(g.rs.ServicesAllowedOperators, r, func(x *restakingtypes.ServiceAllowedOperators) { x.OperatorIDs = append(x.OperatorIDs, unknownID) })
	},
	"securing pools of service 0": func(g *genState, r *rng) bool {
		return one(g.rs.ServicesSecuringPools, r, func(x *restakingtypes.ServiceSecuringPools) { x.ServiceID = 0 })
	},
	"secured by pool 0": func(g *genState, r *rng) bool {
		return one(g.rs.ServicesSecuringPools, r, func(x *restakingtypes.ServiceSecuringPools) { x.PoolIDs = append(x.PoolIDs, 0) })
	},
	"delegation without type": func(g *genState, r *rng) bool {
		return one(g.rs.Delegations, r, func(x *restakingtypes.Delegation) { x.Type = 0 })
	},
	"delegation to target 0": func(g *genState, r *rng) bool {
		return one(g.rs.Delegations, r, func(x *restakingtypes.Delegation) { x.TargetID = 0 })
	},
	"delegation to an unknown target": func(g *genState, r *rng) bool {
		return one(g.rs.Delegations, r, func(x *restakingtypes.Delegation) { x.TargetID = unknownID })
	},
	"delegation of nobody": func(g *genState, r *rng) bool {
		return one(g.rs.Delegations, r, func(x *restakingtypes.Delegation) { x.UserAddress = pick(r, []string{"", noAddr}) })
	},
	"delegation of negative shares": func(g *genState, r *rng) bool {
		return one(g.rs.Delegations, r, func(x *restakingtypes.Delegation) {
			s := append(sdk.DecCoins{}, x.Shares...)
			s[r.n(len(s))].Amount = dec("-1")
			x.Shares = s
		})
	},
	"delegation of other shares": func(g *genState, r *rng) bool {
		return one(g.rs.Delegations, r, func(x *restakingtypes.Delegation) {
			s := append(sdk.DecCoins{}, x.Shares...)
			k := &s[r.n(len(s))]
			k.Amount = k.Amount.Add(dec(pick(r, []string{"0.000000000000000001", "1", "1000000"})))
			x.Shares = s
		})
	},
	"delegation gone": func(g *genState, r *rng) bool {
		n := len(g.rs.Delegations)
		if n == 0 {
			return false
		}
		i := r.n(n)
		g.rs.Delegations = append(append([]restakingtypes.Delegation{}, g.rs.Delegations[:i]...), g.rs.Delegations[i+1:]...)
		return true
	},
	"undelegation without type": func(g *genState, r *rng) bool {
		return one(g.rs.UnbondingDelegations, r, func(x *restakingtypes.UnbondingDelegation) { x.Type = 0 })
	},
	"undelegation from target 0": func(g *genState, r *rng) bool {
		return one(g.rs.UnbondingDelegations, r, func(x *restakingtypes.UnbondingDelegation) { x.TargetID = 0 })
	},
	"undelegation of nobody": func(g *genState, r *rng) bool {
		return one(g.rs.UnbondingDelegations, r, func(x *restakingtypes.UnbondingDelegation) { x.DelegatorAddress = noAddr })
	},
	"undelegation without entries": func(g *genState, r *rng) bool {
		return one(g.rs.UnbondingDelegations, r, func(x *restakingtypes.UnbondingDelegation) { x.Entries = nil })
	},
	"undelegation without id":            ubdEntry(func(e *restakingtypes.UnbondingDelegationEntry) { e.UnbondingID = 0 }),
	"undelegation at no height":          ubdEntry(func(e *restakingtypes.UnbondingDelegationEntry) { e.CreationHeight = 0 }),
	"undelegation at no time":            ubdEntry(func(e *restakingtypes.UnbondingDelegationEntry) { e.CompletionTime = time.Time{} }),
	"undelegation of bad coins":          ubdEntry(func(e *restakingtypes.UnbondingDelegationEntry) { e.Balance = badCoins }),
	"undelegation of bad coins at first": ubdEntry(func(e *restakingtypes.UnbondingDelegationEntry) { e.InitialBalance = badCoins }),
	"preferences of nobody": func(g *genState, r *rng) bool {
		return one(g.rs.UsersPreferences, r, func(x *restakingtypes.UserPreferencesEntry) { x.UserAddress = noAddr })
	},
	"service 0 trusted": func(g *genState, r *rng) bool {
		return one(g.rs.UsersPreferences, r, func(x *restakingtypes.UserPreferencesEntry) {
			x.Preferences.TrustedServicesIDs = append(append([]uint32{}, x.Preferences.TrustedServicesIDs...), 0)
		})
	},
	"no unbonding time":       always(func(g *genState) { g.rs.Params.UnbondingTime = 0 }),
	"negative unbonding time": always(func(g *genState) { g.rs.Params.UnbondingTime = -1 }),
	"bad restakable denom": always(func(g *genState) {
		g.rs.Params.AllowedDenoms = append(append([]string{}, g.rs.Params.AllowedDenoms...), "1")
	}),
	// rewards
	"no next plan":             always(func(g *genState) { g.rw.NextRewardsPlanID = 0 }),
	"plan twice":               func(g *genState, r *rng) bool { return twice(&g.rw.RewardsPlans, r, nil) },
	"plan without id":          plan(func(x *rewardstypes.RewardsPlan) { x.ID = 0 }),
	"plan of service 0":        plan(func(x *rewardstypes.RewardsPlan) { x.ServiceID = 0 }),
	"plan described at length": plan(func(x *rewardstypes.RewardsPlan) { x.Description = strings.Repeat("x", 100_000) }),
	"plan of bad coins":        plan(func(x *rewardstypes.RewardsPlan) { x.AmountPerDay = badCoins }),
	"plan of too many coins": plan(func(x *rewardstypes.RewardsPlan) {
		x.AmountPerDay = sdk.Coins{sdk.NewCoin(dAAA, math.NewIntFromBigInt(new(big.Int).Lsh(big.NewInt(1), 250)))}
	}),
	"plan ending at its start":     plan(func(x *rewardstypes.RewardsPlan) { x.EndTime = x.StartTime }),
	"plan ending before its start": plan(func(x *rewardstypes.RewardsPlan) { x.EndTime = x.StartTime.Add(-1) }),
	"plan without pool":            plan(func(x *rewardstypes.RewardsPlan) { x.RewardsPool = noAddr }),
	"plan with mixed up pools": plan(func(x *rewardstypes.RewardsPlan) {
		x.PoolsDistribution.DelegationType = restakingtypes.DELEGATION_TYPE_OPERATOR
	}),
	"plan with mixed up operators": plan(func(x *rewardstypes.RewardsPlan) {
		x.OperatorsDistribution.DelegationType = restakingtypes.DELEGATION_TYPE_POOL
	}),
	"bad plan fee": always(func(g *genState) { g.rw.Params.RewardsPlanCreationFee = badCoins }),
	"rewards that do not exist": func(g *genState, r *rng) bool {
		d := pick(r, []string{dAAA, dBBB, dBond})
		p := rewardstypes.DecPools{rewardstypes.NewDecPool(d, sdk.NewDecCoins(sdk.NewDecCoin(d, math.NewInt(1).MulRaw(1e18).MulRaw(1e18))))}
		l := pick(r, []*rewardstypes.DelegationTypeRecords{&g.rw.PoolsRecords, &g.rw.OperatorsRecords, &g.rw.ServicesRecords})
		return one(l.OutstandingRewards, r, func(x *rewardstypes.OutstandingRewardsRecord) { x.OutstandingRewards = p })
	},
	"start of a delegation gone": func(g *genState, r *rng) bool {
		l := pick(r, []*rewardstypes.DelegationTypeRecords{&g.rw.PoolsRecords, &g.rw.OperatorsRecords, &g.rw.ServicesRecords})
		n := len(l.DelegatorStartingInfos)
		if n == 0 {
			return false
		}
		i := r.n(n)
		l.DelegatorStartingInfos = append(append([]rewardstypes.DelegatorStartingInfoRecord{}, l.DelegatorStartingInfos[:i]...), l.DelegatorStartingInfos[i+1:]...)
		return true
	},
	"history referenced once more": func(g *genState, r *rng) bool {
		l := pick(r, []*rewardstypes.DelegationTypeRecords{&g.rw.PoolsRecords, &g.rw.OperatorsRecords, &g.rw.ServicesRecords})
		return one(l.HistoricalRewards, r, func(x *rewardstypes.HistoricalRewardsRecord) { x.Rewards.ReferenceCount++ })
	},
	"history gone": func(g *genState, r *rng) bool {
		l := pick(r, []*rewardstypes.DelegationTypeRecords{&g.rw.PoolsRecords, &g.rw.OperatorsRecords, &g.rw.ServicesRecords})
		n := len(l.HistoricalRewards)
		if n == 0 {
			return false
		}
		i := r.n(n)
		l.HistoricalRewards = append(append([]rewardstypes.HistoricalRewardsRecord{}, l.HistoricalRewards[:i]...), l.HistoricalRewards[i+1:]...)
		return true
	},
	"trust in pool 0": func(g *genState, r *rng) bool {
		return one(g.rw.PoolServiceTotalDelegatorShares, r, func(x *rewardstypes.PoolServiceTotalDelegatorShares) { x.PoolID = 0 })
	},
	"trust in service 0": func(g *genState, r *rng) bool {
		return one(g.rw.PoolServiceTotalDelegatorShares, r, func(x *rewardstypes.PoolServiceTotalDelegatorShares) { x.ServiceID = 0 })
	},
	"negative trust": func(g *genState, r *rng) bool {
		return one(g.rw.PoolServiceTotalDelegatorShares, r, func(x *rewardstypes.PoolServiceTotalDelegatorShares) {
			x.Shares = sdk.DecCoins{{Denom: dAAA, Amount: dec("-1")}}
		})
	},
	"withdraw address of nobody": func(g *genState, r *rng) bool {
		return one(g.rw.DelegatorWithdrawInfos, r, func(x *rewardstypes.DelegatorWithdrawInfo) { x.WithdrawAddress = noAddr })
	},
	// liquid vesting
	"no insurance":       always(func(g *genState) { g.lv.Params.InsurancePercentage = math.LegacyZeroDec() }),
	"too much insurance": always(func(g *genState) { g.lv.Params.InsurancePercentage = dec("100.000000000000000001") }),
	"bad minter":         always(func(g *genState) { g.lv.Params.Minters = append(append([]string{}, g.lv.Params.Minters...), noAddr) }),
	"bad burner":         always(func(g *genState) { g.lv.Params.Burners = append(append([]string{}, g.lv.Params.Burners...), noAddr) }),
	"bad depositor": always(func(g *genState) {
		g.lv.Params.TrustedDelegates = append(append([]string{}, g.lv.Params.TrustedDelegates...), noAddr)
	}),
	"bad channel": always(func(g *genState) {
		g.lv.Params.AllowedChannels = append(append([]string{}, g.lv.Params.AllowedChannels...), "chan")
	}),
	"fund of nobody": func(g *genState, r *rng) bool {
		return one(g.lv.UserInsuranceFunds, r, func(x *lvtypes.UserInsuranceFundEntry) { x.UserAddress = noAddr })
	},
	"fund of bad coins": func(g *genState, r *rng) bool {
		return one(g.lv.UserInsuranceFunds, r, func(x *lvtypes.UserInsuranceFundEntry) { x.Balance = badCoins })
	},
	"fund that does not exist": func(g *genState, r *rng) bool {
		return one(g.lv.UserInsuranceFunds, r, func(x *lvtypes.UserInsuranceFundEntry) {
			x.Balance = x.Balance.Add(sdk.NewCoin(pick(r, []string{dAAA, "none"}), math.NewInt(1).MulRaw(1e18).MulRaw(1e18)))
		})
	},
	"fund too small": func(g *genState, r *rng) bool {
		// somebody whose fund covers something
		var l []func()
		for i := range g.lv.UserInsuranceFunds {
			x := &g.lv.UserInsuranceFunds[i]
			for _, c := range g.m.lockedActive(x.UserAddress) {
				d := nativeOf(c.Denom)
				if x.Balance.AmountOf(d).IsPositive() && math.LegacyNewDecFromInt(c.Amount).Mul(g.m.pIns).GTE(math.LegacyNewDec(200)) {
					l = append(l, func() { x.Balance = x.Balance.Sub(sdk.NewCoin(d, x.Balance.AmountOf(d))) })
				}
			}
		}
		if len(l) == 0 {
			return false
		}
		pick(r, l)()
		return true
	},
	"burn of nobody's tokens": func(g *genState, r *rng) bool {
		return one(g.lv.BurnCoins, r, func(x *lvtypes.BurnCoins) { x.DelegatorAddress = noAddr })
	},
	"burn at no time": func(g *genState, r *rng) bool {
		return one(g.lv.BurnCoins, r, func(x *lvtypes.BurnCoins) { x.CompletionTime = time.Time{} })
	},
	"burn of bad coins": func(g *genState, r *rng) bool {
		return one(g.lv.BurnCoins, r, func(x *lvtypes.BurnCoins) { x.Amount = badCoins })
	},
	"burn of more than is undelegated": func(g *genState, r *rng) bool {
		return one(g.lv.BurnCoins, r, func(x *lvtypes.BurnCoins) {
			c := x.Amount[r.n(len(x.Amount))]
			x.Amount = x.Amount.Add(sdk.NewCoin(c.Denom, math.NewInt(1).MulRaw(1e18).MulRaw(1e18)))
		})
	},
	"burn of tokens nobody undelegates": func(g *genState, r *rng) bool {
		by := map[string]bool{}
		for _, u := range g.rs.UnbondingDelegations {
			by[u.DelegatorAddress] = true
		}
		for _, u := range users {
			if !by[u.addr] {
				g.lv.BurnCoins = append(g.lv.BurnCoins, lvtypes.NewBurnCoins(u.addr, g.now.Add(sec(60)), sdk.NewCoins(sdk.NewInt64Coin(lockedOf(dAAA), 1))))
				return true
			}
		}
		return false
	},
}

func drop[T any](l []T, f func(T) bool) []T {
	var o []T
	for _, x := range l {
		if !f(x) {
			o = append(o, x)
		}
	}
	return o
}

func plan(f func(*rewardstypes.RewardsPlan)) genFault {
	return func(g *genState, r *rng) bool { return one(g.rw.RewardsPlans, r, f) }
}

func ubdEntry(f func(*restakingtypes.UnbondingDelegationEntry)) genFault {
	return func(g *genState, r *rng) bool {
		return one(g.rs.UnbondingDelegations, r, func(x *restakingtypes.UnbondingDelegation) {
			x.Entries = append([]restakingtypes.UnbondingDelegationEntry{}, x.Entries...)
			one(x.Entries, r, f)
		})
	}
}

var genFaultNames = func() []string {
	var o []string
	for k := range genFaults {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}()

// exported writes the state out, as an operator would.
func (s *Sim) exported(st *Step) servertypes.ExportedApp {
	nw := s.nw
	src := s.observer()
	tmp := newNode(src.idx, src.cfg, src.disk.clone(), nw.stats)
	if d := tmp.open(nw.time, st.Noise); d != nil {
		s.fail("X01 X02 C02", "export", "node does not start: %v [%s]", d.val, d.stack)
	}
	defer tmp.stop()
	var ex servertypes.ExportedApp
	var err error
	if d := tmp.enter("export", nw.time, st.Noise, func() { ex, err = tmp.app.ExportAppStateAndValidators(false, nil, nil) }); d != nil {
		s.fail("X01 X02", "export", "panics: %v [%s]", d.val, d.stack)
	}
	if err != nil {
		s.fail("X01 X02", "export", "%v", err)
	}
	if ex.Height != nw.height+1 {
		s.fail("X01", "export height", "%d at height %d", ex.Height, nw.height)
	}
	if err := s.validate(tmp, ex.AppState); err != nil {
		s.fail("X01 X02", "the exported state is not valid", "%v", err)
	}
	return ex
}

// validate does what the command that validates a genesis file does, for the
// modules of milkyway. (The rate limiting module refuses what it exports itself
// during the first hour of a chain.)
func (s *Sim) validate(n *node, app []byte) (err error) {
	var a map[string]json.RawMessage
	must0(json.Unmarshal(app, &a))
	if d := n.enter("validate", s.nw.time, 3, func() {
		for _, k := range sortedKeys((&genState{}).parts()) {
			b, ok := n.app.ModuleBasics[k].(module.HasGenesisBasics)
			if !ok {
				err = fmt.Errorf("%s cannot be validated", k)
				return
			}
			if err = b.ValidateGenesis(n.app.AppCodec(), n.app.GetTxConfig(), a[k]); err != nil {
				return
			}
		}
	}); d != nil {
		return fmt.Errorf("panic: %v", d.val)
	}
	return err
}

// damage starts chains from damaged exports.
func (s *Sim) damage(st *Step) {
	ex := s.exported(st)
	s.stats.fault("state file written")
	for i, name := range st.Tamper {
		r := newRng(st.Noise + uint64(i)*7919)
		var a map[string]json.RawMessage
		must0(json.Unmarshal(ex.AppState, &a))
		g := &genState{m: s.m, now: s.nw.time}
		for k, p := range g.parts() {
			s.cdc.MustUnmarshalJSON(a[k], p)
		}
		before := map[string]string{}
		for k, p := range g.parts() {
			before[k] = string(s.cdc.MustMarshalJSON(p))
		}
		f := genFaults[name]
		if f == nil || !f(g, r) {
			continue
		}
		changed := false
		for k, p := range g.parts() {
			b := s.cdc.MustMarshalJSON(p)
			changed = changed || string(b) != before[k]
			a[k] = b
		}
		if !changed {
			continue
		}
		bz := must(json.Marshal(a))
		s.stats.fault("state file damaged: " + name)
		n := newNode(0, s.nw.nodes[0].cfg, newSimDisk(), s.nw.stats)
		if d := n.open(s.nw.time, 7); d != nil {
			s.fail("X02", "start", "%v", d)
		}
		how := "validation"
		err := s.validate(n, bz)
		if err == nil {
			how = "the start"
			req := s.genesisOf(ex, bz)
			d := n.enter("genesis", s.nw.time, 5, func() {
				ctx, _ := n.app.NewUncachedContext(false, headerAt(s.nw)).CacheContext()
				ctx = ctx.WithConsensusParams(*req.ConsensusParams)
				_, err = n.app.InitChainer(ctx, req)
			})
			if d != nil {
				err = fmt.Errorf("panic: %v", d.val)
			}
		}
		n.stop()
		if err == nil {
			s.fail("X02", "a chain starts from an inconsistent state", "%s", name)
		}
		s.stats.count("state file refused by " + how)
		s.logf("damaged state file (%s): refused by %s: %s", name, how, clip(err.Error(), 200))
	}
}
