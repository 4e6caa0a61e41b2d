package main

// Requests of which a field is wrong whatever the state of the chain: they
// must be refused, and the chain must survive them.

import (
	"strings"
	"time"

	"cosmossdk.io/math"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

type spoiler struct {
	name string
	do   func()
}

// spoilers are the ways to spoil a message.
func spoilers(st *model, m sdk.Msg, r *rng) []spoiler {
	var o []spoiler
	add := func(n string, f func()) { o = append(o, spoiler{n, f}) }
	id32 := func(n string, p *uint32) { add(n+" 0", func() { *p = 0 }) }
	addr := func(n string, p *string) {
		add("bad "+n, func() {
			*p = pick(r, []string{"", " ", noAddr, "cosmos1zcjduepq0vu2zgkgk49efa0nqwzndanq5m4c7pa3u4apz4g2r9gspqg6g9jq", (*p) + "x", "M" + strings.TrimPrefix(*p, "m")})
		})
	}
	coin := func(p *sdk.Coin) {
		add("no amount", func() { p.Amount = math.ZeroInt() })
		add("negative amount", func() { p.Amount = math.NewInt(-r.i64(1000) - 1) })
		add("bad denom", func() { p.Denom = pick(r, []string{"", "1", "a b", strings.Repeat("a", 200)}) })
	}
	coins := func(p *sdk.Coins) {
		c := append(sdk.Coins{}, *p...)
		if len(c) == 0 {
			return
		}
		i := r.n(len(c))
		if _, ok := m.(*lvtypes.MsgWithdrawInsuranceFund); !ok { // nothing may be withdrawn
			add("no coins", func() { *p = nil })
		}
		add("no amount", func() { c[i].Amount = math.ZeroInt(); *p = c })
		add("negative amount", func() { c[i].Amount = math.NewInt(-r.i64(1000) - 1); *p = c })
		add("bad denom", func() { c[i].Denom = pick(r, []string{"", "1", "a b"}); *p = c })
		add("the same coin twice", func() { *p = append(c[:i+1:i+1], c[i:]...) })
		add("coins out of order", func() { *p = unsorted(c, r) })
	}
	name := func(n string, p *string) { add("blank "+n, func() { *p = pick(r, []string{"", " ", "\t\n"}) }) }
	switch v := m.(type) {
	case *operatorstypes.MsgRegisterOperator:
		name("name", &v.Moniker)
	case *operatorstypes.MsgUpdateOperator:
		id32("operator", &v.OperatorID)
		name("name", &v.Moniker)
	case *operatorstypes.MsgDeactivateOperator:
		id32("operator", &v.OperatorID)
	case *operatorstypes.MsgReactivateOperator:
		id32("operator", &v.OperatorID)
	case *operatorstypes.MsgDeleteOperator:
		id32("operator", &v.OperatorID)
	case *operatorstypes.MsgSetOperatorParams:
		id32("operator", &v.OperatorID)
		add("commission above one", func() { v.Params.CommissionRate = pick(r, []math.LegacyDec{dec("1.000000000000000001"), dec("2")}) })
		add("negative commission", func() { v.Params.CommissionRate = dec("-0.000000000000000001") })
	case *operatorstypes.MsgTransferOperatorOwnership:
		id32("operator", &v.OperatorID)
		addr("admin", &v.NewAdmin)
	case *servicestypes.MsgCreateService:
		name("name", &v.Name)
	case *servicestypes.MsgUpdateService:
		id32("service", &v.ServiceID)
		name("name", &v.Name)
	case *servicestypes.MsgActivateService:
		id32("service", &v.ServiceID)
	case *servicestypes.MsgDeactivateService:
		id32("service", &v.ServiceID)
	case *servicestypes.MsgDeleteService:
		id32("service", &v.ServiceID)
	case *servicestypes.MsgTransferServiceOwnership:
		id32("service", &v.ServiceID)
		addr("admin", &v.NewAdmin)
	case *servicestypes.MsgSetServiceParams:
		id32("service", &v.ServiceID)
		add("bad denom", func() {
			v.ServiceParams.AllowedDenoms = append(append([]string{}, v.ServiceParams.AllowedDenoms...), pick(r, []string{"", "1", "a b"}))
		})
	case *restakingtypes.MsgJoinService:
		id32("operator", &v.OperatorID)
		id32("service", &v.ServiceID)
	case *restakingtypes.MsgLeaveService:
		id32("operator", &v.OperatorID)
		id32("service", &v.ServiceID)
	case *restakingtypes.MsgAddOperatorToAllowList:
		id32("operator", &v.OperatorID)
		id32("service", &v.ServiceID)
	case *restakingtypes.MsgRemoveOperatorFromAllowlist:
		id32("operator", &v.OperatorID)
		id32("service", &v.ServiceID)
	case *restakingtypes.MsgBorrowPoolSecurity:
		id32("pool", &v.PoolID)
		id32("service", &v.ServiceID)
	case *restakingtypes.MsgCeasePoolSecurityBorrow:
		id32("pool", &v.PoolID)
		id32("service", &v.ServiceID)
	case *restakingtypes.MsgDelegatePool:
		coin(&v.Amount)
	case *restakingtypes.MsgUndelegatePool:
		coin(&v.Amount)
	case *restakingtypes.MsgDelegateOperator:
		id32("operator", &v.OperatorID)
		coins(&v.Amount)
	case *restakingtypes.MsgUndelegateOperator:
		id32("operator", &v.OperatorID)
		coins(&v.Amount)
	case *restakingtypes.MsgDelegateService:
		id32("service", &v.ServiceID)
		coins(&v.Amount)
	case *restakingtypes.MsgUndelegateService:
		id32("service", &v.ServiceID)
		coins(&v.Amount)
	case *restakingtypes.MsgSetUserPreferences:
		add("trust in service 0", func() {
			v.Preferences.TrustedServicesIDs = append(append([]uint32{}, v.Preferences.TrustedServicesIDs...), 0)
		})
	case *rewardstypes.MsgCreateRewardsPlan:
		id32("service", &v.ServiceID)
		planSpoilers(st, add, r, &v.Description, &v.Amount, &v.StartTime, &v.EndTime, &v.PoolsDistribution, &v.OperatorsDistribution, &v.UsersDistribution)
	case *rewardstypes.MsgEditRewardsPlan:
		add("plan 0", func() { v.ID = 0 })
		planSpoilers(st, add, r, &v.Description, &v.Amount, &v.StartTime, &v.EndTime, &v.PoolsDistribution, &v.OperatorsDistribution, &v.UsersDistribution)
	case *rewardstypes.MsgSetWithdrawAddress:
		addr("withdraw address", &v.WithdrawAddress)
	case *rewardstypes.MsgWithdrawDelegatorReward:
		id32("target", &v.DelegationTargetID)
		add("bad target", func() { v.DelegationType = pick(r, []restakingtypes.DelegationType{0, 4, 99, -1}) })
	case *rewardstypes.MsgWithdrawOperatorCommission:
		id32("operator", &v.OperatorID)
	case *lvtypes.MsgMintLockedRepresentation:
		addr("receiver", &v.Receiver)
		coins(&v.Amount)
	case *lvtypes.MsgBurnLockedRepresentation:
		addr("owner", &v.User)
		coins(&v.Amount)
	case *lvtypes.MsgWithdrawInsuranceFund:
		coins(&v.Amount)
	}
	return o
}

// unsorted are coins with one more, in the wrong order.
func unsorted(c sdk.Coins, r *rng) sdk.Coins {
	for _, i := range r.perm(5) {
		d := []string{dAAA, dBBB, dBond, dRwd, "zzz"}[i]
		if d > c[len(c)-1].Denom {
			return append(sdk.Coins{sdk.NewInt64Coin(d, 1)}, c...)
		}
		if d < c[0].Denom {
			return append(c[:len(c):len(c)], sdk.NewInt64Coin(d, 1))
		}
	}
	return sdk.Coins{sdk.NewInt64Coin("zzzz", 1), sdk.NewInt64Coin("zzz", 1)}
}

func planSpoilers(st *model, add func(string, func()), r *rng, descr *string, amt *sdk.Coins, start, end *time.Time, pools, ops *rewardstypes.Distribution, users *rewardstypes.UsersDistribution) {
	add("long description", func() { *descr = strings.Repeat("x", 1001) })
	c := append(sdk.Coins{}, *amt...)
	if len(c) > 0 {
		i := r.n(len(c))
		add("no amount", func() { c[i].Amount = math.ZeroInt(); *amt = c })
		add("negative amount", func() { c[i].Amount = math.NewInt(-r.i64(1000) - 1); *amt = c })
		add("bad denom", func() { c[i].Denom = pick(r, []string{"", "1", "a b"}); *amt = c })
		add("the same coin twice", func() { *amt = append(c[:i+1:i+1], c[i:]...) })
		add("coins out of order", func() { *amt = unsorted(c, r) })
	}
	add("end at the start", func() { *end = *start })
	add("end before the start", func() { *end = start.Add(-time.Duration(r.i64(1e15) + 1)) })
	any := func(m proto.Message) *codectypes.Any { return must(codectypes.NewAnyWithValue(m)) }
	for _, d := range []struct {
		n string
		d *rewardstypes.Distribution
		t restakingtypes.DelegationType
	}{{"pools", pools, restakingtypes.DELEGATION_TYPE_POOL}, {"operators", ops, restakingtypes.DELEGATION_TYPE_OPERATOR}} {
		add("bad kind of "+d.n, func() {
			for _, k := range []restakingtypes.DelegationType{0, 1, 2, 3, 7} {
				if k != d.t && r.p(0.5) {
					d.d.DelegationType = k
					return
				}
			}
			d.d.DelegationType = 99
		})
		add("distribution among "+d.n+" of another kind", func() { d.d.Type = any(&rewardstypes.UsersDistributionTypeBasic{}) })
		// otherwise as it should be
		ids := sortedKeys(st.ops)
		if d.t == restakingtypes.DELEGATION_TYPE_POOL {
			ids = sortedKeys(st.pools)
		}
		for len(ids) < 3 {
			ids = append(ids, uint32(len(ids)+1))
		}
		o := r.perm(len(ids))
		w := []rewardstypes.DistributionWeight{rewardstypes.NewDistributionWeight(ids[o[0]], 1), rewardstypes.NewDistributionWeight(ids[o[1]], 5)}
		add("weight 0 among "+d.n, func() {
			w[r.n(2)].Weight = 0
			d.d.Type = any(&rewardstypes.DistributionTypeWeighted{Weights: w})
		})
		add("weighted 0 among "+d.n, func() {
			w[r.n(2)].DelegationTargetID = 0
			d.d.Type = any(&rewardstypes.DistributionTypeWeighted{Weights: w})
		})
		add("weighted twice among "+d.n, func() {
			w[0].DelegationTargetID = w[1].DelegationTargetID
			if r.p(0.5) {
				w = append(w, rewardstypes.NewDistributionWeight(ids[o[2]], 1))
				w[1], w[2] = w[2], w[1]
			}
			d.d.Type = any(&rewardstypes.DistributionTypeWeighted{Weights: w})
		})
	}
	add("distribution among users of another kind", func() { users.Type = any(&rewardstypes.DistributionTypeBasic{}) })
}

// spoil makes a message malformed and tells how.
func (g *generator) spoil(m sdk.Msg) (sdk.Msg, string) {
	var c sdk.Msg
	must0(g.s.cdc.UnmarshalInterfaceJSON(g.s.encodeMsg(m), &c))
	l := spoilers(g.s.m, c, g.r)
	if len(l) == 0 {
		return nil, ""
	}
	s := pick(g.r, l)
	s.do()
	return c, s.name
}
