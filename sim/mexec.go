package main

// What every message must do, and when it must be refused.

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	vestingtypes "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	govv1b1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1beta1"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// msgTags are the properties a message kind exercises.
func msgTags(m sdk.Msg) string {
	switch v := m.(type) {
	case *operatorstypes.MsgRegisterOperator, *operatorstypes.MsgUpdateOperator, *operatorstypes.MsgDeactivateOperator,
		*operatorstypes.MsgReactivateOperator, *operatorstypes.MsgDeleteOperator, *operatorstypes.MsgTransferOperatorOwnership, *operatorstypes.MsgSetOperatorParams:
		return "O01"
	case *servicestypes.MsgCreateService, *servicestypes.MsgUpdateService, *servicestypes.MsgActivateService, *servicestypes.MsgDeactivateService,
		*servicestypes.MsgDeleteService, *servicestypes.MsgTransferServiceOwnership, *servicestypes.MsgSetServiceParams:
		return "S01"
	case *servicestypes.MsgAccreditService, *servicestypes.MsgRevokeServiceAccreditation:
		return "S01 G01"
	case *restakingtypes.MsgJoinService, *restakingtypes.MsgLeaveService, *restakingtypes.MsgAddOperatorToAllowList,
		*restakingtypes.MsgRemoveOperatorFromAllowlist, *restakingtypes.MsgBorrowPoolSecurity, *restakingtypes.MsgCeasePoolSecurityBorrow:
		return "S02"
	case *restakingtypes.MsgDelegatePool:
		if isLocked(v.Amount.Denom) {
			return "R03 L02"
		}
		return "R03"
	case *restakingtypes.MsgDelegateOperator:
		return "R03" + lockTag(v.Amount, " L02")
	case *restakingtypes.MsgDelegateService:
		return "R03" + lockTag(v.Amount, " L02")
	case *restakingtypes.MsgUndelegatePool, *restakingtypes.MsgUndelegateOperator, *restakingtypes.MsgUndelegateService:
		return "R03 R02"
	case *restakingtypes.MsgSetUserPreferences:
		return "R04"
	case *rewardstypes.MsgCreateRewardsPlan, *rewardstypes.MsgEditRewardsPlan:
		return "W01"
	case *rewardstypes.MsgSetWithdrawAddress, *rewardstypes.MsgWithdrawDelegatorReward, *rewardstypes.MsgWithdrawOperatorCommission:
		return "W03"
	case *lvtypes.MsgMintLockedRepresentation:
		return "L01"
	case *lvtypes.MsgBurnLockedRepresentation:
		return "L04 L01"
	case *lvtypes.MsgWithdrawInsuranceFund:
		return "L02"
	case *assetstypes.MsgRegisterAsset, *assetstypes.MsgDeregisterAsset:
		return "G01 A01"
	case *operatorstypes.MsgUpdateParams, *servicestypes.MsgUpdateParams, *restakingtypes.MsgUpdateParams, *rewardstypes.MsgUpdateParams, *lvtypes.MsgUpdateParams:
		return "G01"
	case *govv1.MsgVote, *govv1.MsgVoteWeighted, *govv1b1.MsgVote, *govv1b1.MsgVoteWeighted:
		return "G02"
	case *govv1.MsgSubmitProposal, *govv1b1.MsgSubmitProposal:
		return "G01 G02"
	case *authz.MsgExec:
		s := "C04"
		if ms, err := v.GetMessages(); err == nil {
			for _, i := range ms {
				s += " " + msgTags(i)
			}
		}
		return s
	case *banktypes.MsgSend:
		return "C04" + lockTag(v.Amount, " L01")
	}
	if t := ibcTags(m); t != "" {
		return t
	}
	return "C04"
}

func lockTag(c sdk.Coins, t string) string {
	for _, k := range c {
		if isLocked(k.Denom) {
			return t
		}
	}
	return ""
}

func (x *mx) validCoins(tags string, c sdk.Coins) {
	if c.Validate() != nil {
		x.refuse(tags, "invalid coins %s", c)
	}
}

func (x *mx) needAddr(tags, a string) {
	if _, err := sdk.AccAddressFromBech32(a); err != nil {
		x.refuse(tags, "bad address %q", a)
	}
}

// run executes f; it returns the refusal, if any.
func (x *mx) run(f func()) (r *refusal) {
	defer func() {
		if e := recover(); e != nil {
			if q, ok := e.(*refusal); ok {
				r = q
				return
			}
			panic(e)
		}
	}()
	f()
	return nil
}

func (x *mx) op(tags string, id uint32, admin string) mOperator {
	o, ok := x.ops[id]
	if !ok {
		x.refuse(tags, "no operator %d", id)
	}
	if admin != "" && o.admin != admin {
		x.refuse(tags, "%s is not the admin of operator %d", name(admin), id)
	}
	return o
}

func (x *mx) svc(tags string, id uint32, admin string) mService {
	o, ok := x.svcs[id]
	if !ok {
		x.refuse(tags, "no service %d", id)
	}
	if admin != "" && o.admin != admin {
		x.refuse(tags, "%s is not the admin of service %d", name(admin), id)
	}
	return o
}

const keep = "[do-not-modify]"

func upd(old, n string) string {
	if n == keep {
		return old
	}
	return n
}

// exec performs a message that was authorised by its signer.
func (x *mx) exec(msg sdk.Msg) {
	x.ev.tags += " " + msgTags(msg)
	switch v := msg.(type) {
	// ---------------------------------------------------------- operators
	case *operatorstypes.MsgRegisterOperator:
		if strings.TrimSpace(v.Moniker) == "" || v.Moniker == keep || v.Website == keep || v.PictureURL == keep {
			x.refuse("O01", "bad description")
		}
		x.validCoins("O01", v.FeeAmount)
		x.chargeFee(v.Sender, x.pOp, v.FeeAmount, "O01")
		id := x.nextOp
		x.nextOp++
		x.ops[id] = mOperator{id: id, status: opActive, admin: v.Sender, moniker: v.Moniker, website: v.Website, pict: v.PictureURL, rate: math.LegacyZeroDec()}
		x.m.learn(target{tOperator, id})
	case *operatorstypes.MsgUpdateOperator:
		o := x.op("O01", v.OperatorID, v.Sender)
		o.moniker, o.website, o.pict = upd(o.moniker, v.Moniker), upd(o.website, v.Website), upd(o.pict, v.PictureURL)
		if strings.TrimSpace(o.moniker) == "" {
			x.refuse("O01", "blank moniker")
		}
		x.ops[o.id] = o
	case *operatorstypes.MsgDeactivateOperator:
		o := x.op("O01", v.OperatorID, v.Sender)
		if o.status != opActive {
			x.refuse("O01", "operator %d is not active", o.id)
		}
		o.status, o.inactiveAt = opInactivating, x.now.Add(x.pDeact)
		x.ops[o.id] = o
	case *operatorstypes.MsgReactivateOperator:
		o := x.op("O01", v.OperatorID, v.Sender)
		if o.status != opInactive {
			x.refuse("O01", "operator %d is not inactive", o.id)
		}
		o.status = opActive
		x.ops[o.id] = o
	case *operatorstypes.MsgDeleteOperator:
		o := x.op("O01", v.OperatorID, v.Sender)
		if o.status != opInactive {
			x.refuse("O01", "operator %d is not inactive", o.id)
		}
		x.deletable(target{tOperator, o.id}, "O01 R01 R02")
		x.payCommission(o, "W03", false)
		x.delOperator(o.id)
	case *operatorstypes.MsgTransferOperatorOwnership:
		o := x.op("O01", v.OperatorID, v.Sender)
		x.needAddr("O01", v.NewAdmin)
		o.admin = v.NewAdmin
		x.ops[o.id] = o
	case *operatorstypes.MsgSetOperatorParams:
		o := x.op("O01", v.OperatorID, v.Sender)
		r := v.Params.CommissionRate
		if r.IsNil() || r.IsNegative() || r.GT(math.LegacyOneDec()) {
			x.refuse("O01", "bad rate")
		}
		o.rate = r
		x.ops[o.id] = o
	// ---------------------------------------------------------- services
	case *servicestypes.MsgCreateService:
		if strings.TrimSpace(v.Name) == "" || v.Name == keep || v.Description == keep || v.Website == keep || v.PictureURL == keep {
			x.refuse("S01", "bad description")
		}
		x.validCoins("S01", v.FeeAmount)
		x.chargeFee(v.Sender, x.pSvc, v.FeeAmount, "S01")
		id := x.nextSvc
		x.nextSvc++
		x.svcs[id] = mService{id: id, status: svCreated, admin: v.Sender, name: v.Name, desc: v.Description, website: v.Website, pic: v.PictureURL}
		x.m.learn(target{tService, id})
	case *servicestypes.MsgUpdateService:
		o := x.svc("S01", v.ServiceID, v.Sender)
		o.name, o.desc, o.website, o.pic = upd(o.name, v.Name), upd(o.desc, v.Description), upd(o.website, v.Website), upd(o.pic, v.PictureURL)
		if strings.TrimSpace(o.name) == "" {
			x.refuse("S01", "blank name")
		}
		x.svcs[o.id] = o
	case *servicestypes.MsgActivateService:
		o := x.svc("S01", v.ServiceID, v.Sender)
		if o.status == svActive {
			x.refuse("S01", "service %d is active", o.id)
		}
		o.status = svActive
		x.svcs[o.id] = o
	case *servicestypes.MsgDeactivateService:
		o := x.svc("S01", v.ServiceID, v.Sender)
		if o.status != svActive {
			x.refuse("S01", "service %d is not active", o.id)
		}
		o.status = svInactive
		x.svcs[o.id] = o
	case *servicestypes.MsgDeleteService:
		o := x.svc("S01", v.ServiceID, v.Sender)
		if o.status == svActive {
			x.refuse("S01", "service %d is active", o.id)
		}
		x.deletable(target{tService, o.id}, "S01 R01 R02")
		x.delService(o.id)
	case *servicestypes.MsgTransferServiceOwnership:
		o := x.svc("S01", v.ServiceID, v.Sender)
		x.needAddr("S01", v.NewAdmin)
		o.admin = v.NewAdmin
		x.svcs[o.id] = o
	case *servicestypes.MsgSetServiceParams:
		o := x.svc("S01", v.ServiceID, v.Sender)
		for _, d := range v.ServiceParams.AllowedDenoms {
			if sdk.ValidateDenom(d) != nil {
				x.refuse("S01", "bad allowed denoms")
			}
		}
		o.denoms = v.ServiceParams.AllowedDenoms
		x.svcs[o.id] = o
	case *servicestypes.MsgAccreditService:
		x.byGov(v.Authority, "S01")
		x.accredit(v.ServiceID, true)
	case *servicestypes.MsgRevokeServiceAccreditation:
		x.byGov(v.Authority, "S01")
		x.accredit(v.ServiceID, false)
	// ---------------------------------------------------------- security relations
	case *restakingtypes.MsgJoinService:
		o := x.op("S02", v.OperatorID, v.Sender)
		if s := x.svc("S02", v.ServiceID, ""); s.status != svActive {
			x.refuse("S02", "service %d is not active", s.id)
		}
		x.join[[2]uint32{o.id, v.ServiceID}] = true
	case *restakingtypes.MsgLeaveService:
		o := x.op("S02", v.OperatorID, v.Sender)
		x.svc("S02", v.ServiceID, "")
		delete(x.join, [2]uint32{o.id, v.ServiceID})
	case *restakingtypes.MsgAddOperatorToAllowList:
		s := x.svc("S02", v.ServiceID, v.Sender)
		x.op("S02", v.OperatorID, "")
		k := [2]uint32{s.id, v.OperatorID}
		if x.allow[k] {
			x.refuse("S02", "already allowed")
		}
		x.allow[k] = true
	case *restakingtypes.MsgRemoveOperatorFromAllowlist:
		s := x.svc("S02", v.ServiceID, v.Sender)
		k := [2]uint32{s.id, v.OperatorID}
		if !x.allow[k] {
			x.refuse("S02", "not in the list")
		}
		delete(x.allow, k)
	case *restakingtypes.MsgBorrowPoolSecurity:
		s := x.svc("S02", v.ServiceID, v.Sender)
		if s.status != svActive {
			x.refuse("S02", "service %d is not active", s.id)
		}
		if _, ok := x.pools[v.PoolID]; !ok {
			x.refuse("S02", "no pool %d", v.PoolID)
		}
		k := [2]uint32{s.id, v.PoolID}
		if x.sec[k] {
			x.refuse("S02", "already securing")
		}
		x.sec[k] = true
	case *restakingtypes.MsgCeasePoolSecurityBorrow:
		s := x.svc("S02", v.ServiceID, v.Sender)
		k := [2]uint32{s.id, v.PoolID}
		if !x.sec[k] {
			x.refuse("S02", "not securing")
		}
		delete(x.sec, k)
	// ---------------------------------------------------------- restaking
	case *restakingtypes.MsgDelegatePool:
		if !v.Amount.IsValid() || !v.Amount.IsPositive() {
			x.refuse("R03", "bad amount")
		}
		if !x.restakable(v.Amount.Denom) {
			x.refuse("R03", "%s is not restakable", v.Amount.Denom)
		}
		id := x.poolOf(v.Amount.Denom)
		c := sdk.NewCoins(v.Amount)
		x.covered(v.Delegator, c)
		if id == 0 {
			x.debit(v.Delegator, sdk.Coins{}, "R03")
			id = x.nextPl
			x.nextPl++
			x.pools[id] = v.Amount.Denom
			x.m.learn(target{tPool, id})
		}
		x.delegate(target{tPool, id}, v.Delegator, c)
	case *restakingtypes.MsgDelegateOperator:
		x.amountOK(v.Amount)
		o := x.op("R03", v.OperatorID, "")
		if o.status != opActive {
			x.refuse("R03", "operator %d is not active", o.id)
		}
		for _, c := range v.Amount {
			if !x.restakable(c.Denom) {
				x.refuse("R03", "%s is not restakable", c.Denom)
			}
		}
		x.covered(v.Delegator, v.Amount)
		x.delegate(target{tOperator, o.id}, v.Delegator, v.Amount)
	case *restakingtypes.MsgDelegateService:
		x.amountOK(v.Amount)
		o := x.svc("R03", v.ServiceID, "")
		if o.status != svActive {
			x.refuse("R03", "service %d is not active", o.id)
		}
		all, ds := x.denomsFor(o.id)
		for _, c := range v.Amount {
			if !all && !has(ds, c.Denom) {
				x.refuse("R03", "%s is not restakable to service %d", c.Denom, o.id)
			}
		}
		x.covered(v.Delegator, v.Amount)
		x.delegate(target{tService, o.id}, v.Delegator, v.Amount)
	case *restakingtypes.MsgUndelegatePool:
		if !v.Amount.IsValid() || v.Amount.IsZero() {
			x.refuse("R03", "bad amount")
		}
		id := x.poolOf(v.Amount.Denom)
		if id == 0 {
			x.refuse("R03", "no pool for %s", v.Amount.Denom)
		}
		x.undelegate(target{tPool, id}, v.Delegator, sdk.NewCoins(v.Amount), "R03")
	case *restakingtypes.MsgUndelegateOperator:
		x.amountOK(v.Amount)
		x.op("R03", v.OperatorID, "")
		x.undelegate(target{tOperator, v.OperatorID}, v.Delegator, v.Amount, "R03")
	case *restakingtypes.MsgUndelegateService:
		x.amountOK(v.Amount)
		x.svc("R03", v.ServiceID, "")
		x.undelegate(target{tService, v.ServiceID}, v.Delegator, v.Amount, "R03")
	case *restakingtypes.MsgSetUserPreferences:
		for _, id := range v.Preferences.TrustedServicesIDs {
			if id == 0 {
				x.refuse("R04", "bad service list")
			}
			if _, ok := x.svcs[id]; !ok {
				x.refuse("R04", "no service %d", id)
			}
		}
		x.changeTrust([]string{v.User}, func() {
			x.prefs[v.User] = mPrefs{v.Preferences.TrustNonAccreditedServices, v.Preferences.TrustAccreditedServices, append([]uint32{}, v.Preferences.TrustedServicesIDs...)}
		})
	case *restakingtypes.MsgUpdateParams:
		x.byGov(v.Authority, "R03")
		if v.Params.UnbondingTime <= 0 {
			x.refuse("G01 R02", "bad unbonding time")
		}
		for _, d := range v.Params.AllowedDenoms {
			if sdk.ValidateDenom(d) != nil {
				x.refuse("G01", "bad denom")
			}
		}
		x.pUnbond, x.pDenoms = v.Params.UnbondingTime, v.Params.AllowedDenoms
	// ---------------------------------------------------------- module parameters
	case *operatorstypes.MsgUpdateParams:
		x.byGov(v.Authority, "O01")
		if v.Params.DeactivationTime <= 0 {
			x.refuse("G01 O01", "bad deactivation time")
		}
		x.validCoins("G01 O01", v.Params.OperatorRegistrationFee)
		x.pOp, x.pDeact = v.Params.OperatorRegistrationFee, v.Params.DeactivationTime
	case *servicestypes.MsgUpdateParams:
		x.byGov(v.Authority, "S01")
		x.validCoins("G01 S01", v.Params.ServiceRegistrationFee)
		x.pSvc = v.Params.ServiceRegistrationFee
	case *rewardstypes.MsgUpdateParams:
		x.byGov(v.Authority, "W01")
		x.validCoins("G01 W01", v.Params.RewardsPlanCreationFee)
		x.pPlan = v.Params.RewardsPlanCreationFee
	case *lvtypes.MsgUpdateParams:
		x.byGov(v.Authority, "L01 L02 L03")
		p := v.Params
		if p.InsurancePercentage.IsNil() || !p.InsurancePercentage.IsPositive() || p.InsurancePercentage.GT(math.LegacyNewDec(100)) {
			x.refuse("G01 L02", "bad insurance percentage")
		}
		for _, a := range append(append([]string{}, p.Minters...), p.Burners...) {
			x.needAddr("G01 L01", a)
		}
		for _, a := range p.TrustedDelegates {
			if !bech32ok(a) {
				x.refuse("G01 L03", "bad trusted delegate")
			}
		}
		for _, c := range p.AllowedChannels {
			if !channelOK(c) {
				x.refuse("G01 L03", "bad channel")
			}
		}
		x.pIns, x.pMinters, x.pBurners, x.pTrusted, x.pChannels = p.InsurancePercentage, p.Minters, p.Burners, p.TrustedDelegates, p.AllowedChannels
	// ---------------------------------------------------------- assets
	case *assetstypes.MsgRegisterAsset:
		x.byGov(v.Authority, "A01")
		if sdk.ValidateDenom(v.Asset.Denom) != nil || !tickerOK(v.Asset.Ticker) {
			x.refuse("G01 A01", "bad asset")
		}
		if v.Asset.Exponent > 18 {
			x.refuse("G01 A01 C03", "exponent %d", v.Asset.Exponent)
		}
		x.assets[v.Asset.Denom] = mAsset{v.Asset.Ticker, v.Asset.Exponent}
	case *assetstypes.MsgDeregisterAsset:
		x.byGov(v.Authority, "A01")
		if _, ok := x.assets[v.Denom]; !ok {
			x.refuse("G01 A01", "no asset %s", v.Denom)
		}
		delete(x.assets, v.Denom)
	// ---------------------------------------------------------- rewards
	case *rewardstypes.MsgCreateRewardsPlan:
		if len(v.Description) > 1000 {
			x.refuse("W01", "long description")
		}
		x.validCoins("W01", v.Amount)
		x.validCoins("W01", v.FeeAmount)
		if !v.EndTime.After(v.StartTime) {
			x.refuse("W01", "ends before it starts")
		}
		x.planAmount(v.Amount)
		s := x.svc("W01", v.ServiceID, v.Sender)
		pl := mPlan{desc: v.Description, svc: s.id, perDay: v.Amount, start: v.StartTime, end: v.EndTime,
			pd: x.distr(v.PoolsDistribution, tPool), od: x.distr(v.OperatorsDistribution, tOperator), ud: x.udistr(v.UsersDistribution)}
		x.chargeFee(v.Sender, x.pPlan, v.FeeAmount, "W01")
		pl.id = x.nextPn
		x.nextPn++
		x.plans[pl.id] = pl
		x.m.trackAddr(planAddr(pl.id), fmt.Sprintf("plan-%d", pl.id))
	case *rewardstypes.MsgEditRewardsPlan:
		x.validCoins("W01", v.Amount)
		x.planAmount(v.Amount)
		if !v.EndTime.After(v.StartTime) {
			x.refuse("W01", "ends before it starts")
		}
		pl, ok := x.plans[v.ID]
		if !ok {
			x.refuse("W01", "no plan %d", v.ID)
		}
		s := x.svc("W01", pl.svc, v.Sender)
		_ = s
		if !x.now.Before(pl.end) {
			x.refuse("W01", "plan %d is over", v.ID)
		}
		if len(v.Description) > 1000 {
			x.refuse("W01", "long description")
		}
		pl.desc, pl.perDay, pl.start, pl.end = v.Description, v.Amount, v.StartTime, v.EndTime
		pl.pd, pl.od, pl.ud = x.distr(v.PoolsDistribution, tPool), x.distr(v.OperatorsDistribution, tOperator), x.udistr(v.UsersDistribution)
		x.plans[v.ID] = pl
	case *rewardstypes.MsgSetWithdrawAddress:
		x.needAddr("W03", v.WithdrawAddress)
		if blocked(v.WithdrawAddress) {
			x.refuse("W03", "blocked address")
		}
		x.waddr[v.Sender] = v.WithdrawAddress
		x.m.trackAddr(v.WithdrawAddress, "")
	case *rewardstypes.MsgWithdrawDelegatorReward:
		t := target{kindOf(v.DelegationType), v.DelegationTargetID}
		if t.kind == 0 || t.id == 0 || !x.exists(t) {
			x.refuse("W03", "no target")
		}
		if x.del[t][v.DelegatorAddress].IsZero() {
			x.refuse("W03", "no delegation of %s to %s", name(v.DelegatorAddress), t)
		}
		x.payRewards(t, v.DelegatorAddress)
	case *rewardstypes.MsgWithdrawOperatorCommission:
		o := x.op("W03", v.OperatorID, v.Sender)
		x.payCommission(o, "W03", true)
	// ---------------------------------------------------------- liquid vesting
	case *lvtypes.MsgMintLockedRepresentation:
		x.needAddr("L01", v.Receiver)
		x.validCoins("L01", v.Amount)
		if v.Amount.IsZero() {
			x.refuse("L01", "nothing")
		}
		if !has(x.pMinters, v.Sender) {
			x.refuse("L01", "%s is no minter", name(v.Sender))
		}
		if blocked(v.Receiver) {
			x.refuse("L01", "%s receives nothing", name(v.Receiver))
		}
		for _, c := range v.Amount {
			d := lockedOf(c.Denom)
			if isLocked(c.Denom) || sdk.ValidateDenom(d) != nil {
				x.refuse("L01", "%s cannot be locked", c.Denom)
			}
			x.mintLocked(d, c.Amount)
			x.credit(v.Receiver, sdk.NewCoins(sdk.NewCoin(d, c.Amount)), "L01")
		}
	case *lvtypes.MsgBurnLockedRepresentation:
		x.needAddr("L04", v.User)
		x.validCoins("L04", v.Amount)
		if v.Amount.IsZero() {
			x.refuse("L04", "nothing")
		}
		if !has(x.pBurners, v.Sender) {
			x.refuse("L04 L01", "%s is no burner", name(v.Sender))
		}
		if x.isTarget(v.User) {
			x.refuse("L04 R01 C03", "%s holds what others have restaked", name(v.User))
		}
		x.burn(v.User, v.Amount)
	case *lvtypes.MsgWithdrawInsuranceFund:
		x.validCoins("L02", v.Amount)
		f := x.fund[v.Sender]
		if _, ok := x.fund[v.Sender]; !ok || !f.IsAllGTE(v.Amount) {
			x.refuse("L02", "fund holds only %s", f)
		}
		rest := f.Sub(v.Amount...)
		need := x.required(x.lockedActive(v.Sender).Add(x.lockedPending(v.Sender)...))
		if !rest.IsAllGTE(need) {
			x.refuse("L02", "fund must keep %s", need)
		}
		x.fund[v.Sender] = rest
		x.send(addrLV, v.Sender, v.Amount, "L02")
	// ---------------------------------------------------------- SDK messages
	case *banktypes.MsgSend:
		if blocked(v.ToAddress) {
			x.refuse("C04", "blocked address")
		}
		if !v.Amount.IsValid() || !v.Amount.IsAllPositive() {
			x.refuse("C04", "bad amount")
		}
		x.send(v.FromAddress, v.ToAddress, v.Amount, "C04"+lockTag(v.Amount, " L01"))
	case *banktypes.MsgMultiSend:
		if len(v.Inputs) != 1 {
			x.refuse("C04", "inputs")
		}
		for _, o := range v.Outputs {
			if blocked(o.Address) {
				x.refuse("C04", "blocked address")
			}
		}
		in := v.Inputs[0]
		sum := sdk.Coins{}
		for _, o := range v.Outputs {
			sum = sum.Add(o.Coins...)
		}
		if !sum.Equal(in.Coins) {
			x.refuse("C04", "sum")
		}
		x.debit(in.Address, in.Coins, "C04 L01")
		for _, o := range v.Outputs {
			x.movable(in.Address, o.Address, o.Coins)
			x.credit(o.Address, o.Coins, "C04 L01")
		}
	case *vestingtypes.MsgCreateVestingAccount:
		k := vestContinuous
		if v.Delayed {
			k = vestDelayed
		}
		x.vesting(v.FromAddress, v.ToAddress, v.Amount, mVest{v.Amount, x.now.Unix(), v.EndTime, k})
	case *vestingtypes.MsgCreatePermanentLockedAccount:
		x.vesting(v.FromAddress, v.ToAddress, v.Amount, mVest{v.Amount, 0, 0, vestForever})
	case *distrtypes.MsgFundCommunityPool:
		x.movable(v.Depositor, addrDistr, v.Amount)
		x.debit(v.Depositor, v.Amount, "C04")
		x.ev.community = x.ev.community.Add(v.Amount...)
		x.ev.commTags += " C04"
	case *stakingtypes.MsgDelegate:
		if v.Amount.Denom != dBond || !v.Amount.Amount.IsPositive() {
			x.refuse("C04", "amount")
		}
		x.debit(v.DelegatorAddress, sdk.NewCoins(v.Amount), "C04 G02")
		x.stakeAdd(v.DelegatorAddress, v.ValidatorAddress, v.Amount.Amount)
	case *stakingtypes.MsgUndelegate:
		cur, ok := x.stake[v.DelegatorAddress][v.ValidatorAddress]
		if !ok || cur.LT(v.Amount.Amount) || v.Amount.Denom != dBond {
			x.refuse("C04", "stake")
		}
		x.stakeAdd(v.DelegatorAddress, v.ValidatorAddress, v.Amount.Amount.Neg())
		x.seqN++
		x.unstake = append(append([]mUnstake{}, x.unstake...), mUnstake{v.DelegatorAddress, v.Amount.Amount, x.now.Add(sec(x.m.s.cfg.StakeUnbond))})
	case *authz.MsgGrant:
		g, ok := v.Grant.Authorization.GetCachedValue().(*authz.GenericAuthorization)
		if !ok {
			panic("unmodelled grant")
		}
		x.grants[grantKey{v.Granter, v.Grantee, g.Msg}] = true
	case *authz.MsgRevoke:
		k := grantKey{v.Granter, v.Grantee, v.MsgTypeUrl}
		if !x.grants[k] {
			x.refuse("C04", "no grant")
		}
		delete(x.grants, k)
	case *authz.MsgExec:
		ms := must(v.GetMessages())
		for _, i := range ms {
			who := x.m.signerOf(i)
			if who != v.Grantee && !x.grants[grantKey{who, v.Grantee, sdk.MsgTypeURL(i)}] {
				x.refuse("C04 "+msgTags(i), "%s has no grant of %s for %s", name(v.Grantee), name(who), sdk.MsgTypeURL(i))
			}
			x.exec(i)
		}
	case *feegrant.MsgGrantAllowance:
		k := [2]string{v.Granter, v.Grantee}
		if x.allowF[k] || v.Granter == v.Grantee {
			x.refuse("C04", "already granted")
		}
		x.allowF[k] = true
	case *feegrant.MsgRevokeAllowance:
		k := [2]string{v.Granter, v.Grantee}
		if !x.allowF[k] {
			x.refuse("C04", "no allowance")
		}
		delete(x.allowF, k)
	// ---------------------------------------------------------- governance
	case *govv1.MsgSubmitProposal:
		x.submit(v)
	case *govv1.MsgDeposit:
		x.deposit(v.ProposalId, v.Depositor, v.Amount)
	case *govv1b1.MsgDeposit:
		x.deposit(v.ProposalId, v.Depositor, v.Amount)
	case *govv1.MsgVote:
		x.vote(v.ProposalId, v.Voter)
	case *govv1.MsgVoteWeighted:
		x.vote(v.ProposalId, v.Voter)
	case *govv1b1.MsgVote:
		x.vote(v.ProposalId, v.Voter)
	case *govv1b1.MsgVoteWeighted:
		x.vote(v.ProposalId, v.Voter)
	case *upgradetypes.MsgSoftwareUpgrade:
		x.byGov(v.Authority, "")
	case *upgradetypes.MsgCancelUpgrade:
		x.byGov(v.Authority, "")
	default:
		if !x.execIBC(msg) {
			panic(fmt.Sprintf("unmodelled message %T", msg))
		}
	}
}

func (x *mx) byGov(a, more string) {
	if a != addrGov {
		x.refuse("G01 "+more, "%s is not the authority", name(a))
	}
}

func (x *mx) amountOK(c sdk.Coins) {
	if !c.IsValid() || c.IsZero() || !c.IsAllPositive() {
		x.refuse("R03", "bad amount %s", c)
	}
}

// covered checks the insurance rule for a new restake.
func (x *mx) covered(u string, c sdk.Coins) {
	any := false
	for _, k := range c {
		any = any || isLocked(k.Denom)
	}
	if !any {
		return
	}
	all := x.lockedActive(u).Add(x.lockedPending(u)...)
	for _, k := range c {
		if isLocked(k.Denom) {
			all = all.Add(k)
		}
	}
	if need := x.required(all); !x.fund[u].IsAllGTE(need) {
		x.refuse("R03 L02", "insurance of %s is %s, %s needed for %s", name(u), x.fund[u], need, all)
	}
}

func (x *mx) delegate(t target, u string, c sdk.Coins) {
	x.payRewards(t, u)
	x.send(u, targetAddr(t.kind, t.id), c, "R01 R03"+lockTag(c, " L01"))
	if x.del[t] == nil {
		x.del[t] = map[string]sdk.Coins{}
	}
	x.del[t][u] = x.del[t][u].Add(c...)
}

func (x *mx) undelegate(t target, u string, c sdk.Coins, tags string) time.Time {
	d := x.del[t][u]
	if d.IsZero() || !d.IsAllGTE(c) {
		x.refuse(tags, "%s has %s in %s", name(u), d, t)
	}
	x.payRewards(t, u)
	rest := d.Sub(c...)
	if rest.IsZero() {
		delete(x.del[t], u)
	} else {
		x.del[t][u] = rest
	}
	done := x.now.Add(x.pUnbond)
	x.seqN++
	x.ubds = append(x.ubds, mUBD{seq: x.seqN, t: t, user: u, amt: c, done: done, made: x.h})
	x.ev.touch(u, "R02")
	x.ev.announced = append(x.ev.announced, done)
	return done
}

func (x *mx) mintLocked(d string, a math.Int) {
	if _, ok := x.mint[d]; !ok {
		x.mint[d] = math.ZeroInt()
	}
	x.mint[d] = x.mint[d].Add(a)
}

// burn removes a user's locked tokens: liquid ones now, the rest when an
// undelegation made now completes.
func (x *mx) burn(u string, amt sdk.Coins) {
	liquid, rest := sdk.Coins{}, sdk.Coins{}
	for _, c := range amt {
		if !isLocked(c.Denom) {
			x.refuse("L04", "%s is not locked", c.Denom)
		}
		b := x.get(u, c.Denom).lo
		l := math.MinInt(b, c.Amount)
		if l.IsPositive() {
			liquid = liquid.Add(sdk.NewCoin(c.Denom, l))
		}
		if r := c.Amount.Sub(l); r.IsPositive() {
			rest = rest.Add(sdk.NewCoin(c.Denom, r))
		}
	}
	if !rest.IsZero() {
		need := rest
		type part struct {
			t target
			c sdk.Coins
		}
		var parts []part
		for _, t := range x.burnOrder() {
			take := sdk.Coins{}
			for _, c := range need {
				if m := math.MinInt(c.Amount, x.del[t][u].AmountOf(c.Denom)); m.IsPositive() {
					take = take.Add(sdk.NewCoin(c.Denom, m))
				}
			}
			if !take.IsZero() {
				parts = append(parts, part{t, take})
				need = need.Sub(take...)
			}
		}
		if !need.IsZero() {
			x.refuse("L04", "%s of %s is neither liquid nor restaked", need, name(u))
		}
		var done time.Time
		ann := x.ev.announced
		for _, p := range parts {
			done = x.undelegate(p.t, u, p.c, "L04")
		}
		x.ev.announced = ann
		x.seqN++
		x.burns = append(x.burns, mBurn{x.seqN, u, rest, done})
	}
	x.debit(u, liquid, "L04")
	for _, c := range liquid {
		x.mintLocked(c.Denom, c.Amount.Neg())
	}
}

func (x *mx) burnOrder() []target {
	var out []target
	for _, k := range []tkind{tPool, tService, tOperator} {
		var ids []int
		for t := range x.del {
			if t.kind == k {
				ids = append(ids, int(t.id))
			}
		}
		sort.Ints(ids)
		for _, i := range ids {
			out = append(out, target{k, uint32(i)})
		}
	}
	return out
}

// deletable: an operator or service cannot disappear under its delegators.
func (x *mx) deletable(t target, tags string) {
	if !x.total(t).IsZero() {
		x.refuse(tags, "%s still has delegations", t)
	}
	for _, b := range x.ubds {
		if b.t == t {
			x.refuse(tags, "%s still has unbonding delegations", t)
		}
	}
}

func (x *mx) delOperator(id uint32) {
	x.m.dead[target{tOperator, id}] = true
	delete(x.ops, id)
	for k := range x.join {
		if k[0] == id {
			delete(x.join, k)
		}
	}
	var hit []uint32
	for k := range x.allow {
		if k[1] == id {
			delete(x.allow, k)
			hit = append(hit, k[0])
		}
	}
	for _, s := range hit {
		// the service must not open itself to everybody
		if sv := x.svcs[s]; len(x.listOf(x.allow, s)) == 0 && sv.status == svActive {
			sv.status = svInactive
			x.svcs[s] = sv
		}
	}
	x.dropCom(id)
}

func (x *mx) delService(id uint32) {
	x.m.dead[target{tService, id}] = true
	var us []string
	for u := range x.m.everyone() {
		us = append(us, u)
	}
	x.changeTrust(us, func() {
		delete(x.svcs, id)
	})
	for k := range x.join {
		if k[1] == id {
			delete(x.join, k)
		}
	}
	for k := range x.allow {
		if k[0] == id {
			delete(x.allow, k)
		}
	}
	for k := range x.sec {
		if k[0] == id {
			delete(x.sec, k)
		}
	}
}

func (x *mx) accredit(id uint32, on bool) {
	s := x.svc("S01 G01", id, "")
	if s.accredited == on {
		return
	}
	var us []string
	for u := range x.m.everyone() {
		us = append(us, u)
	}
	x.changeTrust(us, func() {
		s.accredited = on
		x.svcs[id] = s
	})
}

// changeTrust applies f; users whose set of trusted services changes are first
// paid the rewards of their pool delegations.
func (x *mx) changeTrust(us []string, f func()) {
	sort.Strings(us)
	before := map[string]map[uint32]bool{}
	for _, u := range us {
		before[u] = x.trusted(u)
	}
	keepSvcs, keepPrefs := cp(x.svcs), cp(x.prefs)
	f()
	for _, u := range us {
		now := x.trusted(u)
		same := len(now) == len(before[u])
		for k := range now {
			same = same && before[u][k]
		}
		if same {
			continue
		}
		s2, p2 := x.svcs, x.prefs
		x.svcs, x.prefs = keepSvcs, keepPrefs
		for _, t := range x.burnOrder() {
			if t.kind == tPool && !x.del[t][u].IsZero() {
				x.payRewards(t, u)
			}
		}
		x.svcs, x.prefs = s2, p2
	}
}

func (x *mx) stakeAdd(u, val string, a math.Int) {
	m := cp(x.stake[u])
	if _, ok := m[val]; !ok {
		m[val] = math.ZeroInt()
	}
	m[val] = m[val].Add(a)
	if m[val].IsZero() {
		delete(m, val)
	}
	x.stake[u] = m
}

// ---- governance

func (x *mx) submit(v *govv1.MsgSubmitProposal) {
	ms, err := v.GetMsgs()
	if err != nil {
		x.refuse("C04", "messages")
	}
	for _, m := range ms {
		if x.m.signerOf(m) != addrGov {
			x.refuse("G01", "proposal with a message of %s", name(x.m.signerOf(m)))
		}
		if vb, ok := m.(sdk.HasValidateBasic); ok && vb.ValidateBasic() != nil {
			x.refuse("G01", "invalid message in proposal")
		}
	}
	x.expeditable(v)
	for _, c := range v.InitialDeposit {
		if c.Denom != dBond {
			x.refuse("L01 C04", "deposit denomination")
		}
	}
	p := mProposal{id: x.nextPr, proposer: v.Proposer, msgs: ms, expedited: v.Expedited, deposits: map[string]sdk.Coins{}, submit: x.now,
		depEnd: x.now.Add(sec(x.m.s.cfg.DepositSec))}
	x.nextPr++
	x.props[p.id] = p
	x.deposit(p.id, v.Proposer, v.InitialDeposit)
}

// expeditable: only upgrades may be expedited.
func (x *mx) expeditable(v *govv1.MsgSubmitProposal) {
	if !v.Expedited {
		return
	}
	for _, m := range v.Messages {
		if m.TypeUrl != "/cosmos.upgrade.v1beta1.MsgSoftwareUpgrade" && m.TypeUrl != "/cosmos.upgrade.v1beta1.MsgCancelUpgrade" {
			x.refuse("G02", "%s in an expedited proposal", m.TypeUrl)
		}
	}
}

func (x *mx) deposit(id uint64, who string, c sdk.Coins) {
	p, ok := x.props[id]
	if !ok {
		x.refuse("C04", "no proposal %d", id)
	}
	for _, k := range c {
		if k.Denom != dBond {
			x.refuse("L01 C04", "deposit denomination")
		}
	}
	x.send(who, addrGov, c, "C04 L01")
	p.deposits = cp(p.deposits)
	p.deposits[who] = p.deposits[who].Add(c...)
	sum := sdk.Coins{}
	for _, d := range p.deposits {
		sum = sum.Add(d...)
	}
	need := int64(1000)
	if p.expedited {
		need = 2000
	}
	if !p.voting && sum.AmountOf(dBond).GTE(math.NewInt(need)) {
		p.voting = true
		d := x.m.s.cfg.VotingSec
		if p.expedited {
			d = x.m.s.cfg.ExpVotingSec
		}
		p.voteEnd = x.now.Add(sec(d))
	}
	x.props[id] = p
}

func (x *mx) vote(id uint64, who string) {
	x.mayVote(who)
	p, ok := x.props[id]
	if !ok || !p.voting {
		x.refuse("C04", "proposal %d is not in its voting period", id)
	}
}

func (x *mx) mayVote(who string) {
	if x.staked(who).LT(math.NewInt(1_000_000)) {
		x.refuse("G02", "%s has only %s staked", name(who), x.staked(who))
	}
}

func kindOf(t restakingtypes.DelegationType) tkind {
	switch t {
	case restakingtypes.DELEGATION_TYPE_POOL:
		return tPool
	case restakingtypes.DELEGATION_TYPE_OPERATOR:
		return tOperator
	case restakingtypes.DELEGATION_TYPE_SERVICE:
		return tService
	}
	return 0
}

func (x *mx) distr(d rewardstypes.Distribution, k tkind) mDistr {
	if kindOf(d.DelegationType) != k {
		x.refuse("W01", "distribution type")
	}
	out := mDistr{weight: d.Weight}
	switch v := d.Type.GetCachedValue().(type) {
	case *rewardstypes.DistributionTypeBasic:
		out.kind = "basic"
	case *rewardstypes.DistributionTypeEgalitarian:
		out.kind = "egalitarian"
	case *rewardstypes.DistributionTypeWeighted:
		out.kind = "weighted"
		out.weights = map[uint32]uint32{}
		for _, w := range v.Weights {
			if _, dup := out.weights[w.DelegationTargetID]; dup || w.Weight == 0 || w.DelegationTargetID == 0 {
				x.refuse("W01", "bad weights")
			}
			if !x.exists(target{k, w.DelegationTargetID}) {
				x.refuse("W01", "no target %d", w.DelegationTargetID)
			}
			out.weights[w.DelegationTargetID] = w.Weight
		}
	default:
		x.refuse("W01", "unknown distribution")
	}
	return out
}

func (x *mx) udistr(d rewardstypes.UsersDistribution) mDistr {
	if _, ok := d.Type.GetCachedValue().(*rewardstypes.UsersDistributionTypeBasic); !ok {
		x.refuse("W01", "unknown distribution")
	}
	return mDistr{kind: "basic", weight: d.Weight}
}

// planAmount is the bound on what a plan may hand out a day, beyond which the amounts of a
// block could overflow.
func (x *mx) planAmount(c sdk.Coins) {
	for _, k := range c {
		if k.Amount.BigInt().BitLen() > 128 {
			x.refuse("W01 C03", "a plan of %s a day", k)
		}
	}
}

// vesting opens an account whose coins cannot be spent yet. It must be new; the
// model does not know of every account, so there it follows the chain.
func (x *mx) vesting(from, to string, c sdk.Coins, w mVest) {
	x.needAddr("C04", to)
	x.validCoins("C04", c)
	if c.IsZero() {
		x.refuse("C04", "nothing")
	}
	if blocked(to) {
		x.refuse("C04", "%s receives nothing", name(to))
	}
	if _, ok := x.vest[to]; ok || accs[to] != nil || x.isTarget(to) {
		x.refuse("C04", "%s exists", name(to))
	}
	for _, v := range x.bal[to] {
		if v.lo.IsPositive() {
			x.refuse("C04", "%s exists", name(to))
		}
	}
	if w.kind != vestForever && w.end <= 0 {
		x.refuse("C04", "end")
	}
	x.send(from, to, c, "C04 L01")
	if !x.real {
		x.refuse("C04", "%s may exist", name(to))
	}
	w.orig = c
	x.vest[to] = w
}
