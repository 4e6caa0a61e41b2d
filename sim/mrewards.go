package main

// Rewards: what every plan must distribute and what everybody has earned,
// computed with exact fractions and an explicit allowance for rounding.

import (
	"math/big"
	"sort"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

var (
	bigOne = big.NewInt(1)
	dayMs  = big.NewInt(24 * 3600 * 1000)
)

// frac is 10^-k in accrual scale, times n.
func scaled(n int64, k int64) *big.Int {
	return new(big.Int).Mul(big.NewInt(n), new(big.Int).Exp(big.NewInt(10), big.NewInt(36-k), nil))
}

func mulDiv(a, b, c *big.Int) *big.Int {
	return new(big.Int).Quo(new(big.Int).Mul(a, b), c)
}

// value of a coin in dollars; zero without an asset or a price.
func (x *mx) value(c sdk.Coin) math.LegacyDec {
	a, ok := x.assets[c.Denom]
	if !ok {
		return math.LegacyZeroDec()
	}
	p, ok := x.m.prices[a.ticker+"/USD"]
	if !ok || p.p == nil || p.p.Sign() == 0 {
		return math.LegacyZeroDec()
	}
	price := math.LegacyNewDecFromIntWithPrec(math.NewIntFromBigInt(p.p), int64(p.dec))
	return price.MulInt(c.Amount).QuoInt(math.NewIntWithDecimal(1, int(a.exponent)))
}

type shareOf struct {
	t    target
	val  math.LegacyDec
	toks []sdk.Coin // counted coins with their value
	vals []math.LegacyDec
}

// contribution of a target to a service.
func (x *mx) contribution(t target, toks sdk.Coins, all bool, ds []string) shareOf {
	s := shareOf{t: t, val: math.LegacyZeroDec()}
	for _, c := range toks {
		if !all && !has(ds, c.Denom) {
			continue
		}
		v := x.value(c)
		if v.IsZero() {
			continue
		}
		s.toks = append(s.toks, c)
		s.vals = append(s.vals, v)
		s.val = s.val.Add(v)
	}
	return s
}

func sumVal(g []shareOf) math.LegacyDec {
	t := math.LegacyZeroDec()
	for _, s := range g {
		t = t.Add(s.val)
	}
	return t
}

// allocate distributes the rewards of a block.
func (x *mx) allocate() {
	last := x.lastTime
	x.lastTime = x.now
	if last.IsZero() {
		return
	}
	ms := x.now.Sub(last).Milliseconds()
	if ms <= 0 {
		return
	}
	for _, id := range sortedKeys(x.plans) {
		x.allocatePlan(x.plans[id], ms)
	}
}

func (x *mx) allocatePlan(pl mPlan, ms int64) {
	if x.now.Before(pl.start) || !x.now.Before(pl.end) {
		return
	}
	all, ds := x.denomsFor(pl.svc)
	if !all && len(ds) == 0 {
		return
	}
	amt := sdk.Coins{}
	addr := planAddr(pl.id)
	for _, c := range pl.perDay {
		a := mulDiv(c.Amount.BigInt(), big.NewInt(ms), dayMs)
		if a.Sign() == 0 {
			continue
		}
		if a.BitLen() > 255 || x.get(addr, c.Denom).lo.Sub(x.lockedUp(addr, c.Denom)).BigInt().Cmp(a) < 0 {
			return // cannot cover the block
		}
		if isLocked(c.Denom) {
			return // cannot leave the account
		}
		amt = amt.Add(sdk.NewCoin(c.Denom, math.NewIntFromBigInt(a)))
	}
	sv, ok := x.svcs[pl.svc]
	if !ok || sv.status != svActive || amt.IsZero() {
		return
	}

	// who is eligible
	var gp, go_, gu []shareOf
	for _, p := range sortedKeys(x.pools) {
		d := x.pools[p]
		if !x.restakable(d) || !x.secured(pl.svc, p) || !x.trusting(p, pl.svc).IsPositive() {
			continue
		}
		if s := x.contribution(target{tPool, p}, x.total(target{tPool, p}), all, ds); s.val.IsPositive() {
			gp = append(gp, s)
		}
	}
	for _, o := range sortedKeys(x.ops) {
		if x.ops[o].status != opActive || !x.join[[2]uint32{o, pl.svc}] || !x.canValidate(pl.svc, o) {
			continue
		}
		if s := x.contribution(target{tOperator, o}, x.total(target{tOperator, o}), all, ds); s.val.IsPositive() {
			go_ = append(go_, s)
		}
	}
	ts := target{tService, pl.svc}
	if s := x.contribution(ts, x.total(ts), all, ds); s.val.IsPositive() {
		gu = append(gu, s)
	}
	groups := []struct {
		g []shareOf
		d mDistr
	}{{gp, pl.pd}, {go_, pl.od}, {gu, pl.ud}}
	total := math.LegacyZeroDec()
	var weights uint64
	for i := range groups {
		g := &groups[i]
		if g.d.kind == "weighted" { // a group none of whose weighted targets is there has nobody to pay
			any := false
			for _, s := range g.g {
				_, ok := g.d.weights[s.t.id]
				any = any || ok
			}
			if !any {
				g.g = nil
			}
		}
		if v := sumVal(g.g); v.IsPositive() {
			total = total.Add(v)
			weights += uint64(g.d.weight)
		}
	}
	if total.IsZero() {
		return
	}
	x.m.stat("plan allocations")
	// the money leaves the plan
	x.debit(addr, amt, "W01")
	x.credit(addrRewards, amt, "W01 W03")
	n := int64(len(gp) + len(go_) + len(gu) + 4)
	for _, c := range amt {
		A := new(big.Int).Mul(c.Amount.BigInt(), accScale)
		for _, g := range groups {
			v := sumVal(g.g)
			if !v.IsPositive() {
				continue
			}
			var G *big.Int
			if weights > 0 {
				G = mulDiv(A, big.NewInt(int64(g.d.weight)), new(big.Int).SetUint64(weights))
			} else {
				G = mulDiv(A, v.BigInt(), total.BigInt())
			}
			if G.Sign() == 0 {
				continue
			}
			var wsum uint64
			for _, s := range g.g {
				wsum += uint64(g.d.weights[s.t.id])
			}
			for _, s := range g.g {
				var R *big.Int
				switch g.d.kind {
				case "basic":
					R = mulDiv(G, s.val.BigInt(), v.BigInt())
				case "egalitarian":
					R = new(big.Int).Quo(G, big.NewInt(int64(len(g.g))))
				case "weighted":
					w := g.d.weights[s.t.id]
					if w == 0 {
						continue
					}
					R = mulDiv(G, big.NewInt(int64(w)), new(big.Int).SetUint64(wsum))
				}
				x.accrue(pl.svc, s, c, R, n, total, v)
			}
		}
	}
}

// accrue shares what a target got for one reward coin.
func (x *mx) accrue(svc uint32, s shareOf, c sdk.Coin, R *big.Int, n int64, total, group math.LegacyDec) {
	// relative error of the value arithmetic
	inv := func(v math.LegacyDec) *big.Int { // 1e-18/v in accrual scale
		return new(big.Int).Quo(new(big.Int).Mul(scaled(1, 0), bigOne), new(big.Int).Add(v.BigInt(), bigOne))
	}
	rel := new(big.Int).Add(scaled(40, 18), new(big.Int).Mul(big.NewInt(2*n), new(big.Int).Add(new(big.Int).Add(inv(total), inv(group)), inv(s.val))))
	amt := new(big.Int).Mul(c.Amount.BigInt(), accScale)
	tolA := new(big.Int).Quo(new(big.Int).Mul(amt, rel), accScale)
	tolA.Add(tolA, scaled(10, 18))
	for i, tok := range s.toks {
		P := mulDiv(R, s.vals[i].BigInt(), s.val.BigInt())
		tol := new(big.Int).Set(tolA)
		share := P
		if s.t.kind == tOperator {
			com := mulDiv(P, x.ops[s.t.id].rate.BigInt(), math.LegacyOneDec().BigInt())
			if com.Sign() > 0 || true {
				k := comKey{s.t.id, tok.Denom, c.Denom}
				x.com[k] = x.com[k].plus(com, tol)
			}
			share = new(big.Int).Sub(P, com)
		}
		stakes := map[string]math.Int{}
		T := math.ZeroInt()
		for u, d := range x.del[s.t] {
			a := d.AmountOf(tok.Denom)
			if !a.IsPositive() || (s.t.kind == tPool && !x.trusts(u, svc)) {
				continue
			}
			stakes[u] = a
			T = T.Add(a)
		}
		for u, a := range stakes {
			k := accKey{s.t, u, 0, tok.Denom, c.Denom}
			if s.t.kind == tPool {
				k.svc = svc
			}
			e := mulDiv(share, a.BigInt(), T.BigInt())
			tl := mulDiv(tol, a.BigInt(), T.BigInt())
			tl.Add(tl, new(big.Int).Mul(a.BigInt(), scaled(4, 18)))
			tl.Add(tl, scaled(10, 18))
			x.acc[k] = x.acc[k].plus(e, tl)
		}
	}
}

func floorScaled(v *big.Int) math.Int {
	if v.Sign() <= 0 {
		return math.ZeroInt()
	}
	return math.NewIntFromBigInt(new(big.Int).Quo(v, accScale))
}

// owed is what a delegator has coming from a target, per staked and reward
// denomination.
func (s *mstate) owed(t target, u string) map[[2]string]*accr {
	out := map[[2]string]*accr{}
	for k, a := range s.acc {
		if k.t == t && k.user == u {
			kk := [2]string{k.sd, k.rd}
			out[kk] = out[kk].plus(a.e, a.tol)
		}
	}
	return out
}

func payable(o map[[2]string]*accr) map[string]ival {
	out := map[string]ival{}
	for k, a := range o {
		v, ok := out[k[1]]
		if !ok {
			v = exact(math.ZeroInt())
		}
		v.lo = v.lo.Add(floorScaled(new(big.Int).Sub(a.e, a.tol)))
		v.hi = v.hi.Add(floorScaled(new(big.Int).Add(a.e, a.tol)))
		out[k[1]] = v
	}
	return out
}

func (x *mx) withdrawTo(u string) string {
	if a, ok := x.waddr[u]; ok {
		return a
	}
	return u
}

// payRewards pays what a delegator earned at a target.
func (x *mx) payRewards(t target, u string) {
	o := x.owed(t, u)
	if len(o) == 0 {
		return
	}
	to := x.withdrawTo(u)
	p := payable(o)
	for _, d := range sortedKeys(p) {
		if p[d].hi.IsPositive() {
			x.m.stat("reward payouts")
			x.debitIval(addrRewards, d, p[d], "W03")
			x.creditIval(to, d, p[d], "W03")
		}
	}
	for k := range x.acc {
		if k.t == t && k.user == u {
			delete(x.acc, k)
		}
	}
}

// payCommission pays an operator's commission to its admin.
func (x *mx) payCommission(o mOperator, tags string, must bool) {
	ks := []comKey{}
	sure, maybe := false, false
	for k, a := range x.com {
		if k.op != o.id {
			continue
		}
		ks = append(ks, k)
		if a.e.Cmp(a.tol) > 0 {
			sure = true
		}
		if new(big.Int).Add(a.e, a.tol).Sign() > 0 {
			maybe = true
		}
	}
	if must && (!maybe || (!sure && !x.real)) {
		x.refuse(tags, "no commission")
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].sd+"|"+ks[i].rd < ks[j].sd+"|"+ks[j].rd })
	to := x.withdrawTo(o.admin)
	for _, k := range ks {
		a := x.com[k]
		v := ival{floorScaled(new(big.Int).Sub(a.e, a.tol)), floorScaled(new(big.Int).Add(a.e, a.tol))}
		if v.hi.IsPositive() {
			x.m.stat("commission payouts")
			x.debitIval(addrRewards, k.rd, v, tags)
			x.creditIval(to, k.rd, v, tags)
		}
		// the fraction stays
		rem := new(big.Int).Sub(a.e, new(big.Int).Mul(v.lo.BigInt(), accScale))
		if rem.Sign() < 0 {
			rem = new(big.Int)
		}
		tol := a.tol
		if !v.lo.Equal(v.hi) { // unknown which side of the boundary it was
			rem = new(big.Int).Quo(accScale, big.NewInt(2))
			tol = new(big.Int).Set(accScale)
		}
		x.com[k] = &accr{rem, tol}
	}
}

func (x *mx) dropCom(id uint32) {
	for k := range x.com {
		if k.op == id {
			delete(x.com, k)
		}
	}
}

// endPlans removes the plans that are over; what is left goes to the service.
func (x *mx) endPlans() {
	for _, id := range sortedKeys(x.plans) {
		pl := x.plans[id]
		if x.now.Before(pl.end) {
			continue
		}
		from, to := planAddr(id), targetAddr(tService, pl.svc)
		x.ev.touch(from, "W01")
		x.ev.touch(to, "W01")
		x.m.trackAddr(to, "")
		// what cannot leave the account stays: coins that vest, and locked
		// tokens of a service that is no more
		left := map[string]ival{}
		for d, v := range x.bal[from] {
			if isLocked(d) && !x.isTarget(to) {
				left[d] = v
				continue
			}
			if l := x.lockedUp(from, d); l.IsPositive() {
				left[d] = ival{math.MinInt(v.lo, l), math.MinInt(v.hi, l)}
				v = ival{v.lo.Sub(left[d].lo), v.hi.Sub(left[d].hi)}
			}
			x.creditIval(to, d, v, "W01")
		}
		x.bal[from] = left
		delete(x.plans, id)
		x.m.stat("plans ended")
	}
}
