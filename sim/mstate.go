package main

// The reference model's state. It is written from the properties, not from the
// code: plain maps, exact integers, no hooks, no share accounting.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// amount known up to rounding
type ival struct{ lo, hi math.Int }

func exact(x math.Int) ival { return ival{x, x} }

type mOperator struct {
	id                            uint32
	status                        int // 1 active 2 inactivating 3 inactive
	admin, moniker, website, pict string
	rate                          math.LegacyDec
	inactiveAt                    time.Time
}

type mService struct {
	id                              uint32
	status                          int // 1 created 2 active 3 inactive
	admin, name, desc, website, pic string
	accredited                      bool
	denoms                          []string
}

const (
	opActive, opInactivating, opInactive = 1, 2, 3
	svCreated, svActive, svInactive      = 1, 2, 3
)

type mUBD struct {
	seq  int
	t    target
	user string
	amt  sdk.Coins
	done time.Time
	made int64 // height
}

type mBurn struct {
	seq  int
	user string
	amt  sdk.Coins
	done time.Time
}

type mPrefs struct {
	trustNon, trustAcc bool
	ids                []uint32
}

type mDistr struct {
	kind    string // basic weighted egalitarian
	weight  uint32
	weights map[uint32]uint32
}

type mPlan struct {
	id         uint64
	desc       string
	svc        uint32
	perDay     sdk.Coins
	start, end time.Time
	pd, od, ud mDistr
}

type mAsset struct {
	ticker   string
	exponent uint32
}

type accKey struct {
	t    target
	user string
	svc  uint32 // only for pools
	sd   string // staked denomination
	rd   string // reward denomination
}

// acc is an accrued amount, scaled by accScale, with the rounding allowed.
type accr struct{ e, tol *big.Int }

var accScale = new(big.Int).Exp(big.NewInt(10), big.NewInt(36), nil)

func (a *accr) plus(e, tol *big.Int) *accr {
	if a == nil {
		return &accr{e, tol}
	}
	return &accr{new(big.Int).Add(a.e, e), new(big.Int).Add(a.tol, tol)}
}

type comKey struct {
	op     uint32
	sd, rd string
}

type mProposal struct {
	id        uint64
	proposer  string
	msgs      []sdk.Msg
	expedited bool
	voting    bool
	deposits  map[string]sdk.Coins
	submit    time.Time
	depEnd    time.Time
	voteEnd   time.Time
}

type mUnstake struct {
	user string
	amt  math.Int
	done time.Time
}

type grantKey struct{ granter, grantee, url string }

type mstate struct {
	seq  map[string]uint64
	bal  map[string]map[string]ival
	mint map[string]math.Int // locked denominations: minted minus burned

	ops     map[uint32]mOperator
	svcs    map[uint32]mService
	pools   map[uint32]string // id -> denom
	nextOp  uint32
	nextSvc uint32
	nextPl  uint32
	nextPn  uint64

	del   map[target]map[string]sdk.Coins
	ubds  []mUBD
	prefs map[string]mPrefs
	join  map[[2]uint32]bool // operator, service
	allow map[[2]uint32]bool // service, operator
	sec   map[[2]uint32]bool // service, pool

	plans    map[uint64]mPlan
	lastTime time.Time // of the last reward allocation
	acc      map[accKey]*accr
	com      map[comKey]*accr
	waddr    map[string]string

	fund  map[string]sdk.Coins
	burns []mBurn

	assets map[string]mAsset

	pOp, pSvc, pPlan sdk.Coins // fees
	pDeact           time.Duration
	pUnbond          time.Duration
	pDenoms          []string
	pIns             math.LegacyDec
	pMinters         []string
	pBurners         []string
	pTrusted         []string
	pChannels        []string

	props  map[uint64]mProposal
	nextPr uint64
	grants map[grantKey]bool
	vest   map[string]mVest   // accounts with coins that vest over time
	allowF map[[2]string]bool // granter, grantee

	stake map[string]map[string]math.Int // staking: user -> validator -> tokens

	unstake []mUnstake

	xfers     map[string]mXfer  // packets, by channel/sequence
	vouchers  map[string]string // voucher denomination -> path
	chanStage int
	seqN      int
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	o := make(map[K]V, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func cp2[K, L comparable, V any](m map[K]map[L]V) map[K]map[L]V {
	o := make(map[K]map[L]V, len(m))
	for k, v := range m {
		o[k] = cp(v)
	}
	return o
}

func (s *mstate) copy() *mstate {
	c := *s
	c.seq, c.bal, c.mint = cp(s.seq), cp2(s.bal), cp(s.mint)
	c.ops, c.svcs, c.pools = cp(s.ops), cp(s.svcs), cp(s.pools)
	c.del, c.prefs = cp2(s.del), cp(s.prefs)
	c.ubds = append([]mUBD{}, s.ubds...)
	c.burns = append([]mBurn{}, s.burns...)
	c.join, c.allow, c.sec = cp(s.join), cp(s.allow), cp(s.sec)
	c.plans, c.acc, c.com, c.waddr = cp(s.plans), cp(s.acc), cp(s.com), cp(s.waddr)
	c.fund, c.assets = cp(s.fund), cp(s.assets)
	c.props, c.grants, c.allowF, c.vest = cp(s.props), cp(s.grants), cp(s.allowF), cp(s.vest)
	c.stake, c.xfers, c.vouchers = cp2(s.stake), cp(s.xfers), cp(s.vouchers)
	return &c
}

func newMstate() *mstate {
	return &mstate{
		seq: map[string]uint64{}, bal: map[string]map[string]ival{}, mint: map[string]math.Int{},
		ops: map[uint32]mOperator{}, svcs: map[uint32]mService{}, pools: map[uint32]string{},
		nextOp: 1, nextSvc: 1, nextPl: 1, nextPn: 1,
		del: map[target]map[string]sdk.Coins{}, prefs: map[string]mPrefs{},
		join: map[[2]uint32]bool{}, allow: map[[2]uint32]bool{}, sec: map[[2]uint32]bool{},
		plans: map[uint64]mPlan{}, acc: map[accKey]*accr{}, com: map[comKey]*accr{}, waddr: map[string]string{},
		fund: map[string]sdk.Coins{}, assets: map[string]mAsset{},
		props: map[uint64]mProposal{}, nextPr: 1, grants: map[grantKey]bool{}, vest: map[string]mVest{}, allowF: map[[2]string]bool{},
		stake: map[string]map[string]math.Int{}, xfers: map[string]mXfer{}, vouchers: map[string]string{},
	}
}

// ---- sorted access

func sortedKeys[K interface {
	~uint32 | ~uint64 | ~string | ~int
}, V any](m map[K]V) []K {
	out := make([]K, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (s *mstate) targets() []target {
	var out []target
	for _, k := range sortedKeys(s.pools) {
		out = append(out, target{tPool, k})
	}
	for _, k := range sortedKeys(s.ops) {
		out = append(out, target{tOperator, k})
	}
	for _, k := range sortedKeys(s.svcs) {
		out = append(out, target{tService, k})
	}
	return out
}

func (s *mstate) exists(t target) bool {
	switch t.kind {
	case tPool:
		_, ok := s.pools[t.id]
		return ok
	case tOperator:
		_, ok := s.ops[t.id]
		return ok
	}
	_, ok := s.svcs[t.id]
	return ok
}

func (s *mstate) poolOf(denom string) uint32 {
	for id, d := range s.pools {
		if d == denom {
			return id
		}
	}
	return 0
}

// ---- derived facts the properties talk about

func (s *mstate) total(t target) sdk.Coins {
	out := sdk.Coins{}
	for _, c := range s.del[t] {
		out = out.Add(c...)
	}
	return out
}

func has[T comparable](xs []T, x T) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// pref is what the user set, or the default: accredited services only.
func (s *mstate) pref(u string) mPrefs {
	if p, ok := s.prefs[u]; ok {
		return p
	}
	return mPrefs{trustAcc: true}
}

func (s *mstate) trusts(u string, svc uint32) bool {
	sv, ok := s.svcs[svc]
	if !ok {
		return false
	}
	p := s.pref(u)
	if has(p.ids, svc) {
		return true
	}
	if sv.accredited {
		return p.trustAcc
	}
	return p.trustNon
}

func (s *mstate) trusted(u string) map[uint32]bool {
	out := map[uint32]bool{}
	for id := range s.svcs {
		if s.trusts(u, id) {
			out[id] = true
		}
	}
	return out
}

// trusting is the stake of a pool whose owners trust the service.
func (s *mstate) trusting(pool, svc uint32) math.Int {
	t := math.ZeroInt()
	d := s.pools[pool]
	for u, c := range s.del[target{tPool, pool}] {
		if s.trusts(u, svc) {
			t = t.Add(c.AmountOf(d))
		}
	}
	return t
}

func (s *mstate) secured(svc, pool uint32) bool {
	any := false
	for k := range s.sec {
		if k[0] == svc {
			any = true
			break
		}
	}
	return !any || s.sec[[2]uint32{svc, pool}]
}

func (s *mstate) listOf(rel map[[2]uint32]bool, a uint32) []uint32 {
	var out []uint32
	for k := range rel {
		if k[0] == a {
			out = append(out, k[1])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (s *mstate) canValidate(svc, op uint32) bool {
	l := s.listOf(s.allow, svc)
	return len(l) == 0 || has(l, op)
}

// denomsFor is what may be restaked with a service; all=true means everything.
func (s *mstate) denomsFor(svc uint32) (all bool, ds []string) {
	g, l := s.pDenoms, s.svcs[svc].denoms
	switch {
	case len(g) == 0 && len(l) == 0:
		return true, nil
	case len(g) == 0:
		return false, l
	case len(l) == 0:
		return false, g
	}
	for _, d := range g {
		if has(l, d) {
			ds = append(ds, d)
		}
	}
	return false, ds
}

func (s *mstate) restakable(d string) bool { return len(s.pDenoms) == 0 || has(s.pDenoms, d) }

// lockedActive is what a user has restaked of every locked denomination, and
// lockedPending what is still unbonding.
func (s *mstate) lockedActive(u string) sdk.Coins {
	out := sdk.Coins{}
	for _, us := range s.del {
		for _, c := range us[u] {
			if isLocked(c.Denom) {
				out = out.Add(c)
			}
		}
	}
	return out
}

func (s *mstate) lockedPending(u string) sdk.Coins {
	out := sdk.Coins{}
	for _, b := range s.ubds {
		if b.user == u {
			for _, c := range b.amt {
				if isLocked(c.Denom) {
					out = out.Add(c)
				}
			}
		}
	}
	return out
}

func ceilPct(amt math.Int, pct math.LegacyDec) math.Int {
	return pct.MulInt(amt).QuoInt64(100).Ceil().TruncateInt()
}

// required is the coverage an amount of locked coins needs, in native coins.
func (s *mstate) required(locked sdk.Coins) sdk.Coins {
	out := sdk.Coins{}
	for _, c := range locked {
		if n := ceilPct(c.Amount, s.pIns); n.IsPositive() {
			out = out.Add(sdk.NewCoin(nativeOf(c.Denom), n))
		}
	}
	return out
}

func (s *mstate) isTarget(a string) bool {
	for _, t := range s.targets() {
		if targetAddr(t.kind, t.id) == a {
			return true
		}
	}
	return false
}

func (s *mstate) staked(u string) math.Int {
	t := math.ZeroInt()
	for _, a := range s.stake[u] {
		t = t.Add(a)
	}
	return t
}

// ---- transactions on the model

type refusal struct {
	tags, why string
	maybe     bool // may be accepted, without any effect
}

// mx executes one message (or a block hook) on a state.
type mx struct {
	*mstate
	m    *model
	now  time.Time
	h    int64
	real bool // what really happened, to settle amounts known up to rounding only
	ev   *blockEv
}

func (x *mx) refuse(tags, f string, a ...any) {
	panic(&refusal{tags: tags, why: fmt.Sprintf(f, a...)})
}

// tracked says whether the model follows the balance of an address.
func (m *model) tracked(a string) bool { return m.track[a] }

func (x *mx) get(a, d string) ival {
	if v, ok := x.bal[a][d]; ok {
		return v
	}
	return exact(math.ZeroInt())
}

func (x *mx) put(a, d string, v ival) {
	if x.bal[a] == nil {
		x.bal[a] = map[string]ival{}
	}
	if v.hi.IsZero() {
		delete(x.bal[a], d)
		return
	}
	x.bal[a][d] = v
}

func (x *mx) credit(a string, c sdk.Coins, tags string) {
	x.m.trackAddr(a, "")
	if !x.m.tracked(a) {
		return
	}
	x.ev.touch(a, tags)
	for _, k := range c {
		v := x.get(a, k.Denom)
		x.put(a, k.Denom, ival{v.lo.Add(k.Amount), v.hi.Add(k.Amount)})
	}
}

// mVest is coins of an account that cannot be spent yet: everything until the
// end, or a share that shrinks from the start to the end.
type mVest struct {
	orig       sdk.Coins
	start, end int64 // seconds
	kind       int
}

const (
	vestDelayed = iota
	vestContinuous
	vestForever
)

// lockedUp is how much of the denom the account may not spend yet.
func (x *mx) lockedUp(a, d string) math.Int {
	v, ok := x.vest[a]
	if !ok {
		return math.ZeroInt()
	}
	o, now := v.orig.AmountOf(d), x.now.Unix()
	switch {
	case v.kind == vestForever:
		return o
	case now >= v.end:
		return math.ZeroInt()
	case v.kind == vestDelayed || now <= v.start:
		return o
	}
	share := math.LegacyNewDec(now - v.start).Quo(math.LegacyNewDec(v.end - v.start))
	return o.Sub(o.ToLegacyDec().Mul(share).RoundInt())
}

func (x *mx) debit(a string, c sdk.Coins, tags string) {
	if !x.m.tracked(a) {
		return
	}
	x.ev.touch(a, tags)
	for _, k := range c {
		v := x.get(a, k.Denom)
		need := k.Amount.Add(x.lockedUp(a, k.Denom))
		if v.hi.LT(need) || (v.lo.LT(need) && !x.real) {
			x.refuse(tags, "%s has %s%s, needs %s", name(a), v.lo, k.Denom, need)
		}
		x.put(a, k.Denom, ival{math.MaxInt(v.lo, k.Amount).Sub(k.Amount), v.hi.Sub(k.Amount)})
	}
}

// creditIval adds an amount known up to rounding.
func (x *mx) creditIval(a, d string, v ival, tags string) {
	if !x.m.tracked(a) {
		return
	}
	x.ev.touch(a, tags)
	o := x.get(a, d)
	x.put(a, d, ival{o.lo.Add(v.lo), o.hi.Add(v.hi)})
}

func (x *mx) debitIval(a, d string, v ival, tags string) {
	x.ev.touch(a, tags)
	o := x.get(a, d)
	lo := o.lo.Sub(v.hi)
	if lo.IsNegative() {
		lo = math.ZeroInt()
	}
	hi := o.hi.Sub(v.lo)
	if hi.IsNegative() {
		hi = math.ZeroInt()
	}
	x.put(a, d, ival{lo, hi})
}

// movable is the rule for who may pass locked tokens to whom.
func (x *mx) movable(from, to string, c sdk.Coins) {
	if from == addrLV || to == addrLV {
		return
	}
	ft, tt := x.isTarget(from), x.isTarget(to)
	if ft && tt {
		x.refuse("L01 R01", "transfer between restaking targets")
	}
	for _, k := range c {
		if isLocked(k.Denom) && !ft && !tt {
			x.refuse("L01", "locked tokens from %s to %s", name(from), name(to))
		}
	}
}

func (x *mx) send(from, to string, c sdk.Coins, tags string) {
	x.movable(from, to, c)
	x.debit(from, c, tags)
	x.credit(to, c, tags)
}

// fee pays a registration fee into the community pool.
func (x *mx) chargeFee(from string, required, offered sdk.Coins, tags string) {
	if required.IsZero() {
		return
	}
	ok := false
	for _, r := range required {
		if offered.AmountOf(r.Denom).GTE(r.Amount) {
			ok = true
		}
	}
	if !ok {
		x.refuse(tags, "fee %s offered, %s needed", offered, required)
	}
	x.movable(from, addrDistr, offered)
	x.debit(from, offered, tags)
	x.ev.community = x.ev.community.Add(offered...)
	x.ev.commTags += " " + tags
}

// blockEv collects what happened in a block, to attribute mismatches.
type blockEv struct {
	touched   map[string]string // address -> tags
	tags      string            // of everything attempted in the block
	community sdk.Coins         // expected growth of the community pool
	commTags  string
	commSave  sdk.Coins
	announced []time.Time // completion times the undelegations of a transaction must announce
}

func newEv() *blockEv {
	return &blockEv{touched: map[string]string{}, community: sdk.Coins{}}
}

// mark and rollback bracket a transaction that may be undone.
func (e *blockEv) mark()     { e.commSave = e.community }
func (e *blockEv) rollback() { e.community = e.commSave }

func (e *blockEv) touch(a, tags string) { e.touched[a] += " " + tags }

func uniqTags(s string) string {
	m := map[string]bool{}
	var out []string
	for _, t := range strings.Fields(s) {
		if !m[t] {
			m[t] = true
			out = append(out, t)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
