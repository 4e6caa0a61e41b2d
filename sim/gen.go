package main

// The workload: proposes every step from the seed, looking at the reference
// model so that most of what it asks for is possible, and much of it is at the
// edge of being impossible.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	vestingtypes "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	govv1b1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1beta1"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

type Profile struct {
	Steps, Nodes int
	IBC          bool
	TxMax        int
	W            map[string]float64 // weights of the groups of actions
	Fault        float64            // faults per step
	Load         float64            // steps with client load
	Export       float64            // steps that restart the chain from an export
	Spoil        float64            // transactions with a malformed message
	GenFault     float64            // steps that try to start chains from damaged exports
	Tamper       float64            // proposals tampered with
	BadFeed      float64            // validators whose price report is odd
	TxFault      float64            // transactions that are invalid, duplicated, out of gas, ...
	Retire       float64            // steps that give an operator lists of its own before it goes
	Jump         float64            // steps that jump to a scheduled event
	Multi        float64            // transactions of several messages
	NoBoot       float64            // runs starting from an empty chain
}

var groups = []string{"op", "svc", "rel", "del", "undel", "pref", "plan", "wd", "lv", "gov", "vote", "sdk", "ibc", "hostile"}

type generator struct {
	s     *Sim
	r     *rng
	prof  Profile
	txID  int
	boot  int
	steps int
	walk  map[string]int64 // honest prices
	opN   int
	voted map[string]bool
	drain int
	hs    bool // channels were opened
	todo  [][]TxSpec
	cum   []float64
	hot   []*account // users that act more often than the others
	hotP  float64
	last  *act
	again int // how often to repeat it for sure
}

func newGenerator(s *Sim, prof Profile) *generator {
	g := &generator{s: s, prof: prof, r: newRng(s.cfg.Seed, strHash(s.cfg.Profile), 2), walk: map[string]int64{}, voted: map[string]bool{}}
	t := 0.0
	for _, k := range groups {
		w, ok := prof.W[k]
		if !ok {
			w = defaultW[k]
		}
		t += w
		g.cum = append(g.cum, t)
	}
	g.hotP = pick(g.r, []float64{0, 0, 0.3, 0.6})
	g.hot = []*account{pick(g.r, users), pick(g.r, users)}
	if !g.r.p(prof.NoBoot) {
		g.bootScript()
	}
	for _, k := range s.cfg.Markets {
		d := int64(1)
		for i := uint64(0); i < k.Decimals && i < 8; i++ {
			d *= 10
		}
		g.walk[k.Base+"/USD"] = d * int64(g.r.between(1, 50))
	}
	return g
}

var defaultW = map[string]float64{"op": 1, "svc": 1, "rel": 1.2, "del": 3, "undel": 1.5, "pref": 1, "plan": 1, "wd": 1, "lv": 1, "gov": 0.5, "vote": 0.3, "sdk": 0.7, "ibc": 0.3, "hostile": 0.5}

// ---- helpers

// gov is the governance account as somebody to send coins to. Doing so makes
// exports useless (known finding), which rarely needs to be shown.
func (g *generator) gov() string {
	if g.prof.Export+g.prof.GenFault > 0 && g.s.cfg.Seed%12 != 0 {
		return addrRewards
	}
	return addrGov
}

func (g *generator) tx(signer string, msgs ...sdk.Msg) TxSpec {
	g.txID++
	t := TxSpec{ID: g.txID, Signers: []string{signer}}
	for _, m := range msgs {
		t.Msgs = append(t.Msgs, g.s.encodeMsg(m))
	}
	return t
}

func (g *generator) user() *account {
	if g.hotP > 0 && g.r.p(g.hotP) {
		return pick(g.r, g.hot)
	}
	return pick(g.r, users)
}

// someone is mostly the given account.
func (g *generator) someone(a string) string {
	if g.r.p(0.07) {
		return g.user().addr
	}
	return a
}

func pickKey[K interface {
	~uint32 | ~uint64 | ~string | ~int
}, V any](r *rng, m map[K]V, none K) K {
	ks := sortedKeys(m)
	if len(ks) == 0 {
		return none
	}
	return pick(r, ks)
}

func (g *generator) opID() uint32 {
	if g.r.p(0.04) {
		return uint32(g.r.n(8))
	}
	return pickKey(g.r, g.s.m.ops, uint32(1))
}
func (g *generator) svcID() uint32 {
	if g.r.p(0.04) {
		return uint32(g.r.n(8))
	}
	return pickKey(g.r, g.s.m.svcs, uint32(1))
}
func (g *generator) poolID() uint32 {
	if g.r.p(0.05) {
		return uint32(g.r.n(7))
	}
	return pickKey(g.r, g.s.m.pools, uint32(1))
}

func (g *generator) bal(a, d string) math.Int {
	if v, ok := g.s.m.bal[a][d]; ok {
		return v.lo
	}
	return math.ZeroInt()
}

// amt is an amount up to max, often at an edge.
func (g *generator) amt(max math.Int) math.Int {
	if !max.IsPositive() {
		return math.OneInt()
	}
	lim := func(x math.Int) math.Int {
		if x.GT(max) {
			return max
		}
		return x
	}
	switch g.r.n(12) {
	case 0:
		return math.OneInt()
	case 1:
		return lim(math.NewInt(int64(g.r.between(2, 9))))
	case 2:
		return max
	case 3:
		return lim(max.QuoRaw(2).AddRaw(1))
	case 4:
		if g.r.p(0.4) {
			return max.AddRaw(1)
		}
		return lim(math.NewInt(999_983))
	case 5, 6:
		return lim(math.NewInt(g.r.i64(1000) + 1))
	case 7, 8:
		return lim(math.NewInt(g.r.i64(1_000_000) + 1))
	case 9:
		return lim(math.NewInt(1_000_000 * int64(g.r.between(1, 1000))))
	case 10:
		return lim(max.QuoRaw(int64(g.r.between(2, 1000))).AddRaw(1))
	}
	return lim(math.NewInt(g.r.i64(1_000_000_000) + 1))
}

// restakeDenoms are denominations a user can think of restaking.
func (g *generator) denom() string {
	switch g.r.n(12) {
	case 0:
		return dBond
	case 1:
		return dCCC
	case 2, 3, 4:
		return dBBB
	case 5, 6:
		return lockedOf(dAAA)
	case 7:
		return lockedOf(dBBB)
	case 8:
		for d := range g.s.m.vouchers {
			_ = d
			return pickKey(g.r, g.s.m.vouchers, dAAA)
		}
	}
	return dAAA
}

// coverable is how much of a locked denomination a user can still restake.
func (g *generator) coverable(u, d string) math.Int {
	m := g.s.m
	act := m.lockedActive(u).Add(m.lockedPending(u)...).AmountOf(d)
	f := m.fund[u].AmountOf(nativeOf(d))
	c := math.LegacyNewDecFromInt(f).MulInt64(100).Quo(m.pIns).TruncateInt().Sub(act)
	if c.IsNegative() {
		return math.ZeroInt()
	}
	return c
}

func (g *generator) delCoin(u string) sdk.Coin {
	d := g.denom()
	max := g.bal(u, d)
	if isLocked(d) && !g.r.p(0.1) {
		c := g.coverable(u, d)
		if c.LT(max) {
			max = c
			if g.r.p(0.3) {
				max = max.AddRaw(1)
			}
		}
		if g.r.p(0.3) && max.IsPositive() {
			return sdk.NewCoin(d, max)
		}
	}
	if !isLocked(d) && g.r.p(0.9) && max.GT(math.NewInt(1000)) {
		max = max.QuoRaw(10)
	}
	return sdk.NewCoin(d, g.amt(max))
}

func (g *generator) delCoins(u string) sdk.Coins {
	c := sdk.NewCoins(g.delCoin(u))
	if g.r.p(0.3) {
		k := g.delCoin(u)
		if c.AmountOf(k.Denom).IsZero() {
			c = c.Add(k)
		}
	}
	return c
}

func (g *generator) strs(n string) string {
	return pick(g.r, []string{"", "x", n + fmt.Sprint(g.r.n(100)), "https://e.x/" + n})
}

func (g *generator) feeFor(f sdk.Coins) sdk.Coins {
	if f.IsZero() {
		if g.r.p(0.1) {
			return sdk.NewCoins(sdk.NewInt64Coin(dBond, 5))
		}
		return sdk.Coins{}
	}
	c := pick(g.r, f)
	switch g.r.n(12) {
	case 0:
		return sdk.NewCoins(sdk.NewCoin(c.Denom, c.Amount.SubRaw(1)))
	case 1:
		return sdk.Coins{}
	case 2:
		return sdk.NewCoins(c.AddAmount(math.NewInt(13)))
	case 3:
		return f
	case 4:
		return sdk.NewCoins(sdk.NewInt64Coin(dRwd, 100000), sdk.NewCoin(c.Denom, c.Amount.AddRaw(1)))
	}
	return sdk.NewCoins(c)
}

// ---- steps

func (g *generator) bootScript() {
	r := g.r
	var b []TxSpec
	nOps, nSvcs := r.between(1, 3), r.between(1, 3)
	c := g.s.cfg
	for i := 0; i < nOps; i++ {
		u := users[r.n(3)]
		b = append(b, g.tx(u.name, operatorstypes.NewMsgRegisterOperator(fmt.Sprintf("op%d", i), "", "", parseCoins(c.OpFee), u.addr)))
		id := uint32(i + 1)
		b = append(b, g.tx(u.name, operatorstypes.NewMsgSetOperatorParams(id, operatorstypes.NewOperatorParams(math.LegacyNewDecWithPrec(int64(r.n(1001)), 3)), u.addr)))
	}
	for i := 0; i < nSvcs; i++ {
		u := users[2+r.n(3)]
		id := uint32(i + 1)
		b = append(b, g.tx(u.name, servicestypes.NewMsgCreateService(fmt.Sprintf("svc%d", i), "", "", "", parseCoins(c.SvcFee), u.addr)))
		if r.p(0.9) {
			b = append(b, g.tx(u.name, servicestypes.NewMsgActivateService(id, u.addr)))
		}
	}
	g.todo = append(g.todo, b)
	// minting before anything else is delegated
	var l []TxSpec
	m0 := users[c.Minters[0]]
	for i := 0; i < nUsers; i++ {
		for _, d := range []string{dAAA, dBBB} {
			if r.p(0.5) {
				l = append(l, g.tx(m0.name, lvtypes.NewMsgMintLockedRepresentation(m0.addr, users[i].addr, sdk.NewCoins(sdk.NewInt64Coin(d, r.i64(10_000_000)+1)))))
			}
		}
	}
	g.todo = append(g.todo, l)
	g.boot = 2 + r.between(2, 4)
}

// next decides the next step.
func (g *generator) next() *Step {
	r := g.r
	s := g.s
	g.steps++
	st := &Step{Kind: "block", Noise: r.u64(), DT: g.dt(), Prop: r.n(16)}
	if g.steps > 6 && r.p(g.prof.Export) {
		e := &Step{Kind: "export", Noise: r.u64()}
		if r.p(0.6) {
			e.DT = st.DT
		}
		return e
	}
	if g.steps > 6 && r.p(g.prof.GenFault) {
		st := &Step{Kind: "tamper", Noise: r.u64()}
		for i := r.between(6, 20); i > 0; i-- {
			st.Tamper = append(st.Tamper, g.genFault())
		}
		return st
	}
	st.Feeds = g.feeds()
	for v := 0; v < nVals; v++ {
		if r.p(0.04) {
			st.Absent = append(st.Absent, v)
		}
	}
	if r.p(g.prof.Fault) {
		g.faults(st)
	}
	if r.p(g.prof.Load) {
		st.Load = r.between(1, 6)
	}
	if s.cfg.IBC && !g.hs {
		g.hs = true
		st.Txs = append(st.Txs, g.handshake())
		return st
	}
	if len(g.todo) > 0 {
		st.Txs = g.todo[0]
		g.todo = g.todo[1:]
		return st
	}
	left := s.cfg.Steps - g.steps
	if left < 8 && g.drain == 0 {
		g.drain = 1 + r.n(2) // 1: drain, 2: just end
	}
	if g.drain == 1 {
		g.drainStep(st, left)
		return st
	}
	if r.p(g.prof.Retire) {
		st.Txs = g.retire()
		return st
	}
	g.relays(st)
	n := r.n(g.prof.TxMax + 1)
	if g.boot > 0 {
		g.boot--
		n += 5
	}
	for i := 0; i < n; i++ {
		st.Txs = append(st.Txs, g.someTx())
	}
	g.votes(st)
	for i := range st.Txs {
		if r.p(g.prof.TxFault) {
			g.breakTx(st, i)
		}
	}
	if r.p(0.15) { // reorder
		p := r.perm(len(st.Txs))
		o := make([]TxSpec, len(p))
		for i, j := range p {
			o[i] = st.Txs[j]
		}
		st.Txs = o
	}
	return st
}

// genFault is an edit of an exported state, rather one of what there seldom is.
func (g *generator) genFault() string {
	r, m := g.r, g.s.m
	want := ""
	switch {
	case len(m.burns) > 0 && r.p(0.5):
		want = "burn"
	case len(m.fund) > 0 && r.p(0.05):
		want = "fund"
	case r.p(0.05):
		want = pick(r, []string{"deactivation", "secur", "undelegation", "start", "history"})
	}
	var l []string
	for _, n := range genFaultNames {
		if strings.Contains(n, want) {
			l = append(l, n)
		}
	}
	return pick(r, l)
}

// events are the times at which something is scheduled.
func (g *generator) events() []time.Time {
	m := g.s.m
	var out []time.Time
	for _, b := range m.ubds {
		out = append(out, b.done)
	}
	for _, o := range m.ops {
		if o.status == opInactivating {
			out = append(out, o.inactiveAt)
		}
	}
	for _, p := range m.plans {
		out = append(out, p.start, p.end)
	}
	for _, p := range m.props {
		if p.voting {
			out = append(out, p.voteEnd)
		} else {
			out = append(out, p.depEnd)
		}
	}
	for _, u := range m.unstake {
		out = append(out, u.done)
	}
	for _, p := range m.xfers {
		if !p.done {
			out = append(out, time.Unix(0, int64(p.timeout)).UTC())
		}
	}
	var fut []time.Time
	for _, t := range out {
		if t.After(g.s.nw.time) {
			fut = append(fut, t)
		}
	}
	sort.Slice(fut, func(i, j int) bool { return fut[i].Before(fut[j]) })
	return fut
}

func (g *generator) dt() int64 {
	r := g.r
	if r.p(g.prof.Jump) {
		if ev := g.events(); len(ev) > 0 {
			i := 0
			if r.p(0.25) {
				i = r.n(len(ev))
			}
			d := ev[i].Sub(g.s.nw.time).Milliseconds()
			if ev[i].Sub(g.s.nw.time)%time.Millisecond != 0 && r.p(0.5) {
				d++
			}
			d += pick(r, []int64{0, 0, 0, -1, 1, 1000})
			if d < 1 {
				d = 1
			}
			if d < 400*24*3600*1000 {
				return d
			}
		}
	}
	switch r.n(10) {
	case 0:
		return r.i64(1000) + 1
	case 1:
		return (r.i64(3600) + 1) * 1000
	case 2:
		if r.p(0.4) {
			return (r.i64(5*86400) + 1) * 1000
		}
	}
	return 1000 + r.i64(9000)
}

func (g *generator) feeds() []Feed {
	r := g.r
	for _, k := range sortedKeys(g.walk) {
		if r.p(0.3) {
			v := g.walk[k]
			d := v/20 + 1
			v += r.i64(2*d+1) - d
			if r.p(0.02) {
				v *= 7
			}
			if r.p(0.02) {
				v /= 9
			}
			if v < 1 {
				v = 1
			}
			g.walk[k] = v
		}
	}
	var out []Feed
	for v := 0; v < nVals; v++ {
		f := Feed{Prices: map[string]string{}}
		for _, k := range sortedKeys(g.walk) {
			if r.p(0.1) || (k == "CCC/USD" && r.p(0.9)) {
				continue
			}
			p := g.walk[k]
			if r.p(0.2) {
				p += r.i64(5) - 2
			}
			if p < 0 {
				p = 0
			}
			f.Prices[k] = fmt.Sprint(p)
		}
		if r.p(g.prof.BadFeed) {
			f.Mode = pick(r, []string{"err", "nil", "garbage", "empty", "panic", "hang", "rawve", ""})
			if f.Mode == "rawve" || f.Mode == "" {
				for _, k := range sortedKeys(f.Prices) {
					switch r.n(6) {
					case 0:
						f.Prices[k] = "0"
					case 1:
						f.Prices[k] = "-5"
					case 2:
						f.Prices[k] = f.Prices[k] + "000"
					case 3:
						f.Prices[k] = strings.Repeat("9", r.between(20, 90))
					case 4:
						if r.p(0.3) {
							f.Prices[k] = "abc"
						}
					}
				}
				if r.p(0.2) {
					f.Prices["NOPE/USD"] = "12"
				}
			}
		}
		out = append(out, f)
	}
	g.tame(out)
	return out
}

// tame keeps absurd prices to validators that together hold well below a third
// of the stake: with more of it, they decide what the price is.
func (g *generator) tame(fs []Feed) {
	m := g.s.m
	total, liars := math.ZeroInt(), math.ZeroInt()
	for _, k := range sortedKeys(m.valTok) {
		total = total.Add(m.valTok[k])
	}
	for v, f := range fs {
		w, ok := m.valTok[string(consAddr[v])]
		if !ok {
			w = math.ZeroInt()
		}
		counted := false
		for _, k := range sortedKeys(f.Prices) {
			if len(f.Prices[k]) < 20 {
				continue
			}
			if !counted && liars.Add(w).MulRaw(4).LT(total) {
				counted, liars = true, liars.Add(w)
			}
			if !counted {
				f.Prices[k] = fmt.Sprint(g.walk[k])
			}
		}
	}
}

func (g *generator) faults(st *Step) {
	r := g.r
	n := len(g.s.nw.nodes)
	k := 1
	if r.p(0.3) {
		k = 2
	}
	for i := 0; i < k; i++ {
		f := Fault{Node: r.n(n)}
		f.Kind = pick(r, []string{"restart", "crash_pre", "crash_exec", "crash_commit", "crash_commit", "crash_commit_after", "io_commit", "full_commit", "crash_done", "stall", "skew", "tamper"})
		if f.Kind == "tamper" && !r.p(g.prof.Tamper) {
			f.Kind = "crash_commit"
		}
		switch f.Kind {
		case "crash_exec":
			f.N = r.between(1, 400)
		case "crash_commit", "crash_commit_after", "io_commit":
			f.N = r.between(1, 12)
		case "stall":
			f.N = r.between(0, 6)
		case "skew":
			f.N = r.n(400_000_000) - 200_000_000
		case "tamper":
			f.N = r.n(8)
		}
		f.Lost = pick(r, []int{0, -1, 1, 2, 3})
		if n == 1 && (f.Kind == "stall") {
			continue
		}
		st.Faults = append(st.Faults, f)
	}
}

func (g *generator) breakTx(st *Step, i int) {
	r := g.r
	t := &st.Txs[i]
	if t.DupOf != 0 {
		return
	}
	switch r.n(13) {
	case 11: // around this block, also for a later repetition
		h := uint64(g.s.m.h) + uint64(r.n(5))
		if h > 0 {
			t.Timeout = h
		}
		if r.p(0.4) {
			st.Txs = append(st.Txs, TxSpec{ID: g.id(), DupOf: t.ID, Signers: t.Signers})
		}
	case 12:
		if r.p(0.5) {
			t.Memo = pick(r, []int{1, 255, 256, 257, 1000})
		} else {
			t.Mode = "option"
		}
	case 0:
		t.Mode = "badsig"
	case 1:
		t.Mode = "wrongkey"
	case 2:
		t.Mode = "wrongchain"
	case 3:
		t.SeqOff = pick(r, []int64{-1, 1, 2})
	case 4, 5:
		t.Gas = uint64(r.between(20_000, 400_000))
	case 6:
		t.Fee = pick(r, []string{"none", "1ufee", "5000000umilk", "9000000locked/uaaa", "99999999ufee,5umilk"})
	case 7: // delivered again, now or later
		st.Txs = append(st.Txs, TxSpec{ID: g.id(), DupOf: t.ID, Signers: t.Signers})
	case 8:
		if g.txID > 20 {
			st.Txs = append(st.Txs, TxSpec{ID: g.id(), DupOf: r.between(1, g.txID-1), Signers: t.Signers})
		}
	case 9:
		t.Granter = g.user().name
		for k := range g.s.m.allowF {
			_ = k
			var ks []string
			for q := range g.s.m.allowF {
				if accs[q[1]] != nil && accs[q[0]] != nil {
					ks = append(ks, q[0]+" "+q[1])
				}
			}
			sort.Strings(ks)
			if len(ks) > 0 && r.p(0.7) {
				q := strings.Fields(pick(r, ks))
				if accs[q[1]].name == t.Signers[0] {
					t.Granter = accs[q[0]].name
				}
			}
			break
		}
	case 10: // signed by somebody else
		t.Signers = []string{g.user().name}
	}
}

func (g *generator) id() int { g.txID++; return g.txID }

// ---- transactions

type act struct {
	who string // address
	msg sdk.Msg
}

func (g *generator) someTx() TxSpec {
	r := g.r
	a := g.action()
	if g.last != nil && (g.again > 0 || r.p(0.07)) { // the same once more
		a = *g.last
		g.again = max(0, g.again-1)
	}
	g.last = nil
	if !relay(a.msg) && !staky(a.msg) {
		g.last = &a
	}
	var acts = []act{a}
	if !relay(a.msg) && r.p(g.prof.Multi) {
		k := r.between(1, 3)
		for i := 0; i < k; i++ {
			b := g.action()
			if relay(b.msg) || (b.who != a.who && !r.p(0.2)) || staky(b.msg) || staky(a.msg) {
				continue
			}
			acts = append(acts, b)
		}
	}
	spoilt, at := "", 0
	if r.p(g.prof.Spoil) {
		i := r.n(len(acts))
		if m, why := g.spoil(acts[i].msg); m != nil {
			acts[i].msg, spoilt, at = m, why, i
		}
	}
	if r.p(0.04) && len(acts) == 1 && !relay(a.msg) { // through delegated authority
		t := g.wrapped(acts)
		t.Spoilt = spoilt
		return t
	}
	g.txID++
	t := TxSpec{ID: g.txID, Spoilt: spoilt, SpoiltAt: at}
	for _, b := range acts {
		t.Msgs = append(t.Msgs, g.s.encodeMsg(b.msg))
		n := ""
		if x := accs[b.who]; x != nil {
			n = x.name
		} else {
			n = g.user().name
		}
		if !has(t.Signers, n) {
			t.Signers = append(t.Signers, n)
		}
	}
	return t
}

func relay(m sdk.Msg) bool {
	switch m.(type) {
	case *channeltypes.MsgRecvPacket, *channeltypes.MsgAcknowledgement, *channeltypes.MsgTimeout:
		return true
	}
	return false
}

func staky(m sdk.Msg) bool {
	switch m.(type) {
	case *stakingtypes.MsgDelegate, *stakingtypes.MsgUndelegate, *govv1.MsgVote, *govv1.MsgVoteWeighted, *govv1b1.MsgVote, *govv1b1.MsgVoteWeighted, *authz.MsgExec:
		return true
	}
	return false
}

func (g *generator) wrapped(acts []act) TxSpec {
	r := g.r
	by := accs[acts[0].who]
	if by == nil {
		by = g.user()
	}
	who := by
	if r.p(0.6) { // somebody with a grant
		for _, k := range g.grantsFor(acts[0]) {
			who = accs[k.grantee]
			break
		}
		if r.p(0.2) {
			who = g.user()
		}
	}
	var ms []sdk.Msg
	for _, a := range acts {
		ms = append(ms, a.msg)
	}
	e := authz.NewMsgExec(must(sdk.AccAddressFromBech32(who.addr)), ms)
	if r.p(0.2) {
		e = authz.NewMsgExec(must(sdk.AccAddressFromBech32(who.addr)), []sdk.Msg{&e})
	}
	return g.tx(who.name, &e)
}

func (g *generator) grantsFor(a act) []grantKey {
	var out []grantKey
	for k := range g.s.m.grants {
		if k.granter == a.who && k.url == sdk.MsgTypeURL(a.msg) && accs[k.grantee] != nil {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].grantee < out[j].grantee })
	return out
}

func (g *generator) action() act {
	for i := 0; i < 20; i++ {
		x := g.r.f() * g.cum[len(g.cum)-1]
		k := 0
		for k < len(groups)-1 && g.cum[k] < x {
			k++
		}
		if a, ok := g.act(groups[k]); ok {
			return a
		}
	}
	u := g.user()
	return act{u.addr, restakingtypes.NewMsgDelegatePool(sdk.NewInt64Coin(dAAA, 100), u.addr)}
}

func (g *generator) act(group string) (act, bool) {
	switch group {
	case "op":
		return g.actOp(), true
	case "svc":
		return g.actSvc(), true
	case "rel":
		return g.actRel(), true
	case "del":
		return g.actDel(), true
	case "undel":
		return g.actUndel()
	case "pref":
		return g.actPref(), true
	case "plan":
		return g.actPlan()
	case "wd":
		return g.actWd()
	case "lv":
		return g.actLV()
	case "gov":
		return g.actGov(), true
	case "vote":
		return g.actVote()
	case "sdk":
		return g.actSdk(), true
	case "ibc":
		return g.actIBC()
	}
	return g.actHostile()
}

// edit is the new text of a description: left alone, emptied or changed
func (g *generator) edit(prefix string) string {
	switch g.r.n(5) {
	case 0, 1:
		return keep
	case 2:
		return ""
	}
	return prefix + fmt.Sprint(g.r.n(9))
}

func (g *generator) actOp() act {
	r, m := g.r, g.s.m
	id := g.opID()
	who := g.user().addr
	if o, ok := m.ops[id]; ok {
		who = g.someone(o.admin)
	}
	if len(m.ops) < 2 || r.p(0.08) {
		u := g.user()
		return act{u.addr, operatorstypes.NewMsgRegisterOperator(pick(r, []string{"op", "o2", "  ", "x"}), g.strs("w"), g.strs("p"), g.feeFor(m.pOp), u.addr)}
	}
	switch r.n(12) {
	case 0, 1:
		return act{who, operatorstypes.NewMsgUpdateOperator(id, pick(r, []string{keep, "new" + fmt.Sprint(r.n(9)), "", " "}), g.edit("w"), g.edit("p"), who)}
	case 2, 3:
		return act{who, operatorstypes.NewMsgDeactivateOperator(id, who)}
	case 4, 5:
		return act{who, operatorstypes.NewMsgReactivateOperator(id, who)}
	case 6:
		return act{who, operatorstypes.NewMsgDeleteOperator(id, who)}
	case 7:
		return act{who, operatorstypes.NewMsgTransferOperatorOwnership(id, pick(r, []string{g.user().addr, g.user().addr, g.user().addr, "bad"}), who)}
	}
	rate := math.LegacyNewDecWithPrec(pick(r, []int64{0, 1, 50, 333, 100, 999, 1000, 1001}), 3)
	return act{who, operatorstypes.NewMsgSetOperatorParams(id, operatorstypes.NewOperatorParams(rate), who)}
}

func (g *generator) actSvc() act {
	r, m := g.r, g.s.m
	id := g.svcID()
	who := g.user().addr
	if o, ok := m.svcs[id]; ok {
		who = g.someone(o.admin)
		if o.status != svActive && r.p(0.35) {
			return act{who, servicestypes.NewMsgActivateService(id, who)}
		}
	}
	if len(m.svcs) < 2 || r.p(0.08) {
		u := g.user()
		return act{u.addr, servicestypes.NewMsgCreateService(pick(r, []string{"svc", "s2", "", "x"}), g.strs("d"), g.strs("w"), g.strs("p"), g.feeFor(m.pSvc), u.addr)}
	}
	switch r.n(12) {
	case 0, 1:
		return act{who, servicestypes.NewMsgUpdateService(id, pick(r, []string{keep, "new" + fmt.Sprint(r.n(9)), "", " "}), g.edit("d"), g.edit("w"), g.edit("p"), who)}
	case 2, 3:
		return act{who, servicestypes.NewMsgActivateService(id, who)}
	case 4, 5:
		return act{who, servicestypes.NewMsgDeactivateService(id, who)}
	case 6:
		return act{who, servicestypes.NewMsgDeleteService(id, who)}
	case 7:
		return act{who, servicestypes.NewMsgTransferServiceOwnership(id, pick(r, []string{g.user().addr, g.user().addr, g.user().addr, "bad"}), who)}
	}
	return act{who, servicestypes.NewMsgSetServiceParams(id, servicestypes.NewServiceParams(g.denomList()), who)}
}

func (g *generator) denomList() []string {
	r := g.r
	if r.p(0.35) {
		return nil
	}
	var out []string
	for _, d := range []string{dAAA, dBBB, dBond, lockedOf(dAAA), lockedOf(dBBB)} {
		if r.p(0.6) {
			out = append(out, d)
		}
	}
	if r.p(0.05) {
		out = append(out, "1bad")
	}
	return out
}

// retire makes an operator that is going, or gone, the only allowed one of
// some services, active or not, and deletes it.
func (g *generator) retire() []TxSpec {
	r, m := g.r, g.s.m
	var ids []uint32
	for _, id := range sortedKeys(m.ops) {
		if m.total(target{tOperator, id}).IsZero() && m.ops[id].status == opInactive {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		ids = sortedKeys(m.ops)
	}
	if len(ids) == 0 {
		return nil
	}
	op := m.ops[pick(r, ids)]
	var out []TxSpec
	add := func(who string, msg sdk.Msg) {
		if a := accs[who]; a != nil {
			out = append(out, g.tx(a.name, msg))
		}
	}
	if op.status == opActive {
		add(op.admin, operatorstypes.NewMsgDeactivateOperator(op.id, op.admin))
	}
	for _, id := range sortedKeys(m.svcs) {
		sv := m.svcs[id]
		if !r.p(0.7) {
			continue
		}
		if sv.status != svActive && r.p(0.4) {
			add(sv.admin, servicestypes.NewMsgActivateService(id, sv.admin))
		}
		add(sv.admin, restakingtypes.NewMsgAddOperatorToAllowList(id, op.id, sv.admin))
		for _, o := range m.listOf(m.allow, id) {
			if o != op.id && r.p(0.8) {
				add(sv.admin, restakingtypes.NewMsgRemoveOperatorFromAllowList(id, o, sv.admin))
			}
		}
		if r.p(0.3) {
			add(sv.admin, servicestypes.NewMsgDeactivateService(id, sv.admin))
		}
	}
	if op.status == opInactive && r.p(0.7) {
		add(op.admin, operatorstypes.NewMsgDeleteOperator(op.id, op.admin))
	}
	return out
}

func (g *generator) actRel() act {
	r, m := g.r, g.s.m
	op, sv := g.opID(), g.svcID()
	oa, sa := g.user().addr, g.user().addr
	if o, ok := m.ops[op]; ok {
		oa = g.someone(o.admin)
	}
	if s, ok := m.svcs[sv]; ok {
		sa = g.someone(s.admin)
	}
	switch r.n(9) {
	case 0, 1, 2:
		return act{oa, restakingtypes.NewMsgJoinService(op, sv, oa)}
	case 3:
		return act{oa, restakingtypes.NewMsgLeaveService(op, sv, oa)}
	case 4, 5:
		return act{sa, restakingtypes.NewMsgAddOperatorToAllowList(sv, op, sa)}
	case 6:
		if l := m.listOf(m.allow, sv); len(l) > 0 && r.p(0.8) {
			op = pick(r, l)
		}
		return act{sa, restakingtypes.NewMsgRemoveOperatorFromAllowList(sv, op, sa)}
	case 7:
		return act{sa, restakingtypes.NewMsgBorrowPoolSecurity(sv, g.poolID(), sa)}
	}
	p := g.poolID()
	if l := m.listOf(m.sec, sv); len(l) > 0 && r.p(0.8) {
		p = pick(r, l)
	}
	return act{sa, restakingtypes.NewMsgCeasePoolSecurityBorrow(sv, p, sa)}
}

func (g *generator) actDel() act {
	r := g.r
	u := g.user().addr
	switch r.n(3) {
	case 0:
		return act{u, restakingtypes.NewMsgDelegatePool(g.delCoin(u), u)}
	case 1:
		return act{u, restakingtypes.NewMsgDelegateOperator(g.opID(), g.delCoins(u), u)}
	}
	return act{u, restakingtypes.NewMsgDelegateService(g.svcID(), g.delCoins(u), u)}
}

type position struct {
	t target
	u string
	c sdk.Coins
}

func (g *generator) positions() []position {
	m := g.s.m
	var out []position
	for _, t := range m.targets() {
		for _, u := range sortedKeys(m.del[t]) {
			if !m.del[t][u].IsZero() {
				out = append(out, position{t, u, m.del[t][u]})
			}
		}
	}
	return out
}

func undel(t target, u string, c sdk.Coins) sdk.Msg {
	switch t.kind {
	case tPool:
		return restakingtypes.NewMsgUndelegatePool(c[0], u)
	case tOperator:
		return restakingtypes.NewMsgUndelegateOperator(t.id, c, u)
	}
	return restakingtypes.NewMsgUndelegateService(t.id, c, u)
}

func (g *generator) actUndel() (act, bool) {
	ps := g.positions()
	if len(ps) == 0 {
		return act{}, false
	}
	p := pick(g.r, ps)
	c := sdk.Coins{}
	for _, k := range p.c {
		if g.r.p(0.7) || len(p.c) == 1 {
			c = c.Add(sdk.NewCoin(k.Denom, g.amt(k.Amount)))
		}
	}
	if c.IsZero() {
		c = p.c
	}
	u := g.someone(p.u)
	return act{u, undel(p.t, u, c)}, true
}

func (g *generator) actPref() act {
	r, m := g.r, g.s.m
	u := g.user().addr
	if ps := g.positions(); len(ps) > 0 && r.p(0.6) {
		u = pick(r, ps).u
	}
	var ids []uint32
	for _, i := range sortedKeys(m.svcs) {
		if r.p(0.35) {
			ids = append(ids, i)
		}
	}
	if r.p(0.05) {
		ids = append(ids, uint32(r.n(9)))
	}
	return act{u, restakingtypes.NewMsgSetUserPreferences(restakingtypes.NewUserPreferences(r.p(0.4), r.p(0.4), ids), u)}
}

func (g *generator) distribution(pool bool) rewardstypes.Distribution {
	r, m := g.r, g.s.m
	w := uint32(pick(r, []int{0, 0, 1, 1, 2, 5, 100}))
	var ws []rewardstypes.DistributionWeight
	add := func(ids []uint32) {
		for _, i := range ids {
			if r.p(0.6) {
				ws = append(ws, rewardstypes.NewDistributionWeight(i, uint32(pick(r, []int{1, 1, 2, 3, 7, 1000}))))
			}
		}
	}
	if pool {
		switch r.n(3) {
		case 0:
			return rewardstypes.NewBasicPoolsDistribution(w)
		case 1:
			return rewardstypes.NewEgalitarianPoolsDistribution(w)
		}
		add(sortedKeys(m.pools))
		return rewardstypes.NewWeightedPoolsDistribution(w, ws)
	}
	switch r.n(3) {
	case 0:
		return rewardstypes.NewBasicOperatorsDistribution(w)
	case 1:
		return rewardstypes.NewEgalitarianOperatorsDistribution(w)
	}
	add(sortedKeys(m.ops))
	return rewardstypes.NewWeightedOperatorsDistribution(w, ws)
}

// nextAddr is an address that the chain will use when something is created.
func (g *generator) nextAddr() string {
	r, m := g.r, g.s.m
	switch r.n(6) {
	case 0:
		return targetAddr(tOperator, m.nextOp)
	case 1:
		return targetAddr(tService, m.nextSvc)
	case 2:
		return targetAddr(tPool, m.nextPl)
	case 3:
		return accAddrOf(fmt.Sprintf("vest%d", r.n(1000)))
	}
	return planAddr(m.nextPn + uint64(r.n(3)))
}

func (g *generator) perDay() sdk.Coins {
	r := g.r
	one := func() math.Int {
		return pick(r, []math.Int{math.NewInt(1), math.NewInt(r.i64(1000) + 1), math.NewInt(86_400_000), math.NewInt(r.i64(1_000_000_000) + 1), math.NewInt(1_000_000_007), math.NewInt(r.i64(1_000_000_000_000) + 1)})
	}
	c := sdk.NewCoins(sdk.NewCoin(dRwd, one()))
	if r.p(0.25) {
		c = c.Add(sdk.NewCoin(pick(r, []string{dAAA, dBond, dBBB}), one()))
	}
	if r.p(0.04) {
		c = c.Add(sdk.NewCoin(lockedOf(dAAA), one()))
	}
	return c
}

func (g *generator) actPlan() (act, bool) {
	r, m := g.r, g.s.m
	now := g.s.nw.time
	if len(m.plans) > 0 && r.p(0.65) { // fund one
		id := pickKey(r, m.plans, uint64(0))
		u := g.user()
		if r.p(0.7) {
			c := sdk.Coins{}
			for _, k := range m.plans[id].perDay {
				if isLocked(k.Denom) {
					continue
				}
				a := k.Amount.MulRaw(int64(pick(r, []int{1, 3, 30, 1000}))).QuoRaw(int64(pick(r, []int{1, 1, 10, 10000}))).AddRaw(1)
				if a.GT(g.bal(u.addr, k.Denom).QuoRaw(4)) {
					a = g.bal(u.addr, k.Denom).QuoRaw(5)
				}
				if a.IsPositive() {
					c = c.Add(sdk.NewCoin(k.Denom, a))
				}
			}
			if !c.IsZero() {
				return act{u.addr, &banktypes.MsgSend{FromAddress: u.addr, ToAddress: planAddr(id), Amount: c}}, true
			}
		}
		// edit it
		p := m.plans[id]
		who := g.user().addr
		if s, ok := m.svcs[p.svc]; ok {
			who = g.someone(s.admin)
		}
		st, en := g.window(now)
		if r.p(0.5) {
			st = p.start
		}
		return act{who, rewardstypes.NewMsgEditRewardsPlan(id, g.strs("plan"), g.perDay(), st, en, g.distribution(true), g.distribution(false), g.udist(), who)}, true
	}
	id := g.svcID()
	who := g.user().addr
	if s, ok := m.svcs[id]; ok {
		who = g.someone(s.admin)
	}
	st, en := g.window(now)
	return act{who, rewardstypes.NewMsgCreateRewardsPlan(id, g.strs("plan"), g.perDay(), st, en, g.distribution(true), g.distribution(false), g.udist(), g.feeFor(m.pPlan), who)}, true
}

func (g *generator) udist() rewardstypes.UsersDistribution {
	return rewardstypes.NewBasicUsersDistribution(uint32(pick(g.r, []int{0, 0, 1, 1, 3})))
}

func (g *generator) window(now time.Time) (time.Time, time.Time) {
	r := g.r
	st := now.Add(time.Duration(r.i64(7200)-5400) * time.Second)
	en := now.Add(time.Duration(pick(r, []int64{60, 600, 3600, 86400, 30 * 86400, 30 * 86400, 400 * 86400})) * time.Second)
	if r.p(0.03) {
		en = st
	}
	if r.p(0.03) {
		en = now.Add(-time.Second)
	}
	return st, en
}

func dtype(k tkind) restakingtypes.DelegationType {
	return map[tkind]restakingtypes.DelegationType{tPool: restakingtypes.DELEGATION_TYPE_POOL, tOperator: restakingtypes.DELEGATION_TYPE_OPERATOR, tService: restakingtypes.DELEGATION_TYPE_SERVICE}[k]
}

func (g *generator) actWd() (act, bool) {
	r, m := g.r, g.s.m
	switch r.n(10) {
	case 0:
		u := g.user().addr
		to := g.user().addr
		if r.p(0.15) {
			to = pick(r, []string{addrLV, g.gov(), addrRewards, addrDistr, targetAddr(tPool, 1), targetAddr(tOperator, 1), "bad", u})
		}
		return act{u, rewardstypes.NewMsgSetWithdrawAddress(to, u)}, true
	case 1, 2:
		id := g.opID()
		who := g.user().addr
		if o, ok := m.ops[id]; ok {
			who = g.someone(o.admin)
		}
		return act{who, rewardstypes.NewMsgWithdrawOperatorCommission(id, who)}, true
	}
	ps := g.positions()
	if len(ps) == 0 {
		return act{}, false
	}
	p := pick(r, ps)
	u := g.someone(p.u)
	return act{u, rewardstypes.NewMsgWithdrawDelegatorReward(dtype(p.t.kind), p.t.id, u)}, true
}

func (g *generator) actLV() (act, bool) {
	r, m := g.r, g.s.m
	pickA := func(l []string) string {
		if len(l) == 0 || r.p(0.06) {
			return g.user().addr
		}
		return pick(r, l)
	}
	switch r.n(8) {
	case 0, 1:
		by := pickA(m.pMinters)
		to := g.user().addr
		d := pick(r, []string{dAAA, dAAA, dBBB, dBond})
		if len(m.vouchers) > 0 && r.p(0.3) {
			d = pickKey(r, m.vouchers, d)
		}
		c := sdk.NewCoins(sdk.NewInt64Coin(d, r.i64(100_000)+1))
		if r.p(0.2) {
			c = c.Add(sdk.NewInt64Coin(pick(r, []string{dAAA, dBBB}), r.i64(1000)+1))
		}
		if r.p(0.04) {
			c = sdk.NewCoins(sdk.NewInt64Coin(lockedOf(dAAA), 5))
		}
		if r.p(0.06) {
			to = pick(r, []string{g.nextAddr(), targetAddr(tPool, 1), targetAddr(tService, 1), targetAddr(tOperator, 1), addrLV})
			if len(m.plans) > 0 && r.p(0.6) {
				to = planAddr(pickKey(r, m.plans, 1))
			}
		}
		return act{by, lvtypes.NewMsgMintLockedRepresentation(by, to, c)}, true
	case 2, 3, 4:
		u := g.user().addr
		if r.p(0.08) { // what others have restaked
			if ts := m.targets(); len(ts) > 0 {
				t := pick(r, ts)
				u = targetAddr(t.kind, t.id)
			}
		}
		all := m.lockedActive(u)
		for d, v := range m.bal[u] {
			if isLocked(d) {
				all = all.Add(sdk.NewCoin(d, v.lo))
			}
		}
		if all.IsZero() {
			return act{}, false
		}
		c := sdk.Coins{}
		for _, k := range all {
			if r.p(0.7) {
				c = c.Add(sdk.NewCoin(k.Denom, g.amt(k.Amount)))
			}
		}
		if c.IsZero() {
			c = all
		}
		by := pickA(m.pBurners)
		if r.p(0.25) { // in parts, more than one of them scheduled at once
			for i := range c {
				c[i].Amount = c[i].Amount.QuoRaw(int64(r.between(2, 4))).AddRaw(1)
			}
			g.again = r.between(1, 2)
		}
		return act{by, lvtypes.NewMsgBurnLockedRepresentation(by, u, c)}, true
	}
	// withdraw from the insurance fund, around what may be withdrawn
	u := g.user().addr
	f := m.fund[u]
	if f.IsZero() {
		if r.p(0.9) {
			return act{}, false
		}
		f = sdk.NewCoins(sdk.NewInt64Coin(dAAA, 10))
	}
	need := m.required(m.lockedActive(u).Add(m.lockedPending(u)...))
	c := sdk.Coins{}
	for _, k := range f {
		free := k.Amount.Sub(need.AmountOf(k.Denom))
		if free.IsNegative() {
			free = math.ZeroInt()
		}
		a := pick(r, []math.Int{free, free, free.AddRaw(1), g.amt(free), k.Amount, math.OneInt()})
		if a.IsPositive() && r.p(0.8) {
			c = c.Add(sdk.NewCoin(k.Denom, a))
		}
	}
	if c.IsZero() {
		return act{}, false
	}
	return act{u, lvtypes.NewMsgWithdrawInsuranceFund(u, c)}, true
}

// ---- governance

func (g *generator) govMsg() sdk.Msg {
	r, m := g.r, g.s.m
	auth := addrGov
	if r.p(0.04) {
		auth = g.user().addr
	}
	fee := func() sdk.Coins {
		return parseCoins(pick(r, []string{"", "10umilk", "1000umilk,5uaaa", "3ubbb"}))
	}
	switch r.n(13) {
	case 0:
		t := sec(pick(r, []int64{1, 20, 60, 3600, 86400, 259200}))
		if r.p(0.15) {
			t = pick(r, []time.Duration{0, -time.Second, time.Millisecond})
		}
		return restakingtypes.NewMsgUpdateParams(restakingtypes.NewParams(t, g.denomList()), auth)
	case 1:
		t := sec(pick(r, []int64{1, 20, 600, 86400}))
		if r.p(0.15) {
			t = pick(r, []time.Duration{0, -time.Second})
		}
		return operatorstypes.NewMsgUpdateParams(operatorstypes.NewParams(fee(), t), auth)
	case 2:
		return servicestypes.NewMsgUpdateParams(servicestypes.NewParams(fee()), auth)
	case 3:
		return &rewardstypes.MsgUpdateParams{Authority: auth, Params: rewardstypes.NewParams(fee())}
	case 4, 5:
		pct := math.LegacyMustNewDecFromStr(pick(r, []string{"2", "0.5", "10", "33.3", "100", "1", "0", "101", "-1"}))
		us := func(n int) (out []string) {
			for i := 0; i < n; i++ {
				out = append(out, users[r.n(nUsers)].addr)
			}
			if r.p(0.03) {
				out = append(out, "bad")
			}
			return
		}
		chs := []string{chanB}
		if r.p(0.3) {
			chs = pick(r, [][]string{{chanA}, {chanA, chanB}, nil, {"bad channel"}})
		}
		tr := m.pTrusted
		if r.p(0.4) {
			tr = us(r.between(0, 3))
		}
		return lvtypes.NewMsgUpdateParams(auth, lvtypes.NewParams(pct, us(r.between(1, 2)), us(r.between(1, 2)), tr, chs))
	case 6, 7:
		return servicestypes.NewMsgAccreditService(g.svcID(), auth)
	case 8:
		return servicestypes.NewMsgRevokeServiceAccreditation(g.svcID(), auth)
	case 9, 10, 11:
		d := pick(r, []string{dAAA, dBBB, dBond, dCCC, dRwd, lockedOf(dAAA), lockedOf(dBBB)})
		e := pick(r, []uint32{0, 2, 6, 6, 6, 18, 18, 19, 60, 77})
		if e > 18 && r.p(0.7) {
			e = 6
		}
		return assetstypes.NewMsgRegisterAsset(auth, assetstypes.NewAsset(d, pick(r, []string{"AAA", "BBB", "MILK", "CCC", "NOPE", "AAA", "a b", ""}), e))
	}
	d := pickKey(r, m.assets, dAAA)
	if r.p(0.1) {
		d = dRwd
	}
	return assetstypes.NewMsgDeregisterAsset(auth, d)
}

func (g *generator) actGov() act {
	r := g.r
	u := g.user().addr
	n := 1
	if r.p(0.3) {
		n = r.between(2, 3)
	}
	var ms []sdk.Msg
	for i := 0; i < n; i++ {
		ms = append(ms, g.govMsg())
	}
	exp := false
	if r.p(0.15) {
		exp = true
		if r.p(0.7) {
			ms = []sdk.Msg{&upgradetypes.MsgSoftwareUpgrade{Authority: addrGov, Plan: upgradetypes.Plan{Name: "v99", Height: 50_000_000}}}
			if r.p(0.3) {
				ms = append(ms, g.govMsg())
			}
		}
	}
	dep := int64(1000)
	if exp {
		dep = 2000
	}
	if r.p(0.15) {
		dep = 500
	}
	c := sdk.NewCoins(sdk.NewInt64Coin(dBond, dep))
	if r.p(0.03) {
		c = sdk.NewCoins(sdk.NewInt64Coin(lockedOf(dAAA), dep))
	}
	p := must(govv1.NewMsgSubmitProposal(ms, c, u, "", "t", "s", exp))
	return act{u, p}
}

// actVote is a vote by anybody on anything, directly or wrapped.
func (g *generator) actVote() (act, bool) {
	r, m := g.r, g.s.m
	if len(m.props) == 0 {
		return act{}, false
	}
	u := g.user()
	id := pickKey(r, m.props, uint64(1))
	if p := m.props[id]; !p.voting && r.p(0.7) {
		return act{u.addr, govv1.NewMsgDeposit(u.raw, id, sdk.NewCoins(sdk.NewInt64Coin(dBond, pick(r, []int64{500, 1000}))))}, true
	}
	v := g.voteMsg(u, id, r.n(4), true)
	if r.p(0.25) {
		e := authz.NewMsgExec(u.raw, []sdk.Msg{v})
		if r.p(0.3) {
			e = authz.NewMsgExec(u.raw, []sdk.Msg{&e})
		}
		return act{u.addr, &e}, true
	}
	return act{u.addr, v}, true
}

func (g *generator) voteMsg(u *account, id uint64, kind int, yes bool) sdk.Msg {
	o := govv1.OptionYes
	ob := govv1b1.OptionYes
	if !yes {
		o, ob = govv1.OptionNo, govv1b1.OptionNo
	}
	switch kind {
	case 1:
		return govv1.NewMsgVoteWeighted(u.raw, id, govv1.WeightedVoteOptions{{Option: o, Weight: "0.6"}, {Option: govv1.OptionAbstain, Weight: "0.4"}}, "")
	case 2:
		return govv1b1.NewMsgVote(u.raw, id, ob)
	case 3:
		return govv1b1.NewMsgVoteWeighted(u.raw, id, govv1b1.WeightedVoteOptions{{Option: ob, Weight: math.LegacyOneDec()}})
	}
	return govv1.NewMsgVote(u.raw, id, o, "")
}

// votes lets the validators vote on what is open.
func (g *generator) votes(st *Step) {
	r, m := g.r, g.s.m
	for _, id := range sortedKeys(m.props) {
		p := m.props[id]
		if !p.voting {
			continue
		}
		yes := newRng(g.s.cfg.Seed, id, 91).p(0.88)
		for _, v := range valAccs {
			k := fmt.Sprintf("%d/%s", id, v.name)
			if g.voted[k] || r.p(0.3) {
				continue
			}
			g.voted[k] = true
			kind := 0
			if r.p(0.2) {
				kind = 2
			}
			st.Txs = append(st.Txs, g.tx(v.name, g.voteMsg(v, id, kind, yes != r.p(0.04))))
		}
	}
}

// ---- messages of other modules

func (g *generator) actSdk() act {
	r, m := g.r, g.s.m
	u, w := g.user(), g.user()
	switch r.n(14) {
	case 0, 1, 2:
		d := pick(r, []string{dAAA, dBond, dRwd, dFee, lockedOf(dAAA)})
		to := w.addr
		if r.p(0.2) {
			to = pick(r, []string{targetAddr(tPool, 1), targetAddr(tOperator, 1), targetAddr(tService, 1), addrRewards, g.gov(), addrLV, planAddr(1)})
		}
		if to == addrLV && isLocked(d) && !r.p(0.3) {
			to = w.addr
		}
		c := sdk.NewCoins(sdk.NewCoin(d, g.amt(math.NewInt(100_000))))
		for i := r.n(6); i > 3; i-- { // several coins
			c = c.Add(sdk.NewCoin(pick(r, []string{dAux, dAux, dBBB, lockedOf(dAAA), lockedOf(dBBB)}), math.NewInt(r.i64(1000)+1)))
		}
		return act{u.addr, &banktypes.MsgSend{FromAddress: u.addr, ToAddress: to, Amount: c}}
	case 3:
		a, b := g.amt(math.NewInt(1000)), g.amt(math.NewInt(1000))
		d := pick(r, []string{dAAA, dBond, lockedOf(dAAA)})
		return act{u.addr, &banktypes.MsgMultiSend{Inputs: []banktypes.Input{{Address: u.addr, Coins: sdk.NewCoins(sdk.NewCoin(d, a.Add(b)))}},
			Outputs: []banktypes.Output{{Address: w.addr, Coins: sdk.NewCoins(sdk.NewCoin(d, a))}, {Address: g.user().addr, Coins: sdk.NewCoins(sdk.NewCoin(d, b))}}}}
	case 4, 5:
		return act{u.addr, stakingtypes.NewMsgDelegate(u.addr, valOper[r.n(nVals)], sdk.NewInt64Coin(dBond, pick(r, []int64{1, 999_999, 1_000_000, 500_000, 7_000_000})))}
	case 6, 7:
		if st := m.stake[u.addr]; len(st) > 0 {
			v := pickKey(r, st, valOper[0])
			a := st[v]
			a = pick(r, []math.Int{a, a.QuoRaw(2).AddRaw(1), math.OneInt(), a.SubRaw(1_000_000).AddRaw(1), a.SubRaw(1_000_000), a.AddRaw(1)})
			n := 0
			for _, q := range m.unstake {
				if q.user == u.addr {
					n++
				}
			}
			if a.IsPositive() && n < 6 {
				return act{u.addr, stakingtypes.NewMsgUndelegate(u.addr, v, sdk.NewCoin(dBond, a))}
			}
		}
		return act{u.addr, stakingtypes.NewMsgDelegate(u.addr, valOper[r.n(nVals)], sdk.NewInt64Coin(dBond, 1_000_000))}
	case 8, 9:
		if u == w {
			w = users[(r.n(nUsers-1)+1+idxOf(u))%nUsers]
		}
		url := pick(r, []string{"/cosmos.bank.v1beta1.MsgSend", "/milkyway.restaking.v1.MsgDelegatePool", "/milkyway.restaking.v1.MsgUndelegatePool", "/milkyway.liquidvesting.v1.MsgWithdrawInsuranceFund",
			"/milkyway.rewards.v1.MsgWithdrawDelegatorReward", "/cosmos.gov.v1.MsgVote", "/cosmos.gov.v1.MsgSubmitProposal", "/milkyway.liquidvesting.v1.MsgMintLockedRepresentation", "/milkyway.operators.v1.MsgDeleteOperator"})
		if k := (grantKey{u.addr, w.addr, url}); m.grants[k] && r.p(0.7) {
			return act{u.addr, &authz.MsgRevoke{Granter: u.addr, Grantee: w.addr, MsgTypeUrl: url}}
		}
		return act{u.addr, must(authz.NewMsgGrant(u.raw, w.raw, authz.NewGenericAuthorization(url), nil))}
	case 10:
		return act{u.addr, must(feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{}, u.raw, w.raw))}
	case 11:
		x := feegrant.NewMsgRevokeAllowance(u.raw, w.raw)
		return act{u.addr, &x}
	case 12:
		d := pick(r, []string{dAAA, dBond, lockedOf(dAAA)})
		return act{u.addr, &distrtypes.MsgFundCommunityPool{Depositor: u.addr, Amount: sdk.NewCoins(sdk.NewInt64Coin(d, r.i64(1000)+1))}}
	}
	// use a grant
	var ks []grantKey
	for k := range m.grants {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	if len(ks) == 0 {
		return act{u.addr, &banktypes.MsgSend{FromAddress: u.addr, ToAddress: w.addr, Amount: sdk.NewCoins(sdk.NewInt64Coin(dAAA, 5))}}
	}
	k := pick(r, ks)
	var msg sdk.Msg
	switch k.url {
	case "/cosmos.bank.v1beta1.MsgSend":
		msg = &banktypes.MsgSend{FromAddress: k.granter, ToAddress: k.grantee, Amount: sdk.NewCoins(sdk.NewInt64Coin(pick(r, []string{dAAA, lockedOf(dAAA)}), 7))}
	case "/milkyway.restaking.v1.MsgDelegatePool":
		msg = restakingtypes.NewMsgDelegatePool(g.delCoin(k.granter), k.granter)
	case "/milkyway.restaking.v1.MsgUndelegatePool":
		msg = restakingtypes.NewMsgUndelegatePool(sdk.NewInt64Coin(dAAA, r.i64(500)+1), k.granter)
	case "/milkyway.liquidvesting.v1.MsgWithdrawInsuranceFund":
		msg = lvtypes.NewMsgWithdrawInsuranceFund(k.granter, sdk.NewCoins(sdk.NewInt64Coin(dAAA, r.i64(50)+1)))
	case "/milkyway.rewards.v1.MsgWithdrawDelegatorReward":
		msg = rewardstypes.NewMsgWithdrawDelegatorReward(restakingtypes.DELEGATION_TYPE_POOL, 1, k.granter)
	case "/cosmos.gov.v1.MsgVote":
		msg = g.voteMsg(accs[k.granter], pickKey(r, m.props, uint64(1)), 0, true)
	case "/cosmos.gov.v1.MsgSubmitProposal":
		msg = must(govv1.NewMsgSubmitProposal([]sdk.Msg{g.govMsg()}, sdk.NewCoins(sdk.NewInt64Coin(dBond, 2000)), k.granter, "", "t", "s", r.p(0.6)))
	case "/milkyway.liquidvesting.v1.MsgMintLockedRepresentation":
		msg = lvtypes.NewMsgMintLockedRepresentation(k.granter, k.grantee, sdk.NewCoins(sdk.NewInt64Coin(dAAA, 50)))
	default:
		msg = operatorstypes.NewMsgDeleteOperator(g.opID(), k.granter)
	}
	who := k.grantee
	if r.p(0.1) {
		who = g.user().addr
	}
	e := authz.NewMsgExec(must(sdk.AccAddressFromBech32(who)), []sdk.Msg{msg})
	return act{who, &e}
}

func idxOf(u *account) int {
	for i := range users {
		if users[i] == u {
			return i
		}
	}
	return 0
}

// actHostile is something nobody should get away with.
func (g *generator) actHostile() (act, bool) {
	r := g.r
	u, w := g.user(), g.user()
	lk := sdk.NewCoins(sdk.NewInt64Coin(lockedOf(dAAA), r.i64(50)+1))
	switch r.n(9) {
	case 0: // privileged messages of users
		m := g.govMsg()
		switch v := m.(type) {
		case *restakingtypes.MsgUpdateParams:
			v.Authority = u.addr
		case *operatorstypes.MsgUpdateParams:
			v.Authority = u.addr
		case *servicestypes.MsgUpdateParams:
			v.Authority = u.addr
		case *rewardstypes.MsgUpdateParams:
			v.Authority = u.addr
		case *lvtypes.MsgUpdateParams:
			v.Authority = u.addr
		case *servicestypes.MsgAccreditService:
			v.Authority = u.addr
		case *servicestypes.MsgRevokeServiceAccreditation:
			v.Authority = u.addr
		case *assetstypes.MsgRegisterAsset:
			v.Authority = u.addr
		case *assetstypes.MsgDeregisterAsset:
			v.Authority = u.addr
		}
		return act{u.addr, m}, true
	case 1: // locked tokens by every route
		return act{u.addr, &banktypes.MsgSend{FromAddress: u.addr, ToAddress: w.addr, Amount: lk}}, true
	case 2:
		return act{u.addr, &distrtypes.MsgFundCommunityPool{Depositor: u.addr, Amount: lk}}, true
	case 3:
		// an account that cannot spend, where something of the chain's will be
		k := g.nextAddr()
		c := sdk.NewCoins(sdk.NewInt64Coin(pick(r, []string{dAAA, dBBB, dRwd, dRwd}), r.i64(1_000_000)+1))
		if r.p(0.15) {
			c = c.Add(lk...)
		}
		if r.p(0.2) {
			return act{u.addr, &vestingtypes.MsgCreatePermanentLockedAccount{FromAddress: u.addr, ToAddress: k, Amount: c}}, true
		}
		return act{u.addr, &vestingtypes.MsgCreateVestingAccount{FromAddress: u.addr, ToAddress: k, Amount: c, EndTime: g.s.nw.time.Unix() + r.i64(200_000) - 100, Delayed: r.p(0.5)}}, true
	case 4:
		return act{u.addr, operatorstypes.NewMsgRegisterOperator("lk", "", "", lk, u.addr)}, true
	case 5: // overflowing plan
		id := g.svcID()
		who := u.addr
		if s, ok := g.s.m.svcs[id]; ok {
			who = s.admin
		}
		st, en := g.window(g.s.nw.time)
		big := math.NewIntWithDecimal(1, r.between(20, 76))
		return act{who, rewardstypes.NewMsgCreateRewardsPlan(id, "big", sdk.NewCoins(sdk.NewCoin(dRwd, big)), st, en, g.distribution(true), g.distribution(false), g.udist(), g.feeFor(g.s.m.pPlan), who)}, true
	case 6: // locked tokens straight into a target or plan
		return act{u.addr, &banktypes.MsgSend{FromAddress: u.addr, ToAddress: pick(r, []string{targetAddr(tPool, 1), targetAddr(tService, 1), targetAddr(tOperator, 1), planAddr(1), addrLV}), Amount: lk}}, true
	case 7:
		if g.s.cfg.IBC && g.hs {
			return act{u.addr, g.transferMsg(u, sdk.NewInt64Coin(lockedOf(dAAA), 5), chanA, w.addr, "")}, true
		}
	case 8: // spending somebody else's money in their name
		e := authz.NewMsgExec(u.raw, []sdk.Msg{&banktypes.MsgSend{FromAddress: w.addr, ToAddress: u.addr, Amount: sdk.NewCoins(sdk.NewInt64Coin(dAAA, 5))}})
		return act{u.addr, &e}, true
	}
	return act{}, false
}

// ---- cross-chain

func (g *generator) handshake() TxSpec {
	ch := func(cp string, st channeltypes.State) channeltypes.Channel {
		return channeltypes.Channel{State: st, Ordering: channeltypes.UNORDERED, Counterparty: channeltypes.Counterparty{PortId: "transfer", ChannelId: cp}, ConnectionHops: []string{"connection-localhost"}, Version: "ics20-1"}
	}
	u := users[7]
	h := clienttypes.NewHeight(1, 1)
	return g.tx(u.name,
		&channeltypes.MsgChannelOpenInit{PortId: "transfer", Channel: ch("", channeltypes.INIT), Signer: u.addr},
		&channeltypes.MsgChannelOpenTry{PortId: "transfer", Channel: ch(chanA, channeltypes.TRYOPEN), CounterpartyVersion: "ics20-1", ProofInit: sentinel, ProofHeight: h, Signer: u.addr},
		&channeltypes.MsgChannelOpenAck{PortId: "transfer", ChannelId: chanA, CounterpartyChannelId: chanB, CounterpartyVersion: "ics20-1", ProofTry: sentinel, ProofHeight: h, Signer: u.addr},
		&channeltypes.MsgChannelOpenConfirm{PortId: "transfer", ChannelId: chanB, ProofAck: sentinel, ProofHeight: h, Signer: u.addr})
}

func (g *generator) transferMsg(u *account, c sdk.Coin, ch, to, memo string) sdk.Msg {
	t := g.s.nw.time.Add(time.Duration(pick(g.r, []int64{1, 15, 60, 600, 86400, 86400 * 30})) * time.Second)
	return &transfertypes.MsgTransfer{SourcePort: "transfer", SourceChannel: ch, Token: c, Sender: u.addr, Receiver: to, TimeoutTimestamp: uint64(t.UnixNano()), Memo: memo}
}

func (g *generator) actIBC() (act, bool) {
	r, m := g.r, g.s.m
	if !g.s.cfg.IBC || m.chanStage != 4 {
		return act{}, false
	}
	if r.p(0.35) {
		if a, ok := g.relay(); ok {
			return a, true
		}
	}
	u := g.user()
	ch := pick(r, []string{chanA, chanA, chanB})
	d := pick(r, []string{dAAA, dAAA, dBBB, dBond})
	var vs []string
	for v := range m.vouchers {
		if g.bal(u.addr, v).IsPositive() {
			vs = append(vs, v)
		}
	}
	sort.Strings(vs)
	if len(vs) > 0 && r.p(0.5) {
		d = pick(r, vs)
	}
	max := g.bal(u.addr, d)
	if max.GT(math.NewInt(1_000_000)) {
		max = math.NewInt(1_000_000)
	}
	a := g.amt(max)
	if r.p(0.4) { // an ordinary transfer
		to := g.user().addr
		if r.p(0.15) {
			to = pick(r, []string{addrLV, g.gov(), "bad", addrDistr})
		}
		return act{u.addr, g.transferMsg(u, sdk.NewCoin(d, a), ch, to, pick(r, []string{"", "hello", `{"x":1}`}))}, true
	}
	// an insurance deposit
	if l := m.pTrusted; len(l) > 0 && r.p(0.85) {
		if x := accs[pick(r, l)]; x != nil {
			u = x
			max := g.bal(u.addr, d)
			if max.LT(a) {
				d = dAAA
			}
		}
	}
	if r.p(0.8) {
		for _, p := range m.pChannels {
			ch = otherEnd(p)
		}
		if ch != chanA && ch != chanB {
			ch = chanA
		}
	}
	to := addrLV
	if r.p(0.06) {
		to = g.user().addr
	}
	type dep struct {
		Depositor string `json:"depositor"`
		Amount    any    `json:"amount"`
	}
	n := r.between(1, 3)
	var ds []dep
	left := a
	for i := 0; i < n; i++ {
		x := left
		if i < n-1 {
			x = left.QuoRaw(int64(r.between(2, 4)))
		}
		left = left.Sub(x)
		ds = append(ds, dep{g.user().addr, x.String()})
	}
	switch r.n(14) {
	case 0:
		ds[0].Amount = left.AddRaw(1).String()
	case 1:
		ds = append(ds, dep{u.addr, "-5"}, dep{u.addr, "5"})
	case 2:
		ds[0].Depositor = "bad"
	case 3:
		ds[0].Amount = 5
	case 4:
		ds = append(ds, dep{u.addr, "1"})
	}
	memo := string(must(json.Marshal(map[string]any{"liquidvesting": map[string]any{"amounts": ds}})))
	return act{u.addr, g.transferMsg(u, sdk.NewCoin(d, a), ch, to, memo)}, true
}

func (g *generator) open() []mXfer {
	var out []mXfer
	for _, k := range sortedKeys(g.s.m.xfers) {
		if p := g.s.m.xfers[k]; !p.done {
			out = append(out, p)
		}
	}
	return out
}

// relay is one message of the relayer, right or wrong.
func (g *generator) relay() (act, bool) {
	r := g.r
	ps := g.open()
	if len(ps) == 0 || r.p(0.1) {
		ps = nil
		for _, k := range sortedKeys(g.s.m.xfers) {
			ps = append(ps, g.s.m.xfers[k])
		}
	}
	if len(ps) == 0 {
		return act{}, false
	}
	return g.relayOf(pick(r, ps), r.p(0.15)), true
}

func (g *generator) relayOf(p mXfer, wrong bool) act {
	r := g.r
	by := pick(r, users).addr
	h := clienttypes.NewHeight(1, 1)
	pk := channeltypes.Packet{Sequence: p.seq, SourcePort: "transfer", SourceChannel: p.ch, DestinationPort: "transfer", DestinationChannel: p.dst, Data: p.data, TimeoutTimestamp: p.timeout}
	kind := 0
	switch {
	case p.received:
		kind = 1
	case p.timeout <= uint64(g.s.nw.time.UnixNano()):
		kind = 2
	}
	if wrong {
		kind = r.n(4)
	}
	switch kind {
	case 1:
		ack := p.ack
		if len(ack) == 0 || (wrong && r.p(0.5)) {
			ack = pick(r, [][]byte{successAck, []byte(`{"error":"ABCI code: 1: error handling packet: see events for details"}`)})
		}
		return act{by, &channeltypes.MsgAcknowledgement{Packet: pk, Acknowledgement: ack, ProofAcked: sentinel, ProofHeight: h, Signer: by}}
	case 2:
		return act{by, &channeltypes.MsgTimeout{Packet: pk, ProofUnreceived: sentinel, ProofHeight: h, NextSequenceRecv: p.seq, Signer: by}}
	case 3:
		q := transfertypes.NewFungibleTokenPacketData(p.path, p.amount.AddRaw(1000).String(), p.sender, pick(r, []string{p.receiver, by}), p.memo)
		pk.Data = q.GetBytes()
	}
	return act{by, &channeltypes.MsgRecvPacket{Packet: pk, ProofCommitment: sentinel, ProofHeight: h, Signer: by}}
}

// relays is what the well-meaning relayer does in a block.
func (g *generator) relays(st *Step) {
	r := g.r
	for _, p := range g.open() {
		if r.p(0.3) {
			a := g.relayOf(p, false)
			st.Txs = append(st.Txs, g.tx(accs[a.who].name, a.msg))
			if r.p(0.15) { // twice
				a = g.relayOf(p, false)
				st.Txs = append(st.Txs, g.tx(accs[a.who].name, a.msg))
			}
		}
	}
}

func accAddrOf(n string) string {
	b := make([]byte, 20)
	h := strHash(n)
	for i := range b {
		b[i] = byte(h >> (8 * (uint(i) % 8)))
		if i%8 == 7 {
			h = mix64(h)
		}
	}
	return sdk.AccAddress(b).String()
}

// ---- the end

func (g *generator) drainStep(st *Step, left int) {
	r := g.r
	ps := g.positions()
	if left > 4 {
		st.DT = 1000 + r.i64(4000)
		for _, i := range r.perm(len(ps)) {
			p := ps[i]
			if r.p(0.5) {
				st.Txs = append(st.Txs, g.tx(accs[p.u].name, rewardstypes.NewMsgWithdrawDelegatorReward(dtype(p.t.kind), p.t.id, p.u)))
			}
			if r.p(0.8) || left == 5 {
				st.Txs = append(st.Txs, g.tx(accs[p.u].name, undel(p.t, p.u, p.c)))
			}
		}
		for _, id := range sortedKeys(g.s.m.ops) {
			if a := accs[g.s.m.ops[id].admin]; a != nil {
				st.Txs = append(st.Txs, g.tx(a.name, rewardstypes.NewMsgWithdrawOperatorCommission(id, a.addr)))
			}
		}
		return
	}
	if ev := g.events(); len(ev) > 0 {
		t := ev[len(ev)-1]
		for _, b := range g.s.m.ubds {
			if left > 2 {
				t = b.done
				break
			}
		}
		st.DT = t.Sub(g.s.nw.time).Milliseconds() + 1
		if st.DT < 1 || st.DT > 500*24*3600*1000 {
			st.DT = 5000
		}
	}
}

var _ codectypes.AnyUnpacker
