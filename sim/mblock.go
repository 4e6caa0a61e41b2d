package main

// The reference model follows every block.

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	protov2 "google.golang.org/protobuf/proto"
)

type priceInfo struct {
	id  uint64
	p   *big.Int // nil: never set
	dec uint64
}

type model struct {
	*mstate
	s        *Sim
	track    map[string]bool
	trackL   []string
	prices   map[string]priceInfo
	lastExt  []abci.ExtendedVoteInfo // votes for the previous block
	valTok   map[string]math.Int     // bonded tokens by consensus address after the previous block
	bonded   math.Int
	commPool sdk.DecCoins
	distrBal sdk.Coins
	now      time.Time
	h        int64
	dead     map[target]bool // deleted targets
	gone     map[uint64]bool // ended plans
	gasPrice math.LegacyDec
	cur      *abci.ExecTxResult // of the transaction being followed
}

func newModel(s *Sim) *model {
	m := &model{mstate: newMstate(), s: s, track: map[string]bool{}, prices: map[string]priceInfo{}, dead: map[target]bool{}, gone: map[uint64]bool{}}
	c := s.cfg
	for i, u := range users {
		m.trackAddr(u.addr, u.name)
		m.setBal(u.addr, c.userBalance(i))
		if v, ok := c.vesting(i); ok {
			m.vest[u.addr] = v
		}
		if c.Staked[i] > 0 {
			m.stake[u.addr] = map[string]math.Int{valOper[0]: math.NewInt(c.Staked[i])}
		}
	}
	for i, v := range valAccs {
		m.trackAddr(v.addr, v.name)
		m.setBal(v.addr, c.userBalance(i))
		m.stake[v.addr] = map[string]math.Int{valOper[i]: math.NewInt(c.ValPower[i]).MulRaw(1_000_000)}
	}
	for _, a := range []string{addrGov, addrLV, addrRewards} {
		m.trackAddr(a, "")
	}
	for _, f := range c.Funds {
		var ui int
		fmt.Sscan(f[0], &ui)
		amt, _ := math.NewIntFromString(f[2])
		cc := sdk.NewCoins(sdk.NewCoin(f[1], amt))
		m.fund[users[ui].addr] = m.fund[users[ui].addr].Add(cc...)
	}
	tot := sdk.Coins{}
	for _, f := range m.fund {
		tot = tot.Add(f...)
	}
	m.setBal(addrLV, tot)
	m.pOp, m.pSvc, m.pPlan = parseCoins(c.OpFee), parseCoins(c.SvcFee), parseCoins(c.PlanFee)
	m.pDeact, m.pUnbond, m.pDenoms = sec(c.DeactSec), sec(c.UnbondSec), c.AllowedDenom
	m.pIns = math.LegacyMustNewDecFromStr(c.Insurance)
	m.pMinters, m.pBurners, m.pTrusted, m.pChannels = addrsOf(c.Minters), addrsOf(c.Burners), addrsOf(c.Trusted), []string{"channel-1"}
	for _, a := range c.Assets {
		m.assets[a.Denom] = mAsset{a.Ticker, a.Exponent}
	}
	for i, k := range c.Markets {
		pi := priceInfo{id: uint64(i), dec: k.Decimals}
		if k.Price != "" {
			pi.p, _ = new(big.Int).SetString(k.Price, 10)
		}
		m.prices[k.Base+"/USD"] = pi
	}
	m.gasPrice = math.LegacyMustNewDecFromStr(c.GasPrice)
	return m
}

func (m *model) stat(k string) { m.s.stats.count(k) }

func (m *model) setBal(a string, c sdk.Coins) {
	b := map[string]ival{}
	for _, k := range c {
		b[k.Denom] = exact(k.Amount)
	}
	m.bal[a] = b
}

func (m *model) trackAddr(a, n string) {
	if m.track[a] || untrackable[a] {
		return
	}
	m.track[a] = true
	m.trackL = append(m.trackL, a)
	if n != "" && accNames[a] == "" {
		accNames[a] = n
	}
}

var untrackable = map[string]bool{}

// learn makes the account of a new target known.
func (m *model) learn(t target) { m.trackAddr(targetAddr(t.kind, t.id), t.String()) }

func (m *model) everyone() map[string]*account { return accs }

func (m *model) signerOf(msg sdk.Msg) string {
	sg, _, err := m.s.cdc.GetMsgV1Signers(msg)
	if err != nil || len(sg) == 0 {
		return ""
	}
	return sdk.AccAddress(sg[0]).String()
}

var _ protov2.Message

func (m *model) signersOf(t *builtTx) []string {
	var out []string
	seen := map[string]bool{}
	for _, msg := range t.msgs {
		sg, _, err := m.s.cdc.GetMsgV1Signers(msg)
		if err != nil {
			return nil
		}
		for _, b := range sg {
			a := sdk.AccAddress(b).String()
			if !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	return out
}

func (m *model) mx(real bool, ev *blockEv) *mx {
	return &mx{mstate: m.mstate, m: m, now: m.now, h: m.h, real: real, ev: ev}
}

// ---- helpers on plain values

var blockedSet map[string]bool

func blocked(a string) bool { return blockedSet[a] }

func bech32ok(a string) bool { _, _, err := bech32.DecodeAndConvert(a); return err == nil }

var channelRe = regexp.MustCompile(`^channel-[0-9]{1,20}$`)

func channelOK(c string) bool { return channelRe.MatchString(c) }

var tickerRE = regexp.MustCompile(`^[0-9a-zA-Z]+$`)

func tickerOK(t string) bool { return len(t) <= 32 && tickerRE.MatchString(t) }

// ---- blocks

func (m *model) block(st *Step, rec *blockRec, txs []*builtTx, res []*abci.ExecTxResult, votes []abci.ExtendedVoteInfo) {
	s := m.s
	n := s.observer()
	m.h, m.now = rec.req.Height, rec.req.Time
	ev := newEv()
	m.checkPrices(n)
	x := m.mx(true, ev)
	x.endPlans()
	x.allocate()
	x.inactivate()
	for i, t := range txs {
		m.tx(i, t, res[i], ev)
	}
	m.govEnd(n, ev)
	x = m.mx(true, ev)
	x.endBlock()
	m.lastExt = votes
	r := newRng(st.Noise, 0x0b5)
	m.observeAs(n, ev, r, r.p(0.5) || s.obsAll, s.obsOnly)
	m.readValidators(n)
}

// inactivate completes the inactivation of the operators whose time has come.
func (x *mx) inactivate() {
	for id, o := range x.ops {
		if o.status == opInactivating && !o.inactiveAt.After(x.now) {
			o.status = opInactive
			o.rate = math.LegacyZeroDec()
			o.inactiveAt = time.Time{}
			x.ops[id] = o
			x.ev.tags += " O01"
		}
	}
}

func (x *mx) endBlock() {
	var left []mUnstake
	for _, u := range x.unstake {
		if u.done.After(x.now) {
			left = append(left, u)
		} else {
			x.credit(u.user, sdk.NewCoins(sdk.NewCoin(dBond, u.amt)), "C04")
		}
	}
	x.unstake = left
	var keepU []mUBD
	for _, b := range x.ubds {
		if b.done.After(x.now) {
			keepU = append(keepU, b)
			continue
		}
		x.m.stat("undelegations completed")
		a := targetAddr(b.t.kind, b.t.id)
		x.debit(a, b.amt, "R02 R01")
		x.credit(b.user, b.amt, "R02"+lockTag(b.amt, " L04"))
	}
	x.ubds = keepU
	var keepB []mBurn
	for _, b := range x.burns {
		if b.done.After(x.now) {
			keepB = append(keepB, b)
			continue
		}
		x.m.stat("scheduled burns done")
		x.debit(b.user, b.amt, "L04")
		for _, c := range b.amt {
			x.mintLocked(c.Denom, c.Amount.Neg())
		}
	}
	x.burns = keepB
}

// anteRan tells from the events whether a transaction was accepted for execution.
func anteRan(r *abci.ExecTxResult) bool {
	for _, e := range r.Events {
		for _, a := range e.Attributes {
			if a.Key == "acc_seq" {
				return true
			}
		}
	}
	return false
}

var msgIdxRe = regexp.MustCompile(`message index: (\d+)`)

func (m *model) requiredFee(gas uint64) math.Int {
	return m.gasPrice.MulInt(math.NewIntFromUint64(gas)).Ceil().TruncateInt()
}

// anteRefusal says why a transaction must not be executed at all.
func (m *model) anteRefusal(t *builtTx) (string, string) {
	if !t.valid {
		return "C04", "its signature is wrong"
	}
	if h := t.spec.Timeout; h != 0 && uint64(m.h) > h {
		return "C04", fmt.Sprintf("it was not to be executed after height %d", h)
	}
	if t.spec.Memo > 256 {
		return "C04", "its memo is too long"
	}
	want := m.signersOf(t)
	if len(want) != len(t.signers) {
		return "C04", "wrong number of signers"
	}
	for i, a := range t.signers {
		if want[i] != a.addr {
			return "C04", fmt.Sprintf("%s signed for %s", a.name, name(want[i]))
		}
		if t.seqs[i] != m.seq[a.addr] {
			return "C04", fmt.Sprintf("sequence %d of %s is not %d", t.seqs[i], a.name, m.seq[a.addr])
		}
	}
	req := m.requiredFee(t.gas)
	if len(t.fee) != 1 || t.fee[0].Denom != dFee || t.fee[0].Amount.LT(req) {
		return "C04" + lockTag(t.fee, " L01"), fmt.Sprintf("fee %s is not at least %s%s", t.fee, req, dFee)
	}
	payer := t.signers[0].addr
	if t.granter != "" && t.granter != payer {
		if !m.allowF[[2]string{t.granter, payer}] {
			return "C04", "no fee allowance"
		}
		payer = t.granter
	}
	if m.bal[payer][dFee].hi.IsNil() || m.bal[payer][dFee].hi.LT(req) {
		return "C04", "fee payer has no money"
	}
	return "", ""
}

func (m *model) tx(i int, t *builtTx, r *abci.ExecTxResult, ev *blockEv) {
	s := m.s
	ok := r.Code == 0
	ran := ok || anteRan(r)
	oog := r.Codespace == "sdk" && r.Code == 11
	kinds := "C04"
	for _, msg := range t.msgs {
		kinds += " " + msgTags(msg)
	}
	ev.tags += " " + kinds
	res := "ok"
	if !ok {
		res = fmt.Sprintf("code %d ran=%v %s", r.Code, ran, clip(r.Log, 300))
	}
	s.logf("   tx %s => %s", t.spec.brief(), res)
	if tags, why := m.anteRefusal(t); why != "" {
		m.stat("txs refused before execution")
		if ok {
			s.fail(tags+" "+t.guess(), "accepted "+kindName(t), "tx %s was executed although %s", t.spec.brief(), why)
		}
		if ran {
			s.fail("C04", "charged "+kindName(t), "tx %s was charged although %s", t.spec.brief(), why)
		}
		return
	}
	if ran { // fee and sequence
		for _, a := range t.signers {
			m.seq[a.addr]++
		}
		payer := t.signers[0].addr
		if t.granter != "" {
			payer = t.granter
		}
		ev.touch(payer, "C04")
		x := m.mx(true, ev)
		x.debitIval(payer, dFee, ival{m.requiredFee(t.gas), t.fee[0].Amount}, "C04")
	}
	save := m.mstate
	m.mstate = save.copy()
	ev.mark()
	x := m.mx(ok, ev)
	m.cur = r
	at := -1
	passed := 0
	if q := msgIdxRe.FindStringSubmatch(r.Log); q != nil {
		passed, _ = strconv.Atoi(q[1])
	}
	ref := x.run(func() {
		for j, msg := range t.msgs {
			at = j
			x.real = ok || j < passed
			if t.spec.Spoilt != "" && j == t.spec.SpoiltAt {
				x.refuse("V01", "it is malformed: %s", t.spec.Spoilt)
			}
			x.exec(msg)
		}
	})
	switch {
	case ref != nil && ref.maybe:
		m.stat("redundant relays")
		m.mstate = save
		ev.rollback()
	case ok && ref != nil:
		s.fail(ref.tags+" "+msgTags(t.msgs[at]), "accepted "+kindName1(t.msgs[at]), "tx %s succeeded although %s", t.spec.brief(), ref.why)
	case ok:
		m.stat("txs executed")
		for _, msg := range t.msgs {
			s.stats.counts["msg "+kindName1(msg)]++
		}
		m.checkAnnounced(t, r, ev)
	case ref == nil:
		m.mstate = save
		ev.rollback()
		if oog && t.spec.Gas != 0 {
			m.stat("txs out of gas")
			break
		}
		j := len(t.msgs) - 1
		tags := kinds
		if q := msgIdxRe.FindStringSubmatch(r.Log); q != nil {
			j, _ = strconv.Atoi(q[1])
			if j < len(t.msgs) {
				tags = msgTags(t.msgs[j])
			}
		}
		if !ran {
			tags = kinds
		}
		s.fail(tags, "refused "+kindName1(t.msgs[min(j, len(t.msgs)-1)]), "tx %s is within the rules but failed: %s", t.spec.brief(), clip(r.Log, 400))
	default:
		m.stat("txs refused")
		if t.spec.Spoilt != "" && at == t.spec.SpoiltAt {
			s.stats.counts["malformed "+kindName1(t.msgs[at])+": "+t.spec.Spoilt]++
		}
		m.mstate = save
		ev.rollback()
		s.stats.counts["refused "+kindName1(t.msgs[at])]++
		if q := msgIdxRe.FindStringSubmatch(r.Log); q != nil && !oog {
			j, _ := strconv.Atoi(q[1])
			if j < at {
				s.fail(msgTags(t.msgs[j]), "refused "+kindName1(t.msgs[j]), "tx %s: message %d is within the rules but failed: %s", t.spec.brief(), j, clip(r.Log, 400))
			}
			if j > at {
				s.fail(ref.tags+" "+msgTags(t.msgs[at]), "accepted "+kindName1(t.msgs[at]), "tx %s: message %d was accepted although %s", t.spec.brief(), at, ref.why)
			}
		}
	}
	ev.announced = nil
	m.cur = nil
}

// guess adds the properties of the messages of a transaction that should not have run.
func (t *builtTx) guess() string {
	s := ""
	for _, m := range t.msgs {
		s += " " + msgTags(m)
	}
	return s
}

func kindName1(m sdk.Msg) string {
	u := sdk.MsgTypeURL(m)
	p := strings.Split(u, ".")
	mod := ""
	if len(p) > 1 {
		mod = strings.TrimPrefix(p[1], "/")
	}
	return mod + "." + p[len(p)-1]
}

func kindName(t *builtTx) string {
	if len(t.msgs) == 0 {
		return "empty"
	}
	return kindName1(t.msgs[0])
}

// checkAnnounced compares the completion times undelegations answer with.
func (m *model) checkAnnounced(t *builtTx, r *abci.ExecTxResult, ev *blockEv) {
	if len(ev.announced) == 0 {
		return
	}
	var d sdk.TxMsgData
	if d.Unmarshal(r.Data) != nil {
		return
	}
	k := 0
	for _, a := range d.MsgResponses {
		if a.TypeUrl != "/milkyway.restaking.v1.MsgUndelegateResponse" || k >= len(ev.announced) {
			continue
		}
		var u restakingtypes.MsgUndelegateResponse
		if u.Unmarshal(a.Value) != nil {
			continue
		}
		if !u.CompletionTime.Equal(ev.announced[k]) {
			m.s.fail("R02", "announced time", "tx %s announces %s, should be %s", t.spec.brief(), u.CompletionTime, ev.announced[k])
		}
		k++
	}
}

// ---- governance at the end of a block

func (m *model) govEnd(n *node, ev *blockEv) {
	s := m.s
	var dep, vote []mProposal
	for _, id := range sortedKeys(m.props) {
		p := m.props[id]
		if p.voting && !p.voteEnd.After(m.now) {
			vote = append(vote, p)
		} else if !p.voting && !p.depEnd.After(m.now) {
			dep = append(dep, p)
		}
	}
	refund := func(p mProposal) {
		x := m.mx(true, ev)
		for _, u := range sortedKeys(p.deposits) {
			x.debit(addrGov, p.deposits[u], "C04")
			x.credit(u, p.deposits[u], "C04")
		}
		p.deposits = map[string]sdk.Coins{}
		delete(m.props, p.id)
	}
	for _, p := range dep {
		refund(p)
	}
	sort.SliceStable(vote, func(i, j int) bool {
		if !vote[i].voteEnd.Equal(vote[j].voteEnd) {
			return vote[i].voteEnd.Before(vote[j].voteEnd)
		}
		return vote[i].id < vote[j].id
	})
	for _, p := range vote {
		var r govv1.QueryProposalResponse
		if err := s.query(n, "/cosmos.gov.v1.Query/Proposal", &govv1.QueryProposalRequest{ProposalId: p.id}, &r); err != nil {
			s.fail("G01", "proposal lost", "proposal %d: %v", p.id, err)
		}
		s.logf("   proposal %d: %s %s", p.id, r.Proposal.Status, clip(r.Proposal.FailedReason, 300))
		kinds := "G01"
		names := ""
		for _, msg := range p.msgs {
			kinds += " " + msgTags(msg)
			names += " " + kindName1(msg)
		}
		ev.tags += " " + kinds
		switch r.Proposal.Status {
		case govv1.StatusPassed, govv1.StatusFailed:
			passed := r.Proposal.Status == govv1.StatusPassed
			save := m.mstate
			m.mstate = save.copy()
			ev.mark()
			x := m.mx(passed, ev)
			ref := x.run(func() {
				for _, msg := range p.msgs {
					x.exec(msg)
				}
			})
			if passed && ref != nil {
				s.fail(kinds+" "+ref.tags, "accepted proposal"+names, "proposal %d was executed although %s", p.id, ref.why)
			}
			if !passed {
				m.mstate = save
				ev.rollback()
				if ref == nil {
					s.fail(kinds, "refused proposal"+names, "proposal %d passed and is within the rules but failed: %s", p.id, clip(r.Proposal.FailedReason, 400))
				}
				m.stat("proposals failed")
			} else {
				m.stat("proposals executed")
				for _, msg := range p.msgs {
					s.stats.counts["gov "+kindName1(msg)]++
				}
			}
			refund(p)
		case govv1.StatusRejected:
			m.stat("proposals rejected")
			refund(p)
		case govv1.StatusVotingPeriod:
			if !p.expedited || r.Proposal.Expedited || r.Proposal.VotingEndTime == nil {
				s.fail("G01", "proposal not concluded", "proposal %d is still voting", p.id)
			}
			p.expedited = false
			p.voteEnd = *r.Proposal.VotingEndTime
			m.props[p.id] = p
		default:
			panic("proposal status " + r.Proposal.Status.String())
		}
	}
}

// ---- prices

func (m *model) readValidators(n *node) {
	var r stakingtypes.QueryValidatorsResponse
	must0(m.s.query(n, "/cosmos.staking.v1beta1.Query/Validators", &stakingtypes.QueryValidatorsRequest{}, &r))
	m.valTok = map[string]math.Int{}
	m.bonded = math.ZeroInt()
	for _, v := range r.Validators {
		var idx int
		for i := range valOper {
			if valOper[i] == v.OperatorAddress {
				idx = i
			}
		}
		if v.IsBonded() {
			m.valTok[string(consAddr[idx])] = v.Tokens
			m.bonded = m.bonded.Add(v.Tokens)
		}
	}
}

func (m *model) checkPrices(n *node) {
	s := m.s
	stored := map[uint64]math.Int{}
	for _, p := range m.prices {
		if p.p == nil {
			stored[p.id] = math.Int{}
		} else {
			stored[p.id] = math.NewIntFromBigInt(p.p)
		}
	}
	byID := map[uint64][]wprice{}
	on := s.nw.genesis.ConsensusParams.Abci.VoteExtensionsEnableHeight < m.h
	if on {
		for _, v := range m.lastExt {
			if len(v.VoteExtension) == 0 {
				continue
			}
			w, ok := m.valTok[string(v.Validator.Address)]
			if !ok {
				continue
			}
			for id, p := range reported(v.VoteExtension, stored) {
				byID[id] = append(byID[id], wprice{p, w})
			}
		}
	}
	for _, pair := range sortedKeys(m.prices) {
		pi := m.prices[pair]
		got := s.oraclePrice(n, pair)
		bonded := m.bonded
		if bonded.IsNil() {
			bonded = math.ZeroInt()
		}
		if err := checkPrice(byID[pi.id], bonded, pi.p, got); err != nil {
			s.fail("C05", "price", "height %d, %s: %v", m.h, pair, err)
		}
		if pi.p == nil || got == nil || pi.p.Cmp(got) != 0 {
			if got != nil {
				m.stat("price changes")
			}
		}
		pi.p = got
		m.prices[pair] = pi
	}
}

// readDistr keeps the community pool as it is now.
func (m *model) communityPool(n *node) sdk.DecCoins {
	var r distrtypes.QueryCommunityPoolResponse
	must0(m.s.query(n, "/cosmos.distribution.v1beta1.Query/CommunityPool", &distrtypes.QueryCommunityPoolRequest{}, &r))
	return r.Pool
}

func (m *model) supply(n *node, d string) math.Int {
	var r banktypes.QuerySupplyOfResponse
	must0(m.s.query(n, "/cosmos.bank.v1beta1.Query/SupplyOf", &banktypes.QuerySupplyOfRequest{Denom: d}, &r))
	return r.Amount.Amount
}
