package main

// The simulator: applies steps to the network and to the reference model.

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// violation ends a run: one or more properties do not hold.
type violation struct {
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
	Sig   string   `json:"sig"` // stable identity of the failing history, for known findings
	Step  int      `json:"step"`
}

func (v *violation) Error() string { return strings.Join(v.Props, ",") + ": " + v.Msg }
func (v *violation) has(p string) bool {
	for _, x := range v.Props {
		if x == p {
			return true
		}
	}
	return false
}

type Sim struct {
	cfg    *Config
	nw     *network
	cdc    codec.Codec
	txCfg  client.TxConfig
	sent   map[int]*builtTx
	accNum map[string]uint64
	m      *model
	g      *generator
	step   int
	stats  *netStats
	states map[uint64]bool

	epoch   int // number of export/import restarts
	simMs   int64
	hash    uint64 // rolling digest of everything observable, for the determinism check
	verb    bool
	focus   string
	obsN    int
	obsAll  bool   // compare everything after the block
	obsOnly string // blame for everything found right after a restart from an export
	ireg    codectypes.InterfaceRegistry
	loadOn  bool
	slowQ   bool // ask through the complete query path
}

// fail reports a violation. sig is the part of the message that does not depend
// on the particular run.
func (s *Sim) fail(props, sig, f string, a ...any) {
	if s.obsOnly != "" {
		props = s.obsOnly
	}
	panic(&violation{Props: strings.Fields(props), Sig: sig, Msg: sig + ": " + fmt.Sprintf(f, a...), Step: s.step})
}

func (s *Sim) logf(f string, a ...any) {
	if s.verb {
		fmt.Printf(f+"\n", a...)
	}
}

func (s *Sim) note(parts ...any) {
	s.hash = mix64(s.hash ^ strHash(fmt.Sprint(parts...)))
}

func newSim(cfg *Config, focus string) *Sim {
	st := &netStats{faults: map[string]int{}, counts: map[string]int{}}
	s := &Sim{cfg: cfg, sent: map[int]*builtTx{}, accNum: map[string]uint64{}, stats: st, states: map[uint64]bool{}, focus: focus, slowQ: cfg.Profile == "Q01"}
	s.nw = &network{cfg: cfg, stats: st, log: map[int64]*blockRec{}, valsets: map[int64][]valPower{}}
	for i, nc := range cfg.Nodes {
		s.nw.nodes = append(s.nw.nodes, newNode(i, nc, newSimDisk(), st))
	}
	return s
}

// start boots the network from its genesis.
func (s *Sim) start() {
	nw := s.nw
	nw.time = genesisTime
	n0 := nw.nodes[0]
	if d := n0.open(nw.time, 1); d != nil {
		panic(d)
	}
	s.cdc = n0.app.AppCodec()
	s.txCfg = n0.app.GetTxConfig()
	s.ireg = n0.app.InterfaceRegistry()
	var gen []byte
	if d := n0.enter("genesis", nw.time, 2, func() { gen = buildGenesis(s.cfg, n0.app) }); d != nil {
		panic(d)
	}
	nw.genesis = initChainReq(gen, nw.time, 1, nil)
	s.boot()
	s.m = newModel(s)
	s.afterBoot()
}

// boot runs InitChain on all nodes that are there from the beginning.
func (s *Sim) boot() {
	nw := s.nw
	nw.base = nw.genesis.InitialHeight - 1
	nw.height = nw.base
	nw.time = nw.genesis.Time
	nw.lastVotes, nw.lastRound = nil, 0
	nw.genRes, nw.genHash = nil, ""
	for _, n := range nw.nodes {
		if n.cfg.LateJoin && n.idx > 0 {
			continue
		}
		if !n.up() {
			if d := n.open(nw.time, 3); d != nil {
				s.fail("C03", "start", "%v", d)
			}
		}
		s.initChain(n)
	}
	ups := nw.genRes.Validators
	nw.valsets = map[int64][]valPower{}
	vs := valsetFromUpdates(nil, ups)
	nw.valsets[nw.base+1] = vs
	nw.valsets[nw.base+2] = vs
}

func (s *Sim) initChain(n *node) {
	nw := s.nw
	var res *abci.ResponseInitChain
	var err error
	req := *nw.genesis
	d := n.enter("initchain", nw.genesis.Time, 4, func() { res, err = n.app.InitChain(&req) })
	tags := "C03"
	if s.epoch > 0 {
		tags = "X01"
	}
	if d != nil {
		s.fail(tags, "genesis", "InitChain on node %d%s: %v [%s]", n.idx, s.tolerated(fmt.Sprint(d)), d, d.stack)
	}
	if err != nil {
		s.fail(tags, "genesis", "InitChain on node %d: %v", n.idx, err)
	}
	bz := fmt.Sprintf("%x", must(res.Marshal()))
	if nw.genRes == nil {
		nw.genRes, nw.genHash = res, bz
	} else if nw.genHash != bz {
		s.fail("C01", "genesis result", "node %d got a different InitChain result", n.idx)
	}
	n.height = nw.base
}

// tolerated tells why an import may fail in a state that the chain tolerates:
// the two known findings, told apart from other failures of the same checks.
func (s *Sim) tolerated(msg string) string {
	m := s.m
	if s.epoch == 0 || m == nil {
		return ""
	}
	if strings.Contains(msg, "insurance fund amount is too low") {
		for _, u := range users {
			act, pend := m.lockedActive(u.addr), m.lockedPending(u.addr)
			f := m.fund[u.addr]
			need := m.required(act.Add(pend...))
			if !f.IsAllGTE(need) && (strings.Contains(msg, u.name+" ") || strings.Contains(msg, u.addr+" ")) && strings.Contains(msg, fmt.Sprintf("got %s", f)) {
				return " with a user underinsured since the percentage was raised"
			}
		}
	}
	if strings.Contains(msg, "expected module account was") {
		dep, all := sdk.Coins{}, true
		for _, p := range m.props {
			for _, c := range p.deposits {
				dep = dep.Add(c...)
			}
		}
		got := sdk.Coins{}
		for d, v := range m.bal[addrGov] {
			if all = all && v.lo.Equal(v.hi); v.lo.IsPositive() {
				got = got.Add(sdk.NewCoin(d, v.lo))
			}
		}
		if all && !got.Equal(dep) && strings.Contains(msg, fmt.Sprintf("was %s but we got %s", got, dep)) {
			return " with coins sent to the governance account"
		}
	}
	return ""
}

// host returns the node the validator runs on.
func (s *Sim) host(v int) *node { return s.nw.nodes[v%len(s.nw.nodes)] }

func (nw *network) live(n *node) bool { return n.up() && n.stall == 0 && n.height == nw.height }

// vtotal is the power of a validator set.
func vtotal(vs []valPower) (t int64) {
	for _, v := range vs {
		t += v.power
	}
	return
}

func (s *Sim) restart(n *node, noise uint64) {
	nw := s.nw
	if n.up() {
		n.stop()
	}
	s.stats.count("restarts")
	before := n.height
	if d := n.open(nw.time, noise); d != nil {
		s.fail("C02", "restart", "node %d cannot start again: %v [%s]", n.idx, d, d.stack)
	}
	L := n.app.LastBlockHeight()
	if L != 0 && L > nw.height {
		s.fail("C02", "restart height", "node %d restarted at height %d, chain is at %d", n.idx, L, nw.height)
	}
	if L < before {
		s.fail("C02", "lost commit", "node %d had committed height %d but restarted at %d", n.idx, before, L)
	}
	if L == 0 {
		s.initChain(n)
		L = nw.base
	} else if rec := nw.log[L]; rec != nil {
		if !bytes.Equal(n.app.LastCommitID().Hash, rec.res.AppHash) {
			s.fail("C02", "restart hash", "node %d restarted at %d with app hash %x, was %x", n.idx, L, n.app.LastCommitID().Hash, rec.res.AppHash)
		}
	}
	n.height = L
	s.catchUp(n, nw.height, noise)
}

// catchUp replays decided blocks on a node.
func (s *Sim) catchUp(n *node, to int64, noise uint64) {
	for h := n.height + 1; h <= to; h++ {
		s.stats.count("blocks_replayed")
		s.execOn(n, s.nw.log[h], noise, "replay")
	}
}

// execOn executes and commits one decided block on a node and compares.
// It returns false when the node crashed through an injected fault.
func (s *Sim) execOn(n *node, rec *blockRec, noise uint64, how string) bool {
	h := rec.req.Height
	res, err, down := n.finalize(rec.req, noise)
	if down != nil && down.crash {
		n.stop()
		return false
	}
	if n.disk.failed > 0 && (down != nil || err != nil) {
		n.stop()
		return false
	}
	if down != nil || err != nil {
		tags := "C03"
		if rec.digest != "" {
			tags = "C01"
			if how == "replay" {
				tags = "C01 C02"
			}
		}
		if down != nil {
			s.fail(tags+blameHalt(fmt.Sprint(down.val), down.stack), "block fails", "height %d on node %d panics: %v [%s]", h, n.idx, clip(fmt.Sprint(down.val), 600), down.stack)
		}
		s.fail(tags+blameHalt(err.Error(), ""), "block fails", "height %d on node %d: %v", h, n.idx, clip(err.Error(), 600))
	}
	dg := resDigest(res)
	if rec.digest == "" {
		rec.digest, rec.res = dg, res
	} else if rec.digest != dg {
		tags := "C01"
		if how == "replay" {
			tags = "C01 C02"
		}
		s.fail(tags, "divergence", "height %d: node %d (%s) differs: %s", h, n.idx, how, resDiff(rec.res, res))
	}
	if s.loadOn && how == "live" {
		if r := newRng(noise, uint64(n.idx), 0x717d); r.p(0.5) {
			at := n.disk.crashAtRead // queries recover from panics; the crash is for the block
			n.disk.crashAtRead = 0
			s.midBlock(n, r)
			n.disk.crashAtRead = at
		}
	}
	err, down = n.commit(h, rec.req.Time, noise)
	if down != nil && down.crash {
		n.stop()
		return false
	}
	if down != nil || err != nil {
		if n.disk.failed > 0 {
			n.stop()
			return false
		}
		s.fail("C03", "commit fails", "height %d on node %d: %v %v", h, n.idx, err, down)
	}
	if !bytes.Equal(n.app.LastCommitID().Hash, rec.res.AppHash) {
		s.fail("C01 C02", "commit hash", "height %d node %d committed %x, block result said %x", h, n.idx, n.app.LastCommitID().Hash, rec.res.AppHash)
	}
	return true
}

func blameHalt(msg, stack string) string {
	out := ""
	if strings.Contains(msg, "invariant broken") {
		switch {
		case strings.Contains(msg, "rewards"):
			out += " W03"
		case strings.Contains(msg, "liquidvesting"):
			out += " L02"
		case strings.Contains(msg, "restaking"), strings.Contains(msg, "pools"):
			out += " R01"
		case strings.Contains(msg, "operators"):
			out += " O01"
		case strings.Contains(msg, "services"):
			out += " S01"
		}
	}
	return out
}

// apply performs one step.
func (s *Sim) apply(st *Step) {
	switch st.Kind {
	case "block":
		s.block(st)
	case "export":
		s.export(st)
	case "tamper":
		s.damage(st)
	default:
		panic("unknown step " + st.Kind)
	}
	s.step++
}

func (s *Sim) block(st *Step) {
	nw := s.nw
	h := nw.height + 1
	dt := st.DT
	if dt < 1 {
		dt = 1
	}
	now := nw.time.Add(time.Duration(dt) * time.Millisecond)
	s.simMs += dt
	vs := nw.valsets[h]

	// faults that act before the block
	for _, f := range st.Faults {
		n := nw.nodes[f.Node%len(nw.nodes)]
		switch f.Kind {
		case "restart":
			if n.stall > 0 {
				continue
			}
			s.stats.fault("restart")
			s.restart(n, st.Noise)
		case "crash_pre":
			if n.up() && n.stall == 0 {
				s.stats.fault(fmt.Sprintf("crash between blocks"))
				n.stop()
				if n.disk.powerLoss(f.Lost) > 0 {
					s.stats.fault("unsynced writes lost")
				}
				n.height = 0 // anything not synced may be gone
			}
		case "stall":
			if n.up() && n.stall == 0 {
				s.stats.fault("stalled node")
				n.stall = 1 + f.N
			}
		case "skew":
			s.stats.fault("clock jump")
			n.skew = time.Duration(f.N) * time.Millisecond
		}
	}
	// the network needs 2/3 of the power to go on: bring back nodes until it has it
	alive := func() int64 {
		var t int64
		for _, v := range vs {
			if nw.live(s.host(v.idx)) {
				t += v.power
			}
		}
		return t
	}
	for _, n := range nw.nodes {
		if alive()*3 > vtotal(vs)*2 && n.idx != 0 {
			continue
		}
		if n.cfg.LateJoin && !n.up() && alive()*3 > vtotal(vs)*2 {
			continue
		}
		if !nw.live(n) {
			n.stall = 0
			if !n.up() {
				s.restart(n, st.Noise)
			} else {
				s.catchUp(n, nw.height, st.Noise)
			}
		}
	}

	// build the transactions
	var txs []*builtTx
	seqOffset := map[string]uint64{}
	var raw [][]byte
	for i := range st.Txs {
		t := &st.Txs[i]
		b, err := s.build(t, func(a string) uint64 {
			q := s.m.seq[a] + seqOffset[a]
			return q
		}, s.cfg.GasPrice)
		if err != nil {
			continue // a removed dependency while minimising
		}
		if t.DupOf == 0 {
			s.sent[t.ID] = b
			if b.valid && t.SeqOff == 0 && (b.fee.AmountOf(dFee).IsPositive() || t.ID < 0) {
				for _, a := range b.signers {
					seqOffset[a.addr]++
				}
			}
		}
		txs = append(txs, b)
		raw = append(raw, b.bytes)
	}

	// load on the nodes before the block
	s.loadOn = st.Load > 0
	s.load(st, "pre")

	// proposal
	var prop *node
	pv := vs[0].idx
	for i := range vs {
		v := vs[(st.Prop+i)%len(vs)]
		if nw.live(s.host(v.idx)) {
			prop, pv = s.host(v.idx), v.idx
			break
		}
	}
	if prop == nil {
		panic("no live proposer")
	}
	var pres *abci.ResponsePrepareProposal
	var err error
	if d := prop.enter("prepare", now, st.Noise, func() {
		pres, err = prop.app.PrepareProposal(&abci.RequestPrepareProposal{
			MaxTxBytes: 20_000_000, Txs: raw, LocalLastCommit: nw.extCommit(), Height: h, Time: now,
			ProposerAddress: consAddr[pv], NextValidatorsHash: []byte{1},
		})
	}); d != nil {
		s.fail("C03", "proposal", "PrepareProposal panics at height %d: %v [%s]", h, d.val, d.stack)
	}
	if err != nil {
		s.fail("C03 C05", "proposal", "PrepareProposal at height %d: %v", h, err)
	}
	ptxs := pres.Txs
	veOn := nw.genesis.ConsensusParams.Abci.VoteExtensionsEnableHeight < h
	if veOn {
		s.tamper(st, ptxs, now, h, pv, vs)
	}
	hash := blockHash(h, now, ptxs)
	process := func(n *node, txs [][]byte) (ok bool) {
		var pr *abci.ResponseProcessProposal
		var err error
		if d := n.enter("process", now, st.Noise, func() {
			pr, err = n.app.ProcessProposal(&abci.RequestProcessProposal{Txs: txs, ProposedLastCommit: nw.commitInfo(), Height: h, Time: now,
				Hash: hash, NextValidatorsHash: []byte{1}, ProposerAddress: consAddr[pv]})
		}); d != nil {
			s.fail("C03", "proposal", "ProcessProposal panics at height %d: %v [%s]", h, d.val, d.stack)
		}
		return err == nil && pr.Status == abci.ResponseProcessProposal_ACCEPT
	}
	for _, n := range nw.nodes {
		if nw.live(n) && !process(n, ptxs) {
			s.fail("C03 C05", "proposal rejected", "node %d rejects the honest proposal at height %d", n.idx, h)
		}
	}

	// votes and vote extensions
	votes := s.votes(st, h, now, vs, ptxs, hash, pv)

	// execution
	req := &abci.RequestFinalizeBlock{Txs: ptxs, DecidedLastCommit: nw.commitInfo(), Hash: hash, Height: h, NextValidatorsHash: []byte{1},
		ProposerAddress: consAddr[pv], Time: now}
	rec := &blockRec{req: req}
	nw.log[h] = rec
	order := newRng(st.Noise, 77).perm(len(nw.nodes))
	for _, i := range order {
		n := nw.nodes[i]
		if !nw.live(n) {
			continue
		}
		s.armFaults(n, st)
		ok := s.execOn(n, rec, st.Noise, "live")
		if !ok {
			s.afterCrash(n, st)
		}
		n.disk.disarm()
		n.disk.full = false
	}
	if rec.digest == "" { // everybody crashed while executing: the decided block is executed after restarting
		nw.time = now
		n := nw.nodes[0]
		n.height = 0
		s.restart(n, st.Noise)
		s.execOn(n, rec, st.Noise, "replay")
		if rec.digest == "" {
			panic("block lost")
		}
	}
	for _, n := range nw.nodes {
		for _, f := range st.Faults {
			if f.Kind == "crash_done" && f.Node%len(nw.nodes) == n.idx && n.up() && n.stall == 0 {
				s.stats.fault("crash after commit")
				h0 := n.height
				n.stop()
				if n.disk.powerLoss(f.Lost) > 0 {
					s.stats.fault("unsynced writes lost")
					h0 = 0
				}
				n.height = h0
			}
		}
		if n.stall > 0 {
			n.stall--
			if n.stall == 0 && n.up() {
				nw.height, nw.time = h, now
				s.catchUp(n, h, st.Noise)
			}
		}
	}
	nw.height, nw.time = h, now
	nw.lastVotes = votes
	next := valsetFromUpdates(nw.valsets[h+1], rec.res.ValidatorUpdates)
	nw.valsets[h+2] = next
	s.stats.count("blocks")
	s.stats.counts["txs"] += len(txs)
	s.note(h, rec.digest)

	// somebody has to be up to be asked
	if s.observer() == nil {
		s.restart(nw.nodes[0], st.Noise)
	}
	// the reference model follows
	off := 0
	if veOn {
		off = 1
	}
	if len(ptxs)-off != len(txs) {
		s.fail("C04", "proposal drops transactions", "%d of %d", len(ptxs)-off, len(txs))
	}
	for i := range txs {
		if !bytes.Equal(ptxs[i+off], txs[i].bytes) {
			s.fail("C04", "proposal changes transactions", "tx %d", i)
		}
	}
	s.m.block(st, rec, txs, rec.res.TxResults[off:], votes)
	s.load(st, "post")
}

// observer is a node that has executed the last block.
func (s *Sim) observer() *node {
	for _, n := range s.nw.nodes {
		if n.up() && n.height == s.nw.height && n.stall == 0 {
			return n
		}
	}
	return nil
}

// armFaults arranges the crashes and disk failures of this block on a node.
func (s *Sim) armFaults(n *node, st *Step) {
	n.disk.arm()
	n.disk.disarm()
	for _, f := range st.Faults {
		if f.Node%len(s.nw.nodes) != n.idx {
			continue
		}
		switch f.Kind {
		case "crash_exec":
			n.disk.crashAtRead = f.N
		case "crash_commit":
			n.disk.crashAtWrite = f.N
		case "crash_commit_after":
			n.disk.crashAtWrite, n.disk.crashAfter = f.N, true
		case "io_commit":
			n.disk.failAtWrite, n.disk.failErr = f.N, errDiskIO
		case "full_commit":
			n.disk.full = true
		}
	}
}

// afterCrash settles what the disk of a crashed node keeps.
func (s *Sim) afterCrash(n *node, st *Step) {
	for _, f := range st.Faults {
		if f.Node%len(s.nw.nodes) != n.idx {
			continue
		}
		switch f.Kind {
		case "crash_exec":
			s.stats.fault("crash while executing")
		case "crash_commit", "crash_commit_after":
			s.stats.fault("crash inside commit")
		case "io_commit":
			s.stats.fault("write error in commit")
		case "full_commit":
			s.stats.fault("disk full in commit")
		default:
			continue
		}
		if k := n.disk.powerLoss(f.Lost); k > 0 {
			s.stats.fault("unsynced writes lost")
			n.height = 0
		}
	}
}

// votes collects the votes of the block.
func (s *Sim) votes(st *Step, h int64, now time.Time, vs []valPower, txs [][]byte, hash []byte, pv int) []abci.ExtendedVoteInfo {
	nw := s.nw
	absent := map[int]bool{}
	for _, a := range st.Absent {
		absent[a%nVals] = true
	}
	total := vtotal(vs)
	present := total
	for _, v := range vs {
		if !nw.live(s.host(v.idx)) {
			absent[v.idx] = true
		}
		if absent[v.idx] {
			present -= v.power
		}
	}
	// enough votes must arrive for a decision: late votes are waited for
	for _, v := range vs {
		if present*3 > total*2 {
			break
		}
		if absent[v.idx] && nw.live(s.host(v.idx)) {
			delete(absent, v.idx)
			present += v.power
		}
	}
	for _, v := range vs {
		if absent[v.idx] {
			s.stats.fault("validator vote missing")
		}
	}
	enabled := nw.genesis.ConsensusParams.Abci.VoteExtensionsEnableHeight <= h
	var out []abci.ExtendedVoteInfo
	for _, v := range vs {
		vote := abci.ExtendedVoteInfo{Validator: abci.Validator{Address: consAddr[v.idx], Power: v.power}, BlockIdFlag: cmtproto.BlockIDFlagAbsent}
		if absent[v.idx] {
			out = append(out, vote)
			continue
		}
		vote.BlockIdFlag = cmtproto.BlockIDFlagCommit
		if enabled {
			n := s.host(v.idx)
			var feed Feed
			if v.idx < len(st.Feeds) {
				feed = st.Feeds[v.idx]
			}
			n.feed.mode, n.feed.prices = feed.Mode, feed.Prices
			ext := s.extend(n, st, h, now, txs, hash, pv, feed, v)
			okAll := true
			for _, o := range nw.nodes {
				if !nw.live(o) {
					continue
				}
				var vr *abci.ResponseVerifyVoteExtension
				var err error
				if d := o.enter("verify", now, st.Noise, func() {
					vr, err = o.app.VerifyVoteExtension(&abci.RequestVerifyVoteExtension{Hash: hash, ValidatorAddress: consAddr[v.idx], Height: h, VoteExtension: ext})
				}); d != nil {
					s.fail("C03 C05", "verify vote extension", "panics at height %d: %v [%s]", h, d.val, d.stack)
				}
				ok := err == nil && vr.Status == abci.ResponseVerifyVoteExtension_ACCEPT
				if !ok && feedHonest(feed) {
					s.fail("C05", "vote extension rejected", "node %d rejects the vote extension of validator %d at height %d: %v", o.idx, v.idx, h, err)
				}
				okAll = okAll && ok
			}
			if !okAll { // the vote is invalid: it does not count
				s.stats.fault("invalid vote extension")
				vote.BlockIdFlag = cmtproto.BlockIDFlagAbsent
				out = append(out, vote)
				continue
			}
			vote.VoteExtension = ext
			sig := must(valKeys[v.idx].Sign(veSignBytes(ext, h, int64(nw.lastRound))))
			vote.ExtensionSignature = sig
		}
		out = append(out, vote)
	}
	// a block is only decided with more than two thirds
	var p int64
	for _, v := range out {
		if v.BlockIdFlag == cmtproto.BlockIDFlagCommit {
			p += v.Validator.Power
		}
	}
	if p*3 <= total*2 {
		// the liars' votes were refused by everybody: they vote again without an extension to lie in
		for i := range out {
			if out[i].BlockIdFlag == cmtproto.BlockIDFlagAbsent && p*3 <= total*2 {
				vi := -1
				for j := range consAddr {
					if bytes.Equal(consAddr[j], out[i].Validator.Address) {
						vi = j
					}
				}
				if !nw.live(s.host(vi)) {
					continue
				}
				out[i].BlockIdFlag = cmtproto.BlockIDFlagCommit
				out[i].VoteExtension = nil
				if enabled {
					out[i].ExtensionSignature = must(valKeys[vi].Sign(veSignBytes(nil, h, int64(nw.lastRound))))
				}
				p += out[i].Validator.Power
			}
		}
	}
	sort.SliceStable(out, func(a, b int) bool {
		if out[a].Validator.Power != out[b].Validator.Power {
			return out[a].Validator.Power > out[b].Validator.Power
		}
		return bytes.Compare(out[a].Validator.Address, out[b].Validator.Address) < 0
	})
	return out
}

func feedHonest(f Feed) bool {
	switch f.Mode {
	case "", "err", "nil", "panic", "hang":
		for _, p := range f.Prices {
			if len(p) > 70 {
				return false
			}
		}
		return true
	}
	return false
}

// extend asks a validator's node for its vote extension, or makes up the one a
// malicious validator would send.
func (s *Sim) extend(n *node, st *Step, h int64, now time.Time, txs [][]byte, hash []byte, pv int, feed Feed, v valPower) []byte {
	r := newRng(st.Noise, uint64(v.idx), 31)
	switch feed.Mode {
	case "garbage":
		s.stats.fault("garbage vote extension")
		b := make([]byte, 1+r.n(200))
		for i := range b {
			b[i] = byte(r.u64())
		}
		return b
	case "empty":
		s.stats.fault("empty vote extension")
		return nil
	case "err":
		s.stats.fault("price source unreachable")
	case "nil":
		s.stats.fault("price source answers nothing")
	case "panic":
		s.stats.fault("price client panics")
	case "hang":
		s.stats.fault("price source hangs")
	}
	n.feed.patient = 0
	if feed.Mode == "rawve" {
		s.stats.fault("malicious vote extension")
		return rawVE(feed)
	}
	var er *abci.ResponseExtendVote
	var err error
	if d := n.enter("extend", now, st.Noise, func() {
		er, err = n.app.ExtendVote(nil2ctx(), &abci.RequestExtendVote{Hash: hash, Height: h, Time: now, Txs: txs, ProposedLastCommit: s.nw.commitInfo(),
			NextValidatorsHash: []byte{1}, ProposerAddress: consAddr[pv]})
	}); d != nil {
		s.fail("C03 C05", "extend vote", "panics at height %d: %v [%s]", h, d.val, d.stack)
	}
	if err != nil { // the real consensus engine panics when the application returns an error here
		s.fail("C03 C05", "extend vote", "fails at height %d: %v", h, err)
	}
	if n.feed.patient > maxPatience {
		s.fail("C05 C03", "vote waits", "at height %d the vote waits %s for a price source that does not answer", h, n.feed.patient)
	}
	return er.VoteExtension
}

// maxPatience is how long a vote may wait for prices: blocks take about five
// seconds.
const maxPatience = 5 * time.Second

// run a complete simulation; the result is nil when nothing was violated.
func runGuarded(f func()) (v *violation, internal string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(*violation); ok {
				v = x
				return
			}
			internal = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	f()
	return
}
