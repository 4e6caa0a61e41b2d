package main

// Vote extensions: the malicious ones, the malicious proposals, and what the
// votes must do to the prices.

import (
	"context"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	vecodec "github.com/skip-mev/connect/v2/abci/strategies/codec"
	vetypes "github.com/skip-mev/connect/v2/abci/ve/types"
)

func nil2ctx() context.Context { return context.Background() }

func veCodec() vecodec.VoteExtensionCodec {
	return vecodec.NewCompressionVoteExtensionCodec(vecodec.NewDefaultVoteExtensionCodec(), vecodec.NewZLibCompressor())
}
func ecCodec() vecodec.ExtendedCommitCodec {
	return vecodec.NewCompressionExtendedCommitCodec(vecodec.NewDefaultExtendedCommitCodec(), vecodec.NewZStdCompressor())
}

// rawVE encodes exactly what a malicious validator wants to send: prices maps a
// currency pair id to hex bytes.
func rawVE(f Feed) []byte {
	ve := vetypes.OracleVoteExtension{Prices: map[uint64][]byte{}}
	for k, v := range f.Prices {
		id, _ := strconv.ParseUint(k, 10, 64)
		ve.Prices[id], _ = hex.DecodeString(v)
	}
	return must(veCodec().Encode(ve))
}

// tamper offers the other nodes proposals a malicious proposer could make. None
// of them may be accepted.
func (s *Sim) tamper(st *Step, good [][]byte, now time.Time, h int64, pv int, vs []valPower) {
	kind := ""
	for _, f := range st.Faults {
		if f.Kind == "tamper" {
			kind = []string{"no votes", "garbage votes", "forged signature", "dropped votes", "forged prices", "reordered votes", "duplicated vote", "other height"}[f.N%8]
		}
	}
	if kind == "" {
		return
	}
	r := newRng(st.Noise, 55)
	ec := must(ecCodec().Decode(good[0]))
	var committed []int
	for i, v := range ec.Votes {
		if v.BlockIdFlag == cmtproto.BlockIDFlagCommit {
			committed = append(committed, i)
		}
	}
	txs := append([][]byte{}, good...)
	vi := committed[r.n(len(committed))]
	switch kind {
	case "no votes":
		txs = txs[1:]
	case "garbage votes":
		g := make([]byte, 5+r.n(100))
		for i := range g {
			g[i] = byte(r.u64())
		}
		txs[0] = g
	case "forged signature":
		ec.Votes[vi].ExtensionSignature = append([]byte{}, ec.Votes[vi].ExtensionSignature...)
		ec.Votes[vi].ExtensionSignature[3] ^= 1
		txs[0] = must(ecCodec().Encode(ec))
	case "dropped votes":
		ec.Votes = append(append([]abci.ExtendedVoteInfo{}, ec.Votes[:vi]...), ec.Votes[vi+1:]...)
		txs[0] = must(ecCodec().Encode(ec))
	case "forged prices":
		ve := vetypes.OracleVoteExtension{Prices: map[uint64][]byte{0: must(big.NewInt(int64(r.n(1e9)) + 12345).GobEncode())}}
		ec.Votes[vi].VoteExtension = must(veCodec().Encode(ve))
		txs[0] = must(ecCodec().Encode(ec))
	case "reordered votes":
		if len(ec.Votes) < 2 {
			return
		}
		ec.Votes[0], ec.Votes[1] = ec.Votes[1], ec.Votes[0]
		txs[0] = must(ecCodec().Encode(ec))
	case "duplicated vote":
		ec.Votes = append(ec.Votes, ec.Votes[vi])
		txs[0] = must(ecCodec().Encode(ec))
	case "other height":
		if len(ec.Votes[vi].VoteExtension) == 0 {
			return
		}
		for j := range consAddr {
			if string(consAddr[j]) == string(ec.Votes[vi].Validator.Address) {
				ec.Votes[vi].ExtensionSignature = must(valKeys[j].Sign(veSignBytes(ec.Votes[vi].VoteExtension, h-2, int64(s.nw.lastRound))))
			}
		}
		txs[0] = must(ecCodec().Encode(ec))
	}
	s.stats.fault("malicious proposal: " + kind)
	for _, n := range s.nw.nodes {
		if !s.nw.live(n) {
			continue
		}
		var pr *abci.ResponseProcessProposal
		var err error
		if d := n.enter("process-bad", now, st.Noise, func() {
			pr, err = n.app.ProcessProposal(&abci.RequestProcessProposal{Txs: txs, ProposedLastCommit: s.nw.commitInfo(), Height: h, Time: now,
				Hash: blockHash(h, now, txs), NextValidatorsHash: []byte{1}, ProposerAddress: consAddr[pv]})
		}); d != nil {
			s.fail("C03 C05", "malicious proposal", "%s: node %d panics: %v [%s]", kind, n.idx, d.val, d.stack)
		}
		if err == nil && pr.Status == abci.ResponseProcessProposal_ACCEPT {
			s.fail("C05", "malicious proposal accepted", "%s at height %d on node %d", kind, h, n.idx)
		}
	}
}

// reported is the price a vote reports for each currency pair, given the prices
// stored when it was cast.
func reported(ext []byte, stored map[uint64]math.Int) map[uint64]*big.Int {
	out := map[uint64]*big.Int{}
	if len(ext) == 0 {
		return out
	}
	ve, err := veCodec().Decode(ext)
	if err != nil {
		return out
	}
	for id, bz := range ve.Prices {
		if len(bz) > 33 {
			continue
		}
		cur, known := stored[id]
		if !known {
			continue
		}
		var d big.Int
		if d.GobDecode(bz) != nil {
			continue
		}
		p := new(big.Int).Set(&d)
		if !cur.IsNil() {
			p.Add(p, cur.BigInt())
		}
		if p.Sign() < 0 {
			continue
		}
		out[id] = p
	}
	return out
}

type wprice struct {
	p *big.Int
	w math.Int
}

// checkPrice decides whether got is right for one currency pair: prev is the
// price before the block (nil = none).
func checkPrice(votes []wprice, total math.Int, prev, got *big.Int) error {
	sum := math.ZeroInt()
	for _, v := range votes {
		sum = sum.Add(v.w)
	}
	same := (prev == nil) == (got == nil) && (prev == nil || prev.Cmp(got) == 0)
	th := total.MulRaw(667)
	if len(votes) == 0 || sum.MulRaw(1000).LT(th.SubRaw(1000)) {
		if !same {
			return fmt.Errorf("changed from %v to %v by reporters with %s of %s stake", prev, got, sum, total)
		}
		return nil
	}
	if got == nil {
		if sum.MulRaw(1000).LT(th.AddRaw(1000)) {
			return nil
		}
		return fmt.Errorf("still unset although reporters hold %s of %s stake", sum, total)
	}
	if sum.MulRaw(1000).LT(th.AddRaw(1000)) && same {
		return nil
	}
	sort.Slice(votes, func(i, j int) bool { return votes[i].p.Cmp(votes[j].p) < 0 })
	below, above, at := math.ZeroInt(), math.ZeroInt(), false
	for _, v := range votes {
		switch v.p.Cmp(got) {
		case -1:
			below = below.Add(v.w)
		case 1:
			above = above.Add(v.w)
		default:
			at = true
		}
	}
	if !at {
		return fmt.Errorf("price %s was reported by nobody (votes %s)", got, votesString(votes))
	}
	half := sum.AddRaw(1).QuoRaw(2)
	if below.GT(half) || above.GT(half) {
		return fmt.Errorf("price %s is not a median: %s below, %s above of %s (votes %s)", got, below, above, sum, votesString(votes))
	}
	return nil
}

func votesString(v []wprice) string {
	s := ""
	for _, x := range v {
		s += fmt.Sprintf("%s@%s ", x.p, x.w)
	}
	return s
}
