package main

// The consensus stub: it decides proposals, votes, vote extensions and the
// blocks every node executes, exactly through the ABCI calls a CometBFT engine
// would make.

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sort"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	cryptoenc "github.com/cometbft/cometbft/crypto/encoding"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	protoio "github.com/cosmos/gogoproto/io"
)

type valPower struct {
	idx   int
	power int64
}

type blockRec struct {
	req    *abci.RequestFinalizeBlock
	res    *abci.ResponseFinalizeBlock
	digest string
}

type netStats struct {
	faults map[string]int
	counts map[string]int
}

func (s *netStats) fault(k string) { s.faults[k]++ }
func (s *netStats) count(k string) { s.counts[k]++ }

type network struct {
	cfg     *Config
	nodes   []*node
	genesis *abci.RequestInitChain
	genRes  *abci.ResponseInitChain
	genHash string
	log     map[int64]*blockRec // decided blocks
	base    int64               // height before the first block (initial height - 1)
	height  int64               // last decided
	time    time.Time
	valsets map[int64][]valPower // valset that signs block h
	// votes for the last decided block
	lastVotes []abci.ExtendedVoteInfo
	lastRound int32
	stats     *netStats
}

func valsetFromUpdates(cur []valPower, ups []abci.ValidatorUpdate) []valPower {
	m := map[int]int64{}
	for _, v := range cur {
		m[v.idx] = v.power
	}
	for _, u := range ups {
		pk := must(cryptoenc.PubKeyFromProto(u.PubKey))
		for i := range valKeys {
			if bytes.Equal(valKeys[i].PubKey().Bytes(), pk.Bytes()) {
				if u.Power == 0 {
					delete(m, i)
				} else {
					m[i] = u.Power
				}
			}
		}
	}
	var out []valPower
	for i, p := range m {
		out = append(out, valPower{i, p})
	}
	sort.Slice(out, func(a, b int) bool {
		if out[a].power != out[b].power {
			return out[a].power > out[b].power
		}
		return bytes.Compare(consAddr[out[a].idx], consAddr[out[b].idx]) < 0
	})
	return out
}

func veSignBytes(ext []byte, h int64, round int64) []byte {
	var buf bytes.Buffer
	must(0, protoio.NewDelimitedWriter(&buf).WriteMsg(&cmtproto.CanonicalVoteExtension{Extension: ext, Height: h, Round: round, ChainId: chain0}))
	return buf.Bytes()
}

func blockHash(h int64, t time.Time, txs [][]byte) []byte {
	s := sha256.New()
	fmt.Fprint(s, h, t.UnixNano())
	for _, tx := range txs {
		fmt.Fprint(s, len(tx))
		s.Write(tx)
	}
	return s.Sum(nil)
}

// commitInfo / extCommit describe the votes collected for the last block.
func (nw *network) commitInfo() abci.CommitInfo {
	ci := abci.CommitInfo{Round: nw.lastRound}
	for _, v := range nw.lastVotes {
		ci.Votes = append(ci.Votes, abci.VoteInfo{Validator: v.Validator, BlockIdFlag: v.BlockIdFlag})
	}
	return ci
}

func (nw *network) extCommit() abci.ExtendedCommitInfo {
	return abci.ExtendedCommitInfo{Round: nw.lastRound, Votes: append([]abci.ExtendedVoteInfo{}, nw.lastVotes...)}
}

// resDigest is what all nodes have to agree on for a block.
func resDigest(r *abci.ResponseFinalizeBlock) string {
	return fmt.Sprintf("%x", sha256.Sum256(must(r.Marshal())))
}

// resDiff explains a difference between two responses.
func resDiff(a, b *abci.ResponseFinalizeBlock) string {
	if !bytes.Equal(a.AppHash, b.AppHash) && len(a.TxResults) == len(b.TxResults) {
		for i := range a.TxResults {
			if !bytes.Equal(must(a.TxResults[i].Marshal()), must(b.TxResults[i].Marshal())) {
				return fmt.Sprintf("app hash %x vs %x; tx %d: code %d gas %d vs code %d gas %d log %q vs %q", a.AppHash[:4], b.AppHash[:4], i,
					a.TxResults[i].Code, a.TxResults[i].GasUsed, b.TxResults[i].Code, b.TxResults[i].GasUsed, clip(a.TxResults[i].Log, 120), clip(b.TxResults[i].Log, 120))
			}
		}
		return fmt.Sprintf("app hash %x vs %x", a.AppHash, b.AppHash)
	}
	if len(a.TxResults) != len(b.TxResults) {
		return "number of tx results"
	}
	for i := range a.TxResults {
		if !bytes.Equal(must(a.TxResults[i].Marshal()), must(b.TxResults[i].Marshal())) {
			return fmt.Sprintf("tx %d: code %d gas %d vs code %d gas %d; logs %q / %q", i, a.TxResults[i].Code, a.TxResults[i].GasUsed, b.TxResults[i].Code, b.TxResults[i].GasUsed, clip(a.TxResults[i].Log, 120), clip(b.TxResults[i].Log, 120))
		}
	}
	if fmt.Sprint(a.ValidatorUpdates) != fmt.Sprint(b.ValidatorUpdates) {
		return "validator updates"
	}
	if len(a.Events) == len(b.Events) {
		for i := range a.Events {
			if a.Events[i].String() != b.Events[i].String() {
				return fmt.Sprintf("block event %d: %s vs %s", i, clip(a.Events[i].String(), 200), clip(b.Events[i].String(), 200))
			}
		}
	}
	return "events or consensus parameter updates"
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
