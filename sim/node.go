package main

// A node: one real MilkyWay application over a simulated disk.

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/store"
	pruningtypes "cosmossdk.io/store/pruning/types"
	wasmkeeper "github.com/CosmWasm/wasmd/x/wasm/keeper"
	wasmvm "github.com/CosmWasm/wasmvm/v2"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client/flags"
	"github.com/cosmos/cosmos-sdk/server"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/crisis"
	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"
	oracleclient "github.com/skip-mev/connect/v2/service/clients/oracle"
	servicetypes "github.com/skip-mev/connect/v2/service/servers/oracle/types"
	"google.golang.org/grpc"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
	milkyabci "github.com/milkyway-labs/milkyway/v3/app/abci"
)

type optMap map[string]any

func (o optMap) Get(k string) any { return o[k] }

// priceFeed stands in for the oracle sidecar: every call answers with what the
// scheduler decided for the validator whose vote is being extended.
type priceFeed struct {
	oracleclient.NoOpClient
	mode    string // "", err, nil, garbage, panic, hang
	prices  map[string]string
	patient time.Duration // how long the caller would have waited for an answer
}

func (p *priceFeed) Start(context.Context) error { return nil }
func (p *priceFeed) Stop() error                 { return nil }
func (p *priceFeed) Prices(ctx context.Context, _ *servicetypes.QueryPricesRequest, _ ...grpc.CallOption) (*servicetypes.QueryPricesResponse, error) {
	switch p.mode {
	case "err":
		return nil, errors.New("sidecar unreachable")
	case "nil":
		return nil, nil
	case "panic":
		panic("sidecar client bug")
	case "hang": // never answers: the call ends when the caller gives up
		p.patient = 1 << 62
		if d, ok := ctx.Deadline(); ok {
			p.patient = time.Until(d)
		}
		return nil, context.DeadlineExceeded
	}
	return &servicetypes.QueryPricesResponse{Prices: p.prices}, nil
}

var scratchRoot string
var homeSeq int

type node struct {
	qctx   *sdk.Context // what fastQuery reads
	idx    int
	cfg    NodeCfg
	disk   *simDisk
	app    *milkyway.MilkyWayApp
	home   string
	feed   *priceFeed
	skew   time.Duration
	height int64 // last committed height of the running process
	stall  int   // blocks for which it does not take part
	opens  int
	nt     *netStats
}

func newNode(idx int, cfg NodeCfg, disk *simDisk, nt *netStats) *node {
	return &node{idx: idx, cfg: cfg, disk: disk, feed: &priceFeed{}, skew: time.Duration(cfg.SkewMs) * time.Millisecond, nt: nt}
}

func (n *node) up() bool { return n.app != nil }

// nodeDown is what a call into a node returns when the process died in it.
type nodeDown struct {
	node  int
	phase string
	val   any
	crash bool
	stack string
}

func (e *nodeDown) Error() string {
	return fmt.Sprintf("node %d died in %s: %v", e.node, e.phase, e.val)
}

// enter runs f as code of this node: its wall clock, its runtime randomness.
func (n *node) enter(phase string, now time.Time, noise uint64, f func()) (down *nodeDown) {
	if phase != "query" {
		n.qctx = nil
	}
	rtEnter(mix64(n.cfg.Rt^mix64(noise^strHash(phase))), now.Add(n.skew))
	defer func() {
		if r := recover(); r != nil {
			d := &nodeDown{node: n.idx, phase: phase, val: r, stack: trimStack(string(debug.Stack()))}
			if _, ok := r.(crashPanic); ok || n.disk.dead {
				d.crash = true
			}
			down = d
		}
	}()
	f()
	return nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	seen := false
	for _, l := range lines {
		if strings.Contains(l, "panic(") {
			seen = true
		}
		if seen && strings.Contains(l, "milkyway") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func (n *node) open(now time.Time, noise uint64) *nodeDown {
	homeSeq++
	n.home = filepath.Join(scratchRoot, fmt.Sprintf("h%d", homeSeq))
	if err := os.MkdirAll(n.home, 0o755); err != nil {
		panic(err)
	}
	n.disk.dead = false
	n.disk.disarm()
	n.opens++
	return n.enter("start", now, noise, func() {
		n.app = makeApp(n.disk, n.home, &n.cfg, n.feed)
		n.height = n.app.LastBlockHeight()
	})
}

var vmOnce sync.Once
var vm *wasmvm.VM

// sharedVM is one real wasm engine for all nodes of this process: no contract
// is stored in these runs, and engines are never freed.
func sharedVM() *wasmvm.VM {
	vmOnce.Do(func() {
		vm = must(wasmvm.NewVM(filepath.Join(scratchRoot, "wasm"), wasmkeeper.BuiltInCapabilities(), 32, false, 0))
	})
	return vm
}

func makeApp(d *simDisk, home string, cfg *NodeCfg, feed *priceFeed) *milkyway.MilkyWayApp {
	milkyabci.OracleClientFactory = func(oracleconfig.AppConfig) oracleclient.OracleClient { return feed }
	opts := []func(*baseapp.BaseApp){baseapp.SetChainID(chain0)}
	switch cfg.Pruning {
	case "nothing":
		opts = append(opts, baseapp.SetPruning(pruningtypes.NewPruningOptions(pruningtypes.PruningNothing)))
	default:
		opts = append(opts, baseapp.SetPruning(pruningtypes.NewPruningOptions(pruningtypes.PruningDefault)))
	}
	if cfg.IavlCache > 0 {
		opts = append(opts, baseapp.SetIAVLCacheSize(cfg.IavlCache))
	}
	if cfg.NoFastNode {
		opts = append(opts, baseapp.SetIAVLDisableFastNode(true))
	}
	if cfg.InterBlock {
		opts = append(opts, baseapp.SetInterBlockCache(store.NewCommitKVStoreCacheManager()))
	}
	if cfg.MinGas != "" {
		opts = append(opts, baseapp.SetMinGasPrices(cfg.MinGas))
	}
	om := optMap{flags.FlagHome: home, server.FlagInvCheckPeriod: cfg.InvCheck, crisis.FlagSkipGenesisInvariants: false}
	return milkyway.NewMilkyWayApp(log.NewNopLogger(), &simDB{d}, nil, true, map[int64]bool{}, home,
		oracleconfig.NewDefaultAppConfig(), om, []wasmkeeper.Option{wasmkeeper.WithWasmEngine(sharedVM())}, opts...)
}

// stop ends the process. Nothing but the disk survives.
func (n *node) stop() {
	if n.app == nil {
		return
	}
	n.app = nil
	removeScratch(n.home)
}

func removeScratch(dir string) {
	if scratchRoot != "" && strings.HasPrefix(dir, scratchRoot+"/h") {
		_ = os.RemoveAll(dir)
	}
}

// finalize executes a decided block.
func (n *node) finalize(req *abci.RequestFinalizeBlock, noise uint64) (res *abci.ResponseFinalizeBlock, err error, down *nodeDown) {
	down = n.enter("finalize", req.Time, noise, func() { res, err = n.app.FinalizeBlock(req) })
	return
}

func (n *node) commit(h int64, now time.Time, noise uint64) (err error, down *nodeDown) {
	down = n.enter("commit", now, noise, func() { _, err = n.app.Commit() })
	if down == nil && err == nil {
		n.height = h
	}
	return
}
