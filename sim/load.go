package main

// Everything around blocks: first facts about a fresh chain, the load clients
// put on nodes, and restarting the chain from an export of its state.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	"github.com/cosmos/gogoproto/proto"
	providertypes "github.com/cosmos/interchain-security/v6/x/ccv/provider/types"
	milkyway "github.com/milkyway-labs/milkyway/v3/app"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

func headerAt(nw *network) cmtproto.Header {
	return cmtproto.Header{ChainID: chain0, Height: nw.height, Time: nw.time}
}

// afterBoot runs the first, empty block of a chain and learns what only the
// chain can tell.
func (s *Sim) afterBoot() {
	m := s.m
	if s.epoch == 0 {
		blockedSet = map[string]bool{}
		untrackable = map[string]bool{}
		for a := range milkyway.ModuleAccountAddrs() {
			switch a {
			case addrGov, addrLV, modAddr(providertypes.ConsumerRewardsPool):
			default:
				blockedSet[a] = true
			}
			if a != addrGov && a != addrLV && a != addrRewards {
				untrackable[a] = true
			}
		}
		m.trackAddr(escrowAddr(chanA), "escrow-0")
		m.trackAddr(escrowAddr(chanB), "escrow-1")
		_ = govtypes.ModuleName
	}
	st := &Step{Kind: "block", DT: 5000, Noise: mix64(s.cfg.Seed ^ uint64(s.epoch))}
	s.obsAll = true
	s.block(st)
	s.obsAll = false
	s.readAccounts()
}

func (s *Sim) readAccounts() {
	n := s.observer()
	for _, a := range sortedKeys(accs) {
		var r authtypes.QueryAccountInfoResponse
		must0(s.query(n, "/cosmos.auth.v1beta1.Query/AccountInfo", &authtypes.QueryAccountInfoRequest{Address: a}, &r))
		s.accNum[a] = r.Info.AccountNumber
	}
}

// load puts client load on nodes. Nothing it does may be visible to anybody else.
func (s *Sim) load(st *Step, when string) {
	if st.Load == 0 {
		return
	}
	r := newRng(st.Noise, strHash(when), 0x10ad)
	for i := 0; i < st.Load; i++ {
		n := s.nw.nodes[0]
		if len(s.nw.nodes) > 2 {
			n = pick(r, s.nw.nodes[:len(s.nw.nodes)-1])
		}
		if !s.nw.live(n) {
			continue
		}
		s.loadOne(n, r, st)
	}
}

func (s *Sim) loadOne(n *node, r *rng, st *Step) {
	var tx *builtTx
	if len(st.Txs) > 0 {
		t := pick(r, st.Txs)
		tx = s.sent[t.ID]
	}
	if tx == nil && len(s.sent) > 0 {
		tx = s.sent[pick(r, sortedKeys(s.sent))]
	}
	k := r.n(10)
	switch {
	case k < 4 && tx != nil:
		s.stats.count("load: CheckTx")
		ty := abci.CheckTxType_New
		if r.p(0.3) {
			ty = abci.CheckTxType_Recheck
		}
		if d := n.enter("check", s.nw.time, r.u64(), func() { _, _ = n.app.CheckTx(&abci.RequestCheckTx{Tx: tx.bytes, Type: ty}) }); d != nil {
			s.fail("Q01 C03", "CheckTx panics", "%v [%s]", d.val, d.stack)
		}
	case k < 7 && tx != nil:
		s.stats.count("load: Simulate")
		if d := n.enter("simulate", s.nw.time, r.u64(), func() { _, _, _ = n.app.Simulate(tx.bytes) }); d != nil {
			s.fail("Q01 C03", "Simulate panics", "%v [%s]", d.val, d.stack)
		}
	default:
		s.stats.count("load: queries")
		p, req := s.someQuery(r)
		h := int64(0)
		if r.p(0.3) {
			h = s.nw.height - r.i64(6)
		}
		bz := must(proto.Marshal(req))
		if d := n.enter("query", s.nw.time, r.u64(), func() {
			_, _ = n.app.Query(nil2ctx(), &abci.RequestQuery{Path: p, Data: bz, Height: h})
		}); d != nil {
			s.fail("Q01 C03", "query panics", "%s: %v [%s]", p, d.val, d.stack)
		}
	}
}

// someQuery is a random question a client could ask, sensible or not.
func (s *Sim) someQuery(r *rng) (string, proto.Message) {
	u := pick(r, users).addr
	id := uint32(r.n(5))
	pg := &query.PageRequest{Limit: uint64(r.n(4)), Offset: uint64(r.n(3)), CountTotal: r.p(0.5), Reverse: r.p(0.3)}
	if r.p(0.05) {
		u = "nonsense"
	}
	if r.p(0.1) {
		pg = nil
	}
	switch r.n(26) {
	case 0:
		return "/milkyway.operators.v1.Query/Operators", &operatorstypes.QueryOperatorsRequest{Pagination: pg}
	case 1:
		return "/milkyway.operators.v1.Query/Operator", &operatorstypes.QueryOperatorRequest{OperatorId: id}
	case 2:
		return "/milkyway.services.v1.Query/Services", &servicestypes.QueryServicesRequest{Pagination: pg}
	case 3:
		return "/milkyway.services.v1.Query/Service", &servicestypes.QueryServiceRequest{ServiceId: id}
	case 4:
		return "/milkyway.pools.v1.Query/Pools", &poolstypes.QueryPoolsRequest{Pagination: pg}
	case 5:
		return "/milkyway.restaking.v1.Query/PoolDelegations", &restakingtypes.QueryPoolDelegationsRequest{PoolId: id, Pagination: pg}
	case 6:
		return "/milkyway.restaking.v1.Query/OperatorDelegations", &restakingtypes.QueryOperatorDelegationsRequest{OperatorId: id, Pagination: pg}
	case 7:
		return "/milkyway.restaking.v1.Query/ServiceDelegations", &restakingtypes.QueryServiceDelegationsRequest{ServiceId: id, Pagination: pg}
	case 8:
		return "/milkyway.restaking.v1.Query/PoolUnbondingDelegations", &restakingtypes.QueryPoolUnbondingDelegationsRequest{PoolId: id, Pagination: pg}
	case 9:
		return "/milkyway.restaking.v1.Query/DelegatorPoolDelegations", &restakingtypes.QueryDelegatorPoolDelegationsRequest{DelegatorAddress: u, Pagination: pg}
	case 10:
		return "/milkyway.restaking.v1.Query/DelegatorOperatorDelegations", &restakingtypes.QueryDelegatorOperatorDelegationsRequest{DelegatorAddress: u, Pagination: pg}
	case 11:
		return "/milkyway.restaking.v1.Query/DelegatorServiceDelegations", &restakingtypes.QueryDelegatorServiceDelegationsRequest{DelegatorAddress: u, Pagination: pg}
	case 12:
		return "/milkyway.restaking.v1.Query/UserPreferences", &restakingtypes.QueryUserPreferencesRequest{UserAddress: u}
	case 13:
		return "/milkyway.restaking.v1.Query/ServiceOperators", &restakingtypes.QueryServiceOperatorsRequest{ServiceId: id, Pagination: pg}
	case 14:
		return "/milkyway.rewards.v1.Query/DelegatorTotalRewards", &rewardstypes.QueryDelegatorTotalRewardsRequest{DelegatorAddress: u}
	case 15:
		return "/milkyway.rewards.v1.Query/PoolDelegationRewards", &rewardstypes.QueryPoolDelegationRewardsRequest{DelegatorAddress: u, PoolId: id}
	case 16:
		return "/milkyway.rewards.v1.Query/OperatorDelegationRewards", &rewardstypes.QueryOperatorDelegationRewardsRequest{DelegatorAddress: u, OperatorId: id}
	case 17:
		return "/milkyway.rewards.v1.Query/ServiceDelegationRewards", &rewardstypes.QueryServiceDelegationRewardsRequest{DelegatorAddress: u, ServiceId: id}
	case 18:
		return "/milkyway.rewards.v1.Query/OperatorCommission", &rewardstypes.QueryOperatorCommissionRequest{OperatorId: id}
	case 19:
		return "/milkyway.rewards.v1.Query/PoolOutstandingRewards", &rewardstypes.QueryPoolOutstandingRewardsRequest{PoolId: id}
	case 20:
		return "/milkyway.liquidvesting.v1.Query/UserInsuranceFund", &lvtypes.QueryUserInsuranceFundRequest{UserAddress: u}
	case 21:
		return "/milkyway.liquidvesting.v1.Query/UserRestakableAssets", &lvtypes.QueryUserRestakableAssetsRequest{UserAddress: u}
	case 22:
		return "/milkyway.liquidvesting.v1.Query/UserInsuranceFunds", &lvtypes.QueryUserInsuranceFundsRequest{Pagination: pg}
	case 23:
		return "/milkyway.assets.v1.Query/Assets", &assetstypes.QueryAssetsRequest{Ticker: pick(r, []string{"", "AAA", "BBB"}), Pagination: pg}
	case 24:
		return "/milkyway.rewards.v1.Query/RewardsPlans", &rewardstypes.QueryRewardsPlansRequest{Pagination: pg}
	default:
		return "/milkyway.restaking.v1.Query/DelegatorPools", &restakingtypes.QueryDelegatorPoolsRequest{DelegatorAddress: u, Pagination: pg}
	}
}

// midBlock asks a node that has executed but not yet committed a block: its
// answers must still be those of the block before.
func (s *Sim) midBlock(n *node, r *rng) {
	m := s.m
	if m == nil || len(m.trackL) == 0 || s.nw.height <= s.nw.base {
		return
	}
	for i := 0; i < 3; i++ {
		a := pick(r, m.trackL)
		s.stats.count("queries between execution and commit")
		var q banktypes.QueryAllBalancesResponse
		if err := s.query(n, "/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: a, Pagination: &query.PageRequest{Limit: 1000}}, &q); err != nil {
			s.fail("Q01", "query fails", "balances of %s: %v", name(a), err)
		}
		for d, v := range m.bal[a] {
			if g := q.Balances.AmountOf(d); g.LT(v.lo) || g.GT(v.hi) {
				s.fail("Q01", "uncommitted state visible", "%s has %s%s before the commit, committed %s", name(a), g, d, v)
			}
		}
	}
	s.loadOne(n, r, &Step{})
}

// export writes the state out, as an operator would, and starts a new chain
// from it.
func (s *Sim) export(st *Step) {
	nw := s.nw
	s.stats.fault("chain exported and restarted")
	ex := s.exported(st)
	if st.DT > 0 {
		// the chain is started again some time later
		nw.time = nw.time.Add(time.Duration(st.DT) * time.Millisecond)
		s.stats.fault("chain started again later")
	}
	nw.genesis = s.genesisOf(ex, ex.AppState)
	for i, o := range nw.nodes {
		o.stop()
		nw.nodes[i] = newNode(i, o.cfg, newSimDisk(), nw.stats)
	}
	nw.log = map[int64]*blockRec{}
	s.epoch++
	s.m.lastExt = nil
	s.obsOnly = "X01"
	s.boot()
	s.compareExport(ex.AppState)
	s.afterBoot()
	s.obsOnly = ""
}

// genesisOf is the request that starts a chain from an export.
func (s *Sim) genesisOf(ex servertypes.ExportedApp, app []byte) *abci.RequestInitChain {
	var vals []abci.ValidatorUpdate
	for _, v := range ex.Validators {
		for i := range consAddr {
			if bytes.Equal(consAddr[i], v.Address) {
				vals = append(vals, abci.Ed25519ValidatorUpdate(valKeys[i].PubKey().Bytes(), v.Power))
			}
		}
	}
	g := initChainReq(app, s.nw.time, ex.Height, vals)
	g.ConsensusParams.Abci.VoteExtensionsEnableHeight = ex.Height + 1
	return g
}

// compareExport imports the genesis into a scratch node and exports the modules
// of milkyway again, before any block changes them.
func (s *Sim) compareExport(app []byte) {
	n := newNode(0, s.nw.nodes[0].cfg, newSimDisk(), s.nw.stats)
	if d := n.open(s.nw.time, 7); d != nil {
		s.fail("X01", "start", "%v", d)
	}
	defer n.stop()
	var a map[string]json.RawMessage
	must0(json.Unmarshal(app, &a))
	now := map[string]json.RawMessage{}
	if d := n.enter("export", s.nw.time, 5, func() {
		ctx, _ := n.app.NewUncachedContext(false, headerAt(s.nw)).CacheContext()
		ctx = ctx.WithConsensusParams(*s.nw.genesis.ConsensusParams)
		if _, err := n.app.InitChainer(ctx, s.nw.genesis); err != nil {
			s.fail("X01", "genesis", "%v", err)
		}
		put := func(k string, m proto.Message, err error) {
			if err != nil {
				s.fail("X01", "export after import", "%s: %v", k, err)
			}
			now[k] = s.cdc.MustMarshalJSON(m)
		}
		g1 := n.app.OperatorsKeeper.ExportGenesis(ctx)
		put(operatorstypes.ModuleName, g1, nil)
		g2 := n.app.ServicesKeeper.ExportGenesis(ctx)
		put(servicestypes.ModuleName, g2, nil)
		g3 := n.app.PoolsKeeper.ExportGenesis(ctx)
		put(poolstypes.ModuleName, g3, nil)
		g4 := n.app.RestakingKeeper.ExportGenesis(ctx)
		put(restakingtypes.ModuleName, g4, nil)
		g5, err := n.app.RewardsKeeper.ExportGenesis(ctx)
		put(rewardstypes.ModuleName, g5, err)
		g6, err := n.app.LiquidVestingKeeper.ExportGenesis(ctx)
		put(lvtypes.ModuleName, g6, err)
		g7, err := n.app.AssetsKeeper.ExportGenesis(ctx)
		put(assetstypes.ModuleName, g7, err)
	}); d != nil {
		if v, ok := d.val.(*violation); ok {
			panic(v)
		}
		s.fail("X01", "export after import", "panics: %v [%s]", d.val, d.stack)
	}
	for _, k := range sortedKeys(now) {
		var x, y any
		must0(json.Unmarshal(a[k], &x))
		must0(json.Unmarshal(now[k], &y))
		if d := jsonDiff("", x, y); d != "" {
			s.fail("X01", "state changed by export and import", "%s: %s", k, named(clip(d, 500)))
		}
	}
}

// jsonDiff finds the first difference.
func jsonDiff(at string, a, b any) string {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			break
		}
		ks := map[string]bool{}
		for k := range x {
			ks[k] = true
		}
		for k := range y {
			ks[k] = true
		}
		for _, k := range sortedKeys(ks) {
			if d := jsonDiff(at+"/"+k, x[k], y[k]); d != "" {
				return d
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			break
		}
		for i := range x {
			if d := jsonDiff(fmt.Sprintf("%s/%d", at, i), x[i], y[i]); d != "" {
				return d
			}
		}
		return ""
	}
	p, q := fmt.Sprint(a), fmt.Sprint(b)
	if p == q || (empty(a) && empty(b)) {
		return ""
	}
	return fmt.Sprintf("%s was %s, is %s", at, clip(p, 200), clip(q, 200))
}

func empty(a any) bool {
	switch x := a.(type) {
	case nil:
		return true
	case []any:
		return len(x) == 0
	case map[string]any:
		return len(x) == 0
	}
	return false
}

var _ = sdk.Coins{}
