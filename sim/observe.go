package main

// What the chain says about itself, through its own queries, compared with the
// reference model.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/cosmos/gogoproto/proto"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"
)

// query asks a node the way a client would.
func (s *Sim) query(n *node, path string, req proto.Message, resp proto.Message) error {
	bz := must(proto.Marshal(req))
	var r *abci.ResponseQuery
	var err error
	s.stats.count("queries")
	if d := n.enter("query", s.nw.time, 9, func() {
		if s.slowQ {
			r, err = n.app.Query(nil2ctx(), &abci.RequestQuery{Path: path, Data: bz})
		} else {
			r, err = n.fastQuery(&abci.RequestQuery{Path: path, Data: bz})
		}
	}); d != nil {
		s.fail("Q01 C03", "query panics", "%s: %v [%s]", path, d.val, d.stack)
	}
	if err != nil {
		return err
	}
	if r.Code != 0 {
		return fmt.Errorf("%s", r.Log)
	}
	if pc, ok := resp.(interface{ Reset() }); ok {
		pc.Reset()
	}
	if um, ok := resp.(interface{ Unmarshal([]byte) error }); ok {
		if err := um.Unmarshal(r.Value); err != nil {
			return err
		}
		return s.unpack(resp)
	}
	return proto.Unmarshal(r.Value, resp)
}

// fastQuery does what baseapp.Query does for a gRPC path, with one view of the
// committed state for all queries between two calls of the application.
func (n *node) fastQuery(req *abci.RequestQuery) (r *abci.ResponseQuery, err error) {
	defer func() {
		if p := recover(); p != nil {
			if c, ok := p.(crashPanic); ok {
				panic(c)
			}
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	h := n.app.GRPCQueryRouter().Route(req.Path)
	if h == nil {
		return nil, fmt.Errorf("unknown query %s", req.Path)
	}
	if n.qctx == nil {
		ctx, err := n.app.CreateQueryContext(0, false)
		if err != nil {
			return nil, err
		}
		n.qctx = &ctx
	}
	ctx, _ := n.qctx.CacheContext()
	if r, err = h(ctx, req); err != nil {
		return &abci.ResponseQuery{Code: 1, Log: err.Error()}, nil
	}
	return r, nil
}

func (s *Sim) unpack(m proto.Message) error {
	if u, ok := m.(interface {
		UnpackInterfaces(u codectypes.AnyUnpacker) error
	}); ok {
		return u.UnpackInterfaces(s.ireg)
	}
	return nil
}

func (s *Sim) oraclePrice(n *node, pair string) *big.Int {
	var r oracletypes.GetPriceResponse
	if err := s.query(n, "/connect.oracle.v2.Query/GetPrice", &oracletypes.GetPriceRequest{CurrencyPair: pair}, &r); err != nil {
		return nil
	}
	if r.Price == nil || r.Price.Price.IsNil() || r.Nonce == 0 {
		return nil
	}
	return new(big.Int).Set(r.Price.Price.BigInt())
}

type obs struct {
	s    *Sim
	m    *model
	n    *node
	r    *rng
	ev   *blockEv
	only string // when set, every mismatch is blamed on this
}

func (o *obs) fail(tags, sig, f string, a ...any) {
	if o.only != "" {
		tags = o.only
	}
	o.s.fail(uniqTags(tags), sig, f, a...)
}

func (o *obs) q(path string, req, resp proto.Message) error { return o.s.query(o.n, path, req, resp) }

// need is a query that has to be answered.
func (o *obs) need(tags, path string, req, resp proto.Message) {
	if err := o.q(path, req, resp); err != nil {
		o.fail(tags+" Q01", "query fails", "%s %v: %v", path, req, err)
	}
}

// missing is a query for something that is not there.
func (o *obs) missing(tags, path string, req, resp proto.Message) {
	if err := o.q(path, req, resp); err == nil {
		o.fail(tags+" Q01", "query finds what is not there", "%s %v: %v", path, req, resp)
	}
}

// list reads a listing at once and page by page.
func (o *obs) list(what string, fetch func(p *query.PageRequest) ([]string, *query.PageResponse)) []string {
	all, _ := fetch(&query.PageRequest{Limit: 100000})
	if !o.r.p(0.3) {
		return all
	}
	lim := uint64(pick(o.r, []int{1, 2, 3, 5, 50}))
	var got []string
	byKey := o.r.p(0.6) || strings.Contains(what, "ServiceOperators") // the SDK counts offsets before filtering collections
	rev := o.r.p(0.2)
	p := &query.PageRequest{Limit: lim, CountTotal: true, Reverse: rev}
	for i := 0; i < 10000; i++ {
		part, pr := fetch(p)
		got = append(got, part...)
		if pr == nil {
			break
		}
		if i == 0 && pr.Total != uint64(len(all)) {
			o.fail("Q01", "listing total", "%s: total %d of %d", what, pr.Total, len(all))
		}
		if uint64(len(part)) > lim {
			o.fail("Q01", "page too long", "%s: %d items, limit %d", what, len(part), lim)
		}
		if len(pr.NextKey) == 0 {
			break
		}
		if byKey {
			p = &query.PageRequest{Key: pr.NextKey, Limit: lim, Reverse: rev}
		} else {
			p = &query.PageRequest{Offset: uint64(i+1) * lim, Limit: lim, Reverse: rev}
		}
	}
	a, b := append([]string{}, all...), append([]string{}, got...)
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		o.fail("Q01", "listing by pages", "%s with pages of %d (by key %v, reverse %v): %d items, at once %d: %s", what, lim, byKey, rev, len(got), len(all), diffLists(a, b))
	}
	return all
}

func diffLists(want, got []string) string {
	c := map[string]int{}
	for _, x := range want {
		c[x]++
	}
	for _, x := range got {
		c[x]--
	}
	var out []string
	for _, k := range sortedKeys(c) {
		if c[k] > 0 {
			out = append(out, fmt.Sprintf("missing %s", k))
		} else if c[k] < 0 {
			out = append(out, fmt.Sprintf("unexpected %s", k))
		}
	}
	return named(clip(strings.Join(out, "; "), 800))
}

func named(s string) string {
	for a, n := range accNames {
		s = strings.ReplaceAll(s, a, n)
	}
	return s
}

func (o *obs) same(tags, what string, want, got []string) {
	a, b := append([]string{}, want...), append([]string{}, got...)
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		o.fail(tags, what, "%s", diffLists(a, b))
	}
}

func ts(t time.Time) string {
	if t.IsZero() {
		return "-"
	}
	return t.UTC().Format(time.RFC3339Nano)
}

func (o *obs) listing(tags, path string, mk func(p *query.PageRequest) proto.Message, resp proto.Message, items func() ([]string, *query.PageResponse)) []string {
	return o.list(path, func(p *query.PageRequest) ([]string, *query.PageResponse) {
		o.need(tags, path, mk(p), resp)
		return items()
	})
}

func opString(p operatorstypes.Operator, tok bool) string {
	st := map[operatorstypes.OperatorStatus]string{operatorstypes.OPERATOR_STATUS_ACTIVE: "active", operatorstypes.OPERATOR_STATUS_INACTIVATING: "inactivating", operatorstypes.OPERATOR_STATUS_INACTIVE: "inactive"}[p.Status]
	x := fmt.Sprintf("operator %d %s admin %s %q %q %q %s", p.ID, st, p.Admin, p.Moniker, p.Website, p.PictureURL, p.Address)
	return x
}

func (p mOperator) String() string {
	return fmt.Sprintf("operator %d %s admin %s %q %q %q %s", p.id, []string{"", "active", "inactivating", "inactive"}[p.status], p.admin, p.moniker, p.website, p.pict, targetAddr(tOperator, p.id))
}

func svString(p servicestypes.Service) string {
	st := map[servicestypes.ServiceStatus]string{servicestypes.SERVICE_STATUS_CREATED: "created", servicestypes.SERVICE_STATUS_ACTIVE: "active", servicestypes.SERVICE_STATUS_INACTIVE: "inactive"}[p.Status]
	return fmt.Sprintf("service %d %s admin %s %q %q %q %q accredited %v %s", p.ID, st, p.Admin, p.Name, p.Description, p.Website, p.PictureURL, p.Accredited, p.Address)
}

func (p mService) String() string {
	return fmt.Sprintf("service %d %s admin %s %q %q %q %q accredited %v %s", p.id, []string{"", "created", "active", "inactive"}[p.status], p.admin, p.name, p.desc, p.website, p.pic, p.accredited, targetAddr(tService, p.id))
}

func (o *obs) balances() {
	m := o.m
	// who has too much may have what others should have
	var wrong []string
	tags := ""
	for _, a := range m.trackL {
		var r banktypes.QueryAllBalancesResponse
		o.need("C04", "/cosmos.bank.v1beta1.Query/AllBalances", &banktypes.QueryAllBalancesRequest{Address: a, Pagination: &query.PageRequest{Limit: 1000}}, &r)
		got := map[string]math.Int{}
		for _, c := range r.Balances {
			got[c.Denom] = c.Amount
		}
		ds := map[string]bool{}
		for d := range got {
			ds[d] = true
		}
		for d := range m.bal[a] {
			ds[d] = true
		}
		for _, d := range sortedKeys(ds) {
			want, ok := m.bal[a][d]
			if !ok {
				want = exact(math.ZeroInt())
			}
			g, ok := got[d]
			if !ok {
				g = math.ZeroInt()
			}
			if g.LT(want.lo) || g.GT(want.hi) {
				wrong = append(wrong, fmt.Sprintf("%s has %s %s, should be %s", name(a), g, d, want))
				tags += " " + o.balTags(a, d)
			}
		}
		nb := map[string]ival{}
		for d, g := range got {
			nb[d] = exact(g)
		}
		m.bal[a] = nb
	}
	if len(wrong) > 0 {
		o.fail(tags, "balance", "%s", strings.Join(wrong[:min(4, len(wrong))], "; "))
	}
}

func (v ival) String() string {
	if v.lo.Equal(v.hi) {
		return v.lo.String()
	}
	return fmt.Sprintf("%s..%s", v.lo, v.hi)
}

// balTags are the properties a wrong balance breaks.
func (o *obs) balTags(a, d string) string {
	t := o.ev.touched[a]
	if isLocked(d) {
		t += " L01 L04"
	}
	if d == dFee {
		t += " C04"
	}
	if o.m.isTarget(a) || o.m.wasTarget(a) {
		t += " R01 R02"
	}
	switch {
	case a == addrRewards:
		t += " W03 W01"
	case a == addrLV:
		t += " L02 L03"
	case strings.HasPrefix(accNames[a], "plan-"):
		t += " W01"
	}
	if t == "" {
		t = o.ev.tags + " C04"
	}
	return t
}

func (m *model) wasTarget(a string) bool {
	for t := range m.dead {
		if targetAddr(t.kind, t.id) == a {
			return true
		}
	}
	return false
}

func (o *obs) supplies() {
	m := o.m
	var r banktypes.QueryTotalSupplyResponse
	o.need("C04", "/cosmos.bank.v1beta1.Query/TotalSupply", &banktypes.QueryTotalSupplyRequest{Pagination: &query.PageRequest{Limit: 1000}}, &r)
	got := map[string]math.Int{}
	for _, c := range r.Supply {
		if isLocked(c.Denom) {
			got[c.Denom] = c.Amount
		}
	}
	for d, want := range m.mint {
		g, ok := got[d]
		if !ok {
			g = math.ZeroInt()
		}
		if !g.Equal(want) {
			o.fail("L01 L04", "locked supply", "supply of %s is %s, minted minus burned is %s", d, g, want)
		}
		delete(got, d)
	}
	for d, g := range got {
		o.fail("L01", "locked supply", "supply of %s is %s, but none was minted", d, g)
	}
}

func (o *obs) community() {
	m := o.m
	now := m.communityPool(o.n)
	if m.commPool != nil {
		want := m.commPool.Add(sdk.NewDecCoinsFromCoins(o.ev.community...)...)
		diff, neg := now.SafeSub(want)
		if neg || !diff.IsZero() {
			// withdrawing staking rewards leaves dust; nothing else may
			bad := neg
			for _, c := range diff {
				if c.Amount.GTE(math.LegacyNewDec(4)) {
					bad = true
				}
			}
			if bad {
				o.fail(o.ev.commTags+" C04", "community pool", "is %s, should be %s", now, want)
			}
		}
	}
	m.commPool = now
}

// observe compares everything the chain reports with the model.
func (m *model) observe(n *node, ev *blockEv, r *rng, full bool) { m.observeAs(n, ev, r, full, "") }

func (m *model) observeAs(n *node, ev *blockEv, r *rng, full bool, only string) {
	o := &obs{s: m.s, m: m, n: n, r: r, ev: ev, only: only}
	o.balances()
	o.supplies()
	if only == "" {
		o.community()
	} else {
		m.commPool = m.communityPool(n)
	}
	if !full {
		return
	}
	m.stat("full observations")
	o.operators()
	o.services()
	o.pools()
	o.delegations()
	o.unbondings()
	o.preferences()
	o.relations()
	o.trustTotals()
	o.params()
	o.assets()
	o.plans()
	o.funds()
	o.rewards()
	m.s.states[m.digest()] = true
}

// digest is the measure of distinct states: everything but amounts of money and times.
func (m *model) digest() uint64 {
	h := uint64(1)
	add := func(f string, a ...any) { h = mix64(h ^ strHash(fmt.Sprintf(f, a...))) }
	for _, i := range sortedKeys(m.ops) {
		add("o%d %d %v", i, m.ops[i].status, m.ops[i].rate.IsPositive())
	}
	for _, i := range sortedKeys(m.svcs) {
		v := m.svcs[i]
		add("s%d %d %v %v", i, v.status, v.accredited, v.denoms)
	}
	for _, t := range m.targets() {
		for _, u := range sortedKeys(m.del[t]) {
			var ds []string
			for _, c := range m.del[t][u] {
				ds = append(ds, c.Denom)
			}
			add("d%v %s %v", t, u, ds)
		}
	}
	add("u%d b%d j%d a%d s%d p%d", len(m.ubds), len(m.burns), len(m.join), len(m.allow), len(m.sec), len(m.plans))
	for _, u := range sortedKeys(m.prefs) {
		add("p%s %v", u, m.pref(u))
	}
	return h
}

func (o *obs) operators() {
	m := o.m
	var r operatorstypes.QueryOperatorsResponse
	got := o.listing("O01", "/milkyway.operators.v1.Query/Operators", func(p *query.PageRequest) proto.Message {
		return &operatorstypes.QueryOperatorsRequest{Pagination: p}
	}, &r, func() (x []string, _ *query.PageResponse) {
		for _, p := range r.Operators {
			x = append(x, opString(p, false))
		}
		return x, r.Pagination
	})
	var want []string
	for _, p := range m.ops {
		want = append(want, p.String())
	}
	o.same("O01", "operators", want, got)
	for _, id := range sortedKeys(m.ops) {
		p := m.ops[id]
		var q operatorstypes.QueryOperatorResponse
		o.need("O01", "/milkyway.operators.v1.Query/Operator", &operatorstypes.QueryOperatorRequest{OperatorId: id}, &q)
		o.same("O01 Q01", "operator", []string{p.String()}, []string{opString(q.Operator, false)})
		o.totals(target{tOperator, id}, q.Operator.Tokens, q.Operator.DelegatorShares)
		var pr operatorstypes.QueryOperatorParamsResponse
		o.need("O01", "/milkyway.operators.v1.Query/OperatorParams", &operatorstypes.QueryOperatorParamsRequest{OperatorId: id}, &pr)
		if got := pr.OperatorParams.CommissionRate; got.IsNil() && p.rate.IsZero() {
		} else if got.IsNil() || !got.Equal(p.rate) {
			o.fail("O01", "operator params", "commission rate of operator %d is %s, should be %s", id, got, p.rate)
		}
	}
	o.missing("O01", "/milkyway.operators.v1.Query/Operator", &operatorstypes.QueryOperatorRequest{OperatorId: m.nextOp}, &operatorstypes.QueryOperatorResponse{})
}

// totals compares the recorded total of a target with the sum of its delegations.
func (o *obs) totals(t target, tokens sdk.Coins, shares sdk.DecCoins) {
	want := o.m.total(t)
	if !tokens.Equal(want) {
		o.fail("R01", "total of target", "%s records %s, its delegators have %s", t, tokens, want)
	}
	sum := math.LegacyZeroDec()
	for _, c := range shares {
		sum = sum.Add(c.Amount)
	}
	w := math.ZeroInt()
	for _, c := range want {
		w = w.Add(c.Amount)
	}
	if !sum.Equal(math.LegacyNewDecFromInt(w)) {
		o.fail("R01", "shares of target", "%s records shares %s for %s", t, shares, want)
	}
}

func (o *obs) services() {
	m := o.m
	var r servicestypes.QueryServicesResponse
	got := o.listing("S01", "/milkyway.services.v1.Query/Services", func(p *query.PageRequest) proto.Message {
		return &servicestypes.QueryServicesRequest{Pagination: p}
	}, &r, func() (x []string, _ *query.PageResponse) {
		for _, p := range r.Services {
			x = append(x, svString(p))
		}
		return x, r.Pagination
	})
	var want []string
	for _, p := range m.svcs {
		want = append(want, p.String())
	}
	o.same("S01 G01", "services", want, got)
	for _, id := range sortedKeys(m.svcs) {
		p := m.svcs[id]
		var q servicestypes.QueryServiceResponse
		o.need("S01", "/milkyway.services.v1.Query/Service", &servicestypes.QueryServiceRequest{ServiceId: id}, &q)
		o.same("S01 Q01", "service", []string{p.String()}, []string{svString(q.Service)})
		o.totals(target{tService, id}, q.Service.Tokens, q.Service.DelegatorShares)
		var pr servicestypes.QueryServiceParamsResponse
		o.need("S01", "/milkyway.services.v1.Query/ServiceParams", &servicestypes.QueryServiceParamsRequest{ServiceId: id}, &pr)
		if !sameDenoms(pr.ServiceParams.AllowedDenoms, p.denoms) {
			o.fail("S01", "service params", "service %d allows %v, should be %v", id, pr.ServiceParams.AllowedDenoms, p.denoms)
		}
	}
	o.missing("S01", "/milkyway.services.v1.Query/Service", &servicestypes.QueryServiceRequest{ServiceId: m.nextSvc}, &servicestypes.QueryServiceResponse{})
}

func sameDenoms(a, b []string) bool {
	f := func(x []string) string {
		m := map[string]bool{}
		for _, d := range x {
			m[d] = true
		}
		return strings.Join(sortedKeys(m), ",")
	}
	return f(a) == f(b)
}

func (o *obs) pools() {
	m := o.m
	var r poolstypes.QueryPoolsResponse
	got := o.listing("R01", "/milkyway.pools.v1.Query/Pools", func(p *query.PageRequest) proto.Message {
		return &poolstypes.QueryPoolsRequest{Pagination: p}
	}, &r, func() (x []string, _ *query.PageResponse) {
		for _, p := range r.Pools {
			x = append(x, fmt.Sprintf("pool %d %s %s", p.ID, p.Denom, p.Address))
		}
		return x, r.Pagination
	})
	var want []string
	for id, d := range m.pools {
		want = append(want, fmt.Sprintf("pool %d %s %s", id, d, targetAddr(tPool, id)))
	}
	o.same("R01", "pools", want, got)
	for _, id := range sortedKeys(m.pools) {
		var q, q2 poolstypes.QueryPoolResponse
		o.need("R01", "/milkyway.pools.v1.Query/PoolByID", &poolstypes.QueryPoolByIdRequest{PoolId: id}, &q)
		o.need("R01", "/milkyway.pools.v1.Query/PoolByDenom", &poolstypes.QueryPoolByDenomRequest{Denom: m.pools[id]}, &q2)
		if q.Pool.String() != q2.Pool.String() || q.Pool.ID != id {
			o.fail("Q01 R01", "pool", "by id %v, by denom %v", q.Pool, q2.Pool)
		}
		tot := m.total(target{tPool, id}).AmountOf(m.pools[id])
		if !q.Pool.Tokens.Equal(tot) || !q.Pool.DelegatorShares.Equal(math.LegacyNewDecFromInt(tot)) {
			o.fail("R01", "total of target", "pool %d records %s (shares %s), its delegators have %s", id, q.Pool.Tokens, q.Pool.DelegatorShares, tot)
		}
	}
}

func coinsOrDash(c sdk.Coins) string {
	if len(c) == 0 {
		return "-"
	}
	return c.String()
}

func (o *obs) delegations() {
	m := o.m
	byUser := map[string][]string{}
	str := func(d restakingtypes.DelegationResponse) string {
		return fmt.Sprintf("%s-%d %s %s", kindOf(d.Delegation.Type), d.Delegation.TargetID, d.Delegation.UserAddress, coinsOrDash(d.Balance))
	}
	for _, t := range m.targets() {
		var want []string
		for u, c := range m.del[t] {
			x := fmt.Sprintf("%s-%d %s %s", t.kind, t.id, u, coinsOrDash(c))
			want = append(want, x)
			byUser[u] = append(byUser[u], x)
		}
		var got []string
		switch t.kind {
		case tPool:
			var r restakingtypes.QueryPoolDelegationsResponse
			got = o.listing("R01", "/milkyway.restaking.v1.Query/PoolDelegations", func(p *query.PageRequest) proto.Message {
				return &restakingtypes.QueryPoolDelegationsRequest{PoolId: t.id, Pagination: p}
			}, &r, func() (x []string, _ *query.PageResponse) {
				for _, d := range r.Delegations {
					x = append(x, str(d))
				}
				return x, r.Pagination
			})
		case tOperator:
			var r restakingtypes.QueryOperatorDelegationsResponse
			got = o.listing("R01", "/milkyway.restaking.v1.Query/OperatorDelegations", func(p *query.PageRequest) proto.Message {
				return &restakingtypes.QueryOperatorDelegationsRequest{OperatorId: t.id, Pagination: p}
			}, &r, func() (x []string, _ *query.PageResponse) {
				for _, d := range r.Delegations {
					x = append(x, str(d))
				}
				return x, r.Pagination
			})
		case tService:
			var r restakingtypes.QueryServiceDelegationsResponse
			got = o.listing("R01", "/milkyway.restaking.v1.Query/ServiceDelegations", func(p *query.PageRequest) proto.Message {
				return &restakingtypes.QueryServiceDelegationsRequest{ServiceId: t.id, Pagination: p}
			}, &r, func() (x []string, _ *query.PageResponse) {
				for _, d := range r.Delegations {
					x = append(x, str(d))
				}
				return x, r.Pagination
			})
		}
		o.same("R01 R03", "delegations of "+t.kind.String(), want, got)
		// the money is there
		need := m.total(t)
		for _, b := range m.ubds {
			if b.t == t {
				need = need.Add(b.amt...)
			}
		}
		a := targetAddr(t.kind, t.id)
		for _, c := range need {
			if m.bal[a][c.Denom].hi.IsNil() || m.bal[a][c.Denom].hi.LT(c.Amount) {
				o.fail("R01 R02", "target not backed", "%s holds %v of %s", t, m.bal[a][c.Denom], c)
			}
		}
	}
	for _, u := range users {
		var got []string
		for _, k := range []tkind{tPool, tOperator, tService} {
			mkv := func(p *query.PageRequest) proto.Message {
				switch k {
				case tPool:
					return &restakingtypes.QueryDelegatorPoolDelegationsRequest{DelegatorAddress: u.addr, Pagination: p}
				case tOperator:
					return &restakingtypes.QueryDelegatorOperatorDelegationsRequest{DelegatorAddress: u.addr, Pagination: p}
				}
				return &restakingtypes.QueryDelegatorServiceDelegationsRequest{DelegatorAddress: u.addr, Pagination: p}
			}
			var r1 restakingtypes.QueryDelegatorPoolDelegationsResponse
			var r2 restakingtypes.QueryDelegatorOperatorDelegationsResponse
			var r3 restakingtypes.QueryDelegatorServiceDelegationsResponse
			resp := []proto.Message{nil, &r1, &r2, &r3}[k]
			kn := []string{"", "Pool", "Operator", "Service"}[k]
			got = append(got, o.listing("R01", "/milkyway.restaking.v1.Query/Delegator"+kn+"Delegations", mkv, resp, func() (x []string, pr *query.PageResponse) {
				ds := r1.Delegations
				pr = r1.Pagination
				if k == tOperator {
					ds, pr = r2.Delegations, r2.Pagination
				} else if k == tService {
					ds, pr = r3.Delegations, r3.Pagination
				}
				for _, d := range ds {
					x = append(x, str(d))
				}
				return x, pr
			})...)
		}
		o.same("R01 Q01", "delegations of a user", byUser[u.addr], got)
		o.userTargets(u.addr)
	}
}

// userTargets checks the listings of the targets a user delegated to, and single delegations.
func (o *obs) userTargets(u string) {
	m := o.m
	var want []string
	for _, t := range m.targets() {
		c, ok := m.del[t][u]
		if ok {
			want = append(want, t.String())
		}
		if !o.r.p(0.25) {
			continue
		}
		var got sdk.Coins
		var err error
		switch t.kind {
		case tPool:
			var r restakingtypes.QueryPoolDelegationResponse
			err = o.q("/milkyway.restaking.v1.Query/PoolDelegation", &restakingtypes.QueryPoolDelegationRequest{PoolId: t.id, DelegatorAddress: u}, &r)
			got = r.Delegation.Balance
		case tOperator:
			var r restakingtypes.QueryOperatorDelegationResponse
			err = o.q("/milkyway.restaking.v1.Query/OperatorDelegation", &restakingtypes.QueryOperatorDelegationRequest{OperatorId: t.id, DelegatorAddress: u}, &r)
			got = r.Delegation.Balance
		case tService:
			var r restakingtypes.QueryServiceDelegationResponse
			err = o.q("/milkyway.restaking.v1.Query/ServiceDelegation", &restakingtypes.QueryServiceDelegationRequest{ServiceId: t.id, DelegatorAddress: u}, &r)
			got = r.Delegation.Balance
		}
		if (err == nil) != ok || (ok && !got.Equal(c)) {
			o.fail("R01 Q01", "delegation", "%s of %s: query says %s (%v), should be %s", t, name(u), got, err, c)
		}
	}
	var got []string
	var r1 restakingtypes.QueryDelegatorPoolsResponse
	got = append(got, o.listing("R01", "/milkyway.restaking.v1.Query/DelegatorPools", func(p *query.PageRequest) proto.Message {
		return &restakingtypes.QueryDelegatorPoolsRequest{DelegatorAddress: u, Pagination: p}
	}, &r1, func() (x []string, _ *query.PageResponse) {
		for _, t := range r1.Pools {
			x = append(x, target{tPool, t.ID}.String())
		}
		return x, r1.Pagination
	})...)
	var r2 restakingtypes.QueryDelegatorOperatorsResponse
	got = append(got, o.listing("R01", "/milkyway.restaking.v1.Query/DelegatorOperators", func(p *query.PageRequest) proto.Message {
		return &restakingtypes.QueryDelegatorOperatorsRequest{DelegatorAddress: u, Pagination: p}
	}, &r2, func() (x []string, _ *query.PageResponse) {
		for _, t := range r2.Operators {
			x = append(x, target{tOperator, t.ID}.String())
		}
		return x, r2.Pagination
	})...)
	var r3 restakingtypes.QueryDelegatorServicesResponse
	got = append(got, o.listing("R01", "/milkyway.restaking.v1.Query/DelegatorServices", func(p *query.PageRequest) proto.Message {
		return &restakingtypes.QueryDelegatorServicesRequest{DelegatorAddress: u, Pagination: p}
	}, &r3, func() (x []string, _ *query.PageResponse) {
		for _, t := range r3.Services {
			x = append(x, target{tService, t.ID}.String())
		}
		return x, r3.Pagination
	})...)
	o.same("Q01", "targets of a user", want, got)
}

func ubdStrings(list []restakingtypes.UnbondingDelegation) []string {
	sum := map[string]sdk.Coins{}
	for _, u := range list {
		for _, e := range u.Entries {
			k := fmt.Sprintf("%s-%d %s at %s", kindOf(u.Type), u.TargetID, u.DelegatorAddress, ts(e.CompletionTime))
			sum[k] = sum[k].Add(e.Balance...)
		}
	}
	var out []string
	for k, c := range sum {
		out = append(out, k+" "+coinsOrDash(c))
	}
	return out
}

func (m *model) ubdWant(f func(b mUBD) bool) []string {
	sum := map[string]sdk.Coins{}
	for _, b := range m.ubds {
		if f(b) {
			k := fmt.Sprintf("%s-%d %s at %s", b.t.kind, b.t.id, b.user, ts(b.done))
			sum[k] = sum[k].Add(b.amt...)
		}
	}
	var out []string
	for k, c := range sum {
		out = append(out, k+" "+coinsOrDash(c))
	}
	return out
}

func (o *obs) unbondings() {
	m := o.m
	for _, u := range users {
		for _, k := range []tkind{tPool, tOperator, tService} {
			var r1 restakingtypes.QueryDelegatorPoolUnbondingDelegationsResponse
			var r2 restakingtypes.QueryDelegatorOperatorUnbondingDelegationsResponse
			var r3 restakingtypes.QueryDelegatorServiceUnbondingDelegationsResponse
			resp := []proto.Message{nil, &r1, &r2, &r3}[k]
			kn := []string{"", "Pool", "Operator", "Service"}[k]
			got := o.listing("R02", "/milkyway.restaking.v1.Query/Delegator"+kn+"UnbondingDelegations", func(p *query.PageRequest) proto.Message {
				switch k {
				case tPool:
					return &restakingtypes.QueryDelegatorPoolUnbondingDelegationsRequest{DelegatorAddress: u.addr, Pagination: p}
				case tOperator:
					return &restakingtypes.QueryDelegatorOperatorUnbondingDelegationsRequest{DelegatorAddress: u.addr, Pagination: p}
				}
				return &restakingtypes.QueryDelegatorServiceUnbondingDelegationsRequest{DelegatorAddress: u.addr, Pagination: p}
			}, resp, func() (x []string, pr *query.PageResponse) {
				l := r1.UnbondingDelegations
				pr = r1.Pagination
				if k == tOperator {
					l, pr = r2.UnbondingDelegations, r2.Pagination
				} else if k == tService {
					l, pr = r3.UnbondingDelegations, r3.Pagination
				}
				for _, d := range l {
					y := ubdStrings([]restakingtypes.UnbondingDelegation{d})
					sort.Strings(y)
					x = append(x, strings.Join(y, "\n"))
				}
				return x, pr
			})
			var flat []string
			for _, g := range got {
				flat = append(flat, strings.Split(g, "\n")...)
			}
			o.same("R02", "pending undelegations", m.ubdWant(func(b mUBD) bool { return b.user == u.addr && b.t.kind == k }), flat)
		}
	}
	for _, t := range m.targets() {
		if !o.r.p(0.3) {
			continue
		}
		want := m.ubdWant(func(b mUBD) bool { return b.t == t })
		var r1 restakingtypes.QueryPoolUnbondingDelegationsResponse
		var r2 restakingtypes.QueryOperatorUnbondingDelegationsResponse
		var r3 restakingtypes.QueryServiceUnbondingDelegationsResponse
		resp := []proto.Message{nil, &r1, &r2, &r3}[t.kind]
		kn := []string{"", "Pool", "Operator", "Service"}[t.kind]
		got := o.listing("R02", "/milkyway.restaking.v1.Query/"+kn+"UnbondingDelegations", func(p *query.PageRequest) proto.Message {
			switch t.kind {
			case tPool:
				return &restakingtypes.QueryPoolUnbondingDelegationsRequest{PoolId: t.id, Pagination: p}
			case tOperator:
				return &restakingtypes.QueryOperatorUnbondingDelegationsRequest{OperatorId: t.id, Pagination: p}
			}
			return &restakingtypes.QueryServiceUnbondingDelegationsRequest{ServiceId: t.id, Pagination: p}
		}, resp, func() (x []string, pr *query.PageResponse) {
			l := r1.UnbondingDelegations
			pr = r1.Pagination
			if t.kind == tOperator {
				l, pr = r2.UnbondingDelegations, r2.Pagination
			} else if t.kind == tService {
				l, pr = r3.UnbondingDelegations, r3.Pagination
			}
			for _, d := range l {
				y := ubdStrings([]restakingtypes.UnbondingDelegation{d})
				sort.Strings(y)
				x = append(x, strings.Join(y, "\n"))
			}
			return x, pr
		})
		var flat []string
		for _, g := range got {
			flat = append(flat, strings.Split(g, "\n")...)
		}
		o.same("Q01", "pending undelegations of a target", want, flat)
		// a single one
		u := pick(o.r, users).addr
		var one restakingtypes.UnbondingDelegation
		var err error
		switch t.kind {
		case tPool:
			var r restakingtypes.QueryPoolUnbondingDelegationResponse
			err = o.q("/milkyway.restaking.v1.Query/PoolUnbondingDelegation", &restakingtypes.QueryPoolUnbondingDelegationRequest{PoolId: t.id, DelegatorAddress: u}, &r)
			one = r.UnbondingDelegation
		case tOperator:
			var r restakingtypes.QueryOperatorUnbondingDelegationResponse
			err = o.q("/milkyway.restaking.v1.Query/OperatorUnbondingDelegation", &restakingtypes.QueryOperatorUnbondingDelegationRequest{OperatorId: t.id, DelegatorAddress: u}, &r)
			one = r.UnbondingDelegation
		case tService:
			var r restakingtypes.QueryServiceUnbondingDelegationResponse
			err = o.q("/milkyway.restaking.v1.Query/ServiceUnbondingDelegation", &restakingtypes.QueryServiceUnbondingDelegationRequest{ServiceId: t.id, DelegatorAddress: u}, &r)
			one = r.UnbondingDelegation
		}
		var l []restakingtypes.UnbondingDelegation
		if err == nil {
			l = append(l, one)
		}
		o.same("Q01 R02", "pending undelegation", m.ubdWant(func(b mUBD) bool { return b.t == t && b.user == u }), ubdStrings(l))
	}
}

func (o *obs) preferences() {
	m := o.m
	for _, u := range users {
		var r restakingtypes.QueryUserPreferencesResponse
		o.need("R04", "/milkyway.restaking.v1.Query/UserPreferences", &restakingtypes.QueryUserPreferencesRequest{UserAddress: u.addr}, &r)
		str := func(n, a bool, ids []uint32) string {
			x := map[uint32]bool{}
			for _, i := range ids {
				if _, ok := m.svcs[i]; ok {
					x[i] = true
				}
			}
			return fmt.Sprintf("%s non-accredited %v accredited %v list %v", u.addr, n, a, sortedKeys(x))
		}
		p := m.pref(u.addr)
		o.same("R04", "preferences", []string{str(p.trustNon, p.trustAcc, p.ids)},
			[]string{str(r.Preferences.TrustNonAccreditedServices, r.Preferences.TrustAccreditedServices, r.Preferences.TrustedServicesIDs)})
	}
}

func idStrings(ids []uint32) []string {
	out := []string{}
	for _, i := range ids {
		out = append(out, fmt.Sprint(i))
	}
	return out
}

func (o *obs) relations() {
	m := o.m
	for _, id := range sortedKeys(m.ops) {
		var r restakingtypes.QueryOperatorJoinedServicesResponse
		got := o.listing("S02", "/milkyway.restaking.v1.Query/OperatorJoinedServices", func(p *query.PageRequest) proto.Message {
			return &restakingtypes.QueryOperatorJoinedServicesRequest{OperatorId: id, Pagination: p}
		}, &r, func() ([]string, *query.PageResponse) { return idStrings(r.ServiceIds), r.Pagination })
		o.same("S02", fmt.Sprintf("services joined by operator"), idStrings(m.listOf(m.join, id)), got)
	}
	for _, id := range sortedKeys(m.svcs) {
		var r restakingtypes.QueryServiceAllowedOperatorsResponse
		got := o.listing("S02", "/milkyway.restaking.v1.Query/ServiceAllowedOperators", func(p *query.PageRequest) proto.Message {
			return &restakingtypes.QueryServiceAllowedOperatorsRequest{ServiceId: id, Pagination: p}
		}, &r, func() ([]string, *query.PageResponse) { return idStrings(r.OperatorIds), r.Pagination })
		o.same("S02", "operators allowed by service", idStrings(m.listOf(m.allow, id)), got)
		var r2 restakingtypes.QueryServiceSecuringPoolsResponse
		got = o.listing("S02", "/milkyway.restaking.v1.Query/ServiceSecuringPools", func(p *query.PageRequest) proto.Message {
			return &restakingtypes.QueryServiceSecuringPoolsRequest{ServiceId: id, Pagination: p}
		}, &r2, func() ([]string, *query.PageResponse) { return idStrings(r2.PoolIds), r2.Pagination })
		o.same("S02", "pools securing service", idStrings(m.listOf(m.sec, id)), got)
		var r3 restakingtypes.QueryServiceOperatorsResponse
		got = o.listing("S02", "/milkyway.restaking.v1.Query/ServiceOperators", func(p *query.PageRequest) proto.Message {
			return &restakingtypes.QueryServiceOperatorsRequest{ServiceId: id, Pagination: p}
		}, &r3, func() (x []string, _ *query.PageResponse) {
			for _, p := range r3.Operators {
				x = append(x, fmt.Sprint(p.ID))
			}
			return x, r3.Pagination
		})
		var want []string
		for _, op := range sortedKeys(m.ops) {
			if m.join[[2]uint32{op, id}] && m.canValidate(id, op) {
				want = append(want, fmt.Sprint(op))
			}
		}
		o.same("S02", "operators validating service", want, got)
	}
}

// trustTotals compares the totals of trusting stake kept by the chain.
func (o *obs) trustTotals() {
	m := o.m
	var g *rewardstypes.GenesisState
	var err error
	if d := o.n.enter("query", o.s.nw.time, 10, func() {
		ctx, _ := o.n.app.NewUncachedContext(false, headerAt(o.s.nw)).CacheContext()
		g, err = o.n.app.RewardsKeeper.ExportGenesis(ctx)
	}); d != nil {
		o.fail("X01 R04", "export", "rewards: %v [%s]", d.val, d.stack)
	}
	if err != nil {
		o.fail("X01 R04", "export", "rewards: %v", err)
	}
	got := map[[2]uint32]math.LegacyDec{}
	for _, e := range g.PoolServiceTotalDelegatorShares {
		k := [2]uint32{e.PoolID, e.ServiceID}
		sum := math.LegacyZeroDec()
		for _, c := range e.Shares {
			sum = sum.Add(c.Amount)
		}
		got[k] = sum
	}
	for _, p := range sortedKeys(m.pools) {
		for _, sv := range sortedKeys(m.svcs) {
			k := [2]uint32{p, sv}
			w := math.LegacyNewDecFromInt(m.trusting(p, sv))
			v, ok := got[k]
			if !ok {
				v = math.LegacyZeroDec()
			}
			if !v.Equal(w) {
				o.fail("R04", "total of trusting stake", "pool %d for service %d: recorded %s, delegators trusting it have %s", p, sv, v, w)
			}
		}
	}
	// what the chain keeps must belong to the plans the model knows
	_ = g.NextRewardsPlanID
}

func (o *obs) params() {
	m := o.m
	var a operatorstypes.QueryParamsResponse
	o.need("G01", "/milkyway.operators.v1.Query/Params", &operatorstypes.QueryParamsRequest{}, &a)
	if !a.Params.OperatorRegistrationFee.Equal(m.pOp) || a.Params.DeactivationTime != m.pDeact {
		o.fail("G01", "operators params", "%v, should be %s %s", a.Params, m.pOp, m.pDeact)
	}
	var b servicestypes.QueryParamsResponse
	o.need("G01", "/milkyway.services.v1.Query/Params", &servicestypes.QueryParamsRequest{}, &b)
	if !b.Params.ServiceRegistrationFee.Equal(m.pSvc) {
		o.fail("G01", "services params", "%v, should be %s", b.Params, m.pSvc)
	}
	var c restakingtypes.QueryParamsResponse
	o.need("G01", "/milkyway.restaking.v1.Query/Params", &restakingtypes.QueryParamsRequest{}, &c)
	if c.Params.UnbondingTime != m.pUnbond || strings.Join(c.Params.AllowedDenoms, ",") != strings.Join(m.pDenoms, ",") {
		o.fail("G01", "restaking params", "%v, should be %s %v", c.Params, m.pUnbond, m.pDenoms)
	}
	var d rewardstypes.QueryParamsResponse
	o.need("G01", "/milkyway.rewards.v1.Query/Params", &rewardstypes.QueryParamsRequest{}, &d)
	if !d.Params.RewardsPlanCreationFee.Equal(m.pPlan) {
		o.fail("G01", "rewards params", "%v, should be %s", d.Params, m.pPlan)
	}
	var e lvtypes.QueryParamsResponse
	o.need("G01", "/milkyway.liquidvesting.v1.Query/Params", &lvtypes.QueryParamsRequest{}, &e)
	p := e.Params
	j := func(x []string) string { return strings.Join(x, ",") }
	if !p.InsurancePercentage.Equal(m.pIns) || j(p.Minters) != j(m.pMinters) || j(p.Burners) != j(m.pBurners) || j(p.TrustedDelegates) != j(m.pTrusted) || j(p.AllowedChannels) != j(m.pChannels) {
		o.fail("G01", "liquidvesting params", "%v, should be %s %v %v %v %v", p, m.pIns, m.pMinters, m.pBurners, m.pTrusted, m.pChannels)
	}
}

func (o *obs) assets() {
	m := o.m
	str := func(d, t string, e uint32) string { return fmt.Sprintf("%s as %s e%d", d, t, e) }
	get := func(ticker string) []string {
		var r assetstypes.QueryAssetsResponse
		return o.listing("A01", "/milkyway.assets.v1.Query/Assets", func(p *query.PageRequest) proto.Message {
			return &assetstypes.QueryAssetsRequest{Ticker: ticker, Pagination: p}
		}, &r, func() (x []string, _ *query.PageResponse) {
			for _, a := range r.Assets {
				x = append(x, str(a.Denom, a.Ticker, a.Exponent))
			}
			return x, r.Pagination
		})
	}
	var want []string
	tick := map[string][]string{"AAA": nil, "BBB": nil, "CCC": nil, "MILK": nil, "NOPE": nil}
	for d, a := range m.assets {
		x := str(d, a.ticker, a.exponent)
		want = append(want, x)
		tick[a.ticker] = append(tick[a.ticker], x)
	}
	o.same("A01 G01", "assets", want, get(""))
	for _, t := range sortedKeys(tick) {
		o.same("A01", "assets of a ticker", tick[t], get(t))
	}
	for _, d := range []string{dAAA, dBBB, dBond, dCCC, lockedOf(dAAA)} {
		var r assetstypes.QueryAssetResponse
		err := o.q("/milkyway.assets.v1.Query/Asset", &assetstypes.QueryAssetRequest{Denom: d}, &r)
		a, ok := m.assets[d]
		if ok != (err == nil) || (ok && (r.Asset.Ticker != a.ticker || r.Asset.Exponent != a.exponent)) {
			o.fail("A01 Q01", "asset", "%s: %v %v, should be %v", d, r.Asset, err, a)
		}
	}
}

func distString(d mDistr) string {
	s := fmt.Sprintf("%s/%d", d.kind, d.weight)
	for _, k := range sortedKeys(d.weights) {
		s += fmt.Sprintf(",%d:%d", k, d.weights[k])
	}
	return s
}

func (o *obs) rdist(d rewardstypes.Distribution) string {
	out := mDistr{weight: d.Weight}
	var t rewardstypes.DistributionType
	if err := o.s.ireg.UnpackAny(d.Type, &t); err != nil {
		o.fail("Q01 W01", "plan", "distribution %v: %v", d, err)
	}
	switch v := t.(type) {
	case *rewardstypes.DistributionTypeBasic:
		out.kind = "basic"
	case *rewardstypes.DistributionTypeEgalitarian:
		out.kind = "egalitarian"
	case *rewardstypes.DistributionTypeWeighted:
		out.kind = "weighted"
		out.weights = map[uint32]uint32{}
		for _, w := range v.Weights {
			out.weights[w.DelegationTargetID] = w.Weight
		}
	default:
		out.kind = fmt.Sprintf("%T", v)
	}
	return distString(out)
}

func (o *obs) plans() {
	m := o.m
	str := func(p rewardstypes.RewardsPlan) string {
		return fmt.Sprintf("plan %d %q svc %d %s from %s to %s pools %s operators %s users %d at %s", p.ID, p.Description, p.ServiceID, p.AmountPerDay,
			ts(p.StartTime), ts(p.EndTime), o.rdist(p.PoolsDistribution), o.rdist(p.OperatorsDistribution), p.UsersDistribution.Weight, p.RewardsPool)
	}
	var r rewardstypes.QueryRewardsPlansResponse
	got := o.listing("W01", "/milkyway.rewards.v1.Query/RewardsPlans", func(p *query.PageRequest) proto.Message {
		return &rewardstypes.QueryRewardsPlansRequest{Pagination: p}
	}, &r, func() (x []string, _ *query.PageResponse) {
		for i := range r.RewardsPlans {
			x = append(x, str(r.RewardsPlans[i]))
		}
		return x, r.Pagination
	})
	var want []string
	for _, id := range sortedKeys(m.plans) {
		p := m.plans[id]
		want = append(want, fmt.Sprintf("plan %d %q svc %d %s from %s to %s pools %s operators %s users %d at %s", p.id, p.desc, p.svc, p.perDay,
			ts(p.start), ts(p.end), distString(p.pd), distString(p.od), p.ud.weight, planAddr(id)))
		var q rewardstypes.QueryRewardsPlanResponse
		o.need("W01", "/milkyway.rewards.v1.Query/RewardsPlan", &rewardstypes.QueryRewardsPlanRequest{PlanId: id}, &q)
		if str(q.RewardsPlan) != want[len(want)-1] {
			o.fail("W01 Q01", "plan", "%s, should be %s", str(q.RewardsPlan), want[len(want)-1])
		}
	}
	o.same("W01", "plans", want, got)
	o.missing("W01", "/milkyway.rewards.v1.Query/RewardsPlan", &rewardstypes.QueryRewardsPlanRequest{PlanId: m.nextPn}, &rewardstypes.QueryRewardsPlanResponse{})
}

func (o *obs) funds() {
	m := o.m
	sum := sdk.Coins{}
	var want, got []string
	for _, u := range sortedKeys(m.fund) {
		sum = sum.Add(m.fund[u]...)
		if !m.fund[u].IsZero() {
			want = append(want, u+" "+m.fund[u].String())
		}
	}
	var r lvtypes.QueryUserInsuranceFundsResponse
	got = o.listing("L02", "/milkyway.liquidvesting.v1.Query/UserInsuranceFunds", func(p *query.PageRequest) proto.Message {
		return &lvtypes.QueryUserInsuranceFundsRequest{Pagination: p}
	}, &r, func() (x []string, _ *query.PageResponse) {
		for _, f := range r.InsuranceFunds {
			x = append(x, f.UserAddress+" "+sdk.Coins(f.Balance).String())
		}
		return x, r.Pagination
	})
	var nz []string
	for _, g := range got {
		if !strings.HasSuffix(g, " ") {
			nz = append(nz, g)
		}
	}
	o.same("L02 L03", "insurance funds", want, nz)
	var tot lvtypes.QueryInsuranceFundResponse
	o.need("L02", "/milkyway.liquidvesting.v1.Query/InsuranceFund", &lvtypes.QueryInsuranceFundRequest{}, &tot)
	if !sdk.Coins(tot.Amount).IsAllGTE(sum) {
		o.fail("L02", "insurance fund not backed", "module holds %s, users' funds are %s", tot.Amount, sum)
	}
	for _, u := range users {
		var q lvtypes.QueryUserInsuranceFundResponse
		o.need("L02", "/milkyway.liquidvesting.v1.Query/UserInsuranceFund", &lvtypes.QueryUserInsuranceFundRequest{UserAddress: u.addr}, &q)
		need := m.required(m.lockedActive(u.addr).Add(m.lockedPending(u.addr)...))
		used := need.Min(m.fund[u.addr])
		if !sdk.Coins(q.Balance).Equal(m.fund[u.addr]) || !sdk.Coins(q.Used).Equal(used) {
			o.fail("Q01 L02", "insurance fund of user", "%s: balance %s used %s, should be %s and %s", u.name, q.Balance, q.Used, m.fund[u.addr], used)
		}
		var a lvtypes.QueryUserRestakableAssetsResponse
		o.need("L02", "/milkyway.liquidvesting.v1.Query/UserRestakableAssets", &lvtypes.QueryUserRestakableAssetsRequest{UserAddress: u.addr}, &a)
		if n := m.required(a.Amount); !m.fund[u.addr].IsAllGTE(n) {
			o.fail("Q01 L02", "restakable assets", "%s may restake %s with a fund of %s, which needs %s", u.name, a.Amount, m.fund[u.addr], n)
		}
	}
}

func decPools(p rewardstypes.DecPools) map[[2]string]math.LegacyDec {
	out := map[[2]string]math.LegacyDec{}
	for _, x := range p {
		for _, c := range x.DecCoins {
			k := [2]string{x.Denom, c.Denom}
			if v, ok := out[k]; ok {
				out[k] = v.Add(c.Amount)
			} else {
				out[k] = c.Amount
			}
		}
	}
	return out
}

var decUnit = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

func toScale(d math.LegacyDec) *big.Int { return new(big.Int).Mul(d.BigInt(), decUnit) }
func unscale(b *big.Int) string {
	f := new(big.Rat).SetFrac(b, accScale)
	return f.FloatString(6)
}

func (o *obs) within(what string, want map[[2]string]*accr, got map[[2]string]math.LegacyDec) {
	ks := map[string][2]string{}
	for k := range want {
		ks[k[0]+"|"+k[1]] = k
	}
	for k := range got {
		ks[k[0]+"|"+k[1]] = k
	}
	for _, i := range sortedKeys(ks) {
		k := ks[i]
		w := want[k]
		if w == nil {
			w = &accr{new(big.Int), new(big.Int)}
		}
		g := new(big.Int)
		if v, ok := got[k]; ok {
			g = toScale(v)
		}
		d := new(big.Int).Sub(g, w.e)
		if d.Abs(d).Cmp(new(big.Int).Add(w.tol, scaled(1, 17))) > 0 {
			tags := "W02 W03 Q01"
			o.fail(tags, "accrued rewards", "%s: %s for %s staked: %s, should be %s (+-%s)", what, k[1], k[0], unscale(g), unscale(w.e), unscale(w.tol))
		}
	}
}

func (o *obs) rewards() {
	m := o.m
	claims := sdk.DecCoins{}
	addAll := func(p map[[2]string]math.LegacyDec) {
		for k, v := range p {
			if v.IsPositive() {
				claims = claims.Add(sdk.NewDecCoinFromDec(k[1], v))
			}
		}
	}
	for _, t := range m.targets() {
		for _, u := range sortedKeys(m.del[t]) {
			var p rewardstypes.DecPools
			switch t.kind {
			case tPool:
				var r rewardstypes.QueryPoolDelegationRewardsResponse
				o.need("W03", "/milkyway.rewards.v1.Query/PoolDelegationRewards", &rewardstypes.QueryPoolDelegationRewardsRequest{DelegatorAddress: u, PoolId: t.id}, &r)
				p = r.Rewards
			case tOperator:
				var r rewardstypes.QueryOperatorDelegationRewardsResponse
				o.need("W03", "/milkyway.rewards.v1.Query/OperatorDelegationRewards", &rewardstypes.QueryOperatorDelegationRewardsRequest{DelegatorAddress: u, OperatorId: t.id}, &r)
				p = r.Rewards
			case tService:
				var r rewardstypes.QueryServiceDelegationRewardsResponse
				o.need("W03", "/milkyway.rewards.v1.Query/ServiceDelegationRewards", &rewardstypes.QueryServiceDelegationRewardsRequest{DelegatorAddress: u, ServiceId: t.id}, &r)
				p = r.Rewards
			}
			g := decPools(p)
			o.within(fmt.Sprintf("%s at %s", name(u), t), m.owed(t, u), g)
			addAll(g)
		}
		if t.kind == tOperator {
			var r rewardstypes.QueryOperatorCommissionResponse
			o.need("W03", "/milkyway.rewards.v1.Query/OperatorCommission", &rewardstypes.QueryOperatorCommissionRequest{OperatorId: t.id}, &r)
			g := decPools(r.Commission.Commissions)
			want := map[[2]string]*accr{}
			for k, a := range m.com {
				if k.op == t.id {
					want[[2]string{k.sd, k.rd}] = a
				}
			}
			o.within(fmt.Sprintf("commission of %s", t), want, g)
			addAll(g)
			// fractions left by payouts are known now
			for k, v := range g {
				kk := comKey{t.id, k[0], k[1]}
				if a := m.com[kk]; a != nil && a.tol.Cmp(accScale) >= 0 {
					m.com[kk] = &accr{toScale(v), scaled(1, 17)}
				}
			}
		}
	}
	for _, c := range claims {
		h, ok := m.bal[addrRewards][c.Denom]
		if !ok {
			h = exact(math.ZeroInt())
		}
		if math.LegacyNewDecFromInt(h.hi).Add(math.LegacyNewDecWithPrec(1, 9)).LT(c.Amount) {
			o.fail("W03", "rewards not covered", "pool holds %s%s, claims are %s", h, c.Denom, c.Amount)
		}
	}
	for _, u := range users {
		var r rewardstypes.QueryDelegatorTotalRewardsResponse
		o.need("W03", "/milkyway.rewards.v1.Query/DelegatorTotalRewards", &rewardstypes.QueryDelegatorTotalRewardsRequest{DelegatorAddress: u.addr}, &r)
		want := map[[2]string]*accr{}
		n := 0
		for _, t := range m.targets() {
			if m.del[t][u.addr] != nil {
				n++
			}
			for k, a := range m.owed(t, u.addr) {
				want[k] = want[k].plus(a.e, a.tol)
			}
		}
		if len(r.Rewards) != n {
			o.fail("Q01", "total rewards listing", "%s: %d entries for %d delegations", u.name, len(r.Rewards), n)
		}
		o.within("total of "+u.name, want, decPools(r.Total))
		var w rewardstypes.QueryDelegatorWithdrawAddressResponse
		o.need("W03", "/milkyway.rewards.v1.Query/DelegatorWithdrawAddress", &rewardstypes.QueryDelegatorWithdrawAddressRequest{DelegatorAddress: u.addr}, &w)
		want2 := u.addr
		if a, ok := m.waddr[u.addr]; ok {
			want2 = a
		}
		if w.WithdrawAddress != want2 {
			o.fail("W03", "withdraw address", "%s: %s, should be %s", u.name, name(w.WithdrawAddress), name(want2))
		}
	}
}
