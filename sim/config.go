package main

import (
	"fmt"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// NodeCfg is what may differ between nodes of the same network.
type NodeCfg struct {
	Pruning    string `json:"pruning"` // default | nothing
	IavlCache  int    `json:"iavl_cache"`
	NoFastNode bool   `json:"no_fast_node"`
	InterBlock bool   `json:"inter_block"`
	InvCheck   uint   `json:"inv_check"`
	MinGas     string `json:"min_gas"`
	SkewMs     int64  `json:"skew_ms"`
	Rt         uint64 `json:"rt"`
	LateJoin   bool   `json:"late_join"`
}

type AssetCfg struct {
	Denom    string `json:"denom"`
	Ticker   string `json:"ticker"`
	Exponent uint32 `json:"exponent"`
}

type MarketCfg struct {
	Base     string `json:"base"`
	Decimals uint64 `json:"decimals"`
	Price    string `json:"price"` // integer, "" = no price yet
}

// Config is the complete description of a network; together with the steps it
// determines a run.
type Config struct {
	Seed     uint64    `json:"seed"`
	Profile  string    `json:"profile"`
	Steps    int       `json:"steps"`
	Nodes    []NodeCfg `json:"nodes"`
	ValPower []int64   `json:"val_power"` // in power units

	UnbondSec    int64       `json:"unbond_sec"`
	DeactSec     int64       `json:"deact_sec"`
	StakeUnbond  int64       `json:"stake_unbond_sec"`
	VotingSec    int64       `json:"voting_sec"`
	ExpVotingSec int64       `json:"exp_voting_sec"`
	DepositSec   int64       `json:"deposit_sec"`
	AllowedDenom []string    `json:"allowed_denoms"`
	Insurance    string      `json:"insurance"`
	OpFee        string      `json:"op_fee"`
	SvcFee       string      `json:"svc_fee"`
	PlanFee      string      `json:"plan_fee"`
	Assets       []AssetCfg  `json:"assets"`
	Markets      []MarketCfg `json:"markets"`
	Minters      []int       `json:"minters"`
	Burners      []int       `json:"burners"`
	Trusted      []int       `json:"trusted"`
	Funds        [][3]string `json:"funds"`  // user index, denom, amount
	Staked       []int64     `json:"staked"` // initial staking delegation of user i to validator 0
	IBC          bool        `json:"ibc"`
	Vest         [][5]int64  `json:"vest,omitempty"` // user, kind, end (s after the start), percent of the uaaa and ubbb that vest
	GasPrice     string      `json:"gas_price"`
	Big          bool        `json:"big"` // balances near 1e30
}

func (c *Config) userBalance(i int) sdk.Coins {
	base := math.NewInt(1_000_000_000_000)
	if c.Big {
		base = math.NewIntWithDecimal(1, 30)
	}
	return sdk.NewCoins(
		sdk.NewCoin(dBond, math.NewInt(1_000_000_000_000)),
		sdk.NewCoin(dFee, math.NewIntWithDecimal(1, 15)),
		sdk.NewCoin(dAAA, base), sdk.NewCoin(dBBB, base), sdk.NewCoin(dRwd, base), sdk.NewCoin(dCCC, base), sdk.NewCoin(dAux, base),
	)
}

// vesting is the coins of the user that vest over time.
func (c *Config) vesting(i int) (mVest, bool) {
	for _, w := range c.Vest {
		if w[0] != int64(i) {
			continue
		}
		b := c.userBalance(i)
		v := mVest{kind: int(w[1]), start: genesisTime.Unix(), end: genesisTime.Unix() + w[2], orig: sdk.NewCoins(
			sdk.NewCoin(dAAA, b.AmountOf(dAAA).MulRaw(w[3]).QuoRaw(100)), sdk.NewCoin(dBBB, b.AmountOf(dBBB).MulRaw(w[4]).QuoRaw(100)))}
		return v, !v.orig.IsZero()
	}
	return mVest{}, false
}

func parseCoins(s string) sdk.Coins {
	if s == "" {
		return sdk.Coins{}
	}
	c, err := sdk.ParseCoinsNormalized(s)
	if err != nil {
		panic(fmt.Sprintf("bad coins %q: %v", s, err))
	}
	return c
}

func genConfig(seed uint64, profile string, prof Profile) *Config {
	r := newRng(seed, strHash(profile), 1)
	c := &Config{Seed: seed, Profile: profile}
	c.Steps = prof.Steps
	n := 1
	if prof.Nodes > 1 {
		n = r.between(2, prof.Nodes)
	}
	for i := 0; i < n; i++ {
		nc := NodeCfg{Pruning: "default", Rt: r.u64(), SkewMs: r.i64(4000) - 2000}
		if n > 1 {
			nc.Pruning = pick(r, []string{"default", "nothing"})
			nc.IavlCache = pick(r, []int{0, 10, 1000, 781250})
			nc.NoFastNode = r.p(0.3)
			nc.InterBlock = r.p(0.4)
			if r.p(0.4) {
				nc.InvCheck = uint(r.between(1, 4))
			}
			if r.p(0.3) {
				nc.SkewMs = r.i64(864000000) - 432000000
			}
			nc.LateJoin = i > 0 && r.p(0.2)
		} else if r.p(0.3) {
			nc.InvCheck = uint(r.between(1, 4))
		}
		nc.MinGas = pick(r, []string{"", "0.001ufee", "0.01ufee"})
		c.Nodes = append(c.Nodes, nc)
	}
	switch r.n(4) {
	case 0:
		c.ValPower = []int64{100, 100, 100, 100}
	case 1:
		c.ValPower = []int64{int64(r.between(50, 200)), int64(r.between(50, 200)), int64(r.between(50, 200)), int64(r.between(50, 200))}
	case 2:
		c.ValPower = []int64{10, 20, 30, 40}
	default:
		c.ValPower = []int64{34, 33, 33, 1}
	}
	c.UnbondSec = pick(r, []int64{1, 20, 60, 300, 3600, 86400, 259200})
	c.DeactSec = pick(r, []int64{1, 20, 60, 300, 86400})
	c.StakeUnbond = pick(r, []int64{60, 600, 86400})
	c.VotingSec = pick(r, []int64{20, 60, 120})
	c.ExpVotingSec = c.VotingSec / 2
	c.DepositSec = 600
	switch r.n(4) {
	case 0:
		c.AllowedDenom = []string{dAAA, dBBB, lockedOf(dAAA)}
	case 1:
		c.AllowedDenom = []string{dBond, dAAA, lockedOf(dAAA), lockedOf(dBBB)}
	}
	c.Insurance = pick(r, []string{"2", "0.5", "10", "33.3", "1.7", "50"})
	c.OpFee = pick(r, []string{"", "1000umilk", "1000umilk,5uaaa"})
	c.SvcFee = pick(r, []string{"", "2000umilk", "700umilk,5uaaa"})
	c.PlanFee = pick(r, []string{"", "500umilk", "300umilk,7ubbb"})
	c.Markets = []MarketCfg{
		{"AAA", pick(r, []uint64{1, 6, 8}), "3"}, {"BBB", pick(r, []uint64{6, 8, 18}), "2"},
		{"MILK", 8, "1"}, {"CCC", 8, ""},
	}
	for i := range c.Markets {
		if c.Markets[i].Price != "" {
			p := math.NewInt(int64(r.between(1, 9999)))
			d := int64(c.Markets[i].Decimals)
			if d >= 2 {
				p = p.Mul(math.NewIntWithDecimal(1, int(d)-2))
			}
			if r.p(0.1) {
				c.Markets[i].Price = ""
			} else {
				c.Markets[i].Price = p.String()
			}
		}
	}
	cand := []AssetCfg{{dAAA, "AAA", 6}, {dBBB, "BBB", pick(r, []uint32{0, 2, 6, 18})}, {dBond, "MILK", 6}, {lockedOf(dAAA), "AAA", 6}, {lockedOf(dBBB), "BBB", 6}}
	for _, a := range cand {
		if r.p(0.85) {
			c.Assets = append(c.Assets, a)
		}
	}
	c.Minters, c.Burners, c.Trusted = []int{0}, []int{1}, []int{0, 2}
	if r.p(0.3) {
		c.Minters = append(c.Minters, 3)
		c.Burners = append(c.Burners, 0)
	}
	for i := 0; i < nUsers; i++ {
		for _, d := range []string{dAAA, dBBB} {
			if r.p(0.5) {
				c.Funds = append(c.Funds, [3]string{fmt.Sprint(i), d, fmt.Sprint(pick(r, []int{1, 100, 5000, 1000000, 100000000}))})
			}
		}
		c.Staked = append(c.Staked, pick(r, []int64{0, 0, 999_999, 1_000_000, 1_000_001, 5_000_000, 1}))
	}
	c.IBC = prof.IBC || r.p(0.2)
	c.GasPrice = pick(r, []string{"0.001", "0.01", "0.02"})
	c.Big = r.p(0.08)
	if r.p(0.35) {
		for i := 0; i < nUsers; i++ {
			if r.p(0.3) {
				c.Vest = append(c.Vest, [5]int64{int64(i), int64(r.n(3)), pick(r, []int64{60, 5000, 100_000, 2_000_000, 30_000_000}), r.i64(101), r.i64(101)})
			}
		}
	}
	return c
}
