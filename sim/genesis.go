package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	vestingtypes "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	crisistypes "github.com/cosmos/cosmos-sdk/x/crisis/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	milkyway "github.com/milkyway-labs/milkyway/v3/app"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	marketmaptypes "github.com/skip-mev/connect/v2/x/marketmap/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"
	feemarkettypes "github.com/skip-mev/feemarket/x/feemarket/types"
)

var (
	defGenOnce sync.Once
	defGen     map[string]json.RawMessage
)

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}
func must0(err error) {
	if err != nil {
		panic(err)
	}
}

func sec(n int64) time.Duration { return time.Duration(n) * time.Second }

func addrsOf(ix []int) []string {
	var o []string
	for _, i := range ix {
		o = append(o, users[i].addr)
	}
	return o
}

// buildGenesis produces the app state of the configured network.
func buildGenesis(c *Config, app *milkyway.MilkyWayApp) []byte {
	defGenOnce.Do(func() { defGen = milkyway.NewDefaultGenesisState(app.AppCodec(), app.ModuleBasics) })
	cdc := app.AppCodec()
	g := map[string]json.RawMessage{}
	for k, v := range defGen {
		g[k] = v
	}

	// accounts and balances
	auth := authtypes.DefaultGenesisState()
	bank := banktypes.DefaultGenesisState()
	supply := sdk.Coins{}
	add := func(a string, coins sdk.Coins) {
		if coins.IsZero() {
			return
		}
		for i := range bank.Balances {
			if bank.Balances[i].Address == a {
				bank.Balances[i].Coins = bank.Balances[i].Coins.Add(coins...)
				supply = supply.Add(coins...)
				return
			}
		}
		bank.Balances = append(bank.Balances, banktypes.Balance{Address: a, Coins: coins})
		supply = supply.Add(coins...)
	}
	var gaccs []authtypes.GenesisAccount
	for i, u := range users {
		b := authtypes.NewBaseAccount(u.raw, u.priv.PubKey(), uint64(i), 0)
		if v, ok := c.vesting(i); ok {
			w := &vestingtypes.BaseVestingAccount{BaseAccount: b, OriginalVesting: v.orig, EndTime: v.end}
			switch v.kind {
			case vestDelayed:
				gaccs = append(gaccs, vestingtypes.NewDelayedVestingAccountRaw(w))
			case vestContinuous:
				gaccs = append(gaccs, vestingtypes.NewContinuousVestingAccountRaw(w, v.start))
			default:
				w.EndTime = 0
				gaccs = append(gaccs, &vestingtypes.PermanentLockedAccount{BaseVestingAccount: w})
			}
		} else {
			gaccs = append(gaccs, b)
		}
		add(u.addr, c.userBalance(i))
	}
	for i, v := range valAccs {
		b := authtypes.NewBaseAccount(v.raw, v.priv.PubKey(), uint64(nUsers+i), 0)
		gaccs = append(gaccs, b)
		add(v.addr, c.userBalance(i))
	}
	auth.Accounts = must(authtypes.PackAccounts(gaccs))

	// staking
	st := stakingtypes.DefaultGenesisState()
	st.Params.BondDenom = dBond
	st.Params.UnbondingTime = sec(c.StakeUnbond)
	st.Params.HistoricalEntries = 5
	notBonded := math.ZeroInt()
	for i := range valAccs {
		tok := math.NewInt(c.ValPower[i]).MulRaw(1_000_000)
		pk := must(codectypes.NewAnyWithValue(must(cryptocodec.FromCmtPubKeyInterface(valKeys[i].PubKey()))))
		extra := math.ZeroInt()
		if i == 0 {
			for j, s := range c.Staked {
				if s > 0 {
					extra = extra.AddRaw(s)
					st.Delegations = append(st.Delegations, stakingtypes.NewDelegation(users[j].addr, valOper[0], math.LegacyNewDec(s)))
				}
			}
		}
		tot := tok.Add(extra)
		st.Validators = append(st.Validators, stakingtypes.Validator{
			OperatorAddress: valOper[i], ConsensusPubkey: pk, Status: stakingtypes.Unbonded,
			Tokens: tot, DelegatorShares: math.LegacyNewDecFromInt(tot),
			Description:       stakingtypes.Description{Moniker: valAccs[i].name},
			Commission:        stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
			MinSelfDelegation: math.OneInt(),
		})
		st.Delegations = append(st.Delegations, stakingtypes.NewDelegation(valAccs[i].addr, valOper[i], math.LegacyNewDecFromInt(tok)))
		notBonded = notBonded.Add(tot)
	}
	add(modAddr(stakingtypes.NotBondedPoolName), sdk.NewCoins(sdk.NewCoin(dBond, notBonded)))
	g[stakingtypes.ModuleName] = cdc.MustMarshalJSON(st)

	mint := minttypes.DefaultGenesisState()
	mint.Params.MintDenom = dBond
	mint.Minter.Inflation = math.LegacyZeroDec()
	mint.Params.InflationMax, mint.Params.InflationMin, mint.Params.InflationRateChange = math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()
	g[minttypes.ModuleName] = cdc.MustMarshalJSON(mint)

	var gov govv1.GenesisState
	cdc.MustUnmarshalJSON(g[govtypes.ModuleName], &gov)
	gov.Params.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin(dBond, 1000))
	gov.Params.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(dBond, 2000))
	d1, d2, d3 := sec(c.VotingSec), sec(c.ExpVotingSec), sec(c.DepositSec)
	gov.Params.VotingPeriod, gov.Params.ExpeditedVotingPeriod, gov.Params.MaxDepositPeriod = &d1, &d2, &d3
	g[govtypes.ModuleName] = cdc.MustMarshalJSON(&gov)

	cr := crisistypes.DefaultGenesisState()
	cr.ConstantFee = sdk.NewInt64Coin(dBond, 1000)
	g[crisistypes.ModuleName] = cdc.MustMarshalJSON(cr)

	sl := slashingtypes.DefaultGenesisState()
	sl.Params.SignedBlocksWindow = 1_000_000
	sl.Params.MinSignedPerWindow = math.LegacyNewDecWithPrec(1, 2)
	g[slashingtypes.ModuleName] = cdc.MustMarshalJSON(sl)

	fm := feemarkettypes.DefaultGenesisState()
	fm.Params.FeeDenom = dFee
	fm.Params.MinBaseGasPrice = math.LegacyMustNewDecFromStr(c.GasPrice)
	fm.State.BaseGasPrice = fm.Params.MinBaseGasPrice
	fm.Params.MaxBlockUtilization = 1_000_000_000_000
	g[feemarkettypes.ModuleName] = cdc.MustMarshalJSON(fm)

	// markets and prices
	var mm marketmaptypes.GenesisState
	cdc.MustUnmarshalJSON(g[marketmaptypes.ModuleName], &mm)
	mm.MarketMap.Markets = map[string]marketmaptypes.Market{}
	var or oracletypes.GenesisState
	or.CurrencyPairGenesis = nil
	for i, m := range c.Markets {
		cp := connecttypes.NewCurrencyPair(m.Base, "USD")
		mm.MarketMap.Markets[cp.String()] = marketmaptypes.Market{
			Ticker:          marketmaptypes.Ticker{CurrencyPair: cp, Decimals: m.Decimals, MinProviderCount: 1, Enabled: true},
			ProviderConfigs: []marketmaptypes.ProviderConfig{{Name: "p", OffChainTicker: m.Base}},
		}
		e := oracletypes.CurrencyPairGenesis{CurrencyPair: cp, Id: uint64(i)}
		if m.Price != "" {
			p, _ := math.NewIntFromString(m.Price)
			e.CurrencyPairPrice = &oracletypes.QuotePrice{Price: p, BlockTimestamp: genesisTime, BlockHeight: 0}
			e.Nonce = 1
		}
		or.CurrencyPairGenesis = append(or.CurrencyPairGenesis, e)
	}
	or.NextId = uint64(len(c.Markets))
	g[marketmaptypes.ModuleName] = cdc.MustMarshalJSON(&mm)
	g[oracletypes.ModuleName] = cdc.MustMarshalJSON(&or)

	// milkyway modules
	as := assetstypes.DefaultGenesis()
	for _, a := range c.Assets {
		as.Assets = append(as.Assets, assetstypes.NewAsset(a.Denom, a.Ticker, a.Exponent))
	}
	g[assetstypes.ModuleName] = cdc.MustMarshalJSON(as)

	rs := restakingtypes.DefaultGenesis()
	rs.Params.UnbondingTime = sec(c.UnbondSec)
	rs.Params.AllowedDenoms = c.AllowedDenom
	g[restakingtypes.ModuleName] = cdc.MustMarshalJSON(rs)

	op := operatorstypes.DefaultGenesis()
	op.Params.DeactivationTime = sec(c.DeactSec)
	op.Params.OperatorRegistrationFee = parseCoins(c.OpFee)
	g[operatorstypes.ModuleName] = cdc.MustMarshalJSON(op)

	sv := servicestypes.DefaultGenesis()
	sv.Params.ServiceRegistrationFee = parseCoins(c.SvcFee)
	g[servicestypes.ModuleName] = cdc.MustMarshalJSON(sv)

	rw := rewardstypes.DefaultGenesis()
	rw.Params.RewardsPlanCreationFee = parseCoins(c.PlanFee)
	g[rewardstypes.ModuleName] = cdc.MustMarshalJSON(rw)

	lv := lvtypes.DefaultGenesisState()
	lv.Params.InsurancePercentage = math.LegacyMustNewDecFromStr(c.Insurance)
	lv.Params.Minters, lv.Params.Burners, lv.Params.TrustedDelegates = addrsOf(c.Minters), addrsOf(c.Burners), addrsOf(c.Trusted)
	lv.Params.AllowedChannels = []string{"channel-1"}
	funds := map[string]sdk.Coins{}
	for _, f := range c.Funds {
		var ui int
		fmt.Sscan(f[0], &ui)
		amt, _ := math.NewIntFromString(f[2])
		funds[users[ui].addr] = funds[users[ui].addr].Add(sdk.NewCoin(f[1], amt))
	}
	for _, u := range users {
		if f := funds[u.addr]; !f.IsZero() {
			lv.UserInsuranceFunds = append(lv.UserInsuranceFunds, lvtypes.UserInsuranceFundEntry{UserAddress: u.addr, Balance: f})
			add(addrLV, f)
		}
	}
	g[lvtypes.ModuleName] = cdc.MustMarshalJSON(lv)

	bank.Supply = supply
	g[authtypes.ModuleName] = cdc.MustMarshalJSON(auth)
	g[banktypes.ModuleName] = cdc.MustMarshalJSON(bank)
	return must(json.Marshal(g))
}

func consensusParams() *cmtproto.ConsensusParams {
	return &cmtproto.ConsensusParams{
		Block:     &cmtproto.BlockParams{MaxBytes: 20_000_000, MaxGas: -1},
		Evidence:  &cmtproto.EvidenceParams{MaxAgeNumBlocks: 100000, MaxAgeDuration: 48 * time.Hour, MaxBytes: 1 << 20},
		Validator: &cmtproto.ValidatorParams{PubKeyTypes: []string{"ed25519"}},
		Abci:      &cmtproto.ABCIParams{VoteExtensionsEnableHeight: 2},
	}
}

func initChainReq(appState []byte, t time.Time, height int64, vals []abci.ValidatorUpdate) *abci.RequestInitChain {
	return &abci.RequestInitChain{
		Time: t, ChainId: chain0, ConsensusParams: consensusParams(), AppStateBytes: appState, InitialHeight: height, Validators: vals,
	}
}
