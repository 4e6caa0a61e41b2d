package main

// The cast: accounts with fixed keys, the denominations, well-known addresses.

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/cometbft/cometbft/crypto/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/address"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	appparams "github.com/milkyway-labs/milkyway/v3/app/params"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

const (
	dBond  = "umilk"
	dFee   = "ufee"
	dAAA   = "uaaa"
	dBBB   = "ubbb"
	dRwd   = "urwd"
	dCCC   = "uccc"
	dAux   = "aaux" // sorts before the locked denominations, is never restaked
	chain0 = "sim-1"
)

const (
	nUsers = 8
	nVals  = 4
)

type account struct {
	name string
	priv *secp256k1.PrivKey
	addr string
	raw  []byte
}

var (
	users    []*account
	valAccs  []*account
	accs     = map[string]*account{} // by bech32
	accNames = map[string]string{}
	valKeys  []ed25519.PrivKey
	valOper  []string
	consAddr [][]byte

	addrGov, addrLV, addrRewards, addrDistr string
)

func initWorld() {
	appparams.SetAddressPrefixes()
	mk := func(n string) *account {
		p := secp256k1.GenPrivKeyFromSecret([]byte("verif/" + n))
		a := &account{name: n, priv: p, raw: p.PubKey().Address().Bytes()}
		a.addr = sdk.AccAddress(a.raw).String()
		accs[a.addr] = a
		accNames[a.addr] = n
		return a
	}
	for i := 0; i < nUsers; i++ {
		users = append(users, mk(fmt.Sprintf("u%d", i)))
	}
	for i := 0; i < nVals; i++ {
		a := mk(fmt.Sprintf("v%d", i))
		valAccs = append(valAccs, a)
		valOper = append(valOper, sdk.ValAddress(a.raw).String())
		k := ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprintf("verif/cons%d", i)))
		valKeys = append(valKeys, k)
		consAddr = append(consAddr, k.PubKey().Address().Bytes())
	}
	addrGov = modAddr(govtypes.ModuleName)
	addrLV = modAddr(lvtypes.ModuleName)
	addrRewards = modAddr(rewardstypes.RewardsPoolName)
	addrDistr = modAddr(distrtypes.ModuleName)
	accNames[addrGov], accNames[addrLV], accNames[addrRewards], accNames[addrDistr] = "gov", "lvmodule", "rewardspool", "distribution"
}

func modAddr(n string) string { return authtypes.NewModuleAddress(n).String() }

// Addresses of the objects users restake into, derived here independently from
// the documented scheme: the module address of "<module>/<kind>-<id>".
func targetAddr(kind tkind, id uint32) string {
	switch kind {
	case tPool:
		return poolstypes.GetPoolAddress(id).String()
	case tOperator:
		return operatorstypes.GetOperatorAddress(id).String()
	default:
		return servicestypes.GetServiceAddress(id).String()
	}
}

func planAddr(id uint64) string {
	return sdk.AccAddress(address.Module(rewardstypes.ModuleName, []byte(fmt.Sprintf("rewards-plan-%d", id)))).String()
}

func lockedOf(d string) string { return "locked/" + d }
func isLocked(d string) bool   { return strings.HasPrefix(d, "locked/") }
func nativeOf(d string) string { return strings.TrimPrefix(d, "locked/") }
func name(a string) string {
	if n, ok := accNames[a]; ok {
		return n
	}
	return a
}

func ibcDenom(port, ch, base string) string {
	h := sha256.Sum256([]byte(port + "/" + ch + "/" + base))
	return "ibc/" + strings.ToUpper(hex.EncodeToString(h[:]))
}

var genesisTime = time.Date(2025, 1, 6, 12, 0, 0, 0, time.UTC)

type tkind int

const (
	tPool tkind = iota + 1
	tOperator
	tService
)

func (k tkind) String() string { return [...]string{"?", "pool", "operator", "service"}[k] }

type target struct {
	kind tkind
	id   uint32
}

func (t target) String() string { return fmt.Sprintf("%s-%d", t.kind, t.id) }
