package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"cosmossdk.io/math"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
)

// Step is one scheduler decision. A run is a Config and a list of Steps.
type Step struct {
	Kind   string   `json:"kind"`         // block | export | tamper
	DT     int64    `json:"dt,omitempty"` // milliseconds since the previous block
	Prop   int      `json:"prop,omitempty"`
	Txs    []TxSpec `json:"txs,omitempty"`
	Feeds  []Feed   `json:"feeds,omitempty"` // per validator
	Absent []int    `json:"absent,omitempty"`
	Faults []Fault  `json:"faults,omitempty"`
	Noise  uint64   `json:"noise,omitempty"`
	Tamper []string `json:"tamper,omitempty"` // edits to an exported state file
	Load   int      `json:"load,omitempty"`   // amount of query/simulate/check load on the nodes
}

type Feed struct {
	Mode   string            `json:"mode,omitempty"`
	Prices map[string]string `json:"prices,omitempty"`
}

type Fault struct {
	Node int    `json:"node"`
	Kind string `json:"kind"`
	N    int    `json:"n,omitempty"`
	Lost int    `json:"lost,omitempty"` // unsynced writes lost at a crash (-1 all)
}

type TxSpec struct {
	ID       int               `json:"id"`
	Signers  []string          `json:"signers"`
	Msgs     []json.RawMessage `json:"msgs,omitempty"`
	Gas      uint64            `json:"gas,omitempty"`
	Fee      string            `json:"fee,omitempty"`
	Granter  string            `json:"granter,omitempty"`
	SeqOff   int64             `json:"seq_off,omitempty"`
	Mode     string            `json:"mode,omitempty"` // badsig, wrongkey, wrongchain
	DupOf    int               `json:"dup_of,omitempty"`
	Timeout  uint64            `json:"timeout,omitempty"` // last height at which it may be executed
	Memo     int               `json:"memo,omitempty"`    // length of the memo
	Spoilt   string            `json:"spoilt,omitempty"`  // what is wrong with the message SpoiltAt
	SpoiltAt int               `json:"spoilt_at,omitempty"`
	msgs     []sdk.Msg
}

// builtTx is a transaction as it goes over the wire.
type builtTx struct {
	spec    *TxSpec
	bytes   []byte
	seqs    []uint64
	signers []*account
	gas     uint64
	fee     sdk.Coins
	granter string
	msgs    []sdk.Msg
	valid   bool // signatures are right for the seqs above
}

const defaultGas = 60_000_000

func accByName(n string) *account {
	for _, a := range accs {
		if a.name == n {
			return a
		}
	}
	return nil
}

func (s *Sim) encodeMsg(m sdk.Msg) json.RawMessage {
	return must(s.cdc.MarshalInterfaceJSON(m))
}

func (s *Sim) decodeMsgs(t *TxSpec) error {
	if t.msgs != nil {
		return nil
	}
	for _, raw := range t.Msgs {
		var m sdk.Msg
		if err := s.cdc.UnmarshalInterfaceJSON(raw, &m); err != nil {
			return err
		}
		t.msgs = append(t.msgs, m)
	}
	return nil
}

// build signs a transaction. seq gives the sequence to use for each signer.
func (s *Sim) build(t *TxSpec, seq func(a string) uint64, gasPrice string) (*builtTx, error) {
	if t.DupOf != 0 {
		o := s.sent[t.DupOf]
		if o == nil {
			return nil, fmt.Errorf("no tx %d", t.DupOf)
		}
		return o, nil
	}
	if err := s.decodeMsgs(t); err != nil {
		return nil, err
	}
	b := &builtTx{spec: t, gas: t.Gas, msgs: t.msgs, valid: t.Mode == ""}
	if b.gas == 0 {
		b.gas = defaultGas
	}
	if t.Fee == "" {
		p := math.LegacyMustNewDecFromStr(gasPrice).MulInt64(int64(b.gas)).Ceil().TruncateInt().AddRaw(7)
		b.fee = sdk.NewCoins(sdk.NewCoin(dFee, p))
	} else if t.Fee != "none" {
		b.fee = parseCoins(t.Fee)
	}
	body := &txtypes.TxBody{TimeoutHeight: t.Timeout, Memo: strings.Repeat("m", t.Memo)}
	if t.Mode == "option" {
		body.ExtensionOptions = append(body.ExtensionOptions, must(codectypes.NewAnyWithValue(t.msgs[0])))
	}
	for _, m := range t.msgs {
		body.Messages = append(body.Messages, must(codectypes.NewAnyWithValue(m)))
	}
	ai := &txtypes.AuthInfo{Fee: &txtypes.Fee{Amount: b.fee, GasLimit: b.gas}}
	if t.Granter != "" {
		g := accByName(t.Granter)
		b.granter = g.addr
		ai.Fee.Granter = g.addr
	}
	for _, n := range t.Signers {
		a := accByName(n)
		if a == nil {
			return nil, fmt.Errorf("no account %q", n)
		}
		b.signers = append(b.signers, a)
		q := uint64(int64(seq(a.addr)) + t.SeqOff)
		b.seqs = append(b.seqs, q)
		ai.SignerInfos = append(ai.SignerInfos, &txtypes.SignerInfo{
			PublicKey: must(codectypes.NewAnyWithValue(a.priv.PubKey())), Sequence: q,
			ModeInfo: &txtypes.ModeInfo{Sum: &txtypes.ModeInfo_Single_{Single: &txtypes.ModeInfo_Single{Mode: signing.SignMode_SIGN_MODE_DIRECT}}},
		})
	}
	bodyBz, aiBz := must(body.Marshal()), must(ai.Marshal())
	raw := &txtypes.TxRaw{BodyBytes: bodyBz, AuthInfoBytes: aiBz}
	for i, a := range b.signers {
		cid := chain0
		if t.Mode == "wrongchain" {
			cid = "other-1"
		}
		sd := &txtypes.SignDoc{BodyBytes: bodyBz, AuthInfoBytes: aiBz, ChainId: cid, AccountNumber: s.accNum[a.addr]}
		k := a.priv
		if t.Mode == "wrongkey" {
			k = users[(i+3)%nUsers].priv
			if k == a.priv {
				k = valAccs[0].priv
			}
		}
		sig := must(k.Sign(must(sd.Marshal())))
		if t.Mode == "badsig" {
			sig[7] ^= 0x20
		}
		raw.Signatures = append(raw.Signatures, sig)
	}
	b.bytes = must(raw.Marshal())
	return b, nil
}

func (t *TxSpec) brief() string {
	var parts []string
	for _, r := range t.Msgs {
		var m map[string]any
		_ = json.Unmarshal(r, &m)
		ty, _ := m["@type"].(string)
		ty = ty[strings.LastIndex(ty, ".")+1:]
		keys := make([]string, 0, len(m))
		for k := range m {
			if k != "@type" {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		var fs []string
		for _, k := range keys {
			v, _ := json.Marshal(m[k])
			x := string(v)
			for a, n := range accNames {
				x = strings.ReplaceAll(x, a, n)
			}
			fs = append(fs, k+"="+clip(x, 160))
		}
		parts = append(parts, ty+"{"+strings.Join(fs, " ")+"}")
	}
	d := ""
	if t.DupOf != 0 {
		d = fmt.Sprintf(" dup-of-%d", t.DupOf)
	}
	return fmt.Sprintf("#%d %s%s %s %s", t.ID, strings.Join(t.Signers, "+"), d, t.Mode, strings.Join(parts, "; "))
}
