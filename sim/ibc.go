package main

// Cross-chain transfers: two channel ends on this chain, joined through the
// localhost client, with the scheduler as the relayer that loses, delays,
// duplicates, reorders and tampers with packets.

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
)

// mXfer is a packet that was sent.
type mXfer struct {
	ch, dst                string
	seq                    uint64
	sender, receiver, memo string
	path                   string // denomination as it travels
	amount                 math.Int
	timeout                uint64 // ns
	data                   []byte
	received, ackOK        bool
	ack                    []byte
	done                   bool // acknowledged or timed out
}

const (
	chanA = "channel-0"
	chanB = "channel-1"
)

func otherEnd(ch string) string {
	if ch == chanA {
		return chanB
	}
	return chanA
}

func xferKey(ch string, seq uint64) string { return fmt.Sprintf("%s/%08d", ch, seq) }

func escrowAddr(ch string) string { return transfertypes.GetEscrowAddress("transfer", ch).String() }

// denomOfPath is the denomination coins with a path have on this chain.
func denomOfPath(path string) string {
	if !strings.Contains(path, "transfer/channel-") {
		return path
	}
	h := sha256.Sum256([]byte(path))
	return "ibc/" + strings.ToUpper(hex.EncodeToString(h[:]))
}

func ibcTags(m sdk.Msg) string {
	switch v := m.(type) {
	case *transfertypes.MsgTransfer:
		return "L03" + lockTag(sdk.Coins{v.Token}, " L01")
	case *channeltypes.MsgRecvPacket, *channeltypes.MsgAcknowledgement, *channeltypes.MsgTimeout:
		return "L03 L02"
	case *channeltypes.MsgChannelOpenInit, *channeltypes.MsgChannelOpenTry, *channeltypes.MsgChannelOpenAck, *channeltypes.MsgChannelOpenConfirm:
		return "L03"
	}
	return ""
}

func (x *mx) refuseMaybe(tags, f string, a ...any) {
	panic(&refusal{tags: tags, why: fmt.Sprintf(f, a...), maybe: true})
}

func (x *mx) execIBC(msg sdk.Msg) bool {
	switch v := msg.(type) {
	case *channeltypes.MsgChannelOpenInit:
		x.handshake(0)
	case *channeltypes.MsgChannelOpenTry:
		x.handshake(1)
	case *channeltypes.MsgChannelOpenAck:
		x.handshake(2)
	case *channeltypes.MsgChannelOpenConfirm:
		x.handshake(3)
	case *transfertypes.MsgTransfer:
		x.transfer(v)
	case *channeltypes.MsgRecvPacket:
		x.recvPacket(v)
	case *channeltypes.MsgAcknowledgement:
		x.acknowledge(v)
	case *channeltypes.MsgTimeout:
		x.timeoutPacket(v)
	default:
		return false
	}
	return true
}

func (x *mx) handshake(stage int) {
	if x.chanStage != stage {
		x.refuse("L03", "handshake stage")
	}
	x.chanStage++
}

func (x *mx) pathOf(denom string) string {
	if p, ok := x.vouchers[denom]; ok {
		return p
	}
	return denom
}

func (x *mx) transfer(v *transfertypes.MsgTransfer) {
	if x.chanStage != 4 || (v.SourceChannel != chanA && v.SourceChannel != chanB) {
		x.refuse("L03", "no channel")
	}
	if !v.Token.IsValid() || !v.Token.IsPositive() {
		x.refuse("L03", "bad amount")
	}
	path := x.pathOf(v.Token.Denom)
	if strings.HasPrefix(v.Token.Denom, "ibc/") && path == v.Token.Denom {
		x.refuse("L03", "unknown voucher")
	}
	c := sdk.NewCoins(v.Token)
	tags := "L03" + lockTag(c, " L01")
	if lockTag(c, "x") != "" {
		x.refuse("L01", "locked tokens in a transfer")
	}
	if strings.HasPrefix(path, "transfer/"+v.SourceChannel+"/") {
		x.debit(v.Sender, c, tags) // vouchers are destroyed
	} else {
		x.debit(v.Sender, c, tags)
		x.credit(escrowAddr(v.SourceChannel), c, tags)
	}
	if v.TimeoutTimestamp <= uint64(x.now.UnixNano()) {
		x.refuse("L03", "times out at once")
	}
	n := uint64(1)
	for _, p := range x.xfers {
		if p.ch == v.SourceChannel {
			n++
		}
	}
	p := mXfer{ch: v.SourceChannel, dst: otherEnd(v.SourceChannel), seq: n, sender: v.Sender, receiver: v.Receiver, memo: v.Memo, path: path,
		amount: v.Token.Amount, timeout: v.TimeoutTimestamp,
		data: transfertypes.NewFungibleTokenPacketData(path, v.Token.Amount.String(), v.Sender, v.Receiver, v.Memo).GetBytes()}
	x.xfers[xferKey(p.ch, p.seq)] = p
}

// packet finds the packet a relayer talks about; it must be exactly the one that was sent.
func (x *mx) packet(q channeltypes.Packet) mXfer {
	p, ok := x.xfers[xferKey(q.SourceChannel, q.Sequence)]
	if !ok || q.SourcePort != "transfer" || q.DestinationPort != "transfer" || q.DestinationChannel != p.dst || q.TimeoutTimestamp != p.timeout || !bytes.Equal(q.Data, p.data) {
		if ok && p.done {
			x.refuseMaybe("L03", "packet %s is over", xferKey(p.ch, p.seq))
		}
		x.refuse("L03 L02", "no such packet %s", xferKey(q.SourceChannel, q.Sequence))
	}
	return p
}

type depositJSON struct {
	Depositor string
	Amount    string
}

// depositOf reads the insurance deposit a transfer carries.
func depositOf(memo string) (found bool, list []depositJSON, bad bool) {
	var m map[string]json.RawMessage
	if json.Unmarshal([]byte(memo), &m) != nil {
		return false, nil, false
	}
	raw, ok := m["liquidvesting"]
	if !ok {
		return false, nil, false
	}
	var d struct {
		Amounts []struct {
			Depositor string `json:"depositor"`
			Amount    string `json:"amount"`
		} `json:"amounts"`
	}
	if json.Unmarshal(raw, &d) != nil {
		return true, nil, true
	}
	for _, a := range d.Amounts {
		list = append(list, depositJSON{a.Depositor, a.Amount})
	}
	return true, list, false
}

// receive applies an arriving transfer; the error acknowledgement is a refusal.
func (x *mx) receive(p mXfer) {
	denom, back := "", false
	if pre := "transfer/" + p.ch + "/"; strings.HasPrefix(p.path, pre) {
		denom, back = denomOfPath(strings.TrimPrefix(p.path, pre)), true
	} else {
		denom = denomOfPath("transfer/" + p.dst + "/" + p.path)
	}
	coin := sdk.NewCoin(denom, p.amount)
	found, list, bad := depositOf(p.memo)
	if found {
		switch {
		case bad:
			x.refuse("L03", "malformed deposit")
		case !has(x.pTrusted, p.sender):
			x.refuse("L03", "%s is not a trusted sender", name(p.sender))
		case !has(x.pChannels, p.dst):
			x.refuse("L03", "channel %s is not allowed", p.dst)
		case p.receiver != addrLV:
			x.refuse("L03", "deposit sent to %s", name(p.receiver))
		}
		sum := math.ZeroInt()
		for _, d := range list {
			a, ok := math.NewIntFromString(d.Amount)
			if !ok || a.IsNegative() {
				x.refuse("L03", "bad amount %q", d.Amount)
			}
			x.needAddr("L03", d.Depositor)
			sum = sum.Add(a)
		}
		if !sum.Equal(p.amount) {
			x.refuse("L03", "deposits add up to %s of %s", sum, p.amount)
		}
		for _, d := range list {
			a, _ := math.NewIntFromString(d.Amount)
			x.fund[d.Depositor] = x.fund[d.Depositor].Add(sdk.NewCoins(sdk.NewCoin(denom, a))...)
		}
		x.m.stat("insurance deposits")
	}
	if _, err := sdk.AccAddressFromBech32(p.receiver); err != nil {
		x.refuse("L03", "bad receiver")
	}
	if blocked(p.receiver) {
		x.refuse("L03", "blocked receiver")
	}
	tags := "L03 L02"
	x.m.trackAddr(p.receiver, "")
	if back {
		x.send(escrowAddr(p.dst), p.receiver, sdk.NewCoins(coin), tags)
	} else {
		x.vouchers[denom] = "transfer/" + p.dst + "/" + p.path
		x.credit(p.receiver, sdk.NewCoins(coin), tags)
	}
}

func (x *mx) recvPacket(v *channeltypes.MsgRecvPacket) {
	p := x.packet(v.Packet)
	if p.received || p.done {
		x.refuseMaybe("L03", "packet %s was already handled", xferKey(p.ch, p.seq))
	}
	if p.timeout <= uint64(x.now.UnixNano()) {
		x.refuse("L03", "packet %s has timed out", xferKey(p.ch, p.seq))
	}
	if v.Packet.SourceChannel == v.Packet.DestinationChannel {
		x.refuse("L03", "wrong channel")
	}
	if !bytes.Equal(v.ProofCommitment, sentinel) {
		x.refuse("L03", "proof")
	}
	// what really happened
	ack := x.m.writtenAck(p)
	save := x.mstate
	x.mstate = save.copy()
	ref := x.run(func() { x.receive(p) })
	okAck := bytes.Equal(ack, successAck)
	if x.real {
		switch {
		case ref == nil && !okAck:
			x.m.s.fail("L03 L02", "deposit or transfer rejected", "packet %s from %s to %s, memo %s is within the rules but is acknowledged with %s", xferKey(p.ch, p.seq), name(p.sender), name(p.receiver), named(p.memo), ack)
		case ref != nil && okAck:
			x.m.s.fail("L03 L02", "deposit or transfer accepted", "packet %s from %s, memo %s, is accepted although %s", xferKey(p.ch, p.seq), name(p.sender), named(p.memo), ref.why)
		}
	}
	if ref != nil {
		x.mstate = save
		x.m.mstate = save
		x.m.stat("packets refused with an error acknowledgement")
	} else {
		x.m.mstate = x.mstate
		x.m.stat("packets received")
	}
	p.received, p.ack, p.ackOK = true, ack, okAck
	x.xfers[xferKey(p.ch, p.seq)] = p
}

var successAck = channeltypes.NewResultAcknowledgement([]byte{1}).Acknowledgement()

var sentinel = []byte{0x01}

func (m *model) writtenAck(p mXfer) []byte {
	if m.cur == nil {
		return nil
	}
	for _, e := range m.cur.Events {
		if e.Type != "write_acknowledgement" {
			continue
		}
		at := map[string]string{}
		for _, a := range e.Attributes {
			at[a.Key] = a.Value
		}
		if at["packet_sequence"] == fmt.Sprint(p.seq) && at["packet_src_channel"] == p.ch {
			b, _ := hex.DecodeString(at["packet_ack_hex"])
			return b
		}
	}
	return nil
}

func (x *mx) refundXfer(p mXfer) {
	c := sdk.NewCoins(sdk.NewCoin(denomOfPath(p.path), p.amount))
	if strings.HasPrefix(p.path, "transfer/"+p.ch+"/") {
		x.credit(p.sender, c, "L03")
	} else {
		x.send(escrowAddr(p.ch), p.sender, c, "L03")
	}
	x.m.stat("transfers refunded")
}

func (x *mx) acknowledge(v *channeltypes.MsgAcknowledgement) {
	p := x.packet(v.Packet)
	if p.done {
		x.refuseMaybe("L03", "packet %s is over", xferKey(p.ch, p.seq))
	}
	if !p.received || !bytes.Equal(v.Acknowledgement, p.ack) {
		x.refuse("L03", "no such acknowledgement of %s", xferKey(p.ch, p.seq))
	}
	if !p.ackOK {
		x.refundXfer(p)
	}
	p.done = true
	x.xfers[xferKey(p.ch, p.seq)] = p
}

func (x *mx) timeoutPacket(v *channeltypes.MsgTimeout) {
	p := x.packet(v.Packet)
	if p.timeout > uint64(x.now.UnixNano()) {
		if p.done {
			x.refuseMaybe("L03", "packet is over")
		}
		x.refuse("L03", "packet %s has not timed out", xferKey(p.ch, p.seq))
	}
	if p.done {
		x.refuseMaybe("L03", "packet %s is over", xferKey(p.ch, p.seq))
	}
	if p.received {
		x.refuse("L03", "packet %s was received", xferKey(p.ch, p.seq))
	}
	x.refundXfer(p)
	x.m.stat("transfers timed out")
	p.done = true
	x.xfers[xferKey(p.ch, p.seq)] = p
}
