//go:build go1.21

package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// TxSpec describes a transaction which is built when the schedule gets there, out of what
// its author can know then.
type TxSpec struct {
	Msgs    []MsgSpec    `json:"m,omitempty"`
	Signers []SignerSpec `json:"s,omitempty"`
	Fee     []CoinSpec   `json:"f,omitempty"`
	NoFee   bool         `json:"nofee,omitempty"`
	Payer   string       `json:"payer,omitempty"`
	Granter string       `json:"granter,omitempty"`
	Gas     uint64       `json:"gas,omitempty"`
	Memo    string       `json:"memo,omitempty"`
	Timeout int64        `json:"timeout,omitempty"`  // absolute height
	RelTime int64        `json:"rtimeout,omitempty"` // height relative to the next block +1000, 0: none
	Mut     []Mut        `json:"mut,omitempty"`
	Raw     []byte       `json:"raw,omitempty"`
	Ext     []string     `json:"ext,omitempty"` // extension options
}

// MsgSpec describes a message.
type MsgSpec struct {
	K     string     `json:"k"`
	A     string     `json:"a,omitempty"`
	B     string     `json:"b,omitempty"`
	C     string     `json:"c,omitempty"`
	Coins []CoinSpec `json:"coins,omitempty"`
	Pub   int        `json:"pub,omitempty"` // key +1
	PubT  string     `json:"pubt,omitempty"`
	URL   string     `json:"url,omitempty"`
	Raw   []byte     `json:"raw,omitempty"`
}

// SignerSpec describes a signer.
type SignerSpec struct {
	Key    int    `json:"key"`
	SeqOff int64  `json:"so,omitempty"`
	AccOff int64  `json:"ao,omitempty"`
	Chain  string `json:"chain,omitempty"`
	With   int    `json:"with,omitempty"` // key which signs +1, 0: the right one
	Pub    string `json:"pub,omitempty"`
	Sig    string `json:"sig,omitempty"`
	Mode   int    `json:"mode,omitempty"`
}

// Mut is a change of the bytes of a transaction made after it was signed.
type Mut struct {
	Where string `json:"w"` // body, auth, sig, raw
	Kind  string `json:"k"` // flip, cut, dup, ins, swap, append, drop, copysig
	Pos   int    `json:"p,omitempty"`
	Val   []byte `json:"v,omitempty"`
}

func valKey(i int) []byte {
	s := sha256.Sum256([]byte(fmt.Sprintf("validator %d", i)))
	return ed25519.NewKeyFromSeed(s[:]).Public().(ed25519.PublicKey)
}

const (
	cosmosPubURL = "/cosmos.crypto.secp256k1.PubKey"
	tmosPubURL   = "/tmos.x.authn.crypto.v1alpha1.PubKey"
)

func pubBytes(pub []byte) []byte {
	if pub == nil {
		return nil
	}
	return append([]byte{0x0a, byte(len(pub))}, pub...)
}

func pubAny(pub []byte, t string) *anypb.Any {
	switch t {
	case "", "cosmos":
		return &anypb.Any{TypeUrl: cosmosPubURL, Value: pubBytes(pub)}
	case "tmos":
		return &anypb.Any{TypeUrl: tmosPubURL, Value: pubBytes(pub)}
	case "short":
		return &anypb.Any{TypeUrl: cosmosPubURL, Value: pubBytes(pub[:20])}
	case "long":
		return &anypb.Any{TypeUrl: cosmosPubURL, Value: pubBytes(append(append([]byte{}, pub...), 1, 2))}
	case "empty":
		return &anypb.Any{TypeUrl: cosmosPubURL}
	case "zero":
		return &anypb.Any{TypeUrl: cosmosPubURL, Value: pubBytes(make([]byte, 33))}
	case "badtype":
		return &anypb.Any{TypeUrl: "/tmos.x.bank.v1alpha1.Balance", Value: pubBytes(pub)}
	case "unknowntype":
		return &anypb.Any{TypeUrl: "/no.such.Type", Value: pubBytes(pub)}
	case "multisig":
		return &anypb.Any{TypeUrl: "/cosmos.crypto.multisig.LegacyAminoPubKey", Value: pubBytes(pub)}
	case "garbage":
		return &anypb.Any{TypeUrl: cosmosPubURL, Value: []byte{0xff, 0xff, 0x01}}
	case "unknownfield":
		return &anypb.Any{TypeUrl: cosmosPubURL, Value: append(pubBytes(pub), 0x78, 0x01)}
	}
	return nil
}

func mustAny(m proto.Message) (string, []byte) {
	b, err := detOpts.Marshal(m)
	if err != nil {
		panic(err)
	}
	return "/" + string(m.ProtoReflect().Descriptor().FullName()), b
}

// msgAny builds a message.
func msgAny(m MsgSpec) (url string, val []byte) {
	a, b := name(m.A), name(m.B)
	switch m.K {
	case "send", "cosmossend":
		url, val = mustAny(&bankv1.MsgSendCoins{FromAddress: a, ToAddress: b, Amount: toCoins(m.Coins)})
		if m.K == "cosmossend" {
			url = "/cosmos.bank.v1beta1.MsgSend"
		}
	case "create":
		acc := &authnv1.Account{Address: a, AccountNumber: uint64(len(m.C)) * 7, Sequence: uint64(len(m.C))}
		if m.Pub > 0 {
			acc.PubKey = pubAny(key(m.Pub-1).PubKey().Bytes(), m.PubT)
		}
		url, val = mustAny(&authnv1.MsgCreateAccount{Account: acc})
	case "createnil":
		url, val = mustAny(&authnv1.MsgCreateAccount{})
	case "post":
		url, val = mustAny(&testv1.MsgCreatePost{Creator: a, Title: b, Text: m.C})
	case "setbalance":
		url, val = mustAny(&bankv1.MsgSetBalance{Address: a, Amount: toCoins(m.Coins)})
	case "bind":
		url, val = mustAny(&rbacv1.MsgBindRole{RoleId: b, Subject: a})
	case "role":
		url, val = mustAny(&rbacv1.MsgCreateRole{NewRole: &rbacv1.Role{Id: a, Delivers: []string{b}}})
	case "updateacc":
		url, val = mustAny(&authnv1.MsgUpdateAccount{Account: &authnv1.Account{Address: a}})
	case "deleteacc":
		url, val = mustAny(&authnv1.MsgDeleteAccount{Account: &authnv1.Account{Address: a}})
	case "vals":
		url, val = mustAny(&abciv1.MsgSetValidatorUpdates{ValidatorUpdates: valUpdates([][2]int64{{3, 7}})})
	case "chain":
		url, val = mustAny(&abciv1.MsgSetInitChain{InitChainInfo: &abciv1.InitChainInfo{ChainId: a}})
	case "begin":
		url, val = mustAny(&abciv1.MsgSetBeginBlockState{})
	case "endblock":
		url, val = mustAny(&abciv1.MsgSetEndBlockState{})
	case "checktx":
		url, val = mustAny(&abciv1.MsgSetCheckTxState{})
	case "delivertx":
		url, val = mustAny(&abciv1.MsgSetDeliverTxState{})
	case "modules":
		url, val = mustAny(&runtimev1.CreateModuleDescriptors{})
	case "object":
		url, val = mustAny(&bankv1.Balance{Address: a, Balance: toCoins(m.Coins)})
	case "nested":
		u, v := msgAny(MsgSpec{K: "send", A: m.A, B: m.B, Coins: m.Coins})
		url, val = mustAny(&anypb.Any{TypeUrl: u, Value: v})
	}
	if m.URL != "" {
		url = m.URL
	}
	if m.Raw != nil {
		val = append(append([]byte{}, val...), m.Raw...)
	}
	return url, val
}

// acctView is what the author of a transaction knows about an account.
type acctView func(addr string) (num, seq uint64)

// buildTx builds and signs the transaction.
func buildTx(t *TxSpec, chainID string, nextHeight int64, view acctView, pool [][]byte) []byte {
	if t.Raw != nil {
		return t.Raw
	}
	body := &txtypes.TxBody{Memo: name(t.Memo)}
	switch {
	case t.Timeout != 0:
		body.TimeoutHeight = uint64(t.Timeout)
	case t.RelTime != 0:
		if h := nextHeight + t.RelTime - 1000; h > 0 {
			body.TimeoutHeight = uint64(h)
		} else {
			body.TimeoutHeight = 1
		}
	}
	for _, m := range t.Msgs {
		u, v := msgAny(m)
		body.Messages = append(body.Messages, &types.Any{TypeUrl: u, Value: v})
	}
	for _, e := range t.Ext {
		body.ExtensionOptions = append(body.ExtensionOptions, &types.Any{TypeUrl: e})
	}
	auth := &txtypes.AuthInfo{}
	if !t.NoFee {
		auth.Fee = &txtypes.Fee{Payer: name(t.Payer), Granter: name(t.Granter), GasLimit: t.Gas}
		// the amounts are not validated on the side of the author
		_, raw := mustAny(&authnv1.Fee{Amount: toCoins(t.Fee)})
		f := new(txtypes.Fee)
		if f.Unmarshal(raw) == nil {
			auth.Fee.Amount = f.Amount
		}
	}
	for _, s := range t.Signers {
		_, seq := view(addr(s.Key))
		si := &txtypes.SignerInfo{
			ModeInfo: &txtypes.ModeInfo{Sum: &txtypes.ModeInfo_Single_{Single: &txtypes.ModeInfo_Single{Mode: signing.SignMode(1 + s.Mode)}}},
			Sequence: uint64(int64(seq) + s.SeqOff),
		}
		switch s.Mode {
		case 900:
			si.ModeInfo = nil
		case 901:
			si.ModeInfo = &txtypes.ModeInfo{}
		case 902:
			si.ModeInfo = &txtypes.ModeInfo{Sum: &txtypes.ModeInfo_Multi_{Multi: &txtypes.ModeInfo_Multi{}}}
		}
		if s.Pub != "nil" {
			if a := pubAny(key(s.Key).PubKey().Bytes(), s.Pub); a != nil {
				si.PublicKey = &types.Any{TypeUrl: a.TypeUrl, Value: a.Value}
			}
		}
		auth.SignerInfos = append(auth.SignerInfos, si)
	}
	bodyB, err := body.Marshal()
	if err != nil {
		panic(err)
	}
	authB, err := auth.Marshal()
	if err != nil {
		panic(err)
	}
	if !t.NoFee {
		// amounts which the types of the author do not allow are put in as they are
		_, want := mustAny(&authnv1.Fee{Amount: toCoins(t.Fee), Payer: name(t.Payer), Granter: name(t.Granter), GasLimit: t.Gas})
		have, _ := auth.Fee.Marshal()
		if !bytes.Equal(want, have) {
			auth.Fee = nil
			authB, _ = auth.Marshal()
			authB = append(authB, 0x12)
			authB = append(authB, uvarint(uint64(len(want)))...)
			authB = append(authB, want...)
		}
	}
	// mutations applied before signing are part of the content
	raw := &txtypes.TxRaw{BodyBytes: bodyB, AuthInfoBytes: authB}
	for _, s := range t.Signers {
		num, _ := view(addr(s.Key))
		chain := chainID
		if s.Chain != "" {
			chain = strings.TrimPrefix(s.Chain, "=")
		}
		k := key(s.Key)
		if s.With > 0 {
			k = key(s.With - 1)
		}
		doc := &txtypes.SignDoc{BodyBytes: bodyB, AuthInfoBytes: authB, ChainId: chain, AccountNumber: uint64(int64(num) + s.AccOff)}
		d, err := doc.Marshal()
		if err != nil {
			panic(err)
		}
		sig, err := k.Sign(d)
		if err != nil {
			panic(err)
		}
		switch s.Sig {
		case "flip":
			sig[10] ^= 4
		case "empty":
			sig = []byte{}
		case "short":
			sig = sig[:63]
		case "long":
			sig = append(sig, 0)
		case "zeros":
			sig = make([]byte, 64)
		case "high":
			sig = highS(sig)
		case "none":
			continue
		}
		raw.Signatures = append(raw.Signatures, sig)
	}
	for _, m := range t.Mut {
		switch m.Where {
		case "body":
			raw.BodyBytes = mutate(raw.BodyBytes, m)
		case "auth":
			raw.AuthInfoBytes = mutate(raw.AuthInfoBytes, m)
		case "sig":
			mutateSigs(raw, m, pool)
		case "forge":
			forge(raw, m)
		case "mix": // parts of another transaction
			if len(pool) > 0 {
				other := new(txtypes.TxRaw)
				if other.Unmarshal(pool[m.Pos%len(pool)]) == nil {
					switch m.Kind {
					case "body":
						raw.BodyBytes = other.BodyBytes
					case "auth":
						raw.AuthInfoBytes = other.AuthInfoBytes
					case "sigs":
						raw.Signatures = other.Signatures
					}
				}
			}
		}
	}
	out, err := raw.Marshal()
	if err != nil {
		panic(err)
	}
	for _, m := range t.Mut {
		if m.Where == "raw" {
			out = mutate(out, m)
		}
	}
	return out
}

func uvarint(v uint64) []byte {
	var out []byte
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	return append(out, byte(v))
}

var curveN, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)

func highS(sig []byte) []byte {
	s := new(big.Int).SetBytes(sig[32:])
	s.Sub(curveN, s)
	out := append([]byte{}, sig[:32]...)
	return append(out, s.FillBytes(make([]byte, 32))...)
}

func mutate(b []byte, m Mut) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return append(b, m.Val...)
	}
	p := m.Pos % len(b)
	switch m.Kind {
	case "flip":
		v := byte(1)
		if len(m.Val) > 0 && m.Val[0] != 0 {
			v = m.Val[0]
		}
		b[p] ^= v
	case "cut":
		b = b[:p]
	case "drop":
		b = append(b[:p], b[p+1:]...)
	case "ins":
		b = append(b[:p], append(append([]byte{}, m.Val...), b[p:]...)...)
	case "append":
		b = append(b, m.Val...)
	case "dup":
		b = append(b, b...)
	}
	return b
}

// forge changes what a signed transaction says and keeps its signatures.
func forge(raw *txtypes.TxRaw, m Mut) {
	body, auth := new(txtypes.TxBody), new(txtypes.AuthInfo)
	if body.Unmarshal(raw.BodyBytes) != nil || auth.Unmarshal(raw.AuthInfoBytes) != nil {
		return
	}
	send := new(bankv1.MsgSendCoins)
	var first *types.Any
	if len(body.Messages) > 0 {
		first = body.Messages[m.Pos%len(body.Messages)]
		if proto.Unmarshal(first.Value, send) != nil {
			return
		}
	}
	to := addr(m.Pos % users)
	switch m.Kind {
	case "amount":
		send.Amount = toCoins([]CoinSpec{{"atom", fmt.Sprint(1 + m.Pos)}})
	case "to":
		send.ToAddress = to
	case "from":
		send.FromAddress = to
	case "memo":
		body.Memo += "x"
	case "timeout":
		body.TimeoutHeight++
	case "more":
		if first != nil {
			body.Messages = append(body.Messages, first)
			first = nil
		}
	case "less":
		if len(body.Messages) > 1 {
			body.Messages = body.Messages[:len(body.Messages)-1]
		}
		first = nil
	case "order":
		if n := len(body.Messages); n > 1 {
			body.Messages[0], body.Messages[n-1] = body.Messages[n-1], body.Messages[0]
		}
		first = nil
	case "gas":
		if auth.Fee != nil {
			auth.Fee.GasLimit++
		}
	case "payer":
		if auth.Fee != nil {
			auth.Fee.Payer = to
		}
	case "granter":
		if auth.Fee != nil {
			auth.Fee.Granter = to
		}
	case "fee":
		if auth.Fee != nil && len(auth.Fee.Amount) > 0 {
			auth.Fee.Amount[0].Amount = auth.Fee.Amount[0].Amount.AddRaw(int64(1 + m.Pos%7))
		}
	case "sequence":
		if n := len(auth.SignerInfos); n > 0 {
			auth.SignerInfos[m.Pos%n].Sequence++
		}
	case "signer":
		// somebody else pretends to have signed
		if n := len(auth.SignerInfos); n > 0 {
			if a := pubAny(key(m.Pos%users).PubKey().Bytes(), ""); a != nil {
				auth.SignerInfos[m.Pos%n].PublicKey = &types.Any{TypeUrl: a.TypeUrl, Value: a.Value}
			}
			send.FromAddress = to
		}
	}
	if first != nil && strings.HasSuffix(first.TypeUrl, ".MsgSendCoins") {
		first.Value, _ = detOpts.Marshal(send)
	}
	if b, err := body.Marshal(); err == nil {
		raw.BodyBytes = b
	}
	if b, err := auth.Marshal(); err == nil {
		raw.AuthInfoBytes = b
	}
}

// genuine is the transaction before somebody tampered with it.
func (t *TxSpec) genuine() *TxSpec {
	g := *t
	g.Mut = nil
	g.Signers = append([]SignerSpec(nil), t.Signers...)
	for i := range g.Signers {
		s := &g.Signers[i]
		s.With, s.Chain, s.Sig, s.AccOff = 0, "", "", 0
	}
	return &g
}

func mutateSigs(raw *txtypes.TxRaw, m Mut, pool [][]byte) {
	n := len(raw.Signatures)
	switch m.Kind {
	case "swap":
		if n > 1 {
			raw.Signatures[0], raw.Signatures[1] = raw.Signatures[1], raw.Signatures[0]
		}
	case "drop":
		if n > 0 {
			raw.Signatures = raw.Signatures[:n-1]
		}
	case "dup":
		if n > 0 {
			raw.Signatures = append(raw.Signatures, raw.Signatures[0])
		}
	case "copysig":
		if n > 1 {
			raw.Signatures[1] = raw.Signatures[0]
		}
	default:
		if n > 0 {
			raw.Signatures[m.Pos%n] = mutate(raw.Signatures[m.Pos%n], m)
		}
	}
}

// ---- independent interpretation of transaction bytes ----

type RefMsg struct {
	Name  string // full protobuf name of the transition
	Send  *bankv1.MsgSendCoins
	Acct  *authnv1.MsgCreateAccount
	Post  *testv1.MsgCreatePost
	Known bool
}

type RefSigner struct {
	Addr string
	Pub  []byte
	Seq  uint64
	Sig  []byte
}

// RefTx is a transaction as the simulator understands it.
type RefTx struct {
	Bad     string // cannot be a signed transaction
	Odd     string // unusual: whether it is admitted is not specified
	Body    []byte
	Auth    []byte
	Signers []RefSigner
	Fee     []*sdkCoin
	Payer   string
	Timeout uint64
	Memo    string
	Msgs    []RefMsg
}

type sdkCoin struct{ Denom, Amount string }

// content identifies what was signed.
func (t *RefTx) content() string {
	h := sha256.New()
	fmt.Fprintf(h, "%d|", len(t.Body))
	h.Write(t.Body)
	h.Write(t.Auth)
	return fmt.Sprintf("%x", h.Sum(nil))
}

func refDecode(b []byte) (t *RefTx) {
	t = &RefTx{}
	defer func() {
		if r := recover(); r != nil {
			t.Bad = fmt.Sprint("cannot be read: ", r)
		}
	}()
	raw := new(txtypes.TxRaw)
	if err := raw.Unmarshal(b); err != nil {
		t.Bad = "not a transaction: " + err.Error()
		return
	}
	t.Body, t.Auth = raw.BodyBytes, raw.AuthInfoBytes
	body, auth := new(txtypes.TxBody), new(authnv1.AuthInfo)
	if err := body.Unmarshal(raw.BodyBytes); err != nil {
		t.Bad = "body: " + err.Error()
		return
	}
	if err := proto.Unmarshal(raw.AuthInfoBytes, auth); err != nil {
		t.Bad = "auth info: " + err.Error()
		return
	}
	t.Memo, t.Timeout = body.Memo, body.TimeoutHeight
	switch {
	case len(auth.SignerInfos) == 0:
		t.Bad = "nobody signed it"
	case len(raw.Signatures) != len(auth.SignerInfos):
		t.Bad = fmt.Sprintf("%d signers but %d signatures", len(auth.SignerInfos), len(raw.Signatures))
	case len(body.Messages) == 0:
		t.Bad = "no messages"
	case auth.Fee == nil:
		t.Odd = "no fee"
	case len(auth.Fee.Amount) == 0:
		t.Odd = "no fee amount"
	}
	if t.Bad != "" {
		return
	}
	for i, s := range auth.SignerInfos {
		if s.PublicKey == nil || (s.PublicKey.TypeUrl != cosmosPubURL && s.PublicKey.TypeUrl != tmosPubURL) {
			t.Bad = fmt.Sprintf("signer %d has no usable public key", i)
			return
		}
		pk := new(secp256k1.PubKey)
		if err := pk.Unmarshal(s.PublicKey.Value); err != nil || len(pk.Key) != 33 {
			t.Bad = fmt.Sprintf("signer %d has no usable public key", i)
			return
		}
		if !bytes.Equal(s.PublicKey.Value, pubBytes(pk.Key)) {
			t.Odd = "public key in unusual form"
		}
		if m := s.ModeInfo.GetSingle(); m == nil || m.Mode != authnv1.SignMode_SIGN_MODE_DIRECT {
			t.Odd = "sign mode"
		}
		t.Signers = append(t.Signers, RefSigner{addrOf(pk.Key), pk.Key, s.Sequence, raw.Signatures[i]})
	}
	t.Payer = t.Signers[0].Addr
	if auth.Fee != nil {
		if auth.Fee.Payer != "" {
			t.Payer = auth.Fee.Payer
		}
		for _, c := range auth.Fee.Amount {
			t.Fee = append(t.Fee, &sdkCoin{c.Denom, c.Amount})
		}
	}
	for _, m := range body.Messages {
		rm := RefMsg{Name: m.TypeUrl[strings.LastIndexByte(m.TypeUrl, '/')+1:]}
		if m.TypeUrl != "/"+rm.Name {
			t.Odd = "type of message in unusual form"
		}
		if strings.HasSuffix(m.TypeUrl, "cosmos.bank.v1beta1.MsgSend") {
			rm.Name = "tmos.x.bank.v1alpha1.MsgSendCoins"
		}
		var dst proto.Message
		switch rm.Name {
		case "tmos.x.bank.v1alpha1.MsgSendCoins":
			rm.Send = new(bankv1.MsgSendCoins)
			dst = rm.Send
		case "tmos.x.authn.v1alpha1.MsgCreateAccount":
			rm.Acct = new(authnv1.MsgCreateAccount)
			dst = rm.Acct
		case "testmodule.v1.MsgCreatePost":
			rm.Post = new(testv1.MsgCreatePost)
			dst = rm.Post
		}
		if dst != nil {
			if err := proto.Unmarshal(m.Value, dst); err != nil {
				t.Bad = "message: " + err.Error()
				return
			}
			rm.Known = true
			if b, err := detOpts.Marshal(dst); err != nil || !bytes.Equal(b, m.Value) {
				t.Odd = "message in unusual form"
			}
			if len(dst.ProtoReflect().GetUnknown()) > 0 {
				t.Odd = "message with unknown fields"
			}
		}
		t.Msgs = append(t.Msgs, rm)
	}
	if !canonicalTx(b, raw, body, auth) {
		if t.Odd == "" {
			t.Odd = "transaction in unusual form"
		}
	}
	return
}

func canonicalTx(b []byte, raw *txtypes.TxRaw, body *txtypes.TxBody, auth *authnv1.AuthInfo) bool {
	rb, err := raw.Marshal()
	if err != nil || !bytes.Equal(rb, b) {
		return false
	}
	bb, err := body.Marshal()
	if err != nil || !bytes.Equal(bb, raw.BodyBytes) || len(body.ExtensionOptions)+len(body.NonCriticalExtensionOptions) > 0 {
		return false
	}
	ab, err := detOpts.Marshal(auth)
	if err != nil || !bytes.Equal(ab, raw.AuthInfoBytes) || hasUnknown(auth) {
		return false
	}
	return true
}

func hasUnknown(a *authnv1.AuthInfo) bool {
	if len(a.ProtoReflect().GetUnknown()) > 0 || (a.Fee != nil && len(a.Fee.ProtoReflect().GetUnknown()) > 0) {
		return true
	}
	if a.Fee != nil {
		for _, c := range a.Fee.Amount {
			if len(c.ProtoReflect().GetUnknown()) > 0 {
				return true
			}
		}
	}
	for _, s := range a.SignerInfos {
		if len(s.ProtoReflect().GetUnknown()) > 0 || len(s.PublicKey.ProtoReflect().GetUnknown()) > 0 {
			return true
		}
		if s.ModeInfo != nil && (len(s.ModeInfo.ProtoReflect().GetUnknown()) > 0) {
			return true
		}
		if m := s.ModeInfo.GetSingle(); m != nil && len(m.ProtoReflect().GetUnknown()) > 0 {
			return true
		}
	}
	return false
}

// signedFor tells whether the signature is genuine for the chain and account number.
func (t *RefTx) signedFor(s RefSigner, chainID string, num uint64) bool {
	doc := &txtypes.SignDoc{BodyBytes: t.Body, AuthInfoBytes: t.Auth, ChainId: chainID, AccountNumber: num}
	d, err := doc.Marshal()
	if err != nil {
		return false
	}
	return (&secp256k1.PubKey{Key: s.Pub}).VerifySignature(d, s.Sig)
}

// ---- amounts ----

var denomRE = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9/]{2,127}$`)
var amountRE = regexp.MustCompile(`^[0-9]+$`)

func denomOK(d string) bool { return denomRE.MatchString(d) }

var maxAmount = new(big.Int).Lsh(big.NewInt(1), 255)

// amounts reads plain amounts: whole numbers of distinct denominations.
func amounts(cs []*sdkCoin) (m map[string]*big.Int, plain bool, tooBig bool) {
	m, plain = map[string]*big.Int{}, true
	for _, c := range cs {
		if !amountRE.MatchString(c.Amount) || !denomOK(c.Denom) || m[c.Denom] != nil {
			return nil, false, false
		}
		v, _ := new(big.Int).SetString(c.Amount, 10)
		if v.Sign() == 0 || c.Amount[0] == '0' {
			plain = false // zero amounts and leading zeros: accepted or not, never wrong
		}
		if v.Cmp(maxAmount) >= 0 {
			tooBig = true
		}
		m[c.Denom] = v
	}
	return m, plain, tooBig
}

// fractional tells that an amount is a number which is not whole.
var fractionRE = regexp.MustCompile(`^[0-9]*\.[0-9]*[1-9][0-9]*$`)

var _ = sdk.NewInt
