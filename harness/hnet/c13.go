package hnet

import (
	"github.com/zhiqiangxu/mondis/pb"
	"github.com/zhiqiangxu/mondis/zzverif/sym"
)

type message interface {
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	Size() int
	Unmarshal([]byte) error
}

const kinds = 15

var names = [kinds]string{"SetRequest", "SetResponse", "GetRequest", "GetResponse", "ExistsRequest", "ExistsResponse",
	"DeleteRequest", "DeleteResponse", "VMetaReq", "VMetaResp", "CommitResponse", "ScanRequest", "ProviderScanOption",
	"Entry", "ScanResponse"}

// lens are the lengths of byte fields: empty, short, and the first that needs two
// bytes of length prefix.
func field(n string) []byte { return str(n, 0, 2) }

func long(n string) []byte { return str(n, 0, 1, 3, 130) }

func reqMeta() *pb.VMetaReq {
	if flip("no meta") {
		return nil
	}
	return &pb.VMetaReq{TTL: sym.Int64("ttl"), Tag: sym.Uint32("tag")}
}

func respMeta() *pb.VMetaResp {
	if flip("no meta") {
		return nil
	}
	return &pb.VMetaResp{ExpiresAt: sym.Uint64("expires"), Tag: sym.Uint32("tag")}
}

// small metadata keeps the number of encodings down where metadata is one field of many.
func smallMeta() *pb.VMetaResp {
	if flip("no meta") {
		return nil
	}
	return &pb.VMetaResp{ExpiresAt: uint64(sym.Byte("expires")), Tag: uint32(sym.Byte("tag"))}
}

func option() *pb.ProviderScanOption {
	return &pb.ProviderScanOption{Reverse: sym.Bool("reverse"), Prefix: field("prefix"), Offset: field("offset")}
}

func arbitrary(kind int) message {
	switch kind {
	case 0:
		return &pb.SetRequest{Key: field("key"), Value: field("value"), Meta: reqMeta()}
	case 1:
		return &pb.SetResponse{Code: sym.Int32("code"), Msg: string(long("msg"))}
	case 2:
		return &pb.GetRequest{Key: long("key")}
	case 3:
		return &pb.GetResponse{Code: sym.Int32("code"), Msg: string(field("msg")), Value: field("value"), Meta: smallMeta()}
	case 4:
		return &pb.ExistsRequest{Key: long("key")}
	case 5:
		return &pb.ExistsResponse{Code: sym.Int32("code"), Msg: string(field("msg")), Exists: sym.Bool("exists")}
	case 6:
		return &pb.DeleteRequest{Key: long("key")}
	case 7:
		return &pb.DeleteResponse{Code: sym.Int32("code"), Msg: string(long("msg"))}
	case 8:
		return &pb.VMetaReq{TTL: sym.Int64("ttl"), Tag: sym.Uint32("tag")}
	case 9:
		return &pb.VMetaResp{ExpiresAt: sym.Uint64("expires"), Tag: sym.Uint32("tag")}
	case 10:
		return &pb.CommitResponse{Code: sym.Int32("code"), Msg: string(long("msg"))}
	case 11:
		m := &pb.ScanRequest{Limit: sym.Int32("limit")}
		if flip("option") {
			m.ProviderScanOption = option()
		}
		return m
	case 12:
		return option()
	case 13:
		return &pb.Entry{Key: field("key"), Value: long("value"), Meta: respMeta()}
	case 14:
		m := &pb.ScanResponse{Code: int32(int8(sym.Byte("code"))), Msg: string(field("msg"))}
		for n := sym.Choice("entries", pick(3, 4)); n > 0; n-- {
			m.Entries = append(m.Entries, &pb.Entry{Key: field("key"), Value: sym.Bytes("value", 1), Meta: smallMeta()})
		}
		return m
	}
	panic("kind")
}

func empty(kind int) message {
	return [kinds]func() message{
		func() message { return &pb.SetRequest{} },
		func() message { return &pb.SetResponse{} },
		func() message { return &pb.GetRequest{} },
		func() message { return &pb.GetResponse{} },
		func() message { return &pb.ExistsRequest{} },
		func() message { return &pb.ExistsResponse{} },
		func() message { return &pb.DeleteRequest{} },
		func() message { return &pb.DeleteResponse{} },
		func() message { return &pb.VMetaReq{} },
		func() message { return &pb.VMetaResp{} },
		func() message { return &pb.CommitResponse{} },
		func() message { return &pb.ScanRequest{} },
		func() message { return &pb.ProviderScanOption{} },
		func() message { return &pb.Entry{} },
		func() message { return &pb.ScanResponse{} },
	}[kind]()
}

func sameReq(a, b *pb.VMetaReq) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(a.TTL == b.TTL, a.Tag == b.Tag)
}

func sameResp(a, b *pb.VMetaResp) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(a.ExpiresAt == b.ExpiresAt, a.Tag == b.Tag)
}

func sameOption(a, b *pb.ProviderScanOption) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(a.Reverse == b.Reverse, eq(a.Prefix, b.Prefix), eq(a.Offset, b.Offset))
}

func sameEntry(a, b *pb.Entry) bool {
	return sym.And(eq(a.Key, b.Key), eq(a.Value, b.Value), sameResp(a.Meta, b.Meta))
}

func text(a, b string) bool { return eq([]byte(a), []byte(b)) }

// same compares every field of two messages of one kind.
func same(x, y message) bool {
	switch a := x.(type) {
	case *pb.SetRequest:
		b := y.(*pb.SetRequest)
		return sym.And(eq(a.Key, b.Key), eq(a.Value, b.Value), sameReq(a.Meta, b.Meta))
	case *pb.SetResponse:
		b := y.(*pb.SetResponse)
		return sym.And(a.Code == b.Code, text(a.Msg, b.Msg))
	case *pb.GetRequest:
		return eq(a.Key, y.(*pb.GetRequest).Key)
	case *pb.GetResponse:
		b := y.(*pb.GetResponse)
		return sym.And(a.Code == b.Code, text(a.Msg, b.Msg), eq(a.Value, b.Value), sameResp(a.Meta, b.Meta))
	case *pb.ExistsRequest:
		return eq(a.Key, y.(*pb.ExistsRequest).Key)
	case *pb.ExistsResponse:
		b := y.(*pb.ExistsResponse)
		return sym.And(a.Code == b.Code, text(a.Msg, b.Msg), a.Exists == b.Exists)
	case *pb.DeleteRequest:
		return eq(a.Key, y.(*pb.DeleteRequest).Key)
	case *pb.DeleteResponse:
		b := y.(*pb.DeleteResponse)
		return sym.And(a.Code == b.Code, text(a.Msg, b.Msg))
	case *pb.VMetaReq:
		return sameReq(a, y.(*pb.VMetaReq))
	case *pb.VMetaResp:
		return sameResp(a, y.(*pb.VMetaResp))
	case *pb.CommitResponse:
		b := y.(*pb.CommitResponse)
		return sym.And(a.Code == b.Code, text(a.Msg, b.Msg))
	case *pb.ScanRequest:
		b := y.(*pb.ScanRequest)
		return sym.And(a.Limit == b.Limit, sameOption(a.ProviderScanOption, b.ProviderScanOption))
	case *pb.ProviderScanOption:
		return sameOption(a, y.(*pb.ProviderScanOption))
	case *pb.Entry:
		return sameEntry(a, y.(*pb.Entry))
	case *pb.ScanResponse:
		b := y.(*pb.ScanResponse)
		if len(a.Entries) != len(b.Entries) {
			return false
		}
		r := sym.And(a.Code == b.Code, text(a.Msg, b.Msg))
		for i := range a.Entries {
			r = sym.And(r, sameEntry(a.Entries[i], b.Entries[i]))
		}
		return r
	}
	panic("kind")
}

// C13_RoundTrip: what was encoded is decoded.
//
//sym:opt steps=8000000 mapperm=0
func C13_RoundTrip() {
	kind := sym.Choice("kind", kinds)
	m := arbitrary(kind)
	enc, err := m.Marshal()
	sym.Assert(err == nil, "encoding never fails")
	sym.Assert(len(enc) == m.Size(), "the announced size is the encoded length")
	into := make([]byte, m.Size()+3)
	for i := range into {
		into[i] = 0xA5
	}
	n, err := m.MarshalTo(into)
	sym.Assert(err == nil && n == len(enc), "encoding into a buffer takes the announced size")
	sym.Assert(sym.And(eq(into[:n], enc), into[n] == 0xA5, into[n+2] == 0xA5), "encoding into a buffer writes the same bytes and no others")
	out := empty(kind)
	sym.Assert(out.Unmarshal(enc) == nil, "what was encoded decodes")
	sym.Assert(same(m, out), "every field decodes to what was encoded")
	again := clone(enc)
	for i := range enc {
		enc[i] = 0xEE
	}
	sym.Assert(same(m, out), "a decoded message does not share the input's memory")
	sym.Assert(out.Unmarshal(again) == nil || kind == 14, "a message decodes again")
	sym.Cover(names[kind])
}

// unknown is an arbitrary well-formed field that no message has.
func unknown() []byte {
	num := 16 + sym.Choice("number", 3)*1000
	tag := func(wt int) []byte {
		t := num<<3 | wt
		var out []byte
		for t >= 0x80 {
			out = append(out, byte(t)|0x80)
			t >>= 7
		}
		return append(out, byte(t))
	}
	varint := func(n int) []byte {
		out := sym.Bytes("varint", n)
		for i := range out {
			if i < n-1 {
				out[i] |= 0x80
			} else {
				out[i] &= 0x7f
			}
		}
		return out
	}
	plain := func() []byte {
		switch sym.Choice("wire type", 4) {
		case 0:
			return append(tag(0), varint([]int{1, 2, 10}[sym.Choice("varint.len", 3)])...)
		case 1:
			return append(tag(1), sym.Bytes("fixed64", 8)...)
		case 2:
			n := []int{0, 1, 5}[sym.Choice("length", 3)]
			return append(append(tag(2), byte(n)), sym.Bytes("content", n)...)
		}
		return append(tag(5), sym.Bytes("fixed32", 4)...)
	}
	switch sym.Choice("group", 3) {
	case 1:
		out := tag(3)
		for n := sym.Choice("inside", 3); n > 0; n-- {
			out = append(out, plain()...)
		}
		return append(out, tag(4)...)
	case 2:
		out := append(tag(3), tag(3)...)
		if flip("inside") {
			out = append(out, plain()...)
		}
		out = append(out, tag(4)...)
		if flip("after") {
			out = append(out, plain()...)
		}
		return append(out, tag(4)...)
	}
	return plain()
}

// few is a message of that kind, mostly of fixed contents.
func few(kind int) message {
	k, v := sym.Bytes("key", 1), sym.Bytes("value", 1)
	n := int32(sym.Byte("number") & 0x7f)
	m := &pb.VMetaResp{ExpiresAt: uint64(v[0] & 0x7f), Tag: 9}
	switch kind {
	case 0:
		return &pb.SetRequest{Key: k, Value: v, Meta: &pb.VMetaReq{TTL: 77, Tag: uint32(n)}}
	case 1:
		return &pb.SetResponse{Code: n, Msg: string(v)}
	case 2:
		return &pb.GetRequest{Key: k}
	case 3:
		return &pb.GetResponse{Code: n, Msg: string(k), Value: v, Meta: m}
	case 4:
		return &pb.ExistsRequest{Key: k}
	case 5:
		return &pb.ExistsResponse{Code: n, Msg: string(k), Exists: true}
	case 6:
		return &pb.DeleteRequest{Key: k}
	case 7:
		return &pb.DeleteResponse{Code: n, Msg: string(v)}
	case 8:
		return &pb.VMetaReq{TTL: int64(n), Tag: 300}
	case 9:
		return m
	case 10:
		return &pb.CommitResponse{Code: n, Msg: string(v)}
	case 11:
		return &pb.ScanRequest{Limit: n, ProviderScanOption: &pb.ProviderScanOption{Reverse: true, Prefix: k, Offset: v}}
	case 12:
		return &pb.ProviderScanOption{Reverse: true, Prefix: k, Offset: v}
	case 13:
		return &pb.Entry{Key: k, Value: v, Meta: m}
	}
	return &pb.ScanResponse{Code: n, Msg: string(k), Entries: []*pb.Entry{{Key: k, Value: v, Meta: m}, {Key: v}}}
}

// fields splits an encoding after each top-level field.
func fields(enc []byte) (ends []int) {
	ends = append(ends, 0)
	for i := 0; i < len(enc); {
		wt := sym.FixInt(int(enc[i] & 7))
		i++
		if wt == 2 {
			i += 1 + sym.FixInt(int(enc[i]))
		} else {
			for sym.FixBool(enc[i] >= 0x80) {
				i++
			}
			i++
		}
		ends = append(ends, i)
	}
	return
}

// C13_Unknown: a field no message has is skipped wherever it stands.
//
//sym:opt steps=8000000
func C13_Unknown() {
	kind := sym.Choice("kind", kinds)
	m := few(kind)
	enc, err := m.Marshal()
	sym.Assert(err == nil, "encoding never fails")
	at := fields(enc)
	i := at[sym.Choice("place", len(at))]
	u := unknown()
	in := append(append(clone(enc[:i]), u...), enc[i:]...)
	out := empty(kind)
	sym.Assert(out.Unmarshal(in) == nil, "a message with an unknown field decodes")
	sym.Assert(same(m, out), "an unknown field changes no other field")
	back, err := out.Marshal()
	sym.Assert(err == nil && len(back) == out.Size() && len(back) == len(in), "an unknown field is counted when the message is encoded again")
	sym.Cover(names[kind])
}

// C13_Bytes: arbitrary bytes decode or are refused.
//
//sym:opt steps=8000000
func C13_Bytes() {
	kind := sym.Choice("kind", kinds)
	n := sym.Choice("length", pick(6, 8))
	in := sym.Bytes("in", n)
	m := empty(kind)
	err := m.Unmarshal(in)
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Cover("decoded")
	enc, err := m.Marshal()
	sym.Assert(err == nil && len(enc) == m.Size(), "a decoded message can be encoded")
	out := empty(kind)
	sym.Assert(out.Unmarshal(enc) == nil && same(m, out), "a decoded message survives encoding")
}

// C13_Lengths: fields whose length or number is written with many bytes.
//
//sym:opt steps=8000000
func C13_Lengths() {
	kind := sym.Choice("kind", kinds)
	var in []byte
	switch sym.Choice("shape", 4) {
	case 1: // inside a group
		in = append(in, 0x7b)
	case 2: // after a field
		in = append(in, 0x12, 0x00)
	case 3: // inside a sub-message
		in = append(in, 0x1a, 13)
	}
	b := sym.Byte("tag")
	sym.Assume(b < 0x80)
	in = append(in, b)
	n := []int{5, 9, 10, 11}[sym.Choice("varint.len", 4)]
	v := sym.Bytes("varint", n)
	for i := range v {
		if i < n-1 {
			v[i] |= 0x80
		} else {
			v[i] &= 0x7f
		}
	}
	in = append(append(in, v...), sym.Bytes("rest", sym.Choice("rest.len", pick(2, 3)))...)
	m := empty(kind)
	err := m.Unmarshal(in)
	if err != nil {
		sym.Cover("refused")
	} else {
		sym.Cover("decoded")
	}
	sym.Assert(err != nil || m.Size() >= 0, "a decoded message has a size")
}

// C13_Nested: groups nested as deep as a frame allows are skipped or refused without
// a stack that grows with the depth.
//
//sym:opt stack=1 depth=150
func C13_Nested() {
	kind := sym.Choice("kind", kinds)
	deep := 400
	if !sym.Symbolic() {
		deep = 10<<20 - 64
	}
	b := sym.Byte("tag")
	sym.Assume(sym.And(b < 0x80, b > 0x20))
	in := make([]byte, deep)
	for i := range in {
		in[i] = b
	}
	m := empty(kind)
	err := m.Unmarshal(in)
	sym.Assert(err != nil || m.Size() >= 0, "a decoded message has a size")
	if err != nil {
		sym.Cover("refused")
	}
}
