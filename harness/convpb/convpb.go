// Package convpb stands in for the protocol buffer package of a generated converter: a message as protoc-gen-go would
// name its fields, without the parts that converters do not use.
package convpb

import (
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type Msg struct {
	proto.Message
	N     int32
	Big   int64
	F     float32
	D     float64
	Name  string
	When  *timestamppb.Timestamp
	Seen  *timestamppb.Timestamp
	Took  *durationpb.Duration
	Lasts *durationpb.Duration
	Proto string
	X1    *durationpb.Duration
	X2    *timestamppb.Timestamp
	More  int32 // not of a column
}

// All is the message of the larger sample of package sample.
type All struct {
	proto.Message
	A                                                              int64
	F                                                              float32
	S, E                                                           string
	Ta, Tb, Tc, Td, Te, Tf, Tg, Th, Ti, Tj, Tk, Tl, Tm, Tn, To, Tp *timestamppb.Timestamp
}

// Stamps lists the times.
func (m *All) Stamps() []*timestamppb.Timestamp {
	return []*timestamppb.Timestamp{m.Ta, m.Tb, m.Tc, m.Td, m.Te, m.Tf, m.Tg, m.Th, m.Ti, m.Tj, m.Tk, m.Tl, m.Tm, m.Tn, m.To, m.Tp}
}

// Zoned is the message of the other sample.
type Zoned struct {
	proto.Message
	A              int64
	La, Lb, Lc, Ld *timestamppb.Timestamp
}

// Stamps lists the times.
func (m *Zoned) Stamps() []*timestamppb.Timestamp {
	return []*timestamppb.Timestamp{m.La, m.Lb, m.Lc, m.Ld}
}
