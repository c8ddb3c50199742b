package protocp

import (
	"context"

	"google.golang.org/protobuf/proto"
)

// VerifWriter is a MessageWriter made of functions.
type VerifWriter struct {
	Row func(proto.Message) error
	Fin func() error
}

func (w *VerifWriter) addRow(ctx context.Context, m proto.Message) error { return w.Row(m) }

func (w *VerifWriter) finalize(ctx context.Context) error { return w.Fin() }
