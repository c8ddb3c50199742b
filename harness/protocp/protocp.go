// Package protocp holds the harnesses for package protocp (P26).
package protocp

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/google/xtoproto/protocp"
	"github.com/google/xtoproto/zz_verif/nd"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type failure struct{ what string }

func (f *failure) Error() string { return f.what }

// source delivers n messages and then err.
type source struct {
	msgs []proto.Message
	n    int
	pos  int
	err  error
	done int // calls after the end
}

func (s *source) ReadMessage() (proto.Message, error) {
	if s.pos >= s.n {
		s.done++
		return nil, s.err
	}
	s.pos++
	return s.msgs[s.pos-1], nil
}

// sink records what it is given and fails at row failRow (0: never) or when finalized.
type sink struct {
	rows    []proto.Message
	failRow int
	rowErr  error
	finErr  error
	fins    int
	late    bool
	log     *[]int
	id      int
}

func (s *sink) add(m proto.Message) error {
	if s.fins > 0 {
		s.late = true
	}
	s.rows = append(s.rows, m)
	if len(s.rows) == s.failRow {
		return s.rowErr
	}
	return nil
}

func (s *sink) fin() error {
	s.fins++
	return s.finErr
}

type file struct {
	err    error
	closed int
	used   bool // read after it was closed
}

func (f *file) Read(b []byte) (int, error) {
	if f.closed > 0 {
		f.used = true
	}
	return 0, io.EOF
}

func (f *file) Close() error { f.closed++; return f.err }

type fileSystem struct {
	f      *file
	err    error
	opened []string
}

func (fs *fileSystem) OpenRead(ctx context.Context, name string) (io.ReadCloser, error) {
	fs.opened = append(fs.opened, name)
	if fs.err != nil {
		return nil, fs.err
	}
	return fs.f, nil
}

type world struct {
	src   *source
	sinks []*sink
	w     protocp.MessageWriter
	open  error // error of the reader's constructor
	cp    *protocp.Copier
	r     io.Reader
	made  int
}

// someErr gives an error of some kind, such as those of package io, or nil or io.EOF where those stand for no failure.
func someErr(what string, kind int) error {
	switch kind {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return context.Canceled
	case 3:
		return &os.PathError{Op: what, Path: "p", Err: os.ErrClosed}
	case 4:
		if what == "read" {
			return io.ErrNoProgress
		}
		return io.EOF // the end of something, but not of the messages
	}
	return &failure{what}
}

func build(msgs, writers int) *world {
	wd := &world{}
	kind := nd.Choose(5)
	src := &source{n: nd.IntRange(0, msgs), err: io.EOF}
	for i := 0; i < msgs; i++ {
		src.msgs = append(src.msgs, &timestamppb.Timestamp{Seconds: int64(i)})
	}
	if nd.Bool() {
		src.err = someErr("read", kind)
	}
	wd.src = src
	var ws []protocp.MessageWriter
	for i := 0; i < writers; i++ {
		s := &sink{failRow: nd.IntRange(0, msgs), rowErr: someErr("row", kind), id: i}
		if nd.Bool() {
			s.finErr = someErr("fin", kind)
		}
		wd.sinks = append(wd.sinks, s)
		ws = append(ws, &protocp.VerifWriter{Row: s.add, Fin: s.fin})
	}
	switch {
	case writers == 1 && nd.Choose(2) == 0:
		wd.w = ws[0]
	case writers > 1 && nd.Choose(2) == 1: // writers within writers
		wd.w = protocp.NewCompositeRecordWriter(ws[0], protocp.NewCompositeRecordWriter(ws[1:]...))
	default:
		wd.w = protocp.NewCompositeRecordWriter(ws...)
	}
	if nd.Bool() {
		wd.open = someErr("open", kind)
	}
	wd.cp = protocp.NewCopier(func(r io.Reader) (protocp.MessageReader, error) {
		wd.made++
		wd.r = r
		if wd.open != nil {
			return nil, wd.open
		}
		return src, nil
	})
	return wd
}

// expect gives the outcome the calls should have had: the first error, the number of rows each sink got, and whether the
// sinks were finalized.
func (wd *world) expect() (err error, rows []int, fin bool) {
	rows = make([]int, len(wd.sinks))
	if wd.open != nil {
		return wd.open, rows, false
	}
	for m := 1; m <= wd.src.n; m++ {
		for i, s := range wd.sinks {
			rows[i] = m
			if s.failRow == m {
				return s.rowErr, rows, false
			}
		}
	}
	if wd.src.err != io.EOF {
		return wd.src.err, rows, false
	}
	for _, s := range wd.sinks {
		if s.finErr != nil && err == nil {
			err = s.finErr
		}
	}
	return err, rows, true
}

func (wd *world) judge(err error) bool {
	want, rows, fin := wd.expect()
	if want == nil {
		nd.Reach("success")
		nd.Assert(err == nil, "success")
	} else {
		nd.Reach("failure")
		nd.Assert(err != nil, "error-reported")
		nd.Assert(errors.Is(err, want), "first-error")
	}
	for i, s := range wd.sinks {
		nd.Assert(len(s.rows) == rows[i], "every-message-once")
		for j, m := range s.rows {
			nd.Assert(m == wd.src.msgs[j], "in-order")
		}
		nd.Assert(!s.late, "nothing-after-finalize")
		if fin {
			nd.Assert(s.fins == 1, "finalized-once")
		} else if want != nil {
			nd.Assert(s.fins <= 1, "finalized-once")
		}
	}
	nd.Assert(wd.src.done <= 1, "no-read-after-end")
	return want == nil
}

// Copy copies any number of messages with failures anywhere.
func Copy() {
	wd := build(nd.Param("msgs", 2), nd.Choose(nd.Param("writers", 2)+1))
	in := &file{}
	err := wd.cp.Copy(context.Background(), in, wd.w)
	nd.Assert(wd.made == 1, "one-reader")
	wd.judge(err)
	nd.Assert(in.closed == 0, "reader-not-closed")
}

// CopyFile copies the messages of a file with failures anywhere.
func CopyFile() {
	wd := build(nd.Param("msgs", 2), nd.Choose(nd.Param("writers", 2)+1))
	f := &file{}
	if nd.Bool() {
		f.err = someErr("close", nd.Choose(5))
	}
	fs := &fileSystem{f: f}
	if nd.Bool() {
		fs.err = &failure{"file"}
	}
	err := wd.cp.CopyFile(context.Background(), fs, "some/name", wd.w)
	nd.Assert(len(fs.opened) == 1 && fs.opened[0] == "some/name", "the-file")
	if fs.err != nil {
		nd.Reach("no-file")
		nd.Assert(errors.Is(err, fs.err), "open-error")
		nd.Assert(f.closed == 0, "not-opened")
		for _, s := range wd.sinks {
			nd.Assert(len(s.rows) == 0, "nothing-written")
		}
		return
	}
	nd.Assert(f.closed == 1, "closed")
	nd.Assert(!f.used, "closed-last")
	want, _, _ := wd.expect()
	if want == nil && f.err != nil {
		nd.Reach("close-error")
		nd.Assert(errors.Is(err, f.err), "close-error")
		err = nil
	}
	wd.judge(err)
}
