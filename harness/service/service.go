// Package service holds the harnesses for package service (P27).
package service

import (
	"context"
	"errors"
	"io"
	"os"

	rpb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/service"
	"github.com/google/xtoproto/zz_verif/nd"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// clean resolves . and .. and doubled slashes; up is the number of levels a relative path leads upwards.
func clean(p string) (parts []string, up int, abs bool) {
	abs = len(p) > 0 && p[0] == '/'
	for len(p) > 0 {
		i := 0
		for i < len(p) && p[i] != '/' {
			i++
		}
		c := p[:i]
		if i < len(p) {
			i++
		}
		p = p[i:]
		switch c {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			} else if !abs {
				up++
			}
		default:
			parts = append(parts, c)
		}
	}
	return parts, up, abs
}

// inside tells whether a path names something below a directory.
func inside(dir, p string) bool {
	dp, du, da := clean(dir)
	pp, pu, pa := clean(p)
	if da != pa || du != pu || len(pp) <= len(dp) {
		return false
	}
	for i := range dp {
		if dp[i] != pp[i] {
			return false
		}
	}
	return true
}

func equalPath(a, b string) bool {
	ap, au, aa := clean(a)
	bp, bu, ba := clean(b)
	if aa != ba || au != bu || len(ap) != len(bp) {
		return false
	}
	for i := range ap {
		if ap[i] != bp[i] {
			return false
		}
	}
	return true
}

type disk struct {
	paths    []string
	data     []string
	failAt   int
	failWith error
}

func (d *disk) write(ctx context.Context, path string, data []byte) error {
	d.paths = append(d.paths, path)
	d.data = append(d.data, string(data))
	if len(d.paths) == d.failAt {
		return d.failWith
	}
	return nil
}

func mapping() *rpb.RecordProtoMapping {
	return &rpb.RecordProtoMapping{
		GoOptions:   &rpb.GoOptions{GoPackageName: "conv", ProtoImport: "path/to/pb"},
		MessageName: "My",
		PackageName: "pkg",
		ColumnToFieldMappings: []*rpb.ColumnToFieldMapping{
			{ColName: "a", ProtoType: "int64", ProtoName: "a", ProtoTag: 1},
		},
	}
}

// judge compares the outcome of a request with the files that were written.
func judge(d *disk, ws string, req *spb.GenerateCodeRequest, resp *spb.GenerateCodeResponse, err error) {
	for _, p := range d.paths {
		nd.Assert(inside(ws, p), "inside-workspace")
	}
	if err != nil {
		nd.Reach("rejected")
		nd.Assert(len(d.paths) == 0, "nothing-written")
		nd.Assert(status.Code(err) == codes.InvalidArgument, "invalid-argument")
		nd.Assert(resp == nil, "no-response")
		return
	}
	nd.Reach("written")
	i := 0
	file := func(wanted bool, f *spb.GenerateCodeResponse_File) {
		if !wanted {
			nd.Assert(f == nil, "not-requested")
			return
		}
		nd.Assert(i < len(d.paths), "requested-file-written")
		nd.Assert(f != nil, "file-reported")
		if i >= len(d.paths) || f == nil {
			return
		}
		nd.Assert(equalPath(ws+"/"+f.WorkspaceRelativePath, d.paths[i]) || ws == "" && equalPath(f.WorkspaceRelativePath, d.paths[i]), "reported-path")
		nd.Assert(string(f.NewContents) == d.data[i], "reported-contents")
		nd.Assert(len(d.data[i]) > 0, "contents")
		i++
	}
	file(req.ProtoDefinition != nil, resp.ProtoFile)
	file(req.Converter != nil, resp.ConverterGoFile)
	nd.Assert(i == len(d.paths), "no-other-file")
}

var workspaces = []string{"/w", "/w/x/", "rel", "", "../up"}

func pathText(n int) string { return nd.StrIn("/.a", nd.Choose(n+1)) }

// Proto asks for a .proto file at any place.
func Proto() {
	n := nd.Param("n", 4)
	ws := workspaces[nd.Choose(len(workspaces))]
	req := &spb.GenerateCodeRequest{Mapping: mapping()}
	def := ws
	if nd.Choose(2) == 1 {
		req.WorkspacePath, def = ws, "/elsewhere"
		if ws == "" {
			ws = "/elsewhere"
		}
	}
	req.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: pathText(n)}
	req.ProtoDefinition.ProtoFileName = pathText(n)
	if req.ProtoDefinition.ProtoFileName == "" {
		req.Mapping.MessageName = [...]string{"", "My", "../../My", "/My", ".."}[nd.Choose(5)]
	}
	d := &disk{}
	resp, err := service.New(def, nil, d.write).GenerateCode(context.Background(), req)
	judge(d, ws, req, resp, err)
}

var places = []string{"", "d", "../d", "d/../..", "/d", "d//e/", ".", "..", "...", "a/../b"}

// Both asks for both files.
func Both() {
	n := nd.Param("n", 3)
	req := &spb.GenerateCodeRequest{Mapping: mapping(), WorkspacePath: "/w/x"}
	dir, name := "", "f.go"
	if nd.Choose(2) == 0 {
		dir, name = pathText(n), places[nd.Choose(len(places))]
	} else {
		dir, name = places[nd.Choose(len(places))], pathText(n)
	}
	pd, pn := places[nd.Choose(len(places))], places[nd.Choose(3)]
	req.Converter = &spb.GenerateCodeRequest_Converter{Directory: dir, GoFileName: name}
	if nd.Choose(4) != 0 {
		req.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: pd, ProtoFileName: pn}
	}
	d := &disk{}
	resp, err := service.New("/w", nil, d.write).GenerateCode(context.Background(), req)
	judge(d, "/w/x", req, resp, err)
}

// Malformed asks for code with parts of the request missing.
func Malformed() {
	d := &disk{}
	s := service.New("/w", nil, d.write)
	req := &spb.GenerateCodeRequest{}
	bad := false
	switch nd.Choose(7) {
	case 0:
		req, bad = nil, true
	case 1:
		bad = true
	case 2:
		req.Mapping = mapping()
	case 3:
		req.Mapping = mapping()
		req.Mapping.GoOptions = nil
		bad = true
	case 4:
		req.Mapping = mapping()
		req.Mapping.GoOptions.GoPackageName = ""
		bad = true
	case 5:
		req.Mapping = mapping()
		req.Mapping.ColumnToFieldMappings[0].ProtoType = [...]string{"", "bytes", "Any"}[nd.Choose(3)]
		bad = true
	default:
		req.Mapping = mapping()
		req.Mapping.MessageName = [...]string{"", "1x", "a b", "a\nb"}[nd.Choose(4)]
		bad = true
	}
	wantGo, wantProto := nd.Choose(2) == 1, nd.Choose(2) == 1
	if req != nil {
		if wantGo {
			req.Converter = &spb.GenerateCodeRequest_Converter{Directory: "c", GoFileName: "c.go"}
		}
		if wantProto {
			req.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: "p", ProtoFileName: "p.proto"}
		}
	}
	resp, err := s.GenerateCode(context.Background(), req)
	if err != nil {
		nd.Reach("rejected")
		nd.Assert(bad, "good-request")
		nd.Assert(status.Code(err) == codes.InvalidArgument, "invalid-argument")
		nd.Assert(len(d.paths) == 0, "nothing-written")
		nd.Assert(resp == nil, "no-response")
		return
	}
	nd.Reach("accepted")
	nd.Assert(req != nil && req.Mapping != nil, "mapping-needed")
	nd.Assert(!(bad && wantGo), "bad-request")
}

// WriteErrors lets writing fail.
func WriteErrors() {
	fails := []error{os.ErrNotExist, os.ErrPermission, errors.New("disk full"), os.ErrExist, os.ErrClosed, io.EOF, context.Canceled,
		&os.PathError{Op: "open", Path: "p", Err: os.ErrNotExist}, &os.PathError{Op: "open", Path: "p", Err: os.ErrExist}}
	wants := []codes.Code{codes.NotFound, codes.PermissionDenied, codes.Unknown}
	k := nd.Choose(len(fails))
	d := &disk{failAt: nd.IntRange(0, 3), failWith: fails[k]}
	req := &spb.GenerateCodeRequest{Mapping: mapping(), WorkspacePath: "/w",
		ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{Directory: "p", ProtoFileName: "p.proto"},
		Converter:       &spb.GenerateCodeRequest_Converter{Directory: "c", GoFileName: "c.go"}}
	resp, err := service.New("/elsewhere", nil, d.write).GenerateCode(context.Background(), req)
	if d.failAt == 1 || d.failAt == 2 {
		nd.Reach("failed")
		nd.Assert(err != nil, "error-reported")
		nd.Assert(status.Code(err) != codes.OK, "error-code")
		if k < len(wants) {
			nd.Assert(status.Code(err) == wants[k], "error-code")
		}
		nd.Assert(resp == nil, "no-response")
		nd.Assert(len(d.paths) == d.failAt, "stopped")
		return
	}
	nd.Assert(err == nil, "written")
}

// Infer asks for a mapping with the input given in any way.
func Infer() {
	const csv = "a,b\n1,x\n"
	read := 0
	var readErr error
	s := service.New("/w", func(ctx context.Context, path string) ([]byte, error) {
		read++
		nd.Assert(path == "in.csv", "the-path")
		return []byte(csv), readErr
	}, nil)
	req := &spb.InferRequest{MessageName: "M", PackageName: "p"}
	n := nd.Choose(3)
	kind := nd.Choose(5)
	for i := 0; i < n; i++ {
		in := &spb.InputFile{}
		switch kind {
		case 0:
			in.Spec = &spb.InputFile_InputContent{InputContent: []byte(csv)}
		case 1:
			in.Spec = &spb.InputFile_InputPath{InputPath: "in.csv"}
		case 2:
			in.Spec = &spb.InputFile_InputPath{}
		case 3:
			in.Spec = &spb.InputFile_InputContent{}
		}
		req.ExampleInputs = append(req.ExampleInputs, in)
	}
	zone := nd.Choose(3)
	req.TimestampLocation = [...]string{"", "UTC", "../x"}[zone]
	readErr = [...]error{nil, os.ErrNotExist, os.ErrExist, io.EOF, os.ErrPermission}[nd.Choose(5)]
	resp, err := s.Infer(context.Background(), req)
	switch {
	case n != 1 || kind >= 2 || zone == 2:
		nd.Reach("rejected")
		nd.Assert(err != nil, "rejected")
		nd.Assert(status.Code(err) == codes.InvalidArgument, "invalid-argument")
		nd.Assert(resp == nil, "no-response")
	case kind == 1 && readErr != nil:
		nd.Reach("unreadable")
		nd.Assert(err != nil, "unreadable")
		nd.Assert(status.Code(err) != codes.OK, "unreadable")
		nd.Assert(resp == nil, "no-response")
		if readErr == os.ErrNotExist {
			nd.Assert(status.Code(err) == codes.NotFound, "not-found")
		}
	default:
		nd.Reach("inferred")
		nd.Assert(err == nil, "inferred")
		ms := resp.GetBestMappingCandidate().GetTopLevelMapping().GetColumnToFieldMappings()
		nd.Assert(len(ms) == 2 && ms[0].ColName == "a" && ms[1].ColName == "b", "columns")
		nd.Assert(ms[0].ProtoType == "int64" && ms[1].ProtoType == "string", "types")
	}
}
