// Program csvtoproto generates converters with the generator of the repository.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/google/xtoproto/csvtoproto"
	rpb "github.com/google/xtoproto/proto/recordtoproto"
)

func stamp(layout, zone string) *rpb.ColumnToFieldMapping_TimeFormat {
	return &rpb.ColumnToFieldMapping_TimeFormat{TimeFormat: &rpb.TimeFormat{GoLayout: layout, TimeZoneName: zone}}
}

func unit(u string) *rpb.ColumnToFieldMapping_DurationFormat {
	return &rpb.ColumnToFieldMapping_DurationFormat{DurationFormat: &rpb.DurationFormat{GoUnitSuffix: u}}
}

func main() {
	const ts, dur = "google.protobuf.Timestamp", "google.protobuf.Duration"
	m := &rpb.RecordProtoMapping{
		PackageName: "p", MessageName: "msg",
		GoOptions: &rpb.GoOptions{GoPackageName: "conv1", ProtoImport: "github.com/google/xtoproto/zz_verif/convpb"},
		ColumnToFieldMappings: []*rpb.ColumnToFieldMapping{
			{ColName: "n", ProtoName: "n", ProtoType: "int32", ProtoTag: 1},
			{ColName: "a big one", ProtoName: "big", ProtoType: "int64", ProtoTag: 2},
			{ColName: "f", ProtoName: "f", ProtoType: "float", ProtoTag: 3},
			{ColName: "skipped", ProtoName: "skipped", ProtoType: "int32", ProtoTag: 20, Ignored: true},
			{ColName: "d", ProtoName: "d", ProtoType: "double", ProtoTag: 4},
			{ColName: "the `name`", ProtoName: "name", ProtoType: "string", ProtoTag: 5},
			{ColName: "when", ProtoName: "when", ProtoType: ts, ProtoTag: 6, ParsingInfo: stamp("2006-01-02 15:04", "America/New_York")},
			{ColName: "seen", ProtoName: "seen", ProtoType: ts, ProtoTag: 7, ParsingInfo: stamp("02/01 2006 15h", "")},
			{ColName: "took", ProtoName: "took", ProtoType: dur, ProtoTag: 8, ParsingInfo: unit("m")},
			{ColName: "lasts", ProtoName: "lasts", ProtoType: dur, ProtoTag: 9, ParsingInfo: unit("")},
			{ColName: "proto", ProtoName: "proto", ProtoType: "string", ProtoTag: 10},
			{ColName: "x 1", ProtoName: "x1", ProtoType: dur, ProtoTag: 11},
			{ColName: "x 2", ProtoName: "x2", ProtoType: ts, ProtoTag: 12, ParsingInfo: stamp("2006-01-02 15:04 -0700", "Asia/Tokyo")},
		},
		ExtraFieldDefinitions: []*rpb.FieldDefinition{{ProtoName: "more", ProtoType: "int32", ProtoTag: 13}},
	}
	_, code, err := csvtoproto.GenerateCode(m, false, true)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	dir := filepath.Join(os.Args[1], "conv1")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, "conv1.go"), []byte(code), 0o644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}
