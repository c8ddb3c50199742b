// Program inferred infers mappings from samples and generates converters from them, with the packages of the repository.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/zz_verif/sample"
)

func main() {
	ny, err := time.LoadLocation("America/New_York")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for pkg, s := range map[string]struct {
		msg, text string
		loc       *time.Location
	}{
		"fromsample1": {"all", sample.All(), nil},
		"fromsample2": {"zoned", sample.Zoned(), ny},
	} {
		ip, err := csvinfer.InferProto(s.text, &recordinfer.Options{MessageName: s.msg, PackageName: "p", GoPackageName: pkg,
			GoProtoImport: "github.com/google/xtoproto/zz_verif/convpb", TimestampLocation: s.loc})
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		_, code, err := csvtoproto.GenerateCode(ip.Mapping(), true, true)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dir := filepath.Join(os.Args[1], pkg)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if err := os.WriteFile(filepath.Join(dir, pkg+".go"), []byte(code), 0o644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
}
