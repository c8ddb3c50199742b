package xmlinfer

import (
	"sort"
	"strconv"
	"strings"

	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/jhump/protoreflect/desc/builder"
)

// Print stands for building the file and printing it, sorted, in the symbolic runs; the real printer does so otherwise.
func Print(fb *builder.FileBuilder) string {
	out := &strings.Builder{}
	if fb.IsProto3 {
		out.WriteString("syntax = \"proto3\";\n")
	} else {
		out.WriteString("syntax = \"proto2\";\n")
	}
	var ms []*builder.MessageBuilder
	for _, c := range fb.GetChildren() {
		ms = append(ms, c.(*builder.MessageBuilder))
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].GetName() < ms[j].GetName() })
	for _, m := range ms {
		comment(out, "", m.GetComments().LeadingComment)
		out.WriteString("message " + m.GetName() + " {\n")
		n := 0
		for _, c := range m.GetChildren() {
			f := c.(*builder.FieldBuilder)
			n++
			num := n
			if f.GetNumber() != 0 {
				panic("field numbers are not modelled")
			}
			comment(out, "  ", f.GetComments().LeadingComment)
			out.WriteString("  ")
			if f.IsRepeated() {
				out.WriteString("repeated ")
			}
			out.WriteString(typeName(f.GetType()) + " " + f.GetName() + " = " + strconv.Itoa(num) + ";\n")
		}
		out.WriteString("}\n")
	}
	return out.String()
}

func typeName(t *builder.FieldType) string {
	if n := t.GetTypeName(); n != "" {
		return n
	}
	switch t.GetType() {
	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
		return "double"
	case descriptor.FieldDescriptorProto_TYPE_FLOAT:
		return "float"
	case descriptor.FieldDescriptorProto_TYPE_INT64:
		return "int64"
	case descriptor.FieldDescriptorProto_TYPE_UINT64:
		return "uint64"
	case descriptor.FieldDescriptorProto_TYPE_INT32:
		return "int32"
	case descriptor.FieldDescriptorProto_TYPE_UINT32:
		return "uint32"
	case descriptor.FieldDescriptorProto_TYPE_SINT32:
		return "sint32"
	case descriptor.FieldDescriptorProto_TYPE_SINT64:
		return "sint64"
	case descriptor.FieldDescriptorProto_TYPE_BOOL:
		return "bool"
	case descriptor.FieldDescriptorProto_TYPE_BYTES:
		return "bytes"
	}
	return "string"
}

func comment(out *strings.Builder, indent, c string) {
	if c == "" {
		return
	}
	lines := strings.Split(c, "\n")
	if lines[0] == "" {
		lines = lines[1:]
	}
	if len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for _, l := range lines {
		out.WriteString(indent + "//" + strings.TrimRight(l, " \t") + "\n")
	}
}
