package csvcoder

import "reflect"

func typeOf(x interface{}) reflect.Type { return reflect.TypeOf(x) }
