package fx

import (
	"context"
	"reflect"
	"unsafe"
)

// DropOnStop frees the indexes of a stack that is stopped. A process that ends
// takes them along; here hundreds of them are simulated in one, and every index
// keeps its tables (1.2 MB) and goroutines. For long runs only.
var DropOnStop bool

func (s *Stack) dropIndexes() {
	defer func() { _ = recover() }()
	f := reflect.ValueOf(s.Doc).Elem().FieldByName("indices")
	if !f.IsValid() || f.Kind() != reflect.Map {
		return
	}
	f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
	for _, k := range f.MapKeys() {
		if x, ok := f.MapIndex(k).Interface().(interface{ Drop(context.Context) error }); ok {
			_ = x.Drop(context.Background())
		}
	}
}
