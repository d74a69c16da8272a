package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"
)

// Reference wire format, written from the EOSIO serialization rules.

func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(v >> uint(8*i))
	}
	return b
}

func uvar(v uint64) []byte {
	var b []byte
	for v >= 128 {
		b = append(b, byte(v%128)+128)
		v /= 128
	}
	return append(b, byte(v))
}

func svar(v int64) []byte {
	if v >= 0 {
		return uvar(uint64(v) * 2)
	}
	return uvar(uint64(-(v+1))*2 + 1)
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func lp(b []byte) []byte { return cat(uvar(uint64(len(b))), b) }

// ref encodes a Go value; types as documented by the library
func ref(v interface{}) []byte {
	switch x := v.(type) {
	case bool:
		if x {
			return []byte{1}
		}
		return []byte{0}
	case uint8:
		return le(uint64(x), 1)
	case uint16:
		return le(uint64(x), 2)
	case uint32:
		return le(uint64(x), 4)
	case uint64:
		return le(x, 8)
	case int8:
		return le(uint64(x), 1)
	case int16:
		return le(uint64(x), 2)
	case int32:
		return le(uint64(x), 4)
	case int64:
		return le(uint64(x), 8)
	case float32:
		return le(uint64(math.Float32bits(x)), 4)
	case float64:
		return le(math.Float64bits(x), 8)
	case uint:
		return uvar(uint64(x))
	case int:
		return svar(int64(x))
	case string:
		return lp([]byte(x))
	case []byte:
		return lp(x)
	case chain.Bytes:
		return lp(x)
	case chain.Blob:
		return lp(x)
	case chain.Name:
		return le(uint64(x), 8)
	case chain.Symbol:
		return le(uint64(x), 8)
	case chain.SymbolCode:
		return le(uint64(x), 8)
	case chain.Uint64:
		return le(uint64(x), 8)
	case chain.BlockNum:
		return le(uint64(x), 4)
	case chain.TimePoint:
		return le(uint64(x), 8)
	case chain.TimePointSec:
		return le(uint64(x), 4)
	case chain.BlockTimestamp:
		return le(uint64(x), 4)
	case chain.Uint128:
		return cat(le(x.Lo, 8), le(x.Hi, 8))
	case chain.Int128:
		return cat(le(x.Lo, 8), le(x.Hi, 8))
	case chain.Float128:
		return append([]byte{}, x.Data[:]...)
	case chain.Checksum160:
		return append([]byte{}, x[:]...)
	case chain.Checksum256:
		return append([]byte{}, x[:]...)
	case chain.Checksum512:
		return append([]byte{}, x[:]...)
	case chain.Asset:
		return cat(le(uint64(x.Value), 8), le(uint64(x.Symbol), 8))
	case chain.ExtendedAsset:
		return cat(ref(x.Quantity), le(uint64(x.Contract), 8))
	case chain.PublicKey:
		return cat([]byte{byte(x.Type)}, x.Data)
	case chain.Signature:
		return cat([]byte{byte(x.Type)}, x.Data)
	case chain.PermissionLevel:
		return cat(le(uint64(x.Actor), 8), le(uint64(x.Permission), 8))
	case chain.Action:
		r := cat(le(uint64(x.Account), 8), le(uint64(x.Name), 8), uvar(uint64(len(x.Authorization))))
		for _, p := range x.Authorization {
			r = append(r, ref(p)...)
		}
		return append(r, lp(x.Data)...)
	case chain.TransactionHeader:
		return cat(le(uint64(x.Expiration), 4), le(uint64(x.RefBlockNum), 2), le(uint64(x.RefBlockPrefix), 4),
			uvar(uint64(x.MaxNetUsageWords)), []byte{x.MaxCpuUsageMs}, uvar(uint64(x.DelaySec)))
	case chain.TransactionExtension:
		return cat(le(uint64(x.Type), 2), lp(x.Data))
	case chain.Transaction:
		r := cat(ref(x.TransactionHeader), uvar(uint64(len(x.ContextFreeActions))))
		for _, a := range x.ContextFreeActions {
			r = append(r, ref(a)...)
		}
		r = append(r, uvar(uint64(len(x.Actions)))...)
		for _, a := range x.Actions {
			r = append(r, ref(a)...)
		}
		r = append(r, uvar(uint64(len(x.Extensions)))...)
		for _, a := range x.Extensions {
			r = append(r, ref(a)...)
		}
		return r
	}
	return refVal(reflect.ValueOf(v))
}

func refVal(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Ptr:
		return ref(v.Elem().Interface())
	case reflect.Slice:
		r := uvar(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			r = append(r, ref(v.Index(i).Interface())...)
		}
		return r
	case reflect.Array:
		var r []byte
		for i := 0; i < v.Len(); i++ {
			r = append(r, ref(v.Index(i).Interface())...)
		}
		return r
	case reflect.Struct:
		var r []byte
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Tag.Get("eosio") == "optional" {
				if f.IsZero() {
					r = append(r, 0)
					continue
				}
				r = append(r, 1)
			}
			r = append(r, ref(f.Interface())...)
		}
		return r
	case reflect.Map:
		if v.Len() > 1 {
			panic("harness: map order")
		}
		r := uvar(uint64(v.Len()))
		for _, k := range v.MapKeys() {
			r = append(r, ref(k.Interface())...)
			r = append(r, ref(v.MapIndex(k).Interface())...)
		}
		return r
	case reflect.Uint64:
		return le(v.Uint(), 8)
	case reflect.Uint32:
		return le(v.Uint(), 4)
	case reflect.Int64:
		return le(uint64(v.Int()), 8)
	case reflect.Int32:
		return le(uint64(v.Int()), 4)
	}
	panic(fmt.Sprintf("harness: no reference encoding for %v", v.Type()))
}

// uvarRead: value, bytes used, ok
func uvarRead(b []byte) (uint64, int, bool) {
	var v uint64
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, 0, false
		}
		if i == 9 && b[i] > 1 {
			return 0, 0, false
		}
		v |= uint64(b[i]&127) << uint(7*i)
		if b[i] < 128 {
			return v, i + 1, true
		}
	}
	return 0, 0, false
}
