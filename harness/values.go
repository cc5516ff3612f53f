package main

import (
	"fmt"
	"math"
	"sort"
)

// deepDiff compares generic JSON values.
func deepDiff(a, b interface{}) string {
	switch a := a.(type) {
	case map[string]interface{}:
		b, ok := b.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("object, want %T", b)
		}
		if a == nil != (b == nil) {
			return "nil and empty object differ"
		}
		keys := []string{}
		for k := range a {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v, ok := b[k]
			if !ok {
				return fmt.Sprintf("unexpected key %q", k)
			}
			if d := deepDiff(a[k], v); d != "" {
				return fmt.Sprintf("%q: %s", k, d)
			}
		}
		for k := range b {
			if _, ok := a[k]; !ok {
				return fmt.Sprintf("key %q is missing", k)
			}
		}
		return ""
	case []interface{}:
		bb, ok := b.([]interface{})
		if !ok || len(a) != len(bb) {
			return fmt.Sprintf("array of %d, want %T of %d", len(a), b, len(bb))
		}
		if a == nil != (bb == nil) {
			return "nil and empty array differ"
		}
		for i := range a {
			if d := deepDiff(a[i], bb[i]); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
		return ""
	case float64:
		bf, ok := b.(float64)
		if !ok || math.Float64bits(a) != math.Float64bits(bf) {
			return fmt.Sprintf("%v, want %v", a, b)
		}
		return ""
	default:
		if a != b {
			return fmt.Sprintf("%#v, want %#v", a, b)
		}
		return ""
	}
}
