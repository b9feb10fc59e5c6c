package zzmodel

import (
	"encoding"
	"errors"

	zz "github.com/vivint/rothko/internal/zzverif"
)

// TOML is what the configuration text parses to, TOMLBad that it does not.
// The harness encodes the same tree as text for the real parser.
var (
	TOML    map[string]interface{}
	TOMLBad bool
)

var errTOML = errors.New("toml")

//zz:for github.com/BurntSushi/toml.Unmarshal
func tomlUnmarshal(data []byte, v interface{}) error {
	if TOMLBad {
		return errTOML
	}
	return tomlStore(TOML, v)
}

// tomlStore stores the tree into what v points to, like the decoder does.
func tomlStore(tree interface{}, v interface{}) error {
	if u, ok := v.(encoding.TextUnmarshaler); ok {
		s, ok := tree.(string)
		if !ok {
			return errTOML
		}
		return u.UnmarshalText([]byte(s))
	}
	if zz.IsStruct(v) {
		m, ok := tree.(map[string]interface{})
		if !ok {
			return errTOML
		}
		for k, x := range m {
			f := zz.Field(v, "toml", k)
			if f == nil {
				continue
			}
			if err := tomlStore(x, f); err != nil {
				return err
			}
		}
		return nil
	}
	switch p := v.(type) {
	case *string:
		s, ok := tree.(string)
		if !ok {
			return errTOML
		}
		*p = s
	case *bool:
		b, ok := tree.(bool)
		if !ok {
			return errTOML
		}
		*p = b
	case *int64:
		n, ok := tree.(int64)
		if !ok {
			return errTOML
		}
		*p = n
	case *int:
		n, ok := tree.(int64)
		if !ok {
			return errTOML
		}
		*p = int(n)
	case *float64:
		n, ok := tree.(float64)
		if !ok {
			return errTOML
		}
		*p = n
	case *interface{}:
		*p = tree
	case *[]string:
		l, ok := tree.([]interface{})
		if !ok {
			return errTOML
		}
		out := make([]string, len(l))
		for i, x := range l {
			if err := tomlStore(x, &out[i]); err != nil {
				return err
			}
		}
		*p = out
	case *[]interface{}:
		l, ok := tomlList(tree)
		if !ok {
			return errTOML
		}
		*p = l
	case *[]map[string]interface{}:
		l, ok := tomlList(tree)
		if !ok {
			return errTOML
		}
		out := make([]map[string]interface{}, len(l))
		for i, x := range l {
			if err := tomlStore(x, &out[i]); err != nil {
				return err
			}
		}
		*p = out
	case *map[string]interface{}:
		m, ok := tree.(map[string]interface{})
		if !ok {
			return nil // the decoder ignores these
		}
		out := make(map[string]interface{})
		for k, x := range m {
			out[k] = x
		}
		*p = out
	case *map[string]map[string]interface{}:
		m, ok := tree.(map[string]interface{})
		if !ok {
			return nil // the decoder ignores these
		}
		out := make(map[string]map[string]interface{})
		for k, x := range m {
			var e map[string]interface{}
			if err := tomlStore(x, &e); err != nil {
				return err
			}
			out[k] = e
		}
		*p = out
	case *map[string][]interface{}:
		m, ok := tree.(map[string]interface{})
		if !ok {
			return nil // the decoder ignores these
		}
		out := make(map[string][]interface{})
		for k, x := range m {
			var e []interface{}
			if err := tomlStore(x, &e); err != nil {
				return err
			}
			out[k] = e
		}
		*p = out
	case *map[string][]map[string]interface{}:
		m, ok := tree.(map[string]interface{})
		if !ok {
			return nil // the decoder ignores these
		}
		out := make(map[string][]map[string]interface{})
		for k, x := range m {
			var e []map[string]interface{}
			if err := tomlStore(x, &e); err != nil {
				return err
			}
			out[k] = e
		}
		*p = out
	default:
		panic("the model of the parser does not know " + zz.TypeName(v))
	}
	return nil
}

func tomlList(tree interface{}) ([]interface{}, bool) {
	switch l := tree.(type) {
	case []interface{}:
		return l, true
	case []map[string]interface{}:
		out := make([]interface{}, len(l))
		for i := range l {
			out[i] = l[i]
		}
		return out, true
	}
	return nil, false
}
