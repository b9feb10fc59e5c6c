package zzmodel

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
)

// Decoded are the strings that base64 texts stand for.
var Decoded map[string]string

//zz:for (*encoding/base64.Encoding).DecodeString
func base64Decode(_ *base64.Encoding, s string) ([]byte, error) {
	if v, ok := Decoded[s]; ok {
		return []byte(v), nil
	}
	return nil, errors.New("illegal base64 data")
}

// The hash is idealised: it tells all texts of up to 30 bytes apart.
//
//zz:for crypto/sha256.Sum256
func sha256Sum(b []byte) (out [32]byte) {
	if len(b) > 30 {
		panic("zzmodel: hash of a long text")
	}
	copy(out[1:], b)
	out[0] = byte(len(b))
	out[31] = 0xA5
	return out
}

// Rand is what the next byte of crypto/rand is.
var Rand byte

//zz:for crypto/rand.Read
func cryptoRead(b []byte) (int, error) {
	for i := range b {
		Rand += 37
		b[i] = Rand
	}
	return len(b), nil
}

//zz:for fmt.Fprintf plain
func fmtFprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	if _, ok := w.(*os.File); ok {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintf(format, args...)))
}

//zz:for io.WriteString plain
func ioWriteString(w io.Writer, s string) (int, error) {
	if sw, ok := w.(io.StringWriter); ok {
		return sw.WriteString(s)
	}
	return w.Write([]byte(s))
}

// Encoded are the values written as JSON, Pictures the images as PNG.
var (
	Encoded  []interface{}
	Pictures []image.Image
	encoders map[*json.Encoder]io.Writer
)

//zz:for encoding/json.NewEncoder
func jsonNewEncoder(w io.Writer) *json.Encoder {
	if encoders == nil {
		encoders = map[*json.Encoder]io.Writer{}
	}
	e := new(json.Encoder)
	encoders[e] = w
	return e
}

//zz:for (*encoding/json.Encoder).Encode plain
func jsonEncode(e *json.Encoder, v interface{}) error {
	Encoded = append(Encoded, v)
	_, err := encoders[e].Write([]byte("json\n"))
	return err
}

//zz:for encoding/json.Marshal
func jsonMarshal(v interface{}) ([]byte, error) {
	Encoded = append(Encoded, v)
	return []byte("json"), nil
}

//zz:for image/png.Encode plain
func pngEncode(w io.Writer, m image.Image) error {
	Pictures = append(Pictures, m)
	_, err := w.Write([]byte("png"))
	return err
}

// The compiler replaces this one.
//
//zz:for crypto/internal/constanttime.boolToUint8
func boolToUint8(b bool) uint8 {
	if b {
		return 1
	}
	return 0
}
