// Package toml stands in for the TOML parser: what a text sets is up to the
// harness.
package toml

import (
	"errors"
	"io"
	"io/ioutil"
)

type MetaData struct{}

func (MetaData) Undecoded() []Key         { return nil }
func (MetaData) IsDefined(...string) bool { return false }
func (MetaData) Keys() []Key              { return nil }

type Key []string

// VerifDecode applies a text to a value.
var VerifDecode func(text string, v interface{}) error

func Decode(data string, v interface{}) (MetaData, error) {
	if VerifDecode == nil {
		return MetaData{}, errors.New("no decoder")
	}
	return MetaData{}, VerifDecode(data, v)
}

func Unmarshal(p []byte, v interface{}) error {
	_, err := Decode(string(p), v)
	return err
}

func DecodeReader(r io.Reader, v interface{}) (MetaData, error) {
	b, err := ioutil.ReadAll(r)
	if err != nil {
		return MetaData{}, err
	}
	return Decode(string(b), v)
}

type Decoder struct{ r io.Reader }

func NewDecoder(r io.Reader) *Decoder { return &Decoder{r} }

func (d *Decoder) Decode(v interface{}) (MetaData, error) { return DecodeReader(d.r, v) }
