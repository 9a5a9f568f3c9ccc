package vmodels

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
)

// The json* functions are intrinsics of the encoder.

func jsonSeal(v any) (text, err string)  { panic("intrinsic") }
func jsonOpen(data []byte, v any) string { panic("intrinsic") }
func jsonValid(data []byte) bool         { panic("intrinsic") }

// JSONMarshal stands for json.Marshal.
func JSONMarshal(v any) ([]byte, error) {
	t, e := jsonSeal(v)
	if e != "" {
		return nil, errors.New(e)
	}
	return []byte(t), nil
}

// JSONMarshalIndent stands for json.MarshalIndent.
func JSONMarshalIndent(v any, prefix, indent string) ([]byte, error) { return JSONMarshal(v) }

// JSONUnmarshal stands for json.Unmarshal.
func JSONUnmarshal(data []byte, v any) error {
	switch e := jsonOpen(data, v); e {
	case "":
		return nil
	case "!":
		return errors.New("json: syntax error")
	default:
		return errors.New(e)
	}
}

// JSONValid stands for json.Valid.
func JSONValid(data []byte) bool { return jsonValid(data) }

// ---- json.Decoder and json.Encoder ----

// jsonFirst tells where the first value of a text ends: -1 for none, -2 for a
// broken one, -3 for one that is cut off.
func jsonFirst(data []byte) int            { panic("intrinsic") }
func jsonStrict(data []byte, v any) string { panic("intrinsic") }
func jsonNo(what string)                   { panic("intrinsic") }
func jsonDecOut(d *jsonDec) *json.Decoder  { panic("intrinsic") }
func jsonDecIn(d *json.Decoder) *jsonDec   { panic("intrinsic") }
func jsonEncOut(d *jsonEnc) *json.Encoder  { panic("intrinsic") }
func jsonEncIn(d *json.Encoder) *jsonEnc   { panic("intrinsic") }

type jsonDec struct {
	r      io.Reader
	buf    []byte
	rerr   error
	err    error
	off    int64
	strict bool
}

type jsonEnc struct {
	w   io.Writer
	err error
}

// JSONNewDecoder stands for json.NewDecoder.
func JSONNewDecoder(r io.Reader) *json.Decoder { return jsonDecOut(&jsonDec{r: r}) }

func (s *jsonDec) fill() {
	if s.rerr != nil {
		return
	}
	var b []byte
	b, s.rerr = io.ReadAll(s.r)
	s.buf = append(s.buf, b...)
	if s.rerr == nil {
		s.rerr = io.EOF
	}
}

func (s *jsonDec) skip() {
	for len(s.buf) > 0 && (s.buf[0] == ' ' || s.buf[0] == '\n' || s.buf[0] == '\r' || s.buf[0] == '\t') {
		s.buf = s.buf[1:]
		s.off++
	}
}

// JSONDecode stands for (*json.Decoder).Decode.
func JSONDecode(d *json.Decoder, v any) error {
	s := jsonDecIn(d)
	if s.err != nil {
		return s.err
	}
	s.fill()
	s.skip()
	n := jsonFirst(s.buf)
	switch n {
	case -1:
		s.err = s.rerr
		return s.err
	case -2:
		s.err = errors.New("json: syntax error")
		return s.err
	case -3:
		s.err = s.rerr
		if s.err == io.EOF {
			s.err = io.ErrUnexpectedEOF
		}
		return s.err
	}
	data := s.buf[:n]
	s.buf = s.buf[n:]
	s.off += int64(n)
	if s.strict {
		if e := jsonStrict(data, v); e != "" {
			return errors.New(e)
		}
		return nil
	}
	return JSONUnmarshal(data, v)
}

// JSONMore stands for (*json.Decoder).More outside of arrays and objects.
func JSONMore(d *json.Decoder) bool {
	s := jsonDecIn(d)
	s.fill()
	s.skip()
	return len(s.buf) > 0 && s.buf[0] != ']' && s.buf[0] != '}'
}

// JSONBuffered stands for (*json.Decoder).Buffered.
func JSONBuffered(d *json.Decoder) io.Reader { return bytes.NewReader(jsonDecIn(d).buf) }

// JSONInputOffset stands for (*json.Decoder).InputOffset.
func JSONInputOffset(d *json.Decoder) int64 { return jsonDecIn(d).off }

// JSONStrict stands for (*json.Decoder).DisallowUnknownFields.
func JSONStrict(d *json.Decoder) { jsonDecIn(d).strict = true }

// JSONUseNumber stands for (*json.Decoder).UseNumber.
func JSONUseNumber(d *json.Decoder) { jsonNo("UseNumber") }

// JSONToken stands for (*json.Decoder).Token.
func JSONToken(d *json.Decoder) (json.Token, error) {
	s := jsonDecIn(d)
	s.fill()
	s.skip()
	if len(s.buf) == 0 {
		return nil, s.rerr
	}
	jsonNo("Token")
	return nil, nil
}

// JSONNewEncoder stands for json.NewEncoder.
func JSONNewEncoder(w io.Writer) *json.Encoder { return jsonEncOut(&jsonEnc{w: w}) }

// JSONEncode stands for (*json.Encoder).Encode.
func JSONEncode(e *json.Encoder, v any) error {
	s := jsonEncIn(e)
	if s.err != nil {
		return s.err
	}
	b, err := JSONMarshal(v)
	if err != nil {
		return err
	}
	_, s.err = s.w.Write(append(b, '\n'))
	return s.err
}

// JSONSetIndent and JSONSetEscape change only the look of the text.
func JSONSetIndent(e *json.Encoder, prefix, indent string) {}
func JSONSetEscape(e *json.Encoder, on bool)               {}
