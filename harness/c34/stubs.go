package c34

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	zz "github.com/keyfuse/tokucore/zzverif"
)

// The functions below stand in for library functions inside the engine only.

type decoder struct {
	d    *json.Decoder
	r    io.Reader
	rest []byte
	err  error
}

var decoders []*decoder

func jsonNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decoders = append(decoders, &decoder{d: d, r: r})
	return d
}

func jsonDecode(d *json.Decoder, v any) error {
	for _, x := range decoders {
		if x.d != d {
			continue
		}
		if x.err == nil && x.rest == nil {
			x.rest = []byte{}
			b := make([]byte, 512)
			for x.err == nil {
				var n int
				n, x.err = x.r.Read(b)
				x.rest = append(x.rest, b[:n]...)
			}
		}
		used, more := zz.JSONFirst(x.rest)
		if used == 0 {
			if more && x.err != io.EOF {
				return x.err
			}
			if more {
				return io.ErrUnexpectedEOF
			}
			return errors.New("invalid JSON")
		}
		p := x.rest[:used]
		x.rest = x.rest[used:]
		return json.Unmarshal(p, v)
	}
	panic("a decoder that was not made")
}

type encoder struct {
	d *json.Encoder
	w io.Writer
}

var encoders []*encoder

func jsonNewEncoder(w io.Writer) *json.Encoder {
	d := new(json.Encoder)
	encoders = append(encoders, &encoder{d, w})
	return d
}

func jsonEncode(d *json.Encoder, v any) error {
	for _, x := range encoders {
		if x.d == d {
			b, err := json.Marshal(v)
			if err != nil {
				return err
			}
			_, err = x.w.Write(append(b, '\n'))
			return err
		}
	}
	panic("an encoder that was not made")
}

func httpNewRequest(method, u string, body io.Reader) (*http.Request, error) {
	return httpNewRequestWithContext(context.Background(), method, u, body)
}

func httpNewRequestWithContext(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	if !strings.HasPrefix(u, "http://") {
		return nil, errors.New("unsupported protocol scheme")
	}
	host, path := u[7:], ""
	if i := strings.IndexByte(host, '/'); i >= 0 {
		host, path = host[:i], host[i:]
	}
	r := &http.Request{Method: method, URL: &url.URL{Scheme: "http", Host: host, Path: path}, Host: host, Header: http.Header{}}
	if body != nil {
		rc, ok := body.(io.ReadCloser)
		if !ok {
			rc = io.NopCloser(body)
		}
		r.Body = rc
	}
	return r.WithContext(ctx), nil
}

func httpDo(c *http.Client, r *http.Request) (*http.Response, error) {
	t := c.Transport
	if t == nil {
		t = http.DefaultTransport
	}
	if c.Timeout > 0 {
		ctx, _ := contextWithTimeout(r.Context(), c.Timeout)
		r = r.WithContext(ctx)
	}
	resp, err := t.RoundTrip(r)
	if err != nil {
		return nil, &url.Error{Op: "Post", URL: "http://" + r.Host, Err: err}
	}
	return resp, nil
}

type limited struct {
	context.Context
	at time.Time
}

func (l *limited) Deadline() (time.Time, bool) { return l.at, true }

func contextWithTimeout(ctx context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return &limited{ctx, time.Now()}, func() {}
}

func contextWithDeadline(ctx context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return &limited{ctx, d}, func() {}
}
