package sim

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	"verif/ref"
)

// RPCErr is an error answer of the API.
type RPCErr struct {
	HTTP int
	Code string
	Msg  string
}

func (e *RPCErr) Error() string { return fmt.Sprintf("%d %s: %s", e.HTTP, e.Code, e.Msg) }

// API calls the RPCs through an http.Handler.
type API struct{ H http.Handler }

type recorder struct {
	h    http.Header
	code int
	b    bytes.Buffer
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(p []byte) (int, error) { r.WriteHeader(200); return r.b.Write(p) }

// Raw performs a request against the handler.
func (a API) Raw(method, path, ctype string, body []byte) (code int, hdr http.Header, out []byte) {
	return a.RawCtx(context.Background(), method, path, ctype, body)
}

// RawCtx performs a request whose client leaves when ctx is done.
func (a API) RawCtx(ctx context.Context, method, path, ctype string, body []byte) (code int, hdr http.Header, out []byte) {
	req, err := http.NewRequestWithContext(ctx, method, "http://unit.test"+path, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	rec := &recorder{h: http.Header{}}
	a.H.ServeHTTP(rec, req)
	if rec.code == 0 {
		rec.code = 200
	}
	return rec.code, rec.h, rec.b.Bytes()
}

// Call performs an RPC. A contract breach is reported with Code "contract".
func (a API) Call(method string, jsonEnc bool, in ref.Val) (ref.Val, *RPCErr) {
	return a.CallCtx(context.Background(), method, jsonEnc, in)
}

// CallCtx performs an RPC whose client leaves when ctx is done.
func (a API) CallCtx(ctx context.Context, method string, jsonEnc bool, in ref.Val) (ref.Val, *RPCErr) {
	io := ref.Methods[method]
	mi := ref.Schema[io[0]]
	ct, body := "application/protobuf", []byte(nil)
	if jsonEnc {
		ct, body = "application/json", mi.EncodeJSON(in)
	} else {
		body = mi.EncodeProto(in)
	}
	code, hdr, out := a.RawCtx(ctx, "POST", "/twirp/comfo.api.Comfo/"+method, ct, body)
	return DecodeResponse(method, jsonEnc, code, hdr, out)
}

// DecodeResponse interprets an HTTP answer.
func DecodeResponse(method string, jsonEnc bool, code int, hdr http.Header, out []byte) (ref.Val, *RPCErr) {
	if code != 200 {
		var e struct{ Code, Msg string }
		if err := json.Unmarshal(out, &e); err != nil || e.Code == "" {
			return nil, &RPCErr{code, "contract", fmt.Sprintf("error body %q: %v", out, err)}
		}
		return nil, &RPCErr{code, e.Code, e.Msg}
	}
	mo := ref.Schema[ref.Methods[method][1]]
	var v ref.Val
	var err error
	want := "application/protobuf"
	if jsonEnc {
		want = "application/json"
		if v, err = mo.DecodeJSON(out); err == nil {
			err = mo.HasAll(out)
		}
	} else {
		v, err = mo.DecodeProto(out)
	}
	if got := hdr.Get("Content-Type"); err == nil && !strings.HasPrefix(got, want) {
		err = fmt.Errorf("content type %q", got)
	}
	if err != nil {
		return nil, &RPCErr{code, "contract", fmt.Sprintf("%s: body %q: %v", method, out, err)}
	}
	return v, nil
}
