package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	comfo "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/twitchtv/twirp"

	"verif/ref"
)

func init() { workloads["c21"] = c21 }

// ---- C21: the generated Go clients and server carry messages unchanged ----

// stubSvc is a service that is told what to do.
type stubSvc struct {
	h func(ctx context.Context, method string, in any) (any, error)
}

func stubbed[O any](s stubSvc, ctx context.Context, m string, in any) (*O, error) {
	o, err := s.h(ctx, m, in)
	if o == nil {
		return nil, err
	}
	return o.(*O), err
}

func (s stubSvc) GetBootInfo(c context.Context, in *comfo.Noop) (*comfo.BootInfo, error) {
	return stubbed[comfo.BootInfo](s, c, "GetBootInfo", in)
}
func (s stubSvc) GetTemps(c context.Context, in *comfo.Noop) (*comfo.Temps, error) {
	return stubbed[comfo.Temps](s, c, "GetTemps", in)
}
func (s stubSvc) GetBypass(c context.Context, in *comfo.Noop) (*comfo.Bypass, error) {
	return stubbed[comfo.Bypass](s, c, "GetBypass", in)
}
func (s stubSvc) GetFans(c context.Context, in *comfo.Noop) (*comfo.Fans, error) {
	return stubbed[comfo.Fans](s, c, "GetFans", in)
}
func (s stubSvc) GetFanProfiles(c context.Context, in *comfo.Noop) (*comfo.FanProfiles, error) {
	return stubbed[comfo.FanProfiles](s, c, "GetFanProfiles", in)
}
func (s stubSvc) GetErrors(c context.Context, in *comfo.Noop) (*comfo.Errors, error) {
	return stubbed[comfo.Errors](s, c, "GetErrors", in)
}
func (s stubSvc) SetFanSpeed(c context.Context, in *comfo.FanSpeedTarget) (*comfo.FanSpeedModified, error) {
	return stubbed[comfo.FanSpeedModified](s, c, "SetFanSpeed", in)
}
func (s stubSvc) SetComfortTemp(c context.Context, in *comfo.ComfortTarget) (*comfo.ComfortModified, error) {
	return stubbed[comfo.ComfortModified](s, c, "SetComfortTemp", in)
}
func (s stubSvc) SetFanProfile(c context.Context, in *comfo.FanProfileTarget) (*comfo.FanProfileModified, error) {
	return stubbed[comfo.FanProfileModified](s, c, "SetFanProfile", in)
}
func (s stubSvc) FlushCache(c context.Context, in *comfo.FlushCacheRequest) (*comfo.FlushCacheResponse, error) {
	return stubbed[comfo.FlushCacheResponse](s, c, "FlushCache", in)
}

var msgTypes = map[string]func() any{
	"Noop": func() any { return new(comfo.Noop) }, "BootInfo": func() any { return new(comfo.BootInfo) }, "Temps": func() any { return new(comfo.Temps) },
	"Bypass": func() any { return new(comfo.Bypass) }, "Fans": func() any { return new(comfo.Fans) }, "FanProfiles": func() any { return new(comfo.FanProfiles) },
	"Errors": func() any { return new(comfo.Errors) }, "FanSpeedTarget": func() any { return new(comfo.FanSpeedTarget) },
	"FanSpeedModified": func() any { return new(comfo.FanSpeedModified) }, "ComfortTarget": func() any { return new(comfo.ComfortTarget) },
	"ComfortModified": func() any { return new(comfo.ComfortModified) }, "FanProfileTarget": func() any { return new(comfo.FanProfileTarget) },
	"FanProfileModified": func() any { return new(comfo.FanProfileModified) }, "FlushCacheRequest": func() any { return new(comfo.FlushCacheRequest) },
	"FlushCacheResponse": func() any { return new(comfo.FlushCacheResponse) },
}

// message makes a generated message with the given values.
func message(name string, v ref.Val) any {
	m := msgTypes[name]()
	for _, f := range ref.Schema[name] {
		x, ok := v[f.Name]
		if !ok {
			continue
		}
		fv := reflect.ValueOf(m).Elem().FieldByName(f.Name)
		switch f.Kind {
		case ref.U32:
			fv.SetUint(x.(uint64))
		case ref.Enum:
			fv.SetInt(int64(int32(uint32(x.(uint64)))))
		case ref.Bool:
			fv.SetBool(x.(bool))
		case ref.F32:
			fv.SetFloat(x.(float64))
		case ref.Str:
			fv.SetString(x.(string))
		}
	}
	return m
}

// values reads a generated message; through its getters if asked to.
func values(name string, m any, getters bool) ref.Val {
	v := ref.Val{}
	for _, f := range ref.Schema[name] {
		fv := reflect.ValueOf(m).Elem().FieldByName(f.Name)
		if getters {
			fv = reflect.ValueOf(m).MethodByName("Get" + f.Name).Call(nil)[0]
		}
		switch f.Kind {
		case ref.U32:
			v[f.Name] = fv.Uint()
		case ref.Enum:
			v[f.Name] = uint64(uint32(int32(fv.Int())))
		case ref.Bool:
			v[f.Name] = fv.Bool()
		case ref.F32:
			v[f.Name] = fv.Float()
		case ref.Str:
			v[f.Name] = fv.String()
		}
	}
	return v
}

func sameVal(a, b ref.Val) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y, ok := b[k]
		if f, isF := x.(float64); isF && ok {
			g, isG := y.(float64)
			if !isG || f != g && !(math.IsNaN(f) && math.IsNaN(g)) {
				return false
			}
			continue
		}
		if !ok || x != y {
			return false
		}
	}
	return true
}

var texts = []string{"", "CA350 luxe", "12.5ms", "\u00e9\u20ac\U0001F300", "a\x00b", "\"quoted\" \\ / <&>", "line\nbreak\ttab", "\u2028\u2029", "\uFFFD", strings.Repeat("x", 130), " ", "null", "\x7f\u0080"}

// randVal makes a message with extreme and ordinary values.
func randVal(r *rand.Rand, m ref.Message, finite bool) ref.Val {
	v := m.Zero()
	for _, f := range m {
		if r.Intn(6) == 0 {
			continue
		}
		switch f.Kind {
		case ref.U32:
			v[f.Name] = []uint64{0, 1, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, uint64(r.Uint32()), uint64(r.Intn(300))}[r.Intn(15)]
		case ref.Enum:
			v[f.Name] = []uint64{0, 1, 2, 3, 4, 5, 9, 10, 11, 255, 256, 266, 1<<31 - 1, 1 << 31, 1<<32 - 1, uint64(r.Uint32())}[r.Intn(16)]
		case ref.Bool:
			v[f.Name] = r.Intn(2) == 0
		case ref.F32:
			x := []float32{0, 1, -1, -20, 107.5, 0.1, 1e-3, 16777217, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(r.NormFloat64() * 100), math.Float32frombits(r.Uint32())}[r.Intn(12)]
			if !finite && r.Intn(6) == 0 {
				x = []float32{float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN())}[r.Intn(3)]
			}
			if finite && (math.IsNaN(float64(x)) || math.IsInf(float64(x), 0)) {
				x = 3
			}
			v[f.Name] = float64(x)
		case ref.Str:
			v[f.Name] = texts[r.Intn(len(texts))]
		}
	}
	return v
}

// decodeRequest reads a request body without the code under test.
func decodeRequest(m ref.Message, ctype string, b []byte) (ref.Val, error) {
	if ctype == "application/protobuf" {
		v, err := m.DecodeProto(b)
		for _, f := range m {
			if f.Kind == ref.Enum && err == nil {
				v[f.Name] = v[f.Name].(uint64) & math.MaxUint32
			}
		}
		return v, err
	}
	// Enums may be sent by name or by number.
	var o map[string]any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&o); err != nil {
		return nil, err
	}
	for _, f := range m {
		if f.Kind != ref.Enum {
			continue
		}
		switch x := o[f.Name].(type) {
		case string:
			ok := false
			for n, s := range ref.EnumNames {
				if s == x {
					o[f.Name], ok = n, true
				}
			}
			if !ok {
				return nil, fmt.Errorf("unknown enum name %q", x)
			}
		case json.Number:
			n, err := x.Int64()
			if err != nil {
				return nil, err
			}
			o[f.Name] = uint32(int32(n))
		}
	}
	nb, err := json.Marshal(o)
	if err != nil {
		return nil, err
	}
	return m.DecodeJSON(nb)
}

type transport func(*http.Request) (*http.Response, error)

func (t transport) RoundTrip(r *http.Request) (*http.Response, error) { return t(r) }

// Codes of the protocol and their HTTP status.
var twirpCodes = map[twirp.ErrorCode]int{"canceled": 408, "unknown": 500, "invalid_argument": 400, "malformed": 400, "deadline_exceeded": 408, "not_found": 404,
	"bad_route": 404, "already_exists": 409, "permission_denied": 403, "unauthenticated": 401, "resource_exhausted": 429, "failed_precondition": 412,
	"aborted": 409, "out_of_range": 400, "unimplemented": 501, "internal": 500, "unavailable": 503, "data_loss": 500}

type hookLog struct {
	mu  sync.Mutex
	log []string
}

func (h *hookLog) add(s string) { h.mu.Lock(); h.log = append(h.log, s); h.mu.Unlock() }
func (h *hookLog) String() string {
	h.mu.Lock()
	defer h.mu.Unlock()
	return strings.Join(h.log, " ")
}

func (h *hookLog) server() *twirp.ServerHooks {
	return &twirp.ServerHooks{
		RequestReceived:  func(c context.Context) (context.Context, error) { h.add("received"); return c, nil },
		RequestRouted:    func(c context.Context) (context.Context, error) { h.add("routed"); return c, nil },
		ResponsePrepared: func(c context.Context) context.Context { h.add("prepared"); return c },
		ResponseSent:     func(c context.Context) { h.add("sent") },
		Error:            func(c context.Context, e twirp.Error) context.Context { h.add("error"); return c },
	}
}

func (h *hookLog) client() *twirp.ClientHooks {
	return &twirp.ClientHooks{
		RequestPrepared:  func(c context.Context, r *http.Request) (context.Context, error) { h.add("request"); return c, nil },
		ResponseReceived: func(c context.Context) { h.add("response") },
		Error:            func(c context.Context, e twirp.Error) { h.add("error") },
	}
}

type ctxKey struct{}

func c21(c *Ctx) {
	var wg sync.WaitGroup
	// Calls at the same time have nothing to do with each other.
	for g := 0; g < 4; g++ {
		r := rand.New(rand.NewSource(c.Rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.N && !c.Failed(); i++ {
				c21call(c, r)
			}
		}()
	}
	wg.Wait()
	c21shared(c)
}

// c21shared: callers who share a client and a server get their own answers.
func c21shared(c *Ctx) {
	srv := comfo.NewComfoServer(stubSvc{func(ctx context.Context, m string, in any) (any, error) {
		v := values(ref.Methods[m][0], in, true)
		sum := uint64(0)
		for _, x := range v {
			if n, ok := x.(uint64); ok {
				sum += n
			}
		}
		if d, ok := ctx.Value(ctxKey{}).(time.Duration); ok {
			time.Sleep(d)
		}
		if sum%7 == 3 {
			return nil, twirp.NewError(twirp.InvalidArgument, fmt.Sprint(m, " ", sum))
		}
		o := ref.Schema[ref.Methods[m][1]].Zero()
		if _, ok := o["ReqTime"]; ok {
			o["ReqTime"] = fmt.Sprint(m, " ", sum)
		}
		return message(ref.Methods[m][1], o), nil
	}})
	// The headers of all calls.
	own := http.Header{"X-Shared": {"a", "b"}, "X-Other": {""}}
	base, err := twirp.WithHTTPRequestHeaders(context.Background(), own)
	if err != nil {
		c.Viol("headers %v are refused: %v", own, err)
		return
	}
	hc := &http.Client{Transport: transport(func(req *http.Request) (*http.Response, error) {
		b, _ := io.ReadAll(req.Body)
		if d, ok := req.Context().Value(ctxKey{}).(time.Duration); ok {
			time.Sleep(d / 2)
		}
		if !reflect.DeepEqual(req.Header["X-Shared"], []string{"a", "b"}) {
			c.Viol("the headers %v arrive as %v", own, req.Header)
		}
		sreq, _ := http.NewRequestWithContext(req.Context(), req.Method, req.URL.String(), bytes.NewReader(b))
		sreq.Header = req.Header.Clone()
		w := &rec{h: http.Header{}}
		srv.ServeHTTP(w, sreq)
		return &http.Response{StatusCode: w.code, Header: w.h, Body: io.NopCloser(&w.b), Request: req}, nil
	})}
	cls := []comfo.Comfo{comfo.NewComfoJSONClient("http://unit.test", hc), comfo.NewComfoProtobufClient("http://unit.test", hc)}
	if hc.CheckRedirect != nil {
		c.Viol("making a client changes the caller's http.Client")
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		r := rand.New(rand.NewSource(c.Rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.N/4 && !c.Failed(); i++ {
				m := []string{"SetFanSpeed", "SetComfortTemp", "SetFanProfile", "FlushCache"}[r.Intn(4)]
				a := uint64(r.Intn(1000))
				in := ref.Val{map[string]string{"SetFanSpeed": "Abs", "SetComfortTemp": "ComfortTemp", "SetFanProfile": "Mode", "FlushCache": "Cache"}[m]: a}
				ctx := context.WithValue(base, ctxKey{}, time.Duration(r.Intn(3))*time.Millisecond)
				k := r.Intn(2)
				res := reflect.ValueOf(cls[k]).MethodByName(m).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(message(ref.Methods[m][0], in))})
				err, _ := res[1].Interface().(error)
				want := fmt.Sprint(m, " ", a)
				var te twirp.Error
				switch {
				case a%7 == 3 && (!errors.As(err, &te) || te.Code() != twirp.InvalidArgument || te.Msg() != want):
					c.Viol("%s(%d) among other calls: %v, expected error %q", m, a, err, want)
				case a%7 != 3 && (err != nil || values(ref.Methods[m][1], res[0].Interface(), true)["ReqTime"] != want):
					c.Viol("%s(%d) among other calls: %v, %v, expected %q", m, a, res[0].Interface(), err, want)
				}
				c.Count("calls_with_shared_client", 1)
			}
		}()
	}
	wg.Wait()
	if !reflect.DeepEqual(own, http.Header{"X-Shared": {"a", "b"}, "X-Other": {""}}) {
		c.Viol("calls change the caller's headers to %v", own)
	}
}

func c21call(c *Ctx, r *rand.Rand) {
	m := ref.MethodNm[r.Intn(len(ref.MethodNm))]
	inName, outName := ref.Methods[m][0], ref.Methods[m][1]
	in := randVal(r, ref.Schema[inName], true)
	jsonEnc := r.Intn(2) == 0
	ctype := "application/protobuf"
	if jsonEnc {
		ctype = "application/json"
	}
	base := []string{"http://unit.test", "https://unit.test:3094", "http://unit.test/behind/proxy", "http://[::1]:3094"}[r.Intn(4)]
	prefix := []string{"/twirp", "/twirp", "/other", "", "/a/b"}[r.Intn(5)]
	if strings.HasSuffix(base, "proxy") && prefix != "/twirp" {
		base = "http://unit.test"
	}
	var ch, sh hookLog
	var copts []twirp.ClientOption
	var sopts []any
	if prefix != "/twirp" || r.Intn(2) == 0 {
		copts = append(copts, twirp.WithClientPathPrefix(prefix))
		sopts = append(sopts, twirp.WithServerPathPrefix(prefix))
	}
	hooked := r.Intn(2) == 0
	if hooked {
		copts = append(copts, twirp.WithClientHooks(ch.client()))
		if r.Intn(2) == 0 {
			sopts = append(sopts, sh.server())
		} else {
			sopts = append(sopts, twirp.WithServerHooks(sh.server()))
		}
	} else if r.Intn(2) == 0 {
		sopts = append(sopts, nil)
	}
	camel := jsonEnc && r.Intn(4) == 0
	if camel {
		sopts = append(sopts, twirp.WithServerJSONCamelCaseNames(true))
	}
	if jsonEnc && r.Intn(4) == 0 {
		sopts = append(sopts, twirp.WithServerJSONSkipDefaults(true))
	}
	// Interceptors see the typed messages and may replace the answer.
	var seen []string
	var seenMu sync.Mutex
	icept := func(side string) twirp.Interceptor {
		return func(next twirp.Method) twirp.Method {
			return func(ctx context.Context, req any) (any, error) {
				seenMu.Lock()
				mn, _ := twirp.MethodName(ctx)
				pn, _ := twirp.PackageName(ctx)
				sn, _ := twirp.ServiceName(ctx)
				seen = append(seen, fmt.Sprintf("%s %s.%s.%s %T", side, pn, sn, mn, req))
				seenMu.Unlock()
				return next(ctx, req)
			}
		}
	}
	nci, nsi := r.Intn(4)/2, r.Intn(4)/2
	for i := 0; i < nci; i++ {
		copts = append(copts, twirp.WithClientInterceptors(icept("client")))
	}
	for i := 0; i < nsi; i++ {
		sopts = append(sopts, twirp.WithServerInterceptors(icept("server")))
	}

	// What the far end does.
	const (
		answer = iota
		twerr
		plainErr
		nothing
		panics
		refAnswer
		refError
		intermediary
		garbage
		broken
		badUTF8
		early
		kinds
	)
	what := r.Intn(kinds)
	if r.Intn(3) == 0 {
		what = []int{answer, refAnswer}[r.Intn(2)]
	}
	out := randVal(r, ref.Schema[outName], what == refAnswer || what == broken)
	if what == badUTF8 {
		has := false
		for _, f := range ref.Schema[outName] {
			if f.Kind == ref.Str {
				out[f.Name], has = "a\xff\xfeb", true
			}
		}
		if !has {
			what = answer
		}
	}
	var codes []twirp.ErrorCode
	for k := range twirpCodes {
		codes = append(codes, k)
	}
	// Map order must not matter for repeatability.
	sortCodes(codes)
	code := codes[r.Intn(len(codes))]
	msg := texts[r.Intn(len(texts))]
	meta := map[string]string{}
	for i := r.Intn(3); i > 0; i-- {
		meta[fmt.Sprint("key", i)] = texts[r.Intn(len(texts))]
	}
	mkErr := func() error {
		e := twirp.NewError(code, msg)
		for k, v := range meta {
			e = e.WithMeta(k, v)
		}
		if r.Intn(3) == 0 {
			return fmt.Errorf("wrapped: %w", e)
		}
		return e
	}
	hdr := http.Header{}
	if r.Intn(2) == 0 {
		hdr.Set("X-Caller", fmt.Sprint(r.Int63()))
		hdr.Add("X-Many", "1")
		hdr.Add("X-Many", "2")
	}
	svcCalls := 0
	var got ref.Val
	var problems []string
	prob := func(f string, a ...any) { problems = append(problems, fmt.Sprintf(f, a...)) }
	svc := stubSvc{func(ctx context.Context, method string, req any) (any, error) {
		svcCalls++
		if method != m {
			prob("the service's %s was called", method)
			return nil, errors.New("other method")
		}
		got = values(inName, req, r.Intn(2) == 0)
		if mn, _ := twirp.MethodName(ctx); mn != m {
			prob("the context names method %q", mn)
		}
		twirp.SetHTTPResponseHeader(ctx, "X-Answer", "yes")
		switch what {
		case twerr:
			return nil, mkErr()
		case plainErr:
			return nil, errors.New("plain: " + msg)
		case nothing:
			return nil, nil
		case panics:
			panic("service panic")
		}
		return message(outName, out), nil
	}}
	server := comfo.NewComfoServer(svc, sopts...)
	if want := prefix + "/comfo.api.Comfo/"; server.PathPrefix() != want {
		c.Viol("PathPrefix of a server with prefix %q is %q", prefix, server.PathPrefix())
	}
	status := []int{300, 301, 302, 303, 307, 308, 400, 401, 403, 404, 405, 408, 413, 418, 429, 500, 502, 503, 504}[r.Intn(19)]
	bodies, bodyClosed := 0, 0 // response bodies given out, and closed
	var rawErr []byte
	reqs := 0
	tr := transport(func(req *http.Request) (*http.Response, error) {
		reqs++
		body, err := io.ReadAll(req.Body)
		if err != nil {
			prob("request body: %v", err)
		}
		bp := strings.TrimSuffix(base, "/")
		u := req.URL.String()
		if want := bp + prefix + "/comfo.api.Comfo/" + m; u != want {
			prob("the request goes to %s, expected %s", u, want)
		}
		if req.Method != "POST" || req.Header.Get("Content-Type") != ctype {
			prob("the request is %s with content type %q", req.Method, req.Header.Get("Content-Type"))
		}
		for k, v := range hdr {
			if !reflect.DeepEqual(req.Header[k], v) {
				prob("header %s is %q, the caller set %q", k, req.Header[k], v)
			}
		}
		v, err := decodeRequest(ref.Schema[inName], ctype, body)
		if err != nil || !sameVal(v, in) {
			prob("the request carries %v, %v (%q)", v, err, body)
		}
		resp := func(code int, h http.Header, b []byte) (*http.Response, error) {
			if h == nil {
				h = http.Header{}
			}
			bodies++
			return &http.Response{StatusCode: code, Header: h, Body: closer{bytes.NewReader(b), &bodyClosed}, Request: req, ProtoMajor: 1, ProtoMinor: 1, ContentLength: int64(len(b))}, nil
		}
		switch what {
		case refAnswer:
			h := http.Header{"Content-Type": {ctype}}
			if jsonEnc {
				b := ref.Schema[outName].EncodeJSON(out)
				if r.Intn(3) == 0 {
					b = append(b[:len(b)-1], []byte(`,"NewField":{"a":[1]}}`)...)
					if bytes.HasPrefix(b, []byte("{,")) {
						b = []byte("{}")
					}
				}
				return resp(200, h, b)
			}
			b := ref.Schema[outName].EncodeProto(out)
			if r.Intn(3) == 0 {
				b = append(b, 0xF8, 0x01, 5) // field 31
			}
			return resp(200, h, b)
		case refError:
			o := map[string]any{"code": code, "msg": msg}
			if len(meta) > 0 {
				o["meta"] = meta
			}
			b, _ := json.Marshal(o)
			return resp(twirpCodes[code], http.Header{"Content-Type": {"application/json"}}, b)
		case intermediary:
			return resp(status, http.Header{"Content-Type": {"text/html"}, "Location": {"http://elsewhere.test/"}}, []byte([]string{"<html>gateway</html>", "", "{}", `{"msg":"x"}`, "null", "{"}[r.Intn(6)]))
		case garbage:
			b := [][]byte{{0xFF, 0xFF}, {0x08}, []byte("<html>"), {0x0F, 0x01}, []byte("{\"")}[r.Intn(5)]
			if jsonEnc {
				b = [][]byte{[]byte("<html>"), []byte("{"), []byte("[]"), []byte(""), []byte("\"x\""), []byte(`{"`)}[r.Intn(6)]
			}
			return resp(200, http.Header{"Content-Type": {ctype}}, b)
		case broken:
			if r.Intn(2) == 0 {
				return nil, errors.New("connection refused")
			}
			b := ref.Schema[outName].EncodeProto(out)
			if jsonEnc {
				b = ref.Schema[outName].EncodeJSON(out)
				b = b[:len(b)-1]
			}
			x, _ := resp(200, nil, nil)
			x.Body = closer{io.MultiReader(bytes.NewReader(b), failing{}), &bodyClosed}
			return x, nil
		}
		// The generated server.
		if strings.HasPrefix(req.URL.Path, "/behind/proxy") {
			req.URL.Path = strings.TrimPrefix(req.URL.Path, "/behind/proxy")
		}
		rec := &rec{h: http.Header{}}
		sreq, _ := http.NewRequestWithContext(req.Context(), req.Method, req.URL.String(), bytes.NewReader(body))
		sreq.Header = req.Header.Clone()
		if jsonEnc && r.Intn(3) == 0 {
			sreq.Header.Set("Content-Type", "application/json; charset=utf-8")
		}
		func() {
			defer func() {
				if p := recover(); p != nil && what != panics {
					prob("the server panics: %v", p)
				}
			}()
			server.ServeHTTP(rec, sreq)
		}()
		if what != answer && rec.code == 200 {
			prob("the server answers status 200 to a failed call: %q", rec.b.Bytes())
		}
		if what == answer {
			if rec.code != 200 || !strings.HasPrefix(rec.h.Get("Content-Type"), ctype) {
				prob("the server answers status %d, content type %q", rec.code, rec.h.Get("Content-Type"))
			}
			if !jsonEnc {
				if v, err := ref.Schema[outName].DecodeProto(rec.b.Bytes()); err != nil || !sameVal(v, out) {
					prob("the server's body % x means %v, %v", rec.b.Bytes(), v, err)
				}
			}
		} else {
			rawErr = rec.b.Bytes()
			if rec.h.Get("Content-Type") != "application/json" {
				prob("the server's error has content type %q", rec.h.Get("Content-Type"))
			}
			if what == twerr && rec.code != twirpCodes[code] {
				prob("the server answers status %d to %s", rec.code, code)
			}
		}
		if rec.h.Get("X-Answer") == "" {
			prob("the service's response header is missing")
		}
		return resp(rec.code, rec.h, rec.b.Bytes())
	})
	hc := &http.Client{Transport: tr}
	var cl comfo.Comfo
	if jsonEnc {
		cl = comfo.NewComfoJSONClient(base, hc, copts...)
	} else {
		cl = comfo.NewComfoProtobufClient(base, hc, copts...)
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, 1))
	defer cancel()
	if len(hdr) > 0 {
		ctx, _ = twirp.WithHTTPRequestHeaders(ctx, hdr.Clone())
	}
	if what == early {
		cancel()
	}
	arg := message(inName, in)
	res := reflect.ValueOf(cl).MethodByName(m).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(arg)})
	err, _ := res[1].Interface().(error)
	names := []string{"answers", "returns a twirp error", "returns an error", "returns nothing", "panics", "answer", "error", "intermediary answers", "garbage", "broken connection", "answers a string that is not UTF-8", "context done before"}
	enc := "protobuf"
	if jsonEnc {
		enc = "JSON"
	}
	desc := fmt.Sprintf("%s client, %s%v via %s%s; service: %s (%v; %s %q %v; status %d)", enc, m, in, base, prefix, names[what], out, code, msg, meta, status)
	for _, p := range problems {
		c.Viol("%s: %s", desc, p)
	}
	if v := values(inName, arg, false); !sameVal(v, in) {
		c.Viol("%s: the caller's request was changed to %v", desc, v)
	}
	if (what == early) != (reqs == 0) || reqs > 1 {
		c.Viol("%s: %d requests were made", desc, reqs)
	}
	viaServer := what == answer || what == twerr || what == plainErr || what == nothing || what == panics || what == badUTF8
	if viaServer && (svcCalls != 1 || got == nil || !sameVal(got, in)) {
		c.Viol("%s: the service was called %d times, with %v", desc, svcCalls, got)
	}
	want := what == answer || what == refAnswer
	nilOut := res[0].IsNil()
	if want {
		if err != nil || nilOut {
			c.Viol("%s: the client fails: %v", desc, err)
		} else if v := values(outName, res[0].Interface(), r.Intn(2) == 0); !sameVal(v, out) {
			c.Viol("%s: the client returns %v", desc, v)
		}
	} else {
		if err == nil || !nilOut {
			c.Viol("%s: the client returns %v, %v instead of an error", desc, res[0].Interface(), err)
		} else {
			var te twirp.Error
			if !errors.As(err, &te) && what != early {
				c.Viol("%s: the client's error is not a twirp error: %v", desc, err)
			} else if te != nil {
				expect := twirp.ErrorCode("")
				switch what {
				case twerr, refError:
					expect = code
					if te.Msg() != msg && utf8.ValidString(msg) {
						c.Viol("%s: the error's message is %q", desc, te.Msg())
					}
					for k, v := range meta {
						if te.Meta(k) != v {
							c.Viol("%s: the error's %s is %q", desc, k, te.Meta(k))
						}
					}
				case plainErr, nothing, panics, garbage, broken, badUTF8, early:
					expect = "internal"
				case intermediary:
					expect = map[int]twirp.ErrorCode{400: "internal", 401: "unauthenticated", 403: "permission_denied", 404: "bad_route", 429: "resource_exhausted", 502: "unavailable", 503: "unavailable", 504: "unavailable"}[status]
					if expect == "" {
						expect = "unknown"
					}
					if status < 400 {
						expect = "internal"
					}
				}
				if te.Code() != expect {
					c.Viol("%s: the error is %v, expected code %s (body %q)", desc, te, expect, rawErr)
				}
				if what == plainErr && !strings.Contains(te.Msg(), "plain: ") {
					c.Viol("%s: the error's message is %q", desc, te.Msg())
				}
			}
		}
	}
	if bodyClosed != bodies {
		c.Viol("%s: of %d response bodies, %d were closed", desc, bodies, bodyClosed)
	}
	if hooked {
		cw, sw := "request error", "received routed error sent"
		if want {
			cw, sw = "request response", "received routed prepared sent"
		}
		if what == badUTF8 {
			sw = "received routed prepared error sent"
		}
		if what == early {
			cw = "error"
		}
		if !viaServer {
			sw = ""
		}
		if ch.String() != cw || sh.String() != sw {
			c.Viol("%s: client hooks ran %q, server hooks %q; expected %q and %q", desc, ch.String(), sh.String(), cw, sw)
		}
	}
	var wantSeen []string
	for i := 0; i < nci; i++ {
		wantSeen = append(wantSeen, fmt.Sprintf("client comfo.api.Comfo.%s %T", m, arg))
	}
	for i := 0; i < nsi && viaServer; i++ {
		wantSeen = append(wantSeen, fmt.Sprintf("server comfo.api.Comfo.%s %T", m, arg))
	}
	if !reflect.DeepEqual(seen, wantSeen) {
		c.Viol("%s: interceptors saw %q, expected %q", desc, seen, wantSeen)
	}
	c.Eval(desc)
	c.Count(names[what], 1)
	if r.Intn(2000) == 0 {
		c.Sample("%s -> %v", desc, err)
	}
}

type rec struct {
	h    http.Header
	code int
	b    bytes.Buffer
}

func (r *rec) Header() http.Header { return r.h }
func (r *rec) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *rec) Write(p []byte) (int, error) { r.WriteHeader(200); return r.b.Write(p) }

type closer struct {
	io.Reader
	n *int
}

func (c closer) Close() error { *c.n++; return nil }

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

func sortCodes(c []twirp.ErrorCode) {
	for i := range c {
		for j := i + 1; j < len(c); j++ {
			if c[j] < c[i] {
				c[i], c[j] = c[j], c[i]
			}
		}
	}
}
