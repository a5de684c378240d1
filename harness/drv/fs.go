package main

import (
	"crypto/sha256"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	suriya "github.com/splendidmoons/suriya-go"
)

var seq int64

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return fmt.Sprintf("%x", h[:12])
}

func content(b []byte, err error) M {
	if err != nil {
		if os.IsNotExist(err) {
			return M{"res": "absent"}
		}
		return M{"res": "error"}
	}
	return M{"res": "content", "sha": digest(b), "size": len(b)}
}

// What a caller does to the bytes it got is its own business.
func scribble(o Op, b []byte) {
	if o.Bool("spoil") {
		for i := range b {
			b[i] = '?'
		}
		_ = append(b, "and more"...)
	}
}

func must(f func() []byte) (r M) {
	defer func() {
		if e := recover(); e != nil {
			err, ok := e.(error)
			if ok && os.IsNotExist(err) {
				r = M{"res": "absent"}
			} else {
				r = M{"res": "error"}
			}
		}
	}()
	return content(f(), nil)
}

func open(fs http.FileSystem, name string, how string) M {
	f, err := fs.Open(name)
	if err != nil {
		return content(nil, err)
	}
	defer f.Close()
	var b []byte
	switch how {
	case "small": // in small pieces, with a second reader of the same file in between
		g, err := fs.Open(name)
		if err != nil {
			return M{"res": "error"}
		}
		var b2 []byte
		p, q := make([]byte, 97), make([]byte, 151)
		fe, ge := false, false
		for !fe || !ge {
			if !fe {
				n, err := f.Read(p)
				b = append(b, p[:n]...)
				fe = err != nil
			}
			if !ge {
				n, err := g.Read(q)
				b2 = append(b2, q[:n]...)
				ge = err != nil
			}
		}
		g.Close()
		if string(b) != string(b2) {
			return M{"res": "differ"}
		}
	case "seek": // the second half first
		end, err := f.Seek(0, io.SeekEnd)
		if err != nil {
			return M{"res": "error"}
		}
		f.Seek(end/2, io.SeekStart)
		tail, err := ioutil.ReadAll(f)
		if err != nil {
			return M{"res": "error"}
		}
		f.Seek(0, io.SeekStart)
		head := make([]byte, end/2)
		if _, err := io.ReadFull(f, head); err != nil && end/2 > 0 {
			return M{"res": "error"}
		}
		b = append(head, tail...)
	default:
		if b, err = ioutil.ReadAll(f); err != nil {
			return M{"res": "error"}
		}
	}
	r := content(b, nil)
	st, err := f.Stat()
	if err != nil {
		return M{"res": "error"}
	}
	r["stsize"] = st.Size()
	r["stdir"] = st.IsDir()
	r["stname"] = st.Name()
	return r
}

// The view as a web server shows it: whole, or in ranges.
func serve(fs http.FileSystem, name string, how string) M {
	h := http.FileServer(fs)
	get := func(rng string) (int, http.Header, []byte) {
		req := &http.Request{Method: "GET", URL: &url.URL{Path: name}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
		if rng != "" {
			req.Header.Set("Range", rng)
		}
		w := httptest.NewRecorder()
		h.ServeHTTP(w, req)
		return w.Code, w.Header(), w.Body.Bytes()
	}
	code, hdr, b := get("")
	switch code {
	case 404:
		return M{"res": "absent"}
	case 200:
	default:
		return M{"res": "error"}
	}
	r := content(b, nil)
	if n := hdr.Get("Content-Length"); n != fmt.Sprint(len(b)) {
		return M{"res": "error"}
	}
	var parts []byte
	switch how {
	case "small":
		for i := 0; i < len(b); i += 1500 {
			code, _, p := get(fmt.Sprintf("bytes=%d-%d", i, i+1499))
			if code != 206 {
				return M{"res": "error"}
			}
			parts = append(parts, p...)
		}
	case "seek":
		if len(b) < 2 {
			return r
		}
		code, _, p := get(fmt.Sprintf("bytes=-%d", len(b)/2))
		code2, _, q := get(fmt.Sprintf("bytes=0-%d", len(b)-len(b)/2-1))
		if code != 206 || code2 != 206 {
			return M{"res": "error"}
		}
		parts = append(q, p...)
	default:
		return r
	}
	if string(parts) != string(b) {
		return M{"res": "differ"}
	}
	return r
}

// the directory the program was started in
var home, _ = os.Getwd()

func init() {
	// a file on disk is written or removed, by somebody else
	doers["put"] = func(s *session, o Op) M {
		begin := atomic.AddInt64(&seq, 1)
		name := filepath.Join(home, o.Str("dir"), o.Str("name"))
		if o.Bool("gone") {
			if err := os.Remove(name); err != nil && !os.IsNotExist(err) {
				fatal(err)
			}
			return M{"begin": begin, "sha": "", "size": -1}
		}
		b := []byte(o.Str("text"))
		if err := ioutil.WriteFile(name, b, 0644); err != nil {
			fatal(err)
		}
		return M{"begin": begin, "sha": digest(b), "size": len(b)}
	}
	doers["cd"] = func(s *session, o Op) M {
		begin := atomic.AddInt64(&seq, 1)
		if err := os.Chdir(filepath.Join(home, o.Str("dir"))); err != nil {
			fatal(err)
		}
		return M{"begin": begin}
	}
	doers["fs"] = func(s *session, o Op) M {
		name, local := o.Str("name"), o.Bool("local")
		begin := atomic.AddInt64(&seq, 1)
		var r M
		switch o.Str("route") {
		case "FSByte":
			b, err := suriya.FSByte(local, name)
			r = content(b, err)
			scribble(o, b)
		case "FSString":
			str, err := suriya.FSString(local, name)
			r = content([]byte(str), err)
		case "FSMustByte":
			var b []byte
			r = must(func() []byte { b = suriya.FSMustByte(local, name); return b })
			scribble(o, b)
		case "FSMustString":
			r = must(func() []byte { return []byte(suriya.FSMustString(local, name)) })
		case "FS":
			r = open(suriya.FS(local), name, o.Str("how"))
		case "HTTP":
			r = serve(suriya.FS(local), name, o.Str("how"))
		case "Dir":
			// the directory and the rest of the name
			i := o.Int("cut")
			r = open(suriya.Dir(local, name[:i]), name[i:], o.Str("how"))
		}
		for _, k := range []string{"sha", "stname"} {
			if r[k] == nil {
				r[k] = ""
			}
		}
		for _, k := range []string{"size", "stsize"} {
			if r[k] == nil {
				r[k] = -1
			}
		}
		if r["stdir"] == nil {
			r["stdir"] = false
		}
		r["stname"] = strings.TrimPrefix(r["stname"].(string), "/")
		r["begin"] = begin
		r["end"] = atomic.AddInt64(&seq, 1)
		return r
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "drv:", err)
	os.Exit(3)
}
