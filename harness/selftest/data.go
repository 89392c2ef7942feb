package selftest

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/bits"
	"net"
	"net/url"
	"path"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"vharness/verif"
)

type oneByte struct{ r io.Reader }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// HReaders: the readers and writers a rewrite may use.
//
//verif:props SELF
func HReaders() {
	d := verif.Bytes("data", 6)
	n := len(d)
	b, err := io.ReadAll(bytes.NewReader(d))
	verif.Assert(err == nil && bytes.Equal(b, d), "read all")
	buf := make([]byte, 4)
	k, err := io.ReadFull(oneByte{bytes.NewReader(d)}, buf)
	switch {
	case n == 0:
		verif.Assert(k == 0 && err == io.EOF, "full: empty")
	case n < 4:
		verif.Assert(k == n && err == io.ErrUnexpectedEOF, "full: short")
	default:
		verif.Assert(k == 4 && err == nil && bytes.Equal(buf, d[:4]), "full")
	}
	var out bytes.Buffer
	m, err := io.Copy(&out, io.LimitReader(oneByte{bytes.NewReader(d)}, 3))
	verif.Assert(err == nil && int(m) == min(3, n) && bytes.Equal(out.Bytes(), d[:m]), "copy limited")
	c, err := io.CopyN(io.Discard, bytes.NewReader(d), 2)
	verif.Assert((err == nil) == (n >= 2) && int(c) == min(2, n), "copyn")
	br := bufio.NewReader(bytes.NewReader(d))
	line, err := br.ReadBytes(0)
	i := bytes.IndexByte(d, 0)
	if i < 0 {
		verif.Assert(err == io.EOF && bytes.Equal(line, d), "readbytes: none")
	} else {
		verif.Assert(err == nil && bytes.Equal(line, d[:i+1]), "readbytes")
		p, _ := br.Peek(1)
		verif.Assert(len(p) == min(1, n-i-1), "peek")
	}
	mr := io.MultiReader(bytes.NewReader(d[:n/2]), bytes.NewReader(d[n/2:]))
	b, _ = io.ReadAll(mr)
	verif.Assert(bytes.Equal(b, d), "multi")
	var t bytes.Buffer
	b, _ = io.ReadAll(io.TeeReader(bytes.NewReader(d), &t))
	verif.Assert(bytes.Equal(b, t.Bytes()), "tee")
	var w bytes.Buffer
	bw := bufio.NewWriterSize(&w, 16)
	bw.Write(d)
	bw.WriteByte(7)
	bw.WriteString("xyz")
	bw.Flush()
	verif.Assert(w.Len() == n+4 && bytes.Equal(w.Bytes()[:n], d), "buffered")
	w.Truncate(n)
	w.Reset()
	fmt.Fprintf(&w, "%s|%d", "a", n)
	verif.Assert(w.String() == "a|"+strconv.Itoa(n), "fprintf")
	if n >= 4 {
		var x uint32
		err = binary.Read(bytes.NewReader(d), binary.BigEndian, &x)
		verif.Assert(err == nil && x == binary.BigEndian.Uint32(d), "binary read")
		w.Reset()
		binary.Write(&w, binary.BigEndian, int32(x))
		verif.Assert(bytes.Equal(w.Bytes(), d[:4]), "binary write")
		verif.Assert(bytes.Equal(binary.BigEndian.AppendUint32(nil, x), d[:4]), "append")
	}
	pr, pw := io.Pipe()
	_ = pr
	_ = pw
}

// HBytes: the byte and string functions a rewrite may use.
//
//verif:props SELF
func HBytes() {
	d := verif.Bytes("data", 4)
	a, b, ok := bytes.Cut(d, []byte{0})
	verif.Assert(ok == bytes.Contains(d, []byte{0}) && ok == (bytes.IndexByte(d, 0) >= 0), "cut")
	if ok {
		verif.Assert(len(a)+len(b)+1 == len(d), "cut length")
	}
	parts := bytes.Split(d, []byte{0})
	verif.Assert(len(parts) == bytes.Count(d, []byte{0})+1 && bytes.Equal(bytes.Join(parts, []byte{0}), d), "split")
	verif.Assert(bytes.Equal(slices.Clone(d), d) && bytes.Equal(bytes.Clone(d), d), "clone")
	verif.Assert(bytes.HasPrefix(d, d[:len(d)/2]) && bytes.HasSuffix(d, d[len(d)/2:]), "prefix")
	verif.Assert(len(bytes.TrimRight(d, "\x00")) <= len(d) && len(bytes.TrimSuffix(d, []byte{0})) >= len(d)-1, "trim")
	s := string(d)
	verif.Assert(strings.IndexByte(s, 'a') == bytes.IndexByte(d, 'a') && strings.Count(s, "a") == bytes.Count(d, []byte("a")), "index")
	verif.Assert(strings.Repeat("ab", 2) == "abab" && strings.Replace("aaa", "a", "b", 2) == "bba" && strings.ReplaceAll("a.b", ".", "") == "ab", "replace")
	var sb strings.Builder
	sb.Grow(8)
	sb.Write(d)
	sb.WriteByte('x')
	sb.WriteString("yz")
	verif.Assert(sb.String() == s+"xyz" && sb.Len() == len(d)+3, "builder")
	x := append([]byte(nil), d...)
	slices.Reverse(x)
	slices.Reverse(x)
	verif.Assert(slices.Equal(x, d) && slices.Index(d, 0) == bytes.IndexByte(d, 0) && slices.Contains(d, 0) == ok, "slices")
	copy(x, d)
	clear(x)
	verif.Assert(len(bytes.Trim(x, "\x00")) == 0, "clear")
	h := hex.EncodeToString(d)
	y, err := hex.DecodeString(h)
	verif.Assert(err == nil && bytes.Equal(y, d) && h == fmt.Sprintf("%x", d), "hex")
	z, err := base64.StdEncoding.DecodeString(base64.StdEncoding.EncodeToString(d))
	verif.Assert(err == nil && bytes.Equal(z, d), "base64")
	if len(d) == 4 {
		v := binary.BigEndian.Uint32(d)
		verif.Assert(bits.ReverseBytes32(v) == binary.LittleEndian.Uint32(d), "bits")
		verif.Assert(bytes.Compare(d, d) == 0 && strings.Compare(s, s) == 0, "compare")
	}
}

// HText: functions over concrete text.
//
//verif:props SELF
func HText() {
	verif.Assert(strings.Join(strings.Fields(" a b  c "), ",") == "a,b,c" && strings.TrimSpace(" x\n") == "x", "fields")
	verif.Assert(strings.EqualFold("AbC", "aBc") && strings.ToLower("ABC") == "abc" && strings.ToUpper("é") == "É" && strings.Title("ab") == "Ab", "case")
	verif.Assert(fmt.Sprint(strings.Split("a:b:c", ":")) == "[a b c]" && fmt.Sprint(strings.SplitN("a:b:c", ":", 2)) == "[a b:c]", "split")
	l, r, ok := strings.Cut("k=v=w", "=")
	verif.Assert(l == "k" && r == "v=w" && ok && strings.LastIndex("k=v=w", "=") == 3, "cut")
	verif.Assert(strings.Map(func(r rune) rune { return r + 1 }, "abc") == "bcd" && strings.TrimFunc("xxaxx", func(r rune) bool { return r == 'x' }) == "a", "map")
	verif.Assert(strings.NewReplacer("a", "1", "b", "2").Replace("abc") == "12c", "replacer")
	n, err := strconv.Atoi("-12")
	verif.Assert(n == -12 && err == nil, "atoi")
	_, err = strconv.ParseUint("70000", 10, 16)
	verif.Assert(errors.Is(err, strconv.ErrRange), "range")
	q, err := strconv.ParseBool("true")
	verif.Assert(q && err == nil && strconv.Quote("a\n") == `"a\n"` && strconv.FormatInt(-255, 16) == "-ff", "strconv")
	f, err := strconv.ParseFloat("1.5", 64)
	verif.Assert(f == 1.5 && err == nil, "float")
	host, port, err := net.SplitHostPort("[::1]:5432")
	verif.Assert(host == "::1" && port == "5432" && err == nil && net.JoinHostPort("::1", "1") == "[::1]:1", "hostport")
	verif.Assert(net.ParseIP("127.0.0.1") != nil && net.ParseIP("x") == nil, "ip")
	u, err := url.Parse("postgres://u:p%40@h:1/db?sslmode=disable&a=b")
	verif.Assert(err == nil && u.Host == "h:1" && u.Path == "/db" && u.User.Username() == "u" && u.Query().Get("a") == "b", "url")
	pw, _ := u.User.Password()
	verif.Assert(pw == "p@" && path.Base("/a/b") == "b" && path.Join("a", "../b") == "b", "path")
	m := map[string]int{"b": 2, "a": 1, "c": 3}
	ks := slices.Sorted(maps.Keys(m))
	verif.Assert(fmt.Sprint(ks) == "[a b c]", "maps")
	c := maps.Clone(m)
	delete(c, "a")
	verif.Assert(len(m) == 3 && !maps.Equal(m, c), "clone")
	sort.Strings(ks)
	sort.Slice(ks, func(i, j int) bool { return ks[i] > ks[j] })
	slices.SortFunc(ks, func(a, b string) int { return strings.Compare(a, b) })
	i, found := slices.BinarySearch(ks, "b")
	verif.Assert(i == 1 && found && sort.SearchStrings(ks, "c") == 2, "search")
	e1 := errors.New("x")
	e2 := fmt.Errorf("y: %w", e1)
	e3 := errors.Join(e2, io.EOF)
	verif.Assert(errors.Is(e3, e1) && errors.Is(e3, io.EOF) && errors.Unwrap(e2) == e1 && e3.Error() == "y: x\nEOF", "errors")
	var oe *net.OpError
	e4 := fmt.Errorf("z: %w", &net.OpError{Op: "read", Err: e1})
	verif.Assert(errors.As(e4, &oe) && oe.Op == "read" && errors.Is(e4, e1), "as")
	var ne net.Error
	verif.Assert(errors.As(e4, &ne) && !ne.Timeout(), "as interface")
	verif.Assert(utf8.ValidString("é") && utf8.RuneCountInString("éa") == 2 && []rune("éa")[1] == 'a', "utf8")
	verif.Assert(fmt.Sprintf("%v %+v %q %T %5d %-3s| %t %c %08b", 1, struct{ A int }{2}, "s", e1, 42, "a", true, 'x', 5) == "1 {A:2} \"s\" *errors.errorString    42 a  | true x 00000101", "sprintf")
	var v int
	var w string
	k, err := fmt.Sscanf("12 ab", "%d %s", &v, &w)
	verif.Assert(k == 2 && err == nil && v == 12 && w == "ab", "sscanf")
	re := regexp.MustCompile(`^([a-z]+)=(\d+)$`)
	verif.Assert(re.MatchString("ab=12") && re.FindStringSubmatch("ab=12")[2] == "12", "regexp")
	sc := bufio.NewScanner(strings.NewReader("a\nb\n"))
	t := ""
	for sc.Scan() {
		t += sc.Text() + ";"
	}
	verif.Assert(t == "a;b;", "scanner")
}
