// Package hcli holds the harnesses for the command line: exit status and configuration loading.
package hcli

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"

	"github.com/fsnotify/fsnotify"
	"gopkg.in/alecthomas/kingpin.v2"

	"github.com/hired/gevulot/pkg/cli"
	"github.com/hired/gevulot/pkg/server"

	"vharness/models"
	"vharness/verif"
)

func pick(q, t int) int {
	if verif.Thorough() {
		return t
	}
	return q
}

var (
	errServer = errors.New("listen tcp :5432: bind: permission denied")
	errFile   = errors.New("permission denied")
	errText   = errors.New("expected value but found '='")
	errWatch  = errors.New("too many open files")
	errAdd    = errors.New("no space left on device")
)

// endings are the errors the server may end with.
var endings = []error{errServer, server.ErrServerClosed, server.ErrServerAlreadyStarted, io.EOF, context.Canceled, os.ErrClosed,
	net.ErrClosed, fmt.Errorf("serving: %w", server.ErrServerClosed)}

// runs is what the server was run with.
var runs []<-chan *server.Config

// serve is what running the server does.
var serve func(configs <-chan *server.Config) error

// serverRun stands for the server.
//
//verif:replace github.com/hired/gevulot/pkg/server.Run
func serverRun(configs <-chan *server.Config) error {
	runs = append(runs, configs)
	return serve(configs)
}

// usage stands for the rendering of the usage text.
//
//verif:replace (*gopkg.in/alecthomas/kingpin.v2.Application).UsageForContextWithTemplate
func usage(a *kingpin.Application, context *kingpin.ParseContext, indent int, tmpl string) error {
	models.Stderr = append(models.Stderr, "usage: gevulot [<flags>]\n"...)
	return nil
}

// getenv: the environment is empty.
//
//verif:replace os.Getenv
func getenv(string) string { return "" }

func setting(version string) models.FakeFile {
	return models.FakeFile{Keys: [][2]string{{"listen", "host:" + version}, {"database-url", "postgres://db" + version}}}
}

// version is the version a configuration belongs to, empty when it belongs to none.
func version(c *server.Config) string {
	const l, d = "host:", "postgres://db"
	switch {
	case c == nil:
		return ""
	case c.Listen == "" && strings.HasPrefix(c.DatabaseURL, d):
		return c.DatabaseURL[len(d):]
	case strings.HasPrefix(c.Listen, l) && (c.DatabaseURL == "" || c.DatabaseURL == d+c.Listen[len(l):]):
		return c.Listen[len(l):]
	}
	return ""
}

func contains(s []byte, sub string) bool { return strings.Contains(string(s), sub) }

type call struct {
	args []string
	path string // of the configuration; empty when the arguments are wrong
	info string // what is printed for a request that runs nothing
}

var calls = []call{
	{nil, "/opt/app/gevulot.toml", ""},
	{[]string{"-c", "my.toml"}, "/work/my.toml", ""},
	{[]string{"--config=/etc/g.toml"}, "/etc/g.toml", ""},
	{[]string{"--config", "../g.toml", "-v"}, "/g.toml", ""},
	{[]string{"--verbose"}, "/opt/app/gevulot.toml", ""},
	{[]string{"--help"}, "", "usage: gevulot"},
	{[]string{"--config=/etc/g.toml", "--help"}, "", "usage: gevulot"},
	{[]string{"--version"}, "", "gevulot version"},
	{[]string{"-v", "--version"}, "", "gevulot version"},
	{[]string{"--config"}, "", ""},
	{[]string{"--bogus"}, "", ""},
	{[]string{"file.toml"}, "", ""},
	{[]string{"-c", "a", "-c", "b"}, "", ""},
	{[]string{"-x"}, "", ""},
}

// HExit: every outcome of arguments, configuration, watching and serving.
//
//verif:props C25
//verif:bound fourteen command lines; the configuration file missing, unreadable, malformed or good; watching cannot be set up, the path cannot be watched, or it works; the server ends without an error or with one of eight
//verif:cover help badargs nofile unreadable malformed nowatcher nowatch fails ends
//verif:opt replay=engine
func HExit() {
	os.Args = []string{"/opt/app/gevulot"}
	serve = func(configs <-chan *server.Config) error { return nil }
	c := calls[verif.Choice("call", len(calls))]
	point := ""
	var cause error
	if c.path != "" {
		point = []string{"ends", "fails", "nofile", "unreadable", "malformed", "nowatcher", "nowatch"}[verif.Choice("outcome", 7)]
		f := setting("1")
		switch point {
		case "fails":
			cause = endings[verif.Choice("ending", len(endings))]
			serve = func(configs <-chan *server.Config) error { return cause }
		case "nofile":
			cause = errors.New("file does not exist")
		case "unreadable":
			f.Err, cause = errFile, errFile
		case "malformed":
			f.Bad, cause = errText, errText
			f.Part = verif.Choice("part", 2) == 1
		case "nowatcher":
			models.NewWatcherErr, cause = errWatch, errWatch
		case "nowatch":
			models.AddErr, cause = errAdd, errAdd
		}
		if point != "nofile" {
			models.SetFile(c.path, f)
		}
	} else {
		models.SetFile("/opt/app/gevulot.toml", setting("1"))
	}
	run := serve
	serve = func(configs <-chan *server.Config) error {
		verif.Assert(version(<-configs) == "1", "the server starts with the configuration of the file")
		return run(configs)
	}
	status := cli.Run(c.args)
	verif.Settle()
	ran := 0
	switch {
	case c.info != "":
		verif.Assert(status == 0, "help and version requests exit with status 0")
		verif.Assert(contains(models.Stderr, c.info), "what was asked for is printed")
		verif.Cover("help")
	case c.path == "":
		verif.Assert(status == 1, "bad arguments exit with status 1")
		verif.Assert(len(models.Stderr) > 0, "bad arguments are explained")
		verif.Cover("badargs")
	case cause != nil:
		verif.Assert(status == 1, "a failure exits with status 1")
		verif.Assert(contains(models.Stderr, cause.Error()), "the cause of the failure is printed")
		if point == "fails" {
			ran = 1
		}
		verif.Cover(point)
	default:
		verif.Assert(status == 0, "a server that ended without error exits with status 0")
		ran = 1
		verif.Cover(point)
	}
	verif.Assert(len(runs) == ran, "the server is run once when arguments and configuration are good, else not at all")
	if point == "nofile" || point == "unreadable" {
		verif.Assert(len(models.Opens) > 0 && models.Opens[0] == c.path, "the configuration file asked for is read")
	}
}

// HArg: one argument of any bytes.
//
//verif:props C25
//verif:bound one argument of up to two (thorough: four) arbitrary bytes
//verif:cover good bad
//verif:opt replay=engine
func HArg() {
	os.Args = []string{"/opt/app/gevulot"}
	serve = func(configs <-chan *server.Config) error { return nil }
	a := verif.String("arg", verif.Choice("len", pick(3, 5)))
	path := ""
	switch {
	case a == "-v" || a == "--":
		path = "/opt/app/gevulot.toml"
	case len(a) > 2 && a[:2] == "-c":
		path = "/work/cfg"
		a = "-ccfg"
	}
	models.SetFile("/opt/app/gevulot.toml", setting("1"))
	models.SetFile("/work/cfg", setting("1"))
	status := cli.Run([]string{a})
	verif.Settle()
	if path == "" {
		verif.Assert(status == 1 && len(runs) == 0, "bad arguments exit with status 1 and run nothing")
		verif.Assert(len(models.Stderr) > 0, "bad arguments are explained")
		verif.Cover("bad")
		return
	}
	verif.Assert(status == 0 && len(runs) == 1, "good arguments run the server")
	verif.Assert(len(models.Opens) > 0 && models.Opens[0] == path, "the configuration file asked for is read")
	verif.Cover("good")
}

// deliverable reports whether got can result from reading the file once for each write, no earlier than it.
// good[i] tells whether what write i left can be read.
func deliverable(good []bool, got []int, write, read int) bool {
	if write == len(good) {
		return len(got) == 0
	}
	if read < write {
		read = write
	}
	for r := read; r < len(good); r++ {
		rest := got
		if good[r] {
			if len(got) == 0 || got[0] != r {
				continue
			}
			rest = got[1:]
		}
		if deliverable(good, rest, write+1, r) {
			return true
		}
	}
	return false
}

// HWatch: what happens to the file while the server runs.
//
//verif:props C26 C28
//verif:bound three (thorough: four) events, each a write of a readable (setting both keys or only one), malformed or unfitting configuration or of none, any other event, or an error of the watcher; the server takes configurations at once or only after all events; the next event follows at once or after the previous has been dealt with
//verif:cover waits rushes update skip other error
//verif:opt sched=on replay=engine
func HWatch() {
	os.Args = []string{"/opt/app/gevulot"}
	const path = "/work/g.toml"
	models.SetFile(path, setting("0"))
	late := verif.Choice("late", 2) == 1
	waits := !late && verif.Choice("waits", 2) == 1
	start := make(chan bool)
	var got []*server.Config
	var vers []string
	serve = func(configs <-chan *server.Config) error {
		if late {
			<-start
		}
		for c := range configs {
			c := c
			verif.Sync(nil, func() {
				got = append(got, c)
				vers = append(vers, version(c))
			}, &got)
		}
		return nil
	}
	go cli.Run([]string{"-c", "g.toml"})
	verif.Settle()
	verif.Assert(len(runs) == 1, "the server is run")
	verif.Assert(len(models.Watches) == 1, "the file is watched")
	var good []bool
	shape := verif.Choice("shape", 3) // what later readable configurations set
	n := verif.Choice("events", pick(4, 5))
	if n > 2 && !waits && !verif.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		op := fsnotify.Op(verif.Uint32("op"))
		switch k := verif.Choice("kind", 6); k {
		case 0, 1, 2, 3:
			verif.Assume(op&fsnotify.Write != 0)
			good = append(good, k == 0)
			f := setting(string(rune('0' + len(good))))
			if shape > 0 {
				f.Keys = f.Keys[shape-1 : shape]
			}
			switch k {
			case 1:
				f.Bad = errText
			case 2:
				f.Bad, f.Part = errText, true
			case 3:
				f.Err = errFile
			}
			models.SetFile(path, f)
			models.Notify(path, op)
			verif.Cover([]string{"update", "skip", "skip", "skip"}[k])
		case 4:
			verif.Assume(op&fsnotify.Write == 0)
			models.Notify(path, op)
			verif.Cover("other")
		case 5:
			models.NotifyError(fsnotify.ErrEventOverflow)
			verif.Cover("error")
		}
		if waits {
			verif.Settle()
		}
	}
	if late {
		close(start)
	}
	verif.Settle()
	if waits {
		verif.Cover("waits")
	} else {
		verif.Cover("rushes")
	}
	var seq []int
	for i, v := range vers {
		verif.Assert(v != "" && version(got[i]) == v, "each configuration delivered is one the file held, and stays as it was delivered")
		seq = append(seq, int(v[0]-'0'))
	}
	verif.Assert(len(seq) > 0 && seq[0] == 0, "the server receives the configuration the file held at start")
	seq = seq[1:]
	for i := range seq {
		seq[i]--
	}
	if waits {
		want := 0
		for w, g := range good {
			if g {
				verif.Assert(want < len(seq) && seq[want] == w, "each readable configuration written is delivered, in order")
				want++
			}
		}
		verif.Assert(len(seq) == want, "nothing else is delivered")
		return
	}
	verif.Assert(deliverable(good, seq, 0, 0), "each write that leaves a readable configuration delivers one, in order, and nothing else does")
}

// HEarlyWrite: the file is written as soon as it is watched, before the server runs.
//
//verif:props C26 C28
//verif:bound one or two writes (two or three in thorough), each followed by a notice, right after watching began; every schedule
//verif:cover end
//verif:opt sched=on replay=engine
func HEarlyWrite() {
	os.Args = []string{"/opt/app/gevulot"}
	const path = "/work/g.toml"
	models.SetFile(path, setting("0"))
	n := verif.Choice("writes", 2) + pick(1, 2)
	models.OnAdd = func() {
		for i := 1; i <= n; i++ {
			models.SetFile(path, setting(string(rune('0'+i))))
			models.Notify(path, fsnotify.Write)
		}
	}
	var vers []string
	serve = func(configs <-chan *server.Config) error {
		for c := range configs {
			v := version(c)
			verif.Sync(nil, func() { vers = append(vers, v) }, &vers)
		}
		return nil
	}
	go cli.Run([]string{"-c", "g.toml"})
	verif.Settle()
	verif.Assert(len(runs) == 1, "the server is run")
	last := 0
	for _, v := range vers {
		verif.Assert(v != "" && int(v[0]-'0') >= last, "configurations are delivered in the order the file held them")
		last = int(v[0] - '0')
	}
	verif.Assert(len(vers) > 0 && len(vers) <= n+1 && last == n, "what was written while the server was being started reaches it")
	verif.Cover("end")
}
