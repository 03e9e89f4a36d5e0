//go:build go1.22

package main

import (
	"fmt"
	"os/user"
	"path/filepath"
	"strings"

	"github.com/companyzero/ttk"
	"github.com/companyzero/zkc/zkclient"
	"github.com/companyzero/zkc/zkserver"
	"github.com/companyzero/zkc/zz/mc"
	"github.com/companyzero/zkc/zz/vflag"
	"github.com/companyzero/zkc/zz/vfs"
	"github.com/mitchellh/go-homedir"
)

func init() {
	mc.Register(&mc.Check{ID: "F07", Level: "exploration",
		Rule: "every pair of settings with every listed value, in either order, in every listed layout of the file; outcomes are distinct when the resulting settings differ",
		Run:  checkF07})
}

// ---- F07: settings ----

// opt is a setting, its values and what they mean; a value without a meaning
// is refused.
type opt struct {
	section, key string
	field        string
	def          string
	vals         [][2]string // text, meaning ("!" when refused)
}

func yesno(section, key, field, def string) opt {
	return opt{section, key, field, def, [][2]string{{"yes", "true"}, {"no", "false"}, {"YES", "true"}, {"No", "false"}, {"true", "!"}, {"1", "!"}, {"", "!"}}}
}

func text(section, key, field, def string, more ...string) opt {
	o := opt{section, key, field, def, [][2]string{{"some value", "some value"}, {"a=b # c", "a=b # c"}}}
	for i := 0; i+1 < len(more); i += 2 {
		o.vals = append(o.vals, [2]string{more[i], more[i+1]})
	}
	return o
}

func number(section, key, field, def string) opt {
	return opt{section, key, field, def, [][2]string{{"1", "1"}, {"5000000000", "5000000000"}, {"18446744073709551615", "18446744073709551615"},
		{"-1", "!"}, {"18446744073709551616", "!"}, {"1k", "!"}, {"", "!"}, {"1.5", "!"}}}
}

func color(key, field string, a, fg, bg int) opt {
	c := func(a, fg, bg int) string {
		s, err := ttk.Color(a, fg, bg)
		if err != nil {
			panic(err)
		}
		return fmt.Sprintf("%q", s)
	}
	return opt{"ui", key, field, c(a, fg, bg), [][2]string{
		{"none:na:na", c(ttk.AttrReset, ttk.AttrNA, ttk.AttrNA)},
		{"bold:red:na", c(ttk.AttrBold, ttk.ColorRed, ttk.AttrNA)},
		{"Underline:Black:WHITE", c(ttk.AttrUnderline, ttk.ColorBlack, ttk.ColorWhite)},
		{"none:green:yellow", c(ttk.AttrReset, ttk.ColorGreen, ttk.ColorYellow)},
		{"reverse:blue:magenta", c(ttk.AttrReverse, ttk.ColorBlue, ttk.ColorMagenta)},
		{"bold:cyan:na", c(ttk.AttrBold, ttk.ColorCyan, ttk.AttrNA)},
		{"bold:pink:na", "!"}, {"bold:na:pink", "!"}, {"fat:na:na", "!"}, {"bold:na", "!"}, {"bold:na:na:na", "!"}, {"", "!"},
	}}
}

func checkF07(c *mc.Ctx) {
	usr, err := user.Current()
	if err != nil {
		c.Incomplete(fmt.Sprint(err))
		return
	}
	h := usr.HomeDir
	hd, err := homedir.Dir()
	if err != nil {
		c.Incomplete(fmt.Sprint(err))
		return
	}
	srv := []opt{
		text("", "root", "Root", h+"/.zkserver", "~/x", h+"/x", "/a/~b", "/a/"+h+"b"),
		text("", "users", "Users", h+"/.zkserver/home", "~/u", h+"/u"),
		text("", "listen", "Listen", "127.0.0.1:12345", ":443", ":443"),
		yesno("", "allowidentify", "AllowIdentify", "false"),
		{"", "createpolicy", "CreatePolicy", "no", [][2]string{{"yes", "yes"}, {"no", "no"}, {"token", "token"}, {"Yes", "!"}, {"maybe", "!"}, {"", "!"}}},
		yesno("", "directory", "Directory", "false"),
		text("", "motd", "MOTD", h+"/.zkserver/motd.txt", "~/m", h+"/m"),
		number("", "maxattachmentsize", "MaxAttachmentSize", "10485760"),
		number("", "maxchunksize", "MaxChunkSize", "262144"),
		number("", "maxmsgsize", "MaxMsgSize", "263168"),
		text("log", "logfile", "LogFile", h+"/.zkserver/zkserver.log", "~/l", h+"/l"),
		text("log", "timeformat", "TimeFormat", "2006-01-02 15:04:05", "15:04", "15:04"),
		yesno("log", "debug", "Debug", "false"),
		yesno("log", "trace", "Trace", "false"),
		text("log", "profiler", "Profiler", "localhost:6060"),
	}
	cli := []opt{
		text("", "root", "Root", hd+"/.zkclient", "~/x", hd+"/x", "~", hd),
		yesno("", "tlsverbose", "TLSVerbose", "true"),
		yesno("", "beep", "Beep", "false"),
		yesno("", "separator", "Separator", "false"),
		yesno("log", "savehistory", "SaveHistory", "false"),
		text("log", "logfile", "LogFile", hd+"/.zkclient/zkclient.log", "~/l", hd+"/l"),
		text("log", "timeformat", "TimeFormat", "15:04:05", "15:04", "15:04"),
		text("log", "longtimeformat", "LongTimeFormat", "2006-01-02 15:04:05"),
		yesno("log", "debug", "Debug", "false"),
		text("log", "profiler", "Profiler", "localhost:6061"),
		color("nickcolor", "NickColor", ttk.AttrBold, ttk.ColorWhite, ttk.AttrNA),
		color("gcothercolor", "GcColor", ttk.AttrBold, ttk.ColorGreen, ttk.AttrNA),
		color("pmothercolor", "PmColor", ttk.AttrBold, ttk.ColorCyan, ttk.AttrNA),
	}
	const file = "/etc/test.conf"
	type set struct {
		o opt
		v [2]string
	}
	run := func(who string, opts []opt, fields func() (func(string) string, error), sets []set, layout int) bool {
		var b strings.Builder
		nl := "\n"
		eq := " = "
		switch layout {
		case 1:
			b.WriteString("# comment\n; root = /wrong\n\n")
			eq = "="
		case 2:
			nl, eq = "\r\n", "\t=  "
		}
		for _, sec := range []string{"", "log", "ui"} {
			first := true
			for _, s := range sets {
				if s.o.section != sec {
					continue
				}
				if first && sec != "" {
					b.WriteString("[" + sec + "]" + nl)
				}
				first = false
				b.WriteString(s.o.key + eq + s.v[0] + nl)
			}
		}
		vfs.Reset()
		vfs.Cur.Put(file, []byte(strings.TrimSuffix(b.String(), nl)))
		vflag.Line = []string{"-cfg", file}
		get, err := fields()
		key := fmt.Sprintf("%s %q", who, b.String())
		bad := false
		for _, s := range sets {
			bad = bad || s.v[1] == "!"
		}
		c.R.Transitions++
		if bad != (err != nil) {
			c.Violate(who, key, "%s: error %v, refuses: %v", key, err, bad)
			return false
		}
		if err != nil {
			c.Eval(who + " refused " + fmt.Sprint(err))
			return true
		}
		all := ""
		for _, o := range opts {
			want := o.def
			for _, s := range sets {
				if s.o.key == o.key && s.o.section == o.section {
					want = s.v[1]
				}
			}
			if g := get(o.field); g != want {
				c.Violate(who, key, "%s: %s is %s, want %s", key, o.field, g, want)
				return false
			}
			all += want + "|"
		}
		c.Eval(who + all)
		return true
	}
	server := func() (func(string) string, error) {
		s, err := zkserver.ObtainSettings()
		if err != nil {
			return nil, err
		}
		m := map[string]string{"Root": s.Root, "Users": s.Users, "Listen": s.Listen, "AllowIdentify": fmt.Sprint(s.AllowIdentify),
			"CreatePolicy": s.CreatePolicy, "Directory": fmt.Sprint(s.Directory), "MOTD": s.MOTD,
			"MaxAttachmentSize": fmt.Sprint(s.MaxAttachmentSize), "MaxChunkSize": fmt.Sprint(s.MaxChunkSize), "MaxMsgSize": fmt.Sprint(s.MaxMsgSize),
			"LogFile": s.LogFile, "TimeFormat": s.TimeFormat, "Debug": fmt.Sprint(s.Debug), "Trace": fmt.Sprint(s.Trace), "Profiler": s.Profiler}
		return func(f string) string { return m[f] }, nil
	}
	client := func() (func(string) string, error) {
		s, err := zkclient.ObtainSettings()
		if err != nil {
			return nil, err
		}
		m := map[string]string{"Root": s.Root, "TLSVerbose": fmt.Sprint(s.TLSVerbose), "Beep": fmt.Sprint(s.Beep), "Separator": fmt.Sprint(s.Separator),
			"SaveHistory": fmt.Sprint(s.SaveHistory), "LogFile": s.LogFile, "TimeFormat": s.TimeFormat, "LongTimeFormat": s.LongTimeFormat,
			"Debug": fmt.Sprint(s.Debug), "Profiler": s.Profiler,
			"NickColor": fmt.Sprintf("%q", s.NickColor), "GcColor": fmt.Sprintf("%q", s.GcColor), "PmColor": fmt.Sprintf("%q", s.PmColor)}
		return func(f string) string { return m[f] }, nil
	}
	n := 0
	all := func(who string, opts []opt, fields func() (func(string) string, error)) {
		var flat []set
		for _, o := range opts {
			for _, v := range o.vals {
				flat = append(flat, set{o, v})
			}
		}
		do := func(s ...set) bool {
			n++
			if !c.Mine(n) {
				return true
			}
			if c.Expired() {
				return false
			}
			for l := 0; l < 3; l++ {
				if f := mc.Guard(func() { run(who, opts, fields, s, l) }); f != "" {
					c.Violate(who+":panic", fmt.Sprint(s), "%s %v: %s", who, s, f)
				}
			}
			return len(c.R.Violations) == 0
		}
		if !do() {
			return
		}
		for _, a := range flat {
			if !do(a) {
				return
			}
		}
		for _, a := range flat {
			for _, b := range flat {
				if (a.o.key != b.o.key || a.o.section != b.o.section) && !do(a, b) {
					return
				}
			}
		}
		if !c.Quick() {
			for i, a := range flat {
				for j, b := range flat[i+1:] {
					for _, d := range flat[i+1+j+1:] {
						if a.o.key != b.o.key && b.o.key != d.o.key && !do(a, b, d) {
							return
						}
					}
				}
			}
		}
		// what comes with the program is what it says
		c.R.States = c.R.Evals
	}
	all("zkserver", srv, server)
	all("zkclient", cli, client)
	// first run of the client
	if c.Mine(0) {
		f := mc.Guard(func() {
			vfs.Reset()
			vflag.Line = nil
			a, err := client()
			if err != nil {
				mc.Fail("first run: %v", err)
			}
			log := vfs.Cur.Log
			want := map[string]string{"Root": hd + "/.zkclient", "TLSVerbose": "true", "SaveHistory": "false", "Debug": "false", "TimeFormat": "15:04:05",
				"LogFile": hd + "/.zkclient/zkclient.log", "Profiler": "127.0.0.1:6061"}
			same := func(what string, get func(string) string) {
				for k, v := range want {
					if g := get(k); g != v {
						mc.Fail("%s: %s is %q, want %q", what, k, g, v)
					}
				}
			}
			same("first run", a)
			b, err := client()
			if err != nil {
				mc.Fail("second run: %v", err)
			}
			same("second run", b)
			vfs.Crashes(vfs.New(), log, 0, true, func(cr vfs.Crash) bool {
				vfs.Cur = cr.FS
				c.R.Traces++
				g, err := client()
				if err != nil {
					mc.Fail("after %v of the first run: %v", cr, err)
				}
				same(fmt.Sprintf("after %v of the first run", cr), g)
				c.Eval("first run crash")
				return true
			})
		})
		if f != "" {
			c.Violate("first", "first run of zkclient", "%s", f)
		}
	}
	c.R.States = c.R.Evals
	_ = filepath.Join
}
