package config

import (
	"strconv"
	"time"

	"github.com/vivint/rothko/internal/zzmodel"
	zz "github.com/vivint/rothko/internal/zzverif"
)

type zzTable = map[string]interface{}

// zzText writes the tree as the text of a configuration file.
func zzText(path string, t zzTable) (out string) {
	for k, v := range t {
		switch v := v.(type) {
		case zzTable, []zzTable:
		default:
			out += k + " = " + zzScalar(v) + "\n"
		}
	}
	for k, v := range t {
		p := k
		if path != "" {
			p = path + "." + k
		}
		switch v := v.(type) {
		case zzTable:
			out += "[" + p + "]\n" + zzText(p, v)
		case []zzTable:
			for _, e := range v {
				out += "[[" + p + "]]\n" + zzText(p, e)
			}
		}
	}
	return out
}

func zzScalar(v interface{}) string {
	switch v := v.(type) {
	case string:
		return "\"" + v + "\""
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'f', 3, 64)
	case bool:
		return strconv.FormatBool(v)
	case []interface{}:
		out := "["
		for i, e := range v {
			if i > 0 {
				out += ", "
			}
			out += zzScalar(e)
		}
		return out + "]"
	}
	panic("unknown scalar")
}

// zzLoad loads the tree.
func zzLoad(t zzTable) (*Config, error) {
	if zz.Engine() {
		zzmodel.TOML = t
		return Load(nil)
	}
	return Load([]byte(zzText("", t)))
}

// zzWord is any printable string of n bytes that needs no quoting.
func zzWord(name string, n int) string {
	s := zz.String(name, n)
	for i := 0; i < len(s); i++ {
		zz.Assume(s[i] >= ' ' && s[i] < 0x7f && s[i] != '"' && s[i] != '\\')
	}
	return s
}

// zzSame compares values of the trees built here.
func zzSame(a, b interface{}) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case zzTable:
		b, ok := b.(zzTable)
		if !ok || len(a) != len(b) {
			return false
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok || !zzSame(v, w) {
				return false
			}
		}
		return true
	case string, int64, bool, float64:
		return a == b
	}
	return false
}

func zzCheckErr(conf *Config, err error) {
	zz.Assert(err != nil, "an invalid configuration is an error")
	zz.Assert(conf == nil, "nothing is loaded along with an error")
}

func zzMinimal() zzTable {
	return zzTable{
		"main":     zzTable{"duration": "10m"},
		"database": zzTable{"files": zzTable{"size": int64(5)}},
		"dist":     zzTable{"tdigest": zzTable{"compression": 5.5}},
	}
}

//zz:cfg native=1 maporder=1 nomerge=1 reach=loaded,databases,dists,none
//zz:bounds 0..3 databases and 0..3 distributions, or the section left out, each with an arbitrary 64-bit option, the kinds in any order.
func ZZ_C24_counts() {
	t := zzMinimal()
	dbs, dists := 1, 1
	kinds := []string{"files", "other", "third"}
	var db, dist zzTable
	switch n := zz.Choose("databases", 5); n {
	case 4:
		delete(t, "database")
		dbs = 0
	default:
		db = zzTable{}
		for _, k := range kinds[:n] {
			db[k] = zzTable{"size": zz.Int64("size")}
		}
		t["database"] = db
		dbs = n
	}
	switch n := zz.Choose("dists", 5); n {
	case 4:
		delete(t, "dist")
		dists = 0
	default:
		dist = zzTable{}
		for _, k := range kinds[:n] {
			dist[k] = zzTable{"size": zz.Int64("size")}
		}
		t["dist"] = dist
		dists = n
	}
	conf, err := zzLoad(t)
	if dbs != 1 || dists != 1 {
		if dbs > 1 {
			zz.Reach("databases")
		}
		if dists > 1 {
			zz.Reach("dists")
		}
		if dbs == 0 || dists == 0 {
			zz.Reach("none")
		}
		zzCheckErr(conf, err)
		return
	}
	zz.Assert(err == nil, "a configuration of one database and one distribution loads")
	zz.Assert(conf.Database.Kind == "files" && zzSame(conf.Database.Config, db["files"]), "the database is carried over")
	zz.Assert(conf.Dist.Kind == "files" && zzSame(conf.Dist.Config, dist["files"]), "the distribution is carried over")
	zz.Assert(len(conf.Listeners) == 0, "nothing else is configured")
	zz.Reach("loaded")
}

//zz:cfg native=1 reach=loaded,absent
//zz:bounds an api section with any printable address, origin, key, certificate, username and password of 0..3 bytes, each of the sections present or not; then redacted.
func ZZ_C24_api() {
	t := zzMinimal()
	n := func() int { return zz.Choose("len", 2) * 3 }
	addr, origin := zzWord("address", 3), zzWord("origin", n())
	key, cert := zzWord("key", n()), zzWord("cert", 3)
	user, pass := zzWord("username", 3), zzWord("password", n())
	api := zzTable{"address": addr, "origin": origin}
	if zz.Bool("tls") {
		api["tls"] = zzTable{"key": key, "cert": cert}
	} else {
		key, cert = "", ""
	}
	if zz.Bool("security") {
		api["security"] = zzTable{"username": user, "password": pass}
	} else {
		user, pass = "", ""
	}
	if zz.Bool("api") {
		t["api"] = api
	} else {
		addr, origin, key, cert, user, pass = "", "", "", "", "", ""
		zz.Reach("absent")
	}
	conf, err := zzLoad(t)
	zz.Assert(err == nil, "the configuration loads")
	check := func() {
		zz.Assert(conf.API.Address == addr, "the address is carried over")
		zz.Assert(conf.API.Origin == origin, "the origin is carried over")
		zz.Assert(conf.API.TLS.Key == key && conf.API.TLS.Cert == cert, "the key and certificate are carried over")
		zz.Assert(conf.API.Security.Username == user && conf.API.Security.Password == pass, "the credentials are carried over")
	}
	check()
	r := conf.API.Redact()
	zz.Assert(r.Address == addr && r.Origin == origin, "redaction keeps the rest")
	again := APIConfig{}.Redact()
	zz.Assert(r.TLS == again.TLS && r.Security == again.Security, "redaction leaves nothing of the secrets")
	for _, s := range []string{r.TLS.Key, r.TLS.Cert, r.Security.Username, r.Security.Password} {
		zz.Assert(s == "redacted" || s == "", "redaction leaves nothing of the secrets")
	}
	check()
	zz.Reach("loaded")
}

//zz:cfg native=1 maporder=1 reach=none,several
//zz:bounds 0..2 kinds of listeners with 0..2 instances each, with arbitrary addresses of 2 bytes and arbitrary 64-bit options, 0..2 plugins of any names of 2 bytes.
func ZZ_C24_lists() {
	t := zzMinimal()
	kinds := []string{"graphite", "other"}
	lists := make([][]zzTable, 2)
	listeners := zzTable{}
	total := 0
	for i, n := range []int{zz.Choose("first", 3), zz.Choose("second", 3)} {
		for j := 0; j < n; j++ {
			lists[i] = append(lists[i], zzTable{"address": zzWord("address", 2), "n": zz.Int64("n")})
			total++
		}
		if n > 0 {
			listeners[kinds[i]] = lists[i]
		}
	}
	if total > 0 {
		t["listeners"] = listeners
	}
	var plugins []interface{}
	for i := zz.Choose("plugins", 3); i > 0; i-- {
		plugins = append(plugins, zzWord("plugin", 2))
	}
	if plugins != nil {
		t["main"].(zzTable)["plugins"] = plugins
	}
	conf, err := zzLoad(t)
	zz.Assert(err == nil, "the configuration loads")
	zz.Assert(len(conf.Main.Plugins) == len(plugins), "the plugins are carried over")
	for i := range plugins {
		zz.Assert(conf.Main.Plugins[i] == plugins[i].(string), "the plugins are carried over")
	}
	zz.Assert(len(conf.Listeners) == total, "every listener is carried over")
	for i := range kinds {
		at := 0
		for _, e := range conf.Listeners {
			if e.Kind != kinds[i] {
				continue
			}
			zz.Assert(at < len(lists[i]), "no listener is made up")
			zz.Assert(zzSame(e.Config, lists[i][at]), "the options of listeners are carried over")
			at++
		}
		zz.Assert(at == len(lists[i]), "every listener is carried over")
	}
	if total == 0 {
		zz.Reach("none")
	}
	if total > 2 {
		zz.Reach("several")
	}
	zz.Assert(conf.Main.Duration == 10*time.Minute, "the duration is carried over")
}

//zz:cfg native=1 reach=loaded,refused,missing
//zz:bounds durations of any one or two digits and unit among the ones of the language, with a sign or a fraction or not, malformed, or left out; only positive ones load.
func ZZ_C24_duration() {
	t := zzMinimal()
	units := []string{"ns", "us", "ms", "s", "m", "h"}
	scale := []int64{1, 1000, 1e6, 1e9, 60e9, 3600e9}
	d := zz.String("digits", 1+zz.Choose("two", 2))
	v := int64(0)
	for i := 0; i < len(d); i++ {
		zz.Assume(d[i] >= '0' && d[i] <= '9')
		v = v*10 + int64(d[i]-'0')
	}
	unit := zz.Choose("unit", len(units))
	text, want, valid := d+units[unit], v*scale[unit], true
	switch zz.Choose("form", 6) {
	case 1:
		text, want = "-"+text, -want
	case 2:
		text, want = "1h"+text, want+3600e9
	case 3:
		text, valid = d, false
		zz.Assume(v != 0)
	case 4:
		text, valid = text+"x", false
	case 5:
		text, valid = "", false
	}
	missing := zz.Bool("missing")
	if missing {
		delete(t, "main")
		zz.Reach("missing")
	} else {
		t["main"] = zzTable{"duration": text}
	}
	conf, err := zzLoad(t)
	if missing || !valid || want <= 0 {
		zz.Reach("refused")
		zzCheckErr(conf, err)
		return
	}
	zz.Reach("loaded")
	zz.Assert(err == nil, "a valid duration loads")
	zz.Assert(int64(conf.Main.Duration) == want, "the duration is carried over")
}

//zz:cfg native=1 reach=bad,loaded
//zz:bounds any one of the settings being of another type than it should be.
func ZZ_C24_types() {
	t := zzMinimal()
	n := zz.Int64("n")
	t["api"] = zzTable{"address": "a", "tls": zzTable{"key": "k"}, "security": zzTable{"username": "u"}}
	t["listeners"] = zzTable{"graphite": []zzTable{{"address": "x"}}}
	main := t["main"].(zzTable)
	api := t["api"].(zzTable)
	bad := true
	switch zz.Choose("which", 15) {
	case 0:
		main["duration"] = n
	case 1:
		main["plugins"] = "x"
	case 2:
		main["plugins"] = []interface{}{n}
	case 3:
		t["main"] = n
	case 4:
		t["listeners"] = zzTable{"graphite": zzTable{"address": "x"}}
	case 5:
		t["database"] = "files"
	case 6:
		t["dist"] = zz.Bool("b")
	case 7:
		api["address"] = n
	case 8:
		api["origin"] = zz.Bool("b")
	case 9:
		api["tls"] = "x"
	case 10:
		api["tls"].(zzTable)["key"] = n
	case 11:
		api["tls"].(zzTable)["cert"] = n
	case 12:
		api["security"].(zzTable)["username"] = n
	case 13:
		api["security"].(zzTable)["password"] = n
	default:
		bad = false
	}
	conf, err := zzLoad(t)
	if bad {
		zz.Reach("bad")
		zzCheckErr(conf, err)
		return
	}
	zz.Reach("loaded")
	zz.Assert(err == nil && conf != nil, "the configuration loads")
}

//zz:cfg reach=refused
//zz:bounds a text the parser rejects.
func ZZ_C24_malformed() {
	zzmodel.TOMLBad = true
	conf, err := Load(zz.Bytes("text", 4))
	zzCheckErr(conf, err)
	zz.Reach("refused")
}
