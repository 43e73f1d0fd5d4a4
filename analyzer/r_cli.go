package main

// r_cli.go: the command line client.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "Paths of the command line client from the command given to the query sent: each command that NewCLI adds is run from the state in which it was added, through the configuration it reads and the client that is made of it. A path that returns no error has read and decoded the file named by the environment, or by the home directory when that is unset, found an endpoint in it, asked the client of that endpoint for exactly what the arguments name and printed exactly the answer; every other path prints nothing and returns the error of the step that failed; the number of arguments is checked to be the number the command uses; and the program exits with a nonzero code when the command fails.", c34)
}

func cliCfg() Cfg {
	return Cfg{Pure: func(n string) bool { return n == "path/filepath.Join" || n == "path.Join" }}
}

func c34(c *Ctx) {
	const pkg = "pkg/spfcli"
	root := c.P.fn(pkg, "NewCLI")
	if !c.Check(root != nil, "anchor:NewCLI", pkg+".NewCLI", "-", "the client's root command was not found") {
		return
	}
	c.fns[fname(root)] = true
	for _, p := range c.run(root, cliCfg()) {
		if p.Outcome != "return" {
			continue
		}
		found := map[string]int{}
		for _, e := range p.callsLike(func(n string) bool { return strings.HasSuffix(n, "cobra.Command).AddCommand") }) {
			for _, cmd := range flatList(e.Deep[1]) {
				use, _ := field(cmd, "Use").strVal()
				name, _, _ := strings.Cut(use, " ")
				found[name]++
				switch name {
				case "get":
					c.cliCommand(p, e, cmd, name, 3)
				case "resources":
					c.cliCommand(p, e, cmd, name, 0)
				}
			}
		}
		for _, n := range []string{"get", "resources"} {
			c.Check(found[n] == 1, "commands", fname(root), p.Pos, "the command %s is added %d times", n, found[n])
		}
	}
	n := 0
	for f := range c.P.callers()[root] {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			n++
			c.cliMain(f)
		}
	}
	c.Check(n > 0, "main", pkg, "-", "no program runs the client")
}

// cliMain: a failed command makes the program fail.
func (c *Ctx) cliMain(f *ssa.Function) {
	for _, p := range c.run(f, Cfg{Opaque: func(n string) bool { return strings.HasSuffix(n, "spfcli.NewCLI") }}) {
		ex := p.callsLike(func(n string) bool { return strings.Contains(n, "cobra.Command).Execute") })
		if !c.Check(len(ex) == 1, "main", fname(f), p.Pos, "the command is executed %d times", len(ex)) {
			continue
		}
		err := ex[0].Res[len(ex[0].Res)-1]
		v, k := decideIn(p.facts, mk("eq", "", nil, deepStrip(err), mkNil(nil)))
		if !c.Check(k, "main", fname(f), ex[0].Pos, "the error of the command is not looked at") {
			continue
		}
		exits := p.callsLike(func(n string) bool {
			return n == "os.Exit" || n == "log.Fatal" || n == "log.Fatalf" || n == "log.Fatalln"
		})
		bad := p.Outcome == "panic"
		if len(exits) > 0 {
			code, isInt := int64(1), true
			if exits[0].Fn == "os.Exit" {
				code, isInt = exits[0].Args[0].intVal()
			}
			bad = !isInt || code != 0
		}
		c.Check(bad == !v, "main", fname(f), p.Pos, "the program's exit code does not tell whether the command failed")
	}
}

func (c *Ctx) cliCommand(p *Path, add *Event, cmd *T, name string, want int) {
	// the number of arguments
	c.Check(c.argCount(p, field(cmd, "Args"), want), "arguments", name, add.Pos, "the command %s does not require exactly %d arguments", name, want)
	run := unconv(field(cmd, "RunE"))
	if !c.Check(run != nil && (run.Op == "closure" || run.Op == "fn"), "commands", name, add.Pos, "the command %s has no function which can fail", name) {
		return
	}
	f, args, ps := c.runFunc(p.st.clone(), run, cliCfg())
	if !c.Check(f != nil && len(args) == 2, "commands", name, add.Pos, "the function of the command %s cannot be analysed", name) {
		return
	}
	good := 0
	sources := map[string]bool{}
	start := len(p.Events)
	for _, q := range ps {
		if c.cliPath(q, start, f, args[1], name, want, sources) {
			good++
		}
	}
	c.Check(good > 0, "commands", fname(f), add.Pos, "the command %s never succeeds", name)
	c.Check(sources["env"] && sources["home"], "configuration", fname(f), add.Pos, "the configuration is not looked for in both places")
}

// argCount: the validator of arguments accepts exactly n of them.
func (c *Ctx) argCount(p *Path, v *T, n int) bool {
	v = unconv(v)
	if v == nil {
		return false
	}
	if v.Op == "fn" && strings.HasSuffix(fname(v.X.(*ssa.Function)), "cobra.NoArgs") {
		return n == 0
	}
	if e := p.eventOf(v); e != nil {
		k, ok := int64(-1), false
		if len(e.Args) > 0 {
			k, ok = e.Args[0].intVal()
		}
		switch {
		case strings.HasSuffix(e.Fn, "cobra.ExactArgs"), strings.HasSuffix(e.Fn, "cobra.ExactValidArgs"):
			return ok && int(k) == n
		case strings.HasSuffix(e.Fn, "cobra.MaximumNArgs"):
			return ok && n == 0 && k == 0
		case strings.HasSuffix(e.Fn, "cobra.RangeArgs"):
			k2, ok2 := e.Args[1].intVal()
			return ok && ok2 && int(k) == n && int(k2) == n
		case strings.HasSuffix(e.Fn, "cobra.MatchAll"):
			for _, a := range flatList(e.Deep[0]) {
				if c.argCount(p, a, n) {
					return true
				}
			}
		}
		return false
	}
	f, args, ps := c.runFunc(p.st.clone(), v, Cfg{})
	if f == nil || len(args) != 2 {
		return false
	}
	for _, q := range ps {
		if q.Outcome != "return" {
			return false
		}
		facts, ok := q.success()
		is, known := decideIn(facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], args[1]), mkInt(int64(n))))
		if !ok {
			is, known = decideIn(q.facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], args[1]), mkInt(int64(n))))
		}
		if !known || is != ok {
			return false
		}
	}
	return len(ps) > 0
}

var cliSteps = map[string]string{
	"os.UserHomeDir":     "home",
	"os.Open":            "open",
	"os.OpenFile":        "open",
	"io.ReadAll":         "read",
	"io/ioutil.ReadAll":  "read",
	"os.ReadFile":        "file",
	"io/ioutil.ReadFile": "file",
}

func isPrint(n string) bool {
	return strings.Contains(n, "cobra.Command).Print") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || n == "(*os.File).Write" || n == "(*os.File).WriteString" || n == "io.Writer.Write" || n == "print" || n == "println" || strings.HasPrefix(n, "log.Print")
}

func (c *Ctx) cliPath(q *Path, start int, f *ssa.Function, args *T, name string, nargs int, sources map[string]bool) bool {
	if !c.Check(q.Outcome == "return", "errors", fname(f), q.Pos, "the command %s ends by %s", name, q.Outcome) {
		return false
	}
	var home, env, file, read, dec, conn, query, un *Event
	var prints, steps []*Event
	var src *T
	for _, e := range q.Events {
		if e.Kind != "call" {
			continue
		}
		switch {
		case e.Fn == "os.LookupEnv":
			env = e
			continue
		case cliSteps[e.Fn] == "home":
			home = e
		case cliSteps[e.Fn] == "open":
			file = e
		case cliSteps[e.Fn] == "read":
			read = e
		case cliSteps[e.Fn] == "file":
			file, read = e, e
		case strings.HasPrefix(e.Fn, "gopkg.in/yaml") && strings.Contains(e.Fn, "Unmarshal"), strings.Contains(e.Fn, "gopkg.in/yaml") && strings.HasSuffix(e.Fn, "Decoder).Decode"):
			dec = e
			if strings.HasSuffix(e.Fn, "Decode") && len(e.Args) > 0 {
				// the decoder reads the file itself
				if d := q.eventOf(e.Args[0]); d != nil && strings.HasSuffix(d.Fn, "yaml.v3.NewDecoder") {
					src = d.Args[0]
				}
			}
		case strings.HasSuffix(e.Fn, "rpc/client/http.New"):
			conn = e
		case strings.HasSuffix(e.Fn, ".ABCIQuery"):
			query = e
		case strings.HasSuffix(e.Fn, "protojson.Unmarshal"):
			un = e
		case isPrint(e.Fn):
			prints = append(prints, e)
			continue
		default:
			continue
		}
		steps = append(steps, e)
	}
	facts, ok := q.success()
	err := q.errRet()
	var fail *Event
	for _, e := range steps {
		if e.failedIn(q.facts) {
			fail = e
		}
	}
	endpoint := func() *T {
		if dec == nil || len(dec.Args) < 2 {
			return nil
		}
		return mkField(evOut(dec, 1), "TendermintRPC", nil)
	}
	for _, e := range prints {
		if e.failedIn(q.facts) && len(prints) == 1 {
			// the answer could not be written
			c.Check(wrapsValue(err, e.Res[len(e.Res)-1]), "errors", fname(f), q.Pos, "a failure of %s is reported as %v", e.Fn, deepStrip(err))
			return false
		}
	}
	if !ok || fail != nil {
		// a failure
		c.Check(len(prints) == 0, "errors", fname(f), q.Pos, "the command %s prints something although it fails", name)
		if fail != nil {
			c.Check(wrapsValue(err, fail.Res[len(fail.Res)-1]), "errors", fname(f), q.Pos, "a failure of %s is reported as %v", fail.Fn, deepStrip(err))
			return false
		}
		why := false
		if ep := endpoint(); ep != nil {
			if v, k := decideIn(q.facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], deepStrip(ep)), mkInt(0))); k && v {
				why = true
			}
		}
		if query != nil {
			if v, k := c.queryOK(q.facts, q, query); k && !v {
				why = true
			}
		}
		c.Check(why, "errors", fname(f), q.Pos, "the command %s fails for no reason", name)
		return false
	}
	// an answer
	all := true
	chk := func(v bool, rule, format string, a ...interface{}) {
		if !c.Check(v, rule, fname(f), q.Pos, format, a...) {
			all = false
		}
	}
	for _, e := range steps {
		chk(e.okIn(facts), "errors", "the command %s goes on without looking at the error of %s", name, e.Fn)
	}
	if file == nil || read == nil && src == nil || dec == nil || conn == nil || query == nil || env == nil {
		chk(false, "configuration", "the command %s succeeds without having read its configuration and asked the node", name)
		return false
	}
	// the file that is read
	v, _ := env.Args[0].strVal()
	chk(v == "SPFCLI_CONFIG_DIR", "configuration", "the directory is taken from the variable %v", env.Args[0])
	set, known := decideIn(facts, deepStrip(env.Res[1]))
	chk(known, "configuration", "the file that is read does not depend on whether the variable is set")
	var dir []strPart
	if set {
		dir = []strPart{{t: deepStrip(env.Res[0])}, {lit: "/config.yaml"}}
		sources["env"] = true
	} else if home != nil {
		dir = []strPart{{t: deepStrip(home.Res[0])}, {lit: "/.spfcli_config/config.yaml"}}
		sources["home"] = true
	}
	got := showParts(pathParts(file.Args[0]))
	chk(dir != nil && got == showParts(dir), "configuration", "the configuration is read from %s instead of %s", got, showParts(dir))
	if src != nil {
		chk(same(unboxed(src), file.Res[0]), "configuration", "what is decoded is not the configuration file")
	} else if read != file {
		chk(same(read.Args[0], file.Res[0]), "configuration", "what is read is not the configuration file")
	}
	// its contents
	if src == nil {
		chk(same(dec.Args[0], read.Res[0]), "configuration", "what is decoded is not the contents of the configuration file")
	}
	ep := endpoint()
	chk(ep != nil && knownNonEmptyStr(facts, ep), "configuration", "a configuration without an endpoint is accepted")
	chk(ep != nil && same(conn.Args[0], ep), "endpoint", "the client is made for %v instead of the configured endpoint", conn.Args[0])
	// the query
	recv, qargs := query.Recv, query.Args
	if recv == nil {
		recv, qargs = query.Args[0], query.Args[1:]
	}
	// methods of an embedded value are called on a field of the client
	for recv = deepStrip(recv); recv.Op == "field" && len(recv.A) > 0; {
		recv = deepStrip(recv.A[0])
	}
	chk(same(recv, conn.Res[0]), "endpoint", "the query is not sent to the configured endpoint but by %v", recv)
	good, known := c.queryOK(facts, q, query)
	chk(good && known, "query", "the answer of a failed query is printed")
	want := "api_resources"
	if nargs == 3 {
		var ps []strPart
		ps = append(ps, strPart{lit: "get/"})
		for i := int64(0); i < 3; i++ {
			if i > 0 {
				ps = append(ps, strPart{lit: "/"})
			}
			ps = append(ps, strPart{t: deepStrip(mkElem(args, mkInt(i), types.Typ[types.String]))})
		}
		want = showParts(ps)
	}
	asked := showParts(strParts(qargs[1]))
	chk(asked == want, "query", "the command %s asks for %s instead of %s", name, asked, want)
	// what is printed
	answer := mkField(mkField(deepStrip(query.Res[0]), "Response", nil), "Value", nil)
	if nargs == 0 {
		if un == nil {
			chk(false, "print", "the answer is not decoded")
			return false
		}
		chk(same(un.Args[0], answer), "print", "what is decoded is not the answer")
		answer = unboxed(evOut(un, 1))
	}
	if len(prints) != 1 {
		chk(false, "print", "the command %s prints %d times", name, len(prints))
		return false
	}
	chk(prints[0].Seq > query.Seq && printed(prints[0], answer), "print", "the command %s prints %v instead of the answer", name, prints[0].Deep)
	return all
}

func (c *Ctx) queryOK(facts map[*T]bool, p *Path, q *Event) (v, k bool) {
	resp := mkField(deepStrip(q.Res[0]), "Response", nil)
	v, k = decideIn(facts, mk("eq", "", nil, mkField(resp, "Code", nil), mkInt(0)))
	for _, e := range p.Events {
		if k || len(e.Args) == 0 || len(e.Res) != 1 || !same(e.Args[0], resp) {
			continue
		}
		val, known := decideIn(facts, deepStrip(e.Res[0]))
		switch {
		case strings.HasSuffix(e.Fn, "ResponseQuery).IsErr"):
			k, v = known, !val
		case strings.HasSuffix(e.Fn, "ResponseQuery).IsOK"):
			k, v = known, val
		}
	}
	return v, k
}

func knownNonEmptyStr(facts map[*T]bool, s *T) bool {
	v, k := decideIn(facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], deepStrip(s)), mkInt(0)))
	return k && !v
}

// pathParts flattens the joined pieces of a file's name.
func pathParts(t *T) []strPart {
	t = deepStrip(t)
	if t.Op == "call" && (t.S == "path/filepath.Join" || t.S == "path.Join") && len(t.A) == 1 {
		var out []strPart
		for i, a := range flatList(t.A[0]) {
			if i > 0 {
				out = joinParts(out, []strPart{{lit: "/"}})
			}
			out = joinParts(out, pathParts(a))
		}
		return out
	}
	if t.Op == "bin" && t.S == "+" {
		return joinParts(pathParts(t.A[0]), pathParts(t.A[1]))
	}
	ps := strParts(t)
	if len(ps) == 1 || t.Op != "call" {
		return ps
	}
	var out []strPart
	for _, x := range ps {
		if x.t != nil {
			out = joinParts(out, pathParts(x.t))
		} else {
			out = joinParts(out, []strPart{x})
		}
	}
	return out
}

// printed: the call prints x, alone or followed by the end of the line.
func printed(e *Event, x *T) bool {
	args := e.Deep
	switch {
	case strings.Contains(e.Fn, "cobra.Command)."), strings.HasPrefix(e.Fn, "fmt.Fprint"), e.Fn == "io.WriteString", strings.HasPrefix(e.Fn, "(*os.File)."):
		args = args[1:]
	}
	var vals []*T
	switch {
	case strings.HasSuffix(e.Fn, "f"):
		if len(args) != 2 {
			return false
		}
		f, ok := args[0].strVal()
		if !ok || f != "%s\n" && f != "%s" && f != "%v\n" && f != "%v" {
			return false
		}
		vals = flatList(args[1])
		if strings.Contains(f, "%v") && len(vals) == 1 && isBytes(vals[0]) {
			return false
		}
	case strings.Contains(e.Fn, "rint"):
		vals = flatList(args[0])
		if len(vals) == 1 && isBytes(vals[0]) {
			return false
		}
	default:
		vals = args[:1]
	}
	return len(vals) == 1 && same(unboxed(vals[0]), unboxed(x))
}

// isBytes: the value printed is a slice of bytes rather than a text.
func isBytes(v *T) bool {
	t, _ := boxed(v)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
