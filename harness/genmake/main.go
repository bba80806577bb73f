// Command genmake runs the code generators of the tree under test (gen/…) on a
// family of declarations and writes what they generate, with glue for the
// harnesses, into h/gen/zz_*.go.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR", err)
		os.Exit(2)
	}
}

type field struct {
	name   string
	kind   string // "s" text, "i" number
	marked bool
	target string
}

// part is a piece of a declaration.
type part struct {
	src    func(n, id string) string
	fields func(n string) []field
	valid  bool // must be accepted
}

func s(n string, m bool) field { return field{name: n, kind: "s", marked: m} }

const pd = "`encrypt:\"personal-data\"`"

func ser(t string) string { return "`encrypt:\"personal-data\" serialized:\"" + t + "\"`" }

var parts = map[string]part{
	"none":     {func(n, id string) string { return "" }, func(n string) []field { return nil }, true},
	"plain":    {func(n, id string) string { return n + " string\n" }, func(n string) []field { return []field{s(n, false)} }, true},
	"number":   {func(n, id string) string { return n + " int `json:\"x\"`\n" }, func(n string) []field { return []field{{name: n, kind: "i"}} }, true},
	"personal": {func(n, id string) string { return n + " string " + pd + "\n" }, func(n string) []field { return []field{s(n, true)} }, true},
	"json": {func(n, id string) string { return n + " string `json:\"x,omitempty\" encrypt:\"personal-data\"`\n" },
		func(n string) []field { return []field{s(n, true)} }, true},
	"pair": {func(n, id string) string { return n + ", " + n + "2 string " + pd + "\n" },
		func(n string) []field { return []field{s(n, true), s(n+"2", true)} }, true},
	"serial": {func(n, id string) string { return n + " int " + ser(n+"Enc") + "\n" + n + "Enc string\n" },
		func(n string) []field { return []field{{name: n, kind: "i", marked: true, target: n + "Enc"}} }, true},
	"serial-first": {func(n, id string) string { return n + "Enc string\n" + n + " int " + ser(n+"Enc") + "\n" },
		func(n string) []field { return []field{{name: n, kind: "i", marked: true, target: n + "Enc"}} }, true},
	"shared-target": {func(n, id string) string {
		return n + " int " + ser(n+"Enc") + "\n" + n + "2 int " + ser(n+"Enc") + "\n" + n + "Enc string\n"
	},
		func(n string) []field {
			return []field{{name: n, kind: "i", marked: true}, {name: n + "2", kind: "i", marked: true}}
		}, false},
	"serial-pair": {func(n, id string) string { return n + ", " + n + "2 int " + ser(n+"Enc") + "\n" + n + "Enc string\n" },
		func(n string) []field {
			return []field{{name: n, kind: "i", marked: true}, {name: n + "2", kind: "i", marked: true}}
		}, false},
	"quoted": {func(n, id string) string { return n + " string \"encrypt:\\\"personal-data\\\"\"\n" },
		func(n string) []field { return []field{s(n, true)} }, false},
	"cut-tag": {func(n, id string) string { return n + " string `encrypt:\"personal-data\" json`\n" },
		func(n string) []field { return []field{s(n, true)} }, false},
	"nested": {func(n, id string) string { return n + " struct { X string " + pd + " }\n" },
		func(n string) []field { return []field{s(n+".X", true)} }, false},
	"embedded": {func(n, id string) string { return "Emb" + id + n + " " + pd + "\n" },
		func(n string) []field { return []field{s(n, true)} }, false},
}

var first = []string{"plain", "number", "personal", "json", "pair", "serial", "serial-first", "shared-target", "serial-pair", "quoted", "cut-tag", "nested", "embedded"}
var second = []string{"none", "plain", "personal", "serial", "pair"}

type shape struct {
	name, src, extra string
	fields           []field
	subject          string
	valid            bool
	refused, broken  string
}

func shapes() []*shape {
	var r []*shape
	add := func(subject string, ps ...string) {
		id := strconv.Itoa(len(r))
		sh := &shape{name: "S" + id, valid: true, subject: "ID"}
		body, marked := "", false
		for i, p := range ps {
			n := string(rune('A' + i))
			body += parts[p].src(n, id)
			sh.fields = append(sh.fields, parts[p].fields(n)...)
			sh.valid = sh.valid && parts[p].valid
			if p == "embedded" {
				sh.extra += "type Emb" + id + n + " string\n"
				sh.fields[len(sh.fields)-1].name = "Emb" + id + n
			}
		}
		for _, f := range sh.fields {
			marked = marked || f.marked
		}
		tag := "`json:\"id\" encrypt:\"subject-id\"`"
		switch subject {
		case "first":
			body = "ID string " + tag + "\n" + body
		case "last":
			body += "ID string " + tag + "\n"
		case "other":
			body = "ID string\n" + body + "Owner string " + tag + "\n"
			sh.subject = "Owner"
		case "missing":
			body = "ID string\n" + body
			sh.valid = sh.valid && !marked
		}
		sh.src = "type " + sh.name + " struct {\n" + body + "}\n"
		r = append(r, sh)
	}
	for _, subject := range []string{"first", "last", "other", "missing"} {
		for _, a := range first {
			for _, b := range second {
				if subject == "last" && b == "pair" || subject == "other" && b != "none" && b != "personal" {
					continue
				}
				add(subject, a, b)
			}
		}
	}
	add("first", "personal", "personal", "personal")
	add("first", "serial", "serial", "serial")
	add("first", "serial", "personal", "pair", "serial")
	return r
}

func run(name string, args ...string) (string, error) {
	out, err := exec.Command(name, args...).CombinedOutput()
	return strings.TrimSpace(string(out)), err
}

func main() {
	dir, err := filepath.Abs("h/gen")
	must(err)
	old, _ := filepath.Glob(filepath.Join(dir, "zz_*.go"))
	for _, f := range old {
		must(os.Remove(f))
	}
	tmp, err := os.MkdirTemp("", "genmake")
	must(err)
	defer os.RemoveAll(tmp)
	bins := map[string]string{}
	for _, g := range []string{"eventgenerator", "aggregategenerator", "commandgenerator", "eventbinder"} {
		bins[g] = filepath.Join(tmp, g)
		if out, err := run("go", "build", "-o", bins[g], "github.com/inklabs/rangedb/gen/"+g); err != nil {
			must(fmt.Errorf("%s does not build: %s", g, out))
		}
	}

	file := func(name string) string { return filepath.Join(dir, "zz_"+name+".go") }
	write := func(name, src string) string {
		must(os.WriteFile(file(name), []byte("package gen\n\n"+src), 0o644))
		return file(name)
	}

	all := shapes()
	for _, sh := range all {
		in := write(sh.name, sh.src+"\ntype T"+sh.name+" struct {\n\tID string\n}\n"+sh.extra)
		if out, err := run(bins["eventgenerator"], "-package", "gen", "-id", "ID", "-aggregateType", "thing", "-inFile", in, "-outFile", file(sh.name+"_gen")); err != nil {
			sh.refused = out
			if out == "" {
				sh.refused = err.Error()
			}
		}
	}

	// Aggregates, with commands and events, and one binder for all events.
	type agg struct{ nc, ne int }
	var aggs []agg
	aggErr := map[int]string{}
	for nc := 0; nc <= 3; nc++ {
		for ne := 0; ne <= 3; ne++ {
			if nc+ne > 0 {
				aggs = append(aggs, agg{nc, ne})
			}
		}
	}
	var eventFiles, eventNames []string
	for i, a := range aggs {
		args := []string{"-package", "gen", "-name", fmt.Sprintf("agg%d", i), "-out", file(fmt.Sprintf("G%d_gen", i))}
		src := ""
		h := fmt.Sprintf("type agg%d struct {\n\tpendingEvents []rangedb.Event\n\tlog []string\n}\n\n", i)
		var cs, es []string
		for j := 0; j < a.nc; j++ {
			n := fmt.Sprintf("Do%d%c", i, 'A'+j)
			cs = append(cs, n)
			src += fmt.Sprintf("type %s struct {\n\tID string\n\tN int\n}\n\n", n)
			h += fmt.Sprintf("func (a *agg%d) do%d%c(c %s) {\n\ta.log = append(a.log, %q+c.ID)\n\tfor i := 0; i < c.N; i++ {\n\t\ta.raise(&Raised{From: %q, I: i})\n\t}\n}\n\n", i, i, 'A'+j, n, n+":", n)
		}
		if a.nc > 0 {
			in := write(fmt.Sprintf("G%d_commands", i), src)
			args = append(args, "-commands", in)
			if out, err := run(bins["commandgenerator"], "-package", "gen", "-id", "ID", "-aggregateType", "thing", "-inFile", in, "-outFile", file(fmt.Sprintf("G%d_commands_gen", i))); err != nil {
				aggErr[i] = out + err.Error()
			}
		}
		src = ""
		for j := 0; j < a.ne; j++ {
			n := fmt.Sprintf("Did%d%c", i, 'A'+j)
			es = append(es, n)
			src += fmt.Sprintf("type %s struct {\n\tID string\n}\n\n", n)
			h += fmt.Sprintf("func (a *agg%d) did%d%c(e %s) {\n\ta.log = append(a.log, %q+e.ID)\n}\n\n", i, i, 'A'+j, n, n+":")
		}
		eventNames = append(eventNames, es...)
		if a.ne > 0 {
			in := write(fmt.Sprintf("G%d_events", i), src)
			args = append(args, "-events", in)
			eventFiles = append(eventFiles, in)
			if out, err := run(bins["eventgenerator"], "-package", "gen", "-id", "ID", "-aggregateType", "thing", "-inFile", in, "-outFile", file(fmt.Sprintf("G%d_events_gen", i))); err != nil {
				aggErr[i] = out + err.Error()
			}
		}
		if out, err := run(bins["aggregategenerator"], args...); err != nil {
			aggErr[i] = out + err.Error()
		}
		h += fmt.Sprintf("func init() {\n\taggs = append(aggs, Agg{Name: \"agg%d\", New: func() (cqrs.Aggregate, *[]string) {\n\t\ta := &agg%d{}\n\t\treturn a, &a.log\n\t},\n", i, i)
		h += "\t\tEvents: []func(id string) (rangedb.Event, rangedb.Event){\n"
		for _, e := range es {
			h += fmt.Sprintf("\t\t\tfunc(id string) (rangedb.Event, rangedb.Event) { return %s{ID: id}, &%s{ID: id} },\n", e, e)
		}
		h += "\t\t},\n\t\tCommands: []func(id string, n int) (cqrs.Command, cqrs.Command){\n"
		for _, c := range cs {
			h += fmt.Sprintf("\t\t\tfunc(id string, n int) (cqrs.Command, cqrs.Command) { return %s{ID: id, N: n}, &%s{ID: id, N: n} },\n", c, c)
		}
		h += fmt.Sprintf("\t\t},\n\t\tEventNames: %#v,\n\t\tCommandNames: %#v})\n}\n", es, cs)
		write(fmt.Sprintf("G%d", i), "import (\n\t\"github.com/inklabs/rangedb\"\n\t\"github.com/inklabs/rangedb/pkg/cqrs\"\n)\n\n"+h)
	}
	binderErr := ""
	if out, err := run(bins["eventbinder"], "-package", "gen", "-files", strings.Join(eventFiles, ","), "-out", file("B_gen")); err != nil {
		binderErr = out + err.Error()
	}
	binder := func() {
		if binderErr == "" {
			write("B", fmt.Sprintf("func init() {\n\tbound = BindEvents\n\tboundNames = %#v\n}\n", eventNames))
		} else {
			os.Remove(file("B_gen"))
			write("B", fmt.Sprintf("func init() {\n\tbinderErr = %q\n}\n", binderErr))
		}
	}
	binder()

	glue := func(sh *shape) {
		g := fmt.Sprintf("func init() {\n\tshapes = append(shapes, Shape{Name: %q, Source: %q, Refused: %q, Broken: %q, Valid: %v", sh.name, sh.src, sh.refused, sh.broken, sh.valid)
		if sh.refused == "" && sh.broken == "" {
			g += fmt.Sprintf(", New: func() Fields {\n\t\te := &%s{}\n\t\treturn Fields{Event: e, Other: &T%s{}, ID: &e.ID, Subject: &e.%s, All: []Field{\n", sh.name, sh.name, sh.subject)
			for _, f := range sh.fields {
				p := "S"
				if f.kind == "i" {
					p = "N"
				}
				ptr := "&e." + f.name
				if strings.HasPrefix(f.name, "Emb") {
					ptr = "(*string)(&e." + f.name + ")"
				}
				g += fmt.Sprintf("\t\t\t{Name: %q, Marked: %v, %s: %s", f.name, f.marked, p, ptr)
				if f.target != "" {
					g += ", Target: &e." + f.target
				}
				g += "},\n"
			}
			g += "\t\t}}\n\t}"
		} else {
			os.Remove(file(sh.name))
			os.Remove(file(sh.name + "_gen"))
		}
		g += "})\n}\n"
		write(sh.name+"_glue", g)
	}
	for _, sh := range all {
		glue(sh)
	}
	dropAgg := func(i int, why string) {
		fs, _ := filepath.Glob(file(fmt.Sprintf("G%d", i)))
		more, _ := filepath.Glob(file(fmt.Sprintf("G%d_*", i)))
		for _, f := range append(fs, more...) {
			os.Remove(f)
		}
		write(fmt.Sprintf("G%d", i), fmt.Sprintf("func init() {\n\taggs = append(aggs, Agg{Name: \"agg%d\", Broken: %q})\n}\n", i, why))
	}
	for i, e := range aggErr {
		dropAgg(i, e)
	}

	// What does not compile is left out, and said to be so.
	re := regexp.MustCompile(`zz_([SGB])(\d*)[_a-z]*\.go:\d+:\d+: (.*)`)
	for round := 0; ; round++ {
		out, err := run("go", "build", "-gcflags=-e", "-o", os.DevNull, "./h/gen")
		if err == nil {
			break
		}
		ms := re.FindAllStringSubmatch(out, -1)
		if len(ms) == 0 || round > 30 {
			must(fmt.Errorf("the generated package does not build: %s", out))
		}
		done := map[string]bool{}
		for _, m := range ms {
			if done[m[1]+m[2]] {
				continue
			}
			done[m[1]+m[2]] = true
			i, _ := strconv.Atoi(m[2])
			switch m[1] {
			case "S":
				all[i].broken = m[3]
				glue(all[i])
			case "G":
				dropAgg(i, m[3])
			case "B":
				if len(ms) == 1 || round > 20 { // unless it misses what is left out
					binderErr = m[3]
					binder()
				}
			}
		}
	}
	n := map[string]int{}
	for _, sh := range all {
		switch {
		case sh.refused != "":
			n["refused"]++
		case sh.broken != "":
			n["not compilable"]++
		default:
			n["generated"]++
		}
	}
	fmt.Println("declarations:", n, "aggregates:", len(aggs))
}
