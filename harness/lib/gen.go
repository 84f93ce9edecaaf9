package lib

import "github.com/hashicorp/hcl2/zzverif/sym"

// Alpha is the set of characters with a meaning in expressions.
const Alpha = "ab1.\"$%{}[]()!&|=<>?:,*+-/ \n~\\"

// frames for expression sources: text before and after the free part
var exprFrames = [][2]string{
	{"", ""},
	{"a.", ""},
	{"l[", "]"},
	{"l.*", ""},
	{"l[*]", ""},
	{"f(", ")"},
	{"g(1,", ""},
	{"[1,", "]"},
	{"[", ""},
	{"{a=", "}"},
	{"{", "}"},
	{"{a=1\n", ""},
	{"[for x in l: ", "]"},
	{"[for x in", "x]"},
	{"[for ", " in l: x]"},
	{"{for k,v in m: k=>", "}"},
	{"{for k,v in m: ", "=>v}"},
	{"{for k,v in o: k=>v ", ""},
	{"b ? ", ": 2"},
	{"b ? 1 : ", ""},
	{"!", ""},
	{"-", "a"},
	{"1 +", ""},
	{"(", ")"},
	{"(\n", ""},
	{"\"", "\""},
	{"\"${", "}\""},
	{"\"%{if ", "}y%{endif}\""},
	{"\"%{for x in l}", "%{endfor}\""},
	{"\"%{", "}\""},
	{"<<A\n", "\nA\n"},
	{"<<-A\n  ", "\n A\n"},
}

// NExprFrames is the number of expression frames.
var NExprFrames = len(exprFrames)

// ExprSrc returns an expression source with n symbolic characters.
func ExprSrc(n int) []byte {
	fr := exprFrames[sym.Choice(len(exprFrames))]
	src := append([]byte(fr[0]), sym.BytesIn(Alpha, n)...)
	return append(src, fr[1]...)
}

var tmplFrames = [][2]string{
	{"", ""},
	{"a${", "}"},
	{"%{if b", "}x%{endif}"},
	{"%{if b}", "%{else}y%{endif}"},
	{"%{for x in l", "}${x}%{endfor}"},
	{"%{for ", "x in l}%{endfor}"},
	{"%{ ", " }"},
	{"x ${~ a ", " y"},
	{"%{if b}%{", "}%{endif}"},
	{"a\n", "%{if b}"},
}

// TmplSrc returns a template source with n symbolic characters.
func TmplSrc(n int) []byte {
	fr := tmplFrames[sym.Choice(len(tmplFrames))]
	src := append([]byte(fr[0]), sym.BytesIn(Alpha, n)...)
	return append(src, fr[1]...)
}

const confAlpha = "ab1=\"{}\n #/*[](),.<$\\%:"

var confFrames = [][2]string{
	{"", ""},
	{"a = 1\n", ""},
	{"a =", "\n"},
	{"a = 1", "\nb = 2\n"},
	{"b ", "{\n}\n"},
	{"b \"", "\" {\n}\n"},
	{"b {", "}\n"},
	{"b {\n", "\n}\n"},
	{"b {\n a=1\n}", "\n"},
	{"b \"x\" c {\n c {\n", "}\n}\n"},
	{"a = [\n", "]\n"},
	{"a = {\n b = 1", "\n}\n"},
	{"a = <<A\n", "\nA\nb = 1\n"},
	{"a = f(", ")\nb = 1\n"},
	{"a = \"", "\"\nb = 1\n"},
	{"b { a = 1", "}\n"},
}

// ConfSrc returns a configuration source with n symbolic characters.
func ConfSrc(n int) []byte {
	fr := confFrames[sym.Choice(len(confFrames))]
	src := append([]byte(fr[0]), sym.BytesIn(confAlpha, n)...)
	return append(src, fr[1]...)
}

// TravSrc returns a traversal source with n symbolic characters.
func TravSrc(n int) []byte {
	fr := [][2]string{{"", ""}, {"a.", ""}, {"a[", "]"}, {"a[\"", "\"].b"}, {"a.b", ".c"}, {"a[0", ""}}[sym.Choice(6)]
	src := append([]byte(fr[0]), sym.BytesIn("ab1.[]\"*\\$ \n-", n)...)
	return append(src, fr[1]...)
}

// ExprDocs are expressions that together use every construct.
var ExprDocs = []string{
	"a.b[0].c + -1 * (i % 2) >= 3 && !b || a == \"x\"",
	"f(a, [1, \"y\"]...) ? {a = 1, \"b\" = l.0} : {\n  c : 2\n}",
	"[for k, v in m: \"${k}=${v}\" if v != null]",
	"{for x in l: x => upper(x)... if true}",
	"l.*.a.b[0] != o[*].c[\"d\"].e.*",
	"\"a${~ b ? 1 : 2 ~} %{ if x }y%{ else }z%{ endif ~} $${q}\\n\\u00e9\"",
	"<<-EOT\n  a ${b}\n    %{ for x, y in m ~}\n  ${x}%{ endfor }\nEOT\n",
	"[\n  1,\n  [2, (3)],\n  {\n    (a) = 1\n    b.c = 2 # c\n  }, // d\n]",
}

// TmplDocs are templates that together use every construct.
var TmplDocs = []string{
	"a %{ if b }x%{ else }${ a.b }%{ endif }\n$${c} %%{d}",
	"%{ for k, v in m ~}\n  ${ k }=${~ v ~}\n%{ endfor }z",
	"%{if b}%{for x in l}${x}%{endfor}%{else}%{if c}1%{endif}%{endif}",
	"${\"q${a[\"b\"]}\"}",
}

// ConfDocs are configurations that together use every construct.
var ConfDocs = []string{
	"a = 1 # c\nb \"x\" y {\n  c = [1,\n 2]\n  d {\n  }\n}\n",
	"b { a = 1 }\n/* c */ c d { }\na = {\n  x = 1\n  y : 2, z = 3\n}\n",
	"a = <<A\n x ${b}\nA\nb = f(1,\n 2) // d\n",
	"b \"x\" \"y\" {\n  b {\n    c {\n      a = \"${b}\"\n    }\n  }\n  d = 1\n}",
	"\n# x\na=(1 +\n2)\r\nb {}\nc = a ? \"\\\"\" : b.c[0]\n",
}

// Mutate returns one of the documents with one edit: a symbolic character in
// place of, or in front of, a character of the text, or a character left out.
func Mutate(docs []string, alpha string) []byte {
	doc := docs[sym.Choice(len(docs))]
	p := sym.Choice(len(doc) + 1)
	out := append([]byte(nil), doc[:p]...)
	switch sym.Choice(3) {
	case 0:
		out = append(out, sym.ByteIn(alpha))
		if p < len(doc) {
			p++
		}
	case 1:
		out = append(out, sym.ByteIn(alpha))
	case 2:
		if p < len(doc) {
			p++
		}
	}
	return append(out, doc[p:]...)
}

// ConfAlpha is the alphabet for edits of configurations.
const ConfAlpha = confAlpha
