package main

// The vocabulary of Protocol Buffers files: the names, numbers and strings which
// real files hold, in every slot and in every pair of slots of short documents.

import (
	"fmt"
	"strings"
)

var vocabNames = strings.Fields(`
double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes
syntax edition import weak public package option message enum service rpc returns stream extend extensions reserved
oneof map group repeated required optional to max declaration number full_name type true false inf nan local export
default packed deprecated json_name lazy unverified_lazy ctype jstype debug_redact retention targets edition_defaults features
feature_support map_entry allow_alias message_set_wire_format no_standard_descriptor_accessor idempotency_level verification
java_package java_outer_classname java_multiple_files java_string_check_utf8 optimize_for go_package cc_generic_services cc_enable_arenas
objc_class_prefix csharp_namespace swift_prefix php_class_prefix php_namespace php_metadata_namespace ruby_package
field_presence enum_type repeated_field_encoding utf8_validation message_encoding json_format
SPEED CODE_SIZE LITE_RUNTIME CORD STRING_PIECE JS_NORMAL JS_STRING EXPLICIT IMPLICIT LEGACY_REQUIRED OPEN CLOSED PACKED EXPANDED
VERIFY NONE LENGTH_PREFIXED DELIMITED ALLOW NO_SIDE_EFFECTS IDEMPOTENT DECLARATION UNVERIFIED RETENTION_SOURCE TARGET_TYPE_FIELD
google google.protobuf google.protobuf.Any google.protobuf.Empty google.protobuf.Timestamp google.protobuf.Duration google.protobuf.Struct
google.protobuf.FieldMask google.protobuf.StringValue google.protobuf.FieldOptions google.protobuf.MethodOptions google.api.http
google.rpc.Status validate.rules buf.validate.field openapiv2_schema features.field_presence pb.go pb.cpp
a A i I x y id Id ID name Name value Value key Key data Data foo Foo FOO bar Bar foo_bar fooBar FooBar foo_Bar foo__bar foo_ _foo __ _1 f1 f_1 Foo1
MyEnum MY_ENUM_UNSPECIFIED UNKNOWN Request Response GetRequest GetFoo FooService Entry FooEntry Result Error null NULL nil None self this class
func return var const interface struct for if else switch case break continue new delete void int long short char byte
Infinity NaN INF NAN True TRUE False Inf e E e1 E10 x1 X1 x0 0x u U u8 R L
Message MESSAGE Enum Service Rpc Option Oneof Map Group Repeated Reserved messages message_ option_ map_ group_ to_ max_ enums streams
v1 v1beta1 v2 proto2 proto3 com com.example com.example.foo.v1 a.b a.b.c a.b.c.d.e.f A.B a.B A.b .a .A .google.protobuf.Any .a.b
`)

var vocabNumbers = strings.Fields(`
0 1 2 3 7 8 9 10 11 15 16 17 18 19 20 31 32 63 64 99 100 101 126 127 128 129 255 256 257 511 512 999 1000 1023 1024 2047 2048 4095 4096 9999 10000
15999 16383 16384 18999 19000 19001 19500 19999 20000 32767 32768 65535 65536 99999 100000 999999 16777216 268435455 268435456 536870910
536870911 536870912 1000000000 2147483646 2147483647 2147483648 4294967295 4294967296 9007199254740993 9223372036854775807
9223372036854775808 18446744073709551615 18446744073709551616 99999999999999999999999999999999
00 01 07 010 017 0777 037777777777 0x0 0x1 0xf 0xF 0X1F 0x10 0xff 0xFF 0x7fffffff 0x80000000 0xFFFFFFFF 0xffffffffffffffff 0xdeadBEEF 0x1e1 0xe 0xE0
`)

var vocabFloats = strings.Fields(`
0.0 0. .0 1.0 1. .1 0.5 .5 1e1 1E1 1e0 0e0 0e1 1e+1 1e-1 1E+10 1E-10 1.e1 .1e1 1.5e3 1.5E-3 3.14159 2.718281828459045 1e308 1.7976931348623157e308
1e309 5e-324 1e-400 123456789.123456789 00.1 010.5 1e00 1e01 inf nan 0.1e+05 999999999999999999999999.9 .000000000000000000001
`)

var vocabStrings = []string{
	``, `a`, ` `, `a b`, ` a `, `a.proto`, `google/protobuf/any.proto`, `google/protobuf/descriptor.proto`, `/abs/a.proto`, `../a.proto`, `a\\b.proto`, `A.PROTO`, `a`,
	`proto2`, `proto3`, `proto4`, `2023`, `2024`, `99_TEST_ONLY`, `UNSTABLE`, `null`, `true`, `0`, `-1`, `1.5`, `inf`, `nan`,
	`/v1/{name=shelves/*}`, `/v1/*:batchGet`, `//not a comment`, `/* not a comment */`, `#`, `;`, `{`, `}`, `[`, `]`, `,`, `=`, `(`, `)`, `<`, `>`, `.`, `:`, `-`, `'`,
	`\"`, `\\`, `\\\"`, `\'`, `\n`, `\t`, `\r\n`, `\0`, `\00`, `\000`, `\1`, `\12`, `\123`, `\377`, `\x0`, `\x00`, `\xF`, `\xff`, `\Xff`, `\xfff`, `\a\b\f\v`, `\?`, `\u00e9`, `\U0001F600`, `\8`, `\z`,
	`é`, `世界`, `😀`, "\u0301", "\u2028", "\ufeff", "\u00a0", "\t", "\x01", "\x7f", "\r", `optional`, `message M { }`, `option a = 1;`, `import "x";`[:7], `%s %d %v`, `$1`, "`", `a@example.com`, `https://example.com/?a=b&c=d`,
}

// the templates: @ and % are the two slots.
var vocabNameSlots = []string{
	`message @ { % f = 1 ; }`, `message M { @ % = 1 ; }`, `message M { repeated @ % = 1 ; }`, `message M { optional @ % = 1 ; }`, `message M { required @ % = 1 ; }`,
	`message M { int32 a = 1 [ @ = % ] ; }`, `message M { int32 a = 1 [ ( @ ) . % = 1 , d = 2 ] ; }`, `message M { int32 a = 1 [ @ = 1 , % = 2 ] ; @ % = 2 ; }`,
	`option @ = % ;`, `option ( @ ) = % ;`, `option ( @ ) . % = true ;`, `option @ . % = "x" ;`, `option a = { @ : % } ;`, `option a = { @ { % : 1 } } ;`, `option a = { @ : 1 , % : [ 2 ] } ;`, `option a = [ @ , % ] ;`,
	`package @ ; option % = 1 ;`, `service @ { rpc % ( A ) returns ( B ) ; }`, `service S { rpc R ( @ ) returns ( % ) ; }`, `service S { rpc R ( stream @ ) returns ( stream % ) { } }`, `service S { rpc @ ( % ) returns ( stream % ) { option @ = % ; } }`, `service S { option @ = % ; rpc R ( A ) returns ( B ) { } ; }`,
	`enum @ { % = 0 ; }`, `enum E { @ = 0 ; % = 1 ; }`, `enum E { A = 0 [ @ = % ] ; }`, `enum E { option @ = % ; A = 0 ; }`, `enum E { reserved @ , % ; A = 0 ; }`,
	`extend @ { optional % f = 1 ; }`, `extend @ { % f = 1 ; }`, `message M { extend @ { repeated X % = 1 ; } }`, `message M { map < @ , % > m = 1 ; }`, `message M { map < string , @ > % = 1 ; }`,
	`message M { oneof @ { X % = 1 ; } }`, `message M { oneof o { @ % = 1 ; } }`, `message M { oneof o { option @ = % ; a b = 1 ; } }`, `message M { oneof o { @ a = 1 ; % b = 2 ; } }`,
	`message M { optional group @ = 1 { % c = 1 ; } }`, `message M { group @ = 1 { optional X % = 1 ; } }`, `message M { reserved @ , % ; }`, `message M { reserved "@" , "%" ; }`, `message M { reserved "@" "%" ; }`,
	`message M { extensions 1 [ declaration = { number : 1 , full_name : ".@" , type : "%" } ] ; }`, `message M { extensions 1 to max [ declaration = { number : 1 , type : "@" , @ : true , % : true } ] ; }`, `message M { extensions 1 [ @ = % ] ; }`,
	`message @ { message % { } }`, `message @ { } enum % { A = 0 ; }`, `message M { @ a = 1 ; % b = 2 ; }`, `message M { enum @ { % = 1 ; } }`, `message M { option @ = % ; }`, `@ % ;`, `@ = % ;`, `import @ "a" ; option % = 1 ;`, `syntax = "@" ; package % ;`, `edition = "@" ; package % ;`,
	`message M { @ int32 % = 1 ; }`, `message M { @ group % = 1 { } }`,
}

var vocabNumberSlots = []string{
	`message M { int32 a = @ ; int32 b = % ; }`, `message M { reserved @ to % ; }`, `message M { reserved @ , % ; }`, `message M { reserved @ to max , % ; }`, `message M { extensions @ to % ; }`, `message M { extensions @ , % to max ; }`, `enum E { A = @ ; B = - % ; }`, `enum E { reserved @ to % ; A = 0 ; }`,
	`message M { oneof o { a b = @ ; c d = % ; } }`, `message M { map < a , b > c = @ ; optional group G = % { } }`, `extend X { optional a b = @ ; optional a c = % ; }`, `message M { extensions 1 [ declaration = { number : @ , type : "a" } , declaration = { number : % , reserved : true } ] ; }`,
	`option a = @ ; option b = - % ;`, `message M { a b = @ [ default = % ] ; }`, `message M { a b = @ [ default = - % , c = + % ] ; }`, `option a = { b : @ , c : - % } ;`, `option a = [ @ , % , - @ ] ;`, `enum E { A = @ [ a = % ] ; }`,
}

var vocabFloatSlots = []string{
	`option a = @ ; option b = - % ;`, `message M { a b = 1 [ default = @ , x = + % ] ; }`, `option a = { b : @ , c : - % } ;`, `option a = [ @ , % , - @ ] ;`, `enum E { A = 1 [ a = @ , b = - % ] ; }`, `message M { a b = @ ; }`, `message M { reserved @ to % ; }`, `service S { option a = @ ; rpc R ( A ) returns ( B ) { option b = % ; } }`,
}

var vocabStringSlots = []string{
	`import "@" ; import public "%" ;`, `import weak "@" ; import '%' ;`, `option a = "@" ; option b = '%' ;`, `option a = "@" "%" ;`, `option a = '@' '%' ;`, `option a = "@" '%' "@" ;`, `message M { reserved "@" , '%' ; }`, `message M { a b = 1 [ default = "@" , json_name = '%' ] ; }`, `message M { extensions 1 [ declaration = { full_name : "@" , type : '%' } ] ; }`,
	`option a = { b : "@" , c : [ '%' ] } ;`, `enum E { A = 0 [ a = "@" , b = '%' ] ; reserved "@" , "%" ; }`, `syntax = "@" ; import "%" ;`, `edition = '@' ; option a = "%" ;`, `service S { option a = "@" ; rpc R ( A ) returns ( B ) { option b = "%" ; } }`,
}

var vocabComments = []string{
	"//", "// ", "//a", "// a", "// a ", "// a\t", "//\t", "///", "/// a", "////", "//!", "//!<", "//-", "//--", "//=====", "//go:generate a", "//nolint", "// nolint:a", "// TODO: a", "// TODO(a): b", "// FIXME", "// XXX", "// Deprecated: a",
	"// @@protoc_insertion_point(a)", "// buf:lint:ignore A", "// protolint:disable A", "// protolint:disable:this A", "// clang-format off", "// (-- a --)", "// Copyright 2024 a", "// +build a", "//*", "//*/", "///*", "// /* a", "// a */", "// */", "// // a", "// /", "///*/",
	"//\"", "//'", "//\\", "// a\\", "//;", "// }", "// {", "// };", "// ;", "// =", "// message M { }", "// syntax = \"proto3\";", "// option a = 1;", "// é世😀", "//\u2028", "//a\u2028b", "//\u0085", "//\u00a0", "//\x00", "//\ufeff", "// 1", "//0x", "//#", "// https://a.b/c", "// $Id$", "// %s %d %%", "//a\rb", "// a\r", "// option", "//\x7f\x01",
	"/**/", "/***/", "/****/", "/* */", "/*a*/", "/* a */", "/** a */", "/*! a */", "/**< a */", "/*//*/", "/*/*/", "/*/ */", "/* /*/", "/* // */", "/* /* */", "/*\"*/", "/*'*/", "/*\\*/", "/*a**/", "/*a***/", "/**a*/", "/***a*/", "/* * */", "/* / */", "/* * / */", "/*a\nb*/", "/* a\n b */", "/**\n * a\n * b\n */",
	"/*\n*/", "/*\n\n*/", "/*\n\n\n*/", "/*\r\n*/", "/*\r*/", "/*a\r\nb\r\n*/", "/*a\n*/", "/*\na*/", "/*\n//\n*/", "/*\n/*\n*/", "/*é*/", "/*é\n世*/", "/*\n😀*/", "/*\x00*/", "/*\ufeff*/", "/*;*/", "/*}*/", "/*{*/", "/* message M { } */", "/*\t*/", "/*\u2028*/", "/*stream*/", "/*=*/", "/*)*/", "/*,*/", "/*]*/",
}

// a comment may be followed by anything on its line only if it is of the C style
var vocabCommentSlots = []string{
	"@\n%\nmessage M { }\n", "message M { } @\n%\n", "@\n%\nsyntax = \"proto3\";\nmessage M { }", "syntax = \"proto3\"; @\n%\nedition = \"2023\";", "edition = \"2023\"; @\n%\n", "package a; @\n%\nimport \"a\";", "import \"a\"; @\n%\noption a = 1;", "option a = 1; @\n%\n;",
	"message M { @\n%\n}", "message M { @\n%\nint32 a = 1; }", "message M { int32 a = 1; @\n%\n}", "message M { int32 a = 1; @\n%\nint32 b = 1; }", "message M { ; @\n%\n; }", "message M { map<a, b> c = 1; @\n%\nreserved 1; }", "message M { reserved 1; @\n%\nextensions 1; }", "message M { extensions 1; @\n%\noption a = 1; }",
	"message M { oneof o { @\n%\nint32 a = 1; @\n%\nint32 b = 1; @\n%\n} @\n%\n}", "message M { oneof o { option a = 1; @\n%\n; @\n} }", "message M { message N { @\n%\n} @\n%\n}", "message M { optional group G = 1 { @\n%\nint32 a = 1; @\n%\n} @\n%\n}", "message M { extend X { @\n%\nint32 a = 1; @\n%\n} @\n%\nenum E { @\n%\nA = 1; } @\n%\n}",
	"message M { extensions 1 [ @\n%\ndeclaration = { @\nnumber: 1 %\n} @\n, %\ndeclaration = { number: 2 } @\n]; %\n}", "message M { int32 @\na %\n= 1; }", "message M { int32 a = 1 @\n[a = 1 %\n, @\nb = %\n2]; }", "option a @\n= %\n1;", "option a = { @\nb: %\n1 @\n};", "option a = \"b\" @\n\"c\" %\n;", "option a = [ @\n1, %\n2];",
	"enum E { @\n%\n}", "enum E { A = 1; @\n%\nB = 2; @\n%\n}", "enum E { reserved 1; @\n%\noption a = 1; @\n%\n; }", "extend X { @\n%\n}", "extend X { int32 a = 1; @\n%\n; } @\n%\n",
	"service S { @\n%\n}", "service S { rpc R(A) returns (B); @\n%\nrpc Q(A) returns (B) { @\n%\noption a = 1; @\n%\n} @\n%\n}", "service S { rpc @\nR %\n(A) @\nreturns %\n(B) @\n; }", "service S { rpc R( @\nstream %\nA @\n) returns ( %\nB) @\n{ } }", "service S { option a = 1; @\n%\n; @\n%\n}",
	"message M { } @\n; %\nenum E { }", "message M { int32 a = 1; @\n; %\n}", "@\n", "@\n%\n;", "@\n%\n@\n%\nenum E { A = 0; }",
}

// vocabUnis: every word in every slot (level 1), every pair of words in every
// pair of slots (level 3), every word with some others (level 2).
func (r *Run) vocabUnis(level int) []uni {
	mk := func(name string, words, slots []string, def string) uni {
		nw := len(words)
		return uni{"vocabulary/" + name, fmt.Sprintf("%d words in %d documents with two slots: %s", nw, len(slots), [...]string{"", "each slot and both", "each with some others", "every pair"}[level]), len(slots) * nw, func(w *Worker, task int, visit visitFn) {
			slot, a := slots[task/nw], words[task%nw]
			put := func(a, b string) { visit(strings.NewReplacer("@", a, "%", b).Replace(slot)) }
			if level == 1 {
				put(a, def)
				put(def, a)
				put(a, a)
				return
			}
			if level == 2 {
				for i := 0; i < nw; i += nw/10 + 1 {
					put(a, words[i])
					put(words[i], a)
				}
				put(a, a)
				return
			}
			for _, b := range words {
				put(a, b)
			}
		}}
	}
	return []uni{
		mk("names", vocabNames, vocabNameSlots, "a"),
		mk("numbers", vocabNumbers, vocabNumberSlots, "1"),
		mk("floats", vocabFloats, vocabFloatSlots, "1.5"),
		mk("strings", vocabStrings, vocabStringSlots, "a"),
		mk("comments", vocabComments, vocabCommentSlots, "//c"),
	}
}
