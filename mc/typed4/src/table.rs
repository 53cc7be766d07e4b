// Written by `mc gentyped`; see mc/base/src/typed.rs.
use mcbase::typed::prelude::*;
pub static TABLE: &[Row] = &[
    ("\"ab\"*", || bx(parser!("ab"*))),
    ("\"ab\"?", || bx(parser!("ab"?))),
    ("line(\"ab\")", || bx(parser!(line("ab")))),
    ("section(\"ab\")", || bx(parser!(section("ab")))),
    ("(v : \"ab\" => conv0(v))", || bx(parser!((v : "ab" => conv0(v))))),
    ("\"ab\"**", || bx(parser!("ab"**))),
    ("\"ab\"?*", || bx(parser!("ab"?*))),
    ("line(\"ab\")*", || bx(parser!(line("ab")*))),
    ("section(\"ab\")*", || bx(parser!(section("ab")*))),
    ("(v : \"ab\" => conv0(v))*", || bx(parser!((v : "ab" => conv0(v))*))),
    ("\"ab\"*+", || bx(parser!("ab"*+))),
    ("\"ab\"?+", || bx(parser!("ab"?+))),
    ("line(\"ab\")+", || bx(parser!(line("ab")+))),
    ("section(\"ab\")+", || bx(parser!(section("ab")+))),
    ("(v : \"ab\" => conv0(v))+", || bx(parser!((v : "ab" => conv0(v))+))),
    ("(\"ab\"*)?", || bx(parser!(("ab"*)?))),
    ("\"ab\"??", || bx(parser!("ab"??))),
    ("line(\"ab\")?", || bx(parser!(line("ab")?))),
    ("section(\"ab\")?", || bx(parser!(section("ab")?))),
    ("(v : \"ab\" => conv0(v))?", || bx(parser!((v : "ab" => conv0(v))?))),
    ("string(\"ab\"*)", || bx(parser!(string("ab"*)))),
    ("string(\"ab\"?)", || bx(parser!(string("ab"?)))),
    ("string(line(\"ab\"))", || bx(parser!(string(line("ab"))))),
    ("string(section(\"ab\"))", || bx(parser!(string(section("ab"))))),
    ("string((v : \"ab\" => conv0(v)))", || bx(parser!(string((v : "ab" => conv0(v)))))),
    ("line(\"ab\"*)", || bx(parser!(line("ab"*)))),
    ("line(\"ab\"?)", || bx(parser!(line("ab"?)))),
    ("line(line(\"ab\"))", || bx(parser!(line(line("ab"))))),
    ("line(section(\"ab\"))", || bx(parser!(line(section("ab"))))),
    ("line((v : \"ab\" => conv0(v)))", || bx(parser!(line((v : "ab" => conv0(v)))))),
    ("lines(\"ab\"*)", || bx(parser!(lines("ab"*)))),
    ("lines(\"ab\"?)", || bx(parser!(lines("ab"?)))),
    ("lines(line(\"ab\"))", || bx(parser!(lines(line("ab"))))),
    ("lines(section(\"ab\"))", || bx(parser!(lines(section("ab"))))),
    ("lines((v : \"ab\" => conv0(v)))", || bx(parser!(lines((v : "ab" => conv0(v)))))),
    ("section(\"ab\"*)", || bx(parser!(section("ab"*)))),
    ("section(\"ab\"?)", || bx(parser!(section("ab"?)))),
    ("section(line(\"ab\"))", || bx(parser!(section(line("ab"))))),
    ("section(section(\"ab\"))", || bx(parser!(section(section("ab"))))),
    ("section((v : \"ab\" => conv0(v)))", || bx(parser!(section((v : "ab" => conv0(v)))))),
    ("sections(\"ab\"*)", || bx(parser!(sections("ab"*)))),
    ("sections(\"ab\"?)", || bx(parser!(sections("ab"?)))),
    ("sections(line(\"ab\"))", || bx(parser!(sections(line("ab"))))),
    ("sections(section(\"ab\"))", || bx(parser!(sections(section("ab"))))),
    ("sections((v : \"ab\" => conv0(v)))", || bx(parser!(sections((v : "ab" => conv0(v)))))),
    ("(v : \"ab\"* => conv0(v))", || bx(parser!((v : "ab"* => conv0(v))))),
    ("(v : \"ab\"? => conv0(v))", || bx(parser!((v : "ab"? => conv0(v))))),
    ("(v : line(\"ab\") => conv0(v))", || bx(parser!((v : line("ab") => conv0(v))))),
    ("(v : section(\"ab\") => conv0(v))", || bx(parser!((v : section("ab") => conv0(v))))),
    ("(v : (v : \"ab\" => conv0(v)) => conv0(v))", || bx(parser!((v : (v : "ab" => conv0(v)) => conv0(v))))),
    ("(\"ab\"*)", || bx(parser!(("ab"*)))),
    ("(\"ab\"?)", || bx(parser!(("ab"?)))),
    ("(line(\"ab\"))", || bx(parser!((line("ab"))))),
    ("(section(\"ab\"))", || bx(parser!((section("ab"))))),
    ("((v : \"ab\" => conv0(v)))", || bx(parser!(((v : "ab" => conv0(v)))))),
    ("'a' \"ab\"", || bx(parser!('a' "ab"))),
    ("any_char \"ab\"", || bx(parser!(any_char "ab"))),
    ("{any_char, any_char}", || bx(parser!({any_char, any_char}))),
    ("repeat_sep(\"ab\", any_char)", || bx(parser!(repeat_sep("ab", any_char)))),
    ("'a'?**", || bx(parser!('a'?**))),
    ("'a'??*", || bx(parser!('a'??*))),
    ("line('a'?)*", || bx(parser!(line('a'?)*))),
    ("(any_char 'a')*", || bx(parser!((any_char 'a')*))),
    ("repeat_sep(any_char, 'a')*", || bx(parser!(repeat_sep(any_char, 'a')*))),
    ("(line('a')*)?", || bx(parser!((line('a')*)?))),
    ("line('a')??", || bx(parser!(line('a')??))),
    ("line(line('a'))?", || bx(parser!(line(line('a'))?))),
    ("{'a', 'a'}?", || bx(parser!({'a', 'a'}?))),
    ("line('a'**)", || bx(parser!(line('a'**)))),
    ("line(('a'*)?)", || bx(parser!(line(('a'*)?)))),
    ("line(line('a'*))", || bx(parser!(line(line('a'*))))),
    ("line('a' 'a')", || bx(parser!(line('a' 'a')))),
    ("line(repeat_sep('a', 'a'))", || bx(parser!(line(repeat_sep('a', 'a'))))),
    ("'a' 'a'?", || bx(parser!('a' 'a'?))),
    ("any_char 'a'?", || bx(parser!(any_char 'a'?))),
    ("any_char* 'a'", || bx(parser!(any_char* 'a'))),
    ("line('a') 'a'", || bx(parser!(line('a') 'a'))),
    ("{line('a'), 'a'}", || bx(parser!({line('a'), 'a'}))),
    ("repeat_sep('a', line('a'))", || bx(parser!(repeat_sep('a', line('a'))))),
    ("repeat_sep(any_char, line('a'))", || bx(parser!(repeat_sep(any_char, line('a'))))),
    ("repeat_sep('a'?, 'a')", || bx(parser!(repeat_sep('a'?, 'a')))),
    ("repeat_sep(line(any_char), 'a')", || bx(parser!(repeat_sep(line(any_char), 'a')))),
    ("'a'* \"ab\"?", || bx(parser!('a'* "ab"?))),
    ("'a'* string(\"ab\")", || bx(parser!('a'* string("ab")))),
    ("\"ab\"* \"ab\"*", || bx(parser!("ab"* "ab"*))),
    ("\"ab\"* (v : \"ab\" => conv0(v))", || bx(parser!("ab"* (v : "ab" => conv0(v))))),
    ("\"ab\"* lines(\"ab\")", || bx(parser!("ab"* lines("ab")))),
    ("any_char* \"ab\"?", || bx(parser!(any_char* "ab"?))),
    ("any_char* string(\"ab\")", || bx(parser!(any_char* string("ab")))),
    ("'a'? \"ab\"*", || bx(parser!('a'? "ab"*))),
    ("'a'? (v : \"ab\" => conv0(v))", || bx(parser!('a'? (v : "ab" => conv0(v))))),
    ("'a'? lines(\"ab\")", || bx(parser!('a'? lines("ab")))),
    ("\"ab\"? \"ab\"?", || bx(parser!("ab"? "ab"?))),
    ("\"ab\"? string(\"ab\")", || bx(parser!("ab"? string("ab")))),
    ("any_char? \"ab\"*", || bx(parser!(any_char? "ab"*))),
    ("any_char? (v : \"ab\" => conv0(v))", || bx(parser!(any_char? (v : "ab" => conv0(v))))),
    ("any_char? lines(\"ab\")", || bx(parser!(any_char? lines("ab")))),
    ("(v : 'a' => conv0(v)) \"ab\"?", || bx(parser!((v : 'a' => conv0(v)) "ab"?))),
    ("(v : 'a' => conv0(v)) string(\"ab\")", || bx(parser!((v : 'a' => conv0(v)) string("ab")))),
    ("(v : \"ab\" => conv0(v)) \"ab\"*", || bx(parser!((v : "ab" => conv0(v)) "ab"*))),
    ("(v : \"ab\" => conv0(v)) (v : \"ab\" => conv0(v))", || bx(parser!((v : "ab" => conv0(v)) (v : "ab" => conv0(v))))),
    ("(v : \"ab\" => conv0(v)) lines(\"ab\")", || bx(parser!((v : "ab" => conv0(v)) lines("ab")))),
    ("(v : any_char => conv0(v)) \"ab\"?", || bx(parser!((v : any_char => conv0(v)) "ab"?))),
    ("(v : any_char => conv0(v)) string(\"ab\")", || bx(parser!((v : any_char => conv0(v)) string("ab")))),
    ("string('a') \"ab\"*", || bx(parser!(string('a') "ab"*))),
    ("string('a') (v : \"ab\" => conv0(v))", || bx(parser!(string('a') (v : "ab" => conv0(v))))),
    ("string('a') lines(\"ab\")", || bx(parser!(string('a') lines("ab")))),
    ("string(\"ab\") \"ab\"?", || bx(parser!(string("ab") "ab"?))),
    ("string(\"ab\") string(\"ab\")", || bx(parser!(string("ab") string("ab")))),
    ("string(any_char) \"ab\"*", || bx(parser!(string(any_char) "ab"*))),
    ("string(any_char) (v : \"ab\" => conv0(v))", || bx(parser!(string(any_char) (v : "ab" => conv0(v))))),
    ("string(any_char) lines(\"ab\")", || bx(parser!(string(any_char) lines("ab")))),
    ("lines('a') \"ab\"?", || bx(parser!(lines('a') "ab"?))),
    ("lines('a') string(\"ab\")", || bx(parser!(lines('a') string("ab")))),
    ("lines(\"ab\") \"ab\"*", || bx(parser!(lines("ab") "ab"*))),
    ("lines(\"ab\") (v : \"ab\" => conv0(v))", || bx(parser!(lines("ab") (v : "ab" => conv0(v))))),
    ("lines(\"ab\") lines(\"ab\")", || bx(parser!(lines("ab") lines("ab")))),
    ("lines(any_char) \"ab\"?", || bx(parser!(lines(any_char) "ab"?))),
    ("lines(any_char) string(\"ab\")", || bx(parser!(lines(any_char) string("ab")))),
    ("sections(line('b') lines('a'))", || bx(parser!(sections(line('b') lines('a'))))),
    ("'a' 'a' 'b'? any_char", || bx(parser!('a' 'a' 'b'? any_char))),
    ("btree_set(any_char*)", || bx(parser!(btree_set(any_char*)))),
    ("{(v : any_char => conv0(v)), (v : \"ab\" => conv1(v)), (v : (any_char any_char) => conv2(v))}", || bx(parser!({(v : any_char => conv0(v)), (v : "ab" => conv1(v)), (v : (any_char any_char) => conv2(v))}))),
    ("btree_set('a'**)", || bx(parser!(btree_set('a'**)))),
    ("{(v : 'a'* => conv0(v)), (v : \"ab\" => conv1(v)), (v : (any_char 'a'*) => conv2(v))}", || bx(parser!({(v : 'a'* => conv0(v)), (v : "ab" => conv1(v)), (v : (any_char 'a'*) => conv2(v))}))),
    ("btree_set(any_char+*)", || bx(parser!(btree_set(any_char+*)))),
    ("{(v : any_char+ => conv0(v)), (v : \"ab\" => conv1(v)), (v : (any_char any_char+) => conv2(v))}", || bx(parser!({(v : any_char+ => conv0(v)), (v : "ab" => conv1(v)), (v : (any_char any_char+) => conv2(v))}))),
    ("btree_set(string(any_char*)*)", || bx(parser!(btree_set(string(any_char*)*)))),
    ("{(v : string(any_char*) => conv0(v)), (v : \"ab\" => conv1(v)), (v : (any_char string(any_char*)) => conv2(v))}", || bx(parser!({(v : string(any_char*) => conv0(v)), (v : "ab" => conv1(v)), (v : (any_char string(any_char*)) => conv2(v))}))),
    ("btree_set((v : any_char => conv0(v))*)", || bx(parser!(btree_set((v : any_char => conv0(v))*)))),
    ("section(lines('a' any_char))", || bx(parser!(section(lines('a' any_char))))),
    ("vec_deque((('a' any_char) 'b')*)", || bx(parser!(vec_deque((('a' any_char) 'b')*)))),
    ("rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); lines(r0)", || bx(parser!(rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); lines(r0)))),
    ("rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; r0 any_char*", || bx(parser!(rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; r0 any_char*))),
    ("rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; r0*", || bx(parser!(rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; r0*))),
    ("rule r0: Val = (v : ('a' r0)? => conv0(v)); r0", || bx(parser!(rule r0: Val = (v : ('a' r0)? => conv0(v)); r0))),
    ("rule r0: Val = (v : ('a' r0)? => conv0(v)); repeat_sep(r0, \"\\n\")", || bx(parser!(rule r0: Val = (v : ('a' r0)? => conv0(v)); repeat_sep(r0, "\n")))),
    ("rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); r0? 'b'", || bx(parser!(rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); r0? 'b'))),
    ("rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); string(r0)", || bx(parser!(rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); string(r0)))),
    ("rule r0: Val = (v : any_char => conv0(v)); lines(r0)", || bx(parser!(rule r0: Val = (v : any_char => conv0(v)); lines(r0)))),
    ("rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; r0 r1", || bx(parser!(rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; r0 r1))),
    ("rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); {r1, r0}", || bx(parser!(rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); {r1, r0}))),
    ("rule r0: Val = {(v : i32 => conv0(v)), (v : ('\"' string(lower*) '\"') => conv1(v)), (v : ('[' repeat_sep(r0, ',') ']') => conv2(v)), (v : ('{' repeat_sep(r1, ',') '}') => conv3(v))}; rule r1: Val = (v : ('\"' string(lower*) \"\\\":\" r0) => conv4(v)); r0", || bx(parser!(rule r0: Val = {(v : i32 => conv0(v)), (v : ('"' string(lower*) '"') => conv1(v)), (v : ('[' repeat_sep(r0, ',') ']') => conv2(v)), (v : ('{' repeat_sep(r1, ',') '}') => conv3(v))}; rule r1: Val = (v : ('"' string(lower*) "\":" r0) => conv4(v)); r0))),
    ("rule r0: Val = (v : ((r1) (' ' {(v : '+' => conv1(v)), (v : '*' => conv2(v))} ' ' r1)*) => conv0(v)); rule r1: Val = {(v : usize => conv3(v)), (v : ('(' r0 ')') => conv4(v))}; lines(r0)", || bx(parser!(rule r0: Val = (v : ((r1) (' ' {(v : '+' => conv1(v)), (v : '*' => conv2(v))} ' ' r1)*) => conv0(v)); rule r1: Val = {(v : usize => conv3(v)), (v : ('(' r0 ')') => conv4(v))}; lines(r0)))),
    ("line(upper+) line(\"\") lines(upper upper \" -> \" upper)", || bx(parser!(line(upper+) line("") lines(upper upper " -> " upper)))),
    ("{(v : line(\"$ cd \" {(v : '/' => conv1(v)), (v : \"..\" => conv2(v)), (v : string(any_char+) => conv3(v))}) => conv0(v)), (v : (line(\"$ ls\") lines({(v : (\"dir \" string(lower+)) => conv5(v)), (v : (usize ' ' string({(v : lower => conv0(v)), (v : '.' => conv1(v))}+)) => conv5(v))})) => conv4(v))}+", || bx(parser!({(v : line("$ cd " {(v : '/' => conv1(v)), (v : ".." => conv2(v)), (v : string(any_char+) => conv3(v))}) => conv0(v)), (v : (line("$ ls") lines({(v : ("dir " string(lower+)) => conv5(v)), (v : (usize ' ' string({(v : lower => conv0(v)), (v : '.' => conv1(v))}+)) => conv5(v))})) => conv4(v))}+))),
    ("lines(\"Game \" usize \": \" repeat_sep(repeat_sep(usize ' ' {(v : \"red\" => conv0(v)), (v : \"green\" => conv1(v)), (v : \"blue\" => conv2(v))}, \", \"), \"; \"))", || bx(parser!(lines("Game " usize ": " repeat_sep(repeat_sep(usize ' ' {(v : "red" => conv0(v)), (v : "green" => conv1(v)), (v : "blue" => conv2(v))}, ", "), "; "))))),
    ("sections(lines(char_of(\".#\")+))", || bx(parser!(sections(lines(char_of(".#")+))))),
    ("lines(usize ' '+ usize)", || bx(parser!(lines(usize ' '+ usize)))),
    ("section(lines(string(alnum+) \": \" {(v : '0' => conv0(v)), (v : '1' => conv1(v))})) section(lines(string(alnum+) ' ' {(v : \"XOR\" => conv2(v)), (v : \"OR\" => conv3(v)), (v : \"AND\" => conv4(v))} ' ' string(alnum+) \" -> \" string(alnum+)))", || bx(parser!(section(lines(string(alnum+) ": " {(v : '0' => conv0(v)), (v : '1' => conv1(v))})) section(lines(string(alnum+) ' ' {(v : "XOR" => conv2(v)), (v : "OR" => conv3(v)), (v : "AND" => conv4(v))} ' ' string(alnum+) " -> " string(alnum+)))))),
    ("lines(repeat_sep(usize?, ','))", || bx(parser!(lines(repeat_sep(usize?, ','))))),
    ("rule r0: Val = (v : (line(string(lower+) ':') r1*) => conv0(v)); rule r1: Val = {(v : line(\"- \" string(lower+)) => conv1(v)), (v : (line(\"+ \" string(lower+)) line(\"  \" string(lower+))*) => conv2(v))}; r0+", || bx(parser!(rule r0: Val = (v : (line(string(lower+) ':') r1*) => conv0(v)); rule r1: Val = {(v : line("- " string(lower+)) => conv1(v)), (v : (line("+ " string(lower+)) line("  " string(lower+))*) => conv2(v))}; r0+))),
];
