// Written by `mc gentyped`; see mc/base/src/typed.rs.
use mcbase::typed::prelude::*;
pub static TABLE: &[Row] = &[
    ("any_char", || bx(parser!(any_char))),
    ("any_char+", || bx(parser!(any_char+))),
    ("string(any_char)", || bx(parser!(string(any_char)))),
    ("lines(any_char)", || bx(parser!(lines(any_char)))),
    ("sections(any_char)", || bx(parser!(sections(any_char)))),
    ("(any_char)", || bx(parser!((any_char)))),
    ("any_char+*", || bx(parser!(any_char+*))),
    ("string(any_char)*", || bx(parser!(string(any_char)*))),
    ("lines(any_char)*", || bx(parser!(lines(any_char)*))),
    ("sections(any_char)*", || bx(parser!(sections(any_char)*))),
    ("(any_char)*", || bx(parser!((any_char)*))),
    ("any_char++", || bx(parser!(any_char++))),
    ("string(any_char)+", || bx(parser!(string(any_char)+))),
    ("lines(any_char)+", || bx(parser!(lines(any_char)+))),
    ("sections(any_char)+", || bx(parser!(sections(any_char)+))),
    ("(any_char)+", || bx(parser!((any_char)+))),
    ("(any_char+)?", || bx(parser!((any_char+)?))),
    ("string(any_char)?", || bx(parser!(string(any_char)?))),
    ("lines(any_char)?", || bx(parser!(lines(any_char)?))),
    ("sections(any_char)?", || bx(parser!(sections(any_char)?))),
    ("(any_char)?", || bx(parser!((any_char)?))),
    ("string(any_char+)", || bx(parser!(string(any_char+)))),
    ("string(string(any_char))", || bx(parser!(string(string(any_char))))),
    ("string(lines(any_char))", || bx(parser!(string(lines(any_char))))),
    ("string(sections(any_char))", || bx(parser!(string(sections(any_char))))),
    ("string((any_char))", || bx(parser!(string((any_char))))),
    ("line(any_char+)", || bx(parser!(line(any_char+)))),
    ("line(string(any_char))", || bx(parser!(line(string(any_char))))),
    ("line(lines(any_char))", || bx(parser!(line(lines(any_char))))),
    ("line(sections(any_char))", || bx(parser!(line(sections(any_char))))),
    ("line((any_char))", || bx(parser!(line((any_char))))),
    ("lines(any_char+)", || bx(parser!(lines(any_char+)))),
    ("lines(string(any_char))", || bx(parser!(lines(string(any_char))))),
    ("lines(lines(any_char))", || bx(parser!(lines(lines(any_char))))),
    ("lines(sections(any_char))", || bx(parser!(lines(sections(any_char))))),
    ("lines((any_char))", || bx(parser!(lines((any_char))))),
    ("section(any_char+)", || bx(parser!(section(any_char+)))),
    ("section(string(any_char))", || bx(parser!(section(string(any_char))))),
    ("section(lines(any_char))", || bx(parser!(section(lines(any_char))))),
    ("section(sections(any_char))", || bx(parser!(section(sections(any_char))))),
    ("section((any_char))", || bx(parser!(section((any_char))))),
    ("sections(any_char+)", || bx(parser!(sections(any_char+)))),
    ("sections(string(any_char))", || bx(parser!(sections(string(any_char))))),
    ("sections(lines(any_char))", || bx(parser!(sections(lines(any_char))))),
    ("sections(sections(any_char))", || bx(parser!(sections(sections(any_char))))),
    ("sections((any_char))", || bx(parser!(sections((any_char))))),
    ("(v : any_char+ => conv0(v))", || bx(parser!((v : any_char+ => conv0(v))))),
    ("(v : string(any_char) => conv0(v))", || bx(parser!((v : string(any_char) => conv0(v))))),
    ("(v : lines(any_char) => conv0(v))", || bx(parser!((v : lines(any_char) => conv0(v))))),
    ("(v : sections(any_char) => conv0(v))", || bx(parser!((v : sections(any_char) => conv0(v))))),
    ("(v : (any_char) => conv0(v))", || bx(parser!((v : (any_char) => conv0(v))))),
    ("(any_char+)", || bx(parser!((any_char+)))),
    ("(string(any_char))", || bx(parser!((string(any_char))))),
    ("(lines(any_char))", || bx(parser!((lines(any_char))))),
    ("(sections(any_char))", || bx(parser!((sections(any_char))))),
    ("((any_char))", || bx(parser!(((any_char))))),
    ("\"ab\" any_char", || bx(parser!("ab" any_char))),
    ("{\"ab\", 'a'}", || bx(parser!({"ab", 'a'}))),
    ("repeat_sep(\"ab\", 'a')", || bx(parser!(repeat_sep("ab", 'a')))),
    ("'a'***", || bx(parser!('a'***))),
    ("('a'*)?*", || bx(parser!(('a'*)?*))),
    ("line('a'*)*", || bx(parser!(line('a'*)*))),
    ("('a' 'a')*", || bx(parser!(('a' 'a')*))),
    ("repeat_sep('a', 'a')*", || bx(parser!(repeat_sep('a', 'a')*))),
    ("('a'?*)?", || bx(parser!(('a'?*)?))),
    ("'a'???", || bx(parser!('a'???))),
    ("line('a'?)?", || bx(parser!(line('a'?)?))),
    ("(any_char 'a')?", || bx(parser!((any_char 'a')?))),
    ("repeat_sep(any_char, 'a')?", || bx(parser!(repeat_sep(any_char, 'a')?))),
    ("line(line('a')*)", || bx(parser!(line(line('a')*)))),
    ("line(line('a')?)", || bx(parser!(line(line('a')?)))),
    ("line(line(line('a')))", || bx(parser!(line(line(line('a')))))),
    ("line({'a', 'a'})", || bx(parser!(line({'a', 'a'})))),
    ("'a' 'a'*", || bx(parser!('a' 'a'*))),
    ("any_char 'a'*", || bx(parser!(any_char 'a'*))),
    ("'a'* 'a'", || bx(parser!('a'* 'a'))),
    ("any_char? 'a'", || bx(parser!(any_char? 'a'))),
    ("{'a', line('a')}", || bx(parser!({'a', line('a')}))),
    ("repeat_sep('a', 'a'?)", || bx(parser!(repeat_sep('a', 'a'?)))),
    ("repeat_sep(any_char, 'a'?)", || bx(parser!(repeat_sep(any_char, 'a'?)))),
    ("repeat_sep(any_char*, 'a')", || bx(parser!(repeat_sep(any_char*, 'a')))),
    ("repeat_sep(line('a'), 'a')", || bx(parser!(repeat_sep(line('a'), 'a')))),
    ("'a'* any_char*", || bx(parser!('a'* any_char*))),
    ("'a'* (v : any_char => conv0(v))", || bx(parser!('a'* (v : any_char => conv0(v))))),
    ("'a'* lines(any_char)", || bx(parser!('a'* lines(any_char)))),
    ("\"ab\"* any_char?", || bx(parser!("ab"* any_char?))),
    ("\"ab\"* string(any_char)", || bx(parser!("ab"* string(any_char)))),
    ("any_char* any_char*", || bx(parser!(any_char* any_char*))),
    ("any_char* (v : any_char => conv0(v))", || bx(parser!(any_char* (v : any_char => conv0(v))))),
    ("any_char* lines(any_char)", || bx(parser!(any_char* lines(any_char)))),
    ("'a'? any_char?", || bx(parser!('a'? any_char?))),
    ("'a'? string(any_char)", || bx(parser!('a'? string(any_char)))),
    ("\"ab\"? any_char*", || bx(parser!("ab"? any_char*))),
    ("\"ab\"? (v : any_char => conv0(v))", || bx(parser!("ab"? (v : any_char => conv0(v))))),
    ("\"ab\"? lines(any_char)", || bx(parser!("ab"? lines(any_char)))),
    ("any_char? any_char?", || bx(parser!(any_char? any_char?))),
    ("any_char? string(any_char)", || bx(parser!(any_char? string(any_char)))),
    ("(v : 'a' => conv0(v)) any_char*", || bx(parser!((v : 'a' => conv0(v)) any_char*))),
    ("(v : 'a' => conv0(v)) (v : any_char => conv0(v))", || bx(parser!((v : 'a' => conv0(v)) (v : any_char => conv0(v))))),
    ("(v : 'a' => conv0(v)) lines(any_char)", || bx(parser!((v : 'a' => conv0(v)) lines(any_char)))),
    ("(v : \"ab\" => conv0(v)) any_char?", || bx(parser!((v : "ab" => conv0(v)) any_char?))),
    ("(v : \"ab\" => conv0(v)) string(any_char)", || bx(parser!((v : "ab" => conv0(v)) string(any_char)))),
    ("(v : any_char => conv0(v)) any_char*", || bx(parser!((v : any_char => conv0(v)) any_char*))),
    ("(v : any_char => conv0(v)) (v : any_char => conv0(v))", || bx(parser!((v : any_char => conv0(v)) (v : any_char => conv0(v))))),
    ("(v : any_char => conv0(v)) lines(any_char)", || bx(parser!((v : any_char => conv0(v)) lines(any_char)))),
    ("string('a') any_char?", || bx(parser!(string('a') any_char?))),
    ("string('a') string(any_char)", || bx(parser!(string('a') string(any_char)))),
    ("string(\"ab\") any_char*", || bx(parser!(string("ab") any_char*))),
    ("string(\"ab\") (v : any_char => conv0(v))", || bx(parser!(string("ab") (v : any_char => conv0(v))))),
    ("string(\"ab\") lines(any_char)", || bx(parser!(string("ab") lines(any_char)))),
    ("string(any_char) any_char?", || bx(parser!(string(any_char) any_char?))),
    ("string(any_char) string(any_char)", || bx(parser!(string(any_char) string(any_char)))),
    ("lines('a') any_char*", || bx(parser!(lines('a') any_char*))),
    ("lines('a') (v : any_char => conv0(v))", || bx(parser!(lines('a') (v : any_char => conv0(v))))),
    ("lines('a') lines(any_char)", || bx(parser!(lines('a') lines(any_char)))),
    ("lines(\"ab\") any_char?", || bx(parser!(lines("ab") any_char?))),
    ("lines(\"ab\") string(any_char)", || bx(parser!(lines("ab") string(any_char)))),
    ("lines(any_char) any_char*", || bx(parser!(lines(any_char) any_char*))),
    ("lines(any_char) (v : any_char => conv0(v))", || bx(parser!(lines(any_char) (v : any_char => conv0(v))))),
    ("lines(any_char) lines(any_char)", || bx(parser!(lines(any_char) lines(any_char)))),
    ("vec_deque(('a' 'b')*)", || bx(parser!(vec_deque(('a' 'b')*)))),
    ("sections(line('b') lines(any_char))", || bx(parser!(sections(line('b') lines(any_char))))),
    ("'a' any_char 'b'? any_char", || bx(parser!('a' any_char 'b'? any_char))),
    ("sections(line('b') lines('a'*))", || bx(parser!(sections(line('b') lines('a'*))))),
    ("'a' 'a'* 'b'? any_char", || bx(parser!('a' 'a'* 'b'? any_char))),
    ("sections(line('b') lines(any_char+))", || bx(parser!(sections(line('b') lines(any_char+))))),
    ("'a' any_char+ 'b'? any_char", || bx(parser!('a' any_char+ 'b'? any_char))),
    ("sections(line('b') lines(string(any_char*)))", || bx(parser!(sections(line('b') lines(string(any_char*)))))),
    ("'a' string(any_char*) 'b'? any_char", || bx(parser!('a' string(any_char*) 'b'? any_char))),
    ("sections(line('b') lines((v : any_char => conv0(v))))", || bx(parser!(sections(line('b') lines((v : any_char => conv0(v))))))),
    ("'a' (v : any_char => conv0(v)) 'b'? any_char", || bx(parser!('a' (v : any_char => conv0(v)) 'b'? any_char))),
    ("btree_set(('a' any_char)*)", || bx(parser!(btree_set(('a' any_char)*)))),
    ("rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); r0*", || bx(parser!(rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); r0*))),
    ("rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; r0", || bx(parser!(rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; r0))),
    ("rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; repeat_sep(r0, \"\\n\")", || bx(parser!(rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; repeat_sep(r0, "\n")))),
    ("rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; r0? 'b'", || bx(parser!(rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; r0? 'b'))),
    ("rule r0: Val = (v : ('a' r0)? => conv0(v)); string(r0)", || bx(parser!(rule r0: Val = (v : ('a' r0)? => conv0(v)); string(r0)))),
    ("rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); lines(r0)", || bx(parser!(rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); lines(r0)))),
    ("rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); r0 any_char*", || bx(parser!(rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); r0 any_char*))),
    ("rule r0: Val = (v : any_char => conv0(v)); r0*", || bx(parser!(rule r0: Val = (v : any_char => conv0(v)); r0*))),
    ("rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; r0", || bx(parser!(rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; r0))),
    ("rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); r1", || bx(parser!(rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); r1))),
    ("lines({(v : ({(v : usize => conv0(v)), (v : string(lower+) => conv1(v))} \" AND \" {(v : usize => conv0(v)), (v : string(lower+) => conv1(v))}) => conv2(v)), (v : (\"NOT \" {(v : usize => conv0(v)), (v : string(lower+) => conv1(v))}) => conv3(v)), (v : ({(v : usize => conv0(v)), (v : string(lower+) => conv1(v))} \" LSHIFT \" u8) => conv4(v)), (v : {(v : usize => conv0(v)), (v : string(lower+) => conv1(v))} => conv5(v))} \" -> \" string(lower+))", || bx(parser!(lines({(v : ({(v : usize => conv0(v)), (v : string(lower+) => conv1(v))} " AND " {(v : usize => conv0(v)), (v : string(lower+) => conv1(v))}) => conv2(v)), (v : ("NOT " {(v : usize => conv0(v)), (v : string(lower+) => conv1(v))}) => conv3(v)), (v : ({(v : usize => conv0(v)), (v : string(lower+) => conv1(v))} " LSHIFT " u8) => conv4(v)), (v : {(v : usize => conv0(v)), (v : string(lower+) => conv1(v))} => conv5(v))} " -> " string(lower+))))),
    ("lines((string(lower+) ' ' string(lower+) \" bag\" 's'?) \" contain \" {(v : \"no other bags\" => conv0(v)), (v : repeat_sep(digit ' ' (string(lower+) ' ' string(lower+) \" bag\" 's'?), \", \") => conv1(v))} '.')", || bx(parser!(lines((string(lower+) ' ' string(lower+) " bag" 's'?) " contain " {(v : "no other bags" => conv0(v)), (v : repeat_sep(digit ' ' (string(lower+) ' ' string(lower+) " bag" 's'?), ", ") => conv1(v))} '.')))),
    ("lines(repeat_sep(string(lower+), ' ') \" | \" repeat_sep(string(lower+), ' '))", || bx(parser!(lines(repeat_sep(string(lower+), ' ') " | " repeat_sep(string(lower+), ' '))))),
    ("repeat_sep(lines(usize), '\\n')", || bx(parser!(repeat_sep(lines(usize), '\n')))),
    ("lines(string(lower+) \": \" {(v : i32 => conv0(v)), (v : (string(lower+) ' ' char_of(\"+-*/\") ' ' string(lower+)) => conv1(v))})", || bx(parser!(lines(string(lower+) ": " {(v : i32 => conv0(v)), (v : (string(lower+) ' ' char_of("+-*/") ' ' string(lower+)) => conv1(v))})))),
    ("line(char_of(\"LR\")+) '\\n' btree_map(((string(alnum alnum) \" = \") ('(' string(alnum alnum) \", \" string(alnum alnum) \")\\n\"))*)", || bx(parser!(line(char_of("LR")+) '\n' btree_map(((string(alnum alnum) " = ") ('(' string(alnum alnum) ", " string(alnum alnum) ")\n"))*)))),
    ("section(lines(string(lower+) '{' (char_of(\"xmas\") char_of(\"<>\") usize ':' {(v : 'A' => conv0(v)), (v : 'R' => conv1(v)), (v : string(lower+) => conv2(v))} ',')* {(v : 'A' => conv0(v)), (v : 'R' => conv1(v)), (v : string(lower+) => conv2(v))} '}')) section(lines(\"{x=\" usize \",m=\" usize '}'))", || bx(parser!(section(lines(string(lower+) '{' (char_of("xmas") char_of("<>") usize ':' {(v : 'A' => conv0(v)), (v : 'R' => conv1(v)), (v : string(lower+) => conv2(v))} ',')* {(v : 'A' => conv0(v)), (v : 'R' => conv1(v)), (v : string(lower+) => conv2(v))} '}')) section(lines("{x=" usize ",m=" usize '}'))))),
    ("line(repeat_sep(string(lower+), \", \")) line(()) lines(string(lower+))", || bx(parser!(line(repeat_sep(string(lower+), ", ")) line(()) lines(string(lower+))))),
    ("line(alpha+)* line(\"end\") any_char*", || bx(parser!(line(alpha+)* line("end") any_char*))),
    ("lines(hash_map(((string(lower+) ':') (usize ';'))*))", || bx(parser!(lines(hash_map(((string(lower+) ':') (usize ';'))*))))),
];
