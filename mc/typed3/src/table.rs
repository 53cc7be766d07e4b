// Written by `mc gentyped`; see mc/base/src/typed.rs.
use mcbase::typed::prelude::*;
pub static TABLE: &[Row] = &[
    ("'a'*", || bx(parser!('a'*))),
    ("'a'?", || bx(parser!('a'?))),
    ("line('a')", || bx(parser!(line('a')))),
    ("section('a')", || bx(parser!(section('a')))),
    ("(v : 'a' => conv0(v))", || bx(parser!((v : 'a' => conv0(v))))),
    ("'a'**", || bx(parser!('a'**))),
    ("'a'?*", || bx(parser!('a'?*))),
    ("line('a')*", || bx(parser!(line('a')*))),
    ("section('a')*", || bx(parser!(section('a')*))),
    ("(v : 'a' => conv0(v))*", || bx(parser!((v : 'a' => conv0(v))*))),
    ("'a'*+", || bx(parser!('a'*+))),
    ("'a'?+", || bx(parser!('a'?+))),
    ("line('a')+", || bx(parser!(line('a')+))),
    ("section('a')+", || bx(parser!(section('a')+))),
    ("(v : 'a' => conv0(v))+", || bx(parser!((v : 'a' => conv0(v))+))),
    ("('a'*)?", || bx(parser!(('a'*)?))),
    ("'a'??", || bx(parser!('a'??))),
    ("line('a')?", || bx(parser!(line('a')?))),
    ("section('a')?", || bx(parser!(section('a')?))),
    ("(v : 'a' => conv0(v))?", || bx(parser!((v : 'a' => conv0(v))?))),
    ("string('a'*)", || bx(parser!(string('a'*)))),
    ("string('a'?)", || bx(parser!(string('a'?)))),
    ("string(line('a'))", || bx(parser!(string(line('a'))))),
    ("string(section('a'))", || bx(parser!(string(section('a'))))),
    ("string((v : 'a' => conv0(v)))", || bx(parser!(string((v : 'a' => conv0(v)))))),
    ("line('a'*)", || bx(parser!(line('a'*)))),
    ("line('a'?)", || bx(parser!(line('a'?)))),
    ("line(line('a'))", || bx(parser!(line(line('a'))))),
    ("line(section('a'))", || bx(parser!(line(section('a'))))),
    ("line((v : 'a' => conv0(v)))", || bx(parser!(line((v : 'a' => conv0(v)))))),
    ("lines('a'*)", || bx(parser!(lines('a'*)))),
    ("lines('a'?)", || bx(parser!(lines('a'?)))),
    ("lines(line('a'))", || bx(parser!(lines(line('a'))))),
    ("lines(section('a'))", || bx(parser!(lines(section('a'))))),
    ("lines((v : 'a' => conv0(v)))", || bx(parser!(lines((v : 'a' => conv0(v)))))),
    ("section('a'*)", || bx(parser!(section('a'*)))),
    ("section('a'?)", || bx(parser!(section('a'?)))),
    ("section(line('a'))", || bx(parser!(section(line('a'))))),
    ("section(section('a'))", || bx(parser!(section(section('a'))))),
    ("section((v : 'a' => conv0(v)))", || bx(parser!(section((v : 'a' => conv0(v)))))),
    ("sections('a'*)", || bx(parser!(sections('a'*)))),
    ("sections('a'?)", || bx(parser!(sections('a'?)))),
    ("sections(line('a'))", || bx(parser!(sections(line('a'))))),
    ("sections(section('a'))", || bx(parser!(sections(section('a'))))),
    ("sections((v : 'a' => conv0(v)))", || bx(parser!(sections((v : 'a' => conv0(v)))))),
    ("(v : 'a'* => conv0(v))", || bx(parser!((v : 'a'* => conv0(v))))),
    ("(v : 'a'? => conv0(v))", || bx(parser!((v : 'a'? => conv0(v))))),
    ("(v : line('a') => conv0(v))", || bx(parser!((v : line('a') => conv0(v))))),
    ("(v : section('a') => conv0(v))", || bx(parser!((v : section('a') => conv0(v))))),
    ("(v : (v : 'a' => conv0(v)) => conv0(v))", || bx(parser!((v : (v : 'a' => conv0(v)) => conv0(v))))),
    ("('a'*)", || bx(parser!(('a'*)))),
    ("('a'?)", || bx(parser!(('a'?)))),
    ("(line('a'))", || bx(parser!((line('a'))))),
    ("(section('a'))", || bx(parser!((section('a'))))),
    ("((v : 'a' => conv0(v)))", || bx(parser!(((v : 'a' => conv0(v)))))),
    ("'a' 'a'", || bx(parser!('a' 'a'))),
    ("any_char 'a'", || bx(parser!(any_char 'a'))),
    ("{\"ab\", \"ab\"}", || bx(parser!({"ab", "ab"}))),
    ("repeat_sep(\"ab\", \"ab\")", || bx(parser!(repeat_sep("ab", "ab")))),
    ("any_char***", || bx(parser!(any_char***))),
    ("(any_char*)?*", || bx(parser!((any_char*)?*))),
    ("line(any_char*)*", || bx(parser!(line(any_char*)*))),
    ("('a' any_char)*", || bx(parser!(('a' any_char)*))),
    ("repeat_sep('a', any_char)*", || bx(parser!(repeat_sep('a', any_char)*))),
    ("(any_char?*)?", || bx(parser!((any_char?*)?))),
    ("any_char???", || bx(parser!(any_char???))),
    ("line(any_char?)?", || bx(parser!(line(any_char?)?))),
    ("(any_char any_char)?", || bx(parser!((any_char any_char)?))),
    ("repeat_sep(any_char, any_char)?", || bx(parser!(repeat_sep(any_char, any_char)?))),
    ("line(line(any_char)*)", || bx(parser!(line(line(any_char)*)))),
    ("line(line(any_char)?)", || bx(parser!(line(line(any_char)?)))),
    ("line(line(line(any_char)))", || bx(parser!(line(line(line(any_char)))))),
    ("line({any_char, any_char})", || bx(parser!(line({any_char, any_char})))),
    ("'a' any_char*", || bx(parser!('a' any_char*))),
    ("any_char any_char*", || bx(parser!(any_char any_char*))),
    ("'a'* any_char", || bx(parser!('a'* any_char))),
    ("any_char? any_char", || bx(parser!(any_char? any_char))),
    ("{any_char, line(any_char)}", || bx(parser!({any_char, line(any_char)}))),
    ("repeat_sep('a', any_char?)", || bx(parser!(repeat_sep('a', any_char?)))),
    ("repeat_sep(any_char, any_char?)", || bx(parser!(repeat_sep(any_char, any_char?)))),
    ("repeat_sep(any_char*, any_char)", || bx(parser!(repeat_sep(any_char*, any_char)))),
    ("repeat_sep(line('a'), any_char)", || bx(parser!(repeat_sep(line('a'), any_char)))),
    ("'a'* 'a'?", || bx(parser!('a'* 'a'?))),
    ("'a'* string('a')", || bx(parser!('a'* string('a')))),
    ("\"ab\"* 'a'*", || bx(parser!("ab"* 'a'*))),
    ("\"ab\"* (v : 'a' => conv0(v))", || bx(parser!("ab"* (v : 'a' => conv0(v))))),
    ("\"ab\"* lines('a')", || bx(parser!("ab"* lines('a')))),
    ("any_char* 'a'?", || bx(parser!(any_char* 'a'?))),
    ("any_char* string('a')", || bx(parser!(any_char* string('a')))),
    ("'a'? 'a'*", || bx(parser!('a'? 'a'*))),
    ("'a'? (v : 'a' => conv0(v))", || bx(parser!('a'? (v : 'a' => conv0(v))))),
    ("'a'? lines('a')", || bx(parser!('a'? lines('a')))),
    ("\"ab\"? 'a'?", || bx(parser!("ab"? 'a'?))),
    ("\"ab\"? string('a')", || bx(parser!("ab"? string('a')))),
    ("any_char? 'a'*", || bx(parser!(any_char? 'a'*))),
    ("any_char? (v : 'a' => conv0(v))", || bx(parser!(any_char? (v : 'a' => conv0(v))))),
    ("any_char? lines('a')", || bx(parser!(any_char? lines('a')))),
    ("(v : 'a' => conv0(v)) 'a'?", || bx(parser!((v : 'a' => conv0(v)) 'a'?))),
    ("(v : 'a' => conv0(v)) string('a')", || bx(parser!((v : 'a' => conv0(v)) string('a')))),
    ("(v : \"ab\" => conv0(v)) 'a'*", || bx(parser!((v : "ab" => conv0(v)) 'a'*))),
    ("(v : \"ab\" => conv0(v)) (v : 'a' => conv0(v))", || bx(parser!((v : "ab" => conv0(v)) (v : 'a' => conv0(v))))),
    ("(v : \"ab\" => conv0(v)) lines('a')", || bx(parser!((v : "ab" => conv0(v)) lines('a')))),
    ("(v : any_char => conv0(v)) 'a'?", || bx(parser!((v : any_char => conv0(v)) 'a'?))),
    ("(v : any_char => conv0(v)) string('a')", || bx(parser!((v : any_char => conv0(v)) string('a')))),
    ("string('a') 'a'*", || bx(parser!(string('a') 'a'*))),
    ("string('a') (v : 'a' => conv0(v))", || bx(parser!(string('a') (v : 'a' => conv0(v))))),
    ("string('a') lines('a')", || bx(parser!(string('a') lines('a')))),
    ("string(\"ab\") 'a'?", || bx(parser!(string("ab") 'a'?))),
    ("string(\"ab\") string('a')", || bx(parser!(string("ab") string('a')))),
    ("string(any_char) 'a'*", || bx(parser!(string(any_char) 'a'*))),
    ("string(any_char) (v : 'a' => conv0(v))", || bx(parser!(string(any_char) (v : 'a' => conv0(v))))),
    ("string(any_char) lines('a')", || bx(parser!(string(any_char) lines('a')))),
    ("lines('a') 'a'?", || bx(parser!(lines('a') 'a'?))),
    ("lines('a') string('a')", || bx(parser!(lines('a') string('a')))),
    ("lines(\"ab\") 'a'*", || bx(parser!(lines("ab") 'a'*))),
    ("lines(\"ab\") (v : 'a' => conv0(v))", || bx(parser!(lines("ab") (v : 'a' => conv0(v))))),
    ("lines(\"ab\") lines('a')", || bx(parser!(lines("ab") lines('a')))),
    ("lines(any_char) 'a'?", || bx(parser!(lines(any_char) 'a'?))),
    ("lines(any_char) string('a')", || bx(parser!(lines(any_char) string('a')))),
    ("section(line('a')) section(lines('a'))", || bx(parser!(section(line('a')) section(lines('a'))))),
    ("('a'? 'b')?", || bx(parser!(('a'? 'b')?))),
    ("{(v : line(any_char) => conv1(v)), (v : section(line('b')) => conv2(v))}*", || bx(parser!({(v : line(any_char) => conv1(v)), (v : section(line('b')) => conv2(v))}*))),
    ("any_char any_char any_char 'b' any_char*", || bx(parser!(any_char any_char any_char 'b' any_char*))),
    ("{(v : line('a'*) => conv1(v)), (v : section(line('b')) => conv2(v))}*", || bx(parser!({(v : line('a'*) => conv1(v)), (v : section(line('b')) => conv2(v))}*))),
    ("any_char 'a'* any_char 'b' any_char*", || bx(parser!(any_char 'a'* any_char 'b' any_char*))),
    ("{(v : line(any_char+) => conv1(v)), (v : section(line('b')) => conv2(v))}*", || bx(parser!({(v : line(any_char+) => conv1(v)), (v : section(line('b')) => conv2(v))}*))),
    ("any_char any_char+ any_char 'b' any_char*", || bx(parser!(any_char any_char+ any_char 'b' any_char*))),
    ("{(v : line(string(any_char*)) => conv1(v)), (v : section(line('b')) => conv2(v))}*", || bx(parser!({(v : line(string(any_char*)) => conv1(v)), (v : section(line('b')) => conv2(v))}*))),
    ("any_char string(any_char*) any_char 'b' any_char*", || bx(parser!(any_char string(any_char*) any_char 'b' any_char*))),
    ("{(v : line((v : any_char => conv0(v))) => conv1(v)), (v : section(line('b')) => conv2(v))}*", || bx(parser!({(v : line((v : any_char => conv0(v))) => conv1(v)), (v : section(line('b')) => conv2(v))}*))),
    ("sections(lines('a' any_char))", || bx(parser!(sections(lines('a' any_char))))),
    ("hash_set(('b' ('a' any_char))*)", || bx(parser!(hash_set(('b' ('a' any_char))*)))),
    ("rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); r0 any_char*", || bx(parser!(rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); r0 any_char*))),
    ("rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; r0*", || bx(parser!(rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; r0*))),
    ("rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; r0", || bx(parser!(rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; r0))),
    ("rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; repeat_sep(r0, \"\\n\")", || bx(parser!(rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; repeat_sep(r0, "\n")))),
    ("rule r0: Val = (v : ('a' r0)? => conv0(v)); r0? 'b'", || bx(parser!(rule r0: Val = (v : ('a' r0)? => conv0(v)); r0? 'b'))),
    ("rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); string(r0)", || bx(parser!(rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); string(r0)))),
    ("rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); lines(r0)", || bx(parser!(rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); lines(r0)))),
    ("rule r0: Val = (v : any_char => conv0(v)); r0 any_char*", || bx(parser!(rule r0: Val = (v : any_char => conv0(v)); r0 any_char*))),
    ("rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; r1", || bx(parser!(rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; r1))),
    ("rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); r0 r1", || bx(parser!(rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); r0 r1))),
    ("lines(string(alpha+) \" to \" string(alpha+) \" = \" usize)", || bx(parser!(lines(string(alpha+) " to " string(alpha+) " = " usize)))),
    ("section(lines(string({(v : lower => conv0(v)), (v : ' ' => conv1(v))}+) \": \" usize '-' usize \" or \" repeat_sep(usize '-' usize, \" or \"))) section(line(\"your ticket:\") line(repeat_sep(usize, ','))) section(line(\"nearby tickets:\") lines(repeat_sep(usize, ',')))", || bx(parser!(section(lines(string({(v : lower => conv0(v)), (v : ' ' => conv1(v))}+) ": " usize '-' usize " or " repeat_sep(usize '-' usize, " or "))) section(line("your ticket:") line(repeat_sep(usize, ','))) section(line("nearby tickets:") lines(repeat_sep(usize, ',')))))),
    ("lines(usize ',' usize) '\\n' lines(\"fold along \" {(v : 'x' => conv0(v)), (v : 'y' => conv1(v))} '=' usize)", || bx(parser!(lines(usize ',' usize) '\n' lines("fold along " {(v : 'x' => conv0(v)), (v : 'y' => conv1(v))} '=' usize)))),
    ("section(lines(repeat_sep({(v : \"   \" => conv0(v)), (v : ('[' upper ']') => conv1(v))}, ' ')) line(repeat_sep(' ' digit ' ', ' '))) section(lines(\"move \" usize \" from \" digit \" to \" digit))", || bx(parser!(section(lines(repeat_sep({(v : "   " => conv0(v)), (v : ('[' upper ']') => conv1(v))}, ' ')) line(repeat_sep(' ' digit ' ', ' '))) section(lines("move " usize " from " digit " to " digit))))),
    ("section(lines(char_of(\" .#\")+)) section(line({(v : usize => conv0(v)), (v : 'L' => conv1(v)), (v : 'R' => conv2(v))}+))", || bx(parser!(section(lines(char_of(" .#")+)) section(line({(v : usize => conv0(v)), (v : 'L' => conv1(v)), (v : 'R' => conv2(v))}+))))),
    ("lines(char_of(\".#?\")+ ' ' repeat_sep(u8, ','))", || bx(parser!(lines(char_of(".#?")+ ' ' repeat_sep(u8, ','))))),
    ("lines({(v : \"broadcaster\" => conv0(v)), (v : ('%' string(lower+)) => conv1(v)), (v : ('&' string(lower+)) => conv2(v))} \" -> \" repeat_sep(string(lower+), \", \"))", || bx(parser!(lines({(v : "broadcaster" => conv0(v)), (v : ('%' string(lower+)) => conv1(v)), (v : ('&' string(lower+)) => conv2(v))} " -> " repeat_sep(string(lower+), ", "))))),
    ("sections({(v : (line(\"###\") line(char_of(\"#.\")+)* line(\"...\")) => conv0(v)), (v : (line(\"...\") line(char_of(\"#.\")+)* line(\"###\")) => conv1(v))})", || bx(parser!(sections({(v : (line("###") line(char_of("#.")+)* line("...")) => conv0(v)), (v : (line("...") line(char_of("#.")+)* line("###")) => conv1(v))})))),
    ("lines((usize '-')? (usize) ('-' usize)?)", || bx(parser!(lines((usize '-')? (usize) ('-' usize)?)))),
    ("rule r0: Val = {(v : ('(' r0* ')') => conv0(v)), (v : ('<' string(r1*) '>') => conv1(v))}; rule r1: Val = {(v : ('[' r0? ']') => conv2(v)), (v : lower => conv3(v))}; sections(line(r0+) lines(repeat_sep(r1, ' ')))", || bx(parser!(rule r0: Val = {(v : ('(' r0* ')') => conv0(v)), (v : ('<' string(r1*) '>') => conv1(v))}; rule r1: Val = {(v : ('[' r0? ']') => conv2(v)), (v : lower => conv3(v))}; sections(line(r0+) lines(repeat_sep(r1, ' ')))))),
];
