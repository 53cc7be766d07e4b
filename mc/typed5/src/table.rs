// Written by `mc gentyped`; see mc/base/src/typed.rs.
use mcbase::typed::prelude::*;
pub static TABLE: &[Row] = &[
    ("any_char*", || bx(parser!(any_char*))),
    ("any_char?", || bx(parser!(any_char?))),
    ("line(any_char)", || bx(parser!(line(any_char)))),
    ("section(any_char)", || bx(parser!(section(any_char)))),
    ("(v : any_char => conv0(v))", || bx(parser!((v : any_char => conv0(v))))),
    ("any_char**", || bx(parser!(any_char**))),
    ("any_char?*", || bx(parser!(any_char?*))),
    ("line(any_char)*", || bx(parser!(line(any_char)*))),
    ("section(any_char)*", || bx(parser!(section(any_char)*))),
    ("(v : any_char => conv0(v))*", || bx(parser!((v : any_char => conv0(v))*))),
    ("any_char*+", || bx(parser!(any_char*+))),
    ("any_char?+", || bx(parser!(any_char?+))),
    ("line(any_char)+", || bx(parser!(line(any_char)+))),
    ("section(any_char)+", || bx(parser!(section(any_char)+))),
    ("(v : any_char => conv0(v))+", || bx(parser!((v : any_char => conv0(v))+))),
    ("(any_char*)?", || bx(parser!((any_char*)?))),
    ("any_char??", || bx(parser!(any_char??))),
    ("line(any_char)?", || bx(parser!(line(any_char)?))),
    ("section(any_char)?", || bx(parser!(section(any_char)?))),
    ("(v : any_char => conv0(v))?", || bx(parser!((v : any_char => conv0(v))?))),
    ("string(any_char*)", || bx(parser!(string(any_char*)))),
    ("string(any_char?)", || bx(parser!(string(any_char?)))),
    ("string(line(any_char))", || bx(parser!(string(line(any_char))))),
    ("string(section(any_char))", || bx(parser!(string(section(any_char))))),
    ("string((v : any_char => conv0(v)))", || bx(parser!(string((v : any_char => conv0(v)))))),
    ("line(any_char*)", || bx(parser!(line(any_char*)))),
    ("line(any_char?)", || bx(parser!(line(any_char?)))),
    ("line(line(any_char))", || bx(parser!(line(line(any_char))))),
    ("line(section(any_char))", || bx(parser!(line(section(any_char))))),
    ("line((v : any_char => conv0(v)))", || bx(parser!(line((v : any_char => conv0(v)))))),
    ("lines(any_char*)", || bx(parser!(lines(any_char*)))),
    ("lines(any_char?)", || bx(parser!(lines(any_char?)))),
    ("lines(line(any_char))", || bx(parser!(lines(line(any_char))))),
    ("lines(section(any_char))", || bx(parser!(lines(section(any_char))))),
    ("lines((v : any_char => conv0(v)))", || bx(parser!(lines((v : any_char => conv0(v)))))),
    ("section(any_char*)", || bx(parser!(section(any_char*)))),
    ("section(any_char?)", || bx(parser!(section(any_char?)))),
    ("section(line(any_char))", || bx(parser!(section(line(any_char))))),
    ("section(section(any_char))", || bx(parser!(section(section(any_char))))),
    ("section((v : any_char => conv0(v)))", || bx(parser!(section((v : any_char => conv0(v)))))),
    ("sections(any_char*)", || bx(parser!(sections(any_char*)))),
    ("sections(any_char?)", || bx(parser!(sections(any_char?)))),
    ("sections(line(any_char))", || bx(parser!(sections(line(any_char))))),
    ("sections(section(any_char))", || bx(parser!(sections(section(any_char))))),
    ("sections((v : any_char => conv0(v)))", || bx(parser!(sections((v : any_char => conv0(v)))))),
    ("(v : any_char* => conv0(v))", || bx(parser!((v : any_char* => conv0(v))))),
    ("(v : any_char? => conv0(v))", || bx(parser!((v : any_char? => conv0(v))))),
    ("(v : line(any_char) => conv0(v))", || bx(parser!((v : line(any_char) => conv0(v))))),
    ("(v : section(any_char) => conv0(v))", || bx(parser!((v : section(any_char) => conv0(v))))),
    ("(v : (v : any_char => conv0(v)) => conv0(v))", || bx(parser!((v : (v : any_char => conv0(v)) => conv0(v))))),
    ("(any_char*)", || bx(parser!((any_char*)))),
    ("(any_char?)", || bx(parser!((any_char?)))),
    ("(line(any_char))", || bx(parser!((line(any_char))))),
    ("(section(any_char))", || bx(parser!((section(any_char))))),
    ("((v : any_char => conv0(v)))", || bx(parser!(((v : any_char => conv0(v)))))),
    ("'a' any_char", || bx(parser!('a' any_char))),
    ("any_char any_char", || bx(parser!(any_char any_char))),
    ("repeat_sep('a', 'a')", || bx(parser!(repeat_sep('a', 'a')))),
    ("repeat_sep(any_char, 'a')", || bx(parser!(repeat_sep(any_char, 'a')))),
    ("any_char?**", || bx(parser!(any_char?**))),
    ("any_char??*", || bx(parser!(any_char??*))),
    ("line(any_char?)*", || bx(parser!(line(any_char?)*))),
    ("(any_char any_char)*", || bx(parser!((any_char any_char)*))),
    ("repeat_sep(any_char, any_char)*", || bx(parser!(repeat_sep(any_char, any_char)*))),
    ("(line(any_char)*)?", || bx(parser!((line(any_char)*)?))),
    ("line(any_char)??", || bx(parser!(line(any_char)??))),
    ("line(line(any_char))?", || bx(parser!(line(line(any_char))?))),
    ("{any_char, any_char}?", || bx(parser!({any_char, any_char}?))),
    ("line(any_char**)", || bx(parser!(line(any_char**)))),
    ("line((any_char*)?)", || bx(parser!(line((any_char*)?)))),
    ("line(line(any_char*))", || bx(parser!(line(line(any_char*))))),
    ("line('a' any_char)", || bx(parser!(line('a' any_char)))),
    ("line(repeat_sep('a', any_char))", || bx(parser!(line(repeat_sep('a', any_char))))),
    ("'a' any_char?", || bx(parser!('a' any_char?))),
    ("any_char any_char?", || bx(parser!(any_char any_char?))),
    ("any_char* any_char", || bx(parser!(any_char* any_char))),
    ("line('a') any_char", || bx(parser!(line('a') any_char))),
    ("{line(any_char), any_char}", || bx(parser!({line(any_char), any_char}))),
    ("repeat_sep('a', line(any_char))", || bx(parser!(repeat_sep('a', line(any_char))))),
    ("repeat_sep(any_char, line(any_char))", || bx(parser!(repeat_sep(any_char, line(any_char))))),
    ("repeat_sep('a'?, any_char)", || bx(parser!(repeat_sep('a'?, any_char)))),
    ("repeat_sep(line(any_char), any_char)", || bx(parser!(repeat_sep(line(any_char), any_char)))),
    ("'a'* any_char?", || bx(parser!('a'* any_char?))),
    ("'a'* string(any_char)", || bx(parser!('a'* string(any_char)))),
    ("\"ab\"* any_char*", || bx(parser!("ab"* any_char*))),
    ("\"ab\"* (v : any_char => conv0(v))", || bx(parser!("ab"* (v : any_char => conv0(v))))),
    ("\"ab\"* lines(any_char)", || bx(parser!("ab"* lines(any_char)))),
    ("any_char* any_char?", || bx(parser!(any_char* any_char?))),
    ("any_char* string(any_char)", || bx(parser!(any_char* string(any_char)))),
    ("'a'? any_char*", || bx(parser!('a'? any_char*))),
    ("'a'? (v : any_char => conv0(v))", || bx(parser!('a'? (v : any_char => conv0(v))))),
    ("'a'? lines(any_char)", || bx(parser!('a'? lines(any_char)))),
    ("\"ab\"? any_char?", || bx(parser!("ab"? any_char?))),
    ("\"ab\"? string(any_char)", || bx(parser!("ab"? string(any_char)))),
    ("any_char? any_char*", || bx(parser!(any_char? any_char*))),
    ("any_char? (v : any_char => conv0(v))", || bx(parser!(any_char? (v : any_char => conv0(v))))),
    ("any_char? lines(any_char)", || bx(parser!(any_char? lines(any_char)))),
    ("(v : 'a' => conv0(v)) any_char?", || bx(parser!((v : 'a' => conv0(v)) any_char?))),
    ("(v : 'a' => conv0(v)) string(any_char)", || bx(parser!((v : 'a' => conv0(v)) string(any_char)))),
    ("(v : \"ab\" => conv0(v)) any_char*", || bx(parser!((v : "ab" => conv0(v)) any_char*))),
    ("(v : \"ab\" => conv0(v)) (v : any_char => conv0(v))", || bx(parser!((v : "ab" => conv0(v)) (v : any_char => conv0(v))))),
    ("(v : \"ab\" => conv0(v)) lines(any_char)", || bx(parser!((v : "ab" => conv0(v)) lines(any_char)))),
    ("(v : any_char => conv0(v)) any_char?", || bx(parser!((v : any_char => conv0(v)) any_char?))),
    ("(v : any_char => conv0(v)) string(any_char)", || bx(parser!((v : any_char => conv0(v)) string(any_char)))),
    ("string('a') any_char*", || bx(parser!(string('a') any_char*))),
    ("string('a') (v : any_char => conv0(v))", || bx(parser!(string('a') (v : any_char => conv0(v))))),
    ("string('a') lines(any_char)", || bx(parser!(string('a') lines(any_char)))),
    ("string(\"ab\") any_char?", || bx(parser!(string("ab") any_char?))),
    ("string(\"ab\") string(any_char)", || bx(parser!(string("ab") string(any_char)))),
    ("string(any_char) any_char*", || bx(parser!(string(any_char) any_char*))),
    ("string(any_char) (v : any_char => conv0(v))", || bx(parser!(string(any_char) (v : any_char => conv0(v))))),
    ("string(any_char) lines(any_char)", || bx(parser!(string(any_char) lines(any_char)))),
    ("lines('a') any_char?", || bx(parser!(lines('a') any_char?))),
    ("lines('a') string(any_char)", || bx(parser!(lines('a') string(any_char)))),
    ("lines(\"ab\") any_char*", || bx(parser!(lines("ab") any_char*))),
    ("lines(\"ab\") (v : any_char => conv0(v))", || bx(parser!(lines("ab") (v : any_char => conv0(v))))),
    ("lines(\"ab\") lines(any_char)", || bx(parser!(lines("ab") lines(any_char)))),
    ("lines(any_char) any_char?", || bx(parser!(lines(any_char) any_char?))),
    ("lines(any_char) string(any_char)", || bx(parser!(lines(any_char) string(any_char)))),
    ("{(v : line('a') => conv1(v)), (v : section(line('b')) => conv2(v))}*", || bx(parser!({(v : line('a') => conv1(v)), (v : section(line('b')) => conv2(v))}*))),
    ("any_char 'a' any_char 'b' any_char*", || bx(parser!(any_char 'a' any_char 'b' any_char*))),
    ("hash_set(('b' any_char)*)", || bx(parser!(hash_set(('b' any_char)*)))),
    ("sections(lines('a'*))", || bx(parser!(sections(lines('a'*))))),
    ("hash_set(('b' 'a'*)*)", || bx(parser!(hash_set(('b' 'a'*)*)))),
    ("sections(lines(any_char+))", || bx(parser!(sections(lines(any_char+))))),
    ("hash_set(('b' any_char+)*)", || bx(parser!(hash_set(('b' any_char+)*)))),
    ("sections(lines(string(any_char*)))", || bx(parser!(sections(lines(string(any_char*)))))),
    ("hash_set(('b' string(any_char*))*)", || bx(parser!(hash_set(('b' string(any_char*))*)))),
    ("sections(lines((v : any_char => conv0(v))))", || bx(parser!(sections(lines((v : any_char => conv0(v))))))),
    ("hash_set(('b' (v : any_char => conv0(v)))*)", || bx(parser!(hash_set(('b' (v : any_char => conv0(v)))*)))),
    ("section(line('a' any_char)) section(lines('a' any_char))", || bx(parser!(section(line('a' any_char)) section(lines('a' any_char))))),
    ("(('a' any_char)? 'b')?", || bx(parser!((('a' any_char)? 'b')?))),
    ("rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); string(r0)", || bx(parser!(rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); string(r0)))),
    ("rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; lines(r0)", || bx(parser!(rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; lines(r0)))),
    ("rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; r0 any_char*", || bx(parser!(rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; r0 any_char*))),
    ("rule r0: Val = (v : ('a' r0)? => conv0(v)); r0*", || bx(parser!(rule r0: Val = (v : ('a' r0)? => conv0(v)); r0*))),
    ("rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); r0", || bx(parser!(rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); r0))),
    ("rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); repeat_sep(r0, \"\\n\")", || bx(parser!(rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); repeat_sep(r0, "\n")))),
    ("rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); r0? 'b'", || bx(parser!(rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); r0? 'b'))),
    ("rule r0: Val = (v : any_char => conv0(v)); string(r0)", || bx(parser!(rule r0: Val = (v : any_char => conv0(v)); string(r0)))),
    ("rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; {r1, r0}", || bx(parser!(rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; {r1, r0}))),
    ("rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); lines(r1 r0)", || bx(parser!(rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); lines(r1 r0)))),
    ("lines(u8 '-' u8 ' ' lower \": \" string(alpha+))", || bx(parser!(lines(u8 '-' u8 ' ' lower ": " string(alpha+))))),
    ("sections(line(\"Player \" digit ':') lines(usize))", || bx(parser!(sections(line("Player " digit ':') lines(usize))))),
    ("rule r0: Val = {(v : digit => conv0(v)), (v : ('[' r0 ',' r0 ']') => conv1(v))}; lines(r0)", || bx(parser!(rule r0: Val = {(v : digit => conv0(v)), (v : ('[' r0 ',' r0 ']') => conv1(v))}; lines(r0)))),
    ("sections(line(\"Monkey \" usize ':') line(\"  Items: \" repeat_sep(usize, \", \")) line(\"  Op: old \" {(v : '*' => conv0(v)), (v : '+' => conv1(v))} ' ' {(v : usize => conv2(v)), (v : \"old\" => conv3(v))}) line(\"    True: \" usize))", || bx(parser!(sections(line("Monkey " usize ':') line("  Items: " repeat_sep(usize, ", ")) line("  Op: old " {(v : '*' => conv0(v)), (v : '+' => conv1(v))} ' ' {(v : usize => conv2(v)), (v : "old" => conv3(v))}) line("    True: " usize))))),
    ("lines(\"Card\" ' '+ usize ':' (' '+ usize)+ \" |\" (' '+ usize)+)", || bx(parser!(lines("Card" ' '+ usize ':' (' '+ usize)+ " |" (' '+ usize)+)))),
    ("sections(lines(string(any_char+)))", || bx(parser!(sections(lines(string(any_char+)))))),
    ("{(v : (\"mul(\" u8 ',' u8 ')') => conv0(v)), (v : \"do()\" => conv1(v)), (v : \"don't()\" => conv2(v)), (v : any_char => conv3(v))}*", || bx(parser!({(v : ("mul(" u8 ',' u8 ')') => conv0(v)), (v : "do()" => conv1(v)), (v : "don't()" => conv2(v)), (v : any_char => conv3(v))}*))),
    ("lines(string(any_char+) ' ' usize)", || bx(parser!(lines(string(any_char+) ' ' usize)))),
    ("lines(hash_set(char_of(\"abc.\\\"\")*))", || bx(parser!(lines(hash_set(char_of("abc.\"")*))))),
];
