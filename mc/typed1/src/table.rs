// Written by `mc gentyped`; see mc/base/src/typed.rs.
use mcbase::typed::prelude::*;
pub static TABLE: &[Row] = &[
    ("\"ab\"", || bx(parser!("ab"))),
    ("\"ab\"+", || bx(parser!("ab"+))),
    ("string(\"ab\")", || bx(parser!(string("ab")))),
    ("lines(\"ab\")", || bx(parser!(lines("ab")))),
    ("sections(\"ab\")", || bx(parser!(sections("ab")))),
    ("(\"ab\")", || bx(parser!(("ab")))),
    ("\"ab\"+*", || bx(parser!("ab"+*))),
    ("string(\"ab\")*", || bx(parser!(string("ab")*))),
    ("lines(\"ab\")*", || bx(parser!(lines("ab")*))),
    ("sections(\"ab\")*", || bx(parser!(sections("ab")*))),
    ("(\"ab\")*", || bx(parser!(("ab")*))),
    ("\"ab\"++", || bx(parser!("ab"++))),
    ("string(\"ab\")+", || bx(parser!(string("ab")+))),
    ("lines(\"ab\")+", || bx(parser!(lines("ab")+))),
    ("sections(\"ab\")+", || bx(parser!(sections("ab")+))),
    ("(\"ab\")+", || bx(parser!(("ab")+))),
    ("(\"ab\"+)?", || bx(parser!(("ab"+)?))),
    ("string(\"ab\")?", || bx(parser!(string("ab")?))),
    ("lines(\"ab\")?", || bx(parser!(lines("ab")?))),
    ("sections(\"ab\")?", || bx(parser!(sections("ab")?))),
    ("(\"ab\")?", || bx(parser!(("ab")?))),
    ("string(\"ab\"+)", || bx(parser!(string("ab"+)))),
    ("string(string(\"ab\"))", || bx(parser!(string(string("ab"))))),
    ("string(lines(\"ab\"))", || bx(parser!(string(lines("ab"))))),
    ("string(sections(\"ab\"))", || bx(parser!(string(sections("ab"))))),
    ("string((\"ab\"))", || bx(parser!(string(("ab"))))),
    ("line(\"ab\"+)", || bx(parser!(line("ab"+)))),
    ("line(string(\"ab\"))", || bx(parser!(line(string("ab"))))),
    ("line(lines(\"ab\"))", || bx(parser!(line(lines("ab"))))),
    ("line(sections(\"ab\"))", || bx(parser!(line(sections("ab"))))),
    ("line((\"ab\"))", || bx(parser!(line(("ab"))))),
    ("lines(\"ab\"+)", || bx(parser!(lines("ab"+)))),
    ("lines(string(\"ab\"))", || bx(parser!(lines(string("ab"))))),
    ("lines(lines(\"ab\"))", || bx(parser!(lines(lines("ab"))))),
    ("lines(sections(\"ab\"))", || bx(parser!(lines(sections("ab"))))),
    ("lines((\"ab\"))", || bx(parser!(lines(("ab"))))),
    ("section(\"ab\"+)", || bx(parser!(section("ab"+)))),
    ("section(string(\"ab\"))", || bx(parser!(section(string("ab"))))),
    ("section(lines(\"ab\"))", || bx(parser!(section(lines("ab"))))),
    ("section(sections(\"ab\"))", || bx(parser!(section(sections("ab"))))),
    ("section((\"ab\"))", || bx(parser!(section(("ab"))))),
    ("sections(\"ab\"+)", || bx(parser!(sections("ab"+)))),
    ("sections(string(\"ab\"))", || bx(parser!(sections(string("ab"))))),
    ("sections(lines(\"ab\"))", || bx(parser!(sections(lines("ab"))))),
    ("sections(sections(\"ab\"))", || bx(parser!(sections(sections("ab"))))),
    ("sections((\"ab\"))", || bx(parser!(sections(("ab"))))),
    ("(v : \"ab\"+ => conv0(v))", || bx(parser!((v : "ab"+ => conv0(v))))),
    ("(v : string(\"ab\") => conv0(v))", || bx(parser!((v : string("ab") => conv0(v))))),
    ("(v : lines(\"ab\") => conv0(v))", || bx(parser!((v : lines("ab") => conv0(v))))),
    ("(v : sections(\"ab\") => conv0(v))", || bx(parser!((v : sections("ab") => conv0(v))))),
    ("(v : (\"ab\") => conv0(v))", || bx(parser!((v : ("ab") => conv0(v))))),
    ("(\"ab\"+)", || bx(parser!(("ab"+)))),
    ("(string(\"ab\"))", || bx(parser!((string("ab"))))),
    ("(lines(\"ab\"))", || bx(parser!((lines("ab"))))),
    ("(sections(\"ab\"))", || bx(parser!((sections("ab"))))),
    ("((\"ab\"))", || bx(parser!((("ab"))))),
    ("\"ab\" \"ab\"", || bx(parser!("ab" "ab"))),
    ("{'a', \"ab\"}", || bx(parser!({'a', "ab"}))),
    ("repeat_sep('a', any_char)", || bx(parser!(repeat_sep('a', any_char)))),
    ("repeat_sep(any_char, any_char)", || bx(parser!(repeat_sep(any_char, any_char)))),
    ("line(any_char)**", || bx(parser!(line(any_char)**))),
    ("line(any_char)?*", || bx(parser!(line(any_char)?*))),
    ("line(line(any_char))*", || bx(parser!(line(line(any_char))*))),
    ("{any_char, any_char}*", || bx(parser!({any_char, any_char}*))),
    ("(any_char**)?", || bx(parser!((any_char**)?))),
    ("(any_char*)??", || bx(parser!((any_char*)??))),
    ("line(any_char*)?", || bx(parser!(line(any_char*)?))),
    ("('a' any_char)?", || bx(parser!(('a' any_char)?))),
    ("repeat_sep('a', any_char)?", || bx(parser!(repeat_sep('a', any_char)?))),
    ("line(any_char?*)", || bx(parser!(line(any_char?*)))),
    ("line(any_char??)", || bx(parser!(line(any_char??)))),
    ("line(line(any_char?))", || bx(parser!(line(line(any_char?))))),
    ("line(any_char any_char)", || bx(parser!(line(any_char any_char)))),
    ("line(repeat_sep(any_char, any_char))", || bx(parser!(line(repeat_sep(any_char, any_char))))),
    ("'a' line(any_char)", || bx(parser!('a' line(any_char)))),
    ("any_char line(any_char)", || bx(parser!(any_char line(any_char)))),
    ("'a'? any_char", || bx(parser!('a'? any_char))),
    ("line(any_char) any_char", || bx(parser!(line(any_char) any_char))),
    ("repeat_sep('a', any_char*)", || bx(parser!(repeat_sep('a', any_char*)))),
    ("repeat_sep(any_char, any_char*)", || bx(parser!(repeat_sep(any_char, any_char*)))),
    ("repeat_sep('a'*, any_char)", || bx(parser!(repeat_sep('a'*, any_char)))),
    ("repeat_sep(any_char?, any_char)", || bx(parser!(repeat_sep(any_char?, any_char)))),
    ("'a'* \"ab\"*", || bx(parser!('a'* "ab"*))),
    ("'a'* (v : \"ab\" => conv0(v))", || bx(parser!('a'* (v : "ab" => conv0(v))))),
    ("'a'* lines(\"ab\")", || bx(parser!('a'* lines("ab")))),
    ("\"ab\"* \"ab\"?", || bx(parser!("ab"* "ab"?))),
    ("\"ab\"* string(\"ab\")", || bx(parser!("ab"* string("ab")))),
    ("any_char* \"ab\"*", || bx(parser!(any_char* "ab"*))),
    ("any_char* (v : \"ab\" => conv0(v))", || bx(parser!(any_char* (v : "ab" => conv0(v))))),
    ("any_char* lines(\"ab\")", || bx(parser!(any_char* lines("ab")))),
    ("'a'? \"ab\"?", || bx(parser!('a'? "ab"?))),
    ("'a'? string(\"ab\")", || bx(parser!('a'? string("ab")))),
    ("\"ab\"? \"ab\"*", || bx(parser!("ab"? "ab"*))),
    ("\"ab\"? (v : \"ab\" => conv0(v))", || bx(parser!("ab"? (v : "ab" => conv0(v))))),
    ("\"ab\"? lines(\"ab\")", || bx(parser!("ab"? lines("ab")))),
    ("any_char? \"ab\"?", || bx(parser!(any_char? "ab"?))),
    ("any_char? string(\"ab\")", || bx(parser!(any_char? string("ab")))),
    ("(v : 'a' => conv0(v)) \"ab\"*", || bx(parser!((v : 'a' => conv0(v)) "ab"*))),
    ("(v : 'a' => conv0(v)) (v : \"ab\" => conv0(v))", || bx(parser!((v : 'a' => conv0(v)) (v : "ab" => conv0(v))))),
    ("(v : 'a' => conv0(v)) lines(\"ab\")", || bx(parser!((v : 'a' => conv0(v)) lines("ab")))),
    ("(v : \"ab\" => conv0(v)) \"ab\"?", || bx(parser!((v : "ab" => conv0(v)) "ab"?))),
    ("(v : \"ab\" => conv0(v)) string(\"ab\")", || bx(parser!((v : "ab" => conv0(v)) string("ab")))),
    ("(v : any_char => conv0(v)) \"ab\"*", || bx(parser!((v : any_char => conv0(v)) "ab"*))),
    ("(v : any_char => conv0(v)) (v : \"ab\" => conv0(v))", || bx(parser!((v : any_char => conv0(v)) (v : "ab" => conv0(v))))),
    ("(v : any_char => conv0(v)) lines(\"ab\")", || bx(parser!((v : any_char => conv0(v)) lines("ab")))),
    ("string('a') \"ab\"?", || bx(parser!(string('a') "ab"?))),
    ("string('a') string(\"ab\")", || bx(parser!(string('a') string("ab")))),
    ("string(\"ab\") \"ab\"*", || bx(parser!(string("ab") "ab"*))),
    ("string(\"ab\") (v : \"ab\" => conv0(v))", || bx(parser!(string("ab") (v : "ab" => conv0(v))))),
    ("string(\"ab\") lines(\"ab\")", || bx(parser!(string("ab") lines("ab")))),
    ("string(any_char) \"ab\"?", || bx(parser!(string(any_char) "ab"?))),
    ("string(any_char) string(\"ab\")", || bx(parser!(string(any_char) string("ab")))),
    ("lines('a') \"ab\"*", || bx(parser!(lines('a') "ab"*))),
    ("lines('a') (v : \"ab\" => conv0(v))", || bx(parser!(lines('a') (v : "ab" => conv0(v))))),
    ("lines('a') lines(\"ab\")", || bx(parser!(lines('a') lines("ab")))),
    ("lines(\"ab\") \"ab\"?", || bx(parser!(lines("ab") "ab"?))),
    ("lines(\"ab\") string(\"ab\")", || bx(parser!(lines("ab") string("ab")))),
    ("lines(any_char) \"ab\"*", || bx(parser!(lines(any_char) "ab"*))),
    ("lines(any_char) (v : \"ab\" => conv0(v))", || bx(parser!(lines(any_char) (v : "ab" => conv0(v))))),
    ("lines(any_char) lines(\"ab\")", || bx(parser!(lines(any_char) lines("ab")))),
    ("hash_set(('b' 'a')*)", || bx(parser!(hash_set(('b' 'a')*)))),
    ("section(line(any_char)) section(lines(any_char))", || bx(parser!(section(line(any_char)) section(lines(any_char))))),
    ("(any_char? 'b')?", || bx(parser!((any_char? 'b')?))),
    ("section(line('a'*)) section(lines('a'*))", || bx(parser!(section(line('a'*)) section(lines('a'*))))),
    ("(('a'*)? 'b')?", || bx(parser!((('a'*)? 'b')?))),
    ("section(line(any_char+)) section(lines(any_char+))", || bx(parser!(section(line(any_char+)) section(lines(any_char+))))),
    ("((any_char+)? 'b')?", || bx(parser!(((any_char+)? 'b')?))),
    ("section(line(string(any_char*))) section(lines(string(any_char*)))", || bx(parser!(section(line(string(any_char*))) section(lines(string(any_char*)))))),
    ("(string(any_char*)? 'b')?", || bx(parser!((string(any_char*)? 'b')?))),
    ("section(line((v : any_char => conv0(v)))) section(lines((v : any_char => conv0(v))))", || bx(parser!(section(line((v : any_char => conv0(v)))) section(lines((v : any_char => conv0(v))))))),
    ("((v : any_char => conv0(v))? 'b')?", || bx(parser!(((v : any_char => conv0(v))? 'b')?))),
    ("{(v : line('a' any_char) => conv1(v)), (v : section(line('b')) => conv2(v))}*", || bx(parser!({(v : line('a' any_char) => conv1(v)), (v : section(line('b')) => conv2(v))}*))),
    ("rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); r0", || bx(parser!(rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); r0))),
    ("rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); repeat_sep(r0, \"\\n\")", || bx(parser!(rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); repeat_sep(r0, "\n")))),
    ("rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; r0? 'b'", || bx(parser!(rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; r0? 'b'))),
    ("rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; string(r0)", || bx(parser!(rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; string(r0)))),
    ("rule r0: Val = (v : ('a' r0)? => conv0(v)); lines(r0)", || bx(parser!(rule r0: Val = (v : ('a' r0)? => conv0(v)); lines(r0)))),
    ("rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); r0 any_char*", || bx(parser!(rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); r0 any_char*))),
    ("rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); r0*", || bx(parser!(rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); r0*))),
    ("rule r0: Val = (v : any_char => conv0(v)); r0", || bx(parser!(rule r0: Val = (v : any_char => conv0(v)); r0))),
    ("rule r0: Val = (v : any_char => conv0(v)); repeat_sep(r0, \"\\n\")", || bx(parser!(rule r0: Val = (v : any_char => conv0(v)); repeat_sep(r0, "\n")))),
    ("rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); r0", || bx(parser!(rule r0: Val = (v : (any_char r1?) => conv0(v)); rule r1: Val = (v : ('b' r0?) => conv1(v)); r0))),
    ("lines({(v : \"turn on \" => conv0(v)), (v : \"turn off \" => conv1(v)), (v : \"toggle \" => conv2(v))} usize ',' usize \" through \" usize ',' usize)", || bx(parser!(lines({(v : "turn on " => conv0(v)), (v : "turn off " => conv1(v)), (v : "toggle " => conv2(v))} usize ',' usize " through " usize ',' usize)))),
    ("sections(lines(repeat_sep(string(alpha+) ':' string({(v : alnum => conv0(v)), (v : '#' => conv1(v))}+), ' ')))", || bx(parser!(sections(lines(repeat_sep(string(alpha+) ':' string({(v : alnum => conv0(v)), (v : '#' => conv1(v))}+), ' ')))))),
    ("line(repeat_sep(u8, ',')) '\\n' sections(lines(repeat_sep(' '? u8, ' ')))", || bx(parser!(line(repeat_sep(u8, ',')) '\n' sections(lines(repeat_sep(' '? u8, ' ')))))),
    ("sections(lines(usize))", || bx(parser!(sections(lines(usize))))),
    ("lines(\"Valve \" string(upper upper) \" rate=\" usize {(v : (\"; tunnels to \" repeat_sep(string(upper upper), \", \")) => conv0(v)), (v : (\"; tunnel to \" string(upper upper)) => conv1(v))})", || bx(parser!(lines("Valve " string(upper upper) " rate=" usize {(v : ("; tunnels to " repeat_sep(string(upper upper), ", ")) => conv0(v)), (v : ("; tunnel to " string(upper upper)) => conv1(v))})))),
    ("section(line({(v : 'L' => conv0(v)), (v : 'R' => conv1(v))}+)) section(lines(string(alnum alnum) \" = (\" string(alnum alnum) \", \" string(alnum alnum) ')'))", || bx(parser!(section(line({(v : 'L' => conv0(v)), (v : 'R' => conv1(v))}+)) section(lines(string(alnum alnum) " = (" string(alnum alnum) ", " string(alnum alnum) ')'))))),
    ("line(repeat_sep(string(lower+) {(v : '-' => conv0(v)), (v : ('=' digit) => conv1(v))}, ','))", || bx(parser!(line(repeat_sep(string(lower+) {(v : '-' => conv0(v)), (v : ('=' digit) => conv1(v))}, ','))))),
    ("\"A: \" usize \"\\nB: \" usize \"\\n\\nProgram: \" repeat_sep(digit, ',') '\\n'?", || bx(parser!("A: " usize "\nB: " usize "\n\nProgram: " repeat_sep(digit, ',') '\n'?))),
    ("any_char+ ':' any_char* ';'", || bx(parser!(any_char+ ':' any_char* ';'))),
    ("sections(vec_deque(line(string(lower+) ('=' i32)?)*))", || bx(parser!(sections(vec_deque(line(string(lower+) ('=' i32)?)*))))),
];
