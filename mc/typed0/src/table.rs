// Written by `mc gentyped`; see mc/base/src/typed.rs.
use mcbase::typed::prelude::*;
pub static TABLE: &[Row] = &[
    ("'a'", || bx(parser!('a'))),
    ("'a'+", || bx(parser!('a'+))),
    ("string('a')", || bx(parser!(string('a')))),
    ("lines('a')", || bx(parser!(lines('a')))),
    ("sections('a')", || bx(parser!(sections('a')))),
    ("('a')", || bx(parser!(('a')))),
    ("'a'+*", || bx(parser!('a'+*))),
    ("string('a')*", || bx(parser!(string('a')*))),
    ("lines('a')*", || bx(parser!(lines('a')*))),
    ("sections('a')*", || bx(parser!(sections('a')*))),
    ("('a')*", || bx(parser!(('a')*))),
    ("'a'++", || bx(parser!('a'++))),
    ("string('a')+", || bx(parser!(string('a')+))),
    ("lines('a')+", || bx(parser!(lines('a')+))),
    ("sections('a')+", || bx(parser!(sections('a')+))),
    ("('a')+", || bx(parser!(('a')+))),
    ("('a'+)?", || bx(parser!(('a'+)?))),
    ("string('a')?", || bx(parser!(string('a')?))),
    ("lines('a')?", || bx(parser!(lines('a')?))),
    ("sections('a')?", || bx(parser!(sections('a')?))),
    ("('a')?", || bx(parser!(('a')?))),
    ("string('a'+)", || bx(parser!(string('a'+)))),
    ("string(string('a'))", || bx(parser!(string(string('a'))))),
    ("string(lines('a'))", || bx(parser!(string(lines('a'))))),
    ("string(sections('a'))", || bx(parser!(string(sections('a'))))),
    ("string(('a'))", || bx(parser!(string(('a'))))),
    ("line('a'+)", || bx(parser!(line('a'+)))),
    ("line(string('a'))", || bx(parser!(line(string('a'))))),
    ("line(lines('a'))", || bx(parser!(line(lines('a'))))),
    ("line(sections('a'))", || bx(parser!(line(sections('a'))))),
    ("line(('a'))", || bx(parser!(line(('a'))))),
    ("lines('a'+)", || bx(parser!(lines('a'+)))),
    ("lines(string('a'))", || bx(parser!(lines(string('a'))))),
    ("lines(lines('a'))", || bx(parser!(lines(lines('a'))))),
    ("lines(sections('a'))", || bx(parser!(lines(sections('a'))))),
    ("lines(('a'))", || bx(parser!(lines(('a'))))),
    ("section('a'+)", || bx(parser!(section('a'+)))),
    ("section(string('a'))", || bx(parser!(section(string('a'))))),
    ("section(lines('a'))", || bx(parser!(section(lines('a'))))),
    ("section(sections('a'))", || bx(parser!(section(sections('a'))))),
    ("section(('a'))", || bx(parser!(section(('a'))))),
    ("sections('a'+)", || bx(parser!(sections('a'+)))),
    ("sections(string('a'))", || bx(parser!(sections(string('a'))))),
    ("sections(lines('a'))", || bx(parser!(sections(lines('a'))))),
    ("sections(sections('a'))", || bx(parser!(sections(sections('a'))))),
    ("sections(('a'))", || bx(parser!(sections(('a'))))),
    ("(v : 'a'+ => conv0(v))", || bx(parser!((v : 'a'+ => conv0(v))))),
    ("(v : string('a') => conv0(v))", || bx(parser!((v : string('a') => conv0(v))))),
    ("(v : lines('a') => conv0(v))", || bx(parser!((v : lines('a') => conv0(v))))),
    ("(v : sections('a') => conv0(v))", || bx(parser!((v : sections('a') => conv0(v))))),
    ("(v : ('a') => conv0(v))", || bx(parser!((v : ('a') => conv0(v))))),
    ("('a'+)", || bx(parser!(('a'+)))),
    ("(string('a'))", || bx(parser!((string('a'))))),
    ("(lines('a'))", || bx(parser!((lines('a'))))),
    ("(sections('a'))", || bx(parser!((sections('a'))))),
    ("(('a'))", || bx(parser!((('a'))))),
    ("\"ab\" 'a'", || bx(parser!("ab" 'a'))),
    ("{'a', 'a'}", || bx(parser!({'a', 'a'}))),
    ("repeat_sep('a', \"ab\")", || bx(parser!(repeat_sep('a', "ab")))),
    ("repeat_sep(any_char, \"ab\")", || bx(parser!(repeat_sep(any_char, "ab")))),
    ("line('a')**", || bx(parser!(line('a')**))),
    ("line('a')?*", || bx(parser!(line('a')?*))),
    ("line(line('a'))*", || bx(parser!(line(line('a'))*))),
    ("{'a', 'a'}*", || bx(parser!({'a', 'a'}*))),
    ("('a'**)?", || bx(parser!(('a'**)?))),
    ("('a'*)??", || bx(parser!(('a'*)??))),
    ("line('a'*)?", || bx(parser!(line('a'*)?))),
    ("('a' 'a')?", || bx(parser!(('a' 'a')?))),
    ("repeat_sep('a', 'a')?", || bx(parser!(repeat_sep('a', 'a')?))),
    ("line('a'?*)", || bx(parser!(line('a'?*)))),
    ("line('a'??)", || bx(parser!(line('a'??)))),
    ("line(line('a'?))", || bx(parser!(line(line('a'?))))),
    ("line(any_char 'a')", || bx(parser!(line(any_char 'a')))),
    ("line(repeat_sep(any_char, 'a'))", || bx(parser!(line(repeat_sep(any_char, 'a'))))),
    ("'a' line('a')", || bx(parser!('a' line('a')))),
    ("any_char line('a')", || bx(parser!(any_char line('a')))),
    ("'a'? 'a'", || bx(parser!('a'? 'a'))),
    ("line(any_char) 'a'", || bx(parser!(line(any_char) 'a'))),
    ("repeat_sep('a', 'a'*)", || bx(parser!(repeat_sep('a', 'a'*)))),
    ("repeat_sep(any_char, 'a'*)", || bx(parser!(repeat_sep(any_char, 'a'*)))),
    ("repeat_sep('a'*, 'a')", || bx(parser!(repeat_sep('a'*, 'a')))),
    ("repeat_sep(any_char?, 'a')", || bx(parser!(repeat_sep(any_char?, 'a')))),
    ("'a'* 'a'*", || bx(parser!('a'* 'a'*))),
    ("'a'* (v : 'a' => conv0(v))", || bx(parser!('a'* (v : 'a' => conv0(v))))),
    ("'a'* lines('a')", || bx(parser!('a'* lines('a')))),
    ("\"ab\"* 'a'?", || bx(parser!("ab"* 'a'?))),
    ("\"ab\"* string('a')", || bx(parser!("ab"* string('a')))),
    ("any_char* 'a'*", || bx(parser!(any_char* 'a'*))),
    ("any_char* (v : 'a' => conv0(v))", || bx(parser!(any_char* (v : 'a' => conv0(v))))),
    ("any_char* lines('a')", || bx(parser!(any_char* lines('a')))),
    ("'a'? 'a'?", || bx(parser!('a'? 'a'?))),
    ("'a'? string('a')", || bx(parser!('a'? string('a')))),
    ("\"ab\"? 'a'*", || bx(parser!("ab"? 'a'*))),
    ("\"ab\"? (v : 'a' => conv0(v))", || bx(parser!("ab"? (v : 'a' => conv0(v))))),
    ("\"ab\"? lines('a')", || bx(parser!("ab"? lines('a')))),
    ("any_char? 'a'?", || bx(parser!(any_char? 'a'?))),
    ("any_char? string('a')", || bx(parser!(any_char? string('a')))),
    ("(v : 'a' => conv0(v)) 'a'*", || bx(parser!((v : 'a' => conv0(v)) 'a'*))),
    ("(v : 'a' => conv0(v)) (v : 'a' => conv0(v))", || bx(parser!((v : 'a' => conv0(v)) (v : 'a' => conv0(v))))),
    ("(v : 'a' => conv0(v)) lines('a')", || bx(parser!((v : 'a' => conv0(v)) lines('a')))),
    ("(v : \"ab\" => conv0(v)) 'a'?", || bx(parser!((v : "ab" => conv0(v)) 'a'?))),
    ("(v : \"ab\" => conv0(v)) string('a')", || bx(parser!((v : "ab" => conv0(v)) string('a')))),
    ("(v : any_char => conv0(v)) 'a'*", || bx(parser!((v : any_char => conv0(v)) 'a'*))),
    ("(v : any_char => conv0(v)) (v : 'a' => conv0(v))", || bx(parser!((v : any_char => conv0(v)) (v : 'a' => conv0(v))))),
    ("(v : any_char => conv0(v)) lines('a')", || bx(parser!((v : any_char => conv0(v)) lines('a')))),
    ("string('a') 'a'?", || bx(parser!(string('a') 'a'?))),
    ("string('a') string('a')", || bx(parser!(string('a') string('a')))),
    ("string(\"ab\") 'a'*", || bx(parser!(string("ab") 'a'*))),
    ("string(\"ab\") (v : 'a' => conv0(v))", || bx(parser!(string("ab") (v : 'a' => conv0(v))))),
    ("string(\"ab\") lines('a')", || bx(parser!(string("ab") lines('a')))),
    ("string(any_char) 'a'?", || bx(parser!(string(any_char) 'a'?))),
    ("string(any_char) string('a')", || bx(parser!(string(any_char) string('a')))),
    ("lines('a') 'a'*", || bx(parser!(lines('a') 'a'*))),
    ("lines('a') (v : 'a' => conv0(v))", || bx(parser!(lines('a') (v : 'a' => conv0(v))))),
    ("lines('a') lines('a')", || bx(parser!(lines('a') lines('a')))),
    ("lines(\"ab\") 'a'?", || bx(parser!(lines("ab") 'a'?))),
    ("lines(\"ab\") string('a')", || bx(parser!(lines("ab") string('a')))),
    ("lines(any_char) 'a'*", || bx(parser!(lines(any_char) 'a'*))),
    ("lines(any_char) (v : 'a' => conv0(v))", || bx(parser!(lines(any_char) (v : 'a' => conv0(v))))),
    ("lines(any_char) lines('a')", || bx(parser!(lines(any_char) lines('a')))),
    ("btree_set('a'*)", || bx(parser!(btree_set('a'*)))),
    ("{(v : 'a' => conv0(v)), (v : \"ab\" => conv1(v)), (v : (any_char 'a') => conv2(v))}", || bx(parser!({(v : 'a' => conv0(v)), (v : "ab" => conv1(v)), (v : (any_char 'a') => conv2(v))}))),
    ("vec_deque((any_char 'b')*)", || bx(parser!(vec_deque((any_char 'b')*)))),
    ("section(lines('a'*))", || bx(parser!(section(lines('a'*))))),
    ("vec_deque(('a'* 'b')*)", || bx(parser!(vec_deque(('a'* 'b')*)))),
    ("section(lines(any_char+))", || bx(parser!(section(lines(any_char+))))),
    ("vec_deque((any_char+ 'b')*)", || bx(parser!(vec_deque((any_char+ 'b')*)))),
    ("section(lines(string(any_char*)))", || bx(parser!(section(lines(string(any_char*)))))),
    ("vec_deque((string(any_char*) 'b')*)", || bx(parser!(vec_deque((string(any_char*) 'b')*)))),
    ("section(lines((v : any_char => conv0(v))))", || bx(parser!(section(lines((v : any_char => conv0(v))))))),
    ("vec_deque(((v : any_char => conv0(v)) 'b')*)", || bx(parser!(vec_deque(((v : any_char => conv0(v)) 'b')*)))),
    ("sections(line('b') lines('a' any_char))", || bx(parser!(sections(line('b') lines('a' any_char))))),
    ("'a' ('a' any_char) 'b'? any_char", || bx(parser!('a' ('a' any_char) 'b'? any_char))),
    ("rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); r0? 'b'", || bx(parser!(rule r0: Val = (v : {'a' (r0 'b'), 'a' (v : 'b' => conv1(v))} => conv0(v)); r0? 'b'))),
    ("rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; string(r0)", || bx(parser!(rule r0: Val = {(v : ('a' r0) => conv0(v)), (v : () => conv1(v))}; string(r0)))),
    ("rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; lines(r0)", || bx(parser!(rule r0: Val = {(v : (any_char r0) => conv0(v)), (v : 'b' => conv1(v))}; lines(r0)))),
    ("rule r0: Val = (v : ('a' r0)? => conv0(v)); r0 any_char*", || bx(parser!(rule r0: Val = (v : ('a' r0)? => conv0(v)); r0 any_char*))),
    ("rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); r0*", || bx(parser!(rule r0: Val = (v : ('a' (r0 'b'))* => conv0(v)); r0*))),
    ("rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); r0", || bx(parser!(rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); r0))),
    ("rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); repeat_sep(r0, \"\\n\")", || bx(parser!(rule r0: Val = (v : line({(v : ('a' r0) => conv1(v)), (v : any_char => conv2(v))}) => conv0(v)); repeat_sep(r0, "\n")))),
    ("rule r0: Val = (v : any_char => conv0(v)); r0? 'b'", || bx(parser!(rule r0: Val = (v : any_char => conv0(v)); r0? 'b'))),
    ("rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; lines(r1 r0)", || bx(parser!(rule r0: Val = {(v : ('a' r1) => conv0(v)), (v : () => conv1(v))}; rule r1: Val = {(v : ('b' r0) => conv2(v)), (v : () => conv3(v))}; lines(r1 r0)))),
    ("lines(usize 'x' usize 'x' usize)", || bx(parser!(lines(usize 'x' usize 'x' usize)))),
    ("sections(repeat_sep(string(alpha+) ':' string({(v : alnum => conv0(v)), (v : '#' => conv1(v))}+), {' ', '\\n'}))", || bx(parser!(sections(repeat_sep(string(alpha+) ':' string({(v : alnum => conv0(v)), (v : '#' => conv1(v))}+), {' ', '\n'}))))),
    ("\"Player 1:\\n\" lines(usize) '\\n' \"Player 2:\\n\" lines(usize)", || bx(parser!("Player 1:\n" lines(usize) '\n' "Player 2:\n" lines(usize)))),
    ("lines({(v : \"on\" => conv0(v)), (v : \"off\" => conv1(v))} \" x=\" (i32 \"..\" i32) \",y=\" (i32 \"..\" i32) \",z=\" (i32 \"..\" i32))", || bx(parser!(lines({(v : "on" => conv0(v)), (v : "off" => conv1(v))} " x=" (i32 ".." i32) ",y=" (i32 ".." i32) ",z=" (i32 ".." i32))))),
    ("rule r0: Val = {(v : usize => conv0(v)), (v : ('[' repeat_sep(r0, ',') ']') => conv1(v))}; sections(line(r0) line(r0))", || bx(parser!(rule r0: Val = {(v : usize => conv0(v)), (v : ('[' repeat_sep(r0, ',') ']') => conv1(v))}; sections(line(r0) line(r0))))),
    ("section(line(\"seeds: \" repeat_sep(usize, ' '))) sections(line(string(lower+) \"-to-\" string(lower+) \" map:\") lines(usize ' ' usize ' ' usize))", || bx(parser!(section(line("seeds: " repeat_sep(usize, ' '))) sections(line(string(lower+) "-to-" string(lower+) " map:") lines(usize ' ' usize ' ' usize))))),
    ("sections(lines({(v : '.' => conv0(v)), (v : '#' => conv1(v))}+))", || bx(parser!(sections(lines({(v : '.' => conv0(v)), (v : '#' => conv1(v))}+))))),
    ("section(lines(u8 '|' u8)) section(lines(repeat_sep(u8, ',')))", || bx(parser!(section(lines(u8 '|' u8)) section(lines(repeat_sep(u8, ',')))))),
    ("lines(string(any_char*) '=' string(any_char*))", || bx(parser!(lines(string(any_char*) '=' string(any_char*))))),
    ("lines(btree_set(repeat_sep(usize, ' ')))", || bx(parser!(lines(btree_set(repeat_sep(usize, ' ')))))),
];
