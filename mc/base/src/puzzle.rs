//! Patterns of the size and kind people write, each with texts it is for.
use crate::gram::{p, Cls, Coll, Num, G, P};
use G::*;

fn l(s: &'static str) -> P {
    p(Lit(s))
}
fn c(x: char) -> P {
    p(Ch(x))
}
fn s<const N: usize>(xs: [P; N]) -> P {
    let v = xs.to_vec();
    p(match v.len() {
        1 => return v[0].clone(),
        2 => Seq(v[0].clone(), v[1].clone()),
        3 => Seq3(v[0].clone(), v[1].clone(), v[2].clone()),
        _ => SeqN(v),
    })
}
fn alt<const N: usize>(xs: [P; N]) -> P {
    let v = xs.to_vec();
    p(match v.len() {
        2 => Alt(v[0].clone(), v[1].clone()),
        3 => Alt3(v[0].clone(), v[1].clone(), v[2].clone()),
        _ => AltN(v),
    })
}
fn star(x: P) -> P {
    p(Star(x))
}
fn plus(x: P) -> P {
    p(Plus(x))
}
fn opt(x: P) -> P {
    p(Opt(x))
}
fn sep(x: P, y: P) -> P {
    p(RepSep(x, y))
}
fn st(x: P) -> P {
    p(Str(x))
}
fn line(x: P) -> P {
    p(Line(x))
}
fn lines(x: P) -> P {
    p(Lines(x))
}
fn section(x: P) -> P {
    p(Section(x))
}
fn sections(x: P) -> P {
    p(Sections(x))
}
fn m(n: u8, x: P) -> P {
    p(Map(n, x))
}
fn of(x: &'static str) -> P {
    p(CharOf(x))
}
fn r(i: u8) -> P {
    p(Rule(0, i))
}
fn rules<const N: usize>(rs: [P; N], e: P) -> P {
    p(Rules(rs.to_vec(), e))
}

pub struct Puzzle {
    pub p: P,
    pub texts: &'static [&'static str],
    /// characters put in by edits, with newline, space, `1`, `a` and `é`
    pub extra: &'static str,
}

pub fn puzzles() -> Vec<Puzzle> {
    let n = || p(Num(Num::Usize));
    let i = || p(Num(Num::I32));
    let u8_ = || p(Num(Num::U8));
    let alpha = || p(Cls(Cls::Alpha));
    let alnum = || p(Cls(Cls::Alnum));
    let lower = || p(Cls(Cls::Lower));
    let upper = || p(Cls(Cls::Upper));
    let any = || p(Cls(Cls::Any));
    let digit = || p(Cls(Cls::Digit));
    let word = || st(plus(lower()));
    let name = || st(plus(upper()));
    let mut v: Vec<(P, &'static [&'static str], &'static str)> = vec![];

    // boxes
    v.push((lines(s([n(), c('x'), n(), c('x'), n()])), &["2x3x4\n10x1x007\n", "1x1x10"], "x-"));
    // lights
    v.push((
        lines(s([
            alt([m(0, l("turn on ")), m(1, l("turn off ")), m(2, l("toggle "))]),
            n(),
            c(','),
            n(),
            l(" through "),
            n(),
            c(','),
            n(),
        ])),
        &["turn on 0,0 through 9,9\ntoggle 1,2 through 3,4\n", "turn off 4,4 through 5,50\n"],
        ",t",
    ));
    // circuits
    let src = || alt([m(0, n()), m(1, word())]);
    v.push((
        lines(s([
            alt([
                m(2, s([src(), l(" AND "), src()])),
                m(3, s([l("NOT "), src()])),
                m(4, s([src(), l(" LSHIFT "), u8_()])),
                m(5, src()),
            ]),
            l(" -> "),
            word(),
        ])),
        &["123 -> x\nx AND y -> d\nNOT e -> f\n", "p LSHIFT 255 -> q\n1 AND cx -> cy\n"],
        "->",
    ));
    // distances
    v.push((lines(s([st(plus(alpha())), l(" to "), st(plus(alpha())), l(" = "), n()])), &["London to Dublin = 464\nA to B = 0\n", "ab to to = 1"], "=o"));
    // json, three rules
    v.push((
        rules(
            [
                alt([
                    m(0, i()),
                    m(1, s([c('"'), st(star(lower())), c('"')])),
                    m(2, s([c('['), sep(r(0), c(',')), c(']')])),
                    m(3, s([c('{'), sep(r(1), c(',')), c('}')])),
                ]),
                m(4, s([c('"'), st(star(lower())), l("\":"), r(0)])),
            ],
            r(0),
        ),
        &["[1,{\"a\":-2,\"b\":[[],{}]},\"\"]", "{\"x\":\"y\",\"zz\":{\"w\":[0]}}", "-12"],
        "\"[]{},:-",
    ));
    // passwords
    v.push((lines(s([u8_(), c('-'), u8_(), c(' '), lower(), l(": "), st(plus(alpha()))])), &["1-3 a: abcde\n2-9 c: ccc\n", "0-255 z: Z"], ":-"));
    // passports
    v.push((
        sections(sep(s([st(plus(alpha())), c(':'), st(plus(alt([m(0, alnum()), m(1, c('#'))])))]), alt([c(' '), c('\n')]))),
        &["hcl:#ae1 eyr:1\npid:7\n\niyr:2\n", "a:b\n"],
        ":#",
    ));
    v.push((
        sections(lines(sep(s([st(plus(alpha())), c(':'), st(plus(alt([m(0, alnum()), m(1, c('#'))])))]), c(' ')))),
        &["hcl:#ae1 eyr:1\npid:7\n\niyr:2\n", "a:b x:y\n\n"],
        ":#",
    ));
    // bags
    let bag = || s([word(), c(' '), word(), l(" bag"), opt(c('s'))]);
    v.push((
        lines(s([bag(), l(" contain "), alt([m(0, l("no other bags")), m(1, sep(s([digit(), c(' '), bag()]), l(", ")))]), c('.')])),
        &["light red bags contain 1 bright white bag, 2 muted blue bags.\n", "b c bags contain no other bags.\n"],
        ".,s",
    ));
    // tickets
    v.push((
        s([
            section(lines(s([st(plus(alt([m(0, lower()), m(1, c(' '))]))), l(": "), n(), c('-'), n(), l(" or "), sep(s([n(), c('-'), n()]), l(" or "))]))),
            section(s([line(l("your ticket:")), line(sep(n(), c(',')))])),
            section(s([line(l("nearby tickets:")), lines(sep(n(), c(',')))])),
        ]),
        &["a row: 1-3 or 5-7\n\nyour ticket:\n7,1\n\nnearby tickets:\n7,3\n40,4\n"],
        ":,-",
    ));
    // arithmetic
    v.push((
        rules(
            [
                m(0, s([p(Paren(r(1))), star(s([c(' '), alt([m(1, c('+')), m(2, c('*'))]), c(' '), r(1)]))])),
                alt([m(3, n()), m(4, s([c('('), r(0), c(')')]))]),
            ],
            lines(r(0)),
        ),
        &["1 + (2 * 3) + (4 * (5 + 6))\n7\n", "((1)) * 2\n"],
        "()+*",
    ));
    // decks
    v.push((sections(s([line(s([l("Player "), digit(), c(':')])), lines(n())])), &["Player 1:\n9\n2\n\nPlayer 2:\n5\n8\n", "Player 1:\n"], "P:"));
    v.push((s([l("Player 1:\n"), lines(n()), c('\n'), l("Player 2:\n"), lines(n())]), &["Player 1:\n9\n2\n\nPlayer 2:\n5\n8\n"], "P:"));
    // bingo
    v.push((
        s([line(sep(u8_(), c(','))), c('\n'), sections(lines(sep(s([opt(c(' ')), u8_()]), c(' '))))]),
        &["7,4,19\n\n22 13\n 8  2\n\n 3 15\n 9 18\n", "7\n\n1\n"],
        ",2",
    ));
    // segments
    v.push((lines(s([sep(word(), c(' ')), l(" | "), sep(word(), c(' '))])), &["be cfb | fd g\na | b\n", "ab | \n"], "|b"));
    // origami
    v.push((
        s([lines(s([n(), c(','), n()])), c('\n'), lines(s([l("fold along "), alt([m(0, c('x')), m(1, c('y'))]), c('='), n()]))]),
        &["6,10\n0,14\n\nfold along y=7\nfold along x=5\n", "\n"],
        ",=y",
    ));
    // polymer
    v.push((s([line(plus(upper())), line(l("")), lines(s([upper(), upper(), l(" -> "), upper()]))]), &["NNCB\n\nCH -> B\nHH -> N\n"], "->B"));
    // snailfish
    v.push((
        rules([alt([m(0, digit()), m(1, s([c('['), r(0), c(','), r(0), c(']')]))])], lines(r(0))),
        &["[[1,2],[[3,4],5]]\n[0,0]\n", "7\n"],
        "[],",
    ));
    // cuboids
    let range = || s([i(), l(".."), i()]);
    v.push((
        lines(s([alt([m(0, l("on")), m(1, l("off"))]), l(" x="), range(), l(",y="), range(), l(",z="), range()])),
        &["on x=-20..26,y=-36..17,z=0..+8\noff x=1..2,y=3..4,z=5..6\n"],
        "-.=,+",
    ));
    // calories, both ways
    v.push((sections(lines(n())), &["1000\n2000\n\n4000\n\n5000\n6\n", "1\n\n2", "1\n"], "0"));
    v.push((sep(lines(n()), c('\n')), &["1000\n2000\n\n4000\n\n5000\n6\n", "1\n\n2", "1\n"], "0"));
    // stacks
    let crate_ = || alt([m(0, l("   ")), m(1, s([c('['), upper(), c(']')]))]);
    v.push((
        s([
            section(s([lines(sep(crate_(), c(' '))), line(sep(s([c(' '), digit(), c(' ')]), c(' ')))])),
            section(lines(s([l("move "), n(), l(" from "), digit(), l(" to "), digit()]))),
        ]),
        &["    [D]\n[N] [C]\n 1   2 \n\nmove 1 from 2 to 1\n"],
        "[]M",
    ));
    // terminal
    v.push((
        plus(alt([
            m(0, line(s([l("$ cd "), alt([m(1, c('/')), m(2, l("..")), m(3, st(plus(any())))])]))),
            m(4, s([line(l("$ ls")), lines(alt([m(5, s([l("dir "), word()])), m(5, s([n(), c(' '), st(plus(alt([m(0, lower()), m(1, c('.'))])))]))]))])),
        ])),
        &["$ cd /\n$ ls\ndir a\n14 b.txt\n$ cd a\n$ ls\n$ cd ..\n"],
        "$./",
    ));
    // monkeys
    v.push((
        sections(s([
            line(s([l("Monkey "), n(), c(':')])),
            line(s([l("  Items: "), sep(n(), l(", "))])),
            line(s([l("  Op: old "), alt([m(0, c('*')), m(1, c('+'))]), c(' '), alt([m(2, n()), m(3, l("old"))])])),
            line(s([l("    True: "), n()])),
        ])),
        &["Monkey 0:\n  Items: 79, 98\n  Op: old * 19\n    True: 2\n\nMonkey 1:\n  Items: \n  Op: old + old\n    True: 0\n"],
        ":,*",
    ));
    // packets
    v.push((
        rules([alt([m(0, n()), m(1, s([c('['), sep(r(0), c(',')), c(']')]))])], sections(s([line(r(0)), line(r(0))]))),
        &["[1,[2,3]]\n[[1],4]\n\n[]\n3\n", "[[[]]]\n[[]]"],
        "[],",
    ));
    // valves
    let valve = || st(s([upper(), upper()]));
    v.push((
        lines(s([l("Valve "), valve(), l(" rate="), n(), alt([m(0, s([l("; tunnels to "), sep(valve(), l(", "))])), m(1, s([l("; tunnel to "), valve()]))])])),
        &["Valve AA rate=0; tunnels to DD, II\nValve HH rate=22; tunnel to GG\n"],
        ";,A",
    ));
    // yelling
    v.push((
        lines(s([word(), l(": "), alt([m(0, i()), m(1, s([word(), c(' '), of("+-*/"), c(' '), word()]))])])),
        &["root: pp + sj\ndb: 5\nq: -7\n", "a: b / c"],
        ":+/",
    ));
    // a board and a path
    v.push((
        s([section(lines(plus(of(" .#")))), section(line(plus(alt([m(0, n()), m(1, c('L')), m(2, c('R'))]))))]),
        &["  .#\n.. \n#\n\n10R5L5\n", ".\n\nL\n"],
        ".#LR",
    ));
    // cubes
    v.push((
        lines(s([l("Game "), n(), l(": "), sep(sep(s([n(), c(' '), alt([m(0, l("red")), m(1, l("green")), m(2, l("blue"))])]), l(", ")), l("; "))])),
        &["Game 1: 3 blue, 4 red; 1 red, 2 green\nGame 2: 1 red\n", "Game 3: ; \n"],
        ":;,r",
    ));
    // cards
    v.push((
        lines(s([l("Card"), plus(c(' ')), n(), c(':'), plus(s([plus(c(' ')), n()])), l(" |"), plus(s([plus(c(' ')), n()]))])),
        &["Card   1: 41  8 | 83 6\nCard 2: 1 |  2\n"],
        ":|",
    ));
    // almanac
    v.push((
        s([
            section(line(s([l("seeds: "), sep(n(), c(' '))]))),
            sections(s([line(s([word(), l("-to-"), word(), l(" map:")])), lines(s([n(), c(' '), n(), c(' '), n()]))])),
        ]),
        &["seeds: 79 14\n\nseed-to-soil map:\n50 98 2\n52 50 48\n\nsoil-to-water map:\n0 15 37\n"],
        "-:t",
    ));
    // network
    let node = || st(s([alnum(), alnum()]));
    v.push((
        s([section(line(plus(alt([m(0, c('L')), m(1, c('R'))])))), section(lines(s([node(), l(" = ("), node(), l(", "), node(), c(')')])))]),
        &["LRL\n\nAA = (BB, CC)\nB1 = (DD, 2E)\n"],
        "()=,L",
    ));
    v.push((
        s([line(plus(of("LR"))), c('\n'), p(CollMap(Coll::BMap, s([node(), l(" = ")]), s([c('('), node(), l(", "), node(), l(")\n")])))]),
        &["LRL\n\nAA = (BB, CC)\nB1 = (DD, 2E)\nAA = (ZZ, ZZ)\n"],
        "()=,L",
    ));
    // springs
    v.push((lines(s([plus(of(".#?")), c(' '), sep(u8_(), c(','))])), &["???.### 1,1,3\n.# 2\n"], ".#?,"));
    // mirrors
    v.push((sections(lines(plus(of(".#")))), &["#.##\n..#.\n\n#...\n\n#\n"], ".#"));
    v.push((sections(lines(st(plus(any())))), &["#.##\n..#.\n\n#...\n\n#\n"], ".#"));
    v.push((sections(lines(plus(alt([m(0, c('.')), m(1, c('#'))])))), &["#.##\n..#.\n\n#...\n"], ".#"));
    // lenses
    v.push((
        line(sep(s([word(), alt([m(0, c('-')), m(1, s([c('='), digit()]))])]), c(','))),
        &["rn=1,cm-,qp=3\n", "a-"],
        "=-,",
    ));
    // workflows
    let target = || alt([m(0, c('A')), m(1, c('R')), m(2, word())]);
    v.push((
        s([
            section(lines(s([word(), c('{'), star(s([of("xmas"), of("<>"), n(), c(':'), target(), c(',')])), target(), c('}')]))),
            section(lines(s([l("{x="), n(), l(",m="), n(), c('}')]))),
        ]),
        &["px{a<2006:qkq,m>2090:A,rfg}\npv{R}\n\n{x=7,m=26}\n{x=1,m=0}\n"],
        "{}<,:",
    ));
    // modules
    v.push((
        lines(s([alt([m(0, l("broadcaster")), m(1, s([c('%'), word()])), m(2, s([c('&'), word()]))]), l(" -> "), sep(word(), l(", "))])),
        &["broadcaster -> a, b\n%a -> inv\n&inv -> a\n"],
        "%&>,",
    ));
    // two columns
    v.push((lines(s([n(), plus(c(' ')), n()])), &["3   4\n10 2\n", "1  1"], "0"));
    // corrupted memory
    v.push((
        star(alt([m(0, s([l("mul("), u8_(), c(','), u8_(), c(')')])), m(1, l("do()")), m(2, l("don't()")), m(3, any())])),
        &["xmul(2,4)%&mul[3,7]don't()_mul(5,5)+mul(32,64]do()?mul(8,5))", "mul(256,1)"],
        "mu(),",
    ));
    // orderings
    v.push((
        s([section(lines(s([u8_(), c('|'), u8_()]))), section(lines(sep(u8_(), c(','))))]),
        &["47|53\n97|13\n\n75,47,61\n97\n", "1|2\n\n\n"],
        "|,",
    ));
    // registers and program
    v.push((
        s([l("A: "), n(), l("\nB: "), n(), l("\n\nProgram: "), sep(digit(), c(',')), opt(c('\n'))]),
        &["A: 729\nB: 0\n\nProgram: 0,1,5,4\n"],
        ":,B",
    ));
    // towels
    v.push((s([line(sep(word(), l(", "))), line(p(Empty)), lines(word())]), &["r, wr, b\n\nbrwrr\nbg\n"], ",r"));
    // keys and locks
    v.push((
        sections(alt([
            m(0, s([line(l("###")), star(line(plus(of("#.")))), line(l("..."))])),
            m(1, s([line(l("...")), star(line(plus(of("#.")))), line(l("###"))])),
        ])),
        &["###\n#.#\n...\n\n...\n.#.\n###\n"],
        ".#",
    ));
    // gates
    v.push((
        s([
            section(lines(s([st(plus(alnum())), l(": "), alt([m(0, c('0')), m(1, c('1'))])]))),
            section(lines(s([st(plus(alnum())), c(' '), alt([m(2, l("XOR")), m(3, l("OR")), m(4, l("AND"))]), c(' '), st(plus(alnum())), l(" -> "), st(plus(alnum()))]))),
        ]),
        &["x0: 1\ny0: 0\n\nx0 XOR y0 -> z0\nx0 AND y0 -> z1\n"],
        ":0>O",
    ));
    // what backtracks
    v.push((lines(s([st(plus(any())), c(' '), n()])), &["a b 1\n1 1 1\n", "  12"], "0"));
    v.push((lines(s([st(star(any())), c('='), st(star(any()))])), &["a=b=c\n=\n==\n"], "="));
    v.push((s([plus(any()), c(':'), star(any()), c(';')]), &["a:b;c:d;\n;", "::;;"], ":;"));
    v.push((s([star(line(plus(alpha()))), line(l("end")), star(any())]), &["ab\nend\nend\nx\nend\n1\n"], "end"));
    v.push((lines(s([opt(s([n(), c('-')])), p(Paren(n())), opt(s([c('-'), n()]))])), &["1-2-3\n4-5\n6\n-\n"], "-"));
    v.push((lines(sep(opt(n()), c(','))), &[",1,,2\n\n3\n"], ","));
    // lines that are sets, deques, maps
    v.push((lines(p(Coll(Coll::HSet, of("abc.\""), None))), &["abc\naab\n.\n"], "b"));
    v.push((lines(p(Coll(Coll::BSet, n(), Some(c(' '))))), &["3 1 2\n3 03 3\n7\n"], "03"));
    v.push((sections(p(Coll(Coll::Deq, line(s([word(), opt(s([c('='), i()]))])), None))), &["a=1\nb\n\nc=-2\n"], "=-"));
    v.push((lines(p(CollMap(Coll::HMap, s([word(), c(':')]), s([n(), c(';')])))), &["a:1;b:2;\na:1;a:3;\n\n"], ":;a"));
    // a rule used across lines and sections
    v.push((
        rules(
            [
                alt([m(0, s([c('('), star(r(0)), c(')')])), m(1, s([c('<'), st(star(r(1))), c('>')]))]),
                alt([m(2, s([c('['), opt(r(0)), c(']')])), m(3, lower())]),
            ],
            sections(s([line(plus(r(0))), lines(sep(r(1), c(' ')))])),
        ),
        &["(())()\na [] [()]\n\n<a[]><>\n", "(<[(<>)]>)\n\nab\n"],
        "()<>[]",
    ));
    // indented outline
    v.push((
        rules(
            [m(0, s([line(s([word(), c(':')])), star(r(1))])), alt([m(1, line(s([l("- "), word()]))), m(2, s([line(s([l("+ "), word()])), star(line(s([l("  "), word()])))]))])],
            plus(r(0)),
        ),
        &["a:\n- b\n+ c\n  d\n  e\nf:\n", "a:\nb:\n+ c\n"],
        ":-+",
    ));
    v.into_iter().map(|(p, texts, extra)| Puzzle { p, texts, extra }).collect()
}

/// Every text one change away: prefixes, characters taken out, put in,
/// replaced or exchanged, lines taken out, doubled, joined or exchanged, other
/// line ends.
pub fn edits(t: &str, extra: &str) -> Vec<String> {
    let cs: Vec<char> = t.chars().collect();
    let mut alphabet: Vec<char> = "\n 1aé".chars().chain(extra.chars()).collect();
    alphabet.sort();
    alphabet.dedup();
    let mk = |v: &[char]| v.iter().collect::<String>();
    let mut out = vec![t.to_string()];
    for k in 0..=cs.len() {
        out.push(mk(&cs[..k]));
        out.push(mk(&cs[k..]));
        for &a in &alphabet {
            let mut v = cs.clone();
            v.insert(k, a);
            out.push(mk(&v));
        }
        if k < cs.len() {
            let mut v = cs.clone();
            v.remove(k);
            out.push(mk(&v));
            for &a in &alphabet {
                let mut v = cs.clone();
                v[k] = a;
                out.push(mk(&v));
            }
            let mut v = cs.clone();
            v.insert(k, cs[k]);
            out.push(mk(&v));
        }
        if k + 1 < cs.len() {
            let mut v = cs.clone();
            v.swap(k, k + 1);
            out.push(mk(&v));
        }
    }
    let ls: Vec<&str> = t.split_inclusive('\n').collect();
    for i in 0..ls.len() {
        let mut v = ls.clone();
        v.remove(i);
        out.push(v.concat());
        let mut v = ls.clone();
        v.insert(i, ls[i]);
        out.push(v.concat());
        for j in i + 1..ls.len() {
            let mut v = ls.clone();
            v.swap(i, j);
            out.push(v.concat());
        }
    }
    out.push(t.replace('\n', "\r\n"));
    out.push(t.replace('\n', "\n\n"));
    out.push(format!("{t}{t}"));
    out.push(format!("{t}\n{t}"));
    out.push(format!("{t}\n{t}\n{t}"));
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| seen.insert(x.clone()));
    out
}
