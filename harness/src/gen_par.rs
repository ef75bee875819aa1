// generated by tools/gen_macros.py
use super::par::reduce;

parser_generator::parser! {
    fn g0() -> LR1Parser {
        token crate::par::Tok { T0 = of(1) }
        symbol crate::par::Nt { S0 = of(0) }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0]: x @ [_] => { let r = reduce(0, 0, x); r };
    }
}
parser_generator::parser! {
    pub fn g1() -> LR1Parser {
        token crate::par::Tok {  }
        symbol crate::par::Nt { S0 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= : x => reduce(0, 1, x);
    }
}
parser_generator::parser! {
    fn g2() -> LR1Parser {
        token crate::par::Tok { "x" = of(1), "+" = of(0), }
        symbol crate::par::Nt { S0 = of(2), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0>: x @ [_, _] => reduce(0, 2, x);
        | "x": x => { let r = reduce(1, 2, x); r };
    }
}
parser_generator::parser! {
    fn g3() -> LR1Parser {
        token crate::par::Tok { "+" = of(5), T1 = of(12), unused = of(900) }
        symbol crate::par::Nt { S0 = of(5), unused = of(901) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> "+": x => { let r = reduce(0, 5, x); r };
        | [T1]: x @ [_] => reduce(1, 5, x);
    }
}
parser_generator::parser! {
    pub fn g4() -> LR1Parser {
        token crate::par::Tok { "S0" = of(90), }
        symbol crate::par::Nt { S0 = of(40), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> "S0": x @ [_, _] => reduce(0, 40, x);
        <S0>::= : x => reduce(1, 40, x);
    }
}
parser_generator::parser! {
    fn g5() -> LR1Parser {
        token crate::par::Tok { T0 = of(2), }
        symbol crate::par::Nt { S0 = of(4), }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0] <S0>: x => reduce(0, 4, x);
        | : x @ [] => { let r = reduce(1, 4, x); r };
    }
}
parser_generator::parser! {
    fn g6() -> LR1Parser {
        token crate::par::Tok { "x" = of(14), "+" = of(4) }
        symbol crate::par::Nt { S0 = of(90) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0> "x": x @ [_, _, _] => { let r = reduce(0, 90, x); r };
        | : x => reduce(1, 90, x);
    }
}
parser_generator::parser! {
    pub fn g7() -> LR1Parser {
        token crate::par::Tok { "x" = of(2), unused = of(900), "+" = of(1), }
        symbol crate::par::Nt { unused = of(901), S0 = of(0), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0> "+": x => reduce(0, 0, x);
        | "x": x @ [_] => reduce(1, 0, x);
    }
}
parser_generator::parser! {
    fn g8() -> LR1Parser {
        token crate::par::Tok { "+" = of(40), T1 = of(39), "==" = of(38), T3 = of(37), "Y" = of(36), }
        symbol crate::par::Nt { S0 = of(1), S1 = of(2), S2 = of(3), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> "+" <S1>: x @ [_, _, _] => reduce(0, 1, x);
        <S0>::= <S1>: x => { let r = reduce(1, 1, x); r };
        <S1>::= <S1> [T1] <S2>: x @ [_, _, _] => reduce(2, 2, x);
        | <S2>: x => reduce(3, 2, x);
        <S2>::= "==" <S0> [T3]: x @ [_, _, _] => { let r = reduce(4, 3, x); r };
        <S2>::= "Y": x => reduce(5, 3, x);
    }
}
parser_generator::parser! {
    fn g9() -> LR1Parser {
        token crate::par::Tok { S0 = of(1), "S0" = of(0) }
        symbol crate::par::Nt { S1 = of(5), S2 = of(8), S0 = of(2) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2>: x => { let r = reduce(0, 2, x); r };
        <S1>::= "S0": x @ [_] => reduce(1, 5, x);
        | : x => reduce(2, 5, x);
        <S2>::= [S0]: x @ [_] => { let r = reduce(3, 8, x); r };
        <S2>::= : x => reduce(4, 8, x);
    }
}
parser_generator::parser! {
    pub fn g10() -> LR1Parser {
        token crate::par::Tok { T1 = of(12), T0 = of(5), }
        symbol crate::par::Nt { S2 = of(19), S1 = of(12), S0 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> [T0] <S2> [T1]: x @ [_, _, _, _] => reduce(0, 5, x);
        <S1>::= : x => reduce(1, 12, x);
        <S2>::= : x @ [] => { let r = reduce(2, 19, x); r };
    }
}
parser_generator::parser! {
    fn g11() -> LR1Parser {
        token crate::par::Tok { "+" = of(90), unused = of(900), "x" = of(87), }
        symbol crate::par::Nt { unused = of(901), S2 = of(38), S0 = of(40), S1 = of(39), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "+" <S1> "x": x => reduce(0, 40, x);
        | <S2> "x" <S2> "+": x @ [_, _, _, _] => { let r = reduce(1, 40, x); r };
        <S1>::= : x => reduce(2, 39, x);
        <S2>::= : x @ [] => reduce(3, 38, x);
    }
}
parser_generator::parser! {
    fn g12() -> LR1Parser {
        token crate::par::Tok { "+" = of(2), "x" = of(5), "==" = of(8), "\"" = of(11), "Y" = of(14) }
        symbol crate::par::Nt { S0 = of(4), S1 = of(14), S2 = of(24) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> "\"": x @ [_, _, _] => { let r = reduce(0, 4, x); r };
        <S0>::= "x" <S2> "\"": x => reduce(1, 4, x);
        | "+" <S2> "Y": x @ [_, _, _] => reduce(2, 4, x);
        | "x" <S1> "Y": x => { let r = reduce(3, 4, x); r };
        <S1>::= "==": x @ [_] => reduce(4, 14, x);
        <S2>::= "==": x => reduce(5, 24, x);
    }
}
parser_generator::parser! {
    pub fn g13() -> LR1Parser {
        token crate::par::Tok { T1 = of(14), "+" = of(4), }
        symbol crate::par::Nt { S1 = of(87), S0 = of(90), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S1>: x => reduce(0, 90, x);
        <S1>::= "+" <S1>: x @ [_, _] => reduce(1, 87, x);
        | [T1]: x => { let r = reduce(2, 87, x); r };
    }
}
parser_generator::parser! {
    fn g14() -> LR1Parser {
        token crate::par::Tok { "S1" = of(3), S0 = of(2), "S0" = of(1), }
        symbol crate::par::Nt { S2 = of(2), S1 = of(1), S0 = of(0), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "S0" <S2>: x @ [_, _, _] => reduce(0, 0, x);
        | <S2>: x => { let r = reduce(1, 0, x); r };
        <S1>::= [S0] <S2>: x @ [_, _] => reduce(2, 1, x);
        <S1>::= "S1": x => reduce(3, 1, x);
        <S2>::= <S1>: x @ [_] => { let r = reduce(4, 2, x); r };
    }
}
parser_generator::parser! {
    fn g15() -> LR1Parser {
        token crate::par::Tok { T1 = of(39), T0 = of(40), T2 = of(38), unused = of(900) }
        symbol crate::par::Nt { S2 = of(3), unused = of(901), S0 = of(1), S1 = of(2), S3 = of(4) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x => { let r = reduce(0, 1, x); r };
        <S1>::= <S2>: x @ [_] => reduce(1, 2, x);
        <S2>::= <S3>: x => reduce(2, 3, x);
        <S3>::= [T0]: x @ [_] => { let r = reduce(3, 4, x); r };
        | [T1] <S1> [T2]: x => reduce(4, 4, x);
    }
}
parser_generator::parser! {
    pub fn g16() -> LR1Parser {
        token crate::par::Tok { "+" = of(0), "x" = of(1), }
        symbol crate::par::Nt { S0 = of(2), S1 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1>: x @ [_, _] => reduce(0, 2, x);
        <S1>::= "x" <S1>: x => reduce(1, 5, x);
        | : x @ [] => { let r = reduce(2, 5, x); r };
    }
}
parser_generator::parser! {
    fn g17() -> LR1Parser {
        token crate::par::Tok { "x" = of(12), "==" = of(19), "+" = of(5), }
        symbol crate::par::Nt { S0 = of(5), S1 = of(12), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> "==": x => reduce(0, 5, x);
        <S1>::= <S1> "x": x @ [_, _] => { let r = reduce(1, 12, x); r };
        | : x => reduce(2, 12, x);
    }
}
parser_generator::parser! {
    fn g18() -> LR1Parser {
        token crate::par::Tok { T1 = of(87), "+" = of(90) }
        symbol crate::par::Nt { S0 = of(40) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0> [T1] <S0>: x @ [_, _, _, _] => { let r = reduce(0, 40, x); r };
        | : x => reduce(1, 40, x);
    }
}
parser_generator::parser! {
    pub fn g19() -> LR1Parser {
        token crate::par::Tok { S0 = of(5), unused = of(900), "S1" = of(8), "S0" = of(2), }
        symbol crate::par::Nt { S1 = of(14), unused = of(901), S2 = of(24), S3 = of(34), S0 = of(4), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2> <S3>: x => reduce(0, 4, x);
        <S1>::= "S0": x @ [_] => reduce(1, 14, x);
        <S1>::= : x => { let r = reduce(2, 14, x); r };
        <S2>::= [S0]: x @ [_] => reduce(3, 24, x);
        | : x => reduce(4, 24, x);
        <S3>::= "S1": x @ [_] => { let r = reduce(5, 34, x); r };
        <S3>::= : x => reduce(6, 34, x);
    }
}
parser_generator::parser! {
    fn g20() -> LR1Parser {
        token crate::par::Tok { T0 = of(4), T1 = of(14), T2 = of(24), }
        symbol crate::par::Nt { S0 = of(90), S1 = of(87), S2 = of(84), S3 = of(81), }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0] <S1>: x @ [_, _] => reduce(0, 90, x);
        <S0>::= [T1] <S2>: x => { let r = reduce(1, 90, x); r };
        <S2>::= [T0]: x @ [_] => reduce(2, 84, x);
        | [T0] <S0>: x => reduce(3, 84, x);
        | [T1] <S2> <S2>: x @ [_, _, _] => { let r = reduce(4, 84, x); r };
        <S1>::= [T1]: x => reduce(5, 87, x);
        | [T1] <S0>: x @ [_, _] => reduce(6, 87, x);
        | [T0] <S1> <S1>: x => { let r = reduce(7, 87, x); r };
        <S3>::= [T2]: x @ [_] => reduce(8, 81, x);
    }
}
parser_generator::parser! {
    fn g21() -> LR1Parser {
        token crate::par::Tok { "x" = of(2), "+" = of(1) }
        symbol crate::par::Nt { S0 = of(0), S2 = of(2), S1 = of(1) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+": x => { let r = reduce(0, 0, x); r };
        <S1>::= "x": x @ [_] => reduce(1, 1, x);
        <S2>::= <S1> <S0>: x => reduce(2, 2, x);
    }
}
parser_generator::parser! {
    pub fn g22() -> LR1Parser {
        token crate::par::Tok { "==" = of(38), "x" = of(39), "+" = of(40), }
        symbol crate::par::Nt { S1 = of(2), S0 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x @ [_] => reduce(0, 1, x);
        <S1>::= "+" <S1>: x => reduce(1, 2, x);
        | "x" <S1>: x @ [_, _] => { let r = reduce(2, 2, x); r };
        <S1>::= "==": x => reduce(3, 2, x);
    }
}
parser_generator::parser! {
    fn g23() -> LR1Parser {
        token crate::par::Tok { T3 = of(3), unused = of(900), "+" = of(0), "==" = of(2), T1 = of(1), }
        symbol crate::par::Nt { S1 = of(5), unused = of(901), S0 = of(2), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "==" <S1> [T3]: x => reduce(0, 2, x);
        <S1>::= "+" [T1]: x @ [_, _] => { let r = reduce(1, 5, x); r };
        <S1>::= "+": x => reduce(2, 5, x);
    }
}
parser_generator::parser! {
    fn g24() -> LR1Parser {
        token crate::par::Tok { "S0" = of(5), S0 = of(12), "S1" = of(19) }
        symbol crate::par::Nt { S0 = of(5), S1 = of(12) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S0>: x @ [_, _] => { let r = reduce(0, 5, x); r };
        <S0>::= : x => reduce(1, 5, x);
        <S1>::= "S0" <S1> [S0]: x @ [_, _, _] => reduce(2, 12, x);
        | "S1": x => { let r = reduce(3, 12, x); r };
    }
}
parser_generator::parser! {
    pub fn g25() -> LR1Parser {
        token crate::par::Tok { T2 = of(84), T0 = of(90), T1 = of(87), }
        symbol crate::par::Nt { S0 = of(40), S2 = of(38), S1 = of(39), }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0] <S1> <S2>: x => reduce(0, 40, x);
        <S1>::= [T1]: x @ [_] => reduce(1, 39, x);
        | : x => { let r = reduce(2, 39, x); r };
        <S2>::= <S1> [T2] <S2>: x @ [_, _, _] => reduce(3, 38, x);
        <S2>::= : x => reduce(4, 38, x);
    }
}
parser_generator::parser! {
    fn g26() -> LR1Parser {
        token crate::par::Tok { "Y" = of(14), "\"" = of(11), "==" = of(8), "x" = of(5), "+" = of(2), }
        symbol crate::par::Nt { S1 = of(14), S0 = of(4), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "+" <S0> "Y" <S0>: x @ [_, _, _, _, _] => reduce(0, 4, x);
        | "x": x => { let r = reduce(1, 4, x); r };
        <S1>::= "==": x @ [_] => reduce(2, 14, x);
    }
}
parser_generator::parser! {
    fn g27() -> LR1Parser {
        token crate::par::Tok { "==" = of(24), "\"" = of(34), unused = of(900), "+" = of(4), "x" = of(14) }
        symbol crate::par::Nt { unused = of(901), S2 = of(84), S1 = of(87), S0 = of(90) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x => { let r = reduce(0, 90, x); r };
        <S1>::= <S1> "+" <S2>: x @ [_, _, _] => reduce(1, 87, x);
        <S1>::= "==": x => reduce(2, 87, x);
        <S2>::= "==": x @ [_] => { let r = reduce(3, 84, x); r };
        | "x" <S1> "\"": x => reduce(4, 84, x);
    }
}
parser_generator::parser! {
    pub fn g28() -> LR1Parser {
        token crate::par::Tok { "+" = of(1), T1 = of(2), }
        symbol crate::par::Nt { S0 = of(0), S1 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S1>: x @ [_, _] => reduce(0, 0, x);
        <S1>::= "+" <S1>: x => reduce(1, 1, x);
        | [T1]: x @ [_] => { let r = reduce(2, 1, x); r };
    }
}
parser_generator::parser! {
    fn g29() -> LR1Parser {
        token crate::par::Tok { S1 = of(37), S0 = of(39), "S0" = of(40), "S1" = of(38), }
        symbol crate::par::Nt { S0 = of(1), S3 = of(4), S1 = of(2), S2 = of(3), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2> "S0": x => reduce(0, 1, x);
        <S1>::= [S0]: x @ [_] => { let r = reduce(1, 2, x); r };
        | : x => reduce(2, 2, x);
        <S2>::= [S1] "S1": x @ [_, _] => reduce(3, 3, x);
        <S2>::= : x => { let r = reduce(4, 3, x); r };
        <S3>::= [S1]: x @ [_] => reduce(5, 4, x);
    }
}
parser_generator::parser! {
    fn g30() -> LR1Parser {
        token crate::par::Tok { T1 = of(1), T0 = of(0) }
        symbol crate::par::Nt { S0 = of(2) }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0] [T0] [T0]: x @ [_, _, _] => { let r = reduce(0, 2, x); r };
        | [T0] [T0] [T1]: x => reduce(1, 2, x);
        | [T0] [T1]: x @ [_, _] => reduce(2, 2, x);
    }
}
parser_generator::parser! {
    pub fn g31() -> LR1Parser {
        token crate::par::Tok { "+" = of(5), "x" = of(12), "==" = of(19), unused = of(900), }
        symbol crate::par::Nt { S2 = of(19), unused = of(901), S1 = of(12), S0 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> "x": x => reduce(0, 5, x);
        | "+" <S2> "==": x @ [_, _, _] => reduce(1, 5, x);
        <S1>::= "+": x => { let r = reduce(2, 12, x); r };
        <S2>::= "+": x @ [_] => reduce(3, 19, x);
    }
}
parser_generator::parser! {
    fn g32() -> LR1Parser {
        token crate::par::Tok { "+" = of(90), "x" = of(87), "==" = of(84), }
        symbol crate::par::Nt { S0 = of(40), S1 = of(39), S2 = of(38), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "==" <S2>: x @ [_, _, _] => reduce(0, 40, x);
        <S0>::= <S2>: x => { let r = reduce(1, 40, x); r };
        <S1>::= "+": x @ [_] => reduce(2, 39, x);
        | "x" <S2>: x => reduce(3, 39, x);
        <S2>::= <S1>: x @ [_] => { let r = reduce(4, 38, x); r };
    }
}
parser_generator::parser! {
    fn g33() -> LR1Parser {
        token crate::par::Tok { T3 = of(11), T1 = of(5), "Y" = of(14), "==" = of(8), "+" = of(2) }
        symbol crate::par::Nt { S4 = of(44), S1 = of(14), S2 = of(24), S0 = of(4), S3 = of(34) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2>: x => { let r = reduce(0, 4, x); r };
        <S2>::= "+" <S1> <S2>: x @ [_, _, _] => reduce(1, 24, x);
        | : x => reduce(2, 24, x);
        <S1>::= <S3> <S4>: x @ [_, _] => { let r = reduce(3, 14, x); r };
        <S4>::= [T1] <S3> <S4>: x => reduce(4, 44, x);
        | : x @ [] => reduce(5, 44, x);
        <S3>::= "==" <S0> [T3]: x => { let r = reduce(6, 34, x); r };
        | "Y": x @ [_] => reduce(7, 34, x);
    }
}
parser_generator::parser! {
    pub fn g34() -> LR1Parser {
        token crate::par::Tok { S0 = of(14), "S0" = of(4), }
        symbol crate::par::Nt { S0 = of(90), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "S0" <S0> <S0>: x @ [_, _, _] => reduce(0, 90, x);
        | [S0]: x => reduce(1, 90, x);
    }
}
parser_generator::parser! {
    fn g35() -> LR1Parser {
        token crate::par::Tok { T0 = of(1), unused = of(900), T1 = of(2), }
        symbol crate::par::Nt { unused = of(901), S0 = of(0), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> <S0> [T0]: x => reduce(0, 0, x);
        | [T1]: x @ [_] => { let r = reduce(1, 0, x); r };
    }
}
parser_generator::parser! {
    fn g36() -> LR1Parser {
        token crate::par::Tok { "+" = of(40), "x" = of(39) }
        symbol crate::par::Nt { S0 = of(1), S1 = of(2), S2 = of(3) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "x": x @ [_, _] => { let r = reduce(0, 1, x); r };
        <S1>::= <S1> <S2>: x => reduce(1, 2, x);
        | : x @ [] => reduce(2, 2, x);
        <S2>::= "+": x => { let r = reduce(3, 3, x); r };
    }
}
parser_generator::parser! {
    pub fn g37() -> LR1Parser {
        token crate::par::Tok { "==" = of(2), "+" = of(0), "x" = of(1), }
        symbol crate::par::Nt { S1 = of(5), S0 = of(2), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "+": x => reduce(0, 2, x);
        | "+" <S1> "x": x @ [_, _, _] => reduce(1, 2, x);
        <S1>::= "==": x => { let r = reduce(2, 5, x); r };
    }
}
parser_generator::parser! {
    fn g38() -> LR1Parser {
        token crate::par::Tok { "==" = of(19), T1 = of(12), "+" = of(5), }
        symbol crate::par::Nt { S1 = of(12), S0 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> "+": x @ [_, _, _] => reduce(0, 5, x);
        <S1>::= [T1]: x => { let r = reduce(1, 12, x); r };
        | <S1> "==" [T1]: x @ [_, _, _] => reduce(2, 12, x);
    }
}
parser_generator::parser! {
    fn g39() -> LR1Parser {
        token crate::par::Tok { S0 = of(87), unused = of(900), "S0" = of(90) }
        symbol crate::par::Nt { S1 = of(39), S2 = of(38), unused = of(901), S0 = of(40) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2> <S1> <S2>: x => { let r = reduce(0, 40, x); r };
        <S1>::= "S0": x @ [_] => reduce(1, 39, x);
        <S2>::= : x => reduce(2, 38, x);
        | [S0]: x @ [_] => { let r = reduce(3, 38, x); r };
    }
}
parser_generator::parser! {
    pub fn g40() -> LR1Parser {
        token crate::par::Tok { T0 = of(2), T1 = of(5), }
        symbol crate::par::Nt { S0 = of(4), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> [T0] <S0>: x @ [_, _, _] => reduce(0, 4, x);
        <S0>::= [T1]: x => reduce(1, 4, x);
    }
}
parser_generator::parser! {
    fn g41() -> LR1Parser {
        token crate::par::Tok { "+" = of(4), "x" = of(14), "==" = of(24), }
        symbol crate::par::Nt { S0 = of(90), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> "+" <S0>: x => reduce(0, 90, x);
        | <S0> "x" <S0>: x @ [_, _, _] => { let r = reduce(1, 90, x); r };
        | "==": x => reduce(2, 90, x);
    }
}
parser_generator::parser! {
    fn g42() -> LR1Parser {
        token crate::par::Tok { "Y" = of(5), "\"" = of(4), "==" = of(3), "x" = of(2), "+" = of(1) }
        symbol crate::par::Nt { S0 = of(0) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0> "Y" <S0>: x @ [_, _, _, _] => { let r = reduce(0, 0, x); r };
        | "+" <S0>: x => reduce(1, 0, x);
        | "x": x @ [_] => reduce(2, 0, x);
    }
}
parser_generator::parser! {
    pub fn g43() -> LR1Parser {
        token crate::par::Tok { "+" = of(40), unused = of(900), }
        symbol crate::par::Nt { unused = of(901), S0 = of(1), S1 = of(2), S2 = of(3), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x => reduce(0, 1, x);
        | <S2>: x @ [_] => reduce(1, 1, x);
        <S1>::= "+": x => { let r = reduce(2, 2, x); r };
        <S2>::= "+": x @ [_] => reduce(3, 3, x);
    }
}
parser_generator::parser! {
    fn g44() -> LR1Parser {
        token crate::par::Tok { "S0" = of(0), }
        symbol crate::par::Nt { S0 = of(2), S1 = of(5), S2 = of(8), S3 = of(11), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x @ [_] => reduce(0, 2, x);
        <S0>::= <S2>: x => { let r = reduce(1, 2, x); r };
        | <S3>: x @ [_] => reduce(2, 2, x);
        <S1>::= "S0": x => reduce(3, 5, x);
        <S2>::= "S0": x @ [_] => { let r = reduce(4, 8, x); r };
        <S3>::= "S0": x => reduce(5, 11, x);
    }
}
parser_generator::parser! {
    fn g45() -> LR1Parser {
        token crate::par::Tok { T0 = of(5) }
        symbol crate::par::Nt { S0 = of(5), S1 = of(12), S2 = of(19) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2>: x => { let r = reduce(0, 5, x); r };
        <S1>::= [T0]: x @ [_] => reduce(1, 12, x);
        | : x => reduce(2, 12, x);
        <S2>::= [T0]: x @ [_] => { let r = reduce(3, 19, x); r };
        <S2>::= : x => reduce(4, 19, x);
    }
}
parser_generator::parser! {
    pub fn g46() -> LR1Parser {
        token crate::par::Tok { "==" = of(84), "x" = of(87), "+" = of(90), }
        symbol crate::par::Nt { S2 = of(38), S1 = of(39), S0 = of(40), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> "x": x @ [_, _, _] => reduce(0, 40, x);
        | "+" <S2>: x => reduce(1, 40, x);
        <S1>::= "==": x @ [_] => { let r = reduce(2, 39, x); r };
        <S2>::= "==" "x": x => reduce(3, 38, x);
    }
}
parser_generator::parser! {
    fn g47() -> LR1Parser {
        token crate::par::Tok { unused = of(900), "+" = of(2), }
        symbol crate::par::Nt { S0 = of(4), unused = of(901), S1 = of(14), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x => reduce(0, 4, x);
        | "+": x @ [_] => { let r = reduce(1, 4, x); r };
        <S1>::= "+": x => reduce(2, 14, x);
    }
}
parser_generator::parser! {
    fn g48() -> LR1Parser {
        token crate::par::Tok { "+" = of(4), T1 = of(14) }
        symbol crate::par::Nt { S0 = of(90), S1 = of(87), S2 = of(84) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "+": x @ [_, _] => { let r = reduce(0, 90, x); r };
        <S0>::= <S2> "+": x => reduce(1, 90, x);
        <S1>::= [T1]: x @ [_] => reduce(2, 87, x);
        <S2>::= [T1]: x => { let r = reduce(3, 84, x); r };
    }
}
parser_generator::parser! {
    pub fn g49() -> LR1Parser {
        token crate::par::Tok { S0 = of(2), "S0" = of(1), }
        symbol crate::par::Nt { S2 = of(2), S1 = of(1), S0 = of(0), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "S0": x => reduce(0, 0, x);
        | <S2> "S0": x @ [_, _] => reduce(1, 0, x);
        <S2>::= [S0]: x => { let r = reduce(2, 2, x); r };
        <S1>::= [S0]: x @ [_] => reduce(3, 1, x);
    }
}
parser_generator::parser! {
    fn g50() -> LR1Parser {
        token crate::par::Tok { T0 = of(40), }
        symbol crate::par::Nt { S0 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> <S0>: x @ [_, _] => reduce(0, 1, x);
        | [T0]: x => { let r = reduce(1, 1, x); r };
    }
}
parser_generator::parser! {
    fn g51() -> LR1Parser {
        token crate::par::Tok { unused = of(900), "+" = of(0), "x" = of(1) }
        symbol crate::par::Nt { S0 = of(2), unused = of(901) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0> "+": x => { let r = reduce(0, 2, x); r };
        | "x" <S0> "x": x @ [_, _, _] => reduce(1, 2, x);
        <S0>::= : x => reduce(2, 2, x);
    }
}
parser_generator::parser! {
    pub fn g52() -> LR1Parser {
        token crate::par::Tok { "+" = of(5), }
        symbol crate::par::Nt { S0 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0>: x @ [_] => reduce(0, 5, x);
        <S0>::= "+": x => reduce(1, 5, x);
    }
}
parser_generator::parser! {
    fn g53() -> LR1Parser {
        token crate::par::Tok { "+" = of(90), }
        symbol crate::par::Nt { S0 = of(40), S1 = of(39), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x => reduce(0, 40, x);
        <S1>::= <S0>: x @ [_] => { let r = reduce(1, 39, x); r };
        | "+": x => reduce(2, 39, x);
    }
}
parser_generator::parser! {
    fn g54() -> LR1Parser {
        token crate::par::Tok { "S1" = of(8), S0 = of(5), "S0" = of(2) }
        symbol crate::par::Nt { S0 = of(4) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "S0" <S0>: x @ [_, _] => { let r = reduce(0, 4, x); r };
        | "S0" <S0> [S0]: x => reduce(1, 4, x);
        | "S1": x @ [_] => reduce(2, 4, x);
    }
}
parser_generator::parser! {
    pub fn g55() -> LR1Parser {
        token crate::par::Tok { T1 = of(14), unused = of(900), T0 = of(4), }
        symbol crate::par::Nt { S0 = of(90), unused = of(901), S2 = of(84), S1 = of(87), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x => reduce(0, 90, x);
        | [T0] <S2>: x @ [_, _] => reduce(1, 90, x);
        <S1>::= [T0]: x => { let r = reduce(2, 87, x); r };
        <S2>::= : x @ [] => reduce(3, 84, x);
        | [T1]: x => reduce(4, 84, x);
    }
}
parser_generator::parser! {
    fn g56() -> LR1Parser {
        token crate::par::Tok { "+" = of(1), "x" = of(2), "==" = of(3), }
        symbol crate::par::Nt { S0 = of(0), S1 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "+" <S1>: x @ [_, _, _] => reduce(0, 0, x);
        <S0>::= "x": x => { let r = reduce(1, 0, x); r };
        <S1>::= <S0>: x @ [_] => reduce(2, 1, x);
        | "==": x => reduce(3, 1, x);
    }
}
parser_generator::parser! {
    fn g57() -> LR1Parser {
        token crate::par::Tok { "x" = of(39), "\"" = of(37), "==" = of(38), "+" = of(40) }
        symbol crate::par::Nt { S0 = of(1), S1 = of(2), S2 = of(3) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "==": x => { let r = reduce(0, 1, x); r };
        | <S2> "==": x @ [_, _] => reduce(1, 1, x);
        | "\"": x => reduce(2, 1, x);
        <S1>::= "+" <S1>: x @ [_, _] => { let r = reduce(3, 2, x); r };
        <S1>::= : x => reduce(4, 2, x);
        <S2>::= "+" <S2>: x @ [_, _] => reduce(5, 3, x);
        | : x => { let r = reduce(6, 3, x); r };
    }
}
parser_generator::parser! {
    pub fn g58() -> LR1Parser {
        token crate::par::Tok { T1 = of(1), "+" = of(0), }
        symbol crate::par::Nt { S1 = of(5), S0 = of(2), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S1> "+": x @ [_, _, _] => reduce(0, 2, x);
        <S1>::= [T1]: x => reduce(1, 5, x);
        | : x @ [] => { let r = reduce(2, 5, x); r };
    }
}
parser_generator::parser! {
    fn g59() -> LR1Parser {
        token crate::par::Tok { unused = of(900), "S1" = of(19), "S0" = of(5), S0 = of(12), }
        symbol crate::par::Nt { S1 = of(12), S0 = of(5), S2 = of(19), unused = of(901), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "S0" <S1>: x => reduce(0, 5, x);
        | "S0" <S2>: x @ [_, _] => { let r = reduce(1, 5, x); r };
        <S1>::= [S0]: x => reduce(2, 12, x);
        <S2>::= [S0] "S1": x @ [_, _] => reduce(3, 19, x);
        | [S0]: x => { let r = reduce(4, 19, x); r };
    }
}
parser_generator::parser! {
    fn g60() -> LR1Parser {
        token crate::par::Tok { T0 = of(90) }
        symbol crate::par::Nt { S0 = of(40) }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0]: x @ [_] => { let r = reduce(0, 40, x); r };
        <S0>::= ERROR: x => reduce(1, 40, x);
    }
}
parser_generator::parser! {
    pub fn g61() -> LR1Parser {
        token crate::par::Tok { "x" = of(5), "+" = of(2), }
        symbol crate::par::Nt { S0 = of(4), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+": x => reduce(0, 4, x);
        | ERROR "x": x @ [_, _] => reduce(1, 4, x);
    }
}
parser_generator::parser! {
    fn g62() -> LR1Parser {
        token crate::par::Tok { "==" = of(24), "x" = of(14), "+" = of(4), }
        symbol crate::par::Nt { S0 = of(90), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0> "x": x @ [_, _, _] => reduce(0, 90, x);
        | "==": x => { let r = reduce(1, 90, x); r };
        | ERROR: x @ [_] => reduce(2, 90, x);
    }
}
parser_generator::parser! {
    fn g63() -> LR1Parser {
        token crate::par::Tok { "==" = of(3), T1 = of(2), unused = of(900), "+" = of(1) }
        symbol crate::par::Nt { S0 = of(0), unused = of(901) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0> [T1]: x => { let r = reduce(0, 0, x); r };
        | "==": x @ [_] => reduce(1, 0, x);
        <S0>::= "+" ERROR [T1]: x => reduce(2, 0, x);
    }
}
parser_generator::parser! {
    pub fn g64() -> LR1Parser {
        token crate::par::Tok { "S0" = of(40), S0 = of(39), "S1" = of(38), S1 = of(37), "S2" = of(36), }
        symbol crate::par::Nt { S0 = of(1), S1 = of(2), S2 = of(3), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> "S0" <S1>: x @ [_, _, _] => reduce(0, 1, x);
        <S0>::= <S1>: x => reduce(1, 1, x);
        <S1>::= <S1> [S0] <S2>: x @ [_, _, _] => { let r = reduce(2, 2, x); r };
        | <S2>: x => reduce(3, 2, x);
        <S2>::= "S1" <S0> [S1]: x @ [_, _, _] => reduce(4, 3, x);
        <S2>::= "S2": x => { let r = reduce(5, 3, x); r };
        | "S1" ERROR [S1]: x @ [_, _, _] => reduce(6, 3, x);
    }
}
parser_generator::parser! {
    fn g65() -> LR1Parser {
        token crate::par::Tok { T0 = of(0), T1 = of(1), }
        symbol crate::par::Nt { S1 = of(5), S0 = of(2), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> [T0] <S0>: x => reduce(0, 2, x);
        | <S1>: x @ [_] => { let r = reduce(1, 2, x); r };
        <S1>::= [T1]: x => reduce(2, 5, x);
        | ERROR: x @ [_] => reduce(3, 5, x);
    }
}
parser_generator::parser! {
    fn g66() -> LR1Parser {
        token crate::par::Tok { "x" = of(12), "+" = of(5) }
        symbol crate::par::Nt { S2 = of(19), S1 = of(12), S0 = of(5) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x @ [_] => { let r = reduce(0, 5, x); r };
        <S1>::= <S1> <S2>: x => reduce(1, 12, x);
        | : x @ [] => reduce(2, 12, x);
        <S2>::= "+" "x": x => { let r = reduce(3, 19, x); r };
        | ERROR "x": x @ [_, _] => reduce(4, 19, x);
    }
}
parser_generator::parser! {
    pub fn g67() -> LR1Parser {
        token crate::par::Tok { "x" = of(87), unused = of(900), "==" = of(84), "+" = of(90), }
        symbol crate::par::Nt { S0 = of(40), unused = of(901), S2 = of(38), S1 = of(39), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x => reduce(0, 40, x);
        <S1>::= <S1> <S2>: x @ [_, _] => reduce(1, 39, x);
        <S1>::= : x => { let r = reduce(2, 39, x); r };
        <S2>::= "+" "==" "x": x @ [_, _, _] => reduce(3, 38, x);
        | "+" ERROR "x": x => reduce(4, 38, x);
        | ERROR "x": x @ [_, _] => { let r = reduce(5, 38, x); r };
    }
}
parser_generator::parser! {
    fn g68() -> LR1Parser {
        token crate::par::Tok { "+" = of(2), T1 = of(5), }
        symbol crate::par::Nt { S0 = of(4), S1 = of(14), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S0>: x @ [_, _] => reduce(0, 4, x);
        <S0>::= : x => { let r = reduce(1, 4, x); r };
        <S1>::= "+" [T1]: x @ [_, _] => reduce(2, 14, x);
        | ERROR [T1]: x => reduce(3, 14, x);
    }
}
parser_generator::parser! {
    fn g69() -> LR1Parser {
        token crate::par::Tok { S0 = of(14), "S0" = of(4), "S1" = of(24) }
        symbol crate::par::Nt { S0 = of(90) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "S0" ERROR [S0]: x => { let r = reduce(0, 90, x); r };
        | "S1": x @ [_] => reduce(1, 90, x);
    }
}
parser_generator::parser! {
    pub fn g70() -> LR1Parser {
        token crate::par::Tok { T1 = of(2), T0 = of(1), }
        symbol crate::par::Nt { S0 = of(0), }
        errortype crate::par::Er;
        start S0;
        <S0>::= ERROR [T0]: x @ [_, _] => reduce(0, 0, x);
        | [T1]: x => reduce(1, 0, x);
    }
}
parser_generator::parser! {
    fn g71() -> LR1Parser {
        token crate::par::Tok { "+" = of(40), unused = of(900), }
        symbol crate::par::Nt { unused = of(901), S0 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= ERROR <S0>: x => reduce(0, 1, x);
        | "+": x @ [_] => { let r = reduce(1, 1, x); r };
    }
}
parser_generator::parser! {
    fn g72() -> LR1Parser {
        token crate::par::Tok { "+" = of(0), "x" = of(1), "==" = of(2), "\"" = of(3) }
        symbol crate::par::Nt { S0 = of(2), S1 = of(5), S2 = of(8) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x @ [_] => { let r = reduce(0, 2, x); r };
        <S1>::= "+" <S2> "==": x => reduce(1, 5, x);
        | ERROR: x @ [_] => reduce(2, 5, x);
        <S2>::= "x": x => { let r = reduce(3, 8, x); r };
        | ERROR "\"": x @ [_, _] => reduce(4, 8, x);
    }
}
parser_generator::parser! {
    pub fn g73() -> LR1Parser {
        token crate::par::Tok { T1 = of(12), "+" = of(5), }
        symbol crate::par::Nt { S0 = of(5), S2 = of(19), S1 = of(12), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2>: x => reduce(0, 5, x);
        <S1>::= "+": x @ [_] => reduce(1, 12, x);
        | ERROR "+": x => { let r = reduce(2, 12, x); r };
        <S2>::= [T1]: x @ [_] => reduce(3, 19, x);
        <S2>::= ERROR [T1]: x => reduce(4, 19, x);
    }
}
parser_generator::parser! {
    fn g74() -> LR1Parser {
        token crate::par::Tok { S1 = of(81), "S1" = of(84), S0 = of(87), "S0" = of(90), }
        symbol crate::par::Nt { S1 = of(39), S0 = of(40), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "S0" <S1> [S0]: x @ [_, _, _] => reduce(0, 40, x);
        <S1>::= "S1" <S1>: x => { let r = reduce(1, 39, x); r };
        | [S1]: x @ [_] => reduce(2, 39, x);
        <S1>::= ERROR: x => reduce(3, 39, x);
    }
}
parser_generator::parser! {
    fn g75() -> LR1Parser {
        token crate::par::Tok { T2 = of(8), unused = of(900), T3 = of(11), T0 = of(2), T1 = of(5) }
        symbol crate::par::Nt { S0 = of(4), unused = of(901), S1 = of(14) }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0] <S1> [T1]: x => { let r = reduce(0, 4, x); r };
        | ERROR: x @ [_] => reduce(1, 4, x);
        <S1>::= [T2]: x => reduce(2, 14, x);
        | ERROR [T3]: x @ [_, _] => { let r = reduce(3, 14, x); r };
    }
}
parser_generator::parser! {
    pub fn g76() -> LR1Parser {
        token crate::par::Tok { "+" = of(4), "x" = of(14), }
        symbol crate::par::Nt { S0 = of(90), S1 = of(87), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> ERROR: x @ [_, _] => reduce(0, 90, x);
        <S0>::= "x": x => reduce(1, 90, x);
        <S1>::= "+": x @ [_] => { let r = reduce(2, 87, x); r };
    }
}
parser_generator::parser! {
    fn g77() -> LR1Parser {
        token crate::par::Tok { "x" = of(2), "+" = of(1), }
        symbol crate::par::Nt { S0 = of(0), S1 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> ERROR "x": x => reduce(0, 0, x);
        | "+": x @ [_] => { let r = reduce(1, 0, x); r };
        <S1>::= : x => reduce(2, 1, x);
    }
}
parser_generator::parser! {
    fn g78() -> LR1Parser {
        token crate::par::Tok { T3 = of(37), "==" = of(38), T1 = of(39), "+" = of(40) }
        symbol crate::par::Nt { S1 = of(2), S0 = of(1) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "+" [T1]: x @ [_, _, _] => { let r = reduce(0, 1, x); r };
        | "==": x => reduce(1, 1, x);
        <S1>::= : x @ [] => reduce(2, 2, x);
        <S1>::= ERROR [T3]: x => { let r = reduce(3, 2, x); r };
    }
}
parser_generator::parser! {
    pub fn g79() -> LR1Parser {
        token crate::par::Tok { "S0" = of(0), unused = of(900), S0 = of(1), }
        symbol crate::par::Nt { S0 = of(2), unused = of(901), S1 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> <S1> [S0]: x => reduce(0, 2, x);
        | : x @ [] => reduce(1, 2, x);
        <S1>::= "S0": x => { let r = reduce(2, 5, x); r };
        | ERROR: x @ [_] => reduce(3, 5, x);
    }
}
parser_generator::parser! {
    fn g80() -> LR1Parser {
        token crate::par::Tok { T0 = of(5), T1 = of(12), T2 = of(19), T3 = of(26), }
        symbol crate::par::Nt { S0 = of(5), S1 = of(12), S2 = of(19), }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0] <S1> [T3]: x @ [_, _, _] => reduce(0, 5, x);
        <S0>::= ERROR [T3]: x => { let r = reduce(1, 5, x); r };
        <S1>::= [T1] <S2>: x @ [_, _] => reduce(2, 12, x);
        | ERROR: x => reduce(3, 12, x);
        <S2>::= [T2]: x @ [_] => { let r = reduce(4, 19, x); r };
        <S2>::= ERROR [T0]: x => reduce(5, 19, x);
    }
}
parser_generator::parser! {
    fn g81() -> LR1Parser {
        token crate::par::Tok { "+" = of(90), "==" = of(84), "x" = of(87) }
        symbol crate::par::Nt { S0 = of(40) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" ERROR: x => { let r = reduce(0, 40, x); r };
        | "x" ERROR "==": x @ [_, _, _] => reduce(1, 40, x);
    }
}
parser_generator::parser! {
    pub fn g82() -> LR1Parser {
        token crate::par::Tok { "x" = of(5), "+" = of(2), }
        symbol crate::par::Nt { S0 = of(4), }
        errortype crate::par::Er;
        start S0;
        <S0>::= ERROR ERROR "+": x @ [_, _, _] => reduce(0, 4, x);
        | "x": x => reduce(1, 4, x);
    }
}
parser_generator::parser! {
    fn g83() -> LR1Parser {
        token crate::par::Tok { "==" = of(24), "+" = of(4), T1 = of(14), unused = of(900), }
        symbol crate::par::Nt { S1 = of(87), S0 = of(90), unused = of(901), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "==" <S0>: x => reduce(0, 90, x);
        | "+": x @ [_] => { let r = reduce(1, 90, x); r };
        <S1>::= ERROR [T1]: x => reduce(2, 87, x);
    }
}
parser_generator::parser! {
    fn g84() -> LR1Parser {
        token crate::par::Tok { "S0" = of(1), S0 = of(2) }
        symbol crate::par::Nt { S0 = of(0), S1 = of(1) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> [S0]: x @ [_, _] => { let r = reduce(0, 0, x); r };
        <S0>::= <S1> [S0] <S0>: x => reduce(1, 0, x);
        <S1>::= "S0": x @ [_] => reduce(2, 1, x);
        | ERROR: x => { let r = reduce(3, 1, x); r };
    }
}
parser_generator::parser! {
    pub fn g85() -> LR1Parser {
        token crate::par::Tok { T2 = of(38), T1 = of(39), T0 = of(40), }
        symbol crate::par::Nt { S2 = of(3), S0 = of(1), S1 = of(2), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> [T0] <S2>: x => reduce(0, 1, x);
        | <S1> ERROR <S2>: x @ [_, _, _] => reduce(1, 1, x);
        <S1>::= [T1]: x => { let r = reduce(2, 2, x); r };
        <S2>::= [T2]: x @ [_] => reduce(3, 3, x);
    }
}
parser_generator::parser! {
    fn g86() -> LR1Parser {
        token crate::par::Tok { "==" = of(2), "x" = of(1), "+" = of(0), }
        symbol crate::par::Nt { S0 = of(2), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S0>: x @ [_, _] => reduce(0, 2, x);
        | "x" <S0>: x => { let r = reduce(1, 2, x); r };
        | "==": x @ [_] => reduce(2, 2, x);
        <S0>::= ERROR "==": x => reduce(3, 2, x);
    }
}
parser_generator::parser! {
    fn g87() -> LR1Parser {
        token crate::par::Tok { unused = of(900), "==" = of(19), "x" = of(12), "+" = of(5) }
        symbol crate::par::Nt { S0 = of(5), S2 = of(19), unused = of(901), S1 = of(12) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "+" <S2>: x => { let r = reduce(0, 5, x); r };
        <S1>::= "x": x @ [_] => reduce(1, 12, x);
        <S1>::= ERROR: x => reduce(2, 12, x);
        <S2>::= "==": x @ [_] => { let r = reduce(3, 19, x); r };
        | ERROR: x => reduce(4, 19, x);
    }
}
parser_generator::parser! {
    pub fn g88() -> LR1Parser {
        token crate::par::Tok { "+" = of(90), T1 = of(87), "==" = of(84), T3 = of(81), "Y" = of(78), }
        symbol crate::par::Nt { S0 = of(40), S1 = of(39), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "+" <S0>: x @ [_, _, _] => reduce(0, 40, x);
        <S0>::= <S1>: x => reduce(1, 40, x);
        <S1>::= "Y": x @ [_] => { let r = reduce(2, 39, x); r };
        | "==" <S0> [T3]: x => reduce(3, 39, x);
        | "==" ERROR [T3]: x @ [_, _, _] => reduce(4, 39, x);
        <S1>::= ERROR: x => { let r = reduce(5, 39, x); r };
    }
}
parser_generator::parser! {
    fn g89() -> LR1Parser {
        token crate::par::Tok { "S3" = of(20), S1 = of(11), S0 = of(5), "S1" = of(8), "S0" = of(2), "S2" = of(14), S2 = of(17), }
        symbol crate::par::Nt { S0 = of(4), S2 = of(24), S1 = of(14), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> "S0" <S1>: x => reduce(0, 4, x);
        | <S0> [S0] <S1>: x @ [_, _, _] => { let r = reduce(1, 4, x); r };
        | <S1>: x => reduce(2, 4, x);
        <S1>::= <S1> "S1" <S2>: x @ [_, _, _] => reduce(3, 14, x);
        <S1>::= <S1> [S1] <S2>: x => { let r = reduce(4, 14, x); r };
        | <S2>: x @ [_] => reduce(5, 14, x);
        <S2>::= "S2" <S0> [S2]: x => reduce(6, 24, x);
        | "S3": x @ [_] => { let r = reduce(7, 24, x); r };
        <S2>::= [S0] <S2>: x => reduce(8, 24, x);
    }
}
parser_generator::parser! {
    fn g90() -> LR1Parser {
        token crate::par::Tok { T7 = of(74), T6 = of(64), T5 = of(54), T4 = of(44), T3 = of(34), T2 = of(24), T1 = of(14), T0 = of(4) }
        symbol crate::par::Nt { S5 = of(75), S4 = of(78), S3 = of(81), S2 = of(84), S1 = of(87), S0 = of(90) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x @ [_] => { let r = reduce(0, 90, x); r };
        | <S2>: x => reduce(1, 90, x);
        | [T0]: x @ [_] => reduce(2, 90, x);
        <S0>::= [T1]: x => { let r = reduce(3, 90, x); r };
        <S1>::= [T2] <S3> [T3]: x @ [_, _, _] => reduce(4, 87, x);
        | [T2] [T3]: x => reduce(5, 87, x);
        <S3>::= <S4>: x @ [_] => { let r = reduce(6, 81, x); r };
        <S3>::= <S3> [T4] <S4>: x => reduce(7, 81, x);
        <S4>::= [T0] [T5] <S0>: x @ [_, _, _] => reduce(8, 78, x);
        <S2>::= [T6] <S5> [T7]: x => { let r = reduce(9, 84, x); r };
        | [T6] [T7]: x @ [_, _] => reduce(10, 84, x);
        <S5>::= <S0>: x => reduce(11, 75, x);
        | <S5> [T4] <S0>: x @ [_, _, _] => { let r = reduce(12, 75, x); r };
    }
}
parser_generator::parser! {
    pub fn g91() -> LR1Parser {
        token crate::par::Tok { " " = of(9), "fn" = of(7), "x" = of(2), "あ" = of(8), "\"" = of(4), unused = of(900), "+" = of(1), "z" = of(10), "==" = of(3), "\\" = of(6), "Y" = of(5), }
        symbol crate::par::Nt { S0 = of(0), S2 = of(2), unused = of(901), S1 = of(1), S3 = of(3), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S0>: x => reduce(0, 0, x);
        | : x @ [] => reduce(1, 0, x);
        <S1>::= "+" "Y" <S2> "x": x => { let r = reduce(2, 1, x); r };
        | "==" <S2> "fn" <S0> "あ": x @ [_, _, _, _, _] => reduce(3, 1, x);
        | "==" <S2> "fn" <S0> "あ" "\"" "fn" <S0> "あ": x => reduce(4, 1, x);
        <S2>::= <S2> "\\" <S3>: x @ [_, _, _] => { let r = reduce(5, 2, x); r };
        <S2>::= <S3>: x => reduce(6, 2, x);
        <S3>::= "+": x @ [_] => reduce(7, 3, x);
        | " " <S2> "z": x => { let r = reduce(8, 3, x); r };
    }
}
parser_generator::parser! {
    fn g92() -> LR1Parser {
        token crate::par::Tok { "+" = of(40), "x" = of(39), "==" = of(38), "\"" = of(37), "Y" = of(36), }
        symbol crate::par::Nt { S0 = of(1), S1 = of(2), S2 = of(3), S3 = of(4), S4 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2> <S3> <S4> "Y": x @ [_, _, _, _, _] => reduce(0, 1, x);
        <S1>::= "+": x => { let r = reduce(1, 2, x); r };
        <S2>::= "x": x @ [_] => reduce(2, 3, x);
        | : x => reduce(3, 3, x);
        <S3>::= "==": x @ [_] => { let r = reduce(4, 4, x); r };
        <S3>::= : x => reduce(5, 4, x);
        <S4>::= "\"": x @ [_] => reduce(6, 5, x);
        | : x => { let r = reduce(7, 5, x); r };
    }
}
parser_generator::parser! {
    fn g93() -> LR1Parser {
        token crate::par::Tok { "Y" = of(4), "+" = of(0), T1 = of(1), T3 = of(3), "==" = of(2), T5 = of(5) }
        symbol crate::par::Nt { S4 = of(14), S0 = of(2), S1 = of(5), S2 = of(8), S3 = of(11), S5 = of(17) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2> <S3> <S4> <S5> [T5]: x => { let r = reduce(0, 2, x); r };
        <S1>::= "+": x @ [_] => reduce(1, 5, x);
        | : x => reduce(2, 5, x);
        <S2>::= [T1]: x @ [_] => { let r = reduce(3, 8, x); r };
        <S2>::= : x => reduce(4, 8, x);
        <S3>::= "==": x @ [_] => reduce(5, 11, x);
        | : x => { let r = reduce(6, 11, x); r };
        <S4>::= [T3]: x @ [_] => reduce(7, 14, x);
        <S4>::= : x => reduce(8, 14, x);
        <S5>::= "Y": x @ [_] => { let r = reduce(9, 17, x); r };
        | : x => reduce(10, 17, x);
    }
}
parser_generator::parser! {
    pub fn g94() -> LR1Parser {
        token crate::par::Tok { "S5" = of(75), S4 = of(68), "S4" = of(61), S3 = of(54), "S3" = of(47), S2 = of(40), "S2" = of(33), S1 = of(26), "S1" = of(19), S0 = of(12), "S0" = of(5), }
        symbol crate::par::Nt { S4 = of(33), S3 = of(26), S2 = of(19), S1 = of(12), S0 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2> "S1": x @ [_, _, _] => reduce(0, 5, x);
        <S1>::= "S0": x => reduce(1, 12, x);
        | [S0]: x @ [_] => { let r = reduce(2, 12, x); r };
        <S1>::= <S1> [S1]: x => reduce(3, 12, x);
        <S2>::= <S2> "S2" <S3>: x @ [_, _, _] => reduce(4, 19, x);
        | <S3>: x => { let r = reduce(5, 19, x); r };
        <S3>::= [S2]: x @ [_] => reduce(6, 26, x);
        <S3>::= <S3> "S3" <S4> [S3]: x => reduce(7, 26, x);
        | "S4" <S3> [S4]: x @ [_, _, _] => { let r = reduce(8, 26, x); r };
        <S4>::= "S5": x => reduce(9, 33, x);
        | : x @ [] => reduce(10, 33, x);
    }
}
parser_generator::parser! {
    fn g95() -> LR1Parser {
        token crate::par::Tok { T2 = of(84), T3 = of(81), T0 = of(90), T1 = of(87), T4 = of(78), unused = of(900), }
        symbol crate::par::Nt { S2 = of(38), S0 = of(40), S1 = of(39), unused = of(901), S3 = of(37), }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0] <S1> [T1] <S0>: x => reduce(0, 40, x);
        | <S2>: x @ [_] => { let r = reduce(1, 40, x); r };
        <S2>::= <S2> <S3>: x => reduce(2, 38, x);
        | <S3>: x @ [_] => reduce(3, 38, x);
        <S3>::= [T2]: x => { let r = reduce(4, 37, x); r };
        | [T3] <S0> [T4]: x @ [_, _, _] => reduce(5, 37, x);
        <S1>::= [T2] <S1>: x => reduce(6, 39, x);
        | [T2]: x @ [_] => { let r = reduce(7, 39, x); r };
    }
}
parser_generator::parser! {
    fn g96() -> LR1Parser {
        token crate::par::Tok { "+" = of(2), "x" = of(5), "==" = of(8), "\"" = of(11) }
        symbol crate::par::Nt { S0 = of(4), S1 = of(14), S2 = of(24) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> "x": x @ [_, _, _] => { let r = reduce(0, 4, x); r };
        <S1>::= <S1> <S2>: x => reduce(1, 14, x);
        | : x @ [] => reduce(2, 14, x);
        <S2>::= "==": x => { let r = reduce(3, 24, x); r };
        | <S0>: x @ [_] => reduce(4, 24, x);
        <S2>::= "\"" <S2>: x => reduce(5, 24, x);
    }
}
parser_generator::parser! {
    pub fn g97() -> LR1Parser {
        token crate::par::Tok { "+" = of(4), "==" = of(24), "\\" = of(54), "\"" = of(34), "Y" = of(44), "x" = of(14), }
        symbol crate::par::Nt { S1 = of(87), S2 = of(84), S3 = of(81), S0 = of(90), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> "Y": x => reduce(0, 90, x);
        | "+" <S2> "\\": x @ [_, _, _] => reduce(1, 90, x);
        | "x" <S1> "\\": x => { let r = reduce(2, 90, x); r };
        | "x" <S2> "Y": x @ [_, _, _] => reduce(3, 90, x);
        <S1>::= <S3> "\"" <S3>: x => reduce(4, 87, x);
        <S2>::= <S3> "\"" <S3>: x @ [_, _, _] => { let r = reduce(5, 84, x); r };
        <S3>::= "==": x => reduce(6, 81, x);
        | : x @ [] => reduce(7, 81, x);
    }
}
parser_generator::parser! {
    fn g98() -> LR1Parser {
        token crate::par::Tok { T3 = of(4), "==" = of(3), T1 = of(2), "+" = of(1), }
        symbol crate::par::Nt { S2 = of(2), S1 = of(1), S0 = of(0), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2>: x @ [_, _] => reduce(0, 0, x);
        | <S2> <S1>: x => { let r = reduce(1, 0, x); r };
        <S1>::= "+" <S1> [T1]: x @ [_, _, _] => reduce(2, 1, x);
        <S1>::= : x => reduce(3, 1, x);
        <S2>::= "==" <S2> [T3]: x @ [_, _, _] => { let r = reduce(4, 2, x); r };
        | "==": x => reduce(5, 2, x);
    }
}
parser_generator::parser! {
    fn g99() -> LR1Parser {
        token crate::par::Tok { S0 = of(39), "S0" = of(40), "S1" = of(38), unused = of(900), S1 = of(37) }
        symbol crate::par::Nt { S3 = of(4), unused = of(901), S0 = of(1), S2 = of(3), S4 = of(5), S1 = of(2) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2> <S3> <S4>: x => { let r = reduce(0, 1, x); r };
        <S1>::= "S0" <S1>: x @ [_, _] => reduce(1, 2, x);
        <S1>::= : x => reduce(2, 2, x);
        <S2>::= [S0] <S2>: x @ [_, _] => { let r = reduce(3, 3, x); r };
        | : x => reduce(4, 3, x);
        <S3>::= "S1" <S3>: x @ [_, _] => reduce(5, 4, x);
        <S3>::= : x => { let r = reduce(6, 4, x); r };
        <S4>::= [S1] <S4>: x @ [_, _] => reduce(7, 5, x);
        | : x => reduce(8, 5, x);
    }
}
parser_generator::parser! {
    pub fn g100() -> LR1Parser {
        token crate::par::Tok { T0 = of(0), T1 = of(1), T2 = of(2), T3 = of(3), T4 = of(4), T5 = of(5), T6 = of(6), }
        symbol crate::par::Nt { S0 = of(2), S1 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T0] <S1> [T1] <S0> [T2] <S0>: x @ [_, _, _, _, _, _] => reduce(0, 2, x);
        <S0>::= [T0] <S1> [T1] <S0>: x => reduce(1, 2, x);
        | [T3]: x @ [_] => { let r = reduce(2, 2, x); r };
        <S1>::= <S1> [T4] <S1>: x => reduce(3, 5, x);
        | <S1> [T5] <S1>: x @ [_, _, _] => reduce(4, 5, x);
        <S1>::= [T5] <S1>: x => { let r = reduce(5, 5, x); r };
        | [T6]: x @ [_] => reduce(6, 5, x);
    }
}
parser_generator::parser! {
    fn g101() -> LR1Parser {
        token crate::par::Tok { "==" = of(19), "\"" = of(26), "Y" = of(33), "\\" = of(40), "+" = of(5), "x" = of(12), }
        symbol crate::par::Nt { S0 = of(5), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> "+" <S0>: x => reduce(0, 5, x);
        | <S0> "x" <S0>: x @ [_, _, _] => { let r = reduce(1, 5, x); r };
        | <S0> "==" <S0>: x => reduce(2, 5, x);
        | "\"" <S0> "Y": x @ [_, _, _] => reduce(3, 5, x);
        <S0>::= "==" <S0>: x => { let r = reduce(4, 5, x); r };
        | "\\": x @ [_] => reduce(5, 5, x);
    }
}
parser_generator::parser! {
    fn g102() -> LR1Parser {
        token crate::par::Tok { "==" = of(84), "x" = of(87), "+" = of(90) }
        symbol crate::par::Nt { S3 = of(37), S2 = of(38), S1 = of(39), S0 = of(40) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x @ [_] => { let r = reduce(0, 40, x); r };
        | <S2>: x => reduce(1, 40, x);
        <S1>::= <S1> "+" <S3>: x @ [_, _, _] => reduce(2, 39, x);
        <S1>::= <S3>: x => { let r = reduce(3, 39, x); r };
        <S2>::= <S2> "+" <S3>: x @ [_, _, _] => reduce(4, 38, x);
        | <S3>: x => reduce(5, 38, x);
        <S3>::= "x": x @ [_] => { let r = reduce(6, 37, x); r };
        <S3>::= "==": x => reduce(7, 37, x);
    }
}
parser_generator::parser! {
    pub fn g103() -> LR1Parser {
        token crate::par::Tok { "==" = of(8), T1 = of(5), "+" = of(2), unused = of(900), }
        symbol crate::par::Nt { S3 = of(34), S0 = of(4), S2 = of(24), unused = of(901), S1 = of(14), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2> <S3> "+": x => reduce(0, 4, x);
        <S1>::= [T1]: x @ [_] => reduce(1, 14, x);
        <S1>::= : x => { let r = reduce(2, 14, x); r };
        <S2>::= [T1]: x @ [_] => reduce(3, 24, x);
        | "==": x => reduce(4, 24, x);
        | : x @ [] => { let r = reduce(5, 24, x); r };
        <S3>::= "==": x => reduce(6, 34, x);
        | [T1]: x @ [_] => reduce(7, 34, x);
    }
}
parser_generator::parser! {
    fn g104() -> LR1Parser {
        token crate::par::Tok { "S0" = of(4), S0 = of(14), "S1" = of(24), S1 = of(34), "S2" = of(44), S2 = of(54), "S3" = of(64), S3 = of(74), "S4" = of(84), S4 = of(94), }
        symbol crate::par::Nt { S0 = of(90), S1 = of(87), S2 = of(84), S3 = of(81), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S0> <S1>: x @ [_, _] => reduce(0, 90, x);
        <S0>::= : x => { let r = reduce(1, 90, x); r };
        <S1>::= "S0" "S2" <S2> [S0]: x @ [_, _, _, _] => reduce(2, 87, x);
        | "S0" ERROR [S0]: x => reduce(3, 87, x);
        | "S3" <S0> [S3]: x @ [_, _, _] => { let r = reduce(4, 87, x); r };
        <S1>::= ERROR [S3]: x => reduce(5, 87, x);
        <S2>::= <S2> [S2] <S3>: x @ [_, _, _] => reduce(6, 84, x);
        | <S3>: x => { let r = reduce(7, 84, x); r };
        <S3>::= "S0": x @ [_] => reduce(8, 81, x);
        <S3>::= "S4" <S2> [S4]: x => reduce(9, 81, x);
        | "S4" ERROR [S4]: x @ [_, _, _] => { let r = reduce(10, 81, x); r };
    }
}
parser_generator::parser! {
    fn g105() -> LR1Parser {
        token crate::par::Tok { T1 = of(2), T6 = of(7), T2 = of(3), T0 = of(1), T4 = of(5), T7 = of(8), T3 = of(4), T5 = of(6) }
        symbol crate::par::Nt { S3 = of(3), S4 = of(4), S5 = of(5), S0 = of(0), S2 = of(2), S1 = of(1) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1>: x => { let r = reduce(0, 0, x); r };
        | <S2>: x @ [_] => reduce(1, 0, x);
        | [T0]: x => reduce(2, 0, x);
        | [T1]: x @ [_] => { let r = reduce(3, 0, x); r };
        <S1>::= [T2] <S3> [T3]: x => reduce(4, 1, x);
        | [T2] [T3]: x @ [_, _] => reduce(5, 1, x);
        | [T2] ERROR [T3]: x => { let r = reduce(6, 1, x); r };
        <S3>::= <S4>: x @ [_] => reduce(7, 3, x);
        <S3>::= <S3> [T4] <S4>: x => reduce(8, 3, x);
        <S4>::= [T0] [T5] <S0>: x @ [_, _, _] => { let r = reduce(9, 4, x); r };
        <S2>::= [T6] <S5> [T7]: x => reduce(10, 2, x);
        | [T6] [T7]: x @ [_, _] => reduce(11, 2, x);
        <S2>::= [T6] ERROR [T7]: x => { let r = reduce(12, 2, x); r };
        <S5>::= <S0>: x @ [_] => reduce(13, 5, x);
        | <S5> [T4] <S0>: x => reduce(14, 5, x);
    }
}
parser_generator::parser! {
    pub fn g106() -> LR1Parser {
        token crate::par::Tok { "{" = of(30), "z" = of(31), " " = of(32), "あ" = of(33), "fn" = of(34), "\\" = of(35), "Y" = of(36), "\"" = of(37), "==" = of(38), "x" = of(39), "+" = of(40), }
        symbol crate::par::Nt { S3 = of(4), S2 = of(3), S1 = of(2), S0 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" " " <S1> "z": x @ [_, _, _, _] => reduce(0, 1, x);
        | "+" " " ERROR "z": x => reduce(1, 1, x);
        <S1>::= <S2>: x @ [_] => { let r = reduce(2, 2, x); r };
        <S1>::= : x => reduce(3, 2, x);
        <S2>::= <S3>: x @ [_] => reduce(4, 3, x);
        | <S2> "{" <S3>: x => { let r = reduce(5, 3, x); r };
        <S3>::= "+": x @ [_] => reduce(6, 4, x);
        <S3>::= <S0>: x => reduce(7, 4, x);
        | "x" ERROR "==": x @ [_, _, _] => { let r = reduce(8, 4, x); r };
    }
}
parser_generator::parser! {
    fn g107() -> LR1Parser {
        token crate::par::Tok { unused = of(900), "Y" = of(4), "x" = of(1), "\\" = of(5), "+" = of(0), "\"" = of(3), "==" = of(2), }
        symbol crate::par::Nt { S2 = of(8), S1 = of(5), unused = of(901), S0 = of(2), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "Y" <S0>: x => reduce(0, 2, x);
        | <S1>: x @ [_] => { let r = reduce(1, 2, x); r };
        <S1>::= "+" <S2> "x": x => reduce(2, 5, x);
        | "+" ERROR "x": x @ [_, _, _] => reduce(3, 5, x);
        | ERROR: x => { let r = reduce(4, 5, x); r };
        <S2>::= "==": x @ [_] => reduce(5, 8, x);
        <S2>::= <S2> "\"" "==": x => reduce(6, 8, x);
        | "\\" <S2> "\\": x @ [_, _, _] => { let r = reduce(7, 8, x); r };
    }
}
parser_generator::parser! {
    fn g108() -> LR1Parser {
        token crate::par::Tok { "+" = of(5), T1 = of(12), "==" = of(19), T3 = of(26), "Y" = of(33), T5 = of(40) }
        symbol crate::par::Nt { S0 = of(5), S1 = of(12), S2 = of(19), S3 = of(26) }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> [T1]: x @ [_, _, _] => { let r = reduce(0, 5, x); r };
        <S0>::= ERROR: x => reduce(1, 5, x);
        <S1>::= <S1> <S2>: x @ [_, _] => reduce(2, 12, x);
        | : x => { let r = reduce(3, 12, x); r };
        <S2>::= "==" <S3> [T3]: x @ [_, _, _] => reduce(4, 19, x);
        <S2>::= ERROR [T3]: x => reduce(5, 19, x);
        | "+" <S1> [T1]: x @ [_, _, _] => { let r = reduce(6, 19, x); r };
        <S3>::= "Y": x => reduce(7, 26, x);
        | <S3> [T5] "Y": x @ [_, _, _] => reduce(8, 26, x);
        <S3>::= ERROR: x => { let r = reduce(9, 26, x); r };
    }
}
parser_generator::parser! {
    pub fn g109() -> LR1Parser {
        token crate::par::Tok { "S0" = of(90), S0 = of(87), S1 = of(81), "S1" = of(84), S2 = of(75), "S2" = of(78), }
        symbol crate::par::Nt { S3 = of(37), S1 = of(39), S0 = of(40), S2 = of(38), }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> "S0" <S2> [S0] <S3> "S1": x => reduce(0, 40, x);
        <S1>::= [S1]: x @ [_] => reduce(1, 39, x);
        | ERROR [S1]: x => { let r = reduce(2, 39, x); r };
        <S2>::= "S2": x @ [_] => reduce(3, 38, x);
        <S2>::= : x => reduce(4, 38, x);
        <S3>::= [S2]: x @ [_] => { let r = reduce(5, 37, x); r };
        | ERROR: x => reduce(6, 37, x);
    }
}
parser_generator::parser! {
    fn g110() -> LR1Parser {
        token crate::par::Tok { T6 = of(20), T5 = of(17), T4 = of(14), T3 = of(11), T2 = of(8), T1 = of(5), T0 = of(2), }
        symbol crate::par::Nt { S6 = of(64), S5 = of(54), S4 = of(44), S3 = of(34), S2 = of(24), S1 = of(14), S0 = of(4), }
        errortype crate::par::Er;
        start S0;
        <S0>::= [T5] <S1>: x @ [_, _] => reduce(0, 4, x);
        | [T6] <S2>: x => { let r = reduce(1, 4, x); r };
        <S1>::= <S3>: x @ [_] => reduce(2, 14, x);
        <S1>::= <S4>: x => reduce(3, 14, x);
        <S2>::= <S3>: x @ [_] => { let r = reduce(4, 24, x); r };
        | <S5>: x => reduce(5, 24, x);
        <S3>::= [T0] ERROR <S6> [T1]: x @ [_, _, _, _] => reduce(6, 34, x);
        <S3>::= [T0] [T1]: x => { let r = reduce(7, 34, x); r };
        <S4>::= [T0] ERROR [T2]: x @ [_, _, _] => reduce(8, 44, x);
        | [T0] [T2]: x => reduce(9, 44, x);
        <S5>::= [T0] ERROR [T3]: x @ [_, _, _] => { let r = reduce(10, 54, x); r };
        <S5>::= [T0] [T3]: x => reduce(11, 54, x);
        <S6>::= [T6] <S2> [T4]: x @ [_, _, _] => reduce(12, 64, x);
        | [T4]: x => { let r = reduce(13, 64, x); r };
    }
}
parser_generator::parser! {
    fn g111() -> LR1Parser {
        token crate::par::Tok { "Y" = of(44), "+" = of(4), "x" = of(14), "==" = of(24), unused = of(900), "\"" = of(34) }
        symbol crate::par::Nt { S2 = of(84), S1 = of(87), S0 = of(90), unused = of(901) }
        errortype crate::par::Er;
        start S0;
        <S0>::= <S1> <S2>: x => { let r = reduce(0, 90, x); r };
        <S1>::= "+" "x": x @ [_, _] => reduce(1, 87, x);
        <S1>::= "+" ERROR "x": x => reduce(2, 87, x);
        | "+" ERROR "==": x @ [_, _, _] => { let r = reduce(3, 87, x); r };
        <S2>::= "\"" "Y": x => reduce(4, 84, x);
        | "\"" ERROR "Y": x @ [_, _, _] => reduce(5, 84, x);
    }
}
parser_generator::parser! {
    pub fn g112() -> LR1Parser {
        token crate::par::Tok { "+" = of(1), "x" = of(2), "==" = of(3), "\"" = of(4), "Y" = of(5), "\\" = of(6), }
        symbol crate::par::Nt { S0 = of(0), S1 = of(1), }
        errortype crate::par::Er;
        start S0;
        <S0>::= "+" <S1> "x": x @ [_, _, _] => reduce(0, 0, x);
        <S0>::= "==": x => reduce(1, 0, x);
        <S1>::= "\"" <S0> "Y": x @ [_, _, _] => { let r = reduce(2, 1, x); r };
        | ERROR "Y": x => reduce(3, 1, x);
        | <S0> "\\" <S0>: x @ [_, _, _] => reduce(4, 1, x);
        <S1>::= <S0> "\\" ERROR: x => { let r = reduce(5, 1, x); r };
    }
}
pub const ALL: &[(&str, &[&str], &[usize], &[usize], fn() -> crate::par::P)] = &[
    ("S=a", &[], &[0], &[1, 2], g0),
    ("S=", &[], &[1], &[40], g1),
    ("S=aS|b", &[], &[2], &[0, 1, 2], g2),
    ("S=Sa|b", &[], &[5], &[5, 12, 19], g3),
    ("S=Sa|", &[], &[40], &[90, 87], g4),
    ("S=aS|", &[], &[4], &[2, 5], g5),
    ("S=aSb|", &[], &[90], &[4, 14, 24], g6),
    ("S=aSa|b", &[], &[0], &[1, 2, 3], g7),
    ("S=SaT|T;T=TbF|F;F=cSd|e", &[], &[1, 2, 3], &[40, 39, 38, 37, 36, 35], g8),
    ("S=AB;A=a|;B=b|", &[], &[2, 5, 8], &[0, 1, 2], g9),
    ("S=AaBb;A=;B=", &[], &[5, 12, 19], &[5, 12, 19], g10),
    ("S=AaAb|BbBa;A=;B=", &[], &[40, 39, 38], &[90, 87, 84], g11),
    ("S=aAd|bBd|aBe|bAe;A=c;B=c", &[], &[4, 14, 24], &[2, 5, 8, 11, 14, 17], g12),
    ("S=CC;C=aC|b", &[], &[90, 87], &[4, 14, 24], g13),
    ("S=LaR|R;L=bR|c;R=L", &[], &[0, 1, 2], &[1, 2, 3, 4], g14),
    ("S=A;A=B;B=C;C=a|bAc", &[], &[1, 2, 3, 4], &[40, 39, 38, 37], g15),
    ("S=aT;T=bT|", &[], &[2, 5], &[0, 1, 2], g16),
    ("S=aTc;T=Tb|", &[], &[5, 12], &[5, 12, 19, 26], g17),
    ("S=aSbS|", &[], &[40], &[90, 87, 84], g18),
    ("S=ABC;A=a|;B=b|;C=c|", &[], &[4, 14, 24, 34], &[2, 5, 8, 11], g19),
    ("S=aB|bA;A=a|aS|bAA;B=b|bS|aBB;C=c", &[], &[90, 87, 84, 81], &[4, 14, 24, 34], g20),
    ("S=a;A=b;B=AS", &[], &[0, 1, 2], &[1, 2, 3], g21),
    ("S=A;A=aA|bA|c", &[], &[1, 2], &[40, 39, 38, 37], g22),
    ("S=cAd;A=ab|a", &[], &[2, 5], &[0, 1, 2, 3, 4], g23),
    ("S=TS|;T=aTb|c", &[], &[5, 12], &[5, 12, 19, 26], g24),
    ("S=aBC;B=b|;C=BcC|", &[], &[40, 39, 38], &[90, 87, 84, 81], g25),
    ("S=IaSeS|b;I=c", &[], &[4, 14], &[2, 5, 8, 11, 14, 17], g26),
    ("S=E;E=EaF|c;F=c|bEd", &[], &[90, 87, 84], &[4, 14, 24, 34, 44], g27),
    ("S=AA;A=aA|b", &[], &[0, 1], &[1, 2, 3], g28),
    ("S=XYa;X=b|;Y=dc|;Z=d", &[], &[1, 2, 3, 4], &[40, 39, 38, 37, 36], g29),
    ("S=aaa|aab|ab", &[], &[2], &[0, 1, 2], g30),
    ("S=aAb|aBc;A=a;B=a", &[], &[5, 12, 19], &[5, 12, 19, 26], g31),
    ("S=VcE|E;V=a|bE;E=V", &[], &[40, 39, 38], &[90, 87, 84, 81], g32),
    ("S=BA;A=aBA|;B=DC;C=bDC|;D=cSd|e", &[], &[4, 14, 24, 34, 44], &[2, 5, 8, 11, 14, 17], g33),
    ("S=aSS|b", &[], &[90], &[4, 14, 24], g34),
    ("S=SSa|b", &[], &[0], &[1, 2, 3], g35),
    ("S=Ab;A=AB|;B=a", &[], &[1, 2, 3], &[40, 39, 38], g36),
    ("S=Ta|aTb;T=c", &[], &[2, 5], &[0, 1, 2, 3], g37),
    ("S=aLa;L=b|Lcb", &[], &[5, 12], &[5, 12, 19, 26], g38),
    ("S=ABAB;A=a;B=|b", &[], &[40, 39, 38], &[90, 87, 84], g39),
    ("S=SaS|b", &[], &[4], &[2, 5, 8], g40),
    ("S=SaS|SbS|c", &[], &[90], &[4, 14, 24, 34], g41),
    ("S=aSeS|aS|b", &[], &[0], &[1, 2, 3, 4, 5, 6], g42),
    ("S=A|B;A=a;B=a", &[], &[1, 2, 3], &[40, 39], g43),
    ("S=A|B|C;A=a;B=a;C=a", &[], &[2, 5, 8, 11], &[0, 1], g44),
    ("S=AB;A=a|;B=a|", &[], &[5, 12, 19], &[5, 12], g45),
    ("S=aAb|aB;A=c;B=cb", &[], &[40, 39, 38], &[90, 87, 84, 81], g46),
    ("S=A|a;A=a", &[], &[4, 14], &[2, 5], g47),
    ("S=Aa|Ba;A=b;B=b", &[], &[90, 87, 84], &[4, 14, 24], g48),
    ("S=Ba|Aa;A=b;B=b", &[], &[0, 1, 2], &[1, 2, 3], g49),
    ("S=SS|a", &[], &[1], &[40, 39], g50),
    ("S=aSa|bSb|", &[], &[2], &[0, 1, 2], g51),
    ("S=S|a", &[], &[5], &[5, 12], g52),
    ("S=A;A=S|a", &[], &[40, 39], &[90, 87], g53),
    ("S=aS|aSb|c", &[], &[4], &[2, 5, 8, 11], g54),
    ("S=A|aB;A=a;B=|b", &[], &[90, 87, 84], &[4, 14, 24], g55),
    ("S=XaX|b;X=S|c", &[], &[0, 1], &[1, 2, 3, 4], g56),
    ("S=Ac|Bc|d;A=aA|;B=aB|", &[], &[1, 2, 3], &[40, 39, 38, 37, 36], g57),
    ("S=AAa;A=b|", &[], &[2, 5], &[0, 1, 2], g58),
    ("S=aA|aB;A=b;B=bc|b", &[], &[5, 12, 19], &[5, 12, 19, 26], g59),
    ("S=a|!", &[], &[40], &[90, 87], g60),
    ("S=a|!b", &[], &[4], &[2, 5, 8], g61),
    ("S=aSb|c|!", &[], &[90], &[4, 14, 24, 34], g62),
    ("S=aSb|c|a!b", &[], &[0], &[1, 2, 3, 4], g63),
    ("S=SaT|T;T=TbF|F;F=cSd|e|c!d", &[], &[1, 2, 3], &[40, 39, 38, 37, 36, 35], g64),
    ("S=TaS|T;T=b|!", &[], &[2, 5], &[0, 1, 2], g65),
    ("S=L;L=LI|;I=ab|!b", &[], &[5, 12, 19], &[5, 12, 19], g66),
    ("S=L;L=LI|;I=acb|a!b|!b", &[], &[40, 39, 38], &[90, 87, 84, 81], g67),
    ("S=IS|;I=ab|!b", &[], &[4, 14], &[2, 5, 8], g68),
    ("S=a!b|c", &[], &[90], &[4, 14, 24, 34], g69),
    ("S=!a|b", &[], &[0], &[1, 2, 3], g70),
    ("S=!S|a", &[], &[1], &[40, 39], g71),
    ("S=A;A=aBc|!;B=b|!d", &[], &[2, 5, 8], &[0, 1, 2, 3, 4], g72),
    ("S=AB;A=a|!a;B=b|!b", &[], &[5, 12, 19], &[5, 12, 19], g73),
    ("S=aAb;A=cA|d|!", &[], &[40, 39], &[90, 87, 84, 81, 78], g74),
    ("S=aAb|!;A=c|!d", &[], &[4, 14], &[2, 5, 8, 11, 14], g75),
    ("S=A!|b;A=a", &[], &[90, 87], &[4, 14, 24], g76),
    ("S=A!b|a;A=", &[], &[0, 1], &[1, 2, 3], g77),
    ("S=Aab|c;A=|!d", &[], &[1, 2], &[40, 39, 38, 37, 36], g78),
    ("S=SIb|;I=a|!", &[], &[2, 5], &[0, 1, 2], g79),
    ("S=aBd|!d;B=bC|!;C=c|!a", &[], &[5, 12, 19], &[5, 12, 19, 26, 33], g80),
    ("S=a!|b!c", &[], &[40], &[90, 87, 84, 81], g81),
    ("S=!!a|b", &[], &[4], &[2, 5, 8], g82),
    ("S=AcS|a;A=!b", &[], &[90, 87], &[4, 14, 24, 34], g83),
    ("S=Tb|TbS;T=a|!", &[], &[0, 1], &[1, 2, 3], g84),
    ("S=PaQ|P!Q;P=b;Q=c", &[], &[1, 2, 3], &[40, 39, 38, 37], g85),
    ("S=aS|bS|c|!c", &[], &[2], &[0, 1, 2, 3], g86),
    ("S=XaY;X=b|!;Y=c|!", &[], &[5, 12, 19], &[5, 12, 19, 26], g87),
    ("S=FaS|F;F=e|cSd|c!d|!", &[], &[40, 39], &[90, 87, 84, 81, 78, 75], g88),
    ("S=SaT|SbT|T;T=TcF|TdF|F;F=eSf|g|bF", &["", "gag", "egcg", "eegaf", "gcbgb"], &[4, 14, 24], &[2, 5, 8, 11, 14, 17, 20, 23], g89),
    ("V=O|R|a|b;O=cMd|cd;M=P|MeP;P=afV;R=gEh|gh;E=V|EeV", &["", "caf", "gbe", "cafbea", "gcdegh"], &[90, 87, 84, 81, 78, 75], &[4, 14, 24, 34, 44, 54, 64, 74, 84], g90),
    ("P=SP|;S=aeEb|cEgPh|cEgPhdgPh;E=EfT|T;T=a|iEj", &["", "aea", "cagaeab", "caghdg", "aeiafa"], &[0, 1, 2, 3], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], g91),
    ("S=AXYZe;A=a;X=b|;Y=c|;Z=d|", &["", "a", "ab"], &[1, 2, 3, 4, 5], &[40, 39, 38, 37, 36, 35], g92),
    ("S=ABCDEf;A=a|;B=b|;C=c|;D=d|;E=e|", &["", "bd"], &[2, 5, 8, 11, 14, 17], &[0, 1, 2, 3, 4, 5, 6], g93),
    ("D=TLc;T=a|b|Td;L=LeI|I;I=f|IgNh|iIj;N=k|", &["", "adi", "afg", "bdfeif"], &[5, 12, 19, 26, 33], &[5, 12, 19, 26, 33, 40, 47, 54, 61, 68, 75, 82], g94),
    ("E=aVbE|A;A=AF|F;F=c|dEe;V=cV|c", &["", "accb", "cdcc", "dacbc"], &[40, 39, 38, 37], &[90, 87, 84, 81, 78, 75], g95),
    ("L=aIb;I=IX|;X=c|L|dX", &["", "aca", "adda", "aabcd"], &[4, 14, 24], &[2, 5, 8, 11, 14], g96),
    ("S=aBe|aCf|bBf|bCe;B=DdD;C=DdD;D=c|", &["", "acd", "bd"], &[90, 87, 84, 81], &[4, 14, 24, 34, 44, 54, 64], g97),
    ("S=AB|BA;A=aAb|;B=cBd|c", &["", "aab", "ccd"], &[0, 1, 2], &[1, 2, 3, 4, 5], g98),
    ("S=XYZW;X=aX|;Y=bY|;Z=cZ|;W=dW|", &["", "abb", "ac"], &[1, 2, 3, 4, 5], &[40, 39, 38, 37, 36], g99),
    ("S=aEbScS|aEbS|d;E=EeE|EfE|fE|g", &["", "agb", "aagb", "agegf", "agbagbdc"], &[2, 5], &[0, 1, 2, 3, 4, 5, 6, 7], g100),
    ("E=EaE|EbE|EcE|dEe|cE|f", &["", "faf", "dfbcf", "cfcf"], &[5], &[5, 12, 19, 26, 33, 40, 47], g101),
    ("S=T|F;T=TaN|N;F=FaN|N;N=b|c", &["", "bac"], &[40, 39, 38, 37], &[90, 87, 84, 81], g102),
    ("S=ABCa;A=b|;B=b|c|;C=c|b", &["", "b"], &[4, 14, 24, 34], &[2, 5, 8, 11], g103),
    ("P=PS|;S=aeEb|a!b|gPh|!h;E=EfT|T;T=a|iEj|i!j", &["", "aea", "gaeab", "aeia", "gga", "aeib"], &[90, 87, 84, 81], &[4, 14, 24, 34, 44, 54, 64, 74, 84, 94, 104], g104),
    ("V=O|R|a|b;O=cMd|cd|c!d;M=P|MeP;P=afV;R=gEh|gh|g!h;E=V|EeV", &["", "caf", "gbe", "cag", "gcbg", "gcafbed"], &[0, 1, 2, 3, 4, 5], &[1, 2, 3, 4, 5, 6, 7, 8, 9], g105),
    ("C=aiAj|ai!j;A=B|;B=E|BkE;E=a|C|b!c", &["", "ai", "aib", "aiaiak", "aiakk"], &[1, 2, 3, 4], &[40, 39, 38, 37, 36, 35, 34, 33, 32, 31, 30, 29], g106),
    ("S=LeS|L;L=aEb|a!b|!;E=c|Edc|fEf", &["", "acb", "ac", "afc"], &[2, 5, 8], &[0, 1, 2, 3, 4, 5, 6], g107),
    ("F=aBb|!;B=BX|;X=cYd|!d|aBb;Y=e|Yfe|!", &["", "ac", "acef", "aacb", "aacfd"], &[5, 12, 19, 26], &[5, 12, 19, 26, 33, 40, 47], g108),
    ("S=AaBbCc;A=d|!d;B=e|;C=f|!", &["", "d", "da", "dae"], &[40, 39, 38, 37], &[90, 87, 84, 81, 78, 75, 72], g109),
    ("S=fM|gK;M=X|Y;K=X|Z;X=a!Ub|ab;Y=a!c|ac;Z=a!d|ad;U=gKe|e", &["", "faf", "fagag", "gab"], &[4, 14, 24, 34, 44, 54, 64], &[2, 5, 8, 11, 14, 17, 20, 23], g110),
    ("S=IJ;I=ab|a!b|a!c;J=de|d!e", &["", "aab", "abdd", "aacd"], &[90, 87, 84], &[4, 14, 24, 34, 44, 54], g111),
    ("T=aUb|c;U=dTe|!e|TfT|Tf!", &["", "ad", "acf", "adcc", "adaf"], &[0, 1], &[1, 2, 3, 4, 5, 6, 7], g112),
];
