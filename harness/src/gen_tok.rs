// generated by tools/gen_macros.py
use crate::tok::Tk;

tokenizer_generator::tokenizer! {
    fn s0() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[a-zA-Z_][a-zA-Z0-9_]*": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "0([xX][0-9a-fA-F]+|[dD][0-9]+|[oO][0-7]+|[bB][01]+)|[1-9][0-9]*|0": make::<1>;
        ".|\n": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s1() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "if": make::<0>;
        "int": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "[a-z]+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
        "[0-9]+": |s, items| Tk { pat: 3, text: s.to_string(), items };
        "==": |s, items| Tk { pat: 4, text: s.to_string(), items };
        "=": make::<5>;
        " +": |s, items| Tk { pat: 6, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s2() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[a-z]+": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "if": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "else": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s3() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "\"([^\"\\\\]|\\\\.)*\"": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "[^\"]": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "\"": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s4() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "/\\*([^*]|\\*+[^*/])*\\*+/": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "/": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "\\*": make::<2>;
        "[a-z]+": |s, items| Tk { pat: 3, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s5() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "([0-9]+|[0-9]+\\.[0-9]*|[0-9]*\\.[0-9]+)([eE][\\+\\-]?[0-9]+)?": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "\\+": make::<1>;
        "\\-": |s, items| Tk { pat: 2, text: s.to_string(), items };
        "\\.": |s, items| Tk { pat: 3, text: s.to_string(), items };
        "[a-z]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 4, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn s6() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "<": make::<0>;
        "<=": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "<<": |s, items| Tk { pat: 2, text: s.to_string(), items };
        "<<=": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 3, text, items } };
        ">": |s, items| Tk { pat: 4, text: s.to_string(), items };
        ">=": make::<5>;
        "=": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 6, text, items } };
        "==": |s, items| Tk { pat: 7, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s7() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "ab*c": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "b": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
        "bb": |s, items| Tk { pat: 3, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s8() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a(bcd)*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[a-d]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "bcda": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s9() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a[0-5]|b[0-9]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "[a-b]": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "[0-9]": make::<2>;
    }
}
tokenizer_generator::tokenizer! {
    fn s10() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[α-ωa-z]+": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[あ-ん]+": make::<1>;
        "[\\x{4E00}-\\x{9FFF}]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
        ".|\n": |s, items| Tk { pat: 3, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s11() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "\\x{10FFFF}": make::<0>;
        "[\\x{10000}-\\x{10FFFF}]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "[\\x{E000}-\\x{FFFF}]": |s, items| Tk { pat: 2, text: s.to_string(), items };
        "\\x{0}": |s, items| Tk { pat: 3, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s12() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[^a-z]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "[^0-9]+x": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s13() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "é": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[à-ü]": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "\\x{7F}|\\x{80}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
        "[\\x{7FF}-\\x{800}]+": make::<3>;
    }
}
tokenizer_generator::tokenizer! {
    fn s14() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{3}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a{5,}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "a": make::<2>;
        "b{2,4}": |s, items| Tk { pat: 3, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s15() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(a|b)*abb": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "a": make::<1>;
        "b": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s16() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(a?b?)*c": make::<0>;
        "a+b": |s, items| Tk { pat: 1, text: s.to_string(), items };
        ".": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s17() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "((a|bc)+d){2}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[a-d]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn s18() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "b": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "c": |s, items| Tk { pat: 2, text: s.to_string(), items };
        "d": make::<3>;
        "e": |s, items| Tk { pat: 4, text: s.to_string(), items };
        "f": |s, items| Tk { pat: 5, text: s.to_string(), items };
        "g": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 6, text, items } };
        "h": |s, items| Tk { pat: 7, text: s.to_string(), items };
        "i": make::<8>;
        "j": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 9, text, items } };
        "k": |s, items| Tk { pat: 10, text: s.to_string(), items };
        "l": |s, items| Tk { pat: 11, text: s.to_string(), items };
        "[a-p]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 12, text, items } };
        "[m-z]+": make::<13>
    }
}
tokenizer_generator::tokenizer! {
    pub fn s19() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "for": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "foreach": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "fore": make::<2>;
        "[a-z]": |s, items| Tk { pat: 3, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s20() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "--": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "-->": make::<1>;
        "-": |s, items| Tk { pat: 2, text: s.to_string(), items };
        "<!--": |s, items| Tk { pat: 3, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s21() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(a{2}){2}b?": make::<0>;
        "(ab?){1,3}": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "b{0,2}c": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s22() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "x*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "y?z": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "(xy)*": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s23() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(?:ab|a)(?P<n>c|bcd)": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "d": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "b": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s24() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[ab]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "a": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "b": make::<2>;
        "c": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 3, text, items } };
        "[c-d]": |s, items| Tk { pat: 4, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s25() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[a-z]+": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "if": make::<1>;
        "else": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
        "while": |s, items| Tk { pat: 3, text: s.to_string(), items };
        "[0-9]+": |s, items| Tk { pat: 4, text: s.to_string(), items };
        "let": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 5, text, items } };
        "x1": make::<6>;
    }
}
tokenizer_generator::tokenizer! {
    fn s26() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "\\+": make::<0>;
        "-": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "\\*": |s, items| Tk { pat: 2, text: s.to_string(), items };
        "/": |s, items| Tk { pat: 3, text: s.to_string(), items };
        "=": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 4, text, items } };
        "==": make::<5>;
        "!=": |s, items| Tk { pat: 6, text: s.to_string(), items };
        "<": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 7, text, items } };
        ">": |s, items| Tk { pat: 8, text: s.to_string(), items };
        "<=": |s, items| Tk { pat: 9, text: s.to_string(), items };
        ">=": make::<10>;
        "&&": |s, items| Tk { pat: 11, text: s.to_string(), items };
        "\\|\\|": |s, items| Tk { pat: 12, text: s.to_string(), items };
        "!": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 13, text, items } };
        "\\(": |s, items| Tk { pat: 14, text: s.to_string(), items };
        "\\)": make::<15>;
        ";": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 16, text, items } };
        "&": |s, items| Tk { pat: 17, text: s.to_string(), items };
        "=>": |s, items| Tk { pat: 18, text: s.to_string(), items };
        "\\?": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 19, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s27() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "abcabcabd": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "abc": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "[a-d]": |s, items| Tk { pat: 2, text: s.to_string(), items };
        "bcabca": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 3, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn s28() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{12}b|a{10}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a{11}c": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "a": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s29() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[iI][fF]": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[a-z]+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "[A-Z]+": make::<2>;
        ".|é": |s, items| Tk { pat: 3, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn s30() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[0-9]+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "[+-]?[0-9]+\\.[0-9]*": make::<1>;
        "[ \t\n]+": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn s31() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[0-9]+(\\.[0-9]+){3}": make::<0>;
        "[0-9]+": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "\\.": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn s32() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "--[^\n]*\n": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "-+>?": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "[^-\n]+": |s, items| Tk { pat: 2, text: s.to_string(), items };
        "\n": |s, items| Tk { pat: 3, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p5() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a": make::<1>;
    }
}
tokenizer_generator::tokenizer! {
    fn p42() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a|b": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "b": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p79() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[^a]": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "ab": |s, items| Tk { pat: 1, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn p116() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "b?a": make::<0>;
        "aa": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p153() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "aa": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "a*": |s, items| Tk { pat: 1, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn p190() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[b-d]+": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a+": make::<1>
    }
}
tokenizer_generator::tokenizer! {
    pub fn p227() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(ab)+": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "b+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn p264() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{1,2}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "[ab]": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p301() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "b": make::<0>;
        "[b-d]+": |s, items| Tk { pat: 1, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn p338() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[ab]": |s, items| Tk { pat: 0, text: s.to_string(), items };
        ".": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p375() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "ab?": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "a|b": make::<1>;
    }
}
tokenizer_generator::tokenizer! {
    fn p412() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        ".b": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a|bc": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p449() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "ca*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "abc": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn p486() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a+": make::<0>;
        "ab*": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p523() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a|bc": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "(ab)+": |s, items| Tk { pat: 1, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn p560() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[^b]*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "(ab)*c": make::<1>
    }
}
tokenizer_generator::tokenizer! {
    pub fn p597() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "c": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "[^a]": |s, items| Tk { pat: 1, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn p634() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "ba": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a.": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p671() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        ".": make::<0>;
        ".b": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn p708() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(ab)*c": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "a{2}": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p745() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{2,}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a{1,2}": make::<1>;
    }
}
tokenizer_generator::tokenizer! {
    fn p782() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "ab": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "b?a": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p819() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[a-c]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "c": |s, items| Tk { pat: 1, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn p856() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "ab*": make::<0>;
        "(a|b)*c": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p893() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{2}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "ca*": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn p30() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "b": make::<1>
    }
}
tokenizer_generator::tokenizer! {
    pub fn p67() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "b+": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "ab": |s, items| Tk { pat: 1, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn p104() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "abc": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "aa": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn p141() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a.": make::<0>;
        "ba": |s, items| Tk { pat: 1, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn p178() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(a|b)*c": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a*": |s, items| Tk { pat: 1, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t17() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(ab)+": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "aa": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "(ab)+": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn t348() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(ab)*c": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "a.": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "ca*": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t679() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[^a]": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[ab]": |s, items| Tk { pat: 1, text: s.to_string(), items };
        ".": make::<2>;
    }
}
tokenizer_generator::tokenizer! {
    fn t1010() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[^b]*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a{2,}": make::<1>;
        "a{2}": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t1341() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a.": make::<0>;
        "a|b": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "a*": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn t1672() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        ".b": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "(ab)+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t2003() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{2}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "(ab)+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "ca*": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn t2334() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{1,2}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "ba": |s, items| Tk { pat: 1, text: s.to_string(), items };
        ".": make::<2>
    }
}
tokenizer_generator::tokenizer! {
    pub fn t2665() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{2,}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a.": make::<1>;
        "a{2}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn t2996() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "b?a": make::<0>;
        "[a-c]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "a*": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t3327() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "c": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "b?a": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "(ab)+": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn t3658() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(a|b)*c": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a|bc": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "ca*": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t3989() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "ca*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        ".": make::<2>;
    }
}
tokenizer_generator::tokenizer! {
    fn t320() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "[^b]*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "abc": make::<1>;
        "a": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t651() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a.": make::<0>;
        "b": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "a|b": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn t982() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        ".b": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[^a]": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "a{1,2}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t1313() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{2}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "a+": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn t1644() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{1,2}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "a{2}": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "(ab)*c": make::<2>
    }
}
tokenizer_generator::tokenizer! {
    pub fn t1975() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{2,}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[b-d]+": make::<1>;
        "a": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn t2306() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "b?a": make::<0>;
        "(a|b)*c": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "a|b": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t2637() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "c": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "ab?": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "a{1,2}": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn t2968() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "(a|b)*c": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "ab": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "a+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t3299() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "ca*": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[^a]": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "(ab)*c": make::<2>;
    }
}
tokenizer_generator::tokenizer! {
    fn t3630() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "b+": make::<1>;
        "b": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t3961() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "b": make::<0>;
        "a{1,2}": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "a|bc": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn t292() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        ".b": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "[ab]": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "b": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } }
    }
}
tokenizer_generator::tokenizer! {
    pub fn t623() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{2}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "a{2,}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "a|bc": |s, items| Tk { pat: 2, text: s.to_string(), items };
    }
}
tokenizer_generator::tokenizer! {
    fn t954() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{1,2}": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 0, text, items } };
        "a|b": |s, items| Tk { pat: 1, text: s.to_string(), items };
        "a{2,}": make::<2>
    }
}
tokenizer_generator::tokenizer! {
    pub fn t1285() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "a{2,}": |s, items| Tk { pat: 0, text: s.to_string(), items };
        "ca*": make::<1>;
        "b+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 2, text, items } };
    }
}
tokenizer_generator::tokenizer! {
    fn t1616() -> DFATokenizer {
        character (u32, usize);
        token crate::tok::Tk;
        "b?a": make::<0>;
        "(ab)+": |s: &str, items: Vec<(u32, usize)>| { let text = String::from(s); Tk { pat: 1, text, items } };
        "[^a]": |s, items| Tk { pat: 2, text: s.to_string(), items }
    }
}
fn make<const N: usize>(s: &str, items: Vec<(u32, usize)>) -> Tk {
    Tk { pat: N, text: s.to_string(), items }
}
pub type T = tokenizer::DFATokenizer<Tk, (u32, usize)>;
/// family and number as in tok::case
pub const ALL: &[(u32, usize, fn() -> T)] = &[
    (3, 0, s0),
    (3, 1, s1),
    (3, 2, s2),
    (3, 3, s3),
    (3, 4, s4),
    (3, 5, s5),
    (3, 6, s6),
    (3, 7, s7),
    (3, 8, s8),
    (3, 9, s9),
    (3, 10, s10),
    (3, 11, s11),
    (3, 12, s12),
    (3, 13, s13),
    (3, 14, s14),
    (3, 15, s15),
    (3, 16, s16),
    (3, 17, s17),
    (3, 18, s18),
    (3, 19, s19),
    (3, 20, s20),
    (3, 21, s21),
    (3, 22, s22),
    (3, 23, s23),
    (3, 24, s24),
    (3, 25, s25),
    (3, 26, s26),
    (3, 27, s27),
    (3, 28, s28),
    (3, 29, s29),
    (3, 30, s30),
    (3, 31, s31),
    (3, 32, s32),
    (1, 5, p5),
    (1, 42, p42),
    (1, 79, p79),
    (1, 116, p116),
    (1, 153, p153),
    (1, 190, p190),
    (1, 227, p227),
    (1, 264, p264),
    (1, 301, p301),
    (1, 338, p338),
    (1, 375, p375),
    (1, 412, p412),
    (1, 449, p449),
    (1, 486, p486),
    (1, 523, p523),
    (1, 560, p560),
    (1, 597, p597),
    (1, 634, p634),
    (1, 671, p671),
    (1, 708, p708),
    (1, 745, p745),
    (1, 782, p782),
    (1, 819, p819),
    (1, 856, p856),
    (1, 893, p893),
    (1, 30, p30),
    (1, 67, p67),
    (1, 104, p104),
    (1, 141, p141),
    (1, 178, p178),
    (2, 17, t17),
    (2, 348, t348),
    (2, 679, t679),
    (2, 1010, t1010),
    (2, 1341, t1341),
    (2, 1672, t1672),
    (2, 2003, t2003),
    (2, 2334, t2334),
    (2, 2665, t2665),
    (2, 2996, t2996),
    (2, 3327, t3327),
    (2, 3658, t3658),
    (2, 3989, t3989),
    (2, 320, t320),
    (2, 651, t651),
    (2, 982, t982),
    (2, 1313, t1313),
    (2, 1644, t1644),
    (2, 1975, t1975),
    (2, 2306, t2306),
    (2, 2637, t2637),
    (2, 2968, t2968),
    (2, 3299, t3299),
    (2, 3630, t3630),
    (2, 3961, t3961),
    (2, 292, t292),
    (2, 623, t623),
    (2, 954, t954),
    (2, 1285, t1285),
    (2, 1616, t1616),
];
