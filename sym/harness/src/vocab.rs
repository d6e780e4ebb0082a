// generated by tools/gen_vocab.py; do not edit
use ress::refs::tokens::{Comment, Number, RefToken, StringLit, Template};
use ress::{Keyword, Punct};

pub const EOF: u8 = 0;
pub const P_OPENBRACE: u8 = 1;
pub const P_CLOSEBRACE: u8 = 2;
pub const P_OPENPAREN: u8 = 3;
pub const P_CLOSEPAREN: u8 = 4;
pub const P_PERIOD: u8 = 5;
pub const P_SEMICOLON: u8 = 6;
pub const P_COMMA: u8 = 7;
pub const P_OPENBRACKET: u8 = 8;
pub const P_CLOSEBRACKET: u8 = 9;
pub const P_COLON: u8 = 10;
pub const P_QUESTIONMARK: u8 = 11;
pub const P_BITWISENOT: u8 = 12;
pub const P_GREATERTHAN: u8 = 13;
pub const P_LESSTHAN: u8 = 14;
pub const P_ASSIGN: u8 = 15;
pub const P_NOT: u8 = 16;
pub const P_PLUS: u8 = 17;
pub const P_MINUS: u8 = 18;
pub const P_ASTERISK: u8 = 19;
pub const P_MODULO: u8 = 20;
pub const P_PIPE: u8 = 21;
pub const P_AND: u8 = 22;
pub const P_CARET: u8 = 23;
pub const P_FORWARDSLASH: u8 = 24;
pub const P_UNSIGNEDRIGHTSHIFTASSIGN: u8 = 25;
pub const P_SPREAD: u8 = 26;
pub const P_STRICTEQUALS: u8 = 27;
pub const P_STRICTNOTEQUALS: u8 = 28;
pub const P_UNSIGNEDRIGHTSHIFT: u8 = 29;
pub const P_LEFTSHIFTASSIGN: u8 = 30;
pub const P_RIGHTSHIFTASSIGN: u8 = 31;
pub const P_EXPONENTASSIGN: u8 = 32;
pub const P_LOGICALAND: u8 = 33;
pub const P_LOGICALOR: u8 = 34;
pub const P_EQUAL: u8 = 35;
pub const P_NOTEQUAL: u8 = 36;
pub const P_ADDASSIGN: u8 = 37;
pub const P_SUBTRACTASSIGN: u8 = 38;
pub const P_MULTIPLYASSIGN: u8 = 39;
pub const P_DIVIDEASSIGN: u8 = 40;
pub const P_INCREMENT: u8 = 41;
pub const P_DECREMENT: u8 = 42;
pub const P_LEFTSHIFT: u8 = 43;
pub const P_RIGHTSHIFT: u8 = 44;
pub const P_BITWISEANDASSIGN: u8 = 45;
pub const P_BITWISEORASSIGN: u8 = 46;
pub const P_BITWISEXORASSIGN: u8 = 47;
pub const P_MODULOASSIGN: u8 = 48;
pub const P_FATARROW: u8 = 49;
pub const P_GREATERTHANEQUAL: u8 = 50;
pub const P_LESSTHANEQUAL: u8 = 51;
pub const P_EXPONENT: u8 = 52;
pub const K_AWAIT: u8 = 53;
pub const K_BREAK: u8 = 54;
pub const K_CASE: u8 = 55;
pub const K_CATCH: u8 = 56;
pub const K_CLASS: u8 = 57;
pub const K_CONST: u8 = 58;
pub const K_CONTINUE: u8 = 59;
pub const K_DEBUGGER: u8 = 60;
pub const K_DEFAULT: u8 = 61;
pub const K_DELETE: u8 = 62;
pub const K_DO: u8 = 63;
pub const K_ELSE: u8 = 64;
pub const K_ENUM: u8 = 65;
pub const K_EXPORT: u8 = 66;
pub const K_FINALLY: u8 = 67;
pub const K_FOR: u8 = 68;
pub const K_FUNCTION: u8 = 69;
pub const K_IF: u8 = 70;
pub const K_IMPLEMENTS: u8 = 71;
pub const K_IMPORT: u8 = 72;
pub const K_IN: u8 = 73;
pub const K_INSTANCEOF: u8 = 74;
pub const K_INTERFACE: u8 = 75;
pub const K_LET: u8 = 76;
pub const K_NEW: u8 = 77;
pub const K_PACKAGE: u8 = 78;
pub const K_PRIVATE: u8 = 79;
pub const K_PROTECTED: u8 = 80;
pub const K_PUBLIC: u8 = 81;
pub const K_RETURN: u8 = 82;
pub const K_STATIC: u8 = 83;
pub const K_SUPER: u8 = 84;
pub const K_SWITCH: u8 = 85;
pub const K_THIS: u8 = 86;
pub const K_THROW: u8 = 87;
pub const K_TRY: u8 = 88;
pub const K_TYPEOF: u8 = 89;
pub const K_VAR: u8 = 90;
pub const K_VOID: u8 = 91;
pub const K_WHILE: u8 = 92;
pub const K_WITH: u8 = 93;
pub const K_YIELD: u8 = 94;
pub const I_A: u8 = 95;
pub const I_B: u8 = 96;
pub const I_C: u8 = 97;
pub const I_ASYNC: u8 = 98;
pub const I_GET: u8 = 99;
pub const I_SET: u8 = 100;
pub const I_OF: u8 = 101;
pub const I_FROM: u8 = 102;
pub const I_AS: u8 = 103;
pub const I_TARGET: u8 = 104;
pub const I_EVAL: u8 = 105;
pub const I_ARGUMENTS: u8 = 106;
pub const I_CONSTRUCTOR: u8 = 107;
pub const I_PROTOTYPE: u8 = 108;
pub const I_PROTO: u8 = 109;
pub const I_EXTENDS: u8 = 110;
pub const I_NULL: u8 = 111;
pub const I_UNI: u8 = 112;
pub const L_TRUE: u8 = 113;
pub const L_FALSE: u8 = 114;
pub const N_DEC: u8 = 115;
pub const N_HEX: u8 = 116;
pub const N_BIN: u8 = 117;
pub const N_OCT: u8 = 118;
pub const N_FLOAT: u8 = 119;
pub const N_EXP: u8 = 120;
pub const N_LEGACY: u8 = 121;
pub const N_ZERO: u8 = 122;
pub const S_SINGLE: u8 = 123;
pub const S_DOUBLE: u8 = 124;
pub const S_STRICT: u8 = 125;
pub const S_STRICT_D: u8 = 126;
pub const S_EMPTY: u8 = 127;
pub const S_MIXED: u8 = 128;
pub const S_ESC: u8 = 129;
pub const S_CTOR: u8 = 130;
pub const R_PLAIN: u8 = 131;
pub const R_FLAGS: u8 = 132;
pub const R_CLASS: u8 = 133;
pub const R_ESC: u8 = 134;
pub const T_NOSUB: u8 = 135;
pub const T_NOSUB_E: u8 = 136;
pub const T_HEAD: u8 = 137;
pub const T_HEAD_E: u8 = 138;
pub const T_BODY: u8 = 139;
pub const T_BODY_E: u8 = 140;
pub const T_TAIL: u8 = 141;
pub const T_TAIL_E: u8 = 142;
pub const T_NOSUB_NL: u8 = 143;
pub const T_HEAD_NL: u8 = 144;
pub const T_TAIL_NL: u8 = 145;
pub const T_NOSUB_ESC: u8 = 146;
pub const C_MULTI: u8 = 147;
pub const C_MULTI_E: u8 = 148;
pub const C_MULTI_NL: u8 = 149;
pub const C_MULTI_CRLF: u8 = 150;
pub const C_LINE: u8 = 151;
pub const C_HTML: u8 = 152;
pub const COUNT: usize = 153;
pub const TABLE_C: [(RefToken, &str); COUNT] = [
    (RefToken::EoF, ""),
    (RefToken::Punct(Punct::OpenBrace), "{"),
    (RefToken::Punct(Punct::CloseBrace), "}"),
    (RefToken::Punct(Punct::OpenParen), "("),
    (RefToken::Punct(Punct::CloseParen), ")"),
    (RefToken::Punct(Punct::Period), "."),
    (RefToken::Punct(Punct::SemiColon), ";"),
    (RefToken::Punct(Punct::Comma), ","),
    (RefToken::Punct(Punct::OpenBracket), "["),
    (RefToken::Punct(Punct::CloseBracket), "]"),
    (RefToken::Punct(Punct::Colon), ":"),
    (RefToken::Punct(Punct::QuestionMark), "?"),
    (RefToken::Punct(Punct::BitwiseNot), "~"),
    (RefToken::Punct(Punct::GreaterThan), ">"),
    (RefToken::Punct(Punct::LessThan), "<"),
    (RefToken::Punct(Punct::Assign), "="),
    (RefToken::Punct(Punct::Not), "!"),
    (RefToken::Punct(Punct::Plus), "+"),
    (RefToken::Punct(Punct::Minus), "-"),
    (RefToken::Punct(Punct::Asterisk), "*"),
    (RefToken::Punct(Punct::Modulo), "%"),
    (RefToken::Punct(Punct::Pipe), "|"),
    (RefToken::Punct(Punct::And), "&"),
    (RefToken::Punct(Punct::Caret), "^"),
    (RefToken::Punct(Punct::ForwardSlash), "/"),
    (RefToken::Punct(Punct::UnsignedRightShiftAssign), ">>>="),
    (RefToken::Punct(Punct::Spread), "..."),
    (RefToken::Punct(Punct::StrictEquals), "==="),
    (RefToken::Punct(Punct::StrictNotEquals), "!=="),
    (RefToken::Punct(Punct::UnsignedRightShift), ">>>"),
    (RefToken::Punct(Punct::LeftShiftAssign), "<<="),
    (RefToken::Punct(Punct::RightShiftAssign), ">>="),
    (RefToken::Punct(Punct::ExponentAssign), "**="),
    (RefToken::Punct(Punct::LogicalAnd), "&&"),
    (RefToken::Punct(Punct::LogicalOr), "||"),
    (RefToken::Punct(Punct::Equal), "=="),
    (RefToken::Punct(Punct::NotEqual), "!="),
    (RefToken::Punct(Punct::AddAssign), "+="),
    (RefToken::Punct(Punct::SubtractAssign), "-="),
    (RefToken::Punct(Punct::MultiplyAssign), "*="),
    (RefToken::Punct(Punct::DivideAssign), "/="),
    (RefToken::Punct(Punct::Increment), "++"),
    (RefToken::Punct(Punct::Decrement), "--"),
    (RefToken::Punct(Punct::LeftShift), "<<"),
    (RefToken::Punct(Punct::RightShift), ">>"),
    (RefToken::Punct(Punct::BitwiseAndAssign), "&="),
    (RefToken::Punct(Punct::BitwiseOrAssign), "|="),
    (RefToken::Punct(Punct::BitwiseXOrAssign), "^="),
    (RefToken::Punct(Punct::ModuloAssign), "%="),
    (RefToken::Punct(Punct::FatArrow), "=>"),
    (RefToken::Punct(Punct::GreaterThanEqual), ">="),
    (RefToken::Punct(Punct::LessThanEqual), "<="),
    (RefToken::Punct(Punct::Exponent), "**"),
    (RefToken::Keyword(Keyword::Await), "await"),
    (RefToken::Keyword(Keyword::Break), "break"),
    (RefToken::Keyword(Keyword::Case), "case"),
    (RefToken::Keyword(Keyword::Catch), "catch"),
    (RefToken::Keyword(Keyword::Class), "class"),
    (RefToken::Keyword(Keyword::Const), "const"),
    (RefToken::Keyword(Keyword::Continue), "continue"),
    (RefToken::Keyword(Keyword::Debugger), "debugger"),
    (RefToken::Keyword(Keyword::Default), "default"),
    (RefToken::Keyword(Keyword::Delete), "delete"),
    (RefToken::Keyword(Keyword::Do), "do"),
    (RefToken::Keyword(Keyword::Else), "else"),
    (RefToken::Keyword(Keyword::Enum), "enum"),
    (RefToken::Keyword(Keyword::Export), "export"),
    (RefToken::Keyword(Keyword::Finally), "finally"),
    (RefToken::Keyword(Keyword::For), "for"),
    (RefToken::Keyword(Keyword::Function), "function"),
    (RefToken::Keyword(Keyword::If), "if"),
    (RefToken::Keyword(Keyword::Implements), "implements"),
    (RefToken::Keyword(Keyword::Import), "import"),
    (RefToken::Keyword(Keyword::In), "in"),
    (RefToken::Keyword(Keyword::InstanceOf), "instanceof"),
    (RefToken::Keyword(Keyword::Interface), "interface"),
    (RefToken::Keyword(Keyword::Let), "let"),
    (RefToken::Keyword(Keyword::New), "new"),
    (RefToken::Keyword(Keyword::Package), "package"),
    (RefToken::Keyword(Keyword::Private), "private"),
    (RefToken::Keyword(Keyword::Protected), "protected"),
    (RefToken::Keyword(Keyword::Public), "public"),
    (RefToken::Keyword(Keyword::Return), "return"),
    (RefToken::Keyword(Keyword::Static), "static"),
    (RefToken::Keyword(Keyword::Super), "super"),
    (RefToken::Keyword(Keyword::Switch), "switch"),
    (RefToken::Keyword(Keyword::This), "this"),
    (RefToken::Keyword(Keyword::Throw), "throw"),
    (RefToken::Keyword(Keyword::Try), "try"),
    (RefToken::Keyword(Keyword::TypeOf), "typeof"),
    (RefToken::Keyword(Keyword::Var), "var"),
    (RefToken::Keyword(Keyword::Void), "void"),
    (RefToken::Keyword(Keyword::While), "while"),
    (RefToken::Keyword(Keyword::With), "with"),
    (RefToken::Keyword(Keyword::Yield), "yield"),
    (RefToken::Ident, "alpha"),
    (RefToken::Ident, "bravo"),
    (RefToken::Ident, "delta"),
    (RefToken::Ident, "async"),
    (RefToken::Ident, "get"),
    (RefToken::Ident, "set"),
    (RefToken::Ident, "of"),
    (RefToken::Ident, "from"),
    (RefToken::Ident, "as"),
    (RefToken::Ident, "target"),
    (RefToken::Ident, "eval"),
    (RefToken::Ident, "arguments"),
    (RefToken::Ident, "constructor"),
    (RefToken::Ident, "prototype"),
    (RefToken::Ident, "__proto__"),
    (RefToken::Ident, "extends"),
    (RefToken::Ident, "null"),
    (RefToken::Ident, "été"),
    (RefToken::Boolean(true), "true"),
    (RefToken::Boolean(false), "false"),
    (RefToken::Numeric(Number::Dec), "12345"),
    (RefToken::Numeric(Number::Hex), "0x1aF"),
    (RefToken::Numeric(Number::Bin), "0b101"),
    (RefToken::Numeric(Number::Oct), "0o017"),
    (RefToken::Numeric(Number::Dec), ".1234"),
    (RefToken::Numeric(Number::Dec), "1.5e3"),
    (RefToken::Numeric(Number::Dec), "01234"),
    (RefToken::Numeric(Number::Dec), "0"),
    (RefToken::String(StringLit::Single), "'abc'"),
    (RefToken::String(StringLit::Double), "\"abc\""),
    (RefToken::String(StringLit::Single), "'use strict'"),
    (RefToken::String(StringLit::Double), "\"use strict\""),
    (RefToken::String(StringLit::Single), "''"),
    (RefToken::String(StringLit::Double), "\"'x'\""),
    (RefToken::String(StringLit::Single), "'\\n\\''"),
    (RefToken::String(StringLit::Single), "'constructor'"),
    (RefToken::RegEx, "/abc/"),
    (RefToken::RegEx, "/ab/g"),
    (RefToken::RegEx, "/[/]/gi"),
    (RefToken::RegEx, "/\\/x/m"),
    (RefToken::Template(Template::NoSub), "`abc`"),
    (RefToken::Template(Template::NoSub), "``"),
    (RefToken::Template(Template::Head), "`ab${"),
    (RefToken::Template(Template::Head), "`${"),
    (RefToken::Template(Template::Body), "}ab${"),
    (RefToken::Template(Template::Body), "}${"),
    (RefToken::Template(Template::Tail), "}abc`"),
    (RefToken::Template(Template::Tail), "}`"),
    (RefToken::Template(Template::NoSub), "`a\nb`"),
    (RefToken::Template(Template::Head), "`a\n${"),
    (RefToken::Template(Template::Tail), "}\nb`"),
    (RefToken::Template(Template::NoSub), "`\\``"),
    (RefToken::Comment(Comment::MultiLine), "/*cc*/"),
    (RefToken::Comment(Comment::MultiLine), "/**/"),
    (RefToken::Comment(Comment::MultiLine), "/*\n*/"),
    (RefToken::Comment(Comment::MultiLine), "/*\r\nc*/"),
    (RefToken::Comment(Comment::SingleLine), "//cc"),
    (RefToken::Comment(Comment::Html), "<!--c-->"),
];
pub static TABLE: [(RefToken, &str); COUNT] = TABLE_C;
#[cfg(feature = "sym")]
pub static ENTRIES: [ress::refs::sym::Entry; COUNT] = [
    ress::refs::sym::entry_for(RefToken::EoF, ""),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::OpenBrace), "{"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::CloseBrace), "}"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::OpenParen), "("),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::CloseParen), ")"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Period), "."),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::SemiColon), ";"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Comma), ","),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::OpenBracket), "["),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::CloseBracket), "]"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Colon), ":"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::QuestionMark), "?"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::BitwiseNot), "~"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::GreaterThan), ">"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::LessThan), "<"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Assign), "="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Not), "!"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Plus), "+"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Minus), "-"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Asterisk), "*"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Modulo), "%"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Pipe), "|"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::And), "&"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Caret), "^"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::ForwardSlash), "/"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::UnsignedRightShiftAssign), ">>>="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Spread), "..."),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::StrictEquals), "==="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::StrictNotEquals), "!=="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::UnsignedRightShift), ">>>"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::LeftShiftAssign), "<<="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::RightShiftAssign), ">>="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::ExponentAssign), "**="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::LogicalAnd), "&&"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::LogicalOr), "||"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Equal), "=="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::NotEqual), "!="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::AddAssign), "+="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::SubtractAssign), "-="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::MultiplyAssign), "*="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::DivideAssign), "/="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Increment), "++"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Decrement), "--"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::LeftShift), "<<"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::RightShift), ">>"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::BitwiseAndAssign), "&="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::BitwiseOrAssign), "|="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::BitwiseXOrAssign), "^="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::ModuloAssign), "%="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::FatArrow), "=>"),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::GreaterThanEqual), ">="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::LessThanEqual), "<="),
    ress::refs::sym::entry_for(RefToken::Punct(Punct::Exponent), "**"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Await), "await"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Break), "break"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Case), "case"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Catch), "catch"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Class), "class"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Const), "const"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Continue), "continue"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Debugger), "debugger"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Default), "default"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Delete), "delete"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Do), "do"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Else), "else"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Enum), "enum"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Export), "export"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Finally), "finally"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::For), "for"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Function), "function"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::If), "if"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Implements), "implements"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Import), "import"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::In), "in"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::InstanceOf), "instanceof"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Interface), "interface"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Let), "let"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::New), "new"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Package), "package"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Private), "private"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Protected), "protected"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Public), "public"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Return), "return"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Static), "static"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Super), "super"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Switch), "switch"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::This), "this"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Throw), "throw"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Try), "try"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::TypeOf), "typeof"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Var), "var"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Void), "void"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::While), "while"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::With), "with"),
    ress::refs::sym::entry_for(RefToken::Keyword(Keyword::Yield), "yield"),
    ress::refs::sym::entry_for(RefToken::Ident, "alpha"),
    ress::refs::sym::entry_for(RefToken::Ident, "bravo"),
    ress::refs::sym::entry_for(RefToken::Ident, "delta"),
    ress::refs::sym::entry_for(RefToken::Ident, "async"),
    ress::refs::sym::entry_for(RefToken::Ident, "get"),
    ress::refs::sym::entry_for(RefToken::Ident, "set"),
    ress::refs::sym::entry_for(RefToken::Ident, "of"),
    ress::refs::sym::entry_for(RefToken::Ident, "from"),
    ress::refs::sym::entry_for(RefToken::Ident, "as"),
    ress::refs::sym::entry_for(RefToken::Ident, "target"),
    ress::refs::sym::entry_for(RefToken::Ident, "eval"),
    ress::refs::sym::entry_for(RefToken::Ident, "arguments"),
    ress::refs::sym::entry_for(RefToken::Ident, "constructor"),
    ress::refs::sym::entry_for(RefToken::Ident, "prototype"),
    ress::refs::sym::entry_for(RefToken::Ident, "__proto__"),
    ress::refs::sym::entry_for(RefToken::Ident, "extends"),
    ress::refs::sym::entry_for(RefToken::Ident, "null"),
    ress::refs::sym::entry_for(RefToken::Ident, "été"),
    ress::refs::sym::entry_for(RefToken::Boolean(true), "true"),
    ress::refs::sym::entry_for(RefToken::Boolean(false), "false"),
    ress::refs::sym::entry_for(RefToken::Numeric(Number::Dec), "12345"),
    ress::refs::sym::entry_for(RefToken::Numeric(Number::Hex), "0x1aF"),
    ress::refs::sym::entry_for(RefToken::Numeric(Number::Bin), "0b101"),
    ress::refs::sym::entry_for(RefToken::Numeric(Number::Oct), "0o017"),
    ress::refs::sym::entry_for(RefToken::Numeric(Number::Dec), ".1234"),
    ress::refs::sym::entry_for(RefToken::Numeric(Number::Dec), "1.5e3"),
    ress::refs::sym::entry_for(RefToken::Numeric(Number::Dec), "01234"),
    ress::refs::sym::entry_for(RefToken::Numeric(Number::Dec), "0"),
    ress::refs::sym::entry_for(RefToken::String(StringLit::Single), "'abc'"),
    ress::refs::sym::entry_for(RefToken::String(StringLit::Double), "\"abc\""),
    ress::refs::sym::entry_for(RefToken::String(StringLit::Single), "'use strict'"),
    ress::refs::sym::entry_for(RefToken::String(StringLit::Double), "\"use strict\""),
    ress::refs::sym::entry_for(RefToken::String(StringLit::Single), "''"),
    ress::refs::sym::entry_for(RefToken::String(StringLit::Double), "\"'x'\""),
    ress::refs::sym::entry_for(RefToken::String(StringLit::Single), "'\\n\\''"),
    ress::refs::sym::entry_for(RefToken::String(StringLit::Single), "'constructor'"),
    ress::refs::sym::entry_for(RefToken::RegEx, "/abc/"),
    ress::refs::sym::entry_for(RefToken::RegEx, "/ab/g"),
    ress::refs::sym::entry_for(RefToken::RegEx, "/[/]/gi"),
    ress::refs::sym::entry_for(RefToken::RegEx, "/\\/x/m"),
    ress::refs::sym::entry_for(RefToken::Template(Template::NoSub), "`abc`"),
    ress::refs::sym::entry_for(RefToken::Template(Template::NoSub), "``"),
    ress::refs::sym::entry_for(RefToken::Template(Template::Head), "`ab${"),
    ress::refs::sym::entry_for(RefToken::Template(Template::Head), "`${"),
    ress::refs::sym::entry_for(RefToken::Template(Template::Body), "}ab${"),
    ress::refs::sym::entry_for(RefToken::Template(Template::Body), "}${"),
    ress::refs::sym::entry_for(RefToken::Template(Template::Tail), "}abc`"),
    ress::refs::sym::entry_for(RefToken::Template(Template::Tail), "}`"),
    ress::refs::sym::entry_for(RefToken::Template(Template::NoSub), "`a\nb`"),
    ress::refs::sym::entry_for(RefToken::Template(Template::Head), "`a\n${"),
    ress::refs::sym::entry_for(RefToken::Template(Template::Tail), "}\nb`"),
    ress::refs::sym::entry_for(RefToken::Template(Template::NoSub), "`\\``"),
    ress::refs::sym::entry_for(RefToken::Comment(Comment::MultiLine), "/*cc*/"),
    ress::refs::sym::entry_for(RefToken::Comment(Comment::MultiLine), "/**/"),
    ress::refs::sym::entry_for(RefToken::Comment(Comment::MultiLine), "/*\n*/"),
    ress::refs::sym::entry_for(RefToken::Comment(Comment::MultiLine), "/*\r\nc*/"),
    ress::refs::sym::entry_for(RefToken::Comment(Comment::SingleLine), "//cc"),
    ress::refs::sym::entry_for(RefToken::Comment(Comment::Html), "<!--c-->"),
];
