#!/usr/bin/env python3
"""Generates sym/harness/src/vocab.rs: the token vocabulary of the symbolic token array."""
puncts = {'OpenBrace': '{', 'CloseBrace': '}', 'OpenParen': '(', 'CloseParen': ')', 'Period': '.', 'SemiColon': ';', 'Comma': ',', 'OpenBracket': '[', 'CloseBracket': ']', 'Colon': ':', 'QuestionMark': '?', 'BitwiseNot': '~', 'GreaterThan': '>', 'LessThan': '<', 'Assign': '=', 'Not': '!', 'Plus': '+', 'Minus': '-', 'Asterisk': '*', 'Modulo': '%', 'Pipe': '|', 'And': '&', 'Caret': '^', 'ForwardSlash': '/', 'UnsignedRightShiftAssign': '>>>=', 'Spread': '...', 'StrictEquals': '===', 'StrictNotEquals': '!==', 'UnsignedRightShift': '>>>', 'LeftShiftAssign': '<<=', 'RightShiftAssign': '>>=', 'ExponentAssign': '**=', 'LogicalAnd': '&&', 'LogicalOr': '||', 'Equal': '==', 'NotEqual': '!=', 'AddAssign': '+=', 'SubtractAssign': '-=', 'MultiplyAssign': '*=', 'DivideAssign': '/=', 'Increment': '++', 'Decrement': '--', 'LeftShift': '<<', 'RightShift': '>>', 'BitwiseAndAssign': '&=', 'BitwiseOrAssign': '|=', 'BitwiseXOrAssign': '^=', 'ModuloAssign': '%=', 'FatArrow': '=>', 'GreaterThanEqual': '>=', 'LessThanEqual': '<=', 'Exponent': '**'}
kws = ['Await', 'Break', 'Case', 'Catch', 'Class', 'Const', 'Continue', 'Debugger', 'Default', 'Delete', 'Do', 'Else', 'Enum', 'Export', 'Finally', 'For', 'Function', 'If', 'Implements', 'Import', 'In', 'InstanceOf', 'Interface', 'Let', 'New', 'Package', 'Private', 'Protected', 'Public', 'Return', 'Static', 'Super', 'Switch', 'This', 'Throw', 'Try', 'TypeOf', 'Var', 'Void', 'While', 'With', 'Yield']
rows = []
def add(name, kind, text): rows.append((name, kind, text))
add('EOF', 'RefToken::EoF', '')
for n, t in puncts.items(): add('P_' + n.upper(), f'RefToken::Punct(Punct::{n})', t)
for n in kws: add('K_' + n.upper(), f'RefToken::Keyword(Keyword::{n})', n.lower())
for n, t in [('A','alpha'),('B','bravo'),('C','delta'),('ASYNC','async'),('GET','get'),('SET','set'),('OF','of'),('FROM','from'),('AS','as'),('TARGET','target'),('EVAL','eval'),('ARGUMENTS','arguments'),('CONSTRUCTOR','constructor'),('PROTOTYPE','prototype'),('PROTO','__proto__'),('EXTENDS','extends'),('NULL','null'),('UNI','\u00e9t\u00e9')]:
    add('I_' + n, 'RefToken::Ident', t)
add('L_TRUE','RefToken::Boolean(true)','true'); add('L_FALSE','RefToken::Boolean(false)','false')
for n,k,t in [('DEC','Dec','12345'),('HEX','Hex','0x1aF'),('BIN','Bin','0b101'),('OCT','Oct','0o017'),('FLOAT','Dec','.1234'),('EXP','Dec','1.5e3'),('LEGACY','Dec','01234'),('ZERO','Dec','0')]:
    add('N_'+n, f'RefToken::Numeric(Number::{k})', t)
add('S_SINGLE','RefToken::String(StringLit::Single)',"'abc'"); add('S_DOUBLE','RefToken::String(StringLit::Double)','"abc"')
add('S_STRICT','RefToken::String(StringLit::Single)',"'use strict'"); add('S_STRICT_D','RefToken::String(StringLit::Double)','"use strict"')
add('S_EMPTY','RefToken::String(StringLit::Single)',"''"); add('S_MIXED','RefToken::String(StringLit::Double)','"\'x\'"')
add('S_ESC','RefToken::String(StringLit::Single)',"'\\n\\'"+"'"); add('S_CTOR','RefToken::String(StringLit::Single)',"'constructor'")
add('R_PLAIN','RefToken::RegEx','/abc/'); add('R_FLAGS','RefToken::RegEx','/ab/g'); add('R_CLASS','RefToken::RegEx','/[/]/gi'); add('R_ESC','RefToken::RegEx','/\\/x/m')
for n,k,t in [('NOSUB','NoSub','`abc`'),('NOSUB_E','NoSub','``'),('HEAD','Head','`ab${'),('HEAD_E','Head','`${'),('BODY','Body','}ab${'),('BODY_E','Body','}${'),('TAIL','Tail','}abc`'),('TAIL_E','Tail','}`'),('NOSUB_NL','NoSub','`a\nb`'),('HEAD_NL','Head','`a\n${'),('TAIL_NL','Tail','}\nb`'),('NOSUB_ESC','NoSub','`\\``')]:
    add('T_'+n, f'RefToken::Template(Template::{k})', t)
for n,k,t in [('MULTI','MultiLine','/*cc*/'),('MULTI_E','MultiLine','/**/'),('MULTI_NL','MultiLine','/*\n*/'),('MULTI_CRLF','MultiLine','/*\r\nc*/'),('LINE','SingleLine','//cc'),('HTML','Html','<!--c-->')]:
    add('C_'+n, f'RefToken::Comment(Comment::{k})', t)
def esc(t): return t.replace('\\','\\\\').replace('"','\\"').replace('\n','\\n').replace('\r','\\r')
out = ['// generated by tools/gen_vocab.py; do not edit','use ress::refs::tokens::{Comment, Number, RefToken, StringLit, Template};','use ress::{Keyword, Punct};','']
for i,(n,k,t) in enumerate(rows): out.append(f'pub const {n}: u8 = {i};')
out.append(f'pub const COUNT: usize = {len(rows)};')
out.append('pub const TABLE_C: [(RefToken, &str); COUNT] = [')
for n,k,t in rows: out.append(f'    ({k}, "{esc(t)}"),')
out.append('];')
out.append('pub static TABLE: [(RefToken, &str); COUNT] = TABLE_C;')
out.append('#[cfg(feature = "sym")]\npub static ENTRIES: [ress::refs::sym::Entry; COUNT] = [')
for n,k,t in rows: out.append(f'    ress::refs::sym::entry_for({k}, "{esc(t)}"),')
out.append('];')
open('/verif/sym/harness/src/vocab.rs','w').write('\n'.join(out)+'\n')
print(len(rows))
