#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)) + '/..'
L = 'src/lib.rs'
# id, title, statement, over, quantifier, why tests cannot, mechanisms, observe
P = [
('C01', 'Parsing always comes to an end with an answer',
 'For every source text made of well-formed tokens, parsing it - as a whole, part by part, tolerantly or not, as a script or a module - ends with a program or an error. It never panics, never repeats an error for ever, never goes on after its end, and the iterator yields nothing once it has ended.',
 ['inputs', 'programs', 'configurations'], 'all sources (complete, cut off anywhere, or meaningless), all four script/module x tolerant settings',
 'Tests run whole valid libraries and a few dozen snippets; sources that break off inside every construct, or continue with a token nothing expects, are practically absent.',
 [('look ahead and peeking', 'Parser::next_item, Parser::look_ahead'), ('iterator', 'impl Iterator for Parser'), ('every parse_* loop ends at its closing token or at the end of the file', 'Parser::parse_*')], ['Parser::parse', 'Parser as Iterator']),
('C02', 'Operators bind and associate as the language says',
 'Whatever operators an expression combines - binary, unary, update, conditional, assignment, comma, arrow, yield, await - the tree groups the operands as the precedence and associativity of JavaScript demand, and combinations without a meaning (an unparenthesised unary base of an exponentiation, an assignment to a sum) are errors.',
 ['inputs', 'programs'], 'all sequences of operators and operands',
 'The tests contain a handful of operator pairs; the order depends on every pair and triple of neighbouring operators.',
 [('operator precedence stack', 'Parser::parse_binary_expression, Parser::determine_precedence'), ('assignment, conditional', 'Parser::parse_assignment_expr, Parser::parse_conditional_expr'), ('unary and update', 'Parser::parse_unary_expression, Parser::parse_update_expr, Parser::parse_exponentiation_expression')], ['Parser::parse']),
('C03', 'Every statement yields the tree of what was written',
 'Each statement form, whatever statements and expressions it contains and whichever of its optional parts are present, yields the tree with exactly these parts in these places; a source in which a required part is missing or misplaced is rejected.',
 ['inputs', 'programs'], 'all statements, all nestings of statements in statements, all combinations of optional parts',
 'Tests have one or two examples per statement and mostly compare against nothing; a dropped or exchanged part (the else of the wrong if, init and test of a for) goes unnoticed.',
 [('statement dispatch', 'Parser::parse_statement, Parser::parse_statement_list_item'), ('loops', 'Parser::parse_for_stmt, Parser::parse_while_stmt, Parser::parse_do_while_stmt'), ('branches', 'Parser::parse_if_stmt, Parser::parse_switch_stmt, Parser::parse_try_stmt')], ['Parser::parse']),
('C04', 'Line terminators matter exactly where the language says',
 'Adding, removing or exchanging line terminators (line feed, carriage return, both, U+2028, U+2029, or one inside a comment) between two tokens changes the outcome only where automatic semicolon insertion or a restricted production makes it matter; there it ends the statement, and nowhere else.',
 ['inputs', 'programs'], 'all token sequences and all choices of line terminators between them',
 'Every gap of every source is a place for a line terminator; tests only have the ones their authors typed.',
 [('line terminator flag', 'Context::has_line_term, Parser::next_item'), ('semicolon insertion', 'Parser::consume_semicolon'), ('restricted productions', 'return/break/continue/throw/yield/async/postfix in Parser')], ['Parser::parse']),
('C05', 'An error points at the offending token',
 'The position carried by an error is a 1-based line and column of a token of the source, counted over whatever line terminators, comments and multi-line tokens come before it; it lies neither behind the first token no valid source could have there nor before the part of the program that fails.',
 ['inputs', 'programs'], 'all rejected sources, all line terminators, comments and multi-line tokens in front of the error',
 'Tests compare two or three positions; the count is kept incrementally over every token, comment and look ahead.',
 [('line and column', 'Parser::update_positions, Parser::next_item, Parser::get_lines, Parser::current_position, Parser::look_ahead_position'), ('error construction', 'Parser::expected_token_error, Parser::unexpected_token_error')], ['Error positions']),
('C06', 'Comments change nothing and reach the handler once, in order',
 'Putting comments of any form between any two tokens leaves the tree unchanged except where the line terminator in a comment matters; the comment handler receives every comment of the source exactly once, in source order, with its text, and nothing else.',
 ['inputs', 'programs'], 'all sources, all places and kinds of comments',
 'A comment may stand in every gap; look ahead and peeking (for arrow functions, let, async) read past comments, and tests have comments in ordinary places only.',
 [('comment skipping', 'Parser::next_item, Parser::peek_past_look_ahead'), ('handler', 'CommentHandler::handle_comment')], ['Parser::parse', 'CommentHandler']),
('C07', 'What a nested construct opens ends with it',
 'Strictness, return, yield, await, super, break and continue permission, labels and the ban of the in operator hold from the beginning to the end of the construct that introduces them and no further: after a nested function, class, loop, template or pattern the rest of the source is read as if it stood alone, and inside it the surroundings do not show unless the language lets them.',
 ['inputs', 'programs', 'histories'], 'all pairs of outer and inner constructs and all continuations',
 'The parser keeps these facts in one mutable context saved and restored by hand; a forgotten restoration shows only in the tokens after the construct, which tests rarely have.',
 [('context', 'struct Context'), ('save and restore', 'Parser::parse_function_decl, Parser::parse_function_expr, Parser::parse_method_body, Parser::parse_loop_body, Parser::isolate_cover_grammar')], ['Parser::parse']),
('C08', 'Tolerant parsing accepts no less and reads it the same way',
 'Every source accepted without tolerance is accepted with tolerance, with the same tree; what tolerance additionally accepts is still read by the same grammar.',
 ['inputs', 'configurations', 'programs'], 'all sources, scripts and modules, with and without tolerance',
 'No test compares the two settings.',
 [('tolerated errors', 'Parser::tolerate_error, Config::tolerant'), ('branches on tolerance', 'config.tolerant in Parser')], ['Builder::tolerant', 'Parser::parse']),
('C09', 'All ways of starting a parse agree',
 'Parsing a source at once, collecting the iterator, going through the builder with its setters in any order or repeated, through Parser::new, or with a comment handler of any kind gives the same parts, the same error and the same position.',
 ['inputs', 'configurations', 'histories'], 'all sources, all sequences of builder calls, all entry points',
 'Tests use one way per source and never compare two.',
 [('builder', 'Builder::*, Parser::new, Parser::build'), ('parse', 'Parser::parse, impl Iterator for Parser')], ['Builder', 'Parser::new', 'Parser::parse', 'Iterator']),
('C10', 'A word is a name or a keyword as its context says',
 'Every identifier, contextual keyword (async, await, yield, let, static, of, get, set, as, from, eval, arguments) and reserved word is accepted as a binding, a reference, a label, a property, a method or an import or export name exactly where the language allows it for script, module, strict, generator and async code, and always reads as the name written.',
 ['inputs', 'programs', 'configurations'], 'all words in all positions in all kinds of code',
 'Words x positions x kinds of code are thousands of combinations, of which tests have a few.',
 [('identifiers', 'Parser::parse_var_ident, Parser::parse_ident_name'), ('reserved words', 'Parser::is_strict_reserved, Parser::is_restricted_word'), ('contextual words', 'Parser::at_contextual_keyword, Parser::at_async_function, Parser::at_lexical_decl')], ['Parser::parse']),
('C11', 'Functions, classes and members have the kind that was written',
 'Functions, methods, accessors, constructors and properties of every kind - static, async, generator, computed, getter, setter, shorthand, spread - in declarations, expressions, classes and object literals yield nodes with exactly the written kind, name, key, flags, parameters and body, in order.',
 ['inputs', 'programs'], 'all combinations of modifiers, keys, parameters and bodies',
 'Modifiers are also names; which they are depends on the next one or two tokens, and tests show a few of the combinations.',
 [('members', 'Parser::parse_class_el, Parser::parse_obj_prop, Parser::parse_object_property_key'), ('functions', 'Parser::parse_function_decl, Parser::parse_function_expr, Parser::parse_formal_params'), ('classes', 'Parser::parse_class_decl, Parser::parse_class_expr')], ['Parser::parse']),
('C12', 'Patterns and arrow parameters are told from expressions correctly',
 'An array or object literal, a parenthesised list or a call of async is read as a pattern, a parameter list or an expression according to what follows it; patterns keep every element, hole, default, rest and computed key, and whatever is no valid assignment or binding target is rejected.',
 ['inputs', 'programs'], 'all literals, groups and argument lists and all their continuations',
 'The decision comes after the fact and is carried by flags through every expression function; only the unusual nestings go wrong.',
 [('cover grammar', 'Parser::isolate_cover_grammar, Parser::inherit_cover_grammar, Parser::first_cover_initialized_name_error'), ('reinterpretation', 'Parser::reinterpret_expr_as_pat, Parser::reinterpret_as_cover_formals_list'), ('patterns', 'Parser::parse_pattern, Parser::parse_array_pattern, Parser::parse_object_pattern')], ['Parser::parse']),
('C13', 'Imports and exports keep their names and sources',
 'Every import and export form of a module yields a node with exactly the written default, namespace and named parts, local and external names, source and declaration; incomplete, mixed-up or trailing parts are rejected.',
 ['inputs', 'programs'], 'all sequences of import and export clauses',
 'Tests have one example per form; local and external names can be exchanged without any of them noticing.',
 [('imports', 'Parser::parse_import_decl, Parser::parse_import_specifier'), ('exports', 'Parser::parse_export_decl, Parser::parse_export_specifier')], ['Parser::parse']),
('C14', 'Literals and templates reach the tree as written',
 'Every number, string, regular expression, boolean, null and template literal appears in the tree with its own text, flags, kind and quotes at the place it was written; templates keep their pieces and substitutions in order, tagged or not, nested or not.',
 ['inputs', 'programs'], 'all literal forms in all expression positions, all template shapes',
 'Tests look at single literals alone; whether a literal is a directive, a key, a tag or an operand depends on its surroundings.',
 [('literals', 'Parser::parse_primary_expression'), ('templates', 'Parser::parse_template_literal, Parser::parse_template_element'), ('directives', 'Parser::parse_directive')], ['Parser::parse']),
('C15', 'Sources with early errors are rejected, others are not',
 'A return outside a function, a repeated label or second constructor or default clause, wrong accessor parameters, a constant without a value, a missing handler, an invalid target of an assignment, update or loop, super or new.target out of place and the like are errors in every context the language makes them errors, and only there.',
 ['inputs', 'programs'], 'all sources around the constructs with early errors',
 'Each rule needs its positive and negative examples in every context; tests contain a minority of the rules once.',
 [('early errors', 'error constructors in Parser and Error variants'), ('context', 'struct Context')], ['Parser::parse']),
('C16', 'Strict code is exactly what a directive, class or module makes strict',
 'Code is strict if and only if it is module code, class code, or within a program or function whose directive prologue contains use strict; a script beginning with that directive is accepted and read as the same text in a module is, where modules do not differ, and every restriction of strict code applies in it and only in it.',
 ['inputs', 'programs', 'configurations'], 'all prologues, all kinds of functions, all restricted constructs, scripts and modules',
 'Tests have one or two strict snippets; prologues and nested functions multiply with the restricted constructs.',
 [('directives', 'Parser::parse_directive, Parser::parse_directive_prologues'), ('strict flag', 'Context::strict, Context::allow_strict_directive'), ('restrictions', 'uses of context.strict in Parser')], ['Parser::parse', 'Builder::module']),
('C17', 'Short sources are accepted and read exactly as the grammar says',
 'For every sequence of tokens, with no shape given in advance, the parser accepts it if and only if the grammar of the language does and returns the tree the grammar gives it.',
 ['inputs', 'programs'], 'all token sequences up to the bound, as scripts and modules',
 'Millions of sequences, mostly never written by anyone; tests are written by people.',
 [('the whole parser', 'Parser::parse_statement_list_item and everything below it')], ['Parser::parse']),
('C18', 'Calls, members and new apply to what stands before them',
 'Chains of member accesses, computed members, calls, tagged templates, new, super, import calls and postfix operators nest from left to right over exactly the object, callee and arguments written, and new takes the arguments that belong to it.',
 ['inputs', 'programs'], 'all chains of accesses, calls and new and all argument lists',
 'The tree depends on every suffix before; tests have chains of length one or two and mostly do not compare trees.',
 [('chains', 'Parser::parse_left_hand_side_expr, Parser::parse_left_hand_side_expr_allow_call'), ('new', 'Parser::parse_new_expr'), ('arguments', 'Parser::parse_args, Parser::parse_async_args')], ['Parser::parse']),
]
def props():
    for i, title, st, over, q, why, mech, obs in P:
        assert len(title) <= 80, title
        yield dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=[L] + (['src/comment_handler.rs'] if i == 'C06' else ['src/error.rs'] if i in ('C05', 'C15') else []), state=[], mechanism=[dict(name=a, where=L + ': ' + b) for a, b in mech], observe_at=obs, hook_needed=None))
NOTE = 'The compiled parser is executed symbolically over the token rows of tools/scenarios.txt for this property: %s. Every path is explored, every assertion decided for all values within the row (z3), counterexamples and a sample of the paths are replayed natively with the unmodified scanner. Trusted: the engine (validated by the replayed samples), the vocabulary as representative of all tokens, the reference reading of the grammar, the scanner.'
HOW = {'C01': 'no path panics, fails to end, or yields after the end', 'C05': 'positions against those of the tokens and the first token the reference cannot accept', 'C06': 'trees with comments against the reference, and what the handler receives against the comments of the row', 'C08': 'tolerant against normal outcome, and tolerant trees against the reference', 'C09': 'two symbolic ways of starting the parse against each other', 'C16': 'strict scripts and modules against each other and against the reference'}
def manifest():
    checks = []
    for p in P:
        i = p[0]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i, evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the LLVM IR of the parser with SMT (z3), bounded token rows', level='model_checking',
                           level_note=NOTE % HOW.get(i, 'acceptance and tree against a reference reading of the grammar')))
    return dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='none', enable='no hooks: the public API is enough', source_commits=[]), checks=checks, not_applicable=[], notes='See DESIGN.md. check.py --replay FILE repeats a counterexample.')
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in props():
        f.write(json.dumps(p) + '\n')
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(manifest(), f, indent=1)
    f.write('\n')
