#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the text stays reviewable).
import json,os
C='crates/'
EV4=['jsonpath_rfc9535_serde/src/ast.rs','jsonpath_rfc9535_iter/src/%s.rs','jsonpath_rfc9535_locations/src/%s.rs','jsonpath_rfc9535_singular_selector/src/%s.rs']
def ev(n): return [C+(p%n if '%' in p else p) for p in EV4]
def four(n): return [C+'jsonpath_rfc9535_%s/src/%s.rs'%(k,n) for k in('serde','iter','locations','singular_selector')]
def m(*a): return [{"name":x,"where":y} for x,y in a]
H=C+'jsonpath_rfc9535/src/'
P=[]
def p(id,title,st,over,text,why,files,mech,**k):
    a={"files":files,"mechanism":mech}; a.update(k)
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L=C+'jsonpath_rfc9535_locations/src/'
S=C+'jsonpath_rfc9535_serde/src/'
I=C+'jsonpath_rfc9535_iter/src/'
G=C+'jsonpath_rfc9535_singular_selector/src/'
p('P01','Array slices select exactly the elements RFC 9535 says, in its order',
 'For every array and every combination of start, end and step (each absent or any 64-bit integer), a slice selector yields exactly the elements, in exactly the order, of the normative algorithm in RFC 9535 section 2.3.4.2.2. Values that are not arrays yield nothing, a zero step yields nothing, and no combination of bounds makes evaluation fail.',
 ['inputs'],'all arrays, all start/end/step in Option<i64>, four evaluating crates',
 'The compliance suite samples a few dozen (start,end,step,length) tuples; the clamp and stride arithmetic has different cases at every sign, beyond-the-end and extreme-integer boundary.',
 ev('selector'),m(('slice','selector.rs / ast.rs fn slice'),('Selector::resolve','Selector::Slice arm')))
p('P02','Index selectors address the element RFC 9535 says, for every index',
 'For every array and every 64-bit index, an index selector selects the element at the index (counted from the end when negative) if there is one and nothing otherwise. Its reported location is the non-negative position, and no index, however extreme, makes evaluation fail.',
 ['inputs'],'all arrays, all i64 indices, four evaluating crates',
 'Tests use small indices; off-by-one at -len, len and the extremes of i64 are separate cases of wrap-free arithmetic.',
 ev('selector'),m(('norm_index','selector.rs / ast.rs fn norm_index'),('Selector::resolve','Selector::Index arm')))
p('P03','A query selects exactly the RFC 9535 nodelist, in order, with duplicates',
 'For every well-formed query without filters and every JSON value, the nodelist is the concatenation, segment by segment and selector by selector, that RFC 9535 sections 2.3 and 2.5 define: child segments map over the input nodelist in order, descendant segments visit every node before its descendants, and duplicates are kept. Array order is respected, and objects contribute every member exactly once.',
 ['inputs'],'all queries of name, wildcard, index, slice and descendant selectors, all JSON values, four evaluating crates',
 'Compliance tests sample shapes of depth two or three; the property is a recursion over unbounded trees and query lengths.',
 [S+'ast.rs',I+'iter.rs',I+'segment.rs',I+'selector.rs',L+'segment.rs',L+'selector.rs',L+'query.rs',G+'segment.rs',G+'selector.rs',G+'query.rs'],
 m(('Segment::resolve','segment.rs / ast.rs'),('visit, descend','segment.rs / ast.rs'),('Selector::resolve','selector.rs / ast.rs'),('Query::find','query.rs / ast.rs'),('NodeIter, Flatten-like iterators','iter.rs')))
p('P04','Comparison operators implement RFC 9535 comparison semantics for all values',
 'For every pair of comparables, ==, !=, <, <=, >, >= give the result of RFC 9535 section 2.3.5.2.2: an absent value equals only an absent value, numbers compare by numeric value whatever their representation, also inside arrays and objects, strings order by Unicode scalar values, other values are equal only structurally and are never ordered. The six operators are consistent with each other (!= negates ==, <= is < or ==, > and >= are their mirror).',
 ['inputs'],'all pairs of JSON values or absent values, six operators, four evaluating crates',
 'Tests sample pairs of literals; integers, unsigned integers and floats travel through different internal variants, so correctness is a property of all variant pairs.',
 ev('filter'),m(('eq, lt, compare, json_eq','filter.rs / ast.rs'),('FilterExpressionResult::from_json_value','filter.rs / ast.rs')))
p('P05','Filters keep exactly the children whose logical expression is true',
 'A filter selector keeps exactly those array elements or object member values, in order, for which its logical expression is true: existence tests are true exactly when the query yields at least one node, && || ! are Boolean connectives, @ is the current child and $ the query argument, at any nesting depth.',
 ['inputs'],'all filter expressions, all JSON values, four evaluating crates',
 'Truth of an expression is defined by recursion over unbounded expression trees and nested queries; tests sample shallow ones.',
 ev('filter')+ev('selector')[1:],m(('FilterExpression::evaluate','filter.rs / ast.rs'),('is_truthy, logical','filter.rs / ast.rs'),('Selector::Filter arm','selector.rs / iter.rs')))
p('P06','length, count and value return what RFC 9535 defines for every argument',
 'For every argument, length() is the number of Unicode scalar values, elements or members of a string, array or object and nothing for other values; count() is the number of nodes in the nodelist; value() is the single node\'s value and nothing otherwise.',
 ['inputs'],'all JSON values, nodelists and absent values, four evaluating crates',
 'Tests sample ASCII strings and small nodelists; length in scalar values versus bytes or UTF-16 units, and nodelists of any size, are universal claims.',
 four('standard_functions')+ev('filter'),m(('Length::call, Count::call, Value::call','standard_functions.rs'),('unpack_result, nodes_or_singular','filter.rs / ast.rs')))
p('P07','match() and search() are exact and independent of call history',
 'For every I-Regexp pattern and string, match() is true exactly when the whole string is in the language of the pattern and search() exactly when some substring is, and both are false for arguments that are not strings or for invalid patterns. The answer for a pair of arguments never depends on which other patterns were used before.',
 ['inputs','histories'],'all patterns and strings, all sequences of earlier calls (including ones that overflow the pattern cache), four evaluating crates',
 'A cache bug shows only after particular call histories, and anchoring bugs only for patterns with top-level alternation; tests exercise single calls.',
 four('standard_functions'),m(('Match::call, Search::call','standard_functions.rs'),('full_match, map_regex','standard_functions.rs')),
 state=[{"name":"cache","meaning":"LruCache from pattern text to compiled expression"}])
p('P08','Every reported location is the normalized path of the reported value',
 'In crates that report locations, each node\'s location is the RFC 9535 section 2.7 normalized path of that value: following it from the query argument reaches exactly that value, and parsed as a query it selects exactly that node. Names are quoted and escaped canonically for every string.',
 ['inputs'],'all queries and JSON values, member names over all of Unicode, two location-reporting crates',
 'Tests sample names without special characters; escaping is per character over all of Unicode and paths grow with depth.',
 [L+'node.rs',L+'conslist.rs',L+'selector.rs',L+'segment.rs',G+'node.rs',G+'conslist.rs',G+'selector.rs',G+'segment.rs'],
 m(('quote','node.rs'),('Display for PathElement / node location','node.rs'),('ConsList::append','conslist.rs'),('Selector::resolve location arguments','selector.rs')))
p('P09','The persistent list behaves as an immutable sequence',
 'The persistent list used for locations behaves as an immutable sequence: adding, removing, reversing and iterating give exactly the sequence results, and no operation changes the contents seen through another list that shares structure.',
 ['inputs','histories'],'all sequences of operations on lists sharing tails, two crates',
 'Sharing bugs need a history of operations on aliased lists; tests check single operations.',
 [L+'conslist.rs',G+'conslist.rs'],m(('ConsList','conslist.rs')),state=[{"name":"front","meaning":"shared chain of cells"},{"name":"length","meaning":"cached number of elements"}])
p('P10','String literals denote exactly the string RFC 9535 says',
 'For every string literal in a query, the string it denotes is the one RFC 9535 section 2.3.1.2 defines: escapes, including surrogate pairs, decode to their scalar values, all other characters stand for themselves, and literals with invalid escapes or lone surrogates are rejected.',
 ['inputs'],'all quoted literals in both quote styles, names and comparison literals, all seven crates',
 'Escape decoding is a character automaton over arbitrary sequences (all code units, pair combinations, truncations); tests sample a handful.',
 four('unescape')+[H+'parser.rs',C+'jsonpath_rfc9535_pest/src/parser.rs',C+'jsonpath_rfc9535_pest_recursive/src/parser.rs'],
 m(('unescape_string','unescape.rs / parser.rs'),('decode_unicode_escape','unescape.rs / parser.rs'),('parse_hex_digits','unescape.rs / parser.rs')))
p('P11','Integers in queries are accepted exactly within the I-JSON range',
 'Index and slice integers in a query are accepted exactly when they lie in [-(2^53)+1, (2^53)-1] and are written as RFC 9535 allows (no leading zeros, no minus zero); accepted integers have the value written.',
 ['inputs'],'all integer literals in index and slice positions, all seven crates',
 'Boundary and overflow behaviour over all digit strings cannot be enumerated by examples.',
 [H+'parser.rs',S+'parser.rs',I+'parser.rs',L+'parser.rs',G+'parser.rs',C+'jsonpath_rfc9535_pest/src/parser.rs',C+'jsonpath_rfc9535_pest_recursive/src/parser.rs'],
 m(('parse_i_json_int','parser.rs')))
p('P12','Function expressions are accepted exactly when well-typed',
 'A query is accepted only if every function call in it names a registered function with the right number of arguments, each argument is convertible to the parameter type, and the result is used where its type is allowed (RFC 9535 section 2.4.3); comparisons and tests that satisfy these rules are not rejected.',
 ['inputs','configurations'],'all function expressions over the standard functions and any registered signatures, all seven crates',
 'Well-typedness is a recursive judgement over expression shape, parameter types and position; tests sample single-level calls.',
 [H+'parser.rs',S+'parser.rs',I+'parser.rs',L+'parser.rs',G+'parser.rs',C+'jsonpath_rfc9535_pest/src/parser.rs',C+'jsonpath_rfc9535_pest_recursive/src/parser.rs'],
 m(('assert_well_typed','parser.rs'),('assert_compared, assert_comparable','parser.rs'),('is_value_type, is_nodes_type','parser.rs')))
p('P13','Tokens cover the query text in order and point at their own text',
 'For every input text, tokenization terminates without failing and yields tokens in text order whose recorded positions lie within the text on character boundaries and whose recorded text is the text at that position; the sequence ends with exactly one end-of-input or error token.',
 ['inputs'],'all UTF-8 strings, the hand-written crate',
 'The lexer is a state machine with bracket and parenthesis counters; runs over arbitrary malformed text reach states no test lists.',
 [H+'lexer.rs',H+'token.rs'],m(('Lexer','lexer.rs'),('state functions lex_*','lexer.rs')),state=[{"name":"filter_depth","meaning":"open filter selectors"},{"name":"filter_parens, paren stack","meaning":"open parentheses and function calls"}])
p('P14','Parsing never panics: every text gives a query or an error',
 'For every text (of nesting the stack allows), parsing returns either a query or an error carrying a message and a position inside the text; it never panics or loops.',
 ['inputs'],'all UTF-8 strings, all seven crates',
 'Totality is a claim about every malformed text; tests contain a few hundred.',
 [H+'parser.rs',H+'lexer.rs',S+'parser.rs',I+'parser.rs',L+'parser.rs',G+'parser.rs',C+'jsonpath_rfc9535_pest/src/parser.rs',C+'jsonpath_rfc9535_pest_recursive/src/parser.rs'],
 m(('Parser::parse','parser.rs'),('next_token, expect helpers','parser.rs')))
p('P15','The syntax tree reflects RFC 9535 precedence, grouping and order',
 'For every accepted query, the syntax tree has the segments and selectors in text order with the values written, and logical expressions are grouped by precedence (! over comparison and test over && over ||), left to right, with parentheses overriding and otherwise leaving no trace in meaning.',
 ['inputs'],'all accepted queries, all seven crates',
 'Grouping is a recursive property of arbitrarily long operator chains; tests check two or three operators.',
 [H+'parser.rs',S+'parser.rs',I+'parser.rs',L+'parser.rs',G+'parser.rs',C+'jsonpath_rfc9535_pest/src/parser.rs',C+'jsonpath_rfc9535_pest_recursive/src/parser.rs'],
 m(('parse_filter_expression, parse_infix_expression','hand parser.rs'),('parse_logical_or_expression, parse_logical_and_expression','pest parser.rs')))
p('P16','A printed query parses back to the same query',
 'Printing any parsed query gives text that parses again and denotes the same query, so printing loses nothing: names and string literals are quoted with all special characters escaped, and grouping is kept.',
 ['inputs'],'all accepted queries, all seven crates',
 'Round-trip is a universal statement over syntax trees; tests compare the printed form of a fixed list.',
 [H+'query.rs',C+'jsonpath_rfc9535_pest/src/ast.rs',C+'jsonpath_rfc9535_pest_recursive/src/ast.rs',S+'ast.rs',I+'query.rs',I+'segment.rs',I+'selector.rs',I+'filter.rs',L+'query.rs',L+'segment.rs',L+'selector.rs',L+'filter.rs',G+'query.rs',G+'segment.rs',G+'selector.rs',G+'filter.rs'],
 m(('fmt::Display impls','query.rs, ast.rs, segment.rs, selector.rs, filter.rs'),('quote','same files')))
p('P17','A query is reported singular exactly when it is a singular query',
 'A query is reported singular exactly when every one of its segments is a child segment with exactly one name or index selector, and empty exactly when it has no segments; a singular query never yields more than one node.',
 ['inputs'],'all queries, all crates that report singularity',
 'The answer gates type checking and evaluation shortcuts for queries of any length; tests check a few.',
 [H+'query.rs',C+'jsonpath_rfc9535_pest/src/ast.rs',C+'jsonpath_rfc9535_pest_recursive/src/ast.rs',S+'ast.rs',I+'query.rs',L+'query.rs',G+'query.rs',I+'segment.rs',L+'segment.rs',G+'segment.rs'],
 m(('Query::is_singular, Query::is_empty','query.rs / ast.rs'),('Segment::is_singular','segment.rs / ast.rs')))
p('P18','The four evaluators give the same nodelist for every query and value',
 'For every query both accept and every JSON value, the eager, iterator-based, location-tracking and singular-query evaluators select the same nodes in the same order.',
 ['inputs','configurations'],'all queries without extension syntax, all JSON values, all pairs of the four evaluating crates',
 'Each crate is tested alone against a list of expected results; agreement off that list is untested.',
 [S+'ast.rs',I+'iter.rs',I+'selector.rs',L+'selector.rs',L+'segment.rs',G+'selector.rs',G+'segment.rs'],
 m(('Query::find','query.rs / ast.rs'),('Selector::resolve','selector.rs / ast.rs / iter.rs')))
p('P19','A singular-query selector acts as the name or index it evaluates to',
 'In the crate with singular-query selectors, such a selector selects what a name selector (if its query yields a string) or an index selector (if its query yields an integer) would select from the current node, and nothing if the query yields no node or any other value. The embedded query is resolved against the query argument.',
 ['inputs'],'all singular-query selectors, all JSON values',
 'The extension has a handful of examples; the claim couples two evaluations over arbitrary data.',
 [G+'selector.rs',G+'query.rs'],m(('Selector::SingularQuery arm of resolve','selector.rs')))
p('P20','Number literals denote exactly the number written',
 'Every number literal the grammar allows denotes in comparisons the number written: an integer keeps its exact value within 64 bits, and a literal with fraction or exponent is the nearest double. Spellings of the same number (1, 1.0, 10e-1, 1E0) are interchangeable and ill-formed spellings are rejected.',
 ['inputs'],'all number literals, all seven crates',
 'The space of digit, fraction and exponent combinations is unbounded; tests sample a few spellings.',
 [H+'lexer.rs',H+'parser.rs',S+'parser.rs',I+'parser.rs',L+'parser.rs',G+'parser.rs',C+'jsonpath_rfc9535_pest/src/parser.rs',C+'jsonpath_rfc9535_pest_recursive/src/parser.rs'],
 m(('parse_number','parser.rs'),('lex number states','hand lexer.rs')))
p('P21','Evaluation never panics, for any accepted query and any value',
 'Evaluating any accepted query against any JSON value terminates without panicking, overflowing arithmetic or exhausting the stack on long (as opposed to deep) input; every integer, float, string and container shape is handled.',
 ['inputs'],'all accepted queries, all JSON values whose depth the stack allows, four evaluating crates',
 'Panics hide in conversions and arithmetic at extreme values and in unreachable branches; tests use ordinary data.',
 [S+'ast.rs',I+'filter.rs',I+'iter.rs',I+'selector.rs',L+'filter.rs',L+'selector.rs',G+'filter.rs',G+'selector.rs']+four('standard_functions'),
 m(('from_json_value','filter.rs / ast.rs'),('slice, norm_index','selector.rs / ast.rs'),('FunctionRegister lookup','function.rs'),('iterators','iter.rs')))
p('P22','A text is accepted exactly when it is a valid RFC 9535 query',
 'Each parser accepts exactly the texts that are well-formed and valid by RFC 9535 (plus, in the crate with singular-query selectors, that one documented extension).',
 ['inputs'],'all texts, all seven crates',
 'Acceptance is a language-equality claim; the suite samples a few hundred members of the language and its complement.',
 [H+'lexer.rs',H+'parser.rs',S+'jsonpath.pest',I+'jsonpath.pest',L+'jsonpath.pest',G+'jsonpath.pest',C+'jsonpath_rfc9535_pest/src/jsonpath.pest',C+'jsonpath_rfc9535_pest_recursive/src/jsonpath.pest'],
 m(('grammar','jsonpath.pest'),('lexer and parser','hand lexer.rs, parser.rs')))
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        for a in x['anchors']['files']:
            assert os.path.exists('/repo/'+a),a
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
