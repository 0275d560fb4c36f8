TLA = 'TLA+ specification, TLC; generated behaviours replayed into the real code'
TRUST = 'Trusted: TLC, the takatori stand-in headers in /verif/shim, the accessor based printer in /verif/harness.'
STAND = 'Bounded by the generated inputs. Trusted: TLC, and the stand-ins for takatori and yugawara in /verif/stand, which are not installed here: the sources of the analyzer are compiled unchanged against them.'
CLAIMS = [
    ('P01', TLA, 'All concatenations of up to 4 (5 in thorough) of the atoms of each theme (operators, numbers, strings, comments, names, words, phrases, bytes that begin nothing), scanned by the character level machine; every word and sign in every letter case; the text of generated sentences under random layouts. Compared with the tokens of the real scanner, and through the parser. ' + TRUST),
    ('P02', TLA, 'Every word of the vocabulary, bare and quoted, in random letter case at every kind of name position found in the generated sentences (complete for a sample of the positions, sampled for the others; complete for all in thorough), scanned by MzLexer and read by MzParse; tree or diagnostic compared. ' + TRUST),
    ('P03', TLA, 'All spellings of names up to 5 (6) atoms of quotes, underscores, letters, digits, blanks and multi byte characters, in every name position; qualified names of up to 8 parts in 15 contexts. ' + TRUST),
    ('P04', TLA, 'The reader machine over the grammar decides all generated sentences and their neighbours (one token dropped, doubled, swapped, replaced or inserted) and, after every viable prefix reached, every token of the vocabulary. ' + TRUST),
    ('P05', TLA, 'Every production of the grammar in every immediate context, every pair of alternatives within a production and random derivations: the tree of the real parser equals the tree the specification derives. Bounded by the generated sentences. ' + TRUST),
    ('P06', TLA, 'All operator expressions of each family up to 3 (4) operators written with the least, with the most and with doubled parentheses, and long random ones; set operators likewise. ' + TRUST),
    ('P07', TLA, 'All spellings of numbers, strings and hexadecimal strings up to 5 (6) atoms, sizes around 2^31, 2^32, 2^63 and 2^64, in every literal position; random sign prefixes over all kinds of operands; runs of string pieces. ' + TRUST),
    ('P08', TLA, 'Place and code of the diagnostic of every mutant of the generated sentences, with arbitrary texts after the offending token. ' + TRUST),
    ('P09', TLA, 'The suggestion list at every viable prefix of the generated sentences, for all maxima from 0 to above the number of continuations. ' + TRUST),
    ('P10', TLA, 'Histories of parser objects (created, configured, moved, dropped, called from up to six threads, results looked at again): every text after every text, all short histories over two objects, long random ones; random bytes; texts around the sizes of scanner buffers. Two findings about extreme nesting are listed. ' + TRUST),
    ('P11', TLA, 'The source range of every node of every generated sentence equals the range given by the specification under random white space and comment layouts; the model is checked for nesting and order of ranges. ' + TRUST),
    ('P12', TLA, 'Every list of the grammar grown to several lengths, the generated sentences and random derivations, under limits below, at and above the length of each list kind, alone and combined: outcome and place computed by the limit machine MzLimits. ' + TRUST),
    ('P13', TLA, 'Node and depth limits around the size and height of the tree of every generated sentence, alone and combined; MzLimits measures the tree of the specification. ' + TRUST),
    ('P14', TLA, 'Placeholders put at every value position of the generated sentences, alone, all and at random, in single and multi statement texts, among look-alikes in strings, quoted names and comments, up to 300 in one text; numbered by the scanner machine. ' + TRUST),
    ('P15', TLA, 'All short character sequences in front of declarations, every comment shape at every place of 16 frames, random gaps in generated sentences, with and without the feature; the text of description comments up to 4 (6) characters of 6 kinds, 6 (8) of 4 kinds, and long random ones. ' + TRUST),
    ('P16', TLA, 'Objects of all 103 classes of the syntax tree with every component altered alone and every pair of components altered together (MzAst; every triple in thorough), all pairs of objects of a family compared in both orders, as concrete and as base types, and across classes; every comparison in the histories of MzObjects. ' + TRUST),
    ('P17', TLA, 'The same objects copied, moved, assigned and wrapped, the copy or the original then changed or destroyed; MzObjects (objects in memory, ownership, operations over handles) is checked for faithfulness and single ownership, and its histories - all short ones over a few classes, long random ones over all classes - are replayed operation by operation, contents and addresses of all live objects compared. ' + TRUST),
    ('P18', TLA, 'Every object of MzAst printed: twice, through every base type, beside a copy; two objects print alike exactly when the specification gives them the same shape. ' + TRUST),
    ('P19', TLA, 'All ranges over a small line of positions plus the missing position, all joins up to depth 2 (pairs of pairs), every comparison, part and carried value, placed at random order preserving positions over the whole 64 bit range. ' + TRUST),
    ('P20', TLA, 'Every constant of every public enumeration, every kind family and class, and lookups of all names and of damaged names, in several orders and from several threads. Exhaustive for the constants. ' + TRUST),
    ('P21', TLA, 'All histories of length 2 (3 for fewer kinds, 4 in thorough) of creating, writing, copying, moving and swapping option objects and element maps, and long random histories; every entry read in four ways after every step. ' + TRUST),
    ('P22', TLA, 'Every object of MzAst dispatched through every dispatcher of its family, mutable and constant, with and without arguments and results, to recording handlers; kind, class and kind tests against the specification. ' + TRUST),
    ('P23', TLA, 'All pairs of about 50 parts (statements of every kind, damaged ones, nothing), all triples of a few and random texts of up to 30 parts, composed by MzCompose from what the parts mean alone; a sample is also read as a whole by MzParse. ' + TRUST),
    ('P30', TLA, 'Every type denotation the grammar admits with sizes, precisions and scales around every limit, under settings of the limits and defaults: the type or the refusal given by MzType. ' + STAND),
    ('P31', TLA, 'All spellings of numbers, strings, octets and datetimes up to 5 atoms of each theme and long random ones, with and without sign, under the settings of the analyzer: the constant, its type, or the refusal given by MzLiteral. ' + STAND),
    ('P32', TLA, 'All small scopes - relations of up to three columns, correlation names, qualifiers, nested queries, joins, catalogs with searched and unsearched schemas - and names of up to four parts looked up in them (MzNaming, MzScope), long random ones, and routine parameters; relations declared in several orders. ' + STAND),
    ('P33', TLA, 'Generated catalogs (schemas, search paths, tables with hidden columns, functions) and generated queries over them - joins, grouping, set operations, WITH, subqueries, ordering, limits, defects of every kind - under the settings of the analyzer: the plan or the refusal, with its place, given by MzQuery; the catalog stays as it was. ' + STAND),
    ('P34', TLA, 'Generated catalogs and generated statements over them - INSERT, UPDATE, DELETE, CREATE TABLE and INDEX, ALTER, DROP, TRUNCATE, GRANT, REVOKE - with options, constraints, defaults, sequences and defects of every kind: the statement or the refusal, with its place, given by MzStatement; the catalog stays as it was. ' + STAND),
    ('P35', TLA, 'As P33, with most queries aggregating: grouping columns, aggregate functions in every clause and nested in expressions and subqueries, outer variables. ' + STAND),
    ('P36', TLA, 'As P33, with most expressions calls over twenty and more overloaded declarations in three schemas - scalar, aggregate and table valued, of every arity, of incomparable and comparable parameter types - called by name, as built-in functions, as EXTRACT and through APPLY. ' + STAND),
    ('P37', TLA, 'As P33 and P34, with most expressions host parameters and placeholders, over generated sets of registered values and variables, with and without the colon in the names, registered once and again. ' + STAND),
]
PENDING = 'check under construction'
NOT_APPLICABLE = {}
NOTES = 'See DESIGN.md.'
