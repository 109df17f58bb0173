def P(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a, technique=technique, level_note=note)
ENUM = 'exhaustive enumeration of bounded {0} on the real code against a reference model'
NOTE = 'Complete within the stated alphabet and bounds; every case runs on the real code. The reference model is hand written and trusted; nothing is claimed beyond the bounds.'
S = 'crates/abe/src/'
PROPS = [
P('A01', 'Byte text is a faithful, printable encoding of arbitrary bytes',
  'Every byte string has a text form that consists of printable ASCII characters only, contains no unescaped delimiter, bracket or newline, and reads back to exactly the same bytes; the shortened form that trims padding reads back to the trimmed bytes. Reading any text either gives the bytes the documented escapes denote or reports an error at the first offending position, and never accepts a raw control character, an unknown escape or a cut off escape. A reader that is given a byte limit never yields more than that limit.',
  ['inputs'], 'all byte strings and all texts over an escape relevant token alphabet, to a bounded length',
  'One unit test samples a dozen strings; the guarantee is about every byte in every position and every malformed escape.',
  [S+'abtxt.rs'], [('as_abtxt', S+'abtxt.rs'), ('parse_abtxt_upto_max', S+'abtxt.rs'), ('escape table', S+'abtxt.rs')],
  ENUM.format('byte strings and texts'), NOTE),
P('A02', 'Expression text is parsed exactly by its grammar and survives printing',
  'Parsing expression text accepts exactly the texts of the grammar (bytes, the two delimiters, balanced brackets, escapes) and gives the tree the text denotes; everything else is refused with an error. Printing any expression tree and parsing the result gives an equivalent tree. Nesting depth alone can never crash the process: too deep an expression is refused.',
  ['inputs'], 'all texts over the token alphabet and all syntax trees to a bounded size, plus nesting at and beyond the accepted depth',
  'Existing tests parse a few well formed expressions; rejection and round trip must hold for every text.',
  [S+'ast.rs', S+'eval.rs'], [('parse_abe / parse_abe_strict', S+'ast.rs'), ('Display of expressions', S+'ast.rs'), ('depth limit', S+'ast.rs')],
  ENUM.format('texts and syntax trees'), NOTE),
P('A03', 'Splitting text at its top level loses and invents nothing',
  'Splitting text into delimited components cuts exactly at the delimiters that stand outside brackets and escapes; joining the components with their delimiters gives the original text back, including empty components at either end. Delimiters the caller declares plain are not cut at, and text with unbalanced brackets or with delimiters the caller refuses is an error.',
  ['inputs', 'configurations'], 'all texts over the alphabet to a bounded length, with every choice of plain and refused delimiters',
  'The unit test splits a handful of strings.',
  [S+'ast.rs'], [('tokenize_abe', S+'ast.rs')],
  ENUM.format('texts and delimiter configurations'), NOTE),
P('A04', 'Evaluating an expression follows the documented pipeline order',
  'Evaluating an expression calls its functions and macros exactly once each, in the order and with the arguments the language defines (pipes pass the result on as the first argument, macros get their text unevaluated), and the value is the delimited list the results denote. The first function that fails or does not exist ends the evaluation with an error, and nothing after it is called. Delimiters and brackets in computed bytes are never interpreted as syntax.',
  ['programs'], 'all expressions over the token alphabet to a bounded length, with recording functions',
  'Tests evaluate some fixed expressions and only see final values, not which functions were called with what.',
  [S+'eval.rs'], [('eval', S+'eval.rs'), ('dump_abe_bytes', S+'eval.rs')],
  'exhaustive enumeration of bounded programs; call traces of the real evaluator compared with a reference evaluator', NOTE),
P('A05', 'Stacked scopes answer by precedence and errors stop the search',
  'When scopes are combined, a name is answered by the first scope that knows it; a scope that has no answer passes on to the next, and a scope that reports an error ends the lookup without asking later ones, while whoever answers is handed the whole combination for its own lookups. A function is only called with a number of arguments and in a call position it declares; positional argument access returns the right argument, and an error when it is absent.',
  ['programs', 'configurations'], 'every assignment of {no answer, value, error} to up to three scopes in every way of combining them; every argument count against every declared range',
  'No existing test combines scopes that disagree.',
  [S+'eval.rs', S+'scope'], [('scope composition', S+'eval.rs'), ('argument checks', S+'eval.rs'), ('positional arguments', S+'scope')],
  'exhaustive enumeration of scope configurations on the real evaluator against a reference lookup', NOTE),
P('A06', 'An encoded expression evaluates back to the bytes it encodes',
  'Encoding bytes with any chain of encoders yields, when it succeeds, a printable expression that evaluates to exactly those bytes, for every encoder the standard scope offers. The first encoder of the chain that applies to the bytes is the one used, encoders that do not apply are skipped, and when none applies the encoding fails.',
  ['inputs', 'configurations'], 'all byte strings over a value set to a bounded length, all two byte values and shapes to 40 bytes, with all chains of one to three encoders',
  'Tests encode a few values with one encoder.',
  [S+'eval.rs', S+'scope'], [('encode', S+'eval.rs'), ('encoders', S+'scope')],
  ENUM.format('byte strings and encoder chains'), NOTE),
P('A07', 'Padding, cutting, slicing and replacing follow their documentation',
  'The functions that pad, cut, fix to a length, slice or replace bytes give exactly the documented result for every argument, including empty values, lengths at, below and above the size of the value, negative positions and extreme numbers, and report an error for arguments they do not accept. They never crash, loop forever or allocate without bound.',
  ['inputs'], 'all argument tuples over sets of values, lengths and positions that include the extremes of every integer type',
  'The existing tests use one or two ordinary arguments.',
  [S+'scope', S+'ast.rs'], [('byte functions', S+'scope'), ('replace_abe', S+'ast.rs')],
  ENUM.format('argument tuples'), NOTE),
P('A08', 'Integer and base conversion functions are exact or refuse',
  'Integer functions read decimal text and bytes exactly, give values of their declared width, and refuse what does not fit instead of truncating or wrapping; addition and subtraction on bytes behave as big endian arithmetic that saturates at the ends. Base 2, 8, 16 and 64 conversions are inverse to each other on everything they accept and refuse everything else.',
  ['inputs'], 'all arguments over sets that include every boundary of every width, all short byte strings and all short digit strings',
  'Tests check single conversions.',
  [S+'scope'], [('integer functions', S+'scope'), ('base conversions', S+'scope')],
  ENUM.format('arguments'), NOTE),
P('A09', 'Evaluating untrusted expressions always gives a value or an error',
  'Every expression evaluated in the standard scope gives a value or an error: it never crashes, aborts, hangs or exhausts memory, and evaluating it again gives the same answer.',
  ['programs', 'inputs'], 'every function of the standard scope with every argument tuple of an adversarial value set in both call styles, and all pipelines of two calls',
  'Totality is a statement about every input; tests only run inputs that work.',
  [S+'eval.rs', S+'scope', S+'abtxt.rs'], [('eval', S+'eval.rs'), ('standard scope', S+'scope')],
  'exhaustive enumeration of bounded programs on the real evaluator in a supervised process', NOTE),
P('A10', 'Option lists find the latest matching entry and survive printing',
  'Looking up options by a prefix of components finds exactly the entries that start with those components, latest first, whether or not an entry carries a value or a leading delimiter; the value of an option is the single component after the prefix, absent when there is none. Printing a list of options and reading it back keeps the entries and their order, and text that is not such a list is refused.',
  ['inputs', 'histories'], 'all lists of up to three entries over small component sets with all prefixes; all short texts',
  'There is no test of option lookup.',
  [S+'abconf.rs', S+'eval.rs'], [('ABConf', S+'abconf.rs')],
  ENUM.format('option lists and prefixes'), NOTE),
P('A11', 'Delimited lists convert between their views without loss',
  'However a delimited list is built, its components, its delimiters, its plain bytes, its printed text and its expression all describe the same list, and reading the text or evaluating the expression gives that list back. A list counts as a single value exactly when it has no delimiter. Typed expressions accept exactly the expressions of their type and give the same value as untyped evaluation, one by one or several at once, also after being stored and loaded, and the default only when the value is empty.',
  ['histories', 'programs'], 'all sequences of appends and all expression texts over the alphabets to a bounded length',
  'Only single conversions are tested.',
  [S+'eval.rs', S+'convert.rs'], [('ABList', S+'eval.rs'), ('TypedABE', S+'convert.rs')],
  'exhaustive enumeration of operation sequences on the real list type against a list model', NOTE),
P('A12', 'Alternatives and checks inside expressions try in order and stop exactly',
  'An alternative expression evaluates its branches from left to right and gives the value of the first branch that succeeds, without evaluating the rest; it fails only when every branch fails. Evaluating a byte value as an expression gives what that expression gives. The size and value checks pass their input on unchanged exactly when the condition holds and are an error otherwise.',
  ['programs'], 'all expressions over a token alphabet of alternatives, nested evaluation, checks, failing and recorded calls, to a bounded length',
  'No existing test looks at which branches were evaluated, or at checks that fail.',
  [S+'eval.rs', S+'scope'], [('or / eval', S+'scope'), ('size? / val?', S+'scope')],
  'exhaustive enumeration of bounded programs; call traces of the real evaluator compared with a reference evaluator', NOTE),
P('A13', 'Expressions and answers are taken apart and put together exactly',
  'Asking an expression for its first components, for exactly so many, for a value behind or before a delimiter, or for one kind of component gives precisely those and everything that follows, or nothing when the shape is another. Expressions written in source mean what their text means, values fit fixed sizes by padding on the stated side or are refused, and combining the three kinds of answer (none, value, error) loses neither a value nor an error.',
  ['inputs', 'programs'], 'all lists of components over eight kinds to length 5 and over four kinds to length 8, every combination of three answers, all byte strings over a value set to length 8 against all sizes, and long ones',
  'Tests take a few expressions apart.',
  [S+'ast.rs', S+'eval.rs', S+'lib.rs', S+'abe_macro.rs'], [('take / exact / strip_prefix', S+'ast.rs'), ('ApplyResult', S+'eval.rs'), ('fit / cut', S+'lib.rs')],
  ENUM.format('lists of components, answers and byte strings'), NOTE),
P('A14', 'The help names exactly what can be called, and how',
  'For every combination of scopes the help describes each scope in the order in which they are asked, with every function and macro, and says of each function whether it opens, follows, and encodes, for which numbers of arguments, and whether an earlier one hides it. What is listed is exactly what answers, in exactly those ways; asking for the help about one name describes the first scope that has it. The standard scope answers no name and no number of arguments that it does not list.',
  ['configurations', 'inputs'], 'every combination of up to three scopes over functions of every call style, range and encoder; every name of up to two characters and every name next to a listed one; every number of arguments to twenty',
  'No existing test compares the help with the behaviour.',
  [S+'scope/help.rs', S+'eval.rs', S+'scope'], [('help', S+'scope/help.rs'), ('describe', S+'eval.rs')],
  'exhaustive enumeration of scope configurations; the parsed help is compared with the configuration and with the answers of the real scopes', NOTE),
]
