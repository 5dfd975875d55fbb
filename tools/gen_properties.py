import json
import os
P='python/enolib/'
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[P+f for f in files],mechanism=[dict(name=n,where=P+w) for n,w in mech],observe_at=obs,state=state or [],hook_needed=None))
A=[]
A.append(p('C01','Parsing is total: a document or a ParseError, nothing else',
 'For every text, parsing terminates and either returns a document or raises a ParseError; no other exception ever escapes, whatever locale or reporter (text, HTML, terminal) is selected. A document that was returned can be converted to its raw form and traversed completely, with every element\'s type, key, value and comment readable without a crash. A raised ParseError always carries a message text, a snippet and a cursor/selection.',
 ['inputs','configurations'],'all texts, all three reporters, all three locales, with and without a source label',
 'Tests parse some hundred fixed documents with the text reporter; the only fuzz test is outside the stable suite and never uses another reporter or reads the parsed document.',
 ['parse.py','context.py','analyzer.py','resolver.py','errors/parsing.py','reporters/reporter.py','reporters/terminal_reporter.py'],
 [('line loop with error fallback','analyzer.py:analyze'),('error context tokenizer','analyzer.py:_tokenize_error_context'),('copy resolution recursion','resolver.py:resolve')],
 ['enolib.parse','Section.raw','element traversal through the public accessors']))
A.append(p('C02','Every line is recognised by the eno line grammar with exact key and value',
 'Each line of a document, on its own, is either blank, a comment, a continuation, a list item, a multiline field marker, a section heading (with optional copy or deep copy template), an element/field, a fieldset entry or a copy - or it is rejected as an invalid line (or as an unterminated escaped key). The key, value, template, comment text and heading depth that are read are exactly the delimited characters with surrounding whitespace removed; backtick-escaped keys may contain any operator. Indentation and spacing around operators never change what is read, and no construct ever spans a line break except a multiline field.',
 ['inputs'],'all lines over the full operator alphabet plus ordinary and whitespace characters (Unicode included)',
 'The pattern tests sample one spacing variant table for a few dozen hand-picked lines; combinations of operators, escapes and whitespace are unbounded.',
 ['grammar_regex.py','analyzer.py'],[('line regular expression','grammar_regex.py:REGEX'),('dispatch on matched operator','analyzer.py:analyze')],['Section.raw','ParseError.text','ParseError.selection']))
A.append(p('C03','The parsed tree mirrors the document line by line',
 'In every accepted document each section, element, list item, fieldset entry and multiline field written in the text appears exactly once at the place its line puts it: sections nest by the number of # signs, elements belong to the nearest preceding section heading, items, entries and continuations belong to the nearest preceding element, and siblings keep document order. An element is an empty element, field, list, fieldset or section exactly according to the lines that follow it.',
 ['inputs'],'all sequences of line kinds, any nesting depth',
 'Only a handful of short fixed sequences are snapshot-tested; the number of interleavings of line kinds and depths grows exponentially.',
 ['analyzer.py','context.py'],[('last section / last element / last continuable tracking','analyzer.py:analyze')],['Section.raw','Section.elements','Fieldset.entries','List.items']))
A.append(p('C04','Exactly the structurally wrong documents are rejected, at the first wrong line',
 'A document is rejected at the first line that is not a valid line, is a list item, fieldset entry or continuation with nothing it may attach to, is a section heading more than one level deeper than the current one, or opens a multiline field that is never closed. The ParseError names that kind of problem and that line (one-based line number and key in the message text). No other document is rejected before its copies are looked at.',
 ['inputs'],'all sequences of line kinds, any nesting depth',
 'Tests cover one or two minimal documents per error kind; they cannot show that no legal sequence is rejected and no illegal one slips through.',
 ['analyzer.py','errors/parsing.py'],[('attachment rules','analyzer.py:analyze'),('error factories','errors/parsing.py')],['enolib.parse','ParseError.text','ParseError.selection']))
A.append(p('C05','Continuation lines build exactly one value',
 'The value of a field, list item or fieldset entry is its own trimmed value followed by the values of its continuation lines in order; a | continuation appends directly, a \\ continuation appends after exactly one space, and any run of empty continuations between two values contributes at most one space, only if one of them is a \\ continuation. Leading and trailing empty continuations add nothing, and an element with no value on any of its lines has no value. Blank lines and comments between continuations do not matter.',
 ['inputs'],'all sequences of continuation lines with and without values, on fields, items and entries, with blank lines and comments in between',
 'One snapshot with a single pattern of continuations is tested.',
 ['context.py','analyzer.py'],[('value computation','context.py:value')],['required_string_value','optional_string_value','raw']))
A.append(p('C06','Multiline field content is verbatim',
 'The value of a multiline field is exactly the text between its opening and closing lines, byte for byte, whatever that text looks like (operators, comments, shorter or longer dash runs, other keys, blank and whitespace-only lines included); nothing in it is interpreted. It ends at the first line consisting of the same number of dashes and the same key (spacing aside), and if there is no line in between it has no value.',
 ['inputs'],'all contents and keys, dash runs of any length, regular-expression metacharacters in keys',
 'Four tiny snapshot documents are tested.',
 ['analyzer.py','context.py'],[('terminator search','analyzer.py:analyze'),('slice of the input','context.py:value')],['required_string_value','raw']))
A.append(p('C07','Comments belong to the element directly below and keep relative indentation',
 'A block of consecutive comment lines directly above an element, item, entry or section (no blank line or continuation in between) is that element\'s comment, and every other comment is ignored. The comment text is the lines joined by newlines with leading and trailing empty comment lines dropped and the common indentation removed, so that relative indentation is preserved; a comment without any text is no comment.',
 ['inputs'],'all comment blocks: any indentation before and after the operator, empty lines anywhere, attached and unattached',
 'Three indentation examples are tested.',
 ['context.py','analyzer.py'],[('comment computation','context.py:comment'),('pending comments','analyzer.py:analyze')],['optional_string_comment','required_string_comment','raw']))
A.append(p('C08','Copying a non-section element yields the template\'s content plus its own',
 'An element copied from a template without content of its own has the template\'s type and value (field and multiline field), items or entries. A copied list with own items has the template\'s items first, then its own; a copied fieldset with own entries has the template\'s entries first, without those whose key it redefines, then its own. This holds through chains of copies in any document order, a copy without own comment takes the template\'s comment, and the template itself is never changed by being copied.',
 ['inputs'],'all documents with copies, chains of any length, forward and backward references, across sections',
 'One resolver snapshot and two generated tests cover single-step backward copies.',
 ['resolver.py','context.py','elements/list.py','elements/fieldset.py'],[('consolidation','resolver.py:consolidate_non_section_elements'),('lazy merge','context.py:entries, items, value')],['raw','List.items','Fieldset.entries','required_string_value']))
A.append(p('C09','Copying a section merges by key; deep copying merges subsections too',
 'A section copied from a template contains the template\'s elements, in the template\'s order and without those whose key it defines itself, followed by its own elements. With a deep copy, where both sections spell out exactly one element of some key and both are sections, those subsections are merged by the same rule recursively instead of one replacing the other; with a shallow copy they are not. This holds through chains of copies, in any document order, and templates are never changed by being copied.',
 ['inputs'],'all documents with section copies: chains, deep copies, nested targets and templates, duplicate keys',
 'One resolver snapshot covers one shallow and one deep copy of two-level sections.',
 ['resolver.py','context.py','elements/section.py'],[('section consolidation','resolver.py:consolidate_sections'),('lazy merge','context.py:elements'),('instantiation','elements/section.py:_instantiate_elements')],['raw','Section.elements','Section.section']))
A.append(p('C10','Unresolvable copies are rejected, resolvable ones are not',
 'A copy whose template key names no other element (of the matching kind: section or non-section) anywhere in the document, or more than one, is rejected as not found or ambiguous; copies that lead back to themselves, directly, through other copies, through containment or through a deep copy, are rejected as cyclic; and adding items to something that is not a list or entries to something that is not a fieldset is rejected. Every other copy resolves; the ParseError names the kind of problem, the line and the key.',
 ['inputs'],'all copy graphs over elements and nested sections',
 'Tests try about ten fixed copy graphs.',
 ['resolver.py','errors/parsing.py'],[('template index','resolver.py:index'),('recursive resolution with chain of predecessors','resolver.py:resolve_section, resolve_non_section_element')],['enolib.parse','ParseError.text','ParseError.selection']))
A.append(p('C11','Typed queries return exactly the matching elements or the right error',
 'Asking a section for one element, empty, field, fieldset, list or section by key (or for the only one, without a key) returns that element if exactly one exists and its type fits, and otherwise raises a ValidationError saying whether it is missing (required variants), there are several, or its type is wrong. The plural queries return all elements with the key in document order or name the first one of the wrong type; empty elements are accepted as fields, lists, fieldsets and empties, never as sections. The same holds for entries of a fieldset, and a list returns exactly its items and values.',
 ['inputs','histories'],'all documents, keys, accessors and call orders',
 'Tests call each accessor on one or two fixed documents.',
 ['elements/section.py','elements/fieldset.py','elements/list.py','elements/section_element.py'],[('accessors','elements/section.py:_element, _field, _list, ...'),('entry accessor','elements/fieldset.py:_entry')],['Section.*','Fieldset.*','List.*','ValidationError.text']))
A.append(p('C12','Missing elements behave as absent all the way down',
 'A query by key that finds nothing and is neither optional nor required yields a placeholder on which every optional and every plural accessor gives nothing (None or an empty list) and every further query yields a placeholder again, to any depth. The first required singular accessor on the placeholder or below it raises a ValidationError that names the topmost missing element with its type and key, exactly as if it had been required directly. Optional variants give None instead of a placeholder.',
 ['inputs','histories'],'all chains of queries below a missing element, on all placeholder types',
 'Tests cover a few one-step placeholders.',
 ['elements/missing/','elements/section.py','elements/fieldset.py'],[('error delegation to the existing parent','elements/missing/missing_element_base.py:_missing_error'),('missing error','elements/section.py:_missing_error')],['Missing* objects','ValidationError.text']))
A.append(p('C13','assert_all_touched finds exactly the untouched elements',
 'assert_all_touched on a section or fieldset succeeds if and only if every element in it (recursively, with copies counted separately from their templates) has been fetched as a concrete type and read, queried or touched since parsing; otherwise it raises a ValidationError locating one that was not. only and skip restrict the check to, or exempt, the given keys; reading one element never marks another one, and a custom message (or message function of the element) replaces the text.',
 ['inputs','histories'],'all documents and all histories of accesses',
 'Tests cover at most two accesses on one-element documents.',
 ['elements/section.py','elements/section_element.py','elements/fieldset.py','elements/list.py','elements/element_base.py'],[('touch marks','elements/*.py:_touched'),('untouched search','elements/section.py:_untouched')],['assert_all_touched','touch']))
A.append(p('C14','An element commits to one type and stays the same object',
 'Fetching the same element again, by whatever query leads to it, yields the same object. Once an (ambiguous) empty element was fetched as an empty, field, fieldset or list, fetching it as another of these types raises a TypeError and changes nothing, while fetching it as the same type keeps working. The yields_* predicates are true exactly for the types that a fetch would not reject because of the element\'s own type.',
 ['inputs','histories'],'all documents and all histories of fetches',
 'Tests never fetch an element twice as different types.',
 ['elements/section_element.py','elements/element.py','elements/section.py'],[('yield cache','elements/section_element.py:to_*')],['SectionElement.to_*','yields_*']))
A.append(p('C15','Loaders see the exact text and their errors become located ValidationErrors',
 'A loader passed to a value, values, key or comment accessor (or registered under a name) is called once per existing value with exactly the string the corresponding string accessor returns, never for a missing one, and its result is returned unchanged. A ValueError raised by it becomes a ValidationError of the value, key or comment kind with the loader\'s message and the location of that value, key or comment; other exceptions pass through unchanged. Registered accessors behave like the generic ones on present and on missing elements.',
 ['inputs','histories'],'all elements, accessors, loaders (returning anything, raising anything)',
 'Tests use one upper-casing loader and one failing loader on fixed elements.',
 ['elements/element_base.py','elements/value_element_base.py','elements/field.py','elements/list.py','register.py','errors/validation.py'],[('loader invocation','elements/value_element_base.py:_value'),('registration','register.py:_register')],['required_value','optional_value','key','required_comment','optional_comment','register']))
A.append(p('C16','Error cursors and selections point at the reported text',
 'Every ParseError and ValidationError carries a selection inside the document with from not after to, whose line, column and index agree with each other and with the text, and whose cursor is its begin. It covers exactly what the error is about: the offending line, the whole element with everything that belongs to it, the key, the comment block, the value including continuations, the place after the operator where a missing value belongs, the template reference of a cyclic copy, the rest of an unterminated key, or the beginning of the document for errors about the document itself.',
 ['inputs','histories'],'all documents and all errors that parsing and the element API can raise or construct',
 'Tests assert line and column for roughly one document per error.',
 ['errors/selections.py','errors/parsing.py','errors/validation.py'],[('selection helpers','errors/selections.py'),('error factories','errors/validation.py')],['Error.selection','Error.cursor']))
A.append(p('C17','Snippets show the real lines, with the affected ones marked',
 'Every snippet line shows a line number of the document together with that line\'s verbatim text (blank lines aside), in increasing order and each at most once. The reported lines carry the emphasis marker, the other lines of the affected element or context the indicator or question marker, up to two lines of context on either side are shown, and omitted stretches before, between or after shown lines are marked by an ellipsis.',
 ['inputs','histories'],'all documents and all errors',
 'Tests compare a few dozen literal snippets of documents shorter than ten lines.',
 ['reporters/reporter.py','reporters/text_reporter.py','analyzer.py'],[('line index','reporters/reporter.py:_build_index'),('tagging','reporters/reporter.py:_tag_*'),('context and omission','reporters/reporter.py:snippet')],['Error.snippet']))
A.append(p('C18','All reporters report the same thing',
 'For every error the text, HTML and terminal reporters show the same lines with the same numbers, markers, contents and omissions, differing only in presentation; the error text and selection do not depend on the reporter. HTML output escapes line contents so that document text can never become markup, and the terminal output with its color codes removed shows the verbatim line. A given source label appears in all three.',
 ['inputs','configurations'],'all documents, errors, reporters, source labels',
 'One fixed document is rendered per non-text reporter and never for an error.',
 ['reporters/html_reporter.py','reporters/terminal_reporter.py','reporters/text_reporter.py'],[('rendering','reporters/*.py:_line, _print')],['Error.snippet with reporter=...']))
A.append(p('C19','Lookup finds the innermost element and range at every position',
 'For every position in a document, lookup returns the innermost section, element, item or entry whose own lines (opening line, continuations, multiline content and closing line, gaps between them) contain it, and the section otherwise; and it names the part of that element\'s line (key, value, operator, template, ...) at that position, the right one of two adjacent parts, or none. Looking up by line and column and by index give the same result, and positions outside the document raise an IndexError. A document that is rejected when it is parsed is rejected with the same error when something is looked up in it.',
 ['inputs'],'all documents and all positions in them',
 'Tests look up nine positions in one document without items, entries or continuations.',
 ['lookup.py'],[('descent by line and by index','lookup.py:check_*'),('range selection','lookup.py:lookup')],['enolib.lookup']))
A.append(p('C20','Errors say the same thing in every locale',
 'Selecting a locale changes only words: the same documents and queries are accepted and rejected with the same selections and the same snippet lines. The error text is that locale\'s translation of the same message with the same line number, key or loader message inserted literally, and every message that can occur exists in every locale.',
 ['inputs','configurations'],'all documents and errors, all locales, keys with arbitrary characters',
 'Tests only use English except for checking that modules import.',
 ['messages/en.py','messages/de.py','messages/es.py','errors/parsing.py','errors/validation.py'],[('message lookup by name','errors/validation.py:missing_element and others'),('catalogs','messages/*.py')],['Error.text','Error.snippet header']))
A.append(p('C21','Reading is pure: every view of a document agrees and none disturbs another',
 'For every document the raw form and the element API describe the same tree: same elements in the same order with the same types, keys, values and comments. What is obtained from lookup reads the same as what is reached from the document. No sequence of queries, failed queries, error constructions or raw conversions changes what any later query returns (apart from touch marks, the requirement switch and the chosen type of an ambiguous element), parsing the same text again gives an equal document, and documents never influence each other.',
 ['inputs','histories'],'all documents and all histories of calls, also interleaved over several documents',
 'Tests read fresh documents once.',
 ['context.py','elements/section.py','elements/fieldset.py','elements/list.py'],[('caches of computed values, comments, elements','context.py:value, comment, elements, entries, items')],['raw','all accessors']))
A.append(p('C22','Requiring all elements turns every missing query into an error',
 'While all_elements_required is on for a section, every singular query of any kind on it and on any section or fieldset below it, whether fetched before or afterwards, raises a ValidationError when nothing matches, and switching it off restores the normal behaviour, again for everything below. all_entries_required does the same for one fieldset. It never affects sections outside, nor queries that find something.',
 ['inputs','histories'],'all documents, all orders of switching and fetching',
 'Tests switch the flag on empty documents only.',
 ['elements/section.py','elements/fieldset.py'],[('propagation at switch time and at instantiation','elements/section.py:all_elements_required, __init__')],['all_elements_required','all_entries_required']))
A.append(p('C23','Elements know where they are',
 'For every element reached through queries, parent() gives the very section, list or fieldset it was reached through, and None for the document; string_key gives its key (for a list item the key of the list it was written in, for the document nothing). Elements obtained from lookup (the document itself aside) can be converted to what they are - item, entry, field, list, fieldset, section - and to nothing else.',
 ['inputs','histories'],'all documents and paths of queries, all looked-up positions',
 'parent() and the conversions of looked-up items and entries have no tests.',
 ['elements/section.py','elements/element.py','elements/field.py','elements/list_item.py','elements/fieldset_entry.py','elements/empty.py'],[('parent references','elements/*.py:parent'),('conversions','elements/element.py')],['parent','string_key','Element.to_*']))
A.append(p('C24','Printing a thing names what it is and disturbs nothing',
 'The printed form (repr) of every element, placeholder and looked-up element never fails and names its class, its key and either its value (None without one, the first eleven characters and an ellipsis if it is longer than fourteen) or the number of its elements, entries or items, copied ones included; for a placeholder the key it was asked for, if any. Printing touches nothing, commits nothing to a type and changes no later result.',
 ['inputs','histories'],'all things reached by queries or lookup in all documents, at any point of a history',
 'Tests print one element of each class with short values.',
 ['elements','elements/missing'],[('debug representations','elements/*.py:__repr__, value_element_base.py:_print_value')],['repr of things']))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for a in A: f.write(json.dumps(a,ensure_ascii=False)+'\n')

