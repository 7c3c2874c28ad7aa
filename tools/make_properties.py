"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
import os

F, S = 'pilo/fields.py', 'pilo/source/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': list(observe)}})


p('C01', 'Context scopes nest and unwind exactly', """
Inside a `with ctx(...)`, `ctx.push(...)` or `ctx.reset()` scope every name the scope binds reads as its bound value and every other
name reads as in the enclosing scope (innermost binding wins, `AttributeError` when no scope binds it, `values_for` lists all
bindings outermost first); a string or integer `src` extends the current source path by exactly that key and a `Source` as `src`
makes that source's own fresh root path current. When the scope ends, normally or by any exception, every binding and the keys of
every path are exactly what they were before it, for any nesting of scopes.""",
  ['inputs', 'histories'], 'all frame contents, keys, values, nestings, and ways a scope body ends',
  'the tests only ever nest a handful of scopes and never leave one by an exception; the claim is about every stack and every exit',
  ['pilo/context.py'], [('Context.push/restore', 'pilo/context.py'), ('Context.__getattr__', 'pilo/context.py'),
                        ('Close.__exit__', 'pilo/context.py')], ['ctx.<name>', 'str(ctx.src_path)'])

p('C02', 'Context rewind sees the enclosing frame exactly and is undone exactly', """
Inside `with ctx.rewind(stop)` the visible scopes are exactly those from the outermost to the innermost one satisfying `stop`, with the
current source path holding exactly the keys it had when that scope was innermost; when the body ends, normally or by an exception,
all scopes and path keys are exactly as before the rewind. If no scope satisfies `stop`, `RewindDidNotStop` is raised and
nothing changes.""",
  ['inputs', 'histories'], 'all stacks of scopes, all stop positions including the top, all bodies',
  'sibling-field reads in tests rewind one or two frames; the claim ranges over every stack depth, mix of keyed and source scopes',
  ['pilo/context.py'], [('Context.rewind', 'pilo/context.py'), ('Context.restore(frames)', 'pilo/context.py')],
  ['ctx inside and after rewind'])

p('C03', 'A path always reads the value at its current keys, whatever was read before', """
For native, JSON and configuration sources: after any sequence of appending a key, removing the last
key, replacing the last key and reading, a path's value is the one obtained by looking up its current keys one after another from the
source's root; it is the "not there" marker, `exists` is false, exactly when some key of the path is not present, and
`is_null` is true exactly when the value is None. Reading never changes the answer of a later read and never alters the source.""",
  ['histories', 'inputs'], 'all sequences of path edits and reads over all documents',
  'values are cached per key; tests read each path once, so a stale or poisoned cache never shows',
  [S + '__init__.py', S + 'default.py', S + 'json.py', S + 'configparser.py'],
  [('Path.value cache', S + '__init__.py'), ('resolve', S + 'default.py'), ('JsonPath.resolve', S + 'json.py'),
   ('ConfigPath.resolve', S + 'configparser.py')], ['path.value', 'path.exists', 'path.is_null'])

p('C04', 'Key lookup order in native and JSON documents', """
In a native source a string key resolves to the container's item of that name, else (first key of the path only, and only when the
item is absent) to the item the source's alias for it names, else to the attribute of that name, else, for keys with dots, to the
nested lookup of its parts, else it is not there; a key ending in `()` resolves to the result of calling, without arguments, what the rest of
the key resolves to. In a JSON document a key with dots is the nested lookup of its parts and any other key is the
item of that name or index, its root being the document its (decoded) text denotes; a key missing anywhere is "not there" and never an error. A path whose keys equal one of the source's
ignore patterns is not there.""",
  ['inputs'], 'all containers, keys, aliases and ignore patterns',
  'tests use a few dict lookups; precedence between item, alias, attribute and dotted lookup is never exercised together',
  [S + 'default.py', S + 'json.py'], [('DefaultPath.resolve/_resolve/_as_alias', S + 'default.py'),
                                      ('JsonPath.resolve', S + 'json.py')], ['path.value'])

p('C05', 'Primitive coercion is exact or a source error', """
Asking a source for a string, integer, float or boolean yields either a value of that type equal to what the data says (a string as
itself; an integer from an int, an integral float or, unless strict JSON, a decimal text; a float from a float, int or, unless strict JSON,
numeric text; a boolean from a bool, from an int by being nonzero unless strict JSON, or, for native and configuration sources, from text
0/f/false/1/t/true in any case) or a `SourceError`; it never yields a different value and never raises anything else. Non-strict
JSON turns any non-string into its text when asked for a string, strict JSON converts nothing but int to float, and booleans are never integers or floats
(except that JSON and native float conversion accepts a boolean as the integer it equals); asking for no type yields the value unchanged. Asking for a subclass of
one of these types behaves as asking for the type itself, and asking again gives the same answer; of
several types asked for, the first which is one of these or such a subclass decides, and asking only for others is a `ValueError`.""",
  ['inputs'], 'all primitive values, requested types, and strict/non-strict JSON',
  'tests try a few friendly values; overflow, non-integral floats, text case, booleans-as-integers and strictness are boundary inputs',
  [S + '__init__.py', S + 'json.py'], [('ParserMixin.as_*', S + '__init__.py'), ('JsonSource.as_*', S + 'json.py'),
                                       ('parser', S + '__init__.py, json.py')], ['source.primitive(path, type)'])

p('C06', 'An absent value takes the default or is reported missing exactly once', """
When a field's source value is absent, its computed value is the "none" marker, its munge hook answers "none", or its filter rejects the value, the field's result is its
default (a constant as is, a class, callable or default hook by calling it) and no error is recorded; with no default the result is no
value and exactly one `Missing` error for that field's path is recorded, none at all when missing values are to be ignored. When
defaults are to be ignored, a field is treated as having none, except that a default hook still supplies the default when the value was absent from the source
or computed as "none".""",
  ['inputs', 'configurations'], 'all fields, defaults, hooks, and ignore_default/ignore_missing settings',
  'tests cover single defaults; the combinations of why a value is absent with the kind of default are never enumerated',
  [F], [('Field._default', F), ('Field._map', F)], ['form.map() result', 'form keys'])

p('C07', 'Field mapping pipeline: compute, munge, filter, validate in that order', """
Mapping a field resolves its key relative to the current path, computes (compute hook, else parse hook, else built-in parsing; an
absent or null source value is never parsed), then translates, then munges, then filters (ignored values, then filter hook), then
validates (built-in, then hook); each hook sees the previous step's result, runs at most once and only if no earlier step ended the mapping, and the
result is the munged value. A parse that fails with a source or value error yields the error marker and exactly one `Invalid` error at the field's path,
and a computed, munged or translated error marker ends the mapping with no further error; an explicitly given value skips resolving
and computing. A field with `attach_parent` gives a value (other than None) a `parent`, a reference to the form or field it was mapped for or None when
there is none. The context (path keys and bindings) is restored in every case.""",
  ['inputs', 'configurations'], 'all combinations of hooks, options and outcomes of each step',
  'each test attaches one or two hooks; ordering and short-circuiting among all of them is a combinatorial claim',
  [F], [('Field._map', F), ('Field._compute', F), ('Field._resolve', F), ('Field.map', F), ('Hook.__call__', F)],
  ['hook call sequence', 'form.map() result'])

p('C08', 'String constraints accept exactly the strings that satisfy them', """
A string field with any combination of length bounds, pattern, alphabet and choices accepts a string exactly when its length is
within the inclusive bounds, the pattern matches at its start, every character is in the alphabet, and it is one of the choices or of
the field's translation targets. A rejected string yields exactly one `Invalid` error and no value; None is accepted
unless the field is explicitly not nullable, in which case it yields exactly one `Invalid`.""",
  ['inputs', 'configurations'], 'all strings and all combinations of constraints',
  'tests check single constraints on few strings; boundary lengths and constraint combinations are unbounded',
  [F], [('String._validate', F), ('String.__init__', F), ('Field._validate', F)], ['field result', 'errors'])

p('C09', 'Number, date and time ranges are inclusive and exact', """
An integer, float, decimal, date, time or datetime field with a lower and/or upper bound accepts a value exactly when it is not below the
lower and not above the upper bound, both inclusive, however the bounds were given (constructor, `min`/`max`/`range`,
`after`/`before`/`between`); a bound of zero is a bound. A rejected value yields exactly one `Invalid` error and no value, and None is
rejected exactly when the field is explicitly not nullable.""",
  ['inputs', 'configurations'], 'all values and all bounds including zero and absent ones',
  'tests sample a few values away from the bounds', [F],
  [('Number._validate/min/max/range', F), ('Date/Time/Datetime._validate', F), ('RangeMixin', F)], ['field result', 'errors'])

p('C10', 'List and dict size and required-key limits are exact', """
A list field accepts a list exactly when its number of kept items is within the inclusive bounds given (by `length`, `min_length`/`max_length`,
`min`/`max`/`range`); a dict field accepts exactly when every required key is among its keys and, when a positive maximum is set, it has no more keys
than that. A rejection yields exactly one `Invalid` error and no value, and None is rejected exactly when the field is explicitly not nullable.""",
  ['inputs', 'configurations'], 'all sizes, bounds, key sets and required keys',
  'tests use one size per limit', [F], [('List._validate', F), ('Dict._validate', F)], ['field result', 'errors'])

p('C11', 'Containers map element by element at the right paths', """
A list, tuple or dict field maps every element of its source value in order with its element field, each at the path of
the container extended by that element's index or key; elements that yield no value are left out (dict keys also when the
key field yields none or the key filter rejects them) and their errors, and no others, are recorded; the result holds exactly the remaining
mapped elements in source order (a list, a tuple, a dict from mapped key to mapped value, last one winning). A tuple of the wrong length is one `Invalid` error and
no value; a list that allows a single bare value maps it, when the source value is not a sequence, to a one-element list.""",
  ['inputs'], 'all lengths, element outcomes and keys',
  'tests map containers of at most a few elements with uniform outcomes', [F],
  [('List._parse', F), ('Tuple._parse', F), ('Dict._parse', F)], ['field result', 'errors', 'element paths'])

p('C12', 'Mapping a form stores exactly the fields that mapped successfully', """
Mapping a form maps every field in declared order (only those carrying one of the given tags, when tags are given) and stores under each
field's name exactly its result when there is one; fields that yield no value are not stored and leave a stored value as it was.
With `reset` the selected fields' previous values are removed first and other values are kept; with `unmapped='capture'` or a capture
field, source keys which are not already keys of the form are stored too with their captured values, and with 'ignore' nothing else is stored.""",
  ['inputs', 'configurations', 'histories'], 'all forms, tag sets, reset/unmapped settings and previous contents',
  'tests map fresh small forms; mapping again with other tags or resets is a history', [F],
  [('Form.map/_map/_reset', F), ('Form._unmapped', F)], ['form contents'])

p('C13', 'Errors are reported completely and in field order', """
`form.map(..., error='collect')` returns a list of exactly the errors raised by its fields (nested forms' errors in place, before later
fields' errors) in mapping order and never raises them; constructing a form from data, or `error='raise'`, raises a `FormError` carrying
field errors when there are any, and otherwise completes. A sub form, with or without errors, adds exactly its own errors to the enclosing form's, and
a sub form with errors yields no value. An error is made, for the field being mapped, by the `Missing` or `Invalid` class the context binds,
or by pilo's own when it binds none.""",
  ['inputs', 'histories'], 'all nestings of forms and all patterns of failing fields',
  'tests assert counts for a few forms; ordering and completeness under nesting are not covered', [F],
  [('CollectErrors/RaiseErrors', F), ('Form._root_map/_nested_map/map', F), ('SubForm._parse', F), ('Form.__init__', F)],
  ['errors list', 'FormError.field_errors'])

p('C14', 'Field attributes read the stored value or map it once', """
Reading a field attribute of a form returns the stored value when there is one, without mapping; otherwise it maps the field (in the
form's own scope when one is active, even when read from inside nested mappings), stores the result and returns it, and when the field yields no value raises `AttributeError` (outside any mapping it may instead be the
`FormError` carrying the field's error) and stores nothing. Assigning stores exactly the value, deleting removes it if present and is otherwise harmless, reading the attribute
of the class gives the field itself, and the context is unchanged after any of these. `form.has(name)` tells (and does not raise when there is none) whether a value is
stored under the name or else reading the field attribute of that name gives something other than None.""",
  ['histories', 'inputs'], 'all sequences of reads, writes and deletes inside and outside mapping',
  'tests read computed siblings once; laziness, storage and context restoration under nesting are histories', [F],
  [('Field.__get__/__set__/__delete__', F), ('Form.has', F), ('Context.rewind', 'pilo/context.py')], ['form attribute', 'form contents'])

p('C15', 'Form transformations leave the original unchanged', """
`filter`, `munge`, `copy` and `flatten` never change the form (nor its nested forms) they are applied to. `filter(*tags)` keeps exactly the
fields having at least one of the tags, or with `inv` exactly those having none; `munge(func)` stores for each field func's answer for it, recursively for
nested forms and lists or tuples of forms, leaving out those answered "none"; `copy` has the same type and items; `flatten` yields each stored
non-form value once, with the fields leading to it, in declared order.""",
  ['inputs'], 'all nested forms, tag sets and munge functions',
  'tests filter two small forms', [F], [('Form.munge/filter/copy/flatten', F)], ['result form', 'original form'])

p('C16', 'Unions merge their sources as configured', """
For a union of sources whose values at each key are non-null and of one kind, read as fields read them (a container is opened by `mapping` or
`sequence` before its elements are read): the root has the keys of all sources; the keys of a mapping below it are those of the first
source, of the last source having it, or of all of them, under merge 'first', 'last', 'combine'; a primitive comes from the first of the merged sources having it; combined sequences are the
concatenation in source order, 'first'/'last' ones those of the first/last source having it, and each index reads the corresponding element. The union never modifies its sources or the list it is given, and merging with any other
merge name is a `ValueError`.""",
  ['inputs', 'configurations'], 'all numbers of sources, documents and merge settings',
  'tests union two documents', [S + 'union.py'], [('Mapping/Sequence/Join', S + 'union.py'), ('UnionPath', S + 'union.py')],
  ['path.value', 'mapping()', 'sequence()', 'primitive()'])

p('C17', 'Polymorphic sub forms dispatch on the type field', """
A polymorphic sub form maps its value with exactly the form class registered for the identity its type field reads from the value, and
its result is an instance of that class mapped from that value. An identity that cannot be read, or one belonging to no class, yields exactly one `Invalid`
error and no value, a null identity counts as an absent value, and an error inside the chosen form yields no value. The type
field's `cast` gives that same class for a value, or raises a `ValueError`.""",
  ['inputs'], 'all class hierarchies and source values', 'tests use one hierarchy with valid identities',
  [F, 'pilo/__init__.py'], [('PolymorphicSubForm', F), ('Type.cast/probe', F), ('Types.map/probe', 'pilo/__init__.py')],
  ['field result', 'errors'])

p('C18', 'Form classes list their fields once, in declared order', """
A form class's `fields` holds each of its own and inherited fields exactly once, in order of declaration, where a field overriding an inherited
one takes the inherited one's place; each field is attached to the class declaring it under its attribute name, and its source key is
its explicit `src` or else its name. `from_fields` declares exactly the given fields. Deriving a class never changes the base class's fields.""",
  ['programs'], 'all inheritance hierarchies and overrides', 'tests define a few flat forms', [F],
  [('FormMeta.__new__', F), ('Field.attach', F), ('CreatedCountMixin', F), ('Form.from_fields', F)], ['Form.fields'])

p('C19', 'Mounted sources are read through their mount point only', """
In a mount source the first key of a path selects the source mounted under it and the remaining keys are looked up in exactly that
source: value, existence, nullness, primitives, sequences and mappings are those of that source at the remaining keys, and its length counts all
keys. The root exists, is a mapping of the mount points and is neither a primitive nor a sequence (`SourceError`); a path under an unknown mount point does not exist.""",
  ['inputs', 'histories'], 'all mounted sources and key sequences',
  'mount sources are hardly tested at all', [S + 'mount.py'], [('MountPath', S + 'mount.py'), ('MountSource', S + 'mount.py')],
  ['path.value', 'path.primitive', 'path.mapping'])

p('C20', 'Configuration sections resolve options, sub-mappings, lists and defaults', """
In a configuration source, a section's `name[key]` options form the mapping `name`; any other option resolves to its text, else to the
given default of the section, else it is not there; a text option read as a sequence is its non-empty stripped lines when it has
several lines and its shell-split words otherwise, element by element. The root maps exactly the section names, or, for a
source bound to one section, that section's options.""",
  ['inputs'], 'all configurations, defaults, option texts', 'tests parse one configuration file',
  [S + 'configparser.py'], [('SectionMapping', S + 'configparser.py'), ('Mapping', S + 'configparser.py'), ('Sequence', S + 'configparser.py')],
  ['path.value', 'path.sequence', 'path.mapping'])

p('C21', 'Group fields collect exactly the matching keys', """
A group field's value lists, in source order, (key, match, value) for exactly those (string) source keys which equal one of its string keys or match one of its
patterns, using the first such entry's field to map the value at that key and giving the pattern's match object (None for string keys); keys whose value
yields none are left out with their errors recorded. When no key matches at all, the default (an empty list unless given) is the value.""",
  ['inputs', 'configurations'], 'all key sets, entries and overlaps between them', 'tests use one group with two patterns', [F],
  [('Group._match', F), ('Group._parse', F)], ['field result', 'errors'])

p('C22', 'Unparsable dates, times, ids, decimals and code are one Invalid error', """
A date, time, datetime, UUID, decimal or code field given text it can parse (in the first of its formats that fits, in order) yields the parsed value, given an already
typed value (for code anything that is not text; for a decimal a number counts as its exact decimal) yields it unchanged, and given anything else, including when it has no format, yields exactly one `Invalid` error and no value; no other exception
escapes and never is None produced for text that does not parse. Code with line breaks yields a new module in which it was executed once; other code names
an attribute of a module as `module:attribute` (either may be dotted) and yields it. Integer and float patterns yield the number in the matched prefix of the text, of the
field's type, or exactly one `Invalid` error.""",
  ['inputs', 'configurations'], 'all texts, formats, and typed values', 'tests parse a few valid and invalid texts', [F],
  [('Date/Time/Datetime._parse', F), ('UUID._parse', F), ('Decimal._parse', F), ('Code._parse', F), ('Integer/Float.pattern', F)],
  ['field result', 'errors'])

p('C23', 'Hooks are registered once, checked, and called with the form', """
Using a field's hook as a decorator registers the function only if its argument specification is the one the hook requires, raising `TypeError` and
registering nothing otherwise, and gives back the outermost field it belongs to. A registered hook is truthy and when called
calls the function exactly once with the form being mapped (or the object it was attached to) and the given arguments, returning
its result; an unregistered hook is falsy.""",
  ['inputs', 'programs'], 'all functions, fields and targets', 'tests register well-formed hooks only', [F],
  [('Hook.__call__', F), ('Hook.attach', F), ('Hook.__bool__', F)], ['decorator result', 'hook call'])

p('C24', 'Derived fields give the constant, context variable, captured group or formatted text', """
A field made `constant(v)` has the value v whatever its source says; used on a field that already belongs to a form, `constant` gives a new field of the same class
and leaves that one as it was. A field `from_context()` reads the variable its key names from the enclosing context scopes (innermost binding) instead of from the source, absent
when no scope binds it. A string field with `capture(pattern, name)` yields, for a text the pattern matches at its start, the group `name` (by default the field's own name), else
the first group (None for a group that took no part), and is absent when there is no match or no such group; a null stays null. With `format(fmt, **names)` its value is fmt formatted with the attributes of
the form (dotted: of nested ones) which `names` gives, or exactly one `Invalid` error of it and no value when one of them cannot be read. All other steps and the context are as for any field.""",
  ['inputs', 'histories'], 'all values, patterns, texts, contexts and forms', 'tests format one link and tag one constant', [F],
  [('Field.constant', F), ('Field.from_context', F), ('String.capture', F), ('String.format', F)], ['field result', 'errors', 'context'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
