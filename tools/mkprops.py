import json
core="derive_builder_core/src/"
SET=core+"setter.rs"; INI=core+"initializer.rs"; BM=core+"build_method.rs"; BLD=core+"builder.rs"; BF=core+"builder_field.rs"; DO=core+"macro_options/darling_opts.rs"; DE=core+"default_expression.rs"; BK=core+"block.rs"; OPT=core+"options.rs"; LIB=core+"lib.rs"; ERR="derive_builder/src/error.rs"; DOC="derive_builder/src/lib.rs"
def P(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=hook))
ps=[]
ps.append(P("C01","A build reflects exactly the history of operations on its builder",
"After any sequence of generated setter calls (plain, converting, option-stripping, fallible), clones and builds on a builder, in any builder pattern and with any mix of per-field patterns, a successful build yields for every field the value most recently given to that field in that builder's own history, and for a never-given field the field's own default if it declares one, else that field of the struct-level default. An operation on one field never changes, sets or clears another field, and a build fails only if validation, a default or a custom field expression fails or a field with no applicable default was never given a value.",
["histories","programs","fault_sequences","schedules"],
"every derived struct configuration of the supported attributes, every finite sequence of operations by one or more clients, including operations whose conversions, clones, defaults or validators fail or panic in between",
"The tests run one short straight-line chain per attribute and compare one result; no test mixes many operations, reuses a builder after failures, or combines several attributes and per-field patterns on one struct.",
[SET,INI,BM,DO,BLD],[("setter body assigns new.<field>","derive_builder_core/src/setter.rs Setter::to_tokens"),("match self.<field> { Some / None }","derive_builder_core/src/initializer.rs Initializer::to_tokens, match_some, match_none"),("struct-to-field option inheritance","derive_builder_core/src/macro_options/darling_opts.rs FieldWithDefaults")],
[dict(name="builder fields",meaning="Option<T> (or the custom type) holding the last given value",where=BF)],["return value of build","builder fields"]))
ps.append(P("C02","A failed fallible setter changes nothing and reports the conversion's error",
"When a generated fallible (try_) setter is given an input whose conversion fails, it returns exactly that conversion's error; with a mutable or immutable pattern the builder it was called on is then exactly as before the call and remains fully usable, so a later retry succeeds. When the conversion succeeds, the effect is the same as passing the converted value to the plain setter, including for option-stripping and custom-typed builder fields.",
["fault_sequences","histories","programs"],
"every configuration with fallible setters, every builder state the call can meet (field unset, set, set repeatedly), every placement of failing and panicking conversions in a history",
"Tests call each fallible setter once on a fresh builder with a succeeding input; no test makes one fail and then looks at or goes on using the builder.",
[SET,DO],[("value.try_into()? before touching the builder","derive_builder_core/src/setter.rs try_ setter block"),("strip_option / Option wrapping of the converted value","derive_builder_core/src/setter.rs wrap_expression_in_some")],
[],["return value of try_ setters","builder fields before and after"]))
ps.append(P("C03","Building by reference never disturbs the builder and can always be retried",
"With the mutable and immutable patterns, a build, whether it succeeds, returns an error at any stage, or is unwound by a panic in user code it calls, leaves every value held by the builder exactly as it was (the same stored values, not replacements). Consequently builds can be repeated: successive builds with no operation in between see the same builder state, and once failures stop, the next build succeeds exactly as if they had never happened.",
["fault_sequences","histories","schedules"],
"every by-reference configuration and builder state, with failures and panics injected at every user-code call a build makes, any number of times",
"Tests build once per builder (a few build twice fault-free); none injects a failure in the middle of a build and then inspects or reuses the builder.",
[BM,INI],[("build takes &self","derive_builder_core/src/build_method.rs self_param"),("values are cloned out, never taken","derive_builder_core/src/initializer.rs MatchSome::Clone")],
[],["builder fields before, during and after build","second build's result"]))
ps.append(P("C04","Derived builders are independent: immutable setters and clones never alias",
"With the immutable pattern (on the struct or on single fields), every generated setter leaves the builder it was called on unchanged and returns a new builder equal to it except for the one field being set. A cloned builder equals its original, and afterwards no operation on either builder, or on any target already built, is observable through the other, even when those operations come from different threads at the same time.",
["histories","schedules","fault_sequences","programs"],
"every tree of builders derived from each other by immutable setters and clones, every interleaving of operations on its members, with panicking clones and conversions in between",
"Tests derive one builder from another in a straight line and build only the last; none keeps using the ancestors, forks, or interleaves operations.",
[SET,BLD,DO],[("Clone::clone(self) in the immutable setter","derive_builder_core/src/setter.rs self_into_return_ty"),("derive(Clone) when any pattern needs it","derive_builder_core/src/macro_options/darling_opts.rs requires_clone")],
[],["fields of receiver and returned builder","built targets"]))
ps.append(P("C05","Every value given to a builder is conserved: moved, cloned, dropped exactly once",
"A value given to an owned or mutable-pattern setter is stored as that very value, with no clone of it or of any other field; an owned build moves out each value held by an owned-pattern field without cloning it; a successful build by reference clones the given value of each ordinary field not under the owned pattern exactly once; an immutable-pattern setter clones each held value at most once. Across any history, including errors and panics in user code at any point, every value ever handed to, defaulted by or cloned by a builder is dropped exactly once: never leaked, never dropped twice.",
["histories","fault_sequences","schedules","programs"],
"every configuration and history, with panics and errors injected at every user-code call, counted over all value instances of a run",
"No test counts clones or drops, and none unwinds through a setter or build; an extra clone, a leak or a needless Clone requirement would pass every test.",
[SET,INI,BM,BLD],[("MatchSome::Move versus MatchSome::Clone","derive_builder_core/src/initializer.rs"),("let mut new = self","derive_builder_core/src/setter.rs"),("must_derive_clone","derive_builder_core/src/macro_options/darling_opts.rs requires_clone")],
[],["identity, clone and drop events of every value"]))
ps.append(P("C06","Validation runs once, first, on the real state, and gates construction",
"On every call of a generated build with a validator, in every pattern, the validator is called exactly once, before any default, custom field expression or clone of a held value is evaluated, and it sees the builder exactly as given (unset fields still unset, defaults not applied). If it fails, the build returns that failure and none of those other expressions run; if it succeeds, its success never masks a later failure.",
["histories","fault_sequences","programs","schedules"],
"every configuration with a validator and every builder state and history, with the validator accepting, rejecting or panicking on any call, including builds that would also fail for other reasons",
"Tests check one rejected and one accepted build per example; none combines a rejecting validator with missing fields, failing defaults, struct-level defaults or the owned pattern, or observes what ran.",
[BM,DO],[("validate_fn(&self)? emitted first","derive_builder_core/src/build_method.rs ToTokens"),("build_fn(validate) option","derive_builder_core/src/macro_options/darling_opts.rs BuildFn")],
[],["calls to the validator, defaults, clones; return value of build"]))
ps.append(P("C07","Defaults are evaluated lazily and afresh on every build",
"A field's own default expression is evaluated exactly once in each build that reaches a field with no given value, and never when the field was given one; a struct-level default is evaluated exactly once per build that passes validation, and a field uses its part of it only if it has neither a given value nor a default of its own. Values are never remembered from one build to another or written back to the builder, and no default is evaluated by a setter or when a builder is created.",
["histories","fault_sequences","programs","schedules"],
"every placement of field-level, trait and struct-level defaults over the fields of a struct, every history of setters and repeated builds, with defaults that fail or panic on some calls and return different values on each call",
"Tests use constant or pure defaults, so evaluating one twice, too early, once per process, or when the field is set goes unnoticed.",
[INI,BM,DE,DO],[("default in the None arm only","derive_builder_core/src/initializer.rs match_none"),("let __default = ...","derive_builder_core/src/build_method.rs"),("use_parent_default","derive_builder_core/src/macro_options/darling_opts.rs")],
[],["calls to default expressions, their values in the built target"]))
ps.append(P("C08","The first failure in declaration order decides, and stops the build",
"A build resolves the struct-level default and then the fields in declaration order, and the first step that fails decides the result: a missing value is reported as an uninitialized-field error naming that field as declared in the struct (whatever its setter is called), and an error returned by a default or custom field expression is returned unchanged up to conversion into the build's error type. After that failure no default, custom expression or clone belonging to a later field is evaluated, and the same holds for generated and for user-supplied error types.",
["fault_sequences","histories","programs"],
"every configuration and builder state with any subset of fields missing and any subset of defaults and custom expressions failing, in any combination",
"Tests have one missing field and at most one failing expression at a time, so precedence, naming under renamed or prefixed setters, and short-circuiting are never exercised.",
[INI,BM,BLD,ERR,DO],[("return Err(UninitializedFieldError) in declaration order","derive_builder_core/src/initializer.rs MatchNone::ReturnError"),("generated error enum and From impls","derive_builder_core/src/builder.rs ToTokens"),("field_name / Display","derive_builder/src/error.rs")],
[],["error returned by build, its display text, user-code calls made"]))
ps.append(P("C09","A setter interrupted by a panic in a conversion or clone has no effect",
"If user code that converts a setter's argument (plain converting, fallible or item setter) or that clones the builder panics, then with the mutable and immutable patterns the builder the setter was called on is exactly as before the call: no field becomes set, cleared, emptied or changed. The panic reaches the caller unchanged, and the builder stays usable.",
["fault_sequences","crash_points","histories"],
"every setter kind, configuration and builder state, with the panic injected at each conversion or clone call the setter makes",
"No test unwinds through a setter; the tests' conversions never panic.",
[SET],[("conversion evaluated before the assignment","derive_builder_core/src/setter.rs ToTokens"),("clone before assignment in immutable setters","derive_builder_core/src/setter.rs self_into_return_ty")],
[],["builder fields before and after an unwound setter"]))
ps.append(P("C10","Item setters append exactly one item and never lose or reorder earlier ones",
"Calling a generated item (each) setter extends the field's collection by exactly that one item, after all items already there, and stores the converted item when conversion is requested. If the field has no value, the collection starts from the collection type's empty Default (never from the field's or struct's default expression); if it was given a whole collection, that collection is extended, and a later whole-collection set replaces it. This holds in every pattern, with and without option stripping (a stripped field holding an explicit None starts empty too).",
["histories","programs","fault_sequences"],
"every interleaving of whole-collection sets, item additions, clones and builds on every kind of each-enabled field, with failing item conversions in between",
"Tests add a few items in a fixed order on the mutable pattern only; defaults combined with each, explicit None, other patterns, forks and reuse after builds are untested.",
[SET,OPT,DO],[("get_or_insert_with(Default).extend(Some(item))","derive_builder_core/src/setter.rs each block"),("Each { name, into }","derive_builder_core/src/options.rs")],
[],["collection contents in builder and target"]))
ps.append(P("C11","Expanding a struct is independent of history, schedule and process",
"The code generated for a struct definition is a function of that definition alone: expanding it again, after or concurrently with any other expansions on any thread of the same process, after expansions that were rejected or panicked, or in another process with a different hash seed or clock, gives the same output token for token (including the same diagnostics in the same order when it is rejected).",
["schedules","histories","fault_sequences","configurations"],
"every sequence and interleaving of expansion requests in one long-lived expansion process, with duplicated, reordered, truncated and corrupted requests and dying worker threads in between",
"The tests expand each struct once in a fresh compiler process and single-threaded unit tests print a component once; nothing repeats, interleaves or reorders expansions.",
[LIB,DO,BLD,SET,INI],[("builder_for_struct takes the definition and returns tokens, no shared state","derive_builder_core/src/lib.rs builder_for_struct"),("ordered Vec-based accumulation of fields, attributes and errors","derive_builder_core/src/macro_options/darling_opts.rs")],
[],["tokens returned by the expansion entry point"]))
ps.append(P("C12","Custom builder fields: the stored value and its build expression behave exactly",
"A field with a custom build expression is produced, in each build that reaches it, by exactly one evaluation of that expression, which sees the builder's stored values as left by the history; a field with a custom builder type but no build expression yields the stored value. A custom-typed field starts as that type's Default in every new builder, changes only through operations on that field, and is never treated as missing.",
["histories","fault_sequences","programs"],
"every configuration mixing custom builder types and build expressions with other fields, every history of setters, builds and clones, with the expression failing or panicking on some calls",
"Two tests build once with an infallible or once-failing expression; repeated builds, owned and immutable patterns, stored state across failures and evaluation counts are untested.",
[BF,INI,DO,BK,BLD],[("BuilderFieldType::Precise","derive_builder_core/src/builder_field.rs"),("FieldConversion::Block / Move","derive_builder_core/src/initializer.rs"),("Default initializer in create_empty","derive_builder_core/src/builder_field.rs default_initializer_tokens")],
[],["calls of the build expression, stored builder field, built target"]))
ps.append(P("C13","Skipped fields are always filled from their defaults, whatever the history",
"A field whose setter is skipped has no effect on, and is unaffected by, any operation on the builder: every build that reaches it fills it by one fresh evaluation of its own default expression if it has one, else from the struct-level default if there is one, else from its type's Default. A build never reports a skipped field as missing, and a field opted back in under a struct-level skip behaves like any ordinary field.",
["histories","programs","fault_sequences"],
"every mix of skipped, opted-in, custom-setter and ordinary fields with every kind of default, every history of operations and repeated builds with failing or panicking defaults",
"Tests build each skip example once with pure defaults and no failures.",
[INI,DO,BF],[("field_enabled / Initializer::default","derive_builder_core/src/initializer.rs"),("FieldLevelSetter::field_enabled, setter_enabled","derive_builder_core/src/macro_options/darling_opts.rs"),("BuilderFieldType::Phantom","derive_builder_core/src/builder_field.rs")],
[],["built targets and default evaluations"]))
ps.append(P("C14","Shared use from many threads is equivalent to some sequential use",
"Builds, immutable setters and clones on one builder shared by reference between threads, and exclusive operations handed between threads, give each caller the result that a sequential execution in some order consistent with real time would give, whatever the interleaving of the user code they call and even if some of the calls fail, panic or stall. No operation waits for another caller's operation: a stalled or dead caller inside user code never blocks or fails anyone else.",
["schedules","fault_sequences","histories"],
"every interleaving, at user-code calls, of any number of concurrent shared operations on any configuration, with callers that panic, fail or stall for arbitrarily long in the middle",
"Every existing test is single-threaded.",
[BM,SET,INI],[("build and immutable setters take &self and only read","derive_builder_core/src/build_method.rs, derive_builder_core/src/setter.rs"),("no shared or static state in generated code","derive_builder_core/src/builder.rs")],
[],["results of concurrent operations, progress of every caller"]))
ps.append(P("C15","Builders never influence each other through hidden shared state",
"A newly created builder (by Default, by the generated empty constructor, under any name) always starts with every field unset, custom-typed fields at their type's Default and no user callback run other than those Defaults, no matter what other builders of the same or another type have done, failed at or are doing on other threads. Dropping, building, failing or panicking with one builder never changes any other builder or any target built before.",
["histories","schedules","fault_sequences"],
"every history over several coexisting builders of the same and of different types, interleaved across threads, with failures and panics anywhere",
"Each test owns exactly one builder at a time and drops it immediately.",
[BLD,BF,SET,INI],[("create_empty sets every field to Default::default()","derive_builder_core/src/builder.rs field_initializers"),("custom_constructor / create_empty renaming","derive_builder_core/src/macro_options/darling_opts.rs")],
[],["fields of fresh and bystander builders, earlier targets"]))
ps.append(P("C16","Generated items have the documented names, visibilities and signatures",
"For every struct, whatever else was or is being expanded in the same process, the builder, its setters (plain, fallible and collection), build method, empty constructor, error type and fields have exactly the names, prefixes, visibilities, receivers, argument and result types that the attributes and their struct-to-field inheritance declare. Nothing more is made visible, and Default, Clone, the error traits and listed derives are implemented exactly where asked for.",
["inputs","histories","fault_sequences","schedules"],
"every combination of naming, visibility, pattern, conversion and skipping attributes at struct and field level, in any session of an expansion process with wrong requests, stalled and dying workers",
"Tests sample a few combinations, each alone; privacy is checked by four compile-fail files.",
[DO,SET,BF,BM,BLD],[("VisibilityAttr and setter_vis, field_vis, build_method_vis","derive_builder_core/src/macro_options/darling_opts.rs"),("FieldWithDefaults::setter_ident, setter_into, setter_enabled","derive_builder_core/src/macro_options/darling_opts.rs"),("Setter::to_tokens","derive_builder_core/src/setter.rs")],
[],["the items in the answer to each expansion request"]))
ps.append(P("C17","Doc, cfg, allow and pass-through attributes land exactly where documented",
"For every struct, whatever else was or is being expanded in the same process: each doc, cfg and allow attribute of a field is on its builder field and on each of its setters (plain, fallible and collection), each cfg and allow of the struct on the builder struct and on its main impl, and what is in each builder_field_attr, builder_setter_attr, builder_struct_attr and builder_impl_attr on the field, the setters, the struct (after its derive) and the main impl, respectively. They are in source order there, nowhere else, and no other attribute of the user's appears anywhere.",
["inputs","histories","fault_sequences","schedules"],
"every list of attributes on struct and fields, in any session of an expansion process with wrong requests, stalled and dying workers",
"Tests sample a handful of attributes, each alone.",
[DO,BLD,SET,BF],[("distribute_and_unnest_attrs, unnest_from_one_attribute","derive_builder_core/src/macro_options/darling_opts.rs"),("attrs in Setter, BuilderField, struct_attrs and impl_attrs in Builder","derive_builder_core/src/setter.rs, derive_builder_core/src/builder_field.rs, derive_builder_core/src/builder.rs")],
[],["the attributes in the answer to each expansion request"]))
ps.append(P("C18","Generics and bounds carry over, with Clone added only by builders that clone",
"For every generic struct, whatever else was or is being expanded in the same process, the builder struct has the same lifetimes, type and const parameters in the same order with the same bounds, defaults and where clauses. Its impls (the main one and Default) have the same parameters, bounds and where clauses without the defaults, plus a Clone bound on each type parameter if and only if the struct's own pattern is mutable or immutable, so that a builder declared owned demands no Clone.",
["inputs","histories","fault_sequences","schedules"],
"every list of parameters, bounds and predicates under every pattern, in any session of an expansion process with wrong requests, stalled and dying workers",
"Tests sample a few generic structs, each alone.",
[BLD,DO],[("Builder::compute_impl_bounds, Builder::to_tokens","derive_builder_core/src/builder.rs"),("BuilderPattern::requires_clone","derive_builder_core/src/options.rs")],[],["the parameters of the items in the answer to each expansion request"]))
ps.append(P("C20","Every mistake in the attributes is rejected where it is",
"A definition with an unknown, misplaced, malformed, repeated or contradictory builder attribute (or of a type that is no struct with named fields) is never accepted with the mistake silently ignored: it is rejected with a compile error that points into the attributes or the declaration of the struct or field that has the mistake, whatever else is in the definition and whatever was or is being expanded in the same process. Mistakes of several fields are all pointed to at once unless the struct's own attributes are wrong too, and a definition without mistakes is accepted.",
["inputs","histories","fault_sequences","schedules"],
"every combination of options, values and places in attributes of any struct, in every session of a long-lived expansion process, also after and during requests that were rejected, stalled or died",
"Compile-fail tests sample a dozen files, one mistake each, each expanded first in its process.",
[DO,BK,LIB],[("Field::resolve, BuildFn::validation_needs_error, VisibilityAttr::from_list, parse_each, field_setter, unnest_from_one_attribute","derive_builder_core/src/macro_options/darling_opts.rs"),("BlockContents::try_from","derive_builder_core/src/block.rs")],
[],["the diagnostics in the answer to each expansion request, with their places"]))
ps.append(P("C21","Every expansion request is answered",
"Each expansion of a type definition that parses ends within a number of steps bounded by the size of the definition and answers with a builder or with compile errors: it never panics, never hangs or waits for another expansion and never answers with nothing, however wrong, damaged or unusual the attributes, fields or kind of type are and whatever was or is being expanded in the same process. A definition that follows the documentation is always answered with a well-formed builder.",
["inputs","histories","fault_sequences","schedules"],
"every definition, including damaged and meaningless attributes anywhere in it, in every session of a long-lived expansion process with workers that stall or die in the middle",
"The tests expand valid definitions and a dozen compile-fail files; nothing feeds the macro damaged attributes, unusual types or sessions.",
[LIB,DO,SET,BF,BLD],[("builder_for_struct","derive_builder_core/src/lib.rs"),("unnest_from_one_attribute, FieldLevelSetter, Field::resolve, VisibilityAttr","derive_builder_core/src/macro_options/darling_opts.rs"),("extract_type_from_option, setter_field_type","derive_builder_core/src/setter.rs, derive_builder_core/src/builder_field.rs")],
[],["the answer to each expansion request"]))
ps.append(P("C19","A definition means the same wherever it is expanded",
"A struct definition that compiles in a plain crate also compiles, and its builder behaves exactly the same under every history of operations and failures of user code, in a crate of any edition, in a no_std crate (with no_std and an accessible error type), with derive_builder's std and alloc features off, and behind a renamed dependency or a re-export that crate = ... names. The same holds inside a function, inside a macro_rules of the same or another crate (with names, types, visibilities, functions, literals and expressions passed in as fragments, and crate = $crate::...), and next to items of the user's own that are named like types, traits, modules or macros of the standard library (apart from Some, None, Ok, Err, From, Extend and write, which generated code uses by name, and a module std where the error type implements std's trait).",
["configurations","programs","histories","fault_sequences","schedules"],
"every definition in every combination of edition, feature set, crate root, place, macro around it and names in scope, under every history and fault sequence of its builder",
"CI builds two small crates for no_std and no alloc and one with another crate root; nothing is expanded among shadowed names, inside macros, or in other editions.",
[BLD,BM,SET,INI,"derive_builder_core/src/change_span.rs","derive_builder/src/lib.rs"],[("crate_root::export::core paths","derive_builder_core/src/*.rs, derive_builder/src/lib.rs export"),("spans of self, crate roots and conversions","derive_builder_core/src/build_method.rs, derive_builder_core/src/initializer.rs, derive_builder_core/src/change_span.rs"),("extract_type_from_option","derive_builder_core/src/setter.rs")],[],["results of every operation, compared with the model and with the same execution in plain surroundings; compilation of the definition here and there"]))
with open("/verif/properties.jsonl","w") as f:
    for p in ps: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in ps: jsonschema.validate(p,sch); assert p["statement"].count(". ")<=2,(p["id"])
print(len(ps))
