#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
S = "src/dynamicprompts/"

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Combinatorial generation yields every combination exactly once, in order",
 "For every template made of literal text, single- and multi-select variants, wildcards, variables and wraps whose alternatives are all finite, unlimited combinatorial generation produces exactly one prompt per combination of alternatives (leftmost part varying slowest; within one variant, selections whose members read the same are produced once), in that fixed order, and then stops. No combination is missing, extra, repeated or altered. An unknown wildcard counts as a part with a single alternative, its own wrapped name.",
 ["inputs", "programs"], "every template over the syntax (nesting, bounds, separators, wildcard files that contain templates) and every wildcard library",
 "Tests compare the output of a few dozen fixed templates; the guarantee is about all compositions of the constructs, where the bugs live (nested dedup, option equality, empty alternatives, unknown wildcards inside products).",
 ["samplers/combinatorial.py", "samplers/utils.py", "samplers/command_collection.py", "commands/variant_command.py", "sampling_result.py", "generators/combinatorial.py"],
 [("recursive product over sequence tokens", "samplers/combinatorial.py:_get_sequence"), ("ordered selections with dedupe and seen-set", "samplers/combinatorial.py:_get_variant"), ("k-permutations of options", "commands/variant_command.py:get_value_combinations")],
 observe=["CombinatorialPromptGenerator.generate", "SamplingContext.sample_prompts"])

prop("C02", "A prompt limit returns exactly that prefix, lazily",
 "Asking for at most n prompts returns exactly the first min(n, total) prompts of the unlimited enumeration, for every n including 0 and no limit, and does so without enumerating the rest, so templates with astronomically many combinations answer promptly. Random and cyclical sampling return exactly n prompts. A batched generator returns its inner generator's list once per batch, in order.",
 ["inputs", "configurations"], "every template, every limit n (0, 1, total-1, total, total+1, none), every batch count",
 "Tests use one or two limits on one small template; off-by-one prefix errors, eager enumeration of huge products and limits at the exact total need all n.",
 ["sampling_context.py", "generators/combinatorial.py", "generators/batched_combinatorial.py", "generators/randomprompt.py", "samplers/combinatorial.py"],
 [("islice over a lazy generator", "sampling_context.py:sample_prompts"), ("default limit", "constants.py:MAX_IMAGES"), ("batch loop", "generators/batched_combinatorial.py:generate")],
 observe=["CombinatorialPromptGenerator.generate(template, max_prompts)", "RandomPromptGenerator.generate(template, num_images)"])

prop("C03", "Random prompts are always valid and every alternative can occur",
 "Every prompt drawn at random from a template is one that the template denotes: it is obtained by choosing, at each variant and wildcard, among exactly the alternatives written there. Every choice whose weight is positive can occur, and an alternative with weight zero never does (when enough positively weighted alternatives exist).",
 ["inputs", "programs", "histories"], "every template and library, every state of the random source",
 "Tests patch the random choices or draw a handful of prompts; they cannot show that no draw ever leaves the language of the template nor that an alternative is unreachable.",
 ["samplers/random.py", "utils.py", "wildcards/values.py", "samplers/utils.py"],
 [("choose_without_replacement", "utils.py"), ("fresh sub-generators per draw", "samplers/random.py:_get_variant"), ("weighted wildcard choice", "wildcards/values.py:get_weighted_random_generator")],
 observe=["RandomPromptGenerator.generate"])

prop("C04", "Multi-select honours bounds, separator and non-repetition in every mode",
 "In every sampling mode a variant with a bound selects k of its options with lower <= k <= upper, where an omitted lower bound is 1, an omitted upper bound is the number of options, reversed bounds are swapped, bounds above the number of options are reduced to it, and 0 gives empty text. No option position is used twice in one selection, and `{k$$__wildcard__}` selects distinct values of the wildcard. Selections are joined by the given separator (a comma by default), with no separator left at either end of a joined selection.",
 ["inputs", "configurations"], "every bound expression, option count, separator, sampling mode and nesting",
 "Tests fix a few bounds per sampler; the rule is a case analysis over (omitted, reversed, excessive, zero) bounds x option counts x modes x separators.",
 ["commands/variant_command.py", "parser/parse.py", "samplers/random.py", "samplers/cycle.py", "samplers/combinatorial.py", "sampling_result.py", "utils.py"],
 [("bound parsing", "parser/parse.py:_parse_bound_expr"), ("bound normalisation", "commands/variant_command.py:__post_init__/adjust_range"), ("join and separator trimming", "sampling_result.py:joined")],
 observe=["generated prompts in all three modes"])

prop("C05", "Weights set relative frequencies",
 "In random sampling, the options of a variant and the values of a wildcard are chosen with probability proportional to their weights (1 when omitted), and each further pick of a multi-select follows the weights of the options not picked yet; the number of picks is uniform over the bounds. In combinatorial and cyclical sampling a wildcard value with weight w appears int(w) times in succession, except that as the sole option of a variant, where each value is one option, it appears once.",
 ["inputs", "histories"], "every weight vector (integers, decimals, equal and repeated weights), every pick position, every wildcard weight notation",
 "A distribution cannot be observed from single draws; the one test only compares the order of four counts for single picks of one file.",
 ["utils.py", "samplers/random.py", "wildcards/values.py", "wildcards/collection/structured.py", "parser/parse.py", "samplers/utils.py"],
 [("weights kept aligned with remaining values", "utils.py:choose_without_replacement"), ("cumulative weights", "wildcards/values.py:cum_weight_values"), ("weight repetition", "wildcards/values.py:iterate_string_values_weighted")],
 observe=["frequencies over many draws of RandomPromptGenerator.generate"])

prop("C06", "Cyclical sampling is a deterministic round-robin",
 "In cyclical mode the n-th prompt of a template is a function of the template and n alone: a variant or wildcard with K alternatives (K ordered selections for a multi-select) uses alternative n mod K, taking that alternative's own next value each time its turn comes, and all parts of a sequence advance together by one per prompt. It never ends and never skips, repeats or reorders an alternative within a round.",
 ["inputs", "histories"], "every template, every position n in the endless output",
 "Tests look at the first few outputs of flat templates; phase errors of nested cycles only show after whole rounds (least common multiples of the cycle lengths).",
 ["samplers/cycle.py", "samplers/base.py", "utils.py", "commands/variant_command.py"],
 [("cycle over stored sub-generators", "utils.py:next_sampler_next_value"), ("zip of combination members", "samplers/cycle.py:_get_combination_samples"), ("sequence rotation", "utils.py:rotate_all")],
 observe=["SamplingContext(default_sampling_method=CYCLICAL).sample_prompts"])

prop("C07", "Mixed samplers: per-part methods are honoured and never multiply output",
 "A part marked with a sampling symbol uses that method and passes it to its sub-parts, in whatever mode the template is run. Inside combinatorial generation, random and cyclical parts of a sequence do not change the number or order of prompts given by the finite parts; each such part, equal-looking ones included, advances its own stream by one per prompt. A combinatorial mark inside a random or cyclical part is ignored in favour of the surrounding method.",
 ["inputs", "programs"], "every placement of ~, @, ! on variants and wildcards at any depth, under each default mode",
 "Tests cover one marked part at a time with patched randomness; interactions of several marked parts, repeated equal parts and marked parts reached through variables are not sampled.",
 ["samplers/combinatorial.py", "samplers/command_collection.py", "sampling_context.py", "enums.py"],
 [("effective sampling method", "sampling_context.py:get_effective_sampling_method"), ("finite-in-nonfinite demotion", "sampling_context.py:get_sampler_and_context"), ("per-command streams", "samplers/command_collection.py:get_value")],
 observe=["generated prompts"])

prop("C08", "Variables: scope, evaluation time, preservation and failure",
 "An assigned variable is visible in its whole prompt and in wildcard values and variants expanded from it, and never outside it; the innermost (and, within one prompt, the last) assignment wins, while `?=` keeps a value that already exists. A plain assignment is re-evaluated at every use; an `=!` assignment is evaluated once, when sampling starts, in the scope of the assignments before it, and reads the same everywhere. An undefined variable uses its default if written (even an empty one), else the configured fallback, else raises KeyError, and a variable that depends on itself raises RecursionError instead of looping.",
 ["inputs", "programs", "histories"], "every arrangement of assignments, uses, defaults and nested wildcard scopes, in every mode",
 "Tests cover about ten fixed prompts; shadowing, ordering of `=`, `?=`, `=!` and leakage between nested scopes form a combinatorial space.",
 ["sampling_context.py", "samplers/base.py", "commands/variable_commands.py", "parser/parse.py"],
 [("assignment processing", "sampling_context.py:process_variable_assignments"), ("lookup and recursion guard", "samplers/base.py:_get_variable"), ("immutable context copies", "sampling_context.py:with_variables")],
 state=[("variables", "bindings visible in a context", "sampling_context.py:SamplingContext.variables"), ("_variables_being_sampled", "names on the current evaluation path", "sampling_context.py")],
 observe=["generated prompts and raised exceptions"])

prop("C09", "Wildcard parameters and computed wildcard names",
 "`__name(a=x, b=y)__` expands the wildcard's values with a and b bound to the given values, over any outer bindings and only for that expansion, also when it is the sole option of a variant. A wildcard name may contain variables and variants: it is evaluated once when sampling of that part starts, an undefined variable in it stands for its own name, and its default is used when given.",
 ["inputs", "programs"], "every parameter list, outer binding, nesting and path expression, in every mode",
 "Three tests pass one literal parameter; several parameters, shadowing, nested parameterised wildcards and parameters through `{...}` are not reached.",
 ["samplers/combinatorial.py", "samplers/cycle.py", "samplers/random.py", "samplers/utils.py", "parser/parse.py"],
 [("parameter parsing", "parser/parse.py:_parse_variable_spec"), ("context.with_variables(command.variables)", "samplers/*.py:_get_wildcard"), ("path sampling", "samplers/*.py:_get_wildcard")],
 observe=["generated prompts"])

prop("C10", "Wrap puts the inner prompt at the first marker, both sides evaluated",
 "`%{W$$I}` yields the text of W with its first wrap marker (three or more full stops, or a run of the supported ellipsis characters) replaced by the text of I, or W followed by I if there is no marker. W and I are evaluated before wrapping with the sampling method in force (combinatorially: every W with every I, W slowest; at random: one draw of each; cyclically: both advance together).",
 ["inputs"], "every wrapper and inner template, marker form, number and position of markers, in every mode",
 "Tests use one marker per wrapper with two inner options and only check sets; several markers, marker runs, markers produced by evaluation and cyclical mode are not covered.",
 ["commands/wrap_command.py", "sampling_result.py", "samplers/base.py", "samplers/random.py", "samplers/combinatorial.py"],
 [("split_wrapper_string", "commands/wrap_command.py"), ("as_wrapper", "sampling_result.py"), ("_get_wrap", "samplers/*.py")],
 observe=["generated prompts"])

prop("C11", "A wildcard reference yields the values of exactly the matching collections",
 "A wildcard reference (its wrapping, repeated or backward slashes and outer slashes normalised) denotes the values of exactly those collections whose full name matches it as a glob pattern; only if that gives no value, of those matching it anywhere deeper in the hierarchy. A reference that contains `..` never matches anything, and values never come from outside the configured roots. A reference that yields nothing appears in the prompt as its wrapped name, in every mode.",
 ["inputs", "configurations"], "every library (names, nesting, roots) and every reference string",
 "Tests query a fixed directory with a dozen references; matching is quantified over all names x patterns, including names that share prefixes, patterns with slashes and fallbacks that shadow direct hits.",
 ["wildcards/wildcard_manager.py", "wildcards/tree/tree.py", "wildcards/tree/build.py", "wildcards/utils.py", "samplers/utils.py"],
 [("clean_wildcard", "wildcards/utils.py"), ("match_collections", "wildcards/tree/tree.py"), ("recursive fallback", "wildcards/wildcard_manager.py:_get_values"), ("not-found fallback", "samplers/utils.py")],
 observe=["WildcardManager.get_values / match_collections / get_file / get_collection_names", "generated prompts"])

prop("C12", "The library loads every wildcard file faithfully and survives bad ones",
 "Each .txt file is a collection named by its path without extension, holding its non-blank, non-comment lines, stripped, in order; each .yaml/.json file contributes one collection per list (or string) under the slash-joined path of its keys, prefixed by the file's directory, or one collection named after the file if it is a flat list. In a list under a key, weights written `w::text` or as text/weight mappings are kept as weights (in flat lists and .txt files the text stays as it is); empty, unsupported and non-text entries are dropped without affecting their neighbours; hidden directories are ignored and linked ones followed; bytes of a .txt file that are no valid text are left out. A malformed file never prevents the other files from loading.",
 ["inputs", "fault_sequences"], "every directory tree of text, YAML and JSON files, including malformed and mixed ones",
 "Tests load one fixed directory with a single malformed file; the rule is over all file trees and entry shapes.",
 ["wildcards/tree/build.py", "wildcards/tree/node.py", "wildcards/tree/tree.py", "wildcards/collection/text_file.py", "wildcards/collection/structured.py", "wildcards/collection/list.py"],
 [("directory walk", "wildcards/tree/build.py:build_tree_from_path"), ("structured parsing", "wildcards/collection/structured.py"), ("text parsing", "wildcards/collection/text_file.py:get_values")],
 observe=["WildcardManager.get_collection_names / get_values / get_file().get_values"])

prop("C13", "Wildcard manager answers are coherent under every history of operations",
 "After any history of lookups, setting changes, cache clears, file edits, additions and removals, a lookup returns values consistent with the current settings: sorted by text if sorting is on, without duplicates if deduplication is on, in file order otherwise, and any permutation of that while shuffling is on. Once the cache is cleared (or sorting/deduplication is changed) lookups reflect the files as they are then (changes written through a collection itself may show at once); without such an event, repeated lookups keep returning the same values, regardless of how many other patterns were looked up in between, and looking up one pattern never changes the answer to another.",
 ["histories"], "every interleaving of lookups, settings changes, cache clears and file-system edits",
 "Tests perform at most three operations on one manager; cache staleness and cross-talk only appear after particular operation sequences (toggle-lookup-toggle, lookup-edit-clear-lookup, more than 100 distinct patterns).",
 ["wildcards/wildcard_manager.py", "wildcards/collection/text_file.py", "wildcards/values.py"],
 [("values cache with size limit", "wildcards/wildcard_manager.py:_get_values"), ("clear_cache in setters", "wildcards/wildcard_manager.py"), ("file cache", "wildcards/collection/text_file.py")],
 state=[("_values_cache", "pattern -> values", "wildcards/wildcard_manager.py"), ("_tree", "collections known", "wildcards/wildcard_manager.py"), ("_cache", "lines of one text file", "wildcards/collection/text_file.py")],
 observe=["WildcardManager.get_values after each operation"])

prop("C14", "Templates parse to exactly the structure they denote, or are rejected",
 "Every template string either is rejected with an error or parses to the unique structure the documented grammar gives it: every construct with its sampling symbol, bounds, separator, weights, names, defaults and flags, and every other character as literal text, in order, with nothing dropped, added or moved except comments and the optional whitespace next to construct delimiters. Plain text without syntax characters always parses to itself.",
 ["inputs"], "every string over the syntax characters (exhaustively up to a length bound, randomly beyond) and every well-formed nesting of constructs",
 "The grammar is recursive; tests parse about a hundred fixed strings, so ambiguities between bound, separator, weight, wildcard and variable syntax in unusual positions are not reached.",
 ["parser/parse.py", "parser/config.py", "commands/variant_command.py", "commands/sequence_command.py", "commands/literal_command.py", "commands/variable_commands.py", "commands/wildcard_command.py"],
 [("grammar", "parser/parse.py:create_parser"), ("parse actions", "parser/parse.py:_parse_*_command")],
 observe=["dynamicprompts.parser.parse.parse and the command objects it returns"])

prop("C15", "Custom syntax tokens mean the same as the defaults and never interfere",
 "Under any syntax configuration, a template written with its delimiters generates what the same template written with the default delimiters generates by default, in every mode and also inside wildcard values, while default delimiters that occur in none of the configured ones become plain text. Templates parsed under different configurations, in any order and any number of times, never influence one another.",
 ["configurations", "histories", "inputs"], "every configuration of delimiters, every template, every order of use of several configurations",
 "Tests try three fixed configurations with a handful of templates in isolation; nesting through wildcards and alternation between configurations (a cached parser) are not covered.",
 ["parser/parse.py", "parser/config.py", "sampling_context.py", "samplers/utils.py", "generators/randomprompt.py", "generators/combinatorial.py"],
 [("parser cache keyed by configuration", "parser/parse.py:get_cached_parser"), ("configuration passed to nested parses", "sampling_context.py:sample_prompts, samplers/utils.py:wildcard_to_variant")],
 state=[("_parser_cache", "configuration -> parser", "parser/parse.py")],
 observe=["parse, generated prompts"])

prop("C16", "Comments vanish and whitespace is preserved or squashed as configured",
 "A `#` comment (from the mark to the end of its line) contributes nothing to any prompt and does not change how the rest of the template is read. By default all other whitespace of literal text is preserved; with the ignore-whitespace option every prompt has no leading, trailing or repeated whitespace and otherwise consists of the same words.",
 ["inputs", "configurations"], "every position of comments and whitespace in every template, with and without the option, in every mode",
 "A handful of tests place comments at conventional places; comment and whitespace handling depends on the grammar position (before bounds, weights, separators, in paths, at end of input).",
 ["parser/parse.py", "sampling_context.py", "utils.py", "sampling_result.py", "generators/randomprompt.py", "generators/combinatorial.py"],
 [("prompt.ignore", "parser/parse.py:create_parser"), ("whitespace_squashed", "sampling_result.py"), ("squash in sample_prompts", "sampling_context.py")],
 observe=["generated prompts"])

prop("C17", "Seeds make random generation reproducible, one seed per prompt",
 "A random generator created with a seed produces the same prompts for the same sequence of calls every time, and generation with a list of seeds produces the same prompts every time whatever happened before. Each prompt is driven by its own seed: equal seeds give equal prompts for templates without cyclical parts, immediate assignments and computed wildcard names, a single seed (or a bare number) stands for all prompts, an empty list is no seeds, and a list of another length raises ValueError. Unlinked generators ignore the constructor's seed, and linked ones are not disturbed by other users of randomness.",
 ["inputs", "histories", "configurations"], "every template, library, seed list and history of earlier calls and interleaved consumers",
 "Tests check that seed() is called; they do not compare prompts under reseeding, so state carried over a reseed or a shared random source goes unnoticed.",
 ["generators/randomprompt.py", "sampling_context.py", "wildcards/values.py", "samplers/random.py", "constants.py"],
 [("reseed before each prompt", "generators/randomprompt.py:generate"), ("per-generator Random", "generators/randomprompt.py:_get_random"), ("no prefetch across a reseed", "wildcards/values.py:get_weighted_random_generator")],
 observe=["RandomPromptGenerator.generate(seeds=...)"])

prop("C18", "Sampling sessions are isolated from one another",
 "Any number of sampling runs, started from the same or different generators, contexts, parsed templates and wildcard managers and consumed in any interleaving or abandoned half-way, each produce exactly what they would produce alone. Sampling never changes a parsed template, a context or a wildcard library, so repeating a call repeats its (non-random) result.",
 ["schedules", "histories"], "every interleaving of pulls from several live runs, abandoned runs and repeated calls",
 "Tests consume one generator at a time to the end; shared mutable state shows only when two live runs are interleaved or a template object is reused.",
 ["sampling_context.py", "samplers/base.py", "samplers/combinatorial.py", "samplers/cycle.py", "samplers/command_collection.py", "wildcards/values.py", "parser/parse.py"],
 [("frozen commands and contexts", "commands/*.py, sampling_context.py"), ("state held only in Python generators", "samplers/*.py")],
 observe=["values pulled from each run"])

prop("C19", "Jinja templates: one prompt per block or per render, with documented helpers",
 "A Jinja template that executes `{% prompt %}` blocks yields one prompt per executed block in execution order, repeated per requested render; otherwise it yields one prompt per render; with the limit option never more than requested, and squashed whitespace if so configured. Blocks inside a block complete before it. wildcard() and all_combinations() return the full combinatorial expansion (up to the library's limit of 1000), permutations() every ordered selection of the sizes asked for, choice/weighted_choice/random_sample a member of their arguments' alternatives. A template syntax error raises the library's own exception, no call's blocks leak into a later call, and no later call changes what an earlier one returned.",
 ["inputs", "histories"], "every template over loops, conditions and blocks, every num_prompts, option setting and sequence of calls",
 "Tests render a dozen fixed templates once; leakage between calls, limit/blocks interplay and helper results over arbitrary libraries are not covered.",
 ["generators/jinjagenerator.py", "jinja_extensions.py"],
 [("prompt block collection", "jinja_extensions.py:PromptExtension._prompt"), ("limit and squash", "generators/jinjagenerator.py:generate"), ("helper functions", "jinja_extensions.py")],
 state=[("prompt_blocks", "blocks executed during this call", "generators/jinjagenerator.py:_build_jinja_template")],
 observe=["JinjaGenerator.generate"])

prop("C20", "Attention emphasis only adds one weight around existing words",
 "For every inner prompt the attention generator returns one prompt, in order, that is either unchanged (exactly when it has no emphasisable phrase) or has every occurrence of one phrase of that prompt replaced by `(phrase:w)` with w between the configured minimum and maximum, in either argument order, rounded to two decimals. With the built-in chunker a phrase is a part of the prompt between the marks , ; : . ? ! ( ) that does not consist of digits or punctuation alone. Removing the added markup gives the original prompt back.",
 ["inputs", "histories"], "every prompt text, attention range and random outcome, with the built-in chunker",
 "Tests use two prompts and mocked chunkers; phrases that contain one another, punctuation-only or numeric prompts and cached chunk lists are not exercised.",
 ["generators/attentiongenerator.py"],
 [("replace of one chunk", "generators/attentiongenerator.py:_add_emphasis"), ("cheap_chunker", "generators/attentiongenerator.py")],
 observe=["AttentionGenerator.generate"])

prop("C21", "Magic prompts: aligned, blocklist retried within bounds, original kept",
 "The magic generator returns exactly one prompt per inner prompt, in the same order, each made from its own inner prompt and still starting with it, unaltered, whenever the model's output does. The rest of the text is tidied: braces become parentheses, marks and blanks at its ends and misplaced blanks around brackets, hyphens, commas and underscores go, a phrase followed by k exclamation marks becomes `(phrase:w)` with w = 1.1^k to two decimals, and no other word is changed, lost or moved. While any output matches the blocklist exactly the blocked ones are regenerated from their own originals, at most the allowed number of times, and the others are left untouched; if the model can produce an acceptable text within that limit no blocked text is returned.",
 ["inputs", "histories", "fault_sequences"], "every sequence of model answers, blocklist, number of prompts and attempt limit",
 "Tests mock one or two rounds with one blocked prompt; index alignment over several rounds with several blocked positions is a history property.",
 ["generators/magicprompt.py"],
 [("regeneration loop", "generators/magicprompt.py:_regenerate_blocked_prompts"), ("prefix kept out of the clean-up", "generators/magicprompt.py:clean_up_magic_prompt")],
 state=[("magic_prompts", "current text per position", "generators/magicprompt.py:_regenerate_blocked_prompts")],
 observe=["MagicPromptGenerator.generate with a scripted pipeline"])

prop("C22", "Search-based generation: right query, right count, every failure wrapped",
 "The search generator sends one query per call, made from the first prompt of its inner generator (a random number if that is blank), and returns exactly the requested number of prompts, each one of those in the answer. Any failure of the request or of the answer's shape is raised as the library's own generator exception and nothing else.",
 ["inputs", "fault_sequences"], "every query, count, answer shape and failure of the remote service",
 "Tests mock one successful answer and one failure; malformed answers and every count are not enumerated.",
 ["generators/feelinglucky.py", "generators/dummygenerator.py", "generators/promptgenerator.py"],
 [("query and wrapping of errors", "generators/feelinglucky.py:generate")],
 observe=["FeelingLuckyGenerator.generate with a scripted transport"])

prop("C23", "Each magic generator keeps using the model it was given",
 "Whatever other magic generators are created or switched in between, a magic generator uses, and names, the model it was created with or last switched to, with its own length, temperature and batch settings. Asking again for the model loaded last does not load it again. A load that fails is reported, leaves every existing generator as it was, and is tried again the next time that model is asked for.",
 ["histories", "fault_sequences"], "every history of creating, switching and using generators with any models, with loads failing at any point",
 "Tests replace the loading code by a mock and create one generator; sharing of the loaded model through class attributes only shows with several generators, models and failed loads.",
 ["generators/magicprompt.py"],
 [("model cache in class attributes", "generators/magicprompt.py:set_model"), ("loading", "generators/magicprompt.py:_load_pipeline")],
 state=[("MagicPromptGenerator._model_name", "model loaded last", "generators/magicprompt.py"), ("MagicPromptGenerator.generator", "its pipeline", "generators/magicprompt.py")],
 observe=["MagicPromptGenerator(...)", "set_model", "model_name", "generate with a stand-in for transformers"])

prop("C24", "The hierarchy of a library lists each collection once, under its own path",
 "For every set of roots (directories and in-memory maps, with any prefixes), the tree of a wildcard manager has exactly one node per directory part of the collections' names, each holding exactly the collections directly in it and the child nodes directly below it; walking any node gives every collection beneath it exactly once, under its full name and with its own values; a tree rebuilt from the root node knows the same names. A root that is no directory is skipped with a warning and the others are loaded, an unknown full name raises KeyError, and giving both a path and roots raises ValueError.",
 ["inputs", "configurations"], "every set of collection names, prefixes, directories, in-memory maps and missing roots, in every order of insertion",
 "Tests walk the tree of one fixed directory; names that are prefixes of one another, collections and directories of the same name, and several roots are not covered.",
 ["wildcards/tree/tree.py", "wildcards/tree/node.py", "wildcards/tree/build.py", "wildcards/wildcard_manager.py"],
 [("insertion by path parts", "wildcards/tree/tree.py:from_map"), ("walking", "wildcards/tree/node.py:walk_items"), ("roots", "wildcards/tree/build.py:build_tree_from_root_map")],
 observe=["WildcardManager.tree.root", "WildcardTreeNode.walk_items / walk_full_names / get_full_names", "WildcardTree.get_collection"])

prop("C25", "Stacked generators: each passes the call on unchanged and adds its own effect",
 "Generators can be stacked in any order and to any height on a random, combinatorial or dummy generator. Each of the wrapping generators (attention, magic, batched) passes template, count and options such as seeds to the one below unchanged, once per call, or once per batch if it is the batched one, and returns what it got from below with only its own effect applied: order and number of prompts are kept, batches are concatenated. The dummy generator repeats the template as it is.",
 ["inputs", "configurations"], "every stack of generators up to a bounded height, template, library, count, seeds, batch count and attention range",
 "Tests mock the inner generator of one wrapper at a time; dropped or changed arguments and reordered results show only when real generators are stacked.",
 ["generators/attentiongenerator.py", "generators/magicprompt.py", "generators/batched_combinatorial.py", "generators/dummygenerator.py"],
 [("delegation", "generators/attentiongenerator.py:generate"), ("delegation", "generators/magicprompt.py:generate"), ("batches", "generators/batched_combinatorial.py:generate")],
 observe=["generate of every generator of the stack"])

prop("C26", "Command trees put together through the API mean what their structure says",
 "A tree of commands built by hand (with the constructors, from_literals, from_literals_and_weights, or as variables of a context) means in every mode what its structure says, just as a parsed template does, also where no template text could say it: any command may carry a sampling method, a sequence may have a separator between its parts, the bounds of a variant may come in either order or below zero, and one command object used in several places counts as so many separate parts. Sampling never changes the tree, and sampling it again gives results the tree means as well.",
 ["inputs", "programs"], "every tree over the command types (nesting, marks, separators, bounds, shared objects), every mode, limit and variables of the context",
 "Tests sample a few literals, sequences and variants built by hand; marks on sequences and wraps, separators, reversed bounds and shared objects inside nested trees are not covered.",
 ["commands/sequence_command.py", "commands/variant_command.py", "commands/base.py", "samplers/base.py", "samplers/combinatorial.py", "samplers/random.py", "samplers/cyclical.py", "sampling_context.py"],
 [("method of a command", "sampling_context.py:generator_from_command"), ("bounds normalised", "commands/variant_command.py:__post_init__"), ("separator of a sequence", "samplers/utils.py"), ("sequence of parts", "samplers/combinatorial.py:_get_sequence")],
 observe=["SamplingContext.sample_prompts(command)", "SamplingContext.generator_from_command"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
